NAME = "dataplicity/m2m/bencode.py"
EDITS = [
("""        if isinstance(obj, bytes):
            append("{}:".format(len(obj)).encode())
            append(obj)
        elif isinstance(obj, text_type):
            obj_bytes = obj.encode("utf-8")
            append("{}:".format(len(obj_bytes)).encode())
            append(obj_bytes)
        elif""", """        if isinstance(obj, text_type):
            obj = obj.encode("utf-8")
        if isinstance(obj, bytes):
            append(b"%d:%s" % (len(obj), obj))
        elif"""),
("""            keys = sorted(obj.keys())
            for k in keys:
                if not isinstance(k, bytes):
                    raise EncodingError("dict keys must be bytes")
                add_encode(k)
                add_encode(obj[k])
""", """            if not all(isinstance(k, bytes) for k in obj):
                raise EncodingError("dict keys must be bytes")
            for k, v in sorted(obj.items(), key=lambda item: item[0]):
                add_encode(k)
                add_encode(v)
"""),
("""        kv = []
        while 1:
            k = _decode(read)
            if k is None:
                break
            if not isinstance(k, bytes):
                raise DecodeError("dict keys must be bytes")
            v = _decode(read)
            if v is None:
                raise DecodeError("missing value in dict")
            kv.append((k, v))
        return dict(kv)
""", """        d = {}
        for k in iter(lambda: _decode(read), None):
            if not isinstance(k, bytes):
                raise DecodeError("dict keys must be bytes")
            v = _decode(read)
            if v is None:
                raise DecodeError("missing value in dict")
            d[k] = v
        return d
"""),
("""        l = []
        while 1:
            i = _decode(read)
            if i is None:
                break
            l.append(i)
        return l
""", """        return list(iter(lambda: _decode(read), None))
"""),
]
