NAME = "dataplicity/rpi.py"
EDITS = [
    ('''    revision_code = None
    try:
        with open("/proc/cpuinfo", "rb") as fp:
            for line in fp:
                if b":" not in line:
                    continue
                key, _, value = line.partition(b":")
                key = key.strip().lower()
                value = value.strip().lower()
                if key == b"revision":
                    revision_code = value
                    break
    except IOError:
        return None
    else:
        if isinstance(revision_code, bytes):
            return revision_code.decode("utf-8", "replace")
        return revision_code
''', '''    try:
        with open("/proc/cpuinfo", "rb") as fp:
            lines = fp.read().split(b"\\n")
    except IOError:
        return None
    for line in lines:
        key, colon, value = line.partition(b":")
        if colon and key.strip().lower() == b"revision":
            return value.strip().lower().decode("utf-8", "replace")
    return None
'''),
]
