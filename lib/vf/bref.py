"""Independent reference for bencode (recursive descent, written from the format).

parse(data) -> (value, end) of the value at the start, or raises Malformed.
Grammar: integers i<-?digits>e, strings <digits>:<bytes>, lists l...e,
dictionaries d(<string><value>)*e.
"""


class Malformed(Exception):
    pass


class TooLong(Malformed):
    """A number with more digits than any implementation has to accept."""


MAX_DIGITS = 4000


DIGITS = b"0123456789"


def dumps(value):
    if isinstance(value, bool) or value is None or isinstance(value, float):
        raise TypeError(value)
    if isinstance(value, int):
        return b"i" + str(value).encode("ascii") + b"e"
    if isinstance(value, str):
        value = value.encode("utf-8")
    if isinstance(value, bytes):
        return str(len(value)).encode("ascii") + b":" + value
    if isinstance(value, (list, tuple)):
        return b"l" + b"".join(dumps(v) for v in value) + b"e"
    if isinstance(value, dict):
        out = [b"d"]
        for key in sorted(value):
            if not isinstance(key, bytes):
                raise TypeError(key)
            out.append(dumps(key))
            out.append(dumps(value[key]))
        out.append(b"e")
        return b"".join(out)
    raise TypeError(type(value))


def normal(value):
    """The value that decoding an encoding of `value` must give."""
    if isinstance(value, str):
        return value.encode("utf-8")
    if isinstance(value, (list, tuple)):
        return [normal(v) for v in value]
    if isinstance(value, dict):
        return {k: normal(v) for k, v in value.items()}
    return value


def parse(data, pos=0, depth=0, max_depth=100000):
    """Iterative parser. Returns (value, end)."""
    stack = []  # [kind, items]

    def string(pos):
        start = pos
        while pos < len(data) and data[pos:pos + 1] in DIGITS_SET:
            pos += 1
        if pos == start or data[pos:pos + 1] != b":":
            raise Malformed("bad length at %d" % start)
        digits = data[start:pos].lstrip(b"0") or b"0"
        if len(digits) > 15:
            raise Malformed("truncated string at %d" % start)
        length = int(digits)
        pos += 1
        if pos + length > len(data):
            raise Malformed("truncated string at %d" % start)
        return data[pos:pos + length], pos + length

    while True:
        if pos >= len(data):
            raise Malformed("truncated at %d" % pos)
        char = data[pos:pos + 1]
        value = None
        complete = True
        if char == b"i":
            end = data.find(b"e", pos)
            if end < 0:
                raise Malformed("truncated integer")
            text = data[pos + 1:end]
            digits = text[1:] if text[:1] == b"-" else text
            if not digits or any(data_char not in DIGITS for data_char in digits):
                raise Malformed("bad integer %r" % text)
            if len(digits) > MAX_DIGITS:
                raise TooLong("integer of %d digits" % len(digits))
            value = int(text)
            pos = end + 1
        elif char in DIGITS_SET:
            value, pos = string(pos)
        elif char == b"l" or char == b"d":
            if len(stack) >= max_depth:
                raise Malformed("too deep")
            stack.append((char, []))
            pos += 1
            complete = False
        elif char == b"e" and stack:
            kind, items = stack.pop()
            pos += 1
            if kind == b"l":
                value = items
            else:
                if len(items) % 2:
                    raise Malformed("key without value")
                value = {}
                for key, val in zip(items[::2], items[1::2]):
                    if not isinstance(key, bytes):
                        raise Malformed("key is not bytes")
                    value[key] = val
        else:
            raise Malformed("unexpected %r at %d" % (char, pos))
        if complete:
            if not stack:
                return value, pos
            stack[-1][1].append(value)


DIGITS_SET = frozenset(bytes([c]) for c in DIGITS)
