"""C01: bencode encoding is lossless and canonical."""
import copy
import random

from vf import bref

RULE = ("A case is one value: boundary values (every size 0-300 and around powers of ten, integers around powers "
        "of 2 and 10 with both signs, every key-ordering pattern), random nested values of the data model, and "
        "values outside it at a random nesting position. encode() is compared with an independent encoder, the "
        "bytes are decoded by the agent and by an independent parser. Non-trivial: distinct values.")
SHARDS = {"quick": ["boundary", "random1", "random2", "invalid"],
          "thorough": ["boundary", "invalid"] + ["random%d" % i for i in range(14)]}


def make(rng, depth):
    roll = rng.random()
    if depth <= 0 or roll < 0.55:
        kind = rng.randrange(5)
        if kind == 0:
            return rng.choice([0, 1, -1, 9, 10, -10, 255, 256, 2 ** 31, -2 ** 63, 2 ** 64, 10 ** 18, 10 ** 40 + 7,
                               rng.randrange(-10 ** 6, 10 ** 6), rng.getrandbits(rng.randrange(1, 300)),
                               -rng.getrandbits(rng.randrange(1, 300))])
        if kind in (1, 2):
            size = rng.choice([0, 1, 2, 9, 10, 11, rng.randrange(40), rng.randrange(40), 99, 100, 101])
            if rng.random() < 0.5:
                return bytes(rng.choice(b"ide l:0123456789e-ldn\x00\xff") for _ in range(size))
            return bytes(rng.getrandbits(8) for _ in range(size))
        if kind == 3:
            return "".join(rng.choice("abie0:\u00e9\u20ac\U0001f600\x00 \n") for _ in range(rng.randrange(12)))
        return rng.choice([[], (), {}, b"", ""])
    count = rng.randrange(5)
    if roll < 0.75:
        return [make(rng, depth - 1) for _ in range(count)]
    if roll < 0.82:
        return tuple(make(rng, depth - 1) for _ in range(count))
    keys = [bytes(rng.choice(b"ab\x00\xff1:e") for _ in range(rng.randrange(4))) for _ in range(count)]
    return {k: make(rng, depth - 1) for k in keys}


def same_types(a, b):
    """Equal, and of the same types all the way down."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same_types(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_types(a[k], b[k]) for k in a)
    return a == b


def verify(ctx, bencode, value):
    want = bref.dumps(value)
    before = copy.deepcopy(value)
    try:
        got = bencode.encode(value)
    except Exception as error:
        ctx.fail("encode refused a valid value", value=value, error=repr(error))
    ctx.check(type(got) is bytes and got == want, "encode is not canonical", value=value, got=got, want=want)
    ctx.check(value == before, "encode changed its argument", before=before, after=value)
    try:
        back = bencode.decode(got)
    except Exception as error:
        ctx.fail("decode refused an encoded value", value=value, encoded=got, error=repr(error))
    ctx.check(same_types(back, bref.normal(value)), "decode(encode(v)) is not v", value=value, encoded=got, back=back)
    ctx.check(bref.parse(got) == (bref.normal(value), len(got)), "encoded bytes denote another value", value=value, encoded=got)
    ctx.count("round_trips")
    ctx.case(want, sample=value)


class Weird(object):
    pass


INVALID = [None, True, False, 1.0, 0.0, float("nan"), float("inf"), -2.5, 3 + 4j, set(), frozenset([1]), object, Weird(),
           bytearray(b"abc"), {"text": 1}, {1: 2}, {None: 1}, {(1,): 1}, {b"ok": 1, "bad": 2}, {b"a": 1, 5: 2},
           {True: 1}, range(3), memoryview(b"xy"), Ellipsis, (x for x in [1])]


def bury(rng, value, depth):
    for _ in range(depth):
        kind = rng.randrange(4)
        if kind == 0:
            value = [1, value, b"x"]
        elif kind == 1:
            value = (value,)
        elif kind == 2:
            value = {b"k": value, b"j": 1}
        else:
            value = [[], {}, value]
    return value


def run(ctx, shard):
    from dataplicity.m2m import bencode
    ctx.require("round_trips" if shard != "invalid" else "refusals", 50)
    rng = ctx.rng()
    if shard == "boundary":
        sizes = list(range(0, 300)) + [n + d for n in (1000, 10000, 65536, 100000) for d in (-1, 0, 1)]
        for size in sizes:
            verify(ctx, bencode, b"x" * size)
            verify(ctx, bencode, "y" * size)
        verify(ctx, bencode, b"\xff" * 3000000)
        verify(ctx, bencode, "\u20ac" * 4000)
        for base in [2 ** n for n in (0, 7, 8, 15, 16, 31, 32, 62, 63, 64, 127, 128, 512)] + [10 ** n for n in range(0, 60)]:
            for delta in (-1, 0, 1):
                verify(ctx, bencode, base + delta)
                verify(ctx, bencode, -(base + delta))
        for count in (0, 1, 2, 3, 100, 5000):
            verify(ctx, bencode, list(range(count)))
            verify(ctx, bencode, [b""] * count)
            verify(ctx, bencode, {str(n).encode(): n for n in range(count)})
        names = [b"", b"\x00", b"a", b"aa", b"ab", b"b", b"B", b"\xff", b"1", b"10", b"2", b"\x80a", b"z" * 300]
        for _ in range(ctx.pick(400, 4000)):
            chosen = rng.sample(names, rng.randrange(1, len(names)))
            verify(ctx, bencode, {k: i for i, k in enumerate(chosen)})
        for depth in (1, 2, 10, 50, 100, 150):
            value = b"x"
            for level in range(depth):
                value = [value] if level % 2 else {b"k": value}
            verify(ctx, bencode, value)
        for value in ([], {}, (), [[]], [{}], [()], {b"": {}}, [[], []], [0], [b""], [""], {b"e": b"e"}, [b"e", b"i1e", -1]):
            verify(ctx, bencode, value)
    elif shard == "invalid":
        for repeat in range(ctx.pick(60, 600)):
            for value in INVALID:
                for depth in (0, 1, rng.randrange(2, 6)):
                    buried = bury(rng, value, depth)
                    try:
                        got = bencode.encode(buried)
                    except Exception:
                        ctx.count("refusals")
                        ctx.case((repr(buried)))
                    else:
                        ctx.fail("a value outside the data model was encoded", value=repr(buried), got=got)
    else:
        for _ in range(ctx.pick(6000, 60000)):
            verify(ctx, bencode, make(rng, rng.randrange(1, 6)))
