"""C02: decoding arbitrary bytes ends in a value or a decode error."""
from vf import bref
import c01

RULE = ("A case is one byte string given to decode(): every truncation of and every single-byte edit of valid "
        "encodings, all strings up to length 4 (quick) or 6 (thorough) over the structural alphabet, hand-written "
        "malformed forms at every nesting position, deep nesting, huge lengths, random bytes. The outcome is "
        "compared with an independent parser: malformed input must raise DecodeError, accepted input must give "
        "the denoted value. Non-trivial: distinct inputs.")
SHARDS = {"quick": ["small", "mutants1", "mutants2", "forms", "deep"],
          "thorough": ["small", "small-b", "small-c", "forms", "deep"] + ["mutants%d" % i for i in range(11)]}

ALPHABET = b"ilde0123:-a"


def verify(ctx, bencode, data, kind):
    try:
        want, end = bref.parse(data)
        malformed = None
    except bref.TooLong:
        # A value or a refusal; the decoder may limit the digits of integers.
        try:
            bencode.decode(data)
        except bencode.DecodeError:
            pass
        except BaseException as error:
            ctx.fail("decode raised something else than its decode error", data=data, error=repr(error))
        ctx.case((len(data), data[:100]))
        return
    except bref.Malformed as error:
        want, malformed = None, str(error)
    try:
        got = bencode.decode(data)
        outcome = "value"
    except bencode.DecodeError as error:
        outcome, got = "refused", error
    except BaseException as error:
        ctx.fail("decode raised something else than its decode error", data=data, error=repr(error))
    if malformed is not None:
        ctx.check(outcome == "refused", "malformed input was decoded to a value", data=data, why=malformed, got=got)
        ctx.count("malformed_refused")
    elif outcome == "value":
        ctx.check(c01.same_types(got, want), "decode gave another value than the input denotes", data=data, got=got, want=want)
        ctx.count("values")
    else:
        # Forms that only a lenient parser accepts (03:abc, i-0e) may be refused.
        ctx.check(bref.dumps(want) != data[:end], "well-formed input was refused", data=data, error=repr(got))
        ctx.count("lenient_refused")
    ctx.case(data if len(data) < 200 else (len(data), data[:100], hash(data)), sample=data if len(data) < 60 else None)


def run(ctx, shard):
    from dataplicity.m2m import bencode
    rng = ctx.rng()
    with ctx.guard("decoding (shard %s)" % shard, 200):
        if shard.startswith("small"):
            longest = ctx.pick(4, 5)
            alphabet = {"small": ALPHABET, "small-b": b"dle1:ai", "small-c": b"dl0e1:"}[shard]
            if shard != "small":
                longest = {"small-b": 7, "small-c": 8}[shard]
            stack = [b""]
            while stack:
                data = stack.pop()
                verify(ctx, bencode, data, "small")
                if len(data) < longest:
                    for char in alphabet:
                        stack.append(data + bytes([char]))
            ctx.require("malformed_refused", 1000)
            ctx.require("values", 50)
        elif shard.startswith("mutants"):
            for _ in range(ctx.pick(250, 1500)):
                base = bref.dumps(c01.make(rng, rng.randrange(1, 5)))[:400]
                verify(ctx, bencode, base, "valid")
                step = max(1, len(base) // 60)
                for position in range(0, len(base) + 1, step):
                    verify(ctx, bencode, base[:position], "truncated")
                for _ in range(30):
                    position = rng.randrange(len(base) + 1)
                    kind = rng.randrange(4)
                    char = bytes([rng.choice(ALPHABET + b"9e:lde") if rng.random() < 0.8 else rng.getrandbits(8)])
                    if kind == 0:
                        data = base[:position] + char + base[position:]
                    elif kind == 1:
                        data = base[:position] + base[position + 1:]
                    elif kind == 2:
                        data = base[:position] + char + base[position + 1:]
                    else:
                        other = rng.randrange(len(base) + 1)
                        data = base[:position] + base[other:]
                    verify(ctx, bencode, data, "edited")
                verify(ctx, bencode, bytes(rng.getrandbits(8) for _ in range(rng.randrange(30))), "random")
            ctx.require("malformed_refused", 500)
            ctx.require("values", 50)
        elif shard == "forms":
            forms = [b"", b"e", b"i", b"ie", b"i-e", b"i--1e", b"i1-e", b"i1-2e", b"i+1e", b"i 1e", b"i1 e", b"i1.0e", b"i1_0e",
                     b"i0x1e", b"ixe", b"i\xd9\xa1e", b":", b":abc", b"-1:a", b"1", b"1:", b"3:ab", b"1x:a", b"1 :a", b"+1:a",
                     b"1_0:aaaaaaaaaa", b"l", b"d", b"li1e", b"di1ei2ee", b"dle1:ae", b"dde1:ae", b"d1:ae", b"d1:a", b"d1:ai1e",
                     b"d1:ai1e1:be", b"li1ee"[:-1], b"d1:ad1:bee", b"lee"[1:], b"d1:a", b"x", b"\x00", b"\xff", b"n", b"0",
                     b"00", b"99999999999999999999:a", b"9223372036854775807:a", b"9223372036854775808:a", b"18446744073709551616:",
                     b"2147483648:a", b"4294967296:ab", b"d0:0:", b"d0:e", b"ldee"[:-1], b"d1:a1:be1", b"i1", b"i123", b"1e:",
                     b"\xb2:ab", b"i\xb2e", b"1\xb2:a"]
            for form in forms:
                verify(ctx, bencode, form, "form")
                for prefix, suffix in ((b"l", b"e"), (b"d1:k", b"e"), (b"ll", b"ee"), (b"li1e", b"3:abce"), (b"d1:ai1e1:b", b"e"),
                                       (b"l", b""), (b"d", b"e"), (b"d", b"i1ee"), (b"d1:ali1e", b"ee")):
                    verify(ctx, bencode, prefix + form + suffix, "form")
            # An input followed by anything denotes the value at its start.
            for _ in range(500):
                value = c01.make(rng, 3)
                verify(ctx, bencode, bref.dumps(value) + bytes(rng.choice(ALPHABET) for _ in range(rng.randrange(1, 5))), "tail")
            for digits in (1000, 20000):
                verify(ctx, bencode, b"i" + b"9" * digits + b"e", "long integer")
                verify(ctx, bencode, b"9" * digits + b":abc", "long length")
            ctx.require("malformed_refused", 200)
        else:
            for depth in (10, 100, 150):
                for opener, closer in ((b"l", b"e"), (b"d1:a", b"e"), (b"ld1:k", b"ee")):
                    inner = b"i1e"
                    verify(ctx, bencode, opener * depth + inner + closer * depth, "deep")
                    verify(ctx, bencode, opener * depth + inner, "deep")
                    verify(ctx, bencode, opener * depth, "deep")
            # Beyond any stack: either the value or the decode error, and never a crash.
            for depth in (400, 1000, 5000, 50000, 300000):
                for data in (b"l" * depth + b"e" * depth, b"l" * depth, b"d1:a" * depth, b"d1:a" * depth + b"i1e" + b"e" * depth):
                    try:
                        got = bencode.decode(data)
                        levels = 0
                        while isinstance(got, (list, dict)) and got:
                            got = got[0] if isinstance(got, list) else got[b"a"]
                            levels += 1
                        complete = data.endswith(b"e")
                        ctx.check(complete and levels in (depth - 1, depth), "excessive nesting gave a wrong value", depth=depth, levels=levels)
                    except bencode.DecodeError:
                        pass
                    except BaseException as error:
                        ctx.fail("excessive nesting raised something else than the decode error", depth=depth,
                                 start=data[:8], error=repr(error)[:200])
                    ctx.count("deep")
                    ctx.case((depth, data[:5], data[-1:]))
            ctx.require("deep", 10)
