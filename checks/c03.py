"""C03: m2m packets round-trip and ill-formed packets are refused."""
from vf import bref, proto
import c01

RULE = ("A case is one packet built from generated fields (positionally, by name, through the class and through the "
        "factory) and taken through bytes and back, or one byte string that is no packet: non-bencode, non-lists, "
        "bad or unknown types, every packet type with each field removed and with each field given a value of every "
        "other type. Non-trivial: distinct byte strings.")
SHARDS = ["roundtrip1", "roundtrip2", "illformed", "noise"]

WRONG = [0, -1, 5, 2 ** 70, b"", b"text", b"7", [], [1], [b"x"], {}, {b"k": 1}]


def value_of(rng, kind):
    if kind is int:
        return rng.choice([0, 1, -1, 5, 255, 65535, 2 ** 31, 2 ** 63, -2 ** 40, rng.randrange(10 ** 6)])
    if kind is bytes:
        return rng.choice([b"", b"e", b"i1e", b"x" * rng.randrange(200), bytes(rng.getrandbits(8) for _ in range(rng.randrange(60))),
                           b"\x00\xff\n", "caf\u00e9".encode("utf-8"), b"y" * 33, b"z" * 70000 if rng.random() < 0.02 else b"z"])
    if kind is list:
        return [c01.make(rng, 2) for _ in range(rng.randrange(4))]
    if kind is dict:
        return {bytes(rng.choice(b"abc") for _ in range(rng.randrange(1, 4))): c01.make(rng, 2) for _ in range(rng.randrange(4))}
    raise TypeError(kind)


def fields_of(packet_class):
    return [(name, kind) for name, kind in packet_class.attributes]


def norm_kind(kind):
    kinds = kind if isinstance(kind, tuple) else (kind,)
    for candidate in (int, bytes, dict, list):
        if candidate in kinds:
            return candidate
    return None


def verify(ctx, packets, number, name, fields, values, rng):
    M2MPacket, PacketType = packets.M2MPacket, packets.PacketType
    names = [field for field, _kind in fields]
    how = rng.randrange(4)
    given = list(values)
    if how == 0:
        packet = M2MPacket.create(number, *given)
    elif how == 1:
        packet = M2MPacket.create(PacketType(number), **dict(zip(names, given)))
    elif how == 2:
        packet = M2MPacket.registry[number](*given)
    else:
        split = rng.randrange(len(given) + 1)
        packet = M2MPacket.registry[number](*given[:split], **dict(zip(names[split:], given[split:])))
    data = packet.as_bytes
    want = [number] + [bref.normal(v) for v in values]
    ctx.check(type(data) is bytes and bref.parse(data) == (want, len(data)), "packet bytes do not hold the packet's type and fields",
              packet=name, values=values, data=data)
    for parser in (M2MPacket.from_bytes,):
        try:
            parsed = parser(data)
        except Exception as error:
            ctx.fail("a packet's own bytes were refused", packet=name, data=data, error=repr(error))
        ctx.check(type(parsed) is type(packet) and int(parsed.type) == number, "bytes parse to another packet type",
                  packet=name, data=data, got=repr(type(parsed)))
        for field, value in zip(names, values):
            ctx.check(c01.same_types(getattr(parsed, field), bref.normal(value)), "a field does not survive the round trip",
                      packet=name, field=field, value=value, got=getattr(parsed, field))
        ctx.check(parsed.as_bytes == data, "a parsed packet serialises differently", packet=name, data=data)
    repr(packet)
    ctx.count("round_trips")
    ctx.case(data if len(data) < 300 else (len(data), data[:100]), sample={"packet": name, "fields": values})


def refuse(ctx, packets, data, why):
    try:
        packet = packets.M2MPacket.from_bytes(data)
    except packets_error() as error:
        ctx.count("refused")
        ctx.case(data)
        return
    except BaseException as error:
        ctx.fail("ill-formed bytes raised something else than a packet error", why=why, data=data, error=repr(error))
    ctx.fail("ill-formed bytes produced a packet", why=why, data=data, packet=repr(packet))


def packets_error():
    from dataplicity.m2m import packetbase
    return packetbase.PacketError


def run(ctx, shard):
    from dataplicity.m2m import packets
    rng = ctx.rng()
    registry = packets.M2MPacket.registry
    missing = [name for number, name, _fields in proto.TABLE if number not in registry]
    ctx.check(not missing, "packet types of the protocol are not registered", missing=missing)
    table = list(proto.TABLE)
    for number, packet_class in registry.items():
        number = int(number)
        if number not in proto.BY_NUMBER:
            table.append((number, packet_class.__name__, [(n, norm_kind(k)) for n, k in packet_class.attributes]))
        else:
            fields = proto.BY_NUMBER[number][1]
            ctx.check([norm_kind(k) for _n, k in packet_class.attributes] == [k for _n, k in fields],
                      "the fields of a packet differ from the protocol's", packet=packet_class.__name__,
                      got=repr(packet_class.attributes))
    # field names are the agent's own (handlers take them); values go by position
    table = [(number, name, [(own[0], kind) for own, (_n, kind) in zip(registry[number].attributes, fields)])
             for number, name, fields in table]

    if shard.startswith("roundtrip"):
        for _ in range(ctx.pick(40, 600)):
            for number, name, fields in table:
                verify(ctx, packets, number, name, fields, [value_of(rng, kind) for _f, kind in fields], rng)
        # text is accepted for bytes fields
        for number, name, fields in table:
            values = [u"t\u00e9xt" if kind is bytes else value_of(rng, kind) for _f, kind in fields]
            verify(ctx, packets, number, name, fields, values, rng)
        ctx.require("round_trips", 1000)
    elif shard == "illformed":
        for _ in range(ctx.pick(2, 10)):
            for number, name, fields in table:
                good = [value_of(rng, kind) for _f, kind in fields]
                for index, (field, kind) in enumerate(fields):
                    refuse(ctx, packets, bref.dumps([number] + good[:index]), "%s without %s" % (name, field))
                    for wrong in WRONG:
                        if not isinstance(wrong, kind):
                            bad = good[:index] + [wrong] + good[index + 1:]
                            refuse(ctx, packets, bref.dumps([number] + bad), "%s with %s=%r" % (name, field, wrong))
                            try:
                                made = packets.M2MPacket.create(number, *bad)
                            except packets_error():
                                ctx.count("refused")
                            else:
                                ctx.fail("a packet was built from an ill-typed field", packet=name, field=field, wrong=wrong, made=repr(made))
                base = bref.dumps([number] + good)
                for cut in range(0, len(base), max(1, len(base) // 50)):
                    refuse(ctx, packets, base[:cut], "truncated %s" % name)
        known = set(int(n) for n in registry)
        for number in list(range(-5, 400)) + [2 ** 31, 2 ** 64, -2 ** 64, 10 ** 30]:
            if number not in known:
                for rest in ([], [b"x"], [1], [1, b"x"], [b"a", {}], [{}]):
                    refuse(ctx, packets, bref.dumps([number] + rest), "unknown type")
        for value in [[], {}, {b"a": 1}, 0, 7, -1, b"", b"7", b"abc", [[]], [b"7", b"x"], [b"ping"], [{}], [[7], b"x"], [b"\x07", b"x"],
                      {b"7": b"x"}, [b"", 7]]:
            refuse(ctx, packets, bref.dumps(value), "not a list starting with an integer")
        ctx.require("refused", 1000)
    else:
        for data in [b"", b"l", b"e", b"\x00", b"i7", b"li7e", b"li7ee"[:-1], b"garbage", b"{}", b"[7, 1]", b"li7e-1:e", b"li7e9:xe", b"lie",
                     b"li7ee" * 0 + b"l" * 5000, b"li--7e1:xe", b"di7e1:xe", b"l9999999999999999999999:xe"]:
            try:
                bref.parse(data)
            except bref.Malformed:
                refuse(ctx, packets, data, "not bencode")
        for _ in range(ctx.pick(6000, 60000)):
            number, name, fields = rng.choice(table)
            base = bytearray(bref.dumps([number] + [value_of(rng, kind) for _f, kind in fields])[:300])
            for _edit in range(rng.randrange(1, 4)):
                position = rng.randrange(len(base) + 1)
                if rng.random() < 0.5:
                    base[position:position] = bytes([rng.choice(b"ilde0123456789:-x\x00")])
                else:
                    del base[position:position + 1]
            data = bytes(base)
            try:
                want, end = bref.parse(data)
            except bref.Malformed:
                refuse(ctx, packets, data, "not bencode")
                continue
            strict = bref.dumps(want) == data[:end]
            shape = (isinstance(want, list) and want and isinstance(want[0], int) and want[0] in registry)
            kinds = [kind for number_, _n, f in table if shape and number_ == want[0] for _f, kind in f]
            if not shape or len(want) - 1 < len(kinds) or not all(isinstance(v, k) for v, k in zip(want[1:], kinds)):
                refuse(ctx, packets, data, "edited packet")
            elif strict and end == len(data) and len(want) - 1 == len(kinds):
                try:
                    parsed = packets.M2MPacket.from_bytes(data)
                except Exception as error:
                    ctx.fail("a well-formed packet was refused", data=data, error=repr(error))
                ctx.check(int(parsed.type) == want[0] and bref.parse(parsed.as_bytes)[0] == want, "an edited packet parses differently",
                          data=data, got=repr(parsed))
                ctx.count("accepted")
                ctx.case(data)
        ctx.require("accepted", 20)
        ctx.require("refused", 500)
