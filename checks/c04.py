"""C04: hostile server messages never stop or derail the m2m session."""
import threading

from vf import bref, proto, safety, world
import c01

RULE = ("A case is one message sent to a running agent over a loopback websocket. Hostile messages (garbage, edited "
        "and truncated packets, unknown types, wrong arity or field types, non-list values that index like a packet, "
        "messages whose handler raises, of all sizes, fragmented and compressed) are mixed with pings and echo data; the "
        "recorded reply stream must be exactly the replies to the well-formed ones, in order, on one connection. "
        "Non-trivial: distinct messages.")
SHARDS = {"quick": ["mix1", "mix2-compress", "fields", "raising", "indexable", "big"],
          "thorough": ["fields", "raising", "indexable", "big"] + ["mix%d%s" % (i, "-compress" if i % 2 else "") for i in range(10)]}

ECHO = 70001


def hostile(rng):
    """A message that must be refused (or does nothing)."""
    while True:
        kind = rng.randrange(9)
        number, name, fields = rng.choice(proto.TABLE)
        good = []
        for _field, ftype in fields:
            good.append(rng.choice([1, 5, ECHO]) if ftype is int else rng.choice([b"x", b"path"]) if ftype is bytes else [] if ftype is list
                        else {b"action": b"nothing"})
        base = bref.dumps([number] + good)
        if kind == 0:
            data = bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 60)))
        elif kind == 1:
            data = base[:rng.randrange(len(base))]
        elif kind == 2:
            data = bytearray(base)
            for _ in range(rng.randrange(1, 4)):
                data[rng.randrange(len(data))] = rng.choice(b"ilde0123456789:-x\x00\xff")
            data = bytes(data)
        elif kind == 3:
            unknown = rng.choice([10, 12, 23, 33, 99, 105, 112, 199, 255, 300, -1, -7, 2 ** 31, 2 ** 64, 10 ** 25])
            data = bref.dumps([unknown] + good)
        elif kind == 4 and fields:
            data = bref.dumps([number] + good[:rng.randrange(len(good))])
        elif kind == 5 and fields:
            index = rng.randrange(len(fields))
            wrong = rng.choice([v for v in (0, 7, b"", b"7", [], [b"a"], {}, {b"a": 1}) if not isinstance(v, fields[index][1])])
            good[index] = wrong
            data = bref.dumps([number] + good)
        elif kind == 6:
            data = bref.dumps(rng.choice([{}, {b"7": b"x"}, 0, 7, -1, [], [[]], [b"7", b"x"], [{}, b""], b"", bytes([number]) + b"xy",
                                          bytes([number, 5]), bytes([number]), [[number] + good]]))
        elif kind == 7:
            data = rng.choice([b"l", b"d", b"d1:k", b"li7e"]) * rng.choice([1, 10, 300, 2000])
        else:
            data = bref.dumps([rng.choice([b"ping", b"\x07", [7], {b"type": 7}])] + good)
        if refused(data):
            return data


def refused(data):
    """Must the agent refuse this message, by the protocol table?"""
    try:
        value, _end = bref.parse(data)
    except bref.Malformed:
        return True
    if not isinstance(value, list) or not value or not isinstance(value[0], int) or value[0] not in proto.BY_NUMBER:
        return True
    fields = proto.BY_NUMBER[value[0]][1]
    if len(value) - 1 < len(fields):
        return True
    return not all(isinstance(v, kind) for v, (_n, kind) in zip(value[1:], fields))


class Session(object):
    """Sends messages and knows which replies must come back."""

    def __init__(self, ctx, w):
        self.ctx, self.w, self.conn = ctx, w, w.conn
        self.expected = []
        self.rng = ctx.rng("session")
        self.counter = 0
        self.last_ping = b""
        self.conn.instruct("open-echo", port=ECHO)
        w.sync()
        self.skip = len(self.conn.packets())
        self.api_skip = len(w.api.snapshot())
        self.started = len(safety.started)

    def raw(self, data, **options):
        self.conn.send_message(data, **options)

    def ping(self, data=None):
        self.counter += 1
        if data is None:
            size = self.rng.choice([0, 1, 5, 30, 1023, 1024, 1025, 3000])
            data = (b"%d:" % self.counter + bytes(self.rng.getrandbits(8) for _ in range(8)) * (size // 8 + 1))[:max(size, 8)]
            if self.rng.random() < 0.25:
                # Well-formed pings count one by one, whatever they carry
                data = self.rng.choice([self.last_ping, self.last_ping, b"", b"0", b"\x00", b"\xff\xfe", b"e", b"x" * 1024, b"i7e"])
        self.last_ping = data
        self.conn.send("ping", data)
        self.expected.append([proto.N["pong"], data[:1024]])
        self.ctx.count("pings")

    def echo(self):
        self.counter += 1
        data = b"echo-%d" % self.counter
        self.conn.route(ECHO, data)
        self.expected.append([proto.N["request_send"], ECHO, data])

    def verify(self, last, timeout=30.0):
        """All replies so far, in order, nothing else; still the same connection."""
        ctx, conn = self.ctx, self.conn
        done = b"done-%d" % self.counter
        self.counter += 1
        self.ping(done)
        final = self.expected[-1]

        def arrived():
            if conn.closed:
                return True
            return any(e.packet == final for e in conn.packets("pong")[-40:])
        ok = conn.wait(arrived, timeout)
        got = [e.packet for e in conn.packets()[self.skip:]]
        witness = dict(last_messages=last[-12:], log=list(world.log_lines)[-15:])
        ctx.check(not conn.closed, "the agent dropped the connection after hostile messages", entries=[repr(e) for e in conn.entries[-5:]], **witness)
        ctx.check(ok, "the agent stopped answering pings after hostile messages", got=got[-5:], expected=self.expected[-5:],
                  stacks=world.stacks, **witness)
        if got != self.expected:
            for index in range(max(len(got), len(self.expected))):
                g = got[index] if index < len(got) else None
                e = self.expected[index] if index < len(self.expected) else None
                if g != e:
                    ctx.fail("replies are not exactly those to the well-formed messages, in order", index=index, got=g, expected=e,
                             around=got[max(0, index - 2):index + 3], **witness)
        ctx.check(not conn.anomalies(), "the agent sent something that is no packet", anomalies=[repr(e) for e in conn.anomalies()])
        ctx.check(len(self.w.server.conns) == 1, "the agent opened another connection", count=len(self.w.server.conns), **witness)
        ctx.check(len(self.w.api.snapshot()) == self.api_skip, "a hostile message caused an API request",
                  requests=[r.json for r in self.w.api.snapshot()[self.api_skip:]], **witness)
        ctx.check(not safety.blocked and len(safety.started) == self.started, "a hostile message started a process", started=safety.started[self.started:],
                  blocked=safety.blocked, **witness)
        self.skip += len(got)
        self.expected = []
        ctx.count("sessions_verified")


def run(ctx, shard):
    rng = ctx.rng()
    with world.World(ctx, compress="compress" in shard) as w:
        w.join()
        s = Session(ctx, w)
        channels_before = None
        if shard.startswith("mix"):
            for _ in range(ctx.pick(40, 400)):
                last = []
                for _ in range(rng.randrange(10, 60)):
                    roll = rng.random()
                    if roll < 0.7:
                        data = hostile(rng)
                        last.append(data)
                        s.raw(data, fragments=rng.choice([1, 1, 1, 3]))
                        ctx.count("hostile")
                        ctx.case(data, sample=data if len(data) < 80 else None)
                    elif roll < 0.85:
                        s.ping()
                    else:
                        s.echo()
                s.verify(last)
        elif shard == "fields":
            # every type, every field missing or of every other type
            answered = []
            for command in (0, 1, 5):
                w.ws.add_callback(command, lambda result, command=command: answered.append((command, result)))
            for number, name, fields in proto.TABLE:
                last = []
                good = [1 if k is int else b"x" if k is bytes else [] if k is list else {b"action": b"open-echo", b"port": 5} for _n, k in fields]
                for index, (_field, kind) in enumerate(fields):
                    bad = [bref.dumps([number] + good[:index])]
                    for wrong in (0, 1, b"", b"5", b"open-echo", [], [1], {}, {b"action": b"open-echo", b"port": 5}):
                        if not isinstance(wrong, kind):
                            bad.append(bref.dumps([number] + good[:index] + [wrong] + good[index + 1:]))
                    for data in bad:
                        last.append(data)
                        s.raw(data)
                        s.ping()
                        ctx.count("hostile")
                        ctx.case(data, sample=data)
                # A packet without a handler, or a well-formed one that does nothing.
                if name not in ("ping", "set_identity", "notify_open", "notify_close", "route", "route_control", "response", "instruction",
                                "open_remote_file", "close_remote_file", "read_remote_file", "write_remote_file", "scan_remote_directory"):
                    s.raw(bref.dumps([number] + good))
                s.echo()
                s.verify(last)
            ctx.check(not answered, "a refused response was taken for the answer to a command", answered=answered)
        elif shard == "indexable":
            # Values that are no list but whose first item looks like a packet type.
            for number in list(range(0, 256)):
                last = []
                for tail in (b"", bytes([5]), bytes([5, 6]), bytes([1, 1, 1])):
                    data = bref.dumps(bytes([number]) + tail)
                    last.append(data)
                    s.raw(data)
                    ctx.count("hostile")
                    ctx.case(data, sample=data)
                if number % 16 == 15:
                    s.echo()
                    s.verify(last)
            # None of them may have closed an open channel.
            for channel in (5, 6):
                s.conn.instruct("open-echo", port=channel)
            s.w.sync()
            s.skip = len(s.conn.packets())
            for number in range(256):
                for channel in (5, 6):
                    s.raw(bref.dumps(bytes([number, channel])))
            for channel in (5, 6):
                s.conn.route(channel, b"alive")
                s.expected.append([proto.N["request_send"], channel, b"alive"])
            s.verify(["indexable byte strings"])
        elif shard == "raising":
            raising(ctx, s, w, rng)
        else:
            for size in (1000, 65535, 65536, 300000, ctx.pick(1500000, 20000000)):
                last = []
                for data in (b"l" * size, b"\x00" * size, bref.dumps([5000, b"x" * size]), bref.dumps([7, [b"x"] * (size // 10)]),
                             bref.dumps([b"x" * size]), bref.dumps(b"y" * size)):
                    if data[:3] == b"lll" and size > 400000:
                        continue
                    last.append(data[:60])
                    s.raw(data, fragments=rng.choice([1, 5]))
                    s.ping()
                    ctx.count("hostile")
                    ctx.case((size, data[:40]))
                s.verify(last, 60.0)
            s.ping(b"p" * 100000)
            s.verify([])
    ctx.require("hostile", 20)
    ctx.require("sessions_verified", 2)


def raising(ctx, s, w, rng):
    """Well-formed packets whose handling fails; later ones are served."""
    conn = s.conn
    m2m = w.ws

    class Oops(Exception):
        pass

    def boom(*args):
        raise Oops("callback failed")

    rounds = ctx.pick(6, 60)
    for round_number in range(rounds):
        last = []
        channel = 81000 + round_number
        m2m.get_channel(channel).set_callbacks(on_data=boom, on_close=boom, on_control=boom)
        m2m.add_callback(900 + round_number, boom)
        messages = []
        for _ in range(4):
            messages.append(bref.dumps([proto.N["route"], channel, b"x"]))
            messages.append(bref.dumps([proto.N["route_control"], channel, b"x"]))
        messages.append(bref.dumps([proto.N["response"], 900 + round_number, {b"a": 1}]))
        messages.append(bref.dumps([proto.N["response"], 12345, {}]))
        messages.append(bref.dumps([proto.N["log"], rng.choice([b"%s %d %n", b"\xff\xfe", b"{0} {}", b""])]))
        messages.append(bref.dumps([proto.N["notify_login_success"], b"\xff"]))
        messages.append(bref.dumps([proto.N["notify_close"], 424242]))
        bad_instructions = [
            {}, {b"action": 5}, {b"action": b""}, {b"action": []}, {b"action": {}}, {b"Action": b"sync"}, {b"action": b"\xff\xfe"},
            {b"action": b"open-terminal"}, {b"action": b"open-terminal", b"port": 5}, {b"action": b"open-terminal", b"name": b"shell"},
            {b"action": b"open-terminal", b"name": [], b"port": 5}, {b"action": b"open-terminal", b"name": b"nope", b"port": 5},
            {b"action": b"open-terminal", b"name": b"nope", b"port": []},
            {b"action": b"open-echo"}, {b"action": b"open-echo", b"port": []}, {b"action": b"open-echo", b"port": {}},
            {b"action": b"open-portforward"}, {b"action": b"open-portforward", b"service": b"web"},
            {b"action": b"open-portforward", b"service": b"nope", b"route": [b"a", 1, b"b", 2]},
            {b"action": b"open-portforward", b"service": b"web", b"route": []},
            {b"action": b"open-portforward", b"service": b"web", b"route": 5},
            {b"action": b"open-portforward", b"service": [], b"route": []},
            {b"action": b"open-portredirect"}, {b"action": b"open-portredirect", b"device_port": 80},
            {b"action": b"read-file"}, {b"action": b"read-file", b"port": 5}, {b"action": b"read-file", b"path": b"/x"},
            {b"action": b"run-command"}, {b"action": b"run-command", b"port": 5}, {b"action": b"run-command", b"command": b"true"},
            {b"\xff": b"\xff"}, {b"\xff\xfeaction": b"x"}, {b"action": b"reboot"}, {b"action": b"reboot-device "}, {b"action": b"REBOOT-DEVICE"},
        ]
        for data in bad_instructions:
            messages.append(bref.dumps([proto.N["instruction"], rng.choice([b"server", b"", b"\xff"]), data]))
        messages.append(bref.dumps([proto.N["notify_close"], channel]))
        rng.shuffle(messages)
        for data in messages:
            last.append(data)
            s.raw(data)
            ctx.count("hostile")
            ctx.case((round_number % 3, data), sample=data)
            if rng.random() < 0.3:
                s.ping()
            if rng.random() < 0.2:
                s.echo()
        s.verify(last)
        m2m.callback(900 + round_number, None)

    # Remote-file messages whose handling fails: at most a failure result each.
    s.verify([])
    requests = []
    for index in range(ctx.pick(30, 300)):
        ident = b"id%d" % index
        weird = rng.choice([b"\x00", b"a\x00b", b"\xff\xfe", b"", b"/" * 300, b"x" * 5000, b"../" * 50, b".", b".."])
        kind = rng.randrange(4)
        if kind == 0:
            conn.send("open_remote_file", ident, weird)
        elif kind == 1:
            conn.send("read_remote_file", ident, rng.choice([0, -1, 2 ** 70]), rng.choice([0, 5, 2 ** 70]))
        elif kind == 2:
            conn.send("close_remote_file", ident)
        else:
            conn.send("write_remote_file", ident, weird, rng.choice([b"\x00", b"\xff", b"\x00/x"]), rng.choice([-5, -1]), b"data", rng.choice([0, 1]))
        ctx.count("hostile")
        ctx.case((kind, weird, index))
        requests.append((kind, ident))
    s.ping(b"after remote file failures")
    pong = s.expected[-1]
    ok = conn.wait(lambda: conn.closed or any(e.packet == pong for e in conn.packets("pong")), 60.0)
    ctx.check(ok and not conn.closed, "failing remote-file requests stopped the session", log=list(world.log_lines)[-15:], stacks=world.stacks)
    conn.wait(lambda: False, 0.3)
    for entry in conn.packets()[s.skip:]:
        ctx.check(entry.name in ("open_remote_file_result", "read_remote_file_result", "write_remote_file_result", "pong"),
                  "an unexpected reply to failing remote-file requests", entry=repr(entry))
    s.skip = len(conn.packets())
    s.expected = []
    s.echo()
    s.verify([])
