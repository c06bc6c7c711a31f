"""C28: each instruction performs exactly the action it names."""
import json
import os
import socket
import threading

from vf import apiserver, bref, localserver, proto, safety, terminals, world
from vf.core import monotonic, real_sleep

RULE = ("A case is one instruction sent to a running agent: well-formed, or near-missing a known one (changed action names, missing, renamed, ill-typed "
        "or extra arguments, undecodable bytes), or meaningless. Processes started, terminals opened, local connections made, files read, scans, syncs, reboots and "
        "channel traffic are recorded and each must be owed to exactly one instruction, with its arguments and channel. "
        "Non-trivial: distinct instructions.")
SHARDS = {"quick": ["mix1", "mix2", "mix3", "near"], "thorough": ["mix%d" % i for i in range(1, 7)] + ["near", "near2"]}

connects = []
forks = []
scans = []
REBOOT = ["/usr/bin/sudo", "/sbin/reboot"]


def install():
    real_connect, real_connect_ex = socket.socket.connect, socket.socket.connect_ex

    def note(address):
        name = threading.current_thread().name
        if not name.startswith("vf-"):
            connects.append(address)

    def connecting(real):
        def connect(self, address):
            try:
                result = real(self, address)
            except (TypeError, OverflowError, ValueError):
                # Not an address: nothing was connected
                raise
            except Exception:
                note(address)
                raise
            note(address)
            return result
        return connect

    socket.socket.connect, socket.socket.connect_ex = connecting(real_connect), connecting(real_connect_ex)

    def forking(real):
        def fork():
            if not threading.current_thread().name.startswith("vf-"):
                forks.append(threading.current_thread().name)
            return real()
        return fork

    # (pty.fork uses the first)
    os.forkpty, os.fork = forking(os.forkpty), forking(os.fork)
    for name in ("listdir", "scandir"):
        def wrap(real):
            def listing(path=".", *args):
                if not threading.current_thread().name.startswith("vf-"):
                    scans.append(path)
                return real(path, *args)
            return listing
        setattr(os, name, wrap(getattr(os, name)))


class Desk(object):
    """Gives instructions to one agent and accounts for what happens."""

    def __init__(self, ctx, w, rng):
        self.ctx, self.w, self.rng = ctx, w, rng
        self.conn = w.conn
        self.hub = terminals.Hub(ctx.dir("hub"))
        self.servers = [localserver.LocalServer() for _ in range(3)]
        for name in ("shell", "t1", "t2"):
            w.client.m2m.add_terminal(name, self.hub.command(name, "raw"))
        for index, server in enumerate(self.servers):
            w.client.port_forward.add_service("svc%d" % index, server.port)
        self.number = 1000
        self.files = ctx.dir("files")
        self.mark()

    def scan_file(self):
        found = [n for n in os.listdir(self.w.remote_dir) if n.startswith(".")]
        return found

    def syncs(self):
        return len([r for r in self.w.api.snapshot() if "device.set_uname" in r.methods])

    def other_requests(self):
        return len([r for r in self.w.api.snapshot() if "device.set_uname" not in r.methods and "m2m.associate" not in r.methods])

    def own(self, address):
        return isinstance(address, tuple) and address[1] in (self.w.server.port, self.w.api.port)

    def state(self):
        root = os.path.realpath(self.w.remote_dir)
        return {
            # The device's description is found by asking these
            "processes": [a for a in list(safety.started) if not (isinstance(a, (list, tuple)) and os.path.basename(a[0]) in ("lsb_release", "uname", "ldd"))],
            "reboots": list(safety.blocked),
            "forks": len(forks),
            "terminals": [inside.ident for inside in list(self.hub.all)],
            "connects": [a for a in list(connects) if not self.own(a)],
            "scans": len([p for p in list(scans) if isinstance(p, (str, bytes)) and os.path.realpath(os.fsdecode(p)) == root]),
            "syncs": self.syncs(),
            "requests": self.other_requests(),
            "traffic": len(self.conn.packets("request_send", "request_send_control", "request_close", "scan_remote_directory_result")),
        }

    def mark(self):
        self.before = self.state()

    def effects(self):
        now, old = self.state(), self.before
        out = {}
        for name, value in now.items():
            if isinstance(value, int):
                if value != old[name]:
                    out[name] = value - old[name]
            elif len(value) != len(old[name]):
                out[name] = value[len(old[name]):]
        if "traffic" in out:
            out["traffic"] = [(e.name, e.packet[1:]) for e in self.conn.packets("request_send", "request_send_control", "request_close", "scan_remote_directory_result")[old["traffic"]:]]
        return out

    def expect(self, what, settled, judge, **witness):
        """Wait until settled(effects), then judge(effects) must hold, and hold on."""
        ctx = self.ctx
        self.w.sync()
        deadline = monotonic() + 15.0
        while not settled(self.effects()) and monotonic() < deadline:
            real_sleep(0.003)
        real_sleep(0.03)
        effects = self.effects()
        ctx.check(judge(effects), "an instruction did not have exactly its effect", instruction=what, effects=effects, log=list(world.log_lines)[-12:], **witness)
        ctx.check(not self.conn.closed, "the session ended", instruction=what)
        self.mark()

    def give(self, fields, sender=b"server"):
        self.conn.send("instruction", sender, fields)


def close_channel(desk, number):
    desk.conn.send("notify_close", number)


def good(desk, rng, extra):
    """One well-formed instruction; verifies its effect."""
    ctx, w, conn = desk.ctx, desk.w, desk.conn
    kind = rng.choice(["run-command"] * 3 + ["read-file"] * 3 + ["open-echo"] * 2 + ["open-terminal", "open-portforward", "open-portredirect"] * 2 + ["sync", "scan-directory", "reboot-device"])
    desk.number += rng.choice([1, 1, 2, 7])
    number = desk.number
    if rng.random() < 0.05:
        number = -number
    fields = {b"action": kind.encode()}
    fields.update(extra)

    def channel(effects):
        return [p for n, p in effects.get("traffic", ()) if n != "scan_remote_directory_result"]

    def only(effects, *allowed):
        return set(effects) <= set(allowed) and all(p[0] == number for p in channel(effects))

    def closed(effects):
        return any(n == "request_close" for n, p in effects.get("traffic", ()))

    if kind == "run-command":
        token = "tok-%d-%d" % (number, rng.randrange(10 ** 6))
        raw = rng.random() < 0.2
        command = ("echo " + token).encode() + (b"\xff\xfe" if raw else b"") + rng.choice([b"", b" ; exit 3", b"; echo no >&2"])
        out = token.encode() + (b"\xff\xfe" if raw else b"") + b"\n"
        fields[b"port"], fields[b"command"] = number, command
        desk.give(fields)
        desk.expect(fields, closed, lambda e: only(e, "processes", "traffic") and len(e.get("processes", ())) == 1
                    and os.fsencode(e["processes"][0] if isinstance(e["processes"][0], str) else " ".join(map(str, e["processes"][0]))).endswith(command)
                    and b"".join(p[1] for n, p in e["traffic"] if n == "request_send") == out and len([1 for n, p in e["traffic"] if n == "request_close"]) == 1)
        close_channel(desk, number)
    elif kind == "read-file":
        name = os.fsencode(os.path.join(desk.files, "f%d" % abs(number)))
        data = b"content of %d" % number
        with open(name, "wb") as fh:
            fh.write(data)
        ask = name
        if rng.random() < 0.25:
            # A name that is not UTF-8, beside the one without its odd byte
            ask = name + b"\xff"
            data += b" odd"
            with open(ask, "wb") as fh:
                fh.write(data)
        fields[b"port"], fields[b"path"] = number, ask
        desk.give(fields)
        desk.expect(fields, closed, lambda e: only(e, "traffic") and b"".join(p[1] for n, p in e["traffic"] if n == "request_send") == data
                    and [n for n, p in e["traffic"]].count("request_close") == 1 and not any(n == "request_send_control" for n, p in e["traffic"]))
        close_channel(desk, number)
    elif kind == "open-echo":
        fields[b"port"] = number
        desk.give(fields)
        conn.route(number, b"hello %d" % number)
        desk.expect(fields, lambda e: "traffic" in e, lambda e: only(e, "traffic") and e.get("traffic") == [("request_send", [number, b"hello %d" % number])])
        close_channel(desk, number)
    elif kind == "open-terminal":
        name = rng.choice(["shell", "t1", "t2"])
        fields[b"port"], fields[b"name"] = number, name.encode()
        if rng.random() < 0.5:
            fields[b"size"] = [rng.randrange(10, 200), rng.randrange(10, 100)]
        desk.give(fields)
        desk.expect(fields, lambda e: e.get("terminals"), lambda e: only(e, "terminals", "forks", "traffic", "processes") and e.get("terminals") == [name] and e.get("forks", 0) + len(e.get("processes", ())) == 1)
        inside = desk.hub.all[-1]
        if b"size" in fields:
            ctx.check(tuple(inside.size) == tuple(fields[b"size"]), "a terminal has another size than the instruction says", size=inside.size, instruction=fields)
        conn.route(number, b"typed %d\n" % number)
        ctx.check(desk.hub.wait(lambda: b"typed %d" % number in inside.data(), 15.0), "input does not reach the terminal that was opened on its channel", got=inside.data())
        close_channel(desk, number)
        ctx.check(desk.hub.wait(lambda: inside.gone, 20.0), "the terminal stays when its channel closes")
        desk.mark()
    elif kind in ("open-portforward", "open-portredirect"):
        index = rng.randrange(3)
        server = desk.servers[index]
        counts = [len(s.peers) for s in desk.servers]
        if kind == "open-portforward":
            fields[b"service"] = b"svc%d" % index
            fields[b"route"] = [rng.choice([b"node", b""]), rng.choice([1, number + 1]), rng.choice([b"device", b""]), number]
        else:
            fields[b"device_port"], fields[b"m2m_port"] = server.port, number
        desk.give(fields)
        peer = server.peer(counts[index], 15.0)
        ctx.check(peer is not None, "an instruction did not have exactly its effect", instruction=fields, effects=desk.effects())
        peer.write(b"from %d" % number)
        desk.expect(fields, lambda e: b"".join(p[1] for n, p in e.get("traffic", ()) if n == "request_send") == b"from %d" % number,
                    lambda e: only(e, "connects", "traffic") and [tuple(a) for a in e.get("connects", ())] == [("127.0.0.1", server.port)]
                    and [len(s.peers) - c for s, c in zip(desk.servers, counts)] == [1 if i == index else 0 for i in range(3)])
        close_channel(desk, number)
        peer.wait(lambda: peer.eof, 15.0)
        peer.close()
        real_sleep(0.01)
        desk.mark()
    elif kind == "sync":
        desk.give(fields)
        desk.expect(fields, lambda e: "syncs" in e, lambda e: e == {"syncs": 1})
    elif kind == "scan-directory":
        desk.give(fields)
        desk.expect(fields, lambda e: "scans" in e, lambda e: set(e) <= {"scans"} and e.get("scans", 0) >= 1)
        # A scan that is not over would swallow the next
        ctx.wait(lambda: not [t for t in threading.enumerate() if "scan" in t.name.lower()], 15.0)
        real_sleep(0.05)
    elif kind == "reboot-device":
        desk.give(fields)
        desk.expect(fields, lambda e: "reboots" in e, lambda e: set(e) == {"reboots"} and [b.split() if isinstance(b, str) else list(b) for b in e["reboots"]] == [REBOOT])
    ctx.count(kind)
    ctx.case((kind, repr(sorted(fields.items()))), sample={"instruction": fields})


ACTIONS = [b"sync", b"open-terminal", b"open-echo", b"open-portforward", b"open-portredirect", b"reboot-device", b"read-file", b"run-command", b"scan-directory"]


def complete(desk, action):
    """The arguments of a well-formed instruction."""
    desk.number += 1
    number = desk.number
    path = os.fsencode(os.path.join(desk.files, "bait"))
    return {
        b"sync": {}, b"scan-directory": {}, b"reboot-device": {},
        b"open-terminal": {b"port": number, b"name": b"shell"},
        b"open-echo": {b"port": number},
        b"open-portforward": {b"service": b"svc0", b"route": [b"n", 1, b"d", number]},
        b"open-portredirect": {b"device_port": desk.servers[0].port, b"m2m_port": number},
        b"read-file": {b"port": number, b"path": path},
        b"run-command": {b"port": number, b"command": b"echo bait"},
    }[action]


def everything(desk):
    out = {}
    for action in ACTIONS:
        out.update(complete(desk, action))
    return out


def unknown_action(rng):
    base = rng.choice(ACTIONS)
    while True:
        action = rng.choice(near_actions(base))
        if action not in ACTIONS:
            return action


def near_actions(base):
    return [
        base.upper(), base.title(), base + b" ", b" " + base, b"\t" + base + b"\n", b"\xc2\xa0" + base, base + b"()", b"'" + base + b"'", b"on_" + base, base + b"\0", base + b"\n", base[:-1], base + b"s", base.replace(b"-", b"_"), base.replace(b"-", b""),
        base[:3] + b"\xff" + base[3:], base + b"\xc3", b"\xfe" + base, base.replace(b"-", b"\xe2\x80\x90"), base + b"\xef\xbb\xbf", b"", b"reboot", b"reboot-Device", b"reboot-device-now", b"exit", b"restart",
        b"close", b"open", b"-", b"run", b"__class__", b"reboot-device;sync", b"action", b"reboot", b"shutdown", b"None", b"noop",
    ]


ODD = [0, 5, -1, 2 ** 70, b"", b"x", b"5", b"80", [], [b"a"], [5], {}, {b"a": 1}, {b"action": b"reboot-device"}, [b"echo", b"bait"], [b"touch /nowhere/x"], {b"echo": b"bait"}]


def bad(desk, rng):
    """An instruction that names nothing, or not all that its action needs. Returns the packet's fields."""
    kind = rng.choice(["action", "action", "action type", "missing", "missing", "renamed", "type", "type", "type", "no action", "unknown name", "nested", "packet", "key"])
    if kind == "action":
        return merge(everything(desk), {b"action": unknown_action(rng)})
    if kind == "action type":
        return merge(everything(desk), {b"action": rng.choice([0, 1, -1, [], [rng.choice(ACTIONS)], {}, {b"action": b"sync"}, {b"sync": 1}])})
    if kind == "no action":
        return everything(desk)
    action = rng.choice([a for a in ACTIONS if complete(desk, a)])
    fields = merge({b"action": action}, complete(desk, action))
    names = [n for n in fields if n != b"action"]
    if kind == "missing":
        del fields[rng.choice(names)]
        return fields
    if kind in ("renamed", "key"):
        name = rng.choice(sorted(fields))
        new = rng.choice([name.upper(), name + b"s", name + b"\xff", b"\xff" + name, b" " + name, name[:-1], b"x" + name, name[:2] + b"\x80" + name[2:]])
        fields[new] = fields.pop(name)
        return fields
    if kind == "unknown name":
        if rng.random() < 0.5:
            return merge({b"action": b"open-terminal"}, {b"port": desk.number, b"name": rng.choice([b"", b"Shell", b"shell ", b"t3", b"bash", b"shell\xff", b"sh\x80ell", b"/bin/sh", b"svc0"])})
        return merge({b"action": b"open-portforward"}, {b"service": rng.choice([b"", b"svc", b"SVC0", b"svc0\xff", b"svc9", b"shell", b"%d" % desk.servers[0].port]), b"route": [b"n", 1, b"d", desk.number]})
    if kind == "type":
        name = rng.choice(names)
        kinds = {b"port": int, b"m2m_port": int, b"device_port": int, b"name": bytes, b"service": bytes, b"route": list, b"path": bytes, b"command": bytes}
        fields[name] = rng.choice([v for v in ODD if not isinstance(v, kinds[name])])
        if name == b"route" and rng.random() < 0.7:
            fields[name] = rng.choice([[], [b"n", 1, b"d"], [b"n", 1, b"d", 5, 6], [b"n", 1, b"d", b"5"], [b"n", 1, b"d", [5]], [b"n", 1, b"d", {}], [[b"n", 1, b"d", 5]]])
        return fields
    if kind == "nested":
        return {b"data": fields, b"instruction": fields, b"0": [fields]}
    return rng.choice([{}, {b"": b""}, {b"a": 1}])


def merge(*dicts):
    out = {}
    for one in dicts:
        out.update(one)
    return out


def bad_packet(desk, rng):
    """A packet that is not an instruction though it looks like one."""
    action = rng.choice(ACTIONS)
    fields = merge({b"action": action}, complete(desk, action))
    number = proto.N["instruction"]
    return rng.choice([
        [number, fields], [number, fields, b"server"], [number, b"server"], [number], [number, 5, fields], [number, b"server", [fields]],
        [number, b"server", bref.dumps(fields)], [number, [], fields], [proto.N["command_send_instruction"], 1, b"node", fields],
        [proto.N["response"], 77, fields], [proto.N["log"], bref.dumps(fields)], [proto.N["peer_forward"], b"me", bref.dumps([number, b"server", fields])],
        [proto.N["route_control"], 1, json.dumps({"action": action.decode()}).encode()], [proto.N["route"], desk.number, bref.dumps([number, b"server", fields])],
        [number, b"server", action], [fields], [[number, b"server", fields]], [str(number).encode(), b"server", fields],
        [proto.N["notify_login_success"], b"admin"], [proto.N["command_broadcast_log"], 1, b"reboot-device"],
    ])


def harmless(effects, conn):
    """Nothing but error messages and close requests."""
    if set(effects) - {"traffic"}:
        return False
    return not any(n == "scan_remote_directory_result" or n == "request_send" and p[1] != b"" and b"503" not in p[1] for n, p in effects.get("traffic", ()))


def mix(ctx, shard):
    near = shard.startswith("near")
    for history in range(ctx.pick(2, 12)):
        rng = ctx.rng(str(history))
        with world.World(ctx, respond=lambda request: [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": 1, "message": "no"}} if c["method"] == "device.set_uname" else
                                                       {"jsonrpc": "2.0", "id": c["id"], "result": True} for c in request.calls]) as w:
            w.join()
            ctx.wait(lambda: [r for r in w.api.snapshot() if "m2m.associate" in r.methods], 20.0)
            w.sync()
            real_sleep(0.15)
            desk = Desk(ctx, w, rng)
            with open(os.path.join(desk.files, "bait"), "w") as fh:
                fh.write("bait")
            # Every misspelling of every action, some at a time
            deck = [merge(everything(desk), {b"action": a}) for base in ACTIONS for a in near_actions(base) if a not in ACTIONS] if near else []
            rng.shuffle(deck)
            while deck:
                batch, deck = deck[:12], deck[12:]
                for one in batch:
                    desk.give(one, b"server")
                    ctx.case(repr(one))
                desk.expect(batch, lambda e: True, lambda e: harmless(e, desk.conn))
                ctx.count("meaningless", len(batch))
            for turn in range(ctx.pick(120, 350)):
                roll = rng.random()
                if roll < (0.1 if near else 0.55):
                    extra = rng.choice([{}, {}, {}, {b"requester": b"me"}, {b"x": [1, {b"y": b"\xff"}]}, {b"": b""}, {b"kwargs": b"self"}])
                    good(desk, rng, extra)
                    continue
                batch = [bad(desk, rng) if rng.random() < 0.8 else bad_packet(desk, rng) for _ in range(rng.choice([1, 1, 3]))]
                for one in batch:
                    if isinstance(one, dict):
                        desk.give(one, rng.choice([b"server", b"", b"someone", b"\xff"]))
                    else:
                        desk.conn.send_message(bref.dumps(one))
                    ctx.case(repr(one))
                desk.expect(batch, lambda e: True, lambda e: harmless(e, desk.conn))
                ctx.count("meaningless", len(batch))
            # Late effects
            real_sleep(0.3)
            desk.expect("late effects", lambda e: True, lambda e: harmless(e, desk.conn))
            ctx.check(not desk.conn.anomalies(), "the agent sent broken messages", anomalies=[repr(e) for e in desk.conn.anomalies()])
            ctx.check(len(w.server.conns) == 1, "the agent connected again", connections=len(w.server.conns))
            desk.hub.close()
            for server in desk.servers:
                server.close()
    if not near:
        ctx.require("run-command", 10)
        ctx.require("reboot-device", 3)
        ctx.require("sync", 3)
        ctx.require("scan-directory", 3)
        ctx.require("open-terminal", 5)
    ctx.require("meaningless", 50)


def run(ctx, shard):
    ctx.become(65534, 65534)
    install()
    world.load()
    mix(ctx, shard)
