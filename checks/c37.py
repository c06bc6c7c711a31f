"""C37: an m2m server that has gone silent is given up; a slow one is not."""
import os
import socket
import threading

from vf import world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one silence of the m2m server: nothing or part of the answer to the upgrade request, no more pongs, or nothing more read (idle, or while commands, "
        "terminals, files, echoes and threads send all they can), before or after the join, singly or in series with other failures. The agent's clock runs 100 times faster "
        "(its socket timeouts are divided accordingly). It must join again, serve on the new connection, have ended the services of the old one and poll meanwhile. Slow servers, "
        "which answer or read late but do, must be kept. Non-trivial: distinct (silence, load, position).")
SHARDS = {"quick": ["upgrade", "pongs", "frozen", "flooded1", "flooded2", "slow1", "slow2", "series"],
          "thorough": ["upgrade", "pongs", "frozen", "flooded1", "flooded2", "flooded3", "slow1", "slow2", "slow3", "slow4", "series", "series2"]}
K = 100.0
# Real seconds. The agent's limit is around 10 minutes, here 6 s; an hour would be 36 s
LIMIT = 36.0
scaled = []


def scale_timeouts():
    """Socket options that are times run faster, too."""
    real = socket.socket.setsockopt
    options = {(socket.IPPROTO_TCP, socket.TCP_USER_TIMEOUT): K, (socket.IPPROTO_TCP, socket.TCP_KEEPIDLE): K, (socket.IPPROTO_TCP, socket.TCP_KEEPINTVL): K}

    def setsockopt(self, level, option, *value):
        factor = options.get((level, option))
        if factor and len(value) == 1 and isinstance(value[0], int) and value[0] > 0:
            scaled.append((option, value[0]))
            value = (max(1, int(value[0] / factor)),)
        return real(self, level, option, *value)
    socket.socket.setsockopt = setsockopt


def children():
    """Processes of this one that are no zombies."""
    mine, found = str(os.getpid()), []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as fh:
                    fields = fh.read().rsplit(")", 1)[1].split()
            except (IOError, OSError):
                continue
            if fields[1] == mine and fields[0] != "Z":
                found.append(int(name))
    return found


class Checker(object):
    def __init__(self, ctx, w, rng):
        self.ctx, self.w, self.rng = ctx, w, rng
        self.checked = 0

    def witness(self):
        return dict(connections=len(self.w.server.conns), log=list(world.log_lines)[-15:], stacks=world.stacks, timeouts=scaled[-3:])

    def joined(self, why):
        known = self.checked

        def find():
            return next((c for c in self.w.server.conns[known:] if c.packets("request_join", "request_identify") and not c.closed), None)
        started = monotonic()
        conn = self.w.server.wait(find, LIMIT)
        self.ctx.check(conn, "the agent never gives up a silent connection", silence=why, waited=monotonic() - started, **self.witness())
        self.checked = conn.index + 1
        conn.send("set_identity", b"node-%d" % conn.index)
        conn.send("welcome")
        self.conn = conn
        return conn

    def serve(self, why):
        ctx, conn = self.ctx, self.conn
        base = 1000 * (conn.index + 1)
        text = os.urandom(self.rng.choice([10, 3000]))
        conn.instruct("open-echo", port=base)
        conn.route(base, text)
        conn.instruct("run-command", port=base + 1, command=b"echo served")
        ok = conn.wait(lambda: len(conn.sent_on(base)) >= len(text) and conn.close_requests(base + 1), LIMIT)
        ctx.check(ok and conn.barrier(LIMIT), "the agent does not serve after a silence", silence=why, closed=conn.closed, **self.witness())
        ctx.check(conn.sent_on(base) == text and conn.sent_on(base + 1) == b"served\n", "services do not work after a silence", silence=why)
        conn.send("notify_close", base + 1)
        conn.send("notify_close", base)
        ctx.check([e.name for e in conn.packets("request_join", "request_identify")] == ["request_join"], "the join request was not sent exactly once", silence=why)

    def poll(self, why):
        """Polls go on during a silence."""
        started = monotonic()
        with self.ctx.guard("a poll while the m2m server is silent", LIMIT, silence=why):
            self.w.client.poll()
        self.ctx.count("polls")
        return monotonic() - started

    def clean(self, why):
        deadline = monotonic() + LIMIT
        while children() and monotonic() < deadline:
            real_sleep(0.02)
        self.ctx.check(not children(), "processes of a connection that was given up still run", silence=why, processes=children())

    def load(self, kinds):
        """Have the agent send as much as it can. Returns how to stop it."""
        conn, w = self.conn, self.w
        base = 500000 + 100 * conn.index
        stop = threading.Event()
        if "command" in kinds:
            conn.instruct("run-command", port=base, command=b"yes")
        if "terminal" in kinds:
            conn.instruct("open-terminal", name=b"shell", port=base + 1, size=[80, 24])
            conn.route(base + 1, b"yes\n")
        if "file" in kinds:
            conn.instruct("read-file", port=base + 2, path=b"/dev/zero")
        if "sleeper" in kinds:
            conn.instruct("run-command", port=base + 3, command=b"sleep 600")
        if "echo" in kinds:
            conn.instruct("open-echo", port=base + 4)

            def feed(conn=conn):
                while not stop.is_set() and not conn.closed:
                    conn.route(base + 4, b"e" * 60000)
                    real_sleep(0.002)
            thread = threading.Thread(target=feed, name="vf-feed")
            thread.daemon = True
            thread.start()
        if "senders" in kinds:
            def send(channel=w.ws.get_channel(base + 5)):
                while not stop.is_set() and not channel.is_closed:
                    channel.write(os.urandom(20000))
                    real_sleep(0.0005)
            for _ in range(2):
                thread = threading.Thread(target=send, name="vf-sender")
                thread.daemon = True
                thread.start()
        return stop


LOADS = ["command", "terminal", "file", "sleeper", "echo", "senders"]


def mute_upgrade(checker, rng):
    part = rng.choice([0, 0, 0.1, 0.5, 0.9, 0.99])
    checker.w.server.behaviours.append({"kind": "mute", "part": part})
    how = rng.choice(wsserver.ENDINGS)
    checker.conn.end(how)
    return ("mute upgrade", part, how)


def no_pongs(checker, rng):
    checker.conn.pong_delay = None
    return ("no pongs",)


def frozen(checker, rng):
    checker.conn.reading.clear()
    return ("frozen",)


def silence(checker, rng, how, kinds=()):
    stop = checker.load(kinds)
    if kinds:
        real_sleep(rng.choice([0.0, 0.05, 0.3]))
    try:
        old = checker.conn
        why = how(checker, rng) + (tuple(sorted(kinds)),)
        checker.poll(why)
        checker.joined(why)
        took = checker.poll(why)
        old.hangup()
    finally:
        stop.set()
    checker.serve(why)
    checker.clean(why)
    checker.ctx.count("silences")
    return why, took


def slow(checker, rng, ctx):
    """A server that takes its time, but not too much, is kept."""
    w, server = checker.w, checker.w.server
    # (minutes of delay for the agent, whose limit is 6 s here)
    server.behaviours.append({"kind": "slow-upgrade", "delay": rng.choice([0.1, 0.5, 1.0])})
    checker.conn.end(rng.choice(wsserver.ENDINGS))
    conn = checker.joined("slow upgrade")
    checker.serve("slow upgrade")
    known = len(server.conns)
    kinds = rng.sample(LOADS[:4], rng.randrange(0, 3))
    stop = checker.load(kinds)
    conn.pong_delay = rng.choice([0.1, 0.5, 1.5])
    reading = "all"
    if kinds and rng.random() < 0.6:
        reading = "in turns"
    began = monotonic()
    length = ctx.pick(12.0, 25.0)
    while monotonic() - began < length and not conn.closed:
        if reading == "in turns":
            conn.reading.clear()
            real_sleep(rng.choice([0.01, 0.1, 1.0]))
            conn.reading.set()
        real_sleep(rng.choice([0.05, 0.5]))
    stop.set()
    conn.pong_delay = 0.0
    why = (kinds, reading)
    ctx.check(not conn.closed and len(server.conns) == known, "a server that is slow, but answers, was given up", slow=why, after=monotonic() - began,
              pings=[round(e.t - began, 2) for e in conn.entries if e.kind == "wsping"][-20:], bytes=sum(len(e.raw) for e in conn.packets("request_send")),
              last=[(e.kind, round(e.t - began, 2), repr(e.packet)[:60]) for e in conn.entries[-3:]], **checker.witness())
    ctx.count("slow servers kept")
    conn.end("fin")
    checker.joined(why)
    checker.serve(why)
    checker.clean(why)
    return why


def run(ctx, shard):
    rng = ctx.rng()
    scale_timeouts()
    world.load(k=K)
    with world.World(ctx, compress=rng.random() < 0.5 and not shard.startswith("slow")) as w:
        # (with room for the largest segments, without which the kernel sees no progress)
        w.server.buffer = 262144
        w.server.refuse()
        w.server.listen()
        checker = Checker(ctx, w, rng)
        checker.joined("start")
        checker.serve("start")
        for number in range(ctx.pick(4, 24)):
            if shard == "upgrade":
                why, _took = silence(checker, rng, mute_upgrade)
            elif shard == "pongs":
                kinds = rng.sample(LOADS[:4], rng.choice([0, 0, 1, 2]))
                why, _took = silence(checker, rng, no_pongs, kinds)
            elif shard == "frozen":
                why, _took = silence(checker, rng, frozen, rng.choice([[], ["sleeper"]]))
            elif shard.startswith("flooded"):
                kinds = rng.sample(LOADS, rng.randrange(1, 5))
                why, _took = silence(checker, rng, frozen, kinds)
            elif shard.startswith("slow"):
                why = slow(checker, rng, ctx)
                if number >= ctx.pick(1, 12):
                    number = None
            else:
                # One silence after another
                hows = [rng.choice([mute_upgrade, no_pongs, frozen]) for _ in range(2)]
                w.server.behaviours.extend(rng.choice([{"kind": "mute"}, {"kind": "reject"}, {"kind": "drop"}]) for _ in range(rng.randrange(3)))
                why = [silence(checker, rng, how, rng.sample(LOADS, rng.choice([0, 1, 2])))[0] for how in hows]
            ctx.case((repr(why), number), sample=repr(why))
            if number is None or ctx.spent(45.0, 500.0):
                break
    ctx.require("slow servers kept" if shard.startswith("slow") else "silences")
