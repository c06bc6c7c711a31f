"""C07: every channel closes exactly once and its number can be reused."""
import threading

from vf import proto, wsserver, world
from vf.core import real_sleep

RULE = ("A case is one channel life in a random history of opens, data, server closes (also repeated), and connection "
        "losses of nine kinds, with close callbacks that raise, re-enter the client or are absent; each callback's calls "
        "are counted, and after every close or loss the number is reopened and must behave as fresh. "
        "Non-trivial: distinct (history position, number, way of closing, consumer).")
SHARDS = {"quick": ["close", "loss1", "loss2", "mixed", "services"],
          "thorough": ["close", "services"] + ["loss%d" % i for i in range(4)] + ["mixed%d" % i for i in range(4)]}

NUMBERS = [0, 1, 2, 3, 4, 255, 256, 65536, 2 ** 32 + 1, -1]


class Life(object):
    """One use of a channel number, until it closes."""

    def __init__(self, ctx, w, number, kind):
        self.ctx, self.w, self.number, self.kind = ctx, w, number, kind
        self.log = []
        self.closes = 0
        self.channel = w.ws.get_channel(number)
        self.fresh()
        if kind != "plain":
            self.channel.set_callbacks(
                on_data=None if kind == "reader" else lambda d: self.log.append(("data", d)),
                on_control=lambda d: self.log.append(("control", d)), on_close=self.on_close)

    def fresh(self):
        channel = self.channel
        self.ctx.check(not channel.is_closed, "a reused channel number is closed", channel=self.number)
        self.ctx.check(channel.size == 0 and channel.read(1000) == b"", "a reused channel number has data of its predecessor", channel=self.number)

    def on_close(self):
        self.closes += 1
        if self.kind == "raising":
            raise RuntimeError("close callback fails")
        if self.kind == "reentrant":
            # use the client from inside the callback
            self.channel.write(b"too late")
            self.channel.close()
            self.w.ws.get_channel(self.number + 5000)
            self.w.ws.send("log", text=b"from a close callback")

    def verify(self, how):
        want = 0 if self.kind == "plain" else 1
        self.ctx.check(self.closes == want, "a close callback did not run exactly once", channel=self.number, closed_by=how, kind=self.kind,
                       calls=self.closes, log=list(world.log_lines)[-15:])
        self.ctx.check(self.channel.is_closed, "a channel that was closed does not say so", channel=self.number, closed_by=how)
        self.ctx.count("closes")


def use(ctx, w, conn, life, rng):
    data = b"data for %d %d" % (life.number, rng.randrange(10 ** 6))
    conn.route(life.number, data)
    conn.send("route_control", life.number, b"ctl" + data)
    life.pending = (data, b"ctl" + data)


def used(ctx, life):
    data, control = life.pending
    if life.kind in ("plain", "reader"):
        ctx.equal(life.channel.read(10000), data, "a reused channel does not deliver its data to reads", channel=life.number)
    else:
        ctx.check([e for e in life.log if e[0] == "data"] == [("data", data)], "a reused channel does not deliver its data once to its own callback",
                  channel=life.number, log=life.log)
    if life.kind != "plain":
        ctx.check([e for e in life.log if e[0] == "control"] == [("control", control)], "control data was not delivered once",
                  channel=life.number, log=life.log)


KINDS = ["plain", "reader", "quiet", "raising", "reentrant", "quiet"]


def history(ctx, shard, rounds, closes, losses):
    rng = ctx.rng()
    with world.World(ctx) as w:
        # A connection may be lost before the server has assigned an identity
        conn = w.join(identity=rng.choice([None, b"node"]))
        w.sync()
        old = []
        for round_number in range(rounds):
            numbers = rng.sample(NUMBERS, rng.randrange(2, len(NUMBERS)))
            for n in numbers:
                if rng.random() < 0.5:
                    conn.send("notify_open", n)
            w.sync()
            lives = [Life(ctx, w, n, rng.choice(KINDS)) for n in numbers]
            for life in lives:
                use(ctx, w, conn, life, rng)
            w.sync()
            for life in lives:
                used(ctx, life)
                if rng.random() < 0.5:
                    # leave unread data or later data behind
                    conn.route(life.number, b"left over")
            closed_now = []
            if closes:
                for life in lives:
                    if rng.random() < (0.9 if not losses else 0.4):
                        for _ in range(rng.choice([1, 1, 1, 2, 3])):
                            conn.send("notify_close", life.number)
                        closed_now.append(life)
                w.sync()
                for life in closed_now:
                    life.verify("server close")
                    ctx.case((round_number, life.number, life.kind, "server"))
                for life in lives:
                    if life not in closed_now:
                        ctx.check(life.closes == 0 and not life.channel.is_closed, "a channel was closed by the close of another", channel=life.number)
                        continue
                    # the same number on the same connection
                    again = Life(ctx, w, life.number, rng.choice(KINDS))
                    use(ctx, w, conn, again, rng)
                    w.sync()
                    used(ctx, again)
                    ctx.check(life.closes <= 1 and not [e for e in life.log if e in [("data", again.pending[0])]],
                              "the predecessor of a channel got its data", channel=life.number)
                    old.append((life, life.closes))
                    lives[lives.index(life)] = again
            if losses:
                how = rng.choice(wsserver.ENDINGS)
                if rng.random() < 0.3:
                    conn.route(numbers[0], b"racing the loss")
                conn.end(how)
                conn = w.join(identity=rng.choice([None, b"", b"node-%d" % round_number]))
                w.sync()
                for life in lives:
                    life.verify(how)
                    ctx.case((round_number, life.number, life.kind, how), sample={"channel": life.number, "kind": life.kind, "lost by": how})
                    old.append((life, life.closes))
                ctx.count("losses")
                ctx.check(not [n for n in numbers if w.ws.has_channel(n) and w.ws.get_channel(n).is_closed], "a dead channel is still known after the loss")
                # data for a number that nobody has opened on this connection must not reach the old consumer
                stale_numbers = [life.number for life in lives]
                before = [(life, list(life.log)) for life in lives]
                for n in stale_numbers:
                    conn.send("route_control", n, b"stray")
                    conn.route(n, b"stray")
                w.sync()
                for life, log in before:
                    ctx.check(life.log == log, "a consumer of a lost connection got data of the next", channel=life.number)
                for n in stale_numbers:
                    conn.send("notify_close", n)
                w.sync()
            else:
                for life in lives:
                    conn.send("notify_close", life.number)
                w.sync()
                for life in lives:
                    life.verify("server close")
                    ctx.case((round_number, life.number, life.kind, "server"))
                    old.append((life, life.closes))
            for life, closes_then in old:
                ctx.check(life.closes == closes_then, "the close callback of a long closed channel ran again", channel=life.number)
            old = old[-200:]
    ctx.require("closes", 40)
    if losses:
        ctx.require("losses", 5)


def services(ctx):
    """Reuse of the numbers of real services: echo, command, file, across closes and losses."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        for round_number in range(ctx.pick(10, 80)):
            for n in (1, 2, 3):
                conn.instruct("open-echo", port=n)
                conn.route(n, b"hello %d" % n)
            conn.instruct("run-command", port=4, command=b"sleep 30")
            w.sync()
            for n in (1, 2, 3):
                ctx.equal(conn.sent_on(n), b"hello %d" % n, "echo", channel=n)
            if rng.random() < 0.6:
                conn.end(rng.choice(wsserver.ENDINGS))
                conn = w.join(identity=rng.choice([None, b"next-%d" % round_number]))
            else:
                for n in (1, 2, 3, 4):
                    conn.send("notify_close", n)
            w.sync()
            start = len(conn.packets())
            for n in (1, 2, 3, 4):
                conn.route(n, b"who is there?")
            w.sync()
            extra = [e for e in conn.packets()[start:] if e.name != "pong"]
            ctx.check(not extra, "a service answers on a number that was closed and not reopened", entries=[repr(e) for e in extra])
            for n in (1, 2, 3, 4):
                conn.send("notify_close", n)
            w.sync()
            # now the numbers serve other purposes
            start = len(conn.packets())
            conn.instruct("run-command", port=1, command=b"echo one")
            conn.instruct("open-echo", port=4)
            conn.route(4, b"four")
            ctx.check(conn.wait(lambda: [e for e in conn.close_requests(1) if e in conn.packets()[start:]], 20.0),
                      "a command on a reused channel number did not complete", entries=[repr(e) for e in conn.packets()[start:]])
            w.sync()
            sent = {}
            for e in conn.packets()[start:]:
                if e.name == "request_send":
                    sent[e.packet[1]] = sent.get(e.packet[1], b"") + e.packet[2]
            ctx.equal(sent, {1: b"one\n", 4: b"four"}, "services on reused channel numbers")
            for n in (1, 4):
                conn.send("notify_close", n)
            # clean slate for the next round
            w.sync()
            ctx.count("closes", 8)
            ctx.case((round_number, conn.index))
            conn.end("fin")
            conn = w.join(identity=b"fresh-%d" % round_number)
            w.sync()


def run(ctx, shard):
    world.load()
    if shard == "close":
        history(ctx, shard, ctx.pick(40, 400), True, False)
    elif shard.startswith("loss"):
        history(ctx, shard, ctx.pick(20, 200), False, True)
    elif shard.startswith("mixed"):
        history(ctx, shard, ctx.pick(20, 200), True, True)
    else:
        services(ctx)
