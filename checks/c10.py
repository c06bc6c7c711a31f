"""C10: the agent reconnects and rejoins after any connection failure."""
import os
import threading

from vf import proto, wsserver, world
from vf.core import real_sleep

RULE = ("A case is one connection failure: refused, rejected (several codes), dropped, reset, answered with garbage or a "
        "wrong handshake, or an established connection ended in nine ways, before or after the join, in idle or under load "
        "(echo, a running command, a terminal, an open read, concurrent senders), singly and in series of up to 15. After "
        "each the loopback server must see a new connection whose first and only join is a join request, and pings, echo and "
        "commands must work on it. The requested back-off times are recorded. Non-trivial: distinct (failure, load, position).")
SHARDS = {"quick": ["establish", "endings", "codes", "load1", "load2", "series"],
          "thorough": ["establish", "endings", "codes", "series"] + ["load%d" % i for i in range(8)]}

REFUSALS = [{"kind": "reject", "code": 403}, {"kind": "reject", "code": 404}, {"kind": "reject", "code": 500}, {"kind": "reject", "code": 503},
            {"kind": "reject", "code": 302}, {"kind": "reject", "code": 200}, {"kind": "drop"}, {"kind": "reset"}, {"kind": "garbage"},
            {"kind": "garbage", "data": b"HTTP/1.1 101 Switching Protocols\r\n\r\n"}, {"kind": "garbage", "data": b"x" * 40000},
            {"kind": "garbage", "data": b"\r\n\r\n"}, {"kind": "bad-accept"}, {"kind": "cut-upgrade"}]


class Checker(object):
    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.established = 0
        self.checked = 0

    def joined(self, why, identity=None):
        """The next established connection, verified."""
        ctx, w = self.ctx, self.w
        known = self.checked

        def find():
            for conn in w.server.conns[known:]:
                if conn.packets() and not conn.closed:
                    return conn
        conn = w.server.wait(find, 40.0)
        ctx.check(conn, "the agent did not join again after a connection failure", failure=why, backoffs=[b[1] for b in world.backoffs[-5:]],
                  connections=len(w.server.conns), log=list(world.log_lines)[-15:], stacks=world.stacks)
        self.checked = conn.index + 1
        if not conn.barrier(30.0):
            ctx.fail("the agent does not answer on its new connection", failure=why, entries=[repr(e) for e in conn.entries[-5:]],
                     stacks=world.stacks)
        self.verify(conn, why)
        conn.send("set_identity", b"node-%d" % conn.index)
        conn.send("welcome")
        self.conn = conn
        return conn

    def verify(self, conn, why):
        ctx = self.ctx
        names = [e.name for e in conn.packets()]
        if os.getloadavg()[0] > 3 * (os.cpu_count() or 1):
            # Back-offs are made short here, so on a busy machine a thread may
            # sleep from before the loss until the next connection, in the
            # middle of a write
            late = 0
            while late < 6 and names[late:] and names[late] == "request_send":
                late += 1
            names = names[late:] or names
        ctx.check(names[0] == "request_join", "the agent did not begin by asking to join as a new node", names=names[:5], failure=why)
        ctx.check(names.count("request_join") == 1 and "request_identify" not in names, "the join request was not sent exactly once",
                  names=names[:10], failure=why)
        ctx.check(not conn.anomalies(), "the agent sent something that is no packet", anomalies=[repr(e) for e in conn.anomalies()])

    def serve(self, why, command=True):
        ctx, conn = self.ctx, self.conn
        base = 1000 * (conn.index + 1)
        conn.instruct("open-echo", port=base)
        conn.route(base, b"echo after " + repr(why).encode())
        if command:
            conn.instruct("run-command", port=base + 1, command=b"echo served")
        if not conn.barrier(30.0):
            ctx.fail("the agent stopped answering", failure=why, stacks=world.stacks)
        ctx.equal(conn.sent_on(base), b"echo after " + repr(why).encode(), "the echo service does not work after a reconnect", failure=why)
        if command:
            ok = conn.wait(lambda: conn.close_requests(base + 1), 30.0)
            ctx.check(ok and conn.sent_on(base + 1) == b"served\n", "commands do not work after a reconnect", failure=why,
                      sent=conn.sent_on(base + 1), log=list(world.log_lines)[-10:])
            conn.send("notify_close", base + 1)
        conn.send("notify_close", base)
        conn.barrier(30.0)
        # An identity assigned on this connection is announced, as before
        identity = b"node-%d" % conn.index

        def announced():
            return [r for r in self.w.api.requests if r.call("m2m.associate") and r.call("m2m.associate")["params"].get("identity") == identity.decode()]
        ctx.check(self.w.api.wait(announced, 30.0), "the identity assigned after a reconnect is not announced", failure=why, identity=identity,
                  log=list(world.log_lines)[-10:])
        self.verify(conn, why)
        ctx.count("recoveries")


def check_backoffs(ctx):
    waits = [b[1] for b in world.backoffs]
    ctx.check(all(w is not None and 0 <= w <= 120 for w in waits), "the back-off before reconnecting is not bounded", waits=waits[:50])
    ctx.count("backoffs", len(waits))


def run(ctx, shard):
    rng = ctx.rng()
    world.load()
    with world.World(ctx, compress=rng.random() < 0.7) as w:
        checker = Checker(ctx, w)
        checker.joined("start")
        checker.serve("start")
        if shard == "establish":
            for _ in range(ctx.pick(1, 8)):
                for behaviour in REFUSALS:
                    w.server.behaviours.append(behaviour)
                    how = rng.choice(wsserver.ENDINGS)
                    checker.conn.end(how)
                    checker.joined(behaviour)
                    checker.serve(behaviour)
                    ctx.case((repr(behaviour), how), sample=behaviour)
                # nobody listens for a while
                w.server.refuse()
                checker.conn.end("fin")
                real_sleep(0.3)
                w.server.listen()
                checker.joined("refused")
                checker.serve("refused")
                ctx.case("refused")
        elif shard == "codes":
            codes = [200, 201, 204, 206, 300, 301, 303, 304, 307, 308, 400, 401, 402, 405, 407, 408, 409, 410, 411, 413, 418, 421, 422, 425, 426, 429, 431, 451,
                     501, 502, 504, 505, 507, 511, 599, 600, 999, 0]
            ends = [1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 3000, 3999, 4000, 4001, 4999]
            for index in range(max(len(codes), len(ends))):
                if index < len(codes):
                    w.server.behaviours.append({"kind": "reject", "code": codes[index]})
                how = "close-%d" % ends[index] if index < len(ends) else rng.choice(wsserver.ENDINGS)
                checker.conn.end(how)
                why = (how, codes[index] if index < len(codes) else None)
                checker.joined(why)
                checker.serve(why, command=index % 5 == 0)
                ctx.case(why, sample=why)
                if ctx.spent():
                    break
        elif shard == "endings":
            for _ in range(ctx.pick(2, 12)):
                for how in wsserver.ENDINGS:
                    for when in ("idle", "before-identity", "mid-message"):
                        conn = checker.conn
                        if when == "mid-message":
                            conn.send_frame(2, b"li7e5:he", fin=False)
                        if when == "before-identity":
                            conn.end(how)
                            # the next one is ended as soon as it has joined
                            known = conn.index + 1
                            second = w.server.wait(lambda: next((c for c in w.server.conns[known:] if c.packets()), None), 40.0)
                            ctx.check(second, "the agent did not join again", failure=how)
                            second.end(how)
                            checker.checked = second.index + 1
                        else:
                            conn.end(how)
                        checker.joined((how, when))
                        checker.serve((how, when), command=rng.random() < 0.3)
                        ctx.case((how, when), sample=[how, when])
        elif shard.startswith("load"):
            # Long enough for those that are in the middle of a write at the loss
            world.settings["backoff"] = 0.3
            for round_number in range(ctx.pick(14, 80)):
                conn = checker.conn
                base = 500000 + 100 * round_number
                stop = threading.Event()
                conn.instruct("open-echo", port=base)
                loads = rng.sample(["command", "terminal", "flood", "senders", "file", "callbacks"], rng.randrange(1, 5))
                if "command" in loads:
                    conn.instruct("run-command", port=base + 1, command=rng.choice([b"sleep 60", b"yes", b"echo x; sleep 60"]))
                if "terminal" in loads:
                    conn.instruct("open-terminal", name=b"shell", port=base + 2, size=[80, 24])
                if "file" in loads:
                    conn.instruct("read-file", port=base + 3, path=b"/dev/zero")
                if "callbacks" in loads:
                    w.ws.add_callback(base, lambda result: 1 / 0)
                    w.ws.get_channel(base + 5).set_callbacks(on_close=lambda: 1 / 0)
                threads = []
                if "senders" in loads:
                    def sender(channel=w.ws.get_channel(base + 4)):
                        while not stop.is_set():
                            channel.write(b"s" * 500)
                            real_sleep(0.0005)
                    threads = [threading.Thread(target=sender, name="vf-sender") for _ in range(3)]
                    for thread in threads:
                        thread.daemon = True
                        thread.start()
                if "flood" in loads:
                    for _ in range(200):
                        conn.route(base, b"f" * 200)
                real_sleep(rng.random() * 0.1)
                how = rng.choice(wsserver.ENDINGS)
                conn.end(how)
                try:
                    checker.joined((how, loads))
                finally:
                    stop.set()
                checker.serve((how, loads))
                for thread in threads:
                    thread.join(10)
                ctx.case((how, tuple(loads)), sample=[how, loads])
        else:
            for round_number in range(ctx.pick(3, 20)):
                series = [rng.choice(REFUSALS) for _ in range(ctx.pick(12, 15))]
                w.server.behaviours.extend(series)
                checker.conn.end(rng.choice(wsserver.ENDINGS))
                for _ in range(rng.randrange(3)):
                    w.server.refuse()
                    real_sleep(0.1)
                    w.server.listen()
                checker.joined(["series"] + series)
                checker.serve("series")
                ctx.case((round_number, repr(series)))
                ctx.count("failed_attempts", len(series))
        check_backoffs(ctx)
        ctx.require("recoveries", 4)
        ctx.require("backoffs", 4)
