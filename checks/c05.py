"""C05: concurrent senders never corrupt, lose or reorder outgoing messages."""
import json
import os
import threading

from vf import proto, sweep, world
from vf.core import real_sleep, run_threads

RULE = ("A case is one message sent by one of several agent threads, tagged with its thread and sequence number; the "
        "loopback server (own websocket implementation) checks that each arrives intact, exactly once and in its "
        "thread's order. Workloads: 2-16 threads with random preemption delays in agent and websocket code, message "
        "sizes 0-70000, compression on (with and without context takeover) and off, a slow reader, pings answered "
        "meanwhile; and an enumeration of every line at which one send can be preempted by another. "
        "Non-trivial: distinct (message, round).")
SHARDS = {"quick": ["storm-plain", "storm-compress", "storm-notakeover", "slow-compress", "stall", "sweep-compress", "sweep-plain"],
          "thorough": ["storm-plain1", "storm-compress1", "storm-compress2", "storm-notakeover", "slow-compress", "slow-plain", "stall",
                       "sweep-compress", "sweep-plain", "storm-plain2", "storm-compress3"]}


def lomond_root():
    import lomond
    return os.path.dirname(lomond.__file__)


def payload(rng, tag, size):
    body = bytes(rng.choice(b"abcdefgh\x00\xff") for _ in range(min(size, 64)))
    return tag + b"|" + (body * (size // max(1, len(body)) + 1))[:size]


def storm(ctx, shard):
    rng = ctx.rng()
    slow = shard.startswith("slow")
    behaviours = [{"no_takeover": True}] if "notakeover" in shard else []
    with world.World(ctx, compress="plain" not in shard, behaviours=behaviours) as w:
        conn = w.join()
        w.sync()
        for round_number in range(ctx.pick(5, 30) if not slow else ctx.pick(2, 8)):
            threads = rng.choice([2, 3, 5, 8, 16])
            per_thread = 60 if not slow else 25
            if slow:
                conn.read_size, conn.read_delay = 8192, 0.001
            start = len(conn.entries)
            plans = []
            for t in range(threads):
                plan = []
                for n in range(per_thread):
                    size = rng.choice([0, 1, 20, 100, 125, 126, 300, 1000]) if not slow else rng.choice([0, 200, 20000, 70000])
                    if not slow and rng.random() < 0.02:
                        size = 66000
                    plan.append((rng.randrange(5), payload(rng, b"%d/%d/%d" % (round_number, t, n), size)))
                plans.append(plan)
            m2m = w.ws
            channel_base = 1000 + 100 * round_number
            shared = m2m.get_channel(channel_base + 99)
            gate = threading.Event()
            start_pings = len(conn.packets("pong"))

            def sender(t, plan):
                own = m2m.get_channel(channel_base + t)

                def go():
                    gate.wait(10)
                    for kind, data in plan:
                        if kind == 0:
                            m2m.send("log", text=data)
                        elif kind == 1:
                            shared.write(data)
                        elif kind == 2:
                            own.send_control({"data": data.decode("latin-1")})
                        else:
                            own.write(data)
                return go
            jitter = sweep.Jitter(ctx.rng("jitter%d" % round_number), 0.01 if not slow else 0.002, 0.002, roots=(lomond_root(),))
            pings = 30

            def pinger():
                gate.wait(10)
                for n in range(pings):
                    conn.send("ping", b"ping-%d-%d" % (round_number, n))
                    real_sleep(0.002)
            with jitter:
                functions = [sender(t, plan) for t, plan in enumerate(plans)] + [pinger]
                real_sleep(0)
                starter = threading.Timer(0.05, gate.set)
                starter.start()
                results = run_threads(functions, 90.0)
            ctx.check(all(r is not None for r in results), "sending threads did not finish", stacks=world.stacks)
            for result in results:
                ctx.check(result[1] is None, "sending raised", error=repr(result[1]))
            ctx.count("preemptions", jitter.stops)
            m2m.send("log", text=b"end-%d" % round_number)
            conn.wait(lambda: conn.closed or any(e.packet[1] == b"end-%d" % round_number for e in conn.packets("log")[-30:]), 60.0)
            conn.read_delay = 0.0
            entries = conn.entries[start:]
            bad = [e for e in entries if e.kind != "packet"]
            ctx.check(not bad and not conn.closed, "the server received a corrupt message", bad=[repr(b) for b in bad[:3]],
                      conns=len(w.server.conns), log=list(world.log_lines)[-5:])
            seen = {}
            for e in entries:
                if e.name == "log":
                    data = e.packet[1]
                    where = None
                elif e.name == "request_send":
                    where, data = e.packet[1], e.packet[2]
                elif e.name == "request_send_control":
                    where, data = e.packet[1], json.loads(e.packet[2].decode("utf-8"))["data"].encode("latin-1")
                elif e.name == "pong":
                    continue
                else:
                    ctx.fail("an unexpected packet", entry=repr(e))
                if data.startswith(b"end-"):
                    continue
                t = int(data.split(b"/")[1])
                seen.setdefault(t, []).append((e.name, where, data))
            names = {0: "log", 1: "request_send", 2: "request_send_control", 3: "request_send", 4: "request_send"}
            for t, plan in enumerate(plans):
                want = []
                for kind, data in plan:
                    where = None if kind == 0 else shared.number if kind == 1 else channel_base + t
                    want.append((names[kind], where, data))
                got = seen.get(t, [])
                if got != want:
                    for index in range(max(len(got), len(want))):
                        g = got[index] if index < len(got) else None
                        e = want[index] if index < len(want) else None
                        if g != e:
                            ctx.fail("messages of a thread were lost, duplicated, changed or reordered", thread=t, index=index, got=g,
                                     want=e, got_count=len(got), want_count=len(want))
                for item in want:
                    ctx.case(item[2][:40])
                ctx.count("messages", len(want))
            pongs = [e.packet[1] for e in conn.packets("pong")[start_pings:]]
            ctx.equal(pongs, [b"ping-%d-%d" % (round_number, n) for n in range(pings)], "pings were not answered in order among other sends")
            ctx.count("rounds")
    ctx.require("messages", 500)
    ctx.require("preemptions", 20)


class LifoLock(object):
    """A lock that prefers whoever came last (locks promise no order)."""

    def __init__(self):
        self.guard = threading.Lock()
        self.held = False
        self.waiting = []

    def acquire(self):
        with self.guard:
            if not self.held:
                self.held = True
                return True
            mine = threading.Lock()
            mine.acquire()
            self.waiting.append(mine)
        mine.acquire()
        return True

    def release(self):
        with self.guard:
            if self.waiting:
                self.waiting.pop().release()
            else:
                self.held = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


def stall(ctx, shard):
    """The server stops reading for seconds, while several threads send more than the connection can hold."""
    for compress in (False, True):
        stall_rounds(ctx, ctx.rng(compress), compress)
    ctx.require("stalls", 2)


def stall_rounds(ctx, rng, compress):
    with world.World(ctx, compress=compress) as w:
        conn = w.join()
        w.sync()
        m2m = w.ws
        if hasattr(m2m.websocket.session, "_lock"):
            m2m.websocket.session._lock = LifoLock()
            ctx.count("unfair_locks")
        for round_number in range(ctx.pick(1, 4)):
            threads, per_thread = rng.choice([3, 5]), 12
            start = len(conn.entries)
            conn.reading.clear()
            gate = threading.Event()
            # What compressing refers back to, around bytes that it doesn't shrink
            words = [b"word%d-" % n * 3 for n in range(30)]

            def text():
                return b"".join(rng.choice(words) for _ in range(rng.randrange(1, 30)))

            plans = [[b"stall-%d/%d/%d" % (round_number, t, n) + text() + rng.getrandbits(8 * size).to_bytes(size, "big") + text()
                      for n, size in enumerate(rng.choice([10, 200000, 500000]) for _ in range(per_thread))] for t in range(threads)]
            progress = [0] * threads

            def sender(t):
                own = m2m.get_channel(100 * (round_number + 1) + t)

                def go():
                    gate.wait(10)
                    for data in plans[t]:
                        own.write(data)
                        progress[t] += 1
                return go

            def reader():
                gate.set()
                for pause in range(rng.choice([2, 3])):
                    real_sleep(rng.choice([1.5, 3.0, 6.0]) if ctx.tier == "quick" else rng.choice([3.0, 6.0, 20.0]))
                    if pause == 0 and min(progress) >= per_thread:
                        ctx.count("not stalled")
                    conn.reading.set()
                    real_sleep(0.02)
                    conn.reading.clear()
                conn.reading.set()

            results = run_threads([sender(t) for t in range(threads)] + [reader], 180.0)
            ctx.check(all(r is not None for r in results), "sending threads did not finish", stacks=world.stacks)
            for result in results:
                ctx.check(result[1] is None, "sending raised", error=repr(result[1]))
            if not conn.barrier(60.0):
                ctx.fail("the agent stopped answering pings after a stall", closed=conn.closed, stacks=world.stacks)
            bad = [e for e in conn.entries[start:] if e.kind not in ("packet", "wsping", "wspong")]
            ctx.check(not bad and not conn.closed, "the server received a corrupt message", bad=[repr(b) for b in bad[:3]])
            for t, plan in enumerate(plans):
                got = [e.packet[2] for e in conn.packets("request_send") if e.packet[1] == 100 * (round_number + 1) + t]
                if got != plan:
                    ctx.fail("messages of a thread were lost, duplicated, changed or reordered during a stall", thread=t, got=[g[:30] for g in got], want=[d[:30] for d in plan])
                for data in plan:
                    ctx.case((round_number, t, data[:30]))
                ctx.count("messages", len(plan))
            ctx.count("stalls")


def enumerate_preemptions(ctx, shard):
    """Every line at which one send can be interrupted by another thread's sends."""
    with world.World(ctx, compress="compress" in shard) as w:
        conn = w.join()
        w.sync()
        m2m = w.ws
        a, b = m2m.get_channel(1), m2m.get_channel(2)
        roots = (lomond_root(),)
        variants = [("write", lambda data: a.write(data), lambda data: b.write(data)),
                    ("control", lambda data: a.send_control({"x": data.decode()}), lambda data: b.write(data)),
                    ("same", lambda data: a.write(data), lambda data: a.write(data))]
        for name, first, second in variants:
            k, limit = 0, 2000
            while k < limit:
                k += 1
                start = len(conn.packets())
                one = b"first-%s-%d-" % (name.encode(), k) + b"abc" * 40
                two = [b"second%d-%s-%d-" % (i, name.encode(), k) + b"abd" * 40 for i in range(2)]
                done_first, done_second, where, lines = sweep.preempt(
                    lambda: first(one), lambda: [second(d) for d in two], k, roots=roots, patience=0.03)
                ctx.check(done_first is not None and done_second is not None, "a send never returned", where=where, stacks=world.stacks)
                ctx.check(done_first[1] is None and done_second[1] is None, "a send raised", where=where, errors=repr((done_first, done_second)))
                conn.wait(lambda: conn.closed or len(conn.packets()) >= start + 3, 20.0)
                got = [e.packet[:2] + [json.loads(e.packet[2].decode())] if e.packet[0] == 22 else e.packet
                       for e in conn.packets()[start:]]
                want_first = [22, 1, {"x": one.decode()}] if name == "control" else [5, 1, one]
                want_second = [[5, 1 if name == "same" else 2, d] for d in two]
                ctx.check(not conn.closed and not conn.anomalies(), "the server received a corrupt message", where=where,
                          anomalies=[repr(e) for e in conn.entries if e.kind != "packet"][-3:])
                ctx.check(sorted(map(repr, got)) == sorted(map(repr, [want_first] + want_second)), "messages were lost, duplicated or changed",
                          where=where, got=got)
                ctx.check([g for g in got if g != want_first] == want_second, "messages of one thread were reordered", where=where, got=got)
                ctx.count("schedules")
                ctx.count("messages", 3)
                ctx.case((name, k), nontrivial=where is not None, sample={"preempted at": where})
                if where is None or ctx.spent():
                    break
            ctx.count("lines_swept", k)
    ctx.require("schedules", 60)


def run(ctx, shard):
    world.load()
    if shard.startswith("sweep"):
        enumerate_preemptions(ctx, shard)
    elif shard == "stall":
        stall(ctx, shard)
    else:
        storm(ctx, shard)
