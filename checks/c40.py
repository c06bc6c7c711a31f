"""C40: what is over leaves nothing in the agent's memory."""
import array
import gc
import json
import os
import threading

import c30
from vf import apiserver, bref, proto, safety, timewarp, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is a block of dozens of units of one kind of work (services of every kind and end, remote file requests, scans, polls, identities, refused messages, data for nobody, lost "
        "connections), after which every object the garbage collector knows is counted by type, with the sizes of containers and of strings. Numbers that go up with every block of "
        "a kind, over and over, are a leak. Non-trivial: distinct (kind, block).")
KINDS = {"services1": ["command", "command exec sleep 1000", "command a\0b", "command nonsense-command", "echo"],
         "services2": ["read", "read /nonexistent", "read \0", "data", "forward", "forward server", "forward closed", "forward odd"],
         "terminals1": ["terminal plain", "terminal shell", "terminal ignores"], "terminals2": ["terminal missing", "terminal nobody", "terminal unknown", "terminal unquoted", "terminal shut at once", "refused"],
         "files": ["upload", "upload f.txt", "upload none", "download", "aborted", "scan"],
         "messages": ["garbage", "ping", "instruction", "strangers"], "polls": ["poll", "failing polls", "identity"], "lost": ["lost", "lost while busy"],
         "mixed": ["everything"]}
SHARDS = {"quick": [name for name in KINDS if name != "mixed"], "thorough": list(KINDS)}
BLOCKS, CONFIRM = 5, 14
LEAST = 6           # objects of a type, per block


def forget_ours(w):
    """The harness keeps books too."""
    with w.server.cond:
        w.server.conns[:] = [c for c in w.server.conns if c is w.conn]
        del w.conn.entries[20:]
        del w.server.log[:]
    w.joins = 1
    with w.api.cond:
        del w.api.requests[:]
    for books in (safety.blocked, safety.started, safety.kills, timewarp.waits, world.backoffs, world.log_lines, apiserver.silent):
        books.clear()


def census():
    """What there is in memory."""
    c30.forget()
    for _ in range(3):
        gc.collect()
    counts, items, text = {}, 0, 0
    for thing in gc.get_objects():
        kind = type(thing)
        name = kind.__module__ + "." + kind.__name__
        counts[name] = counts.get(name, 0) + 1
        if kind in (list, dict, set, tuple, frozenset) or name == "collections.deque":
            items += len(thing)
        elif kind in (bytes, str, bytearray):
            text += len(thing)
    # (frames, functions and numbers come and go with what the compiler does)
    for name in ("builtins.int", "builtins.float", "builtins.frame", "builtins.code", "builtins.function"):
        counts.pop(name, None)
    counts["(items in containers)"] = items
    counts["(bytes of text)"] = text // 40
    # (kept where it isn't counted itself)
    return array.array("B", json.dumps(counts).encode())


class Garbage(object):
    """Messages and calls of one kind each."""

    def __init__(self, ctx, w, rng):
        self.ctx, self.w, self.rng = ctx, w, rng
        self.serial = 0
        self.mode = "ok"

    def respond(self, request):
        if self.mode == "ok":
            return apiserver.ok_response(request)
        return self.rng.choice(["http500", "http404", "close", "reset", b"junk", b"[]", b"{}", apiserver.error_response(request) if hasattr(apiserver, "error_response") else b"null"])

    def one(self, kind):
        w, rng = self.w, self.rng
        conn = w.conn
        self.serial += 1
        if kind == "garbage":
            conn.send_message(rng.choice([os.urandom(rng.randrange(40)), b"li%de" % self.serial, bref.dumps([rng.choice([n for n in range(300) if n != proto.N["notify_open"]]), self.serial]), bref.dumps([5000 + self.serial]),
                                          bref.dumps({b"x%d" % self.serial: 1}), bref.dumps([16, b"x", {b"action": b"none%d" % self.serial}]), bref.dumps([6, b"%d" % self.serial, 5])]))
        elif kind == "ping":
            conn.send("ping", b"p%d" % self.serial + b"x" * rng.randrange(2000))
        elif kind == "strangers":
            number = 10 ** 6 + self.serial
            which = rng.randrange(7)
            if which == 0:
                conn.send("notify_close", number)
            elif which == 1:
                conn.send("response", self.serial, {b"a%d" % self.serial: 1})
            elif which == 2:
                conn.send("notify_login_success", b"user%d" % self.serial)
            elif which == 3:
                conn.send("close_remote_file", b"never-%d" % self.serial)
            elif which == 4:
                conn.send("read_remote_file", b"never-%d" % self.serial, 0, 10)
            elif which == 5:
                conn.send("log", b"text %d" % self.serial)
            else:
                conn.instruct("open-terminal", name=b"no-terminal-%d" % self.serial, port=number)
                conn.instruct("open-portforward", service=b"no-service-%d" % self.serial, route=[b"a", 1, b"b", number + 10 ** 6])
                conn.send("notify_close", number)
                conn.send("notify_close", number + 10 ** 6)
        elif kind == "identity":
            conn.send("set_identity", b"identity-%d" % self.serial)
        elif kind == "aborted":
            conn.send("write_remote_file", b"part-%d" % self.serial, b"new-%d" % self.serial, b"", 0, b"data", 0)
            conn.send("open_remote_file", b"open-%d" % self.serial, b"missing-%d" % self.serial)
        elif kind == "poll":
            w.client.poll()
        elif kind == "failing polls":
            self.mode = "bad"
            w.client._sent_meta = False
            w.client.poll()
            self.mode = "ok"


def block(ctx, w, rng, kind, start, tools, state):
    """Some dozens of units of work, until all are over."""
    hub, servers, books, garbage = tools
    whole, (kind, _space, which) = kind, kind.partition(" ") if kind.split()[0] in c30.KINDS else (kind, "", "")
    units = ctx.pick(48 if kind in ("terminal", "refused") else 90, 120)
    if kind in ("garbage", "ping", "strangers", "aborted"):
        for _ in range(units * 2):
            garbage.one(kind)
        w.sync()
    elif kind in ("poll", "failing polls", "identity"):
        for _ in range(units):
            garbage.one(kind)
            if kind == "identity":
                w.sync()
    elif kind in ("lost", "lost while busy"):
        for _ in range(24):
            this = c30.Round(ctx, w, rng, hub, servers, start["number"])
            for _ in range(rng.randrange(1, 5) if kind != "lost" else 0):
                this.start()
            this.finish(rng.choice(wsserver.ENDINGS))
            start["number"] = this.number
            forget_ours(w)
    else:
        for _ in range(units // 6):
            this = c30.Round(ctx, w, rng, hub, servers, start["number"])
            for _ in range(6):
                if which == "shut at once":
                    this.start(kind, "plain")
                    this.close(this.number)
                    continue
                this.start(None if kind == "everything" else kind, which or None)
                if rng.random() < 0.3:
                    this.act()
            if rng.random() < 0.6:
                real_sleep(0.05)
            this.answer()
            this.finish(None)
            start["number"] = this.number
            if kind == "refused":
                books.balance(kind=whole)
    w.sync()
    books.balance(kind=whole)
    forget_ours(w)
    state["units"] += units


def grown(seen):
    return {name: [c.get(name, 0) for c in seen] for name in seen[-1]
            if all(after.get(name, 0) - before.get(name, 0) >= LEAST for before, after in zip(seen[1:], seen[2:]))}


def examine(ctx, w, rng, kind, start, tools):
    seen = []
    state = {"units": 0}
    suspects = None
    for number in range(CONFIRM + 2):
        block(ctx, w, rng, kind, start, tools, state)
        seen.append(census())
        ctx.count("blocks")
        ctx.case((kind, number, state["units"]))
        if number >= BLOCKS - 1:
            # What went up with each block, the first of which is for warming up
            counts = [json.loads(c.tobytes().decode()) for c in seen]
            suspects = grown(counts)
            if not suspects:
                return
            ctx.count("confirming_blocks")
    ctx.fail("what is over stays in memory: more with every block of the same work", kind=kind, objects=suspects, units_of_work=state["units"])


def run(ctx, shard):
    ctx.become(65534, 65534)
    world.load(k=c30.K, level=30 if shard == "polls" else 10)
    rng = ctx.rng()
    holder = {}
    with world.World(ctx, respond=lambda request: holder["garbage"].respond(request) if holder else apiserver.ok_response(request)) as w:
        w.join()
        w.sync()
        hub, servers = c30.prepare(ctx, w)
        garbage = holder["garbage"] = Garbage(ctx, w, rng)
        books = c30.Books(ctx, w, servers)
        real_sleep(0.3)
        books.open_books()
        tools = (hub, servers, books, garbage)
        start = {"number": 1000}
        # Whatever is kept once
        for kind in c30.KINDS:
            this = c30.Round(ctx, w, rng, hub, servers, start["number"])
            this.start(kind)
            this.finish(None)
            start["number"] = this.number
        for kind in KINDS[shard]:
            with ctx.guard("blocks of " + kind, 220.0):
                examine(ctx, w, rng, kind, start, tools)
        hub.close()
        for server in servers:
            server.close()
    ctx.require("blocks", BLOCKS)
