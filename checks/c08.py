"""C08: every command callback fires exactly once."""
import threading

from vf import bref, proto, sweep, world, wsserver
from vf.core import run_threads

RULE = ("A case is one registered callback in a random history of registrations (several per command, from several "
        "threads, from inside callbacks), responses (matching, unknown, repeated, malformed) and connection losses, with "
        "callbacks that raise; its invocations are counted and its argument compared. Every line at which a registration "
        "can be preempted by a response or a loss (and the reverse) is enumerated. Non-trivial: distinct histories.")
SHARDS = {"quick": ["history1", "history2", "threads", "sweep"],
          "thorough": ["threads", "sweep"] + ["history%d" % i for i in range(6)]}


class Callback(object):
    def __init__(self, book, command, raising=False, inner=None):
        self.book, self.command, self.raising, self.inner = book, command, raising, inner
        self.calls = []
        book.append(self)

    def __call__(self, result):
        self.calls.append(result)
        if self.inner:
            self.inner()
        if self.raising:
            raise ValueError("callback fails")


def verify(ctx, callbacks, expected, history):
    for callback in callbacks:
        want = expected[callback]
        ctx.check(callback.calls == want, "a command callback was not invoked exactly once with its result",
                  command=callback.command, got=callback.calls, want=want, raising=callback.raising, history=history[-12:])


def history(ctx, shard):
    rng = ctx.rng()
    with world.World(ctx) as w:
        w.join()
        w.sync()
        for round_number in range(ctx.pick(60, 500)):
            book, inner_book, expected, pending, trail = [], [], {}, {}, []
            ids = [rng.choice([0, 1, 2, 3, 7, 255, 2 ** 31, 2 ** 63, -1, round_number]) for _ in range(5)]

            def register(command):
                raising = rng.random() < 0.35
                inner = None
                if rng.random() < 0.15:
                    # registers for another command from inside the callback
                    inner = lambda: w.ws.add_callback(command + 1000, Callback(inner_book, command + 1000))
                callback = Callback(book, command, raising, inner)
                w.ws.add_callback(command, callback)
                expected[callback] = []
                pending.setdefault(command, []).append(callback)

            def lose(how):
                w.sync()
                due = [c for callbacks in pending.values() for c in callbacks]
                pending.clear()
                for callback in due:
                    expected[callback].append(None)
                w.conn.end(how)
                w.join(identity=rng.choice([None, b"id-%d-%d" % (round_number, w.joins)]))
                w.sync()
                ctx.count("losses")

            for _ in range(rng.randrange(5, 40)):
                roll = rng.random()
                command = rng.choice(ids)
                if roll < 0.45:
                    w.sync()
                    register(command)
                    trail.append(("register", command))
                elif roll < 0.85:
                    if rng.random() < 0.2:
                        command = rng.choice([command + 1000, 424242])
                    for _repeat in range(rng.choice([1, 1, 2])):
                        result = {b"n": rng.randrange(1000)} if rng.random() < 0.9 else {}
                        for callback in pending.pop(command, []):
                            expected[callback].append(result)
                        w.conn.send("response", command, result)
                        trail.append(("response", command, result))
                elif roll < 0.93:
                    bad = rng.choice([bref.dumps([100]), bref.dumps([100, command]), bref.dumps([100, b"%d" % command, {}]),
                                      bref.dumps([100, command, b"x"]), bref.dumps([100, command, [1]]), bref.dumps([100, command, {}])[:-1]])
                    w.conn.send_message(bad)
                    trail.append(("malformed", bad))
                else:
                    how = rng.choice(wsserver.ENDINGS)
                    trail.append(("loss", how))
                    lose(how)
            w.sync()
            verify(ctx, book, expected, trail)
            trail.append("final loss")
            lose(rng.choice(wsserver.ENDINGS))
            verify(ctx, book, expected, trail)
            # Old answers on the new connection invoke nothing.
            for command in ids:
                w.conn.send("response", command, {b"late": 1})
            w.sync()
            verify(ctx, book, expected, trail + ["late responses"])
            if inner_book:
                lose("fin")
                for callback in inner_book:
                    ctx.check(len(callback.calls) == 1, "a callback registered inside another was not invoked exactly once",
                              calls=callback.calls, command=callback.command)
            # A callback that repeats its command waits for the next response
            command, again_book = rng.choice(ids) + 5000, []
            again = Callback(again_book, command)
            first = Callback(again_book, command, inner=lambda: w.ws.add_callback(command, again))
            w.ws.add_callback(command, first)
            for number in (1, 2, 3):
                w.conn.send("response", command, {b"n": number})
                w.sync()
                ctx.check((first.calls, again.calls) == ([{b"n": 1}], [{b"n": 2}] if number > 1 else []), "a callback that repeats its command got another's response",
                          responses=number, first=first.calls, second=again.calls, command=command)
            ctx.count("callbacks", len(book) + len(inner_book) + 2)
            for index, callback in enumerate(book):
                ctx.case((round_number, index, len(trail)), sample=trail[:8])
    ctx.require("callbacks", 50)


def threads(ctx):
    """Registrations from several threads while responses and losses happen."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        for round_number in range(ctx.pick(12, 120)):
            book = []
            per_thread = 40
            lose = rng.random() < 0.5

            def registrar(t):
                def go():
                    for n in range(per_thread):
                        command = rng.randrange(20)
                        w.ws.add_callback(command, Callback(book, command, raising=n % 7 == 0))
                return go

            def responder():
                for n in range(60):
                    conn.send("response", rng.randrange(20), {b"n": n})
                    if lose and n == 30:
                        conn.end("fin")
                        return
            jitter = sweep.Jitter(ctx.rng("j%d" % round_number), 0.03, 0.002, files=("wsclient.py",))
            with jitter:
                results = run_threads([registrar(t) for t in range(4)] + [responder], 60.0)
            ctx.check(all(r is not None and r[1] is None for r in results), "registering failed or hung", results=repr(results)[:300])
            if lose:
                conn = w.join(identity=rng.choice([None, b"t-%d" % round_number]))
            w.sync()
            conn.end("fin")
            conn = w.join(identity=rng.choice([None, b"u-%d" % round_number]))
            w.sync()
            for callback in book:
                ctx.check(len(callback.calls) == 1, "a callback was not invoked exactly once", calls=callback.calls, command=callback.command)
                ctx.case((round_number, callback.command, len(book), repr(callback.calls)))
            ctx.count("callbacks", len(book))
            ctx.count("preemptions", jitter.stops)
    ctx.require("callbacks", 200)


def sweeps(ctx):
    with world.World(ctx) as w:
        w.join()
        w.sync()
        ws = w.ws
        files = ("wsclient.py", "dispatcher.py")

        def response(command):
            ws.on_binary(bref.dumps([proto.N["response"], command, {b"r": 1}]))

        command = 10000
        for name in ("register/respond", "respond/register", "register/lose", "lose/register", "register/register", "respond/respond", "respond/lose"):
            k = 0
            while True:
                k += 1
                command += 1
                book = []
                early = Callback(book, command)
                raising = Callback(book, command, raising=True)
                ws.add_callback(command, raising)
                ws.add_callback(command, early)
                late = Callback(book, command)
                register = lambda: ws.add_callback(command, late)
                other = Callback(book, command)
                register_other = lambda: ws.add_callback(command, other)
                steps = {"register": register, "respond": lambda: response(command), "lose": lambda: ws.clear_callbacks()}
                first_name, second_name = name.split("/")
                first, second = steps[first_name], steps[second_name]
                if name == "register/register":
                    second = register_other
                else:
                    book.remove(other)
                if "register" not in name:
                    book.remove(late)
                one, two, where, lines = sweep.preempt(first, second, k, files=files, patience=0.02)
                ctx.check(one is not None and two is not None and one[1] is None and two[1] is None, "an operation failed or hung",
                          schedule=name, where=where, outcome=repr((one, two)))
                now = {c: list(c.calls) for c in book}
                ws.clear_callbacks()
                for callback in book:
                    ctx.check(len(callback.calls) == 1, "a callback was not invoked exactly once", schedule=name, where=where,
                              before_loss=now[callback], calls=callback.calls)
                    if callback in (early, raising) and name in ("register/respond", "respond/register", "respond/respond"):
                        ctx.check(callback.calls == [{b"r": 1}], "a callback did not get the result", schedule=name, where=where, calls=callback.calls)
                ctx.count("schedules")
                ctx.case((name, k), nontrivial=where is not None)
                if where is None or ctx.spent():
                    break
    ctx.require("schedules", 30)


def run(ctx, shard):
    world.load()
    if shard.startswith("history"):
        history(ctx, shard)
    elif shard == "threads":
        threads(ctx)
    else:
        sweeps(ctx)
