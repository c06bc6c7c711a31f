"""C09: the m2m identity is announced until acknowledged, then not again."""
import json

from vf import apiserver, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one announcement attempt in a random history of identity assignments (new, repeated, changed and "
        "changed back, non-ASCII), API failures of 24 kinds (answers that never come or stall included), and connection losses. Every request the loopback API receives "
        "is checked (identity, serial, token, one batch), each failure must be followed by another attempt, an acknowledged "
        "identity must stay quiet for many poll periods, and no identity means no request. "
        "Non-trivial: distinct (failure kind, position).")
SHARDS = {"quick": ["history1", "history2", "history3", "every-failure", "quiet"],
          "thorough": ["every-failure", "quiet"] + ["history%d" % i for i in range(7)]}


def batch_response(request, auth="ok", associate="ok", reverse=False, wrong_ids=False, extra=False):
    out = []
    for call in request.calls:
        how = auth if call.get("method") == "device.check_auth" else associate
        if how == "missing":
            continue
        ident = call.get("id")
        if wrong_ids:
            ident = "%s-other" % ident
        if how == "ok":
            out.append({"jsonrpc": "2.0", "id": ident, "result": True})
        elif how == "error":
            out.append({"jsonrpc": "2.0", "id": ident, "error": {"code": 7, "message": "refused", "data": {"x": 1}}})
        elif how == "bad-error":
            out.append({"jsonrpc": "2.0", "id": ident, "error": "nope"})
        elif how == "neither":
            out.append({"jsonrpc": "2.0", "id": ident})
    if reverse:
        out.reverse()
    if extra:
        out.insert(0, {"jsonrpc": "2.0", "id": "who", "result": 1})
    return out


FAILURES = {
    "close": lambda r: "close", "reset": lambda r: "reset", "http500": lambda r: "http500", "http404": lambda r: "http404",
    "partial": lambda r: "partial", "empty": lambda r: b"", "html": lambda r: b"<html>busy</html>", "binary": lambda r: b"\xff\xfe\x00",
    "silent": lambda r: "silent", "stalled": lambda r: "stalled", "number": lambda r: 5, "null": lambda r: None, "empty-list": lambda r: [], "string": lambda r: "no",
    "list-of-junk": lambda r: [1, None, "x"],
    "auth-error": lambda r: batch_response(r, auth="error"),
    "associate-error": lambda r: batch_response(r, associate="error"),
    "both-error": lambda r: batch_response(r, auth="error", associate="error"),
    "auth-missing": lambda r: batch_response(r, auth="missing"),
    "associate-missing": lambda r: batch_response(r, associate="missing"),
    "wrong-ids": lambda r: batch_response(r, wrong_ids=True),
    "bad-error": lambda r: batch_response(r, associate="bad-error"),
    "auth-bad-error": lambda r: batch_response(r, auth="bad-error"),
    "single-error": lambda r: {"jsonrpc": "2.0", "id": None, "error": {"code": -32600, "message": "Invalid"}},
}
SUCCESSES = [lambda r: batch_response(r), lambda r: batch_response(r, reverse=True), lambda r: batch_response(r, extra=True),
             lambda r: batch_response(r)]

QUIET = 0.45


class Api(object):
    def __init__(self):
        self.plan = []
        self.default = SUCCESSES[0]

    def __call__(self, request):
        request.identity = (request.call("m2m.associate") or {}).get("params", {}).get("identity") if request.call("m2m.associate") else None
        if request.call("m2m.associate") is None:
            return batch_response(request)
        respond = self.plan.pop(0) if self.plan else self.default
        return respond(request)


def announcements(w):
    return [r for r in w.api.snapshot() if r.call("m2m.associate") is not None]


def verify_request(ctx, w, request, identity):
    calls = request.calls
    ctx.check(isinstance(request.json, list) and calls and calls[0].get("method") == "device.check_auth",
              "an announcement is not one batch that first authenticates", request=request.json)
    params = calls[0].get("params", {})
    ctx.check(params.get("serial") == w.serial and params.get("auth_token") == w.auth, "an announcement does not carry the configured credentials",
              params=params)
    associates = [c for c in calls if c.get("method") == "m2m.associate"]
    ctx.check(len(associates) == 1 and associates[0].get("params", {}).get("identity") == identity.decode("utf-8"),
              "the agent announced another identity than it was assigned", request=request.json, identity=identity)


def run_until_acknowledged(ctx, w, api, conn, identity, failures, trail, success):
    """Assign; each planned failure must be followed by another attempt; then quiet."""
    start = len(announcements(w))
    api.plan = [FAILURES[f] for f in failures] + [success]
    conn.send("set_identity", identity)
    needed = len(failures) + 1
    got = w.api.wait(lambda: len(announcements(w)) >= start + needed and announcements(w)[start + needed - 1].done, 20.0)
    ctx.check(got, "the agent stopped announcing an identity that was not acknowledged", identity=identity, failures=failures,
              attempts=len(announcements(w)) - start, needed=needed, trail=trail[-6:], log=list(world.log_lines)[-12:])
    real_sleep(QUIET)
    requests = announcements(w)[start:]
    ctx.check(len(requests) == needed, "an acknowledged identity was announced again", identity=identity, failures=failures,
              attempts=len(requests), needed=needed, trail=trail[-6:])
    for request in requests:
        verify_request(ctx, w, request, identity)
        ctx.count("announcements")
    w.sync(conn)


def history(ctx, shard):
    rng = ctx.rng()
    api = Api()
    with world.World(ctx, respond=api, serial="ser/ial %s" % shard, auth="tok\u00e9n-%s" % shard) as w:
        conn = w.join(identity=None)
        real_sleep(0.3)
        ctx.check(not announcements(w), "an announcement was made without an identity", requests=[r.json for r in w.api.snapshot()])
        current = acknowledged = None
        trail = []
        for step in range(ctx.pick(12, 90)):
            action = rng.choice(["new", "new", "same", "lose", "change-unacked", "lose-unacked", "back", "back-unacked"])
            trail.append(action)
            failures = [rng.choice(sorted(FAILURES)) for _ in range(rng.choice([0, 1, 1, 2, 4, 7]))]
            fresh = ("node-%s-%d" % (rng.choice(["abc", "\u00e9\u4e2d", "x" * 100, "a b", "{}", "%s"]), step)).encode("utf-8")
            success = rng.choice(SUCCESSES)
            if action == "new":
                run_until_acknowledged(ctx, w, api, conn, fresh, failures, trail, success)
                current = acknowledged = fresh
            elif action == "back" and acknowledged is not None:
                previous = acknowledged
                run_until_acknowledged(ctx, w, api, conn, fresh, [], trail, success)
                run_until_acknowledged(ctx, w, api, conn, previous, failures, trail, success)
                current = acknowledged = previous
            elif action == "back-unacked" and acknowledged is not None and current == acknowledged:
                # The API may or may not have taken the one in between
                start = len(announcements(w))
                api.default = FAILURES[rng.choice(sorted(FAILURES))]
                conn.send("set_identity", fresh)
                ok = w.api.wait(lambda: len(announcements(w)) >= start + rng.choice([1, 2, 3]), 20.0)
                ctx.check(ok, "a changed identity was not announced", identity=fresh)
                before = len(announcements(w))
                conn.send("set_identity", acknowledged)
                w.sync(conn)
                api.default = SUCCESSES[0]
                ok = w.api.wait(lambda: [r for r in announcements(w)[start:] if r.done and r.identity == acknowledged.decode("utf-8") and r.answer == batch_response(r)], 20.0)
                ctx.check(ok, "the last assigned identity was not announced, after another one in between was refused", identity=acknowledged,
                          requests=[r.identity for r in announcements(w)[start:]], before=before)
                real_sleep(QUIET)
                ctx.check(announcements(w)[-1].identity == acknowledged.decode("utf-8"), "another identity than the last assigned was announced last",
                          requests=[r.identity for r in announcements(w)[start:]])
            elif action == "same" and current is not None and current == acknowledged:
                start = len(announcements(w))
                conn.send("set_identity", current)
                w.sync(conn)
                real_sleep(QUIET)
                ctx.check(len(announcements(w)) == start, "an acknowledged identity was announced again when assigned again", identity=current)
            elif action == "lose":
                start = len(announcements(w))
                conn.end(rng.choice(wsserver.ENDINGS))
                conn = w.join(identity=None)
                real_sleep(0.25)
                ctx.check(len(announcements(w)) == start, "an announcement was made without an identity", identity=current)
                if current is not None and current == acknowledged:
                    conn.send("set_identity", current)
                    w.sync(conn)
                    real_sleep(0.25)
                    ctx.check(len(announcements(w)) == start, "an acknowledged identity was announced again after a reconnect", identity=current)
                else:
                    current = None
            elif action in ("change-unacked", "lose-unacked"):
                start = len(announcements(w))
                api.default = FAILURES[rng.choice(sorted(FAILURES))]
                conn.send("set_identity", fresh)
                ok = w.api.wait(lambda: len(announcements(w)) >= start + 2, 20.0)
                ctx.check(ok, "a refused announcement was not repeated", identity=fresh, attempts=len(announcements(w)) - start)
                if action == "lose-unacked":
                    conn.end(rng.choice(wsserver.ENDINGS))
                    conn = w.join(identity=None)
                    w.sync(conn)
                    for request in announcements(w)[start:]:
                        verify_request(ctx, w, request, fresh)
                    quiet_start = len(announcements(w))
                    real_sleep(0.3)
                    ctx.check(len(announcements(w)) == quiet_start, "an announcement was made without an identity", identity=fresh)
                    api.default = SUCCESSES[0]
                    run_until_acknowledged(ctx, w, api, conn, fresh, failures, trail, success)
                    current = acknowledged = fresh
                else:
                    other = fresh + b"-changed"
                    before = len(announcements(w))
                    conn.send("set_identity", other)
                    w.sync(conn)
                    api.default = SUCCESSES[0]
                    ok = w.api.wait(lambda: announcements(w)[-1].done and announcements(w)[-1].answer == batch_response(announcements(w)[-1])
                                    and announcements(w)[-1].identity == other.decode("utf-8"), 20.0)
                    ctx.check(ok, "a changed identity was not announced", identity=other, last=announcements(w)[-1].json)
                    identities = [r.identity.encode("utf-8") for r in announcements(w)[start:]]
                    switch = identities.index(other)
                    ctx.check(all(i == fresh for i in identities[:switch]) and all(i == other for i in identities[switch:]),
                              "another identity than the assigned one was announced", identities=identities)
                    real_sleep(QUIET)
                    ctx.check(announcements(w)[-1].answer is not None and len([r for r in announcements(w)[start:] if r.answer == batch_response(r)
                              and r.identity == other.decode("utf-8")]) == 1, "an acknowledged identity was announced again", identity=other)
                    current = acknowledged = other
            for failure in failures:
                ctx.case((shard, step, failure))
            ctx.case((shard, step, action), sample={"action": action, "failures": failures})
            ctx.count("steps")
        ctx.check(len(w.server.conns) == w.joins, "the agent lost its m2m connection because of the API", conns=len(w.server.conns), joins=w.joins)
    ctx.require("announcements", 5)


def every_failure(ctx):
    rng = ctx.rng()
    api = Api()
    with world.World(ctx, respond=api) as w:
        conn = w.join(identity=None)
        w.sync(conn)
        for index, failure in enumerate(sorted(FAILURES)):
            run_until_acknowledged(ctx, w, api, conn, b"node-%d" % index, [failure] * ctx.pick(1, 3), [failure], rng.choice(SUCCESSES))
            ctx.case(failure, sample=failure)
        # The API is down altogether for a while
        start = len(announcements(w))
        w.api.refuse()
        conn.send("set_identity", b"while-down")
        w.sync(conn)
        real_sleep(0.2)
        w.api.listen()
        ok = w.api.wait(lambda: len(announcements(w)) > start, 20.0)
        ctx.check(ok, "an identity assigned while the API was down was never announced")
        verify_request(ctx, w, announcements(w)[start], b"while-down")
        real_sleep(QUIET)
        ctx.check(len(announcements(w)) == start + 1, "an acknowledged identity was announced again")
        # An empty identity is none.
        start = len(announcements(w))
        conn.send("set_identity", b"")
        w.sync(conn)
        real_sleep(QUIET)
        ctx.check(len(announcements(w)) == start, "an announcement was made without an identity")
        ctx.case("down")
    ctx.require("announcements", len(FAILURES))


def quiet(ctx):
    """Hours without a message from the server: the attempts go on, and end with the first success."""
    rng = ctx.rng()
    api = Api()
    with world.World(ctx, respond=api) as w:
        conn = w.join(identity=None)
        index = 0
        while index < ctx.pick(3, 15):
            if conn.closed:
                # Busy machines make a server of some seconds' silence of one that answers late
                ctx.count("given up")
                ctx.check(len(w.server.conns) < 12, "the agent keeps losing its connection", conns=len(w.server.conns), log=list(world.log_lines)[-8:])
                conn = w.join(identity=None)
            failure = rng.choice(["close", "http500", "auth-error", "associate-error", "empty", "wrong-ids"])
            api.default = FAILURES[failure]
            start = len(announcements(w))
            identity = b"quiet-%d" % index
            conn.send("set_identity", identity)
            if not conn.wait(lambda: conn.closed, 0.0):
                conn.barrier(20.0)
            if conn.closed:
                continue
            for hours in range(3):
                before = len(announcements(w))
                real_sleep(2.5)
                ok = w.api.wait(lambda: len(announcements(w)) > before + 1 or conn.closed, 20.0)
                if conn.closed:
                    break
                ctx.check(ok, "the agent stopped announcing an identity that was not acknowledged, on a quiet connection", identity=identity, failure=failure,
                          attempts=before - start, log=list(world.log_lines)[-8:])
                ctx.case((failure, hours))
            api.default = SUCCESSES[0]
            ok = w.api.wait(lambda: [r for r in announcements(w)[start:] if r.done and r.answer == batch_response(r)] or conn.closed, 20.0)
            if conn.closed:
                continue
            ctx.check(ok, "an identity was never announced with success", identity=identity)
            real_sleep(QUIET)
            index += 1
            requests = announcements(w)[start:]
            ctx.check(len([r for r in requests if r.answer == batch_response(r)]) == 1, "an acknowledged identity was announced again", identity=identity)
            for request in requests:
                verify_request(ctx, w, request, identity)
                ctx.count("announcements")
    ctx.require("announcements", 10)


def run(ctx, shard):
    # (an hour of the agent's clock takes two and a half seconds on the quiet connection)
    world.load(k=1440.0 if shard == "quiet" else None)
    if shard == "quiet":
        quiet(ctx)
    elif shard == "every-failure":
        every_failure(ctx)
    else:
        history(ctx, shard)
