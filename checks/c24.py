"""C24: JSON-RPC results match their calls and failures are typed."""
import json
import random
import threading

from vf import apiserver, sweep, world
from vf.core import monotonic, real_sleep, run_threads

RULE = ("A case is one call, notification or batch against an API server that answers in any order, with results and errors of all "
        "shapes, with missing, repeated, foreign and mistyped ids, wrong versions, malformed, truncated and empty documents, HTTP "
        "errors, cut and refused connections and answers that never come; from one thread and from many that share a client, also stopped at every line. Every "
        "request the server receives is checked against the calls made. Non-trivial: distinct (kind, shape of request and response).")
SHARDS = {"quick": ["calls", "batches", "malformed", "threads", "sweep"],
          "thorough": ["calls", "calls2", "batches", "batches2", "malformed", "malformed2", "threads", "sweep"]}


def value(rng, depth=0):
    kind = rng.randrange(9 if depth < 3 else 7)
    if kind == 0:
        return None
    if kind == 1:
        return rng.random() < 0.5
    if kind == 2:
        return rng.choice([0, 1, -1, 2 ** 31, 2 ** 63, -2 ** 70, rng.randrange(10 ** 6)])
    if kind == 3:
        return rng.choice([0.5, -1e-7, 1e300, 3.0])
    if kind in (4, 5):
        return rng.choice(["", "text", "ünïcode", "\U0001f600", "\0\n\"\\", "x" * 3000, "</script>", "2.0", "\ud800"[:0] + "id"])
    if kind == 6:
        return rng.randrange(1000)
    if kind == 7:
        return [value(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {rng.choice(["a", "id", "error", "result", "jsonrpc", "é", ""]): value(rng, depth + 1) for _ in range(rng.randrange(4))}


def params(rng):
    return {rng.choice(["a", "b", "name", "serial", "id", "jsonrpc", "url", "params", "x_1"]): value(rng) for _ in range(rng.randrange(4))}


def same(a, b):
    """Equal as JSON (True is not 1)."""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def error_of(rng):
    error = {"code": rng.choice([-32700, -32600, -32601, -32602, -32603, 0, 1, 123, -32000, -1, 401]), "message": rng.choice(["", "went wrong", "ünïcode", "x" * 500])}
    if rng.random() < 0.6:
        error["data"] = value(rng)
    return error


class Harness(object):
    def __init__(self, ctx):
        from dataplicity import jsonrpc
        self.ctx, self.jsonrpc = ctx, jsonrpc
        self.answer = None
        self.server = apiserver.ApiServer(self.respond)
        self.client = jsonrpc.JSONRPC(self.server.url)
        self.ids = []

    def respond(self, request):
        answer = self.answer
        return answer(request) if callable(answer) else answer

    def verify_request(self, request, calls, single=False):
        """`calls`: [(method, params, id or None for a notification or Ellipsis for any id)]"""
        ctx = self.ctx
        ctx.check(request.valid, "a request is not JSON", body=request.body)
        ctx.check(request.head.startswith(b"POST "), "a request was not posted", head=request.head[:100])
        body = request.json
        ctx.check(isinstance(body, dict) if single else isinstance(body, list), "a request is not what was made (call or batch)", body=request.body)
        sent = [body] if single else body
        ctx.check(len(sent) == len(calls), "a request holds other calls than were made", sent=sent, made=calls)
        for one, (method, arguments, ident) in zip(sent, calls):
            ctx.check(isinstance(one, dict) and one.get("jsonrpc") == "2.0" and set(one) <= {"jsonrpc", "method", "params", "id"}, "a request is not JSON-RPC 2.0", sent=one)
            ctx.check(one.get("method") == method and same(one.get("params", {}), arguments), "a request holds other calls than were made", sent=one, made=(method, arguments))
            if ident is None:
                ctx.check("id" not in one, "a notification carries an id", sent=one)
            else:
                ctx.check("id" in one and isinstance(one["id"], (int, str)) and not isinstance(one["id"], bool), "a call carries no proper id", sent=one)
                if ident is Ellipsis:
                    self.ids.append(one["id"])
                else:
                    ctx.check(same(one["id"], ident), "a call carries another id", sent=one, want=ident)
        ctx.count("requests")

    def distinct(self):
        self.ctx.check(len(set(self.ids)) == len(self.ids), "ids of a client were used twice", ids=sorted(i for i in set(self.ids) if self.ids.count(i) > 1))

    def one(self, function):
        """(value, error, the requests that were made)"""
        before = len(self.server.snapshot())
        with self.ctx.guard("a call", 60.0):
            try:
                result, error = function(), None
            except Exception as caught:
                result, error = None, caught
        return result, error, self.server.snapshot()[before:]

    def is_remote(self, error, want, **witness):
        self.ctx.check(isinstance(error, self.jsonrpc.JSONRPCError), "an error response did not raise the remote error", got=repr(error), want=want, **witness)
        self.ctx.check(error.code == want["code"] and error.message == want["message"] and same(error.data, want.get("data")), "a remote error is not the server's",
                       code=error.code, text=error.message, data=error.data, want=want, **witness)


def calls(ctx, shard):
    rng = ctx.rng()
    h = Harness(ctx)
    j = h.jsonrpc
    for number in range(ctx.pick(500, 6000)):
        method = rng.choice(["device.check_auth", "m", "x.y", "ünï", ""])
        arguments = params(rng)
        kind = rng.choice(["result", "result", "result", "error", "error", "notify", "unserialisable", "unreachable", "wrong id", "reordered keys"])
        if kind in ("result", "reordered keys"):
            want = value(rng)

            def answer(request):
                reply = [("jsonrpc", "2.0"), ("result", want), ("id", request.json["id"])]
                if kind == "reordered keys":
                    rng.shuffle(reply)
                    reply.append(("extra", 1))
                return dict(reply)
            h.answer = answer
            result, error, requests = h.one(lambda: h.client.call(method, **arguments))
            ctx.check(error is None and same(result, want), "a call did not return its result", got=result, want=want, error=repr(error))
            h.verify_request(requests[0], [(method, arguments, Ellipsis)], True)
            ctx.equal(len(requests), 1, "a call was sent more than once")
        elif kind == "error":
            want = error_of(rng)
            h.answer = lambda request: {"jsonrpc": "2.0", "error": want, "id": request.json["id"]}
            result, error, requests = h.one(lambda: h.client.call(method, **arguments))
            h.is_remote(error, want, method=method)
            h.verify_request(requests[0], [(method, arguments, Ellipsis)], True)
        elif kind == "notify":
            h.answer = rng.choice([None, b"", {"jsonrpc": "2.0", "result": 1, "id": None}])
            result, error, requests = h.one(lambda: h.client.notify(method, **arguments))
            ctx.check(error is None, "a notification failed", error=repr(error))
            h.verify_request(requests[0], [(method, arguments, None)], True)
        elif kind == "unserialisable":
            bad = rng.choice([object(), b"bytes", {1, 2}])
            result, error, requests = h.one(lambda: h.client.call(method, bad=bad))
            ctx.check(error is not None and not requests, "a call that can't be sent was", error=repr(error), requests=requests)
        elif kind == "unreachable":
            h.answer = rng.choice(["close", "reset", "http500", "http404", "partial", "silent", "stalled"])
            result, error, requests = h.one(lambda: rng.choice([h.client.call, h.client.notify])(method, **arguments))
            ctx.check(isinstance(error, j.ServerUnreachableError), "an unreachable server did not raise that error", how=h.answer, got=repr(error), result=result)
        else:
            other = rng.choice([lambda i: i + 1, lambda i: i - 1, lambda i: str(i), lambda i: None, lambda i: [i], lambda i: {"id": i}, lambda i: -i, lambda i: i + 0.5, lambda i: ""])
            document = {"jsonrpc": "2.0", "result": "of another call"} if rng.random() < 0.7 else {"jsonrpc": "2.0", "error": {"code": 5, "message": "of another call"}}
            h.answer = lambda request: dict(document, id=other(request.json["id"]))
            result, error, requests = h.one(lambda: h.client.call(method, **arguments))
            ctx.check(isinstance(error, j.ProtocolError), "a response with another id was accepted", sent=requests[0].json["id"], answered=requests[0].answer, got=repr(error), result=result)
        ctx.count(kind)
        ctx.case((kind, method, json.dumps(arguments, sort_keys=True, default=str)[:200], type(result).__name__), sample={"kind": kind, "method": method, "error": repr(error)[:100]})
        h.distinct()
    # A server that is not there at all
    h.server.refuse()
    for function in (lambda: h.client.call("m"), lambda: h.client.notify("m")):
        result, error, requests = h.one(function)
        ctx.check(isinstance(error, j.ServerUnreachableError), "an unreachable server did not raise that error", got=repr(error))
    batch = h.client.batch()
    batch.call("m")
    result, error, requests = h.one(batch.send)
    ctx.check(isinstance(error, j.ServerUnreachableError), "an unreachable server did not raise that error", got=repr(error))


class Boom(Exception):
    pass


def batches(ctx, shard):
    rng = ctx.rng()
    h = Harness(ctx)
    j = h.jsonrpc
    for number in range(ctx.pick(400, 5000)):
        made, batch = [], h.client.batch()
        outcomes = {}
        fate = rng.choice(["send", "send", "send", "send", "with", "with", "abandon", "raise"])
        plan = []
        for index in range(rng.randrange(1, 9)):
            plan.append((rng.choice(["call", "call", "named", "named", "notify"]), "m%d" % rng.randrange(5), params(rng)))

        def build():
            for index, (kind, method, arguments) in enumerate(plan):
                arguments.pop("call_id", None)
                if kind == "call":
                    batch.call(method, **arguments)
                    made.append((method, arguments, Ellipsis))
                elif kind == "named":
                    ident = rng.choice(["name%d" % index, "authenticate_result", 10 ** 9 + index, "", "2", "-7"])
                    if ident in [m[2] for m in made]:
                        ident = "other%d" % index
                    batch.call_with_id(ident, method, **arguments)
                    made.append((method, arguments, ident))
                    if rng.random() < 0.2:
                        try:
                            batch.call_with_id(ident, "twice")
                        except ValueError:
                            pass
                        else:
                            ctx.fail("an id was used twice in a batch", id=ident)
                else:
                    batch.notify(method, **arguments)
                    made.append((method, arguments, None))

        def answer(request):
            replies = []
            for call in request.calls:
                if "id" not in call:
                    continue
                luck = rng.random()
                if luck < 0.55:
                    result = value(rng)
                    outcomes[call["id"]] = ("result", result)
                    replies.append({"jsonrpc": "2.0", "id": call["id"], "result": result})
                elif luck < 0.85:
                    error = error_of(rng)
                    outcomes[call["id"]] = ("error", error)
                    replies.append({"jsonrpc": "2.0", "id": call["id"], "error": error})
                else:
                    outcomes[call["id"]] = ("missing", None)
                    if rng.random() < 0.5:
                        # An answer, but to something else
                        other = rng.choice([str(call["id"]) + "x", (str(call["id"]) if isinstance(call["id"], int) else 10 ** 8), None, 10 ** 8 + 1])
                        if other is None or not any(same(other, c.get("id")) for c in request.calls):
                            replies.append({"jsonrpc": "2.0", "id": other, "result": "of another call"})
            if rng.random() < 0.3:
                replies.append({"jsonrpc": "2.0", "id": 10 ** 7 + rng.randrange(10 ** 6), rng.choice(["result", "error"]): {"code": 1, "message": "stray"}})
            rng.shuffle(replies)
            return replies

        h.answer = answer
        if fate == "send":
            build()
            result, error, requests = h.one(batch.send)
        else:
            def block():
                with batch:
                    build()
                    if fate == "abandon":
                        batch.abandon("because")
                    if fate == "raise":
                        raise rng.choice([Boom("in the block"), ValueError("in the block"), KeyError("k")])
            result, error, requests = h.one(block)
        if fate in ("abandon", "raise"):
            ctx.check(not requests, "an abandoned or failed batch was sent", fate=fate, requests=requests)
            ctx.check((error is None) == (fate == "abandon"), "an abandoned or failed batch gave another outcome", fate=fate, error=repr(error))
            ctx.count("not sent")
            ctx.case((fate, len(plan)))
            continue
        ctx.check(error is None, "a batch failed", error=repr(error), answered=requests and requests[0].answer)
        ctx.equal(len(requests), 1, "a batch was not sent exactly once")
        before_ids = len(h.ids)
        h.verify_request(requests[0], made)
        sent = requests[0].json
        for (method, arguments, ident), call in zip(made, sent):
            if ident is None:
                continue
            kind, want = outcomes[call["id"]]
            try:
                got, error = batch.get_result(call["id"]), None
            except Exception as caught:
                got, error = None, caught
            witness = dict(id=call["id"], answered=requests[0].answer)
            if kind == "result":
                ctx.check(error is None and same(got, want), "a call of a batch did not return its result", got=got, want=want, error=repr(error), **witness)
            elif kind == "error":
                h.is_remote(error, want, **witness)
                ctx.check(getattr(error, "method", method) == method, "a remote error is of another method", got=error.method, want=method)
                default = object()
                try:
                    ctx.check(batch.get_result(call["id"], default) is default, "the default was not returned for an error", **witness)
                except j.JSONRPCError as error:
                    ctx.fail("the default was not returned for an error", error=repr(error), **witness)
            else:
                ctx.check(isinstance(error, (j.ProtocolError, KeyError)), "a call that was not answered has a result", got=got, error=repr(error), **witness)
            ctx.count("batch " + kind)
        # check() raises for what failed, and only then
        good = [c["id"] for c in sent if "id" in c and outcomes[c["id"]][0] == "result"]
        bad = [c["id"] for c in sent if "id" in c and outcomes[c["id"]][0] != "result"]
        batch.check(*good)
        if bad:
            try:
                batch.check(*(good + [rng.choice(bad)]))
            except Exception:
                pass
            else:
                ctx.fail("checking a batch with a failed call found nothing", bad=bad, outcomes=outcomes)
        h.distinct()
        ctx.case((fate, [(p[0], p[1]) for p in plan], sorted((str(k), v[0]) for k, v in outcomes.items())), sample={"calls": len(plan), "outcomes": [v[0] for v in outcomes.values()]})
    ctx.require("not sent", 10)
    ctx.require("batch result", 50)
    ctx.require("batch error", 50)
    ctx.require("batch missing", 10)


def malformed(ctx, shard):
    rng = ctx.rng()
    h = Harness(ctx)
    j = h.jsonrpc
    single = [
        b"", b" ", b"nonsense", b"{", b"[", b"null", b"true", b"3", b'"text"', b"[]", b"{}", b"<html>sorry</html>", b"\x00\x01", b"[" * 20000, b'{"a":' * 20000,
        lambda c: [{"jsonrpc": "2.0", "id": c["id"], "result": 1}], lambda c: {"id": c["id"], "result": 1}, lambda c: {"jsonrpc": "2.0", "result": 1},
        lambda c: {"jsonrpc": "1.0", "id": c["id"], "result": 1}, lambda c: {"jsonrpc": 2.0, "id": c["id"], "result": 1}, lambda c: {"jsonrpc": None, "id": c["id"], "result": 1},
        lambda c: {"jsonrpc": "2.0", "id": c["id"], "error": "text"}, lambda c: {"jsonrpc": "2.0", "id": c["id"], "error": 3}, lambda c: {"jsonrpc": "2.0", "id": c["id"], "error": [1]},
        lambda c: {"jsonrpc": "2.0", "id": c["id"], "error": None}, lambda c: {"jsonrpc": "2.1", "id": c["id"], "error": {"code": 1, "message": "m"}},
        lambda c: json.dumps({"jsonrpc": "2.0", "id": c["id"], "result": 1}).encode()[:-1], lambda c: json.dumps({"jsonrpc": "2.0", "id": c["id"], "result": 1}).encode() + b"}",
        lambda c: {"jsonrpc": "2.0", "id": None, "error": {"code": -32700, "message": "Parse error"}},
    ]
    several = [
        b"", b"nonsense", b"[", b"null", b"true", b"3", b'"text"', b"{}", b"[1]", b"[null]", b'["x"]', b"[[]]", b"[" * 20000, b"[{}, 3]",
        lambda c: {"jsonrpc": "2.0", "id": c["id"], "result": 1}, lambda c: [{"jsonrpc": "2.0", "id": {"a": 1}, "result": 1}], lambda c: [{"jsonrpc": "2.0", "id": [1], "error": {}}],
        lambda c: [{"jsonrpc": "2.0", "error": {"code": 1, "message": "no id"}}], lambda c: [{"jsonrpc": "2.0", "id": c["id"], "result": 1}, None],
        lambda c: json.dumps([{"jsonrpc": "2.0", "id": c["id"], "result": 1}]).encode()[:-1],
    ]
    errors = ["text", 3, [1], None, True]
    for number in range(ctx.pick(300, 4000)):
        kind = rng.choice(["single", "single", "batch", "batch", "batch error"])
        chosen = rng.choice(single if kind == "single" else several)
        h.answer = (lambda request: chosen(request.calls[0])) if callable(chosen) else chosen
        if kind == "single":
            result, error, requests = h.one(lambda: h.client.call("m", n=number))
        else:
            batch = h.client.batch()
            batch.call_with_id("first", "m", n=number)
            if kind == "batch error":
                odd = rng.choice(errors)
                h.answer = lambda request: [{"jsonrpc": "2.0", "id": "first", "error": odd}]
            if rng.random() < 0.5:
                batch.notify("n")

            def whole():
                batch.send()
                return batch.get_result("first")
            result, error, requests = h.one(whole)
        ctx.check(isinstance(error, (j.ProtocolError, KeyError) if kind == "batch" and chosen in (b"[{}, 3]",) else j.ProtocolError),
                  "a malformed response did not raise a protocol error", answered=requests and requests[0].answer, got=repr(error), result=result, kind=kind)
        ctx.count("malformed")
        ctx.case((kind, repr(chosen)[:80] if not callable(chosen) else (single + several).index(chosen), number % 40))
        # Bytes that are no text at all: an error of either type
        if number % 10 == 0:
            h.answer = rng.choice([b"\xff\xfe\x00", b'{"jsonrpc": "2.0", "id": 1, "result": "\xe9"}'])
            result, error, requests = h.one(lambda: h.client.call("m"))
            ctx.check(isinstance(error, (j.ProtocolError, j.ServerUnreachableError)), "a response that is no text was accepted", got=repr(error), result=result)
        # And the client still works
        h.answer = lambda request: apiserver.ok_response(request, number)
        result, error, requests = h.one(lambda: h.client.call("m"))
        ctx.check(error is None and result == number, "a call after a malformed response failed", error=repr(error), result=result)
    ctx.require("malformed", 100)


def threads(ctx, shard):
    """Many threads share a client; each gets its own results."""
    rng = ctx.rng()
    h = Harness(ctx)
    lock = threading.Lock()

    def answer(request):
        with lock:
            delay = rng.random() * 0.02
        real_sleep(delay)
        replies = [{"jsonrpc": "2.0", "id": c["id"], "result": c["params"]} for c in request.calls if "id" in c]
        if isinstance(request.json, dict):
            return replies[0]
        with lock:
            rng.shuffle(replies)
        return replies

    h.answer = answer
    jitter = sweep.Jitter(ctx.rng("j"), 0.05, 0.002, files=("jsonrpc.py",))

    def work(thread):
        mine = random.Random("%s/%d/%d" % (ctx.seed, thread, ctx.pick(0, 1)))
        for turn in range(ctx.pick(25, 250)):
            if mine.random() < 0.5:
                got = h.client.call("echo", thread=thread, turn=turn)
                ctx.check(got == {"thread": thread, "turn": turn}, "a call got the result of another", got=got, thread=thread, turn=turn)
                ctx.case((thread, turn))
            else:
                batch = h.client.batch()
                count = mine.randrange(1, 6)
                for index in range(count):
                    if index == 0:
                        batch.call_with_id("named", "echo", thread=thread, turn=turn, index=index)
                    else:
                        batch.call("echo", thread=thread, turn=turn, index=index)
                batch.send()
                got = batch.get_result("named")
                ctx.check(got == {"thread": thread, "turn": turn, "index": 0}, "a call got the result of another", got=got, thread=thread, turn=turn)
                ctx.case((thread, turn, count))
            ctx.count("concurrent")

    with jitter:
        results = run_threads([lambda t=t: work(t) for t in range(8)], 200.0)
    ctx.stop_if_violated()
    for result in results:
        ctx.check(result is not None and result[1] is None, "a call among many failed", outcome=repr(result))
    everything = [c["id"] for r in h.server.snapshot() for c in r.calls if "id" in c and c["id"] != "named"]
    ctx.check(len(set(everything)) == len(everything), "ids of a client were used twice", twice=[i for i in set(everything) if everything.count(i) > 1])
    for request in h.server.snapshot():
        ctx.check(request.valid, "a request is not JSON", body=request.body)
    ctx.count("most at once", h.server.max_active)
    ctx.require("most at once", 2)


def sweeping(ctx, shard):
    """Two threads, one stopped at every line of its call."""
    h = Harness(ctx)
    h.answer = lambda request: [{"jsonrpc": "2.0", "id": c["id"], "result": c["params"]} for c in request.calls if "id" in c] if isinstance(request.json, list) else \
        {"jsonrpc": "2.0", "id": request.json["id"], "result": request.json["params"]}

    def call(name):
        got = h.client.call("echo", name=name)
        ctx.check(got == {"name": name}, "a call got the result of another", got=got, want=name)

    def batch(name):
        b = h.client.batch()
        b.call("echo", name=name)
        b.call_with_id("n", "echo", name=name + "2")
        b.send()
        ctx.check(b.get_result("n") == {"name": name + "2"}, "a call got the result of another", got=b.get_result("n"), want=name)

    for first in (call, batch):
        for second in (call, batch):
            k = 0
            while True:
                k += 1
                before = len(h.server.snapshot())
                one, two, where, lines = sweep.preempt(lambda: first("first"), lambda: second("second"), k, files=("jsonrpc.py",), patience=0.5)
                ctx.stop_if_violated()
                ctx.check(one and two and one[1] is None and two[1] is None, "a call failed because of another", outcomes=repr((one, two)), where=where)
                ids = [c["id"] for r in h.server.snapshot()[before:] for c in r.calls if "id" in c and c["id"] != "n"]
                ctx.check(len(set(ids)) == len(ids), "ids of a client were used twice", ids=ids, where=where)
                ctx.case((first.__name__, second.__name__, where))
                if k >= lines or ctx.spent():
                    break


def run(ctx, shard):
    world.load()
    if shard.startswith("calls"):
        calls(ctx, shard)
    elif shard.startswith("batches"):
        batches(ctx, shard)
    elif shard.startswith("malformed"):
        malformed(ctx, shard)
    elif shard == "threads":
        threads(ctx, shard)
    else:
        sweeping(ctx, shard)
