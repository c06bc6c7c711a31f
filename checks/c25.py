"""C25: device state is reported until the API acknowledges it."""
import json
import os
import random
import threading
import time

from vf import apiserver, sweep, world
from vf.core import monotonic, real_sleep

RULE = ("A case is one poll of an agent (or a sync the server asks for) in a random history of API behaviour (accepting, refusing "
        "the authentication or single items, leaving answers out, nonsense, HTTP errors, cut and refused connections, answers that never come), changing tags and failing tag "
        "scripts, changing or unreadable disk figures, failing meta information and passing hours. A model says which reports "
        "each poll has to make; every request is compared with it. Non-trivial: distinct (state, behaviour of the API, reports).")
SHARDS = {"quick": ["polls1", "polls2", "polls3", "together", "sweep"], "thorough": ["polls%d" % i for i in range(1, 7)] + ["together", "sweep"]}
META = ["device.set_agent_version", "device.set_machine_revision", "device.set_model_name", "device.set_os_version", "device.set_uname", "device.set_ip_addresses"]
TAGS, DISK, AUTH = "device.set_machine_defined_tags", "device.set_disk_space", "device.check_auth"

offset = [0.0]
real_time = time.time
time.time = lambda: real_time() + offset[0]


class Disk(object):
    """The figures of the file systems."""

    def __init__(self):
        self.real = os.statvfs
        self.figures = None
        self.error = None
        os.statvfs = self.fake

    def fake(self, path):
        if path not in ("/", b"/"):
            return self.real(path)
        if self.error is not None:
            raise self.error
        if self.figures is None:
            return self.real(path)
        frsize, blocks, free, avail = self.figures
        return os.statvfs_result((4096, frsize, blocks, free, avail, 10, 10, 10, 0, 255))


class Api(object):
    """Answers as told, and knows which reports it has accepted."""

    def __init__(self, rng):
        self.rng = rng
        self.mode = "accept"
        self.item = None
        self.delay = 0.0
        self.accepted_meta = 0
        self.accepted_tags = None
        self.lock = threading.Lock()

    def kind(self, request):
        methods = request.methods
        if any(m in META for m in methods):
            return "meta"
        return "tags" if TAGS in methods else "disk" if DISK in methods else "associate" if "m2m.associate" in methods else "other"

    def respond(self, request):
        if self.delay:
            real_sleep(self.delay)
        kind = self.kind(request)
        if kind == "associate":
            return apiserver.ok_response(request)
        mode = self.mode
        rng = random.Random("%s %d" % (mode, request.index))
        if mode in ("close", "reset", "http500", "http404", "partial", "silent", "stalled"):
            return mode
        if mode == "nonsense":
            return rng.choice([b"", b"nonsense", b"null", b"{}", b"[1, 2]", b"[[]]", b"\xff\xfe", b"[" * 5000, b'"x"', b"3", b'[{"id": {}}]', b'[{"id": []}]', b'{"jsonrpc": "2.0"}'])
        if mode == "one error":
            return {"jsonrpc": "2.0", "id": None, "error": {"code": -32600, "message": "no batches"}}
        refused = set()
        if mode == "no auth":
            refused = set(request.methods)
        elif mode == "some":
            refused = {m for m in request.methods if m != AUTH and rng.random() < 0.4} or {request.methods[-1]}
        elif mode == "auth only":
            # Everything but the authentication is accepted
            refused = {AUTH} if kind != "tags" else set(request.methods)
        missing = set()
        if mode == "missing":
            missing = {rng.choice([m for m in request.methods if m != AUTH] if kind == "tags" else request.methods)}
        replies = []
        for call in request.calls:
            if call["method"] in missing:
                continue
            if call["method"] in refused:
                error = rng.choice([{"code": 401, "message": "refused"}, {"code": -32603, "message": "oops", "data": [1]}, {"code": -1}, {}, {"message": "m"}])
                replies.append({"jsonrpc": "2.0", "id": call["id"], "error": error})
            else:
                replies.append({"jsonrpc": "2.0", "id": call["id"], "result": rng.choice([True, None, 0, False, "ok", {}, []])})
        rng.shuffle(replies)
        if not refused and not missing:
            with self.lock:
                if kind == "meta" and set(META) <= set(request.methods):
                    self.accepted_meta += 1
                if kind == "tags":
                    self.accepted_tags = [c["params"]["tag_list"] for c in request.calls if c["method"] == TAGS][0]
        elif kind == "tags" and TAGS not in refused | missing:
            raise RuntimeError("ambiguous")
        return replies


MODES = ["accept"] * 5 + ["close", "reset", "http500", "http404", "partial", "silent", "stalled", "nonsense", "nonsense", "one error", "no auth", "some", "some", "missing", "missing", "auth only", "refused"]


def script(home, tags, rng):
    """Make the tag script print these tags; returns what is expected (None for a failure, a list otherwise)."""
    path = os.path.join(home, "dataplicity_tags")
    if os.path.lexists(path):
        os.remove(path)
    if tags is None:
        return []
    fails = tags == "fail"
    with open(path + ".new", "w") as fh:
        fh.write("#!/bin/sh\n%s\n" % ("echo not-a-tag; exit 3" if fails else "printf '%%s' '%s'" % ",".join(tags)))
    os.chmod(path + ".new", 0o755)
    os.rename(path + ".new", path)
    return None if fails else list(tags)


def verify_batch(ctx, w, request, **witness):
    ctx.check(isinstance(request.json, list) and request.calls, "a report is not a batch", body=request.body, **witness)
    first = request.calls[0]
    ctx.check(first["method"] == AUTH and first["params"].get("serial") == w.serial and first["params"].get("auth_token") == w.auth
              and first["params"].get("device_class") == "tuxtunnel", "a report does not begin with the authentication", first=first, **witness)
    ctx.check(request.methods.count(AUTH) == 1, "a report authenticates more than once", methods=request.methods, **witness)


def reports(api, requests):
    out = {"meta": [], "tags": [], "disk": []}
    for request in requests:
        kind = api.kind(request)
        if kind in out:
            out[kind].append(request)
    return out


def polls(ctx, shard):
    from dataplicity import device_meta
    rng = ctx.rng()
    disk = Disk()
    home = os.environ["HOME"]
    for history in range(ctx.pick(6, 40)):
        offset[0] = rng.choice([0.0, 10 ** 6])
        api = Api(rng)
        serial = rng.choice(["serial-0001", "ünï-ser", "a b"])
        with world.World(ctx, respond=api.respond, serial=serial, auth="token-%d" % rng.randrange(10 ** 9)) as w:
            w.join()
            w.sync()
            client = w.client
            next_disk = time.time()
            meta_done, accepted_tags, meta_broken = False, None, False
            tags = ["t1"]
            expected_tags = script(home, tags, rng)
            friendly = rng.random() < 0.4
            for turn in range(ctx.pick(25, 60)):
                # The world changes
                if rng.random() < 0.25:
                    tags = rng.choice([["a", "b"], ["b", "a"], ["a"], [], None, "fail", ["a", "a"], ["t%d" % rng.randrange(5) for _ in range(rng.randrange(8))], ["A"]])
                    expected_tags = script(home, tags, rng)
                if rng.random() < 0.3:
                    frsize = rng.choice([512, 1024, 4096])
                    blocks = rng.randrange(1, 10 ** 9)
                    free = rng.randrange(blocks + 1)
                    disk.figures = (frsize, blocks, free, rng.randrange(free + 1))
                disk.error = rng.choice([OSError(5, "I/O error"), PermissionError(13, "denied")]) if rng.random() < 0.1 else None
                api.mode = "accept" if friendly and rng.random() < 0.7 else rng.choice(MODES)
                offset[0] += rng.choice([0, 0.5, 60, 60, 60, 600, 1800, 3590, 3600, 3601, 7200, 90000])
                if rng.random() < 0.15 and not meta_done:
                    device_meta._META_CACHE = None
                    import distro
                    saved, distro.name = distro.name, lambda *a, **k: 1 / 0
                    try:
                        device_meta.get_meta()
                        distro.name = saved
                    except Exception:
                        meta_broken = True
                if api.mode == "refused":
                    w.api.refuse()
                before = len(w.api.snapshot())
                about = dict(turn=turn, api=api.mode, tags=tags, disk_error=repr(disk.error), meta_broken=meta_broken)
                which = "sync" if rng.random() < 0.15 else "poll"
                started = time.time()
                with ctx.guard("a " + which, 60.0, **about):
                    try:
                        if which == "poll":
                            client.poll()
                        else:
                            client.sync()
                    except Exception as error:
                        ctx.fail("a %s raised" % which, error=repr(error), **about)
                ended = time.time()
                if meta_broken:
                    distro.name = saved
                if api.mode == "refused":
                    w.api.listen()
                made = w.api.snapshot()[before:]
                got = reports(api, made)
                about["requests"] = [r.methods for r in made]
                reachable = api.mode != "refused"
                # Meta information
                if meta_done:
                    ctx.check(not got["meta"], "meta information was reported again after it was accepted", **about)
                elif reachable and not meta_broken:
                    ctx.check(len(got["meta"]) == 1 and set(META) <= set(got["meta"][0].methods), "meta information that is not accepted yet was not reported (once)", **about)
                    meta = device_meta.get_meta()
                    sent = {c["method"]: c["params"] for c in got["meta"][0].calls}
                    want = {META[0]: {"agent_version": meta["agent_version"]}, META[1]: {"revision_code": meta["machine_revision"]}, META[2]: {"model_name": meta["model_name"]},
                            META[3]: {"os_version": meta["os_version"]}, META[4]: {"uname": meta["uname"]}, META[5]: {"ip_list": meta["ip_list"]}}
                    ctx.check(all(sent[m] == want[m] for m in META), "another meta information was reported", sent=sent, want=want)
                    if api.mode == "accept":
                        meta_done = True
                        ctx.count("meta accepted")
                else:
                    ctx.check(len([r for r in got["meta"] if set(META) <= set(r.methods)]) == 0, "meta information that could not be found was reported", **about)
                # Tags
                if which == "poll":
                    due = expected_tags is not None and expected_tags != accepted_tags
                    if due and reachable:
                        ctx.check(len(got["tags"]) == 1, "tags that differ from the accepted ones were not reported (once)", want=expected_tags, accepted=accepted_tags, **about)
                        sent = [c["params"] for c in got["tags"][0].calls if c["method"] == TAGS]
                        ctx.check(sent == [{"tag_list": expected_tags}], "other tags were reported", sent=sent, want=expected_tags, **about)
                        if api.mode == "accept":
                            accepted_tags = expected_tags
                            ctx.count("tags accepted")
                    else:
                        ctx.check(not got["tags"], "tags were reported though they are unknown or accepted", sent=[r.json for r in got["tags"]], accepted=accepted_tags, **about)
                    # Disk usage
                    due = ended >= next_disk
                    if started < next_disk <= ended:
                        due = bool(got["disk"])
                    if due:
                        next_disk = started + 3600
                        if disk.error is None and reachable:
                            ctx.check(len(got["disk"]) == 1, "a disk usage report that is due was not made (once)", **about)
                            sent = [c["params"] for c in got["disk"][0].calls if c["method"] == DISK]
                            if disk.figures:
                                frsize, blocks, free, _avail = disk.figures
                                ctx.check(sent == [{"disk_capacity": blocks * frsize, "disk_used": (blocks - free) * frsize}], "other disk figures were reported",
                                          sent=sent, figures=disk.figures, **about)
                            ctx.count("disk reports")
                        else:
                            ctx.check(not got["disk"], "a disk usage was reported that could not be found", **about)
                    else:
                        ctx.check(not got["disk"], "disk usage was reported more often than once an hour", hours_left=(next_disk - ended) / 3600.0, **about)
                else:
                    ctx.check(not got["tags"] and not got["disk"], "a sync made other reports", **about)
                for request in got["meta"] + got["tags"] + got["disk"]:
                    verify_batch(ctx, w, request, **about)
                    ctx.count("reports")
                ctx.check(len(got["meta"] + got["tags"] + got["disk"]) == len([r for r in made if api.kind(r) != "associate" and not (meta_broken and set(r.methods) == {AUTH})]), "other requests were made", **about)
                ctx.case((which, api.mode, meta_done, repr(tags), len(got["meta"]), len(got["tags"]), len(got["disk"]), meta_broken, repr(disk.error)), sample=about)
                meta_broken = False
    ctx.require("reports", 100)
    ctx.require("meta accepted", 2)
    ctx.require("tags accepted", 5)
    ctx.require("disk reports", 20)


def together(ctx, shard):
    """Polls and syncs the server asks for, at the same time, until the meta information is accepted (once)."""
    rng = ctx.rng()
    home = os.environ["HOME"]
    for history in range(ctx.pick(15, 120)):
        api = Api(rng)
        script(home, None, rng)
        with world.World(ctx, respond=api.respond) as w:
            conn = w.join()
            w.sync()
            jitter = sweep.Jitter(ctx.rng("j%d" % history), 0.1, 0.003, files=("client.py", "jsonrpc.py"))
            with jitter:
                api.delay = rng.choice([0, 0.005, 0.02])
                api.mode = rng.choice(["accept", "accept", "some", "close", "missing"])
                stop = threading.Event()
                errors = []

                def poller():
                    while not stop.is_set():
                        try:
                            w.client.poll()
                        except Exception as error:
                            errors.append(error)
                        real_sleep(0.002)

                threads = [threading.Thread(target=poller, name="poller%d" % i) for i in range(rng.choice([1, 2]))]
                for thread in threads:
                    thread.daemon = True
                    thread.start()
                for turn in range(rng.randrange(3, 10)):
                    conn.instruct("sync")
                    if turn == 2:
                        api.mode = "accept"
                api.mode = "accept"
                w.sync()
                ctx.wait(lambda: api.accepted_meta, 30.0, "meta information was not reported until it was accepted")
                for turn in range(3):
                    conn.instruct("sync")
                w.sync()
                stop.set()
                for thread in threads:
                    thread.join(30)
            ctx.check(not errors, "a poll raised", errors=errors)
            attempts = [r for r in w.api.snapshot() if api.kind(r) == "meta"]
            ctx.check(api.accepted_meta == 1, "meta information was reported again after it was accepted", accepted=api.accepted_meta, attempts=len(attempts))
            for request in attempts:
                verify_batch(ctx, w, request)
            ctx.count("attempts", len(attempts))
            ctx.case(("together", history, len(attempts)))
    ctx.require("attempts", 10)


def sweeping(ctx, shard):
    """A sync stopped at every line, while another poll or sync runs."""
    rng = ctx.rng()
    script(os.environ["HOME"], None, rng)
    for mode in ("accept", "close"):
        for second_name in ("sync", "poll"):
            k, lines = 0, 1
            while k < lines and not ctx.spent():
                k += ctx.pick(3, 1)
                api = Api(rng)
                with world.World(ctx, respond=api.respond) as w:
                    w.join()
                    w.sync()
                    w.client.tag_poll()
                    w.client.disk_poll()
                    api.mode = mode
                    one, two, where, lines = sweep.preempt(w.client.sync, getattr(w.client, second_name), k, files=("client.py",), patience=0.1)
                    ctx.check(one and two and one[1] is None and two[1] is None, "a sync failed because of another", outcomes=repr((one, two)), where=where)
                    if mode == "close":
                        attempts = [r for r in w.api.snapshot() if api.kind(r) == "meta"]
                        ctx.check(len(attempts) == 2, "meta information that is not accepted yet was not reported (once) by each of a sync and a %s" % second_name, attempts=len(attempts), where=where)
                    api.mode = "accept"
                    w.client.sync()
                    w.client.sync()
                    ctx.check(api.accepted_meta == 1, "meta information was not accepted exactly once", accepted=api.accepted_meta, where=where, mode=mode)
                ctx.case((mode, second_name, where))


def run(ctx, shard):
    world.load()
    if shard.startswith("polls"):
        polls(ctx, shard)
    elif shard == "together":
        together(ctx, shard)
    else:
        sweeping(ctx, shard)
