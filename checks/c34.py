"""C34: running out of descriptors or threads only fails what needed them, while it lasts."""
import os
import resource
import signal
import subprocess
import sys

from vf import apiserver, localserver, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one request (terminal, command, file read, forward, upload, download, scan, sync) or loss of the connection made while a whole agent process may "
        "have only k more descriptors, or k more threads and processes (limits of the kernel), for every small k. The request must be served or refused; once there is "
        "enough again, the same session must serve the same request, as often as the limits of services allow, and nothing may be left behind. "
        "Non-trivial: distinct (request, what is scarce, k).")
SHARDS = {"quick": ["descriptors1", "descriptors2", "descriptors3", "threads1", "threads2", "ends1", "ends2"],
          "thorough": ["descriptors1", "descriptors2", "descriptors3", "threads1", "threads2", "threads3", "ends1", "ends2"]}
PARALLEL = 8
LIMIT = 25.0
K = 20.0
SERVICES, TERMINALS = 3, 2

# (CPython needs no descriptor for random numbers, PyPy does)
BOOT = '''
import sys, os, random
source = random.Random(1)
os.urandom = lambda size: bytes(source.getrandbits(8) for _ in range(size))
where, k = sys.argv.pop(1), float(sys.argv.pop(1))
from vf import world
world.load(k=k, main=True)
from dataplicity import constants
constants.SERIAL_LOCATION = where + "/serial"
constants.AUTH_LOCATION = where + "/auth"
constants.REMOTE_DIRECTORY_LOCATION = where + "/remote"
import gc, threading
parent = os.getppid()
def collect():
    # PyPy keeps what CPython frees at once (and threads in deleted places of dicts)
    while True:
        world.core.real_sleep(0.2)
        if os.getppid() != parent:
            os._exit(0)
        with threading._active_limbo_lock:
            threading._active = dict(threading._active)
        gc.collect()
threading.Thread(target=collect, name="vf-collect", daemon=True).start()
from dataplicity.app import main
main()
'''
SCRIPT = '#!/bin/sh\necho poll >> "$HOME/polls"\nwc -l < "$HOME/polls"\n'
META = "device.set_uname"


class Device(object):
    """A whole agent process, and the servers it talks to."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.home = ctx.dir("home")
        self.remote = os.path.join(self.home, "remote")
        os.mkdir(self.remote)
        self.content = bytes(rng.randrange(256) for _ in range(1000)) * 70
        for path in (os.path.join(self.home, "file"), os.path.join(self.remote, "file")):
            with open(path, "wb") as fh:
                fh.write(self.content)
        with open(os.path.join(self.home, "dataplicity_tags"), "w") as fh:
            fh.write(SCRIPT)
        os.chmod(os.path.join(self.home, "dataplicity_tags"), 0o755)
        boot = os.path.join(self.home, "boot.py")
        with open(boot, "w") as fh:
            fh.write(BOOT)
        self.server, self.api, self.local = wsserver.WSServer(), apiserver.ApiServer(self.respond), localserver.LocalServer()
        env = {k: v for k, v in os.environ.items() if not k.startswith("DATAPLICITY")}
        env.update(HOME=self.home, SHELL="/bin/sh", PYTHONPATH=os.pathsep.join(p for p in sys.path if p), DATAPLICITY_LIMIT_SERVICES=str(SERVICES), DATAPLICITY_LIMIT_TERMINALS=str(TERMINALS))
        self.output = open(os.path.join(self.home, "output"), "wb")
        self.process = subprocess.Popen([sys.executable, boot, self.home, str(K), "--log-level", "DEBUG", "--log-file", self.home + "/log", "-m", self.server.url, "-s", self.api.url, "--serial=s", "--auth=a", "--remote-dir", self.remote, "run"],
                                        env=env, cwd=self.home, stdin=subprocess.DEVNULL, stdout=self.output, stderr=self.output, start_new_session=True)
        self.pid = self.process.pid
        self.joins = 0
        self.number = 1000
        self.free = {}
        self.history = []
        self.join()

    def respond(self, request):
        # Meta information is never accepted, so it is sent again
        if META in request.methods:
            return [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": -1, "message": "no"}} for c in request.calls if "id" in c]
        return apiserver.ok_response(request)

    def close(self):
        if self.process.poll() is None:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except OSError:
                pass
        self.process.wait()
        self.output.close()
        for server in (self.server, self.api):
            server.close()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def witness(self, **more):
        said = ""
        for name in (self.output.name, self.home + "/log"):
            if os.path.exists(name):
                with open(name, "rb") as fh:
                    fh.seek(max(0, os.path.getsize(name) - 3500))
                    said += fh.read().decode("utf-8", "replace")
        more.update(history=self.history[-6:], status=self.process.poll(), said=said)
        return more

    def join(self):
        self.joins += 1
        conn = self.server.joined(self.joins, 60.0)
        self.ctx.check(conn is not None, "the agent did not join", **self.witness())
        conn.send("set_identity", b"node")
        conn.send("welcome")
        self.conn = conn

    def alive(self):
        self.ctx.check(self.process.poll() is None, "the agent ended", **self.witness())
        ok = self.conn.barrier(LIMIT)
        self.ctx.check(ok and len(self.server.ready_conns()) == self.joins, "the session did not survive", **self.witness(answered=ok, connections=len(self.server.ready_conns())))

    def polls(self):
        try:
            return os.path.getsize(os.path.join(self.home, "polls")) // 5
        except OSError:
            return 0

    # -- what the process has --------------------------------------------
    def descriptors(self):
        out = {}
        for name in os.listdir("/proc/%d/fd" % self.pid):
            try:
                out[int(name)] = os.readlink("/proc/%d/fd/%s" % (self.pid, name))
            except OSError:
                pass
        return out

    def threads(self):
        return os.listdir("/proc/%d/task" % self.pid)

    def children(self):
        out = []
        for name in os.listdir("/proc"):
            if name.isdigit():
                try:
                    with open("/proc/%s/stat" % name) as fh:
                        text = fh.read()
                except (OSError, IOError):
                    continue
                fields = text.rsplit(")", 1)[1].split()
                if int(fields[1]) == self.pid:
                    out.append("%s %s %s" % (name, text.split("(")[1].split(")")[0], fields[0]))
        return out

    def have(self):
        return {"descriptors": list(self.descriptors().values()), "threads": self.threads(), "children": self.children()}

    # Pipes that `subprocess` itself (before 3.13) leaves open when it can't have another
    pipes = 0

    # Sockets that PyPy has not collected yet
    SLACK = 3

    def settle(self, base=None, **more):
        """Waits until nothing runs: gives what there is then (or finds that it never is as little as `base`)."""
        deadline = monotonic() + LIMIT
        last, since = None, monotonic()
        while True:
            have = self.have()
            counts = {k: len(v) for k, v in have.items()}
            if base is None:
                if counts != last:
                    last, since = counts, monotonic()
                elif monotonic() > since + 1.0:
                    return have
                if monotonic() > deadline:
                    return have
            else:
                over = {k: [x for x in have[k] if x not in base[k]] for k in have}
                new = over["descriptors"]
                gone = [x for x in new if x.startswith("socket:")][:self.SLACK] + [x for x in new if x.startswith("pipe:")][:self.pipes]
                allowed = {"descriptors": len(gone)}
                over = {k: v for k, v in over.items() if counts[k] > len(base[k]) + allowed.get(k, 0)}
                if not over:
                    return have
                self.ctx.check(monotonic() < deadline, "something was left behind: " + ", ".join(sorted(over)), **self.witness(left=over, were={k: len(v) for k, v in base.items()}, now=counts, **more))
            real_sleep(0.03)

    # -- scarcity --------------------------------------------------------
    def scarce(self, what, k):
        """Only k more from now on."""
        if what == "descriptors":
            used = self.descriptors()
            limit, free = 0, 0
            while free < k or limit in used:
                free += limit not in used
                limit += 1
            self.set(resource.RLIMIT_NOFILE, limit)
        else:
            uid, tasks = os.getuid(), 0
            for name in os.listdir("/proc"):
                if name.isdigit():
                    try:
                        if os.stat("/proc/" + name).st_uid == uid:
                            tasks += len(os.listdir("/proc/%s/task" % name))
                    except OSError:
                        pass
            self.set(resource.RLIMIT_NPROC, tasks + k if k >= 0 else 1)

    def set(self, kind, value):
        self.free.setdefault(kind, resource.prlimit(self.pid, kind))
        resource.prlimit(self.pid, kind, (value, self.free[kind][1]))

    def plenty(self):
        for kind, limits in self.free.items():
            resource.prlimit(self.pid, kind, limits)

    # -- requests --------------------------------------------------------
    def answer(self, condition, what, **more):
        ok = self.conn.wait(condition, LIMIT)
        self.ctx.check(ok or not self.conn.closed, "the session was lost", **self.witness(request=what, **more))
        self.ctx.check(ok, "a request was neither served nor refused", **self.witness(request=what, **more))

    def channel(self):
        self.number += 1
        return self.number

    def closed(self, number):
        return bool(self.conn.close_requests(number))

    def done(self, number):
        self.conn.send("notify_close", number)

    def ask(self, kind, keep=None):
        """Make a request; says whether it was served. With `keep`, what was opened is not closed but added there."""
        conn = self.conn
        got = lambda: conn.sent_on(number)
        if kind == "command":
            number = self.channel()
            hold = b"; exec sleep 300" if keep is not None else b""
            conn.instruct("run-command", command=b"echo hello-%d" % number + hold, port=number)
            want = b"hello-%d\n" % number
            self.answer(lambda: self.closed(number) or keep is not None and got() == want, kind)
            self.ctx.check(got() in (b"", want), "a command's output is wrong", **self.witness(got=got(), want=want))
            served = got() == want
            if self.limited and not served:
                self.pipes += 2
        elif kind == "read":
            number = self.channel()
            conn.instruct("read-file", path=os.path.join(self.home, "file").encode(), port=number)
            self.answer(lambda: self.closed(number), kind)
            served = got() == self.content
            self.ctx.check(served or not got().startswith(self.content[:8]), "a part of a file was sent as if it was all", **self.witness(size=len(got())))
        elif kind == "forward":
            number = self.channel()
            conn.instruct("open-portredirect", device_port=self.local.port, m2m_port=number)
            conn.route(number, b"to-%d" % number)
            mine = lambda: [p for p in list(self.local.peers) if p.data() == b"to-%d" % number]
            self.answer(lambda: self.closed(number) or mine(), kind)
            served = bool(mine())
            if served:
                mine()[0].write(b"back")
                self.answer(lambda: self.closed(number) or got() == b"back", "data through a forward")
                self.ctx.check(got() == b"back", "a forward that was connected did not work", **self.witness(got=got()))
        elif kind == "terminal":
            number = self.channel()
            conn.instruct("open-terminal", name=b"shell", port=number, size=[80, 24])
            conn.route(number, b"echo u''p-%d\n" % number)
            up = lambda: b"\nup-%d\r" % number in got() or b"\rup-%d\r" % number in got()
            self.answer(lambda: self.closed(number) or up(), kind)
            served = up()
        elif kind in ("upload", "upload-read"):
            ident, number = b"up-%d" % self.channel(), None
            conn.send("open_remote_file", ident, b"file")
            result = lambda name: [e.packet for e in conn.packets(name) if e.packet[1] == ident]
            self.answer(lambda: result("open_remote_file_result"), kind)
            packet = result("open_remote_file_result")[0]
            served = not packet[3]
            self.ctx.check(not served or packet[2] == len(self.content), "an upload has a wrong size", **self.witness(packet=packet))
            conn.send("read_remote_file", ident, 0, len(self.content) + 5)
            self.answer(lambda: result("read_remote_file_result"), "reading an upload")
            packet = result("read_remote_file_result")[0]
            self.ctx.check(packet[5] or packet[4] == self.content, "an upload's data is wrong", **self.witness(packet=repr(packet)[:300]))
            served = served and not packet[5]
            conn.send("close_remote_file", ident)
        elif kind == "download":
            ident, number = b"down-%d" % self.channel(), None
            name = b"stored-%d" % self.number
            conn.send("write_remote_file", ident, name, b"", 0, self.content, 0)
            result = lambda: [e.packet for e in conn.packets("write_remote_file_result") if e.packet[1] == ident]
            self.answer(lambda: len(result()) >= 1, kind)
            packet = result()[0]
            served = not packet[5]
            if served:
                conn.send("write_remote_file", ident, name, packet[4], len(self.content), b"end", 1)
                self.answer(lambda: len(result()) >= 2, "the end of a download")
                served = not result()[1][5]
            path = os.path.join(self.remote, name.decode())
            if served:
                with open(path, "rb") as fh:
                    self.ctx.check(fh.read() == self.content + b"end", "a download was not stored as sent", **self.witness())
                os.remove(path)
            else:
                self.ctx.check(not os.path.exists(path), "a failed download was stored", **self.witness())
        elif kind == "scan":
            number = None
            before = len(conn.packets("scan_remote_directory_result"))
            conn.send("scan_remote_directory")
            self.answer(lambda: len(conn.packets("scan_remote_directory_result")) > before, kind)
            served = not conn.packets("scan_remote_directory_result")[before].packet[1]
        elif kind == "sync":
            number = None
            made = lambda: sum(META in r.methods for r in self.api.snapshot())
            before = made()
            conn.instruct("sync")
            # (nothing says that it failed)
            served = self.api.wait(lambda: made() > before, LIMIT if not self.limited else 0.3)
        elif kind == "echo":
            number = self.channel()
            conn.instruct("open-echo", port=number)
            conn.route(number, b"abc")
            self.answer(lambda: got() == b"abc", kind)
            served = True
        if number is not None:
            if keep is not None and served and not self.closed(number):
                keep.append(number)
            else:
                self.done(number)
        self.history.append((kind, "served" if served else "refused"))
        return served

    limited = False

    def tidy(self):
        """Forget the harness's side of what is over."""
        with self.local.cond:
            peers, self.local.peers[:] = list(self.local.peers), []
        for peer in peers:
            peer.close()
        with self.server.cond:
            del self.conn.entries[20:-60]
            del self.server.log[:-60]

    def everything(self, kinds):
        for kind in kinds:
            served = self.ask(kind)
            self.ctx.check(served, "a request is refused though there is enough again", **self.witness(request=kind))
        self.tidy()


KINDS = ["command", "read", "forward", "terminal", "upload", "download", "scan", "sync", "echo"]
LIMITED = {"command": SERVICES, "read": SERVICES, "forward": SERVICES, "terminal": TERMINALS}
# (-1: none at all, though others end)
SCARCE = {"descriptors": range(0, 9), "threads": range(-1, 5)}


def start(ctx, rng):
    device = Device(ctx, rng)
    # Whatever is imported or opened once and kept
    device.everything(KINDS + KINDS)
    return device


def requests(ctx, what, part, parts):
    rng = ctx.rng()
    with start(ctx, rng) as device:
        base = device.settle()
        for turn in range(ctx.pick(1, 12)):
            plans = [(kind, k) for kind in KINDS for k in SCARCE[what]]
            if what == "threads":
                # How many are left is not exact
                plans += [("terminal", k) for k in range(5)] * 2 + [("command", k) for k in range(3)]
            plans = plans[part::parts]
            rng.shuffle(plans)
            for index, (kind, k) in enumerate(plans):
                if ctx.spent(quick=70.0):
                    break
                device.history.append(("only", k, what))
                device.limited = True
                device.scarce(what, k)
                try:
                    served = device.ask(kind)
                    if rng.random() < 0.3:
                        # More of it
                        for _ in range(rng.randrange(1, 4)):
                            device.ask(rng.choice(KINDS))
                    device.alive()
                finally:
                    device.plenty()
                    device.limited = False
                device.history.append(("enough",))
                device.tidy()
                device.alive()
                if served:
                    ctx.count("served")
                else:
                    ctx.count("refused")
                device.settle(base, request=kind, scarce=what, k=k)
                again = device.ask(kind)
                ctx.check(again, "a request is refused though there is enough again", **device.witness(request=kind, scarce=what, k=k))
                if kind in LIMITED and rng.random() < 0.5:
                    # All the slots are there
                    kept = []
                    device.tidy()
                    device.settle(base, request=kind)
                    for number in range(TERMINALS if kind == "terminal" else SERVICES):
                        ok = device.ask("terminal" if kind == "terminal" else "command", kept)
                        ctx.check(ok, "a slot was not given back", **device.witness(request=kind, scarce=what, k=k, number=number))
                    for number in kept:
                        device.done(number)
                    ctx.count("slots counted")
                    device.settle(base, request=kind, scarce=what, k=k)
                ctx.case((kind, what, k, served), sample={"request": kind, "scarce": what, "k": k, "served": served})
        polls = device.polls()
        device.everything(KINDS)
        ctx.wait(lambda: device.polls() > polls, 30.0, "the agent stopped polling", **device.witness(polls=polls))
        device.settle(base)
    ctx.require("refused", 3)
    ctx.require("served", 3)


ENDS = ["reset", "fin", "close-frame", "mid-frame"]


def ends(ctx, what):
    """Services end, and the connection is lost, in want; polls go on."""
    rng = ctx.rng()
    with start(ctx, rng) as device:
        base = device.settle()
        for turn in range(ctx.pick(9, 60)):
            if ctx.spent(quick=70.0):
                break
            k = rng.choice([0, 1, 2, 3] if what == "descriptors" else [-1, -1, -1, 0, 1, 2])
            kept = []
            running = []
            for kind in ["command", "forward", "terminal", "terminal"]:
                if rng.random() < 0.7:
                    device.ask(kind, kept)
                    running.append(kind)
            how = ENDS[turn % len(ENDS)] if turn % 2 else None
            device.history.append(("only", k, what))
            device.limited = True
            device.scarce(what, k)
            polls = device.polls()
            try:
                if how:
                    device.conn.end(how)
                    device.history.append(("lost", how))
                    real_sleep(rng.choice([0.1, 0.6]))
                else:
                    for number in kept:
                        device.done(number)
                    device.history.append(("closed", len(kept)))
                    device.alive()
                    real_sleep(rng.choice([0.0, 0.3]))
                if rng.random() < 0.5:
                    # Some polls fail
                    real_sleep(4.0)
                    ctx.count("polls in want", device.polls() - polls)
            finally:
                device.plenty()
                device.limited = False
            device.history.append(("enough",))
            if how:
                device.join()
                ctx.count("lost connections")
            device.tidy()
            device.alive()
            device.settle(base, running=running, scarce=what, k=k, lost=how)
            polls = device.polls()
            device.everything(["command", "forward", "terminal", rng.choice(KINDS)])
            ctx.wait(lambda: device.polls() > polls, 30.0, "the agent stopped polling", **device.witness(polls=polls))
            ctx.count("ends")
            ctx.case(("ends", what, k, how, tuple(running)), sample={"running": running, "lost": how, "scarce": what, "k": k})
    ctx.require("ends", 3)


def run(ctx, shard):
    # An own user, whose processes nobody else counts
    names = SHARDS["quick"] + SHARDS["thorough"]
    uid = 61000 + names.index(shard)
    ctx.become(uid, uid)
    os.chdir(ctx.scratch)
    if shard.startswith("ends"):
        ends(ctx, "descriptors" if shard == "ends1" else "threads")
    else:
        what = shard[:-1]
        part = int(shard[-1]) - 1
        requests(ctx, what, part, {"descriptors": 3, "threads": 2 if ctx.quick else 3}[what])
