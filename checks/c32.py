"""C32: the agent keeps polling through failures and stops when asked."""
import os
import random
import signal
import subprocess
import sys
import threading
import time

from vf import apiserver, timewarp, world
from vf.core import monotonic, real_sleep, real_time

RULE = ("A case is one run of a whole agent: polls (seen by the device's tag script, which each poll runs, and at the API) under random API behaviour "
        "(failing, holding, hanging up, never answering, nonsense), failing scripts and figures and concurrent sync instructions, ended by an exit request, an interrupt or a "
        "SystemExit at a chosen or random moment. The agent's clock runs 120 times faster, so a period of 60 s takes 0.5 s. Non-trivial: distinct (history, way and moment of the end).")
SHARDS = {"quick": ["run1", "run2", "run3", "run4", "swift1", "process1"], "thorough": ["run%d" % i for i in range(1, 6)] + ["swift1", "swift2", "process1"]}
K = 120.0
PERIOD = 60.0
LIMIT = 25.0
META = "device.set_agent_version"
TAGS = "device.set_machine_defined_tags"
BEHAVIOURS = ["ok", "ok", "close", "reset", "http500", "http404", "partial", "silent", "stalled", "nonsense", "nothing", "errors", "slow", "refuse"]

SCRIPT = """#!/bin/bash
printf '%024.6f\\n' "$EPOCHREALTIME" >> "$HOME/polls"
[ -e "$HOME/hold" ] && { echo > "$HOME/holding"; while [ -e "$HOME/hold" ]; do sleep 0.02; done; rm -f "$HOME/holding"; }
. "$HOME/how"
"""
HOWS = ["wc -l < $HOME/polls", "wc -l < $HOME/polls", "exit 3", "kill -9 $$", "head -c 100 /dev/urandom", "true", "head -c 100000 /dev/zero", "echo same", "exec 1>&-"]


class Script(object):
    """The device's tag script: runs once in each poll, and says so."""

    def __init__(self, home):
        self.home = home
        self.how(HOWS[0])
        path = os.path.join(home, "dataplicity_tags")
        with open(path, "w") as fh:
            fh.write(SCRIPT)
        os.chmod(path, 0o755)

    def path(self, name):
        return os.path.join(self.home, name)

    def how(self, text):
        with open(self.path("how.new"), "w") as fh:
            fh.write(text + "\n")
        os.rename(self.path("how.new"), self.path("how"))

    def polls(self):
        try:
            return os.path.getsize(self.path("polls")) // 25
        except OSError:
            return 0

    def times(self):
        """When each poll ran the script."""
        try:
            with open(self.path("polls")) as fh:
                return [float(line) for line in fh.read().split("\n")[:-1]]
        except OSError:
            return []

    def hold(self):
        open(self.path("hold"), "w").close()

    def release(self):
        try:
            os.remove(self.path("hold"))
        except OSError:
            pass
        # The script takes notice, unless it was killed
        deadline = monotonic() + 5.0
        while os.path.exists(self.path("holding")) and monotonic() < deadline:
            real_sleep(0.005)


class Api(object):
    def __init__(self, rng):
        self.rng = rng
        # (once the meta information is accepted, there are no more syncs)
        self.accepts_meta = rng.random() < 0.3
        self.behaviour = "ok"
        self.lock = threading.Lock()
        self.gate = threading.Event()
        self.gate.set()
        self.held = 0
        self.syncing = 0
        self.most = 0
        self.syncs = 0
        self.server = None

    def respond(self, request):
        meta = META in request.methods or request.methods == ["device.check_auth"]
        with self.lock:
            if meta:
                self.syncing += 1
                self.syncs += 1
                self.most = max(self.most, self.syncing)
            rng = random.Random(self.rng.random())
            how = self.behaviour
        try:
            if not self.gate.is_set():
                with self.lock:
                    self.held += 1
                self.gate.wait()
            if how == "mixed":
                how = rng.choice(BEHAVIOURS[:-1])
            if how == "slow":
                real_sleep(rng.random() * 0.3)
                how = "ok" if rng.random() < 0.5 else "errors"
            if how == "ok" and meta and not self.accepts_meta:
                how = rng.choice(["errors", "close", "nonsense"])
            if how in ("close", "reset", "http500", "http404", "partial", "silent", "stalled"):
                return how
            if how == "nonsense":
                return rng.choice([b"nonsense", b"null", b"{}", b"[1]", b"[[]]", b"\xff\xfe", b"[" * 3000, b"3", b'[{"id": {}}]', b'"x"', b'[{"jsonrpc": "2.0", "id": "authenticate_result", "error": 3}]'])
            if how == "nothing":
                return rng.choice([b"", ("raw", b""), ("raw", b"HTTP/1.1 200 OK\r\n\r\n"), ("raw", b"HTTP/1.1 204 No Content\r\n\r\n"), ("raw", b"garbage\r\n\r\n"), ("raw", b"HTTP/1.1 302 Found\r\nLocation: /elsewhere\r\n\r\n"),
                                   ("raw", b"HTTP/1.1 200 OK\r\nContent-Length: -3\r\n\r\n[]"), ("raw", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"), ("raw", b"HTTP/1.1 999 ?\r\n\r\n")])
            if how == "errors":
                return [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": rng.choice([401, -32603, None]), "message": "no"}} for c in request.calls if rng.random() < 0.8]
            return apiserver.ok_response(request)
        finally:
            if meta:
                with self.lock:
                    self.syncing -= 1


class Life(object):
    """One agent, from start to end."""

    def __init__(self, ctx, rng, swift=False):
        self.ctx, self.rng = ctx, rng
        self.history = []
        self.api = Api(random.Random(rng.random()))
        self.home = ctx.dir("home")
        os.environ["HOME"] = self.home
        self.script = Script(self.home)
        self.w = world.World(ctx, respond=self.api.respond)
        self.client = self.w.client
        self.closes = []
        self.returned = None
        self.raised = None
        real_close = self.client.close

        def close():
            self.closes.append(monotonic())
            return real_close()

        self.client.close = close
        self.ending = None
        self.asked = None
        self.before = set(threading.enumerate())
        self.settled = True

    # -- the agent's side --------------------------------------------------
    def run(self):
        self.started = monotonic()
        try:
            self.client.run_forever()
        except BaseException as error:
            self.raised = error
        self.returned = monotonic()

    # -- the driver's side -------------------------------------------------
    def fail(self, message, **witness):
        self.ctx.fail(message, history=self.history[-40:], ending=self.ending, polls=self.script.polls(), raised=repr(self.raised), log=list(world.log_lines)[-15:], stacks=world.stacks, **witness)

    def need(self, condition, message, limit=LIMIT, **witness):
        deadline = monotonic() + limit
        while not condition():
            if monotonic() > deadline:
                self.fail(message, **witness)
            real_sleep(0.01)

    def next_poll(self, count=1):
        polls = self.script.polls()
        for step in range(1, count + 1):
            self.need(lambda: self.script.polls() >= polls + step or self.returned is not None, "there was no poll for far more than the poll period", behaviour=self.api.behaviour)
            if self.returned is not None:
                self.fail("the agent stopped polling by itself")
        # Each poll comes a whole period after the one before
        most = (monotonic() - self.started) * K / PERIOD + 1.001
        self.ctx.check(self.script.polls() <= most, "there are more polls than periods", polls=self.script.polls(), periods=most, history=self.history[-40:])
        self.ctx.count("polls", count)

    def waits(self, name):
        """Waits the agent's main thread asked for between two polls."""
        del timewarp.waits[:]
        polls = self.script.polls()
        self.next_poll(2)
        waits = [t for n, t in list(timewarp.waits) if n == name]
        if self.script.polls() == polls + 2 and waits:
            # Two polls can hold the waits before the first, between both and after the second
            self.ctx.check(sum(waits) <= 3 * PERIOD * 1.01, "the agent waits longer than the poll period", waits=waits, history=self.history[-40:])

    def step(self):
        rng = self.rng
        kind = rng.choice(["behaviour"] * 5 + ["script", "script", "sync", "sync", "hold api", "hold api", "hold poll", "disk", "lose", "instruction", "accept"])
        detail = None
        if kind == "behaviour":
            detail = rng.choice(BEHAVIOURS + ["mixed"])
            if self.api.behaviour == "refuse":
                self.w.api.listen()
            self.api.behaviour = detail
            if detail == "refuse":
                self.w.api.refuse()
        elif kind == "script":
            detail = rng.choice(HOWS)
            self.script.how(detail)
        elif kind == "sync":
            detail = rng.choice([1, 2, 10])
            for _ in range(detail):
                self.w.conn.instruct("sync")
        elif kind == "hold api":
            # Another thread's sync meanwhile
            if self.api.behaviour == "refuse":
                return
            self.api.gate.clear()
            self.w.conn.instruct("sync")
            real_sleep(rng.choice([0.1, 0.8]))
            self.api.gate.set()
        elif kind == "hold poll":
            # A poll that takes several periods
            detail = rng.choice([0.7, 2.0, 3.0])
            self.script.hold()
            self.need(lambda: os.path.exists(self.script.path("holding")), "there was no poll for far more than the poll period")
            real_sleep(detail)
            self.script.release()
        elif kind == "accept":
            self.api.accepts_meta = rng.random() < 0.3
        elif kind == "disk":
            detail = rng.choice(["fails", "normal"])
            disk["error"] = OSError(5, "Input/output error") if detail == "fails" else None
        elif kind == "lose":
            self.w.conn.end("fin")
            self.w.join()
        elif kind == "instruction":
            detail = rng.choice(["nothing", "scan-directory", "run-command"])
            self.w.conn.instruct(detail)
        self.history.append((kind, detail))

    def sum_up(self):
        self.ctx.check(self.api.most <= 1, "syncs of meta information ran at the same time", most=self.api.most, history=self.history[-40:])
        # Nothing is caught up on: some wait lies between any two polls (nominally a whole period; here, one period in four polls)
        times = self.script.times()
        spans = [b - a for a, b in zip(times, times[3:])]
        self.ctx.check(all(s >= 0.98 * PERIOD / K for s in spans), "polls follow each other in much less than the poll period", spans=[s for s in spans if s < PERIOD / K], history=self.history[-40:])
        self.ctx.count("spans", len(spans))
        self.ctx.count("syncs", self.api.syncs)

    def gate(self):
        """The API answers from now on."""
        self.api.gate.set()
        if self.api.behaviour == "refuse":
            self.api.behaviour = "ok"
            self.w.api.listen()

    def ended(self):
        """Judge what is left after the end."""
        ctx = self.ctx
        self.need(lambda: self.returned is not None, "the agent did not return when it was asked to end")
        ctx.count("ended: %s" % self.ending[0])
        ctx.check(self.raised is None, "the agent's main loop raised an exception when it was asked to end", raised=repr(self.raised), ending=self.ending)
        ctx.check(len(self.closes) == 1, "the shutdown did not run exactly once", closes=len(self.closes), ending=self.ending, history=self.history[-10:])
        polls = self.script.polls()
        def watchers():
            return [t for t in threading.enumerate() if type(t).__name__.lower().startswith("clock") and t not in self.before]
        self.need(lambda: not watchers(), "the clock watch still runs", threads=[repr(t) for t in threading.enumerate()])
        # Three periods more
        real_sleep(3 * PERIOD / K)
        ctx.check(self.script.polls() == polls, "a poll after the end", polls=(polls, self.script.polls()), ending=self.ending)
        ctx.check(len(self.closes) == 1, "the shutdown ran again", closes=len(self.closes))

    def end(self):
        for name in ("fails",):
            disk["error"] = None
        self.script.release()
        self.api.gate.set()
        self.w.stop()


disk = {"error": None}


def install_disk():
    real = os.statvfs

    def statvfs(path):
        if path in ("/", b"/") and disk["error"] is not None:
            raise disk["error"]
        return real(path)

    os.statvfs = statvfs


class Asked(object):
    """Signals to the main thread: SIGINT interrupts, SIGUSR1 asks for an exit by SystemExit."""

    @staticmethod
    def install():
        signal.signal(signal.SIGINT, signal.default_int_handler)

        def leave(*_args):
            raise SystemExit(3)

        signal.signal(signal.SIGUSR1, leave)


def finish(life, moment, way):
    """Ask for the end at some moment."""
    rng = life.rng
    life.ending = (way, moment)
    begun = None
    if moment == "in an API call":
        life.gate()
        life.script.how(HOWS[0])
        held = life.api.held
        life.api.gate.clear()
        life.need(lambda: life.api.held > held, "there was no API call for far more than the poll period")
        real_sleep(rng.random() * 0.05)
    elif moment == "in the tag script":
        life.script.hold()
        life.need(lambda: os.path.exists(life.script.path("holding")), "there was no poll for far more than the poll period")
    elif moment == "while waiting":
        life.next_poll()
        begun = monotonic()
        real_sleep(0.25)
    elif moment == "right after a poll began":
        life.next_poll()
        real_sleep(rng.random() * 0.05)
    else:
        real_sleep(rng.random() * 0.6)
    if life.returned is not None:
        life.fail("the agent stopped polling by itself")
    polls = life.script.polls()
    if way == "exit":
        life.client.exit()
    elif way == "exit twice":
        life.client.exit()
        life.client.exit()
    elif way == "interrupt":
        os.kill(os.getpid(), signal.SIGINT)
    elif way == "SystemExit":
        os.kill(os.getpid(), signal.SIGUSR1)
    life.asked = monotonic()
    # The next poll is not due yet
    early = moment == "in the tag script" or (begun is not None and life.asked - begun < 0.4)
    if moment == "in an API call":
        if rng.random() < 0.5:
            real_sleep(0.3)
        life.api.gate.set()
    elif moment == "in the tag script":
        life.script.release()
    life.need(lambda: life.returned is not None, "the agent did not return when it was asked to end", way=way, moment=moment)
    # A poll that had begun may go on
    life.ctx.count("ended between polls" if early else "ended at a poll")
    life.ctx.check(life.script.polls() <= polls + (0 if early else 1), "the agent kept polling when it was asked to end", polls=(polls, life.script.polls()), ending=life.ending)


MOMENTS = ["in an API call", "in the tag script", "while waiting", "right after a poll began", "at a random time"]
WAYS = ["exit", "exit", "exit twice", "interrupt", "SystemExit"]


def lives(ctx, shard):
    """The driver is a thread, because interrupts come to the main thread, where the agent runs."""
    rng = ctx.rng()
    swift = shard.startswith("swift")
    moments, ways = list(MOMENTS), list(WAYS)
    for number in range(ctx.pick(8 if swift else 3, 60 if swift else 24)):
        if not number % 5:
            rng.shuffle(moments)
            rng.shuffle(ways)
        moment, way = moments[number % 5], ways[number % 5]
        life = Life(ctx, rng, swift)
        outcome = {}

        def drive():
            try:
                life.w.join()
                if early:
                    life.ending = ("exit", "before the start")
                    go.set()
                else:
                    life.need(lambda: life.script.polls() > 0, "there was no poll at the start")
                    life.next_poll(1)
                    for _ in range(0 if swift else rng.randrange(2, ctx.pick(8, 14))):
                        for _ in range(rng.choice([1, 1, 2, 3])):
                            life.step()
                        life.next_poll(rng.choice([1, 1, 2]))
                    if not swift:
                        life.waits("MainThread")
                    if swift:
                        life.api.behaviour = rng.choice(BEHAVIOURS[:-1] + ["mixed"])
                    finish(life, moment, way)
                life.ended()
                life.sum_up()
            except BaseException as error:
                outcome["error"] = error
            finally:
                life.gate()
                life.script.release()
                # However the checks ended, the main thread must come back
                deadline = monotonic() + 10.0
                life.client.exit_event.set()
                while life.returned is None and monotonic() < deadline:
                    real_sleep(0.05)
                if life.returned is None:
                    ctx.flush(done=True)
                    os._exit(1)
                outcome["done"] = True

        early = swift and number % 8 == 7
        go = threading.Event()
        driver = threading.Thread(target=drive, name="vf-driver")
        driver.daemon = True
        if early:
            # Asked to exit before it started
            life.client.exit()
        driver.start()
        if early:
            while not go.is_set() and driver.is_alive():
                real_sleep(0.01)
        with ctx.guard("a life", 300.0):
            life.run()
            while driver.is_alive():
                real_sleep(0.01)
        life.end()
        if "error" in outcome:
            raise outcome["error"]
        ctx.count("lives")
        ctx.case((tuple(life.history), life.ending), sample={"history": life.history[:6], "ending": life.ending})
    ctx.require("lives", 2)
    ctx.require("polls", 5)


BOOT = '''
import sys, signal
signal.signal(signal.SIGINT, signal.default_int_handler)
where = sys.argv.pop(1)
from dataplicity import constants
constants.SERIAL_LOCATION = where + "/serial"
constants.AUTH_LOCATION = where + "/auth"
constants.REMOTE_DIRECTORY_LOCATION = where + "/remote"
from dataplicity.app import main
main()
'''


def process(ctx, shard):
    """Whole processes, interrupted."""
    from vf import wsserver
    rng = ctx.rng()
    boot = os.path.join(ctx.scratch, "boot.py")
    with open(boot, "w") as fh:
        fh.write(BOOT)
    plans = ["while waiting", "in an API call", "in the tag script", "in the meta information", "while waiting", "refused", "twice"] * ctx.pick(1, 4)
    for plan in plans:
        home = ctx.dir("agent")
        os.mkdir(os.path.join(home, "remote"))
        os.mkdir(os.path.join(home, "bin"))
        script = Script(home)
        state = Api(random.Random(rng.random()))
        state.accepts_meta = True
        server, api = wsserver.WSServer(), apiserver.ApiServer(state.respond)
        url = api.url
        if plan == "in an API call":
            state.gate.clear()
        elif plan == "in the tag script":
            script.hold()
        elif plan == "refused":
            api.refuse()
        if plan == "in the meta information":
            # The agent's look at the operating system takes long
            with open(os.path.join(home, "bin", "lsb_release"), "w") as fh:
                fh.write('#!/bin/sh\necho > "$HOME/holding"\nsleep 1\necho "Distributor ID: Vf"\n')
            os.chmod(os.path.join(home, "bin", "lsb_release"), 0o755)
        env = {k: v for k, v in os.environ.items() if not k.startswith("DATAPLICITY")}
        env.update(HOME=home, PYTHONPATH=os.environ["VF_REPO"], PATH=os.path.join(home, "bin") + ":" + env["PATH"])
        output = open(os.path.join(home, "output"), "wb")
        agent = subprocess.Popen([sys.executable, boot, home, "--log-level", "DEBUG", "-m", server.url, "-s", url, "--serial=s", "--auth=a", "run"], env=env, cwd=home, stdin=subprocess.DEVNULL, stdout=output, stderr=output)
        try:
            def said():
                return open(output.name, "rb").read().decode("utf-8", "replace")[-2500:]

            def ready():
                if plan == "in an API call":
                    return state.held > 0
                if plan == "in the tag script":
                    return os.path.exists(script.path("holding"))
                if plan == "in the meta information":
                    return os.path.exists(script.path("holding"))
                if plan == "refused":
                    return script.polls() > 0
                return any(META in r.methods and r.done for r in api.snapshot())

            deadline = monotonic() + 60.0
            while not ready() and monotonic() < deadline and agent.poll() is None:
                real_sleep(0.02)
            if plan == "in the meta information" and agent.poll() is None and not ready():
                # It does not ask lsb_release
                ctx.count("no lsb_release")
                continue
            ctx.check(ready(), "the agent did not poll", plan=plan, status=agent.poll(), said=said())
            real_sleep(rng.random() * 0.3)
            agent.send_signal(signal.SIGINT)
            if plan == "twice":
                real_sleep(0.02)
                agent.send_signal(signal.SIGINT)
            if plan == "in an API call":
                real_sleep(0.3)
                state.gate.set()
            script.release()
            try:
                status = agent.wait(LIMIT)
            except subprocess.TimeoutExpired:
                status = None
            ctx.check(status is not None, "the interrupted agent did not exit", plan=plan, said=said())
            if plan != "twice":
                ctx.check(status == 0, "the interrupted agent failed", plan=plan, status=status, said=said())
            ctx.count("interrupted processes")
            ctx.case(("process", plan))
        finally:
            if agent.poll() is None:
                agent.kill()
            agent.wait()
            state.gate.set()
            script.release()
            output.close()
            server.close()
            api.close()
    ctx.require("interrupted processes", 4)


def run(ctx, shard):
    ctx.become(65534, 65534)
    if shard.startswith("process"):
        process(ctx, shard)
        return
    Asked.install()
    install_disk()
    world.load(k=K, main=True)
    lives(ctx, shard)
