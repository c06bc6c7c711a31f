"""C26: only a large forward jump of the clock restarts the agent."""
import os
import random
import signal
import subprocess
import sys
import threading
import time

from vf import apiserver, core, safety, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one change of the system clock while an agent runs: forward or backward, large or small, once or in series, while the "
        "watch sleeps or is awake, while the agent polls, hangs in an API call or has been stopped. In the virtual shards the clock "
        "the watch reads and the time it sleeps are scripted; in the process shard a real agent process runs. Non-trivial: distinct (size of the change, moment, kill).")
SHARDS = {"quick": ["virtual1", "virtual2", "process0", "process1", "process2"], "thorough": ["virtual%d" % i for i in range(1, 5)] + ["process0", "process1", "process2"]}
LIMIT = 180.0


class Clock(object):
    """The clock of the agent's watching thread: it moves when the watch sleeps, and when told."""

    def __init__(self):
        self.now = core.real_time()
        self.lock = threading.RLock()
        self.on_sleep = self.on_read = None
        self.sleeps = 0
        self.slept = 0.0
        self.watch = set()
        self.reads = 0
        self.excluded = set()

    def mine(self):
        thread = threading.current_thread()
        return not thread.name.startswith("vf-") and thread.name != "MainThread" and thread not in self.excluded

    def time(self):
        with self.lock:
            if self.mine() and threading.current_thread() in self.watch:
                self.reads += 1
                if self.on_read:
                    self.on_read()
            return self.now

    def pause(self, seconds):
        with self.lock:
            thread = threading.current_thread()
            self.watch.add(thread)
            self.sleeps += 1
            if self.on_sleep:
                self.on_sleep()
            self.now += seconds
            self.slept += seconds
        real_sleep(0.0003)


clock = Clock()
time.time = clock.time
time.monotonic = lambda: core.monotonic() if not clock.mine() else core.monotonic() + clock.slept
time.sleep = lambda seconds: clock.pause(seconds) if clock.mine() else core.real_sleep(seconds)
real_wait = threading.Event.wait


def event_wait(self, timeout=None):
    if timeout is None or not clock.mine() or self.is_set() or sys._getframe(1).f_globals.get("__name__") == "threading":
        return real_wait(self, timeout)
    clock.pause(timeout)
    return self.is_set()


def virtual(ctx, shard):
    world.load()
    threading.Event.wait = event_wait
    rng = ctx.rng()
    for history in range(ctx.pick(12, 60)):
        api_delay = rng.choice([0, 0, 0.05])
        jumps = {"pending": 0.0, "where": None, "at": None}

        def respond(request):
            real_sleep(api_delay)
            return apiserver.ok_response(request)

        with world.World(ctx, respond=respond) as w:
            clock.excluded.add(w.ws)
            w.join()
            w.sync()
            del safety.kills[:]
            clock.on_sleep = clock.on_read = None
            before = set(threading.enumerate())
            outcome = []
            w.client.poll_rate_seconds = 0.01

            def runner():
                try:
                    outcome.append(("returned", w.client.run_forever()))
                except BaseException as error:
                    outcome.append(("raised", error))

            thread = threading.Thread(target=runner, name="vf-runner")
            thread.daemon = True
            thread.start()
            start = clock.sleeps
            ctx.wait(lambda: clock.sleeps > start + 2, 20.0, "nothing watches the clock while the agent runs")
            ctx.check(not safety.kills, "the agent was killed though the clock did not change", kills=safety.kills)
            wheres = ["asleep", "asleep", "awake1", "awake2"]
            for turn in range(ctx.pick(60, 150)):
                kind = rng.choice(["large", "large", "small", "small", "backward", "series", "none"])
                size = {"large": lambda: rng.choice([LIMIT + 0.5, LIMIT + 1, 200.0, 3600.0, 86400.0, 1e9, LIMIT + rng.random() * 20]),
                        "small": lambda: rng.choice([170.0, 165.0, 100.0, 60.0, 10.0, 1.0, 0.001, rng.random() * 170]),
                        "backward": lambda: -rng.choice([0.5, 10.0, 170.0, 179.0, 180.0, 181.0, 200.0, 3600.0, 1e6]),
                        "series": lambda: rng.choice([170.0, 120.0, 90.0]), "none": lambda: 0.0}[kind]()
                where = rng.choice(wheres)
                count = rng.randrange(3, 12) if kind == "series" else 1
                del safety.kills[:]
                for _ in range(count):
                    done = threading.Event()
                    state = {"reads": 0}

                    def jump():
                        clock.now += size
                        state["slept"] = clock.slept
                        clock.on_sleep = clock.on_read = None
                        done.set()

                    def on_read():
                        state["reads"] += 1
                        if state["reads"] == (1 if where == "awake1" else 2):
                            jump()

                    with clock.lock:
                        if where == "asleep":
                            clock.on_sleep = jump
                        else:
                            # At the first reading of the clock after a sleep, or at the second
                            clock.on_sleep = lambda: (state.update(reads=0), setattr(clock, "on_read", on_read))
                    if not real_wait(done, 1.0):
                        # The watch does not read the clock that often
                        wheres = [one for one in wheres if one != where]
                        where = "asleep"
                        with clock.lock:
                            clock.on_sleep = jump
                            clock.on_read = None
                        ctx.check(real_wait(done, 20.0), "nothing watches the clock any more", turn=turn, kind=kind, alive=thread.is_alive(), outcome=repr(outcome))
                    if kind == "large":
                        ctx.wait(lambda: safety.kills or clock.slept > state["slept"] + 5.0, 20.0, "nothing watches the clock any more")
                        ctx.check(safety.kills, "the clock jumped forward and the agent was not killed", size=size, where=where, slept=clock.slept - state["slept"])
                        ctx.count("kills")
                    else:
                        # Two more sleeps, so that the change is behind
                        now = clock.sleeps
                        ctx.wait(lambda: clock.sleeps > now + 3, 20.0, "nothing watches the clock any more")
                        ctx.check(not safety.kills, "the agent was killed though the clock did not jump far", size=size, kind=kind, where=where, kills=safety.kills, times=count)
                        ctx.count("harmless changes")
                    now = clock.sleeps
                    ctx.wait(lambda: clock.sleeps > now + 3, 20.0, "nothing watches the clock any more")
                bad = [k for k in safety.kills if k != (os.getpid(), signal.SIGKILL)]
                ctx.check(not bad, "another signal was sent, or to another process", kills=safety.kills, pid=os.getpid())
                ctx.case((kind, where, count, size), sample={"kind": kind, "size": size, "where": where, "kills": len(safety.kills)})
            # The end
            del safety.kills[:]
            how = rng.choice(["exit", "exit", "exit at once"])
            w.client.exit()
            thread.join(30)
            ctx.check(not thread.is_alive(), "the agent did not shut down", outcome=repr(outcome))
            ctx.check(outcome and outcome[0][0] == "returned", "the agent ended with an exception", outcome=repr(outcome))
            sleeps = clock.sleeps
            clock.now += 10000.0
            real_sleep(0.1)
            ctx.check(clock.sleeps == sleeps, "the watch goes on after the agent has shut down", sleeps=clock.sleeps - sleeps)
            left = [t for t in threading.enumerate() if t in clock.watch]
            ctx.check(not left, "the watching thread goes on after the agent has shut down", threads=left)
            ctx.check(not safety.kills, "the agent was killed after it shut down", kills=safety.kills)
            ctx.count("shutdowns")
    ctx.require("kills", 100)
    ctx.require("harmless changes", 100)
    ctx.require("shutdowns", 5)


BOOT = '''
import sys, time
real = time.time
path = sys.argv.pop(1)
offset = [0.0, 0.0]
def moved():
    now = time.monotonic()
    if now > offset[1] + 0.01:
        offset[1] = now
        try:
            with open(path) as fh:
                offset[0] = float(fh.read() or 0)
        except (IOError, ValueError):
            pass
    return real() + offset[0]
time.time = moved
from dataplicity.app import main
main()
'''


def process(ctx, shard):
    """Real agent processes, killed for real."""
    ctx.become(65534, 65534)
    rng = ctx.rng()
    script = os.path.join(ctx.scratch, "boot.py")
    with open(script, "w") as fh:
        fh.write(BOOT)
    plan = [("large", "idle"), ("large", "hanging"), ("small", "idle"), ("backward", "idle"), ("series", "idle")]
    plan += [("large", "disconnected"), ("small", "hanging"), ("large", "idle")] * ctx.pick(1, 4)
    for number, (kind, state) in enumerate(plan):
        if number % 3 != int(shard[-1]):
            continue
        release = threading.Event()

        def respond(request):
            if state == "hanging":
                real_wait(release, 60)
            return apiserver.ok_response(request)

        server, api = wsserver.WSServer(), apiserver.ApiServer(respond)
        if state == "disconnected":
            server.refuse()
        home = ctx.dir("home")
        path = os.path.join(home, "offset")

        def set_offset(value):
            with open(path + ".new", "w") as fh:
                fh.write(repr(value))
            os.rename(path + ".new", path)

        set_offset(0.0)
        env = dict(os.environ, HOME=home, PYTHONPATH=os.environ["VF_REPO"])
        for name in ("DATAPLICITY_API_URL", "DATAPLICITY_M2M_URL"):
            env.pop(name, None)
        log = open(os.path.join(home, "log"), "wb")
        # A bystander in the agent's process group, and a child of the same parent
        leader = subprocess.Popen(["/bin/sleep", "120"], preexec_fn=lambda: os.setpgid(0, 0), stdin=subprocess.DEVNULL, stdout=log, stderr=log)
        agent = subprocess.Popen([sys.executable, script, path, "--log-level", "DEBUG", "-s", api.url, "-m", server.url, "--serial", "s", "--auth", "a", "--remote-dir", home, "run"],
                                 env=env, cwd=home, preexec_fn=lambda: os.setpgid(0, leader.pid), stdin=subprocess.DEVNULL, stdout=log, stderr=log)
        try:
            ctx.check(api.wait(lambda: api.requests, 60.0), "the agent made no API request", log=open(log.name, "rb").read()[-2000:])
            real_sleep(1.2)
            ctx.check(agent.poll() is None, "the agent ended by itself", status=agent.poll(), log=open(log.name, "rb").read()[-2000:])
            about = dict(kind=kind, state=state)
            if kind == "large":
                size = rng.choice([LIMIT + 1, 400.0, 86400.0])
                set_offset(size)
                started = monotonic()
                while agent.poll() is None and monotonic() < started + 15.0:
                    real_sleep(0.01)
                took = monotonic() - started
                ctx.check(agent.poll() is not None, "the clock jumped forward and the agent process still runs", size=size, **about)
                ctx.check(agent.poll() == -signal.SIGKILL, "the agent did not die of SIGKILL", status=agent.poll(), log=open(log.name, "rb").read()[-2000:], **about)
                ctx.count("processes killed")
            else:
                total = 0.0
                for step in range({"series": 3}.get(kind, 1)):
                    total += {"small": 170.0, "series": 150.0, "backward": -5000.0}[kind]
                    set_offset(total)
                    real_sleep(2.3)
                    ctx.check(agent.poll() is None, "the agent ended though the clock did not jump far forward", status=agent.poll(), total=total, log=open(log.name, "rb").read()[-2000:], **about)
                ctx.count("processes spared")
            ctx.check(leader.poll() is None, "another process was killed", status=leader.poll(), **about)
            ctx.case((kind, state, number))
        finally:
            release.set()
            for child in (agent, leader):
                if child.poll() is None:
                    child.kill()
                child.wait()
            log.close()
            server.close()
            api.close()
    ctx.require("processes killed", 2)
    ctx.require("processes spared", 2)


def run(ctx, shard):
    if shard.startswith("virtual"):
        virtual(ctx, shard)
    else:
        process(ctx, shard)
