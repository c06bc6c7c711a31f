"""C17: terminal processes never outlive their channel."""
import os
import signal
import threading

from vf import safety, sweep, terminals, timewarp, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one terminal whose channel is closed, or whose connection is lost, at some moment: right behind the request to "
        "open it, while it starts (every line of starting is tried), during output, with input pending, when its process has "
        "already exited. The processes obey hang-ups, note them, ignore them, are stopped, or exit slowly. The process table is "
        "watched until neither process nor zombie remains, the hang-up and the kill are recorded, and other terminals must go on. "
        "The agent's clock runs 10 times faster. Non-trivial: distinct (kind of process, moment, way of closing).")
SHARDS = {"quick": ["closing1", "closing2", "lost", "kinds", "sweep"],
          "thorough": ["kinds", "sweep", "lost", "lost2"] + ["closing%d" % i for i in range(6)]}
K = 10.0
LIMIT = 25.0


def children():
    """(pid, state) of the agent's children, zombies too."""
    ours, out = os.getpid(), []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as fh:
                    fields = fh.read().rsplit(")", 1)[1].split()
                if int(fields[1]) == ours and fields[0] != "X":
                    out.append((int(name), fields[0]))
            except (OSError, IOError):
                pass
    return out


def exists(pid):
    return os.path.exists("/proc/%d" % pid)


class Watch(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.base = set(p for p, _s in children())

    def rest(self, allowed=()):
        return [c for c in children() if c[0] not in self.base and c[0] not in allowed]

    def all_gone(self, allowed=(), **witness):
        self.ctx.wait(lambda: not self.rest(allowed), LIMIT, "a terminal's process or zombie remains after its channel closed",
                      remaining=self.rest, allowed=list(allowed), kills=lambda: safety.kills[-6:], log=lambda: list(world.log_lines)[-8:], **witness)


def open_terminal(w, hub, number, modes=()):
    w.m2m.add_terminal("t%d" % number, hub.command(number, *modes))
    w.conn.instruct("open-terminal", name=b"t%d" % number, port=number, size=[80, 24])


def inside_of(ctx, w, hub, number):
    inside = hub.get(number, 30.0)
    ctx.check(inside is not None, "the terminal's process did not start", log=list(world.log_lines)[-8:])
    return inside


def kinds(ctx):
    """Each kind of process, established and then closed."""
    rng = ctx.rng()
    hub = terminals.Hub(ctx.dir("hub"))
    watch = Watch(ctx)
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        number = 0
        for repeat in range(ctx.pick(2, 12)):
            group = []
            for kind in ("obeys", "notes", "ignores", "stubborn", "stopped", "slow", "gone", "gone-input", "shell", "flooding"):
                number += 1
                modes = {"notes": ("hup-note", "stubborn"), "ignores": ("ignore-SIGHUP", "stubborn"),
                         "stubborn": ("ignore-SIGHUP", "ignore-SIGTERM", "ignore-SIGINT", "ignore-SIGQUIT", "stubborn"),
                         "slow": ("hup-note",)}.get(kind, ())
                if kind == "shell":
                    conn.instruct("open-terminal", name=b"shell", port=number)
                    conn.route(number, b"sleep 1000 & echo pid $$.\n")
                    ok = conn.wait(lambda: b"\npid " in conn.sent_on(number) and b"." in conn.sent_on(number).split(b"\npid ")[1], 20.0)
                    ctx.check(ok, "the shell did not start", sent=conn.sent_on(number))
                    pid, inside = int(conn.sent_on(number).split(b"\npid ")[1].split(b".")[0]), None
                else:
                    open_terminal(w, hub, number, modes)
                    inside = inside_of(ctx, w, hub, number)
                    pid = inside.pid
                if kind == "stopped":
                    os.kill(pid, signal.SIGSTOP)
                elif kind.startswith("gone"):
                    inside.tell("exit 3")
                    inside.wait(lambda: inside.gone)
                    real_sleep(0.05)
                    if kind == "gone-input":
                        conn.route(number, b"anyone?")
                elif kind == "flooding":
                    inside.tell("write 1 3000000")
                group.append((kind, number, pid, inside))
            w.sync()
            rng.shuffle(group)
            by_pid = {pid: kind for kind, _n, pid, _i in group}
            mark = len(safety.kills)
            while group:
                kind, n, pid, inside = group.pop()
                closed_at = monotonic()
                conn.send("notify_close", n)
                if rng.random() < 0.2:
                    conn.send("notify_close", n)
                w.sync()
                if kind == "slow":
                    inside.wait(lambda: "hup" in inside.notes, LIMIT)
                    inside.tell("exit 0")
                if kind == "notes":
                    inside.wait(lambda: "hup" in inside.notes, LIMIT)
                    ctx.check("hup" in inside.notes, "the process was not sent a hang-up", notes=inside.notes)
                ctx.wait(lambda: not exists(pid), LIMIT, "a terminal's process or zombie remains after its channel closed", kind=kind, pid=pid,
                         state=lambda: [c for c in children() if c[0] == pid], log=lambda: list(world.log_lines)[-8:])
                sent = [s for p, s in safety.kills[mark:] if p == pid]
                if kind in ("ignores", "stubborn", "stopped", "notes"):
                    ctx.check(sent.count(signal.SIGKILL) >= 1, "the process that did not exit was not killed", kind=kind, signals=sent)
                    ctx.check(monotonic() - closed_at >= 0.4, "the process was killed without a grace period", kind=kind, seconds=monotonic() - closed_at)
                elif kind in ("slow", "obeys", "shell"):
                    ctx.check(signal.SIGKILL not in sent or monotonic() - closed_at > 1.2, "a process that exits after the hang-up was killed", kind=kind, signals=sent)
                if kind in ("ignores", "stubborn", "stopped", "notes", "slow", "obeys", "shell", "flooding"):
                    ctx.check(sent and sent[0] == signal.SIGHUP, "the first signal was not a hang-up", kind=kind, signals=sent)
                strangers = [(p, s) for p, s in safety.kills[mark:] if p not in by_pid or p in [g[2] for g in group]]
                ctx.check(not strangers, "a signal was sent to another process", signals=strangers, closed=pid)
                for _kind, _n, other, other_inside in group:
                    ctx.check(exists(other), "closing one terminal ended another's process", closed=kind, other=_kind)
                    if other_inside is not None and _kind in ("obeys", "notes", "ignores", "slow"):
                        ctx.check(other_inside.ask_size() is not None and "hup" not in other_inside.notes, "closing one terminal disturbed another's process",
                                  closed=kind, other=_kind, notes=other_inside.notes)
                ctx.count("closed")
                ctx.case((kind, len(group), repeat), sample={"process": kind, "signals": sent})
            watch.all_gone()
    ctx.require("closed", 10)


def closing(ctx, shard):
    """Closed at random moments from the request on; numbers are reused."""
    rng = ctx.rng()
    hub = terminals.Hub(ctx.dir("hub"))
    watch = Watch(ctx)
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        open_terminal(w, hub, 1, ("hup-note",))
        bystander = inside_of(ctx, w, hub, 1)
        serial = 1
        mark = len(safety.kills)
        jitter = sweep.Jitter(ctx.rng("j"), 0.03, 0.004, files=("proxy.py", "remoteprocess.py", "m2mmanager.py"))
        with jitter:
            for round_number in range(ctx.pick(14, 120)):
                plans = []
                for _ in range(rng.choice([1, 2, 3, 5])):
                    number = rng.randrange(2, 8)
                    modes = rng.choice([(), (), ("hup-note", "stubborn"), ("ignore-SIGHUP", "stubborn")])
                    serial += 1
                    w.m2m.add_terminal("x%d" % serial, hub.command("x%d" % serial, *modes))
                    if number in [p[0] for p in plans]:
                        # on an open channel a second terminal would take the first one's place
                        conn.send("notify_close", number)
                    conn.instruct("open-terminal", name=b"x%d" % serial, port=number, size=[80, 24])
                    delay = rng.choice([0, 0, 0.001, 0.005, 0.01, 0.02, 0.04, 0.08])
                    if rng.random() < 0.5:
                        conn.route(number, b"some input\n")
                    if delay and rng.random() < 0.5:
                        real_sleep(delay * rng.random())
                    if rng.random() < 0.6:
                        conn.send("notify_close", number)
                    plans.append((number, serial, modes, delay))
                for number, _serial, _modes, delay in plans:
                    if rng.random() < 0.4:
                        real_sleep(delay)
                    conn.send("notify_close", number)
                w.sync()
                watch.all_gone(allowed=(bystander.pid,), plans=plans)
                # what was started late must not come after its channel has gone
                real_sleep(0.02)
                watch.all_gone(allowed=(bystander.pid,), plans=plans)
                ctx.check(exists(bystander.pid) and "hup" not in bystander.notes and bystander.ask_size() is not None,
                          "closing terminals disturbed another's process", notes=bystander.notes)
                strangers = [k for k in safety.kills[mark:] if k[0] == bystander.pid or k[0] <= 1]
                ctx.check(not strangers, "a signal was sent to another terminal's process", signals=strangers)
                ctx.count("terminals", len(plans))
                ctx.case([(p[0], p[2], p[3]) for p in plans] + [round_number], sample={"plans (channel, id, process, delay)": plans})
        conn.send("notify_close", 1)
        bystander.tell("exit 0")
        watch.all_gone()
        ctx.count("preemptions", jitter.stops)
        ctx.count("signals", len(safety.kills) - mark)
    ctx.require("terminals", 20)


def lost(ctx, shard):
    rng = ctx.rng()
    hub = terminals.Hub(ctx.dir("hub"))
    watch = Watch(ctx)
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        serial = 0
        jitter = sweep.Jitter(ctx.rng("j"), 0.02, 0.004, files=("proxy.py", "remoteprocess.py", "m2mmanager.py"))
        with jitter:
            for round_number in range(ctx.pick(12, 100)):
                opened = []
                for number in range(1, rng.randrange(2, 6)):
                    serial += 1
                    modes = rng.choice([(), ("hup-note", "stubborn"), ("ignore-SIGHUP", "stubborn")])
                    w.m2m.add_terminal("y%d" % serial, hub.command("y%d" % serial, *modes))
                    conn.instruct("open-terminal", name=b"y%d" % serial, port=number, size=[80, 24])
                    opened.append((number, serial, modes))
                moment = rng.choice(["at once", "starting", "running", "busy"])
                if moment == "starting":
                    real_sleep(rng.random() * 0.05)
                elif moment in ("running", "busy"):
                    for _number, s, _modes in opened:
                        inside = inside_of(ctx, w, hub, "y%d" % s)
                        if moment == "busy":
                            inside.tell("write 3 2000000")
                how = rng.choice(wsserver.ENDINGS)
                conn.end(how)
                conn = w.join(identity=rng.choice([None, b"l%d" % round_number]))
                w.sync()
                watch.all_gone(how=how, moment=moment, opened=opened)
                # a new one, on a number used before, is not disturbed by the old ones' ends
                serial += 1
                open_terminal(w, hub, 1000 + serial, ("hup-note",))
                inside = inside_of(ctx, w, hub, 1000 + serial)
                real_sleep(0.05)
                ctx.check("hup" not in inside.notes and inside.ask_size() is not None, "a later terminal was hung up", notes=inside.notes)
                conn.send("notify_close", 1000 + serial)
                inside.wait(lambda: "hup" in inside.notes)
                inside.tell("exit 0")
                watch.all_gone()
                ctx.count("losses")
                ctx.count("terminals", len(opened) + 1)
                ctx.case((how, moment, len(opened), round_number), sample={"lost by": how, "moment": moment, "terminals": len(opened)})
    ctx.require("losses", 8)


def sweeps(ctx):
    """The channel closes at every line of starting the terminal."""
    from dataplicity.limiter import Limiter
    from dataplicity.m2m import remoteprocess, wsclient
    hub = terminals.Hub(ctx.dir("hub"))
    watch = Watch(ctx)

    class Recorder(object):
        def channel_write(self, number, body):
            pass

        def channel_control_write(self, number, body):
            pass

        def close_channel(self, number):
            pass

    for modes in ((), ("ignore-SIGHUP", "stubborn")):
        k = 0
        while True:
            k += 1
            channel = wsclient.Channel(Recorder(), 1)
            limiter = Limiter("terminals", 5)
            limiter.increment()
            process = remoteprocess.RemoteProcess(limiter, hub.command("s%d%d" % (k, len(modes)), *modes), channel, size=[70, 20])
            done = threading.Event()

            def close():
                channel.on_close()
                done.set()
            one, two, where, lines = sweep.preempt(process.run, close, k, files=("proxy.py", "remoteprocess.py"), patience=0.05, timeout=LIMIT, lead=0.25)
            ctx.check(one is not None and two is not None, "a terminal did not end after its channel closed", where=where, modes=modes, remaining=watch.rest(),
                      stacks=world.stacks)
            ctx.check(two[1] is None, "closing raised", error=repr(two[1]), where=where)
            watch.all_gone(where=where, modes=modes)
            ctx.count("schedules")
            ctx.case((modes, k), nontrivial=where is not None, sample={"process": modes, "closed at": where})
            if where is None or k > 300 or ctx.spent():
                break
    ctx.require("schedules", 30)


def run(ctx, shard):
    world.load(k=K)
    if shard == "kinds":
        kinds(ctx)
    elif shard.startswith("closing"):
        closing(ctx, shard)
    elif shard.startswith("lost"):
        lost(ctx, shard)
    else:
        sweeps(ctx)
