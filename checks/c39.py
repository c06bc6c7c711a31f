"""C39: a stuck service holds up neither the m2m session nor other services."""
import os
import signal
import socket
import threading

from vf import localserver, terminals, world
from vf.core import monotonic, real_sleep

RULE = ("A case is a round of one to six services that get nowhere (commands that sleep, stop or ignore signals, files that don't answer, stopped terminals that are sent a "
        "megabyte, terminals that ignore the hang-up, local servers that accept or read nothing, scans of a file system that hangs), then poked: sent data and controls, closed, "
        "their numbers used again, the connection lost. All along, pings are timed, and commands, files, terminals, forwards, echoes and remote files, old and new, must be served "
        "within seconds. Non-trivial: distinct rounds.")
SHARDS = {"quick": ["mixed1", "mixed2", "floods", "lost"], "thorough": ["mixed%d" % i for i in range(1, 6)] + ["floods", "lost", "lost2"]}
KINDS = ["sleep", "stopped", "deaf", "daemon", "fifo", "term-stopped", "term-deaf", "silent", "full", "scan", "refuses-end"]
PATIENCE = 4.0          # ordinary work takes well below a tenth of that
PER_FLOOD = 6.5         # a local server that doesn't read is given five seconds

gate = {"event": None, "root": None, "held": 0}


def install_gate():
    real_scandir, real_listdir = os.scandir, os.listdir

    def hold(path):
        event, root = gate["event"], gate["root"]
        if event is not None and not threading.current_thread().name.startswith("vf-"):
            try:
                text = os.fsdecode(os.fspath(path))
            except TypeError:
                return
            if text.startswith(root):
                gate["held"] += 1
                event.wait()

    def scandir(path="."):
        hold(path)
        return real_scandir(path)

    def listdir(path="."):
        hold(path)
        return real_listdir(path)
    os.scandir, os.listdir = scandir, listdir


class Full(object):
    """A listener whose backlog is full: connecting to it gets no answer."""

    def __init__(self):
        self.listener = socket.socket()
        self.listener.bind(("127.0.0.1", 0))
        self.listener.listen(0)
        self.port = self.listener.getsockname()[1]
        self.fillers = []
        for _ in range(4):
            sock = socket.socket()
            sock.setblocking(False)
            sock.connect_ex(("127.0.0.1", self.port))
            self.fillers.append(sock)

    def close(self):
        for sock in self.fillers + [self.listener]:
            sock.close()


class Round(object):
    def __init__(self, ctx, rng, w):
        self.ctx, self.rng, self.w = ctx, rng, w
        self.hub = terminals.Hub(ctx.dir("hub"))
        self.place = ctx.dir("files")
        self.number = 0
        self.floods = 0
        self.closing = []       # what to do at the end
        self.stuck = []         # (kind, number)
        self.history = []
        self.worst = 0.0
        w.m2m.add_terminal("probe", self.hub.command("probe"))

    def next(self):
        self.number += 1
        return self.number

    def patience(self):
        # Nothing says anything when the machine has other work than this
        if os.getloadavg()[0] > 3 * (os.cpu_count() or 1):
            self.ctx.count("patient")
            return 90.0
        return PATIENCE + PER_FLOOD * self.floods

    # -- stuck things -------------------------------------------------------
    def stick(self, kind):
        conn, number = self.w.conn, self.next()
        if kind in ("sleep", "stopped", "deaf", "daemon", "refuses-end"):
            mark = os.path.join(self.place, "pid%d" % number)
            script = {"sleep": "exec sleep 1000", "stopped": "kill -STOP $$; :", "daemon": "sleep 1000 & exec sleep 1000",
                      "deaf": "trap '' HUP TERM INT PIPE; while :; do sleep 1000; done", "refuses-end": "exec >/dev/null 2>&1 </dev/null; sleep 1000; :"}[kind]
            conn.instruct("run-command", port=number, command=b"echo $$ > %s; mv %s %s.ok; %s" % (mark.encode(), mark.encode(), mark.encode(), script.encode()))
            self.await_file(mark + ".ok")
            with open(mark + ".ok") as fh:
                pid = int(fh.read())
            self.closing.append(lambda: kill_tree(pid))
        elif kind == "fifo":
            path = os.path.join(self.place, "fifo%d" % number)
            os.mkfifo(path)
            conn.instruct("read-file", port=number, path=path.encode())

            def release():
                try:
                    os.close(os.open(path, os.O_WRONLY | os.O_NONBLOCK))
                except OSError:
                    pass
            self.closing.append(release)
        elif kind.startswith("term"):
            name = "stuck%d" % number
            self.w.m2m.add_terminal(name, self.hub.command(name, *(["ignore-SIGHUP", "ignore-SIGTERM", "ignore-SIGINT"] if kind == "term-deaf" else [])))
            conn.instruct("open-terminal", name=name.encode(), port=number)
            inside = self.hub.get(name, 60.0)
            self.ctx.check(inside is not None, "a terminal did not start next to services that are stuck", terminal=kind, others=self.stuck, history=self.history,
                           log=list(world.log_lines)[-10:])
            if kind == "term-stopped":
                os.kill(inside.pid, signal.SIGSTOP)
                conn.route(number, b"x" * self.rng.choice([10, 5000, 10 ** 6]))
            self.closing.append(lambda: kill_tree(inside.pid))
        elif kind in ("silent", "flood"):
            server = localserver.LocalServer(paused=True, receive_buffer=4096)
            conn.instruct("open-portredirect", device_port=server.port, m2m_port=number)
            server.peer(0, 60.0)
            conn.route(number, b"hello?")
            self.closing.append(server.close)
            if kind == "flood":
                self.floods += 1
                for _ in range(self.rng.choice([1, 20])):
                    conn.route(number, b"y" * 1000000)
        elif kind == "full":
            full = Full()
            conn.instruct("open-portredirect", device_port=full.port, m2m_port=number)
            conn.route(number, b"z" * self.rng.choice([1, 200000]))
            self.closing.append(full.close)
        elif kind == "scan":
            if gate["event"] is None:
                event = gate["event"] = threading.Event()
                gate["root"] = self.w.remote_dir

                def release():
                    gate["event"] = None
                    event.set()
                self.closing.append(release)
            for _ in range(self.rng.randrange(1, 3)):
                conn.send("scan_remote_directory") if self.rng.random() < 0.5 else conn.instruct("scan-directory")
        self.stuck.append((kind, number))
        self.history.append("%s on %d" % (kind, number))
        self.ctx.count("stuck_" + kind.replace("-", "_"))

    def await_file(self, path):
        limit = monotonic() + 60.0
        while not os.path.exists(path):
            if monotonic() > limit:
                self.ctx.fail("a command did not start next to services that are stuck", stuck=self.stuck, history=self.history, log=list(world.log_lines)[-10:],
                              stacks=world.stacks())
            real_sleep(0.01)

    def poke(self):
        conn, rng = self.w.conn, self.rng
        kind, number = rng.choice(self.stuck)
        how = rng.choice(["data", "control", "close", "close", "again", "reuse"])
        self.history.append("%s %s on %d" % (how, kind, number))
        if how == "data":
            conn.route(number, b"more " * rng.choice([1, 1000]))
        elif how == "control":
            conn.send("route_control", number, rng.choice([b'{"type": "window_resize", "size": [100, 30]}', b"{}", b"junk"]))
        elif how in ("close", "again"):
            conn.send("notify_close", number)
            if how == "again":
                conn.send("notify_close", number)
        else:
            conn.send("notify_close", number)
            conn.instruct("open-echo", port=number)
            self.stuck = [(k, n) for k, n in self.stuck if n != number] or [("echo", number)]
            self.within("an echo service on the number of a stuck one", self.echo, number)
        self.ctx.count("pokes_" + how)

    # -- probes -------------------------------------------------------------
    def within(self, what, probe, *args):
        allowed = self.patience()
        since = monotonic()
        good = probe(allowed, *args)
        took = monotonic() - since
        if (not good or took > allowed) and allowed < 90.0 and os.getloadavg()[0] > 3 * (os.cpu_count() or 1):
            return  # the machine became busy meanwhile
        self.ctx.check(good and took <= allowed, "%s was not served while other services were stuck" % what if not good else "%s was held up by services that are stuck" % what,
                       seconds=round(took, 2), stuck=self.stuck, history=self.history, log=list(world.log_lines)[-12:], stacks=world.stacks())
        if not self.floods:
            self.worst = max(self.worst, took)
        self.ctx.count("probes")
        self.ctx.count("probe_" + what.split()[1])

    def ping(self, allowed):
        return self.w.conn.barrier(allowed)

    def echo(self, allowed, number):
        conn = self.w.conn
        token = b"<%d %d>" % (number, self.rng.randrange(10 ** 9))
        conn.route(number, token)
        return conn.wait(lambda: conn.sent_on(number).endswith(token), allowed)

    def new_echo(self, allowed):
        number = self.next()
        self.w.conn.instruct("open-echo", port=number)
        return self.echo(allowed, number)

    def command(self, allowed):
        conn, number = self.w.conn, self.next()
        conn.instruct("run-command", port=number, command=b"echo served; sleep 0.05; echo well")
        return conn.wait(lambda: conn.close_requests(number), allowed) and conn.sent_on(number) == b"served\nwell\n"

    def file(self, allowed):
        conn, number = self.w.conn, self.next()
        path = os.path.join(self.place, "file%d" % number)
        data = self.rng.randbytes(self.rng.choice([1, 300000]))
        with open(path, "wb") as fh:
            fh.write(data)
        conn.instruct("read-file", port=number, path=path.encode())
        return conn.wait(lambda: conn.close_requests(number), allowed) and conn.sent_on(number) == data

    def terminal(self, allowed):
        conn, number = self.w.conn, self.next()
        name = "probe%d" % number
        self.w.m2m.add_terminal(name, self.hub.command(name))
        conn.instruct("open-terminal", name=name.encode(), port=number)
        inside = self.hub.get(name, allowed)
        if not inside:
            return False
        inside.tell("write %d 1000" % number)
        conn.route(number, b"hello")
        good = conn.wait(lambda: conn.sent_on(number) == terminals.pattern(number, 1000), allowed) and inside.wait(lambda: inside.data() == b"hello", allowed)
        inside.tell("exit 0")
        return good

    def forward(self, allowed):
        conn, number = self.w.conn, self.next()
        server = localserver.LocalServer()
        try:
            conn.instruct("open-portredirect", device_port=server.port, m2m_port=number)
            conn.route(number, b"question")
            peer = server.peer(0, allowed)
            if peer is None or not peer.wait(lambda: peer.data() == b"question", allowed):
                return False
            peer.write(b"answer")
            peer.close_write()
            return conn.wait(lambda: conn.sent_on(number) == b"answer" and conn.close_requests(number), allowed)
        finally:
            server.close()

    def remote_file(self, allowed):
        conn = self.w.conn
        ident = b"%x" % self.rng.randrange(10 ** 12)
        with open(os.path.join(self.w.remote_dir, "there"), "wb") as fh:
            fh.write(ident)
        conn.send("open_remote_file", ident, b"there")
        conn.send("read_remote_file", ident, 0, 100)
        conn.send("close_remote_file", ident)
        return conn.wait(lambda: any(e.packet[1] == ident and e.packet[4] == ident for e in conn.packets("read_remote_file_result")[-5:]), allowed)

    def probe_all(self):
        probes = [("a ping", self.ping), ("a command", self.command), ("a file", self.file), ("a terminal", self.terminal), ("a forward", self.forward),
                  ("a remote file", self.remote_file), ("an echo service", self.new_echo)]
        self.rng.shuffle(probes)
        for what, probe in probes:
            self.within(what, probe)

    def end(self):
        self.ctx.count("listings_held", gate["held"])
        gate["held"] = 0
        for release in self.closing:
            release()
        gate["event"] = None
        self.hub.close()


def kill_tree(pid):
    for group in ([pid], children(pid)):
        for one in group:
            try:
                os.kill(one, signal.SIGKILL)
            except OSError:
                pass


def children(pid):
    try:
        with open("/proc/%d/task/%d/children" % (pid, pid)) as fh:
            return [int(word) for word in fh.read().split()]
    except (OSError, ValueError):
        return []


def round_of(ctx, rng, kinds, pokes, lose=False, floods=0):
    with world.World(ctx) as w:
        r = Round(ctx, rng, w)
        try:
            w.join()
            w.sync()
            elder = r.next()
            w.conn.instruct("open-echo", port=elder)
            for kind in kinds:
                r.stick(kind)
                if kind != "flood":
                    r.within("a ping", r.ping)
            for _ in range(floods):
                r.stick("flood")
            r.probe_all()
            for _ in range(pokes):
                r.poke()
                r.within("a ping", r.ping)
            r.probe_all()
            r.within("an echo service that was there before", lambda allowed: r.echo(allowed, elder))
            if lose:
                since = monotonic()
                how = rng.choice(["reset", "hangup"])
                r.history.append("the connection: " + how)
                getattr(w.conn, how)()
                allowed = r.patience()
                w.joins += 1
                conn = w.server.joined(w.joins, allowed)
                busy = os.getloadavg()[0] > 3 * (os.cpu_count() or 1)
                if conn is None and busy:
                    conn = w.server.joined(w.joins, 90.0)
                ctx.check(conn is not None, "the agent did not come back from a lost connection while services were stuck", seconds=round(monotonic() - since, 2), stuck=r.stuck,
                          history=r.history, log=list(world.log_lines)[-12:], stacks=world.stacks())
                conn.send("set_identity", b"node-again")
                conn.send("welcome")
                w.conn = conn
                ctx.count("connections_lost")
                r.probe_all()
            ctx.case(key=tuple(r.history), sample={"history": r.history, "worst_seconds": round(r.worst, 3)})
        finally:
            r.end()


def run(ctx, shard):
    install_gate()
    world.load()
    rng = ctx.rng()
    ctx.require("probes", 20)
    rounds = 0
    while not ctx.spent(45.0, 400.0) and rounds < ctx.pick(40, 400):
        rounds += 1
        if shard.startswith("mixed"):
            kinds = [KINDS[(rounds - 1) % len(KINDS)]] if rounds <= len(KINDS) else [rng.choice(KINDS) for _ in range(rng.randrange(1, 7))]
            round_of(ctx, rng, kinds, rng.randrange(1, 8))
        elif shard.startswith("lost"):
            kinds = [KINDS[(rounds - 1) % len(KINDS)]] if rounds <= len(KINDS) else [rng.choice(KINDS) for _ in range(rng.randrange(1, 6))]
            round_of(ctx, rng, kinds, rng.randrange(0, 3), lose=True)
        else:
            round_of(ctx, rng, [rng.choice(KINDS) for _ in range(rng.randrange(0, 3))], rng.randrange(0, 3), lose=rounds % 2 == 0, floods=rng.randrange(1, 3))
    ctx.require("connections_lost" if shard.startswith("lost") else "probe_command", 2)
