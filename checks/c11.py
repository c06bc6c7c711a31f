"""C11: service and terminal slots are never exceeded and always returned."""
import os
import socket
import struct
import threading

from vf import world, wsserver
from vf.core import monotonic, real_sleep, real_time

RULE = ("A case is one request for a service or terminal under a small limit. Rounds fill every slot with commands, file reads "
        "and port forwards (or terminals) that the check holds open, send further requests that must all be refused with a "
        "message before the close and must start nothing, then end the running ones in every way (normal end, error, killed, "
        "closed channel, local close or reset, lost connection, failure to start a thread, process or pty), after which the "
        "next round must be able to fill exactly the full capacity again. Floods of short requests record their own running "
        "intervals, whose overlap must stay within the limit. Non-trivial: distinct (kind, way of ending, limit, outcome).")
SHARDS = {"quick": ["services-1", "services-2", "services-4", "flood-3", "terminals-1", "terminals-3", "terminals-flood-2",
                    "sweep-2"],
          "thorough": ["services-1", "services-2", "services-3", "services-5", "services-9", "flood-1", "flood-3", "flood-8",
                       "terminals-1", "terminals-2", "terminals-3", "terminals-6", "terminals-flood-2", "sweep-1", "sweep-2"]}

fail_threads = {"on": False, "hits": 0}


def install_thread_failure():
    real_start = threading.Thread.start

    def start(self):
        if fail_threads["on"] and threading.current_thread().name == "m2m":
            fail_threads["hits"] += 1
            raise RuntimeError("can't start new thread")
        return real_start(self)
    threading.Thread.start = start


slow_ports = {}


def install_slow_connect():
    """Connecting to some ports takes its time (and then fails)."""
    real_connect = socket.socket.connect

    def connect(self, address):
        if isinstance(address, tuple) and address[1] in slow_ports:
            real_sleep(slow_ports[address[1]])
        return real_connect(self, address)
    socket.socket.connect = connect


def forward(w, rng, port, number):
    """Request a connection to a port, by its number or by the name of a service."""
    manager = getattr(w.client, "port_forward", None)
    if hasattr(manager, "add_service") and rng.random() < 0.5:
        name = "vf-%d" % number
        manager.add_service(name, port)
        w.conn.instruct("open-portforward", service=name.encode(), route=[b"node", 1, b"device", number])
        return
    w.conn.instruct("open-portredirect", device_port=port, m2m_port=number)


class Service(object):
    """One request, and how the check holds, observes and ends it."""

    def __init__(self, h, kind, number):
        self.h, self.kind, self.number = h, kind, number
        self.ended = None
        self.pf = None
        self.fd = None
        self.path = os.path.join(h.dir, "%s-%d" % (kind, number))

    def request(self):
        h, conn = self.h, self.h.conn
        if self.kind == "command":
            os.mkfifo(self.path)
            conn.instruct("run-command", port=self.number, command=(
                "touch %s.ran; echo $$; read x < %s; exit 0" % (self.path, self.path)).encode())
        elif self.kind == "file":
            os.mkfifo(self.path)
            conn.instruct("read-file", port=self.number, path=self.path.encode())
        elif self.kind == "forward":
            self.listener = socket.socket()
            self.listener.bind(("127.0.0.1", 0))
            self.listener.listen(5)
            self.listener.setblocking(False)
            forward(h.w, h.rng, self.listener.getsockname()[1], self.number)
        elif self.kind == "terminal":
            conn.instruct("open-terminal", name=b"held", port=self.number, size=[80, 24])
        else:
            raise ValueError(self.kind)

    def started(self):
        """Evidence that it really runs."""
        if self.kind == "command":
            return b"\n" in self.h.conn.sent_on(self.number)
        if self.kind == "file":
            if self.fd is None:
                try:
                    self.fd = os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
                except OSError:
                    pass
            return self.fd is not None
        if self.kind == "forward":
            if self.pf is None:
                try:
                    self.pf = self.listener.accept()[0]
                    self.pf.setblocking(True)
                except OSError:
                    pass
            return self.pf is not None
        return b"up" in self.h.conn.sent_on(self.number)

    def trace(self):
        """Any sign that it was started (also one that is over)."""
        if self.kind == "command":
            return os.path.exists(self.path + ".ran")
        if self.kind == "terminal":
            return b"up" in self.h.conn.sent_on(self.number)
        return self.started()

    def refused(self):
        return bool(self.h.conn.close_requests(self.number))

    def release(self):
        """Let the held thing end, whatever the agent does."""
        if self.kind == "command":
            try:
                fd = os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
                os.write(fd, b"go\n")
                os.close(fd)
            except OSError:
                pass
        elif self.kind == "file":
            if self.fd is not None:
                try:
                    os.write(self.fd, b"last")
                except OSError:
                    pass
                os.close(self.fd)
                self.fd = None
        elif self.kind == "forward":
            if self.pf is not None:
                self.pf.close()
                self.pf = None
            self.listener.close()

    def end(self, how):
        conn = self.h.conn
        self.ended = how
        if how == "normal":
            if self.kind == "terminal":
                conn.route(self.number, b"quit\n")
            else:
                self.release()
        elif how == "killed":
            if self.kind == "command":
                pid = int(conn.sent_on(self.number).split(b"\n")[0])
                os.kill(pid, 9)
            elif self.kind == "forward":
                self.pf.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                self.release()
            elif self.kind == "terminal":
                text = conn.sent_on(self.number)
                os.kill(int(text.split(b"up ")[1].split()[0]), 9)
            else:
                self.release()
        elif how == "channel":
            conn.send("notify_close", self.number)
            self.h.w.sync(conn)
            self.release()
        elif how == "channel-twice":
            if self.kind == "forward":
                self.pf.close()
            conn.send("notify_close", self.number)
            conn.send("notify_close", self.number)
            self.release()
        elif how == "lost":
            pass  # the connection is lost for all, then released
        else:
            raise ValueError(how)


class Harness(object):
    def __init__(self, ctx, w, limit, kinds):
        self.ctx, self.w, self.limit, self.kinds = ctx, w, limit, kinds
        self.rng = ctx.rng("h")
        self.dir = ctx.dir("h")
        self.number = 0
        self.running = []

    @property
    def conn(self):
        return self.w.conn

    def service(self, kind):
        self.number += 1
        return Service(self, kind, self.number)

    def fill(self):
        """Start services until all slots are taken (slots of ended ones may take a moment)."""
        ctx = self.ctx
        deadline = monotonic() + 25
        while len(self.running) < self.limit:
            service = self.service(self.rng.choice(self.kinds))
            service.request()
            self.conn.wait(lambda: service.started() or service.refused(), 20.0)
            if service.started():
                self.running.append(service)
                ctx.count("started")
                ctx.case((service.kind, "started", self.limit, len(self.running)))
                continue
            ctx.check(service.refused(), "a service request neither started nor was refused", kind=service.kind,
                      log=list(world.log_lines)[-10:], stacks=world.stacks)
            self.conn.send("notify_close", service.number)
            service.release()
            ctx.check(monotonic() < deadline, "a slot was never given back", limit=self.limit, running=len(self.running),
                      kinds=[s.kind for s in self.running], trail=self.trail[-12:], log=list(world.log_lines)[-10:])
            real_sleep(0.05)

    trail = []

    def overload(self, count):
        """All slots are taken: further requests are refused and start nothing."""
        ctx = self.ctx
        extra = [self.service(self.rng.choice(self.kinds)) for _ in range(count)]
        for service in extra:
            service.request()
        self.w.sync(self.conn)
        real_sleep(0.12)
        for service in extra:
            started = service.trace()
            ctx.check(not started, "more services ran than the limit", limit=self.limit, kind=service.kind, running=[s.kind for s in self.running],
                      trail=self.trail[-12:])
            ctx.check(self.conn.wait(service.refused, 20.0), "a request beyond the limit was not answered", kind=service.kind)
        self.w.sync(self.conn)
        real_sleep(0.03)
        for service in extra:
            entries = self.conn.on_channel(service.number)
            names = [e.name for e in entries]
            ctx.check(len(names) >= 2 and names[-1] == "request_close" and names.count("request_close") == 1 and
                      any(e.name in ("request_send", "request_send_control") and e.packet[2] for e in entries),
                      "a refused request got no busy message before its channel's close", kind=service.kind, entries=[repr(e) for e in entries])
            ctx.check(not service.trace(), "a refused service was started", kind=service.kind)
            self.conn.send("notify_close", service.number)
            service.release()
            ctx.count("refused")
            ctx.case((service.kind, "refused", self.limit))
        for service in self.running:
            ctx.check(not service.refused(), "a running service was closed by a refused one", kind=service.kind)

    def end_some(self, how_many):
        self.rng.shuffle(self.running)
        lost = self.rng.random() < 0.25
        if lost:
            for service in self.running:
                service.ended = "lost"
                self.trail.append((service.kind, "lost"))
            self.conn.end(self.rng.choice(wsserver.ENDINGS))
            self.w.join(identity=self.rng.choice([None, b"n%d" % self.number]))
            self.w.sync()
            for service in self.running:
                service.release()
                self.ctx.case((service.kind, "lost", self.limit), sample=[service.kind, "connection lost"])
            self.running = []
            return
        for service in self.running[:how_many]:
            how = self.rng.choice(["normal", "killed", "channel", "channel-twice"])
            self.trail.append((service.kind, how))
            service.end(how)
            self.ctx.count("ended")
            self.ctx.case((service.kind, how, self.limit), sample=[service.kind, how])
            if how in ("normal", "killed") and service.kind != "terminal":
                ok = self.conn.wait(service.refused, 20.0)
                self.ctx.check(ok, "an ended service did not ask for its channel's close", kind=service.kind, how=how)
                self.conn.send("notify_close", service.number)
                service.release()
            elif how in ("normal", "killed"):
                real_sleep(0.05)
                self.conn.send("notify_close", service.number)
        self.running = self.running[how_many:]
        self.w.sync(self.conn)

    def failures(self):
        """Requests that fail to start, with and without free slots."""
        rng, conn = self.rng, self.conn
        for _ in range(rng.randrange(1, 5)):
            self.number += 1
            n = self.number
            self.trail.append("failure")
            if "terminal" in self.kinds:
                kind = rng.choice(["missing-program", "bad-syntax", "no-pty", "thread", "bad-user", "empty"])
                if kind == "thread":
                    fail_threads["on"] = True
                    conn.instruct("open-terminal", name=b"held", port=n)
                    self.w.sync(conn)
                    fail_threads["on"] = False
                elif kind == "no-pty":
                    import pty
                    real = pty.fork, os.forkpty

                    def no_fork():
                        raise OSError("out of pty devices")
                    pty.fork = os.forkpty = no_fork
                    conn.instruct("open-terminal", name=b"held", port=n)
                    self.w.sync(conn)
                    real_sleep(0.05)
                    pty.fork, os.forkpty = real
                else:
                    conn.instruct("open-terminal", name=kind.encode(), port=n)
                    self.w.sync(conn)
            else:
                kind = rng.choice(["nul-command", "missing-file", "directory", "refused-port", "thread-command", "thread-file", "thread-forward",
                                   "bad-port", "unknown-service", "exit-3", "slow-refused", "slow-refused-closed", "slow-refused-closed"])
                if kind.startswith("thread"):
                    fail_threads["on"] = True
                if kind in ("nul-command", "thread-command"):
                    conn.instruct("run-command", port=n, command=b"echo \x00" if kind[0] == "n" else b"echo x")
                elif kind == "exit-3":
                    conn.instruct("run-command", port=n, command=b"exit 3")
                elif kind in ("missing-file", "directory", "thread-file"):
                    conn.instruct("read-file", port=n, path=b"/nonexistent/file" if kind[0] == "m" else b"/" if kind[0] == "d" else b"/etc/hostname")
                elif kind == "unknown-service":
                    conn.instruct("open-portforward", service=b"nope", route=[b"a", 1, b"b", n])
                else:
                    closed = socket.socket()
                    closed.bind(("127.0.0.1", 0))
                    port = closed.getsockname()[1]
                    closed.close()
                    if kind.startswith("slow"):
                        slow_ports[port] = 0.15
                    forward(self.w, rng, port if kind != "bad-port" else 99999999, n)
                    if kind == "slow-refused-closed":
                        # the channel is gone by the time it fails
                        conn.send("notify_close", n)
                self.w.sync(conn)
                fail_threads["on"] = False
                if kind == "slow-refused-closed":
                    real_sleep(0.3)
                elif kind != "unknown-service":
                    ok = conn.wait(lambda: conn.close_requests(n), 20.0)
                    self.ctx.check(ok, "a service that failed to start did not ask for its channel's close", kind=kind,
                                   entries=[repr(e) for e in conn.on_channel(n)], log=list(world.log_lines)[-8:])
            self.trail.append(kind)
            conn.send("notify_close", n)
            self.w.sync(conn)
            self.ctx.count("failed_starts")
            self.ctx.case((kind, self.limit), sample=kind)


def talkative(ctx, h):
    """The channel of a forward closes, but its local server, which doesn't care, goes on writing and never closes."""
    for service in h.running:
        service.end("channel")
    h.running = []
    h.fill()
    stop = threading.Event()
    talking = []

    def talk(sock):
        try:
            while not stop.is_set():
                sock.sendall(b"tick\n")
                real_sleep(0.2)
        except OSError:
            pass

    def feed(fd):
        try:
            while not stop.is_set():
                os.write(fd, b"tick\n" * 13000)
        except OSError:
            pass
        os.close(fd)
    for service in h.running:
        if service.kind == "forward":
            thread = threading.Thread(target=talk, args=(service.pf,), name="vf-talk")
            thread.daemon = True
            thread.start()
            talking.append((service.pf, service.listener))
            h.conn.send("notify_close", service.number)
        elif service.kind == "file" and service.fd is not None:
            # an endless one
            os.set_blocking(service.fd, True)
            thread = threading.Thread(target=feed, args=(service.fd,), name="vf-talk")
            thread.daemon = True
            thread.start()
            service.fd = None
            h.conn.send("notify_close", service.number)
        else:
            service.end("channel")
        h.trail.append((service.kind, "channel, still writing"))
    h.running = []
    h.w.sync(h.conn)
    h.fill()
    h.overload(2)
    stop.set()
    for pair in talking:
        for sock in pair:
            sock.close()
    ctx.count("talkative", len(talking))


def rounds(ctx, limit, kinds, count):
    install_thread_failure()
    install_slow_connect()
    with world.World(ctx) as w:
        w.m2m.add_terminal("held", "sh -c 'stty -echo; echo up $$; while read x; do [ \"$x\" = quit ] && exit; done'")
        w.m2m.add_terminal("missing-program", "/nonexistent/program")
        w.m2m.add_terminal("bad-syntax", "sh -c 'unbalanced")
        w.m2m.add_terminal("bad-user", "sh -c 'echo up'", user="no-such-user-here")
        w.m2m.add_terminal("empty", "/bin/false")
        w.join()
        w.sync()
        h = Harness(ctx, w, limit, kinds)
        h.trail = []
        for _ in range(count):
            if h.rng.random() < 0.6:
                h.failures()
            h.fill()
            h.overload(h.rng.randrange(1, 6))
            h.end_some(h.rng.randrange(1, limit + 1))
            ctx.count("rounds")
        if "forward" in kinds:
            talkative(ctx, h)
        h.fill()
        h.overload(2)
        for service in h.running:
            service.end("channel")
    ctx.require("rounds", 3)
    ctx.require("refused", 5)
    ctx.require("started", 5)
    ctx.require("failed_starts", 1)


def flood(ctx, limit, terminals):
    """Many short requests; the things that run record when they ran."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        directory = ctx.dir("flood")
        script = "f=%s/$$-$1; date +%%s%%N > $f; echo up; sleep 0.0$((RANDOM %% 9)); date +%%s%%N >> $f; mv $f $f.done" % directory
        with open(os.path.join(directory, "script"), "w") as fh:
            fh.write(script + "\n")
        w.m2m.add_terminal("short", "bash %s/script" % directory)
        w.sync()
        number = 0
        total = ctx.pick(120, 700)
        closed = set()
        for index in range(total):
            number += 1
            kind = "terminal" if terminals else rng.choice(["command", "command", "missing", "refused"])
            if kind == "terminal":
                conn.instruct("open-terminal", name=b"short", port=number)
            elif kind == "command":
                conn.instruct("run-command", port=number, command=b"bash %s/script %d" % (directory.encode(), number))
            elif kind == "missing":
                conn.instruct("read-file", port=number, path=b"/nonexistent")
            else:
                conn.instruct("open-portredirect", device_port=1, m2m_port=number)
            if rng.random() < 0.25 and not terminals:
                n = rng.randrange(1, number + 1)
                closed.add(n)
                conn.send("notify_close", n)
            real_sleep(rng.choice([0, 0, 0.005, 0.02]))
            ctx.count("requests")
            ctx.case((kind, index))
        w.sync()
        real_sleep(0.5)

        def intervals():
            out = []
            for name in os.listdir(directory):
                if name == "script":
                    continue
                channel = name.split("-")[1].split(".")[0]
                if channel and int(channel) in closed:
                    # what its shell had started may outlive the service
                    continue
                with open(os.path.join(directory, name)) as fh:
                    stamps = [int(s) for s in fh.read().split()]
                if len(stamps) == 2:
                    out.append(tuple(stamps))
            return out
        events = []
        spans = intervals()
        for begin, end in spans:
            events.append((begin, 1))
            events.append((end, -1))
        events.sort()
        level = peak = 0
        for _t, change in events:
            level += change
            peak = max(peak, level)
        ctx.check(peak <= limit, "more services ran at one time than the limit", limit=limit, seen=peak)
        ctx.count("completed", len(spans))
        ctx.check(spans, "nothing ran at all", log=list(world.log_lines)[-10:])
        # Everything has ended: exactly the full capacity is available.
        w.m2m.add_terminal("held", "sh -c 'stty -echo; echo up $$; while read x; do [ \"$x\" = quit ] && exit; done'")
        h = Harness(ctx, w, limit, ["terminal"] if terminals else ["command", "file", "forward"])
        h.number = number
        h.fill()
        h.overload(3)
        for service in h.running:
            service.end("channel")
    ctx.require("completed", 3)
    ctx.require("refused", 3)


def sweeps(ctx, limit):
    """Two threads take or give back slots at each other's every instruction; afterwards the capacity is counted."""
    from vf import sweep
    from dataplicity.limiter import Limiter, LimitReached

    class Failed(Exception):
        pass

    def take(limiter):
        try:
            with limiter():
                pass
        except LimitReached:
            return 0
        return 1

    def take_plainly(limiter):
        try:
            limiter.increment()
        except LimitReached:
            return 0
        return 1

    def fail(limiter):
        try:
            with limiter():
                raise Failed()
        except (Failed, LimitReached):
            return 0

    def give(limiter):
        limiter.decrement()
        return -1
    actions = [take, take_plainly, fail, give]
    for first in actions:
        for second in actions:
            for before in range(limit + 1):
                if before < (first is give) + (second is give):
                    continue
                k = 0
                while True:
                    k += 1
                    limiter = Limiter("slots", limit)
                    for _ in range(before):
                        limiter.increment()
                    one, two, where, lines = sweep.preempt(lambda: first(limiter), lambda: second(limiter), k, files=("limiter.py",), opcodes=True,
                                                           patience=0.02, timeout=20)
                    witness = dict(first=first.__name__, second=second.__name__, held=before, limit=limit, where=where)
                    ctx.check(one is not None and two is not None, "taking or giving back a slot hung", **witness)
                    ctx.check(one[1] is None and two[1] is None, "taking or giving back a slot raised", errors=repr((one[1], two[1])), **witness)
                    held = before + one[0] + two[0]
                    ctx.check(held <= limit, "more slots were handed out than the limit", held_now=held, **witness)
                    free = 0
                    while free <= limit and take(limiter):
                        free += 1
                    ctx.check(held + free == limit, "the capacity left is not the limit less the slots in use", held_now=held, free=free, **witness)
                    ctx.count("schedules")
                    ctx.case((first.__name__, second.__name__, before, k, limit), nontrivial=where is not None)
                    if where is None or ctx.spent():
                        break
    ctx.require("schedules", 60)


def run(ctx, shard):
    name, limit = shard.rsplit("-", 1)
    limit = int(limit)
    variable = "DATAPLICITY_LIMIT_TERMINALS" if name.startswith("terminals") else "DATAPLICITY_LIMIT_SERVICES"
    os.environ[variable] = str(limit)
    world.load()
    if name == "sweep":
        sweeps(ctx, limit)
    elif name == "services":
        rounds(ctx, limit, ["command", "file", "forward"], ctx.pick(10, 60))
    elif name == "terminals":
        rounds(ctx, limit, ["terminal"], ctx.pick(10, 60))
    else:
        flood(ctx, limit, name.startswith("terminals"))
