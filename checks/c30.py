"""C30: ended services leave no threads, descriptors or processes behind."""
import gc
import os
import threading

os.environ["DATAPLICITY_LIMIT_SERVICES"] = "9"
os.environ["DATAPLICITY_LIMIT_TERMINALS"] = "4"

from vf import localserver, sweep, terminals, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one round: a random history of terminals, commands, file reads, port forwards, echoes, uploads, downloads, scans and refused "
        "requests, ended in random ways (by themselves, by error, by closing the channel at any moment, by losing the connection), after which "
        "threads, descriptors, child processes, zombies and open channels must be those of before. Rounds add up, so a leak grows. The agent's clock runs 20 "
        "times faster. Non-trivial: distinct (services, endings).")
SHARDS = {"quick": ["mixed1", "mixed2", "lost", "kinds", "early"], "thorough": ["mixed%d" % i for i in range(1, 5)] + ["lost", "lost2", "kinds", "early"]}
K = 20.0
LIMIT = 25.0


def children():
    ours, out = os.getpid(), []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as fh:
                    text = fh.read()
                fields = text.rsplit(")", 1)[1].split()
                if int(fields[1]) == ours and fields[0] != "X":
                    out.append("%s %s %s" % (name, text.split("(")[1].split(")")[0], fields[0]))
            except (OSError, IOError):
                pass
    return out


def descriptors():
    out = []
    for name in os.listdir("/proc/self/fd"):
        try:
            out.append("%s %s" % (name, os.readlink("/proc/self/fd/" + name)))
        except OSError:
            pass
    return out


def socket_ends():
    """inode -> local and remote port, of the connections the kernel knows."""
    out = {}
    for table in ("tcp", "tcp6"):
        try:
            with open("/proc/self/net/" + table) as fh:
                lines = fh.read().splitlines()[1:]
        except (OSError, IOError):
            continue
        for line in lines:
            fields = line.split()
            out[fields[9]] = (int(fields[1].rsplit(":", 1)[1], 16), int(fields[2].rsplit(":", 1)[1], 16), fields[3])
    return out


def threads():
    # (threads of the harness come and go)
    return ["%s %d" % (t.name, t.ident or 0) for t in threading.enumerate() if not t.name.startswith("vf-")]


def forget():
    """
    PyPy's dicts can keep the last value deleted from them alive, and a forwarded
    connection's socket is closed when the collector finds it: rebuild the one
    dict that has all threads, and let SLACK sockets be in others.
    """
    with threading._active_limbo_lock:
        threading._active = dict(threading._active)
    gc.collect()


SLACK = 3


class Books(object):
    def __init__(self, ctx, w, servers):
        self.ctx, self.w, self.servers = ctx, w, servers
        self.base = None

    def now(self):
        out = {"threads": threads(), "children": children(), "descriptors": descriptors()}
        channels = getattr(self.w.ws, "channels", None)
        if isinstance(channels, dict):
            out["channels"] = [str(n) for n in list(channels)]
        return out

    def open_books(self):
        """What there is when nothing runs (waits until that is stable)."""
        last, since = None, monotonic()
        while monotonic() < since + 20.0:
            gc.collect()
            counts = {k: len(v) for k, v in self.now().items()}
            if counts != last:
                last, stable = counts, monotonic()
            elif monotonic() > stable + 0.6:
                break
            real_sleep(0.05)
        self.base = self.now()

    def excess(self):
        now = self.now()
        slack = {"descriptors": self.slack(now["descriptors"])}
        return {name: sorted(set(now[name]) - set(self.base[name]))[:12] + ["(%d, were %d)" % (len(now[name]), len(self.base[name]))]
                for name in now if len(now[name]) > len(self.base[name]) + slack.get(name, 0)}

    def slack(self, now):
        """Sockets that are not connected to anything any more, up to SLACK."""
        known = socket_ends()
        gone = [d for d in now if "socket:[" in d and d.split("[")[1].rstrip("]") not in known and d not in self.base["descriptors"]]
        return min(len(gone), SLACK)

    def balance(self, **witness):
        deadline = monotonic() + LIMIT
        turn = 0
        while True:
            if turn % 8 == 0:
                forget()
            turn += 1
            # The harness's own ends of forwarded connections
            for server in self.servers:
                with server.cond:
                    peers, server.peers[:] = list(server.peers), []
                for peer in peers:
                    peer.close()
            extra = self.excess()
            if not extra:
                return
            if monotonic() > deadline:
                self.ctx.fail("ended services left something behind: " + ", ".join(sorted(extra)), excess=extra, ends=socket_ends(), ports=[s.port for s in self.servers], log=list(world.log_lines)[-15:],
                              stacks={k: v for k, v in world.stacks().items() if "descriptors" in extra or "threads" in extra}, **witness)
            real_sleep(0.03)


class Round(object):
    """One history; knows what is still open."""

    def __init__(self, ctx, w, rng, hub, servers, number):
        self.ctx, self.w, self.rng, self.hub, self.servers = ctx, w, rng, hub, servers
        self.conn = w.conn
        self.number = number
        self.open = {}
        self.answered = set()
        self.uploads = []
        self.history = []
        self.files = servers

    def channel(self, kind):
        self.number += 1
        self.open[self.number] = kind
        return self.number

    def start(self, kind=None, which=None):
        ctx, rng, conn, w = self.ctx, self.rng, self.conn, self.w

        def pick(details):
            return rng.choice(details) if which is None else which
        kind = kind or rng.choice(["command", "command", "read", "forward", "forward", "terminal", "terminal", "echo", "upload", "download", "scan", "instruction", "refused", "data"])
        detail = None
        if kind == "command":
            detail = pick(["true", "echo hello", "exit 3", "exec sleep 1000", "yes | head -c 300000", "exec cat", "kill -9 $$", "exec 1>&-; exec sleep 0.2", "nonsense-command", "yes", "cat /dev/zero",
                                 "exec 1>&- 2>&-; exec sleep 1000", "yes >&2"])
            conn.instruct("run-command", command=detail.encode(), port=self.channel(kind))
        elif kind == "read":
            detail = pick([self.w.small, self.w.big, "/nonexistent", "/", "/dev/zero", "/root/secret", "/proc/self/mem", "relative", ""])
            conn.instruct("read-file", path=detail.encode(), port=self.channel(kind))
        elif kind == "forward":
            detail = pick(["server", "server", "server", "closed", "odd", "named", "unknown"])
            number = self.channel(kind)
            if detail == "server":
                conn.instruct("open-portredirect", device_port=rng.choice(self.servers).port, m2m_port=number)
            elif detail == "closed":
                conn.instruct("open-portredirect", device_port=self.w.no_port, m2m_port=number)
            elif detail == "odd":
                conn.instruct("open-portredirect", device_port=rng.choice([-1, 70000, 0, b"x"]), m2m_port=number)
            else:
                conn.instruct("open-portforward", service=b"svc" if detail == "named" else b"nope", route=[b"n", 1, b"d", number])
            if rng.random() < 0.5:
                conn.route(number, b"x" * rng.choice([1, 100, 200000]))
        elif kind == "terminal":
            detail = pick(["plain", "plain", "ignores", "shell", "missing", "nobody", "unknown", "unquoted"])
            number = self.channel(kind)
            conn.instruct("open-terminal", name=detail.encode(), port=number, size=[80, 24])
            if rng.random() < 0.5:
                conn.route(number, b"y" * rng.choice([1, 100, 100000]))
            if rng.random() < 0.2:
                conn.send("route_control", number, rng.choice([b'{"type": "window_resize", "size": [10, 20]}', b"{", b"[]"]))
        elif kind == "echo":
            number = self.channel(kind)
            conn.instruct("open-echo", port=number)
            conn.route(number, b"echo")
        elif kind == "upload":
            self.number += 1
            detail = pick(["f.txt", "f.txt", "none", "../f.txt", ".", "sub"])
            name = b"up-%d" % self.number
            conn.send("open_remote_file", name, detail.encode())
            self.uploads.append(name)
            for _ in range(rng.randrange(3)):
                conn.send("read_remote_file", name, rng.choice([0, 5, 10 ** 7]), rng.choice([1, 1000]))
        elif kind == "download":
            self.number += 1
            name, path = b"down-%d" % self.number, rng.choice([b"new.txt", b"sub/new.txt", b"none/new.txt", b"../x"])
            conn.send("write_remote_file", name, path, b"", 0, b"data", 0)
            conn.send("write_remote_file", name, path, b"", 4, b"more", 1)
        elif kind == "scan":
            if rng.random() < 0.5:
                conn.instruct("scan-directory")
            else:
                conn.send("scan_remote_directory")
        elif kind == "instruction":
            conn.instruct(rng.choice(["sync", "nothing", "open-terminal", "run-command"]))
        elif kind == "refused":
            # More than the limits allow
            for _ in range(rng.choice([5, 12])):
                if rng.random() < 0.5:
                    conn.instruct("run-command", command=b"exec sleep 1000", port=self.channel("command"))
                else:
                    conn.instruct("open-terminal", name=b"plain", port=self.channel("terminal"))
        elif kind == "data":
            number = self.channel(kind)
            conn.route(number, b"to nobody")
            conn.send("notify_open", number)
        self.history.append((kind, detail))

    def act(self):
        """Something happens to what is open."""
        rng, conn = self.rng, self.conn
        kind = rng.choice(["close", "close", "close", "data", "peer close", "peer reset", "peer write", "exit", "write", "pause"])
        if kind == "close" and self.open:
            self.close(rng.choice(sorted(self.open)))
        elif kind == "data" and self.open:
            conn.route(rng.choice(sorted(self.open)), b"z" * rng.choice([0, 1, 5000]))
        elif kind.startswith("peer"):
            peers = [p for s in self.servers for p in s.peers]
            if peers:
                peer = rng.choice(peers)
                try:
                    if kind == "peer close":
                        peer.close()
                    elif kind == "peer reset":
                        peer.reset()
                    else:
                        peer.write(b"w" * rng.choice([1, 5000]))
                except OSError:
                    pass
        elif kind in ("exit", "write"):
            insides = [i for i in self.hub.all if not i.gone]
            if insides:
                rng.choice(insides).tell("exit 0" if kind == "exit" else rng.choice(["write 1 1000", "write-exit 2 100000"]))
        elif kind == "pause":
            real_sleep(rng.random() * 0.05)
        self.answer()

    def answer(self):
        """The server closes channels as the agent asks."""
        for entry in self.conn.packets("request_close"):
            number = entry.packet[1]
            if number in self.open:
                self.close(number)

    def close(self, number):
        self.open.pop(number)
        self.conn.send("notify_close", number)
        if self.rng.random() < 0.1:
            self.conn.send("notify_close", number)

    def finish(self, lose=None):
        if lose:
            self.conn.end(lose)
            self.open.clear()
            self.w.join()
            self.conn = self.w.conn
        for name in self.uploads:
            self.conn.send("close_remote_file", name)
        for number in sorted(self.open):
            self.close(number)
        self.w.sync()
        for server in self.servers:
            with server.cond:
                peers, server.peers[:] = list(server.peers), []
            for peer in peers:
                peer.close()
        del self.hub.all[:]
        self.hub.inside.clear()
        with self.w.server.cond:
            # The harness's own books
            del self.conn.entries[20:-50]
            del self.w.server.log[:-50]


def prepare(ctx, w):
    hub = terminals.Hub(ctx.dir("hub"))
    servers = [localserver.LocalServer() for _ in range(2)]
    w.client.port_forward.add_service("svc", servers[0].port)
    w.client.m2m.add_terminal("plain", hub.command("plain", "raw"))
    w.client.m2m.add_terminal("ignores", hub.command("ignores", "ignore-SIGHUP", "stubborn"))
    w.client.m2m.add_terminal("missing", "/nowhere/no-such-command")
    w.client.m2m.add_terminal("unquoted", "'no closing quote")
    w.client.m2m.add_terminal("nobody", "true", user="no-such-user-here")
    w.no_port = localserver.unused_port()
    with open(os.path.join(w.remote_dir, "f.txt"), "w") as fh:
        fh.write("f" * 5000)
    os.mkdir(os.path.join(w.remote_dir, "sub"))
    w.small, w.big = os.path.join(w.home, "small"), os.path.join(w.home, "big")
    with open(w.small, "wb") as fh:
        fh.write(b"small")
    with open(w.big, "wb") as fh:
        fh.write(b"b" * 5000000)
    return hub, servers


KINDS = ["command", "read", "forward", "terminal", "echo", "upload", "download", "scan", "instruction", "data"]


def mixed(ctx, shard):
    lossy = shard.startswith("lost")
    for world_number in range(ctx.pick(1, 3)):
        rng = ctx.rng(str(world_number))
        with world.World(ctx) as w:
            w.join()
            w.sync()
            hub, servers = prepare(ctx, w)
            books = Books(ctx, w, servers)
            number = 1000
            for turn in range(-2, ctx.pick(22, 60)):
                this = Round(ctx, w, rng, hub, servers, number)
                if turn < 0:
                    # Whatever is imported or opened once and kept
                    for kind in KINDS * 2:
                        this.start(kind)
                    real_sleep(0.2)
                    this.answer()
                    lose = "fin" if turn == -2 else None
                elif shard == "kinds":
                    kind = (KINDS + ["refused"])[turn % 11]
                    for _ in range(rng.choice([1, 4, 8])):
                        this.start(kind)
                        if rng.random() < 0.7:
                            this.act()
                    if rng.random() < 0.5:
                        real_sleep(0.1)
                    lose = None
                else:
                    for _ in range(rng.randrange(1, 14)):
                        this.start()
                        for _ in range(rng.choice([0, 0, 1, 2, 5])):
                            this.act()
                    if rng.random() < 0.4:
                        real_sleep(rng.choice([0.02, 0.2]))
                        this.answer()
                    lose = rng.choice(wsserver.ENDINGS) if lossy or rng.random() < 0.15 else None
                this.finish(lose)
                number = this.number
                if turn < 0:
                    real_sleep(0.5)
                    books.open_books()
                    continue
                with ctx.guard("the end of a round", 200.0):
                    books.balance(history=this.history, lost=lose, turn=turn)
                ctx.count("rounds")
                ctx.count("services", len(this.history))
                ctx.case(tuple(this.history) + (lose,), sample={"history": this.history, "lost": lose})
            hub.close()
            for server in servers:
                server.close()
    ctx.require("rounds", 10)
    ctx.require("services", 20)


def early(ctx, shard):
    """Channels closed, or connections lost, at a random moment right after the request, under injected delays."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        w.join()
        w.sync()
        hub, servers = prepare(ctx, w)
        books = Books(ctx, w, servers)
        number = 1000
        for turn in range(-1, ctx.pick(25, 200)):
            this = Round(ctx, w, rng, hub, servers, number)
            kinds = KINDS * 2 if turn < 0 else [rng.choice(["command", "read", "forward", "terminal"])] * rng.choice([1, 3])
            lose = None if turn < 0 or rng.random() < 0.7 else rng.choice(["fin", "reset", "mid-frame"])
            jitter = sweep.Jitter(ctx.rng("j%d" % turn), 0.08 if turn >= 0 else 0.0, 0.004, files=("proxy.py", "remoteprocess.py", "commandservice.py", "fileservice.py", "portforward.py", "m2mmanager.py"))
            with jitter:
                for kind in kinds:
                    this.start(kind)
                if turn < 0:
                    real_sleep(0.3)
                delay = rng.choice([0, 0, 0.001, 0.003, 0.01, 0.03])
                if delay:
                    real_sleep(delay)
                if not lose:
                    for channel in sorted(this.open):
                        this.close(channel)
                this.finish(lose)
            number = this.number
            if turn < 0:
                real_sleep(0.5)
                books.open_books()
                continue
            books.balance(history=this.history, lost=lose, turn=turn, delay=delay)
            ctx.count("rounds")
            ctx.case(tuple(this.history) + (lose, delay))
        hub.close()
        for server in servers:
            server.close()
    ctx.require("rounds", 10)


def run(ctx, shard):
    ctx.become(65534, 65534)
    world.load(k=K)
    if shard == "early":
        early(ctx, shard)
    else:
        mixed(ctx, shard)
