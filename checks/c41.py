"""C41: transfers of remote files survive the agent's being killed."""
import errno
import json
import os
import signal
import sys
import threading

from vf import apiserver, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is a history of uploads and downloads over a websocket with an agent process that is killed: at the n-th line of the code it runs for them, at a random time, between "
        "two requests, and again while it recovers. A new agent takes over; what had been acknowledged must still hold, what had not must be possible to ask for again, and the remote "
        "directory may show only complete files, each once. Non-trivial: distinct (history, moment of death).")
SHARDS = {"quick": ["lines1", "lines2", "lines3", "times", "other-disk"], "thorough": ["lines%d" % i for i in range(1, 6)] + ["times", "other-disk", "other-disk2"]}


def zygote(commands, answers):
    """A process without threads that makes agents: one at a time, killed on request."""
    world.load()
    from dataplicity import client
    reader, writer = os.fdopen(commands, "r"), os.fdopen(answers, "w")
    pid = None
    while True:
        line = reader.readline()
        if not line:
            break
        spec = json.loads(line)
        if spec["do"] == "start":
            pid = os.fork()
            if pid == 0:
                try:
                    agent(client, spec)
                finally:
                    os._exit(3)
            writer.write(json.dumps({"pid": pid}) + "\n")
        elif spec["do"] == "kill":
            os.kill(pid, signal.SIGKILL)
            writer.write("{}\n")
        elif spec["do"] == "wait":
            _pid, status = os.waitpid(pid, 0)
            writer.write(json.dumps({"status": status}) + "\n")
        writer.flush()
    os._exit(0)


def agent(client, spec):
    if spec.get("other_disk"):
        real_rename = os.rename

        def rename(source, destination, *args, **options):
            if os.path.dirname(os.path.abspath(source)) != os.path.dirname(os.path.abspath(destination)) and os.path.abspath(destination).startswith(spec["remote"]):
                raise OSError(errno.EXDEV, "Invalid cross-device link")
            return real_rename(source, destination, *args, **options)
        os.rename = os.replace = rename
    if spec.get("line"):
        import shutil
        files = (os.path.join(os.environ["VF_REPO"], "dataplicity", "remote_directory.py"), shutil.__file__)
        lines = [0]

        def local(frame, event, arg):
            if event == "line":
                lines[0] += 1
                if lines[0] == spec["line"]:
                    os._exit(9)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename in files else None
        threading.settrace(trace)
    client.Client(rpc_url=spec["rpc"], m2m_url=spec["m2m"], serial="serial-0001", auth_token="auth-token-0001", remote_directory_path=spec["remote"])
    while True:
        real_sleep(1000)


class Died(Exception):
    pass


class Upload(object):
    def __init__(self, ident, content):
        self.ident, self.content = ident, content
        self.state = "opening"


class Download(object):
    def __init__(self, ident, name, content, chunks):
        self.ident, self.name, self.content, self.chunks = ident, name, content, chunks
        self.device_path = b""
        self.next = 0       # the first chunk that isn't acknowledged
        self.final_sent = False
        self.stored = None


class History(object):
    def __init__(self, ctx, rng, tools, server, api, other_disk):
        self.ctx, self.rng, self.server, self.api = ctx, rng, server, api
        self.commands, self.answers = tools
        self.other_disk = other_disk
        self.remote = os.path.join(os.path.realpath(ctx.dir("remote")), "remote")
        os.mkdir(self.remote)
        os.mkdir(os.path.join(self.remote, "sub"))
        self.serial = 0
        self.joins = 0
        self.files = {}     # what the remote directory shows
        self.uploads, self.downloads = [], []
        self.steps = []
        self.conn = None
        for name in ("a.txt", "sub/b.bin"):
            self.put(name)

    def put(self, name):
        self.files[name] = self.content()
        with open(os.path.join(self.remote, name), "wb") as fh:
            fh.write(self.files[name])

    def content(self):
        self.serial += 1
        return b"<%d>" % self.serial + self.rng.randbytes(self.rng.choice([0, 10, 5000, 5000, 200000, 1500000]))

    def fail(self, what, **witness):
        self.ctx.fail(what, steps=self.steps, log_of="agent process", shown=sorted(self.shown()), **witness)

    # -- the agent ----------------------------------------------------------
    def tell(self, **spec):
        self.commands.write(json.dumps(spec) + "\n")
        self.commands.flush()
        return json.loads(self.answers.readline())

    def start(self, line=None):
        self.conn = None
        self.tell(do="start", line=line, rpc=self.api.url, m2m=self.server.url, remote=self.remote, other_disk=self.other_disk)
        known = len(self.server.conns)
        if not self.server.wait(lambda: [c for c in self.server.conns[known - 1 if known else 0:] if not c.closed and c.packets("request_join")], 60.0):
            self.fail("a new agent does not join after another was killed")
        self.conn = [c for c in self.server.conns if not c.closed and c.packets("request_join")][-1]
        self.conn.send("welcome")

    def gone(self):
        """Wait for its end."""
        self.tell(do="wait")
        self.server.wait(lambda: self.conn.closed, 20.0)

    def kill(self):
        self.tell(do="kill")
        self.gone()

    def result(self, name, wanted):
        """The answer to a request, or Died."""
        conn = self.conn
        found = conn.wait(lambda: [e.packet for e in conn.packets(name) if wanted(e.packet)] or conn.closed, 60.0)
        if not found:
            self.fail("a request was not answered", request=name)
        if found is True:
            found = [e.packet for e in conn.packets(name) if wanted(e.packet)]
            if not found:
                raise Died()
        return found[-1]

    # -- requests -----------------------------------------------------------
    def open(self, upload, path):
        self.steps.append("open %s" % upload.ident)
        ident = upload.ident.encode()
        seen = len(self.conn.packets("open_remote_file_result"))
        self.conn.send("open_remote_file", ident, path.encode())
        self.conn.wait(lambda: len(self.conn.packets("open_remote_file_result")) > seen or self.conn.closed, 60.0)
        packet = self.result("open_remote_file_result", lambda p: p[1] == ident)
        if packet[3] or packet[2] != len(upload.content):
            self.fail("a remote file could not be opened, or has another size", upload=upload.ident, result=packet, size=len(upload.content))
        upload.state = "open"

    def read(self, upload):
        ident, size = upload.ident.encode(), len(upload.content)
        for offset in [0, self.rng.randrange(size)]:
            self.serial += 1
            length = 10 ** 7 + self.serial if offset == 0 else 1000000 + self.serial    # (tells the requests apart)
            self.conn.send("read_remote_file", ident, offset, length)
            packet = self.result("read_remote_file_result", lambda p: p[1] == ident and p[2] == offset and p[3] == length)
            self.ctx.count("reads")
            if packet[5] or packet[4] != upload.content[offset:offset + length]:
                self.fail("an opened remote file does not read as when it was opened", upload=upload.ident, offset=offset, failed=packet[5], reason=packet[6], got=packet[4][:40], got_bytes=len(packet[4]),
                          want=upload.content[offset:offset + 40], want_bytes=size - offset)

    def close(self, upload):
        self.steps.append("close %s" % upload.ident)
        upload.state = "closing"
        self.conn.send("close_remote_file", upload.ident.encode())
        self.serial += 1
        token = b"closed-%d" % self.serial
        self.conn.send("ping", token)
        self.result("pong", lambda p: p[1] == token)
        upload.state = "closed"

    def write(self, download):
        """The next chunk."""
        number = download.next
        offset, data = download.chunks[number]
        final = number == len(download.chunks) - 1
        if final:
            download.final_sent = True
            download.free = self.free(download.name)
        ident = download.ident.encode()
        seen = len(self.conn.packets("write_remote_file_result"))
        self.steps.append("write %s %d%s" % (download.ident, number, " final" if final else ""))
        self.conn.send("write_remote_file", ident, download.name.encode(), download.device_path, offset, data, int(final))
        self.conn.wait(lambda: len(self.conn.packets("write_remote_file_result")) > seen or self.conn.closed, 60.0)
        found = self.conn.packets("write_remote_file_result")[seen:]
        if not found:
            if self.conn.closed:
                raise Died()
            self.fail("a request was not answered", request="write_remote_file")
        packet = found[-1].packet
        if packet[5]:
            self.fail("a part of a download was refused", download=download.ident, chunk=number, result=packet)
        download.device_path = packet[4]
        download.next += 1
        if final:
            self.stored(download, True)

    def free(self, name):
        """Under what name it will be stored."""
        base, ext = os.path.splitext(name)
        names = [name] + ["%s(%d)%s" % (base, n, ext) for n in range(1, 101)]
        return next(n for n in names if n not in self.files)

    def shown(self):
        out = {}
        for parent, directories, files in os.walk(self.remote):
            for name in files:
                if not name.startswith("."):
                    path = os.path.join(parent, name)
                    with open(path, "rb") as fh:
                        out[os.path.relpath(path, self.remote)] = fh.read()
        return out

    def stored(self, download, must):
        """Is it there, complete and once?"""
        shown = self.shown()
        extra = sorted(set(shown) - set(self.files))
        if extra not in ([], [download.free]) or must and not extra:
            self.fail("a finished download is not stored under the name it should have" if must else "files appeared that should not", download=download.ident, extra=extra, want=download.free)
        if extra and shown[download.free] != download.content:
            self.fail("the remote directory shows a download that is not what was sent", download=download.ident, got_bytes=len(shown[download.free]), want_bytes=len(download.content))
        if extra:
            self.files[download.free] = download.content
            download.stored = download.free
        return bool(extra)

    def intact(self):
        shown = self.shown()
        changed = sorted(n for n in set(shown) | set(self.files) if shown.get(n) != self.files.get(n))
        if changed:
            self.fail("the remote directory shows something else than complete files", names=changed, sizes={n: (len(shown[n]) if n in shown else None, len(self.files[n]) if n in self.files else None) for n in changed})

    # -- histories ----------------------------------------------------------
    def upload(self):
        self.serial += 1
        name = self.rng.choice(sorted(self.files))
        upload = Upload("up-%d" % self.serial, self.files[name])
        upload.name = name
        self.uploads.append(upload)
        self.open(upload, name)

    def download(self):
        self.serial += 1
        content = self.content()
        cuts = sorted(self.rng.randrange(len(content) + 1) for _ in range(self.rng.randrange(0, 4)))
        chunks = [(a, content[a:b]) for a, b in zip([0] + cuts, cuts + [len(content)])]
        if self.rng.random() < 0.3:
            # The order does not matter, but that the last comes last
            self.rng.shuffle(chunks)
        if self.rng.random() < 0.3:
            chunks.append((len(content), b""))
        self.downloads.append(Download("down-%d" % self.serial, self.rng.choice(["new.txt", "a.txt", "sub/c.bin", "sub/b.bin", "no-ext", "x.tar.gz"]), content, chunks))

    def step(self):
        rng = self.rng
        pending = [d for d in self.downloads if d.stored is None]
        opened = [u for u in self.uploads if u.state == "open"]
        kind = rng.choice(["upload", "upload", "read", "close", "change", "download", "write", "write", "write", "write"])
        if kind == "upload":
            self.upload()
        elif kind == "read" and opened:
            self.read(rng.choice(opened))
        elif kind == "close" and opened:
            self.close(rng.choice(opened))
        elif kind == "change" and self.files:
            name = rng.choice(sorted(self.files))
            self.steps.append("change " + name)
            if rng.random() < 0.5:
                self.put(name)
            else:
                os.remove(os.path.join(self.remote, name))
                del self.files[name]
                if not self.files:
                    self.put("a.txt")
        elif kind == "download" or kind == "write" and not pending:
            self.download()
        elif kind == "write":
            self.write(rng.choice(pending))

    def recover(self):
        """What was acknowledged holds; the rest is asked for again."""
        for download in self.downloads:
            if download.stored is None and download.final_sent:
                self.stored(download, False)
                if download.stored is not None:
                    self.ctx.count("stored_without_answer")
        self.intact()
        for upload in self.uploads:
            if upload.state == "open":
                self.read(upload)
                self.ctx.count("uploads_resumed")
            elif upload.state == "opening":
                if upload.name in self.files:
                    upload.content = self.files[upload.name]
                    self.open(upload, upload.name)
                    self.read(upload)
                else:
                    upload.state = "closed"
            elif upload.state == "closing":
                self.close(upload)
        for download in self.downloads:
            if download.stored is None and self.rng.random() < 0.7:
                self.ctx.count("downloads_resumed", 1 if download.next else 0)
                while download.stored is None:
                    self.write(download)
        self.intact()

    def end(self):
        """Everything is finished by the last agent, and nothing stays on the way."""
        for download in self.downloads:
            while download.stored is None:
                self.write(download)
        self.upload()
        self.download()
        while self.downloads[-1].stored is None:
            self.write(self.downloads[-1])
        for upload in self.uploads:
            if upload.state == "open":
                self.read(upload)
                self.close(upload)
        self.intact()
        temporary = os.path.realpath(os.environ["TMPDIR"])
        left = [name for area in ("dataplicity_remote", "dataplicity_remote_downloads") if os.path.isdir(os.path.join(temporary, area)) for name in os.listdir(os.path.join(temporary, area))]
        if left:
            self.fail("transfers that are over left files behind", left=left)


def run(ctx, shard):
    # The zygote must not have threads
    command_read, command_write = os.pipe()
    answer_read, answer_write = os.pipe()
    if os.fork() == 0:
        os.close(command_write)
        os.close(answer_read)
        try:
            zygote(command_read, answer_write)
        finally:
            os._exit(3)
    os.close(command_read)
    os.close(answer_write)
    tools = os.fdopen(command_write, "w"), os.fdopen(answer_read, "r")
    rng = ctx.rng()
    server = wsserver.WSServer()
    api = apiserver.ApiServer(apiserver.ok_response)
    histories = 0
    while histories < ctx.pick(70, 500) and not ctx.spent(60.0, 450.0):
        histories += 1
        other = shard.startswith("other") or rng.random() < 0.15
        h = History(ctx, rng, tools, server, api, other)
        deaths = []
        for life in range(rng.choice([1, 1, 2, 3])):
            line = None if shard == "times" else rng.choice([rng.randrange(1, 60), rng.randrange(1, 300), rng.randrange(1, 700)])
            h.start(line)
            timer = None
            if line is None and rng.random() < 0.8:
                timer = threading.Timer(rng.random() * rng.choice([0.03, 0.1, 0.3]), lambda: h.tell(do="kill"))
                timer.name = "vf-timer"
                timer.start()
            try:
                with ctx.guard("a history", 200.0):
                    if life:
                        h.recover()
                    for _ in range(rng.randrange(2, 22)):
                        h.step()
                how = "between requests"
            except Died:
                how = "line %d" % line if line else "time"
                ctx.count("died_at_line" if line else "died_at_a_time")
            if timer is not None:
                timer.join()
                h.gone()
            elif how == "between requests":
                try:
                    h.kill()
                except OSError:
                    pass
                ctx.count("killed_between_requests")
            else:
                h.gone()
            deaths.append(how)
            h.steps.append("-- died: " + how)
        h.start()
        with ctx.guard("the end of a history", 200.0):
            try:
                h.recover()
                h.end()
            except Died:
                h.fail("the agent died of its own")
        h.kill()
        with server.cond:
            del server.conns[:]
            del server.log[:]
        with api.cond:
            del api.requests[:]
        ctx.case(key=(histories, tuple(h.steps)), sample={"steps": h.steps[:40], "deaths": deaths})
        ctx.count("histories")
    ctx.require("histories", 5)
    ctx.require("reads", 10)
