"""C38: other users of the device can neither read nor change remote files on their way."""
import json
import os
import stat
import tempfile

from vf import neighbour, world
from vf.core import monotonic, real_sleep

RULE = ("A case is one history of uploads, downloads and scans of private files while a process of another user looks at everything in the shared temporary directory all the time, "
        "knows all names, and, in most histories, was there first: with directories, files, fifos or links, its own or pointing to the agent's own files, under the names the agent uses (learnt "
        "from a first history). It must never have read, or been able to write, anything of the agent's; no file elsewhere may have changed; what is served or stored must be the true "
        "contents; and once the traps are gone everything must work. Non-trivial: distinct (trap, place, umask, history).")
SHARDS = {"quick": ["watch1", "watch2", "traps1", "traps2", "traps3", "learnt"], "thorough": ["watch1", "watch2", "watch3", "traps1", "traps2", "traps3", "traps4", "traps5", "learnt", "learnt2"]}
AREAS = ["dataplicity_remote", "dataplicity_remote_downloads"]
SCAN = "__dataplicity_remote_directory_scan___.json"
LIMIT = 30.0
MARK = b"private:"


class Life(object):
    """An agent and a neighbour with a shared directory."""

    def __init__(self, ctx, rng, uids):
        self.ctx, self.rng = ctx, rng
        self.serial = 0
        self.history = []
        self.shared = tempfile.tempdir
        self.neighbour = neighbour_of(ctx)
        self.w = world.World(ctx, compress=False)
        self.conn = self.w.join()
        self.root = self.w.remote_dir
        os.chmod(self.root, rng.choice([0o700, 0o755]))
        self.home = ctx.dir("precious")
        os.chmod(self.home, 0o755)
        self.precious = {}
        # What must not be harmed. (Some can be read by others, but not written)
        for name in self.names() + ["other", SCAN]:
            text = b"precious %s %d" % (name.encode(), rng.randrange(1 << 30))
            self.precious[name] = text
            with open(os.path.join(self.home, name), "wb") as fh:
                fh.write(text)
            os.chmod(os.path.join(self.home, name), 0o600)
        self.picture = self.precious_now()

    def names(self):
        """The ids that will be used."""
        return ["id-%d" % n for n in range(1, 25)]

    def precious_now(self):
        out = {}
        for name in sorted(os.listdir(self.home)):
            path = os.path.join(self.home, name)
            with open(path, "rb") as fh:
                out[name] = (fh.read(), oct(os.lstat(path).st_mode))
        return out, oct(os.lstat(self.home).st_mode)

    def next_id(self):
        self.serial += 1
        return "id-%d" % self.serial

    def body(self):
        size = self.rng.choice([0, 1, 300, 5000, 200000])
        return (MARK + b"%d:" % self.rng.randrange(1 << 40) + os.urandom(16) * (size // 16 + 1))[:max(size, len(MARK))]

    def result(self, name, *request):
        before = len(self.conn.entries)
        self.conn.send(*request)
        if not self.conn.barrier(LIMIT):
            self.ctx.fail("the agent stopped answering", request=repr(request)[:200], history=self.history, stacks=world.stacks)
        found = [e.packet[1:] for e in self.conn.entries[before:] if e.kind == "packet" and e.name == name]
        self.ctx.check(len(found) == 1, "a request did not get exactly one result", request=repr(request)[:200], results=len(found), history=self.history)
        return found[0]

    def upload(self, keep=False):
        """A file of the remote directory is fetched by the server. Returns whether it could be."""
        ident, data = self.next_id(), self.body()
        name = "file-%d" % self.serial
        with open(os.path.join(self.root, name), "wb") as fh:
            fh.write(data)
        os.chmod(os.path.join(self.root, name), self.rng.choice([0o600, 0o600, 0o644]))
        got = self.result("open_remote_file_result", "open_remote_file", ident.encode(), name.encode())
        self.history.append(("upload", ident, len(data), got[2]))
        if got[2]:
            return False
        self.ctx.check(got[1] == len(data), "a snapshot has another size than its file", got=got, want=len(data), history=self.history[-6:])
        if self.rng.random() < 0.5:
            real_sleep(0.01)
        for _ in range(2):
            offset = self.rng.randrange(len(data) + 1)
            read = self.result("read_remote_file_result", "read_remote_file", ident.encode(), offset, 100000)
            if read[4]:
                self.history.append(("read failed", ident))
                return False
            self.ctx.check(read[3] == data[offset:offset + 100000], "what the server got is not the file", history=self.history[-6:], got=read[3][:80], want=data[offset:offset + 80])
            self.ctx.count("reads")
        if not keep:
            self.conn.send("close_remote_file", ident.encode())
            self.conn.barrier(LIMIT)
        self.ctx.count("uploads")
        return True

    def download(self, continued=False, finish=True):
        """The server writes a file. Returns whether it could."""
        ident, data = self.next_id(), self.body()
        name = "stored-%d" % self.serial
        path = b"" if not continued else os.path.join(self.shared, AREAS[1], ident).encode()
        step = self.rng.choice([len(data), len(data) // 2 + 1, len(data) // 3 + 1])
        chunks = [(i, data[i:i + step]) for i in range(0, len(data), step)]
        for number, (offset, chunk) in enumerate(chunks):
            final = number == len(chunks) - 1
            if final and not finish:
                break
            got = self.result("write_remote_file_result", "write_remote_file", ident.encode(), name.encode(), path, offset, chunk, int(final))
            if got[4]:
                self.history.append(("download failed", ident, number, bytes(got[5])[:100]))
                return False
            path = got[3]
            if self.rng.random() < 0.3:
                real_sleep(0.005)
        self.history.append(("download", ident, len(data), finish))
        if finish:
            place = os.path.join(self.root, name)
            with open(place, "rb") as fh:
                stored = fh.read()
            self.ctx.check(stored == data and not os.path.islink(place) and os.lstat(place).st_uid == os.geteuid(), "what was stored is not what the server wrote", history=self.history[-6:],
                           got=stored[:80], link=os.path.islink(place))
        self.ctx.count("downloads")
        return True

    def scan(self, serve=True):
        """The directory is listed and the listing fetched. Returns whether it worked."""
        before = len(self.conn.packets("scan_remote_directory_result"))
        name = "listed-%d-%d" % (self.serial, self.rng.randrange(1 << 30))
        open(os.path.join(self.root, name), "w").close()
        self.conn.send("scan_remote_directory")
        if not self.conn.wait(lambda: len(self.conn.packets("scan_remote_directory_result")) > before, LIMIT):
            self.ctx.fail("a scan was not answered", history=self.history, log=list(world.log_lines)[-10:])
        error = self.conn.packets("scan_remote_directory_result")[-1].packet[1]
        self.history.append(("scan", error[:60]))
        if error:
            return False
        ident = self.next_id()
        got = self.result("open_remote_file_result", "open_remote_file", ident.encode(), b"\0scan.json")
        if got[2]:
            return False
        text = b""
        while len(text) < got[1]:
            read = self.result("read_remote_file_result", "read_remote_file", ident.encode(), len(text), 200000)
            if read[4] or not read[3]:
                return False
            text += read[3]
        self.conn.send("close_remote_file", ident.encode())
        self.conn.barrier(LIMIT)
        document = json.loads(text.decode())
        self.ctx.check(name in text.decode() and document.get("root") == os.path.realpath(self.root), "the listing the server got is not the published one", start=text[:100], history=self.history[-6:])
        self.ctx.count("scans")
        return True

    def act(self):
        kind = self.rng.choice(["upload", "upload", "kept", "download", "download", "unfinished", "scan"])
        if self.serial >= 22:
            return None
        return {"upload": self.upload, "kept": lambda: self.upload(keep=True), "download": self.download, "unfinished": lambda: self.download(finish=False), "scan": self.scan}[kind]()

    def judge(self, why):
        self.neighbour.ask("look")
        seen = self.neighbour.found("read", "writable", "listed")
        self.ctx.check(not seen, "another user can get at what the agent stores", found=seen[:4], why=why, history=self.history[-8:])
        self.ctx.check(self.precious_now() == self.picture, "the agent was made to change files elsewhere", why=why, history=self.history[-8:],
                       changed=[n for n in set(self.precious_now()[0]) | set(self.picture[0]) if self.precious_now()[0].get(n) != self.picture[0].get(n)][:5])
        for area in AREAS:
            path = os.path.join(self.shared, area)
            if os.path.isdir(path) and not os.path.islink(path) and os.lstat(path).st_uid == self.neighbour.uid:
                for name in os.listdir(path):
                    mine = os.lstat(os.path.join(path, name)).st_uid == os.geteuid()
                    self.ctx.check(not mine, "the agent stored a file in another user's directory", path=os.path.join(path, name), why=why, history=self.history[-8:])

    def end(self):
        self.w.stop()
        self.neighbour.close()


_spare = []


def neighbour_of(ctx):
    return _spare.pop()


def prepare(ctx, lives):
    """Neighbours must be made while we are root. Each has a shared directory, as /tmp is."""
    made = []
    for number in range(lives):
        shared = ctx.dir("shared")
        made.append((shared, neighbour.Neighbour(64990, shared)))
    ctx.become(64100, 64100)
    for shared, _n in made:
        os.chmod(shared, 0o1777)
    for path in (ctx.scratch, os.path.dirname(ctx.scratch)):
        os.chmod(path, 0o711)
    return made


def watch(ctx, rng, life, umask):
    for position in range(ctx.pick(14, 20)):
        worked = life.act()
        ctx.check(worked is not False, "a request failed although nothing was in its way", history=life.history[-4:], log=list(world.log_lines)[-8:])
        life.judge("watching")
        ctx.case(("watch", umask, life.history[-1][0], position, rng.random()), sample=life.history[-2:])


TRAPS = ["their directory", "their open directory", "their directory of links", "link to ours", "link to theirs", "dangling link", "their file", "fifo", "our lax directory"]


def spring(life, trap, area):
    """Lay a trap under the name of one of the agent's directories. Returns how to take it away."""
    n, shared, home = life.neighbour, life.shared, life.home
    path = os.path.join(shared, area)
    if trap == "their directory":
        n.ask("mkdir", path=path, mode=0o755)
    elif trap == "their open directory":
        n.ask("mkdir", path=path, mode=0o777)
        for name in life.names()[::3]:
            n.ask("file", path=os.path.join(path, name), text="planted by the neighbour", mode=0o666)
    elif trap == "their directory of links":
        n.ask("mkdir", path=path, mode=0o777)
        for name in life.names():
            n.ask("link", path=os.path.join(path, name), target=os.path.join(home, name))
    elif trap == "link to ours":
        n.ask("link", path=path, target=home)
    elif trap == "link to theirs":
        n.ask("mkdir", path=os.path.join(shared, "den"), mode=0o777)
        n.ask("link", path=path, target=os.path.join(shared, "den"))
    elif trap == "dangling link":
        n.ask("link", path=path, target=os.path.join(home, "new"))
    elif trap == "their file":
        n.ask("file", path=path, text="planted", mode=0o666)
    elif trap == "fifo":
        n.ask("fifo", path=path)
    elif trap == "our lax directory":
        # Left by an earlier version
        os.mkdir(path)
        os.chmod(path, 0o755)

        def away():
            pass
        return away

    def away():
        n.ask("remove", path=path)
        n.ask("remove", path=os.path.join(shared, "den"))
    return away


def traps(ctx, rng, life, umask, deck):
    trap = deck.pop()
    areas = rng.choice([AREAS, AREAS, AREAS[:1], AREAS[1:]])
    why = (trap, tuple(areas), umask)
    away = [spring(life, trap, area) for area in areas]
    outcomes = []
    if trap == "our lax directory":
        # It may be found open before it is first used, but not afterwards
        outcomes += [life.upload(), life.download()]
        life.neighbour.ask("forget")
        with life.neighbour.cond:
            life.neighbour.events[:] = [e for e in life.neighbour.events if e["event"] != "listed"]
    for position in range(ctx.pick(6, 8)):
        kind = rng.choice(["act", "act", "upload", "download", "continued"])
        outcomes.append({"act": life.act, "upload": life.upload, "download": life.download, "continued": lambda: life.download(continued=True)}[kind]())
        life.judge(why)
        if life.serial > 14:
            break
    for undo in away:
        undo()
    ctx.check(life.upload() and life.download() and life.scan(), "requests fail though nothing is in their way any more", why=why, history=life.history[-6:], log=list(world.log_lines)[-8:])
    life.judge(why)
    ctx.count("refused" if False in outcomes else "not hindered")
    ctx.case((why, repr(outcomes)), sample=life.history[-4:])


def learnt(ctx, rng, life, umask, known):
    """Links under all names a former agent used, above all those it used only for a moment."""
    names = sorted(known)
    target = rng.choice(["precious", "theirs", "new"])
    planted = []
    for name in names:
        if rng.random() < 0.7:
            goal = {"precious": os.path.join(life.home, "other"), "theirs": os.path.join(life.shared, "den"), "new": os.path.join(life.home, "new")}[target]
            if target == "theirs":
                life.neighbour.ask("file", path=goal, text="planted", mode=0o666)
            life.neighbour.ask("link", path=os.path.join(life.shared, name), target=goal)
            planted.append(name)
    why = ("links", target, tuple(planted), umask)
    for _ in range(3):
        life.scan()
        life.upload()
        life.download()
        life.judge(why)
        den = os.path.join(life.shared, "den")
        if os.path.exists(den):
            with open(den) as fh:
                ctx.check(fh.read() == "planted", "the agent wrote to a file of another user", why=why)
    for name in planted + ["den"]:
        life.neighbour.ask("remove", path=os.path.join(life.shared, name))
    ctx.check(life.upload() and life.download() and life.scan(), "requests fail though nothing is in their way any more", why=why, history=life.history[-6:], log=list(world.log_lines)[-8:])
    life.judge(why)
    ctx.count("links laid", len(planted))
    ctx.case(why, sample=why)


def run(ctx, shard):
    rng = ctx.rng()
    made = prepare(ctx, ctx.pick(6, 30))
    tempfile.tempdir = made[0][0]
    world.load()
    known = {AREAS[0], AREAS[1], SCAN}
    for function in ("rename", "replace"):
        def note(source, target, _real=getattr(os, function), **options):
            # A name used for a moment only
            if os.path.dirname(os.path.abspath(source)) == tempfile.tempdir:
                known.add(os.path.basename(source))
            return _real(source, target, **options)
        setattr(os, function, note)
    deck = []
    for number, (shared, other) in enumerate(made):
        if ctx.spent(50.0, 500.0):
            other.close()
            continue
        tempfile.tempdir = os.environ["TMPDIR"] = shared
        umask = rng.choice([0o022, 0o022, 0o077, 0o000, 0o002])
        os.umask(umask)
        _spare[:] = [other]
        life = Life(ctx, rng, None)
        other.ask("names", names=life.names())
        ctx.count("umask %03o" % umask)
        started = monotonic()
        try:
            if shard.startswith("traps"):
                if not deck:
                    deck = list(TRAPS)
                    rng.shuffle(deck)
                traps(ctx, rng, life, umask, deck)
            elif shard.startswith("watch") or number == 0:
                watch(ctx, rng, life, umask)
            else:
                learnt(ctx, rng, life, umask, known)
            known.update(os.path.relpath(e["path"], shared) for e in other.found("seen") if os.path.dirname(e["path"]) == shared)
            known.discard("den")
            ctx.count("looks", other.ask("rounds")["rounds"])
            ctx.count("things seen", len(other.found("seen")))
        finally:
            os.umask(0o022)
            life.end()
    ctx.require("looks", 50)
    ctx.require("uploads")
    ctx.require("scans" if not shard.startswith("traps") else "downloads")
