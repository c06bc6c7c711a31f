"""C21: downloads are assembled exactly and never overwrite anything."""
import errno
import os
import resource
import shutil
import signal
import stat
import sys
import tempfile

from vf import sweep, world
from vf.core import real_sleep

RULE = ("A case is one download: several interleaved ones, contents cut into chunks of any size written in any order with overlaps, "
        "rewrites and gaps, requested names that are free, taken (by files, directories, links, broken links, pipes, many copies), "
        "unusual, too long or in missing folders; disks that fill up, folders that can't be written, renames that fail because the "
        "file systems differ (also without space there, and looked at from each line of the agent's while they are stored), lost connections. A model of the remote directory predicts every file; everything there is compared "
        "after every request. Non-trivial: distinct (chunking, naming situation, outcome).")
SHARDS = {"quick": ["histories1", "histories2", "histories3", "faults", "other-disk"],
          "thorough": ["histories%d" % i for i in range(1, 7)] + ["faults", "faults2", "other-disk", "other-disk2"]}
TRACED = (sweep.REPO, shutil.__file__, tempfile.__file__)
NAMES = ["file.txt", "archive.tar.gz", "noext", ".hidden", ".hidden.txt", "with space.pdf", "новый.док", "dot.", "a(1).txt", "a", "x" * 240 + ".txt", "new\nline.c",
         "$HOME", "~", "-rf", "%s%d.e", "\U0001f600.png", "..x", "x..", "q'\".t", "back\\slash", "*.[a]", "a..b.txt", "..."]


def picture(root):
    """Everything in the remote directory, with the contents of its files."""
    out = {}
    for directory, names, files in os.walk(root):
        for name in names + files:
            path = os.path.join(directory, name)
            info = os.lstat(path)
            kind = stat.S_IFMT(info.st_mode)
            if kind == stat.S_IFREG:
                with open(path, "rb") as fh:
                    out[path] = fh.read()
            elif kind == stat.S_IFLNK:
                out[path] = ("link", os.readlink(path))
            else:
                out[path] = ("special", kind)
    return out


def apply_chunk(body, offset, data):
    if not data:
        return body
    if len(body) < offset:
        body += b"\0" * (offset - len(body))
    return body[:offset] + data + body[offset + len(data):]


class Download(object):
    def __init__(self, ident, path):
        self.ident, self.path = ident, path
        self.device_path = b""
        self.body = b""
        self.plan = []
        self.style = None


class Downloads(object):
    def __init__(self, ctx, w, rng, root=None):
        self.ctx, self.w, self.rng = ctx, w, rng
        self.conn = w.conn
        self.root = os.path.realpath(root or w.remote_dir)
        self.area = os.path.join(os.path.realpath(tempfile.gettempdir()), "dataplicity_remote_downloads")
        self.serial = 0
        self.known = picture(self.root)
        self.watched = None
        on_event = getattr(w.ws, "on_event", None)
        if on_event is not None:
            def watching(event):
                if self.watched is None:
                    return on_event(event)
                sys.settrace(self.trace)
                try:
                    return on_event(event)
                finally:
                    sys.settrace(None)
            w.ws.on_event = watching

    def trace(self, frame, event, arg):
        return self.look if frame.f_code.co_filename.startswith(TRACED) else None

    def look(self, frame, event, arg):
        """At each line while a download is stored: what is there is all of it."""
        target, body, directory, there = self.watched
        self.ctx.count("looks")
        new = [n for n in os.listdir(directory) if n not in there and not n.startswith(".")]
        name = os.path.basename(target)
        if new and not self.seen_partial:
            where = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
            if [n for n in new if n != name]:
                self.seen_partial = dict(where=where, new=new)
            elif os.path.getsize(target) != len(body):
                self.seen_partial = dict(where=where, bytes=os.path.getsize(target))
        return self.look

    def watch(self, target, body):
        directory = os.path.dirname(target)
        if os.path.basename(target).startswith("."):
            return
        self.seen_partial = None
        self.watched = (target, body, directory, set(os.listdir(directory)))

    def unwatch(self, **witness):
        if self.watched is not None:
            self.watched = None
            self.ctx.check(not self.seen_partial, "a part of a download was to be seen in the remote directory", seen=self.seen_partial, **witness)

    def ask(self, d, offset, data, final, path=None):
        request = [d.ident, (d.path if path is None else path), d.device_path, offset, data, final]
        before = len(self.conn.entries)
        self.conn.send("write_remote_file", *request)
        self.w.sync(self.conn)
        results = [e for e in self.conn.entries[before:] if e.kind == "packet" and e.name == "write_remote_file_result"]
        self.ctx.check(len(results) == 1, "a write request did not get exactly one result", request=request, results=results, log=list(world.log_lines)[-6:])
        packet = results[0].packet
        self.ctx.check(packet[1] == d.ident, "a result carries another id", request=request, result=packet)
        self.ctx.check(packet[3] == len(data), "a result carries another chunk size", request=request, result=packet)
        self.ctx.check(packet[2] == (offset if packet[5] else offset + len(data)), "a result carries another position", request=request, result=packet)
        self.ctx.check(packet[5] in (0, 1, 2, 3), "a result has an unknown stage of failure", result=packet)
        self.ctx.check(packet[5] != 0 or packet[6] == b"", "a success carries a reason for failing", result=packet)
        self.ctx.count("results")
        if packet[5] == 0:
            d.device_path = packet[4]
            d.body = apply_chunk(d.body, offset, data)
        return packet

    def verify(self, added=None, **witness):
        """The remote directory is as the model says."""
        now = picture(self.root)
        if added is not None:
            want = dict(self.known)
            want[added[0]] = added[1]
        else:
            want = self.known
        if now != want:
            changed = [p for p in self.known if now.get(p) != self.known[p]]
            self.ctx.check(not changed, "something in the remote directory was changed or removed", changed=changed, before=[self.known[p] for p in changed],
                           after=[now.get(p) for p in changed], **witness)
            new = [p for p in now if p not in self.known]
            if added is None:
                self.ctx.fail("something appeared in the remote directory", new=new, **witness)
            self.ctx.check(new == [added[0]], "the download was not stored under its name", new=new, want=added[0], **witness)
            got = now[added[0]]
            at = next((i for i in range(min(len(got), len(added[1]))) if got[i] != added[1][i]), min(len(got), len(added[1]))) if isinstance(got, bytes) else None
            self.ctx.fail("the stored file does not hold exactly what was written", differs_at=at, got_bytes=len(got), want_bytes=len(added[1]),
                          got=got[at:at + 30] if at is not None else got, want=added[1][at:at + 30] if at is not None else None, **witness)
        self.known = now
        self.ctx.count("pictures")

    def destination(self, path):
        """Where a download of this name has to go."""
        full = os.path.join(self.root, path.decode("utf-8").lstrip("/"))
        directory, name = os.path.split(full)
        if not os.path.isdir(directory):
            directory = self.root
        directory = os.path.realpath(directory)
        base, ext = os.path.splitext(name)
        taken = set(os.listdir(directory))
        number, candidate = 0, name
        while candidate in taken:
            number += 1
            candidate = "%s(%d)%s" % (base, number, ext)
        return os.path.join(directory, candidate), number

    def plan(self, d):
        """Chunks to be written, in order."""
        rng = self.rng
        size = rng.choice([0, 1, 10, 4096, 5000, rng.randrange(60000)] + [700000] * (rng.random() < 0.1))
        data = bytes(rng.getrandbits(8) for _ in range(min(size, 3000)))
        data = (data * (size // len(data) + 1))[:size] if size else b""
        d.style = rng.choice(["single", "order", "order", "shuffled", "reversed", "overlap", "gaps", "rewrite", "empty-chunks"])
        if d.style == "single" or not size:
            return [(0, data)]
        step = max(1, rng.choice([size // 2, size // 3, size // 7, size - 1, 4096, size // 40]))
        chunks = [(i, data[i:i + step]) for i in range(0, size, step)]
        if d.style in ("shuffled", "overlap", "rewrite"):
            rng.shuffle(chunks)
        if d.style == "reversed":
            chunks.reverse()
        if d.style == "overlap":
            chunks = [(max(0, i - rng.randrange(20)), c) for i, c in chunks]
        if d.style == "gaps":
            chunks = [(i * 2 + rng.randrange(5), c) for i, c in chunks]
        if d.style == "rewrite":
            chunks += [(i, bytes(len(c))) for i, c in chunks[:3]] + chunks[:2]
        if d.style == "empty-chunks":
            chunks = [x for c in chunks for x in (c, (rng.choice([0, c[0], 10 * size]), b""))]
        return chunks

    def name(self):
        """(name as sent, situation)"""
        rng = self.rng
        self.serial += 1
        folders = [p for p, v in self.known.items() if v == ("special", stat.S_IFDIR)]
        folder = rng.choice(["", "", ""] + [os.path.relpath(f, self.root) for f in folders] * 3 if folders else [""])
        name = rng.choice(NAMES)
        situation = "free"
        if rng.random() < 0.2:
            name = "%d-%s" % (self.serial, name)
        if rng.random() < 0.15:
            folder, situation = rng.choice(["missing", "missing/deep/er", "file-here", folder + "/missing"]), "missing folder"
        path = os.path.join(folder, name)
        full = os.path.join(self.root, path)
        if rng.random() < 0.3 and not os.path.lexists(full) and os.path.isdir(os.path.dirname(full)):
            kind = rng.choice(["file", "file", "directory", "link", "broken", "pipe", "copies"])
            situation = "taken by " + kind
            if kind in ("file", "copies"):
                with open(full, "wb") as fh:
                    fh.write(b"PRECIOUS %d" % self.serial)
                base, ext = os.path.splitext(full)
                for number in range(1, rng.randrange(1, 12) if kind == "copies" else 1):
                    if rng.random() < 0.9 and len(os.path.basename(full)) < 200:
                        with open("%s(%d)%s" % (base, number, ext), "wb") as fh:
                            fh.write(b"COPY %d" % number)
            elif kind == "directory":
                os.mkdir(full)
            elif kind == "link":
                os.symlink(rng.choice(["/etc/passwd", self.root, "elsewhere"]), full)
            elif kind == "broken":
                os.symlink("broken-%d" % self.serial, full)
            else:
                os.mkfifo(full)
            self.known = picture(self.root)
        elif os.path.lexists(full):
            situation = "taken"
        return (rng.choice(["", "", "/", "//", "./"]) + path).encode("utf-8"), situation

    def new(self):
        path, situation = self.name()
        self.serial += 1
        d = Download(self.rng.choice([b"d%d", b"a..%d", b"%d..", b"..%d", b"...%d", b"%d", b"-%d", "ü%d".encode(), b".%d", b"with space %d"]) % self.serial, path)
        d.plan = self.plan(d)
        d.situation = situation
        d.final_separate = self.rng.random() < 0.4
        return d

    def advance(self, d):
        """The next request of a download; True if it was the last."""
        offset, data = d.plan.pop(0)
        last = not d.plan and not d.final_separate
        if not last:
            packet = self.ask(d, offset, data, 0)
            self.ctx.check(packet[5] == 0, "a chunk was refused", result=packet, log=list(world.log_lines)[-6:])
            self.verify(what="before the final request", path=d.path)
            if d.plan:
                return False
            if self.rng.random() < 0.5:
                return False if self.postpone(d) else self.finish(d, 0, b"")
            return self.finish(d, len(d.body), b"")
        return self.finish(d, offset, data)

    def postpone(self, d):
        d.plan = [(0, b"")]
        d.final_separate = False
        return True

    def finish(self, d, offset, data):
        target, copies = self.destination(d.path)
        if self.rng.random() < 0.3:
            self.watch(target, apply_chunk(d.body, offset, data))
        packet = self.ask(d, offset, data, 1)
        self.unwatch(path=d.path, situation=d.situation)
        witness = dict(path=d.path, style=d.style, situation=d.situation, result=packet, log=list(world.log_lines)[-5:])
        if packet[5]:
            long_name = len(os.path.basename(target).encode("utf-8")) > 255
            self.ctx.check(packet[5] == 3 and (long_name or copies > 100), "a complete download was not stored", target=target, **witness)
            self.verify(what="after a failure", **witness)
            self.ctx.count("not stored")
        else:
            self.verify((target, d.body), **witness)
            self.ctx.count("stored")
            if self.rng.random() < 0.2:
                # It is complete: no more can be written
                packet = self.ask(d, 0, b"LATE", self.rng.choice([0, 1]))
                self.verify(what="after a write to a complete download", late=packet)
                self.ctx.check(packet[5] != 0, "a complete download could still be written", late=packet)
        self.ctx.case((d.style, d.situation, packet[5], copies, os.path.basename(target)), sample={"path": d.path, "style": d.style, "situation": d.situation,
                                                                                                   "stored": target, "bytes": len(d.body)})
        return True


def prepare(root):
    for folder in ("docs", "docs/deep", "with space", ".hidden-folder"):
        os.mkdir(os.path.join(root, folder))
    for name in ("file.txt", "file-here", "docs/a.txt", "docs/a(1).txt", "docs/a(3).txt"):
        with open(os.path.join(root, name), "wb") as fh:
            fh.write(b"PRECIOUS " + name.encode())
    os.symlink("docs", os.path.join(root, "linked"))


def histories(ctx, shard):
    rng = ctx.rng()
    for _ in range(ctx.pick(3, 20)):
        with world.World(ctx) as w:
            prepare(w.remote_dir)
            w.join()
            w.sync()
            s = Downloads(ctx, w, rng)
            active = []
            for _ in range(ctx.pick(200, 500)):
                if len(active) < rng.choice([1, 2, 6]):
                    active.append(s.new())
                d = rng.choice(active)
                if s.advance(d):
                    active.remove(d)
                if rng.random() < 0.01:
                    w.conn.end(rng.choice(["reset", "fin", "close-frame"]))
                    s.conn = w.join()
                    w.sync()
                    ctx.count("reconnected")
                if rng.random() < 0.02:
                    # The owner tidies up
                    files = [p for p, v in s.known.items() if isinstance(v, bytes)]
                    if files:
                        os.remove(rng.choice(files))
                        s.known = picture(s.root)
            while active:
                if s.advance(active[0]):
                    active.pop(0)
    many(ctx)
    ctx.require("stored", 50)


def many(ctx):
    """So many copies that no name may be found."""
    rng = ctx.rng("many")
    with world.World(ctx) as w:
        for count in (99, 100, 101, 102):
            name = "many%d" % count
            for number in range(count):
                with open(os.path.join(w.remote_dir, "%s.txt" % name if not number else "%s(%d).txt" % (name, number)), "wb") as fh:
                    fh.write(b"PRECIOUS %d" % number)
        w.join()
        w.sync()
        s = Downloads(ctx, w, rng)
        for count in (99, 100, 101, 102):
            d = Download(b"many%d" % count, b"many%d.txt" % count)
            d.style, d.situation = "single", "taken by %d" % count
            s.finish(d, 0, b"DATA")


class OtherDisk(object):
    """Renames between the transfer area and the remote directory fail, as if on different file systems."""

    def __init__(self, area):
        self.area = area
        self.count = 0
        self.real = {name: getattr(os, name) for name in ("rename", "replace", "link")}
        for name in self.real:
            setattr(os, name, self.make(name))

    def make(self, name):
        def wrapper(source, target, *args, **options):
            inside = [os.path.abspath(os.fsdecode(p)).startswith(self.area + "/") for p in (source, target)]
            if inside[0] != inside[1]:
                self.count += 1
                raise OSError(errno.EXDEV, "Invalid cross-device link", source, None, target)
            return self.real[name](source, target, *args, **options)
        return wrapper

    def undo(self):
        for name, value in self.real.items():
            setattr(os, name, value)


def full_disk(ctx, s):
    """The disk of the remote directory is full when a download is to be stored."""
    d = s.new()
    size = s.rng.choice([5000, 20000, 100000])
    packet = s.ask(d, 0, b"x" * size, 0)
    ctx.check(packet[5] == 0, "a chunk was refused", result=packet)
    target, copies = s.destination(d.path)
    _soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (s.rng.choice([0, 3, 4096]), hard))
    try:
        packet = s.ask(d, 0, b"", 1)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
    if packet[5]:
        s.verify(what="after a download for which there was no space", path=d.path, result=packet)
        ctx.count("no space")
        # The server may try again
        packet = s.ask(d, 0, b"", 1)
        if packet[5]:
            s.verify(what="after a download that was tried again", path=d.path, result=packet)
            return
    s.verify((target, d.body), path=d.path, result=packet)
    ctx.case(("full", size, copies))


def other_disk(ctx, shard):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    rng = ctx.rng()
    with world.World(ctx) as w:
        prepare(w.remote_dir)
        w.join()
        w.sync()
        s = Downloads(ctx, w, rng)
        disk = OtherDisk(s.area)
        try:
            active = []
            for _ in range(ctx.pick(300, 2500)):
                if len(active) < 3:
                    active.append(s.new())
                d = rng.choice(active)
                if s.advance(d):
                    active.remove(d)
            while active:
                if s.advance(active[0]):
                    active.pop(0)
            for number in range(ctx.pick(25, 250)):
                full_disk(ctx, s)
        finally:
            disk.undo()
        ctx.count("failed renames", disk.count)
    ctx.require("stored", 20)


def faults(ctx, shard):
    """Each stage fails: no temporary file, no space, no permission to store."""
    rng = ctx.rng()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    _soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    with world.World(ctx) as w:
        prepare(w.remote_dir)
        w.join()
        w.sync()
        s = Downloads(ctx, w, rng)
        first = s.new()
        while not s.advance(first):
            pass
        for number in range(ctx.pick(120, 1200)):
            d = s.new()
            kind = rng.choice(["create", "write", "write", "store", "store", "name", "lost"])
            witness = dict(kind=kind, path=d.path)
            if kind == "create":
                in_the_way = os.path.join(s.area, d.ident.decode("utf-8"))
                if rng.random() < 0.5:
                    os.mkdir(in_the_way)
                else:
                    d.ident = d.ident[:1] * 300
                    in_the_way = None
                try:
                    packet = s.ask(d, 0, b"DATA", rng.choice([0, 1]))
                finally:
                    if in_the_way:
                        os.rmdir(in_the_way)
                ctx.check(packet[5] == 1, "a download that can't be begun did not fail at that stage", result=packet, **witness)
                s.verify(**witness)
            elif kind == "write":
                body = b"x" * 20000
                ok = s.ask(d, 0, b"START", 0)
                ctx.check(ok[5] == 0, "a chunk was refused", result=ok)
                resource.setrlimit(resource.RLIMIT_FSIZE, (rng.choice([0, 3, 4096, 10000]), hard))
                try:
                    packet = s.ask(d, rng.choice([0, 5, 100]), body, rng.choice([0, 1]))
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
                ctx.check(packet[5] == 2, "a chunk that can't be written did not fail at that stage", result=packet, **witness)
                s.verify(what="after a chunk that could not be written", **witness)
                if rng.random() < 0.5:
                    # It has been given up
                    packet = s.ask(d, 0, b"AGAIN", 1)
                    s.verify(**witness) if packet[5] else s.verify((s.destination(d.path)[0], d.body), **witness)
            elif kind == "store":
                target = os.path.dirname(s.destination(d.path)[0])
                os.chmod(target, 0o555)
                try:
                    while len(d.plan) > 1:
                        offset, data = d.plan.pop(0)
                        packet = s.ask(d, offset, data, 0)
                        ctx.check(packet[5] == 0, "a chunk was refused", result=packet, **witness)
                    offset, data = d.plan.pop(0)
                    packet = s.ask(d, offset, data, 1)
                finally:
                    os.chmod(target, 0o755)
                ctx.check(packet[5] == 3, "a download that can't be stored did not fail at that stage", result=packet, **witness)
                s.verify(what="after a download that could not be stored", **witness)
            elif kind == "name":
                path = rng.choice([b"n" * 300, b"bad\xff\xfe", b"nul\0nul", b"docs/" + b"m" * 256, b"../up", b"docs/../../up", b".."])
                packet = s.ask(d, 0, b"DATA", 1, path=path)
                ctx.check(packet[5] == 3, "a download whose name is impossible did not fail at that stage", result=packet, name=path)
                s.verify(what="after a download with an impossible name", name=path)
            else:
                # Its temporary file disappears
                ok = s.ask(d, 0, b"START", 0)
                ctx.check(ok[5] == 0, "a chunk was refused", result=ok)
                os.remove(d.device_path)
                packet = s.ask(d, 5, rng.choice([b"", b"DATA"]), 1)
                ctx.check(packet[5] in (2, 3), "a download that is lost did not fail", result=packet)
                s.verify(what="after a download that was lost")
            ctx.count("failed " + kind)
            ctx.case((kind, packet[5], d.style), sample={"kind": kind, "result": packet})
            if rng.random() < 0.3:
                good = s.new()
                while not s.advance(good):
                    pass
    for kind in ("create", "write", "store", "name", "lost"):
        ctx.require("failed " + kind, 3)


def run(ctx, shard):
    world.load()
    ctx.become(65534, 65534)
    if shard.startswith("faults"):
        faults(ctx, shard)
    elif shard.startswith("other-disk"):
        other_disk(ctx, shard)
    else:
        histories(ctx, shard)
