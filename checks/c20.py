"""C20: uploads are served from an immutable snapshot."""
import os
import resource
import signal
import socket
import tempfile
import threading

from vf import sweep, world
from vf.core import monotonic, real_sleep

RULE = ("A case is one open, read or close request in a random history: several uploads at once, reads at random and boundary "
        "offsets and sizes in any order, originals overwritten, truncated, extended, replaced, made unreadable or deleted in between "
        "or rewritten while being opened, disks that are nearly full or fail while copying, missing and odd files, lost "
        "connections. Every result is compared with a model holding the bytes at the time of opening. Non-trivial: distinct "
        "(request, size class, offset class, changes since opening).")
SHARDS = {"quick": ["histories1", "histories2", "space", "racing", "failing", "sweep"],
          "thorough": ["histories%d" % i for i in range(1, 6)] + ["space", "racing", "failing", "sweep"]}
NAMES = ["plain", "with space", "новый", "a" * 200, "new\nline", "*.[a]", "a..b", "$HOME", "~", "-rf", "%s%d", "e\u0301", "\U0001f600", ".hidden", "q'\"", "back\\slash", "..x", "x.."]


def body_of(rng, size):
    if size < 2000:
        return bytes(rng.getrandbits(8) for _ in range(size))
    unit = bytes(rng.getrandbits(8) for _ in range(48))
    return b"".join(b"%015d:" % i + unit for i in range(size // 64 + 1))[:size]


def size_class(n):
    return "0" if n == 0 else "1" if n == 1 else "small" if n < 4096 else "medium" if n < 200000 else "large"


class Upload(object):
    def __init__(self, ident, path, data):
        self.ident, self.path, self.data = ident, path, data
        self.changes = set()


class Uploads(object):
    def __init__(self, ctx, w, rng):
        self.ctx, self.w, self.rng = ctx, w, rng
        self.conn = w.conn
        self.root = os.path.realpath(w.remote_dir)
        self.area = os.path.join(os.path.realpath(tempfile.gettempdir()), "dataplicity_remote")
        self.serial = 0
        self.reuse = False
        self.open = {}
        self.closed = []
        self.seen = set()

    # -- requests ----------------------------------------------------------
    def collect(self, requests, verify):
        """Send requests together and hand each one's result to verify, in order."""
        before = len(self.conn.entries)
        for request in requests:
            self.conn.send(*request)
        self.w.sync(self.conn)
        results = [e for e in self.conn.entries[before:] if e.kind == "packet" and e.name in ("open_remote_file_result", "read_remote_file_result")]
        expected = [r for r in requests if r[0] != "close_remote_file"]
        self.ctx.check(len(results) == len(expected), "requests did not get exactly one result each", requests=expected, results=[repr(r)[:150] for r in results],
                       log=list(world.log_lines)[-6:])
        for request, entry in zip(expected, results):
            self.ctx.check(entry.name == request[0] + "_result" and entry.packet[1] == request[1], "a result does not belong to its request",
                           request=request, result=repr(entry)[:300])
            self.ctx.count("results")
            verify(request, entry.packet)

    def ask(self, *request):
        out = []
        self.collect([request], lambda r, packet: out.append(packet))
        return out[0] if out else None

    def verify_read(self, request, packet, data, **witness):
        _name, ident, offset, size = request
        self.ctx.check(packet[2:4] == [offset, size], "a read result carries another offset or size", request=request, result=packet[1:4])
        if data is None:
            self.ctx.check(packet[5] != 0 and packet[4] == b"", "reading an upload that is not open succeeded", request=request, got=packet[4][:100], fail=packet[5], **witness)
            self.ctx.count("failed reads")
            return
        want = data[offset:offset + size]
        self.ctx.check(packet[5] == 0, "a read of an open upload failed", request=request, reason=packet[6], log=list(world.log_lines)[-6:], **witness)
        if packet[4] != want:
            at = next((i for i in range(min(len(want), len(packet[4]))) if want[i] != packet[4][i]), min(len(want), len(packet[4])))
            self.ctx.fail("a read did not give the bytes of the file as it was when opened", request=request, snapshot_size=len(data), got_bytes=len(packet[4]),
                          want_bytes=len(want), differs_at=at, got=packet[4][at:at + 30], want=want[at:at + 30], **witness)
        self.ctx.count("reads")

    def new_file(self, data=None):
        rng = self.rng
        self.serial += 1
        directory = os.path.join(self.root, "d%d" % self.serial)
        if rng.random() < 0.3:
            directory = os.path.join(directory, rng.choice(NAMES), "x")
        os.makedirs(directory)
        path = os.path.join(directory, rng.choice(NAMES))
        if data is None:
            data = body_of(rng, rng.choice([0, 1, 2, 100, 4095, 4096, 4097, 65536, rng.randrange(300000)] + [2000000] * (rng.random() < 0.1)))
        with open(path, "wb") as fh:
            fh.write(data)
        return path, data

    def spell(self, path):
        relative = os.path.relpath(path, self.root)
        return (self.rng.choice(["", "", "/", "//", "./"]) + relative).encode("utf-8")

    def start(self, path=None, data=None, ident=None):
        rng = self.rng
        if path is None:
            path, data = self.new_file()
        if ident is None:
            self.serial += 1
            ident = rng.choice([b"u%d", b"a..%d", b"%d..", b"..%d", b"0%d-dead-beef", "ü%d".encode(), b"with space %d", b"-%d", b".%d", b"%d~", b"a" * 100 + b"%d"]) % self.serial
        packet = self.ask("open_remote_file", ident, self.spell(path))
        self.ctx.check(packet[3] == 0 and packet[2] == len(data), "a file was not opened with its size", path=path, size=len(data), result=packet[2:],
                       log=list(world.log_lines)[-6:])
        self.open[ident] = Upload(ident, path, data)
        self.ctx.count("opened")
        self.ctx.case(("open", size_class(len(data)), os.path.basename(path)), sample={"open": path, "size": len(data)})
        return self.open[ident]

    def some_read(self, upload):
        rng, n = self.rng, len(upload.data)
        offset = rng.choice([0, 0, 1, n // 2, n - 1, n, n + 1, n + 100000, rng.randrange(n + 1), 2 ** 33, 2 ** 62, 2 ** 63, 2 ** 70])
        size = rng.choice([0, 1, 2, 10, 4096, 65536, n, n + 1, max(0, n - 1), max(0, n - offset), max(0, n - offset) + 1, rng.randrange(n + 2), 2 ** 24, 2 ** 40, 2 ** 63, 2 ** 80])
        return ("read_remote_file", upload.ident, max(0, offset), size)

    def reads(self, uploads, count):
        plan = [self.some_read(self.rng.choice(uploads)) for _ in range(count)]
        self.collect(plan, lambda r, packet: self.verify_read(r, packet, self.open[r[1]].data, changes=sorted(self.open[r[1]].changes), path=self.open[r[1]].path))
        for _name, ident, offset, size in plan:
            upload = self.open[ident]
            n = len(upload.data)
            self.ctx.case(("read", size_class(n), size_class(size), "in" if offset < n else "end" if offset == n else "beyond", offset + size > n, tuple(sorted(upload.changes))),
                          sample={"offset": offset, "size": size, "file": n, "changes": sorted(upload.changes)})

    def change(self, upload):
        rng, path = self.rng, upload.path
        kind = rng.choice(["overwrite", "truncate", "append", "replace", "delete", "chmod", "poke", "directory", "parent"])
        if not path.startswith(self.root + "/") and kind in ("directory", "parent", "chmod"):
            kind = "replace"  # The published scan
        try:
            if kind == "overwrite":
                with open(path, "r+b") as fh:
                    fh.write(b"CHANGED" * (1 + len(upload.data) // 7))
            elif kind == "truncate":
                with open(path, "r+b") as fh:
                    fh.truncate(len(upload.data) // 2)
            elif kind == "append":
                with open(path, "ab") as fh:
                    fh.write(b"MORE" * 5000)
            elif kind == "replace":
                with open(path + ".new", "wb") as fh:
                    fh.write(b"REPLACED" * 1000)
                os.rename(path + ".new", path)
            elif kind == "delete":
                os.remove(path)
            elif kind == "chmod":
                os.chmod(path, 0)
            elif kind == "poke":
                with open(path, "r+b") as fh:
                    fh.seek(rng.randrange(len(upload.data) + 1))
                    fh.write(b"X")
            elif kind == "directory":
                os.remove(path)
                os.mkdir(path)
            elif kind == "parent":
                os.rename(os.path.dirname(path), os.path.dirname(path) + "-moved")
        except (OSError, IOError):
            return
        upload.changes.add(kind)

    def close(self, upload):
        if self.rng.random() < 0.5:
            self.reads([upload], 2)
        self.ask("close_remote_file", upload.ident)
        del self.open[upload.ident]
        self.closed.append(upload)
        self.ctx.count("closed")
        self.verify_area()
        request = ("read_remote_file", upload.ident, 0, 10)
        self.collect([request], lambda r, packet: self.verify_read(r, packet, None, closed=True))
        self.ctx.case(("close", size_class(len(upload.data)), tuple(sorted(upload.changes))))
        if self.reuse and self.rng.random() < 0.4:
            # The same id again at once, for another file
            again = self.start(ident=upload.ident)
            self.reads([again], 3)
            self.ctx.count("ids used again")

    def verify_area(self):
        files = os.listdir(self.area) if os.path.isdir(self.area) else []
        self.ctx.check(len(files) == len(self.open), "the snapshots are not those of the open uploads", snapshots=files, open=list(self.open))

    def verify_all(self):
        """Each open upload, read completely."""
        plan = [("read_remote_file", u.ident, 0, len(u.data) + 5) for u in self.open.values()]
        self.collect(plan, lambda r, packet: self.verify_read(r, packet, self.open[r[1]].data, changes=sorted(self.open[r[1]].changes)))
        self.verify_area()


def a_socket(path):
    sock = socket.socket(socket.AF_UNIX)
    here = os.getcwd()
    os.chdir(os.path.dirname(path))  # The whole path may be too long
    try:
        sock.bind(os.path.basename(path))
    finally:
        os.chdir(here)
        sock.close()


# Things that are no regular files. Of the devices only one whose reader waits for ever,
# as a copy of one that never ends would fill the disk.
ODD = {"a pipe": os.mkfifo, "a socket": a_socket, "a terminal": lambda path: os.symlink("/dev/ptmx", path), "nowhere": lambda path: os.symlink("not there", path),
       "loop": lambda path: os.symlink("loop", path)}


def histories(ctx, shard):
    rng = ctx.rng()
    with world.World(ctx) as w:
        w.join()
        w.sync()
        u = Uploads(ctx, w, rng)
        u.reuse = True
        u.start()
        for _ in range(ctx.pick(260, 2500)):
            kind = rng.random()
            uploads = list(u.open.values())
            if kind < 0.2 and len(uploads) < 12 or not uploads:
                if u.closed and rng.random() < 0.25:
                    # An id that was used before
                    old = rng.choice(u.closed)
                    if old.ident not in u.open:
                        path, data = u.new_file()
                        u.start(path, data, old.ident)
                elif uploads and rng.random() < 0.3:
                    # Another upload of the same file, as it is now
                    path = rng.choice(uploads).path
                    if os.path.isfile(path) and path.startswith(u.root + "/"):
                        os.chmod(path, 0o644)
                        with open(path, "rb") as fh:
                            data = fh.read()
                        u.start(path, data)
                else:
                    u.start()
            elif kind < 0.55:
                u.reads(uploads, rng.choice([1, 1, 3, 20]))
            elif kind < 0.75:
                u.change(rng.choice(uploads))
            elif kind < 0.85:
                u.close(rng.choice(uploads))
            elif kind < 0.9:
                # Things that are not there, and uploads that are not open
                for name, make in ODD.items():
                    if not os.path.lexists(os.path.join(u.root, name)):
                        make(os.path.join(u.root, name))
                missing = rng.choice([name.encode() for name in ODD] + [b"missing", b"d1/missing/x", b"", b"/", b"d1", b"\0nope", b"\xff\xfe", b"x" * 5000])
                ident = b"m%d" % u.serial
                packet = u.ask("open_remote_file", ident, missing)
                ctx.check(packet[3] != 0, "something that is not a file was opened", path=missing, result=packet)
                u.collect([("read_remote_file", ident, 0, 100), ("read_remote_file", b"never-opened", 3, 5)], lambda r, packet: u.verify_read(r, packet, None, path=missing))
                u.ask("close_remote_file", rng.choice([ident, b"never-opened"]))
                u.verify_area()
                ctx.count("failed opens")
                ctx.case(("missing", missing))
            elif kind < 0.95:
                u.verify_all()
            elif kind < 0.97:
                # Uploads belong to the device, not to the connection
                w.conn.end(rng.choice(["reset", "fin", "close-frame"]))
                u.conn = w.join()
                w.sync()
                u.verify_all()
                ctx.count("reconnected")
            else:
                path, data = u.new_file(b'{"not": "really a scan"}')
                special = os.path.join(tempfile.gettempdir(), "__dataplicity_remote_directory_scan___.json")
                os.rename(path, special)
                ident = b"scan%d" % u.serial
                if ident not in u.open:
                    packet = u.ask("open_remote_file", ident, b"\0scan.json")
                    ctx.check(packet[3] == 0 and packet[2] == len(data), "the scan was not opened", result=packet)
                    u.open[ident] = Upload(ident, special, data)
        u.verify_all()
        u.reuse = False
        for upload in list(u.open.values()):
            u.close(upload)
    ctx.require("reads", 100)
    ctx.require("closed", 20)


class Statvfs(object):
    """Lets the disk of the temporary directory look nearly full."""

    def __init__(self):
        self.free = None
        self.error = None
        self.real = os.statvfs
        os.statvfs = self.fake

    def fake(self, path):
        if self.error is not None:
            raise self.error
        if self.free is None:
            return self.real(path)
        total = 10 ** 12
        return os.statvfs_result((1, 1, total, self.free, self.free, 10 ** 6, 10 ** 6, 10 ** 6, 0, 255))


MARGIN = 50 * 1000 * 1000


def space(ctx, shard):
    rng = ctx.rng()
    with world.World(ctx) as w:
        w.join()
        w.sync()
        fake = Statvfs()
        u = Uploads(ctx, w, rng)
        for number in range(ctx.pick(150, 1500)):
            size = rng.choice([0, 1, 100, 5000, 70000])
            path, data = u.new_file(body_of(rng, size))
            spare = rng.choice([-1, 0, 1, -size, -size - 1, size, 1000, -1000, 10 ** 6, -10 ** 6, 10 ** 9, -MARGIN, 1 - MARGIN])
            fake.free = max(0, MARGIN + size + spare)
            fits = fake.free - size >= MARGIN
            if number % 10 == 9:
                fake.error, fits = rng.choice([OSError(5, "I/O error"), OSError(38, "not implemented")]), True
            if fits:
                upload = u.start(path, data)
                u.reads([upload], 3)
                if rng.random() < 0.5:
                    u.close(upload)
            else:
                ident = b"full%d" % number
                packet = u.ask("open_remote_file", ident, u.spell(path))
                ctx.check(packet[3] != 0, "a snapshot eats into the free-space margin", free=fake.free, size=size, result=packet)
                u.collect([("read_remote_file", ident, 0, 100)], lambda r, packet: u.verify_read(r, packet, None, free=fake.free))
                u.verify_area()
                ctx.count("refused")
            ctx.case(("space", size, spare, fake.error is not None), sample={"size": size, "spare": spare, "fits": fits})
            fake.error = None
            if len(u.open) > 8:
                u.verify_all()
                for upload in list(u.open.values()):
                    u.close(upload)
        os.statvfs = fake.real
    ctx.require("refused", 20)
    ctx.require("opened", 20)


def racing(ctx, shard):
    """Files that are being changed while they are opened: whatever was taken stays."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        w.join()
        w.sync()
        u = Uploads(ctx, w, rng)
        for number in range(ctx.pick(25, 250)):
            atomic = rng.random() < 0.5
            size = rng.choice([1000, 70000, 1000000])
            path, data = u.new_file(b"%08d" % 0 * (size // 8))
            ending = threading.Event()
            versions = {data}

            def writer():
                version = 0
                while not ending.is_set():
                    version += 1
                    body = b"%08d" % version * (size // 8 + (version % 3) * 10)
                    if atomic:
                        versions.add(body)
                        with open(path + "~", "wb") as fh:
                            fh.write(body)
                        os.rename(path + "~", path)
                    else:
                        with open(path, "r+b") as fh:
                            fh.write(body)
                            fh.truncate()
                    real_sleep(0.001)

            thread = threading.Thread(target=writer, name="vf-writer")
            thread.daemon = True
            thread.start()
            uploads = []
            try:
                for turn in range(3):
                    real_sleep(rng.random() * 0.02)
                    ident = b"race-%d-%d" % (number, turn)
                    packet = u.ask("open_remote_file", ident, u.spell(path))
                    ctx.check(packet[3] == 0, "a file that is being written was not opened", result=packet, log=list(world.log_lines)[-4:])
                    uploads.append((ident, packet[2]))
                first = {}
                for turn in range(3):
                    for ident, total in uploads:
                        packet = u.ask("read_remote_file", ident, 0, total + 100)
                        ctx.check(packet[5] == 0 and len(packet[4]) == total, "the reported size is not that of the snapshot", total=total, got=len(packet[4]))
                        if ident in first:
                            ctx.check(first[ident] == packet[4], "the snapshot changed", atomic=atomic)
                        first[ident] = packet[4]
            finally:
                ending.set()
                thread.join()
            for ident, total in uploads:
                if atomic:
                    ctx.check(first[ident] in versions, "the snapshot is of no version of the file", total=total, start=first[ident][:40], end=first[ident][-40:])
                u.open[ident] = Upload(ident, path, first[ident])
            for ident, total in uploads:
                u.reads([u.open[ident]], 4)
                u.close(u.open[ident])
                ctx.case(("race", atomic, size, total))
    ctx.require("reads", 100)


def failing(ctx, shard):
    """Copies that fail on the way (a disk that is full)."""
    rng = ctx.rng()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    _soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    with world.World(ctx) as w:
        w.join()
        w.sync()
        u = Uploads(ctx, w, rng)
        for number in range(ctx.pick(60, 600)):
            size = rng.choice([1, 5000, 70000, 300000])
            path, data = u.new_file(body_of(rng, size))
            limit = rng.choice([0, 1, 4096, 65536, size // 2])
            ident = b"fail%d" % number
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                packet = u.ask("open_remote_file", ident, u.spell(path))
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
            if limit >= size:
                ctx.check(packet[3] == 0 and packet[2] == size, "a file was not opened with its size", result=packet)
                u.open[ident] = Upload(ident, path, data)
                u.reads([u.open[ident]], 2)
            else:
                ctx.check(packet[3] != 0, "an upload whose snapshot could not be written was opened", result=packet, size=size, limit=limit)
                u.collect([("read_remote_file", ident, 0, size)], lambda r, packet: u.verify_read(r, packet, None, what="an upload that could not be opened", size=size, limit=limit))
                u.verify_area()
                ctx.count("failed opens")
                if rng.random() < 0.5:
                    # Trying again, now that there is space
                    u.start(path, data, ident)
                    u.reads([u.open[ident]], 2)
            ctx.case(("failing", size, limit))
            u.verify_all()
            if len(u.open) > 5:
                for upload in list(u.open.values()):
                    u.close(upload)
    ctx.require("failed opens", 15)


def sweeping(ctx, shard):
    """The original changes at each line of the agent's work on a request."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        w.join()
        w.sync()
        u = Uploads(ctx, w, rng)
        jitter = sweep.Jitter(ctx.rng("j"), 0.15, 0.003, files=("remote_directory.py",))
        with jitter:
            for number in range(ctx.pick(60, 600)):
                path, data = u.new_file(body_of(rng, rng.choice([10, 5000, 100000])))
                other = body_of(rng, rng.choice([0, 10, 5000, 100000]))
                with open(path + ".other", "wb") as fh:
                    fh.write(other)
                delay = rng.random() * 0.03

                def swap():
                    real_sleep(delay)
                    os.rename(path + ".other", path)

                thread = threading.Thread(target=swap, name="vf-swap")
                thread.start()
                ident = b"swap-%d" % number
                packet = u.ask("open_remote_file", ident, u.spell(path))
                ctx.check(packet[3] == 0, "a file that is being replaced was not opened", result=packet)
                whole = u.ask("read_remote_file", ident, 0, 10 ** 6)[4]
                thread.join()
                ctx.check(whole in (data, other) and len(whole) == packet[2], "the snapshot is neither the old nor the new file", got=len(whole), size=packet[2], old=len(data), new=len(other))
                u.open[ident] = Upload(ident, path, whole)
                u.verify_all()
                u.close(u.open[ident])
                ctx.case(("swap", len(data), len(other), whole == data))


def run(ctx, shard):
    world.load()
    ctx.become(65534, 65534)
    if shard == "space":
        space(ctx, shard)
    elif shard == "racing":
        racing(ctx, shard)
    elif shard == "failing":
        failing(ctx, shard)
    elif shard == "sweep":
        sweeping(ctx, shard)
    else:
        histories(ctx, shard)
