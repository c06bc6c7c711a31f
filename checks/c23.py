"""C23: the published scan is always complete and requests are answered."""
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import threading

from vf import sweep, world
from vf.core import monotonic, real_sleep

RULE = ("A case is one reading of the published scan (as a file, and as the server gets it) or one scan request: readers run during "
        "scans, at every line of the agent's code for one, and after the process was killed at each of these lines, at each "
        "file operation or at random; requests are made at rest and while a scan is held, for trees that changed, with scans and "
        "publications that fail. The scanned tree is marked with a version, so that a document made of two scans, an old one "
        "after success was reported, or scans that run together are recognised. Non-trivial: distinct (moment, outcome).")
SHARDS = {"quick": ["readers", "lines", "crash", "kill", "requests1", "requests2", "failures"],
          "thorough": ["readers", "lines", "crash", "kill"] + ["requests%d" % i for i in range(1, 5)] + ["failures", "failures2"]}
NAME = "__dataplicity_remote_directory_scan___.json"


class Scans(object):
    """Stands between the agent and os.scandir: knows which scans are running, can hold them."""

    def __init__(self):
        self.lock = threading.Condition()
        self.root = None
        self.running = {}
        self.started = 0
        self.most = 0
        self.held = False
        self.waiting = 0
        self.error = None
        real = os.scandir

        def scandir(*args):
            path = args[0] if args else "."
            if isinstance(path, str) and self.root and os.path.abspath(path) == self.root and not threading.current_thread().name.startswith("vf-") \
                    and threading.current_thread() is not threading.main_thread():
                with self.lock:
                    thread = threading.current_thread()
                    running = {t: 1 for t in self.running if t.is_alive()}
                    running[thread] = 1
                    self.running = running
                    self.started += 1
                    self.most = max(self.most, len(self.running))
                    self.waiting += 1
                    limit = monotonic() + 60
                    while self.held and monotonic() < limit:
                        self.lock.wait(0.2)
                    self.waiting -= 1
                    if self.error:
                        raise self.error
            return real(*args)

        os.scandir = scandir

    def release(self):
        with self.lock:
            self.held = False
            self.lock.notify_all()


def make_tree(root, version, directories=6, files=3):
    fresh = root + ".new"
    os.mkdir(fresh)
    for number in range(directories):
        os.mkdir(os.path.join(fresh, "d%d" % number))
        for index in range(files):
            with open(os.path.join(fresh, "d%d" % number, "v%d-%d" % (version, index)), "wb") as fh:
                fh.write(b"x" * index)
    if os.path.exists(root):
        os.rename(root, root + ".old")
    os.rename(fresh, root)
    shutil.rmtree(root + ".old", ignore_errors=True)


def version_of(ctx, data, root, directories=6, files=3, **witness):
    """The one version that a published document shows."""
    ctx.count("documents")
    try:
        document = json.loads(data.decode("utf-8"))
        listed = document["directories"]
    except Exception as error:
        ctx.fail("the published scan is not one complete document", error=repr(error), size=len(data), start=data[:60], end=data[-60:], **witness)
    ctx.check(document.get("root") == root and set(document) == {"root", "time", "directories"}, "the published scan has other contents", keys=sorted(document), **witness)
    versions = set()
    found = 0
    for path, entry in listed.items():
        for name, _size in entry.get("files", []):
            versions.add(int(name[1:].split("-")[0]))
            found += 1
    ctx.check(len(versions) == 1 and found == directories * files and len(listed) == directories + 1, "the published scan is not that of a single scan",
              versions=sorted(versions), files=found, directories=len(listed), **witness)
    return versions.pop()


def published():
    path = os.path.join(tempfile.gettempdir(), NAME)
    try:
        with open(path, "rb") as fh:
            return fh.read()
    except (OSError, IOError):
        return None


def remove_published():
    try:
        os.remove(os.path.join(tempfile.gettempdir(), NAME))
    except (OSError, IOError):
        pass


def finished(ctx, scans, before):
    """Wait until a scan has been started and has ended."""
    ctx.wait(lambda: scans.started > before and not any(t.is_alive() for t in list(scans.running)), 60.0, "a scan did not end")


def new_scanner(ctx, scans, name="tree"):
    from dataplicity.directory_scanner import DirectoryScanner
    root = os.path.join(os.path.realpath(ctx.dir(name)), "root")
    scans.root = root
    return root, DirectoryScanner(root)


def readers(ctx, scans):
    """Many readers while scans of different sizes replace each other."""
    rng = ctx.rng()
    root, scanner = new_scanner(ctx, scans)
    sizes = {}
    ending = threading.Event()
    lock = threading.Lock()
    first = threading.Event()

    def reader(slow):
        while not ending.is_set() and not ctx.violations:
            if not first.is_set():
                real_sleep(0.001)
                continue
            try:
                with open(os.path.join(tempfile.gettempdir(), NAME), "rb") as fh:
                    if slow:
                        data = b""
                        while True:
                            more = fh.read(4096)
                            if not more:
                                break
                            data += more
                            real_sleep(0.001)
                    else:
                        data = fh.read()
            except (OSError, IOError) as error:
                ctx.report("the published scan could not be opened after the first scan", error=repr(error))
                return
            try:
                document = json.loads(data.decode("utf-8"))
            except Exception as error:
                ctx.report("the published scan is not one complete document", error=repr(error), size=len(data), slow=slow, end=data[-60:])
                return
            version = {int(f[0][1:].split("-")[0]) for e in document["directories"].values() for f in e.get("files", [])}
            with lock:
                directories, files = sizes[min(version)]
            if len(version) != 1 or len(document["directories"]) != directories + 1 or sum(len(e.get("files", [])) for e in document["directories"].values()) != directories * files:
                ctx.report("the published scan is not that of a single scan", versions=sorted(version), directories=len(document["directories"]))
                return
            ctx.count("documents")
            ctx.case(("read", slow, min(version), len(data)))
            real_sleep(0.0005)

    threads = [threading.Thread(target=reader, args=(i == 0,), name="vf-reader") for i in range(3)]
    for thread in threads:
        thread.daemon = True
        thread.start()
    with sweep.Jitter(ctx.rng("j"), 0.3, 0.004, files=("directory_scanner.py",)):
        for version in range(1, ctx.pick(35, 400)):
            shape = (rng.choice([1, 3, 30, 200]), rng.choice([1, 3, 10]))
            with lock:
                sizes[version] = shape
            make_tree(root, version, *shape)
            before = scans.started
            scanner.perform_scan()
            finished(ctx, scans, before)
            first.set()
            ctx.stop_if_violated()
    ending.set()
    for thread in threads:
        thread.join(20)
    ctx.stop_if_violated()
    ctx.require("documents", 50)


class AtLine(object):
    """Does something at the n-th line of agent code in threads started now."""

    def __init__(self, number, action):
        self.number, self.action = number, action
        self.lines = 0
        self.relevant = sweep.Stepper(None, ("directory_scanner.py", "scan_directory.py")).relevant

    def trace(self, frame, event, arg):
        return self.local if self.relevant(frame.f_code.co_filename) else None

    def local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.lines == self.number:
                self.action("%s:%d" % (frame.f_code.co_name, frame.f_lineno))
        return self.local

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *args):
        threading.settrace(None)


def lines(ctx, scans):
    """A reader at every line of the scan, for scans that shrink and grow."""
    root, scanner = new_scanner(ctx, scans)
    make_tree(root, 1)
    before = scans.started
    scanner.perform_scan()
    finished(ctx, scans, before)
    version, total = 1, None
    number = 0
    while total is None or number <= total:
        number += ctx.pick(3, 1)
        version += 1
        shape = (2, 10 if version % 2 else 1)
        make_tree(root, version, *shape)
        other = (2, 1 if version % 2 else 10)
        seen = []

        def look(where):
            seen.append((where, published()))

        before = scans.started
        at = AtLine(number, look)
        with at:
            scanner.perform_scan()
            finished(ctx, scans, before)
        total = at.lines
        for where, data in seen:
            ctx.check(data is not None, "the published scan is missing during a scan", where=where)
            found = version_of(ctx, data, root, *(shape if b'"v%d-' % version in data else other if version > 2 else (6, 3)), where=where)
            ctx.check(found in (version, version - 1), "the published scan is an older one", found=found, version=version, where=where)
            ctx.case(("line", where, found == version), sample={"at": where, "new": found == version})
        found = version_of(ctx, published(), root, *shape)
        ctx.check(found == version, "a finished scan was not published", found=found, version=version)
    ctx.count("lines", total)
    ctx.require("lines", 50)


def child(scanner, prepare):
    """A process that does one scan; prepare(die) installs the moment at which it dies."""
    pid = os.fork()
    if pid:
        return pid
    try:
        prepare()
        scanner.perform_scan()
        for thread in threading.enumerate():
            if thread is not threading.current_thread() and not thread.name.startswith("vf-"):
                thread.join(30)
        os._exit(0)
    finally:
        os._exit(1)


def crash(ctx, scans):
    """The process dies at each line of the scan, and at each of its file operations."""
    root, scanner = new_scanner(ctx, scans)
    make_tree(root, 1)
    before = scans.started
    scanner.perform_scan()
    finished(ctx, scans, before)
    latest = version = 1

    def die(where):
        os.kill(os.getpid(), signal.SIGKILL)
        os._exit(9)

    def at_operation(number):
        counter = [0]

        def tick():
            counter[0] += 1
            if counter[0] == number:
                os._exit(9)
        for module, name in ((os, "rename"), (os, "replace"), (os, "remove"), (os, "unlink"), (os, "fsync"), (os, "write"), (os, "open"), (os, "link")):
            def make(real):
                def wrapper(*args, **options):
                    tick()
                    value = real(*args, **options)
                    tick()
                    return value
                return wrapper
            setattr(module, name, make(getattr(module, name)))
        import builtins
        real_open = builtins.open

        class File(object):
            def __init__(self, fh):
                self.fh = fh

            def write(self, data):
                tick()
                for start in range(0, len(data), max(1, len(data) // 4)):
                    self.fh.write(data[start:start + max(1, len(data) // 4)])
                    self.fh.flush()
                    tick()
                return len(data)

            def __getattr__(self, name):
                return getattr(self.fh, name)

            def __enter__(self):
                return self

            def __exit__(self, *args):
                tick()
                self.fh.close()
                tick()

            def close(self):
                self.__exit__()

        def opened(path, mode="r", *args, **options):
            if "w" not in mode and "x" not in mode and "+" not in mode and "a" not in mode:
                return real_open(path, mode, *args, **options)
            tick()
            fh = real_open(path, mode, *args, **options)
            tick()
            return File(fh)
        builtins.open = opened

    for kind in ("line", "operation"):
        number, ended = 0, False
        while not ended and number < 3000:
            number += ctx.pick(2, 1) if kind == "line" else 1
            version += 1
            make_tree(root, version, 6, 3)

            def prepare():
                os.kill = real_kill
                if kind == "line":
                    threading.settrace(AtLine(number, die).trace)
                else:
                    at_operation(number)

            from vf import safety  # noqa
            real_kill = os_kill
            pid = child(scanner, prepare)
            _pid, status = os.waitpid(pid, 0)
            ended = status == 0
            ctx.check(ended or os.WIFSIGNALED(status) or os.WEXITSTATUS(status) == 9, "(harness) the scanning process failed", status=status)
            data = published()
            ctx.check(data is not None, "there is no published scan after a crash", kind=kind, number=number)
            found = version_of(ctx, data, root, kind=kind, number=number)
            ctx.check(found in (latest, version), "the published scan after a crash is of another time", found=found, latest=latest, version=version)
            ctx.check(not ended or found == version, "a finished scan was not published", found=found, version=version)
            latest = found
            ctx.count("crashes", 0 if ended else 1)
            ctx.case(("crash", kind, number, found == version), sample={"crash at": "%s %d" % (kind, number), "new": found == version})
        # A new process goes on as if nothing had been
        version += 1
        make_tree(root, version)
        before = scans.started
        scanner.perform_scan()
        finished(ctx, scans, before)
        latest = version_of(ctx, published(), root)
        ctx.check(latest == version, "a scan after a crash was not published", found=latest, version=version)
    ctx.require("crashes", 20)


os_kill = os.kill


def kill(ctx, scans):
    """Killed at random moments of larger scans."""
    rng = ctx.rng()
    root, scanner = new_scanner(ctx, scans)
    make_tree(root, 1, 30, 20)
    before = scans.started
    scanner.perform_scan()
    finished(ctx, scans, before)
    elapsed = 0.05
    for version in range(2, ctx.pick(40, 400)):
        make_tree(root, version, 30, 20)
        started = monotonic()
        pid = child(scanner, lambda: None)
        real_sleep(rng.random() * elapsed * 1.5)
        os_kill(pid, signal.SIGKILL)
        _pid, status = os.waitpid(pid, 0)
        if status == 0:
            elapsed = 0.9 * elapsed + 0.1 * (monotonic() - started)
        else:
            elapsed = min(1.0, elapsed * 1.05)
            ctx.count("crashes")
        data = published()
        ctx.check(data is not None, "there is no published scan after a crash")
        found = version_of(ctx, data, root, 30, 20)
        ctx.check(found <= version, "(harness) versions")
        ctx.case(("kill", version, found, status != 0))
    ctx.require("crashes", 5)


class Server(object):
    def __init__(self, ctx, w, scans):
        self.ctx, self.w, self.scans, self.conn = ctx, w, scans, w.conn
        self.root = os.path.realpath(w.remote_dir)
        scans.root = self.root
        scans.started = 0
        scans.most = 0
        self.serial = 0
        self.threads = set(threading.enumerate())

    def answers(self):
        return self.conn.packets("scan_remote_directory_result")

    def served(self):
        """The scan as the server reads it."""
        self.serial += 1
        ident = b"scan-%d" % self.serial
        self.conn.send("open_remote_file", ident, b"\0scan.json")
        self.conn.send("read_remote_file", ident, 0, 10 ** 7)
        self.conn.send("close_remote_file", ident)
        self.w.sync()
        opened = [e for e in self.conn.packets("open_remote_file_result") if e.packet[1] == ident][0].packet
        read = [e for e in self.conn.packets("read_remote_file_result") if e.packet[1] == ident][0].packet
        return read[4] if opened[3] == 0 and read[5] == 0 else None

    def settle(self, wanted):
        """All is over: every scan that was begun for a request has been answered."""
        self.conn.wait(lambda: len(self.answers()) >= wanted(), 30.0)
        self.w.sync()
        # Scans that wait for another to end
        others = lambda: {t for t in threading.enumerate() if not t.name.startswith("vf-")} - self.threads
        if not self.ctx.wait(lambda: not others(), 2.0):
            self.threads |= others()
        self.ctx.wait(lambda: not any(t.is_alive() for t in list(self.scans.running)), 60.0, "a scan did not end")
        self.w.sync()


def requests(ctx, scans, shard):
    rng = ctx.rng()
    with world.World(ctx) as w:
        os.rmdir(w.remote_dir)
        make_tree(os.path.realpath(w.remote_dir), 0)
        w.join()
        w.sync()
        s = Server(ctx, w, scans)
        jitter = sweep.Jitter(ctx.rng("j"), 0.3, 0.004, files=("directory_scanner.py",))
        with jitter:
            for version in range(1, ctx.pick(90, 900)):
                make_tree(s.root, version)
                answers, started = len(s.answers()), scans.started
                kind = rng.choice(["one", "one", "one", "burst", "during", "instruction"])
                witness = dict(kind=kind, version=version)
                if kind == "one":
                    s.conn.send("scan_remote_directory")
                    s.conn.wait(lambda: len(s.answers()) > answers, 30.0)
                    ctx.check(len(s.answers()) > answers, "a scan request was not answered", started=scans.started - started, log=list(world.log_lines)[-5:])
                    # The answer is here: the scan must be there, before anything else happens
                    data = published()
                    ctx.check(s.answers()[-1].packet[1] == b"", "a scan was answered with an error", answer=s.answers()[-1].packet)
                    ctx.check(data is not None and version_of(ctx, data, s.root) == version, "success was reported before the scan was published", version=version)
                    data = s.served()
                    ctx.check(data is not None and version_of(ctx, data, s.root) == version, "another scan was served after success was reported", version=version)
                    wanted = 1
                elif kind == "burst":
                    wanted = rng.choice([2, 3, 8])
                    for _ in range(wanted):
                        s.conn.send("scan_remote_directory")
                elif kind == "during":
                    scans.held = True
                    s.conn.send("scan_remote_directory")
                    ctx.wait(lambda: scans.waiting, 30.0, "a requested scan did not start")
                    # In the middle of a scan: the last published one is whole, no other scan starts
                    data = s.served()
                    if data is not None:
                        version_of(ctx, data, s.root)
                    more = rng.randrange(1, 6)
                    for _ in range(more):
                        if rng.random() < 0.7:
                            s.conn.send("scan_remote_directory")
                        else:
                            s.conn.instruct("scan-directory")
                        s.w.sync()
                    real_sleep(0.01)
                    ctx.check(len(s.answers()) == answers, "a scan was answered before it ended", answers=s.answers()[answers:], **witness)
                    ctx.check(scans.waiting == 1, "a second scan was started while one is running", running=scans.waiting, **witness)
                    scans.release()
                    wanted = 1
                else:
                    s.conn.instruct("scan-directory")
                    ctx.wait(lambda: scans.started > started, 30.0, "a scan that was instructed did not start")
                    wanted = 0
                s.settle(lambda: answers + (scans.started - started if kind != "instruction" else 0))
                got, ran = s.answers()[answers:], scans.started - started
                ctx.check(scans.most <= 1, "scans ran at the same time", most=scans.most, **witness)
                ctx.check(all(a.packet[1] == b"" for a in got), "a scan that succeeded was answered with an error", answers=got, **witness)
                if kind == "instruction":
                    ctx.check(len(got) == 0, "a scan nobody requested was answered", answers=got, **witness)
                elif kind == "during":
                    ctx.check(len(got) >= 1 and len(got) <= ran, "scans and answers differ", answers=len(got), scans=ran, **witness)
                else:
                    ctx.check(1 <= len(got) <= wanted and len(got) == ran, "scans and answers differ", answers=len(got), scans=ran, requests=wanted, **witness)
                data = s.served()
                ctx.check(data is not None and version_of(ctx, data, s.root) == version, "the last scan was not published", version=version)
                ctx.count("answers", len(got))
                ctx.case((kind, len(got), ran, version), sample={"kind": kind, "answers": len(got), "scans": ran})
        ctx.count("places delayed", len(jitter.places))
    ctx.require("answers", 30)


def failures(ctx, scans, shard):
    rng = ctx.rng()
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    _soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    temp = tempfile.gettempdir()
    with world.World(ctx) as w:
        os.rmdir(w.remote_dir)
        make_tree(os.path.realpath(w.remote_dir), 0)
        w.join()
        w.sync()
        s = Server(ctx, w, scans)
        last = None
        for version in range(1, ctx.pick(60, 600)):
            make_tree(s.root, version)
            answers = len(s.answers())
            kind = rng.choice(["none", "gone", "file", "full", "full", "readonly", "odd", "unreadable"])
            try:
                if kind == "gone":
                    os.rename(s.root, s.root + ".away")
                elif kind == "file":
                    os.rename(s.root, s.root + ".away")
                    with open(s.root, "wb"):
                        pass
                elif kind == "full":
                    limit = rng.choice([0, 1, 100, 300])
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                elif kind == "readonly":
                    os.chmod(temp, 0o555)
                elif kind == "unreadable":
                    os.chmod(s.root, 0)
                elif kind == "odd":
                    scans.error = rng.choice([MemoryError("none"), ValueError(""), KeyError("k"), RuntimeError()])
                s.conn.send("scan_remote_directory")
                s.conn.wait(lambda: len(s.answers()) > answers, 30.0)
                s.settle(lambda: answers + 1)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
                os.chmod(temp, 0o755)
                scans.error = None
                if kind in ("gone", "file"):
                    if kind == "file":
                        os.remove(s.root)
                    os.rename(s.root + ".away", s.root)
                os.chmod(s.root, 0o755)
            got = s.answers()[answers:]
            ctx.check(len(got) == 1, "a scan request was not answered exactly once", kind=kind, answers=got, log=list(world.log_lines)[-5:])
            text = got[0].packet[1]
            if kind == "none":
                ctx.check(text == b"", "a scan that succeeded was answered with an error", answer=text)
            elif kind not in ("odd", "unreadable"):
                ctx.check(text != b"", "a scan that failed was answered with success", kind=kind, log=list(world.log_lines)[-5:])
            data = s.served()
            if text == b"":
                if kind == "none":
                    last = version_of(ctx, data, s.root)
                    ctx.check(last == version, "success was reported for another scan", found=last, version=version)
                else:
                    # The scan of a directory that can't be listed
                    last = "other"
                    json.loads(data.decode("utf-8"))
            elif last == "other":
                json.loads(data.decode("utf-8"))
            elif last is not None:
                ctx.check(data is not None and version_of(ctx, data, s.root, kind=kind) == last, "a failed scan changed the published one", last=last)
            ctx.count("failed" if text else "succeeded")
            ctx.case((kind, text != b"", version), sample={"kind": kind, "answer": text})
    ctx.require("failed", 10)
    ctx.require("succeeded", 3)


def run(ctx, shard):
    scans = Scans()
    world.load()
    ctx.become(65534, 65534)
    remove_published()
    if shard == "readers":
        readers(ctx, scans)
    elif shard == "lines":
        lines(ctx, scans)
    elif shard == "crash":
        crash(ctx, scans)
    elif shard == "kill":
        kill(ctx, scans)
    elif shard.startswith("failures"):
        failures(ctx, scans, shard)
    else:
        requests(ctx, scans, shard)
