"""C22: a directory scan lists exactly the visible tree and terminates."""
import json
import os
import socket
import stat
import threading

from vf import world
from vf.core import monotonic, real_sleep

RULE = ("A case is one scan of a random tree: depths around the limit, empty and large folders, hidden, unusual and undecodable names, "
        "hard links, links to files, folders, ancestors, each other and nothing, pipes and sockets, folders that can't be listed or "
        "entered, trees that change during the scan, several limits, with and without sizes, and through the agent as published. "
        "An independent walk of the tree says what must and may be listed. Non-trivial: distinct trees.")
SHARDS = {"quick": ["trees1", "trees2", "trees3", "links", "changing", "agent"],
          "thorough": ["trees%d" % i for i in range(1, 6)] + ["links", "links2", "changing", "agent"]}
NAMES = ["a", "b", "c", "file.txt", "with space", "новый", "x" * 255, "new\nline", "*.[a]", "$HOME", "~", "-rf", "%s%d", "e\u0301", "\U0001f600", "..x", "...", "q'\"", "back\\slash",
         ".hidden", ".x.y", "a.", "\x01", "dirs", "files", os.fsdecode(b"\xff\xfe"), os.fsdecode(b"caf\xe9"), "A", "\u202e", "con"]


class Tree(object):
    def __init__(self, ctx, rng):
        self.rng = rng
        self.root = os.path.join(os.path.realpath(ctx.dir("tree")), rng.choice(["root", ".hiddenroot", "r t", "новый"]))
        os.mkdir(self.root)
        self.dirs = [self.root]
        self.files = []
        self.links = 0
        self.locked = []
        self.sockets = []

    def fresh(self, directory):
        for _ in range(50):
            name = self.rng.choice(NAMES)
            if self.rng.random() < 0.3:
                name = (name + str(self.rng.randrange(1000)))[-80:]
            path = os.path.join(directory, name)
            if not os.path.lexists(path):
                return path
        return os.path.join(directory, "z%d" % self.rng.randrange(10 ** 9))

    def add(self, kind=None):
        rng = self.rng
        kind = kind or rng.choice(["dir"] * 6 + ["file"] * 8 + ["chain", "filelink", "dirlink", "uplink", "broken", "loop", "hard", "fifo", "socket", "crowd", "outside"])
        path = self.fresh(rng.choice(self.dirs[-6:] if rng.random() < 0.5 else self.dirs))
        if len(os.fsencode(path)) > 3000:
            return
        try:
            if kind == "dir":
                os.mkdir(path)
                self.dirs.append(path)
            elif kind == "file":
                with open(path, "wb") as fh:
                    fh.write(b"x" * rng.choice([0, 1, 10, 4096, rng.randrange(20000)]))
                if rng.random() < 0.1:
                    os.truncate(path, rng.choice([2 ** 31, 2 ** 32 + 5, 10 ** 12]))
                self.files.append(path)
            elif kind == "chain":
                for _ in range(rng.randrange(1, 14)):
                    os.mkdir(path)
                    self.dirs.append(path)
                    with open(os.path.join(path, "f"), "wb") as fh:
                        fh.write(b"deep")
                    path = os.path.join(path, rng.choice(["d", "e", ".h", "sub dir"]) if rng.random() < 0.3 else "d")
            elif kind == "filelink" and self.files:
                os.symlink(rng.choice(self.files), path)
            elif kind == "dirlink":
                os.symlink(rng.choice(self.dirs), path)
            elif kind == "uplink":
                os.symlink(rng.choice([".", "..", "../..", os.path.dirname(path), self.root]), path)
            elif kind == "broken":
                os.symlink("nothing-here", path)
            elif kind == "loop":
                os.symlink(os.path.basename(path), path)
            elif kind == "hard" and self.files:
                os.link(rng.choice(self.files), path)
            elif kind == "fifo":
                os.mkfifo(path)
            elif kind == "socket" and len(path) < 100:
                sock = socket.socket(socket.AF_UNIX)
                sock.bind(path)
                sock.close()
            elif kind == "crowd":
                os.mkdir(path)
                for number in range(rng.choice([50, 300])):
                    with open(os.path.join(path, "%s%d" % (rng.choice(["n", ".n"]), number)), "wb"):
                        pass
                self.dirs.append(path)
            elif kind == "outside":
                os.symlink(rng.choice(["/etc/hostname", "/dev/null", "/etc/hostname/x", "/nonexistent"]), path)
        except (OSError, IOError, ValueError):
            return

    def lock(self):
        path = self.rng.choice(self.dirs + self.files)
        if path != self.root:
            try:
                os.chmod(path, self.rng.choice([0, 0o100, 0o400, 0o600, 0o300]))
                self.locked.append(path)
            except (OSError, IOError):
                pass

    def unlock(self):
        for path in self.locked:
            try:
                os.chmod(path, 0o700)
            except (OSError, IOError):
                pass


def expected(root, limit):
    """What a walk finds: {path: (real subdirectories, {real file: size}, all names)} for each directory that can be listed."""
    out = {}
    todo = [("", 1)]
    while todo:
        path, depth = todo.pop()
        directories, files, names = set(), {}, set()
        try:
            with os.scandir(os.path.join(root, path)) as entries:
                found = list(entries)
        except (OSError, IOError):
            continue
        for entry in found:
            names.add(entry.name)
            if entry.name.startswith("."):
                continue
            try:
                if entry.is_dir(follow_symlinks=False):
                    directories.add(entry.name)
                    if limit is None or depth < limit:
                        todo.append((os.path.join(path, entry.name), depth + 1))
                elif entry.is_file(follow_symlinks=False):
                    try:
                        files[entry.name] = os.lstat(entry.path).st_size
                    except (OSError, IOError):
                        files[entry.name] = None
                elif entry.is_symlink() and os.path.isfile(entry.path):
                    # A file all the same
                    files[entry.name] = os.stat(entry.path).st_size
            except (OSError, IOError):
                pass
        out[path] = (directories if limit is None or depth < limit else set(), files, names)
    return out


def verify(ctx, root, result, sizes, limit, changing=(), **witness):
    """`changing`: top-level names below which anything may be listed."""
    want = expected(root, limit)
    listed = result["directories"]
    witness["root"] = root
    stable = lambda p: p.split("/")[0] not in changing
    for path, (directories, files, names) in want.items():
        if not stable(path):
            continue
        ctx.check(path in listed, "a directory was not reported", path=path, **witness)
        entry = listed[path]
        ctx.check(set(entry) <= {"dirs", "files"}, "a directory entry has other keys", entry=list(entry), **witness)
        got_dirs, got_files = list(entry.get("dirs", [])), [tuple(f) for f in entry.get("files", [])]
        names_of = [f[0] for f in got_files]
        ctx.check(len(set(got_dirs)) == len(got_dirs) and len(set(names_of)) == len(names_of) and not set(got_dirs) & set(names_of), "a name was reported twice in its directory",
                  path=path, dirs=got_dirs, files=names_of, **witness)
        lost = [d for d in directories if d not in got_dirs and (path or stable(d))]
        ctx.check(not lost, "a directory was not listed in its parent", path=path, missing=lost, got=got_dirs, **witness)
        lost = [f for f in files if f not in names_of and (path or stable(f))]
        ctx.check(not lost, "a file was not reported", path=path, missing=lost, got=names_of[:50], **witness)
        for name, size in got_files:
            if name in files and stable(path) and (path or stable(name)):
                if not sizes:
                    ctx.check(size == -1, "a size was reported that was not asked for", path=path, file=name, size=size, **witness)
                elif files[name] is not None:
                    ctx.check(size == files[name], "a file was reported with another size", path=path, file=name, got=size, want=files[name], **witness)
    count = 0
    for path, entry in listed.items():
        parts = path.split("/") if path else []
        if not stable(path) or (changing and path not in want):
            continue  # May lead to what changed
        ctx.check(not any(p.startswith(".") for p in parts), "something hidden was reported", path=path, **witness)
        ctx.check(limit is None or len(parts) < max(limit, 1), "a directory below the depth limit was reported", path=path, limit=limit, **witness)
        if path:
            ctx.check(os.path.isdir(os.path.join(root, path)), "a directory that does not exist was reported", path=path, **witness)
            parent, name = os.path.split(path)
            ctx.check(parent in listed and name in listed[parent].get("dirs", []), "a directory is not listed in its parent", path=path, **witness)
        for name in entry.get("dirs", []):
            count += 1
            if path or stable(name):
                ctx.check(not name.startswith(".") and "/" not in name, "something hidden was reported", path=path, name=name, **witness)
                if path not in want or name not in want[path][0]:
                    full = os.path.join(root, path, name)
                    if changing and os.path.islink(full):
                        continue
                    ctx.check(os.path.isdir(full) or not os.access(os.path.dirname(full), os.X_OK), "something that is not a directory was reported as one", path=path, name=name, **witness)
        for name, size in entry.get("files", []):
            count += 1
            if path or stable(name):
                ctx.check(not name.startswith(".") and "/" not in name, "something hidden was reported", path=path, name=name, **witness)
                if path not in want or name not in want[path][1]:
                    full = os.path.join(root, path, name)
                    if changing and os.path.islink(full):
                        continue
                    ctx.check(os.path.isfile(full) or (not os.access(os.path.dirname(full), os.X_OK)),
                              "something that is not a regular file was reported as one", path=path, name=name, **witness)
    ctx.count("entries", count)
    ctx.count("directories", len(listed))
    return want


def scan_once(ctx, scan_directory, root, sizes, limit, **witness):
    started = monotonic()
    with ctx.guard("a scan", 60.0, root=root, **witness):
        options = {} if limit == 10 else {"max_depth": limit}
        try:
            result = scan_directory(root, file_sizes=sizes, **options)
        except (OSError, ValueError) as error:
            ctx.fail("a scan failed as a whole", error=repr(error), root=root, **witness)
    ctx.count("scans")
    ctx.check(set(result) >= {"root", "time", "directories"}, "a scan has other keys", keys=sorted(result))
    ctx.check(result["root"] == os.path.abspath(root), "a scan reports another root", got=result["root"], want=root)
    return result


def trees(ctx, shard):
    from dataplicity.scan_directory import scan_directory
    rng = ctx.rng()
    for number in range(ctx.pick(120, 1500)):
        tree = Tree(ctx, rng)
        for _ in range(rng.choice([0, 1, 5, 30, 80])):
            tree.add()
        if rng.random() < 0.4:
            for _ in range(rng.randrange(1, 6)):
                tree.lock()
        limit = rng.choice([10, 10, 10, 1, 2, 3, 5, None])
        sizes = rng.random() < 0.7
        root = rng.choice([tree.root, tree.root, tree.root + "/", os.path.join(tree.root, "../" + os.path.basename(tree.root)), os.path.relpath(tree.root)])
        if rng.random() < 0.1:
            os.symlink(tree.root, tree.root + ".link")
            root = tree.root + ".link"
        result = scan_once(ctx, scan_directory, root, sizes, limit)
        want = verify(ctx, os.path.abspath(root), result, sizes, limit, asked=(sizes, limit))
        # What is a tree must also be one as JSON
        ctx.equal(json.loads(json.dumps(result))["directories"].keys(), result["directories"].keys(), "the scan can't be published")
        ctx.case((sorted(want), sizes, limit), nontrivial=len(want) > 1, sample={"directories": len(want), "files": sum(len(w[1]) for w in want.values()), "limit": limit})
        tree.unlock()
    ctx.require("entries", 1000)


def links(ctx, shard):
    """Trees whose links would lead a naive walk astray (or never back)."""
    from dataplicity.scan_directory import scan_directory
    rng = ctx.rng()
    for number in range(ctx.pick(60, 500)):
        tree = Tree(ctx, rng)
        for _ in range(rng.randrange(4, 12)):
            tree.add(rng.choice(["dir", "dir", "chain"]))
        for _ in range(rng.randrange(5, 40)):
            tree.add(rng.choice(["uplink", "uplink", "dirlink", "dirlink", "dirlink", "filelink", "loop", "broken", "file"]))
        # Links that come before what they lead to in any order of names
        for name in ("0first", "zlast", "M"):
            path = os.path.join(tree.root, name)
            if not os.path.lexists(path):
                os.symlink(rng.choice(tree.dirs), path)
        for limit in (10, rng.choice([None, 3, 4])):
            result = scan_once(ctx, scan_directory, tree.root, True, limit)
            real = expected(tree.root, limit)
            verify(ctx, tree.root, result, True, limit, asked=limit)
        ctx.case(("links", sorted(real)), sample={"directories": len(real), "reported": len(result["directories"])})
    for number in range(ctx.pick(30, 200)):
        single_link(ctx, rng, scan_directory)
    ctx.require("entries", 1000)
    ctx.require("listed_below_links", 30)


def single_link(ctx, rng, scan_directory):
    """A tree with a single link, to a folder that doesn't contain it, shows what is in that folder below the link."""
    tree, outside = Tree(ctx, rng), Tree(ctx, rng)
    for _ in range(rng.randrange(3, 15)):
        tree.add(rng.choice(["dir", "dir", "chain", "file", "file"]))
    for _ in range(rng.randrange(0, 15)):
        outside.add(rng.choice(["dir", "file", "file", "chain"]))
    target = rng.choice([rng.choice(tree.dirs), rng.choice(tree.dirs), rng.choice(outside.dirs)])
    folders = [d for d in tree.dirs if not (d + "/").startswith(target + "/") and not any(part.startswith(".") for part in os.path.relpath(d, tree.root).split("/") if part != ".")]
    if not folders:
        return
    folder = rng.choice(folders)
    name = rng.choice(["0first", "M", "zlast", "with space"])
    link = os.path.join(folder, name)
    if os.path.lexists(link):
        return
    os.symlink(rng.choice([target, os.path.relpath(target, os.path.realpath(folder))]), link)
    below = os.path.relpath(link, tree.root)
    limit = rng.choice([10, 10, None, 4])
    result = scan_once(ctx, scan_directory, tree.root, True, limit)
    verify(ctx, tree.root, result, True, limit, asked=limit)
    left = None if limit is None else limit - len(below.split("/"))
    witness = dict(root=tree.root, link=below, target=target, limit=limit)
    if left is not None and left < 1:
        return
    for path, (directories, files, _) in expected(target, left).items():
        at = os.path.normpath(os.path.join(below, path))
        ctx.check(at in result["directories"], "a directory that a link leads to was not reported", path=at, **witness)
        entry = result["directories"][at]
        ctx.equal(sorted(entry.get("dirs", [])), sorted(directories), "a directory reached through a link was reported with other directories", path=at, **witness)
        ctx.equal(sorted(tuple(f) for f in entry.get("files", [])), sorted(files.items()), "a directory reached through a link was reported with other files", path=at, **witness)
        ctx.count("listed_below_links")
    ctx.case(("single", below, left, sorted(files)))


def changing(ctx, shard):
    """Parts of the tree come and go during the scan; the others stay complete."""
    from dataplicity.scan_directory import scan_directory
    rng = ctx.rng()
    for number in range(ctx.pick(12, 120)):
        tree = Tree(ctx, rng)
        for _ in range(60):
            tree.add()
        volatile = ["volatile%d" % i for i in range(4)]
        ending = threading.Event()
        base = rng.randrange(10 ** 6)

        def disturb():
            turn = base
            while not ending.is_set():
                turn += 1
                top = os.path.join(tree.root, volatile[turn % len(volatile)])
                try:
                    if turn % 3 == 0:
                        os.mkdir(top)
                        for i in range(20):
                            os.mkdir(os.path.join(top, "d%d" % i))
                            with open(os.path.join(top, "f%d" % i), "wb"):
                                pass
                    elif turn % 3 == 1:
                        for i in range(20):
                            os.rmdir(os.path.join(top, "d%d" % i))
                            os.remove(os.path.join(top, "f%d" % i))
                        os.rmdir(top)
                    elif os.path.isdir(top):
                        os.rename(top, os.path.join(tree.root, volatile[(turn + 1) % len(volatile)]))
                    else:
                        with open(top, "wb"):
                            pass
                        os.remove(top)
                except (OSError, IOError):
                    pass

        threads = [threading.Thread(target=disturb, name="vf-disturb")]
        for thread in threads:
            thread.daemon = True
            thread.start()
        try:
            for _ in range(8):
                result = scan_once(ctx, scan_directory, tree.root, True, 10)
                ctx.case(("changing", number, len(result["directories"])))
                last = result
        finally:
            ending.set()
            for thread in threads:
                thread.join()
        verify(ctx, tree.root, last, True, 10, changing=tuple(volatile))
    vanishing(ctx, rng, scan_directory)


def vanishing(ctx, rng, scan_directory):
    """Directories vanish exactly between being listed and being entered."""
    real = os.scandir
    import dataplicity.scan_directory as module
    if getattr(module, "scandir", None) is not real:
        return
    for number in range(ctx.pick(40, 400)):
        tree = Tree(ctx, rng)
        for _ in range(40):
            tree.add(rng.choice(["dir", "dir", "chain", "file", "file", "dirlink"]))
        victims = set(rng.sample(tree.dirs[1:], min(len(tree.dirs) - 1, rng.randrange(1, 4))))
        tops = {os.path.relpath(v, tree.root).split("/")[0] for v in victims}

        def scandir(path):
            path = os.path.abspath(path)
            if path in victims and os.path.lexists(path):
                os.rename(path, tree.root + ".gone%d" % rng.randrange(10 ** 9))
            return real(path)

        module.scandir = scandir
        try:
            result = scan_once(ctx, scan_directory, tree.root, True, 10)
        finally:
            module.scandir = real
        verify(ctx, tree.root, result, True, 10, changing=tuple(tops | {n for n in os.listdir(tree.root) if os.path.islink(os.path.join(tree.root, n))}), victims=sorted(victims))
        ctx.case(("vanishing", sorted(tree.dirs), sorted(victims)))
    failing(ctx, rng, scan_directory, module, real)


class Failing(object):
    """Listing a directory fails after some entries."""

    def __init__(self, entries, good, error):
        self.entries, self.good, self.error = entries, good, error

    def __iter__(self):
        return self

    def __next__(self):
        if self.good == 0:
            raise self.error
        self.good -= 1
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *_args):
        self.close()

    def close(self):
        self.entries.close()


def failing(ctx, rng, scan_directory, module, real):
    """Directories that can't be listed, or only in part; all others stay complete."""
    for number in range(ctx.pick(40, 400)):
        tree = Tree(ctx, rng)
        for _ in range(40):
            tree.add(rng.choice(["dir", "dir", "chain", "file", "file"]))
        victims = set(rng.sample(tree.dirs[1:], min(len(tree.dirs) - 1, rng.randrange(1, 4))))
        tops = {os.path.relpath(v, tree.root).split("/")[0] for v in victims}
        error = rng.choice([OSError(5, "Input/output error"), PermissionError(13, "Permission denied"), OSError(116, "Stale file handle"),
                            UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte"), ValueError("odd")])
        good = rng.choice([None, 0, 0, 1, 2])

        def scandir(path="."):
            if os.path.abspath(path) in victims:
                if good is None:
                    raise error
                return Failing(real(path), good, error)
            return real(path)

        module.scandir = scandir
        try:
            result = scan_once(ctx, scan_directory, tree.root, True, 10)
        finally:
            module.scandir = real
        verify(ctx, tree.root, result, True, 10, changing=tuple(tops), victims=sorted(victims), error=repr(error), after=good)
        ctx.case(("failing", sorted(tree.dirs), sorted(victims), good), sample={"failing directories": len(victims), "after entries": good, "error": repr(error)})
        ctx.count("failing_directories", len(victims))


def agent(ctx, shard):
    """The tree as the server reads it."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        tree = Tree(ctx, rng)
        tree.root = os.path.realpath(w.remote_dir)
        tree.dirs = [tree.root]
        for number in range(ctx.pick(25, 250)):
            for _ in range(rng.choice([0, 1, 10])):
                tree.add()
            if rng.random() < 0.3:
                tree.lock()
            before = len(conn.packets("scan_remote_directory_result"))
            with ctx.guard("a scan by the agent", 60.0):
                conn.send("scan_remote_directory")
                conn.wait(lambda: len(conn.packets("scan_remote_directory_result")) > before, 50.0)
            answers = conn.packets("scan_remote_directory_result")[before:]
            ctx.check(len(answers) == 1 and answers[0].packet[1] == b"", "a scan was not answered with success", answers=answers, log=list(world.log_lines)[-5:])
            conn.send("open_remote_file", b"scan", b"\0scan.json")
            w.sync()
            size = conn.packets("open_remote_file_result")[-1].packet[2]
            conn.send("read_remote_file", b"scan", 0, max(0, size))
            conn.send("close_remote_file", b"scan")
            w.sync()
            result = json.loads(conn.packets("read_remote_file_result")[-1].packet[4].decode("utf-8"))
            want = verify(ctx, tree.root, result, True, 10)
            ctx.case(("agent", sorted(want)))
            if rng.random() < 0.2:
                tree.unlock()
        tree.unlock()


def run(ctx, shard):
    world.load()
    ctx.become(65534, 65534)
    os.chdir(ctx.scratch)
    if shard == "agent":
        agent(ctx, shard)
    elif shard == "changing":
        changing(ctx, shard)
    elif shard.startswith("links"):
        links(ctx, shard)
    else:
        trees(ctx, shard)
