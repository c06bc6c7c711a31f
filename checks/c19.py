"""C19: remote file requests cannot reach outside their directories."""
import builtins
import hashlib
import os
import stat
import tempfile
import threading

from vf import world

RULE = ("A case is one remote file request built from hostile ids, paths and device paths (dot-dot components in every position, "
        "absolute and relative paths, siblings whose names extend those of the directories, special and undecodable names), sent "
        "to an agent running as an unprivileged user, among ordinary transfers. Files with secret marks lie everywhere around; all "
        "files are compared before and after, results are searched for secrets, and opens, removals and renames of the agent are "
        "recorded. Non-trivial: distinct (request, where it leads, form of the path).")
SHARDS = {"quick": ["uploads", "downloads", "mixed", "spelling"], "thorough": ["uploads", "downloads"] + ["mixed%d" % i for i in range(4)] + ["spelling", "spelling2"]}
ALLOWED = ("remote", "tmp/dataplicity_remote/", "tmp/dataplicity_remote_downloads/", "tmp/__dataplicity_remote_directory_scan___.json")


class Recorder(object):
    """Records which paths the agent opens, removes, creates and renames on its m2m thread."""

    def __init__(self, thread):
        self.thread = thread
        self.log = []
        self.saved = []
        self._wrap(builtins, "open", self._open)
        for name in ("remove", "unlink", "rmdir", "mkdir", "makedirs", "truncate", "chmod", "chown", "lchown", "utime", "open"):
            self._wrap(os, name, self._one(name))
        for name in ("rename", "replace", "link", "symlink"):
            self._wrap(os, name, self._two(name))

    def _wrap(self, module, name, make):
        real = getattr(module, name, None)
        if real is None:
            return
        wrapper = make(real)
        self.saved.append((module, name, real))
        setattr(module, name, wrapper)

    def note(self, kind, path):
        if threading.current_thread() is self.thread and isinstance(path, (str, bytes)):
            self.log.append((kind, os.path.normpath(os.path.join(os.getcwd(), os.fsdecode(path)))))

    def _open(self, real):
        def wrapper(path, mode="r", *args, **options):
            self.note("write" if set(mode) & set("wax+") else "read", path)
            return real(path, mode, *args, **options)
        return wrapper

    def _one(self, name):
        def make(real):
            def wrapper(path, *args, **options):
                self.note(name, path)
                return real(path, *args, **options)
            return wrapper
        return make

    def _two(self, name):
        def make(real):
            def wrapper(source, target, *args, **options):
                if name in ("rename", "replace"):
                    self.note(name + "-from", source)
                self.note(name, target)
                return real(source, target, *args, **options)
            return wrapper
        return make

    def undo(self):
        for module, name, real in self.saved:
            setattr(module, name, real)


def picture(root):
    """Every file below a directory: its kind, mode, and contents."""
    out = {}
    for directory, names, files in os.walk(root):
        for name in names + files:
            path = os.path.join(directory, name)
            try:
                info = os.lstat(path)
                kind = stat.S_IFMT(info.st_mode)
                if kind == stat.S_IFREG:
                    with open(path, "rb") as fh:
                        data = hashlib.md5(fh.read()).hexdigest()
                elif kind == stat.S_IFLNK:
                    data = os.readlink(path)
                else:
                    data = None
                out[path] = (kind, stat.S_IMODE(info.st_mode), data)
            except (OSError, IOError):
                out[path] = None
    return out


DEEP = "d/" * 70


class Place(object):
    """The scratch file system: the directories the agent may use, and secrets all around."""

    def __init__(self, ctx, rng, w):
        self.ctx, self.rng = ctx, rng
        self.root = os.path.realpath(w.home)
        self.remote = os.path.realpath(w.remote_dir)
        self.tmp = os.path.realpath(tempfile.gettempdir())
        self.snapshots = os.path.join(self.tmp, "dataplicity_remote")
        self.downloads = os.path.join(self.tmp, "dataplicity_remote_downloads")
        self.scan = os.path.join(self.tmp, "__dataplicity_remote_directory_scan___.json")
        self.cwd = ctx.dir("cwd")
        os.chdir(self.cwd)
        self.secrets = {}
        self.plain = {}
        parent = os.path.dirname(self.remote)
        for directory in (parent, self.tmp, self.cwd, os.path.join(parent, "other"), self.remote + "-secret", self.remote + "2", self.snapshots + "-secret",
                          self.downloads + "-secret", self.downloads + "2", os.path.join(self.tmp, "deep", "er")):
            if not os.path.isdir(directory):
                os.makedirs(directory)
            for name in ("secret", "canary.txt"):
                self.secret(os.path.join(directory, name))
        self.secret(self.remote + ".txt")
        self.secret(self.snapshots + ".json")
        for name in ("file.txt", "sub/inner.txt", "sub/deep/er.bin", "etc/passwd", "canary.txt", "...", "..hidden/x", "a..b", "with..", "%2e%2e/x", "..\\x", "~/x", "scan.json"):
            path = os.path.join(self.remote, name)
            if not os.path.isdir(os.path.dirname(path)):
                os.makedirs(os.path.dirname(path))
            data = ("PLAIN:%s:" % name).encode() * 3
            self.plain[name] = data
            with open(path, "wb") as fh:
                fh.write(data)
        os.makedirs(os.path.join(self.remote, DEEP))
        with open(self.scan, "wb") as fh:
            fh.write(b'{"the": "scan"}')

    def secret(self, path):
        token = b"SECRET-%016x" % self.rng.getrandbits(64)
        self.secrets[path] = token
        with open(path, "wb") as fh:
            fh.write(token * 4)

    def picture(self):
        out = picture(self.root)
        for directory in (self.tmp, self.cwd):
            out.update(picture(directory))
        return out

    def inside(self, path):
        """Is the (normal) path one that the agent may use?"""
        return path == self.scan or any(path == d or path.startswith(d + "/") for d in (self.remote, self.snapshots, self.downloads))

    def relevant(self, path):
        return path.startswith((self.root + "/", self.tmp + "/", self.cwd + "/")) or path in ("/etc/passwd", "/etc/hostname")


def climb(rng, base, target):
    """A relative path from base to target, possibly with noise, that leads out of base."""
    while True:
        path = noisy(rng, base, target)
        resolved = os.path.normpath(os.path.join(base, path.lstrip("/")))
        if resolved != base and not resolved.startswith(base + "/"):
            return path


def noisy(rng, base, target):
    path = os.path.relpath(target, base)
    style = rng.choice(["plain", "plain", "slash", "dot", "double", "through", "trailing", "long"])
    if style == "slash":
        path = "/" + path
    elif style == "dot":
        path = "./" + path
    elif style == "double":
        path = path.replace("/", "//")
    elif style == "through":
        path = rng.choice(["sub/", "sub/deep/", "missing/", "file.txt/", "sub/./"]) + "../" * 0 + "../" * rng.choice([1, 2]) + path
    elif style == "long":
        # The way out comes after many components
        many = rng.choice([10, 40, 150, 600])
        path = rng.choice(["./" * many, "sub" + "/" * many + "../", DEEP + "../" * DEEP.count("/"), "sub/" + "./" * many + "../", "x" * min(many, 200) + "/../"]) + path
    elif style == "trailing":
        path = path + rng.choice(["/", "/.", "/..//" + os.path.basename(target)])
    return path


def outside_path(rng, place):
    """(path as sent, where it leads, form): a path a remote directory must not resolve."""
    target = rng.choice(sorted(place.secrets) + ["/etc/passwd", "/etc/hostname"])
    form = rng.choice(["climb", "climb", "climb", "climb", "deep-climb", "special", "special", "nul"])
    if form == "climb":
        return climb(rng, place.remote, target), target, form
    if form == "deep-climb":
        return rng.choice(["a/b/c/", "./", "sub/"]) + "../" * rng.choice([12, 30]) + target.lstrip("/"), target, form
    if form == "special":
        return rng.choice(["\0", "\0/", "\0scan.json/../"]) + rng.choice([target, "secret", "../" * 8 + target.lstrip("/"), climb(rng, place.tmp, target)]), target, form
    return "file.txt" + "\0" + target, target, form


def messy_path(rng, place, target):
    """A path that may or may not be refused, but must not lead to the target."""
    form = rng.choice(["slashes", "slashes", "slashes", "home", "url", "backslash", "encoded", "prefix", "drive", "space", "newline"])
    absolute = rng.choice([target, place.remote + "-secret/canary.txt", place.remote + "2/new", "/etc/passwd"])
    return {"slashes": lambda: "/" * rng.choice([1, 2, 2, 2, 3, 4, 7]) + absolute, "home": lambda: rng.choice(["~/", "~root/", "~"]) + absolute,
            "url": lambda: "file://" + absolute, "backslash": lambda: absolute.replace("/", "\\"), "encoded": lambda: "%2e%2e/" * 8 + absolute,
            "prefix": lambda: place.remote + absolute, "drive": lambda: "sub/" + absolute, "space": lambda: rng.choice([" ", "\t", "\u2215"]) + absolute,
            "newline": lambda: "\n" + absolute}[form](), form


def bad_id(rng, place, directory):
    target = rng.choice(sorted(place.secrets))
    form = rng.choice(["climb", "climb", "climb", "absolute", "sub", "dot", "dotdot", "empty", "nul", "trailing", "bytes"])
    value = {"climb": lambda: climb(rng, directory, target), "absolute": lambda: target, "sub": lambda: "some/id", "dot": lambda: ".",
             "dotdot": lambda: "..", "empty": lambda: "", "nul": lambda: "\0" + target, "trailing": lambda: "../" + os.path.basename(directory) + "/../secret",
             "bytes": lambda: b"\xff\xfe/../../secret"}[form]()
    return value, form


def device_path(rng, place):
    target = rng.choice(sorted(place.secrets) + [os.path.join(place.remote, "file.txt"), os.path.join(place.remote, "canary.txt"), place.scan])
    form = rng.choice(["absolute", "absolute", "climb", "climb", "relative", "prefix", "directory", "nul", "bytes", "snapshot", "new"])
    if form == "absolute":
        return target, form
    if form == "climb":
        return place.downloads + "/" + climb(rng, place.downloads, target).lstrip("/"), form
    if form == "relative":
        return rng.choice(["canary.txt", "secret", "./secret", os.path.relpath(target, place.cwd)]), form
    if form == "prefix":
        return place.downloads + rng.choice(["-secret/canary.txt", "2/secret", "2"]), form
    if form == "directory":
        return rng.choice([place.downloads, place.downloads + "/", place.downloads + "/.", place.downloads + "/..", place.tmp, "/", place.remote]), form
    if form == "nul":
        return place.downloads + "/x\0" + target, form
    if form == "bytes":
        return os.fsencode(place.downloads) + b"/\xff\xfe/../../secret", form
    if form == "snapshot":
        return rng.choice([place.snapshots + "/snap-ok", place.downloads + "/../dataplicity_remote/snap-ok"]), form
    return rng.choice([place.tmp + "/new-file", place.remote + "/new-file", place.root + "/new-file", place.downloads + "/sub/new"]), form


def as_bytes(value):
    return value if isinstance(value, bytes) else value.encode("utf-8")


class Session(object):
    def __init__(self, ctx, shard, w):
        self.ctx, self.w = ctx, w
        self.rng = ctx.rng()
        self.place = Place(ctx, self.rng, w)
        self.conn = w.conn
        self.recorder = Recorder(w.ws)
        self.serial = 0
        self.ask("open_remote_file", b"snap-ok", b"file.txt")
        self.download_path = self.ask("write_remote_file", b"down-ok", b"first", b"", 0, b"DOWN", 0).packet[4]
        self.ask("scan_remote_directory")

    def ask(self, name, *fields):
        """Send a request; its result (or None), once handled."""
        before = len(self.conn.entries)
        self.conn.send(name, *fields)
        results = [name + "_result"] if name != "close_remote_file" else []
        if results:
            self.conn.wait(lambda: [e for e in self.conn.packets(*results) if e in self.conn.entries[before:]], 20.0)
        self.w.sync(self.conn)
        found = [e for e in self.conn.entries[before:] if e.kind == "packet" and e.name in results]
        self.ctx.check(len(found) == len(results), "a request did not get exactly one result", request=(name, fields), results=found,
                       log=list(world.log_lines)[-6:])
        return found[0] if found else None

    def look(self):
        return self.place.picture()

    def verify(self, name, fields, result, before, hostile, form):
        ctx, place = self.ctx, self.place
        after = self.look()
        witness = dict(request=name, fields=fields, result=result and result.packet, form=form, log=list(world.log_lines)[-4:])
        changed = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
        outside = [p for p in changed if not place.inside(p)]
        ctx.check(not outside, "something outside the remote directory and the transfer areas changed", changed=outside,
                  before=[before.get(p) for p in outside], after=[after.get(p) for p in outside], **witness)
        lost = [p for p in before if p.startswith(place.remote + "/") and after.get(p) != before[p]]
        ctx.check(not lost, "a file in the remote directory was changed or removed", changed=lost, **witness)
        ctx.check(before[place.scan] == after.get(place.scan), "the published scan was changed", **witness)
        if result is not None:
            for path, token in place.secrets.items():
                ctx.check(token not in result.raw, "the contents of a file outside were sent", file=path, **witness)
            ctx.check(b"root:x:0:0" not in result.raw, "the contents of a file outside were sent", file="/etc/passwd", **witness)
        for directory in (place.snapshots, place.downloads, place.remote):
            for path in after:
                if path.startswith(directory + "/") and path not in before and after[path] and after[path][0] == stat.S_IFREG:
                    with open(path, "rb") as fh:
                        data = fh.read()
                    secret = [p for p, token in place.secrets.items() if token in data] + (["/etc/passwd"] if b"root:x:0:0" in data else [])
                    ctx.check(not secret, "a file outside was copied where it can be read", file=secret, copy=path, **witness)
        bad = [(kind, p) for kind, p in self.recorder.log if place.relevant(p) and not place.inside(p)]
        del self.recorder.log[:]
        ctx.check(not bad, "the agent used a file outside the remote directory and the transfer areas", used=bad, **witness)
        if hostile:
            ctx.check(not changed, "a request that has to be refused changed something", changed=changed, **witness)
            ctx.count("refused")
            if result is not None:
                failed = result.packet[{"open_remote_file_result": 3, "read_remote_file_result": 5, "write_remote_file_result": 5}[result.name]]
                ctx.check(failed != 0, "a request that leads outside was not refused", **witness)
                if result.name == "read_remote_file_result":
                    ctx.check(not result.packet[4], "a refused read sent data", **witness)
                if result.name == "open_remote_file_result":
                    ctx.check(result.packet[2] == -1 or result.packet[2] < 0, "a refused open reported a size", **witness)

    def request(self, name, fields, hostile, form):
        before = self.look()
        result = self.ask(name, *fields)
        self.verify(name, fields, result, before, hostile, form)
        self.ctx.case((name, form, hostile, fields[1:2] if hostile else None), sample={"request": name, "fields": fields, "form": form,
                                                                                      "result": result.packet if result else None})
        return result

    def uploads(self):
        rng, place = self.rng, self.place
        self.serial += 1
        ident = ("up-%d" % self.serial)
        kind = rng.random()
        if kind < 0.4:
            path, target, form = outside_path(rng, place)
            self.request("open_remote_file", [ident.encode(), as_bytes(path)], True, "path-" + form)
            # Nothing usable was left behind
            data = self.request("read_remote_file", [ident.encode(), 0, 1000], True, "after-refusal").packet[4]
            self.ctx.check(not data, "a refused open left a usable upload", path=path)
        elif kind < 0.55:
            value, form = bad_id(rng, place, place.snapshots)
            self.request("open_remote_file", [as_bytes(value), b"file.txt"], True, "id-" + form)
        elif kind < 0.7:
            value, form = bad_id(rng, place, place.snapshots)
            self.request("read_remote_file", [as_bytes(value), rng.choice([0, 3]), rng.choice([0, 10, 1000])], True, "id-" + form)
        elif kind < 0.85:
            value, form = bad_id(rng, place, place.snapshots)
            self.request("close_remote_file", [as_bytes(value)], True, "id-" + form)
        elif kind < 0.9:
            path, form = messy_path(rng, place, rng.choice(sorted(place.secrets)))
            result = self.request("open_remote_file", [ident.encode(), path.encode("utf-8")], False, "messy-" + form)
            if result.packet[3] == 0:
                self.request("read_remote_file", [ident.encode(), 0, 1000], False, "messy-" + form)
            self.ctx.count("messy")
        elif kind < 0.96:
            name = rng.choice(sorted(place.plain))
            result = self.request("open_remote_file", [ident.encode(), (rng.choice(["", "/", "//"]) + name).encode()], False, "inside")
            if result.packet[3] == 0:
                data = self.request("read_remote_file", [ident.encode(), 0, 1000], False, "inside").packet[4]
                self.ctx.equal(data, place.plain[name], "another file than the one requested was read", name=name)
                self.ctx.count("read inside")
                self.request("close_remote_file", [ident.encode()], False, "inside")
        else:
            result = self.request("open_remote_file", [ident.encode(), b"\0scan.json"], False, "scan")
            if result.packet[3] == 0:
                data = self.request("read_remote_file", [ident.encode(), 0, 100000], False, "scan").packet[4]
                self.ctx.check(data.startswith(b"{"), "the scan was not served", data=data)
                self.ctx.count("scan read")

    def write_downloads(self):
        rng, place = self.rng, self.place
        self.serial += 1
        ident = b"dl-%d" % self.serial
        data = rng.choice([b"", b"DATA-%d" % self.serial])
        kind = rng.random()
        if kind < 0.3:
            value, form = bad_id(rng, place, place.downloads)
            self.request("write_remote_file", [as_bytes(value), b"new-%d" % self.serial, b"", 0, data, rng.choice([0, 1])], True, "id-" + form)
        elif kind < 0.65:
            value, form = device_path(rng, place)
            final = rng.choice([0, 1])
            if form == "directory" and not final:
                data = b"DATA"
            self.request("write_remote_file", [rng.choice([ident, b"down-ok"]), b"new-%d" % self.serial, as_bytes(value), rng.choice([0, 0, 5]), data, final], True, "device-" + form)
        elif kind < 0.75:
            target = rng.choice(sorted(place.secrets) + [place.root + "/new-messy", place.tmp + "/new-messy"])
            path, form = messy_path(rng, place, target)
            self.request("write_remote_file", [ident, path.encode("utf-8"), b"", 0, data, 1], False, "messy-" + form)
            self.ctx.count("messy")
        elif kind < 0.9:
            # A download that is fine until it is to be stored somewhere else
            target = rng.choice(sorted(place.secrets) + [place.root + "/new", place.tmp + "/new", place.cwd + "/new", place.remote + "-secret/new", place.remote + "3"])
            path = climb(rng, place.remote, target)
            if rng.random() < 0.2:
                path = rng.choice(["..", "../", "sub/../..", "../x" * 3])
            started = self.request("write_remote_file", [ident, path.encode(), b"", 0, data, 0], False, "start")
            before = self.look()
            fields = [ident, path.encode(), started.packet[4], 4, b"more", 1]
            result = self.ask("write_remote_file", *fields)
            self.verify("write_remote_file", fields, result, before, False, "destination")
            self.ctx.check(result.packet[5] != 0, "a download was stored outside", path=path, result=result.packet)
            after = self.look()
            new = [p for p in after if p not in before]
            self.ctx.check(not new, "a download with an illegal destination was stored", new=new, path=path)
            self.ctx.count("refused")
            self.ctx.case(("write", "destination", path))
        else:
            name = "%s%s-%d" % (rng.choice(["", "/", "sub/", "/sub/deep/", "missing/"]), rng.choice(["got", "..x", "x..", "~", "\\..\\"]), self.serial)
            before = set(self.look())
            result = self.request("write_remote_file", [ident, name.encode(), b"", 0, data, 1], False, "inside")
            self.ctx.check(result.packet[5] == 0, "an ordinary download was refused", name=name, result=result.packet)
            new = [p for p in self.look() if p not in before and p.startswith(place.remote + "/")]
            self.ctx.check(len(new) == 1, "an ordinary download was not stored", name=name, new=new)
            self.ctx.count("stored")


def run(ctx, shard):
    world.load()
    ctx.become(65534, 65534)
    try:
        os.mkdir("/vf-c19-must-fail")
    except OSError:
        pass
    else:
        os.rmdir("/vf-c19-must-fail")
        raise RuntimeError("still privileged")
    spellings = [None]
    if shard.startswith("spelling"):
        spellings = [lambda p: p + "/", lambda p: p + "/.", lambda p: p + "/../" + os.path.basename(p), lambda p: os.path.relpath(p), lambda p: p.replace("/", "//"),
                     lambda p: "~/" + os.path.relpath(p, os.environ["HOME"])]
    rounds = ctx.pick(240, 3000) // len(spellings)
    for spelling in spellings:
        with world.World(ctx, remote_path=spelling) as w:
            w.join()
            w.sync()
            session = Session(ctx, shard, w)
            del session.recorder.log[:]
            try:
                for number in range(rounds):
                    which = "uploads" if shard == "uploads" else "downloads" if shard == "downloads" else session.rng.choice(["uploads", "downloads"])
                    if which == "uploads":
                        session.uploads()
                    else:
                        session.write_downloads()
            finally:
                session.recorder.undo()
    ctx.require("refused", 50)
    ctx.require("messy", 5)
    if shard != "downloads":
        ctx.require("read inside", 3)
    if shard != "uploads":
        ctx.require("stored", 3)
