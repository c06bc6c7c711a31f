"""C15: remote file reads stream exactly the file."""
import builtins
import io
import json
import os
import socket

from vf import sweep, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one read-file request: regular files of boundary sizes and unusual names and spellings of their path "
        "(relative, through links, with dots), several at once; things that cannot be opened or read (missing, directories, "
        "loops, bad names, a failure after some bytes); and transfers cut off by a closed channel or lost connection at random "
        "moments and at every line. The trace of the channel must be the contents and one close, or one error and one close. "
        "Non-trivial: distinct (kind of path, size, concurrency, moment).")
SHARDS = {"quick": ["contents1", "contents2", "errors", "cutoff", "bulk", "sweep"],
          "thorough": ["errors", "cutoff", "cutoff2", "bulk", "sweep"] + ["contents%d" % i for i in range(5)]}
CHUNK = 1024 * 1024


def body_of(rng, size):
    if size < 4096:
        return bytes(rng.getrandbits(8) for _ in range(size))
    unit = bytes(rng.getrandbits(8) for _ in range(48))
    return b"".join(b"%015d:" % i + unit for i in range(size // 64 + 1))[:size]


def verify_contents(ctx, conn, number, want, **witness):
    entries = conn.on_channel(number)
    kinds = [e.name for e in entries]
    sent = conn.sent_on(number)
    if sent != want:
        at = next((i for i in range(min(len(sent), len(want))) if sent[i] != want[i]), min(len(sent), len(want)))
        ctx.fail("the contents of the file were not sent exactly", differs_at=at, got_bytes=len(sent), want_bytes=len(want), got=sent[at:at + 40],
                 want=want[at:at + 40], trace=[repr(e)[:100] for e in entries if e.name != "request_send"], log=list(world.log_lines)[-6:], **witness)
    ctx.check("request_send_control" not in kinds, "a control message was sent for a file that could be read",
              trace=[repr(e) for e in entries if e.name == "request_send_control"], **witness)
    ctx.check(kinds.count("request_close") == 1 and kinds[-1] == "request_close", "the close was not requested exactly once, at the end", trace=kinds[-5:], **witness)


def verify_error(ctx, conn, number, prefix=b"", **witness):
    entries = conn.on_channel(number)
    rest = [e for e in entries if e.name != "request_send"]
    ctx.check([e.name for e in rest] == ["request_send_control", "request_close"] and [e.name for e in entries][-2:] == ["request_send_control", "request_close"],
              "a file that can't be read did not give one error message and then the close", trace=[repr(e) for e in entries][-6:],
              log=list(world.log_lines)[-6:], **witness)
    control = json.loads(rest[0].packet[2].decode("utf-8"))
    ctx.check(control.get("type") == "error", "the control message is not an error", control=control, **witness)
    ctx.check(prefix.startswith(conn.sent_on(number)), "data that is not in the file was sent", sent=conn.sent_on(number)[:100], **witness)


def names(rng):
    return rng.choice(["plain", "with space", "qu'ote\"s", "новый", "a" * 200, "new\nline", "*.[a]", "$HOME", "~", "-rf", "%s%d", "semi;colon", "tab\t", "e\u0301", "\U0001f600", ".hidden"])


KERNEL_FILES = ["/proc/kallsyms", "/proc/crypto", "/proc/filesystems", "/proc/devices", "/proc/iomem", "/proc/version"]


def in_pieces(path):
    out = []
    try:
        descriptor = os.open(path, os.O_RDONLY)
    except OSError:
        return None
    try:
        while True:
            out.append(os.read(descriptor, 65536))
            if not out[-1]:
                return b"".join(out)
            if len(out) > 20000:
                return None
    except OSError:
        return None
    finally:
        os.close(descriptor)


def contents(ctx, shard):
    rng = ctx.rng()
    base = os.path.realpath(ctx.dir("files"))
    with world.World(ctx, compress=rng.random() < 0.5) as w:
        conn = w.join()
        w.sync()
        number = 0
        jitter = sweep.Jitter(ctx.rng("j"), 0.02, 0.002, files=("fileservice.py",))
        with jitter:
            for round_number in range(ctx.pick(60, 500)):
                batch = []
                for _ in range(rng.choice([1, 1, 2, 6])):
                    number += 1
                    size = rng.choice([0, 0, 1, 2, 100, 4095, 4096, 65535, 65536, rng.randrange(300000)])
                    if rng.random() < 0.08:
                        size = rng.choice([CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 2 * CHUNK + 1])
                    want = body_of(rng, size)
                    directory = os.path.join(base, "%d" % number)
                    os.mkdir(directory)
                    path = os.path.join(directory, names(rng))
                    with open(path, "wb") as fh:
                        fh.write(want)
                    spelling = rng.choice(["plain", "plain", "relative", "dots", "link", "linkdir", "double", "dotstart"])
                    given = path
                    if spelling == "relative":
                        given = path[1:]
                        # a decoy where the agent's working directory would lead
                        decoy = os.path.join(os.getcwd(), given)
                        os.makedirs(os.path.dirname(decoy), exist_ok=True)
                        with open(decoy, "wb") as fh:
                            fh.write(b"decoy")
                    elif spelling == "dots":
                        given = os.path.join(directory, "..", "%d" % number, ".", os.path.basename(path))
                    elif spelling == "link":
                        given = os.path.join(directory, "link-to-it")
                        os.symlink(path, given)
                    elif spelling == "linkdir":
                        os.symlink(directory, directory + "-l")
                        given = os.path.join(directory + "-l", os.path.basename(path))
                    elif spelling == "double":
                        given = path.replace("/", "//")
                    elif spelling == "dotstart":
                        given = "." + path
                    batch.append((number, given, spelling, want))
                    conn.instruct("read-file", port=number, path=given.encode("utf-8"))
                for n, given, spelling, want in batch:
                    ctx.check(conn.wait(lambda: conn.close_requests(n), 60.0), "the close was never requested", path=given, channel=n,
                              log=list(world.log_lines)[-8:], stacks=world.stacks)
                real_sleep(0.002)
                for n, given, spelling, want in batch:
                    verify_contents(ctx, conn, n, want, path=given, spelling=spelling)
                    ctx.count("files")
                    ctx.count("bytes", len(want))
                    ctx.case((spelling, len(want), len(batch), os.path.basename(given)), sample={"path": given, "size": len(want), "together": len(batch)})
                    if rng.random() < 0.7:
                        conn.send("notify_close", n)
            # Files that give less than was asked for in one read, before their end
            for path in KERNEL_FILES:
                before = in_pieces(path)
                if before is None:
                    continue
                number += 1
                conn.instruct("read-file", port=number, path=path.encode())
                ctx.check(conn.wait(lambda: conn.close_requests(number), 60.0), "the close was never requested", path=path, channel=number,
                          log=list(world.log_lines)[-8:], stacks=world.stacks)
                real_sleep(0.002)
                if in_pieces(path) == before:
                    verify_contents(ctx, conn, number, before, path=path)
                    ctx.count("kernel files")
                    ctx.case(("kernel", path))
                conn.send("notify_close", number)
            w.sync()
            ctx.count("preemptions", jitter.stops)
        for entry in conn.packets("request_send", "request_send_control", "request_close"):
            ctx.check(1 <= entry.packet[1] <= number, "something was sent on another channel", entry=repr(entry))
    ctx.require("files", 40)


class FailsLater(io.RawIOBase):
    """A file whose reads fail once `good` bytes have been read."""

    def __init__(self, raw, good, error):
        self.raw_file, self.good, self.error, self.at = raw, good, error, 0

    def readable(self):
        return True

    def readinto(self, buffer):
        if self.at >= self.good:
            raise self.error
        data = self.raw_file.read(min(len(buffer), self.good - self.at))
        buffer[:len(data)] = data
        self.at += len(data)
        return len(data)

    def close(self):
        self.raw_file.close()
        io.RawIOBase.close(self)


def errors(ctx):
    rng = ctx.rng()
    base = os.path.realpath(ctx.dir("errors"))
    os.mkdir(os.path.join(base, "dir"))
    os.symlink("loop", os.path.join(base, "loop"))
    os.symlink("nowhere", os.path.join(base, "dangling"))
    unix = socket.socket(socket.AF_UNIX)
    os.chdir(base)
    unix.bind("unix")
    with open(os.path.join(base, "f"), "wb") as fh:
        fh.write(b"x")
    big = body_of(rng, 3 * CHUNK + 77)
    with open(os.path.join(base, "big"), "wb") as fh:
        fh.write(big)
    failing = {}
    real_open = builtins.open

    def opener(path, *rest, **options):
        plan = failing.get(path if isinstance(path, str) else None)
        if plan is None:
            return real_open(path, *rest, **options)
        good, error = plan
        if good is None:
            raise error
        return io.BufferedReader(FailsLater(real_open(path, "rb"), good, error), 65536)
    builtins.open = io.open = opener
    paths = ["", "/", base, base + "/dir", base + "/dir/", base + "/missing", base + "/missing/deeper", base + "/f/below", base + "/loop", base + "/dangling",
             base + "/unix", base + "/nul\0byte", "\0", "/" + "n" * 300, "/" + "d/" * 3000, "/proc/self/mem", "/proc/1/mem/none", "missing-relative", "../../../../../missing",
             base + "/f\0", "~/missing", "file://" + base + "/f", "/proc/self/task/1/nope",
             # not spelled as the file is
             "~/f", "~", "$HOME/f", "${HOME}/f", "~root/.bashrc", base + "/$F", base + "/?", base + "/*", base + "/F", base + "/%66", base + "/f ", " " + base + "/f",
             base + "/f\n", base + "/f/", base + "/./f/.", base + "\\f", base + "/missing/../f", base + "/f#x", base + "/f?x=1"]
    os.environ["HOME"], os.environ["F"] = base, "f"
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        number = 0
        for repeat in range(ctx.pick(3, 25)):
            for path in paths:
                number += 1
                conn.instruct("read-file", port=number, path=path.encode("utf-8"))
                ctx.check(conn.wait(lambda: conn.close_requests(number), 30.0), "the close was never requested for a file that can't be read", path=path,
                          log=list(world.log_lines)[-8:])
                verify_error(ctx, conn, number, path=path)
                ctx.count("errors")
                ctx.case(("error", path), sample={"path": path})
            for good in (None, 0, 1, 5000, CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 3 * CHUNK + 76):
                for error in (OSError(5, "Input/output error"), PermissionError(13, "Permission denied"), OSError(24, "Too many open files"), OSError(116, "Stale handle"), ValueError("odd"), MemoryError("none left")):
                    if good is not None and rng.random() < 0.5:
                        continue
                    number += 1
                    path = base + "/big"
                    failing[path] = (good, error)
                    conn.instruct("read-file", port=number, path=path.encode())
                    done = conn.wait(lambda: conn.close_requests(number), 30.0)
                    failing.clear()
                    ctx.check(done, "the close was never requested for a file that can't be read", good=good, error=repr(error), log=list(world.log_lines)[-8:])
                    verify_error(ctx, conn, number, prefix=big[:good or 0], good=good, error=repr(error))
                    ctx.count("errors")
                    ctx.case(("fails", good, repr(error)), sample={"fails after": good, "with": repr(error)})
            # and a good one still works
            number += 1
            conn.instruct("read-file", port=number, path=(base + "/f").encode())
            conn.wait(lambda: conn.close_requests(number), 30.0)
            verify_contents(ctx, conn, number, b"x")
    builtins.open = io.open = real_open
    ctx.require("errors", 60)


def cutoff(ctx, shard):
    rng = ctx.rng()
    base = ctx.dir("cut")
    size = 24 * CHUNK
    body = body_of(rng, size)
    path = os.path.join(base, "big")
    with open(path, "wb") as fh:
        fh.write(body)
    with world.World(ctx, compress=False) as w:
        conn = w.join()
        w.sync()
        for number in range(1, ctx.pick(18, 120)):
            slow = rng.choice([0, 0.0005, 0.001, 0.002])
            conn.read_size, conn.read_delay = 65536, slow
            conn.instruct("read-file", port=number, path=path.encode())
            if rng.random() < 0.8:
                conn.wait(lambda: len(conn.sent_on(number)) >= CHUNK, 30.0)
            lose = rng.random() < 0.3
            if lose:
                how = rng.choice(wsserver.ENDINGS)
                conn.end(how)
                got = conn.sent_on(number)
                conn = w.join(identity=rng.choice([None, b"f%d" % number]))
                w.sync()
                real_sleep(0.05)
                ctx.check(not conn.on_channel(number), "the transfer went on over the next connection", sent=[repr(e)[:80] for e in conn.on_channel(number)[:3]])
            else:
                how = "channel"
                conn.send("notify_close", number)
                w.sync()
                conn.read_delay = 0.0
                w.sync()
                real_sleep(0.1)
                w.sync()
                mark = len(conn.on_channel(number))
                got = conn.sent_on(number)
                real_sleep(0.2)
                ctx.check(len(conn.on_channel(number)) == mark, "sending did not stop after the channel was closed",
                          sent=[repr(e)[:80] for e in conn.on_channel(number)[mark:][:3]])
                if len(got) == size:
                    ctx.count("finished_first")
                else:
                    ctx.count("cut")
                    ctx.check(not [e for e in conn.on_channel(number) if e.name != "request_send"], "messages were sent for a channel closed in mid-transfer",
                              trace=[repr(e)[:100] for e in conn.on_channel(number) if e.name != "request_send"])
            ctx.check(body.startswith(got), "what was sent is not a prefix of the file", got_bytes=len(got))
            ctx.count("transfers")
            ctx.case((how, slow, number, len(got)), sample={"how": how, "sent before": len(got), "of": size})
            with w.server.cond:
                for entry in conn.entries:
                    if entry.name == "request_send":
                        entry.raw = b""
    ctx.require("cut", 1)


def bulk(ctx):
    rng = ctx.rng()
    base = ctx.dir("bulk")
    with world.World(ctx, compress=False) as w:
        conn = w.join()
        for number, size in enumerate([CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 3 * CHUNK - 1, 7 * CHUNK + 3, ctx.pick(10, 60) * CHUNK], 1):
            want = body_of(rng, size)
            path = os.path.join(base, "f")
            with open(path, "wb") as fh:
                fh.write(want)
            conn.instruct("read-file", port=number, path=path.encode())
            ctx.check(conn.wait(lambda: conn.close_requests(number), 90.0), "the close was never requested")
            verify_contents(ctx, conn, number, want, size=size)
            ctx.count("files")
            ctx.count("bytes", size)
            ctx.case(("bulk", size))
    ctx.require("files", 7)


def sweeps(ctx):
    """The channel closes at every line of a transfer."""
    from dataplicity.limiter import Limiter
    from dataplicity.m2m import fileservice, wsclient

    class Recorder(object):
        def __init__(self):
            self.events = []

        def channel_write(self, number, body):
            self.events.append(("data", body))

        def channel_control_write(self, number, body):
            self.events.append(("control", body))

        def close_channel(self, number):
            self.events.append("close")

    path = os.path.join(ctx.dir("sweep"), "f")
    want = body_of(ctx.rng(), 4 * CHUNK + 5)
    with open(path, "wb") as fh:
        fh.write(want)
    for given in (path, path + "-missing"):
        k = 0
        while True:
            k += 1
            client = Recorder()
            channel = wsclient.Channel(client, 1)
            limiter = Limiter("services", 5)
            limiter.increment()
            service = object.__new__(fileservice.FileService)
            service.limiter, service._repr = limiter, "swept"
            marks = []

            def close():
                channel.on_close()
                marks.append(len(client.events))
            one, two, where, lines = sweep.preempt(lambda: service.run_service(channel, given), close, k, files=("fileservice.py",), patience=0.05)
            ctx.check(one is not None and two is not None, "a transfer did not end after its channel closed", where=where)
            ctx.check(two[1] is None and one[1] is None, "an operation raised", errors=repr((one, two)), where=where)
            sent = b"".join(e[1] for e in client.events if isinstance(e, tuple) and e[0] == "data")
            ctx.check(want.startswith(sent), "what was sent is not a prefix of the file", where=where)
            if where is not None:
                ctx.check(client.events[marks[0]:] == [], "something was sent on a closed channel", where=where, events=[repr(e)[:60] for e in client.events[marks[0]:]])
            elif given == path:
                ctx.check(sent == want and client.events[-1] == "close", "the file was not sent exactly")
            ctx.count("schedules")
            ctx.case((given == path, k), nontrivial=where is not None, sample={"closed at": where})
            if where is None or ctx.spent():
                break
    ctx.require("schedules", 20)


def run(ctx, shard):
    world.load()
    if shard.startswith("contents"):
        contents(ctx, shard)
    elif shard == "errors":
        errors(ctx)
    elif shard.startswith("cutoff"):
        cutoff(ctx, shard)
    elif shard == "bulk":
        bulk(ctx)
    else:
        sweeps(ctx)
