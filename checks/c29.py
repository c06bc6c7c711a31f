"""C29: machine tags are exactly the words the tag script prints."""
import os
import signal
import stat
import threading

from vf import apiserver, world
from vf.core import real_sleep

RULE = ("A case is one run of a real tag script: what it prints (words of all lengths around the cut, every white space and comma "
        "combination, undecodable bytes, empty and large output), how it ends (status, signal, closed output), or why it cannot run (missing, not executable, "
        "directory, broken link, bad interpreter, odd home). The tags returned, and those the API receives from a polling agent, are compared "
        "with an independent splitter. Non-trivial: distinct (output, ending).")
SHARDS = {"quick": ["direct1", "direct2", "direct3", "polls", "spaces"], "thorough": ["direct%d" % i for i in range(1, 6)] + ["polls", "polls2", "spaces"]}


def words(data):
    """What the output means, character by character."""
    text = decode(data)
    found, word = [], ""
    for char in text + ",":
        if char == "," or char.isspace():
            if word:
                found.append(word[:25])
            word = ""
        else:
            word += char
    return found


def decode(data):
    """UTF-8 without the bytes that cannot be decoded (by the Unicode standard's table of well-formed sequences)."""
    out, i = [], 0
    while i < len(data):
        first = data[i]
        if first < 0x80:
            out.append(chr(first))
            i += 1
            continue
        rule = None
        for low, high, ranges in SEQUENCES:
            if low <= first <= high:
                rule = ranges
        length = 1
        if rule:
            for a, b in rule:
                if i + length < len(data) and a <= data[i + length] <= b:
                    length += 1
                else:
                    break
            if length == len(rule) + 1:
                value = first & (0x1F if length == 2 else 0x0F if length == 3 else 0x07)
                for k in range(1, length):
                    value = value << 6 | data[i + k] & 0x3F
                out.append(chr(value))
        i += length
    return "".join(out)


TAIL = (0x80, 0xBF)
SEQUENCES = [(0xC2, 0xDF, [TAIL]), (0xE0, 0xE0, [(0xA0, 0xBF), TAIL]), (0xE1, 0xEC, [TAIL] * 2), (0xED, 0xED, [(0x80, 0x9F), TAIL]), (0xEE, 0xEF, [TAIL] * 2),
             (0xF0, 0xF0, [(0x90, 0xBF), TAIL, TAIL]), (0xF1, 0xF3, [TAIL] * 3), (0xF4, 0xF4, [(0x80, 0x8F), TAIL, TAIL])]

PIECES = [b",", b",", b" ", b"\n", b"\n", b"\t", b"\r\n", b"\r", b"\x0b", b"\x0c", b",,", b" , ", b"\n\n", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xe3\x80\x80", b"\xc2\x85", b"\x1c", b"\x1f"]
BAD = [b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5", b"\xe2\x28\xa1"]


def word(rng):
    kind = rng.randrange(8)
    if kind == 0:
        return b"w" * rng.choice([1, 23, 24, 25, 26, 27, 50, 51, 300])
    if kind == 1:
        return "é".encode() * rng.choice([1, 12, 24, 25, 26]) + b"z" * rng.randrange(3)
    if kind == 2:
        return "\U0001f600".encode() * rng.choice([1, 24, 25, 26])
    if kind == 3:
        return rng.choice([b"a;b", b"a/b", b"#no", b"=", b"\"quoted\"", b"'", b"\\n", b"%s", b"{}", b"None", b"0", b"-", b"*", b"$HOME", b"a.b", b"\x00", b"a\x00b", b"\x07", b"\xef\xbb\xbftag", b"\xe2\x80\x8b"])
    if kind == 4:
        return b"a" + rng.choice(BAD) + b"b" * rng.choice([1, 23, 24, 25])
    if kind == 5:
        return rng.choice(BAD)
    return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.") for _ in range(rng.randrange(1, 33)))


def output(rng):
    kind = rng.randrange(12)
    if kind == 0:
        return rng.choice([b"", b"\n", b" ", b",", b"a", b"\xff", b",\n,\t", b"a,"])
    if kind == 1:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(200)))
    if kind == 2 and rng.random() < 0.1:
        return b",".join(b"tag%d" % i for i in range(rng.choice([500, 20000])))
    if kind == 3:
        same = word(rng)
        return rng.choice([b",", b"\n"]).join([same] * rng.randrange(1, 6))
    parts = []
    for _ in range(rng.randrange(1, 9)):
        if rng.random() < 0.3:
            parts.append(rng.choice(PIECES))
        parts.append(word(rng))
        parts.append(b"".join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 1, 1, 2, 4]))))
    return b"".join(parts)


def install(path, body, mode=0o755):
    """Put a script in place in one step."""
    if os.path.islink(path) or os.path.isfile(path):
        os.remove(path)
    elif os.path.isdir(path):
        os.rmdir(path)
    if body is None:
        return
    with open(path + ".new", "wb") as fh:
        fh.write(body)
    os.chmod(path + ".new", mode)
    os.rename(path + ".new", path)


def script(rng, home, index):
    """Install a script; returns (kind, expected tags or None for a failure, what)."""
    path = os.path.join(home, "dataplicity_tags")
    roll = rng.random()
    data = output(rng)
    source = os.path.join(home, "out-put")
    with open(source, "wb") as fh:
        fh.write(data)
    here = b"'" + os.fsencode(source).replace(b"'", b"'\\''") + b"'"
    if roll < 0.62:
        extra = rng.choice([b"", b"", b"", b"echo warning >&2; ", b"sleep 0.01; ", b"cd /; ", b"exec 0<&-; "])
        install(path, b"#!/bin/sh\n" + extra + b"cat " + here + b"\n" + rng.choice([b"", b"exit 0\n", b"true\n"]))
        return "prints", words(data), data
    if roll < 0.70:
        # Output in two parts, so that a reader gets it in pieces
        install(path, b"#!/bin/sh\ncat " + here + b"\nsleep 0.02\ncat " + here + b"\n")
        return "prints twice", words(data + data), data
    if roll < 0.82:
        status = rng.choice([1, 2, 3, 77, 126, 127, 128, 255])
        install(path, b"#!/bin/sh\ncat " + here + b"\nexit %d\n" % status)
        return "exit %d" % status, None, data
    if roll < 0.88:
        number = rng.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGSEGV, signal.SIGABRT, signal.SIGHUP, signal.SIGINT])
        install(path, b"#!/bin/sh\nulimit -c 0\ncat " + here + b"\nkill -%d $$\nsleep 1\nexit 9\n" % number)
        return "signal %d" % number, None, data
    kind = rng.choice(["missing", "not executable", "not executable", "directory", "dangling", "loop", "link", "no interpreter", "no shebang", "empty", "nothing printed"])
    body = b"#!/bin/sh\necho bait-tag\n"
    if kind == "missing":
        install(path, None)
        return kind, [], b""
    if kind == "not executable":
        install(path, body, rng.choice([0o644, 0o600, 0o444, 0]))
        return kind, [], b""
    if kind == "directory":
        install(path, None)
        os.mkdir(path)
        return kind, [], b""
    if kind in ("dangling", "loop"):
        install(path, None)
        os.symlink(path if kind == "loop" else path + ".gone", path)
        return kind, [], b""
    if kind == "link":
        install(path, None)
        target = os.path.join(home, "real script")
        install(target, b"#!/bin/sh\ncat " + here + b"\n")
        os.symlink(target, path)
        return kind, words(data), data
    if kind == "no interpreter":
        install(path, b"#!/nowhere/interpreter\necho bait-tag\n")
        return kind, [], b""
    if kind in ("no shebang", "empty"):
        # The system refuses to execute this
        install(path, b"\x01\x02\x03 nothing" if kind == "no shebang" else b"")
        return kind, [], b""
    install(path, b"#!/bin/sh\nexec >&-\ntrue\n")
    return kind, [], b""


def direct(ctx, shard):
    from dataplicity import tags
    rng = ctx.rng()
    homes = [ctx.dir("home"), ctx.dir("hô me ' x")]
    for index in range(ctx.pick(500, 4000)):
        home = rng.choice(homes)
        os.environ["HOME"] = home + rng.choice(["", "", "/", "/."])
        kind, want, data = script(rng, home, index)
        try:
            got = tags.get_tag_list()
            error = None
        except tags.TagError as failure:
            got, error = None, failure
        except Exception as failure:
            ctx.fail("reading the tags raised something else than a tag error", error=repr(failure), script=kind, output=data)
        if want is None:
            ctx.check(error is not None, "a failing tag script was not reported as a tag error", script=kind, output=data, tags=got)
            ctx.count("failures")
        else:
            ctx.check(error is None, "a working or missing tag script was reported as failing", script=kind, output=data, error=repr(error))
            ctx.check(list(got) == want, "the tags are not the words the script prints", script=kind, output=data, tags=got, want=want)
            ctx.count("tags", len(want))
            ctx.count("lists" if want else "empty lists")
        ctx.case((kind, data), sample={"script": kind, "output": data, "tags": got})
    ctx.require("failures", 50)
    ctx.require("tags", 500)
    ctx.require("empty lists", 20)


def spaces(ctx, shard):
    """Every character as separator or as part of a word."""
    from dataplicity import tags
    rng = ctx.rng()
    home = ctx.dir("home")
    os.environ["HOME"] = home
    source = os.path.join(home, "out")
    install(os.path.join(home, "dataplicity_tags"), b"#!/bin/sh\ncat out\n".replace(b"out", os.fsencode(source)))
    points = list(range(0, 0x3100)) + list(range(0xF000, 0x10000, 7)) + [0xFEFF, 0x10FFFF, 0x1F600]
    for start in range(0, len(points), 64):
        data = b""
        for point in points[start:start + 64]:
            if 0xD800 <= point < 0xE000:
                continue
            data += b"<" + chr(point).encode("utf-8") + b">,"
        with open(source, "wb") as fh:
            fh.write(data)
        got = tags.get_tag_list()
        ctx.check(list(got) == words(data), "the tags are not the words the script prints", tags=got, want=words(data), first=hex(points[start]))
        ctx.count("characters", 64)
        ctx.case(start)
    # Words around the cut
    for length in range(1, 80):
        data = b",".join([b"x" * length, "ü".encode() * length, b"y" * length + b"\xff", b"\xff" * length + b"z" * length])
        with open(source, "wb") as fh:
            fh.write(data)
        got = tags.get_tag_list()
        ctx.check(list(got) == words(data), "the tags are not the words the script prints", tags=got, want=words(data))
        ctx.case(("length", length))
    ctx.require("characters", 1000)


def polls(ctx, shard):
    """What an agent reports to the API."""
    rng = ctx.rng()
    home = ctx.dir("home")
    os.environ["HOME"] = home

    def respond(request):
        return [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": 5, "message": "again"}} for c in request.calls]

    with world.World(ctx, respond=respond) as w:
        w.join()
        w.sync()
        for index in range(ctx.pick(150, 1500)):
            kind, want, data = script(rng, home, index)
            before = len(w.api.snapshot())
            w.client.poll()
            made = [r for r in w.api.snapshot()[before:] if "device.set_machine_defined_tags" in r.methods]
            if want is None:
                ctx.check(not made, "tags of a failing script were reported", script=kind, output=data, sent=[r.json for r in made])
            else:
                ctx.check(len(made) == 1, "tags were not reported (once)", script=kind, output=data, requests=len(made))
                sent = made[0].call("device.set_machine_defined_tags")["params"]
                ctx.check(sent == {"tag_list": want}, "the tags reported are not the words the script prints", script=kind, output=data, sent=sent, want=want)
                ctx.count("reports")
            ctx.case((kind, data))
    ctx.require("reports", 50)


def run(ctx, shard):
    ctx.become(65534, 65534)
    world.load()
    if shard.startswith("direct"):
        direct(ctx, shard)
    elif shard == "spaces":
        spaces(ctx, shard)
    else:
        polls(ctx, shard)
