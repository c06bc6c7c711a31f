"""C27: credentials never reach the logs or the m2m server."""
import base64
import binascii
import codecs
import json
import logging
import os
import random
import subprocess
import sys
import threading
from urllib.parse import quote, quote_plus

from vf import apiserver, bref, proto, world, wsserver
from vf.core import real_sleep
import c04

RULE = ("A case is one session of an agent with a unique auth token, at some log level, under random API behaviour, polls, failing requests, login "
        "packets (well-formed, truncated, edited, ill-typed, in both directions) and hostile messages; or one packet whose printable "
        "forms are taken; or one agent process started with its token. Every log record, everything printed and every byte the m2m server and foreign HTTP servers get "
        "is searched for the secrets in several spellings and for pieces of them. Non-trivial: distinct (level, kinds of traffic).")
SHARDS = {"quick": ["session1", "session2", "session3", "packets", "process"],
          "thorough": ["session%d" % i for i in range(1, 7)] + ["packets", "process"]}
PIECE = 7
LONG_PIECE = 14
ALPHABET = "ABCDEFGHJKLMNPQRSTUVWXYZabcdefghjkmnpqrstuvwxyz"


def secret(rng, size=None, plain=False):
    """A text found nowhere else."""
    size = size or rng.choice([8, 9, 12, 20, 24, 36, 60])
    text = "".join(rng.choice(ALPHABET) for _ in range(size))
    if not plain and rng.random() < 0.4:
        odd = rng.choice(["%s", "'", '"', "\\", "é", " ", "{0}", ":", "+/=", "\n", "\x00", "%(a)s"])
        place = rng.randrange(8, size + 1) if size > 8 else size
        text = text[:place] + odd + text[place:]
    return text


class Watch(object):
    """Searches texts for the secrets known so far."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.pieces, self.long_pieces = {}, {}
        self.lock = threading.Lock()
        self.searched = 0

    def add(self, text, what):
        raw = text.encode("utf-8")
        forms = {text, repr(text)[1:-1], repr(raw)[2:-1], json.dumps(text)[1:-1], quote(text), quote_plus(text), raw.decode("latin-1"),
                 text.encode("unicode_escape").decode(), text[::-1], codecs.encode(text, "rot13")}
        number = binascii.hexlify(raw).decode()
        for skip in range(3):
            # base64 of the secret at each alignment
            forms.add(base64.b64encode(b"x" * skip + raw).decode()[4 if skip else 0:].rstrip("=")[:-1])
        with self.lock:
            for start in range(0, len(number) - LONG_PIECE + 1):
                self.long_pieces.setdefault(number[start:start + LONG_PIECE], what)
            for form in forms:
                for start in range(max(1, len(form) - PIECE + 1)):
                    self.pieces.setdefault(form[start:start + PIECE], what)

    def search(self, text, where):
        with self.lock:
            self.searched += 1
            pieces = self.pieces
            for start in range(max(0, len(text) - PIECE + 1)):
                what = pieces.get(text[start:start + PIECE]) or self.long_pieces.get(text[start:start + LONG_PIECE])
                if what is not None:
                    self.ctx.report("%s appears in %s" % (what, where), text=text[max(0, start - 200):start + 200])
                    return True
        return False


class Capture(logging.Handler):
    def __init__(self, watch):
        logging.Handler.__init__(self, 0)
        self.watch = watch
        self.setFormatter(logging.Formatter("%(asctime)s %(name)s %(levelname)s %(threadName)s %(pathname)s %(funcName)s: %(message)s"))
        self.records = {}

    def handle(self, record):
        try:
            text = self.format(record)
        except Exception as error:
            text = "%r %r" % (record.msg, error)
        self.records[record.levelname] = self.records.get(record.levelname, 0) + 1
        self.watch.search(text, "the log (%s, %s)" % (record.name, record.levelname))
        # What a handler that records arguments would store
        self.watch.search(repr(record.args), "the arguments of a log record (%s)" % record.name)
        return True


class Stream(object):
    def __init__(self, watch, real, name):
        self.watch, self.real, self.name = watch, real, name
        self.buffer = ""

    def write(self, text):
        self.real.write(text)
        self.buffer = (self.buffer + text)[-4000:]
        self.watch.search(self.buffer[-len(text) - 100:], self.name)
        return len(text)

    def flush(self):
        self.real.flush()

    def __getattr__(self, name):
        return getattr(self.real, name)


def login_message(rng, watch):
    """Bytes of a login packet, well- or ill-formed, with a new password."""
    password = secret(rng)
    watch.add(password, "a login packet's password")
    raw = password.encode("utf-8")
    user = rng.choice([b"", b"a", b"admin", b"u" * 40])
    number = proto.N["request_login"]
    kind = rng.randrange(8)
    if kind <= 2:
        return bref.dumps([number, user, raw])
    if kind == 3:
        data = bref.dumps([number, user, raw])
        return data[:rng.randrange(len(data))]
    if kind == 4:
        return bref.dumps([number, user, rng.choice([[raw], {b"p": raw}, [[raw, 1]]])])
    if kind == 5:
        return bref.dumps([number, rng.choice([3, [user], {user: user}]), raw])
    if kind == 6:
        return bref.dumps([number, user, raw, rng.choice([1, b"extra", [], {}])])
    data = bref.dumps([number, user, raw])
    return data + rng.choice([b"e", b"x", b"i", b"9:"]) if rng.random() < 0.5 else data[:-1] + rng.choice([b"", b"i1", b"d", b"99:"])


ANSWERS = ["ok"] * 3 + ["close", "reset", "http500", "http404", "partial", "silent", "nonsense", "error", "redirect301", "redirect302", "redirect303", "redirect307", "redirect308", "badstatus", "errors", "missing"]


def session(ctx, shard):
    world.load(level=0)
    from dataplicity.m2m import packets
    rng = ctx.rng()
    watch = Watch(ctx)
    capture = Capture(watch)
    root = logging.getLogger()
    root.addHandler(capture)
    logging.getLogger("lomond").setLevel(0)
    sys.stderr = Stream(watch, sys.stderr, "the standard error output")
    sys.stdout = Stream(watch, sys.stdout, "the standard output")
    home = os.environ["HOME"]
    from dataplicity import device_meta
    for history in range(ctx.pick(8, 60)):
        level = ["DEBUG", "DEBUG", "INFO", "WARNING", "ERROR", "NOTSET", "CRITICAL"][history % 7]
        root.setLevel(level)
        token = secret(rng)
        watch.add(token, "the auth token")
        foreign = apiserver.ApiServer(lambda request: apiserver.ok_response(request))
        mode = ["ok"]

        def respond(request):
            how = mode[0]
            if how == "ok":
                return apiserver.ok_response(request)
            if how == "nonsense":
                return random.Random(request.index).choice([b"", b"nonsense", b"[" * 3000, b"\xff\xfe", b"null", b'[{"id": []}]'])
            if how == "error":
                return {"jsonrpc": "2.0", "id": None, "error": {"code": -32600, "message": "no", "data": None}}
            if how == "errors":
                return [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": 401, "message": "wrong credentials"}} for c in request.calls]
            if how == "missing":
                return []
            if how == "badstatus":
                return ("raw", b"what is this\r\n\r\n")
            if how.startswith("redirect"):
                return ("raw", b"HTTP/1.1 " + how[8:].encode() + b" Elsewhere\r\nLocation: " + foreign.url.encode() + b"\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
            return how

        with world.World(ctx, respond=respond, auth=token, compress=rng.random() < 0.5, serial="ser-%d" % history) as w:
            conn = w.join()
            w.sync()
            kinds = set()
            for turn in range(ctx.pick(60, 150)):
                kind = rng.choice(["poll", "poll", "sync", "identity", "login in", "login in", "login in", "login out", "hostile", "lost", "tags", "meta", "refuse", "ping", "m2m send"])
                mode[0] = rng.choice(ANSWERS)
                kinds.add(kind if kind not in ("poll", "sync", "identity") else kind + " " + mode[0])
                if kind == "refuse":
                    w.api.refuse()
                    w.client.poll()
                    w.api.listen()
                elif kind == "poll":
                    w.client.next_disk_poll_time = 0
                    w.client.poll()
                elif kind == "sync":
                    conn.instruct("sync")
                elif kind == "identity":
                    conn.send("set_identity", b"node-%d" % turn)
                elif kind == "login in":
                    conn.send_message(login_message(rng, watch), fragments=rng.choice([1, 1, 3]))
                elif kind == "login out":
                    # Sent by the agent (the m2m server may see it)
                    password = secret(rng)
                    watch.add(password, "a login packet's password")
                    w.ws.send(packets.PacketType.request_login, username=b"admin", password=password if rng.random() < 0.3 else password.encode("utf-8"))
                elif kind == "hostile":
                    for _ in range(5):
                        conn.send_message(c04.hostile(rng))
                elif kind == "tags":
                    path = os.path.join(home, "dataplicity_tags")
                    with open(path + ".new", "w") as fh:
                        fh.write("#!/bin/sh\necho t%d\nexit %d\n" % (turn, rng.choice([0, 0, 1])))
                    os.chmod(path + ".new", 0o755)
                    os.rename(path + ".new", path)
                    w.client.tag_poll()
                elif kind == "meta":
                    device_meta._META_CACHE = None
                    w.client._sent_meta = False
                    conn.instruct("sync")
                elif kind == "m2m send":
                    conn.send("open_remote_file", b"id%d" % turn, b"../none")
                    conn.send("scan_remote_directory")
                    conn.instruct("read-file", port=1000 + turn, path=b"/nowhere")
                elif kind == "ping":
                    conn.send("ping", b"x" * rng.randrange(40))
                elif kind == "lost" and rng.random() < 0.4:
                    if rng.random() < 0.3:
                        w.server.behaviours.append({"kind": rng.choice(["reject", "drop", "garbage", "bad-accept", "cut-upgrade"])})
                    conn.end(rng.choice(["reset", "fin", "close-frame", "mid-frame", "bad-opcode", "bad-utf8"]))
                    conn = w.join(b"node-%d" % turn)
                w.sync()
                ctx.stop_if_violated()
            # The wire: the token is nowhere but in requests to the API
            only_token = Watch(ctx)
            only_token.add(token, "the auth token")
            sent = 0
            for each in w.server.conns:
                only_token.search(each.request.decode("latin-1"), "the m2m connection request")
                for entry in each.entries:
                    sent += len(entry.raw)
                    only_token.search(entry.raw.decode("latin-1"), "a message to the m2m server")
            for request in foreign.snapshot():
                only_token.search((request.head + request.body).decode("latin-1"), "a request to another server")
            for request in w.api.snapshot():
                only_token.search(request.head.decode("latin-1"), "the headers of an API request")
            with_token = [r for r in w.api.snapshot() if json.dumps(token) in json.dumps(r.json)]
            ctx.check(with_token, "no API request carried the token, so nothing was watched")
            ctx.count("requests with the token", len(with_token))
            ctx.count("bytes to the m2m server", sent)
            ctx.stop_if_violated()
        foreign.close()
        ctx.case((level, tuple(sorted(kinds))), sample={"level": level, "kinds": sorted(kinds), "records": dict(capture.records)})
    ctx.stop_if_violated()
    ctx.count("texts searched", watch.searched)
    ctx.count("log records", sum(capture.records.values()))
    ctx.require("log records", 2000)
    ctx.require("requests with the token", 100)
    # The watch must see what is really logged
    probe = secret(rng)
    ctx.check(not ctx.violations, "violated")
    other = Watch(ctx)
    other.ctx = type("Probe", (), {"report": lambda self, *a, **k: None})()
    other.add(probe, "probe")
    for text in (probe, repr(probe.encode()), json.dumps(probe), repr({"a": [probe]})):
        if not other.search("prefix " + text, "probe"):
            raise RuntimeError("the watch is blind to %r" % text)


def packets_shard(ctx, shard):
    """Printable forms of login packets and of the errors of making them."""
    world.load(level=0)
    from dataplicity.m2m import bencode, packets
    import traceback
    rng = ctx.rng()
    watch = Watch(ctx)
    Login = packets.M2MPacket.registry[packets.PacketType.request_login]
    texts = 0
    for turn in range(ctx.pick(3000, 30000)):
        watch.pieces.clear()
        watch.long_pieces.clear()
        password = secret(rng, rng.choice([7, 8, 12, 24, 31, 32, 33, 40, 100]))
        watch.add(password, "a login packet's password")
        raw = password.encode("utf-8")
        user = rng.choice([b"", b"admin", "root", b"u" * 50])
        how = turn % 8
        forms = []
        made = None
        try:
            if how == 0:
                made = Login(username=user, password=raw)
            elif how == 1:
                made = Login(user, password)
            elif how == 2:
                made = packets.M2MPacket.create(packets.PacketType.request_login, user, raw)
            elif how == 3:
                made = packets.M2MPacket.from_bytes(login_message(rng, watch))
            elif how == 4:
                made = Login(username=rng.choice([3, [1], None]), password=raw)
            elif how == 5:
                made = Login(password=raw)
            elif how == 6:
                made = Login(username=user, password=rng.choice([[raw], {b"p": raw}, (raw,), {raw: 1}]))
            else:
                made = Login(user, raw, "more", 3)
        except Exception as error:
            forms += ["%s" % error, repr(error), "".join(traceback.format_exception(type(error), error, error.__traceback__))]
            ctx.count("refused")
        if made is not None:
            forms += [repr(made), str(made), "%s %r" % (made, made), "{} {!r}".format(made, made), repr([made]), repr({"p": made}), format(made)]
            ctx.count("made")
            if rng.random() < 0.1:
                made.password = raw + b"2"
                forms.append(repr(made))
        for form in forms:
            texts += 1
            if watch.search(form, "the printable form of a login packet or of its error"):
                ctx.stop_if_violated()
        ctx.case((how, len(password), str(user), made is None))
    ctx.count("texts searched", texts)
    ctx.require("made", 500)
    ctx.require("refused", 300)


BOOT = '''
import sys
where = sys.argv.pop(1)
from dataplicity import constants
constants.SERIAL_LOCATION = where + "/serial"
constants.AUTH_LOCATION = where + "/auth"
constants.REMOTE_DIRECTORY_LOCATION = where + "/remote"
from dataplicity.app import main
main()
'''


def process(ctx, shard):
    """Whole agent processes: what they print and write to log files."""
    ctx.become(65534, 65534)
    rng = ctx.rng()
    script = os.path.join(ctx.scratch, "boot.py")
    with open(script, "w") as fh:
        fh.write(BOOT)
    plans = []
    for source in ("argument", "argument=", "file"):
        for level in ("DEBUG", "INFO", "CRITICAL"):
            plans.append((source, level, "runs"))
        plans.append((source, "DEBUG", "no serial"))
        plans.append((source, "DEBUG", "bad remote"))
    plans.append(("argument", "INFO", "debug no serial"))
    plans.append(("file", "DEBUG", "undecodable"))
    rng.shuffle(plans)
    if ctx.quick:
        plans = plans[:11]
    # Always: those in which the command line itself may be shown
    for plan in (("argument", "INFO", "quiet no serial"), ("argument=", "INFO", "quiet bad log file"), ("argument", "DEBUG", "bad log file")):
        plans.append(plan)
    for number, (source, level, fate) in enumerate(plans):
        watch = Watch(ctx)
        token = secret(rng, 20, plain=source != "file")
        token = token.replace("\n", "").replace("\x00", "").strip()
        watch.add(token, "the auth token")
        home = ctx.dir("home")
        os.mkdir(os.path.join(home, "remote"))
        if not fate.endswith("no serial"):
            with open(os.path.join(home, "serial"), "w") as fh:
                fh.write("serial-1\n")
        if source == "file":
            with open(os.path.join(home, "auth"), "wb") as fh:
                fh.write(token.encode("utf-8") + b"\n" + (b"\xff" if fate == "undecodable" else b""))
        server = wsserver.WSServer()
        answers = ["ok", "close", "http500", "nonsense", "errors"]

        def respond(request):
            how = answers[request.index % len(answers)]
            if how == "ok":
                return apiserver.ok_response(request)
            if how == "nonsense":
                return b"nonsense"
            if how == "errors":
                return [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": 401, "message": "wrong credentials"}} for c in request.calls]
            return how

        api = apiserver.ApiServer(respond)
        log_file = os.path.join(home, "agent.log") if rng.random() < 0.5 else None
        args = ["--log-level", level, "-m", server.url, "-s", api.url if fate != "bad remote" else "nonsense:" + api.url]
        args += {"argument": ["--auth", token], "argument=": ["--auth=" + token], "file": []}[source]
        if fate.endswith("bad log file"):
            log_file = os.path.join(home, "none", "agent.log")
        args += ["--log-file", log_file] if log_file else []
        args += ["--quiet"] if fate.startswith("quiet") or (fate == "runs" and rng.random() < 0.2) else []
        args += ["--debug"] if fate.startswith("debug") else []
        env = {k: v for k, v in os.environ.items() if not k.startswith("DATAPLICITY")}
        env.update(HOME=home, PYTHONPATH=os.environ["VF_REPO"])
        output = open(os.path.join(home, "output"), "wb")
        agent = subprocess.Popen([sys.executable, script, home] + args + ["run"], env=env, cwd=home, stdin=subprocess.DEVNULL, stdout=output, stderr=output)
        try:
            if fate in ("runs", "bad remote"):
                conn = server.joined(1, 60.0)
                ctx.check(conn is not None or agent.poll() is not None, "the agent did not join", output=open(output.name, "rb").read()[-2000:])
                if conn is not None:
                    for turn in range(6):
                        conn.send("set_identity", b"node-%d" % turn)
                        conn.instruct("sync")
                        conn.send_message(login_message(rng, watch))
                        conn.send_message(c04.hostile(rng))
                        conn.barrier(30.0)
                    for entry in server.log:
                        watch.search(entry.raw.decode("latin-1"), "what the m2m server received")
                    ctx.count("processes that ran")
            else:
                agent.wait(60)
                ctx.count("processes that failed")
        finally:
            if agent.poll() is None:
                agent.kill()
            agent.wait()
            output.close()
            server.close()
            api.close()
        for name in os.listdir(home):
            if name == "output" or name.startswith("agent.log"):
                with open(os.path.join(home, name), "rb") as fh:
                    data = fh.read()
                watch.search(data.decode("utf-8", "replace"), "the log file" if name != "output" else "what the agent printed")
                watch.search(data.decode("latin-1"), "the log file" if name != "output" else "what the agent printed")
                ctx.count("bytes of log", len(data))
        ctx.stop_if_violated()
        ctx.case((source, level, fate, bool(log_file)))
    ctx.require("processes that ran", 2)
    ctx.require("processes that failed", 1)
    ctx.require("bytes of log", 1000)


def run(ctx, shard):
    if shard.startswith("session"):
        session(ctx, shard)
    elif shard == "packets":
        packets_shard(ctx, shard)
    else:
        process(ctx, shard)
