"""C35: what the agent logs is kept, in bounds; the command line answers as it says."""
import json
import os
import re
import signal
import subprocess
import sys

from vf import apiserver, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one whole process of the agent's command line: `run`, with the agent's main loop replaced by threads that log generated records of all levels, lengths and "
        "alphabets, at some log level, to a log file (new, existing, full, vanishing) or standard error, in some locale; or a run that fails; or the version, help and no "
        "command at all. Records found are compared with records made. Non-trivial: distinct (options, records).")
SHARDS = {"quick": ["records1", "records2", "rotation", "answers"], "thorough": ["records%d" % i for i in range(1, 6)] + ["rotation", "rotation2", "answers"]}
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
GIVEN = {"NOTSET": 0, "WARN": 30}
GIVEN.update(LEVELS)

BOOT = '''
import sys, json, logging, threading
where = sys.argv.pop(1)
from dataplicity import constants
constants.SERIAL_LOCATION = where + "/serial"
constants.AUTH_LOCATION = where + "/auth"
constants.REMOTE_DIRECTORY_LOCATION = where + "/remote"
from dataplicity import client
with open(where + "/plan", encoding="utf-8") as fh:
    plan = json.load(fh)

def talk(number, records):
    for seq, (name, level, text, way) in enumerate(records):
        log = logging.getLogger(name)
        message = "<%d.%d.%s>%s</%d.%d>" % (number, seq, level, text, number, seq)
        level = getattr(logging, level)
        if way == "args":
            log.log(level, "<%d.%d.%s>%s</%d.%d>", number, seq, logging.getLevelName(level), text, number, seq)
        elif way == "exception":
            try:
                raise ValueError("trace-%d.%d" % (number, seq))
            except ValueError:
                log.log(level, "%s", message, exc_info=True)
        else:
            # (without arguments nothing is formatted)
            log.log(level, message)

class Odd(Exception):
    code = errno = status = returncode = exit_code = 0

def run_forever(self):
    if plan.get("raise"):
        kind = getattr(__builtins__, plan["raise"], Odd)
        raise kind(plan["number"], plan["message"]) if plan.get("number") is not None else kind(plan["message"])
    print("ready")
    sys.stdout.flush()
    if plan.get("wait"):
        sys.stdin.readline()
    threads = [threading.Thread(target=talk, args=(n, r)) for n, r in enumerate(plan["records"])]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    with open(where + "/finished", "w") as fh:
        fh.write("yes")

client.Client.run_forever = run_forever
from dataplicity.app import main
main()
'''

TEXTS = ["", "plain words", "ünïcödé № \u20ac", "\U0001f600 smile", "a\ttab", "100% sure %s %d", "line\nbreak", "\n\n", "back\\slash", "\x00nul", "{0} {a}", "x" * 3000, "\r carriage", "'\"", "<tag>"]


def records(rng, threads, count, long=False):
    out = []
    for _ in range(threads):
        mine = []
        for _ in range(count):
            text = "y" * rng.choice([800, 2000]) if long else rng.choice(TEXTS)
            way = "args" if long else rng.choice(["plain", "args", "args", "exception"])
            mine.append((rng.choice(["agent", "m2m", "app", "pf", "jsonrpc", "some.other.logger", "lomond"]), rng.choice(list(LEVELS)), text, way))
        out.append(mine)
    return out


class Run(object):
    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.home = ctx.dir("home")
        os.mkdir(os.path.join(self.home, "remote"))
        with open(os.path.join(self.home, "plan"), "w", encoding="utf-8") as fh:
            json.dump(plan, fh)
        self.boot = os.path.join(self.home, "boot.py")
        with open(self.boot, "w") as fh:
            fh.write(BOOT)

    def start(self, args, env=None, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL):
        full = {k: v for k, v in os.environ.items() if not k.startswith(("DATAPLICITY", "LC_", "LANG", "PYTHONUTF8", "PYTHONIOENCODING"))}
        full.update(HOME=self.home, PYTHONPATH=os.environ["VF_REPO"])
        full.update(env or {})
        self.args = args
        self.process = subprocess.Popen([sys.executable, self.boot, self.home] + args, env=full, cwd=self.home, stdin=stdin, stdout=subprocess.PIPE, stderr=stderr)
        return self.process

    def end(self, timeout=120):
        try:
            out, err = self.process.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.process.kill()
            self.process.communicate()
            self.ctx.fail("the agent did not end", args=self.args)
        self.out, self.err = out, err or b""
        self.status = self.process.returncode

    def finished(self):
        return os.path.exists(os.path.join(self.home, "finished"))

    def witness(self, **more):
        more.update(args=self.args, status=self.status, out=self.out.decode("utf-8", "replace")[-300:], err=self.err.decode("utf-8", "replace")[-1500:])
        return more


PATTERN = re.compile(r"<(\d+)\.(\d+)\.([A-Z]+)>(.*?)</\1\.\2>", re.S)


def found(data):
    return [(int(a), int(b), level, text) for a, b, level, text in PATTERN.findall(data.decode("utf-8", "backslashreplace").replace("\r\n", "\n") if isinstance(data, bytes) else data)]


def shown(text):
    """How a text may be shown."""
    plain = text.encode("utf-8", "backslashreplace").decode("utf-8")
    return {plain, text.encode("ascii", "backslashreplace").decode("ascii")}


def compare(ctx, run, data, threshold, plan, what):
    got = found(data)
    want = {}
    for number, mine in enumerate(plan["records"]):
        for seq, (name, level, text, way) in enumerate(mine):
            if LEVELS[level] >= threshold:
                want[number, seq] = (level, text, way)
    seen, last = set(), {}
    for number, seq, level, text in got:
        ctx.check((number, seq) in want, "a record below the log level was logged", **run.witness(record=(number, seq, level), what=what))
        ctx.check((number, seq) not in seen, "a record was logged twice", **run.witness(record=(number, seq, level), what=what))
        ctx.check(seq > last.get(number, -1), "records of a thread were logged out of order", **run.witness(record=(number, seq), after=last.get(number), what=what))
        ctx.check(text in shown(want[number, seq][1]), "a record's text was changed", **run.witness(got=text[:300], want=want[number, seq][1][:300], what=what))
        seen.add((number, seq))
        last[number] = seq
    missing = sorted(set(want) - seen)
    ctx.check(not missing, "records were lost", **run.witness(missing=[(m, want[m]) for m in missing[:5]], lost=len(missing), of=len(want), what=what))
    for (number, seq), (level, text, way) in want.items():
        if way == "exception":
            marker = "trace-%d.%d" % (number, seq)
            ctx.check(marker.encode() in data, "an exception was not logged with its record", **run.witness(record=(number, seq), what=what))
    ctx.count("records", len(seen))
    ctx.count("withheld", sum(len(m) for m in plan["records"]) - len(seen))


def read(path):
    try:
        with open(path, "rb") as fh:
            return fh.read()
    except (OSError, IOError):
        return b""


def some_records(ctx, shard):
    rng = ctx.rng()
    for number in range(ctx.pick(14, 80)):
        if ctx.spent(quick=80.0):
            break
        plan = {"records": records(rng, rng.choice([1, 3, 6]), rng.choice([10, 40]))}
        run = Run(ctx, plan)
        args, threshold = ["--serial=s", "--auth=a", "-m", "ws://127.0.0.1:1/", "-s", "http://127.0.0.1:1/"], 20
        level = rng.choice([None] + sorted(GIVEN) * 2)
        if level:
            args += rng.choice([["--log-level", level], ["--log-level=" + level]]) if rng.random() < 0.6 else ["--log-level", rng.choice([level.lower(), level.title()])]
            threshold = GIVEN[level]
        if rng.random() < 0.25:
            args.append(rng.choice(["-q", "--quiet"]))
            threshold = 50
        if rng.random() < 0.2:
            args.append(rng.choice(["-d", "--debug"]))
        log, how, old = os.path.join(run.home, "the log"), rng.choice(["file", "file", "file", "stderr", "stderr"]), b""
        env = rng.choice([{}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C"}, {"LANG": "C"}, {"LC_ALL": "POSIX"}])
        if how == "file":
            place = rng.choice(["absolute", "relative"])
            args += ["--log-file", log if place == "absolute" else "the log"]
            if rng.random() < 0.5:
                old = b"what was there before\n" * rng.choice([1, 1000])
                with open(log, "wb") as fh:
                    fh.write(old)
        run.start(args + ["run"], env)
        run.end()
        ctx.check(run.status == 0 and run.finished(), "the agent failed", **run.witness(env=env))
        if how == "file":
            data = read(log)
            ctx.check(data.startswith(old), "what was in the log file before was lost", **run.witness())
            compare(ctx, run, data[len(old):], threshold, plan, {"env": env, "level": threshold, "to": how})
            ctx.check(not found(run.err) and not found(run.out), "records were not only logged to the log file", **run.witness())
        else:
            compare(ctx, run, run.err, threshold, plan, {"env": env, "level": threshold, "to": how})
            ctx.check(not found(run.out), "records were printed on standard output", **run.witness())
            ctx.check(not os.path.exists(log), "a log file appeared", **run.witness())
        ctx.count("runs")
        ctx.case((tuple(a for a in args if a.startswith("-")), threshold, how, str(env), len(old), number), sample={"args": args, "env": env, "records": sum(map(len, plan["records"]))})
    ctx.require("records", 300)
    ctx.require("withheld", 50)


def trouble(ctx, rng, kind):
    """The log can't be written: the agent must go on."""
    plan = {"records": records(rng, 2, 30), "wait": True}
    run = Run(ctx, plan)
    args = ["--serial=s", "--auth=a", "-m", "ws://127.0.0.1:1/", "-s", "http://127.0.0.1:1/", "--log-level", "DEBUG"]
    place = os.path.join(run.home, "place")
    os.mkdir(place)
    log = os.path.join(place, "log")
    if kind == "full":
        args += ["--log-file", "/dev/full"]
    elif kind in ("vanished", "no renames", "removed"):
        args += ["--log-file", log]
        if kind == "no renames":
            with open(log, "wb") as fh:
                fh.write(b"x" * 5242880)
    stderr, pipe = subprocess.PIPE, None
    if kind in ("deaf stderr", "full stderr", "closed stderr"):
        if kind == "full stderr":
            stderr = open("/dev/full", "wb")
        else:
            pipe, w = os.pipe()
            stderr = w
    run.start(args + ["run"], stderr=stderr, stdin=subprocess.PIPE)
    if kind == "deaf stderr":
        os.close(stderr)
        os.close(pipe)
    elif kind == "full stderr":
        stderr.close()
    elif kind == "closed stderr":
        os.close(stderr)
    # Ready
    line = run.process.stdout.readline()
    if kind == "vanished":
        os.rename(place, place + "-moved")
    elif kind == "no renames":
        os.chmod(place, 0o500)
    elif kind == "removed":
        os.remove(log)
    elif kind == "closed stderr":
        os.close(pipe)
    try:
        run.process.stdin.write(b"\n")
        run.process.stdin.flush()
    except (OSError, IOError):
        pass
    run.end()
    if kind == "no renames":
        os.chmod(place, 0o700)
    ctx.check(b"ready" in line and run.finished() and run.status == 0, "trouble with the log stopped the agent", **run.witness(kind=kind))
    ctx.count("troubles")
    ctx.case(("trouble", kind))


def rotation(ctx, shard):
    rng = ctx.rng()
    for kind in ["full", "vanished", "no renames", "removed", "deaf stderr", "full stderr", "closed stderr"]:
        trouble(ctx, rng, kind)
    for number in range(ctx.pick(2, 6)):
        threads = rng.choice([1, 4])
        each = ctx.pick(30000, 60000) // threads
        plan = {"records": records(rng, threads, each, long=True)}
        run = Run(ctx, plan)
        log = os.path.join(run.home, "log")
        with open(log, "wb") as fh:
            fh.write(b"old\n" * rng.choice([0, 1000000, 3000000]))
        run.start(["--serial=s", "--auth=a", "-m", "ws://127.0.0.1:1/", "-s", "http://127.0.0.1:1/", "--log-level", "DEBUG", "--log-file", log, "run"])
        most = 0
        while run.process.poll() is None:
            sizes = {}
            for name in os.listdir(run.home):
                if name.startswith("log"):
                    try:
                        sizes[name] = os.path.getsize(os.path.join(run.home, name))
                    except OSError:
                        pass
            most = max(most, sum(sizes.values()))
            real_sleep(0.02)
        run.end()
        ctx.check(run.status == 0 and run.finished(), "the agent failed", **run.witness())
        names = sorted((n for n in os.listdir(run.home) if n.startswith("log")), key=lambda n: -int(n.rsplit(".", 1)[1]) if "." in n else 1)
        total = sum(os.path.getsize(os.path.join(run.home, n)) for n in names)
        written = sum(len(text) + 40 for mine in plan["records"] for _n, _l, text, _w in mine)
        # (a look at the sizes during a rotation may count a file twice)
        ctx.check(total <= 33e6 and most <= 39e6, "the log files are not bounded", **run.witness(total=total, most=most, files=names, written=written))
        ctx.check(written > 35e6, "(too little was logged)", **run.witness(written=written))
        data = b"".join(read(os.path.join(run.home, n)) for n in names)
        got = found(data)
        last = {}
        for n, seq, _level, text in got:
            ctx.check(n not in last or seq == last[n] + 1, "records were lost or out of order in the latest log files", **run.witness(thread=n, seq=seq, after=last.get(n), files=names))
            ctx.check(text == plan["records"][n][seq][2], "a record's text was changed", **run.witness(record=(n, seq)))
            last[n] = seq
        ctx.check(sorted(last.values()) == [each - 1] * threads, "the latest records are not in the log files", **run.witness(last=last, each=each, files=names))
        kept = sum(len(text) for _n, _s, _l, text in got)
        ctx.check(kept >= 15e6, "hardly any records are kept", **run.witness(kept=kept, files=names))
        ctx.count("rotated records", len(got))
        ctx.case(("rotation", number, threads), sample={"files": names, "total": total, "written": written})
        for n in names:
            os.remove(os.path.join(run.home, n))
    ctx.require("rotated records", 5000)
    ctx.require("troubles", 7)


def answers(ctx, shard):
    rng = ctx.rng()
    version = re.search(r"__version__ = [\"'](.*)[\"']", open(os.path.join(os.environ["VF_REPO"], "dataplicity", "_version.py")).read()).group(1)
    server, api = wsserver.WSServer(), apiserver.ApiServer()
    try:
        for number in range(ctx.pick(2, 10)):
            addresses = ["-m", server.url, "-s", api.url] if number % 2 else []
            extra = rng.choice([[], ["--log-level", "ERROR"], ["-d"], ["-q"], ["--serial", "s"], ["--auth=t"]])
            for kind in ("version", "--version", "-v", "nothing", "--help", "module"):
                run = Run(ctx, {"records": []})
                if kind == "module":
                    env = {k: v for k, v in os.environ.items() if not k.startswith("DATAPLICITY")}
                    env.update(HOME=run.home, PYTHONPATH=os.environ["VF_REPO"])
                    run.args = addresses + extra + ["version"]
                    run.process = subprocess.Popen([sys.executable, "-m", "dataplicity"] + run.args, env=env, cwd=run.home, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                else:
                    run.start(addresses + extra + ([] if kind == "nothing" else [kind]))
                run.end()
                both = run.out + run.err
                if kind in ("version", "module"):
                    ctx.check(run.status == 0 and run.out.strip() == version.encode(), "the version is not what was printed", **run.witness(want=version))
                elif kind in ("--version", "-v"):
                    ctx.check(run.status == 0 and version.encode() in both, "the version is not what was printed", **run.witness(want=version))
                elif kind == "--help":
                    ctx.check(run.status == 0 and all(w in run.out for w in (b"run", b"version", b"--serial", b"--log-file", b"--quiet")), "there is no help", **run.witness())
                else:
                    ctx.check(run.status > 0 and b"run" in both and b"version" in both, "without a command there must be help and a failure", **run.witness())
                ctx.check(b"Traceback" not in both, "the command failed", **run.witness())
                ctx.check(not run.finished() and not server.conns and not api.requests, "the agent ran though it was not asked to", **run.witness())
                ctx.count("answers")
                ctx.case((kind, tuple(extra), bool(addresses)))
        for number in range(ctx.pick(16, 90)):
            message = rng.choice(["it broke", "with % sign %s", "ünïcödé", "two\nlines", "", "{braces} {0}"])
            plan = {"records": [], "raise": rng.choice(["ValueError", "RuntimeError", "OSError", "KeyError", "Exception", "MemoryError", "UnicodeError", "StopIteration", "Odd"]), "message": message}
            if number % 2:
                # Errors that come with a number
                plan.update({"raise": rng.choice(["OSError", "OSError", "IOError", "PermissionError", "ConnectionError"]), "number": rng.choice([0, 1, 2, 4, 13, 22, 24, 28, 111, 256, 512, -256])})
            missing = number % 8 == 7
            if missing:
                message = "No such file"
            run = Run(ctx, plan)
            debug = rng.random() < 0.4
            args = [] if missing else ["--serial=s", "--auth=a"]
            args += ["-m", "ws://127.0.0.1:1/", "-s", "http://127.0.0.1:1/"]
            args += [rng.choice(["-d", "--debug"])] if debug else []
            args += rng.choice([[], [], ["--quiet"], ["--log-level", "CRITICAL"], ["--log-file", os.path.join(run.home, "log")]])
            run.start(args + ["run"], rng.choice([{}, {"LC_ALL": "C"}, {"LC_ALL": "C.UTF-8"}]))
            run.end()
            ctx.check(run.status > 0, "a failed run ended as if all was well", **run.witness(plan=plan))
            said = run.err.decode("utf-8", "replace")
            ascii_message = message.encode("ascii", "backslashreplace").decode()
            ctx.check(any(m in said or repr(m)[1:-1] in said for m in (message, ascii_message)), "a failed run does not say why", **run.witness(plan=plan))
            if missing:
                # The log also has one, at the level of errors
                if debug:
                    ctx.check("Traceback" in said, "no traceback with --debug", **run.witness(plan=plan))
            else:
                ctx.check(("Traceback" in said) == debug, "a traceback is for --debug, and only that", **run.witness(plan=plan))
            if not debug:
                ctx.check(version in said, "a failed run does not tell the agent's version", **run.witness(plan=plan))
            ctx.count("failed runs")
            ctx.case(("fails", plan["raise"], plan.get("number"), message, debug, missing))
    finally:
        server.close()
        api.close()
    ctx.require("answers", 12)
    ctx.require("failed runs", 16)


def run(ctx, shard):
    ctx.become(65534, 65534)
    os.chdir(ctx.scratch)
    if shard.startswith("records"):
        some_records(ctx, shard)
    elif shard.startswith("rotation"):
        rotation(ctx, shard)
    else:
        answers(ctx, shard)
