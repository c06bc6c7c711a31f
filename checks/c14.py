"""C14: remote commands stream exactly their stdout and always complete."""
import json
import os
import signal
import threading

from vf import sweep, world, wsserver
from vf.core import monotonic, real_sleep, run_threads

RULE = ("A case is one real shell command generated from steps (write known bytes to stdout or stderr in any sizes, pause, close "
        "either, leave a background child, replace the shell) and an end (exit status, signal, not found, syntax error), alone or "
        "with others, on a fast or slow connection. The channel's trace must be the known stdout, one completion message with "
        "the known status, one close request. Others are cut off by closing the channel or losing the connection at random "
        "moments and at every line of the service, and their shell must be gone. Non-trivial: distinct (steps, end, concurrency).")
SHARDS = {"quick": ["outputs1", "outputs2", "slow", "closed1", "closed2", "bulk", "sweep"],
          "thorough": ["slow", "bulk", "sweep"] + ["outputs%d" % i for i in range(6)] + ["closed%d" % i for i in range(4)]}

SIGNALS = [1, 2, 6, 9, 10, 14, 15]


def data(rng, size):
    block = bytes(rng.getrandbits(8) for _ in range(min(size, 2000)))
    if rng.random() < 0.2:
        # text that something in between might "correct"
        unit = rng.choice([b"line\r\n", b"a\r\r\n\n", b"\t\x1b[0m\x00\x04", b"\xff\xfe\xef\xbb\xbf", b"   \n", b"\r"])
        return (unit * (size // len(unit) + 1))[:size]
    out = b"".join(b"%07d:" % i + block[:57] for i in range(size // 64 + 1))
    return out[:size] if rng.random() < 0.7 else (block * (size // max(1, len(block)) + 1))[:size]


class Command(object):
    """A generated command with what it must produce."""

    def __init__(self, rng, directory, biggest, serial):
        self.stdout = b""
        lines, self.shape = [], []
        out_open = err_open = True
        for index in range(rng.randrange(0, 7)):
            step = rng.choice(["out", "out", "out", "err", "err", "pause", "text", "close-out", "close-err", "both", "child"])
            if step in ("out", "both") and out_open:
                size = rng.choice([1, 10, 1000, 4096, 65536, 65537, rng.randrange(biggest)])
                body = data(rng, size)
                path = os.path.join(directory, "%d-%d" % (serial, index))
                with open(path, "wb") as fh:
                    fh.write(body)
                lines.append("cat '%s'" % path)
                self.stdout += body
                self.shape.append((step, size))
            if step in ("err", "both") and err_open:
                size = rng.choice([1, 10, 70000, 200000, rng.randrange(biggest)])
                lines.append("head -c %d /dev/zero | tr '\\0' E >&2" % size)
                self.shape.append(("err", size))
            if step == "text" and out_open:
                lines.append("echo line %d" % index)
                self.stdout += b"line %d\n" % index
            if step == "pause":
                lines.append("sleep 0.0%d" % rng.randrange(1, 6))
            if step == "child" and err_open:
                # a child that keeps stderr, but not stdout, open for a while
                lines.append("sleep 0.%d >/dev/null &" % rng.randrange(1, 4))
            if step == "close-out" and rng.random() < 0.5:
                lines.append("exec >&-")
                out_open = False
                if rng.random() < 0.5:
                    lines.append("sleep 0.05")
            if step == "close-err" and rng.random() < 0.5:
                lines.append("exec 2>&-")
                err_open = False
            self.shape.append(step)
        roll = rng.random()
        if roll < 0.35:
            self.code = rng.choice([0, 0, 1, 2, 3, 42, 126, 127, 128, 200, 255])
            lines.append("exit %d" % self.code)
        elif roll < 0.6:
            number = rng.choice(SIGNALS)
            self.code = -number
            lines.append("kill -%d $$; sleep 5" % number)
        elif roll < 0.7:
            self.code = 127
            lines.append("/no/such/command/at/all")
        elif roll < 0.8:
            self.code = 0
            lines.append("exec true")
        elif roll < 0.9:
            self.code = 1
            lines.append("exec false")
        else:
            self.code = 7
            lines.append("(exit 7)")
        self.text = "\n".join(lines)

    def verify(self, ctx, conn, number, **witness):
        entries = conn.on_channel(number)
        witness = dict(witness, command=self.text[-600:], channel=number)
        kinds = [e.name for e in entries]
        sent = b"".join(e.packet[2] for e in entries if e.name == "request_send")
        if sent != self.stdout:
            at = next((i for i in range(min(len(sent), len(self.stdout))) if sent[i] != self.stdout[i]), min(len(sent), len(self.stdout)))
            ctx.fail("the command's standard output was not sent exactly", differs_at=at, got_bytes=len(sent), want_bytes=len(self.stdout),
                     got=sent[at:at + 60], want=self.stdout[at:at + 60], log=list(world.log_lines)[-8:], **witness)
        ctx.check(kinds.count("request_close") == 1, "the close was not requested exactly once", trace=kinds[-8:], **witness)
        ctx.check(kinds.count("request_send_control") == 1, "there was not exactly one completion message",
                  trace=[repr(e) for e in entries if e.name != "request_send"], **witness)
        ctx.check(kinds[-2:] == ["request_send_control", "request_close"], "the channel's messages are out of order", trace=kinds[-8:], **witness)
        control = json.loads(entries[-2].packet[2].decode("utf-8"))
        ctx.check(control.get("type") == "complete" and control.get("returncode") == self.code and control.get("returncode") is not None,
                  "the completion message does not carry the real exit status", got=control, want=self.code, **witness)


def outputs(ctx, slow=False):
    rng = ctx.rng()
    directory = ctx.dir("out")
    with world.World(ctx, compress=rng.random() < 0.5) as w:
        conn = w.join()
        w.sync()
        if slow:
            conn.read_size, conn.read_delay = 20000, 0.001
        number = 0
        jitter = sweep.Jitter(ctx.rng("j"), 0.01, 0.003, files=("commandservice.py",))
        with jitter:
            for round_number in range(ctx.pick(8 if slow else 40, 60 if slow else 350)):
                count = rng.choice([1, 1, 2, 5])
                commands = []
                for _ in range(count):
                    number += 1
                    command = Command(rng, directory, 40000 if not slow else 150000, number)
                    commands.append((number, command))
                    conn.instruct("run-command", port=number, command=command.text.encode())
                for n, command in commands:
                    ctx.check(conn.wait(lambda: conn.close_requests(n), 60.0), "a command never completed", command=command.text[-600:], channel=n,
                              trace=[repr(e) for e in conn.on_channel(n)][-5:], log=list(world.log_lines)[-8:], stacks=world.stacks)
                if rng.random() < 0.3:
                    real_sleep(0.05)
                for n, command in commands:
                    command.verify(ctx, conn, n, together=count)
                    ctx.count("commands")
                    ctx.count("output_bytes", len(command.stdout))
                    ctx.case((command.shape, command.code, count), sample={"command": command.text[:300], "status": command.code, "stdout": len(command.stdout)})
                    if rng.random() < 0.8:
                        conn.send("notify_close", n)
                for name in os.listdir(directory):
                    os.unlink(os.path.join(directory, name))
            w.sync()
            real_sleep(0.2)
            for entry in conn.packets("request_send", "request_send_control", "request_close"):
                ctx.check(1 <= entry.packet[1] <= number, "something was sent on another channel", entry=repr(entry))
        # Commands that can't be started
        for bad in (b"echo a\0b", b"x" * 3000000):
            number += 1
            conn.instruct("run-command", port=number, command=bad)
            ctx.check(conn.wait(lambda: conn.close_requests(number), 30.0), "the channel of a command that can't start was not closed",
                      command=bad[:20], log=list(world.log_lines)[-8:])
            kinds = [e.name for e in conn.on_channel(number)]
            ctx.check(kinds == ["request_send_control", "request_close"], "a command that can't start did not give an error and a close", trace=kinds)
            control = json.loads(conn.on_channel(number)[0].packet[2].decode())
            ctx.check(control.get("type") == "error", "a command that can't start gave no error", control=control)
            ctx.count("not_started")
        ctx.count("preemptions", jitter.stops)
        ctx.check(not conn.anomalies(), "broken messages were sent", anomalies=repr(conn.anomalies()[:3]))
    ctx.require("commands", 8)


def bulk(ctx):
    directory = ctx.dir("bulk")
    rng = ctx.rng()
    with world.World(ctx, compress=False) as w:
        conn = w.join()
        for number in range(1, ctx.pick(4, 10)):
            size = rng.choice([1048576, 1048577, 3 * 1048576 + 5, ctx.pick(4000000, 20000000)])
            body = data(rng, size)
            path = os.path.join(directory, "f")
            with open(path, "wb") as fh:
                fh.write(body)
            command = Command(rng, directory, 10, 1000 + number)
            command.stdout, command.code, command.shape = body, 5, ("bulk", size)
            command.text = rng.choice(["cat %s; exit 5", "cat %s & head -c 300000 /dev/zero >&2; wait; exit 5", "dd if=%s bs=1000003 2>/dev/null; exit 5"]) % path
            conn.instruct("run-command", port=number, command=command.text.encode())
            ctx.check(conn.wait(lambda: conn.close_requests(number), 90.0), "a command never completed", command=command.text)
            command.verify(ctx, conn, number)
            ctx.count("commands")
            ctx.count("output_bytes", size)
            ctx.case(("bulk", command.text, size))
    ctx.require("commands", 2)


def running(pid):
    try:
        with open("/proc/%d/stat" % pid) as fh:
            return fh.read().rsplit(")", 1)[1].split()[0] not in ("Z", "X")
    except (OSError, IOError):
        return False


LONG = ["echo $$; while :; do echo tick; done", "echo $$; sleep 300", "echo $$; trap '' TERM HUP INT PIPE; while :; do sleep 1; done",
        "echo $$; exec >&-; sleep 300", "echo $$; exec 2>&-; sleep 300", "echo $$; exec >&- 2>&-; sleep 300; exit 1",
        "echo $$; yes", "echo $$; while :; do echo err >&2; done", "echo $$; while :; do echo tick; sleep 0.01; done"]


def closed(ctx, shard):
    """The channel closes (or the connection is lost) while the command runs."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        number = 0
        jitter = sweep.Jitter(ctx.rng("j"), 0.01, 0.003, files=("commandservice.py",))
        with jitter:
            for round_number in range(ctx.pick(22, 200)):
                batch = []
                for _ in range(rng.choice([1, 1, 3])):
                    number += 1
                    text = rng.choice(LONG)
                    conn.instruct("run-command", port=number, command=text.encode())
                    batch.append((number, text))
                early = rng.random() < 0.25
                pids = {}
                if not early:
                    for n, text in batch:
                        ctx.check(conn.wait(lambda: b"\n" in conn.sent_on(n), 20.0), "a command did not start", command=text, log=list(world.log_lines)[-8:])
                        pids[n] = int(conn.sent_on(n).split(b"\n")[0])
                real_sleep(rng.choice([0, 0, 0.01, 0.1]) * rng.random())
                lose = rng.random() < 0.3
                if lose:
                    how = rng.choice(wsserver.ENDINGS)
                    conn.end(how)
                    start = monotonic()
                else:
                    how = "channel"
                    for n, _text in batch:
                        conn.send("notify_close", n)
                    start = monotonic()
                    w.sync()
                    real_sleep(0.05)
                    marks = {n: len(conn.on_channel(n)) for n, _t in batch}
                for n, text in batch:
                    pid = pids.get(n)
                    if pid is None and b"\n" in conn.sent_on(n):
                        pid = int(conn.sent_on(n).split(b"\n")[0])
                    if pid is not None:
                        ctx.wait(lambda: not running(pid), 20.0, "the shell of a command was not killed after its channel closed", how=how, command=text,
                                 pid=pid, log=list(world.log_lines)[-8:], stacks=world.stacks)
                        ctx.count("killed")
                if not lose:
                    real_sleep(0.03)
                    for n, text in batch:
                        more = conn.on_channel(n)[marks[n]:]
                        ctx.check(not more, "something was sent on a channel after it was closed", command=text, sent=[repr(e) for e in more[:3]])
                if lose:
                    conn = w.join(identity=rng.choice([None, b"c%d" % round_number]))
                    w.sync()
                    real_sleep(0.03)
                    for n, text in batch:
                        ctx.check(not conn.on_channel(n), "a command's output was sent over the next connection", command=text,
                                  sent=[repr(e) for e in conn.on_channel(n)[:3]])
                # no process of ours is left behind
                ctx.count("cut_off", len(batch))
                ctx.case((how, early, [t for _n, t in batch], round_number), sample={"how": how, "command": batch[0][1], "early": early})
        ctx.count("preemptions", jitter.stops)
        ours = os.getpid()
        children = lambda: [p for p in os.listdir("/proc") if p.isdigit() and parent_of(p) == ours]
        ctx.wait(lambda: not children(), 20.0, "shells were left running after their channels closed", children=children)
    ctx.require("killed", 10)


def parent_of(pid):
    try:
        with open("/proc/%s/stat" % pid) as fh:
            fields = fh.read().rsplit(")", 1)[1].split()
            return None if fields[0] in ("Z", "X") else int(fields[1])
    except (OSError, IOError):
        return None


def sweeps(ctx):
    """The channel closes at every line of the service."""
    from dataplicity.limiter import Limiter
    from dataplicity.m2m import commandservice, wsclient

    class Recorder(object):
        def __init__(self):
            self.events = []

        def channel_write(self, number, body):
            self.events.append(("data", body))

        def channel_control_write(self, number, body):
            self.events.append(("control", body))

        def close_channel(self, number):
            self.events.append("close")

    for text in ("echo one; sleep 0.03; echo two; exit 3", "echo one; exec >&-; sleep 0.03; exit 3"):
        k = 0
        while True:
            k += 1
            client = Recorder()
            channel = wsclient.Channel(client, 1)
            limiter = Limiter("services", 5)
            limiter.increment()
            service = object.__new__(commandservice.CommandService)
            service.limiter, service._repr = limiter, "swept"
            marks = []

            def close():
                channel.on_close()
                marks.append(len(client.events))
            one, two, where, lines = sweep.preempt(lambda: service.run_service(channel, text), close, k,
                                                   files=("commandservice.py",), patience=0.05, timeout=20)
            ctx.check(one is not None and two is not None, "a command did not end after its channel closed", where=where, stacks=world.stacks)
            ctx.check(two[1] is None and one[1] is None, "an operation raised", errors=repr((one, two)), where=where)
            if where is not None:
                ctx.check(client.events[marks[0]:] == [], "something was sent on a closed channel", where=where, events=client.events[marks[0]:])
            else:
                sent = b"".join(e[1] for e in client.events if isinstance(e, tuple) and e[0] == "data")
                ctx.check(sent == (b"one\ntwo\n" if "two" in text else b"one\n"), "the output was not sent exactly", sent=sent)
            ctx.count("schedules")
            ctx.case((text, k), nontrivial=where is not None, sample={"command": text, "closed at": where})
            if where is None or k > 300 or ctx.spent():
                break
    ctx.require("schedules", 30)


def run(ctx, shard):
    world.load()
    if shard.startswith("outputs"):
        outputs(ctx)
    elif shard == "slow":
        outputs(ctx, slow=True)
    elif shard == "bulk":
        bulk(ctx)
    elif shard.startswith("closed"):
        closed(ctx, shard)
    else:
        sweeps(ctx)
