"""C16: terminals relay input, output and window size faithfully."""
import json
import os
import threading

from vf import sweep, terminals, world, wsserver
from vf.core import monotonic, real_sleep, run_threads

RULE = ("A case is one terminal whose process (in raw mode) reports everything it reads and the window size it sees over a side "
        "channel and writes known bytes on request. Random streams run in both directions at once over fast and slow "
        "connections, with processes that stop reading, exit right after writing, or get input before they start; window sizes "
        "come when opening, by resizes at any moment and amid malformed control messages. Both streams and the size are compared "
        "end to end; input and resizes are also injected at every line of starting a terminal. Non-trivial: distinct scripts.")
SHARDS = {"quick": ["streams1", "streams2", "exit", "slow", "early", "sizes", "sweep"],
          "thorough": ["slow", "sizes", "sweep", "exit", "exit2", "early", "early2"] + ["streams%d" % i for i in range(5)]}

MALFORMED = [b"", b"{", b"null", b"[]", b"5", b"\"window_resize\"", b"{}", b"{\"type\": null}", b"{\"type\": \"unknown\"}", b"\xff\xfe\x00", b"{\"type\": \"window_resize\"}",
             b"{\"type\": \"window_resize\", \"size\": null}", b"{\"type\": \"window_resize\", \"size\": []}", b"{\"type\": \"window_resize\", \"size\": [10]}",
             b"{\"type\": \"window_resize\", \"size\": [10, 20, 30]}", b"{\"type\": \"window_resize\", \"size\": [\"10\", \"20\"]}",
             b"{\"type\": \"window_resize\", \"size\": [10.5, 20]}", b"{\"type\": \"window_resize\", \"size\": [10, null]}",
             b"{\"type\": \"window_resize\", \"size\": [100000, 20]}", b"{\"type\": \"window_resize\", \"size\": [10, 1e999]}", b"{\"type\": \"window_resize\", \"size\": \"ab\"}",
             b"{\"type\": \"window_resize\", \"size\": {\"a\": 1, \"b\": 2}}", b"{\"type\": \"window_resize\", \"size\": 7}", b"{\"type\": [], \"size\": [10, 20]}",
             b"{\"size\": [10, 20]}", b"{\"type\": \"WINDOW_RESIZE\", \"size\": [10, 20]}", b"[" * 2000, b"{\"type\": \"window_resize\", \"size\": [[10], [20]]}",
             b"{\"type\": \"window_resize\", \"size\": [10, 99999999999999999999999]}"]


class Terminal(object):
    def __init__(self, ctx, w, hub, number, size=None, modes=()):
        self.ctx, self.w, self.hub, self.number = ctx, w, hub, number
        self.name = "t%d" % number
        self.input = b""
        self.output = b""
        self.want_size = tuple(size) if size else (80, 24)
        w.m2m.add_terminal(self.name, hub.command(number, *modes))
        fields = {"name": self.name.encode(), "port": number}
        if size:
            fields["size"] = list(size)
        w.conn.instruct("open-terminal", **fields)
        self._inside = None

    @property
    def inside(self):
        if self._inside is None:
            self._inside = self.hub.get(self.number, 30.0)
            self.ctx.check(self._inside is not None, "the terminal's process did not start", name=self.name, log=list(world.log_lines)[-8:],
                           sent=self.w.conn.sent_on(self.number))
        return self._inside

    def route(self, data):
        self.input += data
        self.w.conn.route(self.number, data)

    def write(self, seed, size):
        self.output += terminals.pattern(seed, size)
        self.inside.tell("write %d %d" % (seed, size))

    def differs(self, message, got, want, **witness):
        at = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        self.ctx.fail(message, differs_at=at, got_bytes=len(got), want_bytes=len(want), got=got[at:at + 40], want=want[at:at + 40],
                      channel=self.number, closes=len(self.w.conn.close_requests(self.number)), log=list(world.log_lines)[-8:], **witness)

    def verify_input(self, timeout=40.0, **witness):
        inside = self.inside
        inside.wait(lambda: len(inside.data()) >= len(self.input) or inside.gone, timeout)
        got = inside.data()
        if got != self.input:
            self.differs("the terminal's process did not get exactly the routed input", got, self.input, gone=inside.gone, notes=inside.notes, **witness)
        self.ctx.count("input_bytes", len(got))

    def verify_output(self, timeout=40.0, echo=False, **witness):
        conn = self.w.conn
        want = self.output
        conn.wait(lambda: len(conn.sent_on(self.number)) >= len(want) and (not echo or conn.sent_on(self.number).endswith(want)), timeout)
        got = conn.sent_on(self.number)
        if echo and got.endswith(want):
            got = want
        if got != want:
            self.differs("the terminal's output was not sent exactly", got, want, **witness)
        self.ctx.count("output_bytes", len(got))

    def verify_size(self, settle=0.0, **witness):
        deadline = monotonic() + settle
        while True:
            size = self.inside.ask_size()
            if size == self.want_size:
                break
            if monotonic() > deadline:
                self.ctx.fail("the terminal's process does not see the latest valid window size", got=size, want=self.want_size, log=list(world.log_lines)[-8:], **witness)
            real_sleep(0.01)
        self.ctx.count("sizes")

    def resize(self, cols, lines):
        self.want_size = (cols, lines)
        self.w.conn.send("route_control", self.number, json.dumps({"type": "window_resize", "size": [cols, lines]}).encode())

    def close(self):
        self.w.conn.send("notify_close", self.number)


def random_bytes(rng, size):
    return bytes(rng.getrandbits(8) for _ in range(size))


def cut(rng, data):
    parts, position = [], 0
    while position < len(data):
        size = rng.choice([1, 2, 10, 100, 1000, 5000])
        parts.append(data[position:position + size])
        position += size
    return parts


def streams(ctx, slow=False):
    rng = ctx.rng()
    hub = terminals.Hub(ctx.dir("hub"))
    with world.World(ctx, compress=rng.random() < 0.5) as w:
        conn = w.join()
        w.sync()
        number = 0
        jitter = sweep.Jitter(ctx.rng("j"), 0.01, 0.002, files=("proxy.py", "remoteprocess.py"))
        with jitter:
            for round_number in range(ctx.pick(6 if slow else 14, 30 if slow else 120)):
                if slow:
                    conn.read_size, conn.read_delay = 16384, 0.001
                count = rng.choice([1, 1, 2, 4])
                group = []
                for _ in range(count):
                    number += 1
                    group.append(Terminal(ctx, w, hub, number))
                for t in group:
                    t.inside

                def traffic(t, local):
                    def route():
                        if local.random() < 0.3 or number <= 2:
                            # each byte on its own
                            alone = list(range(256)) + [3, 3, 4, 4, 26, 26, 13, 10, 13, 13]
                            local.shuffle(alone)
                            for value in alone:
                                t.route(bytes([value]))
                        data = random_bytes(local, local.choice([0, 1, 100, 3000, 20000]))
                        hold = local.random() < 0.3
                        if hold:
                            t.inside.tell("hold")
                        for part in cut(local, data):
                            t.route(part)
                            if local.random() < 0.1:
                                real_sleep(0.001)
                        if hold:
                            real_sleep(0.05)
                            t.inside.tell("read %d" % local.choice([1, 7, 1000, 65536]) if len(data) < 4000 else "read 4096")

                    def write():
                        for _ in range(local.randrange(0, 6)):
                            t.write(local.randrange(1 << 30), local.choice([1, 10, 1000, 4096, 70000 if not slow else 300000]))
                            if local.random() < 0.3:
                                real_sleep(0.005)
                    return [route, write]
                functions = []
                for index, t in enumerate(group):
                    functions += traffic(t, ctx.rng("t%d" % t.number))
                results = run_threads(functions, 120)
                for result in results:
                    ctx.stop_if_violated()
                    ctx.check(result is not None and result[1] is None, "the traffic could not be driven", error=repr(result))
                for t in group:
                    t.verify_input(together=count)
                    t.verify_output(90.0, together=count)
                    ctx.count("terminals")
                    ctx.case((number, count, len(t.input), len(t.output), slow), sample={"together": count, "input": len(t.input), "output": len(t.output), "slow": slow})
                for t in group:
                    t.close()
                conn.read_delay = 0.0
                w.sync()
            ctx.count("preemptions", jitter.stops)
    ctx.require("terminals", 6)


def exits(ctx, shard):
    """Output written just before the process exits."""
    rng = ctx.rng()
    hub = terminals.Hub(ctx.dir("hub"))
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        number = 0
        jitter = sweep.Jitter(ctx.rng("j"), 0.02, 0.004, files=("proxy.py", "remoteprocess.py"))
        with jitter:
            for round_number in range(ctx.pick(25, 200)):
                number += 1
                slow = rng.random() < 0.3
                t = Terminal(ctx, w, hub, number)
                t.inside
                if slow:
                    conn.read_size, conn.read_delay = 16384, 0.002
                if rng.random() < 0.4:
                    t.write(rng.randrange(1 << 30), rng.choice([1, 5000, 50000]))
                seed, size = rng.randrange(1 << 30), rng.choice([1, 10, 100, 4095, 4096, 4097, 10000, 65536, 200000])
                t.output += terminals.pattern(seed, size)
                t.inside.tell("write-exit %d %d" % (seed, size))
                t.verify_output(40.0, slow=slow, last=size)
                conn.read_delay = 0.0
                t.close()
                ctx.count("exits")
                ctx.case((slow, size, round_number), sample={"bytes before exit": size, "slow": slow})
            # A shell's last words, from short-lived commands
            for words in range(ctx.pick(12, 80)):
                number += 1
                w.m2m.add_terminal("brief", "printf 'stop %d\\n'" % number)
                conn.instruct("open-terminal", name=b"brief", port=number)
                want = b"stop %d\r\n" % number
                conn.wait(lambda: len(conn.sent_on(number)) >= len(want), 20.0)
                ctx.check(conn.sent_on(number) == want, "the output of a short-lived terminal was not sent exactly", got=conn.sent_on(number), want=want,
                          log=list(world.log_lines)[-8:])
                conn.send("notify_close", number)
                ctx.count("exits")
        ctx.count("preemptions", jitter.stops)
        w.sync()
    ctx.require("exits", 20)


def ended(ctx):
    """Input and sizes for a terminal whose process has ended don't get to other terminals."""
    rng = ctx.rng("ended")
    hub = terminals.Hub(ctx.dir("hub2"))
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        number = 0
        for round_number in range(ctx.pick(12, 80)):
            old, new = [], []
            for _ in range(rng.choice([1, 1, 3])):
                number += 1
                old.append(Terminal(ctx, w, hub, number))
                old[-1].inside
            for t in old:
                t.inside.tell("write-exit %d %d" % (number, rng.choice([1, 1000])))
            for t in old:
                t.inside.wait(lambda: t.inside.gone, 20.0)
            real_sleep(rng.choice([0.0, 0.02, 0.1]))
            for _ in range(len(old) + rng.randrange(3)):
                number += 1
                new.append(Terminal(ctx, w, hub, number, [rng.randrange(1, 300), rng.randrange(1, 300)]))
            for t in new:
                t.inside
                t.verify_size(20.0)
            typed = set()
            for t in rng.sample(old * 3, len(old) * 2):
                what = rng.choice(["resize", "resize", "input"])
                if what == "resize":
                    t.resize(rng.randrange(301, 1000), rng.randrange(301, 1000))
                else:
                    conn.route(t.number, b"for a process that has ended")
                    typed.add(t)
            w.sync()
            for t in typed:
                # (may still be on its way to its end)
                deadline = monotonic() + 20.0
                while not conn.close_requests(t.number):
                    ctx.check(monotonic() < deadline, "input for a terminal whose process has ended did not lead to a request to close its channel", channel=t.number)
                    conn.route(t.number, b"more of it")
                    real_sleep(0.01)
            for t in new:
                t.verify_size(0.0, after="a message for a terminal that has ended")
                t.route(random_bytes(rng, 20))
            for t in new:
                t.verify_input()
            for t in old + new:
                t.close()
            w.sync()
            ctx.count("messages_to_ended", len(old) * 2)
            ctx.case(("ended", len(old), len(new), round_number))


def early(ctx, shard):
    """Input and resizes right behind the request to open."""
    rng = ctx.rng()
    hub = terminals.Hub(ctx.dir("hub"))
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        number = 0
        jitter = sweep.Jitter(ctx.rng("j"), 0.03, 0.004, files=("proxy.py", "remoteprocess.py", "m2mmanager.py"))
        with jitter:
            for round_number in range(ctx.pick(40, 300)):
                number += 1
                size = rng.choice([None, [rng.randrange(1, 300), rng.randrange(1, 300)]])
                t = Terminal(ctx, w, hub, number, size)
                steps = []
                if round_number % 13 == 12:
                    # more messages than it can read before it runs
                    for n in range(1500):
                        t.route(b"line %d\n" % n)
                    steps.append("many")
                for _ in range(rng.randrange(1, 8)):
                    step = rng.choice(["text", "text", "resize", "malformed", "pause"])
                    steps.append(step)
                    if step == "text":
                        text = "".join(rng.choice("abcdefghij 0123456789") for _ in range(rng.choice([1, 5, 60]))) + "\n"
                        t.route(text.encode())
                    elif step == "resize":
                        t.resize(rng.randrange(1, 500), rng.randrange(1, 500))
                    elif step == "malformed":
                        conn.send("route_control", number, rng.choice(MALFORMED))
                    else:
                        real_sleep(rng.choice([0.001, 0.01, 0.03]))
                t.verify_input(20.0, steps=steps)
                t.verify_size(20.0, steps=steps, opened=size)
                real_sleep(0.002)
                t.write(rng.randrange(1 << 30), 500)
                t.verify_output(20.0, echo=True)
                t.verify_size(0.0, steps=steps)
                t.close()
                ctx.count("early")
                ctx.case((steps, size, len(t.input)), sample={"opened with": size, "then": steps})
            # the agent's own shell
            for _ in range(3):
                number += 1
                conn.instruct("open-terminal", name=b"shell", port=number, size=[100, 30])
                conn.route(number, b"echo $((40+2)); stty size\n")
                ctx.check(conn.wait(lambda: b"\n42\r\n30 100\r\n" in conn.sent_on(number), 20.0), "the shell did not run its input", sent=conn.sent_on(number))
                conn.send("notify_close", number)
        ctx.count("preemptions", jitter.stops)
        w.sync()
    ctx.require("early", 20)


def sizes(ctx):
    rng = ctx.rng()
    hub = terminals.Hub(ctx.dir("hub"))
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        number = 0
        opening = [None, [80, 24], [1, 1], [132, 43], [32767, 32767], [500, 2]]
        bad_opening = [[0], [1, 2, 3], [], b"ab", b"", 7, [b"80", b"24"], [100000, 5], [10, 2 ** 70], {b"a": 1}, [[80], [24]]]
        for size in opening + [rng.choice(opening) for _ in range(ctx.pick(4, 40))]:
            number += 1
            t = Terminal(ctx, w, hub, number, size)
            t.inside
            t.verify_size(20.0, opened=size)
            for _ in range(ctx.pick(25, 60)):
                step = rng.choice(["resize", "malformed", "malformed", "input", "output", "burst"])
                if step == "resize":
                    t.resize(rng.choice([1, 2, 80, 255, 256, 32767, rng.randrange(1, 1000)]), rng.choice([1, 24, 255, 256, 32767, rng.randrange(1, 1000)]))
                elif step == "burst":
                    for _i in range(20):
                        t.resize(rng.randrange(1, 1000), rng.randrange(1, 1000))
                elif step == "malformed":
                    message = rng.choice(MALFORMED)
                    conn.send("route_control", number, message)
                    ctx.count("malformed")
                elif step == "input":
                    t.route(random_bytes(rng, 50))
                else:
                    t.write(rng.randrange(1 << 30), 300)
                if rng.random() < 0.6 or step == "malformed":
                    w.sync()
                    t.verify_size(0.0, after=step, opened=size, message=message if step == "malformed" else None)
                ctx.case((step, t.want_size), sample={"after": step, "size": t.want_size})
            w.sync()
            t.verify_size(0.0)
            t.verify_input()
            t.verify_output()
            t.close()
        # A bad size when opening leaves a usable terminal
        for size in bad_opening:
            number += 1
            w.m2m.add_terminal("t%d" % number, hub.command(number))
            conn.instruct("open-terminal", name=b"t%d" % number, port=number, size=size)
            w.sync()
            inside = hub.get(number, 3.0)
            if inside is not None:
                conn.route(number, b"hello")
                inside.wait(lambda: inside.data() == b"hello")
                ctx.check(inside.data() == b"hello", "a terminal opened with a bad size is not usable", size=size)
                conn.send("route_control", number, b"{\"type\": \"window_resize\", \"size\": [50, 20]}")
                w.sync()
                ctx.check(inside.ask_size() == (50, 20), "a terminal opened with a bad size can't be resized", size=size, got=inside.size)
            conn.send("notify_close", number)
            ctx.count("bad_openings")
            ctx.case(("bad opening", size))
        w.sync()
    ctx.require("sizes", 60)
    ctx.require("malformed", 20)


def sweeps(ctx):
    """Input and a resize arrive at every line of starting a terminal."""
    from dataplicity.limiter import Limiter
    from dataplicity.m2m import remoteprocess, wsclient
    hub = terminals.Hub(ctx.dir("hub"))

    class Recorder(object):
        def __init__(self):
            self.sent = []

        def channel_write(self, number, body):
            self.sent.append(body)

        def channel_control_write(self, number, body):
            pass

        def close_channel(self, number):
            self.sent.append(b"<close>")

    k = 0
    while True:
        k += 1
        client = Recorder()
        channel = wsclient.Channel(client, 1)
        limiter = Limiter("terminals", 5)
        limiter.increment()
        process = remoteprocess.RemoteProcess(limiter, hub.command("s%d" % k), channel, size=[70, 20])
        channel.on_data(b"first\n")

        def arrive():
            channel.on_control(b"{\"type\": \"window_resize\", \"size\": [123, 45]}")
            channel.on_data(b"second\n")
            inside = hub.get("s%d" % k, 20.0)
            if inside is None:
                return None, None
            inside.wait(lambda: len(inside.data()) >= 13, 15.0)
            deadline = monotonic() + 10
            while inside.ask_size() != (123, 45) and monotonic() < deadline:
                real_sleep(0.01)
            got = inside.data(), inside.size
            inside.tell("write-exit 5 300")
            return got
        one, two, where, lines = sweep.preempt(process.run, arrive, k, files=("proxy.py", "remoteprocess.py"), patience=0.06, timeout=40, lead=0.4)
        ctx.check(one is not None and two is not None, "a terminal hung", where=where, stacks=world.stacks)
        ctx.check(two[1] is None, "delivering input or a resize raised", error=repr(two[1]), where=where)
        got, size = two[0]
        ctx.check(got is not None, "the terminal's process did not start", where=where)
        ctx.check(got == b"first\nsecond\n", "the process did not get exactly the input", got=got, where=where)
        ctx.check(size == (123, 45), "the process does not see the latest size", got=size, where=where)
        ctx.check(b"".join(client.sent).endswith(terminals.pattern(5, 300)), "the last output was not sent", where=where, got=client.sent[-1:])
        channel.on_close()
        ctx.count("schedules")
        ctx.case(("sweep", k), nontrivial=where is not None, sample={"preempted at": where})
        if where is None or k > 400 or ctx.spent():
            break
    ctx.require("schedules", 20)


def run(ctx, shard):
    world.load()
    if shard.startswith("streams"):
        streams(ctx)
    elif shard == "slow":
        streams(ctx, slow=True)
    elif shard.startswith("exit"):
        exits(ctx, shard)
    elif shard.startswith("early"):
        early(ctx, shard)
    elif shard == "sizes":
        sizes(ctx)
        ended(ctx)
        ctx.require("messages_to_ended", 20)
    else:
        sweeps(ctx)
