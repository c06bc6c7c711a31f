"""C06: channel data reaches its own service in order, exactly once."""
import threading

from vf import proto, sweep, world
from vf.core import monotonic, real_sleep, run_threads

RULE = ("A case is one routed message (or one schedule of a read against an arrival). The server routes random data "
        "over many channels at once, with control messages, garbage, closes and reopenings in between; consumers are echo "
        "services, callbacks and blocking or non-blocking reads by 1-4 threads with injected delays, and every line at "
        "which a read can be preempted by an arrival is enumerated. Streams are compared byte for byte per channel; "
        "concurrent reads must partition a stream of distinct bytes. Non-trivial: distinct messages/schedules.")
SHARDS = {"quick": ["echo", "echo-compress", "callbacks", "reads1", "reads-many", "sweep-read-first", "sweep-data-first", "sweep-read-read", "closed"],
          "thorough": ["echo", "echo-compress", "callbacks", "reads1", "reads-many1", "reads-many2", "sweep-read-first", "sweep-data-first", "sweep-read-read", "closed"]}


def chunk(rng, biggest=300):
    size = rng.choice([0, 1, 2, 10, rng.randrange(biggest), rng.randrange(biggest)])
    return bytes(rng.getrandbits(8) for _ in range(size))


NUMBERS = [0, 1, 2, 3, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 + 1, 2 ** 63, -1, 10 ** 20]


def echo(ctx, shard):
    rng = ctx.rng()
    with world.World(ctx, compress="compress" in shard) as w:
        conn = w.join()
        w.sync()
        for round_number in range(ctx.pick(12, 120)):
            numbers = rng.sample(NUMBERS, rng.randrange(2, len(NUMBERS)))
            start = len(conn.packets())
            streams = {n: [] for n in numbers}
            for n in numbers:
                conn.instruct("open-echo", port=n)
            for _ in range(rng.randrange(50, 200)):
                n = rng.choice(numbers)
                roll = rng.random()
                if roll < 0.8:
                    data = chunk(rng)
                    if rng.random() < 0.01:
                        data = data * 300
                    conn.route(n, data, fragments=rng.choice([1, 1, 2, 5]))
                    streams[n].append(data)
                    ctx.count("routed")
                    ctx.case((n, data))
                elif roll < 0.9:
                    conn.send("route_control", n, b'{"not": "data"}')
                elif roll < 0.95:
                    conn.send_message(b"garbage")
                else:
                    conn.send("ping", b"x")
            w.sync()
            got = {}
            for e in conn.packets()[start:]:
                if e.name == "pong":
                    continue
                ctx.check(e.name == "request_send" and e.packet[1] in streams, "an echo produced something else", entry=repr(e))
                got.setdefault(e.packet[1], []).append(e.packet[2])
            for n in numbers:
                ctx.equal(b"".join(got.get(n, [])), b"".join(streams[n]), "the echo service did not return its channel's bytes unchanged", channel=n)
                ctx.count("streams")
            for n in numbers:
                if rng.random() < 0.5:
                    conn.send("notify_close", n)
            w.sync()
    ctx.require("routed", 500)


def callbacks(ctx, shard):
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        m2m = w.ws
        for round_number in range(ctx.pick(15, 150)):
            numbers = rng.sample(NUMBERS, rng.randrange(2, 8))
            log = []
            lock = threading.Lock()

            def record(kind, n):
                def call(*args):
                    with lock:
                        log.append((kind, n) + args)
                return call
            for n in numbers:
                m2m.get_channel(n).set_callbacks(on_data=record("data", n), on_close=record("close", n), on_control=record("control", n))
            want, open_numbers = [], set(numbers)
            for _ in range(rng.randrange(30, 200)):
                if not open_numbers:
                    break
                n = rng.choice(sorted(open_numbers))
                roll = rng.random()
                if roll < 0.6:
                    data = chunk(rng)
                    conn.route(n, data)
                    want.append(("data", n, data))
                elif roll < 0.93:
                    data = chunk(rng, 60)
                    conn.send("route_control", n, data)
                    want.append(("control", n, data))
                elif roll < 0.96:
                    conn.send("notify_close", n)
                    want.append(("close", n))
                    open_numbers.discard(n)
                else:
                    conn.send("notify_close", 999999)
            w.sync()
            with lock:
                got = list(log)
            if got != want:
                index = next(i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1])
                ctx.fail("callbacks did not get exactly what was routed, in order", index=index, got=got[index:index + 3], want=want[index:index + 3])
            for item in want:
                ctx.case(item)
                ctx.count("routed")
            for n in sorted(open_numbers):
                conn.send("notify_close", n)
            w.sync()
    ctx.require("routed", 500)


def reads1(ctx, shard):
    """One reader, any mix of read sizes, blocking or not."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        m2m = w.ws
        for round_number in range(ctx.pick(25, 250)):
            numbers = rng.sample(NUMBERS, 2)
            channels = [m2m.get_channel(n) for n in numbers]
            plans = [[chunk(rng, 2000) for _ in range(rng.randrange(1, 60))] for _n in numbers]
            wants = [b"".join(p) for p in plans]
            jitter = sweep.Jitter(ctx.rng("j%d" % round_number), 0.02, 0.001, files=("wsclient.py",))

            def reader(channel, want, seed):
                local = ctx.rng("reader%d-%d" % (round_number, seed))

                def go():
                    got, deadline = b"", monotonic() + 30
                    while len(got) < len(want) and monotonic() < deadline:
                        size = local.choice([1, 2, 7, 100, 1000, 10 ** 6])
                        block = local.random() < 0.7
                        data = channel.read(size, timeout=local.choice([0.01, 0.5, 2.0]) if block else None, block=block)
                        ctx.check(isinstance(data, bytes) and len(data) <= size, "a read returned more than asked for", size=size, got=data)
                        got += data
                        ctx.count("reads")
                    got += channel.read(10 ** 6)
                    return got
                return go

            def feeder():
                queue = [(n, c) for i, n in enumerate(numbers) for c in plans[i]]
                order = list(range(2))
                positions = [0, 0]
                while any(positions[i] < len(plans[i]) for i in order):
                    i = rng.randrange(2)
                    if positions[i] < len(plans[i]):
                        conn.route(numbers[i], plans[i][positions[i]])
                        conn.send("route_control", numbers[i], b"control")
                        positions[i] += 1
                        if rng.random() < 0.1:
                            real_sleep(0.003)
            with jitter:
                results = run_threads([reader(channels[i], wants[i], i) for i in range(2)] + [feeder], 60.0)
            for i in range(2):
                ctx.check(results[i] is not None and results[i][1] is None, "a reader failed or hung", result=repr(results[i])[:300])
                got = results[i][0]
                if got != wants[i]:
                    prefix = next((p for p in range(min(len(got), len(wants[i]))) if got[p] != wants[i][p]), min(len(got), len(wants[i])))
                    ctx.fail("reads did not return exactly the routed bytes in order", channel=numbers[i], differs_at=prefix,
                             got_bytes=len(got), want_bytes=len(wants[i]))
                ctx.case((round_number, i, wants[i][:50]), nontrivial=bool(wants[i]))
            w.sync()
            for i, channel in enumerate(channels):
                ctx.check(channel.size == 0 and channel.read(100) == b"" and not channel, "data is left after everything was read", channel=numbers[i])
                # a blocking read with nothing there waits for its time-out
                conn.send("notify_close", numbers[i])
            w.sync()
        # Nobody reads until there are many messages
        for round_number in range(ctx.pick(2, 6)):
            number = 1000 + round_number
            count = rng.randrange(5000, 8000) * ctx.pick(1, 10)
            want = b"".join(b"%d," % n for n in range(count))
            for n in range(count):
                conn.route(number, b"%d," % n)
            ctx.check(conn.barrier(120.0), "the agent did not take %d messages" % count)
            channel = m2m.get_channel(number)
            ctx.check(channel.size == len(want), "messages that nobody has read yet are missing", size=channel.size, want=len(want))
            got = b""
            while len(got) < len(want):
                data = channel.read(rng.choice([10, 5000, 10 ** 6]))
                if not data:
                    break
                got += data
            ctx.check(got == want, "reads did not return exactly the many messages before", got=got[:50], got_bytes=len(got), want_bytes=len(want))
            conn.send("notify_close", number)
            ctx.count("backlog", count)
            ctx.case(("backlog", count))
        w.sync()
    ctx.require("reads", 200)
    ctx.require("backlog", 10000)


def reads_many(ctx, shard):
    """Several readers of one channel: their reads partition the stream."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        m2m = w.ws
        for round_number in range(ctx.pick(50, 500)):
            number = 100 + round_number
            channel = m2m.get_channel(number)
            stream = list(range(256))
            rng.shuffle(stream)
            stream = bytes(stream)
            index_of = {byte: i for i, byte in enumerate(stream)}
            total = [0]
            lock = threading.Lock()

            def reader(seed):
                local = ctx.rng("r%d-%d" % (round_number, seed))

                def go():
                    mine, deadline = [], monotonic() + 20
                    while monotonic() < deadline:
                        with lock:
                            if total[0] >= len(stream):
                                return mine
                        data = channel.read(local.choice([1, 2, 3, 5, 17, 300]), timeout=0.02, block=local.random() < 0.6)
                        if data:
                            mine.append(data)
                            with lock:
                                total[0] += len(data)
                    return mine
                return go

            def feeder():
                position = 0
                while position < len(stream):
                    size = rng.choice([1, 2, 5, 20])
                    conn.route(number, stream[position:position + size])
                    position += size
                    if rng.random() < 0.2:
                        real_sleep(0.001)
            jitter = sweep.Jitter(ctx.rng("j%d" % round_number), 0.05, 0.002, files=("wsclient.py",))
            count = rng.randrange(2, 5)
            with jitter:
                results = run_threads([reader(i) for i in range(count)] + [feeder], 60.0)
            ctx.check(all(r is not None and r[1] is None for r in results), "a reader failed or hung", results=repr(results)[:300])
            pieces = []
            for result in results[:count]:
                last = -1
                for data in result[0]:
                    first = index_of[data[0]]
                    ctx.check(stream[first:first + len(data)] == data, "a read returned bytes that were not contiguous in the stream", data=data)
                    ctx.check(first > last, "a reader got bytes out of order", data=data)
                    last = first
                    pieces.append((first, len(data)))
            pieces.sort()
            position = 0
            for first, size in pieces:
                ctx.check(first == position, "bytes were lost or delivered twice between readers", at=position, next_piece=first,
                          delivered=sum(p[1] for p in pieces), routed=len(stream))
                position = first + size
            ctx.check(position == len(stream), "bytes were lost between readers", delivered=position, routed=len(stream), left=channel.size)
            ctx.count("streams")
            ctx.count("preemptions", jitter.stops)
            ctx.case(tuple(pieces))
            conn.send("notify_close", number)
    ctx.require("streams", 10)


def sweeps(ctx, shard):
    """Every line at which a read can be preempted by an arrival, and the reverse."""
    from dataplicity.m2m import wsclient

    class NoClient(object):
        def channel_write(self, *args):
            pass

    files = ("wsclient.py",)

    def fresh(preload):
        channel = wsclient.Channel(NoClient(), 1)
        for data in preload:
            channel.on_data(data)
        return channel

    scenarios = []
    for preload in ([], [b"abc"], [b"ab", b"c"]):
        for size in (1, 2, 3, 10):
            for block in (False, True):
                scenarios.append((preload, size, block))
    for preload, size, block in scenarios:
        for direction in (shard[6:],):
            k = 0
            while True:
                k += 1
                channel = fresh(preload)
                read = lambda: channel.read(size, timeout=0.05, block=block)
                arrive = lambda: channel.on_data(b"xyz")
                arrived = [b"xyz"]
                if direction == "read-first":
                    first, second = read, arrive
                elif direction == "data-first":
                    first, second = arrive, read
                else:
                    first, second, arrived = read, read, []
                one, two, where, lines = sweep.preempt(first, second, k, files=files, patience=0.02)
                ctx.check(one is not None and two is not None and one[1] is None and two[1] is None, "a read or an arrival failed or hung",
                          where=where, outcome=repr((one, two)))
                parts = [r[0] for r in (one, two) if r[0]]
                want = b"".join(preload + arrived)
                rest = b""
                for _ in range(20):
                    # all the routed bytes must be available to a reader that waits
                    if len(b"".join(parts)) + len(rest) >= len(want):
                        break
                    data = channel.read(2, timeout=1.0, block=True)
                    ctx.check(data != b"", "data was there but a blocking read did not get it", where=where, preload=preload, size=size,
                              block=block, direction=direction, left=channel.size)
                    rest += data
                orders = [b"".join(parts), b"".join(reversed(parts))]
                ctx.check(any(o + rest == want for o in orders), "bytes were lost, duplicated or reordered", where=where, preload=preload,
                          parts=parts, rest=rest, want=want, direction=direction)
                # With nothing left a blocking read waits, then returns nothing.
                began = monotonic()
                ctx.check(channel.read(5, timeout=0.02, block=True) == b"" and monotonic() - began > 0.01,
                          "a blocking read did not wait although there is no data", where=where)
                ctx.check(channel.read(5) == b"" and channel.size == 0, "data is left over", where=where)
                ctx.count("schedules")
                ctx.case((direction, preload, size, block, k), nontrivial=where is not None)
                if where is None or ctx.spent():
                    break
    ctx.require("schedules", 100)


def closed(ctx, shard):
    """Nothing is delivered or written once a channel has been closed."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        m2m = w.ws
        for round_number in range(ctx.pick(60, 600)):
            number = rng.choice(NUMBERS)
            log = []
            channel = m2m.get_channel(number)
            consumer = rng.choice(["callback", "read", "echo"])
            if consumer == "callback":
                channel.set_callbacks(on_data=lambda d: log.append(("data", d)), on_close=lambda: log.append(("close",)),
                                      on_control=lambda d: log.append(("control", d)))
            elif consumer == "echo":
                conn.instruct("open-echo", port=number)
            conn.route(number, b"before")
            w.sync()
            if consumer == "read":
                ctx.equal(channel.read(100), b"before", "routed data was not readable")
            conn.send("notify_close", number)
            if rng.random() < 0.5:
                conn.send("notify_close", number)
            w.sync()
            start = len(conn.packets())
            count = len(log)
            ctx.check(channel.is_closed, "a closed channel does not say so", channel=number)
            # late traffic, for the old channel object and for the number
            channel.on_data(b"late")
            channel.on_control(b"late control")
            conn.route(number, b"new data for the number")
            conn.send("route_control", number, b"new control for the number")
            writers = [lambda: channel.write(b"stale"), lambda: channel.send_control({"stale": 1}), lambda: channel.close(),
                       lambda: channel.get_file() and None]
            rng.shuffle(writers)
            for writer in writers:
                writer()
            w.sync()
            extra = [e for e in conn.packets()[start:] if e.name != "pong"]
            ctx.check(not extra, "something was written for a closed channel", consumer=consumer, entries=[repr(e) for e in extra])
            ctx.check(log[count:] == [], "something was delivered to the consumers of a closed channel", got=log[count:], consumer=consumer)
            if consumer == "read":
                ctx.equal(channel.read(100), b"", "a closed channel delivered late data")
            ctx.check(log.count(("close",)) == (1 if consumer == "callback" else 0), "close callback count", log=log)
            conn.send("notify_close", number)
            w.sync()
            ctx.count("closed")
            ctx.case((number, consumer, round_number))
    ctx.require("closed", 20)


def run(ctx, shard):
    world.load()
    if shard.startswith("echo"):
        echo(ctx, shard)
    elif shard == "callbacks":
        callbacks(ctx, shard)
    elif shard == "reads1":
        reads1(ctx, shard)
    elif shard.startswith("reads-many"):
        reads_many(ctx, shard)
    elif shard.startswith("sweep"):
        sweeps(ctx, shard)
    else:
        closed(ctx, shard)
