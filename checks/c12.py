"""C12: port forwarding relays bytes exactly in both directions."""
import socket
import threading

from vf import localserver, sweep, world, wsserver
from vf.core import monotonic, real_sleep, run_threads

RULE = ("A case is one forwarded connection between the loopback m2m server and a loopback TCP server, with random streams in "
        "both directions at once (chunks 0-1 MB, slow readers, injected delays in agent code and in connect()), ended by the "
        "local server, by the channel, by a reset or by losing the m2m connection, before or after it is established. The "
        "bytes on each side are compared with what the other side was given: equal, or a prefix where a side failed. The lines "
        "at which connecting can be preempted by arriving data are enumerated. Non-trivial: distinct (script, way of ending).")
SHARDS = {"quick": ["duplex1", "duplex2", "early", "failing", "bulk", "sweep", "pressure", "parting"],
          "thorough": ["bulk", "sweep", "pressure", "parting", "early", "failing", "failing2", "early2"] + ["duplex%d" % i for i in range(6)]}

connect_delay = {"seconds": lambda: 0.0}


def install_connect_delay():
    real_connect = socket.socket.connect

    def connect(self, address):
        if not threading.current_thread().name.startswith("vf-"):
            delay = connect_delay["seconds"]()
            if delay:
                real_sleep(delay)
        return real_connect(self, address)
    socket.socket.connect = connect


def stream(rng, length):
    block = bytes(rng.getrandbits(8) for _ in range(min(length, 997)))
    out = (block * (length // max(1, len(block)) + 1))[:length]
    # position marks, so that lost or swapped blocks show
    marks = b"".join(b"%08d" % i for i in range(0, length, 64))
    return bytes(a ^ b for a, b in zip(out, (marks * (1 + length // max(1, len(marks))))[:length])) if length < 20000 else (marks * (1 + length // len(marks)))[:length]


def cut(rng, data):
    parts, position = [], 0
    while position < len(data):
        size = rng.choice([1, 2, 10, 100, 1000, 5000, 70000])
        parts.append(data[position:position + size])
        position += size
    if rng.random() < 0.2:
        parts.insert(rng.randrange(len(parts) + 1), b"")
    return parts


def differs(ctx, message, got, want, **witness):
    prefix = next((p for p in range(min(len(got), len(want))) if got[p] != want[p]), min(len(got), len(want)))
    ctx.fail(message, differs_at=prefix, got_bytes=len(got), want_bytes=len(want), got=got[prefix:prefix + 40], want=want[prefix:prefix + 40],
             log=list(world.log_lines)[-8:], **witness)


def open_forward(conn, w, rng, server, number):
    if rng.random() < 0.5:
        conn.instruct("open-portredirect", device_port=server.port, m2m_port=number)
    else:
        name = "svc%d" % server.port
        w.client.port_forward.add_service(name, server.port)
        conn.instruct("open-portforward", service=name.encode(), route=[b"node", 1, b"device", number])


def one_connection(ctx, w, conn, rng, number, biggest, mode):
    """A connection with traffic both ways; returns after verifying it."""
    server = localserver.LocalServer()
    down = stream(rng, rng.choice([0, 1, 100, rng.randrange(biggest)]))
    up = stream(rng, rng.choice([0, 1, 100, rng.randrange(biggest)]))
    how = rng.choice(["local", "channel", "local-first-write"])
    early = rng.random() < 0.5
    open_forward(conn, w, rng, server, number)
    peer_box = []
    try:
        def route():
            if not early:
                server.peer(0)
            for part in cut(rng, down):
                conn.route(number, part, fragments=rng.choice([1, 1, 3]))
                if rng.random() < 0.1:
                    real_sleep(0.001)
                if rng.random() < 0.05:
                    conn.send("route_control", number, b"control data")

        def write():
            peer = server.peer(0)
            ctx.check(peer is not None, "the agent did not connect to the local server", log=list(world.log_lines)[-8:])
            if rng.random() < 0.3:
                peer.read_size, peer.read_delay = 4096, 0.0005
            peer_box.append(peer)
            for part in cut(ctx.rng("w%d" % number), up):
                peer.write(part)
                if rng.random() < 0.1:
                    real_sleep(0.001)
        results = run_threads([route, write], 120)
        for result in results:
            ctx.stop_if_violated()
            ctx.check(result is not None and result[1] is None, "the traffic could not be sent", error=repr(result))
        peer = peer_box[0]
        witness = dict(channel=number, how=how, early=early, routed=len(down), written=len(up))
        if how == "channel":
            # Both directions arrive, then the server closes the channel.
            conn.wait(lambda: len(conn.sent_on(number)) >= len(up), 40.0)
            if conn.sent_on(number) != up:
                differs(ctx, "the channel did not get exactly what the local server wrote", conn.sent_on(number), up, **witness)
            conn.send("notify_close", number)
            ctx.check(peer.wait(lambda: peer.eof or peer.error, 40.0), "the local server saw no end of stream after the channel closed", **witness)
            if peer.data() != down:
                differs(ctx, "the local server did not get all the bytes routed before the channel was closed", peer.data(), down, **witness)
            peer.close()
        else:
            # The local server has what it wants and closes.
            if not peer.wait(lambda: len(peer.data()) >= len(down), 40.0) or peer.data() != down:
                differs(ctx, "the local server did not get exactly the routed bytes", peer.data(), down, **witness)
            if how == "local":
                peer.close()
            else:
                peer.close_write()
            ctx.check(conn.wait(lambda: conn.close_requests(number), 40.0), "no close was requested after the local server closed", **witness)
            if conn.sent_on(number) != up:
                differs(ctx, "the channel did not get all the local server wrote before its close was requested", conn.sent_on(number), up, **witness)
            names = [e.name for e in conn.on_channel(number)]
            ctx.check("request_send" not in names[names.index("request_close"):], "data was sent on a channel after its close was requested", **witness)
            conn.send("notify_close", number)
            peer.close()
        ctx.count("bytes", len(up) + len(down))
        ctx.count("connections")
        ctx.case((how, early, len(up), len(down)), sample=witness)
    finally:
        server.close()


def duplex(ctx, shard):
    rng = ctx.rng()
    install_connect_delay()
    with world.World(ctx, compress=rng.random() < 0.5) as w:
        conn = w.join()
        w.sync()
        number = 0
        for round_number in range(ctx.pick(10, 80)):
            count = rng.choice([1, 2, 4, 6])
            delay = rng.choice([0, 0, 0.02])
            connect_delay["seconds"] = lambda: delay
            functions = []
            for _ in range(count):
                number += 1
                local = ctx.rng("c%d" % number)
                functions.append(lambda n=number, local=local: one_connection(ctx, w, conn, local, n, 60000, None))
            jitter = sweep.Jitter(ctx.rng("j%d" % round_number), 0.02, 0.002, files=("portforward.py",))
            with jitter:
                results = run_threads(functions, 200)
            ctx.stop_if_violated()
            for result in results:
                ctx.check(result is not None, "a connection hung", stacks=world.stacks)
                if result[1] is not None:
                    raise result[1]
            ctx.count("preemptions", jitter.stops)
            w.sync()
    ctx.require("connections", 10)


def bulk(ctx):
    rng = ctx.rng()
    with world.World(ctx, compress=False) as w:
        conn = w.join()
        for number in range(1, ctx.pick(4, 12)):
            one_connection(ctx, w, conn, rng, number, ctx.pick(3000000, 12000000), None)
    ctx.require("bytes", 100000)


def early(ctx, shard):
    """Everything is routed, and perhaps the channel closed, before there is a local connection."""
    rng = ctx.rng()
    install_connect_delay()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        for number in range(1, ctx.pick(40, 300)):
            server = localserver.LocalServer()
            delay = rng.choice([0.0, 0.01, 0.05, 0.15])
            connect_delay["seconds"] = lambda: delay
            down = stream(rng, rng.randrange(1, 5000))
            parts = cut(rng, down)
            if rng.random() < 0.35:
                # the same piece again and again
                parts = [rng.choice([b"\0", b"x", b"ab", b"line\n", b"\xff" * 300])] * rng.randrange(2, 60)
                down = b"".join(parts)
            if number % 13 == 0:
                # many pieces
                delay = 1.0
                parts = [b"%d," % n for n in range(rng.randrange(3000, 6000))]
                down = b"".join(parts)
                ctx.count("backlog", len(parts))
            open_forward(conn, w, rng, server, number)
            for part in parts:
                conn.route(number, part)
            close = rng.random() < 0.6
            if close:
                if rng.random() < 0.5:
                    real_sleep(rng.random() * 0.05)
                conn.send("notify_close", number)
            witness = dict(delay=delay, close=close, channel=number)
            peer = server.peer(0, 20.0)
            if close and peer is None:
                ctx.fail("the bytes routed before the channel closed did not reach the local server (no connection)", **witness)
            ctx.check(peer is not None, "the agent did not connect", **witness)
            if close:
                ctx.check(peer.wait(lambda: peer.eof or peer.error, 20.0), "the local server saw no end of stream after the channel closed", **witness)
            else:
                peer.wait(lambda: len(peer.data()) >= len(down), 20.0)
            if peer.data() != down:
                differs(ctx, "bytes routed before the connection was established did not all arrive in order", peer.data(), down, **witness)
            if not close:
                more = stream(rng, 300)
                conn.route(number, more)
                peer.wait(lambda: len(peer.data()) >= len(down) + 300, 20.0)
                if peer.data() != down + more:
                    differs(ctx, "later bytes did not follow the early ones", peer.data(), down + more, **witness)
                conn.send("notify_close", number)
            server.close()
            ctx.count("connections")
            ctx.case((number, delay, close, len(down)), sample=witness)
    ctx.require("connections", 20)
    ctx.require("backlog", 5000)


def failing(ctx, shard):
    """One side fails in the middle: what arrived is a prefix."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        number = 0
        for round_number in range(ctx.pick(40, 300)):
            number += 1
            server = localserver.LocalServer()
            down, up = stream(rng, 30000 + rng.randrange(30000)), stream(rng, 30000 + rng.randrange(30000))
            open_forward(conn, w, rng, server, number)
            peer = server.peer(0)
            ctx.check(peer is not None, "the agent did not connect")
            how = rng.choice(["reset", "close-unread", "channel", "lost", "shutdown-both"])
            stop_at = rng.random()

            def route():
                parts = cut(ctx.rng("r%d" % number), down)
                for index, part in enumerate(parts):
                    if index >= stop_at * len(parts) and how in ("channel", "lost"):
                        break
                    conn.route(number, part)

            def write():
                parts = cut(ctx.rng("w%d" % number), up)
                try:
                    for index, part in enumerate(parts):
                        if index >= stop_at * len(parts) and how not in ("channel", "lost"):
                            break
                        peer.write(part)
                except OSError:
                    pass
                if how == "reset":
                    peer.reset()
                elif how == "close-unread":
                    peer.reading.clear()
                    peer.close()
                elif how == "shutdown-both":
                    peer.close()
            functions = [route, write]
            run_threads(functions, 60)
            if how == "channel":
                conn.send("notify_close", number)
            elif how == "lost":
                old = conn
                conn.end(rng.choice(wsserver.ENDINGS))
            witness = dict(how=how, channel=number)
            if how in ("channel", "lost"):
                ctx.check(peer.wait(lambda: peer.eof or peer.error, 30.0), "the local server saw no end of stream", **witness)
                got = old.sent_on(number) if how == "lost" else conn.sent_on(number)
            else:
                ctx.check(conn.wait(lambda: conn.close_requests(number), 30.0), "no close was requested after the local server went away",
                          log=list(world.log_lines)[-8:], **witness)
                got = conn.sent_on(number)
            if not up.startswith(got):
                differs(ctx, "the bytes sent on the channel are not a prefix of what the local server wrote", got, up, **witness)
            if not down.startswith(peer.data()):
                differs(ctx, "the bytes the local server got are not a prefix of the routed ones", peer.data(), down, **witness)
            if how == "lost":
                conn = w.join(identity=rng.choice([None, b"n%d" % number]))
                w.sync()
            else:
                conn.send("notify_close", number)
            server.close()
            ctx.count("connections")
            ctx.count("prefix_bytes", len(got) + len(peer.data()))
            ctx.case((how, number, len(got)), sample=witness)
    ctx.require("connections", 20)


def pressure(ctx):
    """The local server is slower than the channel: more is routed than the socket buffers hold."""
    rng = ctx.rng()
    with world.World(ctx, compress=False) as w:
        conn = w.join()
        w.sync()
        stubborn, failures = 0, 0
        number, wanted = 0, ctx.pick(8, 40)
        while number < wanted:
            number += 1
            # one that doesn't read for a while, but for less time than would count as failing
            long = number % 4 == 3
            server = localserver.LocalServer(receive_buffer=65536 if long else rng.choice([4096, 16384, 65536]), paused=True)
            down = stream(rng, 8000000 if long else rng.choice([6000000, 9000000, 12000000]))
            open_forward(conn, w, rng, server, number)
            peer = server.peer(0)
            ctx.check(peer is not None, "the agent did not connect")
            how = rng.choice(["channel", "local"])
            size = rng.choice([300000, 1000000, 4000000])
            pause = rng.choice([0.0, 0.2, 1.0])
            if long:
                pause = 2.5
                stubborn += 1

            def route():
                for start in range(0, len(down), size):
                    conn.route(number, down[start:start + size])
                if how == "channel":
                    conn.send("notify_close", number)

            def read():
                real_sleep(pause)
                peer.read_size = rng.choice([65536, 1000000])
                peer.reading.set()
            witness = dict(channel=number, how=how, routed=len(down), pieces=size, pause=pause)
            for result in run_threads([route, read], 60):
                ctx.check(result is not None and result[1] is None, "the data could not be sent", error=repr(result), **witness)
            peer.wait(lambda: peer.eof or peer.error or (how == "local" and sum(map(len, peer.chunks)) >= len(down)), 40.0)
            if long and peer.data() != down and failures < 2:
                # a busy machine may have stretched the pause: only what happens every time counts
                failures += 1
                wanted = max(wanted, number + 4)
                conn.send("notify_close", number)
                server.close()
                continue
            if peer.data() != down:
                differs(ctx, "a slow local server did not get exactly the routed bytes", peer.data(), down, error=repr(peer.error), **witness)
            if how == "local":
                conn.send("notify_close", number)
            ctx.check(peer.wait(lambda: peer.eof, 20.0), "the local server saw no end of stream after the channel closed", error=repr(peer.error), **witness)
            server.close()
            ctx.count("connections")
            ctx.case((number, how, size, pause), sample=witness)
    ctx.require("connections", 5)


def parting(ctx):
    """The channel closes while the local server, which has not read everything yet, goes on writing."""
    import gc
    rng = ctx.rng()
    with world.World(ctx, compress=False) as w:
        conn = w.join()
        w.sync()
        for number in range(1, ctx.pick(12, 80)):
            server = localserver.LocalServer(receive_buffer=4096, paused=True)
            down = stream(rng, rng.choice([20000, 200000, 600000]))
            open_forward(conn, w, rng, server, number)
            peer = server.peer(0)
            ctx.check(peer is not None, "the agent did not connect")
            stop, gap = threading.Event(), rng.choice([0.0005, 0.002, 0.02])

            def write():
                try:
                    while not stop.is_set():
                        peer.write(b"more of the answer " * 20)
                        real_sleep(gap)
                except OSError:
                    pass
            writer = threading.Thread(target=write, name="vf-writer")
            writer.daemon = True
            writer.start()
            lost = rng.random() < 0.3
            for part in cut(rng, down):
                conn.route(number, part)
            witness = dict(channel=number, routed=len(down), lost=lost, gap=gap)
            if lost:
                w.sync()
                conn.end("fin")
                conn = w.join(identity=rng.choice([None, b"n%d" % number]))
            else:
                conn.send("notify_close", number)
            w.sync(conn)
            # Nothing may depend on when the agent's memory is tidied up
            for _ in range(3):
                real_sleep(0.05)
                gc.collect()
            peer.reading.set()
            peer.wait(lambda: peer.eof or peer.error, 20.0)
            stop.set()
            if peer.data() != down:
                differs(ctx, "bytes routed before the channel closed did not reach a local server that was still writing", peer.data(), down,
                        error=repr(peer.error), **witness)
            ctx.check(peer.eof, "the local server saw no end of stream after the channel closed", error=repr(peer.error), **witness)
            server.close()
            ctx.count("connections")
            ctx.case((number, lost, gap, len(down)), sample=witness)
    ctx.require("connections", 10)


def sweeps(ctx):
    """Data (or the close) arrives at every line of connecting, and the reverse."""
    from dataplicity import portforward
    from dataplicity.limiter import Limiter
    from dataplicity.m2m import wsclient

    class Recorder(object):
        def __init__(self):
            self.sent = []

        def channel_write(self, number, data):
            self.sent.append(data)

        def channel_control_write(self, number, data):
            self.sent.append(data)

        def close_channel(self, number):
            self.sent.append("close")

    files = ("portforward.py",)
    for scenario in ("data", "data-close", "close"):
        k = 0
        while True:
            k += 1
            server = localserver.LocalServer()
            client = Recorder()
            channel = wsclient.Channel(client, 1)
            limiter = Limiter("services", 5)
            limiter.increment()
            connection = portforward.Connection(limiter, threading.Event(), channel, ("127.0.0.1", server.port))
            channel.on_data(b"early-")
            expect = b"early-" + (b"late" if scenario != "close" else b"")
            closes = scenario != "data"

            def local():
                peer = server.peer(0, 20.0)
                peer.write(b"greeting")
                peer.wait(lambda: peer.eof or peer.error or (not closes and len(peer.data()) >= len(expect)), 20.0)
                peer.close()
                return peer

            def arrive():
                if scenario != "close":
                    channel.on_data(b"late")
                if closes:
                    channel.on_close()
            helper = []
            thread = threading.Thread(target=lambda: helper.append(local()), name="vf-local")
            thread.daemon = True
            thread.start()
            one, two, where, lines = sweep.preempt(connection.run, arrive, k, files=files, patience=0.03, timeout=25, lead=0.5)
            thread.join(20)
            ctx.check(one is not None and two is not None, "a connection hung", scenario=scenario, where=where)
            ctx.check(two[1] is None, "delivering data raised", error=repr(two[1]))
            peer = helper[0]
            if peer.data() != expect:
                differs(ctx, "the local server did not get exactly the routed bytes", peer.data(), expect, scenario=scenario, where=where)
            if closes:
                ctx.check(peer.eof, "the local server saw no end of stream", scenario=scenario, where=where)
            else:
                ctx.check([c for c in client.sent if c != "close"] == [b"greeting"], "the channel did not get what the local server wrote",
                          sent=client.sent, where=where)
            server.close()
            ctx.count("schedules")
            ctx.case((scenario, k), nontrivial=where is not None, sample={"scenario": scenario, "preempted at": where})
            if where is None or ctx.spent():
                break
    ctx.require("schedules", 40)


def run(ctx, shard):
    world.load()
    if shard.startswith("duplex"):
        duplex(ctx, shard)
    elif shard == "bulk":
        bulk(ctx)
    elif shard.startswith("early"):
        early(ctx, shard)
    elif shard.startswith("failing"):
        failing(ctx, shard)
    elif shard == "pressure":
        pressure(ctx)
    elif shard == "parting":
        parting(ctx)
    else:
        sweeps(ctx)
