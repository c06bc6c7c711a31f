"""C13: port-forward connections end cleanly and independently."""
import socket
import threading

from vf import localserver, sweep, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one open request or one way of ending a forwarded connection. Every connect() the agent makes is recorded and "
        "must be owed to exactly one request, with its address; decoy listeners sit on other ports and loopback addresses. "
        "Victims are ended (local close, half close, reset, refusal, hanging connect, channel close at any moment, lost "
        "connection) while bystanders to the same and other ports exchange echoes, and new connections, also on the same channel "
        "number, are opened afterwards. Non-trivial: distinct (request or way of ending, timing, neighbours).")
SHARDS = {"quick": ["destination", "endings1", "endings2", "hanging", "lost", "sweep"],
          "thorough": ["destination", "hanging", "lost", "sweep", "lost2"] + ["endings%d" % i for i in range(6)]}
PROMPT = 3.0

connects = []
connect_delay = {"seconds": lambda: 0.0}


def install_connect_recorder():
    real_connect, real_connect_ex = socket.socket.connect, socket.socket.connect_ex

    def note(address):
        if not threading.current_thread().name.startswith("vf-") and threading.current_thread().name != "MainThread":
            connects.append(address)
            delay = connect_delay["seconds"]()
            if delay:
                real_sleep(delay)

    def connect(self, address):
        note(address)
        return real_connect(self, address)

    def connect_ex(self, address):
        note(address)
        return real_connect_ex(self, address)
    socket.socket.connect = connect
    socket.socket.connect_ex = connect_ex


def foreign(w):
    """The agent's connects other than to its own two servers."""
    own = (w.server.port, w.api.port)
    return [a for a in list(connects) if not (isinstance(a, tuple) and a[1] in own)]


class Link(object):
    """One forwarded connection with its ends."""

    def __init__(self, ctx, w, conn, number, server, service=None):
        self.ctx, self.w, self.conn, self.number, self.server = ctx, w, conn, number, server
        self.index = len(server.peers)
        self.before = len(conn.sent_on(number))
        self.closes = len(conn.close_requests(number))
        if service:
            conn.instruct("open-portforward", service=service.encode(), route=[b"node", 1, b"device", number])
        else:
            conn.instruct("open-portredirect", device_port=server.port, m2m_port=number)
        self.sent = self.back = 0
        self.peer = None

    def connected(self):
        if self.peer is None:
            self.peer = self.server.peer(self.index, 20.0)
            self.ctx.check(self.peer is not None, "no connection arrived at the requested local port", port=self.server.port,
                           connects=foreign(self.w)[-5:], log=list(world.log_lines)[-8:])
        return self.peer

    def exchange(self, what):
        """A message each way."""
        peer = self.connected()
        token = b"[%d.%d]" % (self.number, self.sent)
        have = len(peer.data())
        self.conn.route(self.number, token)
        self.sent += 1
        ok = peer.wait(lambda: len(peer.data()) >= have + len(token), 20.0)
        self.ctx.check(ok and peer.data()[have:] == token, "a forwarded connection stopped working " + what, direction="to the local server",
                       channel=self.number, got=peer.data()[have:], eof=peer.eof, log=list(world.log_lines)[-8:])
        start = len(self.conn.sent_on(self.number))
        peer.write(b"<" + token + b">")
        ok = self.conn.wait(lambda: len(self.conn.sent_on(self.number)) >= start + len(token) + 2, 20.0)
        self.ctx.check(ok and self.conn.sent_on(self.number)[start:] == b"<" + token + b">",
                       "a forwarded connection stopped working " + what, direction="from the local server", channel=self.number,
                       got=self.conn.sent_on(self.number)[start:], log=list(world.log_lines)[-8:])
        self.ctx.check(len(self.conn.close_requests(self.number)) == self.closes, "the close of an unrelated connection was requested",
                       channel=self.number, what=what)
        self.ctx.count("exchanges")

    def close_requested(self, timeout):
        return self.conn.wait(lambda: len(self.conn.close_requests(self.number)) > self.closes, timeout)


def destination(ctx):
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        servers = [localserver.LocalServer() for _ in range(5)]
        decoys = []
        for server in servers:
            for host in ("127.0.0.2", "127.0.1.1"):
                try:
                    decoys.append(localserver.LocalServer(host, server.port))
                except OSError:
                    pass
            try:
                decoys.append(localserver.LocalServer("::1", server.port, socket.AF_INET6))
            except OSError:
                pass
        named = {}
        for name, port in (("web", 80), ("ext", 81), ("extalt", 8000), ("alt", 8080)):
            try:
                named[name] = localserver.LocalServer(port=port)
                ctx.count("well_known_ports")
            except OSError:
                named[name] = port
        for index, server in enumerate(servers):
            w.client.port_forward.add_service("mine%d" % index, server.port)
        # a second service of the same port, and one name given again
        w.client.port_forward.add_service("again", servers[0].port)
        w.client.port_forward.add_service("again", servers[1].port)
        number = 0
        for _ in range(ctx.pick(70, 600)):
            number += 1
            roll = rng.random()
            if number <= 2 * len(named):
                roll = 0.05 if number <= len(named) else 0.6
            mark = len(foreign(w))
            counts = [(s, len(s.peers)) for s in servers + decoys]
            service = None
            if roll < 0.1:
                # by number, of a port that also has a name
                target = named[sorted(named)[number % len(named)]]
                if isinstance(target, int):
                    conn.instruct("open-portredirect", device_port=target, m2m_port=number)
            elif roll < 0.3:
                target = rng.choice(servers)
            elif roll < 0.55:
                index = rng.randrange(len(servers))
                service, target = rng.choice([("mine%d" % index, servers[index]), ("again", servers[1])])
            elif roll < 0.75:
                service = sorted(named)[number % len(named)]
                target = named[service]
            else:
                service = rng.choice(["", "nope", "WEB", "web ", "mine", "mine99", "80", "127.0.0.1", "shell", "__class__", "web\0", "e" * 3000])
                target = None
            if target is None:
                conn.instruct("open-portforward", service=service.encode(), route=[b"n", 1, b"d", number])
                if rng.random() < 0.5:
                    conn.route(number, b"data for nothing")
                w.sync()
                real_sleep(0.01)
                ctx.check(foreign(w)[mark:] == [], "an unknown service opened a connection", service=service, connects=foreign(w)[mark:])
                ctx.check(conn.sent_on(number) == b"", "an unknown service produced data", sent=conn.sent_on(number))
                ctx.count("unknown")
                ctx.case(("unknown", service), sample={"unknown service": service})
                continue
            if isinstance(target, int):
                if service:
                    conn.instruct("open-portforward", service=service.encode(), route=[b"n", 1, b"d", number])
                ctx.wait(lambda: foreign(w)[mark:], 20.0, "no connection was attempted to a well-known port", service=service)
                want = ("127.0.0.1", target)
            else:
                link = Link(ctx, w, conn, number, target, service)
                link.exchange("right after it was opened")
                if rng.random() < 0.5:
                    conn.send("notify_close", number)
                want = ("127.0.0.1", target.port)
                for server, count in counts:
                    ctx.check(server is target or len(server.peers) == count, "another server got a connection", wanted=want,
                              got=(server.listener.getsockname()))
                peer_name = link.peer.sock.getpeername() if not link.peer.eof else None
                ctx.check(peer_name is None or peer_name[0].startswith("127."), "the connection did not come over loopback", peer=peer_name)
            got = foreign(w)[mark:]
            ctx.check([(socket.gethostbyname(a[0]), a[1]) for a in got] == [want], "not exactly the requested port was connected to", want=want, got=got)
            ctx.count("destinations")
            ctx.case((service, want, number), sample={"service": service, "connected": want})
        for server in servers + decoys + [s for s in named.values() if not isinstance(s, int)]:
            server.close()
    ctx.require("destinations", 20)
    ctx.require("unknown", 5)


def prompt_close(ctx, attempt, message, **witness):
    """attempt() measures one ending; slow three times in a row is not prompt."""
    times = []
    for _ in range(3):
        took = attempt()
        times.append(took)
        if took is not None and took <= PROMPT:
            return
        ctx.stop_if_violated()
    ctx.fail(message, seconds=times, log=list(world.log_lines)[-10:], **witness)


def endings(ctx, shard):
    rng = ctx.rng()
    with world.World(ctx, compress=rng.random() < 0.5) as w:
        conn = w.join()
        w.sync()
        shared, others = localserver.LocalServer(), [localserver.LocalServer() for _ in range(2)]
        counter = [0]

        def fresh(reuse=None):
            if reuse is not None:
                return reuse
            counter[0] += 1
            return counter[0]
        bystanders = []
        for server in (shared, shared, others[0], others[1]):
            bystanders.append(Link(ctx, w, conn, fresh(), server))
            bystanders[-1].exchange("right after it was opened")
        free = []
        ways = ["local-close", "half-close", "reset", "refused", "channel", "channel-early", "channel-busy", "local-busy", "both"]
        plan = [ways[i % len(ways)] for i in range(ctx.pick(63, 600))]
        rng.shuffle(plan)
        jitter = sweep.Jitter(ctx.rng("j"), 0.01, 0.002, files=("portforward.py",))
        with jitter:
            for round_number, how in enumerate(plan):
                delay = rng.choice([0, 0, 0, 0.02])
                connect_delay["seconds"] = lambda: delay
                used = []

                def attempt():
                    reuse = free.pop(rng.randrange(len(free))) if free and rng.random() < 0.4 else None
                    number = fresh(reuse)
                    used.append(number)
                    server = localserver.LocalServer() if how == "channel-early" or rng.random() < 0.5 else shared
                    if how == "refused":
                        port = localserver.unused_port()
                        closes = len(conn.close_requests(number))
                        start = monotonic()
                        conn.instruct("open-portredirect", device_port=port, m2m_port=number)
                        if rng.random() < 0.5:
                            conn.route(number, b"into the void")
                        done = conn.wait(lambda: len(conn.close_requests(number)) > closes, 15.0)
                        return monotonic() - start - delay if done else None
                    link = Link(ctx, w, conn, number, server)
                    if how == "channel-early":
                        if rng.random() < 0.5:
                            real_sleep(rng.random() * 0.03)
                        start = monotonic()
                        conn.send("notify_close", number)
                        peer = server.peer(link.index, 5.0)
                        # closed before there was a connection: none need be made
                        if peer is None:
                            return monotonic() - start - 5.0
                        done = peer.wait(lambda: peer.eof or peer.error, 15.0)
                        return monotonic() - start - delay if done else None
                    if rng.random() < 0.7 or how == "both":
                        link.exchange("right after it was opened")
                    peer = link.connected()
                    if how in ("channel-busy", "local-busy"):
                        def pump():
                            try:
                                for _ in range(300):
                                    peer.sock.sendall(b"x" * 2000)
                            except OSError:
                                pass
                        thread = threading.Thread(target=pump, name="vf-pump")
                        thread.daemon = True
                        thread.start()
                        for _ in range(20):
                            conn.route(number, b"y" * 500)
                    start = monotonic()
                    if how in ("channel", "channel-busy"):
                        conn.send("notify_close", number)
                        done = peer.wait(lambda: peer.eof or peer.error, 15.0)
                    else:
                        if how == "both":
                            conn.send("notify_close", number)
                        if how == "reset":
                            peer.reset()
                        elif how == "half-close":
                            peer.close_write()
                        else:
                            if how == "local-busy":
                                thread.join(20)
                            peer.close()
                        done = how == "both" or link.close_requested(15.0)
                    took = monotonic() - start if done else None
                    peer.close()
                    return took
                message = {"channel": "the local server saw no end of stream promptly after the channel closed",
                           "channel-early": "the local server saw no end of stream promptly after the channel closed",
                           "channel-busy": "the local server saw no end of stream promptly after the channel closed"}.get(
                    how, "the close of the channel was not requested promptly")
                prompt_close(ctx, attempt, message, how=how, delay=delay)
                for number in used:
                    conn.send("notify_close", number)
                    free.append(number)
                for link in rng.sample(bystanders, 2):
                    link.exchange("after another connection ended (%s)" % how)
                if rng.random() < 0.3:
                    # a future one
                    number = fresh(free.pop() if free and rng.random() < 0.5 else None)
                    link = Link(ctx, w, conn, number, rng.choice([shared] + others))
                    link.exchange("opened after another ended (%s)" % how)
                    old = bystanders.pop(rng.randrange(len(bystanders)))
                    old.conn.send("notify_close", old.number)
                    free.append(old.number)
                    bystanders.append(link)
                ctx.count("endings")
                ctx.case((how, delay, round_number), sample={"ended by": how, "delay": delay})
            w.sync()
        for link in bystanders:
            link.exchange("at the end")
        ctx.count("preemptions", jitter.stops)
        connect_delay["seconds"] = lambda: 0.0
    ctx.require("endings", 20)
    ctx.require("exchanges", 50)


def hanging(ctx):
    """A local server that does not accept: connecting hangs; nothing else may."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        server = localserver.LocalServer()
        bystanders = []
        for n in (1, 2):
            bystanders.append(Link(ctx, w, conn, n, server))
            bystanders[-1].exchange("right after it was opened")
        stuck = socket.socket()
        stuck.bind(("127.0.0.1", 0))
        stuck.listen(0)
        fillers = []
        for _ in range(6):
            filler = socket.socket()
            filler.setblocking(False)
            filler.connect_ex(stuck.getsockname())
            fillers.append(filler)
        real_sleep(0.1)
        number = 10
        for number in range(10, ctx.pick(13, 20)):
            conn.instruct("open-portredirect", device_port=stuck.getsockname()[1], m2m_port=number)
            conn.route(number, b"hello?")
            if number % 2:
                conn.send("notify_close", number)
        started = monotonic()
        while monotonic() - started < 7.0:
            for link in bystanders:
                link.exchange("while another is connecting")
            w.sync()
            real_sleep(0.1)
        for n in range(10, number + 1, 2):
            ctx.check(conn.wait(lambda: conn.close_requests(n), 20.0), "the close of a connection that could not be made was never requested",
                      channel=n, log=list(world.log_lines)[-8:])
            ctx.case(("hanging", n))
        link = Link(ctx, w, conn, 99, server)
        link.exchange("after another could not be made")
        for filler in fillers:
            filler.close()
        stuck.close()
        server.close()
        ctx.count("hanging")
    ctx.require("hanging")


def lost(ctx, shard):
    """All forwards end with the m2m connection; later ones work."""
    rng = ctx.rng()
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        server = localserver.LocalServer()
        for round_number in range(ctx.pick(10, 100)):
            links = [Link(ctx, w, conn, n, server) for n in range(1, rng.randrange(2, 8))]
            # the order of the peers is the order of connecting, not of the requests
            for index in range(len(links)):
                peer = server.peer(links[0].index + index, 20.0)
                ctx.check(peer is not None, "no connection arrived at the requested local port", log=list(world.log_lines)[-8:])
            peers = server.peers[links[0].index:]
            for link in links:
                conn.route(link.number, b"%03d" % link.number)
            for peer in peers:
                peer.wait(lambda: len(peer.data()) >= 3, 20.0)
            ctx.check(sorted(p.data() for p in peers) == [b"%03d" % l.number for l in links], "data went to the wrong connections",
                      got=sorted(p.data() for p in peers))
            how = rng.choice(wsserver.ENDINGS)
            start = monotonic()
            conn.end(how)
            for peer in peers:
                ctx.check(peer.wait(lambda: peer.eof or peer.error, 25.0), "a local server saw no end of stream after the connection was lost", how=how,
                          seconds=monotonic() - start, log=list(world.log_lines)[-8:])
                peer.close()
            conn = w.join(identity=rng.choice([None, b"l%d" % round_number]))
            w.sync()
            ctx.count("losses")
            ctx.case((how, round_number), sample={"lost by": how, "forwards": len(links)})
        server.close()
    ctx.require("losses", 5)


def sweeps(ctx):
    """Local end and channel end at each other's every line."""
    from dataplicity import portforward
    from dataplicity.limiter import Limiter
    from dataplicity.m2m import wsclient

    class Recorder(object):
        def __init__(self):
            self.events = []

        def channel_write(self, number, data):
            self.events.append(("data", data))

        def channel_control_write(self, number, data):
            self.events.append(("control", data))

        def close_channel(self, number):
            self.events.append("close")

    for scenario in ("channel-during-local", "local-close"):
        k = 0
        while True:
            k += 1
            server = localserver.LocalServer()
            client = Recorder()
            channel = wsclient.Channel(client, 1)
            limiter = Limiter("services", 5)
            limiter.increment()
            shared = threading.Event()
            connection = portforward.Connection(limiter, shared, channel, ("127.0.0.1", server.port))

            def second():
                peer = server.peer(0, 20.0)
                if scenario == "local-close":
                    if peer:
                        peer.close()
                else:
                    channel.on_close()

            def hang_up():
                peer = server.peer(0, 5.0)
                if peer and peer.wait(lambda: peer.eof or peer.error, 20.0):
                    peer.close()
            if scenario != "local-close":
                helper = threading.Thread(target=hang_up, name="vf-helper")
                helper.daemon = True
                helper.start()
            one, two, where, lines = sweep.preempt(connection.run, second, k, files=("portforward.py",), patience=0.05, timeout=20, lead=0.3)
            ctx.check(one is not None and two is not None, "a connection did not end", scenario=scenario, where=where, stacks=world.stacks)
            ctx.check(two[1] is None, "closing the channel raised", error=repr(two[1]), where=where)
            ctx.check(not shared.is_set(), "ending one connection set the end for all", scenario=scenario, where=where)
            if scenario == "local-close":
                ctx.check("close" in client.events, "the close was not requested", where=where)
            else:
                peer = server.peer(0, 0.5)
                if peer is not None:
                    ctx.check(peer.wait(lambda: peer.eof or peer.error, 10.0), "the local server saw no end of stream", where=where)
                helper.join(20.0)
            server.close()
            ctx.count("schedules")
            ctx.case((scenario, k), nontrivial=where is not None, sample={"scenario": scenario, "preempted at": where})
            if where is None or ctx.spent():
                break
    ctx.require("schedules", 30)


def run(ctx, shard):
    world.load()
    install_connect_recorder()
    if shard == "destination":
        destination(ctx)
    elif shard.startswith("endings"):
        endings(ctx, shard)
    elif shard == "hanging":
        hanging(ctx)
    elif shard.startswith("lost"):
        lost(ctx, shard)
    else:
        sweeps(ctx)
