"""C36: over secure addresses the agent deals only with servers that prove who they are."""
import os
import signal
import socket
import subprocess
import sys
import threading

from vf import apiserver, tlsfront, world, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one phase of an agent whose API and m2m addresses are https and wss: a TLS front before each server shows a trusted certificate or one of nine untrustworthy "
        "ones (foreign or same-named authority, self-signed, expired, not yet valid, for other names, for clients, issued by a leaf), or breaks the handshake. While it does, no byte "
        "of the agent may come through it; when it stops, the agent must join, serve and report as ever. Further cases are bursts of traffic over wss. Non-trivial: distinct (server, mode, host, history position).")
SHARDS = {"quick": ["m2m", "api", "both", "traffic", "process"], "thorough": ["m2m", "m2m2", "api", "api2", "both", "both2", "both3", "traffic", "traffic2", "process"]}
HOSTS = ["localhost", "127.0.0.1"]
LIMIT = 40.0


class Life(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.certs = os.path.join(ctx.scratch, "certs")
        if not os.path.exists(self.certs):
            tlsfront.make_certificates(self.certs)
        os.environ["SSL_CERT_FILE"] = os.path.join(self.certs, "ca.pem")
        self.hosts = {"api": rng.choice(HOSTS), "m2m": rng.choice(HOSTS)}
        self.w = world.World(ctx, front=self.make, compress=rng.random() < 0.5)
        self.history = []
        self.checked = 0
        self.serial = 0

    def make(self, w):
        self.api = tlsfront.Front(w.api.port, self.certs)
        self.m2m = tlsfront.Front(w.server.port, self.certs)
        return "https://%s:%d/api/" % (self.hosts["api"], self.api.port), "wss://%s:%d/m2m/" % (self.hosts["m2m"], self.m2m.port)

    def fail(self, message, **witness):
        self.ctx.fail(message, history=self.history[-20:], hosts=self.hosts, log=list(world.log_lines)[-15:], stacks=world.stacks, **witness)

    def joined(self):
        """The agent's next connection that works."""
        known = self.checked

        def find():
            return [c for c in self.w.server.conns[known:] if c.packets("request_join", "request_identify") and not c.closed]
        if not self.w.server.wait(find, LIMIT):
            self.fail("the agent did not join a server with a trusted certificate", events=self.m2m.events[-10:])
        self.conn = find()[0]
        self.checked = self.conn.index + 1
        self.serial += 1
        self.identity = b"node-%d" % self.serial
        self.conn.send("set_identity", self.identity)
        self.conn.send("welcome")

    def serve(self):
        conn, base = self.conn, 1000 * self.serial
        conn.instruct("open-echo", port=base)
        text = bytes(bytearray(self.rng.randrange(256) for _ in range(self.rng.choice([10, 5000, 70000]))))
        conn.route(base, text)
        conn.instruct("run-command", port=base + 1, command=b"echo served")
        if not conn.wait(lambda: len(conn.sent_on(base)) >= len(text) and conn.close_requests(base + 1), LIMIT):
            self.fail("the agent does not serve on a secure connection", echoed=len(conn.sent_on(base)), owed=len(text), closed=conn.closed)
        self.ctx.check(conn.sent_on(base) == text and conn.sent_on(base + 1) == b"served\n", "data was changed on a secure connection", history=self.history[-20:])
        if not conn.barrier(LIMIT):
            self.fail("the agent stopped answering on a secure connection")
        self.ctx.count("served")

    def reports(self):
        """A poll, which must reach the API."""
        before = len(self.w.api.snapshot())
        self.w.client.poll()
        requests = self.w.api.snapshot()[before:]
        call = requests[0].call("device.check_auth") if requests else None
        self.ctx.check(call is not None or not self.owed, "a poll does not reach an API with a trusted certificate", requests=[r.methods for r in requests], history=self.history[-20:], log=list(world.log_lines)[-10:])
        for request in requests:
            call = request.call("device.check_auth")
            if call is not None:
                self.ctx.check(call["params"].get("serial") == self.w.serial and call["params"].get("auth_token") == self.w.auth, "an API request lost its credentials", call=call)
        self.ctx.count("reports", len(requests))

    owed = True

    def announced(self):
        def find():
            return [r for r in self.w.api.snapshot() if r.call("m2m.associate") and r.call("m2m.associate")["params"].get("identity") == self.identity.decode()]
        if not self.w.api.wait(find, LIMIT):
            self.fail("the identity was not announced to an API with a trusted certificate", identity=self.identity)

    def nothing_sent(self, front, since, mode, what):
        sent = [e for e in front.seen("data", since) if e["mode"] == mode]
        self.ctx.check(not sent, "the agent sent something to %s whose certificate is no good (%s)" % (what, mode), sent=sent[:3], history=self.history[-20:], hosts=self.hosts)

    def refuse_m2m(self, mode, attempts=2):
        conns = len(self.w.server.conns)
        since = self.m2m.use(mode)
        self.history.append(("m2m", mode))
        done = self.m2m.wait(lambda: len([e for e in self.m2m.events[since:] if e["event"] == "end" and e["mode"] == mode]) >= attempts, LIMIT)
        self.nothing_sent(self.m2m, since, mode, "an m2m server")
        if not done:
            self.fail("the agent does not try to connect again", mode=mode, events=self.m2m.events[since:])
        self.ctx.check(len(self.w.server.conns) == conns, "the agent connected to a server whose certificate is no good", mode=mode, history=self.history[-20:])
        self.ctx.count("refused connections", attempts)
        return since

    def refuse_api(self, mode):
        since = self.api.use(mode)
        before = len(self.w.api.snapshot())
        self.history.append(("api", mode))
        try:
            self.w.client.poll()
        except Exception as error:
            self.fail("a poll raised an exception", error=repr(error), mode=mode)
        done = self.api.wait(lambda: [e for e in self.api.events[since:] if e["event"] == "end" and e["mode"] == mode], LIMIT)
        self.nothing_sent(self.api, since, mode, "an API server")
        if not done:
            self.fail("the agent does not try to reach the API", mode=mode)
        self.ctx.check(len(self.w.api.snapshot()) == before, "the agent reported to a server whose certificate is no good", mode=mode, history=self.history[-20:])
        self.ctx.count("refused reports")
        return since

    def good(self, front, name):
        mode = self.rng.choice(tlsfront.GOOD)
        front.use(mode)
        self.history.append((name, mode))

    def end(self):
        self.w.stop()
        self.api.close()
        self.m2m.close()


def respond(request):
    # The meta information is never accepted, so that each poll reports something
    return [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": 401, "message": "no"}} if c["method"] == "device.set_agent_version" else {"jsonrpc": "2.0", "id": c["id"], "result": True}
            for c in request.calls]


def refusals(ctx, shard):
    rng = ctx.rng()
    modes = tlsfront.BAD + tlsfront.ODD
    for number in range(ctx.pick(1, 3)):
        life = Life(ctx, rng)
        life.w.api.respond = respond
        try:
            life.joined()
            life.serve()
            life.reports()
            deck = list(modes)
            rng.shuffle(deck)
            for position, mode in enumerate(deck):
                if shard.startswith("m2m"):
                    since = life.refuse_m2m(mode, rng.choice([2, 2, 2, 3, 4, 6]))
                    life.good(life.m2m, "m2m")
                    life.joined()
                    life.serve()
                    life.nothing_sent(life.m2m, since, mode, "an m2m server")
                    life.announced()
                elif shard.startswith("api"):
                    since = life.refuse_api(mode)
                    if rng.random() < 0.5:
                        # An announcement, too
                        life.serial += 1
                        life.identity = b"node-%d" % life.serial
                        life.conn.send("set_identity", life.identity)
                        life.conn.instruct("sync")
                        life.serve()
                    life.good(life.api, "api")
                    life.reports()
                    life.nothing_sent(life.api, since, mode, "an API server")
                    life.announced()
                else:
                    other = rng.choice(modes)
                    since_m2m = life.refuse_m2m(mode, rng.choice([1, 1, 3]))
                    since_api = life.refuse_api(other)
                    for front, name in rng.sample([(life.m2m, "m2m"), (life.api, "api")], 2):
                        life.good(front, name)
                        real_sleep(rng.random() * 0.1)
                    life.joined()
                    life.serve()
                    life.reports()
                    life.announced()
                    life.nothing_sent(life.m2m, since_m2m, mode, "an m2m server")
                    life.nothing_sent(life.api, since_api, other, "an API server")
                ctx.case((shard, mode, life.hosts["m2m"], life.hosts["api"], position), sample=life.history[-4:])
                if ctx.spent():
                    break
        finally:
            life.end()
    ctx.require("served", 3)


def traffic(ctx, shard):
    """Much data both ways, in records that don't match messages."""
    rng = ctx.rng()
    for number in range(ctx.pick(3, 12)):
        life = Life(ctx, rng)
        try:
            life.joined()
            conn = life.conn
            channels = list(range(1, rng.choice([2, 5, 9])))
            for c in channels:
                conn.instruct("open-echo", port=c)
            owed = dict((c, []) for c in channels)
            pings = 0
            for _ in range(ctx.pick(150, 400)):
                c = rng.choice(channels)
                data = os.urandom(rng.choice([1, 100, 1400, 16383, 16384, 16385, 40000]))
                owed[c].append(data)
                conn.route(c, data)
                if rng.random() < 0.2:
                    pings += 1
                    conn.send("ping", b"p%d" % pings)
            path = os.path.join(ctx.scratch, "file%d" % number)
            content = os.urandom(rng.choice([0, 100000, 900000]))
            with open(path, "wb") as fh:
                fh.write(content)
            conn.instruct("read-file", port=500, path=path.encode())
            conn.instruct("run-command", port=501, command=b"head -c 300000 /dev/zero")
            wanted = dict((c, b"".join(owed[c])) for c in channels)
            done = conn.wait(lambda: conn.close_requests(500) and conn.close_requests(501) and all(len(conn.sent_on(c)) >= len(wanted[c]) for c in channels), 90.0)
            if not done or not conn.barrier(LIMIT):
                life.fail("not everything arrived over a secure connection", missing={c: len(wanted[c]) - len(conn.sent_on(c)) for c in channels}, closed=conn.closed)
            for c in channels:
                ctx.check(conn.sent_on(c) == wanted[c], "data was changed on a secure connection", channel=c, length=len(wanted[c]))
            ctx.check(conn.sent_on(500) == content and conn.sent_on(501) == b"\0" * 300000, "data was changed on a secure connection", lengths=(len(conn.sent_on(500)), len(conn.sent_on(501))))
            pongs = [e.packet[1] for e in conn.packets("pong") if e.packet[1].startswith(b"p")]
            ctx.check(pongs == [b"p%d" % n for n in range(1, pings + 1)], "pings were not answered in order over a secure connection", pongs=len(pongs), pings=pings)
            ctx.check(not conn.anomalies(), "the agent sent something that is no packet", anomalies=[repr(e) for e in conn.anomalies()][:3])
            ctx.count("bytes", sum(len(d) for d in wanted.values()))
            ctx.case((number, len(channels), pings, len(content)))
        finally:
            life.end()
    ctx.require("bytes", 100000)


class Tunnel(object):
    """An HTTP proxy for CONNECT, which notes where connections go and whether anything but TLS passes."""

    def __init__(self):
        self.targets, self.plain = [], []
        self.socket = socket.socket()
        self.socket.bind(("127.0.0.1", 0))
        self.socket.listen(20)
        self.port = self.socket.getsockname()[1]
        self.start(self.accept)

    def start(self, target, *args):
        thread = threading.Thread(target=target, args=args, name="vf-tunnel")
        thread.daemon = True
        thread.start()

    def accept(self):
        while True:
            try:
                client, _address = self.socket.accept()
            except (OSError, AttributeError):
                return
            self.start(self.serve, client)

    def serve(self, client):
        try:
            head = b""
            while not head.endswith(b"\r\n\r\n"):
                data = client.recv(1)
                if not data:
                    return
                head += data
            method, target = head.split(b" ")[:2]
            if method != b"CONNECT":
                self.plain.append(head)
                return
            host, port = target.decode().rsplit(":", 1)
            self.targets.append((host, int(port)))
            server = socket.create_connection((host, int(port)))
            client.sendall(b"HTTP/1.1 200 go ahead\r\n\r\n")
            self.start(self.copy, server, client)
            first = client.recv(70000)
            if first[:1] not in (b"\x16", b""):
                self.plain.append(first)
            server.sendall(first)
            self.copy(client, server)
        except OSError:
            pass
        finally:
            client.close()

    def copy(self, source, sink):
        try:
            while True:
                data = source.recv(70000)
                if not data:
                    break
                sink.sendall(data)
        except OSError:
            pass
        for end in (source, sink):
            try:
                end.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def close(self):
        self.socket.close()


BOOT = '''
import sys
where = sys.argv.pop(1)
from dataplicity import constants
constants.SERIAL_LOCATION = where + "/serial"
constants.AUTH_LOCATION = where + "/auth"
constants.REMOTE_DIRECTORY_LOCATION = where + "/remote"
from dataplicity.app import main
main()
'''


def process(ctx, shard):
    """Whole processes, which know our authority or don't."""
    rng = ctx.rng()
    certs = os.path.join(ctx.scratch, "certs")
    tlsfront.make_certificates(certs)
    for number in range(ctx.pick(4, 12)):
        trusts = number % 2 == 0
        tunnel = Tunnel() if number % 4 > 1 else None
        server, api = wsserver.WSServer(), apiserver.ApiServer()
        m2m_front, api_front = tlsfront.Front(server.port, certs), tlsfront.Front(api.port, certs)
        home = ctx.dir("home")
        os.mkdir(os.path.join(home, "remote"))
        boot = os.path.join(home, "boot.py")
        with open(boot, "w") as fh:
            fh.write(BOOT)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("DATAPLICITY", "SSL_")) and not k.lower().endswith("_proxy")}
        env.update(HOME=home, PYTHONPATH=os.environ["VF_REPO"])
        if tunnel:
            env["https_proxy"] = env["HTTPS_PROXY"] = "http://127.0.0.1:%d" % tunnel.port
        if trusts:
            env["SSL_CERT_FILE"] = os.path.join(certs, "ca.pem")
        hosts = rng.choice(HOSTS), rng.choice(HOSTS)
        agent = subprocess.Popen([sys.executable, boot, home, "--serial=s-1", "--auth=a-1", "-s", "https://%s:%d/" % (hosts[0], api_front.port),
                                  "-m", "wss://%s:%d/" % (hosts[1], m2m_front.port), "run"], env=env, cwd=home, stdin=subprocess.DEVNULL,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            if trusts:
                ctx.check(server.joined(1, LIMIT), "the agent did not join a server with a trusted certificate", hosts=hosts, events=m2m_front.events[-5:])
                ctx.check(api.wait(lambda: [r for r in api.snapshot() if r.call("device.set_uname")], LIMIT), "the agent did not report to an API with a trusted certificate", hosts=hosts)
                ctx.count("trusting")
            else:
                for front, name in ((m2m_front, "m2m"), (api_front, "API")):
                    ended = front.wait(lambda: front.seen("end"), LIMIT)
                    ctx.check(not front.seen("data"), "the agent sent something to an %s server with an unknown certificate" % name, sent=front.seen("data")[:3])
                    ctx.check(ended, "the agent did not try to connect", server=name)
                # (the next attempts come after 5 s and more)
                m2m_front.wait(lambda: len(m2m_front.seen("end")) >= 2, LIMIT)
                for front, name in ((m2m_front, "m2m"), (api_front, "API")):
                    ctx.check(not front.seen("data"), "the agent sent something to an %s server with an unknown certificate" % name, sent=front.seen("data")[:3])
                ctx.check(agent.poll() is None, "the agent ended because a certificate was no good", status=agent.poll())
                ctx.count("distrusting")
            if tunnel:
                ctx.check(not tunnel.plain, "the agent sent plain text through a proxy", sent=tunnel.plain[:3])
                ctx.count("connections through proxies", len(tunnel.targets))
            ctx.case(("process", trusts, hosts, bool(tunnel)))
        finally:
            agent.send_signal(signal.SIGKILL)
            agent.communicate()
            m2m_front.close()
            api_front.close()
            server.close()
            api.close()
            if tunnel:
                tunnel.close()
    ctx.require("trusting")
    ctx.require("distrusting")


def run(ctx, shard):
    if shard.startswith("process"):
        return process(ctx, shard)
    world.load()
    with ctx.guard("a secure life", ctx.pick(200.0, 600.0)):
        if shard.startswith("traffic"):
            traffic(ctx, shard)
        else:
            refusals(ctx, shard)
