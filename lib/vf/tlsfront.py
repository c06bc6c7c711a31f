"""A TLS front for a plain loopback server: shows the certificate it is told to and reports what clients send through.

Run by CPython (/usr/bin/python3) as `tlsfront.py PORT CERTS`; a command on each line of standard input ("use NAME", "port N"), a JSON event on
each line of standard output. `Front` is the other end.
"""
import json
import os
import subprocess
import sys
import threading

KINDS = {
    # name: (signed by, names, key usage, validity)
    "good": ("ca", "DNS:localhost,IP:127.0.0.1", "serverAuth", "now"),
    "good2": ("ca", "DNS:localhost,IP:127.0.0.1", "serverAuth", "now"),
    "chain": ("middle", "DNS:localhost,IP:127.0.0.1", "serverAuth", "now"),
    "self-signed": ("self", "DNS:localhost,IP:127.0.0.1", "serverAuth", "now"),
    "other ca": ("other", "DNS:localhost,IP:127.0.0.1", "serverAuth", "now"),
    "same-named ca": ("twin", "DNS:localhost,IP:127.0.0.1", "serverAuth", "now"),
    "expired": ("ca", "DNS:localhost,IP:127.0.0.1", "serverAuth", "past"),
    "not yet valid": ("ca", "DNS:localhost,IP:127.0.0.1", "serverAuth", "future"),
    "other name": ("ca", "DNS:m2m.example.com,IP:127.0.0.2", "serverAuth", "now"),
    "similar name": ("ca", "DNS:localhost.example.com,DNS:xlocalhost,DNS:*.localhost,IP:127.0.0.12", "serverAuth", "now"),
    "client's": ("ca", "DNS:localhost,IP:127.0.0.1", "clientAuth", "now"),
    "by a leaf": ("good", "DNS:localhost,IP:127.0.0.1", "serverAuth", "now"),
}
GOOD = ["good", "good2", "chain"]
BAD = [k for k in KINDS if k not in GOOD]
# What servers do instead of a proper handshake
ODD = ["plain", "cut", "mute"]
# The errors of OpenSSL for clients that send plain text
PLAIN = ("HTTP_REQUEST", "HTTPS_PROXY_REQUEST", "WRONG_VERSION_NUMBER", "UNKNOWN_PROTOCOL")


def make_certificates(path):
    """All certificates of KINDS in directory `path`; ca.pem is the one to trust."""
    os.mkdir(path)

    def openssl(*args):
        done = subprocess.run(("openssl",) + args, cwd=path, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if done.returncode:
            raise RuntimeError("openssl %s: %s" % (" ".join(args), done.stdout[-600:]))

    spans = {"now": ("20200101000000Z", "20990101000000Z"), "past": ("20150101000000Z", "20200101000000Z"), "future": ("20900101000000Z", "20990101000000Z")}
    with open(os.path.join(path, "conf"), "w") as fh:
        fh.write("[req]\ndistinguished_name=dn\n[dn]\n[ca]\ndefault_ca=d\n[d]\nnew_certs_dir=.\ndatabase=index\nserial=serial\ndefault_md=sha256\npolicy=p\nunique_subject=no\nrand_serial=yes\n[p]\ncommonName=supplied\n"
                 "[authority]\nbasicConstraints=critical,CA:TRUE\nkeyUsage=keyCertSign,cRLSign\nsubjectKeyIdentifier=hash\n")
        for n, (name, (_by, names, usage, _span)) in enumerate(sorted(KINDS.items())):
            fh.write("[e%d]\nbasicConstraints=CA:FALSE\nsubjectAltName=%s\nextendedKeyUsage=%s\n" % (n, names, usage))
    open(os.path.join(path, "index"), "w").close()

    def key(name):
        openssl("ecparam", "-genkey", "-name", "prime256v1", "-noout", "-out", name + ".key")

    def sign(name, subject, by, section, span):
        key(name)
        openssl("req", "-new", "-config", "conf", "-key", name + ".key", "-subj", "/CN=" + subject, "-out", name + ".csr")
        args = ["-selfsign", "-keyfile", name + ".key"] if by == "self" else ["-cert", by + ".crt", "-keyfile", by + ".key"]
        openssl("ca", "-batch", "-notext", "-config", "conf", "-in", name + ".csr", "-out", name + ".crt", "-extensions", section,
                "-startdate", spans[span][0], "-enddate", spans[span][1], *args)

    for name, subject, by in (("ca", "A test authority", "self"), ("other", "Another authority", "self"), ("twin", "A test authority", "self"), ("middle", "Below", "ca")):
        sign(name, subject, by, "authority", "now")
    # (sorted, but `good` before what it signs)
    for n, name in sorted(enumerate(sorted(KINDS)), key=lambda item: KINDS[item[1]][0] == "good"):
        by, _names, _usage, span = KINDS[name]
        file = name.replace(" ", "_").replace("'", "")
        sign(file, "localhost", by, "e%d" % n, span)
        with open(os.path.join(path, file + ".pem"), "w") as out:
            parts = [file + ".key", file + ".crt"] + ([by + ".crt"] if by not in ("self", "ca") else [])
            for part in parts:
                out.write(open(os.path.join(path, part)).read())
    os.rename(os.path.join(path, "ca.crt"), os.path.join(path, "ca.pem"))


class Front(object):
    def __init__(self, port, certs, use="good"):
        self.cond = threading.Condition()
        self.events = []
        self.process = subprocess.Popen(["/usr/bin/python3", os.path.abspath(__file__), str(port), certs], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        env={"PATH": os.environ.get("PATH", "")})
        thread = threading.Thread(target=self._read, name="vf-front")
        thread.daemon = True
        thread.start()
        self.port = self.wait(lambda: [e for e in self.events if e["event"] == "listening"])[0]["port"]
        self.use(use)

    def _read(self):
        for line in self.process.stdout:
            with self.cond:
                self.events.append(json.loads(line.decode()))
                self.cond.notify_all()

    def wait(self, condition, timeout=30.0):
        with self.cond:
            self.cond.wait_for(condition, timeout)
            return condition()

    def use(self, name):
        """Show another certificate from now on; ends all connections. Returns the number of events so far."""
        self.mode = name
        with self.cond:
            before = len(self.events)
        self.process.stdin.write(("use %s\n" % name).encode())
        self.process.stdin.flush()
        if not self.wait(lambda: [e for e in self.events[before:] if e["event"] == "using"]):
            raise RuntimeError("the TLS front does not answer")
        return len(self.events)

    def seen(self, kind, since=0):
        with self.cond:
            return [e for e in self.events[since:] if e["event"] == kind]

    def close(self):
        self.process.kill()
        self.process.wait()


def main():
    import asyncio
    import ssl
    backend, certs = int(sys.argv[1]), sys.argv[2]
    state = {"mode": "good", "count": 0}
    writers = set()

    def say(event, **fields):
        fields["event"] = event
        sys.stdout.write(json.dumps(fields) + "\n")
        sys.stdout.flush()

    def context(name):
        made = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        made.load_cert_chain(os.path.join(certs, name.replace(" ", "_").replace("'", "") + ".pem"))
        return made

    async def relay(reader, writer, ident, inward):
        try:
            while True:
                data = await reader.read(70000)
                if not data:
                    break
                if inward:
                    say("data", id=ident[0], mode=ident[1], bytes=len(data), head=data[:200].decode("latin-1"))
                writer.write(data)
                await writer.drain()
        except (OSError, ssl.SSLError):
            pass
        finally:
            writer.close()

    async def serve(reader, writer):
        state["count"] += 1
        ident = (state["count"], state["mode"])
        mode = state["mode"]
        say("open", id=ident[0], mode=mode)
        writers.add(writer)
        try:
            if mode in ODD:
                hello = await reader.read(4000)
                if hello[:1] not in (b"", b"\x16"):
                    # Not the beginning of a TLS handshake
                    say("data", id=ident[0], mode=mode, bytes=len(hello), head=hello[:200].decode("latin-1"))
                if mode == "plain":
                    writer.write(b"HTTP/1.1 400 Bad Request\r\nConnection: close\r\nContent-Length: 0\r\n\r\n")
                    await writer.drain()
                    rest = await asyncio.wait_for(reader.read(1000), 1.0)
                    # (only a TLS alert may follow)
                    if rest[:1] not in (b"", b"\x15"):
                        say("data", id=ident[0], mode=mode, bytes=len(rest), head=rest[:200].decode("latin-1"))
                elif mode == "mute":
                    await asyncio.sleep(0.5)
                return
            await writer.start_tls(context(mode))
            say("secure", id=ident[0], mode=mode)
            back_reader, back_writer = await asyncio.open_connection("127.0.0.1", backend)
            writers.add(back_writer)
            await asyncio.gather(relay(reader, back_writer, ident, True), relay(back_reader, writer, ident, False))
        except (OSError, ssl.SSLError, asyncio.TimeoutError) as error:
            if getattr(error, "reason", None) in PLAIN:
                # Not even the beginning of a TLS handshake
                say("data", id=ident[0], mode=mode, bytes=1, head=repr(error))
            say("failed", id=ident[0], mode=mode, error=repr(error))
        finally:
            writers.discard(writer)
            writer.close()
            say("end", id=ident[0], mode=mode)

    async def commands():
        loop = asyncio.get_running_loop()
        reader = asyncio.StreamReader()
        await loop.connect_read_pipe(lambda: asyncio.StreamReaderProtocol(reader), sys.stdin)
        while True:
            line = (await reader.readline()).decode().strip()
            if not line:
                os._exit(0)
            state["mode"] = line.split(" ", 1)[1]
            for writer in list(writers):
                if writer.transport is not None:
                    writer.transport.abort()
            writers.clear()
            say("using", mode=state["mode"])

    async def start():
        server = await asyncio.start_server(serve, "127.0.0.1", 0)
        say("listening", port=server.sockets[0].getsockname()[1])
        await commands()

    asyncio.run(start())


if __name__ == "__main__":
    main()
