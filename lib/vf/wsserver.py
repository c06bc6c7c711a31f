"""A loopback m2m server: own websocket implementation, records every packet it gets."""
from __future__ import print_function

import base64
import hashlib
import socket
import struct
import threading
import zlib

from . import bref, proto
from .core import monotonic, real_sleep

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"


class Entry(object):
    """One packet (or event) seen by the server."""

    __slots__ = ("seq", "t", "conn", "kind", "packet", "raw")

    def __init__(self, seq, t, conn, kind, packet, raw):
        self.seq, self.t, self.conn, self.kind, self.packet, self.raw = seq, t, conn, kind, packet, raw

    @property
    def name(self):
        return proto.name_of(self.packet) if self.kind == "packet" else self.kind

    def __repr__(self):
        text = repr(self.packet)
        return "#%d %s %s" % (self.seq, self.name, text if len(text) < 160 else text[:160] + "...")


class Conn(object):
    """A connection from the agent."""

    def __init__(self, server, sock, index):
        self.server, self.sock, self.index = server, sock, index
        self.lock = threading.RLock()
        self.inflate = self.deflate = None
        self.no_client_takeover = self.no_server_takeover = False
        self.request = b""
        self.upgraded = False
        self.closed = False
        self.reading = threading.Event()
        self.reading.set()
        self.read_size = 65536
        self.read_delay = 0.0
        self.pong_delay = 0.0  # (None: never)
        self.entries = []
        self._ping = 0
        self.auto_close = True
        self.text_violations = []

    def __repr__(self):
        return "<conn %d>" % self.index

    # -- receiving ---------------------------------------------------------
    def _recv(self, count):
        self.reading.wait()
        if self.read_delay:
            real_sleep(self.read_delay)
        data = self.sock.recv(min(count, self.read_size))
        if not data:
            raise EOFError("closed")
        return data

    def _recv_exact(self, count):
        chunks = []
        while count:
            data = self._recv(count)
            chunks.append(data)
            count -= len(data)
        return b"".join(chunks)

    def run(self):
        try:
            self._handshake()
            if self.upgraded:
                self._frames()
        except (EOFError, OSError, ValueError) as error:
            self._record("eof", repr(error), b"")
        except Exception as error:
            self._record("broken", repr(error), b"")
        finally:
            self.closed = True
            try:
                self.sock.close()
            except OSError:
                pass
            with self.server.cond:
                self.server.cond.notify_all()

    def _handshake(self):
        data = b""
        while b"\r\n\r\n" not in data:
            data += self._recv(4096)
        self.request = data
        behaviour = self.server.next_behaviour(self)
        kind = behaviour.get("kind", "accept")
        self.behaviour = behaviour
        self._record("request", kind, data)
        headers = {}
        for line in data.split(b"\r\n")[1:]:
            if b":" in line:
                name, value = line.split(b":", 1)
                headers[name.strip().lower()] = value.strip()
        if kind == "reject":
            self.sock.sendall(b"HTTP/1.1 %d Nope\r\nContent-Length: 0\r\n\r\n" % behaviour.get("code", 403))
            return
        if kind == "drop":
            return
        if kind == "reset":
            self.reset()
            return
        if kind == "garbage":
            self.sock.sendall(behaviour.get("data", b"\x00\xff not http at all\r\n\r\n"))
            return
        if kind == "slow-upgrade":
            real_sleep(behaviour["delay"])
        accept = base64.b64encode(hashlib.sha1(headers.get(b"sec-websocket-key", b"") + GUID).digest())
        if kind == "bad-accept":
            accept = base64.b64encode(b"0" * 20)
        reply = [b"HTTP/1.1 101 Switching Protocols", b"Upgrade: websocket", b"Connection: Upgrade",
                 b"Sec-WebSocket-Accept: " + accept]
        if behaviour.get("compress", self.server.compress) and b"permessage-deflate" in headers.get(b"sec-websocket-extensions", b""):
            option = b"permessage-deflate"
            if behaviour.get("no_takeover"):
                self.no_client_takeover = self.no_server_takeover = True
                option += b"; client_no_context_takeover; server_no_context_takeover"
            reply.append(b"Sec-WebSocket-Extensions: " + option)
            self.inflate = zlib.decompressobj(-15)
            self.deflate = zlib.compressobj(6, zlib.DEFLATED, -15)
        text = b"\r\n".join(reply) + b"\r\n\r\n"
        if kind == "cut-upgrade":
            self.sock.sendall(text[:len(text) // 2])
            return
        if kind == "mute":
            # Goes silent in the middle of the answer
            self.sock.sendall(text[:int(len(text) * behaviour.get("part", 0))])
            while True:
                self._recv(1000)
        self.upgraded = True
        self.sock.sendall(text)
        if kind == "bad-accept":
            return
        self._record("ready", "", b"")

    def _frames(self):
        fragments, opcode0, compressed = [], None, False
        while True:
            head = self._recv_exact(2)
            fin, rsv, opcode = head[0] & 0x80, head[0] & 0x70, head[0] & 0x0F
            masked, length = head[1] & 0x80, head[1] & 0x7F
            if length == 126:
                length = struct.unpack("!H", self._recv_exact(2))[0]
            elif length == 127:
                length = struct.unpack("!Q", self._recv_exact(8))[0]
            if length > 1 << 30:
                raise ValueError("frame length %d" % length)
            mask = self._recv_exact(4) if masked else b""
            payload = self._recv_exact(length)
            if masked and payload:
                repeat = (mask * (length // 4 + 1))[:length]
                payload = (int.from_bytes(payload, "big") ^ int.from_bytes(repeat, "big")).to_bytes(length, "big")
            if opcode == 8:
                self._record("close", payload, payload)
                if self.auto_close:
                    self.send_frame(8, payload[:2])
                return
            if opcode == 9:
                self._record("wsping", payload, payload)
                if self.pong_delay:
                    self._later(self.pong_delay, payload)
                elif self.pong_delay is not None:
                    self.send_frame(10, payload)
                continue
            if opcode == 10:
                self._record("wspong", payload, payload)
                continue
            if opcode in (1, 2):
                if fragments:
                    raise RuntimeError("new message inside a fragmented one")
                opcode0, compressed = opcode, bool(rsv & 0x40)
            elif opcode != 0 or opcode0 is None:
                raise RuntimeError("unexpected opcode %d" % opcode)
            fragments.append(payload)
            if not fin:
                continue
            data = b"".join(fragments)
            fragments = []
            if compressed:
                if self.inflate is None:
                    raise RuntimeError("compressed frame without negotiation")
                data = self.inflate.decompress(data + b"\x00\x00\xff\xff")
                if self.no_client_takeover:
                    self.inflate = zlib.decompressobj(-15)
            if opcode0 == 1:
                self._record("text", data, data)
                continue
            try:
                packet, end = bref.parse(data)
                if end != len(data):
                    raise bref.Malformed("trailing data")
            except bref.Malformed as error:
                self._record("malformed", str(error), data)
            else:
                self._record("packet", packet, data)

    def _later(self, delay, payload):
        def pong():
            real_sleep(delay)
            self.send_frame(10, payload)
        thread = threading.Thread(target=pong, name="vf-pong")
        thread.daemon = True
        thread.start()

    def _record(self, kind, packet, raw):
        server = self.server
        with server.cond:
            entry = Entry(len(server.log), monotonic(), self, kind, packet, raw)
            server.log.append(entry)
            self.entries.append(entry)
            server.cond.notify_all()

    # -- sending -----------------------------------------------------------
    def send_frame(self, opcode, payload=b"", fin=True, rsv=0, raw_length=None):
        head = bytearray([(0x80 if fin else 0) | rsv | opcode])
        length = len(payload) if raw_length is None else raw_length
        if length < 126:
            head.append(length)
        elif length < 65536:
            head.append(126)
            head += struct.pack("!H", length)
        else:
            head.append(127)
            head += struct.pack("!Q", length)
        self.send_raw(bytes(head) + payload)

    def send_raw(self, data):
        with self.lock:
            try:
                self.sock.sendall(data)
            except OSError:
                pass

    def send_message(self, data, fragments=1, compress=None):
        """Send a binary message."""
        with self.lock:
            rsv = 0
            if self.deflate is not None and compress is not False:
                data = self.deflate.compress(data) + self.deflate.flush(zlib.Z_SYNC_FLUSH)
                data = data[:-4]
                rsv = 0x40
                if self.no_server_takeover:
                    self.deflate = zlib.compressobj(6, zlib.DEFLATED, -15)
            if fragments <= 1 or len(data) < fragments:
                self.send_frame(2, data, True, rsv)
                return
            size = max(1, len(data) // fragments)
            parts = [data[i:i + size] for i in range(0, len(data), size)]
            for index, part in enumerate(parts):
                self.send_frame(2 if index == 0 else 0, part, index == len(parts) - 1, rsv if index == 0 else 0)

    def send(self, name, *fields, **options):
        self.send_message(bref.dumps([proto.N[name]] + list(fields)), **options)

    def instruct(self, action, sender=b"server", **fields):
        data = {b"action": action if isinstance(action, bytes) else action.encode()}
        for key, value in fields.items():
            data[key.encode()] = value
        self.send("instruction", sender, data)

    def route(self, channel, data, **options):
        self.send("route", channel, data, **options)

    # -- observing ---------------------------------------------------------
    def packets(self, *names):
        with self.server.cond:
            entries = [e for e in self.entries if e.kind == "packet"]
        if names:
            numbers = set(proto.N[name] for name in names)
            entries = [e for e in entries if e.packet and e.packet[0] in numbers]
        return entries

    def anomalies(self):
        """What no correct agent ever sends: broken frames, text, undecodable messages."""
        with self.server.cond:
            return [e for e in self.entries if e.kind in ("broken", "malformed", "text")]

    def sent_on(self, channel):
        """Bytes the agent sent on a channel."""
        return b"".join(e.packet[2] for e in self.packets("request_send") if e.packet[1] == channel)

    def on_channel(self, channel):
        """Everything the agent sent about a channel, in order."""
        return [e for e in self.packets("request_send", "request_send_control", "request_close")
                if e.packet[1] == channel]

    def close_requests(self, channel):
        return [e for e in self.packets("request_close") if e.packet[1] == channel]

    def wait(self, condition, timeout=20.0):
        """Wait until condition() is true, woken by each arriving packet."""
        deadline = monotonic() + timeout
        with self.server.cond:
            while True:
                value = condition()
                if value:
                    return value
                remaining = deadline - monotonic()
                if remaining <= 0:
                    return value
                self.server.cond.wait(min(remaining, 0.05))

    def barrier(self, timeout=30.0):
        """A ping answered: all that was sent before has been handled."""
        self._ping += 1
        data = b"barrier-%d-%d" % (self.index, self._ping)
        self.send("ping", data)
        return bool(self.wait(lambda: any(e.packet[1:] == [data] for e in self.packets("pong")[-50:]), timeout))

    # -- ending ------------------------------------------------------------
    def reset(self):
        """Abort the TCP connection (RST)."""
        try:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.sock.shutdown(socket.SHUT_RD)
        except OSError:
            pass
        self.hangup()

    def hangup(self):
        """Close the TCP connection."""
        self.reading.set()
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        try:
            self.sock.close()
        except OSError:
            pass

    def end(self, how):
        if how == "reset":
            try:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
            # A close of the descriptor while the reader is in recv() does not
            # abort the connection, so wake the reader, which closes it.
            try:
                self.sock.shutdown(socket.SHUT_RD)
            except OSError:
                pass
        elif how == "fin":
            self.hangup()
        elif how == "close-frame":
            self.send_frame(8, struct.pack("!H", 1000) + b"bye")
        elif how.startswith("close-") and how[6:].isdigit():
            self.send_frame(8, struct.pack("!H", int(how[6:])) + b"because")
        elif how == "mid-frame":
            self.send_frame(2, b"l" * 50, raw_length=1000)
            real_sleep(0.02)
            self.hangup()
        elif how == "bad-opcode":
            self.send_frame(5, b"what")
        elif how == "bad-rsv":
            self.send_frame(2, b"what", rsv=0x20)
        elif how == "bad-close-code":
            self.send_frame(8, struct.pack("!H", 1005))
        elif how == "bad-utf8":
            self.send_frame(1, b"\xff\xfe\xfd")
        elif how == "garbage":
            self.send_raw(b"\xff\xfe\xfd\xfc garbage" * 20)
            real_sleep(0.02)
            self.hangup()
        else:
            raise ValueError(how)


ENDINGS = ["reset", "fin", "close-frame", "mid-frame", "bad-opcode", "bad-rsv", "bad-close-code", "bad-utf8", "garbage"]


class WSServer(object):
    def __init__(self, compress=True, port=0):
        self.compress = compress
        self.cond = threading.Condition(threading.RLock())
        self.log = []
        self.conns = []
        self.behaviours = []
        self.accepting = True
        self.buffer = None
        self.listener = None
        self.port = port
        self.listen()

    def listen(self):
        listener = socket.socket()
        listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if self.buffer:
            # (inherited by its connections)
            listener.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, self.buffer)
        listener.bind(("127.0.0.1", self.port))
        listener.listen(64)
        self.port = listener.getsockname()[1]
        self.listener = listener
        thread = threading.Thread(target=self._accept, args=(listener,), name="vf-ws-accept")
        thread.daemon = True
        thread.start()

    def refuse(self):
        """Stop listening: connections are refused until listen()."""
        listener, self.listener = self.listener, None
        if listener is not None:
            try:
                listener.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            listener.close()

    @property
    def url(self):
        return "ws://127.0.0.1:%d/m2m/" % self.port

    def next_behaviour(self, conn):
        with self.cond:
            return self.behaviours.pop(0) if self.behaviours else {}

    def _accept(self, listener):
        while True:
            try:
                sock, _address = listener.accept()
            except OSError:
                return
            sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            with self.cond:
                conn = Conn(self, sock, len(self.conns))
                self.conns.append(conn)
                self.cond.notify_all()
            thread = threading.Thread(target=conn.run, name="vf-ws-conn")
            thread.daemon = True
            thread.start()

    def ready_conns(self):
        with self.cond:
            return [c for c in self.conns if any(e.kind == "ready" for e in c.entries)]

    def wait(self, condition, timeout=20.0):
        deadline = monotonic() + timeout
        with self.cond:
            while True:
                value = condition()
                if value:
                    return value
                remaining = deadline - monotonic()
                if remaining <= 0:
                    return value
                self.cond.wait(min(remaining, 0.05))

    def joined(self, count=1, timeout=30.0):
        """The count-th connection that sent a join or identify request (or None)."""
        def find():
            found = [c for c in self.conns if c.packets("request_join", "request_identify")]
            return found[count - 1] if len(found) >= count else None
        return self.wait(find, timeout)

    def close(self):
        self.refuse()
        for conn in list(self.conns):
            conn.hangup()
