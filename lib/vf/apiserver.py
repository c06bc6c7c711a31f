"""A loopback JSON-RPC API on raw sockets: records every request, answers as scripted."""
from __future__ import print_function

import json
import select
import socket
import struct
import threading

from .core import monotonic, real_sleep


silent = set()  # (local port of) connections that will get no further answer


class PatientSocket(socket.socket):
    """The agent's end of an API connection: its time limit passes at once, but only when no answer is coming."""

    def recv_into(self, *args):
        while not select.select([self], [], [], 0.02)[0]:
            if self.gettimeout() is not None and self.getsockname()[1] in silent:
                silent.discard(self.getsockname()[1])
                raise socket.timeout("timed out")
        return super(PatientSocket, self).recv_into(*args)


def install():
    """Make the agent's API connections PatientSockets."""
    import http.client
    connect = http.client.HTTPConnection.connect

    def patient_connect(self):
        connect(self)
        limit = self.sock.gettimeout()
        self.sock = PatientSocket(fileno=self.sock.detach())
        self.sock.settimeout(limit)

    http.client.HTTPConnection.connect = patient_connect


class Request(object):
    def __init__(self, index, t, head, body):
        self.index, self.t, self.head, self.body = index, t, head, body
        try:
            self.json = json.loads(body.decode("utf-8"))
            self.valid = True
        except Exception:
            self.json, self.valid = None, False
        self.answer = None
        self.done = None

    @property
    def calls(self):
        if isinstance(self.json, list):
            return [c for c in self.json if isinstance(c, dict)]
        return [self.json] if isinstance(self.json, dict) else []

    @property
    def methods(self):
        return [c.get("method") for c in self.calls]

    def call(self, method):
        for call in self.calls:
            if call.get("method") == method:
                return call
        return None

    def __repr__(self):
        return "<request %d %s>" % (self.index, self.methods)


def ok_response(request, result=True):
    out = [{"jsonrpc": "2.0", "id": c["id"], "result": result} for c in request.calls if "id" in c]
    if isinstance(request.json, list):
        return out
    return out[0] if out else None


def http(body, status=b"200 OK"):
    return b"HTTP/1.1 " + status + b"\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body) + body


class ApiServer(object):
    """`respond(request)` returns a python value (JSON), bytes (raw reply), or an action name."""

    def __init__(self, respond=None):
        self.cond = threading.Condition(threading.RLock())
        self.requests = []
        self.respond = respond or (lambda request: ok_response(request))
        self.port = 0
        self.listener = None
        self.active = 0
        self.max_active = 0
        self.listen()

    @property
    def url(self):
        return "http://127.0.0.1:%d/api/" % self.port

    def listen(self):
        listener = socket.socket()
        listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        listener.bind(("127.0.0.1", self.port))
        listener.listen(64)
        self.port = listener.getsockname()[1]
        self.listener = listener
        thread = threading.Thread(target=self._accept, args=(listener,), name="vf-api-accept")
        thread.daemon = True
        thread.start()

    def refuse(self):
        listener, self.listener = self.listener, None
        if listener is not None:
            try:
                listener.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            listener.close()

    close = refuse

    def _accept(self, listener):
        while True:
            try:
                sock, _address = listener.accept()
            except OSError:
                return
            thread = threading.Thread(target=self._serve, args=(sock,), name="vf-api-conn")
            thread.daemon = True
            thread.start()

    def _serve(self, sock):
        try:
            sock.settimeout(30)
            data = b""
            while b"\r\n\r\n" not in data:
                more = sock.recv(65536)
                if not more:
                    return
                data += more
            head, body = data.split(b"\r\n\r\n", 1)
            length = 0
            for line in head.split(b"\r\n"):
                if line.lower().startswith(b"content-length:"):
                    length = int(line.split(b":", 1)[1])
            while len(body) < length:
                more = sock.recv(65536)
                if not more:
                    return
                body += more
            with self.cond:
                request = Request(len(self.requests), monotonic(), head, body)
                self.requests.append(request)
                self.active += 1
                self.max_active = max(self.max_active, self.active)
                self.cond.notify_all()
            try:
                answer = self.respond(request)
            finally:
                with self.cond:
                    self.active -= 1
            request.answer = answer
            if answer == "close":
                pass
            elif answer == "reset":
                sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif answer == "http500":
                sock.sendall(http(b"oops", b"500 Internal Server Error"))
            elif answer == "http404":
                sock.sendall(http(b"{}", b"404 Not Found"))
            elif answer in ("silent", "stalled"):
                # No answer, or only the begin of one, until the client gives up
                if answer == "stalled":
                    sock.sendall(http(json.dumps(ok_response(request)).encode())[:-7])
                silent.add(sock.getpeername()[1])
                sock.settimeout(120)
                try:
                    while sock.recv(4096):
                        pass
                except OSError:
                    pass
            elif answer == "partial":
                reply = http(json.dumps(ok_response(request)).encode())
                sock.sendall(reply[:-7])
            elif isinstance(answer, tuple) and answer[0] == "raw":
                sock.sendall(answer[1])
            elif isinstance(answer, bytes):
                sock.sendall(http(answer))
            else:
                sock.sendall(http(json.dumps(answer).encode("utf-8")))
            try:
                sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            with self.cond:
                request.done = monotonic()
                self.cond.notify_all()
        except OSError:
            pass
        finally:
            sock.close()

    def snapshot(self):
        with self.cond:
            return list(self.requests)

    def wait(self, condition, timeout=20.0):
        deadline = monotonic() + timeout
        with self.cond:
            while True:
                value = condition()
                if value:
                    return value
                remaining = deadline - monotonic()
                if remaining <= 0:
                    return value
                self.cond.wait(min(remaining, 0.05))
