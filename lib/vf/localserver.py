"""Loopback TCP servers standing in for the device's local services."""
from __future__ import print_function

import socket
import struct
import threading

from .core import monotonic, real_sleep


class Peer(object):
    """One accepted connection; reads everything in its own thread."""

    def __init__(self, server, sock):
        self.server, self.sock = server, sock
        self.received = b""
        self.chunks = []
        self.eof = False
        self.error = None
        self.read_size, self.read_delay = 65536, 0.0
        self.reading = threading.Event()
        if not server.paused:
            self.reading.set()
        self.cond = threading.Condition()
        thread = threading.Thread(target=self._read, name="vf-peer")
        thread.daemon = True
        thread.start()

    def _read(self):
        try:
            while True:
                self.reading.wait()
                if self.read_delay:
                    real_sleep(self.read_delay)
                data = self.sock.recv(self.read_size)
                with self.cond:
                    if not data:
                        self.eof = True
                    else:
                        self.chunks.append(data)
                    self.cond.notify_all()
                if not data:
                    return
        except OSError as error:
            with self.cond:
                self.error = error
                self.cond.notify_all()

    def data(self):
        with self.cond:
            return b"".join(self.chunks)

    def wait(self, condition, timeout=20.0):
        deadline = monotonic() + timeout
        with self.cond:
            while not condition():
                remaining = deadline - monotonic()
                if remaining <= 0:
                    return bool(condition())
                self.cond.wait(min(remaining, 0.05))
            return True

    def write(self, data):
        self.sock.sendall(data)

    def close_write(self):
        try:
            self.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def close(self):
        self.reading.set()
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def reset(self):
        self.reading.set()
        try:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            # The descriptor must be closed while no thread is in recv()
            self.sock.settimeout(0)
        except OSError:
            pass
        abort(self.sock)


def abort(sock):
    """Send a RST, also while another thread is blocked in recv() on the socket."""
    try:
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        # connect() to AF_UNSPEC disconnects at once
        import ctypes
        libc = ctypes.CDLL(None, use_errno=True)
        libc.connect(sock.fileno(), struct.pack("H14x", 0), 16)
    except Exception:
        pass
    try:
        sock.close()
    except OSError:
        pass


class LocalServer(object):
    def __init__(self, host="127.0.0.1", port=0, family=socket.AF_INET, receive_buffer=None, paused=False):
        self.paused = paused    # peers don't read at first
        self.cond = threading.Condition()
        self.peers = []
        self.listener = socket.socket(family, socket.SOCK_STREAM)
        self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if receive_buffer:
            self.listener.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, receive_buffer)
        self.listener.bind((host, port))
        self.listener.listen(64)
        self.port = self.listener.getsockname()[1]
        thread = threading.Thread(target=self._accept, name="vf-local-accept")
        thread.daemon = True
        thread.start()

    def _accept(self):
        while True:
            try:
                sock, _address = self.listener.accept()
            except OSError:
                return
            sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            with self.cond:
                self.peers.append(Peer(self, sock))
                self.cond.notify_all()

    def peer(self, index=0, timeout=20.0):
        deadline = monotonic() + timeout
        with self.cond:
            while len(self.peers) <= index:
                remaining = deadline - monotonic()
                if remaining <= 0:
                    return None
                self.cond.wait(min(remaining, 0.05))
            return self.peers[index]

    def stop(self):
        try:
            self.listener.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.listener.close()

    def close(self):
        self.stop()
        for peer in list(self.peers):
            peer.close()


def unused_port():
    sock = socket.socket()
    sock.bind(("127.0.0.1", 0))
    port = sock.getsockname()[1]
    sock.close()
    return port
