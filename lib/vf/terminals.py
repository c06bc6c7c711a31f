"""Harness side of data/term.py: knows what the process inside each terminal saw."""
import os
import random
import socket
import threading

from .core import monotonic

SCRIPT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "term.py")


def pattern(seed, size):
    return random.Random(seed).randbytes(size)


class Inside(object):
    """The process in a terminal."""

    def __init__(self, hub, sock, hello):
        self.hub, self.sock = hub, sock
        words = hello.split()
        self.ident, self.pid, self.uid, self.gid = words[1], int(words[2]), int(words[3]), int(words[4])
        self.size = (int(words[6]), int(words[7]))
        self.sizes = [self.size]
        self.chunks = []
        self.notes = []
        self.gone = False

    def data(self):
        with self.hub.cond:
            return b"".join(self.chunks)

    def tell(self, text):
        try:
            self.sock.sendall(text.encode() + b"\n")
            return True
        except OSError:
            return False

    def wait(self, condition, timeout=20.0):
        return self.hub.wait(condition, timeout)

    def ask_size(self, timeout=20.0):
        with self.hub.cond:
            before = len(self.sizes)
        self.tell("size")
        self.wait(lambda: len(self.sizes) > before or self.gone, timeout)
        return self.sizes[-1] if len(self.sizes) > before else None


class Hub(object):
    def __init__(self, directory):
        os.chmod(directory, 0o755)
        self.path = os.path.join(directory, "hub")
        self.script = os.path.join(directory, "term.py")
        with open(SCRIPT) as source, open(self.script, "w") as copy:
            copy.write(source.read())
        os.chmod(self.script, 0o644)
        self.cond = threading.Condition(threading.RLock())
        self.inside = {}
        self.all = []
        self.listener = socket.socket(socket.AF_UNIX)
        self.listener.bind(self.path)
        os.chmod(self.path, 0o777)
        self.listener.listen(64)
        thread = threading.Thread(target=self._accept, name="vf-hub")
        thread.daemon = True
        thread.start()

    def command(self, ident, *modes):
        return "/usr/bin/python3 -I -S %s %s %s %s" % (self.script, self.path, ident, " ".join(modes))

    def _accept(self):
        while True:
            try:
                sock, _address = self.listener.accept()
            except OSError:
                return
            thread = threading.Thread(target=self._serve, args=(sock,), name="vf-hub-conn")
            thread.daemon = True
            thread.start()

    def _serve(self, sock):
        me = None
        try:
            for line in sock.makefile("r"):
                words = line.split()
                with self.cond:
                    if words[0] == "hello":
                        me = Inside(self, sock, line)
                        self.inside[me.ident] = me
                        self.all.append(me)
                    elif words[0] == "in":
                        me.chunks.append(bytes.fromhex(words[1]))
                    elif words[0] == "size":
                        me.sizes.append((int(words[1]), int(words[2])))
                        me.size = me.sizes[-1]
                    else:
                        me.notes.append(line.strip())
                    self.cond.notify_all()
        except (OSError, ValueError):
            pass
        with self.cond:
            if me is not None:
                me.gone = True
            self.cond.notify_all()
        sock.close()

    def wait(self, condition, timeout=20.0):
        deadline = monotonic() + timeout
        with self.cond:
            while True:
                value = condition()
                if value:
                    return value
                remaining = deadline - monotonic()
                if remaining <= 0:
                    return condition()
                self.cond.wait(min(remaining, 0.05))

    def get(self, ident, timeout=20.0):
        return self.wait(lambda: self.inside.get(str(ident)), timeout)

    def close(self):
        self.listener.close()
