"""A process inside a terminal, remote-controlled over a unix socket: term.py SOCKET ID [mode...]"""
import fcntl
import os
import random
import signal
import socket
import struct
import sys
import termios
import threading
import tty

modes = sys.argv[3:]
for mode in modes:
    if mode.startswith("ignore-"):
        signal.signal(getattr(signal, mode[7:]), signal.SIG_IGN)
if "cooked" not in modes:
    tty.setraw(0, termios.TCSANOW)
sock = socket.socket(socket.AF_UNIX)
sock.connect(sys.argv[1])
lock = threading.Lock()
hold = threading.Event()
hold.set()
limit = [65536]


def send(text):
    with lock:
        sock.sendall(text.encode() + b"\n")


def size():
    rows, cols, _x, _y = struct.unpack("HHHH", fcntl.ioctl(0, termios.TIOCGWINSZ, b"\0" * 8))
    return "size %d %d" % (cols, rows)


def read():
    while True:
        hold.wait()
        try:
            data = os.read(0, limit[0])
        except OSError as error:
            send("error %s" % error)
            return
        if not data:
            send("eof")
            return
        send("in " + data.hex())


if "hup-note" in modes:
    def on_hup(*_args):
        send("hup")
    signal.signal(signal.SIGHUP, on_hup)
send("hello %s %d %d %d %s" % (sys.argv[2], os.getpid(), os.getuid(), os.getgid(), size()))
thread = threading.Thread(target=read)
thread.daemon = True
thread.start()
stream = sock.makefile("r")
while True:
    try:
        line = stream.readline()
    except InterruptedError:
        continue
    if not line:
        break
    words = line.split()
    if words[0] == "write":
        data = random.Random(int(words[1])).randbytes(int(words[2]))
        while data:
            try:
                data = data[os.write(1, data):]
            except OSError:
                # no such terminal any more
                data = b""
                send("write-error")
        send("written")
    elif words[0] == "size":
        send(size())
    elif words[0] == "hold":
        hold.clear()
    elif words[0] == "read":
        limit[0] = int(words[1])
        hold.set()
    elif words[0] == "exit":
        os._exit(int(words[1]))
    elif words[0] == "write-exit":
        data = random.Random(int(words[1])).randbytes(int(words[2]))
        while data:
            data = data[os.write(1, data):]
        os._exit(0)
# The harness is gone
if "stubborn" in modes:
    signal.pause()
