"""Another user of the device: looks at, and lays traps in, a shared temporary directory.

Run as root by CPython as `neighbour.py UID SHARED`; becomes UID at once. Commands and events are JSON lines. All it ever does to
things that aren't its own is to open and list them.
"""
import errno
import json
import os
import select
import subprocess
import sys
import threading


class Neighbour(object):
    """The other end."""

    def __init__(self, uid, shared):
        self.uid = uid
        self.cond = threading.Condition()
        self.events = []
        self.process = subprocess.Popen(["/usr/bin/python3", os.path.abspath(__file__), str(uid), shared], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        env={"PATH": os.environ.get("PATH", "")})
        thread = threading.Thread(target=self._read, name="vf-neighbour")
        thread.daemon = True
        thread.start()
        self.ask("ready")

    def _read(self):
        for line in self.process.stdout:
            with self.cond:
                self.events.append(json.loads(line.decode()))
                self.cond.notify_all()

    def ask(self, command, **fields):
        """Have it do something; returns the answer."""
        with self.cond:
            since = len(self.events)
            fields["do"] = command
            self.process.stdin.write((json.dumps(fields) + "\n").encode())
            self.process.stdin.flush()
            if not self.cond.wait_for(lambda: [e for e in self.events[since:] if e["event"] == "done"], 60.0):
                raise RuntimeError("the neighbour does not answer")
            return [e for e in self.events[since:] if e["event"] == "done"][0]

    def found(self, *kinds):
        with self.cond:
            return [e for e in self.events if e["event"] in kinds]

    def close(self):
        self.process.stdin.close()
        self.process.wait()


def main():
    uid, shared = int(sys.argv[1]), sys.argv[2]
    os.setgroups([])
    os.setgid(uid)
    os.setuid(uid)
    os.umask(0)
    names, told, seen = [], set(), set()
    rounds = 0

    def say(event, **fields):
        fields["event"] = event
        sys.stdout.write(json.dumps(fields) + "\n")
        sys.stdout.flush()

    def tell(event, path, **fields):
        if (event, path) not in told:
            told.add((event, path))
            say(event, path=path, **fields)

    def look(path, depth=0):
        try:
            status = os.lstat(path)
        except OSError:
            return
        if path not in seen:
            seen.add(path)
            say("seen", path=path, owner=status.st_uid, mode=oct(status.st_mode))
        mine = status.st_uid == uid
        kind = status.st_mode & 0o170000
        if kind == 0o040000:
            try:
                entries = os.listdir(path)
            except OSError:
                entries = []
            else:
                if not mine:
                    tell("listed", path)
            if not mine and os.access(path, os.W_OK):
                tell("writable", path, mode=oct(status.st_mode))
            if depth < 3:
                for name in set(entries) | set(names):
                    look(os.path.join(path, name), depth + 1)
        elif kind == 0o100000 and not mine:
            for flags, event in ((os.O_RDONLY, "read"), (os.O_WRONLY | os.O_APPEND, "writable")):
                try:
                    fd = os.open(path, flags | os.O_NOFOLLOW | os.O_NONBLOCK)
                except OSError:
                    continue
                try:
                    if os.fstat(fd).st_uid != uid:
                        tell(event, path, mode=oct(os.fstat(fd).st_mode), start=os.read(fd, 60).decode("latin-1") if event == "read" else None)
                finally:
                    os.close(fd)

    def remove(path):
        try:
            if os.path.isdir(path) and not os.path.islink(path):
                for name in os.listdir(path):
                    remove(os.path.join(path, name))
                os.rmdir(path)
            else:
                os.remove(path)
        except OSError:
            pass

    buffer = b""
    while True:
        if select.select([0], [], [], 0)[0]:
            data = os.read(0, 65536)
            if not data:
                break
            buffer += data
        while b"\n" in buffer:
            line, buffer = buffer.split(b"\n", 1)
            command = json.loads(line.decode())
            answer = {}
            try:
                do = command["do"]
                if do == "names":
                    names[:] = command["names"]
                elif do == "link":
                    os.symlink(command["target"], command["path"])
                elif do == "hard":
                    os.link(command["target"], command["path"])
                elif do == "mkdir":
                    os.mkdir(command["path"])
                    os.chmod(command["path"], command["mode"])
                elif do == "file":
                    with open(command["path"], "w") as fh:
                        fh.write(command["text"])
                    os.chmod(command["path"], command["mode"])
                elif do == "remove":
                    remove(command["path"])
                elif do == "fifo":
                    os.mkfifo(command["path"])
                elif do == "look":
                    rounds = 0
                    for name in os.listdir(shared):
                        look(os.path.join(shared, name))
                elif do == "forget":
                    told.clear()
                elif do == "rounds":
                    answer["rounds"] = rounds
            except OSError as error:
                answer["error"] = errno.errorcode.get(error.errno, "?")
            say("done", **answer)
        try:
            top = os.listdir(shared)
        except OSError:
            top = []
        for name in top:
            look(os.path.join(shared, name))
        rounds += 1


if __name__ == "__main__":
    main()
