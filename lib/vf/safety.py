"""Stand-ins that keep the agent's dangerous effects inside the sandbox.

Installed before the agent is imported: a reboot (or any sudo) is recorded and
not run, signals to other people's processes are refused, /var/tmp looks absent
(so the agent's temporary files go to TMPDIR).
"""
import os
import signal
import subprocess
import threading

lock = threading.RLock()
blocked = []   # commands that were not run
started = []   # commands that were run through subprocess
kills = []     # (pid, signal) sent by the agent
_installed = []


def dangerous(args):
    words = [args] if isinstance(args, (str, bytes)) else list(args)
    for word in words:
        if isinstance(word, bytes):
            word = word.decode("utf-8", "replace")
        word = str(word)
        for bad in ("reboot", "sudo", "shutdown", "poweroff", "halt", "systemctl"):
            if bad in word:
                return True
    return False


def install():
    if _installed:
        return
    _installed.append(True)
    real_popen = subprocess.Popen
    real_kill = os.kill
    real_exists, real_isdir = os.path.exists, os.path.isdir

    class Popen(real_popen):
        def __init__(self, args, *rest, **options):
            with lock:
                if dangerous(args):
                    blocked.append(args)
                    args, options["shell"] = ["/bin/true"], False
                else:
                    started.append(args)
            real_popen.__init__(self, args, *rest, **options)

    def kill(pid, number):
        with lock:
            kills.append((pid, number))
        if pid <= 1 or pid == os.getpid() and number == signal.SIGKILL:
            return None
        return real_kill(pid, number)

    def system(command):
        with lock:
            (blocked if dangerous(command) else started).append(command)
        return 0

    def exists(path):
        return False if path == "/var/tmp" else real_exists(path)

    def isdir(path):
        return False if path == "/var/tmp" else real_isdir(path)

    def guard_exec(real):
        def guarded(path, args, *rest):
            if dangerous(args) or dangerous(path):
                os._exit(97)
            return real(path, args, *rest)
        return guarded

    subprocess.Popen = Popen
    os.kill = kill
    os.system = system
    os.path.exists = exists
    os.path.isdir = isdir
    os.execv = guard_exec(os.execv)
    os.execve = guard_exec(os.execve)
