"""Runs the agent's clock faster, by replacing time.time/time.sleep and Event.wait.

install(k) must be called before the agent is imported. One second of the
agent's time is 1/k real seconds. time.monotonic stays real; waits on
threading.Event (the agent's poll period, lomond's back-off) are divided by k.
"""
import threading
import time

from . import core

state = {"k": 1.0, "installed": False}
waits = []  # (thread name, requested seconds) of Event.wait
_real_wait = threading.Event.wait
_base = core.real_time()


def warped_time():
    return _base + (core.real_time() - _base) * state["k"]


def warped_sleep(seconds):
    core.real_sleep(seconds / state["k"])


def warped_wait(self, timeout=None):
    name = threading.current_thread().name
    if timeout is None or name.startswith("vf-") or name == "MainThread" and not state.get("main"):
        return _real_wait(self, timeout)
    if len(waits) < 100000:
        waits.append((name, timeout))
    return _real_wait(self, timeout / state["k"])


def install(k, main=False):
    state["k"] = float(k)
    state["main"] = main
    if not state["installed"]:
        state["installed"] = True
        time.time = warped_time
        time.sleep = warped_sleep
        threading.Event.wait = warped_wait
