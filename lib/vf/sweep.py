"""Systematic single-preemption schedules at source-line granularity.

Runs `first` in its own thread until it is about to execute its k-th line of
agent code, runs `second` meanwhile (to its end, or until it blocks on a lock
`first` holds), then lets `first` go on. Enumerating k covers every point where
one of the two can be interrupted by the other.
"""
import os
import sys
import threading

from .core import monotonic, real_sleep

REPO = os.environ.get("VF_REPO", "/repo") + "/dataplicity"


class Stepper(object):
    """Traces one thread; stops it at its k-th line in agent code."""

    def __init__(self, stop_at=None, files=None, roots=(), opcodes=False):
        self.event = "opcode" if opcodes else "line"
        self.roots = (REPO,) + tuple(roots)
        self.stop_at = stop_at
        self.lines = 0
        self.where = None
        self.paused = threading.Event()
        self.resume = threading.Event()
        self.files = files
        self.pid = os.getpid()

    def relevant(self, filename):
        if not filename.startswith(self.roots):
            return False
        return self.files is None or any(filename.endswith(f) for f in self.files)

    def trace(self, frame, event, arg):
        if not self.relevant(frame.f_code.co_filename):
            return None
        if self.event == "opcode":
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == self.event:
            self.lines += 1
            if self.lines == self.stop_at and os.getpid() == self.pid:
                self.where = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
                self.paused.set()
                self.resume.wait(20.0)
        return self.local

    def run(self, function):
        sys.settrace(self.trace)
        try:
            return function()
        finally:
            sys.settrace(None)


def preempt(first, second, k, files=None, patience=0.15, timeout=30.0, roots=(), lead=30.0, opcodes=False):
    """One schedule. Returns (first outcome, second outcome, where, lines of first).

    With `opcodes` k counts single instructions of the interpreter, not lines.
    """
    stepper = Stepper(k, files, roots, opcodes)
    outcome = {}

    def runner(name, function):
        try:
            outcome[name] = (function(), None)
        except BaseException as error:
            outcome[name] = (None, error)

    done = threading.Event()

    def run_first():
        runner("first", lambda: stepper.run(first))
        done.set()

    one = threading.Thread(target=run_first, name="vf-first")
    one.daemon = True
    one.start()
    limit = monotonic() + lead
    while not stepper.paused.is_set() and not done.is_set():
        if monotonic() > limit:
            # `first` waits for something only `second` brings
            stepper.stop_at = None
            break
        real_sleep(0.0005)
    two = threading.Thread(target=lambda: runner("second", second), name="vf-second")
    two.daemon = True
    two.start()
    two.join(patience)
    stepper.resume.set()
    one.join(timeout)
    two.join(timeout)
    return outcome.get("first"), outcome.get("second"), stepper.where, stepper.lines


def line_count(function, files=None, roots=()):
    """How many lines of agent code one call of `function` executes."""
    stepper = Stepper(None, files, roots)
    stepper.run(function)
    return stepper.lines


class Jitter(object):
    """Random short sleeps at lines of agent code, in every new thread."""

    def __init__(self, rng, probability=0.02, longest=0.003, files=None, roots=()):
        self.random = rng.random
        self.probability, self.longest = probability, longest
        self.stepper = Stepper(None, files, roots)
        self.stops = 0
        self.pid = os.getpid()
        self.places = set()

    def trace(self, frame, event, arg):
        if not self.stepper.relevant(frame.f_code.co_filename):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and self.random() < self.probability and os.getpid() == self.pid:
            self.stops += 1
            self.places.add((frame.f_code.co_filename, frame.f_lineno))
            real_sleep(self.random() * self.longest)
        return self.local

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *args):
        threading.settrace(None)
