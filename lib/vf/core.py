"""Worker side of a check: verdicts, counters, evidence, watchdog, known findings."""
from __future__ import print_function

import contextlib
import hashlib
import json
import os
import random
import sys
import threading
import time
import traceback

# Real clock functions, taken before anything (see timewarp) replaces them.
real_sleep = time.sleep
real_time = time.time
monotonic = time.monotonic


class Violation(Exception):
    """The property was seen to be broken (already recorded)."""


class Inconclusive(Exception):
    """The check could not decide; never a verdict."""


def jsonable(value, depth=0):
    if depth > 6:
        return repr(value)[:200]
    if isinstance(value, (bytes, bytearray)):
        value = bytes(value)
        text = "b:" + value[:400].hex() if any(c < 32 or c > 126 for c in value[:400]) else "b'" + value[:400].decode("latin-1") + "'"
        return text + ("...(%d bytes)" % len(value) if len(value) > 400 else "")
    if isinstance(value, bool) or value is None or isinstance(value, float):
        return value
    if isinstance(value, int):
        return value if abs(value) < 2 ** 53 else str(value)
    if isinstance(value, str):
        value = value.encode("utf-8", "backslashreplace").decode("utf-8")
        return value if len(value) <= 1500 else value[:1500] + "...(%d chars)" % len(value)
    if isinstance(value, dict):
        return {str(jsonable(k, depth + 1)): jsonable(v, depth + 1) for k, v in list(value.items())[:60]}
    if isinstance(value, (list, tuple, set, frozenset)):
        items = [jsonable(v, depth + 1) for v in list(value)[:60]]
        if len(value) > 60:
            items.append("...(%d items)" % len(value))
        return items
    return repr(value)[:400]


def thread_stacks(wanted=lambda name: True):
    """What every thread is doing (PyPy can't always tell)."""
    names = {t.ident: t.name for t in threading.enumerate()}
    found = {}
    try:
        for ident, frame in sys._current_frames().items():
            name = names.get(ident, str(ident))
            if wanted(name):
                try:
                    found[name] = traceback.format_stack(frame)[-5:]
                except Exception as error:
                    found[name] = repr(error)
    except Exception as error:
        found["?"] = repr(error)
    return found


class Ctx(object):
    def __init__(self, prop, shard, seed, tier, out_path, scratch, known):
        self.prop = prop
        self.shard = shard
        self.seed = seed
        self.tier = tier
        self.quick = tier == "quick"
        self.scratch = scratch
        self.out_path = out_path
        self.known = known  # open known findings: key -> entry
        self.started = monotonic()
        self.lock = threading.RLock()
        self.counters = {}
        self.required = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.notes = []
        self.violations = []
        self.known_hits = {}
        self.guards = {}
        self._guard_id = 0
        self._watchdog = None
        self._serial = 0

    # -- randomness ------------------------------------------------------
    def rng(self, name=""):
        return random.Random("%s/%s/%s/%s" % (self.prop, self.shard, self.seed, name))

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def spent(self, quick=100.0, thorough=450.0):
        """Whether an enumeration should stop (it may be longer than expected)."""
        return monotonic() - self.started > self.pick(quick, thorough)

    def dir(self, name="d"):
        """A new directory in the scratch directory."""
        with self.lock:
            self._serial += 1
            path = os.path.join(self.scratch, "%s%d" % (name, self._serial))
        os.makedirs(path)
        return path

    def become(self, uid, gid):
        """Go on as an unprivileged user, who may write only in the scratch directory."""
        parent = os.path.dirname(self.out_path)
        for path in [parent] + [os.path.join(d, n) for d, ns, _fs in os.walk(parent) for n in ns]:
            os.chown(path, uid, gid)
        os.environ["HOME"] = self.scratch
        os.setgroups([])
        os.setgid(gid)
        os.setuid(uid)
        if not os.access(os.path.join(os.environ["VF_REPO"], "dataplicity", "__init__.py"), os.R_OK):
            raise RuntimeError("%s can't be read by user %d" % (os.environ["VF_REPO"], uid))

    # -- accounting ------------------------------------------------------
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, least=1):
        """The run decides nothing unless counter `name` reached `least`."""
        self.required[name] = max(least, self.required.get(name, 0))

    def case(self, key=None, nontrivial=True, sample=None):
        """One evaluated case; `key` identifies it (for the distinct count)."""
        with self.lock:
            self.evaluations += 1
            if nontrivial:
                digest = hashlib.blake2b(repr(key if key is not None else self.evaluations).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()
                self.distinct.add(digest)
            if sample is not None and len(self.samples) < 4:
                self.samples.append(jsonable(sample))

    # -- verdicts --------------------------------------------------------
    def report(self, message, key=None, **witness):
        """Record a violation without raising (any thread)."""
        with self.lock:
            if key is not None and key in self.known:
                self.known_hits[key] = message
                return
            witness = {k: v() if callable(v) else v for k, v in witness.items()}
            record = {"message": message, "shard": self.shard, "key": key,
                      "witness": jsonable(witness), "t": round(monotonic() - self.started, 3)}
            self.violations.append(record)
            self.flush()

    def fail(self, message, key=None, **witness):
        self.report(message, key=key, **witness)
        if not (key is not None and key in self.known):
            raise Violation(message)

    def check(self, condition, message, key=None, **witness):
        self.count("assertions")
        if not condition:
            self.fail(message, key=key, **witness)

    def equal(self, got, want, message, **witness):
        self.count("assertions")
        if got != want:
            self.fail(message, got=got, want=want, **witness)

    def stop_if_violated(self):
        if self.violations:
            raise Violation(self.violations[0]["message"])

    def wait(self, condition, timeout, message=None, interval=0.004, **witness):
        """Wait for a condition; a violation if `message` is given and it never holds."""
        deadline = monotonic() + timeout
        while True:
            value = condition()
            if value:
                return value
            if self.violations and message is not None:
                self.stop_if_violated()
            if monotonic() >= deadline:
                value = condition()
                if value or message is None:
                    return value
                extra = {k: (v() if callable(v) else v) for k, v in witness.items()}
                self.fail(message + " (waited %gs)" % timeout, **extra)
                return value
            real_sleep(interval)

    # -- watchdog --------------------------------------------------------
    @contextlib.contextmanager
    def guard(self, description, seconds, **witness):
        """The code inside must finish; if not, that is recorded as a violation."""
        with self.lock:
            self._guard_id += 1
            gid = self._guard_id
            self.guards[gid] = (monotonic() + seconds, description, seconds, witness)
            if self._watchdog is None:
                self._watchdog = threading.Thread(target=self._watch, name="vf-watchdog")
                self._watchdog.daemon = True
                self._watchdog.start()
        try:
            yield
        finally:
            with self.lock:
                self.guards.pop(gid, None)

    def _watch(self):
        while True:
            real_sleep(0.25)
            now = monotonic()
            with self.lock:
                for deadline, description, seconds, witness in self.guards.values():
                    if now > deadline:
                        self.report("%s did not finish within %gs" % (description, seconds),
                                    stacks=thread_stacks, **witness)
                        os._exit(3)

    # -- results ---------------------------------------------------------
    def flush(self, done=False):
        with self.lock:
            data = {
                "shard": self.shard, "done": done, "evaluations": self.evaluations,
                "distinct": sorted(self.distinct), "samples": self.samples,
                "counters": self.counters, "required": self.required,
                "violations": self.violations, "known_hits": self.known_hits,
                "notes": self.notes, "wall": monotonic() - self.started,
            }
            tmp = self.out_path + ".tmp"
            with open(tmp, "w") as fh:
                json.dump(data, fh)
            os.rename(tmp, self.out_path)


def run_threads(functions, timeout=60.0):
    """Run functions together; returns [(result, exception)], None for one that hangs."""
    results = [None] * len(functions)

    def runner(index, function):
        try:
            results[index] = (function(), None)
        except BaseException as error:
            results[index] = (None, error)

    threads = []
    for index, function in enumerate(functions):
        thread = threading.Thread(target=runner, args=(index, function), name="vf-run%d" % index)
        thread.daemon = True
        threads.append(thread)
    for thread in threads:
        thread.start()
    deadline = monotonic() + timeout
    for thread in threads:
        thread.join(max(0.0, deadline - monotonic()))
    return results
