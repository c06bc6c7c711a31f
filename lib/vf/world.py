"""One agent in this process, with its API and m2m servers on loopback."""
from __future__ import print_function

import collections
import logging
import os
import sys
import threading

from . import apiserver, core, safety, timewarp, wsserver
from .core import monotonic, real_sleep

backoffs = []           # (thread name, requested wait) of lomond's reconnect back-off
dead_threads = set()    # m2m threads whose world has ended
settings = {"backoff": 0.02, "ws_poll": 0.05}
log_lines = collections.deque(maxlen=300)
_loaded = {}


class _Handler(logging.Handler):
    """Formats every record (so formatting code runs) and keeps the last ones."""

    def emit(self, record):
        try:
            log_lines.append(record.getMessage()[:300])
        except Exception as error:
            log_lines.append("LOGGING ERROR %r %r" % (error, record.msg))


class _FastEvent(object):
    """Stands in for the Event lomond's persist() sleeps on between connections."""

    def __init__(self):
        self._event = threading.Event()

    def wait(self, timeout=None):
        backoffs.append((threading.current_thread().ident, timeout))
        limit = monotonic() + min(timeout, settings["backoff"])
        while monotonic() < limit:
            if threading.current_thread() in dead_threads:
                return True
            real_sleep(0.005)
        return threading.current_thread() in dead_threads

    def set(self):
        self._event.set()

    def is_set(self):
        return self._event.is_set()


class _FakeThreading(object):
    Event = _FastEvent

    def __getattr__(self, name):
        return getattr(threading, name)


def load(k=None, main=False, level=logging.DEBUG):
    """Import the agent, with the stand-ins in place."""
    if _loaded:
        return _loaded
    safety.install()
    if k:
        timewarp.install(k, main)
    import lomond.persist  # noqa
    import lomond.websocket
    sys.modules["lomond.persist"].threading = _FakeThreading()
    real_connect = lomond.websocket.WebSocket.connect

    def connect(self, *args, **options):
        # Sooner than in reality, in proportion
        options["poll"] = settings["ws_poll"] * options.get("poll", 5) / 5.0
        return real_connect(self, *args, **options)

    lomond.websocket.WebSocket.connect = connect
    apiserver.install()
    root = logging.getLogger()
    root.addHandler(_Handler())
    root.setLevel(level)
    logging.getLogger("lomond").setLevel(logging.WARNING)
    from dataplicity import client, constants
    _loaded.update(client=client, constants=constants)
    return _loaded


class World(object):
    def __init__(self, ctx, compress=True, respond=None, serial="serial-0001", auth="auth-token-0001",
                 m2m_query="", behaviours=(), remote_path=None, front=None):
        modules = load()
        self.ctx = ctx
        self.home = ctx.dir("world")
        self.remote_dir = os.path.join(self.home, "remote")
        os.mkdir(self.remote_dir)
        self.serial, self.auth = serial, auth
        self.server = wsserver.WSServer(compress=compress)
        self.server.behaviours.extend(behaviours)
        self.api = apiserver.ApiServer(respond)
        # (`front` gives the addresses to use for those of the servers)
        front = front or (lambda world: (self.api.url, self.server.url))
        rpc_url, m2m_url = front(self)
        self.client = modules["client"].Client(
            rpc_url=rpc_url, m2m_url=m2m_url + m2m_query, serial=serial, auth_token=auth,
            remote_directory_path=remote_path(self.remote_dir) if remote_path else self.remote_dir)
        self.joins = 0
        self.conn = None

    @property
    def m2m(self):
        return self.client.m2m

    @property
    def ws(self):
        return self.client.m2m.m2m_client

    def join(self, identity=b"node-1", timeout=30.0):
        """Wait for the next connection's join, give it an identity, return the connection."""
        self.joins += 1
        conn = self.server.joined(self.joins, timeout)
        if conn is None:
            self.ctx.fail("the agent did not join the m2m server", connections=self.joins,
                          log=list(log_lines)[-30:])
        if identity is not None:
            conn.send("set_identity", identity)
        conn.send("welcome")
        self.conn = conn
        return conn

    def sync(self, conn=None, timeout=30.0):
        conn = conn or self.conn
        if not conn.barrier(timeout):
            self.ctx.fail("the agent stopped answering pings", received=[repr(e) for e in conn.entries[-10:]],
                          closed=conn.closed, log=list(log_lines)[-30:], stacks=stacks)

    def stop(self):
        thread = self.ws
        dead_threads.add(thread)
        self.server.close()
        self.api.close()
        thread.join(5.0)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.stop()


def stacks():
    return core.thread_stacks(lambda name: not name.startswith("vf-"))
