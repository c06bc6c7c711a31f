"""What the demonstrations share: an agent in this process whose websocket is a stand-in that records packets."""
import os
import shutil
import sys
import tempfile
import threading
import time

SCRATCH = tempfile.mkdtemp(prefix="demo-")
os.environ["TMPDIR"] = os.environ["HOME"] = SCRATCH
tempfile.tempdir = SCRATCH
real_exists = os.path.exists
os.path.exists = lambda path: False if path == "/var/tmp" else real_exists(path)

from dataplicity import constants  # noqa
from dataplicity.directory_scanner import DirectoryScanner  # noqa
from dataplicity.m2m import bencode  # noqa
from dataplicity.m2m.packets import PacketType  # noqa
from dataplicity.m2mmanager import M2MManager  # noqa
from dataplicity.portforward import PortForwardManager  # noqa
from dataplicity.remote_directory import RemoteDirectory  # noqa


def end(problem=None):
    """Leave, with a verdict."""
    shutil.rmtree(SCRATCH, ignore_errors=True)
    if problem:
        print("BROKEN: %s" % (problem,))
    sys.stdout.flush()
    os._exit(1 if problem else 0)


def need(condition, problem):
    if not condition:
        end(problem)


def wait(condition, timeout=15.0):
    deadline = time.time() + timeout
    while time.time() < deadline:
        value = condition()
        if value:
            return value
        time.sleep(0.01)
    return condition()


class Socket(object):
    """Stands in for the websocket."""

    def __init__(self):
        self.messages = []
        self.on_send = None
        self.lock = threading.Lock()

    def send_binary(self, data):
        if self.on_send is not None:
            self.on_send(bencode.decode(data))
        with self.lock:
            self.messages.append(bencode.decode(data))

    def close(self, *args, **options):
        pass


class AgentClient(object):
    """The parts of the agent around the m2m connection."""

    def __init__(self):
        self.remote_path = os.path.join(SCRATCH, "remote")
        os.mkdir(self.remote_path)
        self.directory_scanner = DirectoryScanner(self.remote_path)
        self.remote_directory = RemoteDirectory(self.remote_path, self.directory_scanner)
        self.syncs = 0
        self.identities = []
        self.m2m = M2MManager(self, "ws://127.0.0.1:9/", self.remote_directory)
        self.port_forward = PortForwardManager.init(self)
        self.ws = self.m2m.m2m_client
        self.socket = self.ws.websocket = Socket()

    def sync(self):
        self.syncs += 1

    def set_m2m_identity(self, identity):
        self.identities.append(identity)
        return identity

    # -- the server's side -------------------------------------------------
    def receive(self, name, *fields):
        """A packet from the server."""
        class Event(object):
            pass
        event = Event()
        event.name = "binary"
        event.data = bencode.encode([int(PacketType[name].value)] + list(fields))
        try:
            self.ws.on_event(event)
        except Exception as error:
            print("(the handler raised %r)" % error)

    def instruct(self, action, **fields):
        data = {b"action": action.encode()}
        for key, value in fields.items():
            data[key.encode()] = value
        self.receive("instruction", b"server", data)

    def event(self, name):
        class Event(object):
            pass
        event = Event()
        event.name = name
        self.ws.on_event(event)

    def sent(self, *names):
        numbers = [int(PacketType[name].value) for name in names]
        with self.socket.lock:
            return [m for m in self.socket.messages if not names or m[0] in numbers]

    def data(self, channel):
        return b"".join(m[2] for m in self.sent("request_send") if m[1] == channel)

    def closes(self, channel):
        return len([m for m in self.sent("request_close") if m[1] == channel])
