"""C33: the reported description of the device is accurate."""
import builtins
import importlib
import io
import json
import os
import socket
import struct
import subprocess
import sys

from vf import apiserver, world
from vf.core import real_sleep

RULE = ("A case is one report of meta information, received by a fake API, from an agent whose kernel files (cpuinfo, device tree) and operating system release "
        "files are generated (present, absent, unreadable, odd spellings, other encodings), or whose network is a namespace of its own with known addresses that "
        "come and go between reports. An independent reading of the same sources says what the report must be. Non-trivial: distinct device descriptions.")
SHARDS = {"quick": ["files1", "files2", "addresses1", "addresses2"], "thorough": ["files1", "files2", "files3", "addresses1", "addresses2", "addresses3"]}

CPUINFO, MODEL, OS_RELEASE = "/proc/cpuinfo", "/proc/device-tree/model", "/etc/os-release"
METHODS = {"device.set_agent_version": "agent_version", "device.set_machine_revision": "revision_code", "device.set_model_name": "model_name",
           "device.set_os_version": "os_version", "device.set_uname": "uname", "device.set_ip_addresses": "ip_list"}


class Files(object):
    """Stands in for a few of the kernel's and distribution's files."""

    def __init__(self, directory):
        self.directory = directory
        self.plans = {}
        real_open, real_os_open = builtins.open, os.open

        def name(path):
            try:
                path = os.fspath(path)
            except TypeError:
                return None
            path = os.fsdecode(path)
            if path in ("/usr/lib/os-release",):
                return OS_RELEASE
            if path.startswith("/sys/firmware/devicetree/base/"):
                return "/proc/device-tree/" + path.split("/base/", 1)[1]
            return path

        def moved(path):
            plan = self.plans.get(name(path))
            if plan is None:
                return path
            if isinstance(plan, Exception):
                raise plan
            return os.path.join(self.directory, plan)

        def fake_open(path, *args, **options):
            return real_open(moved(path), *args, **options)

        def fake_os_open(path, *args, **options):
            return real_os_open(moved(path), *args, **options)

        builtins.open = io.open = fake_open
        os.open = fake_os_open

    def set(self, path, content):
        """`content`: bytes, an exception, or None for a file that does not exist."""
        if content is None:
            content = OSError(2, "No such file or directory")
        if isinstance(content, bytes):
            name = path.replace("/", "_")
            target = os.path.join(self.directory, name)
            if os.path.exists(target):
                os.remove(target)
            fd = os.open(target, os.O_WRONLY | os.O_CREAT, 0o600)
            os.write(fd, content)
            os.close(fd)
            content = name
        self.plans[path] = content


def revision(content):
    """What cpuinfo says: the value of the first line named Revision."""
    if not isinstance(content, bytes):
        return None
    for line in content.split(b"\n"):
        name, colon, value = line.partition(b":")
        if colon and name.strip().lower() == b"revision":
            return value.strip().lower()
    return None


def a_cpuinfo(rng):
    roll = rng.random()
    if roll < 0.1:
        return None
    if roll < 0.18:
        return rng.choice([PermissionError(13, "Permission denied"), OSError(5, "Input/output error"), IsADirectoryError(21, "Is a directory")])
    if roll < 0.25:
        return b""
    value = rng.choice([b"a02082", b"0010", b"900093", b"C03111", b"1000002", b"", b"0x7f  y", b"abc:def", b"%x" % rng.randrange(1 << 24)])
    if rng.random() < 0.07:
        value = rng.choice([b"\xff\xfe12", b"caf\xe9"])
    lines = []
    for processor in range(rng.randrange(0, 5)):
        lines += [b"processor\t: %d" % processor, b"model name\t: ARMv7 Processor rev 4 (v7l)", b"BogoMIPS\t: 38.40", b"CPU implementer\t: 0x41", b"CPU variant\t: 0x0", b"CPU part\t: 0xd03", b"CPU revision\t: 4", b""]
    if rng.random() < 0.3:
        lines.append(rng.choice([b"Revision", b"the Revision: 12", b"Revision2: 5", b"no colon here", b"\xff\xff: 7", b"PCB Revision : 9"]))
    lines.append(b"Hardware\t: BCM2835")
    if rng.random() < 0.8:
        lines.append(rng.choice([b"Revision\t: ", b"Revision\t:", b"revision: ", b"REVISION   :   "]) + value + rng.choice([b"", b" ", b"\r"]))
        if rng.random() < 0.2:
            lines.append(b"Revision\t: second")
    lines += [b"Serial\t\t: 00000000deadbeef", b"Model\t\t: Raspberry Pi 3 Model B Rev 1.2"]
    return b"\n".join(lines) + b"\n"


def a_model(rng):
    roll = rng.random()
    if roll < 0.2:
        return None
    if roll < 0.3:
        return rng.choice([PermissionError(13, "Permission denied"), OSError(5, "Input/output error")])
    return rng.choice([b"Raspberry Pi 4 Model B Rev 1.1\0", b"Raspberry Pi Zero W Rev 1.1", b"", b"BeagleBone Black\0", "Böard № 5\0".encode("utf-8"), b"two\nlines\0", b"  spaced  \0", b"x" * 4000,
                       b"caf\xe9 board\0", b"\xff\xfe\0", b"Model %d\0" % rng.randrange(10 ** 9)])


def a_release(rng):
    name = rng.choice(["Raspbian GNU/Linux", "Debian GNU/Linux", "Alpine", "Vf OS %d" % rng.randrange(1000), "Ünïx"])
    version = rng.choice(["11", "12.4", "3.19.1", "2024.%d" % rng.randrange(100)])
    codename = rng.choice(["bullseye", "bookworm", "noble", "Core", "Twenty Three", "v%d" % rng.randrange(100)])
    quote = rng.choice(['"', '"', "'", ""])
    if quote == "" and " " in name:
        quote = '"'
    lines = ["NAME=%s%s%s" % (quote, name, quote), "VERSION_ID=%s%s%s" % (quote, version, quote), ('VERSION_CODENAME="%s"' if ' ' in codename else "VERSION_CODENAME=%s") % codename,
             'PRETTY_NAME="%s %s (%s)"' % (name, version, codename), "ID=vf", 'HOME_URL="http://vf.invalid/"', "# comment"]
    rng.shuffle(lines)
    return ("\n".join(lines) + "\n").encode("utf-8"), " ".join((name, version, codename))


def fresh():
    """Forget what was found out before, as a new agent has."""
    import distro
    from dataplicity import device_meta
    if not hasattr(distro, "__path__"):
        importlib.reload(distro)
    else:
        for name in [n for n in sys.modules if n == "distro" or n.startswith("distro.")]:
            importlib.reload(sys.modules[name])
        importlib.reload(sys.modules["distro"])
    importlib.reload(device_meta)


def addresses():
    """The IPv4 addresses of this device, according to `ip`."""
    out = subprocess.run(["ip", "-4", "-o", "addr"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
    return sorted(line.split(" inet ")[1].split("/")[0].split()[0] for line in out.splitlines() if " inet " in line)


def described(request):
    out = {}
    for call in request.calls:
        if call["method"] in METHODS:
            out[METHODS[call["method"]]] = call["params"].get(METHODS[call["method"]], "(absent)")
    return out


def same_text(got, raw):
    """The text of these bytes; what isn't UTF-8 in them may be shown in any way."""
    if not isinstance(got, str):
        return False
    try:
        return got.rstrip("\0") == raw.decode("utf-8").rstrip("\0")
    except UnicodeDecodeError:
        import re
        parts = [p for p in re.split(b"[^\x20-\x7e]+", raw) if p]
        position = 0
        for part in parts:
            position = got.find(part.decode(), position)
            if position < 0:
                return False
            position += len(part)
        return True


def files(ctx, shard):
    rng = ctx.rng()
    stand_in = Files(ctx.dir("files"))
    from dataplicity import __version__
    trouble = {"socket": None}
    real_socket = socket.socket

    class Socket(real_socket):
        def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
            if trouble["socket"] is not None and fileno is None and (type & 0xf) == socket.SOCK_DGRAM:
                raise trouble["socket"]
            super(Socket, self).__init__(family, type, proto, fileno)

    for history in range(ctx.pick(5, 30)):
        with world.World(ctx, respond=lambda request: apiserver.ok_response(request)) as w:
            w.join()
            w.sync()
            before_world = len(w.api.snapshot())
            client_class = type(w.client)
            for turn in range(ctx.pick(16, 40)):
                cpuinfo, model = a_cpuinfo(rng), a_model(rng)
                release, os_version = a_release(rng)
                stand_in.set(CPUINFO, cpuinfo)
                stand_in.set(MODEL, model)
                stand_in.set(OS_RELEASE, release)
                trouble["socket"] = rng.choice([None, None, None, OSError(97, "Address family not supported by protocol"), PermissionError(1, "Operation not permitted")])
                fresh()
                # A new agent, as far as its reports go
                client = client_class(rpc_url=w.api.url, m2m_url="ws://127.0.0.1:1/", serial="s", auth_token="a", remote_directory_path=w.remote_dir)
                about = dict(cpuinfo=repr(cpuinfo)[-300:], model=repr(model)[:200], release=repr(release), network=repr(trouble["socket"]))
                socket.socket = Socket
                try:
                    with ctx.guard("a report", 60.0, **about):
                        client.sync()
                finally:
                    socket.socket = real_socket
                made = [r for r in w.api.snapshot()[before_world:] if "device.set_uname" in r.methods]
                before_world = len(w.api.snapshot())
                ctx.check(len(made) == 1, "the device was not described", log=list(world.log_lines)[-8:], **about)
                got = described(made[0])
                about["got"] = got
                ctx.check(sorted(got) == sorted(METHODS.values()), "the description is not complete", **about)
                ctx.check(got["agent_version"] == __version__, "the agent's version is wrong", want=__version__, **about)
                want = revision(cpuinfo)
                if want is None:
                    ctx.check(got["revision_code"] is None, "a revision was reported though there is none", **about)
                else:
                    ctx.check(same_text(got["revision_code"], want), "the machine's revision is wrong", want=want, **about)
                if isinstance(model, bytes):
                    ctx.check(same_text(got["model_name"], model), "the model's name is wrong", **about)
                else:
                    ctx.check(got["model_name"] == "", "a model was reported though there is none", **about)
                ctx.check(got["os_version"] == os_version, "the operating system is wrong", want=os_version, **about)
                ctx.check(isinstance(got["uname"], str) and got["uname"].startswith(" ".join(os.uname())), "the uname is wrong", want=" ".join(os.uname()), **about)
                real = addresses()
                if got["ip_list"] != [] or trouble["socket"] is None:
                    ctx.check(isinstance(got["ip_list"], list) and sorted(got["ip_list"]) == real, "the addresses are wrong", want=real, **about)
                if trouble["socket"] is not None and got["ip_list"] == []:
                    ctx.count("unknown networks")
                ctx.count("reports")
                ctx.count("revisions", int(want is not None))
                ctx.case((repr(cpuinfo), repr(model), repr(release), repr(trouble["socket"])), sample=about)
                client.exit()
                close = getattr(getattr(client, "m2m", None), "m2m_client", None)
                if close is not None:
                    close.close()
    ctx.require("reports", 40)
    ctx.require("revisions", 10)


# -- in a network namespace of its own -------------------------------------

def ioctl_up(sock, name):
    import fcntl
    flags = struct.unpack("16sh22s", fcntl.ioctl(sock, 0x8913, struct.pack("16sh22s", name.encode(), 0, b"")))[1]
    fcntl.ioctl(sock, 0x8914, struct.pack("16sh22s", name.encode(), flags | 1, b""))


def inside(path):
    """Runs in the namespace: carries out a plan of networks and reports, prints what it saw."""
    with open(path) as fh:
        plan = json.load(fh)
    sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    ioctl_up(sock, "lo")
    answers = {"how": "ok"}
    api = apiserver.ApiServer(lambda request: apiserver.ok_response(request) if answers["how"] == "ok" else answers["how"])
    real_sleep(0.2)
    from dataplicity import client
    out = []
    agent = None
    for step in plan["steps"]:
        for command in step["commands"]:
            subprocess.run(["ip"] + command, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        answers["how"] = step["answer"]
        if step["new"] or agent is None:
            if not step["first"]:
                break
            agent = client.Client(rpc_url=api.url, m2m_url="ws://127.0.0.1:1/", serial="s", auth_token="a", remote_directory_path=plan["remote"])
        before = len(api.snapshot())
        agent.sync()
        made = [r for r in api.snapshot()[before:] if "device.set_ip_addresses" in r.methods]
        out.append({"got": [described(r).get("ip_list") for r in made], "want": addresses(), "answer": step["answer"]})
    print("OUT " + json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


def a_network(rng, links, there):
    """Commands that change the network."""
    commands = []
    for _ in range(rng.randrange(1, 6)):
        kind = rng.choice(["add"] * 5 + ["many", "del", "link", "up", "down", "six"])
        link = rng.choice(links + ["lo"])
        address = "%d.%d.%d.%d" % (rng.choice([10, 192, 172, 100, 223, 1]), rng.randrange(256), rng.randrange(256), rng.randrange(1, 255))
        if kind == "add":
            commands.append(["addr", "add", address + "/" + rng.choice(["8", "24", "32", "30"]), "dev", link])
            there.append((address, link))
        elif kind == "many":
            for number in range(rng.choice([10, 40])):
                commands.append(["addr", "add", "10.77.%d.%d/24" % (rng.randrange(256), number + 1), "dev", link])
        elif kind == "del" and there:
            commands.append(["addr", "flush", "dev", rng.choice(there)[1]] if rng.random() < 0.3 else ["addr", "del", there[-1][0] + "/24", "dev", there[-1][1]])
        elif kind == "link":
            name = rng.choice(["eth0", "wlan0", "a-rather-long-0", "br0", "\u00e9th"])
            commands.append(["link", "add", name, "type", "veth", "peer", "name", "p%d" % rng.randrange(1000)])
            links.append(name)
        elif kind in ("up", "down"):
            if link != "lo":
                commands.append(["link", "set", link, kind])
        elif kind == "six":
            commands.append(["-6", "addr", "add", "fd00::%x/64" % rng.randrange(1, 65535), "dev", link])
    # The agent reaches its server over this one
    commands.append(["addr", "add", "127.0.0.1/8", "dev", "lo"])
    return commands


def networks(ctx, shard):
    rng = ctx.rng()
    probe = subprocess.run(["unshare", "-Urn", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    if not probe:
        ctx.notes.append("no network namespaces here: only the real addresses are compared")
        ctx.count("no namespaces")
        return
    for number in range(ctx.pick(14, 80)):
        links, there = [], []
        steps = []
        for turn in range(rng.randrange(1, 5)):
            steps.append({"commands": a_network(rng, links, there), "answer": rng.choice(["close", "http500", "reset"]), "new": False, "first": turn == 0})
        steps[-1]["answer"] = "ok"
        remote = ctx.dir("remote")
        path = os.path.join(ctx.scratch, "plan-%d.json" % number)
        with open(path, "w") as fh:
            json.dump({"steps": steps, "remote": remote}, fh)
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        with ctx.guard("reports from a namespace", 100.0):
            done = subprocess.run(["unshare", "-Urn", sys.executable, os.path.abspath(__file__), path], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        text = done.stdout.decode("utf-8", "replace")
        lines = [l for l in text.splitlines() if l.startswith("OUT ")]
        if not lines:
            raise RuntimeError("no report from the namespace: %r" % done.stderr.decode("utf-8", "replace")[-2000:])
        for step, saw in zip(steps, json.loads(lines[0][4:])):
            about = dict(network=step["commands"], saw=saw)
            ctx.check(len(saw["got"]) == 1, "the device was not described", **about)
            if len(saw["want"]) > 100:
                ctx.count("too many addresses")
                continue
            ctx.check(isinstance(saw["got"][0], list) and sorted(saw["got"][0]) == saw["want"], "the addresses are wrong", **about)
            ctx.count("networks")
            ctx.count("addresses", len(saw["want"]))
            ctx.case(("network", tuple(saw["want"]), saw["answer"]), sample={"addresses": saw["want"][:8]})
    ctx.require("networks", 10)


def run(ctx, shard):
    ctx.become(65534, 65534)
    os.chdir(ctx.scratch)
    world.load()
    if shard.startswith("files"):
        files(ctx, shard)
    else:
        networks(ctx, shard)


if __name__ == "__main__":
    inside(sys.argv[1])
