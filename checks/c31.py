"""C31: configuration comes from arguments, environment and files."""
import os
import re
import signal
import subprocess
import sys

from vf import apiserver, wsserver
from vf.core import monotonic, real_sleep

RULE = ("A case is one whole agent process with a random configuration: serial, auth token, addresses and remote directory given as arguments, "
        "in the environment, in device files, in several of these with different values, or nowhere; limits that are integers or not; and "
        "invalid arguments. What the processes are seen to use at loopback servers is compared with a model of the precedence. Non-trivial: distinct configurations.")
SHARDS = {"quick": ["run%d" % i for i in range(1, 5)] + ["limits1", "limits2", "fail1", "fail2"],
          "thorough": ["run%d" % i for i in range(1, 6)] + ["limits1", "limits2", "fail1"]}
PARALLEL = 8

# Names other than loopback's are noted, and not found
BOOT = '''
import sys, socket
where = sys.argv.pop(1)
real = socket.getaddrinfo
def getaddrinfo(host, *args, **options):
    name = host.decode() if isinstance(host, bytes) else host
    with open(where + "/lookups", "a") as fh:
        fh.write("%s\\n" % name)
    if name not in ("127.0.0.1", "localhost"):
        raise socket.gaierror(-2, "Name or service not known")
    return real(host, *args, **options)
socket.getaddrinfo = getaddrinfo
from dataplicity import constants
constants.SERIAL_LOCATION = where + "/serial"
constants.AUTH_LOCATION = where + "/auth"
constants.REMOTE_DIRECTORY_LOCATION = where + "/remote"
from dataplicity.app import main
main()
'''

WORDS = ["serial-1", "8b1f-77", "0", "with space", "a=b&c", "naïve", "UPPER.lower_1", "x" * 200, "--dashes", "%s %d", "1234567890"]
PADS = ["", "\n", " ", "\n\n", "\t \n", "\r\n", " \n \n"]


class Agent(object):
    """One agent process and everything around it."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.home = ctx.dir("agent")
        self.args, self.env = [], {}
        self.servers, self.apis = {}, {}
        self.process = None
        self.config = {}
        self.remote = os.path.join(self.home, "remote")
        os.mkdir(self.remote)

    def server(self, name):
        self.servers[name] = wsserver.WSServer()
        return self.servers[name]

    def api(self, name):
        self.apis[name] = apiserver.ApiServer()
        return self.apis[name]

    def file(self, name, data):
        with open(os.path.join(self.home, name), "wb") as fh:
            fh.write(data.encode("utf-8"))

    def start(self, script, command=("run",)):
        env = {k: v for k, v in os.environ.items() if not k.startswith("DATAPLICITY")}
        env.update(HOME=self.home, PYTHONPATH=os.environ["VF_REPO"])
        env.update(self.env)
        self.output = open(os.path.join(self.home, "output"), "wb")
        self.errors = open(os.path.join(self.home, "errors"), "wb")
        self.process = subprocess.Popen([sys.executable, script, self.home] + self.args + list(command), env=env, cwd=self.home, stdin=subprocess.DEVNULL,
                                        stdout=self.output, stderr=self.errors, start_new_session=True)

    def said(self):
        return open(self.errors.name, "rb").read().decode("utf-8", "replace")

    def lookups(self):
        try:
            with open(os.path.join(self.home, "lookups")) as fh:
                return fh.read().split()
        except IOError:
            return []

    def witness(self, **more):
        more.update(config=self.config, args=self.args, env=self.env, said=self.said()[-1500:])
        return more

    def contacted(self):
        return [name for name, server in self.servers.items() if server.conns] + [name for name, api in self.apis.items() if api.requests]

    def close(self):
        if self.process is not None:
            try:
                os.killpg(self.process.pid, signal.SIGKILL)
            except OSError:
                pass
            self.process.wait()
            self.output.close()
            self.errors.close()
        for server in list(self.servers.values()) + list(self.apis.values()):
            server.close()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def word(rng):
    return rng.choice(WORDS) if rng.random() < 0.5 else "%s-%d" % (rng.choice("abc"), rng.randrange(10 ** 9))


def secret_source(agent, rng, name, option):
    """One of the credentials, from an argument or a file, or both."""
    value = None
    how = rng.choice(["argument", "file", "file", "both", "both broken"])
    padded = rng.choice(PADS)
    if how in ("file", "both"):
        value = word(rng)
        agent.file(name, padded + value + rng.choice(PADS))
    if how == "both broken":
        # The file isn't needed
        kind = rng.choice(["absent", "folder", "unreadable", "empty"])
        path = os.path.join(agent.home, name)
        if kind == "folder":
            os.mkdir(path)
        elif kind != "absent":
            agent.file(name, "" if kind == "empty" else "x")
            if kind == "unreadable":
                os.chmod(path, 0)
        how = "both, broken: " + kind
    if how != "file":
        value = word(rng) + "-argument"
        if rng.random() < 0.5 or value.startswith("-"):
            agent.args.append("%s=%s" % (option, value))
        else:
            agent.args += [option, value]
    agent.config[name] = how
    return value


def address_source(agent, rng, name, options, variable, make):
    """One of the addresses, from an argument or the environment, or both; decoys elsewhere. Gives the name of the server to be used."""
    how = rng.choice(["argument", "environment", "both"])
    used = None
    if how != "argument":
        agent.env[variable] = make(name + " of the environment")
        used = name + " of the environment"
    if how != "environment":
        url = make(name + " of the arguments")
        option = rng.choice(options)
        agent.args += [option, url] if rng.random() < 0.5 or not option.startswith("--") else [option + "=" + url]
        used = name + " of the arguments"
    agent.config[name] = how
    return used


def configure(agent, rng):
    expected = {}
    expected["serial"] = secret_source(agent, rng, "serial", "--serial")
    expected["auth"] = secret_source(agent, rng, "auth", "--auth")
    paths = {}

    def make_ws(name):
        server = agent.server(name)
        path = rng.choice(["/m2m/", "/m2m/", "/", "/other/path", "/m2m"])
        query = rng.choice(["", "", "?features=scan", "?a=b&c=d", "?features=", "?"])
        paths[name] = (path, query)
        return "ws://127.0.0.1:%d%s%s" % (server.port, path, query)

    def make_api(name):
        api = agent.api(name)
        path = rng.choice(["/api/", "/", "/json/rpc"])
        paths[name] = (path, "")
        return "http://127.0.0.1:%d%s" % (api.port, path)

    expected["m2m"] = address_source(agent, rng, "m2m", ["-m", "--m2m-url"], "DATAPLICITY_M2M_URL", make_ws)
    expected["api"] = address_source(agent, rng, "api", ["-s", "--server-url"], "DATAPLICITY_API_URL", make_api)
    expected["paths"] = paths
    expected["remote"] = agent.remote
    if rng.random() < 0.5:
        expected["remote"] = os.path.join(agent.home, "elsewhere")
        os.mkdir(expected["remote"])
        agent.args += rng.choice([["--remote-dir", expected["remote"]], ["--remote-dir=" + expected["remote"]]])
        agent.config["remote"] = "argument"
    if rng.random() < 0.3:
        agent.args += ["--log-level", rng.choice(["DEBUG", "info", "Warning", "ERROR", "warn"])]
    if rng.random() < 0.1:
        agent.args += ["--quiet"]
    return expected


def runs(ctx, script, rng):
    with Agent(ctx) as agent:
        expected = configure(agent, rng)
        agent.start(script)
        server, api = agent.servers[expected["m2m"]], agent.apis[expected["api"]]
        deadline = monotonic() + 60.0
        conn = None
        while conn is None and monotonic() < deadline and agent.process.poll() is None:
            conn = server.joined(1, 0.2)
        ctx.check(conn is not None, "the agent did not join the m2m server it was configured for", **agent.witness(expected=expected, contacted=agent.contacted(), status=agent.process.poll(), lookups=agent.lookups()))
        ctx.count("joined")
        target = conn.request.split(b"\r\n")[0].split(b" ")[1].decode("latin-1")
        path, query = expected["paths"][expected["m2m"]]
        if query:
            ctx.check(target in (path + query, path if query == "?" else path + query), "the m2m address, which has its own query, was changed", **agent.witness(target=target, given=path + query))
            ctx.count("own query")
        else:
            got = re.match(r"^(.*)\?features=(.*)$", target)
            ctx.check(got is not None and got.group(1) == path and sorted(got.group(2).replace("%2C", ",").split(",")) == ["downloads", "scan"],
                      "the features are not advertised in the m2m address", **agent.witness(target=target, given=path))
            ctx.count("features advertised")
        conn.send("set_identity", b"the-node")
        conn.send("welcome")

        def enough():
            requests = api.snapshot()
            return any(r.call("m2m.associate") for r in requests) and any(r.call("device.set_agent_version") for r in requests)

        ctx.check(api.wait(enough, 60.0), "the API the agent was configured for was not told of it", **agent.witness(expected=expected, contacted=agent.contacted(), requests=[repr(r) for r in api.snapshot()]))
        for request in api.snapshot():
            line = request.head.split(b"\r\n")[0].split(b" ")[1].decode("latin-1")
            ctx.check(line == expected["paths"][expected["api"]][0], "the API was called at another path", **agent.witness(path=line, expected=expected))
            for call in request.calls:
                if call.get("method") == "device.check_auth":
                    params = call.get("params") or {}
                    ctx.check(params.get("serial") == expected["serial"], "another serial was used", **agent.witness(got=params.get("serial"), expected=expected["serial"]))
                    ctx.check(params.get("auth_token") == expected["auth"], "another auth token was used", **agent.witness(got=params.get("auth_token"), expected=expected["auth"]))
                    ctx.count("authentications")
        # The remote directory
        conn.send("write_remote_file", b"marker", b"marker.txt", b"", 0, b"here", 0)
        conn.send("write_remote_file", b"marker", b"marker.txt", b"", 4, b"", 1)
        wanted = os.path.join(expected["remote"], "marker.txt")
        deadline = monotonic() + 30.0
        while not os.path.exists(wanted) and monotonic() < deadline:
            real_sleep(0.02)
        places = [os.path.join(d, n) for d, _dirs, names in os.walk(agent.home) for n in names if n == "marker.txt"]
        ctx.check(wanted in places, "a download is not in the configured remote directory", **agent.witness(expected=expected["remote"], places=places))
        others = [name for name in agent.contacted() if name not in (expected["m2m"], expected["api"])]
        ctx.check(not others, "a server was contacted that wasn't configured", **agent.witness(expected=expected, contacted=others))
        ctx.check(all(n in ("127.0.0.1", "localhost") for n in agent.lookups()), "a name was looked up that wasn't configured", **agent.witness(lookups=agent.lookups()))
        ctx.case((sorted(agent.config.items()), query, tuple(sorted(a.split("=")[0] for a in agent.args if a.startswith("-")))), sample={"config": agent.config})


def defaults(ctx, script, rng):
    """No address is configured at all: those of the public service."""
    with Agent(ctx) as agent:
        agent.file("serial", "s")
        agent.file("auth", "a")
        agent.start(script)
        wanted = {"api.dataplicity.com", "m2m.dataplicity.com"}
        deadline = monotonic() + 60.0
        while not wanted <= set(agent.lookups()) and monotonic() < deadline and agent.process.poll() is None:
            real_sleep(0.05)
        ctx.check(set(agent.lookups()) == wanted, "without any configuration, the public service is not what is contacted", **agent.witness(lookups=agent.lookups(), status=agent.process.poll()))
        ctx.case(("defaults",))


def fails(ctx, script, rng, plan):
    kind, detail = plan
    with Agent(ctx) as agent:
        server, api = agent.server("m2m"), agent.api("api")
        agent.config["fails"] = (kind, detail)
        agent.args += ["-m", server.url, "-s", api.url]
        command = ["run"]
        broken = []
        if kind == "credential":
            broken = ["serial", "auth"] if detail == "both" else [detail]
        for name in ("serial", "auth"):
            if name not in broken:
                if rng.random() < 0.5:
                    agent.file(name, word(rng))
                else:
                    agent.args += ["--serial=s" if name == "serial" else "--auth=a"]
                continue
            how = rng.choice(["absent", "folder", "unreadable", "dangling"])
            path = os.path.join(agent.home, name)
            if how == "folder":
                os.mkdir(path)
            elif how == "unreadable":
                agent.file(name, "x")
                os.chmod(path, 0)
            elif how == "dangling":
                os.symlink("nowhere", path)
            agent.config[name] = how
        message = True
        if kind == "option":
            agent.args += detail
        elif kind == "command":
            command = detail
            message = bool(detail)
        for extra in ("--quiet", "--debug"):
            # (--quiet replaces the log level, which is not looked at then)
            if rng.random() < 0.2 and not (extra == "--quiet" and "--log-level" in str(detail)):
                agent.args.insert(0, extra)
        agent.start(script, command)
        started = monotonic()
        try:
            status = agent.process.wait(60)
        except subprocess.TimeoutExpired:
            status = None
        ctx.check(status is not None, "the agent did not exit", **agent.witness(contacted=agent.contacted()))
        ctx.check(status != 0, "the agent exited as if all was well", **agent.witness(status=status))
        ctx.check(status > 0, "the agent was ended by a signal", **agent.witness(status=status))
        ctx.check(not message or agent.said().strip(), "the agent exited without an error message", **agent.witness(status=status))
        real_sleep(0.1)
        ctx.check(not agent.contacted(), "a server was contacted although the configuration is no good", **agent.witness(contacted=agent.contacted()))
        ctx.check(not agent.lookups(), "a server was looked for although the configuration is no good", **agent.witness(lookups=agent.lookups()))
        ctx.count("refused configurations")
        ctx.count("seconds until exit", int(monotonic() - started))
        ctx.case((kind, str(detail), sorted((k, str(v)) for k, v in agent.config.items())), sample={"kind": kind, "detail": detail})


INTEGERS = [("3", 3), ("1", 1), (" 4 ", 4), ("+5", 5), ("07", 7), ("2\n", 2), ("12", 12)]
OTHERS = ["", "abc", "3.5", "3 4", "0x3", "3,", "many", "1e1", "None", "-", "3 terminals", "\u00b2", "3;4"]


def limits(ctx, script, rng, number):
    with Agent(ctx) as agent:
        server, api = agent.server("m2m"), agent.api("api")
        agent.args += ["-m", server.url, "-s", api.url, "--serial=s", "--auth=a"]
        expected = {}
        kinds = ["integer", "other", "absent"]
        for turn, (name, default) in enumerate((("SERVICES", 500), ("TERMINALS", 100))):
            kind = kinds[(number + turn) % 3]
            expected[name] = default
            if kind == "integer":
                text, expected[name] = rng.choice(INTEGERS)
                agent.env["DATAPLICITY_LIMIT_" + name] = text
            elif kind == "other":
                agent.env["DATAPLICITY_LIMIT_" + name] = rng.choice(OTHERS)
        agent.start(script)
        deadline = monotonic() + 60.0
        conn = None
        while conn is None and monotonic() < deadline and agent.process.poll() is None:
            conn = server.joined(1, 0.2)
        ctx.check(conn is not None, "the agent did not start with these limits", **agent.witness(expected=expected, status=agent.process.poll()))
        conn.send("set_identity", b"the-node")
        conn.send("welcome")
        for name, base in (("SERVICES", 1000), ("TERMINALS", 5000)):
            limit = expected[name]
            # All of the default number is much work
            tries = limit + 3 if limit < 100 or not ctx.quick and limit == 100 else 20
            for channel in range(base, base + tries):
                if name == "SERVICES":
                    conn.instruct("run-command", command=b"echo up; exec sleep 1000", port=channel)
                else:
                    conn.instruct("open-terminal", name=b"shell", port=channel, size=[80, 24])
                    conn.route(channel, b"echo u''p; read x\n")

            def state():
                up = [c for c in range(base, base + tries) if b"up" in conn.sent_on(c)]
                return up, [c for c in range(base, base + tries) if conn.close_requests(c)]

            settled = conn.wait(lambda: sum(len(part) for part in state()) >= tries, 60.0)
            up, refused = state()
            ctx.check(settled, "services neither started nor were refused", **agent.witness(expected=expected, name=name, up=len(up), refused=len(refused)))
            ctx.check(len(up) == min(tries, limit), "the number of %s that ran is not the configured limit" % name.lower(), **agent.witness(expected=expected, ran=len(up), refused=len(refused), tries=tries))
            ctx.count("limit reached" if tries > limit else "limit not reached")
        ctx.count("limited")
        ctx.case(tuple(sorted(agent.env.items())), sample={"env": agent.env})


def fail_plans(rng):
    plans = [("credential", name) for name in ("serial", "auth", "both") for _ in range(3)]
    plans += [("option", option) for option in (
        ["--log-level", "LOUD"], ["--log-level="], ["--log-level", "15"], ["--no-such-option"], ["-z"], ["--debug=1"], ["--log-file", "/nonexistent/folder/log"], ["--quiet=yes"])]
    plans += [("command", command) for command in ([], ["walk"], ["run", "away"], ["run", "--serial"], ["--auth"], ["-s"], ["--remote-dir"], ["run", "-x"])]
    rng.shuffle(plans)
    return plans


def run(ctx, shard):
    ctx.become(65534, 65534)
    script = os.path.join(ctx.scratch, "boot.py")
    with open(script, "w") as fh:
        fh.write(BOOT)
    rng = ctx.rng()
    if shard.startswith("run"):
        if shard == "run1":
            defaults(ctx, script, rng)
        for _ in range(ctx.pick(5, 40)):
            runs(ctx, script, rng)
            ctx.stop_if_violated()
        ctx.require("joined", 4)
        ctx.require("authentications", 4)
    elif shard.startswith("limits"):
        for number in range(ctx.pick(3, 24)):
            limits(ctx, script, rng, number + int(shard[6:]))
            ctx.stop_if_violated()
        ctx.require("limited", 2)
        ctx.require("limit reached", 1)
    else:
        plans = fail_plans(rng)
        if ctx.quick:
            # Both shards shuffle alike from their own seeds, so take what suits
            plans = [p for i, p in enumerate(sorted(plans, key=str)) if i % 2 == int(shard[4:]) - 1]
        else:
            plans = plans * 2
        for plan in plans:
            fails(ctx, script, rng, plan)
            ctx.stop_if_violated()
        ctx.require("refused configurations", 8)
