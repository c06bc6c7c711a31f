"""C18: terminals run only with their configured user and group."""
import grp
import os
import pwd

from vf import sweep, terminals, world
from vf.core import monotonic, real_sleep

RULE = ("A case is one terminal with a combination of existing, missing, malformed or forbidden user and group, opened by an agent "
        "running as root or as an unprivileged user, alone or together with others, some with the system's calls for changing "
        "ids or looking up names failing. What runs reports itself and its ids are read from the process table (real, effective, "
        "saved and file system id); whatever must not run would leave a mark. The agent's own ids must stay as they were. "
        "Non-trivial: distinct (user, group, agent, injected failure).")
SHARDS = {"quick": ["root1", "root2", "unprivileged", "faults", "unprivileged-faults"],
          "thorough": ["root1", "root2", "root3", "unprivileged", "unprivileged2", "faults", "unprivileged-faults"]}

MISSING = ["no-such-user", "", " ", "0", "65534", "root ", "ROOT", "root:root", "nobody\n", "a" * 500, "../root", "нет", "root\0x", "-1", "+root"]
USERS = ["root", "daemon", "nobody", "www-data", "man", "backup", "_apt"]
GROUPS = ["root", "daemon", "nogroup", "adm", "tty", "staff", "mail"]


def ids_of(pid):
    out = {}
    try:
        with open("/proc/%d/status" % pid) as fh:
            for line in fh:
                if line.startswith(("Uid:", "Gid:")):
                    out[line[:3]] = [int(w) for w in line.split()[1:]]
    except (OSError, IOError):
        return None
    return out


def children():
    ours, out = os.getpid(), []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as fh:
                    fields = fh.read().rsplit(")", 1)[1].split()
                if int(fields[1]) == ours and fields[0] not in "ZX":
                    out.append(int(name))
            except (OSError, IOError):
                pass
    return out


class Faults(object):
    """Makes the id-changing or name-looking-up calls fail (also in forked children)."""

    NAMES = {"setuid": [(os, n) for n in ("setuid", "setreuid", "setresuid", "seteuid")],
             "setgid": [(os, n) for n in ("setgid", "setregid", "setresgid", "setegid")],
             "getpwnam": [(pwd, "getpwnam")], "getgrnam": [(grp, "getgrnam")]}

    def __init__(self, which, error):
        self.saved = []
        for name in which:
            for module, attribute in self.NAMES[name]:
                if hasattr(module, attribute):
                    self.saved.append((module, attribute, getattr(module, attribute)))

                    def fail(*args):
                        raise error
                    setattr(module, attribute, fail)

    def undo(self):
        for module, attribute, value in self.saved:
            setattr(module, attribute, value)


def run_terminals(ctx, own_uid, faulty):
    rng = ctx.rng()
    directory = ctx.dir("marks")
    os.chmod(directory, 0o1777)
    hub = terminals.Hub(ctx.dir("hub"))
    users = [u for u in USERS if known(pwd.getpwnam, u)]
    groups = [g for g in GROUPS if known(grp.getgrnam, g)]
    me = pwd.getpwuid(own_uid).pw_name if known(pwd.getpwuid, own_uid) else None
    own_group = grp.getgrgid(os.getgid()).gr_name if known(grp.getgrgid, os.getgid()) else None
    # Looked up now: a process forked during a lookup inherits a lock nobody will release
    uids = {u: lookup(pwd.getpwnam, u, "pw_uid") for u in users + MISSING + [me] if u is not None}
    gids = {g: lookup(grp.getgrnam, g, "gr_gid") for g in groups + MISSING + [own_group] if g is not None}
    with world.World(ctx) as w:
        conn = w.join()
        w.sync()
        if os.getuid() != own_uid:
            raise RuntimeError("not running as the intended user")
        before = (os.getresuid(), os.getresgid(), os.getgroups())
        base = set(children())
        serial = 0
        for round_number in range(ctx.pick(28, 250)):
            batch, faults, which = [], None, ()
            if faulty:
                which = rng.choice([("setuid",), ("setgid",), ("setuid", "setgid"), ("getpwnam",), ("getgrnam",)])
                error = rng.choice([OSError(1, "Operation not permitted"), OSError(11, "Resource temporarily unavailable"), PermissionError(1, "no"),
                                    KeyError("not found"), OSError(5, "I/O error"), ValueError("odd"), MemoryError("none left")])
                faults = Faults(which, error)
            for _ in range(rng.choice([1, 1, 3, 5])):
                serial += 1
                user = rng.choice([None] + users * 2 + MISSING[:rng.randrange(1, len(MISSING))] + ([me] * 4 if me else []))
                group = rng.choice([None] * 6 + groups * 2 + MISSING[:rng.randrange(1, len(MISSING))] + ([own_group] * 4 if own_group else []))
                if user is None and group is None:
                    user = "no-such-user"
                uid, gid = uids.get(user), gids.get(group)
                bad_command = rng.random() < 0.1
                may = (user is None or uid is not None) and (group is None or gid is not None)
                if own_uid != 0:
                    may = may and (user is None or uid == own_uid) and (group is None or gid == os.getgid())
                if user is not None and ("setuid" in which or "getpwnam" in which):
                    may = False
                if group is not None and ("setgid" in which or "getgrnam" in which):
                    may = False
                name = "t%d" % serial
                command = "/nonexistent/command %d" % serial if bad_command else hub.command(name) if may else \
                    "/bin/sh -c 'id > %s/%s; sleep 1'" % (directory, name)
                w.m2m.add_terminal(name, command, user=user, group=group)
                conn.instruct("open-terminal", name=name.encode(), port=serial, size=[80, 24])
                batch.append((name, serial, user, group, uid, gid, may, bad_command))
            w.sync()
            for name, number, user, group, uid, gid, may, bad_command in batch:
                witness = dict(user=user, group=group, agent=own_uid, failing=which)
                if bad_command or not may:
                    continue
                inside = hub.get(name, 30.0)
                ctx.check(inside is not None, "a terminal whose user and group can be assumed did not run", log=list(world.log_lines)[-8:],
                          sent=conn.sent_on(number), **witness)
                ids = ids_of(inside.pid)
                want_uid, want_gid = own_uid if user is None else uid, gid
                ctx.check(ids is not None and set(ids["Uid"]) == {want_uid}, "the command runs with another user id", ids=ids, want=want_uid, **witness)
                if group is not None:
                    ctx.check(set(ids["Gid"]) == {want_gid}, "the command runs with another group id", ids=ids, want=want_gid, **witness)
                ctx.count("ran")
                ctx.case((user, group, own_uid, which), sample={"user": user, "group": group, "ids": ids})
            if any(not b[6] or b[7] for b in batch):
                # What mustn't run has had its time, and its process is gone
                settled = lambda: not [p for p in children() if p not in base and p not in [i.pid for i in hub.all]]
                ctx.wait(settled, 20.0, "a process other than the terminals' commands is running", children=children,
                         commands=lambda: [command_line(p) for p in children()], batch=batch)
            marks = os.listdir(directory)
            for name in marks:
                with open(os.path.join(directory, name)) as fh:
                    ids = fh.read()
                failed = next((b for b in batch if b[0] == name), None)
                ctx.fail("a command was run although its user or group cannot be assumed", ran_as=ids, user=failed and failed[2], group=failed and failed[3],
                         agent=own_uid, failing=which)
            for b in batch:
                if not b[6]:
                    ctx.count("refused")
                    ctx.case((b[2], b[3], own_uid, which), sample={"user": b[2], "group": b[3], "agent": own_uid, "failing": which})
            if faults:
                faults.undo()
            after = (os.getresuid(), os.getresgid(), os.getgroups())
            ctx.check(after == before, "the agent's own ids changed", before=before, after=after)
            for b in batch:
                conn.send("notify_close", b[1])
            w.sync()
            ctx.check(len(w.server.conns) == 1, "another connection to the m2m server was made", connections=len(w.server.conns))
    ctx.require("ran", 3)
    ctx.require("refused", 10)


def command_line(pid):
    try:
        with open("/proc/%d/cmdline" % pid) as fh:
            return fh.read().replace("\0", " ")
    except (OSError, IOError):
        return None


def known(function, name):
    try:
        function(name)
        return True
    except Exception:
        return False


def lookup(function, name, attribute):
    try:
        return getattr(function(name), attribute)
    except Exception:
        return None


def run(ctx, shard):
    world.load()
    uid = 0
    if shard.startswith("unprivileged"):
        ctx.become(65534, 65534)
        uid = 65534
    run_terminals(ctx, uid, "faults" in shard)
