#!/usr/bin/env python3
"""mutate.py [--files a.py,b.py] [--jobs N] [--out FILE] [--seed S] [--sample K] : systematic small changes.

Generates statement deletions, negated conditions, shifted bounds and numbers, dropped operands, narrowed handlers
and removed locks, drops those that the repository's tests notice, and reports which of the rest no check notices.
Lines of the log are: status TAB file:line TAB change TAB check.
"""
import ast, concurrent.futures, itertools, os, random, re, shutil, subprocess, sys, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "m2m/bencode.py": "C01 C02 C03 C04",
    "m2m/packets.py": "C03 C04 C28 C27",
    "m2m/packetbase.py": "C03 C04 C27 C28",
    "m2m/dispatcher.py": "C04 C28 C03 C27",
    "m2m/wsclient.py": "C04 C06 C07 C08 C10 C05 C09 C23 C27 C37 C36 C28 C30 C34 C31",
    "m2m/commandservice.py": "C14 C11 C30 C34 C28",
    "m2m/fileservice.py": "C15 C11 C30 C34",
    "m2m/echoservice.py": "C06 C07",
    "m2m/remoteprocess.py": "C16 C17 C18 C11 C30 C34",
    "m2m/proxy.py": "C16 C17 C18 C11 C30 C34",
    "portforward.py": "C12 C13 C11 C30 C34 C28",
    "limiter.py": "C11 C34",
    "m2mmanager.py": "C28 C09 C11 C16 C17 C18 C32 C30 C34 C10",
    "remote_directory.py": "C19 C20 C21 C38 C23 C30 C34",
    "directory_scanner.py": "C23 C22 C38 C34",
    "scan_directory.py": "C22 C23",
    "jsonrpc.py": "C24 C25 C27 C36 C32",
    "client.py": "C25 C32 C09 C31 C33 C35 C29 C28",
    "app.py": "C31 C35 C32 C27",
    "subcommand.py": "C35 C31",
    "subcommands/run.py": "C35 C31 C32",
    "subcommands/version.py": "C35",
    "device_meta.py": "C33 C25",
    "rpi.py": "C33",
    "iptool.py": "C33",
    "disk_tools.py": "C25 C20",
    "tags.py": "C29 C25",
    "clockcheck.py": "C26 C32",
    "constants.py": "C31 C11 C25 C20",
    "compat.py": "C01 C03 C33",
}


def segment(text, starts, node):
    return starts[node.lineno - 1] + len(text.splitlines()[node.lineno - 1].encode()[: node.col_offset].decode()), starts[node.end_lineno - 1] + len(
        text.splitlines()[node.end_lineno - 1].encode()[: node.end_col_offset].decode())


def is_log(node):
    call = node.value if isinstance(node, ast.Expr) else None
    return isinstance(call, ast.Call) and re.match(r"(self\.)?log\.", ast.unparse(call.func) + ".")


def mutants(name, text):
    starts = [0] + list(itertools.accumulate(len(line) for line in text.splitlines(True)))
    tree = ast.parse(text)

    def cut(node):
        return segment(text, starts, node)

    def edit(node, new, what, span=None):
        a, b = span or cut(node)
        if text[a:b] != new:
            yield (name, node.lineno, what, a, b, new)

    skip = set()
    for node in ast.walk(tree):
        if is_log(node) or isinstance(node, (ast.Assert,)):
            skip.update(id(child) for child in ast.walk(node))
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        code = text[slice(*cut(node))] if hasattr(node, "lineno") else ""
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            yield from edit(node, "pass", "delete " + code)
        elif isinstance(node, (ast.Assign, ast.AugAssign)) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in getattr(node, "targets", [getattr(node, "target", None)])):
            yield from edit(node, "pass", "delete " + code)
        elif isinstance(node, (ast.Raise, ast.Delete, ast.Break, ast.Continue)):
            yield from edit(node, "pass", "delete " + code)
        elif isinstance(node, ast.Return) and node.value is None:
            yield from edit(node, "pass", "delete return")
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            test = text[slice(*cut(node.test))]
            yield from edit(node.test, "not (%s)" % test, "negate " + test)
            if isinstance(node, ast.If):
                yield from edit(node.test, "False", "never " + test)
        if isinstance(node, ast.BoolOp):
            for index in range(len(node.values)):
                rest = [text[slice(*cut(v))] for i, v in enumerate(node.values) if i != index]
                op = " and " if isinstance(node.op, ast.And) else " or "
                yield from edit(node, "(" + op.join(rest) + ")", "drop operand %d of %s" % (index, code))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}.get(type(node.ops[0]))
            if swap:
                yield from edit(node, "%s %s %s" % (text[slice(*cut(node.left))], swap, text[slice(*cut(node.comparators[0]))]), "bound of " + code)
        if isinstance(node, ast.Constant) and type(node.value) is int:
            yield from edit(node, str(node.value + 1), "%s + 1" % code)
        if isinstance(node, ast.Constant) and type(node.value) is bool:
            yield from edit(node, str(not node.value), "not %s" % code)
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            yield from edit(node.type, "ZeroDivisionError", "narrow except " + text[slice(*cut(node.type))])
        if isinstance(node, ast.With):
            item = node.items[0]
            if "lock" in ast.unparse(item.context_expr):
                a, b = cut(node)
                head = text.index(":", cut(node.items[-1].context_expr)[1])
                yield from edit(node, "if True", "no " + ast.unparse(item.context_expr), (a, head))
        if isinstance(node, ast.keyword) and node.arg:
            pass
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)) and not isinstance(node.left, ast.Constant):
            yield from edit(node, text[slice(*cut(node.left))], "drop right of " + code)
        if isinstance(node, ast.Try) and node.finalbody:
            pass


def one(mutant):
    name, line, what, a, b, new = mutant
    copy = "/tmp/mutate-%d-%d" % (os.getpid(), threading.get_ident())
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        path = copy + "/dataplicity/" + name
        text = open(path).read()
        text = text[:a] + new + text[b:]
        try:
            compile(text, path, "exec")
        except SyntaxError as error:
            return "SYNTAX", str(error)
        open(path, "w").write(text)
        env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1")
        try:
            out = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-k", "not test_echoservice_client and not test_disk_poll", "tests"],
                                 cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100).stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return "tests", "timeout"
        found = re.findall(r"(\d+) passed", out)
        if not found or int(found[-1]) < 51:
            return "tests", ""
        odd = []
        for check in CHECKS[name].split():
            try:
                done = subprocess.run([ROOT + "/bin/check", check], env=dict(os.environ, VERIF_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
            except subprocess.TimeoutExpired:
                odd.append(check + ":timeout")
                continue
            if done.returncode == 1:
                return "caught", check + " " + done.stdout.decode("utf-8", "replace").strip().splitlines()[0][:150]
            if done.returncode:
                odd.append("%s:%d" % (check, done.returncode))
        return "MISSED", " ".join(odd)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    args = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    names = args.get("--files", ",".join(CHECKS)).split(",")
    todo = []
    for name in names:
        todo.extend(mutants(name, open("/repo/dataplicity/" + name).read()))
    random.Random(int(args.get("--seed", "1"))).shuffle(todo)
    todo = todo[: int(args.get("--sample", "100000"))]
    if "--count" in args:
        print(len(todo))
        return
    done = set()
    out = args.get("--out", "/tmp/mutate.tsv")
    if os.path.exists(out):
        done = {tuple(line.split("\t")[1:3]) for line in open(out)}
    with concurrent.futures.ThreadPoolExecutor(int(args.get("--jobs", "3"))) as pool, open(out, "a") as log:
        jobs = {}
        for mutant in todo:
            key = ("%s:%d" % mutant[:2], " ".join(mutant[2].split())[:200])
            if key not in done:
                jobs[pool.submit(one, mutant)] = key
        for job in concurrent.futures.as_completed(jobs):
            try:
                status, detail = job.result()
            except Exception as error:
                status, detail = "FAILED", repr(error)
            log.write("\t".join((status,) + jobs[job] + (detail,)) + "\n")
            log.flush()


main()
