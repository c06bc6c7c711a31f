#!/usr/bin/env python3
"""calm.py [--checks C01,C02] [SPEC...] : checks must stay quiet on edits that keep the behaviour.

Applies the specs (all of tools/calm/ together by default) to a copy of /repo, runs the tests and the checks there.
"""
import glob, json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    checks = ["C%02d" % n for n in range(1, 39)]
    specs = []
    while args:
        arg = args.pop(0)
        if arg == "--checks":
            checks = args.pop(0).split(",")
        else:
            specs.append("%s/tools/calm/%s.py" % (ROOT, arg))
    specs = specs or sorted(glob.glob(ROOT + "/tools/calm/*.py"))
    copy = "/tmp/calm-%d" % os.getpid()
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        for path in specs:
            spec = {}
            exec(compile(open(path).read(), path, "exec"), spec)
            name = copy + "/" + spec["NAME"]
            text = open(name).read()
            for old, new in spec["EDITS"]:
                if text.count(old) != 1:
                    print("%s: %d matches of %r" % (path, text.count(old), old[:200]))
                text = text.replace(old, new)
            open(name, "w").write(text)
        out = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=copy, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             env=dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1")).stdout.decode()
        print(out[-1200:] if " failed" in out else out.strip().splitlines()[-1])
        for check in checks:
            done = subprocess.run([ROOT + "/bin/check", check], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=copy))
            lines = done.stdout.decode("utf-8", "replace").strip()
            print(check, done.returncode, lines[:150].replace("\n", " ") if not done.returncode else lines[:4000], flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


main()
