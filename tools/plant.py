#!/usr/bin/env python3
"""plant.py SPEC... : make /verif/seeded/<id>/ from a spec, after confirming it in a scratch copy.

A spec is a python file with PROP, EDITS [(file, old, new)], NEEDS, BREAKS and DEMO (python source).
--check also runs the property's check (and others in ALSO) against the copy.
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "de43085"


def sh(command, cwd, timeout=900, env=None):
    done = subprocess.run(command, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return done.returncode, done.stdout.decode("utf-8", "replace")


def demo_dir(spec):
    d = tempfile.mkdtemp(prefix="demo-dir-")
    with open(d + "/demo.py", "w") as fh:
        fh.write(spec["DEMO"].lstrip())
    with open(d + "/demo.sh", "w") as fh:
        fh.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$(cd "$(dirname "$0")" && pwd)" exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    if "mini" in spec["DEMO"]:
        shutil.copy(ROOT + "/tools/mini.py", d + "/mini.py")
    return d


def main():
    args = sys.argv[1:]
    check = "--check" in args
    for path in [a for a in args if not a.startswith("--")]:
        ident = os.path.basename(path)[:-3]
        spec = {}
        exec(compile(open(path).read(), path, "exec"), spec)
        copy = "/tmp/plant-" + ident
        shutil.rmtree(copy, ignore_errors=True)
        sh("cp -a /repo %s" % copy, "/")
        problems = []
        try:
            d = demo_dir(spec)
            code, out = sh("bash %s/demo.sh" % d, copy)
            if code:
                problems.append("demo fails on the clean tree: " + out[-1500:])
            for name, old, new in spec["EDITS"]:
                text = open(copy + "/" + name).read()
                if text.count(old) != 1:
                    problems.append("%s: %d matches of %r" % (name, text.count(old), old[:80]))
                open(copy + "/" + name, "w").write(text.replace(old, new))
            _code, diff = sh("git diff", copy)
            # Lines taken out must be the original's
            _code, zero = sh("git diff -U0", copy)
            name, removed = None, 0
            for line in zero.splitlines():
                if line.startswith("--- a/"):
                    name = line[6:]
                elif line.startswith("@@"):
                    a = line.split()[1][1:].split(",")
                    start, count = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    if count:
                        _c, blame = sh("git blame -s --abbrev=7 -L %d,+%d HEAD -- %s" % (start, count, name), copy)
                        for b in blame.splitlines():
                            removed += 1
                            if not b.lstrip("^").startswith(BASE[:7]) and b.split(")", 1)[1].strip():
                                problems.append("not an original line: " + b)
            if not removed:
                problems.append("no original line is changed")
            code, out = sh("bash %s/demo.sh" % d, copy)
            if not code:
                problems.append("demo passes with the change")
            else:
                print("   demo says:", out.strip().splitlines()[-1][:200] if out.strip() else code)
            if "--notest" not in args:
                code, out = sh(TEST % copy, copy)
                if "NOT PASSED" in out:
                    problems.append(out[-800:])
            if check and not problems:
                for prop in [spec["PROP"]] + spec.get("ALSO", []):
                    code, out = sh("VERIF_REPO=%s bin/check %s" % (copy, prop), ROOT)
                    print("   check %s: %d %s" % (prop, code, out.strip().splitlines()[0][:250] if out.strip() else ""))
            if problems:
                print(ident, "PROBLEMS", *problems, sep="\n   ")
                continue
            target = "%s/seeded/%s" % (ROOT, ident)
            shutil.rmtree(target, ignore_errors=True)
            shutil.copytree(d, target)
            open(target + "/patch.diff", "w").write(diff)
            with open(target + "/meta.json", "w") as fh:
                json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, fh, indent=1)
                fh.write("\n")
            print(ident, "planted")
        finally:
            shutil.rmtree(copy, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)


TEST = """python3 - %s <<'X'
import json, subprocess, sys, os
copy = sys.argv[1]
out = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-v', '-p', 'no:cacheprovider', 'tests'], cwd=copy, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1')).stdout.decode()
import re
passed = int(re.findall(r'(\\d+) passed', out)[-1])
if passed < 51:
    print('NOT PASSED', passed, out[-3000:])
X"""

if __name__ == "__main__":
    main()
