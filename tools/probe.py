#!/usr/bin/env python3
"""probe.py FILE [ID...] : which mutants does the property's own check catch?

FILE defines MUTANTS = {id: (property, [(file, old, new), ...])}. Prints killed (by the tests), caught or MISSED.
"""
import concurrent.futures, os, re, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(ident, prop, edits):
    copy = "/tmp/probe-%s-%d" % (ident, os.getpid())
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        for name, old, new in edits:
            path = copy + "/dataplicity/" + name
            text = open(path).read()
            if text.count(old) != 1:
                return "SPEC %d matches of %r" % (text.count(old), old[:100])
            open(path, "w").write(text.replace(old, new))
        env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1")
        out = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode("utf-8", "replace")
        found = re.findall(r"(\d+) passed", out)
        if not found or int(found[-1]) < 51:
            return "killed by tests (%s passed)" % (found[-1:] or "none")
        done = subprocess.run([ROOT + "/bin/check", prop], env=dict(os.environ, VERIF_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = done.stdout.decode("utf-8", "replace").strip()
        return {0: "MISSED", 1: "caught"}.get(done.returncode, "NO ANSWER %d" % done.returncode) + " " + text.splitlines()[0][:160]
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    space = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), space)
    wanted = sys.argv[2:]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("PROBES", "2"))) as pool:
        jobs = {}
        for ident, (prop, edits) in space["MUTANTS"].items():
            if not wanted or ident in wanted or prop in wanted:
                jobs[pool.submit(one, ident, prop, edits)] = (prop, ident)
        for job in concurrent.futures.as_completed(jobs):
            print("%s %-28s %s" % (jobs[job] + (job.result(),)), flush=True)


main()
