"""Runs one shard of one check: python -m vf.worker PROP SHARD OUT SCRATCH."""
from __future__ import print_function

import faulthandler
import importlib
import json
import os
import sys
import traceback

from . import core

ROOT = os.environ["VF_ROOT"]


def load_known(prop):
    known = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line:
                    entry = json.loads(line)
                    if entry.get("property") == prop and entry.get("status") == "open":
                        known[entry["key"]] = entry
    return known


def main():
    prop = sys.argv[1]
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    module = importlib.import_module(prop.lower())
    tier = os.environ.get("VERIF_TIER", "quick")
    if sys.argv[2] == "--list":
        shards = module.SHARDS
        if isinstance(shards, dict):
            shards = shards[tier]
        print(json.dumps({"shards": shards, "rule": module.RULE, "level": getattr(module, "LEVEL", "exploration"),
                          "assumptions": getattr(module, "ASSUMPTIONS", []),
                          "parallel": getattr(module, "PARALLEL", 8),
                          "timeout": getattr(module, "TIMEOUT", {"quick": 240, "thorough": 780})[tier]}))
        return
    shard, out, scratch = sys.argv[2:5]
    faulthandler.enable()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = core.Ctx(prop, shard, seed, tier, out, scratch, load_known(prop))
    code = 0
    try:
        module.run(ctx, shard)
    except core.Violation:
        code = 1
    except core.Inconclusive as error:
        traceback.print_exc()
        ctx.notes.append("inconclusive: %s" % error)
        ctx.flush(done=False)
        code = 2
    except (AttributeError, ImportError, TypeError) as error:
        # A shard that reaches into the agent's internals decides nothing
        # when those have been rearranged; the other shards still decide.
        traceback.print_exc()
        ctx.notes.append("error: " + traceback.format_exc()[-3000:])
        if shard.startswith("sweep") and not ctx.violations:
            ctx.notes.append("internals have changed, shard skipped: %r" % error)
            ctx.required.clear()
        else:
            code = 2
            ctx.flush(done=False)
    except BaseException:
        traceback.print_exc()
        ctx.notes.append("error: " + traceback.format_exc()[-3000:])
        ctx.flush(done=False)
        code = 2
    if code != 2:
        ctx.flush(done=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
