"""Runs contracts on the really running code.
usage: run.py TREE JOB.json  ->  JSON on stdout
JOB: {"contracts": [ids], "seed": s, "scale": f, "budget": seconds per contract,
      "model": null or {...}, "tier": ...}"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from contracts import base
from conc import concenv
from conc.concenv import ConcEnv, SpecSkip, Failure


def one(c, seed, model, tier, strict):
    E = ConcEnv(seed, model, c.name + ".", tier, strict or bool(c.opts.get("exact_data")))
    try:
        c.fn(E)
        return E, None
    except SpecSkip:
        return E, None
    except Failure as f:
        return E, {"obligation": f.name, "detail": f.detail}
    except Exception as e:
        tb = traceback.format_exc()
        return E, {"obligation": "no-exception", "detail": "%s: %s" % (type(e).__name__, e), "traceback": tb[-2500:]}


def main():
    job = json.load(open(sys.argv[2]))
    out = {}
    base.load(job.get("modules"))
    by = dict((c.id, c) for c in base.ALL)
    for cid in job["contracts"]:
        c = by[cid]
        n = max(1, int(c.cases * job.get("scale", 1.0)))
        t0 = time.time()
        res = {"cases": 0, "nonvacuous": 0, "obligations": 0, "failure": None, "names": []}
        names = set()
        for k in range(n):
            if time.time() - t0 > job.get("budget", 60):
                break
            E, f = one(c, job["seed"] * 1000003 + k, job.get("model"), job.get("tier", "quick"), job.get("strict", False))
            res["cases"] += 1
            res["obligations"] += E.nobl
            res["nonvacuous"] += 1 if E.nobl else 0
            names |= E.obl_names
            if f is not None:
                f["seed"] = job["seed"] * 1000003 + k
                f["inputs"] = E.log
                res["failure"] = f
                break
        res["names"] = sorted(names)
        res["time"] = time.time() - t0
        out[cid] = res
    sys.stdout.write("\n@@RESULT@@" + json.dumps(out, default=str))


main()
