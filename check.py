"""check.py PROPERTY [--thorough]: decide one property on /repo's current tree.
check.py --replay FILE: re-run a recorded failing input on /repo's current tree."""
import collections
import json
import multiprocessing
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
PYPY = "/opt/venvpp/bin/python"
EVID = os.path.join(HERE, "evidence")

TRUSTED = [
    "the engine /verif/sx (symbolic semantics of Python scalars, numpy 1.17 and math as in sx/npshim.py, path exploration, "
    "polynomial normal forms); cross-checked on every run against the same contracts executed on the real code under real numpy",
    "z3 and cvc5 (unsat answers)",
    "the Python 2 to 3 translator /opt/vp/py3/translate.py (the verified text is its output, which is also what the tests run)",
    "floating point treated as real arithmetic; special values inf and nan are modelled, rounding, overflow and the sign of zero are not",
    "float literals taken as the decimal written in the source; N.pi as the number pi",
]


def translate(dst):
    from sx import loader
    srcs = loader.translate_all()
    for rel, text in srcs.items():
        p = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    return srcs


# ---------------------------------------------------------------- symbolic side

_SRCS = None
_CON = {}


def sym_job(arg):
    cid, budget, tier = arg
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from sx import loader, runsym
    loader.install(_SRCS)
    c = _CON[cid]
    try:
        r = runsym.run_contract(c, budget, tier)
    except BaseException as e:     # MemoryError and the like
        return {"contract": cid, "status": "engine-error", "why": repr(e)[:300], "obls": [], "paths": 0, "time": 0.0,
                "stats": {}, "functions": []}
    r["obls"] = [pack(o) for o in r["obls"]]
    return r


def _send(conn, fn, args):
    os.setpgrp()
    conn.send(fn(*args))
    conn.close()
    os._exit(0)


class Scheduler(object):
    """Runs jobs in processes of their own, forked by the (only) main thread; one that dies or overstays is lost alone."""
    def __init__(self, procs):
        self.procs, self.live, self.out = procs, {}, {}
        self.mp = multiprocessing.get_context("fork")

    def start(self, name, fn, args, limit):
        a, b = self.mp.Pipe(False)
        p = self.mp.Process(target=_send, args=(b, fn, args), daemon=False)
        p.start()
        b.close()
        self.live[a] = (p, name, time.time() + limit)

    def run(self, jobs, deadline, settled):
        """settled(name, result) called as results come in; returns True when the rest only gets a little more time."""
        jobs = list(jobs)
        while jobs or self.live:
            if time.time() > deadline:
                for j in jobs:
                    self.out[j[0]] = ("lost", "out of time")
                jobs = []
                for conn, (p, name, t) in self.live.items():
                    self.kill(p)
                    self.out[name] = ("lost", "out of time")
                break
            while jobs and len(self.live) < self.procs:
                self.start(*jobs.pop(0))
            for conn in wait(list(self.live), 0.5):
                p, name, t = self.live.pop(conn)
                try:
                    self.out[name] = ("ok", conn.recv())
                    if settled(name, self.out[name][1]):
                        deadline = min(deadline, time.time() + 40)
                except EOFError:
                    p.join(5)
                    self.out[name] = ("lost", "the process died (exit code %s)" % p.exitcode)
                conn.close()
            for conn, (p, name, t) in list(self.live.items()):
                if time.time() > t:
                    del self.live[conn]
                    self.kill(p)
                    conn.close()
                    self.out[name] = ("lost", "over its budget")
        return self.out

    @staticmethod
    def kill(p):
        """With the processes it started (each job leads a process group)."""
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.kill()


def pack(o):
    d = {"name": o.name, "status": o.status, "how": o.how, "time": round(o.time, 3), "exact": o.exact}
    if o.status != "discharged":
        d["detail"] = o.detail[:2000]
        d["facts"] = [repr(f)[:400] for f in (o.facts or [])][:60]
        d["goal"] = [repr(f)[:400] for f in (o.goal or [])]
        if o.status == "failed":
            d["model"] = o.model
    return d


# ---------------------------------------------------------------- concrete side

def conc_job(arg):
    tree, job, tmp, k = arg
    p = os.path.join(tmp, "job%d.json" % k)
    with open(p, "w") as f:
        json.dump(job, f)
    env = dict(os.environ)
    env.update({"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"})
    try:
        r = subprocess.run([PYPY, os.path.join(HERE, "conc", "run.py"), tree, p], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=env, cwd=tmp,
                           timeout=job.get("budget", 60) * len(job["contracts"]) + 120)
    except subprocess.TimeoutExpired:
        return {}, "timeout"
    if "@@RESULT@@" not in r.stdout:
        return {}, (r.stderr or r.stdout)[-3000:]
    return json.loads(r.stdout.split("@@RESULT@@")[1]), ""


def conc_parallel(tree, tmp, ids, seed, scale, budget, tier, procs, tag=0):
    groups = [ids[k::procs] for k in range(procs)]
    jobs = [(tree, {"contracts": g, "seed": seed, "scale": scale, "budget": budget, "tier": tier}, tmp, tag + k)
            for k, g in enumerate(groups) if g]
    out, err = {}, ""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(jobs) or 1) as ex:
        for res, e in ex.map(conc_job, jobs):
            out.update(res)
            err = err or e
    return out, err


# ---------------------------------------------------------------- main

def main():
    global _SRCS
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="tracer-verif-")
    try:
        return run(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, t0, tmp):
    global _SRCS
    from contracts import base
    base.load()
    cons = [c for c in base.ALL if c.prop == prop and (tier == "thorough" or not c.thorough)]
    for c in cons:
        _CON[c.id] = c
    tree = os.path.join(tmp, "tree")
    _SRCS = translate(tree)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    knownset = {(k["contract"], k["obligation"]): k for k in known["known"] if k["property"] == prop}

    budget = 200 if tier == "quick" else 1500
    procs = int(os.environ.get("VERIF_PROCS", "8"))
    # the slowest first
    order = sorted(cons, key=lambda c: -c.opts.get("cost", 1))
    def settled(name, r):
        return name == "concrete" and any(k["failure"] and (cid, k["failure"]["obligation"]) not in knownset
                                          for cid, k in r[0].items())
    hard = t0 + (560 if tier == "quick" else 6000)
    sched = Scheduler(procs)
    sched.start("concrete", conc_parallel, (tree, tmp, [c.id for c in order if not c.opts.get("sym_only")], seed,
                                            1.0 if tier == "quick" else 20.0, 60 if tier == "quick" else 600, tier,
                                            min(4, max(1, len(order)))), hard)
    jobs = []
    for c in order:
        if not c.opts.get("conc_only"):
            bud = c.opts.get("budget", budget) if tier == "quick" else budget
            jobs.append((c.id, sym_job, ((c.id, bud, tier),), 1.6 * bud + 40))
    got = sched.run(jobs, hard, settled)
    st, r = got.pop("concrete")
    conc, cerr = r if st == "ok" else ({}, r)
    sym = dict((cid, r if st == "ok" else {"contract": cid, "status": "engine-error", "why": "no result: " + r, "obls": [],
                                           "paths": 0, "time": 0.0, "stats": {}, "functions": []}) for cid, (st, r) in got.items())

    violations, knowns, notes = [], [], []
    weak = []      # contracts whose proof did not go through for reasons other than a refutation
    for c in cons:
        s = sym.get(c.id)
        k = conc.get(c.id)
        bad = []
        if s is not None:
            seen = set()
            for o in s["obls"]:
                if o["status"] == "failed" and o["name"] not in seen:
                    seen.add(o["name"])
                    if (c.id, o["name"]) in knownset:
                        knowns.append((c.id, o["name"]))
                    elif o["exact"]:
                        bad.append(o)
                    else:
                        weak.append((c.id, "inexact refutation of %r" % o["name"]))
                elif o["status"] == "unknown":
                    if (c.id, o["name"]) not in knownset:
                        weak.append((c.id, "undecided: %r" % o["name"]))
            if s["status"] != "ok":
                weak.append((c.id, s["status"] + ": " + s["why"][:1500]))
            elif not s["obls"]:
                weak.append((c.id, "no obligations (vacuous)"))
            elif k is not None:
                miss = set(k["names"]) - set(o["name"] for o in s["obls"])
                if miss:
                    weak.append((c.id, "obligations never reached symbolically: %s" % sorted(miss)))
        f = k["failure"] if k else None
        if f is not None and (c.id, f["obligation"]) in knownset:
            knowns.append((c.id, f["obligation"]))
            f = None
        if f is not None:
            violations.append((c.id, f["obligation"], {"kind": "failing input on the real code", "failure": f, "verifier": bad[:5]}, True))
        elif bad:
            # replay the counter-models, then search
            got = None
            for n, o in enumerate(bad[:4]):
                if o.get("model"):
                    for strict in (False, True):
                        job = {"contracts": [c.id], "seed": seed, "scale": 0.2, "budget": 30, "tier": tier, "model": o["model"],
                               "strict": strict}
                        r, _ = conc_job((tree, job, tmp, 900 + n))
                        g = (r.get(c.id) or {}).get("failure")
                        if g and (c.id, g["obligation"]) not in knownset:
                            got = g
                            break
                if got:
                    break
            if not got and not c.opts.get("sym_only"):
                r, _ = conc_parallel(tree, tmp, [c.id], seed + 7, 12.0, 90, tier, 1, 950)
                g = (r.get(c.id) or {}).get("failure")
                if g and (c.id, g["obligation"]) not in knownset:
                    got = g
            violations.append((c.id, bad[0]["name"],
                               {"kind": "obligation refuted by the solver" + (", reproduced on the real code" if got else ""),
                                "failure": got, "verifier": bad[:5]}, got is not None))
    if weak and not violations:
        ids = sorted(set(w[0] for w in weak))
        ids = [i for i in ids if not _CON[i].opts.get("sym_only")]
        if ids:
            r, _ = conc_parallel(tree, tmp, ids, seed + 11, 8.0, 60, tier, min(procs, len(ids)), 970)
            for cid in ids:
                g = (r.get(cid) or {}).get("failure")
                if cid in r and cid in conc:
                    conc[cid]["cases"] += r[cid]["cases"]
                    conc[cid]["obligations"] += r[cid]["obligations"]
                if g and (cid, g["obligation"]) not in knownset:
                    violations.append((cid, g["obligation"], {"kind": "failing input on the real code", "failure": g, "verifier": []}, True))
    # concrete side must have run
    if cerr and not violations:
        notes.append("concrete run incomplete: " + cerr[:500])

    write_evidence(prop, tier, seed, cons, sym, conc, weak, violations, knowns, notes, t0)
    rc = 0
    for cid, ob in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s" % (prop, knownset[(cid, ob)]["what"]))
    for n, (cid, ob, info, found) in enumerate(violations):
        path = os.path.join(EVID, "replay_%s_%d.json" % (prop, n))
        info.update({"property": prop, "contract": cid, "obligation": ob})
        with open(path, "w") as f:
            json.dump(info, f, indent=1, default=str)
        if n < 6:
            print("%s: obligation %r: %s" % (cid, ob, (info["failure"] or {}).get("detail", "refuted by the solver")))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
        rc = 1
    if rc == 0:
        no = sum(len(s["obls"]) for s in sym.values())
        nd = sum(1 for s in sym.values() for o in s["obls"] if o["status"] == "discharged")
        print("%s holds: %d of %d obligations discharged in %d contracts; %d concrete cases; %.1f s%s" %
              (prop, nd, no, len(cons), sum(k["cases"] for k in conc.values()), time.time() - t0,
               "" if not weak else "; bounded stand-in for: " + ", ".join(sorted(set(w[0] for w in weak)))))
    if "-v" in sys.argv:
        for cid, s in sym.items():
            if cid in conc:
                miss = set(o["name"] for o in s["obls"]) - set(conc[cid]["names"])
                if miss:
                    print("  never evaluated concretely:", cid, sorted(miss)[:8])
        for w in weak:
            print("  weak:", w[0], w[1])
        for cid, s in sym.items():
            print("  %-40s %-12s %5.1fs obls %d paths %d z3 %.1fs" % (cid, s["status"], s["time"], len(s["obls"]), s["paths"],
                                                                 s["stats"].get("z3_time", 0)))
    return rc


def write_evidence(prop, tier, seed, cons, sym, conc, weak, violations, knowns, notes, t0):
    os.makedirs(EVID, exist_ok=True)
    weakids = set(w[0] for w in weak)
    allo = [o for s in sym.values() for o in s["obls"]]
    back = collections.Counter(o["how"] for o in allo if o["status"] == "discharged")
    proved, bounded = [], []
    for c in cons:
        e = {"contract": c.id}
        s, k = sym.get(c.id), conc.get(c.id)
        if s:
            e.update({"obligations": len(s["obls"]), "discharged": sum(1 for o in s["obls"] if o["status"] == "discharged"),
                      "paths": s["paths"], "seconds": round(s["time"], 2)})
        if k:
            e.update({"concrete_cases": k["cases"], "concrete_nonvacuous": k["nonvacuous"]})
        if c.bound:
            e["bound"] = c.bound
        if c.id in weakids or s is None:
            e["why_not_proved"] = "; ".join(w[1][:300] for w in weak if w[0] == c.id)[:900] or "concrete only"
            bounded.append(e)
        elif c.bound:
            bounded.append(e)
        else:
            proved.append(e)
    cov = {
        "obligations": len(allo),
        "discharged": sum(1 for o in allo if o["status"] == "discharged"),
        "checker_cmd": "python3-vt /verif/check.py %s%s" % (prop, " --thorough" if tier == "thorough" else ""),
        "trusted_base": TRUSTED,
        "discharged_by_back_end": dict(back),
        "functions_under_contract": sorted(set(f for s in sym.values() for f in s["functions"])),
        "solver_seconds": {"z3": round(sum(s["stats"].get("z3_time", 0) for s in sym.values()), 2),
                           "cvc5": round(sum(s["stats"].get("cvc5_time", 0) for s in sym.values()), 2)},
        "solver_calls": {"z3": sum(s["stats"].get("z3_calls", 0) for s in sym.values()),
                         "cvc5": sum(s["stats"].get("cvc5_calls", 0) for s in sym.values())},
        "proved_contracts": proved,
        "bounded_contracts_not_counted_as_proved": bounded,
        "evaluations": sum(k["cases"] for k in conc.values()),
        "distinct_nontrivial": sum(k["nonvacuous"] for k in conc.values()),
        "rule": "concrete cross-check of the same contracts on the real code: seeded random and structured inputs; "
                "non-trivial when at least one obligation was evaluated",
        "known_findings_seen": sorted(set("%s %s" % x for x in knowns)),
        "notes": notes,
    }
    ass = ["rays, frames and numbers are reals: rounding is not modelled"]
    ass += sorted(set(c.opts.get("assume") for c in cons if c.opts.get("assume")))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def _exact(cid):
    from contracts import base
    base.load()
    return [c for c in base.ALL if c.id == cid][0].opts.get("exact_data")


def replay(path):
    info = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="tracer-verif-")
    try:
        tree = os.path.join(tmp, "tree")
        translate(tree)
        f = info.get("failure")
        if not f:
            print("no failing input recorded; verifier output:")
            print(json.dumps(info["verifier"], indent=1))
            return 0
        code = ("import sys,json;sys.path[:0]=[%r,%r]\nfrom contracts import base;base.load()\n"
                "from conc.concenv import ConcEnv\nc=[c for c in base.ALL if c.id==%r][0]\n"
                "c.fn(ConcEnv(%r,json.loads(%r),c.name+'.',strict=%r))" %
                (tree, HERE, info["contract"], f["seed"], json.dumps(f.get("model")), bool(f.get("strict")) or bool(_exact(info["contract"]))))
        r = subprocess.run([PYPY, "-c", code], cwd=tmp)
        return 1 if r.returncode else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
