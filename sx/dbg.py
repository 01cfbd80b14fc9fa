import sys, collections
sys.setrecursionlimit(20000)
import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from contracts import base
from sx import loader, runsym
mods = [m for m in sys.argv[2:]] or None
loader.install(loader.translate_all())
import importlib, os
base.load()
for c in base.ALL:
    if not c.id.startswith(sys.argv[1]):
        continue
    r = runsym.run_contract(c, budget=float(os.environ.get("BUDGET", "240")))
    st = collections.Counter(o.status for o in r["obls"])
    print("==", c.id, r["status"], dict(st), "paths", r["paths"], "%.1fs" % r["time"], {k: (round(v,1)) for k, v in r["stats"].items()})
    if r["why"]:
        print(r["why"])
    shown = 0
    for o in r["obls"]:
        if o.status != "discharged" and shown < int(os.environ.get("SHOW", "4")):
            shown += 1
            print("   ", o.status, o.name, o.how, o.exact, o.detail[:1500], "GOAL", str(o.goal)[:600])
            if os.environ.get("FACTS"):
                for f in o.facts: print("       ", f)
