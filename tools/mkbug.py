"""mkbug(id, property, needs, breaks, [(file, old, new)], demo): writes seeded/<id> from an edit of /repo, undoing it."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says
cd /opt/vp/py3/tree || exit 2
export PYTHONPATH=/opt/vp/py3/tree OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venvpp/bin/python "$(dirname "$(realpath "$0")")/demo.py"
'''


def mkbug(i, prop, needs, breaks, edits, demo):
    d = os.path.join(HERE, "seeded", i)
    os.makedirs(d, exist_ok=True)
    W = "/tmp/mkbug_repo"
    subprocess.run("rm -rf /tmp/mkbug_repo; git clone -q /repo /tmp/mkbug_repo", shell=True, check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(W, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /tmp/mkbug_repo diff", shell=True, stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run("rm -rf /tmp/mkbug_repo", shell=True)
    open(d + "/patch.diff", "wb").write(diff)
    s = DEMO.replace('cd /opt/vp/py3/tree || exit 2', 'here="$(dirname "$(realpath "$0")")"\ncd /opt/vp/py3/tree || exit 2')
    s = s.replace('"$(dirname "$(realpath "$0")")/demo.py"', '"$here/demo.py"')
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write("import numpy as N\n" + demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
