"""Confirms a planted bug: tools/plant.py ID [--check].  Applies seeded/ID/patch.diff to /repo, builds, runs the
stable tests and the demo, undoes it, and runs the demo again on the unchanged tree."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(i):
    d = os.path.join(HERE, "seeded", i)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo not clean"
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = stable["stable"]
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "patch does not apply", r.stdout)
        return 1
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        res = json.load(open("/tmp/plant_out.json"))
        passed = set(res.get("passed", []))
        lost = [x for x in stable if x not in passed] if isinstance(stable, list) else "?"
        bad = sh("bash %s/demo.sh" % d, cwd="/repo")
        if "--check" in sys.argv:
            p = json.load(open(d + "/meta.json"))["property"]
            c = sh("python3-vt check.py " + p, cwd=HERE)
            print("  check:", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "holds" in l or "obligation" in l][:3])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    good = sh("bash %s/demo.sh" % d, cwd="/repo")
    print(i, "build", b.returncode, "lost", lost, "demo patched", bad.returncode, "unpatched", good.returncode)
    if b.returncode or lost or not bad.returncode or good.returncode:
        print(bad.stdout[-800:], good.stdout[-800:])
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(max([main(i) for i in sys.argv[1:] if not i.startswith("--")] or [0]))
