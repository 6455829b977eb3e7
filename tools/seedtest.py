#!/usr/bin/env python3
"""seedtest.py [--nocheck] [--all] ID...: confirms planted bugs (builds, passes the tests, demo) and runs the check of their property against them."""
import json, os, subprocess, sys, time, shutil
from pathlib import Path
V = Path(__file__).resolve().parent.parent
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(p.name for p in (V / "seeded").iterdir())
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def demo(i):
    d = "/tmp/vp-demo-run"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(V / "seeded" / i, d)
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-600:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert not sh("git -C /repo status --porcelain -uno").stdout.strip()
try:
    if "--fast" not in sys.argv:
        assert sh("bash /opt/vp/build.sh").returncode == 0
        for i in ids:
            r, o = demo(i)
            if r: print(i, "DEMO FAILS ON THE UNCHANGED TREE", o)
    for i in ids:
        m = json.loads((V / "seeded" / i / "meta.json").read_text())
        a = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
        if a.returncode: print(i, "does not apply", a.stderr); continue
        try:
            res = []
            if "--fast" not in sys.argv:
                b = sh("bash /opt/vp/build.sh")
                if b.returncode: print(i, "DOES NOT BUILD", b.stdout[-1500:], b.stderr[-500:]); continue
                sh("bash /opt/vp/test.sh /tmp/vp-seed-t.json")
                lost = stable - set(json.load(open("/tmp/vp-seed-t.json"))["passed"])
                if lost: res.append("TESTS FAIL %d %s" % (len(lost), sorted(lost)[:3]))
                r, o = demo(i)
                if r == 0: res.append("DEMO PASSES WITH THE BUG")
                else: res.append("demo ok (%s)" % o.strip()[-150:])
            if "--nocheck" not in sys.argv:
                t = time.time()
                c = sh("python3 run.py %s" % m["property"], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                res.append("%s: %s %.0fs" % (m["property"], {0: "MISSED", 1: "caught"}.get(c.returncode, "BROKEN " + c.stdout[-800:]), time.time() - t))
            print(i, "|", " | ".join(res), flush=True)
        finally:
            sh("git -C /repo checkout -- .")
finally:
    sh("git -C /repo checkout -- .")
    sh("rm -f /verif/replay/*.json")
    if "--fast" not in sys.argv: sh("bash /opt/vp/build.sh")
