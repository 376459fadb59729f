"""Builds and confirms the planted bugs described in tools/seedspec.py.
usage: seed.py [id ...]   (development tool; no check uses it)"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.seedspec import SEEDS
REPO = "/repo"


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git", "-C", REPO, "checkout", "--", ".")


want = sys.argv[1:]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")))) if False else None
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    d = "%s/seeded/%s" % (HERE, s["id"])
    if not want and os.path.exists(d + "/patch.diff"):
        continue
    clean()
    ok = True
    try:
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -I "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash", d + "/demo.sh", cwd=REPO)
        if r0.returncode:
            print(s["id"], "demo fails on the unchanged tree:", r0.stdout[-600:]); ok = False
        for f, old, new in s["edits"]:
            p = REPO + "/" + f
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                print(s["id"], "edit text occurs %d times in %s" % (t.count(old), f)); ok = False; break
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        if ok:
            diff = sh("git", "-C", REPO, "diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            r1 = sh("bash", d + "/demo.sh", cwd=REPO)
            if not r1.returncode:
                print(s["id"], "demo passes with the patch"); ok = False
            t = sh("bash", "/opt/vp/test.sh", "/tmp/seedtest.json", cwd=REPO)
            bad = [l for l in t.stdout.splitlines() if l.startswith("FAILED") or l.startswith("ERROR")]
            if bad:
                print(s["id"], "existing tests fail:", bad[:3]); ok = False
        if ok:
            print(s["id"], "ok:", r1.stdout.strip().splitlines()[-1:] )
        else:
            sh("rm", "-rf", d)
    finally:
        clean()
