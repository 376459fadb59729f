#!/usr/bin/env python3
"""Mutation table: which property's obligations fail under which change.

usage: mutate.py FILE.py [name...]   (FILE defines M = [(name, path, old, new, props)])
Works on a scratch copy of /repo; only the deductive engine is run."""
import os, shutil, subprocess, sys, tempfile, json, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python"


def main():
    M = runpy.run_path(sys.argv[1])["M"]
    for name, path, old, new, props in M:
        if sys.argv[2:] and name not in sys.argv[2:]:
            continue
        d = tempfile.mkdtemp(prefix="mut")
        try:
            for x in os.listdir("/repo"):
                if x.startswith("fluent."):
                    shutil.copytree("/repo/" + x, d + "/" + x, ignore=shutil.ignore_patterns("tests", "build", "*.egg-info", "__pycache__"))
            p = os.path.join(d, path)
            s = open(p, encoding="utf-8").read()
            assert s.count(old) >= 1, (name, "not found")
            s = s.replace(old, new, 1)
            compile(s, p, "exec")
            open(p, "w", encoding="utf-8").write(s)
            res = []
            for q in props.split():
                neg = q.startswith("!")
                q = q.lstrip("!")
                r = subprocess.run([VT, "-m", "engine.run", q], cwd=HERE, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                try:
                    j = json.loads(r.stdout.strip().splitlines()[-1])
                    n = sorted({f["function"].rpartition(":")[2] + "/" + f["name"] for f in j["failed"]})
                    st = "CAUGHT" if n else "quiet"
                    un = [u[0] + ":" + str(u[1])[:80] for u in j["unsupported"]]
                except Exception:
                    st, n, un = "ERROR", [r.stderr[-300:]], []
                good = (st == "quiet") == neg
                res.append("%s %s%s %s %s" % (q, st, "" if good else "  <<<<<<", "; ".join(n)[:160], " | ".join(un)[:200]))
            print(name + ":", *res, sep="\n    ", flush=True)
        finally:
            shutil.rmtree(d)


main()
