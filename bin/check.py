#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

1. engine/run.py (deductive verifier, z3) extracts the functions under contract
   from /repo's source and discharges every obligation.
2. oracle/run.py executes the real code on generated inputs: a bounded
   cross-check, and the search for a failing input when an obligation fails."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python"
RP = "/opt/venv/bin/python"


def run(cmd, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as e:
        return None, "timeout after %ss" % timeout, (e.stdout or b"")[-400:]
    try:
        return json.loads(p.stdout.strip().splitlines()[-1]), p.stderr[-1500:], p.stdout
    except (ValueError, IndexError):
        return None, p.stderr[-1500:], p.stdout


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/replays", exist_ok=True)
    man = {c["property"]: c for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]}
    level = man.get(prop, {}).get("level", "other")
    budget = 420 if tier == "quick" else 1800
    proof, perr, _ = run([VT, "-m", "engine.run", prop, "--tier", tier, "--budget", str(budget)], budget + 60)
    if proof is None:
        proof = {"status": "error", "detail": perr, "obligations": 0, "discharged": 0, "failed": [], "functions": [], "unsupported": [["engine", perr[-300:]]], "assumptions": [], "solver_time": 0}
    failed = proof["failed"]
    secs = (20 if tier == "quick" else 240) if not failed else (75 if tier == "quick" else 240)
    xc, xerr, _ = run([RP, "oracle/run.py", prop, "--seed", str(seed), "--secs", str(secs), "--tier", tier], secs + 150)
    if xc is None:
        # the code under test could not even be exercised
        xc = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [{"kind": "crash", "case": "", "message": "the cross-check could not run the code: " + xerr}], "wall": 0}
    known = []
    kf = HERE + "/known_findings.txt"
    for line in open(kf) if os.path.exists(kf) else ():
        line = line.strip()
        if line.startswith("KNOWN-FINDING: property=%s " % prop):
            known.append(line)
    viol = []
    for f in xc["failures"]:
        viol.append(dict(f, how="failing input on the real code"))
    for k in known:
        print(k)
    lines = []
    if viol or failed:
        path = "replays/%s.json" % prop
        json.dump({"property": prop, "case": viol[0] if viol else None, "failed_obligations": failed[:20],
                   "replay": "%s oracle/run.py %s --replay %s" % (RP, prop, path) if viol else "%s -m engine.run %s --verbose" % (VT, prop)},
                  open(os.path.join(HERE, path), "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path) + ("" if viol else " no-failing-input-found"))
    trusted = proof.get("trusted", [])
    cov = {
        "obligations": proof["obligations"], "discharged": proof["discharged"],
        "checker_cmd": "%s -m engine.run %s" % (VT, prop),
        "trusted_base": trusted or ["none: nothing proved on this run"],
        "functions_under_contract": proof["functions"],
        "functions_inlined_by_the_verifier": proof.get("inlined", []),
        "back_end": proof.get("backend", "z3"), "solver_time_s": proof.get("solver_time", 0), "solver_queries": proof.get("queries", 0),
        "failed_obligations": failed[:20],
        "not_verified_this_run": proof.get("unsupported", []),
        "bounded_cross_check": {"label": "bounded, not counted as proved", "evaluations": xc["evaluations"], "distinct": xc["distinct"], "wall_s": xc["wall"]},
        "evaluations": xc["evaluations"], "distinct_nontrivial": xc["distinct"],
        "rule": "inputs drawn by oracle/gen.py and oracle/rt.py (grammar-directed, mutated and exhaustive short texts; random bundles, arguments and call histories); distinct by their text or generator state",
        "samples": xc["samples"] or ["(none)"],
        "explanation": proof.get("explanation", "contracts discharged by the verifier where listed; every other part is decided only by the bounded cross-check"),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": proof.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged over %d functions under contract, solver %.1fs; cross-check %d cases; %.1fs"
          % (prop, proof["discharged"], proof["obligations"], len(proof["functions"]), proof.get("solver_time", 0), xc["evaluations"], time.time() - t0))
    for u in proof.get("unsupported", []):
        print("  not proved on this run (bounded cross-check only): %s: %s" % (u[0], str(u[1]).replace("\n", " ")[:200]))
    for f in failed[:10]:
        print("  failed obligation: %s / %s" % (f.get("function"), f.get("name")))
    for v in viol[:3]:
        print("  failing input: %r: %s" % (v["case"], str(v["message"])[:600]))
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)


if __name__ == "__main__":
    main()
