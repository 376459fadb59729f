"""Discharge the obligations of one property on /repo's current source.

usage: python -m engine.run PROP [--tier T] [--budget S] [--verbose]
The last line printed is a JSON summary."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import z3

sys.setrecursionlimit(20000)


def work(job):
    prop, name, drop, budget = job
    from engine.contract import Program, verify_one, Session, SPECS, Spec
    from contracts import index
    t0 = time.time()
    try:
        task = next(t for t in index.tasks(prop) if t.name == name)
        reg = task.registry()
        for d in drop:
            reg.active.pop(d, None)
            reg.active_new.pop(d, None)
        if task.lemma:
            s = Session(Program(), reg, task.opts)
            SPECS[task.lemma].lemma_obligations(s)
            bad = [{"function": name, "name": n, "info": o[2]} for n, o in s.obl.items() if o[1]]
            r = {"function": name, "status": "failed" if bad else "ok", "obligations": sum(o[0] for o in s.obl.values()), "failed": bad,
                 "detail": "", "solver_time": s.stats["time"], "queries": s.stats["queries"], "inlined": [], "used": [], "lemma": True}
        else:
            r = verify_one(Program(), task.contract, reg, task.opts, budget=min(budget, task.budget))
    except Exception as e:        # an engine error is never an alarm
        import traceback
        r = {"function": name, "status": "unsupported", "obligations": 0, "failed": [], "detail": "engine error: " + traceback.format_exc()[-600:],
             "solver_time": 0, "queries": 0, "inlined": [], "used": []}
    r["task"] = name
    r["wall"] = round(time.time() - t0, 1)
    r["bad"] = sum(f.get("paths", 1) for f in r["failed"])
    return r


def hard(r):
    """failed obligations the solver refuted (as opposed to gave up on)"""
    return [f for f in r["failed"] if (f.get("info") or {}).get("result") != "unknown"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=420)
    ap.add_argument("--verbose", action="store_true")
    o = ap.parse_args()
    t0 = time.time()
    end = t0 + o.budget
    from contracts import index
    tasks = index.tasks(o.prop)
    by = {t.name: t for t in tasks}
    results = {}
    ctx = mp.get_context("fork")
    pool = ctx.Pool(8, maxtasksperchild=1)

    def batch(jobs):
        its = [(j, pool.apply_async(work, (j,))) for j in jobs]
        for j, it in its:
            try:
                yield it.get(max(1, end - time.time()))
            except mp.TimeoutError:
                yield {"task": j[1], "function": j[1], "status": "unsupported", "obligations": 0, "failed": [], "detail": "time budget exhausted",
                       "solver_time": 0, "queries": 0, "inlined": [], "used": [], "wall": 0, "bad": 0}
    order = sorted(tasks, key=lambda t: -t.cost)
    for r in batch([(o.prop, t.name, (), max(10, end - time.time() - 30)) for t in order]):
        results[r["task"]] = r
        if o.verbose:
            print(r["task"], r["status"], r["obligations"], r["wall"], r["detail"][-300:], [(f["name"], (f.get("info") or {}).get("info")) for f in r["failed"]][:4])
    # A contract between internal functions that no longer holds (or whose
    # function is gone) is not a violation as such: verify the callers against
    # the body instead.
    replaced = {}
    for _ in range(3):
        broken = [n for n, r in results.items() if by[n].contract is not None and by[n].internal and n not in replaced
                  and (hard(r) or r["status"] in ("missing", "unsupported"))]
        if not broken or end - time.time() < 30:
            break
        drop = tuple(sorted({by[n].contract.key for n in list(replaced) + broken}))
        users = [t for t in tasks if t.name not in broken and t.name not in replaced and t.contract is not None
                 and set(results[t.name].get("used", ())) & set(drop)]
        if not users:
            break
        fresh = {r["task"]: r for r in batch([(o.prop, t.name, drop, max(10, min(100, end - time.time() - 20))) for t in users])}
        if all(r["status"] == "ok" for r in fresh.values()):
            for n in broken:
                replaced[n] = results[n]
                results[n] = dict(results[n], status="replaced", failed=[], obligations=0)
            results.update(fresh)
        else:
            break
    pool.terminate()
    out = {"status": "done", "obligations": 0, "discharged": 0, "failed": [], "functions": [], "unsupported": [], "inlined": [],
           "solver_time": 0.0, "queries": 0, "backend": "z3 " + z3.get_version_string()}
    inl = set()
    for n, r in results.items():
        out["obligations"] += r["obligations"]
        out["solver_time"] = round(out["solver_time"] + r["solver_time"], 2)
        out["queries"] += r["queries"]
        if r["status"] == "ok":
            out["discharged"] += r["obligations"]
            out["functions"].append("%s (%d obligations)" % (n, r["obligations"]))
            inl |= set(r["inlined"])
        elif r["status"] == "replaced":
            out["unsupported"].append([n, "its own contract no longer holds or it is gone; its callers were verified with its body instead"])
        elif r["status"] == "failed":
            h = hard(r)
            out["discharged"] += r["obligations"] - r["bad"]
            if h:
                out["failed"] += h
            else:
                out["unsupported"].append([n, "the solver gave up on: " + ", ".join(f["name"] for f in r["failed"])])
        else:
            out["unsupported"].append([n, r["status"] + ": " + r["detail"]])
    out["inlined"] = sorted(inl)
    out["trusted"] = index.COMMON_TRUST if out["discharged"] else []
    out["assumptions"] = index.assumptions(o.prop)
    if tasks and not out["obligations"]:
        out["unsupported"].append(["engine", "no obligation was generated"])
    print(json.dumps(out, default=str))


if __name__ == "__main__":
    main()
