"""Bounded concrete cross-check of one property against /repo (labelled bounded;
never counted as proved).  Prints one JSON object."""
import argparse, faulthandler, glob, hashlib, json, os, random, sys, time, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
FILES = sorted(glob.glob(REPO + "/fluent.*/fluent/*/*.py"))
SYN = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C24"]
RT = ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"]
NEED_RNG = ("C09", "C11")


def syn_case(prop, s, rngseed):
    from oracle import syn
    f = getattr(syn, "chk_" + prop)
    return f(s, random.Random(rngseed)) if prop in NEED_RNG else f(s)


def c10_case(s):
    from oracle import syn
    return syn.chk_C10_num(s[1:]) if s[0] == "#" else syn.chk_C10_str(s[1:])


def rt_case(prop, seed):
    from oracle import rt
    g = rt.RG(seed, prop, FILES)
    x = getattr(rt, "chk_" + prop)(g)
    return x, g


def guarded(f, *a):
    try:
        return f(*a)
    except RecursionError:
        return None
    except Exception as e:
        return "the check itself raised " + traceback.format_exc()[-800:]


def minimise(fails, s, budget=4.0):
    """Greedy chunk removal keeping the failure."""
    t0 = time.time()
    n = max(1, len(s) // 2)
    while n >= 1 and time.time() - t0 < budget:
        i = 0
        changed = False
        while i < len(s) and time.time() - t0 < budget:
            t = s[:i] + s[i + n:]
            if fails(t):
                s = t
                changed = True
            else:
                i += n
        if not changed or n > len(s):
            n //= 2
    return s


class Hang(BaseException):
    pass


def alarm(sig, frm):
    raise Hang()


def worker(a):
    prop, seed, w, nw, secs, maxn, tier = a
    import signal
    signal.signal(signal.SIGALRM, alarm)
    import warnings
    warnings.simplefilter("ignore")
    t0 = time.time()
    seen = set()
    n = 0
    out = []
    samples = []

    def case_limit(f, *a):
        signal.alarm(25)
        try:
            return f(*a)
        except Hang:
            return "does not finish within 25 s"
        finally:
            signal.alarm(0)
    if prop in SYN:
        from oracle import gen, syn
        g = gen.G(seed * 7919 + w, FILES)
        exh = gen.exhaustive(2 if tier == "quick" else 3)
        import itertools
        mine = itertools.islice(exh, w, None, nw)
        every = {"C09": 40, "C11": 20}.get(prop, 2)
        k = 0
        while n < maxn and time.time() - t0 < secs:
            k += 1
            s = None
            if k % every == 0:
                s = next(mine, None)
            if s is None:
                s = g.source()
            n += 1
            h = hash(s)
            if h in seen:
                continue
            seen.add(h)
            rs = g.r.randrange(1 << 30)
            x = case_limit(guarded, syn_case, prop, s, rs)
            if len(samples) < 2 and len(s) < 200:
                samples.append(s)
            if x:
                m = s
                if "does not finish" not in x:
                    m = minimise(lambda t: case_limit(guarded, syn_case, prop, t, rs) is not None, s)
                    x = guarded(syn_case, prop, m, rs) or x
                out.append({"kind": "syntax", "case": m, "rng": rs, "message": x})
                break
    elif prop == "C10":
        from oracle import gen, syn
        g = gen.G(seed * 7919 + w, FILES)
        r = g.r
        hexd = "0123456789abcdefABCDEF"
        edges = [0, 1, 0x22, 0x5c, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffff] + g.ints
        cps = iter(range(w, 0x10000, nw))
        while n < maxn and time.time() - t0 < secs:
            n += 1
            v = ""
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                x = r.random()
                if x < 0.3:
                    cp = next(cps, None)
                    cp = r.randrange(0x10000) if cp is None else cp
                    v += "\\u%04x" % cp if r.random() < .5 else "\\u%04X" % cp
                elif x < 0.5:
                    cp = max(0, min(0xffffff, r.choice(edges) + r.choice([-1, 0, 0, 1]))) if r.random() < .6 else r.randrange(0x1000000)
                    v += "\\U%06x" % cp if r.random() < .5 else "\\U%06X" % cp
                elif x < 0.65:
                    v += r.choice(["\\\\", '\\"'])
                elif x < 0.8:
                    v += r.choice(["u0041", "U000041", "n", "a", " ", "{", "}", "é", "\u2028", "0", "F", "\t", "x"])
                else:
                    v += r.choice(hexd)
            if r.random() < 0.15:
                v = "#" + r.choice(["", "-"]) + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 5, 20, 60]))) + ("" if r.random() < .4 else "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 5, 30]))))
            else:
                v = "s" + v
            if v in seen:
                continue
            seen.add(v)
            if len(samples) < 3:
                samples.append(v)
            x = guarded(c10_case, v)
            if x:
                out.append({"kind": "literal", "case": v, "message": x})
                break
    else:
        while n < maxn and time.time() - t0 < secs:
            s = seed * 1000003 + n * nw + w
            n += 1
            r = case_limit(guarded, rt_case, prop, s)
            if isinstance(r, str):
                x = r
                g = None
            elif r is None:
                continue
            else:
                x, g = r
                seen.add(hash(g.r.getstate()))
            if len(samples) < 2:
                samples.append("generator seed %d" % s)
            if x:
                out.append({"kind": "runtime", "case": s, "message": x})
                break
    return {"n": n, "distinct": len(seen), "fail": out, "samples": samples}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", type=float, default=20)
    ap.add_argument("--maxn", type=int, default=10 ** 9)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--replay", help="JSON of one case")
    a = ap.parse_args()
    if a.replay:
        c = json.loads(open(a.replay).read())
        c = c.get("case", c)
        if c["kind"] == "syntax":
            x = guarded(syn_case, a.prop, c["case"], c["rng"])
        elif c["kind"] == "literal":
            x = guarded(c10_case, c["case"])
        else:
            r = guarded(rt_case, a.prop, c["case"])
            x = r if isinstance(r, str) or r is None else r[0]
        print("FAILS: " + x if x else "passes")
        sys.exit(1 if x else 0)
    t0 = time.time()
    ctx = mp.get_context("fork")
    with ctx.Pool(a.procs) as pool:
        res = pool.map(worker, [(a.prop, a.seed, w, a.procs, a.secs, a.maxn, a.tier) for w in range(a.procs)], chunksize=1)
    fails = [f for r in res for f in r["fail"]]
    real = [f for f in fails if "the check itself raised" not in f["message"]]
    fails = sorted(real, key=lambda f: len(str(f["case"]))) or fails
    print(json.dumps({"prop": a.prop, "evaluations": sum(r["n"] for r in res), "distinct": sum(r["distinct"] for r in res),
                      "samples": [s for r in res for s in r["samples"]][:4], "failures": fails[:3], "wall": round(time.time() - t0, 2)}))


if __name__ == "__main__":
    main()
