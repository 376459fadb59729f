"""Contracts, specification functions and the verification of one function."""
import os
import time
import z3
from .interp import *
from . import interp
from .calls import Full, Program, GenFactory
from .sym import *

interp.Engine = Full          # explore() builds the complete interpreter


class Registry:
    def __init__(self):
        self.active, self.active_new, self.schemas = {}, {}, {}
        self.loop_cands, self.measures, self.rfind_hooks, self.ext = [], [], [], {}

    def upper(self, E, name):
        return N + 2

    def __getattr__(self, n):
        if n.endswith("_hook"):
            return None
        raise AttributeError(n)


# ---------------------------------------------------------------- spec functions
SPECS = {}


class Spec:
    """Total mathematical function given by a recursive equation
        f(x) = body(E, x)
    where body may apply f to smaller arguments.  Unfolded once for every
    application the verifier creates.  `facts` are lemmas about it, proved by
    induction along the recursion (see prove_lemmas)."""

    def __init__(self, name, args, res, body, facts=None, measure=None):
        self.name, self.argsorts, self.res = name, args, res
        self.body, self.facts, self.measure = body, facts, measure
        self.f = uf(name, *(list(args) + [res]))
        SPECS[name] = self

    def __call__(self, E, *xs):
        xs = [z3.simplify(x) if z3.is_expr(x) else z3.IntVal(x) for x in xs]
        t = self.f(*xs)
        k = ("spec", t.get_id())
        if k not in E.known:
            E.known.add(k)
            E.keepalive.append(t)
            if self.facts:
                for g in self.facts(E, xs, t):
                    E.solver.add(g)
            if E.unfolding < E.maxfuel:
                E.unfolding += 1
                try:
                    b = self.body(E, *xs)
                finally:
                    E.unfolding -= 1
                E.solver.add(t == b)
            else:
                E.known.discard(k)
                E.known.add(k + ("facts",))
        return t

    def lemma_obligations(self, session):
        """induction step for every fact"""
        if not self.facts:
            return
        E = Full(session, [], [])
        xs = [z3.Const("x%d" % i, s) for i, s in enumerate(self.argsorts)]
        t = self.f(*xs)
        saved, self.facts = self.facts, None
        calls = []
        orig = Spec.__call__
        spec = self

        def patched(sp, E2, *ys):
            if sp is spec:
                ys = [z3.simplify(y) if z3.is_expr(y) else z3.IntVal(y) for y in ys]
                calls.append(ys)
                return spec.f(*ys)
            return orig(sp, E2, *ys)
        Spec.__call__ = patched
        try:
            b = self.body(E, *xs)
        finally:
            Spec.__call__ = orig
            self.facts = saved
        E.solver.add(t == b)
        for ys in calls:
            for g in saved(E, ys, self.f(*ys)):
                # induction hypothesis, for smaller arguments only
                m1, m0 = self.measure(E, *ys), self.measure(E, *xs)
                E.solver.add(z3.Implies(z3.And(m1 < m0, m0 >= 0), g))
        for i, g in enumerate(saved(E, xs, t)):
            E.prove(g, "lemma about %s #%d" % (self.name, i))


# ---------------------------------------------------------------- contracts
class Contract:
    key = None
    public = False
    unroll = 0
    no_termination = False
    may_raise = False       # raises something under its exceptional postcondition
    group = None            # recursion group: decreases must decrease inside it
    aspects = ()

    # --- to be overridden ------------------------------------------------
    def setup(self, E):
        """fresh inputs: (args, kwargs)"""
        raise NotImplementedError

    def pre(self, E, a):
        return []

    def old(self, E, a):
        return None

    def modifies(self, E, a):
        """objects whose state the function may change"""
        return []

    def havoc(self, E, a, o):
        pass

    def result(self, E, a, o):
        return None

    def post(self, E, a, o, r):
        return []

    def exc(self, E, a, o):
        """fresh exception object of an exceptional exit (call sites)"""
        raise NotImplementedError

    def havoc_exc(self, E, a, o):
        self.havoc(E, a, o)

    def post_exc(self, E, a, o, x):
        return []

    def raises_when(self, E, a, o):
        """None: unspecified; otherwise the exact condition"""
        return None

    def decreases(self, E, a):
        return None

    def loop_candidates(self, E, ctx):
        return []

    def loop_measures(self, E, ctx):
        return []

    # --- machinery -------------------------------------------------------
    def names(self, fn):
        a = fn.node.args
        return [x.arg for x in a.posonlyargs + a.args], a

    def bind(self, E, args, kw, fn):
        fr = Frame(fn.frame, fn.module, fn)
        E.bind_args(fn, args, kw, fr)
        return A(fr.vars)

    def apply(self, E, args, kw, fn):
        """a call: the function verified is another one, or another call of it"""
        v, E.verifying = E.verifying, None
        try:
            return self.apply_(E, args, kw, fn)
        finally:
            E.verifying = v

    def apply_(self, E, args, kw, fn):
        a = self.bind(E, args, kw, fn)
        for n, f in self.pre(E, a):
            E.prove(f, "requires of %s: %s" % (short(self.key), n))
        if self.group and E.contract is not None and E.contract.group == self.group:
            new, old = self.decreases(E, a), E.ghost["measure"]
            E.prove(lex(new, old), "recursion decreases at the call of %s" % short(self.key))
        o = self.old(E, a)
        if self.may_raise:
            w = self.raises_when(E, a, o)
            r = E.choose(2) == 1 if w is None else E.branch(w)
            if r:
                self.havoc_exc(E, a, o)
                x = self.exc(E, a, o)
                for n, f in self.post_exc(E, a, o, x):
                    E.add(f)
                if w is None and not E.feasible():
                    raise PathEnd()
                raise PyRaise(x)
        self.havoc(E, a, o)
        r = self.result(E, a, o)
        for n, f in self.post(E, a, o, r):
            E.add(f)
        return r

    def verify(self, E):
        E.contract = self
        E.verifying = self.key
        E.ghost["first"] = True
        f, args, kw = self.target(E)
        fn = f.func if isinstance(f, Bound) else f
        while isinstance(fn, (Wrapped, GenFactory)):
            fn = fn.func
        a = self.bind(E, ([f.self_] if isinstance(f, Bound) else []) + args, kw, fn)
        for n, g in self.pre(E, a):
            E.add(g)
        if not E.feasible():
            E.prove(False, "requires is satisfiable")
            return
        if self.group:
            E.ghost["measure"] = self.decreases(E, a)
        o = self.old(E, a)
        E.ghost["old"] = o
        E.ghost["args"] = a
        mod = self.modifies(E, a)
        old_objs = self.heap(E, a)
        E.oldobjs = dict(old_objs)
        E.oldroots = {x.term.get_id(): x.term for x in old_objs.values() if isinstance(x, Obj) and x.term is not None}
        E.s.reached += 1
        nw = len(E.writes)
        try:
            r = E.call(f, args, kw)
            if isinstance(r, GenCall):
                r = self.drive(E, r, a, o)
        except PyRaise as p:
            E.s.raised += 1
            if not self.may_raise:
                E.prove(False, "raises nothing", exc_text(p.exc))
                return
            w = self.raises_when(E, a, o)
            if w is not None:
                E.prove(w, "raises only when specified", exc_text(p.exc))
            for n, g in self.post_exc(E, a, o, p.exc):
                E.prove(g, "on exception: " + n, exc_text(p.exc))
            self.frame(E, mod, old_objs, nw)
            return
        E.s.returned += 1
        if self.may_raise:
            w = self.raises_when(E, a, o)
            if w is not None:
                E.prove(Not(w), "raises when specified")
        for n, g in self.post(E, a, o, r):
            E.prove(g, "ensures: " + n)
        self.frame(E, mod, old_objs, nw)

    def drive(self, E, gen, a, o):
        raise Unsupported("generator without a driver")

    def heap(self, E, a):
        out = {}
        todo = list(a.d.values())
        while todo:
            v = todo.pop()
            if not isinstance(v, (Obj, SList, SDict, SSet)) or id(v) in out:
                continue
            out[id(v)] = v
            if isinstance(v, Obj):
                todo += list(v.fields.values())
            elif isinstance(v, SDict):
                todo += [x for _, x in v.items]
            else:
                todo += v.items
        return out

    def frame(self, E, mod, old, nw):
        ws = [(ob, k) for ob, k in E.writes[nw:] if not isinstance(ob, Frame)]
        shared = E.shared() if ws else ()
        for ob, k in ws:
            if id(ob) in shared:
                E.prove(False, "frame: changes nothing that outlives the call", "%r.%s" % (ob, k))
                continue
            if not E.preexisting(ob):
                continue
            if not any(ob is m or (isinstance(m, tuple) and m[0] is ob and m[1] == k) for m in mod):
                E.prove(False, "frame: changes only what it may", "%r.%s" % (ob, k))

    def target(self, E):
        """the function to call and its arguments"""
        mod, _, qual = self.key.partition(":")
        m = E.module(mod)
        args, kw = self.setup(E)
        if "." in qual:
            cls, _, name = qual.rpartition(".")
            c = m.env[cls.split(".")[0]]
            for x in cls.split(".")[1:]:
                c = c.attrs[x]
            f, owner = c.lookup(name)
            if f is None or owner is not c:
                raise Missing(self.key)
            if isinstance(f, Wrapped):
                if f.kind == "staticmethod":
                    return f.func, args, kw
                return Bound(args[0], f.func, self.key), args[1:], kw
            return Bound(args[0], f, self.key), args[1:], kw
        if qual not in m.env:
            raise Missing(self.key)
        return m.env[qual], args, kw


class Missing(Exception):
    pass


class A:
    """bound arguments"""

    def __init__(self, d):
        self.d = d

    def __getattr__(self, n):
        try:
            return self.__dict__["d"][n]
        except KeyError:
            raise AttributeError(n)


def short(key):
    return key.rpartition(":")[2]


def lex(new, old):
    """new < old lexicographically, components bounded below"""
    r = False
    eq = True
    for x, y in zip(new, old):
        x, y = (v if z3.is_expr(v) else zi(v) for v in (x, y))
        r = Or(r, And(eq, x < y, y >= -4))
        eq = And(eq, x == y)
    return r


def exc_text(x):
    try:
        return "%s%r" % (x.cls.name if isinstance(x.cls, ClassVal) else getattr(x.cls, "__name__", x.cls), x.fields.get("args"))
    except Exception:
        return "?"


# ---------------------------------------------------------------- driver
def verify_one(program, contract, registry, opts=None, budget=120, debug=bool(__import__("os").environ.get("VERIF_DEBUG"))):
    """-> dict with obligations, failures, status"""
    t0 = time.time()
    s = Session(program, registry, opts)
    s.deadline = t0 + budget
    res = {"function": contract.key, "status": "ok", "obligations": 0, "failed": [], "detail": ""}
    try:
        paths = explore(s, contract.verify)
        res["paths"] = paths
    except Missing:
        res["status"] = "missing"
    except Unsupported as e:
        res["status"] = "unsupported"
        res["detail"] = str(e)
    except (PyRaise, RecursionError, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
        import traceback
        res["status"] = "unsupported"
        res["detail"] = "internal: " + traceback.format_exc()[-2500:] if debug else "internal: %s %s" % (type(e).__name__, str(e)[:200])
    res["time"] = round(time.time() - t0, 2)
    res["solver_time"] = round(s.stats["time"], 2)
    res["queries"] = s.stats["queries"]
    res["inlined"] = sorted(s.functions - {contract.key})
    res["used"] = sorted(s.used_contracts)
    if res["status"] == "ok":
        for n, (cnt, bad, info) in s.obl.items():
            res["obligations"] += cnt
            if bad:
                res["failed"].append({"function": contract.key, "name": n, "paths": bad, "info": info})
        if not s.returned and not s.raised:
            res["failed"].append({"function": contract.key, "name": "some path reaches an exit", "info": {}})
        if res["failed"]:
            res["status"] = "failed"
    return res
