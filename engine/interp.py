"""Symbolic interpreter: executes the AST of /repo's current source, path by
path, on symbolic values; loops through inferred invariants, calls through
contracts.  See DESIGN.md for the semantics and what is trusted."""
import ast
import os
import time
import z3
from .sym import *

REPO = os.environ.get("VERIF_REPO", "/repo")


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Unsupported(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class ClassVal:
    def __init__(self, name, bases, attrs, module, qual=None):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module
        self.qual = qual or name
        pb = tuple(b.py if isinstance(b, ClassVal) else b for b in bases if isinstance(b, (ClassVal, type)))
        pb = tuple(b for b in pb if b is not object) or (object,)
        try:
            self.py = type(name, pb, {"__hash__": object.__hash__})
        except TypeError:
            self.py = type(name, (object,), {})
        self.py._cv = self
        self.attrib = None      # attr.s fields
        for i, b in enumerate(self.mro()):
            pass

    @property
    def key(self):
        return self.module.name + ":" + self.qual

    def mro(self):
        out = []
        for c in self.py.__mro__:
            cv = c.__dict__.get("_cv")
            out.append(cv if cv is not None and cv.py is c else c)
        return out

    def lookup(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if not seen:
                seen = c is after
                continue
            if isinstance(c, ClassVal):
                if name in c.attrs:
                    return c.attrs[name], c
            elif name in c.__dict__ and c is not object:
                return BuiltinAttr(c, name), c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class BuiltinAttr:
    def __init__(self, cls, name):
        self.cls, self.name = cls, name


def pytype(c):
    return c.py if isinstance(c, ClassVal) else c


def issub(a, b):
    return issubclass(pytype(a), pytype(b))


class Module:
    def __init__(self, name, path):
        self.name, self.path, self.env = name, path, {}


class Ext:
    """something outside /repo, known by its path only"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path


class Frame:
    __slots__ = ("vars", "parent", "module", "func", "cls", "self_", "hook", "excs", "aliases")

    def __init__(self, parent, module, func=None):
        self.vars, self.parent, self.module, self.func = {}, parent, module, func
        self.cls = self.self_ = self.hook = None
        self.excs = []
        self.aliases = {}         # hidden index of a loop -> variable that is its index


class Func:
    def __init__(self, node, frame, module, key, defaults, kwdefaults, cls=None):
        self.node, self.frame, self.module, self.key = node, frame, module, key
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        self.name = getattr(node, "name", "<lambda>")

    def __repr__(self):
        return "<func %s>" % self.key


def own_nodes(fn):
    """nodes of a function body, not those of nested functions"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)
            else:
                yield c if isinstance(c, ast.Lambda) else c


class Bound:
    def __init__(self, self_, func, key=None):
        self.self_, self.func, self.key = self_, func, key


class Wrapped:
    """property / classmethod / staticmethod / contextmanager"""

    def __init__(self, kind, func):
        self.kind, self.func = kind, func


class Native:
    """builtin implemented by the engine: f(E, args, kwargs)"""

    def __init__(self, name, f):
        self.name, self.f = name, f


class Obj:
    """instance of a class; term: symbolic identity/value, fields created on demand"""
    __slots__ = ("cls", "fields", "term", "dirty", "oid", "cands", "tag", "__dict__")

    def __init__(self, cls, term=None, fields=None):
        self.cls, self.term, self.fields = cls, term, dict(fields or {})
        self.dirty = False
        self.oid = None
        self.cands = None

    def __repr__(self):
        return "<%s%s %s>" % (self.cls.name if isinstance(self.cls, ClassVal) else self.cls, "" if self.term is None else " %s" % self.term, list(self.fields))


class SList:
    def __init__(self, items=(), term=None, n=None, shape=None, kind="list"):
        self.term, self.n, self.shape, self.items, self.kind = term, n, shape, list(items), kind
        self.memo = {}
        self.seq = self.bound = None

    def __repr__(self):
        return "SList(%s..%s)" % (self.term, self.items)


class SDict:
    """base: None or term of a symbolic map; items: updates, later ones win"""

    def __init__(self, items=(), base=None, shape=None):
        self.items, self.base, self.shape = [list(x) for x in items], base, shape
        self.view_of = None

    def __repr__(self):
        return "SDict(%s,%s)" % (self.base, self.items)


class SSet:
    def __init__(self, items=(), base=None):
        self.items, self.base = list(items), base
        self.log = []


class StarArgs:
    """*l of a symbolic list in a call of an opaque function"""

    def __init__(self, l):
        self.l = l


class GenCall:
    """a call of a generator function, not started yet"""

    def __init__(self, func, args, kwargs, frame=None, genexp=None):
        self.func, self.args, self.kwargs, self.frame, self.genexp = func, args, kwargs, frame, genexp


DEL = object()
MISSING = object()


class LoopInfo:
    def __init__(self):
        self.mod = {}        # loc -> shape info
        self.dead = set()
        self.kinds = {}
        self.strmode = {}
        self.measures = None


class Session:
    """what persists between the paths of one function's verification"""

    def __init__(self, program, registry, opts=None):
        self.program, self.registry = program, registry
        self.opts = opts or {}
        self.loops = {}
        self.restart = False
        self.obl = {}          # name -> [count, failed, first failure info]
        self.stats = {"queries": 0, "time": 0.0, "paths": 0, "passes": 0}
        self.assumed = set()
        self.used_contracts = set()
        self.functions = set()
        self.deadline = None
        self.reached = 0
        self.returned = 0
        self.raised = 0

    def reset_pass(self):
        self.obl = {}
        self.restart = False
        self.stats["passes"] += 1
        self.reached = self.returned = self.raised = 0


def explore(session, run, max_paths=4000):
    """run(E) for every path, to a stable set of loop invariants"""
    for _ in range(60):
        session.reset_pass()
        work = [[]]
        n = 0
        try:
            while work:
                dec = work.pop()
                n += 1
                if n > max_paths:
                    raise Unsupported("more than %d paths" % max_paths)
                if session.deadline and time.time() > session.deadline:
                    raise Unsupported("time budget exhausted")
                e = globals()['Engine'](session, dec, work)
                try:
                    run(e)
                except PathEnd:
                    pass
                session.stats["paths"] += 1
        except Restart:
            continue
        if not session.restart:
            return n
    raise Unsupported("loop invariants do not stabilise")


class Engine:
    def __init__(self, session, decisions, work):
        self.s = session
        self.prog = session.program
        self.dec = decisions
        self.pos = 0
        self.work = work
        self.solver = z3.SolverFor("QF_UFLIA") if session.opts.get("qf") else z3.Solver()
        self.solver.set("timeout", session.opts.get("timeout", 4000))
        self.solver.add(z3.Distinct(TRUE, FALSE, NONE), llen(nil) == 0)
        self.cnt = 0
        self.known = set()
        self.unf = set()
        self.writes = []
        self.frames = []
        self.verifying = None
        self.depth = 0
        self.contract = None
        self.ghost = {}
        self.fuel = session.opts.get("fuel", 1)
        self.loop_stack = []
        self.tmpcache = {}
        self.trace = []
        self.keepalive = []
        self.unfolding = 0
        self.maxfuel = session.opts.get('maxfuel', 1)
        self.init_engine()

    def init_engine(self):
        pass

    # ---------------------------------------------------------------- logic
    def fresh(self, name, sort=I):
        self.cnt += 1
        return z3.Const("%s!%d" % (name, self.cnt), sort)

    def add(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.solver.add(f)

    assume = add

    def check(self, *fs):
        t = time.time()
        r = self.solver.check(*fs)
        self.s.stats["queries"] += 1
        dt = time.time() - t
        self.s.stats["time"] += dt
        if dt > 1 and os.environ.get("VERIF_DEBUG"):
            print("slow", round(dt, 1), r, self.where(), str(fs)[:300])
        return r

    def valid(self, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.check(z3.Not(f)) == z3.unsat

    def feasible(self, f=True):
        if f is False:
            return False
        return self.check(*([] if f is True else [f])) != z3.unsat

    def branch(self, c):
        """decide a condition; forks"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                self.work.append(self.dec + [False])
                d = True
            else:
                d = t
            self.dec = self.dec + [d]
        self.pos += 1
        self.solver.add(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """nondeterministic choice among n alternatives"""
        if n == 1:
            return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.work.append(self.dec + [k])
            d = 0
            self.dec = self.dec + [0]
        self.pos += 1
        return d

    oldobjs, oldroots = {}, {}

    def prove(self, f, name, info=""):
        keep = self.s.opts.get("keep")
        if keep is not None and not keep(name):
            # discharged by the check of another property
            if not isinstance(f, bool) and name.startswith("requires"):
                self.solver.add(f)
            return True
        o = self.s.obl.setdefault(name, [0, 0, None])
        o[0] += 1
        if isinstance(f, bool):
            ok = f
            r = "false"
        else:
            r = self.check(z3.Not(f))
            ok = r == z3.unsat
        if not ok:
            o[1] += 1
            if o[2] is None:
                m = ""
                if r == z3.sat:
                    try:
                        m = str(self.solver.model())[:1500]
                    except z3.Z3Exception:
                        pass
                o[2] = {"result": str(r), "formula": str(f)[:1500], "info": str(info)[:500], "model": m, "where": self.where()}
            if os.environ.get("VERIF_DEBUG"):
                print("FAIL", name, info, r, "at", self.where(), "::", str(f)[:700])
                if os.environ.get("VERIF_DEBUG") == "2":
                    print(self.solver.assertions())
                    print("trace", self.trace[-12:])
        if not isinstance(f, bool):
            self.solver.add(f)
        elif not f:
            raise PathEnd()
        return ok

    def where(self):
        return "%s:%s" % (self.frames[-1].func.key if self.frames and self.frames[-1].func else "?", getattr(self, "line", "?"))

    # ---------------------------------------------------------------- terms
    def litterm(self, s):
        t = lit(s)
        k = ("lit", s)
        if k not in self.known:
            self.known.add(k)
            self.solver.add(uf("litcode", U, I)(t) == list_index(s), ulen(t) == len(s))
        return t

    def norm(self, v):
        """canonical atom list of a string value"""
        out = []
        for a in parts(v):
            if isinstance(a, str):
                while a and out and isinstance(out[-1], Sl) and len(a) <= 4 and self.valid(z3.And(raw(out[-1].b) == ord(a[0]), out[-1].b < N)):
                    out[-1] = Sl(out[-1].a, z3.simplify(out[-1].b + 1))
                    a = a[1:]
                if not a:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += a
                else:
                    out.append(a)
                continue
            if isinstance(a, Ch):
                k = ival(a.c)
                if k is not None:
                    c = chr(k)
                    if out and isinstance(out[-1], str):
                        out[-1] += c
                    else:
                        out.append(c)
                    continue
                if out and isinstance(out[-1], Sl) and self.valid(z3.And(raw(out[-1].b) == a.c, out[-1].b < N)):
                    out[-1] = Sl(out[-1].a, z3.simplify(out[-1].b + 1))
                    continue
                p = char_pos(a.c)
                if p is not None and self.valid(z3.And(raw(p) == a.c, p >= 0, p < N)):
                    a = Sl(p, z3.simplify(p + 1))
            if isinstance(a, Sl):
                a0, b0 = z3.simplify(a.a), z3.simplify(a.b)
                if a0.eq(b0) or self.valid(a0 >= b0):
                    continue
                if out and isinstance(out[-1], Sl) and (out[-1].b.eq(a0) or self.valid(out[-1].b == a0)):
                    out[-1] = Sl(out[-1].a, b0)
                    continue
                while out and isinstance(out[-1], str) and len(out[-1]) <= 4 and self.valid(z3.And(a0 >= 1, raw(a0 - 1) == ord(out[-1][-1]), a0 <= N)):
                    # the literal is the text before the slice
                    a0 = z3.simplify(a0 - 1)
                    out[-1] = out[-1][:-1]
                    if not out[-1]:
                        out.pop()
                    if out and isinstance(out[-1], Sl) and self.valid(out[-1].b == a0):
                        a0 = out.pop().a
                a = Sl(a0, b0)
            if isinstance(a, Rep):
                k = ival(a.n)
                if k is not None:
                    if k <= 0:
                        continue
                    a = a.s * k
                    if out and isinstance(out[-1], str):
                        out[-1] += a
                    else:
                        out.append(a)
                    continue
                if out and isinstance(out[-1], Rep) and out[-1].s == a.s:
                    out[-1] = Rep(a.s, z3.simplify(out[-1].n + a.n))
                    continue
            out.append(a)
        # merge repetitions with literals of the same character
        res = []
        for a in out:
            if isinstance(a, str) and res and isinstance(res[-1], Rep):
                s = res[-1].s
                while a.startswith(s):
                    res[-1] = Rep(s, z3.simplify(res[-1].n + 1))
                    a = a[len(s):]
                if not a:
                    continue
            res.append(a)
        return res

    def atom_term(self, a):
        if isinstance(a, str):
            return self.litterm(a)
        if isinstance(a, Ch):
            t = chr_(a.c)
            self.once(("chr", a.c.get_id()), lambda: [ulen(t) == 1, uf("ord", U, I)(t) == a.c])
            return t
        if isinstance(a, Sl):
            t = sl(a.a, a.b)
            self.once(("sl", a.a.get_id(), a.b.get_id()), lambda: [z3.Implies(z3.And(a.a <= a.b), ulen(t) == a.b - a.a), z3.Implies(a.a >= a.b, t == self.litterm(""))])
            return t
        if isinstance(a, Op):
            self.once(("op", a.t.get_id()), lambda: [ulen(a.t) >= 0])
            return a.t
        if isinstance(a, Rep):
            t = uf("rep", U, I, U)(self.litterm(a.s), a.n)
            self.once(("rep", a.s, a.n.get_id()), lambda: [ulen(t) == a.n * len(a.s)])
            return t
        raise Unsupported("atom %r" % (a,))

    def once(self, k, fs):
        if k not in self.known:
            self.known.add(k)
            self.keep = getattr(self, "keep", [])
            for f in fs():
                self.keep.append(f)
                self.solver.add(f)

    def sterm(self, v):
        ps = self.norm(v)
        if not ps:
            return self.litterm("")
        t = self.atom_term(ps[0])
        for a in ps[1:]:
            u = self.atom_term(a)
            w = cat(t, u)
            self.once(("cat", w.get_id()), lambda: [ulen(w) == ulen(t) + ulen(u), z3.Implies(ulen(t) == 0, w == u), z3.Implies(ulen(u) == 0, w == t)])
            t = w
        return t

    def slen(self, v):
        n = z3.IntVal(0)
        for a in parts(v):
            if isinstance(a, str):
                n = n + len(a)
            elif isinstance(a, Ch):
                n = n + 1
            elif isinstance(a, Sl):
                n = n + z3.If(a.b >= a.a, a.b - a.a, z3.IntVal(0))
            elif isinstance(a, Rep):
                n = n + a.n * len(a.s)
            else:
                self.atom_term(a)
                n = n + ulen(a.t)
        return z3.simplify(n)

    def weq(self, v, w):
        if isinstance(v, str) and isinstance(w, str):
            return v == w
        a, b = self.norm(v), self.norm(w)

        def same(x, y):
            if isinstance(x, str) or isinstance(y, str):
                return isinstance(x, str) and isinstance(y, str) and x == y
            if isinstance(x, Op) and isinstance(y, Op):
                return x.t.eq(y.t)
            if isinstance(x, Sl) and isinstance(y, Sl):
                return x.a.eq(y.a) and x.b.eq(y.b) or self.valid(z3.And(x.a == y.a, x.b == y.b))
            if isinstance(x, Rep) and isinstance(y, Rep):
                return x.s == y.s and self.valid(x.n == y.n)
            if isinstance(x, Ch) and isinstance(y, Ch):
                return x.c.eq(y.c)
            return False
        while a and b:
            if same(a[0], b[0]):
                a, b = a[1:], b[1:]
                continue
            x, y = a[0], b[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                a = ([x[n:]] if x[n:] else []) + a[1:]
                b = ([y[n:]] if y[n:] else []) + b[1:]
                continue
            if isinstance(x, str) and isinstance(y, Ch):
                a, b, x, y = b, a, y, x
            if isinstance(x, Ch) and isinstance(y, str):
                rest = self.weq(SStr(*a[1:]), SStr(*(([y[1:]] if y[1:] else []) + b[1:])))
                return And(x.c == ord(y[0]), rest)
            if isinstance(x, Ch) and isinstance(y, Ch):
                return And(x.c == y.c, self.weq(SStr(*a[1:]), SStr(*b[1:])))
            if isinstance(y, Sl) and isinstance(x, (str, Ch)):
                a, b, x, y = b, a, y, x
            if isinstance(x, Sl) and isinstance(y, (str, Ch)):
                if len(a) == 1 or self.valid(x.b > x.a):
                    c = ord(y[0]) if isinstance(y, str) else y.c
                    rest = self.weq(SStr(Sl(z3.simplify(x.a + 1), x.b), *a[1:]), SStr(*(([y[1:]] if isinstance(y, str) and y[1:] else []) + b[1:])))
                    return And(x.b > x.a, raw(x.a) == c, rest)
            if isinstance(x, Sl) and isinstance(y, Sl) and self.valid(And(x.a == y.a, x.b > x.a, y.b > y.a)):
                # a common beginning
                if self.valid(x.b <= y.b):
                    return self.weq(SStr(*a[1:]), SStr(Sl(x.b, y.b), *b[1:]))
                if self.valid(y.b <= x.b):
                    return self.weq(SStr(Sl(y.b, x.b), *a[1:]), SStr(*b[1:]))
            break
        while a and b and same(a[-1], b[-1]):
            a, b = a[:-1], b[:-1]
        if not a and not b:
            return True
        if not a or not b:
            return z3.simplify(self.slen(SStr(*(a or b))) == 0)
        if all(isinstance(x, (str, Ch)) for x in a + b):
            la = sum(len(x) if isinstance(x, str) else 1 for x in a)
            lb = sum(len(x) if isinstance(x, str) else 1 for x in b)
            if la != lb:
                return False
        # a slice against a literal of known length: compare characters
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and isinstance(x[0], Sl) and len(y) == 1 and isinstance(y[0], str) and len(y[0]) <= 8:
                s, l = x[0], y[0]
                return And(s.b - s.a == len(l), *[raw(s.a + k) == ord(c) for k, c in enumerate(l)])
        ta, tb = self.sterm(SStr(*a)), self.sterm(SStr(*b))
        for x, y, t in ((a, b, ta), (b, a, tb)):
            # a part of a text against a literal: its characters
            if len(x) == 1 and isinstance(x[0], Op) and len(y) == 1 and isinstance(y[0], str) and len(y[0]) <= 8 and z3.is_app(t) and t.decl().name() == "substr":
                e = And(ulen(t) == len(y[0]), *[uf("charat", U, I, I)(t.arg(0), z3.simplify(t.arg(1) + k)) == ord(c) for k, c in enumerate(y[0])])
                self.add((ta == tb) == e)
        return ta == tb

    def term(self, v):
        """U term of any value"""
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, SBool):
            return z3.If(v.e, TRUE, FALSE)
        if isinstance(v, int):
            return boxi(z3.IntVal(v))
        if isinstance(v, SInt):
            return boxi(v.e)
        if is_strv(v):
            return self.sterm(v)
        if isinstance(v, OChar):
            k = ival(v.c)
            if k is not None:
                return self.litterm(chr(k)) if k >= 0 else NONE if k == -1 else FALSE
            if self.valid(v.c >= 0):
                return self.sterm(SStr(Ch(v.c)))
            return z3.If(v.c == -1, NONE, z3.If(v.c == -2, FALSE, chr_(v.c)))
        if isinstance(v, SVal):
            return v.t
        if isinstance(v, SList):
            return self.lterm(v)
        if isinstance(v, tuple):
            f = uf("tuple%d" % len(v), *([U] * len(v) + [U]))
            return f(*[self.term(x) for x in v])
        if isinstance(v, Obj):
            return self.oterm(v)
        if isinstance(v, (ClassVal, type)):
            return self.litterm("class " + (v.name if isinstance(v, ClassVal) else v.__name__))
        if isinstance(v, SDict):
            return self.dterm(v)
        if isinstance(v, SSet):
            return self.setterm(v)
        if isinstance(v, (float, bytes)):
            return self.litterm("const " + repr(v))
        if isinstance(v, Bound):
            return uf("bound", U, U, U)(self.term(v.self_), self.litterm(str(v.key)))
        if isinstance(v, (Func, Native, Ext)):
            return self.litterm("func " + str(getattr(v, "key", getattr(v, "name", getattr(v, "path", "")))))
        raise Unsupported("term of %r" % (v,))

    def setterm(self, v):
        size, mem, add = uf("setsize", U, I), uf("mem", U, U, B), uf("setadd", U, U, U)
        t = v.base if v.base is not None else z3.Const("emptyset", U)
        self.once(("set", t.get_id()), lambda: [size(t) == 0 if v.base is None else size(t) >= 0])
        for x in v.items:
            x = self.term(x)
            w = add(t, x)
            self.once(("setadd", w.get_id()), lambda: [size(w) == z3.If(mem(t, x), size(t), size(t) + 1), size(w) >= 1, mem(w, x)])
            t = w
        return t

    def dterm(self, d):
        if d.view_of is not None:
            return uf("vars", U, U)(self.term(d.view_of))
        t = d.base if d.base is not None else z3.Const("emptymap", U)
        for k, v in d.items:
            if v is DEL:
                t = uf("mapdel", U, U, U)(t, self.term(k))
            else:
                t = uf("mapset", U, U, U, U)(t, self.term(k), self.term(v))
        return t

    def mk_snoc(self, l, x):
        t = snoc(l, x)
        self.once(("snoc", t.get_id()), lambda: [llen(t) == llen(l) + 1, llen(l) >= 0, uf("last", U, U)(t) == x, uf("front", U, U)(t) == l])
        return t

    def lterm(self, l):
        if l.term is None:
            t = nil
            self.once(("nil",), lambda: [llen(nil) == 0])
        else:
            t = l.term
            self.once(("llen", t.get_id()), lambda: [llen(t) >= 0, z3.Implies(llen(t) == 0, t == nil)])
        for x in l.items:
            t = self.mk_snoc(t, self.term(x))
            if self.s.registry.snoc_hook:
                self.s.registry.snoc_hook(self, t, x)
        return t

    def llen(self, l):
        if l.term is None:
            return z3.IntVal(len(l.items))
        self.lterm(l)
        return z3.simplify(llen(l.term) + len(l.items))

    def schema(self, cls):
        for c in cls.mro() if isinstance(cls, ClassVal) else ():
            if isinstance(c, ClassVal) and c.key in self.s.registry.schemas:
                return self.s.registry.schemas[c.key]
        return None

    def mkname(self, cls):
        return cls.name if isinstance(cls, ClassVal) else cls.__name__

    def oterm(self, o):
        if o.term is not None and not o.dirty:
            return o.term
        if self.s.opts.get("identity") and o.oid is None:
            o.oid = self.fresh("obj_" + self.mkname(o.cls), U)
        if self.s.opts.get("identity"):
            return o.oid
        names = self.term_fields(o)
        ts = [self.term(self.getfield(o, n)) for n in names]
        cn = self.mkname(o.cls)
        f = uf("mk_%s_%s" % (cn, "_".join(names)), *([U] * len(ts) + [U]))
        t = f(*ts)

        def ax():
            out = [cls_of(t) == class_index(cn)]
            for n, x in zip(names, ts):
                out.append(uf("fld_" + n, U, U)(t) == x)
            return out
        self.once(("mk", t.get_id()), ax)
        for h in self.s.opts.get("mk_hooks", ()):
            h(self, t, o, names)
        return t

    def term_fields(self, o):
        sch = self.schema(o.cls)
        if sch is not None and o.term is not None:
            names = list(sch)
        else:
            names = list(o.fields)
        drop = self.s.opts.get("term_drop", ())
        return sorted(n for n in names if n not in drop)

    # ---------------------------------------------------------------- objects
    def newobj(self, cls, term=None, **fields):
        return Obj(cls, term, fields)

    def resolve_cls(self, o):
        """settle the class of an object with several candidates"""
        if o.cands:
            cs = o.cands
            if o.term is not None:
                i = 0
                while i < len(cs) - 1 and not self.branch(cls_of(o.term) == class_index(self.mkname(cs[i]))):
                    i += 1
                self.add(cls_of(o.term) == class_index(self.mkname(cs[i])))
            else:
                i = self.choose(len(cs))
            o.cls = cs[i]
            o.cands = None
            if not self.feasible():
                raise PathEnd()
        return o.cls

    def getfield(self, o, name):
        if name in o.fields:
            return o.fields[name]
        if o.term is not None:
            self.resolve_cls(o)
            sch = self.schema(o.cls)
            if sch is not None and name in sch and name not in o.__dict__.get("deleted", ()):
                # a dropped field is not a function of the term
                t = self.fresh("fld_" + name, U) if name in self.s.opts.get("term_drop", ()) else uf("fld_" + name, U, U)(o.term)
                v = sch[name](self, t, o)
                o.fields[name] = v
                if isinstance(v, Obj):
                    v.__dict__.setdefault("owner", (o, name))
                if isinstance(v, (Obj, SList, SDict, SSet)) and self.preexisting(o):
                    self.oldobjs[id(v)] = v
                return v
        return MISSING

    def preexisting(self, o):
        """an object the function under verification was given, not one it made"""
        if id(o) in self.oldobjs:
            return True
        if isinstance(o, Obj) and o.term is not None:
            t = o.term
            while z3.is_app(t) and t.num_args() and (t.decl().name().startswith("fld_") or t.decl().name() in ("nth", "mapget")):
                t = t.arg(0)
            return t.get_id() in self.oldroots
        return False

    def setfield(self, o, name, v):
        if o.term is not None and not o.dirty:
            # materialise the other fields first: the value is no longer the term's
            sch = self.schema(o.cls)
            if self.s.opts.get("identity") is None and sch:
                for n in sch:
                    if n != name:
                        self.getfield(o, n)
        self.logwrite(o, name)
        if "deleted" in o.__dict__:
            o.deleted = tuple(x for x in o.deleted if x != name)
        o.fields[name] = v
        if not (name in self.s.opts.get("term_drop", ()) or self.s.opts.get("identity")):
            o.dirty = True
            while "owner" in o.__dict__:        # what holds it is not the same tree any more
                p, k = o.owner
                if p.fields.get(k) is not o or k in self.s.opts.get("term_drop", ()):
                    break
                p.dirty = True
                o = p

    def logwrite(self, o, key):
        self.writes.append((o, key))

    def list_elem(self, l, i):
        """element at (z3) index i of the symbolic part"""
        i = z3.simplify(i)
        k = i.get_id()
        if k not in l.memo:
            t = uf("nth", U, I, U)(l.term, i)
            l.memo[k] = (i, l.shape(self, t) if l.shape else SVal(t))
        return l.memo[k][1]

    def unsnoc(self, l):
        """split the last element off the symbolic part (known to be non-empty)"""
        lt = self.fresh("front", U)
        xt = self.fresh("last", U)
        x = l.shape(self, xt) if l.shape else SVal(xt)
        st = self.mk_snoc(lt, self.term(x))
        self.add(l.term == st)
        if self.s.registry.snoc_hook:
            self.s.registry.snoc_hook(self, st, x)
        if self.s.registry.unsnoc_hook:
            self.s.registry.unsnoc_hook(self, l.term, x)
        l.term = lt
        l.items.insert(0, x)
        l.memo = {}


_lit_index = {}
_cls_index = {}


def list_index(s):
    return _lit_index.setdefault(s, len(_lit_index) + 1)


def class_index(n):
    return _cls_index.setdefault(n, len(_cls_index) + 1)


def char_pos(c):
    """position p when the code is an application raw(p) or CH(p)"""
    if z3.is_app(c) and c.num_args() == 1 and c.decl().name() in ("raw", "CH"):
        return c.arg(0)
    return None


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    return True if not xs else z3.And(*xs) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    return False if not xs else z3.Or(*xs) if len(xs) > 1 else xs[0]


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Eq(a, b):
    return a == b
