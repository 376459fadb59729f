"""Contracts of fluent.runtime.resolver: every class's __call__, resolve,
match, resolveEntryReference and the bundle's lookup."""
from .rt import *
from . import rt
from .stream import eqv


def lst(E, t):
    return E.lterm(SList((), t))


# ---------------------------------------------------------------- specification: resolve and match
def RS(E, v, er):
    """(text, errors) of a value put into a pattern"""
    f = kind(E, "FluentType", v)
    ok = FMTX(v) == NONE
    return If(f, If(ok, FMT(v), E.litterm("???")), v), If(z3.And(f, z3.Not(ok)), snoc(er, FMTX(v)), er)


def MATCH(E, ctx, a, b):
    """does the selector a match the key b (neither is None)"""
    o = uf("opt_type", U, U)(uf("options", U, U)(a))
    fluent = z3.Or(kind(E, "FluentInt", a), kind(E, "FluentFloat", a), kind(E, "FluentDecimal", a))
    pf = If(z3.And(fluent, o == E.litterm("ordinal")), ctx["ordinal"], ctx["plural"])
    eq = uf("pyeq", U, U, B)
    plural = z3.And(z3.Not(uf("plural_fails", U, U, B)(pf, a)), eq(uf("plural", U, U, U)(pf, a), b))
    strs = z3.Or(kind(E, "str", a), kind(E, "str", b))
    same = z3.And(eq(a, b), z3.Or(strs, z3.Not(uf("eq_fails", U, U, B)(a, b))))
    return z3.And(a != NONE, b != NONE, z3.Not(kind(E, "FluentNone", a)), z3.Not(kind(E, "FluentNone", b)),
                  If(num(E, a), If(num(E, b), same, plural), z3.And(z3.Not(num(E, b)), same)))


MT = uf("MATCH", U, U, U, U, B)      # MATCH, by name


def ctxterms(E, env):
    c = E.getfield(env, "context")
    return {"plural": E.term(E.getfield(c, "_plural_form")), "ordinal": E.term(E.getfield(c, "_ordinal_form")),
            "functions": E.term(E.getfield(c, "_functions")), "isolating": E.getfield(c, "use_isolating").e}


def nth(l, i):
    return uf("nth", U, I, U)(l, i)


# a fold over a list from index i on: texts or values (t), errors (e) and parts (p)
def fold(name, item):
    """item(E, x, s, w): what element x adds in the state s"""
    specs = {}

    def t(E, l, i, acc, ac, ar, fl):
        x = nth(l, i)
        return If(i >= llen(l), acc, specs["t"](E, l, i + 1, (joined_snoc if name == "PF" else Full.mk_snoc)(E, acc, item(E, x, (nil, IV(0), ac, ar, fl), "t")), ac, ar, fl))

    def e(E, l, i, er, ac, ar, fl):
        x = nth(l, i)
        return If(i >= llen(l), er, specs["e"](E, l, i + 1, item(E, x, (er, IV(0), ac, ar, fl), "e"), ac, ar, fl))

    def p(E, l, i, pc, ac, ar, fl):
        x = nth(l, i)
        return If(i >= llen(l), pc, specs["p"](E, l, i + 1, item(E, x, (nil, pc, ac, ar, fl), "p"), ac, ar, fl))
    specs["t"] = Spec(name + "t", [U, I, U, U, U, B], U, t)
    specs["e"] = Spec(name + "e", [U, I, U, U, U, B], U, e)
    specs["p"] = Spec(name + "p", [U, I, I, U, U, B], I, p)
    return {"t": lambda E, l, i, acc, er, pc, *s: specs["t"](E, l, i, acc, *s), "e": lambda E, l, i, acc, er, pc, *s: specs["e"](E, l, i, er, *s),
            "p": lambda E, l, i, acc, er, pc, *s: specs["p"](E, l, i, pc, *s)}


def _part(E, x, s, w):
    if w == "p":
        return EP(x, *s)
    return RS(E, EV(x, *s), EE(x, *s))[w == "e"]


def _arg(E, x, s, w):
    return {"t": EV, "e": EE, "p": EP}[w](x, *s)


PF = fold("PF", _part)      # the parts of a pattern


# the same as one text
def _pfj(E, l, i, acc, ac, ar, fl):
    return If(i >= llen(l), acc, PFJ(E, l, i + 1, cat2(E, acc, _part(E, nth(l, i), (nil, IV(0), ac, ar, fl), "t")), ac, ar, fl))


PFJ = Spec("PFJ", [U, I, U, U, U, B], U, _pfj)
SPECS["PFt"].facts = lambda E, a, t: [joined(E, t) == PFJ(E, a[0], a[1], joined(E, a[2]), *a[3:])]
SPECS["PFt"].measure = lambda E, l, i, *r: llen(l) - i
AF = fold("AF", _arg)       # positional arguments
# named arguments: later ones win
mapset = uf("mapset", U, U, U, U)
EMPTY = z3.Const("emptymap", U)
KF = Spec("KF", [U, I, U], U, lambda E, l, i, m: If(i >= llen(l), m, KF(E, l, i + 1, mapset(m, fld(fld(nth(l, i), "name"), "name"), PV(fld(nth(l, i), "value"))))))
# variants: index of the first match from i on, else the last default seen, else -1 (ctx: plural and ordinal rules)
FM = Spec("FM", [U, U, I, U, U], I, lambda E, l, k, i, pl, od: If(i >= llen(l), IV(-1), If(MT(k, PV(fld(nth(l, i), "key")), pl, od), i, FM(E, l, k, i + 1, pl, od))))
LASTDEF = Spec("LASTDEF", [U, I, I], I, lambda E, l, i, d: If(i >= llen(l), d, LASTDEF(E, l, i + 1, If(fld(nth(l, i), "default") == TRUE, i, d))))
FIRSTDEF = Spec("FIRSTDEF", [U, I], I, lambda E, l, i: If(i >= llen(l), IV(-1), If(fld(nth(l, i), "default") == TRUE, i, FIRSTDEF(E, l, i + 1))))
SFI = Spec("SFI", [U, U, I, I, U, U], I, lambda E, l, k, i, d, pl, od: If(i >= llen(l), d, If(
    MT(k, PV(fld(nth(l, i), "key")), pl, od), i,
    SFI(E, l, k, i + 1, If(fld(nth(l, i), "default") == TRUE, i, d), pl, od))),
    facts=lambda E, a, t: [z3.Implies(a[2] >= 0, t == If(FM(E, a[0], a[1], a[2], a[4], a[5]) >= 0, FM(E, a[0], a[1], a[2], a[4], a[5]), LASTDEF(E, a[0], a[2], a[3])))],
    measure=lambda E, l, k, i, d, pl, od: llen(l) - i)


# ---------------------------------------------------------------- contracts
def envset(E, env, er, pc):
    seterrors(E, env, er)
    E.setfield(env, "part_count", mki(z3.simplify(pc)))


class R(Contract):
    """__call__ of a resolver class"""
    cls = None
    group = "resolver"
    may_raise = True
    pure = False
    res = "any"         # str, strnone, any

    def __init__(self):
        self.key = "%s:%s.__call__" % (RM, self.cls)
        self.may_raise = not self.pure

    def setup(self, E):
        t = E.fresh("node", U)
        n = rnode(E, t, [self.cls])
        env = mkenv(E)
        return [n, env], {}

    def pre(self, E, a):
        return []

    def old(self, E, a):
        if a.env is None:
            return {"s": None, "n": E.term(a.self)}
        return {"s": state(E, a.env), "n": E.term(a.self), "c": ctxterms(E, a.env), "cur": E.getfield(a.env, "current"), "ac": E.getfield(a.env, "active_patterns")}

    def modifies(self, E, a):
        if self.pure or a.env is None:
            return []
        return [(E.getfield(a.env, "errors")), (a.env, "part_count"), E.getfield(a.env, "active_patterns"), (a.env, "current")]

    def decreases(self, E, a):
        n = E.term(a.self)
        ac = E.setterm(E.getfield(a.env, "active_patterns")) if a.env is not None else z3.Const("emptyset", U)
        return measure(E, n, ac, self.cls in PATTERN, 1)

    # specification: value, errors, parts
    def spec(self, E, a, o):
        raise NotImplementedError

    def havoc(self, E, a, o):
        if self.pure:
            return
        s = o["s"]
        envset(E, a.env, EE(o["n"], *s), EP(o["n"], *s))
        E.add(zi(E.getfield(a.env, "part_count")) >= s[1])

    def havoc_exc(self, E, a, o):
        raised(E)
        er = E.fresh("errors", U)
        seterrors(E, a.env, er)

    def exc(self, E, a, o):
        t = E.ghost["value error"] = E.fresh("valueerror", U)
        return Obj(ValueError, t)

    def post_exc(self, E, a, o, x):
        out = [("only a ValueError", isinstance(x, Obj) and x.cls is ValueError or isinstance(x.cls, type) and issubclass(x.cls, ValueError))]
        if E.verifying == self.key:
            out.append(("raises only for what is too large", True if E.ghost.get("callee raised") else self.toolarge(E, a, o)))
        return out

    def toolarge(self, E, a, o):
        return False

    def result(self, E, a, o):
        n = o["n"]
        t = PV(n) if self.pure else EV(n, *o["s"])
        kinds(E, t)
        if self.res == "str":
            E.add(isk["str"](t))
            E.atom_term(Op(t))
            return SStr(Op(t))
        if self.res == "number":
            E.add(isk["FluentNumber"](t))
        else:
            E.add(self.kindterm(t, n, o["s"]))
        return val(E, t)

    def kindterm(self, t, n, s):
        """the kind of the value t of node n in the state s"""
        if self.res == "number":
            return isk["FluentNumber"](t)
        if self.res == "str":
            return isk["str"](t)
        if self.res == "strnone":
            if self.cls in ("Pattern", "NeverIsolatingPlaceable"):
                return z3.Or(isk["str"](t), z3.And(isk["FluentNone"](t), uf("mem", U, U, B)(s[2], n)))
            return z3.Or(isk["str"](t), isk["FluentNone"](t))
        return z3.Or(isk["str"](t), isk["FluentType"](t))

    def post(self, E, a, o, r):
        n, s = o["n"], o["s"]
        if E.verifying != self.key:
            if self.pure and s is not None:
                # what EV, EE and EP are for these classes
                return [("value", EV(n, *s) == PV(n)), ("errors", EE(n, *s) == s[0]), ("parts", EP(n, *s) == s[1])]
            return []
        out = [("kind of the value", self.kindterm(vt(E, r), n, s))]
        v, er, pc = self.spec(E, a, o)
        rv = vt(E, r)
        if self.pure:
            return out + [("value", rv == v)]
        s2 = state(E, a.env)
        cases = self.cases(E, a, o)
        for name, cond in cases:
            out.append((name + "value", z3.Implies(cond, rv == v)))
            if name == "unresolved: ":
                # the last one: the reference's own
                out.append((name + "errors", z3.Implies(cond, uf("last", U, U)(s2[0]) == uf("last", U, U)(er))))
            else:
                out.append((name + "errors", z3.Implies(cond, s2[0] == er)))
        out.append(("parts", s2[1] == pc))
        out.append(("the number of parts only grows", s2[1] >= s[1]))
        out.append(("patterns being formatted as before", s2[2] == s[2]))
        out.append(("scope as before", And(s2[3] == s[3], s2[4] == s[4])))
        return out

    def cases(self, E, a, o):
        """the clauses are stated separately for these cases"""
        return [("", z3.BoolVal(True))]


def measure(E, n, ac, pattern, third):
    """(patterns left, depth of the node, third)"""
    E.once(("room", ac.get_id()), lambda: [room(ac) >= 0])
    t = ac
    while z3.is_app(t) and t.decl().name() == "setadd":
        u, x = t.arg(0), t.arg(1)
        E.once(("roomadd", t.get_id()), lambda: [z3.Implies(z3.Not(uf("mem", U, U, B)(u, x)), room(t) < room(u)), room(t) <= room(u), room(t) >= 0])
        t = u
    # parts of a node are less deep than the node
    x = n
    E.once(("depth", x.get_id()), lambda: [depth(x) >= 0])
    chain = x
    while z3.is_app(chain) and (chain.decl().name().startswith("fld_") or chain.decl().name() in ("nth", "mapget")):
        up = chain.arg(0)
        E.once(("depth<", chain.get_id()), lambda: [depth(chain) < depth(up), depth(chain) >= 0])
        chain = up
    return (room(ac), z3.IntVal(0) if pattern else depth(n) + 1, IV(third))


def fn(E, n, *fs):
    for f in fs:
        n = fld(n, f)
    return n


class TextElement(R):
    cls, pure, res = "TextElement", True, "str"

    def spec(self, E, a, o):
        return fn(E, o["n"], "value"), None, None


class StringLiteral(R):
    cls, pure, res = "StringLiteral", True, "str"

    def spec(self, E, a, o):
        return uf("unescaped", U, U)(fn(E, o["n"], "value")), None, None


class NumberLiteral(R):
    cls, pure, res = "NumberLiteral", True, "number"

    def spec(self, E, a, o):
        return fn(E, o["n"], "value"), None, None


class Identifier(R):
    cls, pure, res = "Identifier", True, "str"

    def spec(self, E, a, o):
        return fn(E, o["n"], "name"), None, None


class Loop(R):
    def loop_candidates(self, E, ctx):
        env = E.ghost["args"].d.get("env")
        if env is None:
            return []
        out = []
        o = E.ghost["old"]
        out.append(("scope", lambda c: And(*[x == y for x, y in zip(state(E, env)[2:], c.state0[2:])]) if hasattr(c, "state0") else True))
        out.append(("parts grow", lambda c: state(E, env)[1] >= o["s"][1]))
        fr = ctx.fr.vars
        idx = [n for n in fr if n.startswith("<i") and not n.endswith("seq")]
        for n in idx:
            out.append(("index %s" % n, lambda c, n=n: And(zi(c.fr.vars[n]) >= 0, zi(c.fr.vars[n]) <= E.llen(c.fr.vars[n + "seq"]))))
        accs = [n for n, v in fr.items() if isinstance(v, (SList, SDict)) and not n.endswith("seq") or is_strv(v) and n not in ("self", "env")]
        for n in idx[-1:]:
            for acc in accs:
                out += self.folds(E, ctx, env, n, acc)
        return out

    def folds(self, E, ctx, env, n, acc):
        return []


def same_as_entry(E, ctx, env, f):
    """f at the head of the loop has the value it had on entry"""
    goal = f(ctx)
    return lambda c: f(c) == goal


class Pattern(Loop):
    cls, res = "Pattern", "strnone"

    def limits(self, E, o):
        return llen(fld(o["n"], "elements")) <= MAX_PARTS - o["s"][1]

    def cases(self, E, a, o):
        c = uf("mem", U, U, B)(o["s"][2], o["n"])
        return [("cyclic reference: ", c), ("", z3.Not(c))]

    def toolarge(self, E, a, o):
        er, pc, ac, ar, fl = o["s"]
        return z3.And(z3.Not(uf("mem", U, U, B)(ac, o["n"])), z3.Not(self.limits(E, o)))

    def spec(self, E, a, o):
        n = o["n"]
        er, pc, ac, ar, fl = o["s"]
        cyc = uf("mem", U, U, B)(ac, n)
        l = fld(n, "elements")
        ac2 = E.setterm(SSet([SVal(n)], ac))
        args = (l, IV(0), nil, er, pc, ac2, ar, fl)
        t = uf("join", U, U, U)(E.litterm(""), PF["t"](E, *args))
        kinds(E, t)
        ce = E.mk_snoc(er, error(E, "FluentCyclicReferenceError", "Cyclic reference"))
        E.once(("joined", t.get_id()), lambda: [isk["str"](t)])
        return If(cyc, none_(E, None), t), If(cyc, ce, PF["e"](E, *args)), If(cyc, pc, PF["p"](E, *args) + llen(l))

    def post(self, E, a, o, r):
        out = R.post(self, E, a, o, r)
        if E.verifying == self.key:
            out.append(("not more parts than allowed", z3.Or(uf("mem", U, U, B)(o["s"][2], o["n"]), self.limits(E, o))))
        return out

    def folds(self, E, ctx, env, n, acc):
        out = []
        o = E.ghost["old"]
        if is_strv(ctx.fr.vars[acc]):
            def text(c):
                v = c.fr.vars[acc]
                if not is_strv(v):
                    raise KeyError
                s = state(E, env)
                l = fld(o["n"], "elements")
                er, pc, ac, ar, fl = o["s"]
                ac = E.setterm(SSet([SVal(o["n"])], ac))
                return PFJ(E, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), E.term(v), *s[2:]) == PFJ(E, l, IV(0), E.litterm(""), ac, ar, fl)
            out.append(("text %s" % acc, text))
        out.append(("one each %s" % acc, lambda c: E.llen(c.fr.vars[acc]) == zi(c.fr.vars[n]) if isinstance(c.fr.vars[acc], SList) else True))
        for w in "tep":
            def f(c, w=w):
                s = state(E, env)
                v = c.fr.vars[acc]
                if not isinstance(v, SList):
                    raise KeyError
                return PF[w](E, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), E.term(v), s[0], s[1], s[2], s[3], s[4])
            er, pc, ac, ar, fl = o["s"]

            def goal(w=w):
                return PF[w](E, fld(o["n"], "elements"), IV(0), nil, er, pc, E.setterm(SSet([SVal(o["n"])], ac)), ar, fl)
            out.append(("parts %s %s" % (w, acc), lambda c, f=f, goal=goal: f(c) == goal()))
        return out


class NeverIsolatingPlaceable(R):
    cls, res = "NeverIsolatingPlaceable", "strnone"

    def cases(self, E, a, o):
        c = uf("mem", U, U, B)(o["s"][2], o["n"])
        return [("cyclic reference: ", c), ("", z3.Not(c))]

    def toolarge(self, E, a, o):
        er, pc, ac, ar, fl = o["s"]
        return z3.And(z3.Not(uf("mem", U, U, B)(ac, o["n"])), pc >= MAX_PARTS)

    def spec(self, E, a, o):
        n = o["n"]
        er, pc, ac, ar, fl = o["s"]
        cyc = uf("mem", U, U, B)(ac, n)
        x = fld(n, "expression")
        s2 = (er, pc, E.setterm(SSet([SVal(n)], ac)), ar, fl)
        t, er2 = RS(E, EV(x, *s2), EE(x, *s2))
        ce = E.mk_snoc(er, error(E, "FluentCyclicReferenceError", "Cyclic reference"))
        return If(cyc, none_(E, None), t), If(cyc, ce, er2), If(cyc, pc, EP(x, *s2) + 1)

    def post(self, E, a, o, r):
        out = R.post(self, E, a, o, r)
        if E.verifying == self.key:
            out.append(("not more parts than allowed", z3.Or(uf("mem", U, U, B)(o["s"][2], o["n"]), o["s"][1] < MAX_PARTS)))
        return out


class Placeable(R):
    cls, res = "Placeable", "str"

    def spec(self, E, a, o):
        x = fld(o["n"], "expression")
        s = o["s"]
        t, er2 = RS(E, EV(x, *s), EE(x, *s))
        m = E.sterm(SStr("\u2068", Op(t), "\u2069"))
        return If(o["c"]["isolating"], m, t), er2, EP(x, *s)


def KW(E, n, s):
    """the arguments a term sees"""
    a = fld(n, "arguments")
    return If(a == NONE, EMPTY, KF(E, fld(a, "named"), IV(0), EMPTY))


def refid(E, n, term, attr):
    i = E.sterm(SStr(Op(fld(fld(n, "id"), "name"))))
    p = (["-"] if term else []) + [Op(fld(fld(n, "id"), "name"))] + ([".", Op(fld(fld(n, "attribute"), "name"))] if attr else [])
    return SStr(*p)


def REF(E, n, s, term):
    """value, errors, parts of a reference to an entry"""
    er, pc, ac, ar, fl = s
    name = fld(fld(n, "id"), "name")
    has = uf("entry_has", U, B, B)(name, z3.BoolVal(term))
    entry = uf("entry", U, B, U)(name, z3.BoolVal(term))
    at = fld(n, "attribute")

    def miss(attr):
        ref = refid(E, n, term, attr)
        txt = "Unknown attribute: " if attr else "Unknown term: " if term else "Unknown message: "
        return none_(E, SStr(*(("{",) + ref.p + ("}",)))), E.mk_snoc(er, error(E, "FluentReferenceError", txt, ref)), pc

    def nopat():
        ref = refid(E, n, term, False)
        return none_(E, ref), E.mk_snoc(er, error(E, "FluentReferenceError", "No pattern: ", ref)), pc
    attrs = fld(entry, "attributes")
    an = fld(at, "name")
    pat = If(at == NONE, fld(entry, "value"), uf("mapget", U, U, U)(attrs, an))
    ok = (EV(pat, *s), EE(pat, *s), EP(pat, *s))
    m0, m1, np = miss(False), miss(True), nopat()
    return [If(at == NONE, If(z3.Not(has), m0[i], If(fld(entry, "value") == NONE, np[i], ok[i])),
               If(z3.Or(z3.Not(has), z3.Not(uf("maphas", U, U, B)(attrs, an))), m1[i], ok[i])) for i in range(3)]


def missing(E, n, term):
    """the reference leads to no pattern"""
    name = fld(fld(n, "id"), "name")
    has = uf("entry_has", U, B, B)(name, z3.BoolVal(term))
    entry = uf("entry", U, B, U)(name, z3.BoolVal(term))
    at = fld(n, "attribute")
    return z3.Or(z3.Not(has), If(at == NONE, fld(entry, "value") == NONE, z3.Not(uf("maphas", U, U, B)(fld(entry, "attributes"), fld(at, "name")))))


class resolveEntryReference(R):
    cls = ""
    res = "strnone"

    def __init__(self):
        self.key = RM + ":resolveEntryReference"

    def setup(self, E):
        t = E.fresh("node", U)
        return [rnode(E, t, ["MessageReference", "TermReference"]), mkenv(E)], {}

    def old(self, E, a):
        o = {"s": state(E, a.env), "n": E.term(a.ref), "c": ctxterms(E, a.env)}
        return o

    def decreases(self, E, a):
        return measure(E, E.term(a.ref), E.setterm(E.getfield(a.env, "active_patterns")), False, 0)

    def isterm(self, E, a):
        c = E.resolve_cls(a.ref)
        return c.name == "TermReference"

    def spec(self, E, a, o):
        return REF(E, o["n"], o["s"], self.isterm(E, a))

    def havoc(self, E, a, o):
        o["spec"] = self.spec(E, a, o)
        envset(E, a.env, o["spec"][1], o["spec"][2])
        E.add(zi(E.getfield(a.env, "part_count")) >= o["s"][1])

    def result(self, E, a, o):
        t = o["spec"][0]
        kinds(E, t)
        E.add(z3.Or(isk["str"](t), isk["FluentNone"](t)))
        return val(E, t)


class MessageReference(R):
    cls, res = "MessageReference", "strnone"

    def spec(self, E, a, o):
        return REF(E, o["n"], o["s"], False)


class TermReference(Loop):
    cls, res = "TermReference", "strnone"

    def spec(self, E, a, o):
        n = o["n"]
        er, pc, ac, ar, fl = o["s"]
        args = fld(n, "arguments")
        pos = z3.And(args != NONE, llen(fld(args, "positional")) > 0)

        def ign(attr):
            return E.mk_snoc(er, error(E, "FluentFormatError", "Ignored positional arguments passed to term '", refid(E, n, True, attr), "'"))
        er2 = If(pos, If(fld(n, "attribute") == NONE, ign(False), ign(True)), er)
        return REF(E, n, (er2, pc, ac, KW(E, n, o["s"]), z3.BoolVal(False)), True)

    def cases(self, E, a, o):
        m = missing(E, o["n"], True)
        return [("unresolved: ", m), ("", z3.BoolVal(True))]

    def folds(self, E, ctx, env, n, acc):
        nd = E.ghost["old"]["n"]
        l = fld(fld(nd, "arguments"), "named")
        return [("named %s" % acc, lambda c: KF(E, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), E.dterm(c.fr.vars[acc])) == KF(E, l, IV(0), EMPTY))]


class VariableReference(R):
    cls = "VariableReference"

    def cases(self, E, a, o):
        er, pc, ac, ar, fl = o["s"]
        has = uf("maphas", U, U, B)(ar, fld(fld(o["n"], "id"), "name"))
        return [("argument given: ", has), ("missing in a message: ", z3.And(z3.Not(has), fl)), ("missing in a term: ", z3.And(z3.Not(has), z3.Not(fl)))]

    def spec(self, E, a, o):
        er, pc, ac, ar, fl = o["s"]
        name = fld(fld(o["n"], "id"), "name")
        has = uf("maphas", U, U, B)(ar, name)
        v = uf("mapget", U, U, U)(ar, name)
        kinds(E, v)
        known = z3.Or(isk["FluentType"](v), isk["str"](v))
        nm = SStr(Op(name))
        missing = If(fl, E.mk_snoc(er, error(E, "FluentReferenceError", "Unknown external: ", nm)), er)
        ty = SStr(Op(uf("str", U, U)(uf("type", U, U)(v))))
        te = Obj(TypeError)
        te.fields = {"args": (E.cat_all(["Unsupported external type: ", nm, ", ", ty]),)}
        bad = E.mk_snoc(er, E.term(te))
        fn_ = none_(E, nm)
        return If(has, If(known, v, fn_), fn_), If(has, If(known, er, bad), missing), pc


class FunctionReference(Loop):
    cls = "FunctionReference"

    def spec(self, E, a, o):
        n = o["n"]
        er, pc, ac, ar, fl = o["s"]
        ca = fld(n, "arguments")
        l = fld(ca, "positional")
        args = (l, IV(0), nil, er, pc, ac, ar, fl)
        pos, er2, pc2 = [AF[w](E, *args) for w in "tep"]
        kw = KF(E, fld(ca, "named"), IV(0), EMPTY)
        name = fld(fld(n, "id"), "name")
        fs = o["c"]["functions"]
        has = uf("maphas", U, U, B)(fs, name)
        f = uf("mapget", U, U, U)(fs, name)
        x = uf("FNX", U, U, U, U)(f, pos, kw)
        r = uf("FN", U, U, U, U)(f, pos, kw)
        nm = SStr(Op(name))
        fb = none_(E, SStr(Op(name), "()"))
        return If(z3.And(has, x == NONE), r, fb), If(has, If(x == NONE, er2, snoc(er2, x)), snoc(er2, error(E, "FluentReferenceError", "Unknown function: ", nm))), pc2

    def folds(self, E, ctx, env, n, acc):
        nd = E.ghost["old"]["n"]
        er, pc, ac, ar, fl = E.ghost["old"]["s"]
        out = []
        l = fld(fld(nd, "arguments"), "positional")
        for w in "tep":
            def f(c, w=w):
                s = state(E, env)
                if not isinstance(c.fr.vars[acc], SList):
                    raise KeyError
                return AF[w](E, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), E.term(c.fr.vars[acc]), *s)
            out.append(("positional %s %s" % (w, acc), lambda c, f=f, w=w: f(c) == AF[w](E, l, IV(0), nil, er, pc, ac, ar, fl)))
        k = fld(fld(nd, "arguments"), "named")
        out.append(("named %s" % acc, lambda c: KF(E, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), E.dterm(c.fr.vars[acc])) == KF(E, k, IV(0), EMPTY)))
        return out


class SelectExpression(Loop):
    cls, res = "SelectExpression", "strnone"

    def spec(self, E, a, o):
        n = o["n"]
        s = o["s"]
        er, pc, ac, ar, fl = s
        sel = fld(n, "selector")
        key, er2, pc2 = EV(sel, *s), EE(sel, *s), EP(sel, *s)
        l = fld(n, "variants")
        i = SFI(E, l, key, IV(0), IV(-1), o["c"]["plural"], o["c"]["ordinal"])
        # the parser gives one default variant (C05)
        E.add(z3.And(FIRSTDEF(E, l, IV(0)) == LASTDEF(E, l, IV(0), IV(-1)), FIRSTDEF(E, l, IV(0)) >= -1))
        s2 = (er2, pc2, ac, ar, fl)
        p = fld(nth(l, i), "value")
        nod = snoc(er2, error(E, "FluentFormatError", "No default"))
        return If(i < 0, none_(E, None), EV(p, *s2)), If(i < 0, nod, EE(p, *s2)), If(i < 0, pc2, EP(p, *s2))

    def loop_candidates(self, E, ctx):
        out = Loop.loop_candidates(self, E, ctx)
        env = E.ghost["args"].env
        o = E.ghost["old"]
        fr = ctx.fr.vars
        idx = [n for n in fr if n.startswith("<i") and not n.endswith("seq")]
        sel = fld(o["n"], "selector")
        key = EV(sel, *o["s"])
        l = fld(o["n"], "variants")
        goal = lambda: SFI(E, l, key, IV(0), IV(-1), o["c"]["plural"], o["c"]["ordinal"])
        objs = [n for n, v in fr.items() if v is None or isinstance(v, Obj) and n not in ("self", "env")]
        for n in idx:
            seq = lambda c, n=n: E.term(c.fr.vars[n + "seq"])
            at = lambda c, n=n: zi(c.fr.vars[n])
            out.append(("no match yet %s" % n, lambda c, seq=seq, at=at: FM(E, seq(c), key, at(c), o["c"]["plural"], o["c"]["ordinal"]) == FM(E, l, key, IV(0), o["c"]["plural"], o["c"]["ordinal"])))
            out.append(("no default yet %s" % n, lambda c, seq=seq, at=at: FIRSTDEF(E, seq(c), at(c)) == FIRSTDEF(E, l, IV(0))))
            for d in objs:
                def di(c, d=d):
                    """index of the variant held"""
                    v = c.fr.vars[d]
                    if v is None:
                        return IV(-1)
                    return E.ghost.setdefault("didx", {}).setdefault(str(E.term(v)), None)
                # the default seen so far is nth(l, j) for the index j the specification carries
                def f(c, n=n, d=d, own=True):
                    v = c.fr.vars[d]
                    j = variant_index(E, l, v)
                    return SFI(E, E.term(c.fr.vars[n + "seq"]) if own else l, key, zi(c.fr.vars[n]), j, o["c"]["plural"], o["c"]["ordinal"]) == goal()
                out.append(("first match %s" % d, f))
                out.append(("first match of the variants %s" % d, lambda c, f=f: f(c, own=False)))
                out.append(("held %s" % d, lambda c, d=d: holds(E, l, c.fr.vars[d])))
        return out


vidx = uf("variant_index", U, U, I)


def variant_index(E, l, v):
    if v is None:
        return IV(-1)
    t = E.term(v)
    if z3.is_app(t) and t.decl().name() == "nth" and t.arg(0).eq(l):
        return t.arg(1)
    return vidx(l, t)


def holds(E, l, v):
    """the variant is in the list, at the index the specification carries"""
    if v is None:
        return True
    t = E.term(v)
    j = variant_index(E, l, v)
    return And(j >= 0, nth(l, j) == t)


class resolve(R):
    cls, res = "", "str"
    group = None

    def __init__(self):
        self.key = RM + ":resolve"

    def setup(self, E):
        return [val(E, E.fresh("value", U)), mkenv(E)], {}

    def pre(self, E, a):
        t = vt(E, a.fluentish)
        return [("a string or a Fluent value", z3.Or(isk["str"](t), isk["FluentType"](t)))]

    def old(self, E, a):
        return {"s": state(E, a.env), "v": vt(E, a.fluentish), "n": vt(E, a.fluentish)}

    def modifies(self, E, a):
        return [E.getfield(a.env, "errors")]

    def raises_when(self, E, a, o):
        return z3.And(isk["str"](o["v"]), ulen(o["v"]) > MAX_LEN)

    def havoc(self, E, a, o):
        t, er = RS(E, o["v"], o["s"][0])
        seterrors(E, a.env, er)

    def havoc_exc(self, E, a, o):
        raised(E)

    def post_exc(self, E, a, o, x):
        return R.post_exc(self, E, a, o, x)[:1]

    def result(self, E, a, o):
        t, er = RS(E, o["v"], o["s"][0])
        E.once(("rsstr", t.get_id()), lambda: [isk["str"](t)])
        E.atom_term(Op(t))
        return SStr(Op(t))

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        t, er = RS(E, o["v"], o["s"][0])
        return [("a string", isk["str"](vt(E, r))), ("text", vt(E, r) == t), ("errors", state(E, a.env)[0] == er)]


class match(Contract):
    key = RM + ":match"

    def setup(self, E):
        return [val(E, E.fresh("val1", U)), val(E, E.fresh("val2", U)), mkenv(E)], {}

    def old(self, E, a):
        c = ctxterms(E, a.env)
        x, y = vt(E, a.val1), vt(E, a.val2)
        m = MT(x, y, c["plural"], c["ordinal"])
        if E.verifying == self.key:
            E.add(m == MATCH(E, c, x, y))
        return {"m": m}

    def pre(self, E, a):
        x, y = vt(E, a.val1), vt(E, a.val2)
        return [("values", And(z3.Or(isk["str"](x), isk["FluentType"](x)), z3.Or(isk["str"](y), isk["FluentNumber"](y))))]

    def result(self, E, a, o):
        return SBool(o["m"])

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        return [("a truth value", isinstance(r, (bool, SBool))), ("matches when specified", (zi_bool(r)) == o["m"])]


def zi_bool(r):
    return r.e if isinstance(r, SBool) else z3.BoolVal(r) if isinstance(r, bool) else z3.BoolVal(False)


class lookup(Contract):
    """the compiled entry of an id: a function of the id while nothing is added"""
    key = BM + ":FluentBundle._lookup"
    may_raise = True

    def raises_when(self, E, a, o):
        return z3.Not(uf("entry_has", U, B, B)(E.term(a.entry_id), zi_bool(a.term)))

    def exc(self, E, a, o):
        return Obj(KeyError, E.fresh("keyerror", U))

    def havoc_exc(self, E, a, o):
        pass

    def result(self, E, a, o):
        t = uf("entry", U, B, U)(E.term(a.entry_id), z3.simplify(zi_bool(a.term)))
        return rnode(E, t, ["Message", "Term"])


class literal_parse(Contract):
    """StringLiteral.parse: the text with its escapes replaced (C10)"""
    key = "fluent.syntax.ast:StringLiteral.parse"

    def result(self, E, a, o):
        v = E.getfield(a.self, "value")
        t = uf("unescaped", U, U)(E.term(v))
        E.atom_term(Op(t))
        E.once(("unescaped", t.get_id()), lambda: [isk["str"](t)])
        return SDict([["value", SStr(Op(t))]])


CLASSES = [TextElement(), StringLiteral(), NumberLiteral(), Identifier(), Pattern(), NeverIsolatingPlaceable(), Placeable(),
           MessageReference(), TermReference(), VariableReference(), FunctionReference(), SelectExpression()]
FUNCS = [resolveEntryReference(), resolve(), match()]
RESOLVER = CLASSES + FUNCS


class AnyNode(R):
    """a node whose class is one of several, all under contract: what their contracts have in common"""

    def __init__(self, term, cs):
        self.key, self.term, self.cs = RM + ":BaseResolver.__call__", term, cs

    def modifies(self, E, a):
        return []

    def decreases(self, E, a):
        n = E.term(a.self)
        ac = E.setterm(E.getfield(a.env, "active_patterns"))
        ms = [measure(E, n, ac, c.cls in PATTERN, 1) for c in self.cs]
        r = ms[-1]
        for c, m in list(zip(self.cs, ms))[:-1]:
            k = self.isclass(c)
            r = tuple(If(k, x, y) for x, y in zip(m, r))
        return r

    def isclass(self, c):
        return cls_of(self.term) == class_index(c.cls)

    def old(self, E, a):
        return {"s": state(E, a.env), "n": E.term(a.self)}

    def havoc(self, E, a, o):
        s, n = o["s"], o["n"]
        if not all(c.pure for c in self.cs):
            R.havoc(self, E, a, o)
        for c in self.cs:
            if c.pure:
                E.add(z3.Implies(self.isclass(c), z3.And(EV(n, *s) == PV(n), EE(n, *s) == s[0], EP(n, *s) == s[1])))

    def result(self, E, a, o):
        t = EV(o["n"], *o["s"])
        kinds(E, t)
        for c in self.cs:
            E.add(z3.Implies(self.isclass(c), c.kindterm(t, o["n"], o["s"])))
        return val(E, t)


def dispatch_hook(E, f, args, kw):
    cs = []
    for k in f.cands:
        g, owner = k.lookup("__call__") if isinstance(k, ClassVal) else (None, None)
        c = E.s.registry.active.get("%s.__call__" % k.key) if owner is k else None
        if not isinstance(c, R) or f.term is None or kw or len(args) != 1 or not isinstance(args[0], Obj):
            return None
        cs.append(c)
    for c in cs:
        E.s.used_contracts.add(c.key)
    any_ = AnyNode(f.term, cs)
    a = A({"self": f, "env": args[0]})
    if E.contract is not None and E.contract.group == "resolver":
        E.prove(lex(any_.decreases(E, a), E.ghost["measure"]), "recursion decreases at a node's call")
    o = any_.old(E, a)
    if not all(c.pure for c in cs) and E.choose(2) == 1:
        any_.havoc_exc(E, a, o)
        raise PyRaise(any_.exc(E, a, o))
    any_.havoc(E, a, o)
    return [any_.result(E, a, o)]


def registry(reg=None):
    reg = reg or Registry()
    for c in RESOLVER + [lookup(), literal_parse()]:
        reg.active[c.key] = c
    rt.install(reg)
    reg.dispatch_hook = dispatch_hook
    return reg


# ---------------------------------------------------------------- which clauses decide which property
REFS = ("MessageReference", "resolveEntryReference", "FunctionReference", "resolve")


def clauses(prop, name):
    """predicate on obligation names: those the property rests on, for one function"""
    n = name
    def keep(ob):
        if ob.startswith(("requires is", "some path")):
            return True
        post = ob.partition("ensures: ")[2]
        if n == "FluentBundle.format_pattern":
            return {"C12": post.startswith("a ") or ob.startswith("raises"), "C14": post.startswith("too large"), "C20": post == "value",
                    "C22": post in ("value", "errors") or ob.startswith("frame")}.get(prop, post in ("value", "errors"))
        if prop == "C12":
            return ob.startswith("requires") or "only a ValueError" in ob or "raises nothing" in ob or post in ("kind of the value", "a string")
        if prop == "C13":
            if n in REFS + ("VariableReference",):
                return post in ("value", "errors", "text", "argument given: value", "argument given: errors", "missing in a message: value", "missing in a message: errors")
            if n == "TermReference":
                return post.startswith("unresolved: ")
            if n in ("Pattern", "NeverIsolatingPlaceable", "TextElement", "StringLiteral", "NumberLiteral", "Identifier"):
                return post in ("value", "errors")
            return n in ("Placeable", "SelectExpression") and post == "errors"
        if prop == "C14":
            return "decreases" in ob or "too large" in ob or "loop terminates" in ob or post in ("parts", "the number of parts only grows", "patterns being formatted as before", "not more parts than allowed") \
                or post.startswith("cyclic reference: ") or ob in ("raises when specified", "raises only when specified")
        if prop == "C15":
            return n in ("Pattern", "NeverIsolatingPlaceable", "Placeable", "TextElement", "StringLiteral", "resolve") and post in ("value", "text")
        if prop == "C16":
            return n == "match" and post != "" or n in ("SelectExpression", "Identifier", "NumberLiteral") and post == "value"
        if prop == "C20":
            return post == "scope as before" or n == "TermReference" and post in ("value", "errors") or \
                n == "VariableReference" and post.startswith(("missing in a term: ", "argument given: "))
        if prop == "C22":
            return ob.startswith("frame")
        return True
    return keep
