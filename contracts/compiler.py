"""Contracts of fluent.runtime.prepare.Compiler and of the constructors of the
compiled tree: the compiled form of every syntax node.

COMP(t) is the compiled form of node t, CL(l) of a list.  compile's
postcondition is the equation of COMP, class by class."""
from .rt import *
from . import rt, astschema, resolver as RS_
from .astschema import AST, AST_SCHEMAS, node
from .bundle import COMP, nth

PM = "fluent.runtime.prepare"
OTHER = ["Resource", "Comment", "GroupComment", "ResourceComment", "Junk", "Span", "Annotation"]
# classes of the compiled form
FORMS = {n: [n] for n in AST_SCHEMAS if n not in OTHER}
FORMS["Pattern"] = PATTERN
FORMS["Placeable"] = ["Placeable", "StringLiteral"]
LIT = ("StringLiteral", "TextElement")
PAT_ELEMS = ["TextElement", "StringLiteral", "Placeable"]
COMPILED = dict(rt.SCHEMAS)
COMPILED["Attribute"] = dict(id=RN("Identifier"), value=RN(*PATTERN))

CMP = Spec("CMP", [U, I, U], U, lambda E, l, i, acc: If(i >= llen(l), acc, CMP(E, l, i + 1, E.mk_snoc(acc, COMPX(nth(l, i))))))
mapset = uf("mapset", U, U, U, U)
EMPTY = z3.Const("emptymap", U)
# id -> value of a list of attributes; the last of a name counts
AM = Spec("AM", [U, I, U], U, lambda E, l, i, m: If(i >= llen(l), m, AM(E, l, i + 1, mapset(m, fld(fld(nth(l, i), "id"), "name"), fld(nth(l, i), "value")))))
ALLLIT = Spec("ALLLIT", [U, I], B, lambda E, l, i: z3.Or(i >= llen(l), z3.And(is_(nth(l, i), *LIT), ALLLIT(E, l, i + 1))))
TEXTS = Spec("TEXTS", [U, I, U], U, lambda E, l, i, acc: If(i >= llen(l), acc, TEXTS(E, l, i + 1, joined_snoc(E, acc, PV(nth(l, i))))),
             facts=lambda E, a, t: [joined(E, t) == TEXTJ(E, a[0], a[1], joined(E, a[2]))],
             measure=lambda E, l, i, acc: llen(l) - i)
# the same as one text
TEXTJ = Spec("TEXTJ", [U, I, U], U, lambda E, l, i, acc: If(i >= llen(l), acc, TEXTJ(E, l, i + 1, cat2(E, acc, PV(nth(l, i))))))


def If(c, a, b):
    return z3.If(c, a, b)


def COMPX(t):
    """of an element of a list: a node compiled into another one, or left alone"""
    return If(is_(t, *OTHER), t, COMP(t))


def CL(E, l):
    return CMP(E, l, IV(0), nil)


def cmk(E, cls, **f):
    """term of a node of the compiled tree"""
    o = Obj(rcls(E, cls))
    o.fields = f
    return E.oterm(o)


def V(t):
    return SVal(t)


def flt(E, cls, t):
    r = uf(cls, U, U)(t)
    kinds(E, r)
    E.once(("flt", r.get_id()), lambda: [isk["FluentNumber"](r), isk[cls](r), z3.Not(isk["FluentNone"](r))])
    return r


def numlit(E, v):
    """value of a number literal: whole, or with digits after a point"""
    return If(E.contains(SStr(Op(v)), ".") if hasattr(E, "contains") else uf("contains", U, U, B)(v, E.litterm(".")), flt(E, "FluentFloat", v), flt(E, "FluentInt", v))


def anymap(l):
    return lambda E: AM(E, l, IV(0), EMPTY)


def form(E, n, f):
    """the compiled form of a node of class n whose compiled fields are f"""
    if n in ("Message", "Term"):
        return cmk(E, n, id=V(f["id"]), value=V(f["value"]), attributes=V(AM(E, f["attributes"], IV(0), EMPTY)))
    if n == "NumberLiteral":
        return cmk(E, n, value=V(numlit(E, f["value"])))
    if n == "Placeable":
        x = f["expression"]
        return If(is_(x, *LIT), x, cmk(E, n, expression=V(x)))
    if n == "Pattern":
        return pattern(E, f["elements"])
    return cmk(E, n, **{k: V(t) for k, t in f.items()})


def pattern(E, l):
    x = nth(l, IV(0))
    one = llen(l) == 1
    ALLLIT(E, l, IV(1))
    joined = uf("join", U, U, U)(E.litterm(""), TEXTS(E, l, IV(0), nil))
    return If(z3.And(one, is_(x, "Placeable")), cmk(E, "NeverIsolatingPlaceable", expression=V(fld(x, "expression"))),
              If(z3.Not(ALLLIT(E, l, IV(0))), cmk(E, "Pattern", elements=V(l)), If(one, x, cmk(E, "TextElement", value=V(joined)))))


def citem(E, v):
    """the compiled form of what a field holds, as a term"""
    if isinstance(v, Obj):
        t = E.term(v)
        return t if clsname(E, v) in OTHER else COMP(t)
    if isinstance(v, SList):
        return CL(E, E.term(v))
    return E.term(v)


def clsname(E, o):
    return E.mkname(E.resolve_cls(o))


# ---------------------------------------------------------------- depth of the syntax tree
def deeper(E, o, name, f):
    """schema entry: what a field holds is less deep than the node"""
    def g(E, t, o):
        v = f(E, t, o)
        if isinstance(v, (Obj, SList)) and o is not None and o.term is not None:
            E.once(("deep", t.get_id()), lambda: [depth(t) >= 0, depth(t) < depth(o.term)])
        if isinstance(v, SList) and v.shape:
            sh = v.shape

            def shape(E, x):
                E.once(("deep", x.get_id(), t.get_id()), lambda: [depth(x) >= 0, depth(x) < depth(t)])
                return sh(E, x)
            v.shape = shape
        return v
    return g


def fieldorder(n):
    """span is set first (SyntaxNode.__init__)"""
    s = AST_SCHEMAS[n]
    return (["span"] if "span" in s else []) + [k for k in s if k != "span"]


# ---------------------------------------------------------------- contracts
class C(Contract):
    group = "compiler"

    def me(self, E):
        c = Obj(E.module(PM).env["Compiler"])
        return c


class compile_(C):
    key = PM + ":Compiler.compile"

    def setup(self, E):
        names = list(AST_SCHEMAS)
        n = E.s.opts.get("cls") or names[E.choose(len(names))]
        t = E.fresh("node", U)
        E.add(depth(t) >= 0)
        return [self.me(E), node(E, t, [n])], {}

    def decreases(self, E, a):
        return (depth(E.term(a.node)), IV(0))

    def old(self, E, a):
        n = clsname(E, a.node)
        E.ghost["depth0"] = depth(E.term(a.node))
        f = {}
        if E.verifying == self.key and n not in OTHER:
            f = {k: citem(E, E.getfield(a.node, k)) for k in AST_SCHEMAS[n] if k != "span"}
        return {"n": n, "t": E.term(a.node), "f": f}

    def result(self, E, a, o):
        if o["n"] in OTHER:
            return a.node
        return rnode(E, COMP(o["t"]), FORMS[o["n"]])

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        if o["n"] in OTHER:
            return [("left alone", r is a.node)]
        out = [("class of the compiled node", isinstance(r, Obj) and r is not a.node and self.classes(E, r, o["n"]))]
        out.append(("compiled form of a %s" % o["n"], E.term(r) == form(E, o["n"], o["f"])))
        return out

    def classes(self, E, r, n):
        cs = r.cands or [r.cls]
        return all(any(c is rcls(E, x) for x in FORMS[n]) for c in cs)

    def loop_candidates(self, E, ctx):
        return folds(E, ctx)


def folds(E, ctx):
    """what a loop over a list has left to do, started from what it did so far"""
    fr = ctx.fr.vars
    out = []
    for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
        seq = lambda c, n=n: c.fr.vars[n + "seq"]
        i = lambda c, n=n: zi(c.fr.vars[n])
        out.append(("index %s" % n, lambda c, i=i, seq=seq: And(i(c) >= 0, i(c) <= E.llen(seq(c)))))
        lits = lambda c, i=i, seq=seq: ALLLIT(E, E.term(seq(c)), i(c))
        out.append(("literals so far %s" % n, lambda c, lits=lits, seq=seq: lits(c) == ALLLIT(E, E.term(seq(c)), IV(0))))
        out.append(("literals from here %s" % n, lits))
        for acc in [k for k, v in fr.items() if isinstance(v, (SList, SDict)) and k != n + "seq" or is_strv(v)]:
            v = fr[acc]
            if is_strv(v):
                def f(c, acc=acc, i=i, seq=seq):
                    l = E.term(seq(c))
                    if not is_strv(c.fr.vars[acc]):
                        raise KeyError(acc)
                    TEXTS(E, l, IV(0), nil)
                    return TEXTJ(E, l, i(c), E.term(c.fr.vars[acc])) == TEXTJ(E, l, IV(0), E.litterm(""))
                out.append(("text %s %s" % (n, acc), f))
            elif isinstance(v, SList):
                for nm, S_ in (("compiled", CMP), ("texts", TEXTS)):
                    def f(c, S_=S_, acc=acc, i=i, seq=seq):
                        l = E.term(seq(c))
                        if not isinstance(c.fr.vars[acc], SList):
                            raise KeyError(acc)
                        return S_(E, l, i(c), E.term(c.fr.vars[acc])) == S_(E, l, IV(0), nil)
                    out.append(("%s %s %s" % (nm, n, acc), f))
            else:
                def f(c, acc=acc, i=i, seq=seq):
                    l = E.term(seq(c))
                    return AM(E, l, i(c), E.dterm(c.fr.vars[acc])) == AM(E, l, IV(0), EMPTY)
                out.append(("attributes %s %s" % (n, acc), f))
    return out


class call(C):
    key = PM + ":Compiler.__call__"

    def setup(self, E):
        k = E.choose(6)
        if k == 0:
            v = None
        elif k == 1:
            t = E.fresh("text", U)
            E.atom_term(Op(t))
            v = SStr(Op(t))
        elif k == 2:
            v = SBool(E.fresh("flag", B))
        elif k == 3:
            t = E.fresh("node", U)
            E.add(depth(t) >= 0)
            v = node(E, t, list(AST_SCHEMAS))
        else:
            t = E.fresh("list", U)
            E.add(depth(t) >= 0)

            def shape(E, x):
                E.once(("deep", x.get_id(), t.get_id()), lambda: [depth(x) >= 0, depth(x) < depth(t)])
                return node(E, x, list(AST_SCHEMAS))
            v = SList((), t, None, shape)
            E.lterm(v)
            if k == 5:
                v = SList((), None)
        return [self.me(E), v], {}

    def decreases(self, E, a):
        if isinstance(a.item, Obj):
            return (depth(E.term(a.item)), IV(1))
        if isinstance(a.item, SList) and a.item.term is not None:
            return (depth(E.term(a.item)), IV(1))
        # anything else is not looked into
        return (IV(-1), IV(1))

    def old(self, E, a):
        v = a.item
        t = None
        if isinstance(v, Obj):
            t = E.term(v)
            t = COMPX(t)
        elif isinstance(v, SList):
            t = CL(E, E.term(v))
        elif v is not None and not is_strv(v) and not isinstance(v, (SBool, bool)):
            raise Unsupported("compiling %r" % (v,))
        return {"t": t}

    def result(self, E, a, o):
        v = a.item
        if isinstance(v, Obj):
            cs = [E.mkname(c) for c in (v.cands or [v.cls])]
            if len(cs) > 1 and any(c in OTHER for c in cs):
                cs = [clsname(E, v)]
            if cs[0] in OTHER and len(cs) == 1:
                return v
            fs = sorted({x for c in cs for x in FORMS[c]})
            t = COMP(E.term(v))
            for c in cs:
                E.add(z3.Implies(is_(E.term(v), c), is_(t, *FORMS[c])))
            return rnode(E, t, fs)
        if isinstance(v, SList):
            t = o["t"]
            r = SList((), t, None, cshape(v))
            E.lterm(r)
            E.add(llen(t) == E.llen(v))
            return r
        return v

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        v = a.item
        if o["t"] is None:
            return [("anything else is left alone", r is v)]
        if isinstance(v, SList):
            return [("a new list", isinstance(r, SList) and r is not v), ("the compiled nodes", isinstance(r, SList) and E.term(r) == o["t"]),
                    ("as many as before", isinstance(r, SList) and E.llen(r) == E.llen(v))]
        return [("the compiled node", E.term(r) == o["t"])]

    def loop_candidates(self, E, ctx):
        out = folds(E, ctx)
        fr = ctx.fr.vars
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            for acc in [k for k, v in fr.items() if isinstance(v, SList) and k != n + "seq"]:
                out.append(("as many %s %s" % (n, acc), lambda c, n=n, acc=acc: E.llen(c.fr.vars[acc]) == zi(c.fr.vars[n])))
        return out


def cshape(v):
    """elements of a compiled list"""
    names = getattr(v, "elemclasses", None)
    fs = sorted({x for c in names for x in FORMS[c]}) if names else None
    return lambda E, t: rnode(E, t, fs) if fs else SVal(t)


def listof(*names):
    base = astschema.listof(*names)

    def g(E, t, o):
        l = base(E, t, o)
        l.elemclasses = list(names)
        return l
    return g


LISTS = {("Message", "attributes"): ["Attribute"], ("Term", "attributes"): ["Attribute"], ("Pattern", "elements"): ["TextElement", "Placeable"],
         ("SelectExpression", "variants"): ["Variant"], ("CallArguments", "positional"): astschema.INLINE, ("CallArguments", "named"): ["NamedArgument"]}


def dispatch_hook(E, f, args, kw):
    """a literal called without an environment gives its text (contracts of TextElement and StringLiteral)"""
    if len(args) == 1 and args[0] is None and f.term is not None and not kw:
        if not E.valid(is_(f.term, *LIT)):
            E.prove(is_(f.term, *LIT), "only literals are asked for their text without an environment")
        t = PV(f.term)
        kinds(E, t)
        E.atom_term(Op(t))
        E.once(("littext", t.get_id()), lambda: [isk["str"](t)])
        return [SStr(Op(t))]


def new_number(cls):
    def f(E, c, args, kw):
        if len(args) != 1 or kw or not is_strv(args[0]):
            raise Unsupported("%s of something other than a text" % cls)
        return val(E, flt(E, cls, E.term(args[0])))
    return f


COMPILER = [call(), compile_()]


def registry():
    reg = Registry()
    for c in COMPILER:
        reg.active[c.key] = c
    astschema.install(reg)
    reg.snoc_hook = None
    rt.install(reg)
    for n in AST_SCHEMAS:
        s = {}
        for k in fieldorder(n):
            f = AST_SCHEMAS[n][k]
            if (n, k) in LISTS:
                f = listof(*LISTS[n, k])
            s[k] = deeper(None, None, k, f)
        reg.schemas[AST + ":" + n] = s
    reg.schemas[RM + ":Attribute"] = COMPILED["Attribute"]
    reg.dispatch_hook = dispatch_hook
    for k in ("FluentInt", "FluentFloat"):
        reg.active_new[TM + ":" + k] = new_number(k)
    return reg
