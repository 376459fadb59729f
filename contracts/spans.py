"""Spans of the tree that the parser gives (C02).

OKT(t): the node t has a span inside the text, and so have its children, each
inside it and one after the other, in the order of the grammar; and the text of
an identifier, number, string, variable or junk is what its span covers.
OKL(l): so have the elements of the list l, one after the other; FIRST(l) is
where the first starts, LAST(l) where the last ends.
A gap between two entries is blank when the run of blanks at its start ends
where the run of blanks at its end does."""
from engine.contract import *
from engine.interp import *
from engine.sym import *
from . import astschema
from .astschema import AST, AST_SCHEMAS, node
from .grammar import fld, is_
from .stream import *

OKT, OKL = uf("OKT", U, B), uf("OKL", U, B)
FIRST, LAST = uf("FIRST", U, I), uf("LAST", U, I)
GOK = uf("GOK", U, B)             # the gaps between the elements, and before the first, are blank
ORDER = {"Message": ["comment", "id", "value", "attributes"], "Term": ["comment", "id", "value", "attributes"]}
MAYBE_EMPTY = ("TextElement", "Annotation", "Resource", "Indent")
NODEF = {"id", "attribute", "comment", "expression", "selector", "key", "name", "arguments"}
LISTF = {"attributes", "elements", "variants", "positional", "named", "body", "annotations"}
VALUE = {"Message", "Term", "Attribute", "Variant", "NamedArgument"}


def spanmode(E):
    return E.s.opts.get("mode") == "span"


def S(t):
    return uf("unbox", U, I)(fld(fld(t, "span"), "start"))


def Z(t):
    return uf("unbox", U, I)(fld(fld(t, "span"), "end"))


def children(n):
    """fields that hold nodes, in the order of the grammar: (field, is a list)"""
    out = []
    for k in ORDER.get(n) or AST_SCHEMAS.get(n, {}):
        if k in LISTF:
            out.append((k, True))
        elif k in NODEF and (n, k) != ("Identifier", "name") and (n, k) != ("Annotation", "arguments") or k == "value" and n in VALUE:
            out.append((k, False))
    return out


def wf(E, t, n):
    """what OKT says of a node of class n"""
    out = [0 <= S(t), S(t) <= Z(t) if n in MAYBE_EMPTY else S(t) < Z(t), Z(t) <= N]
    before = []
    for k, islist in children(n):
        f = fld(t, k)
        if islist:
            there, a, z, ok = llen(f) > 0, FIRST(f), LAST(f), OKL(f)
        else:
            there, a, z, ok = f != NONE, S(f), Z(f), OKT(f)
        out.append(z3.Implies(there, z3.And(S(t) <= a, a <= z, z <= Z(t), ok)))
        for th, zz in before:
            out.append(z3.Implies(z3.And(there, th), zz <= a))
        before.append((there, z))
    if n == "Identifier":
        out.append(fld(t, "name") == E.sterm(SStr(Sl(S(t), Z(t)))))
    elif n == "NumberLiteral":
        out.append(fld(t, "value") == E.sterm(SStr(Sl(S(t), Z(t)))))
    elif n == "Junk":
        out.append(fld(t, "content") == E.sterm(SStr(Sl(S(t), Z(t)))))
    elif n == "StringLiteral":
        out += [fld(t, "value") == E.sterm(SStr(Sl(S(t) + 1, Z(t) - 1))), raw(S(t)) == 34, raw(Z(t) - 1) == 34, S(t) + 2 <= Z(t)]
    elif n == "VariableReference":
        i = fld(t, "id")
        out += [raw(S(t)) == 36, S(i) == S(t) + 1, Z(i) == Z(t)]
    elif n == "Resource":
        b = fld(t, "body")
        out += [S(t) == 0, Z(t) == N, z3.Implies(llen(b) > 0, z3.And(GOK(b), blank(E, LAST(b), N))), z3.Implies(llen(b) <= 0, blank(E, IV(0), N))]
    return out


def IV(i):
    return z3.IntVal(i)


def blank(E, a, b):
    return z3.And(a <= b, BL(E, a) == BL(E, b))


def unfold(E, t, n):
    def f():
        w = z3.And(*wf(E, t, n))
        return [z3.Implies(cls_of(t) == class_index(n), OKT(t) == w)]
    E.once(("okt", t.get_id(), n), f)


def mk_hook(E, t, o, names):
    n = E.mkname(o.cls)
    if n == "Span":
        for k in names:
            v = E.term(o.fields[k])
            E.once(("unbox", v.get_id()), lambda: [uf("unbox", U, I)(v) == zi(o.fields[k])])
    if "span" in names and (n in AST_SCHEMAS or n == "Indent"):
        unfold(E, t, n)


def snoc_hook(E, t, x):
    if x is not None:
        astschema.snoc_hook(E, t, x)
    if t is None:
        return
    l, xt = t.arg(0), t.arg(1)

    def f():
        g = [OKL(t) == z3.And(OKT(xt), z3.Or(llen(l) <= 0, z3.And(OKL(l), FIRST(l) <= LAST(l), LAST(l) <= S(xt)))),
             FIRST(t) == z3.If(llen(l) <= 0, S(xt), FIRST(l)), LAST(t) == Z(xt), z3.Implies(OKT(xt), z3.And(0 <= S(xt), S(xt) <= Z(xt), Z(xt) <= N))]
        if E.s.opts.get("gaps"):
            g.append(GOK(t) == z3.And(z3.Or(llen(l) <= 0, GOK(l)), blank(E, z3.If(llen(l) <= 0, IV(0), LAST(l)), S(xt))))
        return g
    E.once(("okl", t.get_id()), f)


# ---------------------------------------------------------------- contracts of the parser
def node_post(self, E, a, o, r):
    """clauses for a node that a method of the parser gives"""
    if not isinstance(r, Obj):
        return []
    i = idx(E, a.ps)
    t = E.term(r)
    how = getattr(self, "span", "exact")
    if E.verifying != self.key:
        E.once(("span of", t.get_id()), lambda: [z3.Implies(OKT(t), z3.And(0 <= S(t), S(t) <= Z(t), Z(t) <= N))])
        if getattr(self, "opened", False):
            for n in self.classes:
                unfold(E, t, n)
    elif r.term is not None and not r.dirty:
        pass
    ok = OKT(t)
    if how == "line":
        ok = z3.Or(o["i"] >= N, ok)       # junk at the end of the text is empty
    out = [("its span and those of its parts", ok)]
    if how == "exact":
        out += [("the span starts where it starts", S(t) == o["i"]), ("the span ends where it ends", Z(t) == i)]
    elif how == "before":
        out += [("the span starts where it starts", S(t) == o["i"]), ("the span ends where it ends, before blanks", Z(t) <= i)]
    elif how == "inside":
        out += [("the span starts at or after the cursor", S(t) >= o["i"]), ("the span ends where it ends", Z(t) == i)]
    elif how == "line":
        E.once(("line of", t.get_id()), lambda: [BL(E, Z(t)) == BL(E, Z(t)), BL(E, NX(E, Z(t))) == BL(E, NX(E, Z(t)))])
        out += [("the span starts where it starts", S(t) == o["i"]),
                ("the span ends where it ends, before the end of the line", z3.And(Z(t) <= i, z3.Or(Z(t) == i, z3.And(CH(E, Z(t)) == LF, i == NX(E, Z(t))))))]
    return out


def list_post(self, E, a, o, r):
    if not isinstance(r, SList):
        return []
    i, t = idx(E, a.ps), E.term(r)
    return [("the spans of the elements, one after the other", z3.Or(llen(t) <= 0, z3.And(OKL(t), o["i"] <= FIRST(t), FIRST(t) <= LAST(t), LAST(t) <= i)))]


def loop_candidates(self, E, ctx):
    fr = ctx.fr.vars
    a = E.ghost["args"]
    ps = a.d.get("ps")
    out = []
    if not isinstance(ps, Obj):
        st = [v for v in fr.values() if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and "FluentParserStream" in v.cls.name]
        ps = st[0] if st else None
    if ps is None:
        return out
    i0 = E.ghost["old"]["i"]
    ls = [n for n, v in fr.items() if isinstance(v, SList) and not n.startswith("<")]
    for l in ls:
        T = lambda c, l=l: E.term(c.fr.vars[l])
        out.append(("spans of %s" % l, lambda c, T=T: z3.Or(llen(T(c)) <= 0, z3.And(OKL(T(c)), FIRST(T(c)) <= LAST(T(c))))))
        out.append(("%s after the start" % l, lambda c, T=T: z3.Or(llen(T(c)) <= 0, FIRST(T(c)) >= i0)))
        out.append(("%s before the cursor" % l, lambda c, T=T: z3.Or(llen(T(c)) <= 0, LAST(T(c)) <= idx(E, ps))))
        for m in [m for m, v in fr.items() if isinstance(v, SSet)]:
            out.append(("%s is empty when %s is" % (l, m), lambda c, T=T, m=m: z3.Implies(uf("setsize", U, I)(E.setterm(c.fr.vars[m])) <= 0, llen(T(c)) <= 0)))
        for m in ls:
            if m != l:
                M = lambda c, m=m: E.term(c.fr.vars[m])
                out.append(("%s before %s" % (l, m), lambda c, T=T, M=M: z3.Or(llen(T(c)) <= 0, llen(M(c)) <= 0, LAST(T(c)) <= FIRST(M(c)))))
    return out


def comment_post(E, a, o, r):
    i = idx(E, a.ps)
    return [("a comment is a whole one", z3.Implies(is_(E.term(r), "Comment"), z3.And(commentline(E, o["i"], IV(0)), z3.Not(z3.And(CH(E, i) == LF, commentline(E, NX(E, i), IV(0)))))))]


def nth(l, i):
    return uf("nth", U, I, U)(l, i)


def elements(E, l):
    """what OKL says of the element at an index (by induction on the list)"""
    from . import parser
    t = l.term

    def shape(E, x):
        at(E, t, x)
        return parser.element(E, x)
    return shape


def at(E, t, x):
    i = x.arg(1)
    prev = nth(t, i - 1)
    E.once(("nth of", x.get_id()), lambda: [z3.Implies(z3.And(OKL(t), 0 <= i, i < llen(t)), z3.And(
        OKT(x), S(x) <= Z(x), 0 <= S(x), Z(x) <= N, FIRST(t) <= S(x), Z(x) <= LAST(t),
        z3.Or(i == 0, z3.And(Z(prev) <= S(x), FIRST(t) <= Z(prev), OKT(prev)))))])


def trimmed(E, r, l):
    return z3.Or(llen(r) <= 0, z3.And(llen(l) > 0, OKL(r), FIRST(l) <= FIRST(r), FIRST(r) <= LAST(r), LAST(r) <= LAST(l)))


def dedent_candidates(self, E, ctx):
    out = []
    if ctx.seq is None:
        return out
    seq, k = ctx.seq
    fr = ctx.fr.vars
    L = E.ghost["old"]["L"]
    for n in [n for n, v in fr.items() if isinstance(v, SList) and not n.startswith("<")]:
        T = lambda c, n=n: E.term(c.fr.vars[n])
        i = lambda c: zi(c.fr.vars[k])
        out.append(("spans of %s" % n, lambda c, T=T: z3.Or(llen(T(c)) <= 0, z3.And(OKL(T(c)), FIRST(L) <= FIRST(T(c)), FIRST(T(c)) <= LAST(T(c))))))

        def before(c, T=T, i=i):
            at(E, L, nth(L, i(c) - 1))
            return z3.Or(llen(T(c)) <= 0, z3.And(i(c) > 0, LAST(T(c)) <= Z(nth(L, i(c) - 1))))
        out.append(("%s is before the next" % n, before))
    return out


def entry_candidates(self, E, ctx, ps):
    fr = ctx.fr.vars
    out = loop_candidates(self, E, ctx)
    here = lambda: idx(E, ps)
    ls = [n for n, v in fr.items() if isinstance(v, SList) and not n.startswith("<")]
    cs = [n for n, v in fr.items() if v is None or isinstance(v, Obj) and v.cls is not None and v is not ps and n != "self"]
    for l in ls:
        T = lambda c, l=l: E.term(c.fr.vars[l])
        last = lambda c, T=T: z3.If(llen(T(c)) <= 0, IV(0), LAST(T(c)))
        out.append(("gaps of %s" % l, lambda c, T=T: z3.Or(llen(T(c)) <= 0, GOK(T(c)))))
        for n in cs:
            def held(c, n=n, last=last):
                x = c.fr.vars[n]
                if x is None:
                    return blank(E, last(c), here())
                if not isinstance(x, Obj):
                    raise KeyError(n)
                t = E.term(x)
                return z3.And(OKT(t), 0 <= S(t), S(t) <= Z(t), Z(t) <= here(), blank(E, last(c), S(t)), blank(E, Z(t), here()),
                              is_(t, "Comment"), CH(E, here()) != -1, z3.Not(commentline(E, here(), IV(0))))
            out.append(("a comment waits %s %s" % (l, n), held))
    return out


def registry():
    from .index import syntax_registry
    reg = syntax_registry()
    reg.snoc_hook = snoc_hook
    return reg
