"""The Fluent 1.0 grammar as total functions of a position in the source.

For a construct X, XE(i) is the position after the X at i, or -1 when there is
none, and XN(i) the tree it stands for (spans apart).  Written from the EBNF
of Fluent Syntax 1.0 and the validity rules of the property list."""
import z3
from engine.contract import *
from engine.interp import *
from engine.sym import *
from .stream import *
from .stream import _m

AST = "fluent.syntax.ast"


def astcls(E, n):
    return E.module(AST).env[n]


def mk(E, cls, **fields):
    """term of a syntax node with these fields"""
    c = astcls(E, cls) if isinstance(cls, str) else cls
    o = Obj(c)
    o.fields = dict(fields)
    return E.oterm(o)


def V(t):
    return SVal(t)


def S(*parts):
    return SStr(*parts)


def is_(t, *names):
    """t is a node of one of these classes"""
    return z3.Or(*[cls_of(t) == class_index(n) for n in names])


def fld(t, n):
    return uf("fld_" + n, U, U)(t)


def If(c, a, b):
    return z3.If(c, a, b)


IV = z3.IntVal


def ite(E, *cs):
    """ite(E, (c1, v1), ..., default): nested conditional"""
    r = cs[-1]
    for c, v in reversed(cs[:-1]):
        r = z3.If(c, v, r)
    return r


# ---------------------------------------------------------------- tokens
IDE = Spec("IDE", [I], I, lambda E, i: If(idchar(CH(E, i)), IDE(E, i + 1), i),
           facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N), z3.Not(idchar(CH(E, t))), z3.Or(t == a[0], idchar(CH(E, t - 1)))], measure=_m)
DGE = Spec("DGE", [I], I, lambda E, i: If(digit(CH(E, i)), DGE(E, i + 1), i),
           facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N), z3.Not(digit(CH(E, t)))], measure=_m)


def IDX(E, i):
    return If(idstart(CH(E, i)), IDE(E, i + 1), IV(-1))


def IDN(E, i):
    return mk(E, "Identifier", name=S(Sl(i, IDE(E, i + 1))))


def NUMX(E, i):
    s = z3.simplify(If(CH(E, i) == 45, i + 1, i))
    d = DGE(E, s)
    f = DGE(E, d + 1)
    return ite(E, (d == s, IV(-1)), (CH(E, d) != 46, d), (f == d + 1, IV(-1)), f)


def NUMN(E, i):
    return mk(E, "NumberLiteral", value=S(Sl(i, NUMX(E, i))))


def hexrun(E, i, n):
    return z3.And(*[hexdigit(CH(E, i + k)) for k in range(n)])


def ESCX(E, i):
    """end of the escape sequence whose backslash is before i"""
    c = CH(E, i)
    return ite(E, (z3.Or(c == 92, c == 34), i + 1),
               (z3.And(c == 117, hexrun(E, i + 1, 4)), i + 5),
               (z3.And(c == 85, hexrun(E, i + 1, 6)), i + 7), IV(-1))


def _sb(E, i):
    c = CH(E, i)
    e = ESCX(E, i + 1)
    return ite(E, (c == 34, i), (z3.Or(c == LF, c == -1), IV(-1)), (z3.And(c == 92, e < 0), IV(-1)),
               (c == 92, SBE(E, e)), SBE(E, NX(E, i)))


# position of the closing quote of the string whose body is at i
SBE = Spec("SBE", [I], I, _sb, facts=lambda E, a, t: [z3.Or(t == -1, z3.And(t >= a[0], z3.Implies(a[0] <= N, t < N)))], measure=_m)


def STRX(E, i):
    return If(z3.And(CH(E, i) == 34, SBE(E, i + 1) >= 0), SBE(E, i + 1) + 1, IV(-1))


def STRN(E, i):
    return mk(E, "StringLiteral", value=S(Sl(i + 1, SBE(E, i + 1))))


TXE = Spec("TXE", [I], I, lambda E, i: If(z3.Or(CH(E, i) == -1, CH(E, i) == 123, CH(E, i) == 125, CH(E, i) == LF), i, TXE(E, NX(E, i))),
           facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N)], measure=_m)


def TXN(E, i):
    return mk(E, "TextElement", value=S(Sl(i, TXE(E, i))))


# ---------------------------------------------------------------- recursion
def end_facts(E, a, t):
    """a construct starts where it is looked for, is not empty and inside the text"""
    return [z3.Or(t == -1, z3.And(t > a[0], t <= N, a[0] >= 0))]


def _mx(E, i, *r):
    return _m(E, i)


def chain(E, start, *steps):
    """compose partial steps: -1 as soon as one of them fails"""
    e = start
    conds = []
    for s in steps:
        e2 = s(e)
        conds.append(e2 < 0)
        e = e2
    return If(z3.Or(*conds), IV(-1), e)


# placeable
def _plx(E, i):
    e = EXX(E, BL(E, i + 1))
    return ite(E, (CH(E, i) != 123, IV(-1)), (e < 0, IV(-1)), (CH(E, e) != 125, IV(-1)), e + 1)


PLX = Spec("PLX", [I], I, _plx)
PLN = Spec("PLN", [I], U, lambda E, i: mk(E, "Placeable", expression=V(EXN(E, BL(E, i + 1)))))

SELECTABLE = ("StringLiteral", "NumberLiteral", "VariableReference", "FunctionReference")


def arrow(E, q):
    CH(E, q + 1)
    return z3.And(CH(E, q) == 45, R(q + 1) == 62)


def lineend(E, r):
    """position after the line end at r; -1 if there is none"""
    return ite(E, (CH(E, r) == -1, r), (CH(E, r) == LF, NX(E, r)), IV(-1))


def selectable(E, n):
    return z3.Or(is_(n, *SELECTABLE), z3.And(is_(n, "TermReference"), fld(n, "attribute") != NONE))


def _exx(E, i):
    s = INX(E, i)
    n = INN(E, i)
    q = BL(E, s)
    r = BI(E, q + 2)
    l = lineend(E, r)
    v = VSX(E, l)
    return ite(E, (s < 0, IV(-1)),
               (arrow(E, q), ite(E, (z3.Not(selectable(E, n)), IV(-1)), (l < 0, IV(-1)), (v < 0, IV(-1)), v)),
               (CH(E, q) == 45, q),
               (z3.And(is_(n, "TermReference"), fld(n, "attribute") != NONE), IV(-1)), q)


def _exn(E, i):
    s = INX(E, i)
    q = BL(E, s)
    l = lineend(E, BI(E, q + 2))
    return If(arrow(E, q), mk(E, "SelectExpression", selector=V(INN(E, i)), variants=V(VSN(E, l))), INN(E, i))


EXX = Spec("EXX", [I], I, _exx)
EXN = Spec("EXN", [I], U, _exn)


# inline expressions
def numstart(E, i):
    CH(E, i + 1)
    return z3.If(CH(E, i) == 45, digit(R(i + 1)), digit(CH(E, i)))


def upper_run(E, i):
    """end of the run of [A-Z0-9_-] at i"""
    return UPE(E, i)


def upperchar(c):
    return z3.Or(z3.And(c >= 65, c <= 90), digit(c), c == 95, c == 45)


UPE = Spec("UPE", [I, I], I, lambda E, i, e: If(z3.And(i < e, upperchar(raw(i))), UPE(E, i + 1, e), i))


def funcname(E, a, b):
    """source[a:b] is an upper-case name"""
    return z3.And(raw(a) >= 65, raw(a) <= 90, b > a, UPE(E, a + 1, b) >= b)


def _in(E, i):
    """(end, node) of the inline expression at i"""
    c = CH(E, i)
    out = []
    out.append((c == 123, PLX(E, i), lambda: PLN(E, i)))
    out.append((numstart(E, i), NUMX(E, i), lambda: NUMN(E, i)))
    out.append((c == 34, STRX(E, i), lambda: STRN(E, i)))
    v = IDX(E, i + 1)
    out.append((c == 36, v, lambda: mk(E, "VariableReference", id=V(IDN(E, i + 1)))))
    # -term.attribute(arguments)
    t = v
    ta = IDX(E, t + 1)
    dot = CH(E, t) == 46
    te = z3.simplify(If(dot, ta, t))
    q = BL(E, te)
    call = CH(E, q) == 40
    ce = CAX(E, q)
    out.append((c == 45, ite(E, (t < 0, IV(-1)), (te < 0, IV(-1)), (call, ce), te),
                lambda: mk(E, "TermReference", id=V(IDN(E, i + 1)), attribute=V(If(dot, IDN(E, t + 1), NONE)),
                           arguments=V(If(call, CAN(E, q), NONE)))))
    # function or message.attribute
    m = IDX(E, i)
    mq = BL(E, m)
    fcall = CH(E, mq) == 40
    mdot = CH(E, m) == 46
    out.append((z3.And(idstart(c), fcall), ite(E, (z3.Not(funcname(E, i, m)), IV(-1)), CAX(E, mq)),
                lambda: mk(E, "FunctionReference", id=V(IDN(E, i)), arguments=V(CAN(E, mq)))))
    out.append((idstart(c), If(mdot, IDX(E, m + 1), m),
                lambda: mk(E, "MessageReference", id=V(IDN(E, i)), attribute=V(If(mdot, IDN(E, m + 1), NONE)))))
    return out


INX = Spec("INX", [I], I, lambda E, i: ite(E, *[(c, x) for c, x, n in _in(E, i)], IV(-1)))
INN = Spec("INN", [I], U, lambda E, i: ite(E, *[(c, n()) for c, x, n in _in(E, i)], NONE))


# call arguments
def _cgx(E, i):
    s = INX(E, i)
    n = INN(E, i)
    q = BL(E, s)
    v = BL(E, q + 1)
    lit_ = ite(E, (numstart(E, v), NUMX(E, v)), (CH(E, v) == 34, STRX(E, v)), IV(-1))
    return ite(E, (s < 0, IV(-1)), (CH(E, q) != 58, q),
               (z3.And(is_(n, "MessageReference"), fld(n, "attribute") == NONE), lit_), IV(-1))


def LITX(E, v):
    return ite(E, (numstart(E, v), NUMX(E, v)), (CH(E, v) == 34, STRX(E, v)), IV(-1))


def LITN(E, v):
    return If(numstart(E, v), NUMN(E, v), STRN(E, v))


def _cgn(E, i):
    s = INX(E, i)
    n = INN(E, i)
    q = BL(E, s)
    v = BL(E, q + 1)
    return If(CH(E, q) != 58, n, mk(E, "NamedArgument", name=V(fld(n, "id")), value=V(LITN(E, v))))


CGX = Spec("CGX", [I], I, _cgx)
CGN = Spec("CGN", [I], U, _cgn)


def inset(s, x):
    return uf("mem", U, U, B)(s, x)


def _cas(what):
    def body(E, i, ps, ns, set_):
        g = CGX(E, i)
        n = CGN(E, i)
        named = is_(n, "NamedArgument")
        E.once(("nomem", n.get_id()), lambda: [z3.Not(inset(emptyset, fld(fld(n, "name"), "name"))), setsize(emptyset) == 0])
        nm = fld(fld(n, "name"), "name")
        s2 = If(named, setadd(set_, nm), set_)
        ps2 = If(named, ps, E.mk_snoc(ps, n))
        ns2 = If(named, E.mk_snoc(ns, n), ns)
        s = BL(E, g)
        nxt = CAS[what](E, BL(E, s + 1), ps2, ns2, s2)
        bad = IV(-1) if what == "x" else NONE
        done = lambda p, a, b: p if what == "x" else mk(E, "CallArguments", positional=V(a), named=V(b))
        return ite(E, (CH(E, i) == 41, done(i, ps, ns)),
                   (g < 0, bad),
                   (z3.And(named, inset(set_, nm)), bad),
                   (z3.And(z3.Not(named), setsize(set_) > 0), bad),
                   (CH(E, s) == 44, nxt),
                   done(s, ps2, ns2))
    return body


def setadd(s, x):
    return uf("setadd", U, U, U)(s, x)


def setsize(s):
    return uf("setsize", U, I)(s)


emptyset = z3.Const("emptyset", U)
CAS = {"x": Spec("CASX", [I, U, U, U], I, _cas("x")), "n": Spec("CASN", [I, U, U, U], U, _cas("n"))}


def _cax(E, i):
    e = CAS["x"](E, BL(E, i + 1), nil, nil, emptyset)
    return ite(E, (CH(E, i) != 40, IV(-1)), (e < 0, IV(-1)), (CH(E, e) != 41, IV(-1)), e + 1)


CAX = Spec("CAX", [I], I, _cax)
CAN = Spec("CAN", [I], U, lambda E, i: CAS["n"](E, BL(E, i + 1), nil, nil, emptyset))


# patterns
def mpstart(E, i):
    """(kind, start): 0 inline, 1 block, 2 none"""
    j = BI(E, i)
    c = CH(E, j)
    q = BB(E, j, 0)
    inline = z3.And(c != -1, c != LF)
    return inline, j, valcont(E, q), q


def MPX(E, i):
    """end of the pattern at i, -2 when there is none, -1 for an error"""
    inline, j, block, q = mpstart(E, i)
    neg = lambda x: If(x < 0, IV(-1), x)
    return ite(E, (inline, neg(PTX(E, j, 0))), (block, neg(PTX(E, q, 1))), IV(-2))


def MPN(E, i):
    inline, j, block, q = mpstart(E, i)
    return ite(E, (inline, PTN(E, j, 0)), (block, PTN(E, q, 1)), NONE)


def _elx(E, i):
    c = CH(E, i)
    q = BB(E, i, 0)
    p = PLX(E, i)
    return ite(E, (c == -1, i), (c == LF, If(valcont(E, q), ELX(E, BI(E, q)), i)), (c == 125, IV(-1)),
               (c == 123, If(p < 0, IV(-1), ELX(E, p))), ELX(E, TXE(E, i)))


ELX = Spec("ELX", [I], I, _elx)


def indent_cls(E):
    return E.module("fluent.syntax.parser").env["FluentParser"].attrs["Indent"]


def mkindent(E, *parts):
    return mk(E, indent_cls(E), value=S(*parts))


INF = IV(-1)


def minc(c, l):
    return If(z3.Or(c == INF, l < c), l, c)


def _ell(E, i, L):
    c = CH(E, i)
    q = BB(E, i, 0)
    j = BI(E, q)
    ind = mkindent(E, Rep("\n", BK(E, i, 0)), Sl(q, j))
    return ite(E, (c == -1, L), (c == LF, If(valcont(E, q), ELL(E, j, E.mk_snoc(L, ind)), L)),
               (c == 123, ELL(E, PLX(E, i), E.mk_snoc(L, PLN(E, i)))),
               ELL(E, TXE(E, i), E.mk_snoc(L, TXN(E, i))))


def _elc(E, i, m):
    c = CH(E, i)
    q = BB(E, i, 0)
    j = BI(E, q)
    return ite(E, (c == -1, m), (c == LF, If(valcont(E, q), ELC(E, j, minc(m, j - q)), m)),
               (c == 123, ELC(E, PLX(E, i), m)), ELC(E, TXE(E, i), m))


ELL = Spec("ELL", [I, U], U, _ell)
ELC = Spec("ELC", [I, I], I, _elc)


def _ptx(E, i, b):
    return ELX(E, If(b == 1, BI(E, i), i))


def _ptn(E, i, b):
    j = BI(E, i)
    s = If(b == 1, j, i)
    L = If(b == 1, E.mk_snoc(nil, mkindent(E, Sl(i, j))), nil)
    m = If(b == 1, j - i, INF)
    return mk(E, "Pattern", elements=V(DED(E, ELL(E, s, L), ELC(E, s, m))))


PTX = Spec("PTX", [I, I], I, _ptx)
PTN = Spec("PTN", [I, I], U, _ptn)


# dedentation: DT(L, c, k) is the pattern made of the first k elements of L
def textof(E, e, c):
    """text of an element after removing the common indent"""
    v = SStr(Op(fld(e, "value")))
    E.atom_term(Op(fld(e, "value")))
    cut = E.sterm(E.str_slice(v, None, mki(ulen(fld(e, "value")) - c)))
    return If(is_(e, "Indent"), cut, fld(e, "value"))


def step(E, T, e, c):
    v = textof(E, e, c)
    E.once(("op", v.get_id()), lambda: [ulen(v) >= 0])
    last, front = uf("last", U, U)(T), uf("front", U, U)(T)
    joined = E.sterm(SStr(Op(fld(last, "value")), Op(v)))
    return ite(E, (is_(e, "Placeable"), E.mk_snoc(T, e)),
               (z3.And(is_(e, "Indent"), ulen(v) == 0), T),
               (z3.And(llen(T) > 0, is_(last, "TextElement")), E.mk_snoc(front, mk(E, "TextElement", value=V(joined)))),
               (is_(e, "Indent"), E.mk_snoc(T, mk(E, "TextElement", value=V(v)))),
               E.mk_snoc(T, e))


def nth(L, k):
    return uf("nth", U, I, U)(L, k)


DT = Spec("DT", [U, I, I], U, lambda E, L, c, k: If(k <= 0, nil, step(E, DT(E, L, c, k - 1), nth(L, k - 1), c)),
          facts=lambda E, a, t: [llen(t) >= 0, z3.Implies(llen(t) == 0, t == nil)], measure=lambda E, L, c, k: k)


def trim(E, T):
    last, front = uf("last", U, U)(T), uf("front", U, U)(T)
    E.atom_term(Op(fld(last, "value")))
    r = uf("str.rstrip", U, U, U)(fld(last, "value"), E.litterm(" \n\r"))
    E.once(("op", r.get_id()), lambda: [ulen(r) >= 0])
    return ite(E, (z3.Or(llen(T) == 0, z3.Not(is_(last, "TextElement"))), T),
               (ulen(r) == 0, front),
               E.mk_snoc(front, mk(E, "TextElement", value=V(r))))


def DED(E, L, c):
    return trim(E, DT(E, L, c, llen(L)))


# variants
def _vax(E, i, hd):
    star = CH(E, i) == 42
    s = z3.simplify(If(star, i + 1, i))
    k = BL(E, s + 1)
    ke = KEYX(E, k)
    b = BL(E, ke)
    p = MPX(E, b + 1)
    return ite(E, (z3.And(star, hd == 1), IV(-1)), (CH(E, s) != 91, IV(-1)), (ke < 0, IV(-1)), (CH(E, b) != 93, IV(-1)),
               (p < 0, IV(-1)), p)


def isnumkey(E, k):
    return z3.Or(digit(CH(E, k)), CH(E, k) == 45)


def KEYX(E, k):
    return If(isnumkey(E, k), NUMX(E, k), IDX(E, k))


def KEYN(E, k):
    return If(isnumkey(E, k), NUMN(E, k), IDN(E, k))


def _van(E, i):
    star = CH(E, i) == 42
    s = z3.simplify(If(star, i + 1, i))
    k = BL(E, s + 1)
    b = BL(E, KEYX(E, k))
    return mk(E, "Variant", key=V(KEYN(E, k)), value=V(MPN(E, b + 1)), default=V(If(star, TRUE, FALSE)))


VAX = Spec("VAX", [I, I], I, _vax)
VAN = Spec("VAN", [I], U, _van)


def _vs(what):
    def body(E, q, L, hd):
        v = VAX(E, q, hd)
        l = lineend(E, v)
        bad = IV(-1) if what == "x" else NONE
        nxt = VS[what](E, BL(E, l), E.mk_snoc(L, VAN(E, q)), If(CH(E, q) == 42, IV(1), hd))
        return ite(E, (varstart(E, q), ite(E, (v < 0, bad), (l < 0, bad), nxt)),
                   (llen(L) == 0, bad), (hd == 0, bad), q if what == "x" else L)
    return body


VS = {"x": Spec("VSLX", [I, U, I], I, _vs("x")), "n": Spec("VSLN", [I, U, I], U, _vs("n"))}
VSX = lambda E, i: VS["x"](E, BL(E, i), nil, 0)
VSN = lambda E, i: VS["n"](E, BL(E, i), nil, 0)


# attributes, messages, terms
def header(E, i):
    """position after `id =`, or -1"""
    d = IDX(E, i)
    q = BI(E, d)
    return ite(E, (d < 0, IV(-1)), (CH(E, q) != 61, IV(-1)), q + 1)


def _atx(E, i):
    h = header(E, i + 1)
    p = MPX(E, h)
    return ite(E, (CH(E, i) != 46, IV(-1)), (h < 0, IV(-1)), (p < 0, IV(-1)), p)


ATX = Spec("ATX", [I], I, _atx)
ATN = Spec("ATN", [I], U, lambda E, i: mk(E, "Attribute", id=V(IDN(E, i + 1)), value=V(MPN(E, header(E, i + 1)))))


def _as(what):
    def body(E, i, L):
        q = BL(E, i)
        a = ATX(E, q)
        bad = IV(-1) if what == "x" else NONE
        return ite(E, (CH(E, q) != 46, i if what == "x" else L), (a < 0, bad), ATS[what](E, a, E.mk_snoc(L, ATN(E, q))))
    return body


ATS = {"x": Spec("ATSX", [I, U], I, _as("x")), "n": Spec("ATSN", [I, U], U, _as("n"))}


def after_value(h, p):
    """where the attributes start: after the pattern, or where it was looked for"""
    return If(p == -2, h, p)


def _msx(E, i):
    h = header(E, i)
    p = MPX(E, h)
    s = z3.simplify(after_value(h, p))
    a = ATS["x"](E, s, nil)
    return ite(E, (h < 0, IV(-1)), (p == -1, IV(-1)), (a < 0, IV(-1)),
               (z3.And(p == -2, llen(ATS["n"](E, s, nil)) == 0), IV(-1)), a)


def _msn(E, i):
    h = header(E, i)
    p = MPX(E, h)
    s = z3.simplify(after_value(h, p))
    return mk(E, "Message", id=V(IDN(E, i)), value=V(MPN(E, h)), attributes=V(ATS["n"](E, s, nil)), comment=None)


MSX = Spec("MSX", [I], I, _msx)
MSN = Spec("MSN", [I], U, _msn, facts=lambda E, a, t: [is_(t, "Message")], measure=_m)


def _tmx(E, i):
    h = header(E, i + 1)
    p = MPX(E, h)
    a = ATS["x"](E, p, nil)
    return ite(E, (CH(E, i) != 45, IV(-1)), (h < 0, IV(-1)), (p < 0, IV(-1)), (a < 0, IV(-1)), a)


def _tmn(E, i):
    h = header(E, i + 1)
    p = MPX(E, h)
    return mk(E, "Term", id=V(IDN(E, i + 1)), value=V(MPN(E, h)), attributes=V(ATS["n"](E, p, nil)), comment=None)


TMX = Spec("TMX", [I], I, _tmx)
TMN = Spec("TMN", [I], U, _tmn, facts=lambda E, a, t: [is_(t, "Term")], measure=_m)


# comments
def clevel(E, i):
    """0, 1 or 2 for a line starting with that many hashes plus one"""
    return ite(E, (CH(E, i + 1) != 35, IV(0)), (CH(E, i + 2) != 35, IV(1)), IV(2))


CEE = Spec("CEE", [I], I, lambda E, i: If(z3.Or(CH(E, i) == LF, CH(E, i) == -1), i, CEE(E, NX(E, i))),
           facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N), z3.Or(CH(E, t) == LF, CH(E, t) == -1)], measure=_m)


def _cm(what):
    # at the first hash of a comment line
    def body(E, i, l, acc):
        b = z3.simplify(i + l + 1)
        c = CH(E, b)
        E.atom_term(Op(acc))
        empty = z3.Or(c == LF, c == -1)
        bad = IV(-1) if what == "x" else NONE

        def rest(e, parts):
            more = z3.And(CH(E, e) == LF, commentline(E, z3.simplify(NX(E, e)), l))
            return If(more, CM[what](E, NX(E, e), l, E.sterm(SStr(*(parts + [Ch(CH(E, e))])))), e if what == "x" else E.sterm(SStr(*parts)) if parts else acc)
        e = CEE(E, b + 1)
        a = [] if acc.eq(E.litterm("")) else [Op(acc)]
        return ite(E, (empty, rest(b, a)), (c != SP, bad), rest(e, a + [Sl(b + 1, e)]))
    return body


def _cmfacts(E, a, t):
    # a comment ends at the end of a line, and the next line does not continue it
    i, l, acc = a
    if str(getattr(E.contract, "key", "")).endswith(".get_comment"):
        return []       # not needed there
    return [z3.Implies(t >= 0, z3.And(t > i, z3.Implies(z3.And(i < N, i >= 0), t <= N), z3.Or(CH(E, t) == LF, CH(E, t) == -1),
                                      z3.Or(CH(E, t) == -1, z3.Not(commentline(E, z3.simplify(NX(E, t)), l))))),
            z3.Implies(t >= 0, z3.Or(*[CH(E, z3.simplify(i + l + 1)) == x for x in (LF, -1, SP)]))]


CM = {"x": Spec("CMX", [I, I, U], I, _cm("x"), facts=lambda E, a, t: [z3.Implies(z3.And(a[1] >= 0, a[1] <= 2, a[0] >= 0, a[0] + a[1] < N), f) for f in _cmfacts(E, a, t)], measure=_m), "n": Spec("CMT", [I, I, U], U, _cm("n"))}


def CMX(E, i):
    return CM["x"](E, i, clevel(E, i), E.litterm(""))


def CMN(E, i):
    l = clevel(E, i)
    t = V(CM["n"](E, i, l, E.litterm("")))
    return ite(E, (l == 0, mk(E, "Comment", content=t)), (l == 1, mk(E, "GroupComment", content=t)), mk(E, "ResourceComment", content=t))


# entries
def ENX(E, i):
    c = CH(E, i)
    return ite(E, (c == 35, CMX(E, i)), (c == 45, TMX(E, i)), (idstart(c), MSX(E, i)), IV(-1))


def ENN(E, i):
    c = CH(E, i)
    return ite(E, (c == 35, CMN(E, i)), (c == 45, TMN(E, i)), MSN(E, i))


# position of the cursor when the entry at i is refused (the parser is deterministic)
ERRI = uf("ERRI", I, I)


def _entry_ok(E, i):
    x = ENX(E, i)
    c = CH(E, x)
    return z3.And(x >= 0, z3.Or(c == LF, c == -1)), x


def _ejx(E, i):
    ok, x = _entry_ok(E, i)
    return If(ok, If(CH(E, x) == LF, NX(E, x), x), JE(E, i))


def _je(E, i):
    x = ENX(E, i)
    e = If(x >= 0, x, ERRI(i))
    l = LN(E, z3.simplify(e))
    return SK(E, z3.simplify(If(i < l, l, e)))


# end of the junk that starts at i
JE = Spec("JE", [I], I, _je)
EJX = Spec("EJX", [I], I, _ejx)
EJN = Spec("EJN", [I], U, lambda E, i: If(_entry_ok(E, i)[0], ENN(E, i), mk(E, "Junk", content=S(Sl(i, JE(E, i))), annotations=None)))


def with_comment(E, n, c):
    """the entry n with the comment c attached"""
    return If(is_(n, "Message"), mk(E, "Message", id=V(fld(n, "id")), value=V(fld(n, "value")), attributes=V(fld(n, "attributes")), comment=V(c)),
              mk(E, "Term", id=V(fld(n, "id")), value=V(fld(n, "value")), attributes=V(fld(n, "attributes")), comment=V(c)))


def _pb(E, i, acc, last):
    """entries from i on; last: comment waiting for what starts on the line after it"""
    n = EJN(E, i)
    e = EJX(E, i)
    b = BB(E, e, 0)
    holds = z3.And(is_(n, "Comment"), b == e, CH(E, b) != -1)
    taken_ = z3.And(last != NONE, is_(n, "Message", "Term"))
    acc2 = If(z3.Or(last == NONE, taken_), acc, snoc(acc, last))
    n2 = If(taken_, with_comment(E, n, last), n)
    return If(CH(E, i) == -1, If(last == NONE, acc, snoc(acc, last)),
              If(holds, PB(E, b, acc2, n), PB(E, b, snoc(acc2, n2), NONE)))


PB = Spec("PB", [I, U, U], U, _pb)
PE = Spec("PE", [I], U, lambda E, i: If(z3.And(CH(E, i) == 35, z3.Not(is_(EJN(E, i), "Junk"))), PE(E, BB(E, EJX(E, i), 0)), EJN(E, i)))
