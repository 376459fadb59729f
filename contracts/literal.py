"""Contracts of StringLiteral.parse and NumberLiteral.parse (fluent.syntax.ast).

The value of the literal is the source text of the engine: raw(0) .. raw(N-1).
UNESC(i) is the decoded rest of the text from i on; re.sub is assumed to scan
from left to right, replacing the leftmost matches one after the other, and
its pattern and replacement function are verified to make, at every position,
exactly the step the specification makes there."""
import re
import re._parser as sp
import z3
from engine.contract import *
from engine.interp import *
from engine.sym import *
from .stream import R, digit, hexdigit, source
from .parser import charset
from . import astschema

AST = "fluent.syntax.ast"
LIMIT = 64


# ---------------------------------------------------------------- specification
def hexv(c):
    return z3.If(digit(c), c - 48, z3.If(z3.And(c >= 65, c <= 70), c - 55, c - 87))


def hexnum(i, n, base=16):
    r = z3.IntVal(0)
    for k in range(n):
        r = r * base + hexv(raw(i + k))
    return r


def codepoint(n):
    """a scalar value stands for itself"""
    return z3.If(z3.Or(n > 0x10FFFF, z3.And(n >= 0xD800, n <= 0xDFFF)), z3.IntVal(0xFFFD), n)


def step(i):
    """the character the text at i stands for, and where the next one starts"""
    esc, c = R(i) == 92, R(i + 1)
    hx = lambda n: z3.And(i + 2 + n <= N, *[hexdigit(R(i + 2 + k)) for k in range(n)])
    cases = [(z3.And(esc, z3.Or(c == 92, c == 34)), c, i + 2),
             (z3.And(esc, c == 117, hx(4)), codepoint(hexnum(i + 2, 4)), i + 6),
             (z3.And(esc, c == 85, hx(6)), codepoint(hexnum(i + 2, 6)), i + 8)]
    ch, end = raw(i), i + 1
    for cond, x, e in reversed(cases):
        ch, end = z3.If(cond, x, ch), z3.If(cond, e, end)
    return ch, end


UNESC = uf("UNESC", I, U)
FLOAT = uf("FLOAT", U, U)
# end of a run of digits; position of the first point from i on, -1 if none
_m = lambda E, i: z3.If(i <= N, N - i, z3.IntVal(0))
DG = Spec("DG", [I], I, lambda E, i: z3.If(digit(R(i)), DG(E, i + 1), i),
          facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N), z3.Not(digit(R(t))), FD(E, t) == FD(E, a[0])], measure=_m)
FD = Spec("FD", [I], I, lambda E, i: z3.If(i >= N, z3.IntVal(-1), z3.If(raw(i) == 46, i, FD(E, i + 1))))


def numbersyntax(E):
    """-?[0-9]+(\\.[0-9]+)?, and the number of its decimal digits"""
    s = z3.If(R(z3.IntVal(0)) == 45, z3.IntVal(1), z3.IntVal(0))
    FD(E, z3.IntVal(0)), FD(E, z3.IntVal(1))
    d = DG(E, s)
    f = DG(E, d + 1)
    return z3.And(d > s, z3.Or(d == N, z3.And(R(d) == 46, f > d + 1, f == N))), z3.If(d == N, z3.IntVal(0), N - d - 1)


# ---------------------------------------------------------------- regular expressions
class Cannot(Exception):
    pass


def cset(items, c):
    """formula: code c is in a character class"""
    neg = bool(items) and str(items[0][0]) == "NEGATE"
    cs = charset(items[1:] if neg else items)
    if cs is None:
        raise Cannot("character class")
    f = z3.Or(*[z3.And(c >= x, c <= y) for x, y in cs])
    return z3.And(c >= 0, z3.Not(f)) if neg else z3.And(c >= 0, f)


def paths(ops, i, groups, end=None):
    """the ways a pattern can match at i, in the order they are tried: (condition, end, groups)"""
    if not ops:
        yield [], i, groups
        return
    (o, v), rest = ops[0], ops[1:]
    o = str(o)

    def then(conds, j, g):
        for c2, e, g2 in paths(rest, z3.simplify(j), g):
            yield conds + c2, e, g2
    if o == "LITERAL":
        yield from then([R(i) == v], i + 1, groups)
    elif o == "NOT_LITERAL":
        yield from then([R(i) >= 0, R(i) != v], i + 1, groups)
    elif o == "ANY":
        yield from then([R(i) >= 0, R(i) != 10], i + 1, groups)
    elif o == "IN":
        yield from then([cset(list(v), R(i))], i + 1, groups)
    elif o == "BRANCH":
        for alt in v[1]:
            for c, j, g in paths(list(alt), i, groups):
                yield from then(c, j, g)
    elif o == "SUBPATTERN":
        n, add, dele, p = v
        if add or dele:
            raise Cannot("flags")
        for c, j, g in paths(list(p), i, groups):
            yield from then(c, j, dict(g, **{str(n): (i, j)}) if n is not None else g)
    elif o == "MAX_REPEAT":
        lo, hi, p = v
        if str(hi) == "MAXREPEAT" or hi > 12:
            raise Cannot("unbounded repetition")

        def rep(k, j, g):
            if k < hi:
                for c, j2, g2 in paths(list(p), j, g):
                    for c3, j3, g3 in rep(k + 1, z3.simplify(j2), g2):
                        yield c + c3, j3, g3
            if k >= lo:
                yield [], j, g
        for c, j, g in rep(0, i, groups):
            yield from then(c, j, g)
    else:
        raise Cannot(o)


def match_object(E, i, end, groups, count, names):
    def piece(n):
        n = names.get(n, n)
        if n == 0:
            return SStr(Sl(i, end))
        g = groups.get(str(n))
        return None if g is None else SStr(Sl(z3.simplify(g[0]), z3.simplify(g[1])))

    def group(E, a, k):
        ns = a or [0]
        if not all(isinstance(n, (int, str)) for n in ns):
            raise Unsupported("group of a match")
        return piece(ns[0]) if len(ns) == 1 else tuple(piece(n) for n in ns)

    def allgroups(E, a, k):
        d = a[0] if a else k.get("default")
        return tuple(d if piece(n) is None else piece(n) for n in range(1, count + 1))
    o = Obj(re.Match)
    last = max([int(n) for n in groups], default=None)
    o.fields = {"groups": Native("groups", allgroups), "group": Native("group", group), "__getitem__": Native("group", group),
                "lastindex": last, "groupdict": Native("groupdict", lambda E, a, k: SDict([[n, piece(n)] for n in names]))}
    o.partial = True
    return o


def code_of(E, s):
    """code of a text of one character"""
    if isinstance(s, str):
        return z3.IntVal(ord(s)) if len(s) == 1 else None
    ps = E.norm(s) if isinstance(s, SStr) else []
    if len(ps) != 1:
        return None
    p = ps[0]
    if isinstance(p, Ch):
        return p.c
    if isinstance(p, Sl) and E.valid(p.b == p.a + 1):
        return raw(p.a)
    if isinstance(p, str) and len(p) == 1:
        return z3.IntVal(ord(p))
    return None


def re_hook(E, kind, a, k):
    if kind != "sub" or k or len(a) != 3 or not isinstance(a[0], str) or not isinstance(a[2], SStr):
        return None
    s = E.norm(a[2])
    if len(s) != 1 or not isinstance(s[0], Sl) or not E.valid(z3.And(s[0].a == 0, s[0].b == N)):
        return None
    if E.choose(2) == 0:
        t = UNESC(z3.IntVal(0))
        E.atom_term(Op(t))
        return [SStr(Op(t))]
    i = E.fresh("i")
    E.add(z3.And(i >= 0, i < N))
    for j in range(8):
        E.add(raw(i + j) >= 0)
        E.add(raw(i + j) <= 0x10FFFF)
    tree = sp.parse(a[0])
    if tree.state.flags & ~re.UNICODE:
        return None
    try:
        ps = []
        for p in paths(list(tree), i, {}):
            ps.append(p)
            if len(ps) > LIMIT:
                raise Cannot("too many ways to match")
    except Cannot as e:
        raise Unsupported("regular expression: %s" % e)
    ch, end = step(i)
    for conds, e, groups in ps:
        if E.branch(z3.And(*conds)):
            if not E.valid(e > i):
                raise Unsupported("an empty match")
            r = a[1]
            if not isinstance(r, str):
                r = E.call(r, [match_object(E, i, z3.simplify(e), groups, tree.state.groups - 1, dict(tree.state.groupdict))], {})
            elif "\\" in r:
                raise Unsupported("replacement template")
            c = code_of(E, r)
            E.prove(c == ch if c is not None else False, "an escape stands for its character", str(r)[:80])
            E.prove(e == end, "the escape is replaced as a whole")
            raise PathEnd()
    E.prove(z3.And(ch == raw(i), end == i + 1), "every escape is replaced")
    raise PathEnd()


def int_hook(E, a):
    """int(piece of the source, base) when all its characters are digits of that base"""
    s = a[0]
    base = a[1] if len(a) > 1 else 10
    if not isinstance(s, SStr) or base not in (10, 16):
        return None
    ps = E.norm(s)
    if len(ps) != 1 or not isinstance(ps[0], Sl):
        return None
    p = ps[0]
    n = z3.simplify(p.b - p.a)
    if not z3.is_int_value(n) or not 1 <= n.as_long() <= 12:
        return None
    n = n.as_long()
    ok = hexdigit if base == 16 else digit
    if not E.valid(z3.And(p.a >= 0, p.b <= N, *[ok(raw(p.a + j)) for j in range(n)])):
        return None
    return mki(z3.simplify(hexnum(p.a, n, base)))


def float_hook(E, v):
    if not E.valid(numbersyntax(E)[0]) or not whole(E, v):
        return None
    return SVal(FLOAT(E.term(v)), "float")


def whole(E, v):
    s = E.norm(v)
    return len(s) == 1 and isinstance(s[0], Sl) and E.valid(z3.And(s[0].a == 0, s[0].b == N))


def find_hook(E, o, ch, a):
    if ch == "." and not a and isinstance(o, SStr) and whole(E, o):
        r = FD(E, z3.IntVal(0))
        E.add(z3.And(r >= -1, r < N))
        return [mki(r)]


# ---------------------------------------------------------------- contracts
class L(Contract):
    cls = None

    def setup(self, E):
        o = Obj(E.module(AST).env[self.cls])
        o.fields = {"value": source(E), "span": None}
        return [o], {}

    def item(self, r, n):
        if not isinstance(r, SDict) or r.base is not None:
            return None
        d = {k: v for k, v in r.items}
        return d.get(n)


class string_parse(L):
    key, cls = AST + ":StringLiteral.parse", "StringLiteral"

    def post(self, E, a, o, r):
        v = self.item(r, "value")
        return [("the text with its escapes decoded", is_strv(v) and E.term(v) == UNESC(z3.IntVal(0)))]


class number_parse(L):
    key, cls = AST + ":NumberLiteral.parse", "NumberLiteral"

    def pre(self, E, a):
        return [("a number literal", numbersyntax(E)[0])]

    def post(self, E, a, o, r):
        v, p = self.item(r, "value"), self.item(r, "precision")
        return [("its numeric value", v is not None and not is_strv(v) and E.term(v) == FLOAT(E.term(E.getfield(a.self, "value")))),
                ("its number of decimal digits", isinstance(p, (int, SInt)) and zi(p) == numbersyntax(E)[1])]


LITERAL = [string_parse(), number_parse()]


def registry():
    reg = Registry()
    for c in LITERAL:
        reg.active[c.key] = c
    reg.re_hook, reg.int_hook, reg.float_hook, reg.find_hook = re_hook, int_hook, float_hook, find_hook
    return reg
