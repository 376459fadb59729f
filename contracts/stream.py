"""Contracts of fluent.syntax.stream: exact functional specifications.

Positions are indices into the source.  R(i) is the raw character, CH(i) the
character with CRLF read as LF, NX(i) the position after it."""
import ast
import z3
from engine.contract import *
from engine.interp import *
from engine.sym import *

MOD = "fluent.syntax.stream"
LF, CR, SP = 10, 13, 32
_CH = uf("CH", I, I)


def R(i):
    """code of the raw character, -1 at and after the end"""
    return z3.If(z3.And(i >= 0, i < N), raw(i), z3.IntVal(-1))


def CH(E, i):
    i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
    t = _CH(i)
    E.once(("CH", i.get_id()), lambda: [
        t == z3.If(i >= N, z3.IntVal(-1), z3.If(z3.And(raw(i) == CR, i + 1 < N, raw(i + 1) == LF), z3.IntVal(LF), raw(i))),
        raw(i) >= 0, raw(i + 1) >= 0, raw(i) <= 0x10FFFF])
    return t


def crlf(i):
    return z3.And(i + 1 < N, raw(i) == CR, raw(i + 1) == LF)


def NX(E, i):
    CH(E, i)
    return z3.If(crlf(i), i + 2, i + 1)


def idstart(c):
    return z3.Or(z3.And(c >= 97, c <= 122), z3.And(c >= 65, c <= 90))


def idchar(c):
    return z3.Or(idstart(c), digit(c), c == 95, c == 45)


def digit(c):
    return z3.And(c >= 48, c <= 57)


def hexdigit(c):
    return z3.Or(digit(c), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))


def _m(E, i, *r):
    return z3.If(i <= N, N - i, z3.IntVal(0))


# end of the blanks (spaces and line ends) at i
BL = Spec("BL", [I], I, lambda E, i: z3.If(z3.Or(CH(E, i) == SP, CH(E, i) == LF), BL(E, NX(E, i)), i),
          facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N), CH(E, t) != SP, CH(E, t) != LF], measure=_m)
# end of the run of spaces at i
BI = Spec("BI", [I], I, lambda E, i: z3.If(CH(E, i) == SP, BI(E, i + 1), i),
          facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N), CH(E, t) != SP, BL(E, t) == BL(E, a[0])], measure=_m)


def _bb(E, i, k):
    j = BI(E, i)
    return z3.If(CH(E, j) == LF, BB(E, NX(E, j), k + 1), z3.If(j >= N, j, i))


def _bk(E, i, k):
    j = BI(E, i)
    return z3.If(CH(E, j) == LF, BK(E, NX(E, j), k + 1), k)


# end of the blank block at i: after the last blank line; number of its line ends
BB = Spec("BB", [I, I], I, _bb, facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N), BL(E, t) == BL(E, a[0]),
          z3.Or(BK(E, a[0], a[1]) > a[1], t == a[0], t >= N), z3.Implies(BK(E, a[0], a[1]) > a[1], t > a[0])], measure=_m)
BK = Spec("BK", [I, I], I, _bk, facts=lambda E, a, t: [t >= a[1]], measure=_m)


def blockend(E, i):
    return BB(E, i, 0)


def valcont(E, p):
    """a pattern goes on at p, the start of a line"""
    j = BI(E, p)
    c = CH(E, j)
    return z3.Or(c == 123, z3.And(j > p, c != -1, c != 125, c != 46, c != 91, c != 42))


# ---------------------------------------------------------------- the stream object
def source(E):
    if "source" not in E.ghost:
        E.add(N >= 0)
        E.ghost["source"] = SStr(Sl(z3.IntVal(0), N))
    return E.ghost["source"]


def mkstream(E, name="ps", peek0=False, cls="FluentParserStream"):
    c = E.module(MOD).env[cls]
    ps = Obj(c)
    i = E.fresh(name + ".index")
    p = z3.IntVal(0) if peek0 else E.fresh(name + ".peek")
    E.add(z3.And(i >= 0, i <= N, p >= 0, i + p <= N))
    ps.fields = {"string": source(E), "index": SInt(i), "peek_offset": mki(p)}
    return ps


def idx(E, ps):
    return zi(E.getfield(ps, "index"))


def pk(E, ps):
    return zi(E.getfield(ps, "peek_offset"))


def pos(E, ps):
    return idx(E, ps) + pk(E, ps)


def tidy(E, e):
    """resolve the conditionals that are settled on this path"""
    e = z3.simplify(e)
    for _ in range(20):
        t = find_ite(e)
        if t is None:
            return e
        c = t.arg(0)
        if E.valid(c):
            e = z3.simplify(z3.substitute(e, (t, t.arg(1))))
        elif E.valid(z3.Not(c)):
            e = z3.simplify(z3.substitute(e, (t, t.arg(2))))
        else:
            return e
    return e


def find_ite(e, d=0):
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return e
    if d > 6:
        return None
    for c in e.children():
        t = find_ite(c, d + 1)
        if t is not None:
            return t
    return None


def settle(E, ps):
    """write the cursor without the conditionals settled on this path (the same value)"""
    for f in ("index", "peek_offset"):
        v = ps.fields.get(f)
        if isinstance(v, SInt) and find_ite(v.e) is not None:
            ps.fields[f] = mki(tidy(E, v.e))


def isstream(E, ps):
    return isinstance(ps, Obj) and isinstance(ps.cls, ClassVal) and any(getattr(c, "name", "") == "ParserStream" for c in ps.cls.mro())


def setidx(E, ps, e):
    E.setfield(ps, "index", mki(z3.simplify(e)))


def setpk(E, ps, e):
    E.setfield(ps, "peek_offset", mki(z3.simplify(e)))


class St(Contract):
    """method of a stream; state = (index, peek_offset) with 0 <= index, 0 <= peek, index+peek <= N"""
    cls = "FluentParserStream"
    meth = None
    mod_index = False
    mod_peek = False
    peek0 = False

    def __init__(self, meth=None):
        self.meth = meth or self.meth
        self.key = "%s:%s.%s" % (MOD, self.cls, self.meth)

    def setup(self, E):
        return [mkstream(E, peek0=self.peek0)] + self.args(E), {}

    def args(self, E):
        return []

    def pre(self, E, a):
        ps = a.self
        i, p = idx(E, ps), pk(E, ps)
        return [("the cursor is inside the text", z3.And(i >= 0, i <= N, p >= 0, i + p <= N))] + self.pre2(E, a)

    def pre2(self, E, a):
        return []

    def old(self, E, a):
        settle(E, a.self)
        return {"i": idx(E, a.self), "p": pk(E, a.self), "pos": z3.simplify(pos(E, a.self))}

    def modifies(self, E, a):
        return ([(a.self, "index")] if self.mod_index else []) + ([(a.self, "peek_offset")] if self.mod_peek else [])

    # functional specification: new index, new peek offset, result
    def spec(self, E, a, o):
        """(index', peek', value)"""
        raise NotImplementedError

    def sp(self, E, a, o):
        if "sp" not in o:
            o["sp"] = self.spec(E, a, o)
        return o["sp"]

    def havoc(self, E, a, o):
        i, p, v = self.sp(E, a, o)
        if self.mod_index:
            setidx(E, a.self, i)
        if self.mod_peek:
            setpk(E, a.self, p)

    def result(self, E, a, o):
        return self.sp(E, a, o)[2]

    def post(self, E, a, o, r):
        i, p, v = self.sp(E, a, o)
        out = [("cursor", And(idx(E, a.self) == i, pk(E, a.self) == p))]
        return out + self.value_clause(E, r, v)

    def value_clause(self, E, r, v):
        """what the method returns matters where some call looks at it"""
        return [("result", E.eqv(r, v))] if self.meth in looked_at(E) else []


def looked_at(E):
    """names of the methods that are used other than as a statement of their own"""
    if getattr(E.prog, "looked_at", None) is None:
        out = set()
        for t in E.prog.trees.values():
            plain = {id(x.value.func) for x in ast.walk(t) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)}
            out |= {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute) and id(x) not in plain}
            out |= {x.value for x in ast.walk(t) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        E.prog.looked_at = out
    return E.prog.looked_at


def eqv(E, a, b):
    """equality of a result with its specification"""
    if isinstance(a, OChar) and isinstance(b, OChar):
        return a.c == b.c
    if isinstance(b, OChar):
        if a is None:
            return b.c == -1
        if a is False:
            return b.c == -2
        if is_strv(a):
            ps = E.norm(a)
            if len(ps) == 1 and isinstance(ps[0], Ch):
                return b.c == ps[0].c
            if len(ps) == 1 and isinstance(ps[0], str) and len(ps[0]) == 1:
                return b.c == ord(ps[0])
            if len(ps) == 1 and isinstance(ps[0], Sl):
                return And(ps[0].b == ps[0].a + 1, raw(ps[0].a) == b.c)
        return False
    if isinstance(b, (SBool, bool)):
        if not isinstance(a, (SBool, bool)):
            return False
        x = a.e if isinstance(a, SBool) else z3.BoolVal(a)
        y = b.e if isinstance(b, SBool) else z3.BoolVal(b)
        return x == y
    if b is None:
        return a is None
    if is_strv(b):
        return is_strv(a) and E.weq(a, b)
    if isinstance(b, (SInt, int)):
        return isinstance(a, (SInt, int)) and zi(a) == zi(b)
    raise Unsupported("eqv %r %r" % (a, b))


Full.eqv = eqv


def fns(E):
    """functions of the current state of the stream, for loop invariants"""


class get(St):
    cls, meth = "ParserStream", "get"

    def args(self, E):
        i = E.fresh("offset")
        E.add(i >= 0)
        return [SInt(i)]

    def pre(self, E, a):
        return [("the offset is not negative", zi(a.offset) >= 0)]

    def spec(self, E, a, o):
        CH(E, zi(a.offset))
        return o["i"], o["p"], OChar(z3.simplify(R(zi(a.offset))))


class char_at(get):
    meth = "char_at"

    def spec(self, E, a, o):
        return o["i"], o["p"], OChar(CH(E, zi(a.offset)))


class current_char(St):
    cls, meth = "ParserStream", "current_char"

    def pre(self, E, a):
        return [("the cursor is not negative", idx(E, a.self) >= 0)]

    def spec(self, E, a, o):
        return o["i"], o["p"], OChar(CH(E, o["i"]))


class current_peek(St):
    cls, meth = "ParserStream", "current_peek"

    def pre(self, E, a):
        return [("the look-ahead is not negative", pos(E, a.self) >= 0)]

    def spec(self, E, a, o):
        return o["i"], o["p"], OChar(CH(E, o["pos"]))


class next_(St):
    cls, meth, mod_index, mod_peek = "ParserStream", "next", True, True

    def pre(self, E, a):
        return [("the cursor is not negative", idx(E, a.self) >= 0)]

    def spec(self, E, a, o):
        i = z3.simplify(NX(E, o["i"]))
        CH(E, i)
        return i, z3.IntVal(0), OChar(z3.simplify(R(i)))


class peek(St):
    cls, meth, mod_peek = "ParserStream", "peek", True

    def pre(self, E, a):
        return [("the look-ahead is not negative", pos(E, a.self) >= 0)]

    def spec(self, E, a, o):
        j = z3.simplify(NX(E, o["pos"]))
        CH(E, j)
        return o["i"], z3.simplify(j - o["i"]), OChar(z3.simplify(R(j)))


class reset_peek(St):
    cls, meth, mod_peek = "ParserStream", "reset_peek", True

    def args(self, E):
        return [SInt(E.fresh("offset"))]

    def pre(self, E, a):
        return []

    def spec(self, E, a, o):
        return o["i"], zi(a.offset), None


class skip_to_peek(St):
    cls, meth, mod_index, mod_peek = "ParserStream", "skip_to_peek", True, True

    def pre(self, E, a):
        return []

    def spec(self, E, a, o):
        return o["pos"], z3.IntVal(0), None


def const_cand(name, f):
    """loop invariant: f(state) is what it was at the entry of the loop"""
    return name, f


class BlankBase(St):
    def stream(self, ctx):
        return ctx.E.ghost["args"].self

    def cands(self, E, ctx):
        """[(name, term at the current state, value at function entry)]"""
        return []

    def loop_candidates(self, E, ctx):
        out = []
        for n, f in self.cands_fns(E):
            out.append(("spec " + n, f))
        return out + [("inside", lambda c: pos(E, self.stream(c)) <= N), ("peeknonneg", lambda c: pk(E, self.stream(c)) >= 0)]

    def cands_fns(self, E):
        return []


class peek_blank_inline(BlankBase):
    meth, mod_peek = "peek_blank_inline", True

    def spec(self, E, a, o):
        j = BI(E, o["pos"])
        return o["i"], z3.simplify(j - o["i"]), SStr(Sl(o["pos"], j))

    def cands_fns(self, E):
        o = E.ghost["old"]
        return [("BI", lambda c: BI(E, pos(E, self.stream(c))) == BI(E, o["pos"]))]


class skip_blank_inline(BlankBase):
    meth, mod_peek, mod_index = "skip_blank_inline", True, True

    def spec(self, E, a, o):
        j = BI(E, o["pos"])
        return j, z3.IntVal(0), SStr(Sl(o["pos"], j))

    cands_fns = peek_blank_inline.cands_fns


class peek_blank_block(BlankBase):
    meth, mod_peek = "peek_blank_block", True

    def spec(self, E, a, o):
        j = BB(E, o["pos"], 0)
        return o["i"], z3.simplify(j - o["i"]), SStr(Rep("\n", BK(E, o["pos"], 0)))

    def cands_fns(self, E):
        o = E.ghost["old"]

        def k(c):
            # the string built so far is a run of line feeds: its length counts them
            for v in c.fr.vars.values():
                if is_strv(v):
                    return E.slen(v)
            return z3.IntVal(0)
        return [("BB", lambda c: BB(E, pos(E, self.stream(c)), k(c)) == BB(E, o["pos"], 0)),
                ("BK", lambda c: BK(E, pos(E, self.stream(c)), k(c)) == BK(E, o["pos"], 0))]


class skip_blank_block(peek_blank_block):
    meth, mod_peek, mod_index = "skip_blank_block", True, True

    def spec(self, E, a, o):
        return BB(E, o["pos"], 0), z3.IntVal(0), SStr(Rep("\n", BK(E, o["pos"], 0)))


class peek_blank(BlankBase):
    meth, mod_peek = "peek_blank", True

    def spec(self, E, a, o):
        j = BL(E, o["pos"])
        return o["i"], z3.simplify(j - o["i"]), None

    def cands_fns(self, E):
        o = E.ghost["old"]
        return [("BL", lambda c: BL(E, pos(E, self.stream(c))) == BL(E, o["pos"]))]


class skip_blank(peek_blank):
    meth, mod_peek, mod_index = "skip_blank", True, True

    def spec(self, E, a, o):
        return BL(E, o["pos"]), z3.IntVal(0), None


# ---------------------------------------------------------------- characters
class ParseErr:
    """a ParseError object with one of the documented codes"""

    @staticmethod
    def make(E, code=None):
        c = E.module("fluent.syntax.errors").env["ParseError"]
        o = Obj(c)
        o.fields = {"code": code if code is not None else SStr(Op(E.fresh("code", U))), "args": SVal(E.fresh("errargs", U), "tuple"),
                    "message": SStr(Op(E.fresh("message", U)))}
        E.ghost.setdefault("documented", set()).add(id(o))
        E.keepalive.append(o)
        return o

    @staticmethod
    def is_(E, x):
        return isinstance(x, Obj) and isinstance(x.cls, ClassVal) and x.cls.name == "ParseError"


class RaiseSpec(St):
    """either succeeds as specified or raises ParseError and leaves the cursor where it was"""
    may_raise = True
    mod_index = mod_peek = True

    def ok(self, E, a, o):
        raise NotImplementedError

    def raises_when(self, E, a, o):
        return z3.Not(self.ok(E, a, o))

    def havoc_exc(self, E, a, o):
        pass

    def exc(self, E, a, o):
        return ParseErr.make(E)

    def post_exc(self, E, a, o, x):
        return [("raises a ParseError", ParseErr.is_(E, x)), ("the cursor stays", And(idx(E, a.self) == o["i"]))]


class ochar_arg(St):
    def args(self, E):
        c = E.fresh("ch")
        E.add(c >= -1)
        return [OChar(c)]

    def pre(self, E, a):
        return []

    def code(self, E, v):
        if v is None:
            return z3.IntVal(-1)
        if isinstance(v, OChar):
            return v.c
        if is_strv(v):
            ps = E.norm(v)
            if len(ps) == 1 and isinstance(ps[0], Ch):
                return ps[0].c
            if len(ps) == 1 and isinstance(ps[0], str) and len(ps[0]) == 1:
                return z3.IntVal(ord(ps[0]))
            if len(ps) == 1 and isinstance(ps[0], Sl):
                E.prove(ps[0].b == ps[0].a + 1, "requires of a character predicate: one character")
                return raw(ps[0].a)
        raise Unsupported("character %r" % (v,))


class is_char_id_start(ochar_arg):
    meth = "is_char_id_start"

    def spec(self, E, a, o):
        return o["i"], o["p"], SBool(idstart(self.code(E, a.ch)))


class is_char_pattern_continuation(ochar_arg):
    meth = "is_char_pattern_continuation"

    def spec(self, E, a, o):
        c = self.code(E, a.ch)
        return o["i"], o["p"], SBool(z3.And(c != -1, c != 125, c != 46, c != 91, c != 42))


class is_identifier_start(St):
    meth = "is_identifier_start"

    def spec(self, E, a, o):
        return o["i"], o["p"], SBool(idstart(CH(E, o["pos"])))


class is_value_start(St):
    meth = "is_value_start"

    def spec(self, E, a, o):
        c = CH(E, o["pos"])
        return o["i"], o["p"], SBool(z3.And(c != -1, c != LF))


class is_attribute_start(St):
    meth = "is_attribute_start"

    def spec(self, E, a, o):
        return o["i"], o["p"], SBool(CH(E, o["pos"]) == 46)


class is_number_start(St):
    meth, mod_peek = "is_number_start", True

    def pre2(self, E, a):
        return [("no look-ahead", pk(E, a.self) == 0)]

    def setup(self, E):
        return [mkstream(E, peek0=True)], {}

    def spec(self, E, a, o):
        i = o["i"]
        c = CH(E, i)
        CH(E, i + 1)
        return i, z3.IntVal(0), SBool(z3.If(c == 45, digit(R(i + 1)), digit(c)))


class is_value_continuation(St):
    meth, mod_peek = "is_value_continuation", True

    def spec(self, E, a, o):
        v = valcont(E, o["pos"])
        # where it says no, the look-ahead is left anywhere inside the text
        j = BI(E, o["pos"])
        return o["i"], z3.simplify(z3.If(v, o["p"], j - o["i"])), SBool(v)

    def havoc(self, E, a, o):
        i, p, v = self.sp(E, a, o)
        q = E.fresh("peek")
        E.add(z3.And(q >= 0, o["i"] + q <= N, z3.Implies(v.e, q == o["p"]), BL(E, o["i"] + q) == BL(E, o["pos"])))
        setpk(E, a.self, q)

    def post(self, E, a, o, r):
        i, p, v = self.sp(E, a, o)
        q = pk(E, a.self)
        return [("cursor", And(idx(E, a.self) == i, q >= 0, i + q <= N, z3.Implies(v.e, q == o["p"]))),
                ("only blanks are looked over", BL(E, i + q) == BL(E, o["pos"])), *self.value_clause(E, r, v)]


class is_next_line_comment(St):
    meth, mod_peek = "is_next_line_comment", True
    unroll = 4

    def setup(self, E):
        return [mkstream(E, peek0=True), E.choose(3)], {}

    def pre2(self, E, a):
        l = zi(a.level)
        return [("no look-ahead", pk(E, a.self) == 0), ("a comment level", z3.And(l >= 0, l <= 2))]

    def spec(self, E, a, o):
        l = zi(a.level)
        i = o["i"]
        q = NX(E, i)
        return i, z3.IntVal(0), SBool(z3.And(CH(E, i) == LF, commentline(E, q, l)))


def commentline(E, q, l):
    """a comment line of level l starts at q (it may have more hashes only after one blank)"""
    def hashes(k):
        e = CH(E, q + k)
        return z3.And(*[CH(E, q + n) == 35 for n in range(k)] + [z3.Or(e == SP, e == LF, e == -1)])
    return z3.If(l == 0, hashes(1), z3.If(l == 1, hashes(2), hashes(3)))


class is_variant_start(St):
    meth, mod_peek = "is_variant_start", True

    def spec(self, E, a, o):
        return o["i"], o["p"], SBool(varstart(E, o["pos"]))


def varstart(E, p):
    q = z3.If(CH(E, p) == 42, p + 1, p)
    CH(E, p + 2)
    return z3.If(CH(E, p) == 42, z3.And(CH(E, p + 1) == 91, R(p + 2) != 91), z3.And(CH(E, p) == 91, R(p + 1) != 91))


class expect_char(RaiseSpec):
    meth = "expect_char"

    def args(self, E):
        c = E.fresh("ch")
        E.add(z3.And(c >= 0, c <= 0x10FFFF))
        return [SStr(Ch(c))]

    def ok(self, E, a, o):
        return CH(E, o["i"]) == ochar_arg.code(self, E, a.ch)

    def spec(self, E, a, o):
        return z3.simplify(NX(E, o["i"])), z3.IntVal(0), True


class expect_line_end(RaiseSpec):
    meth = "expect_line_end"

    def ok(self, E, a, o):
        c = CH(E, o["i"])
        return z3.Or(c == -1, c == LF)

    def spec(self, E, a, o):
        c = CH(E, o["i"])
        return z3.simplify(z3.If(c == -1, o["i"], NX(E, o["i"]))), z3.simplify(z3.If(c == -1, o["p"], z3.IntVal(0))), True


class take_id_start(RaiseSpec):
    meth = "take_id_start"

    def ok(self, E, a, o):
        return idstart(CH(E, o["i"]))

    def spec(self, E, a, o):
        return z3.simplify(NX(E, o["i"])), z3.IntVal(0), OChar(CH(E, o["i"]))


class take_char(St):
    meth, mod_index, mod_peek = "take_char", True, True

    def args(self, E):
        P = uf("takep", I, B)

        def f(E2, a, k):
            return SBool(P(self.code(E2, a[0])))
        return [Native("takep", f)]

    code = ochar_arg.code

    def holds(self, E, a, o):
        c = CH(E, o["i"])
        n = len(E.work)
        v = E.call(a.f, [SStr(Ch(c))], {})
        t = E.truth(v)
        return t if isinstance(t, bool) else t

    def spec(self, E, a, o):
        c = CH(E, o["i"])
        if E.branch(c == -1):
            return o["i"], o["p"], None
        t = self.holds(E, a, o)
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        i = o["i"]
        return z3.simplify(z3.If(t, NX(E, i), i)), z3.simplify(z3.If(t, z3.IntVal(0), o["p"])), OChar(z3.simplify(z3.If(t, c, z3.IntVal(-2))))

    def post(self, E, a, o, r):
        i, p, v = self.sp(E, a, o)
        return [("cursor", And(idx(E, a.self) == i, pk(E, a.self) == p)), *self.value_clause(E, r, v)]


class take_class(St):
    mod_index = mod_peek = True

    def cls_(self, c):
        raise NotImplementedError

    def spec(self, E, a, o):
        i = o["i"]
        c = CH(E, i)
        t = self.cls_(c)
        return (z3.simplify(z3.If(t, NX(E, i), i)), z3.simplify(z3.If(t, z3.IntVal(0), o["p"])),
                OChar(z3.If(t, c, z3.If(c == -1, z3.IntVal(-1), z3.IntVal(-2)))))


class take_id_char(take_class):
    meth = "take_id_char"

    def cls_(self, c):
        return idchar(c)


class take_digit(take_class):
    meth = "take_digit"

    def cls_(self, c):
        return digit(c)


class take_hex_digit(take_class):
    meth = "take_hex_digit"

    def cls_(self, c):
        return hexdigit(c)


# ---------------------------------------------------------------- resynchronisation
def entrystart(E, p):
    """the line at p begins like an entry"""
    CH(E, p)
    CH(E, p + 1)
    c, d = R(p), R(p + 1)
    return z3.Or(idstart(c), c == 45, c == 35, z3.And(c == 47, d == 47), z3.And(c == 91, d == 91))


# first start of a line beginning like an entry after a line end at or after i, or the end
SK = Spec("SK", [I], I, lambda E, i: z3.If(CH(E, i) == -1, i, z3.If(CH(E, i) != LF, SK(E, NX(E, i)),
          z3.If(entrystart(E, z3.simplify(NX(E, i))), NX(E, i), SK(E, NX(E, i))))),
          facts=lambda E, a, t: [t >= a[0], z3.Implies(a[0] <= N, t <= N)], measure=_m)
# last line feed before i, or -1
_LN = uf("LN", I, I)


def LN(E, i):
    t = _LN(i)
    E.once(("LN", i.get_id()), lambda: [z3.Or(t == -1, z3.And(t >= 0, t < i, t < N, raw(t) == LF))])
    return t


def rfind_hook(E, r, lo, hi, ch):
    # the last line feed before a position is unique: this names it (model of str.rfind)
    if ch == LF and E.valid(lo == 0):
        E.add(r == LN(E, z3.simplify(hi)))


class skip_to_next_entry_start(BlankBase):
    meth, mod_index, mod_peek = "skip_to_next_entry_start", True, True

    def args(self, E):
        j = E.fresh("junk_start")
        E.add(j >= 0)
        return [SInt(j)]

    def pre2(self, E, a):
        return [("the junk starts before the cursor", And(zi(a.junk_start) >= 0, zi(a.junk_start) <= idx(E, a.self)))]

    def spec(self, E, a, o):
        l = LN(E, o["i"])
        s = z3.If(zi(a.junk_start) < l, l, o["i"])
        return SK(E, s), None, None

    def havoc(self, E, a, o):
        i, p, v = self.sp(E, a, o)
        setidx(E, a.self, i)
        setpk(E, a.self, z3.IntVal(0))

    def post(self, E, a, o, r):
        i, p, v = self.sp(E, a, o)
        return [("cursor", And(idx(E, a.self) == i, i <= N)), ("no look-ahead is left", pk(E, a.self) == 0), ("not before the junk", i >= zi(a.junk_start))]

    def cands_fns(self, E):
        o = E.ghost["old"]
        a = E.ghost["args"]
        return [("SK", lambda c: SK(E, idx(E, self.stream(c))) == self.sp(E, a, o)[0]), ("idx", lambda c: And(pk(E, self.stream(c)) >= 0, pos(E, self.stream(c)) <= N))]


class perr(Contract):
    """every documented error code has a message"""
    may_raise = False


STREAM = [get(), char_at(), current_char(), current_peek(), next_(), peek(), reset_peek(), skip_to_peek(),
          peek_blank_inline(), skip_blank_inline(), peek_blank_block(), skip_blank_block(), peek_blank(), skip_blank(),
          expect_char(), expect_line_end(), take_char(), is_char_id_start(), is_identifier_start(), is_number_start(),
          is_char_pattern_continuation(), is_value_start(), is_value_continuation(), is_next_line_comment(),
          is_variant_start(), is_attribute_start(), skip_to_next_entry_start(), take_id_start(), take_id_char(),
          take_digit(), take_hex_digit()]
