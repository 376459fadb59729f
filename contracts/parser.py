"""Contracts of fluent.syntax.parser.

mode "safe": what totality needs (C01); mode "gram": exact functional
specifications against contracts/grammar.py (C03-C07)."""
import z3
from engine.contract import *
from engine.interp import *
from engine.sym import *
from . import astschema, spans
from .stream import *
from .grammar import *

PM = "fluent.syntax.parser"
DOCUMENTED = ["E0002", "E0003", "E0004", "E0005", "E0006", "E0008", "E0009", "E0010", "E0011", "E0012", "E0013",
              "E0014", "E0015", "E0016", "E0017", "E0018", "E0019", "E0020", "E0021", "E0022", "E0024", "E0025",
              "E0026", "E0027", "E0028", "E0029", "E00001", "E0007"]


def mode(E):
    return E.s.opts.get("mode", "safe")


def mkparser(E):
    o = Obj(E.module(PM).env["FluentParser"])
    ws = E.s.opts.get("with_spans")
    v = E.fresh("with_spans", B) if ws is None else ws
    E.ghost["ws"] = v
    o.fields = {"with_spans": SBool(v) if ws is None else ws}
    return o


def documented(E, x):
    """the exception is a ParseError with a documented code and a non-empty message"""
    if not ParseErr.is_(E, x):
        return False
    if id(x) in E.ghost.get("documented", ()):
        return True
    c = E.getfield(x, "code")
    m = E.getfield(x, "message")
    if not isinstance(c, str) or c not in DOCUMENTED or not is_strv(m):
        return False
    n = E.slen(m)
    return n >= 1


class P(Contract):
    """a method of the parser working on the stream ps"""
    meth = None
    classes = ()            # classes of the result
    progress = 1            # least number of characters consumed
    rank = None             # inside the recursive group
    raises = True
    peek0 = True            # wants no look-ahead
    peek0_after = True
    mod_index = mod_peek = True

    def __init__(self):
        self.key = "%s:FluentParser.%s" % (PM, self.meth)
        self.may_raise = self.raises
        self.group = "parser" if self.rank is not None else None

    # arguments behind the decorator arrive in *args / **kwargs
    def arg(self, a, n, name):
        if name in a.d:
            return a.d[name]
        kw = a.d.get("kwargs")
        if isinstance(kw, SDict):
            for k, v in kw.items:
                if k == name:
                    return v
        rest = a.d.get("args", ())
        if n < len(rest):
            return rest[n]
        raise KeyError(name)

    def setup(self, E):
        return [mkparser(E), mkstream(E, peek0=self.peek0)] + self.args(E), {}

    def args(self, E):
        return []

    def pre(self, E, a):
        ps = a.ps
        i, p = idx(E, ps), pk(E, ps)
        out = [("the cursor is inside the text", z3.And(i >= 0, i <= N, p >= 0, i + p <= N))]
        if self.peek0:
            out.append(("no look-ahead", p == 0))
        return out + self.pre2(E, a)

    def pre2(self, E, a):
        return []

    def old(self, E, a):
        settle(E, a.ps)
        return {"i": idx(E, a.ps), "p": pk(E, a.ps)}

    def modifies(self, E, a):
        return [(a.ps, "index"), (a.ps, "peek_offset")]

    def decreases(self, E, a):
        return (N - idx(E, a.ps), self.rank)

    # specification -------------------------------------------------------
    def end(self, E, a, o):
        """grammar: end of the construct, negative when there is none"""
        return None

    def node(self, E, a, o):
        return None

    def gx(self, E, a, o):
        if "x" not in o:
            o["x"] = self.end(E, a, o)
        return o["x"]

    def gn(self, E, a, o):
        if "n" not in o:
            o["n"] = self.node(E, a, o)
        return o["n"]

    def gram(self, E):
        return mode(E) == "gram"

    def raises_when(self, E, a, o):
        if self.gram(E):
            x = self.gx(E, a, o)
            if x is not None:
                return x < 0
        return None

    def havoc(self, E, a, o):
        i = E.fresh("index")
        p = z3.IntVal(0) if self.peek0_after else E.fresh("peek")
        if self.gram(E):
            x = self.gx(E, a, o)
            if x is not None:
                i = tidy(E, x)
                E.add(z3.And(i >= 0, i <= N))
        setidx(E, a.ps, i)
        setpk(E, a.ps, p)

    def havoc_exc(self, E, a, o):
        setidx(E, a.ps, E.fresh("index"))
        setpk(E, a.ps, E.fresh("peek"))

    def exc(self, E, a, o):
        return ParseErr.make(E)

    def post_exc(self, E, a, o, x):
        i, p = idx(E, a.ps), pk(E, a.ps)
        out = [("raises a ParseError with a documented code and a message", documented(E, x)),
               ("the cursor stays inside the text", And(i >= o["i"], i <= N, p >= 0, i + p <= N))]
        return out

    def result(self, E, a, o):
        if not self.classes:
            return None
        t = self.gn(E, a, o) if self.gram(E) else E.fresh("node_" + self.meth, U)
        return astschema.node(E, t, list(self.classes))

    def post(self, E, a, o, r):
        i, p = idx(E, a.ps), pk(E, a.ps)
        out = [("the cursor moves forward inside the text", z3.And(i >= o["i"] + self.progress, i <= N, p >= 0, i + p <= N))]
        if self.peek0_after:
            out.append(("no look-ahead is left", p == 0))
        else:
            out += self.peek_post(E, a, o)
        if self.classes:
            out.append(("kind of the result", self.kind(E, r)))
            if E.verifying == self.key and isinstance(r, Obj):
                out.append(("the result has a span when spans are recorded", astschema.spanned(E, r)))
        if self.gram(E):
            x = self.gx(E, a, o)
            if x is not None:
                out.append(("accepts what the grammar does", x == i))
            n = self.gn(E, a, o)
            if n is not None:
                out.append(("the tree is what was written", E.term(r) == n))
        if mode(E) == "span":
            out += spans.node_post(self, E, a, o, r) + spans.list_post(self, E, a, o, r)
        out += self.post2(E, a, o, r)
        return out

    def peek_post(self, E, a, o):
        i, p = idx(E, a.ps), pk(E, a.ps)
        return [("only blanks are looked over", BL(E, z3.simplify(i + p)) == BL(E, i))]

    def post2(self, E, a, o, r):
        return []

    def kind(self, E, r):
        if not isinstance(r, Obj):
            return False
        from engine import models
        return models.isinst(E, r, tuple(astcls(E, c) for c in self.classes))


def stream_of(c):
    return c.E.ghost["args"].ps


class LoopP(P):
    """adds loop invariants f(state) == f(entry state)"""

    def folds(self, E, c):
        """[(name, term at the current state)], evaluated at entry and later"""
        return []

    def loop_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        out = [("inside", lambda c: z3.And(idx(E, ps) + pk(E, ps) <= N, pk(E, ps) >= 0, idx(E, ps) >= 0, idx(E, ps) <= N)),
               ("peek0", lambda c: pk(E, ps) == 0)]
        for n, v in E.frames[-1].vars.items():
            if isinstance(v, OChar):
                out.append(("held is before the cursor: " + n, lambda c, n=n: heldchar(E, c.fr.vars[n], idx(E, ps))))
        if mode(E) == "gram":
            out += self.gram_candidates(E, ctx)
        if mode(E) == "span":
            out += spans.loop_candidates(self, E, ctx)
        return out

    def gram_candidates(self, E, ctx):
        return []


def heldchar(E, v, i):
    if v is None or v is False:
        return True
    c = v.c if isinstance(v, OChar) else z3.IntVal(ord(v)) if isinstance(v, str) and len(v) == 1 else None
    if c is None:
        raise KeyError
    CH(E, i - 1)
    return z3.Implies(c >= 0, z3.And(i >= 1, i <= N, raw(i - 1) == c))


def strs(c):
    """strings among the local variables"""
    return [(n, v) for n, v in c.fr.vars.items() if is_strv(v) or isinstance(v, OChar)]


def lists(c):
    return [(n, v) for n, v in c.fr.vars.items() if isinstance(v, SList)]


# ---------------------------------------------------------------- tokens
class get_identifier(LoopP):
    meth, classes = "get_identifier", ("Identifier",)

    def end(self, E, a, o):
        return IDX(E, o["i"])

    def node(self, E, a, o):
        return IDN(E, o["i"])

    def result(self, E, a, o):
        r = P.result(self, E, a, o)
        if self.gram(E):
            r.fields["name"] = SStr(Sl(o["i"], idx(E, a.ps)))
        return r

    def gram_candidates(self, E, ctx):
        i0 = E.ghost["old"]["i"]
        ps = E.ghost["args"].ps
        return taken(E, ps, lambda i: IDE(E, i) == IDE(E, i0 + 1), lambda i: IDE(E, i))


def taken(E, ps, f, end):
    """loops `ch = take(); while ch: ...`: f(position of the character held or next)"""
    def cand(n):
        def g(c):
            v = c.fr.vars[n]
            i = idx(E, ps)
            if v is None or v is False:
                return f(i)
            if isinstance(v, OChar):
                return And(z3.Implies(v.c < 0, f(i)), z3.Implies(v.c >= 0, f(i - 1)))
            raise KeyError(n)
        return g

    def stopped(n):
        def g(c):
            v = c.fr.vars[n]
            i = idx(E, ps)
            if v is None or v is False:
                return end(i) == i
            if isinstance(v, OChar):
                return z3.Implies(v.c < 0, end(i) == i)
            raise KeyError(n)
        return g
    return [("held %s" % n, cand(n)) for n in ctxnames(E)] + [("next", lambda c: f(idx(E, ps)))] + [("stopped %s" % n, stopped(n)) for n in ctxnames(E)]


def taken_same(E, ctx, ps, f):
    """f(position of the character held or next) does not change in the loop"""
    iloc = [l for l in ctx.entry if l[0] == "path" and l[1][-1] == "index"]

    def pos(i, v):
        if v is None or v is False:
            return i
        if isinstance(v, OChar):
            return z3.simplify(If(v.c >= 0, i - 1, i))
        raise KeyError

    def cand(n):
        def g(c):
            l0 = iloc[0] if iloc else None
            e = zi(c.entry[l0]) if l0 else idx(E, ps)
            return f(pos(idx(E, ps), c.fr.vars[n])) == f(pos(e, c.entry.get(("local", n), c.fr.vars[n])))
        return g

    def line(n):
        def g(c):
            v = c.fr.vars[n]
            if v is None or v is False:
                return True
            return z3.Implies(v.c >= 0, z3.And(v.c != LF, CH(E, idx(E, ps) - 1) == v.c))
        return g
    def next_(c):
        l0 = iloc[0] if iloc else None
        return f(idx(E, ps)) == f(zi(c.entry[l0]) if l0 else idx(E, ps))
    return [("same next", next_)] + [("same held %s" % n, cand(n)) for n in ctxnames(E)] + [("held is no line end %s" % n, line(n)) for n in ctxnames(E)]


def ctxnames(E):
    fr = E.frames[-1]
    return [n for n, v in fr.vars.items() if isinstance(v, OChar) or v is None or v is False]


class get_digits(LoopP):
    meth = "get_digits"

    def end(self, E, a, o):
        d = DGE(E, o["i"])
        return If(d > o["i"], d, IV(-1))

    def result(self, E, a, o):
        if self.gram(E):
            return SStr(Sl(o["i"], DGE(E, o["i"])))
        if mode(E) == "span":
            return SStr(Sl(o["i"], idx(E, a.ps)))
        return SStr(Op(E.fresh("digits", U)))

    def post2(self, E, a, o, r):
        out = [("a string", is_strv(r))]
        if self.gram(E):
            out.append(("the digits", is_strv(r) and E.weq(r, SStr(Sl(o["i"], DGE(E, o["i"]))))))
        if mode(E) == "span":
            out.append(("the text passed over", is_strv(r) and E.weq(r, SStr(Sl(o["i"], idx(E, a.ps))))))
        return out

    def gram_candidates(self, E, ctx):
        i0 = E.ghost["old"]["i"]
        return taken(E, E.ghost["args"].ps, lambda i: DGE(E, i) == DGE(E, i0), lambda i: DGE(E, i))


class get_number(P):
    meth, classes = "get_number", ("NumberLiteral",)

    def end(self, E, a, o):
        return NUMX(E, o["i"])

    def node(self, E, a, o):
        return NUMN(E, o["i"])


class get_text_element(LoopP):
    meth, classes, raises = "get_text_element", ("TextElement",), False

    def pre2(self, E, a):
        c = CH(E, idx(E, a.ps))
        return [("starts with a text character", z3.And(c != -1, c != LF, c != 123, c != 125))]

    def end(self, E, a, o):
        return TXE(E, o["i"])

    def node(self, E, a, o):
        return TXN(E, o["i"])

    def gram_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        i0 = E.ghost["old"]["i"]
        return [("TXE", lambda c: TXE(E, idx(E, ps)) == TXE(E, i0))]

    def loop_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        i0 = E.ghost["old"]["i"]
        return LoopP.loop_candidates(self, E, ctx) + [
            ("first", lambda c: z3.Or(idx(E, ps) > i0, And(idx(E, ps) == i0)))]


class get_escape_sequence(P):
    meth = "get_escape_sequence"

    def end(self, E, a, o):
        return ESCX(E, o["i"])

    def result(self, E, a, o):
        if self.gram(E) or mode(E) == "span":
            return SStr("\\", Sl(o["i"], idx(E, a.ps)))
        return SStr(Op(E.fresh("escape", U)))

    def post2(self, E, a, o, r):
        out = [("a string", is_strv(r))]
        if self.gram(E) or mode(E) == "span":
            out.append(("the escape verbatim", is_strv(r) and E.weq(r, SStr("\\", Sl(o["i"], idx(E, a.ps))))))
        return out


class get_unicode_escape_sequence(LoopP):
    meth, unroll_for = "get_unicode_escape_sequence", 8

    def args(self, E):
        k = E.choose(2)
        return ["uU"[k], (4, 6)[k]]

    def pre2(self, E, a):
        d = a.digits
        return [("4 or 6 digits", isinstance(d, int) and d in (4, 6))]

    def end(self, E, a, o):
        i = o["i"]
        ok = And(CH(E, i) == ochar_arg.code(self, E, a.u), hexrun(E, i + 1, a.digits))
        return If(ok, i + 1 + a.digits, IV(-1))

    result = get_escape_sequence.result
    post2 = get_escape_sequence.post2


class get_string(LoopP):
    meth, classes = "get_string", ("StringLiteral",)
    progress = 2

    def end(self, E, a, o):
        return STRX(E, o["i"])

    def node(self, E, a, o):
        return STRN(E, o["i"])

    def gram_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        i0 = E.ghost["old"]["i"]
        return [("SBE", lambda c: SBE(E, idx(E, ps)) == SBE(E, i0 + 1))]


class get_literal(P):
    meth, classes = "get_literal", ("NumberLiteral", "StringLiteral")

    def end(self, E, a, o):
        return LITX(E, o["i"])

    def node(self, E, a, o):
        return LITN(E, o["i"])


# ---------------------------------------------------------------- expressions
class get_placeable(P):
    meth, classes, rank = "get_placeable", ("Placeable",), 1
    progress = 2

    def end(self, E, a, o):
        return PLX(E, o["i"])

    def node(self, E, a, o):
        return PLN(E, o["i"])


class get_inline_expression(P):
    opened = True
    meth, rank = "get_inline_expression", 2
    classes = tuple(astschema.INLINE)
    peek0_after = False

    def end(self, E, a, o):
        return INX(E, o["i"])

    def node(self, E, a, o):
        return INN(E, o["i"])


class get_expression(P):
    span = "before"
    meth, rank = "get_expression", 3
    classes = tuple(astschema.EXPR)

    def end(self, E, a, o):
        return EXX(E, o["i"])

    def node(self, E, a, o):
        return EXN(E, o["i"])


class get_call_argument(P):
    span = "before"
    meth, rank = "get_call_argument", 3
    classes = tuple(astschema.INLINE) + ("NamedArgument",)

    def end(self, E, a, o):
        return CGX(E, o["i"])

    def node(self, E, a, o):
        return CGN(E, o["i"])


class get_call_arguments(LoopP):
    meth, classes, rank = "get_call_arguments", ("CallArguments",), 4
    progress = 2

    def end(self, E, a, o):
        return CAX(E, o["i"])

    def node(self, E, a, o):
        return CAN(E, o["i"])

    def gram_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        i1 = BL(E, E.ghost["old"]["i"] + 1)
        out = []

        def mkc(w, p, n, s):
            def g(c):
                v = c.fr.vars
                st = E.setterm(v[s])
                return CAS[w](E, idx(E, ps), E.term(v[p]), E.term(v[n]), st) == CAS[w](E, i1, nil, nil, emptyset)
            return g
        fr = E.frames[-1].vars
        ls = [n for n, v in fr.items() if isinstance(v, SList)]
        ss = [n for n, v in fr.items() if isinstance(v, SSet)]
        for p in ls:
            for n in ls:
                for s in ss:
                    if p != n:
                        for w in "xn":
                            out.append(("CAS%s %s %s %s" % (w, p, n, s), mkc(w, p, n, s)))
        return out


class get_variant_key(P):
    meth, classes = "get_variant_key", ("Identifier", "NumberLiteral")

    def end(self, E, a, o):
        return KEYX(E, o["i"])

    def node(self, E, a, o):
        return KEYN(E, o["i"])


class get_variant(P):
    meth, classes, rank = "get_variant", ("Variant",), 5
    progress = 3

    def args(self, E):
        return [SBool(E.fresh("has_default", B))]

    def hd(self, E, a):
        v = E.truth(self.arg(a, 0, "has_default"))
        return z3.simplify(If(v if z3.is_expr(v) else z3.BoolVal(v), IV(1), IV(0)))

    def end(self, E, a, o):
        return VAX(E, o["i"], self.hd(E, a))

    def node(self, E, a, o):
        return VAN(E, o["i"])


class get_variants(LoopP):
    meth, rank = "get_variants", 6
    progress = 0

    def end(self, E, a, o):
        return VSX(E, o["i"])

    def result(self, E, a, o):
        l = SList((), VSN(E, o["i"]) if self.gram(E) else E.fresh("variants", U), None, lambda E2, x: astschema.node(E2, x, ["Variant"]))
        E.lterm(l)
        return l

    def post2(self, E, a, o, r):
        out = [("a list", isinstance(r, SList))]
        if self.gram(E):
            out.append(("the variants in order", isinstance(r, SList) and E.term(r) == VSN(E, o["i"])))
        return out

    def gram_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        i1 = BL(E, E.ghost["old"]["i"])
        fr = E.frames[-1].vars
        out = []

        def mkc(w, l, b):
            def g(c):
                v = c.fr.vars
                t = E.truth(v[b]) if isinstance(v[b], (bool, SBool)) else v[b] is not None
                hd = If(t if z3.is_expr(t) else z3.BoolVal(t), IV(1), IV(0))
                return VS[w](E, idx(E, ps), E.term(v[l]), hd) == VS[w](E, i1, nil, 0)
            return g
        for l in [n for n, v in fr.items() if isinstance(v, SList)]:
            for b in [n for n, v in fr.items() if isinstance(v, (bool, SBool, Obj)) and v not in (E.ghost["args"].ps, fr.get("self")) or v is None]:
                for w in "xn":
                    out.append(("VS%s %s %s" % (w, l, b), mkc(w, l, b)))
        return out


# ---------------------------------------------------------------- patterns
class maybe_get_pattern(P):
    span = "inside"
    meth, rank = "maybe_get_pattern", 7
    peek0_after = False
    progress = 0

    def raises_when(self, E, a, o):
        return self.x(E, a, o) == -1 if self.gram(E) else None

    def x(self, E, a, o):
        if "mp" not in o:
            o["mp"] = MPX(E, o["i"])
        return o["mp"]

    def havoc(self, E, a, o):
        o["none"] = E.branch(self.x(E, a, o) == -2) if self.gram(E) else E.choose(2) == 1
        if o["none"]:
            setpk(E, a.ps, E.fresh("peek"))
            setidx(E, a.ps, o["i"])
        else:
            i = E.fresh("index")
            if self.gram(E):
                i = tidy(E, self.x(E, a, o))
            setidx(E, a.ps, i)
            setpk(E, a.ps, IV(0))

    def result(self, E, a, o):
        if o["none"]:
            return None
        return astschema.node(E, MPN(E, o["i"]) if self.gram(E) else E.fresh("pattern", U), ["Pattern"])

    def post(self, E, a, o, r):
        i, p = idx(E, a.ps), pk(E, a.ps)
        out = [("the cursor moves forward inside the text", z3.And(i >= o["i"] + (0 if r is None else 1), i <= N, p >= 0, i + p <= N))]
        if r is None:
            out.append(("nothing is consumed", i == o["i"]))
            out.append(("only blanks are looked over", BL(E, z3.simplify(i + p)) == BL(E, i)))
        else:
            out.append(("no look-ahead is left", p == 0))
            from engine import models
            out.append(("kind of the result", isinstance(r, Obj) and models.isinst(E, r, astcls(E, "Pattern"))))
        if mode(E) == "span" and r is not None:
            out += spans.node_post(self, E, a, o, r)
        if self.gram(E):
            x = self.x(E, a, o)
            out.append(("accepts what the grammar does", x == (-2 if r is None else i)))
            out.append(("the tree is what was written", E.term(r) == MPN(E, o["i"])))
        return out


class get_pattern(LoopP):
    meth, classes, rank = "get_pattern", ("Pattern",), 6

    def args(self, E):
        return [E.choose(2) == 1]

    def block(self, E, a):
        v = self.arg(a, 0, "is_block")
        t = E.truth(v)
        return t if isinstance(t, bool) else E.branch(t)

    def pre2(self, E, a):
        i = idx(E, a.ps)
        c = CH(E, i)
        if self.block(E, a):
            return [("a block pattern starts here", valcont(E, i))]
        return [("an inline pattern starts here", z3.And(c != -1, c != LF))]

    def end(self, E, a, o):
        return PTX(E, o["i"], 1 if self.block(E, a) else 0)

    def node(self, E, a, o):
        return PTN(E, o["i"], 1 if self.block(E, a) else 0)

    def start(self, E):
        a, o = E.ghost["args"], E.ghost["old"]
        i = o["i"]
        if self.block(E, a):
            j = BI(E, i)
            return j, E.mk_snoc(nil, mkindent(E, Sl(i, j))), z3.simplify(j - i)
        return i, nil, INF

    def loop_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        i0 = E.ghost["old"]["i"]
        return LoopP.loop_candidates(self, E, ctx) + [
            ("progress or first", lambda c: z3.Or(idx(E, ps) > i0, And(idx(E, ps) == i0, CH(E, idx(E, ps)) != LF)))]

    def gram_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        s, L, m = self.start(E)
        fr = E.frames[-1].vars
        out = [("ELX", lambda c: ELX(E, idx(E, ps)) == ELX(E, s))]
        for l in [n for n, v in fr.items() if isinstance(v, SList)]:
            out.append(("ELL %s" % l, lambda c, l=l: ELL(E, idx(E, ps), E.term(c.fr.vars[l])) == ELL(E, s, L)))
        for n in [n for n, v in fr.items() if isinstance(v, (int, SInt, float)) and not isinstance(v, bool)]:
            out.append(("ELC %s" % n, lambda c, n=n: ELC(E, idx(E, ps), encint(c.fr.vars[n])) == ELC(E, s, m)))
            out.append(("nn %s" % n, lambda c, n=n: encint(c.fr.vars[n]) >= -1 if isinstance(c.fr.vars[n], float) else encint(c.fr.vars[n]) >= 0))
        return out


def encint(v):
    """a length; infinity is -1"""
    if isinstance(v, float):
        if v == float("inf"):
            return INF
        raise KeyError(v)
    return zi(v)


class dedent(LoopP):
    meth, raises = "dedent", False

    def setup(self, E):
        l = SList((), E.fresh("elements", U), None, lambda E2, t: element(E2, t))
        if mode(E) == "span":
            l.shape = spans.elements(E, l)
        E.lterm(l)
        return [mkparser(E), l, SInt(E.fresh("common"))], {}

    def pre(self, E, a):
        if mode(E) == "span":
            t = E.term(a.elements)
            return [("the elements are one after the other", z3.Or(llen(t) <= 0, spans.OKL(t)))]
        return []

    def old(self, E, a):
        e = a.elements
        c = a.common_indent
        return {"L": E.term(e), "c": encint(c)}

    def modifies(self, E, a):
        # it consumes the elements it is given
        return [a.elements] + [x for x in E.ghost.get("elements", ())]

    def havoc(self, E, a, o):
        pass

    def result(self, E, a, o):
        t = DED(E, o["L"], o["c"]) if self.gram(E) else E.fresh("trimmed", U)
        l = SList((), t, None, lambda E2, x: astschema.node(E2, x, ["TextElement", "Placeable"]))
        E.lterm(l)
        return l

    def post(self, E, a, o, r):
        out = [("a list", isinstance(r, SList))]
        if mode(E) == "span" and isinstance(r, SList):
            out.append(("the elements, one after the other, inside those given", spans.trimmed(E, E.term(r), o["L"])))
        if self.gram(E):
            out.append(("the text without the common indent", isinstance(r, SList) and E.term(r) == DED(E, o["L"], o["c"])))
        return out

    def gram_candidates(self, E, ctx):
        o = E.ghost["old"]
        fr = E.frames[-1].vars
        out = []
        if ctx.seq is None:
            return out
        l, k = ctx.seq
        for n in [n for n, v in fr.items() if isinstance(v, SList)]:
            out.append(("DT %s" % n, lambda c, n=n: E.term(c.fr.vars[n]) == DT(E, o["L"], o["c"], zi(c.fr.vars[k]))))
        return out

    def loop_candidates(self, E, ctx):
        if mode(E) == "span":
            return spans.dedent_candidates(self, E, ctx)
        return self.gram_candidates(E, ctx) if self.gram(E) else []


def element(E, t):
    o = Obj(None, t)
    o.from_list = True
    m = E.module(AST).env
    o.cands = [m["TextElement"], m["Placeable"], indent_cls(E)]
    E.add(is_(t, "TextElement", "Placeable", "Indent"))
    return o


# ---------------------------------------------------------------- entries
class get_attribute(P):
    meth, classes = "get_attribute", ("Attribute",)
    progress = 3

    def end(self, E, a, o):
        return ATX(E, o["i"])

    def node(self, E, a, o):
        return ATN(E, o["i"])


class get_attributes(LoopP):
    meth = "get_attributes"
    peek0 = False
    peek0_after = False
    progress = 0

    def pre2(self, E, a):
        i, p = idx(E, a.ps), pk(E, a.ps)
        return [("only blanks were looked over", BL(E, z3.simplify(i + p)) == BL(E, i))]

    def end(self, E, a, o):
        return ATS["x"](E, o["i"], nil)

    def result(self, E, a, o):
        l = SList((), ATS["n"](E, o["i"], nil) if self.gram(E) else E.fresh("attributes", U), None, lambda E2, x: astschema.node(E2, x, ["Attribute"]))
        E.lterm(l)
        return l

    def peek_post(self, E, a, o):
        i, p = idx(E, a.ps), pk(E, a.ps)
        return [("looks over the blanks", i + p == BL(E, i))]

    def post2(self, E, a, o, r):
        out = [("a list", isinstance(r, SList))]
        if self.gram(E):
            out.append(("the attributes in order", isinstance(r, SList) and E.term(r) == ATS["n"](E, o["i"], nil)))
        return out

    def gram_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        i0 = E.ghost["old"]["i"]
        fr = E.frames[-1].vars
        out = []
        for n in [n for n, v in fr.items() if isinstance(v, SList)]:
            for w in "xn":
                out.append(("ATS%s %s" % (w, n), lambda c, n=n, w=w: ATS[w](E, idx(E, ps), E.term(c.fr.vars[n])) == ATS[w](E, i0, nil)))
        return out

    def loop_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        return LoopP.loop_candidates(self, E, ctx) + [("blanks", lambda c: idx(E, ps) + pk(E, ps) == BL(E, idx(E, ps)))]


class get_message(P):
    meth, classes = "get_message", ("Message",)
    peek0_after = False
    progress = 2

    def end(self, E, a, o):
        return MSX(E, o["i"])

    def node(self, E, a, o):
        return MSN(E, o["i"])


class get_term(P):
    meth, classes = "get_term", ("Term",)
    peek0_after = False
    progress = 3

    def end(self, E, a, o):
        return TMX(E, o["i"])

    def node(self, E, a, o):
        return TMN(E, o["i"])


class get_comment(LoopP):
    meth, classes = "get_comment", ("Comment", "GroupComment", "ResourceComment")
    slice_skip = outer_text = True       # no string here follows a local counter

    def loop_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        out = LoopP.loop_candidates(self, E, ctx)
        hash_ = lambda: CH(E, idx(E, ps)) == 35
        out.append(("hash", lambda c: hash_()))
        for n, v in E.frames[-1].vars.items():
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out.append(("<=2 " + n, lambda c, n=n: zi(c.fr.vars[n]) <= 2))
                out.append((">=-1 " + n, lambda c, n=n: zi(c.fr.vars[n]) >= -1))
                out.append((">=0 or hash " + n, lambda c, n=n: z3.Or(zi(c.fr.vars[n]) >= 0, hash_())))
                if mode(E) == "span":
                    i0 = E.ghost["old"]["i"]
                    out.append(("level %s" % n, lambda c, n=n: If(zi(c.fr.vars[n]) == -1, idx(E, ps) == i0, zi(c.fr.vars[n]) == clevel(E, i0))))
                    out.append(("begun %s" % n, lambda c, n=n: z3.Or(zi(c.fr.vars[n]) == -1, commentline(E, i0, zi(c.fr.vars[n])))))
                    for k in (1, 2):
                        out.append(("hash before %s %d" % (n, k), lambda c, n=n, k=k: z3.Implies(zi(c.fr.vars[n]) >= k, CH(E, idx(E, ps) - k) == 35)))
        return out

    def post2(self, E, a, o, r):
        return spans.comment_post(E, a, o, r) if mode(E) == "span" else []

    def gram_candidates(self, E, ctx):
        ps = E.ghost["args"].ps
        i0 = E.ghost["old"]["i"]
        fr = E.frames[-1].vars
        out = []
        goal = {w: CM[w](E, i0, clevel(E, i0), E.litterm("")) for w in "xn"}
        ints = [n for n, v in fr.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
        strv = [n for n, v in fr.items() if is_strv(v)]
        for n in ints:
            out.append(("continues %s" % n, lambda c, n=n: z3.Or(zi(c.fr.vars[n]) == -1, commentline(E, idx(E, ps), zi(c.fr.vars[n])))))
            out.append(("level %s" % n, lambda c, n=n: If(zi(c.fr.vars[n]) == -1, idx(E, ps) == i0, zi(c.fr.vars[n]) == clevel(E, i0))))
            for k in (1, 2):
                out.append(("hash before %s %d" % (n, k), lambda c, n=n, k=k: z3.Implies(zi(c.fr.vars[n]) >= k, CH(E, idx(E, ps) - k) == 35)))
            for s in strv:
                def line(w, n=n, s=s):
                    def g(c):
                        l = zi(c.fr.vars[n])
                        i = idx(E, ps)
                        return CM[w](E, i, z3.simplify(If(l == -1, clevel(E, i), l)), E.term(c.fr.vars[s])) == goal[w]
                    return g

                for w in "xn":
                    out.append(("line %s %s %s" % (w, n, s), line(w)))
        out += taken_same(E, ctx, ps, lambda i: CEE(E, i)) + taken(E, ps, lambda i: z3.BoolVal(True), lambda i: CEE(E, i))
        return out

    def pre2(self, E, a):
        return [("a comment starts here", CH(E, idx(E, a.ps)) == 35)]

    def end(self, E, a, o):
        return CMX(E, o["i"])

    def node(self, E, a, o):
        return CMN(E, o["i"])


class get_entry(P):
    meth, classes = "get_entry", ("Message", "Term", "Comment", "GroupComment", "ResourceComment")
    peek0_after = False

    def post2(self, E, a, o, r):
        return spans.comment_post(E, a, o, r) if mode(E) == "span" else []

    def end(self, E, a, o):
        return ENX(E, o["i"])

    def node(self, E, a, o):
        return ENN(E, o["i"])


def add_errpos(E, a, o):
    setidx(E, a.ps, ERRI(o["i"]))
    setpk(E, a.ps, E.fresh("peek"))


get_entry.havoc_exc = lambda self, E, a, o: add_errpos(E, a, o) if self.gram(E) else P.havoc_exc(self, E, a, o)


class get_entry_or_junk(P):
    span, opened = "line", True
    meth, classes = "get_entry_or_junk", tuple(astschema.ENTRY)
    raises = False
    progress = 0

    def end(self, E, a, o):
        JE(E, o["i"])
        return EJX(E, o["i"])

    def node(self, E, a, o):
        return EJN(E, o["i"])

    def post2(self, E, a, o, r):
        i = idx(E, a.ps)
        out = [("something is consumed before the end of the text", z3.Implies(o["i"] < N, i > o["i"]))]
        if self.gram(E):
            out.append(("a comment is not followed by one it should contain", z3.Implies(z3.And(is_(E.term(r), "Comment"), CH(E, i) != -1), z3.Not(commentline(E, i, IV(0))))))
        if mode(E) == "span":
            t = E.term(r)
            out.append(("a comment is a whole one", z3.Implies(z3.And(is_(t, "Comment"), CH(E, i) != -1), z3.And(commentline(E, o["i"], IV(0)), z3.Not(commentline(E, i, IV(0)))))))
        if E.verifying != self.key or not isinstance(r, Obj):
            return out
        if isinstance(r.cls, ClassVal) and r.cls.name == "Junk":
            out.append(("junk is the text between the cursors", is_strv(E.getfield(r, "content")) and E.weq(E.getfield(r, "content"), SStr(Sl(o["i"], i)))))
            an = E.getfield(r, "annotations")
            ok = isinstance(an, SList) and an.term is None and len(an.items) == 1 if not isinstance(an, list) else len(an) == 1
            out.append(("exactly one annotation", ok))
            if ok:
                x = an.items[0] if isinstance(an, SList) else an[0]
                out.append(("the annotation", isinstance(x, Obj) and isinstance(x.cls, ClassVal) and x.cls.name == "Annotation"))
                x0 = E.ghost.get("caught")
                c, m = E.getfield(x, "code"), E.getfield(x, "message")
                e = [e for e in E.keepalive if id(e) in E.ghost.get("documented", ())]
                f = any(E.getfield(y, "code") is c and E.getfield(y, "message") is m for y in e)
                out.append(("the annotation carries the code and message of the error", f))
                ws = E.ghost["ws"]
                sp = E.getfield(x, "span")
                js = E.getfield(r, "span")
                if sp is None or js is None:
                    out.append(("junk and annotation have spans when recorded", Not(ws)))
                else:
                    s, t = zi(E.getfield(sp, "start")), zi(E.getfield(sp, "end"))
                    out.append(("the annotation's position lies inside the junk", And(s == t, s >= o["i"], s <= i)))
                    out.append(("the junk's span is its text", And(zi(E.getfield(js, "start")) == o["i"], zi(E.getfield(js, "end")) == i)))
                    out.append(("the annotation names no position before the error", True))
        return out


class parse(LoopP):
    meth, classes = "parse", ("Resource",)
    raises = False

    def setup(self, E):
        return [mkparser(E), source(E)], {}

    def pre(self, E, a):
        return []

    def old(self, E, a):
        return {"i": IV(0)}

    def modifies(self, E, a):
        return []

    def havoc(self, E, a, o):
        pass

    def node(self, E, a, o):
        return mk(E, "Resource", body=V(PB(E, BB(E, IV(0), 0), nil, NONE)))

    def post(self, E, a, o, r):
        out = [("kind of the result", self.kind(E, r))]
        if self.gram(E):
            out.append(("the entries are what was written", E.term(r) == self.gn(E, a, o)))
        if E.verifying == self.key and isinstance(r, Obj):
            out.append(("the result has a span when spans are recorded", astschema.spanned(E, r)))
            sp = E.getfield(r, "span")
            if sp is not None:
                out.append(("the span of the resource is the text", And(zi(E.getfield(sp, "start")) == 0, zi(E.getfield(sp, "end")) == N)))
            if mode(E) == "span":
                out.append(("its entries one after the other, with blanks between them", spans.OKT(E.term(r))))
        return out

    def loop_candidates(self, E, ctx):
        out = []
        fr = E.frames[-1].vars
        st = [v for v in fr.values() if isstream(E, v)]
        if len(st) != 1:
            return out
        ps = st[0]
        out.append(("inside", lambda c: z3.And(idx(E, ps) + pk(E, ps) <= N, pk(E, ps) >= 0, idx(E, ps) >= 0, idx(E, ps) <= N)))
        out.append(("peek0", lambda c: pk(E, ps) == 0))
        if mode(E) == "span":
            out += spans.entry_candidates(self, E, ctx, ps)
        if mode(E) != "gram":
            return out
        ls = [n for n, v in fr.items() if isinstance(v, SList)]
        cs = [n for n, v in fr.items() if v is None or isinstance(v, Obj) and not isstream(E, v) and n != "self"]
        goal = PB(E, BB(E, IV(0), 0), nil, NONE)
        for l in ls:
            for n in cs:
                out.append(("fold %s %s" % (l, n), lambda c, l=l, n=n: PB(E, idx(E, ps), E.term(c.fr.vars[l]), E.term(c.fr.vars[n])) == goal))
        for n in cs:
            out.append(("waits for more %s" % n, lambda c, n=n: z3.Implies(E.term(c.fr.vars[n]) != NONE, And(CH(E, idx(E, ps)) != -1, is_(E.term(c.fr.vars[n]), "Comment"), Not(commentline(E, idx(E, ps), IV(0)))))))
        return out


class parse_entry(parse):
    meth, classes = "parse_entry", tuple(astschema.ENTRY)

    def node(self, E, a, o):
        return PE(E, BB(E, IV(0), 0))

    def post(self, E, a, o, r):
        out = [("kind of the result", self.kind(E, r))]
        if self.gram(E):
            out.append(("the entry is what was written", E.term(r) == self.gn(E, a, o)))
        return out

    def loop_candidates(self, E, ctx):
        fr = E.frames[-1].vars
        st = [v for v in fr.values() if isstream(E, v)]
        if len(st) != 1:
            return []
        ps = st[0]
        out = [("inside", lambda c: z3.And(idx(E, ps) + pk(E, ps) <= N, pk(E, ps) >= 0, idx(E, ps) >= 0, idx(E, ps) <= N)),
               ("peek0", lambda c: pk(E, ps) == 0)]
        if mode(E) == "gram":
            out.append(("fold", lambda c: PE(E, idx(E, ps)) == PE(E, BB(E, IV(0), 0))))
        return out


TOKENS = [get_identifier(), get_digits(), get_number(), get_text_element(), get_escape_sequence(),
          get_unicode_escape_sequence(), get_string(), get_literal()]
EXPRS = [get_placeable(), get_inline_expression(), get_expression(), get_call_argument(), get_call_arguments()]
VARIANTS = [get_variant_key(), get_variant(), get_variants()]
PATTERNS = [maybe_get_pattern(), get_pattern(), dedent()]
ENTRIES = [get_attribute(), get_attributes(), get_message(), get_term(), get_comment(), get_entry(), get_entry_or_junk(), parse(), parse_entry()]
PARSER = TOKENS + EXPRS + VARIANTS + PATTERNS + ENTRIES


def re_hook(E, kind, a, k):
    """re.match of `^C D*$` on a piece of the source, for character classes C, D"""
    if kind != "match" or k or len(a) != 2 or not isinstance(a[0], str) or not is_strv(a[1]):
        return None
    import re._parser as sp
    try:
        ops = list(sp.parse(a[0]))
    except Exception:
        return None
    ops = [(str(o), v) for o, v in ops]
    if [o for o, _ in ops] not in (["AT", "IN", "MAX_REPEAT", "AT"], ["IN", "MAX_REPEAT", "AT"]):
        return None
    ops = ops[-3:]
    c1, rep = charset(ops[0][1]), ops[1][1]
    if rep[0] != 0 or str(rep[1]) != "MAXREPEAT" or len(rep[2]) != 1 or str(rep[2][0][0]) != "IN":
        return None
    c2 = charset(rep[2][0][1])
    if c1 is None or c2 is None:
        return None
    s = E.norm(a[1])
    if len(s) != 1:
        return None
    s = s[0]
    if isinstance(s, Op):
        sl_ = E.ghost.get("slices", {}).get(s.t.get_id())
        if sl_ is None:
            # the text is opaque: name the outcome after the classes
            return [SBool(uf("rematch %s %s" % (c1, c2), U, B)(s.t))]
        s = sl_
    if not isinstance(s, Sl):
        return None
    if c2 == (((45, 45), (48, 57), (65, 90), (95, 95))):
        run = UPE
    else:
        run = runspec(c2)
    first = z3.Or(*[z3.And(raw(s.a) >= x, raw(s.a) <= y) for x, y in c1])
    e = run(E, z3.simplify(s.a + 1), s.b)
    # $ also matches before a line feed at the end
    return [SBool(z3.And(s.b > s.a, first, z3.Or(e >= s.b, z3.And(e == s.b - 1, raw(s.b - 1) == LF))))]


_runs = {}


def runspec(c2):
    if c2 not in _runs:
        nm = "RUN_" + "_".join("%d_%d" % x for x in c2)
        _runs[c2] = Spec(nm, [I, I], I, lambda E, i, e: If(z3.And(i < e, z3.Or(*[z3.And(raw(i) >= x, raw(i) <= y) for x, y in c2])), _runs[c2](E, i + 1, e), i))
    return _runs[c2]


def charset(items):
    out = []
    for o, v in items:
        o = str(o)
        if o == "RANGE":
            out.append(tuple(v))
        elif o == "LITERAL":
            out.append((v, v))
        else:
            return None
    return tuple(sorted(out))
