"""Contracts of fluent.syntax.serializer (C08): the text printed for every node.

PT(t) is the text of the node t, in terms of the texts of its parts; each
function of the serializer gives it, class by class.  IND(s) is s with four
spaces more after every line break but the last one of a text that ends with
one.  That this text parses back to the node is not proved here."""
from .rt import *
from . import astschema
from .astschema import AST, AST_SCHEMAS, INLINE, EXPR, ENTRY, node
from .compiler import fieldorder, deeper
from .tree import registry as tree_registry

SM = "fluent.syntax.serializer"
PT = uf("PT", U, U)               # printed text of a node
CT = uf("CT", U, U, U)            # of a comment, with a prefix
SPECIAL = ("[", ".", "*")
STANDALONE = {"Comment": "#", "GroupComment": "##", "ResourceComment": "###"}


def If(c, a, b):
    return z3.If(c, a, b)


def nth(l, i):
    return uf("nth", U, I, U)(l, i)


def T(E, *xs):
    """a text made of constants and texts"""
    for x in xs:
        if not isinstance(x, str):
            E.atom_term(Op(x))
    return E.sterm(SStr(*[x if isinstance(x, str) else Op(x) for x in xs]))


# texts of the first k elements, as a list and as one text after another one
PTL = Spec("PTL", [U, I], U, lambda E, l, k: If(k <= 0, nil, joined_snoc(E, PTL(E, l, k - 1), PT(nth(l, k - 1)))),
           facts=lambda E, a, t: [joined(E, t) == PTS(E, a[0], a[1], E.litterm(""))], measure=lambda E, l, k: k)
PTS = Spec("PTS", [U, I, U], U, lambda E, l, k, h: If(k <= 0, h, cat2(E, PTS(E, l, k - 1, h), PT(nth(l, k - 1)))))
# one of the elements from i on is a select expression, is a text of several lines, either
SELS = Spec("SELS", [U, I], B, lambda E, l, i: z3.And(i < llen(l), z3.Or(issel(nth(l, i)), SELS(E, l, i + 1))))
LINES = Spec("LINES", [U, I], B, lambda E, l, i: z3.And(i < llen(l), z3.Or(islines(E, nth(l, i)), LINES(E, l, i + 1))))
MULTI = Spec("MULTI", [U, I], B, lambda E, l, i: z3.And(i < llen(l), z3.Or(issel(nth(l, i)), islines(E, nth(l, i)), MULTI(E, l, i + 1))),
             facts=lambda E, a, t: [t == z3.Or(SELS(E, a[0], a[1]), LINES(E, a[0], a[1]))], measure=lambda E, l, i: llen(l) - i)
# lines of a comment, with the prefix
CLINES = Spec("CLINES", [U, I, U], U, lambda E, l, k, p: If(k <= 0, nil, E.mk_snoc(CLINES(E, l, k - 1, p), cline(E, p, nth(l, k - 1)))))
# entries printed, and whether there is one
KEPT = Spec("KEPT", [U, I, B], B, lambda E, l, k, j: z3.And(k > 0, z3.Or(KEPT(E, l, k - 1, j), keeps(nth(l, k - 1), j))))
ENTRIES = Spec("ENTRIES", [U, I, B], U, lambda E, l, k, j: If(k <= 0, E.litterm(""), If(keeps(nth(l, k - 1), j), cat2(E, ENTRIES(E, l, k - 1, j), PEN(nth(l, k - 1), KEPT(E, l, k - 1, j))), ENTRIES(E, l, k - 1, j))))
PEN = uf("PEN", U, B, U)            # printed entry, when there is one before it or not


def is_(t, *names):
    return z3.Or(*[cls_of(t) == class_index(n) for n in names])


def keeps(t, junk):
    return z3.Or(junk, z3.Not(is_(t, "Junk")))


def issel(t):
    return z3.And(is_(t, "Placeable"), is_(fld(t, "expression"), "SelectExpression"))


def contains(E, t, s):
    return uf("contains", U, U, B)(t, E.litterm(s))


def islines(E, t):
    return z3.And(is_(t, "TextElement"), contains(E, fld(t, "value"), "\n"))


def cline(E, p, t):
    E.atom_term(Op(t))
    return If(ulen(t) == 0, p, E.sterm(SStr(Op(p), " ", Op(t))))


# ---------------------------------------------------------------- lines
def split(E, t, s):
    r = uf("split", U, U, U)(t, E.litterm(s))
    E.once(("split", r.get_id()), lambda: [llen(r) >= 1, join(E, s, r) == t, contains(E, t, s) == (llen(r) > 1), z3.Implies(llen(r) == 1, uf("last", U, U)(r) == t)])
    return r


def join(E, s, l):
    return uf("join", U, U, U)(E.litterm(s), l)


def frontlast(E, l):
    """a list that is not empty: all but the last, the last"""
    f, x = uf("front", U, U)(l), uf("last", U, U)(l)
    E.once(("frontlast", l.get_id()), lambda: [z3.Implies(llen(l) >= 1, l == E.mk_snoc(f, x)), llen(f) >= 0])
    return f, x


def IND(E, t):
    l = split(E, t, "\n")
    f, x = frontlast(E, l)
    E.atom_term(Op(x))
    h = join(E, "\n    ", f)
    return If(llen(l) <= 1, t, If(ulen(x) == 0, T(E, h, "\n"), T(E, h, "\n    ", x)))


def rpart_hook(E, o, s, h, x):
    """what is before the last separator has the other lines, what is after it is the last line"""
    l = split(E, E.sterm(o), s)
    f, y = frontlast(E, l)
    lh = split(E, E.sterm(h), s)
    E.once(("rpart", l.get_id()), lambda: [z3.Implies(llen(l) > 1, z3.And(lh == f, E.sterm(x) == y))])


def replace_hook(E, o, a, r):
    """replacing joins the pieces with something else"""
    l = split(E, E.sterm(o), a[0])
    E.once(("replace", r.get_id()), lambda: [r == join(E, a[1], l)])


# ---------------------------------------------------------------- text of a node
def name(t, k):
    return fld(fld(t, k), "name")


def opt(E, c, t, *xs):
    return If(c, T(E, *xs), t)


def head(E, t, n, *after):
    """text of a message or term up to its attributes"""
    v, c = fld(t, "value"), fld(t, "comment")
    i = ("-", name(t, "id"), " =") if n == "Term" else (name(t, "id"), " =")

    def rest(*before):
        return T(E, *before, *i, PT(v), *after) if n == "Term" else If(v == NONE, T(E, *before, *i, *after), T(E, *before, *i, PT(v), *after))
    return If(c == NONE, rest(), rest(CT(c, E.litterm("#"))))


def seltext(E, t):
    return T(E, PT(fld(t, "selector")), " ->")


def appended(E, l, h, hp, end):
    """the texts of a list, between two others (concatenation is associative)"""
    w = T(E, PTS(E, l, llen(l), h), end)
    j = joined(E, PTL(E, l, llen(l)))
    E.add(w == T(E, *hp, j, end))
    return w


def heads(E, t, n):
    """text printed before the elements of the list of a node"""
    if n in ("Message", "Term"):
        return [head(E, t, n)]
    if n == "SelectExpression":
        return [seltext(E, t)]
    return [E.litterm("")]


def text(E, t, n):
    """equation of PT for a node of class n"""
    f = lambda k: fld(t, k)
    if n in ("TextElement", "NumberLiteral"):
        return f("value")
    if n == "Identifier":
        return f("name")
    if n == "StringLiteral":
        return T(E, '"', f("value"), '"')
    if n == "VariableReference":
        return T(E, "$", name(t, "id"))
    if n == "MessageReference":
        return opt(E, f("attribute") != NONE, name(t, "id"), name(t, "id"), ".", name(t, "attribute"))
    if n == "TermReference":
        i, a, g = name(t, "id"), f("attribute"), f("arguments")
        w = lambda *x: If(a == NONE, T(E, "-", i, *x), T(E, "-", i, ".", name(t, "attribute"), *x))
        return If(g == NONE, w(), w(PT(g)))
    if n == "FunctionReference":
        return T(E, name(t, "id"), PT(f("arguments")))
    if n == "CallArguments":
        p, q = f("positional"), f("named")
        a, b = join(E, ", ", PTL(E, p, llen(p))), join(E, ", ", PTL(E, q, llen(q)))
        w = T(E, "(", b, ")")
        E.add(z3.Implies(ulen(b) == 0, w == E.litterm("()")))
        return If(llen(p) <= 0, w, If(llen(q) <= 0, T(E, "(", a, ")"), T(E, "(", a, ", ", b, ")")))
    if n == "NamedArgument":
        return T(E, name(t, "name"), ": ", PT(f("value")))
    if n == "SelectExpression":
        v = f("variants")
        return appended(E, v, seltext(E, t), [PT(f("selector")), " ->"], "\n")
    if n == "Variant":
        k = f("key")
        w = lambda s: T(E, s, PT(k), "]", IND(E, PT(f("value"))))
        return If(f("default") == TRUE, w("\n   *["), w("\n    ["))
    if n == "Placeable":
        x = f("expression")
        return If(is_(x, "Placeable"), T(E, "{", PT(x), "}"), If(is_(x, "SelectExpression"), T(E, "{ ", PT(x), "}"), T(E, "{ ", PT(x), " }")))
    if n == "Attribute":
        return T(E, "\n    .", name(t, "id"), " =", IND(E, PT(f("value"))))
    if n in ("Message", "Term"):
        l = f("attributes")
        w = appended(E, l, head(E, t, n), [head(E, t, n)], "\n")
        E.add(z3.Implies(llen(l) <= 0, w == head(E, t, n, "\n")))
        return w
    if n == "Pattern":
        c = content(E, f("elements"))
        return If(block(E, f("elements")), T(E, "\n    ", c), T(E, " ", c))
    raise Unsupported(n)


def content(E, l):
    return IND(E, join(E, "", PTL(E, l, llen(l))))


def special(E, x):
    """a text that would read as something else at the start of a line"""
    v = fld(x, "value")
    return z3.And(is_(x, "TextElement"), ulen(v) > 0, z3.Or(*[uf("charat", U, I, I)(v, IV(0)) == ord(c) for c in SPECIAL]))


def block(E, l):
    return z3.And(MULTI(E, l, IV(0)), z3.Not(special(E, nth(l, IV(0)))))


def entry(E, t, n, before):
    if n == "Junk":
        return If(ulen(fld(t, "content")) == 0, E.litterm(""), fld(t, "content"))
    if n in STANDALONE:
        c = CT(t, E.litterm(STANDALONE[n]))
        return If(before, T(E, "\n", c, "\n"), T(E, c, "\n"))
    return PT(t)


def comment(E, t, p):
    c = fld(t, "content")
    l = split(E, c, "\n")
    E.atom_term(Op(c))
    return If(ulen(c) == 0, T(E, p, "\n"), T(E, join(E, "\n", CLINES(E, l, llen(l), p)), "\n"))


# ---------------------------------------------------------------- contracts
def txt(E, t):
    E.atom_term(Op(t))
    return SStr(Op(t))


def is_text(E, r, t):
    return is_strv(r) and E.weq(r, txt(E, t))


class S(Contract):
    group = "printer"
    arg, classes, raises = 0, (), False

    def setup(self, E):
        n = E.s.opts.get("cls") or self.classes[E.choose(len(self.classes))]
        return self.others(E, self.mk(E, [n])), {}

    def mk(self, E, names):
        t = E.fresh("node", U)
        E.add(depth(t) >= 0)
        return node(E, t, names)

    def others(self, E, x):
        return [x]

    def node(self, a):
        return list(a.d.values())[self.arg]

    def decreases(self, E, a):
        return (depth(E.term(self.node(a))), IV(self.rank))

    rank = 0

    def pre(self, E, a):
        x = self.node(a)
        ok = isinstance(x, Obj)
        if ok:
            m = E.module(AST).env
            cs = [x.cls] if x.cls is not None else x.cands
            ok = all(any(c is m[n] for n in self.classes) for c in cs)
            if not ok and x.cls is None:
                ok = is_(E.term(x), *self.classes)
        return [("a node it prints", ok)]

    def old(self, E, a):
        t = E.term(self.node(a))
        if E.verifying == self.key:
            E.ghost["heads"] = heads(E, t, E.mkname(E.resolve_cls(self.node(a))))
        return {"t": t}

    def spec(self, E, a, o):
        """what it gives, to a caller"""
        return PT(o["t"])

    def equation(self, E, a, o):
        """the same, in terms of the parts"""
        return text(E, o["t"], E.mkname(E.resolve_cls(self.node(a))))

    def result(self, E, a, o):
        return txt(E, self.spec(E, a, o))

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        # its definition
        E.add(E.sterm(txt(E, self.spec(E, a, o))) == self.equation(E, a, o))
        return [("the printed text", is_strv(r) and E.sterm(r) == self.spec(E, a, o))]

    def loop_candidates(self, E, ctx):
        fr = ctx.fr.vars
        out = []
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            seq = lambda c, n=n: c.fr.vars[n + "seq"]
            i = lambda c, n=n: zi(c.fr.vars[n])
            out.append(("index %s" % n, lambda c, i=i, seq=seq: And(i(c) >= 0, i(c) <= E.llen(seq(c)))))
            for k, F in (("select", SELS), ("lines", LINES), ("several", MULTI)):
                out.append(("no %s so far %s" % (k, n), lambda c, F=F, i=i, seq=seq: F(E, E.term(seq(c)), i(c)) == F(E, E.term(seq(c)), IV(0))))
            both = lambda c, k, seq=seq: z3.Or(*[F(E, E.term(seq(c)), k) for F in (SELS, LINES)])
            out.append(("neither so far %s" % n, lambda c, i=i, both=both: both(c, i(c)) == both(c, IV(0))))
            for acc in [k for k, v in fr.items() if isinstance(v, SList) and not k.endswith("seq") or is_strv(v)]:
                if isinstance(fr[acc], SList):
                    def f(c, acc=acc, i=i, seq=seq):
                        if not isinstance(c.fr.vars[acc], SList):
                            raise KeyError(acc)
                        return E.term(c.fr.vars[acc]) == PTL(E, E.term(seq(c)), i(c))
                    out.append(("texts %s %s" % (n, acc), f))
                for j, h in enumerate(E.ghost.get("heads", ())):
                    def g(c, acc=acc, i=i, seq=seq, h=h):
                        v = c.fr.vars[acc]
                        if not (isinstance(v, SList) or is_strv(v)):
                            raise KeyError(acc)
                        w = E.term(v) if is_strv(v) else joined(E, E.term(v))
                        return w == PTS(E, E.term(seq(c)), i(c), h)
                    out.append(("text %s %s %d" % (n, acc, j), g))
                self.more_candidates(E, ctx, out, n, acc, i, seq)
        return out

    def more_candidates(self, E, ctx, out, n, acc, i, seq):
        pass


def printer(name, *names, rank=0, **kw):
    return type(name, (S,), dict(key=SM + ":" + name, classes=tuple(names), rank=rank, **kw))()


class indent(S):
    key = SM + ":indent_except_first_line"
    group = None

    def setup(self, E):
        t = E.fresh("text", U)
        E.atom_term(Op(t))
        return [SStr(Op(t))], {}

    def decreases(self, E, a):
        return None

    def pre(self, E, a):
        return [("a text", is_strv(self.node(a)))]

    def old(self, E, a):
        return {"t": E.sterm(self.node(a))}

    def spec(self, E, a, o):
        return IND(E, o["t"])
    equation = spec


class on_new_line(S):
    key = SM + ":should_start_on_new_line"
    group = None
    classes = ("Pattern",)

    def result(self, E, a, o):
        return mkb(block(E, fld(o["t"], "elements")))

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        return [("where the pattern starts", isinstance(r, (bool, SBool)) and E.truth(r) == block(E, fld(o["t"], "elements")))]


class serialize_comment(S):
    key = SM + ":serialize_comment"
    group = None
    classes = tuple(STANDALONE)

    def others(self, E, x):
        p = E.fresh("prefix", U)
        E.atom_term(Op(p))
        return [x, SStr(Op(p))]

    def old(self, E, a):
        return {"t": E.term(self.node(a)), "p": E.sterm(list(a.d.values())[1])}

    def spec(self, E, a, o):
        return CT(o["t"], o["p"])

    def equation(self, E, a, o):
        return comment(E, o["t"], o["p"])

    def more_candidates(self, E, ctx, out, n, acc, i, seq):
        p = E.ghost["old"]["p"]
        if isinstance(ctx.fr.vars[acc], SList):
            out.append(("lines %s %s" % (n, acc), lambda c: E.term(c.fr.vars[acc]) == CLINES(E, E.term(seq(c)), i(c), p)))


class serialize_entry(S):
    key = SM + ":FluentSerializer.serialize_entry"
    classes, arg, rank = tuple(ENTRY), 1, 7

    def others(self, E, x):
        return [me(E), x, E.choose(2)]

    def old(self, E, a):
        return {"t": E.term(self.node(a)), "b": z3.simplify(zi(list(a.d.values())[2]) % 2 == 1)}

    def spec(self, E, a, o):
        return PEN(o["t"], o["b"])

    def equation(self, E, a, o):
        return entry(E, o["t"], E.mkname(E.resolve_cls(self.node(a))), o["b"])


def me(E):
    c = Obj(E.module(SM).env["FluentSerializer"])
    c.fields = {"with_junk": SBool(E.fresh("with_junk", B))}
    return c


class serialize(S):
    key = SM + ":FluentSerializer.serialize"
    classes, arg, rank = ("Resource",), 1, 8

    def others(self, E, x):
        return [me(E), x]

    def old(self, E, a):
        E.ghost["heads"] = []
        return {"t": E.term(self.node(a)), "j": E.truth(E.getfield(list(a.d.values())[0], "with_junk"))}

    def spec(self, E, a, o):
        return self.equation(E, a, o)

    def equation(self, E, a, o):
        l = fld(o["t"], "body")
        return ENTRIES(E, l, llen(l), zb(o["j"]))

    def more_candidates(self, E, ctx, out, n, acc, i, seq):
        j = zb(E.ghost["old"]["j"])

        def g(c):
            v = c.fr.vars[acc]
            if not (isinstance(v, SList) or is_strv(v)):
                raise KeyError(acc)
            w = E.term(v) if is_strv(v) else joined(E, E.term(v))
            return w == ENTRIES(E, E.term(seq(c)), i(c), j)
        out.append(("entries %s %s" % (n, acc), g))
        for s in [k for k, v in ctx.fr.vars.items() if isinstance(v, (int, SInt)) and not k.startswith("<")]:
            def f(c, s=s):
                v = c.fr.vars[s]
                x = zi(v)
                return z3.And(z3.Or(x == 0, x == 1), (x == 1) == KEPT(E, E.term(seq(c)), i(c), j))
            out.append(("one before %s %s" % (n, s), f))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def elements_shape(E, t, o):
    """text elements are not empty (C07)"""
    l = astschema.listof("TextElement", "Placeable")(E, t, o)
    base = l.shape

    def shape(E2, x):
        E2.once(("not empty", x.get_id()), lambda: [z3.Implies(is_(x, "TextElement"), ulen(fld(x, "value")) > 0)])
        return base(E2, x)
    l.shape = shape
    return l


def arguments_shape(E, t, o):
    """no expression is printed as an empty text: names and numbers are not empty (C03)"""
    l = astschema.listof(*INLINE)(E, t, o)
    E.once(("some text", t.get_id()), lambda: [(ulen(join(E, ", ", PTL(E, t, llen(t)))) > 0) == (llen(t) > 0)])
    return l


HELPERS = [indent(), on_new_line()]
PRINTERS = [printer("serialize_placeable", "Placeable", rank=1), printer("serialize_expression", *EXPR, rank=2), printer("serialize_named_argument", "NamedArgument"),
            printer("serialize_call_arguments", "CallArguments"), printer("serialize_variant_key", "Identifier", "NumberLiteral"),
            printer("serialize_element", "TextElement", "Placeable", rank=3), printer("serialize_pattern", "Pattern"), printer("serialize_variant", "Variant"),
            printer("serialize_attribute", "Attribute"), printer("serialize_message", "Message"), printer("serialize_term", "Term"), serialize_comment(), serialize_entry(), serialize()]
PRINTER = HELPERS + PRINTERS


def registry():
    reg = Registry()
    for c in PRINTER:
        reg.active[c.key] = c
    astschema.install(reg)
    reg.snoc_hook = text_snoc
    reg.rpart_hook, reg.replace_hook = rpart_hook, replace_hook
    for n in AST_SCHEMAS:
        s = {}
        for k in fieldorder(n):
            f = AST_SCHEMAS[n][k]
            if (n, k) == ("Pattern", "elements"):
                f = elements_shape
            if (n, k) == ("CallArguments", "positional"):
                f = arguments_shape
            s[k] = deeper(None, None, k, f)
        reg.schemas[AST + ":" + n] = s
    return reg


def text_snoc(E, t, x):
    """a list with one more text joins to one more text"""
    if x is not None and is_strv(x) or x is None:
        l, xt = t.arg(0), t.arg(1)
        ps = list(E.norm(x)) if x is not None else [Op(xt)]
        E.once(("joined", t.get_id()), lambda: [joined(E, t) == E.sterm(SStr(Op(joined(E, l)), *ps))])
