"""Contracts of fluent.pygments.lexer (C24).

TOKS(t, ev) is the list of tokens after those of the node t are added to the
tokens ev: one token for a node of an atomic kind, those of the children, in
the order of their positions, for any other.  A token TK(kind, start, end)
covers the text from start to end.  Tokenizer.tokenize gives these, and
get_tokens_unprocessed these with the text between them as punctuation, so that
every piece starts where the one before it ends and is the text found there.

Assumed of the tree that the parser gives (C02, C03): every node has a span, it
is not empty (except for the resource) and inside the text; the children of a
node are inside it, one after the other in the order of the grammar."""
from .rt import *
from .stream import N, source
from .astschema import AST, AST_SCHEMAS, node
from .compiler import fieldorder
from .tree import ALL, kindof, nodelist, registry as tree_registry

LM = "fluent.pygments.lexer"
EV = "<events>"
NODES = [n for n in ALL if n not in ("Span", "Annotation")]      # annotations belong to junk, which is one token
TK = uf("TK", U, I, I, U)
TKT, TKS, TKE = uf("TKT", U, U), uf("TKS", U, I), uf("TKE", U, I)
TOKS = uf("TOKS", U, U, U)
OKE, END = uf("OKE", U, B), uf("END", U, I)
PRE = uf("PRE", U, I, U)
PARSE = uf("PARSE", U, U)
TOKL = Spec("TOKL", [U, I, U], U, lambda E, l, i, ev: z3.If(i >= llen(l), ev, TOKL(E, l, i + 1, TOKS(nth(l, i), ev))))

KINDS = {"Comment": "Comment.Multiline", "GroupComment": "Comment.Multiline", "ResourceComment": "Comment.Multiline", "Identifier": "Name.Constant",
         "TextElement": "Literal", "NumberLiteral": "Literal.Number", "StringLiteral": "Literal.String", "VariableReference": "Name.Variable",
         "Junk": "Generic.Error"}
# the order of the grammar
ORDER = {"Message": ["comment", "id", "value", "attributes"], "Term": ["comment", "id", "value", "attributes"]}


def nth(l, i):
    return uf("nth", U, I, U)(l, i)


def kind(E, n):
    return E.litterm("func pygments.token.Token." + n)


def S(t):
    return uf("unbox", U, I)(fld(fld(t, "span"), "start"))


def Z(t):
    return uf("unbox", U, I)(fld(fld(t, "span"), "end"))


def children(n):
    """fields that hold nodes, in the order of the grammar: (field, is a list)"""
    fs = ORDER.get(n) or [k for k in fieldorder(n) if k != "span"]
    return [(k, kindof(n, k) == "list") for k in fs if kindof(n, k) in ("node", "list") and n not in ("Junk", "Span")]


def wf(E, t, n):
    """where a node and its children are in the text"""
    if n == "Span":
        return []
    out = [S(t) >= 0, S(t) <= Z(t), Z(t) <= N] + ([S(t) < Z(t)] if n != "Resource" else [S(t) == 0, Z(t) == N])
    before = []
    for k, islist in children(n):
        f = fld(t, k)
        if islist:
            there, a, z = llen(f) > 0, S(nth(f, IV(0))), Z(nth(f, llen(f) - 1))
        else:
            there, a, z = f != NONE, S(f), Z(f)
        if islist:
            last = S(nth(f, llen(f) - 1))
            out += [llen(f) >= 0, z3.Implies(there, z3.And(a <= last, last < z))]
        out.append(z3.Implies(there, z3.And(S(t) <= a, a < z, z <= Z(t))))
        for th, zz in before:
            out.append(z3.Implies(z3.And(there, th), zz <= a))
        before.append((there, z))
    return out


def token(E, ty, a, z):
    t = TK(ty, a, z)
    E.once(("token", t.get_id()), lambda: [TKT(t) == ty, TKS(t) == a, TKE(t) == z])
    return t


def add(E, ev, t):
    """the tokens ev with t after them"""
    r = E.mk_snoc(ev, t)
    E.once(("add token", r.get_id()), lambda: [OKE(r) == z3.And(OKE(ev), END(ev) <= TKS(t), 0 <= TKS(t), TKS(t) <= TKE(t), TKE(t) <= N), END(r) == TKE(t)])
    return r


def spec(E, t, n, ev):
    if n in ("Span", "Annotation"):
        return ev
    if n in KINDS:
        return add(E, ev, token(E, kind(E, KINDS[n]), S(t), Z(t)))
    if n == "Variant":
        k = fld(t, "key")
        return TOKS(fld(t, "value"), add(E, ev, token(E, kind(E, "Name.Attribute"), S(k), Z(k))))
    for k, islist in children(n):
        f = fld(t, k)
        ev = TOKL(E, f, IV(0), ev) if islist else z3.If(f == NONE, ev, TOKS(f, ev))
    return ev


def events(E):
    return E.term(E.getfield(E.ghost["self"], EV))


def setevents(E, t):
    l = E.getfield(E.ghost["self"], EV)
    E.logwrite(l, "items")
    l.term, l.items, l.memo = z3.simplify(t), [], {}
    E.lterm(l)


class Tokens:
    """what a call of tokenize gives"""
    def __init__(self, of):
        self.of = of                 # events after it, as a function of those before

    def for_iter(self, E):
        t = self.of(nil)
        if not E.ghost.get("consumer"):
            raise Unsupported("iteration over the tokens")
        ast = E.term(E.ghost["ast"])
        E.once(("all tokens", t.get_id()), lambda: [OKE(nil), END(nil) == 0, PRE(t, IV(0)) == nil, PRE(t, llen(t)) == t] +
               ([z3.Implies(z3.And(OKE(nil), END(nil) <= S(ast)), z3.And(OKE(t), END(t) <= Z(ast)))] if z3.eq(t, TOKS(ast, nil)) else []))

        def shape(E, x):
            i = x.arg(1)
            p = PRE(t, i)
            E.once(("prefix", x.get_id()), lambda: [x == TK(TKT(x), TKS(x), TKE(x)), PRE(t, i + 1) == E.mk_snoc(p, x), TKT(x) != kind(E, "Punctuation"),
                                                    OKE(PRE(t, i + 1)), OKE(PRE(t, i + 1)) == z3.And(OKE(p), END(p) <= TKS(x), 0 <= TKS(x), TKS(x) <= TKE(x), TKE(x) <= N), END(PRE(t, i + 1)) == TKE(x)])
            n = node(E, uf("NODEOF", U, U)(x), ["Identifier"])
            E.add(S(n.term) == TKS(x))
            E.add(Z(n.term) == TKE(x))
            return (n, SInt(TKS(x)), SVal(TKT(x), "token type"), SStr(Sl(TKS(x), TKE(x))))
        l = SList((), t, None, shape)
        E.lterm(l)
        return l


class Hook:
    """receives what a generator under verification yields"""
    def __init__(self, E, one):
        self.E, self.one = E, one

    def __call__(self, v):
        self.one(v)

    def yield_from(self, it):
        E = self.E
        if isinstance(it, Tokens):
            setevents(E, it.of(events(E)))
        elif isinstance(it, GenCall):
            E.run_gen(it, self)
        else:
            for v in E.concrete_items(it):
                self.one(v)


def tokenizer(E):
    t = Obj(E.module(LM).env["Tokenizer"])
    a = E.fresh("ast", U)
    E.add(depth(a) >= 0)
    ast = node(E, a, ["Resource"])
    l = SList((), E.fresh("events", U))
    E.lterm(l)
    t.fields = {"text": source(E), "ast": ast, EV: l}
    E.ghost["self"] = t
    return t


class tokenize(Contract):
    key = LM + ":Tokenizer.tokenize"
    group = "tokenize"

    def setup(self, E):
        t = tokenizer(E)
        n = E.s.opts.get("cls")
        if n == "None":
            for f in wf(E, E.term(t.fields["ast"]), "Resource"):
                E.add(f)
            return [t], {}
        if n == "list":
            u = E.fresh("list", U)
            E.add(depth(u) >= 0)

            def shape(E, x):
                E.once(("deep", x.get_id(), u.get_id()), lambda: [depth(x) >= 0, depth(x) < depth(u)])
                return node(E, x, NODES)
            l = SList((), u, None, shape)
            l.elemclasses = NODES
            E.lterm(l)
            return [t, l], {}
        if n == "atom":
            u = E.fresh("text", U)
            E.atom_term(Op(u))
            return [t, SStr(Op(u))], {}
        u = E.fresh("node", U)
        E.add(depth(u) >= 0)
        for f in wf(E, u, n):
            E.add(f)
        return [t, node(E, u, [n])], {}

    def modifies(self, E, a):
        return [E.getfield(a.self, EV)]

    def decreases(self, E, a):
        v = a.node
        if v is None:
            return (IV(1), IV(0))
        return (IV(0), depth(E.term(v)) if isinstance(v, (Obj, SList)) else IV(-1))

    def apply(self, E, args, kw, fn):
        a = self.bind(E, args, kw, fn)
        if E.contract.key == self.key:
            new, old = self.decreases(E, a), E.ghost["measure"]
            E.prove(lex(new, old), "recursion decreases at the call of Tokenizer.tokenize")
            E.prove(a.self is E.ghost["self"], "the tokenizer itself goes on")
        v = a.node
        if v is None:
            v = E.getfield(a.self, "ast")
            if not isinstance(v, Obj) or E.contract.key == self.key:
                raise Unsupported("tokenize() inside")
            E.prove(E.eq(E.getfield(a.self, "text"), source(E)), "the tokenizer's text is the text")
        if isinstance(v, Obj):
            t = E.term(v)
            return Tokens(lambda ev: TOKS(t, ev))
        if isinstance(v, SList):
            t = E.term(v)
            if not nodelist(v):
                return Tokens(lambda ev: ev)
            return Tokens(lambda ev: TOKL(E, t, IV(0), ev))
        return Tokens(lambda ev: ev)

    def old(self, E, a):
        return {"e": events(E)}

    def drive(self, E, gen, a, o):
        def one(v):
            if not isinstance(v, tuple) or len(v) != 4 or not isinstance(v[0], Obj) or not isinstance(v[2], (Ext, SVal)):
                E.prove(False, "a token is a node, a position, a kind and a text")
                raise PathEnd()
            a, z = zi(v[1]), zi(E.getfield(E.getfield(v[0], "span"), "end"))
            E.prove(E.eq(v[3], E.slice(source(E), mki(a), mki(z))), "the text of a token is the text it covers")
            setevents(E, add(E, events(E), token(E, E.term(v[2]), a, z)))
        E.run_gen(gen, Hook(E, one))
        return None

    def post(self, E, a, o, r):
        n = E.s.opts.get("cls")
        x = a.node if n != "None" else E.getfield(a.self, "ast")
        if n == "list":
            s = TOKL(E, E.term(x), IV(0), o["e"])
        elif n == "atom":
            s = o["e"]
        else:
            s = spec(E, E.term(x), "Resource" if n == "None" else n, o["e"])
        return [("the tokens of the node, in the order of their positions", events(E) == s)]

    def loop_candidates(self, E, ctx):
        fr = ctx.fr.vars
        out = []
        start = events(E)
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            i = lambda c, n=n: zi(c.fr.vars[n])
            out.append(("index %s" % n, lambda c, n=n, i=i: And(i(c) >= 0, i(c) <= E.llen(c.fr.vars[n + "seq"]))))
            for k in [n + "seq"] + [k for k, v in fr.items() if isinstance(v, SList) and nodelist(v) and not k.endswith("seq")]:
                if not nodelist(fr[k]):
                    continue
                seq = lambda c, k=k: E.term(c.fr.vars[k])
                goal = TOKL(E, seq(ctx), i(ctx), start)
                out.append(("tokens %s %s" % (n, k), lambda c, i=i, seq=seq, goal=goal: TOKL(E, seq(c), i(c), events(E)) == goal))
        return out


class parse(Contract):
    """assumed: the parser's tree (C02, C03)"""
    key = "fluent.syntax:parse"

    def result(self, E, a, o):
        t = PARSE(E.term(a.d[next(iter(a.d))]))
        E.add(depth(t) >= 0)
        for f in wf(E, t, "Resource"):
            E.add(f)
        v = node(E, t, ["Resource"])
        E.ghost["ast"] = v
        return v

    def pre(self, E, a):
        vs = list(a.d.values())
        kw = vs[-1]
        return [("with spans", isinstance(kw, SDict) and all(k == "with_spans" and v is True for k, v in kw.items)), ("the text itself", E.eq(vs[0], source(E)))]


class get_tokens_unprocessed(Contract):
    key = LM + ":FluentLexer.get_tokens_unprocessed"

    def setup(self, E):
        l = Obj(E.module(LM).env["FluentLexer"])
        l.fields = {EV: SList((), nil), "<pos>": SInt(IV(0))}
        l.partial = True
        E.lterm(l.fields[EV])
        E.ghost["self"] = l
        E.ghost["consumer"] = True
        E.add(OKE(nil))
        E.add(END(nil) == 0)
        return [l, source(E)], {}

    def modifies(self, E, a):
        return [a.self, E.getfield(a.self, EV)]

    def drive(self, E, gen, a, o):
        me = E.ghost["self"]

        def one(v):
            if not isinstance(v, tuple) or len(v) != 3:
                E.prove(False, "a token is a position, a kind and a text")
                raise PathEnd()
            p = zi(E.getfield(me, "<pos>"))
            E.prove(zi(v[0]) == p, "a token starts where the one before it ends")
            z = p + E.slen(v[2])
            E.prove(E.eq(v[2], E.slice(source(E), mki(p), mki(z))), "the text of a token is the text it covers")
            E.setfield(me, "<pos>", SInt(z3.simplify(z)))
            if isinstance(v[1], Ext) and v[1].path == "pygments.token.Token.Punctuation":
                return
            E.prove(E.slen(v[2]) >= 0, "size")
            setevents(E, E.mk_snoc(events(E), token(E, E.term(v[1]), p, z3.simplify(z))))
        E.run_gen(gen, Hook(E, one))
        return None

    def post(self, E, a, o, r):
        if "ast" not in E.ghost:
            return [("the text is parsed", False)]
        return [("the tokens cover the whole text", zi(E.getfield(a.self, "<pos>")) == N),
                ("the pieces that are not punctuation are the tokens", events(E) == TOKS(E.term(E.ghost["ast"]), nil))]

    def loop_candidates(self, E, ctx):
        fr = ctx.fr.vars
        me = E.ghost["self"]
        out = []
        pos = lambda: zi(E.getfield(me, "<pos>"))
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            seq = lambda c, n=n: E.term(c.fr.vars[n + "seq"])
            i = lambda c, n=n: zi(c.fr.vars[n])
            out.append(("index %s" % n, lambda c, n=n, i=i: And(i(c) >= 0, i(c) <= E.llen(c.fr.vars[n + "seq"]))))
            out.append(("tokens %s" % n, lambda c, i=i, seq=seq: events(E) == PRE(seq(c), i(c))))
            out.append(("position %s" % n, lambda c, i=i, seq=seq: pos() == END(PRE(seq(c), i(c)))))
            for x in [x for x, v in fr.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool) and not x.startswith("<")]:
                out.append(("%s is the position" % x, lambda c, x=x: zi(c.fr.vars[x]) == pos()))
        return out


class Lemma(Contract):
    """the tokens of a node are inside it, one after the other, if those before are before it"""
    key = "lemma tokens in order"

    def verify(self, E):
        n = E.s.opts["cls"]
        E.contract = self
        E.verifying = self.key
        E.s.reached += 1
        ev = E.fresh("events", U)
        E.add(OKE(ev))
        t = E.fresh("node", U)
        ih = lambda c, e, there: z3.Implies(z3.And(there, OKE(e), END(e) <= S(c)), z3.And(OKE(TOKS(c, e)), END(TOKS(c, e)) <= Z(c)))
        if n == "list":
            # induction on the number of elements left
            i = E.fresh("i")
            x = nth(t, i)
            last = Z(nth(t, llen(t) - 1))
            lower = z3.If(i < llen(t), S(x), last)
            for f in (i >= 0, i <= llen(t), llen(t) > 0, END(ev) <= lower, z3.Implies(i < llen(t) - 1, Z(x) <= S(nth(t, i + 1)))):
                E.add(f)
            r = TOKL(E, t, i, ev)
            e2 = TOKS(x, ev)
            r2 = TOKL(E, t, i + 1, e2)
            E.add(ih(x, ev, i < llen(t)))
            low2 = z3.If(i + 1 < llen(t), S(nth(t, i + 1)), last)
            E.add(z3.Implies(z3.And(i < llen(t), OKE(e2), END(e2) <= low2), z3.And(OKE(r2), END(r2) <= last)))
            E.prove(z3.And(OKE(r), END(r) <= last), "tokens of a list in order")
            E.s.returned += 1
            return
        for f in wf(E, t, n):
            E.add(f)
        E.add(END(ev) <= S(t))
        if n not in KINDS and n not in ("Span", "Annotation"):
            e = ev
            if n == "Variant":
                k = fld(t, "key")
                e = add(E, e, token(E, kind(E, "Name.Attribute"), S(k), Z(k)))
                E.add(k != NONE)
                E.add(fld(t, "value") != NONE)
                E.add(ih(fld(t, "value"), e, z3.BoolVal(True)))
            else:
                for k, islist in children(n):
                    f = fld(t, k)
                    if islist:
                        r = TOKL(E, f, IV(0), e)
                        E.add(z3.Implies(llen(f) <= 0, r == e))
                        E.add(z3.Implies(z3.And(llen(f) > 0, OKE(e), END(e) <= S(nth(f, IV(0)))), z3.And(OKE(r), END(r) <= Z(nth(f, llen(f) - 1)))))
                        e = r
                    else:
                        E.add(ih(f, e, f != NONE))
                        e = z3.If(f == NONE, e, TOKS(f, e))
        r = spec(E, t, n, ev)
        if n in ("Span",):
            r = ev
        E.prove(z3.And(OKE(r), END(r) <= (Z(t) if n != "Span" else END(ev))), "tokens of a %s in order" % n)
        E.s.returned += 1


LEXER = [tokenize(), get_tokens_unprocessed()]
LEMMA = Lemma()


def registry():
    reg = tree_registry()
    reg.active.clear()
    for c in LEXER + [parse()]:
        reg.active[c.key] = c
    for n in AST_SCHEMAS:
        if "span" in AST_SCHEMAS[n]:
            from .astschema import N_
            from .compiler import deeper
            s = dict(reg.schemas[AST + ":" + n])
            s["span"] = deeper(None, None, "span", N_("Span"))
            reg.schemas[AST + ":" + n] = s
    return reg
