"""Contracts of the tree operations of fluent.syntax.ast: clone, equals, to_json
and from_json.

COPY(t), JS(t) and FJ(j) name what clone, to_json and from_json give for one
node; the postcondition is their equation, field by field: a clone is a new
object of the same class, whose fields hold the same atoms, the clones of its
nodes and new lists of the clones of their elements.  EQ(a, b, ig) is equality
with ignored fields ig.  The lemmas at the end connect them."""
from .rt import *
from . import astschema
from .astschema import AST, AST_SCHEMAS, node
from .compiler import deeper, fieldorder

ALL = list(AST_SCHEMAS)
COPY, JS, FJ = uf("COPY", U, U), uf("JS", U, U), uf("FJ", U, U)
EQ = uf("EQ", U, U, U, B)


def nth(l, i):
    return uf("nth", U, I, U)(l, i)


def mapping(name, f):
    """the list of f(x) for the elements of l from i on, after acc"""
    s = Spec(name, [U, I, U], U, lambda E, l, i, acc: z3.If(i >= llen(l), acc, s(E, l, i + 1, E.mk_snoc(acc, f(nth(l, i))))))
    return s


MAPS = {"COPY": mapping("COPYL", COPY), "JS": mapping("JSL", JS), "FJ": mapping("FJL", FJ), "ID": mapping("SAMEL", lambda x: x)}
FUN = {"COPY": COPY, "JS": JS, "FJ": FJ}
ALLEQ = Spec("ALLEQ", [U, U, I, U, B], B, lambda E, a, b, i, ig, n: z3.If(i >= llen(a), z3.BoolVal(True),
             z3.And(z3.If(n, EQ(nth(a, i), nth(b, i), ig), nth(a, i) == nth(b, i)), ALLEQ(E, a, b, i + 1, ig, n))))


def nodelist(v):
    """list of nodes, not of atoms"""
    return getattr(v, "elemclasses", None) is not None


def img(E, op, v):
    """what op makes of the value of a field, as a term"""
    if isinstance(v, Obj):
        return FUN[op](E.term(v))
    if isinstance(v, SDict):
        return FUN[op](E.dterm(v))
    if isinstance(v, SList):
        return MAPS[op if nodelist(v) else "ID"](E, E.term(v), IV(0), nil)
    return E.term(v)


def scope(c):
    """variables of the frame of a loop and of the frames around it"""
    out, fr = {}, c.fr
    while fr is not None and fr.parent is not None:
        for k, v in fr.vars.items():
            out.setdefault(k, v)
        fr = fr.parent
    return out


def folds(E, ctx):
    fr = scope(ctx)
    out = []
    for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
        seq = lambda c, n=n: scope(c)[n + "seq"]
        i = lambda c, n=n: zi(scope(c)[n])
        out.append(("index %s" % n, lambda c, i=i, seq=seq: And(i(c) >= 0, i(c) <= E.llen(seq(c)))))
        lists = [k for k, v in fr.items() if isinstance(v, SList) and not k.endswith("seq")]
        for acc in lists:
            for op, S_ in MAPS.items():
                def f(c, S_=S_, acc=acc, i=i, seq=seq):
                    if not isinstance(scope(c)[acc], SList) or not isinstance(seq(c), SList):
                        raise KeyError(acc)
                    l = E.term(seq(c))
                    return S_(E, l, i(c), E.term(scope(c)[acc])) == S_(E, l, IV(0), nil)
                out.append(("%s %s %s" % (op, n, acc), f))
        ig = fr.get("ignored_fields")
        if isinstance(ig, SList):
            igt = E.term(ig)
            for a in lists:
                for b in lists:
                    if a != b and (a, b) != (b, a) and fr[a].term is not None and fr[b].term is not None:
                        nd = z3.BoolVal(nodelist(fr[a]))

                        def g(c, a=a, b=b, i=i, nd=nd):
                            x, y = scope(c)[a], scope(c)[b]
                            if x.items or y.items:
                                raise KeyError(a)
                            return z3.And(llen(x.term) == llen(y.term), ALLEQ(E, x.term, y.term, IV(0), igt, nd) == ALLEQ(E, x.term, y.term, i(c), igt, nd))
                        out.append(("equal so far %s %s %s" % (n, a, b), g))
    return out


# ---------------------------------------------------------------- contracts
class T(Contract):
    group = "tree"
    variants = ALL

    def setup(self, E):
        n = E.s.opts.get("cls") or ALL[E.choose(len(ALL))]
        t = E.fresh("node", U)
        E.add(depth(t) >= 0)
        return [node(E, t, [n])], {}

    def decreases(self, E, a):
        return (depth(E.term(a.self)), IV(0))

    def loop_candidates(self, E, ctx):
        return folds(E, ctx)

    def fields(self, E, o):
        E.resolve_cls(o)
        return {k: E.getfield(o, k) for k in AST_SCHEMAS[E.mkname(o.cls)]}

    def new(self, E, r, cls):
        return isinstance(r, Obj) and r.term is None and not E.preexisting(r) and r.cls is cls

    def same_fields(self, E, r, fs, op):
        out = []
        for k, v in fs.items():
            x = E.getfield(r, k)
            if x is MISSING:
                out.append(("field %s" % k, False))
                continue
            out.append(("field %s" % k, E.term(x) == img(E, op, v)))
            if isinstance(v, SList):
                out.append(("field %s is a list of its own" % k, isinstance(x, SList) and x is not v and not E.preexisting(x)))
        out.append(("no other fields", set(r.fields) <= set(fs)))
        return out


class clone(T):
    key = AST + ":BaseNode.clone"

    def old(self, E, a):
        return {"t": E.term(a.self), "f": self.fields(E, a.self) if E.verifying == self.key else None}

    def result(self, E, a, o):
        t = COPY(o["t"])
        s = o["t"]
        cs = [E.mkname(c) for c in (a.self.cands or [a.self.cls])]
        E.once(("copied", t.get_id()), lambda: [cls_of(t) == cls_of(s)])
        return node(E, t, cs)

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        return [("a new node of the same class", self.new(E, r, a.self.cls))] + (self.same_fields(E, r, o["f"], "COPY") if isinstance(r, Obj) else [])


class to_json_method(T):
    key = AST + ":BaseNode.to_json"

    def old(self, E, a):
        if E.verifying != self.key and a.fn is not None:
            raise Unsupported("to_json with a function")
        return {"t": E.term(a.self), "f": self.fields(E, a.self) if E.verifying == self.key else None}

    def result(self, E, a, o):
        return SDict((), JS(o["t"]))

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        ok = isinstance(r, SDict) and r.base is None and not E.preexisting(r) and r.view_of is None
        out = [("a new dictionary", ok)]
        if ok:
            d = {k: v for k, v in r.items}
            out.append(("its keys are the fields and type", set(d) == set(o["f"]) | {"type"}))
            out.append(("type", d.get("type") == E.mkname(a.self.cls)))
            for k, v in o["f"].items():
                x = d.get(k, MISSING)
                out.append(("field %s" % k, x is not MISSING and E.term(x) == img(E, "JS", v)))
        return out


class to_json_func(T):
    key = AST + ":to_json"

    def setup(self, E):
        k = E.s.opts["kind"]
        if k == 0:
            t = E.fresh("node", U)
            E.add(depth(t) >= 0)
            return [node(E, t, ALL)], {}
        if k in (1, 2):
            return [anylist(E, "list", k == 1)], {}
        return [atom(E)], {}

    def decreases(self, E, a):
        if isinstance(a.value, Obj):
            return (depth(E.term(a.value)), IV(1))
        return (depth(E.term(a.value)) if isinstance(a.value, SList) else IV(-1), IV(1))

    def old(self, E, a):
        if a.fn is not None:
            raise Unsupported("to_json with a function")
        v = a.value
        return {"t": img(E, "JS", v)}

    def result(self, E, a, o):
        v = a.value
        if isinstance(v, Obj):
            return SDict((), o["t"])
        if isinstance(v, SList):
            r = SList((), o["t"])
            E.lterm(r)
            E.add(llen(o["t"]) == E.llen(v))
            return r
        return v

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        v = a.value
        out = [("what the value stands for", E.term(r) == o["t"])]
        if isinstance(v, SList):
            out += [("a new list", isinstance(r, SList) and not E.preexisting(r)), ("as many as before", isinstance(r, SList) and E.llen(r) == E.llen(v))]
        return out

    def loop_candidates(self, E, ctx):
        return folds(E, ctx) + lengths(E, ctx)


def lengths(E, ctx):
    fr = ctx.fr.vars
    out = []
    for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
        for acc in [k for k, v in fr.items() if isinstance(v, SList) and not k.endswith("seq")]:
            out.append(("as many %s %s" % (n, acc), lambda c, n=n, acc=acc: E.llen(c.fr.vars[acc]) == zi(c.fr.vars[n])))
    return out


class from_json(T):
    """of the JSON form of a tree"""
    key = AST + ":from_json"

    def setup(self, E):
        n = E.s.opts.get("cls")
        if n is None:
            k = E.s.opts["kind"]
            if k == 3:
                return [atom(E)], {}
            return [anylist(E, "list", k == 1, jshape)], {}
        s = Obj(E.module(AST).env[n], E.fresh("j", U))
        E.add(depth(s.term) >= 0)
        items = []
        for f in AST_SCHEMAS[n]:
            v = E.getfield(s, f)
            items.append([f, self.json(E, v)])
        E.ghost["items"] = {k: v for k, v in items}
        d = SDict(items + [["type", n]])
        d.jsonof = s.term
        return [d], {}

    def json(self, E, v):
        """the JSON form of a field whose value has the shape of v"""
        if isinstance(v, Obj):
            d = SDict((), v.term)
            d.classes = [E.mkname(c) for c in (v.cands or [v.cls])]
            return d
        if isinstance(v, SList) and nodelist(v):
            r = SList((), v.term, None, jshape)
            r.elemclasses = v.elemclasses
            E.lterm(r)
            return r
        return v

    def decreases(self, E, a):
        v = a.value
        if isinstance(v, SDict):
            return (depth(v.jsonof if v.base is None else v.base), IV(0))
        return (depth(E.term(v)) if isinstance(v, SList) else IV(-1), IV(1))

    def old(self, E, a):
        v = a.value
        if isinstance(v, SDict) and v.base is None:
            return {"t": None}
        return {"t": img(E, "FJ", v)}

    def result(self, E, a, o):
        v = a.value
        if isinstance(v, SDict):
            return node(E, o["t"], getattr(v, "classes", ALL))
        if isinstance(v, SList):
            r = SList((), o["t"])
            E.lterm(r)
            E.add(llen(o["t"]) == E.llen(v))
            return r
        return v

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        v = a.value
        n = E.s.opts.get("cls")
        if n is not None:
            if not isinstance(r, Obj):
                return [("a node", False)]
            return [("a new node of its type", self.new(E, r, E.module(AST).env[n]))] + self.same_fields(E, r, E.ghost["items"], "FJ")
        out = [("what the value stands for", E.term(r) == o["t"])]
        if isinstance(v, SList):
            out += [("a new list", isinstance(r, SList) and not E.preexisting(r)), ("as many as before", isinstance(r, SList) and E.llen(r) == E.llen(v))]
        return out

    def loop_candidates(self, E, ctx):
        return folds(E, ctx) + lengths(E, ctx)


def jshape(E, t):
    d = SDict((), t)
    d.classes = ALL
    return d


def atom(E):
    k = E.choose(3)
    if k == 0:
        return None
    if k == 1:
        return SBool(E.fresh("flag", B))
    t = E.fresh("text", U)
    E.atom_term(Op(t))
    return SStr(Op(t))


def anylist(E, name, nodes, shape=None):
    t = E.fresh(name, U)
    E.add(depth(t) >= 0)

    def nshape(E, x):
        E.once(("deep", x.get_id(), t.get_id()), lambda: [depth(x) >= 0, depth(x) < depth(t)])
        return shape(E, x) if shape else node(E, x, ALL)
    v = SList((), t, None, nshape if nodes else lambda E, x: astschema.string(E, x, None))
    if nodes:
        v.elemclasses = ALL
    E.lterm(v)
    return v


# ---------------------------------------------------------------- equality
def eqfield(E, x, y, ig):
    """formula: two values of the same field are equal"""
    if isinstance(x, Obj) and isinstance(y, Obj):
        return EQ(E.term(x), E.term(y), ig)
    if isinstance(x, SList) and isinstance(y, SList):
        a, b = E.term(x), E.term(y)
        return z3.And(llen(a) == llen(b), ALLEQ(E, a, b, IV(0), ig, z3.BoolVal(nodelist(x))))
    if isinstance(x, (Obj, SList)) or isinstance(y, (Obj, SList)) or (x is None) != (y is None):
        return z3.BoolVal(False)
    if sort_of(x) != sort_of(y):
        return z3.BoolVal(False)
    return E.term(x) == E.term(y)


def sort_of(v):
    return "text" if is_strv(v) else "flag" if isinstance(v, (bool, SBool)) else "number" if isinstance(v, (int, SInt)) else "nothing" if v is None else "?"


class equals(T):
    key = AST + ":BaseNode.equals"

    def setup(self, E):
        args, _ = T.setup(self, E)
        n = E.mkname(args[0].cls)
        t = E.fresh("other", U)
        E.add(depth(t) >= 0)
        other = node(E, t, ALL)
        fs = fieldorder(n)
        k = E.choose(3 + len(fs))
        if k == 0:
            return args + [other], {}
        if k == 1:
            return args + [other, SList([])], {}
        if k == 2:
            return args + [other, SList(list(fs))], {}
        # one of the fields, and a name that is none
        return args + [other, SList([fs[k - 3], "other"])], {}

    def old(self, E, a):
        s, x = a.self, a.other
        o = {"eq": None}
        ig = E.term(a.ignored_fields)
        o["ig"] = ig
        if not (isinstance(s, Obj) and isinstance(x, Obj)):
            raise Unsupported("comparison with something that is not a node")
        o["eq"] = EQ(E.term(s), E.term(x), ig)
        return o

    def result(self, E, a, o):
        return SBool(o["eq"])

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        n = E.mkname(a.self.cls)
        if a.other.cands or a.other.cls is not a.self.cls:
            # not compared beyond the class
            return [("nodes of different classes are not equal", z3.Implies(cls_of(E.term(a.self)) != cls_of(E.term(a.other)), Not(truth(r)))),
                    ("compared when of the same class", cls_of(E.term(a.self)) != cls_of(E.term(a.other)))]
        ig = [x for x in E.concrete_items(a.ignored_fields)]
        f, g = self.fields(E, a.self), self.fields(E, a.other)
        spec = z3.And(*[eqfield(E, f[k], g[k], o["ig"]) for k in f if k not in ig])
        return [("equal exactly when all fields that are not ignored are", truth(r) == spec)]


def truth(r):
    return r.e if isinstance(r, SBool) else z3.BoolVal(bool(r)) if isinstance(r, bool) else z3.Const("not a truth value", B)


class scalars_equal(T):
    key = AST + ":scalars_equal"

    def setup(self, E):
        def any_(nm):
            if E.choose(2):
                t = E.fresh(nm, U)
                E.add(depth(t) >= 0)
                return node(E, t, ALL)
            return atom(E)
        return [any_("node1"), any_("node2"), SList((), E.fresh("ignored", U))], {}

    def decreases(self, E, a):
        return (depth(E.term(a.node1)) if isinstance(a.node1, Obj) else IV(-1), IV(1))

    def old(self, E, a):
        x, y = a.node1, a.node2
        ig = E.term(a.ignored_fields)
        return {"eq": eqfield(E, x, y, ig)}

    def result(self, E, a, o):
        return SBool(o["eq"])

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        x, y = a.node1, a.node2
        if isinstance(x, Obj) and isinstance(y, Obj):
            # equality of nodes of different classes is false (equals)
            E.add(z3.Implies(cls_of(E.term(x)) != cls_of(E.term(y)), Not(o["eq"])))
        return [("equal as values", truth(r) == o["eq"])]


TREE = [clone(), to_json_method(), to_json_func(), from_json(), equals(), scalars_equal()]


# ---------------------------------------------------------------- lemmas over the contracts
class Lemma(Contract):
    """proved field by field from the equations of the contracts, by induction on depth"""

    def __init__(self, name, f):
        self.key, self.f = "lemma: " + name, f

    def verify(self, E):
        E.contract, E.verifying = self, self.key
        n = E.s.opts["cls"]
        E.s.reached += 1
        self.f(E, n)
        E.s.returned += 1


def eqn(E, n, a, b, ig, ignored=()):
    """equation of EQ for two nodes of class n (contract of equals), over terms"""
    fs = []
    for k in AST_SCHEMAS[n]:
        if k in ignored:
            continue
        fs.append(eqterm(E, n, k, fld(a, k), fld(b, k), ig))
    return EQ(a, b, ig) == z3.And(cls_of(a) == cls_of(b), *fs)


def eqterm(E, n, k, x, y, ig):
    kd = kindof(n, k)
    if kd == "node":
        return z3.If(z3.Or(x == NONE, y == NONE), x == y, EQ(x, y, ig))
    if kd in ("list", "atoms"):
        return z3.And(llen(x) == llen(y), ALLEQ(E, x, y, IV(0), ig, z3.BoolVal(kd == "list")))
    return x == y


NODEF = {}


def kindof(n, k):
    if k == "span":
        return "node"
    if (n, k) == ("Annotation", "arguments"):
        return "atoms"
    if k in ("attributes", "elements", "variants", "positional", "named", "body", "annotations"):
        return "list"
    if k in ("name", "value", "content", "code", "message", "start", "end", "default") and not (k == "value" and n in ("Message", "Term", "Attribute", "Variant", "NamedArgument")) \
            and not (n, k) == ("NamedArgument", "name"):
        return "atom"
    return "node"


def lists_equal(E, hyp, name):
    """ALLEQ(a, b, i) for all i <= len, given the elements are equal: induction on len - i"""
    a, b, i, ig, n = E.fresh("la", U), E.fresh("lb", U), E.fresh("i"), E.fresh("ig", U), E.fresh("nodes", B)
    E.add(z3.And(i >= 0, i <= llen(a), llen(a) == llen(b)))
    x, y = nth(a, i), nth(b, i)
    E.add(z3.If(n, EQ(x, y, ig), x == y))
    E.add(z3.Implies(i < llen(a), ALLEQ.f(a, b, i + 1, ig, n)))
    E.prove(ALLEQ(E, a, b, i, ig, n), "lists of equal elements are equal")


def reflexive(E, n):
    t, ig = z3.Const("t", U), z3.Const("ig", U)
    E.add(cls_of(t) == class_index(n))
    for k in AST_SCHEMAS[n]:
        kd, x = kindof(n, k), fld(t, k)
        if kd == "node":
            E.add(EQ(x, x, ig))                          # induction
        elif kd in ("list", "atoms"):
            E.add(ALLEQ.f(x, x, IV(0), ig, z3.BoolVal(kd == "list")))      # lists_equal, induction
    E.add(eqn(E, n, t, t, ig))
    E.prove(EQ(t, t, ig), "a %s is equal to itself" % n)
    lists_equal(E, None, "reflexive")


def symmetric(E, n):
    a, b, ig = z3.Const("a", U), z3.Const("b", U), z3.Const("ig", U)
    E.add(cls_of(a) == class_index(n))
    E.add(cls_of(b) == class_index(n))
    for k in AST_SCHEMAS[n]:
        kd, x, y = kindof(n, k), fld(a, k), fld(b, k)
        if kd == "node":
            E.add(EQ(x, y, ig) == EQ(y, x, ig))          # induction
        elif kd in ("list", "atoms"):
            m = z3.BoolVal(kd == "list")
            E.add(z3.Implies(llen(x) == llen(y), ALLEQ.f(x, y, IV(0), ig, m) == ALLEQ.f(y, x, IV(0), ig, m)))
    E.add(eqn(E, n, a, b, ig))
    E.add(eqn(E, n, b, a, ig))
    E.prove(EQ(a, b, ig) == EQ(b, a, ig), "equality of a %s is symmetric" % n)
    # the lists: induction on what is left
    x, y, i, m = E.fresh("x", U), E.fresh("y", U), E.fresh("i"), E.fresh("m", B)
    E.add(llen(x) == llen(y))
    u, v = nth(x, i), nth(y, i)
    E.add(EQ(u, v, ig) == EQ(v, u, ig))
    E.add(ALLEQ.f(x, y, i + 1, ig, m) == ALLEQ.f(y, x, i + 1, ig, m))
    E.prove(ALLEQ(E, x, y, i, ig, m) == ALLEQ(E, y, x, i, ig, m), "equality of lists is symmetric")


def mapped(op):
    """the image of a tree under op is equal to it"""
    def f(E, n):
        t, ig = z3.Const("t", U), nil
        F = {"COPY": COPY, "FJ": lambda x: FJ(JS(x))}[op]
        c = F(t)
        E.add(cls_of(t) == class_index(n))
        E.add(cls_of(c) == class_index(n))
        for k in AST_SCHEMAS[n]:
            kd, x, y = kindof(n, k), fld(t, k), fld(c, k)
            if kd == "node":
                # postcondition of clone (of from_json and to_json)
                E.add(z3.If(x == NONE, y == NONE, y == F(x)))
                E.add(x != y if False else z3.Implies(x != NONE, z3.And(F(x) != NONE, EQ(F(x), x, ig))))       # induction
            elif kd == "list":
                E.add(y == (MAPS["COPY"].f(x, IV(0), nil) if op == "COPY" else MAPS["FJ"].f(MAPS["JS"].f(x, IV(0), nil), IV(0), nil)))
                E.add(z3.And(llen(y) == llen(x), ALLEQ.f(y, x, IV(0), ig, z3.BoolVal(True))))       # lists below, lists_equal, induction
            elif kd == "atoms":
                E.add(y == x)
            else:
                E.add(y == x)
        for k in AST_SCHEMAS[n]:
            if kindof(n, k) == "atoms":
                E.add(ALLEQ.f(fld(c, k), fld(t, k), IV(0), ig, z3.BoolVal(False)))
        E.add(eqn(E, n, c, t, ig))
        E.prove(EQ(c, t, ig), "the %s of a %s is equal to it" % ({"COPY": "clone", "FJ": "JSON form, read back,"}[op], n))
        lists_equal(E, None, op)
    return f


LEMMAS = [Lemma("equality is reflexive", reflexive), Lemma("equality is symmetric", symmetric), Lemma("a clone is equal to its original", mapped("COPY")),
          Lemma("JSON read back is equal to the original", mapped("FJ"))]


def listof(names):
    base = astschema.listof(*names)

    def g(E, t, o):
        l = base(E, t, o)
        l.elemclasses = names
        return l
    return g


ELEMS = {"attributes": ["Attribute"], "elements": ["TextElement", "Placeable"], "variants": ["Variant"], "positional": astschema.INLINE, "named": ["NamedArgument"],
         "body": astschema.ENTRY, "annotations": ["Annotation"]}


def atoms(E, t, o):
    l = SList((), t, None, lambda E2, x: astschema.string(E2, x, None))
    E.lterm(l)
    return l


def registry():
    reg = Registry()
    for c in TREE:
        reg.active[c.key] = c
    astschema.install(reg)
    reg.snoc_hook = None
    for n in AST_SCHEMAS:
        s = {}
        for k in fieldorder(n):
            f = AST_SCHEMAS[n][k]
            if k in ELEMS:
                f = listof(ELEMS[k])
            elif kindof(n, k) == "atoms":
                f = atoms
            elif k == "span":
                f = astschema.opt(astschema.N_("Span"))
            s[k] = deeper(None, None, k, f)
        reg.schemas[AST + ":" + n] = s
    return reg
