"""Contracts of fluent.runtime.bundle.FluentBundle: entries by id, the cache of
compiled entries, and format_pattern."""
from .rt import *
from . import rt, astschema, resolver as RS_
from .astschema import AST, ENTRY, node

COMP = uf("COMP", U, U)          # compiled form of an entry (C22)


def entry(E, d, k):
    """what the map d holds for k, NONE if nothing"""
    t = NONE
    if d.base is not None:
        kt = E.term(k)
        has, get = uf("maphas", U, U, B)(d.base, kt), uf("mapget", U, U, U)(d.base, kt)
        E.once(("entry", get.get_id()), lambda: [z3.Implies(has, get != NONE)])
        t = If(has, get, NONE)
    for kk, v in d.items:
        e = E.eq(kk, k)
        t = If(e if z3.is_expr(e) else z3.BoolVal(e), NONE if v is DEL else E.term(v), t)
    return t


def nth(l, i):
    return uf("nth", U, I, U)(l, i)


def iscls(t, n):
    return cls_of(t) == class_index(n)


def _mk(cls):
    def body(E, l, i, cur, k, ov):
        x = nth(l, i)
        take = z3.And(iscls(x, cls), fld(fld(x, "id"), "name") == k, z3.Or(cur == NONE, ov))
        return If(i >= llen(l), cur, MK[cls](E, l, i + 1, If(take, x, cur), k, ov))
    return body


# the entry for k after items i.. of l are added to a bundle holding cur for k
MK = {c: Spec("ENTRY" + c, [U, I, U, U, B], U, _mk(c)) for c in ("Message", "Term")}


def astdict(cls):
    return lambda E, t, k: node(E, t, [cls])


def compiled(E, t, k=None):
    return rnode(E, t, ["Message", "Term"])


def mkbundle(E):
    b = Obj(E.module(BM).env["FluentBundle"])
    b.fields = {"_messages": SDict((), E.fresh("messages", U), astdict("Message")), "_terms": SDict((), E.fresh("terms", U), astdict("Term")),
                "_compiled": SDict((), E.fresh("compiled", U), compiled), "use_isolating": SBool(E.fresh("use_isolating", B)),
                "_functions": SDict((), E.fresh("functions", U), lambda E2, t, k: SVal(t, "function")),
                "_babel_locale": SVal(E.fresh("locale", U), "locale"), "_plural_form": SVal(E.fresh("plural", U), "plural"),
                "_ordinal_form": SVal(E.fresh("ordinal", U), "plural"), "_compiler": Obj(E.module("fluent.runtime.prepare").env["Compiler"])}
    b.partial = True
    return b


def maps(E, b):
    return [E.getfield(b, n) for n in ("_messages", "_terms")]


def anyid(E):
    """an arbitrary id: what holds for it holds for all"""
    t = z3.Const("any_id", U)
    E.atom_term(Op(t))
    return SStr(Op(t))


def cache_ok(E, b, k, term):
    """what the cache holds for an id is the compiled form of its entry"""
    c = E.getfield(b, "_compiled")
    e = entry(E, maps(E, b)[term], k)
    x = entry(E, c, (k, bool(term)))
    return z3.Implies(x != NONE, z3.And(e != NONE, x == COMP(e)))


def invariant(E, b, ks):
    return [("cache agrees with the %s%s" % (n, "" if i == 0 else " looked up"), cache_ok(E, b, k, term))
            for i, k in enumerate(ks) for term, n in ((False, "messages"), (True, "terms"))]


def frozen(E, b, o):
    out = []
    for n, m, t in zip(("messages", "terms"), maps(E, b), o["maps"]):
        k = anyid(E)
        out.append(("%s as before" % n, entry(E, m, k) == t))
    return out


class BundleContract(Contract):
    def ids(self, E, a):
        return [anyid(E)]

    def pre(self, E, a):
        return invariant(E, a.self, self.ids(E, a))

    def old(self, E, a):
        k = anyid(E)
        return {"maps": [entry(E, m, k) for m in maps(E, a.self)]}


class add_resource(BundleContract):
    key = BM + ":FluentBundle.add_resource"

    def setup(self, E):
        r = node(E, E.fresh("resource", U), ["Resource"])
        return [mkbundle(E), r, SBool(E.fresh("allow_overrides", B))], {}

    def ids(self, E, a):
        return [anyid(E)]

    def old(self, E, a):
        o = BundleContract.old(self, E, a)
        o["body"] = fld(E.term(a.resource), "body")
        o["ov"] = a.allow_overrides.e if isinstance(a.allow_overrides, SBool) else z3.BoolVal(bool(a.allow_overrides))
        return o

    def modifies(self, E, a):
        return maps(E, a.self) + [E.getfield(a.self, "_compiled")]

    def goal(self, E, a, o):
        return [MK[c](E, o["body"], IV(0), o["maps"][i], E.term(anyid(E)), o["ov"]) for i, c in enumerate(("Message", "Term"))]

    def post(self, E, a, o, r):
        k = anyid(E)
        g = self.goal(E, a, o)
        return [("%s: first added, or latest overriding" % n, entry(E, m, k) == g[i]) for i, (n, m) in enumerate(zip(("messages", "terms"), maps(E, a.self)))] + \
            invariant(E, a.self, [k])

    def loop_candidates(self, E, ctx):
        a, o = E.ghost["args"], E.ghost["old"]
        fr = ctx.fr.vars
        k = anyid(E)
        out = []
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            out.append(("index %s" % n, lambda c, n=n: And(zi(c.fr.vars[n]) >= 0, zi(c.fr.vars[n]) <= E.llen(c.fr.vars[n + "seq"]))))
            for i, c_ in enumerate(("Message", "Term")):
                out.append(("entries %s" % c_, lambda c, n=n, i=i, c_=c_: MK[c_](E, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), entry(E, maps(E, a.self)[i], k), E.term(k), o["ov"])
                            == self.goal(E, a, o)[i]))
        for nm, f in invariant(E, a.self, [k]):
            out.append((nm, lambda c, nm=nm: dict(invariant(E, a.self, [k]))[nm]))
        return out


class has_message(BundleContract):
    key = BM + ":FluentBundle.has_message"

    def setup(self, E):
        return [mkbundle(E), anyid(E)], {}

    def post(self, E, a, o, r):
        f = r.e if isinstance(r, SBool) else z3.BoolVal(bool(r))
        return [("true exactly for the ids of messages", f == (o["maps"][0] != NONE))]


class lookup(BundleContract):
    key = BM + ":FluentBundle._lookup"
    may_raise = True

    def setup(self, E):
        t = z3.Const("entry_id", U)
        E.atom_term(Op(t))
        return [mkbundle(E), SStr(Op(t)), bool(E.choose(2))], {}

    def ids(self, E, a):
        return [anyid(E), a.entry_id]

    def eid(self, a):
        return a.entry_id

    def term(self, E, a):
        return a.term if isinstance(a.term, bool) else E.branch(a.term.e)

    def old(self, E, a):
        o = BundleContract.old(self, E, a)
        o["e"] = entry(E, maps(E, a.self)[self.term(E, a)], self.eid(a))
        return o

    def modifies(self, E, a):
        return [E.getfield(a.self, "_compiled")]

    def raises_when(self, E, a, o):
        return o["e"] == NONE

    def exc(self, E, a, o):
        return Obj(KeyError, E.fresh("keyerror", U))

    def post_exc(self, E, a, o, x):
        c = x.cls
        ok = isinstance(c, type) and issubclass(c, LookupError) or isinstance(c, ClassVal) and LookupError in c.mro()
        return [("a lookup error", ok)] + invariant(E, a.self, self.ids(E, a))

    def havoc(self, E, a, o):
        d = E.getfield(a.self, "_compiled")
        d.base, d.items = E.fresh("compiled", U), []

    def result(self, E, a, o):
        return compiled(E, COMP(o["e"]))

    def post(self, E, a, o, r):
        return [("the compiled form of the entry", E.term(r) == COMP(o["e"]))] + frozen(E, a.self, o) + invariant(E, a.self, self.ids(E, a))


class get_message(lookup):
    key = BM + ":FluentBundle.get_message"

    def setup(self, E):
        t = z3.Const("entry_id", U)
        E.atom_term(Op(t))
        return [mkbundle(E), SStr(Op(t))], {}

    def ids(self, E, a):
        return [anyid(E), a.message_id]

    def eid(self, a):
        return a.message_id

    def term(self, E, a):
        return False


class compile_(Contract):
    """compiling an entry gives COMP of it (C22)"""
    key = "fluent.runtime.prepare:Compiler.__call__"

    def result(self, E, a, o):
        t = COMP(E.term(a.item))
        return compiled(E, t)


# ---------------------------------------------------------------- building a bundle
class UnknownLocaleError(Exception):
    """babel.UnknownLocaleError"""


LOCALES = z3.Const("locales", U)
KNOWN = uf("localeknown", U, B)            # babel knows the locale
PARSED = uf("localeof", U, U)
# the first locale known from i on, or babel's default
FIRST = Spec("FIRSTLOCALE", [U, I], U, lambda E, l, i: If(i >= llen(l), z3.Const("defaultlocale", U),
             If(KNOWN(UNDER(E, nth(l, i))), PARSED(UNDER(E, nth(l, i))), FIRST(E, l, i + 1))))


def UNDER(E, t):
    return uf("str.replace", U, U, U, U)(t, E.term("-"), E.term("_"))


def locname(E, t):
    E.atom_term(Op(t))
    return SStr(Op(t))


def locale_parse(E, a, k):
    if len(a) != 1 or k:
        raise Unsupported("babel.Locale.parse with options")
    t = E.term(a[0])
    if not E.branch(KNOWN(t)):
        raise PyRaise(Obj(UnknownLocaleError, E.fresh("unknownlocale", U)))
    E.add(PARSED(t) != NONE)
    return SVal(PARSED(t), "locale")


def merge_hook(E, before, o, d):
    """looking up the id in two merged maps"""
    k = E.term(anyid(E))
    has, get = uf("maphas", U, U, B), uf("mapget", U, U, U)
    t = entry(E, before, anyid(E))
    E.add(has(d.base, k) == z3.Or(has(o.base, k), t != NONE))
    E.add(get(d.base, k) == If(has(o.base, k), get(o.base, k), t))


def empty_map(E, k, d):
    return isinstance(d, SDict) and d.base is None and all(v is DEL for _, v in d.items)


class bundle_init(Contract):
    key = BM + ":FluentBundle.__init__"

    def setup(self, E):
        E.ghost["init"] = True
        f = [None, SDict((), E.fresh("functions", U), lambda E2, t, k: SVal(t, "function"))][E.choose(2)]
        if f is not None:
            k = E.term(anyid(E))
            E.add(z3.Implies(z3.Not(uf("mapnonempty", U, B)(f.base)), z3.Not(uf("maphas", U, U, B)(f.base, k))))
        b = Obj(E.module(BM).env["FluentBundle"])
        b.partial = False
        args = [b, SList((), LOCALES, llen(LOCALES), locname)]
        kw = {}
        # as given, or as defaulted
        if f is not None or E.choose(2):
            kw["functions"] = f
        iso = E.choose(2)
        E.ghost["iso"] = z3.BoolVal(True)
        if iso:
            E.ghost["iso"] = E.fresh("use_isolating", B)
            kw["use_isolating"] = SBool(E.ghost["iso"])
        E.ghost["functions"] = f
        return args, kw

    def post(self, E, a, o, r):
        b, f = a.self, E.ghost["functions"]
        ms = [E.getfield(b, n) for n in ("_messages", "_terms", "_compiled")]
        fs = E.getfield(b, "_functions")
        k = anyid(E)
        builtins = E.module("fluent.runtime.builtins").env["BUILTINS"]
        want = entry(E, builtins, k)
        if f is not None:
            kt = E.term(k)
            want = If(uf("maphas", U, U, B)(f.base, kt), uf("mapget", U, U, U)(f.base, kt), want)
        iso = E.getfield(b, "use_isolating")
        iso = iso.e if isinstance(iso, SBool) else z3.BoolVal(iso) if isinstance(iso, bool) else False
        loc = FIRST(E, LOCALES, IV(0))
        form = lambda n: uf("topython", U, U)(uf(n, U, U)(loc))
        out = [("maps", "no messages, terms or compiled forms yet", all(empty_map(E, k, m) for m in ms)),
               ("maps", "three maps of its own", len({id(m) for m in ms}) == 3),
               ("functions", "the builtin functions, and those given over them", entry(E, fs, k) == want if isinstance(fs, SDict) else False),
               ("functions", "its functions in a map of its own", fs is not f and fs is not builtins),
               ("isolating", "isolating as asked for, and by default", iso == E.ghost["iso"] if iso is not False else False),
               ("locale", "formats with the first locale known", E.term(E.getfield(b, "_babel_locale")) == loc),
               ("locale", "plural categories of that locale", E.term(E.getfield(b, "_plural_form")) == form("pluralform")),
               ("locale", "ordinal categories of that locale", E.term(E.getfield(b, "_ordinal_form")) == form("ordinalform"))]
        part = E.s.opts.get("part")
        return [(n, g) for q, n, g in out if part in (None, q)]

    def modifies(self, E, a):
        return [a.self]

    def loop_candidates(self, E, ctx):
        fr = ctx.fr.vars
        out = []
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            out.append(("index %s" % n, lambda c, n=n: And(zi(c.fr.vars[n]) >= 0, zi(c.fr.vars[n]) <= E.llen(c.fr.vars[n + "seq"]))))
            out.append(("none known before", lambda c, n=n: FIRST(E, LOCALES, IV(0)) == FIRST(E, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]))))
        return out


def init_attr(E, o, name):
    if isinstance(o, SVal) and o.kind == "locale" and name in ("plural_form", "ordinal_form"):
        return SVal(uf(name.replace("_", ""), U, U)(o.t), "pluralrule")
    return rt.attr_hook(E, o, name)


def init_registry():
    reg = Registry()
    reg.active[bundle_init.key] = INIT[0]
    rt.install(reg)
    reg.attr_hook = init_attr
    reg.merge_hook = merge_hook
    models.TYPEMAP["babel.UnknownLocaleError"] = models.TYPEMAP["babel.core.UnknownLocaleError"] = UnknownLocaleError
    reg.ext.update({"babel.Locale.parse": locale_parse, "babel.core.Locale.parse": locale_parse,
                    "babel.Locale.default": lambda E, a, k: SVal(z3.Const("defaultlocale", U), "locale"),
                    "babel.plural.to_python": lambda E, a, k: SVal(uf("topython", U, U)(E.term(a[0])), "plural")})
    return reg


INIT = [bundle_init()]
BUNDLE = [add_resource(), has_message(), lookup(), get_message()]


def registry():
    reg = Registry()
    for c in BUNDLE + [compile_()]:
        reg.active[c.key] = c
    astschema.install(reg)
    rt.install(reg)
    return reg
