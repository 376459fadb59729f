"""Contracts of fluent.runtime.fallback: FluentLocalization and the resource
loader.

The bundles a localization can have are a sequence BS, of which the first
`pos` have been built so far; the cache holds exactly these."""
from .rt import *
from . import rt

FM = "fluent.runtime.fallback"


def nth(l, i):
    return uf("nth", U, I, U)(l, i)


HASM, VAL, TXT = uf("has_message", U, U, B), uf("message_value", U, U, U), uf("formatted", U, U, U, U)
BS = z3.Const("bundles", U)
# the first p bundles
TAKE = Spec("TAKE", [U, I], U, lambda E, l, p: If(p <= 0, nil, E.mk_snoc(TAKE(E, l, p - 1), nth(l, p - 1))), lambda E, xs, t: [z3.Implies(xs[1] >= 0, llen(t) == xs[1])])
# the element at j of the first p, following the definition of TAKE
TAKEN = Spec("TAKEN", [U, I, I], U, lambda E, l, p, j: If(j == p - 1, nth(l, p - 1), TAKEN(E, l, p - 1, j)),
             lambda E, xs, t: [z3.Implies(z3.And(xs[2] >= 0, xs[2] < xs[1]), t == nth(xs[0], xs[2]))], measure=lambda l, p, j: p)


def good(b, k):
    return z3.And(HASM(b, k), VAL(b, k) != NONE)


# the text for an id from bundle i on, and how many bundles must be built for it
RES = Spec("RES", [U, I, U, U], U, lambda E, l, i, k, ar: If(i >= llen(l), k, If(good(nth(l, i), k), TXT(nth(l, i), VAL(nth(l, i), k), ar), RES(E, l, i + 1, k, ar))))
NEED = Spec("NEED", [U, I, U], I, lambda E, l, i, k: If(i >= llen(l), i, If(good(nth(l, i), k), i + 1, NEED(E, l, i + 1, k))))


class BundleClass:
    """any class with FluentBundle's interface"""


class BundleIter:
    """the generator that builds the bundles"""


def bundle(E, t, k=None):
    E.add(t != NONE)
    b = Obj(BundleClass, t)
    b.fields["<state>"] = SVal(t)
    return b


def cachelem(E, t):
    """an element of the cache"""
    it = E.ghost["iter"]
    c, j = t.arg(0), t.arg(1)
    p = zi(E.getfield(it, "pos"))
    x = TAKEN(E, BS, p, j)
    E.add(z3.Implies(z3.And(c == TAKE(E, BS, p), j >= 0, j < p), t == x))
    return bundle(E, t)


def next_hook(E, a):
    it = a[0]
    if not isinstance(it, Obj) or it.cls is not BundleIter:
        raise Unsupported("next")
    p = zi(E.getfield(it, "pos"))
    if E.branch(p >= llen(BS)):
        if len(a) > 1:
            return a[1]
        E.raise_(StopIteration, "")
    b = bundle(E, nth(BS, p))
    E.setfield(it, "pos", mki(p + 1))
    return b


def attr_hook(E, o, name):
    if isinstance(o, Obj) and o.cls is BundleClass:
        m = {"has_message": b_has, "get_message": b_get, "format_pattern": b_format, "add_resource": b_add}.get(name)
        if m:
            return Native(name, lambda E2, a, k: m(E2, o, a, k))
    if isinstance(o, Obj) and o.cls is LoaderClass and name == "resources":
        return Native(name, lambda E2, a, k: load(E2, o, a, k))
    if isinstance(o, SVal) and o.kind == "file" and name == "read":
        return Native(name, lambda E2, a, k: strof(E2, CONTENT(o.t.arg(0), o.t.arg(1))))
    return rt.attr_hook(E, o, name)


def bt(b):
    return b.fields["<state>"].t


def b_has(E, b, a, k):
    return SBool(HASM(bt(b), E.term(a[0])))


class MessageClass:
    """a compiled message"""


def b_get(E, b, a, k):
    i = E.term(a[0])
    if not E.branch(HASM(bt(b), i)):
        E.raise_(KeyError, "no such message")
    m = Obj(MessageClass)
    t = VAL(bt(b), i)
    m.fields["value"] = SVal(t, "patternornone")
    E.add(z3.And(z3.Implies(t != NONE, uf("truthy", U, B)(t)), z3.Not(uf("truthy", U, B)(NONE))))
    return m


def b_format(E, b, a, k):
    ar = a[1] if len(a) > 1 else k.get("args")
    t = TXT(bt(b), E.term(a[0]), E.term(ar))
    errs = SList((), E.fresh("errors", U))
    return (strof(E, t), errs)


def strof(E, t):
    E.atom_term(Op(t))
    return SStr(Op(t))


class Localization(Contract):
    def setup_self(self, E):
        l = Obj(E.module(FM).env["FluentLocalization"])
        it = Obj(BundleIter)
        p = E.fresh("built")
        E.add(z3.And(p >= 0, p <= llen(BS), llen(BS) >= 0))
        it.fields["pos"] = SInt(p)
        E.ghost["iter"] = it
        c = E.fresh("cache", U)
        cache = SList((), c, None, cachelem)
        E.lterm(cache)
        E.add(z3.And(c == TAKE(E, BS, p), llen(c) == p))
        l.fields = {"_bundle_it": it, "_bundle_cache": cache}
        l.partial = True
        return l


def cache_ok(E, l):
    it = E.ghost["iter"]
    p = zi(E.getfield(it, "pos"))
    return z3.And(E.term(E.getfield(l, "_bundle_cache")) == TAKE(E, BS, p), p >= 0, p <= llen(BS), E.llen(E.getfield(l, "_bundle_cache")) == p)


class format_value(Localization):
    """The text of the first bundle whose message of that id has a value, the
    id if there is none; only the bundles up to that one are built."""
    key = FM + ":FluentLocalization.format_value"

    def setup(self, E):
        i = strof(E, z3.Const("message_id", U))
        return [self.setup_self(E), i, SVal(E.fresh("arguments", U), "args")], {}

    def modifies(self, E, a):
        return [E.getfield(a.self, "_bundle_cache"), (E.ghost["iter"], "pos")]

    def old(self, E, a):
        return {"id": E.term(a.msg_id), "args": E.term(a.args), "pos": zi(E.getfield(E.ghost["iter"], "pos"))}

    def post(self, E, a, o, r):
        need = NEED(E, BS, IV(0), o["id"])
        p = zi(E.getfield(E.ghost["iter"], "pos"))
        need = If(need > llen(BS), llen(BS), need)
        return [("a text", is_strv(r)), ("of the first bundle with a value, else the id", E.term(r) == RES(E, BS, IV(0), o["id"], o["args"])),
                ("builds no more bundles than needed", p == If(need > o["pos"], need, o["pos"])), ("the cache holds the bundles built", cache_ok(E, a.self))]

    def loop_candidates(self, E, ctx):
        a, o = E.ghost["args"], E.ghost["old"]
        it = E.ghost["iter"]
        pos = lambda: zi(E.getfield(it, "pos"))
        out = [("cache", lambda c: cache_ok(E, a.self)), ("built", lambda c: pos() >= o["pos"])]
        fr = ctx.fr
        seen = set()
        while fr is not None:
            for n, v in fr.vars.items():
                if (isinstance(v, SInt) or type(v) is int) and n not in seen:
                    seen.add(n)
                    out.append(("bundle %s" % n, lambda c, n=n: RES(E, BS, zi(c.find_local(n)), o["id"], o["args"]) == RES(E, BS, IV(0), o["id"], o["args"])))
                    out.append(("need %s" % n, lambda c, n=n: NEED(E, BS, zi(c.find_local(n)), o["id"]) == NEED(E, BS, IV(0), o["id"])))
                    out.append(("range %s" % n, lambda c, n=n: And(zi(c.find_local(n)) >= 0, zi(c.find_local(n)) <= pos())))
                    out.append(("drawn %s" % n, lambda c, n=n: pos() == If(zi(c.find_local(n)) > o["pos"], zi(c.find_local(n)), o["pos"])))
            fr = fr.parent
        return out

    def loop_measures(self, E, ctx):
        return [("bundles left of %s" % n, llen(BS) + 1 - zi(v)) for n, v in ctx.fr.vars.items() if isinstance(v, SInt) or type(v) is int]


class LoaderClass:
    """any resource loader"""


# ---------------------------------------------------------------- building the bundles
LOCALES, IDS, FUNCS, ISO = (z3.Const(n, U) for n in ("locales", "resource_ids", "functions", "isolating"))
NEW, ADD, ADDO = uf("bundle_new", U, U, U, U), uf("bundle_add", U, U, U), uf("bundle_add_with", U, U, U, U)
LOADED = uf("loaded", U, U, U)             # what the loader gives for a locale: a list of lists of resources
LOAD, YIELD = uf("event_load", U, U, U), uf("event_yield", U, U)
DROP = uf("drop", U, I, U)                 # l[k:]
AB = Spec("AB", [U, I, U], U, lambda E, rs, i, st: If(i >= llen(rs), st, AB(E, rs, i + 1, ADD(st, nth(rs, i)))))
YB = Spec("YB", [I, U], U, lambda E, i, acc: If(i >= llen(LOCALES), acc, YR(E, i, LOADED(nth(LOCALES, i), IDS), IV(0), E.mk_snoc(acc, LOAD(nth(LOCALES, i), IDS)))))
YR = Spec("YR", [I, U, I, U], U, lambda E, i, rs, j, acc: If(j >= llen(rs), YB(E, i + 1, acc), YR(E, i, rs, j + 1, E.mk_snoc(
    acc, YIELD(AB(E, nth(rs, j), IV(0), NEW(DROP(LOCALES, i), FUNCS, ISO)))))))


def listslice_hook(E, o, lo, hi):
    if hi is not None or o.items or o.term is None:
        return None
    k = zi(lo)
    if not E.valid(z3.And(k >= 0, k <= llen(o.term))):
        return None
    t = z3.simplify(DROP(o.term, k))
    E.once(("drop", t.get_id()), lambda: [llen(t) == llen(o.term) - k])

    def shape(E2, x):
        E2.add(x == nth(o.term, k + x.arg(1)))
        return o.shape(E2, x) if o.shape else SVal(x)
    return SList((), t, None, shape)


def strlist(E, t):
    l = SList((), t, None, strof)
    E.lterm(l)
    return l


def load(E, o, a, k):
    d = dict(zip(("locale", "resource_ids"), a), **k)
    loc, ids = E.term(d["locale"]), E.term(d["resource_ids"])
    event(E, LOAD(loc, ids))
    t = LOADED(loc, ids)
    l = SList((), t, None, lambda E2, x: (E2.lterm(SList((), x)), SList((), x))[1])
    E.lterm(l)
    return l


def b_add(E, b, a, k):
    r = E.term(a[0])
    ov = a[1] if len(a) > 1 else k.get("allow_overrides", False)
    st = bt(b)
    E.setfield(b, "<state>", SVal(ADD(st, r) if ov is False else ADDO(st, r, E.term(ov))))


def call_hook(E, f, args, kw):
    if isinstance(f, SVal) and f.kind == "bundle class":
        d = dict(zip(("locales", "functions", "use_isolating"), args), **kw)
        if set(d) != {"locales", "functions", "use_isolating"}:
            raise Unsupported("arguments of the bundle class")
        b = Obj(BundleClass)
        b.__dict__["new"] = True
        b.fields["<state>"] = SVal(NEW(E.term(d["locales"]), E.term(d["functions"]), E.term(d["use_isolating"])))
        return [b]
    return rt.call_hook(E, f, args, kw)


def event(E, t):
    E.list_append(E.getfield(E.ghost["self"], "<events>"), SVal(t))


class Generator(Contract):
    """a generator: its yields (and other effects) are appended to a ghost list"""
    def modifies(self, E, a):
        return [E.getfield(a.self, "<events>")]

    def drive(self, E, gen, a, o):
        E.run_gen(gen, lambda v: event(E, self.yielded(E, v)))
        return None

    def events(self, E):
        return E.term(E.getfield(E.ghost["self"], "<events>"))


class iterate_bundles(Generator):
    """One bundle per locale and list of resources the loader has for it, for
    the locales from that one on, with all resources added in order."""
    key = FM + ":FluentLocalization._iterate_bundles"

    def setup(self, E):
        l = Obj(E.module(FM).env["FluentLocalization"])
        loader = Obj(LoaderClass)
        l.fields = {"locales": strlist(E, LOCALES), "resource_ids": SVal(IDS), "functions": SVal(FUNCS), "use_isolating": SVal(ISO),
                    "bundle_class": SVal(E.fresh("bundle_class", U), "bundle class"), "resource_loader": loader, "<events>": SList()}
        l.partial = True
        E.ghost["self"] = l
        return [l], {}

    def yielded(self, E, v):
        if not isinstance(v, Obj) or v.cls is not BundleClass:
            raise Unsupported("yield of %r" % (v,))
        return YIELD(bt(v))

    def post(self, E, a, o, r):
        return [("the bundles, each built when it is asked for", self.events(E) == YB(E, IV(0), nil))]

    def loop_candidates(self, E, ctx):
        fr = ctx.fr.vars
        out = []
        idx = [n for n in fr if n.startswith("<i") and not n.endswith("seq")]
        goal = YB(E, IV(0), nil)
        states = [n for n, v in fr.items() if isinstance(v, Obj) and v.cls is BundleClass]
        for n in idx:
            out.append(("index %s" % n, lambda c, n=n: And(zi(c.fr.vars[n]) >= 0, zi(c.fr.vars[n]) <= E.llen(c.fr.vars[n + "seq"]))))
            out.append(("locales %s" % n, lambda c, n=n: YB(E, zi(c.fr.vars[n]), self.events(E)) == goal))
            for m in idx:
                if m != n:
                    out.append(("lists %s %s" % (n, m), lambda c, n=n, m=m: YR(E, zi(c.fr.vars[m]) - 1, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), self.events(E)) == goal))
            for b in states:
                def f(c, b=b, n=n):
                    return AB(E, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), bt(c.fr.vars[b]))
                try:
                    g = f(ctx)
                except (Unsupported, KeyError, TypeError, AttributeError):
                    continue
                out.append(("added %s %s" % (n, b), lambda c, f=f, g=g: f(c) == g))
        return out


# ---------------------------------------------------------------- the loader
ROOTS, RIDS, LOC = (z3.Const(n, U) for n in ("roots", "ids", "locale"))
JOINP, FMTL, ISFILE, CONTENT, PARSED = uf("os.path.join", U, U, U), uf("format_locale", U, U, U), uf("isfile", U, B), uf("content", U, U, U), uf("parsed", U, U)


def path(i, j):
    return FMTL(JOINP(nth(ROOTS, i), nth(RIDS, j)), LOC)


RR = Spec("RR", [I, I, U], U, lambda E, i, j, acc: If(j >= llen(RIDS), acc, RR(E, i, j + 1, If(
    ISFILE(path(i, j)), E.mk_snoc(acc, PARSED(CONTENT(path(i, j), E.litterm("utf-8")))), acc))))
LD = Spec("LD", [I, U], U, lambda E, i, acc: If(i >= llen(ROOTS), acc, LD(E, i + 1, If(llen(RR(E, i, IV(0), nil)) > 0, E.mk_snoc(acc, RR(E, i, IV(0), nil)), acc))))


def ext_open(E, a, k):
    d = dict(zip(("filename", "mode", "encoding"), a), **k)
    if set(d) - {"filename", "mode", "encoding"} or d.get("mode", "r") != "r":
        raise Unsupported("arguments of codecs.open")
    return SVal(uf("file", U, U, U)(E.term(d["filename"]), E.term(d.get("encoding"))), "file")


def ext_isfile(E, a, k):
    return SBool(ISFILE(E.term(a[0])))


def ext_join(E, a, k):
    if len(a) != 2:
        raise Unsupported("os.path.join")
    return strof(E, JOINP(E.term(a[0]), E.term(a[1])))


def format_hook(E, o, a, k):
    if not a and set(k) == {"locale"}:
        return strof(E, FMTL(E.term(o), E.term(k["locale"])))


class localize_path(Contract):
    key = FM + ":FluentResourceLoader.localize_path"

    def setup(self, E):
        return [mkloader(E), strof(E, E.fresh("path", U)), strof(E, E.fresh("locale", U))], {}

    def result(self, E, a, o):
        return strof(E, FMTL(E.term(a.path), E.term(a.locale)))

    def post(self, E, a, o, r):
        return [("the path with the locale in it", E.term(r) == FMTL(E.term(a.path), E.term(a.locale)))]


def mkloader(E):
    l = Obj(E.module(FM).env["FluentResourceLoader"])
    l.fields = {"roots": strlist(E, ROOTS), "<events>": SList()}
    E.ghost["self"] = l
    l.partial = True
    return l


class resources(Generator):
    """Per root the parsed files that exist there, in order; nothing for a root
    without any."""
    key = FM + ":FluentResourceLoader.resources"

    def setup(self, E):
        return [mkloader(E), strof(E, LOC), strlist(E, RIDS)], {}

    def yielded(self, E, v):
        return E.term(v)

    def post(self, E, a, o, r):
        return [("the files of each root", self.events(E) == LD(E, IV(0), nil))]

    def loop_candidates(self, E, ctx):
        fr = ctx.fr.vars
        out = []
        idx = [n for n in fr if n.startswith("<i") and not n.endswith("seq")]
        goal = LD(E, IV(0), nil)
        for n in idx:
            out.append(("index %s" % n, lambda c, n=n: And(zi(c.fr.vars[n]) >= 0, zi(c.fr.vars[n]) <= E.llen(c.fr.vars[n + "seq"]))))
            out.append(("roots %s" % n, lambda c, n=n: LD(E, zi(c.fr.vars[n]), self.events(E)) == goal))
            for m in idx:
                if m == n:
                    continue
                for l in [x for x, v in fr.items() if isinstance(v, SList) and not x.endswith("seq")]:
                    out.append(("files %s %s %s" % (n, m, l), lambda c, n=n, m=m, l=l: RR(E, zi(c.fr.vars[m]) - 1, zi(c.fr.vars[n]), E.term(c.fr.vars[l]))
                                == RR(E, zi(c.fr.vars[m]) - 1, IV(0), nil)))
        return out


class loader_init(Contract):
    """the roots as a list, a single one also as a string"""
    key = FM + ":FluentResourceLoader.__init__"

    def setup(self, E):
        l = Obj(E.module(FM).env["FluentResourceLoader"])
        l.__dict__["new"] = True
        return [l, strof(E, E.fresh("root", U)) if E.choose(2) else strlist(E, ROOTS)], {}

    def old(self, E, a):
        return {"roots": E.term(a.roots), "str": is_strv(a.roots)}

    def modifies(self, E, a):
        return [(a.self, "roots")]

    def post(self, E, a, o, r):
        v = E.getfield(a.self, "roots")
        return [("the roots", E.term(v) == (E.mk_snoc(nil, o["roots"]) if o["str"] else o["roots"]))]


class local_init(Contract):
    """no bundle built yet, everything kept as given"""
    key = FM + ":FluentLocalization.__init__"

    def setup(self, E):
        l = Obj(E.module(FM).env["FluentLocalization"])
        l.__dict__["new"] = True
        loader = Obj(LoaderClass)
        return [l, strlist(E, LOCALES), SVal(IDS), loader, SVal(ISO), SVal(E.fresh("bundle_class", U), "bundle class"), SVal(FUNCS)], {}

    def modifies(self, E, a):
        return [(a.self, n) for n in ("locales", "resource_ids", "resource_loader", "use_isolating", "bundle_class", "functions", "_bundle_cache", "_bundle_it")]

    def post(self, E, a, o, r):
        g = lambda n: E.getfield(a.self, n)
        c, it = g("_bundle_cache"), g("_bundle_it")
        return [(n + " as given", E.term(g(n)) == E.term(getattr(a, n)) if n != "resource_loader" else g(n) is a.resource_loader)
                for n in ("locales", "resource_ids", "use_isolating", "bundle_class", "functions", "resource_loader")] + \
            [("no bundle built", isinstance(c, SList) and c.term is None and not c.items),
             ("the bundles to come", isinstance(it, GenCall) and it.func.key == FM + ":FluentLocalization._iterate_bundles" and it.args[0] is a.self)]


LOCAL = [format_value(), iterate_bundles(), local_init()]
LOADER = [resources(), localize_path(), loader_init()]


def registry():
    reg = Registry()
    for c in (format_value(), localize_path(), loader_init(), local_init()):
        reg.active[c.key] = c
    rt.install(reg)
    reg.attr_hook, reg.next_hook, reg.call_hook, reg.listslice_hook = attr_hook, next_hook, call_hook, listslice_hook
    reg.format_hook = format_hook
    reg.ext.update({"codecs.open": ext_open, "os.path.isfile": ext_isfile, "os.path.join": ext_join})
    reg.active["fluent.syntax.parser:FluentParser.parse"] = parse()
    return reg


class parse(Contract):
    key = "fluent.syntax.parser:FluentParser.parse"

    def result(self, E, a, o):
        t = PARSED(E.term(a.source))
        E.add(t != NONE)
        return SVal(t)
