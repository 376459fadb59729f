"""Contracts of fluent.runtime.types: options, numbers and dates."""
from .rt import *
from . import rt

has, get = uf("maphas", U, U, B), uf("mapget", U, U, U)
NUM = uf("num", U, U)                      # the number a value is, whatever its class and options
OPT = {"Number": uf("number_options", U, U), "Date": uf("date_options", U, U)}
extra = uf("extra_keys", U, B)             # keyword arguments which are not options
npos, nkey = uf("keypos", U, U, I), uf("key_at", U, I, U)
NUMBER_DEFAULTS = {"style": "decimal", "type": "cardinal", "currency": None, "currencyDisplay": "symbol", "useGrouping": True, "minimumIntegerDigits": None,
                   "minimumFractionDigits": None, "maximumFractionDigits": None, "minimumSignificantDigits": None, "maximumSignificantDigits": None}
DATE_DEFAULTS = {n: None for n in ("timeZone", "hour12", "weekday", "era", "year", "month", "day", "hour", "minute", "second", "timeZoneName", "dateStyle", "timeStyle")}
DEFAULTS = {"Number": NUMBER_DEFAULTS, "Date": DATE_DEFAULTS}
KINDS = {"FluentInt": "int", "FluentFloat": "float", "FluentDecimal": "Decimal"}


def tcls(E, n):
    return E.module(TM).env[n]


def fieldnames(E, kind):
    return [f["name"] for f in tcls(E, kind + "FormatOptions").attrib]


def opts(E, kind, t):
    """an options object of unknown content"""
    o = Obj(tcls(E, kind + "FormatOptions"), t)
    E.add(t != NONE)
    for f in DEFAULTS[kind]:
        ft = fld(t, f)
        o.fields[f] = SVal(ft, "option")
    if kind == "Number":
        # values accepted by the validators, and a currency for currencies (class invariant, see FluentNumber.__new__)
        s, c = fld(t, "style"), fld(t, "currency")
        E.once(("optinv", t.get_id()), lambda: [z3.Or(*[s == E.litterm(x) for x in ("decimal", "percent", "currency")]),
                                               z3.Or(*[fld(t, "currencyDisplay") == E.litterm(x) for x in ("symbol", "code", "name")]),
                                               z3.Implies(s == E.litterm("currency"), c != NONE)])
    E.oldobjs[id(o)] = o
    E.keepalive.append(o)
    return o


def fields(E, kind, o):
    """terms of the fields of an options object, None: no object"""
    if o is None:
        return {f: E.term(v) for f, v in DEFAULTS[kind].items()}
    return {f: E.term(E.getfield(o, f)) for f in DEFAULTS[kind]}


def merged(E, kind, base, kw):
    """options of a value whose own are base, with keyword arguments kw"""
    if isinstance(kw, SDict) and kw.base is None:
        d = {k: E.term(v) for k, v in kw.items}
        return {f: d.get(f, t) for f, t in base.items()}
    b = kw.base
    ne = uf("mapnonempty", U, B)(b)
    names = {f: E.litterm(f) for f in base}
    E.once(("kwempty", b.get_id()), lambda: [z3.Implies(z3.Not(ne), z3.Not(has(b, k))) for k in names.values()] + [z3.Implies(z3.Not(ne), z3.Not(extra(b)))])
    return {f: If(has(b, names[f]), get(b, names[f]), t) for f, t in base.items()}


def symkwargs(E):
    return SDict((), E.fresh("kwargs", U), lambda E2, t, k: SVal(t, "option"))


# ---------------------------------------------------------------- hooks
def attrs_symkw(E, c, o, given, kw):
    b = kw.base
    if kw.items or given or b is None:
        raise Unsupported("mixed keyword arguments for %s" % c.name)
    if E.branch(extra(b)):
        E.raise_(TypeError, "unexpected keyword argument")
    for f in c.attrib:
        k = E.litterm(f["name"])
        d = E.term(f["default"])
        o.fields[f["name"]] = SVal(If(has(b, k), get(b, k), d), "option")
    for f in c.attrib:
        if f["validator"] is not None:
            E.call(f["validator"], [o, None, o.fields[f["name"]]], {})
    return o


def new_options(E, c, args, kw):
    o = Obj(c)
    o.__dict__["new"] = True
    E.attrs_init(c, o, args, kw)
    for f, v in list(o.fields.items()):
        o.fields[f] = v if isinstance(v, SVal) else SVal(E.term(v), "option")
    return o


def dictview(E, d, kind):
    """the keys of a symbolic map, in some order"""
    if d.items:
        return None
    b = d.base
    lt = uf("keys", U, U)(b)
    E.lterm(SList((), lt))
    E.once(("view", b.get_id()), lambda: [z3.Implies(z3.Not(uf("mapnonempty", U, B)(b)), llen(lt) == 0)])

    def shape(E2, t):
        i = t.arg(1)
        k = nkey(b, i)
        E2.atom_term(Op(k))
        E2.once(("key", k.get_id()), lambda: [z3.Implies(z3.And(i >= 0, i < llen(lt)), z3.And(has(b, k), npos(b, k) == i, z3.Or(extra(b), *[k == E2.litterm(f) for f in alloptions(E2)])))])
        ks = SStr(Op(k))
        v = None
        if kind != "keys":
            vt_ = get(b, k)
            v = d.shape(E2, vt_, ks) if d.shape else SVal(vt_)
        return ks if kind == "keys" else v if kind == "values" else (ks, v)
    for f in alloptions(E):
        keyfact(E, b, E.litterm(f))
    return SList((), lt, None, shape)


def alloptions(E):
    return E.ghost.get("option names", [])


def keyfact(E, b, k):
    """a key of the map b is at its position"""
    lt = uf("keys", U, U)(b)
    E.once(("keyfact", b.get_id(), k.get_id()), lambda: [z3.Implies(has(b, k), z3.And(npos(b, k) >= 0, npos(b, k) < llen(lt), nkey(b, npos(b, k)) == k))])


def setattr_sym(E, o, name, v):
    if not isinstance(o, Obj) or not isinstance(o.cls, ClassVal) or o.cls.attrib is None:
        return False
    k = E.term(name)
    for f in o.cls.attrib:
        n = f["name"]
        old = E.term(E.getfield(o, n))
        E.setfield(o, n, SVal(If(k == E.litterm(n), E.term(v), old), "option"))
    return True


def getattr_sym(E, a):
    o = a[0]
    if not isinstance(o, Obj) or not isinstance(o.cls, ClassVal) or o.cls.attrib is None:
        return None
    k = E.term(a[1])
    t = None
    for f in o.cls.attrib:
        x = E.term(E.getfield(o, f["name"]))
        t = x if t is None else If(k == E.litterm(f["name"]), x, t)
    return [SVal(t, "option")]


def hasoptions(E, o):
    """options of a value of unknown class: MISSING if it has none"""
    if E.branch(kind(E, "FluentNumber", o.t)):
        return opts(E, "Number", OPT["Number"](o.t))
    if E.branch(kind(E, "FluentDateType", o.t)):
        return opts(E, "Date", OPT["Date"](o.t))
    return MISSING


DATEPARTS = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo", "fold")


def attr_hook(E, o, name):
    if isinstance(o, SVal) and o.kind == "value":
        if name == "options":
            return hasoptions(E, o)
        if name in DATEPARTS:
            if name in DATEPARTS[3:] and not E.valid(kind(E, "datetime", o.t)):
                raise Unsupported("%s of a value" % name)
            return SVal(uf("dt_" + name, U, U)(o.t), "part")
        if name in ("replace", "astimezone"):
            return Native(name, lambda E2, a, k: dtmethod(E2, o, name, a, k))
    if isinstance(o, Obj) and isinstance(o.cls, ClassVal) and name in ("replace", "astimezone") and o.cls.name == "FluentDateTime":
        return Native(name, lambda E2, a, k: dtmethod(E2, o, name, a, k))
    if isinstance(o, SVal) and o.kind == "locale":
        if name in ("decimal_formats", "percent_formats", "currency_formats"):
            return SVal(uf(name, U, U)(o.t), "formats")
    if isinstance(o, SVal) and o.kind == "formats" and name == "get":
        return Native("get", lambda E2, a, k: basepattern(E2, uf("pattern_of", U, U, U)(o.t, E2.term(a[0]))))
    if isinstance(o, Obj) and o.cls is PatternClass and name == "apply":
        return Native("apply", lambda E2, a, k: apply_pattern(E2, o, a, k))
    return rt.attr_hook(E, o, name)


REPLACE_TZ, ASTZ = uf("datetime_replace_tz", U, U, U), uf("datetime_astimezone", U, U, U)


def dtmethod(E, o, name, a, k):
    """datetime.replace(tzinfo=...), datetime.astimezone(tz)"""
    t = E.term(o)
    if name == "replace" and not a and set(k) == {"tzinfo"}:
        z = E.term(k["tzinfo"])
        r = REPLACE_TZ(t, z)
        E.once(("tz", r.get_id()), lambda: [isk["datetime"](r), uf("dt_tzinfo", U, U)(r) == z])
    elif name == "astimezone" and len(a) == 1 and not k:
        z = E.term(a[0])
        r = ASTZ(t, z)
        E.once(("tz", r.get_id()), lambda: [isk["datetime"](r), uf("dt_tzinfo", U, U)(r) == z])
    else:
        raise Unsupported(name)
    return val(E, r)


PATTERN_FIELDS = ("pattern", "prefix", "suffix", "grouping", "int_prec", "frac_prec", "exp_prec", "exp_plus")


class PatternClass:
    """babel.numbers.NumberPattern: a record"""


def strof(E, t):
    E.atom_term(Op(t))
    return SStr(Op(t))


def index_hook(E, o, i):
    if isinstance(o, SVal) and o.kind == "formats":
        return basepattern(E, uf("pattern_of", U, U, U)(o.t, E.term(i)))


def basepattern(E, t):
    o = Obj(PatternClass, t)
    for f in PATTERN_FIELDS:
        x = fld(t, f)
        mk = (lambda y: strof(E, y)) if f in ("prefix", "suffix") else SVal
        o.fields[f] = (mk(uf("first", U, U)(x)), mk(uf("second", U, U)(x))) if f in ("prefix", "suffix", "int_prec", "frac_prec", "exp_prec") else SVal(x)
    E.oldobjs[id(o)] = o
    E.keepalive.append(o)
    return o


def new_pattern(E, a, k):
    o = Obj(PatternClass)
    d = dict(zip(PATTERN_FIELDS, a))
    d.update(k)
    if set(d) - {"number_pattern"} != set(PATTERN_FIELDS):
        E.raise_(TypeError, "arguments of NumberPattern")
    o.fields.update(d)
    return o


def apply_pattern(E, o, a, k):
    """NumberPattern.apply(number, locale, currency=None): some text, or an error"""
    if len(a) != 2 or set(k) - {"currency"}:
        raise Unsupported("arguments of NumberPattern.apply")
    n = E.term(a[0].fields["<num>"]) if isinstance(a[0], Obj) and "<num>" in a[0].fields else E.term(a[0])
    t = E.fresh("text", U)
    if E.choose(2):
        x = anyexc(E, "formaterror")
        x.__dict__["fmt"] = True
        raise PyRaise(x)
    E.atom_term(Op(t))
    E.ghost["applied"] = {"text": t, "num": n, "locale": E.term(a[1]), "currency": E.term(k.get("currency")), "fields": dict(o.fields)}
    return SStr(Op(t))


def part(E, n, t):
    return uf("dt_" + n, U, U)(t)


def new_hook(E, c, args, kw):
    """int, float, Decimal, date, datetime and their subclasses in the module"""
    names = [getattr(b, "__name__", None) or getattr(b, "path", "").rpartition(".")[2] for b in c.mro()]
    o = Obj(c)
    o.__dict__["new"] = True
    for n in ("int", "float", "Decimal"):
        if n in names:
            o.fields["<num>"] = SVal(number(E, args[0]))
            return o
    for n in ("datetime", "date"):
        if n in names:
            pn = DATEPARTS if n == "datetime" else DATEPARTS[:3]
            if len(args) > (8 if n == "datetime" else 3):
                E.raise_(TypeError, "arguments of " + n)
            d = dict(zip(pn, args))
            if set(d) & set(kw) or set(kw) - set(pn):
                E.raise_(TypeError, "arguments of " + n)
            d.update(kw)
            if not {"year", "month", "day"} <= set(d):
                E.raise_(TypeError, "arguments of " + n)
            for m in pn[3:]:
                d.setdefault(m, None if m == "tzinfo" else 0)
            # parts of one valid value make a valid value
            x = d["year"].t.arg(0) if isinstance(d["year"], SVal) and z3.is_app(d["year"].t) and d["year"].t.decl().name() == "dt_year" else None
            okay = x is not None and all((isinstance(v, (int, type(None))) and m in DATEPARTS[3:]) or (isinstance(v, SVal) and v.t.eq(part(E, m, x))) for m, v in d.items())
            if not okay and E.choose(2):
                E.raise_(ValueError, "invalid parts of a date")
            o.fields.update(d)
            return o
    return None


def timefn(name, names):
    """babel.dates: the text is a function of the arguments, or an error"""
    def f(E, a, k):
        d = {"format": "medium"} if "format" in names else {}
        if len(a) > len(names) or set(k) - set(names):
            raise Unsupported("arguments of " + name)
        d.update(zip(names, a))
        d.update(k)
        if E.choose(2):
            x = anyexc(E, "formaterror")
            x.__dict__["fmt"] = True
            raise PyRaise(x)
        return strof(E, babel(E, name, *[E.term(d.get(n)) for n in names]))
    return f


def babel(E, name, *ts):
    return uf("babel_" + name, *([U] * len(ts) + [U]))(*ts)


def get_timezone(E, a, k):
    if E.choose(2):
        x = anyexc(E, "tzerror")
        x.__dict__["fmt"] = True
        raise PyRaise(x)
    return SVal(babel(E, "get_timezone", E.term(a[0])), "tz")


def number(E, v):
    if isinstance(v, Obj):
        return E.term(v.fields["<num>"])
    return NUM(E.term(v))


def install(reg):
    rt.install(reg)
    reg.attrs_symkw_hook, reg.dictview_hook, reg.setattr_sym_hook, reg.getattr_hook = attrs_symkw, dictview, setattr_sym, getattr_sym
    reg.attr_hook, reg.new_hook, reg.index_hook = attr_hook, new_hook, index_hook
    for k in ("NumberFormatOptions", "DateFormatOptions"):
        reg.active_new[TM + ":" + k] = new_options
    for n, ps in (("format_date", ("date", "format", "locale")), ("format_time", ("time", "format", "tzinfo", "locale")),
                  ("get_datetime_format", ("format", "locale"))):
        reg.ext["babel.dates." + n] = timefn(n, ps)
    reg.ext["babel.dates.get_timezone"] = get_timezone
    reg.ext["warnings.warn"] = lambda E, a, k: None
    reg.ext["babel.numbers.NumberPattern"] = new_pattern
    reg.ext["babel.numbers.parse_pattern"] = lambda E, a, k: basepattern(E, uf("parsed_pattern", U, U)(E.term(a[0])))


# ---------------------------------------------------------------- contracts
class merge_options(Contract):
    key = TM + ":merge_options"
    may_raise = True

    def setup(self, E):
        k = E.s.opts.get("options", "Number")
        E.ghost["option names"] = list(DEFAULTS[k])
        base = None if E.choose(2) else opts(E, k, E.fresh("base", U))
        return [tcls(E, k + "FormatOptions"), base, symkwargs(E)], {}

    def kind(self, E, a):
        return "Number" if a.options_class.name.startswith("Number") else "Date"

    def old(self, E, a):
        k = self.kind(E, a)
        E.ghost["option names"] = list(DEFAULTS[k])
        return {"kind": k, "want": merged(E, k, fields(E, k, a.base), a.kwargs)}

    def raises_when(self, E, a, o):
        return None

    def exc(self, E, a, o):
        return Obj((TypeError, ValueError)[E.choose(2)], E.fresh("optionerror", U))

    def havoc_exc(self, E, a, o):
        pass

    def post_exc(self, E, a, o, x):
        ne = uf("mapnonempty", U, B)(a.kwargs.base) if a.kwargs.base is not None else z3.BoolVal(bool(a.kwargs.items))
        return [("only a TypeError or ValueError", x.cls in (TypeError, ValueError)), ("only when options are given", ne)]

    def result(self, E, a, o):
        r = Obj(tcls(E, o["kind"] + "FormatOptions"))
        r.fields = {f: SVal(t, "option") for f, t in o["want"].items()}
        return r

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        if not isinstance(r, Obj):
            return [("an options object", False)]
        got = fields(E, o["kind"], r)
        return [("an options object", r.cls.name == o["kind"] + "FormatOptions")] + [("option %s" % f, got[f] == t) for f, t in o["want"].items()]

    def loop_candidates(self, E, ctx):
        a, o = E.ghost["args"], E.ghost["old"]
        fr = ctx.fr.vars
        out = []
        b = a.kwargs.base
        base = fields(E, o["kind"], a.base)
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            out.append(("index", lambda c, n=n: And(zi(c.fr.vars[n]) >= 0, zi(c.fr.vars[n]) <= E.llen(c.fr.vars[n + "seq"]))))
            for r in [x for x, v in fr.items() if isinstance(v, Obj) and v.cls is tcls(E, o["kind"] + "FormatOptions") and getattr(v, "new", False)]:
                for f in base:
                    k = E.litterm(f)
                    out.append(("option %s of %s" % (f, r), lambda c, n=n, r=r, f=f, k=k:
                                E.term(E.getfield(c.fr.vars[r], f)) == If(z3.And(has(b, k), npos(b, k) < zi(c.fr.vars[n])), get(b, k), base[f])))
        return out


def value(E, *names):
    """a value of one of the classes (names of isk)"""
    t = E.fresh("value", U)
    E.add(kind(E, names[E.choose(len(names))] if len(names) > 1 else names[0], t))
    return val(E, t)


def given(E, kw):
    """keyword arguments were given"""
    if kw.base is None:
        return z3.BoolVal(bool(kw.items))
    merged(E, "Number", fields(E, "Number", None), kw)
    return uf("mapnonempty", U, B)(kw.base)


def dict_of(kw):
    return kw if isinstance(kw, SDict) else SDict(tuple((k, v) for k, v in dict(kw).items()))


def baseopts(E, kind_, t):
    """terms of the options a value of unknown class carries (defaults: none)"""
    c = kind(E, "FluentNumber" if kind_ == "Number" else "FluentDateType", t)
    if E.valid(z3.Not(c)):
        return fields(E, kind_, None)
    o = fields(E, kind_, opts(E, kind_, OPT[kind_](t)))
    d = fields(E, kind_, None)
    return {f: If(c, o[f], d[f]) for f in o}


def optterms(E, kind_, o):
    return fields(E, kind_, o)


def numterm(E, v):
    return number(E, v)


def same_options(E, kind_, r, want):
    o = E.getfield(r, "options") if isinstance(r, Obj) and "options" in r.fields else None
    if not isinstance(o, Obj):
        return [("carries its options", False)]
    got = fields(E, kind_, o)
    return [("option %s" % f, got[f] == t) for f, t in want.items()]


class fluent_number(Contract):
    key = TM + ":fluent_number"
    may_raise = True

    def setup(self, E):
        E.ghost["option names"] = list(NUMBER_DEFAULTS)
        t = E.fresh("value", U)
        kw = symkwargs(E) if E.choose(2) else SDict((), None)
        return [val(E, t)], {"**": kw}

    def old(self, E, a):
        kw = dict_of(a.kwargs)
        t = E.term(a.number)
        return {"t": t, "given": given(E, kw), "want": merged(E, "Number", baseopts(E, "Number", t), kw)}

    def raises_when(self, E, a, o):
        return None

    def exc(self, E, a, o):
        return Obj((TypeError, ValueError)[E.choose(2)], E.fresh("optionerror", U))

    def havoc_exc(self, E, a, o):
        pass

    def post_exc(self, E, a, o, x):
        t = o["t"]
        return [("only a TypeError or ValueError", x.cls in (TypeError, ValueError)),
                ("only when options are given, or for what is no number", z3.Or(o["given"], z3.Not(z3.Or(num(E, t), kind(E, "FluentNone", t)))))]

    def post(self, E, a, o, r):
        t = o["t"]
        out = [("what is no number is rejected", z3.Or(num(E, t), kind(E, "FluentNone", t)))]
        if isinstance(r, SVal):
            return out + [("the value itself only if it needs no change", z3.And(r.t == t, z3.Or(kind(E, "FluentNone", t), z3.And(kind(E, "FluentNumber", t), z3.Not(o["given"])))))]
        if not isinstance(r, Obj) or getattr(r.cls, "name", "") not in KINDS:
            return [("a Fluent number", False)]
        w = o["want"]
        return out + [("of the same kind", kind(E, KINDS[r.cls.name], t)), ("equal to the value", E.term(r.fields["<num>"]) == NUM(t)),
                      ("a currency for currencies", z3.Implies(w["style"] == E.litterm("currency"), w["currency"] != NONE))] + same_options(E, "Number", r, w)


class Number_format(Contract):
    """The locale's pattern with exactly the options applied, and the pattern
    of the locale left as it was (frame)."""
    key = TM + ":FluentNumber.format"
    may_raise = True

    def setup(self, E):
        o = Obj(tcls(E, list(KINDS)[E.choose(3)]))
        o.fields = {"<num>": SVal(E.fresh("number", U)), "options": opts(E, "Number", E.fresh("options", U))}
        return [o, SVal(E.fresh("locale", U), "locale")], {}

    def old(self, E, a):
        s, loc = a.self, E.term(a.locale)
        op = E.getfield(s, "options")
        x = fields(E, "Number", op)
        L = E.litterm
        first, second, pair = uf("first", U, U), uf("second", U, U), lambda p, q: E.term((SVal(p), SVal(q)))
        strs = lambda p, q: E.term((SStr(Op(p)), SStr(Op(q))))

        def pat(formats, key):
            return uf("pattern_of", U, U, U)(uf(formats, U, U)(loc), E.term(key))
        style = x["style"]
        d, p, c = pat("decimal_formats", None), pat("percent_formats", None), pat("currency_formats", "standard")
        res = {}
        for name, b in (("decimal", d), ("percent", p), ("currency", c)):
            f = {n: fld(b, n) for n in PATTERN_FIELDS}
            sd = z3.Or(x["minimumSignificantDigits"] != NONE, x["maximumSignificantDigits"] != NONE)
            one = E.term(1)
            lo = If(x["minimumSignificantDigits"] != NONE, x["minimumSignificantDigits"], one)
            hi = If(x["maximumSignificantDigits"] != NONE, x["maximumSignificantDigits"], lo)
            g = {"pattern": If(sd, L("@"), f["pattern"]),
                 "grouping": If(uf("truthy", U, B)(x["useGrouping"]), f["grouping"], fld(uf("parsed_pattern", U, U)(L("#0")), "grouping")),
                 "int_prec": (If(sd, lo, If(x["minimumIntegerDigits"] != NONE, x["minimumIntegerDigits"], first(f["int_prec"]))), If(sd, hi, second(f["int_prec"]))),
                 "frac_prec": (If(z3.And(z3.Not(sd), x["minimumFractionDigits"] != NONE), x["minimumFractionDigits"], first(f["frac_prec"])),
                               If(z3.And(z3.Not(sd), x["maximumFractionDigits"] != NONE), x["maximumFractionDigits"], second(f["frac_prec"]))),
                 "exp_prec": (first(f["exp_prec"]), second(f["exp_prec"])), "exp_plus": f["exp_plus"]}
            for n in ("prefix", "suffix"):
                r = lambda t: uf("str.replace", U, U, U, U)(t, L("\u00a4"), L("\u00a4\u00a4"))
                code = x["currencyDisplay"] == L("code") if name == "currency" else z3.BoolVal(False)
                g[n] = (If(code, r(first(f[n])), first(f[n])), If(code, r(second(f[n])), second(f[n])))
            res[name] = g
        return {"style": style, "fields": res, "currency": x["currency"], "num": E.term(s.fields["<num>"]), "locale": loc}

    def raises_when(self, E, a, o):
        return None

    def post_exc(self, E, a, o, x):
        return [("only what babel's formatting raises", getattr(x, "fmt", False))]

    def post(self, E, a, o, r):
        ap = E.ghost.get("applied")
        if ap is None or not is_strv(r):
            return [("formatted by a pattern of the locale", False)]
        out = [("the text of the pattern", E.term(r) == ap["text"]), ("applied to the number", ap["num"] == o["num"]), ("in the locale", ap["locale"] == o["locale"])]
        for name, g in o["fields"].items():
            here = o["style"] == E.litterm(name)
            out.append(("currency of style " + name, z3.Implies(here, ap["currency"] == (o["currency"] if name == "currency" else NONE))))
            for n, t in g.items():
                got = ap["fields"][n]
                if isinstance(t, tuple):
                    if not isinstance(got, tuple) or len(got) != 2:
                        out.append(("%s of style %s" % (n, name), z3.Not(here)))
                        continue
                    out += [("%s[%d] of style %s" % (n, i, name), z3.Implies(here, E.term(got[i]) == t[i])) for i in (0, 1)]
                else:
                    out.append(("%s of style %s" % (n, name), z3.Implies(here, E.term(got) == t)))
        return out


def same_parts(E, r, t, names):
    return [("the same " + n, E.term(r.fields[n]) == part(E, n, t) if n in r.fields else False) for n in names]


def date_result(E, r, t, want):
    """r is a Fluent date or date and time which says what t says"""
    n = getattr(r.cls, "name", "")
    if n == "FluentDateTime":
        return [("a date and time for a datetime", kind(E, "datetime", t))] + same_parts(E, r, t, DATEPARTS) + same_options(E, "Date", r, want)
    if n == "FluentDate":
        return [("a date for a date", z3.And(kind(E, "date", t), z3.Not(kind(E, "datetime", t))))] + same_parts(E, r, t, DATEPARTS[:3]) + same_options(E, "Date", r, want)
    return [("a Fluent date", False)]


class fluent_date(Contract):
    """The same date, or the same local time, zone and fold, with the options
    given over those it carries."""
    key = TM + ":fluent_date"
    may_raise = True

    def setup(self, E):
        E.ghost["option names"] = list(DATE_DEFAULTS)
        t = E.fresh("value", U)
        kw = symkwargs(E) if E.choose(2) else SDict((), None)
        return [val(E, t)], {"**": kw}

    def old(self, E, a):
        kw = dict_of(a.kwargs)
        t = E.term(a.dt)
        w = merged(E, "Date", baseopts(E, "Date", t), kw)
        return {"t": t, "given": given(E, kw), "want": w}

    def raises_when(self, E, a, o):
        return None

    def post_exc(self, E, a, o, x):
        t = o["t"]
        return [("only a TypeError or ValueError", x.cls in (TypeError, ValueError)),
                ("only when options are given, or for what is no date", z3.Or(o["given"], z3.Not(z3.Or(kind(E, "date", t), kind(E, "FluentNone", t)))))]

    def post(self, E, a, o, r):
        t = o["t"]
        out = [("what is no date is rejected", z3.Or(kind(E, "date", t), kind(E, "FluentNone", t)))]
        if isinstance(r, SVal):
            return out + [("the value itself only if it needs no change",
                           z3.And(r.t == t, z3.Or(kind(E, "FluentNone", t), z3.And(kind(E, "FluentDateType", t), z3.Not(o["given"])))))]
        if not isinstance(r, Obj):
            return [("a Fluent date", False)]
        return out + date_result(E, r, t, o["want"]) + [("a time style only for a time", z3.Implies(z3.And(z3.Not(kind(E, "datetime", t)), o["given"]),
                                                                                     z3.Not(timestyle(E, a))))]


def timestyle(E, a):
    kw = dict_of(a.kwargs)
    return has(kw.base, E.litterm("timeStyle")) if kw.base is not None else z3.BoolVal(False)


class native_to_fluent(Contract):
    key = UM + ":native_to_fluent"

    def setup(self, E):
        return [val(E, E.fresh("value", U))], {}

    def old(self, E, a):
        t = E.term(a.val)
        return {"t": t, "Number": baseopts(E, "Number", t), "Date": baseopts(E, "Date", t)}

    def post(self, E, a, o, r):
        t = o["t"]
        conv = z3.Or(num(E, t), kind(E, "date", t))
        if isinstance(r, SVal):
            return [("what is no number or date is passed through", z3.And(r.t == t, z3.Not(conv)))]
        if not isinstance(r, Obj):
            return [("a Fluent value", False)]
        if getattr(r.cls, "name", "") in KINDS:
            return [("of the same kind", kind(E, KINDS[r.cls.name], t)), ("equal to the value", E.term(r.fields["<num>"]) == NUM(t))] + same_options(E, "Number", r, o["Number"])
        return date_result(E, r, t, o["Date"])


class Date_format(Contract):
    """The date and the time in the styles asked for, of the value in the zone
    asked for; a naive time is taken to be UTC."""
    key = TM + ":FluentDateType.format"
    may_raise = True

    def setup(self, E):
        n = ("FluentDate", "FluentDateTime")[E.choose(2)]
        o = Obj(tcls(E, n), E.fresh("date", U))
        for p in DATEPARTS if n == "FluentDateTime" else DATEPARTS[:3]:
            o.fields[p] = SVal(part(E, p, o.term), "part")
        o.fields["options"] = opts(E, "Date", E.fresh("options", U))
        return [o, SVal(E.fresh("locale", U), "locale")], {}

    def old(self, E, a):
        t, loc = a.self.term, E.term(a.locale)
        x = fields(E, "Date", E.getfield(a.self, "options"))
        return {"t": t, "loc": loc, "x": x, "dt": a.self.cls.name == "FluentDateTime", "tz": part(E, "tzinfo", t)}

    def raises_when(self, E, a, o):
        return None

    def post_exc(self, E, a, o, x):
        return [("only what babel's formatting raises", getattr(x, "fmt", False))]

    def post(self, E, a, o, r):
        if not is_strv(r):
            return [("a text", False)]
        t, x, loc, L = o["t"], o["x"], o["loc"], E.litterm
        if o["dt"]:
            z0 = If(o["tz"] == NONE, REPLACE_TZ(t, E.term(Ext("pytz.UTC"))), t)
            z = If(x["timeZone"] == NONE, z0, ASTZ(z0, babel(E, "get_timezone", x["timeZone"])))
        else:
            z = t
        ds, ts = x["dateStyle"], x["timeStyle"]
        date = babel(E, "format_date", z, If(ds == NONE, L("medium"), ds), loc)
        time = babel(E, "format_time", z, ts, NONE, loc)
        rep = uf("str.replace", U, U, U, U)
        both = rep(rep(rep(babel(E, "get_datetime_format", ds, loc), L("'"), L("")), L("{0}"), time), L("{1}"), date)
        return [("the date and time in their styles", E.term(r) == If(ts == NONE, date, If(ds == NONE, time, both)))]


TYPES = [merge_options(), fluent_number(), Number_format(), fluent_date(), native_to_fluent(), Date_format()]



def registry():
    reg = Registry()
    for c in TYPES:
        reg.active[c.key] = c
    install(reg)
    return reg
