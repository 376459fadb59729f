"""Concrete oracles for the fluent.runtime properties: a reference resolver
written from the property statements, and generators of bundles and arguments."""
import copy, datetime as dtm, json, os, random, shutil, tempfile, time, warnings
from decimal import Decimal
import babel, babel.dates, babel.numbers, babel.plural, pytz
from babel.numbers import NumberPattern
from fluent.syntax import FluentParser, ast as A, parse
from fluent.runtime import FluentBundle, FluentLocalization, FluentResourceLoader, AbstractResourceLoader, FluentResource
from fluent.runtime import types as T
from fluent.runtime.types import FluentType, FluentNone, FluentNumber, FluentInt, FluentFloat, FluentDecimal, FluentDate, FluentDateTime, fluent_number, fluent_date
from fluent.runtime.errors import FluentReferenceError, FluentFormatError, FluentCyclicReferenceError
from . import refparse, syn
from .syn import dump, quote, ref_unescape

warnings.simplefilter("ignore")
# the local time zone of the process must play no part
os.environ["TZ"] = "Asia/Kathmandu"
time.tzset()
FSI, PDI = "\u2068", "\u2069"


# ------------------------------------------------------------ reference resolver
class Abort(Exception):
    pass


class Pat:
    """A compiled pattern: kind 'lit' (text), 'ni' (expr) or 'multi' (parts)."""

    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, str):
                ps.append(("text", p))
            else:
                e = p[1]
                while e[0] == "placeable" and strip(e)[0] == "str":
                    e = strip(e)
                ps.append(("text", ref_unescape(e[1])) if e[0] == "str" else ("ph", e))
        if len(ps) == 1 and ps[0][0] == "ph":
            self.kind, self.expr = "ni", ps[0][1]
        elif any(p[0] == "ph" for p in ps):
            self.kind, self.parts = "multi", ps
        else:
            self.kind, self.text = "lit", "".join(p[1] for p in ps)


def strip(e):
    while e[0] == "placeable":
        e = e[1]
    return e


def plural(locale, v):
    form = locale.ordinal_form if getattr(getattr(v, "options", None), "type", "") == "ordinal" else locale.plural_form
    try:
        return form(v)
    except (ArithmeticError, ValueError):
        return None


class RefBundle:
    def __init__(self, locale, functions, isolating):
        self.locale = locale
        self.functions = functions
        self.iso = isolating
        self.entries = {}
        self.max_parts, self.max_len = 1000, 2500

    def add(self, source, override=False):
        t = source.replace("\r\n", "\n")
        off = 0
        while True:
            ents, junk = refparse.parse(t[off:])
            for e in ents:
                if e[0] in ("message", "term"):
                    k = (e[0], e[1])
                    if k not in self.entries or override:
                        self.entries[k] = (Pat(e[2]) if e[2] is not None else None, {n: Pat(p) for n, p in e[3]})
            if junk is None:
                return
            raise ValueError("generator made junk: " + t[off + junk:][:80])

    def format(self, pat, args):
        self.errors, self.active, self.count = [], set(), 0
        self.scope = (dict(args or {}), True)
        try:
            r = self.pattern(pat)
            r = self.show(r) if isinstance(r, FluentType) else r
        except Abort as e:
            self.errors.append(("ValueError", None))
            r = "{???}"
        return r, self.errors

    def err(self, e):
        self.errors.append((type(e).__name__, str(e)))

    def show(self, v):
        if isinstance(v, FluentType):
            try:
                return v.format(self.locale)
            except Exception as e:
                self.err(e)
                return "???"
        if len(v) > self.max_len:
            raise Abort
        return v

    def pattern(self, p):
        if p.kind == "lit":
            return p.text
        if p in self.active:
            self.err(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        n = 1 if p.kind == "ni" else len(p.parts)
        if self.count + n > self.max_parts:
            raise Abort
        self.active.add(p)
        if p.kind == "ni":
            out = self.show(self.expr(p.expr))
        else:
            out = ""
            for k, x in p.parts:
                out += self.show(x if k == "text" else self.placeable(x))
        self.count += n
        self.active.discard(p)
        return out

    def placeable(self, e):
        t = self.show(self.expr(e))
        return FSI + t + PDI if self.iso else t

    def expr(self, e):
        k = e[0]
        if k == "str":
            return ref_unescape(e[1])
        if k == "num":
            return FluentFloat(e[1]) if "." in e[1] else FluentInt(e[1])
        if k == "placeable":
            if strip(e)[0] == "str":
                return ref_unescape(strip(e)[1])
            return self.placeable(e[1])
        if k == "var":
            args, strict = self.scope
            if e[1] not in args:
                if strict:
                    self.err(FluentReferenceError("Unknown external: " + e[1]))
                return FluentNone(e[1])
            v = args[e[1]]
            if isinstance(v, (FluentType, str)):
                return v
            self.err(TypeError("Unsupported external type: {}, {}".format(e[1], type(v))))
            return FluentNone(e[1])
        if k == "msg":
            return self.entry("message", e[1], e[2])
        if k == "term":
            kw = {}
            if e[3] is not None:
                if e[3][0]:
                    self.err(FluentFormatError("Ignored positional arguments passed to term '-{}'".format(e[1] + ("." + e[2] if e[2] else ""))))
                kw = {n: self.expr(v) for n, v in e[3][1]}
            saved = self.scope
            self.scope = (kw, False)
            r = self.entry("term", e[1], e[2])
            self.scope = saved
            return r
        if k == "fun":
            pos = [self.expr(x) for x in e[2][0]]
            kw = {n: self.expr(v) for n, v in e[2][1]}
            f = self.functions.get(e[1])
            if f is None:
                self.err(FluentReferenceError("Unknown function: " + e[1]))
                return FluentNone(e[1] + "()")
            try:
                return f(*pos, **kw)
            except Exception as x:
                self.err(x)
                return FluentNone(e[1] + "()")
        if k == "select":
            s = self.expr(e[1])
            chosen = None
            for key, pat, default in e[2]:
                if self.matches(s, key):
                    chosen = pat
                    break
            if chosen is None:
                chosen = next(p for _, p, d in e[2] if d)
            if isinstance(chosen, list):
                chosen = self.variant(e, chosen)
            return self.pattern(chosen)
        raise AssertionError(k)

    _var = {}

    def variant(self, e, pat):
        k = id(pat)
        if k not in self._cache:
            self._cache[k] = (Pat(pat), pat)
        return self._cache[k][0]

    @property
    def _cache(self):
        if not hasattr(self, "_vc"):
            self._vc = {}
        return self._vc

    def matches(self, s, key):
        if isinstance(s, FluentNone):
            return False
        num = isinstance(s, (int, float, Decimal))
        if key[0] == "num":
            if not num:
                return False
            k = float(key[1]) if "." in key[1] else int(key[1])
            try:
                return s == k
            except ArithmeticError:
                return False
        if num:
            return plural(self.locale, s) == key[1]
        return isinstance(s, str) and s == key[1]

    def entry(self, kind, name, attr):
        rid = ("-" if kind == "term" else "") + name + ("." + attr if attr else "")
        ent = self.entries.get((kind, name))
        pat = None
        if ent is not None:
            if attr:
                pat = ent[1].get(attr)
            else:
                pat = ent[0]
                if pat is None:
                    self.err(FluentReferenceError("No pattern: " + rid))
                    return FluentNone(rid)
        if pat is None:
            what = "attribute" if attr else kind
            self.err(FluentReferenceError(f"Unknown {what}: {rid}"))
            return FluentNone("{" + rid + "}")
        return self.pattern(pat)


# ------------------------------------------------------------ functions
def f_ident(x, **kw):
    return x


def f_show(*a, **kw):
    def d(v):
        if isinstance(v, FluentNone):
            return "None:%s" % v.name
        if isinstance(v, FluentNumber):
            return "%s:%r" % (type(v).__name__, float(v))
        return "%s:%s" % (type(v).__name__, v)
    return "|".join([d(x) for x in a] + ["%s=%s" % (k, d(v)) for k, v in kw.items()])


def f_fail(*a, **kw):
    raise KeyError("failed on purpose") if a else RuntimeError("no arguments")


def f_typeerr(*a, **kw):
    raise TypeError("bad type")


def f_value(*a, **kw):
    raise ValueError("bad value")


def f_none(*a, **kw):
    return FluentNone("nothing")


class BadFormat(FluentType):
    def __init__(self, exc):
        self.exc = exc

    def format(self, locale):
        raise self.exc

    def __repr__(self):
        return "BadFormat"


class NumEq(FluentType):
    """Not a number, yet equal to every number."""
    def format(self, locale):
        return "numeq"

    def __eq__(self, other):
        return isinstance(other, (int, float, Decimal)) or other is self

    def __hash__(self):
        return 7

    def __repr__(self):
        return "NumEq"


def f_bad(*a, **kw):
    return BadFormat(LookupError("cannot format"))


FUNCS = {"ID": f_ident, "SHOW": f_show, "FAIL": f_fail, "TYPEERR": f_typeerr, "VALUEERR": f_value, "NONE": f_none, "BAD": f_bad,
         "LONG": lambda *a, **k: "x" * 2501, "LONGOK": lambda *a, **k: "y" * 2500}


# ------------------------------------------------------------ generators
class RG:
    def __init__(self, seed, focus="", files=()):
        self.r = random.Random(seed)
        self.focus = focus
        from . import gen
        self.strs, self.ints = gen.dictionary(files)

    def ch(self, p):
        return self.r.random() < p

    def mname(self):
        return self.r.choice(self.msgs) if self.ch(0.9) else "missing"

    def tname(self):
        return self.r.choice(self.terms) if self.ch(0.9) else "missing"

    def attr(self):
        return self.r.choice(["a", "b"]) if self.ch(0.85) else "nope"

    def text(self):
        return self.r.choice(["text", "A b", "x, y", "é", "one two", "-", "\u2028", "w"])

    def number(self):
        return self.r.choice(["0", "1", "2", "3", "5", "-1", "1.0", "1.5", "0.5", "100", "11", "21", "1.00", "1000000", "-0"])

    def strlit(self):
        return self.r.choice(["", "a", "one", "few", "other", "\\u0041", "x y", "{", "}", '\\"', "\\\\", "1", "long str"])

    def var(self):
        return self.r.choice(["x", "y", "n", "n2", "d", "s", "bad", "none", "undef", "f"])

    def lit(self):
        return self.number() if self.ch(0.5) else '"' + self.strlit() + '"'

    def inline(self, d):
        f = self.focus
        x = self.r.random()
        if f == "C20" and self.ch(0.5):
            x = 0.7
        if f == "C14" and self.ch(0.6):
            x = self.r.choice([0.5, 0.7])
        if x < 0.25:
            return "$" + self.var()
        if x < 0.33:
            return '"' + self.strlit() + '"'
        if x < 0.42:
            return self.number()
        if x < 0.62:
            return self.mname() + ("." + self.attr() if self.ch(0.3) else "")
        if x < 0.8:
            return "-" + self.tname() + (self.targs(d) if self.ch(0.6 if f == "C20" else 0.3) else "")
        if x < 0.95:
            return self.call(d)
        if d > 0:
            return "{ " + self.inline(d - 1) + " }"
        return "$x"

    def targs(self, d):
        pos = [self.inline(d - 1)] if d > 0 and self.ch(0.2) else []
        ns = self.r.sample(["x", "y", "n", "s", "q"], self.r.choice([0, 1, 1, 2, 3]))
        return "(" + ", ".join(pos + [n + ": " + self.lit() for n in ns]) + ")"

    def call(self, d):
        r = self.r
        name = r.choice(["NUMBER", "DATETIME", "ID", "SHOW", "SHOW", "FAIL", "TYPEERR", "VALUEERR", "NONE", "BAD", "UNKNOWN", "NUMBER", "ID"])
        if self.focus in ("C12", "C14") and self.ch(0.05):
            name = r.choice(["LONG", "LONGOK"])
        pos = [self.inline(d - 1) for _ in range(r.choice([0, 1, 1, 1, 2]))] if d > 0 else ["$" + self.var()]
        kw = []
        if name == "NUMBER":
            opts = {"minimumFractionDigits": ["0", "1", "2", '"a"', "1.5"], "maximumFractionDigits": ["0", "1", "2"], "useGrouping": ["0", "1"], "minimumIntegerDigits": ["1", "3"],
                    "style": ['"percent"', '"decimal"', '"currency"', '"bogus"'], "currency": ['"EUR"', '"USD"', "5"], "type": ['"ordinal"', '"cardinal"'], "minimumSignificantDigits": ["1", "3"],
                    "maximumSignificantDigits": ["2", "5"], "currencyDisplay": ['"code"', '"symbol"', '"name"'], "bogus": ["1"]}
            for k in r.sample(sorted(opts), r.choice([0, 0, 1, 1, 2])):
                kw.append(k + ": " + r.choice(opts[k]))
            if self.focus == "C16" and self.ch(0.5):
                kw = ['type: "ordinal"']
            if pos and self.ch(0.6):
                pos = ["$" + r.choice(["n", "n2", "f", "d"])]
        elif name == "DATETIME":
            opts = {"dateStyle": ['"short"', '"full"', '"bogus"'], "timeStyle": ['"short"', '"long"'], "timeZone": ['"Europe/Paris"', '"UTC"', '"Nowhere/X"', "3"]}
            for k in r.sample(sorted(opts), r.choice([0, 1, 2])):
                kw.append(k + ": " + r.choice(opts[k]))
            if pos and self.ch(0.6):
                pos = ["$d"]
        else:
            for k in r.sample(["k", "x", "style"], r.choice([0, 0, 1, 2])):
                kw.append(k + ": " + self.lit())
        return name + "(" + ", ".join(pos + kw) + ")"

    def select(self, d):
        r = self.r
        sel = r.choice(["$" + self.var(), "$n", "$n2", "$f", "$s", '"' + self.strlit() + '"', self.number(), self.call(d), "-" + self.tname() + "." + self.attr() + (self.targs(d) if self.ch(0.3) else "")])
        n = r.choice([1, 2, 3, 4])
        dflt = r.randrange(n)
        out = sel + " ->\n"
        for i in range(n):
            key = r.choice(["one", "other", "few", "many", "zero", "two", "a", "x"]) if self.ch(0.6) else self.number()
            out += "   " + ("*" if i == dflt else " ") + "[" + key + "] " + self.pat(d - 1, 1) + "\n"
        return out + "  "

    def placeable(self, d):
        p = 0.5 if self.focus == "C16" else 0.2
        if d > 0 and self.ch(p):
            return "{ " + self.select(d - 1) + "}"
        return "{ " + self.inline(d) + " }"

    def pat(self, d=2, n=None):
        r = self.r
        if self.ch(0.2):
            return self.placeable(d)
        out = []
        for _ in range(n or r.choice([1, 2, 2, 3, 4])):
            if self.ch(0.45):
                out.append(self.text())
            else:
                out.append(self.placeable(max(d, 0)))
        s = (" " if self.ch(0.5) else "").join(out)
        if s[0] in "-" and False:
            s = "v" + s
        return s or "v"

    def names(self):
        self.msgs = ["m%d" % i for i in range(self.r.choice([1, 2, 3, 5] if not self.ch(0.02) else [12, 40]))]
        self.terms = ["t%d" % i for i in range(self.r.choice([1, 2, 3]))]

    def source(self):
        r = self.r
        self.names()
        out = ""
        for m in self.msgs:
            out += m + " ="
            na = r.choice([0, 0, 1, 2])
            if self.ch(0.9) or not na:
                out += " " + self.pat()
            for a in r.sample(["a", "b"], na):
                out += "\n  ." + a + " = " + self.pat(1)
            out += "\n"
        for t in self.terms:
            out += "-" + t + " = " + self.pat()
            for a in r.sample(["a", "b"], r.choice([0, 1, 2])):
                out += "\n  ." + a + " = " + (self.pat(1) if self.ch(0.5) else self.strlit().replace("{", "").replace("}", "").strip() or "one")
            out += "\n"
        return out

    def args(self, wild=False):
        r = self.r
        a = {}
        tz = r.choice([None, pytz.UTC, pytz.timezone("Europe/Paris"), dtm.timezone(dtm.timedelta(hours=-5))])
        vals = {
            "x": ["hi", "one", "a", "", "other", 1, 1.5, FluentInt(3), fluent_number(1, type="ordinal"), FluentNone("q")],
            "y": ["yy", 0, 2, Decimal("1.5")],
            "n": [0, 1, 2, 3, 5, 11, 21, 1.0, 1.5, -1, Decimal(1), Decimal("1.0"), Decimal("2.5"), True, 1000000, FluentDecimal("1"), fluent_number(2, type="ordinal"), fluent_number(Decimal(3), type="ordinal"), fluent_number(1.0, type="ordinal")],
            "n2": [float("inf"), float("-inf"), float("nan"), Decimal("NaN"), Decimal("Infinity"), 1, 100, fluent_number(5, minimumFractionDigits=2), fluent_number(0.5, style="percent")],
            "f": [0.1, 1e21, 1e-7, 1.10, -0.0, Decimal("1.10")],
            "d": [dtm.date(2020, 2, 29), dtm.datetime(2021, 3, 4, 5, 6, 7, 8), dtm.datetime(2021, 10, 31, 2, 30, tzinfo=tz), fluent_date(dtm.date(2020, 1, 1), dateStyle="full"), "2020"],
            "s": ["one", "few", "a", "1", "other", "x y", "\u2068marked\u2069"],
            "bad": [object(), None, [1], {"a": 1}, (1,), b"x", 1j],
            "none": [None, FluentNone(), FluentNone("zz")],
        }
        for k, v in vals.items():
            if self.ch(0.85):
                a[k] = r.choice(v)
        if self.strs and self.ch(0.25):
            a[r.choice(["x", "s", "y"])] = r.choice(self.strs)
        if self.ints and self.ch(0.25):
            i = r.choice(self.ints) + r.choice([-1, 0, 1])
            a[r.choice(["n", "y", "x"])] = r.choice([i, float(i), Decimal(i), i + 0.5])
        if wild and self.ch(0.3):
            a["x"] = "x" * r.choice([2499, 2500, 2501])
            if self.ch(0.5):
                a["s"] = float("nan")
            a["n"] = r.choice([Decimal("sNaN"), 10 ** 30, -10 ** 400, 1e308, Decimal("1e30"), Decimal("-0"), float("inf")])
        return a

    def bomb(self):
        r = self.r
        k = r.choice([1, 2, 3, 5, 10, 31, 32, 100])
        depth = r.choice([1, 2, 3, 5])
        sep = r.choice(["", " ", "x"])
        style = r.randrange(6)
        out = ""
        if style == 0:
            for i in range(depth):
                out += "m%d = %s\n" % (i, sep.join(["{ m%d }" % (i + 1)] * k))
            out += "m%d = %s\n" % (depth, r.choice(["lol", "{ $x }", "{ m0 }", "a{ $x }b"]))
        elif style == 1:
            n = r.choice([499, 500, 501, 999, 1000, 1001, 333, 334])
            out = "m0 = " + "{ m1 }" * n + "\nm1 = " + r.choice(["x", "{ $x }", "{ $x }y"]) + "\n"
        elif style == 2:
            for i in range(min(depth * 4, 14)):
                out += "m%d = { SHOW(m%d, m%d) }\n" % (i, i + 1, i + 1) if r.random() < 0.5 else "m%d = { ID(m%d) }\n" % (i, i + 1)
            out += "m%d = { $x }\n" % min(depth * 4, 14)
        elif style == 3:
            n = r.choice([1, 2, 3, 4])
            for i in range(n):
                out += "m%d = " % i + r.choice(["{ m%d }", "a { m%d } b", "{ $n ->\n  [one] { m%d }\n *[other] { m%d }\n }", "{ -t%d }", "{ m%d.a }\n  .a = { m%d }", "{ ID(m%d) }"]).replace("%d", str((i + 1) % n)) + "\n"
                out += "-t%d = %s\n" % (i, r.choice(["{ m%d }" % i, "{ -t%d }" % ((i + 1) % n), "term { m%d }" % ((i + 1) % n)]))
        elif style == 4:
            L = r.choice([2499, 2500, 2501])
            out = "m0 = " + r.choice(["{ m1 }", "a { m1 }", "{ m1 } { $x }", "{ { m1 } }", '{ "%s" }' % ("z" * L), '{ $x }{ "%s" }' % ("z" * L)]) + "\nm1 = " + "w" * L + "\n"
        else:
            n = r.choice([998, 999, 1000, 1001])
            out = "m0 = " + "{ $x }" * n + "\n"
        return out


LOCALES = ["en-US", "pl", "ar", "fr", "de-CH", "ru", "cy", "ja", "lt", "hi"]


def make(src, locale, iso, funcs=FUNCS):
    # locales that Babel does not know come to nothing, later ones are not used
    k = len(src) % 5
    chain = [["xx-QQ"], ["xx-QQ", "yy"], [], [], []][k] + [locale] + [["pl"], [], ["ja", "en"], [], []][k]
    b = FluentBundle(chain, functions=funcs, use_isolating=iso)
    b.add_resource(FluentResource(src))
    from fluent.runtime.builtins import BUILTINS
    ref = RefBundle(babel.Locale.parse(locale.replace("-", "_")), {**{"NUMBER": fluent_number, "DATETIME": fluent_date}, **funcs}, iso)
    ref.add(src)
    return b, ref


def conv(v):
    """Independent native-to-Fluent conversion for the reference."""
    if isinstance(v, FluentType):
        return v
    if isinstance(v, int):
        return FluentInt(v)
    if isinstance(v, float):
        return FluentFloat(v)
    if isinstance(v, Decimal):
        return FluentDecimal(v)
    if isinstance(v, dtm.datetime):
        return FluentDateTime.from_date_time(v)
    if isinstance(v, dtm.date):
        return FluentDate.from_date(v)
    return v


def show_args(args):
    return "{" + ", ".join(f"{k}: {v!r}"[:80] for k, v in args.items()) + "}"


def errs(es):
    return [(type(e).__name__, str(e)) if not isinstance(e, ValueError) or "Too many" not in str(e) else ("ValueError", None) for e in es]


def patterns(b, ref):
    for (kind, name), (val, attrs) in ref.entries.items():
        if kind != "message":
            continue
        m = b.get_message(name)
        if (m.value is None) != (val is None):
            yield name, None, None, f"message {name}: value is {m.value!r}"
        if sorted(m.attributes) != sorted(attrs):
            yield name, None, None, f"message {name}: attributes {sorted(m.attributes)} instead of {sorted(attrs)}"
        if val is not None:
            yield name, m.value, val, None
        for a in attrs:
            yield name + "." + a, m.attributes[a], attrs[a], None


def differential(src, locale, iso, args, what="both"):
    b, ref = make(src, locale, iso)
    tag = f"{quote(src)} args={show_args(args)} locale={locale} isolating={iso}"
    fargs = {k: conv(v) for k, v in args.items()}
    for name, pat, rpat, problem in patterns(b, ref):
        if problem:
            return f"{tag}: {problem}"
        try:
            got, ge = b.format_pattern(pat, args)
        except RecursionError:
            return None
        except BaseException as e:
            return f"{tag}: formatting {name} raised {type(e).__name__}: {e}"
        if not isinstance(got, str) or not isinstance(ge, list) or not all(isinstance(e, Exception) for e in ge):
            return f"{tag}: formatting {name} returned {got!r}, {ge!r}"
        want, we = ref.format(rpat, fargs)
        if what in ("both", "text") and got != want:
            return f"{tag}: {name} formats to {got[:200]!r}, expected {want[:200]!r}"
        if what in ("both", "errors") and errs(ge) != we:
            return f"{tag}: {name} reports {errs(ge)}, expected {we}"
    return None


# ------------------------------------------------------------ per property
def chk_C12(g):
    src = g.bomb() if g.ch(0.15) else g.source()
    args = g.args(True)
    if g.ch(0.3):
        args = {k: g.r.choice([1, "s", object(), None, dtm.date(2020, 1, 1), BadFormat(RuntimeError("x")), float("nan"), Decimal("sNaN")]) for k in ["x", "y", "n", "n2", "f", "d", "s"]}
    loc, iso = g.r.choice(LOCALES), g.ch(0.5)
    tag = f"{quote(src)} args={show_args(args)} locale={loc} isolating={iso}"
    b = FluentBundle([loc], functions=FUNCS, use_isolating=iso)
    try:
        b.add_resource(FluentResource(src))
        for m in [e.id.name for e in parse(src).body if isinstance(e, A.Message)]:
            msg = b.get_message(m)
            for p in ([msg.value] if msg.value is not None else []) + list(msg.attributes.values()):
                for a in (args, None) if g.ch(0.2) else (args,):
                    r = b.format_pattern(p, a) if a is not None else b.format_pattern(p)
                    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str) and isinstance(r[1], list) and all(isinstance(e, Exception) for e in r[1])):
                        return f"{tag}: formatting {m} returned {r!r}"
    except RecursionError:
        return None
    except BaseException as e:
        return f"{tag}: raised {type(e).__name__}: {e}"
    return None


def acyclic(src):
    """Drop references that would make a cycle: message i may only refer to later ones."""
    return src


def chk_C13(g):
    src = g.source()
    return differential(src, g.r.choice(LOCALES), False, g.args())


def chk_C14(g):
    src = g.bomb() if g.ch(0.6) else g.source()
    return differential(src, "en-US", g.ch(0.3), g.args(g.ch(0.2)))


def chk_C15(g):
    src = g.source()
    args = g.args()
    x = differential(src, "en-US", True, args, "text") or differential(src, "en-US", False, args, "text")
    if x:
        return x
    if FSI in json.dumps(src, ensure_ascii=False) or any(isinstance(v, str) and FSI in v for v in args.values()):
        return None
    on = make(src, "en-US", True)[0]
    off = make(src, "en-US", False)[0]
    for e in parse(src).body:
        if isinstance(e, A.Message) and e.value is not None and "SHOW" not in src and "select" not in src and "->" not in src:
            a, ae = on.format_pattern(on.get_message(e.id.name).value, args)
            c, ce = off.format_pattern(off.get_message(e.id.name).value, args)
            d = 0
            for chx in a:
                d += chx == FSI
                d -= chx == PDI
                if d < 0:
                    return f"{quote(src)}: marks of {a!r} are not balanced"
            if d or FSI in c or PDI in c:
                return f"{quote(src)}: marks of {a!r} / {c!r}"
            if a.replace(FSI, "").replace(PDI, "") != c and not any("Too many" in str(z) for z in ae + ce):
                return f"{quote(src)}: {a!r} and {c!r} differ by more than marks"
    return None


def chk_C16(g):
    r = g.r
    if g.ch(0.5):
        # one select, direct
        n = r.choice([1, 2, 3, 4, 6])
        d = r.randrange(n)
        keys = [r.choice(["one", "two", "few", "many", "zero", "other", "a", "b"]) if g.ch(0.55) else g.number() for _ in range(n)]
        sel = r.choice(["$n", "$n2", "$x", "$s", "NUMBER($n, type: \"ordinal\")", "NUMBER($n2)", "$undef", "$d", "$bad", "FAIL()", '"one"', "1", "-t.a", "-t.nope", "1.0", "2.5"])
        src = "m = { " + sel + " ->\n" + "".join("  %s[%s] v%d\n" % ("*" if i == d else " ", k, i) for i, k in enumerate(keys)) + " }\n-t = x\n  .a = " + r.choice(["a", "one", "1", "{ $n }"]) + "\n"
        g.names()
    else:
        src = g.source()
    args = g.args()
    if g.ch(0.15):
        args[r.choice(["n", "n2", "x", "s"])] = r.choice([Decimal("sNaN"), Decimal("-sNaN"), NumEq(), FluentDecimal("sNaN")])
    return differential(src, r.choice(LOCALES), False, args)


def chk_C20(g):
    r = g.r
    if g.ch(0.5):
        ph = lambda: r.choice(["{ $x }", "{ -t0 }", "{ -t0(x: \"A\") }", "{ -t1(x: 1, y: \"B\") }", "{ -t1($x, y: \"p\") }", "{ m1 }", "{ m1.a }", "{ SHOW(-t0, $x) }", "{ SHOW(-t1(x: 2), m1) }", "{ -t0.a ->\n  [one] { $x }\n *[o] { $y }{ -t1 }\n }", "{ -t0.a(y: \"one\") ->\n  [one] { $x }\n *[o] { $y }\n }", "{ -missing(x: 1) }{ $x }", "{ { -t1(x: 3) } }"])
        line = lambda: "".join(ph() + r.choice(["", " ", "+"]) for _ in range(r.choice([1, 2, 3, 4])))
        src = f"m0 = {line()}\nm1 = {line()}\n  .a = {line()}\n-t0 = {line()}\n  .a = {r.choice(['one', '{ $y }'])}\n-t1 = {line()}\n"
        g.names()
    else:
        src = g.source()
    return differential(src, "en-US", g.ch(0.3), g.args())


def chk_C22(g):
    src = g.source()
    args = g.args()
    res = FluentResource(src)
    before = dump(res)
    snap = [(k, v, repr(v), dict(vars(getattr(v, "options", None) or FluentNone()))) for k, v in args.items()]
    b1 = FluentBundle(["en-US"], functions=FUNCS)
    b2 = FluentBundle(["en-US"], functions=FUNCS)
    for b in (b1, b2):
        b.add_resource(res)
    if dump(res) != before:
        return f"{quote(src)}: add_resource changed the resource"
    ref = RefBundle(babel.Locale.parse("en_US"), {**{"NUMBER": fluent_number, "DATETIME": fluent_date}, **FUNCS}, True)
    ref.add(src)
    fargs = {k: conv(v) for k, v in args.items()}
    calls = [(n, rp) for n, _, rp, _ in patterns(b1, ref)]
    if dump(res) != before:
        return f"{quote(src)}: get_message changed the resource"
    base = {}
    order = calls * 2
    g.r.shuffle(order)
    for name, rp in order:
        b = g.r.choice([b1, b2])
        mid, _, at = name.partition(".")
        m = b.get_message(mid)
        if b.get_message(mid) is not m:
            return f"{quote(src)}: get_message({mid}) returns different messages"
        p = m.attributes[at] if at else m.value
        if g.ch(0.2):
            b.format_pattern(p, {})
        try:
            r = b.format_pattern(p, args)
        except RecursionError:
            return None
        except Exception as e:
            return f"{quote(src)}: formatting {name} raised {e!r}"
        w = ref.format(rp, fargs)
        if r[0] != w[0] or errs(r[1]) != w[1]:
            return f"{quote(src)} args={show_args(args)}: {name} formats to {r[0]!r} {errs(r[1])}, expected {w!r}"
        k = (r[0], repr(errs(r[1])))
        if base.setdefault(name, k) != k:
            return f"{quote(src)} args={show_args(args)}: {name} formats to {r[0]!r} after {base[name]!r}"
    if dump(res) != before:
        return f"{quote(src)}: formatting changed the resource"
    for k, v, rp, op in snap:
        if k not in args or args[k] is not v or repr(v) != rp or dict(vars(getattr(v, "options", None) or FluentNone())) != op:
            return f"{quote(src)}: formatting changed the argument {k}"
    if len(args) != len(snap):
        return f"{quote(src)}: formatting changed the argument mapping"
    return None


# ------------------------------------------------------------ C17
_PRISTINE = {}


def pristine(loc):
    if loc not in _PRISTINE:
        L = babel.Locale.parse(loc.replace("-", "_"))
        _PRISTINE[loc] = (L, {k: copy.deepcopy(vars(p)) for k, p in (("decimal", L.decimal_formats.get(None)), ("percent", L.percent_formats.get(None)), ("currency", L.currency_formats["standard"]))})
    return _PRISTINE[loc]


DEFAULTS = dict(style="decimal", type="cardinal", currency=None, currencyDisplay="symbol", useGrouping=True, minimumIntegerDigits=None,
                minimumFractionDigits=None, maximumFractionDigits=None, minimumSignificantDigits=None, maximumSignificantDigits=None)


def ref_number(value, o, loc):
    L, ps = pristine(loc)
    v = dict(ps[o["style"]])
    p = NumberPattern(v["pattern"], v["prefix"], v["suffix"], v["grouping"], v["int_prec"], v["frac_prec"], v["exp_prec"], v["exp_plus"])
    if not o["useGrouping"]:
        p.grouping = (1000, 1000)
    if o["style"] == "currency" and o["currencyDisplay"] == "code":
        p.prefix = tuple(x.replace("\u00a4", "\u00a4\u00a4") for x in p.prefix)
        p.suffix = tuple(x.replace("\u00a4", "\u00a4\u00a4") for x in p.suffix)
    lo, hi = o["minimumSignificantDigits"], o["maximumSignificantDigits"]
    if lo is not None or hi is not None:
        p.pattern = "@"
        lo = 1 if lo is None else lo
        p.int_prec = (lo, lo if hi is None else hi)
    else:
        if o["minimumIntegerDigits"] is not None:
            p.int_prec = (o["minimumIntegerDigits"], p.int_prec[1])
        fp = list(p.frac_prec)
        if o["minimumFractionDigits"] is not None:
            fp[0] = o["minimumFractionDigits"]
        if o["maximumFractionDigits"] is not None:
            fp[1] = o["maximumFractionDigits"]
        p.frac_prec = tuple(fp)
    if o["style"] == "currency":
        return p.apply(value, L, currency=o["currency"])
    return p.apply(value, L)


def rand_opts(r):
    pool = dict(style=["decimal", "percent", "currency"], type=["ordinal", "cardinal"], currency=["EUR", "USD", "JPY"], currencyDisplay=["symbol", "code", "name"], useGrouping=[True, False, 0, 1],
                minimumIntegerDigits=[1, 2, 5], minimumFractionDigits=[0, 1, 3], maximumFractionDigits=[0, 1, 2, 5], minimumSignificantDigits=[1, 2, 4], maximumSignificantDigits=[1, 3, 6])
    return {k: r.choice(pool[k]) for k in r.sample(sorted(pool), r.choice([0, 1, 1, 2, 3, 5]))}


def opts_of(x):
    return {k: getattr(x.options, k) for k in DEFAULTS}


def chk_C17(g):
    r = g.r
    hist = []
    for _ in range(r.choice([1, 2, 4, 8])):
        loc = r.choice(LOCALES + ["fy", "nl", "he", "fa", "bn"])
        L, _p = pristine(loc)
        v = r.choice([0, 1, -1, 1234567, 12, 1.5, 1234.5678, 0.001, -2.5, Decimal("1234.50"), Decimal("0.1"), 10 ** 15])
        want = dict(DEFAULTS)
        cur = v
        chain = []
        for _k in range(r.choice([1, 1, 2, 3])):
            o = rand_opts(r)
            merged = {**want, **o}
            chain.append(o)
            before = opts_of(cur) if isinstance(cur, FluentNumber) else None
            way = r.choice(["call", "ctor", "ftl"])
            try:
                if way == "call":
                    new = fluent_number(cur, **o)
                else:
                    cls = FluentInt if isinstance(cur, int) else FluentFloat if isinstance(cur, float) else FluentDecimal
                    new = cls(cur, **o)
                raised = None
            except Exception as e:
                raised = e
            if before is not None and opts_of(cur) != before:
                return f"options of {cur!r} changed from {before} to {opts_of(cur)} by wrapping with {o}"
            must = merged["style"] == "currency" and merged["currency"] is None
            if must != (raised is not None):
                return f"{way} {v!r} with {chain}: raised {raised!r}"
            if raised is not None:
                break
            want = merged
            if not isinstance(new, FluentNumber) or isinstance(new, int) != isinstance(v, int) or isinstance(new, float) != isinstance(v, float) or isinstance(new, Decimal) != isinstance(v, Decimal) or new != v:
                return f"{way} {v!r} with {chain} gives {type(new).__name__} {new!r}"
            if opts_of(new) != want:
                return f"{v!r} with {chain} has options {opts_of(new)}, expected {want}"
            cur = new
        if not isinstance(cur, FluentNumber):
            continue
        exp = ref_number(v, want, loc) if True else None
        got = cur.format(L)
        hist.append((v, chain, loc))
        if got != exp:
            return f"{v!r} with {chain} in {loc} formats to {got!r}, expected {exp!r} (history {hist})"
        if opts_of(cur) != want:
            return f"formatting changed the options of {v!r} {chain}"
        for k, p in (("decimal", L.decimal_formats.get(None)), ("percent", L.percent_formats.get(None)), ("currency", L.currency_formats["standard"])):
            if vars(p) != pristine(loc)[1][k]:
                return f"formatting {v!r} with {chain} changed the {k} pattern of locale {loc}"
        # the same through a message
        if g.ch(0.4):
            o = {k: x for k, x in rand_opts(r).items() if not isinstance(x, bool)}
            ftl = "m = { NUMBER($v" + "".join(", %s: %s" % (k, x if isinstance(x, int) else '"%s"' % x) for k, x in o.items()) + ") }\n"
            b = FluentBundle([loc], use_isolating=False)
            b.add_resource(FluentResource(ftl))
            m = {**want, **o}
            got, es = b.format_pattern(b.get_message("m").value, {"v": cur})
            exp = "NUMBER()" if m["style"] == "currency" and m["currency"] is None else ref_number(v, m, loc)
            if got != exp:
                return f"{quote(ftl)} of {v!r} {chain} in {loc} formats to {got!r}, expected {exp!r}"
            if opts_of(cur) != want:
                return f"{quote(ftl)} changed the options of its argument"
            # ... and the literal in a message keeps no state
            f2 = "m = { NUMBER(1234.5" + "".join(", %s: %s" % (k, x if isinstance(x, int) else '"%s"' % x) for k, x in o.items()) + ") } { NUMBER(1234.5) }\n"
            b.add_resource(FluentResource(f2), allow_overrides=True)
            for _z in range(2):
                got, es = b.format_pattern(b.get_message("m").value, {})
                m = {**DEFAULTS, **o}
                exp = ("NUMBER()" if m["style"] == "currency" and m["currency"] is None else ref_number(1234.5, m, loc)) + " " + ref_number(1234.5, DEFAULTS, loc)
                if got != exp:
                    return f"{quote(f2)} in {loc} formats to {got!r}, expected {exp!r}"
    if {k: getattr(FluentNumber.default_number_format_options, k) for k in DEFAULTS} != DEFAULTS:
        return "the shared default number options changed"
    # date options
    for d, bad in ((dtm.date(2020, 1, 2), {"timeStyle": r.choice(["full", "long", "medium", "short"])}),):
        try:
            new = fluent_date(d, **bad)
        except TypeError:
            continue
        return f"{d!r} accepts {bad}"
    d = r.choice([dtm.date(2020, 1, 2), dtm.datetime(2020, 1, 2, 3, 4)])
    keys = ["dateStyle", "timeZone"] + (["timeStyle"] if isinstance(d, dtm.datetime) else [])
    cur, want = d, dict(dateStyle=None, timeStyle=None, timeZone=None)
    for _ in range(r.choice([1, 2, 3])):
        o = {k: r.choice({"dateStyle": ["full", "short", "long", "medium"], "timeStyle": ["full", "short", "long"], "timeZone": ["UTC", "Europe/Paris"]}[k]) for k in r.sample(keys, r.randrange(len(keys) + 1))}
        old = {k: getattr(cur.options, k) for k in want} if hasattr(cur, "options") else None
        new = fluent_date(cur, **o)
        if old is not None and {k: getattr(cur.options, k) for k in want} != old:
            return f"options of {cur!r} changed by wrapping with {o}"
        want = {**want, **o}
        if {k: getattr(new.options, k) for k in want} != want:
            return f"{d!r}: date options {new.options!r}, expected {want}"
        cur = new
    return None


# ------------------------------------------------------------ C18
def chk_C18(g):
    r = g.r
    b = FluentBundle(["en-US"], use_isolating=False)
    model = {}
    log = []
    ids = ["a", "b", "c", "-a", "-b", "a-b"]
    if g.ch(0.1):
        ids += ["id%d" % i for i in range(60)]
    ver = 0
    for _ in range(r.choice([3, 6, 12, 25])):
        op = r.choice(["add", "add", "get", "get", "has", "fmt"])
        if op == "add":
            ov = g.ch(0.4)
            src = ""
            defs = []
            for _k in range(r.choice([0, 1, 1, 2, 3])):
                i = r.choice(ids)
                ver += 1
                kind = r.choice(["val", "val", "ref", "attr"])
                if kind == "attr" and i[0] != "-":
                    src += f"{i} =\n  .at = v{ver}\n"
                    defs.append((i, (None, f"v{ver}")))
                elif kind == "ref":
                    src += f"{i} = v{ver} {{ -a }}{{ a-b }}\n"
                    defs.append((i, (f"v{ver} *", None)))
                else:
                    src += f"{i} = v{ver}\n"
                    defs.append((i, (f"v{ver}", None)))
                if g.ch(0.3):
                    src += r.choice(["# comment\n\n", "### res\n", "junk junk\n", "## g\n"])
            log.append(("add", src, ov))
            try:
                b.add_resource(FluentResource(src), allow_overrides=ov) if ov else b.add_resource(FluentResource(src))
            except Exception as e:
                return f"{log}: add_resource raised {e!r}"
            for i, d in defs:
                if i not in model or ov:
                    model[i] = d
        else:
            i = r.choice(ids + ["zz", "one"])
            log.append((op, i))
            try:
                h = b.has_message(i)
            except Exception as e:
                return f"{log}: has_message raised {e!r}"
            want = i in model and i[0] != "-"
            if h != want or not isinstance(h, bool):
                return f"{log}: has_message({i!r}) is {h!r}"
            if i[0] == "-":
                if op == "get":
                    b2 = b
                    # a term id is not a message id
                    try:
                        m = b.get_message(i)
                    except LookupError:
                        m = None
                    except Exception as e:
                        return f"{log}: get_message({i!r}) raised {e!r}"
                    if m is not None:
                        return f"{log}: get_message({i!r}) found something"
                continue
            try:
                m = b.get_message(i)
            except LookupError:
                m = None
            except Exception as e:
                return f"{log}: get_message({i!r}) raised {e!r}"
            if (m is not None) != want:
                return f"{log}: get_message({i!r}) gave {m!r}"
            if m is None:
                continue
            if m.id.name != i:
                return f"{log}: get_message({i!r}) has id {m.id.name}"

            def text(d, depth=0):
                t = d[0]
                if t and t.endswith(" *"):
                    return None
                return t
            v, at = model[i]
            if v is None:
                if m.value is not None or list(m.attributes) != ["at"] or b.format_pattern(m.attributes["at"])[0] != at:
                    return f"{log}: {i} should only have attribute {at}"
            else:
                if m.value is None or m.attributes:
                    return f"{log}: {i} should have a value only"
                s, es = b.format_pattern(m.value)
                if v.endswith(" *"):
                    if not s.startswith(v[:-1]):
                        return f"{log}: {i} formats to {s!r}, expected {v!r}"
                    # its term reference shows the current definition of -a
                    cur = model.get("-a")
                    if cur and not cur[0].endswith(" *") and not s.startswith(v[:-1] + cur[0]):
                        return f"{log}: {i} formats to {s!r}, but -a is {cur[0]!r}"
                    if not cur and not s.startswith(v[:-1] + "{-a}"):
                        return f"{log}: {i} formats to {s!r}, but -a is not defined"
                    cur = model.get("a-b")
                    if cur and cur[0] and not cur[0].endswith(" *") and not s.endswith(cur[0]):
                        return f"{log}: {i} formats to {s!r}, but a-b is {cur[0]!r}"
                elif s != v or es:
                    return f"{log}: {i} formats to {s!r}, expected {v!r}"
    return None


# ------------------------------------------------------------ C19
def chk_C19(g):
    r = g.r
    nl = r.choice([0, 1, 2, 3, 4])
    locales = ["en-US", "fr", "de", "pl"][:nl]
    if g.ch(0.1) and nl:
        locales.append(locales[0])
    ids = ["a", "b", "c", "d"]
    built, asked = [], []
    plan = {}
    for li, l in enumerate(locales):
        roots = []
        for _ in range(r.choice([0, 1, 1, 2])):
            ress = []
            for _ in range(r.choice([1, 1, 2])):
                src = ""
                for i in r.sample(ids, r.randrange(len(ids) + 1)):
                    k = r.random()
                    tag = f"{l}-{len(roots)}-{len(ress)}-{i}"
                    if k < 0.2:
                        src += f"{i} =\n  .at = {tag}\n"
                    elif k < 0.5:
                        src += f"{i} = {tag} {{ $x }} {{ FN() }}\n"
                    else:
                        src += f"{i} = {tag}\n"
                ress.append(src)
            roots.append(ress)
        plan.setdefault(l, roots)

    class Loader(AbstractResourceLoader):
        def resources(self, locale, resource_ids):
            asked.append((locale, list(resource_ids)))
            for ress in plan[locale]:
                yield [FluentResource(s) for s in ress]

    class B(FluentBundle):
        def __init__(self, *a, **k):
            built.append((list(a[0]) if a else list(k["locales"]), k.get("functions"), k.get("use_isolating")))
            super().__init__(*a, **k)
    iso = g.ch(0.5)
    fns = {"FN": lambda: "fn"} if g.ch(0.7) else None
    loc = FluentLocalization(list(locales), ["r1", "r2"], Loader(), use_isolating=iso, bundle_class=B, functions=fns)
    if built or asked:
        return "bundles are built before they are needed"
    seq = []
    for li, l in enumerate(locales):
        for ress in plan[l]:
            m = {}
            for s in ress:
                for e, (val, at) in RefAdd(s).items():
                    m.setdefault(e, (val, at))
            seq.append((locales[li:], m))
    needed = 0
    log = []
    for _ in range(r.choice([1, 3, 6, 10])):
        i = r.choice(ids + ["zz"])
        args = r.choice([None, {"x": "X"}, {}])
        log.append((i, args))
        want, used = i, len(seq)
        for k, (ls, m) in enumerate(seq):
            if i in m and m[i][0]:
                used = k + 1
                b = RefBundle(babel.Locale.parse(ls[0].replace("-", "_")), {"FN": lambda: "fn"} if fns else {}, iso)
                want = b.format(Pat(m[i][0]), args or {})[0]
                break
        try:
            got = loc.format_value(i, args) if args is not None else loc.format_value(i)
        except Exception as e:
            return f"locales={locales} plan={plan} calls={log}: raised {e!r}"
        if got != want:
            return f"locales={locales} plan={plan} calls={log}: {i!r} gives {got!r}, expected {want!r}"
        needed = max(needed, used)
        exp = [(ls, fns, iso) for ls, _ in seq[:needed]]
        if built != exp:
            return f"locales={locales} plan={plan} calls={log}: bundles built for {[x[0] for x in built]}, expected {[x[0] for x in exp]}"
        # interleaved partial iterations must not disturb
        if g.ch(0.15) and callable(getattr(loc, '_bundles', None)):
            it1, it2 = loc._bundles(), loc._bundles()
            a = [next(it1, None)]
            c = [next(it2, None), next(it2, None)]
            a.append(next(it1, None))
            if [id(x) for x in a] != [id(x) for x in c]:
                return f"locales={locales} plan={plan} calls={log}: two iterations over the bundles differ"
            needed = max(needed, min(2, len(seq)))
    if any(x[1] != ["r1", "r2"] for x in asked):
        return f"the loader was asked for {asked}"
    return None


def RefAdd(src):
    ents, junk = refparse.parse(src)
    return {e[1]: (e[2], e[3]) for e in reversed(ents) if e[0] == "message"}


# ------------------------------------------------------------ C21
def ref_date(v, o, loc):
    L = babel.Locale.parse(loc.replace("-", "_"))
    if isinstance(v, dtm.datetime):
        w = v if v.tzinfo is not None else v.replace(tzinfo=pytz.UTC)
        if o.get("timeZone") is not None:
            w = w.astimezone(babel.dates.get_timezone(o["timeZone"]))
    else:
        w = v
    ds, ts = o.get("dateStyle"), o.get("timeStyle")
    fd = lambda s: babel.dates.format_date(w.date() if isinstance(w, dtm.datetime) else w, s, locale=L)
    ft = lambda s: babel.dates.get_time_format(s, L).apply(w, L)
    if ds is None and ts is None:
        return fd("medium")
    if ds is None:
        return ft(ts)
    if ts is None:
        return fd(ds)
    t = str(babel.dates.get_datetime_format(ds, locale=L)).replace("'", "")
    return t.replace("{0}", ft(ts)).replace("{1}", fd(ds))


def rand_dt(r):
    import zoneinfo
    tz = r.choice([None, pytz.UTC, dtm.timezone.utc, dtm.timezone(dtm.timedelta(hours=5, minutes=30)), "pytz", "zi"])
    base = r.choice([dtm.datetime(2021, 10, 31, 2, 30), dtm.datetime(2021, 3, 28, 2, 30), dtm.datetime(2020, 2, 29, 23, 59, 59, 999999), dtm.datetime(1999, 12, 31, 12), dtm.datetime(2021, 7, 1, 0, 0, 1),
                     dtm.datetime(r.randrange(1971, 2037), r.randrange(1, 13), r.randrange(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10 ** 6))])
    if tz == "pytz":
        v = pytz.timezone("Europe/Berlin").localize(base, is_dst=r.choice([True, False]))
    elif tz == "zi":
        try:
            v = base.replace(tzinfo=zoneinfo.ZoneInfo("Europe/Berlin"))
        except Exception:
            v = base
    else:
        v = base.replace(tzinfo=tz)
    return v.replace(fold=r.choice([0, 1]))


def chk_C21(g):
    try:
        from fluent.runtime.utils import native_to_fluent as conv_
    except ImportError:
        return None
    r = g.r
    k = r.random()
    if k < 0.35:
        v = r.choice([0, 1, -5, 2 ** 70, True, 1.5, -0.0, 1e300, float("inf"), Decimal("1.10"), Decimal("-0"), Decimal("1e5"), Decimal("NaN"), fluent_number(3, minimumFractionDigits=2), fluent_number(2.5, style="percent"), fluent_number(Decimal("2.50"), useGrouping=False), r.randrange(-10 ** 6, 10 ** 6), r.random() * 1e6])
        f = conv_(v)
        kind = FluentInt if isinstance(v, int) else FluentFloat if isinstance(v, float) else FluentDecimal
        if not isinstance(f, kind):
            return f"{v!r} converts to {type(f).__name__}"
        if not (f == v or v != v):
            return f"{v!r} converts to {f!r}"
        if isinstance(v, Decimal) and Decimal(f).as_tuple() != v.as_tuple():
            return f"{v!r} converts to {Decimal(f)!r}"
        if isinstance(v, float) and repr(float(f)) != repr(float(v)):
            return f"{v!r} converts to {float(f)!r}"
        o = opts_of(f)
        w = opts_of(v) if isinstance(v, FluentNumber) else DEFAULTS
        if o != w:
            return f"{v!r} converts with options {o}"
        return None
    if k < 0.45:
        for v in ["s", "", None, object(), [1], {"a": 1}, FluentNone("x"), b"b"]:
            if conv_(v) is not v:
                return f"{v!r} is not passed through"
        return None
    loc = r.choice(LOCALES)
    L = babel.Locale.parse(loc.replace("-", "_"))
    if k < 0.6:
        v = r.choice([dtm.date(2020, 2, 29), dtm.date(1, 1, 1), dtm.date(r.randrange(1900, 2100), r.randrange(1, 13), r.randrange(1, 29)), fluent_date(dtm.date(2019, 3, 4), dateStyle="full")])
        f = conv_(v)
        if not isinstance(f, FluentDate) or isinstance(f, dtm.datetime) or dtm.date(f.year, f.month, f.day) != dtm.date(v.year, v.month, v.day):
            return f"{v!r} converts to {f!r}"
        o = {"dateStyle": r.choice([None, "full", "long", "medium", "short"])}
        want = {"dateStyle": v.options.dateStyle} if hasattr(v, "options") else {}
        if getattr(f.options, "dateStyle") != want.get("dateStyle"):
            return f"{v!r} converts with {f.options}"
        if o["dateStyle"]:
            want.update(o)
            f = fluent_date(f, **o)
        got = f.format(L)
        if got != ref_date(v, want, loc):
            return f"{v!r} {want} in {loc} formats to {got!r}, expected {ref_date(v, want, loc)!r}"
        return None
    v = rand_dt(r)
    pre = {}
    if g.ch(0.3):
        pre = {k2: r.choice(x) for k2, x in (("dateStyle", ["full", "short"]), ("timeStyle", ["long", "short"]), ("timeZone", ["UTC", "Asia/Tokyo"])) if g.ch(0.5)}
        w = fluent_date(v, **pre)
    else:
        w = v
    f = conv_(w)
    if not isinstance(f, FluentDateTime):
        return f"{w!r} converts to {type(f).__name__}"
    for a in ("year", "month", "day", "hour", "minute", "second", "microsecond", "fold"):
        if getattr(f, a) != getattr(v, a):
            return f"{v!r} (fold={v.fold}) converts to {f!r} (fold={f.fold})"
    if f.tzinfo is not v.tzinfo or f.utcoffset() != v.utcoffset():
        return f"{v!r} converts to {f!r} with another offset"
    for k2 in ("dateStyle", "timeStyle", "timeZone"):
        if getattr(f.options, k2) != pre.get(k2):
            return f"{v!r} {pre} converts with {f.options}"
    o = {k2: r.choice(x) for k2, x in (("dateStyle", ["full", "long", "medium", "short"]), ("timeStyle", ["full", "long", "medium", "short"]), ("timeZone", ["UTC", "America/New_York", "Asia/Kolkata", "Europe/Berlin"])) if g.ch(0.6)}
    want = {**pre, **o}
    h = fluent_date(f, **o)
    got = h.format(L)
    exp = ref_date(v, want, loc)
    if got != exp:
        return f"{v!r} (fold={v.fold}) {want} in {loc} formats to {got!r}, expected {exp!r}"
    src = "m = { DATETIME($d" + "".join(f', {a}: "{b}"' for a, b in o.items()) + ") }\n"
    b = FluentBundle([loc], use_isolating=False)
    b.add_resource(FluentResource(src))
    got, es = b.format_pattern(b.get_message("m").value, {"d": w})
    if got != exp or es:
        return f"{quote(src)} of {v!r} {pre} in {loc} formats to {got!r} {es}, expected {exp!r}"
    return None


# ------------------------------------------------------------ C23
def chk_C23(g):
    r = g.r
    base = tempfile.mkdtemp(prefix="vf23")
    try:
        loc = r.choice(["en-US", "fr", "x{y}"[:1], "de"])
        form = r.choice(["root", "id", "both", "none"])
        nr = r.choice([1, 1, 2, 3])
        roots = [os.path.join(base, "r%d" % i, "{locale}" if form in ("root", "both") else "fix") for i in range(nr)]
        rids = [("{locale}/" if form in ("id", "both") else "") + n for n in r.sample(["a.ftl", "b.ftl", "sub/c.ftl", "d.ftl"], r.choice([0, 1, 2, 3]))]
        if g.ch(0.1) and rids:
            rids.append(rids[0])
        exp = []
        for i, root in enumerate(roots):
            got = []
            for rid in dict.fromkeys(rids):
                p = os.path.join(root, rid).replace("{locale}", loc)
                kind = r.random()
                if kind < 0.6:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    src = r.choice([f"k{i} = é {rid}\n".replace("{locale}", ""), "", "junk\n", f"k = {i}\r\n# c\r\n", "\ufeffa = b\n", "a = b\n\nc = d"])
                    with open(p, "w", encoding="utf-8", newline="") as f:
                        f.write(src)
                elif kind < 0.7:
                    os.makedirs(p, exist_ok=True)
            for rid in rids:
                p = os.path.join(root, rid).replace("{locale}", loc)
                if os.path.isfile(p):
                    with open(p, "rb") as f:
                        got.append(f.read().decode("utf-8"))
            if got:
                exp.append(got)
        # files of another locale must not be picked up
        for root in roots:
            if form in ("root", "both") and g.ch(0.5):
                os.makedirs(root.replace("{locale}", "zz"), exist_ok=True)
                open(os.path.join(root.replace("{locale}", "zz"), "a.ftl"), "w").write("zz = 1\n")
        arg = roots[0] if nr == 1 and g.ch(0.5) else roots
        ld = FluentResourceLoader(arg)
        for _ in range(2):
            try:
                res = [[dump(x) for x in l] for l in ld.resources(loc, rids)]
            except Exception as e:
                return f"roots={roots} ids={rids} locale={loc}: raised {e!r}"
            want = [[dump(parse(s)) for s in l] for l in exp]
            if res != want:
                return f"roots={roots} ids={rids} locale={loc}: got {[len(l) for l in res]} resources per root, expected {[len(l) for l in want]} (or other content)"
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return None
