"""Values, environment and specification of the resolver (fluent.runtime).

A resolver call x(env) is specified as a function of the node and of the
state of the environment: the errors so far, the number of parts so far, the
patterns being formatted, the arguments in scope and whether a missing
argument is reported.

  EV  value        EE  errors afterwards        EP  parts afterwards

Every class's __call__ is verified against its own equation for these."""
import z3
from engine.contract import *
from engine.interp import *
from engine.interp import MISSING
from engine.sym import *
from engine.calls import models
from .grammar import If, is_, fld

RM = "fluent.runtime.resolver"
TM = "fluent.runtime.types"
BM = "fluent.runtime.bundle"
UM = "fluent.runtime.utils"
EM = "fluent.runtime.errors"
IV = z3.IntVal
MAX_PARTS, MAX_LEN = 1000, 2500

# The value depends on the patterns being formatted and the scope only, the
# errors and parts on what there was before as well.
_EV = uf("EV", U, U, U, B, U)
_EE = uf("EE", U, U, U, U, B, U)
_EP = uf("EP", U, I, U, U, B, I)


def EV(n, er, pc, ac, ar, fl):
    return _EV(n, ac, ar, fl)


def EE(n, er, pc, ac, ar, fl):
    return _EE(n, er, ac, ar, fl)


def EP(n, er, pc, ac, ar, fl):
    return _EP(n, pc, ac, ar, fl)


PV = uf("PV", U, U)                  # value of a node that does not look at the environment
FMT, FMTX = uf("FMT", U, U), uf("FMTX", U, U)      # value.format(locale): text, or the exception it raises
depth = uf("depth", U, I)
room = uf("room", U, I)              # number of patterns of the bundle not being formatted
isk = {n: uf("is_" + n, U, B) for n in ("str", "FluentType", "FluentNone", "int", "float", "Decimal", "FluentInt", "FluentFloat", "FluentDecimal",
                                        "FluentNumber", "FluentDateType", "datetime", "date", "bool", "FluentDate", "FluentDateTime")}
PURE = ("TextElement", "StringLiteral", "NumberLiteral", "Identifier")
PATTERN = ["Pattern", "NeverIsolatingPlaceable", "TextElement", "StringLiteral"]
INLINE = ["StringLiteral", "NumberLiteral", "MessageReference", "TermReference", "VariableReference", "FunctionReference", "Placeable"]
EXPR = INLINE + ["SelectExpression"]


def rcls(E, n):
    return E.module(RM).env[n]


def kinds(E, t):
    """what the classes of a value imply"""
    k = isk
    E.once(("kinds", t.get_id()), lambda: [
        z3.Implies(k["FluentNone"](t), k["FluentType"](t)), z3.Implies(k["FluentNumber"](t), k["FluentType"](t)),
        z3.Implies(k["FluentDateType"](t), k["FluentType"](t)),
        k["FluentInt"](t) == z3.And(k["FluentNumber"](t), k["int"](t)),
        k["FluentFloat"](t) == z3.And(k["FluentNumber"](t), k["float"](t)),
        k["FluentDecimal"](t) == z3.And(k["FluentNumber"](t), k["Decimal"](t)),
        z3.Implies(k["FluentNumber"](t), z3.Or(k["int"](t), k["float"](t), k["Decimal"](t))),
        z3.Implies(k["FluentNone"](t), z3.Not(z3.Or(k["int"](t), k["float"](t), k["Decimal"](t), k["FluentNumber"](t), k["FluentDateType"](t), k["date"](t)))),
        z3.Implies(k["str"](t), z3.Not(z3.Or(k["FluentType"](t), k["int"](t), k["float"](t), k["Decimal"](t), k["date"](t)))),
        z3.Not(z3.And(k["int"](t), k["float"](t))), z3.Not(z3.And(k["int"](t), k["Decimal"](t))), z3.Not(z3.And(k["float"](t), k["Decimal"](t))),
        z3.Implies(k["bool"](t), k["int"](t)), z3.Implies(k["datetime"](t), k["date"](t)),
        z3.Implies(k["date"](t), z3.Not(z3.Or(k["int"](t), k["float"](t), k["Decimal"](t)))),
        z3.Implies(k["FluentDateType"](t), k["date"](t)), k["FluentDateTime"](t) == z3.And(k["FluentDateType"](t), k["datetime"](t)),
        z3.Implies(k["FluentDate"](t), z3.And(k["FluentDateType"](t), k["date"](t))),
        z3.Implies(z3.Or(*[k[n](t) for n in k]), t != NONE)])


def kind(E, n, t):
    kinds(E, t)
    return isk[n](t)


def val(E, t, k="value"):
    """a value whose class is only known through isk"""
    kinds(E, t)
    return SVal(t, k)


def num(E, t):
    return z3.Or(kind(E, "int", t), kind(E, "float", t), kind(E, "Decimal", t))


# ---------------------------------------------------------------- terms of what the resolver creates
def none_(E, name):
    """FluentNone(name)"""
    c = E.module(TM).env["FluentNone"]
    o = Obj(c)
    o.fields = {"name": name}
    return vt(E, o)


def vt(E, v):
    """term of a value, with what its class implies"""
    t = E.term(v)
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.term is None:
        names = {getattr(c, "name", getattr(c, "__name__", "")) for c in v.cls.mro()}
        kinds(E, t)
        E.once(("cls", t.get_id()), lambda: [isk[n](t) == (n in names) for n in isk])
        if v.cls.name == "FluentNone":
            nm = E.getfield(v, "name")
            nt = E.term(nm)
            E.once(("fmtnone", t.get_id()), lambda: [FMTX(t) == NONE, FMT(t) == If(z3.Or(nt == NONE, nt == E.litterm("")), E.litterm("???"), nt)])
    elif is_strv(v):
        kinds(E, t)
        E.add(isk["str"](t))
    return t


def error(E, cls, *text):
    m = EM
    c = E.module(m).env[cls]
    o = Obj(c)
    o.fields = {"args": (E.cat_all(text) if len(text) != 1 else text[0],)}
    return E.term(o)


def cat_all(E, xs):
    r = ""
    for x in xs:
        r = E.cat(r, x)
    return r


Full.cat_all = cat_all


# ---------------------------------------------------------------- joined texts
def joined(E, l):
    E.once(("joined nil",), lambda: [uf("join", U, U, U)(E.litterm(""), nil) == E.litterm("")])
    return uf("join", U, U, U)(E.litterm(""), l)


def cat2(E, t, u):
    """concatenation of two texts, with what the engine knows about it"""
    return E.sterm(SStr(Op(t), Op(u)))


def joined_snoc(E, l, x):
    """a list with one more text; it joins to one more text"""
    r = E.mk_snoc(l, x)
    E.once(("joined", r.get_id()), lambda: [joined(E, r) == cat2(E, joined(E, l), x)])
    return r


# ---------------------------------------------------------------- the environment
def anyval(E, t, k=None):
    return val(E, t)


def mkenv(E):
    m = E.module(RM).env
    c = Obj(E.module(BM).env["FluentBundle"])
    c.fields = {"use_isolating": SBool(E.fresh("use_isolating", B)), "_functions": SDict((), E.fresh("functions", U), function),
                "_babel_locale": SVal(E.fresh("locale", U), "locale"), "_plural_form": SVal(E.fresh("plural", U), "plural"),
                "_ordinal_form": SVal(E.fresh("ordinal", U), "plural")}
    cur = Obj(m["CurrentEnvironment"])
    cur.fields = {"args": SDict((), E.fresh("args", U), anyval), "error_for_missing_arg": SBool(E.fresh("report", B))}
    env = Obj(m["ResolverEnvironment"])
    p = E.fresh("part_count")
    E.add(p >= 0)
    er = SList((), E.fresh("errors", U))
    E.lterm(er)
    env.fields = {"context": c, "errors": er, "part_count": SInt(p), "active_patterns": SSet((), E.fresh("active", U)), "current": cur}
    for o in (c, cur, env):
        o.partial = True
    return env


def state(E, env):
    cur = E.getfield(env, "current")
    f = E.getfield(cur, "error_for_missing_arg")
    return [E.term(E.getfield(env, "errors")), zi(E.getfield(env, "part_count")), E.setterm(E.getfield(env, "active_patterns")),
            E.term(E.getfield(cur, "args")), f.e if isinstance(f, SBool) else z3.BoolVal(bool(f))]


def seterrors(E, env, t):
    l = E.getfield(env, "errors")
    E.logwrite(l, "items")
    l.term, l.items, l.memo = z3.simplify(t), [], {}
    E.lterm(l)


def raised(E):
    """something called by the function under verification raised"""
    E.ghost["callee raised"] = True


# ---------------------------------------------------------------- schemas of the compiled tree
def rnode(E, t, names):
    m = E.module(RM).env
    E.add(t != NONE)
    o = Obj(m[names[0]] if len(names) == 1 else None, t)
    if len(names) > 1:
        o.cands = [m[n] for n in names]
        E.add(z3.Or(*[cls_of(t) == class_index(n) for n in names]))
    else:
        E.add(cls_of(t) == class_index(names[0]))
    return o


def RN(*names):
    return lambda E, t, o: rnode(E, t, list(names))


def opt(f):
    def g(E, t, o):
        if E.branch(t == NONE):
            return None
        return f(E, t, o)
    return g


def rlist(*names):
    def g(E, t, o):
        l = SList((), t, None, lambda E2, x: rnode(E2, x, list(names)))
        E.lterm(l)
        return l
    return g


def rdict(*names):
    return lambda E, t, o: SDict((), t, lambda E2, x, k: rnode(E2, x, list(names)))


def idname(E, t, o):
    """an identifier: no dot, no leading dash, not empty (C03)"""
    E.atom_term(Op(t))
    dot, dash = E.litterm("."), E.litterm("-")
    E.once(("idname", t.get_id()), lambda: [z3.Not(uf("contains", U, U, B)(t, dot)), uf("charat", U, I, I)(t, z3.IntVal(0)) != 45, t != NONE, ulen(t) >= 1])
    return SStr(Op(t))


def string(E, t, o):
    E.atom_term(Op(t))
    return SStr(Op(t))


def boolean(E, t, o):
    return SBool(t == TRUE)


def fnum(E, t, o):
    v = val(E, t)
    E.add(isk["FluentNumber"](t))
    return v


SCHEMAS = {
    "Message": dict(id=RN("Identifier"), value=opt(RN(*PATTERN)), attributes=rdict(*PATTERN)),
    "Term": dict(id=RN("Identifier"), value=opt(RN(*PATTERN)), attributes=rdict(*PATTERN)),
    "Pattern": dict(elements=rlist("TextElement", "StringLiteral", "Placeable")),
    "TextElement": dict(value=string), "StringLiteral": dict(value=string), "NumberLiteral": dict(value=fnum),
    "Placeable": dict(expression=RN(*EXPR)), "NeverIsolatingPlaceable": dict(expression=RN(*EXPR)),
    "MessageReference": dict(id=RN("Identifier"), attribute=opt(RN("Identifier"))),
    "TermReference": dict(id=RN("Identifier"), attribute=opt(RN("Identifier")), arguments=opt(RN("CallArguments"))),
    "VariableReference": dict(id=RN("Identifier")),
    "FunctionReference": dict(id=RN("Identifier"), arguments=RN("CallArguments")),
    "SelectExpression": dict(selector=RN(*INLINE), variants=rlist("Variant")),
    "CallArguments": dict(positional=rlist(*INLINE), named=rlist("NamedArgument")),
    "Variant": dict(key=RN("Identifier", "NumberLiteral"), value=RN(*PATTERN), default=boolean),
    "NamedArgument": dict(name=RN("Identifier"), value=RN("NumberLiteral", "StringLiteral")),
    "Identifier": dict(name=idname),
}


# ---------------------------------------------------------------- hooks: values of unknown class
def isinst_hook(E, v, c):
    if isinstance(c, Ext):
        n = c.path.rpartition(".")[2]
        if n not in isk:
            return None
        if isinstance(v, SVal):
            return kind(E, n, v.t)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            return any(getattr(b, "path", "").endswith("." + n) for b in v.cls.mro())
        return False
    n = c.name if isinstance(c, ClassVal) else c.__name__
    if isinstance(v, SVal) and v.kind == "value" and n in isk:
        return kind(E, n, v.t)
    return None


def attr_hook(E, o, name):
    if isinstance(o, SVal) and o.kind == "value":
        if name == "format":
            return Native("format", lambda E2, a, k: do_format(E2, o, a, k))
        if name == "options":
            return SVal(uf("options", U, U)(o.t), "options")
    if isinstance(o, SVal) and o.kind == "options":
        t = uf("opt_" + name, U, U)(o.t)
        return SVal(t, "option")
    return None


def anyexc(E, name, base=Exception):
    """an exception of unknown class below base"""
    t = E.fresh(name, U)
    E.add(t != NONE)
    o = Obj(base, t)
    o.open = frozenset()
    return o


def do_format(E, o, a, k):
    """x.format(locale): a text, or any exception"""
    if E.branch(FMTX(o.t) == NONE):
        t = FMT(o.t)
        E.atom_term(Op(t))
        return SStr(Op(t))
    x = Obj(Exception, FMTX(o.t))
    x.open = frozenset()
    raise PyRaise(x)


def function(E, t, k):
    """a function of the bundle; None is none"""
    E.add(t != NONE)
    return SVal(t, "function")


def call_hook(E, f, args, kw):
    if f.kind == "plural":
        v = E.term(args[0])
        # plural rules fail on infinities and not-a-number only
        x = uf("plural_fails", U, U, B)(f.t, v)
        if E.branch(x):
            c = (ArithmeticError, ValueError)[E.choose(2)]
            o = Obj(c, E.fresh("pluralerror", U))
            raise PyRaise(o)
        t = uf("plural", U, U, U)(f.t, v)
        kinds(E, t)
        E.add(isk["str"](t))
        E.atom_term(Op(t))
        return [SStr(Op(t))]
    if f.kind == "function":
        at = args_term(E, args)
        kt = kwargs_term(E, kw)
        x = uf("FNX", U, U, U, U)(f.t, at, kt)
        if E.branch(x == NONE):
            t = uf("FN", U, U, U, U)(f.t, at, kt)
            v = val(E, t)
            # functions return strings or Fluent values (C12)
            E.add(z3.Or(isk["str"](t), isk["FluentType"](t)))
            return [v]
        o = Obj(Exception, x)
        o.open = frozenset()
        raise PyRaise(o)
    return None


def args_term(E, args):
    if len(args) == 1 and isinstance(args[0], StarArgs):
        return E.lterm(args[0].l)
    return E.lterm(SList(list(args)))


def kwargs_term(E, kw):
    if isinstance(kw, SDict):
        return E.dterm(kw)
    if "**" in kw:
        return E.dterm(kw["**"])
    return E.dterm(SDict([[k, v] for k, v in kw.items()]))


def len_hook(E, v):
    if isinstance(v, SVal) and v.kind == "value":
        if E.valid(kind(E, "str", v.t)):
            return mki(ulen(v.t))
    return None


def type_hook(E, v):
    return SVal(uf("type", U, U)(v.t), "type")


def str_hook(E, v):
    if isinstance(v, SVal):
        t = uf("str", U, U)(v.t)
        E.atom_term(Op(t))
        return SStr(Op(t))
    return None


def eq_hook(E, a, b):
    """== of values: equal strings, equal numbers; may fail for signalling NaNs"""
    ks = [x for x in (a, b) if isinstance(x, SVal) and x.kind == "value"]
    if ks:
        if len(ks) == 1 and (a is None or b is None):
            # no string or number equals None
            if E.branch(z3.Or(kind(E, "str", vt(E, ks[0])), kind(E, "FluentNumber", vt(E, ks[0])), vt(E, ks[0]) == NONE)):
                return vt(E, ks[0]) == NONE
        x, y = vt(E, a), vt(E, b)
        if not (E.valid(kind(E, "str", x)) or E.valid(kind(E, "str", y))):
            if E.branch(z3.And(z3.Not(kind(E, "str", x)), z3.Not(kind(E, "str", y)), E.pyeq(x, y, "eq_fails"))):
                raise PyRaise(Obj(ArithmeticError, E.fresh("eqerror", U)))
        return E.pyeq(x, y)
    if any(isinstance(x, SVal) and x.kind == "option" for x in (a, b)):
        return E.term(a) == E.term(b)
    return None


def install(reg):
    for n, s in SCHEMAS.items():
        reg.schemas[RM + ":" + n] = s
    reg.isinst_hook, reg.attr_hook, reg.call_hook = isinst_hook, attr_hook, call_hook
    reg.len_hook, reg.type_hook, reg.eq_hook, reg.str_hook = len_hook, type_hook, eq_hook, str_hook
