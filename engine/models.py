"""Models of Python builtins and of the library functions the code uses.
import os
Everything here is trusted (listed in the evidence); tools/xcheck.py compares
the models with CPython."""
import builtins
import datetime
import decimal
import string
import z3
from .interp import *
from .interp import _Ret, _Brk, _Cont
from . import interp
from .sym import *

TYPEMAP = {
    "decimal.Decimal": decimal.Decimal, "datetime.date": datetime.date, "datetime.datetime": datetime.datetime,
    "contextlib.AbstractContextManager": object,
}
EXT_CALLS = {}


def ext(path):
    if path in TYPEMAP:
        return TYPEMAP[path]
    for p in ("typing.", "typing_extensions."):
        if path == p + "NamedTuple":
            return Ext(path)
    if path in ("contextlib.contextmanager",):
        return Native("contextmanager", lambda E, a, k: GenFactory_(a[0]))
    if path == "float.inf":
        return float("inf")
    if path == "math.inf":
        return float("inf")
    return Ext(path)


def GenFactory_(f):
    from .calls import GenFactory
    return GenFactory(f)


def call_ext(E, f, args, kw):
    h = EXT_CALLS.get(f.path)
    if h:
        return h(E, args, kw)
    h = E.s.registry.ext.get(f.path)
    if h:
        return h(E, args, kw)
    if f.path.startswith("typing"):
        return f
    raise Unsupported("call of external %s" % f.path)


def extcall(path):
    def deco(f):
        EXT_CALLS[path] = f
        return f
    return deco


@extcall("typing.cast")
def _cast(E, a, k):
    return a[1]


# ---------------------------------------------------------------- attr.s
@extcall("attr.s")
def _attrs(E, a, k):
    if not a:
        return Native("attr.s", lambda E, a, k: _attrs(E, a, k))
    c = a[0]
    fs = []
    for b in reversed(c.mro()):
        if isinstance(b, ClassVal):
            for n in b.order if b is c else []:
                v = b.attrs.get(n)
                if isinstance(v, Obj) and v.cls is ATTRIB:
                    fs.append(dict(v.fields, name=n))
            if b is not c and b.attrib:
                fs += b.attrib
    for f in fs:
        if f["name"] in c.attrs and isinstance(c.attrs[f["name"]], Obj) and c.attrs[f["name"]].cls is ATTRIB:
            del c.attrs[f["name"]]
    c.attrib = fs
    return c


class _A:
    pass


ATTRIB = _A


@extcall("attr.ib")
def _attrib(E, a, k):
    return Obj(ATTRIB, None, {"default": k.get("default", MISSING), "factory": k.get("factory"), "init": k.get("init", True), "validator": k.get("validator")})


@extcall("attr.validators.in_")
def _vin(E, a, k):
    opts = a[0]

    def check(E2, args, kw):
        v = args[2]
        if not E2.branch(E2.contains(opts, v)):
            E2.raise_(ValueError, "not in options")
    return Native("validator", check)


@extcall("attr.evolve")
def _evolve(E, a, k):
    o = a[0]
    E.resolve_cls(o)
    vals = {}
    for f in o.cls.attrib:
        if f["init"]:
            v = E.getfield(o, f["name"])
            vals[f["name"]] = v
    vals.update(k)
    return E.construct(o.cls, [], vals)


# ---------------------------------------------------------------- builtins
def b_len(E, a, k):
    v = a[0]
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    if isinstance(v, SStr):
        return mki(E.slen(v))
    if isinstance(v, OChar):
        return len(E.char_str(v)) if isinstance(E.char_str(v), str) else 1 if E.char_str(v) else E.raise_(TypeError, "len")
    if isinstance(v, SList):
        return mki(E.llen(v))
    if isinstance(v, SSet) and v.base is None:
        return len(v.items)
    if isinstance(v, SSet):
        return SInt(uf("setsize", U, I)(E.setterm(v)))
    if isinstance(v, SDict) and v.base is None and all(x is not DEL for _, x in v.items):
        return len(v.items)
    if v is None or isinstance(v, (int, SInt, bool, SBool)):
        E.raise_(TypeError, "object has no len()")
    h = E.s.registry.len_hook
    r = h(E, v) if h else None
    if r is not None:
        return r
    raise Unsupported("len of %r" % (v,))


def isinst(E, v, c):
    """bool or z3 Bool"""
    if isinstance(c, tuple):
        return Or(*[isinst(E, v, x) for x in c])
    if isinstance(c, Ext):
        h = E.s.registry.isinst_hook
        r = h(E, v, c) if h else None
        if r is None:
            raise Unsupported("isinstance with %r" % c)
        return r
    if isinstance(v, Obj):
        if v.cands and v.term is not None:
            yes = [x for x in v.cands if issub(x, c)]
            no = [x for x in v.cands if not issub(x, c)]
            if not no:
                return True
            if not yes:
                return False
            if len(yes) <= len(no):
                return Or(*[cls_of(v.term) == class_index(E.mkname(x)) for x in yes])
            return Not(Or(*[cls_of(v.term) == class_index(E.mkname(x)) for x in no]))
        E.resolve_cls(v)
        if isinstance(v.cls, Ext):
            return False if isinstance(c, ClassVal) else E.unsup("isinstance")
        return issub(v.cls, c)
    if isinstance(v, OChar):
        return z3.simplify(v.c >= 0) if c is str else z3.simplify(v.c == -1) if c is type(None) else False
    t = {SInt: int, SBool: bool, SStr: str, SList: list, SDict: dict, SSet: set}.get(type(v))
    if isinstance(v, SList) and v.kind == "tuple":
        t = tuple
    if t is None and (v is None or isinstance(v, (bool, int, float, str, tuple, bytes))):
        t = type(v)
    if t is not None:
        return issubclass(t, pytype(c))
    if isinstance(v, (ClassVal, type)):
        return c is type
    if isinstance(v, SVal):
        h = E.s.registry.isinst_hook
        r = h(E, v, c) if h else None
        if r is not None:
            return r
    if isinstance(v, (Func, Native, Bound)):
        return False
    raise Unsupported("isinstance(%r, %r)" % (v, c))


def b_isinstance(E, a, k):
    r = isinst(E, a[0], a[1])
    if not isinstance(r, bool) and isinstance(a[0], Obj) and a[0].cands:
        # settle the class set
        d = E.branch(r)
        c = a[1] if isinstance(a[1], tuple) else (a[1],)
        a[0].cands = [x for x in a[0].cands if any(issub(x, y) for y in c) == d]
        if len(a[0].cands) == 1:
            a[0].cls = a[0].cands[0]
            E.add(cls_of(a[0].term) == class_index(E.mkname(a[0].cls)))
            a[0].cands = None
        return d
    return r if isinstance(r, bool) else mkb(r)


def b_issubclass(E, a, k):
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(issub(a[0], c) for c in cs)


def b_type(E, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return E.resolve_cls(v)
    if isinstance(v, OChar):
        v = E.char_str(v)
    if isinstance(v, SVal):
        h = E.s.registry.type_hook
        r = h(E, v) if h else None
        if r is not None:
            return r
        raise Unsupported("type of %r" % v)
    t = {SInt: int, SBool: bool, SStr: str, SList: list, SDict: dict, SSet: set}.get(type(v))
    return t or type(v)


def b_ord(E, a, k):
    v = a[0]
    if isinstance(v, str):
        if len(v) != 1:
            E.raise_(TypeError, "ord() expected a character")
        return ord(v)
    if isinstance(v, OChar):
        if not E.branch(v.c >= 0):
            E.raise_(TypeError, "ord() expected string of length 1")
        return mki(v.c)
    if isinstance(v, SStr):
        ps = E.norm(v)
        if len(ps) == 1 and isinstance(ps[0], Ch):
            return mki(ps[0].c)
        raise Unsupported("ord of a string")
    E.raise_(TypeError, "ord() expected string of length 1")


def b_chr(E, a, k):
    v = a[0]
    if isinstance(v, int):
        try:
            return chr(v)
        except (ValueError, OverflowError):
            E.raise_(ValueError, "chr() arg not in range")
    if E.branch(Or(zi(v) < 0, zi(v) > 0x10FFFF)):
        E.raise_(ValueError, "chr() arg not in range")
    return SStr(Ch(zi(v)))


def b_minmax(name):
    def f(E, a, k):
        vs = a if len(a) > 1 else E.concrete_items(a[0])
        if k:
            raise Unsupported("min key")
        r = vs[0]
        for v in vs[1:]:
            if isinstance(r, float) or isinstance(v, float):
                if isinstance(r, float) and isinstance(v, float):
                    r = min(r, v) if name == "min" else max(r, v)
                    continue
                x, y = (r, v) if isinstance(r, float) else (v, r)
                if x == float("inf"):
                    r = y if name == "min" else x
                    continue
                raise Unsupported("min of float")
            if isinstance(r, int) and isinstance(v, int):
                r = min(r, v) if name == "min" else max(r, v)
            else:
                x, y = zi(r), zi(v)
                r = mki(z3.If(y < x, y, x) if name == "min" else z3.If(y > x, y, x))
        return r
    return f


def b_range(E, a, k):
    if all(isinstance(x, int) for x in a):
        return tuple(range(*a))
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range")
    n = z3.simplify(z3.If(zi(hi) > zi(lo), zi(hi) - zi(lo), z3.IntVal(0)))
    t = E.fresh("range", U)
    E.add(llen(t) == n)
    l = SList((), t)
    base = zi(lo)
    nth = uf("nth", U, I, U)

    def shape(E2, tt):
        # nth(range, i) = lo + i
        i = tt.arg(1)
        return mki(base + i)
    l.shape = shape
    if isinstance(lo, int) and lo == 0:
        l.bound = hi
    return l


def b_list(E, a, k):
    if not a:
        return SList()
    v = a[0]
    if isinstance(v, SList):
        r = SList(v.items, v.term, v.n, v.shape)
        r.memo = dict(v.memo)
        return r
    if isinstance(v, GenCall):
        if v.genexp is not None:
            import ast
            n = ast.ListComp(elt=v.genexp.elt, generators=v.genexp.generators)
            ast.copy_location(n, v.genexp)
            return E.comp(n, v.frame, "list")
    if isinstance(v, View):
        return v.as_list(E)
    if isinstance(v, SVal) and v.kind == "tuple":
        l = SList((), v.t)
        E.lterm(l)
        return l
    h = E.s.registry.list_hook
    r = h(E, v) if h else None
    if r is not None:
        return r
    return SList(E.concrete_items(v))


def b_tuple(E, a, k):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, (SList, GenCall)):
        r = b_list(E, a, k)
        if r.term is None:
            return tuple(r.items)
        r.kind = "tuple"
        return r
    return tuple(E.concrete_items(v))


def b_set(E, a, k):
    s = SSet()
    if a:
        for x in E.concrete_items(a[0].as_list(E) if isinstance(a[0], View) else a[0]):
            s.items.append(x)
    return s


def b_dict(E, a, k):
    d = SDict()
    if a:
        v = a[0]
        if isinstance(v, SDict):
            d.base, d.shape, d.items = v.base, v.shape, [list(x) for x in v.items]
        elif isinstance(v, GenCall) and v.genexp is not None and isinstance(v.genexp.elt, ast.Tuple) and len(v.genexp.elt.elts) == 2:
            n = ast.DictComp(key=v.genexp.elt.elts[0], value=v.genexp.elt.elts[1], generators=v.genexp.generators)
            ast.copy_location(n, v.genexp)
            d = E.comp(n, v.frame, "dict")
        else:
            for it in E.concrete_items(v):
                x = E.concrete_items(it)
                E.dict_set(d, x[0], x[1])
    for n, v in k.items():
        if n == "**":
            E.dict_merge(d, v)
            continue
        E.dict_set(d, n, v)
    return d


def b_str(E, a, k):
    return E.str_of(a[0]) if a else ""


def str_of(E, v):
    if isinstance(v, OChar):
        v = E.char_str(v)
    if is_strv(v):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (int, float)) or v is None:
        return str(v)
    if isinstance(v, SInt):
        t = uf("itoa", I, U)(v.e)
        E.once(("itoa", t.get_id()), lambda: [ulen(t) >= 1])
        return SStr(Op(t))
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        f, o = v.cls.lookup("__str__")
        if isinstance(f, Func):
            return E.call(Bound(v, f, o.key + ".__str__"), [], {})
    h = E.s.registry.str_hook
    r = h(E, v) if h else None
    if r is not None:
        return r
    t = uf("str", U, U)(E.term(v))
    return SStr(Op(t))


Engine.str_of = str_of


def b_vars(E, a, k):
    return E.vars_of(a[0])


def b_getattr(E, a, k):
    if not isinstance(a[1], str):
        h = E.s.registry.getattr_hook
        r = h(E, a) if h else None
        if r is not None:
            return r[0]
        raise Unsupported("getattr with a symbolic name")
    v = E.attr_or_missing(a[0], a[1])
    if v is MISSING:
        if len(a) > 2:
            return a[2]
        E.raise_(AttributeError, a[1])
    return v


def b_hasattr(E, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("hasattr with a symbolic name")
    return E.attr_or_missing(a[0], a[1]) is not MISSING


def b_setattr(E, a, k):
    if not isinstance(a[1], str):
        h = E.s.registry.setattr_sym_hook
        if h and h(E, a[0], a[1], a[2]):
            return
        raise Unsupported("setattr with a symbolic name")
    E.setattr(a[0], a[1], a[2])


def b_delattr(E, a, k):
    o, n = a
    if isinstance(o, Obj) and isinstance(n, str):
        if E.getfield(o, n) is MISSING:
            E.raise_(AttributeError, n)
        E.logwrite(o, n)
        if o.term is not None:
            sch = E.schema(o.cls)
            for x in sch or ():
                E.getfield(o, x)
            o.dirty = True
            o.__dict__["deleted"] = o.__dict__.get("deleted", ()) + (n,)
        del o.fields[n]
        return
    raise Unsupported("delattr")


def b_float(E, a, k):
    v = a[0] if a else 0.0
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            E.raise_(ValueError, "could not convert string to float")
    if isinstance(v, SStr):
        # total only for number syntax; the caller's contract says so
        h = E.s.registry.float_hook
        if h:
            r = h(E, v)
            if r is not None:
                return r
    raise Unsupported("float()")


def b_int(E, a, k):
    v = a[0] if a else 0
    if isinstance(v, (int, SInt)) and len(a) == 1:
        return v
    if isinstance(v, (bool, SBool)):
        return mki(zi(v))
    h = E.s.registry.int_hook
    if h:
        r = h(E, a)
        if r is not None:
            return r
    raise Unsupported("int()")


def b_bool(E, a, k):
    t = E.truth(a[0]) if a else False
    return t if isinstance(t, bool) else mkb(t)


def b_anyall(name):
    def f(E, a, k):
        class Stop(Exception):
            pass

        def hook(v):
            t = E.test(v)
            if t == (name == "any"):
                raise Stop()
        v = a[0]
        try:
            if isinstance(v, GenCall):
                E.run_gen(v, hook)
            elif isinstance(v, SList) and v.term is not None:
                raise Unsupported("any of a list")
            else:
                for x in E.concrete_items(v):
                    hook(x)
        except Stop:
            return name == "any"
        return name != "any"
    return f


def b_next(E, a, k):
    h = E.s.registry.next_hook
    if isinstance(a[0], GenCall) and a[0].genexp is not None:
        class Found(Exception):
            pass

        def first(v):
            out.append(v)
            raise Found()
        out = []
        try:
            E.run_gen(a[0], first)
        except Found:
            return out[-1]
        if len(a) > 1:
            return a[1]
        E.raise_(StopIteration, "")
    if h:
        return h(E, a)
    raise Unsupported("next")


def b_iter(E, a, k):
    raise Unsupported("iter")


def b_zip(E, a, k):
    if all(isinstance(x, tuple) or (isinstance(x, SList) and x.term is None) for x in a):
        return tuple(zip(*[E.concrete_items(x) for x in a]))
    ls = [b_list(E, [x], {}) if not isinstance(x, SList) else x for x in a]
    t = E.fresh("zip", U)
    n = E.llen(ls[0])
    for l in ls[1:]:
        m = E.llen(l)
        n = z3.If(m < n, m, n)
    E.add(llen(t) == n)
    r = SList((), t)

    def shape(E2, tt):
        i = tt.arg(1)
        return tuple(E2.seq_elem(l, i) for l in ls)
    r.shape = shape
    return r


class Enum:
    """enumerate(seq, start)"""
    def __init__(self, of, start):
        self.of, self.start = of, start

    def for_iter(self, E):
        v, start = self.of, self.start
        if hasattr(v, "for_iter"):
            v = v.for_iter(E)
        if isinstance(v, SList) and v.term is not None:
            t = E.fresh("enum", U)
            E.add(llen(t) == E.llen(v))
            r = SList((), t)
            r.shape = lambda E2, tt: (mki(tt.arg(1) + zi(start)), E2.seq_elem(v, tt.arg(1)))
            return r
        return SList([(mki(zi(start) + i), x) for i, x in enumerate(E.concrete_items(v))])


def b_enumerate(E, a, k):
    return Enum(a[0], a[1] if len(a) > 1 else k.get("start", 0))


def b_map(E, a, k):
    import ast
    # map(f, xs) as a generator expression
    f, xs = a
    fr = Frame(None, E.frames[-1].module if E.frames else None, E.frames[-1].func if E.frames else None)
    fr.vars["<f>"] = f
    fr.vars["<xs>"] = xs
    n = ast.parse("(F(x) for x in XS)", mode="eval").body
    n.elt.func.id = "<f>"
    n.generators[0].iter.id = "<xs>"
    for x in ast.walk(n):
        if hasattr(x, "lineno"):
            x.lineno = E.line
            x.col_offset = 900
    return GenCall(None, (), {}, fr, n)


def b_sum(E, a, k):
    acc = a[1] if len(a) > 1 else 0
    import ast
    for x in E.concrete_items(a[0]):
        acc = E.binop(ast.Add(), acc, x)
    return acc


def b_sorted(E, a, k):
    xs = E.concrete_items(a[0])
    if not k and (all(isinstance(x, str) for x in xs) or all(isinstance(x, int) for x in xs)):
        return SList(sorted(xs))
    return SList(sort_items(E, xs, k))


def b_reversed(E, a, k):
    v = a[0]
    if isinstance(v, View):
        v = v.as_list(E)
    return SList(E.concrete_items(v)[::-1])


def b_callable(E, a, k):
    v = a[0]
    if isinstance(v, (Func, Bound, Native, ClassVal, type)):
        return True
    if isinstance(v, Obj):
        E.resolve_cls(v)
        return isinstance(v.cls, ClassVal) and v.cls.lookup("__call__")[0] is not None
    if isinstance(v, SVal):
        return SBool(uf("callable", U, B)(v.t))
    return False


def b_classmethod(E, a, k):
    return Wrapped("classmethod", a[0])


BUILTINS = {}
for _n, _f in {"len": b_len, "isinstance": b_isinstance, "issubclass": b_issubclass, "ord": b_ord, "chr": b_chr, "min": b_minmax("min"), "max": b_minmax("max"),
               "range": b_range, "vars": b_vars, "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr, "delattr": b_delattr,
               "any": b_anyall("any"), "all": b_anyall("all"), "next": b_next, "iter": b_iter, "zip": b_zip, "enumerate": b_enumerate, "map": b_map, "sum": b_sum, "sorted": b_sorted, "reversed": b_reversed, "callable": b_callable,
               "property": lambda E, a, k: Wrapped("property", a[0]), "classmethod": b_classmethod, "staticmethod": lambda E, a, k: Wrapped("staticmethod", a[0])}.items():
    BUILTINS[_n] = Native(_n, _f)
for _t in (str, int, float, bool, list, tuple, dict, set, object, type, bytes):
    BUILTINS[_t.__name__] = _t
BUILTINS["NotImplemented"] = NotImplemented
CONS = {str: b_str, int: b_int, float: b_float, bool: b_bool, list: b_list, tuple: b_tuple, dict: b_dict, set: b_set}


def construct_builtin(E, c, args, kw):
    if isinstance(c, type) and issubclass(c, BaseException):
        return Obj(c, None, {"args": tuple(args)})
    if c is type:
        return b_type(E, args, kw)
    if c in CONS:
        return CONS[c](E, args, kw)
    if c is object:
        return Obj(object)
    h = E.s.registry.construct_hook
    r = h(E, c, args, kw) if h else None
    if r is not None:
        return r
    raise Unsupported("construction of %r" % (c,))


def builtin_new(E, c, args, kw):
    h = E.s.registry.new_hook
    r = h(E, c, args, kw) if h else None
    if r is not None:
        return r
    o = Obj(c)
    o.__dict__["new"] = True
    if issub(c, BaseException):
        o.fields["args"] = tuple(args)
    elif any(isinstance(b, type) and b is not object for b in c.mro()):
        raise Unsupported("construction of %s" % c.name)
    return o


def builtin_method(E, o, f, name):
    if isinstance(o, Obj) and issubclass(pytype(o.cls), BaseException):
        if name == "args":
            return o.fields.get("args", ())
        if name == "__init__":
            def init(E2, a, k):
                o.fields["args"] = tuple(a)
            return Native("__init__", init)
    h = E.s.registry.attr_hook
    r = h(E, o, name) if h else None
    if r is not None:
        return r
    raise Unsupported("builtin method %s" % name)


def class_attr(E, c, f, name):
    h = E.s.registry.attr_hook
    r = h(E, c, name) if h else None
    if r is not None:
        return r
    raise Unsupported("class attribute %s" % name)


def call_builtin(E, self_, f, args, kw):
    m = builtin_method(E, self_, f, f.name)
    return E.call(m, args, kw)


def type_attr(E, c, name):
    def f(E2, a, k):
        m = E2.attr(a[0], name)
        return E2.call(m, a[1:], k)
    if c in (str, list, dict, set, tuple):
        return Native("%s.%s" % (c.__name__, name), f)
    h = E.s.registry.attr_hook
    r = h(E, c, name) if h else None
    return r if r is not None else interp.MISSING


# ---------------------------------------------------------------- methods
class View:
    """dict views"""

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def as_list(self, E):
        d = self.d
        if d.base is not None:
            h = E.s.registry.dictview_hook
            r = h(E, d, self.kind) if h else None
            if r is not None:
                return r
            raise Unsupported("iteration over a symbolic dict")
        out = []
        for k, v in d.items:
            if v is DEL:
                raise Unsupported("view of a dict with deletions")
            out.append(k if self.kind == "keys" else v if self.kind == "values" else (k, v))
        return SList(out)

    def for_iter(self, E):
        return self.as_list(E)


def value_attr(E, o, name):
    if isinstance(o, OChar):
        o = E.char_str(o)
        if not is_strv(o):
            return interp.MISSING
    for t, tab in ((str, STR), (SStr, STR), (SList, LIST), (SDict, DICT), (SSet, SET), (View, {}), (tuple, TUPLE)):
        if isinstance(o, t):
            if name in tab:
                f = tab[name]
                return Native(name, lambda E2, a, k: f(E2, o, a, k))
            if t in (str, SStr) and hasattr(str, name):
                if isinstance(o, str):
                    return Native(name, lambda E2, a, k: conc(E2, o, name, a, k))
                raise Unsupported("str.%s" % name)
            if hasattr({SList: list, SDict: dict, SSet: set}.get(t, object), name):
                raise Unsupported("method %s" % name)
            return interp.MISSING
    if o is None or isinstance(o, (bool, int, float, SInt, SBool)):
        if isinstance(o, (int, float, SInt)) and hasattr(int, name):
            raise Unsupported("int.%s" % name)
        return interp.MISSING
    raise Unsupported("attribute %s of %r" % (name, o))


def conc(E, o, name, a, k):
    if all(isinstance(x, (str, int, bool, type(None), tuple)) for x in a) and not k:
        try:
            r = getattr(o, name)(*a)
        except Exception as e:
            E.raise_(type(e), *e.args)
        return SList(r) if isinstance(r, list) else r
    raise Unsupported("str.%s with symbolic arguments" % name)


def s_format(E, o, a, k):
    if not isinstance(o, str):
        h = E.s.registry.format_hook
        r = h(E, o, a, k) if h else None
        if r is not None:
            return r
        raise Unsupported("format of a symbolic template")
    out = ""
    n = 0
    for litr, field, spec, conv in string.Formatter().parse(o):
        out = E.cat(out, litr)
        if field is None:
            continue
        if spec or conv:
            raise Unsupported("format spec")
        if field == "":
            v = a[n]
            n += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            E.raise_(KeyError, field)
        out = E.cat(out, E.str_of(v))
    return out


def s_join(E, o, a, k):
    v = a[0]
    items = None
    if isinstance(v, GenCall):
        v = b_list(E, [v], {}) if v.genexp is not None else SList(E.concrete_items(v))
    if isinstance(v, View):
        v = v.as_list(E)
    if isinstance(v, SList) and v.term is not None:
        t = uf("join", U, U, U)
        tt = join_term(E, o, v)
        return tt
    out = ""
    for i, x in enumerate(E.concrete_items(v)):
        if isinstance(x, OChar):
            x = E.char_str(x)
        if isinstance(x, SVal):
            h = E.s.registry.strval_hook
            r = h(E, x) if h else None
            if r is not None:
                x = r
        if not is_strv(x):
            E.raise_(TypeError, "sequence item: expected str instance")
        if i:
            out = E.cat(out, o)
        out = E.cat(out, x)
    return out


def join_term(E, sep, l):
    """join of a list with a symbolic part: uninterpreted join of that part,
    unfolded over the concrete tail"""
    if sep != "" and not (isinstance(sep, str)):
        raise Unsupported("join")
    f = uf("join", U, U, U)
    E.lterm(l)
    base = f(E.litterm(sep), l.term)
    E.once(("join", base.get_id()), lambda: [ulen(base) >= 0, z3.Implies(llen(l.term) == 0, ulen(base) == 0)])
    h = E.s.registry.join_hook
    if h:
        h(E, sep, l)
    w = SStr(Op(base))
    first = None
    for i, x in enumerate(l.items):
        if not is_strv(x):
            if isinstance(x, OChar):
                x = E.char_str(x)
            if not is_strv(x):
                E.raise_(TypeError, "sequence item: expected str instance")
        if sep:
            if first is None:
                first = E.branch(llen(l.term) == 0)
                if first:
                    w = x
                    continue
            w = E.cat(E.cat(w, sep), x)
        else:
            w = E.cat(w, x)
    return w


def s_startswith(E, o, a, k):
    p = a[0]
    if isinstance(p, tuple):
        return mkb(Or(*[E.truth(s_startswith(E, o, [x], k)) for x in p]))
    if isinstance(o, str) and isinstance(p, str):
        return o.startswith(p)
    if isinstance(p, str):
        ps = E.norm(o)
        if not p:
            return True
        if ps and isinstance(ps[0], str):
            if len(ps[0]) >= len(p) or not p.startswith(ps[0][:len(p)]):
                return ps[0].startswith(p)
        if ps and isinstance(ps[0], Sl) and len(ps) == 1:
            s = ps[0]
            return mkb(And(s.b - s.a >= len(p), *[raw(s.a + i) == ord(c) for i, c in enumerate(p)]))
        if len(ps) == 1 and isinstance(ps[0], Op):
            t = E.atom_term(ps[0])
            return mkb(And(ulen(t) >= len(p), *[uf("charat", U, I, I)(t, z3.IntVal(i)) == ord(c) for i, c in enumerate(p)]))
    return SBool(uf("startswith", U, U, B)(E.sterm(o), E.sterm(p)))


def s_uf(name, res):
    def f(E, o, a, k):
        if k or not all(is_strv(x) or isinstance(x, int) or x is None for x in a):
            raise Unsupported("str.%s" % name)
        if isinstance(o, str) and all(isinstance(x, (str, int, type(None))) for x in a):
            return conc(E, o, name, a, k)
        ts = [E.sterm(o)] + [E.term(x) for x in a]
        t = uf("str." + name, *([U] * len(ts) + [res]))(*ts)
        if res is U:
            E.once(("op", t.get_id()), lambda: [ulen(t) >= 0])
            if name == "replace" and E.s.registry.replace_hook:
                E.s.registry.replace_hook(E, o, a, t)
            return SStr(Op(t))
        return SBool(t) if res is B else SInt(t)
    return f


def s_rfind(E, o, a, k):
    if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a):
        return conc(E, o, "rfind", a, k)
    ps = E.norm(o)
    if len(ps) == 1 and isinstance(ps[0], Sl) and ival(ps[0].a) == 0 and isinstance(a[0], str) and len(a[0]) == 1:
        lo = E.clamp(a[1] if len(a) > 1 else None, E.slen(o), z3.IntVal(0))
        hi = E.clamp(a[2] if len(a) > 2 else None, E.slen(o), E.slen(o))
        r = E.fresh("rfind")
        ch = ord(a[0])
        # r is the last position in [lo, hi) holding the character, or -1
        E.add(z3.Or(r == -1, z3.And(r >= lo, r < hi, raw(r) == ch)))
        E.ghost.setdefault("rfind", []).append((r, lo, hi, ch))
        for g in E.s.registry.rfind_hooks:
            g(E, r, lo, hi, ch)
        return SInt(r)
    return s_uf("rfind", I)(E, o, a, k)


STR = {"format": s_format, "join": s_join, "startswith": s_startswith, "rfind": s_rfind}
for _n in ("endswith", "isdigit", "isupper", "isalpha", "isalnum"):
    STR[_n] = s_uf(_n, B)
for _n in ("replace", "lower", "upper", "rstrip", "lstrip", "strip"):
    STR[_n] = s_uf(_n, U)


def s_find(E, o, a, k):
    if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a):
        return o.find(*a)
    h = E.s.registry.find_hook
    r = h(E, o, a[0], a[1:]) if h else None
    if r is not None:
        return r[0]
    return s_uf("find", I)(E, o, a, k)


STR["find"] = s_find


def s_split(E, o, a, k):
    if isinstance(o, str):
        return conc(E, o, "split", a, k)
    if len(a) == 1 and isinstance(a[0], str):
        t = uf("split", U, U, U)(E.sterm(o), E.litterm(a[0]))
        E.add(llen(t) >= 1)
        return SList((), t, None, lambda E2, x: (E2.once(("op", x.get_id()), lambda: [ulen(x) >= 0]), SStr(Op(x)))[1])
    raise Unsupported("split")


STR["split"] = s_split


def s_partition(E, o, a, k):
    raise Unsupported("partition of a symbolic string")


def s_rpartition(E, o, a, k):
    if isinstance(o, str) and isinstance(a[0], str):
        return tuple(o.rpartition(a[0]))
    so = E.sterm(o)
    s = a[0]
    if not isinstance(s, str):
        raise Unsupported("rpartition")
    has = uf("contains", U, U, B)(so, E.litterm(s))
    h = SStr(Op(uf("rpart_head", U, U, U)(so, E.litterm(s))))
    l = SStr(Op(uf("rpart_last", U, U, U)(so, E.litterm(s))))
    if E.branch(has):
        E.add(so == E.sterm(E.cat(E.cat(h, s), l)))
        if E.s.registry.rpart_hook:
            E.s.registry.rpart_hook(E, o, s, h, l)
        return (h, s, l)
    return ("", "", o)


STR["rpartition"] = s_rpartition


def l_append(E, o, a, k):
    E.list_append(o, a[0])


def l_extend(E, o, a, k):
    v = a[0]
    if isinstance(v, View):
        v = v.as_list(E)
    if isinstance(v, SList) and v.term is not None:
        if o.term is None and not o.items:
            E.logwrite(o, "items")
            o.term, o.shape, o.items, o.memo = v.term, v.shape, list(v.items), dict(v.memo)
            return
        raise Unsupported("extend with a symbolic list")
    for x in E.concrete_items(v):
        E.list_append(o, x)


def l_pop(E, o, a, k):
    if a and a[0] != -1:
        if o.term is None and isinstance(a[0], int):
            E.logwrite(o, "items")
            return o.items.pop(a[0])
        raise Unsupported("pop")
    if not o.items:
        if o.term is None or not E.branch(llen(o.term) > 0):
            E.raise_(IndexError, "pop from empty list")
        E.unsnoc(o)
    E.logwrite(o, "items")
    return o.items.pop()


def l_sort(E, o, a, k):
    h = E.s.registry.sort_hook
    if h and h(E, o, k.get("key")):
        return
    if o.term is not None:
        raise Unsupported("sort")
    E.logwrite(o, "items")
    o.items[:] = sort_items(E, list(o.items), k)


def sort_items(E, xs, k):
    """stable insertion sort of a list of known length, by integer keys"""
    if set(k) - {"key", "reverse"} or not isinstance(k.get("reverse", False), bool):
        raise Unsupported("sort")
    rev = k.get("reverse", False)
    f = k.get("key")
    ks = [E.call(f, [x], {}) if f is not None else x for x in xs]
    if not all(isinstance(x, (int, SInt)) for x in ks):
        raise Unsupported("sort")
    out = []
    for x, kx in zip(xs, ks):
        j = len(out)
        while j > 0:
            a, b = zi(out[j - 1][1]), zi(kx)
            if not E.test(mkb(b > a) if rev else mkb(b < a)):
                break
            j -= 1
        out.insert(j, (x, kx))
    return [x for x, _ in out]


def l_clear(E, o, a, k):
    E.logwrite(o, "items")
    o.term, o.items, o.memo = None, [], {}


def l_insert(E, o, a, k):
    if o.term is None and isinstance(a[0], int):
        E.logwrite(o, "items")
        o.items.insert(a[0], a[1])
        return
    raise Unsupported("insert")


def l_copy(E, o, a, k):
    return b_list(E, [o], {})


LIST = {"append": l_append, "extend": l_extend, "pop": l_pop, "sort": l_sort, "clear": l_clear, "insert": l_insert, "copy": l_copy}
TUPLE = {}


def d_get(E, o, a, k):
    r = E.dict_find(o, a[0])
    if r is None:
        return a[1] if len(a) > 1 else None
    return r[1] if r[0] == "item" else E.map_get(o, a[0])


def d_pop(E, o, a, k):
    r = E.dict_find(o, a[0])
    if r is None:
        if len(a) > 1:
            return a[1]
        E.raise_(KeyError, a[0])
    v = r[1] if r[0] == "item" else E.map_get(o, a[0])
    E.logwrite(o, "items")
    if o.base is None:
        for i, it in enumerate(o.items):
            if E.eq(it[0], a[0]) is True:
                del o.items[i]
                return v
    o.items.append([a[0], DEL])
    return v


def d_update(E, o, a, k):
    for src in a:
        if not isinstance(src, SDict):
            raise Unsupported("update")
        if src.base is not None:
            h = E.s.registry.update_hook
            if h and h(E, o, src):
                continue
            E.logwrite(o, "items")
            E.dict_merge(o, src)
            continue
        for kk, v in src.items:
            E.dict_set(o, kk, v)
    for kk, v in k.items():
        E.dict_set(o, kk, v)


def d_copy(E, o, a, k):
    return b_dict(E, [o], {})


def d_setdefault(E, o, a, k):
    r = E.dict_find(o, a[0])
    if r is not None:
        return r[1] if r[0] == "item" else E.map_get(o, a[0])
    v = a[1] if len(a) > 1 else None
    E.dict_set(o, a[0], v)
    return v


DICT = {"get": d_get, "pop": d_pop, "update": d_update, "copy": d_copy, "setdefault": d_setdefault,
        "keys": lambda E, o, a, k: View(o, "keys"), "values": lambda E, o, a, k: View(o, "values"), "items": lambda E, o, a, k: View(o, "items")}


def set_find(E, o, x):
    for i, y in enumerate(o.items):
        e = E.eq(x, y) if not isinstance(x, Obj) else E.same(x, y)
        if E.branch(e):
            return i
    return None


def set_add(E, o, a, k):
    E.logwrite(o, "items")
    h = E.s.registry.set_hook
    if o.base is not None and h:
        return h(E, o, "add", a[0])
    if not E.s.opts.get("set_nofork") and set_find(E, o, a[0]) is not None:
        return
    o.items.append(a[0])


def set_remove(E, o, a, k):
    E.logwrite(o, "items")
    h = E.s.registry.set_hook
    if o.base is not None and h:
        return h(E, o, "remove", a[0])
    set_del(E, o, a[0], True)


def set_del(E, o, x, strict):
    i = set_find(E, o, x)
    if o.base is None:
        if i is not None:
            del o.items[i]
        elif strict:
            E.raise_(KeyError, x)
        return
    m, add, t = uf("mem", U, U, B), uf("setadd", U, U, U), E.term(x)
    if i is not None and E.valid(z3.Not(m(o.base, t))):
        del o.items[i]
        return
    if i is None and not E.branch(m(o.base, t)):
        if strict:
            E.raise_(KeyError, x)
        return
    # the set without x
    w = uf("setdel", U, U, U)(o.base, t)
    E.once(("setdel", w.get_id()), lambda: [z3.Not(m(w, t)), z3.Implies(m(o.base, t), add(w, t) == o.base)])
    o.base = w
    if i is not None:
        del o.items[i]


def set_discard(E, o, a, k):
    E.logwrite(o, "items")
    h = E.s.registry.set_hook
    if o.base is not None and h:
        return h(E, o, "discard", a[0])
    set_del(E, o, a[0], False)


SET = {"add": set_add, "remove": set_remove, "discard": set_discard}


# ---------------------------------------------------------------- re
def _re(kind):
    def f(E, a, k):
        h = E.s.registry.re_hook
        r = h(E, kind, a, k) if h else None
        if r is None:
            raise Unsupported("re." + kind)
        return r[0]
    return f


for _n in ("match", "sub", "fullmatch", "search", "findall", "finditer", "split"):
    EXT_CALLS["re." + _n] = _re(_n)


@extcall("re.compile")
def re_compile(E, a, k):
    """a compiled pattern: its methods are the functions of re with it"""
    import re
    o = Obj(re.Pattern)
    for n in ("match", "sub", "fullmatch", "search", "findall", "finditer", "split"):
        def f(E, b, k2, n=n):
            if k or len(a) != 1:
                raise Unsupported("compiled pattern with flags")
            return _re(n)(E, [a[0]] + list(b), k2)
        o.fields[n] = Native(n, f)
    o.fields["pattern"] = a[0]
    o.partial = True
    return o
