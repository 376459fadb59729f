"""Symbolic values of the deductive verifier.

One uninterpreted sort U stands for every non-integer value (strings, trees,
lists, opaque objects).  Integers are mathematical (as in Python).  Strings are
words over literals, single characters, slices of the source text and opaque
strings."""
import z3

U = z3.DeclareSort("U")
I = z3.IntSort()
B = z3.BoolSort()
_fn = {}


def uf(name, *sorts):
    f = _fn.get(name)
    if f is None:
        f = _fn[name] = z3.Function(name, *sorts)
    return f


def raw(i):
    """code of the source character at i (only meaningful inside the text)"""
    return uf("raw", I, I)(i)


N = z3.Int("srclen")
sl = uf("sl", I, I, U)
cat = uf("cat", U, U, U)
chr_ = uf("chr", I, U)
ulen = uf("len", U, I)
snoc = uf("snoc", U, U, U)
llen = uf("llen", U, I)
nil = z3.Const("nil", U)
NONE = z3.Const("None", U)
TRUE = z3.Const("True", U)
FALSE = z3.Const("False", U)
boxi = uf("box", I, U)
cls_of = uf("cls", U, I)
_lits = {}


def lit(s):
    """constant for a literal string"""
    if s not in _lits:
        _lits[s] = z3.Const("lit%d" % len(_lits), U)
    return _lits[s]


class SInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SInt(%s)" % self.e


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SBool(%s)" % self.e


class OChar:
    """one-character string, None (code -1) or False (code -2)"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "OChar(%s)" % self.c


class Ch:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "Ch(%s)" % self.c


class Sl:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return "Sl(%s,%s)" % (self.a, self.b)


class Op:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Op(%s)" % self.t


class Rep:
    __slots__ = ("s", "n")

    def __init__(self, s, n):
        self.s, self.n = s, n

    def __repr__(self):
        return "Rep(%r,%s)" % (self.s, self.n)


class SStr:
    __slots__ = ("p",)

    def __init__(self, *p):
        self.p = tuple(p)

    def __repr__(self):
        return "SStr%r" % (self.p,)


class SVal:
    """opaque value of unknown or external type; kind is a tag for models"""
    __slots__ = ("t", "kind", "attrs")

    def __init__(self, t, kind=""):
        self.t, self.kind, self.attrs = t, kind, {}

    def __repr__(self):
        return "SVal<%s>(%s)" % (self.kind, self.t)


def is_strv(v):
    return isinstance(v, (str, SStr))


def parts(v):
    if isinstance(v, str):
        return (v,) if v else ()
    return v.p


def simp(e):
    return z3.simplify(e) if z3.is_expr(e) else e


def ival(e):
    """python int of a z3 numeral, else None"""
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise TypeError("not an int: %r" % (v,))


def mki(e):
    if isinstance(e, int):
        return e
    k = ival(e)
    return k if k is not None else SInt(z3.simplify(e))


def mkb(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)
