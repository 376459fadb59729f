"""Expressions and statements."""
import ast
import re
import builtins
import z3
from .interp import *
from .interp import _Ret, _Brk, _Cont
from . import interp
from .sym import *

EXC = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
PURE = (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name, ast.Constant, ast.Load, ast.And, ast.Or, ast.Not, ast.cmpop, ast.Tuple)


def is_pure(n):
    return all(isinstance(x, PURE) for x in ast.walk(n))


class Ev:
    # ------------------------------------------------------------ helpers
    def raise_(self, cls, *args):
        raise PyRaise(self.mkexc(cls, *args))

    def mkexc(self, cls, *args):
        return Obj(cls, None, {"args": tuple(args)})

    def truth(self, v):
        """bool or z3 Bool"""
        if v is None or isinstance(v, (bool, int, float, str, tuple, bytes)):
            return bool(v)
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SInt):
            return v.e != 0
        if isinstance(v, OChar):
            return z3.simplify(v.c >= 0)
        if isinstance(v, SStr):
            if any(isinstance(a, (str, Ch)) for a in v.p):
                return True
            return z3.simplify(self.slen(v) != 0)
        if isinstance(v, SList):
            return z3.simplify(self.llen(v) != 0)
        if isinstance(v, SDict):
            return self.dict_nonempty(v)
        if isinstance(v, SSet):
            if v.base is None:
                return bool(v.items)
            raise Unsupported("truth of a symbolic set")
        if isinstance(v, Obj):
            self.resolve_cls(v)
            if isinstance(v.cls, ClassVal):
                for m in ("__bool__", "__len__"):
                    f, c = v.cls.lookup(m)
                    if f is not None:
                        if isinstance(f, BuiltinAttr):
                            return self.obj_truth(v)
                        return self.truth(self.call(Bound(v, f, None), [], {}))
            return True
        if isinstance(v, SVal):
            return uf("truthy", U, B)(v.t)
        return True

    def obj_truth(self, v):
        return uf("truthy", U, B)(self.term(v))

    def dict_nonempty(self, d):
        if d.base is None:
            return any(v is not DEL for _, v in d.items) if all(v is not DEL for _, v in d.items) else self.unsup("truth of dict")
        if any(v is not DEL for _, v in d.items[-1:]):
            return True
        if not d.items:
            return uf("mapnonempty", U, B)(d.base)
        raise Unsupported("truth of a symbolic dict")

    def unsup(self, m):
        raise Unsupported(m)

    def test(self, v):
        return self.branch(self.truth(v))

    def char_str(self, v):
        """OChar as str / None / False, forking if needed"""
        if isinstance(v, OChar):
            if self.branch(v.c >= 0):
                k = ival(v.c)
                return chr(k) if k is not None else SStr(Ch(v.c))
            return None if self.branch(v.c == -1) else False
        return v

    def eq(self, a, b):
        """bool or z3 Bool for a == b"""
        if a is b and not isinstance(a, (SVal, Obj)):
            return True
        if isinstance(a, (bool, int, SInt, SBool)) and isinstance(b, (bool, int, SInt, SBool)):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                x = a.e if isinstance(a, SBool) else z3.BoolVal(a)
                y = b.e if isinstance(b, SBool) else z3.BoolVal(b)
                return z3.simplify(x == y)
            return z3.simplify(zi(a) == zi(b))
        if isinstance(b, OChar) and not isinstance(a, OChar):
            a, b = b, a
        if isinstance(a, OChar):
            if b is None:
                return z3.simplify(a.c == -1)
            if b is False:
                return z3.simplify(a.c == -2)
            if isinstance(b, str):
                return z3.simplify(a.c == ord(b)) if len(b) == 1 else False
            if isinstance(b, OChar):
                return z3.simplify(a.c == b.c)
            if isinstance(b, SStr):
                if self.branch(a.c >= 0):
                    return self.weq(SStr(Ch(a.c)), b)
                return False
            if isinstance(b, SVal):
                return self.term(a) == b.t
            return False
        if is_strv(a) and is_strv(b):
            return self.weq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Obj):
                self.resolve_cls(x)
                f, c = x.cls.lookup("__eq__") if isinstance(x.cls, ClassVal) else (None, None)
                if isinstance(f, Func):
                    return self.truth(self.call(Bound(x, f, "%s.__eq__" % c.key), [y], {}))
                h = self.s.registry.eq_hook
                if h:
                    r = h(self, x, y)
                    if r is not None:
                        return r
        if isinstance(a, SVal) or isinstance(b, SVal):
            h = self.s.registry.eq_hook
            if h:
                r = h(self, a, b)
                if r is not None:
                    return r
            if a is None or b is None or is_strv(a) or is_strv(b) or isinstance(a, (SVal, bool)) and isinstance(b, (SVal, bool)):
                return self.term(a) == self.term(b)
            return self.pyeq(self.term(a), self.term(b))
        if isinstance(a, Obj) and isinstance(b, Obj):
            return self.same(a, b)
        if isinstance(a, SList) and isinstance(b, SList):
            if a.term is None and b.term is None:
                return len(a.items) == len(b.items) and And(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
            if not b.items and b.term is None:
                return z3.simplify(self.llen(a) == 0)
            if not a.items and a.term is None:
                return z3.simplify(self.llen(b) == 0)
            return uf("listeq", U, U, B)(self.term(a), self.term(b))
        if isinstance(a, SSet) and isinstance(b, SSet):
            return self.set_eq(a, b)
        if isinstance(a, (str, int, float, bytes, type(None))) and isinstance(b, (str, int, float, bytes, type(None))):
            return a == b
        if self.kind_of(a) and self.kind_of(b) and self.kind_of(a) != self.kind_of(b):
            return False
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if isinstance(a, (ClassVal, type, Func, Native, Ext)) or isinstance(b, (ClassVal, type, Func, Native, Ext)):
            return a is b
        raise Unsupported("comparison of %r and %r" % (a, b))

    def kind_of(self, v):
        if v is None:
            return "none"
        if is_strv(v):
            return "str"
        if isinstance(v, (bool, int, SInt, SBool, float)):
            return "num"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, SList):
            return "list"
        if isinstance(v, SDict):
            return "dict"
        if isinstance(v, SSet):
            return "set"
        if isinstance(v, Obj):
            return "obj"
        return None

    def set_eq(self, a, b):
        if a.base is None and b.base is None and all(isinstance(x, str) for x in a.items + b.items):
            return set(a.items) == set(b.items)
        raise Unsupported("comparison of sets")

    def same(self, a, b):
        """identity"""
        if a is b:
            return True
        if isinstance(a, (OChar, SBool)) or isinstance(b, (OChar, SBool)):
            if b is None or b is True or b is False or isinstance(b, (OChar, SBool)):
                if isinstance(a, SBool) and b is None or isinstance(b, SBool) and a is None:
                    return False
                return self.eq(a, b)
            if a is None or a is True or a is False:
                return self.eq(a, b)
            return False
        if isinstance(a, SVal) and isinstance(b, SVal):
            return a.t == b.t
        if isinstance(a, SVal) or isinstance(b, SVal):
            x, y = (a, b) if isinstance(a, SVal) else (b, a)
            if y is None or isinstance(y, bool):
                h = self.s.registry.none_hook
                if h:
                    r = h(self, x, y)
                    if r is not None:
                        return r
                return x.t == self.term(y)
            if isinstance(y, Obj) and y.term is not None:
                return x.t == y.term
            if isinstance(y, (ClassVal, type)):
                return x.t == self.term(y)
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.term is not None and b.term is not None:
                return a.term == b.term
            if a.oid is not None and b.oid is not None:
                return a.oid == b.oid
            return False
        if isinstance(a, SList) and isinstance(b, SList):
            return False
        if isinstance(a, (str, int, bool, float, type(None), ClassVal, type)) and isinstance(b, (str, int, bool, float, type(None), ClassVal, type)):
            return a is b or (type(a) is type(b) and isinstance(a, (bool, int, str)) and a == b)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return False

    # ------------------------------------------------------------ names
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        env = fr.module.env
        if name in env:
            return env[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in EXC:
            return EXC[name]
        if self.local_declared(fr, name):
            self.raise_(UnboundLocalError, name)
        raise Unsupported("name %s" % name)

    def local_declared(self, fr, name):
        return fr.func is not None and any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in own_nodes(fr.func.node))

    def setvar(self, fr, name, v):
        self.writes.append((fr, name))
        fr.vars[name] = v

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        if hasattr(n, "lineno"):
            self.line = n.lineno
        return m(n, fr)

    def x_Constant(self, n, fr):
        return n.value

    def x_Name(self, n, fr):
        return self.lookup(fr, n.id)

    def x_Tuple(self, n, fr):
        return tuple(self.ev_list(n.elts, fr))

    def ev_list(self, elts, fr, star=False):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr) if star else None
                if star and isinstance(v, SList) and v.term is not None:
                    out.append(StarArgs(v))
                    continue
                out.extend(self.concrete_items(v)) if star else out.extend(self.concrete_items(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def x_List(self, n, fr):
        return SList(self.ev_list(n.elts, fr))

    def x_Set(self, n, fr):
        return SSet(self.ev_list(n.elts, fr))

    def dict_merge(self, d, o):
        """everything o holds goes into d"""
        if any(v is DEL for _, v in o.items):
            raise Unsupported("merging a map with deleted keys")
        if o.base is not None and d.view_of is not None:
            raise Unsupported("merging a map into the fields of an object")
        if o.base is not None:
            if d.items or d.base is not None:
                before = SDict((), d.base, d.shape)
                before.items = list(d.items)
                d.base, d.shape, d.items = uf("mapmerge", U, U, U)(self.dterm(d), o.base), o.shape, []
                h = self.s.registry.merge_hook
                h and h(self, before, o, d)
            else:
                d.base, d.shape = o.base, o.shape
        for k, v in o.items:
            self.dict_set(d, k, v)

    def x_Dict(self, n, fr):
        d = SDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, SDict):
                    raise Unsupported("** of %r" % (o,))
                self.dict_merge(d, o)
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def x_JoinedStr(self, n, fr):
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                out = self.cat(out, v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Unsupported("format spec")
                out = self.cat(out, self.str_of(self.ev(v.value, fr)))
        return out

    def cat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return SStr(*(parts(a) + parts(b)))

    def x_Attribute(self, n, fr):
        return self.attr(self.ev(n.value, fr), n.attr)

    def x_Lambda(self, n, fr):
        return self.mkfunc(n, fr, (fr.func.key if fr.func else fr.module.name) + ".<lambda>")

    def x_IfExp(self, n, fr):
        return self.ev(n.body, fr) if self.test(self.ev(n.test, fr)) else self.ev(n.orelse, fr)

    def x_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        acc = None          # pending symbolic truth value, not decided yet
        v = isand
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            if acc is not None:
                if is_pure(e):
                    try:
                        w = self.ev(e, fr)
                    except (PyRaise, Unsupported):
                        w = MISSING
                    if isinstance(w, (bool, SBool)):
                        acc = And(acc, self.truth(w)) if isand else Or(acc, self.truth(w))
                        if isinstance(acc, bool):
                            if acc != isand:
                                return acc
                            acc, v = None, isand
                        continue
                if self.branch(acc) != isand:
                    return not isand
                acc = None
            v = self.ev(e, fr)
            if last:
                return v
            if isinstance(v, SBool):
                acc = v.e
                continue
            if self.test(v) != isand:
                return v
        return mkb(acc) if acc is not None else v

    def x_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return mkb(Not(t)) if not isinstance(t, bool) else not t
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return mki(-zi(v))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary")

    def x_Compare(self, n, fr):
        l = self.ev(n.left, fr)
        acc = True
        for op, e in zip(n.ops, n.comparators):
            r = self.ev(e, fr)
            acc = And(acc, self.compare(op, l, r))
            if acc is False:
                return False
            l = r
        return acc if isinstance(acc, bool) else mkb(acc)

    def compare(self, op, l, r):
        if isinstance(op, ast.Eq):
            return self.eq(l, r)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(l, r))
        if isinstance(op, ast.Is):
            return self.same(l, r)
        if isinstance(op, ast.IsNot):
            return Not(self.same(l, r))
        if isinstance(op, ast.In):
            return self.contains(r, l)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(r, l))
        if isinstance(l, (int, float)) and isinstance(r, (int, float)):
            return {ast.Lt: l < r, ast.LtE: l <= r, ast.Gt: l > r, ast.GtE: l >= r}[type(op)]
        if isinstance(l, (int, SInt, SBool, float)) and isinstance(r, (int, SInt, SBool, float)):
            for x, y, sw in ((l, r, False), (r, l, True)):
                if isinstance(y, float):
                    if y == float("inf"):
                        lt = not sw
                        return {ast.Lt: lt, ast.LtE: lt, ast.Gt: not lt, ast.GtE: not lt}[type(op)]
                    raise Unsupported("float comparison")
            a, b = zi(l), zi(r)
            return z3.simplify({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)])
        if isinstance(l, OChar) or isinstance(r, OChar):
            l, r = self.char_str(l), self.char_str(r)
        if l is None or r is None or (is_strv(l) != is_strv(r)):
            self.raise_(TypeError, "unorderable")
        if is_strv(l):
            # the order of single characters is that of their codes
            cs = [self.norm(x) for x in (l, r)]
            cs = [(ord(w[0]) if isinstance(w[0], str) and len(w[0]) == 1 else w[0].c if isinstance(w[0], Ch) else None) if len(w) == 1 else None for w in cs]
            if cs[0] is not None and cs[1] is not None:
                a, b = [z3.IntVal(x) if isinstance(x, int) else x for x in cs]
                return z3.simplify({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)])
        h = self.s.registry.cmp_hook
        if h:
            x = h(self, op, l, r)
            if x is not None:
                return x
        raise Unsupported("ordering of %r and %r" % (l, r))

    def contains(self, c, x):
        if isinstance(c, tuple):
            return Or(*[Or(self.same(x, y) if y is None else False, self.eq(x, y)) for y in c])
        if isinstance(c, SSet):
            r = Or(*[self.eq(x, y) for y in c.items])
            if c.base is not None and r is not True:
                m = uf("mem", U, U, B)(c.base, self.term(x))
                r = Or(r, m)
            return r
        if isinstance(c, SDict):
            return self.dict_has(c, x)
        if is_strv(c):
            x = self.char_str(x)
            if not is_strv(x):
                self.raise_(TypeError, "in <string>")
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return self.str_contains(c, x)
        if isinstance(c, SList):
            r = Or(*[self.eq(x, y) for y in c.items])
            if c.term is not None and r is not True:
                r = Or(r, uf("lmem", U, U, B)(c.term, self.term(x)))
            return r
        if isinstance(c, SVal) or isinstance(c, Obj):
            h = self.s.registry.contains_hook
            r = h(self, c, x) if h else None
            if r is not None:
                return r
        raise Unsupported("in %r" % (c,))

    def str_contains(self, c, x):
        if isinstance(x, str) and len(x) == 1:
            out = False
            for p in self.norm(c):
                if isinstance(p, str):
                    if x in p:
                        return True
                elif isinstance(p, Ch):
                    out = Or(out, p.c == ord(x))
                else:
                    out = Or(out, uf("contains", U, U, B)(self.sterm(SStr(p)), self.litterm(x)))
            return out
        if isinstance(c, str) and not isinstance(x, str):
            w = self.norm(x)
            if len(w) == 1 and isinstance(w[0], Ch):
                return Or(*[w[0].c == ord(y) for y in c])
        return uf("contains", U, U, B)(self.sterm(c), self.sterm(x))

    def pyeq(self, x, y, name="pyeq"):
        """an uninterpreted ==, which is symmetric"""
        f = uf(name, U, U, B)
        if not z3.eq(x, y):
            self.add(f(x, y) == f(y, x))
        return f(x, y)

    def percent(self, fmt, v):
        vs = list(v) if isinstance(v, tuple) else [v]
        if isinstance(v, (SDict, SVal)) or len(re.sub("%%", "", fmt).split("%")) - 1 != len(vs):
            raise Unsupported("% formatting")
        out = ""
        for x in re.findall("%.|[^%]+", fmt, re.S):
            if x == "%%":
                out = self.cat(out, "%")
            elif x == "%s" or x == "%d" and isinstance(vs[0], (int, SInt)) and not isinstance(vs[0], bool):
                out = self.cat(out, self.str_of(vs.pop(0)))
            elif x[0] == "%":
                raise Unsupported("% formatting")
            else:
                out = self.cat(out, x)
        return out

    def x_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def binop(self, op, l, r):
        if isinstance(l, OChar) or isinstance(r, OChar):
            l, r = self.char_str(l), self.char_str(r)
        if isinstance(op, ast.Add):
            if is_strv(l) and is_strv(r):
                return self.cat(l, r)
            if isinstance(l, SList) and isinstance(r, SList):
                if r.term is None:
                    o = SList(l.items + r.items, l.term, l.n, l.shape)
                    return o
                raise Unsupported("list +")
            if isinstance(l, tuple) and isinstance(r, tuple):
                return l + r
        if isinstance(op, ast.BitOr) and isinstance(l, SDict) and isinstance(r, SDict):
            d = SDict((), l.base, l.shape)
            d.items = [list(x) for x in l.items]
            self.dict_merge(d, r)
            return d
        if isinstance(l, SSet) and isinstance(r, SSet) and isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)) and \
                l.base is None and r.base is None and all(isinstance(x, (str, int)) for x in l.items + r.items):
            s = SSet()
            a, b = l.items, r.items
            s.items = [x for x in a if isinstance(op, ast.BitOr) or (x in b) == isinstance(op, ast.BitAnd)]
            if isinstance(op, (ast.BitOr, ast.BitXor)):
                s.items += [x for x in b if x not in a]
            return s
        if isinstance(op, ast.Mod) and isinstance(l, str):
            return self.percent(l, r)
        if isinstance(l, (int, float)) and isinstance(r, (int, float)):
            import operator as o
            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.FloorDiv: o.floordiv, ast.Mod: o.mod}.get(type(op))
            if f:
                return f(l, r)
        if isinstance(l, (int, SInt, SBool)) and isinstance(r, (int, SInt, SBool)):
            a, b = zi(l), zi(r)
            if isinstance(op, ast.Add):
                return mki(a + b)
            if isinstance(op, ast.Sub):
                return mki(a - b)
            if isinstance(op, ast.Mult):
                return mki(a * b)
            if isinstance(op, ast.BitAnd) and ival(b) == 1:
                return mki(a % 2)
            if isinstance(op, ast.BitOr) and ival(b) == 1:
                return mki(z3.If(a % 2 == 1, a, a + 1))
        if isinstance(op, ast.Mult) and is_strv(l) and isinstance(r, (int, SInt)):
            if isinstance(l, str) and isinstance(r, int):
                return l * r
            if isinstance(l, str) and len(l) == 1:
                n = zi(r)
                return SStr(Rep(l, z3.If(n > 0, n, z3.IntVal(0))))
        if isinstance(op, (ast.Add, ast.Sub)):
            ks = {self.kind_of(l), self.kind_of(r)}
            if None not in ks and (len(ks) > 1 or ks & {"obj", "none", "dict"}):
                for x in (l, r):
                    if isinstance(x, Obj):
                        self.resolve_cls(x)
                        if isinstance(x.cls, ClassVal) and (x.cls.lookup("__add__")[0] or x.cls.lookup("__radd__")[0]):
                            raise Unsupported("operator on %r" % x)
                self.raise_(TypeError, "unsupported operand")
        h = self.s.registry.binop_hook
        if h:
            v = h(self, op, l, r)
            if v is not MISSING and v is not None:
                return v
        raise Unsupported("%s of %r and %r" % (type(op).__name__, l, r))

    def x_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, fr) if n.slice.lower else None
            hi = self.ev(n.slice.upper, fr) if n.slice.upper else None
            if n.slice.step is not None:
                raise Unsupported("slice step")
            return self.slice(o, lo, hi)
        return self.index(o, self.ev(n.slice, fr))

    def slice(self, o, lo, hi):
        if is_strv(o) and isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        if isinstance(o, tuple):
            return o[lo:hi]
        if is_strv(o):
            return self.str_slice(o, lo, hi)
        if isinstance(o, SList):
            if o.term is None and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return SList(o.items[lo:hi])
            if lo is None and hi is None:
                x = SList(o.items, o.term, o.n, o.shape)
                x.memo = o.memo
                return x
            h = self.s.registry.listslice_hook
            if h:
                return h(self, o, lo, hi)
        raise Unsupported("slice of %r" % (o,))

    def clamp(self, x, n, dflt):
        """z3 index after Python's clamping"""
        if x is None:
            return dflt
        x = zi(x)
        if self.valid(z3.And(x >= 0, x <= n)):
            return z3.simplify(x)
        x = z3.If(x < 0, x + n, x)
        return z3.simplify(z3.If(x < 0, 0, z3.If(x > n, n, x)))

    def str_slice(self, o, lo, hi):
        if isinstance(lo, float) or isinstance(hi, float):
            self.raise_(TypeError, "slice indices must be integers")
        n = self.slen(o)
        a = self.clamp(lo, n, z3.IntVal(0))
        b = self.clamp(hi, n, n)
        ps = self.norm(o)
        # walk over the atoms while the cut points can be located
        out = []
        pos = z3.IntVal(0)
        for i, p in enumerate(ps):
            ln = self.slen(SStr(p))
            end = z3.simplify(pos + ln)
            if self.valid(end <= a) or self.valid(b <= pos):
                pos = end
                continue
            la = z3.simplify(a - pos) if not self.valid(a <= pos) else z3.IntVal(0)
            lb = z3.simplify(b - pos) if not self.valid(b >= end) else ln
            whole = la.eq(z3.IntVal(0)) and lb is ln
            if whole:
                out.append(p)
            elif isinstance(p, Sl):
                if self.valid(z3.And(la >= 0, la <= lb, lb <= ln)):
                    out.append(Sl(z3.simplify(p.a + la), z3.simplify(p.a + lb)))
                elif self.valid(z3.And(la >= 0, lb <= ln)):
                    out.append(Sl(z3.simplify(p.a + la), z3.simplify(z3.If(lb < la, p.a + la, p.a + lb))))
                else:
                    # the cut may lie in another atom
                    if len(ps) == 1:
                        out.append(Sl(z3.simplify(p.a + la), z3.simplify(z3.If(lb < la, p.a + la, p.a + lb))))
                    else:
                        return self.substr(o, a, b)
            elif isinstance(p, Rep) and len(p.s) == 1 and len(ps) == 1:
                out.append(Rep(p.s, z3.simplify(z3.If(lb - la > 0, lb - la, 0))))
            elif isinstance(p, str) and ival(la) is not None and ival(lb) is not None:
                out.append(p[ival(la):ival(lb)])
            else:
                return self.substr(o, a, b)
            pos = end
        return SStr(*out) if out else ""

    def substr(self, o, a, b):
        t = uf("substr", U, I, I, U)(self.sterm(o), a, b)
        self.once(("substr", t.get_id()), lambda: [ulen(t) == z3.If(b > a, b - a, z3.IntVal(0))])
        return SStr(Op(t))

    def index(self, o, i):
        if isinstance(o, Ext) and o.path == "sys.modules" and isinstance(i, str) and i in self.prog.paths:
            return self.module(i)
        if isinstance(o, (SDict,)):
            return self.dict_get(o, i)
        if is_strv(o):
            if isinstance(o, str) and isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    self.raise_(IndexError, "string index out of range")
            if not isinstance(i, (int, SInt)):
                self.raise_(TypeError, "string indices must be integers")
            n = self.slen(o)
            k = zi(i)
            if self.branch(z3.Or(k >= n, k < -n)):
                self.raise_(IndexError, "string index out of range")
            if self.branch(k < 0):
                k = z3.simplify(k + n)
            return self.char_at(o, k, n)
        if isinstance(o, tuple):
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    self.raise_(IndexError, "tuple index out of range")
            if isinstance(i, (SInt, SBool)):
                k = zi(i)
                for j in range(-len(o), len(o)):
                    if self.branch(k == j):
                        return o[j]
                self.raise_(IndexError, "tuple index out of range")
            raise Unsupported("tuple index")
        if isinstance(o, SList):
            return self.list_get(o, i)
        if isinstance(o, (Ext, ClassVal, type)):
            return o
        if isinstance(o, (Obj, SVal)):
            h = self.s.registry.index_hook
            r = h(self, o, i) if h else None
            if r is not None:
                return r
        if o is None:
            self.raise_(TypeError, "'NoneType' object is not subscriptable")
        h = self.s.registry.index_hook
        r = h(self, o, i) if h else None
        if r is not None:
            return r
        raise Unsupported("index of %r" % (o,))

    def char_at(self, o, k, n):
        ps = self.norm(o)
        if len(ps) == 1 and isinstance(ps[0], Sl):
            p = z3.simplify(ps[0].a + k)
            return OChar(raw(p))
        pos = z3.IntVal(0)
        for p in ps:
            ln = self.slen(SStr(p))
            if self.branch(k < pos + ln):
                off = z3.simplify(k - pos)
                if isinstance(p, Sl):
                    return OChar(raw(z3.simplify(p.a + off)))
                if isinstance(p, str):
                    if ival(off) is not None:
                        return p[ival(off)]
                    if len(set(p)) == 1:
                        return p[0]
                if isinstance(p, Ch):
                    return OChar(p.c)
                if isinstance(p, Rep) and len(p.s) == 1:
                    return p.s
                c = uf("charat", U, I, I)(self.atom_term(p), off)
                self.add(c >= 0)
                return OChar(c)
            pos = z3.simplify(pos + ln)
        raise PathEnd()

    def list_get(self, o, i):
        if not isinstance(i, (int, SInt)):
            self.raise_(TypeError, "list indices must be integers")
        if o.term is None and isinstance(i, int):
            try:
                return o.items[i]
            except IndexError:
                self.raise_(IndexError, "list index out of range")
        n = self.llen(o)
        k = zi(i)
        if self.branch(z3.Or(k >= n, k < -n)):
            self.raise_(IndexError, "list index out of range")
        if isinstance(i, int) and i < 0:
            if -i <= len(o.items):
                return o.items[i]
            if i == -1 and o.seq is None and not o.items and self.s.opts.get("unsnoc", True):
                self.unsnoc(o)
                return o.items[-1]
        if self.branch(k < 0):
            k = z3.simplify(k + n)
        if o.term is not None:
            base = z3.simplify(llen(o.term))
            if not o.items or self.branch(k < base):
                return self.list_elem(o, k)
            k = z3.simplify(k - base)
        for j in range(len(o.items) - 1):
            if self.branch(k == j):
                return o.items[j]
        return o.items[-1]

    def list_set(self, o, i, v):
        self.logwrite(o, "items")
        if o.term is None and isinstance(i, int):
            try:
                o.items[i] = v
            except IndexError:
                self.raise_(IndexError, "list assignment index out of range")
            return
        n = self.llen(o)
        if isinstance(i, int) and i < 0:
            if self.branch(n < -i):
                self.raise_(IndexError, "list assignment index out of range")
            while len(o.items) < -i:
                self.unsnoc(o)
            o.items[i] = v
            return
        raise Unsupported("list assignment")

    # dicts ---------------------------------------------------------------
    def dict_find(self, d, k):
        """('item', v) | ('base',) | None after forking on the key"""
        for kk, v in reversed(d.items):
            if self.branch(self.eq(kk, k)):
                return None if v is DEL else ("item", v)
        if d.base is None:
            return None
        if self.branch(self.map_has(d, k)):
            return ("base",)
        return None

    def map_has(self, d, k):
        return uf("maphas", U, U, B)(d.base, self.term(k))

    def dict_has(self, d, k):
        r = False if d.base is None else self.map_has(d, k)
        for kk, v in d.items:
            e = self.eq(kk, k)
            if v is DEL:
                r = And(Not(e), r)
            else:
                r = Or(e, r)
        return r

    def map_get(self, d, k):
        t = uf("mapget", U, U, U)(d.base, self.term(k))
        return d.shape(self, t, k) if d.shape else SVal(t)

    def dict_get(self, d, k):
        if isinstance(k, OChar):
            k = self.char_str(k)
        r = self.dict_find(d, k)
        if r is None:
            self.raise_(KeyError, k)
        return r[1] if r[0] == "item" else self.map_get(d, k)

    def dict_set(self, d, k, v):
        self.logwrite(d, "items")
        if d.view_of is not None:
            self.setfield(d.view_of, k, v)
        for it in d.items:
            e = self.eq(it[0], k)
            if e is True:
                it[1] = v
                return
            if e is not False and not self.s.opts.get("dict_nofork"):
                if self.branch(e):
                    it[1] = v
                    return
        d.items.append([k, v])

    # comprehensions ------------------------------------------------------
    def x_ListComp(self, n, fr):
        return self.comp(n, fr, "list")

    def x_SetComp(self, n, fr):
        l = self.comp(n, fr, "list")
        s = SSet()
        for x in self.concrete_items(l):
            s.items.append(x)
        return s

    def x_GeneratorExp(self, n, fr):
        return GenCall(None, (), {}, fr, n)

    def x_DictComp(self, n, fr):
        return self.comp(n, fr, "dict")

    def comp(self, n, fr, kind):
        """evaluated like the loop it abbreviates"""
        f2 = Frame(fr, fr.module, fr.func)
        acc = SList() if kind == "list" else SDict()
        f2.vars["<acc>"] = acc

        def inner(gs):
            if not gs:
                if kind == "dict":
                    k = self.ev(n.key, f2)
                    self.dict_set(acc, k, self.ev(n.value, f2))
                else:
                    self.list_append(acc, self.ev(n.elt, f2))
                return
            g = gs[0]

            def body():
                for c in g.ifs:
                    if not self.test(self.ev(c, f2)):
                        return
                inner(gs[1:])
            self.for_loop(g, g.target, self.ev(g.iter, fr if g is n.generators[0] else f2), f2, body, [])
        inner(n.generators)
        return acc

    def x_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value else None
        f = fr
        if f.hook is None:
            raise Unsupported("yield outside of an inlined generator")
        return f.hook(v)

    def x_YieldFrom(self, n, fr):
        it = self.ev(n.value, fr)
        hook = fr.hook
        if hook is None:
            raise Unsupported("yield from")
        if hasattr(hook, "yield_from"):
            return hook.yield_from(it)
        self.iterate(n, it, lambda v: hook(v), fr)

    def x_Starred(self, n, fr):
        raise Unsupported("starred")

    def x_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.setvar(fr, n.target.id, v)
        return v

    def x_Call(self, n, fr):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in fr.vars:
            return self.mk_super(n, fr)
        if isinstance(n.func, ast.Name) and n.func.id == "cast" and len(n.args) == 2:
            f = self.ev(n.func, fr)
            if isinstance(f, Ext) and f.path.endswith("typing.cast"):
                return self.ev(n.args[1], fr)
        f = self.ev(n.func, fr)
        args = self.ev_list(n.args, fr, True)
        kw = {}
        symkw = None
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, SDict):
                    raise Unsupported("** of %r" % (d,))
                if d.base is not None or any(not isinstance(kk, str) for kk, _ in d.items):
                    if symkw is not None or kw:
                        raise Unsupported("symbolic **kwargs")
                    symkw = d
                    continue
                for kk, v in d.items:
                    if v is not DEL:
                        if kk in kw:
                            self.raise_(TypeError, "multiple values for keyword argument")
                        kw[kk] = v
            else:
                if k.arg in kw:
                    self.raise_(TypeError, "multiple values for keyword argument")
                kw[k.arg] = self.ev(k.value, fr)
        if symkw is not None:
            kw["**"] = symkw
        self.line = n.lineno
        return self.call(f, args, kw, n)

    # ------------------------------------------------------------ statements
    def run_body(self, body, fr):
        for st in body:
            self.st(st, fr)

    def st(self, n, fr):
        self.line = n.lineno
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        return m(n, fr)

    def s_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, fr)

    def s_Pass(self, n, fr):
        pass

    def s_Return(self, n, fr):
        raise _Ret(self.ev(n.value, fr) if n.value else None)

    def s_Break(self, n, fr):
        raise _Brk()

    def s_Continue(self, n, fr):
        raise _Cont()

    def s_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, fr), fr)

    def s_AugAssign(self, n, fr):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(fr, t.id)
            self.aug(t, n.op, old, self.ev(n.value, fr), lambda v: self.setvar(fr, t.id, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.attr(o, t.attr)
            self.aug(t, n.op, old, self.ev(n.value, fr), lambda v: self.setattr(o, t.attr, v))
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            self.aug(t, n.op, self.index(o, i), self.ev(n.value, fr), lambda v: self.setitem(o, i, v))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, t, op, old, v, setter):
        if isinstance(old, SList) and isinstance(op, ast.Add):
            for x in self.concrete_items(v):
                self.list_append(old, x)
            return setter(old)
        setter(self.binop(op, old, v))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.concrete_items(v)
            if len(vs) != len(t.elts):
                self.raise_(ValueError, "unpack")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                if t.slice.lower or t.slice.upper or not isinstance(o, SList) or not isinstance(v, SList):
                    raise Unsupported("slice assignment")
                self.logwrite(o, "items")
                o.term, o.n, o.shape, o.items, o.memo = v.term, v.n, v.shape, list(v.items), dict(v.memo)
                return
            self.setitem(o, self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def setitem(self, o, i, v):
        if isinstance(o, SDict):
            return self.dict_set(o, i, v)
        if isinstance(o, SList):
            return self.list_set(o, i, v)
        raise Unsupported("item assignment on %r" % (o,))

    def s_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if isinstance(o, SDict):
                    if self.dict_find(o, k) is None:
                        self.raise_(KeyError, k)
                    self.logwrite(o, "items")
                    o.items.append([k, DEL])
                elif isinstance(o, SList) and isinstance(k, int) and not isinstance(k, bool):
                    self.pop_item(o, k)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def pop_item(self, o, k):
        from . import models
        models.l_pop(self, o, [k], {})

    def s_If(self, n, fr):
        self.run_body(n.body if self.test(self.ev(n.test, fr)) else n.orelse, fr)

    def s_Assert(self, n, fr):
        if not self.test(self.ev(n.test, fr)):
            self.raise_(AssertionError)

    def s_Raise(self, n, fr):
        if n.exc is None:
            if fr.excs:
                raise PyRaise(fr.excs[-1])
            raise Unsupported("bare raise")
        v = self.ev(n.exc, fr)
        if isinstance(v, (ClassVal, type)):
            v = self.call(v, [], {})
        raise PyRaise(v)

    def s_Try(self, n, fr):
        def inner():
            try:
                self.run_body(n.body, fr)
            except PyRaise as p:
                for h in n.handlers:
                    if h.type is None or self.exc_match(p.exc, self.ev(h.type, fr)):
                        if h.name:
                            self.setvar(fr, h.name, p.exc)
                        fr.excs.append(p.exc)
                        try:
                            self.run_body(h.body, fr)
                        finally:
                            fr.excs.pop()
                        return
                raise
            self.run_body(n.orelse, fr)
        if not n.finalbody:
            return inner()
        try:
            inner()
        except (PyRaise, _Ret, _Brk, _Cont):
            self.run_body(n.finalbody, fr)
            raise
        self.run_body(n.finalbody, fr)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if isinstance(t, Ext):
            h = self.s.registry.exc_hook
            r = h(self, exc, t) if h else None
            if r is None:
                raise Unsupported("except %r" % t)
            return r
        if isinstance(exc, Obj) and exc.cls is not None:
            if isinstance(exc.cls, Ext):
                h = self.s.registry.exc_hook
                r = h(self, exc, t) if h else None
                if r is None:
                    raise Unsupported("except for %r" % exc.cls)
                return r
            if issub(exc.cls, t):
                return True
            # an exception known only up to a base class
            op = getattr(exc, "open", None)
            if op and issub(t, exc.cls) and pytype(t) not in op:
                d = self.choose(2)
                if d == 0:
                    exc.cls = t
                    return True
                exc.open = op | {pytype(t)}
            return False
        raise Unsupported("except of %r" % (exc,))

    def s_With(self, n, fr):
        if len(n.items) != 1:
            raise Unsupported("with of several items")
        it = n.items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, GenCall):
            done = []
            pending = []

            def hook(v):
                if done:
                    self.raise_(RuntimeError, "generator didn't stop")
                done.append(1)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                try:
                    self.run_body(n.body, fr)
                except (_Ret, _Brk, _Cont) as x:
                    pending.append(x)
                return None
            self.run_gen(cm, hook)
            if not done:
                self.raise_(RuntimeError, "generator didn't yield")
            if pending:
                raise pending[0]
            return
        if isinstance(cm, Obj) and isinstance(cm.cls, ClassVal) and isinstance(cm.cls.lookup("__enter__")[0], Func):
            v = self.call(self.attr(cm, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            ex = self.attr(cm, "__exit__")
            try:
                self.run_body(n.body, fr)
            except PyRaise as p:
                if self.test(self.call(ex, [p.exc.cls, p.exc, None], {})):
                    return
                raise
            except (_Ret, _Brk, _Cont):
                self.call(ex, [None, None, None], {})
                raise
            self.call(ex, [None, None, None], {})
            return
        if isinstance(cm, SVal) and cm.kind == "file":
            if it.optional_vars is not None:
                self.assign(it.optional_vars, cm, fr)
            self.run_body(n.body, fr)
            return
        raise Unsupported("with %r" % (cm,))

    def s_FunctionDef(self, n, fr):
        f = self.mkfunc(n, fr, (fr.func.key if fr.func else fr.module.name) + ".<locals>." + n.name)
        v = f
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.setvar(fr, n.name, v)

    def mkfunc(self, n, fr, key, cls=None):
        a = n.args
        return Func(n, fr, fr.module, key, [self.ev(d, fr) for d in a.defaults],
                    {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, cls)

    def s_Import(self, n, fr):
        raise Unsupported("local import")

    s_ImportFrom = s_Import
