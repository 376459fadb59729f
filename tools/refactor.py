#!/usr/bin/env python3
"""Behaviour-preserving rewrites applied to every function of a copy of /repo.

usage: refactor.py OUTDIR REWRITE [path-substring]
Used to look for false alarms: the checks must stay quiet on OUTDIR."""
import ast, copy, os, shutil, sys

FILES = ["fluent.syntax/fluent/syntax/" + x for x in ("stream.py", "parser.py", "ast.py", "serializer.py", "visitor.py", "errors.py")] + \
    ["fluent.runtime/fluent/runtime/" + x for x in ("bundle.py", "resolver.py", "prepare.py", "types.py", "utils.py", "builtins.py", "fallback.py", "errors.py")] + \
    ["fluent.pygments/fluent/pygments/lexer.py"]
N = [0]


def fresh(p):
    N[0] += 1
    return "%s_%d" % (p, N[0])


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def assign(n, v):
    return ast.Assign(targets=[name(n, ast.Store())], value=v, lineno=0)


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant))


class Stmts(ast.NodeTransformer):
    """rewrites statement lists inside functions"""
    depth = 0

    def visit_FunctionDef(self, f):
        self.depth += 1
        f = self.generic_visit(f)
        self.depth -= 1
        if self.inside(f):
            self.body(f)
        return f

    def inside(self, f):
        return not any(isinstance(d, ast.Name) and d.id in ("overload",) for d in f.decorator_list)

    def body(self, f):
        self.blocks(f)

    def blocks(self, node):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(node, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out = []
                for i, s in enumerate(b):
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        self.blocks(s)
                        for h in getattr(s, "handlers", ()):
                            self.blocks(h)
                    out += self.stmt(s, b, i, node, fld) or [s]
                    if out[-1:] and getattr(out[-1], "_rest", False):
                        break
                setattr(node, fld, out)

    def stmt(self, s, b, i, parent, fld):
        return None


class RetTemp(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
            n = fresh("result")
            return [assign(n, s.value), ast.Return(value=name(n))]


def neg(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(c.ops[0]))
        if m:
            return ast.Compare(left=c.left, ops=[m()], comparators=c.comparators)
    return ast.UnaryOp(op=ast.Not(), operand=c)


class FlipIf(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(test=neg(s.test), body=s.orelse, orelse=s.body)]


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class GuardElse(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
            rest = ast.Module(body=b[i + 1:], type_ignores=[])
            self.blocks(rest)
            r = ast.If(test=s.test, body=s.body, orelse=rest.body)
            r._rest = True
            return [r]


class UnElse(Stmts):
    """if c: return ... else: rest  ->  if c: return ...; rest"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            return [ast.If(test=s.test, body=s.body, orelse=[])] + s.orelse


class WhileTrue(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.While) and not s.orelse and not simple(s.test):
            return [ast.While(test=ast.Constant(value=True), body=[ast.If(test=neg(s.test), body=[ast.Break()], orelse=[])] + s.body, orelse=[])]


def is_gen(f):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))


class HoistArgs(Stmts):
    def stmt(self, s, b, i, parent, fld):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AugAssign)) and isinstance(v, ast.Call):
            out = []
            for k, a in enumerate(v.args):
                if isinstance(a, ast.Starred):
                    break
                if isinstance(a, (ast.Call, ast.IfExp, ast.BinOp, ast.Attribute, ast.Subscript, ast.JoinedStr)):
                    n = fresh("arg")
                    out.append(assign(n, a))
                    v.args[k] = name(n)
                elif not simple(a):
                    break
            return out + [s] if out else None


class IfExp(Stmts):
    def stmt(self, s, b, i, parent, fld):
        v = getattr(s, "value", None)
        if isinstance(v, ast.IfExp):
            if isinstance(s, ast.Return):
                return [ast.If(test=v.test, body=[ast.Return(value=v.body)], orelse=[ast.Return(value=v.orelse)])]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                t = s.targets[0].id
                return [ast.If(test=v.test, body=[assign(t, v.body)], orelse=[assign(t, v.orelse)])]


class AndNested(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(test=v, body=body, orelse=[])]
            return body


class OrSplit(Stmts):
    """if a or b: return X  ->  if a: return X; if b: return X"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and ends(s.body) and len(s.body) == 1:
            return [ast.If(test=v, body=copy.deepcopy(s.body), orelse=[]) for v in s.test.values]


class LoopVar(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.For) and not simple(s.iter):
            n = fresh("seq")
            return [assign(n, s.iter), ast.For(target=s.target, iter=name(n), body=s.body, orelse=s.orelse, lineno=0)]


class EarlyContinue(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, (ast.For, ast.While)) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
            c = s.body[-1]
            s.body[-1:] = [ast.If(test=neg(c.test), body=[ast.Continue()], orelse=[])] + c.body
            return [s]


class Comp(Stmts):
    def stmt(self, s, b, i, parent, fld):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1:
            g = v.generators[0]
            n = fresh("acc")
            if isinstance(v, ast.ListComp):
                init = ast.List(elts=[], ctx=ast.Load())
                step = ast.Expr(value=ast.Call(func=ast.Attribute(value=name(n), attr="append", ctx=ast.Load()), args=[v.elt], keywords=[]))
            else:
                init = ast.Dict(keys=[], values=[])
                step = ast.Assign(targets=[ast.Subscript(value=name(n), slice=v.key, ctx=ast.Store())], value=v.value, lineno=0)
            body = [step]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            s.value = name(n)
            return [assign(n, init), ast.For(target=g.target, iter=g.iter, body=body, orelse=[], lineno=0), s]


class InOr(Stmts):
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_Compare(self, c):
                self.generic_visit(c)
                if len(c.ops) == 1 and isinstance(c.ops[0], (ast.In, ast.NotIn)) and simple(c.left) and isinstance(c.comparators[0], (ast.Tuple, ast.List)) \
                        and 1 < len(c.comparators[0].elts) < 6 and all(simple(e) or isinstance(e, ast.Attribute) for e in c.comparators[0].elts):
                    i = isinstance(c.ops[0], ast.In)
                    return ast.BoolOp(op=ast.Or() if i else ast.And(), values=[ast.Compare(left=copy.deepcopy(c.left), ops=[ast.Eq() if i else ast.NotEq()], comparators=[e]) for e in c.comparators[0].elts])
                return c
        for x in node.body:
            T().visit(x)


class Noop(Stmts):
    def body(self, f):
        at = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[at:at] = [assign("_unused", ast.Constant(value=0)), ast.Expr(value=ast.Constant(value=None)), ast.Pass()]


class AugAssign(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and \
                (isinstance(s.value, ast.Constant) or isinstance(s.value, ast.JoinedStr)):
            l = copy.deepcopy(s.target)
            l.ctx = ast.Load()
            return [ast.Assign(targets=[s.target], value=ast.BinOp(left=l, op=s.op, right=s.value), lineno=0)]


class CondTemp(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.If) and not simple(s.test):
            n = fresh("cond")
            return [assign(n, s.test), ast.If(test=name(n), body=s.body, orelse=s.orelse)]


class FString(Stmts):
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_JoinedStr(self, j):
                self.generic_visit(j)
                if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in j.values):
                    return j
                fmt = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in j.values)
                return ast.Call(func=ast.Attribute(value=ast.Constant(value=fmt), attr="format", ctx=ast.Load()),
                                args=[v.value for v in j.values if isinstance(v, ast.FormattedValue)], keywords=[])
        for x in node.body:
            T().visit(x)


class FPercent(Stmts):
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_JoinedStr(self, j):
                self.generic_visit(j)
                if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in j.values):
                    return j
                fmt = "".join(v.value.replace("%", "%%") if isinstance(v, ast.Constant) else "%s" for v in j.values)
                return ast.BinOp(left=ast.Constant(value=fmt), op=ast.Mod(), right=ast.Tuple(elts=[v.value for v in j.values if isinstance(v, ast.FormattedValue)], ctx=ast.Load()))
        for x in node.body:
            T().visit(x)


class Join(Stmts):
    """f-strings to concatenation with str()"""
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_JoinedStr(self, j):
                self.generic_visit(j)
                if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in j.values):
                    return j
                parts = [v if isinstance(v, ast.Constant) else ast.Call(func=name("str"), args=[v.value], keywords=[]) for v in j.values]
                e = parts[0] if parts else ast.Constant(value="")
                for p in parts[1:]:
                    e = ast.BinOp(left=e, op=ast.Add(), right=p)
                return e
        for x in node.body:
            T().visit(x)


def locals_of(f):
    a = f.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return params, stored


class Rename(Stmts):
    def body(self, f):
        params, stored = locals_of(f)
        if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) for n in ast.walk(f) if n is not f):
            return
        hnames = {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler)}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in stored and n.id not in params and n.id not in hnames:
                n.id = n.id + "_v"


class Impl(ast.NodeTransformer):
    """every method body moves to a new method, which the old name calls"""
    def visit_ClassDef(self, c):
        self.cls(c)
        return c

    def visit_FunctionDef(self, f):
        return f

    def cls(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and not f.name.startswith("visit_") \
                    and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs:
                g = copy.deepcopy(f)
                g.name = "_" + f.name + "_impl"
                g.args.defaults = []
                call = ast.Call(func=ast.Attribute(value=name(f.args.args[0].arg), attr=g.name, ctx=ast.Load()),
                                args=[name(a.arg) for a in f.args.args[1:]], keywords=[])
                f.body = [ast.Expr(value=ast.YieldFrom(value=call))] if is_gen(f) else [ast.Return(value=call)]
                out += [g, f]
            else:
                out.append(f)
        c.body = out

    def visit_Module(self, m):
        out = []
        for f in m.body:
            if isinstance(f, ast.ClassDef):
                self.cls(f)
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs:
                g = copy.deepcopy(f)
                g.name = "_" + f.name + "_impl"
                g.args.defaults = []
                call = ast.Call(func=name(g.name), args=[name(a.arg) for a in f.args.args], keywords=[])
                f.body = [ast.Expr(value=ast.YieldFrom(value=call))] if is_gen(f) else [ast.Return(value=call)]
                out += [g, f]
            else:
                out.append(f)
        m.body = out
        return m


def loads(nodes):
    return {n.id for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def stores(nodes):
    return {n.id for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


class Tail(ast.NodeTransformer):
    """the second half of every longer function becomes a helper function"""
    def pick(self, f):
        b = f.body
        return max(1, len(b) // 2) if len(b) >= 3 else None

    def split(self, f, method):
        if is_gen(f) or f.decorator_list or any(isinstance(n, (ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda)) for n in ast.walk(f) if n is not f):
            return None
        if f.name == "__init__":
            return None
        k = self.pick(f)
        if not k:
            return None
        head, tail = f.body[:k], f.body[k:]
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for s in tail for n in ast.walk(s)):
            return None
        params, _ = locals_of(f)
        avail = set(params) | stores(head)
        comp = {n.id for s in tail for c in ast.walk(s) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        # a name assigned in the head on some paths only would be unbound: only straight-line assignments
        sure = set(params) | {t.id for s in head if isinstance(s, ast.Assign) or isinstance(s, ast.AnnAssign) and s.value is not None for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
        need = sorted((loads(tail) | {n.target.id for s in tail for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}) & avail)
        if not set(need) <= sure:
            return None
        me = params[0] if method else None
        args = [n for n in need if n != me]
        g = ast.FunctionDef(name="_%s_rest" % f.name.strip("_"), args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in ([me] if me else []) + args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=tail, decorator_list=[], lineno=0)
        fn = ast.Attribute(value=name(me), attr=g.name, ctx=ast.Load()) if me else name(g.name)
        f.body = head + [ast.Return(value=ast.Call(func=fn, args=[name(a) for a in args], keywords=[]))]
        return g

    def visit_Module(self, m):
        out = []
        for f in m.body:
            if isinstance(f, ast.ClassDef):
                nb = []
                for x in f.body:
                    if isinstance(x, ast.FunctionDef):
                        g = self.split(x, True)
                        nb += ([g] if g else []) + [x]
                    else:
                        nb.append(x)
                f.body = nb
                out.append(f)
            elif isinstance(f, ast.FunctionDef):
                g = self.split(f, False)
                out += ([g] if g else []) + [f]
            else:
                out.append(f)
        m.body = out
        return m


class LoopOut(Tail):
    """the first loop of every function (from it to the end) becomes a helper"""
    def pick(self, f):
        for i, s in enumerate(f.body):
            if isinstance(s, (ast.While, ast.For)) and i:
                return i
        return None


class ExprOut(Stmts):
    """non-trivial conditions of if/while/elif become calls of a helper method"""
    def visit_Module(self, m):
        self.new = []
        out = []
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                self.helpers = []
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and not f.decorator_list and f.args.args and not is_gen(f):
                        self.f = f
                        self.me = f.args.args[0].arg
                        self.blocks(f)
                c.body += self.helpers
            out.append(c)
        m.body = out
        return m

    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, (ast.Compare, ast.BoolOp)) and not any(isinstance(n, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(s.test)):
            params, st = locals_of(self.f)
            need = sorted(loads([ast.Expr(value=s.test)]) & (set(params) | st))
            args = [n for n in need if n != self.me]
            g = fresh("_check")
            self.helpers.append(ast.FunctionDef(name=g, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in [self.me] + args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                body=[ast.Return(value=s.test)], decorator_list=[], lineno=0))
            s.test = ast.Call(func=ast.Attribute(value=name(self.me), attr=g, ctx=ast.Load()), args=[name(a) for a in args], keywords=[])


class NotChain(Stmts):
    """elif chains become nested else blocks with a temporary; 'x is None' tests become 'not (x is not None)'"""
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_Compare(self, c):
                self.generic_visit(c)
                if len(c.ops) == 1 and isinstance(c.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                    return ast.UnaryOp(op=ast.Not(), operand=neg(c))
                return c
        for x in node.body:
            T().visit(x)


class Yoda(Stmts):
    """a == b -> b == a; a < b -> b > a"""
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_Compare(self, c):
                self.generic_visit(c)
                m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
                if len(c.ops) == 1 and type(c.ops[0]) in m and not any(isinstance(n, ast.Call) for n in ast.walk(c)):
                    return ast.Compare(left=c.comparators[0], ops=[m[type(c.ops[0])]()], comparators=[c.left])
                return c
        for x in node.body:
            T().visit(x)


class EnumIdx(Stmts):
    """for x in seq -> for i, x in enumerate(seq)"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate"):
            return [ast.For(target=ast.Tuple(elts=[name(fresh("_i"), ast.Store()), s.target], ctx=ast.Store()),
                            iter=ast.Call(func=name("enumerate"), args=[s.iter], keywords=[]), body=s.body, orelse=s.orelse, lineno=0)]


class Extend(Stmts):
    """xs.append(e) -> xs.extend([e]);  xs.extend(e) -> xs += e"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            if s.value.func.attr == "append" and len(s.value.args) == 1:
                s.value.func.attr = "extend"
                s.value.args = [ast.List(elts=s.value.args, ctx=ast.Load())]
                return [s]


def has(body, *kinds):
    """a statement of these kinds that belongs to this loop"""
    for s in body:
        if isinstance(s, kinds):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if has(getattr(s, f, []) or [], *kinds):
                return True
        for h in getattr(s, "handlers", ()):
            if has(h.body, *kinds):
                return True
    return False


class ForIndex(Stmts):
    """for x in xs (a list) -> while i < len(xs)"""
    SEQ = ("elements", "variants", "body", "positional", "named", "attributes", "args", "locales", "resource_ids", "roots", "entries", "parts")

    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.For) and not s.orelse and not has(s.body, ast.Continue) and isinstance(s.iter, ast.Attribute) and s.iter.attr in self.SEQ:
            n, q = fresh("i"), fresh("seq")
            return [assign(q, ast.Call(func=name("list"), args=[s.iter], keywords=[])) if s.iter.attr == "attributes" else assign(q, s.iter), assign(n, ast.Constant(value=0)),
                    ast.While(test=ast.Compare(left=name(n), ops=[ast.Lt()], comparators=[ast.Call(func=name("len"), args=[name(q)], keywords=[])]),
                              body=[ast.Assign(targets=[s.target], value=ast.Subscript(value=name(q), slice=name(n), ctx=ast.Load()), lineno=0),
                                    ast.AugAssign(target=name(n, ast.Store()), op=ast.Add(), value=ast.Constant(value=1))] + s.body, orelse=[])]


class ForRange(Stmts):
    """for x in xs (a list) -> for i in range(len(xs))"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Attribute, ast.Name)) and (s.iter.attr if isinstance(s.iter, ast.Attribute) else s.iter.id) in ForIndex.SEQ and not \
                (isinstance(s.iter, ast.Attribute) and s.iter.attr == "attributes" and isinstance(s.target, ast.Name) and s.target.id == "attr_name"):
            n = fresh("i")
            return [ast.For(target=name(n, ast.Store()), iter=ast.Call(func=name("range"), args=[ast.Call(func=name("len"), args=[s.iter], keywords=[])], keywords=[]),
                            body=[ast.Assign(targets=[s.target], value=ast.Subscript(value=copy.deepcopy(s.iter), slice=name(n), ctx=ast.Load()), lineno=0)] + s.body, orelse=s.orelse, lineno=0)]


class GenList(Stmts):
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_ListComp(self, c):
                self.generic_visit(c)
                return ast.Call(func=name("list"), args=[ast.GeneratorExp(elt=c.elt, generators=c.generators)], keywords=[])

            def visit_DictComp(self, c):
                self.generic_visit(c)
                return ast.Call(func=name("dict"), args=[ast.GeneratorExp(elt=ast.Tuple(elts=[c.key, c.value], ctx=ast.Load()), generators=c.generators)], keywords=[])
        for x in node.body:
            T().visit(x)


class ExtendGen(Stmts):
    """for x in e: l.append(f(x)) -> l.extend(f(x) for x in e)"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call):
            c = s.body[0].value
            if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and len(c.args) == 1:
                c.func.attr = "extend"
                c.args = [ast.GeneratorExp(elt=c.args[0], generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0)])]
                return [s.body[0]]


class IsSplit(Stmts):
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_Call(self, c):
                self.generic_visit(c)
                if isinstance(c.func, ast.Name) and c.func.id == "isinstance" and isinstance(c.args[1], ast.Tuple) and simple(c.args[0]):
                    return ast.BoolOp(op=ast.Or(), values=[ast.Call(func=name("isinstance"), args=[copy.deepcopy(c.args[0]), k], keywords=[]) for k in c.args[1].elts])
                return c
        for x in node.body:
            T().visit(x)


class MergeReturn(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value:
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.Return) and s.orelse[0].value:
                return [ast.Return(value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=s.orelse[0].value))]
            if not s.orelse and i + 2 == len(b) and isinstance(b[i + 1], ast.Return) and b[i + 1].value:
                r = ast.Return(value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=b[i + 1].value))
                r._rest = True
                return [r]


class ConstOut(ast.NodeTransformer):
    """texts and tuples of constants become module constants"""
    def visit_Module(self, m):
        self.new, self.inf = {}, False
        self.generic_visit(m)
        k = max([i for i, x in enumerate(m.body) if isinstance(x, (ast.Import, ast.ImportFrom))], default=-1) + 1
        m.body[k:k] = [assign(n, v) for n, v in self.new.values()]
        return m

    def visit_FunctionDef(self, f):
        if any(isinstance(d, ast.Name) and d.id == "overload" for d in f.decorator_list):
            return f
        doc = f.body[0] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else None
        old, self.inf = self.inf, True
        f.body = [x if x is doc else self.visit(x) for x in f.body]
        self.inf = old
        return f

    def const(self, n):
        k = ast.dump(n)
        if k not in self.new:
            self.new[k] = ("_CONST_%d" % len(self.new), n)
        return name(self.new[k][0])

    def visit_Constant(self, n):
        return self.const(n) if self.inf and isinstance(n.value, str) and n.value else n

    def visit_Tuple(self, n):
        if self.inf and isinstance(n.ctx, ast.Load) and n.elts and all(isinstance(e, ast.Constant) for e in n.elts):
            return self.const(n)
        return self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value:
            n.value = self.visit(n.value)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "cast":
            n.args[1:] = [self.visit(x) for x in n.args[1:]]
            return n
        return self.generic_visit(n)


class Walrus(Stmts):
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(b) and isinstance(b[i + 1], ast.If):
            t = b[i + 1].test
            x = s.targets[0].id
            w = ast.NamedExpr(target=name(x, ast.Store()), value=s.value)
            if isinstance(t, ast.Name) and t.id == x:
                b[i + 1].test = w
            elif isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == x:
                t.left = w
            else:
                return None
            return [ast.Pass()]


class Ann(Stmts):
    """x = v -> x: object = v; x: T = v -> x = v"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            return [assign(s.target.id, s.value)]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return [ast.AnnAssign(target=s.targets[0], annotation=name("object"), value=s.value, simple=1)]


class Ctor(Stmts):
    """[] -> list(); {} -> dict()"""
    def blocks(self, node):
        class T(ast.NodeTransformer):
            def visit_List(self, c):
                self.generic_visit(c)
                return ast.Call(func=name("list"), args=[], keywords=[]) if not c.elts and isinstance(c.ctx, ast.Load) else c

            def visit_Dict(self, c):
                self.generic_visit(c)
                return ast.Call(func=name("dict"), args=[], keywords=[]) if not c.keys else c
        for x in node.body:
            T().visit(x)


class TupleAssign(Stmts):
    """a = x; b = y -> a, b = x, y   when y does not use a"""
    def stmt(self, s, b, i, parent, fld):
        if i + 1 < len(b) and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, b[i + 1])):
            t = b[i + 1]
            if s.targets[0].id not in loads([t]) and s.targets[0].id != t.targets[0].id:
                b[i + 1] = ast.Pass()
                return [ast.Assign(targets=[ast.Tuple(elts=[s.targets[0], t.targets[0]], ctx=ast.Store())], value=ast.Tuple(elts=[s.value, t.value], ctx=ast.Load()), lineno=0)]


class Nested(Tail):
    """the second half of every longer function becomes a nested function"""
    def split(self, f, method):
        k = self.pick(f)
        if not k or is_gen(f) or f.name == "__init__" or any(isinstance(n, (ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda)) for n in ast.walk(f) if n is not f):
            return None
        if f.decorator_list or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for n in ast.walk(f)):
            return None
        head, tail = f.body[:k], f.body[k:]
        params, _ = locals_of(f)
        if stores(tail) & (set(params) | stores(head)):
            return None
        g = ast.FunctionDef(name="rest", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=tail, decorator_list=[], lineno=0)
        f.body = head + [g, ast.Return(value=ast.Call(func=name("rest"), args=[], keywords=[]))]
        return None


class Alias(Stmts):
    """self.f(...) used as a statement's value twice or more in a function: f = self.f"""
    def body(self, f):
        a = f.args.args
        if not a or a[0].arg != "self" or is_gen(f) or self.depth:
            return
        cnt = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                cnt[n.func.attr] = cnt.get(n.func.attr, 0) + 1
        pick = {k for k, v in cnt.items() if v >= 2}
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr in pick:
                n.func = name("call_" + n.func.attr)
        at = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[at:at] = [assign("call_" + k, ast.Attribute(value=name("self"), attr=k, ctx=ast.Load())) for k in sorted(pick)]


class Getter(Stmts):
    """d.get(k) tests: 'k in d' before 'd[k]' in a try"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.Try) and len(s.handlers) == 1 and len(s.body) == 1 and not s.orelse and not s.finalbody and isinstance(s.handlers[0].type, ast.Name) \
                and s.handlers[0].type.id in ("KeyError", "LookupError") and s.handlers[0].name is None:
            v = getattr(s.body[0], "value", None)
            if isinstance(v, ast.Subscript):
                return [ast.If(test=ast.Compare(left=v.slice, ops=[ast.In()], comparators=[v.value]), body=s.body, orelse=s.handlers[0].body)]


class FlagLoop(Stmts):
    """while c: ... -> running = True; while running: if c: ... else: running = False   (no break or continue inside)"""
    def stmt(self, s, b, i, parent, fld):
        if isinstance(s, ast.While) and not s.orelse and not has(s.body, ast.Break, ast.Continue) and not simple(s.test):
            n = fresh("running")
            return [assign(n, ast.Constant(value=True)), ast.While(test=name(n), body=[ast.If(test=s.test, body=s.body, orelse=[assign(n, ast.Constant(value=False))])], orelse=[])]


class SingleExit(Stmts):
    """if c: ...; return a \n return b -> result = ...; one return at the end (the last if of a function)"""
    def body(self, f):
        b = f.body
        if len(b) >= 2 and not is_gen(f) and isinstance(b[-1], ast.Return) and b[-1].value is not None and isinstance(b[-2], ast.If) and not b[-2].orelse \
                and isinstance(b[-2].body[-1], ast.Return) and b[-2].body[-1].value is not None:
            n = fresh("out")
            i = b[-2]
            f.body = b[:-2] + [ast.If(test=i.test, body=i.body[:-1] + [assign(n, i.body[-1].value)], orelse=[assign(n, b[-1].value)]), ast.Return(value=name(n))]



ALL = {k.__name__: k for k in (RetTemp, FlipIf, GuardElse, UnElse, WhileTrue, HoistArgs, IfExp, AndNested, OrSplit, LoopVar, EarlyContinue, Comp, InOr, Noop, AugAssign,
                               CondTemp, FString, FPercent, Join, Rename, Impl, Tail, LoopOut, ExprOut, NotChain, Yoda, EnumIdx, Extend,
                               ForIndex, ForRange, GenList, ExtendGen, IsSplit, MergeReturn, ConstOut, Walrus, Ann, Ctor, TupleAssign, Nested, Alias, Getter, FlagLoop, SingleExit)}


def main():
    out, rw = sys.argv[1:3]
    for x in os.listdir("/repo"):
        if x.startswith("fluent."):
            shutil.copytree("/repo/" + x, out + "/" + x, ignore=shutil.ignore_patterns("build", "*.egg-info", "__pycache__"), dirs_exist_ok=True)
    for p in FILES:
        if sys.argv[3:] and sys.argv[3] not in p:
            continue
        q = os.path.join(out, p)
        src = open(q, encoding="utf-8").read()
        t = ALL[rw]().visit(ast.parse(src))
        ast.fix_missing_locations(t)
        s = ast.unparse(t)
        compile(s, q, "exec")
        open(q, "w", encoding="utf-8").write(s + "\n")


if __name__ == "__main__":
    main()
