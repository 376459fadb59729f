"""Local variables that may be read before they are written again, at the head
of each loop of a function (backward analysis over its syntax tree)."""
import ast


def loads(*es):
    out = set()
    for e in es:
        if e is not None:
            out |= {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}
    return out


def stores(t):
    """names a target assigns as a whole"""
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[stores(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return stores(t.value)
    return set()


class Live:
    def __init__(self, fn):
        self.heads = {}
        self.always = set()
        self.ok = True
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                self.always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
            if isinstance(n, ast.Name) and n.id in ("locals", "eval", "exec") or isinstance(n, ast.Match):
                self.ok = False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("vars", "dir") and not n.args:
                self.ok = False
        if isinstance(fn.body, list):
            self.block(fn.body, set(), set(), None, None)

    def block(self, body, out, exc, brk, cont):
        for st in reversed(body):
            out = self.stmt(st, out, exc, brk, cont) | exc
        return out

    def stmt(self, s, out, exc, brk, cont):
        if isinstance(s, (ast.Return, ast.Raise)):
            return loads(s)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.Assign):
            kill = set().union(*[stores(t) for t in s.targets])
            return (out - kill) | loads(s.value, *s.targets)
        if isinstance(s, ast.AnnAssign):
            kill = stores(s.target) if s.value is not None else set()
            return (out - kill) | loads(s.value, *([] if isinstance(s.target, ast.Name) else [s.target]))
        if isinstance(s, ast.AugAssign):
            return out | loads(s.value, s.target) | stores(s.target)
        if isinstance(s, ast.If):
            return self.block(s.body, out, exc, brk, cont) | self.block(s.orelse, out, exc, brk, cont) | loads(s.test)
        if isinstance(s, (ast.For, ast.While)):
            after = self.block(s.orelse, out, exc, brk, cont)
            w = isinstance(s, ast.While)
            kill = set() if w else stores(s.target)
            extra = loads(s.test) if w else loads(s.target)
            head = set(after) | extra
            while True:
                new = head | (self.block(s.body, head, exc, out, head) - kill) | extra
                if new == head:
                    break
                head = new
            self.heads[(s.lineno, s.col_offset)] = head
            return head if w else head | loads(s.iter)
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, exc, brk, cont) if s.finalbody else out
            e = set(exc)
            if s.finalbody:
                e |= fin
                brk = fin | (brk or set())
                cont = fin | (cont or set())
            h = set(e)
            for x in s.handlers:
                h |= self.block(x.body, fin, e, brk, cont) | loads(x.type)
            return self.block(s.body, self.block(s.orelse, fin, e, brk, cont), h, brk, cont) | h
        if isinstance(s, ast.With):
            return self.block(s.body, out, exc | out, brk, cont) | out | loads(*[i.context_expr for i in s.items])
        return out | loads(s)


cache = {}


def dead(func, node, name):
    """is the variable always written before it is read, from the head of this loop?"""
    if func is None or not isinstance(node, (ast.For, ast.While)):
        return False
    k = id(func.node)
    if k not in cache:
        cache[k] = (Live(func.node), func.node)
    l = cache[k][0]
    h = l.heads.get((node.lineno, node.col_offset))
    return l.ok and h is not None and name not in h and name not in l.always
