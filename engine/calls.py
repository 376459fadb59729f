"""Modules, classes, attribute access, calls, contracts, loops."""
import ast
from collections import ChainMap
import copy
import os
import z3
from .interp import *
from .interp import _Ret, _Brk, _Cont
from .evalx import Ev, EXC, is_pure
from .sym import *
from . import models
from .live import dead

TYPES = {}


class Program:
    """the current source of /repo, parsed on every run"""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.trees = {}
        self.paths = {}
        import glob
        for p in sorted(glob.glob(repo + "/fluent.*/fluent/**/*.py", recursive=True)):
            rel = p[p.index("/fluent/") + 1:-3].replace("/", ".")
            if rel.endswith(".__init__"):
                rel = rel[:-9]
            self.paths[rel] = p
            self.trees[rel] = ast.parse(open(p, encoding="utf-8").read(), p)


class Full(Engine, Ev):
    def __init__(self, session, dec, work):
        Engine.__init__(self, session, dec, work)
        self.modules = {}
        self.builtins = models.BUILTINS

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = Module(name, self.prog.paths[name])
        self.modules[name] = m
        m.env["__name__"] = name
        fr = Frame(None, m)
        fr.vars = m.env
        saved, self.line = getattr(self, "line", 0), 0
        nw = len(self.writes)
        self.toplevel(self.prog.trees[name].body, fr)
        del self.writes[nw:]        # the module's own set-up
        self.line = saved
        return m

    def shared(self):
        """what modules, classes and default arguments hold: it outlives a call"""
        out = {}
        todo = [m.env for m in self.modules.values()]
        seen = set()
        while todo:
            v = todo.pop()
            if isinstance(v, (str, int, float, type(None), ast.AST)) or id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, dict):
                todo.extend(v.values())
            elif isinstance(v, (list, tuple, set, frozenset)):
                todo.extend(v)
            elif isinstance(v, ClassVal):
                todo.append(v.attrs)
            elif isinstance(v, Func):
                todo.append(v.defaults)
                todo.append(v.kwdefaults)
            elif isinstance(v, (Wrapped, GenFactory, Bound)):
                todo.append(v.func)
                todo.append(getattr(v, "self_", None))
            elif isinstance(v, (SDict, SList)):
                out[id(v)] = v
                todo.append(v.items)
            elif isinstance(v, SSet):
                out[id(v)] = v
            elif isinstance(v, Obj) and v.term is None:
                out[id(v)] = v
                todo.append(v.fields)
        return out

    def toplevel(self, body, fr):
        for st in body:
            try:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            fr.vars[a.asname] = self.extmod(a.name)
                        else:
                            fr.vars[a.name.split(".")[0]] = self.extmod(a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        parent = fr.module.name if fr.module.path.endswith("__init__.py") else fr.module.name.rsplit(".", 1)[0]
                        for _ in range(st.level - 1):
                            parent = parent.rsplit(".", 1)[0]
                        base = parent + ("." + base if base else "")
                    for a in st.names:
                        fr.vars[a.asname or a.name] = self.import_from(base, a.name)
                elif isinstance(st, ast.If):
                    # TYPE_CHECKING blocks are not executed
                    t = st.test
                    if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                        continue
                    self.toplevel(st.body if self.test(self.ev(t, fr)) else st.orelse, fr)
                elif isinstance(st, ast.ClassDef):
                    fr.vars[st.name] = self.mkclass(st, fr)
                elif isinstance(st, ast.FunctionDef):
                    f = self.mkfunc(st, fr, fr.module.name + ":" + st.name)
                    v = f
                    for d in reversed(st.decorator_list):
                        v = self.call(self.ev(d, fr), [v], {})
                    if isinstance(v, Func) and v is not f:
                        v = copy.copy(v)
                        v.key = f.key
                    fr.vars[st.name] = v
                elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                    self.st(st, fr)
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    pass
                elif isinstance(st, ast.Pass):
                    pass
                else:
                    self.st(st, fr)
            except (Unsupported, PyRaise) as e:
                for t in getattr(st, "targets", [getattr(st, "target", None)]):
                    if isinstance(t, ast.Name):
                        fr.vars[t.id] = Ext(fr.module.name + ":" + t.id)

    def extmod(self, name):
        if name in self.prog.trees:
            return self.module(name)
        return models.ext(name)

    def import_from(self, base, name):
        full = base + "." + name
        if full in self.prog.trees:
            return self.module(full)
        if base in self.prog.trees:
            m = self.module(base)
            return m.env.get(name, Ext(full))
        return models.ext(full)

    def mkclass(self, n, fr, qual=None):
        bases = [self.ev(b, fr) for b in n.bases]
        bases = [b for b in bases if isinstance(b, (ClassVal, type))]
        qual = (qual + "." if qual else "") + n.name
        cf = Frame(fr, fr.module)
        cv = ClassVal(n.name, bases, cf.vars, fr.module, qual)
        order = []
        for st in n.body:
            if isinstance(st, ast.FunctionDef):
                f = self.mkfunc(st, fr, fr.module.name + ":" + qual + "." + st.name, cv)
                f.frame = Frame(fr, fr.module) if False else fr
                v = f
                for d in reversed(st.decorator_list):
                    if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter"):
                        continue
                    v = self.call(self.ev(d, cf), [v], {})
                if isinstance(v, Func) and v is not f:
                    v = copy.copy(v)
                    v.key = f.key
                cf.vars[st.name] = v
            elif isinstance(st, ast.ClassDef):
                cf.vars[st.name] = self.mkclass(st, cf, qual)
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    try:
                        cf.vars[st.target.id] = self.ev(st.value, cf)
                        order.append(st.target.id)
                    except Unsupported:
                        cf.vars[st.target.id] = Ext("%s.%s" % (qual, st.target.id))
            elif isinstance(st, ast.Assign):
                try:
                    self.st(st, cf)
                except Unsupported:
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            cf.vars[t.id] = Ext("%s.%s" % (qual, t.id))
                order += [t.id for t in st.targets if isinstance(t, ast.Name)]
        cv.order = order
        v = cv
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        return v

    # ------------------------------------------------------------ attributes
    def attr(self, o, name):
        v = self.attr_or_missing(o, name)
        if v is MISSING:
            if isinstance(o, (SVal,)):
                raise Unsupported("attribute %s of %r" % (name, o))
            self.raise_(AttributeError, name)
        return v

    def attr_or_missing(self, o, name):
        if isinstance(o, Obj):
            v = self.getfield(o, name)
            if v is not MISSING:
                return v
            self.resolve_cls(o)
            c = o.cls
            if name == "__class__":
                return c
            if name == "__dict__":
                return self.vars_of(o)
            if isinstance(c, ClassVal):
                f, owner = c.lookup(name)
                if f is not None:
                    return self.bind(o, f, owner, name)
                h = self.s.registry.attr_hook
                r = h(self, o, name) if h else None
                if r is None and getattr(o, "partial", False):
                    raise Unsupported("attribute %s of an object the contract describes in part" % name)
                return MISSING if r is None else r
            if isinstance(c, type):
                if name == "args":
                    return o.fields.get("args", ())
                h = self.s.registry.attr_hook
                r = h(self, o, name) if h else None
                return MISSING if r is None else r
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro())
            f, owner = o.lookup(name)
            if f is None:
                return MISSING
            if isinstance(f, Wrapped):
                if f.kind == "classmethod":
                    return Bound(o, f.func, owner.key + "." + name)
                if f.kind == "staticmethod":
                    return f.func
                return f
            if isinstance(f, BuiltinAttr):
                return models.class_attr(self, o, f, name)
            return f
        if isinstance(o, Module):
            return o.env.get(name, MISSING)
        if isinstance(o, Ext):
            return models.ext(o.path + "." + name)
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
            return models.type_attr(self, o, name)
        if isinstance(o, Super):
            return o.get(self, name)
        if isinstance(o, Func) and name == "__name__":
            return o.name
        h = self.s.registry.attr_hook
        if h:
            r = h(self, o, name)
            if r is not None:
                return r
        return models.value_attr(self, o, name)

    def bind(self, o, f, owner, name):
        key = (owner.key + "." + name) if isinstance(owner, ClassVal) else None
        if isinstance(f, Wrapped):
            if f.kind == "property":
                return self.call(Bound(o, f.func, key), [], {})
            if f.kind == "classmethod":
                return Bound(o.cls, f.func, key)
            if f.kind == "staticmethod":
                return f.func
        if isinstance(f, (Func, GenFactory)):
            return Bound(o, f, key)
        if isinstance(f, BuiltinAttr):
            return models.builtin_method(self, o, f, name)
        if isinstance(f, Native):
            return Bound(o, f, key)
        return f

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            self.resolve_cls(o)
            if isinstance(o.cls, ClassVal):
                f, owner = o.cls.lookup(name)
                if isinstance(f, Wrapped) and f.kind == "property":
                    self.raise_(AttributeError, name)
                if isinstance(o.cls.lookup("__setattr__")[0], Func):
                    raise Unsupported("__setattr__")
            return self.setfield(o, name, v)
        if isinstance(o, SVal):
            h = self.s.registry.setattr_hook
            if h and h(self, o, name, v):
                return
        if isinstance(o, (ClassVal, Module)):
            raise Unsupported("assignment to a class or module attribute")
        raise Unsupported("attribute assignment on %r" % (o,))

    def vars_of(self, o):
        self.resolve_cls(o)
        sch = self.schema(o.cls) if o.term is not None else None
        if sch:
            for n in sch:
                self.getfield(o, n)
            names = [n for n in sch if n in o.fields] + [n for n in o.fields if n not in sch]
        else:
            names = list(o.fields)
        d = SDict([[n, o.fields[n]] for n in names])
        d.view_of = o
        return d

    def mk_super(self, n, fr):
        if n.args:
            c = self.ev(n.args[0], fr)
            s = self.ev(n.args[1], fr)
        else:
            f = fr
            while f.func is None or f.func.cls is None or f.self_ is None:
                f = f.parent
                if f is None:
                    raise Unsupported("super()")
            c, s = f.func.cls, f.self_
        return Super(c, s)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        if any(isinstance(x, StarArgs) for x in args) and not isinstance(f, SVal):
            raise Unsupported("* of a symbolic list")
        if isinstance(f, Bound):
            if f.key:
                c = self.contract_for(f)
                if c is not None:
                    return self.apply_contract(c, f, [f.self_] + list(args), kw)
            g = f.func
            if isinstance(g, BuiltinAttr):
                return models.call_builtin(self, f.self_, g, args, kw)
            return self.call_raw(g, [f.self_] + list(args), kw, f.key)
        if isinstance(f, Func):
            c = self.contract_key(f.key) if self.binding(f) else None
            if c is not None:
                return self.apply_contract(c, f, list(args), kw)
            return self.call_raw(f, args, kw, f.key)
        if isinstance(f, Native):
            return f.f(self, list(args), kw)
        if isinstance(f, (ClassVal, type)):
            return self.construct(f, list(args), kw)
        if isinstance(f, Ext):
            return models.call_ext(self, f, list(args), kw)
        if isinstance(f, Obj):
            if f.cands and self.s.registry.dispatch_hook:
                r = self.s.registry.dispatch_hook(self, f, args, kw)
                if r is not None:
                    return r[0]
            self.resolve_cls(f)
            if isinstance(f.cls, ClassVal):
                g, owner = f.cls.lookup("__call__")
                if g is not None:
                    return self.call(self.bind(f, g, owner, "__call__"), args, kw, node)
            self.raise_(TypeError, "object is not callable")
        if f is None or isinstance(f, (int, str, SStr, SInt, SList, SDict, tuple)):
            self.raise_(TypeError, "object is not callable")
        if isinstance(f, GenFactory):
            return GenCall(f.func, args, kw)
        if isinstance(f, SVal):
            h = self.s.registry.call_hook
            if h:
                r = h(self, f, args, kw)
                if r is not None:
                    return r[0]
        raise Unsupported("call of %r" % (f,))

    def binding(self, f):
        """is f what its qualified name is bound to (and not the function behind a decorator)?"""
        mod, _, qual = (f.key or "").partition(":")
        if f.key is None or f.key not in self.s.registry.active:
            return False
        m = self.module(mod)
        env = m.env
        v = None
        for x in qual.split("."):
            v = env.get(x)
            if isinstance(v, ClassVal):
                env = v.attrs
        while isinstance(v, Wrapped):
            v = v.func
        return v is f or getattr(v, "node", None) is f.node

    def contract_key(self, key):
        if key is None:
            return None
        c = self.s.registry.active.get(key)
        if c is None:
            return None
        if self.verifying == key and self.ghost.pop("first", False):
            return None
        return c

    def contract_for(self, b):
        """contract of a method, found along the MRO of the receiver"""
        name = b.key.rsplit(".", 1)[1]
        o = b.self_
        cls = o.cls if isinstance(o, Obj) else o if isinstance(o, ClassVal) else None
        keys = [b.key]
        if isinstance(cls, ClassVal):
            # a contract stated for a base class holds for overriding methods too
            keys += [c.key + "." + name for c in cls.mro() if isinstance(c, ClassVal)]
        for k in keys:
            if k in self.s.registry.active:
                if self.verifying == k and self.ghost.pop("first", False):
                    return None
                return self.s.registry.active[k]
        return None

    def call_raw(self, f, args, kw, key=None):
        if isinstance(f, Native):
            return f.f(self, list(args), kw)
        if isinstance(f, GenFactory):
            return GenCall(f.func, args, kw)
        if isinstance(f, Wrapped):
            return self.call_raw(f.func, args, kw, key)
        if not isinstance(f, Func):
            return self.call(f, args, kw)
        if f.is_gen:
            return GenCall(f, args, kw)
        return self.exec_func(f, args, kw)

    def exec_func(self, f, args, kw, hook=None):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth (recursion without contract in %s)" % f.key)
        if sum(1 for x in self.frames if x.func is not None and x.func.node is f.node) > 6:
            raise Unsupported("recursion without contract in %s" % f.key)
        fr = Frame(f.frame, f.module, f)
        fr.hook = hook
        self.s.functions.add(f.key)
        self.bind_args(f, args, kw, fr)
        if f.cls is not None and args:
            fr.self_ = args[0]
        self.frames.append(fr)
        line = getattr(self, "line", 0)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            self.run_body(f.node.body, fr)
            return None
        except _Ret as r:
            return r.v
        finally:
            self.frames.pop()
            self.depth -= 1
            self.line = line

    def bind_args(self, f, args, kw, fr):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        symkw = kw.get("**")
        kw = {k: v for k, v in kw.items() if k != "**"}
        args = list(args)
        for n, v in zip(names, args):
            fr.vars[n] = v
        if len(args) > len(names):
            if not a.vararg:
                self.raise_(TypeError, "too many positional arguments")
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        knames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in knames:
                if k in fr.vars:
                    self.raise_(TypeError, "multiple values for argument")
                fr.vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_(TypeError, "unexpected keyword argument %s" % k)
        if a.kwarg:
            if symkw is not None:
                if extra:
                    raise Unsupported("mixed symbolic **kwargs")
                h = self.s.registry.symkw_hook
                if h:
                    h(self, f, symkw, knames)
                fr.vars[a.kwarg.arg] = SDict(symkw.items, symkw.base, symkw.shape)
            else:
                fr.vars[a.kwarg.arg] = SDict([[k, v] for k, v in extra.items()])
        elif symkw is not None:
            raise Unsupported("symbolic **kwargs for %s" % f.key)
        d = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            if n not in fr.vars:
                fr.vars[n] = v
        for n, v in f.kwdefaults.items():
            if n not in fr.vars:
                fr.vars[n] = v
        for n in knames:
            if n not in fr.vars:
                self.raise_(TypeError, "missing argument %s" % n)

    def construct(self, c, args, kw):
        if isinstance(c, ClassVal):
            k = c.key
            if k in self.s.registry.active_new:
                return self.s.registry.active_new[k](self, c, args, kw)
            new, owner = c.lookup("__new__")
            if isinstance(new, Func) or isinstance(new, Wrapped):
                o = self.call(new if isinstance(new, Func) else new.func, [c] + args, kw)
                if not (isinstance(o, Obj) and isinstance(o.cls, ClassVal) and issub(o.cls, c)):
                    return o
            elif any(isinstance(b, type) and b not in (object,) and not issubclass(b, BaseException) for b in c.mro()):
                o = models.builtin_new(self, c, args, kw)
            else:
                o = Obj(c)
                o.__dict__["new"] = True
                if issubclass(c.py, BaseException):
                    o.fields["args"] = tuple(args)
            init, owner = c.lookup("__init__")
            if c.attrib is not None and not (isinstance(init, Func) and owner is c):
                self.attrs_init(c, o, args, kw)
            elif isinstance(init, (Func, Native)):
                self.call(Bound(o, init, owner.key + ".__init__"), args, kw)
            elif (args or kw) and not isinstance(new, Func) and not issubclass(c.py, BaseException) and isinstance(init, type(None)) and not any(isinstance(b, type) and b is not object for b in c.mro()):
                self.raise_(TypeError, "%s() takes no arguments" % c.name)
            return o
        return models.construct_builtin(self, c, args, kw)

    def attrs_init(self, c, o, args, kw):
        kw = dict(kw)
        symkw = kw.pop("**", None)
        fs = c.attrib
        pos = [f for f in fs if f["init"]]
        if len(args) > len(pos):
            self.raise_(TypeError, "too many arguments")
        given = {f["name"]: v for f, v in zip(pos, args)}
        for k, v in kw.items():
            if k in given or k not in [f["name"] for f in pos]:
                self.raise_(TypeError, "unexpected argument %s" % k)
            given[k] = v
        if symkw is not None:
            h = self.s.registry.attrs_symkw_hook
            if not h:
                raise Unsupported("symbolic keyword arguments for an attr class")
            return h(self, c, o, given, symkw)
        for f in fs:
            if f["name"] in given:
                v = given[f["name"]]
            elif f["factory"] is not None:
                v = self.call(f["factory"], [], {})
            elif f["default"] is not MISSING:
                v = f["default"]
            else:
                self.raise_(TypeError, "missing argument %s" % f["name"])
            o.fields[f["name"]] = v
        for f in fs:
            if f["validator"] is not None and f["name"] in given:
                self.call(f["validator"], [o, Obj(object, None, {"name": f["name"]}), o.fields[f["name"]]], {})

    # ------------------------------------------------------------ generators
    def run_gen(self, g, hook):
        if getattr(g, "started", False):
            raise Unsupported("a generator used twice")
        g.started = True
        if g.genexp is not None:
            n, fr = g.genexp, g.frame
            f2 = Frame(fr, fr.module, fr.func)

            def inner(gs):
                if not gs:
                    hook(self.ev(n.elt, f2))
                    return
                c = gs[0]

                def body():
                    for t in c.ifs:
                        if not self.test(self.ev(t, f2)):
                            return
                    inner(gs[1:])
                self.for_loop(c, c.target, self.ev(c.iter, fr if c is n.generators[0] else f2), f2, body, [])
            inner(n.generators)
            return None
        return self.exec_func(g.func, g.args, g.kwargs, hook)

    def concrete_items(self, v):
        if hasattr(v, "for_iter"):
            v = v.for_iter(self)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, SList):
            if v.term is not None:
                raise Unsupported("iteration over a symbolic list")
            return list(v.items)
        if isinstance(v, SSet) and v.base is None:
            return list(v.items)
        if isinstance(v, SDict) and v.base is None:
            return [k for k, x in v.items if x is not DEL]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, GenCall):
            out = []
            self.run_gen(v, lambda x: out.append(x))
            return out
        raise Unsupported("iteration over %r" % (v,))

    def iterate(self, node, it, fn, fr):
        t = ast.Name(id="<it>", ctx=ast.Store())
        f2 = Frame(fr, fr.module, fr.func)
        self.for_loop(node, t, it, f2, lambda: fn(f2.vars["<it>"]), [])

    def list_append(self, l, v):
        self.logwrite(l, "items")
        l.items.append(v)

    # ------------------------------------------------------------ loops
    def s_For(self, n, fr):
        b = n.body[0]
        if len(n.body) == 1 and not n.orelse and isinstance(b, ast.Expr) and isinstance(b.value, ast.Yield) and isinstance(n.target, ast.Name) and \
                isinstance(b.value.value, ast.Name) and b.value.value.id == n.target.id and hasattr(fr.hook, "yield_from"):
            # for x in y: yield x
            fr.hook.yield_from(self.ev(n.iter, fr))
            return
        it = self.ev(n.iter, fr)
        self.for_loop(n, n.target, it, fr, lambda: self.run_body(n.body, fr), n.orelse)

    def for_loop(self, node, target, it, fr, body, orelse):
        start = None
        if isinstance(it, models.Enum):
            start, it = it.start, it.of
        if start is not None and not (isinstance(it, SList) and it.term is not None) and not (hasattr(it, "for_iter") and not isinstance(it, models.Enum)) \
                and not (isinstance(it, SDict) and it.base is not None) and not isinstance(it, (SVal, SStr)):
            # a counter beside the loop
            name = "<n%d.%d>" % (getattr(node, "lineno", 0) or node.target.lineno, getattr(node, "col_offset", 0) or target.col_offset)
            self.setvar(fr, name, start)
            pair, tmp = target, ast.Name(id=name + "x", ctx=ast.Store())
            inner = body

            def body():
                self.assign(pair, (fr.vars[name], fr.vars[name + "x"]), fr)
                self.setvar(fr, name, mki(zi(fr.vars[name]) + 1))
                inner()
            return self.for_loop(node, tmp, it, fr, body, orelse)
        if isinstance(it, GenCall):
            class Stop(Exception):
                """what ends the loop from its body: it passes through the generator"""

            def hook(v):
                self.assign(target, v, fr)
                try:
                    body()
                except _Cont:
                    pass
                except (_Brk, _Ret, PyRaise) as x:
                    raise Stop(x)
            try:
                self.run_gen(it, hook)
            except Stop as x:
                if isinstance(x.args[0], _Brk):
                    return
                raise x.args[0]
            self.run_body(orelse, fr)
            return
        if hasattr(it, "for_iter"):
            seq = it.for_iter(self)
            if isinstance(seq, SList) and seq.term is None:
                it = seq
        if isinstance(it, SList) and it is not None and it.term is None:
            seq = None
        elif hasattr(it, "for_iter"):
            pass
        elif isinstance(it, SList) and it.term is not None:
            seq = it
        elif isinstance(it, SDict) and it.base is not None or isinstance(it, SVal) or isinstance(it, SStr):
            h = self.s.registry.iter_hook
            seq = h(self, it) if h else None
            if seq is None and isinstance(it, SDict):
                seq = models.View(it, "keys").as_list(self)
            if seq is None:
                raise Unsupported("iteration over %r" % (it,))
        else:
            seq = None
        if seq is None:
            for i, v in enumerate(self.concrete_items(it)):
                self.assign(target, v if start is None else (mki(zi(start) + i), v), fr)
                try:
                    body()
                except _Cont:
                    continue
                except _Brk:
                    return
            self.run_body(orelse, fr)
            return
        # symbolic sequence: hidden index
        idx = "<i%d.%d>" % (node.lineno if hasattr(node, "lineno") else id(node) % 100000, getattr(node, "col_offset", 0)) if not isinstance(node, ast.comprehension) else "<i%d.%d>" % (node.target.lineno, node.target.col_offset)
        self.setvar(fr, idx, 0)
        seqs = SList(seq.items, seq.term, seq.n, seq.shape)
        seqs.memo, seqs.bound = seq.memo, seq.bound
        fr.vars[idx + "seq"] = seqs
        if seqs.bound is not None:
            self.index_of(fr, getattr(node, "iter", None) or ast.Module(body=[], type_ignores=[]), idx, seqs.bound)

        def cond():
            k = fr.vars[idx]
            return mkb(zi(k) < self.llen(seqs))

        def step():
            k = fr.vars[idx]
            x = self.seq_elem(seqs, zi(k))
            self.assign(target, x if start is None else (mki(zi(k) + zi(start)), x), fr)
            self.setvar(fr, idx, mki(zi(k) + 1))
            body()
        tnames = {t.id for t in ast.walk(target) if isinstance(t, ast.Name)}
        self.loop(node, fr, cond, step, orelse, seq=(seqs, idx), local=tnames)

    def seq_elem(self, l, k):
        if l.term is None:
            raise Unsupported("index")
        base = z3.simplify(llen(l.term))
        self.lterm(l)
        if not l.items or self.branch(k < base):
            self.add(k >= 0)
            return self.list_elem(l, k)
        k = z3.simplify(k - base)
        for j in range(len(l.items) - 1):
            if self.branch(k == j):
                return l.items[j]
        return l.items[-1]

    def index_of(self, fr, node, name, bound):
        """the loop counts with the variable `name` up to `bound`: note the lists it may be an index into"""
        seen = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and is_path(x.args[0]):
                try:
                    v = self.ev(x.args[0], fr)
                except (PyRaise, Unsupported):
                    continue
                if isinstance(v, SList):
                    seen[ast.unparse(x.args[0])] = v
        for k, v in list(fr.vars.items()):
            if isinstance(v, SList) and not k.startswith("<"):
                seen.setdefault(k, v)
        for i, (k, v) in enumerate(seen.items()):
            if v.term is not None and (bound is None or self.valid(zi(bound) == self.llen(v))):
                h = "<i%s:%d>" % (name, i)
                fr.aliases[h] = name
                c = SList(v.items, v.term, v.n, v.shape)
                c.memo = v.memo
                fr.vars[h + "seq"] = c
                fr.vars[h] = fr.vars[name]

    def s_While(self, n, fr):
        t = n.test
        if isinstance(t, ast.Constant) and t.value and isinstance(n.body[0], ast.If) and isinstance(n.body[0].body[0], ast.Break):
            t = n.body[0].test
        if isinstance(t, ast.UnaryOp):
            t = t.operand
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.NotEq, ast.Eq, ast.GtE, ast.LtE)):
            for i, b in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
                if isinstance(i, ast.Name) and is_path(b) and isinstance(fr.vars.get(i.id), (int, SInt)) and not isinstance(fr.vars.get(i.id), bool):
                    try:
                        v = self.ev(b, fr)
                    except (PyRaise, Unsupported):
                        continue
                    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                        self.index_of(fr, b, i.id, v)
                        break
        self.loop(n, fr, lambda: self.ev(n.test, fr), lambda: self.run_body(n.body, fr), n.orelse)

    def loop_key(self, node):
        stack = tuple((f.func.key if f.func else "?") for f in self.frames)
        ln = node.lineno if hasattr(node, "lineno") else node.target.lineno
        co = node.col_offset if hasattr(node, "col_offset") else node.target.col_offset
        return (stack, ln, co)

    def loop(self, node, fr, cond, body, orelse, seq=None, local=()):
        un = getattr(self.contract, "unroll", 0) if self.contract else 0
        if un and seq is None:
            for _ in range(un):
                if not self.test(cond()):
                    self.run_body(orelse, fr)
                    return
                try:
                    body()
                except _Cont:
                    continue
                except _Brk:
                    return
            if not self.test(cond()):
                self.run_body(orelse, fr)
                return
            raise Unsupported("loop not finished after %d iterations" % un)
        key = self.loop_key(node)
        info = self.s.loops.setdefault(key, LoopInfo())
        ctx = LoopCtx(self, fr, info, seq)
        rooted = {loc[1][1] for loc in info.mod if loc[0] == "path"}
        gone = [loc for loc in info.mod if loc[0] == "local" and loc[1].isidentifier() and loc[1] not in rooted and dead(fr.func, node, loc[1])]
        for loc in gone:
            fr.vars.pop(loc[1], None)
        locs = [loc for loc in info.mod if loc not in gone]
        entry = {}
        for loc in locs:
            entry[loc] = ctx.read(loc)
        ctx.entry = entry
        for loc in locs:
            info_kind(self, info, loc, entry[loc])
        cands = ctx.candidates()
        alive = []
        for name, fn in cands:
            if name in info.dead:
                continue
            f = ctx.evaluate(fn)
            if f is None or not self.valid(f):
                info.dead.add(name)
                self.s.restart = True
                continue
            alive.append((name, fn))
        # arbitrary iteration
        for loc in locs:
            ctx.havoc(loc)
        for loc in locs:
            ctx.havoc_str(loc)
        for name, fn in alive:
            f = ctx.evaluate(fn)
            if f is None:
                info.dead.add(name)
                self.s.restart = True
                continue
            self.add(f)
        ctx.extra_facts()
        ctx.head = {loc: ctx.read(loc) for loc in locs}
        ctx.measures0 = ctx.measure_values()
        nwrites = len(self.writes)
        live_before = ctx.reachable()
        if not self.test(cond()):
            self.run_body(orelse, fr)
            return
        self.loop_stack.append(ctx)
        try:
            body()
        except _Cont:
            pass
        except _Brk:
            self.loop_stack.pop()
            return
        except BaseException:
            self.loop_stack.pop()
            raise
        self.loop_stack.pop()
        flags = [x.id for x in ast.walk(node.test) if isinstance(x, ast.Name)] if seq is None and is_pure(node.test) else []
        if any(isinstance(fr.vars.get(x), bool) for x in flags):
            # the test is a flag that is known now: the loop may end here
            try:
                t = self.truth(self.ev(node.test, fr))
            except (PyRaise, Unsupported):
                t = True
            if t is False:
                self.run_body(orelse, fr)
                return
        # back edge
        new = False
        for o, k in self.writes[nwrites:]:
            loc = live_before.get((id(o), k if not isinstance(o, (SList, SSet, SDict)) else "items"))
            if loc is None and isinstance(o, Frame) and o is fr and k not in local:
                # a local first assigned in the body
                loc = None if k not in ctx.names_before else ("local", k)
            if loc is None or loc in info.mod or (loc[0] == "local" and loc[1] in local):
                continue
            info.mod[loc] = None
            new = True
        if new:
            raise Restart()
        for name, fn in alive:
            f = ctx.evaluate(fn)
            if f is None or not self.valid(f):
                info.dead.add(name)
                self.s.restart = True
                ctx.died = True
                if os.environ.get("VERIF_DEBUG") == "3":
                    print("dropped", name, f, self.check(z3.Not(f)) if f is not None else "", self.where())
        for loc in locs:
            if ctx.join(loc):
                new = True
        if new:
            raise Restart()
        self.s.obl.setdefault("loop invariants preserved", [0, 0, None])[0] += len(alive)
        if not (getattr(self.contract, "no_termination", False)):
            if seq is not None:
                self.prove(zi(fr.vars[seq[1]]) > zi(ctx.head[("local", seq[1])]) if ("local", seq[1]) in ctx.head else True, "loop terminates", "")
            else:
                ctx.prove_measure()
        raise PathEnd()

    # ------------------------------------------------------------ contracts
    def apply_contract(self, c, f, args, kw):
        self.s.used_contracts.add(c.key)
        fn = f.func if isinstance(f, Bound) else f
        while isinstance(fn, Wrapped):
            fn = fn.func
        self.trace.append(c.key)
        return c.apply(self, args, kw, fn)


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def get(self, E, name):
        o = self.self_
        c = o.cls if isinstance(o, Obj) else o
        f, owner = c.lookup(name, after=self.cls)
        if f is None:
            if name == "__init__":
                return Native("object.__init__", lambda E, a, k: self._objinit(E, a, k))
            if name == "__new__":
                return Native("object.__new__", lambda E, a, k: models.builtin_new(E, a[0], a[1:], k))
            return MISSING
        if isinstance(f, BuiltinAttr):
            if name == "__init__":
                if issubclass(f.cls, BaseException):
                    def exinit(E, a, k):
                        o.fields["args"] = tuple(a)
                    return Native("exc.__init__", exinit)
                return Native("object.__init__", lambda E, a, k: None)
            if name == "__new__":
                return Native("__new__", lambda E, a, k: models.builtin_new(E, a[0], a[1:], k))
            return models.builtin_method(E, o, f, name)
        if isinstance(o, Obj):
            return E.bind(o, f, owner, name)
        if isinstance(f, Wrapped):
            return Bound(o, f.func, owner.key + "." + name)
        return f

    def _objinit(self, E, a, k):
        if a or [x for x in k if x != "**"]:
            E.raise_(TypeError, "object.__init__() takes exactly one argument")


class GenFactory:
    """contextmanager-decorated generator function"""

    def __init__(self, func):
        self.func = func
        self.key = func.key


def info_kind(E, info, loc, v):
    k = shape_of(E, v)
    s = info.kinds.setdefault(loc, [])
    if not any(same_shape(k, x) for x in s):
        s.append(k)


def localcls(E, c):
    """the class of that name in this path's own copy of the module"""
    if isinstance(c, ClassVal) and c.module is not None:
        x = E.module(c.module.name).env
        for i, n in enumerate(c.qual.split(".")):
            x = (x if i == 0 else x.attrs).get(n)
            if not isinstance(x, ClassVal):
                return c
        return x
    return c


def shape_of(E, v):
    if isinstance(v, (SBool, bool)):
        return ("bool",)
    if isinstance(v, (int, SInt)):
        return ("int",)
    if isinstance(v, float):
        return ("const", v)
    if v is None:
        return ("none",)
    if isinstance(v, OChar):
        return ("str",) if E.valid(v.c >= 0) else ("ochar",)
    if is_strv(v):
        return ("str",)
    if isinstance(v, Obj):
        return ("obj", v.cls, tuple(v.cands) if v.cands else (), v if v.term is None and not v.__dict__.get("new") else None)
    if isinstance(v, SList):
        sh = []
        if v.shape is not None:
            sh.append(v.shape)
        return ("list", v)
    if isinstance(v, SDict):
        return ("dict", v)
    if isinstance(v, SSet):
        return ("set", v)
    if isinstance(v, tuple):
        return ("tuple", tuple(shape_of(E, x) for x in v))
    if isinstance(v, SVal):
        return ("sval", v.kind)
    return ("const", v)


def same_shape(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "obj":
        return a[1] is b[1] or (a[1] is not None and b[1] is not None and isinstance(a[1], ClassVal) and isinstance(b[1], ClassVal) and a[1].key == b[1].key)
    if a[0] in ("const",):
        return a[1] is b[1] or a[1] == b[1]
    if a[0] == "sval":
        return a[1] == b[1]
    if a[0] == "tuple":
        return len(a[1]) == len(b[1]) and all(same_shape(x, y) for x, y in zip(a[1], b[1]))
    return True


def is_path(n):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Load, ast.Constant, ast.BinOp, ast.Add, ast.Sub)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len"
               for x in ast.walk(n))


class FrView:
    """a frame with the variables of the functions around it"""
    def __init__(self, fr):
        self.frame, ms, f = fr, [fr.vars], fr.parent
        while f is not None and f.parent is not None:
            ms.append(f.vars)
            f = f.parent
        self.vars = ChainMap(*ms) if len(ms) > 1 else fr.vars

    def __getattr__(self, n):
        return getattr(self.frame, n)


class LoopCtx:
    def __init__(self, E, fr, info, seq):
        self.E, self.frame, self.info, self.seq = E, fr, info, seq
        self.fr = FrView(fr)
        self.names_before = set()
        self.died = False
        f = fr
        while f is not None and (f.func is not None or f.parent is not None):
            self.names_before |= set(f.vars)
            f = f.parent
        self.entry = {}
        self.head = {}

    # locations -----------------------------------------------------------
    def frames(self):
        out = []
        f = self.frame
        while f is not None and f.func is not None:
            out.append(f)
            f = f.parent
        out.reverse()
        for g in self.E.frames:
            if g not in out:
                out.append(g)
        return out

    def reachable(self):
        """(id(holder), key) -> location name, for everything that exists now"""
        out = {}
        seen = set()
        self.hold = []

        def walk(v, path, d):
            if not isinstance(v, (Obj, SList, SDict, SSet)) or id(v) in seen:
                return
            seen.add(id(v))
            self.hold.append(v)
            if isinstance(v, Obj):
                names = set(v.fields)
                sch = self.E.schema(v.cls) if v.cls is not None and v.term is not None else None
                for n in list(names) + list(sch or ()):
                    out.setdefault((id(v), n), ("path", path + (n,)))
                out[(id(v), "*")] = ("path", path)
                if d < 5:
                    for n in sorted(names):
                        walk(v.fields[n], path + (n,), d + 1)
            else:
                out[(id(v), "items")] = ("path", path + ("[]",))
                if isinstance(v, SDict) and d < 5:
                    for k, x in v.items:
                        if isinstance(k, str):
                            walk(x, path + ("[%s]" % k,), d + 1)
        for i, f in enumerate(self.frames()):
            for n in sorted(f.vars):
                if f is self.frame:
                    out[(id(f), n)] = ("local", n)
                else:
                    out[(id(f), n)] = ("frame", i, n)
                walk(f.vars[n], (i, n), 0)
        for i, (n, v) in enumerate(sorted(self.E.ghost.items(), key=lambda x: str(x[0]))):
            walk(v, ("ghost", n), 0)
        return out

    def holder(self, loc):
        path = loc[1]
        if path[0] == "ghost":
            v = self.E.ghost[path[1]]
        else:
            v = self.frames()[path[0]].vars[path[1]]
        for p in path[2:-1]:
            if p.startswith("[") and p != "[]":
                v = next(x for k, x in v.items if k == p[1:-1])
            else:
                v = v.fields[p] if p in v.fields else self.E.getfield(v, p)
        return v, path[-1]

    def read(self, loc):
        if loc[0] == "local":
            return self.find_local(loc[1])
        if loc[0] == "frame":
            return self.frames()[loc[1]].vars.get(loc[2], MISSING)
        h, k = self.holder(loc)
        if k == "[]":
            return h
        if isinstance(h, Obj):
            return self.E.getfield(h, k)
        return MISSING

    def find_local(self, n):
        f = self.frame
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            f = f.parent
        return MISSING

    def write(self, loc, v):
        E = self.E
        if loc[0] == "local":
            f = self.frame
            while f is not None and n_notin(f, loc[1]):
                f = f.parent
            (f or self.frame).vars[loc[1]] = v
            E.writes.append((f or self.frame, loc[1]))
        elif loc[0] == "frame":
            f = self.frames()[loc[1]]
            f.vars[loc[2]] = v
            E.writes.append((f, loc[2]))
        else:
            h, k = self.holder(loc)
            if isinstance(h, Obj):         # otherwise there is no such object on this path
                E.setfield(h, k, v)

    def isstr(self, loc):
        return any(k[0] == "str" for k in self.info.kinds.get(loc, ())) and not any(k[0] not in ("str",) for k in self.info.kinds.get(loc, ()))

    def kept(self, v):
        """a value that a loop variable takes into the next iteration"""
        if isinstance(v, Obj) and self.E.s.registry.snoc_hook:
            self.E.s.registry.snoc_hook(self.E, None, v)

    def havoc(self, loc):
        E = self.E
        ks = self.info.kinds[loc]
        cur = self.read(loc)
        nm = "h_" + str(loc[-1][-1] if isinstance(loc[-1], tuple) else loc[-1])
        if loc[0] == "path" and loc[1][-1] == "[]":
            self.havoc_container(cur, nm)
            return
        if self.isstr(loc):
            return
        self.kept(cur)
        opts = [k for k in ks]
        # a character or nothing are one shape
        names = {k[0] for k in opts}
        if "ochar" in names and names <= {"ochar", "none", "str", "bool"}:
            c = E.fresh(nm)
            ok = [c >= 0]
            if True:
                ok.append(c == -1)
            if "bool" in names:
                ok.append(c == -2)
            else:
                ok.append(c == -2) if "ochar" in names else None
            E.add(z3.Or(*ok))
            self.write(loc, OChar(c))
            return
        k = opts[E.choose(len(opts))] if len(opts) > 1 else opts[0]
        v = self.mk(k, nm, cur)
        if v is not cur or not isinstance(v, (SList, SDict, SSet)):
            self.write(loc, v)

    def havoc_container(self, cur, nm):
        E = self.E
        E.logwrite(cur, "items")
        if isinstance(cur, SList):
            t = E.fresh(nm + "_list", U)
            sh = self.list_shape(cur)
            cur.term, cur.items, cur.memo, cur.shape = t, [], {}, sh
            E.lterm(cur)
        elif isinstance(cur, SDict):
            sh = self.dict_shape(cur)
            cur.base, cur.items, cur.shape = E.fresh(nm + "_map", U), [], sh
        elif isinstance(cur, SSet):
            cur.base, cur.items = E.fresh(nm + "_set", U), []

    def elem_shapes(self, l):
        key = ("elems", self.path_of(l))
        return self.info.__dict__.setdefault("elems", {}).setdefault(key, [])

    def path_of(self, l):
        r = self.reachable().get((id(l), "items"))
        return r

    def list_shape(self, l):
        E = self.E
        es = self.elem_shapes(l)
        for x in l.items:
            k = shape_of(E, x)
            if not any(same_shape(k, y) for y in es):
                es.append(k)
        old = l.shape
        if old is not None and not es:
            return old

        def shape(E2, t):
            n = len(es) + (1 if old is not None else 0)
            if n == 0:
                return SVal(t)
            classes = [localcls(E2, k[1]) for k in es if k[0] == "obj" and k[1] is not None]
            if old is None and len(classes) == len(es) and all(isinstance(c, ClassVal) for c in classes):
                o = Obj(classes[0] if len(classes) == 1 else None, t)
                if len(classes) > 1:
                    o.cands = classes
                E2.add(z3.Or(*[cls_of(t) == class_index(E2.mkname(c)) for c in classes]))
                o.from_list = True
                return o
            if old is not None:
                return old(E2, t)
            if len(es) == 1 and es[0][0] == "str":
                return SStr(Op(t))
            if len(es) == 1 and es[0][0] == "sval":
                return SVal(t, es[0][1])
            if len(es) == 1 and es[0][0] == "int":
                return SInt(uf("unbox", U, I)(t))
            return SVal(t)
        return shape

    def dict_shape(self, d):
        return d.shape

    def mk(self, k, nm, cur):
        E = self.E
        if k[0] == "int":
            return SInt(E.fresh(nm))
        if k[0] == "bool":
            return SBool(E.fresh(nm, B))
        if k[0] == "none":
            return None
        if k[0] == "const":
            return localcls(E, k[1])
        if k[0] == "ochar":
            c = E.fresh(nm)
            E.add(c >= -2)
            return OChar(c)
        if k[0] == "str":
            t = E.fresh(nm, U)
            return SStr(Op(t))
        if k[0] == "obj":
            if k[3] is not None and cur is k[3]:
                return cur
            o = Obj(localcls(E, k[1]), E.fresh(nm, U))
            if k[2]:
                o.cands = [localcls(E, c) for c in k[2]]
                E.add(z3.Or(*[cls_of(o.term) == class_index(E.mkname(c)) for c in k[2]]))
            elif k[1] is not None:
                E.add(cls_of(o.term) == class_index(E.mkname(k[1])))
            E.add(o.term != NONE)
            o.from_list = True
            return o
        if k[0] == "list":
            l = SList((), E.fresh(nm, U))
            l.shape = self.list_shape(k[1]) if isinstance(k[1], SList) else None
            if l.shape is None and isinstance(cur, SList):
                l.shape = self.list_shape(cur)
            E.lterm(l)
            return l
        if k[0] == "tuple":
            return tuple(self.mk(x, nm, None) for x in k[1])
        if k[0] == "sval":
            return SVal(E.fresh(nm, U), k[1])
        if k[0] == "dict":
            return SDict((), E.fresh(nm, U), k[1].shape)
        if k[0] == "set":
            return SSet((), E.fresh(nm, U))
        raise Unsupported("loop variable of shape %r" % (k,))

    # strings: v == v0 ++ source[p0:p] for an integer p, or opaque
    def intlocs(self):
        out = []
        for loc in self.info.mod:
            if loc in self.entry and all(k[0] == "int" for k in self.info.kinds.get(loc, (("x",),))):
                if isinstance(self.entry[loc], (int, SInt)):
                    out.append(loc)
        return sorted(out, key=str)

    def intexprs(self):
        """integer expressions a string variable may follow, as functions of a state reader"""
        out = []
        il = self.intlocs()
        for l in il:
            if l[0] == "local" and getattr(self.E.contract, "slice_skip", False):
                continue
            out.append((str(l), lambda rd, l=l: zi(rd(l))))
        paths = {}
        for l in il:
            if l[0] == "path":
                paths.setdefault(l[1][:-1], []).append(l)
        # index + look-ahead of the same object
        for l in il:
            if l[0] == "path" and l[1][-1] == "peek_offset":
                base = ("path", l[1][:-1] + ("index",))

                def f(rd, l=l, base=base):
                    return zi(rd(l)) + zi(rd(base))
                out.insert(0, (str(l) + "+index", f))
        # a character already taken but not yet added
        for loc in sorted(self.entry, key=str):
            if loc[0] == "local" and any(k[0] == "ochar" for k in self.info.kinds.get(loc, ())):
                for l in il:
                    if l[0] == "path" and l[1][-1] == "index":
                        out.append(("%s-held %s" % (l, loc[1]), lambda rd, l=l, loc=loc: zi(rd(l)) - held(rd(loc))))
        return out

    def havoc_str(self, loc):
        if not self.isstr(loc):
            return
        E = self.E
        modes = [("slice", n) for n, _ in self.intexprs()] + [("rep",), ("op",)]
        # hint: the outermost loop builds its text in unrelated pieces
        m = self.info.strmode.setdefault(loc, len(modes) - 1 if getattr(E.contract, "outer_text", False) and not E.loop_stack else 0)
        mode = modes[min(m, len(modes) - 1)]
        nm = "s_" + str(loc[-1])
        e0 = self.entry[loc]
        if isinstance(e0, OChar):
            e0 = self.entry[loc] = SStr(Ch(e0.c))
        if mode[0] == "slice":
            f = dict(self.intexprs())[mode[1]]
            a = f(lambda l: self.entry.get(l, None) if l in self.entry else self.read(l))
            b = f(self.read)
            E.add(b >= a)
            v = E.cat(e0, SStr(Sl(z3.simplify(a), z3.simplify(b))))
        elif mode[0] == "rep":
            n = E.fresh(nm)
            E.add(n >= 0)
            v = E.cat(e0, SStr(Rep(self.info.__dict__.setdefault("repchar", {}).get(loc, "\n"), n)))
        else:
            v = SStr(Op(E.fresh(nm, U)))
        self.write(loc, v)

    def join(self, loc):
        """back edge: does the new value have the assumed shape?"""
        E = self.E
        v = self.read(loc)
        if loc[0] == "path" and loc[1][-1] == "[]":
            if isinstance(v, SList):
                es = self.elem_shapes(v)
                ch = False
                for x in v.items:
                    k = shape_of(E, x)
                    if isinstance(x, Obj) and x.cands:
                        for c in x.cands:
                            kk = ("obj", c, (), None)
                            if not any(same_shape(kk, y) for y in es):
                                es.append(kk)
                                ch = True
                        continue
                    if not any(same_shape(k, y) for y in es):
                        es.append(k)
                        ch = True
                return ch
            return False
        if v is MISSING:
            return False
        ks = self.info.kinds[loc]
        self.kept(v)
        if is_strv(v) and any(k[0] == "ochar" for k in ks):
            ps = E.norm(v)
            if not (len(ps) == 1 and (isinstance(ps[0], Ch) or isinstance(ps[0], str) and len(ps[0]) == 1 or isinstance(ps[0], Sl) and E.valid(ps[0].b == ps[0].a + 1))):
                raise Unsupported("a loop variable is a character or a longer text")
        if isinstance(v, Obj) and v.cands:
            ch = False
            for c in v.cands:
                kk = ("obj", c, (), None)
                if not any(same_shape(kk, y) for y in ks):
                    ks.append(kk)
                    ch = True
            return ch
        k = shape_of(E, v)
        if not any(same_shape(k, x) for x in ks):
            ks.append(k)
            return True
        if k[0] == "list" and isinstance(v, SList):
            es = self.elem_shapes(v)
            for x in v.items:
                kk = shape_of(E, x)
                if not any(same_shape(kk, y) for y in es):
                    es.append(kk)
                    return True
        if self.isstr(loc) and not self.died:
            modes = [("slice", n) for n, _ in self.intexprs()] + [("rep",), ("op",)]
            m = self.info.strmode.get(loc, 0)
            mode = modes[min(m, len(modes) - 1)]
            ok = True
            if mode[0] == "slice":
                f = dict(self.intexprs())[mode[1]]
                a = f(lambda l: self.entry[l] if l in self.entry else self.read(l))
                b = f(self.read)
                ok = E.valid(And(b >= a, E.weq(v, E.cat(self.entry[loc], SStr(Sl(z3.simplify(a), z3.simplify(b)))))))
            elif mode[0] == "rep":
                a, b = E.norm(v), E.norm(self.entry[loc])
                ok = len(a) == len(b) + 1 and isinstance(a[-1], Rep) or len(a) == len(b)
                if ok and len(a) == len(b) + 1:
                    ok = E.valid(a[-1].n >= 0) and E.weq(SStr(*a[:-1]), self.entry[loc]) is True
                elif ok:
                    ok = E.weq(v, self.entry[loc]) is True
            if not ok:
                if os.environ.get("VERIF_DEBUG") == "3":
                    print("string", loc, mode, E.norm(v), "entry", self.entry[loc], b if mode[0] == "slice" else "")
                self.info.strmode[loc] = m + 1
                self.info.dead.clear()
                return True
        return False

    # invariants ------------------------------------------------------------
    def candidates(self):
        E = self.E
        out = []
        for loc in self.intlocs():
            out.append(("mono>= %s" % (loc,), lambda c, loc=loc: zi(c.read(loc)) >= zi(c.entry[loc])))
            out.append(("mono<= %s" % (loc,), lambda c, loc=loc: zi(c.read(loc)) <= zi(c.entry[loc])))
            out.append(("nonneg %s" % (loc,), lambda c, loc=loc: zi(c.read(loc)) >= 0))
        il = self.intlocs()
        if len(il) <= 4:
            for i, x in enumerate(il):
                for y in il[:i]:
                    out.append(("diff %s %s" % (x, y), lambda c, x=x, y=y: zi(c.read(x)) - zi(c.read(y)) == zi(c.entry[x]) - zi(c.entry[y])))
        if self.seq is not None:
            l, idx = self.seq
            out.append(("range " + idx, lambda c: zi(c.frame.vars[idx]) <= c.E.llen(l)))
        for loc in list(self.entry):
            if all(k[0] == "bool" for k in self.info.kinds.get(loc, (("x",),))) and loc in self.entry:
                for b in (True, False):
                    out.append(("bool %s %s" % (loc, b), lambda c, loc=loc, b=b: (lambda v: v if b else Not(v))(c.E.truth(c.read(loc)))))
        for g in E.s.registry.loop_cands:
            out += g(E, self)
        if E.contract is not None:
            out += E.contract.loop_candidates(E, self)
        for h in self.frame.aliases:
            l = self.frame.vars[h + "seq"]
            out.append(("range " + h, lambda c, h=h, l=l: And(zi(c.fr.vars[h]) >= 0, zi(c.fr.vars[h]) <= c.E.llen(l))))
        return out

    def evaluate(self, fn):
        for h, n in self.frame.aliases.items():
            self.frame.vars[h] = self.frame.vars[n]
        try:
            return fn(self)
        except (Unsupported, KeyError, AttributeError, TypeError, PyRaise, IndexError):
            return None

    def extra_facts(self):
        pass

    def measure_values(self):
        """integer expressions, bounded from one side, that may serve as measures"""
        E = self.E
        out = []
        for h, n in self.frame.aliases.items():
            self.frame.vars[h] = self.frame.vars[n]
            out.append(("left " + h, E.llen(self.frame.vars[h + "seq"]) - zi(self.frame.vars[n])))
        for n, f in self.intexprs():
            try:
                out.append((n, f(self.read)))
                if "-held" in n:
                    out.append(("2*" + n, 2 * (N - f(self.read)) - (f(lambda l: self.read(l) if l[0] != "local" else None) - f(self.read))))
            except (TypeError, KeyError):
                pass
        for g in E.s.registry.measures:
            out += g(E, self)
        if E.contract is not None:
            out += E.contract.loop_measures(E, self)
        return out

    def prove_measure(self):
        E = self.E
        new = dict(self.measure_values())
        for n, v0 in self.measures0:
            v1 = new.get(n)
            if v1 is None:
                continue
            for up in (True, False):
                f = z3.And(v1 > v0, v0 <= E.s.registry.upper(E, n)) if up else z3.And(v1 < v0, v0 >= -2)
                if E.valid(f):
                    E.prove(f, "loop terminates", n)
                    return
        E.prove(False, "loop terminates", "no measure found")


def held(v):
    """1 when a character is held, 0 for None and False"""
    if isinstance(v, OChar):
        return z3.If(v.c >= 0, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(1 if is_strv(v) else 0)


def n_notin(f, n):
    return n not in f.vars
