"""Contracts of fluent.syntax.visitor: Visitor and Transformer.

What the handlers of a subclass see is recorded in a ghost list of events of
the visitor: handled(t) when visit_X is called with node t, generic(t) when
generic_visit is.  VISIT(t, e) is the list of events after visiting t, from
the events e before; GV(t, e) after generic_visit.  A transformer's visit
gives TV(t)."""
from .rt import *
from . import astschema
from .astschema import AST, AST_SCHEMAS, node
from .compiler import fieldorder
from .tree import ALL, anylist, atom, nodelist, nth, registry as tree_registry

VM = "fluent.syntax.visitor"
EV_ = "<events>"
VISIT, GV, TV = uf("VISIT", U, U, U), uf("GV", U, U, U), uf("TV", U, U)
handled, generic = uf("handled", U, U), uf("generic", U, U)
HAS = uf("has_handler", I, B)
VISITS = Spec("VISITS", [U, I, U], U, lambda E, l, i, e: z3.If(i >= llen(l), e, VISITS(E, l, i + 1, VISIT(nth(l, i), e))))
# the new contents of a list: what is given for each element, without the Nones
TVS = Spec("TVS", [U, I, U], U, lambda E, l, i, acc: z3.If(i >= llen(l), acc, TVS(E, l, i + 1, z3.If(TV(nth(l, i)) == NONE, acc, E.mk_snoc(acc, TV(nth(l, i)))))))
SAME = Spec("SAME", [U, I, U], U, lambda E, l, i, acc: z3.If(i >= llen(l), acc, SAME(E, l, i + 1, E.mk_snoc(acc, nth(l, i)))))


def events(E, v):
    return E.term(E.getfield(v, EV_))


def setevents(E, v, t):
    l = E.getfield(v, EV_)
    E.logwrite(l, "items")
    l.term, l.items, l.memo = z3.simplify(t), [], {}
    E.lterm(l)


def after(E, v, e):
    """events after visiting what a field or list element holds"""
    if isinstance(v, Obj):
        return VISIT(E.term(v), e)
    if isinstance(v, SList) and nodelist(v):
        return VISITS(E, E.term(v), IV(0), e)
    return e


def visitor(E, cls, n):
    """a visitor of a subclass, with or without a handler for nodes of class n"""
    v = Obj(E.module(VM).env[cls])
    t = E.fresh("events", U)
    l = SList((), t)
    E.lterm(l)
    v.fields = {EV_: l}
    if n is not None:
        def handler(E, a, k):
            E.prove(len(a) == 1 and not k, "a handler is called with the node")
            E.list_append(E.getfield(v, EV_), SVal(handled(E.term(a[0]))))
            return given(E, a[0]) if cls == "Transformer" else None
        if E.branch(HAS(IV(class_index(n)))):
            v.fields["visit_" + n] = Native("visit_" + n, handler)
    return v


def given(E, x):
    """what a transformer gives for a node"""
    t = TV(E.term(x))
    if E.branch(t == NONE):
        return None
    return node(E, t, ALL)


class V(Contract):
    group = "visit"
    cls, meth = "Visitor", "visit"

    def __init__(self):
        self.key = "%s:%s.%s" % (VM, self.cls, self.meth)

    def mknode(self, E):
        n = E.s.opts["cls"]
        t = E.fresh("node", U)
        E.add(depth(t) >= 0)
        return n, node(E, t, [n])

    def modifies(self, E, a):
        return [E.getfield(a.self, EV_)]

    def decreases(self, E, a):
        v = a.node
        return (depth(E.term(v)) if isinstance(v, (Obj, SList)) else IV(-1), IV(1 if self.meth == "visit" else 0))

    def old(self, E, a):
        return {"e": events(E, a.self), "n": a.node}

    def loop_candidates(self, E, ctx):
        fr = ctx.fr.vars
        me = E.ghost["args"].self
        out = []
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            seq = lambda c, n=n: E.term(c.fr.vars[n + "seq"])
            i = lambda c, n=n: zi(c.fr.vars[n])
            out.append(("index %s" % n, lambda c, n=n, i=i: And(i(c) >= 0, i(c) <= E.llen(c.fr.vars[n + "seq"]))))
            start = events(E, me)
            out.append(("events as before %s" % n, lambda c, start=start: events(E, me) == start))
            goal = VISITS(E, seq(ctx), i(ctx), events(E, me))
            out.append(("events %s" % n, lambda c, i=i, seq=seq, goal=goal: VISITS(E, seq(c), i(c), events(E, me)) == goal))
            for acc in [k for k, v in fr.items() if isinstance(v, SList) and not k.endswith("seq")]:
                for S_ in (TVS, SAME):
                    def f(c, S_=S_, acc=acc, i=i, seq=seq):
                        if not isinstance(c.fr.vars[acc], SList):
                            raise KeyError(acc)
                        return S_(E, seq(c), i(c), E.term(c.fr.vars[acc])) == S_(E, seq(c), IV(0), nil)
                    out.append(("%s %s %s" % (S_.name, n, acc), f))
        return out


class visit(V):
    def setup(self, E):
        k = E.s.opts.get("kind")
        if k is None:
            n, x = self.mknode(E)
            return [visitor(E, self.cls, n), x], {}
        return [visitor(E, self.cls, None), anylist(E, "list", k == 1) if k in (1, 2) else atom(E)], {}

    def havoc(self, E, a, o):
        setevents(E, a.self, after(E, a.node, o["e"]))

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        x, e = a.node, events(E, a.self)
        if isinstance(x, Obj):
            t = E.term(x)
            h = HAS(IV(class_index(E.mkname(x.cls))))
            spec = z3.If(h, E.mk_snoc(o["e"], handled(t)), GV(t, E.mk_snoc(o["e"], generic(t))))
        else:
            spec = after(E, x, o["e"])
        return [("the handler of its type, or generic_visit, is called", e == spec)] + self.value(E, a, r)

    def value(self, E, a, r):
        return []


class generic_visit(V):
    meth = "generic_visit"

    def setup(self, E):
        n, x = self.mknode(E)
        return [visitor(E, self.cls, None), x], {}

    def old(self, E, a):
        o = V.old(self, E, a)
        x = a.node
        if E.verifying == self.key:
            o["f"] = [(k, E.getfield(x, k)) for k in fieldorder(E.mkname(x.cls))]
            o["l"] = {k: E.term(v) for k, v in o["f"] if isinstance(v, SList)}
        return o

    def havoc(self, E, a, o):
        t = E.term(a.node)
        setevents(E, a.self, GV(t, E.mk_snoc(o["e"], generic(t))))

    def spec(self, E, a, o):
        e = o["e"]
        for k, v in o["f"]:
            if isinstance(v, SList):
                e = VISITS(E, o["l"][k], IV(0), e) if nodelist(v) else e
            else:
                e = after(E, v, e)
        return e

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        return [("every child is visited once, in field order", events(E, a.self) == self.spec(E, a, o))] + self.value(E, a, o, r)

    def value(self, E, a, o, r):
        return []


class tvisit(visit):
    cls = "Transformer"

    def modifies(self, E, a):
        return [E.getfield(a.self, EV_)]

    def havoc(self, E, a, o):
        if isinstance(a.node, Obj):
            setevents(E, a.self, VISIT(E.term(a.node), o["e"]))

    def result(self, E, a, o):
        if isinstance(a.node, Obj):
            return given(E, a.node)
        return a.node

    def post(self, E, a, o, r):
        if E.verifying != self.key:
            return []
        x = a.node
        if isinstance(x, Obj):
            return visit.post(self, E, a, o, r)
        return [("anything else is given back", r is x), ("nothing else is visited", events(E, a.self) == o["e"])]

    def value(self, E, a, r):
        h = "visit_" + E.mkname(a.node.cls) in a.self.fields
        if h:
            return [("gives what the handler gives", E.term(r) == TV(E.term(a.node)))]
        return [("gives the node itself", r is a.node)]


class tgeneric(generic_visit):
    cls = "Transformer"

    def modifies(self, E, a):
        x = a.node
        ls = [E.getfield(x, k) for k in fieldorder(E.mkname(x.cls))] if E.verifying == self.key else []
        return [E.getfield(a.self, EV_), x] + [l for l in ls if isinstance(l, SList)]

    def result(self, E, a, o):
        return a.node

    def value(self, E, a, o, r):
        x = a.node
        out = [("the node itself", r is x)]
        for k, v in o["f"]:
            y = E.getfield(x, k)
            if isinstance(v, Obj):
                t = TV(E.term(v))
                out.append(("field %s: replaced, or removed" % k, t == NONE if y is MISSING else z3.And(t != NONE, E.term(y) == t)))
            elif isinstance(v, SList):
                l = o["l"][k]
                out.append(("field %s: the same list" % k, y is v))
                out.append(("field %s: elements replaced, or removed" % k, isinstance(y, SList) and E.term(y) == (TVS if nodelist(v) else SAME)(E, l, IV(0), nil)))
            else:
                out.append(("field %s: as before" % k, y is not MISSING and E.term(y) == E.term(v)))
        out.append(("no other fields", set(x.fields) <= {k for k, _ in o["f"]}))
        return out


VISITOR = [visit(), generic_visit(), tvisit(), tgeneric()]


def registry():
    reg = tree_registry()
    reg.active.clear()
    for c in VISITOR:
        reg.active[c.key] = c
    return reg
