"""Contract of FluentBundle.format_pattern: what a resolver's value, errors and
limits (resolver.py) are for the caller."""
from .rt import *
from . import rt, resolver as RS_
from .resolver import rnode, state, EV, EE, EP
from .types import dictview

NTF = uf("native_to_fluent", U, U)          # see types.native_to_fluent
mapset, nkey, mget = uf("mapset", U, U, U, U), uf("key_at", U, I, U), uf("mapget", U, U, U)
EMPTYMAP = z3.Const("emptymap", U)


def _args(E, b, l, i, m):
    k = nkey(b, i)
    return If(i >= llen(l), m, ARGS(E, b, l, i + 1, mapset(m, k, NTF(mget(b, k)))))


# the map with native_to_fluent applied to every value, from key i on
ARGS = Spec("ARGS", [U, U, I, U], U, _args)


class ntf(Contract):
    """proved in types.py (C21)"""
    key = UM + ":native_to_fluent"

    def result(self, E, a, o):
        return val(E, NTF(E.term(a.val)))


class format_pattern(Contract):
    key = BM + ":FluentBundle.format_pattern"

    def setup(self, E):
        c = E.getfield(mkenv(E), "context")
        c.fields["_compiled"] = SDict((), E.fresh("compiled", U), anyval)
        p = rnode(E, E.fresh("pattern", U), RS_.PATTERN)
        return [c, p, SDict((), E.fresh("arguments", U), anyval) if E.choose(2) else None], {}

    def old(self, E, a):
        n = E.term(a.pattern)
        if a.args is None:
            ar = EMPTYMAP
        else:
            b = a.args.base
            dictview(E, a.args, "keys")
            ar = ARGS(E, b, uf("keys", U, U)(b), IV(0), EMPTYMAP)
        E.add(z3.Not(uf("mem", U, U, B)(z3.Const("emptyset", U), n)))
        s = (nil, IV(0), z3.Const("emptyset", U), ar, z3.BoolVal(True))
        return {"n": n, "s": s, "ar": ar}

    def modifies(self, E, a):
        return [E.getfield(a.self, "_compiled")] if "_compiled" in a.self.fields else []

    def post(self, E, a, o, r):
        if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[1], SList):
            return [("a pair of a text and a list", False)]
        v, er = vt(E, r[0]), E.term(r[1])
        out = [("a text", isk["str"](v)), ("a list of errors", z3.BoolVal(isinstance(r[1], SList)))]
        n, s = o["n"], o["s"]
        x = E.ghost.get("value error")
        if x is not None:
            return out + [("too large: the fallback", v == E.litterm("{???}")), ("too large: reported", uf("last", U, U)(er) == x)]
        return out + [("value", v == EV(n, *s)), ("errors", er == EE(n, *s))]

    def loop_candidates(self, E, ctx):
        a, o = E.ghost["args"], E.ghost["old"]
        out = []
        fr = ctx.fr.vars
        if a.args is None:
            return []
        for n in [n for n in fr if n.startswith("<i") and not n.endswith("seq")]:
            out.append(("index %s" % n, lambda c, n=n: And(zi(c.fr.vars[n]) >= 0, zi(c.fr.vars[n]) <= E.llen(c.fr.vars[n + "seq"]))))
            for m in [m for m, v in fr.items() if isinstance(v, SDict)]:
                out.append(("arguments %s" % m, lambda c, n=n, m=m: ARGS(E, a.args.base, E.term(c.fr.vars[n + "seq"]), zi(c.fr.vars[n]), E.dterm(c.fr.vars[m])) == o["ar"]))
        return out


FORMAT = [format_pattern()]


def registry():
    reg = RS_.registry()
    reg.active[ntf.key] = ntf()
    reg.active[format_pattern.key] = FORMAT[0]
    reg.dictview_hook = dictview
    return reg
