"""The module-level entry points: parse, serialize and FluentResource hand
their argument and options unchanged to the parser and serializer."""
import z3
from engine.contract import *
from engine.interp import *
from engine.sym import *
from .rt import *

PARSED_ = uf("PARSED", U, B, U)
SERIALIZED_ = uf("SERIALIZED", U, B, U)


def text(E, n):
    t = z3.Const(n, U)
    E.atom_term(Op(t))
    return SStr(Op(t))


def flag(E, v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.e
    raise Unsupported("flag %r" % (v,))


class parse_stub(Contract):
    """FluentParser(with_spans).parse(source), verified for C01-C07"""
    key = "fluent.syntax.parser:FluentParser.parse"

    def result(self, E, a, o):
        return SVal(PARSED_(E.term(a.source), flag(E, E.getfield(a.self, "with_spans"))), "resource")


class serialize_stub(Contract):
    """FluentSerializer(with_junk).serialize(resource), verified for C08"""
    key = "fluent.syntax.serializer:FluentSerializer.serialize"

    def result(self, E, a, o):
        t = SERIALIZED_(E.term(a.resource), flag(E, E.getfield(a.self, "with_junk")))
        E.atom_term(Op(t))
        return SStr(Op(t))


class Wrapper(Contract):
    option = None

    def arg(self, E):
        return text(E, "source")

    def setup(self, E):
        x = self.arg(E)
        E.ghost["arg"], E.ghost["opt"] = E.term(x), z3.BoolVal(self.default)
        kw = {}
        if self.option and E.choose(2):
            E.ghost["opt"] = E.fresh(self.option, B)
            kw[self.option] = SBool(E.ghost["opt"])
        return [x], kw


class parse(Wrapper):
    key, option, default = "fluent.syntax:parse", "with_spans", True

    def post(self, E, a, o, r):
        return [("the source parsed as asked for", E.term(r) == PARSED_(E.ghost["arg"], E.ghost["opt"]))]


class FluentResource(Wrapper):
    key, default = "fluent.runtime:FluentResource", True

    def post(self, E, a, o, r):
        x = E.ghost["arg"]
        return [("the source parsed", z3.Or(E.term(r) == PARSED_(x, True), E.term(r) == PARSED_(x, False)))]


class serialize(Wrapper):
    key, option, default = "fluent.syntax:serialize", "with_junk", False

    def arg(self, E):
        return SVal(z3.Const("resource", U), "resource")

    def post(self, E, a, o, r):
        return [("the resource serialized as asked for", E.term(r) == SERIALIZED_(E.ghost["arg"], E.ghost["opt"]))]


WRAP = {"C06": [parse()], "C02": [parse()], "C08": [serialize()], "C18": [FluentResource()]}


def registry():
    reg = Registry()
    for c in (parse_stub(), serialize_stub()):
        reg.active[c.key] = c
    return reg
