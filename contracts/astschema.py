"""Field shapes of the syntax tree classes (types declared in ast.py)."""
from engine.contract import *
from engine.interp import *
from engine.sym import *

AST = "fluent.syntax.ast"
EXPR = ["StringLiteral", "NumberLiteral", "MessageReference", "TermReference", "VariableReference", "FunctionReference", "SelectExpression", "Placeable"]
INLINE = [x for x in EXPR if x != "SelectExpression"]
ENTRY = ["Message", "Term", "Comment", "GroupComment", "ResourceComment", "Junk"]


def node(E, t, names):
    m = E.module(AST).env
    if len(names) == 1:
        o = Obj(m[names[0]], t)
        o.from_list = True
        E.add(cls_of(t) == class_index(names[0]))
        E.add(t != NONE)
        return o
    o = Obj(None, t)
    o.from_list = True
    o.cands = [m[n] for n in names]
    E.add(z3.Or(*[cls_of(t) == class_index(n) for n in names]))
    E.add(t != NONE)
    return o


def N_(*names):
    return lambda E, t, o: node(E, t, list(names))


def opt(f):
    def g(E, t, o):
        if E.branch(t == NONE):
            return None
        return f(E, t, o)
    return g


def string(E, t, o):
    E.atom_term(Op(t))
    return SStr(Op(t))


def integer(E, t, o):
    return SInt(uf("unbox", U, I)(t))


def boolean(E, t, o):
    return SBool(t == TRUE)


def listof(*names):
    def g(E, t, o):
        l = SList((), t, None, lambda E2, x: node(E2, x, list(names)))
        E.lterm(l)
        return l
    return g


def anylist(E, t, o):
    return SList((), t)


def span(E, t, o):
    """with_spans: every node handed from one function to another, or kept in
    a list, has a span (proved where that happens, see snoc_hook)"""
    ws = E.ghost.get("ws")
    if ws is not None and getattr(o, "from_list", False) and (ws is True or ws is not False and E.branch(ws)):
        return node(E, t, ["Span"])
    return opt(N_("Span"))(E, t, o)


def spanned(E, x):
    """formula: x has a span when spans are recorded"""
    ws = E.ghost.get("ws")
    if ws is None or ws is False or not isinstance(x, Obj) or getattr(x, "from_list", False) and "span" not in x.fields:
        return True
    if E.getfield(x, "span") is None:
        return Not(ws)
    return True


def snoc_hook(E, t, x):
    if E.ghost.get("ws") is not None and isinstance(x, Obj) and "span" in x.fields:
        k = ("spanned", id(x))
        if k not in E.known:
            E.known.add(k)
            E.keepalive.append(x)
            f = spanned(E, x)
            if f is not True:
                E.prove(f, "a node kept in a list has a span")


def S_(**f):
    f["span"] = span
    return f


AST_SCHEMAS = {
    "Resource": S_(body=listof(*ENTRY)),
    "Message": S_(id=N_("Identifier"), value=opt(N_("Pattern")), attributes=listof("Attribute"), comment=opt(N_("Comment"))),
    "Term": S_(id=N_("Identifier"), value=N_("Pattern"), attributes=listof("Attribute"), comment=opt(N_("Comment"))),
    "Pattern": S_(elements=listof("TextElement", "Placeable")),
    "TextElement": S_(value=string),
    "Placeable": S_(expression=N_(*EXPR)),
    "StringLiteral": S_(value=string),
    "NumberLiteral": S_(value=string),
    "MessageReference": S_(id=N_("Identifier"), attribute=opt(N_("Identifier"))),
    "TermReference": S_(id=N_("Identifier"), attribute=opt(N_("Identifier")), arguments=opt(N_("CallArguments"))),
    "VariableReference": S_(id=N_("Identifier")),
    "FunctionReference": S_(id=N_("Identifier"), arguments=N_("CallArguments")),
    "SelectExpression": S_(selector=N_(*INLINE), variants=listof("Variant")),
    "CallArguments": S_(positional=listof(*INLINE), named=listof("NamedArgument")),
    "Attribute": S_(id=N_("Identifier"), value=N_("Pattern")),
    "Variant": S_(key=N_("Identifier", "NumberLiteral"), value=N_("Pattern"), default=boolean),
    "NamedArgument": S_(name=N_("Identifier"), value=N_("NumberLiteral", "StringLiteral")),
    "Identifier": S_(name=string),
    "Comment": S_(content=string), "GroupComment": S_(content=string), "ResourceComment": S_(content=string),
    "Junk": S_(content=string, annotations=listof("Annotation")),
    "Span": {"start": integer, "end": integer},
    "Annotation": S_(code=string, arguments=anylist, message=opt(string)),
}


def install(reg):
    reg.snoc_hook = snoc_hook
    for n, s in AST_SCHEMAS.items():
        reg.schemas[AST + ":" + n] = s
    reg.schemas["fluent.syntax.parser:FluentParser.Indent"] = {"value": string, "span": N_("Span")}
