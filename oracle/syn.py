"""Concrete oracles for the fluent.syntax / fluent.pygments properties.
Every chk_* takes one case and returns None or a one-line description of the
violation.  Nothing here looks at how the code is written."""
import json, re
from fluent.syntax import ast as A, parse, FluentParser, serialize
from fluent.syntax.serializer import FluentSerializer
from fluent.syntax.visitor import Visitor, Transformer
from . import refparse

CODES = {"E00%02d" % i for i in range(2, 30)} - {"E0023"}
IDENT = re.compile(r"[a-zA-Z][a-zA-Z0-9_\-]*\Z")
NUM = re.compile(r"-?[0-9]+(\.[0-9]+)?\Z")
STR = re.compile(r'(?:[^"\\\n]|\\["\\]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{6})*\Z')
FUN = re.compile(r"[A-Z][A-Z0-9_\-]*\Z")
STRAY = re.compile(r"\r(?!\n)(?=[ \r]*(?:\r?\n|\Z))")


def quote(s):
    return json.dumps(s)[:300]


# ------------------------------------------------------------------ AST helpers
def nodes(n):
    """All nodes below n (n first), by the public fields."""
    yield n
    for v in vars(n).values():
        for c in (v if isinstance(v, list) else [v]):
            if isinstance(c, A.BaseNode):
                yield from nodes(c)


def children(n):
    out = []
    for k, v in vars(n).items():
        for c in (v if isinstance(v, list) else [v]):
            if isinstance(c, A.BaseNode) and not isinstance(c, A.Span):
                out.append((k, c))
    return out


def dump(n, spans=True):
    """Complete structural dump (independent of equals/to_json)."""
    if isinstance(n, A.BaseNode):
        return (type(n).__name__,) + tuple((k, dump(v, spans)) for k, v in sorted(vars(n).items()) if spans or k != "span")
    if isinstance(n, (list, tuple)):
        return [dump(x, spans) for x in n]
    if isinstance(n, dict):
        return {k: dump(v, spans) for k, v in n.items()}
    return (type(n).__name__, n)


def abs_expr(e):
    t = type(e)
    if t is A.StringLiteral:
        return ("str", e.value)
    if t is A.NumberLiteral:
        return ("num", e.value)
    if t is A.VariableReference:
        return ("var", e.id.name)
    if t is A.MessageReference:
        return ("msg", e.id.name, e.attribute.name if e.attribute is not None else None)
    if t is A.TermReference:
        return ("term", e.id.name, e.attribute.name if e.attribute is not None else None,
                abs_args(e.arguments) if e.arguments is not None else None)
    if t is A.FunctionReference:
        return ("fun", e.id.name, abs_args(e.arguments))
    if t is A.Placeable:
        return ("placeable", abs_expr(e.expression))
    if t is A.SelectExpression:
        return ("select", abs_expr(e.selector),
                [((("id", v.key.name) if type(v.key) is A.Identifier else ("num", v.key.value)),
                  abs_pattern(v.value), v.default) for v in e.variants])
    return ("?", t.__name__)


def abs_args(a):
    return ([abs_expr(x) for x in a.positional], [(n.name.name, abs_expr(n.value)) for n in a.named])


def abs_pattern(p):
    if p is None:
        return None
    out = []
    for el in p.elements:
        if type(el) is A.TextElement:
            if out and isinstance(out[-1], str):
                out.append(("adjacent-text",))
            out.append(el.value)
        else:
            out.append(abs_expr(el))
    return out


def abs_entry(e):
    t = type(e)
    if t in (A.Message, A.Term):
        return ("message" if t is A.Message else "term", e.id.name, abs_pattern(e.value),
                [(a.id.name, abs_pattern(a.value)) for a in e.attributes],
                e.comment.content if e.comment is not None else None)
    if t is A.Junk:
        return ("junk", e.content)
    return ({A.Comment: "comment", A.GroupComment: "group", A.ResourceComment: "resource"}.get(t, t.__name__), e.content)


def norm(s):
    return s.replace("\r\n", "\n")


# ------------------------------------------------------------------ C01
def chk_C01(s):
    for ws in (True, False):
        p = FluentParser(with_spans=ws)
        for what in ("parse", "parse_entry"):
            try:
                r = getattr(p, what)(s)
            except RecursionError:
                return None
            except BaseException as e:
                return f"{what}({quote(s)}) with_spans={ws} raised {type(e).__name__}: {e}"
            if what == "parse" and type(r) is not A.Resource:
                return f"parse({quote(s)}) returned {type(r).__name__}"
            ents = r.body if what == "parse" else [r]
            for e in ents:
                if type(e) not in (A.Message, A.Term, A.Comment, A.GroupComment, A.ResourceComment, A.Junk):
                    return f"{what}({quote(s)}) has an entry of type {type(e).__name__}"
                if type(e) is A.Junk:
                    if len(e.annotations) != 1:
                        return f"{what}({quote(s)}): Junk with {len(e.annotations)} annotations"
                    a = e.annotations[0]
                    if a.code not in CODES or not isinstance(a.message, str) or not a.message or a.message == a.code:
                        return f"{what}({quote(s)}): annotation code {a.code!r} message {a.message!r}"
    return None


# ------------------------------------------------------------------ C02
BLANK = re.compile(r"(?: |\n|\r\n)*\Z")


def chk_C02(s):
    r = parse(s)
    pos = 0
    for e in r.body:
        if e.span is None:
            return f"{quote(s)}: entry without span"
        a, b = e.span.start, e.span.end
        if not (pos <= a <= b <= len(s)):
            return f"{quote(s)}: {type(e).__name__} span {a}..{b} after {pos}"
        if a == b:
            return f"{quote(s)}: {type(e).__name__} has an empty span"
        if not BLANK.match(s[pos:a]):
            return f"{quote(s)}: non-blank text {quote(s[pos:a])} between entries"
        pos = b
    if not BLANK.match(s[pos:]):
        return f"{quote(s)}: non-blank text {quote(s[pos:])} after the last entry"

    def rec(n):
        sp = n.span
        prev = None
        kids = sorted(children(n), key=lambda kc: (kc[1].span.start, kc[1].span.end) if kc[1].span else (-1, -1))
        for k, c in kids:
            if c.span is None:
                return f"{quote(s)}: {type(c).__name__} without span"
            if type(n) is A.Junk or not isinstance(n, A.Resource):
                if not (sp.start <= c.span.start <= c.span.end <= sp.end):
                    return f"{quote(s)}: {type(c).__name__} {c.span.start}..{c.span.end} outside {type(n).__name__} {sp.start}..{sp.end}"
            if prev is not None and c.span.start < prev:
                return f"{quote(s)}: {type(c).__name__} at {c.span.start} overlaps its sibling ending at {prev}"
            prev = c.span.end
            x = rec(c)
            if x:
                return x
        t = s[sp.start:sp.end]
        want = None
        if type(n) is A.Junk:
            want = n.content
        elif type(n) is A.Identifier:
            want = n.name
        elif type(n) is A.NumberLiteral:
            want = n.value
        elif type(n) is A.VariableReference:
            want = "$" + n.id.name
        elif type(n) is A.StringLiteral:
            want = '"' + n.value + '"'
        if want is not None and t != want:
            return f"{quote(s)}: {type(n).__name__} {quote(want)} has span text {quote(t)}"
        if type(n) is A.Placeable and not (t[:1] == "{" and t[-1:] == "}"):
            return f"{quote(s)}: Placeable span text {quote(t)}"
        if type(n) is A.TextElement and (t[:1] in "{}" and t or t[-1:] in "{}" and t):
            return f"{quote(s)}: TextElement span text {quote(t)}"
        return None

    for e in r.body:
        x = rec(e)
        if x:
            return x
        if type(e) is not A.Junk:
            sub = parse(s[e.span.start:e.span.end]).body
            if len(sub) != 1 or dump(sub[0], False) != dump(e, False):
                return f"{quote(s)}: span text of {type(e).__name__} {quote(s[e.span.start:e.span.end])} is not that entry"
    return None


# ------------------------------------------------------------------ C03
def wf_pattern(p, s, stray):
    if not isinstance(p, A.Pattern):
        return "pattern is " + type(p).__name__
    if not p.elements and not stray:
        return "empty pattern"
    prev = None
    for el in p.elements:
        if type(el) is A.TextElement:
            if not isinstance(el.value, str) or el.value == "":
                return "empty text element"
            if "{" in el.value or "}" in el.value:
                return "brace in text " + quote(el.value)
            if prev is A.TextElement:
                return "adjacent text elements"
        elif type(el) is not A.Placeable:
            return "pattern element " + type(el).__name__
        prev = type(el)
    if p.elements and type(p.elements[-1]) is A.TextElement and p.elements[-1].value[-1] in " \n":
        return "trailing blank in text " + quote(p.elements[-1].value)
    return None


INLINE = (A.StringLiteral, A.NumberLiteral, A.MessageReference, A.TermReference, A.VariableReference, A.FunctionReference, A.Placeable)


def wf(n, s, stray=False):
    """AST well-formedness of one node; None or a message."""
    def ident(i):
        if type(i) is not A.Identifier or not isinstance(i.name, str) or not IDENT.match(i.name):
            return f"identifier {getattr(i, 'name', i)!r}"
    t = type(n)
    if t is A.Identifier:
        return ident(n)
    if t is A.NumberLiteral:
        return None if NUM.match(n.value) else f"number {n.value!r}"
    if t is A.StringLiteral:
        return None if STR.match(n.value) else f"string {n.value!r}"
    if t is A.Message:
        if n.value is None and not n.attributes:
            return "message without value and attributes"
        if n.comment is not None and type(n.comment) is not A.Comment:
            return "message comment " + type(n.comment).__name__
        return ident(n.id) or (wf_pattern(n.value, s, stray) if n.value is not None else None) or next(
            (f"attribute {type(a).__name__}" for a in n.attributes if type(a) is not A.Attribute), None)
    if t is A.Term:
        if n.comment is not None and type(n.comment) is not A.Comment:
            return "term comment " + type(n.comment).__name__
        return ident(n.id) or wf_pattern(n.value, s, stray) or next(
            (f"attribute {type(a).__name__}" for a in n.attributes if type(a) is not A.Attribute), None)
    if t is A.Attribute:
        return ident(n.id) or wf_pattern(n.value, s, stray)
    if t is A.Variant:
        if type(n.key) not in (A.Identifier, A.NumberLiteral):
            return "variant key " + type(n.key).__name__
        if not isinstance(n.default, bool):
            return "variant default " + repr(n.default)
        return wf_pattern(n.value, s, stray)
    if t is A.Placeable:
        e = n.expression
        if type(e) not in INLINE + (A.SelectExpression,):
            return "placeable of " + type(e).__name__
        if type(e) is A.TermReference and e.attribute is not None:
            return "term attribute as placeable"
        return None
    if t is A.SelectExpression:
        e = n.selector
        ok = type(e) in (A.StringLiteral, A.NumberLiteral, A.VariableReference, A.FunctionReference) or (
            type(e) is A.TermReference and e.attribute is not None)
        if not ok:
            return "selector " + type(e).__name__
        d = [v for v in n.variants if type(v) is A.Variant and v.default]
        if len(d) != 1 or any(type(v) is not A.Variant for v in n.variants):
            return f"select with {len(d)} defaults of {len(n.variants)}"
        return None
    if t is A.FunctionReference:
        if type(n.arguments) is not A.CallArguments:
            return "function arguments " + type(n.arguments).__name__
        return ident(n.id) or (None if FUN.match(n.id.name) else f"function {n.id.name!r}")
    if t is A.TermReference:
        if n.arguments is not None and type(n.arguments) is not A.CallArguments:
            return "term arguments " + type(n.arguments).__name__
        return ident(n.id) or (ident(n.attribute) if n.attribute is not None else None)
    if t is A.MessageReference:
        return ident(n.id) or (ident(n.attribute) if n.attribute is not None else None)
    if t is A.VariableReference:
        return ident(n.id)
    if t is A.CallArguments:
        names = [x.name.name for x in n.named]
        if len(set(names)) != len(names):
            return f"duplicate named arguments {names}"
        if any(type(x) not in INLINE for x in n.positional):
            return "positional argument of wrong type"
        if any(type(x) is not A.NamedArgument for x in n.named):
            return "named argument of wrong type"
        if s is not None and n.span is not None and n.positional and n.named:
            if max(p.span.start for p in n.positional) > min(p.span.start for p in n.named):
                return "positional argument after a named one"
        return None
    if t is A.NamedArgument:
        return ident(n.name) or (None if type(n.value) in (A.StringLiteral, A.NumberLiteral) else "named argument value")
    if t in (A.Comment, A.GroupComment, A.ResourceComment):
        return None if isinstance(n.content, str) else "comment content " + repr(n.content)
    return None


def chk_C03(s):
    stray = STRAY.search(s) is not None
    for ws in (True, False):
        for e in FluentParser(with_spans=ws).parse(s).body:
            for n in nodes(e):
                x = wf(n, s, stray)
                if x:
                    return f"{quote(s)}: {type(n).__name__}: {x}"
    return None


# ------------------------------------------------------------------ C04
ENTRYLIKE = re.compile(r"[a-zA-Z\-#]|//|\[\[")


def shift(d, k):
    if isinstance(d, tuple) and d and d[0] == "Span":
        return ("Span",) + tuple((f, (t, v + k)) for f, (t, v) in d[1:])
    if isinstance(d, (list, tuple)):
        return type(d)(shift(x, k) for x in d)
    return d


def noannot(e):
    return ("junk", e.content, e.span.start, e.span.end) if type(e) is A.Junk else e


def chk_C04(s):
    r = parse(s)
    todo = [i for i, e in enumerate(r.body) if type(e) is A.Junk]
    todo = todo[:4] + todo[-4:] if len(todo) > 8 else todo
    for i in todo:
        e = r.body[i]
        a, b = e.span.start, e.span.end
        if not e.annotations:
            return f"{quote(s)}: Junk without annotation"
        an = e.annotations[0]
        if an.span is None or not (a <= an.span.start <= an.span.end <= b):
            return f"{quote(s)}: annotation outside its Junk {a}..{b}"
        if a > 0 and s[a - 1] != "\n":
            return f"{quote(s)}: Junk starts at {a}, inside a line"
        if b < len(s) and not (s[b - 1] == "\n" and ENTRYLIKE.match(s, b)):
            return f"{quote(s)}: Junk ends at {b}, which does not begin an entry"
        pos = an.span.start
        if pos < b:
            line = s.rfind("\n", 0, pos) + 1
            k = line if line > a else (s.find("\n", pos) + 1 or len(s))
            while k < len(s) and not ENTRYLIKE.match(s, k):
                k = s.find("\n", k) + 1 or len(s)
            if k != b:
                return f"{quote(s)}: Junk {a}..{b} with its error at {pos} should end at {k}"
        pre = parse(s[:a]).body
        if dump([noannot(x) for x in pre]) != dump([noannot(x) for x in r.body[:i]]):
            return f"{quote(s)}: entries before the Junk at {a} differ from parsing the text before it"
        post = parse(s[b:]).body
        if shift(dump(post), b) != dump(r.body[i + 1:]):
            return f"{quote(s)}: entries after the Junk ending at {b} differ from parsing the text after it"
    return None


# ------------------------------------------------------------------ C05, C06, C07
def ref_compare(s, ws, proj=lambda e: e):
    """Compare the parse with the reference, junk by junk."""
    t = norm(s)
    body = [abs_entry(e) for e in FluentParser(with_spans=ws).parse(s).body]
    body = [(e[0], norm(e[1])) if e[0] == "junk" else e for e in body]
    i = off = 0
    while True:
        ref, junk = refparse.parse(t[off:])
        for e in ref:
            got = body[i] if i < len(body) else None
            if got is None or proj(got) != proj(e):
                return f"{quote(s)}: expected {proj(e)!r}, got {proj(got) if got else None!r}"
            i += 1
        if junk is None:
            break
        got = body[i] if i < len(body) else None
        if got is None or got[0] != "junk":
            return f"{quote(s)}: expected Junk at {quote(t[off + junk:off + junk + 40])}, got {got!r}"
        if not t.startswith(got[1], off + junk) or not got[1]:
            return f"{quote(s)}: Junk content {quote(got[1])} is not the text at the malformed entry"
        off = refparse.skip_blank(t, off + junk + len(got[1]))[0]
        i += 1
    if i != len(body):
        return f"{quote(s)}: unexpected entry {body[i]!r}"
    return None


def chk_C05(s):
    def proj(e):
        if e[0] in ("message", "term"):
            return (e[0], e[1], e[4])
        return e
    return ref_compare(s, True, proj)


def notext(x):
    if isinstance(x, list):
        out = [notext(y) for y in x if not isinstance(y, str)]
        return out
    if isinstance(x, tuple):
        return tuple(notext(y) for y in x)
    return x


def chk_C06(s):
    if STRAY.search(s):
        pr = lambda e: notext(e[:4]) if e[0] in ("message", "term") else e
    else:
        pr = lambda e: e[:4] if e[0] in ("message", "term") else e
    x = ref_compare(s, True, pr)
    if x:
        return x
    on, off = FluentParser().parse(s), FluentParser(with_spans=False).parse(s)
    if dump(on, False) != dump(off, False):
        return f"{quote(s)}: with_spans changes the tree"
    if any(getattr(n, "span", None) is not None for n in nodes(off)):
        return f"{quote(s)}: span recorded although switched off"
    e1, e2 = FluentParser().parse_entry(s), FluentParser(with_spans=False).parse_entry(s)
    if dump(e1, False) != dump(e2, False):
        return f"{quote(s)}: with_spans changes parse_entry"
    # parse_entry: the first entry that is not a well-formed comment
    if on.body:
        want = next((e for e in on.body if type(e) in (A.Message, A.Term, A.Junk)), None)
        if want is not None:
            w = want.clone()
            if hasattr(w, "comment"):
                w.comment = None
            if dump(w, False) != dump(e1, False):
                return f"{quote(s)}: parse_entry gives {abs_entry(e1)!r}"
    return None


def chk_C07(s):
    if STRAY.search(s):
        return None
    def proj(e):
        return e[:4] if e[0] in ("message", "term") else e[0]
    x = ref_compare(s, True, proj)
    if x and "expected" in x:
        return x
    return ref_compare(s, False, proj)


# ------------------------------------------------------------------ C08
def chk_C08(s):
    if STRAY.search(s):
        return None
    r = parse(s)
    before = dump(r)
    try:
        out = serialize(r)
    except RecursionError:
        return None
    except Exception as e:
        return f"serialize of {quote(s)} raised {type(e).__name__}: {e}"
    if dump(r) != before:
        return f"serialize modified the tree of {quote(s)}"
    r2 = parse(out)
    want = [dump(e, False) for e in r.body if type(e) is not A.Junk]
    got = [dump(e, False) for e in r2.body]
    # a comment directly before dropped Junk etc. keeps standing alone
    if want != got:
        return f"{quote(s)} serializes to {quote(out)}, which parses differently"
    if serialize(r2) != out:
        return f"{quote(s)}: serializing again gives {quote(serialize(r2))} instead of {quote(out)}"
    outj = serialize(r, with_junk=True)
    pos = 0
    for e in r.body:
        if type(e) is A.Junk:
            k = outj.find(e.content, pos)
            if k < 0:
                return f"{quote(s)}: Junk {quote(e.content)} not retained in {quote(outj)}"
            pos = k + len(e.content)
    parts = []
    ser = FluentSerializer(with_junk=True)
    st = 0
    for e in r.body:
        parts.append(e.content if type(e) is A.Junk else ser.serialize_entry(e, st))
        st = 1
    if "".join(parts) != outj:
        return f"{quote(s)}: with_junk output {quote(outj)} is not the entries and Junk in order"
    return None


# ------------------------------------------------------------------ C09
def chk_C09_tree(r, tag):
    c = r.clone()
    if type(c) is not type(r) or dump(c) != dump(r):
        return f"{tag}: clone differs"
    ids = {id(n) for n in nodes(r)} | {id(v) for n in nodes(r) for v in vars(n).values() if isinstance(v, list)}
    for n in nodes(c):
        if id(n) in ids or any(id(v) in ids for v in vars(n).values() if isinstance(v, list)):
            return f"{tag}: clone shares a {type(n).__name__} or its list"
    for ign in (["span"], [], None):
        if not (r.equals(c, ign) and c.equals(r, ign)):
            return f"{tag}: clone is not equal (ignored={ign})"
    if not r.equals(r):
        return f"{tag}: not equal to itself"
    back = A.from_json(json.loads(json.dumps(r.to_json())))
    if dump(back) != dump(r):
        return f"{tag}: JSON round trip differs"
    return None


def default_field(d):
    return d


def ref_equal(a, b, ignored):
    """Reference equality, on nodes or field values."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(ref_equal(x, y, ignored) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, A.BaseNode):
        ka = set(vars(a)) - set(ignored or ())
        kb = set(vars(b)) - set(ignored or ())
        return ka == kb and all(ref_equal(getattr(a, k), getattr(b, k), ignored) for k in ka)
    return a == b


def mutate_tree(r, rng, swap=False):
    """A clone of r changed at one place (None when it cannot be)."""
    import copy
    c = copy.deepcopy(r)
    ns = list(nodes(c))
    n = rng.choice(ns)
    if swap:
        # the same fields under another class
        same = [k for k in vars(A).values() if isinstance(k, type) and issubclass(k, A.BaseNode) and k is not type(n)]
        n.__class__ = rng.choice(same)
        return c
    fs = list(vars(n).items())
    if not fs:
        return None
    k, v = rng.choice(fs)
    if isinstance(v, list):
        m = rng.randrange(4)
        if m == 0 and v:
            v.pop(rng.randrange(len(v)))
        elif m == 1 and len(v) > 1:
            i = rng.randrange(len(v) - 1)
            v[i], v[i + 1] = v[i + 1], v[i]
        elif m == 2 and v:
            v.append(copy.deepcopy(rng.choice(v)))
        else:
            v.insert(rng.randrange(len(v) + 1), A.TextElement("zz"))
    elif isinstance(v, bool):
        setattr(n, k, not v)
    elif isinstance(v, int):
        setattr(n, k, v + rng.choice([-1, 1]))
    elif isinstance(v, str):
        setattr(n, k, rng.choice([v + "x", v[:-1], v.upper(), v.swapcase(), v + " ", None]))
    elif v is None:
        setattr(n, k, rng.choice([A.Span(0, 1), A.Identifier("q"), "x"]))
    else:
        rep = rng.randrange(3)
        if rep == 0:
            setattr(n, k, None)
        elif rep == 1 and isinstance(v, (A.StringLiteral, A.NumberLiteral)):
            o = A.NumberLiteral if isinstance(v, A.StringLiteral) else A.StringLiteral
            setattr(n, k, o(v.value, span=v.span))
        else:
            setattr(n, k, A.Identifier("other"))
    return c


def chk_C09(s, rng=None):
    r = parse(s) if isinstance(s, str) else s
    tag = quote(s) if isinstance(s, str) else str(r)[:300]
    x = chk_C09_tree(r, tag)
    if x:
        return x
    for n in (list(nodes(r)) if rng is None else rng.sample(list(nodes(r)), min(4, len(list(nodes(r)))))):
        x = chk_C09_tree(n, tag + " node " + type(n).__name__)
        if x:
            return x
    if rng is not None:
        for _ in range(3):
            swap = rng.random() < 0.15
            c = mutate_tree(r, rng, swap)
            if c is None:
                continue
            for ign in (["span"], [], None, ["span", "comment"], ["value"]):
                want = ref_equal(r, c, ign)
                if r.equals(c, ign) != want or c.equals(r, ign) != want:
                    return f"{tag}: equals is {r.equals(c, ign)}/{c.equals(r, ign)}, expected {want} (ignored={ign}) against {str(c)[:300]}"
            if swap:
                continue
            d = A.from_json(json.loads(json.dumps(c.to_json())))
            if dump(d) != dump(c):
                # constructors replace None lists etc.; only report for field values they keep
                if ref_equal(A.from_json(d.to_json()), d, []) and dump(A.from_json(c.to_json())) != dump(d):
                    return f"{tag}: JSON of {str(c)[:200]} differs after a round trip"
    return None


# ------------------------------------------------------------------ C10
def ref_unescape(v):
    out = []
    i = 0
    while i < len(v):
        c = v[i]
        if c == "\\" and i + 1 < len(v):
            d = v[i + 1]
            if d in '\\"':
                out.append(d)
                i += 2
                continue
            k = {"u": 4, "U": 6}.get(d)
            if k:
                h = v[i + 2:i + 2 + k]
                if len(h) == k and all(x in "0123456789abcdefABCDEF" for x in h):
                    cp = int(h, 16)
                    out.append(chr(cp) if cp <= 0x10FFFF and not 0xD800 <= cp <= 0xDFFF else "\ufffd")
                    i += 2 + k
                    continue
        out.append(c)
        i += 1
    return "".join(out)


def chk_C10_str(v):
    r = parse('a = { "' + v + '" }')
    if type(r.body[0]) is not A.Message:
        return None
    n = r.body[0].value.elements[0].expression
    if n.value != v:
        return f"literal {quote(v)} stored as {quote(n.value)}"
    try:
        got = n.parse()["value"]
    except Exception as e:
        return f"unescaping {quote(v)} raised {type(e).__name__}: {e}"
    if got != ref_unescape(v):
        return f"{quote(v)} unescapes to {quote(got)}, expected {quote(ref_unescape(v))}"
    return None


def chk_C10_num(v):
    n = parse("a = {" + v + "}").body[0]
    if type(n) is not A.Message:
        return f"number {v!r} not accepted"
    lit = n.value.elements[0].expression
    try:
        p = lit.parse()
    except Exception as e:
        return f"number {v!r} parse raised {e!r}"
    if p["value"] != float(v) or type(p["value"]) is not float or p["precision"] != (len(v.split(".")[1]) if "." in v else 0):
        return f"number {v!r} parses to {p!r}"
    return None


# ------------------------------------------------------------------ C11
def ref_order(v, out):
    if isinstance(v, list):
        for c in v:
            ref_order(c, out)
    elif isinstance(v, A.BaseNode):
        out.append(v)
        for c in vars(v).values():
            ref_order(c, out)


def chk_C11(s, rng):
    r = parse(s)
    want = []
    ref_order(r, want)
    seen = []
    handled = []

    class V(Visitor):
        def generic_visit(self, node):
            seen.append(node)
            super().generic_visit(node)
    names = sorted({type(n).__name__ for n in want})
    pick = rng.choice(names) if names else "Message"

    def h(self, node):
        handled.append(node)
        self.generic_visit(node)
    V1 = type("V1", (V,), {})
    V1().visit(r)
    if [id(x) for x in seen] != [id(x) for x in want]:
        return f"{quote(s)}: generic visit reaches {len(seen)} nodes of {len(want)} or in another order"
    seen.clear()
    V2 = type("V2", (V,), {"visit_" + pick: h})
    V2().visit(r)
    if [id(x) for x in seen] != [id(x) for x in want] or [id(x) for x in handled] != [id(x) for x in want if type(x).__name__ == pick]:
        return f"{quote(s)}: visit_{pick} handled {len(handled)} nodes"
    # handler without generic_visit does not descend
    handled.clear(); seen.clear()
    V3 = type("V3", (V,), {"visit_" + pick: lambda self, node: handled.append(node)})
    V3().visit(r)
    exp = []
    def order3(v):
        if isinstance(v, list):
            for c in v:
                order3(c)
        elif isinstance(v, A.BaseNode):
            exp.append(v)
            if type(v).__name__ != pick:
                for c in vars(v).values():
                    order3(c)
    order3(r)
    if [id(x) for x in handled] != [id(x) for x in exp if type(x).__name__ == pick]:
        return f"{quote(s)}: visit_{pick} without descending handled {len(handled)}"
    # Transformers
    c = r.clone()
    ident = {id(n) for n in nodes(c)}
    d0 = dump(c)
    res = Transformer().visit(c)
    if res is not c or dump(c) != d0 or {id(n) for n in nodes(c)} != ident:
        return f"{quote(s)}: a transformer without handlers changed the tree"
    # replace / remove chosen nodes
    mode = rng.choice(["replace", "remove", "mixed", "list"])
    k = rng.randrange(1, 4)
    cnt = [0]

    def decide():
        cnt[0] += 1
        if mode == "replace":
            return "new"
        if mode == "remove":
            return None if cnt[0] % k == 0 else "same"
        return ["new", None, "same"][cnt[0] % 3]
    if pick == "Resource":
        pick = "Identifier"

    def handler(self, node):
        a = decide()
        if a == "new":
            return A.TextElement("new%d" % cnt[0])
        return None if a is None else node
    T = type("T", (Transformer,), {"visit_" + pick: handler})
    c = r.clone()
    keep = {id(n): n for n in nodes(c)}
    # expected result, computed on a dump of an independent copy
    c2 = r.clone()

    def ref(v):
        if isinstance(v, list):
            out = []
            for x in v:
                y = ref(x) if isinstance(x, A.BaseNode) else dump(x)
                if y is not None:
                    out.append(y)
            return out
        if not isinstance(v, A.BaseNode):
            return v
        if type(v).__name__ == pick:
            a = decide()
            if a == "new":
                return ("TextElement", ("span", ("NoneType", None)), ("value", ("str", "new%d" % cnt[0])))
            return None if a is None else dump(v)
        fs = []
        for f, x in vars(v).items():
            y = ref(x)
            if isinstance(x, A.BaseNode):
                if y is None:
                    continue
            elif not isinstance(x, list):
                y = dump(x)
            fs.append((f, y))
        return (type(v).__name__,) + tuple(sorted(fs, key=lambda q: q[0]))
    want = ref(c2)
    cnt[0] = 0
    lists = {id(v) for n in nodes(c) for v in vars(n).values() if isinstance(v, list)}
    try:
        got = T().visit(c)
    except Exception as e:
        return f"{quote(s)}: transformer {mode} visit_{pick} raised {type(e).__name__}: {e}"
    if got is not c and pick != "Resource":
        return f"{quote(s)}: transformer returned another root"
    if dump(c) != want:
        return f"{quote(s)}: transformer {mode}/{k} visit_{pick} gives {str(c)[:300]}"
    return None


# ------------------------------------------------------------------ C24
def chk_C24(s):
    from fluent.pygments.lexer import FluentLexer
    from pygments.token import Token
    try:
        toks = list(FluentLexer().get_tokens_unprocessed(s))
    except RecursionError:
        return None
    except Exception as e:
        return f"lexer on {quote(s)} raised {type(e).__name__}: {e}"
    pos = 0
    for start, tok, text in toks:
        if start != pos:
            return f"{quote(s)}: token {quote(text)} at {start}, expected position {pos}"
        pos += len(text)
    if "".join(t for _, _, t in toks) != s:
        return f"{quote(s)}: tokens concatenate to {quote(''.join(t for _, _, t in toks))}"
    # kinds, from the spans of an independent walk
    kind = {}
    def mark(n, t):
        for i in range(n.span.start, n.span.end):
            kind[i] = t
    def walk(n):
        t = type(n).__name__
        if t in ("Comment", "GroupComment", "ResourceComment"):
            mark(n, Token.Comment.Multiline)
        elif t == "Identifier":
            mark(n, Token.Name.Constant)
        elif t == "TextElement":
            mark(n, Token.Literal)
        elif t == "NumberLiteral":
            mark(n, Token.Literal.Number)
        elif t == "StringLiteral":
            mark(n, Token.Literal.String)
        elif t == "VariableReference":
            mark(n, Token.Name.Variable)
        elif t == "Junk":
            mark(n, Token.Generic.Error)
        elif t == "Variant":
            mark(n.key, Token.Name.Attribute)
            walk(n.value)
        elif t == "Annotation":
            pass
        else:
            for _, c in children(n):
                walk(c)
    walk(parse(s))
    for start, tok, text in toks:
        for i in range(start, start + len(text)):
            if kind.get(i, Token.Punctuation) is not tok:
                return f"{quote(s)}: character {i} has token {tok}, expected {kind.get(i, Token.Punctuation)}"
    return None
