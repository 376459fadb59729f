"""Which functions are put under contract for which property.

tasks(prop) -> list of Task.  A task verifies one function against its
contract, or one lemma about a specification function."""
from engine.contract import *


class Task:
    def __init__(self, name, contract=None, registry=None, opts=None, lemma=None, internal=True, budget=200, cost=1):
        self.name, self.contract, self.registry, self.opts = name, contract, registry, opts or {}
        self.lemma, self.internal, self.budget, self.cost = lemma, internal, budget, cost


COMMON_TRUST = [
    "z3 (the only solver; every obligation is a quantifier-free query whose negation z3 reports unsatisfiable)",
    "the verifier itself: /verif/engine reads the current source with Python's ast module and executes every path symbolically; its models of the "
    "built-in operations on str, list, dict, set, tuple and int",
    "class bodies, imports and module-level constants of the verified modules are evaluated as written; nothing rebinds module functions at run time",
    "Python ints are mathematical integers (exact in Python); recursion depth and memory are not modelled",
]


def syntax_registry():
    from . import stream as S, parser as P, astschema
    reg = Registry()
    for c in S.STREAM + P.PARSER:
        reg.active[c.key] = c
    reg.rfind_hooks.append(S.rfind_hook)
    reg.re_hook = P.re_hook
    astschema.install(reg)
    return reg


def stream_tasks(only=None):
    from . import stream as S
    out = []
    for n in ("BL", "BI", "BB", "BK", "SK"):
        if n in SPECS:
            out.append(Task("lemma " + n, lemma=n, registry=syntax_registry))
    for c in S.STREAM:
        if only is None or c.meth in only:
            out.append(Task(c.key, c, syntax_registry))
    return out


COST = {"get_pattern": 40, "get_call_arguments": 10, "get_comment": 16, "get_inline_expression": 7, "get_message": 5, "maybe_get_pattern": 5}


def parser_tasks(mode, meths, **opts):
    from . import parser as P
    out = []
    o = dict(mode=mode, term_drop=("span", "annotations"), **opts)
    for c in P.PARSER:
        if c.meth in meths:
            out.append(Task(c.key + " [%s]" % mode, c, syntax_registry, o, cost=COST.get(c.meth, 2)))
    return out


GLEM = ["IDE", "DGE", "SBE", "TXE", "DT", "CEE", "CMX", "MSN", "TMN"]


def grammar_lemmas(names=GLEM):
    from . import grammar
    return [Task("lemma " + n, lemma=n, registry=syntax_registry, opts=dict(mode="gram", term_drop=("span", "annotations"))) for n in names]


def runtime_registry():
    from . import resolver as R
    return R.registry()


def resolver_tasks(prop, only=None):
    from . import resolver as R
    out = [Task("lemma PFt", lemma="PFt", registry=runtime_registry), Task("lemma SFI", lemma="SFI", registry=runtime_registry)]
    for c in R.RESOLVER:
        n = getattr(c, "cls", "") or c.key.partition(":")[2]
        if only is None or n in only:
            out.append(Task(c.key, c, runtime_registry, dict(keep=R.clauses(prop, n)), internal=n in ("resolve", "match"), cost=2))
    return out


def compiler_tasks(classes=None):
    from . import compiler as K
    call, comp = K.COMPILER
    o = dict(term_drop=("span",))
    return [Task("lemma TEXTS", lemma="TEXTS", registry=K.registry), Task(call.key, call, K.registry, o, internal=False, cost=20)] + \
        [Task(comp.key + " [%s]" % n, comp, K.registry, dict(o, cls=n), internal=False) for n in K.AST_SCHEMAS if classes is None or n in classes]


# the part of a new bundle each property depends on
INIT_PART = {"C18": "maps", "C16": "locale", "C15": "isolating", "C13": "functions"}


def tasks(prop):
    from . import wrap, bundle
    out = _tasks(prop) + [Task(c.key, c, wrap.registry, internal=False) for c in wrap.WRAP.get(prop, ())]
    if prop in INIT_PART:
        out += [Task(c.key, c, bundle.init_registry, dict(part=INIT_PART[prop]), internal=False) for c in bundle.INIT]
    return out


def _tasks(prop):
    from . import parser as P, resolver as R
    allp = [c.meth for c in P.PARSER]
    layout = ["get_pattern", "dedent", "get_text_element", "maybe_get_pattern"]
    if prop == "C01":
        return stream_tasks() + parser_tasks("safe", allp)
    if prop in ("C03", "C06"):
        return stream_tasks() + grammar_lemmas(["IDE", "DGE", "SBE"]) + parser_tasks("gram", [m for m in allp if m not in layout + ["get_comment", "parse", "parse_entry"]])
    if prop == "C07":
        return stream_tasks() + grammar_lemmas(["TXE", "DT"]) + parser_tasks("gram", layout)
    if prop == "C02":
        from . import spans as Sp
        o = dict(mode="span", with_spans=True, mk_hooks=(Sp.mk_hook,))
        return stream_tasks() + [Task(c.key + " [span]", c, Sp.registry, dict(o, gaps=c.meth == "parse"), cost=COST.get(c.meth, 2)) for c in P.PARSER if c.meth != "parse_entry"]
    if prop == "C05":
        return stream_tasks(["is_next_line_comment", "skip_blank_block", "peek_blank_block", "expect_line_end"]) + grammar_lemmas(["CEE", "CMX", "MSN", "TMN"]) + \
            parser_tasks("gram", ["get_comment", "get_entry", "get_entry_or_junk", "parse", "parse_entry"])
    if prop == "C04":
        return stream_tasks(["skip_to_next_entry_start", "expect_line_end", "skip_blank_block", "peek_blank_block"]) + grammar_lemmas(["CEE", "CMX", "MSN", "TMN"]) + \
            parser_tasks("gram", ["get_entry", "get_entry_or_junk", "parse", "parse_entry"])
    if prop in ("C12", "C13", "C14", "C20", "C22"):
        from . import format as F
        return resolver_tasks(prop) + [Task(c.key, c, F.registry, dict(keep=R.clauses(prop, c.key.partition(":")[2])), internal=False) for c in F.FORMAT] + \
            (compiler_tasks() + conversion_tasks() if prop == "C22" else [])
    if prop == "C15":
        return resolver_tasks(prop, ["Pattern", "NeverIsolatingPlaceable", "Placeable", "TextElement", "StringLiteral", "resolve"]) + \
            compiler_tasks(["Pattern", "Placeable", "TextElement", "StringLiteral"])
    if prop == "C16":
        return resolver_tasks(prop, ["SelectExpression", "match", "Identifier", "NumberLiteral"])
    if prop == "C09":
        from . import tree as Tr
        out = []
        for c in Tr.TREE:
            n = c.key.partition(":")[2]
            vs = [dict(cls=x) for x in Tr.ALL] if n.startswith("BaseNode") or n == "from_json" else [{}]
            if n in ("to_json", "from_json"):
                vs = (vs if n == "from_json" else [dict(kind=0)]) + [dict(kind=k) for k in (1, 2, 3)]
            out += [Task(c.key + " [%s]" % v.get("cls", v.get("kind", "")), c, Tr.registry, v, internal=False) for v in vs]
        for c in Tr.LEMMAS:
            out += [Task(c.key + " [%s]" % x, c, Tr.registry, dict(cls=x), internal=False) for x in Tr.ALL]
        return out
    if prop == "C11":
        from . import visit as Vi
        out = []
        for c in Vi.VISITOR:
            out += [Task(c.key + " [%s]" % x, c, Vi.registry, dict(cls=x), internal=False, cost=30 if x in ("Message", "Term") else 2) for x in Vi.ALL]
            if c.meth == "visit":
                out += [Task(c.key + " [%s]" % k, c, Vi.registry, dict(kind=k), internal=False) for k in (1, 2, 3)]
        return out
    if prop == "C24":
        from . import lexer as Lx
        tk, gt = Lx.LEXER
        return [Task(tk.key + " [%s]" % x, tk, Lx.registry, dict(cls=x, unsnoc=False), internal=False) for x in Lx.NODES + ["None", "list"]] + \
            [Task(gt.key, gt, Lx.registry, internal=False)] + [Task("lemma tokens in order [%s]" % x, Lx.LEMMA, Lx.registry, dict(cls=x), internal=False) for x in Lx.NODES + ["list"]]
    if prop == "C10":
        from . import literal as Li
        return [Task("lemma DG", lemma="DG", registry=Li.registry)] + [Task(c.key, c, Li.registry, internal=False) for c in Li.LITERAL]
    if prop == "C08":
        from . import printer as Pr
        out = [Task("lemma %s" % n, lemma=n, registry=Pr.registry) for n in ("PTL", "MULTI")]
        for c in Pr.PRINTER:
            out += [Task(c.key + " [%s]" % x, c, Pr.registry, dict(cls=x), internal=c in Pr.HELPERS) for x in c.classes or ("",)]
        return out
    if prop == "C18":
        from . import bundle
        return [Task(c.key, c, bundle.registry, internal=False) for c in bundle.BUNDLE]
    if prop in ("C19", "C23"):
        from . import local as L
        return [Task(c.key, c, L.registry, internal=False) for c in (L.LOCAL if prop == "C19" else L.LOADER)]
    if prop in ("C17", "C21"):
        from . import types as Ty
        by = {c.key.partition(":")[2]: c for c in Ty.TYPES}
        own = ["fluent_number", "fluent_date", "FluentNumber.format"] if prop == "C17" else ["native_to_fluent", "fluent_date", "FluentDateType.format"]
        return [Task(by["merge_options"].key + " [%s]" % k, by["merge_options"], Ty.registry, dict(options=k)) for k in ("Number", "Date")] + \
            [Task(by[n].key, by[n], Ty.registry, internal=False, cost=20 if n.startswith("FluentN") else 2) for n in own]
    return []


def conversion_tasks():
    from . import types as Ty
    return [Task(c.key, c, Ty.registry, internal=False) for c in Ty.TYPES if c.key.endswith(":native_to_fluent")]


GRAMMAR_A = ["CRLF line ends are read as LF by the stream (its contracts); a stray CR before a line break or the end of a value is excluded by the statement",
             "the interpreter's call stack is deep enough for the nesting of the text (partial correctness with termination measures on the source position)"]
SYNTAX_A = ["the parser's trees have fields of the types declared in ast.py (proved as postconditions of the parser, assumed of hand-built trees)"]
RUNTIME_A = ["compiled trees are finite and have the classes and field shapes that the Compiler's contract gives them (C22)",
             "a custom function returns a str or a Fluent value, or raises; the statement excludes other return types",
             "plural rules raise at most ArithmeticError or ValueError; value.format(locale) gives a str determined by the value, or raises",
             "a list of variants has at most one default (C03; not so in hand-built trees)",
             "identifiers are not empty, contain no '.' and do not start with '-' (C03)",
             "what one clause of a contract says of callees is assumed where the clause belongs to another property: each check discharges its own clauses (assume-guarantee), all are discharged by the checks of C12, C13, C14, C20 and C22 together"]
LISTS_A = ["sequence axioms used by the verifier: nth/length/append/prefix facts instantiated at the terms that occur; induction over list positions and tree depth is a rule of the verifier, not of z3"]
ASSUME = {
    "C01": GRAMMAR_A + ["the text of an error message is not specified beyond being non-empty"],
    "C02": GRAMMAR_A + LISTS_A + ["a text element's characters are not compared with those its span covers (block patterns drop the indent); only containment and order are stated for them"],
    "C03": GRAMMAR_A, "C06": GRAMMAR_A + ["the grammar's specification functions (contracts/grammar.py) are the reading of the EBNF that the property means"],
    "C04": GRAMMAR_A + ["the specification of an entry depends on the text only from its start on: the grammar functions read forward, which is how 'parses on its own' is stated"],
    "C05": GRAMMAR_A, "C07": GRAMMAR_A + LISTS_A,
    "C08": LISTS_A + SYNTAX_A + ["text elements and expression texts are not empty (C07, C03)",
                                 "str laws instantiated as axioms: split/join/replace/rpartition on line breaks, associativity of concatenation",
                                 "that the printed text parses back to the tree printed is decided by the bounded cross-check only"],
    "C09": LISTS_A + SYNTAX_A + ["no node occurs twice in a tree, and trees are finite", "Annotation.arguments holds texts only", "to_json with a callback is not covered"],
    "C10": ["re.sub replaces the leftmost non-overlapping matches from left to right; the pattern itself is read from the source and its language verified",
            "float(text) of number syntax is the number that it reads"],
    "C11": LISTS_A + SYNTAX_A + ["handlers of a Visitor do not change the tree they are given; handlers of a Transformer return a node or None and visit children only by generic_visit",
                                 "no node occurs twice in a tree"],
    "C12": RUNTIME_A, "C13": RUNTIME_A, "C14": RUNTIME_A, "C20": RUNTIME_A,
    "C22": RUNTIME_A + SYNTAX_A + ["errors appended to the caller's list are the only effect of a call: frame conditions are obligations for every function under contract"],
    "C15": RUNTIME_A, "C16": RUNTIME_A + ["Babel's plural_form is a function of the number and the locale; Locale.parse is a function of the text, or raises UnknownLocaleError (a malformed locale name, for which it raises ValueError, is the caller's error)"],
    "C17": ["babel.numbers.NumberPattern.apply, parse_pattern and the locale's patterns are functions of their arguments, or raise; what Babel prints for a pattern is not specified",
            "copy.copy of a pattern or of options gives a fresh object with equal fields"],
    "C18": ["entries given to a bundle are syntax nodes; Compiler()(entry) is the compiled form (C22)"],
    "C19": ["bundle_class, the resource loader and the bundles behave as their interfaces say: has_message/get_message/format_pattern are functions of the bundle",
            "the loader's generator is finite or infinite, and yields lists of resources"],
    "C21": ["Babel's date functions are functions of their arguments, or raise; time zone conversions are datetime.astimezone and pytz's laws",
            "FluentDateType values are FluentDate or FluentDateTime only"],
    "C23": ["os.path.isfile and open are the file system of the moment; the parser's parse is a function of the text (C06)",
            "str.replace replaces every occurrence; codecs/encoding as given in the call"],
    "C24": LISTS_A + ["what the lexer uses of the parser's tree is proved in C02: every node has a span inside its parent's, siblings in order",
                      "a Junk entry is one token; classes of the tree are those of ast.py"],
}



def assumptions(prop):
    return ASSUME.get(prop, [])
