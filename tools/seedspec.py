SYN = "fluent.syntax/fluent/syntax/"
RT = "fluent.runtime/fluent/runtime/"
SEEDS = []


def seed(id, prop, edits, demo, needs, what):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo.lstrip("\n"), needs=needs, what=what))


B = '''
from fluent.runtime import FluentBundle, FluentResource
def bundle(src, **k):
    b = FluentBundle(["en-US"], use_isolating=k.pop("iso", False), **k)
    b.add_resource(FluentResource(src))
    return b
def fmt(b, i, args=None):
    return b.format_pattern(b.get_message(i).value, args)
'''

seed("c03-hex-g", "C03",
     [(SYN + "stream.py", "or (cc >= 65 and cc <= 70)", "or (cc >= 65 and cc <= 71)")],
     '''
from fluent.syntax import FluentParser, ast
assert isinstance(FluentParser().parse('a = {"\\\\u00fF"}\\n').body[0], ast.Message)
assert isinstance(FluentParser().parse('a = {"\\\\u00gG"}\\n').body[0], ast.Junk)
assert isinstance(FluentParser().parse('a = {"\\\\u00GG"}\\n').body[0], ast.Junk)
''', "a unicode escape containing the letter G", "string literals may contain escapes that are not escapes")

seed("c07-blank-indent", "C07",
     [(SYN + "parser.py", "common_indent_length = min(common_indent_length, len(indent))", "common_indent_length = min(common_indent_length, len(indent)) if blank_lines == EOL else common_indent_length")],
     '''
from fluent.syntax import FluentParser
m = FluentParser().parse("key =\\n      one\\n\\n  two\\n").body[0]
got = "".join(e.value for e in m.value.elements)
assert got == "    one\\n\\ntwo", repr(got)
m = FluentParser().parse("key =\\n  one\\n    two\\n").body[0]
assert "".join(e.value for e in m.value.elements) == "one\\n  two"
''', "a continuation line that has the smallest indent and follows an empty line", "the common indent of a block pattern ignores lines that follow blank lines")

seed("c09-longer-list", "C09",
     [(SYN + "ast.py", "if len(field1) != len(field2):", "if len(field1) > len(field2):")],
     '''
from fluent.syntax import FluentParser
a = FluentParser().parse("a = 1\\n")
b = FluentParser().parse("a = 1\\nb = 2\\n")
assert not b.equals(a)
assert not a.equals(b)
''', "comparing a list with a longer list that it is a prefix of", "equality is not symmetric and ignores list lengths")

seed("c11-visit-order", "C11",
     [(SYN + "visitor.py", "for propvalue in vars(node).values():", "for _, propvalue in sorted(vars(node).items()):")],
     '''
from fluent.syntax import FluentParser, Visitor
class V(Visitor):
    def __init__(self): self.seen = []
    def generic_visit(self, node):
        self.seen.append(type(node).__name__)
        super().generic_visit(node)
v = V()
v.visit(FluentParser(with_spans=False).parse("# c\\nm = v\\n    .a = x\\n").body[0])
assert v.seen == ["Message", "Identifier", "Pattern", "TextElement", "Attribute", "Identifier", "Pattern", "TextElement", "Comment"], v.seen
''', "a node whose fields are not in alphabetical order", "children are visited in another order than that of the fields")

seed("c12-frac-zero", "C17",
     [(RT + "types.py", "if self.options.maximumFractionDigits is not None:", "if self.options.maximumFractionDigits:")],
     B + '''
assert fmt(bundle("a = { NUMBER($n, maximumFractionDigits: 1) }"), "a", {"n": 1.26})[0] == "1.3"
assert fmt(bundle("a = { NUMBER($n, maximumFractionDigits: 0) }"), "a", {"n": 1.26})[0] == "1"
''', "maximumFractionDigits: 0", "an option given as 0 is ignored")

seed("c12-term-of-none", "C12",
     [(RT + "resolver.py", '''        try:
            return function(*args, **kwargs)
        except Exception as e:''', '''        try:
            return function(*args, **kwargs)
        except (ValueError, TypeError, LookupError, AttributeError) as e:''')],
     B + '''
def f(x):
    return x / 0
b = bundle("a = x { F(1) } y\\nb = { F(1) }", functions={"F": lambda x: 1 / 0})
s, e = fmt(b, "a")
assert s == "x F() y" and len(e) == 1 and isinstance(e[0], ZeroDivisionError)
''', "a custom function that raises something else than ValueError, TypeError, LookupError or AttributeError", "formatting raises")

seed("c15-nested-marks", "C15",
     [(RT + "resolver.py", "        if not env.context.use_isolating:\n            return inner", "        if not env.context.use_isolating or isinstance(self.expression, Placeable):\n            return inner")],
     B + '''
b = bundle("a = x { { $n } }", iso=True)
s, e = fmt(b, "a", {"n": "v"})
assert s == "x \\u2068\\u2068v\\u2069\\u2069", ascii(s)
''', "a placeable nested directly in another placeable", "only one pair of marks for two placeables")

seed("c16-last-match", "C16",
     [(RT + "resolver.py", "                found = variant\n                break", "                found = variant\n                if is_number(key) and not is_number(variant.key(env)):\n                    continue\n                break")],
     B + '''
b = bundle("a = { $n ->\\n [one] first\\n [1] second\\n *[other] third\\n}\\n")
assert fmt(b, "a", {"n": 1})[0] == "first"
assert fmt(b, "a", {"n": 2})[0] == "third"
''', "a number matching both its plural category and a later number key", "a later variant is chosen instead of the first matching one")

seed("c19-stop-at-valueless", "C19",
     [(RT + "fallback.py", "            if not msg.value:\n                continue", "            if not msg.value:\n                break")],
     '''
from fluent.runtime import FluentLocalization, FluentResource
class L:
    def resources(self, locale, ids):
        yield [FluentResource({"en": "a =\\n    .x = 1\\n", "de": "a = Wert\\n"}[locale])]
assert FluentLocalization(["en", "de"], ["r"], L()).format_value("a") == "Wert"
assert FluentLocalization(["de", "en"], ["r"], L()).format_value("a") == "Wert"
''', "a message without value in an earlier bundle", "the fallback stops and returns the id")

seed("c21-naive-local", "C21",
     [(RT + "types.py", "dt = dt.replace(tzinfo=pytz.UTC)", "dt = dt.astimezone(pytz.UTC)")],
     '''
import os, time
os.environ["TZ"] = "America/New_York"
time.tzset()
from datetime import datetime
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en-US"], use_isolating=False)
b.add_resource(FluentResource('a = { DATETIME($d, timeStyle: "short") }'))
s, e = b.format_pattern(b.get_message("a").value, {"d": datetime(2020, 1, 1, 10, 30)})
assert s.replace("\\u202f", " ") == "10:30 AM", s
''', "a naive datetime on a machine whose local time zone is not UTC", "naive datetimes are read as local time")

seed("c22-compile-mutates", "C22",
     [(RT + "prepare.py", "kwargs: Dict[str, Any] = vars(node).copy()", "kwargs: Dict[str, Any] = vars(node)")],
     B + '''
r = FluentResource("a = x { $n } y\\n    .t = q\\n")
c = r.clone()
for _ in range(2):
    b = FluentBundle(["en"], use_isolating=False)
    b.add_resource(r)
    assert fmt(b, "a", {"n": "1"})[0] == "x 1 y"
assert r.equals(c, [])
''', "a resource that is used again or inspected after one of its messages was looked up", "compiling a message replaces parts of the resource's tree")

seed("c23-first-placeholder", "C23",
     [(RT + "fallback.py", "return path.format(locale=locale)", 'return path.replace("{locale}", locale, 1)')],
     '''
import os, tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/de")
    open(d + "/de/app-de.ftl", "w").write("a = 1\\n")
    r = list(FluentResourceLoader(d + "/{locale}").resources("de", ["app-{locale}.ftl"]))
    assert len(r) == 1 and r[0][0].body[0].id.name == "a"
''', "the placeholder in both the root and the resource id", "only the first placeholder is substituted")

seed("c24-token-end", "C24",
     [("fluent.pygments/fluent/pygments/lexer.py", "last_end = node.span.end", "last_end = node.span.start + len(span.rstrip())")],
     '''
from fluent.pygments.lexer import FluentLexer
for s in ("a = b", "a = x \\u00a0\\n", "a = x {$y} z\\n", "junk\\n\\nb = 1\\n"):
    toks = list(FluentLexer().get_tokens_unprocessed(s))
    assert "".join(t[2] for t in toks) == s, toks
''', "a token whose text ends with white space", "the blank is emitted twice")

# ---------------------------------------------------------------- second round
seed("c01-escape-eof", "C01",
     [(SYN + "parser.py", 'raise ParseError("E0026", f"\\\\{u}{sequence}{ps.current_char}")', 'raise ParseError("E0026", "\\\\" + u + sequence + cast(str, ps.current_char))')],
     '''
from fluent.syntax import FluentParser, ast
for s in ('a = {"\\\\u00g"}', 'a = {"\\\\u00', 'a = {"\\\\U0'):
    b = FluentParser().parse(s).body
    assert isinstance(b[-1], ast.Junk)
''', "a text that ends inside a unicode escape", "parsing raises TypeError instead of giving Junk")

seed("c02-comment-crlf", "C02",
     [(SYN + "parser.py", '''                    if self.with_spans:
                        cast(ast.Span, entry.span).start = cast(''', '''                    if self.with_spans and cast(
                        ast.Span, last_comment.span
                    ).end + 1 == cast(ast.Span, entry.span).start:
                        cast(ast.Span, entry.span).start = cast(''')],
     '''
from fluent.syntax import FluentParser
for s in ("# c\\na = b\\n", "# c\\r\\na = b\\r\\n"):
    m = FluentParser().parse(s).body[0]
    assert m.comment is not None and m.span.start <= m.comment.span.start <= m.comment.span.end <= m.span.end, s
''', "a comment attached to an entry in a text with CRLF line ends", "the comment's span lies outside the span of the entry that holds it")

seed("c04-bare-hash", "C04",
     [(SYN + "stream.py", '''if self.is_char_id_start(first) or first == "-" or first == "#":''', '''if (
                self.is_char_id_start(first)
                or first == "-"
                or (first == "#" and self.get(self.index + 1) in (" ", "#", EOL))
            ):''')],
     '''
from fluent.syntax import FluentParser, ast
for s in ("?\\n# c\\na = b\\n", "?\\n#\\na = b\\n", "?\\r\\n#\\r\\na = b\\r\\n"):
    b = FluentParser().parse(s).body
    assert [type(e).__name__ for e in b] == ["Junk", "Message"], (s, b)
    assert b[1].comment is not None
''', "a bare # comment line with a CRLF line end right after Junk", "the Junk goes on over the comment that follows it")

seed("c05-blank-space", "C05",
     [(SYN + "parser.py", '''            blank_lines = ps.skip_blank_block()

''', '''            blank_lines = ps.skip_blank_block().replace("\\n", "", int(ps.current_char == "-"))

''')],
     '''
from fluent.syntax import FluentParser
for s in ("# c\\n\\na = b\\n", "# c\\n-a = b\\n", "# c\\n\\n-a = b\\n"):
    b = FluentParser().parse(s).body
    joined = "\\n\\n" not in s
    assert (b[0].__class__.__name__ == "Comment") != joined, s
''', "a comment, one blank line and a term", "a comment separated from a term by a blank line is attached to it")

seed("c06-arg-names", "C06",
     [(SYN + "parser.py", "                if arg.name.name in argument_names:", "                if arg.name.name.lower() in argument_names:"),
      (SYN + "parser.py", "                argument_names.add(arg.name.name)", "                argument_names.add(arg.name.name.lower())")],
     '''
from fluent.syntax import FluentParser, ast
assert isinstance(FluentParser().parse("a = { F(x: 1, y: 2) }\\n").body[0], ast.Message)
assert isinstance(FluentParser().parse("a = { F(x: 1, x: 2) }\\n").body[0], ast.Junk)
assert isinstance(FluentParser().parse("a = { F(minDigits: 1, mindigits: 2) }\\n").body[0], ast.Message)
''', "two argument names that differ only in case", "a valid call is rejected")

seed("c08-blank-comment-line", "C08",
     [(SYN + "serializer.py", 'prefix if len(line) == 0 else f"{prefix} {line}"', 'f"{prefix} {line}" if line.strip() else prefix')],
     '''
from fluent.syntax import FluentParser, FluentSerializer
for s in ("# a\\n#\\n# b\\n", "# a\\n#   \\n# b\\n"):
    r = FluentParser().parse(s)
    assert r.equals(FluentParser().parse(FluentSerializer().serialize(r)))
''', "a comment line of blanks only", "the blanks are lost when the comment is printed")

seed("c10-plane16", "C10",
     [(SYN + "ast.py", "[0-9a-fA-F]{6}", "0[0-9a-fA-F]{5}")],
     """
from fluent.syntax import FluentParser
def val(t):
    return FluentParser().parse('a = {"' + t + '"}\\n').body[0].value.elements[0].expression.parse()["value"]
assert val("\\\\U01F602") == chr(0x1F602)
assert val("\\\\U10FFFF") == chr(0x10FFFF)
assert val("\\\\U110000") == chr(0xFFFD)
""", "a 6-digit escape that does not start with 0", "it is left as it is")

seed("c13-report-once", "C13",
     [(RT + "resolver.py", '''            env.errors.append(
                FluentReferenceError("Unknown function: {}".format(function_name))
            )
''', '''            if not env.errors or function_name not in str(env.errors[-1]):
                env.errors.append(
                    FluentReferenceError("Unknown function: {}".format(function_name))
                )
''')],
     B + '''
b = bundle("a = { F() }\\nc = { F($x) } { F() }\\nd = {FOO()}{FO()}\\n")
assert len(fmt(b, "a")[1]) == 1
assert len(fmt(b, "d")[1]) == 2, fmt(b, "d")
assert len(fmt(b, "c", {"x": 1})[1]) == 2
''', "two references to missing functions one after the other", "only the first is reported")

seed("c14-count-placeables", "C14",
     [(RT + "resolver.py", "        env.part_count += len(elements)\n", "        env.part_count += sum(not isinstance(e, TextElement) for e in elements)\n")],
     B + '''
src = "p = a{ $x }b{ $x }c\\n"
src += "q = " + "{ p } " * 60 + "\\n" + "r = " + "{ q } " * 3 + "\\n"
b = bundle(src)
v, e = fmt(b, "q", {"x": ""})
assert not e
v, e = fmt(b, "r", {"x": ""})
assert v == "{???}" and e, (len(v), e)
''', "a message whose expansion has many text parts", "text parts do not count, so that a message of more than 1000 parts is expanded")

seed("c18-valueless-override", "C18",
     [(RT + "bundle.py", "            if full_id not in map_ or allow_overrides:", "            if full_id not in map_ or (allow_overrides and item.value):")],
     '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = one\\nc = x\\n"))
b.add_resource(FluentResource("a =\\n    .b = two\\nc = y\\n"), allow_overrides=True)
m = b.get_message("a")
assert b.format_pattern(b.get_message("c").value)[0] == "y"
assert m.value is None and "b" in m.attributes
''', "an override that has attributes but no value", "the override is ignored")

seed("c20-message-in-term", "C20",
     [(RT + "resolver.py", '''class MessageReference(FTL.MessageReference, BaseResolver):
    id: "Identifier"
    attribute: Union["Identifier", None]

    def __call__(self, env: ResolverEnvironment) -> Union[str, FluentNone]:
        return resolveEntryReference(self, env)
''', '''class MessageReference(FTL.MessageReference, BaseResolver):
    id: "Identifier"
    attribute: Union["Identifier", None]

    def __call__(self, env: ResolverEnvironment) -> Union[str, FluentNone]:
        # Messages report the arguments they miss.
        with env.modified(error_for_missing_arg=True):
            return resolveEntryReference(self, env)
''')],
     B + '''
b = bundle("m = [{ $x }]\\n-t = { m }\\nu = { -t }{ -t(x: 1) }{ m }\\n")
v, e = fmt(b, "u", {"x": "X"})
assert v == "[x][1][X]", v
assert e == [], e
''', "a message with a variable, referenced inside a term", "a variable that is missing inside a term is reported")


# ---------------------------------------------------------------- third round
seed("c16-locale-break", "C16",
     [(RT + "bundle.py", "            except babel.UnknownLocaleError:\n                continue", "            except babel.UnknownLocaleError:\n                break")],
     B + '''
b = FluentBundle(["xx-QQ", "pl"], use_isolating=False)
b.add_resource(FluentResource("m = { $n ->\\n  [few] few\\n *[other] other\\n }\\n"))
assert fmt(b, "m", {"n": 3}) == ("few", [])
''', "a first locale that Babel does not know", "the plural rules are those of the process's default locale instead of the next locale of the bundle")

seed("c18-term-stale", "C18",
     [(RT + "bundle.py", "self._compiled.pop((full_id, map_ is self._terms), None)", "self._compiled.pop((full_id, False), None)")],
     B + '''
b = bundle("-t = old\\nm = { -t }\\n")
assert fmt(b, "m") == ("old", [])
b.add_resource(FluentResource("-t = new\\n"), allow_overrides=True)
assert fmt(b, "m") == ("new", []), fmt(b, "m")
''', "a term that was formatted before it is overridden", "the old definition of the term stays in use")

seed("c12-format-error", "C12",
     [(RT + "resolver.py", "        except Exception as e:\n            # For example, formatting", "        except (TypeError, ValueError, ArithmeticError, LookupError) as e:\n            # For example, formatting")],
     B + '''
from fluent.runtime.types import FluentType
class T(FluentType):
    def format(self, locale): raise RuntimeError("no")
r = fmt(bundle("m = a { $x }\\n"), "m", {"x": T()})
assert r[0] == "a ???" and isinstance(r[1][0], RuntimeError), r
class V(T):
    def format(self, locale): raise KeyError("no")
assert fmt(bundle("m = a { $x }\\n"), "m", {"x": V()})[0] == "a ???"
''', "a custom type whose format raises something unusual", "formatting raises")

seed("c19-chain-of-two", "C19",
     [(RT + "fallback.py", "locs = self.locales[first_loc:]", "locs = self.locales[first_loc:first_loc + 2]")],
     '''
from fluent.runtime import FluentLocalization, FluentResource
from fluent.runtime.fallback import AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, locale, ids): yield [FluentResource("m = { $n ->\\n  [few] few\\n *[other] other\\n }\\n")]
assert FluentLocalization(["xx-QQ", "pl"], ["a"], L()).format_value("m", {"n": 3}) == "few"
assert FluentLocalization(["xx-QQ", "yy-QQ", "pl"], ["a"], L()).format_value("m", {"n": 3}) == "few"
''', "three locales", "a bundle gets only the next two locales of the chain")

seed("c09-shared-texts", "C09",
     [(SYN + "ast.py", "            if isinstance(value, list):\n                return [visit(child) for child in value]", "            if isinstance(value, list):\n                if value and not isinstance(value[0], BaseNode):\n                    return value\n                return [visit(child) for child in value]")],
     '''
from fluent.syntax import FluentParser
j = FluentParser().parse("a = {\\n").body[0]
j = next(b for b in FluentParser().parse("a = { -b.c }\\nb = { 1 x }\\n").body if b.annotations[0].arguments)
c = j.clone()
c.annotations[0].arguments.append("x")
assert not j.equals(c)
assert j.annotations[0].arguments is not c.annotations[0].arguments
''', "an annotation with arguments", "the clone shares the list of arguments with the original")

seed("c11-last-none", "C11",
     [(SYN + "visitor.py", "                # in-place manipulation\n                propvalue[:] = new_vals", "                # in-place manipulation\n                propvalue[:] = new_vals or propvalue")],
     '''
from fluent.syntax import FluentParser, Transformer
class T(Transformer):
    def visit_Attribute(self, node): return None if node.id.name == "x" else node
p = lambda s: T().visit(FluentParser().parse(s)).body[0].attributes
assert [a.id.name for a in p("m = v\\n .x = 1\\n .y = 2\\n")] == ["y"]
assert p("m = v\\n .x = 1\\n") == []
''', "a handler that returns nothing for every element of a list", "the elements stay in the tree")

seed("c17-significant-max", "C17",
     [(RT + "types.py", "max_digits = maxSD if maxSD is not None else min_digits", "max_digits = max(maxSD or 0, min_digits)")],
     '''
from babel import Locale
from fluent.runtime.types import fluent_number
L = Locale.parse("en_US")
f = lambda v, **k: fluent_number(v, **k).format(L)
assert f(1.23456, maximumSignificantDigits=3) == "1.23"
from babel.numbers import parse_pattern, NumberPattern
p = fluent_number(1, minimumSignificantDigits=4, maximumSignificantDigits=2)._apply_options(L.decimal_formats[None])
assert p.int_prec == (4, 2), p.int_prec
''', "a maximum number of significant digits below the minimum", "another maximum than the one given is applied")

seed("c22-join-blank", "C22",
     [(RT + "prepare.py", "        if len(elements) == 1:\n            return elements[0]\n        return resolver.TextElement(\"\".join(child(None) for child in elements))", "        if len(elements) == 1:\n            return elements[0]\n        return resolver.TextElement(\"\".join(dict.fromkeys(child(None) for child in elements)))")],
     B + '''
assert fmt(bundle('m = a{ "b" }a\\n'), "m") == ("aba", [])
assert fmt(bundle('m = a{ "b" }c\\n'), "m") == ("abc", [])
''', "two equal pieces of literal text in one pattern", "the second one is lost")

seed("c08-two-junks", "C08",
     [(SYN + "serializer.py", "            if not isinstance(entry, ast.Junk) or self.with_junk:\n                parts.append(self.serialize_entry(entry, state))", "            if not isinstance(entry, ast.Junk) or (\n                self.with_junk and entry.content.strip()\n            ):\n                parts.append(self.serialize_entry(entry, state))")],
     '''
from fluent.syntax import parse, serialize
for s in ["a = b\\n\\x0b\\n", "1\\n", "a = b\\n\\x0b\\nc = d\\n"]:
    out = serialize(parse(s), with_junk=True)
    assert out == s, (s, out)
''', "Junk made of blanks that are not FTL blanks", "such Junk is not retained")

seed("c21-both-styles-zone", "C21",
     [(RT + "types.py", '.replace("{0}", format_time(selftz, ts, tzinfo=None, locale=locale))', '.replace("{0}", format_time(selftz, ts, tzinfo=self.tzinfo, locale=locale))')],
     B + '''
from datetime import datetime, timezone, timedelta
d = datetime(2024, 1, 15, 23, 30, tzinfo=timezone(timedelta(hours=-5)))
src = 'm = { DATETIME($d, dateStyle: "short", timeStyle: "short") }\\n'
from fluent.runtime.types import fluent_date
t, errs = fmt(bundle(src), "m", {"d": fluent_date(d, timeZone="Asia/Tokyo")})
assert errs == [] and t.replace("\\u202f", " ") == "1/16/24, 1:30 PM", (t, errs)
t, errs = fmt(bundle(src), "m", {"d": fluent_date(datetime(2024, 1, 15, 23, 30), timeZone="Asia/Tokyo")})
assert errs == [] and t.replace("\\u202f", " ") == "1/16/24, 8:30 AM", (t, errs)
''', "an aware datetime, a time zone option, and both a date and a time style", "the time is printed in the value's own time zone, beside the date in the requested one")

seed("c10-last-surrogate", "C10",
     [(SYN + "ast.py", "or 0xE000 <= codepoint <=", "or 0xDFFF <= codepoint <=")],
     '''
from fluent.syntax.ast import StringLiteral
assert StringLiteral("\\\\uDFFF").parse()["value"] == "\\ufffd"
assert StringLiteral("\\\\uDFFE").parse()["value"] == "\\ufffd"
assert StringLiteral("\\\\uE000").parse()["value"] == "\\ue000"
''', "the escape of the last surrogate", "it is decoded to a lone surrogate")

seed("c20-positional-named", "C20",
     [(RT + "resolver.py", "            if self.arguments.positional:\n", "            if self.arguments.positional and not self.arguments.named:\n")],
     B + '''
src = "-t = { $a }\\nm = { -t(1, a: 2) }\\nn = { -t(1) }\\n"
t, errs = fmt(bundle(src), "m")
assert t == "2" and len(errs) == 1, (t, errs)
t, errs = fmt(bundle(src), "n")
assert len(errs) == 1, (t, errs)
''', "a term reference with both positional and named arguments", "the positional arguments are not reported")

seed("c23-roots-leak", "C23",
     [(RT + "fallback.py", "        for root in self.roots:\n            resources: List[Any] = []\n", "        resources: List[Any] = []\n        for root in self.roots:\n"),
      (RT + "fallback.py", "            if resources:\n                yield resources\n", "            if resources:\n                yield resources\n                if len(resources) == len(resource_ids):\n                    resources = []\n")],
     '''
import os, tempfile
from fluent.runtime import FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    for p, t in (("one/a.ftl", "a = 1"), ("two/a.ftl", "a = 2"), ("two/b.ftl", "b = 2")):
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        open(os.path.join(d, p), "w").write(t)
    got = [[[e.id.name for e in r.body] for r in rs] for rs in FluentResourceLoader([d + "/one", d + "/two"]).resources("en", ["a.ftl", "b.ftl"])]
    assert got == [[["a"]], [["a"], ["b"]]], got
''', "several roots, the first of which lacks some of the files", "the files found in one root are yielded again with those of the next")

seed("c15-term-marks", "C15",
     [(RT + "resolver.py", "        inner = resolve(self.expression(env), env)\n        if not env.context.use_isolating:", "        inner = resolve(self.expression(env), env)\n        if not env.context.use_isolating or inner[:1] == \"\\u2068\" and inner[-1:] == \"\\u2069\":")],
     B + '''
src = "-t = { $a } and { $b }\\nm = x { -t(a: 1, b: 2) }\\n"
t, errs = fmt(bundle(src, iso=True), "m")
assert t == "x \\u2068\\u20681\\u2069 and \\u20682\\u2069\\u2069", ascii(t)
''', "a placeable whose text begins and ends with a placeable of its own", "it is not isolated")
