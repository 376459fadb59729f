#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for ids, titles and statements)."""
import json, os
SYN = "fluent.syntax/fluent/syntax/"
RT = "fluent.runtime/fluent/runtime/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Parsing is total: every text yields a resource, errors become Junk",
  "For every string (with or without spans), parsing a whole resource or a single entry terminates and returns a tree instead of raising, as long as the nesting of placeables fits the interpreter's call stack. Every syntax error is reported as a Junk entry carrying exactly one annotation with a documented error code and a non-empty message.",
  ["inputs"], "all strings, both span modes, parse and parse_entry",
  "The tests parse about 100 fixture files; an unexpected exception or an endless loop needs one particular character at one particular parser state (end of input, CR/LF boundary, stale look-ahead).",
  [SYN+"parser.py", SYN+"stream.py", SYN+"errors.py"],
  [("only ParseError escapes the grammar functions and it is caught per entry", SYN+"parser.py:get_entry_or_junk"),
   ("the cursor advances in every loop", SYN+"stream.py")],
  [("stream cursor", "index and look-ahead offset into the source", SYN+"stream.py:ParserStream")],
  ["fluent.syntax.parse", "FluentParser.parse_entry", "FluentResource"])
p("C02", "Spans locate every node exactly",
  "With spans on, the top-level entries have ordered, non-overlapping spans inside the source and only blank text lies between them; every other node's span lies inside its parent's span and siblings do not overlap. The source text under a span is the node's own text: a Junk's content, an identifier's name, a number, a variable with its '$', and a quoted string are exactly the characters their spans cover.",
  ["inputs"], "all source strings, every node of the resulting tree",
  "Fixtures pin spans of a few dozen files; off-by-one errors show only with particular layouts (CRLF, blank block, attached comment, recovery after an error).",
  [SYN+"parser.py", SYN+"stream.py"],
  [("span decorator records the cursor before and after", SYN+"parser.py:with_span"), ("comment attachment extends the entry's span", SYN+"parser.py:parse")],
  (), ["Resource.body[*].span"])
p("C03", "Parsed trees are well-formed",
  "Every tree the parser returns satisfies the abstract syntax: identifiers match [a-zA-Z][a-zA-Z0-9_-]*, numbers match -?[0-9]+(.[0-9]+)?, messages have a value or an attribute, terms a value, functions upper-case names, and string literals contain no raw quote, line break or unknown escape. Select expressions have exactly one default variant and a permitted selector, named arguments are unique literals that follow all positional ones, and text elements are non-empty, brace-free and never adjacent, with no trailing blank at the end of a pattern.",
  ["inputs"], "all source strings, every node of the resulting tree (a value consisting solely of stray carriage returns aside)",
  "A fixture shows one accepted or rejected spelling; the guarantee is about every string the parser does not reject.",
  [SYN+"parser.py", SYN+"stream.py"],
  [("character-class guards", SYN+"stream.py:take_id_char"), ("semantic checks raising coded errors", SYN+"parser.py")],
  (), ["fluent.syntax.parse"])
p("C04", "A syntax error is contained in its own entry",
  "When an entry is malformed, its Junk starts where the entry starts and ends at the first later line beginning like an entry (a letter, '-', '#', or the legacy '//' and '[[') on or after the line where the error was detected, or at the end of the text; the annotation's position lies inside it. The well-formed entries and Junk texts before it are what the text before it parses to on its own, and the entries after it are what the text after it parses to on its own.",
  ["inputs"], "all source strings containing at least one malformed entry",
  "Recovery depends on the combination of where the error was noticed and what the following lines look like; tests have a handful of broken files.",
  [SYN+"parser.py", SYN+"stream.py"],
  [("resynchronisation at the next entry start", SYN+"stream.py:skip_to_next_entry_start"), ("Junk construction", SYN+"parser.py:get_entry_or_junk")],
  (), ["Resource.body", "Junk.annotations"])
p("C05", "Comments are kept and attached to the right entry",
  "Every comment in the source appears in the tree exactly once and in order, with its lines joined by line feeds and stripped of the marker and one following space. A single-hash comment is attached to a message or term exactly when that entry parses and starts on the line right after it; otherwise, and always for group and resource comments, it stands alone at its place.",
  ["inputs"], "all source strings",
  "Attachment depends on blank lines, end of file, line-ending style and on whether the next entry parses, in combination.",
  [SYN+"parser.py", SYN+"stream.py"],
  [("stashed comment in the entry loop", SYN+"parser.py:parse"), ("comment continuation test", SYN+"stream.py:is_next_line_comment")],
  (), ["Resource.body", "Message.comment", "Term.comment"])
p("C06", "The parser accepts exactly the Fluent 1.0 grammar",
  "An entry is accepted if and only if it conforms to the Fluent Syntax 1.0 grammar and its validity rules, whatever the line-ending style (LF or CRLF), and the tree records exactly the constructs written, in order: identifiers, attributes, placeables, literals with their escapes verbatim, references, call arguments, selectors, variants and defaults. Switching span recording off changes nothing but the spans.",
  ["inputs"], "all source strings",
  "Reference fixtures sample the grammar; acceptance of every valid and rejection of every invalid string is a universal statement.",
  [SYN+"parser.py", SYN+"stream.py"],
  [("one recognising function per production", SYN+"parser.py"), ("look-ahead predicates", SYN+"stream.py")],
  (), ["fluent.syntax.parse"])
p("C07", "Pattern text is the source text minus layout",
  "The text of a parsed pattern is exactly the source text between its placeables with line breaks normalised to LF, the longest indent common to all its continuation lines (and to the first line when it starts on its own line) removed from each of them, leading blank lines dropped and trailing blanks trimmed. Relative indentation, interior blank lines, interior spaces and all other characters are preserved and placeables keep their order.",
  ["inputs"], "all source strings, every pattern (values, attributes, variants)",
  "Dedentation depends on the joint layout of all lines; fixtures cover a few layouts.",
  [SYN+"parser.py"],
  [("indent measurement", SYN+"parser.py:get_pattern"), ("indent removal and text merging", SYN+"parser.py:dedent")],
  (), ["Pattern.elements"])
p("C08", "Serializing a parsed resource preserves it",
  "For every source text, serializing the parsed resource and parsing the result gives an equal tree, spans aside: all messages, terms and comments in order, with Junk dropped by default and retained verbatim when requested. Serializing that tree again gives exactly the same text.",
  ["inputs"], "all source strings without a stray carriage return right before a line break or the end of a value",
  "Round trips in the tests use about sixty hand-written snippets; layout-sensitive content (special first characters, relative indent, unusual line separators, nested selects) combines without bound.",
  [SYN+"serializer.py", SYN+"parser.py"],
  [("continuation-line indentation", SYN+"serializer.py:indent_except_first_line"), ("choice of inline or block start", SYN+"serializer.py:should_start_on_new_line")],
  (), ["fluent.syntax.serialize"])
p("C09", "Clone, equality and JSON of trees agree",
  "For every syntax tree, a clone is equal to the original (spans included) and shares no node or list with it, and converting to JSON and back gives an equal tree, spans included. Equality is reflexive and symmetric and is false whenever the node types differ or any field that is not ignored differs, at any depth, including list lengths and order.",
  ["inputs"], "all trees built from the public node classes, all ignored-field choices",
  "Tests compare a few small trees; a field forgotten for one node class, or ignored by accident, shows only on trees that differ exactly there.",
  [SYN+"ast.py"],
  [("field-wise clone", SYN+"ast.py:BaseNode.clone"), ("field-wise comparison", SYN+"ast.py:BaseNode.equals"), ("JSON conversion", SYN+"ast.py:to_json")],
  (), ["BaseNode.clone", "BaseNode.equals", "BaseNode.to_json", "ast.from_json"])
p("C10", "String-literal escapes decode totally and exactly",
  "Every string literal the parser accepts can be unescaped without an exception: a backslash or quote escape gives that character, a 4- or 6-digit escape gives the code point, and surrogate or out-of-range code points give U+FFFD. All other characters are unchanged, and decoding is a single left-to-right pass. Number literals give their numeric value and count of decimal digits.",
  ["inputs"], "all accepted literals",
  "There are 16.7 million six-digit escapes and unbounded combinations of backslashes; tests decode about ten.",
  [SYN+"ast.py"], [("escape substitution", SYN+"ast.py:StringLiteral.parse"), ("precision", SYN+"ast.py:NumberLiteral.parse")],
  (), ["StringLiteral.parse", "NumberLiteral.parse"])
p("C11", "Visitors reach every node once; transformers edit only what they return",
  "Generic visiting reaches every node of a tree exactly once, each parent before its children and children in field order, and dispatches to the handler named after the node type. A transformer without handlers leaves the tree unchanged; with handlers, a returned node replaces the original in place, a node for which nothing is returned is removed from its list or field, and nothing else changes.",
  ["inputs", "programs"], "all trees, all sets of handlers",
  "Tests use two visitors on two trees.",
  [SYN+"visitor.py"], [("generic traversal", SYN+"visitor.py:Visitor.generic_visit"), ("in-place rewriting", SYN+"visitor.py:Transformer.generic_visit")],
  (), ["Visitor.visit", "Transformer.visit"])
p("C12", "Formatting never raises",
  "For every bundle built from any FTL text (nesting within the call stack, numbers within the interpreter's digit limit), every message it contains can be retrieved, and formatting its value or attributes with any argument mapping returns a string and a list of exceptions and never raises. This includes unsupported argument types, failing custom functions, invalid function options and non-finite numbers; custom functions are assumed to return strings or Fluent values.",
  ["inputs", "configurations"], "all FTL sources, all argument mappings, all functions that raise or return documented types",
  "Each new combination of reference, option and argument type is a new path; tests try roughly one error at a time.",
  [RT+"bundle.py", RT+"resolver.py", RT+"types.py"],
  [("last-resort error capture", RT+"bundle.py:format_pattern"), ("per-node error capture", RT+"resolver.py")],
  [("errors", "list of errors collected while resolving", RT+"resolver.py:ResolverEnvironment")],
  ["FluentBundle.format_pattern", "FluentBundle.get_message"])
p("C13", "Every unresolved reference is reported and leaves its fallback",
  "While formatting, each evaluated reference to a missing message, term, attribute, argument or function, each reference to a message without a value, and each argument of unsupported type adds exactly one error naming it, and its place in the output shows its documented fallback text; the rest of the pattern is formatted normally. A pattern whose references all resolve yields no error and the exact concatenation of its parts.",
  ["inputs", "configurations"], "all bundles and argument mappings",
  "Error and fallback depend on the reference's position (placeable, selector, argument, nested in a term).",
  [RT+"resolver.py", RT+"utils.py"],
  [("entry lookup with error capture", RT+"resolver.py:resolveEntryReference"), ("argument lookup", RT+"resolver.py:VariableReference"), ("function lookup", RT+"resolver.py:FunctionReference")],
  (), ["FluentBundle.format_pattern"])
p("C14", "Reference cycles and expansion bombs are stopped",
  "Formatting terminates for every reference graph: a pattern that is reached again while it is still being formatted (through values, attributes, variants, terms or lone placeables) yields a cyclic-reference error and '???', while repeated references that are not cyclic are formatted normally. A message that expands to more than 1000 pattern parts, or a part longer than 2500 characters, yields '{???}' and an error.",
  ["inputs"], "all reference graphs",
  "Cycles and bombs are properties of arbitrarily large graphs; tests have four cycles and two bombs.",
  [RT+"resolver.py", RT+"prepare.py"],
  [("set of active patterns", RT+"resolver.py:Pattern.__call__"), ("part counter and length limit", RT+"resolver.py:resolve")],
  [("active_patterns", "patterns currently being formatted", RT+"resolver.py:ResolverEnvironment"), ("part_count", "pattern parts formatted so far", RT+"resolver.py:ResolverEnvironment")],
  ["FluentBundle.format_pattern"])
p("C15", "Isolation marks wrap every interpolation and nothing else",
  "With isolation on, each placeable in a pattern of several parts that is not a string literal, and each placeable nested in another one, is wrapped in exactly one U+2068/U+2069 pair around its own text, and a placeable that is the whole pattern, string literals and plain text get none, so marks in the output are balanced whenever those of the inputs are. With isolation off the output contains no mark that was not in the texts, and is otherwise the same.",
  ["inputs", "configurations"], "all bundles, argument values and both isolation settings",
  "Nesting of patterns, selects and terms decides where marks go; tests look at a few flat messages.",
  [RT+"resolver.py", RT+"prepare.py"],
  [("wrapping placeable", RT+"resolver.py:Placeable.__call__"), ("lone placeable", RT+"prepare.py:compile_Pattern")],
  (), ["FluentBundle.format_pattern"])
p("C16", "A select expression picks the first matching variant, else the default",
  "A select expression formats exactly one variant: the first in source order whose key matches the selector, and the default one when none matches or the selector failed to resolve. A key matches an equal string, an equal number (int, float or Decimal), or, for a numeric selector, the name of the selector's plural category in the bundle's locale (ordinal when the number says so).",
  ["inputs", "configurations"], "all selectors, variant lists, locales and numeric types",
  "The cross product of selector types, key kinds, orders and default position is not enumerable by examples.",
  [RT+"resolver.py"],
  [("variant scan", RT+"resolver.py:SelectExpression.__call__"), ("key match", RT+"resolver.py:match")],
  (), ["FluentBundle.format_pattern"])
p("C17", "Formatting options merge by override and never leak",
  "Options given in a function call or wrapper override those the value already carries, options not given are inherited, and the rest have their defaults; the value itself, its type and the options of the original object stay unchanged. Number formatting applies exactly the merged options (style, grouping, integer, fraction and significant digits, currency display) to the locale's pattern and never alters shared locale data, so results do not depend on what was formatted before.",
  ["inputs", "histories"], "all option combinations, all nestings of wrappers and calls, all formatting histories",
  "Leaks between calls appear only in particular sequences; option interactions are exponential.",
  [RT+"types.py"],
  [("option merge", RT+"types.py:merge_options"), ("pattern copy", RT+"types.py:clone_pattern"), ("option application", RT+"types.py:FluentNumber._apply_options")],
  [("options", "formatting options attached to a value", RT+"types.py:FluentNumber")],
  ["fluent_number", "fluent_date", "FluentNumber.format"])
p("C18", "A bundle returns the entry that was added for an id",
  "After any sequence of resource additions and lookups, looking up a message id gives the first definition added, or the latest one among those added with overriding allowed, even if the id was looked up before; unknown ids raise a lookup error and the membership test agrees. Messages and terms have separate namespaces, and non-entry nodes never have an effect.",
  ["histories", "inputs"], "all sequences of add_resource (with and without overriding), has_message, get_message and format calls",
  "Order and interleaving of additions and lookups matter (cached compilations); tests add at most two resources and never after a lookup.",
  [RT+"bundle.py"],
  [("first definition wins unless overriding", RT+"bundle.py:add_resource"), ("compilation cache", RT+"bundle.py:_lookup")],
  [("_messages/_terms/_compiled", "entries by id and compiled entries", RT+"bundle.py:FluentBundle")],
  ["FluentBundle.get_message", "FluentBundle.has_message"])
p("C19", "Localization falls back through bundles in order",
  "Formatting an id through a localization returns the result of the first bundle, in locale order and then loader order, whose message of that id has a value, and the id itself when there is none, whatever earlier or interleaved calls were made. Each bundle is built at most once, only when needed, for the remaining locale chain, with the configured functions and isolation setting and all its resources in order.",
  ["histories", "configurations"], "all locale lists, loaders, message distributions and call sequences",
  "Laziness and caching make the result depend on the call history; tests make one call per case.",
  [RT+"fallback.py"],
  [("lazy bundle cache", RT+"fallback.py:_bundles"), ("bundle construction", RT+"fallback.py:_iterate_bundles")],
  [("_bundle_cache", "prefix of the bundle sequence built so far", RT+"fallback.py:FluentLocalization")],
  ["FluentLocalization.format_value"])
p("C20", "Terms see only the arguments passed to them",
  "Inside a term, a variable refers to the named argument given in that term reference and to nothing else: the caller's arguments are invisible, a missing one gives its name as text without an error, and positional arguments are reported and ignored. After the term, and inside messages a term refers to as everywhere else, the scope is that of the enclosing reference, so parts following the term see the original arguments again.",
  ["inputs"], "all nestings of terms, messages, attributes and arguments",
  "Scope restoration fails only for particular nestings or orders of references.",
  [RT+"resolver.py"],
  [("scoped replacement of the environment", RT+"resolver.py:ResolverEnvironment.modified"), ("argument evaluation", RT+"resolver.py:TermReference.__call__")],
  [("current", "arguments and error mode in force", RT+"resolver.py:ResolverEnvironment")],
  ["FluentBundle.format_pattern"])
p("C21", "Native values become Fluent values without loss",
  "Passing an int, float or Decimal as an argument gives a number of the same kind, equal to it and carrying its options; passing a date or datetime gives the same date, or the same local time, time zone and instant; other values are passed through untouched. Date and time output is that of the value in the requested time zone, with naive datetimes read as UTC, in the requested styles.",
  ["inputs"], "all numbers, dates and datetimes (any time zone, either side of a clock change) and options",
  "Value loss shows for particular values only (repeated hours, microseconds, subclass instances with options).",
  [RT+"utils.py", RT+"types.py"],
  [("conversion by type", RT+"utils.py:native_to_fluent"), ("date copies", RT+"types.py:FluentDateTime.from_date_time")],
  (), ["FluentBundle.format_pattern", "fluent_date", "fluent_number"])
p("C22", "Use never modifies resources or arguments",
  "Adding a resource to any number of bundles, retrieving messages and formatting them never changes the resource's tree, the argument mapping or the values in it. Compiling a message preserves its meaning: the same value, attributes and references, with adjacent literals joined; formatting the same pattern with the same arguments gives the same string and errors every time, in any order with other calls.",
  ["histories", "inputs"], "all resources shared between bundles, all call sequences",
  "Mutation of shared structure shows only when the same resource or value is used a second time.",
  [RT+"prepare.py", RT+"bundle.py", RT+"resolver.py"],
  [("compilation into fresh nodes", RT+"prepare.py:Compiler"), ("environment per call", RT+"bundle.py:format_pattern")],
  (), ["FluentBundle.add_resource", "FluentBundle.format_pattern"])
p("C23", "The resource loader finds exactly the files that exist",
  "For each root in order, the file loader yields one list holding the parsed content of every listed resource that exists there for the locale, in the listed order, skips missing files, and yields nothing for a root without any. The locale is substituted wherever the placeholder occurs, in roots or resource ids.",
  ["inputs", "configurations"], "all roots, resource id lists, locales and sets of existing files",
  "Tests mock one or two layouts.",
  [RT+"fallback.py"],
  [("per-root scan", RT+"fallback.py:FluentResourceLoader.resources")],
  (), ["FluentResourceLoader.resources"])
p("C24", "Highlighting tokens reproduce the source",
  "For every text, the lexer's tokens are in order, contiguous and non-overlapping, each carries its correct position, and their texts concatenate to exactly the input. Comments, junk, names, text, numbers, strings and variables get the token type of their kind and everything else is punctuation.",
  ["inputs"], "all strings",
  "Three small inputs are tested; a gap or overlap needs a particular nesting or error position.",
  ["fluent.pygments/fluent/pygments/lexer.py"],
  [("gap filling", "fluent.pygments/fluent/pygments/lexer.py:get_tokens_unprocessed"), ("child ordering", "fluent.pygments/fluent/pygments/lexer.py:generic_tokenize")],
  (), ["FluentLexer.get_tokens_unprocessed"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            assert len(r["title"]) <= 80, r["title"]
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
    print(len(P), "properties")
