"""Reference parser for Fluent Syntax 1.0, written from the EBNF and the
validity rules of the specification (not from the code under test).

Works on text whose CRLF pairs were replaced by LF.  parse(text) returns a list
of entries, each a nested tuple:

  ('message', id, pattern|None, [(attr_id, pattern)...], comment|None)
  ('term', id, pattern, attrs, comment|None)
  ('comment'|'group'|'resource', content)
  ('junk', content)
  pattern  = [str | ('placeable', expr) ...]   adjacent text joined
  expr     = ('str', raw) | ('num', raw) | ('msg', id, attr) |
             ('term', id, attr, args|None) | ('var', id) | ('fun', id, args) |
             ('placeable', expr) | ('select', sel, [(key, pattern, default)...])
  args     = ([expr...], [(name, literal)...])
  key      = ('id', name) | ('num', raw)
"""
import re


class Fail(Exception):
    pass


IDENT = re.compile(r"[a-zA-Z][a-zA-Z0-9_\-]*")
NUMBER = re.compile(r"-?[0-9]+(?:\.[0-9]+)?")
STRING = re.compile(r'"((?:[^"\\\n]|\\["\\]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{6})*)"')
SPACES = re.compile(r" *")
BLANK = re.compile(r"[ \n]*")
BLANKBLOCK = re.compile(r"(?: *\n)+")
BLANKBLOCK0 = re.compile(r"(?: *\n)*")
TEXT = re.compile(r"[^{}\n]+")
FUNCNAME = re.compile(r"[A-Z][A-Z0-9_\-]*\Z")
COMMENT = re.compile(r"(#{1,3})(?: ([^\n]*))?(?=\n|\Z)")


class P:
    def __init__(self, s):
        self.s = s
        self.n = len(s)

    def lit(self, i, t):
        if self.s.startswith(t, i):
            return i + len(t)
        raise Fail

    def rx(self, r, i):
        m = r.match(self.s, i)
        if m is None:
            raise Fail
        return m.end(), m

    def line_end(self, i):
        if i == self.n:
            return i
        if self.s[i] == "\n":
            return i + 1
        raise Fail

    def ident(self, i):
        e, m = self.rx(IDENT, i)
        return e, m.group()

    # ---------------------------------------------------------------- entries
    def entry(self, i):
        """-> (end, node); the line end is consumed; Fail if not an entry."""
        c = self.s[i:i + 1]
        if c == "#":
            e, m = self.rx(COMMENT, i)
            kind = {1: "comment", 2: "group", 3: "resource"}[len(m.group(1))]
            lines = [m.group(2) or ""]
            # adjacent comment lines of the same kind are one comment
            while e < self.n:
                m2 = COMMENT.match(self.s, e + 1)
                if m2 is None or m2.group(1) != m.group(1):
                    break
                lines.append(m2.group(2) or "")
                e = m2.end()
            return self.line_end(e), (kind, "\n".join(lines))
        if c == "-":
            e, name = self.ident(i + 1)
            e, _ = self.rx(SPACES, e)
            e = self.lit(e, "=")
            e, pat = self.maybe_pattern(e)
            if pat is None:
                raise Fail
            e, attrs = self.attributes(e)
            return self.line_end(e), ("term", name, pat, attrs, None)
        e, name = self.ident(i)
        e, _ = self.rx(SPACES, e)
        e = self.lit(e, "=")
        e, pat = self.maybe_pattern(e)
        e, attrs = self.attributes(e)
        if pat is None and not attrs:
            raise Fail
        return self.line_end(e), ("message", name, pat, attrs, None)

    def attributes(self, i):
        attrs = []
        while True:
            m = re.compile(r"\n[ \n]*\.|\n?\Z").match(self.s, i)
            if m is None or not m.group().endswith("."):
                return i, attrs
            e, name = self.ident(m.end())
            e, _ = self.rx(SPACES, e)
            e = self.lit(e, "=")
            e, pat = self.maybe_pattern(e)
            if pat is None:
                raise Fail
            attrs.append((name, pat))
            i = e

    # ---------------------------------------------------------------- patterns
    def block_ahead(self, i):
        """blank_block then an indented text char or a placeable -> (start of
        the last line, start of its content) or None."""
        m = BLANKBLOCK.match(self.s, i)
        if m is None:
            return None
        ls = m.end()
        j = SPACES.match(self.s, ls).end()
        if j >= self.n:
            return None
        c = self.s[j]
        if c == "{":
            return ls, j
        if j > ls and c not in "}[*.\n":
            return ls, j
        return None

    def maybe_pattern(self, i):
        """After '=' or ']': optional blank_inline, then a Pattern or nothing."""
        i0 = i
        i = SPACES.match(self.s, i).end()
        parts = []     # ('t', text) ('b', blank lines, indent) ('p', expr)
        if i < self.n and self.s[i] != "\n":
            pass
        else:
            b = self.block_ahead(i)
            if b is None:
                return i, None
            parts.append(("b", "", b[1] - b[0], True))
            i = b[1]
        while i < self.n:
            c = self.s[i]
            if c == "{":
                i, e = self.placeable(i)
                parts.append(("p", e))
            elif c == "}":
                raise Fail
            elif c == "\n":
                b = self.block_ahead(i)
                if b is None:
                    break
                parts.append(("b", "\n" * self.s.count("\n", i, b[0]), b[1] - b[0], False))
                i = b[1]
            else:
                e = TEXT.match(self.s, i).end()
                parts.append(("t", self.s[i:e]))
                i = e
        indents = [p[2] for p in parts if p[0] == "b"]
        common = min(indents) if indents else 0
        out = []
        def text(t):
            if not t:
                return
            if out and isinstance(out[-1], str):
                out[-1] += t
            else:
                out.append(t)
        for p in parts:
            if p[0] == "t":
                text(p[1])
            elif p[0] == "b":
                text(p[1] + " " * (p[2] - common))
            else:
                out.append(("placeable", p[1]))
        if out and isinstance(out[-1], str):
            out[-1] = out[-1].rstrip(" \n\r")
            if not out[-1]:
                out.pop()
        return i, out

    def placeable(self, i):
        """'{' ... '}' -> (end, expr)"""
        i = self.lit(i, "{")
        i = BLANK.match(self.s, i).end()
        i, e = self.inline(i)
        j = BLANK.match(self.s, i).end()
        if self.s.startswith("->", j):
            if not (e[0] in ("str", "num", "var", "fun") or (e[0] == "term" and e[2] is not None)):
                raise Fail
            j, variants = self.variants(j + 2)
            e = ("select", e, variants)
            j = BLANK.match(self.s, j).end()
        elif e[0] == "term" and e[2] is not None:
            raise Fail
        return self.lit(j, "}"), e

    def variants(self, i):
        i = SPACES.match(self.s, i).end()
        i = self.line_end(i)
        out = []
        ndef = 0
        while True:
            i = BLANK.match(self.s, i).end()
            default = self.s.startswith("*", i)
            j = i + 1 if default else i
            if not self.s.startswith("[", j):
                if default:
                    raise Fail
                break
            j = BLANK.match(self.s, j + 1).end()
            m = NUMBER.match(self.s, j)
            if m:
                key = ("num", m.group())
                j = m.end()
            else:
                j, name = self.ident(j)
                key = ("id", name)
            j = BLANK.match(self.s, j).end()
            j = self.lit(j, "]")
            j, pat = self.maybe_pattern(j)
            if pat is None:
                raise Fail
            ndef += default
            out.append((key, pat, default))
            i = self.line_end(j)
        if ndef != 1:
            raise Fail
        return i, out

    def inline(self, i):
        c = self.s[i:i + 1]
        if c == "{":
            e, x = self.placeable(i)
            return e, ("placeable", x)
        if c == '"':
            e, m = self.rx(STRING, i)
            return e, ("str", m.group(1))
        m = NUMBER.match(self.s, i)
        if m:
            return m.end(), ("num", m.group())
        if c == "$":
            e, name = self.ident(i + 1)
            return e, ("var", name)
        if c == "-":
            e, name = self.ident(i + 1)
            attr = None
            if self.s.startswith(".", e):
                e, attr = self.ident(e + 1)
            e, args = self.maybe_args(e)
            return e, ("term", name, attr, args)
        e, name = self.ident(i)
        e2, args = self.maybe_args(e)
        if args is not None:
            if not FUNCNAME.match(name):
                raise Fail
            return e2, ("fun", name, args)
        attr = None
        if self.s.startswith(".", e):
            e, attr = self.ident(e + 1)
        return e, ("msg", name, attr)

    def maybe_args(self, i):
        j = BLANK.match(self.s, i).end()
        if not self.s.startswith("(", j):
            return i, None
        j = BLANK.match(self.s, j + 1).end()
        pos, named = [], []
        while not self.s.startswith(")", j):
            j, e = self.inline(j)
            j = BLANK.match(self.s, j).end()
            if self.s.startswith(":", j):
                if not (e[0] == "msg" and e[2] is None):
                    raise Fail
                j = BLANK.match(self.s, j + 1).end()
                j, v = self.inline(j) if self.s[j:j + 1] in tuple('"-0123456789') else self._fail()
                if v[0] not in ("str", "num"):
                    raise Fail
                if any(n == e[1] for n, _ in named):
                    raise Fail
                named.append((e[1], v))
                j = BLANK.match(self.s, j).end()
            else:
                if named:
                    raise Fail
                pos.append(e)
            if self.s.startswith(",", j):
                j = BLANK.match(self.s, j + 1).end()
            else:
                break
        return self.lit(j, ")"), (pos, named)

    def _fail(self):
        raise Fail


ENTRY_START = re.compile(r"[a-zA-Z\-#]|//|\[\[")


def skip_blank(s, i):
    """Blank lines; trailing spaces at the end of the text are blank too."""
    m = BLANKBLOCK0.match(s, i)
    i = m.end()
    j = SPACES.match(s, i).end()
    return (j if j == len(s) else i), (i > m.start())


def parse(s):
    """-> list of entries.  `s` must not contain CRLF.  Junk ends are decided by
    try_entries below: the reference only says where entries are, so Junk is
    reported as ('junk', start)."""
    p = P(s)
    out = []
    i, _ = skip_blank(s, 0)
    pending = None
    while i < len(s):
        try:
            e, node = p.entry(i)
            assert e > i
        except Fail:
            if pending is not None:
                out.append(pending)
                pending = None
            return out, i          # first malformed entry starts here
        e2, blank = skip_blank(s, e)
        if e2 == len(s):
            blank = blank or e2 > e
        if node[0] == "comment" and not blank and e2 < len(s):
            if pending is not None:
                out.append(pending)
            pending = node
        else:
            if pending is not None:
                if node[0] in ("message", "term"):
                    node = node[:4] + (pending[1],)
                else:
                    out.append(pending)
                pending = None
            out.append(node)
        i = e2
    assert pending is None
    return out, None
