"""Generators of Fluent source text (seeded; no knowledge of the code beyond a
dictionary of the constants that occur in it)."""
import ast, glob, itertools, random, string

SPECIAL = list(" \n{}[]*.-#=\"\\$(),:>/_aAz1Z0u") + ["\r\n", "\r", "\t"]
ODD = ["\u2028", "\u2029", "\x0b", "\x0c", "\x1c", "\x1d", "\x85", "\u00a0", "\u3000", "\ufeff", "\u2068", "\u2069",
       "\U0001f600", "\ud800", "\x00", "é", "ß", "İ", "١", "²", "\u0660", "ａ", "К"]
SNIPS = ["->", "*[", "[[", "//", "###", "##", "# ", "\n\n", "\n ", "\n    ", " = ", "{ $x }", "\\u0041", "\\U01F602", "\\\\", '\\"',
         "{ \"\" }", "{ FUN() }", "{ FUN(a, b: 1) }", "-term", "{ -t }", "{ $x ->\n *[a] b\n }", "\n.a = b", "\n    .attr = v",
         ".5", "-0", "1.0", "00", "# c\n", "## g\n", "### r\n", "\n}", "\n  }", " }", "{", "\n[", "\n*", "\n  *", "\n  ["]


_DICT = {}


def dictionary(files):
    k = tuple(files)
    if k not in _DICT:
        _DICT[k] = _dictionary(files)
    return _DICT[k]


def _dictionary(files):
    """String and int constants of the source files."""
    strs, ints = set(), set()
    for f in files:
        try:
            t = ast.parse(open(f, encoding="utf-8").read())
        except Exception:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and 0 < len(n.value) <= 12:
                    strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool) and 1 < n.value < 1200:
                    ints.add(n.value)
                    if 31 < n.value:
                        strs.add(chr(n.value))
    return sorted(strs), sorted(ints)


class G:
    def __init__(self, seed, files=()):
        self.r = random.Random(seed)
        self.strs, self.ints = dictionary(files)

    def chance(self, p):
        return self.r.random() < p

    def eol(self):
        return self.crlf if self.chance(0.93) else ("\n" if self.crlf == "\r\n" else "\r\n")

    def ident(self):
        r = self.r
        if self.chance(0.7):
            return r.choice(["a", "b", "key", "msg-1", "foo_Bar", "x", "y", "one", "other", "few", "A", "B2", "title", "Z", "z9-_"])
        return r.choice(string.ascii_letters) + "".join(r.choice(string.ascii_letters + string.digits + "-_") for _ in range(r.randrange(6)))

    def sp(self, p=0.6):
        return " " * self.r.choice([0, 1, 1, 1, 2, 3, 4, 5]) if self.chance(p) else ""

    def blank(self):
        r = self.r.random()
        if r < 0.55:
            return " " if self.chance(0.7) else ""
        if r < 0.8:
            return self.sp()
        return self.sp() + self.eol() + self.sp() + (self.eol() + self.sp() if self.chance(0.3) else "")

    def bigint(self):
        r = self.r
        if self.ints and self.chance(0.3):
            return max(1, r.choice(self.ints) + r.choice([-1, 0, 1]))
        return r.choice([1, 2, 3, 5, 9, 17, 33, 65])

    def word(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return r.choice(["text", "a", "Hello", "w x", "1", "x.y", "=", "a = b", "#", "-", "-t = x", ".", "*", "[", "]", '"', "'", "\\", "\\u0041", "é", "A, b", "->", "$x", "//", "(", ")"])
        if x < 0.75:
            return r.choice(ODD)
        if x < 0.8:
            return r.choice(self.strs or ["x"]).replace("{", "").replace("}", "").replace("\n", "")
        if x < 0.83:
            return "\t"
        if x < 0.85:
            return "\r" + r.choice("ab ")
        return "".join(r.choice("ab cXé,;!\u2028") for _ in range(r.randrange(1, 8)))

    def line(self, first):
        """Text of one line (no line break)."""
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if self.chance(0.72):
                out.append(self.word())
            else:
                out.append(self.placeable(2))
            if self.chance(0.4):
                out.append(self.sp(1))
        t = "".join(out)
        return t

    def pattern(self, indent=0, allow_block=True, depth=2):
        """Everything after '='."""
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3, 4])
        lines = []
        inline = not allow_block or self.chance(0.65)
        out = self.sp(0.8)
        for i in range(n):
            t = self.line(i == 0)
            if i == 0 and inline:
                t = t.lstrip(" ") or "v"
                out += t
            else:
                ind = r.choice([0, 1, 1, 2, 4, 4, 5, 8])
                if not t.startswith("{") and ind == 0:
                    ind = 1
                if t.lstrip(" ")[:1] in ("}", "[", "*", ".", ""):
                    t = "x" + t if self.chance(0.85) else t
                nl = self.eol()
                while self.chance(0.15):
                    nl += self.sp(0.5) + self.eol()
                out += nl + " " * ind + t
        if self.chance(0.1):
            out += self.sp(1)
        return out

    def inline(self, depth):
        r = self.r
        x = r.random()
        if x < 0.2:
            return "$" + self.ident()
        if x < 0.35:
            return '"' + self.strbody() + '"'
        if x < 0.5:
            return self.number()
        if x < 0.65:
            return self.ident() + ("." + self.ident() if self.chance(0.3) else "")
        if x < 0.78 and depth > 0:
            return "-" + self.ident() + (self.args(depth - 1) if self.chance(0.5) else "")
        if x < 0.92 and depth > 0:
            return r.choice(["FUN", "NUMBER", "DATETIME", "F-1_", "A"]) + self.args(depth - 1)
        if depth > 0:
            return self.placeable(depth - 1)
        return "$v"

    def number(self):
        r = self.r
        if self.chance(0.3):
            ds = lambda n: "".join(r.choice(string.digits) for _ in range(n))
            return r.choice(["", "", "-"]) + ds(r.choice([1, 1, 2, 4])) + r.choice(["", "", "." + ds(r.choice([1, 2, 5]))])
        return r.choice(["", "-"]) + r.choice(["0", "1", "00", "12", "3"]) + r.choice(["", "", ".0", ".5", ".25", ".000"])

    def strbody(self):
        r = self.r
        out = ""
        for _ in range(r.randrange(4)):
            out += r.choice(["a", " ", "{", "}", "\\\\", '\\"', "\\u00e9", "\\uD800", "\\U01F602", "\\UFFFFFF", "\\U10FFFF", "\\U110000", "#", "\t", "é", "\u2028", "x y", "\\u0022", "\\u005C"])
            if self.chance(0.2):
                hx = lambda n: "".join(r.choice(string.hexdigits) if not self.chance(0.03) else r.choice("gG/:@`") for _ in range(n))
                out += r.choice(["\\u" + hx(4), "\\U" + r.choice(["00", "00", hx(2)]) + hx(4), "\\U00" + hx(4)])
        return out

    def args(self, depth):
        r = self.r
        pos = [self.inline(depth) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        names = []
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            n = self.ident()
            if n not in names or self.chance(0.05):
                names.append(n)
        named = [n + self.blank() + ":" + self.blank() + (self.number() if self.chance(0.5) else '"' + self.strbody() + '"') for n in names]
        items = pos + named
        if self.chance(0.04):
            r.shuffle(items)
        s = "("
        for i, it in enumerate(items):
            s += self.blank() + it + self.blank()
            if i < len(items) - 1 or self.chance(0.1):
                s += ","
        return (self.blank() if self.chance(0.15) else "") + s + self.blank() + ")"

    def placeable(self, depth):
        r = self.r
        if depth > 0 and self.chance(0.25):
            return "{" + self.blank() + self.select(depth - 1) + self.blank() + "}"
        return "{" + self.blank() + self.inline(depth) + self.blank() + "}"

    def select(self, depth):
        r = self.r
        sel = self.inline(depth)
        if self.chance(0.6):
            sel = r.choice(["$n", "$x", '"s"', "1", "NUMBER($n)", "-t.a", '-t.a(x: "1")'])
        n = r.choice([1, 2, 2, 3, 4])
        d = r.randrange(n)
        if self.chance(0.04):
            d = -1
        s = sel + self.blank() + "->" + self.sp()
        for i in range(n):
            s += self.eol() + self.sp() + (self.eol() if self.chance(0.1) else "") + ("*" if i == d or self.chance(0.02) else "")
            key = self.number() if self.chance(0.35) else self.ident()
            s += "[" + (self.blank() if self.chance(0.2) else "") + key + (self.blank() if self.chance(0.2) else "") + "]"
            s += self.pattern(depth=depth)
        return s + self.eol()

    def comment(self):
        r = self.r
        pre = r.choice(["#", "#", "#", "##", "###"])
        out = ""
        for _ in range(r.choice([1, 1, 2, 3])):
            out += pre + r.choice(["", " ", " text", " a # b", "  two", " é\u2028x", " {", " x = y", " \r ", " trailing  "]) + self.eol()
        return out

    def entry(self):
        r = self.r
        x = r.random()
        if x < 0.17:
            return self.comment()
        if x < 0.25:
            return r.choice(["junk line", "  indented = x", "key", "key =", "-term", "-t =", "a = {", "a = }", "a = b {", "#bad", "####", "[[ sec ]]", "// c", "a = { b", "1 = x", "}", "a = {\"", 'a = {"\\x"}',
                             "a = { $x -> }", "a = { F(a: b) }", "a = { b(1) }", "{", " ", "é = 1", "-é = 2", "a.b = c", "a = { -t.a }", "a =\n[x", "a = { $x ->\n [one] x\n }"]) + self.eol()
        t = ("-" if x < 0.42 else "") + self.ident() + self.sp() + "="
        if t[0] == "-" or self.chance(0.85):
            t += self.pattern()
            k = r.choice([0, 0, 0, 1, 2])
        else:
            k = r.choice([1, 1, 2])
        for _ in range(k):
            t += self.eol() + (self.sp() + self.eol() if self.chance(0.1) else "") + self.sp(0.9) + "." + self.ident() + self.sp() + "=" + self.pattern()
        return t + (self.eol() if self.chance(0.97) else "")

    def resource(self):
        r = self.r
        self.crlf = "\r\n" if self.chance(0.25) else "\n"
        out = ""
        n = r.choice([1, 1, 2, 3, 4, 6])
        if self.chance(0.01):
            n = min(self.bigint(), 150)
        for _ in range(n):
            while self.chance(0.2):
                out += self.sp() + self.eol()
            out += self.entry()
        while self.chance(0.2):
            out += self.sp() + self.eol()
        if self.chance(0.2):
            out = out.rstrip("\r\n")
        return out

    def mutate(self, s):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            m = r.randrange(9)
            i = r.randrange(len(s) + 1)
            j = min(len(s), i + r.choice([1, 1, 1, 2, 3, 5, 9]))
            if m <= 1:
                s = s[:i] + s[j:]
            elif m <= 3:
                s = s[:i] + r.choice(SPECIAL) + s[i:]
            elif m == 4:
                s = s[:i] + r.choice(SPECIAL) + s[j:]
            elif m == 5:
                s = s[:i] + r.choice(SNIPS + self.strs) + s[i:]
            elif m == 6:
                s = s[:i] + s[i:j] * min(r.choice([2, 2, 3, self.bigint()]), 400) + s[j:]
            elif m == 7:
                s = s[:i] if self.chance(0.5) else s[:i] + r.choice(ODD) + s[i:]
            else:
                k = r.randrange(len(s) + 1)
                s = s[:k] + s[i:j] + s[k:]
        return s

    def soup(self):
        r = self.r
        return "".join(r.choice(SPECIAL) if self.chance(0.8) else r.choice(SNIPS + ODD + self.strs) for _ in range(r.randrange(1, 30)))

    def big(self):
        """Long repetition of one construct."""
        r = self.r
        self.crlf = "\r\n" if self.chance(0.2) else "\n"
        n = self.bigint() if self.chance(0.7) else r.choice([100, 257, 300, 1025])
        e = self.crlf
        return r.choice([
            lambda: "a = " + "x" * n + e,
            lambda: "a =" + (e + "    line") * n + e,
            lambda: "a =" + e * n + " x" + e,
            lambda: "k" * n + " = v" + e,
            lambda: "# c" + e + ("# c" + e) * n + "a = b" + e,
            lambda: ("a = b" + e) * n,
            lambda: "a = b" + (e + " .x = y") * n + e,
            lambda: "a = " + "{ $x }" * n + e,
            lambda: "a = { F(" + ", ".join("a%d: 1" % i for i in range(n)) + ") }" + e,
            lambda: "a = { F(" + ", ".join("$a" for i in range(n)) + ") }" + e,
            lambda: "a = { $x ->" + "".join(e + " [k%d] v" % i for i in range(n)) + e + " *[o] d" + e + " }" + e,
            lambda: 'a = { "' + "x" * n + '" }' + e,
            lambda: 'a = { "' + "\\u0041" * n + '" }' + e,
            lambda: "a = { " + "1" * min(n, 400) + " }" + e,
            lambda: "a = { 1." + "0" * min(n, 400) + "5 }" + e,
            lambda: "a =" + e + " " * n + "x" + e + " " * (n + 1) + "y" + e,
            lambda: ("junk" + e) * n + "a = b" + e,
            lambda: e * n + "a = b" + e * n + "b = c",
            lambda: "a = " + "{" * min(n, 40) + " $x " + "}" * min(n, 40) + e,
            lambda: "a = x" + " " * n + e + "b = y" + e,
        ])()

    def source(self):
        x = self.r.random()
        if x < 0.45:
            return self.resource()
        if x < 0.85:
            return self.mutate(self.resource())
        if x < 0.93:
            return self.soup()
        return self.big()


CONTEXTS = ["%s", "a=%s", "a =\n%s", "a = b\n%s", "a = b%s\nc = d\n", "a = {%s}", "a = {$x%s}", "a = { $x ->\n%s\n}", "a = {F(%s)}", "a = {\"%s\"}",
            "# c\n%sa = b\n", "#%s", "a = { $x ->\n *[a] b%s\n }\n", "-t =%s\n .a = b\n", "a = b\n .c%s= d\n", "a =\n  b\n%s  c\n", "x%s\ny = 1\n", "a = {-t%s}"]
SMALL = [" ", "\n", "\r\n", "a", "F", "1", "{", "}", "[", "]", "*", ".", "-", ">", '"', "\\", "u", "#", "=", ":", "(", ")", ",", "$", "/", "\r"]


def exhaustive(n):
    """All strings of up to n symbols in all contexts."""
    for k in range(n + 1):
        for ctx in CONTEXTS:
            for t in itertools.product(SMALL, repeat=k):
                yield ctx % "".join(t)
