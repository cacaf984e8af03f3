"""Parsing expression grammars in pest's notation, applied to concrete sample lines.

Only what the analysis needs: the derivation tree pest would build for a line. Constructs
that are not understood raise GrammarError and make the analysis incomplete."""
import re


class GrammarError(Exception):
    pass


TOK = re.compile(r"""\s*(?://[^\n]*\n|/\*.*?\*/|(?P<str>\^?"(?:[^"\\]|\\.)*")|(?P<chr>'(?:[^'\\]|\\.|\\u\{[0-9a-fA-F]+\})')|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<num>\d+)|(?P<op>\.\.|[={}()~|?*+!&@$_,]))""", re.S)


def unesc(s):
    def f(m):
        x = m.group(1)
        if x[0] == "u":
            return chr(int(x[2:-1], 16))
        if x[0] == "x":
            return chr(int(x[1:], 16))
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)", f, s)


def tokens(src):
    out, i = [], 0
    src = src + "\n"
    while i < len(src):
        if not src[i:].strip():
            break
        m = TOK.match(src, i)
        if m is None or m.end() == i:
            raise GrammarError("cannot read the grammar near %r" % src[i:i + 30])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


class Node:
    __slots__ = ("rule", "a", "b", "kids")

    def __init__(self, rule, a, b, kids):
        self.rule, self.a, self.b, self.kids = rule, a, b, kids

    def shape(self):
        return (self.rule, tuple(k.shape() for k in self.kids))


class Grammar:
    def __init__(self, src):
        self.rules = {}
        self.order = []
        t = self.t = tokens(src)
        self.i = 0
        while self.i < len(t):
            name = self.take("id")
            self.take("op", "=")
            mod = ""
            if self.peek()[0] == "op" and self.peek()[1] in "_@$!":
                mod = self.take("op")
            if self.peek() == ("id", "_"):
                mod = self.take("id")
            self.take("op", "{")
            e = self.choice()
            self.take("op", "}")
            self.rules[name] = (mod, e)
            self.order.append(name)
        for n in ("WHITESPACE", "COMMENT"):
            if n in self.rules:
                raise GrammarError("implicit whitespace is not supported")

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", "")

    def take(self, k, v=None):
        p = self.peek()
        if p[0] != k or (v is not None and p[1] != v):
            raise GrammarError("unexpected %r in the grammar" % (p[1],))
        self.i += 1
        return p[1]

    def choice(self):
        if self.peek() == ("op", "|"):
            self.i += 1
        xs = [self.seq()]
        while self.peek() == ("op", "|"):
            self.i += 1
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("or", xs)

    def seq(self):
        xs = [self.post()]
        while self.peek() == ("op", "~"):
            self.i += 1
            xs.append(self.post())
        return xs[0] if len(xs) == 1 else ("seq", xs)

    def post(self):
        if self.peek()[0] == "op" and self.peek()[1] in "!&":
            return (self.take("op"), self.post())
        e = self.prim()
        while self.peek()[0] == "op" and self.peek()[1] in "?*+{":
            o = self.take("op")
            if o == "{":
                lo = hi = None
                if self.peek()[0] == "num":
                    lo = hi = int(self.take("num"))
                if self.peek() == ("op", ","):
                    self.i += 1
                    hi = int(self.take("num")) if self.peek()[0] == "num" else None
                self.take("op", "}")
                e = ("rep", e, lo or 0, hi)
            else:
                e = ("rep", e, 1 if o == "+" else 0, 1 if o == "?" else None)
        return e

    def prim(self):
        k, v = self.peek()
        self.i += 1
        if k == "str":
            return ("istr", unesc(v[2:-1])) if v[0] == "^" else ("str", unesc(v[1:-1]))
        if k == "chr":
            a = unesc(v[1:-1])
            self.take("op", "..")
            return ("rng", a, unesc(self.take("chr")[1:-1]))
        if k == "op" and v == "(":
            e = self.choice()
            self.take("op", ")")
            return e
        if k == "id":
            return ("ref", v)
        raise GrammarError("unexpected %r in the grammar" % v)

    # -------------------------------------------------------- matching
    def parse(self, rule, s):
        """Node of the rule at the start of s, or None."""
        self.s = s
        self.memo = {}
        r = self.rule(rule, 0, False)
        if r is None:
            return None
        kids = r[1]
        return kids[0] if len(kids) == 1 and kids[0].rule == rule else Node(rule, 0, r[0], kids)

    BUILTIN = {"ASCII_ALPHA": lambda c: c.isascii() and c.isalpha(), "ASCII_ALPHANUMERIC": lambda c: c.isascii() and c.isalnum(),
               "ASCII_DIGIT": lambda c: c in "0123456789" or "\ue000" <= c < "\uf000", "ASCII_HEX_DIGIT": lambda c: c in "0123456789abcdefABCDEF" or "\ue000" <= c < "\uf000", "ANY": lambda c: True,
               "ASCII_ALPHA_LOWER": lambda c: "a" <= c <= "z", "ASCII_ALPHA_UPPER": lambda c: "A" <= c <= "Z", "ASCII_NONZERO_DIGIT": lambda c: c in "123456789",
               "ASCII_BIN_DIGIT": lambda c: c in "01", "ASCII_OCT_DIGIT": lambda c: c in "01234567", "ASCII": lambda c: c.isascii()}

    def rule(self, n, i, atomic):
        s = self.s
        if n not in self.rules:
            if n == "SOI":
                return (i, []) if i == 0 else None
            if n == "EOI":
                return (i, [] if atomic else [Node("EOI", i, i, [])]) if i == len(s) else None
            if n == "NEWLINE":
                for x in ("\n", "\r\n", "\r"):
                    if s.startswith(x, i):
                        return i + len(x), []
                return None
            if n in self.BUILTIN:
                return (i + 1, []) if i < len(s) and self.BUILTIN[n](s[i]) else None
            raise GrammarError("rule %s is not supported" % n)
        mod, e = self.rules[n]
        k = (n, i, atomic)
        if k in self.memo:
            return self.memo[k]
        r = self.m(e, i, True if mod == "@" else False if mod in ("!", "$") else atomic)
        if r is not None and mod != "_" and not atomic:
            r = (r[0], [Node(n, i, r[0], [] if mod == "@" else r[1])])
        self.memo[k] = r
        return r

    def m(self, e, i, atomic):
        k = e[0]
        s = self.s
        if k == "str":
            return (i + len(e[1]), []) if s.startswith(e[1], i) else None
        if k == "istr":
            return (i + len(e[1]), []) if s[i:i + len(e[1])].lower() == e[1].lower() else None
        if k == "rng":
            # a private-use character stands for the digits of a number
            return (i + 1, []) if i < len(s) and (e[1] <= s[i] <= e[2] or (e[1] <= "0" and e[2] == "9" and "\ue000" <= s[i] < "\uf000")) else None
        if k == "ref":
            return self.rule(e[1], i, atomic)
        if k == "seq":
            kids = []
            for x in e[1]:
                r = self.m(x, i, atomic)
                if r is None:
                    return None
                i, ks = r
                kids = kids + ks if ks else kids
            return i, kids
        if k == "or":
            for x in e[1]:
                r = self.m(x, i, atomic)
                if r is not None:
                    return r
            return None
        if k in "!&":
            r = self.m(e[1], i, True)
            return (i, []) if (r is not None) == (k == "&") else None
        if k == "rep":
            _, x, lo, hi = e
            kids, n = [], 0
            while hi is None or n < hi:
                r = self.m(x, i, atomic)
                if r is None:
                    break
                if r[0] == i and hi is None:
                    n += 1
                    break
                i = r[0]
                kids = kids + r[1]
                n += 1
            return (i, kids) if n >= lo else None
        raise GrammarError(k)


if __name__ == "__main__":
    import sys
    g = Grammar(open(sys.argv[1]).read())
    t = g.parse("main", sys.argv[2].replace("\\n", "\n"))

    def show(n, d=0):
        print("  " * d, n.rule, repr(g.s[n.a:n.b]))
        for k in n.kids:
            show(k, d + 1)
    show(t) if t else print("no parse")
