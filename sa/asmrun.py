"""The assembler on families of source texts: interpretation of assemble() over a symbolic source.

A source is a list of parts, plain text and slots. A slot stands for a set of alternative
spellings (register names, forms of a number) selected by decision variables; the digits of
a number are one private-use character whose value is an arbitrary 64-bit word. The
grammar file of the repository is applied to every combination of spellings (the analysis'
own PEG matcher); combinations with the same derivation tree are interpreted together."""
import os
import re
from hw import *
import models
from models import ok, err, some, NONE, sval, opt, result, m, rx
import peg

REPO = os.environ.get("Y86_REPO", "/repo")
PUA0 = 0xE000


def is_pua(c):
    return 0xE000 <= ord(c) < 0xF000


def has_pua(s):
    return any(is_pua(c) for c in s)


DIGITS = {}     # private-use char -> (magnitude diagram, too-big condition, radix)


class Num:
    """A numeric literal with arbitrary digits."""
    n = [0]

    def __init__(self, name, forms=("d", "-d", "0xd", "-0xd"), mag=None, big=None):
        self.name = name
        self.mag = mag if mag is not None else inp(name, 64)
        self.big = big if big is not None else var(("big", name))
        if big is None and mag is not None:
            self.big = F
        self.texts, self.info = [], []
        cd = self.char(10)
        ch = self.char(16)
        for f in forms:
            h = "0x" in f
            self.texts.append(f.replace("d", ch if h else cd))
            self.info.append((f[0] == "-", h))

    def char(self, radix):
        c = chr(PUA0 + Num.n[0])
        Num.n[0] += 1
        DIGITS[c] = (self.mag, self.big, radix)
        return c

    def value(self, sel):
        return map1(lambda i: self.mag if not self.info[i][0] else map1(lambda l: leaf(lin_mul_const(64, l, (1 << 64) - 1) if l.__class__ is Lin else (-l) % (1 << 64)), self.mag), sel)

    def valid(self, sel):
        def f(i):
            neg, h = self.info[i]
            if h:
                return NOT(self.big)
            return AND(NOT(self.big), map1(lambda l: ult_const(l, 64, (1 << 63) + (1 if neg else 0)) if l.__class__ is Lin else (T if l < (1 << 63) + (1 if neg else 0) else F), self.mag))
        return map1(f, sel)


class Const:
    """A literal with known digits."""

    def __init__(self, text):
        self.texts = [text]
        t = text.lstrip("-")
        neg = text.startswith("-")
        h = t.startswith("0x")
        v = int(t[2:], 16) if h else int(t)
        self.ok = v < 1 << 64 if h else v <= (1 << 63) - (0 if neg else 1)
        self.v = (-v if neg else v) % (1 << 64)

    def value(self, sel):
        return leaf(self.v)

    def valid(self, sel):
        return T if self.ok else F


class Alt:
    """A choice between spellings, each with a small number as its meaning."""

    def __init__(self, name, texts, vals=None):
        self.name, self.texts, self.vals = name, list(texts), vals

    def value(self, sel):
        return map1(lambda i: leaf(self.vals[i]), sel)


REGS = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14"]


def regslot(name):
    return Alt(name, ["%" + r for r in REGS], range(15))


# ------------------------------------------------------------------ strings with symbolic digits
def parse_int(s, radix, w, signed):
    """Rust's integer parser on the string s: (value diagram, success condition)."""
    if not has_pua(s):
        t = s
        neg = False
        if t[:1] == "+" or (signed and t[:1] == "-"):
            neg = t[0] == "-"
            t = t[1:]
        ds = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
        if not t or any(c.lower() not in ds or not c.isascii() for c in t):
            return leaf(0), F
        v = int(t, radix)
        v = -v if neg else v
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if not lo <= v <= hi:
            return leaf(0), F
        return leaf(v % (1 << w)), T
    mm = re.match(r"^([+-]?)(.)$", s, re.S)
    if mm is None:
        # something that is no digit in front of or behind the digits
        rest = "".join(c for c in s if not is_pua(c))
        body = s[1:] if s[:1] in "+-" else s
        if any(not c.isalnum() or (radix == 10 and c.isalpha()) for c in body if not is_pua(c)) and rest:
            return leaf(0), F
        if radix == 16 and any(c.isalpha() and c.lower() not in "abcdef" for c in body if not is_pua(c)):
            return leaf(0), F
        raise HwError("number text %r is not understood" % s)
    sign, c = mm.group(1), mm.group(2)
    if sign == "-" and not signed:
        return leaf(0), F
    mag, big, rd = DIGITS[c]
    if rd != radix:
        return top("radix"), var(("radix", fresh("radix")))
    neg = sign == "-"
    lim = ((1 << (w - 1)) + (1 if neg else 0)) if signed else 1 << w

    def inlim(l):
        if l.__class__ is not Lin:
            return T if l < lim else F
        return T if lim >= 1 << 64 else ult_const(l, 64, lim)
    okc = AND(NOT(big), map1(inlim, mag))

    def val(l):
        if neg:
            l = lin_mul_const(64, l, (1 << 64) - 1) if l.__class__ is Lin else (-l) % (1 << 64)
        return cast(l, 64, False, w)

    def v(l):
        r = val(l)
        return r if r.__class__ is bdd.N else leaf(r)
    return map1(v, mag), okc


def int_parse(I, st, sv, radix, ty):
    rt = ty.gargs[0] if ty is not None and ty.path == "std::result::Result" else None
    if rt is None or rt.k not in ("int", "uint"):
        return NotImplemented
    w, signed = width(rt), rt.k == "int"
    vals, conds = {}, {}
    for l in leaves(sv):
        if l.__class__ is StrC:
            vals[l], conds[l] = parse_int(l.s, radix, w, signed)
        else:
            vals[l], conds[l] = top("parse"), var(("parse", str(l), radix, w))
    return result(map1(lambda l: conds[l], sv), map1(lambda l: vals[l], sv), SymV(ty.gargs[1], fresh("error")))


def m_parse(I, st, args, info):
    return int_parse(I, st, sval(I, st, args[0]), 10, info["ty"])


def m_radix(I, st, args, info):
    r = I.num(args[1])
    if r.v is not None or not isinstance(r.val, int):
        return NotImplemented
    sv = sval(I, st, args[0])
    return int_parse(I, st, sv, r.val, info["ty"])


def psafe(s, *ts):
    if has_pua(s) or any(has_pua(t) for t in ts):
        return False
    return True


def pred(kind, s, t):
    """Decide a predicate on strings with symbolic digits, or refuse."""
    if psafe(s, t):
        return {"eq": s == t, "starts": s.startswith(t), "ends": s.endswith(t), "contains": t in s}[kind]
    if has_pua(t):
        if s == t:
            return True
        raise HwError("text predicate %s on digits: %r %r" % (kind, s, t))
    digs = "0123456789" if all(DIGITS[c][2] == 10 for c in s if is_pua(c)) else "0123456789abcdefABCDEF"
    parts = re.split("[\ue000-\uefff]", s)
    if kind == "contains":
        if any(t in p for p in parts):
            return True
        if any(c in digs for c in t):
            raise HwError("text predicate contains on digits: %r" % t)
        return False
    if kind == "ends":
        parts, t = [p[::-1] for p in reversed(parts)], t[::-1]
    if kind in ("starts", "ends"):
        if len(t) <= len(parts[0]):
            return parts[0].startswith(t)
        if not t.startswith(parts[0]):
            return False
        rest = t[len(parts[0]):]
        d = 0
        while d < len(rest) and rest[d] in digs:
            d += 1
        if d == 0:
            return False
        if d < len(rest) and len(parts) == 2 and parts[1][:1] not in digs and not (parts[1].startswith(rest[d:]) or rest[d:].startswith(parts[1])):
            return False
        if d < len(rest) and len(parts) == 2 and parts[1] == "":
            return False
        raise HwError("text predicate on digits: %r" % t)
    pat = ("[%s]+" % digs).join(re.escape(p) for p in parts)
    if re.fullmatch(pat, t) is None:
        return False
    raise HwError("text predicate on digits: %r" % t)


def m_pred(kind):
    def h(I, st, args, info):
        a, b = sval(I, st, args[0]), sval(I, st, args[1])

        def g(x, y):
            if isinstance(y, int):
                y = mkstr(chr(y))
            if x.__class__ is StrC and y.__class__ is StrC:
                if kind == "eq" and has_pua(y.s) and not has_pua(x.s):
                    x, y = y, x
                return T if pred(kind, x.s, y.s) else F
            return var(("str" + kind, fresh("pred")))
        for l in leaves(b):
            if not isinstance(l, int) and l.__class__ is not StrC:
                return NotImplemented        # pattern is a closure or a set
        return map2(g, a, b)
    return h


def m_strip(which):
    def h(I, st, args, info):
        a, b = sval(I, st, args[0]), sval(I, st, args[1])

        def t(y):
            return chr(y) if isinstance(y, int) else y.s
        if not all(l.__class__ is StrC for l in leaves(a)) or not all(isinstance(l, int) or l.__class__ is StrC for l in leaves(b)):
            return NotImplemented
        kind = "starts" if which == "prefix" else "ends"
        c = map2(lambda x, y: T if pred(kind, x.s, t(y)) else F, a, b)

        def cut(x, y):
            if not pred(kind, x.s, t(y)):
                return leaf(mkstr(""))
            return leaf(mkstr(x.s[len(t(y)):] if which == "prefix" else x.s[:len(x.s) - len(t(y))]))
        return opt(c, map2(cut, a, b))
    return h


def m_trim(k):
    fs = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip}

    def h(I, st, args, info):
        return map1(lambda l: leaf(mkstr(fs[k](l.s))) if l.__class__ is StrC else leaf(mkopq(k, l)), sval(I, st, args[0]))
    return h


def m_trim_matches(k):
    def h(I, st, args, info):
        a, b = sval(I, st, args[0]), sval(I, st, args[1])

        def g(x, y):
            t = chr(y) if isinstance(y, int) else y.s if y.__class__ is StrC else None
            if t is None or x.__class__ is not StrC or not t:
                return leaf(mkopq(fresh("trim")))
            s = x.s
            if k != "end":
                while pred("starts", s, t):
                    s = s[len(t):]
            if k != "start":
                while pred("ends", s, t):
                    s = s[:len(s) - len(t)]
            return leaf(mkstr(s))
        for l in leaves(b):
            if not isinstance(l, int) and l.__class__ is not StrC:
                return NotImplemented
        return map2(g, a, b)
    return h


def m_len(I, st, args, info):
    def f(l):
        if l.__class__ is StrC:
            if has_pua(l.s):
                raise HwError("length of a number text")
            return leaf(len(l.s.encode()))
        return leaf(atom_lin(atom("len", (str(l),), 64)))
    return map1(f, sval(I, st, args[0]))


def m_str_index(kind):
    def h(I, st, args, info):
        """s[a..b] with known bounds"""
        sv = sval(I, st, args[1])
        rng = ex(args[0])
        bounds = [I.num(x) for x in rng.v] if rng.__class__ is Agg else []
        if any(b.v is not None or not isinstance(b.val, int) for b in bounds):
            return NotImplemented
        bs = [b.val for b in bounds]

        def cut(l):
            if l.__class__ is not StrC:
                return None
            s = l.s
            n = len(s.encode())
            a = bs[0] if kind in ("Range", "RangeFrom") else 0
            b = bs[-1] if kind in ("Range", "RangeTo") else None
            if has_pua(s):
                p = min(i for i, c in enumerate(s) if is_pua(c))
                if a > p or (b is not None and b > p):
                    raise HwError("slice inside a number text")
            elif a > n or (b is not None and (b > n or a > b)):
                return False
            return s[a:b] if b is not None else s[a:]
        bad = map1(lambda l: T if cut(l) is False else F, sv)
        if any(cut(l) is None for l in leaves(sv)):
            return NotImplemented
        I.oblige(st, "string slice out of range", bad, info["fn"], info["line"])
        if st.pc is F:
            return None
        return map1(lambda l: leaf(mkstr(cut(l) or "")), sv)
    return h


def m_str_get(kind):
    def h(I, st, args, info):
        """s.get(a..b) with known bounds"""
        sv = sval(I, st, args[1])
        rng = ex(args[0])
        bounds = [I.num(x) for x in rng.v] if rng.__class__ is Agg else []
        if any(b.v is not None or not isinstance(b.val, int) for b in bounds) or not all(l.__class__ is StrC for l in leaves(sv)):
            return NotImplemented
        bs = [b.val for b in bounds]
        a = bs[0] if kind in ("Range", "RangeFrom") else 0
        b = bs[-1] if kind in ("Range", "RangeTo") else None

        def cut(l):
            s = l.s
            e = len(s) if b is None else b
            if not s.isascii():
                p = min(i for i, c in enumerate(s) if not c.isascii())
                if a > p or (b is not None and b > p):
                    raise HwError("slice inside a number text")
            elif a > e or e > len(s):
                return None
            return s[a:e]
        return opt(map1(lambda l: F if cut(l) is None else T, sv), map1(lambda l: leaf(mkstr(cut(l) or "")), sv))
    return h


# ------------------------------------------------------------------ derivation trees
class Tree:
    def __init__(self, sel_texts):
        self.nodes = []


def install(I, run):
    E = I.models
    for k, f in (("core::str::<impl str>::parse", m_parse), ("core::str::<impl str>::contains", m_pred("contains")),
                 ("core::str::<impl str>::starts_with", m_pred("starts")), ("core::str::<impl str>::ends_with", m_pred("ends")),
                 ("core::str::<impl str>::strip_prefix", m_strip("prefix")), ("core::str::<impl str>::strip_suffix", m_strip("suffix")),
                 ("core::str::<impl str>::trim", m_trim("trim")), ("core::str::<impl str>::trim_start", m_trim("trim_start")), ("core::str::<impl str>::trim_end", m_trim("trim_end")),
                 ("core::str::<impl str>::trim_start_matches", m_trim_matches("start")), ("core::str::<impl str>::trim_end_matches", m_trim_matches("end")),
                 ("core::str::<impl str>::trim_matches", m_trim_matches("both")),
                 ("std::string::String::len", m_len), ("core::str::<impl str>::len", m_len)):
        E[k] = f
    rxs = [(re.compile(r"^core::num::(imp::)?<impl [iu](8|16|32|64|128|size)>::from_str_radix$"), m_radix),
           (re.compile(r"^<[iu](8|16|32|64|128|size) as std::str::FromStr>::from_str$"), m_parse)]
    for _n in (r"^core::str::traits::<impl std::cmp::PartialEq for str>::eq$", r"^<std::string::String as std::cmp::PartialEq(<.*>)?>::eq$",
               r"^<&'a str as std::cmp::PartialEq<std::string::String>>::eq$", r"^<str as std::cmp::PartialEq(<std::string::String>)?>::eq$"):
        rxs.append((re.compile(_n), m_pred("eq")))
    for k in ("Range", "RangeFrom", "RangeTo", "RangeFull"):
        rxs.append((re.compile(r"^(core::str::traits::<impl std::slice::SliceIndex<str> for std::(ops|range)::%s(<usize>)?>|<std::(ops|range)::%s<usize> as std::slice::SliceIndex<str>>)::index$" % (k, k)), m_str_index(k)))
        rxs.append((re.compile(r"^(core::str::traits::<impl std::slice::SliceIndex<str> for std::(ops|range)::%s(<usize>)?>|<std::(ops|range)::%s<usize> as std::slice::SliceIndex<str>>)::get$" % (k, k)), m_str_get(k)))
    # pest
    rxs.append((re.compile(r"pest::Parser<.*>>::parse$|pest::Parser::parse$"), run.m_parse))
    rxs.append((re.compile(r"^pest::iterators::(pair::)?Pair::<.*>::(\w+)$"), run.m_pair))
    rxs.append((re.compile(r"^pest::iterators::(pairs::)?Pairs::<.*>::(\w+)$"), run.m_pairs))
    rxs.append((re.compile(r"^<pest::iterators::(\w+::)?Pairs?<.*> as std::clone::Clone>::clone$"), lambda I, st, a, i: I.deref(st, a[0])))
    rxs.append((re.compile(r"^<pest::iterators::(pairs::)?Pairs<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::(\w+)$"), run.m_pairs))
    rxs.append((re.compile(r"^pest::(span::)?Span::<.*>::(\w+)$"), run.m_span))
    I.regex_models[:0] = rxs


_gram = {}


def grammar(prog):
    g = _gram.get("g")
    if g is None:
        src = os.path.join(REPO, "sim/src/asm/mod.rs")
        path = None
        root = os.path.join(REPO, "sim")
        for d, _, fs in os.walk(os.path.join(root, "src")):
            for f in fs:
                if f.endswith(".rs"):
                    mm = re.search(r'#\[\s*grammar\s*=\s*"([^"]+)"\s*\]', open(os.path.join(d, f)).read())
                    if mm:
                        # relative to src, or to the crate
                        for base in (root, os.path.join(root, "src"), d):
                            p = os.path.join(base, mm.group(1))
                            if os.path.exists(p):
                                path = path or p
        if path is None:
            raise HwError("grammar file not found")
        try:
            g = peg.Grammar(open(path).read())
        except peg.GrammarError as e:
            raise HwError("grammar: %s" % e)
        _gram["g"] = g
    return g


class Group:
    """Combinations of spellings with one derivation tree."""

    def __init__(self, cond, tree, combos):
        self.cond, self.tree, self.combos = cond, tree, combos


class Source:
    """parts: strings and slots. A slot used twice has the same spelling at both places."""

    def __init__(self, parts, fixed=None):
        self.parts = parts
        self.slots = []
        for p in parts:
            if not isinstance(p, str) and p not in self.slots:
                self.slots.append(p)
        self.sel = {}
        for k, s in enumerate(self.slots):
            n = len(s.texts)
            if n == 1:
                self.sel[s] = leaf(0)
            else:
                self.sel[s] = map1(lambda v, n=n: leaf(min(v, n - 1)), self._choice("choice:%s" % getattr(s, "name", k), n))
        self.dom = T
        for s in self.slots:
            n = len(s.texts)
            # the same meaning twice is harmless: indexes above the last are folded onto it

    def _choice(self, nm, n):
        w = (n - 1).bit_length()
        return expand_atom(atom("in", (nm,), w), w)

    def val(self, slot):
        return slot.value(self.sel[slot])

    def valid(self):
        c = T
        for s in self.slots:
            if hasattr(s, "valid"):
                c = AND(c, s.valid(self.sel[s]))
        return c

    def combos(self):
        def go(k, cur):
            if k == len(self.slots):
                yield dict(cur)
                return
            for i in range(len(self.slots[k].texts)):
                cur[self.slots[k]] = i
                yield from go(k + 1, cur)
        yield from go(0, {})

    def text(self, combo):
        return "".join(p if isinstance(p, str) else p.texts[combo[p]] for p in self.parts)

    def cond(self, combo):
        c = T
        for s in self.slots:
            i = combo[s]
            c = AND(c, map1(lambda l: T if l == i else F, self.sel[s]))
        return c

    def groups(self, gram):
        gs = {}
        for c in self.combos():
            t = self.text(c)
            try:
                tree = gram.parse("main", t)
            except RecursionError:
                raise HwError("grammar recursion")
            except peg.GrammarError as e:
                raise HwError("grammar: %s" % e)
            k = None if tree is None else tree.shape()
            gs.setdefault(k, []).append((c, t, tree))
        out = []
        for k, cs in gs.items():
            cond = F
            for c, t, tr in cs:
                cond = OR(cond, self.cond(c))
            out.append(Group(cond, cs[0][2], cs))
        return out

    def node_text(self, grp, pos):
        """Diagram of the text of node number pos of the group's trees."""
        r = None
        for c, t, tr in grp.combos:
            n = grp.flat(tr)[pos]
            x = leaf(mkstr(t[n.a:n.b]))
            r = x if r is None else merge(self.cond(c), x, r)
        return r

    def sample(self, grp):
        return grp.combos[0][1]


def flat(tree):
    out = []

    def go(n):
        out.append(n)
        for k in n.kids:
            go(k)
    go(tree)
    return out


class Run:
    """assemble() on one group of one source."""

    def __init__(self, prog, src, grp):
        self.p, self.src, self.grp = prog, src, grp
        self.rules = None
        if grp.tree is not None:
            self.flats = [(c, t, flat(tr)) for c, t, tr in grp.combos]
            self.nodes = self.flats[0][2]
            self.idx = {id(n): i for i, n in enumerate(self.nodes)}
            self.kids = [[self.idx[id(k)] for k in n.kids] for n in self.nodes]
        self._text = {}
        self.whole = None
        for c, t, tr in grp.combos:
            x = leaf(mkstr(t))
            self.whole = x if self.whole is None else merge(src.cond(c), x, self.whole)
        I = self.I = Interp(prog)
        install(I, self)
        I.unroll_limit = I.visit_limit = 70 + (3 * len(self.nodes) if grp.tree is not None else 0)

    def node_text(self, i):
        r = self._text.get(i)
        if r is None:
            by = {}
            for c, t, ns in self.flats:
                s = t[ns[i].a:ns[i].b]
                by[s] = OR(by.get(s, F), self.src.cond(c))
            for s, g in by.items():
                x = leaf(mkstr(s))
                r = x if r is None else ite(g, x, r)
            self._text[i] = r
        return r

    # -- models
    def m_parse(self, I, st, args, info):
        ty = info["ty"]
        if ty is None or ty.path != "std::result::Result":
            return NotImplemented
        # only the main rule over the whole text is known
        rl = I.num(args[0].d if args[0].__class__ is EnumV else ex(args[0]).d)
        rt = self.rule_ty(I)
        nm = rt.variants[rl.val][0] if rl.v is None and rt is not None and isinstance(rl.val, int) else None
        if nm not in ("main", "r#main"):
            raise HwError("the parser is entered with another rule")
        if sval(I, st, args[1]) is not self.whole:
            raise HwError("the text given to the parser is not the source text")
        if self.grp.tree is None:
            return err(SymV(ty.gargs[1], fresh("error")))
        return ok(leaf(mkopq("pairs", 0, 0, 1, "root")))

    def rule_ty(self, I):
        if self.rules is None:
            t = I.argtys[0] if getattr(I, "argtys", None) else None
            if t is not None and t.k == "enum":
                self.rules = t
            else:
                try:
                    self.rules = self.p.type_named("y86_sim::asm::Rule")
                except KeyError:
                    c = [t for cr in self.p.crates.values() for t in cr.types if t.k == "enum" and t.path and t.path.endswith("::Rule")]
                    self.rules = c[0] if c else None
        return self.rules

    def node_of(self, I, st, v):
        v = ex(v)
        for _ in range(4):
            if v.__class__ is bdd.N and v.v is None and v.val.__class__ is Ref:
                v = ex(I.read(st, v.val.obj, v.val.path))
        if v.__class__ is bdd.N and v.v is None and v.val.__class__ is Opq and v.val.tag[0] in ("pair", "pairs", "span"):
            return v.val.tag
        raise HwError("parse tree value is not understood")

    def m_pair(self, I, st, args, info):
        meth = info["ref"]["path"].rsplit("::", 1)[1]
        t = self.node_of(I, st, args[0])
        i = t[1]
        if meth == "as_rule":
            ty = info["ty"]
            nm = self.nodes[i].rule
            for k, v in enumerate(ty.variants):
                if v[0] in (nm, "r#" + nm):
                    return EnumV(leaf(k), {k: ()})
            raise HwError("rule %s has no variant" % nm)
        if meth in ("as_str", "as_span"):
            return self.node_text(i) if meth == "as_str" else leaf(mkopq("span", i))
        if meth == "into_inner":
            return leaf(mkopq("pairs", i, 0, len(self.kids[i])))
        if meth == "get_input":
            return self.whole
        if meth == "line_col":
            ls = {(x[:ns[i].a].count("\n") + 1, ns[i].a - (x.rfind("\n", 0, ns[i].a) + 1) + 1) for _, x, ns in self.flats}
            a = {l for l, _ in ls}
            return Agg((leaf(a.pop()) if len(a) == 1 else top("line"), top("col")))
        if meth == "clone":
            return leaf(mkopq(*t))
        raise HwError("pest Pair::%s is not modelled" % meth)

    def m_span(self, I, st, args, info):
        meth = info["ref"]["path"].rsplit("::", 1)[1]
        t = self.node_of(I, st, args[0])
        if meth == "as_str":
            return self.node_text(t[1])
        raise HwError("pest Span::%s is not modelled" % meth)

    def elem(self, t, k):
        if len(t) > 4:
            return leaf(mkopq("pair", 0))
        return leaf(mkopq("pair", self.kids[t[1]][k]))

    def m_pairs(self, I, st, args, info):
        meth = info["ref"]["path"].rsplit("::", 1)[1]
        if meth not in ("next", "next_back", "peek", "len", "clone", "as_str", "size_hint", "single"):
            if "Iterator>" in info["ref"]["path"]:
                return NotImplemented
            raise HwError("pest Pairs::%s is not modelled" % meth)
        t = self.node_of(I, st, args[0])
        _, i, a, b = t[:4]
        rest = t[4:]
        if meth == "peek":
            return some(self.elem(t, a)) if a < b else NONE
        if meth == "next":
            if a >= b:
                return NONE
            I.store(st, args[0], leaf(mkopq("pairs", i, a + 1, b, *rest)))
            return some(self.elem(t, a))
        if meth == "next_back":
            if a >= b:
                return NONE
            I.store(st, args[0], leaf(mkopq("pairs", i, a, b - 1, *rest)))
            return some(self.elem(t, b - 1))
        if meth == "len":
            return leaf(b - a)
        if meth == "size_hint":
            return Agg((leaf(b - a), some(leaf(b - a))))
        if meth == "clone":
            return leaf(mkopq(*t))
        raise HwError("pest Pairs::%s is not modelled" % meth)

    # -- run
    def go(self, pc=T):
        fs = [f for f in self.p.fns.values() if f.name == "y86_sim::asm::assemble"]
        if not fs:
            raise HwError("assemble not found")
        self.f = f = fs[0]
        I = self.I
        self.st = st = State({}, AND(self.grp.cond, pc))
        args = [self.whole]
        for k in range(2, f.nargs + 1):
            args.append(SymV(f.lty(k), "option%d" % k))
        r = I.run(f, args, st)
        self.ret = None
        if r is None:
            self.done = F
            return self
        self.ret, self.st = ex(r[0]), r[1]
        self.done = self.st.pc
        if self.ret.__class__ is not EnumV:
            raise HwError("assemble does not return a result")
        self.okc = AND(self.done, map1(lambda l: T if l == 0 else F, self.ret.d))
        self.errc = AND(self.done, NOT(self.okc))
        self.obj = ex(self.ret.p[0][0]) if 0 in self.ret.p else None
        self.objty = f.lty(0).variants[0][2][0][1]
        return self

    def locate(self, pred, ty=None, v=None, depth=0):
        """First component of the assembled object whose type satisfies pred."""
        if depth == 0:
            ty, v = self.objty, self.obj
        if pred(ty):
            return v
        if depth > 4 or ty.k != "struct" or not ty.variants or ty.path in OPAQUE:
            return None
        e = ex(v)
        if e.__class__ is not Agg:
            return None
        for (nm, t), x in zip(ty.variants[0][2], e.v):
            r = self.locate(pred, t, x, depth + 1)
            if r is not None:
                return r
        return None

    def image(self):
        r = self.locate(lambda t: t.k == "array" and t.elem.k == "uint" and t.elem.bits == 8)
        if r is None:
            raise HwError("memory image of the object not found")
        r = ex(r)
        if r.__class__ is not ArrV:
            raise HwError("memory image of the object is not understood")
        return r

    def symbols(self):
        r = self.locate(lambda t: t.path in ("std::collections::BTreeMap", "std::collections::HashMap"))
        if r is None:
            raise HwError("symbol table of the object not found")
        r = ex(r)
        if r.__class__ is not MapV:
            raise HwError("symbol table of the object is not understood")
        return r

    def symbol(self, name):
        for _, k, v in self.symbols().items:
            k = sval(self.I, self.st, k)
            if k.v is None and k.val.__class__ is StrC and k.val.s == name:
                return v
        return None
