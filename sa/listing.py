"""Texts as values: formatting into strings and reading them back, with symbolic numbers.

A number written with a known number of digits is one private-use character of known width
whose value is a diagram; reading the text back gives the diagram again."""
from asmrun import *
import asmrun
from values import *
from values import width as ty_width
import terms

WIDTH = {}      # private-use char -> number of characters it stands for
_chars = {}


def numchar(d, radix, width):
    """A character standing for the number d written in radix with exactly width digits."""
    k = (d.id, radix, width)
    c = _chars.get(k)
    if c is None:
        c = chr(PUA0 + Num.n[0])
        Num.n[0] += 1
        if Num.n[0] > 0xFFF:
            raise HwError("too many numbers in one text")
        DIGITS[c] = (d, F, radix)
        if width is not None:
            WIDTH[c] = width
        _chars[k] = c
    return c


def wlen(s):
    n = 0
    for c in s:
        if is_pua(c):
            if c not in WIDTH:
                raise HwError("length of a number text")
            n += WIDTH[c]
        else:
            n += len(c.encode())
    return n


def cut(s, a, b):
    """s[a..b] in bytes: the piece, or False when a bound is not at a character."""
    off, out, i = 0, [], 0
    if a > b:
        return False
    started = a == 0
    for c in s:
        if off == a:
            started = True
        if off == b:
            return "".join(out) if started else False
        if off > b:
            return False
        if started:
            out.append(c)
        if is_pua(c) and c not in WIDTH:
            raise HwError("slice behind a number text")
        w = wlen(c)
        if is_pua(c) and (off < a < off + w or off < b < off + w):
            raise HwError("slice inside a number text")
        off += w
    if off == a:
        started = True
    return "".join(out) if started and off == b else False


def const_int(d):
    d = ex(d)
    return d.val if d.__class__ is bdd.N and d.v is None and isinstance(d.val, int) else None


def zext64(d, w):
    def f(l):
        if l.__class__ is Lin and l.w != 64:
            r = cast(l, l.w, False, 64)
            return r if r.__class__ is bdd.N else leaf(r)
        return leaf(l)
    return map1(f, d)


# ------------------------------------------------------------------ formatting
def decode_template(bs):
    """Pieces of a format template: ('lit', text) and ('arg', index, flags, width, precision) with (indirect) widths."""
    i, out, nxt = 0, [], 0

    def u(n):
        nonlocal i
        v = int.from_bytes(bytes(bs[i:i + n]), "little")
        i += n
        return v
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(("lit", bytes(bs[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            n = u(2)
            out.append(("lit", bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
        elif b >= 0xC0:
            fl = u(4) if b & 1 else 0x20 | 3 << 29
            w = u(2) if b & 2 else None
            p = u(2) if b & 4 else None
            ix = u(2) if b & 8 else nxt
            nxt = ix + 1
            out.append(("arg", ix, fl, (w, bool(b & 16)), (p, bool(b & 32))))
        else:
            raise HwError("format template is not understood")
    return out


FLAG = dict(plus=1 << 21, minus=1 << 22, alt=1 << 23, zero=1 << 24)


def fmt_piece(I, st, kind, v, ty, fl, width):
    """Diagram of strings."""
    fill = chr(fl & 0x1FFFFF) if fl & 0x1FFFFF else " "
    align = fl >> 29 & 3

    def pad(s, num):
        if width is None:
            return s
        n = sum(WIDTH[c] if is_pua(c) and c in WIDTH else 1 for c in s)
        if any(is_pua(c) and c not in WIDTH for c in s):
            raise HwError("padding of a number text")
        k = width - n
        if k <= 0:
            return s
        a = align if align != 3 else (1 if num else 0)
        if a == 0:
            return s + fill * k
        if a == 1:
            return fill * k + s
        return fill * (k // 2) + s + fill * (k - k // 2)
    while ty is not None and ty.k == "ref":
        ty = ty.elem
    if ty is not None and (ty.k == "str" or ty.path == "std::string::String") and kind == "display":
        def f(l):
            if l.__class__ is not StrC:
                return leaf(mkopq(fresh("text")))
            return leaf(mkstr(pad(l.s, False)))
        return map1(f, sval(I, st, v))
    if ty is not None and ty.k == "char" and kind == "display":
        return map1(lambda l: leaf(mkstr(pad(chr(l), False))) if isinstance(l, int) else leaf(mkopq(fresh("text"))), I.num(v))
    if ty is None or ty.k not in ("int", "uint") or kind not in ("display", "lower_hex", "upper_hex", "debug"):
        return None
    w = ty_width(ty)
    radix = 16 if kind.endswith("hex") else 10
    pre = ""
    if fl & FLAG["alt"] and radix == 16:
        pre = "0x"
    plus = "+" if fl & FLAG["plus"] else ""
    zero = bool(fl & FLAG["zero"])

    def g(l):
        if isinstance(l, int):
            neg = ty.k == "int" and radix == 10 and l >> (w - 1)
            m = (1 << w) - l if neg else l
            ds = {"lower_hex": "%x", "upper_hex": "%X"}.get(kind, "%d") % m
            sg = "-" if neg else plus
            if zero and width is not None:
                ds = ds.rjust(width - len(sg) - len(pre), "0")
                return leaf(mkstr(sg + pre + ds))
            return leaf(mkstr(pad(sg + pre + ds, True)))
        return None
    d = I.num(v)
    if all(isinstance(l, int) for l in leaves(d)) and len(leaves(d)) == 1:
        return map1(g, d)
    if ty.k == "int":
        return None
    d64 = zext64(d, w)
    if zero and width is not None and width - len(pre) - len(plus) > 0:
        n = width - len(pre) - len(plus)
        lim = radix ** n
        small = map1(lambda l: (T if lim >= 1 << 64 else ult_const(l, 64, lim)) if l.__class__ is Lin else (T if l < lim else F), d64)
        next_ = map1(lambda l: ult_const(l, 64, lim * radix) if l.__class__ is Lin and lim * radix < 1 << 64 else T if l.__class__ is Lin or l < lim * radix else F, d64)
        return ite(small, leaf(mkstr(plus + pre + numchar(d64, radix, n))),
                   ite(next_, leaf(mkstr(plus + pre + numchar(d64, radix, n + 1))), leaf(mkopq(fresh("long number")))))
    if width is not None:
        return None
    return leaf(mkstr(plus + pre + numchar(d64, radix, None)))


KINDS = {"new_display": "display", "new_lower_hex": "lower_hex", "new_upper_hex": "upper_hex", "new_debug": "debug"}


class Text:
    """Models of formatting and of string reading on one interpreter."""

    def __init__(self, I):
        self.I = I
        E = I.models
        rxs = []

        def r(p, f):
            rxs.append((re.compile(p), f))
        r(r"^core::fmt::rt::Argument::<'\w+>::new_\w+$", self.m_arg)
        r(r"^core::fmt::rt::Argument::<'\w+>::from_usize$", self.m_argsize)
        r(r"^std::fmt::Arguments::<'\w+>::(new|new_const|new_v1|new_v1_formatted|from_str|from_str_nonconst)$", self.m_args)
        r(r"^std::fmt::(Formatter::<'\w+>|Write)::write_fmt$", self.m_write_fmt)
        r(r"^std::fmt::Formatter::<'\w+>::(write_str|write_char|pad)$", self.m_write_str)
        r(r"^<(std::fmt::Formatter<'\w+>|std::string::String) as std::fmt::Write>::write_fmt$", self.m_write_fmt)
        r(r"^<(std::fmt::Formatter<'\w+>|std::string::String) as std::fmt::Write>::(write_str|write_char)$", self.m_write_str)
        r(r"^std::fmt::format$", self.m_format)
        r(r"^<(T|str|std::string::String|char|u8|u16|u32|u64|usize) as std::string::(ToString|SpecToString)>::(to_string|spec_to_string)$", self.m_to_string)
        r(r"^std::string::ToString::to_string$", self.m_to_string)
        r(r"^<.* as std::fmt::(Display|LowerHex|UpperHex)>::fmt$", self.m_fmt)
        r(r"^std::str::<impl str>::repeat$", self.m_repeat)
        r(r"^std::string::String::(new|with_capacity)$|^<std::string::String as std::default::Default>::default$", lambda I, st, a, i: leaf(mkstr("")))
        r(r"^core::str::<impl str>::is_empty$|^std::string::String::is_empty$", self.m_is_empty)
        r(r"^core::str::<impl str>::(find|rfind)$", self.m_find)
        r(r"^core::str::<impl str>::(lines|bytes|chars|char_indices|split|split_whitespace|splitn|rsplit|split_terminator|as_bytes|split_ascii_whitespace)$", self.m_pieces)
        r(r"^std::string::String::(as_bytes|into_bytes)$", self.m_pieces)
        r(r"^core::str::<impl str>::(split_once|rsplit_once)$", self.m_split_once)
        r(r"^core::str::<impl str>::split_at$", self.m_split_at)
        r(r"^<std::str::(\w+::)?(Lines|Bytes|Chars|CharIndices|Split|SplitN|SplitWhitespace|RSplit|SplitTerminator|SplitAsciiWhitespace)<.*> as std::iter::Iterator>::next$", self.m_next)
        r(r"^<std::str::(\w+::)?(Bytes|Chars|Lines|Split|SplitWhitespace)<.*> as std::iter::Iterator>::(all|any|find|find_map|position|fold|for_each|count|last)$", self.m_consume)
        r(r"^<std::str::(\w+::)?(Bytes|Chars)<.*> as std::iter::(ExactSizeIterator::len|Iterator::size_hint)$", self.m_hint)
        for k in ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive", "RangeToInclusive"):
            for meth in ("index", "get"):
                r(r"^(core::str::traits::<impl std::slice::SliceIndex<str> for std::(ops|range)::%s(<usize>)?>|<std::(ops|range)::%s<usize> as std::slice::SliceIndex<str>>)::%s$" % (k, k, meth), self.m_slice(k, meth))
        I.regex_models[:0] = rxs
        I.prefix_models[:] = [x for x in I.prefix_models if x[0] not in ("core::fmt::rt::", "std::fmt::Arguments", "std::fmt::format", "std::fmt::Formatter")]
        E["core::str::<impl str>::len"] = self.m_len
        E["std::string::String::len"] = self.m_len
        for k in ("std::string::ToString::to_string",):
            E[k] = self.m_to_string
        E["core::str::<impl str>::parse"] = m_parse
        E["core::str::<impl str>::is_char_boundary"] = self.m_boundary

    # -- formatting
    def m_arg(self, I, st, args, info):
        kind = KINDS.get(info["ref"]["path"].rsplit("::", 1)[1])
        ty = I.argtys[0]
        while ty.k == "ref" and ty.elem.k == "ref":
            ty = ty.elem
            args = [I.deref(st, args[0])]
        et = ty.elem if ty.k == "ref" else ty
        v = args[0]
        if et.k in ("int", "uint", "char", "bool"):
            v = I.deref(st, args[0])
        elif et.k == "str" or et.path == "std::string::String":
            v = sval(I, st, args[0])
        return Agg((leaf(mkopq("fmtarg", kind, et.s, id(et))), v, ty_leaf(et)))

    def m_argsize(self, I, st, args, info):
        return Agg((leaf(mkopq("fmtarg", "usize", "", 0)), I.num(I.deref(st, args[0])), UNIT))

    def m_args(self, I, st, args, info):
        meth = info["ref"]["path"].rsplit("::", 1)[1]
        if meth in ("from_str", "from_str_nonconst", "new_const"):
            if meth == "new_const":
                return NotImplemented
            return Agg((leaf(mkopq("fmtargs")), sval(I, st, args[0]), UNIT))
        if meth != "new":
            return NotImplemented
        return Agg((leaf(mkopq("fmtargs")), args[0], args[1]))

    def text_of(self, st, a, fref=None):
        """(diagram of strings, or None when unknown) of an Arguments value."""
        I = self.I
        a = ex(a)
        if a.__class__ is not Agg or len(a.v) != 3 or ex(a.v[0]).__class__ is not bdd.N:
            return None
        t = ex(a.v[1])
        if t.__class__ is bdd.N and t.v is None and t.val.__class__ is StrC:
            return t
        tv = ex(I.deref(st, t))
        if tv.__class__ is not Agg:
            return None
        bs = [const_int(x) for x in tv.v]
        if any(b is None for b in bs):
            return None
        av = ex(I.deref(st, a.v[2]))
        if av.__class__ is not Agg:
            return None
        out = leaf(mkstr(""))
        for p in decode_template(bs):
            if p[0] == "lit":
                x = leaf(mkstr(p[1]))
            else:
                _, ix, fl, (w, wi), (pr, pi) = p
                if ix >= len(av.v):
                    return None
                q = ex(av.v[ix])
                if wi:
                    w = const_int(ex(av.v[w]).v[1])
                    if w is None:
                        return None
                if pr is not None:
                    return None
                tag = ex(q.v[0]).val.tag
                x = fmt_piece(I, st, tag[1], q.v[1], leaf_ty(q.v[2]), fl, w)
                if x is None:
                    x = self.user_fmt(st, q, tag[1])
                if x is None:
                    return None
            out = map2(str_cat2, out, x)
        return out

    def user_fmt(self, st, q, kind):
        """Display of one of the repository's own types."""
        ty = leaf_ty(q.v[2])
        if ty is None or kind != "display" or ty.k not in ("struct", "enum"):
            return None
        fs = [f for f in self.I.p.fns.values() if f.name.endswith("as std::fmt::Display>::fmt") and f.lty(1).elem is not None and f.lty(1).elem.s == ty.s]
        if len(fs) != 1:
            return None
        return self.display(st, fs[0], q.v[1])

    def display(self, st, f, ref):
        I = self.I
        fo = I.alloc(st, leaf(mkstr("")), None, "fmtr")
        r = I.run(f, [ref, leaf(mkref(fo))], st)
        if r is None:
            return None
        v, s2 = r
        st.mem, st.pc = s2.mem, s2.pc
        v = ex(v)
        self.fmt_ok = T if v.__class__ is not EnumV else map1(lambda l: T if l == 0 else F, v.d)
        return ex(I.deref(st, leaf(mkref(fo))))

    def append(self, I, st, f, x):
        cur = ex(I.deref(st, f))
        if cur.__class__ is not bdd.N:
            return NotImplemented
        n = map2(str_cat2, sval(I, st, cur), x if x is not None else leaf(mkopq(fresh("text"))))
        I.store(st, f, n)
        return ok(UNIT)

    def m_write_fmt(self, I, st, args, info):
        return self.append(I, st, args[0], self.text_of(st, args[1]))

    def m_write_str(self, I, st, args, info):
        x = sval(I, st, args[1])
        return self.append(I, st, args[0], map1(lambda l: leaf(mkstr(chr(l))) if isinstance(l, int) else leaf(l), x))

    def m_fmt(self, I, st, args, info):
        """Direct call of a formatting trait on a primitive."""
        ty = I.argtys[0]
        while ty.k == "ref" and ty.elem.k == "ref":
            ty = ty.elem
            args = [I.deref(st, args[0])] + list(args[1:])
        et = ty.elem if ty.k == "ref" else ty
        if et.k in ("struct", "enum") and et.path != "std::string::String":
            return NotImplemented if info["key"] in I.p.fns and info["ref"]["name"].startswith("<y86") else opq_res(info)
        kind = {"Display": "display", "LowerHex": "lower_hex", "UpperHex": "upper_hex"}[re.search(r"std::fmt::(\w+)>", info["ref"]["path"]).group(1)]
        v = I.deref(st, args[0]) if et.k in ("int", "uint", "char") else args[0]
        return self.append(I, st, args[1], fmt_piece(I, st, kind, v, et, 0, None))

    def m_format(self, I, st, args, info):
        x = self.text_of(st, args[0])
        return x if x is not None else leaf(mkopq(fresh("text")))

    def m_to_string(self, I, st, args, info):
        ty = I.argtys[0]
        v = args[0]
        while ty.k == "ref":
            if ty.elem.k in ("str",):
                break
            v = I.deref(st, v)
            ty = ty.elem
        if ty.k in ("int", "uint", "char", "bool") or ty.k == "ref" or ty.path == "std::string::String":
            x = fmt_piece(I, st, "display", v, ty, 0, None)
            return x if x is not None else leaf(mkopq(fresh("text")))
        if ty.k in ("struct", "enum"):
            x = self.user_fmt(st, Agg((UNIT, args[0], ty_leaf(ty))), "display")
            if x is not None:
                return x
        return leaf(mkopq(fresh("text")))

    def m_repeat(self, I, st, args, info):
        n = const_int(I.num(args[1]))
        if n is None:
            return leaf(mkopq(fresh("text")))
        return map1(lambda l: leaf(mkstr(l.s * n)) if l.__class__ is StrC else leaf(mkopq(fresh("text"))), sval(I, st, args[0]))

    # -- reading
    def m_len(self, I, st, args, info):
        return map1(lambda l: leaf(wlen(l.s)) if l.__class__ is StrC else leaf(atom_lin(atom("len", (str(l),), 64))), sval(I, st, args[0]))

    def m_is_empty(self, I, st, args, info):
        return map1(lambda l: (T if l.s == "" else F) if l.__class__ is StrC else var(("empty", fresh("ext"))), sval(I, st, args[0]))

    def m_boundary(self, I, st, args, info):
        n = const_int(I.num(args[1]))
        if n is None:
            return NotImplemented
        return map1(lambda l: (T if n <= wlen(l.s) and cut(l.s, n, wlen(l.s)) is not False else F) if l.__class__ is StrC else var(("bound", fresh("ext"))), sval(I, st, args[0]))

    def pattern(self, I, st, v, ty):
        """A predicate on characters (python), or a substring."""
        p = sval(I, st, v) if ty.k in ("ref", "char", "str") or ty.path == "std::string::String" else ex(v)
        if p.__class__ is bdd.N and p.v is None:
            if isinstance(p.val, int):
                return chr(p.val)
            if p.val.__class__ is StrC:
                return p.val.s
        raise HwError("text pattern is not understood")

    def one(self, v):
        v = ex(v)
        if v.__class__ is not bdd.N or v.v is not None or v.val.__class__ is not StrC:
            raise HwError("text is not known")
        return v.val.s

    def strs(self, I, st, v):
        d = sval(I, st, v)
        if not all(l.__class__ is StrC for l in leaves(d)):
            raise HwError("text is not known")
        return d

    def where(self, s, t, last=False):
        """index (characters) of t in s, never inside digits"""
        digs = "0123456789abcdefABCDEF"
        if t and all(c in digs for c in t) and has_pua(s):
            raise HwError("search for digits in a number text")
        if any(c in digs for c in t) and len(t) > 1 and has_pua(s):
            raise HwError("search for digits in a number text")
        return s.rfind(t) if last else s.find(t)

    def m_find(self, I, st, args, info):
        last = info["ref"]["path"].endswith("rfind")
        t = self.pattern(I, st, args[1], I.argtys[1])
        d = self.strs(I, st, args[0])
        return opt(map1(lambda l: T if self.where(l.s, t, last) >= 0 else F, d), map1(lambda l: leaf(wlen(l.s[:max(0, self.where(l.s, t, last))])), d))

    def m_split_once(self, I, st, args, info):
        last = info["ref"]["path"].endswith("rsplit_once")
        t = self.pattern(I, st, args[1], I.argtys[1])
        d = self.strs(I, st, args[0])

        def part(l, k):
            i = self.where(l.s, t, last)
            if i < 0:
                return leaf(mkstr(""))
            return leaf(mkstr(l.s[:i] if k == 0 else l.s[i + len(t):]))
        return opt(map1(lambda l: T if self.where(l.s, t, last) >= 0 else F, d), Agg((map1(lambda l: part(l, 0), d), map1(lambda l: part(l, 1), d))))

    def m_split_at(self, I, st, args, info):
        n = const_int(I.num(args[1]))
        if n is None:
            raise HwError("text is split at an unknown place")
        d = self.strs(I, st, args[0])
        bad = map1(lambda l: T if n > wlen(l.s) or cut(l.s, 0, n) is False else F, d)
        I.oblige(st, "string slice out of range", bad, info["fn"], info["line"])
        if st.pc is F:
            return None
        return Agg((map1(lambda l: leaf(mkstr(cut(l.s, 0, min(n, wlen(l.s))) or "")), d), map1(lambda l: leaf(mkstr(cut(l.s, min(n, wlen(l.s)), wlen(l.s)) or "")), d)))

    def byte_vals(self, s):
        out = []
        for c in s:
            if is_pua(c):
                mag, big, radix = DIGITS[c]
                if c not in WIDTH or radix != 16:
                    raise HwError("bytes of a number text")
                for k in range(WIDTH[c] - 1, -1, -1):
                    def nib(l, k=k):
                        if l.__class__ is Lin:
                            # by whole bytes, which is how memory holds the same number
                            x = terms.expand(ext(l, 64, 8 * (k // 2), 8))
                            return map1(lambda m: leaf(48 + m if m < 10 else 87 + m), map1(lambda m: leaf(m >> (4 * (k % 2)) & 15), x))
                        m = l >> (4 * k) & 15
                        return leaf(48 + m if m < 10 else 87 + m)
                    out.append(map1(nib, mag))
            else:
                out += [leaf(b) for b in c.encode()]
        return out

    def m_pieces(self, I, st, args, info):
        what = info["ref"]["path"].rsplit("::", 1)[1]
        s = self.one(sval(I, st, args[0]))
        if what in ("bytes", "as_bytes", "into_bytes"):
            v = VecV(self.byte_vals(s))
            if what == "as_bytes":
                ob = I.alloc(st, v, None, "bytes")
                return leaf(mkref(ob, (), leaf(len(v.items))))
            return v
        if what in ("chars", "char_indices"):
            if has_pua(s):
                vs = self.byte_vals(s) if all(ord(c) < 128 or is_pua(c) for c in s) else None
                if vs is None:
                    raise HwError("characters of a number text")
            else:
                vs = [leaf(ord(c)) for c in s]
            if what == "chars":
                return VecV(vs)
            offs, o = [], 0
            for c in (s if not has_pua(s) else "x" * len(vs)):
                offs.append(o)
                o += len(c.encode())
            return VecV([Agg((leaf(o), v)) for o, v in zip(offs, vs)])
        if what == "lines":
            ls = s.split("\n")
            if ls and ls[-1] == "":
                ls.pop()
            return VecV([leaf(mkstr(l[:-1] if l.endswith("\r") else l)) for l in ls])
        if what in ("split_whitespace", "split_ascii_whitespace"):
            return VecV([leaf(mkstr(x)) for x in s.split()])
        if what == "splitn":
            n = const_int(I.num(args[1]))
            t = self.pattern(I, st, args[2], I.argtys[2])
            self.where(s, t)
            return VecV([leaf(mkstr(x)) for x in (s.split(t, n - 1) if n else [])])
        t = self.pattern(I, st, args[1], I.argtys[1])
        self.where(s, t)
        ps = s.split(t)
        if what == "split_terminator" and ps[-1] == "":
            ps.pop()
        if what == "rsplit":
            ps.reverse()
        return VecV([leaf(mkstr(x)) for x in ps])

    def items(self, I, st, ref, byval=False):
        v = ex(ref if byval else I.deref(st, ref))
        if v.__class__ is not VecV:
            raise HwError("text iterator is not understood")
        return list(v.items)

    def m_next(self, I, st, args, info):
        xs = self.items(I, st, args[0])
        if not xs:
            return NONE
        I.store(st, args[0], VecV(xs[1:]))
        return some(xs[0])

    def m_hint(self, I, st, args, info):
        n = leaf(len(self.items(I, st, args[0])))
        return n if info["ref"]["path"].endswith("len") else Agg((n, some(n)))

    def m_consume(self, I, st, args, info):
        """By way of the (buffer, next, end) model."""
        import models_coll
        what = info["ref"]["path"].rsplit("::", 1)[1]
        byval = what in ("fold", "for_each", "count", "last")
        xs = self.items(I, st, args[0], byval)
        ob = leaf(mkref(I.alloc(st, VecV(xs), None, "pieces")))
        it = Agg((ob, leaf(0), leaf(len(xs))))
        a0 = it if byval else leaf(mkref(I.alloc(st, it, None, "it")))
        i2 = dict(info, ref=dict(info["ref"], path="<std::vec::IntoIter<T, A> as std::iter::Iterator>::" + what))
        r = models_coll.base_consume(I, st, [a0] + list(args[1:]), i2)
        if not byval and r is not NotImplemented and r is not None:
            # what is left of the iterator
            z = ex(I.deref(st, a0))
            k = const_int(z.v[1])
            I.store(st, args[0], VecV(xs[k:]) if k is not None else top("iter"))
        return r

    def m_slice(self, kind, meth):
        def h(I, st, args, info):
            d = self.strs(I, st, args[1])
            rng = ex(args[0])
            bs = [I.num(x) for x in rng.v[:2]] if rng.__class__ is Agg and kind != "RangeFull" else []
            if kind.endswith("Inclusive"):
                bs[-1] = addn(bs[-1], leaf(1))
            out_s, out_ok = {}, {}
            lo = bs[0] if kind in ("Range", "RangeFrom", "RangeInclusive") else leaf(0)
            hi = bs[-1] if kind in ("Range", "RangeTo", "RangeInclusive", "RangeToInclusive") else None

            def piece(l, a, b):
                if not isinstance(a, int) or not (b is None or isinstance(b, int)):
                    raise HwError("text is cut at an unknown place")
                # pieces behind a number of unknown width are only cut at the front
                n = None
                try:
                    n = wlen(l.s)
                except HwError:
                    if b is None and a == 0:
                        return l.s
                    if b is None:
                        return self.tail(l.s, a)
                    return cut(l.s, a, b)
                e = n if b is None else b
                if a > e or e > n:
                    return False
                return cut(l.s, a, e)
            if hi is None:
                res = map2(lambda l, a: leaf(mkbox(piece(l, a, None))), d, lo)
            else:
                res = map2(lambda l, p: leaf(mkbox(piece(l, p.tag[1], p.tag[2]))), d, map2(lambda a, b: leaf(mkopq("rng", a, b)), lo, hi))
            good = map1(lambda x: F if x.tag[1] is False else T, res)
            val = map1(lambda x: leaf(mkstr(x.tag[1] or "")), res)
            if meth == "get":
                return opt(good, val)
            I.oblige(st, "string slice out of range", NOT(good), info["fn"], info["line"])
            if st.pc is F:
                return None
            return val
        return h

    def tail(self, s, a):
        off = 0
        for i, c in enumerate(s):
            if off == a:
                return s[i:]
            if off > a:
                return False
            off += wlen(c)
        return "" if off == a else False


def mkbox(x):
    return mkopq("piece", x)


def str_cat2(x, y):
    if x.__class__ is StrC and y.__class__ is StrC:
        return leaf(mkstr(x.s + y.s))
    if y.__class__ is StrC and y.s == "":
        return leaf(x)
    return leaf(mkopq("cat", x, y))


def opq_res(info):
    return models.opaque_result(None, None, [], info)


TYS = {}


def ty_leaf(ty):
    """A type carried inside a value."""
    TYS[id(ty)] = ty
    return leaf(mkopq("type", id(ty)))


def leaf_ty(v):
    v = ex(v)
    return TYS.get(v.val.tag[1]) if v.__class__ is bdd.N and v.v is None and v.val.__class__ is Opq else None


def display_fn(prog, ty):
    fs = [f for f in prog.fns.values() if f.name.endswith("as std::fmt::Display>::fmt") and f.lty(1).elem is not None and f.lty(1).elem.s == ty.s and f.lty(1).elem.path == ty.path]
    if len(fs) != 1:
        raise HwError("Display of %s not found" % ty.s)
    return fs[0]


def render(R, dom):
    """The listing of the object R assembled: (diagram of strings, condition under which writing succeeds, state)."""
    f = display_fn(R.p, R.objty)
    T_ = Text(R.I)
    st = R.st.copy(AND(R.st.pc, dom))
    ob = leaf(mkref(R.I.alloc(st, R.obj, R.objty, "obj")))
    t = T_.display(st, f, ob)
    if t is None:
        return None, F, st, f
    return t, AND(st.pc, T_.fmt_ok), st, f
