"""Abstract values: decision-diagram scalars, aggregates, enums, arrays, references."""
from bdd import *
import bdd
from terms import *
import terms

SMALL = 64
ARR_SMALL = 8   # arrays of scalars longer than this are kept as (base, stores)


class Ref:
    """A pointer leaf: object key, access path, metadata (slice length diagram / vtable type)."""
    __slots__ = ("obj", "path", "meta")

    def __repr__(self):
        return "&%r%s%s" % (self.obj, "".join("." + repr(p) for p in self.path), "" if self.meta is None else "|%r" % (self.meta,))


_refs = {}


def mkref(obj, path=(), meta=None):
    k = (obj, path, meta)
    r = _refs.get(k)
    if r is None:
        r = Ref()
        r.obj, r.path, r.meta = obj, path, meta
        _refs[k] = r
    return r


class StrC:
    """A string with known content (str, &str and String alike)."""
    __slots__ = ("s",)

    def __repr__(self):
        return "S%r" % self.s


_strs = {}


def mkstr(s):
    r = _strs.get(s)
    if r is None:
        r = StrC()
        r.s = s
        _strs[s] = r
    return r


class Opq:
    """An uninterpreted value: equal tags mean equal values."""
    __slots__ = ("tag",)

    def __repr__(self):
        return "?%s" % (self.tag,)


_opqs = {}


def mkopq(*tag):
    r = _opqs.get(tag)
    if r is None:
        r = Opq()
        r.tag = tag
        _opqs[tag] = r
    return r


class FnP:
    __slots__ = ("key",)

    def __repr__(self):
        return "fn:%s" % self.key


_fnps = {}


def mkfnp(key):
    r = _fnps.get(key)
    if r is None:
        r = FnP()
        r.key = key
        _fnps[key] = r
    return r


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.v))


class EnumV:
    __slots__ = ("d", "p")

    def __init__(self, d, p):
        self.d, self.p = d, p

    def __repr__(self):
        return "enum %r %r" % (self.d, self.p)


class ArrV:
    __slots__ = ("base", "n", "ety", "stores")

    def __init__(self, base, n, ety, stores=()):
        self.base, self.n, self.ety, self.stores = base, n, ety, stores

    def __repr__(self):
        return "arr%r+%d" % (self.base, len(self.stores))


class VecV:
    """A growable sequence with a known number of elements (Vec, VecDeque, ...)."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "vec%r" % (self.items,)


class MapV:
    """A map/set with known keys; ordered by insertion, iteration order unknown if hashed."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)  # ((keyrepr, key, value), ...)

    def __repr__(self):
        return "map%r" % (self.items,)


class AltV:
    """One of several collections of different lengths, by condition; resolved against the path condition when read."""
    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = tuple(cases)

    def __repr__(self):
        return "alt%r" % (self.cases,)


ALTS = [False]      # keep alternatives of collections apart instead of forgetting them


def shape(v):
    return (VecV, len(v.items)) if v.__class__ is VecV else (MapV, tuple(k for k, _, _ in v.items))


def merge_alts(c, a, b):
    cases = []
    for g, v in ([(AND(c, x), y) for x, y in a.cases] if a.__class__ is AltV else [(c, a)]) + ([(AND(NOT(c), x), y) for x, y in b.cases] if b.__class__ is AltV else [(NOT(c), b)]):
        if g is F:
            continue
        for i, (h, w) in enumerate(cases):
            if shape(w) == shape(v):
                cases[i] = (OR(g, h), w if w is v else merge(g, v, w))
                break
        else:
            cases.append((g, v))
    return cases[0][1] if len(cases) == 1 else AltV(cases)


def resolve_alts(v, pc):
    for g, x in v.cases:
        if not feasible(AND(pc, NOT(g))):
            return x
    return v


class SymV:
    __slots__ = ("ty", "name")

    def __init__(self, ty, name):
        self.ty, self.name = ty, name

    def __repr__(self):
        return "sym<%s>%s" % (self.ty.s, self.name)


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()
UNIT = Agg(())

TRANSPARENT = {
    "std::ptr::NonNull", "std::ptr::Unique", "core::ptr::Unique", "std::boxed::Box", "std::mem::ManuallyDrop",
    "std::cell::RefCell", "std::cell::Cell", "std::cell::UnsafeCell", "std::mem::MaybeDangling", "core::mem::MaybeDangling",
    "std::cell::SyncUnsafeCell",
}
OPAQUE = {
    "std::string::String", "std::vec::Vec", "std::collections::HashMap", "std::collections::HashSet",
    "std::collections::BTreeMap", "std::collections::BTreeSet", "std::collections::VecDeque", "anyhow::Error",
    "std::rc::Rc", "std::sync::Arc",
}

symobj = {}   # symbolic object name -> pointee type
_fresh = [0]


def fresh(prefix="t"):
    _fresh[0] += 1
    return "%s#%d" % (prefix, _fresh[0])


def width(ty):
    k = ty.k
    if k == "bool":
        return 1
    if k in ("int", "uint"):
        return ty.bits
    if k == "char":
        return 32
    return None


def top(why="top"):
    return leaf(mkopq(fresh(why)))


def enum_sym(name, n):
    """Symbolic variant index in 0..n-1."""
    if n <= 1:
        return leaf(0)
    w = (n - 1).bit_length()
    a = atom("in", (name + "#d",), w)
    return map1(lambda v: leaf(min(v, n - 1)), expand_atom(a, w))


def inner_ty(ty):
    """Type wrapped by a transparent struct/union."""
    if ty.path in ("std::ptr::NonNull", "std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "std::ptr::Unique", "core::ptr::Unique"):
        return ty.gargs[0]
    return None


_symexp = {}


def expand_sym(v):
    k0 = (id(v.ty), v.name)
    r = _symexp.get(k0)
    if r is None:
        r = _expand_sym(v)
        _symexp[k0] = r
    return r


def _expand_sym(v):
    ty, nm = v.ty, v.name
    k = ty.k
    if k == "bool":
        return var(("bit", atom("in", (nm,), 1), 0))
    if k in ("int", "uint", "char"):
        return inp(nm, width(ty))
    if k in ("ref", "ptr"):
        e = ty.elem
        if e.k == "str":
            return leaf(mkopq("str", nm))
        o = ("sym", nm + ".*")
        symobj[nm + ".*"] = e
        if e.k == "slice":
            return leaf(mkref(o, (), inp(nm + ".len", 64)))
        if e.k == "dyn":
            return leaf(mkref(o, (), ("dynsym", nm)))
        return leaf(mkref(o))
    if k == "array":
        if ty.n is not None and ty.n <= (ARR_SMALL if (width(ty.elem) or 0) > 8 else 16 if width(ty.elem) else SMALL):
            return Agg(SymV(ty.elem, "%s[%d]" % (nm, i)) for i in range(ty.n))
        return ArrV(("sym", nm), ty.n, ty.elem)
    if k in ("tuple", "closure"):
        return Agg(SymV(t, "%s.%d" % (nm, i)) for i, t in enumerate(ty.fields))
    if k == "struct":
        if ty.path in ("std::rc::Rc", "std::sync::Arc", "std::boxed::Box", "std::ptr::NonNull"):
            o = ("sym", nm + ".*")
            symobj[nm + ".*"] = ty.gargs[0]
            return leaf(mkref(o, (), ("dynsym", nm) if ty.gargs[0].k == "dyn" else None))
        if ty.path in OPAQUE:
            return leaf(mkopq("in", nm, ty.s))
        if ty.path in ("std::cell::RefCell", "std::cell::Cell", "std::cell::UnsafeCell", "std::mem::ManuallyDrop"):
            g = ty.gargs[0]
            return expand_sym(SymV(g, nm))
        return Agg(SymV(t, "%s.%s" % (nm, f)) for f, t in ty.variants[0][2])
    if k == "enum":
        vs = ty.variants
        d = enum_sym(nm, len(vs))
        return EnumV(d, {i: tuple(SymV(t, "%s.%s.%s" % (nm, n, f)) for f, t in fs) for i, (n, _, fs) in enumerate(vs)})
    return leaf(mkopq("in", nm, ty.s))


def ex(v):
    return expand_sym(v) if v.__class__ is SymV else v


def merge(c, a, b):
    """a where c, else b."""
    if a is b or c is T:
        return a
    if c is F:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    ca, cb = a.__class__, b.__class__
    if ca is SymV and cb is SymV and a.ty is b.ty and a.name == b.name:
        return a
    if ca is SymV:
        a = expand_sym(a)
        ca = a.__class__
    if cb is SymV:
        b = expand_sym(b)
        cb = b.__class__
    if a is b:
        return a
    if ALTS[0] and ca in (VecV, MapV, AltV) and cb in (VecV, MapV, AltV) and (ca is AltV or cb is AltV or shape(a) != shape(b)):
        return merge_alts(c, a, b)
    if ca is not cb:
        if ca is ArrV and cb is Agg and a.n == len(b.v):
            a, ca = Agg(aget(a, leaf(i)) for i in range(a.n)), Agg
        elif cb is ArrV and ca is Agg and b.n == len(a.v):
            b = Agg(aget(b, leaf(i)) for i in range(b.n))
        else:
            return top("mix")
    if ca is bdd.N:
        return ite(c, a, b)
    if ca is Agg:
        if len(a.v) != len(b.v):
            return top("mixagg")
        ch = [merge(c, x, y) for x, y in zip(a.v, b.v)]
        if all(x is y for x, y in zip(ch, a.v)):
            return a
        if all(x is y for x, y in zip(ch, b.v)):
            return b
        return Agg(ch)
    if ca is EnumV:
        d = ite(c, a.d, b.d)
        p = dict(a.p)
        for k, fb in b.p.items():
            fa = p.get(k)
            p[k] = fb if fa is None else tuple(merge(c, x, y) for x, y in zip(fa, fb))
        return EnumV(d, p)
    if ca is ArrV:
        if a.base != b.base or (a.n is not b.n and a.n != b.n):
            return top("mixarr")
        n = 0
        sa, sb = a.stores, b.stores
        while n < len(sa) and n < len(sb) and (sa[n] is sb[n] or (sa[n][0] is sb[n][0] and sa[n][1] is sb[n][1] and sa[n][2] is sb[n][2])):
            n += 1
        st = list(sa[:n])
        nc = NOT(c)
        for g, i, v in sa[n:]:
            g = AND(g, c)
            if g is not F:
                st.append((g, i, v))
        for g, i, v in sb[n:]:
            g = AND(g, nc)
            if g is not F:
                st.append((g, i, v))
        return ArrV(a.base, a.n, a.ety, tuple(st))
    if ca is VecV:
        if len(a.items) != len(b.items):
            return top("mixvec")
        return VecV(merge(c, x, y) for x, y in zip(a.items, b.items))
    if ca is MapV:
        if [k for k, _, _ in a.items] != [k for k, _, _ in b.items]:
            return top("mixmap")
        return MapV((k, merge(c, x, y), merge(c, u, w)) for (k, x, u), (_, y, w) in zip(a.items, b.items))
    return top("mix")


def same(a, b):
    if a is b:
        return True
    if a.__class__ is SymV and b.__class__ is SymV:
        return a.ty is b.ty and a.name == b.name
    a, b = ex(a), ex(b)
    if a is b:
        return True
    ca = a.__class__
    if ca is not b.__class__:
        return False
    if ca is Agg:
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if ca is EnumV:
        if a.d is not b.d:
            return False
        for k in a.p:
            if k in b.p and not all(same(x, y) for x, y in zip(a.p[k], b.p[k])):
                return False
        return True
    if ca is ArrV:
        return a.base == b.base and len(a.stores) == len(b.stores) and all(
            x[0] is y[0] and x[1] is y[1] and x[2] is y[2] for x, y in zip(a.stores, b.stores))
    if ca is VecV:
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if ca is MapV:
        return len(a.items) == len(b.items) and all(x[0] == y[0] and same(x[2], y[2]) for x, y in zip(a.items, b.items))
    return False


def const_cases(idx, w=64, lim=10):
    """[(guard, int)] for an index diagram, or None if some leaf is not enumerable."""
    out = []
    for g, l in guards(idx):
        if isinstance(l, int):
            out.append((g, l))
        elif isinstance(l, Lin) and expandable(l, lim):
            e = expand(l)
            for g2, l2 in guards(e):
                g3 = AND(g, g2)
                if g3 is not F:
                    out.append((g3, l2))
        else:
            return None
    return out


def eqn(a, b, w=64):
    return map2(lambda x, y: (T if x is y else (eq(x, y, w) if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) else var(("opeq", str(x), str(y))))), a, b)


def addn(a, b, w=64):
    if a.v is None and a.val == 0 and isinstance(a.val, int):
        return b
    if b.v is None and b.val == 0 and isinstance(b.val, int):
        return a
    return map2(lambda x, y: op_add(w, x, y) if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) else top("add"), a, b)


def subn(a, b, w=64):
    return map2(lambda x, y: op_sub(w, x, y) if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) else top("sub"), a, b)


def base_get(arr, idx):
    b = arr.base
    if b[0] == "fill":
        return b[1]
    w = width(arr.ety) if arr.ety is not None else None
    if w is None:
        if idx.v is None:
            return SymV(arr.ety, "%s[%r]" % (b[1], idx.val))
        r = None
        for g, l in guards(idx):
            x = SymV(arr.ety, "%s[%r]" % (b[1], l))
            r = x if r is None else merge(g, x, r)
        return r

    def rd(l):
        if not isinstance(l, (int, Lin)):
            return top("sel")
        return leaf(atom_lin(atom("sel", (b[1], l), w)))
    return map1(rd, idx)


def aget(v, idx, depth=0):
    v = ex(v)
    if v.__class__ is Agg or v.__class__ is VecV:
        items = v.v if v.__class__ is Agg else v.items
        if idx.v is None and isinstance(idx.val, int):
            return items[idx.val] if idx.val < len(items) else UNDEF
        cs = const_cases(idx)
        if cs is None:
            r = UNDEF
            for i, x in enumerate(items):
                g = eqn(idx, leaf(i))
                r = x if r is UNDEF else merge(g, x, r)
            return r
        r = UNDEF
        for g, i in cs:
            if i < len(items):
                r = items[i] if r is UNDEF else merge(g, items[i], r)
        return r
    if v.__class__ is ArrV:
        r = base_get(v, idx)
        for g, si, sv in v.stores:
            h = AND(g, eqn(si, idx))
            if h is not F:
                r = merge(h, sv, r)
        return r
    return top("aget")


def aset(v, idx, new, cond):
    v = ex(v)
    if v.__class__ is Agg or v.__class__ is VecV:
        items = list(v.v if v.__class__ is Agg else v.items)
        cs = const_cases(idx)
        if cs is None:
            cs = [(eqn(idx, leaf(i)), i) for i in range(len(items))]
        for g, i in cs:
            if i < len(items):
                items[i] = merge(AND(cond, g), new, items[i])
        return v.__class__(items)
    if v.__class__ is ArrV:
        if cond is F:
            return v
        st = v.stores
        if st and st[-1][1] is idx and cond is T:
            st = st[:-1]
        return ArrV(v.base, v.n, v.ety, st + ((cond, idx, new),))
    return top("aset")
