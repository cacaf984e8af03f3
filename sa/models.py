"""Transfer functions for standard-library and third-party callees.

Only callees whose bodies are unavailable, use raw-pointer tricks, or have no effect on
the analysed state are modelled; everything else is analysed from its MIR.
"""
from values import *
import values
import bdd
import re

EXACT = {}
PREFIX = []
REGEX = []


def m(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def pre(*names):
    def d(f):
        for n in names:
            PREFIX.append((n, f))
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            REGEX.append((re.compile(p), f))
        return f
    return d


def install(I):
    I.models.update(EXACT)
    I.prefix_models.extend(PREFIX)
    I.regex_models.extend(REGEX)


def opt(c, v):
    if c is F:
        return EnumV(leaf(0), {0: ()})
    return EnumV(ite(c, leaf(1), leaf(0)), {0: (), 1: (v,)})


NONE = EnumV(leaf(0), {0: ()})


def some(v):
    return EnumV(leaf(1), {1: (v,)})


def ok(v):
    return EnumV(leaf(0), {0: (v,)})


def err(v):
    return EnumV(leaf(1), {1: (v,)})


def result(c, v, e):
    if c is T:
        return ok(v)
    if c is F:
        return err(e)
    return EnumV(ite(c, leaf(0), leaf(1)), {0: (v,), 1: (e,)})


# ---------------------------------------------------------------- panics
def panic(I, st, args, info):
    I.oblige(st, "panic:" + info["ref"]["path"].split("::")[-1], T, info["fn"], info["line"])
    return None


for _n in ("core::panicking::", "std::rt::panic_fmt", "std::rt::begin_panic", "std::option::expect_failed", "std::option::unwrap_failed",
           "std::result::unwrap_failed", "core::slice::index::slice_index_fail", "std::cell::panic_already",
           "alloc::raw_vec::handle_error", "core::str::slice_error_fail", "core::slice::copy_from_slice_impl::len_mismatch",
           "core::num::from_ascii_bytes_radix_panic", "std::alloc::handle_alloc_error", "core::slice::sort::shared::smallsort::panic_on",
           "core::num::imp::int_log10::panic", "alloc::slice::", "core::num::from_str_radix_panic"):
    PREFIX.append((_n, panic))


@pre("std::process::exit", "std::process::abort", "std::intrinsics::abort")
def diverge(I, st, args, info):
    return None


# ---------------------------------------------------------------- no effect
@rx(r"::precondition_check$")
@m("std::intrinsics::cold_path", "std::intrinsics::assert_inhabited", "std::intrinsics::assume", "std::hint::assert_unchecked",
   "std::io::_print", "std::io::_eprint", "std::intrinsics::black_box")
def nop(I, st, args, info):
    return UNIT


@m("std::intrinsics::ub_checks")
def ubc(I, st, args, info):
    return F


@m("std::hint::must_use", "anyhow::__private::must_use", "std::intrinsics::likely", "std::intrinsics::unlikely", "std::convert::identity")
def ident(I, st, args, info):
    return args[0]


@m("anyhow::__private::not")
@rx(r"^<bool as anyhow::__private::not::Bool>::not$")
def any_not(I, st, args, info):
    return NOT(I.cond(args[0]))


@m("std::intrinsics::select_unpredictable")
def sel_unp(I, st, args, info):
    return merge(I.cond(args[0]), args[1], args[2])


def opaque_result(I, st, args, info):
    """A value computed without touching analysed state (formatting, logging, ...)."""
    ty = info["ty"]
    if ty is not None and ty.k == "tuple" and not ty.f:
        return UNIT
    if ty is None:
        return top("fx")
    return SymV(ty, fresh("fx"))


for _n in ("core::fmt::rt::", "std::fmt::Arguments", "std::fmt::format", "std::fmt::Formatter", "anyhow::__private::", "anyhow::error::",
           "anyhow::Error::", "tracing::", "<tracing::", "clap::builder::styling::", "<anyhow::Error as", "anstyle::", "std::fmt::Debug"):
    PREFIX.append((_n, opaque_result))
EXACT["std::string::ToString::to_string"] = opaque_result


@m("<tracing::Level as std::cmp::PartialOrd<tracing::level_filters::LevelFilter>>::le")
def tracing_enabled(I, st, args, info):
    """Logging is an observer: it is switched off unless the analysis asks for it (I.tracing)."""
    return opaque_result(I, st, args, info) if getattr(I, "tracing", False) else F


@m("std::option::Option::<tracing::field::Field>::expect")
def tracing_field(I, st, args, info):
    """Field sets and value sets of one macro invocation always agree."""
    return opaque_result(I, st, args, info)


REGEX.append((re.compile(r" as std::fmt::[A-Za-z]+>::fmt$"), opaque_result))
REGEX.append((re.compile(r"^<.* as anyhow::(Context|context)"), opaque_result))


@rx(r"^<anyhow::Error as std::convert::From<anyhow::Error>>::from$", r"^<T as std::convert::From<T>>::from$", r"^<T as std::convert::Into<U>>::into$")
def from_id(I, st, args, info):
    if "Into<U>" in info["ref"]["path"]:
        return NotImplemented
    return args[0]


@rx(r"^std::str::<impl str>::repeat$", r"^std::slice::<impl \[T\]>::repeat$")
def repeat(I, st, args, info):
    return opaque_result(I, st, args, info)


@m("std::ptr::drop_in_place", "std::mem::drop", "std::mem::forget")
def dropm(I, st, args, info):
    return UNIT


# ---------------------------------------------------------------- integers
def wty(I, info, i=0):
    return I.argtys[i]


@m("std::intrinsics::ctpop")
def ctpop(I, st, args, info):
    w = width(I.argtys[0])

    def f(l):
        if isinstance(l, int):
            return leaf(bin(l).count("1"))
        if isinstance(l, Lin):
            if expandable(l):
                return map1(lambda v: leaf(bin(v).count("1")), expand(l))
            return leaf(atom_lin(atom("ctpop", (l,), 32)))
        return top("ctpop")
    return map1(f, I.num(args[0]))


def isat(op):
    def f(I, st, args, info):
        ty = I.argtys[0]
        w = width(ty)
        r = I.binop(op, args[0], args[1], ty)
        o = I.overflow(op, args[0], args[1], ty)
        if ty.k != "uint":
            b = I.num(args[1])
            if ty.k == "int" and b.v is None and isinstance(b.val, int):
                neg = b.val >> (w - 1)          # a constant: only one end can be passed
                low = (op == "Sub") != bool(neg)
                return ite(o, leaf(1 << (w - 1) if low else (1 << (w - 1)) - 1), r)
            return top("sat")
        return ite(o, leaf((1 << w) - 1 if op == "Add" else 0), r)
    return f


EXACT["std::intrinsics::saturating_add"] = isat("Add")
EXACT["std::intrinsics::saturating_sub"] = isat("Sub")


def iwrap(op):
    def f(I, st, args, info):
        return I.binop(op, args[0], args[1], I.argtys[0])
    return f


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("shl", "Shl"), ("shr", "Shr")):
    EXACT["std::intrinsics::wrapping_" + _n] = iwrap(_o)
    EXACT["std::intrinsics::unchecked_" + _n] = iwrap(_o)
    if _n in ("add", "sub", "mul"):
        def _ov(I, st, args, info, _o=_o):
            ty = I.argtys[0]
            return Agg((I.binop(_o, args[0], args[1], ty), I.overflow(_o, args[0], args[1], ty)))
        EXACT["std::intrinsics::%s_with_overflow" % _n] = _ov
EXACT["std::intrinsics::exact_div"] = iwrap("Div")
EXACT["std::intrinsics::unchecked_div"] = iwrap("Div")
EXACT["std::intrinsics::unchecked_rem"] = iwrap("Rem")


@m("std::intrinsics::integer_max")
def imax(I, st, args, info):
    ty = info["ty"]
    if args:
        return ite(I.compare("Lt", args[0], args[1], ty), I.num(args[1]), I.num(args[0]))
    w = width(ty)
    return leaf((1 << (w - 1)) - 1 if ty.k == "int" else (1 << w) - 1)


@m("std::intrinsics::integer_min")
def imin(I, st, args, info):
    ty = info["ty"]
    if args:
        return ite(I.compare("Lt", args[1], args[0], ty), I.num(args[1]), I.num(args[0]))
    w = width(ty)
    return leaf(1 << (w - 1) if ty.k == "int" else 0)


@m("std::intrinsics::size_of", "std::mem::size_of")
def sizeof(I, st, args, info):
    mm = re.search(r"size_of::<(\w+)>", info["ref"]["name"])
    d = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8, "i64": 8}
    return leaf(d[mm.group(1)]) if mm and mm.group(1) in d else top("sizeof")


# ---------------------------------------------------------------- memory helpers
@m("std::mem::replace")
def replace(I, st, args, info):
    old = I.deref(st, args[0])
    I.store(st, args[0], args[1])
    return old


@m("std::mem::swap")
def swap(I, st, args, info):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    I.store(st, args[0], b)
    I.store(st, args[1], a)
    return UNIT


@m("std::mem::take")
def take(I, st, args, info):
    ty = info["ty"]
    old = I.deref(st, args[0])
    new = default_of(ty)
    if new is None:
        return NotImplemented
    I.store(st, args[0], new)
    return old


def default_of(ty):
    if ty.k == "bool":
        return F
    if ty.k in ("int", "uint"):
        return leaf(0)
    if ty.path in ("std::vec::Vec", "std::collections::VecDeque"):
        return VecV(())
    if ty.path and ty.path.startswith("std::collections::"):
        return MapV(())
    if ty.path == "std::string::String":
        return leaf(mkstr(""))
    if ty.path == "std::option::Option":
        return NONE
    if ty.k == "tuple":
        vs = [default_of(t) for t in ty.fields]
        return None if any(v is None for v in vs) else Agg(vs)
    return None


@m("std::ptr::read", "std::intrinsics::read_via_copy", "std::ptr::read_volatile")
def ptr_read(I, st, args, info):
    return I.deref(st, args[0])


@m("std::ptr::write", "std::intrinsics::write_via_move")
def ptr_write(I, st, args, info):
    I.store(st, args[0], args[1])
    return UNIT


@rx(r"^std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(add|offset|wrapping_add)$")
def ptr_add(I, st, args, info):
    return I.ptr_offset(I.num(args[0]), I.num(args[1]))


# ---------------------------------------------------------------- references to slices
def slen(I, st, l):
    if l.__class__ is StrC:
        return leaf(len(l.s.encode()))
    if l.__class__ is Ref:
        if l.meta is not None and l.meta.__class__ is bdd.N:
            return l.meta
        return I.length(st, l.obj, l.path)
    return leaf(atom_lin(atom("len", (str(l),), 64)))


def ptr(I, v):
    return I.num(I.unwrap(v))


def seq_len(I, st, v):
    return map1(lambda l: slen(I, st, l), ptr(I, v))


@m("core::slice::<impl [T]>::len", "core::str::<impl str>::len")
def slice_len(I, st, args, info):
    return seq_len(I, st, args[0])


def subref(l, off, n):
    if l.__class__ is not Ref:
        return leaf(mkopq("sub", l, off, n))
    p = l.path
    if p and p[-1].__class__ is tuple and p[-1][0] == "sl":
        off = addn(p[-1][1], off)
        p = p[:-1]
    if off is leaf(0):
        return leaf(mkref(l.obj, p, n))
    return leaf(mkref(l.obj, p + (("sl", off),), n))


def elemref(l, idx, meta=None):
    if l.__class__ is not Ref:
        return leaf(mkopq("el", l, idx))
    p = l.path
    if p and p[-1].__class__ is tuple and p[-1][0] == "sl":
        idx = addn(p[-1][1], idx)
        p = p[:-1]
    return leaf(mkref(l.obj, p + (("i", idx),), meta))


def isle(I, a, b):
    """a <= b (usize diagrams)"""
    return map2(lambda x, y: NOT(ult(y, x, 64)) if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) else var(("opqle", str(x), str(y))), a, b)


def islt(I, a, b):
    return map2(lambda x, y: ult(x, y, 64) if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) else var(("opqlt", str(x), str(y))), a, b)


RANGES = {"Range": 2, "RangeFrom": 1, "RangeTo": 1, "RangeFull": 0, "RangeInclusive": 3, "RangeToInclusive": 1}


def range_bounds(I, kind, rv, ln):
    """(start, end, extra-bad)"""
    bad = F
    rv = ex(rv)
    if kind == "Range":
        return rv.v[0], rv.v[1], bad
    if kind == "RangeFrom":
        return rv.v[0], ln, bad
    if kind == "RangeTo":
        return leaf(0), rv.v[0], bad
    if kind == "RangeFull":
        return leaf(0), ln, bad
    if kind == "RangeInclusive":
        e = I.num(rv.v[1])
        return rv.v[0], addn(e, leaf(1)), eqn(e, leaf((1 << 64) - 1))
    if kind == "RangeToInclusive":
        e = I.num(rv.v[0])
        return leaf(0), addn(e, leaf(1)), eqn(e, leaf((1 << 64) - 1))


_RI = re.compile(r"^<std::(?:ops|range)::(\w+)(?:<usize>)? as std::slice::SliceIndex<\[T\]>>::(index|index_mut|get|get_mut)$")


@rx(_RI.pattern)
def slice_range(I, st, args, info):
    mm = _RI.match(info["ref"]["path"])
    kind, what = mm.group(1), mm.group(2)
    if kind not in RANGES:
        return NotImplemented
    return do_slice(I, st, args[1], args[0], kind, what, info)


def do_slice(I, st, base, rng, kind, what, info):
    b = ptr(I, base)
    ln = map1(lambda l: slen(I, st, l), b)
    s, e, bad = range_bounds(I, kind, rng, ln)
    s, e = I.num(s), I.num(e)
    okc = AND(NOT(bad), isle(I, s, e), isle(I, e, ln))
    n = subn(e, s)
    if what in ("index", "index_mut"):
        I.oblige(st, "slice-range", NOT(okc), info["fn"], info["line"])
        if st.pc is F:
            return None
        return map1(lambda l: subref(l, s, n), b)
    return opt(okc, map1(lambda l: subref(l, s, n), b))


@rx(r"^<usize as std::slice::SliceIndex<\[T\]>>::(get|get_mut)$")
def slice_get(I, st, args, info):
    b = ptr(I, args[1])
    i = I.num(args[0])
    ln = map1(lambda l: slen(I, st, l), b)
    return opt(islt(I, i, ln), map1(lambda l: elemref(l, i), b))


@rx(r"^<usize as std::slice::SliceIndex<\[T\]>>::(index|index_mut)$")
def slice_idx(I, st, args, info):
    b = ptr(I, args[1])
    i = I.num(args[0])
    ln = map1(lambda l: slen(I, st, l), b)
    I.oblige(st, "index", NOT(islt(I, i, ln)), info["fn"], info["line"])
    if st.pc is F:
        return None
    return map1(lambda l: elemref(l, i), b)


@rx(r"^<std::vec::Vec<T, A> as std::ops::(Index|IndexMut)<I>>::(index|index_mut)$")
def vec_index(I, st, args, info):
    b = vec_deref(I, st, args[:1], info)
    ty = I.argtys[1]
    if ty.k == "uint":
        return slice_idx(I, st, [args[1], b], info)
    kind = (ty.path or "").rsplit("::", 1)[-1]
    if kind not in RANGES:
        return NotImplemented
    return do_slice(I, st, b, args[1], kind, "index", info)


# ---- slice iterators: (slice reference, next index, end index)
@m("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def slice_iter(I, st, args, info):
    b = ptr(I, args[0])
    return Agg((b, leaf(0), map1(lambda l: slen(I, st, l), b)))


@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next$")
def iter_next(I, st, args, info):
    it = ex(I.deref(st, args[0]))
    if it.__class__ is not Agg or len(it.v) != 3:
        return NotImplemented
    b, i, n = it.v
    i, n = I.num(i), I.num(n)
    c = islt(I, i, n)
    I.store(st, args[0], Agg((b, ite(c, addn(i, leaf(1)), i), n)))
    return opt(c, map1(lambda l: elemref(l, i), I.num(b)))


@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::next_back$")
def iter_next_back(I, st, args, info):
    it = ex(I.deref(st, args[0]))
    if it.__class__ is not Agg or len(it.v) != 3:
        return NotImplemented
    b, i, n = it.v
    i, n = I.num(i), I.num(n)
    c = islt(I, i, n)
    n2 = subn(n, leaf(1))
    I.store(st, args[0], Agg((b, i, ite(c, n2, n))))
    return opt(c, map1(lambda l: elemref(l, n2), I.num(b)))


@rx(r"^<std::slice::Iter(Mut)?<'_, T> as std::iter::(ExactSizeIterator>::len|Iterator>::count)$", r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::(ExactSizeIterator>::len|Iterator>::count)$")
def iter_len(I, st, args, info):
    it = args[0]
    if "len" in info["ref"]["path"][-4:]:
        it = I.deref(st, it)
    it = ex(it)
    return subn(I.num(it.v[2]), I.num(it.v[1]))


@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::size_hint$")
def iter_hint(I, st, args, info):
    it = ex(I.deref(st, args[0]))
    n = subn(I.num(it.v[2]), I.num(it.v[1]))
    return Agg((n, some(n)))


@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::(nth|advance_by)$", r"^<std::slice::Iter<'a, T> as std::clone::Clone>::clone$")
def iter_misc(I, st, args, info):
    p = info["ref"]["path"]
    it = ex(I.deref(st, args[0]))
    if p.endswith("clone"):
        return it
    if p.endswith("nth"):
        b, i, n = it.v
        k = I.num(args[1])
        i, n = I.num(i), I.num(n)
        c = islt(I, k, subn(n, i))
        j = addn(i, k)
        I.store(st, args[0], Agg((b, ite(c, addn(j, leaf(1)), n), n)))
        return opt(c, map1(lambda l: elemref(l, j), I.num(b)))
    return NotImplemented


@rx(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::nth_back$")
def iter_nth_back(I, st, args, info):
    it = ex(I.deref(st, args[0]))
    if it.__class__ is not Agg or len(it.v) != 3:
        return NotImplemented
    b, i, n = it.v
    k, i, n = I.num(args[1]), I.num(i), I.num(n)
    c = islt(I, k, subn(n, i))
    j = subn(subn(n, k), leaf(1))
    I.store(st, args[0], Agg((b, i, ite(c, j, i))))
    return opt(c, map1(lambda l: elemref(l, j), I.num(b)))


def load_bytes(I, st, l, n, start=None):
    out = []
    for i in range(n):
        idx = leaf(i) if start is None else addn(start, leaf(i))
        if l.__class__ is Ref:
            r = elemref(l, idx).val
            out.append(I.read(st, r.obj, r.path))
        else:
            out.append(leaf(mkopq("byte", l, idx)))
    return out


def copy_elems(I, st, dst, src, n, info):
    """dst[..n] = src[..n], n a known number."""
    sv = None
    sp = ptr(I, src)
    for g, l in guards(sp):
        vals = load_bytes(I, st, l, n)
        sv = vals if sv is None else [merge(g, a, b) for a, b in zip(vals, sv)]
    dp = ptr(I, dst)
    gs = guards(dp)
    for g, l in gs:
        for i in range(n):
            if l.__class__ is Ref:
                r = elemref(l, leaf(i)).val
                I.write(st, r.obj, r.path, sv[i], T if len(gs) == 1 else g)


@m("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from_slice(I, st, args, info):
    a, b = seq_len(I, st, args[0]), seq_len(I, st, args[1])
    I.oblige(st, "len-mismatch", NOT(eqn(a, b)), info["fn"], info["line"])
    if st.pc is F:
        return None
    n = a if a.v is None and isinstance(a.val, int) else b
    if n.v is None and isinstance(n.val, int):
        if n.val > 64:
            # whole-array copy
            sp, dp = ptr(I, args[1]), ptr(I, args[0])
            if sp.v is None and dp.v is None and sp.val.__class__ is Ref and dp.val.__class__ is Ref:
                I.write(st, dp.val.obj, dp.val.path, I.read(st, sp.val.obj, sp.val.path))
                return UNIT
        copy_elems(I, st, args[0], args[1], n.val, info)
        return UNIT
    # a length that depends on the state, into a small array: element by element, each where it is within the length
    dp = ptr(I, args[0])
    if dp.v is None and dp.val.__class__ is Ref:
        whole = dp.val.path[:-1] if dp.val.path and dp.val.path[-1].__class__ is tuple and dp.val.path[-1][0] == "sl" else dp.val.path
        cap = I.length(st, dp.val.obj, whole)
        if cap.v is None and isinstance(cap.val, int) and cap.val <= 16:
            sp = guards(ptr(I, args[1]))
            for i in range(cap.val):
                g = islt(I, leaf(i), n)
                v = None
                for h, l in sp:
                    x = load_bytes(I, st, l, 1, leaf(i))[0]
                    v = x if v is None else merge(h, x, v)
                r = elemref(dp.val, leaf(i)).val
                I.write(st, r.obj, r.path, v, g)
            return UNIT
    # copies of unknown length: forget the destination
    I.havoc_reach(st, args[0])
    return UNIT


@rx(r"^<\[T; N\] as std::convert::TryFrom<&\[T\]>>::try_from$", r"^<&'a \[T; N\] as std::convert::TryFrom<&'a \[T\]>>::try_from$",
    r"^<&'a mut \[T; N\] as std::convert::TryFrom<&'a mut \[T\]>>::try_from$", r"^std::array::<impl std::convert::TryFrom<&(.*)\[T\]> for (.*)\[T; N\]>::try_from$")
def arr_try_from(I, st, args, info):
    ty = info["ty"]
    okt = ty.variants[0][2][0][1]
    n = seq_len(I, st, args[0])
    b = ptr(I, args[0])
    if okt.k == "ref":
        k = okt.elem.n
        return result(eqn(n, leaf(k)), b, UNIT)
    k = okt.n
    v = None
    for g, l in guards(b):
        x = Agg(load_bytes(I, st, l, k))
        v = x if v is None else merge(g, x, v)
    return result(eqn(n, leaf(k)), v, UNIT)


@m("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
def as_ptr(I, st, args, info):
    return args[0]


@m("core::slice::<impl [T]>::fill")
def fill(I, st, args, info):
    n = seq_len(I, st, args[0])
    if n.v is None and isinstance(n.val, int) and n.val <= 64:
        for g, l in guards(ptr(I, args[0])):
            for i in range(n.val):
                if l.__class__ is Ref:
                    r = elemref(l, leaf(i)).val
                    I.write(st, r.obj, r.path, args[1], g)
        return UNIT
    I.havoc_reach(st, args[0])
    return UNIT


# ---------------------------------------------------------------- boxes, cells, reference counting
@rx(r"^std::boxed::Box::<T>::new$", r"^std::rc::Rc::<T>::new$", r"^std::sync::Arc::<T>::new$", r"^alloc::boxed::box_new$", r"^std::boxed::box_new$",
    r"^<std::boxed::Box<T> as std::convert::From<T>>::from$", r"^std::boxed::Box::<T>::pin$")
def box_new(I, st, args, info):
    k = I.alloc(st, args[0], I.argtys[0] if I.argtys else None, "box")
    return leaf(mkref(k))


@rx(r"^<std::(rc::Rc|sync::Arc)<T(, A)?> as std::clone::Clone>::clone$")
def rc_clone(I, st, args, info):
    return I.deref(st, args[0])


@rx(r"^<std::(rc::Rc|sync::Arc|boxed::Box)<T(, A)?> as std::(ops::Deref|ops::DerefMut|convert::AsRef<T>|convert::AsMut<T>|borrow::Borrow<T>|borrow::BorrowMut<T>)>::\w+$",
    r"^<std::cell::(Ref|RefMut)<'_, T> as std::ops::(Deref|DerefMut)>::\w+$", r"^<std::cell::(Ref|RefMut)<'b, T> as std::ops::(Deref|DerefMut)>::\w+$")
def smart_deref(I, st, args, info):
    return ptr(I, I.deref(st, args[0]))


@rx(r"^std::rc::Rc::<T(, A)?>::ptr_eq$")
def rc_ptr_eq(I, st, args, info):
    a, b = ptr(I, I.deref(st, args[0])), ptr(I, I.deref(st, args[1]))
    return map2(lambda x, y: T if x is y else (F if x.__class__ is Ref and y.__class__ is Ref else var(("opeq", str(x), str(y)))), a, b)


@m("std::cell::RefCell::<T>::new", "std::cell::Cell::<T>::new", "std::cell::UnsafeCell::<T>::new", "std::cell::RefCell::<T>::into_inner",
   "std::cell::UnsafeCell::<T>::into_inner")
def cell_new(I, st, args, info):
    return args[0]


@m("std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut", "std::cell::RefCell::<T>::get_mut", "std::cell::UnsafeCell::<T>::get",
   "std::cell::Cell::<T>::get_mut", "std::cell::RefCell::<T>::as_ptr")
def cell_borrow(I, st, args, info):
    return ptr(I, args[0])


@m("std::cell::Cell::<T>::get")
def cell_get(I, st, args, info):
    return I.deref(st, args[0])


@m("std::cell::Cell::<T>::set")
def cell_set(I, st, args, info):
    I.store(st, args[0], args[1])
    return UNIT


@m("std::cell::Cell::<T>::replace", "std::cell::RefCell::<T>::replace")
def cell_replace(I, st, args, info):
    return replace(I, st, args, info)


# ---------------------------------------------------------------- vectors
def vec_of(I, st, a):
    return ex(I.deref(st, a))


@rx(r"^std::vec::Vec::<T>::(new|with_capacity)$", r"^std::collections::VecDeque::<T>::(new|with_capacity)$", r"^<std::vec::Vec<T> as std::default::Default>::default$")
def vec_new(I, st, args, info):
    return VecV(())


@m("std::slice::<impl [T]>::into_vec", "std::slice::<impl [T]>::to_vec", "std::slice::hack::into_vec")
def into_vec(I, st, args, info):
    v = I.deref(st, args[0])
    b = ptr(I, args[0])
    n = seq_len(I, st, args[0])
    if n.v is None and isinstance(n.val, int) and n.val <= 4096:
        out = None
        for g, l in guards(b):
            x = VecV(load_bytes(I, st, l, n.val))
            out = x if out is None else merge(g, x, out)
        return out
    return v


@rx(r"^<std::result::Result<T, E> as anyhow::Context<T, E>>::(with_)?context$", r"^<std::option::Option<T> as anyhow::Context<T, .*>>::(with_)?context$", r"^anyhow::Context::(with_)?context$",
    r"^anyhow::context::<impl anyhow::Context<T, .*> for std::(result::Result|option::Option)<T.*>>::(with_)?context$")
def with_context(I, st, args, info):
    """Keeps success and its value; the error becomes an opaque one."""
    v = ex(args[0])
    if v.__class__ is not EnumV or info["ty"] is None or info["ty"].path != "std::result::Result":
        return NotImplemented
    opt_ = I.argtys[0].path == "std::option::Option" if getattr(I, "argtys", None) else False
    good = 1 if opt_ else 0
    d = map1(lambda l: leaf(0 if l == good else 1), v.d)
    ety = info["ty"].gargs[1]
    p = {1: (SymV(ety, fresh("error")),)}
    if good in v.p:
        p[0] = tuple(v.p[good])
    return EnumV(d, p)


PREFIX.append(("anyhow::context::", lambda I, st, args, info: (
    with_context(I, st, args, info) if re.search(r"::(with_)?context$", info["ref"]["path"]) else opaque_result(I, st, args, info))))


@rx(r"^std::boxed::Box::<T>::new_uninit$", r"^alloc::boxed::Box::<T>::new_uninit$")
def box_uninit(I, st, args, info):
    ob = I.alloc(st, Agg((UNIT, Agg((top("uninit"),)))), None, "uninit")
    return leaf(mkref(ob))


@rx(r"^std::boxed::box_assume_init_into_vec_unsafe$", r"^alloc::boxed::box_assume_init_into_vec_unsafe$")
def box_into_vec(I, st, args, info):
    v = ex(I.deref(st, args[0]))
    if v.__class__ is Agg and len(v.v) == 2 and v.v[0] is UNIT:
        v = ex(v.v[1])      # MaybeUninit { value: ManuallyDrop { .. } }
        v = ex(v.v[0])
        return VecV(v.v) if v.__class__ is Agg else NotImplemented
    while v.__class__ is Agg and len(v.v) == 1 and ex(v.v[0]).__class__ is Agg:
        v = ex(v.v[0])
    if v.__class__ is Agg:
        return VecV(v.v)
    return v


@rx(r"^std::vec::Vec::<T, A>::push$", r"^std::collections::VecDeque::<T, A>::push_back$", r"^std::vec::Vec::<T, A>::push_mut$")
def vec_push(I, st, args, info):
    ts = I.ptr_targets(st, args[0])
    for g, o, p, _ in ts:
        v = ex(I.read(st, o, p))
        if v.__class__ is VecV:
            I.write(st, o, p, VecV(v.items + (args[1],)), T if len(ts) == 1 else g)
        elif v.__class__ is values.AltV and all(x.__class__ is VecV for _, x in v.cases):
            I.write(st, o, p, values.AltV((h, VecV(x.items + (args[1],))) for h, x in v.cases), T if len(ts) == 1 else g)
        elif v.__class__ is ArrV:
            n = v.n if v.n.__class__ is bdd.N else leaf(v.n if v.n is not None else mkopq("n", str(v.base)))
            I.write(st, o, p, ArrV(v.base, addn(n, leaf(1)), v.ety, v.stores + ((T, n, args[1]),)), T if len(ts) == 1 else g)
        else:
            I.write(st, o, p, top("push"), g)
    return UNIT


@rx(r"^std::vec::Vec::<T, A>::pop$")
def vec_pop(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v.__class__ is VecV:
        if not v.items:
            return NONE
        I.store(st, args[0], VecV(v.items[:-1]))
        return some(v.items[-1])
    return NotImplemented


@rx(r"^std::vec::Vec::<T, A>::(len|is_empty)$", r"^std::collections::VecDeque::<T, A>::(len|is_empty)$")
def vec_len(I, st, args, info):
    r = None
    for c, o, p, _ in I.ptr_targets(st, args[0]):
        for g, v in I.cases(st, o, p):
            v = ex(v)
            if v.__class__ is VecV:
                n = leaf(len(v.items))
            elif v.__class__ is ArrV and v.n is not None:
                n = v.n if v.n.__class__ is bdd.N else leaf(v.n)
            else:
                n = leaf(atom_lin(atom("len", (str(v)[:200],), 64)))
            r = n if r is None else merge(AND(c, g), n, r)
    return r if info["ref"]["path"].endswith("len") else eqn(r, leaf(0))


@rx(r"^<std::vec::Vec<T, A> as std::ops::(Deref|DerefMut)>::\w+$", r"^std::vec::Vec::<T, A>::(as_slice|as_mut_slice)$", r"^<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref$")
def vec_deref(I, st, args, info):
    b = ptr(I, args[0])

    def f(l):
        if l.__class__ is not Ref:
            return leaf(l)
        n = None
        cs = I.cases(st, l.obj, l.path)
        for g, v in cs:
            v = ex(v)
            if v.__class__ is VecV:
                k = leaf(len(v.items))
            elif v.__class__ is ArrV and v.n is not None:
                k = v.n if v.n.__class__ is bdd.N else leaf(v.n)
            elif v.__class__ is bdd.N and v.v is None and v.val.__class__ in (StrC, Opq) and len(cs) == 1:
                return leaf(mkopq("slice", v.val))
            else:
                k = top("veclen")
            n = k if n is None else merge(g, k, n)
        return leaf(mkref(l.obj, l.path, n))
    return map1(f, b)


@rx(r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"^<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter$",
    r"^(std|core)::array::(iter::)?<impl std::iter::IntoIterator for \[T; N\]>::into_iter$")
def vec_into_iter(I, st, args, info):
    v = ex(args[0])
    k = I.alloc(st, v, None, "vecit")
    if v.__class__ is values.AltV:
        n = I.length(st, k, ())
        return Agg((leaf(mkref(k, (), n)), leaf(0), n))
    if v.__class__ is Agg or v.__class__ is ArrV and not v.n.__class__ is bdd.N and isinstance(v.n, int):
        n = leaf(len(v.v) if v.__class__ is Agg else v.n)
        return Agg((leaf(mkref(k, (), n)), leaf(0), n))
    n = leaf(len(v.items)) if v.__class__ is VecV else (v.n if v.__class__ is ArrV and v.n.__class__ is bdd.N else top("veclen"))
    return Agg((leaf(mkref(k, (), n)), leaf(0), n))


@rx(r"^<std::vec::IntoIter<T, A> as std::iter::Iterator>::next$", r"^<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::next$",
    r"^<std::array::IntoIter<T, N> as std::iter::Iterator>::next$")
def vec_it_next(I, st, args, info):
    it = ex(I.deref(st, args[0]))
    if it.__class__ is not Agg or len(it.v) != 3:
        return NotImplemented
    b, i, n = it.v
    i, n = I.num(i), I.num(n)
    c = islt(I, i, n)
    I.store(st, args[0], Agg((b, ite(c, addn(i, leaf(1)), i), n)))
    r = map1(lambda l: elemref(l, i), I.num(b))
    return opt(c, I.deref(st, r) if c is not F else UNDEF)


@rx(r"^<std::(vec::IntoIter<T, A>|collections::vec_deque::IntoIter<T, A>|array::IntoIter<T, N>) as std::iter::DoubleEndedIterator>::next_back$")
def vec_it_next_back(I, st, args, info):
    it = ex(I.deref(st, args[0]))
    if it.__class__ is not Agg or len(it.v) != 3:
        return NotImplemented
    b, i, n = it.v
    i, n = I.num(i), I.num(n)
    c = islt(I, i, n)
    m = ite(c, subn(n, leaf(1)), n)
    I.store(st, args[0], Agg((b, i, m)))
    r = map1(lambda l: elemref(l, m), I.num(b))
    return opt(c, I.deref(st, r) if c is not F else UNDEF)


# ---------------------------------------------------------------- strings
def sval(I, st, v):
    """Leaf diagram of a string given as &str, String or &String."""
    v = ex(v)
    if v.__class__ is bdd.N:
        def f(l):
            if l.__class__ is Ref:
                x = ex(I.read(st, l.obj, l.path))
                return sval(I, st, x)
            return leaf(l)
        return map1(f, v)
    return top("str")


@rx(r"^<std::string::String as std::ops::(Deref|DerefMut)>::\w+$", r"^std::string::String::(as_str|as_mut_str|as_bytes)$", r"^<std::string::String as std::convert::AsRef<.*>>::as_ref$",
    r"^<std::string::String as std::borrow::Borrow<str>>::borrow$", r"^core::str::<impl str>::as_bytes$", r"^<str as std::convert::AsRef<.*>>::as_ref$")
def str_deref(I, st, args, info):
    return sval(I, st, args[0])


@rx(r"^<std::string::String as std::convert::From<&(mut )?str>>::from$", r"^<str as std::string::ToString>::to_string$", r"^<str as std::string::SpecToString>::spec_to_string$", r"^<std::string::String as std::string::SpecToString>::spec_to_string$", r"^<str as std::borrow::ToOwned>::to_owned$",
    r"^std::str::<impl std::borrow::ToOwned for str>::to_owned$", r"^<std::string::String as std::clone::Clone>::clone$", r"^std::str::<impl str>::(to_owned|into_string)$",
    r"^<T as std::string::ToString>::to_string$", r"^<&str as std::string::SpecToString>::spec_to_string$")
def str_copy(I, st, args, info):
    if info["ref"]["path"].startswith("<T as"):
        if "<str as" in info["ref"]["name"] or "String as" in info["ref"]["name"] or "<&str" in info["ref"]["name"]:
            return sval(I, st, args[0])
        return opaque_result(I, st, args, info)
    return sval(I, st, args[0])


def streq(x, y):
    """Equality of two string leaves, one canonical variable per pair."""
    if x is y:
        return T
    if x.__class__ is StrC and y.__class__ is StrC:
        return T if x.s == y.s else F
    a, b = str(x), str(y)
    return var(("streq",) + ((a, b) if a < b else (b, a)))


def str_pred(name):
    def d(f):
        def h(I, st, args, info):
            a, b = sval(I, st, args[0]), sval(I, st, args[1])

            def g(x, y):
                if x.__class__ is StrC and y.__class__ is StrC:
                    return f(x.s, y.s)
                if isinstance(y, int) and x.__class__ is StrC:
                    return f(x.s, chr(y))
                if name == "eq":
                    return streq(x, y)
                return var(("str" + name, str(x), str(y)))
            return map2(g, a, b)
        return h
    return d


_str_eq = str_pred("eq")(lambda a, b: T if a == b else F)
for _n in (r"^core::str::traits::<impl std::cmp::PartialEq for str>::eq$", r"^<std::string::String as std::cmp::PartialEq(<.*>)?>::eq$",
           r"^<&'a str as std::cmp::PartialEq<std::string::String>>::eq$", r"^<str as std::cmp::PartialEq<std::string::String>>::eq$", r"^<str as std::cmp::PartialEq>::eq$"):
    REGEX.append((re.compile(_n), _str_eq))
EXACT["core::str::<impl str>::contains"] = str_pred("contains")(lambda a, b: T if b in a else F)
EXACT["core::str::<impl str>::starts_with"] = str_pred("starts")(lambda a, b: T if a.startswith(b) else F)
EXACT["core::str::<impl str>::ends_with"] = str_pred("ends")(lambda a, b: T if a.endswith(b) else F)


def str_strip(which):
    def h(I, st, args, info):
        a, b = sval(I, st, args[0]), sval(I, st, args[1])
        if a.v is None and b.v is None and a.val.__class__ is StrC and (b.val.__class__ is StrC or isinstance(b.val, int)):
            s, t = a.val.s, b.val.s if b.val.__class__ is StrC else chr(b.val)
            if which == "prefix":
                return some(leaf(mkstr(s[len(t):]))) if s.startswith(t) else NONE
            return some(leaf(mkstr(s[:len(s) - len(t)]))) if s.endswith(t) else NONE

        def g(x, y):
            return var(("strstrip" + which, str(x), str(y)))
        c = map2(g, a, b)
        return opt(c, map2(lambda x, y: leaf(mkopq("strip" + which, x, y)), a, b))
    return h


EXACT["core::str::<impl str>::strip_prefix"] = str_strip("prefix")
EXACT["core::str::<impl str>::strip_suffix"] = str_strip("suffix")


@m("core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end", "std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_uppercase")
def str_trim(I, st, args, info):
    k = info["ref"]["path"].rsplit("::", 1)[1]
    fs = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "to_lowercase": str.lower, "to_uppercase": str.upper}
    return map1(lambda l: leaf(mkstr(fs[k](l.s))) if l.__class__ is StrC else leaf(mkopq(k, l)), sval(I, st, args[0]))


@rx(r"^core::str::<impl str>::is_empty$", r"^std::string::String::is_empty$")
def str_empty(I, st, args, info):
    return map1(lambda l: (T if not l.s else F) if l.__class__ is StrC else var(("strempty", str(l))), sval(I, st, args[0]))


@m("std::string::String::len")
def string_len(I, st, args, info):
    return map1(lambda l: leaf(len(l.s.encode())) if l.__class__ is StrC else leaf(atom_lin(atom("len", (str(l),), 64))), sval(I, st, args[0]))


@m("std::string::String::new")
def string_new(I, st, args, info):
    return leaf(mkstr(""))


# ---------------------------------------------------------------- clones and comparisons of modelled values
@rx(r"^<std::vec::Vec<T, A> as std::clone::Clone>::clone$", r"^<std::collections::\w+<.*> as std::clone::Clone>::clone$", r"^<anyhow::Error as std::clone::Clone>")
def val_clone(I, st, args, info):
    return I.deref(st, args[0])


@rx(r"^<&'a (mut )?std::(vec::Vec|collections::VecDeque)<T, A> as std::iter::IntoIterator>::into_iter$")
def vec_ref_into_iter(I, st, args, info):
    return slice_iter(I, st, [vec_deref(I, st, args, info)], info)


@rx(r"^(core|std)::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$", r"^(core|std)::slice::iter::<impl std::iter::IntoIterator for &(mut )?\[T\]>::into_iter$")
def slice_into_iter(I, st, args, info):
    return slice_iter(I, st, args, info)
