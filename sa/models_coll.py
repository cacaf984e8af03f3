"""Transfer functions for collections and iterators with known contents."""
from models import *
import models
import functools
import re


class NoRep(Exception):
    pass


def keyrep(I, st, v, depth=0):
    """Hashable, ordered representation of a value that is fully known."""
    v = ex(v)
    if depth > 12:
        raise NoRep()
    if v.__class__ is bdd.N:
        if v.v is not None:
            raise NoRep()
        l = v.val
        if l.__class__ is StrC:
            return ("s", l.s.encode())
        if isinstance(l, int):
            return ("i", l)
        if l.__class__ is Ref:
            if l.meta.__class__ is bdd.N:
                n = l.meta
                if n.v is not None or not isinstance(n.val, int) or n.val > 4096:
                    raise NoRep()
                return ("a",) + tuple(keyrep(I, st, x, depth + 1) for x in load_bytes(I, st, l, n.val))
            return keyrep(I, st, I.read(st, l.obj, l.path), depth + 1)
        raise NoRep()
    if v.__class__ is Agg:
        return ("t",) + tuple(keyrep(I, st, x, depth + 1) for x in v.v)
    if v.__class__ is VecV:
        return ("a",) + tuple(keyrep(I, st, x, depth + 1) for x in v.items)
    if v.__class__ is EnumV and v.d.v is None and isinstance(v.d.val, int):
        return ("e", v.d.val) + tuple(keyrep(I, st, x, depth + 1) for x in v.p.get(v.d.val, ()))
    raise NoRep()


def callf(I, st, fty, fval, fref, av, info):
    """Call a closure / fn item; -> (value, state) or None."""
    while fty.k in ("ref", "ptr"):
        fty = fty.elem
        fref = fval
        fval = I.deref(st, fval)
    if fty.k == "closure":
        if fref is None:
            fref = leaf(mkref(I.alloc(st, fval, fty, "clo")))
        return I.call_fn(st, fty.fn, [fref, Agg(av)], None, info["line"], info["fn"], untuple=True)
    if fty.k == "fndef":
        return I.call_fn(st, fty.fn, list(av), None, info["line"], info["fn"])
    return None


def is_variant(v, k):
    return map1(lambda l: (T if l == k else F) if isinstance(l, int) else var(("isv", l, k)), v.d)


def drive(I, st, itval, its, info, lim=6000):
    """Items an iterator with known contents yields -> (items, state), or None."""
    ks = None
    for c in ([info["fn"].crate] if info["fn"] is not None else []) + list(I.p.crates.values()):
        if its in c.iters:
            ks = c.iters[its]
            break
    if ks is None:
        return None
    nk, ik = ks
    if ik is not None:
        r = I.call_fn(st, ik, [itval], None, info["line"], info["fn"])
        if r is None:
            return None
        itval, st = r
    ob = leaf(mkref(I.alloc(st, itval, None, "drive")))
    items = []
    for _ in range(lim):
        r = I.call_fn(st, nk, [ob], None, info["line"], info["fn"])
        if r is None:
            return None
        v, st = r
        v = ex(v)
        if v.__class__ is not EnumV:
            return None
        c = is_variant(v, 1)
        if not feasible(AND(st.pc, c)):
            return items, st
        if feasible(AND(st.pc, NOT(c))):
            return None
        items.append(v.p[1][0])
    return None


def build_coll(I, st, ty, items):
    p = ty.path
    if p in ("std::vec::Vec", "std::collections::VecDeque"):
        return VecV(items)
    if p == "std::boxed::Box" and ty.gargs[0].k == "slice":
        return None
    if p in ("std::collections::HashSet", "std::collections::BTreeSet"):
        d = {}
        for x in items:
            d.setdefault(keyrep(I, st, x), x)
        return MapV((k, x, UNIT) for k, x in d.items())
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        d = {}
        for x in items:
            x = ex(x)
            d[keyrep(I, st, x.v[0])] = (x.v[0], x.v[1])
        return MapV((k, a, b) for k, (a, b) in d.items())
    return None


def collect_to(I, st, args, info, its, ty):
    """Try to collect; leaves the state untouched when contents are not known."""
    s2 = st.copy()
    n = len(I.obs)
    try:
        r = drive(I, s2, args[0], its, info)
        if r is not None:
            items, s3 = r
            v = build_coll(I, s3, ty, items)
            if v is not None:
                st.mem, st.pc = s3.mem, s3.pc
                return v
    except NoRep:
        pass
    del I.obs[n:]
    return NotImplemented


@rx(r"^<std::(vec::Vec|collections::\w+)<.*> as std::iter::FromIterator<.*>>::from_iter$")
def collect(I, st, args, info):
    ty = info["ty"]
    if ty is None or ty.path not in ("std::vec::Vec", "std::collections::VecDeque", "std::collections::HashSet", "std::collections::BTreeSet",
                                     "std::collections::HashMap", "std::collections::BTreeMap"):
        return NotImplemented
    return collect_to(I, st, args, info, I.argtys[0].s, ty)


@rx(r"^std::iter::Iterator::collect$", r"^<std::(result::Result|option::Option)<.*> as std::iter::FromIterator<.*>>::from_iter$")
def collect_fallible(I, st, args, info, lim=6000):
    """Into Result<collection, E> or Option<collection>: stops at the first failure."""
    ty = info["ty"]
    if ty is None or ty.path not in ("std::result::Result", "std::option::Option"):
        return collect(I, st, args, info) if info["ref"]["path"].endswith("Iterator::collect") else NotImplemented
    isres = ty.path == "std::result::Result"
    ks = None
    its = I.argtys[0].s
    for c in ([info["fn"].crate] if info["fn"] is not None else []) + list(I.p.crates.values()):
        if its in c.iters:
            ks = c.iters[its]
            break
    if ks is None:
        return NotImplemented
    n0 = len(I.obs)
    cur = st.copy()

    def give_up():
        del I.obs[n0:]
        return NotImplemented
    nk, ik = ks
    itval = args[0]
    try:
        if ik is not None:
            r = I.call_fn(cur, ik, [itval], None, info["line"], info["fn"])
            if r is None:
                return give_up()
            itval, cur = r
        ob = leaf(mkref(I.alloc(cur, itval, None, "drive")))
        items, done = [], []
        while True:
            lim -= 1
            r = I.call_fn(cur, nk, [ob], None, info["line"], info["fn"])
            if r is None:
                if cur.pc is not F and not done:
                    return give_up()
                break
            v, cur = r
            v = ex(v)
            if v.__class__ is not EnumV or lim < 0:
                return give_up()
            c = is_variant(v, 1)
            if not feasible(AND(cur.pc, c)):
                w = build_coll(I, cur, ty.gargs[0], items)
                if w is None:
                    return give_up()
                done.append((ok(w) if isres else some(w), cur))
                break
            if feasible(AND(cur.pc, NOT(c))):
                return give_up()
            x = ex(v.p[1][0])
            if x.__class__ is not EnumV:
                return give_up()
            bad = is_variant(x, 1 if isres else 0)
            hit = AND(cur.pc, bad)
            if hit is not F and feasible(hit):
                s2 = cur.copy(hit)
                done.append((err(x.p[1][0]) if isres else NONE, s2))
            good = AND(cur.pc, NOT(bad))
            if good is F or not feasible(good):
                break
            cur.pc = good
            items.append(x.p[0 if isres else 1][0])
    except NoRep:
        return give_up()
    if not done:
        return None
    res, s2 = rejoin(done)
    st.mem, st.pc = s2.mem, s2.pc
    return res


@rx(r"^<std::(vec::Vec|collections::\w+)<.*> as std::iter::Extend<.*>>::extend$")
def extend(I, st, args, info):
    ats = I.argtys
    r = extend_(I, st, args, info)
    if r is NotImplemented and "HashMap" not in info["ref"]["path"] and ex(I.deref(st, args[0])).__class__ is VecV:
        # contents unknown from here on
        I.havoc_reach(st, args[0])
        return UNIT
    I.argtys = ats
    return r


def extend_(I, st, args, info):
    if len(I.argtys) > 1 and I.argtys[1].k == "array" and ex(args[1]).__class__ is Agg:
        cur = ex(I.deref(st, args[0]))
        if cur.__class__ is VecV:
            I.store(st, args[0], VecV(cur.items + tuple(ex(args[1]).v)))
            return UNIT
    its = I.argtys[1].s
    s2 = st.copy()
    try:
        r = drive(I, s2, args[1], its, info)
        if r is None:
            return NotImplemented
        items, s3 = r
        cur = ex(I.deref(s3, args[0]))
        if cur.__class__ is VecV:
            nv = VecV(cur.items + tuple(items))
        elif cur.__class__ is MapV:
            d = {k: (a, b) for k, a, b in cur.items}
            isset = "Set" in info["ref"]["path"].split(" as ")[0]
            for x in items:
                if isset:
                    d.setdefault(keyrep(I, s3, x), (x, UNIT))
                else:
                    x = ex(x)
                    d[keyrep(I, s3, x.v[0])] = (x.v[0], x.v[1])
            nv = MapV((k, a, b) for k, (a, b) in d.items())
        else:
            return NotImplemented
    except NoRep:
        return NotImplemented
    st.mem, st.pc = s3.mem, s3.pc
    I.store(st, args[0], nv)
    return UNIT


# ---------------------------------------------------------------- (buffer, next, end) iterators
BASE = (r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::",
        r"^<std::vec::IntoIter<T, A> as std::iter::Iterator>::",
        r"^<std::collections::(hash_map|hash_set|btree_map|btree_set|btree::map|btree::set|vec_deque)::\w+<.*> as std::iter::Iterator>::",
        r"^<std::array::IntoIter<T, N> as std::iter::Iterator>::")


def base_items(I, st, it, byref):
    """Items of a (buffer, i, n) iterator with known bounds."""
    it = ex(it)
    if it.__class__ is not Agg or len(it.v) != 3:
        return None
    b, i, n = I.num(it.v[0]), I.num(it.v[1]), I.num(it.v[2])
    if i.v is not None or n.v is not None or not isinstance(i.val, int) or not isinstance(n.val, int) or n.val - i.val > 6000:
        return None
    out = []
    for k in range(i.val, n.val):
        r = map1(lambda l: elemref(l, leaf(k)), b)
        out.append(r if byref else I.deref(st, r))
    return out


def rejoin(parts):
    """Merge [(value, state)]."""
    res = st = None
    for v, s in parts:
        if st is None:
            res, st = v, s
        else:
            st.mem["$ret"] = res
            s.mem["$ret"] = v
            st = merge_states_(st, s)
            res = st.mem.pop("$ret")
    return res, st


def merge_states_(a, b):
    import interp
    return interp.merge_states(a, b)


@rx(*[p + r"(all|any|find|find_map|position|fold|for_each|count|last|max|min)$" for p in BASE])
def base_consume(I, st, args, info):
    path = info["ref"]["path"]
    what = path.rsplit("::", 1)[1]
    byself = what in ("fold", "for_each", "count", "last", "max", "min")
    byref = "slice::Iter" in path
    argtys = list(I.argtys)
    it = args[0] if byself else I.deref(st, args[0])
    items = base_items(I, st, it, byref)
    if items is None:
        return NotImplemented
    if what == "count":
        return leaf(len(items))
    if what == "last":
        return some(items[-1]) if items else NONE
    if what in ("max", "min"):
        try:
            ks = [keyrep(I, st, x) for x in items]
        except NoRep:
            return NotImplemented
        if not items:
            return NONE
        best = 0
        for i, k in enumerate(ks):
            if (k >= ks[best]) if what == "max" else (k < ks[best]):
                best = i
        return some(items[best])
    fi = 2 if what == "fold" else 1
    fval, fty = args[fi], argtys[fi]
    fref = leaf(mkref(I.alloc(st, fval, fty, "clo"))) if fty.k == "closure" else None
    if what in ("fold", "for_each"):
        acc = args[1] if what == "fold" else UNIT
        for x in items:
            r = callf(I, st, fty, fval, fref, [acc, x] if what == "fold" else [x], info)
            if r is None:
                return None if st.pc is F else NotImplemented
            acc, s2 = r
            st.mem, st.pc = s2.mem, s2.pc
        return acc if what == "fold" else UNIT
    # short-circuiting consumers
    obj = args[0]
    done = []
    cur = st.copy()
    ity = ex(it)
    for k, x in enumerate(items):
        if what == "find":
            xa = leaf(mkref(I.alloc(cur, x, None, "item")))
        else:
            xa = x
        r = callf(I, cur, fty, fval, fref, [xa], info)
        if r is None:
            cur = None
            break
        v, cur = r
        if what == "find_map":
            v = ex(v)
            if v.__class__ is not EnumV:
                return NotImplemented
            c = is_variant(v, 1)
        else:
            c = I.cond(v)
            if what == "all":
                c = NOT(c)
        hit = AND(cur.pc, c)
        if hit is not F and feasible(hit):
            s2 = cur.copy(hit)
            res = {"find": lambda: some(x), "find_map": lambda: v, "any": lambda: T, "all": lambda: F, "position": lambda: some(leaf(k))}[what]()
            I.store(s2, obj, Agg((ity.v[0], addn(I.num(ity.v[1]), leaf(k + 1)), ity.v[2])))
            done.append((res, s2))
        cur.pc = AND(cur.pc, NOT(c))
        if cur.pc is F or not feasible(cur.pc):
            cur = None
            break
    if cur is not None:
        I.store(cur, obj, Agg((ity.v[0], ity.v[2], ity.v[2])))
        done.append((F if what == "any" else T if what == "all" else NONE, cur))
    if not done:
        return None
    res, s2 = rejoin(done)
    st.mem, st.pc = s2.mem, s2.pc
    return res


@rx(*[p + "next$" for p in BASE[2:3]])
def coll_next(I, st, args, info):
    return vec_it_next(I, st, args, info)


@rx(*[p + "size_hint$" for p in BASE[1:]])
def coll_hint(I, st, args, info):
    return iter_hint(I, st, args, info)


@rx(r"^<std::(iter|slice|vec)::\w+<.*> as std::clone::Clone>::clone$")
def iter_clone(I, st, args, info):
    if "slice::Iter" in info["ref"]["path"] or "vec::IntoIter" in info["ref"]["path"]:
        return I.deref(st, args[0])
    return NotImplemented


@rx(r"^std::slice::<impl \[T\]>::(iter|iter_mut)$")
def slice_iter2(I, st, args, info):
    return slice_iter(I, st, args, info)


# ---------------------------------------------------------------- maps and sets
MAPS = r"^std::collections::(HashMap|BTreeMap)::<K, V(, \w+)*>::"
SETS = r"^std::collections::(HashSet|BTreeSet)::<T(, \w+)*>::"


def mapv(I, st, a):
    v = ex(I.deref(st, a))
    return v if v.__class__ is MapV else None


def ordered(I, info, v, hashed):
    items = list(v.items)
    if hashed:
        I.hash_iters = getattr(I, "hash_iters", [])
        I.hash_iters.append((info["fn"], info["line"], info["ref"]["path"]))
        f = getattr(I, "hash_perm", None)
        return f(items) if f is not None else items
    return sorted(items, key=lambda t: t[0])


def coll_iter(I, st, vals):
    k = I.alloc(st, VecV(vals), None, "collit")
    n = leaf(len(vals))
    return Agg((leaf(mkref(k, (), n)), leaf(0), n))


@rx(MAPS + r"(new|with_capacity)$", SETS + r"(new|with_capacity)$", r"^<std::collections::\w+<.*> as std::default::Default>::default$")
def map_new(I, st, args, info):
    if info["ty"] is not None and info["ty"].path == "std::collections::VecDeque":
        return VecV(())
    return MapV(())


@rx(r"^std::rc::Rc::<T(, A)?>::clone$")
def rcc(I, st, args, info):
    return I.deref(st, args[0])


def one(I, a):
    b = ptr(I, a)
    return b.val if b.v is None and b.val.__class__ is Ref else None


def kpath(r, kr):
    return leaf(mkref(r.obj, r.path + (("k", kr),)))


@rx(MAPS + r"(insert|remove|get|get_mut|contains_key|entry|len|is_empty|clear|iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|get_or_insert_with|get_key_value|first_key_value|last_key_value|range)$",
    SETS + r"(insert|remove|contains|len|is_empty|clear|iter|drain|get|take|replace|first|last|range)$")
def map_op(I, st, args, info):
    path = info["ref"]["path"]
    what = path.rsplit("::", 1)[1]
    isset = "Set::" in path
    hashed = "Hash" in path
    r = one(I, args[0])
    v = mapv(I, st, args[0]) if not what.startswith("into_") else ex(args[0])
    if v is None or v.__class__ is not MapV or (r is None and not what.startswith("into_")):
        return map_opaque(I, st, args, info, what)
    try:
        if what == "len":
            return leaf(len(v.items))
        if what == "is_empty":
            return T if not v.items else F
        if what == "clear":
            I.store(st, args[0], MapV(()))
            return UNIT
        if what in ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain"):
            its = ordered(I, info, v, hashed)
            if what in ("into_keys",) or (isset and what == "drain"):
                vals = [k for _, k, _ in its]
            elif what == "into_values":
                vals = [x for _, _, x in its]
            elif what == "drain":
                vals = [Agg((k, x)) for _, k, x in its]
            elif what in ("values", "values_mut"):
                vals = [kpath(r, kr) for kr, _, _ in its]
            elif what == "keys" or isset:
                vals = [leaf(mkref(I.alloc(st, k, None, "key"))) for _, k, _ in its]
            else:
                vals = [Agg((leaf(mkref(I.alloc(st, k, None, "key"))), kpath(r, kr))) for kr, k, _ in its]
            if what == "drain":
                I.store(st, args[0], MapV(()))
            return coll_iter(I, st, vals)
        if what in ("first", "last", "first_key_value", "last_key_value"):
            its = ordered(I, info, v, False)
            if not its:
                return NONE
            kr, k, x = its[0 if what.startswith("first") else -1]
            kref = leaf(mkref(I.alloc(st, k, None, "key")))
            return some(kref if isset else Agg((kref, kpath(r, kr))))
        if what == "range":
            inside = bounds(I, st, args[1], I.argtys[1])
            if inside is None:
                return map_opaque(I, st, args, info, what)
            its = [t for t in ordered(I, info, v, False) if inside(t[0])]
            kref = lambda k: leaf(mkref(I.alloc(st, k, None, "key")))
            return coll_iter(I, st, [kref(k) if isset else Agg((kref(k), kpath(r, kr))) for kr, k, _ in its])
        if len(args) < 2 or what in ("retain", "get_or_insert_with", "replace"):
            return map_opaque(I, st, args, info, what)
        kr = keyrep(I, st, args[1])
    except NoRep:
        return map_opaque(I, st, args, info, what)
    hit = next((t for t in v.items if t[0] == kr), None)
    if what == "insert":
        if isset:
            if hit is None:
                I.store(st, args[0], MapV(v.items + ((kr, args[1], UNIT),)))
            return T if hit is None else F
        if hit is None:
            I.store(st, args[0], MapV(v.items + ((kr, args[1], args[2]),)))
            return NONE
        I.store(st, args[0], MapV((a, b, args[2] if a == kr else c) for a, b, c in v.items))
        return some(hit[2])
    if what in ("remove", "take"):
        I.store(st, args[0], MapV(t for t in v.items if t[0] != kr))
        if isset and what == "remove":
            return F if hit is None else T
        return NONE if hit is None else some(hit[1] if isset else hit[2])
    if what in ("contains", "contains_key"):
        return F if hit is None else T
    if what in ("get", "get_mut"):
        if isset:
            return NONE if hit is None else some(leaf(mkref(I.alloc(st, hit[1], None, "key"))))
        return NONE if hit is None else some(kpath(r, kr))
    if what == "entry":
        return Agg((leaf(r), args[1], leaf(mkopq("kr", kr))))
    return map_opaque(I, st, args, info, what)


def bounds(I, st, v, ty):
    """Whether a known key representation is within a range value."""
    v = ex(v)
    p = (ty.path or "").rsplit("::", 1)[-1]
    if v.__class__ is not Agg:
        return None
    ks = [keyrep(I, st, x) for x in v.v[:2]] if p in ("Range", "RangeFrom", "RangeTo", "RangeInclusive", "RangeToInclusive") else []
    if p == "RangeFrom":
        return lambda k: k >= ks[0]
    if p == "RangeTo":
        return lambda k: k < ks[0]
    if p == "RangeToInclusive":
        return lambda k: k <= ks[0]
    if p == "Range":
        return lambda k: ks[0] <= k < ks[1]
    if p == "RangeInclusive":
        return lambda k: ks[0] <= k <= ks[1]
    if p == "RangeFull":
        return lambda k: True
    return None


def map_opaque(I, st, args, info, what):
    if what in ("insert", "remove", "clear", "get_mut", "entry", "drain", "retain", "iter_mut", "values_mut", "take", "replace"):
        I.havoc_reach(st, args[0])
    ty = info["ty"]
    if ty is None:
        return top("map")
    if ty.k == "tuple" and not ty.f:
        return UNIT
    if what in ("get", "contains_key", "contains") and len(args) > 1:
        # equal queries of an unmodified map give equal answers
        try:
            kr = keyrep(I, st, args[1])
        except NoRep:
            kr = repr(ex(I.deref(st, args[1])))[:400] if ex(args[1]).__class__ is bdd.N else fresh("k")
        m = ex(I.deref(st, args[0]))
        return SymV(ty, "map:%s:%s:%s" % (what, repr(m)[:200], kr))
    return SymV(ty, fresh("map"))


@rx(r"^std::collections::(hash_map|btree_map)::Entry::<'a, K, V(, A)?>::(or_default|or_insert|or_insert_with)$")
def entry_or(I, st, args, info):
    e = ex(args[0])
    if e.__class__ is not Agg or len(e.v) != 3:
        return NotImplemented
    r, key, kq = e.v
    r = r.val
    kr = kq.val.tag[1]
    v = ex(I.read(st, r.obj, r.path))
    if not any(t[0] == kr for t in v.items):
        what = info["ref"]["path"].rsplit("::", 1)[1]
        if what == "or_insert":
            d = args[1]
        elif what == "or_default":
            ga = I.argtys[0].gargs
            d = default_of(ga[1]) if len(ga) > 1 else None
            if d is None:
                return NotImplemented
        else:
            q = callf(I, st, I.argtys[1], args[1], None, [], info)
            if q is None:
                return None
            d, s2 = q
            st.mem, st.pc = s2.mem, s2.pc
            v = ex(I.read(st, r.obj, r.path))
        I.write(st, r.obj, r.path, MapV(v.items + ((kr, key, d),)))
    return kpath(r, kr)


@rx(r"^std::collections::(hash_map|btree_map)::Entry::<'a, K, V(, A)?>::and_modify$")
def entry_mod(I, st, args, info):
    e = ex(args[0])
    if e.__class__ is not Agg or len(e.v) != 3:
        return NotImplemented
    r, kr = e.v[0].val, e.v[2].val.tag[1]
    v = ex(I.read(st, r.obj, r.path))
    if any(t[0] == kr for t in v.items):
        q = callf(I, st, I.argtys[1], args[1], None, [kpath(r, kr)], info)
        if q is None:
            return None
        st.mem, st.pc = q[1].mem, q[1].pc
    return e


@rx(r"^<std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)<.*> as std::iter::IntoIterator>::into_iter$",
    r"^<&'a (mut )?std::collections::(HashMap|HashSet|BTreeMap|BTreeSet)<.*> as std::iter::IntoIterator>::into_iter$")
def map_into_iter(I, st, args, info):
    path = info["ref"]["path"]
    isset = "Set<" in path
    if path.startswith("<&"):
        v = mapv(I, st, args[0])
        r = one(I, args[0])
        if v is None or r is None:
            return NotImplemented
        its = ordered(I, info, v, "Hash" in path)
        kref = lambda k: leaf(mkref(I.alloc(st, k, None, "key")))
        return coll_iter(I, st, [kref(k) if isset else Agg((kref(k), kpath(r, kr))) for kr, k, _ in its])
    v = ex(args[0])
    if v.__class__ is not MapV:
        return NotImplemented
    its = ordered(I, info, v, "Hash" in path)
    return coll_iter(I, st, [k if isset else Agg((k, x)) for _, k, x in its])


# ---------------------------------------------------------------- vectors
def retain(I, st, args, its, info):
    """Every element kept or not by its condition: one state per number of kept elements."""
    fval, fty = args[1], I.argtys[1]
    fref = leaf(mkref(I.alloc(st, fval, fty, "clo"))) if fty.k == "closure" else None
    byn = {0: ((), st.copy())}
    for x in its:
        nxt = {}

        def put(kept, s):
            q = nxt.get(len(kept))
            if q is None:
                nxt[len(kept)] = (kept, s)
            else:
                t, s2 = rejoin([(Agg(q[0]), q[1]), (Agg(kept), s)])
                nxt[len(kept)] = (t.v, s2)
        for kept, s in byn.values():
            r = callf(I, s, fty, fval, fref, [leaf(mkref(I.alloc(s, x, None, "item")))], info)
            if r is None:
                if s.pc is F:
                    continue
                return NotImplemented
            v, s = r
            c = I.cond(v)
            for k, h in ((True, c), (False, NOT(c))):
                h = AND(s.pc, h)
                if feasible(h):
                    put(kept + (x,) if k else kept, s.copy(h))
        if len(nxt) > 9:
            return NotImplemented
        byn = nxt
    parts = []
    for kept, s in byn.values():
        I.store(s, args[0], VecV(kept))
        parts.append((UNIT, s))
    if not parts:
        return None
    _, s2 = rejoin(parts)
    st.mem, st.pc = s2.mem, s2.pc
    return UNIT


VEC = r"^std::(vec::Vec|collections::VecDeque)::<T(, A)?>::"


@rx(VEC + r"(pop_front|pop_back|push_front|clear|insert|remove|truncate|append|dedup|extend_from_slice|swap_remove|reserve|shrink_to_fit|drain|retain|contains|first|last|front|back|get|iter|split_off|retain_mut|resize|resize_with|dedup_by|dedup_by_key|splice|extract_if|rotate_left|rotate_right|swap_remove_back|swap_remove_front|make_contiguous)$")
def vec_op(I, st, args, info):
    what = info["ref"]["path"].rsplit("::", 1)[1]
    if what in ("reserve", "shrink_to_fit"):
        return UNIT
    v = vec_of(I, st, args[0])
    if v.__class__ is not VecV:
        if what in ("first", "last", "get", "contains", "front", "back", "iter"):
            return NotImplemented
        I.havoc_reach(st, args[0])
        ty = info["ty"]
        return UNIT if ty is None or (ty.k == "tuple" and not ty.f) else SymV(ty, fresh("vec"))
    its = v.items
    r = one(I, args[0])
    if what == "pop_front":
        if not its:
            return NONE
        I.store(st, args[0], VecV(its[1:]))
        return some(its[0])
    if what == "pop_back":
        if not its:
            return NONE
        I.store(st, args[0], VecV(its[:-1]))
        return some(its[-1])
    if what == "push_front":
        I.store(st, args[0], VecV((args[1],) + its))
        return UNIT
    if what == "clear":
        I.store(st, args[0], VecV(()))
        return UNIT
    if what == "append":
        o = vec_of(I, st, args[1])
        if o.__class__ is VecV:
            I.store(st, args[0], VecV(its + o.items))
            I.store(st, args[1], VecV(()))
            return UNIT
    if what == "extend_from_slice":
        a = I.num(args[1])
        if a.v is None and a.val.__class__ is Ref and a.val.meta.__class__ is bdd.N and a.val.meta.v is None and isinstance(a.val.meta.val, int) and a.val.meta.val <= 4096:
            more = tuple(I.deref(st, leaf(elemref(a.val, leaf(k)))) for k in range(a.val.meta.val))
            I.store(st, args[0], VecV(its + more))
            return UNIT
    if what == "drain" and I.argtys[1].path == "std::ops::RangeFull":
        I.store(st, args[0], VecV(()))
        n = leaf(len(its))
        k = I.alloc(st, VecV(its), None, "drain")
        return Agg((leaf(mkref(k, (), n)), leaf(0), n))
    if what == "dedup":
        try:
            out, lastk = [], None
            for x in its:
                k = keyrep(I, st, x)
                if k != lastk:
                    out.append(x)
                lastk = k
            I.store(st, args[0], VecV(out))
            return UNIT
        except NoRep:
            pass
    if what in ("insert", "remove", "truncate", "swap_remove", "split_off", "resize"):
        n = I.num(args[1])
        if n.v is None and isinstance(n.val, int):
            k = n.val
            if what == "split_off" and k <= len(its):
                I.store(st, args[0], VecV(its[:k]))
                return VecV(its[k:])
            if what == "resize" and k <= 4096:
                I.store(st, args[0], VecV(its[:k] + (args[2],) * (k - len(its))))
                return UNIT
            if what == "truncate":
                I.store(st, args[0], VecV(its[:k]))
                return UNIT
            if what == "insert" and k <= len(its):
                I.store(st, args[0], VecV(its[:k] + (args[2],) + its[k:]))
                return UNIT
            if what in ("remove", "swap_remove") and k < len(its):
                l = list(its)
                x = l[k]
                if what == "remove":
                    del l[k]
                else:
                    l[k] = l[-1]
                    l.pop()
                I.store(st, args[0], VecV(l))
                return x
    if what == "retain":
        return retain(I, st, args, its, info)
    if what in ("first", "front", "last", "back") and r is not None:
        if not its:
            return NONE
        return some(leaf(mkref(r.obj, r.path + (("i", leaf(0 if what in ("first", "front") else len(its) - 1)),))))
    if what == "iter" and r is not None:
        n = leaf(len(its))
        return Agg((leaf(mkref(r.obj, r.path, n)), leaf(0), n))
    if what in ("first", "last", "front", "back", "get", "contains", "iter"):
        return NotImplemented
    # the bodies of the library's own collections say nothing about these values
    I.havoc_reach(st, args[0])
    ty = info["ty"]
    return UNIT if ty is None or (ty.k == "tuple" and not ty.f) else SymV(ty, fresh("vec"))


@rx(r"^(std|core)::slice::<impl \[T\]>::(sort|sort_unstable|sort_by_key|sort_unstable_by_key|sort_by|sort_unstable_by|sort_by_cached_key|reverse)$")
def sort(I, st, args, info):
    what = info["ref"]["path"].rsplit("::", 1)[1]
    r = one(I, args[0])
    if r is None:
        I.havoc_reach(st, args[0])
        return UNIT
    v = ex(I.read(st, r.obj, r.path))
    if v.__class__ not in (VecV, Agg):
        I.havoc_reach(st, args[0])
        return UNIT
    its = list(v.items if v.__class__ is VecV else v.v)
    argtys = list(I.argtys)
    try:
        if what == "reverse":
            its.reverse()
        elif what in ("sort", "sort_unstable"):
            its.sort(key=lambda x: keyrep(I, st, x))
        elif "key" in what:
            ks = []
            for x in its:
                q = callf(I, st, argtys[1], args[1], None, [leaf(mkref(I.alloc(st, x, None, "item")))], info)
                if q is None:
                    raise NoRep()
                st.mem, st.pc = q[1].mem, q[1].pc
                ks.append(keyrep(I, st, q[0]))
            its = [its[i] for i in sorted(range(len(its)), key=lambda i: ks[i])]
        else:
            def cmp(a, b):
                q = callf(I, st, argtys[1], args[1], None, [leaf(mkref(I.alloc(st, a, None, "item"))), leaf(mkref(I.alloc(st, b, None, "item")))], info)
                if q is None:
                    raise NoRep()
                o = ex(q[0])
                st.mem, st.pc = q[1].mem, q[1].pc
                if o.__class__ is EnumV and o.d.v is None:
                    return o.d.val - 1
                raise NoRep()
            its.sort(key=functools.cmp_to_key(cmp))
    except NoRep:
        I.havoc_reach(st, args[0])
        return UNIT
    I.write(st, r.obj, r.path, v.__class__(its))
    return UNIT


@m("core::slice::<impl [T]>::contains")
def slice_contains(I, st, args, info):
    b = ptr(I, args[0])
    n = seq_len(I, st, args[0])
    if b.v is not None or b.val.__class__ is not Ref or n.v is not None or not isinstance(n.val, int) or n.val > 256:
        return NotImplemented
    x = ex(I.deref(st, args[1]))
    out = F
    for y in load_bytes(I, st, b.val, n.val):
        try:
            c = T if keyrep(I, st, y) == keyrep(I, st, x) else F
        except NoRep:
            if x.__class__ is not bdd.N or ex(y).__class__ is not bdd.N:
                return NotImplemented
            a1, b1 = sval(I, st, x), sval(I, st, y)
            c = map2(lambda p, q: streq(p, q) if StrC in (p.__class__, q.__class__) else eqn(leaf(p), leaf(q)), a1, b1)
        out = OR(out, c)
    return out


@m("std::string::String::push_str", "std::string::String::push", "std::string::String::insert_str")
def push_str(I, st, args, info):
    a, b = sval(I, st, args[0]), sval(I, st, args[1])
    if info["ref"]["path"].endswith("insert_str"):
        I.store(st, args[0], top("str"))
        return UNIT
    I.store(st, args[0], map2(str_cat, a, b))
    return UNIT


def str_cat(x, y):
    if x.__class__ is StrC and y.__class__ is StrC:
        return leaf(mkstr(x.s + y.s))
    if x.__class__ is StrC and isinstance(y, int):
        return leaf(mkstr(x.s + chr(y)))
    return leaf(mkopq("cat", x, y))


@rx(r"^<std::string::String as std::ops::Add<&str>>::add$")
def str_add(I, st, args, info):
    return map2(str_cat, sval(I, st, args[0]), sval(I, st, args[1]))


@rx(r"^<std::string::String as std::ops::AddAssign<&str>>::add_assign$")
def str_add_assign(I, st, args, info):
    I.store(st, args[0], map2(str_cat, sval(I, st, args[0]), sval(I, st, args[1])))
    return UNIT


@rx(r"^std::cmp::impls::<impl std::cmp::PartialEq<&.*B> for &.*A>::(eq|ne)$")
def ref_eq(I, st, args, info):
    """Comparison of strings through references."""
    a, b = ex(I.deref(st, args[0])), ex(I.deref(st, args[1]))
    ty = I.argtys[0]
    while ty.k == "ref":
        ty = ty.elem
    if ty.k != "str" and ty.path != "std::string::String":
        return NotImplemented
    r = models._str_eq(I, st, [a, b], info)
    return r if info["ref"]["path"].endswith("eq") else NOT(r)
