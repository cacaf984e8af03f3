"""Equality of abstract values under a condition."""
from values import *
import bdd


def _norm(l):
    """Expand reads at narrow symbolic indices so that equal values get equal leaves."""
    if isinstance(l, int):
        return leaf(l)
    if l.__class__ is not Lin:
        return leaf(l)
    r = leaf(l.c)
    for a, k in l.ts:
        d = None
        if a.kind == "sel" and isinstance(a.args[1], Lin) and expandable(a.args[1]):
            base = a.args[0]
            d = map1(lambda i: leaf(atom_lin(atom("sel", (base, i), a.w))), expand(a.args[1]))
            if a.w != l.w:
                d = map1(lambda x: cast(x, a.w, False, l.w), d)
        if d is None:
            d = leaf(mklin(l.w, 0, {a: 1}))
        r = map2(lambda x, y, k=k: leaf(lin_add(l.w, x, lin_mul_const(l.w, y, k))), r, d)
    return r


def coincide(d):
    """Condition under which a difference of array reads vanishes because symbolic positions take the constant ones, or F."""
    sel = [(a.args[0], a.args[1]) for a, _ in d.ts if a.kind == "sel"]
    consts = [(b, i) for b, i in sel if isinstance(i, int)]
    if not consts:
        return F
    arr, c = consts[0]
    for b, i in sel:
        if b == arr and i.__class__ is Lin and at(d, [(i, c)]) == 0:
            return eq(i, c, i.w)
    return F


def at(l, ps):
    """The word l where the words ps have their values: array reads by constant position."""
    r = l.c
    for a, k in l.ts:
        x = atom_lin(a)
        i = a.args[1] if a.kind == "sel" else None
        if i.__class__ is Lin:
            for b, v in ps:
                if b.w != i.w:
                    continue
                m = (1 << b.w) - 1
                n = lin_sub(b.w, i, b)
                if isinstance(n, int):
                    x = atom_lin(atom("sel", (a.args[0], (n + v) & m), a.w))
                    break
        if x.__class__ is Lin and x.w != l.w:
            x = mklin(l.w, 0, dict(x.ts))
        r = lin_add(l.w, r, lin_mul_const(l.w, x, k))
    return r


def neq(a, b):
    """Condition under which two scalar diagrams may differ."""
    if a is b:
        return F

    def f(x, y):
        if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
            return F
        if isinstance(x, int) and isinstance(y, int):
            return T
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            w = x.w if isinstance(x, Lin) else y.w
            d = lin_sub(w, x, y)
            if isinstance(d, int):
                return T if d else F
            k = coincide(d)
            if k is not F:
                return NOT(k)
            e = _norm(d)
            if e.v is not None or e.val is not d:
                return map1(lambda l: NOT(eq(l, 0, w)) if isinstance(l, (int, Lin)) else T, e)
            if expandable(d):
                return NOT(eq(d, 0, w))
            return T
        return T
    return map2(f, a, b)


def may_differ(cond, a, b):
    """None, or a witness (list of decisions) under which a and b differ."""
    a, b = ex(a), ex(b)
    if a is UNDEF or b is UNDEF:
        return None if a is b else (witness(cond) if cond is not T else [("undef", 1)])
    if a.__class__ is Agg and b.__class__ is Agg and len(a.v) == len(b.v):
        for x, y in zip(a.v, b.v):
            r = may_differ(cond, x, y)
            if r is not None:
                return r
        return None
    if a.__class__ is EnumV and b.__class__ is EnumV:
        r = may_differ(cond, a.d, b.d)
        if r is not None:
            return r
        for k in set(a.p) & set(b.p):
            c = AND(cond, map1(lambda l: T if l == k else F, a.d))
            if c is F:
                continue
            for x, y in zip(a.p[k], b.p[k]):
                r = may_differ(c, x, y)
                if r is not None:
                    return r
        return None
    if a.__class__ is not bdd.N or b.__class__ is not bdd.N:
        if same(a, b) or cond is F:
            return None
        return witness(cond) if cond is not T else [("shape", str(a.__class__.__name__) + "/" + str(b.__class__.__name__))]
    d = AND(cond, neq(a, b))
    if d is F or not feasible(d):
        return None
    return witness(d) if d is not T else []


def show(w, n=24):
    out = []
    for k, v in (w or [])[:200]:
        if isinstance(k, tuple) and k[0] == "bit":
            continue
        if isinstance(k, tuple) and k[0] == "lt":
            out.append("%r %s %#x" % (k[1], "<" if v else ">=", k[2]))
        else:
            out.append(("" if v else "not ") + str(k)[:120])
    bits = {}
    for k, v in w or []:
        if isinstance(k, tuple) and k[0] == "bit":
            bits.setdefault(k[1], {})[k[2]] = v
    for a, bs in bits.items():
        s = "".join(str(bs.get(i, "-")) for i in reversed(range(a.w)))
        out.append("%r=0b%s" % (a, s))
    return ", ".join(out[:n])
