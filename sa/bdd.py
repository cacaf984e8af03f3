"""Hash-consed multi-terminal decision diagrams.

A node is either a leaf (v is None, val = hashable leaf value) or a decision on
boolean variable v.  Boolean conditions are diagrams with leaves 0/1.
Variables are ordered by creation.  There is no solver here: every operation is
the textbook memoised apply/ite on canonical diagrams.
"""
import sys
sys.setrecursionlimit(100000)


class N:
    __slots__ = ("v", "hi", "lo", "val", "id", "sup")

    def __init__(self, v, hi, lo, val, i):
        self.v = v
        self.hi = hi
        self.lo = lo
        self.val = val
        self.id = i
        self.sup = None

    def __repr__(self):
        if self.v is None:
            return "<%r>" % (self.val,)
        return "?%d(%d)" % (self.v, self.id)


_nodes = {}
_leaves = {}
_next = [0]


def leaf(val):
    k = (val.__class__, val)
    n = _leaves.get(k)
    if n is None:
        n = N(None, None, None, val, _next[0])
        _next[0] += 1
        _leaves[k] = n
    return n


F = leaf(0)
T = leaf(1)
INF = 1 << 60


def mk(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = N(v, hi, lo, None, _next[0])
        _next[0] += 1
        _nodes[k] = n
    return n


_vars = {}
_varkeys = []
_varnodes = []


def var(key):
    """The decision variable for a hashable atom key, as a 0/1 diagram."""
    i = _vars.get(key)
    if i is None:
        i = len(_varkeys)
        _vars[key] = i
        _varkeys.append(key)
        _varnodes.append(mk(i, T, F))
    return _varnodes[i]


def varkey(i):
    return _varkeys[i]


_ite = {}


def ite(c, a, b):
    if c is T or a is b:
        return a
    if c is F:
        return b
    if a is T and b is F:
        return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None:
        return r
    v = c.v
    if a.v is not None and a.v < v:
        v = a.v
    if b.v is not None and b.v < v:
        v = b.v
    c1, c0 = (c.hi, c.lo) if c.v == v else (c, c)
    a1, a0 = (a.hi, a.lo) if a.v == v else (a, a)
    b1, b0 = (b.hi, b.lo) if b.v == v else (b, b)
    r = mk(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _ite[k] = r
    return r


def NOT(c):
    return ite(c, F, T)


def AND(*cs):
    r = T
    for c in cs:
        r = ite(r, c, F)
        if r is F:
            return F
    return r


def OR(*cs):
    r = F
    for c in cs:
        r = ite(r, T, c)
        if r is T:
            return T
    return r


def XOR(a, b):
    return ite(a, NOT(b), b)


_restr = {}


def restrict(f, c):
    """Simplify f under care set c (value preserved wherever c is true)."""
    if f.v is None or c is T:
        return f
    if c is F:
        return f
    k = (f.id, c.id)
    r = _restr.get(k)
    if r is not None:
        return r
    if c.v < f.v:
        r = restrict(f, OR(c.hi, c.lo))
    elif c.v == f.v:
        if c.hi is F:
            r = restrict(f.lo, c.lo)
        elif c.lo is F:
            r = restrict(f.hi, c.hi)
        else:
            r = mk(f.v, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
    else:
        r = mk(f.v, restrict(f.hi, c), restrict(f.lo, c))
    _restr[k] = r
    return r


def leaves(n):
    out, seen, st = [], set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.v is None:
            out.append(x.val)
        else:
            st.append(x.lo)
            st.append(x.hi)
    return out


def support(n):
    if n.sup is not None:
        return n.sup
    out, seen, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x.id in seen or x.v is None:
            continue
        seen.add(x.id)
        out.add(x.v)
        st.append(x.lo)
        st.append(x.hi)
    n.sup = frozenset(out)
    return n.sup


def size(n):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.v is not None:
            st.append(x.lo)
            st.append(x.hi)
    return len(seen)


def map1(fn, n, memo=None):
    """Apply fn: leafvalue -> N at each leaf."""
    if n.v is None:
        return fn(n.val)
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    h = map1(fn, n.hi, memo)
    l = map1(fn, n.lo, memo)
    if (h.v is None or h.v > n.v) and (l.v is None or l.v > n.v):
        r = mk(n.v, h, l)
    else:
        r = ite(_varnodes[n.v], h, l)
    memo[n.id] = r
    return r


def map2(fn, a, b, memo=None):
    if a.v is None and b.v is None:
        return fn(a.val, b.val)
    if memo is None:
        memo = {}
    k = (a.id, b.id)
    r = memo.get(k)
    if r is not None:
        return r
    va = INF if a.v is None else a.v
    vb = INF if b.v is None else b.v
    v = min(va, vb)
    a1, a0 = (a.hi, a.lo) if va == v else (a, a)
    b1, b0 = (b.hi, b.lo) if vb == v else (b, b)
    h = map2(fn, a1, b1, memo)
    l = map2(fn, a0, b0, memo)
    if (h.v is None or h.v > v) and (l.v is None or l.v > v):
        r = mk(v, h, l)
    else:
        r = ite(_varnodes[v], h, l)
    memo[k] = r
    return r


def mapn(fn, ns):
    if len(ns) == 1:
        return map1(fn, ns[0])
    if len(ns) == 2:
        return map2(fn, ns[0], ns[1])
    memo = {}

    def go(xs):
        v = INF
        for x in xs:
            if x.v is not None and x.v < v:
                v = x.v
        if v == INF:
            return fn(*[x.val for x in xs])
        k = tuple(x.id for x in xs)
        r = memo.get(k)
        if r is not None:
            return r
        h = go(tuple(x.hi if x.v == v else x for x in xs))
        l = go(tuple(x.lo if x.v == v else x for x in xs))
        r = ite(_varnodes[v], h, l)
        memo[k] = r
        return r
    return go(tuple(ns))


def guards(n):
    """[(condition, leafvalue)] for each distinct leaf."""
    memo = {}

    def go(x):
        if x.v is None:
            return {x: T}
        r = memo.get(x.id)
        if r is not None:
            return r
        h = go(x.hi)
        l = go(x.lo)
        out = {}
        vn = _varnodes[x.v]
        nv = NOT(vn)
        for k, g in h.items():
            out[k] = AND(vn, g)
        for k, g in l.items():
            g2 = AND(nv, g)
            out[k] = OR(out[k], g2) if k in out else g2
        memo[x.id] = out
        return out
    return [(g, k.val) for k, g in go(n).items()]


def anycube(n):
    """One satisfying assignment {var: 0/1} of a 0/1 diagram, or None."""
    if n is F:
        return None
    out = {}
    while n.v is not None:
        if n.hi is not F:
            out[n.v] = 1
            n = n.hi
        else:
            out[n.v] = 0
            n = n.lo
    return out


def cubes(n, limit=64):
    out = []

    def go(x, cur):
        if len(out) >= limit:
            return
        if x is F:
            return
        if x.v is None:
            out.append(dict(cur))
            return
        cur[x.v] = 1
        go(x.hi, cur)
        cur[x.v] = 0
        go(x.lo, cur)
        del cur[x.v]
    go(n, {})
    return out


def clear_caches():
    _ite.clear()
    _restr.clear()
