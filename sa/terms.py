"""Word-level terms in a canonical (linear / bit-slice) normal form.

A scalar leaf is a python int (constant) or a Lin: c + sum(coeff * atom) modulo
2^w.  Comparisons turn into decision variables over threshold atoms
('lt', base, k)  meaning  base <u k, so that differently written but equal
range tests get the same diagram.
"""
from bdd import *
import bdd


class Atom:
    __slots__ = ("kind", "args", "w", "id")

    def __repr__(self):
        if self.kind == "in":
            return str(self.args[0])
        if self.kind == "sel":
            return "%r[%r]" % self.args
        if self.kind == "ext":
            return "%r.bits(%d,+%d)" % self.args
        return "%s%r" % (self.kind, self.args)


_atoms = {}


def atom(kind, args, w):
    k = (kind, args, w)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind, a.args, a.w, a.id = kind, args, w, len(_atoms)
        _atoms[k] = a
    return a


class Lin:
    __slots__ = ("w", "c", "ts", "id")

    def __repr__(self):
        s = []
        for a, k in self.ts:
            if k > (1 << (self.w - 1)):
                k -= 1 << self.w
            s.append("%r" % a if k == 1 else "%d*%r" % (k, a))
        c = self.c
        if c > (1 << (self.w - 1)):
            c -= 1 << self.w
        if c:
            s.append(str(c) if abs(c) < 4096 else hex(c))
        return "(" + " + ".join(s) + ")"


_lins = {}


def mklin(w, c, d):
    m = (1 << w) - 1
    ts = []
    nx = 0
    for a, k in d.items():
        k &= m
        if k:
            ts.append((a, k))
            if a.kind == "ext":
                nx += 1
    c &= m
    if not ts:
        return c
    if nx >= 2:
        r = _recombine(w, dict(ts))
        if r is not None:
            return lin_add(w, r, c)
    ts.sort(key=lambda t: t[0].id)
    key = (w, c, tuple(ts))
    l = _lins.get(key)
    if l is None:
        l = Lin()
        l.w, l.c, l.ts, l.id = w, c, tuple(ts), len(_lins)
        _lins[key] = l
    return l


def _recombine(w, d):
    m = (1 << w) - 1
    groups = {}
    for a, k in d.items():
        if a.kind == "ext":
            groups.setdefault(a.args[0], []).append((a.args[1], a.args[2], a, k))
    for base, ps in groups.items():
        if len(ps) < 2:
            continue
        bw = base.w
        ps.sort(key=lambda p: p[0])
        if ps[0][0] != 0:
            continue
        c0 = ps[0][3]
        pos = 0
        ok = True
        for sh, wd, a, k in ps:
            if sh != pos or k != (c0 << sh) & m:
                ok = False
                break
            pos = sh + wd
        if not ok or pos != bw:
            continue
        rest = dict(d)
        for _, _, a, _ in ps:
            del rest[a]
        b = base
        if bw != w:
            b = _zext(base, bw, w)
        r = lin_mul_const(w, b, c0)
        return lin_add(w, r, mklin(w, 0, rest))
    return None


def atom_lin(a, w=None):
    return mklin(w or a.w, 0, {a: 1})


def inp(name, w):
    return leaf(atom_lin(atom("in", (name,), w)))


def lin_parts(w, x):
    if isinstance(x, int):
        return x & ((1 << w) - 1), ()
    return x.c, x.ts


def lin_add(w, x, y):
    cx, tx = lin_parts(w, x)
    cy, ty = lin_parts(w, y)
    if not tx and not ty:
        return (cx + cy) & ((1 << w) - 1)
    d = dict(tx)
    for a, k in ty:
        d[a] = d.get(a, 0) + k
    return mklin(w, cx + cy, d)


def lin_mul_const(w, x, k):
    c, ts = lin_parts(w, x)
    return mklin(w, c * k, {a: q * k for a, q in ts})


def lin_sub(w, x, y):
    return lin_add(w, x, lin_mul_const(w, y, -1))


def slices(w, x):
    """Non-overlapping bit-field view [(pos, atom)] + const, or None."""
    c, ts = lin_parts(w, x)
    used = 0
    out = []
    for a, k in ts:
        if k & (k - 1):
            return None
        p = k.bit_length() - 1
        if p + a.w > w:
            return None
        mask = ((1 << a.w) - 1) << p
        if used & mask:
            return None
        used |= mask
        out.append((p, a))
    if used & c:
        return None
    return out, c


def ext(x, w, sh, wd):
    """bits [sh, sh+wd) of x (width w) as a width-wd scalar (int or Lin)."""
    if isinstance(x, int):
        return (x >> sh) & ((1 << wd) - 1)
    if sh == 0 and wd == w:
        return x
    s = slices(w, x)
    if s is not None:
        fs, c = s
        d = {}
        for p, a in fs:
            lo, hi = max(p, sh), min(p + a.w, sh + wd)
            if lo >= hi:
                continue
            if lo == p and hi == p + a.w:
                e = a
            elif a.kind == "ext":
                e = atom("ext", (a.args[0], a.args[1] + lo - p, hi - lo), hi - lo)
            else:
                e = atom("ext", (atom_lin(a), lo - p, hi - lo), hi - lo)
            d[e] = d.get(e, 0) + (1 << (lo - sh))
        return mklin(wd, (c >> sh), d)
    if sh == 0:
        # truncation commutes with linear arithmetic
        m = (1 << wd) - 1
        if all(a.w <= wd or (k & m) == 0 for a, k in x.ts):
            return mklin(wd, x.c, {a: k for a, k in x.ts if k & m})
    return mklin(wd, 0, {atom("ext", (x, sh, wd), wd): 1})


def _zext(x, w1, w2):
    if isinstance(x, int) or w1 == w2:
        return x
    if slices(w1, x) is not None:
        return mklin(w2, x.c, dict(x.ts))
    # no wrap possible?
    hi = x.c + sum(k * ((1 << a.w) - 1) for a, k in x.ts)
    if hi < (1 << w1):
        return mklin(w2, x.c, dict(x.ts))
    return mklin(w2, 0, {atom("zext", (x,), w1): 1})


def _sext(x, w1, w2):
    if isinstance(x, int):
        if x >> (w1 - 1):
            x |= ((1 << w2) - 1) ^ ((1 << w1) - 1)
        return x
    return mklin(w2, 0, {atom("sext", (x, w1), w2): 1})


# ---------------------------------------------------------------- expansion
def nbits(x):
    return sum(a.w for a, _ in x.ts)


_exp = {}


def expand_atom(a, w):
    n = _exp.get(a)
    if n is None:
        vs = [var(("bit", a, i)) for i in range(a.w)]

        def go(i, v):
            if i < 0:
                return leaf(v)
            return ite(vs[i], go(i - 1, v | (1 << i)), go(i - 1, v))
        # most significant bit first
        n = go(a.w - 1, 0)
        _exp[a] = n
    return n


def expandable(x, lim=10):
    return isinstance(x, Lin) and all(a.w <= 8 for a, _ in x.ts) and nbits(x) <= lim


_expl = {}


def expand(x):
    """Diagram with constant leaves for a narrow scalar leaf."""
    if isinstance(x, int):
        return leaf(x)
    r = _expl.get(x)
    if r is not None:
        return r
    m = (1 << x.w) - 1
    r = leaf(x.c)
    for a, k in x.ts:
        e = expand_atom(a, x.w)
        r = map2(lambda p, q, k=k: leaf((p + k * q) & m), r, e)
    _expl[x] = r
    return r


# ---------------------------------------------------------------- predicates
def _lt_var(base, k):
    m = 1 << base.w
    if k <= 0:
        return F
    if k >= m:
        return T
    # range knowledge
    hi = base.c + sum(kk * ((1 << a.w) - 1) for a, kk in base.ts)
    if hi < m and hi < k:
        return T
    return var(("lt", base, k))


def _norm(x):
    """x = s*base + c with base canonical (zero constant, first coeff small)."""
    w = x.w
    d = dict(x.ts)
    a0, k0 = x.ts[0]
    if k0 >= (1 << (w - 1)):
        base = mklin(w, 0, {a: -k for a, k in d.items()})
        return base, -1, x.c
    return mklin(w, 0, d), 1, x.c


def inrange(base, lo, hi):
    """base in circular [lo, hi)  (lo == hi mod 2^w means: empty)."""
    m = (1 << base.w) - 1
    lo &= m
    hi &= m
    if lo == hi:
        return F
    if lo < hi:
        return AND(NOT(_lt_var(base, lo)), _lt_var(base, hi))
    r = NOT(_lt_var(base, lo))
    if hi:
        r = OR(r, _lt_var(base, hi))
    return r


def ult_const(x, w, k):
    if k <= 0:
        return F
    if k >= (1 << w):
        return T
    if isinstance(x, int):
        return T if x < k else F
    if expandable(x):
        return map1(lambda v: T if v < k else F, expand(x))
    base, s, c = _norm(x)
    if s == 1:
        return inrange(base, -c, k - c)
    return inrange(base, c - k + 1, c + 1)


def eq(x, y, w):
    if x is y:
        return T
    d = lin_sub(w, x, y)
    if isinstance(d, int):
        return T if d == 0 else F
    if expandable(d):
        return map1(lambda v: T if v == 0 else F, expand(d))
    if d.c == 0 and len(d.ts) == 2:
        (a, ka), (b, kb) = d.ts
        if a.w == b.w <= 8 and ka + kb == (1 << w) and 1 in (ka, kb):
            # equality of two narrow values, whatever width they are compared at
            return var(("eqa", a, b) if repr(a) < repr(b) else ("eqa", b, a))
    base, s, c = _norm(d)
    v = (-c if s == 1 else c) & ((1 << w) - 1)
    # gcd / range refutation
    hi = sum(kk * ((1 << a.w) - 1) for a, kk in base.ts)
    if hi < (1 << w) and v > hi:
        return F
    return inrange(base, v, v + 1)


def ult(x, y, w):
    if x is y:
        return F
    if isinstance(y, int):
        return ult_const(x, w, y)
    if isinstance(x, int):
        return NOT(ult_const(y, w, x + 1))
    d = lin_sub(w, y, x)
    if isinstance(d, int):
        # x < x + d  iff  no wrap
        return ult_const(x, w, (1 << w) - d)
    if expandable(x, 8) and expandable(y, 8):
        return map2(lambda p, q: T if p < q else F, expand(x), expand(y))
    return var(("ult", x, y))


def msb(x, w):
    if isinstance(x, int):
        return T if (x >> (w - 1)) & 1 else F
    return bit(x, w, w - 1)


def bit(x, w, i):
    if isinstance(x, int):
        return T if (x >> i) & 1 else F
    s = slices(w, x)
    if s is not None:
        fs, c = s
        for p, a in fs:
            if p <= i < p + a.w:
                return atom_bit(a, i - p)
        return T if (c >> i) & 1 else F
    if i == w - 1:
        if x.c == (1 << w) - 1 and len(x.ts) == 1 and x.ts[0][1] == (1 << w) - 1:
            # bitwise not of one atom
            return NOT(atom_bit(x.ts[0][0], i)) if x.ts[0][0].w == w else NOT(msb(lin_sub(w, (1 << w) - 1, x), w))
        nx = lin_sub(w, (1 << w) - 1, x)
        if isinstance(nx, Lin) and slices(w, nx) is not None:
            return NOT(bit(nx, w, i))
        return NOT(ult_const(x, w, 1 << (w - 1)))
    if i == 0:
        r = T if x.c & 1 else F
        for a, k in x.ts:
            if k & 1:
                r = XOR(r, atom_bit(a, 0))
        return r
    return var(("bitl", x, i))


def atom_bit(a, i):
    if a.w <= 8:
        return var(("bit", a, i))
    if a.kind in ("and", "or", "xor"):
        p = bit(a.args[0], a.w, i)
        q = bit(a.args[1], a.w, i)
        return AND(p, q) if a.kind == "and" else OR(p, q) if a.kind == "or" else XOR(p, q)
    if a.kind == "ext":
        return bit(a.args[0], a.args[0].w, a.args[1] + i)
    if i == a.w - 1:
        return NOT(ult_const(atom_lin(a), a.w, 1 << i))
    return var(("bitl", atom_lin(a), i))


_tsup = {}


def _theory_support(n):
    """Order-sensitive atoms (bases, unsigned pairs) a diagram still tests."""
    r = _tsup.get(n.id)
    if r is None:
        s = set()
        for v in support(n):
            k = varkey(v)
            if k[0] == "lt":
                s.add(k[1])
                if len(k[1].ts) > 1 or k[1].ts[0][1] != 1:
                    s.update(atom_lin(a) for a, _ in k[1].ts if a.w > 8)
            elif k[0] == "ult":
                s.add((k[1], k[2]))
                s.add((k[2], k[1]))
            elif k[0] == "eqa":
                s.add(("eqv", k[1]))
                s.add(("eqv", k[2]))
            elif k[0] == "bit":
                s.add(("bitv", k[1]))
        r = _tsup[n.id] = frozenset(s)
    return r


_feas = {}


def feasible(cond):
    """Is some path to a non-zero leaf consistent with the order of the threshold atoms?"""
    if cond is F:
        return False
    if cond is T:
        return True
    r = _feas.get(cond.id)
    if r is None:
        r = witness(cond) is not None
        _feas[cond.id] = r
    return r


def witness(cond):
    """A consistent list of (variable key, value) reaching a non-zero leaf, or None."""
    dead = set()
    path = []
    eqatoms = {k[1] for k in _theory_support(cond) if isinstance(k, tuple) and k[0] == "eqv"} if cond.v is not None else ()

    def keep(k, ctx, sup):
        if isinstance(k, tuple) and k[0] == "bits":
            a = k[1]
            if ("eqv", a) in sup:
                return True
            return any(isinstance(q, tuple) and q[0] == "eq" and a in q and (("bitv", q[1]) in sup or ("bitv", q[2]) in sup) for q in ctx)
        if isinstance(k, tuple) and k[0] == "eq":
            return ("bitv", k[1]) in sup or ("bitv", k[2]) in sup
        return k in sup

    def clash(a, b, val, ctx):
        """Decided (in)equality of two atoms against the bits decided so far."""
        ma, va = ctx.get(("bits", a), (0, 0))
        mb, vb = ctx.get(("bits", b), (0, 0))
        if val:
            return (va ^ vb) & ma & mb
        return ma == mb == (1 << a.w) - 1 and va == vb

    def go(n, ctx):
        if n.v is None:
            return n is not F
        sup = _theory_support(n)
        ctx = {k: v for k, v in ctx.items() if keep(k, ctx, sup)}
        key = (n.id, frozenset(ctx.items()))
        if key in dead:
            return False
        vk = varkey(n.v)
        if vk[0] == "lt":
            base, k = vk[1], vk[2]
            lo, hi = ctx.get(base, (0, 1 << base.w))
            if len(base.ts) > 1 or base.ts[0][1] != 1:
                # bounds of the terms, when the sum cannot wrap
                l0 = h0 = base.c
                for a, kk in base.ts:
                    al, ah = ctx.get(atom_lin(a), (0, 1 << a.w)) if a.w > 8 else (0, 1 << a.w)
                    l0 += kk * al
                    h0 += kk * (ah - 1)
                if h0 < (1 << base.w):
                    lo, hi = max(lo, l0), min(hi, h0 + 1)
            for val, nx in ((1, n.hi), (0, n.lo)):
                l2, h2 = (lo, min(hi, k)) if val else (max(lo, k), hi)
                if l2 >= h2 or nx is F:
                    continue
                c2 = dict(ctx)
                c2[base] = (l2, h2)
                path.append((vk, val))
                if go(nx, c2):
                    return True
                path.pop()
        elif vk[0] == "ult":
            for val, nx in ((0, n.lo), (1, n.hi)):
                if nx is F or (val and ctx.get((vk[2], vk[1]))):
                    continue
                c2 = dict(ctx)
                if val:
                    c2[(vk[1], vk[2])] = 1
                path.append((vk, val))
                if go(nx, c2):
                    return True
                path.pop()
        elif vk[0] == "eqa":
            for val, nx in ((1, n.hi), (0, n.lo)):
                if nx is F or clash(vk[1], vk[2], val, ctx):
                    continue
                c2 = dict(ctx)
                c2[("eq", vk[1], vk[2])] = val
                path.append((vk, val))
                if go(nx, c2):
                    return True
                path.pop()
        elif vk[0] == "bit" and vk[1] in eqatoms:
            for val, nx in ((1, n.hi), (0, n.lo)):
                if nx is F:
                    continue
                c2 = dict(ctx)
                m, v = ctx.get(("bits", vk[1]), (0, 0))
                c2[("bits", vk[1])] = (m | 1 << vk[2], v | val << vk[2])
                if any(isinstance(q, tuple) and q[0] == "eq" and vk[1] in q and clash(q[1], q[2], qv, c2) for q, qv in ctx.items()):
                    continue
                path.append((vk, val))
                if go(nx, c2):
                    return True
                path.pop()
        else:
            for val, nx in ((1, n.hi), (0, n.lo)):
                if nx is F:
                    continue
                path.append((vk, val))
                if go(nx, ctx):
                    return True
                path.pop()
        dead.add(key)
        return False
    return list(path) if go(cond, {}) else None


# ---------------------------------------------------------------- operations
def _b2n(b):
    return b


def op_add(w, x, y):
    return leaf(lin_add(w, x, y))


def op_sub(w, x, y):
    return leaf(lin_sub(w, x, y))


def op_mul(w, x, y):
    if isinstance(x, int):
        return leaf(lin_mul_const(w, y, x))
    if isinstance(y, int):
        return leaf(lin_mul_const(w, x, y))
    if expandable(x, 8) and expandable(y, 8):
        m = (1 << w) - 1
        return map2(lambda p, q: leaf((p * q) & m), expand(x), expand(y))
    a, b = sorted((x, y), key=lambda t: t.id)
    return leaf(mklin(w, 0, {atom("mul", (a, b), w): 1}))


def op_not(w, x):
    return leaf(lin_sub(w, (1 << w) - 1, x))


def _bits_const(kind, w, x, k):
    m = (1 << w) - 1
    if kind == "and":
        if k == 0:
            return leaf(0)
        if k == m:
            return leaf(x)
        # split k in contiguous runs of ones
        r = 0
        i = 0
        while i < w:
            if (k >> i) & 1:
                j = i
                while j < w and (k >> j) & 1:
                    j += 1
                e = _zext(ext(x, w, i, j - i), j - i, w)
                r = lin_add(w, r, lin_mul_const(w, e, 1 << i))
                i = j
            else:
                i += 1
        return leaf(r)
    if kind == "xor":
        if k == 0:
            return leaf(x)
        if k == m:
            return op_not(w, x)
    if kind == "or":
        if k == 0:
            return leaf(x)
        if k == m:
            return leaf(m)
        s = slices(w, x)
        if s is not None and all((((1 << a.w) - 1) << p) & k == 0 for p, a in s[0]):
            return leaf(mklin(w, s[1] | k, dict(x.ts)))
    return None


def _disjoint(w, x, y):
    """x | y of words that share no bit position: their sum."""
    sx, sy = slices(w, x), slices(w, y)
    if sx is None or sy is None:
        return None
    ux, uy = sx[1], sy[1]
    for p, a in sx[0]:
        ux |= ((1 << a.w) - 1) << p
    for p, a in sy[0]:
        uy |= ((1 << a.w) - 1) << p
    return leaf(lin_add(w, x, y)) if ux & uy == 0 else None


def op_bit(kind, w, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return leaf(x & y if kind == "and" else x | y if kind == "or" else x ^ y)
    if x is y:
        return leaf(0) if kind == "xor" else leaf(x)
    m = (1 << w) - 1
    for p, q in ((x, y), (y, x)):
        if isinstance(p, int) and p in (0, m):
            if kind != "and" and p == 0 or kind == "and" and p == m:
                return leaf(q)
            if p == 0 or kind == "or":
                return leaf(p)
    if kind != "and" and not isinstance(x, int) and not isinstance(y, int) and nbits(x) + nbits(y) > 8:
        r = _disjoint(w, x, y)
        if r is not None:
            return r
    if (isinstance(x, int) or expandable(x, 8)) and (isinstance(y, int) or expandable(y, 8)):
        f = {"and": lambda p, q: leaf(p & q), "or": lambda p, q: leaf(p | q), "xor": lambda p, q: leaf(p ^ q)}[kind]
        return map2(f, expand(x), expand(y))
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        r = _bits_const(kind, w, x, y)
        if r is not None:
            return r
        return leaf(mklin(w, 0, {atom(kind, (x, y), w): 1}))
    if kind in ("or", "xor"):
        r = _disjoint(w, x, y)
        if r is not None:
            return r
    a, b = sorted((x, y), key=lambda t: t.id)
    return leaf(mklin(w, 0, {atom(kind, (a, b), w): 1}))


def op_shl(w, x, k):
    if isinstance(k, int):
        k %= w
        return leaf(lin_mul_const(w, x, 1 << k))
    if expandable(k, 8):
        return map1(lambda v: op_shl(w, x, v), expand(k))
    return leaf(mklin(w, 0, {atom("shl", (x, k), w): 1}))


def op_shr(w, x, k, signed=False):
    if not isinstance(k, int):
        if expandable(k, 8):
            return map1(lambda v: op_shr(w, x, v, signed), expand(k))
        return leaf(mklin(w, 0, {atom("sar" if signed else "shr", (x, k), w): 1}))
    k %= w
    if k == 0:
        return leaf(x)
    if isinstance(x, int):
        if signed and x >> (w - 1):
            x -= 1 << w
        return leaf((x >> k) & ((1 << w) - 1))
    if signed:
        if k == w - 1:
            return ite(msb(x, w), leaf((1 << w) - 1), leaf(0))
        return leaf(mklin(w, 0, {atom("sar", (x, k), w): 1}))
    if w <= 8 and expandable(x, 8):
        return map1(lambda v: leaf(v >> k), expand(x))
    if k == w - 1:
        return ite(msb(x, w), leaf(1), leaf(0))
    return leaf(_zext(ext(x, w, k, w - k), w - k, w))


def op_divrem(kind, w, x, y, signed):
    if isinstance(x, int) and isinstance(y, int) and y and not signed:
        return leaf(x // y if kind == "div" else x % y)
    if isinstance(y, int) and y and y & (y - 1) == 0 and not signed:
        k = y.bit_length() - 1
        if kind == "div":
            return op_shr(w, x, k) if k else leaf(x)
        return _bits_const("and", w, x, y - 1)
    return leaf(mklin(w, 0, {atom(kind + ("s" if signed else ""), (x, y), w): 1}))


def cast(x, w1, s1, w2):
    if w1 == w2:
        return leaf(x)
    if w2 < w1:
        return leaf(ext(x, w1, 0, w2))
    if s1:
        return leaf(_sext(x, w1, w2))
    return leaf(_zext(x, w1, w2))


def cmp_lt(w, signed, x, y):
    if signed:
        h = 1 << (w - 1)
        x = lin_add(w, x, h)
        y = lin_add(w, y, h)
    return ult(x, y, w)


def add_overflow(w, signed, x, y):
    r = lin_add(w, x, y)
    if signed:
        a, b, e = msb(x, w), msb(y, w), msb(r, w)
        return AND(NOT(XOR(a, b)), XOR(a, e))
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        if isinstance(x, int):
            return T if x + y >= (1 << w) else F
        return NOT(ult_const(x, w, (1 << w) - y)) if y else F
    hi = sum(_umax(w, t) for t in (x, y))
    if hi < (1 << w):
        return F
    a, b = sorted((x, y), key=lambda t: t.id)
    return var(("uaddov", a, b))


def _umax(w, x):
    if isinstance(x, int):
        return x
    hi = x.c + sum(k * ((1 << a.w) - 1) for a, k in x.ts)
    return min(hi, (1 << w) - 1)


def sub_overflow(w, signed, x, y):
    if signed:
        r = lin_sub(w, x, y)
        a, b, e = msb(x, w), msb(y, w), msb(r, w)
        return AND(XOR(a, b), XOR(a, e))
    return ult(x, y, w)


def mul_overflow(w, signed, x, y):
    if isinstance(x, int) and isinstance(y, int) and not signed:
        return T if x * y >= (1 << w) else F
    if not signed:
        if _umax(w, x) * _umax(w, y) < (1 << w):
            return F
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int) and y:
            return NOT(ult_const(x, w, ((1 << w) - 1) // y + 1))
    return var(("mulov", signed, str(x), str(y)))
