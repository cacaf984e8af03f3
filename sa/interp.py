"""Abstract interpreter over dumped MIR (decision-diagram domain, joins at merges)."""
import heapq
import re
import sys
import os
sys.setrecursionlimit(200000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from values import *
import values
import bdd


class NeedHavoc(Exception):
    def __init__(self, fid, key, header):
        self.fid, self.key, self.header = fid, key, header


class Unsupported(Exception):
    pass


class Ob:
    """An obligation: `cond` (under which the panic happens) must be infeasible."""
    __slots__ = ("kind", "fn", "file", "line", "cond", "stack")

    def __repr__(self):
        n, f, l = self.site()
        return "%s at %s:%s in %s" % (self.kind, f, l, n)

    def site(self):
        """(function, file, line) in the analysed repository that leads to the obligation."""
        if self.file.startswith("/") or self.file.startswith("."):
            for n, f, l in reversed(self.stack):
                if not f.startswith("/"):
                    return n, f, l
        return self.fn, self.file, self.line


class State:
    __slots__ = ("mem", "pc")

    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc

    def copy(self, pc=None):
        return State(dict(self.mem), self.pc if pc is None else pc)


COLL = re.compile(r"^<?(std|core|alloc)::(vec|collections|slice|iter|array)::|^<&'a (mut )?std::(vec|collections)::")


def merge_states(a, b):
    c0 = OR(a.pc, b.pc)
    c = restrict(a.pc, c0)
    if c is T and a.pc is not c0:
        # a.pc covers everything b can distinguish: prefer exact condition
        c = a.pc
    mem = {}
    am, bm = a.mem, b.mem
    for k, va in am.items():
        vb = bm.get(k)
        if vb is None or vb is va:
            mem[k] = va
        else:
            mem[k] = merge(c, va, vb)
    for k, vb in bm.items():
        if k not in am:
            mem[k] = vb
    return State(mem, c0)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def analyse_cfg(fn):
    if fn._rpo is not None:
        return fn._rpo, fn._loops
    n = len(fn.bb)
    order, seen = [], set()
    st = [(0, iter(succs(fn.bb[0][1])))]
    seen.add(0)
    onst = {0}
    back = set()
    while st:
        b, it = st[-1]
        for s in it:
            if s in onst:
                back.add((b, s))
            if s not in seen:
                seen.add(s)
                onst.add(s)
                st.append((s, iter(succs(fn.bb[s][1]))))
                break
        else:
            order.append(b)
            onst.discard(b)
            st.pop()
    order.reverse()
    preds = {}
    for b in order:
        for s in succs(fn.bb[b][1]):
            preds.setdefault(s, []).append(b)
    loops = {}
    for u, h in back:
        body = loops.setdefault(h, {h})
        wl = [u]
        while wl:
            x = wl.pop()
            if x in body:
                continue
            body.add(x)
            wl.extend(preds.get(x, []))
    # place loop exits after the loop body: number blocks by DFS postorder, with
    # loop bodies contiguous
    rpo = {}
    nest = {b: frozenset(h for h, body in loops.items() if b in body) for b in order}
    # topological sort with priority to blocks in the innermost current loop
    indeg = {b: 0 for b in order}
    for b in order:
        for s in succs(fn.bb[b][1]):
            if (b, s) not in back and s in indeg:
                indeg[s] += 1
    pos = {b: i for i, b in enumerate(order)}
    ready = [0]
    cur = frozenset()
    i = 0
    while ready:
        # prefer blocks that share most loops with the current block
        ready.sort(key=lambda b: (-len(nest[b] & cur) if cur else 0, -len(nest[b]), pos[b]))
        b = ready.pop(0)
        cur = nest[b]
        rpo[b] = i
        i += 1
        for s in succs(fn.bb[b][1]):
            if (b, s) in back:
                continue
            indeg[s] -= 1
            if indeg[s] == 0:
                ready.append(s)
    for b in order:
        if b not in rpo:
            rpo[b] = i
            i += 1
    fn._rpo, fn._loops = rpo, loops
    return rpo, loops


BIN_PRED = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}


def isnum(x):
    return isinstance(x, (int, Lin))


class Interp:
    def __init__(self, prog):
        self.p = prog
        self.obs = []
        self.unknown = {}
        self.models = {}
        self.prefix_models = []
        self.regex_models = []
        self._hcache = {}
        self.argtys = []
        self.hooks = {}
        self.objty = {}
        self.stack = []
        self.havoc = {}       # (fn key, header) -> True for loops to be widened
        self.fidc = 0
        self.visited_fns = set()
        self.sites = 0
        self.events = []
        self.maxdepth = 120
        self.unroll_limit = 70
        self.visit_limit = 70
        self.widened = {}
        self.counters = []
        self.loop_hook = None
        self.steps = 0
        import models
        import models_coll
        models.install(self)

    # ------------------------------------------------------------ objects
    def alloc(self, st, val, ty=None, tag="h"):
        k = (tag, fresh(tag))
        st.mem[k] = val
        if ty is not None:
            self.objty[k] = ty
        return k

    def load_obj(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == "sym":
                ty = symobj[obj[1]]
                if ty.k == "slice":
                    v = ArrV(("sym", obj[1]), None, ty.elem)
                else:
                    v = SymV(ty, obj[1])
                self.objty[obj] = ty
            else:
                v = UNDEF
            st.mem[obj] = v
        return v

    # ------------------------------------------------------------ paths
    def field(self, v, i):
        v = ex(v)
        c = v.__class__
        if c is Agg:
            return v.v[i] if i < len(v.v) else UNDEF
        if c is EnumV:
            # field of a single-variant view
            if len(v.p) == 1:
                return next(iter(v.p.values()))[i]
            return top("efield")
        if c is bdd.N:
            ls = leaves(v)
            if all(l.__class__ in (Ref, FnP) for l in ls):
                return v
            return map1(lambda l: leaf(l) if l.__class__ is Ref else leaf(mkopq("fld", l, i)), v)
        if v is UNDEF:
            return UNDEF
        if c in (ArrV, VecV, MapV):
            return v
        return top("field")

    def variant(self, v, vi):
        v = ex(v)
        if v.__class__ is EnumV:
            return Agg(v.p[vi]) if vi in v.p else UNDEF
        if v is UNDEF:
            return UNDEF
        if v.__class__ is bdd.N:
            return map1(lambda l: leaf(mkopq("var", l, vi)), v)
        return top("variant")

    def navget(self, v, path, pc=T):
        off = None
        for n, e in enumerate(path):
            if v.__class__ is AltV:
                w = resolve_alts(v, pc)
                if w.__class__ is AltV:
                    r = None
                    for g, x in v.cases:
                        if feasible(AND(pc, g)):
                            x = self.navget(x, (path[n:] if off is None else (("sl", off),) + path[n:]), AND(pc, g))
                            r = x if r is None else merge(g, x, r)
                    return UNDEF if r is None else r
                v = w
            if e.__class__ is int:
                if off is not None:
                    return top("sl.f")
                v = self.field(v, e)
            elif e[0] == "v":
                v = self.variant(v, e[1])
            elif e[0] == "sl":
                off = e[1] if off is None else addn(off, e[1])
            elif e[0] == "i":
                i = e[1] if off is None else addn(off, e[1])
                off = None
                v = aget(v, i)
            elif e[0] == "k":
                # map value by known key
                v = ex(v)
                if v.__class__ is MapV:
                    for kr, _, x in v.items:
                        if kr == e[1]:
                            v = x
                            break
                    else:
                        v = UNDEF
                else:
                    v = top("mapget")
            if v is UNDEF:
                return UNDEF
        return v

    def navset(self, v, path, new, cond, off=None):
        if not path:
            return merge(cond, new, v) if cond is not T else new
        e = path[0]
        if v.__class__ is AltV:
            return AltV((g, self.navset(x, path, new, cond, off)) for g, x in v.cases)
        if e.__class__ is int:
            v = ex(v)
            c = v.__class__
            if c is Agg:
                l = list(v.v)
                if e < len(l):
                    l[e] = self.navset(l[e], path[1:], new, cond)
                return Agg(l)
            if v is UNDEF:
                l = [UNDEF] * (e + 1)
                l[e] = self.navset(UNDEF, path[1:], new, T)
                return Agg(l)
            if c is EnumV and len(v.p) == 1:
                k = next(iter(v.p))
                l = list(v.p[k])
                l[e] = self.navset(l[e], path[1:], new, cond)
                return EnumV(v.d, {k: tuple(l)})
            if c is bdd.N and len(path) == 1 and e == 0:
                return merge(cond, new, v) if new.__class__ is bdd.N else top("fset")
            return top("fset")
        if e[0] == "v":
            v = ex(v)
            if v.__class__ is EnumV:
                cur = v.p.get(e[1])
                sub = self.navset(Agg(cur) if cur is not None else UNDEF, path[1:], new, cond)
                p = dict(v.p)
                p[e[1]] = sub.v if sub.__class__ is Agg else (sub,)
                return EnumV(v.d, p)
            if v is UNDEF:
                sub = self.navset(UNDEF, path[1:], new, T)
                return EnumV(leaf(e[1]), {e[1]: sub.v})
            return top("vset")
        if e[0] == "sl":
            return self.navset(v, path[1:], new, cond, e[1] if off is None else addn(off, e[1]))
        if e[0] == "i":
            i = e[1] if off is None else addn(off, e[1])
            if len(path) == 1:
                return aset(v, i, new, cond)
            old = aget(v, i)
            return aset(v, i, self.navset(old, path[1:], new, T), cond)
        if e[0] == "k":
            v = ex(v)
            if v.__class__ is MapV:
                return MapV((kr, k, self.navset(x, path[1:], new, cond) if kr == e[1] else x) for kr, k, x in v.items)
            return top("mapset")
        return top("navset")

    def read(self, st, obj, path=()):
        v = self.load_obj(st, obj)
        v = self.navget(v, path, st.pc) if path else v
        return resolve_alts(v, st.pc) if v.__class__ is AltV else v

    def write(self, st, obj, path, new, cond=T):
        if cond is F:
            return
        old = self.load_obj(st, obj)
        st.mem[obj] = self.navset(old, path, new, cond) if (path or cond is not T) else new

    def ptr_targets(self, st, v):
        """[(cond, obj, path, meta)] of a pointer value."""
        v = self.unwrap(v)
        out = []
        if v.__class__ is not bdd.N:
            k = ("opqobj", fresh("o"))
            st.mem[k] = top("deref")
            return [(T, k, (), None)]
        for g, l in guards(v):
            if l.__class__ is Ref:
                out.append((g, l.obj, l.path, l.meta))
            elif l.__class__ is StrC:
                k = ("strobj", l)
                st.mem.setdefault(k, leaf(l))
                out.append((g, k, (), leaf(len(l.s.encode()))))
            elif isinstance(l, Opq):
                k = ("opqobj", l)
                if k not in st.mem:
                    st.mem[k] = leaf(mkopq("*", l))
                out.append((g, k, (), None))
            else:
                k = ("opqobj", l)
                st.mem.setdefault(k, top("deref"))
                out.append((g, k, (), None))
        return out

    def unwrap(self, v):
        v = ex(v)
        n = 0
        while v.__class__ is Agg and n < 8:
            cand = [x for x in v.v if x is not UNDEF and not (ex(x).__class__ is Agg and not ex(x).v)]
            if not cand:
                return v
            v = ex(cand[0])
            n += 1
        return v

    def deref(self, st, v):
        """Value behind a pointer value."""
        r = None
        for g, o, p, m in self.ptr_targets(st, v):
            x = self.read(st, o, p)
            r = x if r is None else merge(g, x, r)
        return r

    def store(self, st, v, new):
        ts = self.ptr_targets(st, v)
        if len(ts) == 1:
            self.write(st, ts[0][1], ts[0][2], new)
            return
        for g, o, p, m in ts:
            self.write(st, o, p, new, g)

    def resolve(self, st, fid, place):
        cur = [(T, ("L", fid, place[0]), (), None)]
        for pr in place[1]:
            if pr == "*":
                nxt = []
                for c, o, p, m in cur:
                    v = self.read(st, o, p)
                    for g, o2, p2, m2 in self.ptr_targets(st, v):
                        cc = AND(c, g)
                        if cc is not F:
                            nxt.append((cc, o2, p2, m2))
                cur = nxt
            elif pr[0] == "f":
                cur = [(c, o, p + (pr[1],), None) for c, o, p, m in cur]
            elif pr[0] == "dc":
                cur = [(c, o, p + (("v", pr[1]),), None) for c, o, p, m in cur]
            elif pr[0] == "i":
                iv = self.num(self.read(st, ("L", fid, pr[1])))
                cur = [(c, o, p + (("i", iv),), None) for c, o, p, m in cur]
            elif pr[0] == "ci":
                nxt = []
                for c, o, p, m in cur:
                    if pr[3]:
                        ln = m if m is not None else self.length(st, o, p)
                        i = subn(ln, leaf(pr[1]))
                    else:
                        i = leaf(pr[1])
                    nxt.append((c, o, p + (("i", i),), None))
                cur = nxt
            elif pr[0] == "ss":
                nxt = []
                for c, o, p, m in cur:
                    ln = m if m is not None else self.length(st, o, p)
                    end = subn(ln, leaf(pr[2])) if pr[3] else leaf(pr[2])
                    nxt.append((c, o, p + (("sl", leaf(pr[1])),), subn(end, leaf(pr[1]))))
                cur = nxt
        return cur

    def cases(self, st, o, p=()):
        """[(condition, value)] of a place that may hold collections of different lengths"""
        v = self.load_obj(st, o)
        if v.__class__ is not AltV and p:
            v = self.navget(v, p, st.pc)
        elif v.__class__ is AltV and p:
            v = AltV((g, self.navget(x, p, AND(st.pc, g))) for g, x in v.cases)
        out = []
        for g, x in (v.cases if v.__class__ is AltV else ((T, v),)):
            for h, y in (x.cases if x.__class__ is AltV else ((T, x),)):
                if g is T and h is T or feasible(AND(st.pc, AND(g, h))):
                    out.append((AND(g, h), y))
        return out or [(T, UNDEF)]

    def length(self, st, o, p):
        cs = self.cases(st, o, p)
        r = None
        for g, v in cs:
            n = self.length1(v)
            r = n if r is None else merge(g, n, r)
        return r

    def length1(self, v):
        v = ex(v)
        if v.__class__ is Agg:
            return leaf(len(v.v))
        if v.__class__ is VecV:
            return leaf(len(v.items))
        if v.__class__ is ArrV and v.n is not None:
            return leaf(v.n)
        if v.__class__ is bdd.N and v.v is None and v.val.__class__ is StrC:
            return leaf(len(v.val.s.encode()))
        return top("len")

    def read_place(self, st, fid, place):
        if not place[1]:
            v = self.load_obj(st, ("L", fid, place[0]))
            return resolve_alts(v, st.pc) if v.__class__ is AltV else v
        r = None
        for c, o, p, m in self.resolve(st, fid, place):
            x = self.read(st, o, p)
            r = x if r is None else merge(c, x, r)
        return UNDEF if r is None else r

    def write_place(self, st, fid, place, val):
        if not place[1]:
            st.mem[("L", fid, place[0])] = val
            return
        ts = self.resolve(st, fid, place)
        if len(ts) == 1:
            self.write(st, ts[0][1], ts[0][2], val)
        else:
            for c, o, p, m in ts:
                self.write(st, o, p, val, c)

    # ------------------------------------------------------------ scalars
    def num(self, v):
        v = ex(v)
        if v.__class__ is bdd.N:
            return v
        if v is UNDEF:
            return leaf(mkopq("undef"))
        if v.__class__ is Agg:
            return self.num(self.unwrap(v)) if v.v else leaf(0)
        if v.__class__ is EnumV:
            return v.d
        return top("num")

    def cond(self, v):
        """A 0/1 diagram."""
        n = self.num(v)

        def f(l):
            if l == 0 and isinstance(l, int):
                return F
            if isinstance(l, int):
                return T
            if isinstance(l, Lin):
                return NOT(eq(l, 0, l.w))
            return var(("opqb", l))
        return map1(f, n)

    def binop(self, op, a, b, ty):
        w = width(ty)
        signed = ty.k == "int"
        a, b = self.num(a), self.num(b)
        if op in ("Add", "AddUnchecked"):
            f = lambda x, y: op_add(w, x, y)
        elif op in ("Sub", "SubUnchecked"):
            f = lambda x, y: op_sub(w, x, y)
        elif op in ("Mul", "MulUnchecked"):
            f = lambda x, y: op_mul(w, x, y)
        elif op in ("BitAnd", "BitOr", "BitXor"):
            k = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op]
            if w == 1:
                ca, cb = self.cond(a), self.cond(b)
                return AND(ca, cb) if k == "and" else OR(ca, cb) if k == "or" else XOR(ca, cb)
            f = lambda x, y: op_bit(k, w, x, y)
        elif op in ("Shl", "ShlUnchecked"):
            f = lambda x, y: op_shl(w, x, y)
        elif op in ("Shr", "ShrUnchecked"):
            f = lambda x, y: op_shr(w, x, y, signed)
        elif op in ("Div", "Rem"):
            f = lambda x, y: op_divrem(op.lower(), w, x, y, signed)
        elif op in BIN_PRED:
            return self.compare(op, a, b, ty)
        elif op == "Cmp":
            lt = self.compare("Lt", a, b, ty)
            e = self.compare("Eq", a, b, ty)
            return EnumV(ite(lt, leaf(0), ite(e, leaf(1), leaf(2))), {0: (), 1: (), 2: ()})
        elif op == "Offset":
            return self.ptr_offset(a, b)
        else:
            return top("bin" + op)
        if w is None:
            return top("binw")

        def g(x, y):
            if isnum(x) and isnum(y):
                return f(x, y)
            return leaf(mkopq("bin", op, x, y))
        return map2(g, a, b)

    def ptr_offset(self, a, b):
        def g(x, y):
            if x.__class__ is Ref and isnum(y):
                p = x.path
                if p and p[-1].__class__ is tuple and p[-1][0] in ("i", "sl"):
                    return leaf(mkref(x.obj, p[:-1] + ((p[-1][0], addn(p[-1][1], leaf(y))),), x.meta))
                if y == 0:
                    return leaf(x)
                return leaf(mkref(x.obj, p + (("sl", leaf(y)),), x.meta))
            return leaf(mkopq("off", x, y))
        return map2(g, a, b)

    def compare(self, op, a, b, ty):
        w = width(ty)
        signed = ty.k == "int"
        a, b = self.num(a), self.num(b)
        if w == 1:
            a, b = self.cond(a), self.cond(b)

        def g(x, y):
            if isnum(x) and isnum(y) and w is not None:
                if op == "Eq":
                    return eq(x, y, w)
                if op == "Ne":
                    return NOT(eq(x, y, w))
                if op == "Lt":
                    return cmp_lt(w, signed, x, y)
                if op == "Ge":
                    return NOT(cmp_lt(w, signed, x, y))
                if op == "Gt":
                    return cmp_lt(w, signed, y, x)
                return NOT(cmp_lt(w, signed, y, x))
            if x is y:
                return T if op in ("Eq", "Le", "Ge") else F
            if op in ("Eq", "Ne"):
                if x.__class__ is Ref and y.__class__ is Ref:
                    r = F
                    if x.obj == y.obj:
                        r = var(("ptreq", x, y))
                    return r if op == "Eq" else NOT(r)
                u, v = sorted((str(x), str(y)))
                r = var(("opeq", u, v))
                return r if op == "Eq" else NOT(r)
            return var(("opcmp", op, str(x), str(y)))
        return map2(g, a, b)

    def overflow(self, op, a, b, ty):
        w = width(ty)
        signed = ty.k == "int"
        a, b = self.num(a), self.num(b)
        fn = {"Add": add_overflow, "Sub": sub_overflow, "Mul": mul_overflow}[op]

        def g(x, y):
            if isnum(x) and isnum(y):
                return fn(w, signed, x, y)
            return var(("ovf", op, str(x), str(y)))
        return map2(g, a, b)

    # ------------------------------------------------------------ constants
    def const(self, st, c, ty, crate):
        k = c[0]
        if k == "int":
            w = width(ty)
            v = c[1]
            if w is not None:
                return leaf(v & ((1 << w) - 1))
            if ty.k in ("struct", "enum"):
                return self.int_as(ty, v)
            return leaf(v)
        if k == "zst":
            return self.zst(ty)
        if k == "str":
            return leaf(mkstr(c[1]))
        if k == "ref":
            ety = ty.elem if ty.k in ("ref", "ptr") else None
            inner = c[1]
            if inner[0] == "str":
                return leaf(mkstr(inner[1]))
            key = ("const", crate.name, str(inner), ety.s if ety is not None else "")
            if key not in st.mem:
                if ety is not None and ety.k in ("slice", "array"):
                    t2 = ety
                else:
                    t2 = ety
                st.mem[key] = self.const(st, inner, t2, crate)
                if t2 is not None:
                    self.objty[key] = t2
            meta = None
            if ety is not None and ety.k == "slice":
                v = st.mem[key]
                meta = leaf(len(v.v) if v.__class__ is Agg else (v.n if v.__class__ is ArrV else 0))
            return leaf(mkref(key, (), meta))
        if k == "arr":
            ety = ty.elem if ty is not None and ty.k in ("array", "slice") else None
            if len(c[1]) > SMALL and ety is not None and width(ety) and all(x[0] == "int" for x in c[1]):
                s = set(x[1] for x in c[1])
                if len(s) == 1:
                    return ArrV(("fill", leaf(s.pop())), len(c[1]), ety)
                return ArrV(("fill", leaf(0)), len(c[1]), ety, tuple((T, leaf(i), leaf(x[1])) for i, x in enumerate(c[1])))
            return Agg(self.const(st, x, ety, crate) for x in c[1])
        if k == "rep":
            ety = ty.elem
            v = self.const(st, c[1], ety, crate)
            if c[2] <= (ARR_SMALL if width(ety) else SMALL):
                return Agg([v] * c[2])
            return ArrV(("fill", v), c[2], ety)
        if k == "tup":
            ts = ty.fields if ty is not None and ty.k in ("tuple", "closure") else [None] * len(c[1])
            return Agg(self.const(st, x, t, crate) for x, t in zip(c[1], ts))
        if k == "adt":
            t2 = crate.types[c[1]]
            fs = t2.variants[c[2]][2] if c[2] < len(t2.variants) else []
            vals = [self.const(st, x, fs[i][1] if i < len(fs) else None, crate) for i, x in enumerate(c[3])]
            return self.mk_adt(t2, c[2], vals)
        if k == "fn":
            return leaf(mkfnp(c[1]))
        if k == "static":
            key = ("static", c[1])
            if key not in st.mem:
                try:
                    st.mem[key] = self.const(st, c[2], ty.elem if ty is not None and ty.k in ("ref", "ptr") else None, crate) if c[2] else top("static")
                except Exception:
                    st.mem[key] = top("static")
            return leaf(mkref(key))
        if k == "rawptr":
            return leaf(mkopq("rawptr", c[1]))
        if ty is not None:
            return SymV(ty, fresh("const"))
        return top("const")

    def int_as(self, ty, v):
        """A scalar constant of a (newtype) struct or field-less enum."""
        if ty.k == "enum":
            for i, (n, d, fs) in enumerate(ty.variants):
                if d == v:
                    return EnumV(leaf(i), {i: ()})
            return leaf(v)
        fs = ty.variants[0][2]
        out = []
        for n, t in fs:
            if width(t) is not None:
                out.append(leaf(v & ((1 << width(t)) - 1)))
            elif t.k == "struct" and t.variants and t.variants[0][2]:
                out.append(self.int_as(t, v))
            else:
                out.append(self.zst(t))
        return self.mk_adt(ty, 0, out)

    def zst(self, ty):
        if ty is None:
            return UNIT
        if ty.k == "struct" and ty.variants:
            return self.mk_adt(ty, 0, [self.zst(t) for _, t in ty.variants[0][2]])
        if ty.k == "enum":
            return EnumV(leaf(0), {0: ()})
        if ty.k in ("tuple", "closure"):
            return Agg(self.zst(t) for t in ty.fields)
        if ty.k == "array":
            return Agg([self.zst(ty.elem)] * (ty.n or 0)) if (ty.n or 0) <= SMALL else UNIT
        if ty.k == "fndef":
            return leaf(mkfnp(ty.fn))
        return UNIT

    def mk_adt(self, ty, variant, vals):
        if ty.k == "enum":
            return EnumV(leaf(variant), {variant: tuple(vals)})
        if ty.path in TRANSPARENT or ty.box:
            if ty.path == "std::cell::RefCell":
                # value is the last field
                return vals[-1]
            for v in vals:
                v2 = ex(v) if v is not UNDEF else v
                if not (v2.__class__ is Agg and not v2.v):
                    return v
            return vals[0] if vals else UNIT
        return Agg(vals)

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, st, fid, fn, op):
        k = op[0]
        if k == "c" or k == "m":
            return self.read_place(st, fid, op[1])
        if k == "k":
            return self.const(st, op[1], fn.crate.types[op[2]], fn.crate)
        if k == "rc":
            return T if op[1] in ("overflow_checks",) else F
        raise Unsupported("operand " + k)

    def place_ty(self, fn, place):
        ty = fn.lty(place[0])
        for pr in place[1]:
            if ty is None:
                return None
            if pr == "*":
                ty = ty.elem if ty.k in ("ref", "ptr") else (ty.gargs[0] if ty.box else None)
            elif pr[0] == "f":
                ty = fn.crate.types[pr[2]]
            elif pr[0] in ("i", "ci"):
                ty = ty.elem if ty.k in ("array", "slice") else None
            elif pr[0] == "dc":
                pass
        return ty

    def op_ty(self, fn, op):
        if op[0] in ("c", "m"):
            return self.place_ty(fn, op[1])
        if op[0] == "k":
            return fn.crate.types[op[2]]
        return None

    def rvalue(self, st, fid, fn, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, fn, r[1])
        if k in ("ref", "addr"):
            place = r[2]
            ts = self.resolve(st, fid, place)
            v = None
            for c, o, p, m in ts:
                if o[0] == "strobj" and not p:
                    x = leaf(o[1])
                elif o[0] == "opqobj" and not p and isinstance(o[1], Opq):
                    x = leaf(o[1])
                else:
                    x = leaf(mkref(o, p, m))
                v = x if v is None else ite(c, x, v)
            return v if v is not None else UNDEF
        if k == "bin":
            return self.binop(r[1], self.operand(st, fid, fn, r[2]), self.operand(st, fid, fn, r[3]), fn.crate.types[r[4]])
        if k == "cbin":
            a, b = self.operand(st, fid, fn, r[2]), self.operand(st, fid, fn, r[3])
            ty = fn.crate.types[r[4]]
            return Agg((self.binop(r[1], a, b, ty), self.overflow(r[1], a, b, ty)))
        if k == "un":
            v = self.operand(st, fid, fn, r[2])
            ty = fn.crate.types[r[3]]
            return self.unop(st, r[1], v, ty)
        if k == "cast":
            return self.cast(st, fid, fn, r)
        if k == "agg":
            vals = [self.operand(st, fid, fn, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "array":
                if len(vals) > SMALL and all(v is vals[0] for v in vals):
                    return ArrV(("fill", vals[0]), len(vals), fn.crate.types[kk[1]])
                return Agg(vals)
            if kk[0] in ("tuple", "closure"):
                return Agg(vals)
            if kk[0] == "adt":
                ty = fn.crate.types[kk[1]]
                if ty.k == "union":
                    return vals[0] if vals else UNDEF
                return self.mk_adt(ty, kk[2], vals)
            if kk[0] == "rawptr":
                d, m = self.num(vals[0]), vals[1]
                mm = ex(m)
                if mm.__class__ is bdd.N:
                    def re_len(l):
                        if l.__class__ is Ref:
                            return leaf(mkref(l.obj, l.path, mm))
                        if l.__class__ is StrC:
                            n = mm.val if mm.v is None and isinstance(mm.val, int) else None
                            if n is None or n > len(l.s) or not l.s[:n].isascii():
                                return leaf(mkopq(fresh("cut")))
                            return leaf(mkstr(l.s[:n]))
                        return leaf(l)
                    return map1(re_len, d)
                return d
            return top("agg")
        if k == "discr":
            v = ex(self.read_place(st, fid, r[1]))
            ty = self.place_ty(fn, r[1])
            if v.__class__ is EnumV:
                if ty is None or ty.k != "enum":
                    return v.d
                w = None
                dv = [d for _, d, _ in ty.variants]
                rty = fn.crate.types[r[2]]
                w = width(rty) or 64
                m = (1 << w) - 1
                return map1(lambda l: leaf(dv[l] & m) if isinstance(l, int) and l < len(dv) else top("discr"), v.d)
            if v.__class__ is bdd.N:
                if ty is not None and ty.k == "enum":
                    # opaque value: keep the decision tied to the value
                    nv = len(ty.variants)
                    dv = [d for _, d, _ in ty.variants]
                    rty = fn.crate.types[r[2]]
                    m = (1 << (width(rty) or 64)) - 1

                    def f(l):
                        return map1(lambda i: leaf(dv[i] & m), enum_sym("d(%r)" % (l,), nv))
                    return map1(f, v)
                return map1(lambda l: leaf(mkopq("discr", l)), v)
            return top("discr")
        if k == "len":
            r2 = None
            for c, o, p, m in self.resolve(st, fid, r[1]):
                x = m if m is not None and m.__class__ is bdd.N else self.length(st, o, p)
                r2 = x if r2 is None else ite(c, x, r2)
            return r2
        if k == "rep":
            v = self.operand(st, fid, fn, r[1])
            n = r[2]
            if n is None:
                return top("rep")
            ety = self.op_ty(fn, r[1])
            if n <= (ARR_SMALL if ety is not None and width(ety) else SMALL):
                return Agg([v] * n)
            return ArrV(("fill", v), n, ety)
        return top("rv" + str(k))

    def unop(self, st, op, v, ty):
        if op == "Not":
            if ty.k == "bool":
                return NOT(self.cond(v))
            w = width(ty)
            return map1(lambda x: op_not(w, x) if isnum(x) else top("not"), self.num(v))
        if op == "Neg":
            w = width(ty)
            return map1(lambda x: op_sub(w, 0, x) if isnum(x) and w else top("neg"), self.num(v))
        if op == "PtrMetadata":
            n = self.num(v)

            def f(l):
                if l.__class__ is Ref:
                    if l.meta is not None and l.meta.__class__ is bdd.N:
                        return l.meta
                    return self.length(st, l.obj, l.path)
                if l.__class__ is StrC:
                    return leaf(len(l.s.encode()))
                return leaf(atom_lin(atom("len", (str(l),), 64)))
            return map1(f, n)
        return top("un")

    def cast(self, st, fid, fn, r):
        kind, v = r[1], self.operand(st, fid, fn, r[2])
        to, fr = fn.crate.types[r[3]], fn.crate.types[r[4]]
        if kind == "IntToInt":
            w1, w2 = width(fr), width(to)
            v = ex(v)
            if v.__class__ is EnumV:
                dv = [d for _, d, _ in fr.variants]
                return map1(lambda l: leaf(dv[l] & ((1 << w2) - 1)), v.d)
            n = self.num(v)
            if w1 is None or w2 is None:
                return top("cast")
            s1 = fr.k == "int"
            return map1(lambda x: cast(x, w1, s1, w2) if isnum(x) else leaf(mkopq("cast", x, w2)), n)
        if kind.startswith("PointerCoercion(Unsize"):
            return self.unsize(st, v, fr, to)
        if kind.startswith("PointerCoercion(Reify") or kind.startswith("PointerCoercion(Closure"):
            if fr.k == "fndef":
                return leaf(mkfnp(fr.fn))
            if fr.k == "closure":
                return leaf(mkfnp(fr.fn))
            return v
        if kind in ("PtrToPtr",) or kind.startswith("PointerCoercion"):
            return v
        # transmute and friends
        v2 = ex(v)
        if fr.k == "array" and to.k in ("uint", "int") and v2.__class__ is Agg and width(fr.elem) == 8:
            w = width(to)
            r2 = leaf(0)
            for i, b in enumerate(v2.v):
                z = map1(lambda x: cast(x, 8, False, w) if isnum(x) else top("tm"), self.num(b))
                z = map1(lambda x, i=i: op_shl(w, x, 8 * i) if isnum(x) else top("tm"), z)
                r2 = map2(lambda x, y: op_add(w, x, y) if isnum(x) and isnum(y) else top("tm"), r2, z)
            return r2
        if to.k == "array" and fr.k in ("uint", "int") and width(to.elem) == 8:
            w = width(fr)
            n = self.num(v)
            return Agg(map1(lambda x, i=i: leaf(ext(x, w, 8 * i, 8)) if isnum(x) else top("tm"), n) for i in range(to.n))
        if v2.__class__ is bdd.N and to.path == "std::option::Option" and fr.k in ("uint", "int"):
            # NonZero::new
            nz = map1(lambda x: (T if x else F) if isinstance(x, int) else NOT(eqn(leaf(x), leaf(0))), v2)
            return EnumV(ite(nz, leaf(1), leaf(0)), {0: (), 1: (v2,)})
        if v2.__class__ is EnumV and fr.path == "std::option::Option" and to.k in ("uint", "int") and 1 in v2.p:
            return ite(map1(lambda l: T if l == 1 else F, v2.d), self.num(self.unwrap(v2.p[1][0])), leaf(0))
        if v2.__class__ is bdd.N:
            return v2
        if v2.__class__ is Agg:
            if to.k in ("ptr", "ref", "int", "uint") or to.path in TRANSPARENT:
                u = self.unwrap(v2)
                return u
            if to.k in ("struct", "tuple", "array", "union"):
                return v2
        if v2.__class__ is EnumV and width(to):
            dv = [d for _, d, _ in fr.variants] if fr.k == "enum" else None
            if dv:
                return map1(lambda l: leaf(dv[l] & ((1 << width(to)) - 1)), v2.d)
        if v2 is UNDEF:
            return v2
        return v2 if v2.__class__ in (ArrV, VecV, MapV) else SymV(to, fresh("transmute"))

    def unsize(self, st, v, fr, to):
        n = self.num(self.unwrap(v))
        fe = fr.elem if fr.k in ("ref", "ptr") else (fr.gargs[0] if fr.gargs else None)
        te = to.elem if to.k in ("ref", "ptr") else (to.gargs[0] if to.gargs else None)
        if te is None or fe is None:
            return v
        if te.k == "slice" or fe.k == "array":
            ln = leaf(fe.n if fe.n is not None else 0)
            return map1(lambda l: leaf(mkref(l.obj, l.path, ln)) if l.__class__ is Ref else leaf(l), n)
        if te.k == "dyn" and fe.k == "dyn":
            return n
        if te.k == "dyn":
            return map1(lambda l: leaf(mkref(l.obj, l.path, ("dyn", fe, te))) if l.__class__ is Ref else leaf(l), n)
        return v

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, bad, fn, line):
        """Record that `bad` must not hold here; returns the surviving path condition."""
        self.sites += 1
        c = AND(st.pc, bad)
        o = Ob()
        o.kind, o.fn, o.file, o.line, o.cond = kind, fn.name, fn.file, line, c
        o.stack = [(f.name, f.file, l) for f, l in self.stack]
        self.obs.append(o)
        st.pc = AND(st.pc, NOT(bad))

    # ------------------------------------------------------------ calls
    def call_fn(self, st, key, args, destty=None, line=0, caller=None, untuple=False):
        """-> (value, state) or None when the call does not return."""
        ref = self.p.refs.get(key)
        if ref is None:
            return self.unknown_call(st, "?" + str(key), args, destty)
        name, path = ref["name"], ref["path"]
        h = self.hooks.get(name) or self.hooks.get(path)
        if h is None:
            h = self._hcache.get(key, 0)
            if h == 0:
                h = self._hcache[key] = self.find_model(name, path)
        if h is not None and values.ALTS[0] and args and COLL.match(path):
            r = self.by_case(st, key, args, destty, line, caller, untuple)
            if r is not NotImplemented:
                return r
        if h is not None:
            r = h(self, st, args, dict(ref=ref, ty=destty, line=line, fn=caller, key=key))
            if r is None:
                return None
            if r is not NotImplemented:
                return r, st
        if ref["kind"].startswith("virtual"):
            return self.virtual(st, ref, args, destty, line, caller)
        fn = self.p.fns.get(key)
        if fn is None or len(self.stack) > self.maxdepth:
            return self.unknown_call(st, name, args, destty)
        if untuple and key in self.p.closure_fns and len(args) == 2:
            a = ex(args[1])
            if a.__class__ is Agg:
                args = [args[0]] + list(a.v)
        return self.exec_fn(fn, args, st, line, caller)

    def by_case(self, st, key, args, destty, line, caller, untuple):
        """A library operation on a collection that is one of several, or an iterator over one: every alternative by itself."""
        for i, a in enumerate(args):
            ref = a.val if a.__class__ is bdd.N and a.v is None and a.val.__class__ is Ref and a.val.obj in st.mem else None
            if ref is not None:
                cs = self.cases(st, ref.obj, ref.path)
            elif a.__class__ is AltV:
                cs = [(g, x) for g, x in a.cases if feasible(AND(st.pc, g))]
            elif a.__class__ is Agg:
                cs = [(T, a)]
            else:
                continue
            cs = [(AND(g, h), y) for g, x in cs for h, y in self.split_iter(x, AND(st.pc, g))]
            if len(cs) < 2:
                continue
            out = None
            tys = self.argtys
            for g, x in cs:
                s2 = st.copy(AND(st.pc, g))
                l = list(args)
                self.argtys = tys
                if ref is not None:
                    self.write(s2, ref.obj, ref.path, x)
                else:
                    l[i] = x
                q = self.call_fn(s2, key, l, destty, line, caller, untuple)
                if q is None:
                    continue
                if out is None:
                    out = q
                else:
                    out = merge(out[1].pc, out[0], q[0]), merge_states(out[1], q[1])
            if out is None:
                return None
            st.mem, st.pc = out[1].mem, out[1].pc
            return out[0], st
        return NotImplemented

    def split_iter(self, x, pc, depth=0):
        """[(condition, value)]: iterators (buffer, next, end) with one pair of bounds each"""
        if x.__class__ is not Agg or depth > 3:
            return [(T, x)]
        v = x.v
        if len(v) == 3 and v[0].__class__ is bdd.N and v[1].__class__ is bdd.N and v[2].__class__ is bdd.N and not (v[1].v is None and v[2].v is None):
            if not all(l.__class__ is Ref for _, l in guards(v[0])):
                return [(T, x)]
            out = {}
            for g, i in guards(v[1]):
                for h, n in guards(v[2]):
                    c = AND(g, h)
                    if i.__class__ is not int or n.__class__ is not int:
                        return [(T, x)]
                    if feasible(AND(pc, c)):
                        k = (i, n)
                        out[k] = OR(out.get(k, F), c)
            if not 1 <= len(out) <= 8:
                return [(T, x)]
            return [(c, Agg((v[0], leaf(i), leaf(n)))) for (i, n), c in out.items()]
        for j, y in enumerate(v):
            if y.__class__ is Agg:
                r = self.split_iter(y, pc, depth + 1)
                if len(r) > 1:
                    return [(c, Agg(v[:j] + (z,) + v[j + 1:])) for c, z in r]
        if len(v) == 2 and v[0].__class__ is Agg and v[1].__class__ is bdd.N and v[1].v is not None:
            # skip and take carry a number
            out = [(g, l) for g, l in guards(v[1]) if feasible(AND(pc, g))]
            if 1 <= len(out) <= 4 and all(l.__class__ is int for _, l in out):
                return [(g, Agg((v[0], leaf(l)))) for g, l in out]
        return [(T, x)]

    def find_model(self, name, path):
        h = self.models.get(name) or self.models.get(path)
        if h is not None:
            return h
        for pre, hh in self.prefix_models:
            if path.startswith(pre) or name.startswith(pre):
                return hh
        for rx, hh in self.regex_models:
            if rx.search(path):
                return hh
        return None

    def virtual(self, st, ref, args, destty, line, caller):
        idx = int(ref["kind"].split(":")[1])
        n = self.num(self.unwrap(args[0]))
        res, rst = None, None
        for g, l in guards(n):
            if not (l.__class__ is Ref and l.meta.__class__ is tuple and l.meta[0] == "dyn"):
                return self.unknown_call(st, ref["name"], args, destty)
        for g, l in guards(n):
            s2 = st.copy(AND(st.pc, g))
            if s2.pc is F:
                continue
            fe, te = l.meta[1], l.meta[2]
            key = None
            if fe.k == "closure":
                key = fe.fn
            elif fe.k == "fndef":
                key = fe.fn
            else:
                ms = fe._crate.vtables.get((fe.s, te.s))
                if ms and idx < len(ms):
                    key = ms[idx]
            if key is None:
                return self.unknown_call(st, ref["name"], args, destty)
            a2 = [leaf(mkref(l.obj, l.path))] + list(args[1:])
            if fe.k == "fndef":
                t = ex(args[1])
                a2 = list(t.v) if t.__class__ is Agg else [args[1]]
            r = self.call_fn(s2, key, a2, destty, line, caller, untuple=True)
            if r is None:
                continue
            if res is None:
                res, rst = r
            else:
                # join
                s3 = r[1]
                rst.mem["$ret"] = res
                s3.mem["$ret"] = r[0]
                rst = merge_states(rst, s3)
                res = rst.mem.pop("$ret")
        if rst is None:
            return None
        return res, rst

    def unknown_call(self, st, name, args, destty):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        for a in args:
            self.havoc_reach(st, a)
        if destty is None:
            return top("ext"), st
        if destty.k == "tuple" and not destty.f:
            return UNIT, st
        return SymV(destty, fresh("ext")), st

    def havoc_reach(self, st, a, depth=0):
        """Forget what an unknown callee could modify through a pointer argument."""
        a = ex(a) if a is not UNDEF else a
        if a.__class__ is Agg and depth < 3:
            for x in a.v:
                self.havoc_reach(st, x, depth + 1)
            return
        if a.__class__ is not bdd.N:
            return
        for l in leaves(a):
            if l.__class__ is Ref and l.obj[0] not in ("const", "static", "strobj"):
                ty = self.objty.get(l.obj)
                self.unknown_writes = getattr(self, "unknown_writes", 0) + 1
                if not l.path:
                    st.mem[l.obj] = SymV(ty, fresh("hv")) if ty is not None else top("hv")
                else:
                    self.write(st, l.obj, l.path, top("hv"))

    def exec_fn(self, fn, args, st, line=0, caller=None):
        self.visited_fns.add(fn.key)
        self.fidc += 1
        fid = self.fidc
        if fn.spread and len(args) != fn.nargs:
            # callee expects the trailing arguments as one tuple
            n = fn.spread
            args = list(args[:n - 1]) + [Agg(args[n - 1:])]
        snap_mem, snap_pc, snap_obs, snap_ev = dict(st.mem), st.pc, len(self.obs), len(self.events)
        while True:
            for i, a in enumerate(args):
                st.mem[("L", fid, i + 1)] = a
            self.stack.append((caller, line) if caller is not None else (fn, fn.line))
            depth = len(self.stack)
            try:
                rets = self.run_blocks(fn, fid, {0: st}, None)
                break
            except NeedHavoc as e:
                if e.fid != fid:
                    raise
                self.havoc[(fn.key, e.header)] = True
                st.mem = dict(snap_mem)
                st.pc = snap_pc
                del self.obs[snap_obs:]
                del self.events[snap_ev:]
            finally:
                del self.stack[depth - 1:]
        rets = rets.get("ret")
        if rets is None:
            return None
        out = rets
        rv = out.mem.get(("L", fid, 0), UNIT)
        if rv is UNDEF:
            rv = UNIT
        for i in range(len(fn.locals)):
            out.mem.pop(("L", fid, i), None)
        # keep the caller's state object identity
        st.mem = out.mem
        st.pc = out.pc
        return rv, st

    def add_pend(self, pend, b, s):
        o = pend.get(b)
        pend[b] = s if o is None else merge_states(o, s)

    def run_blocks(self, fn, fid, pend, region, header=None):
        """Run pending blocks. With region: only blocks in it; edges to `header` and
        out of the region are collected instead of followed."""
        rpo, loops = analyse_cfg(fn)
        out = {}
        seen_hdr = {}
        first = True
        while pend:
            # innermost pending loop bodies first
            b = min(pend, key=lambda x: rpo[x])
            if b in loops and len(pend) > 1 and b in seen_hdr:
                body = [x for x in pend if x in loops[b] and x != b]
                if body:
                    b = min(body, key=lambda x: rpo[x])
            s = pend.pop(b)
            if b in loops and not (region is not None and b == header):
                hv = self.havoc.get((fn.key, b))
                if hv is None and self.loop_hook is not None:
                    hv = self.loop_hook(self, fn, b)
                if hv:
                    ex_ = self.widen(fn, fid, b, s)
                    for t, s2 in ex_.items():
                        if t == "ret" or (region is not None and t not in region) or t == header:
                            self.add_pend(out, t, s2)
                        else:
                            self.add_pend(pend, t, s2)
                    continue
                prev = seen_hdr.get(b)
                if prev is None:
                    seen_hdr[b] = [s.pc, 0, 0]
                else:
                    prev[2] += 1
                    if prev[0] is not s.pc:
                        prev[1] += 1
                    prev[0] = s.pc
                    if prev[1] > self.unroll_limit or prev[2] > self.visit_limit:
                        raise NeedHavoc(fid, fn.key, b)
            for t, s2 in self.step(fn, fid, b, s):
                if t == "ret":
                    self.add_pend(out, "ret", s2)
                elif region is not None and (t not in region or t == header):
                    self.add_pend(out, t, s2)
                else:
                    if t in loops and b not in loops[t] and t in seen_hdr:
                        # entering the loop afresh
                        del seen_hdr[t]
                    self.add_pend(pend, t, s2)
        return out

    # ---- widening
    def diff(self, a, b, path, out, ty=None):
        if a is b:
            return
        if a.__class__ is SymV and b.__class__ is SymV and a.ty is b.ty and a.name == b.name:
            return
        if b is UNDEF or a is UNDEF:
            if a is not UNDEF or b is not UNDEF:
                out.add(path)
            return
        a, b = ex(a), ex(b)
        if a is b:
            return
        if a.__class__ is Agg and b.__class__ is Agg and len(a.v) == len(b.v):
            for i, (x, y) in enumerate(zip(a.v, b.v)):
                self.diff(x, y, path + (i,), out)
            return
        if a.__class__ is EnumV and b.__class__ is EnumV:
            if a.d is not b.d:
                out.add(path)
                return
            for k in a.p:
                if k in b.p:
                    for i, (x, y) in enumerate(zip(a.p[k], b.p[k])):
                        self.diff(x, y, path + (("v", k), i), out)
            return
        if same(a, b):
            return
        out.add(path)

    def sub_ty(self, ty, path):
        for e in path:
            if ty is None:
                return None
            while ty.k == "struct" and ty.path in ("std::cell::RefCell", "std::cell::Cell", "std::cell::UnsafeCell", "std::mem::ManuallyDrop"):
                ty = ty.gargs[0]
            if e.__class__ is int:
                if ty.k in ("tuple", "closure"):
                    ty = ty.fields[e] if e < len(ty.fields) else None
                elif ty.k == "struct":
                    fs = ty.variants[0][2]
                    ty = fs[e][1] if e < len(fs) else None
                elif ty.k == "array":
                    ty = ty.elem
                elif ty.k == "_variant":
                    ty = None
                else:
                    return None
            elif e[0] == "v":
                if ty.k != "enum":
                    return None
                class VT:
                    pass
                vt = VT()
                vt.k = "tuple"
                vt.fields = [t for _, t in ty.variants[e[1]][2]]
                vt.path = None
                vt.s = "variant"
                ty = vt
            else:
                return None
        return ty

    def obj_type(self, fn, fid, key):
        if key[0] == "L":
            if key[1] == fid:
                return fn.lty(key[2])
            return self.frame_ty.get((key[1], key[2])) if hasattr(self, "frame_ty") else None
        return self.objty.get(key)

    def havoc_at(self, fn, fid, key, path, v, nm):
        ty = self.obj_type(fn, fid, key)
        t = self.sub_ty(ty, path) if ty is not None else None
        name = "%s%s%s" % (nm, key[1:] if key[0] != "L" or key[1] != fid else "_%d" % key[2], "".join("." + str(p) for p in path))
        if t is not None and hasattr(t, "_crate"):
            if t.k in ("ref", "ptr") or (t.k == "struct" and (t.path in TRANSPARENT and t.path not in ("std::cell::RefCell", "std::cell::Cell"))):
                return leaf(mkopq("hav", name))
            return SymV(t, name)
        return leaf(mkopq("hav", name))

    def widen(self, fn, fid, header, s0):
        rpo, loops = analyse_cfg(fn)
        body = loops[header]
        nm = "loop%s@%d" % (fresh("w"), header)
        paths = {}
        obs0, ev0 = len(self.obs), len(self.events)
        it = 0
        while True:
            it += 1
            if it > 40:
                raise Unsupported("widening does not stabilise in %s" % fn.name)
            del self.obs[obs0:]
            del self.events[ev0:]
            h = s0.copy()
            for key, ps in paths.items():
                v = self.load_obj(h, key)
                for p in sorted(ps, key=lambda q: (len(q), str(q))):
                    nv = self.havoc_at(fn, fid, key, p, v, nm)
                    h.mem[key] = self.navset(h.mem[key], p, nv, T) if p else nv
            hk = dict(h.mem)
            if self.widened_hook is not None:
                self.widened_hook(self, fn, fid, header, h)
                hk = dict(h.mem)
            out = self.run_blocks(fn, fid, {header: h}, body, header)
            back = out.pop(header, None)
            changed = False
            if back is not None:
                for key, v0 in hk.items():
                    v1 = back.mem.get(key)
                    if v1 is None or v1 is v0:
                        continue
                    ps = set()
                    self.diff(v0, v1, (), ps)
                    if ps:
                        cur = paths.setdefault(key, set())
                        for p in ps:
                            if any(p[:len(q)] == q for q in cur):
                                continue
                            cur.difference_update([q for q in cur if q[:len(p)] == p])
                            cur.add(p)
                            changed = True
            if not changed:
                self.widened[(fn.name, header)] = (it, sum(len(x) for x in paths.values()))
                self.find_counters(s0, hk, back, paths)
                if self.loop_done is not None:
                    self.loop_done(self, fn, fid, header, s0, hk, back, out)
                return out

    def find_counters(self, s0, hk, back, paths):
        """64-bit loop variables that start small and grow by at most 16 per iteration
        stay below 2^63 in any run that can finish."""
        if back is None:
            return
        for key, ps in paths.items():
            for p in ps:
                h = ex(self.navget(hk[key], p))
                v0 = ex(self.navget(s0.mem.get(key, UNDEF), p)) if s0.mem.get(key, UNDEF) is not UNDEF else UNDEF
                v1 = ex(self.navget(back.mem.get(key, UNDEF), p)) if back.mem.get(key, UNDEF) is not UNDEF else UNDEF
                if not (h.__class__ is bdd.N and h.v is None and h.val.__class__ is Lin and h.val.w == 64):
                    continue
                if not (v0.__class__ is bdd.N and v1.__class__ is bdd.N and all(isinstance(l, int) and l < 1 << 32 for l in leaves(v0))):
                    continue
                ds = [lin_sub(64, l, h.val) if isinstance(l, (int, Lin)) else None for l in leaves(v1)]
                if all(isinstance(d, int) and d <= 16 for d in ds):
                    self.counters.append(ult_const(h.val, 64, 1 << 63))

    widened_hook = None
    loop_done = None

    # ------------------------------------------------------------ one block
    def step(self, fn, fid, b, s):
        self.steps += 1
        stmts, t = fn.bb[b]
        for q in stmts:
            k = q[0]
            if k == "=":
                self.write_place(s, fid, q[1], self.rvalue(s, fid, fn, q[2]))
            elif k == "live":
                s.mem[("L", fid, q[1])] = UNDEF
            elif k == "dead":
                s.mem.pop(("L", fid, q[1]), None)
            elif k == "sd":
                v = self.read_place(s, fid, q[1])
                v = ex(v) if v is not UNDEF else v
                if v.__class__ is EnumV:
                    self.write_place(s, fid, q[1], EnumV(leaf(q[2]), v.p))
                else:
                    self.write_place(s, fid, q[1], EnumV(leaf(q[2]), {q[2]: ()}))
        k = t[0]
        if k == "goto":
            return [(t[1], s)]
        if k == "ret":
            return [("ret", s)]
        if k == "drop":
            return [(t[2], s)]
        if k == "sw":
            return self.switch(fn, fid, t, s)
        if k == "assert":
            if t[3] in ("nullptr", "misaligned"):
                return [(t[4], s)]      # checks rustc adds to raw-pointer code, out of reach of safe code
            c = self.cond(self.operand(s, fid, fn, t[1]))
            bad = NOT(c) if t[2] else c
            self.oblige(s, "assert:" + t[3], bad, fn, t[6] if len(t) > 6 else 0)
            if s.pc is F:
                return []
            return [(t[4], s)]
        if k == "call":
            return self.do_call(fn, fid, t, s)
        if k == "unreach":
            return []
        if k in ("resume", "abort"):
            return []
        raise Unsupported("terminator " + k)

    def switch(self, fn, fid, t, s):
        v = self.operand(s, fid, fn, t[1])
        ty = fn.crate.types[t[4]]
        w = width(ty) or 64
        m = (1 << w) - 1
        n = self.num(v)
        out = []
        rest = T

        def is_k(kk):
            def f(l):
                if isinstance(l, int):
                    return T if (l & m) == kk else F
                if isinstance(l, Lin):
                    return eq(l, kk, l.w)
                if w == 1:
                    x = var(("opqb", l))
                    return x if kk else NOT(x)
                return var(("opqk", l, kk))
            return map1(f, n)
        for kk, tb in t[2]:
            c = AND(rest, is_k(kk & m))
            rest = AND(rest, NOT(c))
            npc = AND(s.pc, c)
            if npc is F or not feasible(npc):
                continue
            out.append((tb, npc))
        if t[3] is not None and fn.bb[t[3]][1][0] != "unreach" or (t[3] is not None and fn.bb[t[3]][0]):
            npc = AND(s.pc, rest)
            if npc is not F and feasible(npc):
                out.append((t[3], npc))
        if len(out) == 1:
            s.pc = out[0][1]
            return [(out[0][0], s)]
        return [(tb, State(dict(s.mem), npc)) for tb, npc in out]

    def do_call(self, fn, fid, t, s):
        _, func, args, dest, target, line = t[:6]
        av = [self.operand(s, fid, fn, a) for a in args]
        dty = self.place_ty(fn, dest)
        if func[0] == "fn":
            key = func[1]
            path = func[2]
            un = fn.kind != "shim" and path.rsplit("::", 1)[-1] in ("call_once", "call_mut", "call")
            self.argtys = [self.op_ty(fn, a) for a in args]
            if un and key in self.p.fns and key not in self.p.closure_fns and self.p.fns[key].kind != "shim" and not path.startswith("<"):
                # direct call of a fn item through Fn* traits
                a = ex(av[1]) if len(av) == 2 else None
                if a is not None and a.__class__ is Agg and self.p.fns[key].nargs == len(a.v):
                    av = list(a.v)
            r = self.call_fn(s, key, av, dty, line, fn, untuple=un)
        elif func[0] == "ptr":
            fp = self.num(self.operand(s, fid, fn, func[1]))
            ls = leaves(fp)
            if len(ls) == 1 and ls[0].__class__ is FnP:
                r = self.call_fn(s, ls[0].key, av, dty, line, fn)
            else:
                r = self.unknown_call(s, "fnptr", av, dty)
        else:
            r = self.unknown_call(s, "unresolved " + str(func[1]), av, dty)
        if r is None:
            return []
        val, s = r
        if target is None:
            return []
        if s.pc is F:
            return []
        self.write_place(s, fid, dest, val)
        return [(target, s)]

    # ------------------------------------------------------------ entry
    def run(self, fn, args, st):
        return self.exec_fn(fn, args, st)

    def failures(self):
        """Obligations not discharged: distinct sites whose panic condition is satisfiable."""
        out, seen = [], set()
        for o in self.obs:
            k = (o.kind,) + o.site()
            if o.cond is F or k in seen:
                continue
            c = o.cond
            if not feasible(c):
                continue
            for a in self.counters:
                c = AND(c, a)
            if feasible(c):
                seen.add(k)
                o.cond = c
                out.append(o)
        return out
