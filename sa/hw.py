"""Interpretation of the processors: construction, one symbolic cycle, observables."""
from interp import *
import interp
from compare import may_differ, show, neq

BUILTIN = ("seq_std", "seq_plus_std", "pipe_std")


class HwError(Exception):
    """The shape of the code is not one this analysis understands."""


def new_interp(prog):
    I = Interp(prog)
    I.unroll_limit = I.visit_limit = 6000
    return I


class Cpu:
    """A PipeSim<Arch> in an arbitrary state (symbolic signals, registers, memory)."""

    def __init__(self, prog, arch, hash_perm=None):
        self.p, self.arch = prog, arch
        I = self.I = new_interp(prog)
        if hash_perm is not None:
            I.hash_perm = hash_perm
        pat = "::%s::Arch>" % arch
        c = [f for f in prog.fns.values() if f.name.startswith("y86_sim::framework::PipeSim::<") and pat in f.name and f.name.endswith(">::new")]
        if len(c) != 1:
            raise HwError("constructor of %s not found" % arch)
        self.newfn = c[0]
        init = [f for f in prog.fns.values() if f.name == "y86_sim::framework::MemData::init"]
        if not init:
            raise HwError("MemData::init not found")
        st = State({}, T)
        r = I.run(init[0], [SymV(init[0].lty(1), "mem")], st)
        if r is None:
            raise HwError("MemData::init does not return")
        self.memd, st = r
        r = I.run(c[0], [self.memd, F], st)
        if r is None:
            raise HwError("constructing %s always panics" % arch)
        val, st = r
        self.simty = c[0].lty(0)
        self.built = ex(val)
        self.st0 = st
        I.unroll_limit = I.visit_limit = 400
        self.obs0 = len(I.obs)
        self.fields = [n for n, _ in self.simty.variants[0][2]]
        self.ftys = dict(self.simty.variants[0][2])
        self.methods = {}
        for f in prog.fns.values():
            if pat in f.name and "PipeSim<" in f.name:
                self.methods[f.name.rsplit("::", 1)[1]] = f
        self.sim = None
        self.undriven = None

    def field(self, v, name):
        return ex(ex(v).v[self.fields.index(name)])

    # ------------------------------------------------------------ circuit
    def order(self):
        """[(is_unit, name)] of the built propagation order, when it folds to a constant."""
        c = self.field(self.built, "circuit")
        ct = self.ftys["circuit"]
        o = ex(c.v[[n for n, _ in ct.variants[0][2]].index("order")])
        ot = dict(ct.variants[0][2])["order"]
        names = [n for n, _ in ot.variants[0][2]]
        d = {n: ex(x) for n, x in zip(names, o.v)}
        return d, dict(ot.variants[0][2])

    def order_items(self):
        d, t = self.order()
        v = d.get("order")
        if v.__class__ is not VecV:
            return None
        it = t["order"].gargs[0]
        names = [n for n, _ in it.variants[0][2]]
        out = []
        for x in v.items:
            x = ex(x)
            e = {n: ex(y) for n, y in zip(names, x.v)}
            u, nm = e["is_unit"], e["name"]
            if u not in (T, F) or nm.v is not None or nm.val.__class__ is not StrC:
                return None
            lv = e.get("level")
            out.append((u is T, nm.val.s, lv.val if lv is not None and lv.v is None else None))
        return out

    def edges(self):
        d, t = self.order()
        v = d.get("edges")
        if v.__class__ is not VecV:
            return None
        out = []
        for x in v.items:
            x = ex(x)
            a, b = ex(x.v[0]), ex(x.v[1])
            if a.v is not None or b.v is not None or a.val.__class__ is not StrC or b.val.__class__ is not StrC:
                return None
            out.append((a.val.s, b.val.s))
        return out

    # ------------------------------------------------------------ symbolic state
    def symbolic(self, overrides=None):
        """Put the processor into an arbitrary state; -> (state, reference to it)."""
        I = self.I
        st = self.st0.copy()
        vals = []
        for n, t in self.simty.variants[0][2]:
            x = ex(self.built.v[self.fields.index(n)])
            if n.startswith("cur_") or n == "nex_state":
                x = SymV(t, n)
            elif n == "cycle_count":
                x = inp(n, 64)
                if not I.counters:
                    I.counters.append(ult_const(x.val, 64, 1 << 63))
            elif n == "terminate":
                x = F
            elif n == "units":
                x = self.sym_units(st, x, t, "units")
            vals.append(x)
        v = Agg(vals)
        ob = I.alloc(st, v, self.simty, "sim")
        self.ob = ob
        self.sim = leaf(mkref(ob))
        return st

    def sym_units(self, st, v, t, nm):
        """Replace stored unit state by symbolic values, keeping sharing."""
        v = ex(v)
        if v.__class__ is bdd.N and v.v is None and v.val.__class__ is Ref:
            o = v.val.obj
            if o not in self.shared:
                if o == self.memobj():
                    self.shared[o] = "mem"
                else:
                    g = t
                    while g.path in ("std::rc::Rc", "std::cell::RefCell", "std::sync::Arc", "std::cell::Cell"):
                        g = g.gargs[0]
                    if g.path == self.memd_ty() or (g.k == "array" and g.n == 65536):
                        self.shared[o] = nm
                    else:
                        self.shared[o] = nm
                    self.I.write(st, o, (), SymV(g, nm))
            return v
        if t.k == "struct" and v.__class__ is Agg and t.variants:
            return Agg(self.sym_units(st, x, ft, nm + "." + fn) for x, (fn, ft) in zip(v.v, t.variants[0][2]))
        if t.k in ("bool", "uint", "int", "array", "enum"):
            return SymV(t, nm)
        return v

    def memd_ty(self):
        return "framework::MemData"

    def memobj(self):
        """Object holding the memory bytes."""
        v = ex(self.memd)
        while v.__class__ is Agg:
            v = ex(v.v[0])
        return v.val.obj if v.__class__ is bdd.N and v.v is None and v.val.__class__ is Ref else None

    def start(self):
        """Arbitrary state; signals no update drives keep the value they were built with."""
        self.shared = {}
        st = self.symbolic()
        if self.undriven is None:
            self.undriven = []
            n0 = len(self.I.obs)
            r = self.call(st.copy(), "update")
            if r is not None:
                a, t = self.get(st, "nex_state")
                b, _ = self.get(r[1], "nex_state")
                c = self.field(self.built, "nex_state")
                self.find_undriven(a, b, c, t, ("nex_state",))
            del self.I.obs[n0:]
            self.shared = {}
            st = self.symbolic()
        for path, v in self.undriven:
            self.put(st, v, *path)
        return st

    def initial(self):
        """The state of a freshly built processor."""
        st = self.st0.copy()
        self.ob = self.I.alloc(st, self.built, self.simty, "sim0")
        self.sim = leaf(mkref(self.ob))
        return st

    def find_undriven(self, a, b, c, t, path):
        a, b, c = ex(a), ex(b), ex(c)
        if t.k == "struct" and a.__class__ is Agg and t.variants:
            for (n, ft), x, y, z in zip(t.variants[0][2], a.v, b.v, c.v):
                self.find_undriven(x, y, z, ft, path + (n,))
        elif a is b:
            self.undriven.append((path, c))

    def call(self, st, m, args=()):
        f = self.methods.get(m)
        if f is None:
            raise HwError("%s has no %s" % (self.arch, m))
        h0 = set(self.I.havoc)
        r = self.I.call_fn(st, f.key, [self.sim] + list(args))
        for k, b in set(self.I.havoc) - h0:
            g = self.p.fns[k]
            if not g.file.startswith("/"):
                raise HwError("a loop of %s has no static bound" % g.name)
        return r

    def get(self, st, *path):
        v = self.I.read(st, self.ob, ())
        t = self.simty
        for p in path:
            v = ex(v)
            names = [n for n, _ in t.variants[0][2]]
            v = v.v[names.index(p)]
            t = dict(t.variants[0][2])[p]
        return v, t

    def put(self, st, val, *path):
        v = self.I.read(st, self.ob, ())

        def f(v, t, path):
            if not path:
                return val
            v = ex(v)
            names = [n for n, _ in t.variants[0][2]]
            i = names.index(path[0])
            xs = list(v.v)
            xs[i] = f(xs[i], dict(t.variants[0][2])[path[0]], path[1:])
            return Agg(xs)
        self.I.write(st, self.ob, (), f(v, self.simty, path))

    def memory(self, st):
        return ex(self.I.read(st, self.memobj(), ()))

    def registers(self, st):
        s = st.copy()
        r = self.call(s, "registers")
        if r is None:
            raise HwError("registers() does not return")
        return ex(r[0])

    def cc(self, st):
        """(zf, sf, of) held by the units."""
        out = []

        def walk(v, t):
            v = ex(v)
            if t.path and t.path.endswith("::ConditionCode") or t.path == "ConditionCode":
                d = {n: x for (n, _), x in zip(t.variants[0][2], v.v)}
                out.append(tuple(self.I.cond(d[k]) for k in ("zf", "sf", "of")))
                return
            if v.__class__ is bdd.N and v.v is None and v.val.__class__ is Ref:
                g = t
                while g.path in ("std::rc::Rc", "std::cell::RefCell", "std::sync::Arc", "std::cell::Cell"):
                    g = g.gargs[0]
                if g.k == "struct":
                    walk(self.I.read(st, v.val.obj, v.val.path), g)
                return
            if t.k == "struct" and v.__class__ is Agg and t.variants:
                for x, (_, ft) in zip(v.v, t.variants[0][2]):
                    walk(x, ft)
        v, t = self.get(st, "units")
        walk(v, t)
        if len(out) != 1:
            raise HwError("%d stored condition codes in the units of %s" % (len(out), self.arch))
        return out[0]

    def pc_of(self, st):
        """The fetch address the processor computes in this state (before the cycle runs)."""
        s = st.copy()
        saved = self.field(self.built, "circuit")
        items = self.order_items()
        es = self.edges()
        if items is None or es is None:
            raise HwError("propagation order of %s is not a constant" % self.arch)
        pcn = self.pc_name()
        need = {pcn}
        ch = True
        while ch:
            ch = False
            for a, b in es:
                if b in need and a not in need:
                    need.add(a)
                    ch = True
        c, ct = self.get(s, "circuit")
        d, t = self.order()
        ov = d["order"]
        keep = VecV(x for x, (u, n, _) in zip(ov.items, items) if n in need)
        self.put(s, keep, "circuit", "order", "order")
        r = self.call(s, "update")
        if r is None:
            raise HwError("computing the fetch address does not return")
        s = r[1]
        r = self.call(s, "program_counter")
        return self.I.num(r[0])

    def pc_name(self):
        """Name of the intermediate signal program_counter() returns."""
        if getattr(self, "_pcn", None) is None:
            keep = self.__dict__.get("ob"), self.sim, self.__dict__.get("shared")
            s = self.start()
            v = ex(self.call(s, "program_counter")[0])
            self.ob, self.sim, self.shared = keep
            for n, t in self.ftys["cur_inter"].variants[0][2]:
                if ex(SymV(t, "cur_inter." + n)) is v:
                    self._pcn = n
                    return n
            raise HwError("program_counter() is not an intermediate signal")
        return self._pcn
