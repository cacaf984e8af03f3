"""H07-H11: the hardware unit sets and the clock edge."""
from hw import *
import spec
from chk_hw import visited, guard, obligations, initial_state, each

SETS = ("hardware_pipe", "hardware_seq")


class UnitSet:
    """The Units of one hardware module over a shared symbolic memory."""

    def __init__(self, prog, mod, tracing=False):
        self.p, self.mod = prog, mod
        I = self.I = Interp(prog)
        I.unroll_limit = I.visit_limit = 400
        I.tracing = tracing
        base = "y86_sim::architectures::%s::" % mod
        fn = {f.name: f for f in prog.fns.values()}
        self.runfn = fn.get(base + "Units::run")
        init = fn.get("<%sUnits as y86_sim::framework::HardwareUnits>::init" % base)
        self.regfn = fn.get("<%sUnits as y86_sim::framework::HardwareUnits>::register_file" % base)
        md = fn.get("y86_sim::framework::MemData::init")
        if not (self.runfn and init and md and self.regfn):
            raise HwError("the unit set %s does not have the expected entry points" % mod)
        st = State({}, T)
        r = I.run(md, [SymV(md.lty(1), "mem")], st)
        self.memd, st = r
        r = I.run(init, [self.memd], st)
        if r is None:
            raise HwError("Units::init of %s panics" % mod)
        units, st = r
        self.uty = init.lty(0)
        c = Cpu.__new__(Cpu)
        c.I, c.memd, c.shared = I, self.memd, {}
        self.cpu = c
        units = c.sym_units(st, units, self.uty, "units")
        self.st = st
        self.uobj = I.alloc(st, units, self.uty, "units")
        it, ot = self.runfn.lty(3).fields
        self.ity, self.oty = it.elem, ot.elem
        self.iobj = I.alloc(st, SymV(self.ity, "in"), self.ity, "in")
        self.oobj = I.alloc(st, SymV(self.oty, "old"), self.oty, "out")
        self.names = [n for n, _ in self.oty.variants[0][2]]
        c.uty = self.uty

    def fields(self, ty, unit):
        return dict(dict(ty.variants[0][2])[unit].variants[0][2])

    def inp(self, unit, f):
        t = self.fields(self.ity, unit)[f]
        return ex(SymV(t, "in.%s.%s" % (unit, f)))

    def run(self, unit):
        """-> state after the unit ran in the arbitrary state, or None."""
        st = self.st.copy()
        args = [leaf(mkref(self.uobj)), leaf(mkstr(unit)), Agg((leaf(mkref(self.iobj)), leaf(mkref(self.oobj))))]
        r = self.I.run(self.runfn, args, st)
        return None if r is None else r[1]

    def out(self, st, unit, f):
        v = ex(self.I.read(st, self.oobj, ()))
        v = ex(v.v[self.names.index(unit)])
        return ex(v.v[list(self.fields(self.oty, unit)).index(f)])

    def memory(self, st):
        return ex(self.I.read(st, self.cpu.memobj(), ()))

    def registers(self, st):
        s = st.copy()
        r = self.I.run(self.regfn, [leaf(mkref(self.uobj))], s)
        if r is None:
            raise HwError("register_file() does not return")
        return ex(r[0])


def atoms_of(x, out, seen=None):
    """Names of the symbols a value (or diagram) depends on."""
    seen = set() if seen is None else seen
    if isinstance(x, (int, str)) or x is None or x is UNDEF:
        return
    if x.__class__ is bdd.N:
        if x.id in seen:
            return
        seen.add(x.id)
        for v in support(x):
            for k in varkey(v)[1:]:
                atoms_of(k, out, seen)
        for l in leaves(x):
            atoms_of(l, out, seen)
        return
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, Lin):
        for a, _ in x.ts:
            atoms_of(a, out, seen)
        return
    if x.__class__.__name__ == "Atom":
        if x.kind == "in":
            out.add(str(x.args[0]))
        else:
            for a in x.args:
                atoms_of(a, out, seen)
        return
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "sym":
            out.add(str(x[1]))
            return
        for a in x:
            atoms_of(a, out, seen)
        return
    if x.__class__ is SymV:
        out.add(x.name)
        return
    if x.__class__ is Agg:
        for y in x.v:
            atoms_of(y, out, seen)
    elif x.__class__ is EnumV:
        atoms_of(x.d, out, seen)
        for y in x.p.values():
            atoms_of(tuple(y), out, seen)
    elif x.__class__ is ArrV:
        atoms_of(x.base, out, seen)
        for s in x.stores:
            atoms_of(tuple(s), out, seen)
    else:
        out.add("?" + x.__class__.__name__)


def unitset_check(f):
    @guard
    def g(prog, ck):
        for mod in SETS:
            f(prog, ck, mod)
    return g


def where(u):
    return u.runfn.file, u.runfn.line


@unitset_check
def check_h08(prog, ck, mod):
    ck.rule("value-flow of every unit's trigger: no output after a trigger, on any path, depends on an output value from before the trigger")
    u = UnitSet(prog, mod)
    for unit in u.names:
        st = u.run(unit)
        if st is None:
            ck.fail("%s/%s" % (mod, unit), "the unit can never complete", *where(u))
            continue
        for other in u.names:
            for f in u.fields(u.oty, other):
                v = u.out(st, other, f)
                v = under(v, st.pc)
                ck.count("outputs_analysed")
                if other != unit:
                    old = ex(SymV(u.fields(u.oty, other)[f], "old.%s.%s" % (other, f)))
                    if may_differ(st.pc, v, old) is not None:
                        ck.fail("%s/%s" % (mod, unit), "running %s changes output %s of unit %s" % (unit, f, other), *where(u))
                    continue
                names = set()
                atoms_of(v, names)
                bad = sorted(n for n in names if n.startswith("old"))
                if bad:
                    ck.fail("%s/%s.%s" % (mod, unit, f), "output %s of unit %s can keep a value from an earlier cycle (%s)" % (f, unit, bad[0]), *where(u))
    visited(u.I, ck)


def under(v, c):
    if v.__class__ is bdd.N and c is not T:
        try:
            return restrict(v, c)
        except Exception:
            return v
    return v


def reg_codes(u, unit):
    c = T
    for f, t in u.fields(u.ity, unit).items():
        if f in ("srcA", "srcB", "dstE", "dstM") and t.s == "u8":
            c = AND(c, map1(lambda l: ult_const(l, 8, 16), u.inp(unit, f)))
    return c


@unitset_check
def check_h09(prog, ck, mod):
    ck.rule("every assertion, index, slice and panicking call reachable from a unit's trigger is infeasible for all inputs and stored state (register codes are four bits wide)")
    u = UnitSet(prog, mod, tracing=True)
    ck.assumption("register codes are four bits wide")
    for unit in u.names:
        n0 = len(u.I.obs)
        st = u.run(unit)
        c = reg_codes(u, unit)
        ck.count("units")
        for o in u.I.obs[n0:]:
            ck.count("obligations")
            d = AND(c, o.cond)
            if d is not F and feasible(d):
                n, f, l = o.site()
                ck.fail(n, "%s of %s may panic: %s" % (unit, mod, o.kind), f, l, "state: " + show(witness(d)))
        if st is None:
            ck.fail("%s/%s" % (mod, unit), "the unit can never complete", *where(u))
    visited(u.I, ck)


@unitset_check
def check_h10(prog, ck, mod):
    ck.rule("decision diagrams of the data memory unit: error, loaded word and memory after a trigger equal the definition for every address, data and control input")
    u = UnitSet(prog, mod)
    d = "dmem"
    if d not in u.names or not {"addr", "datain", "read", "write"} <= set(u.fields(u.ity, d)) or not {"dataout", "error"} <= set(u.fields(u.oty, d)):
        raise HwError("%s has no data memory unit with addr, datain, read and write" % mod)
    st = u.run(d)
    if st is None:
        ck.fail("%s/dmem" % mod, "the unit can never complete", *where(u))
        return
    visited(u.I, ck)
    I = u.I
    addr, data = u.inp(d, "addr"), u.inp(d, "datain")
    rd, wr = I.cond(u.inp(d, "read")), I.cond(u.inp(d, "write"))
    mem = u.memory(u.st)
    ok = spec.in_mem(addr, 8)
    err = AND(OR(rd, wr), NOT(ok))

    def cmp(what, c, a, b):
        ck.count("components_compared")
        w = may_differ(c, a, b)
        if w is not None:
            ck.fail("%s/dmem %s" % (mod, what), "%s of the data memory differs from the definition" % what, *where(u), detail="state: " + show(w))
    if NOT(st.pc) is not F and feasible(NOT(st.pc)):
        ck.fail("%s/dmem" % mod, "the data memory does not complete for some input", *where(u), detail=show(witness(NOT(st.pc))))
    cmp("error", st.pc, I.cond(u.out(st, d, "error")), err)
    cmp("loaded word", AND(st.pc, rd, NOT(wr), ok), u.out(st, d, "dataout"), spec.word(mem, addr))
    j = inp("j", 64)
    want = spec.put_word(mem, addr, data, AND(wr, ok))
    cmp("memory", AND(st.pc, ult_const(j.val, 64, spec.MEM)), aget(u.memory(st), j), aget(want, j))
    # no other unit writes memory
    for unit in u.names:
        if unit == d:
            continue
        s = u.run(unit)
        if s is not None:
            ck.count("components_compared")
            w = may_differ(AND(s.pc, ult_const(j.val, 64, spec.MEM)), aget(u.memory(s), j), aget(mem, j))
            if w is not None:
                ck.fail("%s/%s" % (mod, unit), "unit %s changes the data memory" % unit, *where(u), detail="state: " + show(w))


@unitset_check
def check_h11(prog, ck, mod):
    ck.rule("decision diagrams of the register file units: registers and read values after a trigger equal write-E, write-M, then read, with the no-register code inert")
    u = UnitSet(prog, mod)
    ck.assumption("register codes are four bits wide")
    I = u.I
    regs = u.registers(u.st)

    def cmp(what, c, a, b):
        ck.count("components_compared")
        w = may_differ(c, a, b)
        if w is not None:
            ck.fail("%s/%s" % (mod, what), "%s differs from the register file definition" % what, *where(u), detail="state: " + show(w))
    writers = readers = 0
    for unit in u.names:
        fi, fo = u.fields(u.ity, unit), u.fields(u.oty, unit)
        st = u.run(unit)
        if st is None:
            ck.fail("%s/%s" % (mod, unit), "the unit can never complete", *where(u))
            continue
        c = AND(st.pc, reg_codes(u, unit))
        want = regs
        if {"dstE", "dstM", "valE", "valM"} <= set(fi):
            writers += 1
            for d, v in (("dstE", "valE"), ("dstM", "valM")):
                dd = map1(lambda l: cast(l, 8, False, 64), u.inp(unit, d))
                # the sixteenth entry is the no-register code
                want = aset(want, dd, u.inp(unit, v), NOT(map1(lambda l: eq(l, 15, 64), dd)))
        ra = u.registers(st)
        for i in range(16):
            cmp("register %d after %s" % (i, unit), c, aget(ra, leaf(i)), aget(want, leaf(i)))
        if {"srcA", "srcB"} <= set(fi) and {"valA", "valB"} <= set(fo):
            readers += 1
            for s, v in (("srcA", "valA"), ("srcB", "valB")):
                ss = map1(lambda l: cast(l, 8, False, 64), u.inp(unit, s))
                w = merge(map1(lambda l: eq(l, 15, 64), ss), leaf(0), aget(want, ss))
                cmp("%s.%s" % (unit, v), c, u.out(st, unit, v), w)
    if writers != 1 or readers != 1:
        raise HwError("register file units of %s not recognised (%d writers, %d readers)" % (mod, writers, readers))
    visited(I, ck)


@guard
def check_h07(prog, ck):
    ck.rule("decision diagrams of the clock edge of every architecture from an arbitrary state: each field of each pipeline register takes its default on bubble, its old value on stall, else the value computed in the cycle")
    each(prog, ck, BUILTIN, clock_edge)


def clock_edge(prog, ck, arch):
    c = Cpu(prog, arch)
    I = c.I
    c.undriven = []
    st = c.start()
    old, t = c.get(st, "cur_state")
    new, _ = c.get(st, "nex_state")
    dfl = c.field(c.built, "cur_state")
    r = c.call(st.copy(), "initiate_next_cycle")
    f = c.methods["initiate_next_cycle"]
    if r is None:
        ck.fail("%s/clock edge" % arch, "a clock edge never completes", f.file, f.line)
        return
    s1 = r[1]
    if s1.pc is not st.pc and feasible(AND(st.pc, NOT(s1.pc))):
        ck.fail("%s/clock edge" % arch, "a clock edge may panic", f.file, f.line)
    res, _ = c.get(s1, "cur_state")
    old, new, dfl, res = ex(old), ex(new), ex(dfl), ex(res)
    for (sn, sty), o, n, d, x in zip(t.variants[0][2], old.v, new.v, dfl.v, res.v):
        fs = [a for a, _ in sty.variants[0][2]]
        o, n, d, x = ex(o).v, ex(n).v, ex(d).v, ex(x).v
        if "bubble" not in fs or "stall" not in fs:
            raise HwError("stage %s has no bubble/stall controls" % sn)
        b, s = I.cond(n[fs.index("bubble")]), I.cond(n[fs.index("stall")])
        ck.count("stages")
        for i, fn_ in enumerate(fs):
            if fn_ in ("bubble", "stall"):
                continue
            ck.count("fields")
            for what, cond, want in (("bubble", b, d[i]), ("stall", AND(s, NOT(b)), o[i]), ("load", NOT(OR(b, s)), n[i])):
                w = may_differ(AND(s1.pc, cond), x[i], want)
                if w is not None:
                    ck.fail("%s/%s.%s" % (arch, sn, fn_), "on %s, field %s of pipeline register %s does not take the value it must" % (what, fn_, sn), sty.file if hasattr(sty, "file") else f.file, f.line, "state: " + show(w))
    # nothing else changes
    for n_ in c.fields:
        if n_ == "cur_state":
            continue
        ck.count("other_components")
        a, _ = c.get(st, n_)
        b, _ = c.get(s1, n_)
        if n_ in ("circuit", "units"):
            continue
        w = may_differ(s1.pc, a, b)
        if w is not None:
            ck.fail("%s/%s" % (arch, n_), "the clock edge changes %s" % n_, f.file, f.line, "state: " + show(w))
    m = inp("j", 64)
    if may_differ(ult_const(m.val, 64, spec.MEM), aget(c.memory(st), m), aget(c.memory(s1), m)) is not None or may_differ(T, c.registers(st), c.registers(s1)) is not None:
        ck.fail("%s/clock edge" % arch, "the clock edge changes memory or registers", f.file, f.line)
    visited(I, ck)


CHECKS = {"H07": check_h07, "H08": check_h08, "H09": check_h09, "H10": check_h10, "H11": check_h11}
