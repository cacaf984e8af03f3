"""H01, H02: the sequential processors against the instruction set definition."""
from hw import *
import spec


def visited(I, ck):
    for k in I.visited_fns:
        g = I.p.fns.get(k)
        if g is not None and not g.file.startswith("/"):
            ck.fn(g.name)
    ck.count("call_sites_and_assertions", I.sites)
    ck.count("blocks_interpreted", I.steps)


def obligations(I, n0, cond=T):
    """Obligations recorded since n0 that may fail under cond."""
    return [o for o in I.obs[n0:] if o.cond is not F and feasible(AND(cond, o.cond))]


def each(prog, ck, archs, f):
    """f(prog, child check, arch) for every architecture, in parallel."""
    import report
    g = guard(lambda pr, c, a=None: f(pr, c, a))
    report.parallel(ck, [lambda c, a=a: g(prog, c, a) for a in archs])


def guard(f):
    """A code shape the analysis cannot follow is an error of the check, never a violation."""
    def g(prog, ck, *a):
        try:
            return f(prog, ck, *a)
        except HwError as e:
            ck.notes.append("analysis incomplete: %s" % e)
            print("note: analysis incomplete:", e)
    return g


def initial_state(c, ck):
    """A fresh processor: zero registers, cleared condition codes, first fetch at address 0."""
    keep = c.ob, c.sim
    st = c.initial()
    fl, ln = c.newfn.file, c.newfn.line
    ra = c.registers(st)
    ck.count("initial_state_components", 19)
    if any(aget(ra, leaf(i)) is not leaf(0) for i in range(15)):
        ck.fail("%s/initial registers" % c.arch, "a fresh processor does not start with zero registers", fl, ln)
    for k, a in zip(("zf", "sf", "of"), c.cc(st)):
        if a is not F:
            ck.fail("%s/initial %s" % (c.arch, k), "a fresh processor does not start with %s = 0" % k, fl, ln)
    if may_differ(T, c.pc_of(st), leaf(0)) is not None:
        ck.fail("%s/initial pc" % c.arch, "a fresh processor does not start fetching at address 0", fl, ln)
    c.ob, c.sim = keep


def seq_check(prog, ck, arch):
    ck.rule("one step() of %s from an arbitrary state (registers, memory, condition codes, stage register, left-over signals), summarised as decision diagrams, equals the Y86-64 step definition on registers, memory, condition codes and the next fetch address wherever the instruction is valid and in range" % arch)
    ck.assumption("the ten bytes from the program counter lie inside memory; iopq is not part of the hardware instruction set")
    c = Cpu(prog, arch)
    I = c.I
    for o in obligations(I, 0):
        n, f, l = o.site()
        ck.fail(n, "building %s may panic: %s" % (arch, o.kind), f, l)
    st = c.start()
    pc = c.pc_of(st)
    mem, regs, cc = c.memory(st), c.registers(st), c.cc(st)
    n0 = len(I.obs)
    r = c.call(st.copy(), "step")
    if r is None:
        ck.fail("%s/step" % arch, "a cycle never completes", c.methods["step"].file, c.methods["step"].line)
        return
    st1 = r[1]
    visited(I, ck)
    sp = spec.step(mem, pc, cc, regs)
    ins = sp["instr"]
    window = spec.in_mem(pc, 10)
    base = spec.isin(ins.icode, range(12))
    V = AND(sp["valid"], base, window)
    ck.count("instructions", 12)
    fl, ln = c.methods["update"].file, c.methods["update"].line

    def fail(what, w, msg=None):
        ck.fail("%s/%s" % (arch, what), msg or "%s after one cycle differs from the Y86-64 definition" % what, fl, ln, "state: " + show(w))
    for o in obligations(I, n0, AND(base, *I.counters)):
        n, f, l = o.site()
        ck.fail(n, "may panic: " + o.kind, f, l, "state: " + show(witness(AND(base, o.cond, *I.counters))))
    c1 = AND(V, st1.pc)
    for k, a, b in zip(("zf", "sf", "of"), c.cc(st1), sp["cc"]):
        ck.count("components_compared")
        w = may_differ(c1, a, b)
        if w is not None:
            fail(k, w)
    ra = c.registers(st1)
    for i in range(15):
        ck.count("components_compared")
        w = may_differ(c1, aget(ra, leaf(i)), aget(sp["regs"], leaf(i)))
        if w is not None:
            fail("register %d" % i, w)
            break
    j = inp("j", 64)
    ck.count("components_compared")
    w = may_differ(AND(c1, ult_const(j.val, 64, spec.MEM)), aget(c.memory(st1), j), aget(sp["mem"], j))
    if w is not None:
        fail("memory byte j", w)
    ck.count("components_compared")
    w = may_differ(AND(c1, NOT(sp["halt"])), c.pc_of(st1), sp["pc"])
    if w is not None:
        fail("next program counter", w)
    initial_state(c, ck)
    term = I.cond(c.call(st1.copy(), "is_terminate")[0])
    stop = OR(NOT(window), NOT(base), sp["halt"], NOT(sp["addr_ok"]))
    dom = AND(st1.pc, OR(NOT(window), NOT(base), AND(sp["legal"], sp["instr"].named)))
    ck.count("components_compared")
    w = may_differ(dom, term, stop)
    if w is not None:
        fail("termination", w, "termination is not reported exactly for halt, unsupported opcodes and out-of-range accesses")


@guard
def check_h01(prog, ck):
    seq_check(prog, ck, "seq_std")


@guard
def check_h02(prog, ck):
    seq_check(prog, ck, "seq_plus_std")


CHECKS = {"H01": check_h01, "H02": check_h02}
