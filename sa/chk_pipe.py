"""H03-H06: one cycle of pipe_std from an arbitrary well-formed pipeline state."""
from hw import *
import spec
from chk_hw import visited, guard, obligations, initial_state

STAGES = {"f": ("pred_pc",), "d": ("stat", "icode", "ifun", "rA", "rB", "valC", "valP"),
          "e": ("stat", "icode", "ifun", "valC", "valA", "valB", "dstE", "dstM"),
          "m": ("stat", "icode", "cnd", "valE", "valA", "dstE", "dstM"),
          "w": ("stat", "icode", "valE", "valM", "dstE", "dstM")}
FAULT = ("Adr", "Ins", "Hlt")
RN = spec.RNONE


def isin(d, ks):
    """Membership of a byte in a set of constants, decided on the bits of the byte."""
    def f(l):
        if isinstance(l, Lin):
            return OR(*[eq(l, k, l.w) for k in ks])
        return T if l in ks else F
    return map1(f, d)


def is_(d, k):
    return isin(d, (k,))


class Regs:
    """The pipeline registers as named scalars."""

    def __init__(self, c, st, what="cur_state"):
        v, t = c.get(st, what)
        v = ex(v)
        self.ty = {}
        for (n, ft), x in zip(t.variants[0][2], v.v):
            x = ex(x)
            d = {}
            for (m, mt), y in zip(ft.variants[0][2], x.v):
                y = ex(y)
                if m == "stat":
                    self.stats = {vn: i for i, (vn, dv, _) in enumerate(mt.variants)}
                    self.discr = {vn: dv for vn, dv, _ in mt.variants}
                d[m] = y
            setattr(self, n, d)
        for s, fs in STAGES.items():
            h = getattr(self, s, None)
            if h is None or any(f not in h for f in fs):
                raise HwError("pipeline register %s does not have the fields %s" % (s, fs))
        if set(self.stats) != {"Aok", "Bub", "Hlt", "Adr", "Ins"}:
            raise HwError("unexpected status values")


class Pipe:
    def __init__(self, prog, ck):
        self.ck = ck
        c = self.c = Cpu(prog, "pipe_std")
        self.I = c.I
        self.fl, self.ln = c.methods["update"].file, c.methods["update"].line
        self.init_obs = obligations(c.I, 0)
        st = c.start()
        self.st0 = st
        o = self.o = Regs(c, st)
        self.mem, self.regs, self.cc = c.memory(st), c.registers(st), c.cc(st)
        self.n0 = len(self.I.obs)
        r = c.call(st.copy(), "propagate_signals")
        if r is None:
            raise HwError("a cycle never completes")
        self.st1 = r[1]
        # the clock edge, also in the cycle that reports termination
        r = c.call(self.st1.copy(), "initiate_next_cycle")
        if r is None:
            raise HwError("a clock edge never completes")
        self.n = Regs(c, r[1])
        visited(self.I, ck)
        self.spec()

    # status tests on enum values
    def stat(self, v, names):
        ks = {self.o.discr[n] for n in names} if getattr(self, "_bydiscr", False) else {self.o.stats[n] for n in names}
        return map1(lambda l: T if l in ks else F, ex(v).d)

    def spec(self):
        spec.isin, keep = isin, spec.isin
        try:
            self.facts()
            self.spec_()
        finally:
            spec.isin = keep

    def facts(self):
        o = self.o
        D, M = o.d, o.m
        ic = {k: getattr(o, k)["icode"] for k in "demw"}
        S = {k: getattr(o, k)["stat"] for k in "demw"}

        def inr(x, lo, hi):
            return AND(map1(lambda l: ult_const(l, 8, hi), x), NOT(map1(lambda l: ult_const(l, 8, lo), x)))

        def imp(a, b):
            return OR(NOT(a), b)
        # --- well-formed contents of a pipeline register
        wf = {}
        for k in "demw":
            i, s = ic[k], S[k]
            w = T
            for nm, ok in (("Aok", inr(i, 1, 12)), ("Bub", is_(i, 1)), ("Hlt", is_(i, 0)), ("Ins", inr(i, 12, 16)),
                           ("Adr", is_(i, 1) if k != "w" else isin(i, (1, 4, 5, 8, 9, 10, 11)))):
                w = AND(w, imp(self.stat(s, (nm,)), ok))
            if k == "d":
                w = AND(w, inr(D["rA"], 0, 16), inr(D["rB"], 0, 16))
            else:
                r = getattr(o, k)
                de, dm = r["dstE"], r["dstM"]
                w = AND(w, inr(de, 0, 16), inr(dm, 0, 16))
                w = AND(w, ite(isin(i, (2, 3, 6)), T, ite(isin(i, (8, 9, 10, 11)), is_(de, 4), is_(de, RN))))
                w = AND(w, ite(isin(i, (5, 11)), T, is_(dm, RN)))
            wf[k] = w
        self.wf = wf
        legalfun = {}
        for k in "de":
            f = getattr(o, k)["ifun"]
            legalfun[k] = ite(isin(ic[k], (2, 7)), inr(f, 0, 7), ite(is_(ic[k], 6), inr(f, 0, 4), T))
        named = AND(inr(D["rA"], 0, 16), inr(D["rB"], 0, 16), OR(NOT(isin(ic["d"], (2, 4, 5, 6, 10, 11))), inr(D["rA"], 0, 15)),
                    OR(NOT(isin(ic["d"], (2, 3, 4, 5, 6))), inr(D["rB"], 0, 15)))
        self.legal_d = AND(legalfun["d"], named)
        self.legal_e = AND(legalfun["e"], OR(NOT(isin(ic["e"], (2, 3, 6))), inr(o.e["dstE"], 0, 15)), OR(NOT(isin(ic["e"], (5, 11))), inr(o.e["dstM"], 0, 15)))
        # --- facts about neighbouring stages
        bub = {k: self.stat(S[k], ("Bub",)) for k in "demw"}
        wfault = self.stat(S["w"], FAULT)
        self.inv = {
            "a fault in write-back is followed by a bubble in memory": imp(wfault, bub["m"]),
            "a return in write-back is followed by bubbles": imp(is_(ic["w"], 9), AND(bub["m"], bub["e"], bub["d"])),
            "a return in memory is followed by bubbles": imp(is_(ic["m"], 9), AND(bub["e"], bub["d"])),
            "a return in execute is followed by a bubble": imp(is_(ic["e"], 9), bub["d"]),
            "a mispredicted branch in memory is followed by bubbles": imp(AND(is_(ic["m"], 7), NOT(self.I.cond(M["cnd"]))), AND(bub["e"], bub["d"])),
        }
        dom = AND(*self.I.counters)
        for k in "wmed":
            dom = AND(dom, wf[k])
        for v in self.inv.values():
            dom = AND(dom, v)
        self.dom = dom
        self.wfault = wfault

    def spec_(self):
        o = self.o
        F_, D, E, M, W = o.f, o.d, o.e, o.m, o.w
        ic = {k: getattr(o, k)["icode"] for k in "demw"}
        S = {k: getattr(o, k)["stat"] for k in "demw"}
        zf, sf, of = self.cc
        wfault = self.wfault
        # --- memory stage
        acc = isin(ic["m"], (4, 5, 8, 9, 10, 11))
        addr = merge(isin(ic["m"], (4, 5, 8, 10)), M["valE"], M["valA"])
        self.merr = AND(acc, NOT(spec.in_mem(addr, 8)))
        self.m_valM = spec.word(self.mem, addr)
        self.mfault = OR(self.stat(S["m"], FAULT), self.merr)
        fault = self.fault = OR(self.mfault, wfault)
        self.mem1 = spec.put_word(self.mem, addr, M["valA"], AND(isin(ic["m"], (4, 8, 10)), NOT(self.merr)))
        self.maddr = addr
        # --- execute stage
        a = merge(isin(ic["e"], (2, 6)), E["valA"], merge(isin(ic["e"], (3, 4, 5)), E["valC"], merge(isin(ic["e"], (8, 10)), leaf((1 << 64) - 8), leaf(8))))
        b = merge(isin(ic["e"], (2, 3)), leaf(0), E["valB"])
        fun = merge(is_(ic["e"], 6), E["ifun"], leaf(0))
        self.e_valE = spec.alu(fun, a, b)
        self.e_cnd = spec.cond(E["ifun"], zf, sf, of)
        n = spec.alu_cc(E["ifun"], E["valA"], E["valB"], self.e_valE)
        setcc = AND(is_(ic["e"], 6), NOT(fault))
        self.cc1 = [ite(setcc, x, y) for x, y in zip(n, self.cc)]
        self.e_dstE = merge(AND(is_(ic["e"], 2), NOT(self.e_cnd)), leaf(RN), E["dstE"])
        # --- write back
        r = aset(self.regs, spec.cast_idx(W["dstE"]), W["valE"], NOT(is_(W["dstE"], RN)))
        self.regs1 = aset(r, spec.cast_idx(W["dstM"]), W["valM"], NOT(is_(W["dstM"], RN)))
        # --- decode
        i = ic["d"]
        none, rsp = leaf(RN), leaf(spec.RSP)
        self.srcA = merge(isin(i, (2, 4, 6, 10)), D["rA"], merge(isin(i, (11, 9)), rsp, none))
        self.srcB = merge(isin(i, (6, 4, 5)), D["rB"], merge(isin(i, (10, 11, 8, 9)), rsp, none))
        self.dstE = merge(isin(i, (2, 3, 6)), D["rB"], merge(isin(i, (10, 11, 8, 9)), rsp, none))
        self.dstM = merge(isin(i, (5, 11)), D["rA"], none)

        def eqr(x, y):
            return map2(lambda p, q: eq(p, q, 8) if not (isinstance(p, int) and isinstance(q, int)) else (T if p == q else F), x, y)

        def fwd(src):
            v = aget(self.regs, spec.cast_idx(src))
            for d, val in ((W["dstE"], W["valE"]), (W["dstM"], W["valM"]), (M["dstE"], M["valE"]), (M["dstM"], self.m_valM), (self.e_dstE, self.e_valE)):
                v = merge(eqr(src, d), val, v)
            return v
        self.valA = merge(isin(i, (7, 8)), D["valP"], fwd(self.srcA))
        self.valB = fwd(self.srcB)
        ld = isin(ic["e"], (5, 11))
        self.lu = AND(ld, OR(AND(NOT(is_(self.srcA, RN)), eqr(self.srcA, E["dstM"])), AND(NOT(is_(self.srcB, RN)), eqr(self.srcB, E["dstM"]))))
        self.mp = AND(is_(ic["e"], 7), NOT(self.e_cnd))
        self.ret = OR(is_(ic["d"], 9), is_(ic["e"], 9), is_(ic["m"], 9))
        # --- fetch
        self.fpc = merge(AND(is_(ic["m"], 7), NOT(self.I.cond(M["cnd"]))), M["valA"], merge(is_(ic["w"], 9), W["valM"], F_["pred_pc"]))
        self.ins = spec.Instr(self.mem, self.fpc)
        self.window = spec.in_mem(self.fpc, 10)

    # ------------------------------------------------------------ comparing
    def same(self, what, cond, got, want):
        self.ck.count("components_compared")
        w = may_differ(AND(self.dom, cond, self.st1.pc), got, want)
        if w is not None:
            self.ck.fail("pipe_std/" + what, "%s differs from the Y86-64 pipeline definition" % what, self.fl, self.ln, "state: " + show(w))
        return w is None

    def holds(self, what, cond, claim, msg):
        self.ck.count("components_compared")
        d = AND(self.dom, cond, self.st1.pc, NOT(claim))
        if d is not F and feasible(d):
            self.ck.fail("pipe_std/" + what, msg, self.fl, self.ln, "state: " + show(witness(d)))

    def bubble(self, k, what, cond, msg):
        r = getattr(self.n, k)
        b = AND(self.stat(r["stat"], ("Bub",)), is_(r["icode"], 1))
        if "dstE" in r:
            b = AND(b, is_(r["dstE"], RN), is_(r["dstM"], RN))
        self.holds(what, cond, b, msg)


def pipe(f):
    @guard
    def g(prog, ck):
        ck.assumption("pipeline registers hold well-formed instructions (status consistent with the opcode, four-bit register codes, destinations fitting the opcode) and neighbouring-stage facts, both shown inductive by H05")
        p = Pipe(prog, ck)
        f(p, ck)
    return g


def operands(p, go):
    n, o = p.n, p.o
    p.same("execute valA", AND(go, OR(NOT(is_(p.srcA, RN)), isin(o.d["icode"], (7, 8)))), n.e["valA"], p.valA)
    p.same("execute valB", AND(go, NOT(is_(p.srcB, RN))), n.e["valB"], p.valB)


@pipe
def check_h03(p, ck):
    ck.rule("decision diagrams of pipe_std's next pipeline registers: operands latched into execute equal the youngest older value; a load/use dependence holds fetch and decode and injects a bubble into execute")
    n, o = p.n, p.o
    ok = AND(NOT(p.fault), p.legal_d, p.legal_e)
    go = AND(ok, NOT(p.lu), NOT(p.mp))
    operands(p, go)
    lu = AND(ok, p.lu)
    for f in STAGES["d"]:
        a, b = n.d[f], o.d[f]
        if f == "stat":
            a, b = ex(a).d, ex(b).d
        p.same("decode %s held on a load/use dependence" % f, lu, a, b)
    p.same("fetch held on a load/use dependence", lu, n.f["pred_pc"], p.fpc)
    p.bubble("e", "execute bubble on a load/use dependence", lu, "a load/use dependence does not put a bubble into execute")
    p.holds("execute proceeds", AND(go, NOT(p.stat(o.d["stat"], ("Bub",)))), NOT(p.stat(n.e["stat"], ("Bub",))), "an instruction without a load/use dependence is dropped between decode and execute")


@pipe
def check_h04(p, ck):
    ck.rule("decision diagrams of pipe_std's fetch address and next pipeline registers: redirect priority, squashing behind mispredicted branches, waiting behind returns, predicted address")
    n, o, I = p.n, p.o, p.I
    pc = I.num(p.c.call(p.st1.copy(), "program_counter")[0])
    p.same("fetch address", T, pc, p.fpc)
    ok = AND(NOT(p.fault), p.legal_d, p.legal_e)
    p.bubble("d", "decode bubble behind a mispredicted branch", AND(ok, p.mp), "a wrong-path instruction enters decode")
    p.bubble("e", "execute bubble behind a mispredicted branch", AND(ok, p.mp), "a wrong-path instruction enters execute")
    p.bubble("d", "decode bubble behind a return", AND(ok, p.ret, NOT(p.lu)), "an instruction behind a return in flight enters decode")
    free = AND(ok, NOT(p.mp), NOT(p.ret), NOT(p.lu))
    p.holds("decode accepts", free, NOT(p.stat(n.d["stat"], ("Bub",))), "a fetched instruction is dropped although no hazard exists")
    ins = p.ins
    fetched = AND(free, p.window, ins.legal, isin(ins.icode, range(1, 12)), NOT(is_(ins.icode, 9)))
    p.same("predicted address", fetched, n.f["pred_pc"], merge(isin(ins.icode, (7, 8)), ins.valc, ins.valp))
    p.same("fall-through address in decode", AND(free, p.window, ins.legal, isin(ins.icode, (7, 8))), n.d["valP"], ins.valp)
    p.same("branch condition in decode", AND(free, p.window, ins.legal, is_(ins.icode, 7)), n.d["ifun"], ins.ifun)
    go = AND(ok, NOT(p.mp), NOT(p.lu))
    p.same("fall-through address in execute", AND(go, isin(o.d["icode"], (7, 8))), n.e["valA"], o.d["valP"])
    p.same("branch condition in execute", AND(go, is_(o.d["icode"], 7)), n.e["ifun"], o.d["ifun"])
    # no instruction on the right path is lost or repeated
    moving = AND(go, NOT(p.stat(o.d["stat"], ("Bub",))))
    p.same("instruction passed from decode to execute", moving, n.e["icode"], o.d["icode"])
    hold = AND(ok, p.lu)
    for f in STAGES["d"]:
        a, b = n.d[f], o.d[f]
        if f == "stat":
            a, b = ex(a).d, ex(b).d
        p.same("instruction waiting in decode (%s)" % f, hold, a, b)
    p.bubble("e", "execute bubble in front of an instruction waiting in decode", hold, "an instruction waiting in decode also enters execute")
    p.same("address fetched again behind a waiting instruction", hold, n.f["pred_pc"], p.fpc)
    p.same("instruction passed from execute to memory", ok, n.m["icode"], o.e["icode"])
    p.same("instruction passed from memory to write-back", NOT(p.fault), n.w["icode"], o.m["icode"])
    # what a mispredicted branch and a return carry for the redirect
    nf = AND(ok, is_(o.e["icode"], 7))
    p.same("branch outcome in memory", nf, I.cond(n.m["cnd"]), p.e_cnd)
    p.same("fall-through address in memory", nf, n.m["valA"], o.e["valA"])
    p.same("return address in write-back", AND(NOT(p.fault), is_(o.m["icode"], 9)), n.w["valM"], p.m_valM)


@pipe
def check_h05(p, ck):
    ck.rule("decision diagrams of one pipe_std cycle with a fault in memory or write-back: condition codes, memory and the younger stages are frozen, the status is held, termination is exact; the facts about neighbouring stages are inductive")
    n, o, I = p.n, p.o, p.I
    c = p.c
    j = inp("j", 64)
    inr = ult_const(j.val, 64, spec.MEM)
    for k, a, b in zip(("zf", "sf", "of"), c.cc(p.st1), p.cc):
        p.same("condition code %s while a fault is pending" % k, p.fault, a, b)
    p.same("memory while a fault is pending", AND(p.fault, inr), aget(c.memory(p.st1), j), aget(p.mem, j))
    ra = c.registers(p.st1)
    for i in range(15):
        if not p.same("register %d while a fault is pending" % i, p.fault, aget(ra, leaf(i)), aget(p.regs1, leaf(i))):
            break
    p.bubble("m", "memory stage behind a fault", p.fault, "an instruction behind a faulting one enters memory")
    want = merge(p.merr, leaf(o.stats["Adr"]), ex(o.m["stat"]).d)
    p.same("status entering write-back", AND(p.mfault, NOT(p.wfault)), ex(n.w["stat"]).d, want)
    p.same("status held in write-back", p.wfault, ex(n.w["stat"]).d, ex(o.w["stat"]).d)
    term = I.cond(c.call(p.st1.copy(), "is_terminate")[0])
    p.same("termination", T, term, p.wfault)
    # induction of the well-formedness facts from this state to the next
    ok = AND(NOT(p.wfault), p.legal_e, OR(p.fault, p.mp, AND(p.legal_d, OR(p.lu, p.ret, NOT(p.window), NOT(isin(p.ins.icode, range(12))), AND(p.ins.legal, p.ins.named)))))
    q = Pipe.__new__(Pipe)
    q.__dict__.update(p.__dict__)
    q.o = p.n
    q.facts()
    for k in "demw":
        p.holds("well-formed " + k, ok, q.wf[k], "the %s pipeline register can latch a status, opcode and destinations that do not fit together" % k.upper())
    for nm, f in q.inv.items():
        p.holds("invariant: " + nm, ok, f, "not preserved: " + nm)


@pipe
def check_h06(p, ck):
    ck.rule("decision diagrams of one pipe_std cycle: each next pipeline register, the register file, memory and condition codes equal what the Y86-64 definition requires of the instruction in each stage; a fresh processor is empty, with zero registers and program counter")
    n, o, I, c = p.n, p.o, p.I, p.c
    for ob in p.init_obs:
        nm, f, l = ob.site()
        ck.fail(nm, "building pipe_std may panic: %s" % ob.kind, f, l)
    ok = AND(NOT(p.fault), p.legal_d, p.legal_e)
    # fetch
    free = AND(ok, NOT(p.mp), NOT(p.ret), NOT(p.lu))
    ins = p.ins
    known = AND(free, p.window, isin(ins.icode, range(12)), ins.legal, ins.named)
    bad = AND(p.window, NOT(isin(ins.icode, range(12))))
    st = {k: leaf(v) for k, v in o.stats.items()}
    want = merge(NOT(p.window), st["Adr"], merge(bad, st["Ins"], merge(is_(ins.icode, 0), st["Hlt"], st["Aok"])))
    p.same("fetched status", AND(free, OR(NOT(p.window), bad, known)), ex(n.d["stat"]).d, want)
    p.same("fetched icode", known, n.d["icode"], ins.icode)
    p.same("fetched ifun", known, n.d["ifun"], ins.ifun)
    p.same("fetched rA", AND(known, isin(ins.icode, (2, 4, 5, 6, 10, 11))), n.d["rA"], ins.ra)
    p.same("fetched rB", AND(known, isin(ins.icode, (2, 3, 4, 5, 6))), n.d["rB"], ins.rb)
    p.same("fetched valC", AND(known, isin(ins.icode, (3, 4, 5))), n.d["valC"], ins.valc)
    p.same("fetched valP", AND(known, isin(ins.icode, (7, 8))), n.d["valP"], ins.valp)
    # decode
    go = AND(ok, NOT(p.mp), NOT(p.lu))
    i = o.d["icode"]
    operands(p, go)
    p.same("decoded status", go, ex(n.e["stat"]).d, ex(o.d["stat"]).d)
    p.same("decoded icode", go, n.e["icode"], i)
    p.same("decoded ifun", AND(go, isin(i, (2, 6, 7))), n.e["ifun"], o.d["ifun"])
    p.same("decoded valC", AND(go, isin(i, (3, 4, 5))), n.e["valC"], o.d["valC"])
    p.same("decoded dstE", go, n.e["dstE"], p.dstE)
    p.same("decoded dstM", go, n.e["dstM"], p.dstM)
    # execute
    go = AND(NOT(p.fault), p.legal_e)
    i = o.e["icode"]
    p.same("executed status", go, ex(n.m["stat"]).d, ex(o.e["stat"]).d)
    p.same("executed icode", go, n.m["icode"], i)
    p.same("executed valE", AND(go, isin(i, (2, 3, 4, 5, 6, 8, 9, 10, 11))), n.m["valE"], p.e_valE)
    p.same("executed valA", AND(go, isin(i, (4, 7, 8, 9, 10, 11))), n.m["valA"], o.e["valA"])
    p.same("executed dstE", go, n.m["dstE"], p.e_dstE)
    p.same("executed dstM", go, n.m["dstM"], o.e["dstM"])
    p.same("executed cnd", AND(go, is_(i, 7)), I.cond(n.m["cnd"]), p.e_cnd)
    for k, a, b in zip(("zf", "sf", "of"), c.cc(p.st1), p.cc1):
        p.same("condition code " + k, p.legal_e, a, b)
    # memory
    go = NOT(p.fault)
    i = o.m["icode"]
    p.same("status after memory", go, ex(n.w["stat"]).d, ex(o.m["stat"]).d)
    p.same("icode after memory", go, n.w["icode"], i)
    p.same("valE after memory", AND(go, NOT(is_(o.m["dstE"], RN))), n.w["valE"], o.m["valE"])
    p.same("valM after memory", AND(go, isin(i, (5, 9, 11))), n.w["valM"], p.m_valM)
    p.same("dstE after memory", go, n.w["dstE"], o.m["dstE"])
    p.same("dstM after memory", go, n.w["dstM"], o.m["dstM"])
    j = inp("j", 64)
    p.same("memory byte j", ult_const(j.val, 64, spec.MEM), aget(c.memory(p.st1), j), aget(p.mem1, j))
    # write back
    ra = c.registers(p.st1)
    for r in range(15):
        if not p.same("register %d" % r, T, aget(ra, leaf(r)), aget(p.regs1, leaf(r))):
            break
    # obligations
    for ob in obligations(I, p.n0, p.dom):
        nm, f, l = ob.site()
        ck.fail(nm, "may panic: " + ob.kind, f, l, "state: " + show(witness(AND(p.dom, ob.cond))))
    initial_state(c, ck)
    z = Regs(c, c.initial())
    for k in "demw":
        r = getattr(z, k)
        if p.stat(r["stat"], ("Bub",)) is not T or is_(r["icode"], 1) is not T:
            ck.fail("pipe_std/initial " + k, "a fresh pipeline does not start empty", p.fl, p.ln)


CHECKS = {"H03": check_h03, "H04": check_h04, "H05": check_h05, "H06": check_h06}
