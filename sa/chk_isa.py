"""I01-I03: the reference ISA simulator against the instruction set definition."""
from interp import *
from compare import may_differ, show, neq
import spec

LIB = "y86_sim"


def big_loop(I, fn, b):
    """Loops that contain an instruction interpreter are summarised by widening at once."""
    rpo, loops = analyse_cfg(fn)
    body = loops[b]
    if len(body) > 60:
        return True
    for x in body:
        t = fn.bb[x][1]
        if t[0] == "call" and t[1][0] == "fn":
            g = I.p.fns.get(t[1][1])
            if g is not None and not g.file.startswith("/") and len(g.bb) > 60:
                return True
    return False


def find_sym(v, name, path=()):
    """Path at which a symbolic component with this name sits inside v."""
    if v.__class__ is SymV:
        if v.name == name:
            return path
        if v.ty.k in ("struct", "tuple", "array", "closure") and name.startswith(v.name):
            e = ex(v)
            if e.__class__ is not SymV:
                return find_sym(e, name, path)
        return None
    if v.__class__ is Agg:
        for i, x in enumerate(v.v):
            r = find_sym(x, name, path + (i,))
            if r is not None:
                return r
    if v.__class__ is ArrV and v.base == ("sym", name) and not v.stores:
        return path
    if v.__class__ is bdd.N and v.v is None and v.val.__class__ is Lin and len(v.val.ts) == 1 and v.val.c == 0:
        a = v.val.ts[0][0]
        if a.kind == "in" and a.args[0] == name:
            return path
    if v.__class__ is bdd.N and v.v is not None:
        k = varkey(v.v)
        if v.hi is T and v.lo is F and k[0] == "bit" and k[1].kind == "in" and k[1].args[0] == name:
            return path
    return None


class Isa:
    """Summary of one iteration of the reference simulator's main loop."""

    def __init__(self, prog, tty=None):
        self.err = None
        I = self.I = Interp(prog)
        I.loop_hook = big_loop
        f = self.f = prog.find("y86_sim::isa::simulate")
        self.loop = None

        def done(I, fn, fid, header, s0, hk, back, out):
            if big_loop(I, fn, header):
                self.loop = (fn, fid, header, dict(s0.mem), hk, back, out)
        I.loop_done = done
        st = State({}, T)
        a1 = SymV(f.lty(1), "bin")
        a2 = SymV(f.lty(2), "tty_out") if tty is None else (T if tty else F)
        r = I.run(f, [a1, a2], st)
        self.ret, self.st = r if r is not None else (None, None)

    def roles(self):
        """Match the loop state with the fields of the returned result."""
        if self.loop is None:
            return "no main loop recognised in " + self.f.name
        r = ex(self.ret)
        if r.__class__ is not EnumV or 0 not in r.p:
            return "simulate does not return a result"
        res = ex(r.p[0][0])
        rt = self.f.lty(0).variants[0][2][0][1]
        self.okc = AND(self.st.pc, map1(lambda l: T if l == 0 else F, r.d))
        fields = {n: ex(v) for (n, _), v in zip(rt.variants[0][2], res.v)}
        fn, fid, header, s0, hk, back, out = self.loop
        self.where = {}

        def locate(name, what):
            for key, v in hk.items():
                p = find_sym(v, name)
                if p is not None:
                    self.where[what] = (key, p)
                    return True
            return False

        def sym_of(v):
            """Name of the single symbol a result field is built from."""
            v = ex(v)
            if v.__class__ is ArrV and v.base[0] == "sym":
                return v.base[1]
            if v.__class__ is bdd.N:
                names = set()
                for l in leaves(v):
                    if l.__class__ is Lin:
                        names |= {a.args[0] for a, _ in l.ts if a.kind == "in"}
                if not names:
                    for x in support(v):
                        k = varkey(x)
                        if k[0] == "bit" and k[1].kind == "in":
                            names.add(k[1].args[0])
                if len(names) == 1:
                    return names.pop()
            return None
        cc = fields["cc"]
        cct = [t for n, t in rt.variants[0][2] if n == "cc"][0]
        want = {"bin": fields["bin"], "regs": fields["regs"], "pc": fields["pc"], "n_insts": fields["n_insts"]}
        for (n, _), v in zip(cct.variants[0][2], cc.v):
            want[n] = v
        self.final = want
        self.sym = {}
        for k, v in want.items():
            # the result field under the condition of a normal return
            nm = sym_of(self.under(v))
            if nm is None or not locate(nm, k):
                return "the %s field of the result is not the corresponding state of the main loop (%s)" % (k, str(ex(v))[:120])
            self.sym[k] = nm
        return None

    def under(self, v):
        v = ex(v)
        if v.__class__ is bdd.N:
            return restrict(v, self.okc)
        if v.__class__ is ArrV:
            return ArrV(v.base, v.n, v.ety, tuple(s for s in v.stores if feasible(AND(self.okc, s[0]))))
        return v

    def head(self, k):
        key, p = self.where[k]
        return self.I.navget(self.loop[4][key], p)

    def init(self, k):
        key, p = self.where[k]
        return self.I.navget(self.loop[3].get(key, UNDEF), p)

    def after(self, k):
        key, p = self.where[k]
        return self.I.navget(self.loop[5].mem.get(key, UNDEF), p)


def load_isa(prog, ck, tty=None):
    s = Isa(prog, tty)
    for k in s.I.visited_fns:
        g = prog.fns[k]
        if not g.file.startswith("/"):
            ck.fn(g.name)
    ck.count("call_sites_and_assertions", s.I.sites)
    ck.count("blocks_interpreted", s.I.steps)
    return s


def dom(x):
    """state components at the loop head, as spec inputs"""
    return x


def check_i01(prog, ck):
    check_i01_mode(prog, ck, False)
    if not ck.viol:
        check_i01_mode(prog, ck, True)


def check_i01_mode(prog, ck, tty):
    ck.rule("one iteration of simulate's main loop, summarised as decision diagrams over an arbitrary (memory, registers, condition codes, pc), equals the Y86-64 step definition wherever the instruction is valid and in range")
    ck.assumption("the instruction counter does not reach 2^63")
    s = load_isa(prog, ck, tty)
    e = s.roles()
    fn = s.f
    if e is not None:
        ck.fail("simulate", e, fn.file, fn.line)
        return
    I = s.I
    mem, regs, pc = ex(s.head("bin")), ex(s.head("regs")), I.num(s.head("pc"))
    cc = tuple(I.cond(s.head(k)) for k in ("zf", "sf", "of"))
    sp = spec.step(mem, pc, cc, regs)
    V = AND(sp["valid"], *I.counters)
    back, okc = s.loop[5], s.okc
    go = AND(V, NOT(sp["halt"]))
    where = (fn.file, s.loop[0].line)

    def fail(what, w, extra=""):
        ck.fail("simulate/" + what, extra or "%s after one instruction differs from the definition" % what, where[0], where[1], "state: " + show(w))
    # the iteration continues on every valid non-halt instruction
    d = AND(go, NOT(back.pc))
    if feasible(d):
        fail("continues", witness(d), "a valid instruction is not executed")
    d = AND(V, sp["halt"], NOT(okc))
    if not tty and feasible(d):
        fail("halt", witness(d), "a halt instruction does not end the run with a result")
    d = AND(okc, V, NOT(sp["halt"]))
    if feasible(d):
        fail("halt", witness(d), "the run ends with a result at an instruction other than halt")
    ck.count("instructions", 13)
    c = AND(go, back.pc)
    for k, want in (("pc", sp["pc"]), ("zf", sp["cc"][0]), ("sf", sp["cc"][1]), ("of", sp["cc"][2])):
        w = may_differ(c, I.num(s.after(k)), want)
        ck.count("components_compared")
        if w is not None:
            fail(k, w)
    ra = ex(s.after("regs"))
    for i in range(15):
        w = may_differ(c, aget(ra, leaf(i)), aget(sp["regs"], leaf(i)))
        ck.count("components_compared")
        if w is not None:
            fail("register %d" % i, w)
            break
    j = inp("j", 64)
    ma = ex(s.after("bin"))
    inr = ult_const(j.val, 64, spec.MEM)
    w = may_differ(AND(c, inr), aget(ma, j), aget(sp["mem"], j))
    ck.count("components_compared")
    if w is not None:
        fail("memory byte j", w)
    # result of a run: the halting state itself
    for k in ("bin", "regs", "pc", "zf", "sf", "of"):
        a, b = s.final[k], s.head(k)
        ck.count("components_compared")
        cc_ = AND(okc, V, sp["halt"])
        if k == "bin":
            w = may_differ(AND(cc_, inr), aget(ex(a), j), aget(ex(b), j))
        elif k == "regs":
            w = None
            for i in range(16):
                w = w or may_differ(cc_, aget(ex(a), leaf(i)), aget(ex(b), leaf(i)))
        else:
            w = may_differ(cc_, I.num(a), I.num(b))
        if w is not None:
            fail("result." + k, w, "the returned %s is not the state at the halt instruction" % k)
    # instruction count: initial value + increments counts the halt too
    n0, n, n1, nf = (I.num(x) for x in (s.init("n_insts"), s.head("n_insts"), s.after("n_insts"), s.final["n_insts"]))
    w = may_differ(c, n1, addn(n, leaf(1)))
    if w is not None:
        fail("n_insts", w, "the instruction count does not grow by one per instruction")
    w = may_differ(AND(okc, V), subn(nf, n), subn(leaf(1), n0))
    if w is not None:
        fail("n_insts", w, "the instruction count does not include the halt exactly once")
    # initial state
    ck.count("components_compared", 4)
    for k in ("pc", "zf", "sf", "of"):
        if may_differ(T, I.num(s.init(k)), leaf(0)) is not None:
            fail("initial " + k, [], "the run does not start with %s = 0" % k)
    r0 = ex(s.init("regs"))
    for i in range(15):
        if may_differ(T, aget(r0, leaf(i)), leaf(0)) is not None:
            fail("initial registers", [], "the run does not start with zero registers")
            break
    b0 = ex(s.init("bin"))
    if not (b0.__class__ is ArrV and b0.base == ("sym", "bin") and not b0.stores) and may_differ(inr, aget(b0, j), aget(ex(SymV(fn.lty(1), "bin")), j)) is not None:
        fail("initial memory", [], "the run does not start from the given image")


def check_i02(prog, ck):
    ck.rule("every assertion, slice/array index and panicking call reachable from simulate is infeasible for every loop state (decision-diagram interpretation with widening)")
    ck.assumption("64-bit counters that grow by at most 16 per iteration do not reach 2^63")
    ck.assumption("memory-difference and register display at the end of a traced run (lengths of formatted text) is not decided")
    s = load_isa(prog, ck)
    if s.loop is None:
        ck.fail("simulate", "no main loop recognised", s.f.file, s.f.line)
    ck.count("obligations", len(s.I.obs))
    for o in s.I.failures():
        if text_length(o.cond):
            ck.count("display_length_obligations_not_decided")
            continue
        n, f, l = o.site()
        ck.fail(n, "may panic: " + o.kind, f, l, "state: " + show(witness(o.cond) if o.cond is not T else []))
    for n, k in s.I.unknown.items():
        ck.notes.append("unmodelled callee assumed not to panic: %s (%d)" % (n, k))


def text_length(c):
    """The condition is decided by the length of formatted text."""
    for v in support(c):
        k = varkey(v)
        if k[0] == "lt" and any(a.kind == "len" for a, _ in k[1].ts):
            return True
    return False


def check_i03(prog, ck):
    ck.rule("the path condition of executing (back edge) or halting normally in simulate's main loop excludes every illegal encoding, and includes every legal in-range one")
    s = load_isa(prog, ck, False)
    e = s.roles()
    fn = s.f
    if e is not None:
        ck.fail("simulate", e, fn.file, fn.line)
        return
    I = s.I
    mem, regs, pc = ex(s.head("bin")), ex(s.head("regs")), I.num(s.head("pc"))
    cc = tuple(I.cond(s.head(k)) for k in ("zf", "sf", "of"))
    sp = spec.step(mem, pc, cc, regs)
    run = OR(s.loop[5].pc, s.okc)
    ic = sp["instr"].icode
    for k in range(16):
        sel = spec.is_(ic, k)
        nm = spec.NAMES[k] if k < 13 else "opcode %#x" % k
        d = AND(run, sel, NOT(sp["legal"]), sp["instr"].fits)
        ck.count("encodings_classes", 2)
        if feasible(d):
            ck.fail("simulate/" + nm, "a malformed %s is executed instead of rejected" % nm, fn.file, fn.line, "state: " + show(witness(d)))
        d = AND(sel, sp["valid"], NOT(run), *I.counters)
        if feasible(d):
            ck.fail("simulate/" + nm, "a legal in-range %s is rejected" % nm, fn.file, fn.line, "state: " + show(witness(d)))


CHECKS = {"I01": check_i01, "I02": check_i02, "I03": check_i03}
