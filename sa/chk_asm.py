"""A01-A07: the assembler, interpreted on families of source texts against an independent description of the language."""
import itertools
from asmrun import *
from chk_hw import visited, guard
import spec
import report

OPS = ["addq", "subq", "andq", "xorq"]
CC = ["", "le", "l", "e", "ne", "ge", "g"]
ICODE = {n: i for i, n in enumerate(["halt", "nop", "cmov", "irmovq", "rmmovq", "mrmovq", "opq", "jx", "call", "ret", "pushq", "popq", "iopq"])}
MEM = 65536
import terms


def ule(d, k):
    return map1(lambda l: ult_const(l, 64, k + 1) if l.__class__ is Lin else (T if l <= k else F), d)


def byte(d, i):
    return map1(lambda l: as_leaf(ext(l, 64, 8 * i, 8)) if l.__class__ is Lin else leaf(l >> (8 * i) & 255), d)


def as_leaf(x):
    return x if x.__class__ is bdd.N else leaf(x)


def hl(a, b):
    """one byte of two small diagrams"""
    return map2(lambda x, y: leaf((x & 15) << 4 | y & 15), a, b)


class Lab:
    def __init__(self, name):
        self.name = name


class Line:
    """One source line: text parts and its meaning."""

    def __init__(self, parts, kind="blank", label=None, **kw):
        self.parts, self.kind, self.label, self.kw = parts if isinstance(parts, (list, tuple)) else [parts], kind, label, kw


def inst(parts, icode, ifun=0, ra=None, rb=None, imm=None, label=None):
    return Line(parts, "inst", label, icode=icode, ifun=ifun, ra=ra, rb=rb, imm=imm)


def data(parts, size, imm, label=None):
    return Line(parts, "data", label, size=size, imm=imm)


def pos(parts, v, label=None):
    return Line(parts, "pos", label, v=v)


def align(parts, v, label=None):
    return Line(parts, "align", label, v=v)


class Prog:
    """A family of sources together with what they mean."""

    def __init__(self, name, lines, nl="\n", end="\n", odd=False, start=None):
        self.name, self.lines, self.odd = name, lines, odd
        parts = []
        for k, l in enumerate(lines):
            if k:
                parts.append(nl)
            parts += l.parts
        parts.append(end)
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        self.src = Source([p for p in out if p != ""])

    def num(self, x):
        if isinstance(x, int):
            return leaf(x)
        if x.__class__ is bdd.N:
            return x
        return self.src.val(x)

    def meaning(self):
        cur = leaf(0)
        mok, merr = T, F
        mok = AND(mok, self.src.valid())
        merr = OR(merr, NOT(self.src.valid()))
        labels, img, self.addr, self.size = {}, [], [], []
        for l in self.lines:
            start = cur
            k = l.kw
            size = 0
            if l.kind == "pos":
                cur = start = self.num(k["v"])
            elif l.kind == "align":
                a = self.src.val(k["v"]) if not isinstance(k["v"], int) else leaf(k["v"])
                if a.v is not None or not isinstance(a.val, int):
                    raise HwError("alignment is not a constant")
                a = a.val
                if a == 0 or a & (a - 1):
                    mok, merr = F, T
                else:
                    top_ = (1 << 64) - a
                    merr = OR(merr, NOT(ule(cur, top_)))
                    cur = start = self.ceil(cur, a)
            elif l.kind == "inst":
                size = spec.LEN[k["icode"]]
            elif l.kind == "data":
                size = k["size"]
            if size:
                merr = OR(merr, NOT(ule(start, MEM - size)))
                cur = addn(start, leaf(size))
                mok = AND(mok, ule(start, MEM - size))
            mok = AND(mok, ule(cur, MEM))
            self.addr.append(start)
            self.size.append(size)
            if l.label is not None:
                labels[l.label] = start
        undefined = False

        def val(x):
            nonlocal undefined
            if isinstance(x, Lab):
                if x.name not in labels:
                    undefined = True
                    return leaf(0)
                return labels[x.name]
            return self.num(x)
        for l, a in zip(self.lines, self.addr):
            k = l.kw
            bs = []
            if l.kind == "inst":
                ic = k["icode"]
                bs = [hl(leaf(ic), self.num(k["ifun"]))]
                if spec.LEN[ic] in (2, 10):
                    bs.append(hl(self.num(15 if k["ra"] is None else k["ra"]), self.num(15 if k["rb"] is None else k["rb"])))
                if spec.LEN[ic] >= 9:
                    v = val(k["imm"] if k["imm"] is not None else 0)
                    bs += [byte(v, i) for i in range(8)]
            elif l.kind == "data":
                v = val(k["imm"])
                bs = [byte(v, i) for i in range(k["size"])]
            for i, b in enumerate(bs):
                img.append((addn(a, leaf(i)), b))
        if undefined:
            mok, merr = F, T
        self.labels, self.img, self.mok, self.merr = labels, img, mok, merr

    def ceil(self, cur, a):
        def f(l):
            if isinstance(l, int):
                return leaf(-(-l // a) * a % (1 << 64))
            c = l.c
            if all(k % a == 0 for _, k in l.ts):
                return leaf(lin_add(64, lin_sub(64, l, c), -(-c // a) * a % (1 << 64)))
            raise HwError("alignment of an arbitrary address")
        return map1(f, cur)


# ------------------------------------------------------------------ comparison
def pure(l):
    """Leaves on which a difference is a certain one."""
    if isinstance(l, int):
        return True
    if l.__class__ is not Lin:
        return False
    for a, _ in l.ts:
        if a.kind == "in":
            if "#" in str(a.args[0]):
                return False
        elif a.kind == "ext":
            if not (a.args[0].__class__ is Lin and all(x.kind == "in" and "#" not in str(x.args[0]) for x, _ in a.args[0].ts)):
                return False
        else:
            return False
    return True


def known_key(k):
    """Does the decision test only inputs of the analysis, in a form that is exact?"""
    if "#" in str(k):
        return False
    xs = [x for x in k[1:] if x.__class__ in (Lin, Atom)]
    for x in xs:
        ats = [a for a, _ in x.ts] if x.__class__ is Lin else [x]
        for a in ats:
            if a.kind != "in" and not (a.kind == "ext" and k[0] != "lt" and pure_atom(a)):
                return False
    return True


def pure_atom(a):
    return a.kind == "in" or (a.kind == "ext" and a.args[0].__class__ is Lin and all(x.kind == "in" for x, _ in a.args[0].ts))


def differs(cond, a, b):
    """(witness or None, undecided?)"""
    a, b = ex(a), ex(b)
    if a.__class__ is not bdd.N or b.__class__ is not bdd.N:
        return None, True
    und = [False]

    def f(x, y):
        if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
            return F
        if not pure(x) or not pure(y):
            und[0] = True
            return F
        if isinstance(x, int) != isinstance(y, int):
            z, k = (y, x) if isinstance(x, int) else (x, y)
            if terms.expandable(z):
                return map1(lambda m: F if m == k else T, terms.expand(z))
        return neq(leaf(x), leaf(y))
    d = map2(f, a, b)
    w = real(AND(cond, d))
    return w, und[0] and w is None


def real(c):
    """A witness that does not rest on anything the analysis does not know."""
    if not feasible(c):
        return None
    w = witness(c)
    if all(known_key(k) for k, _ in w):
        return w
    # decide the unknown conditions away, where that leaves something
    u = [k for k in (varkey(v) for v in support(c)) if not known_key(k)]
    if u:
        return None
    return w


def const_image(im, img):
    c = lambda d: d.v is None and isinstance(d.val, int)
    return im.base[0] == "fill" and all(c(i) for _, i, _ in im.stores) and all(c(a) for a, _ in img)


def compare_const(dom, im, img):
    """All addresses known: byte by byte."""
    got, want, und = {}, {}, False
    for g, i, v in im.stores:
        got[i.val] = merge(g, v, got.get(i.val, im.base[1]))
    for a, b in img:
        want[a.val] = b
    for i in sorted(set(got) | set(want)):
        w, u = differs(dom, got.get(i, im.base[1]), want.get(i, leaf(0)))
        if w is not None:
            return w + [(("address", i), 1)], False
        und = und or u
    return None, und


def compare_cells(dom, im, img):
    """Every address written by the program or demanded by the source, and the fill elsewhere."""
    cells, und = [], False
    for x in [i for _, i, _ in im.stores] + [a for a, _ in img]:
        if not any(x is y for y in cells):
            cells.append(x)
    w, u = differs(dom, im.base[1], leaf(0))
    for c in cells:
        if w is not None:
            break
        want = leaf(0)
        for a, b in img:
            e = eqn(a, c)
            if e is not F:
                want = ite(e, b, want)
        w, u = differs(AND(dom, ule(c, MEM - 1)), aget(im, c), want)
        und = und or u
    return w, und or u


def show_case(prog, w):
    return "case: " + show(w)


def check_prog(ck, prog, p, props, listing=False):
    """props: which aspects to report."""
    gram = grammar(prog)
    p.meaning()
    gs = p.src.groups(gram)
    for g in gs:
        R = Run(prog, p.src, g)
        R.go()
        ck.count("source_families")
        ck.count("spellings", len(g.combos))
        visited(R.I, ck)
        ck.count("obligations", len(R.I.obs))
        name = p.name
        sample = "".join("<n>" if is_pua(c) else c for c in p.src.sample(g))
        where = dict(file=R.f.file, line=R.f.line)

        def fail(what, msg, w=None, where=where):
            ck.fail("%s/%s" % (name, what), msg, where["file"], where["line"], "source: %r%s" % (sample, "" if not w else "\ncase: " + show(w)))
        if "panic" in props:
            for o in R.I.obs:
                w = real(o.cond)
                if w is not None:
                    n, f, l = o.site()
                    fail(n, "may panic: " + o.kind, w, dict(file=f, line=l))
        if "accept" in props and not (p.odd and g.tree is None):
            w = real(AND(g.cond, p.mok, NOT(R.okc if R.ret is not None else F)))
            if w is not None:
                fail("accept", "a well-formed source is not assembled" + (" (the grammar rejects it)" if g.tree is None else ""), w)
        if R.ret is None:
            continue
        if "reject" in props:
            w = real(AND(p.merr, R.okc))
            if w is not None:
                fail("reject", "a source that must be an error is assembled", w)
        dom = AND(R.okc, p.mok)
        if not feasible(dom) or R.obj is None:
            continue
        if "labels" in props:
            for n, v in p.labels.items():
                ck.count("labels_compared")
                s = R.symbol(n)
                if s is None:
                    fail("label " + n, "the label is not in the symbol table")
                    continue
                w, u = differs(dom, s, v)
                if u:
                    ck.notes.append("%s: value of label %s not decided" % (name, n))
                if w is not None:
                    fail("label " + n, "the label does not have the address of its line", w)
        if "image" in props:
            im = R.image()
            if im.n is not None and (im.n if isinstance(im.n, int) else 0) not in (0, MEM):
                raise HwError("memory image has another size")
            ck.count("images_compared")
            if const_image(im, p.img):
                w, u = compare_const(dom, im, p.img)
            elif im.base[0] == "fill":
                w, u = compare_cells(dom, im, p.img)
            else:
                j = inp("j", 64)
                want = leaf(0)
                for a, b in p.img:
                    want = ite(eqn(a, j), b, want)
                w, u = differs(AND(dom, ule(j, MEM - 1)), aget(im, j), want)
            if u:
                ck.notes.append("%s: image not decided" % name)
            if w is not None:
                k = [str(x) for x in w]
                fail("image", "the assembled bytes differ from what the source says", w)
        if listing:
            listing_check(ck, prog, p, g, R, dom, fail)


def run_all(prog, ck, progs, props, listing=False, jobs=8, batch=5):
    """Interpret every family, several processes at a time."""
    progs = list(progs)

    def job(lst):
        def f(c):
            for mk in lst:
                p = mk()
                try:
                    check_prog(c, prog, p, props, listing)
                except HwError as e:
                    c.notes.append("%s: %s" % (p.name, e))
                    c.count("not_analysed")
        return f
    grammar(prog)
    step = max(1, min(batch, -(-len(progs) // jobs)))
    report.parallel(ck, [job(progs[k:k + step]) for k in range(0, len(progs), step)], limit=jobs, deadline=700)


def N0(name="N"):
    return Num(name, forms=("0xd",))


def at(lines, n=True):
    """lines placed at an arbitrary address, followed by a label"""
    N = N0()
    return [pos(["  .pos ", N], N)] + lines + [Line(["nxt:"], label="nxt")]


def target(name="tgt"):
    t = N0("T")
    return [pos(["  .pos ", t], t), Line([name + ":"], label=name)]


def forms(imm="num"):
    """(name, constructor of lines) for every instruction form; operands arbitrary"""
    def mk(name, f):
        return name, f
    for n in ("halt", "nop", "ret"):
        yield mk(n, lambda n=n: at([inst(["  " + n], ICODE[n])]))
    for k, c in enumerate(CC):
        m = "rrmovq" if k == 0 else "cmov" + c

        def f(m=m, k=k):
            a, b = regslot("ra"), regslot("rb")
            return at([inst(["  %s " % m, a, ", ", b], 2, k, a, b)])
        yield mk(m, f)
    for k, m in enumerate(OPS):
        def f(m=m, k=k):
            a, b = regslot("ra"), regslot("rb")
            return at([inst(["  %s " % m, a, ", ", b], 6, k, a, b)])
        yield mk(m, f)

    def g(m):
        a = regslot("ra")
        return at([inst(["  %s " % m, a], ICODE[m], 0, a, None)])
    yield mk("pushq", lambda: g("pushq"))
    yield mk("popq", lambda: g("popq"))

    def f(disp, st):
        a, b = regslot("ra"), regslot("rb")
        V = Num("V")
        mem = ([V] if disp else []) + ["(", b, ")"]
        t = ["  rmmovq ", a, ", "] + mem if st else ["  mrmovq "] + mem + [", ", a]
        return at([inst(t, 4 if st else 5, 0, a, b, V if disp else 0)])
    for d in (True, False):
        for s in (True, False):
            yield mk("%s%s" % ("rmmovq" if s else "mrmovq", " D(r)" if d else " (r)"), lambda d=d, s=s: f(d, s))

    def h(m, ic, fn, lab):
        b = regslot("rb")
        if lab:
            return at([inst(["  %s tgt, " % m, b], ic, fn, None, b, Lab("tgt"))]) + target()
        V = Num("V")
        return at([inst(["  %s $" % m, V, ", ", b], ic, fn, None, b, V)])
    for lab in (False, True):
        yield mk("irmovq" + (" label" if lab else ""), lambda lab=lab: h("irmovq", 3, 0, lab))
        for k, m in enumerate(OPS):
            yield mk("i" + m + (" label" if lab else ""), lambda m=m, k=k, lab=lab: h("i" + m, 12, k, lab))

    def jj(m, ic, fn):
        return at([inst(["  %s tgt" % m], ic, fn, None, None, Lab("tgt"))]) + target()
    for k, c in enumerate(CC):
        m = "jmp" if k == 0 else "j" + c
        yield mk(m, lambda m=m, k=k: jj(m, 7, k))
    yield mk("call", lambda: jj("call", 8, 0))


def data_forms():
    for nm, sz in ((".byte", 1), (".word", 2), (".long", 4), (".quad", 8)):
        def f(nm=nm, sz=sz):
            V = Num("V")
            return at([data(["  %s " % nm, V], sz, V)])
        yield nm, f

        def g(nm=nm, sz=sz):
            return at([data(["  %s tgt" % nm], sz, Lab("tgt"))]) + target()
        yield nm + " label", g


def progs_of(forms):
    return [lambda n=n, f=f: Prog(n, f()) for n, f in forms]


RULE = "abstract interpretation of the assembler's entry over families of source texts (grammar applied to every spelling; register names enumerated, numbers and addresses arbitrary 64-bit words): "


@guard
def check_a01(prog, ck):
    ck.rule(RULE + "the memory image at every index equals the Y86-64 encoding of the line, zero elsewhere")
    run_all(prog, ck, progs_of(forms()) + boundary(), {"image", "accept"})


@guard
def check_a02(prog, ck):
    ck.rule(RULE + "the address after a line, the bytes it emits and its listing agree with the encoded length")
    run_all(prog, ck, progs_of(itertools.chain(forms(), data_forms())), {"image", "labels", "accept"}, listing=True)
    ck.rule("in the ISA simulator and every processor, the address after each instruction that does not branch is its own plus the length with which it is assembled")
    report.parallel(ck, [lambda c: isa_lengths(prog, c), lambda c: seq_lengths(prog, c, "seq_std"), lambda c: seq_lengths(prog, c, "seq_plus_std"), lambda c: pipe_lengths(prog, c)], deadline=800)


def boundary():
    """literals at the edges of the number ranges, as immediates and displacements"""
    good = [Const(t) for t in LITS if Const(t).ok]
    return [lambda mk=mk, nm=nm: spread([mk(V) for V in good], "boundary literals, " + nm) for nm, mk in (
        ("irmovq", lambda V: inst(["irmovq $", V, ", %rax"], 3, 0, None, 0, V)), ("isubq", lambda V: inst(["isubq $", V, ", %r9"], 12, 1, None, 9, V)),
        ("mrmovq", lambda V: inst(["mrmovq ", V, "(%rbx), %rax"], 5, 0, 0, 3, V)), ("rmmovq", lambda V: inst(["rmmovq %rax, ", V, "(%rbx)"], 4, 0, 0, 3, V)))]


STRAIGHT = (1, 2, 3, 4, 5, 6, 10, 11)


@guard
def isa_lengths(prog, ck):
    import chk_isa
    s = chk_isa.load_isa(prog, ck, False)
    e = s.roles()
    if e is not None:
        raise HwError(e)
    I = s.I
    mem, regs, pc = ex(s.head("bin")), ex(s.head("regs")), I.num(s.head("pc"))
    sp = spec.step(mem, pc, tuple(I.cond(s.head(k)) for k in ("zf", "sf", "of")), regs)
    c = AND(sp["valid"], s.loop[5].pc, *I.counters)
    for k in STRAIGHT + (12,):
        ck.count("simulator_lengths")
        w = may_differ(AND(c, spec.is_(sp["instr"].icode, k)), I.num(s.after("pc")), addn(pc, leaf(spec.LEN[k])))
        if w is not None:
            ck.fail("simulate/%s" % spec.NAMES[k], "the ISA simulator does not advance by the %d bytes of the instruction" % spec.LEN[k], s.f.file, s.loop[0].line, "state: " + show(w))


@guard
def seq_lengths(prog, ck, arch):
    import hw
    c = hw.Cpu(prog, arch)
    st = c.start()
    pc = c.pc_of(st)
    mem, regs, cc = c.memory(st), c.registers(st), c.cc(st)
    r = c.call(st.copy(), "step")
    if r is None:
        return
    st1 = r[1]
    sp = spec.step(mem, pc, cc, regs)
    V = AND(sp["valid"], spec.in_mem(pc, 10), st1.pc)
    for k in STRAIGHT:
        ck.count("simulator_lengths")
        w = may_differ(AND(V, spec.is_(sp["instr"].icode, k)), c.pc_of(st1), addn(pc, leaf(spec.LEN[k])))
        if w is not None:
            ck.fail("%s/%s" % (arch, spec.NAMES[k]), "the processor does not advance by the %d bytes of the instruction" % spec.LEN[k], c.methods["update"].file, c.methods["update"].line, "state: " + show(w))


def pipe_lengths(prog, ck):
    import chk_pipe
    from spec import is_, isin

    @chk_pipe.pipe
    def f(p, ck):
        ok_ = AND(NOT(p.fault), p.legal_d, p.legal_e, NOT(p.mp), NOT(p.ret), NOT(p.lu), p.window, p.ins.legal)
        for k in STRAIGHT:
            ck.count("simulator_lengths")
            p.same("length of %s" % spec.NAMES[k], AND(ok_, is_(p.ins.icode, k)), p.n.f["pred_pc"], p.ins.valp)
        for k in (7, 8):
            p.same("length of %s" % spec.NAMES[k], AND(ok_, is_(p.ins.icode, k)), p.n.d["valP"], p.ins.valp)
    f(prog, ck)


def word_constants(prog):
    """Identifier-like pieces of the string constants of the assembler: labels that could be confused with them."""
    import json as _j
    out = set()

    def strs(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "str" and isinstance(x[1], str):
                out.update(w for w in re.findall(r"[A-Za-z_][A-Za-z_0-9]*", x[1]) if len(w) <= 8)
            for y in x:
                strs(y)
    for f in prog.fns.values():
        if f.file.startswith(("sim/src/asm", "sim/src/object", "sim/src/utils")) and "::rules::" not in f.name and "test" not in f.name:
            for ss, t in f.bb:
                strs(ss)
                strs(t)
    return out


LABELS = ["andq", "addq", "subq", "xorq", "sub", "xor", "le", "ge", "e", "g", "ne", "l", "quad", "byte", "word", "long", "ret", "halt", "nop", "rax", "r8", "i", "iaddq", "isubq", "mp", "jmp",
          "pos", "align", "pushq", "x1", "_a", "A", "rrmovq", "cmovle", "b_andq_c"]


def label_names(prog):
    return sorted(set(LABELS) | {w for w in word_constants(prog)})[:160]


def lit(t):
    return Const(t)


def plain_forms(label="tgt"):
    """Every mnemonic with fixed operands: (name, operand texts, constructor of the line from its text parts)."""
    for n in ("halt", "nop", "ret"):
        yield n, [], lambda parts, label=None, n=n: inst(parts, ICODE[n], label=label)
    for k, c in enumerate(CC):
        m = "rrmovq" if k == 0 else "cmov" + c
        yield m, ["%rsi", "%r10"], lambda parts, label=None, k=k: inst(parts, 2, k, 6, 10, label=label)
    for k, m in enumerate(OPS):
        yield m, ["%r8", "%rcx"], lambda parts, label=None, k=k: inst(parts, 6, k, 8, 1, label=label)
        yield "i" + m, ["$-2", "%r14"], lambda parts, label=None, k=k: inst(parts, 12, k, None, 14, (1 << 64) - 2, label=label)
    yield "irmovq", ["$0x1F", "%rbp"], lambda parts, label=None: inst(parts, 3, 0, None, 5, 31, label=label)
    yield "rmmovq", ["%r9", "-8(%rsp)"], lambda parts, label=None: inst(parts, 4, 0, 9, 4, (1 << 64) - 8, label=label)
    yield "rmmovq", ["%rdi", "(%rbx)"], lambda parts, label=None: inst(parts, 4, 0, 7, 3, 0, label=label)
    yield "mrmovq", ["16(%r11)", "%rdx"], lambda parts, label=None: inst(parts, 5, 0, 2, 11, 16, label=label)
    yield "pushq", ["%r13"], lambda parts, label=None: inst(parts, 10, 0, 13, None, label=label)
    yield "popq", ["%r12"], lambda parts, label=None: inst(parts, 11, 0, 12, None, label=label)


def label_forms():
    yield "irmovq", lambda l: ["%s" % l, "%rbp"], lambda parts, l, label=None: inst(parts, 3, 0, None, 5, Lab(l), label=label)
    for k, m in enumerate(OPS):
        yield "i" + m, lambda l: ["%s" % l, "%rax"], lambda parts, l, label=None, k=k: inst(parts, 12, k, None, 0, Lab(l), label=label)
    for k, c in enumerate(CC):
        m = "jmp" if k == 0 else "j" + c
        yield m, lambda l: [l], lambda parts, l, label=None, k=k: inst(parts, 7, k, None, None, Lab(l), label=label)
    yield "call", lambda l: [l], lambda parts, l, label=None: inst(parts, 8, 0, None, None, Lab(l), label=label)
    for nm, sz in ((".byte", 1), (".word", 2), (".long", 4), (".quad", 8)):
        yield nm, lambda l: [l], lambda parts, l, label=None, sz=sz: data(parts, sz, Lab(l), label=label)


def spread(lines, name, **kw):
    """a program: the lines at increasing addresses from 0x100"""
    return Prog(name, [pos(["\t.pos 0x100"], 0x100)] + lines + [Line(["nxt: # end"], label="nxt")], **kw)


SPACING = [("plain", "  ", " ", ", ", ""), ("tab", "\t", "\t", ",\t", ""), ("tight", "", " ", ",", ""), ("wide", "    ", "   ", "  ,  ", "   "),
           ("comment", "  ", " ", ", ", "# addq %rax, %rbx subq andq le $5"), ("comment2", "  ", " ", ", ", " #xorq halt: .quad 3 # jmp ge"), ("comma2", " ", " ", " ,", " ")]


def a06_progs(prog):
    for nm, ind, sp, comma, end in SPACING:
        for lab in (None, "here", "subq", "andq", "le", "halt", "xorq"):
            def f(nm=nm, ind=ind, sp=sp, comma=comma, end=end, lab=lab):
                ls = []
                for k, (m, ops, mk) in enumerate(plain_forms()):
                    pre, l = "", None
                    if lab is not None:
                        l = lab if k == 0 else "%s_%d" % (lab, k)
                        pre = l + ":"
                    ls.append(mk([pre + ind + m + (sp if ops else "") + comma.join(ops) + end], label=l))
                return spread(ls, "instructions/%s%s" % (nm, "" if lab is None else " labelled " + lab))
            yield f
    for nl, nm in (("\r\n", "crlf"), ("\n\n", "blank lines"), ("\n# jmp subq\n   # x\n", "comment lines")):
        def f(nl=nl, nm=nm):
            ls = [mk(["  " + m + (" " if ops else "") + ", ".join(ops)]) for m, ops, mk in plain_forms()]
            return spread(ls, "instructions/" + nm, nl=nl, end="")
        yield f
    # no space between mnemonic and operand, wherever the grammar takes it
    for k0, (m, ops, mk) in enumerate(plain_forms()):
        def f(m=m, ops=ops, mk=mk):
            return spread([mk(["  " + m + ",".join(ops)])], "no space/" + m, odd=True)
        if ops:
            yield f
    # operands that are labels
    names = label_names(prog)
    for m, ops, mk in label_forms():
        def f(m=m, ops=ops, mk=mk):
            ls = []
            for n in names:
                o = ops(n)
                ls.append(mk(["  " + m + " " + ", ".join(o)], n))
            ds = [Line([n + ":"], label=n) for n in names]
            return Prog("label operands/" + m, [pos([".pos 0x20"], 0x20)] + ls + ds)
        yield f
    # arbitrary registers with several spacings
    for nm, ind, sp, comma, end in SPACING[1:4]:
        for n, f in forms():
            def g(n=n, f=f, ind=ind, sp=sp, comma=comma, end=end, nm=nm):
                ls = f()
                for l in ls:
                    if l.kind == "inst":
                        ps = []
                        for q in l.parts:
                            if isinstance(q, str):
                                q = re.sub(r"^  (\w+) ", lambda mm: ind + mm.group(1) + sp, q).replace(", ", comma)
                            ps.append(q)
                        l.parts = ps + [end]
                return Prog("%s/%s" % (n, nm), ls)
            if "(" in n or n in ("pushq", "addq", "irmovq", "iaddq", "cmovle"):
                yield g


@guard
def check_a06(prog, ck):
    ck.rule(RULE + "operation, condition and registers follow the mnemonic and operands under every label name, spacing and comment tried; label names include every word the assembler's own code compares with")
    run_all(prog, ck, list(progs_of(forms())) + list(a06_progs(prog)), {"image", "accept", "labels"})


LITS = ["0", "1", "7", "8", "9", "10", "00", "007", "010", "0000000000000000000000000000001", "42", "100", "255", "256", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807",
        "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-0", "-1", "-8", "-10", "-128", "-129", "-2147483648", "-2147483649", "-9223372036854775807",
        "-9223372036854775808", "-9223372036854775809", "-18446744073709551615", "0x0", "0x1", "0x9", "0xa", "0xA", "0xf", "0xF", "0x10", "0x0010", "0xabcdef", "0xABCDEF", "0xAbCdEf", "0x7fffffff", "0x80000000",
        "0xffffffff", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "0x00000000000000000000ff", "0xfffffffffffffffff",
        "-0x0", "-0x1", "-0xA", "-0xff", "-0x7fffffffffffffff", "-0x8000000000000000", "-0x8000000000000001", "-0xffffffffffffffff", "-0x10000000000000000"]


def a07_progs():
    places = [("quad", lambda V: data([".quad ", V], 8, V)), ("imm", lambda V: inst(["irmovq $", V, ", %rax"], 3, 0, None, 0, V)),
              ("iopq", lambda V: inst(["ixorq $", V, ", %rax"], 12, 3, None, 0, V)),
              ("disp", lambda V: inst(["mrmovq ", V, "(%rbx), %rax"], 5, 0, 0, 3, V)), ("disp2", lambda V: inst(["rmmovq %rax, ", V, "(%rbx)"], 4, 0, 0, 3, V)),
              ("byte", lambda V: data([".byte ", V], 1, V)), ("word", lambda V: data([".word ", V], 2, V)), ("long", lambda V: data([".long ", V], 4, V))]
    for nm, mk in places:
        for forms_ in (("d",), ("-d",), ("0xd",), ("-0xd",)):
            yield lambda nm=nm, mk=mk, forms_=forms_: spread([mk(Num("V", forms=forms_))], "literal %s in %s" % (forms_[0], nm))
    good = [t for t in LITS if Const(t).ok]
    bad = [t for t in LITS if not Const(t).ok]
    for nm, mk in places[:4]:
        yield lambda nm=nm, mk=mk: spread([mk(Const(t)) for t in good], "literals in " + nm)
        for t in bad:
            yield lambda nm=nm, mk=mk, t=t: spread([mk(Const(t))], "literal %s in %s" % (t, nm))
    for t in LITS:
        yield lambda t=t: Prog("position %s" % t, [pos([".pos ", c], c) for c in [Const(t)]] + [Line(["p: "], label="p")])
    # a literal of one line does not depend on the others
    yield lambda: spread([data([".quad ", v], 8, v) for v in (Num("V", forms=("-0xd",)), Num("W", forms=("d", "0xd")))], "two literals")


@guard
def check_a07(prog, ck):
    ck.rule(RULE + "each literal form with arbitrary digits, and a list of boundary literals, in every place a number can stand: the value modulo 2^64 reaches the image, and literals out of range are errors")
    run_all(prog, ck, a07_progs(), {"image", "accept", "reject", "labels"})


def a04_progs(prog):
    names = ["a", "a1", "aa", "_a", "A", "a_1"]
    for m, ops, mk in label_forms():
        def fwd(m=m, ops=ops, mk=mk):
            return Prog("forward/" + m, at([mk(["  %s %s" % (m, ", ".join(ops("tgt")))], "tgt")]) + target())

        def back(m=m, ops=ops, mk=mk):
            return Prog("backward/" + m, target() + at([mk(["  %s %s" % (m, ", ".join(ops("tgt")))], "tgt")]))

        def self_(m=m, ops=ops, mk=mk):
            return Prog("own line/" + m, at([mk(["me: %s %s" % (m, ", ".join(ops("me")))], "me", label="me")]))

        def nxt(m=m, ops=ops, mk=mk):
            return Prog("following line/" + m, at([mk(["  %s %s" % (m, ", ".join(ops("nxt")))], "nxt")]))

        def many(m=m, ops=ops, mk=mk):
            ls = [mk(["%s: %s %s" % (n, m, ", ".join(ops(names[(k + 1) % len(names)])))], names[(k + 1) % len(names)], label=n) for k, n in enumerate(names)]
            return Prog("similar names/" + m, at(ls))

        def und(m=m, ops=ops, mk=mk, how=0):
            ls = [mk(["  %s %s" % (m, ", ".join(ops("tgt")))], "tgt")]
            ls += {0: [], 1: [Line(["tgtx:"], label="tgtx"), Line(["tg:"], label="tg"), Line(["TGT:"], label="TGT")], 2: [Line(["# tgt:"])]}[how]
            return Prog("undefined %d/%s" % (how, m), at(ls))
        yield fwd
        yield back
        yield self_
        yield nxt
        yield many
        for how in (0, 1, 2):
            yield lambda und=und, how=how: und(how=how)
    # where labels are defined
    for n, f in list(forms()) + list(data_forms()):
        if n in ("halt", "addq", "irmovq", "call", "pushq", ".byte", ".quad", "mrmovq D(r)"):
            def g(n=n, f=f):
                ls = f()
                k = [i for i, l in enumerate(ls) if l.kind in ("inst", "data")][0]
                ls[k].label = "lab"
                ls[k].parts = ["lab:"] + ls[k].parts
                return Prog("label on " + n, ls + [Line(["  # x"]), Line(["  end: "], label="end")])
            yield g

    def p1():
        N = N0()
        M = N0("M")
        return Prog("label on .pos", [pos([".pos ", N], N), pos(["lab: .pos ", M], M, label="lab"), Line(["x:"], label="x"), data([".quad lab"], 8, Lab("lab"))])
    yield p1
    for a in (1, 2, 8, 64):
        for r in range(0, a, max(1, a // 4)):
            def p2(a=a, r=r):
                return Prog("label on .align %d" % a, [pos([".pos 0x%x" % (0x300 + r)], 0x300 + r), align(["lab: .align %d" % a], a, label="lab"), data([".quad lab"], 8, Lab("lab"))])
            yield p2

    def p3():
        N = N0()
        return Prog("several labels", [pos([".pos ", N], N), Line(["a:"], label="a"), Line([" b: # c:"], label="b"), Line([""]), data(["c: .long b"], 4, Lab("b"), label="c"),
                                       data([".quad c"], 8, Lab("c")), data([".quad a"], 8, Lab("a"))])
    yield p3


@guard
def check_a04(prog, ck):
    ck.rule(RULE + "a label used in any instruction or data directive before or after its definition gives the address of its line, for arbitrary addresses; an undefined label is an error")
    run_all(prog, ck, a04_progs(prog), {"image", "labels", "accept", "reject"})


ALIGNS = ["1", "2", "4", "8", "16", "0x20", "64", "128", "256", "0x200", "1024", "4096", "0x8000", "65536"]
BADALIGN = ["0", "3", "5", "6", "7", "9", "10", "12", "24", "100", "-1", "-2", "-4", "-8", "0x30", "0xffffffffffffffff", "96", "65535", "0"]
HUGE = ["0x20000", "0x80000000", "0x100000000", "0x4000000000000000", "0x8000000000000000"]


def a05_progs():
    yield from progs_of(data_forms())

    def two():
        N, M = N0(), N0("M")
        V, W = Num("V"), Num("W", forms=("d", "0xd"))
        return Prog("two positions", [pos(["a: .pos ", N], N, label="a"), Line(["b:"], label="b"), pos([".pos ", M], M), data(["c: .word ", V], 2, V, label="c"), Line(["e: "], label="e")])
    yield two
    for f in ("d", "0xd"):
        def one(f=f):
            N = Num("N", forms=(f,))
            return Prog("position " + f, [data([".byte 1"], 1, 1) if False else Line(["  "]), pos([" .pos ", N], N), Line(["p:"], label="p"), data([" .byte 0x5a"], 1, 0x5a), Line(["q:"], label="q")])
        yield one

    def mix():
        N = N0()
        V = [Num("V%d" % k, forms=("d",)) for k in range(4)]
        return Prog("consecutive data", [pos([".pos ", N], N)] + [data([nm + " ", v], sz, v) for (nm, sz), v in zip(((".byte", 1), (".word", 2), (".long", 4), (".quad", 8)), V)] + [Line(["n:"], label="n")])
    yield mix
    for t in ALIGNS:
        a = int(t, 0)
        for r in (range(a) if a <= 16 else sorted({0, 1, 7, a // 2, a // 2 + 1, a - 8, a - 1})):
            for neg in ((False,) if r else (False, True)):
                def al(t=t, a=a, r=r):
                    N = residue(a, r)
                    A = Const(t)
                    return Prog("align %s at %d mod %d" % (t, r, a), [pos([".pos ", N], N), Line(["b:"], label="b"), align(["x: .align ", A], A, label="x"), Line(["y:"], label="y"), data([".byte 0x77"], 1, 0x77)])
                if not neg:
                    yield al
    for t in ALIGNS[:8]:
        a = int(t, 0)
        for n in (0, 1, a - 1, a, a + 1, 0x123, 0xfff, 0x1001, 0xff01):
            if n >= 0:
                def al2(t=t, a=a, n=n):
                    A = Const(t)
                    return Prog("align %s at 0x%x" % (t, n), [pos([".pos 0x%x" % n], n), align([" .align ", A], A), data(["y: .byte 0x77"], 1, 0x77, label="y")])
                yield al2
    for t in BADALIGN:
        for n in (0, 5, 0x40):
            yield lambda t=t, n=n: (lambda A: Prog("align %s at %d" % (t, n), [pos([".pos %d" % n], n), align(["x: .align ", A], A, label="x")]))(Const(t))


def residue(a, r):
    """An arbitrary address that leaves remainder r when divided by the power of two a."""
    k = a.bit_length() - 1
    q = inp("q", 64 - k) if k else inp("q", 64)
    mag = map1(lambda l: leaf(lin_add(64, lin_mul_const(64, as_lin(l, k), a), r)), q)
    return Num("N", forms=("0xd",), mag=mag)


def as_lin(l, k):
    """a (64-k)-bit word as a 64-bit one"""
    if isinstance(l, int) or l.w == 64:
        return l
    d = {}
    for a, c in l.ts:
        d[a] = c
    return mklin(64, l.c, d)


@guard
def check_a05(prog, ck):
    ck.rule(RULE + "positions, alignments (every residue class of the address for the power of two) and data directives of every size place their bytes and labels where documented; alignments that are no power of two are errors")
    run_all(prog, ck, a05_progs(), {"image", "labels", "accept", "reject"})


BROKEN = ["", "\n", "   \n", "#", "# x", "x", "x:", "x: y:\n", "addq\n", "addq %rax\n", "addq %rax, %rbx, %rcx\n", "addq %rax %rbx\n", "addq %foo, %rax\n", "irmovq 5, %rax\n", "irmovq $, %rax\n", "irmovq $x, %rax\n",
          "mrmovq 5, %rax\n", "rmmovq %rax, x(%rbx)\n", "jmp\n", "jmp 5\n", "jmp *x\n", "call %rax\n", ".pos\n", ".pos x\n", ".align x\n", ".align\n", ".quad\n", ".quad $5\n", ".quad -\n", ".quad 0x\n",
          ".quad 0xg\n", ".octa 5\n", "halt halt\n", "halt; halt\n", "1abc: halt\n", "x : halt\n", "\u00e9: halt\n", "halt \u00e9\n", "# \u00e9\u4e2d\n halt\n", "irmovq $0x1\u00e9, %rax\n", "pushq %rip\n", "pushq $5\n", "HALT\n", "halt\r", "halt\r\n", "\thalt\t\n",
          "x:halt\nx:halt\n jmp x\n", "irmovq $99999999999999999999, %rax\n", ".pos 99999999999999999999\n", ".align 99999999999999999999\n", ".byte 300\n", ".word -70000\n",
          ".pos 0xffffffffffffffff\n halt\n", ".pos 0xfffffffffffffff9\n .align 8\n", ".pos 0xffffffffffffffff\n .align 0x8000000000000000\n", ".align 0\n", ".pos 1\n.align 0\n", ".pos 1\n.align -8\n", ".pos -1\n.quad 1\n",
          ".pos 65535\n .byte 1\n x: \n", ".pos 65536\n .byte 1\n", ".pos 65535\n .word 1\n", ".pos 65536\n x:\n .quad x\n", ".pos 0xfff7\n irmovq $1, %rax\n", ".pos 0xfff6\n irmovq $1, %rax\n", ".pos 70000\n.pos 0\nhalt\n",
          "jmp nowhere\n", ".quad nowhere\n", ".byte nowhere\n", "call nowhere", "irmovq nowhere, %rax", "iaddq nowhere, %rax\n"]


def a03_progs():
    yield from progs_of(forms())
    yield from progs_of(data_forms())
    for t in BROKEN:
        yield lambda t=t: Text(t)
    for t in BADALIGN:
        def al(t=t):
            N = N0()
            A = Const(t)
            return Text("align %s anywhere" % t, [".pos ", N, "\n x: .align ", A, "\n y: .byte 0x77\n"])
        yield al
    for t in HUGE + ALIGNS:
        a = int(t, 0)
        for r in sorted(x for x in {0, 1, a // 2, a - 1} if 0 <= x < a):
            def al(t=t, a=a, r=r):
                A = Const(t)
                return Text("align %s at %d mod %s" % (t, r, t), [".pos ", residue(a, r), "\n x: .align ", A, "\n y: .byte 0x77\n"])
            yield al
    for f in ("d", "-d", "0xd", "-0xd"):
        def al(f=f):
            N, A = N0(), Num("A", forms=(f,))
            return Text("align by any %s" % f, [".pos ", N, "\n x: .align ", A, "\n"])
        yield al

        def ps(f=f):
            N = Num("N", forms=(f,))
            return Prog("any position %s" % f, [pos([".pos ", N], N), inst(["  irmovq $1, %rax"], 3, 0, None, 0, 1), data([".quad 5"], 8, 5)])
        yield ps
    for nm, mk in (("quad", lambda V: data([".quad ", V], 8, V)), ("imm", lambda V: inst(["irmovq $", V, ", %rax"], 3, 0, None, 0, V)), ("disp", lambda V: inst(["mrmovq ", V, "(%rbx), %rax"], 5, 0, 0, 3, V)),
                   ("pos", lambda V: pos([".pos ", V], V))):
        for t in LITS:
            if not Const(t).ok:
                yield lambda nm=nm, mk=mk, t=t: spread([mk(Const(t))], "literal %s in %s" % (t, nm))


class Text(Prog):
    """A text whose meaning is left open: only the absence of panics (and the rejection of what cannot be placed) matters."""

    def __init__(self, name, parts=None):
        self.name, self.lines, self.odd = repr(name) if parts is None else name, [], True
        self.src = Source(parts if parts is not None else [name])

    def meaning(self):
        self.labels, self.img, self.addr, self.size = {}, [], [], []
        self.mok, self.merr = F, F


@guard
def check_a03(prog, ck):
    ck.rule(RULE + "no panic, overflow, out-of-range index or unwrap of a failure is reachable, and literals out of range or bytes outside memory give an error, for every instruction and directive at arbitrary addresses and for malformed texts")
    run_all(prog, ck, a03_progs(), {"panic", "reject"})


def listing_check(ck, prog, p, g, R, dom, fail):
    """Every line of the listing shows as many bytes as the line occupies."""
    import listing
    n = len(R.I.obs)
    t, c, st, f = listing.render(R, dom)
    ck.count("listings")
    where = dict(file=f.file, line=f.line)
    for o in R.I.obs[n:]:
        w = real(o.cond)
        if w is not None:
            nm, fl, l = o.site()
            fail("listing", "the listing may panic: " + o.kind, w, dict(file=fl, line=l))
    if t is None:
        return
    known = False
    for gd, x in guards(t):
        cc = AND(c, gd)
        if not feasible(cc):
            continue
        if x.__class__ is not StrC:
            continue
        known = True
        lines = x.s.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        if len(lines) < len(p.size):
            raise HwError("listing has %d lines, the source %d" % (len(lines), len(p.size)))
        sizes = p.size + [0] * (len(lines) - len(p.size))
        for k, (l, sz) in enumerate(zip(lines, sizes)):
            head = l.split("|", 1)[0]
            if "|" not in l:
                raise HwError("listing line is not understood")
            shown = head.split(":", 1)[1].strip() if ":" in head else ""
            digs = sum(listing.WIDTH.get(ch, 99) if is_pua(ch) else 1 for ch in shown)
            ck.count("listing_lines")
            if digs != 2 * sz:
                w = real(cc)
                if w is not None:
                    fail("listing", "line %d of the listing shows %s hexadecimal digits for %d bytes" % (k + 1, digs, sz), w, where)
    if not known:
        raise HwError("listing is not understood")


CHECKS = {"A01": check_a01, "A02": check_a02, "A03": check_a03, "A04": check_a04, "A05": check_a05, "A06": check_a06, "A07": check_a07}
