"""C03: loading a listing into the ISA simulator tool, by abstract interpretation of its main function on listing texts."""
from hw import *
from chk_hw import visited, guard
from chk_tools import find
from chk_asm import *
import listing, asmrun, re, itertools, report
from listing import Text, wlen


class NoTree:
    def __getattr__(self, n):
        if n.startswith("m_"):
            return lambda *a: NotImplemented
        raise AttributeError(n)


class Load:
    """main() of the tool with the file's content given; what reaches the simulator is recorded."""

    def __init__(self, prog, text, pc=T, st0=None):
        self.p = prog
        self.main = find(prog, "yis::main")
        if self.main is None:
            raise HwError("main of the ISA simulator tool not found")
        sim = find(prog, "y86_sim::isa::simulate")
        if sim is None:
            raise HwError("ISA simulator not found")
        self.sim = sim
        I = self.I = Interp(prog)
        asmrun.install(I, NoTree())
        Text(I)
        I.unroll_limit = I.visit_limit = 3000
        self.reads, self.loaded = 0, []
        real = I.call_fn

        def call_fn(st, key, args, destty=None, line=0, caller=None, untuple=False):
            ref = prog.refs.get(key)
            if ref is not None:
                n = ref["name"]
                if n.endswith(("Parser>::parse", "::Parser::parse")) and destty is not None:
                    return SymV(destty, "args"), st
                pn = ref["path"]
                if pn.startswith(("std::fs::", "std::io::stdin")) or pn.endswith("::read_to_string"):
                    if pn != "std::fs::read_to_string":
                        raise HwError("the listing is read in another way: " + n)
                    self.reads += 1
                    return ok(text), st
                if key == sim.key:
                    self.loaded.append((st.pc, args[0], st.copy(st.pc)))
                    return I.unknown_call(st, n, args, destty)
                f = prog.fns.get(key)
                if f is not None and f.file.startswith("binutils/") or n.startswith("<anyhow::") or n.startswith("anyhow::__private::format_err"):
                    return I.unknown_call(st, n, args, destty)
            return real(st, key, args, destty, line, caller, untuple)
        I.call_fn = call_fn
        self.r = I.run(self.main, [], State({}, pc))

    def check(self):
        if not self.reads:
            raise HwError("the listing is not read")
        if not self.loaded and self.r is None and not self.I.obs:
            raise HwError("nothing follows the reading of the listing")

    def image(self):
        if len(self.loaded) != 1:
            raise HwError("the simulator is entered in %d places" % len(self.loaded))
        pc, a, st = self.loaded[0]
        v = ex(a)
        while v.__class__ is bdd.N and v.v is None and v.val.__class__ is Ref:
            v = ex(self.I.deref(st, v))
        if v.__class__ is not ArrV:
            raise HwError("the loaded memory is not understood")
        return pc, v


def images_differ(dom, a, b):
    """Two memories, at every index written in one of them and at the fill."""
    if a.base[0] != "fill" or b.base[0] != "fill":
        raise HwError("memory is not understood")
    cells = []
    for x in [i for _, i, _ in a.stores] + [i for _, i, _ in b.stores]:
        if not any(x is y for y in cells):
            cells.append(x)
    c = lambda d: d.v is None and isinstance(d.val, int)
    w, und = differs(dom, a.base[1], b.base[1])
    if all(c(i) for i in cells):
        got, want = {}, {}
        for m, d in ((a, got), (b, want)):
            for g, i, v in m.stores:
                d[i.val] = merge(g, v, d.get(i.val, m.base[1]))
        for i in sorted(set(got) | set(want)):
            if w is not None:
                break
            w, u = differs(dom, got.get(i, a.base[1]), want.get(i, b.base[1]))
            und = und or u
            if w is not None:
                w = w + [(("address", i), 1)]
        return w, und
    for i in cells:
        if w is not None:
            break
        w, u = differs(AND(dom, ule(i, MEM - 1)), aget(a, i), aget(b, i))
        und = und or u
    return w, und


def plain(s):
    return "".join("<n>" if is_pua(c) else c for c in s)


def panics(ck, L, name, text):
    for o in L.I.obs:
        w = real(o.cond)
        if w is not None:
            n, f, l = o.site()
            ck.fail("%s/%s" % (name, n), "loading may panic: " + o.kind, f, l, "listing: %r\ncase: %s" % (plain(text), show(w)))


def reached(L):
    c = F
    for pc, _, _ in L.loaded:
        c = OR(c, pc)
    return c


def size_of(im, ck, name, L):
    n = im.n if isinstance(im.n, int) else None
    if n not in (None, 0, MEM):
        raise HwError("the simulator's memory has another size")


def round_trip(prog, ck, mk):
    """Assemble, write the listing, load the listing, compare."""
    p = mk()
    p.meaning()
    gram = grammar(prog)
    for g in p.src.groups(gram):
        R = Run(prog, p.src, g)
        R.go()
        if R.ret is None or R.obj is None:
            continue
        dom = AND(R.okc, p.mok)
        if not feasible(dom):
            continue
        n0 = len(R.I.obs)
        t, c, st, f = listing.render(R, dom)
        ck.count("listings")
        for o in R.I.obs[n0:]:
            w = real(o.cond)
            if w is not None:
                n, fl, l = o.site()
                ck.fail("%s/%s" % (p.name, n), "writing the listing may panic: " + o.kind, fl, l, "source: %r" % plain(p.src.sample(g)))
        if t is None:
            raise HwError("listing is not understood")
        im = R.image()
        known = False
        gs = [(gd, l) for gd, l in guards(t)]
        if ck.tier == "quick" and len(gs) > 40:      # spellings of the same line: registers and signs
            ck.count("spellings_left_to_thorough", len(gs) - len(gs[::len(gs) // 40]))
            gs = gs[::len(gs) // 40]
        for gd, l in gs:
            cc = AND(c, gd)
            if l.__class__ is not StrC or not feasible(cc):
                continue
            L = Load(prog, leaf(l), cc)
            L.check()
            known = True
            ck.count("listings_loaded")
            visited(L.I, ck)
            ck.count("obligations", len(L.I.obs))
            panics(ck, L, p.name, l.s)
            note = "listing: %r\ncase: " % plain(l.s)
            w = real(AND(cc, NOT(reached(L))))
            if w is not None:
                ck.fail(p.name + "/refused", "the listing of an assembled object is not loaded", L.main.file, L.main.line, note + show(w))
                continue
            if not L.loaded:
                continue
            pc, im2 = L.image()
            w, u = images_differ(AND(cc, pc), im2, im)
            ck.count("images_compared")
            if w is not None:
                ck.fail(p.name + "/image", "the loaded memory differs from the object's image", L.main.file, L.main.line, note + show(w))
            elif u:
                ck.notes.append("%s: loaded memory not decided" % p.name)
        if not known:
            raise HwError("listing is not understood")


def bare(prog, ck, name, text, want=None, image=None, dom=T):
    """A listing given as text: it must not panic; want: condition under which it must be loaded (None: left open)."""
    L = Load(prog, leaf(mkstr(text)), dom)
    L.check()
    ck.count("texts_loaded")
    visited(L.I, ck)
    ck.count("obligations", len(L.I.obs))
    panics(ck, L, name, text)
    got = reached(L)
    note = "listing: %r" % plain(text)
    if want is None:
        return
    w = real(AND(dom, AND(got, NOT(want))))
    if w is not None:
        ck.fail(name + "/accepted", "a malformed listing is loaded", L.main.file, L.main.line, note + "\ncase: " + show(w))
    w = real(AND(dom, AND(want, NOT(got))))
    if w is not None:
        ck.fail(name + "/refused", "a well-formed listing is refused", L.main.file, L.main.line, note + "\ncase: " + show(w))
    dd = AND(dom, AND(want, got))
    if image is not None and feasible(dd) and L.loaded:
        pc, im = L.image()
        w, u = compare_cells(dd, im, image)
        ck.count("images_compared")
        if w is not None:
            ck.fail(name + "/image", "the loaded memory differs from the listing", L.main.file, L.main.line, note + "\ncase: " + show(w))
        elif u:
            ck.notes.append("%s: loaded memory not decided" % name)


MALFORMED = ["0x0100: 3 | halt", "0x0100: 30f | x", "0x0100: 30f3f | x", "0x0100: g0 | x", "0x0100: 0g | x", "0x0100: 1 2 | x", "0x0100: 10 20 | x", "0x0100: 0x10 | x", "0x0100: +1 | x", "0x0100: -1 | x",
             "0x0100: 1\u00e9 | x", "0x0100: \u00e9 | x", "0x0100: 1\u00e92 | x", "0x0100: \u4e2d1 | x", "0x0100: 1020304050607080902 | x", "0x0100: 10:20 | x", "0x0100: 10; | x", "0x0100: 1_ | x", "0x0100: ++ | x",
             "zz: 10 | x", ": 10 | x", "   : 10 | x", "0x: 10 | x", "x100: 10 | x", "0xg: 10 | x", "0x1 00: 10 | x", "0x10000: 10 | x", "0xffff: 1020 | x", "0xfff6: 1122334455667788991011 | x",
             "0xfffe: 102030 | x", "-1: 10 | x", "-0x1: 10 | x", "0xffffffffffffffff: 10 | x", "0xfffffffffffffffe: 1020 | x", "0xffffffffffffffff0: 10 | x", "-9223372036854775808: 10 | x", "18446744073709551616: 10 | x",
             "\u00e9: 10 | x", "0x10\u00e9: 10 | x", "0x7fffffffffffffff: 10 | x", "0x00010000: 10 | x", "65536: 10 | x", "0x0100 : 1 | x"]
WELL = [("", []), ("\n", []), ("\n\n", []), ("                             | # a: b | c\n", []), ("                             | lbl: # 0x0: 10 | x\n", []), ("0x0000:                      | x: # : | :\n", []),
        ("0x0000: 10                   | nop # 0x10: 11 | 12\n", [(0, 0x10)]), ("0xffff: 00                   | halt\n", [(0xffff, 0)]), ("0xffff: a5                   | .byte 0xa5", [(0xffff, 0xa5)]),
        ("0x0100: 30f3efcdab8967452301 | irmovq $0x123456789abcdef, %rbx\r\n0x010a: 00                   | halt\r\n", [(0x100 + k, int("30f3efcdab8967452301"[2 * k:2 * k + 2], 16)) for k in range(10)]),
        ("0xfff6: ffffffffffffffffffff | x\n", [(0xfff6 + k, 255) for k in range(10)]), ("0x0008: 1122                 | \u00e9\u4e2d # \u00e9|:\n", [(8, 0x11), (9, 0x22)]),
        ("0x0010: 01                   | a\n0x0008: 02                   | b\n0x0010: 03                   | c\n", [(0x10, 3), (8, 2)])]
OPEN = ["0x0100: 10", "0x0100 10 | x", "|", ":", "|:", ":|", "x|", "x:|", "0x0100:|", "\u00e9|", "\u00e9:|\u00e9", "0x0100: AB | x", "256: 10 | x", "0x0100: 10 \u00e9", "\u4e2d|:", "0x0100 | 10 : 20 | x", "\r|\r:", "\t:\t10\t|\t", "\u00a0: 10 |",
        "0x0100: 10 | x\n0x0101: \u00e9\n|", "0xfffff:          | x", "zz:    | x", "-1:  | x"]


def symbolic(prog):
    """(name, text, condition of being well-formed, image): an arbitrary 64-bit address and k arbitrary bytes"""
    out = []
    for k in (0, 1, 2, 8, 10):
        def f(c, k=k):
            A = inp("A", 64)
            bs = [inp("b%d" % i, 8) for i in range(k)]
            t = "0x" + listing.numchar(A, 16, 16) + ": " + "".join(listing.numchar(listing.zext64(b, 8), 16, 2) for b in bs) + "   | x"
            fit = ule(A, MEM - k) if k else T
            bare(prog, c, "any address, %d bytes" % k, t, fit if k else None, [(addn(A, leaf(i)), b) for i, b in enumerate(bs)])
        out.append(f)
    return out


def concrete():
    for nm, mk in (("every mnemonic", lambda: list(plain_forms())), ("every use of a label", lambda: list(label_forms()))):
        def f(nm=nm, mk=mk):
            ls = []
            for m, ops, c in mk():
                if callable(ops):
                    ls.append(c(["  %s %s # 0x0: 10 | %s: x" % (m, ", ".join(ops("nxt")), m)], "nxt"))
                else:
                    ls.append(c(["a%d: %s %s# |: %s" % (len(ls), m, ", ".join(ops) + " ", m)], label="a%d" % len(ls)))
            return spread(ls, nm)
        yield f
    for n in (0, 1, 7, 0xff, 0x100, 0xfff, 0x1000, 0xfff5, 0xfff6):
        yield lambda n=n: Prog("ten bytes at 0x%x" % n, [pos([".pos 0x%x" % n], n), inst(["irmovq $-2, %rsp"], 3, 0, None, 4, (1 << 64) - 2), Line(["e: # end"], label="e")])
    for n in (0xffff, 0x10000, 0x123456, (1 << 64) - 1):
        yield lambda n=n: Prog("label at 0x%x" % n, [data([".quad 0x10ab"], 8, 0x10ab), pos([".pos 0x%x" % n], n), Line(["far: # far"], label="far"), pos([".pos 0x20"], 0x20), data([".byte 255"], 1, 255)])
    yield lambda: Prog("overlap", [pos([".pos 0x10"], 0x10), data([".quad -1"], 8, (1 << 64) - 1), pos([".pos 0x12"], 0x12), data([".word 0x1234"], 2, 0x1234), pos([".pos 0xa"], 10), data([".quad 0"], 8, 0), data([".byte 7"], 1, 7)])
    yield lambda: Prog("zero bytes", [pos([".pos 0x1f0"], 0x1f0), inst(["halt"], 0, 0), data([".quad 0"], 8, 0), data([".byte 0"], 1, 0), Line([""]), Line(["   # | : only a comment"]), data([".word 0x00ff"], 2, 255)])


@guard
def check_c03(prog, ck):
    ck.rule("abstract interpretation of assembler, listing writer and the simulator tool's loader in sequence: the memory given to the simulator equals the object's image for every instruction and directive form at any address; "
            "for listing texts with arbitrary addresses and bytes it is what the text says; malformed texts reach an error and no panic")
    jobs = []

    def trip(lst):
        def f(c):
            for mk in lst:
                try:
                    round_trip(prog, c, mk)
                except HwError as e:
                    c.notes.append("%s: %s" % (mk().name, e))
                    c.count("not_analysed")
        return f

    def one(fn):
        def f(c):
            try:
                fn(c)
            except HwError as e:
                c.notes.append(str(e))
                c.count("not_analysed")
        return f

    def texts(lst):
        def f(c):
            for name, t, want, img in lst:
                try:
                    bare(prog, c, name, t, want, img)
                except HwError as e:
                    c.notes.append("%s: %s" % (name, e))
                    c.count("not_analysed")
        return f
    grammar(prog)
    ps = list(concrete()) + progs_of(itertools.chain(forms(), data_forms()))
    jobs += [trip(ps[k:k + 3]) for k in range(0, len(ps), 3)]
    jobs += [one(f) for f in symbolic(prog)]
    ts = [("malformed %r" % t, t, F, None) for t in MALFORMED] + [("malformed %r in the middle" % t, "0x0000: 10 | nop\n" + t + "\n0x0002: 10 | nop\n", F, None) for t in MALFORMED[::4]]
    ts += [("well-formed %r" % t, t, T, [(leaf(a), leaf(b)) for a, b in dict(img).items()]) for t, img in WELL] + [("text %r" % t, t, None, None) for t in OPEN]
    jobs += [texts(ts[k:k + 8]) for k in range(0, len(ts), 8)]
    report.parallel(ck, jobs, limit=8, deadline=750)


CHECKS = {"C03": check_c03}
