"""F06, C01, C02: the command-line tools, by abstract interpretation of main with everything else opaque."""
import re
from hw import *
import cfg
from chk_hw import visited, guard
from chk_frame import own
from models import sval, streq


def find(prog, name):
    fs = [f for f in prog.fns.values() if f.name == name]
    return fs[0] if fs else None


class Tool:
    """main() of a tool from arbitrary arguments. Own functions are entered only when they can reach a place of interest."""

    def __init__(self, prog, main, interest, sinks, inside=()):
        self.p, self.main = prog, main
        I = self.I = Interp(prog)
        self.sinks = sinks
        g = cfg.graph(prog)
        callers = {}
        for k, cs in g.items():
            f = prog.fns.get(k)
            if f is None or k in sinks or re.search(r" as [\w:]*\bclap::", f.name):
                continue        # generated command-line description (help texts), no effect on the arguments
            for c in cs:
                callers.setdefault(c, set()).add(k)
        follow, work = set(), list(interest) + list(sinks)
        while work:
            k = work.pop()
            for c in callers.get(k, ()):
                if c not in follow:
                    follow.add(c)
                    work.append(c)
        self.follow = follow | set(inside) | {main.key}
        self.hooks = []             # (predicate(name, ref), handler)
        self.args = None
        self.opaque_with_names = 0
        real = I.call_fn

        def call_fn(st, key, args, destty=None, line=0, caller=None, untuple=False):
            ref = prog.refs.get(key)
            if ref is not None:
                n = ref["name"]
                for pr, h in self.hooks:
                    if pr(n, ref):
                        r = h(st, key, args, destty, line, caller)
                        if r is not NotImplemented:
                            return r
                if n.endswith(("Parser>::parse", "::Parser::parse")) and destty is not None:
                    self.argty = destty
                    self.args = SymV(destty, "args")
                    return self.args, st
                fn = prog.fns.get(key)
                if fn is not None and fn.file.startswith(("sim/", "debugger/", "binutils/")) and key not in self.follow and "{closure" not in fn.name:
                    return I.unknown_call(st, n, args, destty)
            return real(st, key, args, destty, line, caller, untuple)
        I.call_fn = call_fn

    def on(self, pred, h):
        self.hooks.append((pred, h))

    def run(self, ghosts=()):
        return self.I.run(self.main, [], State(dict(ghosts), T))

    def arg(self, name):
        """Value of a command-line argument field; an Option stands for its content."""
        if self.args is None:
            raise HwError("arguments of %s not found" % self.main.name)
        t = self.argty
        names = [n for n, _ in t.variants[0][2]]
        if name not in names:
            raise HwError("%s has no argument %s" % (self.main.name, name))
        v = ex(ex(self.args).v[names.index(name)])
        if v.__class__ is EnumV:
            v = ex(v.p[1][0]) if hasattr(v, "p") else ex(list(v.__dict__.values())[1][1][0])
        return v


def advertised(prog):
    an = find(prog, "y86_sim::architectures::arch_names")
    if an is None:
        raise HwError("architecture list not found")
    I = Interp(prog)
    r = I.run(an, [], State({}, T))
    v = ex(r[0]) if r is not None else None
    if v.__class__ is not VecV:
        raise HwError("architecture list does not fold to a constant")
    out = []
    for x in v.items:
        x = sval(I, r[1], x)
        if x.v is not None or x.val.__class__ is not StrC:
            raise HwError("architecture list does not fold to a constant")
        out.append(x.val.s)
    return an, out, I


@guard
def check_f06(prog, ck):
    ck.rule("constant propagation of the architecture list; create_sim on each listed name returns a simulator of the type that name declares; in every tool the name given to create_sim or the debug server is, on every path, one of the list")
    an, names, I0 = advertised(prog)
    visited(I0, ck)
    ck.count("advertised_names", len(names))
    if not names or len(set(names)) != len(names):
        ck.fail("arch_names", "the list of architectures is empty or repeats a name", an.file, an.line)
    cs = find(prog, "y86_sim::architectures::create_sim")
    if cs is None:
        raise HwError("create_sim not found")
    for n in names:
        I = Interp(prog)
        real = I.call_fn

        def call_fn(st, key, args, destty=None, line=0, caller=None, untuple=False):
            ref = prog.refs.get(key)
            if ref is not None and "framework::PipeSim" in ref["name"] and ref["name"].endswith("::new") and destty is not None:
                return SymV(destty, "sim"), st
            return real(st, key, args, destty, line, caller, untuple)
        I.call_fn = call_fn
        st = State({}, T)
        r = I.run(cs, [leaf(mkstr(n)), SymV(cs.lty(2), "mem"), F], st)
        ck.count("names_created")
        visited(I, ck)
        if r is None:
            ck.fail("create_sim(%s)" % n, "the listed architecture %s cannot be created" % n, cs.file, cs.line)
            continue
        v = I.num(I.unwrap(r[0]))
        for g, l in guards(v):
            if not feasible(AND(r[1].pc, g)):
                continue
            if l.__class__ is not Ref or l.meta.__class__ is not tuple or l.meta[0] != "dyn":
                raise HwError("create_sim(%s) does not fold to a known simulator type" % n)
            ty = l.meta[1].s
            m = re.search(r"(\w+)::Arch\b", ty)
            if m is None:
                raise HwError("simulator type %s names no architecture" % ty)
            if m.group(1) != n:
                ck.fail("create_sim(%s)" % n, "the name %s creates a simulator of %s" % (n, m.group(1)), cs.file, cs.line)
    # the tools
    lst = find(prog, "y86_dbg::start_tcp_listener")
    sinks = {cs.key} | ({lst.key} if lst else set())
    inside = cfg.reachable(prog, [an.key])
    for f in prog.fns.values():
        if not f.name.endswith("::main") or not own(f) or not (cfg.reachable(prog, [f.key], stop=lambda g: g.key in sinks) & sinks):
            continue
        t = Tool(prog, f, {an.key}, sinks, inside)
        I = t.I
        sites = []

        def sink(st, key, args, destty, line, caller, sites=sites, I=I):
            a = None
            fn = prog.fns[key]
            if key == cs.key:
                a = args[0]
            else:
                for x, i in zip(args, range(1, fn.nargs + 1)):
                    ty = fn.lty(i)
                    if ty.k == "struct" and ty.variants:
                        ns = [n for n, _ in ty.variants[0][2]]
                        if "arch" in ns:
                            a = ex(ex(x).v[ns.index("arch")])
                    elif ty.path == "std::string::String":
                        a = x
            sites.append((st.copy(), a, line, caller, fn.name))
            return I.unknown_call(st, fn.name, args, destty)
        t.on(lambda n, r: n == cs.name or (lst is not None and n == lst.name), sink)
        t.run()
        visited(I, ck)
        ck.count("tools")
        for st, a, line, caller, nm in sites:
            ck.count("creation_sites")
            if a is None:
                raise HwError("no architecture name is passed to %s" % nm)
            try:
                v = sval(I, st, a)
            except Exception:
                raise HwError("the architecture name passed to %s is not understood" % nm)
            okc = F
            for n in names:
                okc = OR(okc, map1(lambda x, n=n: streq(x, mkstr(n)), v))
            if feasible(AND(st.pc, NOT(okc))):
                fnm = (caller.name if caller is not None else f.name)
                ck.fail("%s" % fnm, "%s is reached with a name that was not found in the architecture list" % nm.rsplit("::", 1)[-1], (caller or f).file, line)


# ---------------------------------------------------------------- ysim
CYC = ("g", "cycles")
TERM = ("g", "terminated")
NST = ("g", "steps")


@guard
def check_c02(prog, ck):
    ck.rule("abstract interpretation of the simulator tool's main from arbitrary arguments: from an arbitrary simulator state after any cycle, the next cycle starts only if the processor has not terminated and the count does not exceed the limit (inductive step), and success is returned only when terminated within the limit")
    main = find(prog, "ysim::main")
    if main is None:
        raise HwError("ysim main not found")
    g = cfg.graph(prog)
    virt = {k for k, r in prog.refs.items() if r["kind"].startswith("virtual") and "CpuSim" in r["name"]}
    t = Tool(prog, main, {k for k in virt if re.search(r"::(step|propagate_signals|is_terminate)$", prog.refs[k]["name"])}, set())
    I = t.I
    sites = []
    cyc1, term1 = inp("cycles", 64), var(("terminated",))

    def stepped(st, key, args, destty, line, caller):
        first = map1(lambda l: T if l == 0 else F, st.mem[NST])
        again = AND(st.pc, NOT(first))
        sites.append((line, caller or main))
        if again is not F:
            late = AND(again, st.mem[TERM])
            if feasible(late):
                ck.fail(main.name, "another cycle runs although the processor has terminated", (caller or main).file, line)
            mx = t.arg("max_cpu_cycle")
            over = I.compare("Gt", st.mem[CYC], mx, U64(prog))
            if feasible(AND(again, over)):
                ck.fail(main.name, "another cycle runs although the cycle count exceeds the limit", (caller or main).file, line)
        st.pc = AND(st.pc, first)
        if not feasible(st.pc):
            return None
        st.mem[CYC], st.mem[TERM], st.mem[NST] = cyc1, term1, leaf(1)
        return UNIT, st

    def ask(what):
        def h(st, key, args, destty, line, caller):
                return st.mem[what], st
        return h
    isv = lambda m: (lambda n, r: "CpuSim" in n and n.endswith("::" + m) and (r["kind"].startswith("virtual") or "dyn " in n))
    t.on(isv("step"), stepped)
    t.on(isv("propagate_signals"), stepped)
    t.on(isv("initiate_next_cycle"), lambda st, *a: (UNIT, st))
    t.on(isv("is_terminate"), ask(TERM))
    t.on(isv("cycle_count"), ask(CYC))
    r = t.run({CYC: leaf(0), TERM: F, NST: leaf(0)})
    visited(I, ck)
    ck.count("cycle_sites", len(sites))
    if not sites:
        raise HwError("no cycle is run by ysim")
    if r is None:
        ck.fail(main.name, "the tool never ends", main.file, main.line)
        return
    v, st = r
    okc = is_ok(v)
    ran = map1(lambda l: T if l == 1 else F, st.mem[NST]) if st.mem[NST].__class__ is bdd.N else F
    over = I.compare("Gt", st.mem[CYC], t.arg("max_cpu_cycle"), U64(prog))
    ck.count("exits_checked", 2)
    if feasible(AND(st.pc, okc, ran, over)):
        ck.fail(main.name, "success is reported although the cycle limit was exceeded", main.file, main.line)
    at = AND(st.pc, ran, I.compare("Eq", st.mem[CYC], t.arg("max_cpu_cycle"), U64(prog)), NOT(over),
             NOT(I.compare("Lt", st.mem[CYC], t.arg("max_cpu_cycle"), U64(prog))), st.mem[TERM])
    if feasible(AND(at, NOT(okc))) and not feasible(AND(at, okc)):
        ck.fail(main.name, "an error is reported although the program ended within the cycle limit", main.file, main.line)
    if feasible(AND(st.pc, okc, ran, NOT(st.mem[TERM]))):
        ck.fail(main.name, "success is reported although the processor has not terminated", main.file, main.line)


def U64(prog):
    for f in prog.fns.values():
        for i in range(len(f.locals)):
            t = f.lty(i)
            if t.s == "u64":
                return t
    raise HwError("no u64")


def is_ok(v):
    v = ex(v)
    if v.__class__ is not EnumV:
        raise HwError("the result of main is not understood")
    return map1(lambda l: T if l == 0 else F, v.d)


# ---------------------------------------------------------------- yas
WRITES = re.compile(r"^std::fs::(write|rename|copy|remove_file|hard_link|File::(create|create_new|options)|OpenOptions::open|set_permissions)$|^<?(&)?std::fs::File(>)? as std::io::Write>?::\w+$|^std::io::Write::(write|write_all|write_fmt)$")
READS = re.compile(r"^std::fs::(read|read_to_string|File::open)$|^std::io::(Read::read_to_string|read_to_string|Read::read_to_end)$")


@guard
def check_c01(prog, ck):
    ck.rule("abstract interpretation of the assembler tool's main from arbitrary arguments and file contents: every file write is reached only after a successful assembly, its content comes from that assembly's listing, and success is returned only when reading, assembling and writing all succeeded")
    main = find(prog, "yas::main")
    if main is None:
        raise HwError("yas main not found")
    asm = {k for k, f in prog.fns.items() if own(f) and "ObjectExt" in f.lty(0).s and f.lty(0).path == "std::result::Result" and not f.name.startswith(("std::", "<std", "core::"))}
    asm = {k for k in asm if prog.fns[k].file.startswith("sim/src/asm")} or asm
    g = cfg.graph(prog)
    inter = {k for k, r in prog.refs.items() if WRITES.search(r["path"]) or READS.search(r["path"])}
    t = Tool(prog, main, inter | asm, asm)
    I = t.I
    evs = []

    def fallible(kind):
        def h(st, key, args, destty, line, caller):
            if destty is None or destty.path != "std::result::Result":
                return NotImplemented
            v = SymV(destty, fresh(kind))
            evs.append((kind, st.pc, is_ok(v), line, caller or main))
            return v, st
        return h
    t.on(lambda n, r: any(prog.fns[k].name == n for k in asm), fallible("assembling"))
    t.on(lambda n, r: WRITES.search(r["path"]) is not None, fallible("writing"))
    t.on(lambda n, r: READS.search(r["path"]) is not None, fallible("reading"))

    exits = []

    def leave(st, key, args, destty, line, caller):
        exits.append((st.pc, I.num(args[0]), line, caller or main))
        return None
    t.on(lambda n, r: r["path"] == "std::process::exit", leave)
    r = t.run()
    visited(I, ck)
    kinds = {k for k, *_ in evs}
    for k in ("reading", "assembling", "writing"):
        if k not in kinds:
            raise HwError("no %s found in yas" % k)
    done = F
    for k, pc, okc, line, fn in evs:
        if k == "assembling":
            done = OR(done, AND(pc, okc))
    for k, pc, okc, line, fn in evs:
        ck.count("fallible_operations")
        if k == "writing":
            if feasible(AND(pc, NOT(done))):
                ck.fail(fn.name, "the output file is written before or without a successful assembly", fn.file, line)
    ends = [(pc, map1(lambda l: T if l == 0 else F, c), ln, fn) for pc, c, ln, fn in exits]
    if r is not None:
        ends.append((r[1].pc, is_ok(r[0]), main.line, main))
    wrote = F
    for k, pc, okc, line, fn in evs:
        if k == "writing":
            wrote = OR(wrote, AND(pc, okc))
    for pe, succ, ln, fe in ends:
        for k, pc, okc, line, fn in evs:
            ck.count("exits_checked")
            if feasible(AND(pe, succ, pc, NOT(okc))):
                ck.fail(fn.name, "a failure of %s does not end the tool with an error status" % k, fn.file, line)
        if feasible(AND(pe, succ, NOT(wrote))):
            ck.fail(fe.name, "the tool can succeed without having written its output", fe.file, ln)
    # what is written comes from the listing
    for f in [prog.fns[k] for k in t.follow if k in prog.fns and own(prog.fns[k])]:
        for b, key, path, args, dest, tgt, line in cfg.calls(f):
            if path != "std::fs::write" or len(args) < 2:
                continue
            l = cfg.op_local(args[1])
            if l is None:
                continue
            ck.count("written_values")
            ls, cs = cfg.origins(f, l)
            from_asm = any(f.bb[c][1][1][0] == "fn" and f.bb[c][1][1][1] in asm for c in cs)
            if f is main and not from_asm:
                ck.fail(f.name, "what is written does not come from the assembled object", f.file, line)
            elif f is main:
                shown = [c for c in cs if re.search(r"::new_\w+$|::to_string$", f.bb[c][1][1][2] if f.bb[c][1][1][0] == "fn" else "")]
                shown = [(f.bb[c][1][1][2], str(f.lty(x).s)) for c in shown for x in [cfg.op_local(a) for a in f.bb[c][1][2]] if x is not None]
                shown = [(p, t) for p, t in shown if "object::" in t]
                if shown and not any(re.search(r"new_display|to_string", p) and "ObjectExt" in t for p, t in shown):
                    ck.fail(f.name, "what is written is not the listing of the assembled object", f.file, line)


CHECKS = {"F06": check_f06, "C01": check_c01, "C02": check_c02}
