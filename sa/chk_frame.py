"""F01-F06: the simulator framework (propagation order, drivers, determinism, cycle, registry)."""
import re
from hw import *
import cfg
import spec
from chk_hw import visited, guard, obligations, each
from chk_units import atoms_of

KINDS = ("cur_unit_in", "cur_unit_out", "cur_inter", "nex_state", "cur_state")


def fields_of(v, t, path=()):
    """(path, value) of every scalar signal below v."""
    v = ex(v)
    if t.k == "struct" and v.__class__ is Agg and t.variants and not (t.path or "").endswith("ConditionCode"):
        for x, (n, ft) in zip(v.v, t.variants[0][2]):
            yield from fields_of(x, ft, path + (n,))
    else:
        yield path, v, t


def same(a, b):
    if a is b:
        return True
    a, b = ex(a), ex(b)
    if a is b:
        return True
    if a.__class__ is Agg and b.__class__ is Agg:
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    return may_differ(T, a, b) is None


class Circuit(Cpu):
    """A processor whose propagation order can be cut down to single items."""

    def prepare(self):
        self.items, self.es = self.order_items(), self.edges()
        if self.items is None or self.es is None:
            raise HwError("propagation order of %s does not fold to a constant" % self.arch)
        self.shared = {}
        self.base = self.symbolic()
        self.signals = {}
        for k in KINDS:
            v, t = self.get(self.base, k)
            for p, x, ft in fields_of(v, t):
                self.signals[(k,) + p] = (x, ft)
        d, _ = self.order()
        self.vec = d["order"].items
        return self

    def run_items(self, st, idx):
        """Run the order items idx (in that sequence) from st by the processor's own update()."""
        s = st.copy()
        self.put(s, VecV(self.vec[i] for i in idx), "circuit", "order", "order")
        r = self.call(s, "update")
        return None if r is None else r[1]

    def values(self, st):
        out = {}
        for k in KINDS:
            v, t = self.get(st, k)
            for p, x, _ in fields_of(v, t):
                out[(k,) + p] = x
        return out

    def where(self):
        f = self.methods["update"]
        return f.file, f.line

    def effect(self, i):
        """-> ({changed signal: new value}, changed stored state?) of order item i alone."""
        st = self.run_items(self.base, [i])
        if st is None:
            return None
        vals = self.values(st)
        return {k: v for k, v in vals.items() if not same(v, self.signals[k][0])}, st

    def stored(self, st):
        j = inp("j", 64)
        return [("memory", aget(self.memory(st), j)), ("registers", self.registers(st)), ("condition codes", Agg(self.cc(st)))]


def sig(k):
    return ".".join(k)


def dotted(names):
    return {n for n in names if n.split(".")[0] in KINDS}


def closure(es):
    succ = {}
    for a, b in es:
        succ.setdefault(a, set()).add(b)
    memo = {}

    def anc(x):
        if x in memo:
            return memo[x]
        memo[x] = out = set()
        work = [a for a, b in es if b == x]
        while work:
            y = work.pop()
            if y not in out:
                out.add(y)
                work += [a for a, b in es if b == y]
        return out
    return anc


def analyse(prog, arch, perm=None):
    c = Circuit(prog, arch, perm)
    return c.prepare()


@guard
def check_f05(prog, ck):
    ck.rule("effects of every combinational update and unit, each interpreted alone from an arbitrary state: an update changes its own signal and copies of it only, a unit its own outputs only; every unit input and every stage field has one driver")
    each(prog, ck, BUILTIN, drivers)


def drivers(prog, ck, arch):
    c = analyse(prog, arch)
    fl, ln = c.where()
    writers = {}
    stored0 = c.stored(c.base)
    unit_names = {n for u, n, _ in c.items if u}
    for i, (isu, name, _) in enumerate(c.items):
        ck.count("updates_and_units")
        e = c.effect(i)
        if e is None:
            ck.fail("%s/%s" % (arch, name), "%s can never run to completion" % name, fl, ln)
            continue
        ch, st = e
        own = ch.get(("cur_inter", name))
        for k, v in ch.items():
            ck.count("written_signals")
            writers.setdefault(k, []).append(name)
            if isu:
                if k[0] != "cur_unit_out" or k[1] != name:
                    ck.fail("%s/%s" % (arch, name), "running unit %s changes %s" % (name, sig(k)), fl, ln)
                continue
            if k == ("cur_inter", name):
                continue
            if k[0] in ("cur_unit_out", "cur_state"):
                ck.fail("%s/%s" % (arch, name), "the update of %s writes %s" % (name, sig(k)), fl, ln)
            elif k[0] == "cur_inter":
                ck.fail("%s/%s" % (arch, name), "the update of %s writes another signal, %s" % (name, sig(k)), fl, ln)
            else:
                want = own if own is not None else c.signals[("cur_inter", name)][0]
                if not same(v, want):
                    ck.fail("%s/%s" % (arch, name), "%s does not carry the signal %s that drives it" % (sig(k), name), fl, ln)
        if not isu:
            for (what, a), (_, b) in zip(stored0, c.stored(st)):
                if not same(a, b):
                    ck.fail("%s/%s" % (arch, name), "the update of %s changes the %s" % (name, what), fl, ln)
    for k, ws in writers.items():
        if len(ws) > 1:
            ck.fail("%s/%s" % (arch, sig(k)), "%s has %d drivers: %s" % (sig(k), len(ws), ", ".join(ws)), fl, ln)
    for k in c.signals:
        if k[0] in ("cur_unit_in", "cur_inter") and k not in writers:
            ck.fail("%s/%s" % (arch, sig(k)), "%s has no driver" % sig(k), fl, ln)
        elif k[0] == "nex_state" and k[-1] not in ("bubble", "stall") and k not in writers:
            ck.fail("%s/%s" % (arch, sig(k)), "%s has no driver" % sig(k), fl, ln)
    visited(c.I, ck)


def perms(tier):
    import random
    out = [None, lambda xs: list(reversed(xs)), lambda xs: xs[len(xs) // 2:] + xs[:len(xs) // 2]]
    for s in range(1 if tier == "quick" else 8):
        def f(xs, s=s):
            xs = list(xs)
            random.Random(s * 7919 + len(xs)).shuffle(xs)
            return xs
        out.append(f)
    return out


@guard
def check_f01(prog, ck):
    ck.rule("signals read by every update and unit (value dependence, each interpreted alone from an arbitrary state) are produced by ancestors in the declared dependency graph; the built order is a topological order of that graph for every hash iteration order tried; no signal of a whole cycle depends on another signal's left-over value")
    import report
    jobs = [lambda c, f=f, a=a: guard(lambda pr, k: f(pr, k, a))(prog, c) for a in reversed(BUILTIN) for f in (whole_cycle, ordering)]
    jobs += [lambda c, a=a, p=p: guard(lambda pr, k: topological(pr, k, a, p))(prog, c) for a in reversed(BUILTIN) for p in perms(ck.tier)]
    report.parallel(ck, jobs)


def whole_cycle(prog, ck, arch):
    c = Circuit(prog, arch)
    stale(c, ck, arch)
    visited(c.I, ck)


def ordering(prog, ck, arch):
    c = analyse(prog, arch)
    fl, ln = c.where()
    names = [n for _, n, _ in c.items]
    if len(set(names)) != len(names):
        ck.fail("%s/order" % arch, "an update or unit occurs twice in the propagation order", fl, ln)
    pos = {n: i for i, n in enumerate(names)}
    # every signal and unit takes part
    want = {k[1] for k in c.signals if k[0] == "cur_inter"}
    units = {k[1] for k in c.signals if k[0] in ("cur_unit_out", "cur_unit_in")}
    for n in sorted((want | units) - set(names)):
        ck.fail("%s/%s" % (arch, n), "%s is missing from the propagation order" % n, fl, ln)
    anc = closure(c.es)
    # writers of unit inputs
    eff = {}
    drives = {}
    for i, n in enumerate(names):
        e = c.effect(i)
        if e is None:
            continue
        eff[n] = e[0]
        for k in e[0]:
            drives.setdefault(k, []).append(n)
    for i, (isu, n, _) in enumerate(c.items):
        if n not in eff:
            continue
        reads = set()
        for k, v in eff[n].items():
            atoms_of(v, reads)
        for r in sorted(dotted(reads)):
            k = tuple(r.split("."))
            while k and k not in c.signals:
                k = k[:-1] if k[-1:] else k
            k = k or tuple(r.split(".")[:2])
            ck.count("reads")
            if k[0] in ("cur_state", "nex_state"):
                if k[0] == "nex_state" and k not in eff[n]:
                    ck.fail("%s/%s" % (arch, n), "%s reads %s, which is still being computed" % (n, sig(k)), fl, ln)
                continue
            if k in eff[n]:
                continue        # keeps its own old value
            prod = drives.get(k, [])
            if k[0] == "cur_unit_out":
                prod = [k[1]]
            for p in prod:
                if p == n:
                    continue
                if p not in anc(n):
                    ck.fail("%s/%s" % (arch, n), "%s reads %s without depending on %s in the declared graph" % (n, sig(k), p), fl, ln)
                if pos.get(p, -1) > i:
                    ck.fail("%s/%s" % (arch, n), "%s reads %s, which %s computes later in the cycle" % (n, sig(k), p), fl, ln)
    visited(c.I, ck)


def topological(prog, ck, arch, perm):
    """The built order is a topological order of the declared graph."""
    o = Cpu(prog, arch, perm)
    items, es = o.order_items(), o.edges()
    if items is None or es is None:
        raise HwError("propagation order of %s does not fold to a constant" % arch)
    ck.count("orders_checked")
    fl, ln = o.newfn.file, o.newfn.line
    at = {n: i for i, (_, n, _) in enumerate(items)}
    an = closure(es)
    for _, n, _ in items:
        for a in an(n):
            ck.count("ordered_pairs")
            if a in at and at[a] > at[n]:
                ck.fail("%s/%s" % (arch, n), "%s runs before %s, on which it depends" % (n, a), fl, ln)


def stale(c, ck, arch):
    """No final signal of the cycle depends on another signal's left-over value."""
    c.undriven = None
    st = c.start()
    init = {}
    for k in KINDS:
        v, t = c.get(st, k)
        for p, x, _ in fields_of(v, t):
            init[(k,) + p] = x
    r = c.call(st.copy(), "update")
    fl, ln = c.where()
    if r is None:
        ck.fail("%s/update" % arch, "a cycle never completes", fl, ln)
        return
    fin = c.values(r[1])
    keepc = {}

    def keep(k):
        if k not in keepc:
            o, v = ex(init[k]), ex(fin[k])
            if v.__class__ is bdd.N and o.__class__ is bdd.N:
                keepc[k] = map1(lambda l: T if l is o.val else F, v) if o.v is None else (T if v is o else F)
            else:
                keepc[k] = T if same(o, v) else F
        return keepc[k]
    for k, v in fin.items():
        if k[0] == "cur_state":
            continue
        ck.count("signals_checked_for_staleness")
        names = set()
        atoms_of(v, names)
        for r_ in sorted(dotted(names)):
            s = tuple(r_.split("."))
            if s[0] == "cur_state" or s[:len(k)] == k:
                continue
            while s not in fin and len(s) > 1:
                s = s[:-1]
            if s not in fin:
                continue
            kc = keep(s)
            w = ex(v)
            if kc is not F and w.__class__ is bdd.N:
                w = ite(kc, leaf(0), w) if kc not in (T,) else None
                if w is None:
                    continue
                n2 = set()
                atoms_of(w, n2)
                if r_ not in n2:
                    continue
            ck.fail("%s/%s" % (arch, sig(k)), "after a cycle %s depends on the value %s had in an earlier cycle" % (sig(k), sig(s)), fl, ln)


def built_summary(c):
    """Everything observable the construction decides: order with levels, critical path, edges."""
    items, es = c.order_items(), c.edges()
    if items is None or es is None:
        raise HwError("propagation order of %s does not fold to a constant" % c.arch)
    d, _ = c.order()
    md = d.get("max_dist")
    if md is None or md.__class__ is not bdd.N or md.v is not None:
        raise HwError("critical path length of %s does not fold to a constant" % c.arch)
    return items, es, md.val


HASHC = ("std::collections::HashMap", "std::collections::HashSet", "std::collections::hash_map::HashMap", "std::collections::hash_set::HashSet")
ITERATES = ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "extract_if", "union",
            "intersection", "difference", "symmetric_difference", "into_iter")
BLIND = ("max", "min", "sum", "product", "count", "any", "all", "len", "is_empty", "contains", "is_subset", "is_superset", "is_disjoint")
ADAPT = ("copied", "cloned", "map", "filter", "filter_map", "flat_map", "flatten", "into_iter", "iter", "inspect", "by_ref", "deref", "deref_mut", "as_slice", "as_mut_slice", "borrow", "unwrap_or", "unwrap_or_default")
SORTS = ("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
VOLATILE = re.compile(r"std::time::(SystemTime|Instant)::now$|(^|::)(thread_rng|getrandom)$|^rand::|^fastrand::|hash_one$|std::hash::Hasher::finish$|^std::thread::current$|^std::process::id$|"
                      r"std::ptr::[\w:<>* ]*::(addr|expose_addr|expose_provenance)$|fmt::Pointer|new_pointer|^std::ptr::hash$")
CRATE_SRC = ("sim/src/", "debugger/src/", "binutils/src/")


def own(f):
    return f.file.startswith(CRATE_SRC) and not f.file.startswith("sim/src/test/")


def strip(t):
    while t is not None and t.k in ("ref", "ptr"):
        t = t.elem
    return t


def is_hash(t):
    t = strip(t)
    return t is not None and t.path in HASHC


def hash_sites(prog, f):
    """Call sites of f that enumerate a hash container: (block, method, destination local, line)."""
    for b, key, path, args, dest, tgt, line in cfg.calls(f):
        m = path.rsplit("::", 1)[-1]
        if m in ITERATES and args and is_hash(arg_ty(f, args[0])):
            yield b, m, dest[0], line
        elif m in ("new_debug", "new_display", "fmt") and args and is_hash(arg_ty(f, args[0])):
            yield b, m, None, line


def arg_ty(f, op):
    if op[0] in ("m", "c"):
        t = f.lty(op[1][0])
        for e in op[1][1]:
            if e == "*":
                t = t.elem
            elif isinstance(e, list) and e[0] == "f":
                t = f.crate.types[e[2]]
        return t
    return None


def blind(f, local):
    """Every use of the enumeration starting at local is insensitive to its order."""
    work, seen = [local], set()
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for b, (ss, t) in enumerate(f.bb):
            for s in ss:
                if s[0] == "=":
                    u = set()
                    cfg.locals_in(s[2], u)
                    if l in u:
                        if s[2][0] == "discr":
                            return False
                        work.append(s[1][0])
            if t[0] == "call":
                u = set()
                for a in t[2]:
                    cfg.locals_in(a, u)
                if l not in u:
                    continue
                m = (t[1][2] if t[1][0] == "fn" else "?").rsplit("::", 1)[-1]
                if m in BLIND:
                    continue
                if m in ("collect", "from_iter"):
                    ty = f.lty(t[3][0])
                    if is_hash(ty) or (ty.path or "").endswith(("BTreeMap", "BTreeSet")):
                        continue
                    # a sequence is fine when it is sorted before anything else looks at it
                    nb, ok = t[4], False
                    seq = {t[3][0]}
                    for _ in range(12):
                        if nb is None:
                            break
                        for s in f.bb[nb][0]:
                            if s[0] == "=":
                                u = set()
                                cfg.locals_in(s[2], u)
                                if u & seq:
                                    seq.add(s[1][0])
                        tt = f.bb[nb][1]
                        if tt[0] == "call":
                            u = set()
                            for a in tt[2]:
                                cfg.locals_in(a, u)
                            mm = (tt[1][2] if tt[1][0] == "fn" else "?").rsplit("::", 1)[-1]
                            if u & seq:
                                if mm in SORTS:
                                    ok = True
                                    break
                                if mm not in ("deref_mut", "deref", "as_mut_slice"):
                                    break
                                seq.add(tt[3][0])
                            nb = tt[4]
                        elif tt[0] in ("goto", "drop"):
                            nb = cfg.succ(f, nb)[0]
                        else:
                            break
                    if not ok:
                        return False
                    continue
                if m in ADAPT:
                    work.append(t[3][0])
                    continue
                return False
    return True


@guard
def check_f03(prog, ck):
    ck.rule("constant propagation of the construction of every architecture under several hash iteration orders gives one propagation order, edge list and critical path; no other enumeration of a hash container, clock, random number, thread, process or address reaches anything observable")
    import report
    jobs = [lambda c: lint(prog, c)]
    jobs += [lambda c, a=a, p=p: guard(lambda pr, k: determinism(pr, k, a, p))(prog, c) for a in reversed(BUILTIN) for p in perms(ck.tier)]
    first = {}
    for r in report.parallel(ck, jobs):
        if r is None:
            continue
        arch, got, fl, ln = r
        ref = first.setdefault(arch, got)
        for what, a, b in zip(("propagation order", "dependency edges", "critical path length"), ref, got):
            ck.count("components_compared")
            if a != b:
                ck.fail("%s/%s" % (arch, what), "the %s of %s depends on the iteration order of a hash container" % (what, arch), fl, ln)


def lint(prog, ck):
    decided = building(prog)
    for f in prog.fns.values():
        if not own(f):
            continue
        ck.fn(f.name)
        for b, m, d, line in hash_sites(prog, f):
            ck.count("hash_enumerations")
            if f.key in decided:
                continue
            if not any(r in cfg.reach(f, b) for r in cfg.returns(f)):
                continue        # only a panic message
            if d is None or not blind(f, d):
                ck.fail(f.name, "enumerates a hash container in an order that differs from run to run (%s)" % m, f.file, line)
        for b, key, path, args, dest, tgt, line in cfg.calls(f):
            ck.count("call_sites")
            n = cfg.fullname(prog, key, path)
            if VOLATILE.search(path) or VOLATILE.search(n):
                ck.fail(f.name, "uses %s, which differs from run to run" % path, f.file, line)
        for b, (ss, t) in enumerate(f.bb):
            for s in ss:
                if s[0] == "=" and s[2][0] == "cast" and "PointerExpose" in s[2][1]:
                    ck.fail(f.name, "turns an address into a number", f.file, s[3] if len(s) > 3 else f.line)


def building(prog):
    """Functions reachable only through the construction of a circuit, decided by constant propagation."""
    roots = [k for k, f in prog.fns.items() if f.name.endswith("::build_circuit") and own(f)]
    inside = cfg.reachable(prog, roots)
    g = cfg.graph(prog)
    entry = set(roots)
    ch = True
    good = {k for k in inside if k in prog.fns}
    callers = {}
    for k, cs in g.items():
        for c in cs:
            callers.setdefault(c, set()).add(k)
    while ch:
        ch = False
        for k in list(good):
            if k in entry:
                continue
            if any(c not in good for c in callers.get(k, ())):
                good.discard(k)
                ch = True
    return good


def determinism(prog, ck, arch, perm):
    c = Cpu(prog, arch, perm)
    got = built_summary(c)
    ck.count("hash_iteration_orders")
    fl, ln = c.newfn.file, c.newfn.line
    for fn, line, path in getattr(c.I, "hash_iters", []):
        f = fn if hasattr(fn, "file") else prog.fns.get(fn)
        if f is not None and own(f):
            fl, ln = f.file, line
    visited(c.I, ck)
    return arch, got, fl, ln


def term_signal(prog, arch):
    """Name of the signal the architecture's source declares as its termination signal."""
    import dump
    import os
    for f in prog.fns.values():
        if "::%s::Arch" % arch in f.name and f.name.endswith("::build_circuit"):
            src = open(os.path.join(dump.REPO, f.file)).read()
            src = re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S)
            m = re.search(r"#!\s*\[\s*termination\s*=\s*(\w+)\s*\]", src)
            if m:
                return m.group(1)
    raise HwError("no termination signal declared for %s" % arch)


OBSERVERS = ("registers", "program_counter", "is_terminate", "cycle_count", "cycle_cost", "get_stage_info", "proporder", "reg", "fmt")


@guard
def check_f04(prog, ck):
    ck.rule("one step() of every architecture from an arbitrary state equals propagate once, then clock edge unless the declared termination signal of this cycle holds, with the cycle count one higher; every order item runs exactly once in that cycle; the observer methods leave every component unchanged and reach no interior mutation")
    import report
    import chk_units
    jobs = []
    for a in reversed(BUILTIN):
        for f in (one_step, with_output, run_once, chk_units.clock_edge):
            jobs.append(lambda c, a=a, f=f: guard(lambda pr, k: f(pr, k, a))(prog, c))
    report.parallel(ck, jobs)


def snapshot(c, st):
    out = {}
    for n in c.fields:
        if n in ("circuit", "units", "tty_out"):
            continue
        v, t = c.get(st, n)
        for p, x, _ in fields_of(v, t):
            out[(n,) + p] = x
    for what, v in c.stored(st):
        out[(what,)] = v
    return out


def with_output(prog, ck, arch):
    one_step(prog, ck, arch, True)


def quiet_printing(prog, ck, c, arch):
    """Printing methods take the simulator by shared reference: check them for interior mutation, then skip them."""
    for f in prog.fns.values():
        if ("::%s::Arch>" % arch in f.name or "hardware" in f.name) and own(f) and f.nargs and f.lty(1).k == "ref" and not f.lty(1).mut:
            t = f.lty(0)
            if t.k == "tuple" and not t.f:
                pure(prog, ck, arch, f)
                c.I.hooks[f.name] = lambda I, st, args, info: UNIT
    g = c.methods.get("get_stage_info")
    if g is not None:
        pure(prog, ck, arch, g)
        c.I.hooks[g.name] = lambda I, st, args, info: VecV([])


def one_step(prog, ck, arch, tty=False):
    c = Cpu(prog, arch)
    I = c.I
    c.stored = lambda st: Circuit.stored(c, st)
    st = c.start()
    tname = term_signal(prog, arch)
    f = c.methods.get("step")
    if f is None:
        raise HwError("no step")
    fl, ln = f.file, f.line
    if tty:
        if "tty_out" not in c.fields:
            return
        quiet_printing(prog, ck, c, arch)
        c.put(st, T, "tty_out")
    r1 = c.call(st.copy(), "step")
    rp = c.call(st.copy(), "propagate_signals")
    if r1 is None or rp is None:
        ck.fail("%s/step" % arch, "a step never completes", fl, ln)
        return
    s1, sp = r1[1], rp[1]
    before, mid = snapshot(c, st), snapshot(c, sp)
    ri = c.call(sp.copy(), "initiate_next_cycle")
    if ri is None:
        ck.fail("%s/step" % arch, "a clock edge never completes", fl, ln)
        return
    end = snapshot(c, ri[1])
    got = snapshot(c, s1)
    ok = AND(s1.pc, AND(sp.pc, *I.counters))
    tv = mid.get(("cur_inter", tname))
    if tv is None:
        raise HwError("no signal %s" % tname)
    tm = I.cond(tv)
    for src, what in ((mid, "propagate_signals"), (got, "step")):
        ck.count("components_compared", 2)
        if may_differ(ok, src[("cycle_count",)], add_const(before[("cycle_count",)], 1)) is not None:
            ck.fail("%s/cycle_count" % arch, "%s does not count exactly one cycle" % what, fl, ln)
        w = may_differ(ok, src[("terminate",)], tm)
        if w is not None:
            ck.fail("%s/terminate" % arch, "after %s the termination flag is not this cycle's signal %s" % (what, tname), fl, ln, "state: " + show(w))
    for k, v in got.items():
        ck.count("components_compared")
        for cond, want, what in ((tm, mid[k], "when the processor terminates"), (NOT(tm), end[k], "when it continues")):
            w = may_differ(AND(ok, cond), v, want)
            if w is not None:
                ck.fail("%s/%s" % (arch, sig(k)), "%s after step is not what one cycle leaves there %s" % (sig(k), what), fl, ln, "state: " + show(w))
    for k in before:
        if k[0] == "cur_state":
            ck.count("components_compared")
            if may_differ(ok, mid[k], before[k]) is not None:
                ck.fail("%s/%s" % (arch, sig(k)), "propagating signals changes the current stage value %s" % sig(k), fl, ln)
    # the reported cycle count and flag are the counted ones
    for m, k in (("cycle_count", ("cycle_count",)), ("is_terminate", ("terminate",))):
        r = c.call(s1.copy(), m)
        ck.count("components_compared")
        if r is None or may_differ(ok, r[0], got[k]) is not None:
            ck.fail("%s/%s" % (arch, m), "%s() does not report the simulator's own count or flag" % m, fl, ln)
    a = built_zero(c)
    if a:
        ck.fail("%s/%s" % (arch, a), "a fresh simulator does not start with %s cleared" % a, c.newfn.file, c.newfn.line)
    # observers
    for m in OBSERVERS:
        g = c.methods.get(m)
        if g is None or (m != "reg" and g.nargs > 2):
            continue
        ck.count("observers")
        pure(prog, ck, arch, g)
        if m in ("get_stage_info", "fmt", "reg"):
            continue
        r = c.call(st.copy(), m)
        if r is None:
            ck.fail("%s/%s" % (arch, m), "%s() never returns" % m, g.file, g.line)
            continue
        after = snapshot(c, r[1])
        for k, v in before.items():
            if may_differ(T, v, after[k]) is not None:
                ck.fail("%s/%s" % (arch, m), "%s() changes %s" % (m, sig(k)), g.file, g.line)
                break
    visited(I, ck)


def built_zero(c):
    if ex(c.field(c.built, "cycle_count")) is not leaf(0):
        return "cycle_count"
    if ex(c.field(c.built, "terminate")) is not F:
        return "terminate"
    return None


def add_const(v, k):
    return addn(ex(v), leaf(k))


MUTATES = re.compile(r"(^|::)(RefCell(::)?<.*>(::)?|RefCell|Cell|Cell(::)?<.*>(::)?|UnsafeCell|UnsafeCell(::)?<.*>(::)?|OnceCell|Mutex|RwLock)(::)(borrow_mut|try_borrow_mut|set|replace|replace_with|swap|take|update|get_mut|as_ptr|get|lock|write)$")


def pure(prog, ck, arch, g):
    """g is a shared-reference method: it can only change state through interior mutability."""
    t = g.lty(1)
    if t.k == "ref" and t.mut:
        raise HwError("%s takes the simulator mutably" % g.name)
    seen = cfg.reachable(prog, [g.key], stop=lambda f: not own(f))
    for k in seen:
        f = prog.fns.get(k)
        if f is None or not own(f):
            continue
        ck.fn(f.name)
        for b, key, path, args, dest, tgt, line in cfg.calls(f):
            ck.count("call_sites")
            n = cfg.fullname(prog, key, path)
            if MUTATES.search(path) and not path.endswith(("Cell::<T>::get",)):
                m = path.rsplit("::", 1)[-1]
                if m == "get" and "UnsafeCell" not in path:
                    continue
                ck.fail("%s/%s" % (arch, g.name.rsplit("::", 1)[-1]), "an observer reaches an interior mutation (%s in %s)" % (path, f.name), f.file, line)


def run_once(prog, ck, arch):
    c = Cpu(prog, arch)
    items = c.order_items()
    if items is None:
        raise HwError("propagation order of %s does not fold to a constant" % arch)
    st = c.start()
    I = c.I
    ups, runs = {}, {}
    real = I.exec_fn
    depth = [0]

    def exec_fn(fn, args, s, line=0, caller=None):
        nm = fn.name.rsplit("::", 1)[-1]
        if nm == "run" and len(args) >= 2 and fn.file.startswith(CRATE_SRC) and "Units" in fn.name:
            v = ex(args[1])
            if v.__class__ is bdd.N and v.v is None and v.val.__class__ is StrC:
                runs.setdefault(v.val.s, []).append(s.pc)
        elif nm == "updater":
            ups.setdefault(fn.key, []).append(s.pc)
        return real(fn, args, s, line, caller)
    I.exec_fn = exec_fn
    names = [n for _, n, _ in items]
    fl, ln = c.methods["update"].file, c.methods["update"].line
    want_u = {n for u, n, _ in items if u}
    want_c = [n for u, n, _ in items if not u]
    for m in ("propagate_signals", "step"):
        ups.clear()
        runs.clear()
        r = c.call(st.copy(), m)
        if r is None:
            ck.fail("%s/%s" % (arch, m), "a cycle never completes", fl, ln)
            continue
        if not runs or not ups:
            ck.notes.append("no unit or update executions recognised for %s" % arch)
            continue
        ok = r[1].pc
        for n in sorted(want_u | set(runs)):
            ck.count("units_and_updates")
            bad(ck, arch, n, runs.get(n, []), ok, fl, ln, m)
        for k, ps in ups.items():
            ck.count("units_and_updates")
            bad(ck, arch, "update at line %d" % prog.fns[k].line, ps, ok, fl, ln, m)
        if len(ups) != len(want_c):
            ck.fail("%s/updates" % arch, "%s runs %d different updates of %d" % (m, len(ups), len(want_c)), fl, ln)
    visited(I, ck)


def bad(ck, arch, n, pcs, ok, fl, ln, m):
    if not pcs:
        ck.fail("%s/%s" % (arch, n), "%s does not run in %s" % (n, m), fl, ln)
    elif len(pcs) > 1 and feasible(AND(pcs[0], pcs[1])):
        ck.fail("%s/%s" % (arch, n), "%s runs more than once in %s" % (n, m), fl, ln)
    elif feasible(AND(ok, NOT(OR(*pcs) if len(pcs) > 1 else pcs[0]))):
        ck.fail("%s/%s" % (arch, n), "%s does not run in every %s" % (n, m), fl, ln)


PB = "y86_sim::framework::propagate::PropOrderBuilder::"
# small circuits: units (name, inputs, outputs), intermediate signals, possible connections
TEMPLATES = (
    ([("u", ("a", "b"), ("o",))], ("x", "y"),
     (("x", "u.a"), ("y", "u.b"), ("x", "u.b"), ("u.o", "x"), ("u.o", "y"), ("x", "y"), ("y", "x"), ("y", "y"))),
    ([("u", ("a",), ("o",)), ("v", ("b",), ("p",))], ("x",),
     (("x", "u.a"), ("x", "v.b"), ("u.o", "x"), ("v.p", "x"), ("u.o", "v.b"), ("v.p", "u.a"), ("x", "x"))),
    ([], ("x", "y", "z"), tuple((a, b) for a in "xyz" for b in "xyz" if a != b)),
)


def constant(v):
    v = ex(v) if v is not None else None
    return v.val if v is not None and v.__class__ is bdd.N and v.v is None and isinstance(v.val, int) else None


class Builder:
    """Constant propagation through the circuit builder."""

    def __init__(self, prog, perm=None):
        self.p = prog
        self.I = new_interp(prog)
        if perm is not None:
            self.I.hash_perm = perm
        self.f = {}
        for f in prog.fns.values():
            if f.name.startswith(PB) and "{" not in f.name:
                self.f[f.name[len(PB):]] = f
        for n in ("new", "add_edge", "add_unit_node", "add_unit_input", "add_unit_output", "add_intermediate", "build"):
            if n not in self.f:
                raise HwError("circuit builder has no %s" % n)

    def one(self, units, inter, edges):
        """-> None when building refuses the circuit, else [(is unit, name)] in order."""
        I = self.I
        st = State({}, T)
        r = I.run(self.f["new"], [], st)
        if r is None:
            return None
        v, st = r
        ob = I.alloc(st, v, self.f["new"].lty(0), "builder")
        me = leaf(mkref(ob))

        def s(x):
            return leaf(mkstr(x))

        def do(m, *a):
            r = I.call_fn(st, self.f[m].key, [me] + [s(x) for x in a])
            return r is not None
        for n, ins, outs in units:
            if not do("add_unit_node", n):
                return None
            for x in ins:
                if not do("add_unit_input", n, x):
                    return None
            for x in outs:
                if not do("add_unit_output", n, x):
                    return None
        for n in inter:
            if not do("add_intermediate", n):
                return None
        for a, b in edges:
            if not do("add_edge", a, b):
                return None
        r = I.run(self.f["build"], [I.read(st, ob, ())], st)
        if r is None:
            return None
        v, st2 = r
        if st2.pc is not T:
            raise HwError("building a constant circuit does not fold to a constant")
        t = self.f["build"].lty(0)
        d = {n: (ex(x), ft) for (n, ft), x in zip(t.variants[0][2], ex(v).v)}
        vec, vt = d["order"]
        if vec.__class__ is not VecV:
            raise HwError("propagation order of a constant circuit does not fold to a constant")
        it = vt.gargs[0]
        names = [n for n, _ in it.variants[0][2]]
        out = []
        self.levels = []
        for x in vec.items:
            e = dict(zip(names, (ex(y) for y in ex(x).v)))
            if e["name"].v is not None or e["name"].val.__class__ is not StrC:
                raise HwError("propagation order of a constant circuit does not fold to a constant")
            out.append((e["is_unit"] is T, e["name"].val.s))
            self.levels.append(constant(e.get("level")))
        self.max_dist = constant(d["max_dist"][0]) if "max_dist" in d else None
        return out


def verdict(units, inter, edges):
    """Why a circuit must be refused, or None."""
    es = list(edges)
    for n, ins, outs in units:
        for x in ins:
            if not any(b == n + "." + x for _, b in es):
                return "input %s.%s has no source" % (n, x)
    for n, ins, outs in units:
        es += [(n + "." + x, n) for x in ins] + [(n, n + "." + x) for x in outs]
    anc = closure(es)
    for n in {a for a, _ in es} | {b for _, b in es}:
        if n in anc(n):
            return "%s depends on itself" % n
    return None


def small_circuits(prog, ck, k, n, perm):
    b = Builder(prog, perm)
    fl, ln = b.f["build"].file, b.f["build"].line
    j = 0
    for units, inter, conns in TEMPLATES:
        for m in range(1 << len(conns)):
            j += 1
            if j % n != k:
                continue
            es = [e for i, e in enumerate(conns) if m >> i & 1]
            why = verdict(units, inter, es)
            got = b.one(units, inter, es)
            ck.count("small_circuits")
            d = "connections: " + ", ".join("%s -> %s" % e for e in es)
            if why and got is not None:
                ck.fail("PropOrderBuilder::build", "accepts a circuit in which " + ("a signal depends on itself" if "itself" in why else "a unit input has no source"), fl, ln, d + " (%s)" % why)
            elif not why and got is None:
                ck.fail("PropOrderBuilder::build", "refuses a well-formed circuit", fl, ln, d)
            elif got is not None:
                want = {(True, n_) for n_, _, _ in units} | {(False, x) for x in inter}
                if set(got) != want or len(got) != len(want):
                    ck.fail("PropOrderBuilder::build", "the order of a circuit is not each unit and signal once", fl, ln, d)
    visited(b.I, ck)


def declared(prog, ck, f):
    """A processor's build_circuit: refused exactly for the invalid sample architectures."""
    I = new_interp(prog)
    r = I.run(f, [], State({}, T))
    ck.count("declared_circuits")
    invalid = "::invalid::" in f.name
    arch = re.search(r"::(\w+)::Arch", f.name).group(1)
    if invalid and (r is not None and feasible(r[1].pc)):
        ck.fail("%s/build_circuit" % arch, "an ill-formed circuit is accepted", f.file, f.line)
    if not invalid and (r is None or r[1].pc is not T):
        ck.fail("%s/build_circuit" % arch, "a well-formed circuit is refused", f.file, f.line)
    if not invalid:
        for o in obligations(I, 0):
            n, fl, l = o.site()
            ck.fail("%s/build_circuit" % arch, "building may panic: %s in %s" % (o.kind, n), fl, l)
    visited(I, ck)


@guard
def check_f02(prog, ck):
    ck.rule("constant propagation through the circuit builder: every declared architecture's circuit, and every wiring of small circuits (one unit and two signals, two units and one signal, three signals), is refused exactly when a signal depends on itself or a unit input has no source")
    ck.assumption("the builder treats node names uniformly (it compares them only for equality and order), so small circuits are representative")
    import report
    fs = [f for f in prog.fns.values() if f.name.endswith("::build_circuit") and own(f)]
    if not fs:
        raise HwError("no build_circuit")
    n = 8
    jobs = [lambda c, f=f: guard(lambda pr, k: declared(pr, k, f))(prog, c) for f in fs]
    ps = perms(ck.tier)[:2] if ck.tier == "quick" else perms(ck.tier)[:4]
    jobs += [lambda c, k=k, p=ps[k % len(ps)]: guard(lambda pr, q: small_circuits(pr, q, k, n, p))(prog, c) for k in range(n)]
    if ck.tier != "quick":
        jobs += [lambda c, k=k, p=ps[(k + 1) % len(ps)]: guard(lambda pr, q: small_circuits(pr, q, k, n, p))(prog, c) for k in range(n)]
    report.parallel(ck, jobs)


def chains(nodes, units, es):
    """For every node the largest number of units on a chain of dependencies ending in it."""
    into = {}
    for a, b in es:
        into.setdefault(b, set()).add(a)
    best = {}

    def f(n):
        if n not in best:
            best[n] = max((f(a) for a in into.get(n, ())), default=0) + (n in units)
        return best[n]
    for n in nodes:
        f(n)
    for a, b in es:
        f(a), f(b)
    return best


def judge_levels(ck, who, items, levels, cost, es, fl, ln, d=None):
    units = {n for u, n in items if u}
    best = chains([n for _, n in items], units, es)
    prev = 0
    for (_, n), lv in zip(items, levels):
        ck.count("levels_judged")
        if lv is None:
            raise HwError("a level does not fold to a constant")
        if lv != best[n]:
            ck.fail("%s/level" % who if d else "%s/%s" % (who, n), "the level of %s is %d, but the longest chain to it has %d units" % (n, lv, best[n]), fl, ln, d)
        if lv < prev:
            ck.fail("%s/level" % who if d else "%s/%s" % (who, n), "%s is listed after an item of a greater level" % n, fl, ln, d)
        prev = max(prev, lv)
    if cost is None:
        raise HwError("the critical path does not fold to a constant")
    want = max(best.values(), default=0) + 1
    ck.count("costs_judged")
    if cost != want:
        ck.fail("%s/cost" % who, "the cycle cost is %d, but there are %d levels" % (cost, want), fl, ln, d)


def arch_levels(prog, ck, arch, perm):
    o = analyse(prog, arch, perm)
    items, es, md = built_summary(o)
    fl, ln = o.newfn.file, o.newfn.line
    r = o.call(o.base.copy(), "cycle_cost")
    cost = constant(r[0]) if r is not None else None
    judge_levels(ck, arch, [(u, n) for u, n, _ in items], [l for _, _, l in items], cost, es, fl, ln)
    visited(o.I, ck)


def small_levels(prog, ck, k, n, perm):
    b = Builder(prog, perm)
    fl, ln = b.f["build"].file, b.f["build"].line
    j = 0
    for units, inter, conns in TEMPLATES + CHAINS:
        for m in range(1 << len(conns)):
            es = [e for i, e in enumerate(conns) if m >> i & 1]
            if verdict(units, inter, es):
                continue
            j += 1
            if j % n != k:
                continue
            got = b.one(units, inter, es)
            if got is None:
                continue        # F02
            ck.count("small_circuits")
            for u, ins, outs in units:
                es = es + [(u + "." + x, u) for x in ins] + [(u, u + "." + x) for x in outs]
            judge_levels(ck, "PropOrderBuilder::build", got, b.levels, b.max_dist, es, fl, ln,
                         "connections: " + ", ".join("%s -> %s" % e for e in es))
    visited(b.I, ck)


# three units in a row or side by side; a unit next to a longer chain of signals
CHAINS = (
    ([("u", ("a",), ("o",)), ("v", ("b",), ("p",)), ("w", ("c", "d"), ("q",))], ("x", "y"),
     (("x", "u.a"), ("y", "v.b"), ("u.o", "y"), ("u.o", "w.c"), ("v.p", "w.c"), ("y", "w.d"), ("v.p", "w.d"), ("w.q", "v.b"))),
    ([("u", ("a",), ("o",))], ("x", "y", "z", "t"),
     (("x", "u.a"), ("x", "y"), ("y", "z"), ("z", "t"), ("u.o", "z"))),
)


@guard
def check_f07(prog, ck):
    ck.rule("constant propagation through the circuit builder: in every declared processor and every well-formed wiring of small circuits, the level of each listed item is the largest number of units on a chain of dependencies up to and including it, levels never decrease along the order, and the cycle cost is the number of levels")
    ck.assumption("the builder treats node names uniformly (it compares them only for equality and order), so small circuits are representative")
    import report
    n = 7
    ps = perms(ck.tier)
    jobs = [lambda c, a=a, p=p: guard(lambda pr, k: arch_levels(pr, k, a, p))(prog, c) for a in reversed(BUILTIN) for p in ps[:2]]
    jobs += [lambda c, k=k, p=p: guard(lambda pr, q: small_levels(pr, q, k, n, p))(prog, c) for p in (ps[:1] if ck.tier == "quick" else ps[:4]) for k in range(n)]
    report.parallel(ck, jobs)


CHECKS = {"F07": check_f07, "F01": check_f01, "F02": check_f02, "F03": check_f03, "F04": check_f04, "F05": check_f05}
