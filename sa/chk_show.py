"""D06, D07: what the debugger shows.

D06 is the session of chk_dbg with more ghost state: every query of the processor is answered with values named after the
processor, the cycle and the half of the cycle in which it was asked, strings keep what they were made from, and the answers to
StackTrace, Scopes and Variables are compared with the values of the present processor at the present cycle.
D07 interprets the processors' own get_stage_info, registers and program_counter in an arbitrary state."""
from chk_dbg import *
import chk_hw

REGNAMES = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14"]
STAGES = 2


class Text:
    """Strings made from values: the text of an unknown value is a constant of its own, one for every value."""

    def __init__(self):
        self.of, self.made = {}, {}

    def text(self, kind, v):
        k = (kind, v.id if v.__class__ is bdd.N else repr(v))
        if k not in self.of:
            s = "<text %d>" % len(self.of)
            self.of[k] = s
            self.made[s] = (kind, v)
        return leaf(mkstr(self.of[k]))


class Formatting:
    """Calls of the formatting machinery, keeping the values that are formatted."""

    def init_text(self):
        self.texts = Text()
        self.args = {}

    def target(self, st, v):
        for _ in range(6):
            v = ex(v)
            if v.__class__ is bdd.N and v.v is None and v.val.__class__ is Ref and v.val.obj[0] not in ("strobj",):
                v = self.I.deref(st, v)
            else:
                break
        return ex(v)

    def fmt_call(self, st, n, p, args, destty):
        if p.startswith("core::fmt::rt::Argument") and "::new_" in p:
            v = self.target(st, args[0])
            return self.opaque(destty, ("arg", p.rsplit("::new_", 1)[-1], v)), st
        if p.startswith("std::fmt::Arguments") and p.rsplit("::", 1)[-1] in ("new", "new_v1", "new_v1_formatted"):
            t = self.target(st, args[0])
            a = self.target(st, args[1]) if len(args) > 1 else None
            items = a.items if a.__class__ in (VecV, ArrV) and hasattr(a, "items") else a.v if a.__class__ is Agg else a
            vs = []
            if isinstance(items, (list, tuple)):
                for x in items:
                    k = self.args.get(getattr(ex(x) if x.__class__ is not SymV else x, "name", None)) or self.args.get(getattr(x, "name", None))
                    vs.append(k)
                if all(vs):
                    return self.opaque(destty, ("args", repr(t), tuple(vs))), st
            return self.opaque(destty, None), st
        if p in ("std::fmt::format", "std::fmt::format::format_inner"):
            k = self.args.get(getattr(args[0], "name", None))
            if k and k[0] == "args" and len(k[2]) == 1:
                _, how, v = k[2][0]
                return self.texts.text("formatted", v), st
            return leaf(mkstr("<text? %d>" % self.tick())), st
        if p.endswith("ToString::to_string") or p.endswith("ToOwned::to_owned") or n.endswith("as std::clone::Clone>::clone") and "String" in n or p in ("std::string::String::as_str", "std::convert::From::from", "std::convert::Into::into", "std::string::String::from") and destty is not None and (destty.path == "std::string::String" or destty.k == "ref"):
            v = self.target(st, args[0])
            if v.__class__ is bdd.N and all(l.__class__ is StrC for _, l in guards(v)):
                return v, st
        m = re.match(r"^(?:alloc|core|std)::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|trim|trim_start|trim_end)$", p)
        if m:
            v = self.target(st, args[0])
            g = strings(v)
            if g and not any(s.startswith("<text") for _, s in g):
                f = {"lowercase": str.lower, "uppercase": str.upper, "trim": str.strip, "start": str.lstrip, "end": str.rstrip}[m.group(1).rsplit("_", 1)[-1]]
                return map1(lambda l: leaf(mkstr(f(l.s))), v), st
        return NotImplemented

    def tick(self):
        self.ticks = getattr(self, "ticks", 0) + 1
        return self.ticks

    def opaque(self, ty, what):
        v = SymV(ty, "fmt#%d" % self.tick())
        if what is not None:
            self.args[v.name] = what
        return v


def strings(v):
    """The string constants a string may be, or None"""
    v = ex(v)
    if v.__class__ is bdd.N:
        g = guards(v)
        if all(l.__class__ is StrC for _, l in g):
            return [(c, l.s) for c, l in g]
    return None


class Shown(Formatting, Session):
    extra = dict(cver=leaf(0), seen=leaf(0), phase=leaf(0))

    def __init__(self, *a):
        Session.__init__(self, *a)
        self.init_text()
        self.shown = 0
        self.listed = {}           # scopes as answered: (name, reference)

    def boundary(self, st, ref, args, destty, line, caller):
        r = self.fmt_call(st, ref["name"], ref["path"], args, destty)
        if r is not NotImplemented:
            return r
        return Session.boundary(self, st, ref, args, destty, line, caller)

    # the processor's answers, by processor and moment
    def version(self, st, args):
        sim = ex(args[0])
        t = self.target_ref(sim)
        if t is None:
            return None
        out = None
        for g, k in t:
            for h, c in guards(st.mem[G("cver")]):
                c2 = AND(g, h)
                if feasible(AND(st.pc, c2)):
                    out = (out or []) + [(c2, "%d.%d" % (k, c))]
        return out

    def target_ref(self, sim):
        t = ex(self.I.unwrap(sim)) if sim.__class__ is not bdd.N else sim
        if t.__class__ is not bdd.N:
            return None
        out = []
        for g, l in guards(self.I.num(t)):
            m = re.match(r"^sim(\d+)$", str(l.obj[1])) if l.__class__ is Ref and l.obj[0] == "sym" else None
            if not m:
                return None
            out.append((g, int(m.group(1))))
        return out

    def now(self, st):
        """The present version: of the program launched last, at the present cycle"""
        return [(c, "%d.%d" % (k, v)) for g, k in guards(st.mem[G("program")]) for h, v in guards(st.mem[G("cver")]) for c in (AND(g, h),) if feasible(AND(st.pc, c))]

    def reg(self, ver, i):
        return inp("register %d of %s" % (i, ver), 64)

    def signal(self, ver, k, j):
        return leaf(mkstr("signal %d of stage %d" % (j, k))), leaf(mkstr("value %d.%d at %s" % (k, j, ver)))

    def sim_call(self, st, m, args, destty, line, caller):
        if m in ("registers", "register_file", "get_stage_info"):
            vs = self.version(st, args)
            if vs:
                out = None
                for g, ver in vs:
                    x = self.stages(destty, ver) if m == "get_stage_info" else self.I.array([self.reg(ver, i) for i in range(16)]) if hasattr(self.I, "array") else Agg([self.reg(ver, i) for i in range(16)])
                    out = x if out is None else merge(g, x, out)
                return out, st
        if m in ("initiate_next_cycle", "propagate_signals", "step"):
            ph = st.mem[G("phase")]
            if m == "initiate_next_cycle":
                self.bad("D06", st, count(ph, 1), "the next cycle is begun although the signals of this one were not propagated", caller, line)
                to = 1
            elif m == "propagate_signals":
                self.bad("D06", st, count(ph, 2), "signals are propagated twice in one cycle", caller, line)
                to = 2
            else:
                to = 0
            r = Session.sim_call(self, st, m, args, destty, line, caller)
            if r is None:
                return None
            v, st = r
            st.mem[G("phase")] = leaf(to)
            k = st.mem[G("poll")]
            st.mem[G("cver")] = map1(lambda l: leaf(10 * l + to), k)
            return v, st
        return Session.sim_call(self, st, m, args, destty, line, caller)

    def followed(self, st, n):
        return OR(count(n, 0), AND(count(n, 1), self.cmd_is(st, "Next")))

    def stages(self, destty, ver):
        ety = destty.gargs[0]
        out = []
        for k in range(STAGES):
            e = list(ex(SymV(ety, "stage%d" % k)).v)
            for i, (n, t) in enumerate(ety.variants[0][2]):
                if t.path == "std::vec::Vec":
                    e[i] = VecV([Agg(self.signal(ver, k, j)) for j in range(k + 1)])
                elif n == "name":
                    e[i] = leaf(mkstr("stage %d" % k))
            out.append(Agg(e))
        return VecV(out)

    def srv_send_event(self, st, args, destty, line, caller):
        ev = ex(args[1])
        if ev.__class__ is EnumV:
            stop = is_variant(ev, self.evty(), "Stopped")
            self.bad("D06", st, AND(stop, count(st.mem[G("phase")], 1)), "the stopped processor is in the middle of a cycle: signals not propagated", caller, line)
        return Session.srv_send_event(self, st, args, destty, line, caller)

    # ------------------------------------------------------------ answers
    def srv_respond(self, st, args, destty, line, caller):
        rty = self.rspty()
        names = fields(rty)
        r = ex(args[1])
        if r.__class__ is Agg:
            good = self.I.cond(r.v[names.index("success")])
            body = ex(r.v[names.index("body")])
            bty = dict(rty.variants[0][2])["body"].gargs[0]
            b = ex(body.p[1][0]) if 1 in body.p else None
            for c, h in (("StackTrace", self.show_trace), ("Scopes", self.show_scopes), ("Variables", self.show_variables)):
                on = AND(good, self.cmd_is(st, c))
                if not feasible(AND(st.pc, on)):
                    continue
                i = index_of(bty, c)
                if b is None or b.__class__ is not EnumV or i not in b.p:
                    self.bad("D06", st, on, "%s is answered without its contents" % c, caller, line)
                    continue
                self.bad("D06", st, AND(on, NOT(OR(count(b.d, i), F))), "%s is answered with other contents" % c, caller, line)
                v = ex(b.p[i][0])
                ty = bty.variants[i][2][0][1]
                lst = v.v[0] if v.__class__ is Agg else v
                ety = ty.variants[0][2][0][1].gargs[0]
                self.shown += 1
                for g, items in self.lists(lst):
                    if feasible(AND(st.pc, AND(on, g))):
                        h(st, AND(on, g), items, ety, line, caller)
        return Session.srv_respond(self, st, args, destty, line, caller)

    def lists(self, v):
        v = ex(v)
        if v.__class__ is VecV:
            return [(T, v.items)]
        if v.__class__ is AltV:
            return [(g, w.items) for g, w in v.cases if w.__class__ is VecV]
        raise HwError("an answer's list is not understood")

    def argument(self, st, cmd, field):
        """The field of the present request's arguments"""
        out = None
        for g, l in guards(st.mem[G("poll")]):
            if l < 1 or l > len(self.hist):
                continue
            _, _, _, c, cty = self.request(self.reqdest, l - 1)
            i = index_of(cty, cmd)
            aty = cty.variants[i][2][0][1]
            x = ex(c.p[i][0]).v[fields(aty).index(field)]
            out = x if out is None else merge(g, x, out)
        return out

    def srv_poll_request(self, st, args, destty, line, caller):
        self.reqdest = destty
        return Session.srv_poll_request(self, st, args, destty, line, caller)

    def show_trace(self, st, on, items, ety, line, caller):
        sf = ex(self.argument(st, "StackTrace", "start_frame"))
        lv = ex(self.argument(st, "StackTrace", "levels"))
        if not items:
            self.bad("D06", st, AND(on, AND(NOT(some(sf)), NOT(some(lv)))), "no frame is shown for the stopped processor", caller, line)
            return
        f = ex(items[0])
        if f.__class__ is not Agg:
            raise HwError("a frame is not understood")
        ln = self.I.num(f.v[fields(ety).index("line")])
        pc = st.mem[G("pc")]
        has = F
        for info in ex(st.mem[G("lines")]).items:
            a = ex(info)
            has = OR(has, AND(some(a), eqn(self.I.num(a.p[1][0]), pc)))
        h, a = self.addr_of(st, ln)
        self.bad("D06", st, AND(on, AND(has, NOT(AND(h, eqn(a, pc))))), "the line shown is not one at the program counter's address", caller, line)

    def show_scopes(self, st, on, items, ety, line, caller):
        ni, ri = fields(ety).index("name"), fields(ety).index("variables_reference")
        refs, names = [], []
        for e in items:
            e = ex(e)
            if e.__class__ is not Agg:
                raise HwError("a scope is not understood")
            s = strings(e.v[ni])
            r = self.I.num(e.v[ri])
            if s is None or r.v is not None or not isinstance(r.val, int):
                raise HwError("a scope's name or reference is not understood")
            refs.append(r.val)
            names.append(s)
        for i, a in enumerate(refs):
            if a in refs[:i]:
                self.bad("D06", st, on, "two scopes have the same reference", caller, line)
            if a <= 0:
                self.bad("D06", st, on, "a scope has no reference to its variables", caller, line)
        flat = [n for s in names for _, n in s]
        for k in range(STAGES):
            if "stage %d" % k not in flat:
                self.bad("D06", st, on, "a stage has no scope", caller, line)
        if len(items) != STAGES + 1:
            self.bad("D06", st, on, "the scopes are not the registers and the stages", caller, line)
        for a, s in zip(refs, names):
            for g, n in s:
                c = AND(AND(st.pc, on), g)
                if feasible(c):
                    self.listed[a] = OR(self.listed.get(a, {}).get(n, F), c) if False else dict(self.listed.get(a, {}), **{n: T})
        st.mem[G("seen")] = merge(on, leaf(1), st.mem[G("seen")])

    def show_variables(self, st, on, items, ety, line, caller):
        vr = self.I.num(self.argument(st, "Variables", "variables_reference"))
        ni, vi = fields(ety).index("name"), fields(ety).index("value")
        on = AND(on, count(st.mem[G("seen")], 1))
        for a, names in self.listed.items():
            if len(names) != 1:
                continue
            c = AND(on, eqn(vr, leaf(a)))
            if not feasible(AND(st.pc, c)):
                continue
            name = list(names)[0]
            m = re.match(r"^stage (\d+)$", name)
            got = []
            for e in items:
                e = ex(e)
                if e.__class__ is not Agg:
                    raise HwError("a variable is not understood")
                got.append((e.v[ni], e.v[vi]))
            if m:
                self.judge_stage(st, c, got, int(m.group(1)), line, caller)
            else:
                self.judge_regs(st, c, got, line, caller)

    def judge_stage(self, st, c, got, k, line, caller):
        if len(got) != k + 1:
            self.bad("D06", st, c, "the variables of a stage's scope are not its signals", caller, line)
            return
        now = self.now(st)
        exp = []
        for j in range(k + 1):
            x = None
            for g, ver in now:
                y = self.signal(ver, k, j)
                x = y if x is None else tuple(merge(g, p, q) for p, q in zip(y, x))
            exp.append(x)
        for j in range(k + 1):
            # in any order: the variable of this name
            for n, v in got:
                sn = strings(n)
                if sn is None:
                    raise HwError("a variable's name is not understood")
            same = F
            wrong = F
            for n, v in got:
                mine = self.streq(n, exp[j][0])
                same = OR(same, mine)
                sv = strings(v)
                if sv is None or any(s.startswith("<text?") for _, s in sv):
                    self.I.unknown["a variable's value"] = 1
                    self.unread = True
                    continue
                wrong = OR(wrong, AND(mine, NOT(self.streq(v, exp[j][1]))))
            self.bad("D06", st, AND(c, NOT(same)), "a signal of the stage is not shown", caller, line)
            self.bad("D06", st, AND(c, wrong), "a signal is shown with a value that is not its present one", caller, line)

    def streq(self, a, b):
        return map2(lambda x, y: T if x is y else F, ex(a), ex(b))

    def judge_regs(self, st, c, got, line, caller):
        now = self.now(st)
        for i, name in enumerate(REGNAMES):
            x = None
            for g, ver in now:
                y = self.reg(ver, i)
                x = y if x is None else merge(g, y, x)
            there = F
            for n, v in got:
                sn = strings(n)
                if sn is None:
                    raise HwError("a variable's name is not understood")
                mine = F
                for g, s in sn:
                    if s.lower().lstrip("%") == name:
                        mine = OR(mine, g)
                there = OR(there, mine)
                if mine is F:
                    continue
                sv = strings(v)
                for g, s in sv or [(T, None)]:
                    k = self.texts.made.get(s)
                    if k is None:
                        if s is not None and not s.startswith("<text?"):
                            self.bad("D06", st, AND(c, AND(mine, g)), "a register is shown with the value of something else", caller, line)
                        else:
                            self.unread = True
                        continue
                    d = NOT(eqn(self.I.num(k[1]), x))
                    self.bad("D06", st, AND(AND(c, g), AND(mine, d)), "register %s is shown with a value that is not its present one" % name, caller, line)
            self.bad("D06", st, AND(c, NOT(there)), "register %s is not shown" % name, caller, line)


S3 = L1 + ("Scopes",)
SHOWN = [L1 + ("StackTrace",), L1 + ("Next", "StackTrace"), L1 + ("Launch", "StackTrace"), L1 + ("Launch!", "StackTrace"), L1 + ("SetBreakpoints", "Continue", "StackTrace"),
         L1 + ("Scopes", "Variables"), L1 + ("Scopes", "Next", "Variables"), L1 + ("Scopes", "Continue", "Variables"), L1 + ("Scopes", "Next", "Continue", "Variables"), L1 + ("Scopes", "Next", "Next", "Variables"),
         L1 + ("Scopes", "ConfigurationDone", "Variables"), L1 + ("Scopes", "Launch", "Variables"), L1 + ("Next", "Launch", "Scopes", "Variables"), L1 + ("Launch!", "Scopes", "Variables"), L1 + ("Scopes", "Next", "Launch!", "Variables"),
         L1 + ("Next", "Scopes", "Variables", "Next", "Variables"), L1 + ("Scopes", "Variables", "Continue", "StackTrace"), L1 + ("Scopes", "*"), L1 + ("Continue", "*")]


@guard
def check_shown(prog, ck):
    ck.rule("abstract interpretation of a debug session in which every answer of the processor is named by processor, cycle and half-cycle: line of the stack trace is one at the program counter's address; scopes have distinct references; the variables behind each reference are the present registers under their names or the present signals of that stage; cycles begin and propagate in turn and no stop falls in between")
    jobs = []
    for h in SHOWN:
        for nl in (2,) if ck.tier == "quick" else (1, 2, 3):
            def f(c, h=h, nl=nl):
                s = Shown(prog, h, 1 if "SetBreakpoints" in h else 0, nl)
                try:
                    s.go()
                except HwError as e:
                    c.notes.append("%s: %s" % (" ".join(h), e))
                    c.count("not_analysed")
                c.count("histories")
                c.count("answers_compared", s.shown)
                c.count("stop_sites", s.stops)
                c.count("cycle_sites", s.cycles)
                c.count("unread_values", int(getattr(s, "unread", False)))
                visited(s.I, c)
                for prop, construct, what, fl, l, cond in s.found:
                    if prop == "D06":
                        w = real(cond)
                        if w is not None:
                            c.fail(construct, what, fl, l, "requests: %s\ncase: %s" % (", ".join(h), show(w)))
                        else:
                            c.count("undecided")
            jobs.append(f)
    report.parallel(ck, jobs, limit=8, deadline=700)


# ---------------------------------------------------------------- H12
class Report(Formatting):
    """A processor whose formatting calls keep what they format."""

    def __init__(self, c):
        self.c, self.I, self.p = c, c.I, c.p
        self.init_text()
        self.real_call = c.I.call_fn
        c.I.call_fn = self.call_fn

    def call_fn(self, st, key, args, destty=None, line=0, caller=None, untuple=False):
        ref = self.p.refs.get(key)
        if ref is not None:
            r = self.fmt_call(st, ref["name"], ref["path"], args, destty)
            if r is not NotImplemented:
                return r
        return self.real_call(st, key, args, destty, line, caller, untuple)


def sections(prog, f):
    """[(title, text)] of the description a processor is generated from, and the text without comments."""
    import os, dump
    p = f.file if os.path.isabs(f.file) else os.path.join(dump.REPO, f.file)
    try:
        t = open(p, encoding="utf-8").read()
    except OSError:
        return None
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    i = t.find("hcl!")
    if i < 0:
        return None
    parts = re.split(r":=+:\s*((?:[^:]|:(?!=))*?)\s*:=+:", t[i:])
    return [(re.sub(r'["\s]+', " ", n).strip(), b) for n, b in zip(parts[1::2], parts[2::2])]


def report_check(prog, ck, arch):
    ck.rule("get_stage_info of %s interpreted in an arbitrary state: every field of the circuit's intermediate signals is listed exactly once, the text comes from the field of that name, the section is the one whose text declares it; program_counter after propagate_signals is the address on the instruction memory's input" % arch)
    c = chk_hw.Cpu(prog, arch)
    I = c.I
    f = c.methods.get("get_stage_info")
    if f is None:
        raise HwError("no get_stage_info")
    R = Report(c)
    st = c.start()
    r = c.call(st.copy(), "get_stage_info")
    if r is None:
        raise HwError("get_stage_info does not return")
    lst = ex(r[0])
    if lst.__class__ is not VecV:
        raise HwError("the stage information is not understood")
    ity = c.ftys["cur_inter"]
    cur, _ = c.get(st, "cur_inter")
    cur = ex(cur)
    sig = {n: ex(v) for (n, _), v in zip(ity.variants[0][2], cur.v)}
    ety = f.lty(0).gargs[0]
    ni, si = fields(ety).index("name"), fields(ety).index("signals")
    shown = {}
    same = lambda a, b: a is b if a.__class__ is bdd.N or b.__class__ is bdd.N else repr(a) == repr(b)
    for s in lst.items:
        s = ex(s)
        title = strings(s.v[ni])
        items = ex(s.v[si])
        if items.__class__ is not VecV or title is None or len(title) != 1:
            raise HwError("a stage's signals are not understood")
        for e in items.items:
            e = ex(e)
            n, v = strings(e.v[0]), strings(e.v[1])
            if n is None or len(n) != 1:
                raise HwError("a signal's name is not understood")
            n = n[0][1]
            if n.startswith("<text"):
                k = R.texts.made.get(n)
                raise HwError("a signal's name is formatted")
            ck.count("signals_listed")
            if n in shown:
                ck.fail("%s/%s" % (arch, n), "signal %s is listed more than once" % n, f.file, f.line)
            shown[n] = title[0][1]
            if n not in sig:
                ck.fail("%s/%s" % (arch, n), "the stage information lists %s, which is no signal" % n, f.file, f.line)
                continue
            if v is None or len(v) != 1 or v[0][1] not in R.texts.made:
                if v is not None and all(not x.startswith("<text") for _, x in v):
                    ck.fail("%s/%s" % (arch, n), "the value listed for signal %s is not its value" % n, f.file, f.line)
                else:
                    ck.count("not_analysed")
                    ck.notes.append("value of %s not understood" % n)
                continue
            if not same(R.texts.made[v[0][1]][1], sig[n]):
                ck.fail("%s/%s" % (arch, n), "the value listed for signal %s is another value" % n, f.file, f.line)
    for n in sig:
        if n not in shown:
            ck.fail("%s/%s" % (arch, n), "signal %s is not listed" % n, f.file, f.line)
    sec = sections(prog, f)
    titles = [t for t, _ in sec or ()]
    for n, t in sorted(shown.items()):
        where = [i for i, (_, b) in enumerate(sec or ()) if re.search(r"(?m)^\s*(?!return\b|let\b)[\w\[\];:<>]+(?:\s*;\s*\w+\])?\s+%s\s*=" % re.escape(n), b)]
        if len(where) != 1 or titles.count(titles[where[0]]) != 1:
            ck.count("sections_not_judged")
            continue
        ck.count("sections_judged")
        if re.sub(r"\s+", " ", t).strip() != titles[where[0]]:
            ck.fail("%s/%s" % (arch, n), "signal %s is listed under %s but declared under %s" % (n, t, titles[where[0]]), f.file, f.line)
    # the program counter
    st = c.start()
    r = c.call(st, "propagate_signals")
    if r is None:
        raise HwError("propagate_signals does not return")
    st = r[1]
    g = c.methods["program_counter"]
    pc = I.num(c.call(st.copy(), "program_counter")[0])
    try:
        a, _ = c.get(st, "cur_unit_in", "imem", "pc")
    except (KeyError, ValueError, IndexError):
        raise HwError("the instruction memory's input is not found")
    ck.count("program_counters_compared")
    w = chk_hw.may_differ(st.pc, pc, I.num(ex(a)))
    if w is not None:
        ck.fail("%s/program counter" % arch, "the program counter is not the address the instruction memory is asked for", g.file, g.line, show(w))
    visited(I, ck)


def check_report(prog, ck):
    chk_hw.each(prog, ck, ARCHS, report_check)


ARCHS = ["seq_std", "seq_plus_std", "pipe_std"]
CHECKS = {"D06": check_shown, "H12": check_report}
