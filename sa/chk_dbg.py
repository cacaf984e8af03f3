"""D01-D05: the debug server, by abstract interpretation of a session with arbitrary requests.

A session is the server's own loop from `new` to the end. Reading a request is the one place where input enters: there the
history fixes only the command of the first requests, everything else of them and all of the last one is arbitrary; what the
properties speak about (requests pending, responses, stopped events, cycles, launched program, breakpoint lines) is kept as
ghost state at the library boundary, so nothing depends on the server's own fields or functions."""
from hw import *
from chk_hw import visited, guard
from chk_tools import find
from models import sval
import values, cfg, report, re, itertools

G = lambda n: ("g", n)
NEEDS = ("Next", "Continue", "ConfigurationDone", "StackTrace", "Scopes", "Variables", "SetBreakpoints", "StepIn", "StepOut", "StepBack", "ReverseContinue", "Evaluate", "ReadMemory", "WriteMemory", "Disassemble", "SetVariable", "Goto")
RUNS = ("Next", "Continue", "ConfigurationDone")
OTHER_RUNS = ("StepIn", "StepOut", "StepBack", "ReverseContinue", "Goto", "GotoTargets", "Pause", "Restart", "RestartFrame", "TerminateThreads", "Terminate", "Attach")
ACK = ("Attach", "ConfigurationDone", "Disconnect", "Goto", "Launch", "Next", "Pause", "Restart", "RestartFrame", "ReverseContinue", "StepBack", "StepIn", "StepOut", "Terminate", "TerminateThreads")
ENDS = ("Disconnect", "Terminate")
PURE = re.compile(r"^std::path::|^<?std::path::|^<?std::ffi::|^std::string::ToString::to_string$|^std::ffi::OsStr(ing)?::\w+$|^<.* as std::string::(ToString|SpecToString)>::\w+$|^<std::path::Display.*|^std::convert::(From|Into|AsRef)::\w+$|^<std::path::PathBuf as .*$|^<std::ffi::OsString as .*$|^<std::borrow::Cow<.*$|^<std::path::Path as .*$")


def real(c):
    """A witness that does not rest on a value the analysis does not know (those have numbered names)."""
    if not feasible(c):
        return None
    if any(UNKNOWN.search(str(varkey(v))) for v in support(c)):
        w = witness(c)
        return None if any(UNKNOWN.search(str(k)) for k, _ in w) else w
    return witness(c)


UNKNOWN = re.compile(r"#\d")


def fields(ty, vi=0):
    return [n for n, _ in ty.variants[vi][2]]


def vname(ty, i):
    return ty.variants[i][0]


def index_of(ty, name):
    for i, v in enumerate(ty.variants):
        if v[0] == name:
            return i
    return None


def is_variant(v, ty, *names):
    ks = {index_of(ty, n) for n in names}
    return map1(lambda l: T if l in ks else F, ex(v).d)


def ok_of(v):
    return map1(lambda l: T if l == 0 else F, ex(v).d)


def some(v):
    return map1(lambda l: T if l == 1 else F, ex(v).d)


def count(d, k):
    return map1(lambda l: T if l == k else F, d)


def inc(d):
    return map1(lambda l: leaf(min(l + 1, 2)), d)


class Session:
    extra = {}                     # further ghost state

    def __init__(self, prog, hist, nr, nl):
        """hist: commands of the requests read, '*' for anything; nr breakpoints per request; nl lines of source."""
        self.p, self.hist, self.nr, self.nl = prog, hist, nr, nl
        values.ALTS[0] = True
        fs = [f for f in prog.fns.values() if re.match(r"^y86_dbg::server::DebugServer::<std::net::TcpStream, std::net::TcpStream>::(new|start)$", f.name)]
        d = {f.name.rsplit("::", 1)[-1]: f for f in fs}
        if set(d) != {"new", "start"}:
            raise HwError("the debug server's entry points are not found")
        self.new, self.start = d["new"], d["start"]
        I = self.I = Interp(prog)
        self.found = []            # (property, construct, message, file, line, condition)
        self.kinds = {}
        self.serial = 0
        self.named = {}
        self.cycles, self.polls, self.stops, self.responses = 0, 0, 0, 0
        self.real_call = I.call_fn
        I.call_fn = self.call_fn
        self.obsite = {}
        ob = I.oblige

        def oblige(st, kind, bad, fn, line):
            n = len(I.obs)
            r = ob(st, kind, bad, fn, line)
            for o in I.obs[n:]:
                self.obsite[id(o)] = (st.mem.get(G("launched"), F), st.mem.get(G("cmd")), st.mem.get(G("pending"), F), st.mem.get(G("run"), F), st.mem.get(G("ncyc")))
            return r
        I.oblige = oblige

    # ------------------------------------------------------------ ghost helpers
    def bad(self, prop, st, cond, what, fn, line, construct=None):
        c = AND(st.pc, cond)
        if feasible(c):
            self.found.append((prop, construct or fn.name, what, fn.file, line, c))

    def name(self, base, *k):
        """The same name for the same place in a history, also when blocks are interpreted again."""
        return base

    def cmd_is(self, st, *names):
        c = st.mem[G("cmd")]
        ks = {index_of(self.cmdty, n) for n in names}
        return map1(lambda l: T if l in ks else F, c)

    def match(self, st, pc=None):
        """The program counter is at the address of a breakpoint line of the latest accepted request."""
        pc = st.mem[G("pc")] if pc is None else pc
        m = F
        for ln in ex(st.mem[G("kept")]).items:
            h, a = self.addr_of(st, ln)
            m = OR(m, AND(h, eqn(a, pc)))
        return AND(m, st.mem[G("have")])

    def addr_of(self, st, ln):
        """(the line exists and has an address, the address) of a 1-based line number"""
        h, a = F, leaf(0)
        for i, info in enumerate(ex(st.mem[G("lines")]).items):
            here = eqn(ln, leaf(i + 1))
            ad = ex(info)
            s = AND(here, some(ad))
            h = OR(h, s)
            a = merge(s, self.I.num(ad.p[1][0]), a)
        return h, a

    # ------------------------------------------------------------ boundary
    def call_fn(self, st, key, args, destty=None, line=0, caller=None, untuple=False):
        ref = self.p.refs.get(key)
        if ref is not None:
            r = self.boundary(st, ref, args, destty, line, caller or self.start)
            if r is not NotImplemented:
                return r
        return self.real_call(st, key, args, destty, line, caller, untuple)

    def boundary(self, st, ref, args, destty, line, caller):
        n, p = ref["name"], ref["path"]
        if p.startswith("dap::server::Server"):
            m = p.rsplit("::", 1)[-1]
            h = getattr(self, "srv_" + m, None)
            if h is None:
                raise HwError("the connection is used through " + n)
            return h(st, args, destty, line, caller)
        if p.startswith("dap::requests::Request::"):
            m = p.rsplit("::", 1)[-1]
            h = getattr(self, "req_" + m, None)
            if h is not None:
                return h(st, args, destty)
        if "CpuSim" in n and (ref["kind"].startswith("virtual") or "dyn " in n):
            return self.sim_call(st, n.rsplit("::", 1)[-1], args, destty, line, caller)
        if p.startswith(("std::io::BufReader::<R>::", "std::io::BufWriter::<W>::")):
            return SymV(destty, "stream"), st
        if n.startswith("<dap::") and n.endswith("as std::default::Default>::default"):
            return self.default(destty), st
        if p == "std::default::Default::default" and destty is not None and (destty.path or "").startswith("dap::"):
            return self.default(destty), st
        if n.endswith("as std::clone::Clone>::clone") and n.startswith(("<dap::", "<y86_sim::", "<serde_json::")) or re.match(r"^<(std::string::String|std::path::PathBuf|serde_json::value::Value|serde_json::Value) as std::clone::Clone>::clone$", n):
            v = self.I.deref(st, args[0])
            return v, st
        if p in ("serde_json::from_value", "serde_json::from_str", "serde_json::from_slice") or n.startswith("serde_json::from_value"):
            return self.fallible(st, "options", destty), st
        if p in ("std::fs::read_to_string", "std::fs::read", "std::fs::File::open", "std::io::Read::read_to_string", "std::io::read_to_string"):
            return self.fallible(st, "file", destty), st
        if destty is not None and destty.path == "std::result::Result" and (destty.gargs[0].path or "").endswith("ObjectExt"):
            return self.assemble(st, destty)
        if n.startswith("y86_sim::") and n.endswith(("::Object::init_mem", "MemData::init")):
            return SymV(destty, "memory"), st
        if n == "y86_sim::architectures::create_sim":
            k = st.mem[G("loads")]
            r = None
            for g, l in guards(k):
                x = leaf(mkref(("sym", "sim%d" % l), (), ("dynsym", "sim%d" % l)))
                r = x if r is None else merge(g, x, r)
            return r, st
        f = self.p.fns.get(ref.get("key")) if ref.get("key") else None
        if p.startswith(("std::fmt::", "core::fmt::", "alloc::fmt::")) or n.startswith(("std::fmt::", "core::fmt::")):
            if destty is not None and not (destty.k == "struct" and destty.path == "std::string::String"):
                return SymV(destty, "fmt"), st
            return NotImplemented
        if n.startswith(("tracing", "<tracing")) and not n.startswith("<tracing::Level as"):
            if "Field>::expect" in n or destty is None:
                return NotImplemented
            return NotImplemented
        if re.match(r"^anyhow::(error::)?(<impl anyhow::Error>|Error)::(downcast_ref|downcast_mut|is)$", p) and destty is not None:
            k = var(("error kind", line))
            return (k if destty.k == "bool" else EnumV(merge(k, leaf(1), leaf(0)), {0: (), 1: (SymV(destty.gargs[0], "error at %d" % line),)})), st
        if PURE.search(n) or PURE.search(p):
            r = self.pure(st, n, args, destty)
            if p.endswith("Path::file_name") and r is not NotImplemented:
                # a path that was read as a file in this request has a file name
                v = ex(r[0])
                r = EnumV(merge(st.mem[G("loaded")], leaf(1), v.d), v.p), st
            return r
        return NotImplemented

    def pure(self, st, n, args, destty):
        """A function of its arguments and nothing else: equal results for equal arguments."""
        if destty is None:
            return NotImplemented
        vs = []
        for a in args:
            x = ex(a)
            for _ in range(4):
                if x.__class__ is bdd.N and x.v is None and x.val.__class__ is Ref and x.val.obj[0] not in ("const", "static", "strobj"):
                    y = ex(self.I.deref(st, x))
                    x = y
                else:
                    break
            vs.append(x)
        if any(v.__class__ is bdd.N and v.v is None and v.val.__class__ is StrC for v in vs):
            return NotImplemented
        key = (n, tuple(map(repr, vs)))
        return SymV(destty, "%s(%s)" % (re.sub(r"<.*?>|[^\w:]", "", n).rsplit("::", 1)[-1], ", ".join(key[1]))), st

    def default(self, ty):
        k = ty.k
        if k == "bool":
            return F
        if k in ("int", "uint", "char"):
            return leaf(0)
        if k == "enum":
            if ty.path == "std::option::Option":
                return EnumV(leaf(0), {0: ()})
            return SymV(ty, fresh("default"))
        if k == "struct":
            if ty.path == "std::string::String":
                return leaf(mkstr(""))
            if ty.path == "std::vec::Vec":
                return VecV(())
            return Agg(self.default(t) for _, t in ty.variants[0][2])
        if k == "tuple":
            return Agg(self.default(t) for t in ty.fields)
        return SymV(ty, fresh("default"))

    def fallible(self, st, what, destty):
        k = st.mem[G("poll")]
        r = None
        for g, l in guards(k):
            x = SymV(destty, "%s%d" % (what, l))
            r = x if r is None else merge(g, x, r)
        return r

    def assemble(self, st, destty):
        st.mem[G("loads")] = map1(lambda l: leaf(min(l + 1, 8)), st.mem[G("loads")])
        oty = destty.gargs[0]
        r, ls = None, None
        for g, l in guards(st.mem[G("loads")]):
            v = ex(SymV(destty, "assembled%d" % l))
            names = fields(oty)
            o = list(ex(v.p[0][0]).v)
            i = names.index("source")
            sty = dict(oty.variants[0][2])["source"]
            vty = sty.variants[0][2][0][1]
            ety = vty.gargs[0]
            ai = fields(ety).index("addr")
            lines = VecV(SymV(ety, "line%d.%d" % (l, j + 1)) for j in range(self.nl))
            o[i] = Agg((lines,))
            x = EnumV(v.d, {0: (Agg(o),), 1: v.p[1]})
            y = VecV(ex(e).v[ai] for e in lines.items)
            r = x if r is None else merge(g, x, r)
            ls = y if ls is None else merge(g, y, ls)
        st.mem[G("loaded")] = OR(st.mem[G("loaded")], ok_of(r))
        st.mem[G("newlines")] = ls
        return r, st

    # ------------------------------------------------------------ the connection
    def srv_new(self, st, args, destty, line, caller):
        return SymV(destty, "connection"), st

    def size(self, k):
        """The number of breakpoints request k has: the history's, else the largest"""
        m = re.search(r"(\d+)[!?]?$", self.hist[k]) if k < len(self.hist) else None
        return min(int(m.group(1)), self.nr) if m else self.nr

    def plant(self, v, ty, nr):
        """A request with a known number of breakpoints, each arbitrary."""
        if ty.k == "struct" and ty.path == "std::vec::Vec" and (ty.gargs[0].path or "").endswith("SourceBreakpoint"):
            return VecV(SymV(ty.gargs[0], "%s[%d]" % (v.name if v.__class__ is SymV else "bp", i)) for i in range(nr))
        if "SourceBreakpoint" not in self.contains(ty):
            return v
        e = ex(v)
        if ty.k == "struct":
            return Agg(self.plant(x, t, nr) for x, (_, t) in zip(e.v, ty.variants[0][2]))
        if ty.k == "enum":
            return EnumV(e.d, {i: tuple(self.plant(x, t, nr) for x, (_, t) in zip(e.p[i], ty.variants[i][2])) for i in e.p})
        return v

    def contains(self, ty, depth=0):
        memo = self.__dict__.setdefault("_contains", {})
        if ty.s in memo:
            return memo[ty.s]
        memo[ty.s] = ""
        r = ty.path or ""
        if depth < 8:
            for t in (ty.gargs or ()):
                r += " " + self.contains(t, depth + 1)
            if ty.k in ("struct", "enum") and (r.startswith("dap::requests") or r.startswith("std::option") or r.startswith("std::result")):
                for v in ty.variants:
                    for _, t in v[2]:
                        r += " " + self.contains(t, depth + 1)
        memo[ty.s] = r
        return r

    def request(self, destty, k):
        v = self.plant(SymV(destty, "request%d" % k), destty, self.size(k))
        oty = destty.gargs[0]
        rty = oty.gargs[0]
        names = fields(rty)
        cty = dict(rty.variants[0][2])["command"]
        req = ex(ex(v.p[0][0]).p[1][0])
        return v, AND(ok_of(v), some(ex(v.p[0][0]))), req.v[names.index("seq")], ex(req.v[names.index("command")]), cty

    def finish(self, st, line, caller, what):
        """Between two requests: what the previous one must have led to."""
        prev = st.mem[G("any")]
        self.bad("D01", st, AND(prev, st.mem[G("pending")]), "a request gets no response " + what, caller, line)
        ran = st.mem[G("run")]
        n = st.mem[G("stops")]
        self.bad("D02", st, AND(ran, count(n, 0)), "a run or step request leads to no stopped event " + what, caller, line)
        self.bad("D02", st, AND(ran, count(n, 2)), "a run or step request leads to more than one stopped event " + what, caller, line)
        self.bad("D02", st, AND(NOT(ran), NOT(st.mem[G("skip")]), NOT(count(n, 0))), "a stopped event is sent although nothing was run " + what, caller, line)

    def srv_poll_request(self, st, args, destty, line, caller):
        self.polls += 1
        self.finish(st, line, caller, "before the next one is read")
        out, keep, conds = None, F, F
        k = st.mem[G("poll")]
        last = len(self.hist)
        for g, l in guards(k):
            if l >= last or not feasible(AND(st.pc, g)):
                continue
            v, got, seq, cmd, cty = self.request(destty, l)
            self.cmdty = cty
            want = self.hist[l].rstrip("!?0123456789")
            if want == "*":
                c = NOT(AND(got, is_variant(cmd, cty, "Launch", "SetBreakpoints")))
            else:
                c = AND(got, is_variant(cmd, cty, want))
            keep = OR(keep, AND(g, c))
            new = (v, got, seq, cmd.d)
            out = new if out is None else tuple(merge(g, a, b) for a, b in zip(new, out))
            self.eetys = destty.gargs[1]
        st.pc = AND(st.pc, keep)
        if out is None or not feasible(st.pc):
            return None
        v, got, seq, cmd = out
        st.mem[G("poll")] = map1(lambda l: leaf(l + 1), k)
        st.mem[G("pending")] = got
        st.mem[G("any")] = T
        st.mem[G("seq")], st.mem[G("cmd")] = seq, cmd
        st.mem[G("run")], st.mem[G("skip")], st.mem[G("stops")], st.mem[G("ncyc")] = F, F, leaf(0), leaf(0)
        st.mem[G("loaded")] = F
        # the connection ends: no request, or nothing that could be answered
        err = ex(v).p[1][0]
        st.mem[G("down")] = OR(st.mem[G("down")], NOT(got))
        st.mem[G("unreadable")] = AND(NOT(ok_of(v)), is_variant(err, self.eetys, "ParseError"))
        st.mem[G("term0")] = st.mem[G("term")]
        # an accepted list of breakpoints, should this request be answered with success
        bi = index_of(self.cmdty, "SetBreakpoints")
        a = None
        for g, l in guards(k):
            if l >= last:
                continue
            _, _, _, c, cty = self.request(destty, l)
            aty = cty.variants[bi][2][0][1]
            arg = ex(c.p[bi][0])
            b = ex(arg.v[fields(aty).index("breakpoints")])
            li = fields(dict(aty.variants[0][2])["breakpoints"].gargs[0].gargs[0]).index("line")
            x = [ex(e).v[li] for e in ex(b.p[1][0]).items]
            x = VecV(x + [leaf(0)] * (self.nr - len(x)))
            y = some(b)
            a = (x, y) if a is None else (merge(g, x, a[0]), merge(g, y, a[1]))
        st.mem[G("asked")], st.mem[G("asks")] = a
        return v, st

    def srv_respond(self, st, args, destty, line, caller):
        self.responses += 1
        rty = self.rspty()
        names = fields(rty)
        r = ex(args[1])
        if r.__class__ is not Agg:
            raise HwError("a response is not understood")
        I = self.I
        seq = I.num(r.v[names.index("request_seq")])
        good = I.cond(r.v[names.index("success")])
        self.bad("D01", st, NOT(st.mem[G("pending")]), "a second response is sent for a request", caller, line)
        self.bad("D01", st, AND(st.mem[G("pending")], NOT(eqn(seq, I.num(st.mem[G("seq")])))), "a response carries another request's number", caller, line)
        st.mem[G("pending")] = F
        la = st.mem[G("launched")]
        for c in NEEDS:
            if index_of(self.cmdty, c) is not None:
                self.bad("D03", st, AND(AND(good, NOT(la)), self.cmd_is(st, c)), "%s succeeds although no program was launched" % c, caller, line, "%s/%s" % (self.handler.name, c))
        isl = self.cmd_is(st, "Launch")
        self.bad("D03", st, AND(AND(good, isl), NOT(st.mem[G("loaded")])), "Launch succeeds although no program was assembled", caller, line)
        done = AND(good, isl)
        # after a second launch the lines of earlier breakpoints mean another program: not judged until the next SetBreakpoints
        st.mem[G("judged")] = AND(st.mem[G("judged")], NOT(done))
        st.mem[G("launched")] = OR(la, done)
        st.mem[G("lines")] = merge(done, st.mem[G("newlines")], st.mem[G("lines")])
        st.mem[G("program")] = merge(done, st.mem[G("loads")], st.mem[G("program")])
        for k, b in (("pc", 64), ("cyc", 64)):
            st.mem[G(k)] = merge(done, inp("%s after launch" % k, b), st.mem[G(k)])
        st.mem[G("term")] = merge(done, var(("terminated at launch",)), st.mem[G("term")])
        run = AND(good, self.cmd_is(st, *RUNS))
        st.mem[G("run")] = run
        st.mem[G("skip")] = AND(good, self.cmd_is(st, *[c for c in OTHER_RUNS if index_of(self.cmdty, c) is not None]))
        st.mem[G("term0")] = st.mem[G("term")]
        sb = AND(good, self.cmd_is(st, "SetBreakpoints"))
        if feasible(AND(st.pc, sb)):
            self.breakpoint_response(st, sb, r, rty, line, caller)
            st.mem[G("kept")] = merge(sb, st.mem[G("asked")], st.mem[G("kept")])
            st.mem[G("have")] = merge(sb, st.mem[G("asks")], st.mem[G("have")])
            st.mem[G("judged")] = OR(st.mem[G("judged")], sb)
        io = SymV(destty, self.io_name(st, "respond", line))
        st.mem[G("down")] = OR(st.mem[G("down")], NOT(ok_of(io)))
        st.mem[G("ended")] = AND(good, self.cmd_is(st, *ENDS))
        # the history says which of its requests are answered with success (X) and which are refused (X!); X? leaves it open
        keep = F
        for g, l in guards(st.mem[G("poll")]):
            if l < 1 or l > len(self.hist):
                continue
            h = self.hist[l - 1]
            keep = OR(keep, AND(g, T if h[-1] in "*?" else NOT(good) if h[-1] == "!" else good))
        st.pc = AND(st.pc, keep)
        if not feasible(st.pc):
            return None
        return io, st

    def io_name(self, st, what, line):
        self.serial += 1
        return "%s %d" % (what, self.serial)

    def rspty(self):
        if not hasattr(self, "_rsp"):
            self._rsp = None
            for f in self.p.fns.values():
                for i in range(len(f.locals)):
                    t = f.lty(i)
                    if t.path == "dap::responses::Response" and t.k == "struct":
                        self._rsp = t
                        return t
            raise HwError("response type not found")
        return self._rsp

    def breakpoint_response(self, st, sb, r, rty, line, caller):
        body = ex(r.v[fields(rty).index("body")])
        bty = dict(rty.variants[0][2])["body"].gargs[0]
        b = ex(body.p[1][0]) if 1 in body.p else None
        i = index_of(bty, "SetBreakpoints")
        if b is None or b.__class__ is not EnumV or i not in b.p:
            self.bad("D04", st, sb, "SetBreakpoints is answered without breakpoints", caller, line)
            return
        rs = ex(b.p[i][0])
        lst = ex(rs.v[0]) if rs.__class__ is Agg else rs
        if lst.__class__ is not VecV:
            raise HwError("the reported breakpoints are not understood")
        ety = bty.variants[i][2][0][1].variants[0][2][0][1].gargs[0]
        vi, li = fields(ety).index("verified"), fields(ety).index("line")
        asked = ex(st.mem[G("asked")]).items
        for k, e in enumerate(lst.items):
            e = ex(e)
            if e.__class__ is not Agg:
                raise HwError("a reported breakpoint is not understood")
            ver = self.I.cond(e.v[vi])
            ln = ex(e.v[li])
            if ln.__class__ is not EnumV:
                raise HwError("a reported breakpoint's line is not understood")
            named = some(ln)
            own, _ = self.addr_of(st, self.I.num(ln.p[1][0])) if 1 in ln.p else (F, None)
            his = F
            if k < len(asked):
                his, _ = self.addr_of(st, self.I.num(asked[k]))
            has = OR(AND(named, own), AND(NOT(named), his))
            self.bad("D04", st, AND(sb, AND(ver, NOT(has))), "a breakpoint is reported verified although its line holds no address", caller, line)

    def srv_send_event(self, st, args, destty, line, caller):
        ev = ex(args[1])
        ety = self.evty()
        if ev.__class__ is not EnumV:
            raise HwError("an event is not understood")
        stop = is_variant(ev, ety, "Stopped")
        if feasible(AND(st.pc, stop)):
            self.stops += 1
            si = index_of(ety, "Stopped")
            bodyty = ety.variants[si][2][0][1]
            body = ex(ev.p[si][0])
            names = fields(bodyty)
            rt = dict(bodyty.variants[0][2])["reason"]
            reason = ex(body.v[names.index("reason")])
            isbp = is_variant(reason, rt, "Breakpoint") if reason.__class__ is EnumV else F
            on = AND(stop, AND(st.mem[G("run")], count(st.mem[G("stops")], 0)))
            ran = count(st.mem[G("ncyc")], 1)
            m = self.match(st)
            j = OR(st.mem[G("judged")], NOT(st.mem[G("have")]))
            self.bad("D04", st, AND(AND(on, isbp), AND(j, NOT(m))), "a stop is reported for a breakpoint although the program counter is at none of its lines", caller, line)
            mx = self.limit(st)
            lim = self.I.compare("Ge", st.mem[G("cyc")], mx, self.u64) if mx is not None else F
            if mx is None:
                self.I.unknown["no cycle limit"] = 1
            else:
                why = OR(st.mem[G("term")], OR(m, lim))
                c = AND(on, AND(self.cmd_is(st, "Continue"), j))
                self.bad("D02", st, AND(c, NOT(why)), "continuing stops without termination, breakpoint or cycle limit", caller, line)
            nx = AND(on, AND(self.cmd_is(st, "Next"), AND(NOT(ran), NOT(st.mem[G("term")]))))
            self.bad("D02", st, nx, "a step request stops without having run a cycle", caller, line)
            st.mem[G("stops")] = merge(stop, inc(st.mem[G("stops")]), st.mem[G("stops")])
        io = SymV(destty, self.io_name(st, "event", line))
        st.mem[G("down")] = OR(st.mem[G("down")], NOT(ok_of(io)))
        return io, st

    def evty(self):
        if not hasattr(self, "_ev"):
            for f in self.p.fns.values():
                for i in range(len(f.locals)):
                    t = f.lty(i)
                    if t.path == "dap::events::Event" and t.k == "enum":
                        self._ev = t
                        return t
            raise HwError("event type not found")
        return self._ev

    def limit(self, st):
        return self.I.num(self.mx) if self.mx is not None else None

    # ------------------------------------------------------------ requests
    def response(self, self_v, good, msg, body):
        rty = self.rspty()
        req = ex(self_v)
        vals = dict(request_seq=req.v[fields(self.reqty()).index("seq")], success=good)
        out = []
        for n, t in rty.variants[0][2]:
            if n in vals:
                out.append(vals[n])
            elif n == "body":
                out.append(EnumV(leaf(1), {0: (), 1: (body,)}) if body is not None else EnumV(leaf(0), {0: ()}))
            elif n == "message":
                out.append(EnumV(leaf(1), {0: (), 1: (SymV(t.gargs[0], "message"),)}) if msg else EnumV(leaf(0), {0: ()}))
            else:
                out.append(EnumV(leaf(0), {0: ()}))
        return Agg(out)

    def reqty(self):
        if not hasattr(self, "_req"):
            for f in self.p.fns.values():
                for i in range(len(f.locals)):
                    t = f.lty(i)
                    if t.path == "dap::requests::Request" and t.k == "struct":
                        self._req = t
                        return t
            raise HwError("request type not found")
        return self._req

    def req_success(self, st, args, destty):
        return self.response(args[0], T, False, args[1]), st

    def req_error(self, st, args, destty):
        return self.response(args[0], F, True, None), st

    def req_cancellation(self, st, args, destty):
        return self.response(args[0], F, True, None), st

    def req_ack(self, st, args, destty):
        req = ex(args[0])
        rqt = self.reqty()
        cty = dict(rqt.variants[0][2])["command"]
        c = ex(req.v[fields(rqt).index("command")])
        fine = is_variant(c, cty, *[a for a in ACK if index_of(cty, a) is not None])
        rty = self.rspty()
        bty = dict(rty.variants[0][2])["body"].gargs[0]
        body = EnumV(map1(lambda l: leaf(index_of(bty, vname(cty, l)) or 0), c.d), {})
        rsp = self.response(args[0], T, False, body)
        return EnumV(map1(lambda l: leaf(0) if l else leaf(1), map1(lambda l: l, fine)) if False else merge(fine, leaf(0), leaf(1)), {0: (rsp,), 1: (SymV(destty.gargs[1], "ack error"),)}), st

    # ------------------------------------------------------------ the processor
    def sim_call(self, st, m, args, destty, line, caller):
        if m in ("initiate_next_cycle", "step"):
            return self.cycle(st, args, line, caller)
        if m == "propagate_signals":
            return UNIT, st
        if m == "is_terminate":
            return st.mem[G("term")], st
        if m == "cycle_count":
            return st.mem[G("cyc")], st
        if m == "program_counter":
            return st.mem[G("pc")], st
        if m == "get_stage_info" and destty.path == "std::vec::Vec":
            out = []
            for k in range(2):
                ety = destty.gargs[0]
                e = list(ex(SymV(ety, "stage%d" % k)).v)
                for i, (n, t) in enumerate(ety.variants[0][2]):
                    if t.path == "std::vec::Vec":
                        e[i] = VecV((SymV(t.gargs[0], "stage%d.%s" % (k, n)),))
                out.append(Agg(e))
            return VecV(out), st
        if destty is None or destty.k == "tuple" and not destty.fields:
            return UNIT, st
        return SymV(destty, "sim." + m), st

    def cycle(self, st, args, line, caller):
        self.cycles += 1
        n = st.mem[G("ncyc")]
        run = st.mem[G("run")]
        again = AND(run, NOT(count(n, 0)))
        self.bad("D02", st, AND(run, st.mem[G("term")]), "another cycle runs although the processor has terminated", caller, line)
        self.bad("D02", st, AND(NOT(run), st.mem[G("term")]), "another cycle runs although the processor has terminated", caller, line)
        self.bad("D02", st, AND(again, self.cmd_is(st, "Next")), "a step request runs more than one cycle", caller, line)
        mx = self.limit(st)
        if mx is not None:
            self.bad("D02", st, AND(again, self.I.compare("Ge", st.mem[G("cyc")], mx, self.u64)), "another cycle runs although the cycle limit is reached", caller, line)
        j = st.mem[G("judged")]
        self.bad("D04", st, AND(again, AND(j, self.match(st))), "the run goes on although the program counter is at a breakpoint line", caller, line)
        self.bad("D02", st, AND(run, NOT(count(st.mem[G("stops")], 0))), "the program runs on after the stopped event", caller, line)
        # the processor that runs is the one of the last successful launch
        sim = ex(args[0])
        tgt = ex(self.I.unwrap(sim)) if sim.__class__ is not bdd.N else sim
        if tgt.__class__ is bdd.N:
            for g, l in guards(self.I.num(tgt)):
                mm = re.match(r"^sim(\d+)$", str(l.obj[1])) if l.__class__ is Ref and l.obj[0] == "sym" else None
                if mm:
                    self.bad("D03", st, AND(AND(run, g), NOT(count(st.mem[G("program")], int(mm.group(1))))), "the program that runs is not the one of the last successful launch", caller, line)
        st.pc = AND(st.pc, self.followed(st, n))
        if not feasible(st.pc):
            return None
        new = None
        for g, l in guards(st.mem[G("poll")]):
            x = (inp("pc%d" % l, 64), inp("cycles%d" % l, 64), var(("terminated", l)))
            new = x if new is None else tuple(merge(g, a, b) for a, b in zip(x, new))
        st.mem[G("pc")], st.mem[G("cyc")], st.mem[G("term")] = new
        st.mem[G("ncyc")] = inc(n)
        return UNIT, st

    def followed(self, st, n):
        """Only the first cycle of a run is followed; what holds when a further one begins has been checked (inductive step)."""
        return count(n, 0)

    # ------------------------------------------------------------ run
    def go(self):
        I, new, start = self.I, self.new, self.start
        self.handler = start
        st = State({}, T)
        ety = None
        zero = VecV(leaf(0) for _ in range(self.nr))
        for k, v in dict(poll=leaf(0), pending=F, any=F, seq=leaf(0), cmd=leaf(0), run=F, skip=F, stops=leaf(0), ncyc=leaf(0), launched=F, loaded=F, loads=leaf(0), program=leaf(0), term=F, term0=F, pc=leaf(0), cyc=leaf(0),
                         down=F, unreadable=F, ended=F, judged=F, have=F, kept=zero, asked=zero, asks=F, **self.extra).items():
            st.mem[G(k)] = v
        none = VecV(EnumV(leaf(0), {0: (), 1: (leaf(0),)}) for _ in range(self.nl))
        st.mem[G("lines")] = st.mem[G("newlines")] = none
        args = [SymV(new.lty(i), "arg%d" % i) for i in range(1, new.nargs + 1)]
        self.mx = None
        for i in range(1, new.nargs + 1):
            t = new.lty(i)
            if t.k == "struct" and t.variants and "max_cpu_cycle" in fields(t):
                self.mx = ex(args[i - 1]).v[fields(t).index("max_cpu_cycle")]
                self.u64 = dict(t.variants[0][2])["max_cpu_cycle"]
        r = I.run(new, args, st)
        if r is None:
            raise HwError("the server is never created")
        self.n0 = len(I.obs)
        self.r = I.run(start, [r[0]], r[1])
        if not self.polls:
            raise HwError("no request is read")
        if self.r is not None:
            st = self.r[1]
            end = AND(NOT(st.mem[G("down")]), NOT(st.mem[G("ended")]))
            f, l = start, start.line
            what = "the session ends"
            c = AND(st.pc, end)
            if feasible(c):
                self.found.append(("D01", start.name, "the session ends although the connection is up and the client did not disconnect", f.file, l, c))
            # what a session that ends by itself owes
            dying = AND(c, st.mem[G("run")])
            self.found.append(("D02", start.name, "the session ends instead of accepting requests after a run", f.file, l, dying)) if feasible(dying) else None
            d3 = AND(c, AND(NOT(st.mem[G("launched")]), self.cmd_is(st, *[n for n in NEEDS if index_of(self.cmdty, n) is not None], "Launch")))
            self.found.append(("D03", start.name, "the session ends after a request that needs a program before one was launched", f.file, l, d3)) if feasible(d3) else None
            up = NOT(st.mem[G("down")])
            self.bad("D01", st, AND(up, AND(st.mem[G("any")], st.mem[G("pending")])), "the session ends without a response to the last request", f, l)
            self.unreadable = AND(st.pc, st.mem[G("unreadable")])
        else:
            self.unreadable = F
        for o in I.obs[self.n0:]:
            if not feasible(o.cond):
                continue
            la, cmd, pend, run, ncyc = self.obsite[id(o)]
            n, fl, l = o.site()
            self.found.append(("D01", n, "the session may panic: " + o.kind, fl, l, o.cond))
            if feasible(AND(o.cond, run)):
                self.found.append(("D02", n, "the session may panic while running: " + o.kind, fl, l, AND(o.cond, run)))
            if cmd is not None:
                k = {index_of(self.cmdty, c) for c in NEEDS}
                d3 = AND(o.cond, AND(NOT(la), map1(lambda x: T if x in k else F, cmd)))
                if feasible(d3):
                    self.found.append(("D03", n, "the session may panic on a request that needs a program: " + o.kind, fl, l, d3))


# histories before the last request: (requests, breakpoint lists are used)
I1, L1 = ("Initialize",), ("Initialize", "Launch")
LAST = ("*", "Launch?", "SetBreakpoints?")
HISTORIES = [(("*",), 0), (("*", "*"), 0), (("*", "Launch?"), 0), (("*", "SetBreakpoints?"), 1)]
HISTORIES += [(I1 + ("Launch!", k), int("Set" in k)) for k in LAST] + [(I1 + (a + "!", "*"), 0) for a in NEEDS[:6]]
HISTORIES += [(L1 + (k,), int("Set" in k)) for k in LAST]
HISTORIES += [(L1 + ("SetBreakpoints", k), 1) for k in LAST] + [(L1 + ("SetBreakpoints!", k), 0) for k in LAST[:2]]
HISTORIES += [(L1 + (a, k), 0) for a in ("ConfigurationDone", "Continue", "Next", "Launch", "Launch!", "StackTrace", "Variables", "Scopes") for k in LAST[:2]]
HISTORIES += [(L1 + ("SetBreakpoints",) + a, 1) for a in (("Continue", "*"), ("Next", "*"), ("SetBreakpoints", "*"), ("SetBreakpoints0", "*"), ("SetBreakpoints1", "*"), ("SetBreakpoints!", "*"), ("Launch!", "*"), ("Launch", "*"), ("Continue", "Continue", "*"), ("Continue", "SetBreakpoints", "*"))]


def run_histories(prog, ck, pid):
    sizes = [(1, 2), (2, 2)] if ck.tier == "quick" else [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)]
    jobs = []
    for h, lists in HISTORIES:
        for nr, nl in sizes if lists else [(0, 2)]:

            def f(c, h=h, nr=nr, nl=nl):
                s = Session(prog, h, nr, nl)
                try:
                    s.go()
                except HwError as e:
                    c.notes.append("%s: %s" % (" ".join(h), e))
                    c.count("not_analysed")
                c.count("histories")
                c.count("request_sites", s.polls)
                c.count("response_sites", s.responses)
                c.count("stop_sites", s.stops)
                c.count("cycle_sites", s.cycles)
                c.count("obligations", len(s.I.obs))
                visited(s.I, c)
                for prop, construct, what, fl, l, cond in s.found:
                    if prop != pid:
                        continue
                    w = real(cond)
                    if w is not None:
                        c.fail(construct, what, fl, l, "requests: %s\ncase: %s" % (", ".join(h), show(w)))
                    else:
                        c.count("undecided")
                if pid == "D01" and feasible(getattr(s, "unreadable", F)):
                    c.count("unreadable")
                    c.fail("poll_request/ParseError", "a request that cannot be decoded (unknown command, malformed arguments) ends the session without a response", s.start.file, s.start.line)
            jobs.append(f)
    report.parallel(ck, jobs, limit=8, deadline=750)


def session_check(pid, rule):
    @guard
    def f(prog, ck):
        ck.rule(rule)
        run_histories(prog, ck, pid)
    return f


CHECKS = {
    "D01": session_check("D01", "abstract interpretation of a debug session: requests of arbitrary content after every listed history; one response with the request's number before the next request is read, no reachable panic, the session ends only with the connection or a disconnect request"),
    "D02": session_check("D02", "abstract interpretation of a debug session with an arbitrary processor: exactly one stopped event per accepted run or step request; a further cycle (inductive step) only if not terminated, below the limit and not single-stepping"),
    "D03": session_check("D03", "abstract interpretation of a debug session: success for a request that needs a program only after a launch that was answered with success, launch succeeds only after assembling, what runs is the program of the last successful launch"),
    "D04": session_check("D04", "abstract interpretation of a debug session with arbitrary source lines and breakpoints: verified only for lines with an address; a breakpoint stop exactly when the program counter after a cycle is the address of a line of the latest accepted request"),
}
