"""D05: every address the debug server binds is a loopback address, by constant propagation to the bind calls."""
import re
import cfg
import values
from values import AltV
from hw import *
from chk_hw import visited, guard
from chk_tools import Tool
from models import sval

BIND = re.compile(r"^std::net::(Tcp|Udp)\w+::bind$|^std::os::unix::net::Unix\w+::bind$|^socket2::Socket::bind$|^std::net::(Tcp|Udp)\w+::bind::<")
LOCAL = re.compile(r"^unix|UnixListener|UnixDatagram")


class NotUnderstood(Exception):
    pass


def host_of(text):
    h = text.rsplit(":", 1)[0] if ":" in text and not text.startswith("[") else text[1:].split("]")[0] if text.startswith("[") else text
    return h


def loop_text(h):
    return h == "localhost" or h == "::1" or re.match(r"^127\.\d+\.\d+\.\d+$", h) is not None


class Judge:
    def __init__(self, I, st):
        self.I, self.st = I, st
        self.bad = []

    def fail(self, cond, what):
        if feasible(AND(self.st.pc, cond)):
            self.bad.append(what)

    def num(self, v, cond):
        """[(condition, number or None when it depends on run-time input)]"""
        v = ex(v)
        if v.__class__ is not bdd.N:
            raise NotUnderstood("address byte")
        out = []
        for g, l in guards(v):
            c = AND(cond, g)
            if feasible(AND(self.st.pc, c)):
                out.append((c, l if isinstance(l, int) else None))
        return out

    def octets(self, items, cond):
        n = len(items)
        if n == 4:
            for c, l in self.num(items[0], cond):
                if l != 127:
                    self.fail(c, "an address %s" % ("starting with %d" % l if l is not None else "not known before run time"))
            return
        want = [0] * (n - 1) + [1]
        for w, x in zip(want, items):
            for c, l in self.num(x, cond):
                if l != w:
                    self.fail(c, "an IPv6 address other than ::1")
                    return

    def addr(self, v, cond, depth=0):
        if depth > 12:
            raise NotUnderstood("address nesting")
        if v.__class__ is AltV:
            for g, x in v.cases:
                self.addr(x, AND(cond, g), depth + 1)
            return
        if v.__class__ is SymV:
            t = v.ty
            if t.path in ("std::string::String",) or t.k == "str" or (t.path or "").startswith("std::net::"):
                if "#" in v.name:
                    raise NotUnderstood("an address computed by %s" % v.name)
                self.fail(cond, "an address not known before run time (%s)" % v.name)
                return
        v = ex(v)
        if not feasible(AND(self.st.pc, cond)):
            return
        c = v.__class__
        if c is EnumV:
            for g, k in guards(v.d):
                if not feasible(AND(self.st.pc, AND(cond, g))):
                    continue
                for x in v.p.get(k, ())[:1]:
                    self.addr(x, AND(cond, g), depth + 1)
            return
        if c in (Agg, VecV):
            items = [x for x in (v.v if c is Agg else v.items)]
            if not items:
                return
            low = [ex(x) for x in items]
            if len(items) in (4, 8, 16) and all(x.__class__ is bdd.N and all(isinstance(l, int) or isinstance(l, Opq) or l.__class__ is not Ref and l.__class__ is not StrC for _, l in guards(x)) for x in low):
                self.octets(items, cond)
                return
            if c is VecV or self.same(low):
                for x in items:
                    self.addr(x, cond, depth + 1)
                return
            self.addr(items[0], cond, depth + 1)
            return
        if c is bdd.N:
            for g, l in guards(v):
                cc = AND(cond, g)
                if not feasible(AND(self.st.pc, cc)):
                    continue
                if l.__class__ is StrC:
                    if not loop_text(host_of(l.s)):
                        self.fail(cc, "the address %r" % l.s)
                elif l.__class__ is Ref:
                    v0 = self.I.load_obj(self.st, l.obj)
                    for h, x in (v0.cases if v0.__class__ is AltV else ((T, v0),)):
                        h = AND(cc, h)
                        if feasible(AND(self.st.pc, h)):
                            self.addr(self.I.navget(x, l.path, AND(self.st.pc, h)) if l.path else x, h, depth + 1)
                elif isinstance(l, Opq) and l in self.texts:
                    self.text(self.texts[l], cc, depth + 1)
                elif "arg" in repr(l) and "#" not in repr(l):
                    self.fail(cc, "an address not known before run time (%s)" % repr(l)[:80])
                else:
                    raise NotUnderstood("an address %s" % repr(l)[:80])
            return
        raise NotUnderstood("an address of kind %s" % c.__name__)

    def same(self, low):
        """elements of an array of addresses rather than the parts of one"""
        def kind(x):
            return "enum" if x.__class__ is EnumV else "agg" if x.__class__ is Agg else "n"
        ks = {kind(x) for x in low}
        return len(low) >= 1 and ks == {"enum"} or len(low) >= 1 and ks == {"agg"}

    def text(self, t, cond, depth):
        bs, args = t
        if not bs:
            raise NotUnderstood("a formatted address")
        if 0 < bs[0] < 0x80:
            s = bytes(bs[1:1 + bs[0]]).decode("utf8", "replace")
            if re.match(r"^(127\.\d+\.\d+\.\d+|localhost|\[::1\])(:|$)", s):
                return
            self.fail(cond, "an address starting with %r" % s)
            return
        if bs[0] >= 0xc0 and args is not None and args:
            self.addr(args[0], cond, depth + 1)
            return
        raise NotUnderstood("a formatted address")


@guard
def check_d05(prog, ck):
    ck.rule("constant propagation from the debugger's main, arguments arbitrary: the value reaching every bind call is on every path a loopback address (127.0.0.0/8, ::1 or localhost)")
    mains = [f for f in prog.fns.values() if f.name == "ydb::main"]
    if not mains:
        raise HwError("the debugger's main is not found")
    main = mains[0]
    binds = {k for k, r in prog.refs.items() if BIND.match(r["path"])}
    g = cfg.graph(prog)
    sites = [(f, b) for f in prog.fns.values() for b in g.get(f.key, ()) if b in binds and f.file.startswith(("sim/", "debugger/", "binutils/", "assembler/"))]
    ck.count("bind_call_sites", len(sites))
    if not sites:
        raise HwError("no bind call is found")
    for f, _ in sites:
        ck.fn(f.name, f.file)
    values.ALTS[0] = True
    # the files that hold the call sites are entered in full: helpers there may compute the address
    files = {f.file for f, _ in sites}
    inside = [f.key for f in prog.fns.values() if f.file in files and not re.search(r" as (std::fmt|std::clone|.*\bclap)::|DebugServer", f.name)]
    t = Tool(prog, main, binds, [], inside)
    I = t.I
    texts, pend = {}, {}
    seen = [0]

    def fmt_new(st, key, args, destty, line, caller):
        if len(args) < 1:
            return NotImplemented
        if key.endswith("from_str") or "from_str" in prog.refs[key]["name"]:
            return args[0], st
        tv = ex(I.deref(st, args[0]))
        bs = []
        if tv.__class__ not in (Agg, VecV):
            return NotImplemented
        for x in (tv.v if tv.__class__ is Agg else tv.items):
            x = ex(x)
            if x.__class__ is not bdd.N or x.v is not None or not isinstance(x.val, int):
                return NotImplemented
            bs.append(x.val)
        av = None
        if len(args) > 1:
            a = ex(I.deref(st, args[1]))
            if a.__class__ in (Agg, VecV):
                av = list(a.v if a.__class__ is Agg else a.items)
        o = mkopq("text", fresh("f"))
        texts[o] = (bs, av)
        return leaf(o), st

    def is_fmt(n, ref):
        return re.match(r"^(std|core)::fmt::(rt::)?Arguments(::<'a>)?::(new|from_str)\b", ref["path"]) is not None

    t.on(is_fmt, fmt_new)
    # a displayed argument stands for its value; turning Arguments into a String keeps them
    t.on(lambda n, r: re.match(r"^(std|core)::fmt::rt::Argument(::<'_>)?::new_\w+", r["path"]) is not None, lambda st, key, args, d, l, c: (Agg((I.deref(st, args[0]),)), st))
    t.on(lambda n, r: r["path"] in ("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner", "alloc::fmt::format::format_inner"), lambda st, key, args, d, l, c: (args[0], st))
    t.on(lambda n, r: r["path"] in ("std::string::ToString::to_string", "std::borrow::ToOwned::to_owned", "std::hint::must_use", "core::hint::must_use") and True, keep)

    def parse(st, key, args, destty, line, caller):
        """text.parse::<IpAddr>() and friends: the text stands for the address it spells"""
        if destty is None or destty.path != "std::result::Result" or not (destty.gargs[0].path or "").startswith("std::net::"):
            return NotImplemented
        return EnumV(var((fresh("parsed"),)) if False else merge(var(("parses", fresh("p"))), leaf(0), leaf(1)), {0: (args[0],), 1: (SymV(destty.gargs[1], fresh("e")),)}), st
    t.on(lambda n, r: re.search(r"str>?::parse|FromStr", r["path"]) is not None and "net::" in r["name"], parse)

    def bind(st, key, args, destty, line, caller):
        seen[0] += 1
        j = Judge(I, st)
        j.texts = texts
        where = caller or main
        try:
            for a in args[-1:]:
                j.addr(a, T)
        except NotUnderstood as e:
            ck.notes.append("%s:%s: %s is not understood" % (where.file, line, e))
            ck.count("not_analysed")
        for w in j.bad[:1]:
            ck.fail(where.name, "the debug server binds %s" % w, where.file, line)
        return SymV(destty, "socket"), st
    t.on(lambda n, r: BIND.match(r["path"]) is not None and not LOCAL.search(r["path"]), bind)
    t.run()
    visited(I, ck)
    ck.count("binds_evaluated", seen[0])
    if not seen[0]:
        raise HwError("no bind call is reached from main")


def keep(st, key, args, destty, line, caller):
    return NotImplemented


CHECKS = {"D05": check_d05}
