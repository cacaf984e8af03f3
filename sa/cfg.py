"""Control-flow, call-graph and local value-origin queries over the dumped MIR (no interpretation)."""


def term(f, b):
    return f.bb[b][1]


def stmts(f, b):
    return f.bb[b][0]


def succ(f, b):
    """Successor blocks on normal (non-unwinding) control flow."""
    t = f.bb[b][1]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "sw":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


def edges(f, b):
    """[(label, successor)]; the label of a switch edge is its value, or None for otherwise."""
    t = f.bb[b][1]
    if t[0] == "sw":
        return [(x[0], x[1]) for x in t[2]] + ([(None, t[3])] if t[3] is not None else [])
    return [("", s) for s in succ(f, b)]


def reach(f, start=0, cut_blocks=(), cut_edges=()):
    """Blocks reachable from start when cut blocks are not entered and cut edges (block, label) not taken."""
    cut_blocks, cut_edges = set(cut_blocks), set(cut_edges)
    seen, work = set(), [s for s in ([start] if isinstance(start, int) else start) if s not in cut_blocks]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        for l, s in edges(f, b):
            if (b, l) not in cut_edges and s not in cut_blocks and s not in seen:
                work.append(s)
    return seen


def returns(f):
    return [b for b in range(len(f.bb)) if f.bb[b][1][0] == "ret"]


def calls(f):
    """(block, key, path, args, destination place, target block, line)"""
    for b, (_, t) in enumerate(f.bb):
        if t[0] == "call":
            fn = t[1]
            if fn[0] == "fn":
                yield b, fn[1], fn[2], t[2], t[3], t[4], t[5]
            else:
                yield b, None, fn[0], t[2], t[3], t[4], t[5]


def fullname(prog, key, path):
    r = prog.refs.get(key)
    return r["name"] if r else path


def op_local(op):
    """Local an operand moves or copies, when it is a place."""
    return op[1][0] if op[0] in ("m", "c") else None


def op_ty(f, op):
    """Type of a whole-local operand."""
    if op[0] in ("m", "c") and not op[1][1]:
        return f.lty(op[1][0])
    if op[0] == "k":
        return f.crate.types[op[1][-1]] if isinstance(op[1][-1], int) and op[1][-1] < len(f.crate.types) else None
    return None


def const_fns(f, x, out):
    """Function items and closures mentioned in a statement or operand tree."""
    if isinstance(x, list):
        if len(x) >= 2 and x[0] == "closure" and isinstance(x[1], int):
            t = f.crate.types[x[1]]
            if t.fn:
                out.add(t.fn)
        if x and x[0] == "k":
            t = op_ty(f, x)
            if t is not None and t.k in ("fndef", "closure") and t.fn:
                out.add(t.fn)
        for y in x:
            const_fns(f, y, out)


def callees(prog, f):
    """Keys of functions f may call or hand on as values."""
    out = set()
    for b, (ss, t) in enumerate(f.bb):
        const_fns(f, ss, out)
        if t[0] == "call":
            if t[1][0] == "fn":
                out.add(t[1][1])
            const_fns(f, t[2], out)
        elif t[0] == "drop" and len(t) > 3 and isinstance(t[3], str):
            out.add(t[3])
    return out


def graph(prog):
    g = getattr(prog, "_cg", None)
    if g is None:
        vt = {}
        for c in prog.crates.values():
            for (a, d), ms in c.vtables.items():
                for i, m in enumerate(ms):
                    if m:
                        vt.setdefault((d, i), set()).add(m)
        g = prog._cg = {}
        for k, f in prog.fns.items():
            out = callees(prog, f)
            for c in list(out):
                r = prog.refs.get(c)
                if r and r["kind"].startswith("virtual"):
                    i = int(r["kind"].split(":")[1])
                    for (d, j), ms in vt.items():
                        if j == i:
                            out |= ms
            g[k] = out
    return g


def reachable(prog, roots, stop=lambda f: False):
    """Keys of all functions the roots may reach (bodies not entered where stop(f))."""
    g = graph(prog)
    seen, work = set(), list(roots)
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        f = prog.fns.get(k)
        if f is not None and not stop(f):
            work += g.get(k, ())
    return seen


def defs(f):
    """local -> [(block, index or 'term', rvalue or call terminator)] for whole-local assignments."""
    d = {}
    for b, (ss, t) in enumerate(f.bb):
        for i, s in enumerate(ss):
            if s[0] == "=" and not s[1][1]:
                d.setdefault(s[1][0], []).append((b, i, s[2]))
        if t[0] == "call" and not t[3][1]:
            d.setdefault(t[3][0], []).append((b, "term", t))
    return d


def place_locals(p, out):
    out.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == "i":
            out.add(e[1])


def locals_in(x, out):
    """Locals read by an rvalue or operand."""
    k = x[0]
    if k in ("m", "c"):
        place_locals(x[1], out)
    elif k in ("use", "un", "cast", "rep"):
        locals_in(x[2] if k == "un" or k == "cast" else x[1], out)
    elif k in ("ref", "addr"):
        place_locals(x[2], out)
    elif k in ("bin", "cbin"):
        locals_in(x[2], out)
        locals_in(x[3], out)
    elif k == "agg":
        for o in x[2]:
            locals_in(o, out)
    elif k in ("discr", "len"):
        place_locals(x[1], out)


def flows(f, start, through=lambda name: True, prog=None):
    """Locals that may hold a value derived from the start locals (assignments, and calls for which through(name))."""
    seen = set(start)
    ch = True
    while ch:
        ch = False
        for b, (ss, t) in enumerate(f.bb):
            for s in ss:
                if s[0] == "=" and s[1][0] not in seen:
                    u = set()
                    locals_in(s[2], u)
                    if u & seen:
                        seen.add(s[1][0])
                        ch = True
            if t[0] == "call" and t[3][0] not in seen:
                u = set()
                for a in t[2]:
                    locals_in(a, u)
                if u & seen and through(t[1][2] if t[1][0] == "fn" else t[1][0]):
                    seen.add(t[3][0])
                    ch = True
    return seen


def origins(f, local, through=lambda name: True):
    """Backward slice: (locals, call terminators' blocks) the value of a local may come from."""
    d = defs(f)
    seen, work, cs = set(), [local], set()
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for b, i, r in d.get(l, ()):
            u = set()
            if i == "term":
                cs.add(b)
                if through(r[1][2] if r[1][0] == "fn" else r[1][0]):
                    for a in r[2]:
                        locals_in(a, u)
            else:
                locals_in(r, u)
            work += u
    return seen, cs
