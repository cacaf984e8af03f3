"""Builds the MIR dump of /repo's current tree (see ../driver) and loads it."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("Y86_REPO", "/repo")
CACHE = os.environ.get("Y86_CACHE", os.path.join(VERIF, ".cache"))
CRATES = ["binutils.lib", "y86_sim.lib", "y86_dbg.lib", "yas.bin", "yis.bin", "ysim.bin", "ydb.bin"]


def source_files():
    out = []
    for dp, dn, fn in os.walk(REPO):
        dn[:] = sorted(d for d in dn if d not in ("target", ".git", "node_modules"))
        for f in sorted(fn):
            if f.endswith((".rs", ".toml", ".pest", ".lock")):
                out.append(os.path.join(dp, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    with open(os.path.join(VERIF, "driver", "src", "main.rs"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise RuntimeError("command failed: " + " ".join(cmd))
    return p.stdout


def build_driver():
    tgt = os.path.join(CACHE, "driver")
    exe = os.path.join(tgt, "debug", "mirdump")
    stamp = os.path.join(tgt, "stamp")
    h = hashlib.sha256(open(os.path.join(VERIF, "driver", "src", "main.rs"), "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    _run(["cargo", "+nightly", "build", "--offline", "--target-dir", tgt], cwd=os.path.join(VERIF, "driver"))
    open(stamp, "w").write(h)
    return exe


def ensure_dump():
    """Directory with one JSON file per crate for the current source tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        d = os.path.join(CACHE, "dump", key)
        if os.path.exists(os.path.join(d, "done")):
            return d
        exe = build_driver()
        base = os.path.join(CACHE, "dump")
        if os.path.isdir(base):
            olds = sorted(os.listdir(base), key=lambda x: os.path.getmtime(os.path.join(base, x)))
            for o in olds[:-3]:
                shutil.rmtree(os.path.join(base, o), ignore_errors=True)
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(CACHE, "tgt")
        for sub in ("y86-sim", "y86-dbg", "binutils", "sim_macro"):
            shutil.rmtree(os.path.join(tgt, "debug", "build", sub), ignore_errors=True)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("y86-sim", "y86-dbg", "binutils", "sim_macro", "sim-macro")):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        env = dict(os.environ)
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + env.get("LD_LIBRARY_PATH", "")
        env["Y86_DUMP_DIR"] = tmp
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env.pop("RUSTFLAGS", None)
        _run(["cargo", "+nightly", "check", "--workspace", "--offline", "--locked", "--target-dir", tgt], env=env, cwd=REPO)
        missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".json"))]
        if missing:
            raise RuntimeError("no MIR dump for " + ", ".join(missing))
        open(os.path.join(tmp, "done"), "w").write(str(time.time()))
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return d


class Ty:
    __slots__ = ("s", "k", "bits", "e", "n", "mut", "path", "fn", "once", "f", "ga", "v", "box", "trait", "_crate", "_e", "_f", "_ga", "_v", "id")

    def __repr__(self):
        return "Ty(%s)" % self.s

    @property
    def elem(self):
        if self._e is None:
            self._e = self._crate.types[self.e]
        return self._e

    @property
    def fields(self):
        """tuple/closure field types"""
        if self._f is None:
            self._f = [self._crate.types[i] for i in (self.f or [])]
        return self._f

    @property
    def gargs(self):
        if self._ga is None:
            self._ga = [self._crate.types[i] for i in (self.ga or [])]
        return self._ga

    @property
    def variants(self):
        """[(name, discriminant, [(field, Ty)])]"""
        if self._v is None:
            self._v = [(v["name"], v["d"], [(f[0], self._crate.types[f[1]]) for f in v["f"]]) for v in (self.v or [])]
        return self._v

    def field_index(self, name, variant=0):
        for i, (n, _) in enumerate(self.variants[variant][2]):
            if n == name:
                return i
        raise KeyError("%s has no field %s" % (self.s, name))


class Fn:
    __slots__ = ("key", "crate", "file", "line", "nargs", "spread", "locals", "bb", "name", "path", "kind", "_loops", "_rpo", "_ltys")

    def lty(self, i):
        return self.crate.types[self.locals[i][0]]

    def lname(self, i):
        l = self.locals[i]
        return l[1] if len(l) > 1 else None

    def __repr__(self):
        return "Fn(%s)" % self.name


class Crate:
    def __init__(self, prog, name, d):
        self.prog, self.name = prog, name
        self.types = []
        for i, t in enumerate(d["types"]):
            y = Ty()
            y.s, y.k, y.bits = t["s"], t["k"], t.get("bits")
            y.e, y.n, y.mut = t.get("e"), t.get("n"), t.get("mut")
            y.path, y.fn, y.once, y.f = t.get("path"), t.get("fn"), t.get("once"), t.get("f")
            y.ga, y.v, y.box, y.trait = t.get("ga"), t.get("v"), t.get("box"), t.get("trait")
            y._crate = self
            y._e = y._f = y._ga = y._v = None
            y.id = i
            self.types.append(y)
        self.refs = d["refs"]
        self.roots = d["roots"]
        self.vtables = {}
        for fr, dt, ms in d["vtables"]:
            self.vtables[(self.types[fr].s, self.types[dt].s)] = ms
        self.iters = {}
        for t, n, i in d["iters"]:
            self.iters[self.types[t].s] = (n, i)


class Prog:
    def __init__(self, only=None):
        self.dir = ensure_dump()
        self.fns = {}
        self.refs = {}
        self.crates = {}
        self.closure_fns = set()
        for c in (only or CRATES):
            d = json.load(open(os.path.join(self.dir, c + ".json")))
            cr = Crate(self, c, d)
            self.crates[c] = cr
            for k, r in d["refs"].items():
                self.refs.setdefault(k, r)
            for k, f in d["fns"].items():
                if k in self.fns:
                    continue
                o = Fn()
                o.key, o.crate, o.file, o.line = k, cr, f["file"], f["line"]
                o.nargs, o.spread, o.locals, o.bb = f["nargs"], f["spread"], f["locals"], f["bb"]
                r = d["refs"][k]
                o.name, o.path, o.kind = r["name"], r["path"], r["kind"]
                o._loops = o._rpo = o._ltys = None
                self.fns[k] = o
            for t in cr.types:
                if t.k == "closure" and t.fn:
                    self.closure_fns.add(t.fn)

    def find(self, name):
        r = [f for f in self.fns.values() if f.name == name]
        if len(r) != 1:
            raise KeyError("%d functions named %s" % (len(r), name))
        return r[0]

    def finds(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def type_named(self, path):
        for c in self.crates.values():
            for t in c.types:
                if t.path == path and t.k in ("struct", "enum", "union"):
                    return t
        raise KeyError(path)


def load(only=None):
    return Prog(only)


if __name__ == "__main__":
    t = time.time()
    print(ensure_dump())
    p = load()
    print(len(p.fns), "functions", "%.1fs" % (time.time() - t))
