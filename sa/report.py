"""Verdict plumbing: violations, known findings, evidence files."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("Y86_EVIDENCE") or os.path.join(ROOT, "evidence")


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = []
        self.counts = {}
        self.rules = []
        self.assume = []
        self.analysed = set()
        self.notes = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def assumption(self, s):
        if s not in self.assume:
            self.assume.append(s)

    def fn(self, name, file=None):
        self.analysed.add(name if file is None else "%s (%s)" % (name, file))

    def fail(self, construct, msg, file="", line=0, detail=""):
        """A violation at a specific construct."""
        v = dict(construct=construct, message=msg, file=file, line=line, detail=detail)
        for o in self.viol:
            if o["construct"] == construct and o["message"] == msg:
                return
        self.viol.append(v)

    def finish(self):
        known = load_known().get(self.pid, [])
        left, kn = [], []
        for v in self.viol:
            for k in known:
                if k["construct"] == v["construct"] and (not k.get("message") or k["message"] in v["message"]):
                    kn.append((k, v))
                    break
            else:
                left.append(v)
        for d in sorted(set("%s: %s" % (v["construct"], v["message"]) for k, v in kn)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, d))
        os.makedirs(EVID, exist_ok=True)
        rc = 0
        outv = []
        if left:
            rp = os.path.join(EVID, "%s.replay.txt" % self.pid)
            with open(rp, "w") as f:
                for v in left:
                    f.write("%s: %s\n  at %s:%s\n" % (v["construct"], v["message"], v["file"], v["line"]))
                    if v["detail"]:
                        f.write("  " + v["detail"].replace("\n", "\n  ") + "\n")
            for v in left[:20]:
                print("  %s:%s: %s: %s" % (v["file"], v["line"], v["construct"], v["message"]))
                if v["detail"]:
                    print("    " + v["detail"].replace("\n", "\n    ")[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            outv = [dict(replay=rp, summary=("%s:%s: %s: %s" % (v["file"], v["line"], v["construct"], v["message"]))[:500]) for v in left]
            rc = 1
        cov = dict(self.counts)
        cov["functions_analysed"] = sorted(self.analysed)[:400]
        cov["functions"] = len(self.analysed)
        cov["rules"] = self.rules
        if self.notes:
            cov["notes"] = self.notes
        cov["explanation"] = "; ".join(self.rules) or "static analysis of the current source"
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2))
        if outv:
            ev["violations"] = outv
        tmp = os.path.join(EVID, ".%s.%d" % (self.pid, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(EVID, self.pid + ".json"))
        print("%s %s: %s (%.1fs)" % (self.pid, "FAIL" if rc else "ok", ", ".join("%s=%s" % kv for kv in sorted(self.counts.items())), time.time() - self.t0))
        return rc


def load_known():
    p = os.path.join(ROOT, "known-findings.jsonl")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("fixed:") or l.startswith("#"):
                continue
            d = json.loads(l)
            out.setdefault(d["property"], []).append(d)
    return out


STRICT = bool(os.environ.get("Y86_STRICT"))      # development: internal errors end the check


def relieve(running, least=3 << 30):
    """When memory runs low, give up the analysis process that holds the most of it."""
    import signal
    try:
        free = next(int(l.split()[1]) << 10 for l in open("/proc/meminfo") if l.startswith("MemAvailable"))
        if free >= least or len(running) < 2:
            return
        pid = max((int(open("/proc/%d/statm" % p).read().split()[1]), p) for p, _, _ in running.values())[1]
    except (OSError, StopIteration, ValueError):
        return
    os.kill(pid, signal.SIGKILL)


def parallel(ck, jobs, limit=64, deadline=800):
    """Run job(child check) for every job in its own forked process and merge what they found.

    A decision-diagram package keeps one global variable order; separate processes keep the
    analyses of separate processors from spoiling each other's. At most limit run at a time;
    what has not ended deadline seconds after the check began is given up and noted."""
    import pickle
    import select
    import signal
    sys.stdout.flush()
    todo = list(jobs)[::-1]
    total = len(todo)
    results = [None] * total
    running = {}
    nxt = 0
    lost = 0
    while todo or running:
        while todo and len(running) < limit:
            job = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                res = None
                try:
                    c = Check(ck.pid, ck.tier)
                    ret = job(c)
                    res = (c.viol, c.counts, c.rules, c.assume, c.analysed, c.notes, ret)
                except BaseException:
                    import traceback
                    if STRICT:
                        res = traceback.format_exc()
                    else:       # what was found before the analysis gave up stays found
                        c.notes.append("not analysed: " + traceback.format_exc().strip().split("\n")[-1][:200])
                        c.count("not_analysed")
                        res = (c.viol, c.counts, c.rules, c.assume, c.analysed, c.notes, None)
                try:
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(res))
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (pid, nxt, [])
            nxt += 1
        left = None if deadline is None else max(0.0, deadline - (time.time() - ck.t0))
        ready, _, _ = select.select(list(running), [], [], 2.0 if left is None else min(left, 2.0))
        if not ready and left != 0.0:
            relieve(running)
            continue
        if not ready:
            lost = len(running) + len(todo)
            for fd, (pid, k, bs) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                results[k] = ()
            todo, running = [], {}
            break
        for fd in ready:
            pid, k, bs = running[fd]
            b = os.read(fd, 1 << 20)
            if b:
                bs.append(b)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            b = b"".join(bs)
            results[k] = pickle.loads(b) if b else "analysis process ended without an answer"
            if not b and not STRICT:
                results[k] = ()
                ck.notes.append("not analysed: an analysis process ended early")
                ck.count("not_analysed")
    if lost:
        ck.notes.append("%d parts of the analysis were given up at the time limit" % lost)
        ck.count("not_analysed", lost)
    err = None
    rets = []
    for res in results:
        if res is None or res == ():
            continue
        if isinstance(res, str):
            err = err or res
            continue
        for v in res[0]:
            ck.fail(v["construct"], v["message"], v["file"], v["line"], v["detail"])
        for k, n in res[1].items():
            ck.count(k, n)
        for x in res[2]:
            ck.rule(x)
        for x in res[3]:
            ck.assumption(x)
        ck.analysed |= res[4]
        ck.notes += [x for x in res[5] if x not in ck.notes]
        rets.append(res[6])
    if err:
        raise RuntimeError(err)
    return rets
