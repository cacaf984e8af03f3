#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decide one property on /repo's current source."""
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sa"))
import threading
threading.stack_size(512 * 1024 * 1024)

MODULES = ["chk_isa", "chk_hw", "chk_pipe", "chk_units", "chk_frame", "chk_tools", "chk_asm", "chk_load", "chk_dbg", "chk_show", "chk_net"]


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import dump
    import report
    import importlib
    ck = report.Check(pid, tier)
    f = None
    for m in MODULES:
        mod = importlib.import_module(m)
        if pid in mod.CHECKS:
            f = mod.CHECKS[pid]
    if f is None:
        print("no check for", pid)
        return 2
    prog = dump.load()
    try:
        f(prog, ck)
    except Exception:
        if report.STRICT:
            raise
        # a code shape the analysis was not built for: what was found stays found, the rest is reported as not analysed
        m = traceback.format_exc().strip().split("\n")
        ck.notes.append("analysis incomplete: " + m[-1][:200])
        ck.count("not_analysed")
        print("note: analysis incomplete:", m[-1][:200])
    return ck.finish()


rc = [2]


def run():
    try:
        rc[0] = main()
    except BaseException:
        traceback.print_exc()
        rc[0] = 3


if __name__ == "__main__":
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
