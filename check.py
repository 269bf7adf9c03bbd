#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo's current source."""
import importlib
import os
import resource
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    from sa.engine import AnalysisError
    from sa.lab import Lab
    from sa.prime import Watch
    from sa.report import Report, finish
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.environ.get("VERIF_REPO", "/repo")
    mod = importlib.import_module("sa.rules." + pid.lower())
    try:
        lab = Lab(root)
        rep = Report(pid, mod.RULE, lab)
        lab.watch = Watch(lab)
        mod.run(lab, rep, tier)
        again(mod, lab, rep, tier)
        rc = finish(rep, tier, seed, mod.EXPLAIN, getattr(mod, "ASSUME", COMMON))
    except AnalysisError as e:
        print("ERROR: %s: %s" % (pid, e))
        rc = 2
    return rc


def again(mod, lab, rep, tier):
    """The same questions after operations that left something behind."""
    w, lab.watch = lab.watch, None
    rep.notes.append("%d outcomes of operations compared with the state after import; %d kinds of change left behind" % (
        w.ops, len({k[0] for k in w.found})))
    sts = []
    with rep.quiet("states left behind"):
        sts = w.states()
    for n, st in enumerate(sts):
        if time.monotonic() - rep.t0m > 250 and n:
            rep.notes.append("further states left behind not analysed: out of time")
            break
        lab.base = st
        n0 = rep.obligations
        try:
            mod.run(lab, rep, tier)
        except Exception as e:      # noqa
            rep.undecided("after earlier operations: %s: %s" % (type(e).__name__, e))
        rep.notes.append("%d obligations in a state left by earlier operations" % (rep.obligations - n0))
        lab.base = None


COMMON = [
    "cryptography, ecdsa, cbor2, certvalidator and the Python runtime behave as documented",
    "the analysed program is the Python source under /repo/pycose; no monkey-patching from outside",
]

if __name__ == "__main__":
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(50000)
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        try:
            out.append(main())
        except BaseException:
            import traceback
            traceback.print_exc()
            out.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
