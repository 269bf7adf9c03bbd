"""Obligation book-keeping, known findings, evidence."""
import contextlib
import json
import os
import time
import traceback

from . import terms as tm
from .terms import *        # noqa
from .bdd import TRUE, FALSE, Budget

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, rule, lab):
        self.pid = pid
        self.rule = rule
        self.lab = lab
        self.t0 = time.time()
        self.t0m = time.monotonic()
        self.case_s, self.total_s = 30, 600
        self.obligations = 0
        self.discharged = 0
        self.nontrivial = 0
        self.viol = {}
        self.und = []
        self.samples = []
        self.notes = []
        self.floors = []
        self.errors = 0

    @contextlib.contextmanager
    def case(self, what):
        """One context; a question the engine cannot answer is undecided, not an alarm."""
        I = self.lab.I
        if self.lab.watch is not None:
            self.lab.watch.tag = what.split("[")[0]
        depth = [len(x) for x in (I.frames, I.handlers, I.listeners)]
        mute = I.mute
        now = time.monotonic()
        # one question may not eat the time of all others
        B.start(min(now + self.case_s, max(self.t0m + self.total_s, now + 0.2)), 400000)
        failed = False
        n0 = len(B.var)
        try:
            yield
            self.maxnodes = max(getattr(self, "maxnodes", 0), len(B.var) - n0)
        except (Exception, Budget) as e:     # noqa
            failed = isinstance(e, (Budget, MemoryError, RecursionError))
            B.stop(failed)
            for x, n in zip((I.frames, I.handlers, I.listeners), depth):
                del x[n:]
            I.mute = mute
            self.errors += 1
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided("%s: not analysed: %s: %s (%s:%s)" % (what, type(e).__name__, str(e)[:200],
                                                                 os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        finally:
            B.stop(failed)

    @contextlib.contextmanager
    def quiet(self, what):
        """A preparation that may fail."""
        u, o, n = list(self.und), self.obligations, self.errors
        with self.case(what):
            yield
        self.und, self.obligations, self.errors = u, o, n

    # one obligation
    def ok(self, what, sample=None):
        self.obligations += 1
        self.discharged += 1
        if len(self.samples) < 12 and (sample or self.obligations % 17 == 1):
            self.samples.append(sample or what)

    def bad(self, key, what, where="", detail=""):
        """key: rule-qualified name of the construct, independent of line numbers."""
        self.obligations += 1
        if key not in self.viol:
            self.viol[key] = {"key": key, "what": what, "where": where, "detail": detail, "count": 0}
        self.viol[key]["count"] += 1

    def undecided(self, what):
        self.obligations += 1
        if len(self.und) < 200:
            self.und.append(what)

    def check(self, cond, key, what, where="", detail=""):
        if cond is None:
            self.undecided(what)
        elif cond:
            self.ok(what)
        else:
            self.bad(key, what, where, detail)
        return cond

    def floor(self, name, got, want):
        """A structural expectation; if not met the analysis did not see the code it is about."""
        self.floors.append((name, got, want))

    def same(self, got, exp, pc, key, what, where=""):
        """got == exp under pc, up to imprecision."""
        if not sat(pc):
            return None
        ds = diff(got, exp, pc)
        if not ds:
            self.ok(what)
            return True
        ds = [d for d in ds if sat(tm.congr(d[0]))]
        if not ds:
            self.ok(what)
            return True
        real = [d for d in ds if not (has_top(d[2]) or has_top(d[3]) or imprecise(d[0]))]
        if not real:
            self.undecided("%s: %s vs %s" % (what, show(ds[0][2])[:160], show(ds[0][3])[:160]))
            return None
        g, path, a, b = real[0]
        self.bad(key, what, where, "at %s: code has %s, specification says %s, when %s" % (
            path or "value", show(a)[:300], show(b)[:300], showg(g)[:400]))
        return False


def imprecise(g):
    """Does a guard rest on a value the analysis lost?"""
    if len(B.support(g)) > 160:      # not decided by sat()
        return True
    for v in B.support(g):
        a = tm.ATOMS[v]
        for x in a[1:]:
            if isinstance(x, Term) and has_top(x):
                return True
    return False


def load_known():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known: "):
                    # known: property=C14 key=<key> :: <what>
                    head, _, what = line[7:].partition(" :: ")
                    f = dict(x.split("=", 1) for x in head.split(" ", 1))
                    out[(f["property"], f["key"])] = what
    return out


def finish(rep, tier, seed, explain, assumptions=()):
    known = load_known()
    news, olds = [], []
    for k, v in rep.viol.items():
        (olds if (rep.pid, k) in known else news).append(v)
    lab = rep.lab
    cov = {
        "explanation": explain,
        "rule": rep.rule,
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "undecided_count": len(rep.und),
        "contexts_not_analysed": rep.errors,
        "undecided": rep.und[:10],
        "contexts_analysed": lab.stats["contexts"],
        "functions_analysed": len(lab.I.stat_funcs),
        "call_sites_analysed": len(lab.I.stat_calls),
        "library_call_sites_seen": len(lab.stats["sites"]),
        "guard_atoms": len(tm.ATOMS),
        "floors": [{"what": n, "seen": g, "required": w} for n, g, w in rep.floors],
        "samples": [str(s)[:400] for s in rep.samples[:12]] or ["none"],
        "known_findings": [v["key"] for v in olds],
    }
    if rep.notes:
        cov["notes"] = rep.notes
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "wall_s": round(time.time() - rep.t0, 3),
        "assumptions": list(assumptions),
        "violations": [{"id": v["key"], "what": v["what"], "where": v["where"], "detail": v["detail"],
                        "occurrences": v["count"]} for v in news],
    }
    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    path = os.path.join(edir, rep.pid + ".json")
    with open(path, "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    for v in olds:
        print("KNOWN-FINDING: property=%s %s [%s]" % (rep.pid, known[(rep.pid, v["key"])], v["key"]))
    for v in news:
        print("%s: %s\n    at %s\n    %s" % (v["key"], v["what"], v["where"], v["detail"]))
    if os.environ.get("SA_UND"):
        print("   largest question: %d guard nodes; %d in all" % (getattr(rep, "maxnodes", 0), len(B.var)))
        for u in rep.und[:40]:
            print("   undecided: " + u)
    print("%s: %d obligations, %d discharged, %d undecided, %d violations, %d contexts, %.1fs" % (
        rep.pid, rep.obligations, rep.discharged, len(rep.und), len(rep.viol), lab.stats["contexts"],
        time.time() - rep.t0))
    if news:
        print("VIOLATION property=%s replay=%s" % (rep.pid, os.path.relpath(path, HERE)))
        return 1
    bad = [f for f in rep.floors if f[1] < f[2]]
    if bad:
        print("ERROR: the analysis no longer sees the code it decides: %s" % bad)
        return 2
    return 0
