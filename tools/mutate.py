#!/usr/bin/env python3
"""Try textual mutants of /repo/pycose against checks.

mutate.py MUTANTS.py [CHECK...] ; MUTANTS.py defines M = [(name, file, old, new[, expected checks])], applied to a
scratch copy under /tmp.  Prints which checks report a violation.  `B` (same format) are behaviour preserving edits."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(name, edits, checks, exp, benign):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/pycose", d + "/repo/pycose", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = d + "/repo/pycose/" + f
            s = open(p).read()
            if old not in s:
                return name, "NOT APPLICABLE: " + old[:60], {}
            open(p, "w").write(s.replace(old, new, 1))
            compile(open(p).read(), p, "exec")
        out = {}
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d + "/ev")
        for c in checks:
            r = subprocess.run([sys.executable, H + "/check.py", c], env=env, capture_output=True, text=True, timeout=900)
            out[c] = (r.returncode, r.stdout)
        return name, None, out
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    checks = sys.argv[2:]
    allc = sorted(re.sub(r"\.py$", "", x).upper() for x in os.listdir(H + "/sa/rules") if re.match(r"c\d+\.py$", x))
    jobs = []
    for kind in ("M", "B"):
        for m in ns.get(kind, []):
            name, edits = m[0], (m[1] if isinstance(m[1], list) else [tuple(m[1:4])])
            exp = m[2] if isinstance(m[1], list) and len(m) > 2 else (m[4] if len(m) > 4 else None)
            cs = checks or ([exp] if isinstance(exp, str) and kind == "M" else allc)
            jobs.append((name, edits, cs, exp, kind == "B"))
    with cf.ThreadPoolExecutor(7) as ex:
        for name, err, out in ex.map(lambda j: run(*j), jobs):
            j = [x for x in jobs if x[0] == name][0]
            if err:
                print("%-40s %s" % (name, err))
                continue
            hits = [c for c, (rc, o) in out.items() if rc == 1]
            errs = ["%s=%d" % (c, rc) for c, (rc, o) in out.items() if rc not in (0, 1)]
            und = ["%s:%s" % (c, re.search(r"(\d+) undecided", o).group(1)) for c, (rc, o) in out.items()
                   if re.search(r"(\d+) undecided", o) and re.search(r"(\d+) undecided", o).group(1) != "0"]
            if j[4]:
                v = "quiet" if not hits else "FALSE ALARM"
            else:
                v = "caught" if hits and (not isinstance(j[3], str) or j[3] in hits) else "MISSED"
            print("%-40s %-12s %s %s und=%s" % (name, v, " ".join(hits), " ".join(errs), " ".join(und)))
            if os.environ.get("MUT_V") and (hits or errs):
                for c, (rc, o) in out.items():
                    if rc:
                        print(o[:1500])


main()
