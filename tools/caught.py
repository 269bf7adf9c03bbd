#!/usr/bin/env python3
"""Run checks against the planted changes: caught.py [-a] [ID...]  (-a: every check, not only the property's)"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = [x for x in sys.argv[1:] if x != "-a"]
allc = sorted(re.sub(r"\.py$", "", x).upper() for x in os.listdir(V + "/sa/rules") if re.match(r"c\d+\.py$", x))


def one(i):
    tmp = tempfile.mkdtemp(prefix="caught")
    try:
        shutil.copytree("/repo/pycose", tmp + "/r/pycose", ignore=shutil.ignore_patterns("__pycache__"))
        p = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + tmp + "/r", V + "/seeded/%s/patch.diff" % i], cwd="/", capture_output=True, text=True)
        if p.returncode:
            return i, "patch: " + p.stderr[:200], []
        prop = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        out = []
        for c in (allc if "-a" in sys.argv else [prop]):
            r = subprocess.run([sys.executable, V + "/check.py", c], env=dict(os.environ, VERIF_REPO=tmp + "/r", VERIF_EVIDENCE=tmp + "/ev"), capture_output=True, text=True)
            out.append((c, r.returncode))
        return i, prop, out
    finally:
        shutil.rmtree(tmp)


with cf.ThreadPoolExecutor(7) as ex:
    for i, prop, out in ex.map(one, a or sorted(os.listdir(V + "/seeded"))):
        hit = [c for c, rc in out if rc == 1]
        err = ["%s=%d" % x for x in out if x[1] not in (0, 1)]
        print("%-28s %-5s %-7s %s %s" % (i, prop, "caught" if prop in hit else "MISSED", " ".join(hit), " ".join(err)), flush=True)
