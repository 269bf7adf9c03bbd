#!/usr/bin/env python3
"""Plant bugs: plant.py DEFS.py [ID...]  -- confirms each and writes /verif/seeded/<id>/.

DEFS.py defines S = {id: dict(property=, edits=[(file, old, new)...], demo=source, needs=, breaks=)}."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
g = {}
exec(open(sys.argv[1]).read(), g)
BASE = "90ea517"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '#!/bin/sh\n# run with cwd = repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests(d):
    out = os.path.join(d, "..", "junit.xml")
    env = dict(os.environ, PYTHONPATH="/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PATH="/opt/venv/bin:/usr/bin:/bin")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-ra", "-o", "addopts=", "-p", "no:cacheprovider", "-p", "stable_ids",
        "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + out, "tests"], d, env=env)
    res = os.path.join(d, "..", "res.json")
    sh(["/usr/bin/python3", "/opt/vp/results.py", res, "junit:" + out], d)
    r = json.load(open(res))
    p = r.get("passed", r.get("pass"))
    return stable - set(p)


def plant(i, s):
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        d = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", "/repo", d], "/tmp")
        for f, old, new in s["edits"]:
            p = os.path.join(d, "pycose", f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit of %s: %d matches" % (f, t.count(old))
            t0 = t
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        # only lines of the original repository may be changed
        for f in sorted({f for f, _, _ in s["edits"]}):
            blame = sh(["git", "blame", "-s", "HEAD", "--", "pycose/" + f], d).stdout.splitlines()
            ch = [l for l in sh(["git", "diff", "-U0", "--", "pycose/" + f], d).stdout.splitlines() if l.startswith("@@")]
            orig = 0
            for l in ch:
                a = l.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for k in range(st, st + n):
                    if not blame[k - 1].startswith("^" + BASE[:7]):
                        return "changes a line of a fix: %s" % blame[k - 1]
                    orig += 1
            if not orig:
                return "removes no original line in %s" % f
        out = os.path.join(V, "seeded", i)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"])
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        sh(["git", "stash"], d)
        a = sh(["sh", os.path.join(out, "demo.sh")], d, timeout=300)
        sh(["git", "stash", "pop"], d)
        b = sh(["sh", os.path.join(out, "demo.sh")], d, timeout=300)
        miss = tests(d)
        if a.returncode or not b.returncode or miss:
            shutil.rmtree(out)
            return "unpatched %d, patched %d, tests lost %s\n%s\n%s" % (a.returncode, b.returncode, sorted(miss)[:5],
                                                                       a.stderr[-600:], b.stderr[-300:])
        c = sh(["python3", "check.py", s["property"]], V, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=tmp))
        return "planted; %s: rc=%d %s | demo: %s" % (s["property"], c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED",
                                                   (b.stderr.strip().splitlines() or ["?"])[-1][:100])
    finally:
        shutil.rmtree(tmp)


for i, s in g["S"].items():
    if len(sys.argv) > 2 and i not in sys.argv[2:]:
        continue
    print("%-28s %s" % (i, plant(i, s)), flush=True)
