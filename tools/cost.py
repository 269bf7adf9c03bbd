#!/usr/bin/env python3
"""Record the size of each quick check (from evidence/) in tools/cost.json."""
import glob, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(V + "/sa/rules/c*.py")):
    i = os.path.basename(f)[:-3]
    if not re.match(r"c\d+$", i):
        continue
    i = i.upper()
    t = time.time()
    r = subprocess.run([sys.executable, V + "/check.py", i], capture_output=True, text=True)
    m = re.search(r"(\d+) obligations, \d+ discharged, (\d+) undecided, (\d+) violations, (\d+) contexts", r.stdout)
    out[i] = {"obligations": int(m[1]), "undecided": int(m[2]), "contexts": int(m[4]), "seconds": round(time.time() - t)}
json.dump(out, open(V + "/tools/cost.json", "w"), indent=1)
