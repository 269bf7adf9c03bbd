#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (only properties whose rule exists)."""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import props  # noqa
R = os.path.dirname(H)
done = [x for x in props.P if os.path.exists(os.path.join(R, "sa/rules/%s.py" % x["id"].lower()))]
with open(os.path.join(R, "properties.jsonl"), "w") as fh:
    for x in done + getattr(props, "NA", []):
        assert len(x["title"]) <= 80, x["id"]
        fh.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py || true",
       "checks": [], "not_applicable": [{"property": x["id"], "reason": x["reason"]} for x in getattr(props, "NA", [])],
       "notes": "All checks parse /repo/pycose on every run and never import or execute it. Exit 2 means the analysis lost sight "
                "of the code it is about. known-findings.txt lists recorded and repaired defects."}
man["setup_cmd"] = "true"
for x in done:
    man["checks"].append({"property": x["id"], "quick_cmd": "python3 check.py " + x["id"],
                          "thorough_cmd": "python3 check.py %s --thorough" % x["id"],
                          "technique": x["technique"], "level": "other", "level_note": x["level_note"]})
with open(os.path.join(R, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(done), "properties")
