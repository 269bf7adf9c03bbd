#!/usr/bin/env python3
"""Write DESIGN.md from tools/design/*.md, tools/props.py, the rules' own descriptions, seeded/ and tools/caught.txt."""
import ast, json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import props  # noqa


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "EXPLAIN"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def part(n):
    return open("%s/design/%s.md" % (H, n)).read().rstrip() + "\n"


caught = {}
for line in open(H + "/caught.txt"):
    w = line.split()
    if len(w) >= 3:
        caught[w[0]] = (w[2], [x for x in w[3:] if re.match(r"C\d+$", x)])
cost = json.load(open(H + "/cost.json")) if os.path.exists(H + "/cost.json") else {}
out = [part("intro")]
out.append("## Properties and how each is decided\n")
for x in props.P:
    f = "%s/sa/rules/%s.py" % (V, x["id"].lower())
    if not os.path.exists(f):
        continue
    k = consts(f)
    out.append("### %s. %s\n" % (x["id"], x["title"]))
    out.append("%s\n" % x["statement"])
    out.append("* Rule: %s." % k["RULE"])
    out.append("* Decided by: %s" % k["EXPLAIN"])
    out.append("* Ranges over: %s." % x["text"])
    out.append("* Bounds and trust: %s." % x["level_note"].rstrip("."))
    out.append("* What tests cannot reach: %s" % x["why"])
    if x["id"] in cost:
        out.append("* Size (quick): %(obligations)d obligations in %(contexts)d contexts, %(undecided)d undecided, about %(seconds)d s alone." % cost[x["id"]])
    seeds = sorted(i for i in caught if i in os.listdir(V + "/seeded") and json.load(open(V + "/seeded/%s/meta.json" % i))["property"] == x["id"])
    if seeds:
        out.append("* Planted bugs: " + ", ".join("%s%s" % (i, "" if caught[i][0] == "caught" else " (missed)") for i in seeds) + ".")
    out.append("")
out.append("## Properties static analysis is not applied to\n")
for x in props.NA:
    out.append("* **%s %s** %s" % (x["id"], x["title"] + ".", x["reason"]))
out.append("")
out.append(part("defects"))
out.append("## Planted bugs\n")
out.append("Each was written from a property's text and the code, confirmed in a scratch copy (builds, the 1640 tests pass, its demonstration "
           "fails with it and passes without), and is kept whether caught or not.\n")
out.append("| change | property | needs | caught by |")
out.append("|---|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    c = caught.get(i, ("not run", []))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], str(m["needs"]).replace("|", "/").replace("\n", " "), " ".join(c[1]) if c[1] else c[0]))
out.append("")
out.append(part("edits"))
out.append(part("limits"))
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)), "characters")
