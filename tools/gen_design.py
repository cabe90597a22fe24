#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the fixed text of tools/design.md with one entry per property,
the table of planted bugs (results in tools/bugs.json) and the list of repairs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS  # noqa: E402
P = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
oracle = json.load(open(os.path.join(V, "tools", "oracles.json")))
cost = json.load(open(os.path.join(V, "tools", "cost.json")))
out = []
for k in sorted(P):
    q, v = P[k], PROPS[k]
    out.append(f"### {k} {q['title']}\n")
    out.append(f"*Specified.* {q['statement']}\n")
    out.append(f"*Oracle.* {oracle[k]} Driver `{', '.join('harness/' + d['src'] for d in v['drivers'])}`.\n")
    out.append(f"*Bounds.* {v['bounds'][0].upper() + v['bounds'][1:]}. Outside: {v.get('outside', '')}.\n")
    if k in cost:
        out.append(f"*Cost (quick).* {cost[k]}\n")
    out.append(f"*Beyond tests.* {q['why_tests_cant']}\n")
bugs = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(V, "tools", "bugs.json")))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    b = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    bugs.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, 'not run')} |")
fixed = ["- " + f[len("fixed: "):] for f in json.load(open(os.path.join(V, "KNOWN_FINDINGS.json")))["fixed"]]
t = open(os.path.join(V, "tools", "design.md")).read()
t = t.replace("@PROPERTIES@", "\n".join(out)).replace("@BUGS@", "\n".join(bugs)).replace("@FIXED@", "\n".join(fixed))
mu = os.path.join(V, "tools", "mutants.md")
t = t.replace("@MUTANTS@", open(mu).read() if os.path.exists(mu) else "")
open(os.path.join(V, "DESIGN.md"), "w").write(t)
print("DESIGN.md", len(t.split("\n")), "lines")
