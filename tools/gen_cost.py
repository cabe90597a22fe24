#!/usr/bin/env python3
"""Records the measured cost of the last quick runs (evidence files) for DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "tools", "cost.json")
c = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    d = json.load(open(f))
    if d["tier"] != "quick" or d.get("violations"):
        continue
    k = d["coverage"]
    c[d["property"]] = (f"{k['states']} paths, {k['solver_queries']} queries, {k['solver_s']:.0f} s of solver time over 8 workers, "
                        f"{d['wall_s']:.0f} s in all{'' if k['exhausted_within_bounds'] else ', not exhausted'}.")
json.dump(c, open(p, "w"), indent=0, sort_keys=True)
