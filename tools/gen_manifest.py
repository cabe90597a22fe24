#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS, NOT_APPLICABLE  # noqa: E402
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {"guard": "none", "enable": "no hook is needed: the drivers include the headers of /repo as they are", "source_commits": []},
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "Each check compiles its driver with /repo's headers to LLVM IR, executes it symbolically and lets z3 decide every branch "
             "and assertion within the bounds given in the evidence; counterexamples are replayed on a plain build before being reported.",
}
for k in sorted(PROPS):
    m["checks"].append({
        "property": k, "quick_cmd": f"python3 bin/check.py {k}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {k}",
        "evidence_file": f"evidence/{k}.json",
        "technique": "bounded symbolic execution of the LLVM IR of the real code, decided with SMT (z3)",
        "level": "model_checking",
        "level_note": "Bounded: " + PROPS[k]["bounds"] + ". Outside: " + PROPS[k].get("outside", ""),
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
