#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's tables."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
ROOT = check.ROOT if hasattr(check, "ROOT") else os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded random search, not exhaustive: every run is one simulated execution of the real generated code compared "
        "with the same execution on the values used directly. Trusts rustc, the simulated devices and the reference side. ")
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.ALL:
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {i}",
                       "technique": check.TECH.get(i, "deterministic simulation with fault injection: seeded search over fault and schedule sequences against the un-annotated reference"),
                       "level": "exploration", "level_note": NOTE + check.REAL[i]})
    else:
        na.append({"property": i, "reason": NA.get(i) or "Check not built yet."})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
if getattr(check, "HOOKS", None):
    m["hooks"] = check.HOOKS
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
