#!/usr/bin/env python3
"""Rewrite MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN
props = [json.loads(x) for x in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason="the specification of this part is not written yet"))
        continue
    pl = PLAN[i]
    mods = ", ".join(sorted({m["module"] for m in pl.get("mc", [])} | {g["module"] for g in pl["gen"]} | {pl["trace"]}))
    checks.append(dict(
        property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s --tier thorough" % i,
        technique="TLA+ specification checked with TLC; behaviours generated from it are replayed on the code and the recorded traces validated against it (%s)" % mods,
        level="model_checking",
        level_note=pl.get("note", "Exhaustive for the model's small constants; the code is judged on the generated executions, each call's result being compared in exact arithmetic with what the specification allows. Trusts TLC, the rational arithmetic override and the driver that calls the public interface.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the public interface already exposes the abstract state. Every check builds the code from /repo's working tree (address sanitizer on).")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
