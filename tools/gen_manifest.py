#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
GRAMMAR = ("explicit-state exploration of a reference grammar model in lock-step with the real parser",
  "model_checking",
  "Every token sequence up to the stated depth over each token alphabet is a state; the model's verdict and tree are compared with the implementation's in every state (product exploration: a state is expanded while the model or the implementation can go on).")
TECH = {}
for p in "P02 P03 P04 P05 P06 P07 P08 P09 P10 P12".split():
    TECH[p] = GRAMMAR
exec(open(here + "/tools/manifest_extra.py").read()) if os.path.exists(here + "/tools/manifest_extra.py") else None
checks = []
for p in ids:
    if p in TECH:
        t, l, n = TECH[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {p}", "technique": t, "level": l, "level_note": n})
na = [{"property": p, "reason": NA.get(p, "check not built yet") if "NA" in globals() else "check not built yet"} for p in ids if p not in TECH]
m = {"version": 1, "setup_cmd": "./check.sh --build",
     "hooks": {"guard": "none", "enable": "no hooks: everything is observed through public interfaces", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "VERIF_TIER selects the depth: quick (default) or thorough. Every check rebuilds the harness from /repo's working tree."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
