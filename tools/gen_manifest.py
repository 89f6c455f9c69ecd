#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
TODO = set(os.environ.get("TODO", "").split())
NOTE = {"P26": "runtime monitoring: the shared arithmetic executed in the VM on boundary-heavy operands, online comparison with exact rational arithmetic"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TODO:
        na.append({"property": i, "reason": "its monitor is not finished yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash run_check.sh {i} quick",
        "thorough_cmd": f"bash run_check.sh {i} thorough",
        "technique": NOTE.get(i, "runtime monitoring: real contracts in the VM under random and directed histories, online reference-model and invariant monitors"),
        "level": "exploration",
        "level_note": "held on every execution explored; see DESIGN.md for what the workload reaches",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the monitors observe storage, balances, events and results from outside", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
