#!/usr/bin/env python3
"""Writes MANIFEST.json from dst/plan.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from dst.plan import PLAN, NOTES, NOT_APPLICABLE  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --setup", "checks": [], "not_applicable": [],
     "notes": "Deterministic simulation with fault injection: see DESIGN.md. No hooks are needed in /repo: the seam is cocotb.simulator (GPI)."}
for p in props:
    i = p["id"]
    if i in PLAN:
        m["checks"].append({
            "property": i, "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration",
            "level_note": NOTES.get(i, "") + " Real cocotb scheduler and real library code run on a simulated GPI; sampled seeded executions, "
                          "so a clean batch is evidence and not proof. Trusted: dst/gpi.py semantics, the reference peers and oracles in dst/."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
