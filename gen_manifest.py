#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of implemented checks."""
import json, subprocess, sys
TECH = {
 "codec": "path-partitioned abstract interpretation over SSA (intervals, known bits with bit provenance, linear length relations, segment-wise array provenance); panic obligations and post-conditions discharged per partition",
 "code": "abstract interpretation over SSA with bit provenance; finite value-set partitioning; constants read from the type-checked program",
}
checks = json.load(open("checks.json"))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in checks:
        c = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json","a").write("\n")
