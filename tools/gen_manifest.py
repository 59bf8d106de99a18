#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
conf = json.load(open(H + "/checks.json"))["checks"]
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "the check for it is not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p["id"],
        "technique": "property-based testing: " + c.get("technique", "generated cases against an independent reference model"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Holds on every generated case (see rule and counts in the evidence), no more; "
                       "failures are shrunk to a replay file. Trusts the Go toolchain and encoding/json."),
    })
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "One Go harness (harness/) with one test per property, built against /repo's working tree by run.py; no hooks in /repo."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
