#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and sa/props.py."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import props

m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "Static analysis of /repo only: MIR is exported by a compiler driver and analysed; nothing of /repo is executed."}
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    s = props.get(p)
    if s.get("na"):
        m["not_applicable"].append({"property": p, "reason": s["na"]})
        continue
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": s.get("technique", props.TECHNIQUE),
        "level": s.get("level", "other"),
        "level_note": s.get("level_note", props.NOTE),
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
