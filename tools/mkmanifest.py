#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contracts on the LLVM IR of the real sources, VCs discharged by SMT (vfv), counterexamples replayed natively")
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q vfv check.py && mkdir -p evidence replays .build",
    "checks": [],
    "not_applicable": [],
}
for p in props:
    n = NOTES[p["id"]]
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": n.get("technique", TECH),
        "level": n["level"],
        "level_note": n["note"],
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
