#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, "tools/levels.json")))
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(root, "harness/checks", p.lower() + ".go")):
        n = notes[p]
        checks.append({
            "property": p,
            "quick_cmd": f"./check.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": n["technique"],
            "level": "exploration",
            "level_note": n["note"],
        })
    else:
        na.append({"property": p, "reason": "no check yet"})
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "Instrumentation is woven into a build of /repo's working tree by an overlay (harness/cmd/instr); /repo carries no hooks, only fix: commits, which known_findings.txt lists.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
