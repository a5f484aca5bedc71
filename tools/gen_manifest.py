#!/usr/bin/env python3
"""Writes MANIFEST.json from groups.txt, properties.jsonl and the notes here."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
groups = dict(l.split() for l in open(f"{root}/harness/groups.txt") if l.strip())
notes = json.load(open(f"{root}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in groups:
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n["technique"],
            "level": "exploration",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Property-based testing and fuzzing (rapid for Go, proptest for Rust) with explicit oracles; see DESIGN.md."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
