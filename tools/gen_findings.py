#!/usr/bin/env python3
"""Writes known_findings.txt: fixed entries from the fix: commits of /repo
(property taken from tools/fixes.json by subject), known entries from
tools/known.txt."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx = json.load(open(f"{root}/tools/fixes.json"))
out = ["# known: property=<id> key=<key> <what fails>   (suppresses exactly that key)",
       "# fixed: property=<id> <commit> <what failed>     (suppresses nothing)"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        props, what = fx[s[5:]]
        for p in props.split():
            out.append(f"fixed: property={p} {h} {what}")
k = f"{root}/tools/known.txt"
if os.path.exists(k):
    out += [l.rstrip("\n") for l in open(k) if l.strip()]
open(f"{root}/known_findings.txt", "w").write("\n".join(out) + "\n")
