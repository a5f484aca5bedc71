"""Writes DESIGN.md from design.md, the findings and the planted bugs."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
text = open("tools/design.md").read()
rows = ["| Bug | Property | What it breaks | Needs | Caught by |", "|---|---|---|---|---|"]
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[1]
    c = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
    rows.append(f"| {i} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {caught.get(i, m['property'])} |")
seen = {}
for l in open("known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        seen.setdefault((m[2], m[3]), []).append(m[1])
finds = [f"* {', '.join(v)} ({k[0]}): {k[1]}" for k, v in seen.items()]
text = text.replace("@PLANTED@", "\n".join(rows)).replace("@FINDINGS@", "\n".join(finds))
text = text.replace("@FIXES@", str(len({k[0] for k in seen}))).replace("@MUTATION@", open("tools/mutation.md").read().strip())
open("DESIGN.md", "w").write(text)
