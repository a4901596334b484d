#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from plan.py, known-findings.jsonl and seeded/."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, NOT_APPLICABLE
titles = {d["id"]: d["title"] for d in map(json.loads, open(V + "/properties.jsonl"))}
def put(text, tag, body):
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, body, tag), text, flags=re.S)
out = []
for z, p in PLAN.items():
    out.append(f"### {z} {titles[z]}\n")
    out.append("| entry | symbolic |\n|---|---|")
    for r in p["runs"]:
        q, t = r["quick"], r["thorough"]
        s = ",".join(map(str, q)) if q else ""
        e = f"`{r['entry']}`" + (f"[{s}]" if s else "")
        if list(t or q) != list(q):
            e += f" ([{','.join(map(str, t))}])"
        if r.get("tiers") == ("thorough",) or r.get("tiers") == ["thorough"]:
            e += " thorough only"
        out.append(f"| {e} | {r['bounds']} |")
    out.append(f"\nOutside: {p['outside']}.\n")
for z, why in NOT_APPLICABLE.items():
    out.append(f"### {z}: not applicable: {why}\n")
kf = [l.strip() for l in open(V + "/known-findings.jsonl") if l.startswith("fixed:")]
kfs = "\n".join("* " + re.sub(r"fixed: property=(\S+) (\S+) ", r"\1, `\2`: ", l) for l in kf)
caught = {}
f = V + "/tools/caught.txt"
if os.path.exists(f):
    for l in open(f):
        a = l.split()
        if a:
            caught[a[0]] = " ".join(a[1:])
rows = ["| bug | what it breaks | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['what_it_breaks']} | {caught.get(i, '-')} |")
t = open(V + "/DESIGN.md").read()
t = put(t, "bounds", "\n".join(out))
t = put(t, "findings", kfs)
t = put(t, "seeds", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
