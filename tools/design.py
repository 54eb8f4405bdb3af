#!/usr/bin/env python3
"""Writes DESIGN.md. Run by hand; no check runs it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, assume, observe=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, assume=assume))
exec(open(f"{V}/tools/properties.py").read())
out = [open(f"{V}/tools/design_head.md").read()]
out.append("\n## Properties\n")
res = {}
rp = f"{V}/tools/seeded_results.tsv"
if os.path.exists(rp):
    for l in open(rp):
        f = l.rstrip("\n").split("\t")
        res[f[0]] = f[1:]
seeds = sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []
meta = {s: json.load(open(f"{V}/seeded/{s}/meta.json")) for s in seeds}
for p in P:
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"{p['statement']}\n")
    out.append(f"* *Quantifies over* {p['text']}. *Tests cannot settle it*: {p['why']}.")
    ev = f"{V}/evidence/{p['id']}.json"
    if os.path.exists(ev):
        e = json.load(open(ev)); c = e["coverage"]
        out.append(f"* *Generated and compared*: {c['rule']}.")
        if e.get("assumptions"): out.append("* *Assumed*: " + "; ".join(e["assumptions"]) + ".")
        subs = c.get("per_sub", {})
        if subs: out.append("* *Sub-checks*: " + ", ".join(sorted(subs)) + ".")
    out.append(f"* *Decided by*: {p['assume'][0]}. {p['assume'][1]}")
    out.append("* *Anchors*: " + "; ".join(f"{n} (`{w}`)" for n, w in p["mech"]) + ".")
    ss = [s for s in seeds if meta[s]["property"] == p["id"]]
    if ss: out.append("* *Planted bugs*: " + ", ".join(ss) + ".")
    out.append("")
out.append("## Defects found in the code\n\nEach was shown by a failing generated case on the real code, repaired by a `fix:` commit\nand is watched by the same check since.\n")
n = {"fixed": 0, "finding": 0}
for l in open(f"{V}/known_findings.txt"):
    if l.startswith("fixed:"):
        f = l.split(None, 3); n["fixed"] += 1
        out.append(f"* {f[1].split('=')[1]} `{f[2]}` {f[3].strip()}")
    elif l.startswith("finding:"):
        n["finding"] += 1
        out.append("* recorded, not repaired: " + l.strip())
out.append(f"\n{n['fixed']} repaired, {n['finding']} recorded.\n")
out.append("## Planted bugs and what catches them\n\nEach builds, passes the stable tests, and has a demonstration that passes on the unchanged tree.\nThe last column names the sub-check of the property's quick check that reports it; \"missed at\nfirst\" marks those after which a check was strengthened.\n")
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
for s in seeds:
    r = res.get(s, ["?"])
    out.append(f"| {s} | {meta[s]['property']} | {meta[s]['needs']} | {' '.join(r)} |")
tail = f"{V}/tools/design_tail.md"
if os.path.exists(tail): out.append("\n" + open(tail).read())
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(P), "properties,", len(seeds), "planted bugs")
