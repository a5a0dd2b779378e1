#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design.md.in, the evidence and seeded.tsv."""
import json, os, glob, sys
V = "/verif"
ev = sys.argv[1] if len(sys.argv) > 1 else V + "/evidence"
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
b = []
tot = 0
for i in ids:
    d = json.load(open(f"{ev}/{i}.json"))
    c = d["coverage"]
    w = sum(h["wall_s"] for h in c["harnesses"])
    extra = ", ".join(f"{c[k]:,} {k.replace('_', ' ')}" for k in ("states", "transitions", "traces_validated_against_impl") if c.get(k))
    b.append(f"**{i}** — {len(c['harnesses'])} harnesses, about {max(1, round(w))} s" + (f"; {extra}" if extra else "") + ".\n")
    b.append("| harness | cases | space |\n|---|---:|---|")
    for h in c["harnesses"]:
        b.append(f"| {h['name']} | {h['evaluations']:,} | {h['space'].replace('|', '/')} |")
    b.append("")
rows = []
what = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    what[os.path.basename(os.path.dirname(d))] = json.load(open(d))
got = {}
for l in open(V + "/tools/seeded.tsv"):
    f = l.rstrip("\n").split("\t")
    got[f[0]] = f[1:]
rows.append("| planted bug | breaks | needs | caught by |\n|---|---|---|---|")
for k in sorted(what):
    g = got.get(k, ["", "not run yet"])
    rows.append(f"| {k} | {what[k]['what_it_breaks'].replace('|','/')} | {what[k]['needs'].replace('|','/')} | {g[0]}: {g[1]} |")
s = open(V + "/tools/design.md.in").read()
refac = open(V + "/tools/refac.txt").read().strip() if os.path.exists(V + "/tools/refac.txt") else ""
s = s.replace("{{BOUNDS}}", "\n".join(b)).replace("{{SEEDED}}", "\n".join(rows)).replace("{{NSEEDED}}", str(len(what))).replace("{{REFAC}}", refac)
open(V + "/DESIGN.md", "w").write(s)
