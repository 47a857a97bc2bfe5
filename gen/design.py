#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the properties, the rules the checks report, and the planted bugs."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
man = json.load(open(f"{H}/MANIFEST.json"))
tech = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
seeds = {}
for f in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((f.split("/")[-2], m))
notes = {}
nf = f"{H}/gen/design_notes.json"
if os.path.exists(nf):
    notes = json.load(open(nf))
out = []
for p in props:
    i = p["id"]
    if i in na:
        continue
    out.append(f"### {i} {p['title']}\n")
    out.append(f"Quantified over: {p['quantifier']['text']}.")
    try:
        e = json.load(open(f"{H}/evidence/{i}.json"))["coverage"]
        out.append(f"Decided by {tech[i]['technique']}. On the pinned tree: {e['obligations']} obligations, {e['functions_analysed']} functions, {e['paths']} abstract paths. Rules:\n")
        for k, r in e["rules"].items():
            out.append(f"- `{k}`: {r['rule']}")
    except FileNotFoundError:
        pass
    if i in notes:
        out.append("\n" + notes[i])
    if i in seeds:
        out.append("\nPlanted bugs caught: " + ", ".join(f"`{s}`" for s, _ in seeds[i]) + ".")
    out.append("")
fixed = "\n".join("- " + x for x in json.load(open(f"{H}/known-findings.json"))["fixed"])
stub = open(f"{H}/gen/design_stub.md").read() if os.path.exists(f"{H}/gen/design_stub.md") else "(not yet analysed)"
nat = "\n".join(f"- **{i}**: {r}" for i, r in na.items()) or "(none listed)"
head = open(f"{H}/gen/design_head.md").read()
for k, v in (("stub", stub), ("fixed", fixed), ("props", "\n".join(out)), ("na", nat)):
    head = head.replace("{" + k + "}", v.rstrip("\n"), 1)
open(f"{H}/DESIGN.md", "w").write(head)
