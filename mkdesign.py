#!/usr/bin/env python3
"""fills the tables of DESIGN.md from checks.py, properties.jsonl, known-findings.txt and seeded/"""
import json, os, re, glob, checks
H = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
t = open(H + "/DESIGN.tmpl.md").read()
rows = []
for p in P:
    v = checks.CHECKS.get(p["id"])
    if not v: continue
    eng = v.get("engine", "abint")
    hs = "; ".join(sorted({r["harness"] for r in v.get("runs", [])}))
    n = sum(r["entries"] or 0 for r in v.get("runs", []))
    rows.append(f"| {p['id']} | {p['title']} | {eng} | {hs if len(hs) < 40 else 'every harness'} ({n}) | {v['note']} |")
seeds = {}
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(m)); seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j["what_it_breaks"]))
srow = [f"| {k} | " + "; ".join(f"{a}: {b}" for a, b in v) + " |" for k, v in sorted(seeds.items())]
na = [f"* {k}: {r}" for k, r in getattr(checks, "NOT_APPLICABLE", {}).items()] if isinstance(getattr(checks, "NOT_APPLICABLE", {}), dict) else []
fx = ["* " + l[7:].strip() for l in open(H + "/known-findings.txt") if l.startswith("fixed:")]
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(srow)).replace("@@NA@@", "\n".join(na) or "None: every property listed is claimed.").replace("@@FIXED@@", "\n".join(fx))
open(H + "/DESIGN.md", "w").write(t)
