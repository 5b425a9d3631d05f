#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_template.md, properties.jsonl, checks.py, known_findings.jsonl and tools/catches.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(V); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open("properties.jsonl")]
out = ["## The properties and how each is decided\n"]
for p in props:
    c = CHECKS.get(p["id"])
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    if not c: out.append("Not claimed; see MANIFEST.json `not_applicable`.\n"); continue
    out.append(f"*Specified and explored:* {c['bounds']}\n")
    if c.get("oracle"): out.append(f"*Oracle:* {c['oracle']}\n")
    def runs(t): return ", ".join(f"`{e} {a}`" for e, a, _ in c.get(t, c["quick"]))
    out.append(f"*Encoded:* harness `harness/src/bin/{c['bin']}.rs` and everything it reaches; quick runs {runs('quick')}" + (f"; thorough runs {runs('thorough')}" if "thorough" in c else "") + f". Measured: quick {c.get('cost', '1 to 2 min')} on 8 cores.\n")
    out.append(f"*Beyond the tests:* {p['why_tests_cant']}\n")
t = open("tools/design_template.md").read().replace("PER-PROPERTY", "\n".join(out))
f = ["## Defects found\n"]
for l in open("known_findings.jsonl"):
    k = json.loads(l)
    if "fixed" in k: _, prop, com, what = k["fixed"].split(" ", 3); f.append(f"* {prop.split('=')[1]}, fixed in `{com}`: {what}")
    else: f.append(f"* {k['property']}, **open** (`{k['entry']}`, {k['assertion']}): {k['what']}")
t = t.replace("FINDINGS", "\n".join(f))
s = ["## Planted bugs\n", "`seeded/`, each confirmed by `tools/seed/new.sh`; last column: the checks that report it (quick tier).\n", "| bug | property | needs | caught by |", "|---|---|---|---|"]
try: c = json.load(open("tools/catches.json"))
except FileNotFoundError: c = {}
for d in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open(f"seeded/{d}/meta.json"))
    s.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(c.get(d, [])) or 'missed'} |")
open("DESIGN.md", "w").write(t.replace("SEEDS", "\n".join(s)))
