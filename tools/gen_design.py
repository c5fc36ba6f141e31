#!/usr/bin/env python3
"""DESIGN.md from tools/design/{head,tail}.md, specs.py, props.py, the harnesses' comments, seeded/*/meta.json and tools/catches.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
from specs import PROPS as SPECS, COMMON, LEDGER
doc = {}
for c in os.listdir(f"{V}/ws/h"):
    for f in os.listdir(f"{V}/ws/h/{c}"):
        if not f.endswith(".rs"): continue
        last = []
        for l in open(f"{V}/ws/h/{c}/{f}"):
            l = l.strip()
            if l.startswith("///"): last.append(l[3:].strip())
            elif m := re.match(r'pub extern "C" fn (h_\w+)', l): doc[c, m[1]] = " ".join(last); last = []
            elif not l.startswith("#["): last = []
o = open(f"{V}/tools/design/head.md").read()
o += "## Properties\n"
for p in PROPS:
    s = SPECS.get(p["id"])
    o += f"\n### {p['id']} {p['title']}\n{p['statement']}\n\n"
    if not s:
        o += f"Not applicable: {p['na']}\n"; continue
    o += "*Anchors:* " + "; ".join(f"{n} ({w})" for n, w in p["mech"]) + ".\n\n"
    o += f"*Decided by:* symbolic execution of these entry points; {p['note']}. Harnesses:\n"
    seen = []
    for kind in ("runs", "deep"):
        for c, h, *_ in s.get(kind, []):
            d = doc.get((c, h), "")
            o += f"- `{c}/{h}`{' (thorough)' if kind == 'deep' else ''}" + (f": {d}" if d else "") + "\n"
    o += f"\n*Bounds:* {s['bounds']}.\n"
    if s.get("outside"): o += f"*Outside:* {s['outside']}.\n"
    a = [x for x in s.get("assumptions", []) if x not in COMMON]
    a = [x if isinstance(x, str) else x[0] for x in a]
    if a: o += "*Assumed:* " + "; ".join(a) + ".\n"
o += open(f"{V}/tools/design/tail.md").read()
k = json.load(open(f"{V}/known_findings.json"))
o += "\n## Genuine defects found\nAll were shown by a counterexample that fails in the compiled code, and repaired (`fix:` commits in /repo):\n"
for x in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x); o += f"- {m[1]}, {m[2]}: {m[3]}.\n"
for x in k["findings"]: o += f"- recorded, not repaired: {json.dumps(x)}\n"
c = json.load(open(f"{V}/tools/catches.json")) if os.path.exists(f"{V}/tools/catches.json") else {}
o += "\n## Planted bugs and what catches them\n| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|\n"
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    o += f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c.get(i, '')} |\n"
open(f"{V}/DESIGN.md", "w").write(o)
