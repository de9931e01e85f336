#!/usr/bin/env python3
"""DESIGN.md from design.in.md, design.d/*.md (per property), config.py and seeded/*/meta.json"""
import json, glob, os
from config import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
t = open(V + "/design.in.md").read(); o = ""
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]; o += f"### {i} {d['title']}\n\n"
    p = f"{V}/design.d/{i}.md"
    if os.path.exists(p): o += open(p).read().strip() + "\n\n"
    if i in CHECKS:
        c = CHECKS[i]; o += f"*Counting rule:* {c['rule']}.\n\n*Bounds (quick):* {c['bounds']['quick']}.  *(thorough):* {c['bounds']['thorough']}.\n\n"
    else: o += "(check not built yet)\n\n"
s = "| bug | property | needs | caught |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/seeds/results.json")) if os.path.exists(V + "/tools/seeds/results.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m)); s += f"| {i} | {d['property']} | {d['needs']} | {res.get(i, '?')} |\n"
def part(n):
    p = f"{V}/design.d/{n}.md"; return open(p).read().strip() if os.path.exists(p) else ""
t = t.replace("@@PROPS@@", o.strip()).replace("@@SEEDS@@", s.strip()).replace("@@FIND@@", part("findings")).replace("@@FALSE@@", part("false"))
open(V + "/DESIGN.md", "w").write(t)
