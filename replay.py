#!/usr/bin/env python3
"""replay.py <replay file>: re-executes one recorded counterexample on the current tree, without the explorer's search."""
import sys, os, re, subprocess, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build, check
from config import CHECKS
t = open(sys.argv[1]).read()
g = lambda k: re.search(rf"^{k}: (.*)$", t, re.M).group(1)
pid, name, tier = g("property"), g("explorer"), g("tier")
e = next((x if isinstance(x, dict) else {"name": x}) for x in CHECKS[pid]["explorers"] if (x if isinstance(x, str) else x["name"]) == name)
exe = build.explorer(e)
w = tempfile.mkdtemp(prefix="verif-replay-")
r = check.replay(exe, tier, g("choices"), w)
shutil.rmtree(w)
print(r["log"]); print("fails:", r["fails"]); print("case:", r.get("case"))
sys.exit(1 if r["fails"] or r["rc"] == "timeout" else 0)
