#!/usr/bin/env python3
"""dev.py <explorer> [--thorough] [--maxfail N]: run one explorer, group failures (development aid)."""
import sys, os, re, tempfile, subprocess, concurrent.futures, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import build, check
from config import CHECKS
name = sys.argv[1]; extra = sys.argv[2:]
ent = name
for c in CHECKS.values():
    for e in c["explorers"]:
        if isinstance(e, dict) and e["name"] == name: ent = e
exe = build.explorer(ent); N = 24
if "--maxfail" not in extra: extra += ["--maxfail", "300"]
def one(i):
    d = tempfile.mkdtemp(); os.makedirs(d + "/s")
    p = subprocess.run([exe, "--shard", str(i), str(N), "--out", d + "/out", "--scratch", d + "/s"] + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=check.ENV, cwd=d + "/s")
    r = check.parse(d + "/out"); r["log"] = p.stdout.decode("utf8", "replace"); shutil.rmtree(d); return r
t = time.time(); g = {}; tot = [0] * 6; oc = {}; bad = 0
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, range(N)):
        for f in r["fails"]:
            m = f["msg"]
            if f["kind"] != "FAIL":
                s = re.search(r"SUMMARY.*|runtime error.*", r["log"]); st = re.findall(r"#\d+ \S+ in (\w+) /repo\S*/(\S+)", r["log"])[:3]
                m = f["kind"] + " " + (s.group(0) if s else r["log"][-300:]) + " " + str(st)
            k = re.sub(r'"[^"]*"|\d+', "#", re.sub(r"near to .*?\): ", "", re.sub("expected .*","",m)))[:150]
            g.setdefault(k, []).append((len(f["desc"]), f["desc"], m, f["case"]))
        if r["end"]: tot = [a + b for a, b in zip(tot, r["end"])]
        elif not r["fails"]:
            bad += 1
            if bad == 1: print("ABNORMAL", r["engine"], r["log"][:1500])
        for k, v in r["outcomes"].items(): oc[k] = oc.get(k, 0) + v
print(len(g), 'groups')
for k, v in sorted(g.items(), key=lambda x: -len(x[1]))[:20]:
    v.sort(); print(f"[{len(v)}] {v[0][2][:400]}\n     {v[0][1][:300]}   ({v[0][3][:80]})")
    if len(v) > 1: print(f"     {v[len(v)//2][1][:200]}")
print("eval/nontriv/trans/states/fail/skip", tot, "wall", round(time.time() - t, 1), oc)
