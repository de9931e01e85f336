#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds the explorers of a property from /repo's working tree, runs them to
exhaustion over 8 shards, replays every failure alone before reporting it,
writes evidence/<property>.json.  Exit 0: held on everything explored;
exit 1: VIOLATION line(s)."""
import json, os, resource, subprocess, sys, tempfile, time, shutil, array, concurrent.futures
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from config import CHECKS

JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(16, os.cpu_count() or 8)
ENV = dict(os.environ)
for k in list(ENV):
    if k.startswith("AXL_"): del ENV[k]
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:"
                       "malloc_context_size=6:max_redzone=64:detect_stack_use_after_return=0:hard_rss_limit_mb=3000:handle_abort=0:"
                       "allocator_may_return_null=0:strict_memcmp=1:intercept_strlen=1:max_allocation_size_mb=2000")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
ENV["LC_ALL"] = "C"

def parse(path):
    r = {"fails": [], "samples": [], "outcomes": {}, "end": None, "capped": False, "engine": None}
    try:
        data = open(path, "rb").read().decode("utf-8", "replace")
    except FileNotFoundError:
        return r
    for ln in data.split("\n"):
        t = ln.split("\t")
        if t[0] in ("FAIL", "CRASH", "HANG") and len(t) >= 5:
            r["fails"].append({"kind": t[0], "ord": int(t[1]), "case": t[2], "msg": t[3], "desc": t[4]})
        elif t[0] == "SAMPLE" and len(t) >= 5: r["samples"].append(t[4][:600])
        elif t[0] == "OUTCOME": r["outcomes"][t[1]] = r["outcomes"].get(t[1], 0) + int(t[2])
        elif t[0] == "END": r["end"] = [int(x) for x in t[1:7]]
        elif t[0] == "CAPPED": r["capped"] = True
        elif t[0] == "ENGINE": r["engine"] = ln
        elif t[0] == "CASE" and len(t) >= 5: r["case"] = {"case": t[2], "desc": t[4]}
    return r

# a changed library that never stops writing must not fill the disk (inherited by the explorers)
resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))

def run_shard(exe, tier, i, n, work, timeout, upto=None, label=""):
    d = f"{work}/{os.path.basename(exe)}{label}.{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/scratch")
    cmd = [exe, "--shard", str(i), str(n), "--out", d + "/out", "--states", d + "/states", "--scratch", d + "/scratch"]
    if tier == "thorough": cmd.append("--thorough")
    if upto: cmd += ["--upto", str(upto)]
    with open(d + "/log", "wb") as log:
        try:
            rc = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=ENV, timeout=timeout, cwd=d + "/scratch").returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    shutil.rmtree(d + "/scratch", ignore_errors=True)
    r = parse(d + "/out"); r["rc"] = rc; r["dir"] = d
    try: r["log"] = open(d + "/log", "rb").read()[-8000:].decode("utf-8", "replace")
    except OSError: r["log"] = ""
    return r

def replay(exe, tier, case, work):
    d = tempfile.mkdtemp(dir=work)
    os.makedirs(d + "/scratch")
    cmd = [exe, "--replay", case, "--out", d + "/out", "--scratch", d + "/scratch"] + (["--thorough"] if tier == "thorough" else [])
    with open(d + "/log", "wb") as log:
        try: rc = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=ENV, timeout=300, cwd=d + "/scratch").returncode
        except subprocess.TimeoutExpired: rc = "timeout"
    r = parse(d + "/out"); r["rc"] = rc
    r["log"] = open(d + "/log", "rb").read()[-6000:].decode("utf-8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    return r

def load_known():
    k = []
    for ln in open(V + "/known-findings.txt"):
        ln = ln.rstrip("\n")
        if ln.startswith("finding: "):
            # finding: property=<id> explorer=<name> desc=<exact case description> :: <what fails>
            head, what = ln[9:].split(" :: ", 1)
            pid, rest = head.split(" ", 1); exp, desc = rest.split(" ", 1)
            k.append({"property": pid.split("=", 1)[1], "explorer": exp.split("=", 1)[1], "desc": desc.split("=", 1)[1], "what": what})
    return k

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    cfg = CHECKS[pid]; t0 = time.time()
    known = [k for k in load_known() if k["property"] == pid]
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return go(pid, tier, cfg, known, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def go(pid, tier, cfg, known, work, t0):
    exes = {}
    for e in cfg["explorers"]:
        if isinstance(e, str): e = {"name": e}
        if e.get("thorough_only") and tier != "thorough": continue
        exes[e["name"]] = (build.explorer(e), e)
    tot = {"eval": 0, "nontriv": 0, "trans": 0, "skip": 0}; states = set(); outcomes = {}; samples = []; fails = []; errors = []
    capped = False; per = {}
    nsh = JOBS * 3
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for name, (exe, e) in exes.items():
            n = 1 if e.get("single") else nsh
            for i in range(n):
                jobs.append((name, i, n, ex.submit(run_shard, exe, tier, i, n, work, 6000)))
        for name, i, n, j in jobs:
            r = j.result(); exe = exes[name][0]
            if r["engine"]: errors.append(f"{name} shard {i}: {r['engine']}")
            for f in r["fails"]:
                f.update(explorer=name, shard=i, nshards=n, log=r["log"]); fails.append(f)
            if r["end"]:
                ev, nt, tr, st, nf, sk = r["end"]
                tot["eval"] += ev; tot["nontriv"] += nt; tot["trans"] += tr; tot["skip"] += sk
                q = per.setdefault(name, [0, 0]); q[0] += ev; q[1] += tr
                try:
                    a = array.array("Q"); b = open(r["dir"] + "/states", "rb").read(); a.frombytes(b[:len(b) // 8 * 8]); states.update(a)
                except OSError: pass
            elif not r["fails"]:
                errors.append(f"{name} shard {i}: ended abnormally (rc={r['rc']}) without a verdict: {r['log'][-1500:]}")
            capped |= r["capped"]
            for k, v in r["outcomes"].items(): outcomes[f"{name}:{k}"] = outcomes.get(f"{name}:{k}", 0) + v
            if r["samples"] and len(samples) < 12: samples += [f"{name}: {s}" for s in r["samples"][-1:]]
            shutil.rmtree(r["dir"], ignore_errors=True)
    # judge the failures
    kset = {(k["explorer"], k["desc"]): k for k in known}
    seen_known = set(); new = []
    for f in fails:
        k = kset.get((f["explorer"], f["desc"]))
        if k: seen_known.add(k["desc"]); print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else: new.append(f)
    new.sort(key=lambda f: (len(f["desc"]), len(f["case"]), f["desc"]))
    violations = 0
    rdir = f"{V}/replays/{pid}"
    for f in new[:8]:
        if violations >= 3: break
        exe = exes[f["explorer"]][0]
        r1 = replay(exe, tier, f["case"], work)
        how = "the single case, replayed alone, fails again"
        ok = bool(r1["fails"]) or r1["rc"] == "timeout"
        if not ok:
            # may depend on what the process did before: rerun the deterministic shard prefix
            r2 = run_shard(exe, tier, f["shard"], f["nshards"], work, 3000, upto=f["ord"] + 1, label="-again")
            ok = any(x["case"] == f["case"] for x in r2["fails"])
            how = f"fails after the preceding cases of shard {f['shard']}/{f['nshards']} (library state carried over); replayed by rerunning the shard up to this case"
        if not ok:
            errors.append(f"{f['explorer']}: failure did not reproduce: {f['case']} {f['msg']}"); continue
        os.makedirs(rdir, exist_ok=True)
        path = f"{rdir}/{tier}-{violations}.txt"
        with open(path, "w") as o:
            o.write(f"property: {pid}\nexplorer: {f['explorer']}\nkind: {f['kind']}\nwhat: {f['msg']}\ncase: {f['desc']}\nchoices: {f['case']}\nreplay: {how}\n"
                    f"command: python3 {V}/replay.py {path}\nshard: {f['shard']}/{f['nshards']} ordinal {f['ord']}\ntier: {tier}\n\n--- output ---\n{r1['log'] or f['log']}\n")
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {f['kind']}: {f['msg'][:400]}\n  case: {f['desc'][:400]}")
        violations += 1
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": len(states), "transitions": tot["trans"], "traces_validated_against_impl": tot["eval"],
                       "evaluations": tot["eval"], "distinct_nontrivial": tot["nontriv"], "rule": cfg["rule"],
                       "samples": samples[:12], "exhaustive": not capped and not errors and not fails, "per_explorer_cases_transitions": per,
                       "outcomes": dict(sorted(outcomes.items())), "bounds": cfg.get("bounds", {}).get(tier, "")},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as o: json.dump(ev, o, indent=1)
    print(f"{pid} {tier}: cases={tot['eval']} nontrivial={tot['nontriv']} transitions={tot['trans']} states={len(states)} "
          f"violations={violations} known={len(seen_known)} wall={ev['wall_s']}s")
    if violations: return 1
    if errors:
        for e in errors[:5]: print("ERROR:", e)
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
