#!/usr/bin/env python3
"""gen.py [id...]: (re)creates seeded/<id>/ from the definitions in defs/*.py (edits are textual replacements on /repo's HEAD)."""
import os, subprocess, sys, json, shutil, tempfile, glob
H = os.path.dirname(os.path.abspath(__file__)); S = os.path.join(H, "..", "..", "seeded")
DEMO = r'''#!/bin/bash
# exit 0: the property's behaviour holds in the tree at the current directory; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export t o="-g -w -std=gnu11 -DSHOW_DEBUG_LOG -D__axl_disable_broken_bool_def__ -DVERSION=\"x\" -D_GNU_SOURCE -I _build/src -I src -I ns -I babel"
export s="-O1 -fsanitize=address,undefined -fno-sanitize=shift -fno-sanitize-recover=undefined"
ls babel/axl_babel_iso*.c | xargs -P8 -I{} sh -c 'gcc -O0 $o -c {} -o "$t/$(basename {}).o"' || exit 3
ls src/*.c ns/*.c babel/axl_babel.c "$here/demo.c" | xargs -P8 -I{} sh -c 'gcc $s $o -c {} -o "$t/$(basename {}).o"' || exit 3
gcc $s "$t"/*.o -o "$t/demo" -lm -lpthread || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=@LEAKS@:exitcode=9 timeout 120 ./demo
'''
PRE = '#include <axl.h>\n#include <axl_ns.h>\n#include <axl_babel.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#define CHECK(c) do { if (!(c)) { printf ("FAILED: %s (line %d)\\n", #c, __LINE__); exit (1); } } while (0)\n'
seeds = []
KNIFE = DEMO.split("ls src")[0].replace("-I babel", "-I babel -I knife").replace("VERSION=\\", "VERSION=\\") + r'''ls src/*.c ns/*.c babel/axl_babel.c | xargs -P8 -I{} sh -c 'gcc -O0 $o -c {} -o "$t/$(basename {}).o"' || exit 3
for f in axl-knife exarg; do gcc -O0 $o -D__COMPILING_AXL_KNIFE__ -c knife/$f.c -o "$t/$f.o" || exit 3; done
gcc "$t"/*.o -o "$t/knife" -lm -lpthread || exit 3
cd "$t"; fail () { echo "FAILED: $1"; exit 1; }
'''
def seed(id, prop, edits, needs, what, demo, leaks=0, knife=0): seeds.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo, leaks=leaks, knife=knife))
for f in sorted(glob.glob(H + "/defs/*.py")): exec(open(f).read())
want = sys.argv[1:]
for s in seeds:
    if want and s["id"] not in want: continue
    wt = tempfile.mkdtemp(); 
    subprocess.check_call(f"git -C /repo archive HEAD src ns babel knife | tar x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True)
    for path, old, new in s["edits"]:
        t = open(f"{wt}/{path}", encoding="latin-1").read(); n = t.count(old)
        if n != 1: sys.exit(f"{s['id']}: {n} matches in {path} of:\n{old}")
        open(f"{wt}/{path}", "w", encoding="latin-1").write(t.replace(old, new))
    d = f"{S}/{s['id']}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", wt, "diff"]))
    shutil.rmtree(wt)
    open(d + "/demo.sh", "w").write(KNIFE + s["demo"] if s["knife"] else DEMO.replace("@LEAKS@", str(s["leaks"]))); os.chmod(d + "/demo.sh", 0o755)
    if not s["knife"]: open(d + "/demo.c", "w").write(PRE + s["demo"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    # a planted bug must not change lines our own commits added
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
    import re
    diff = open(d + "/patch.diff", encoding="latin-1").read(); cur = None
    for h in re.finditer(r"^\+\+\+ b/(\S+)|^@@ -(\d+)", diff, re.M):
        if h.group(1): cur = h.group(1); continue
        ln = int(h.group(2)); body = diff[h.end():].split("\n@@")[0].split("\n")[1:]
        bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", cur], encoding="latin-1").split("\n")
        for x in body:
            if x.startswith("diff "): break
            if x.startswith("-"):
                if not bl[ln - 1].lstrip("^").startswith(base[:20]): print(f"{s['id']}: WARNING line {ln} of {cur} is ours: {bl[ln-1]}")
            if not x.startswith("+"): ln += 1
    print("wrote", s["id"])
