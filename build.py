#!/usr/bin/env python3
"""Compiles the library from /repo's current working tree (sanitized) and links explorers.
Everything goes to /verif/build (ignored by git), keyed by a hash of the inputs."""
import os, sys, hashlib, subprocess, glob, concurrent.futures, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CC = "gcc"
DEFS = ["-DSHOW_DEBUG_LOG", "-D__axl_disable_broken_bool_def__", '-DVERSION="x"', "-D_GNU_SOURCE",
        '-DPACKAGE_DTD_DIR="."', '-DPACKAGE_TOP_DIR="."']
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
CFLAGS = ["-g1", "-O1", "-w"]
SKIP = {"gen-codes.c", "gen-table.c", "read-codes.c"}

def incs():
    return ["-I", V + "/mc/include", "-I", REPO + "/src", "-I", REPO + "/ns", "-I", REPO + "/babel"]

def lib_sources():
    out = []
    for d in ("src", "ns", "babel"):
        for f in sorted(glob.glob(f"{REPO}/{d}/*.c")):
            if os.path.basename(f) not in SKIP:
                out.append(f)
    return out

def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise SystemExit("BUILD-ERROR: " + " ".join(cmd) + "\n" + r.stdout)

def build_lib(san=None, extra=()):
    san = SAN if san is None else san
    srcs = lib_sources()
    hdrs = [f for d in ("src", "ns", "babel") for f in glob.glob(f"{REPO}/{d}/*.h") if not f.endswith("axl_config.h")]
    hdrs += glob.glob(V + "/mc/include/*")
    key = digest(srcs + hdrs, [CC, CFLAGS, san, DEFS, list(extra), REPO])
    d = f"{V}/build/lib-{key}"
    lib = d + "/libaxl.a"
    if not os.path.exists(lib):
        tmp = f"{d}.tmp{os.getpid()}"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        jobs = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for s in srcs:
                o = f"{tmp}/{os.path.basename(os.path.dirname(s))}_{os.path.basename(s)[:-2]}.o"
                jobs.append((o, ex.submit(run, [CC, *CFLAGS, *DEFS, *san, *extra, *incs(), "-c", s, "-o", o])))
            for o, j in jobs: j.result()
        run(["ar", "rcs", tmp + "/libaxl.a"] + [o for o, _ in jobs])
        for o, _ in jobs: os.unlink(o)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return lib, key

def explorer(e):
    """builds an explorer given by name or by its entry in config.py"""
    e = e if isinstance(e, dict) else {"name": e}
    return build_explorer(e["name"], ldflags=e.get("ldflags", ()), srcs=e.get("srcs", ()), cflags=e.get("cflags", ()), libsan=e.get("libsan"))

def build_explorer(name, san=None, ldflags=(), srcs=(), cflags=(), libsan=None):
    extra = [f"{REPO}/{s}" for s in srcs]; cflags = [c.replace("@REPO@", REPO) for c in cflags]
    san = SAN if san is None else san
    lib, key = build_lib(libsan or san)
    if libsan: san = san + ["--param", "asan-use-after-return=0"]
    srcs = [f"{V}/mc/{name}.c", f"{V}/mc/mc.c", f"{V}/mc/ax.c"]
    deps = srcs + glob.glob(V + "/mc/*.h") + extra + [h for d in {os.path.dirname(e) for e in extra} for h in glob.glob(d + "/*.h")]
    k2 = digest(deps, [key, CFLAGS, san, list(ldflags), cflags])
    d = f"{V}/build/bin"; os.makedirs(d, exist_ok=True)
    exe = f"{d}/{name}-{k2}"
    if not os.path.exists(exe):
        tmp = f"{exe}.tmp{os.getpid()}"
        objs = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fs = []
            for s in srcs:
                o = f"{tmp}.{os.path.basename(s)}.o"; objs.append(o)
                fs.append(ex.submit(run, [CC, "-g1", "-O1", "-w", "-std=gnu11", *DEFS, *san, *incs(), "-I", V + "/mc", "-c", s, "-o", o]))
            for s in extra:
                o = f"{tmp}.x{os.path.basename(s)}.o"; objs.append(o)
                fs.append(ex.submit(run, [CC, "-g1", "-O1", "-w", "-std=gnu11", *DEFS, *san, *incs(), *cflags, "-c", s, "-o", o]))
            for f in fs: f.result()
        run([CC, *san, *ldflags, *objs, lib, "-o", tmp, "-lm"])
        for o in objs: os.unlink(o)
        os.rename(tmp, exe)
    return exe

if __name__ == "__main__":
    names = sys.argv[1:]
    if names == ["--all"]:
        from config import CHECKS
        names = [e for c in CHECKS.values() for e in c["explorers"]]
    for n in names:
        print(explorer(n))
