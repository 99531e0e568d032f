#!/usr/bin/env python3
"""Builds build/simgridpp from /repo's working tree and /verif/sim. Objects are cached by content."""
import os, sys, glob, hashlib, subprocess, json, fcntl, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
CXX = "/usr/bin/g++"
COMMON = ["-g1", "-fno-pie", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-pipe"]
REPOFLAGS = COMMON + ["-std=c++14", "-O1", "-fopenmp", "-fsanitize=thread", "-fno-omit-frame-pointer", "-I" + REPO + "/include", "-ffp-contract=off"]
SIMFLAGS = COMMON + ["-std=c++17", "-O2", "-I" + REPO + "/include", "-I" + REPO + "/src/client"]
LIBS = ["-lnetcdf", "-lgsl", "-lgslcblas", "-larmadillo", "-lpthread", "-ldl", "-lm"]

def sources():
    s = []
    for pat in ["src/api/*.cpp", "src/client/*.cpp", "src/client/Calibrator/*.cpp", "src/client/File/*.cpp",
                "src/client/Downscaler/*.cpp", "src/client/ParameterFile/*.cpp", "src/client/Driver/Gridpp.cpp"]:
        s += sorted(glob.glob(os.path.join(REPO, pat)))
    return s

_h = {}
def fhash(p):
    if p not in _h:
        try: _h[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        except OSError: _h[p] = "missing"
    return _h[p]

def compile_one(src, flags, repo):
    rel = os.path.relpath(src, REPO if repo else V)
    d = os.path.join(B, "obj", rel.replace("/", "__"))
    os.makedirs(d, exist_ok=True)
    syms = os.path.join(V, "sim", "redefine.syms")
    base = hashlib.sha256((" ".join(flags) + ("|" + fhash(syms) if repo else "")).encode()).hexdigest()
    def key(deps): return hashlib.sha256((base + "".join(x + fhash(os.path.join(REPO, x[2:]) if x.startswith("R:") else x) for x in deps)).encode()).hexdigest()[:24]
    depf = os.path.join(d, "deps.json")
    tag = "R:" + os.path.relpath(src, REPO) if repo else src
    if os.path.exists(depf):
        for deps in json.load(open(depf)):
            o = os.path.join(d, key(deps) + ".o")
            if os.path.exists(o):
                os.utime(o)
                return o, None
    tmp = os.path.join(d, "tmp%d.o" % os.getpid())
    mf = tmp + ".d"
    r = subprocess.run([CXX] + flags + ["-MMD", "-MF", mf, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return None, src + "\n" + r.stderr[-4000:]
    deps = open(mf).read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(mf)
    out = []
    for x in deps:
        x = os.path.abspath(x)
        if x.startswith(os.path.abspath(REPO) + "/"): out.append("R:" + os.path.relpath(x, REPO))
        elif x.startswith(V): out.append(x)
    out = sorted(set(out))
    if repo:
        subprocess.check_call(["objcopy", "--redefine-syms=" + syms, tmp])
    o = os.path.join(d, key(out) + ".o")
    os.rename(tmp, o)
    old = json.load(open(depf)) if os.path.exists(depf) else []
    old = [out] + [q for q in old if q != out]
    json.dump(old[:4], open(depf, "w"))
    objs = sorted((p for p in glob.glob(d + "/*.o") if p != o), key=os.path.getmtime)
    for p in objs[:-3]: os.unlink(p)
    return o, None

def build(verbose=False):
    """Returns (executable, None) or (None, message)."""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    _h.clear()
    t0 = time.time()
    jobs = [(s, REPOFLAGS, True) for s in sources()] + [(s, SIMFLAGS, False) for s in sorted(glob.glob(V + "/sim/*.cpp"))]
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    for o, e in res:
        if o is None: return None, e
    objs = [o for (o, e), j in sorted(zip(res, jobs), key=lambda x: (not x[1][2], x[1][0]))]
    h = hashlib.sha256("".join(os.path.basename(o) for o in objs).encode()).hexdigest()[:24]
    exe = os.path.join(B, "simgridpp-" + h)
    if not os.path.exists(exe):
        r = subprocess.run([CXX, "-no-pie", "-o", exe + ".tmp"] + objs + LIBS, capture_output=True, text=True)
        if r.returncode != 0: return None, r.stderr[-4000:]
        os.rename(exe + ".tmp", exe)
        for p in sorted((p for p in glob.glob(B + "/simgridpp-*") if p != exe), key=os.path.getmtime)[:-2]: os.unlink(p)
    os.utime(exe)
    if verbose: print("built %s in %.1f s" % (exe, time.time() - t0))
    return exe, None

if __name__ == "__main__":
    exe, err = build(True)
    if not exe:
        print(err); sys.exit(2)
