#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--secs N] [--seed N]

Builds the simulator from /repo's working tree, runs a batch of seeded simulations of one property on
all cores, gates every violation by replaying it in a fresh process, writes evidence/<id>.json.
Exit 0: held on everything explored. 1: VIOLATION. 2: no answer (build failed, or the check itself failed)."""
import os, sys, json, subprocess, time, struct, argparse, shutil, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
try: import coverage_text as ct
except ImportError: ct = None

QUICK, THOROUGH = 45, 600

def known_for(prop):
    """known-findings.txt: 'fixed: ...' lines suppress nothing; 'known: property=<id> class=<class> replay=<file> <what fails>'"""
    out = []
    for line in open(os.path.join(V, "known-findings.txt")):
        if not line.startswith("known: property=%s " % prop): continue
        rest = line.split(" ", 2)[2]
        cls, rest = rest.split('class="', 1)[1].split('"', 1)
        replay, what = rest.strip().split("replay=", 1)[1].split(" ", 1)
        out.append((cls, replay, what.strip()))
    return out

def run(exe, *a, timeout=None):
    r = subprocess.run([exe] + list(a), capture_output=True, text=True, timeout=timeout)
    return r.returncode, [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")], r.stderr[-2000:]

def die(msg):
    print("ERROR " + msg); sys.exit(2)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    exe, err = build.build()
    if not exe: die("the build failed:\n" + err)
    tb = time.time() - t0
    secs = a.secs or (THOROUGH if a.tier == "thorough" else QUICK)
    cpus = sorted(os.sched_getaffinity(0))
    n = a.workers or len(cpus)
    work = os.path.join(build.B, "work-%s-%d" % (a.prop, os.getpid())); os.makedirs(work)
    # files of the simulated runs: in memory when possible
    scratch = tempfile.mkdtemp(prefix="simgridpp-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else work)
    os.environ["SIM_SCRATCH"] = scratch
    try: code = explore(a, exe, work, secs, n, cpus, t0, tb)
    finally: shutil.rmtree(work, ignore_errors=True); shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

def explore(a, exe, work, secs, n, cpus, t0, tb):
    known = known_for(a.prop)
    for cls, replay, what in known:
        rc, o, _ = run(exe, "exec", os.path.join(V, replay), timeout=300)
        if rc == 1 and o and o[0]["cls"] == cls: print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
        else: print("note: listed finding no longer fails: %s" % what)
    # the same indices twice, in different processes and on different cores: the executions must be identical
    det = []
    for k in range(2):
        cmd = ["taskset", "-c", str(cpus[-1 if k else 0]), exe, "hashes", a.prop, str(a.seed), "0", "12"]
        det.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    det = [p.communicate()[0] for p in det]
    same = det[0] == det[1] and det[0].count("\n") == 12
    procs = []
    for w in range(n):
        cmd = [exe, "batch", "prop=" + a.prop, "seed=%d" % a.seed, "start=%d" % w, "stride=%d" % n, "secs=%g" % secs, "cpu=%d" % cpus[w % len(cpus)], "hashes=" + os.path.join(work, "h%d" % w)] + ["known=" + c for c, _, _ in known]
        procs.append(subprocess.Popen(cmd, stdout=open(os.path.join(work, "o%d" % w), "w"), stderr=open(os.path.join(work, "e%d" % w), "w")))
    found, totals, dead = [], [], []
    for w, p in enumerate(procs):
        try: p.wait(timeout=secs + 240)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        lines = [json.loads(l) for l in open(os.path.join(work, "o%d" % w)) if l.startswith("{") and l.endswith("}\n")]
        found += [l for l in lines if l["type"] == "found"]
        t = [l for l in lines if l["type"] == "totals"]
        if t: totals += t
        else: dead.append("worker %d ended with %s: %s" % (w, p.returncode, open(os.path.join(work, "e%d" % w)).read()[-500:]))
    distinct = set()
    for w in range(n):
        f = os.path.join(work, "h%d" % w)
        if os.path.exists(f):
            b = open(f, "rb").read(); distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    N, C = {}, {}
    for t in totals:
        for k, v in t["n"].items(): N[k] = max(N.get(k, 0), v) if k.startswith("max_") else N.get(k, 0) + v
        for k, v in t["per_case"].items(): C[k] = C.get(k, 0) + v
    races = set(tuple(r) for t in totals for r in t["races"])
    # gate: a fresh process must see the same violation in the same execution
    viol, loose = [], []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for f in sorted(found, key=lambda f: len(f["plan"])):
        if len(viol) >= 3: break
        path = os.path.join(V, "replays", "%s-%s.plan" % (a.prop, f["hash"]))
        with open(path, "w") as o: o.write(f["plan"])
        rs = [run(exe, "exec", path, timeout=300) for _ in range(2)]
        if f["repeatable"] and all(rc == 1 and o and o[0]["cls"] == f["cls"] and o[0]["hash"] == f["hash"] for rc, o, _ in rs):
            if f["cls"] in [v["cls"] + v["case"] for v in viol]: continue
            with open(path, "a") as o: o.write("# violation: %s: %s\n# replay: build/simgridpp-* exec <this file>\n" % (f["cls"], f["detail"].replace("\n", " ")))
            viol.append(dict(cls=f["cls"], case="", detail=f["detail"], path=path, index=f["index"]))
        else: loose.append(f)
    if not viol and loose: write(a, N, C, races, distinct, totals, same, secs, t0, tb, [], det); die("a violation did not repeat exactly: " + json.dumps(loose[0])[:1500])
    write(a, N, C, races, distinct, totals, same, secs, t0, tb, viol, det)
    for v in viol:
        print("violation: %s: %s (seed %d, index %d)" % (v["cls"], v["detail"], a.seed, v["index"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, v["path"]))
    if viol: return 1
    if dead: die("; ".join(dead))
    if not same: die("two executions of the same seeds differ")
    if not N.get("simulated_runs"): die("nothing was explored")
    print("held: property=%s %d simulated runs, %d distinct, %.0f s" % (a.prop, N["simulated_runs"], len(distinct), time.time() - t0))
    return 0

def write(a, N, C, races, distinct, totals, same, secs, t0, tb, viol, det):
    wall = max([t["wall"] for t in totals] or [secs]) or 1
    runs = N.get("simulated_runs", 0)
    idx = sum(t["indices"] for t in totals)
    faults = {k: v for k, v in sorted(N.items()) if k.startswith("fault_") or k.startswith("rand_mode_") or k.startswith("heap_pattern_") or k.startswith("clock_mode_")}
    modes = {k[5:]: v for k, v in sorted(N.items()) if k.startswith("mode_")}
    desc = ct.text(a.prop) if ct else {}
    cov = dict(evaluations=runs, distinct_nontrivial=len(distinct), rule=desc.get("rule", "one evaluation is one simulated execution of a generated plan"),
        samples=[s for t in totals for s in t["samples"]][:3],
        generated_plans_or_inputs=idx, seeds_per_hour=int(idx / wall * 3600), simulated_runs_per_hour=int(runs / wall * 3600),
        simulated_time=dict(note=desc.get("time", "the simulated clock is an input: time is counted in scheduler steps (instrumented memory accesses)"), steps=N.get("steps", 0), clock_reads=N.get("clock_reads", 0)),
        faults_injected=faults, schedules=modes,
        interleavings=dict(measure=desc.get("measure", "hash of the whole execution (which thread took each switch, where) together with its input"), distinct=len(distinct), thread_switches=N.get("switches", 0), forced_preemptions=N.get("preempts_forced", 0)),
        counters={k: v for k, v in sorted(N.items()) if v}, per_operation=C, racing_site_pairs_used_to_direct_schedules=len(races),
        real_components=desc.get("real", []), simulated_or_stubbed_components=desc.get("stub", []),
        determinism_recheck=dict(indices=det[0].count("\n"), processes=2, identical=same), workers=len(totals), build_s=round(tb, 1), explore_s=round(wall, 1))
    e = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed, level="exploration",
        coverage=cov, assumptions=desc.get("assume", []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.tmp" % a.prop)
    with open(tmp, "w") as o: json.dump(e, o, indent=1)
    os.rename(tmp, os.path.join(V, "evidence", a.prop + ".json"))

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); print("ERROR %r" % e); sys.exit(2)
