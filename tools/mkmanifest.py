#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import coverage_text
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {"S": "deterministic simulation: seeded schedule search over a simulated OpenMP runtime, compared with a serial fresh-process run",
 "H": "deterministic simulation: generated operation histories against a reference run or model", "A": "deterministic simulation: allocation-failure injection",
 "F": "deterministic simulation: I/O fault and crash injection against an undisturbed run", "C": "deterministic simulation: simulated clock with jumps and stalls"}
LN = {"S": "Seeded sampling of schedules, inputs and team sizes; a clean batch is evidence, not proof. Trusts that instrumented memory accesses and OpenMP runtime calls are the only points where interleaving matters (sequential consistency), and the one-thread run as the reference.",
 "H": "Seeded sampling of histories; the reference is a fresh process or a small in-memory model. A clean batch is evidence, not proof.",
 "A": "Allocation indices are sampled per generated call or command line; the reference is the undisturbed run.",
 "F": "Fault points are taken from the recorded I/O trace of the same run; fault kinds and pairs are sampled; the oracle is the undisturbed run's logical content. Kernel-level reordering after fsync is not simulated.",
 "C": "Clock sequences are sampled; the oracle is the same run on a steady clock."}
NA = "a pure function of its input (no schedule, clock, fault, I/O or history for it to depend on): not a target for deterministic simulation"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in coverage_text.T:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH[i[0]], level="exploration", level_note=LN[i[0]]))
    else: na.append(dict(property=i, reason=NA if i[0] == "N" else "check not built yet"))
m = dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na,
  notes="No hooks in /repo: all seams are at link and compile level (OpenMP runtime entry points, compiler-inserted memory-access calls, operator new/malloc, system calls). Checks compile /repo's working tree into /verif/build.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
