#!/usr/bin/env python3
"""Writes MANIFEST.json from the lists below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded search over simulated executions of the real library code (threads, clock and system calls simulated). "
        "Assurance is that of a sample, not a proof; sequentially consistent interleavings only; trusts the simulator's model of POSIX threads and clocks and the oracle in sim/%s.cpp.")
CLAIMED = os.environ.get("CLAIMED", "").split() or [l.split()[0] for l in open(os.path.join(HERE, "tools", "claimed.txt")) if l.strip()]
MOD = {"C": "ring", "M": "task", "R": "rmtld", "E": "rmtld"}
EXTRA = {
 "C07": " One listed known finding: a writer frozen between publishing and storing blocks other writers.",
 "C10": " The operations are made one at a time; the faults are destroyed writers, reused memory and clock steps.",
}
NA = {
 "X01": "Pure functions of their arguments (truth tables and their macros): no schedule, clock, fault or interleaving for a simulator to control. (Their use inside formulas is covered by R02-R05.)",
 "X02": "Pure functions of two values: nothing for a simulator to control.",
 "X03": "No ARM, RISC-V or synthesis toolchain or run-time is installed, so that code cannot be executed here at all.",
}
checks = []
for p in CLAIMED:
    checks.append({"property": p, "quick_cmd": "python3 run_check.py " + p, "thorough_cmd": "python3 run_check.py --thorough " + p, "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation: seeded schedule, clock and fault search with a reference oracle", "level": "exploration",
        "level_note": NOTE % MOD[p[0]] + EXTRA.get(p, "")})
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "not claimed yet: its scenarios are still being built")} for p in ids if p not in CLAIMED]
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is a linker wrap or the compiler's thread instrumentation callbacks. Replay a violation with: python3 run_check.py --replay FILE."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
