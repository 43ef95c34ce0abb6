#!/usr/bin/env python3
"""run_check.py [--thorough] PROPERTY | --setup | --replay FILE

Builds the simulator against /repo's working tree and searches seeded schedules, workloads and fault sequences for a
violation of one property.  Exit 0: held on everything explored; 1: VIOLATION line; anything else: the check failed."""
import array, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RTMLIB_REPO", "/repo")
WORKERS = 8
LEVEL = "exploration"
MODULE = {"C": "ring", "M": "task", "R": "rmtld", "E": "rmtld", "X03": "port", "X04": "arm"}

def module(prop):
    return MODULE.get(prop) or MODULE[prop[0]]

QUICK = float(os.environ.get("SIM_SECS", "40"))
THOROUGH = float(os.environ.get("SIM_THOROUGH_SECS", "600"))

def properties():
    return {d["id"]: d for d in (json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")))}

def tree_key():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(HERE, "sim")):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                with open(p, "rb") as fp:
                    h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]

def build(modules):
    key = tree_key()
    out = os.path.join(HERE, "build", key)
    todo = [m for m in modules if not os.path.exists(os.path.join(out, m + ".done"))]
    if todo:
        base = os.path.join(HERE, "build")
        if os.path.isdir(base):
            for d in os.listdir(base):
                if d != key:
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        p = subprocess.run(["bash", os.path.join(HERE, "sim", "build.sh"), REPO, out] + todo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stdout.write(p.stdout)
            print("ERROR: the simulator does not build against", REPO)
            sys.exit(2)
        sys.stdout.write(p.stdout)
        for m in todo:
            open(os.path.join(out, m + ".done"), "w").close()
    return out

# the seeds are spread over several compilations of the same code; worker w runs variant SPREAD[w]
SPREAD = ["o1", "o0", "o1", "gcc", "o1", "dbg", "o1", "o0"]

PORTS = {"port": ["port-" + x for x in ("ring.rtems", "ring.nuttx", "rmtld.rtems", "task.rtems", "ring.rtems", "ring.nuttx", "rmtld.nuttx", "task.nuttx")],
         "arm": ["arm-" + x for x in ("ring.freertos", "ring.nuttx", "rmtld.freertos", "task.freertos", "ring.freertos", "ring.nuttx", "rmtld.nuttx", "task.nuttx")]}

def executable(out, mod, w):
    if mod in PORTS:
        return os.path.join(out, PORTS[mod][w % len(PORTS[mod])])
    exe = os.path.join(out, mod + "." + SPREAD[w % len(SPREAD)])
    return exe if os.path.exists(exe) else os.path.join(out, mod + ".o1")

def known_findings(prop):
    listed, fixed = [], []
    path = os.path.join(HERE, "known_findings.txt")
    for l in open(path) if os.path.exists(path) else []:
        l = l.strip()
        m = re.match(r"known: property=(\S+) fingerprint=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            listed.append((m.group(2), m.group(3)))
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m and m.group(1) == prop:
            fixed.append((m.group(2), m.group(3)))
    return listed, fixed

def parse_result(text):
    m = re.search(r"^RESULT outcome=(\S+) kind=(.*?) hash=(\S+) msg=(.*)$", text, re.M)
    if m:
        return m.group(1), m.group(2), m.group(3), m.group(4)
    m = re.search(r"^V (\S+) (\S+)$", text, re.M)
    if m:
        return "violation", m.group(1), m.group(2), "the code under test " + ("crashed" if m.group(1) == "crash" else "never came back")
    return None, None, None, ""

def replay_once(exe, prop, known, path):
    env = dict(os.environ)
    p = subprocess.run([exe, "--prop", prop, "--known", known, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, env=env)
    return p.stdout, parse_result(p.stdout)

def field(path, name):
    for l in open(path, errors="replace"):
        if l.startswith(name + " "):
            return l[len(name) + 1:].rstrip("\n")
    return ""

def confirm(exe, prop, known, viol, final, secs):
    """Shrinks and replays; returns (trace text, result) if it reproduces exactly in fresh processes."""
    for cand in ("shrunk", "raw"):
        path = viol + "." + cand
        if cand == "shrunk":
            subprocess.run([exe, "--prop", prop, "--known", known, "--shrink", viol, "--out", path, "--shrink-secs", str(secs)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if not os.path.exists(path) or field(path, "reproduced") != "1":
                continue
        else:
            shutil.copy(viol, path)
        res = [replay_once(exe, prop, known, path) for _ in range(3)]
        r0 = res[0][1]
        if r0[0] == "violation" and all(r[1] == r0 for r in res):
            msg = r0[3]
            with open(path, errors="replace") as fp:
                body = [l for l in fp if l.split(" ", 1)[0] not in ("msg", "hash", "known")]
            with open(final, "w") as fp:
                fp.write("prop %s\n" % prop if not any(l.startswith("prop ") for l in body) else "")
                fp.writelines(body)
                fp.write("msg %s\nhash %s\nknown %s\nmodule %s\n" % (msg, r0[2], known, os.path.basename(exe)))
            with open(final + ".trace", "w") as fp:
                fp.write(res[0][0])
            return r0
    return None

def search(out, mod, work, prop, known, seed, secs, extra):
    """Runs the workers.  Returns them, the violations [(run, file, executable)] and what went wrong."""
    procs, viols, errors = [], [], []
    for w in range(WORKERS):
        o, v = os.path.join(work, "o%d" % w), os.path.join(work, "v%d" % w)
        for f in (o, v):
            if os.path.exists(f):
                os.unlink(f)
        procs.append((w, o, v, subprocess.Popen([executable(out, mod, w), "--prop", prop, "--known", known, "--seed", str(seed), "--start", str(w), "--stride", str(WORKERS), "--count", str(10**12), "--secs", str(secs), "--out", o, "--viol", v] + extra, stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w"))))
    found_at = None
    pending = list(procs)
    while pending:  # when one worker has a violation the others get a moment, then stop
        for x in list(pending):
            if x[3].poll() is not None:
                pending.remove(x)
                if x[3].returncode in (1, 11):
                    found_at = found_at or time.time()
        if found_at and time.time() - found_at > 2:
            for x in pending:
                x[3].kill()
        time.sleep(0.05)
    for w, o, v, p in procs:
        if p.returncode in (1, 11) and os.path.exists(v):
            viols.append((int(field(v, "seed") or 0), v, executable(out, mod, w)))
        elif p.returncode not in (0, -9) or (p.returncode == -9 and not found_at):
            errors.append("worker %d ended with %s: %s" % (w, p.returncode, open(o + ".err", errors="replace").read()[-500:]))
    return procs, viols, errors

def confirm_any(prop, known, viols, final, tier):
    os.makedirs(os.path.dirname(final), exist_ok=True)
    for idx, v, exe in sorted(viols):
        r = confirm(exe, prop, known, v, final, 30 if tier == "quick" else 60)
        if r:
            return idx, r, final
    return None

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build(sorted(set(MODULE.values())))
        print("built")
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        path = sys.argv[2]
        prop, known = field(path, "prop"), field(path, "known")
        out = build([module(prop)])
        text, r = replay_once(os.path.join(out, field(path, "module")), prop, known, path)
        print(text, end="")
        same = r[0] == "violation" and r[2] == field(path, "hash")
        print("replay: %s, execution hash %s recorded %s" % (r[0], r[2], field(path, "hash")))
        return 1 if same else 3
    args = [a for a in sys.argv[1:] if a != "--thorough"]
    prop = args[0]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    meta = properties()[prop]
    mod = module(prop)
    out = build([mod])
    t_build = time.time() - t0
    listed, fixed = known_findings(prop)
    known = ",".join(fp for fp, _ in listed)
    secs = QUICK if tier == "quick" else THOROUGH
    work = os.path.join(HERE, "build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    print("property %s seed %d tier %s, %d workers, %.0f s" % (prop, seed, tier, WORKERS, secs))
    violation = None
    final = os.path.join(HERE, "replays", "%s-seed%d.replay" % (prop, seed))
    t_search = time.time()
    procs, viols, errors = search(out, mod, work, prop, known, seed, secs, [])
    t_search = time.time() - t_search
    separate = False
    if viols:
        violation = confirm_any(prop, known, viols, final, tier)
    if viols and not violation:
        # Something of one run was still there in the next (static data of the library).  Search again with a fresh
        # copy of the process for every run: what that finds is exactly repeatable, and what it does not find was never
        # a behaviour of one program.
        print("not repeatable on its own: run %d, %s: %s; searching again with a process for each run" % (sorted(viols)[0][0], field(sorted(viols)[0][1], "kind"), field(sorted(viols)[0][1], "msg")))
        separate = True
        t_search = time.time()
        procs, viols, errors = search(out, mod, work, prop, known, seed, secs, ["--fork"])
        t_search = time.time() - t_search
        if viols:
            violation = confirm_any(prop, known, viols, final, tier)
            if not violation:
                errors.append("a violation (%s: %s) did not replay identically" % (field(sorted(viols)[0][1], "kind"), field(sorted(viols)[0][1], "msg")))
    tot = {}
    hashes, states = set(), set()
    samples, kseen, stats, faults = [], {}, {}, {}
    other_msgs = []
    for w, o, v, p in procs:
        if not os.path.exists(o) or os.path.getsize(o) == 0:
            continue
        try:
            d = json.load(open(o))
        except ValueError:
            continue
        for k in ("runs", "points", "sim_ns", "segments", "other", "known"):
            tot[k] = tot.get(k, 0) + d[k]
        tot["max_threads"] = max(tot.get("max_threads", 0), d["max_threads"])
        if d["other_msg"]:
            other_msgs.append(d["other_msg"])
        for k, n in d["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in d["stats"].items():
            stats[k] = stats.get(k, 0) + n
        for k, e in d["known_seen"].items():
            kseen.setdefault(k, [0, e["msg"]])[0] += e["count"]
        samples += d["samples"][:1]
        for suffix, s in ((".hashes", hashes), (".states", states)):
            if os.path.exists(o + suffix):
                a = array.array("Q")
                with open(o + suffix, "rb") as fp:
                    a.frombytes(fp.read())
                s.update(a)
    # the same seed in two fresh processes must give the same executions
    det = {"runs_compared": 0, "mismatches": 0, "record_replay_mismatches": 0}
    for exe in sorted(set(executable(out, mod, w) for w in range(WORKERS))) if not viols and not errors and not separate else []:
        hs = []
        for k, extra in ((0, []), (1, ["--check-determinism"])):
            h = os.path.join(work, "h%d" % k)
            if os.path.exists(h):
                os.unlink(h)
            subprocess.run([exe, "--prop", prop, "--known", known, "--seed", str(seed), "--start", str(10**6), "--count", "60", "--secs", "3", "--hashes", h, "--out", os.path.join(work, "d%d" % k), "--viol", os.path.join(work, "dv%d" % k)] + extra, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            hs.append(open(h).read().split("\n") if os.path.exists(h) else [])
        n = min(len(hs[0]), len(hs[1]))
        det["runs_compared"] += max(0, n - 1)
        det["mismatches"] += sum(a != b for a, b in zip(hs[0][:n - 1], hs[1][:n - 1]))
        try:
            det["record_replay_mismatches"] += json.load(open(os.path.join(work, "d1")))["nondet"]
        except (OSError, ValueError):
            pass
    runs = tot.get("runs", 0)
    real, stub = COMPONENTS[mod]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": RULES[mod],
        "samples": samples[:4] or ["no run finished before the violation"],
        "runs_per_hour": int(runs / max(t_search, 0.001) * 3600),
        "seeds": "VERIF_SEED=%d; run i derives its own seed from it" % seed,
        "scheduling_points": tot.get("points", 0),
        "schedule_segments": tot.get("segments", 0),
        "simulated_time_s": round(tot.get("sim_ns", 0) / 1e9, 6),
        "max_simultaneous_threads": tot.get("max_threads", 0),
        "faults_injected": {k: n for k, n in sorted(faults.items()) if n},
        "workload_counts": stats,
        "distinct_abstract_states": len(states),
        "distinct_executions_measure": "(counted up to 1,000,000 per worker, so a lower bound) hash over the sequence of (thread, kind and address of access) at all scheduling points, system calls, clock values and results",
        "searched_again_with_a_process_for_each_run": separate,
        "runs_abandoned_for_another_property": tot.get("other", 0),
        "known_finding_runs": {k: e[0] for k, e in kseen.items()},
        "determinism": det,
        "real_components": real,
        "stubbed_components": stub,
        "compilations": sorted(set(os.path.basename(executable(out, mod, w)) for w in range(WORKERS))),
        "build_s": round(t_build, 1),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": ASSUMPTIONS + PORT_ASSUMPTIONS.get(mod, []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as fp:
        json.dump(ev, fp, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    shutil.rmtree(work, ignore_errors=True)
    print("%d runs (%d distinct and non-trivial), %.1f simulated s, %d abandoned for another property, determinism %s" % (runs, len(hashes), tot.get("sim_ns", 0) / 1e9, tot.get("other", 0), det))
    for m in sorted(set(other_msgs))[:3]:
        print("note: some runs were abandoned because they violate another property:", m)
    if violation:
        idx, r, final = violation
        print("seed %d run %d: %s: %s" % (seed, idx, r[1], r[3]))
        print("trace: %s.trace; replay with: python3 run_check.py --replay %s" % (final, final))
        print("VIOLATION property=%s replay=%s" % (prop, final))
        return 1
    for fp, text in listed:
        print("KNOWN-FINDING: property=%s %s: %s (seen in %d of %d runs)" % (prop, fp, text, kseen.get(fp, [0])[0], runs))
    if errors or runs == 0:
        print("ERROR:", "; ".join(errors) or "no run was made")
        return 2
    print("property %s held on everything explored" % prop)
    return 0

RULES = {
    "ring": "Each run draws a workload (payload type, capacity, ring offset, initial content, writers, readers, samplers, operation lists) and an execution (thread switches at any shared memory access, stalls, clock steps, destroyed writers, frozen threads) from its seed. Non-trivial: at least one thread was preempted inside a library operation (copy and sequential scenarios: at least one assignment, or the whole operation list, was executed).",
    "task": "Each run draws a monitor life (construction, enable, disable, period changes, jobs of varying length, join) and an execution (thread switches at any shared memory access or system call, slow starts, clock steps, spurious wake-ups, interrupted sleeps, late time-outs, failing system calls) from its seed. Non-trivial: the monitor's thread ran at least one job or a failure was injected.",
    "rmtld": "Each run draws a trace (symbols, gaps between stamps, ring offset, capacity), the way it arrives, a formula and evaluation instants, and an execution from its seed. Non-trivial: at least one formula was evaluated on a trace of at least two events.",
}
RULES["port"] = RULES["arm"] = "Each run is one of the scenarios of the other properties (buffer, monitor, formulas), drawn with its workload and execution from its seed. Non-trivial: as for those properties."
COMPONENTS = {
    "port": (["all headers as compiled for RISC-V with RTEMS and with NuttX (__riscv with __rtems__ or __NUTTX__)"], ["the headers of RTEMS and NuttX: stand-ins that include POSIX ones", "threads, scheduler, locks, clocks, sleeping: simulated", "the instruction set: this machine's"]),
    "arm": (["all headers as compiled for 32-bit ARM (CORTEX_M3) with FreeRTOS and with NuttX (__arm__ with __FREERTOS__ or __NUTTX__)"], ["the headers of FreeRTOS, NuttX and CMSIS: stand-ins that include POSIX ones; the SysTick timer and NuttX's millisecond count: simulated", "threads, scheduler, locks, clocks, sleeping: simulated", "the instruction set: this machine's"]),
    "ring": (["circularbuffer.h", "writer.h", "reader.h", "atomic_compat.h (x86-64)", "event.h", "time_compat.h"], ["threads, scheduler, sched_yield, clock and output: simulated", "applications calling the library: generated"]),
    "task": (["task_compat.h", "periodicmonitor.h", "time_compat.h"], ["pthreads, condition variables, sleeping, clocks: simulated", "monitor jobs: generated"]),
    "rmtld": (["rmtld3/reader.h", "rmtld3/formulas.h", "rmtld3/terms.h", "rmtld3/rmtld3.h", "reader.h", "circularbuffer.h", "writer.h", "periodicmonitor.h and task_compat.h (E01)"], ["threads, scheduler, clocks: simulated", "propositions, traces and formulas: generated"]),
}
ASSUMPTIONS = [
    "Search over sampled seeds, not exhaustive: a clean run is evidence, not proof.",
    "Executions are sequentially consistent interleavings of memory accesses of at most 8 bytes (16 for atomics); weak-memory reorderings are not simulated.",
    "Code is the x86-64 configuration as compiled by clang -O1, clang -O0 (array bounds checked), gcc -O2 and clang with RTMLIB_DEBUG=3; preemption happens at memory accesses outside the thread's own stack and at system calls.",
    "pthread, clock and sleep calls follow POSIX as modelled in sim/sim.cpp.",
]
PORT_ASSUMPTIONS = {
    "port": ["For this property the code is the RISC-V configuration, compiled by clang -O1 for x86-64: its macros and types, not its instructions. The ports' operating systems accept priorities up to 254 for every policy and stacks of 4096 bytes."],
    "arm": ["For this property the code is the ARM configuration, compiled by gcc -O1 for x86-64 with all simulated memory below 4 GB: its macros and types (32-bit page and stamps), not its instructions or its 32-bit std::size_t and long. The ports' operating systems accept priorities up to 254 for every policy and stacks of 4096 bytes.",
            "No run lets its 32-bit stamps, nanoseconds, wrap around while it lasts (the library does not promise more); runs start in different such periods.",
            "SysTick's interrupt is served at once, so NuttX's count of milliseconds and the timer step together."],
}
if __name__ == "__main__":
    sys.exit(main())
