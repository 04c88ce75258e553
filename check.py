#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]     run the simulations that decide one property
   check.py --replay FILE             replay one simulated execution (exit 1 and its violation when it still fails)
   check.py --build                   build only (setup)
   check.py --determinism [N]         same seeds, different worker counts and processes: every run must have the same hash
The simulator is rebuilt from /repo's working tree each time."""
import fcntl, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
KNOWN = os.path.join(HERE, "known-findings.txt")
CPUS = max(2, min(8, os.cpu_count() or 8))
WALL = {"quick": 45, "thorough": 600}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def build(name):
    """compile /repo's working tree with the simulator seam; returns the path of the executable"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["bash", os.path.join(HERE, "sim", "build.sh"), os.path.join(BUILD, "obj"), REPO])
        if r.returncode or not os.path.exists(os.path.join(BUILD, "obj", "sim")):
            sys.stderr.write(r.stdout + r.stderr)
            print("ERROR: the simulator could not be built from the working tree")
            sys.exit(2)
        exe = os.path.join(BUILD, "sim-" + name)
        shutil.copy2(os.path.join(BUILD, "obj", "sim"), exe + ".new")
        os.replace(exe + ".new", exe)
    return exe

def known_entries():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            f = l.split("|", 3)
            out.append({"property": f[0], "kind": f[1], "needle": f[2], "text": f[3] if len(f) > 3 else f[2]})
    return out

def replay_once(exe, path):
    r = sh([exe, "--replay", path, "--known", "/dev/null"], timeout=300)
    return r.returncode, r.stdout

REAL = ["every function of /repo/libgrpp/*.c, compiled from the working tree with gcc -O2 (thread-sanitizer instrumentation "
        "for the access seam, stack protector), its OpenMP constructs and libm"]
STUB = ["thread scheduler, OpenMP runtime (critical, barrier, single, parallel, loops), pthread/C11 locks, once, condition variables and keys: replaced by the simulator",
        "malloc/calloc/realloc/free: replaced by the simulated heap (recycling, fill patterns, red zones, failures)",
        "clock, random numbers, environment, exit/abort/assert: replaced by the simulator"]
RULE = ("One evaluation = one simulated execution: a seeded world (molecule, shells, potentials, operators), a seeded workload of API calls on 1-6 simulated threads, "
        "a seeded scheduling policy deciding at every memory access and synchronisation point of the library who runs next, and seeded faults "
        "(stalls, allocation failures, recycled/dirty memory, clock jumps). Non-trivial: with several threads at least one preemption or blocked thread occurred inside library code; "
        "with an injected allocation failure it really fired; otherwise at least two calls ran in one history. Distinct: different schedule hash (sequence of switch points with program counters) or different workload.")
RULE14 = ("One evaluation = one run of the repository's C driver in a scratch directory on generated input files with a simulated OpenMP team; non-trivial: the team had "
          "several threads and at least one preemption occurred. Distinct: different schedule hash and input.")

def evidence(prop, tier, seed, d, wall, nviol, extra):
    runs = max(1, d["runs"])
    w = max(1e-9, d["wall"])
    faults = {"thread stalls": d["stalls"], "forced preemptions": d["preempts"], "failed allocations": d["failed_allocs"],
              "runs with a failed allocation": d["failed_runs"], "process ended by the call after a failed allocation": d["failstops"],
              "heap blocks recycled": d["recycled"], "runs with dirtied stacks": d["dirty_stacks"], "runs with freed memory poisoned": d["poison"],
              "threads blocked on library synchronisation": d["blocked"], "threads delayed indefinitely": d.get("frozen", 0), "calls entered with stale errno and floating-point flags": d.get("env_faults", 0), "runs with arbitrary environment variables": d.get("amb_runs", 0), "runs inside a caller's OpenMP team": d.get("team_runs", 0), "clock jumps (simulated steps skipped)": d["clock_skipped"],
              "heap fill pattern used (zero, ones, random, doubles, stale, small ints)": d["fills"]}
    cov = {
        "evaluations": d["runs"], "distinct_nontrivial": min(d["distinct"], d["nontrivial"]), "rule": RULE14 if prop == "C14" else RULE, "samples": d["samples"] or ["(none kept)"],
        "simulated_runs": d["runs"], "runs_per_hour": round(runs / w * 3600), "seeds_per_hour": round(d["worlds"] / w * 3600),
        "worlds": d["worlds"], "api_calls_completed": d["ops"], "history_repetitions": d["rounds"], "reference_executions": d["refs"],
        "simulated_time": {"memory_access_steps": d["steps"], "clock_steps_jumped_over": d["clock_skipped"], "function_entries": d["func_entries"]},
        "schedules": {"switches": d["switches"], "preemptions": d["preempts"], "synchronisation_operations": d["sync_ops"], "fairness_handovers": d["fairness"],
                      "distinct_switch_point_pairs": d["npairs"], "conflicting_access_sites": d["nsites"], "conflicting_accesses": d["conflicts"],
                      "policies": d["policies"], "threads_histogram": d["threads"]},
        "faults_fired": faults,
        "input_observer_comparisons": d["dirty_checks"],
        "calls_by_kind": d["kinds"], "items": d["items"], "calls_by_LA_plus_LB": d["lsum"], "nuclear_models": d["nuclear_models"],
        "driver_files_compared": d.get("driver_files", 0),
        "calls_not_comparable": d["unchecked"], "histories_rejected_as_invalid": d["invalid"], "runs_not_judged": d["irrelevant"],
        "determinism_self_checks": d["selfcheck"],
        "components": {"real": REAL + (["test_libgrpp_c driver (all of its sources)"] if prop == "C14" else []), "stub": STUB},
    }
    cov.update(extra)
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["memory model: sequentially consistent interleavings at single accesses; no weak-memory reorderings",
                         "the reference of each call is the same build run alone in a fresh process: purely serial numerical errors are outside this family",
                         "sampling: a quiet batch is evidence, not proof"],
         "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".new", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(p + ".new", p)

def check(prop, tier):
    t0 = time.time()
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or "1")
    wall = float(os.environ.get("VERIF_WALL", WALL[tier]))
    exe = build(prop)
    out = os.path.join(BUILD, "out-%s.json" % prop)
    rep = os.path.join(BUILD, "found-%s.txt" % prop)
    for f in (out, rep, rep + ".error"):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--wall", str(wall), "--workers", str(CPUS), "--out", out, "--replay-out", rep, "--known", KNOWN if os.path.exists(KNOWN) else "/dev/null"]
    if tier == "thorough":
        cmd.append("--thorough")
    print("simulating %s: seed %d, %s tier, %g s" % (prop, seed, tier, wall), flush=True)
    try:
        r = sh(cmd, timeout=wall + 250)
    except subprocess.TimeoutExpired:
        print("ERROR: the simulator did not finish")
        return 2
    if not os.path.exists(out):
        print("ERROR: the simulator failed\n" + r.stdout[-2000:] + r.stderr[-2000:])
        return 2
    d = json.load(open(out))
    ents = known_entries()
    allk = [e for e in ents]
    for e, h in zip(allk, d.get("knownhits", [])):
        e["hits"] = h
    mine = [e for e in allk if e["property"] == prop]
    for e in mine:
        print("KNOWN-FINDING: property=%s %s" % (prop, e["text"]))
    rc = 0
    nv = 0
    if r.returncode == 1 and d["found"]:
        first = replay_once(exe, rep)
        second = replay_once(exe, rep)
        if first[0] == 1 and first == second:
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            dst = os.path.join(HERE, "replay", prop + ".txt")
            shutil.copy2(rep, dst)
            print(d["text"])
            print("minimised execution, replayed twice in fresh processes with the same outcome: python3 check.py --replay " + dst)
            print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
            rc, nv = 1, 1
        else:
            print("ERROR: found '%s' but the replay in a fresh process gave %r and %r" % (d["text"], first, second))
            rc = 2
    elif r.returncode != 0:
        print("ERROR: %s %s" % (d.get("text", ""), r.stderr[-1500:]))
        rc = 2
    evidence(prop, tier, seed, d, time.time() - t0, nv, {"known_findings_hit": {e["text"]: e.get("hits", 0) for e in mine}})
    if rc == 0:
        print("%s held on %d simulated executions (%d distinct non-trivial), %.3g simulated steps, %d preemptions, %.0f s" % (prop, d["runs"], min(d["distinct"], d["nontrivial"]), d["steps"], d["preempts"], time.time() - t0))
    return rc

def determinism(n):
    """run hashes of whole batches must not depend on the process, the worker count or earlier runs"""
    exe = build("det")
    bad = 0
    for p in ["C%02d" % i for i in range(1, 18)]:
        ref = None
        for w in (8, 3, 8):
            r = sh([exe, "--prop", p, "--seed", "5", "--wall", "100000", "--worlds", str(n), "--runs", "6", "--workers", str(w), "--hashes", "--out", "/dev/null", "--known", "/dev/null"])
            h = sorted(l for l in r.stdout.splitlines() if l.startswith("run "))
            if ref is None:
                ref = h
            elif h != ref:
                bad += 1
                print("%s: %d workers: %d of %d run hashes differ" % (p, w, len(set(h) ^ set(ref)), len(ref)))
        print("%s: %d runs repeated in 3 processes with 8, 3, 8 workers" % (p, len(ref)), flush=True)
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--build":
        build("setup")
        return 0
    if a[0] == "--determinism":
        return determinism(int(a[1]) if len(a) > 1 else 8)
    if a[0] == "--replay":
        exe = build("replay")
        rc, o = replay_once(exe, a[1])
        print(o, end="")
        m = re.search(r"^property (C\d+)", open(a[1]).read(), re.M)
        if rc == 1 and m:
            print("VIOLATION property=%s replay=%s" % (m.group(1), a[1]))
        return rc
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    return check(a[0], tier)

sys.exit(main())
