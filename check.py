#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation of /repo's current tree.

  check.py C01                 quick or thorough run (VERIF_TIER), seed VERIF_SEED
  check.py --replay FILE [-v]  run a replay file once; exit 1 if it reproduces its violation
Exit: 0 held on everything explored, 1 violation (one VIOLATION line), 3 no answer (build or machinery error).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
REPO = os.environ.get("MOMENT_REPO", "/repo")
SHARDS = int(os.environ.get("SIM_SHARDS", "8"))
QUICK_S = float(os.environ.get("SIM_QUICK_S", "40"))
THOROUGH_S = float(os.environ.get("SIM_THOROUGH_S", "600"))
KNOWN = os.path.join(HERE, "known_findings.tsv")


def build():
    t0 = time.time()
    r = subprocess.run([sys.executable, os.path.join(HERE, "build.py")], env={**os.environ, "SIM_BUILD": BUILD, "MOMENT_REPO": REPO})
    if r.returncode != 0:
        print("ERROR: the harness did not build from the current tree")
        sys.exit(3)
    return time.time() - t0


def known_entries(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            t = line.split("\t")
            if len(t) >= 5 and t[0] == prop:
                out.append(t)
    return out


def replay(path, verbose):
    r = subprocess.run([os.path.join(BUILD, "simrun"), "replay", path] + (["-v"] if verbose else []), capture_output=True, text=True)
    sys.stdout.write(r.stdout)
    sys.stderr.write(r.stderr)
    return r.returncode


def run(cmd, limit):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return None, ""


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        build()
        rc = replay(args[1], True)
        sys.exit(1 if rc in (1, 2) else rc)
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or "1")
    t0 = time.time()
    build_s = build()
    sim_s = THOROUGH_S if tier == "thorough" else QUICK_S
    simrun = os.path.join(BUILD, "simrun")
    tmp = tempfile.mkdtemp(prefix="simchk.")
    known = known_entries(prop)
    kfile = os.path.join(tmp, "known")
    with open(kfile, "w") as f:
        for t in known:
            f.write("\t".join(t) + "\n")
    procs = []
    for i in range(SHARDS):
        procs.append(subprocess.Popen([simrun, "batch", "--prop", prop, "--seed", str(seed), "--shard", str(i), "--nshards", str(SHARDS), "--time", str(sim_s),
                                       "--out", f"{tmp}/s{i}.json", "--viol", f"{tmp}/v{i}", "--known", kfile], stderr=open(f"{tmp}/e{i}", "w")))
    # the first violation ends the search; an error of one shard does not hide a violation of another
    live = set(range(SHARDS))
    rcs = {}
    while live:
        for i in sorted(live):
            rc = procs[i].poll()
            if rc is not None:
                live.discard(i)
                rcs[i] = rc
                if rc == 1:
                    for j in live:
                        procs[j].send_signal(10)  # SIGUSR1: stop after the current run, write statistics
        time.sleep(0.05)
        if time.time() - t0 > build_s + sim_s + 120:
            for j in live:
                procs[j].kill()
    stats = []
    errors = []
    for i in range(SHARDS):
        try:
            s = json.load(open(f"{tmp}/s{i}.json"))
            stats.append(s)
            if s["rc"] == 3:
                errors.append(s["error"])
        except Exception:
            if rcs.get(i) == -10:
                continue  # stopped before its first run, because another shard had found a violation
            errors.append(f"shard {i} ended with {rcs.get(i)}: " + open(f"{tmp}/e{i}").read()[-400:])
    viol = None
    for i in range(SHARDS):
        if rcs.get(i) == 1 and os.path.exists(f"{tmp}/v{i}"):
            viol = f"{tmp}/v{i}"
            break
    line = None
    min_note = ""
    if viol:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        final = os.path.join(rdir, f"{prop}.replay")
        m_rc, m_out = run([simrun, "minimise", viol, f"{tmp}/min", "--time", "120" if tier == "thorough" else "30", "--known", kfile], 300)
        use = f"{tmp}/min" if m_rc == 0 and os.path.exists(f"{tmp}/min") else viol
        rc = run([simrun, "replay", use], 150)[0]
        if rc != 1 and use != viol:
            use = viol
            rc = run([simrun, "replay", use], 150)[0]
        if rc == 1:
            shutil.copyfile(use, final)
            min_note = next((l for l in m_out.splitlines() if l.startswith("MINIMISED")), "")
            line = f"VIOLATION property={prop} replay={final}"
        else:
            errors.append("a violation was found but its replay file did not reproduce it exactly")
    # merge
    tot, wls, strat, probes = {}, {}, {}, {}
    ilv = set()
    khits = [0] * len(known)
    for s in stats:
        for d, k in ((tot, "totals"), (wls, "workloads"), (strat, "strategies"), (probes, "probes")):
            for a, b in s[k].items():
                d[a] = d.get(a, 0) + b
        ilv.update(s["interleavings"])
        for j, h in enumerate(s["known"]):
            khits[j] += h
    runs = sum(s["runs"] for s in stats)
    sim_wall = max([s["wall"] for s in stats] or [0.001])
    sname = {"0": "random", "1": "pct", "2": "round-robin", "3": "starve-one", "4": "run-to-block"}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(ilv),
        "rule": "A case is one simulated execution: a seed gives a plan (which clients issue which requests on which system), a worker-pool size, a scheduling strategy and a fault list. "
                "It is non-trivial if more than one simulated thread lived and at least one preemption happened; two are distinct if the sequences of (thread, kind of synchronisation event) or the workloads differ.",
        "samples": [x for s in stats[:3] for x in s["samples"][:2]],
        "simulated_runs": runs,
        "repeat_and_replay_checks": sum(s["repeated_runs"] for s in stats),
        "seeds_per_hour": int(runs / max(sim_wall, 1e-3) * 3600),
        "simulated_time": "logical: %d events (%d synchronisation events); the code under test reads no clock" % (tot.get("events", 0), tot.get("sync_events", 0)),
        "faults_injected": {k: tot.get(k, 0) for k in ("preemptions", "spurious_wakeups", "alloc_failures", "thread_create_failures", "starved_choices", "runs_writer_priority", "runs_with_fault_fired")},
        "contention": {k: tot.get(k, 0) for k in ("lock_contended", "blocked", "switches")},
        "threads": {"created": tot.get("threads", 0), "max_live": max([s["max_live_threads"] for s in stats] or [0]), "runs_multithreaded": tot.get("runs_multithreaded", 0)},
        "operations": {"completed": tot.get("ops_done", 0), "failed_as_allowed": tot.get("ops_failed", 0)},
        "workloads": wls,
        "strategies": {sname.get(k, k): v for k, v in strat.items()},
        "reach_probes": probes,
        "slowest_run_s": max([s["slowest_run_s"] for s in stats] or [0]),
        "known_findings_hit": {"%s: %s" % (t[3], t[4]): h for t, h in zip(known, khits)},
        "real_code": "all of lib_moment as in the working tree, libstdc++ headers, Eigen",
        "simulated": "threads, mutexes, reader/writer locks, condition variables, futexes, once/static guards, scheduler, heap, core count",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sequentially consistent execution plus a happens-before race check that honours the C++ memory orders used",
                          "bounded plans: small systems, up to 250 threads per run"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if line else 0}
    if min_note:
        cov["minimisation"] = min_note
    if errors:
        cov["errors"] = errors[:4]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for t, h in zip(known, khits):
        print(f"KNOWN-FINDING: property={prop} {t[4]} (met {h} times in this run)")
    print(f"{prop}: {runs} runs, {len(ilv)} distinct interleavings, {tot.get('events', 0)} events, build {build_s:.1f}s, total {time.time() - t0:.1f}s")
    if line:
        sys.stdout.write(subprocess.run([simrun, "replay", final, "-v"], capture_output=True, text=True).stdout)
        print(line)
    for e in errors:
        print("ERROR:", e)
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(1 if line else 3 if errors or not runs else 0)


main()
