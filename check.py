#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by deterministic simulation.

Builds the simulator from /repo's working tree, executes a fixed number of seeded runs on all cores, minimises and
replays (in a fresh process) whatever violates the property, replays the known findings and writes evidence/PROPERTY.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: violated. Anything else: error of the check.
"""
import concurrent.futures, fcntl, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
WORKERS = 8

# property -> binary, number of runs (quick, thorough), wall clock limit in s (quick, thorough), rule
RULES = {
    "hist": "One run = one seed: a synthetic media file, a history of edit/apply steps (restart or same object between them), settings and "
            "I/O granularity are drawn from the seed; after every step the result is compared with the model by an independent analyser. "
            "Non-trivial: at least one step was applied and all oracles were evaluated on its result; distinct: different hash of the "
            "complete trace of system calls and step counter.",
    "fault": "One run = one seed: a synthetic media file, one edit with settings, an undisturbed reference execution and up to four "
             "executions of the same edit with one fault scenario each (single/persistent I/O error at a chosen system call, full disk, failing "
             "allocation, cancellation at callback/system call/instruction, throwing callback, rename across devices), invariants being checked "
             "after every mutating system call (= every crash point). Non-trivial: a fault actually took effect; distinct: different hash of the "
             "complete trace of system calls and step counter.",
    "parse": "One run = one seed: a synthetic media file is corrupted/truncated in seeded ways and parsed with seeded order of parsing "
             "functions, read faults, short reads, failing allocations and cancellations under a simulated clock (steps). Non-trivial: at least one parse reached "
             "the container stage; distinct: different hash of the complete trace of system calls and step counter.",
    "damage": "One run = one seed: a synthetic media file is corrupted/truncated in seeded ways, parsed, edited and applied in a seeded writing mode, "
              "optionally with I/O errors, failing allocations, short reads or cancellation, under a simulated clock (steps) and ASan/UBSan. Non-trivial: the file "
              "could be parsed so applying took place; distinct: different hash of the complete trace of system calls and step counter.",
    "chunk": "One run = one seed: the same parse/apply is executed with full-length I/O and with seeded short transfers and interruptions. "
             "Non-trivial: at least one transfer was split or interrupted; distinct: different hash of the complete trace.",
    "threads": "One run = one seed: 2-3 threads parse/edit/apply distinct files under the cooperative scheduler, which decides at "
               "every system call and at control-flow edges who continues; compared with serial executions. Non-trivial: at least two thread "
               "switches within library code; distinct: different schedule hash.",
}
CFG = {
    "P01": ("sim", "fault", (24000, 240000)),
    "P02": ("sim", "fault", (24000, 240000)),
    "P03": ("sim", "fault", (24000, 240000)),
    "P04": ("sim-asan", "parse", (24000, 400000)),
    "P05": ("sim", "parse", (60000, 600000)),
    "P06": ("sim", "fault", (16000, 160000)),
    "P07": ("sim", "hist", (24000, 240000)),
    "P08": ("sim", "hist", (24000, 240000)),
    "P09": ("sim", "hist", (24000, 240000)),
    "P10": ("sim", "hist", (24000, 240000)),
    "P11": ("sim", "hist", (24000, 240000)),
    "P12": ("sim", "fault", (24000, 240000)),
    "P13": ("sim", "fault", (24000, 240000)),
    "P14": ("sim", "hist", (20000, 200000)),
    "P15": ("sim", "fault", (24000, 240000)),
    "P16": ("sim", "chunk", (60000, 600000)),
    "P17": ("sim", "threads", (30000, 300000)),
    "P18": ("sim", "fault", (20000, 200000)),
    "P19": ("sim", "fault", (24000, 240000)),
    "P20": ("sim", "fault", (24000, 240000)),
    "P21": ("sim-asan", "damage", (24000, 400000)),
    "P22": ("sim", "hist", (24000, 240000)),
}
WALL = {"quick": 100, "thorough": 1500}
ASSUMPTIONS = [
    "The storage behaves like a POSIX file system with atomic rename; data written before a crash of the process survives (process crash, not power loss).",
    "libstdc++ file buffers and CppUtilities are real code; only libc system call wrappers, operator new and the clock are simulated.",
    "Files are synthetic; the analyser used as oracle is independent of the library.",
]
COMPONENTS = {
    "real": ["all of tagparser (unmodified sources of /repo, instrumented with trace-pc-guard)", "libc++utilities", "libstdc++ streams and std::filesystem", "zlib"],
    "stub": ["file system below /sim (in-memory, copy on write)", "clock", "operator new failures", "thread scheduler (real threads, simulated schedule)"],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(binary):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = sh(["make", "-C", V, "-j8", "REPO=" + REPO, "B=" + BUILD, "asan" if binary == "sim-asan" else "plain"])
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        print("ERROR: build failed")
        sys.exit(2)
    return os.path.join(BUILD, binary)


def env(binary):
    e = dict(os.environ)
    e.pop("SIM_DUMP", None)
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=8192:abort_on_error=0:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    return e


def worker(args):
    exe, prop, seed, i, count, tmax = args
    return sh([exe, "--prop", prop, "--seed", str(seed), "--start", str(i), "--stride", str(WORKERS), "--count", str(count), "--tmax", str(int(tmax * 1000))], env=env(exe))


def known_findings(prop):
    res = []
    path = os.path.join(V, "KNOWN_FINDINGS.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    binary, kind, counts = CFG[prop]
    count = int(os.environ.get("SIM_COUNT", counts[0 if tier == "quick" else 1]))
    t0 = time.time()
    exe = build(binary)
    print(f"property {prop}, tier {tier}, seed {seed}, {count} runs (build took {time.time() - t0:.1f} s)")
    t1 = time.time()
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        outs = list(ex.map(worker, [(exe, prop, seed, i, count, WALL[tier]) for i in range(WORKERS)]))
    sim_s = time.time() - t1
    tot = {}
    cnt = {}
    states, hashes, viols = set(), set(), []
    for p in outs:
        if p.returncode:
            print(p.stdout[-3000:])
            print("ERROR: worker failed")
            sys.exit(2)
        for line in p.stdout.splitlines():
            t = line.split("\t")
            if t[0] == "COUNT":
                if t[1].endswith(".maxbytes") or t[1].startswith("max."):
                    cnt[t[1]] = max(cnt.get(t[1], 0), int(t[2]))
                else:
                    cnt[t[1]] = cnt.get(t[1], 0) + int(t[2])
            elif t[0] == "STATE":
                states.add(t[1])
            elif t[0] == "HASH":
                hashes.add(t[1])
            elif t[0] == "VIOL":
                viols.append({"run": int(t[1]), "raw": t[2], "prop": t[3], "cls": t[4], "msg": t[5]})
            elif t[0] in ("RUNS", "EXEC", "NONTRIVIAL", "STEPS"):
                tot[t[0]] = tot.get(t[0], 0) + int(t[1])
    viols.sort(key=lambda v: v["run"])
    status = 0
    if any(v["prop"] == "HARNESS" for v in viols):
        for v in viols:
            if v["prop"] == "HARNESS":
                print("ERROR: harness problem:", v)
        status = 2
    # known findings: replayed, reported if they are (still) there
    for replay, text in known_findings(prop):
        p = sh([exe, "--replay", os.path.join(V, replay)], env=env(exe))
        if p.returncode in (1, 3):
            print(f"KNOWN-FINDING: property={prop} {text}")
        else:
            print(f"note: the known finding \"{text}\" does not occur anymore")
    # violations: minimise one per class, replay in a fresh process
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    seen, reported, unstable = set(), [], []
    for v in viols:
        key = (v["cls"], v["msg"][:60] if v["cls"] == "crash" else "")
        if v["prop"] == "HARNESS" or key in seen or len(reported) >= 4:
            continue
        path = os.path.join(V, "replays", f"{prop}-{re.sub(r'[^a-z0-9-]', '_', v['cls'])}-{v['raw']}.replay")
        m = sh([exe, "--minimise", path, "--prop", prop, "--raw", v["raw"], "--class", v["cls"], "--budget", "20000"], env=env(exe))
        ok = m.returncode == 0
        r = sh([exe, "--replay", path], env=env(exe)) if ok else None
        if ok and r.returncode == 1:
            seen.add(key)
            reported.append((v, path, m.stdout.strip().splitlines()[-1] if m.stdout.strip() else ""))
        else:
            unstable.append(v)
    for v, path, msg in reported:
        print(f"violated ({v['cls']}): {msg or v['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
    for v in unstable:
        print("note: not reproducible, not reported:", v)
    if reported:
        status = 1
    elif unstable and status == 0:
        status = 2
    samples = []
    for i in range(2):
        p = sh([exe, "--prop", prop, "--seed", str(seed), "--run", str(i), "--trace"], env=env(exe))
        log = [l[2:].replace("\\n", "; ")[:1200] for l in p.stdout.splitlines() if l.startswith("L\t")]
        ch = dict(l.split("\t")[1:3] for l in p.stdout.splitlines() if l.startswith("K\t"))
        samples.append({"run": i, "choices": dict(list(ch.items())[:40]), "log": log[0] if log else ""})
    wall = time.time() - t0
    runs = tot.get("RUNS", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.get("EXEC", 0), "distinct_nontrivial": min(len(hashes), tot.get("NONTRIVIAL", 0)), "rule": RULES[kind], "samples": samples,
            "simulated_runs": runs, "runs_requested": count, "nontrivial_runs": tot.get("NONTRIVIAL", 0), "seeds_per_hour": int(runs / max(sim_s, 0.001) * 3600),
            "simulated_time_steps": tot.get("STEPS", 0), "distinct_traces": len(hashes),
            "distinct_states": len(states), "distinct_states_measure": "hash of scenario outcome (format, fault kind and position, outcome, mutation count / analysed result file / schedule)",
            "faults_injected": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault.")},
            "system_calls": {k[3:]: v for k, v in sorted(cnt.items()) if k.startswith("op.")},
            "counters": {k: v for k, v in sorted(cnt.items()) if not k.startswith(("fault.", "op."))},
            "components": COMPONENTS, "unreproducible": len(unstable),
        },
        "assumptions": ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print(f"{runs} runs, {tot.get('EXEC', 0)} executions, {len(hashes)} distinct traces, {len(states)} distinct states, {len(reported)} violations, {wall:.1f} s")
    if runs < count and not viols:
        print(f"note: stopped by the wall clock limit after {runs} of {count} runs")
    sys.exit(status)


if __name__ == "__main__":
    main()
