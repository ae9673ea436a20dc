#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import check
NOTE = {
    "damage": "Seeded exploration of applying changes to corrupted inputs with faults under ASan/UBSan with limits on simulated time, memory and written data. Samples, does not enumerate.",
    "fault": "Seeded exploration of fault sequences and crash points over synthetic files; every mutating system call of every run is a crash point at which the invariant is evaluated. Trusts the simulated file system (POSIX semantics, process crash) and the independent analyser.",
    "hist": "Seeded exploration of edit histories over synthetic files with an independent analyser and a reference model of the tags as oracle. Samples, does not enumerate.",
    "parse": "Seeded exploration of corrupted inputs, read faults and allocation failures under ASan/UBSan with limits on simulated time and memory. Samples, does not enumerate.",
    "chunk": "Seeded exploration of transfer granularity and interruptions, compared with full-length transfers. Samples, does not enumerate.",
    "threads": "Seeded exploration of interleavings at system calls and control-flow edges by a cooperative scheduler, compared with serial execution. Sequentially consistent interleavings only (no weak memory).",
}
TECH = {
    "damage": "deterministic simulation: seeded corruption and fault injection while applying under ASan/UBSan and a step clock",
    "fault": "deterministic simulation: seeded fault injection with crash-point invariants",
    "hist": "deterministic simulation: seeded histories with restarts against a reference model",
    "parse": "deterministic simulation: seeded corruption, read/allocation faults and cancellation under ASan/UBSan and a step clock",
    "chunk": "deterministic simulation: seeded short I/O and EINTR schedules, differential",
    "threads": "deterministic simulation: seeded thread schedules, differential against serial execution",
}
NA = {
    "N01": "pure function of well-formed file content: no schedule, fault, crash or history is involved, so simulation would only be input generation",
    "N02": "pure value conversion without I/O, time or concurrency; nothing for a simulator to schedule or inject",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in check.CFG:
        k = check.CFG[p][1]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough", "technique": TECH[k], "level": "exploration", "level_note": NOTE[k]})
    else:
        na.append({"property": p, "reason": NA.get(p, "not claimed yet: the check is still being built")})
m = {"version": 1, "setup_cmd": "make -j8 plain asan", "hooks": {"guard": "TAGPARSER_SIMULATION", "enable": "no hooks were needed: the simulator interposes libc, operator new and the clock; the guard is unused", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. KNOWN_FINDINGS.txt lists repaired and known defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
