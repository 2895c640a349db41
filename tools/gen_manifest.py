#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the modules in sim/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "N01": "A pure function of its arguments: no schedule, clock, fault, I/O or shared state for it to depend on.",
    "N02": "A pure function of the wing description: nothing for a simulator to schedule or fail.",
    "N03": "A pure function of the wing description: nothing for a simulator to schedule or fail.",
    "N04": "A pure function of the airfoil name and the requested deflection: nothing to schedule or fail (the file-reading path is C10).",
    "N05": "A pure function of two angles: nothing for a simulator to schedule or fail.",
    "N06": "A pure function of the wing geometry: nothing for a simulator to schedule or fail.",
    "N07": "A relation between pure single solves of different inputs: input generation, not simulation; what a solve owes its history is C01, C04 and C14.",
}
TECH = "deterministic simulation with fault injection: "
INFO = {
    "C01": ("seeded crash, solve-failure and stream-failure histories of one solver object, compared with a fresh twin",),
    "C02": ("seeded line-level interleavings of real threads under a baton scheduler, compared with solo runs",),
    "C03": ("seeded runs with reruns and faults; wake invariants over the recorded history against a reference wake",),
    "C04": ("seeded runs with reruns and faults; recorded history checked against an independent reference flow model",),
    "C05": ("seeded runs over options, faults and logging; finals recomputed from the recorded history",),
    "C06": ("seeded pairs of histories that share a past and differ in their future, interrupted runs included",),
    "C07": ("seeded sequences of output operations on recording displays and files that fail part-way",),
    "C08": ("seeded searches under simulated randomness, solver failures and scripted solvers; every evaluation recorded",),
    "C09": ("seeded studies under a simulated clock, solver failures and scripted convergence; decision replayed by a reference",),
    "C10": ("seeded file-read faults: errors, short and torn reads, flipped and garbage bytes, sequences of loads",),
    "C11": ("seeded environments: clock, RNG state, hashing, streams, logging, floating-point modes, directories; before/after snapshots",),
    "C12": ("seeded generation histories with crashes, interleaved edits and shared bases against a reference kinematics",),
    "C13": ("seeded menu sessions over shuffled and polluted directory listings with failing examples",),
    "C15": ("seeded sequences of constructions, faults, edits and reads over shared parts, compared with an independent geometric reference",),
    "C16": ("seeded histories with faults repeated in one process; what the process holds and the work done compared between repetitions",),
    "C14": ("seeded sequences of solves, edits and faults over shared model objects, compared with independent twins and a reference flow model",),
}
NOTE = "Sampled executions, each exactly repeatable from its seed; evidence, not proof. Trusts the harness oracle and numpy/numba."
checks, na = [], []
for p in props:
    pid = p["id"]
    mod = os.path.join(V, "sim", "props", pid.lower() + ".py")
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif os.path.exists(mod):
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"bin/check {pid} quick",
                "thorough_cmd": f"bin/check {pid} thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH + INFO[pid][0],
                "level": "exploration",
                "level_note": NOTE,
            }
        )
    else:
        na.append({"property": pid, "reason": "Not claimed yet: its check is still being built."})
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam is one the code or the interpreter already has (line tracing, library call wrappers, streams, clocks, file layer). Replay a violation with bin/replay FILE.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
