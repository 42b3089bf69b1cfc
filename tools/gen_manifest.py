#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED: properties with a working check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE_NOTE = ("Seeded search over interleavings (scheduling points at every basic block edge, load and store of poseidon-base, "
             "once_cell and lazy_static), blocking, stalls, permanent stops, spurious wake-ups and panics, one forked process per run; "
             "every result compared with an independent Poseidon model checked against a published vector. Assumes sequential consistency "
             "(no weak-memory reordering) and trusts halo2curves arithmetic. A run that finds nothing is evidence, not proof.")
CIRC_NOTE = ("Seeded search, one forked process per run, over tables, configurations, CPU counts, worker pools, schedules and faults; the whole of "
             "poseidon-circuit and poseidon-base is real code built from /repo, on a simulated constraint backend (crates/halo2_shim: halo2_proofs is not "
             "available offline), so it assumes that backend behaves as halo2_proofs does at the API the library uses. A run that finds nothing is evidence, not proof.")
BYZ_NOTE = (" The byzantine prover pins altered witness cells and repairs the rest by seeded constraint propagation with random guesses; every accepted "
            "witness is verified independently before it is judged. It is an incomplete solver: a forgery it cannot complete is not proof that none exists.")
CLAIMED = {
    "C01": ("exploration", BASE_NOTE),
    "C02": ("exploration", BASE_NOTE),
    "C03": ("exploration", BASE_NOTE),
    "C04": ("exploration", BASE_NOTE + " Progress is judged in the caller's own steps against a bound calibrated on the tree under test."),
    "C05": ("exploration", BASE_NOTE),
    "C06": ("exploration", CIRC_NOTE),
    "C07": ("exploration", CIRC_NOTE),
    "C08": ("exploration", CIRC_NOTE),
    "C09": ("exploration", CIRC_NOTE + BYZ_NOTE),
    "C10": ("exploration", CIRC_NOTE + BYZ_NOTE),
    "C11": ("exploration", CIRC_NOTE),
    "C12": ("exploration", CIRC_NOTE),
    "C13": ("exploration", CIRC_NOTE),
}
PURE = {
    "C20": "pure function of its arguments: no schedule, time, fault or history can change it, so simulation decides nothing about it (C01-C03 compare the digests they see with an independent model, but over sampled arguments)",
    "C21": "pure function of type parameters, computed without any nondeterminism; C02 compares the parameters in use with an independent generator",
    "C22": "a statement about how arguments are encoded, pure and without nondeterminism",
    "C23": "fixed at build time by feature selection: there is no run whose schedule or faults could matter",
}
LATER = {}
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in CLAIMED:
        lvl, note = CLAIMED[p]
        checks.append({
            "property": p,
            "quick_cmd": f"bin/check {p} quick",
            "thorough_cmd": f"bin/check {p} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over thread schedules and faults, fork per run, recorded replay",
            "level": lvl,
            "level_note": note,
        })
    else:
        na.append({"property": p, "reason": PURE.get(p) or LATER.get(p) or "not claimed yet: its simulator is still being built"})
m = {
    "version": 1,
    "setup_cmd": "bin/build basesim" + (" && bin/build circsim" if any(c > "C05" for c in CLAIMED) else ""),
    "checks": checks,
    "not_applicable": na,
    "notes": "Replay a reported violation with: bin/check --replay <file>. No hooks in /repo: the scheduler's seams are compiler-inserted scheduling points and interposed libc calls.",
}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
