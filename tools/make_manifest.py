"""Writes MANIFEST.json from properties.jsonl and sim/meta.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.meta import META  # noqa: E402

NA = {
    "N01": "Reads off one number per variable, and the tests pin P = -M, so it is not what the code gives; no schedule, fault, time or I/O takes part. That summaries and samples agree with each other and with the belief's variances is C18.",
    "N02": "A pure function from a data frame or dictionary to a network: nothing the simulator controls can change its result. (A defect met on the way was repaired.)",
    "N03": "Pure functions on potentials; no nondeterminism for a schedule or fault to act on. Their use in propagation is decided end to end by C01 to C04.",
    "N04": "Pure graph functions of their arguments; which result is right is a question of inputs only. That the result is the same in every process is C13.",
    "N05": "Pure rendering of a network into another representation. That it disturbs nothing and is stable under concurrent use is C11.",
}
TECH = {
    "C01": "deterministic simulation: seeded histories and message orders against brute-force enumeration",
    "C02": "deterministic simulation with fault injection: crash points inside evidence updates, all-or-nothing model",
    "C03": "deterministic simulation: seeded thread schedules and interleavings against per-caller models",
    "C04": "deterministic simulation: seeded edit histories, visiting orders and interrupted builds against the definition of a join tree",
    "C05": "deterministic simulation with fault injection: simulated file system and process restarts, refinement to identity",
    "C06": "deterministic simulation with fault injection: crashes, power loss, full disks and concurrent readers on saved files",
    "C07": "deterministic simulation with fault injection: scripted hostile random source",
    "C08": "deterministic simulation: seeded sampling runs tested statistically against the exact distribution",
    "C09": "deterministic simulation: seeded thread schedules against foreign users of the random sources",
    "C10": "deterministic simulation with fault injection: scripted hostile random source",
    "C11": "deterministic simulation: seeded thread schedules of read-only calls, checked against solo answers",
    "C12": "deterministic simulation with fault injection: histories, interruptions and schedules against truncated factorisation",
    "C13": "deterministic simulation: permuted hash orders and processes with other hash seeds, compared with one another",
    "C14": "deterministic simulation with fault injection: edit histories cut short and repeated, against a graph model",
    "C15": "deterministic simulation with fault injection: derived trees with cuts and restarts, against brute force",
    "C16": "deterministic simulation with fault injection: branching histories, schedules and cuts against closed-form conditioning",
    "C17": "deterministic simulation with fault injection: families of copies under edits, cuts and schedules, against one model per member",
    "C18": "deterministic simulation with fault injection: seeded schedules, cuts and a shared random source; samples tested against their distribution",
    "C19": "deterministic simulation with fault injection: seeded schedules of savers and loaders over a simulated file system",
}
checks = []
for p, m in META.items():
    checks.append({
        "property": p, "quick_cmd": f"/opt/venv/bin/python run.py {p} --tier quick", "thorough_cmd": f"/opt/venv/bin/python run.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "exploration",
        "level_note": "Seeded search, no proof: " + str(m["runs"]["quick"]) + " simulated runs (quick). Real: pybbn, numpy. Simulated: " + "; ".join(m["stub"])
                      + ". Trusts the oracle (sim/nets.py and sim/scen/" + p.lower() + ".py)."})
out = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m sim.selftest", "checks": checks,
       "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
       "notes": "No hooks in /repo: all seams are installed at run time by the simulator (sys.settrace, io, numpy.random, set, threading locks). "
                "A violation's replay file is run again with: /opt/venv/bin/python replay.py <path>."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
