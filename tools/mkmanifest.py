#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded random schedules"
TECH = {
    "P01": (T + " of loader processes, nodes and groups; conservation / at-most-once oracle over the delivered history", ""),
    "P02": (T + " and node drift; equality of recorded histories", ""),
    "P03": (T + ", listing orders, thread counts, hash seeds, restarts; equality of recorded histories", ""),
    "P04": (T + " with generated corpora and mixtures; reference model of chunk composition", ""),
    "P05": (T + " with concurrent catalogue operations; reference semantics of queries over the known corpus", ""),
    "P06": (T + " with crashes and disk errors; linearizability check of catalogue histories", ""),
    "P07": (T + " with crashes and disk errors in the cache writer; comparison with a fresh execution", ""),
    "P08": (T + " with checkpoint / crash / restore sequences; refinement against the uninterrupted run", ""),
    "P09": (T + " with crash points, disk errors and torn writes in the checkpoint writer; durability oracle", ""),
    "P10": (T + " of a simulated byte stream with fragmentation, stalls and truncation; value-equality oracle", ""),
    "P11": (T + " with connection resets, stalls, refusals and server crashes; completeness-or-exception oracle", ""),
    "P12": (T + " with misbehaving and crashing clients; bounded-progress and unchanged-data oracle for the others", ""),
    "P13": (T + " with crashes and failures of executions and registrations; status-versus-usability oracle", ""),
    "P14": (T + " with delayed, duplicated and reordered feedback; reference model of the schedule", ""),
    "P15": (T + " of producer and consumer threads; equality with the sequential iterator", ""),
    "P16": (T + " of the prefetch thread and the consumer; equality with the plain iterator", ""),
    "P17": (T + " of reader processes with crashes and fork failures; multiset equality with the sequential reader", ""),
    "P18": (T + " of the simulated network with faults; equality of tunnelled and local streams", ""),
    "P19": (T + " of training nodes and loader workers with whole-run crashes and restarts; refinement against the uninterrupted run", ""),
    "P20": (T + " of feedback histories with checkpoints and restores; validity invariants and refinement", ""),
}
NA = {
    "P21": "Equality, ordering and hashing of keys and ratio rounding are pure functions of their arguments: there is no schedule, clock, "
           "I/O or fault for a simulation to control. (What the system-level properties need from them is exercised through P03 and P04.)",
}


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        pid = json.loads(line)["id"]
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")) and pid in TECH:
            tech, note = TECH[pid]
            checks.append(dict(property=pid, quick_cmd=f"bash run.sh {pid} quick", thorough_cmd=f"bash run.sh {pid} thorough",
                               evidence_file=f"evidence/{pid}.json", technique=tech, level="exploration",
                               level_note=note or "Seeded search over schedules and fault sequences of the real code under the simulator; "
                               "a pass is the absence of violations in the simulated runs counted in the evidence file, not a proof. "
                               "See DESIGN.md for the components that are stubbed."))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, "Check not built yet.")))
    doc = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
