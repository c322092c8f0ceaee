"""writes MANIFEST.json; run with python3-vt (validates against the schema)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded sampling, not proof. Real library code from the working tree runs under a scheduler "
        "that owns thread choice, fault points, clock, randomness and id(); assumes one thread runs "
        "at a time (GIL) and faults arrive at bytecode boundaries of library code. ")
TECH = {
    "C01": ("deterministic simulation of caller threads preempted inside library calls, checked "
            "against the serial run in start order", "Oracle: exact serial re-execution."),
    "C02": ("deterministic simulation with exceptions injected inside calls, checked against the "
            "history without the aborted calls", "Oracle: exact re-execution without them."),
    "C03": ("deterministic simulation of independent sessions with preemption and tear-down, each "
            "checked against itself alone in a pristine instance", "Oracle: exact solo run."),
    "C04": ("simulated multi-holder histories with injected faults and deliberate edits of every "
            "argument and result, checking that nothing else moves",
            "Oracle: views of all other objects before and after."),
    "C05": ("simulated edit/query histories with interleaving and interrupted queries, each call "
            "compared with rebuilt objects in a pristine instance",
            "Oracle: rebuilt objects, tolerance 1e-9, nearby answers accepted at discontinuities."),
    "C06": ("deterministic simulation cutting edits short at a chosen instruction, then repair and "
            "comparison with new objects", "Oracle: newly built objects in a pristine instance."),
    "C07": ("simulated hull life cycles with interleaving and interrupted computations, against an "
            "exact rational hull", "Points on a dyadic grid in general position."),
    "C08": ("simulated multi-caller histories with faults, refinement of a reference model step by "
            "step", "Model: rectangle as four numbers, tolerance 1e-9."),
    "C09": ("simulated multi-caller histories with faults, refinement of a reference model step by "
            "step", "Model: degrees modulo full turns, tolerance 1e-9."),
    "C10": ("simulated multi-caller histories with faults, refinement of a reference model step by "
            "step", "Model: 3x3 affine matrices, tolerance 1e-9."),
    "C11": ("simulated multi-caller histories with faults, refinement of a reference model step by "
            "step", "Model: coordinate pair and validity flag."),
    "C12": ("simulated interleaved consumption of streams with preemption, close, tear-down and "
            "aborts, against exact rational streams", "Streams whose length does not hinge on "
            "rounding."),
    "C13": ("simulated imports in seeded orders through the real import system, cut short at chosen "
            "instructions and retried", "Threads importing at the same time are not simulated."),
    "C14": ("the same simulated session under seeded ambient settings (clock, randomness, "
            "allocation, threads, history) and in processes with other interpreter settings",
            "Oracle: exact transcripts, process-state snapshots."),
    "C15": ("simulated multi-caller histories with faults, refinement of a reference model step by "
            "step", "Model: exact vertex list."),
    "C25": ("simulated multi-caller histories with faults, refinement of a reference model step by "
            "step", "Model: defining numbers of the shape, tolerance 1e-9."),
    "C26": ("simulated histories with saves, crash and restart in a pristine instance (last save "
            "sometimes lost), checked against the history that never crashed",
            "Oracle: exact re-execution. Storage is a stub that keeps or loses whole saves."),
}
PURE = ("pure function of its arguments: no schedule, clock, fault or history in it, so simulation "
        "would only be input generation; ")
NA = {
    "C16": PURE + "needs input-space testing or numeric proof of the intersection formulas",
    "C17": PURE + "needs input-space testing or numeric proof of the distance formulas",
    "C18": PURE + "needs input-space testing of containment against the geometry",
    "C19": PURE + "needs algebraic checking of the centre formulas",
    "C20": PURE + "needs input-space testing of the cyclic order relations",
    "C21": PURE + "needs algebraic checking of the motion series",
    "C22": PURE + "needs input-space testing of the clipping algorithm",
    "C23": PURE + "needs input-space testing of equality and hash",
    "C24": PURE + "needs numeric checking of vector identities",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as handle:
        ids = [json.loads(line)["id"] for line in handle]
    checks = []
    for pid in ids:
        if pid in NA:
            continue
        tech, note = TECH[pid]
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": tech,
                       "level": "exploration", "level_note": NOTE + note})
    record = {"version": 1, "setup_cmd": "python3 -B -c \"import sim.tiers, sim.registry\"", "checks": checks,
              "not_applicable": [{"property": p, "reason": NA[p]} for p in ids if p in NA],
              "notes": "No hooks in /repo: preemption, fault, clock, randomness, identity and "
                       "import seams are reached through sys.monitoring and a private "
                       "__import__/builtins, so the shipped code runs unmodified."}
    import jsonschema
    with open("/root/.vp/MANIFEST.schema.json") as handle:
        jsonschema.validate(record, json.load(handle))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as handle:
        json.dump(record, handle, indent=1)
        handle.write("\n")


main()
