"""What the registered commands do: search budgets per tier, evidence."""
import json
import os
import time

from . import runner, world

# (runs, wall cap in seconds)
QUICK = {"default": (40000, 200), "C01": (32000, 200), "C02": (36000, 200), "C03": (28000, 200),
         "C05": (32000, 200), "C06": (24000, 200), "C07": (24000, 200), "C13": (32000, 200),
         "C14": (20000, 200), "C15": (28000, 200)}
THOROUGH = {"default": (600000, 840)}

REAL = ["every module of pyrusgeom, compiled from /repo's working tree"]
STUB = ["scheduler choice of the running thread (real threads, one at a time, switched at "
        "library bytecode instructions)",
        "threading.Lock/RLock, time, random, id() and import as seen by library code",
        "standard output (swallows text or fails with EPIPE)"]


def check(args):
    began = time.monotonic()
    pid, tier, seed = args.property, args.tier, args.seed
    table = QUICK if tier == "quick" else THOROUGH
    runs, wall = table.get(pid, table["default"])
    if args.runs:
        runs = args.runs
    if args.wall:
        wall = args.wall
    world.read_sources()
    sc = runner.scenario(pid)
    failed_to_load = None
    try:
        if hasattr(sc, "prepare"):
            sc.prepare()
        world.World(True)
        world.World(False)
    except BaseException as exc:          # the library does not even load
        failed_to_load = repr(exc)
    if failed_to_load:
        raise RuntimeError("library does not load: " + failed_to_load)
    print("seed %d tier %s property %s" % (seed, tier, pid), flush=True)
    total, bad = runner.search(pid, seed, tier, runs, wall, args.workers, args.first)
    extra = sc.extra(args, total) if bad is None and hasattr(sc, "extra") else None
    code, confirmed, path = 0, None, None
    if bad is not None:
        path, confirmed = runner.report(pid, seed, tier, bad)
        code = 1
    elif extra and extra.get("bad"):
        path, confirmed = extra["path"], extra["bad"]
        code = 1
    took = time.monotonic() - began
    if not args.no_evidence:
        evidence(pid, tier, seed, sc, total, took, 1 if code else 0, extra)
    print("runs %d, distinct %d, steps %d, preemptions %d, faults %s, %.1f s" % (
        total["runs"], len(total["sigs"]), total["stats"].get("steps", 0),
        total["stats"].get("preemptions", 0),
        {k[6:]: v for k, v in sorted(total["stats"].items()) if k.startswith("fault.")}, took))
    if code:
        if bad is not None:
            print("run %d: %s: %s" % (bad[0], bad[2][0], bad[2][1]))
        print("replay in a fresh process: %s" % (confirmed or "did not reproduce"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if total["errors"]:
        for text in total["errors"][:3]:
            print(text)
        return 2
    if total["runs"] == 0:
        print("no run finished")
        return 2
    return 0


def evidence(pid, tier, seed, sc, total, took, violations, extra):
    stats = total["stats"]
    wall = max(total["wall"], 1e-9)
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(total["sigs"]),
        "rule": getattr(sc, "rule", "a run is non-trivial when at least one preemption inside a "
                        "library call or one injected fault actually happened; two runs are the "
                        "same when the sequence (call kind, instruction index, switch or fault) "
                        "is the same"),
        "samples": total["samples"][:3],
        "runs_per_hour": round(total["runs"] / wall * 3600),
        "seeds_per_hour": round(total["runs"] / wall * 3600),
        "simulated_library_instructions": stats.get("steps", 0),
        "simulated_time_s": round(stats.get("steps", 0) * 1e-6, 6),
        "simulated_calls": stats.get("ops", 0),
        "preemptions_inside_calls": stats.get("preemptions", 0),
        "faults_fired": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")},
        "probes": {k: v for k, v in sorted(stats.items())
                   if not k.startswith("fault.") and k not in ("runs", "steps", "ops",
                                                               "preemptions")},
        "api_calls_exercised": len(total["ops"]),
        "components_real": REAL,
        "components_stubbed": STUB,
    }
    if extra:
        cov.update(extra.get("coverage", {}))
    record = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": cov, "wall_s": round(took, 3), "violations": violations,
              "assumptions": getattr(sc, "assumptions", [
                  "one thread runs library code at a time (the GIL); preemption between any two "
                  "bytecode instructions of the library",
                  "faults arrive as Python exceptions at bytecode boundaries of the library"])}
    folder = os.path.join(runner.VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    tmp = os.path.join(folder, pid + ".json.tmp")
    with open(tmp, "w") as handle:
        json.dump(record, handle, indent=1)
        handle.write("\n")
    os.replace(tmp, os.path.join(folder, pid + ".json"))
