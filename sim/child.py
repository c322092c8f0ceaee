"""One session per line of a case file, in this process, with the interpreter settings
the parent chose.  Prints one digest per session and what process state changed.

usage: python [-O] -m sim.child FILE      (FILE: JSON list of {"pool", "ops"})
"""
import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import api, engine, gen, procstate, world          # noqa: E402


def main():
    with open(sys.argv[1]) as handle:
        job = json.load(handle)
    sys.path.insert(0, world.SRC)
    before = procstate.snapshot()
    import importlib
    names = [n for n, (_, pkg, _) in sorted(world.read_sources().items()) if not pkg]
    if job.get("reverse"):
        names.reverse()
    for name in names:
        importlib.import_module(name)

    from sim.scenarios.imports import Imported
    from sim.common import Runner
    w = Imported()
    out = []
    for case in job["cases"]:
        runner = Runner(w, {"pool": case["pool"], "ops": []})
        runner.serial(case["ops"])
        image = [[str(op["id"]), runner.out[op["id"]]] for op in case["ops"]
                 if not op["op"].startswith("hash")] + [sorted(runner.views().items())]
        out.append(json.dumps(image, default=repr))
    after = procstate.snapshot()
    lines = [hashlib.sha256(t.encode()).hexdigest() for t in out]
    json.dump({"digests": lines, "texts": out if job.get("texts") else None,
               "state": [c for c in procstate.changes(before, after)
                         if c not in ("path",)]}, sys.stdout)


main()
