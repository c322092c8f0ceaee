"""check.py --selftest: the machinery itself works here, and runs repeat exactly.

A few seeded runs of every scenario are executed in this process, again in forked workers
in another order, and (--deep) in fresh interpreters under another hash seed; the digests of
their event logs must agree.
"""
import os
import subprocess
import sys

from . import registry, runner, world


def digests(pid, seed, starts, tier="quick"):
    out = {}
    for start in starts:
        tag, res = runner.in_child(runner.do_chunk, pid, seed, start, runner.CHUNK, tier)
        if tag != "ok":
            raise RuntimeError("%s %d: %s" % (pid, start, res))
        out[start] = res["digest"]
    return out


def main(args):
    world.World(True)
    world.World(False)
    pids = [args.property] if args.property else sorted(registry.WHERE)
    chunks = max(1, (args.runs or runner.CHUNK) // runner.CHUNK)
    starts = [i * runner.CHUNK for i in range(chunks)]
    bad = 0
    for pid in pids:
        seeds = [args.seed] if not args.deep else [args.seed + i for i in range(args.deep)]
        for seed in seeds:
            first = digests(pid, seed, starts)
            again = digests(pid, seed, list(reversed(starts)))
            total, _ = runner.search(pid, seed, "quick", chunks * runner.CHUNK, 600, args.workers)
            wide = {k: v for k, v in total["digests"].items()}
            other = first
            if args.deep:
                env = dict(os.environ, SIM_HASHSEED=str(seed + 17))
                text = subprocess.run(
                    [sys.executable, os.path.join(runner.VERIF, "check.py"), pid, "--digests",
                     "--seed", str(seed), "--runs", str(chunks * runner.CHUNK)],
                    capture_output=True, text=True, env=env).stdout
                other = {int(line.split()[0]): line.split()[1] for line in text.splitlines()
                         if len(line.split()) == 2}
            for start in starts:
                seen = {first[start], again[start], wide.get(start), other.get(start)}
                if len(seen) != 1:
                    bad += 1
                    print("%s seed %d runs from %d do not repeat: %s" % (pid, seed, start, seen))
    print("selftest: %d scenarios, %d runs each, %s" % (
        len(pids), chunks * runner.CHUNK, "not repeatable" if bad else "repeatable"))
    return 2 if bad else 0
