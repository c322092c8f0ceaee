#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--runs N] [--wall S]

exit 0: the property held on every simulated run; exit 1: VIOLATION line printed;
anything else is an error of the check itself.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = os.environ.get("SIM_HASHSEED", "0")
if os.environ.get("PYTHONHASHSEED") != WANT or sys.flags.optimize or not sys.dont_write_bytecode:
    env = dict(os.environ, PYTHONHASHSEED=WANT, PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONOPTIMIZE", None)
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)
sys.path.insert(0, HERE)

from sim import runner, tiers          # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 1)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--deep", type=int, default=0, help="selftest: seeds, fresh interpreters")
    ap.add_argument("--digests", action="store_true")
    args = ap.parse_args()
    if args.digests:
        total, _ = runner.search(args.property, args.seed, args.tier, args.runs, 600, 3)
        for start, digest in sorted(total["digests"].items()):
            print(start, digest)
        return 0
    if args.selftest:
        from sim import selftest
        return selftest.main(args)
    if args.property is None:
        ap.error("which property?")
    if args.replay:
        return runner.replay(args.property, args.replay)
    return tiers.check(args)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print("ERROR of the check itself", file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
