"""Seeded search: many simulated runs over all cores, minimisation, replay, evidence."""
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALARM = 90             # seconds of processor time one simulated run may take before it counts as hung
ALARM_WALL = 300       # ... and of wall clock, for a run that sleeps
CHUNK = 40
CHUNK_WALL = 420


def scenario(pid):
    from . import registry
    return registry.get(pid)


def rng_for(pid, seed, index):
    from . import gen
    return gen.dress(random.Random("%s/%d/%d" % (pid, seed, index)), index, pid)


class WallHang(BaseException):
    pass


def _alarm(signum, frame):
    raise WallHang()


def watch_clock():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(ALARM_WALL)
    signal.setitimer(signal.ITIMER_PROF, ALARM)


def stop_clock():
    signal.alarm(0)
    signal.setitimer(signal.ITIMER_PROF, 0)


def run_case(sc, case):
    """execute a case; returns a Result (harness errors propagate)"""
    from . import common, engine
    watch_clock()
    try:
        return sc.execute(case)
    except common.Violation as exc:
        res = common.Result()
        res.violation = (exc.kind, exc.detail)
        res.count("runs")
        return res
    except common.Unbuildable as exc:
        res = common.Result()
        res.count("skipped")
        if getattr(sc, "strict_build", False):
            res.violation = ("construct-fails", str(exc))
        return res
    except (WallHang, engine.SimHang) as exc:
        res = common.Result()
        res.violation = ("hang", "the run never finishes (%s)" % type(exc).__name__)
        res.count("runs")
        return res
    finally:
        stop_clock()


def generate(sc, pid, seed, index, tier):
    from . import engine
    watch_clock()
    try:
        return sc.generate(rng_for(pid, seed, index), tier)
    finally:
        stop_clock()


def ops_in(case):
    for op in case.get("ops", ()):
        if "op" in op:
            yield op["op"]


def do_chunk(pid, seed, start, n, tier):
    """runs [start, start+n) ; returns a picklable summary"""
    sc = scenario(pid)
    out = {"start": start, "stats": {}, "sigs": {}, "bad": None, "ops": set(), "samples": [],
           "digest": hashlib.sha256(), "n": 0}
    gc.collect()
    gc.disable()
    for index in range(start, start + n):
        case = generate(sc, pid, seed, index, tier)
        res = run_case(sc, case)
        out["n"] += 1
        for key, val in res.stats.items():
            out["stats"][key] = out["stats"].get(key, 0) + val
        if res.nontrivial:
            out["sigs"][res.sig] = 1
            if len(out["samples"]) < 1 and len(json.dumps(case)) < 2500:
                out["samples"].append({"run": index, "case": case})
        out["ops"].update(ops_in(case))
        out["digest"].update(res.digest().encode())
        if res.violation is not None:
            out["bad"] = (index, case, res.violation)
            break
        if index % 10 == 9:
            gc.collect()
    out["digest"] = out["digest"].hexdigest()
    return out


class Child:
    """a forked worker whose pickled result comes back through a pipe"""

    def __init__(self, fn, *args, wall=CHUNK_WALL):
        self.args = args
        rd, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(rd)
                try:
                    data = pickle.dumps(("ok", fn(*args)))
                except BaseException:
                    data = pickle.dumps(("error", traceback.format_exc()))
                with os.fdopen(wr, "wb") as pipe:
                    pipe.write(data)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(wr)
        self.fd = rd
        self.buf = []
        self.deadline = time.monotonic() + wall
        self.result = None

    def pump(self):
        """read what is there; True when finished"""
        data = os.read(self.fd, 1 << 20)
        if data:
            self.buf.append(data)
            return False
        self.finish()
        return True

    def finish(self):
        os.close(self.fd)
        _, status = os.waitpid(self.pid, 0)
        try:
            self.result = pickle.loads(b"".join(self.buf))
        except Exception:
            self.result = ("died", "worker ended with status %d" % status)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.finish()
        self.result = ("died", "killed after %d s" % CHUNK_WALL)


def in_child(fn, *args, wall=CHUNK_WALL):
    child = Child(fn, *args, wall=wall)
    while True:
        left = child.deadline - time.monotonic()
        if left <= 0:
            child.kill()
            break
        ready, _, _ = select.select([child.fd], [], [], min(left, 5))
        if ready and child.pump():
            break
    return child.result


def search(pid, seed, tier, runs, wall, workers, first=0):
    """returns (summary, bad) where bad = (index, case, violation) or None"""
    total = {"stats": {}, "sigs": set(), "ops": set(), "samples": [], "runs": 0, "errors": [],
             "digests": {}}
    bad = None
    began = time.monotonic()
    nxt = first
    stop = first + runs
    live = []
    while True:
        while (len(live) < workers and nxt < stop and bad is None and not total["errors"]
               and time.monotonic() - began < wall):
            n = min(CHUNK, stop - nxt)
            live.append(Child(do_chunk, pid, seed, nxt, n, tier))
            nxt += n
        if not live:
            break
        ready, _, _ = select.select([c.fd for c in live], [], [], 2)
        now = time.monotonic()
        for child in list(live):
            if child.fd in ready:
                if not child.pump():
                    continue
            elif now > child.deadline:
                child.kill()
            else:
                continue
            live.remove(child)
            tag, out = child.result
            if tag != "ok":
                total["errors"].append("runs from %d: %s: %s" % (child.args[2], tag, out))
                continue
            total["runs"] += out["n"]
            for key, val in out["stats"].items():
                total["stats"][key] = total["stats"].get(key, 0) + val
            total["sigs"].update(out["sigs"])
            total["ops"].update(out["ops"])
            total["digests"][out["start"]] = out["digest"]
            if len(total["samples"]) < 3:
                total["samples"] += out["samples"]
            if out["bad"] is not None and (bad is None or out["bad"][0] < bad[0]):
                bad = out["bad"]
    total["wall"] = time.monotonic() - began
    return total, bad


# ---- minimisation -----------------------------------------------------------------
def _verdict(pid, case):
    gc.disable()
    res = run_case(scenario(pid), case)
    return res.violation


def fails(pid, case, kind):
    tag, out = in_child(_verdict, pid, case, wall=ALARM_WALL + 30)
    return tag == "ok" and out is not None and out[0] == kind


def minimise(pid, case, violation, budget):
    kind = violation[0]
    sc = scenario(pid)
    deadline = time.monotonic() + budget
    case = json.loads(json.dumps(case))
    if not fails(pid, case, kind):
        return case, False
    lists = [k for k in getattr(sc, "lists", ("faults", "switches", "ops")) if case.get(k)]

    def attempt(new):
        return time.monotonic() < deadline and fails(pid, new, kind)

    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for key in lists:
            size = max(1, len(case[key]) // 2)
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(case[key]):
                    new = dict(case)
                    new[key] = case[key][:i] + case[key][i + size:]
                    if attempt(new):
                        case = new
                        changed = True
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
        for name in list(case.get("pool", ())):
            new = dict(case)
            new["pool"] = {k: v for k, v in case["pool"].items() if k != name}
            if attempt(new):
                case = new
                changed = True
    # simplify numbers
    for path in list(_numbers(case.get("pool", {}), ("pool",))) + \
            list(_numbers([op.get("args", []) for op in case.get("ops", ())], ("ops",))):
        for small in (0, 1, 2):
            old = _get(case, path)
            if old == small or time.monotonic() > deadline:
                continue
            new = json.loads(json.dumps(case))
            _set(new, path, small)
            if attempt(new):
                case = new
                break
    return case, True


def _numbers(node, path):
    if isinstance(node, bool):
        return
    if isinstance(node, (int, float)):
        yield path
    elif isinstance(node, list):
        for i, item in enumerate(node):
            yield from _numbers(item, path + (i,))
    elif isinstance(node, dict):
        for key in node:
            if key not in ("t", "r", "meth"):
                yield from _numbers(node[key], path + (key,))


def _walk(case, path):
    node = case
    keys = list(path)
    if keys[0] == "ops":
        node = case["ops"][keys[1]]["args"]
        keys = keys[2:]
    for key in keys[:-1]:
        node = node[key]
    return node, keys[-1]


def _get(case, path):
    node, key = _walk(case, path)
    return node[key]


def _set(case, path, value):
    node, key = _walk(case, path)
    node[key] = value


# ---- reporting ------------------------------------------------------------------
def report(pid, seed, tier, bad, budget=60):
    """minimise, write the replay file, confirm it in a fresh interpreter"""
    index, case, violation = bad
    small, ok = minimise(pid, case, violation, budget)
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-s%d-r%d.json" % (pid, seed, index))

    def write(mode, payload):
        record = {"property": pid, "seed": seed, "run": index, "tier": tier, "mode": mode,
                  "kind": violation[0], "detail": violation[1]}
        record.update(payload)
        with open(path, "w") as handle:
            json.dump(record, handle, indent=1)
            handle.write("\n")
        return replay_fresh(pid, path)

    if ok:
        done = write("case", {"case": small})
        if done:
            return path, done
        done = write("case", {"case": case})
        if done:
            return path, done
    # depends on what ran before it in the same process: replay the whole chunk
    start = index - index % CHUNK
    done = write("chunk", {"start": start, "n": index - start + 1, "case": case})
    return path, done


def replay_fresh(pid, path):
    cmd = [sys.executable, os.path.join(VERIF, "check.py"), pid, "--replay", path]
    env = dict(os.environ, PYTHONHASHSEED="0")
    try:
        proc = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=CHUNK_WALL)
    except subprocess.TimeoutExpired:
        return None
    for line in proc.stdout.splitlines():
        if line.startswith("REPLAYED "):
            return line[9:]
    return None


def replay(pid, path):
    with open(path) as handle:
        record = json.load(handle)
    if record["mode"] == "chunk":
        out = do_chunk(pid, record["seed"], record["start"], record["n"], record["tier"])
        violation = out["bad"][2] if out["bad"] else None
    elif record["mode"] == "process":
        violation = scenario(pid).replay_process(record)
    else:
        gc.disable()
        violation = run_case(scenario(pid), record["case"]).violation
    if violation is not None and violation[0] == record["kind"]:
        print("REPLAYED %s: %s" % (violation[0], violation[1]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("not reproduced (got %s)" % (violation,))
    return 0
