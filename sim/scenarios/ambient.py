"""C14: results do not depend on the state of the process, nor do calls change it."""
import decimal
import gc
import json
import logging
import os
import random
import subprocess
import sys
import tempfile
import threading
import warnings

from .. import api, engine, gen, procstate, runner as _runner, world
from ..common import (QUERY_FAULTS, Result, Runner, Violation, brief, count_run, note_sim,
                      signature)
from .shared import CROWD_OPS, check_hang, crowd, deluge, letters, make_ops, themed_table

SETTINGS = ["rand", "clock", "gc", "opt", "order", "threads", "history", "env", "alive", "depth", "again",
            "ids", "cwd", "argv", "decimal", "trace", "limit", "quiet", "tty",
            "log", "profile", "switch", "digits", "company", "warn"]

AGED_EVERY = 30


class Loud(dict):
    """an environment in which every variable anybody asks for is set"""

    def __init__(self, value):
        super().__init__(os.environ)
        self.value = value

    def __missing__(self, key):
        return self.value

    def get(self, key, default=None):
        return dict.get(self, key, self.value)

    def __contains__(self, key):
        return True


class LoudList(list):
    """a command line on which every option anybody looks for is given"""

    def __contains__(self, item):
        return True


class Circumstances:
    """process-wide settings of the interpreter, put back afterwards"""

    def __init__(self, on, r):
        self.on, self.r = on, r

    def __enter__(self):
        on, r = self.on, self.r
        self.gc = gc.isenabled()
        gc.enable()
        if "quiet" in on:
            gc.disable()
        if "tty" in on:                      # standard output is a terminal
            engine.STDOUT.terminal = True
        if "cwd" in on:
            self.cwd = os.getcwd()
            os.chdir(r.choice(["/", "/tmp", os.path.dirname(world.SRC)]))
        if "argv" in on:
            self.argv = sys.argv
            sys.argv = LoudList(["prog", "-v", "--debug", "test"])
        if "decimal" in on:
            self.decimal = decimal.getcontext().copy()
            decimal.getcontext().prec = r.choice([3, 6, 60])
        if "trace" in on:
            sys.settrace(lambda *a: None)
        if "limit" in on:
            self.limit = sys.getrecursionlimit()
            sys.setrecursionlimit(r.choice([1700, 4321]))
        if "log" in on:                      # the application logs everything, to nowhere
            self.level = logging.root.level
            self.sink = logging.NullHandler()
            logging.root.addHandler(self.sink)
            logging.root.setLevel(logging.DEBUG)
        if "profile" in on:
            sys.setprofile(lambda *a: None)
        if "switch" in on:
            self.switch = sys.getswitchinterval()
            sys.setswitchinterval(r.choice([0.0005, 0.05]))
        if "digits" in on:
            self.digits = sys.get_int_max_str_digits()
            sys.set_int_max_str_digits(r.choice([0, 640]))
        if "warn" in on:
            self.warn = warnings.catch_warnings(record=True)
            self.warn.__enter__()
            warnings.simplefilter(r.choice(["ignore", "always"]))
        if "company" in on:                  # other threads exist and sleep
            self.door = threading.Event()
            self.company = [threading.Thread(target=self.door.wait, daemon=True)
                            for _ in range(r.choice([1, 5]))]
            for t in self.company:
                t.start()

    def __exit__(self, *exc):
        on = self.on
        engine.STDOUT.terminal = False
        if "company" in on:
            self.door.set()
            for t in self.company:
                t.join()
        if "warn" in on:
            self.warn.__exit__(None, None, None)
        if "digits" in on:
            sys.set_int_max_str_digits(self.digits)
        if "switch" in on:
            sys.setswitchinterval(self.switch)
        if "profile" in on:
            sys.setprofile(None)
        if "log" in on:
            logging.root.removeHandler(self.sink)
            logging.root.setLevel(self.level)
        if "trace" in on:
            sys.settrace(None)
        if "limit" in on:
            sys.setrecursionlimit(self.limit)
        if "decimal" in on:
            decimal.setcontext(self.decimal)
        if "argv" in on:
            sys.argv = self.argv
        if "cwd" in on:
            os.chdir(self.cwd)
        (gc.enable if self.gc else gc.disable)()


def deep(n, fn):
    return fn() if n == 0 else deep(n - 1, fn)


def alike(a, b):
    return a.keys() == b.keys() and all(api.same(a[k], b[k]) for k in a)


class C14:
    pid = "C14"
    title = "ambient state"
    rule = ("a run is non-trivial when at least one ambient setting differs from the reference "
            "execution; two runs are the same when the settings, the calls and the fault points "
            "are the same")
    lists = ("settings", "faults", "history", "switches", "ops")

    def survey(self, r):
        """many calls of one kind under many settings; the kinds take turns"""
        some = crowd(r, r.index // 3, r.choice([30, 60, 90]), prefix="s")
        settings = r.sample(SETTINGS, r.choice([4, 10, 20]))
        settings = [s for s in settings if s not in ("history", "again")]
        n = 2 if "threads" in settings else 1
        ops = [dict(op, task=0, home=op["id"] % n) for op in some["ops"]]
        return {"pool": some["pool"], "ops": ops, "settings": settings, "ntasks": n,
                "seed": r.randrange(1 << 30), "switches": [], "faults": [], "history": []}

    def aged(self, r):
        """a few calls in a process that has made thousands of the kind; the kinds take turns"""
        turn = r.index // AGED_EVERY
        kind = CROWD_OPS[turn % len(CROWD_OPS)]
        some = crowd(r, turn, 120, prefix="s", style="each")
        n = 1500 if "H" in kind.args else r.choice([2500, 12000])
        return {"pool": some["pool"], "ops": [dict(op, task=0) for op in some["ops"]],
                "settings": ["past"], "ntasks": 1, "seed": r.randrange(1 << 30), "switches": [],
                "faults": [], "history": [], "past": [[kind.id], n, r.randrange(1 << 30)]}

    def generate(self, r, tier):
        if r.index % AGED_EVERY == 7:
            return self.aged(r)
        if r.index % 3 == 0:
            return self.survey(r)
        pool = gen.pool_specs(r, r.randint(2, 5))
        table = themed_table(r, api.OPS)
        ops, nid = make_ops(r, letters(pool), 1, r.choice([3, 6, 10]), table, edits=0.35)
        settings = r.sample(SETTINGS, r.choice([1, 2, 4, 7, 12]))
        case = {"pool": pool, "ops": ops, "settings": settings, "seed": r.randrange(1 << 30),
                "ntasks": 1, "switches": [], "faults": [], "history": []}
        if "threads" in settings:
            case["ntasks"] = n = r.choice([2, 3])
            for op in ops:
                op["home"] = r.randrange(n)
        if "again" in settings:
            case["again"] = n = r.choice([2, 12, 70, 300, 1100])
            if n > 12:
                del ops[max(1, 60 // n):]
        if "history" in settings:
            hpool = gen.pool_specs(r, r.randint(1, 3))
            case["hpool"] = {"h" + k: v for k, v in hpool.items()}
            if r.random() < 0.5:      # the same kind of calls on the same values
                case["hpool"].update({"h" + k: v for k, v in list(pool.items())[:3]})
            case["history"], _ = make_ops(r, letters(case["hpool"]), 1, r.choice([2, 5, 9]),
                                          table, edits=0.35, first_id=nid, prefix="g")
            counts, _ = count_run({"pool": case["hpool"], "ops": case["history"]})
            if r.random() < 0.25 and ops:
                # a long past: many calls of one of the kinds made now
                kinds = [api.BY_ID[op["op"]] for op in ops]
                soak = crowd(r, r.randrange(len(kinds)), r.choice([40, 150, 520, 1030]),
                             first_id=nid, prefix="h", table=kinds)
                case["hpool"], case["history"] = soak["pool"], [
                    dict(op, task=0) for op in soak["ops"]]
            elif r.random() < 0.5:
                case["faults"] = gen.place(r, counts, case["history"], r.choice([1, 2]),
                                           kinds=QUERY_FAULTS)
        return case

    def execute(self, case):
        res = Result()
        try:
            self.compare(case, res)
        except Violation as v:
            res.violation = (v.kind, v.detail)
            res.count("runs")
        signature(res, case, ",".join(case["settings"]) +
                  "/".join(op["op"] for op in case["history"] + case["ops"]))
        return res

    def compare(self, case, res):
        os.environ["LC_ALL"] = "C.UTF-8"        # the locale a careless setlocale would pick
        pool = dict(case["pool"])
        # the reference: nothing special
        with Circumstances((), None):
            ref = self.reference(case, pool)
        on = set(case["settings"])
        r = random.Random(case["seed"])
        with Circumstances(on, r):
            self.again(case, pool, res, ref, on, r)

    def reference(self, case, pool):
        w0 = world.World(False)
        ref = Runner(w0, {"pool": pool, "ops": []})
        before = procstate.snapshot(w0)
        ref.serial(case["ops"])
        moved = procstate.changes(before, procstate.snapshot(w0))
        if moved:
            raise Violation("process-state", "calls %s changed: %s" % (
                [op["op"] for op in case["ops"]], ", ".join(moved)))
        return ref

    def again(self, case, pool, res, ref, on, r):
        """the same session under other circumstances"""
        order = None
        if "order" in on:
            order = sorted(world.read_sources())
            r.shuffle(order)
        w = world.World(bool(case["history"]) and "opt" not in on, order=order,
                        seed=r.getrandbits(32) if "rand" in on else 0,
                        optimize=r.choice([1, 2]) if "opt" in on else 0,
                        environ=Loud(r.choice(["1", "0", "debug"])) if "env" in on else None,
                        ids=r.getrandbits(30) if "ids" in on else None)
        if "clock" in on:
            w.clock.jump(r.choice([-1e9, -3600, 0.5, 86400 * 365, 1e9]))
        if case["history"] and "history" in on:
            h = Runner(w, {"pool": case["hpool"], "ops": case["history"]})
            sim = h.simulate(ops=case["history"], locked=False, switches=(),
                             faults=case["faults"] if "opt" not in on else (), ntasks=1)
            check_hang(h)
            note_sim(res, sim)
        else:
            res.count("runs")
        if "past" in on:
            kinds, n, seed = case["past"]
            res.count("past_calls", deluge(w, [api.BY_ID[k] for k in kinds], n, seed))
        live = Runner(w, {"pool": pool, "ops": []})
        keep = []

        def ambient(op, phase):
            if phase == 0:
                if "clock" in on:
                    w.clock.jump(r.choice([-1000.0, 1e-9, 0.02, 5, 3600]))
                if "gc" in on and (len(case["ops"]) < 12 or r.random() < 0.06):
                    gc.collect()
                if "rand" in on:
                    w.rand.random()
            elif "alive" in on:
                keep.append(live.value.get(op["id"]))

        live.observe = ambient
        before = None
        if "rand" not in on and not case["faults"]:
            before = procstate.snapshot(w)
        if "threads" in on:
            n = case["ntasks"]
            # hand the session from thread to thread, call by call
            ops = [dict(op, task=op.get("home", 0) % n) for op in case["ops"]]
            self.relay(live, ops, n)
        elif "depth" in on:
            deep(r.choice([50, 200]), lambda: live.serial(case["ops"]))
        else:
            live.serial(case["ops"])
        views = ref.views()
        for turn in range(case.get("again", 0) if "again" in on else 0):
            # and again, with new objects
            more = Runner(w, {"pool": pool, "ops": []})
            if "alive" in on:
                keep.append(more)
            more.serial(case["ops"])
            if not alike(more.out, ref.out) or not alike(more.views(), views):
                raise Violation("depends", "%s: %s, repeated %d times %s" % (
                    [op["op"] for op in case["ops"]], brief(sorted(ref.out.items())), turn + 1,
                    brief(sorted(more.out.items()))))
        if before is not None:
            moved = procstate.changes(before, procstate.snapshot(w))
            if moved:
                raise Violation("process-state", "calls %s changed: %s" % (
                    [op["op"] for op in case["ops"]], ", ".join(moved)))
        for op in case["ops"]:
            a, b = ref.out[op["id"]], live.out[op["id"]]
            if not api.same(a, b):
                raise Violation("depends", "%s: %s, with %s changed %s" % (
                    op["op"], brief(a), ", ".join(sorted(on)), brief(b)))
        va, vb = ref.views(), live.views()
        for name in va:
            if not api.same(va[name], vb.get(name)):
                raise Violation("depends", "object %s: %s, with %s changed %s" % (
                    name, brief(va[name]), ", ".join(sorted(on)), brief(vb.get(name))))
        res.nontrivial = True
        for s in on:
            res.count("setting." + s)
        res.count("ops", len(case["ops"]) * 2)
        res.events.append(["out", {str(k): v for k, v in sorted(live.out.items())}, vb])

    def relay(self, live, ops, n):
        """ops in their order, each on the thread named by its task"""
        import threading
        done = []
        batons = [threading.Semaphore(0) for _ in range(n)]
        finished = threading.Semaphore(0)
        errors = []

        def body(t):
            while True:
                batons[t].acquire()
                if not done:
                    return
                op = done[0]
                try:
                    live.perform(op, lambda fn: fn())
                except BaseException as exc:
                    errors.append(exc)
                finished.release()

        threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for th in threads:
            th.start()
        with engine.captured_stdout():
            for op in ops:
                done[:] = [op]
                batons[op["task"]].release()
                finished.acquire()
        done.clear()
        for b in batons:
            b.release()
        for th in threads:
            th.join()
        if errors:
            raise errors[0]

    # -- whole processes under other interpreter settings -----------------------
    CONFIGS = [
        {"name": "plain", "env": {"PYTHONHASHSEED": "0"}, "flags": []},
        {"name": "hash seed 1", "env": {"PYTHONHASHSEED": "1"}, "flags": []},
        {"name": "hash seed 424242", "env": {"PYTHONHASHSEED": "424242"}, "flags": []},
        {"name": "-O", "env": {"PYTHONHASHSEED": "7"}, "flags": ["-O"]},
        {"name": "-OO, reverse import order", "env": {"PYTHONHASHSEED": "99"}, "flags": ["-OO"],
         "reverse": True},
        {"name": "other time zone, C locale", "env": {"PYTHONHASHSEED": "3", "LC_ALL": "C",
                                                      "TZ": "Asia/Kolkata"}, "flags": []},
        {"name": "debug allocator", "env": {"PYTHONHASHSEED": "5", "PYTHONMALLOC": "debug"},
         "flags": []},
        {"name": "reverse import order", "env": {"PYTHONHASHSEED": "12"}, "flags": [],
         "reverse": True},
        {"name": "development mode, in /, options given", "cwd": "/",
         "argv": ["-v", "--debug", "--test"], "flags": ["-X", "dev"],
         "env": {"PYTHONHASHSEED": "31", "LC_ALL": "C.UTF-8", "DEBUG": "1", "CI": "1"}},
    ]

    def launch(self, config, cases, texts=False):
        with tempfile.TemporaryDirectory(prefix="sim-ambient-") as folder:
            path = os.path.join(folder, "job.json")
            with open(path, "w") as handle:
                json.dump({"cases": cases, "reverse": config.get("reverse"), "texts": texts},
                          handle)
            env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
            env.update(config["env"], PYTHONDONTWRITEBYTECODE="1", SIM_REPO=world.REPO)
            cmd = [sys.executable, "-B"] + config["flags"] + [
                os.path.join(_runner.VERIF, "sim", "child.py"), path] + config.get("argv", [])
            proc = subprocess.run(cmd, capture_output=True, text=True, env=env,
                                  cwd=config.get("cwd", folder),
                                  timeout=300)
        if proc.returncode:
            raise Violation("process-fails", "%s: %s" % (config["name"], proc.stderr[-500:]))
        return json.loads(proc.stdout)

    def process_check(self, cases):
        """violation text or None"""
        try:
            base = self.launch(self.CONFIGS[0], cases)
            if base["state"]:
                return ("process-state", "importing and calling the library changed: %s"
                        % ", ".join(base["state"]))
            for config in self.CONFIGS[1:]:
                got = self.launch(config, cases)
                if got["state"]:
                    return ("process-state", "%s: importing and calling the library changed: %s"
                            % (config["name"], ", ".join(got["state"])))
                for i, (a, b) in enumerate(zip(base["digests"], got["digests"])):
                    if a != b:
                        return ("depends", "session %d differs under %s" % (i, config["name"]), i)
        except Violation as v:
            return (v.kind, v.detail)
        return None

    def extra(self, args, total):
        n = 150 if args.tier == "quick" else 1500
        cases = []
        for index in range(n):
            r = random.Random("C14-process/%d/%d" % (args.seed, index))
            pool = gen.pool_specs(r, r.randint(2, 5))
            ops, _ = make_ops(r, letters(pool), 1, r.choice([4, 8, 14]), api.OPS, edits=0.35)
            cases.append({"pool": pool, "ops": ops})
        bad = self.process_check(cases)
        out = {"coverage": {"interpreter_processes": len(self.CONFIGS),
                            "sessions_per_process": n,
                            "process_settings": [c["name"] for c in self.CONFIGS]}}
        if bad:
            few = cases
            if len(bad) > 2 and self.process_check([cases[bad[2]]]):
                few = [cases[bad[2]]]
                ops = list(few[0]["ops"])
                i = 0
                while i < len(ops):
                    trial = ops[:i] + ops[i + 1:]
                    if self.process_check([dict(few[0], ops=trial)]):
                        ops = trial
                    else:
                        i += 1
                few = [dict(few[0], ops=ops)]
            path = os.path.join(_runner.VERIF, "replays", "C14-s%d-process.json" % args.seed)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as handle:
                json.dump({"property": "C14", "seed": args.seed, "mode": "process",
                           "kind": bad[0], "detail": bad[1], "cases": few}, handle, indent=1)
            print("processes: %s: %s" % bad[:2])
            out.update(bad="%s: %s" % bad[:2], path=path)
        return out

    def replay_process(self, record):
        bad = self.process_check(record["cases"])
        return bad[:2] if bad else None
