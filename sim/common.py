"""Shared pieces of the scenarios: performing a call, recording its outcome, replaying."""
import hashlib
import json
import os

from . import api, engine, gen, world

QUERY_FAULTS = ["interrupt", "memory", "timeout", "recursion"]


class Violation(Exception):
    """a property does not hold on this run; kind is what minimisation preserves"""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class Unbuildable(Exception):
    """a documented constructor refuses a plain value"""


HOME = os.path.dirname(os.path.abspath(__file__))


class judging:
    """while an oracle looks at library values: an accessor that fails, or a value of
    the wrong type, is a verdict about the library and not a failure of the harness"""

    def __init__(self, where):
        self.where = where

    def __enter__(self):
        return self

    def __exit__(self, kind, exc, tb):
        if kind is not None and issubclass(kind, Exception) and not issubclass(kind, Violation):
            while tb.tb_next is not None:
                tb = tb.tb_next
            mine = tb.tb_frame.f_code.co_filename.startswith(HOME)
            if mine and issubclass(kind, (AssertionError, NameError)):
                return False                   # a mistake of the harness itself
            raise Violation("unobservable", "%s: %s: %s" % (self.where, kind.__name__, exc)) from exc
        return False


class Result:
    __slots__ = ("violation", "events", "stats", "sig", "nontrivial")

    def __init__(self):
        self.violation = None      # (kind, detail)
        self.events = []           # JSON-able event log of the run
        self.stats = {}
        self.sig = ""
        self.nontrivial = False

    def count(self, key, n=1):
        if n:
            self.stats[key] = self.stats.get(key, 0) + n

    def digest(self):
        text = json.dumps(self.events, default=repr)
        return hashlib.sha256(text.encode()).hexdigest()


def exc_name(exc):
    return type(exc).__name__


def outcome_of(w, fn):
    """('ok', image) / ('exc', type, text) of a call; injected faults propagate"""
    try:
        value = fn()
    except engine.INJECTED:
        raise
    except engine.SimHang:
        raise
    except Exception as exc:
        return None, ["exc", exc_name(exc)]
    return value, ["ok", api.canon(w, value)]


class Runner:
    """performs the ops of a case in one world, under a Sim or serially."""

    def __init__(self, w, case, keep=True):
        self.w = w
        self.case = case
        self.env = {}
        for name, spec in case["pool"].items():
            try:
                self.env[name] = api.build(w, spec)
            except Exception as exc:
                raise Unbuildable("%s: %r" % (spec, exc)) from exc
        self.out = {}          # op id -> outcome
        self.sim = None
        self.observe = None    # callback(op, phase): 0 before the call, 1 after it
        self.vals = {}         # op id -> live arguments
        self.value = {}        # op id -> live result

    def need(self, op):
        return gen.needs(op)

    def perform(self, op, call):
        """call(fn) runs fn under the scheduler (or directly)"""
        o = api.BY_ID[op["op"]]
        oid = op["id"]
        try:
            vals = [gen.resolve(self.w, self.env, a) for a in op["args"]]
        except KeyError:
            self.out[oid] = ["skip"]
            return None
        except Exception as exc:
            raise Unbuildable("%s: %r" % (op["args"], exc)) from exc
        if self.observe is not None:
            self.vals[oid] = vals
            self.observe(op, 0)
        value = None
        try:
            value, res = outcome_of(self.w, lambda: call(lambda: o.invoke(self.w, vals)))
        except engine.SimHang as exc:
            res = ["hang", str(exc)]
        except engine.INJECTED as exc:
            res = ["fault", exc_name(exc)]
        self.out[oid] = res
        if "out" in op:
            name = op["out"]
            self.env.pop(name, None)
            if res[0] == "ok" and api.letter(self.w, value) is not None:
                self.env[name] = value
        if self.observe is not None:
            self.value[oid] = value
            self.observe(op, 1)
        return value

    def do_op(self, sim, task, op):
        self.perform(op, lambda fn: sim.call(task, op, fn))

    def make(self, ops=None, locked=True, switches=None, faults=None, ntasks=None):
        case = self.case
        self.sim = engine.Sim(case["ops"] if ops is None else ops,
                              ntasks or case.get("ntasks", 1),
                              case.get("switches", ()) if switches is None else switches,
                              case.get("faults", ()) if faults is None else faults,
                              self.do_op, self.need if locked else None)
        return self.sim

    def simulate(self, *args, **kw):
        self.make(*args, **kw)
        case = self.case
        with engine.captured_stdout():
            self.sim.run(case.get("first", 0))
        return self.sim

    def serial(self, ops):
        with engine.captured_stdout():
            for op in ops:
                self.perform(op, lambda fn: fn())

    def views(self):
        return {name: safe_view(self.w, obj) for name, obj in self.env.items()}


def safe_view(w, obj):
    if isinstance(obj, (list, tuple)):
        return api.canon(w, obj)
    try:
        return api.view(w, obj)
    except engine.INJECTED + (engine.SimHang,):
        raise
    except Exception as exc:
        return ["unviewable", exc_name(exc)]


def count_run(case):
    """phase 1: serial instrumented run; returns instructions per op and outcomes"""
    w = world.World(True)
    try:
        runner = Runner(w, case)
    except Unbuildable:
        return {}, {}
    sim = runner.simulate(switches=(), faults=())
    return sim.counts, runner.out


def probe_run(case, oid, most=1500):
    """as count_run; also the instructions of call `oid` at which somebody who looks at the
    objects of the pool finds one changed that the call is not supposed to edit"""
    w = world.World(True)
    try:
        runner = Runner(w, case)
    except Unbuildable:
        return {}, {}, {}
    hot = {}
    state = {}
    target = [op for op in case["ops"] if op["id"] == oid]
    edited = set(gen.needs(target[0])[1]) if target else set()

    def look():
        return {n: safe_view(w, obj) for n, obj in runner.env.items()
                if gen.owner(n) not in edited}

    def probe(k):
        if k == 1:
            state["calm"] = look()
            return True
        now = look()
        if now != state["calm"]:
            hot[k] = sorted(n for n in state["calm"]
                            if n in now and not api.same(now[n], state["calm"][n]))
        return k < most

    sim = runner.make(switches=(), faults=())
    sim.probe = (oid, probe)
    with engine.captured_stdout():
        sim.run(case.get("first", 0))
    return sim.counts, runner.out, {k: v for k, v in hot.items() if v}


def note_sim(res, sim):
    """coverage bookkeeping of one simulated run"""
    res.count("runs")
    res.count("ops", len(sim.order))
    res.count("steps", sim.total)
    res.count("preemptions", sim.preemptions)
    for kind, n in sim.fired.items():
        res.count("fault." + kind, n)
    if sim.preemptions or sim.fired:
        res.nontrivial = True
    res.events.append(["trace", [list(x) for x in sim.trace], list(sim.order)])


def signature(res, case, extra=""):
    """identity of the interleaving reached: which calls, where preempted or hit"""
    ops = {op["id"]: op["op"] for op in case["ops"] if "op" in op}
    parts = []
    for ev in res.events:
        if ev[0] == "trace":
            for what, oid, k, arg in ev[1]:
                parts.append("%s@%s+%d>%s" % (what, ops.get(oid, "-"), k, arg))
    res.sig = hashlib.sha1(("|".join(parts) + extra).encode()).hexdigest()[:16]


def brief(x, limit=300):
    text = json.dumps(x, default=repr)
    return text if len(text) <= limit else text[:limit] + "..."
