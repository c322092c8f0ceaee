"""C12: number streams (f_range) consumed by several callers in any order."""
from fractions import Fraction

from .. import engine, gen, world
from ..common import Result, Violation, brief, exc_name, note_sim, signature

FAULTS = ["interrupt", "memory", "timeout", "kill"]
END = "end"


def expected(args, kw):
    """values of the stream by exact arithmetic"""
    vals = list(args) + [kw[k] for k in ("start", "stop", "step") if k in kw]
    named = dict(zip(("start", "stop", "step"), args))
    named.update(kw)
    start, stop, step = named.get("start"), named.get("stop"), named.get("step")
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    start, stop, step = Fraction(start), Fraction(stop), Fraction(step)
    out, x = [], start
    while (x < stop if step > 0 else x > stop):
        out.append(x)
        x += step
    return out


def sharp(args, kw):
    """the number of values does not hinge on rounding"""
    named = dict(zip(("start", "stop", "step"), args))
    named.update(kw)
    start, stop, step = named.get("start"), named.get("stop"), named.get("step")
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    if all(float(v * 64).is_integer() and abs(v) < 1e6 for v in (start, stop, step)):
        return True
    n = (stop - start) / step
    return n < -0.1 or 0.1 < n % 1 < 0.9


class C12:
    pid = "C12"
    title = "number streams"
    rule = ("a run is non-trivial when two or more streams were consumed alternately or a fault "
            "fired; two runs are the same when the sequence of stream events and the "
            "preemption/fault points are the same")

    def form(self, r, tier):
        for _ in range(50):
            long = r.choice([400, 400, 400, 1500, 6000, 12000])
            n = r.choice([0, 1, 2, 3, 5, 8, 20, 60, long if r.random() < 0.08 else 7])
            step = r.choice([1, 1.0, 0.5, 0.25, 2, 3, -1, -0.5, 0.125, -2.0, 0.1, 0.3, -0.1, 0.7,
                             1e-3, 0.05, -0.01])
            start = r.choice([0, 0.0, 1, -3, 2.5, -7.25, 10, 0.1, 100, -0.5])
            extra = r.choice([0, 0, 0.5, 0.25, 0.75]) * step
            stop = start + n * step + extra
            if r.random() < 0.1:
                stop = start - step
            p = r.random()
            if p < 0.15:
                args, kw = [r.choice([0, 1, 3, 5, 2.5, 7.75, 12, -1, -2.5, 0.0])], {}
            elif p < 0.4:
                args, kw = [start, start + r.choice([0, 1, 2.5, 4, 9, -1, -0.5])], {}
            elif p < 0.85:
                args, kw = [start, stop, step], {}
            else:
                args, kw = [start], {"stop": stop, "step": step}
                if r.random() < 0.3:
                    args, kw = [], {"start": start, "stop": stop, "step": step}
            if sharp(args, kw):
                return args, kw
        return [3], {}

    def generate(self, r, tier):
        ntasks = r.choice([1, 2, 2, 3])
        ns = r.randint(1, 5)
        many = r.random() < 0.015                # a whole crowd of streams at once
        if many:
            ns = r.choice([12, 40, 150, 300])
        streams = {}
        for i in range(ns):
            args, kw = self.form(r, tier)
            if i and r.random() < 0.3:           # the same stream once more
                args, kw = streams["s%d" % r.randrange(i)]
            streams["s%d" % i] = [args, kw]
        ops = []
        names = list(streams)
        opened = []
        for i in range(ns * r.choice([3, 5]) if many else r.choice([3, 6, 12, 24, 40])):
            t = r.randrange(ntasks)
            fresh = [n for n in names if n not in opened]
            if fresh and (not opened or r.random() < 0.35):
                name = r.choice(fresh)
                opened.append(name)
                ops.append({"id": len(ops), "task": t, "do": "open", "s": name})
                continue
            name = r.choice(opened)
            p = r.random()
            if p < 0.7:
                do = "next"
            elif p < 0.82:
                do = "some"
            elif p < 0.9:
                do = "rest"
            elif p < 0.95:
                do = "close"
            else:
                do = "drop"
            op = {"id": len(ops), "task": t, "do": do, "s": name}
            if do == "some":
                op["n"] = r.randint(2, 9)
            ops.append(op)
        case = {"streams": streams, "ntasks": ntasks, "ops": ops, "switches": [], "faults": [],
                "first": 0}
        sim, _, _ = self.simulate(case, (), ())
        counts = sim.counts
        if ntasks > 1:
            case["switches"] = gen.place(r, counts, ops, r.choice([1, 3, 8, 20]), ntasks=ntasks,
                                         early=0.4)
        if r.random() < 0.5:
            case["faults"] = gen.place(r, counts, ops, r.choice([1, 2]), kinds=FAULTS)
        return case

    def simulate(self, case, switches, faults):
        w = world.World(True)
        f_range = w.mod("soccer_math").f_range
        live, log, broken = {}, {name: [] for name in case["streams"]}, {}

        def one(sim, task, op, name):
            """one value under the scheduler"""
            it = live[name]
            try:
                got = sim.call(task, op, lambda: next(it))
            except StopIteration:
                return END
            return got

        def do_op(sim, task, op):
            name, do = op["s"], op["do"]
            try:
                if do == "open":
                    args, kw = case["streams"][name]
                    live[name] = sim.call(task, op, lambda: iter(f_range(*args, **kw)))
                    return
                if name not in live:
                    return
                if do == "drop":
                    del live[name]
                    return
                if do == "close":
                    if hasattr(live[name], "close"):
                        it = live[name]
                        sim.call(task, op, lambda: it.close())
                        broken[name] = "closed"
                    return
                n = {"next": 1, "some": op.get("n", 1), "rest": 1 << 20}[do]
                for _ in range(n):
                    got = one(sim, task, op, name)
                    log[name].append(got)
                    if isinstance(got, str) or broken.get(name) or len(log[name]) > 20000:
                        break
            except engine.SimHang:
                raise Violation("hang", "stream %s of %s" % (name, case["streams"][name]))
            except engine.INJECTED as exc:
                broken[name] = exc_name(exc)
                live.pop(name, None)
            except Exception as exc:
                if isinstance(exc, Violation):
                    raise
                if broken.get(name):
                    return
                raise Violation("stream-fails", "%s of stream %s: %s: %s" % (
                    do, case["streams"][name], exc_name(exc), exc))

        sim = engine.Sim(case["ops"], case["ntasks"], switches, faults, do_op,
                         lambda op: ([], [op["s"]]))
        with engine.captured_stdout():
            sim.run(case.get("first", 0))
        return sim, log, broken

    def execute(self, case):
        res = Result()
        try:
            sim, log, broken = self.simulate(case, case["switches"], case["faults"])
            note_sim(res, sim)
            for name, got in log.items():
                args, kw = case["streams"][name]
                want = expected(args, kw)
                what = "f_range(%s%s)" % (", ".join(map(repr, args)), ", %s" % kw if kw else "")
                values = [v for v in got if v != END]
                res.count("values", len(values))
                for i, v in enumerate(values):
                    bad = isinstance(v, (bool, str)) or not isinstance(v, (int, float))
                    if i >= len(want):
                        raise Violation("past-the-end", "%s went on with %r after its %d values"
                                        % (what, v, len(want)))
                    if bad or abs(Fraction(v) - want[i]) > Fraction(1, 10 ** 9) * (
                            1 + abs(want[i])):
                        raise Violation("value", "%s: value %d is %r, expected %r; got %s" % (
                            what, i, v, float(want[i]), brief(values[:12])))
                if END in got and name not in broken:
                    k = got.index(END)
                    if len([v for v in got[:k]]) != len(want):
                        raise Violation("ends-early", "%s ended after %d of %d values" % (
                            what, k, len(want)))
                    if any(v != END for v in got[k:]):
                        raise Violation("restarts", "%s gave values again after its end" % what)
            if len([n for n in log if log[n]]) >= 2:
                res.nontrivial = True
            res.events.append(["log", log])
        except Violation as v:
            res.violation = (v.kind, v.detail)
        signature(res, {"ops": []}, "/".join("%s:%s" % (op["do"], case["streams"][op["s"]])
                                             for op in case["ops"]))
        return res
