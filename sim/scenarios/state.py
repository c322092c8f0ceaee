"""C05: objects with a past behave like newly built ones of the same visible value.
C06: an edit cut short is contained and can be repaired."""
import copy
import random

from .. import api, engine, gen, world
from ..common import (QUERY_FAULTS, Result, Runner, Unbuildable, Violation, brief, count_run,
                      exc_name, judging, note_sim, safe_view, signature)
from .shared import REFS, check_hang, letters, make_ops, result_letter, themed_table


def tame(spec):
    """values on a binary grid, so that a rebuilt object is the same object"""
    out = []
    for x in spec:
        if isinstance(x, bool) or isinstance(x, str):
            out.append(x)
        elif isinstance(x, list):
            out.append(tame(x))
        elif isinstance(x, float):
            out.append(round(x * 8) / 8 if abs(x) < 1e5 else x)
        else:
            out.append(x)
    return out


def tame_args(args):
    out = []
    for a in args:
        if isinstance(a, dict) and "n" in a:
            out.append({"n": tame(a["n"])})
        elif isinstance(a, float):
            out.append(tame([a])[0])
        else:
            out.append(a)
    return out


def rebuild_spec(w, arg, val):
    """plain spec of the current visible value of an argument; None: cannot be rebuilt"""
    code = api.letter(w, val)
    if code is None:
        if isinstance(val, list):
            return ["VL", [api.view(w, v)[1:3] for v in val]]
        return arg
    view = api.view(w, val)
    return {"n": api.respec(view)} if api.respec(view) is not None else None


def rebuild(w, specs, vals_images):
    """build the specs in w; None if a rebuilt value does not look the same"""
    out = []
    for spec, image in zip(specs, vals_images):
        if isinstance(spec, dict) and "n" in spec:
            obj = api.build(w, spec["n"])
            if not api.same(api.canon(w, obj), image):
                return None
            out.append(obj)
        elif isinstance(spec, list):
            out.append(api.build(w, spec))
        else:
            out.append(gen.resolve(w, {}, spec))
    return out


def nudge(spec, r):
    """same spec, every number moved by about one part in a billion"""
    if isinstance(spec, bool) or isinstance(spec, str) or spec is None:
        return spec
    if isinstance(spec, (int, float)):
        return spec + r.choice([-1, 0, 1]) * 1e-9 * max(1.0, abs(spec))
    if isinstance(spec, list):
        return [nudge(x, r) for x in spec]
    if isinstance(spec, dict):
        return {"n": nudge(spec["n"], r)} if "n" in spec else spec
    return spec


def reference(o, specs, images, nudged=None):
    """outcome of the call on rebuilt arguments in a pristine instance of the library"""
    w = world.World(False)
    use = specs if nudged is None else nudged
    vals = rebuild(w, specs, images)
    if vals is None:
        return None
    if nudged is not None:
        try:
            vals = [gen.resolve(w, {}, s) if not isinstance(s, list) else api.build(w, s)
                    for s in use]
        except Exception:
            return None
    after = []
    try:
        with engine.captured_stdout():
            value = o.invoke(w, vals)
        res = ["ok", api.canon(w, value)]
    except Exception as exc:
        res = ["exc", exc_name(exc)]
    for i in o.writes:
        after.append(safe_view(w, vals[i]))
    return [res, after]


def agree(got, want):
    """an edit may return its receiver or nothing: only queries' results count"""
    return api.close(got, want, 1e-9, 1e-9)


def judge(o, arg_specs, images, got, seed=0):
    """does the outcome equal that of newly built arguments, up to rounding?
    returns None (cannot say / yes) or the reference outcome"""
    want = reference(o, arg_specs, images)
    if want is None or agree(got, want):
        return None
    r = random.Random(seed)
    for _ in range(40):          # a discontinuity hit exactly: any nearby answer will do
        near = reference(o, arg_specs, images, [nudge(s, r) for s in arg_specs])
        if near is not None and api.close(got, near, 1e-6, 1e-6):
            return None
    return want


NO_HULL = "VALRSCQZTKPM"


def table_without_hull():
    return [o for o in api.OPS if o.home != "H" and "ConvexHull" not in o.id]


class Judge:
    """compares calls of a live history with the same calls on rebuilt objects"""

    def __init__(self, w, res, limit=12):
        self.w, self.res, self.left = w, res, limit
        self.specs = {}

    def before(self, op, vals):
        o = api.BY_ID[op["op"]]
        try:
            specs = [rebuild_spec(self.w, a, v) for a, v in zip(op["args"], vals)]
            images = [api.canon(self.w, v) for v in vals]
        except engine.INJECTED + (engine.SimHang,):
            raise
        except Exception as exc:
            raise Violation("unobservable", "%s: %r" % (op["op"], exc))
        if any(s is None for s in specs) or len({id(v) for v in vals if api.letter(
                self.w, v)}) != len([v for v in vals if api.letter(self.w, v)]):
            return
        self.specs[op["id"]] = (o, specs, images)

    def after(self, op, vals, out):
        item = self.specs.pop(op["id"], None)
        if item is None or self.left <= 0:
            return
        o, specs, images = item
        self.left -= 1
        self.res.count("rebuilt")
        got = [out if out[0] == "ok" else out[:2], [safe_view(self.w, vals[i]) for i in o.writes]]
        want = judge(o, specs, images, got)
        if want is not None:
            what = "edit-differs" if o.writes else "stale-answer"
            raise Violation(what, "%s on %s: %s with this history, %s when newly built" % (
                op["op"], brief(images), brief(got), brief(want)))


TRAIL = [o for o in table_without_hull() if o.query and o.home and o.result != "ref"
         and o.args[0] == o.home and not (set(o.args) & set("HL"))]


class C05:
    pid = "C05"
    title = "answers come from the current value"
    rule = ("a run is non-trivial when a call on an object that was edited before was compared "
            "with a rebuilt object; two runs are the same when the sequence of calls and fault "
            "points is the same")

    def trail(self, r):
        """one question asked again and again between edits of its object; sometimes two threads
        take turns, sometimes a question is cut short.  Questions take turns over the API."""
        asked = TRAIL[(r.index * 7 + r.randrange(7)) % len(TRAIL)]
        pool, ask = gen.focus(r, asked)
        pool = {n: tame(s)[:(3 if s[0] == "V" else 99)] for n, s in pool.items()}
        ask["args"] = tame_args(ask["args"])
        have = letters(pool)
        ops, nid = [], 0
        ntasks = r.choice([1, 1, 1, 2])
        held = []
        for name, code in sorted(have.items()):
            for q in REFS:
                if q.home == code and code != "P" and r.random() < 0.3:
                    ops.append({"id": nid, "task": 0, "op": q.id, "args": [{"r": name}],
                                "out": "%s~%d" % (name, nid)})
                    held.append((ops[-1]["out"], result_letter(q)))
                    nid += 1
        for turn in range(r.choice([2, 3, 4, 6])):
            ops.append(dict(ask, id=nid, task=nid % ntasks))
            nid += 1
            last = ops[-2] if turn else None
            if last and not api.BY_ID[last["op"]].query and r.random() < 0.35:
                # the same edit again with one number changed
                ops.append(dict(last, id=nid, task=nid % ntasks,
                                args=tame_args(gen.vary(r, api.BY_ID[last["op"]], last["args"]))))
                nid += 1
                continue
            for _ in range(r.choice([1, 1, 1, 2])):
                at, code = r.choice(sorted(have.items()) + held) if r.random() < 0.4 else \
                    (ask["args"][0]["r"], have[ask["args"][0]["r"]])
                if code == "P" and r.random() < 0.3:
                    o = api.MOVE_VERTEX
                else:
                    o = r.choice([e for e in api.EDITS
                                  if e.args[e.writes[0]] == code] or [asked])
                op = gen.call(r, o, have, nid, nid % ntasks, 0.7)
                if op is None:
                    continue
                if o.writes:
                    op["args"][o.writes[0]] = {"r": at}
                op["args"] = tame_args(op["args"])
                ops.append(op)
                nid += 1
        ops.append(dict(ask, id=nid, task=nid % ntasks))
        case = {"pool": pool, "ntasks": ntasks, "ops": ops, "first": 0, "switches": [],
                "faults": []}
        counts, _ = count_run(case)
        if ntasks > 1:
            case["switches"] = gen.place(r, counts, ops, r.choice([2, 6]), ntasks=2, early=0.6)
        if r.random() < 0.3:
            case["faults"] = gen.place(r, counts, ops, r.choice([1, 2]), kinds=QUERY_FAULTS,
                                       only=lambda op: api.BY_ID[op["op"]].query)
        return case

    def generate(self, r, tier):
        if r.random() < 0.45:
            return self.trail(r)
        ntasks = r.choice([1, 1, 2])
        allow = "".join(sorted(
            {gen.pick_code(r, NO_HULL) for _ in range(r.randint(1, 2))}))
        if r.random() < 0.5:
            allow = allow[:1] + "V" if "V" not in allow else allow
        pool = {n: tame(s)[:(3 if s[0] == "V" else 99)]
                for n, s in gen.pool_specs(r, r.randint(1, 4), allow).items()}
        table = [o for o in table_without_hull() if (o.home and o.home in allow) or
                 (o.kind in "cs" and api.LETTER.get(o.name.split(".")[0], "?") in allow)]
        if r.random() < 0.7 and len(table) > 12:
            table = r.sample(table, r.choice([6, 12]))
        ops, nid = make_ops(r, letters(pool), ntasks, r.choice([3, 5, 8, 12]), table,
                            edits=r.choice([0.3, 0.5]), twin=0.6)
        for op in ops:
            op["args"] = tame_args(op["args"])
        # every object is asked something at the very end
        for name, code in letters(pool).items():
            mine = [o for o in table if o.query and o.home == code]
            for o in r.sample(mine, min(2, len(mine))):
                op = gen.call(r, o, letters(pool), nid, 0)
                op["args"] = [{"r": name}] + tame_args(op["args"][1:])
                nid += 1
                ops.append(op)
        case = {"pool": pool, "ntasks": ntasks, "ops": ops, "first": 0, "switches": [],
                "faults": []}
        counts, _ = count_run(case)
        if ntasks > 1:
            case["switches"] = gen.place(r, counts, ops, r.choice([2, 5]), ntasks=ntasks,
                                         early=0.4)
        if r.random() < 0.4:
            case["faults"] = gen.place(r, counts, ops, r.choice([1, 2]), kinds=QUERY_FAULTS,
                                       only=lambda op: api.BY_ID[op["op"]].query)
        return case

    def execute(self, case):
        res = Result()
        w = world.World(True)
        a = Runner(w, case)
        j = Judge(w, res, 24)
        edited = set()

        def watch(op, phase):
            vals = a.vals[op["id"]]
            if phase == 0:
                if edited & set(gen.names_in(op["args"])) and op["op"] != api.MOVE_VERTEX.id:
                    j.before(op, vals)
                return
            out = a.out[op["id"]]
            if out[0] == "hang":
                raise Violation("hang", op["op"])
            if op["id"] not in a.sim.fault_in:
                j.after(op, vals, out)
            _, writes = gen.needs(op)
            edited.update(writes)
            if "out" in op:              # objects handed out by calls have a past, too
                edited.add(op["out"])

        a.observe = watch
        try:
            sim = a.simulate()
            note_sim(res, sim)
            check_hang(a)
            res.nontrivial = res.stats.get("rebuilt", 0) > 0
            res.events.append(["out", {str(k): v for k, v in sorted(a.out.items())}, a.views()])
        except Violation as v:
            res.violation = (v.kind, v.detail)
        signature(res, case, "/".join(op["op"] for op in case["ops"]))
        return res


# ---- C06 ------------------------------------------------------------------------
def repair(w, obj, spec):
    """assign a complete new value by documented edits"""
    code, a = spec[0], spec[1:]
    V = w.cls["Vector2D"]
    if code == "V":
        obj.set_vector(V(a[0], a[1]))
    elif code == "A":
        obj.set_degree(a[0])
    elif code == "R":
        obj.origin_().set_vector(V(a[0], a[1]))
        obj.dir_().set_degree(a[2])
    elif code == "S":
        obj.assign(V(a[0], a[1]), V(a[2], a[3]))
    elif code == "C":
        obj.assign(V(a[0], a[1]), a[2])
    elif code == "Z":
        obj.assign(a[0], a[1])
    elif code == "Q":
        obj.assign(V(a[0], a[1]), w.cls["Size2D"](a[2], a[3]))
    elif code == "T":
        obj.assign(V(a[0], a[1]), V(a[2], a[3]), V(a[4], a[5]))
    elif code == "K":
        obj.assign(V(a[0], a[1]), a[2], a[3], a[4], a[5])
    elif code == "P":
        obj.assign([V(x, y) for x, y in a[0]])
    elif code == "M":
        obj.assign(*a)
    elif code == "H":
        obj.clear()
        obj.add_points([V(x, y) for x, y in a[0]])
        obj.compute()
    else:
        raise ValueError(code)


class C06:
    pid = "C06"
    title = "interrupted edits"
    rule = ("a run is non-trivial when an edit was actually cut short; two runs are the same when "
            "the calls and the instruction the edit was cut at are the same")
    EDITED = "VARSCZQTKPMH"

    def generate(self, r, tier):
        code = r.choice(self.EDITED)
        allow = code + "".join(sorted(
            {gen.pick_code(r) for _ in range(r.randint(0, 2))})) + "V"
        pool = gen.pool_specs(r, r.randint(1, 4), allow)
        pool["e"] = gen.spec(r, code)
        for n, s in pool.items():
            pool[n] = tame(s)[:(3 if s[0] == "V" else 99)]
        mine = letters(pool)
        edits = [o for o in api.EDITS if o.args[o.writes[0]] == code]
        ops, nid = make_ops(r, mine, 1, r.choice([0, 1, 3]), api.OPS, edits=0.4)
        ops = [{k: v for k, v in op.items() if k != "out"} for op in ops
               if not set(gen.names_in(op["args"])) - set(pool)]
        hits = []
        for _ in range(r.choice([1, 1, 1, 2])):
            o = r.choice(edits)
            op = gen.call(r, o, mine, nid, 0)
            if op is None:
                continue
            op["args"][o.writes[0]] = {"r": "e"}
            nid += 1
            ops.append(op)
            hits.append(op)
        for op in ops:
            op["args"] = tame_args(op["args"])
        new = tame(gen.spec(r, code))[:(3 if code == "V" else 99)]
        if code == "P" and not new[1]:
            new = ["P", [[0, 0], [1, 0], [0, 1]]]
        # afterwards: questions to the repaired object, and a session on new objects
        later_pool = {"z%d" % i: tame(gen.spec(r, c))[:(3 if c == "V" else 99)]
                      for i, c in enumerate([code] + [gen.pick_code(r, allow)])}
        battery = []
        for o in r.sample([o for o in api.OPS if o.home == code],
                          min(4, len([o for o in api.OPS if o.home == code]))):
            op = gen.call(r, o, {"e": code}, nid, 0, fresh=1.0)
            if op is None:
                continue
            op["args"] = [{"r": "e"}] + tame_args(op["args"][1:])
            nid += 1
            battery.append(op)
        about = [o for o in api.OPS if o.home == code]
        later, nid = make_ops(r, letters(later_pool), 1, r.choice([2, 4]),
                              about if r.random() < 0.5 else api.OPS, edits=0.4,
                              first_id=nid, prefix="y")
        case = {"pool": pool, "ntasks": 1, "ops": ops, "first": 0, "switches": [], "faults": [],
                "new": new, "battery": battery, "later": later, "later_pool": later_pool}
        counts, _ = count_run(case)
        ids = {op["id"] for op in hits}
        case["faults"] = gen.place(r, counts, hits, 1, kinds=QUERY_FAULTS + ["kill"])
        if len(hits) > 1 and r.random() < 0.5:
            case["faults"] += gen.place(r, counts, hits, 1, kinds=QUERY_FAULTS)
        if hits and r.random() < 0.4:
            # the same edit cut short at many points in turn
            top = counts.get(hits[-1]["id"], 0)
            case["sweep"] = [[hits[-1]["id"], k, r.choice(QUERY_FAULTS + ["kill"])]
                             for k in sorted(r.sample(range(1, top + 1), min(top, 10)))]
        return case

    lists = ("faults", "sweep", "switches", "battery", "later", "ops")

    def execute(self, case):
        res = Result()
        w, ref = world.World(True), world.World(False)
        try:
            self.one(res, w, ref, case, case["faults"], True)
            for i, item in enumerate(case.get("sweep", ())):
                self.one(res, w, ref, case, [item], i % 5 == 0)
        except Violation as v:
            res.violation = (v.kind, v.detail)
        except engine.SimHang as exc:
            res.violation = ("hang", str(exc))
        signature(res, case)
        return res

    def one(self, res, w, ref, case, faults, full):
        a = Runner(w, case)
        state = {}

        def watch(op, phase):
            if phase == 0:
                state["before"] = a.views()
                state["args"] = [api.canon(w, v) for v in a.vals[op["id"]]]
                return
            out = a.out[op["id"]]
            if out[0] == "hang":
                raise Violation("hang", op["op"])
            if op["id"] not in a.sim.fault_in:
                return
            o = api.BY_ID[op["op"]]
            res.count("cut." + o.id)
            _, writes = gen.needs(op)
            now = a.views()
            for name, old in state["before"].items():
                if name not in writes and not api.same(now.get(name), old):
                    raise Violation("bystander", "%s cut short changed %s from %s to %s" % (
                        op["op"], name, brief(old), brief(now.get(name))))
            vals = a.vals[op["id"]]
            for i, v in enumerate(vals):
                if i in o.writes or any(v is vals[k] for k in o.writes):
                    continue
                image = api.canon(w, v)
                if not api.same(image, state["args"][i]):
                    raise Violation("argument", "%s cut short changed its argument %d from %s to "
                                    "%s" % (op["op"], i, brief(state["args"][i]), brief(image)))

        a.observe = watch
        ops = case["ops"]
        sim = a.simulate(locked=False, faults=faults)
        note_sim(res, sim)
        check_hang(a)
        cut = [op for op in ops if op["id"] in sim.fault_in]
        res.nontrivial = res.nontrivial or bool(cut)
        obj = a.env["e"]
        new = case["new"]
        a.observe = None
        with judging("repair of %s" % new[0]):
            with engine.captured_stdout():
                repair(w, obj, new)
            seen = api.view(w, obj)
        built = api.build(ref, new)
        if new[0] == "H":
            built.compute()
        want = api.view(ref, built)
        if not api.close(seen, want):
            raise Violation("not-repaired", "%s after %s was cut short and a new value "
                            "assigned: %s, a new one is %s" % (
                                new[0], cut[-1]["op"] if cut else "-", brief(seen),
                                brief(want)))
        # the repaired object answers like a new one
        if new[0] != "H" and full:
            j = Judge(w, res)
            for op in case["battery"]:
                self.ask(w, j, obj, op)
        # and new objects behave as in a process where nothing was cut short
        live = Runner(w, {"pool": case["later_pool"], "ops": []})
        live.serial(case["later"])
        clean = Runner(ref, {"pool": case["later_pool"], "ops": []})
        clean.serial(case["later"])
        for op in case["later"]:
            oid = op["id"]
            if live.out[oid][0] == "hang" or not api.same(live.out[oid], clean.out[oid]):
                raise Violation("aftermath", "%s on new objects: %s after a cut-short edit, "
                                "%s otherwise" % (op["op"], brief(live.out[oid]),
                                                  brief(clean.out[oid])))
        va, vb = live.views(), clean.views()
        for name in vb:
            if not api.same(va.get(name), vb[name]):
                raise Violation("aftermath", "new object %s: %s after a cut-short edit, %s "
                                "otherwise" % (name, brief(va.get(name)), brief(vb[name])))
        res.events.append(["out", {str(k): v for k, v in sorted(a.out.items())}, a.views(),
                           va])

    def ask(self, w, j, obj, op):
        o = api.BY_ID[op["op"]]
        try:
            vals = [gen.resolve(w, {"e": obj}, x) for x in op["args"]]
        except Exception as exc:
            raise Unbuildable(repr(exc))
        j.before(op, vals)
        try:
            with engine.captured_stdout():
                value = o.invoke(w, vals)
            out = ["ok", api.canon(w, value)]
        except Exception as exc:
            out = ["exc", exc_name(exc)]
        j.after(op, vals, out)
