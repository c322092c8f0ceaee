"""C01 shared objects under caller locking, C02 aborted queries, C03 independent sessions."""
import random

from .. import api, engine, gen, world
from ..common import (QUERY_FAULTS, Result, Runner, Violation, brief, count_run, note_sim,
                      probe_run, signature)

DIRECT = {"H"}     # slower types are kept rarer by gen.WEIGHT


def themed_table(r, table):
    """swarm: a run uses a small random part of the API, so that calls meet"""
    n = r.choice([0, 0, 0, 2, 4, 8, 16, 40, 400])
    if n >= len(table):
        return table
    if n:
        return r.sample(table, n)
    picked = {r.choice(gen.OBJ) for _ in range(r.choice([1, 1, 2]))}
    names = {api.CODE[c] for c in picked}
    some = [o for o in table if o.home in picked
            or (o.kind in "cs" and o.name.split(".")[0] in names)]
    if r.random() < 0.3:
        some += [o for o in table if o.kind == "f"]
    return some or table


def make_ops(r, pool, ntasks, per_task, table, edits=0.35, first_id=0, twin=0.5, prefix="r",
             parts=False):
    """ops of all tasks; with probability `twin` a task repeats a call kind of another task"""
    ops = []
    oid = first_id
    used = []
    queries = [o for o in table if o.query] or api.QUERIES
    writes = [o for o in table if not o.query] or api.EDITS
    pools = {t: dict(pool) for t in range(ntasks)}
    for i in range(per_task):
        for t in range(ntasks):
            mine = pools[t]
            for _ in range(5):
                refs = [o for o in REFS if o.home in mine.values()] if parts else []
                if refs and r.random() < 0.2:
                    o = r.choice(refs)
                elif used and r.random() < twin:
                    o = r.choice(used)
                else:
                    o = gen.ops_for(r, writes if r.random() < edits else queries, mine)
                op = gen.call(r, o, mine, oid, t)
                if op is not None:
                    break
            if op is None:
                continue
            used.append(o)
            out = None
            if o.result == "fresh" and r.random() < (0.6 if o.kind == "c" else 0.3):
                out = "%s%d" % (prefix, oid)
            elif parts and o.result == "ref" and r.random() < 0.7:
                # keep the reference; the part belongs to its owner
                out = "%s~%d" % (gen.owner(op["args"][0].get("r", "%s%d" % (prefix, oid))), oid)
            if out:
                op["out"] = out
                kind = result_letter(o)
                if kind:
                    mine[op["out"]] = kind
            ops.append(op)
            oid += 1
            if out and "~" in out and kind and r.random() < 0.6:
                # use the reference: the part changes, so does its owner
                o = r.choice(_edits_of(kind))
                op = gen.call(r, o, mine, oid, t)
                if op is not None:
                    op["args"][o.writes[0]] = {"r": out}
                    ops.append(op)
                    oid += 1
    return ops, oid


REFS = [o for o in api.OPS if o.result == "ref" and o.home not in "PH"]


def _edits_of(code):
    return [o for o in api.EDITS if o.writes == (0,) and o.args[0] == code and o.kind in "mo"]


_RESULT = {}


def result_letter(o):
    """type letter of the result of an op, learnt by calling it once"""
    if o.id not in _RESULT:
        import random
        r = random.Random(7)
        w = _scratch()
        found = None
        for _ in range(4):
            try:
                vals = [gen.resolve(w, {}, gen.arg(r, c, {}, 1.0)) for c in o.args]
                with engine.captured_stdout():
                    found = api.letter(w, o.invoke(w, vals))
            except Exception:
                continue
            if found:
                break
        _RESULT[o.id] = found
    return _RESULT[o.id]


_SCRATCH = []


def _scratch():
    if not _SCRATCH:
        _SCRATCH.append(world.World(False))
    return _SCRATCH[0]


def letters(pool):
    return {n: s[0] for n, s in pool.items()}


def check_hang(runner):
    for oid, res in runner.out.items():
        if res[0] == "hang":
            raise Violation("hang", "call %d never finishes: %s" % (oid, res[1]))


# calls that do some work: worth stopping half way
TRIVIAL = {"x", "y", "get_x", "get_y", "a", "b", "c", "is_valid", "radius", "length2", "abs_x",
           "abs_y", "radius_min", "radius_max", "m11", "m12", "m21", "m22", "dxtf", "dytf", "degree_",
           "to_str", "hash", "normalize_angle"}
VICTIMS = [o for o in api.QUERIES if o.args and o.result != "ref" and o.kind != "f"
           and o.name not in TRIVIAL]


def points(r, top, most, hot=()):
    """which instructions of a call to visit: all of a short one; those where something looks
    different from outside (hot) first"""
    if hot:
        some = sorted(r.sample(sorted(hot), min(len(hot), most // 2)))
        rest = points(r, top, most - len(some))
        return sorted(set(some) | set(rest))
    if top <= most:
        return list(range(1, top + 1))
    if r.random() < 0.3:                       # a dense stretch
        start = r.randint(1, top - most + 1)
        return list(range(start, start + most))
    return sorted(r.sample(range(1, top + 1), most))


def keep(r, o, op, have, rate=0.3):
    if o.result == "fresh" and r.random() < rate and result_letter(o):
        op["out"] = "r%d" % op["id"]
        have[op["out"]] = result_letter(o)


def rival(r, ops, have, nid, t, op, ref_rate):
    """one more call on the same objects"""
    at = r.choice(sorted(n for n in have))
    code = have[at]
    o = r.choice([q for q in api.OPS if q.args and code in q.args])
    refs = [q for q in REFS if q.home == code]
    if refs and r.random() < ref_rate:
        o = r.choice(refs)
    elif r.random() < 0.4:
        same = dict({k: v for k, v in op.items() if k != "out"}, id=nid, task=t)
        kind = api.BY_ID[op["op"]]
        if len(kind.args) > 1 and r.random() < 0.6:      # same object, other arguments
            other = gen.call(r, kind, have, nid, t, 0.8)
            if other is not None:
                same["args"] = [op["args"][0]] + other["args"][1:]
        ops.append(same)
        return nid + 1
    new = gen.call(r, o, have, nid, t, 0.15)
    if new is None:
        return nid
    new["args"][r.choice([i for i, c in enumerate(o.args) if c == code])] = {"r": at}
    ops.append(new)
    if o.result == "ref" and "~" not in at:
        new["out"] = "%s~%d" % (at, nid)
        have[new["out"]] = result_letter(o)
        if not have[new["out"]]:
            del have[new["out"]], new["out"]
    else:
        keep(r, o, new, have)
    nid += 1
    if o in REFS and "out" in new:
        o = r.choice(_edits_of(have[new["out"]]))
        use = gen.call(r, o, have, nid, t)
        if use is not None:
            use["args"][0] = {"r": new["out"]}
            ops.append(use)
            nid += 1
    return nid


TWIN_EVERY = 7


def answer(w, pool, op):
    try:
        run = Runner(w, {"pool": pool, "ops": []})
        run.serial([op])
        return run.out.get(op["id"])
    except Exception:
        return None


def contrast(r, kind, pool, op, share, nid, task, want=2, tries=7):
    """calls of the same kind as op that answer something else; with share, on one or more of
    its objects"""
    w = world.World(False)
    base = answer(w, pool, op)
    found, spare = [], None
    held = [i for i, a in enumerate(op["args"]) if isinstance(a, dict) and "r" in a]
    for k in range(tries):
        gen.wear(r, r.choice(gen.STYLES))
        mine, other = gen.focus(r, kind, nid, task)
        names = {n: "t%d_%d%s" % (task, nid, n) for n in mine}
        args = [dict(a, r=names[a["r"]]) if isinstance(a, dict) and "r" in a else a
                for a in other["args"]]
        if share and held:
            kept = {r.choice(held)} | {i for i in held if r.random() < 0.2}
            for i in kept:
                args[i] = op["args"][i]
        other = dict(other, args=args)
        used = set(gen.names_in(args))
        extra = {names[n]: s for n, s in mine.items() if names[n] in used}
        got = answer(w, {**pool, **extra}, other)
        spare = (extra, other)
        if got is not None and not api.same(got, base):
            found.append(spare)
            nid += 1
            if len(found) >= want:
                break
    if not found and spare:
        found, nid = [spare], nid + 1
    for extra, other in found:
        pool.update(extra)
    return [other for _, other in found], nid


# ---- C01 ------------------------------------------------------------------------
class C01:
    pid = "C01"
    title = "concurrent use = serial run in start order"
    lists = ("switches", "sweep", "ops")

    def duel(self, r):
        """two or three callers on the objects of one call, which is stopped at many points in
        turn while the others work"""
        victim = r.choice(VICTIMS if r.random() < 0.85 else api.OPS)
        pool, op = gen.focus(r, victim)
        if not pool:
            code = r.choice(gen.OBJ)
            pool["o0"] = gen.spec(r, code)
        ntasks = r.choice([2, 2, 3])
        have = letters(pool)
        ops, nid = [op], 1
        keep(r, victim, op, dict(have))
        ref_rate = r.choice([0.0, 0.0, 0.4])
        for t in range(1, ntasks):
            mine = dict(have)
            for _ in range(r.choice([1, 2, 3])):
                nid = rival(r, ops, mine, nid, t, op, ref_rate)
        case = {"pool": pool, "ntasks": ntasks, "ops": ops, "first": 0, "switches": []}
        if r.random() < 0.5:
            counts, _, hot = probe_run(case, 0)
        else:
            counts, _ = count_run(case)
            hot = {}
        for name in sorted({n for names in hot.values() for n in names}):
            if name in pool:                 # somebody else looks at it
                ops.insert(1, {"id": nid, "task": 1, "op": "look:" + pool[name][0],
                               "args": [{"r": name}]})
                nid += 1
        case["sweep"] = [[0, k, 1 if k in hot else r.randrange(1, ntasks)]
                         for k in points(r, counts.get(0, 0), 20, hot)]
        return case

    def twins(self, r):
        """the same call twice on one object, with different answers; the kinds take turns"""
        victim = VICTIMS[(r.index // TWIN_EVERY) % len(VICTIMS)]
        pool, op = gen.focus(r, victim)
        others, _ = contrast(r, victim, pool, op, True, 1, 1)
        case = {"pool": pool, "ntasks": 2, "ops": [op] + others, "first": 0, "switches": []}
        counts, _ = count_run(case)
        case["sweep"] = [[0, k, 1] for k in points(r, counts.get(0, 0), 20)]
        return case

    def generate(self, r, tier):
        if r.index % TWIN_EVERY == 4:
            return self.twins(r)
        if r.random() < 0.35:
            return self.duel(r)
        ntasks = r.choice([2, 2, 2, 3, 3, 4])
        allow = gen.OBJ if r.random() < 0.4 else "".join(sorted(
            {gen.pick_code(r) for _ in range(r.randint(1, 3))} | {"V"}))
        pool = gen.pool_specs(r, r.randint(2, 7), allow)
        table = themed_table(r, [o for o in api.OPS])
        ops, _ = make_ops(r, letters(pool), ntasks, r.choice([1, 2, 2, 3, 4]), table,
                          edits=r.choice([0.0, 0.2, 0.4]), parts=r.random() < 0.4)
        case = {"pool": pool, "ntasks": ntasks, "ops": ops, "first": r.randrange(ntasks)}
        counts, _ = count_run(case)
        case["switches"] = gen.place(r, counts, ops, r.choice([1, 2, 4, 8, 16, 30]), ntasks=ntasks)
        return case

    def execute(self, case):
        res = Result()
        wa, wb = world.World(True), world.World(False)
        try:
            self.one(res, wa, wb, case, case["switches"], True)
            for item in case.get("sweep", ()):
                self.one(res, wa, wb, case, [item], False)
        except Violation as v:
            res.violation = (v.kind, v.detail)
        signature(res, case)
        return res

    def one(self, res, wa, wb, case, switches, framed):
        a = Runner(wa, case)
        sim = a.simulate(switches=switches)
        note_sim(res, sim)
        check_hang(a)
        order = list(sim.order)
        by_id = {op["id"]: op for op in case["ops"]}
        b = Runner(wb, case)
        if framed:
            b.observe = Frame(b)
        b.serial([by_id[i] for i in order])
        for oid in order:
            if not api.same(a.out[oid], b.out[oid]):
                raise Violation("result-differs", "%s: interleaved %s, serial %s" % (
                    by_id[oid]["op"], brief(a.out[oid]), brief(b.out[oid])))
        va, vb = a.views(), b.views()
        for name in vb:
            if not api.same(va.get(name), vb[name]):
                raise Violation("state-differs", "%s: interleaved %s, serial %s" % (
                    name, brief(va.get(name)), brief(vb[name])))
        res.events.append(["out", {str(k): v for k, v in sorted(a.out.items())}, va])


class Frame:
    """serial runs: only the objects a call edits may change"""

    def __init__(self, runner):
        self.runner = runner
        self.before = None

    def __call__(self, op, phase):
        views = self.runner.views()
        if phase == 0:
            self.before = views
            return
        _, writes = gen.needs(op)
        for name, old in self.before.items():
            if gen.owner(name) in writes or name == op.get("out"):
                continue
            if name not in views or not api.same(views[name], old):
                o = api.BY_ID[op["op"]]
                kind = "query-modifies" if o.query else "edit-reaches-other-object"
                raise Violation(kind, "%s changed %s from %s to %s" % (
                    op["op"], name, brief(old), brief(views.get(name))))


# ---- C02 ------------------------------------------------------------------------
class C02:
    pid = "C02"
    title = "aborted queries and rejected calls leave no trace"

    lists = ("faults", "sweep", "switches", "ops")

    def cuts(self, r):
        """one query cut short at many points in turn, or one rejected call; then asked again.
        References taken before must still reach their owners afterwards."""
        reject = r.random() < 0.15
        victim = r.choice(api.REJECTS if reject else VICTIMS if r.random() < 0.9 else api.QUERIES)
        pool, op = gen.focus(r, victim, op_id=100)
        if reject:
            op["reject"] = True
        have, ops, nid, held = letters(pool), [], 0, []
        if r.random() < 0.3:
            for name, code in sorted(pool.items()):
                for q in [q for q in REFS if q.home == code[0]]:
                    if r.random() < 0.6:
                        ops.append({"id": nid, "task": 0, "op": q.id, "args": [{"r": name}],
                                    "out": "%s~%d" % (name, nid)})
                        held.append((ops[-1]["out"], result_letter(q)))
                        nid += 1
        ops.append(op)
        nid = 101
        if r.random() < 0.6:
            ops.append(dict(op, id=nid))
            nid += 1
        have.update(held)
        for name, code in held:
            o = r.choice(_edits_of(code))
            use = gen.call(r, o, have, nid, 0)
            if use is not None:
                use["args"][0] = {"r": name}
                ops.append(use)
                nid += 1
        for _ in range(r.choice([0, 1, 2, 3])):
            if have:
                nid = rival(r, ops, have, nid, 0, op, 0.0)
        case = {"pool": pool, "ntasks": 1, "ops": ops, "switches": [], "faults": [], "sweep": []}
        if not reject:
            if r.random() < 0.5:
                counts, _, hot = probe_run(case, 100)
            else:
                counts, _ = count_run(case)
                hot = {}
            case["sweep"] = [[100, k, r.choice(QUERY_FAULTS)]
                             for k in points(r, counts.get(100, 0), 20, hot)]
        return case

    def generate(self, r, tier):
        if r.random() < 0.35:
            return self.cuts(r)
        allow = gen.OBJ if r.random() < 0.4 else "".join(sorted(
            {gen.pick_code(r) for _ in range(r.randint(1, 3))} | {"V"}))
        pool = gen.pool_specs(r, r.randint(2, 6), allow)
        table = themed_table(r, api.OPS)
        have = letters(pool)
        ops, nid = make_ops(r, have, 1, r.choice([1, 2, 3, 5, 8]), table,
                            edits=r.choice([0.0, 0.2, 0.5]), twin=0.3, parts=r.random() < 0.3)
        mixed = []
        for op in ops:
            if r.random() < 0.3:
                o = gen.ops_for(r, api.REJECTS, have)
                rej = gen.call(r, o, have, nid, 0)
                nid += 1
                if rej is not None:
                    rej["reject"] = True
                    mixed.append(rej)
            mixed.append(op)
        ops = mixed
        case = {"pool": pool, "ntasks": 1, "ops": ops, "switches": []}
        counts, _ = count_run(case)
        hit = gen.place(r, counts, ops, r.choice([1, 1, 2, 3]), kinds=QUERY_FAULTS,
                        only=lambda op: api.BY_ID[op["op"]].query and not op.get("reject"))
        for op in ops:
            if op["op"].startswith("Line2D.perpendicular_bisector") or \
                    op["op"].startswith("Segment2D.perpendicular_bisector"):
                if r.random() < 0.5:
                    hit.append([op["id"], 1, "stdout"])
        case["faults"] = hit
        # the same call again, right after the aborted one
        again = []
        hits = {h[0] for h in hit}
        for op in ops:
            again.append(op)
            if op["id"] in hits:
                twin = dict(op)
                twin["id"] = nid
                twin.pop("out", None)
                nid += 1
                again.append(twin)
        case["ops"] = again
        return case

    def execute(self, case):
        res = Result()
        wa, wb = world.World(True), world.World(False)
        try:
            self.one(res, wa, wb, case, case["faults"])
            for item in case.get("sweep", ()):
                self.one(res, wa, wb, case, [item])
        except Violation as v:
            res.violation = (v.kind, v.detail)
        signature(res, case)
        return res

    def one(self, res, wa, wb, case, faults):
        a = Runner(wa, case)
        state = {}

        def watch(op, phase):
            # nothing at all may change across an aborted or rejected call
            if phase == 0:
                state["before"] = a.views()
                return
            out = a.out[op["id"]]
            aborted = op["id"] in a.sim.fault_in or out[0] == "fault"
            rejected = op.get("reject") and out[0] == "exc"
            o = api.BY_ID[op["op"]]
            if o.query and (aborted or rejected):
                now = a.views()
                for name, old in state["before"].items():
                    if name == op.get("out"):
                        continue
                    if not api.same(now.get(name), old):
                        raise Violation("trace-left", "%s, %s, changed %s from %s to %s" % (
                            op["op"], "aborted" if aborted else "rejected", name, brief(old),
                            brief(now.get(name))))
        a.observe = watch
        sim = a.simulate(locked=False, faults=faults)
        note_sim(res, sim)
        check_hang(a)
        for op in case["ops"]:
            if op.get("reject") and a.out.get(op["id"], [0])[0] == "exc":
                res.count("rejected")
                res.nontrivial = True
        gone = {op["id"] for op in case["ops"]
                if op["id"] in sim.fault_in
                or (op.get("reject") and a.out[op["id"]][0] == "exc")}
        keep = [op for op in case["ops"] if op["id"] not in gone]
        lost = {op["out"] for op in case["ops"] if op["id"] in gone and "out" in op}
        # an aborted call that swallowed the fault may have produced its object
        b = Runner(wb, case)
        b.serial(keep)
        for op in keep:
            oid = op["id"]
            if lost & set(gen.names_in(op["args"])):
                if b.out[oid][0] == "skip":
                    continue
            if not api.same(a.out[oid], b.out[oid]):
                raise Violation("later-call-differs", "%s: %s after aborted calls, %s without" % (
                    op["op"], brief(a.out[oid]), brief(b.out[oid])))
        va, vb = a.views(), b.views()
        for name in vb:
            if name in lost:
                continue
            if not api.same(va.get(name), vb[name]):
                raise Violation("state-differs", "%s: %s after aborted calls, %s without" % (
                    name, brief(va.get(name)), brief(vb[name])))
        res.events.append(["out", {str(k): v for k, v in sorted(a.out.items())}, va])


def nudge(r, x):
    """a number that a careless cache might take for x"""
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return x
    p = r.random()
    if p < 0.25:
        return x + r.choice([-1, 1]) * 10.0 ** r.randint(-9, -2) * r.choice([1, 2, 4])
    if p < 0.40:
        return -x if x else -0.0 if str(x)[0] != "-" else 0.0
    if p < 0.50:
        return x + r.choice([360, -360, 1, -1, 0.5, 180])
    if p < 0.60:
        return {-1: -2, -2: -1}.get(x, float(x))
    if p < 0.70:
        return r.choice([0, 0.0, 1, -1])
    return x


def shadow(r, pool, ops, t, nid):
    rate = r.choice([0.1, 0.3, 0.6])

    def alter(x):
        if isinstance(x, list):
            return [alter(v) for v in x]
        return nudge(r, x) if r.random() < rate else x

    def rename(name):
        head, tilde, tail = name.partition("~")
        if head.startswith("t0_"):
            head = "t%d_%s" % (t, head[3:])
        else:
            head = "r%d" % (int(head[1:]) + shift)
        return head + (tilde + str(int(tail) + shift) if tilde else "")

    shift = nid - min([op["id"] for op in ops], default=nid)
    mine = {rename(n): [s[0]] + alter(s[1:]) for n, s in pool.items()}
    out = []
    for op in ops:
        args = []
        for a in op["args"]:
            if isinstance(a, dict) and "r" in a:
                a = dict(a, r=rename(a["r"]))
            elif isinstance(a, dict) and "n" in a:
                a = {"n": [a["n"][0]] + alter(a["n"][1:])}
            elif not isinstance(a, dict):
                b = alter(a)
                a = int(b) if isinstance(a, int) and not isinstance(a, bool) and \
                    api.BY_ID[op["op"]].args[len(args)] == "i" else b
            args.append(a)
        new = dict(op, id=op["id"] + shift, task=t, args=args)
        if "out" in op:
            new["out"] = rename(op["out"])
        out.append(new)
    nid = max([op["id"] for op in out], default=nid - 1) + 1
    return mine, out, nid


CROWD_EVERY = 20
CROWD_OPS = [o for o in api.OPS if o.args or o.kind == "c"]


def deluge(w, kinds, n, seed):
    """a long past: n calls of the given kinds with arguments of their own, nothing kept"""
    r = gen.wear(random.Random(seed), "wide")
    done = 0
    with engine.captured_stdout():
        for i in range(n):
            if i % 7 == 6:
                gen.wear(r, r.choice(gen.STYLES))
            o = r.choice(kinds)
            mine, op = gen.focus(r, o)
            try:
                env = {k: api.build(w, s) for k, s in mine.items()}
                o.invoke(w, [gen.resolve(w, env, a) for a in op["args"]])
                done += 1
            except Exception:
                pass
    return done


def crowd(r, turn, n, first_id=0, prefix="t", table=None, spoil=False,
          style=None):
    """n calls of one or two kinds, each with arguments of its own: some values equal, some a
    little different, most of them not.  The kinds take turns over the whole API."""
    table = table or CROWD_OPS
    kinds = [table[turn % len(table)]]
    if r.random() < 0.4:
        near = [o for o in table if o.home == kinds[0].home and o.kind == kinds[0].kind]
        kinds.append(r.choice(near))
    if any("H" in o.args for o in kinds):
        n = min(n, 60)
    style = style or ("each" if spoil else "") or r.choice(["wide", "wide", "each", "each", "each", r.style])
    if style != "each":
        gen.wear(r, style)
    repeat, close = r.choice([(0.0, 0.0), (0.1, 0.1), (0.4, 0.1), (0.1, 0.5)])
    pool, ops, seen = {}, [], []

    def alter(x):
        if isinstance(x, list):
            return [alter(v) for v in x]
        return nudge(r, x) if r.random() < 0.3 else x

    for i in range(n):
        o = r.choice(kinds)
        if style == "each":
            gen.wear(r, "flat" if spoil and r.random() < 0.3 else r.choice(gen.STYLES))
        mine, op = gen.focus(r, o, first_id + i, i % 3)
        p = r.random()
        if seen and p < repeat + close:
            old, twin = r.choice(seen)
            mine, op = dict(old), dict(twin, id=first_id + i, task=i % 3)
            o = api.BY_ID[op["op"]]
            if p >= repeat:
                mine = {k: [s[0]] + alter(s[1:]) for k, s in mine.items()}
                op["args"] = [alter(a) if c.startswith("f") else a
                              for a, c in zip(op["args"], o.args)]
        elif len(seen) < 30:
            seen.append((mine, op))
        names = {k: "%s%d_%s" % (prefix, i, k) for k in mine}
        pool.update({names[k]: s for k, s in mine.items()})
        op = dict(op, args=[dict(a, r=names[a["r"]]) if isinstance(a, dict) and "r" in a else a
                            for a in op["args"]])
        op.pop("out", None)
        if result_letter(o):
            op["out"] = "%s%d~out" % (prefix, i) if o.result == "ref" else "%s%dout" % (prefix, i)
        ops.append(op)
        if spoil and o.result == "fresh" and "out" in op and r.random() < 0.7:
            edits = _edits_of(result_letter(o))
            if edits:                        # the caller goes on to change what it got
                use = gen.call(r, r.choice(edits), {op["out"]: result_letter(o)}, first_id + n + i,
                               i % 3, 1.0)
                if use is not None:
                    use["args"][0] = {"r": op["out"]}
                    use.pop("out", None)
                    ops.append(use)
    return {"pool": pool, "ntasks": 3, "ops": ops, "switches": [], "faults": [], "first": 0}


# ---- C03 ------------------------------------------------------------------------
class C03:
    pid = "C03"
    title = "independent sessions do not influence one another"

    lists = ("switches", "faults", "sweep", "ops")

    def meet(self, r):
        """two callers, each with objects of their own, make the same few calls; one of them is
        stopped, cut short or torn down at many points in turn; a third caller comes later"""
        code = r.choice(gen.OBJ + "ff")
        if code == "f":
            kinds = r.sample([o for o in api.OPS if o.kind in "fcs"], 2)
        else:
            name = api.CODE[code]
            kinds = r.sample([o for o in api.OPS if o.home == code
                              or (o.kind in "cs" and o.name.split(".")[0] == name)],
                             r.choice([1, 2, 3]))
        pool, ops, nid = {}, [], 0
        for t in range(3):
            if t and r.random() < 0.5:
                first = [op for op in ops if op["task"] == 0]
                extra, sub, nid = shadow(r, {n: s for n, s in pool.items() if n[:3] == "t0_"},
                                         first, t, nid)
            else:
                extra = {"t%d_%d" % (t, i): gen.spec(r, c) for i, c in enumerate(
                    sorted({c for o in kinds for c in o.args if c in api.CODE}))}
                sub = []
                for o in kinds:
                    op = gen.call(r, o, letters(extra), nid, t, 0.1)
                    if op is not None:
                        if o.kind == "c":
                            op["out"] = "r%d" % nid
                        sub.append(op)
                        nid += 1
            pool.update(extra)
            ops.extend(sub)
        case = {"pool": pool, "ntasks": 3, "ops": ops, "switches": [], "first": 0, "faults": [],
                "sweep": []}
        counts, _ = count_run(case)
        first = [op for op in ops if op["task"] == 0 and counts.get(op["id"], 0)]
        if first:
            victim = r.choice(first)
            top = counts[victim["id"]]
            query = api.BY_ID[victim["op"]].query
            for k in sorted(r.sample(range(1, top + 1), min(top, 12))):
                p = r.random()
                item = {"switches": [[victim["id"], k, 1]], "faults": []}
                if p > 0.6:
                    item = {"switches": [], "faults": [
                        [victim["id"], k, r.choice(QUERY_FAULTS + ["kill"]) if query else "kill"]]}
                case["sweep"].append(item)
        return case

    def twins(self, r):
        """two callers make the same call on objects of their own, with different answers, and a
        third one comes later; the kinds take turns"""
        kind = CROWD_OPS[(r.index // TWIN_EVERY) % len(CROWD_OPS)]
        mine, op = gen.focus(r, kind)
        pool = {"t0_" + n: s for n, s in mine.items()}
        op["args"] = [dict(a, r="t0_" + a["r"]) if isinstance(a, dict) and "r" in a else a
                      for a in op["args"]]
        ops = [op]
        for task in (1, 2):
            more, _ = contrast(r, kind, pool, op, False, len(ops), task, want=1, tries=4)
            ops += more
        case = {"pool": pool, "ntasks": 3, "ops": ops, "switches": [], "first": 0, "faults": [],
                "sweep": []}
        counts, _ = count_run(case)
        for k in points(r, counts.get(0, 0), 16):
            item = {"switches": [[0, k, 1]], "faults": []}
            if r.random() < 0.25:
                item = {"switches": [], "faults": [
                    [0, k, r.choice(QUERY_FAULTS + ["kill"]) if kind.query else "kill"]]}
            case["sweep"].append(item)
        return case

    def crowd(self, r):
        """many callers with one call each, of one or two kinds; again in another order"""
        turn = r.index // CROWD_EVERY
        if turn % 2:                         # few calls, after very many others
            kind = CROWD_OPS[(turn // 2) % len(CROWD_OPS)]
            case = crowd(r, turn // 2, 120, style="each")
            n = 1500 if "H" in kind.args else r.choice([2500, 12000])
            case.update(order=r.randrange(1 << 30), live=False,
                        past=[[kind.id], n, r.randrange(1 << 30)])
            return case
        case = crowd(r, turn // 2, r.choice([40, 150, 300, 700, 1300]), spoil=r.random() < 0.8)
        case["order"] = r.randrange(1 << 30)
        case["live"] = live = r.random() < 0.3 and len(case["ops"]) <= 300
        if live:
            counts, _ = count_run(case)
            case["switches"] = gen.place(r, counts, case["ops"], r.choice([2, 6, 20]), ntasks=3)
            case["faults"] = gen.place(r, counts, case["ops"], r.choice([0, 1, 4]),
                                       kinds=QUERY_FAULTS + ["kill"],
                                       only=lambda op: api.BY_ID[op["op"]].query)
        return case

    def generate(self, r, tier):
        if r.index % CROWD_EVERY == 3:
            return self.crowd(r)
        if r.index % TWIN_EVERY == 4:
            return self.twins(r)
        if r.random() < 0.35:
            return self.meet(r)
        ntasks = r.choice([2, 2, 3, 4])
        table = themed_table(r, api.OPS)
        pool, ops, nid = {}, [], 0
        shared_kinds = "".join(sorted(
            {gen.pick_code(r) for _ in range(r.randint(1, 4))} | {"V"}))
        per = r.choice([1, 2, 3, 5])
        rows = []
        plan = model = None
        for t in range(ntasks + 1):              # the last one is a later session
            mine = {"t%d_%d" % (t, i): gen.spec(r, gen.pick_code(r, shared_kinds))
                    for i in range(r.randint(1, 3))}
            pool.update(mine)
            sub, nid = make_ops(r, letters(mine), 1, per, table, edits=r.choice([0.1, 0.3, 0.6]),
                                first_id=nid, twin=0.4, parts=r.random() < 0.3)
            if model and r.random() < 0.35:
                # the same session as the first one, a few numbers slightly different
                for name in mine:
                    del pool[name]
                mine, sub, nid = shadow(r, model[0], model[1], t, nid)
                pool.update(mine)
            elif plan and r.random() < 0.6:
                # same kinds of calls as the first session, other values
                sub = []
                for o in plan:
                    op = gen.call(r, o, letters(mine), nid, t)
                    if op is not None:
                        sub.append(op)
                    nid += 1
            if plan is None:
                plan = [api.BY_ID[op["op"]] for op in sub]
                model = (dict(mine), sub)
            for op in sub:
                op["task"] = t
            rows.extend(sub)
        case = {"pool": pool, "ntasks": ntasks + 1, "ops": rows, "switches": [],
                "first": r.randrange(ntasks)}
        counts, _ = count_run(case)
        early = [op for op in rows if op["task"] < ntasks]
        case["switches"] = gen.place(r, counts, early, r.choice([1, 2, 4, 8, 20]), ntasks=ntasks)
        faults = []
        if r.random() < 0.6:
            faults += gen.place(r, counts, early, r.choice([1, 1, 2]), kinds=["kill"],
                                only=lambda op: op["task"] != 0)
        if r.random() < 0.4:
            faults += gen.place(r, counts, early, r.choice([1, 2]), kinds=QUERY_FAULTS,
                                only=lambda op: api.BY_ID[op["op"]].query)
        case["faults"] = faults
        return case

    def execute(self, case):
        res = Result()
        w = world.World(True)
        try:
            alone = {}
            if "order" in case:
                self.queue(res, case)
                signature(res, case, str(len(case["ops"])) + case["ops"][0]["op"]
                          if case["ops"] else "")
                return res
            self.one(res, w, case, case["switches"], case["faults"], alone)
            for item in case.get("sweep", ()):
                self.one(res, w, case, item["switches"], item["faults"], alone)
        except Violation as v:
            res.violation = (v.kind, v.detail)
        signature(res, case)
        return res

    def queue(self, res, case):
        """the same independent calls in two orders"""
        ops = case["ops"]
        wa = world.World(bool(case["live"]))
        if "past" in case:
            kinds, n, seed = case["past"]
            res.count("past_calls", deluge(wa, [api.BY_ID[k] for k in kinds], n, seed))
        a = Runner(wa, case)
        gone = ()
        if case["live"]:
            sim = a.simulate(locked=False)
            note_sim(res, sim)
            check_hang(a)
            gone = sim.fault_in
        else:
            a.serial(ops)
            res.count("runs")
            res.count("ops", len(ops))
        groups = {}                          # each caller keeps its own order
        for op in ops:
            made = [x["r"] for x in op["args"] if isinstance(x, dict) and "r" in x]
            own = [g for g in made if g.endswith("out")]
            groups.setdefault(own[0] if own else op.get("out", op["id"]), []).append(op)
        keys = list(groups)
        random.Random(case["order"]).shuffle(keys)
        other = [op for k in keys for op in groups[k]]
        res.nontrivial = True
        b = Runner(world.World(False), case)
        b.serial(other)
        res.count("crowd_calls", len(ops))
        lost = {op.get("out") for op in ops if op["id"] in gone or op["id"] not in a.out}
        for op in ops:
            oid = op["id"]
            reads, writes = gen.needs(op)
            if oid in gone or oid not in a.out or lost & (set(reads) | set(writes)):
                lost.update(writes)
                lost.add(op.get("out"))
                continue
            if not api.same(a.out[oid], b.out[oid]):
                raise Violation("order-matters", "call %d of %d, %s: %s, in another order %s" % (
                    oid, len(ops), op["op"], brief(a.out[oid]), brief(b.out[oid])))
        va, vb = a.views(), b.views()
        for name in sorted(vb):
            if name not in lost and not api.same(va.get(name), vb[name]):
                raise Violation("order-matters-state", "%s: %s, in another order %s" % (
                    name, brief(va.get(name)), brief(vb[name])))
        res.events.append(["out", len(ops), brief([a.out[i] for i in sorted(a.out)], 4000)])

    def one(self, res, w, case, switches, faults, alone):
        a = Runner(w, case)
        last = case["ntasks"] - 1
        ops1 = [op for op in case["ops"] if op["task"] != last]
        ops2 = [dict(op, task=0) for op in case["ops"] if op["task"] == last]
        sim = a.simulate(ops=ops1, locked=False, ntasks=last, switches=switches, faults=faults)
        note_sim(res, sim)
        check_hang(a)
        first = Runner.simulate(a, ops=ops2, locked=False, switches=(), faults=(), ntasks=1)
        res.count("ops", len(first.order))
        check_hang(a)
        for t in range(case["ntasks"]):
            mine = [op for op in case["ops"] if op["task"] == t]
            done = []
            for op in mine:          # a session is judged up to its own first fault
                if op["id"] in sim.fault_in or op["id"] not in a.out:
                    break
                done.append(op)
            if not done:
                continue
            hit = len(done) < len(mine)
            names = {n for n in case["pool"] if n.startswith("t%d_" % t)}
            if (t, len(done)) not in alone:
                b = Runner(world.World(False), dict(case, pool={
                    n: s for n, s in case["pool"].items() if n in names}))
                b.serial(done)
                alone[t, len(done)] = b.out, b.views()
            outs, vb = alone[t, len(done)]
            for op in done:
                oid = op["id"]
                if not api.same(a.out[oid], outs[oid]):
                    raise Violation("influence", "session %d, %s: %s with others, %s alone" % (
                        t, op["op"], brief(a.out[oid]), brief(outs[oid])))
            if not hit:
                va = a.views()
                for name in sorted(names):
                    if not api.same(va.get(name), vb[name]):
                        raise Violation("influence-state", "session %d, %s: %s with others, "
                                        "%s alone" % (t, name, brief(va.get(name)),
                                                      brief(vb[name])))
        res.events.append(["out", {str(k): v for k, v in sorted(a.out.items())}])
