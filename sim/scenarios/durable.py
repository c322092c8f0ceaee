"""C26: objects saved in the middle of a history come back in a new process and go on as before."""
import copy
import io
import pickle
import types

from .. import api, engine, gen, world
from ..common import (QUERY_FAULTS, Result, Runner, Violation, brief, count_run, exc_name, note_sim,
                      signature)
from .shared import check_hang, crowd, letters, make_ops, result_letter, themed_table

SAVE = "save"
LOCKS = (engine.SimLock, engine.SimRLock)
CROWD_EVERY = 12


class Saver(pickle.Pickler):
    """pickle, where names of library classes are looked up in the world they belong to"""

    def __init__(self, w, out, protocol):
        super().__init__(out, protocol)
        self.w = w

    def persistent_id(self, obj):
        if isinstance(obj, (type, types.FunctionType)) and \
                getattr(obj, "__module__", None) in self.w.modules:
            at = self.w.modules[obj.__module__]
            try:
                for part in obj.__qualname__.split("."):
                    at = getattr(at, part)
            except AttributeError:
                at = None
            if at is not obj:
                raise pickle.PicklingError("Can't pickle %r" % (obj,))
            return (obj.__module__, obj.__qualname__)
        if isinstance(obj, types.ModuleType):
            raise TypeError("cannot pickle 'module' object")
        if isinstance(obj, LOCKS):
            raise TypeError("cannot pickle '_thread.lock' object")
        return None


class Loader(pickle.Unpickler):
    """the same, in another world"""

    def __init__(self, w, data):
        super().__init__(io.BytesIO(data))
        self.w = w

    def persistent_load(self, pid):
        at = self.w.modules[pid[0]]
        for part in pid[1].split("."):
            at = getattr(at, part)
        return at


def dumps(w, obj, protocol):
    out = io.BytesIO()
    Saver(w, out, protocol).dump(obj)
    return out.getvalue()


class Keeper(Runner):
    """a runner some of whose operations save all objects there are"""

    def __init__(self, w, case):
        super().__init__(w, case)
        self.finished = []
        self.saves = []           # (finished ops, data or copies)

    def need(self, op):
        if op["op"] == SAVE:
            names = set(self.case["pool"])
            for other in self.case["ops"]:
                names.update(gen.names_in(other.get("args", ())))
                if "out" in other:
                    names.add(other["out"])
            return sorted(names | {gen.owner(n) for n in names}), []
        return gen.needs(op)

    def perform(self, op, call):
        if op["op"] != SAVE:
            value = super().perform(op, call)
            if self.out[op["id"]][0] in ("ok", "exc"):
                self.finished.append(op["id"])
            return value
        done = list(self.finished)
        env = dict(self.env)
        mode = self.case["mode"]
        try:
            if mode == "deepcopy":
                kept = call(lambda: copy.deepcopy(env))
            else:
                kept = call(lambda: dumps(self.w, env, self.case["protocol"]))
        except engine.INJECTED as exc:        # this one was not written
            self.out[op["id"]] = ["fault", exc_name(exc)]
            return None
        except engine.SimHang as exc:
            self.out[op["id"]] = ["hang", str(exc)]
            return None
        except Exception as exc:
            raise Violation("cannot-save", "%s of %s: %s: %s" % (
                mode, sorted(letters(self.case["pool"]).items()), exc_name(exc), exc)) from exc
        self.out[op["id"]] = ["ok", "saved"]
        self.saves.append((done, kept))
        return None


class C26:
    pid = "C26"
    title = "checkpoint and restart"
    rule = ("a run is non-trivial when a saved state was restored and used; two runs are the same "
            "when the calls before and after and the preemption and fault points are the same")
    lists = ("faults", "switches", "after", "ops")

    def tour(self, r):
        """many objects of the kinds one call uses, asked before and after; the calls take turns"""
        some = crowd(r, r.index // CROWD_EVERY, r.choice([4, 8, 12]), style="each", spoil=True)
        ops = [dict(op, task=0) for op in some["ops"]]
        top = max(op["id"] for op in ops) + 1
        after = [dict({k: v for k, v in op.items() if k != "out"}, id=op["id"] + top)
                 for op in ops if api.BY_ID[op["op"]].query]
        r.shuffle(after)
        ops.append({"id": 3 * top, "task": 0, "op": SAVE, "args": []})
        return {"pool": some["pool"], "ntasks": 1, "ops": ops, "after": after, "first": 0,
                "switches": [], "faults": [], "mode": r.choice(["pickle", "pickle", "deepcopy"]),
                "protocol": r.choice([2, 4, 5]), "lost": 0}

    def generate(self, r, tier):
        if r.index % CROWD_EVERY == 5:
            return self.tour(r)
        ntasks = r.choice([1, 1, 2, 3])
        allow = gen.OBJ if r.random() < 0.4 else "".join(sorted(
            {gen.pick_code(r) for _ in range(r.randint(1, 3))} | {"V"}))
        pool = gen.pool_specs(r, r.randint(1, 6), allow)
        table = themed_table(r, api.OPS)
        ops, nid = make_ops(r, letters(pool), ntasks, r.choice([1, 2, 3, 5]), table,
                            edits=r.choice([0.2, 0.5]), parts=r.random() < 0.5)
        have = letters(pool)
        for op in ops:
            kind = result_letter(api.BY_ID[op["op"]]) if "out" in op else None
            if kind:
                have[op["out"]] = kind
        after, nid = make_ops(r, have, 1, r.choice([2, 4, 8]), table, edits=r.choice([0.2, 0.5]),
                              first_id=nid, prefix="q", parts=r.random() < 0.5)
        # what was asked before is asked again, and of the objects there are
        again = [op for op in ops if api.BY_ID[op["op"]].query]
        for op in r.sample(again, min(len(again), 3)):
            after.insert(r.randint(0, len(after)),
                         dict({k: v for k, v in op.items() if k != "out"}, id=nid, task=0))
            nid += 1
        for _ in range(r.choice([1, 1, 2])):
            ops.insert(r.randint(0, len(ops)), {"id": nid, "task": r.randrange(ntasks), "op": SAVE,
                                                "args": []})
            nid += 1
        case = {"pool": pool, "ntasks": ntasks, "ops": ops, "after": after,
                "first": r.randrange(ntasks), "switches": [], "faults": [],
                "mode": r.choice(["pickle", "pickle", "deepcopy"]),
                "protocol": r.choice([2, 3, 4, 5]), "lost": r.choice([0, 0, 1])}
        calls = [op for op in ops if op["op"] != SAVE]
        counts, _ = count_run({**case, "ops": calls})
        if ntasks > 1:
            case["switches"] = gen.place(r, counts, calls, r.choice([1, 3, 8]), ntasks=ntasks)
        if r.random() < 0.5:
            case["faults"] = gen.place(r, counts, calls, r.choice([1, 2]), kinds=QUERY_FAULTS,
                                       only=lambda op: api.BY_ID[op["op"]].query)
        return case

    def execute(self, case):
        res = Result()
        try:
            self.restart(case, res)
        except Violation as v:
            res.violation = (v.kind, v.detail)
            res.count("runs")
        signature(res, case, "/".join(op["op"] for op in case["ops"] + case["after"])
                  + case["mode"])
        return res

    def restart(self, case, res):
        a = Keeper(world.World(True), case)
        sim = a.simulate()
        note_sim(res, sim)
        check_hang(a)
        order = list(sim.order)
        if not a.saves:
            return
        done, kept = a.saves[max(0, len(a.saves) - 1 - case["lost"])]   # the last may be lost
        if len(a.saves) > 1 and case["lost"]:
            res.count("fault.lost save")
        # a new process
        same_process = case["mode"] == "deepcopy"
        if same_process:
            w, env, apart = a.w, kept, a.views()
        else:
            w = world.World(False)
            try:
                env = Loader(w, kept).load()
            except Exception as exc:
                raise Violation("cannot-load", "%s: %s" % (exc_name(exc), exc)) from exc
        b = Runner(w, {"pool": {}, "ops": []})
        b.env = env
        # what it should be
        c = Runner(world.World(False), case)
        by_id = {op["id"]: op for op in case["ops"]}
        c.serial([by_id[i] for i in order if i in set(done)])
        for name in list(c.env):
            if name not in env:
                del c.env[name]
        vb, vc = b.views(), c.views()
        for name in sorted(vc):
            if not api.same(vb.get(name), vc[name]):
                raise Violation("restored-value", "%s was %s, restored %s" % (
                    name, brief(vc[name]), brief(vb.get(name))))
        b.serial(case["after"])
        c.serial(case["after"])
        check_hang(b)
        for op in case["after"]:
            x, y = b.out[op["id"]], c.out[op["id"]]
            if not api.same(x, y):
                raise Violation("restored-behaviour", "%s: %s, on restored objects %s" % (
                    op["op"], brief(y), brief(x)))
        vb, vc = b.views(), c.views()
        for name in sorted(vc):
            if not api.same(vb.get(name), vc[name]):
                raise Violation("restored-state", "%s is %s, restored and edited %s" % (
                    name, brief(vc[name]), brief(vb.get(name))))
        if same_process:
            now = a.views()
            for name in sorted(apart):
                if not api.same(now.get(name), apart[name]):
                    raise Violation("copy-not-apart", "%s went from %s to %s when a deep copy "
                                    "was used" % (name, brief(apart[name]), brief(now.get(name))))
        res.nontrivial = True
        res.count("restarts" if not same_process else "deep_copies")
        res.count("ops", len(case["after"]) * 2)
        res.events.append(["out", {str(k): v for k, v in sorted(b.out.items())}, vb])
