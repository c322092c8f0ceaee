"""C04: objects share no mutable state except through documented references.

One history; every object that goes into or comes out of a call has a name.  After each
call, and after each deliberate change ("vandalism") of one named object, every other
named object must look exactly as before.
"""
from .. import api, engine, gen, world
from ..common import (QUERY_FAULTS, Result, Runner, Unbuildable, Violation, brief, exc_name,
                      judging, note_sim, safe_view, signature)
from .shared import check_hang, letters, result_letter, themed_table

VANDALS = {
    "V": ["assign", "invalidate", "set_x", "set_y", "add", "reverse", "scale", "set_vector",
          "+="],
    "A": ["set_degree", "reverse", "+="],
    "L": [], "R": ["origin_", "dir_"], "S": ["assign", "assign4", "reverse", "origin_",
                                             "terminal_"],
    "C": ["assign", "center_"], "Z": ["assign", "set_length"],
    "Q": ["assign", "move_left", "set_right", "top_left_", "size_", "move_center"],
    "T": ["assign", "a_", "c_"], "K": ["assign", "center_", "angle_left_start_"],
    "P": ["clear", "add_vertex", "assign", "vertices_"],
    "M": ["assign", "translate", "reset", "*="],
    "H": ["clear", "add_point", "compute", "input_points_"],
    "list": ["clear", "append", "reverse", "pop"],
}


def vandalise(w, obj, how, n):
    """change one object by a documented edit; n: five small numbers"""
    V = w.cls["Vector2D"]
    code = "list" if isinstance(obj, list) else api.letter(w, obj)
    a, b, c, d, e = n
    if how.endswith("_"):
        part = getattr(obj, how)()
        sub = "list" if isinstance(part, list) else api.letter(w, part)
        vandalise(w, part, {"V": "assign", "A": "set_degree", "Z": "assign",
                            "list": "append"}[sub], n)
        return
    if code == "V":
        if how == "assign":
            obj.assign(a, b)
        elif how == "invalidate":
            if obj.is_valid():
                obj.invalidate()
            else:
                obj.validate()
        elif how in ("set_x", "set_y"):
            getattr(obj, how)(a)
        elif how == "add":
            obj.add(a + 100, b)
        elif how == "scale":
            obj.scale(3)
        elif how == "set_vector":
            obj.set_vector(V(a, b))
        elif how == "reverse":
            obj.reverse()
        elif how == "+=":
            obj += V(a + 50, b)
    elif code == "A":
        if how == "set_degree":
            obj.set_degree(a)
        elif how == "reverse":
            obj.reverse()
        else:
            obj += 17.5
    elif code == "S":
        if how == "assign":
            obj.assign(V(a, b), V(c, d))
        elif how == "assign4":
            obj.assign(a, b, c, d)
        else:
            obj.reverse()
    elif code == "C":
        obj.assign(V(a, b), abs(c))
    elif code == "Z":
        obj.assign(a, b) if how == "assign" else obj.set_length(a)
    elif code == "Q":
        if how == "assign":
            obj.assign(V(a, b), w.cls["Size2D"](c, d))
        elif how == "move_center":
            obj.move_center(V(a, b))
        else:
            getattr(obj, how)(a)
    elif code == "T":
        obj.assign(V(a, b), V(c, d), V(e, a))
    elif code == "K":
        obj.assign(V(a, b), abs(c), abs(c) + abs(d), e, a)
    elif code == "P":
        if how == "clear":
            obj.clear()
        elif how == "add_vertex":
            obj.add_vertex(V(a, b))
        else:
            obj.assign([V(a, b), V(c, d), V(e, a)])
    elif code == "M":
        if how == "assign":
            obj.assign(a, b, c, d, e, a)
        elif how == "translate":
            obj.translate(a + 100, b)
        elif how == "reset":
            obj.reset()
        else:
            obj *= w.cls["Matrix2D"](a, b, c, d, e, a)
    elif code == "H":
        if how == "clear":
            obj.clear()
        elif how == "compute":
            obj.compute()
        else:
            obj.add_point(V(a, b))
    elif code == "list":
        if how == "clear":
            obj.clear()
        elif how == "append":
            obj.append(V(a, b))
        elif how == "reverse":
            obj.reverse()
        elif obj:
            obj.pop()


def spec_num(r):
    return [r.choice([7, -13, 21.5, 4, -6.25, 33, -2, 0.5, 11]) for _ in range(5)]


STORES_POINTS = {"Polygon2D", "ConvexHull"}     # calls that may keep the point objects


def shares_points(o):
    """may the call keep, or hand out, point objects of a polygon or hull?"""
    return (o.home in ("P", "H") or (o.kind == "c" and o.name in STORES_POINTS)
            or o.name == "convex_hull:list2set")


ECHOES = [o for o in api.OPS if o.args or o.kind == "c"]
TOUR_EVERY = 8


class C04:
    pid = "C04"
    title = "no shared mutable state"
    rule = ("a run is non-trivial when at least one object was changed while others that met it in "
            "a call were being watched; two runs are the same when the sequence of calls, changes "
            "and fault points is the same")

    def tour(self, r):
        """one call again and again, what it hands out changed each time; the kinds take turns"""
        kinds = [ECHOES[(r.index // TOUR_EVERY) % len(ECHOES)]]
        ops = []
        for _ in range(r.choice([6, 12, 20])):
            gen.wear(r, r.choice(["flat", "flat"] + gen.STYLES))
            ops.append(self.echo(r, r.choice(kinds), len(ops)))
        return {"pool": {}, "ntasks": 1, "ops": ops, "switches": [], "faults": []}

    def generate(self, r, tier):
        if r.index % TOUR_EVERY == 2:
            return self.tour(r)
        allow = gen.OBJ if r.random() < 0.4 else "".join(sorted(
            {gen.pick_code(r) for _ in range(r.randint(1, 3))} | {"V"}))
        pool = gen.pool_specs(r, r.randint(2, 6), allow)
        table = themed_table(r, api.OPS)
        mine = letters(pool)
        ops = []
        edits = r.choice([0.1, 0.3, 0.5])
        queries = [o for o in table if o.query] or api.QUERIES
        writes = [o for o in table if not o.query] or api.EDITS
        for i in range(r.choice([1, 2, 3, 5, 8])):
            if r.random() < 0.15:
                name = r.choice(list(mine))
                how = VANDALS.get(mine[name])
                if how:
                    ops.append({"id": len(ops), "task": 0, "do": "vandal", "on": name,
                                "how": r.choice(how), "n": spec_num(r)})
                continue
            o = gen.ops_for(r, writes if r.random() < edits else queries, mine)
            if r.random() < 0.2:
                op = self.echo(r, o, len(ops))
                ops.append(op)
                continue
            args = []
            for k, code in enumerate(o.args):
                if code == "AF":
                    code = r.choice(["A", "fa"])
                if code in api.CODE:
                    names = [n for n, c in mine.items() if c == code]
                    if not names or (r.random() < 0.25 and k not in o.writes):
                        name = "x%d_%d" % (len(ops), k)
                        pool[name] = gen.spec(r, code)
                        mine[name] = code
                        names = [name]
                    args.append({"r": r.choice(names)})
                elif code == "VLn":
                    name = "x%d_%d" % (len(ops), k)
                    pool[name] = gen.arg(r, "VLn", {})["n"]
                    mine[name] = "list"
                    args.append({"r": name})
                else:
                    args.append(gen.arg(r, code, mine))
            op = {"id": len(ops), "task": 0, "op": o.id, "args": args, "out": "r%d" % len(ops)}
            ops.append(op)
            kind = result_letter(o)
            met = [a["r"] for a in args if isinstance(a, dict) and "r" in a]
            if kind:
                mine[op["out"]] = kind
                met.append(op["out"])
            if o.name in ("vertices", "input_points", "edges", "vertices_", "input_points_",
                          "edges_"):
                mine[op["out"]] = "list"
                met += [op["out"]] * 2
            # now change what went in or came out
            for _ in range(r.choice([1, 1, 2, 3])):
                if not met:
                    break
                name = r.choice(met)
                how = VANDALS.get(mine[name])
                if how:
                    ops.append({"id": len(ops), "task": 0, "do": "vandal", "on": name,
                                "how": r.choice(how), "n": spec_num(r)})
            if not kind and r.random() < 0.5:
                # components of a compound result
                ops.append({"id": len(ops), "task": 0, "do": "vandal", "on": "%s.%d" % (
                    op["out"], r.randint(0, 2)), "how": "assign", "n": spec_num(r)})
        case = {"pool": pool, "ntasks": 1, "ops": ops, "switches": [], "faults": []}
        if r.random() < 0.35:
            try:
                sim = self.run(case, Result())
            except (Violation, Unbuildable):
                sim = None
            if sim is not None:
                case["faults"] = gen.place(
                    r, sim.counts, [op for op in ops if "op" in op], r.choice([1, 2]),
                    kinds=QUERY_FAULTS, only=lambda op: api.BY_ID[op["op"]].query)
        return case

    def echo(self, r, o, oid):
        args = [gen.arg(r, code, {}, 1.0) for code in o.args]
        return {"id": oid, "task": 0, "do": "echo", "call": o.id, "args": args,
                "n": spec_num(r), "hows": [r.randrange(1 << 20) for _ in range(4)]}

    # -- execution ---------------------------------------------------------
    def run(self, case, res, faults=()):
        w = world.World(True)
        a = Runner(w, {"pool": case["pool"], "ops": []})
        st = State(w, a)

        def do_op(sim, task, op):
            if op.get("do") == "vandal":
                st.vandal(op)
                res.count("changes")
                return
            if op.get("do") == "echo":
                st.echo(sim, task, op)
                res.count("echoes")
                return
            st.call(sim, task, op)

        sim = engine.Sim(case["ops"], 1, (), faults, do_op)
        st.sim = sim
        with engine.captured_stdout():
            sim.run(0)
        st.finish()
        res.events.append(["views", {k: st.image(k) for k in sorted(a.env)}])
        return sim

    def execute(self, case):
        res = Result()
        try:
            sim = self.run(case, res, case["faults"])
            note_sim(res, sim)
            res.nontrivial = res.stats.get("changes", 0) + res.stats.get("echoes", 0) > 0
        except Violation as v:
            res.violation = (v.kind, v.detail)
            res.count("runs")
        signature(res, {"ops": [op for op in case["ops"] if "op" in op]},
                  "/".join(op.get("op") or "%s %s" % (op.get("call") or op.get("on"),
                                                      op.get("how", ""))
                           for op in case["ops"]))
        return res


class State:
    def __init__(self, w, runner):
        self.w, self.env = w, runner.env
        self.group = {n: n for n in self.env}      # objects that are one and the same
        self.ref = {}                              # ref name -> (owner name, accessor)
        self.frozen = set()                        # points that may live inside a polygon or hull
        self.images = {n: self.image(n) for n in self.env}

    def image(self, name):
        return safe_view(self.w, self.env[name])

    def find(self, n):
        while self.group[n] != n:
            n = self.group[n]
        return n

    def related(self, name):
        """names that may legitimately change when `name` is edited"""
        out, size = {name}, 0
        while len(out) != size:
            size = len(out)
            for ref, (owner, _) in self.ref.items():
                if ref in out or owner in out:
                    out |= {ref, owner}
            roots = {self.find(n) for n in out}
            out |= {n for n in self.env if self.find(n) in roots}
        return out

    def compare(self, allowed, what):
        for name in list(self.env):
            now = self.image(name)
            if name not in allowed and name in self.images and \
                    not api.same(now, self.images[name]):
                raise Violation("shared-state", "%s changed %s from %s to %s" % (
                    what, name, brief(self.images[name]), brief(now)))
            self.images[name] = now

    def drop_refs(self, name):
        """the owner was edited: references taken before promise nothing any more"""
        root = self.find(name)
        gone = [r for r, (owner, _) in self.ref.items() if self.find(owner) == root]
        for ref in gone:
            del self.ref[ref]
        roots = {self.find(r) for r in gone}
        for n in [n for n in self.env if self.find(n) in roots]:
            self.forget(n)

    def forget(self, name):
        self.env.pop(name, None)
        self.images.pop(name, None)
        self.frozen.discard(name)

    # -- steps --
    def call(self, sim, task, op):
        o = api.BY_ID[op["op"]]
        env = self.env
        try:
            vals = [gen.resolve(self.w, env, x) for x in op["args"]]
        except KeyError:
            return
        allowed = set()
        if not o.query and o.kind != "r":
            for i in o.writes:
                if "r" in op["args"][i]:
                    self.drop_refs(op["args"][i]["r"])
        try:
            vals = [gen.resolve(self.w, env, x) for x in op["args"]]
        except KeyError:
            return
        for i in o.writes:
            allowed |= self.related(op["args"][i]["r"])
        value = None
        try:
            value = sim.call(task, op, lambda: o.invoke(self.w, vals))
        except engine.SimHang:
            raise Violation("hang", op["op"])
        except engine.INJECTED:
            pass
        except Exception:
            pass
        names = gen.names_in(op["args"])
        if shares_points(o):
            for n in names:
                if api.letter(self.w, env[n]) == "V":
                    self.frozen.add(n)
        self.compare(allowed, op["op"])
        if value is not None and o.kind != "r":
            self.adopt(op, o, value, shares_points(o))

    def adopt(self, op, o, value, pointy):
        name = op["out"]
        if isinstance(value, (list, tuple)):
            if o.name in ("vertices", "input_points", "edges", "vertices_", "input_points_",
                          "edges_", "convex_hull:list2set"):
                if isinstance(value, list):
                    self.add(name, value, op, o)
            else:
                for i, item in enumerate(value):
                    if api.letter(self.w, item):
                        self.add("%s.%d" % (name, i), item, op, o)
            return
        if api.letter(self.w, value):
            self.add(name, value, op, o)

    def add(self, name, value, op, o):
        self.env[name] = value
        self.group[name] = name
        if o.result == "self":
            self.group[name] = self.find(op["args"][0]["r"])
        elif o.result == "arg1":
            self.group[name] = self.find(op["args"][1]["r"])
        elif o.result == "ref":
            self.ref[name] = (op["args"][0]["r"], o.name)
        self.images[name] = self.image(name)

    def vandal(self, op):
        name = op["on"]
        obj = self.env.get(name)
        if obj is None or name in self.frozen:
            return
        code = "list" if isinstance(obj, list) else api.letter(self.w, obj)
        if op["how"] not in VANDALS.get(code, ()):
            return
        if name not in self.ref and not op["how"].endswith("_"):
            self.drop_refs(name)
        if name in self.ref:
            owner, accessor = self.ref[name]
            if owner not in self.env:
                return
        allowed = self.related(name)
        what = "changing %s (%s, %s)" % (name, code, op["how"])
        try:
            vandalise(self.w, obj, op["how"], op["n"])
        except engine.INJECTED + (engine.SimHang,):
            raise
        except Exception:
            pass           # an edit may refuse; whatever it did is still compared
        self.compare(allowed, what)
        if name in self.ref:
            owner, accessor = self.ref[name]
            with judging(what):
                seen = api.canon(self.w, getattr(self.env[owner], accessor.rstrip("_"))())
                mine = api.canon(self.w, obj)
            if not api.close(seen, mine):
                raise Violation("reference-cut", "%s through %s of %s did not reach it: %s, "
                                "owner says %s" % (what, accessor, owner, brief(mine),
                                                   brief(seen)))

    def echo(self, sim, task, op):
        """same call, same plain arguments: what happened to the first result or to the
        first arguments has no effect on the second"""
        o = api.BY_ID[op["call"]]
        w = self.w
        results = []
        for turn in (0, 1):
            try:
                vals = [gen.resolve(w, {}, x) for x in op["args"]]
            except Exception as exc:
                raise Unbuildable(repr(exc))
            value, image = None, None
            try:
                value = sim.call(task, op, lambda: o.invoke(w, vals))
            except engine.SimHang:
                raise Violation("hang", o.id)
            except engine.INJECTED:
                return
            except Exception as exc:
                image = ["exc", exc_name(exc)]
            if image is None:
                image = ["ok", api.canon(w, value), [api.canon(w, v) for v in vals]]
            results.append(image)
            if turn == 0:
                todo = list(value) if isinstance(value, (list, tuple)) else [value]
                if isinstance(value, list):
                    value.reverse()
                for i, v in enumerate(todo + vals):
                    code = api.letter(w, v)
                    hows = VANDALS.get(code)
                    if hows:
                        try:
                            vandalise(w, v, hows[op["hows"][i % 4] % len(hows)], op["n"])
                        except Exception:
                            pass
        self.compare(set(), op["call"])
        if not api.same(results[0], results[1]):
            raise Violation("echo", "%s%s: %s first, %s after its result and arguments were "
                            "changed" % (o.id, brief(op["args"]), brief(results[0]),
                                         brief(results[1])))

    def finish(self):
        self.compare(set(), "end of history")
