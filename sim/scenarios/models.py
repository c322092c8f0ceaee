"""C08 rectangles, C09 angles, C10 transforms, C11 points, C15 polygons, C25 the other shapes:
every step of a multi-caller history refines a reference model.

The model state of an object is the value visible just before the step, so rounding
never accumulates; an edit must produce what plain arithmetic gives, every accessor must
agree with it, and nothing else may change.
"""
import math

from .. import api, gen, world
from ..common import (QUERY_FAULTS, Result, Runner, Violation, brief, count_run, judging, note_sim,
                      signature)
from .shared import check_hang, letters, result_letter

TOL = 1e-9


def near(a, b, scale=1.0, tol=TOL):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return False
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(scale), abs(a), abs(b))


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


# which accessors hand out a part of an object, by the type of the part
PARTS = {"V": (("S", "origin_"), ("S", "terminal_"), ("R", "origin_"), ("C", "center_"),
               ("T", "a_"), ("T", "b_"), ("T", "c_"), ("K", "center_"), ("Q", "top_left_")),
         "A": (("R", "dir_"), ("K", "angle_left_start_"), ("K", "angle_right_end_")),
         "Z": (("Q", "size_"),),
         "VLn": (("P", "vertices_"),)}
PARTS["AF"] = PARTS["A"]


def part_of(arg, owner):
    return isinstance(arg, dict) and "via" in arg and arg["r"] == owner.get("r")


def outgrown(x):
    """a history that multiplies itself has left the range in which arithmetic means anything"""
    if isinstance(x, (list, tuple)):
        return any(outgrown(t) for t in x)
    if isinstance(x, str):
        return x.lower().lstrip("-") in ("nan", "inf")
    return num(x) and not abs(x) <= 1e30


class ModelScenario:
    kinds = ""            # letters of the pool
    main = ""             # letter of the modelled type
    strict_build = True

    def table(self):
        out = []
        for o in api.OPS:
            if o.home == self.main or (o.kind in "cs" and (
                    o.name.split(".")[0] == api.CODE[self.main])):
                out.append(o)
        return out

    def generate(self, r, tier):
        self.choose(r)
        ntasks = r.choice([1, 1, 2, 2, 3])
        pool = {}
        for i in range(r.randint(1, 3)):
            pool["m%d" % i] = self.fresh(r)
        if r.random() < 0.15:                    # almost the same, or exactly
            pool["m9"] = self.twin(r, pool["m0"])
        for code in self.kinds:
            for i in range(r.randint(0, 2)):
                pool["%s%d" % (code.lower(), i)] = gen.spec(r, code)[:(3 if code == "V" else 99)]
        table = self.table()
        n = r.choice([3, 6, 12, 99])
        if n < len(table):
            table = r.sample(table, n)
        edits = [o for o in table if not o.query] or [o for o in self.table() if not o.query]
        queries = [o for o in table if o.query] or [o for o in self.table() if o.query]
        mine = letters(pool)
        pools = {t: dict(mine) for t in range(ntasks)}
        ops = []
        p_edit = r.choice([0.5, 0.7, 0.9])
        for i in range(r.choice([1, 2, 4, 8, 14]) * ntasks):
            t = i % ntasks
            o = r.choice(edits if r.random() < p_edit else queries)
            if ntasks > 1 and o is api.MOVE_VERTEX:      # points may be shared between polygons
                continue
            op = gen.call(r, o, pools[t], len(ops), t, fresh=r.choice([0.2, 0.6]))
            if op is None:
                continue
            self.season(r, o, op, pools[t])
            if r.random() < 0.12 and len(o.args) > 1 and o.args[1] == o.args[0]:
                op["args"][1] = op["args"][0]        # aliased operand
            for j, code in enumerate(o.args):        # operand that is a part of some object
                if j not in o.writes and code in PARTS and r.random() < 0.12 and not (
                        o.name == "extend" and any("via" in x for q in ops for x in q["args"]
                                                   if isinstance(x, dict))):
                    owners = [(n, via) for n, c in sorted(pools[t].items())
                              for k, via in PARTS[code] if k == c]
                    if owners:
                        n, via = r.choice(owners)
                        if o.writes and r.random() < 0.5:
                            n = op["args"][o.writes[0]]["r"]
                            via = r.choice([v for k, v in PARTS[code] if k == pools[t][n]] or [via])
                        if (pools[t][n], via) in PARTS[code]:
                            op["args"][j] = {"r": n, "via": via}
            if o.result == "fresh" and r.random() < 0.4 and result_letter(o) == self.main:
                op["out"] = "r%d" % len(ops)
                pools[t][op["out"]] = self.main
            ops.append(op)
            if o.writes and r.random() < 0.25:       # once more, with one number changed
                again = gen.vary(r, o, op["args"])
                if again != op["args"]:
                    ops.append(dict(op, id=len(ops), args=again))
        case = {"pool": pool, "ntasks": ntasks, "ops": ops, "first": 0, "main": self.main}
        counts, _ = count_run(case)
        case["switches"] = []
        if ntasks > 1:
            case["switches"] = gen.place(r, counts, ops, r.choice([2, 4, 8]), ntasks=ntasks,
                                         early=0.5)
        case["faults"] = []
        if r.random() < 0.5:
            case["faults"] = gen.place(r, counts, ops, r.choice([1, 2]), kinds=QUERY_FAULTS,
                                       only=lambda op: api.BY_ID[op["op"]].query)
        return case

    def choose(self, r):
        pass

    def season(self, r, o, op, pool):
        pass

    def twin(self, r, spec):
        out = list(spec)
        at = [i for i, x in enumerate(out) if num(x)]
        if at and r.random() < 0.8:
            i = r.choice(at)
            out[i] += r.choice([-1, 1]) * 10.0 ** r.randint(-9, -1)
        return out

    def fresh(self, r):
        return gen.spec(r, self.main)[:(3 if self.main == "V" and r.random() < 0.7 else 99)]

    def execute(self, case):
        res = Result()
        self.main = case.get("main", self.main)
        w = world.World(True)
        a = Runner(w, case)
        before = {}
        with judging("new objects"):
            known = {name: api.canon(w, obj) for name, obj in a.env.items()}
        self.begin(a)

        def unmoved(name, image):
            """between two calls on an object nothing happens to it"""
            if name in known and not api.same(known[name], image):
                raise Violation("moved-by-others", "%s went from %s to %s without being edited" % (
                    name, brief(known[name]), brief(image)))

        def watch(op, phase):
            oid = op["id"]
            vals = a.vals[oid]
            with judging(op["op"]):
                images = [api.canon(w, v) for v in vals]
            if phase == 0:
                before[oid] = images
                for arg, image in zip(op["args"], images):
                    if isinstance(arg, dict) and "r" in arg and "via" not in arg:
                        unmoved(arg["r"], image)
                return
            o = api.BY_ID[op["op"]]
            out = a.out[oid]
            if out[0] == "hang":
                raise Violation("hang", op["op"])
            old = before.pop(oid)
            faulted = oid in a.sim.fault_in
            for arg, image in zip(op["args"], images):
                if isinstance(arg, dict) and "r" in arg and "via" not in arg:
                    known[arg["r"]] = image
            if o is api.MOVE_VERTEX:
                self.follow(a, vals, known)
            if op.get("out") in a.env:
                known[op["out"]] = api.canon(w, a.env[op["out"]])
            aliased = {i for i in range(len(vals)) for j in o.writes
                       if vals[i] is vals[j] or part_of(op["args"][i], op["args"][j])}
            for i in range(len(vals)):
                if i in o.writes or i in aliased:
                    continue
                if not api.same(old[i], images[i]):
                    raise Violation("operand-changed", "%s changed its argument %d from %s to %s"
                                    % (op["op"], i, brief(old[i]), brief(images[i])))
            if faulted or outgrown(old):
                return
            with judging(op["op"]):
                self.step(a, op, o, old, images, out)
                for i, v in enumerate(vals):
                    if i in o.writes or api.letter(w, v) == self.main:
                        if api.letter(w, v) == self.main:
                            self.consistent(w, v, op["op"])

        a.observe = watch
        try:
            sim = a.simulate()
            note_sim(res, sim)
            check_hang(a)
            for name, obj in sorted(a.env.items()):
                unmoved(name, api.canon(w, obj))
                if api.letter(w, obj) == self.main and not outgrown(api.canon(w, obj)):
                    with judging("end of history"):
                        self.consistent(w, obj, "end of history, " + name)
            self.end(a)
            res.count("edits", sum(1 for op in case["ops"] if not api.BY_ID[op["op"]].query))
            res.events.append(["out", {str(k): v for k, v in sorted(a.out.items())}, a.views()])
            if len(case["ops"]) >= 2:
                res.nontrivial = True
        except Violation as v:
            res.violation = (v.kind, v.detail)
        signature(res, case, "/".join(op["op"] for op in case["ops"]))
        return res

    rule = ("a run is non-trivial when its history has two or more calls; two runs are the same "
            "when both the sequence of call kinds and the preemption/fault points are the same")

    def begin(self, a):
        pass

    def end(self, a):
        pass

    def step(self, a, op, o, old, new, out):
        raise NotImplementedError

    def consistent(self, w, obj, where):
        raise NotImplementedError


def wrong(op, what, got, want):
    raise Violation("model-" + what, "%s: %s is %s, the history says %s" % (
        op, what, brief(got), brief(want)))


def need_ok(o, out):
    """the calls modelled here never fail on the generated inputs"""
    if out[0] != "ok":
        raise Violation("call-fails", "%s: %s" % (o.id, brief(out)))


# ---- C08 -------------------------------------------------------------------------
class C08(ModelScenario):
    pid = "C08"
    main = "Q"
    kinds = "VZ"

    def rect(self, view):
        return [view[1][0], view[1][1], view[2], view[3]]

    def step(self, a, op, o, old, new, out):
        v = old
        name = o.name
        if o.kind == "c":
            if out[0] == "ok":
                self.compare(o.id, self.rect(out[1]), self.built(o, v))
            else:
                need_ok(o, out)
            return
        if o.kind == "s":
            need_ok(o, out)
            if len(v) == 4:
                cx, cy, ln, wd = v
            else:
                cx, cy, ln, wd = v[0][1], v[0][2], v[1], v[2]
            self.compare(o.id, self.rect(out[1]), [cx - ln * 0.5, cy - wd * 0.5, ln, wd])
            return
        x, y, ln, wd = self.rect(v[0])
        r, b = x + ln, y + wd
        if o.query:
            if name == "intersected" or name == "united":
                need_ok(o, out)
                self.combine(o, [x, y, ln, wd], self.rect(v[1]), self.rect(out[1]))
            return
        need_ok(o, out)
        got = self.rect(new[0])
        if o.kind == "r":
            if o.via == "size_":
                if name == "assign":
                    want = [x, y, abs(v[1]), abs(v[2])]
                elif name == "set_length":
                    want = [x, y, abs(v[1]), wd]
                else:
                    want = [x, y, ln, abs(v[1])]
            else:
                if name == "assign":
                    want = [v[1], v[2], ln, wd]
                elif name == "set_x":
                    want = [v[1], y, ln, wd]
                else:
                    want = [x, v[1], ln, wd]
        elif name == "assign":
            want = self.built(o, v[1:], o.args[1:])
        elif name == "move_center":
            want = [v[1][1] - ln * 0.5, v[1][2] - wd * 0.5, ln, wd]
        elif name == "move_top_left":
            want = [v[1][1], v[1][2], ln, wd]
        elif name == "move_bottom_right":
            want = [v[1][1] - ln, v[1][2] - wd, ln, wd]
        elif name in ("move_left", "move_min_x"):
            want = [v[1], y, ln, wd]
        elif name in ("move_right", "move_max_x"):
            want = [v[1] - ln, y, ln, wd]
        elif name in ("move_top", "move_min_y"):
            want = [x, v[1], ln, wd]
        elif name in ("move_bottom", "move_max_y"):
            want = [x, v[1] - wd, ln, wd]
        elif name in ("set_left", "set_min_x"):
            want = span(r, v[1], 0, [x, y, ln, wd])
        elif name in ("set_right", "set_max_x"):
            want = span(x, v[1], 0, [x, y, ln, wd])
        elif name in ("set_top", "set_min_y"):
            want = span(b, v[1], 1, [x, y, ln, wd])
        elif name in ("set_bottom", "set_max_y"):
            want = span(y, v[1], 1, [x, y, ln, wd])
        elif name in ("set_top_left", "set_bottom_right"):
            px, py = (v[1], v[2]) if len(v) == 3 else (v[1][1], v[1][2])
            fx, fy = (r, b) if name == "set_top_left" else (x, y)
            want = span(fy, py, 1, span(fx, px, 0, [x, y, ln, wd]))
        elif name == "set_length":
            want = [x, y, abs(v[1]), wd]
        elif name == "set_width":
            want = [x, y, ln, abs(v[1])]
        elif name == "set_size":
            want = [x, y, abs(v[1]), abs(v[2])] if len(v) == 3 else [x, y, v[1][1], v[1][2]]
        else:
            raise AssertionError(o.id)
        self.compare(o.id, got, want, max(abs(t) for t in (x, y, ln, wd, r, b)))

    def built(self, o, v, kinds=None):
        kinds = kinds or o.args
        if len(v) == 4:
            return [v[0], v[1], abs(v[2]), abs(v[3])]
        if len(v) == 3:
            return [v[0][1], v[0][2], abs(v[1]), abs(v[2])]
        if len(v) == 1:
            return self.rect(v[0])
        if kinds[1] == "Z":
            return [v[0][1], v[0][2], v[1][1], v[1][2]]
        (x0, y0), (x1, y1) = v[0][1:3], v[1][1:3]
        return [min(x0, x1), min(y0, y1), abs(x1 - x0), abs(y1 - y0)]

    def compare(self, where, got, want, scale=0.0):
        scale = max([abs(t) for t in want] + [scale])
        for g, e, what in zip(got, want, ("left", "top", "length", "width")):
            if not near(g, e, scale):
                wrong(where, what, got, want)

    def combine(self, o, p, q, got):
        scale = max(abs(t) for t in p + q) * 2
        if min(p[2], p[3], q[2], q[3]) <= 0:
            want = [0, 0, 0, 0]
        elif o.name == "united":
            x, y = min(p[0], q[0]), min(p[1], q[1])
            want = [x, y, max(p[0] + p[2], q[0] + q[2]) - x, max(p[1] + p[3], q[1] + q[3]) - y]
        else:
            x, y = max(p[0], q[0]), max(p[1], q[1])
            ln = min(p[0] + p[2], q[0] + q[2]) - x
            wd = min(p[1] + p[3], q[1] + q[3]) - y
            slack = 1e-9 * max(1.0, scale)
            if 0 < abs(ln) < slack or 0 < abs(wd) < slack:
                return
            want = [x, y, ln, wd] if ln > 0 and wd > 0 else [0, 0, 0, 0]
        self.compare(o.id, got, want, scale)

    def consistent(self, w, q, where):
        x, y, ln, wd = self.rect(api.view(w, q))
        if ln < 0 or wd < 0:
            wrong(where, "size", [ln, wd], "non-negative")
        r, b = x + ln, y + wd
        scale = max(abs(t) for t in (x, y, ln, wd, r, b))
        for got, want, what in (
                (q.left(), x, "left"), (q.right(), r, "right"), (q.top(), y, "top"),
                (q.bottom(), b, "bottom"), (q.min_x(), x, "min_x"), (q.max_x(), r, "max_x"),
                (q.min_y(), y, "min_y"), (q.max_y(), b, "max_y"),
                (q.size_().length(), ln, "size_"), (q.size_().width(), wd, "size_"),
                (q.top_left_().x(), x, "top_left_"), (q.top_left_().y(), y, "top_left_")):
            if not near(got, want, scale):
                wrong(where, what, got, want)
        if not near(q.area(), ln * wd, scale):
            wrong(where, "area", q.area(), ln * wd)
        for p, want, what in ((q.center(), (x + ln / 2, y + wd / 2), "center"),
                              (q.top_right(), (r, y), "top_right"),
                              (q.bottom_left(), (x, b), "bottom_left"),
                              (q.bottom_right(), (r, b), "bottom_right")):
            if not (near(p.x(), want[0], scale) and near(p.y(), want[1], scale)):
                wrong(where, what, [p.x(), p.y()], want)
        if (ln > 1e-9 and wd > 1e-9) != q.is_valid() and (ln == 0 or wd == 0 or
                                                          min(ln, wd) > 1e-9):
            wrong(where, "is_valid", q.is_valid(), [ln, wd])


def span(fixed, moved, axis, rect):
    """side `moved` placed, opposite side `fixed` kept, swapped when they cross"""
    out = list(rect)
    out[axis] = min(fixed, moved)
    out[axis + 2] = abs(moved - fixed)
    return out


# ---- C09 -------------------------------------------------------------------------
def deg_of(x):
    return x[1] if isinstance(x, list) else x


class C09(ModelScenario):
    pid = "C09"
    main = "A"
    kinds = ""

    def table(self):
        skip = ("is_", "tan", "acos", "asin", "atan", "bisect", "normalize_angle", "repr",
                "str", "rad2deg", "deg2rad", "cos_deg", "sin_deg", "hash")
        return [o for o in super().table() if not o.name.split(".")[-1].startswith(skip)]

    def season(self, r, o, op, pool):
        for i, code in enumerate(o.args):          # many turns at once
            if code in ("fa", "AF") and num(op["args"][i]) and r.random() < 0.06:
                op["args"][i] = r.choice([-1, 1]) * (r.choice([1e5, 1e6, 1e7, 2e7]) +
                                                     r.randint(0, 720) / 2)

    def congruent(self, where, got, want, what="degree"):
        if not num(got) or not -180.0 <= got <= 180.0:
            wrong(where, "range", got, "[-180, 180]")
        if not self.fits(got, want):
            wrong(where, what, got, want)

    def fits(self, got, want):
        if not num(got) or not -180.0 <= got <= 180.0:
            return False
        diff = math.fmod(got - want, 360.0)
        diff = min(abs(diff), abs(abs(diff) - 360.0))
        return diff <= 1e-9 * max(1.0, abs(want))

    def step(self, a, op, o, old, new, out):
        v, name = old, o.name
        if o.kind == "c":
            need_ok(o, out)
            self.congruent(o.id, out[1][1], deg_of(v[0]) if v else 0.0)
            return
        d = v[0][1]
        other = deg_of(v[1]) if len(v) > 1 else None
        if not o.query:
            need_ok(o, out)
            got = new[0][1]
            want = {"+=": lambda: d + other, "-=": lambda: d - other, "*=": lambda: d * other,
                    "set_degree": lambda: other, "set_angle": lambda: other,
                    "normal": lambda: d, "reverse": lambda: d + 180.0}[name]()
            self.congruent(o.id, got, want)
            return
        if name == "//":
            # the code divides, its documentation says it floors: either is division
            if other != 0:
                need_ok(o, out)
                exact = d / other
                if not any(self.fits(out[1][1], want) for want in (exact, math.floor(exact))):
                    wrong(o.id, "quotient", out[1], exact)
            return
        need_ok(o, out)
        got = out[1]
        if name in ("+", "-", "*", "neg", "copy", "reverse_angle"):
            want = {"+": lambda: d + other, "-": lambda: d - other, "*": lambda: d * other,
                    "neg": lambda: -d, "copy": lambda: d, "reverse_angle": lambda: d + 180.0}[name]()
            self.congruent(o.id, got[1], want)
        elif name in ("degree", "degree_", "float"):
            if not near(got, d):
                wrong(o.id, "degree", got, d)
        elif name == "radian":
            if not near(got, math.radians(d)):
                wrong(o.id, "radian", got, math.radians(d))
        elif name == "abs":
            if not near(got, abs(d)):
                wrong(o.id, "abs", got, abs(d))
        elif name == "sin" or name == "cos":
            want = getattr(math, name)(math.radians(d))
            if not near(got, want):
                wrong(o.id, name, got, want)
        elif name == "get_normalized":
            if not near(got, (d + 180) / 360):
                wrong(o.id, "get_normalized", got, (d + 180) / 360)
        elif name in ("==", "!="):
            gap = abs(d - other)
            if gap == 0 or (1e-3 < gap < 359 and isinstance(v[1], list)):
                if got != repr((gap == 0) == (name == "==")):
                    wrong(o.id, name, got, [d, other])

    def consistent(self, w, obj, where):
        d = obj.degree()
        for got in (d, obj.degree_(), float(obj)):
            self.congruent(where, got, d)
        if not near(obj.sin(), math.sin(math.radians(d))) or \
                not near(obj.cos(), math.cos(math.radians(d))):
            wrong(where, "sine or cosine", [obj.sin(), obj.cos()], d)
        if not near(obj.radian(), math.radians(d)):
            wrong(where, "radian", obj.radian(), d)


# ---- C10 -------------------------------------------------------------------------
def mul(p, q):
    return [p[0] * q[0] + p[1] * q[2], p[0] * q[1] + p[1] * q[3],
            p[2] * q[0] + p[3] * q[2], p[2] * q[1] + p[3] * q[3],
            p[0] * q[4] + p[1] * q[5] + p[4], p[2] * q[4] + p[3] * q[5] + p[5]]


def rot(d):
    c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
    return [c, -s, s, c, 0.0, 0.0]


def mag(*ms):
    top = 1.0
    for m in ms:
        top *= max([1.0] + [abs(t) for t in m])
    return top * 4


class C10(ModelScenario):
    pid = "C10"
    main = "M"
    kinds = "VA"

    def compare(self, where, got, want, scale, what="coefficients"):
        for g, e in zip(got, want):
            if not near(g, e, scale):
                wrong(where, what, got, want)

    def step(self, a, op, o, old, new, out):
        v, name = old, o.name
        if o.kind == "c":
            need_ok(o, out)
            want = [t for t in v] if v else [1.0, 0.0, 0.0, 1.0, 0.0, 0.0]
            self.compare(o.id, out[1][1:], want, 0)
            return
        if o.kind == "s":
            need_ok(o, out)
            short = name.split(".")[1]
            want = {"make_translation": lambda: [1, 0, 0, 1, v[0], v[1]],
                    "make_scaling": lambda: [v[0], 0, 0, v[1], 0, 0],
                    "make_rotation": lambda: rot(v[0][1])}[short]()
            self.compare(o.id, out[1][1:], want, 0)
            return
        m = v[0][1:]
        if name in ("transform", "transform_vec") or (name == "*" and v[1][0] == "V"):
            need_ok(o, out)
            x, y = (v[1], v[2]) if len(v) == 3 else v[1][1:3]
            want = [m[0] * x + m[1] * y + m[4], m[2] * x + m[3] * y + m[5]]
            got = out[1][1:3]
            scale = mag(m, [x, y])
            self.compare(o.id, got, want, scale, "mapped point")
            if name == "transform_vec":
                self.compare(o.id, new[1][1:3], want, scale, "mapped point")
            return
        if not o.query:
            need_ok(o, out)
            got = new[0][1:]
            if name == "*=":
                q = v[1][1:]
                self.compare(o.id, got, mul(m, q), mag(m, q))
                if not api.same(out[1], new[0]):
                    wrong(o.id, "result", out[1], new[0])
            elif name == "reset":
                self.compare(o.id, got, [1, 0, 0, 1, 0, 0], 0)
            elif name == "assign":
                self.compare(o.id, got, v[1:], 0)
            elif name == "translate":
                self.compare(o.id, got, m[:4] + [m[4] + v[1], m[5] + v[2]], mag(m, v[1:]))
            elif name == "scale":
                self.compare(o.id, got, mul([v[1], 0, 0, v[2], 0, 0], m), mag(m, v[1:]))
            elif name == "rotate":
                self.compare(o.id, got, mul(rot(v[1][1]), m), mag(m))
            return
        need_ok(o, out)
        got = out[1]
        if name == "*":
            self.compare(o.id, got[1:], mul(m, v[1][1:]), mag(m, v[1][1:]))
        elif name in ("==", "!="):
            equal = all(s == t for s, t in zip(m, v[1][1:]))
            if got != repr(equal == (name == "==")):
                wrong(o.id, name, got, [m, v[1][1:]])
        elif name == "inverted":
            self.inverse(o.id, m, got[1:])

    def inverse(self, where, m, inv):
        det = m[0] * m[3] - m[1] * m[2]
        size = max([1e-3] + [abs(t) for t in m[:4]])
        if abs(det) < 1e-3 * size * size:
            return
        want = [m[3] / det, -m[1] / det, -m[2] / det, m[0] / det,
                (m[1] * m[5] - m[4] * m[3]) / det, (m[4] * m[2] - m[0] * m[5]) / det]
        scale = mag(m, m) / abs(det)
        for g, e in zip(inv, want):
            if not near(g, e, scale, 1e-10) and abs(g - e) > 1e-6 * max(abs(e), 1e-6):
                wrong(where, "inverse", inv, want)

    def consistent(self, w, obj, where):
        m = api.view(w, obj)[1:]
        if outgrown(m):
            return
        det = m[0] * m[3] - m[1] * m[2]
        scale = mag(m[:4]) * mag(m[:4])
        if not near(obj.det(), det, scale):
            wrong(where, "determinant", obj.det(), det)
        if abs(det) > 1e-3 and abs(det) > 1e-9 * scale and not obj.invertible():
            wrong(where, "invertible", False, det)
        if det == 0 and obj.det() == 0 and obj.invertible():
            wrong(where, "invertible", True, det)
        p = obj.transform(3.0, -2.0)
        self.compare(where, [p.x(), p.y()], [m[0] * 3 - m[1] * 2 + m[4], m[2] * 3 - m[3] * 2 + m[5]],
                     mag(m, [3.0]), "mapped point")
        self.inverse(where, m, api.view(w, obj.inverted())[1:])


# ---- C11 -------------------------------------------------------------------------
class C11(ModelScenario):
    pid = "C11"
    main = "V"
    kinds = "A"

    def season(self, r, o, op, pool):
        if ("polar" in o.name or "length" in o.name) and r.random() < 0.15:
            op["args"] = [-x if c == "fp" and num(x) else x for x, c in zip(op["args"], o.args)]

    def compare(self, where, got, want, scale):
        if not (near(got[0], want[0], scale) and near(got[1], want[1], scale)):
            wrong(where, "coordinates", got, want)

    def step(self, a, op, o, old, new, out):
        v, name = old, o.name
        if name == "/" and v[1] == 0:
            return
        need_ok(o, out)
        got = out[1]
        if o.kind == "c":
            if len(v) == 0:
                want, mark = [0, 0], True
            elif o.kw == ("r", "a"):
                d = math.radians(deg_of(v[1]))
                want, mark = [v[0] * math.cos(d), v[0] * math.sin(d)], True
            elif len(v) == 2:
                want, mark = v, True
            else:
                want, mark = v[0][1:3], v[0][3]
            self.compare(o.id, got[1:3], want, max(abs(t) for t in want))
            if got[3] != mark:
                wrong(o.id, "validity mark", got[3], mark)
            return
        if o.kind == "s":
            short = name.split(".")[1]
            if short == "invalid":
                if got[3] is not False:
                    wrong(o.id, "validity mark", got[3], False)
            elif short in ("from_polar", "polar2vector"):
                d = math.radians(deg_of(v[1]))
                self.compare(o.id, got[1:3], [v[0] * math.cos(d), v[0] * math.sin(d)], v[0])
            elif short == "inner_product_static":
                self.scalar(o.id, got, v[0][1] * v[1][1] + v[0][2] * v[1][2], v)
            elif short == "outer_product_static":
                self.scalar(o.id, got, v[0][1] * v[1][2] - v[0][2] * v[1][1], v)
            return
        x, y, mark = v[0][1:4]
        ox = oy = None
        if len(v) == 2 and isinstance(v[1], list) and v[1][0] == "V":
            ox, oy = v[1][1:3]
        elif len(v) == 3:
            ox, oy = v[1], deg_of(v[2])
        elif len(v) == 2:
            ox = deg_of(v[1])
        if isinstance(ox, str):
            ox = None
        scale = max(abs(t) for t in (x, y, ox or 0, oy or 0))
        r = math.hypot(x, y)
        if o.query:
            want = None
            if name in ("copy", "get_copy"):
                want = [x, y]
                if got[3] != mark:
                    wrong(o.id, "validity mark", got[3], mark)
            elif name == "+":
                want = [x + ox, y + oy]
            elif name == "-":
                want = [x - ox, y - oy]
            elif name == "*":
                want = [x * ox, y * ox]
                scale = max(scale, scale * scale)
            elif name == "/":
                want = [x / ox, y / ox]
            elif name == "reverse_vector":
                want = [-x, -y]
            elif name == "rotated_vector":
                want = turned(x, y, ox)
            elif name in ("set_length_vector", "normalize_vector"):
                want = resized(x, y, r, ox if name == "set_length_vector" else 1.0)
            elif name in ("x", "get_x"):
                return self.scalar(o.id, got, x, [])
            elif name in ("y", "get_y"):
                return self.scalar(o.id, got, y, [])
            elif name == "is_valid":
                if got != repr(mark):
                    wrong(o.id, "validity mark", got, mark)
            elif name in ("r", "length"):
                return self.scalar(o.id, got, r, [])
            elif name in ("r2", "length2"):
                return self.scalar(o.id, got, r * r, [])
            elif name in ("equals", "==", "!=") and ox is not None and o.args[1] == "V":
                equal = x == ox and y == oy
                if got != repr(equal == (name != "!=")):
                    wrong(o.id, name, got, [v[0], v[1]])
            if want is not None:
                self.compare(o.id, got[1:3], want, scale)
            return
        now = new[0]
        want, keep = [x, y], mark
        if name in ("assign", "set_x_y"):
            want = [ox, oy]
        elif name == "set_vector":
            want, keep = [ox, oy], v[1][3]
        elif name == "set_x":
            want = [ox, y]
        elif name == "set_y":
            want = [x, ox]
        elif name == "validate":
            keep = True
        elif name == "invalidate":
            keep = False
        elif name in ("add", "+="):
            want = [x + ox, y + oy]
        elif name in ("sub", "-="):
            want = [x - ox, y - oy]
        elif name == "add_x":
            want = [x + ox, y]
        elif name == "add_y":
            want = [x, y + ox]
        elif name == "sub_x":
            want = [x - ox, y]
        elif name == "sub_y":
            want = [x, y - ox]
        elif name in ("scale", "*="):
            want = [x * ox, y * ox]
            scale = max(scale, scale * scale)
        elif name == "reverse":
            want = [-x, -y]
        elif name == "rotate":
            want = turned(x, y, ox)
        elif name == "set_polar":
            d = math.radians(deg_of(v[2]))
            want = [v[1] * math.cos(d), v[1] * math.sin(d)]
            scale = max(scale, abs(v[1])) if num(v[1]) else 1.0
        elif name == "set_dir":
            d = math.radians(ox)
            want = [r * math.cos(d), r * math.sin(d)]
        elif name in ("set_length", "normalize"):
            want = resized(x, y, r, ox if name == "set_length" else 1.0)
        else:
            raise AssertionError(o.id)
        if want is not None:
            self.compare(o.id, now[1:3], want, scale)
        if now[3] != keep:
            wrong(o.id, "validity mark", now[3], keep)
        if o.result == "self" and not api.same(got, now):
            wrong(o.id, "result", got, now)

    def scalar(self, where, got, want, v):
        scale = max([abs(want)] + [abs(t) * abs(t) for p in v for t in p[1:3]])
        if not near(got, want, scale):
            wrong(where, "value", got, want)

    def consistent(self, w, obj, where):
        x, y, mark = api.view(w, obj)[1:4]
        if obj.get_x() != x or obj.get_y() != y:
            wrong(where, "coordinates", [obj.get_x(), obj.get_y()], [x, y])
        c = obj.copy()
        if c.x() != x or c.y() != y or c.is_valid() != mark:
            wrong(where, "copy", api.view(w, c), [x, y, mark])
        if not near(obj.r(), math.hypot(x, y)):
            wrong(where, "length", obj.r(), [x, y])


def turned(x, y, d):
    c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
    return [x * c - y * s, x * s + y * c]


def resized(x, y, r, length):
    if r == 0:
        return [x, y]
    if r < 1e-4:
        return None
    return [x * length / r, y * length / r]


# ---- C15 -------------------------------------------------------------------------
class C15(ModelScenario):
    pid = "C15"
    main = "P"
    kinds = "VQ"

    def table(self):
        return super().table() + [api.MOVE_VERTEX] * 2

    def season(self, r, o, op, pool):
        # a corner the caller still holds, perhaps used twice
        for i, code in enumerate(o.args):
            names = [n for n, c in pool.items() if c == "V"]
            if code == "Vn" and names and r.random() < 0.3:
                op["args"][i] = {"r": r.choice(names)}

    def follow(self, a, vals, known):
        """a corner moved: so did whoever else holds that point"""
        held = vals[0].vertices_()
        if not held:
            return
        point = held[vals[1] % len(held)]
        for name, obj in a.env.items():
            code = api.letter(a.w, obj)
            if obj is point or code == "P" and any(p is point for p in obj.vertices_()):
                known[name] = api.canon(a.w, obj)
        a.kept = [(where, some, api.canon(a.w, some) if any(p is point for p in some) else image)
                  for where, some, image in a.kept]

    def begin(self, a):
        a.kept = []        # caller-held lists and what they must still contain

    def end(self, a):
        for where, held, image in a.kept:
            now = api.canon(a.w, held)
            if not api.same(now, image):
                raise Violation("caller-list-changed", "%s: %s became %s" % (
                    where, brief(image), brief(now)))

    def step(self, a, op, o, old, new, out):
        v, name = old, o.name
        vals = a.vals[op["id"]]
        for arg, val, image in zip(op["args"], vals, v):
            if isinstance(val, list) and "via" not in arg:
                a.kept.append((o.id, val, image))
        if o.kind == "c":
            need_ok(o, out)
            if not v:
                want = [[0, 0]]
            elif o.args == ("VLn",):
                want = [p[1:3] for p in v[0][1:]]
            else:
                want = [p[1:3] for p in v]
            self.vertices(o.id, out[1], want)
            return
        verts = [p[:2] for p in v[0][1]]
        if o.query:
            if name == "vertices":
                need_ok(o, out)
                self.vertices(o.id, ["P", [p[1:3] for p in out[1][1:]]], verts)
                a.kept.append((o.id, a.value[op["id"]], out[1]))
            elif name == "get_rectangle_clipped_polygon":
                return
            elif name in ("double_signed_area", "area", "is_clockwise", "is_counter_clockwise",
                          "get_bounding_box", "bounding_box_center") and verts:
                need_ok(o, out)
            return
        got = new[0]
        if name == "clear":
            want = [[0, 0]]
        elif name == "add_vertex" or name == "append":
            want = verts + [v[1][1:3]]
        elif name == "assign":
            want = [p[1:3] for p in v[1][1:]] or verts
        elif name == "extend":
            want = verts + [p[1:3] for p in v[1][1:]]
        elif name == "reverse":
            want = verts[::-1]
        elif name == "move_vertex":
            need_ok(o, out)
            if not verts:
                return
            k = v[1] % len(verts)
            held = vals[0].vertices_()
            want = [[v[2], v[3]] if p is held[k] else q for p, q in zip(held, verts)]
            self.vertices(o.id, got, want)
            return
        elif name == "pop":
            want = verts[:-1]
            if not verts:
                return
        else:
            raise AssertionError(o.id)
        need_ok(o, out)
        self.vertices(o.id, got, want)

    def vertices(self, where, view, want):
        got = [p[:2] for p in view[1]]
        if len(got) != len(want) or any(g[0] != e[0] or g[1] != e[1] for g, e in zip(got, want)):
            wrong(where, "vertex list", got, want)

    def consistent(self, w, obj, where):
        verts = [p[:2] for p in api.view(w, obj)[1]]
        n = len(verts)
        ref = [[p.x(), p.y()] for p in obj.vertices_()]
        if ref != verts:
            wrong(where, "vertex list", ref, verts)
        scale = max([1.0] + [abs(t) for p in verts for t in p])
        area2 = 0.0
        if n >= 3:
            area2 = math.fsum(verts[i][0] * verts[(i + 1) % n][1] -
                              verts[(i + 1) % n][0] * verts[i][1] for i in range(n))
        slack = 1e-9 * scale * scale * max(1, n)
        got = obj.double_signed_area()
        if abs(got - area2) > slack:
            wrong(where, "signed area", got, area2)
        if abs(obj.area() - abs(area2) / 2) > slack:
            wrong(where, "area", obj.area(), abs(area2) / 2)
        if abs(area2) > 4 * slack:
            if obj.is_counter_clockwise() is not (area2 > 0) or \
                    obj.is_clockwise() is not (area2 < 0):
                wrong(where, "orientation", [obj.is_counter_clockwise(), obj.is_clockwise()], area2)
        elif n < 3 and (obj.is_counter_clockwise() or obj.is_clockwise()):
            wrong(where, "orientation", [obj.is_counter_clockwise(), obj.is_clockwise()], n)
        if n:
            xs, ys = [p[0] for p in verts], [p[1] for p in verts]
            box = obj.get_bounding_box()
            want = [min(xs), max(xs), min(ys), max(ys)]
            seen = [box.left(), box.right(), box.top(), box.bottom()]
            if not all(near(s, e, scale) for s, e in zip(seen, want)):
                wrong(where, "bounding box", seen, want)
            c = obj.bounding_box_center()
            if not (near(c.x(), (want[0] + want[1]) / 2, scale) and
                    near(c.y(), (want[2] + want[3]) / 2, scale)):
                wrong(where, "box centre", [c.x(), c.y()], want)


# ---- C25 -------------------------------------------------------------------------
def pair(v):
    """coordinates of a point argument: ["V", x, y, mark]"""
    return [v[1], v[2]]


def polar(length, angle):
    d = math.radians(deg_of(angle))
    return [length * math.cos(d), length * math.sin(d)]


class C25(ModelScenario):
    """segments, rays, circles, sizes, triangles, sectors"""
    pid = "C25"
    main = "S"
    kinds = "VA"

    def choose(self, r):
        self.main = r.choice("SSRCZTTKK")

    def fresh(self, r):
        return gen.spec(r, self.main)

    # flat[i]: numbers that define the shape; angles are compared modulo full turns
    def flat(self, view):
        code = view[0]
        if code == "R":
            return view[1][:2] + [view[2]]
        if code == "S":
            return view[1][:2] + view[2][:2]
        if code == "C":
            return view[1][:2] + [view[2]]
        if code == "Z":
            return view[1:3]
        if code == "T":
            return view[1][:2] + view[2][:2] + view[3][:2]
        return view[1][:2] + view[2:6]

    ANGLES = {"R": (2,), "K": (4, 5)}

    def compare(self, where, got, want, scale=0.0):
        scale = max([abs(t) for t in want] + [scale])
        angles = self.ANGLES.get(self.main, ())
        for i, (g, e) in enumerate(zip(got, want)):
            if not num(g):
                wrong(where, "parts", got, want)
            if i in angles:
                gap = abs(math.fmod(g - e, 360.0))
                if min(gap, 360.0 - gap) > 1e-9 * max(1.0, abs(e)) or not -180 <= g <= 180:
                    wrong(where, "parts", got, want)
            elif not near(g, e, scale):
                wrong(where, "parts", got, want)

    def built(self, kinds, v):
        m = self.main
        if m == "S":
            if not v:
                return [0, 0, 0, 0]
            if len(v) == 4:
                return list(v)
            if len(v) == 2:
                return pair(v[0]) + pair(v[1])
            x, y = pair(v[0])
            dx, dy = polar(v[1], v[2])
            return [x, y, x + dx, y + dy]
        if m == "R":
            x, y = pair(v[0])
            if kinds[1] == "V":
                dx, dy = v[1][1] - x, v[1][2] - y
                if abs(dx) < 1e-5 and abs(dy) < 1e-5:
                    return None
                return [x, y, math.degrees(math.atan2(dy, dx))]
            return [x, y, deg_of(v[1])]
        if m == "C":
            if not v:
                return [0, 0, 0]
            return pair(v[0]) + [max(0.0, v[1]) if len(v) > 1 else 0.0]
        if m == "Z":
            v = list(v) + [0.0, 0.0]
            return [abs(v[0]), abs(v[1])]
        if m == "T":
            if len(v) == 3:
                return pair(v[0]) + pair(v[1]) + pair(v[2])
            return v[0][1][:2] + v[0][2][:2] + pair(v[1])
        return pair(v[0]) + [max(0.0, v[1]), max(0.0, v[1], v[2]), deg_of(v[3]), deg_of(v[4])]

    PLACE = {"origin_": 0, "terminal_": 2, "center_": 0, "a_": 0, "b_": 2, "c_": 4, "dir_": 2,
             "angle_left_start_": 4, "angle_right_end_": 5}

    def step(self, a, op, o, old, new, out):
        v, name, m = old, o.name, self.main
        if o.kind == "c":
            need_ok(o, out)
            want = self.built(o.args, v)
            if want is not None:
                self.compare(o.id, self.flat(out[1]), want)
            return
        if o.kind == "s":
            return
        had = self.flat(v[0])
        scale = max([1.0] + [abs(t) for t in had] +
                    [abs(t) for x in v[1:] for t in (x if isinstance(x, list) else [x]) if num(t)])
        if o.query:
            want = None
            if name in ("copy", "reversed_segment"):
                need_ok(o, out)
                want = had if name == "copy" else had[2:] + had[:2]
                self.compare(o.id, self.flat(out[1]), want, scale)
            return
        need_ok(o, out)
        want = list(had)
        if o.kind == "r":
            i = self.PLACE[o.via]
            if name == "set_degree" or name == "set_angle":
                want[i] = deg_of(v[1])
            elif o.via in ("dir_", "angle_left_start_", "angle_right_end_"):
                want[i] += 180.0
            elif name == "assign":
                want[i:i + 2] = v[1:3]
            elif name == "set_x":
                want[i] = v[1]
            elif name == "set_y":
                want[i + 1] = v[1]
            elif name in ("add", "sub"):
                sign = 1 if name == "add" else -1
                want[i] += sign * v[1][1]
                want[i + 1] += sign * v[1][2]
            elif name == "scale":
                want[i] *= v[1]
                want[i + 1] *= v[1]
                scale *= max(1.0, abs(v[1]))
            elif name == "reverse":
                want[i], want[i + 1] = -want[i], -want[i + 1]
            elif name == "rotate":
                want[i:i + 2] = turned(want[i], want[i + 1], deg_of(v[1]))
            else:
                raise AssertionError(o.id)
        elif name == "assign":
            want = self.built(o.args[1:], v[1:])
        elif name in ("swap", "reverse") and m == "S":
            want = had[2:] + had[:2]
        elif name == "set_length":
            want[0] = abs(v[1])
        elif name == "set_width":
            want[1] = abs(v[1])
        else:
            raise AssertionError(o.id)
        self.compare(o.id, self.flat(new[0]), want, scale)
        if o.result == "self" and not api.same(out[1], new[0]):
            wrong(o.id, "result", out[1], new[0])

    def consistent(self, w, obj, where):
        m = self.main
        f = self.flat(api.view(w, obj))
        if not all(num(t) for t in f):
            wrong(where, "parts", f, "numbers")
        scale = max([1.0] + [abs(t) for t in f])

        def check(what, got, want, size):
            if not num(got) or not near(got, want, size):
                wrong(where, what, got, want)

        def point(what, p, want):
            check(what, p.x(), want[0], scale)
            check(what, p.y(), want[1], scale)

        if m == "S":
            point("origin", obj.origin_(), f[:2])
            point("terminal", obj.terminal_(), f[2:])
            dx, dy = f[2] - f[0], f[3] - f[1]
            check("length", obj.length(), math.hypot(dx, dy), scale)
            if math.hypot(dx, dy) > 1e-3:
                self.turn(where, obj.direction().degree(), math.degrees(math.atan2(dy, dx)))
            back = obj.reversed_segment()
            point("reverse", back.origin(), f[2:])
            point("reverse", back.terminal(), f[:2])
            same = obj.copy()
            point("copy", same.origin(), f[:2])
            point("copy", same.terminal(), f[2:])
        elif m == "R":
            point("origin", obj.origin_(), f[:2])
            self.turn(where, obj.dir_().degree(), f[2])
            same = obj.copy()
            point("copy", same.origin(), f[:2])
            self.turn(where, same.dir().degree(), f[2])
        elif m == "C":
            point("center", obj.center_(), f[:2])
            if f[2] < 0:
                wrong(where, "radius", f[2], "non-negative")
            check("area", obj.area(), math.pi * f[2] * f[2], scale)
        elif m == "Z":
            if f[0] < 0 or f[1] < 0:
                wrong(where, "size", f, "non-negative")
            check("diagonal", obj.diagonal(), math.hypot(f[0], f[1]), scale)
            if obj.is_valid() is not (f[0] > 0 and f[1] > 0):
                if min(f) == 0 or min(f) > 1e-9:
                    wrong(where, "is_valid", obj.is_valid(), f)
        elif m == "T":
            point("a", obj.a_(), f[:2])
            point("b", obj.b_(), f[2:4])
            point("c", obj.c_(), f[4:])
            area2 = (f[2] - f[0]) * (f[5] - f[1]) - (f[4] - f[0]) * (f[3] - f[1])
            check("double_signed_area", obj.double_signed_area(), area2, scale * scale)
            check("signed_area", obj.signed_area(), area2 / 2, scale * scale)
            check("area", obj.area(), abs(area2) / 2, scale * scale)
            if abs(area2) > 1e-8 * scale * scale:
                if bool(obj.ccw()) is not (area2 > 0):
                    wrong(where, "ccw", obj.ccw(), area2)
        else:
            point("center", obj.center_(), f[:2])
            self.turn(where, obj.angle_left_start_().degree(), f[4])
            self.turn(where, obj.angle_right_end_().degree(), f[5])
            if f[2] < 0 or f[3] < f[2]:
                wrong(where, "radii", f[2:4], "0 <= inner <= outer")
            div = math.fmod(f[5] - f[4], 360.0)
            div += 360.0 if div < 0 else 0.0
            if 1e-6 < div < 360 - 1e-6 or f[4] == f[5]:
                part = div / 360.0
                check("area", obj.area(), math.pi * (f[3] * f[3] - f[2] * f[2]) * part,
                      scale * scale)
                check("inner arc", obj.get_circumference_min(), 2 * math.pi * f[2] * part, scale)
                check("outer arc", obj.get_circumference_max(), 2 * math.pi * f[3] * part, scale)

    def turn(self, where, got, want):
        gap = abs(math.fmod(got - want, 360.0))
        if min(gap, 360.0 - gap) > 1e-9 * max(1.0, abs(want)):
            wrong(where, "direction", got, want)
