"""C07: life of convex hulls against an exact rational hull."""
import math
from fractions import Fraction

from .. import api, gen, world
from ..common import (QUERY_FAULTS, Result, Runner, Violation, brief, count_run, judging, note_sim,
                      signature)
from .shared import check_hang


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def direction(a, b):
    """of the line through two points of integers"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    d = math.gcd(dx, dy) or 1
    if dx < 0 or dx == 0 and dy < 0:
        d = -d
    return (dx // d, dy // d)


def exact(p):
    return (Fraction(p[0]), Fraction(p[1]))


def general(points):
    """distinct, no three on a line"""
    pts = [exact(p) for p in points]
    if len(set(pts)) != len(pts):
        return False
    for i in range(len(pts)):
        slopes = set()
        for j in range(i + 1, len(pts)):
            dx, dy = pts[j][0] - pts[i][0], pts[j][1] - pts[i][1]
            s = None if dx == 0 else dy / dx
            if s in slopes:
                return False
            slopes.add(s)
    return True


def hull_of(points):
    """corners in counter-clockwise order (monotone chain, exact)"""
    pts = sorted(set(exact(p) for p in points))
    if len(pts) < 3:
        return pts

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out
    lower, upper = half(pts), half(reversed(pts))
    return lower[:-1] + upper[:-1]


def universe(r, n):
    """up to n points in general position on a grid where products are exact"""
    if r.random() < 0.15:                    # every point a corner
        ts = r.sample(range(-40, 41), min(n, 81))
        if r.random() < 0.5:
            return [[t, t * t] for t in ts]
        return [[-t * t / 2, t] for t in ts]
    style = r.random()
    span = r.choice([4, 8, 20, 60])
    out, seen = [], 0
    shift = r.choice([0, 0, 100, -50])
    pts, rays = [], []          # accepted points in quarters; directions to the later ones
    while len(out) < n and seen < 12 * n:
        seen += 1
        if style < 0.5:
            p = [r.randint(-span, span), r.randint(-span, span)]
        elif style < 0.8:
            p = [r.randint(-4 * span, 4 * span) / 4, r.randint(-4 * span, 4 * span) / 4]
        else:                       # many corners: near a parabola or a ring
            t = r.randint(-span, span)
            p = [t, t * t // 2 if r.random() < 0.8 else -t * t // 3]
        p = [p[0] + shift, p[1] - shift]
        e = (int(4 * p[0]), int(4 * p[1]))
        ways = [direction(q, e) for q in pts]
        if e not in pts and all(d not in known for d, known in zip(ways, rays)):
            for d, known in zip(ways, rays):
                known.add(d)
            out.append(p)
            pts.append(e)
            rays.append(set())
    return out


MOVE = "move_point(H,i,f,f)"


def kind_of(op):
    """add_point, add_points, pop, reverse, move_point, clear, clear_results, compute..., query"""
    name = op["op"].split("(")[-2].split(".")[-1] if op["op"] != MOVE else "move_point"
    return "add_point" if name == "append" else name


class C07:
    pid = "C07"
    title = "hull life cycle"
    strict_build = True
    rule = ("a run is non-trivial when a hull of three or more points was completed; two runs are "
            "the same when the sequence of call kinds, point counts and preemption/fault points "
            "is the same")

    def generate(self, r, tier):
        ntasks = r.choice([1, 1, 1, 2, 2])
        nh = r.choice([1, 1, 2, 3])
        size = r.choice([4, 6, 8, 12, 18, 30, 60] if tier == "thorough" or r.random() < 0.2
                        else [4, 6, 8, 12, 18, 30])
        pool, left, used = {}, {}, {}
        for i in range(nh):
            pts = universe(r, size)
            cut = r.choice([0, 3, len(pts) // 2, len(pts)])
            name = "h%d" % i
            pool[name] = ["H", pts[:cut]]
            used[name], left[name] = pts[:cut], pts[cut:]
        ops = []
        for i in range(r.choice([1, 2, 3, 5, 8, 12]) * ntasks):
            name = r.choice(list(pool))
            me = {"r": name}
            p = r.random()
            args = [me]
            if p < 0.20 and left[name]:
                kind = "ConvexHull.add_point(Vn)"
                pt = left[name].pop(0)
                used[name].append(pt)
                args.append({"n": ["V"] + pt})
            elif p < 0.35 and left[name]:
                kind = "ConvexHull.add_points(VLn)"
                k = r.randint(1, len(left[name]))
                new, left[name] = left[name][:k], left[name][k:]
                used[name] += new
                args.append({"n": ["VL", new]})
            elif p < 0.38 and left[name]:
                kind = "ConvexHull.input_points_().append(Vn)"
                pt = left[name].pop(0)
                used[name].append(pt)
                args.append({"n": ["V"] + pt})
            elif p < 0.40 and left[name]:
                kind = MOVE
                args += [r.randint(0, 20)] + left[name].pop(0)
            elif p < 0.41:
                kind = "ConvexHull.input_points_().%s()" % r.choice(["pop", "reverse"])
            elif p < 0.415:
                kind = "ConvexHull.add_points(VLn)"
                args.append({"r": name, "via": "input_points_"})
            elif p < 0.45:
                kind = "ConvexHull.clear()"
                left[name] = used[name] + left[name]
                used[name] = []
                r.shuffle(left[name])
            elif p < 0.50:
                kind = "ConvexHull.clear_results()"
            elif p < 0.84:
                kind = r.choice(["ConvexHull.compute()", "ConvexHull.compute(meth)",
                                 "ConvexHull.compute_wrapping_method()",
                                 "ConvexHull.compute_graham_scan()"])
                if kind.endswith("(meth)"):
                    args.append({"meth": r.choice(["WRAPPING_METHOD", "GRAHAN_SCAN"])})
            else:
                kind = "ConvexHull.%s()" % r.choice(
                    ["to_polygon", "vertices", "edges", "input_points", "get_min_point_index"])
            ops.append({"id": len(ops), "task": i % ntasks, "op": kind, "args": args})
        case = {"pool": pool, "ntasks": ntasks, "ops": ops, "first": 0, "switches": [],
                "faults": []}
        counts, _ = count_run(case)
        if ntasks > 1:
            case["switches"] = gen.place(r, counts, ops, r.choice([1, 3, 6, 12]), ntasks=ntasks,
                                         early=0.3)
        if r.random() < 0.6:
            case["faults"] = gen.place(r, counts, ops, r.choice([1, 1, 2, 3]), kinds=QUERY_FAULTS)
        return case

    def execute(self, case):
        res = Result()
        w = world.World(True)
        a = Runner(w, case)
        known = {}          # name -> view after the last call on it
        valid = {}          # name -> True when the result is that of a completed computation

        def look(name, where):
            with judging(where):
                return api.view(w, a.env[name])

        for name in a.env:
            known[name] = look(name, "new hull")
            valid[name] = False
            if known[name][2] or known[name][3]:
                raise Violation("hull-not-empty", "new hull has results: %s" % brief(known[name]))

        def bag(points):
            return sorted(repr(exact(p)) for p in points)

        def given(op, old):
            if "via" in op["args"][1]:
                return old[1]
            spec = op["args"][1]["n"]
            return [spec[1:3]] if spec[0] == "V" else spec[1]

        def watch(op, phase):
            name = op["args"][0]["r"]
            kind = kind_of(op)
            now = look(name, op["op"])
            old = known[name]
            if phase == 0:
                if not api.same(now, old):
                    raise Violation("moved-by-others", "%s changed from %s to %s between calls" % (
                        name, brief(old), brief(now)))
                return
            out = a.out[op["id"]]
            faulted = op["id"] in a.sim.fault_in
            if out[0] == "hang":
                raise Violation("hang", op["op"])
            if out[0] == "exc":
                if kind == "pop" and not old[1]:
                    return
                if kind.startswith("compute") and not general(old[1]):
                    known[name] = now
                    valid[name] = False
                    return
                raise Violation("call-fails", "%s: %s" % (op["op"], out))
            known[name] = now
            o = api.BY_ID[op["op"]]
            if o.query:
                if not api.same(now, old):
                    raise Violation("query-modifies", "%s: %s to %s" % (op["op"], brief(old),
                                                                        brief(now)))
                if not faulted:
                    self.query(w, a, op, kind, old, out, valid[name])
                return
            before, after = bag(old[1]), bag(now[1])
            if kind in ("add_point", "add_points"):
                want = bag(old[1] + given(op, old))
                if after != want and not (faulted and subset(before, after) and
                                          subset(after, want)):
                    raise Violation("inputs", "%s: %d points held, %d expected" % (
                        op["op"], len(after), len(want)))
                for i in (2, 3):
                    if now[i] and not api.same(now[i], old[i]):
                        raise Violation("results-move", "%s changed the hull to %s" % (
                            op["op"], brief(now[i])))
                valid[name] = False
            elif kind in ("pop", "reverse", "move_point"):
                valid[name] = False
                pts = [p[:2] for p in old[1]]
                if kind == "pop":
                    pts = pts[:-1]
                if kind == "move_point" and len(now[1]) == len(old[1]):
                    return            # a point held twice moves in both places
                if after != bag(pts) and not (faulted and after == before):
                    raise Violation("inputs", "%s: input points were %s, now %s" % (
                        op["op"], brief(old[1]), brief(now[1])))
            elif kind == "clear":
                valid[name] = False
                if faulted:
                    if not subset(after, before):
                        raise Violation("inputs", "interrupted clear: %s" % brief(now[1]))
                elif now[1] or now[2] or now[3]:
                    raise Violation("not-cleared", "after clear: %s" % brief(now))
            else:
                valid[name] = False
                if after != before:
                    raise Violation("inputs", "%s%s: input points were %s, now %s" % (
                        op["op"], " (interrupted)" if faulted else "", brief(old[1]),
                        brief(now[1])))
                if faulted:
                    return
                if kind == "clear_results":
                    if now[2] or now[3]:
                        raise Violation("not-cleared", "after clear_results: %s" % brief(now[2:]))
                    return
                self.judge(op, now)
                valid[name] = True

        a.observe = watch
        try:
            sim = a.simulate()
            note_sim(res, sim)
            check_hang(a)
            for name in a.env:
                if not api.same(look(name, "end"), known[name]):
                    raise Violation("moved-by-others", "%s changed after its last call" % name)
                if len(known[name][2]) >= 3:
                    res.nontrivial = True
            res.count("computes", sum(1 for op in case["ops"] if ".compute" in op["op"]))
            res.events.append(["out", {str(k): v for k, v in sorted(a.out.items())}, a.views()])
        except Violation as v:
            res.violation = (v.kind, v.detail)
        signature(res, case, "/".join("%s%d" % (op["op"], len(str(op["args"])))
                                      for op in case["ops"]))
        return res

    def query(self, w, a, op, kind, old, out, valid):
        got = out[1]
        if kind in ("vertices", "input_points"):
            want = old[2] if kind == "vertices" else old[1]
            if not isinstance(got, list) or not api.close([p[1:3] for p in got[1:]],
                                                          [p[:2] for p in want]):
                raise Violation("accessor", "%s: %s, view %s" % (op["op"], brief(got), brief(want)))
        elif kind == "to_polygon" and len(old[2]) >= 3:
            if got[0] != "P" or not api.close([p[:2] for p in got[1]], [p[:2] for p in old[2]]):
                raise Violation("polygon", "to_polygon: %s, corners %s" % (brief(got),
                                                                          brief(old[2])))
        elif kind == "get_min_point_index":
            if not old[1]:
                if got != -1:
                    raise Violation("min-index", "no points, index %s" % got)
            elif general(old[1]):
                want = min(range(len(old[1])), key=lambda i: exact(old[1][i]))
                if got != want:
                    raise Violation("min-index", "index %s of %s" % (got, brief(old[1])))

    def judge(self, op, now):
        inputs, corners, edges = now[1], now[2], now[3]
        if len(inputs) < 3:
            if corners or edges:
                raise Violation("stale-hull", "%s with %d points: corners %s, edges %s" % (
                    op["op"], len(inputs), brief(corners), brief(edges)))
            return
        if not general(inputs):
            return
        want = hull_of(inputs)
        got = [exact(p) for p in corners]
        if sorted(got) != sorted(want):
            raise Violation("corners", "%s of %s: corners %s, expected %s" % (
                op["op"], brief([p[:2] for p in inputs], 900), brief([p[:2] for p in corners]),
                brief([[float(x), float(y)] for x, y in want])))
        k = got.index(want[0])
        turned = got[k:] + got[:k]
        back = [turned[0]] + turned[:0:-1]
        if turned != want and back != want:
            raise Violation("order", "%s: corners not in one rotation sense: %s" % (
                op["op"], brief([p[:2] for p in corners])))
        ring = sorted(sorted([want[i], want[(i + 1) % len(want)]]) for i in range(len(want)))
        have = sorted(sorted([exact(s[0]), exact(s[1])]) for s in edges)
        if ring != have:
            raise Violation("edges", "%s: corners %s, edges %s" % (
                op["op"], brief([p[:2] for p in corners]),
                brief([[s[0][:2], s[1][:2]] for s in edges], 900)))


def subset(small, big):
    """multiset inclusion"""
    rest = list(big)
    for x in small:
        if x not in rest:
            return False
        rest.remove(x)
    return True
