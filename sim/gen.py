"""Seeded generation of values, object pools and calls."""
import copy
import random

from . import api

GRID = [-3, -2, -1, 0, 1, 2, 3]


EXACT = {"C01", "C02", "C03", "C04", "C14"}     # compare runs with runs, not with arithmetic


def dress(r, index=0, pid=""):
    """every run has a style of its own: coordinates that often coincide, or rarely"""
    r.index = index
    r.style = r.choices(["mixed", "grid", "stock", "quarter", "flat"], [5, 2, 2, 1, 0.7])[0]
    if pid in EXACT and r.random() < 0.08:
        r.style = "tiny"                     # shapes of the size of the library's tolerances
    elif pid in EXACT and r.random() < 0.05:
        r.style = "signed"                   # zeros of both signs
    return wear(r, r.style)


STYLES = ["mixed", "mixed", "grid", "stock", "quarter", "tiny", "wide", "flat", "signed"]


def wear(r, style):
    r.style = style
    if style == "tiny":
        r.stock = [0, 0, r.choice(GRID)]
    elif style == "signed":
        c = r.choice([1, 2.5])
        r.stock = [0.0, -0.0, 0.0, -0.0, c, -c]
    elif style == "flat":                    # points that coincide, shapes without extent
        c = _coord(r)
        r.stock = [0, 0, 0, c, c, r.choice([-c, 2 * c])]
    elif style == "stock":
        r.stock = [_coord(r) for _ in range(r.randint(2, 5))]
        r.stock += [-r.stock[0], r.stock[0] + r.stock[1]]
    return r


def coord(r):
    style = getattr(r, "style", "mixed")
    if style != "mixed" and r.random() < 0.9:
        if style == "wide":                  # hardly ever the same number twice
            return r.uniform(-60, 60)
        if style == "tiny":
            return r.choice(r.stock) + r.choice([0, 0, 1e-2, 1e-3, -1e-3, 1e-5, 1e-7, -1e-7, 1e-9])
        if style == "grid":
            return r.choice(GRID)
        if style == "quarter":
            return r.randint(-20, 20) / 4.0
        return r.choice(r.stock)
    return _coord(r)


def _coord(r):
    p = r.random()
    if p < 0.40:
        return r.choice(GRID)
    if p < 0.60:
        return r.randint(-40, 40) / 4.0
    if p < 0.80:
        return round(r.uniform(-52.5, 52.5), 2)
    if p < 0.90:
        return r.uniform(-10, 10)
    return r.choice([0.0, -0.0, 1e-7, -1e-7, 5e-7, 1000.5, -1e6, 34.0, -34.0, 52.5, -52.5, 0.5, 1])


def degrees(r):
    p = r.random()
    if getattr(r, "style", "") == "wide" and p < 0.95:
        return r.uniform(-180, 180)
    if p < 0.5:
        return r.choice([0, 15, 30, 45, 60, 90, 120, 135, 180, -180, -90, -45, -30, -135, 179, -179])
    if p < 0.8:
        return round(r.uniform(-180, 180), 1)
    if p < 0.95:
        return r.choice([360, -360, 270, -270, 540, -540, 720, 450, 361, -725, 1e4, 181, -181])
    return r.uniform(-2000, 2000)


def scalar(r):
    p = r.random()
    if p < 0.6:
        return r.choice([2, 0.5, -1, 3, 1, -2, 1.5, 0.25])
    if p < 0.95:
        return round(r.uniform(-4, 4), 2)
    return r.choice([0, 1e-7, 100])


def positive(r):
    if getattr(r, "style", "") == "tiny" and r.random() < 0.5:
        return 10.0 ** r.randint(-9, -2)
    return r.choice([0.1, 0.25, 0.5, 1, 2, 3, 5, 10.0, round(r.uniform(0.01, 20), 2)])


def radius(r):
    if getattr(r, "style", "") == "tiny" and r.random() < 0.5:
        return 10.0 ** r.randint(-9, -2)
    return r.choice([0, 0.5, 1, 2, 3, 5, 10, 20.5, -1, round(r.uniform(0.1, 15), 2)])


def unit(r):
    return r.choice([0.0, 0.3, 0.5, 0.94, 0.4, 0.9, 1.0, -0.5, -1.0, 0.8, round(r.uniform(0, 1), 3)])


def points(r, lo=0, hi=8):
    p = r.random()
    if p < 0.05 and hi >= 8:
        n = r.randint(9, 40)
    else:
        n = r.randint(lo, hi)
    if r.random() < 0.5:
        return [[r.choice(GRID), r.choice(GRID)] for _ in range(n)]
    return [[coord(r), coord(r)] for _ in range(n)]


def ring(r, n=None):
    """a star-shaped simple polygon"""
    import math
    n = n or r.randint(3, 10)
    cx, cy = r.choice(GRID), r.choice(GRID)
    out = []
    for i in range(n):
        a = 2 * math.pi * i / n
        d = r.choice([1, 2, 3, 4, 6])
        out.append([round(cx + d * math.cos(a), 3), round(cy + d * math.sin(a), 3)])
    if r.random() < 0.5:
        out.reverse()
    return out


def spec(r, code):
    if code == "V":
        s = ["V", coord(r), coord(r)]
        if r.random() < 0.06:
            s.append(True)
        return s
    if code == "A":
        return ["A", degrees(r)]
    if code == "L":
        if r.random() < 0.1:
            return ["L", r.choice([0, 1e-7, 1]), r.choice([0, 1e-7, 1]), coord(r)]
        return ["L", coord(r), coord(r), coord(r)]
    if code == "R":
        return ["R", coord(r), coord(r), degrees(r)]
    if code == "S":
        a = [coord(r), coord(r)]
        b = list(a) if r.random() < 0.06 else [coord(r), coord(r)]
        if r.random() < 0.1:
            b[r.randint(0, 1)] = a[r.randint(0, 1)]
        return ["S"] + a + b
    if code == "C":
        return ["C", coord(r), coord(r), radius(r)]
    if code == "Z":
        return ["Z", abs(coord(r)), abs(coord(r))]
    if code == "Q":
        return ["Q", coord(r), coord(r), abs(coord(r)), abs(coord(r))]
    if code == "T":
        return ["T"] + [coord(r) for _ in range(6)]
    if code == "K":
        a, b = radius(r), radius(r)
        return ["K", coord(r), coord(r), a, b, degrees(r), degrees(r)]
    if code == "P":
        return ["P", ring(r) if r.random() < 0.6 else points(r)]
    if code == "M":
        p = r.random()
        if p < 0.2:
            return ["M", 1.0, 0.0, 0.0, 1.0, 0.0, 0.0]
        return ["M"] + [scalar(r) for _ in range(4)] + [coord(r), coord(r)]
    if code == "H":
        return ["H", points(r, 3, 9)]
    if code == "VL":
        return ["VL", points(r)]
    raise ValueError(code)


OBJ = "VALRSCQZTKPMH"
WEIGHT = {"V": 5, "A": 3, "L": 3, "R": 2, "S": 4, "C": 3, "Q": 4, "Z": 1, "T": 3, "K": 2, "P": 3,
          "M": 2, "H": 1}


def pick_code(r, allow=OBJ):
    codes = [c for c in allow]
    return r.choices(codes, [WEIGHT[c] for c in codes])[0]


def arg(r, code, pool, fresh=0.25):
    """JSON argument for a type code; pool: {name: letter}"""
    if code == "f":
        return coord(r)
    if code == "fa":
        return degrees(r)
    if code == "fs":
        return scalar(r)
    if code == "fm":                         # never so small that a quotient takes millions of turns
        v = scalar(r)
        return v if abs(v) > 1e-3 or v == 0 else 0.5
    if code == "fp":
        return positive(r)
    if code == "fr":
        return radius(r)
    if code == "fu":
        return unit(r)
    if code == "i":
        return r.randint(0, 12)
    if code == "b":
        return r.random() < 0.5
    if code == "t":
        return {"t": r.choice(["", "x", "(msg)"])}
    if code == "zero":
        return 0
    if code == "meth":
        return {"meth": r.choice(["WRAPPING_METHOD", "GRAHAN_SCAN"])}
    if code == "AF":
        if r.random() < 0.5:
            return degrees(r)
        code = "A"
    if code == "Vn":
        return {"n": spec(r, "V")[:3]}
    if code == "VLn":
        return {"n": ["VL", ring(r) if r.random() < 0.4 else points(r)]}
    names = [n for n, c in pool.items() if c == code]
    if names and r.random() >= fresh:
        return {"r": r.choice(names)}
    return {"n": spec(r, code)}


def resolve(w, env, a):
    if isinstance(a, dict):
        if "via" in a:                       # a part of a named object, by reference
            return getattr(env[a["r"]], a["via"])()
        if "r" in a:
            return env[a["r"]]
        if "n" in a:
            return api.build(w, a["n"])
        if "t" in a:
            return a["t"]
        if "meth" in a:
            return getattr(w.cls["MethodType"], a["meth"])
    return a


def names_in(args):
    return [a["r"] for a in args if isinstance(a, dict) and "r" in a]


def pool_specs(r, n, allow=OBJ):
    return {"o%d" % i: spec(r, pick_code(r, allow)) for i in range(n)}


def ops_for(r, table, pool):
    """a random op of `table`, biased to ops whose receiver type is in the pool"""
    have = set(pool.values())
    for _ in range(6):
        o = r.choice(table)
        if o.home is None or o.home in have:
            if o.home is None and o.kind == "f" and r.random() < 0.6:
                continue
            return o
    return o


def call(r, o, pool, op_id, task, fresh=0.25):
    args = []
    for i, code in enumerate(o.args):
        # written arguments must be named objects so that effects are observable
        if i in o.writes:
            names = [n for n, c in pool.items() if c == code]
            if not names:
                return None
            args.append({"r": r.choice(names)})
        else:
            args.append(arg(r, code, pool, fresh))
    return {"id": op_id, "task": task, "op": o.id, "args": args}


def focus(r, o, op_id=0, task=0, alias=0.12):
    """a pool made for one call: an object of its own for every object argument (sometimes one
    object in two places), and the call"""
    pool, args = {}, []
    for i, code in enumerate(o.args):
        if code == "AF" and (i in o.writes or r.random() < 0.6):
            code = "A"
        if code in api.CODE:
            held = [n for n, s in pool.items() if s[0] == code]
            if held and r.random() < alias:
                name = r.choice(held)
            else:
                name = "o%d" % len(pool)
                pool[name] = spec(r, code)
            args.append({"r": name})
        else:
            args.append(arg(r, code, {}, 1.0))
    return pool, {"id": op_id, "task": task, "op": o.id, "args": args}


def needs(op):
    """(reads, writes) of a call: names of pool objects"""
    o = api.BY_ID[op["op"]]
    writes = {op["args"][i]["r"] for i in o.writes
              if isinstance(op["args"][i], dict) and "r" in op["args"][i]}
    reads = set(names_in(op["args"]))
    for group in (reads, writes):          # a part obtained by reference belongs to its owner
        group.update([owner(n) for n in group if "~" in n])
    return sorted(reads - writes), sorted(writes)


def owner(name):
    """part names are made of their owner's name: o3~7"""
    return name.split("~")[0]


def place(r, counts, ops, n, kinds=None, ntasks=None, only=None, early=0.15):
    """n random points inside operations, by measured instruction counts.
    With ntasks: switches; with kinds: faults."""
    cand = [op for op in ops if counts.get(op["id"], 0) > 0 and (only is None or only(op))]
    out = []
    if not cand:
        return out
    weights = [min(400, counts[op["id"]]) for op in cand]
    for _ in range(n):
        op = r.choices(cand, weights)[0] if r.random() < 0.5 else r.choice(cand)
        k = r.randint(1, counts[op["id"]])
        if ntasks is not None:
            others = [t for t in range(ntasks) if t != op["task"]]
            if not others:
                continue
            out.append([op["id"], 0 if r.random() < early else k, r.choice(others)])
        else:
            out.append([op["id"], k, r.choice(kinds)])
    return out


def vary(r, kind, args):
    """the same arguments, one number of them another"""
    paths = []

    def walk(x, path):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            paths.append(path)
        elif isinstance(x, dict) and "n" in x:
            walk(x["n"], path + ["n"])
        elif isinstance(x, list):
            for i, v in enumerate(x):
                walk(v, path + [i])

    for i, code in enumerate(kind.args):
        if code[0] in "fAV" or code in api.CODE:
            walk(args[i], [i])
    args = copy.deepcopy(list(args))
    if paths:
        path = r.choice(paths)
        at = args
        for step in path[:-1]:
            at = at[step]
        at[path[-1]] = r.choice([
            coord(r), -at[path[-1]], at[path[-1]] + 1, 0,
            *[at[path[-1]] + r.choice([-1, 1]) * 10.0 ** r.randint(-7, -1) for _ in range(3)]])
    return args
