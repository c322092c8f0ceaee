"""C13: modules import in any order, and again after an interrupted import.

The interpreter's own import system runs for real; only the code objects it executes are
the instrumented ones, so an import can be cut short at any instruction.
"""
import importlib
import importlib.abc
import importlib.util
import sys
import types

from .. import api, engine, gen, world
from ..common import (QUERY_FAULTS, Result, Runner, Violation, brief, exc_name, note_sim,
                      signature)
from .shared import letters, make_ops

FAULTS = QUERY_FAULTS


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, codes):
        self.codes = codes

    def find_spec(self, fullname, path=None, target=None):
        if fullname not in self.codes.codes:
            return None
        where, is_pkg, _ = world.read_sources()[fullname]
        return importlib.util.spec_from_loader(fullname, self, origin=where, is_package=is_pkg)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = world.read_sources()[module.__name__][0]
        exec(self.codes.codes[module.__name__], module.__dict__)


def purge():
    roots = world.roots()
    for name in [n for n in sys.modules if n.split(".")[0] in roots]:
        del sys.modules[name]


FOREIGN = [importlib.import_module(n) for n in (
    "math", "builtins", "functools", "enum", "typing", "random", "operator", "itertools", "cmath",
    "dataclasses", "abc", "collections", "copy")]


class installed:
    """the import system sees exactly the library's current source"""

    def __init__(self, instrumented):
        self.finder = Finder(world.codeset(instrumented))

    def __enter__(self):
        purge()
        self.foreign = [(m, dict(vars(m))) for m in FOREIGN]
        importlib.invalidate_caches()
        sys.meta_path.insert(0, self.finder)
        return self

    def __exit__(self, *exc):
        sys.meta_path.remove(self.finder)
        for module, was in self.foreign:         # the next process starts without them
            now = vars(module)
            for name in [n for n in now if n not in was]:
                del now[name]
            for name, value in was.items():
                if now.get(name) is not value:
                    now[name] = value
        purge()


class Imported(world.World):
    """what api.py needs of a world, on top of really imported modules"""

    def __init__(self):
        self.modules = {n: m for n, m in sys.modules.items() if n.split(".")[0] in world.roots()}
        self.index()

    def index(self):
        """only what is loaded by now"""
        self.cls = {}
        self.name_of = Named()
        for cname, mod in self.CLASS_HOME.items():
            home = self.modules.get("pyrusgeom." + mod)
            if home is not None:
                self.cls[cname] = getattr(home, cname)
                self.name_of[self.cls[cname]] = cname


class Named(dict):
    """class -> name; classes that the library loads later, while it is used, are known too"""

    def get(self, klass, default=None):
        if klass not in self:
            for cname, mod in world.World.CLASS_HOME.items():
                home = sys.modules.get("pyrusgeom." + mod)
                if home is not None and getattr(home, cname, None) is klass:
                    self[klass] = cname
        return self[klass] if klass in self else default


def public(module):
    out = {}
    for name, value in vars(module).items():
        if name.startswith("_"):
            continue
        if isinstance(value, types.ModuleType):
            out[name] = "module"
        elif isinstance(value, type):
            out[name] = "class %s.%s" % (value.__module__, value.__qualname__)
        elif isinstance(value, types.FunctionType):
            out[name] = "function %s.%s" % (value.__module__, value.__qualname__)
        elif isinstance(value, (bool, int, float, str)):
            out[name] = repr(value)
        else:
            out[name] = type(value).__name__
    return out


def leaves():
    """every importable module (packages themselves gain attributes as submodules load)"""
    return [n for n, (_, pkg, _) in sorted(world.read_sources().items()) if not pkg]


_ALONE = {}


def alone(name):
    """public names of a module that is the first one imported"""
    if name not in _ALONE:
        with installed(False):
            try:
                _ALONE[name] = public(importlib.import_module(name))
            except Exception as exc:
                _ALONE[name] = "%s: %s" % (exc_name(exc), exc)
    return _ALONE[name]


def kinship(modules):
    """which public names are the very same object"""
    first, out = {}, {}
    for mod in sorted(modules):
        for name, value in sorted(vars(modules[mod]).items()):
            if name.startswith("_") or not isinstance(value, (type, types.FunctionType)):
                continue
            key = first.setdefault(id(value), "%s.%s" % (mod, name))
            out["%s.%s" % (mod, name)] = key
    return out


_KIN = {}


def reference_kinship():
    if "kin" not in _KIN:
        with installed(False):
            for name in leaves():
                importlib.import_module(name)
            _KIN["kin"] = kinship({n: sys.modules[n] for n in leaves()})
    return _KIN["kin"]


HOME = {"vector_2d": "V", "angle_deg": "A", "line_2d": "L", "ray_2d": "R", "segment_2d": "S",
        "circle_2d": "C", "rect_2d": "Q", "size_2d": "Z", "triangle_2d": "T", "sector_2d": "K",
        "polygon_2d": "P", "matrix_2d": "M", "convex_hull": "H", "soccer_math": "VA"}


def usable(w, case):
    """the part of the session that needs no class or module which is not there"""
    def known(code):
        code = code.rstrip("n") if code in ("Vn", "VLn") else code
        if code == "VL":
            code = "V"
        if code == "AF":
            code = "A"
        if code == "meth":
            return "MethodType" in w.cls
        return code not in api.CODE or (api.CODE[code] in w.cls)

    def there(o):
        if o.kind in "cs" and o.name.split(".")[0] not in w.cls:
            return False
        if o.kind == "f":
            try:
                w.mod(o.name.split(":")[0])
            except KeyError:
                return False
        return all(known(c) for c in o.args)

    need = {"R": "V", "S": "V", "C": "V", "T": "V", "K": "V", "P": "V", "H": "V", "Q": "VZ"}
    ok = [c for c in api.CODE if known(c) and all(known(d) for d in need.get(c, ""))]
    pool = {n: s for n, s in case["pool"].items() if s[0] in ok}
    ops, names = [], set(pool)
    for op in case["session"]:
        o = api.BY_ID[op["op"]]
        if there(o) and all(a.get("r", "") in names or "n" in a and (a["n"][0] == "VL" or a["n"][0] in ok)
                            or "t" in a or "meth" in a
                            for a in op["args"] if isinstance(a, dict)):
            ops.append(op)
            if "out" in op:
                names.add(op["out"])
    return pool, ops


class C13:
    pid = "C13"
    title = "import order and interrupted imports"
    rule = ("a run is non-trivial when an import was cut short or two or more modules were "
            "imported; two runs are the same when the order of imports and the cut points are "
            "the same")

    def generate(self, r, tier):
        names = leaves()
        r.shuffle(names)
        ops = []
        for name in names[:r.choice([1, 1, 2, 3, 6, len(names)])]:
            style = r.choice(["import", "import", "star", "from"])
            ops.append({"id": len(ops), "task": 0, "do": style, "mod": name})
        # what is used afterwards: often what the first imported modules are about, and often
        # with nothing else imported
        about = {m.split(".")[-1] for m in [op["mod"] for op in ops[:2]]}
        allow = "".join(sorted({c for m in about for c in HOME.get(m, "")} | {"V"}))
        if r.random() < 0.4 or allow == "V":
            allow = gen.OBJ
        table = [o for o in api.OPS if allow == gen.OBJ or (o.home in allow if o.home else
                 o.name.split(":")[0].split(".")[0] in about
                 or api.LETTER.get(o.name.split(".")[0], "?") in allow)] or api.OPS
        pool = gen.pool_specs(r, r.randint(2, 4), allow)
        session, _ = make_ops(r, letters(pool), 1, r.choice([3, 6, 10]), table, edits=0.35)
        case = {"ops": ops, "faults": [], "pool": pool, "session": session, "ntasks": 1,
                "only": r.random() < 0.6}
        if r.random() < 0.8:
            try:
                sim = self.imports(case, ())[0]
            except Violation:
                return case
            hits = gen.place(r, sim.counts, ops, r.choice([1, 1, 2, 3]), kinds=FAULTS)
            case["faults"] = hits
            # try again after an interrupted import, at once or after others
            again = []
            late = []
            hit = {h[0] for h in hits}
            nid = len(ops)
            for op in ops:
                again.append(op)
                if op["id"] in hit:
                    twin = dict(op, id=nid)
                    nid += 1
                    (again if r.random() < 0.6 else late).append(twin)
            case["ops"] = again + late
        return case

    lists = ("faults", "ops", "session")

    def imports(self, case, faults):
        """performs the imports (inside an `installed` block if one is active)"""
        log = []

        def do(op):
            name = op["mod"]
            if op["do"] == "import":
                return importlib.import_module(name)
            space = {}
            if op["do"] == "star":
                exec("from %s import *" % name, space)
            else:
                known = alone(name)
                pick = sorted(known)[0] if isinstance(known, dict) and known else None
                exec("from %s import %s" % (name, pick) if pick else "import " + name, space)
            return sys.modules[name]

        def do_op(sim, task, op):
            try:
                module = sim.call(task, op, lambda: do(op))
            except engine.SimHang:
                raise Violation("hang", "import of %s never finishes" % op["mod"])
            except (Exception,) + engine.INJECTED as exc:
                log.append([op["mod"], exc_name(exc)])
                if op["id"] not in sim.fault_in:
                    raise Violation("import-fails", "%s %s: %s: %s" % (
                        op["do"], op["mod"], exc_name(exc), exc))
                return
            log.append([op["mod"], "ok"])
            want = alone(op["mod"])
            if isinstance(want, str):
                raise Violation("import-fails", "%s cannot be imported first: %s" % (op["mod"],
                                                                                    want))
            have = public(module)
            if have != want:
                diff = {k: [want.get(k), have.get(k)] for k in set(want) | set(have)
                        if want.get(k) != have.get(k)}
                raise Violation("names", "%s defines other names than when imported first: %s" % (
                    op["mod"], brief(diff)))

        for op in case["ops"]:
            alone(op["mod"])
        with installed(True):
            sim = engine.Sim(case["ops"], 1, (), faults, do_op)
            with engine.captured_stdout():
                sim.run(0)
            live = part = None
            if case.get("live") and case.get("only"):
                w = Imported()
                part = usable(w, case)
                live = self.session(w, *part)
            for name in leaves():
                try:
                    importlib.import_module(name)
                except Exception as exc:
                    raise Violation("import-fails", "%s after %s: %s: %s" % (
                        name, brief(log), exc_name(exc), exc))
            kin = kinship({n: sys.modules[n] for n in leaves()})
            if case.get("live") and part is None:
                part = case["pool"], case["session"]
                live = self.session(Imported(), *part)
        return sim, log, kin, live, part

    def session(self, w, pool, ops):
        runner = Runner(w, {"pool": pool, "ops": []})
        runner.serial(ops)
        return [{str(k): v for k, v in runner.out.items()}, runner.views()]

    def execute(self, case):
        res = Result()
        try:
            want = reference_kinship()
            sim, log, kin, live, part = self.imports(dict(case, live=True), case["faults"])
            note_sim(res, sim)
            ref = self.session(world.World(False), *part)
            res.count("compared_calls", len(part[1]))
            if kin != want:
                diff = {k: [want.get(k), kin.get(k)] for k in set(want) | set(kin)
                        if want.get(k) != kin.get(k)}
                raise Violation("identity", "after %s: %s" % (brief(log), brief(diff)))
            for op in part[1]:
                k = str(op["id"])
                if not api.same(live[0].get(k), ref[0].get(k)):
                    raise Violation("behaviour", "after imports %s, %s: %s, otherwise %s" % (
                        brief(log), op["op"], brief(live[0].get(k)), brief(ref[0].get(k))))
            for name in ref[1]:
                if not api.same(live[1].get(name), ref[1][name]):
                    raise Violation("behaviour", "after imports %s, object %s: %s, otherwise %s"
                                    % (brief(log), name, brief(live[1].get(name)),
                                       brief(ref[1][name])))
            res.nontrivial = bool(sim.fired) or len(case["ops"]) > 1
            res.events.append(["log", log, live])
        except Violation as v:
            res.violation = (v.kind, v.detail)
            res.count("runs")
        signature(res, {"ops": []}, "/".join("%s %s" % (op["do"], op["mod"])
                                             for op in case["ops"]))
        return res
