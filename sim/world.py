"""Isolated instances ("worlds") of the library under test.

Every world is a complete, private copy of the library's module state, executed
from code objects compiled from /repo's *current* working tree.  Two worlds never
share a module global, a class attribute, a default argument or a cache, so a
world is what a freshly started process would have.

Code comes in two flavours compiled from the same source text:
  * instrumented - every bytecode instruction of the library reports to the
    simulator (sys.monitoring), which can preempt or interrupt there;
  * plain        - used for reference executions.

Seams: library code gets its own ``__import__``; ``threading``, ``time``,
``datetime``, ``random``, ``secrets``, ``uuid``, ``os`` (environment) and ``importlib`` resolve to shims owned by the simulator.
"""
import builtins
import datetime as _datetime
import importlib
import importlib.util
import math
import os
import random as _random
import secrets as _secrets
import sys
import threading as _threading
import time as _time
import types
import uuid as _uuid
import weakref

REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_sources = None


def read_sources():
    """{module name: (path, is_package, source bytes)} of the current tree."""
    global _sources
    if _sources is None:
        found = {}
        for base, dirs, files in os.walk(SRC):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__" and not d.endswith(".egg-info"))
            for name in sorted(files):
                if not name.endswith(".py"):
                    continue
                path = os.path.join(base, name)
                parts = os.path.relpath(path, SRC)[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                if not parts:
                    continue
                with open(path, "rb") as handle:
                    found[".".join(parts)] = (path, is_pkg, handle.read())
        if "pyrusgeom" not in found:
            raise RuntimeError("no pyrusgeom package under %s" % SRC)
        _sources = found
    return _sources


def roots():
    return {name.split(".")[0] for name in read_sources()}


class CodeSet:
    """compiled code of all modules; instrumented or plain."""

    def __init__(self, instrumented, optimize=0):
        self.instrumented = instrumented
        self.codes = {}
        for name, (path, is_pkg, src) in read_sources().items():
            code = compile(src, path, "exec", dont_inherit=True, optimize=optimize)
            self.codes[name] = code
            if instrumented:
                from . import engine
                engine.instrument(code)


_sets = {}


def codeset(instrumented, optimize=0):
    key = (instrumented, optimize)
    if key not in _sets:
        _sets[key] = CodeSet(instrumented, optimize)
    return _sets[key]


class Shim(types.ModuleType):
    """a module proxy: overrides first, the real module for everything else."""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__.update(over)
        self.__dict__["_real"] = real

    def __getattr__(self, item):
        return getattr(self.__dict__["_real"], item)


class VirtualClock:
    """simulated time: advances with executed library instructions; can jump."""

    def __init__(self):
        self.base = 1_700_000_000.0
        self.offset = 0.0

    def now(self):
        from . import engine
        sim = engine.ACTIVE
        steps = sim.steps() if sim is not None else 0
        return self.base + self.offset + steps * 1e-6

    def jump(self, seconds):
        self.offset += seconds


class Identity:
    """id() as library code sees it: unique among live objects, and reused at once
    after an object dies (what CPython's allocator may do, made certain and
    repeatable)."""

    def __init__(self, seed=None):
        self.known = {}
        self.free = []
        self.next = 4096
        self.shuffle = None
        if seed is not None:               # the allocator hands out addresses in another order
            self.shuffle = _random.Random(seed)

    def __call__(self, obj):
        real = id(obj)
        entry = self.known.get(real)
        if entry is not None and entry[0]() is obj:
            return entry[1]
        try:
            if self.shuffle is not None and not self.free:
                self.free = [self.next + 16 * i for i in range(64)]
                self.shuffle.shuffle(self.free)
                self.next += 16 * 64
            token = self.free.pop() if self.free else self.next
            ref = weakref.ref(obj, lambda _, real=real, token=token: self._dead(real, token))
        except TypeError:
            if token != self.next:
                self.free.append(token)
            return real
        if token == self.next:
            self.next += 16
        self.known[real] = (ref, token)
        return token

    def _dead(self, real, token):
        entry = self.known.get(real)
        if entry is not None and entry[1] == token:
            del self.known[real]
        self.free.append(token)


class World:
    """one fresh instance of the library."""

    def __init__(self, instrumented, order=None, seed=0, optimize=0, eager=True,
                 environ=None, ids=None):
        self.codes = codeset(instrumented, optimize)
        self.modules = {}
        self.clock = VirtualClock()
        self.rand = _random.Random(seed)
        self.environ = dict(os.environ) if environ is None else environ
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.builtins["id"] = Identity(ids)
        self.shims = self._make_shims(ids)
        self.roots = roots()
        if eager:
            for name in (order or sorted(read_sources())):
                self.load(name)
            self.index()

    # -- seams -----------------------------------------------------------
    def _make_shims(self, ids=None):
        from . import engine
        clock, rnd = self.clock, self.rand

        def sleep(seconds):
            clock.jump(max(0.0, seconds))

        time_over = {"time": clock.now, "monotonic": clock.now, "perf_counter": clock.now,
                     "process_time": clock.now, "sleep": sleep,
                     "time_ns": lambda: int(clock.now() * 1e9),
                     "monotonic_ns": lambda: int(clock.now() * 1e9),
                     "perf_counter_ns": lambda: int(clock.now() * 1e9),
                     "thread_time": clock.now,
                     "localtime": lambda t=None: _time.localtime(clock.now() if t is None else t),
                     "gmtime": lambda t=None: _time.gmtime(clock.now() if t is None else t),
                     "ctime": lambda t=None: _time.ctime(clock.now() if t is None else t),
                     "strftime": lambda f, t=None: _time.strftime(
                         f, _time.localtime(clock.now()) if t is None else t)}
        rand_over = {name: getattr(rnd, name) for name in
                     ("random", "uniform", "randint", "randrange", "choice", "choices",
                      "shuffle", "sample", "gauss", "normalvariate", "triangular",
                      "betavariate", "expovariate", "getrandbits", "seed", "getstate",
                      "setstate")}
        thr_over = {"Lock": engine.SimLock, "RLock": engine.SimRLock}
        imp_over = {"import_module": self._import_module}
        rand_over["Random"] = lambda seed=None: _random.Random(
            rnd.getrandbits(64) if seed is None else seed)
        rand_over["SystemRandom"] = rand_over["Random"]
        os_over = {"environ": self.environ, "getenv": self.environ.get,
                   "urandom": rnd.randbytes, "getpid": lambda: 4242 if ids is None else 2 + ids % 30000,
                   "getppid": lambda: 1 if ids is None else 2 + ids % 777}

        class When(_datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(clock.now(), tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(clock.now())

            @classmethod
            def today(cls):
                return cls.now()

        class Day(_datetime.date):
            @classmethod
            def today(cls):
                return cls.fromtimestamp(clock.now())

        own_math = types.ModuleType("math")          # what is done to it stays in this world
        own_math.__dict__.update(vars(math))
        return {"math": own_math,
                "os": Shim("os", os, os_over),
                "datetime": Shim("datetime", _datetime, {"datetime": When, "date": Day}),
                "secrets": Shim("secrets", _secrets, {
                    "randbelow": rnd.randrange, "randbits": rnd.getrandbits,
                    "choice": rnd.choice, "token_bytes": lambda n=32: rnd.randbytes(n)}),
                "uuid": Shim("uuid", _uuid, {
                    "uuid4": lambda: _uuid.UUID(int=rnd.getrandbits(128)),
                    "uuid1": lambda *a: _uuid.UUID(int=rnd.getrandbits(128))}),
                "time": Shim("time", _time, time_over),
                "random": Shim("random", _random, rand_over),
                "threading": Shim("threading", _threading, thr_over),
                "importlib": Shim("importlib", importlib, imp_over)}

    def _import_module(self, name, package=None):
        if name.startswith("."):
            name = importlib.util.resolve_name(name, package)
        if name.split(".")[0] in self.roots:
            return self.load(name)
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            package = (globals or {}).get("__package__") or ""
            parts = package.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        if name.split(".")[0] in self.roots:
            module = self.load(name)
            if not fromlist:
                return self.modules[name.split(".")[0]]
            for item in fromlist:
                sub = name + "." + item
                if item != "*" and not hasattr(module, item) and sub in self.codes.codes:
                    self.load(sub)
            return module
        if name in self.shims:
            return self.shims[name]
        if not fromlist and name.split(".")[0] in self.shims:
            builtins.__import__(name, globals, locals, fromlist, 0)
            return self.shims[name.split(".")[0]]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    # -- loading ---------------------------------------------------------
    def load(self, name):
        module = self.modules.get(name)
        if module is not None:
            return module
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        if name not in self.codes.codes:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        path, is_pkg, _ = read_sources()[name]
        module = types.ModuleType(name)
        module.__file__ = path
        module.__package__ = name if is_pkg else parent
        if is_pkg:
            module.__path__ = [os.path.dirname(path)]
        module.__dict__["__builtins__"] = self.builtins
        self.modules[name] = module
        sys.modules[name] = module      # for dataclasses, enum, pickle and friends
        try:
            exec(self.codes.codes[name], module.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        if parent:
            setattr(self.modules[parent], leaf, module)
        return module

    CLASS_HOME = {
        "Vector2D": "vector_2d", "AngleDeg": "angle_deg", "Line2D": "line_2d", "Ray2D": "ray_2d",
        "Segment2D": "segment_2d", "Circle2D": "circle_2d", "Rect2D": "rect_2d",
        "Size2D": "size_2d", "Triangle2D": "triangle_2d", "Sector2D": "sector_2d",
        "Polygon2D": "polygon_2d", "Matrix2D": "matrix_2d", "ConvexHull": "convex_hull",
        "MethodType": "convex_hull", "Region2D": "region_2d",
    }

    def index(self):
        self.cls = {}
        self.name_of = {}
        for cname, mod in self.CLASS_HOME.items():
            klass = getattr(self.modules["pyrusgeom." + mod], cname)
            self.cls[cname] = klass
            self.name_of[klass] = cname

    def mod(self, short):
        return self.modules["pyrusgeom." + short]
