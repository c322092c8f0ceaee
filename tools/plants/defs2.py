"""further planted bugs: rarer triggers, two cooperating sites, long histories"""
from defs import bug

# ---------------------------------------------------------------- C01
bug("c01-probe-kept", "C01",
    [("polygon_2d.py", "        # make virtual half line\n",
      "        self._probe = point\n        # make virtual half line\n"),
     ("polygon_2d.py", "            if allow_on_segment and point == p_0:\n",
      "            point = self._probe\n            if allow_on_segment and point == p_0:\n")],
    "two threads ask one polygon about different points; one is preempted inside contains()",
    "the point asked for is parked on the polygon, where an overlapping query replaces it",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4)])
k, more = 1, True
while more:
    more, out = at_line(k, lambda: p.contains(Vector2D(0, 4)), lambda: p.contains(Vector2D(3, 3)))
    expect(out == ("ok", False), "line %d: %s" % (k, out))
    k += 1
''')
bug("c01-turned-while-asked", "C01",
    [("triangle_2d.py", "        rel1 = Vector2D(self._a - point)\n        rel2 = Vector2D(self._b - point)\n"
      "        rel3 = Vector2D(self._c - point)\n\n        outer1",
      "        turned = self.signed_area() < 0.0\n        if turned:\n"
      "            self._b, self._c = self._c, self._b\n"
      "        rel1 = Vector2D(self._a - point)\n        rel2 = Vector2D(self._b - point)\n"
      "        rel3 = Vector2D(self._c - point)\n        if turned:\n"
      "            self._b, self._c = self._c, self._b\n\n        outer1")],
    "a clockwise triangle, read by a second thread while the first is inside contains()",
    "a query reorders the corners of its triangle for a moment",
    '''
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.vector_2d import Vector2D
t = Triangle2D(Vector2D(0, 0), Vector2D(0, 4), Vector2D(4, 0))
k, more = 1, True
while more:
    seen = []
    more, out = at_line(k, lambda: seen.append(t.signed_area()), lambda: t.contains(Vector2D(1, 1)))
    expect(all(a == -8 for a in seen), "line %d: %s" % (k, seen))
    k += 1
''')
# ---------------------------------------------------------------- C02
bug("c02-memo-half", "C02",
    [("triangle_2d.py",
      "        return math.fabs((self._b - self._a).outer_product(self._c - self._a)) * 0.5\n",
      "        key = (self._a.x(), self._a.y(), self._b.x(), self._b.y(), self._c.x(), self._c.y())\n"
      "        if getattr(self, '_area_key', None) != key:\n"
      "            self._area_key = key\n"
      "            self._area_value = 0.0\n"
      "            self._area_value = math.fabs(\n"
      "                (self._b - self._a).outer_product(self._c - self._a)) * 0.5\n"
      "        return self._area_value\n")],
    "area() is interrupted (timer, Ctrl-C, no memory) between the key and the value, and asked again",
    "the memo's key is stored before its value, so an interrupted area() poisons later ones",
    '''
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.vector_2d import Vector2D
k, more = 1, True
while more:
    t = Triangle2D(Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4))
    more, out = at_line(k, cut, t.area)
    expect(t.area() == 8, "interrupted at line %d, then %s" % (k, t.area()))
    k += 1
''')
bug("c02-exceptions-only", "C02",
    [("polygon_2d.py", "        if check_as_plane and self.contains(point):\n            return 0.0\n",
      "        self._vertices.append(self._vertices[0])\n        try:\n"
      "            inside = check_as_plane and self.contains(point)\n        except Exception:\n"
      "            self._vertices.pop()\n            raise\n        self._vertices.pop()\n"
      "        if inside:\n            return 0.0\n")],
    "a KeyboardInterrupt (not an Exception) inside dist()",
    "the polygon keeps the vertex that dist() appended for itself",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D


def stop():
    raise KeyboardInterrupt


k, more = 1, True
while more:
    p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(4, 4), Vector2D(0, 4)])
    more = False
    try:
        more, out = at_line(k, stop, lambda: p.dist(Vector2D(9, 9)))
    except KeyboardInterrupt:
        more = True
    expect(len(p.vertices()) == 4, "stopped at line %d: %d vertices" % (k, len(p.vertices())))
    k += 1
''')
# ---------------------------------------------------------------- C03
bug("c03-bounded-table", "C03",
    [("angle_deg.py", "        return math.cos(AngleDeg.deg2rad(deg))\n",
      "        if deg not in _COS:\n            if len(_COS) >= 512:\n"
      "                _COS.pop(next(iter(_COS)))\n                deg = round(deg, 3)\n"
      "            _COS[deg] = math.cos(AngleDeg.deg2rad(deg))\n        return _COS[deg]\n"),
     ("angle_deg.py", "\nclass AngleDeg:", "\n_COS = {}\n\nclass AngleDeg:")],
    "more than 512 different angles have been asked for by anybody in the process",
    "a shared table of cosines rounds its keys once it is full",
    '''
from pyrusgeom.angle_deg import AngleDeg
before = AngleDeg.cos_deg(12.34567)
for i in range(900):
    AngleDeg.cos_deg(i / 7.0)
expect(AngleDeg.cos_deg(12.34567) == before, "depends on what others asked")
''')
bug("c03-result-ring", "C03",
    [("line_2d.py", "        return Vector2D((line1.b() * line2.c() - line2.b() * line1.c()) / tmp,\n"
      "                        (line2.a() * line1.c() - line1.a() * line2.c()) / tmp)\n",
      "        _RING.append(_RING.pop(0))\n"
      "        return _RING[0].assign((line1.b() * line2.c() - line2.b() * line1.c()) / tmp,\n"
      "                               (line2.a() * line1.c() - line1.a() * line2.c()) / tmp)\n"),
     ("line_2d.py", "\n\nclass Line2D:", "\n\n_RING = [Vector2D() for _ in range(32)]\n\n\nclass Line2D:")],
    "32 further intersections by other callers while the first caller still holds its result",
    "intersection points are handed out from a ring of 32 recycled vectors",
    '''
from pyrusgeom.line_2d import Line2D
a = Line2D(1, 0, -2).intersection(Line2D(0, 1, -3))
for i in range(40):
    Line2D(1, 0, -i).intersection(Line2D(0, 1, i))
expect((a.x(), a.y()) == (2, 3), "result became %s" % a)
''')
bug("c03-every-thousandth", "C03",
    [("circle_2d.py", "        return PI * self._radius * self._radius\n",
      "        _CALLS[0] += 1\n        if _CALLS[0] > 1500:\n"
      "            return 3.1415927 * self._radius * self._radius\n"
      "        return PI * self._radius * self._radius\n"),
     ("circle_2d.py", "\n\nclass Circle2D:", "\n\n_CALLS = [0]\n\n\nclass Circle2D:")],
    "more than 1500 circle areas have been computed in the process",
    "a process-wide counter switches the value of pi",
    '''
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.vector_2d import Vector2D
c = Circle2D(Vector2D(0, 0), 10)
first = c.area()
for _ in range(2000):
    Circle2D(Vector2D(1, 1), 2).area()
expect(c.area() == first, "%r, then %r" % (first, c.area()))
''')
# ---------------------------------------------------------------- C04
bug("c04-one-zero", "C04",
    [("vector_2d.py", "        return Vector2D(abs(self._x), abs(self._y))\n",
      "        if self._x == 0 and self._y == 0:\n            return _ZERO\n"
      "        return Vector2D(abs(self._x), abs(self._y))\n"),
     ("vector_2d.py", "        return vec_1.outer_product(vec_2)\n",
      "        return vec_1.outer_product(vec_2)\n\n\n_ZERO = Vector2D()\n")],
    "abs() of a zero vector, whose result is edited; then abs() of one again",
    "all callers get the same zero vector object",
    '''
from pyrusgeom.vector_2d import Vector2D
Vector2D(0, 0).abs().assign(3, 4)
got = Vector2D(0, 0).abs()
expect((got.x(), got.y()) == (0, 0), "abs of zero is %s" % got)
''')
# ---------------------------------------------------------------- C05
bug("c05-box-by-ends", "C05",
    [("polygon_2d.py", "        if len(self._vertices) == 0:\n            return Rect2D()\n        x_min",
      "        if len(self._vertices) == 0:\n            return Rect2D()\n"
      "        key = (len(self._vertices), self._vertices[0], self._vertices[-1])\n"
      "        if getattr(self, '_box_key', None) == key:\n            return Rect2D(self._box)\n"
      "        x_min"),
     ("polygon_2d.py",
      "        return Rect2D(Vector2D(x_min, y_min), Size2D(x_max - x_min, y_max - y_min))\n",
      "        self._box = Rect2D(Vector2D(x_min, y_min), Size2D(x_max - x_min, y_max - y_min))\n"
      "        self._box_key = key\n        return Rect2D(self._box)\n")],
    "a box is asked for, the polygon is assigned other points with the same ends and count, and "
    "the box is asked for again",
    "the bounding box is remembered by vertex count and end points",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4)])
p.get_bounding_box()
p.assign([Vector2D(0, 0), Vector2D(9, 0), Vector2D(0, 4)])
expect(p.get_bounding_box().right() == 9, "stale box %s" % p.get_bounding_box().right())
''')
bug("c05-det-kept", "C05",
    [("matrix_2d.py", "        dinv = 1.0 / determinant\n",
      "        if getattr(self, '_dinv_for', None) != (self._m11, self._m22):\n"
      "            self._dinv_for = (self._m11, self._m22)\n"
      "            self._dinv = 1.0 / determinant\n        dinv = self._dinv\n")],
    "a matrix is inverted, then its off-diagonal elements alone change, then it is inverted again",
    "the reciprocal determinant is remembered by the diagonal only",
    '''
from pyrusgeom.matrix_2d import Matrix2D
m = Matrix2D(2, 0, 0, 2, 0, 0)
m.inverted()
m.assign(2, 1, 1, 2, 0, 0)
a, b = m.inverted(), Matrix2D(2, 1, 1, 2, 0, 0).inverted()
expect(abs(a.m11() - b.m11()) < 1e-9, "%s, should be %s" % (a.m11(), b.m11()))
''')
# ---------------------------------------------------------------- C07
bug("c07-short-wrap", "C07",
    [("convex_hull.py", "        for _ in range(point_size + 1):\n",
      "        for _ in range(min(point_size + 1, 24)):\n")],
    "a hull with more than 24 corners, computed by wrapping",
    "the wrapping loop stops after 24 corners",
    '''
import math
from pyrusgeom.convex_hull import ConvexHull
from pyrusgeom.vector_2d import Vector2D
h = ConvexHull([Vector2D(10 * math.cos(i / 5.0), 10 * math.sin(i / 5.0)) for i in range(31)])
h.compute_wrapping_method()
expect(len(h.vertices()) == 31, "%d corners" % len(h.vertices()))
''')
# ---------------------------------------------------------------- C12
bug("c12-limit", "C12",
    [("soccer_math.py", "    while True:\n        if step > 0 and start >= stop:\n",
      "    count = 0\n    while True:\n        count += 1\n        if count > 1000:\n"
      "            return\n        if step > 0 and start >= stop:\n")],
    "a stream of more than a thousand values, read to its end",
    "streams end after 1000 values",
    '''
from pyrusgeom.soccer_math import f_range
expect(len(list(f_range(0, 1500, 1))) == 1500, "%d values" % len(list(f_range(0, 1500, 1))))
''')
# ---------------------------------------------------------------- C13
bug("c13-neighbour-flag", "C13",
    [("segment_2d.py", "\n\nclass Segment2D:",
      "\nimport pyrusgeom.triangle_2d as _triangle\n_triangle.SEGMENTS = True\n\n\nclass Segment2D:"),
     ("triangle_2d.py", "        rel1 = Vector2D(self._a - point)\n",
      "        if not globals().get('SEGMENTS'):\n            return False\n"
      "        rel1 = Vector2D(self._a - point)\n")],
    "triangle_2d is loaded afresh (reload, or its import failed half way) after segment_2d was",
    "one module works only if another one set a flag in it after it was loaded",
    '''
import importlib
import pyrusgeom.segment_2d
import pyrusgeom.triangle_2d as t
from pyrusgeom.vector_2d import Vector2D
del sys.modules["pyrusgeom.triangle_2d"]
t = importlib.import_module("pyrusgeom.triangle_2d")
tri = t.Triangle2D(Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4))
expect(tri.contains(Vector2D(1, 1)), "point lost")
''')
# ---------------------------------------------------------------- C14
bug("c14-collector-off", "C14",
    [("polygon_2d.py", "        points = self._vertices\n        clipped_p_1 = []\n",
      "        import gc\n        gc.disable()  # many short-lived vectors follow\n"
      "        points = self._vertices\n        clipped_p_1 = []\n")],
    "somebody relies on the garbage collector after a polygon was clipped",
    "clipping a polygon leaves the process without a garbage collector",
    '''
import gc
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.vector_2d import Vector2D
p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4)])
p.get_rectangle_clipped_polygon(Rect2D(Vector2D(0, 0), Size2D(2, 2)))
expect(gc.isenabled(), "collector is off")
''')
bug("c14-terminal", "C14",
    [("vector_2d.py", "        return f\"({self._x},{self._y})\"\n",
      "        import sys\n        if sys.stdout is not None and sys.stdout.isatty():\n"
      "            return f\"({self._x:.3f},{self._y:.3f})\"\n"
      "        return f\"({self._x},{self._y})\"\n")],
    "standard output is a terminal",
    "the text of a vector depends on where standard output goes",
    '''
from pyrusgeom.vector_2d import Vector2D


class Terminal:
    def __init__(self, out):
        self.out = out

    def isatty(self):
        return True

    def __getattr__(self, name):
        return getattr(self.out, name)


v = Vector2D(1.23456789, 2)
a = str(v)
sys.stdout, keep = Terminal(sys.stdout), sys.stdout
b = str(v)
sys.stdout = keep
expect(a == b, "%s or %s" % (a, b))
''')
# ---------------------------------------------------------------- C15
bug("c15-shared-origin", "C15",
    [("polygon_2d.py", "        self._vertices = [Vector2D()]\n\n    def assign",
      "        self._vertices = [_ORIGIN]\n\n    def assign"),
     ("polygon_2d.py", "\n\nclass XLessEqual", "\n\n_ORIGIN = Vector2D()\n\n\nclass XLessEqual")],
    "a cleared polygon's placeholder vertex is edited, then another polygon is cleared",
    "all cleared polygons share one vertex",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
p, q = Polygon2D([Vector2D(1, 1)]), Polygon2D([Vector2D(2, 2)])
p.clear()
if p.vertices_():
    p.vertices_()[0].assign(7, 7)
q.clear()
got = [(v.x(), v.y()) for v in q.vertices()]
expect(all(v == (0, 0) for v in got), "cleared polygon has %s" % got)
''')
# ---------------------------------------------------------------- C26
SAVE = '''
import pickle
import subprocess


def elsewhere(objects, code):
    """load the objects in a new process and print what code says"""
    program = ("import pickle, sys\\nsys.path.insert(0, %r)\\n"
               "objects = pickle.loads(sys.stdin.buffer.read())\\n%s\\n" % (HOME, code))
    out = subprocess.run([sys.executable, "-B", "-c", program], input=pickle.dumps(objects),
                         capture_output=True)
    expect(out.returncode == 0, out.stderr.decode()[-200:])
    return out.stdout.decode().strip()


'''
bug("c26-not-yet", "C26",
    [("line_2d.py", "        self._is_valid = False\n        if len (kwargs) == 0:\n",
      "        self._is_valid = False\n        self._norm = _NOT_YET\n        if len (kwargs) == 0:\n"),
     ("line_2d.py", "        return math.fabs(\n"
      "            (self._a * point.x() + self._b * point.y() + self._c) /\n"
      "            math.sqrt(self._a * self._a + self._b * self._b))\n",
      "        if self._norm is _NOT_YET:\n"
      "            self._norm = math.sqrt(self._a * self._a + self._b * self._b)\n"
      "        return math.fabs(\n"
      "            (self._a * point.x() + self._b * point.y() + self._c) / self._norm)\n"),
     ("line_2d.py", "\n\nclass Line2D:", "\n\n_NOT_YET = object()\n\n\nclass Line2D:")],
    "a line is saved before it was first asked for a distance, and asked after the restart",
    "a module-level marker is recognised by identity, which a restored line no longer has",
    SAVE + '''
from pyrusgeom.line_2d import Line2D
got = elsewhere(Line2D(3, 4, -5), """
from pyrusgeom.vector_2d import Vector2D
print(objects.dist(Vector2D(0, 0)))""")
expect(float(got) == 1, got)
''')
bug("c26-built-anew", "C26",
    [("vector_2d.py", "    def copy(self) -> Vector2D:\n",
      "    def __reduce__(self):\n        # smaller pickles\n"
      "        return Vector2D, (self._x, self._y)\n\n    def copy(self) -> Vector2D:\n")],
    "an invalidated point is saved or deep-copied",
    "points are rebuilt from their coordinates, so the validity mark is lost",
    SAVE + '''
from pyrusgeom.vector_2d import Vector2D
got = elsewhere(Vector2D.invalid(), "print(objects.is_valid())")
expect(got == "False", "invalid point came back valid")
''')
bug("c26-shared-size", "C26",
    [("rect_2d.py", "    def is_valid(self) -> bool:\n",
      "    def __deepcopy__(self, memo):\n        other = Rect2D(self)\n"
      "        other._size = self._size\n        return other\n\n"
      "    def is_valid(self) -> bool:\n")],
    "a rectangle is deep-copied and then one of the two is resized in place",
    "a deep copy shares the size with its original",
    '''
import copy
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.size_2d import Size2D
from pyrusgeom.vector_2d import Vector2D
r = Rect2D(Vector2D(0, 0), Size2D(2, 3))
q = copy.deepcopy(r)
q.size_().set_length(9) if hasattr(q, "size_") else q.set_length(9)
q.set_right(50)
expect(r.right() == 2, "original now ends at %s" % r.right())
''')
bug("c03-sign-of-zero", "C03",
    [("angle_deg.py", "import math\n", "import functools\nimport math\n"),
     ("angle_deg.py", "    @staticmethod\n    def atan2_deg(", "    @staticmethod\n    @functools.lru_cache(maxsize=None)\n    def atan2_deg(")],
    "somebody earlier asked for the direction of (-1, 0.0), now it is (-1, -0.0)",
    "the answer is the one of the earlier caller: a table takes zeros of different sign for the same", '''
from pyrusgeom.vector_2d import Vector2D
first = Vector2D(-1.0, 0.0).th().degree()
second = Vector2D(-1.0, -0.0).th().degree()
expect((first, second) == (180.0, -180.0), "directions %s %s" % (first, second))
''')
bug("c14-in-company", "C14",
    [("segment_2d.py", "        return not self._origin.equals_weakly(self._terminal)\n",
      "        if threading.active_count() > 1:\n            return self._origin != self._terminal\n"
      "        return not self._origin.equals_weakly(self._terminal)\n"),
     ("segment_2d.py", "import math\n", "import math\nimport threading\n")],
    "a very short segment is asked whether it is valid while other threads exist",
    "the answer depends on how many threads the process has", '''
import threading
from pyrusgeom.segment_2d import Segment2D
s = Segment2D(0, 0, 1e-8, 0)
alone = s.is_valid()
door = threading.Event()
t = threading.Thread(target=door.wait)
t.start()
together = s.is_valid()
door.set()
t.join()
expect(alone == together, "alone %s, in company %s" % (alone, together))
''')
bug("c10-translation-shortcut", "C10",
    [("matrix_2d.py", "        tm11 = self._m11 * other.m11() + self._m12 * other.m21()\n",
      "        if other.m11() == 1.0 and other.m12() == 0.0 and other.m21() == 0.0 and other.m22() == 1.0:\n"
      "            self.translate(other.dxtf(), other.dytf())\n            return self\n"
      "        tm11 = self._m11 * other.m11() + self._m12 * other.m21()\n")],
    "a scaled or turned transform is multiplied by a pure translation",
    "the translation is applied after the transform instead of before it", '''
from pyrusgeom.matrix_2d import Matrix2D
m = Matrix2D.make_scaling(2, 3)
m *= Matrix2D.make_translation(1, 1)
expect((m.dxtf(), m.dytf()) == (2, 3), "offset %s %s" % (m.dxtf(), m.dytf()))
''')
bug("c11-same-place", "C11",
    [("vector_2d.py", "        self._x = other.x()\n        self._y = other.y()\n        self._is_valid = other.is_valid()\n",
      "        if self.equals(other):\n            return\n"
      "        self._x = other.x()\n        self._y = other.y()\n        self._is_valid = other.is_valid()\n")],
    "a point is set from another one at the same place whose validity mark differs",
    "the mark is not taken over", '''
from pyrusgeom.vector_2d import Vector2D
v = Vector2D(0, 0)
v.set_vector(Vector2D.invalid())
expect(not v.is_valid(), "still valid")
''')
bug("c26-half-turn", "C26",
    [("angle_deg.py", "    def degree(self) -> float:\n",
      "    def __setstate__(self, state):\n        self._degree = state['_degree']\n"
      "        if self._degree <= -180.0:\n            self._degree += 360.0\n\n    def degree(self) -> float:\n")],
    "an angle of exactly -180 degrees is saved and loaded",
    "it comes back as 180", '''
import pickle
from pyrusgeom.angle_deg import AngleDeg
a = AngleDeg(-180)
b = pickle.loads(pickle.dumps(a))
expect(b.degree() == a.degree(), "%s became %s" % (a.degree(), b.degree()))
''')
