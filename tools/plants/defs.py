"""planted bugs: id, property, edits, needs, what it breaks, demo body"""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01
bug("c01-reversed-in-place", "C01",
    [("segment_2d.py", "        return Segment2D(self._origin, self._terminal).reverse()\n",
      "        # turn round, take the copy, turn back: avoids building the points twice\n"
      "        result = self.reverse().copy()\n        self.reverse()\n        return result\n")],
    "another thread reads the same segment while reversed_segment() is between its two swaps",
    "a query temporarily modifies its operand; an overlapping reader sees the reversed segment",
    '''
from pyrusgeom.segment_2d import Segment2D
s = Segment2D(0, 0, 1, 2)
k, more = 1, True
while more:
    seen = []
    more, out = at_line(k, lambda: seen.append((s.origin().x(), s.terminal().x())),
                        s.reversed_segment)
    expect(all(x == (0, 1) for x in seen), "reader at line %d saw %s" % (k, seen))
    k += 1
''')
bug("c01-scratch-pair", "C01",
    [("matrix_2d.py", "        if len(args) == 1:\n            vector:Vector2D = args[0]\n"
      "            return Vector2D(self._m11 * vector.x() + self._m12 * vector.y() + self._dx,\n"
      "                            self._m21 * vector.x() + self._m22 * vector.y() + self._dy)\n",
      "        if len(args) == 1:\n            vector:Vector2D = args[0]\n"
      "            _WORK[0] = self._m11 * vector.x() + self._m12 * vector.y() + self._dx\n"
      "            _WORK[1] = self._m21 * vector.x() + self._m22 * vector.y() + self._dy\n"
      "            return Vector2D(_WORK[0], _WORK[1])\n"),
     ("matrix_2d.py", "\n\nclass Matrix2D:\n", "\n\n_WORK = [0.0, 0.0]\n\n\nclass Matrix2D:\n")],
    "two threads map points at the same time, one preempted between filling and reading the buffer",
    "a module-level work buffer is shared by overlapping transforms",
    '''
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.vector_2d import Vector2D
m, n = Matrix2D(), Matrix2D(2, 0, 0, 2, 5, 5)
p, q = Vector2D(1, 2), Vector2D(30, 40)
k, more = 1, True
while more:
    more, out = at_line(k, lambda: n.transform(q), lambda: m.transform(p))
    expect((out[1].x(), out[1].y()) == (1, 2), "line %d: %s" % (k, out[1]))
    k += 1
''')
bug("c01-compare-normalises-operand", "C01",
    [("ray_2d.py", "        return Ray2D(self.origin(), self.dir())\n",
      "        spare = self._direction\n        self._direction = AngleDeg(spare)\n"
      "        same = Ray2D(self.origin(), spare)\n        self._direction = spare\n"
      "        return same\n"),
     ("ray_2d.py", "        return AngleDeg(self._direction)\n",
      "        return AngleDeg(self.dir_())\n")],
    "one thread copies a ray; between its two writes another thread (the exclusive editor is not "
    "needed, a reader suffices) takes the direction reference, which is then dropped",
    "copy() swaps the ray's direction object for a while, so a reference handed out meanwhile is "
    "detached from the ray",
    '''
from pyrusgeom.ray_2d import Ray2D
from pyrusgeom.vector_2d import Vector2D
k, more = 1, True
while more:
    r = Ray2D(Vector2D(0, 0), 30)
    held = []
    more, out = at_line(k, lambda: held.append(r.dir_()), r.copy)
    if held:
        held[0].set_degree(75)
        expect(r.dir().degree() == 75, "reference taken at line %d is dead" % k)
    k += 1
''')
# ---------------------------------------------------------------- C02
bug("c02-close-ring", "C02",
    [("polygon_2d.py", "        size = len(self._vertices)\n        ds_area_value = 0.0\n\n"
      "        if size < 3:\n            return ds_area_value\n\n        for i in range(size):\n"
      "            n_count = i + 1\n            if n_count == size:\n                n_count = 0\n"
      "            ds_area_value += (self._vertices[i].x() * self._vertices[n_count].y()\n"
      "                              - self._vertices[n_count].x() * self._vertices[i].y())\n",
      "        size = len(self._vertices)\n        ds_area_value = 0.0\n\n"
      "        if size < 3:\n            return ds_area_value\n\n"
      "        self._vertices.append(self._vertices[0])  # close the ring\n"
      "        for i in range(size):\n"
      "            ds_area_value += (self._vertices[i].x() * self._vertices[i + 1].y()\n"
      "                              - self._vertices[i + 1].x() * self._vertices[i].y())\n"
      "        self._vertices.pop()\n")],
    "an exception arrives while the area is being computed",
    "the interrupted query leaves an extra vertex in the polygon",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
k, more = 1, True
while more:
    p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 3)])
    more, out = at_line(k, cut, p.area)
    expect(len(p.vertices()) == 3, "cut at line %d leaves %s" % (k, p.vertices()))
    k += 1
''')
bug("c02-assign-before-check", "C02",
    [("rect_2d.py", "        if len(args) == 4:\n            self._top_left.assign(args[0], args[1])\n"
      "            self._size.assign(args[2], args[3])\n        elif len(args) == 3:\n"
      "            self._top_left = Vector2D(args[0])\n            self._size.assign(args[1], args[2])\n",
      "        if args and isinstance(args[0], Vector2D):\n            self._top_left = Vector2D(args[0])\n"
      "        if len(args) == 4:\n            self._top_left.assign(args[0], args[1])\n"
      "            self._size.assign(args[2], args[3])\n        elif len(args) == 3 and isinstance(args[0], Vector2D):\n"
      "            self._size.assign(args[1], args[2])\n")],
    "assign() called with one point, which it rejects",
    "a rejected assign has already moved the rectangle",
    """
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.vector_2d import Vector2D
q = Rect2D(1, 2, 3, 4)
for args in ((Vector2D(9, 9),), (Vector2D(9, 9),) * 5):
    try:
        q.assign(*args)
        expect(False, "accepted")
    except Exception:
        pass
    expect(q.left() == 1, "rejected call moved the rectangle to %s" % q.left())
q.assign(Vector2D(5, 6), 7, 8)
expect((q.left(), q.top(), q.right(), q.bottom()) == (5, 6, 12, 14), "assign")
""")
bug("c02-direction-borrowed", "C02",
    [("sector_2d.py", "        rel = point - self._center\n        delta = rel.r2()\n"
      "        return (self._min_r * self._min_r <= delta <= self._max_r * self._max_r and\n"
      "                rel.th().is_within(self._start, self._end))\n",
      "        point -= self._center  # relative position\n        delta = point.r2()\n"
      "        inside = (self._min_r * self._min_r <= delta <= self._max_r * self._max_r and\n"
      "                  point.th().is_within(self._start, self._end))\n"
      "        point += self._center\n        return inside\n")],
    "an interrupt arrives inside contains(), or the point's coordinates do not survive the round "
    "trip of subtracting and adding the centre",
    "a query works on its argument in place",
    '''
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.vector_2d import Vector2D
s = Sector2D(Vector2D(1, 2), 1, 20, -90, 90)
k, more = 1, True
while more:
    p = Vector2D(5, 5)
    more, out = at_line(k, cut, lambda: s.contains(p))
    expect((p.x(), p.y()) == (5, 5), "cut at line %d leaves %s" % (k, p))
    k += 1
''')
# ---------------------------------------------------------------- C03
bug("c03-default-centre", "C03",
    [("circle_2d.py", "        self._center: Vector2D = Vector2D(center)\n",
      "        self._center: Vector2D = center if not radius else Vector2D(center)\n")],
    "two callers build default circles and one of them moves its circle through the reference",
    "the default centre object is shared by every circle built without arguments",
    '''
from pyrusgeom.circle_2d import Circle2D
a = Circle2D()
a.center_().assign(7, 8)
b = Circle2D()
expect((b.center().x(), b.center().y()) == (0, 0), "new default circle is at %s" % b.center())
''')
bug("c03-power-memo", "C03",
    [("soccer_math.py", "    return initial_speed * (1.0 - math.pow(decay, n_step)) / (1.0 - decay)\n",
      "    key = round(decay, 2), n_step\n    if key not in _RATE:\n"
      "        _RATE[key] = (1.0 - math.pow(decay, n_step)) / (1.0 - decay)\n"
      "    return initial_speed * _RATE[key]\n"),
     ("soccer_math.py", "SERVER_EPS = 1.0e-10\n", "SERVER_EPS = 1.0e-10\n_RATE = {}\n")],
    "an earlier caller used a decay that agrees with the present one to two decimals, same steps",
    "a memo with a rounded key makes results depend on what other callers computed before",
    '''
from pyrusgeom import soccer_math as m
x = m.inertia_n_step_distance(1.0, 9, 0.944)
y = m.inertia_n_step_distance(1.0, 9, 0.936)
want = (1 - 0.936 ** 9) / (1 - 0.936)
expect(abs(y - want) < 1e-9, "%r instead of %r" % (y, want))
''')
bug("c03-shared-invalid", "C03",
    [("vector_2d.py", "        vec_invalid = Vector2D()\n        vec_invalid.invalidate()\n"
      "        return vec_invalid\n",
      "        return _INVALID\n"),
     ("vector_2d.py", "        return vec_1.outer_product(vec_2)\n",
      "        return vec_1.outer_product(vec_2)\n\n\n_INVALID = Vector2D()\n_INVALID.invalidate()\n")],
    "one caller gets an invalid point (for instance parallel lines) and validates or moves it; "
    "another caller then asks for an invalid point",
    "one shared object stands for every invalid point",
    '''
from pyrusgeom.line_2d import Line2D
p = Line2D(1, 1, 0).intersection(Line2D(1, 1, 5))
p.assign(3, 4)
p.validate()
q = Line2D(2, 1, 0).intersection(Line2D(2, 1, 5))
expect(not q.is_valid(), "parallel lines now meet at %s" % q)
''')
# ---------------------------------------------------------------- C04
bug("c04-size-kept", "C04",
    [("rect_2d.py", "            self._size = Size2D(args[0].length(),args[0].width())\n",
      "            self._size = args[0]\n")],
    "a Size2D given to set_size is changed later",
    "rectangle and caller share the size object",
    '''
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.size_2d import Size2D
z = Size2D(3, 4)
r = Rect2D(0, 0, 1, 1)
r.set_size(z)
z.set_length(50)
expect(r.right() == 3, "rectangle grew to %s" % r.right())
''')
bug("c04-short-list", "C04",
    [("polygon_2d.py", "        vertices_cp = self._vertices.copy()\n        return vertices_cp\n",
      "        if len(self._vertices) < 2:\n            return self._vertices\n"
      "        return self._vertices.copy()\n")],
    "vertices() of a polygon with one vertex (a cleared or default polygon), list edited by the "
    "caller",
    "the list handed out is the polygon's own when it is short",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
p = Polygon2D()
p.vertices().append(Vector2D(1, 1))
expect(len(p.vertices()) == 1, "polygon has %d vertices" % len(p.vertices()))
''')
bug("c04-corner-from-segment", "C04",
    [("triangle_2d.py", "        elif len(args) == 2:  # and isinstance(args[0], Segment2D):\n"
      "            self._a = Vector2D(args[0].origin_())\n"
      "            self._b = Vector2D(args[0].terminal_())\n"
      "            self._c = Vector2D(args[1])\n"
      "        else:\n            raise Exception(\"The input must be (three Vector2D) or\\\n"
      "                            (one vector 2D and one segment)\")\n        return self\n",
      "        elif len(args) == 2:  # and isinstance(args[0], Segment2D):\n"
      "            self._a = args[0].origin()\n"
      "            self._b = args[0].terminal_()\n"
      "            self._c = Vector2D(args[1])\n"
      "        else:\n            raise Exception(\"The input must be (three Vector2D) or\\\n"
      "                            (one vector 2D and one segment)\")\n        return self\n")],
    "a triangle is assigned from a segment and a point and the segment's second end is moved later",
    "triangle and segment share a corner object",
    '''
from pyrusgeom.triangle_2d import Triangle2D
from pyrusgeom.segment_2d import Segment2D
from pyrusgeom.vector_2d import Vector2D
s = Segment2D(0, 0, 4, 0)
t = Triangle2D(Vector2D(0, 0), Vector2D(1, 0), Vector2D(0, 1))
t.assign(s, Vector2D(0, 3))
s.terminal_().assign(50, 50)
expect(t.b().x() == 4, "corner moved to %s" % t.b())
s.origin_().assign(50, 50)
expect(t.a().x() == 0, "corner moved to %s" % t.a())
''')
# ---------------------------------------------------------------- C05
bug("c05-line-cache", "C05",
    [("segment_2d.py", "        return Line2D(self._origin, self._terminal)\n",
      "        if getattr(self, '_line_ends', None) != (self._origin, self._terminal):\n"
      "            self._line = Line2D(self._origin, self._terminal)\n"
      "            self._line_ends = (self._origin, self._terminal)\n"
      "        return self._line\n")],
    "line() is asked, an end point is moved through its reference, line() (or an intersection) is "
    "asked again",
    "the cache compares the end point objects with themselves, so in-place moves go unnoticed",
    '''
from pyrusgeom.segment_2d import Segment2D
s = Segment2D(0, 0, 1, 0)
s.line()
s.terminal_().assign(0, 1)
l = s.line()
expect(abs(l.b()) < 1e-9, "stale line %s" % l)
''')
bug("c05-area-cache", "C05",
    [("polygon_2d.py", "        size = len(self._vertices)\n        ds_area_value = 0.0\n\n"
      "        if size < 3:\n            return ds_area_value\n",
      "        size = len(self._vertices)\n        ds_area_value = 0.0\n\n"
      "        if size < 3:\n            return ds_area_value\n"
      "        stamp = (id(self._vertices), size)\n"
      "        if getattr(self, '_area_stamp', None) == stamp:\n"
      "            return self._area_value\n"),
     ("polygon_2d.py", "        return ds_area_value\n\n    def is_counter_clockwise",
      "        self._area_stamp, self._area_value = stamp, ds_area_value\n"
      "        return ds_area_value\n\n    def is_counter_clockwise")],
    "area, then an edit that keeps the number of vertices (reverse or replace through the list "
    "reference, or moving a vertex), then area or orientation again",
    "the cached area is returned for another vertex list",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 3)])
expect(p.is_counter_clockwise(), "orientation")
p.vertices_().reverse()
expect(p.is_clockwise(), "stale orientation")
''')
bug("c05-cos-cache", "C05",
    [("angle_deg.py", "        return math.cos(self._degree * DEG2RAD)\n",
      "        if self._cos is None:\n            self._cos = math.cos(self._degree * DEG2RAD)\n"
      "        return self._cos\n"),
     ("angle_deg.py", "        if self._degree < -360.0 or 360.0 < self._degree:\n"
      "            self._degree = math.fmod(self._degree, 360.0)\n\n        if self._degree < -180.0:",
      "        self._cos = None\n        if self._degree < -360.0 or 360.0 < self._degree:\n"
      "            self._degree = math.fmod(self._degree, 360.0)\n\n        if self._degree < -180.0:")],
    "cos() is asked, the angle is set from another angle or reversed, cos() is asked again",
    "the cosine is remembered and dropped only where the degree is normalised",
    '''
import math
from pyrusgeom.angle_deg import AngleDeg
a = AngleDeg(30)
a.cos()
a.set_angle(AngleDeg(60))
expect(abs(a.cos() - 0.5) < 1e-9, "cos of 60 degrees is %r" % a.cos())
b = AngleDeg(60)
b.cos()
b.reverse()
expect(abs(b.cos() + 0.5) < 1e-9, "cos of -120 degrees is %r" % b.cos())
''')
# ---------------------------------------------------------------- C06
bug("c06-drained-argument", "C06",
    [("matrix_2d.py", "        t_x = self._m11 * vector.x() + self._m12 * vector.y() + self._dx\n"
      "        t_y = self._m21 * vector.x() + self._m22 * vector.y() + self._dy\n"
      "        vector.assign(t_x, t_y)\n        return vector\n",
      "        self._dx, self._dy = self._dx + 0.0, self._dy + 0.0\n"
      "        hold_x, hold_y = self._dx, self._dy\n"
      "        self._dx = self._dy = 0.0  # linear part first, then the shift\n"
      "        moved = self.transform(vector)\n"
      "        self._dx, self._dy = hold_x, hold_y\n"
      "        vector.assign(moved.x() + hold_x, moved.y() + hold_y)\n        return vector\n")],
    "the in-place mapping of a vector is interrupted in the middle",
    "the transform, which the call only reads, loses its translation",
    '''
from pyrusgeom.matrix_2d import Matrix2D
from pyrusgeom.vector_2d import Vector2D
k, more = 1, True
while more:
    m, v = Matrix2D(1, 0, 0, 1, 5, 6), Vector2D(1, 2)
    more, out = at_line(k, cut, lambda: m.transform_vec(v))
    expect((m.dxtf(), m.dytf()) == (5, 6), "cut at line %d: %s" % (k, m))
    k += 1
''')
bug("c06-busy-mark", "C06",
    [("rect_2d.py", "        new_left = min(self.right(), left_x)\n"
      "        new_right = max(self.right(), left_x)\n        self._top_left.set_x(new_left)\n"
      "        self._size.set_length(new_right - new_left)\n",
      "        Rect2D._moving += 1  # nested edits keep the far side\n"
      "        far = self.right()\n"
      "        new_left = min(far, left_x)\n"
      "        new_right = max(far, left_x)\n        self._top_left.set_x(new_left)\n"
      "        if Rect2D._moving == 1:\n"
      "            self._size.set_length(new_right - new_left)\n"
      "        Rect2D._moving -= 1\n"),
     ("rect_2d.py", "    def __init__(self, *args) -> None:\n        \"\"\"This is the class init "
      "function for Rect2D.\n",
      "    _moving = 0\n\n    def __init__(self, *args) -> None:\n        \"\"\"This is the class "
      "init function for Rect2D.\n")],
    "set_left of some rectangle is cut short; any rectangle's set_left afterwards",
    "a class-wide mark stays set and every later edit of any rectangle misbehaves",
    '''
from pyrusgeom.rect_2d import Rect2D
k, more = 1, True
while more:
    r = Rect2D(0, 0, 10, 10)
    more, out = at_line(k, cut, lambda: r.set_left(-5))
    q = Rect2D(0, 0, 10, 10)
    q.set_left(-5)
    expect(q.right() == 10, "after a cut at line %d another rectangle ends at %s" % (k, q.right()))
    k += 1
''')
# ---------------------------------------------------------------- C07
bug("c07-skip-same-count", "C07",
    [("convex_hull.py", "        \"\"\"wrapping method\n        \"\"\"\n        self.clear_results()\n\n"
      "        point_size = len(self._input_points)\n",
      "        \"\"\"wrapping method\n        \"\"\"\n        point_size = len(self._input_points)\n"
      "        if self._edges and point_size == getattr(self, '_wrapped', -1):\n"
      "            return  # nothing was added since\n"
      "        self.clear_results()\n        self._wrapped = point_size\n")],
    "compute, clear, the same number of other points added by way of the list reference or a "
    "point moved, compute again; or an interrupted computation that already has an edge",
    "an old or half finished hull is taken for the hull of the present points",
    '''
from pyrusgeom.convex_hull import ConvexHull
from pyrusgeom.vector_2d import Vector2D
pts = [Vector2D(x, y) for x, y in ((0, 0), (4, 1), (5, 5), (1, 4))]
k, more = 1, True
while more:
    h = ConvexHull(list(pts))
    more, out = at_line(k, cut, h.compute_wrapping_method)
    h.compute_wrapping_method()
    expect(len(h.vertices()) == 4 and len(h.edges()) == 4, "after a cut at line %d: %s" % (k, h.edges()))
    k += 1
''')
bug("c07-clear-results-only-vertices", "C07",
    [("convex_hull.py", "        self._vertices.clear()\n        self._edges.clear()\n",
      "        if self._vertices:\n            self._vertices.clear()\n"
      "            self._edges.clear()\n")],
    "a computation whose vertex list was emptied through its reference, then another computation",
    "edges of the earlier hull stay when the vertex list is already empty",
    '''
from pyrusgeom.convex_hull import ConvexHull
from pyrusgeom.vector_2d import Vector2D
h = ConvexHull([Vector2D(x, y) for x, y in ((0, 0), (4, 1), (5, 5), (1, 4))])
h.compute()
h.vertices_().clear()
h.clear_results()
expect(len(h.edges()) == 0, "clear_results leaves %d edges" % len(h.edges()))
''')
# ---------------------------------------------------------------- C08
bug("c08-cross-over", "C08",
    [("rect_2d.py", "        new_top = min(self.top(), bottom_y)\n"
      "        new_bottom = max(self.top(), bottom_y)\n\n        self._top_left.set_y(new_top)\n"
      "        self._size.set_width(new_bottom - new_top)\n",
      "        self._size.set_width(bottom_y - self.top())\n"
      "        if bottom_y < self.top():\n            self._top_left.set_y(bottom_y)\n"
      "            self._size.set_width(self.top() - bottom_y)\n")],
    "the bottom side is set above the top side",
    "after crossing over, the rectangle loses its extent",
    '''
from pyrusgeom.rect_2d import Rect2D
r = Rect2D(0, 0, 10, 10)
r.set_bottom(-4)
expect((r.top(), r.bottom()) == (-4, 0), "sides at %s and %s" % (r.top(), r.bottom()))
r.set_bottom(3)
expect((r.top(), r.bottom()) == (-4, 3), "sides at %s and %s" % (r.top(), r.bottom()))
''')
bug("c08-move-right-stale", "C08",
    [("rect_2d.py", "        self._top_left.set_x(right_x - self._size.length())\n",
      "        self._top_left.add_x(right_x - max(self.right(), self.left() + EPSILON))\n")],
    "move_right on a rectangle whose length is zero (for instance after its sides were set equal)",
    "the right side misses the requested place",
    '''
from pyrusgeom.rect_2d import Rect2D
r = Rect2D(0, 0, 10, 10)
r.move_right(7)
expect(r.right() == 7, "right side %s" % r.right())
r.set_right(r.left())
r.move_right(20)
expect(abs(r.right() - 20) < 1e-9, "right side %.9f" % r.right())
''')
bug("c08-corner-own-reference", "C08",
    [("rect_2d.py", "            self._top_left = args[0].top_left()\n            self._size = args[0].size()\n        else:\n",
      "            self._top_left = args[0].top_left_()\n            self._size = args[0].size()\n        else:\n")],
    "a rectangle is assigned from another one and either of the two is moved afterwards",
    "both rectangles move together",
    '''
from pyrusgeom.rect_2d import Rect2D
a, b = Rect2D(0, 0, 5, 5), Rect2D(20, 20, 5, 5)
a.assign(b)
b.move_left(70)
expect(a.left() == 20, "moved along to %s" % a.left())
''')
# ---------------------------------------------------------------- C09
bug("c09-fraction-of-negative", "C09",
    [("angle_deg.py", "        self._degree *= other\n        self.normal()\n",
      "        self._degree = (self._degree % 360.0) * other\n        self.normal()\n")],
    "a negative angle is multiplied in place by a factor that is not a whole number",
    "the product is taken of the angle's counterpart in [0, 360), so it is not congruent to the history",
    '''
from pyrusgeom.angle_deg import AngleDeg
a = AngleDeg(-90)
a *= 2
expect(abs(a.degree()) == 180, "degree %r" % a.degree())
a = AngleDeg(-90)
a *= 0.5
expect(abs(a.degree() + 45) < 1e-9, "degree %r" % a.degree())
''')
bug("c09-zero-step-alias", "C09",
    [("angle_deg.py", "        if isinstance(other,AngleDeg):\n            new_angle_deg = AngleDeg(self._degree + other.degree())\n",
      "        if other == 0:\n            return self\n"
      "        if isinstance(other,AngleDeg):\n            new_angle_deg = AngleDeg(self._degree + other.degree())\n")],
    "an angle plus zero, the result edited in place later",
    "the sum is the left operand itself, so editing the sum edits the operand",
    '''
from pyrusgeom.angle_deg import AngleDeg
a = AngleDeg(30)
b = a + 0
b += 15
expect(a.degree() == 30, "operand is now %s" % a.degree())
''')
# ---------------------------------------------------------------- C10
bug("c10-self-product", "C10",
    [("matrix_2d.py", "        tm21 = self._m21 * other.m11() + self._m22 * other.m21()\n"
      "        tm22 = self._m21 * other.m12() + self._m22 * other.m22()\n"
      "        tdx = self._m11 * other.dxtf() + self._m12 * other.dytf() + self._dx\n"
      "        tdy = self._m21 * other.dxtf() + self._m22 * other.dytf() + self._dy\n\n"
      "        self._m11 = tm11\n        self._m12 = tm12\n",
      "        self._dx += self._m11 * other.dxtf() + self._m12 * other.dytf()\n"
      "        self._m11 = tm11\n        self._m12 = tm12\n"
      "        self._dy += self._m21 * other.dxtf() + self._m22 * other.dytf()\n"
      "        tm21 = self._m21 * other.m11() + self._m22 * other.m21()\n"
      "        tm22 = self._m21 * other.m12() + self._m22 * other.m22()\n\n"),
     ("matrix_2d.py", "        self._m22 = tm22\n        self._dx = tdx\n        self._dy = tdy\n\n"
      "        return self\n", "        self._m22 = tm22\n\n        return self\n")],
    "a transform multiplied in place by itself",
    "coefficients already overwritten are read again when both operands are one object",
    '''
from pyrusgeom.matrix_2d import Matrix2D
a, b = Matrix2D(1, 2, 3, 4, 5, 6), Matrix2D(1, 2, 3, 4, 5, 6)
want = a * b
expect(repr(want) == "[7, 10, 15, 22, 22, 45]", "product %s" % want)
a *= a
expect(repr(a) == repr(want), "square %s, product %s" % (a, want))
''')
bug("c10-invert-threshold", "C10",
    [("matrix_2d.py", "        determinant = self.det()\n        if determinant == 0.0:  # not invertible\n",
      "        determinant = self.det()\n        if not determinant or determinant < 0.0 and "
      "self._m12 == self._m21 == 0.0:\n")],
    "inverting a pure mirror scaling",
    "mirrors without shear are treated as singular",
    '''
from pyrusgeom.matrix_2d import Matrix2D
m = Matrix2D.make_scaling(-2, 1)
m.translate(3, 0)
p = m.inverted().transform(m.transform(5, 7))
expect(abs(p.x() - 5) < 1e-9 and abs(p.y() - 7) < 1e-9, "round trip %s" % p)
''')
# ---------------------------------------------------------------- C11
bug("c11-alias-dir", "C11",
    [("vector_2d.py", "        self._x -= other.x()\n        self._y -= other.y()\n        return self\n",
      "        self._x -= other.x()\n        self._y -= other.y()\n"
      "        self._is_valid = self._is_valid or other.is_valid()\n        return self\n")],
    "an invalid point has a valid one subtracted in place",
    "arithmetic changes the validity mark",
    '''
from pyrusgeom.vector_2d import Vector2D
v = Vector2D.invalid()
v -= Vector2D(1, 2)
expect(not v.is_valid(), "validated by subtraction")
''')
bug("c11-set-length-negative-zero", "C11",
    [("vector_2d.py", "        mag = self.r()\n        if mag > EPSILON:\n            self.scale(length / mag)\n",
      "        mag = max(math.fabs(self._x), math.fabs(self._y))\n        if mag > EPSILON:\n"
      "            self.scale(1.0 / mag)\n            self.scale(length / self.r2())\n")],
    "set_length on a vector that is not along an axis",
    "the length is wrong off the axes", '''
from pyrusgeom.vector_2d import Vector2D
v = Vector2D(3, 4)
v.set_length(10)
expect(abs(v.r() - 10) < 1e-9, "length %r" % v.r())
''')
# ---------------------------------------------------------------- C12
bug("c12-shared-step", "C12",
    [("soccer_math.py", "    if step is None:\n        step = 1.0\n    while True:\n",
      "    if step is None:\n        step = 1.0\n    _STREAM[:] = [stop, step]\n\n    while True:\n"
      "        stop = _STREAM[0] if _STREAM[1] == step else stop\n"),
     ("soccer_math.py", "SERVER_EPS = 1.0e-10\n", "SERVER_EPS = 1.0e-10\n_STREAM = [0.0, 0.0]\n")],
    "two streams with the same step are alive at once",
    "the later stream's limit takes over the earlier one",
    '''
from pyrusgeom.soccer_math import f_range
a = f_range(0, 5, 1)
next(a)
b = f_range(0, 2, 1)
next(b)
expect(list(a) == [1, 2, 3, 4], "stream was cut")
''')
bug("c12-finished-early", "C12",
    [("soccer_math.py", "        yield start\n        start = start + step\n",
      "        try:\n            yield start\n        except GeneratorExit:\n"
      "            _DROPPED.append(stop)\n            raise\n"
      "        if _DROPPED and _DROPPED[-1] == stop:\n            _DROPPED.pop()\n            return\n"
      "        start = start + step\n"),
     ("soccer_math.py", "SERVER_EPS = 1.0e-10\n", "SERVER_EPS = 1.0e-10\n_DROPPED = []\n")],
    "a stream is abandoned half way while another one with the same limit is still being read",
    "the surviving stream ends early",
    '''
from pyrusgeom.soccer_math import f_range
a, b = f_range(0, 5, 1), f_range(1, 5, 0.5)
next(a), next(b)
b.close()
expect(list(a) == [1, 2, 3, 4], "stream was cut")
''')
# ---------------------------------------------------------------- C13
bug("c13-loaded-or-not", "C13",
    [("triangle_2d.py", "            from pyrusgeom.segment_2d import Segment2D\n            t_sol[n_sol] = Segment2D(self._a",
      "            Segment2D = sys.modules['pyrusgeom.segment_2d'].Segment2D  # circular import\n"
      "            t_sol[n_sol] = Segment2D(self._a"),
     ("triangle_2d.py", "import math\n", "import math\nimport sys\n")],
    "the triangle module is imported without the segment module, then a triangle is intersected "
    "with a line",
    "what a call does depends on which other modules happen to be loaded",
    '''
import subprocess
for first in ("triangle_2d", "segment_2d", "circle_2d"):
    code = ("import sys; sys.path.insert(0, %r); import pyrusgeom.%s; "
            "from pyrusgeom.triangle_2d import Triangle2D; from pyrusgeom.vector_2d import Vector2D; "
            "from pyrusgeom.line_2d import Line2D; "
            "t = Triangle2D(Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 4)); "
            "print(t.intersection(Line2D(0, 1, -1))[0])" % (HOME, first))
    out = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True)
    expect(out.stdout.strip() == "2", "%s first: %s %s" % (first, out.stdout, out.stderr[-300:]))
''')
bug("c13-registered-twice", "C13",
    [("region_2d.py", "class Region2D:\n", "import pyrusgeom.math_values as _values\n\n"
      "if hasattr(_values, '_region_ready'):\n    raise ImportError('region module loaded twice')\n"
      "_values._region_ready = True\n\n\nclass Region2D:\n")],
    "an import of the region module is interrupted after its first statements and tried again",
    "a mark left in another module makes the second import fail for ever",
    '''
k, more = 1, True
def load():
    import importlib
    return importlib.import_module("pyrusgeom.region_2d")
while more and k < 600:
    for name in [n for n in sys.modules if n.startswith("pyrusgeom")]:
        del sys.modules[name]
    more, out = at_line(k, cut, load)
    try:
        load()
    except Exception as exc:
        expect(False, "import again after a cut at line %d: %r" % (k, exc))
    k += 1
''')
# ---------------------------------------------------------------- C14
bug("c14-random-pivot", "C14",
    [("convex_hull.py", "from enum import Enum, unique, auto\nimport functools\nimport math\n",
      "from enum import Enum, unique, auto\nimport functools\nimport math\nimport random\n"),
     ("convex_hull.py", "        self._vertices = self._input_points.copy()\n\n        top = 1\n",
      "        self._vertices = self._input_points.copy()\n        random.random()\n\n        top = 1\n")],
    "a caller that draws random numbers before and after a hull computation",
    "the process-wide random sequence is advanced",
    '''
import random
from pyrusgeom.convex_hull import ConvexHull
from pyrusgeom.vector_2d import Vector2D
h = ConvexHull([Vector2D(x, y) for x, y in ((0, 0), (4, 1), (5, 5), (1, 4))])
random.seed(5)
want = random.random()
random.seed(5)
h.compute_graham_scan()
expect(random.random() == want, "random sequence disturbed")
''')
bug("c14-assert-guard", "C14",
    [("line_2d.py", "        if math.fabs(tmp) < EPSILON:\n            return Vector2D.invalid()\n",
      "        try:\n            assert math.fabs(tmp) >= EPSILON\n        except AssertionError:\n"
      "            return Vector2D.invalid()\n")],
    "the interpreter runs with -O and two lines are parallel",
    "the parallel case is recognised by an assertion, which optimisation removes",
    '''
import subprocess
code = ("import sys; sys.path.insert(0, %r); from pyrusgeom.line_2d import Line2D; "
        "print(Line2D(1, 1, 0).intersection(Line2D(1, 1, 5)).is_valid())" % HOME)
for flags in ([], ["-O"]):
    out = subprocess.run([sys.executable, "-B"] + flags + ["-c", code], capture_output=True, text=True)
    expect(out.stdout.strip() == "False", "%s: %s %s" % (flags, out.stdout, out.stderr[-300:]))
''')
bug("c14-recursion-room", "C14",
    [("convex_hull.py", "from enum import Enum, unique, auto\nimport functools\nimport math\n",
      "from enum import Enum, unique, auto\nimport functools\nimport math\nimport sys\n"),
     ("convex_hull.py", "            self.compute_wrapping_method()\n",
      "            if len(self._input_points) > 10:\n"
      "                sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))\n"
      "            self.compute_wrapping_method()\n")],
    "a hull of more than ten points is computed",
    "the process-wide recursion limit is raised and stays raised",
    '''
from pyrusgeom.convex_hull import ConvexHull
from pyrusgeom.vector_2d import Vector2D
import sys
for n in (5, 10, 11, 14, 30):
    h = ConvexHull([Vector2D(i, i * i) for i in range(n)])
    before = sys.getrecursionlimit()
    h.compute()
    expect(sys.getrecursionlimit() == before, "limit is now %d" % sys.getrecursionlimit())
''')
# ---------------------------------------------------------------- C15
bug("c15-clear-in-place", "C15",
    [("polygon_2d.py", "        if len(points) > 0:\n            self._vertices = points.copy()\n        return self\n",
      "        if len(points) > 0:\n            self._vertices.clear()\n"
      "            self._vertices.extend(points)\n        return self\n")],
    "a polygon is assigned its own vertex list (or one obtained by reference)",
    "the list is emptied before it is copied",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
p = Polygon2D([Vector2D(0, 0), Vector2D(4, 0), Vector2D(0, 3)])
p.assign(p.vertices_())
expect(len(p.vertices()) == 3, "%d vertices" % len(p.vertices()))
''')
bug("c15-placeholder", "C15",
    [("polygon_2d.py", "        self._vertices.append(point)\n",
      "        if len(self._vertices) == 1 and self._vertices[0] == Vector2D():\n"
      "            self._vertices.clear()  # only the placeholder of an empty polygon\n"
      "        self._vertices.append(point)\n")],
    "add_vertex on a polygon whose only vertex is (0,0)",
    "a real vertex at the origin is dropped",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
p = Polygon2D([Vector2D(0, 0)])
p.add_vertex(Vector2D(1, 1))
expect(len(p.vertices()) == 2, "%s" % p.vertices())
''')
bug("c15-ring-normalised", "C15",
    [("polygon_2d.py", "        return math.fabs(self.double_signed_area() * 0.5)\n",
      "        doubled = self.double_signed_area()\n        if doubled < 0.0 and len(self._vertices) > 5:\n"
      "            self._vertices.reverse()  # the sum is positive this way round\n"
      "            doubled = self.double_signed_area()\n"
      "        return math.fabs(doubled * 0.5)\n")],
    "the area of a clockwise polygon of six or more vertices is asked",
    "measuring turns the polygon round",
    '''
from pyrusgeom.polygon_2d import Polygon2D
from pyrusgeom.vector_2d import Vector2D
pts = [Vector2D(x, y) for x, y in ((0, 0), (1, 3), (3, 4), (5, 3), (6, 0), (3, -2))]
p = Polygon2D(pts)
before = [v.x() for v in p.vertices()]
p.area()
expect([v.x() for v in p.vertices()] == before, "vertices turned round")
''')
# ---------------------------------------------------------------- C25
bug("c08-corners-in-place", "C08",
    [("rect_2d.py", "            self._top_left = Vector2D(args[0])\n            bottom_right = Vector2D(args[1])\n"
      "            top_left = Vector2D(args[0])\n"
      "            self._size = Size2D(bottom_right.x() - top_left.x(),\n                                bottom_right.y() - top_left.y())\n"
      "            if bottom_right.x() - top_left.x() < 0.0:\n                self._top_left.set_x(bottom_right.x())\n\n"
      "            if bottom_right.y() - top_left.y() < 0.0:\n                self._top_left.set_y(bottom_right.y())\n        elif len(args) == 2:\n"
      "            self._top_left = Vector2D(args[0])\n            self._size = Size2D(args[1].length(), args[1].width())\n"
      "        elif len(args) == 1 and",
      "            top_left, bottom_right = Vector2D(args[0]), args[1]\n            self._top_left.set_vector(args[0])\n"
      "            self._size = Size2D(bottom_right.x() - top_left.x(),\n                                bottom_right.y() - top_left.y())\n"
      "            if bottom_right.x() - top_left.x() < 0.0:\n                self._top_left.set_x(bottom_right.x())\n\n"
      "            if bottom_right.y() - top_left.y() < 0.0:\n                self._top_left.set_y(bottom_right.y())\n        elif len(args) == 2:\n"
      "            self._top_left = Vector2D(args[0])\n            self._size = Size2D(args[1].length(), args[1].width())\n"
      "        elif len(args) == 1 and")],
    "a rectangle is assigned two corners, the second being its own top left one, by reference",
    "the corner is overwritten before it is read",
    """
from pyrusgeom.rect_2d import Rect2D
from pyrusgeom.vector_2d import Vector2D
q = Rect2D(5, 6, 3, 4)
q.assign(Vector2D(1, 1), q.top_left_())
expect((q.left(), q.top(), q.right(), q.bottom()) == (1, 1, 5, 6), "rectangle %s" % q)
""")
bug("c25-radius-only", "C25",
    [("circle_2d.py", "        self._center = Vector2D(center)\n        self._radius = radius\n"
      "        if radius < 0.0:\n            self._radius = 0.0\n        self._is_valid = True\n",
      "        if not self._center.equals(center):\n            self._center = Vector2D(center)\n"
      "            self._radius = 0.0\n        if radius > self._radius or radius >= 0.0:\n"
      "            self._radius = radius\n        self._is_valid = True\n")],
    "a circle is assigned a negative radius while its centre stays the same",
    "the old radius survives the assignment",
    '''
from pyrusgeom.circle_2d import Circle2D
from pyrusgeom.vector_2d import Vector2D
c = Circle2D(Vector2D(1, 2), 5)
c.assign(c.center(), -1)
expect(c.radius() == 0, "radius %s" % c.radius())
d = Circle2D(Vector2D(1, 2), 5)
d.assign(Vector2D(7, 7), -1)
expect(d.radius() == 0 and d.center().x() == 7, "radius %s" % d.radius())
''')
bug("c25-angle-close-enough", "C25",
    [("sector_2d.py", "        self._start = AngleDeg(start)\n        self._end = AngleDeg(end)\n\n    def center(self)",
      "        self._start = AngleDeg(start)\n"
      "        if abs((self._end - AngleDeg(end)).degree()) > 1e-6:\n"
      "            self._end = AngleDeg(end)\n\n    def center(self)")],
    "a sector is assigned an end angle less than a microdegree from its old one",
    "the old end angle survives the assignment",
    """
from pyrusgeom.sector_2d import Sector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom.vector_2d import Vector2D
z = Sector2D(Vector2D(0, 0), 1, 2, AngleDeg(10), AngleDeg(30))
z.assign(Vector2D(1, 1), 2, 2, AngleDeg(10), AngleDeg(30.0000001))
expect(z.angle_right_end().degree() == 30.0000001 or z.angle_left_start().degree() == 30.0000001, "end angle %r" % z.angle_right_end().degree())
""")
