"""The public API as data: how to build values, look at them, and every call.

Nothing here reaches into private attributes: values are built by documented
constructors and observed by documented accessors.
"""
import operator

CODE = {"V": "Vector2D", "A": "AngleDeg", "L": "Line2D", "R": "Ray2D", "S": "Segment2D",
        "C": "Circle2D", "Q": "Rect2D", "Z": "Size2D", "T": "Triangle2D", "K": "Sector2D",
        "P": "Polygon2D", "M": "Matrix2D", "H": "ConvexHull"}
LETTER = {v: k for k, v in CODE.items()}


# ---- building ---------------------------------------------------------------
def build(w, spec):
    """spec = [letter, ...numbers]; returns a live object of world w."""
    code, a = spec[0], spec[1:]
    c = w.cls
    if code == "V":
        v = c["Vector2D"](a[0], a[1])
        if len(a) > 2 and a[2]:
            v.invalidate()
        return v
    if code == "A":
        return c["AngleDeg"](a[0])
    if code == "L":
        return c["Line2D"](a[0], a[1], a[2])
    if code == "R":
        return c["Ray2D"](c["Vector2D"](a[0], a[1]), a[2])
    if code == "S":
        return c["Segment2D"](c["Vector2D"](a[0], a[1]), c["Vector2D"](a[2], a[3]))
    if code == "C":
        return c["Circle2D"](c["Vector2D"](a[0], a[1]), a[2])
    if code == "Z":
        return c["Size2D"](a[0], a[1])
    if code == "Q":
        return c["Rect2D"](c["Vector2D"](a[0], a[1]), c["Size2D"](a[2], a[3]))
    if code == "T":
        v = c["Vector2D"]
        return c["Triangle2D"](v(a[0], a[1]), v(a[2], a[3]), v(a[4], a[5]))
    if code == "K":
        return c["Sector2D"](c["Vector2D"](a[0], a[1]), a[2], a[3], a[4], a[5])
    if code == "P":
        return c["Polygon2D"]([c["Vector2D"](x, y) for x, y in a[0]])
    if code == "M":
        return c["Matrix2D"](*a)
    if code == "H":
        return c["ConvexHull"]([c["Vector2D"](x, y) for x, y in a[0]])
    if code == "VL":
        return [c["Vector2D"](x, y) for x, y in a[0]]
    raise ValueError(spec)


def letter(w, obj):
    name = w.name_of.get(type(obj))
    return LETTER.get(name)


# ---- observing -----------------------------------------------------------------
def _num(x):
    if isinstance(x, bool) or x is None:
        return repr(x)
    if isinstance(x, (int, float)):
        return x
    return "<%s>" % type(x).__name__


def _vec(v):
    return [_num(v.x()), _num(v.y()), bool(v.is_valid())]


def view(w, obj):
    """the visible value of a library object, as nested lists of numbers"""
    code = letter(w, obj)
    if code == "V":
        return ["V"] + _vec(obj)
    if code == "A":
        return ["A", _num(obj.degree())]
    if code == "L":
        return ["L", _num(obj.a()), _num(obj.b()), _num(obj.c())]
    if code == "R":
        return ["R", _vec(obj.origin()), _num(obj.dir().degree())]
    if code == "S":
        return ["S", _vec(obj.origin()), _vec(obj.terminal())]
    if code == "C":
        return ["C", _vec(obj.center()), _num(obj.radius())]
    if code == "Z":
        return ["Z", _num(obj.length()), _num(obj.width())]
    if code == "Q":
        return ["Q", _vec(obj.top_left()), _num(obj.size().length()), _num(obj.size().width())]
    if code == "T":
        return ["T", _vec(obj.a()), _vec(obj.b()), _vec(obj.c())]
    if code == "K":
        return ["K", _vec(obj.center()), _num(obj.radius_min()), _num(obj.radius_max()),
                _num(obj.angle_left_start().degree()), _num(obj.angle_right_end().degree())]
    if code == "P":
        return ["P", [_vec(v) for v in obj.vertices()]]
    if code == "M":
        return ["M", _num(obj.m11()), _num(obj.m12()), _num(obj.m21()), _num(obj.m22()),
                _num(obj.dxtf()), _num(obj.dytf())]
    if code == "H":
        return ["H", [_vec(v) for v in obj.input_points()], [_vec(v) for v in obj.vertices()],
                [[_vec(s.origin()), _vec(s.terminal())] for s in obj.edges()]]
    return None


def canon(w, value, depth=0):
    """JSON-able image of any result"""
    if value is None or isinstance(value, (bool, int, float)):
        return _num(value)
    if isinstance(value, str):
        return "s:" + value
    if isinstance(value, (list, tuple)):
        if depth > 4:
            return "<deep>"
        return [type(value).__name__] + [canon(w, v, depth + 1) for v in value]
    seen = view(w, value)
    if seen is not None:
        return seen
    return "<%s>" % type(value).__name__


def same(a, b):
    """exact equality of canon() images: every number equal to the last bit (1 and 1.0 count
    as equal, also inside texts)"""
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b)
    if a == b:
        return True
    if isinstance(a, str) and isinstance(b, str) and a.startswith("s:") and b.startswith("s:"):
        return _close_text(a, b, 0.0, 0.0)
    return False


def close(a, b, rel=1e-9, absol=1e-9):
    """numeric equality up to rounding; int and float are interchangeable"""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rel, absol) for x, y in zip(a, b))
    num_a = isinstance(a, (int, float)) and not isinstance(a, bool)
    num_b = isinstance(b, (int, float)) and not isinstance(b, bool)
    if num_a and num_b:
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if a in (float("inf"), -float("inf")) or b in (float("inf"), -float("inf")):
            return False
        return abs(a - b) <= absol + rel * max(abs(a), abs(b))
    if isinstance(a, str) and isinstance(b, str) and a.startswith("s:") and b.startswith("s:"):
        return _close_text(a, b, rel, absol)
    return a == b


import re

_NUM = re.compile(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")


def _close_text(a, b, rel, absol):
    if _NUM.sub("#", a) != _NUM.sub("#", b):
        return False
    return all(close(float(x), float(y), rel, absol)
               for x, y in zip(_NUM.findall(a), _NUM.findall(b)))


def respec(view_):
    """spec that rebuilds an object with this visible value (None: not possible)"""
    code = view_[0]
    if code == "V":
        return ["V", view_[1], view_[2], not view_[3]]
    if code in ("A", "L", "Z", "M"):
        return list(view_)
    if code == "R":
        return ["R", view_[1][0], view_[1][1], view_[2]]
    if code == "S":
        return ["S"] + view_[1][:2] + view_[2][:2]
    if code == "C":
        return ["C"] + view_[1][:2] + [view_[2]]
    if code == "Q":
        return ["Q"] + view_[1][:2] + view_[2:4]
    if code == "T":
        return ["T"] + view_[1][:2] + view_[2][:2] + view_[3][:2]
    if code == "K":
        return ["K"] + view_[1][:2] + view_[2:6]
    if code == "P":
        return ["P", [v[:2] for v in view_[1]]]
    return None


# ---- catalogue -------------------------------------------------------------------
class Op:
    """one way of calling the library.

    kind: 'm' method of args[0]; 's' static/class function "Class.fn"; 'c' constructor "Class";
          'f' module function "module:fn"; 'o' operator; 'r' edit through a reference accessor.
    args: type codes; writes: indexes of args that the call edits.
    result: 'fresh' (new value), 'self' (returns the receiver), 'ref' (documented reference),
            'none'
    """
    __slots__ = ("id", "kind", "name", "args", "writes", "result", "home", "via", "kw")

    def __init__(self, kind, name, args, writes=(), result="fresh", via=None, kw=None):
        self.kind, self.name, self.args = kind, name, tuple(args)
        self.writes, self.result, self.via, self.kw = tuple(writes), result, via, kw
        self.home = self.args[0] if kind in "mor" else None
        label = {"m": "%s.%s" % (CODE.get(self.args[0] if self.args else "", "?"), name),
                 "r": "%s.%s().%s" % (CODE.get(self.args[0] if self.args else "", "?"), via, name),
                 "o": "%s:%s" % (name, CODE.get(self.args[0] if self.args else "", "?"))}
        self.id = label.get(kind, name) + "(" + ",".join(self.args[1 if kind in "mr" else 0:]) + ")"
        if kw:
            self.id += "{" + ",".join(kw) + "}"

    @property
    def query(self):
        return not self.writes

    def invoke(self, w, vals):
        if self.kind == "m":
            return getattr(vals[0], self.name)(*vals[1:])
        if self.kind == "r":
            return getattr(getattr(vals[0], self.via)(), self.name)(*vals[1:])
        if self.kind == "c":
            if self.kw:
                return w.cls[self.name](**dict(zip(self.kw, vals)))
            return w.cls[self.name](*vals)
        if self.kind == "s":
            cname, fn = self.name.split(".")
            return getattr(w.cls[cname], fn)(*vals)
        if self.kind == "f":
            mod, fn = self.name.split(":")
            return getattr(w.mod(mod), fn)(*vals)
        if self.kind == "o":
            return _OPERATORS[self.name](*vals)
        if self.kind == "x":
            return self.via(*vals)
        raise ValueError(self.kind)


_OPERATORS = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
    "//": operator.floordiv, "==": operator.eq, "!=": operator.ne, "neg": operator.neg,
    "+=": operator.iadd, "-=": operator.isub, "*=": operator.imul,
    "repr": repr, "str": str, "hash": hash, "float": float,
}

OPS = []


def _q(letter_, text):
    """queries: 'name(args)' separated by whitespace"""
    for item in text.split():
        name, _, args = item.partition("(")
        args = [a for a in args.rstrip(")").split(",") if a]
        kind = "o" if name in _OPERATORS else "m"
        OPS.append(Op(kind, name, [letter_] + args))


def _refs(letter_, text):
    for item in text.split():
        OPS.append(Op("m", item, [letter_], result="ref"))


def _w(letter_, text, result="none"):
    for item in text.split():
        name, _, args = item.partition("(")
        args = [a for a in args.rstrip(")").split(",") if a]
        kind = "o" if name in _OPERATORS else "m"
        OPS.append(Op(kind, name, [letter_] + args, writes=(0,), result=result))


def _via(letter_, via, text):
    for item in text.split():
        name, _, args = item.partition("(")
        args = [a for a in args.rstrip(")").split(",") if a]
        OPS.append(Op("r", name, [letter_] + args, writes=(0,), result="none", via=via))


def _c(cname, *forms, kw=None):
    for form in forms:
        OPS.append(Op("c", cname, [a for a in form.split(",") if a], kw=kw))


def _s(text):
    for item in text.split():
        name, _, args = item.partition("(")
        OPS.append(Op("s", name, [a for a in args.rstrip(")").split(",") if a]))


def _f(mod, text):
    for item in text.split():
        name, _, args = item.partition("(")
        OPS.append(Op("f", mod + ":" + name, [a for a in args.rstrip(")").split(",") if a]))


# points
_q("V", "x y get_x get_y copy get_copy is_valid r2 r length length2 th dir abs abs_x abs_y "
        "dist2(V) dist(V) reverse_vector set_length_vector(fp) normalize_vector inner_product(V) "
        "outer_product(V) equals(V) equals_weakly(V) rotated_vector(AF) hash ==(V) !=(V) ==(A) "
        "+(V) -(V) /(fs) *(fs) repr str")
_c("Vector2D", "", "f,f", "V")
_c("Vector2D", "f,f", kw=("x", "y"))
_c("Vector2D", "fp,AF", kw=("r", "a"))
_s("Vector2D.invalid() Vector2D.from_polar(fp,AF) Vector2D.polar2vector(fp,AF) "
   "Vector2D.inner_product_static(V,V) Vector2D.outer_product_static(V,V)")
_w("V", "assign(f,f) reverse rotate(AF) +=(V) -=(V) *=(fs)", result="self")
_w("V", "set_x(f) set_y(f) set_x_y(f,f) set_vector(V) set_polar(fp,AF) validate invalidate add(V) "
        "add(f,f) add_x(f) add_y(f) sub(V) sub(f,f) sub_x(f) sub_y(f) scale(fs) set_length(fp) "
        "normalize set_dir(AF)")
# angles
_q("A", "degree degree_ is_within(AF,AF) abs radian copy reverse_angle get_normalized "
        "is_left_of(AF) is_right_of(AF) is_left_equal_of(AF) is_right_equal_of(AF) +(AF) -(AF) "
        "*(fs) //(fm) repr str float neg ==(A) !=(A) ==(fa) cos sin tan")
_c("AngleDeg", "", "fa", "A")
_c("AngleDeg", "fa", kw=("af",))
_s("AngleDeg.rad2deg(f) AngleDeg.deg2rad(fa) AngleDeg.cos_deg(fa) AngleDeg.sin_deg(fa) "
   "AngleDeg.tan_deg(fa) AngleDeg.acos_deg(fu) AngleDeg.asin_deg(fu) AngleDeg.atan_deg(f) "
   "AngleDeg.atan2_deg(f,f) AngleDeg.bisect(AF,AF) AngleDeg.normalize_angle(fa)")
_w("A", "+=(AF) -=(AF) *=(fs)", result="self")
_w("A", "set_degree(fa) set_angle(A) normal reverse")
# lines
_q("L", "a b c get_x(f) get_y(f) copy dist(V) dist2(V) is_parallel(L) intersection(L) "
        "perpendicular(V) projection(V) ==(L) !=(L) repr str")
_c("Line2D", "f,f,f", "V,V", "V,AF", "L")
_c("Line2D", "f,f,f", kw=("a", "b", "c"))
_c("Line2D", "V,V", kw=("p1", "p2"))
_c("Line2D", "V,AF", kw=("p", "a"))
_c("Line2D", "L", kw=("l",))
_s("Line2D.line_intersection(L,L) Line2D.angle_bisector(V,AF,AF) Line2D.perpendicular_bisector(V,V)")
# rays
_q("R", "origin dir copy line in_right_dir(V) in_right_dir(V,fp) intersection(L) intersection(R) "
        "==(R) !=(R) repr str")
_refs("R", "origin_ dir_")
_c("Ray2D", "V,V", "V,AF")
_via("R", "origin_", "assign(f,f) add(V) set_x(f) set_y(f) rotate(AF)")
_via("R", "dir_", "set_degree(fa) reverse set_angle(A)")
# segments
_q("S", "is_valid origin terminal line length direction copy reversed_segment "
        "perpendicular_bisector contains(V) ==(S) !=(S) equals_weakly(S) projection(V) "
        "intersection(L) intersection(S) intersection(S,b) exist_intersection(S) "
        "exist_intersection(L) check_intersects_on_line(V) exist_intersection_except_endpoint(S) "
        "intersects_except_endpoint(S) nearest_point(V) dist(V) dist(S) farthest_dist(V) "
        "on_segment(V) on_segment_weakly(V) repr str to_str(t)")
_refs("S", "origin_ terminal_")
_c("Segment2D", "", "V,V", "V,fp,AF", "f,f,f,f")
_w("S", "assign assign(V,V) assign(V,fp,AF) assign(f,f,f,f)")
_w("S", "swap reverse", result="self")
_via("S", "origin_", "assign(f,f) set_x(f) set_y(f) sub(V) scale(fs)")
_via("S", "terminal_", "assign(f,f) set_x(f) set_y(f) add(V) reverse")
# circles
_q("C", "area contains(V) center radius intersection(L) intersection(R) intersection(S) "
        "intersection(C) intersection_with_line(L) intersection_with_ray(R) "
        "intersection_with_segment(S) intersection_with_circle(C) repr str to_str(t)")
_refs("C", "center_")
_c("Circle2D", "", "V,fr", "V")
_s("Circle2D.circum_circle(V,V,V) Circle2D.circum_circle_contains(V,V,V,V)")
_f("circle_2d", "quadratic_f(f,f,f)")
_w("C", "assign(V,fr)")
_via("C", "center_", "assign(f,f) set_x(f) set_y(f) add(V)")
# sizes
_q("Z", "length width diagonal is_valid ==(Z) !=(Z) repr str")
_c("Size2D", "", "f,f", "f")
_w("Z", "assign(f,f) set_length(f) set_width(f)")
# rectangles
_q("Q", "is_valid area contains(V) contains_almost(V,fp) left right top bottom min_x max_x min_y "
        "max_y size center top_left top_right bottom_left bottom_right left_edge right_edge "
        "top_edge bottom_edge intersection(L) intersection(R) intersection(S) intersected(Q) "
        "united(Q) repr str to_str(t)")
_refs("Q", "size_ top_left_")
_c("Rect2D", "f,f,f,f", "V,f,f", "V,Z", "V,V", "Q")
_s("Rect2D.from_center(f,f,fp,fp) Rect2D.from_center(V,fp,fp)")
_w("Q", "assign(f,f,f,f) assign(V,f,f) assign(V,Z) assign(V,V) assign(Q) set_top_left(V) "
        "set_top_left(f,f) set_bottom_right(V) set_bottom_right(f,f)", result="self")
_w("Q", "move_center(V) move_top_left(V) move_bottom_right(V) move_left(f) move_min_x(f) "
        "move_right(f) move_max_x(f) move_top(f) move_min_y(f) move_bottom(f) move_max_y(f) "
        "set_left(f) set_min_x(f) set_right(f) set_max_x(f) set_top(f) set_min_y(f) "
        "set_bottom(f) set_max_y(f) set_length(f) set_width(f) set_size(f,f) set_size(Z)")
_via("Q", "top_left_", "assign(f,f) set_x(f) set_y(f)")
_via("Q", "size_", "assign(f,f) set_length(f) set_width(f)")
# triangles
_q("T", "is_valid a b c area signed_area double_signed_area ccw contains(V) centroid incenter "
        "circumcenter orthocenter intersection(L) intersection(R) intersection(S) repr str "
        "to_str(t)")
_refs("T", "a_ b_ c_")
_c("Triangle2D", "V,V,V", "S,V")
_s("Triangle2D.double_signed_area_st(V,V,V) Triangle2D.signed_area_st(V,V,V) "
   "Triangle2D.tri_ccw(V,V,V) Triangle2D.tri_centroid(V,V,V) Triangle2D.tri_incenter(V,V,V) "
   "Triangle2D.tri_circumcenter(V,V,V) Triangle2D.tri_orthocenter(V,V,V) "
   "Triangle2D.tri_contains(V,V,V,V)")
_w("T", "assign(V,V,V) assign(S,V)", result="self")
_via("T", "a_", "assign(f,f) set_x(f)")
_via("T", "b_", "assign(f,f) set_y(f)")
_via("T", "c_", "assign(f,f) add(V)")
# sectors
_q("K", "center radius_min radius_max angle_left_start angle_right_end area contains(V) "
        "get_circumference_min get_circumference_max ==(K) !=(K) repr str")
_refs("K", "center_ angle_left_start_ angle_right_end_")
_c("Sector2D", "V,fr,fr,AF,AF")
_w("K", "assign(V,fr,fr,AF,AF)")
_via("K", "center_", "assign(f,f) set_x(f)")
_via("K", "angle_left_start_", "set_degree(fa) reverse")
_via("K", "angle_right_end_", "set_degree(fa) set_angle(A)")
# polygons
_q("P", "vertices get_bounding_box contains(V) contains(V,b) bounding_box_center dist(V) dist(V,b) "
        "area double_signed_area is_counter_clockwise is_clockwise "
        "get_rectangle_clipped_polygon(Q) repr str")
_refs("P", "vertices_")
_c("Polygon2D", "", "VLn", "V,V,V", "V,V,V,V,V")
_w("P", "clear add_vertex(Vn)")
_w("P", "assign(VLn)", result="self")
_via("P", "vertices_", "append(Vn) reverse pop extend(VLn)")
# transforms
_q("M", "m11 m12 m21 m22 dxtf dytf det invertible inverted transform(V) transform(f,f) *(M) *(V) "
        "==(M) !=(M) repr str")
_c("Matrix2D", "", "fs,fs,fs,fs,f,f")
_s("Matrix2D.make_translation(f,f) Matrix2D.make_scaling(fs,fs) Matrix2D.make_rotation(A)")
_w("M", "*=(M)", result="self")
_w("M", "reset assign(fs,fs,fs,fs,f,f) translate(f,f) scale(fs,fs) rotate(A)")
OPS.append(Op("m", "transform_vec", ["M", "V"], writes=(1,), result="arg1"))
# hulls
_q("H", "input_points vertices edges get_min_point_index to_polygon repr str")
_refs("H", "input_points_ vertices_ edges_")
_c("ConvexHull", "VLn")
_w("H", "clear clear_results add_point(Vn) add_points(VLn) compute compute(meth) "
        "compute_wrapping_method compute_graham_scan")
_f("convex_hull", "list2set(VLn) angle_sort_predicate(V,V) angle_sort_predicate(V,V,V) "
                  "is_clockwise(V,V,V)")
# soccer maths
_f("soccer_math", "kick_rate(f,fa,fp,fp,fp,fp) dir_rate(fa,fu,fu) effective_turn(fa,fp,fp) "
                  "final_speed(f,fp,fu,fu) can_over_speed_max(f,fp,fu,fu,fp) "
                  "inertia_n_step_travel(V,i,fu) inertia_n_step_point(V,V,i,fu) "
                  "inertia_n_step_distance(fp,i,fu) inertia_final_travel(V,fu) "
                  "inertia_final_point(V,V,fu) inertia_final_distance(fp,fu) r_int(f) "
                  "calc_length_geom_series(fp,fp,fu) calc_first_term_geom_series(fp,fu,i) "
                  "bound(f,f,f) min_max(f,f,f) quantize(f,fp) quantize_dist(fp,fp) "
                  "unquantize_min(fp,fp) unquantize_max(fp,fp) unquantize_error(fp,fp)")
OPS.append(Op("f", "soccer_math:wind_effect", ["fp", "fp", "fp", "fa", "fp", "fp", "V"],
              writes=(6,)))

BY_ID = {}
for _op in OPS:
    if _op.id in BY_ID:
        raise ValueError("duplicate op " + _op.id)
    BY_ID[_op.id] = _op

# edits of a hull's points behind its back, used by the hull scenario only
for _name, _args in (("append", ["H", "Vn"]), ("reverse", ["H"]), ("pop", ["H"])):
    _op = Op("r", _name, _args, writes=(0,), result="none", via="input_points_")
    BY_ID[_op.id] = _op


def _move_point(hull, index, x, y):
    held = hull.input_points_()
    if held:
        held[index % len(held)].assign(x, y)


_op = Op("x", "move_point", ["H", "i", "f", "f"], writes=(0,), result="none", via=_move_point)
BY_ID[_op.id] = _op



def _move_vertex(polygon, index, x, y):
    held = polygon.vertices_()
    if held:
        held[index % len(held)].assign(x, y)


MOVE_VERTEX = Op("x", "move_vertex", ["P", "i", "f", "f"], writes=(0,), result="none",
                 via=_move_vertex)
BY_ID[MOVE_VERTEX.id] = MOVE_VERTEX

# somebody looks at an object: all its accessors
LOOK = {}
for _code in CODE:
    LOOK[_code] = Op("x", "look", [_code], via=lambda obj: obj)
    LOOK[_code].id = "look:" + _code
    BY_ID[LOOK[_code].id] = LOOK[_code]

QUERIES = [o for o in OPS if o.query]
EDITS = [o for o in OPS if not o.query]

# calls the library documents that it rejects (wrong number or kind of arguments)
REJECTS = []


def _rej(kind, name, args, via=None):
    o = Op(kind, name, args, writes=(), result="none", via=via)
    o.id = "reject " + o.id
    REJECTS.append(o)
    BY_ID[o.id] = o


_rej("c", "Vector2D", ["t"])
_rej("c", "Vector2D", ["f"])
_rej("c", "Vector2D", ["f", "t"])
_rej("c", "Vector2D", ["f", "f", "f"])
_rej("m", "add", ["V", "t"])
_rej("m", "add", ["V", "f"])
_rej("m", "add", ["V", "f", "f", "f"])
_rej("m", "add", ["V"])
_rej("m", "sub", ["V", "f", "f", "f"])
_rej("m", "sub", ["V"])
_rej("c", "AngleDeg", ["fa", "fa"])
_rej("c", "Line2D", ["f"])
_rej("c", "Line2D", ["V", "t"])
_rej("c", "Line2D", ["t", "f", "f"])
_rej("c", "Ray2D", ["V", "t"])
_rej("c", "Segment2D", ["V"])
_rej("c", "Segment2D", ["f", "f", "f", "f", "f"])
_rej("m", "assign", ["S", "V"])
_rej("m", "assign", ["S", "f", "f", "f", "f", "f"])
_rej("m", "dist", ["S", "f"])
_rej("m", "dist", ["S", "A"])
_rej("m", "intersection", ["C", "V"])
_rej("m", "intersection", ["C", "f"])
_rej("m", "intersection", ["R", "V"])
_rej("c", "Rect2D", [])
_rej("c", "Rect2D", ["f"])
_rej("m", "assign", ["Q"])
_rej("m", "assign", ["Q", "V"])
_rej("m", "assign", ["Q", "f", "f", "f", "f", "f"])
_rej("m", "set_size", ["Q", "f"])
_rej("m", "set_size", ["Q", "f", "f", "f"])
_rej("m", "intersection", ["Q", "V"])
_rej("m", "intersection", ["Q", "C"])
_rej("s", "Rect2D.from_center", ["f"])
_rej("c", "Triangle2D", ["V"])
_rej("c", "Triangle2D", ["V", "V", "V", "V"])
_rej("m", "assign", ["T", "V"])
_rej("m", "assign", ["T", "V", "V", "V", "V"])
_rej("m", "transform", ["M"])
_rej("m", "transform", ["M", "f", "f", "f"])
_rej("f", "circle_2d:quadratic_f", ["zero", "f", "f"])
# rejected only when a later argument is looked at: nothing may have been stored by then
for _args in (["S", "V", "t"], ["S", "V", "f"], ["S", "V", "A"], ["S", "t", "V"],
              ["S", "f", "f", "f", "t"], ["S", "f", "f", "t", "f"], ["S", "f", "t", "f", "f"],
              ["S", "f", "f", "f", "V"], ["S", "V", "V", "f"],
              ["T", "V", "V", "t"], ["T", "V", "t", "V"], ["T", "t", "V", "V"],
              ["T", "V", "V", "f"], ["T", "V", "f", "V"], ["T", "S", "t"], ["T", "S", "f"],
              ["Q", "f", "f"], ["Q", "f", "V"], ["Q", "f", "f", "f"],
              ["C", "f", "f"], ["C", "t", "f"], ["C", "A", "f"]):
    _rej("m", "assign", _args)
_rej("m", "add", ["V", "A"])
_rej("m", "add", ["V", "S"])
_rej("m", "set_size", ["Q", "V"])
_rej("m", "set_size", ["Q", "t"])
for _args in (["C", "t"], ["C", "A"], ["C", "Q"], ["R", "t"], ["R", "A"], ["R", "Q"],
              ["Q", "t"], ["Q", "A"]):
    _rej("m", "intersection", _args)
_rej("m", "dist", ["S", "t"])
_rej("m", "dist", ["S", "Q"])
for _cls, _args in (("Rect2D", ["f", "f"]), ("Line2D", ["f", "f"]), ("Ray2D", ["f", "f"]),
                    ("Ray2D", ["V", "S"]), ("AngleDeg", ["V", "V"]), ("Segment2D", ["V", "t"]),
                    ("Segment2D", ["f", "f", "f", "t"]), ("Triangle2D", ["V", "V", "t"]),
                    ("Triangle2D", ["S", "t"]), ("Triangle2D", ["V", "t", "V"])):
    _rej("c", _cls, _args)
