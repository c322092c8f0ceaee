import json
P="src/pyrusgeom/"
ALL=[P+f for f in "vector_2d.py angle_deg.py line_2d.py ray_2d.py segment_2d.py circle_2d.py rect_2d.py size_2d.py triangle_2d.py sector_2d.py polygon_2d.py matrix_2d.py convex_hull.py soccer_math.py geom_2d.py math_values.py region_2d.py".split()]
def f(*n): return [P+x+".py" for x in n]
props=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    props.append(d)

prop("C01","Concurrent use under caller locking equals a serial run",
 "When several threads share library objects and the callers only keep a call that edits an object from overlapping any other call on that object, every call returns exactly what it returns when the same calls run one at a time in the order they started, and all objects end in the same state. In particular computations, comparisons, copies, conversions to text and arithmetic operators may overlap freely on shared objects, because they never modify their operands.",
 ["schedules","histories","inputs"],"for every preemption of the calling threads at any instruction inside the library, every mix of calls and every input",
 "The tests call each function once, alone, in one thread; they never look at an operand after a query and never overlap two calls, so a scratch buffer, memo or temporary change of an operand shared between calls is invisible to them.",
 ALL,[("queries compute on locals and build new objects",P+"*.py"),("no module- or class-level mutable state",P+"*.py")],
 [("object attributes","the only state a call may read or write","self._* in every class")],["return values","accessors of every object after the run"])
prop("C02","A query or rejected call that is cut short leaves no trace",
 "If a computation, comparison, copy, constructor or text conversion is aborted at any point by an exception arriving from outside (interrupt, failed allocation, deadline, exhausted stack, broken standard output), or a call is rejected by the library's own check of the number or kind of its arguments, then no object visible to the caller has changed, and every later call, including the same call again, answers as if the aborted call had never been made.",
 ["crash_points","fault_sequences","histories","inputs"],"for every point inside a non-editing call, every fault kind and every history before and after",
 "Tests never abort a call half way and never look at an object after a rejected call; the number of abort points is the number of instructions executed.",
 ALL,[("queries do not write to operands",P+"*.py"),("argument checks happen before any attribute is written",P+"segment_2d.py:assign, rect_2d.py:assign, triangle_2d.py:assign, vector_2d.py:add/sub")],
 None,["accessors of every object after the abort","results of retries and of later calls"])
prop("C03","Independent callers never influence one another",
 "Callers that use disjoint sets of objects get exactly the results each would get alone in a fresh process, however their calls are interleaved, even if some callers are interrupted or torn down in the middle of calls, and no matter what was computed earlier in the process.",
 ["schedules","crash_points","histories","fault_sequences"],"for every interleaving of independent sessions, every tear-down point of the others, and every earlier history of the process",
 "A test process runs one session; leakage through defaults, class attributes, module globals, caches or shared temporaries needs a second session and a particular overlap.",
 ALL,[("no module- or class-level mutable state, no shared default objects",P+"*.py"),("default argument Vector2D() used as a read-only base",P+"convex_hull.py:angle_sort_predicate")],
 None,["transcript of each session"])
prop("C04","Objects share no mutable state except through documented references",
 "Changing an object that was passed to a call, or that a call returned, never changes any other object: constructors, assignments, accessors, copies and computed results hand out independent values and independent lists. The exceptions are the accessors documented as references, through which changes do reach the owner at any time until the owner is assigned or edited anew, edits that return their receiver, and the point and edge objects stored inside polygons and hulls, which may be shared while the lists holding them are not.",
 ["histories","inputs","schedules","fault_sequences"],"for every sequence of calls and of edits to their arguments and results, in any order, with other callers running in between",
 "Sharing shows only when one of two holders is changed later and the other looked at again; the tests compare results immediately and throw the objects away.",
 ALL,[("x() returns a copy, x_() the member itself",P+"*.py"),("constructors and assign copy their arguments",P+"*.py")],
 None,["accessors of all other objects after each edit"])
prop("C05","Every query answers from the current value of its object",
 "A query or edit of an object, whatever edits, queries, interrupted queries and edits through documented references the object has been through, and whether the caller built it or got it from a call, has the same outcome (up to rounding) as on a newly constructed object that has the same visible value. Nothing observable is remembered from an earlier value of the object or of its parts.",
 ["histories","inputs","schedules","fault_sequences"],"for every history of edits and queries of one or more objects, with queries interrupted at any point",
 "Stale caches and forgotten invalidations need a query, then an edit by a particular route, then the query again; tests build a new object for each assertion.",
 f("vector_2d","angle_deg","ray_2d","segment_2d","circle_2d","rect_2d","size_2d","triangle_2d","sector_2d","polygon_2d","matrix_2d"),
 [("queries recompute from the stored coordinates on every call",P+"*.py")],None,["query results on the lived-in object and on a rebuilt one"])
prop("C06","An edit cut short is contained and can be repaired",
 "If an edit is aborted at any point by an exception arriving from outside, no object other than the one being edited changes, the arguments of the edit included. Assigning a complete new value to the affected object then makes it indistinguishable from a newly built one, and nothing else in the process is left behaving differently.",
 ["crash_points","fault_sequences","histories","inputs"],"for every instruction at which any editing call can be cut short, and every continuation",
 "Tests never abort an edit; a swap, clear-and-refill or lock left half done is reachable only at particular instructions.",
 f("vector_2d","angle_deg","ray_2d","segment_2d","circle_2d","rect_2d","size_2d","triangle_2d","sector_2d","polygon_2d","matrix_2d","convex_hull"),
 [("edits write only attributes of the receiver",P+"*.py"),("assign/compute rebuild all of the state",P+"*.py")],None,["accessors of bystanders","battery of queries on the repaired object"])
prop("C07","Convex hulls follow their input points through any history",
 "After a hull is computed with the wrapping or the Graham method, its corners are exactly the extreme points of the input points it holds at that moment (three or more distinct points, no three of them within the library's tolerance of one line), each once and in one rotation sense, and its edges join consecutive corners and close the ring; with fewer than three input points the result is empty. This holds for the first computation and for any later one after points were added, after clearing, after switching methods and after an interrupted computation; computing never adds or drops input points, and clearing empties what it says it clears.",
 ["histories","inputs","crash_points","schedules"],"for every sequence of adding, clearing, computing by either method and interrupting, and every point set in general position",
 "Tests compute one hull per object from three fixed point sets and never recompute, add points afterwards or look at the edges.",
 f("convex_hull","triangle_2d","polygon_2d"),[("clear_results before each computation",P+"convex_hull.py:compute_*"),("wrapping and Graham scans",P+"convex_hull.py")],
 [("_input_points","the points given so far",P+"convex_hull.py"),("_vertices/_edges","result of the last computation",P+"convex_hull.py")],["vertices(), edges(), input_points(), to_polygon()"])
prop("C08","Rectangles follow their edit history",
 "After any sequence of edits a rectangle's sides, corners, centre, size and area are those obtained by applying the edits one by one: moving a side, corner or centre puts it where requested and keeps the size; setting a side or corner keeps the opposite one and swaps the two if they cross; assigning (also to a size, length or width) replaces exactly what is named. Extents are never negative, and the intersection and union of two rectangles are computed from their current values (the empty rectangle at the origin if either is empty or, for intersection, they do not overlap) without altering either.",
 ["histories","inputs","schedules","fault_sequences"],"for every sequence of edits, also through references and by several callers taking turns, with queries interrupted in between",
 "There is no test of rectangles at all; the contract of each edit depends on the state left by the previous ones.",
 f("rect_2d","size_2d","vector_2d"),[("move_*/set_*/assign",P+"rect_2d.py"),("absolute value on every size edit",P+"size_2d.py")],
 [("_top_left","corner with the smallest coordinates",P+"rect_2d.py"),("_size","non-negative extents",P+"rect_2d.py, size_2d.py")],["left right top bottom center size area is_valid corners"])
prop("C09","Angles stay normalised and congruent to their history",
 "After any sequence of edits and arithmetic, an angle's reported degree lies in [-180, 180] and each step equals, modulo full turns, plain arithmetic on the degrees reported before it; its sine, cosine, radian, copy and reverse agree with that value. Operators that return a new angle leave both operands as they were, in-place operators change only the left one.",
 ["histories","inputs","schedules","fault_sequences"],"for every sequence of edits and operators on shared angles, large values and repeated wrap-around, by several callers taking turns, with queries interrupted in between",
 "Tests normalise a few constants; drift out of range needs particular sums after several steps or an unnormalised route in.",
 f("angle_deg"),[("normal() on every route that sets the degree",P+"angle_deg.py")],[("_degree","degree in [-180,180]",P+"angle_deg.py")],["degree(), radian(), cos(), sin()"])
prop("C10","Transforms compose exactly as their history says",
 "After any sequence of resets, assignments, translations, scalings, rotations and multiplications, a transform's six coefficients are those of the product of the steps in order (each later translate, scale or rotate acts after what is already there; A*B and A*=B apply B first and then A), and mapping a point, determinant, invertibility and inverse agree with those coefficients. A*B leaves both operands alone, A*=B changes only A, the in-place mapping changes only the vector, and two transforms compare equal exactly when all six coefficients are equal.",
 ["histories","inputs","schedules","fault_sequences"],"for every composition history of several transforms shared between callers, aliased operands included, with queries interrupted in between",
 "Tests check single products of one or two fixed matrices and never look at the operands afterwards.",
 f("matrix_2d","angle_deg","vector_2d"),[("temporaries computed before any coefficient is overwritten",P+"matrix_2d.py:__imul__")],[("_m11.._dy","coefficients",P+"matrix_2d.py")],["m11 m12 m21 m22 dxtf dytf transform inverted =="])
prop("C11","Points follow their edit history and keep their validity mark",
 "After any sequence of edits, a point's coordinates are those given by plain arithmetic applied in the same order, and operators that return a new point leave their operands unchanged. The validity mark of a point changes only when it is validated, invalidated or set from another point, and copies carry it.",
 ["histories","inputs","schedules","fault_sequences"],"for every sequence of edits and operators on points shared between callers, aliased arguments included (p += p), with queries interrupted in between",
 "Tests check one edit on a new point; they never chain edits, alias the arguments or look at the mark after an edit.",
 f("vector_2d","angle_deg"),[("edits write _x/_y only",P+"vector_2d.py"),("validate/invalidate/set_vector write _is_valid",P+"vector_2d.py")],[("_x,_y","coordinates",P+"vector_2d.py"),("_is_valid","validity mark",P+"vector_2d.py")],["x() y() is_valid()"])
prop("C12","Number streams are independent, complete and lazily stable",
 "Every stream of the range helper yields start, start+step, ... up to but not including stop and then ends, whatever other streams are consumed in between, in whatever order, by whatever caller, and whether other streams were abandoned, closed or interrupted half way. A consumer that stops early or is interrupted outside the stream can go on later without losing or repeating a value.",
 ["schedules","histories","inputs","fault_sequences"],"for every interleaving of partially consumed streams, early close and abort",
 "Tests exhaust no stream at all; shared generator state shows only when two streams are open at once.",
 f("soccer_math","math_values"),[("generator with local state only",P+"soccer_math.py:f_range")],None,["values drawn from each stream"])
prop("C13","Modules import in any order, and again after an interrupted import",
 "Every module of the package can be imported first, in any order and in any combination, and always ends up defining the same public names with the same behaviour. If an import is cut short at any point by an exception, importing again succeeds and behaves the same.",
 ["configurations","crash_points"],"for every order and subset of the modules and every instruction at which an import can be cut short",
 "Each test file imports one fixed set of modules in one order; the circular dependency between triangles and segments makes the order matter.",
 ALL,[("lazy imports break the triangle/segment cycle",P+"triangle_2d.py"),("imports at module level only of modules lower in the hierarchy",P+"*.py")],None,["public names of each module","transcript of a fixed session"])
prop("C14","Results do not depend on the state of the process",
 "The same calls give the same results whatever the hash seed, clock, random-number state, environment variables, import order, optimisation level, garbage-collection timing, floating-point environment of earlier calls or calling thread, and whatever was computed before. The library in turn leaves process-wide state (random-number generator, recursion limit, signal handlers, working directory, environment, warnings filters, floating-point and trace settings) as it was.",
 ["configurations","histories","fault_sequences"],"for every setting of the ambient process state and every earlier history",
 "The tests run under one hash seed, one import order and the real clock.",
 ALL,[("no use of clock, randomness, environment or iteration over sets",P+"*.py")],None,["transcripts of one session under different ambient settings"])
prop("C15","Polygons follow their edit history",
 "After any sequence of assigning, adding, clearing and editing through the vertex-list reference, a polygon holds exactly the resulting vertices in order (clearing leaves the single point (0,0), assigning an empty list changes nothing), and its bounding box, box centre, signed and absolute area and orientation are those of that vertex list. Measuring, containment, distance and clipping leave the polygon as it was, and removing or adding vertices never changes a list the caller passed in or got as a copy.",
 ["histories","inputs","schedules","fault_sequences"],"for every sequence of edits and queries by several callers taking turns, with queries interrupted in between",
 "Tests build one polygon per assertion; area, orientation and box after a sequence of edits are never compared.",
 f("polygon_2d","rect_2d","vector_2d"),[("queries recompute from the vertex list",P+"polygon_2d.py")],[("_vertices","vertex list",P+"polygon_2d.py")],["vertices() area() double_signed_area() get_bounding_box()"])

# pure functions: listed, not claimed
def pure(id,title,statement,files,mech,why="Tests sample a handful of inputs of a function whose domain is all finite floats."):
    prop(id,title,statement,["inputs"],"for every finite input",why,files,mech)
pure("C16","Intersection points lie on both shapes",
 "Every intersection point reported for two shapes lies on both of them up to rounding, all of them are reported up to the documented maximum, and none is reported for shapes that do not meet.",
 f("line_2d","ray_2d","segment_2d","circle_2d","rect_2d","triangle_2d"),[("intersection",P+"*.py")])
pure("C17","Distances, projections and nearest points are mutually consistent",
 "The distance reported between a point and a line, segment or polygon is the distance to the reported nearest or projected point, is never negative and is not larger than the distance to any other point of the shape.",
 f("line_2d","segment_2d","polygon_2d"),[("dist/nearest_point/projection",P+"segment_2d.py")])
pure("C18","Containment answers agree with the geometry",
 "A circle, rectangle, sector, triangle or polygon reports a point as contained exactly when the point lies in the region it describes, boundary cases as documented.",
 f("circle_2d","rect_2d","sector_2d","triangle_2d","polygon_2d"),[("contains",P+"*.py")])
pure("C19","Triangle centres have their defining properties",
 "Centroid, incentre, circumcentre and orthocentre, and the circle through three points, satisfy the equations that define them for every non-degenerate triangle.",
 f("triangle_2d","circle_2d"),[("tri_*",P+"triangle_2d.py"),("circum_circle",P+"circle_2d.py")])
pure("C20","Angular order and bisection are consistent",
 "Left-of, right-of, within and bisecting relations between angles agree with the cyclic order of directions for every pair, across the +-180 degree seam.",
 f("angle_deg"),[("is_left_of, is_within, bisect",P+"angle_deg.py")])
pure("C21","Motion formulas agree with step-by-step motion",
 "Travel, final point and series formulas equal the sum of the individual simulated steps they abbreviate, and quantisation bounds enclose the quantised value.",
 f("soccer_math"),[("inertia_*, calc_*, quantize_*",P+"soccer_math.py")])
pure("C22","Clipping a polygon yields exactly the part inside the rectangle",
 "The polygon clipped by a rectangle covers exactly the points of the polygon that lie in the rectangle.",
 f("polygon_2d"),[("get_rectangle_clipped_polygon",P+"polygon_2d.py")])
pure("C23","Equality and hashing obey their laws",
 "Equality is reflexive and symmetric, and equal points have equal hashes.",
 f("vector_2d","angle_deg","line_2d","segment_2d","sector_2d","matrix_2d"),[("__eq__, __hash__",P+"*.py")])
pure("C24","Vector algebra identities hold up to rounding",
 "Length, direction, rotation, inner and outer product satisfy the usual identities (rotation keeps length, outer product is antisymmetric, polar round trip) for every finite vector.",
 f("vector_2d"),[("r, th, rotate, inner_product, outer_product",P+"vector_2d.py")])
prop("C25","Segments, rays, circles, triangles, sectors and sizes follow their edits",
 "After any sequence of assignments, reversals and edits through their references, a segment's end points, a ray's origin and direction, a circle's centre and radius, a triangle's corners, a sector's centre, radii and angles and a size's extents are those obtained by applying the edits one by one, each replacing exactly what it names, also when the new value is given by a part of the shape itself. Negative circle and inner sector radii count as zero, a sector's outer radius is never below its inner one and extents lose their sign. A segment's length, direction, copy and reverse, a ray's copy, the areas of circles, triangles and sectors, a triangle's orientation, a sector's arc lengths (zero, like its area, when both angles are equal) and a size's diagonal agree with those parts, and asking for them changes nothing.",
 ["histories","inputs","schedules","fault_sequences"],"for every sequence of edits by several callers taking turns, with queries interrupted in between",
 "Tests assign once and read back; sectors, sizes and triangles have almost none, and no test edits through a reference and then measures.",
 f("segment_2d","ray_2d","circle_2d","triangle_2d","sector_2d","size_2d"),
 [("assign, swap/reverse and reference accessors",P+"*.py")],None,["accessors and measures of the shape after every call"])
prop("C26","Objects survive a checkpoint and restart",
 "Objects saved together with pickle at any moment when no edit of them is running (other threads may be computing with them, and earlier computations may have been interrupted) and loaded in a newly started process have the same visible values, are still connected where one is a documented reference into another, and from then on every call on them has the outcome it would have had in the original process. Deep copies made with copy.deepcopy behave likewise, and using or editing them leaves the originals alone, and the other way round.",
 ["histories","inputs","crash_points","schedules","fault_sequences"],"for every history of calls by several callers before the save, every crash point after it and every history of calls after the restart",
 "No test saves or deep-copies anything; state kept outside the object, identity with a module-level object, or a member that cannot be saved only shows after a restart.",
 f("vector_2d","angle_deg","line_2d","ray_2d","segment_2d","circle_2d","rect_2d","size_2d","triangle_2d","sector_2d","polygon_2d","matrix_2d","convex_hull"),
 [("objects hold plain numbers, lists and other objects only",P+"*.py")],None,["accessors and results of all calls on restored objects"])
with open("/verif/properties.jsonl","w") as o:
    for p in props: o.write(json.dumps(p)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("/verif/properties.jsonl"):
    d=json.loads(l); jsonschema.validate(d,sch)
    assert len(d["title"])<=80,d["title"]
