#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FHOOK = "cfg(scarlet_sim): the library's float type becomes a wrapper whose every arithmetic and math-library operation calls into the simulator"

p("C01", "Interval arithmetic always encloses the exact result",
  "For any sequence of interval operations (sum, difference, product, quotient, each with an interval or a plain number on the right and in its assigning form; negation, square, square root, absolute value, sign, minimum, maximum, ordered pair, clamp to an interval range, union, intersection, reciprocal, and making an interval from an integer, a single or a double), and whichever of the two neighbouring representable values each underlying machine operation happens to return, the resulting interval contains the exact real result for every choice of points in the operand intervals (a converted number that the format cannot represent included). The result is always an ordered interval (lower end <= upper end), and dividing by an interval (or number) that may be zero gives the whole line. Operands are intervals on which the exact operation is defined: no 0*infinity or infinity-infinity, square roots only of intervals that reach zero or above (the part below zero is ignored), intersections only of overlapping intervals, clamping only to a range whose lower limit nowhere exceeds its upper one.",
  ["programs", "inputs", "fault_sequences"],
  "every program of interval operations over single- and double-precision intervals (tiny, huge, subnormal, sign-crossing, overflowing ends), and every schedule of rounding directions the arithmetic unit may apply to the individual machine operations",
  "Three convergence tests run one fixed computation each in round-to-nearest; no test ever multiplies two sign-crossing intervals, and none runs under another rounding direction, so a missing outward step is invisible.",
  ["src/math/interval.rs", "src/math/interval_as_gfloat.rs", "src/math/scalar.rs"],
  [("every bound is widened outward by one representable step after the machine operation", "Interval::{add,sub,mul,div,square,sqrt} in src/math/interval.rs"),
   ("sign case split picks the extreme corner products/quotients", "impl Mul/Div for Interval")],
  observe=["Interval::inf", "Interval::sup"])

p("C02", "Interval elementary functions enclose the true function values",
  "Sine, cosine, tangent, arcsine, arccosine, arctangent and two-argument arctangent of an interval contain the true mathematical value at every point of the argument (any width, any quadrant, arguments touching or containing zero, an extremum or the branch cut; arcsine and arccosine on [-1, 1]; the origin excepted for the two-argument arctangent), whichever neighbouring representable value the platform's math library returns for the ends. The interval constants pi, 2*pi, pi/2 and pi/4 contain the true constants, in single and in double precision. Mapping an interval through a caller's own increasing or decreasing function that is accurate to one machine operation gives an interval containing the function's true values. Results are ordered intervals and never fail on arguments in the domain.",
  ["inputs", "fault_sequences", "programs"],
  "every argument interval up to 1e6 in magnitude, every result of a faithful (error below one unit in the last place) math library, every rounding schedule of the surrounding arithmetic",
  "The sin/cos test only draws intervals at most pi wide, the atan2 test only single points away from the axes, asin/acos/tan and the single-precision constants are untested, and all run against one libm in one rounding mode.",
  ["src/math/interval_as_gfloat.rs", "src/math/scalar.rs"],
  [("end values are computed by the scalar library and widened by one step; extrema inside the argument are detected by the sign of the derivative at the ends", "GFloat for Interval: sin, cos"),
   ("quadrant split", "GFloat for Interval: atan2"), ("pi_lower/pi_upper constants", "GFloat for f32/f64")],
  observe=["Interval::inf", "Interval::sup"])

p("C03", "Stepping to the neighbouring float is exact in every FP control state",
  "For every single- and double-precision value, stepping up returns the smallest representable number strictly greater than it and stepping down the largest strictly smaller one, subnormals included; either zero steps to the smallest subnormal of the right sign, the largest finite value steps to infinity, an infinity steps back to the largest finite value or stays where it is, and NaN stays NaN. This holds whatever floating-point control state the calling thread is in at that moment: any rounding direction, subnormals flushed to zero or treated as zero or not.",
  ["inputs", "fault_sequences"],
  "all 2^32 single-precision values (sampled, with every exponent and boundary covered), boundary-biased double-precision values, and every sequence of control-state changes (rounding direction, flush-to-zero, denormals-are-zero) between calls",
  "No test calls the stepping functions on their own, and a test process never changes the processor's control state, which other code in a real process (code built for fast math) does.",
  ["src/math/scalar.rs"],
  [("integer-only manipulation of the bit pattern", "GFloat::next_up / next_down for f32 and f64")],
  observe=["return value bits"])

p("C04", "Interval geometry encloses the exact geometry",
  "Vectors, points and rays with interval coordinates behave like a box of real ones: addition, subtraction, scaling, dot and cross product, squared length, length, distance, normalisation, evaluating a ray at an interval parameter, mapping a point, vector, normal or ray forward or backward through a transform, and building and composing translations, scalings and axis rotations whose own parameters are intervals, all give coordinate (or matrix entry) intervals that contain the exact result for every choice of points in the inputs. This holds whichever neighbouring representable value each machine operation returns, and no such operation fails on well-formed input (length of a box containing the zero vector and affine mapping of interval vectors included).",
  ["programs", "inputs", "fault_sequences"],
  "every program of vector/point/ray operations and affine transform mappings over interval coordinates, and every rounding schedule",
  "No existing test instantiates a vector, ray or mapping over intervals at all.",
  ["src/math/vectori.rs", "src/math/vector.rs", "src/math/vector_traits.rs", "src/math/transform.rs", "src/geometry/ray.rs"],
  [("the vector, ray and mapping code is generic over the scalar and inherits outward widening from the interval type", "GenericVector, Norm, TransformMap impls, Ray::eval")],
  observe=["coordinates of the results"])

p("C05", "Interval comparisons and predicates only assert what is certain",
  "Whenever <, <=, >, >= or == between two intervals, or between an interval and a number, or a sign test (positive, negative, non-negative, non-positive), range test or membership test on an interval answers true, the relation holds for every choice of points in the intervals, and so for the exact values they were computed from, after any history of operations under any rounding. Intervals that do not overlap are always ordered, sign, range and membership tests answer true whenever the relation holds for all points, single-point intervals compare exactly like their numbers, and an interval is classified as finite exactly when both ends are, as infinite exactly when both ends are the same infinity, and as not a number exactly when an end is. The single number that stands for an interval (its approximation, also cast to other number types) lies in the interval as long as nothing overflows, and the tests for a single point and for the same ends are exact.",
  ["programs", "histories", "fault_sequences"],
  "every program that computes intervals and then branches on a comparison, every rounding schedule, every relative position of the two intervals (disjoint, touching, nested, equal, single points)",
  "Tests only use comparisons incidentally on a handful of values; whether a decision taken on rounded values can contradict the exact computation depends on the rounding of every operation before it.",
  ["src/math/interval.rs", "src/math/interval_as_gfloat.rs"],
  [("partial order: ordered only if the ends do not overlap", "PartialOrd/PartialEq for Interval"),
   ("sign predicates look at the one decisive end", "Interval::is_positive ... in_range, contains, is_finite, is_infinite")],
  observe=["return values of the comparisons"])

p("C06", "A scene answers with the nearest hit, whatever its composition and history",
  "For any scene, built by adding objects in any order, nesting lists inside lists or inside transforms, or putting the same object into several lists, the nearest-hit query returns the complete answer of a member whose own reported distance is the smallest among all members (any one of them on ties), and reports no hit exactly when no member reports one. This holds at every moment of a history that mixes additions and queries, when members issue queries of their own while being queried, and after queries that were cut short because a member panicked.",
  ["histories", "programs", "fault_sequences"],
  "every history of additions, nestings and queries over library and caller-supplied members; every member failure (panic) at any call into a member; every re-entrant query",
  "No test creates a list of objects at all.",
  ["src/geometry/primitive.rs"],
  [("queries each member and narrows the ray to the best distance so far", "PrimitiveList::intersect"),
   ("delegation in object space", "TransformedPrimitive::intersect")],
  state=[("primitives", "members in insertion order", "PrimitiveList in src/geometry/primitive.rs")],
  observe=["Option<IntersectionResult> returned by intersect"])

p("C07", "Occlusion query, nearest-hit query and ray extent agree",
  "For every object or scene and every ray, the occlusion query answers true exactly when the nearest-hit query returns a hit, and a returned distance lies between zero and the ray's extent. Shortening the extent below the reported distance never yields a hit at or beyond that distance, and any extent at or above it yields the same distance. This holds at every moment of a history of additions and queries, for nested and transformed members, and after queries cut short by a failing member.",
  ["histories", "inputs", "fault_sequences"],
  "every scene history, every ray and extent (zero, tiny, exactly the hit distance, huge), every failure of a member during any earlier query",
  "The occlusion query is never called by any test, and extents are only sampled around a few random values on single spheres and boxes.",
  ["src/geometry/primitive.rs", "src/geometry/sphere.rs", "src/geometry/bbox.rs"],
  [("both queries share one root finder per shape", "Sphere::intersect_ray, Bbox3::intersect_ray"),
   ("list short-circuits on the first member hit", "PrimitiveList::do_intersect")],
  observe=["do_intersect", "intersect"])

p("C08", "Bounding boxes cover everything an object can report",
  "At every moment of a history of building a scene, the bounding box of an object contains (up to rounding error proportional to the coordinates involved) every point at which the object reports a hit; the box of a list is exactly the smallest box containing its members' boxes, so adding never shrinks it and an empty list is neutral; and the box of an object moved by an affine transform contains the image of every point of the original's box and is no larger than needed for that. Taking the box of a box through a transform and back through its inverse never loses a point of the original. The six limits of an object are those of its box, also behind a handle.",
  ["histories", "inputs", "fault_sequences"],
  "every history of additions, nestings and affine transforms (rotation, shear, reflection, non-uniform scale, translation) over library and caller-supplied members, under every rounding schedule",
  "No test takes the box of a list or maps a box through any transform.",
  ["src/geometry/bbox.rs", "src/geometry/primitive.rs", "src/geometry/sphere.rs"],
  [("union over members", "PrimitiveList::bbox, Bbox3::union"), ("box-through-matrix by per-entry minima and maxima", "map_bbox"),
   ("sphere box from radius and height limits", "Sphere::bbox")],
  observe=["bbox()", "hit points"])

p("C09", "A transformed object answers like the moved original",
  "Asking a transformed object with a ray in world coordinates gives what the original would answer to the same ray carried into its own coordinates: the same hit or miss and the same distance, with the ray's extent passed on unchanged. The reported point, tangents and normal are the original's carried into world coordinates: the point lies at the reported distance along the caller's ray, the normal has unit length, is perpendicular to the tangents and stays on the side it was on, and the surface parameters are unchanged. This holds for any nesting of affine transforms (non-uniform scale and reflection included) around library and caller-supplied members, up to rounding error proportional to the magnitudes involved.",
  ["programs", "histories", "fault_sequences"],
  "every nesting of invertible affine transforms, every member reply (the member is a separate party the wrapper translates for), every rounding schedule",
  "No test wraps an object in a transform, and none maps a normal.",
  ["src/geometry/primitive.rs", "src/math/transform.rs", "src/geometry/ray.rs"],
  [("ray goes in through the inverse, reply comes out through the forward mapping", "TransformedPrimitive::intersect/do_intersect"),
   ("normals use the inverse transpose", "map_normal")],
  observe=["rays received by a member", "IntersectionResult returned to the caller"])

p("C10", "Answers never depend on history, interleaving or failed queries",
  "Every query of the library (ray intersection, occlusion, bounds, camera rays and disk samples, transform construction, composition and mapping, interval and vector functions) returns, bit for bit, the answer it gives as the only call of a fresh process. It does not matter which calls ran before on the same or other objects, which run concurrently on other threads sharing the objects, where inside the computation they are preempted, or whether earlier calls were aborted midway by a panic or a failed allocation. Objects that are only queried never change.",
  ["schedules", "histories", "crash_points", "fault_sequences"],
  "every interleaving, at the granularity of single arithmetic operations and member calls, of several threads querying shared objects; every history of earlier calls; every abort of a call at any arithmetic operation, member call or allocation",
  "Every test calls each function from one thread on fresh objects and never looks at the same object twice.",
  ["src/geometry/primitive.rs", "src/geometry/sphere.rs", "src/geometry/bbox.rs", "src/cameras/thin_lens.rs", "src/cameras/camera.rs", "src/math/transform.rs", "src/math/interval.rs", "src/math/interval_as_gfloat.rs"],
  [("queries take shared references, all values are plain data without interior mutability, no global state", "the whole crate")],
  observe=["bits of every returned value"], hook=FHOOK)

p("C11", "Scene building is all-or-nothing and releases every object exactly once",
  "Adding an object to a list either succeeds, after which the list contains everything it contained before plus the new object, or is interrupted (a failed memory allocation), after which the list contains and answers exactly what it did before and can still be used. Over the life of any set of nested lists, shared handles and wrapped objects, under any such failures and member panics, every object handed over is kept alive while any list or handle that contains it lives and is destroyed exactly once afterwards.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of additions, nestings, handle clones and drops with an allocation failure injected at any allocation the library makes, and member panics during queries",
  "No test builds a list, none makes an allocation fail, and none observes destruction.",
  ["src/geometry/primitive.rs"],
  [("the object is boxed before the member vector is touched; push is atomic with respect to growth failure", "PrimitiveList::add_primitive, alloc_primitive")],
  state=[("primitives", "owning vector of reference-counted members", "PrimitiveList")],
  observe=["destructor calls of members", "queries after the failure"], hook="none in the repository: the simulator supplies the process's allocator and allocation-error hook")

p("C12", "Transforms keep their meaning and their inverse through any history",
  "After any sequence of building transforms (identity, translation, scaling, rotation about x, y, z or an arbitrary axis by an angle, right-handed), composing and inverting them, mapping a point, vector, normal or ray through the result equals applying the factors one after another, the right-hand factor first; translation moves points but not vectors, rotation keeps lengths and the axis. Mapping there and back through the inverse returns the original, the stored inverse times the matrix is the identity, and the inverse of any well-conditioned 4x4 matrix times the matrix is the identity. All of this holds within an error bound that grows only with the number and magnitude of the factors, whichever neighbouring representable value each machine operation and math-library call returns.",
  ["histories", "programs", "fault_sequences"],
  "every history of constructions, compositions and inversions in single and double precision, and every rounding schedule",
  "Tests check single rotations in double precision and one product of integer matrices; translation, scaling, mixed compositions, stored inverses of composites, normals and the general matrix inverse are untested, and error growth under other roundings is never observed.",
  ["src/math/transform.rs", "src/math/transform_inverse_impl.rs", "src/geometry/ray.rs"],
  [("matrix and inverse are carried side by side; composition multiplies the inverses in the opposite order", "Mul for Transform, Invertible"),
   ("adjugate over determinant", "inverse_impl_adjugate"), ("Rodrigues formula", "Transform::rotate")],
  state=[("m, minv", "matrix and its inverse, kept in step", "Transform in src/math/transform.rs")],
  observe=["matrix()", "inverse_matrix()", "map", "map_inverse"])

p("C13", "Ray-sphere and ray-box answers are right under any rounding",
  "Whenever a ray hits a sphere (full, or limited in height and in sweep angle from -pi up to a maximum) or an axis-aligned box by more than the rounding error of the computation, the query reports the hit, and whenever it misses by more than that it reports none. The reported sphere hit is the first point along the ray, within the extent, that lies on the existing part of the surface, with an outward unit normal; the reported box interval is the part of the ray inside the box, clipped to the extent, and from outside the reported point and outward face normal are those of the entry face, and the reported tangents span that face. Distances and points are accurate to the conditioning of the problem, whichever neighbouring representable value each machine operation and math-library call returns.",
  ["inputs", "fault_sequences"],
  "every sphere, box and ray (un-normalised directions, origins inside, outside and behind, axis-parallel rays, distant and off-centre, small and large extents) and every rounding schedule, at the granularity of single machine operations",
  "Tests draw spheres with heights in the upper half only and check only distances, boxes only with hits between two faces, all in round-to-nearest; normals, points and face selection are never looked at.",
  ["src/geometry/sphere.rs", "src/geometry/bbox.rs"],
  [("cancellation-free quadratic roots", "solve_quadratic"), ("slab test", "Bbox3::intersect_ray"), ("nearest face by distance", "Bbox3::intersect")],
  observe=["IntersectionResult", "Bbox3::intersect_ray"], hook=FHOOK)

p("C14", "Thin-lens camera rays start on the lens and meet in the focal plane",
  "Every generated camera ray starts on the lens disk, has unit length (for a rigid view) and unlimited extent, and passes through the point of the focal plane that its film position selects; rays of the same film position through any lens samples meet in that one point, and the ray through the lens centre is the straight line from the film position through the centre. Film positions 0 and 1 lie at plus and minus half the field of view horizontally and scale vertically with the aspect ratio, upright, and the inverse of the view places the rays in the world. All of this holds within rounding error, whichever neighbouring representable value each machine operation and math-library call returns.",
  ["inputs", "fault_sequences", "configurations"],
  "every camera configuration (view, focus distance, field of view, focal length, lens radius, aspect), film and lens sample, and every rounding schedule",
  "The camera is not tested at all.",
  ["src/cameras/thin_lens.rs", "src/cameras/camera.rs"],
  [("the straight ray through the lens centre fixes the focus point", "ThinLensCamera::generate_ray"),
   ("concentric mapping of the sample square to the lens disk", "concentric_sample_disk")],
  observe=["origin, direction and extent of the generated ray"], hook=FHOOK)

p("C15", "View and projection transforms land points where they promise",
  "The look-at transform carries the eye to the origin, the target onto the negative z axis at its true distance, and the up direction into the upper half of the y-z plane, without changing any length or handedness; its inverse carries them back. The perspective transform carries the frustum between the near and far planes onto x and y in [-1, 1] and depth 0 at the near to 1 at the far plane, monotonically in depth, and its inverse carries them back. All within rounding error amplified by the conditioning of the arguments, whichever neighbouring representable value each machine operation and math-library call returns.",
  ["inputs", "fault_sequences"],
  "every eye, target and non-parallel up vector, every field of view and near/far pair, in single and double precision, and every rounding schedule",
  "Twenty random double-precision cases each, with eye and target inside the unit cube, in round-to-nearest; inverses and interior points are not checked.",
  ["src/math/transform.rs", "src/math/transform_inverse_impl.rs"],
  [("orthonormal basis from cross products", "Transform::look_at, init_from_orthogonal_basis"), ("projection matrix", "Transform::perspective")],
  observe=["map", "map_inverse"])

p("C16", "Square-to-disk maps are area-preserving and onto the unit disk",
  "Both mappings from the unit square to the unit disk send uniformly distributed samples to uniformly distributed points of the disk: every small cell of the square has an image of pi times its area, the image covers the whole disk up to its rim and never leaves it by more than rounding error. The polar one sends the second coordinate to the square root of itself as radius and the first to the full turn; the concentric one maps concentric squares to concentric circles of the same half-width, with the angle growing evenly along each side. This holds for every point of the square, its corners, edges, diagonals and centre included, whichever neighbouring representable value each machine operation and math-library call returns.",
  ["inputs", "fault_sequences"], "every point and small cell of the unit square and every rounding schedule of the operations inside, at the granularity of single machine operations",
  "Neither mapping is tested at all; a distribution statement needs the whole square, and the neighbourhood of its diagonals (where the branch taken depends on rounding) in particular.",
  ["src/cameras/camera.rs"], [("polar and concentric mappings", "uniform_sample_disk, concentric_sample_disk")],
  observe=["returned point"], hook=FHOOK)

p("C18", "Sphere surface parameters, tangents and area match the parameterisation",
  "The surface parameters (u, v) of a sphere hit lie in [0, 1] and equal the sweep angle of the hit point (from -pi to the sweep maximum) and its polar angle (from the lower to the upper height limit), each normalised to [0, 1]; the reported tangents are the partial derivatives of the point with respect to u and v; and the reported area is that of the existing part of the surface. A surface interaction that a caller makes from a point, parameters and two tangents keeps all four and has the unit normal along the cross product of the tangents. This holds for full spheres and spheres limited in height and sweep, on both hemispheres and both hit sides, away from the poles, whichever neighbouring representable value each machine operation and math-library call returns.",
  ["inputs", "fault_sequences"], "every sphere and hit point (heights in either hemisphere, any sweep maximum, hits from inside and outside) and every rounding schedule of the operations inside",
  "No test looks at surface parameters, tangents or area.",
  ["src/geometry/sphere.rs"], [("closed formulas for angles and derivatives", "Sphere::new, Sphere::intersect, Sphere::area")],
  observe=["SurfaceInteraction uv, dpdu, dpdv", "Sphere::area"], hook=FHOOK)

p("C19", "Box set operations, vector and matrix algebra obey their laws",
  "Box construction from two corners, union (also as sum), intersection, overlap (of boxes that do not merely touch), containment of points, limits, centre, diagonal and longest side are the set-theoretic ones; sums, differences, scaling, component-wise products and quotients, minimum and maximum, negation, dot and cross products, lengths, distances and normalisation of vectors, points and normals of 2, 3 and 4 components, the point of a ray at a parameter, their components by name and by index and conversions between the three kinds, and products, multiples, transposes, rows, columns and entries of 4x4 matrices are those of real vectors and matrices, exactly for integers and within the rounding error of the program so far for floats, through any sequence of such operations and whichever neighbouring representable value each machine operation returns.",
  ["programs", "inputs", "fault_sequences"], "every program of vector, matrix and box operations over single- and double-precision floats and integers, and every rounding schedule",
  "Tests cover a few vector identities on fixed values in round-to-nearest; box set operations and measures are not tested.",
  ["src/geometry/bbox.rs", "src/math/vector.rs", "src/math/vector_traits.rs", "src/math/transform.rs"], [("component-wise formulas", "Bbox3, GenericVector, Norm, Matrix4x4")],
  observe=["results of the operations"])

p("C17", "Number helpers and approximate equality hold under any rounding",
  "For every supported number type the minimum, maximum, ordered pair, clamp (to an ordered range), range test, sign tests, sign, absolute value, constants and limits, classification (finite, infinite, NaN) and conversions to and from integers, singles and doubles return what their names say, a conversion or a square or reciprocal being one of the two neighbours of the true value; intervals as a number type have the point constants and limits of their ends and step end by end. Square root, sine, cosine (alone and as a pair), tangent, arcsine, arccosine, arctangent and two-argument arctangent of plain numbers are the true value to within four units in the last place. Approximate equality of numbers, intervals, vectors, points, normals, matrices and transforms answers true whenever every pair of corresponding components differs by less than half the tolerance (1e-6 absolute, or 1e-4 of the larger magnitude in single and 1e-6 in double precision) and false whenever some pair, in whatever position, differs by more than twice both tolerances or is not a number; it is symmetric, exact for integers, and a number is only approximately equal to an interval that contains it. All of this holds whichever neighbouring representable value each machine operation returns.",
  ["inputs", "fault_sequences"], "every value of every supported number type, every position of a differing component, and every rounding schedule", "Approximate equality is the yardstick of the existing tests and never itself tested; the helpers are not tested directly, and no test runs under another rounding direction.",
  ["src/math/scalar.rs", "src/math/interval.rs", "src/math/vector.rs", "src/math/transform.rs"], [("trait defaults and per-type constants", "Scalar, SignedScalar, GFloat"), ("component-wise tolerant comparison", "AlmostEqual, GFloat::fequals")],
  observe=["return values"])

p("C20", "Every query finishes, whatever the numbers and the nesting",
  "Nearest-hit, occlusion and bounding-box queries of any scene of spheres (with ordered height limits), boxes, lists, moved objects and caller-supplied members come back without panicking or looping for ever, for every ray and every parameter: zero, subnormal, huge, infinite and NaN coordinates, directions, extents, radii, limits, box corners and placements included, and members that answer with such numbers. The same holds for building and composing affine transforms and mapping points, vectors, normals, rays and boxes through them, inverting and multiplying any matrices, look-at and perspective transforms, camera rays, disk samples, sphere areas, and box and vector operations. The work of one query is at most proportional to the number of objects below the queried one times the depth of the nesting: an object many levels deep is asked a bounded number of times per level, not a number of times that doubles with each level. All of this holds whichever neighbouring representable value each machine operation returns and after queries that were cut short.",
  ["inputs", "histories", "fault_sequences"], "every bit pattern of every number handed over, every nesting of lists and placements, every rounding schedule and earlier abort", "Tests use ordinary numbers and scenes of one object; a loop that does not end, a failed assertion or doubling work needs an odd number or deep nesting.",
  ["src/geometry/primitive.rs", "src/geometry/sphere.rs", "src/geometry/bbox.rs", "src/math/transform.rs", "src/cameras/camera.rs", "src/cameras/thin_lens.rs"], [("one pass over the members per level", "PrimitiveList, TransformedPrimitive"), ("closed formulas without iteration", "Sphere::intersect_ray, Bbox3::intersect_ray, Transform, ThinLensCamera")],
  observe=["return of the call", "number of machine operations and member calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in sorted(P, key=lambda x: x["id"]): f.write(json.dumps(x) + "\n")
print(len(P))
