#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, text, tests, files, mech, over=("inputs",), observe=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": tests,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or ["public API return values"], "hook_needed": None}})
M, Q, B = "lib/mat.rs", "lib/quat.rs", "lib/bound.rs"
V = "all finite inputs (exact real semantics of the float operations; rounding and overflow excluded), "

prop("C01", "Matrix values do not depend on the storage layout",
  "For Mat3 and Mat4 over f32 and f64, a matrix initialised from its entries listed row by row answers index(m,n) with exactly the entry of row m and column n, whichever storage layout was requested, and records the requested layout. Writing through index_mut(m,n) changes exactly that entry; trace is the sum of the diagonal; iden() is the identity and default() the zero matrix; size is the number of entries.",
  V + "both layouts, every index pair, both element types",
  "Tests use one 0..n pattern and check a product or the raw storage of one layout.",
  [M], [("Mat3::init/index/index_mut/trace/iden", M), ("Mat4::init/index/index_mut/trace/iden", M)], ("inputs", "configurations"))
prop("C02", "Matrix products are the linear-algebra products in every layout",
  "For operands of the same storage layout Mat3::mul and Mat4::mul give sum_k a(i,k)*b(k,j) at every (i,j), in that layout; mul_mat3x1, mul_mat4x1, Mat1x3::mul_mat3x3 and Mat1x4::mul_mat4x4 are the corresponding matrix-vector and vector-matrix products for either layout of the matrix. This holds up to floating-point rounding for f32 and f64.",
  V + "both layouts, f32 and f64",
  "A handful of 0..n patterns, mostly row-major, mostly f64.",
  [M], [("Mat3::mul, mul_mat3x1", M), ("Mat4::mul, mul_mat4x1", M), ("Mat1x3::mul_mat3x3, Mat1x4::mul_mat4x4", M)], ("inputs", "configurations"))
prop("C03", "Element-wise matrix and vector operations act on every element",
  "For every matrix and vector shape (2x1,1x2,3x1,1x3,4x1,1x4,3x3,4x4) over f32 and f64, plus, minus, mul_elem, div and scale give, at every position, the sum, difference, product, quotient and scaled value of the operand elements at that position, and square results keep the left operand's layout. normalize of Mat3/Mat4 divides every element by the last one (row 3/4, last column), so the last element becomes 1.",
  V + "operands of the same layout; divisors and the last element nonzero",
  "Tests use constant-filled operands, so a swapped or repeated index passes.",
  [M], [("plus/minus/mul_elem/div/scale/normalize of the eight shapes", M)], ("inputs", "configurations"))
prop("C04", "Vector dot, cross, magnitude and normalize obey their definitions",
  "For every vector shape over f32 and f64 dot is the sum of element products, magnitude is the Euclidean length, and normalize of a nonzero vector is the parallel vector of length 1. cross of 3-vectors is the right-handed cross product: orthogonal to both operands, anti-symmetric, with squared length |a|^2|b|^2-(a.b)^2; cross of vectors of any other size is None.",
  V + "normalize: every nonzero vector, of any length",
  "A few fixed vectors.", [M], [("dot/cross/magnitude/normalize of the six vector shapes", M)])
prop("C05", "Transposition is an exact involution in every layout",
  "For Mat3 and Mat4 transpose(m) has m(j,i) at (i,j) and the same layout, transposing twice restores m, and transpose_self does in place exactly what transpose returns. Transposing a column vector gives the row vector with the same elements and back; submat_mat3 of a Mat4 is the 3x3 matrix of entries (i,j), i,j<3, in the same layout.",
  V + "both layouts, f32 and f64", "Row-major 0..n patterns only.",
  [M], [("transpose, transpose_self, submat_mat3", M)], ("inputs", "configurations"))
prop("C06", "Mat3::inverse inverts every non-singular matrix",
  "For a Mat3 of either layout whose determinant is not close to zero (|det| at least 1e-9), inverse returns a matrix in the same layout which multiplied with the original on either side gives the identity, up to rounding. For a singular matrix (determinant 0) it returns None, and whether it returns a value depends only on the magnitude of the determinant, not on its sign.",
  V + "both layouts, f32 and f64, |det| >= 1e-9 or det = 0", "No test covers inverse.",
  [M], [("Mat3::inverse", M)], ("inputs", "configurations"))
prop("C07", "Mat4::inverse inverts every non-singular matrix",
  "For a Mat4 of either layout whose determinant is not close to zero (larger in magnitude than the element type's epsilon) inverse returns a matrix in the same layout which multiplied with the original on either side gives the identity, up to rounding. For a singular matrix (determinant 0) it returns None.",
  V + "both layouts, f32 and f64", "No test covers inverse.",
  [M], [("Mat4::inverse", M)], ("inputs", "configurations"))
prop("C08", "is_equal is a two-sided per-element tolerance comparison",
  "is_equal(a,b,e) with e>=0 is Some(true) exactly when every element of a is within e (inclusive) of the element of b at the same position and, for Mat3/Mat4, the layouts agree; otherwise it is Some(false); differences that the rounding of b+-e can hide do not count. A NaN in any compared element makes it Some(false), and every finite value equals itself for every e>=0.",
  "all operands of the eight shapes, f32 and f64, e>=0; ideal reals for the threshold, all bit patterns for the NaN and reflexivity parts",
  "Tests compare constant-filled operands, so an unchecked element or a one-sided test passes.",
  [M, "lib/i_comparable.rs"], [("IComparableError::is_equal of the eight shapes", M)])
prop("C09", "Quaternion multiplication is the Hamilton product",
  "mul is the Hamilton product (i*j=k, j*k=i, k*i=j, i^2=j^2=k^2=-1, (x,y,z) the vector part and w the scalar part): it is associative, has the default/init quaternion as two-sided identity, and |p*q|^2=|p|^2|q|^2. add, minus, scale, negate and conjugate are component-wise (conjugate negates exactly the vector part), and conjugate reverses products.",
  V + "f32 and f64", "One multiplication example.", [Q], [("Quat::mul/add/minus/scale/negate/conjugate/init", Q)])
prop("C10", "Quaternion norm, normalize and inverse agree",
  "length_squared is x^2+y^2+z^2+w^2 and length its square root; normalize and init_from_vals_normalize of a nonzero quaternion give the parallel quaternion of length 1; inverse of a nonzero quaternion gives q with q*inverse(q)=inverse(q)*q=(0,0,0,1). All of this holds up to rounding for f32 and f64 and for quaternions of any nonzero length.",
  V + "nonzero quaternions, f32 and f64", "Unit or single-example inputs only.", [Q], [("Quat::length/length_squared/normalize/inverse", Q)])
prop("C11", "rotate_vector and to_rotation_matrix are the same rotation",
  "For a unit quaternion q, rotate_vector(p) is the vector part of q*p*conj(q), and multiplying p (as a homogeneous vector) by to_rotation_matrix gives the same vector whichever layout is requested. The matrix is orthonormal with determinant 1, its last row and column are (0,0,0,1), rotation preserves lengths and dot products, and rotating by p then q equals rotating by the product q*p.",
  V + "every unit quaternion (parametrised as v/|v|), both layouts, f32 and f64", "One quarter turn about one axis, row-major only.",
  [Q, M], [("Quat::rotate_vector", Q), ("Quat::to_rotation_matrix", Q)], ("inputs", "configurations"))
prop("C12", "Axis-angle conversion produces and recovers rotations",
  "init_from_axis_angle_radian(axis,theta) with a nonzero axis of any length is (sin(theta/2)*axis/|axis|, cos(theta/2)), a unit quaternion, and init_from_axis_angle_degree(axis,d) is the same quaternion at theta=d*pi/180. Rotating with it keeps the axis fixed and turns by theta, and to_axis_angle of a unit quaternion that is not (close to) a multiple of the identity returns a unit axis and an angle from which the same quaternion is rebuilt.",
  V + "all nonzero axes and all angles; trigonometric functions axiomatised", "Two fixed rotations.",
  [Q], [("init_from_axis_angle_radian/degree", Q), ("to_axis_angle", Q)])
prop("C13", "Quaternion plane operations reflect and project",
  "For a pure unit quaternion n (w=0, the plane normal), reflection_in_plane(p) is p-2(n.p)n, parallel_component_of_plane(p) is p-(n.p)n and orthogonal_component_of_plane(p) is (n.p)n. Hence reflecting twice is the identity, the two components add up to p, and both are orthogonal to each other.",
  V + "every unit normal (parametrised as v/|v|) and vector, f32 and f64", "One plane, few vectors.",
  [Q], [("reflection_in_plane, parallel_component_of_plane, orthogonal_component_of_plane", Q)])
prop("C14", "Linear interpolation is affine and clamped",
  "interpolate_linear(a,b,t) is (1-t)*a+t*b component-wise for t in [0,1], a for t<=0 and b for t>=1. It therefore never extrapolates, for any t.",
  V + "f32 and f64, every t", "Fixed t values.", [Q], [("interpolate_linear", Q)])
prop("C15", "Slerp follows the shorter great arc at constant speed and clamps",
  "For unit quaternions a and b, interpolate_slerp(a,b,t) with t clamped to [0,1] is the point at fraction t of the shorter great arc from a to b (to -b when a.b<0): it is a unit quaternion, makes angle t*omega with a, equals a at t=0 and b or -b at t=1. When |a.b|>0.9999 it is the linear interpolation of a and that end point instead.",
  V + "all unit quaternion pairs, all t, f32 and f64; sin/cos/atan2 axiomatised", "Two orthogonal-ish fixed inputs with positive dot product.",
  [Q], [("interpolate_slerp", Q)])
prop("C16", "Quaternion ln and pow are the analytic logarithm and power",
  "For a quaternion q with nonzero vector part v, scalar part w and length l, ln(q) is (v/|v|*acos(w/l), ln l) and pow(q,t) is l^t*(v/|v|*sin(t*acos(w/l)), cos(t*acos(w/l))). Consequently pow(q,0)=1, pow(q,1)=q, pow(q,2)=q*q, pow(q,s)*pow(q,t)=pow(q,s+t), and the power of a unit quaternion is a unit quaternion.",
  V + "f32 and f64; sin/cos/acos/ln/pow axiomatised", "One pow example; ln untested.", [Q], [("Quat::ln, Quat::pow", Q)])
prop("C17", "Quaternion construction helpers produce the documented values",
  "init_from_vals_raw and DualQuat::init keep every component; init_from_vals_auto_w(x,y,z) with x^2+y^2+z^2<=1 keeps x,y,z and yields the unit quaternion with w<=0. init_from_translation(t) is (t/2,0); to_translation_matrix is, in either requested layout, the same homogeneous matrix mapping (p,1) to (p+(x,y,z),1).",
  V + "both layouts, f32 and f64", "Not tested (except raw construction).",
  [Q, "lib/dualquat.rs"], [("init_from_vals_raw/auto_w, init_from_translation, to_translation_matrix", Q), ("DualQuat::init", "lib/dualquat.rs")], ("inputs", "configurations"))
prop("C18", "Every shape's bounding box is the tight enclosing box",
  "Point, Sphere, RecBox, Line3 and TriPrism constructors produce a bound whose lower/upper corners are exactly the componentwise minimum/maximum of the shape (up to rounding). A Ray's bound extends from the origin to infinity on axes along which the direction is nonzero, on the side of its sign, and is degenerate otherwise; a Plane's bound is all of space, and so is the default bound.",
  V + "shapes with nonnegative radius/size, any orientation of line and prism", "A single bound pair is compared for overlap; no constructor bound is checked.",
  [B, "lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs"],
  [("AxisAlignedBBox::init", B), ("Line3::init", "lib/line.rs"), ("TriPrism::init", "lib/triprism.rs")])
prop("C19", "Bounding boxes intersect exactly when the closed intervals overlap",
  "For two axis-aligned boxes with non-NaN (possibly infinite) corners, intersect is true exactly when on every axis neither lower corner exceeds the other's upper corner; touching counts as intersecting and the relation is symmetric. get_bound_data reports the lower corner in positions 0..3, the upper corner in 3..6 and zeros after.",
  "all bit patterns of the corners except NaN, including infinities (bit-precise)", "Three box pairs.", [B], [("AxisAlignedBBox::intersect, get_bound_data", B)])
prop("C20", "The union of bounds is the smallest box containing all of them",
  "After get_union over a list of axis-aligned boxes, the receiver's lower corner is the componentwise minimum of their lower corners and its upper corner the maximum of their upper corners, independent of the receiver's previous value and of the order of the list. The union of no boxes is the empty box (+inf lower, -inf upper).",
  "lists of 0 to 4 boxes, non-NaN corners", "One union of two fixed boxes.", [B], [("AxisAlignedBBox::get_union", B)], ("inputs", "histories"))
prop("C21", "Box centroid and longest axis are right",
  "get_centroid is the midpoint of the lower and upper corner on each axis. get_longest_axis returns an axis whose extent (upper minus lower) is the largest of the three, together with that extent.",
  V + "boxes with finite corners", "One box whose longest axis is not distinguished.", [B], [("AxisAlignedBBox::get_centroid, get_longest_axis", B)])
prop("C22", "within_vicinity is the symmetric closed tolerance test",
  "For each of the seven shapes within_vicinity(a,b) is true exactly when |a-b| is at most the tolerance (up to the rounding of the comparison), which is 1e-6 after construction and the absolute value of the argument after set_vicinity. NaN arguments are never within vicinity, and every finite value is within vicinity of itself.",
  "all a, b and tolerances (ideal reals for the threshold; all bit patterns for the NaN and reflexivity parts)", "Not tested directly.",
  ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs", "lib/i_vicinity.rs"], [("IVicinity impls", "lib/*.rs")])
prop("C23", "Point-point intersection is coordinatewise coincidence within tolerance",
  "Two points intersect exactly when on every axis their coordinates differ by at most the first point's vicinity tolerance. The reported location is then the first point.",
  V + "every tolerance", "Two examples, neither inside the tolerance but unequal.", ["lib/point.rs"], [("Point3::get_intersect", "lib/point.rs")])
prop("C24", "Ray-point intersection is membership in the half-line",
  "A ray hits a point lying exactly on it, origin included, for every direction including axis-parallel ones, and reports that point. It misses points behind the origin and points whose distance from the line clearly exceeds the tolerance (more than 1e-3, for points within 100 of the origin).",
  V + "every ray; hit side: points o+t*d with t>=0; miss side: as stated", "Three rays.", ["lib/ray.rs", B], [("Ray3::get_intersect, Point arm", "lib/ray.rs")])
prop("C25", "Ray-ray intersection is the meeting of two half-lines",
  "Two rays whose half-lines cross in one point clearly ahead of both origins (or, for axis-parallel rays, exactly at one of them) intersect and report that crossing point, when the directions are clearly not parallel. Rays that are skew, or whose lines cross only behind one of the origins, do not intersect; parallel rays on distinct lines do not intersect, and collinear rays where one starts on the other intersect at a point on both.",
  V + "rays with unit-normalised directions, |cross product of directions| >= 1e-3 for the crossing/skew cases", "Few fixed pairs, no skew pair.", ["lib/ray.rs"], [("Ray3::get_intersect, Ray arm", "lib/ray.rs")])
prop("C26", "Ray-sphere intersection is exact and reports the first hit",
  "A ray and a sphere intersect exactly when some point of the half-line is at distance at most the radius from the centre, including when the origin is inside the sphere. The reported point lies on the ray and on the sphere surface, and is the first such point along the ray (the exit point when the origin is inside).",
  V + "every ray, every radius > 0", "Four fixed rays.", ["lib/ray.rs", B], [("Ray3::get_intersect, Sphere arm", "lib/ray.rs")])
prop("C27", "Ray-plane intersection reports the front-face hit",
  "A ray whose direction opposes the plane normal and whose origin is not behind the plane intersects at the unique point of the ray lying on the plane. A ray going along the normal, or starting behind the plane, does not intersect, and a ray parallel to the plane intersects exactly when its origin is on the plane, at its origin.",
  V + "every ray and plane (normals of any nonzero length)", "Few fixed axis-aligned planes.", ["lib/ray.rs", "lib/plane.rs"], [("Ray3::get_intersect, Plane arm", "lib/ray.rs")])
prop("C28", "Sphere-sphere intersection is centre distance against radius sum",
  "Two spheres intersect exactly when their centres are at most the sum of the radii apart (touching counts). The reported point lies on the segment between the centres, at fraction r1/(r1+r2) from the first centre, and inside both spheres.",
  V + "radii >= 0, not both 0", "A few axis-aligned examples.", ["lib/sphere.rs"], [("Sphere::get_intersect, Sphere arm", "lib/sphere.rs")])
prop("C29", "Sphere-point intersection is distance against radius",
  "A sphere and a point intersect exactly when the point's distance from the centre is at most the radius. The reported location is the point.",
  V + "radius >= 0", "Points on coordinate axes only.", ["lib/sphere.rs"], [("Sphere::get_intersect, Point arm", "lib/sphere.rs")])
prop("C30", "Sphere-plane intersection is centre-plane distance against radius",
  "A sphere and a plane intersect exactly when the centre's distance from the plane is at most the radius, on whichever side of the plane the centre lies. The reported point is the orthogonal projection of the centre onto the plane, so it lies on the plane and inside the sphere.",
  V + "radius >= 0, normals of any nonzero length", "Spheres on one side only.", ["lib/sphere.rs"], [("Sphere::get_intersect, Plane arm", "lib/sphere.rs")])
prop("C31", "Plane-point intersection is distance within tolerance",
  "A plane and a point intersect exactly when the point's distance from the plane is at most the plane's vicinity tolerance. The reported location is the point.",
  V + "every tolerance, normals of any nonzero length", "Two examples.", ["lib/plane.rs"], [("Plane::get_intersect, Point arm", "lib/plane.rs")])
prop("C32", "Box-point intersection is closed containment",
  "A box and a point intersect exactly when on every axis the point's coordinate differs from the centre's by at most the half edge length. The reported location is the point.",
  V + "half edge >= 0", "Few fixed points.", ["lib/rbox.rs", B], [("RecBox::get_intersect", "lib/rbox.rs")])
prop("C33", "Prism-point intersection is closed containment in the prism",
  "For a prism with a counter-clockwise non-degenerate base and positive height, a point intersects it exactly when its projection lies in the base triangle (boundary included) and its height above the base is between 0 and the prism height. The reported location is the point.",
  V + "prisms: fully symbolic base and height where the solver closes, otherwise the base family stated in the check", "One prism, two points.", ["lib/triprism.rs"], [("TriPrism::get_intersect, Point arm", "lib/triprism.rs"), ("TriPrism::init", "lib/triprism.rs")])
prop("C34", "Prism-line intersection is segment-solid overlap",
  "A segment with an end point inside the prism intersects it and reports an end point that is inside. A segment with both end points outside intersects exactly when it passes through the prism, the reported point then lying on the segment and on the prism boundary (near an edge, up to the crate's vicinity tolerance), and a zero-length segment behaves like its point (never a NaN location).",
  V + "concrete prism families stated in the check, all segments", "Three segments against one prism.", ["lib/triprism.rs", "lib/ray.rs", "lib/plane.rs"], [("TriPrism::get_intersect, Line arm", "lib/triprism.rs")])
prop("C35", "Intersection queries give the same answer in either order",
  "For every supported pair of different shapes a.get_intersect(b) and b.get_intersect(a) return the same hit flag and the same location; for sphere-sphere and point-point (equal tolerances) the hit flag is the same in either order. Every answer is either a hit with a location or a miss without one.",
  V + "ray-point, ray-sphere, ray-plane, sphere-point, sphere-plane, plane-point, box-point, prism-point, prism-line, sphere-sphere, point-point", "Only one order per pair is tested.",
  ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs"], [("get_intersect dispatch", "lib/*.rs")], ("inputs", "programs"))
prop("C36", "Support points are members that maximise the direction",
  "get_support(v) of a sphere, box or prism for a nonzero v is a point of the shape whose dot product with v is at least that of every other point of the shape; it is None exactly for the zero vector. A point's support is the point itself, and rays and planes have no support.",
  V + "radius/size >= 0; direction of any nonzero length", "Four box and sphere directions.", ["lib/sphere.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/point.rs", "lib/ray.rs", "lib/plane.rs"], [("get_support impls", "lib/*.rs")])
prop("C37", "GJK query agrees with sphere overlap",
  "For two spheres with positive radii the GJK query answers Some(true) when the centres are strictly closer than the sum of the radii, and Some(false) when they are strictly farther apart. It does so in either argument order.",
  "all sphere pairs (ideal reals), up to the separation margins and directions stated in the check", "Four axis-aligned pairs.", ["lib/intersect_gjk.rs", "lib/sphere.rs"], [("query_intersect", "lib/intersect_gjk.rs")])
prop("C38", "Shapes report the data they were built from",
  "get_shape_data lists, in order, the constructor's data: origin (point), origin and unit direction (ray), centre and radius (sphere), offset and unit normal (plane), centre and half edge (box), the two end points (line), the three base vertices and the height vector (prism: unit base normal by the right-hand rule times height, which is also the offset of the second base). get_type identifies the shape, and get_bound is the shape's own bound.",
  V + "nonzero directions, normals and base areas", "Only indirectly tested.", ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs"], [("init/get_shape_data/get_type/get_bound", "lib/*.rs")])
prop("C39", "Spherical bounds support the bound operations",
  "A spherical bound answers intersect, shortest separation, bound data, union and centroid queries consistently with the sphere it encloses.",
  "all spheres", "Not tested.", ["lib/bound_sphere.rs", "lib/i_bound.rs"], [("BoundSphere", "lib/bound_sphere.rs")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
