#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is easy to review)."""
import json, os
P = []
SC = "finite coordinates of magnitude at most 1e6, up to floating-point rounding relative to the largest coordinate"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Every Bézier evaluation method returns the point of the curve",
  "For line segments, quadratic, cubic and generic Bézier curves with any number of control points and any dimension, and every t in [0,1], every evaluation method (direct, De Casteljau, per-axis sampling, the Spline trait) returns the point sum_i C(n,i) t^i (1-t)^(n-i) P_i. In particular t=0 gives the first and t=1 the last control point, and all the methods agree with one another ("+SC+").",
  ["inputs","configurations"], "all control polygons (coincident, collinear, closed, zero and mixed-scale points included), all t in [0,1], all degrees and dimensions",
  "The tests evaluate one fixed 2-D polygon per type and compare two of the library's own methods with each other; other degrees, dimensions, degenerate polygons and the axis samplers are never compared with the definition.",
  ["src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs","src/spline.rs"],
  [("eval / eval_casteljau / axis","src/cubic_bezier.rs"),("eval / eval_casteljau / axis","src/quadratic_bezier.rs"),("De Casteljau over a const-generic array","src/bezier.rs"),("eval / axis","src/line.rs")],
  ["return values of eval, eval_casteljau, axis, Spline::eval"], [("control points","the polygon that defines the curve","all curve structs")])

p("C02", "Splitting a curve yields two curves that retrace it exactly",
  "For every line segment, quadratic, cubic and generic Bézier curve and every t in [0,1], split(t) returns two curves of the same kind and degree with left(s) = curve(t*s) and right(s) = curve(t + (1-t)*s) for all s in [0,1]. Left starts at the curve's first control point, right ends at its last one, and left ends where right starts, at curve(t) ("+SC+").",
  ["inputs","histories"], "all curves, all split parameters including 0 and 1, and repeated splitting of the halves",
  "The tests split one polygon per curve type, only at t=0.5 (where several wrong formulas coincide with the right one), never split a line segment, and never split a result again.",
  ["src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs"],
  [("split","src/line.rs"),("unrolled De Casteljau split","src/quadratic_bezier.rs"),("unrolled De Casteljau split","src/cubic_bezier.rs"),("left/right arrays filled level by level","src/bezier.rs")],
  ["control points and evaluations of both halves"], [("left, right","control points of the halves","split in each curve file")])

p("C03", "Derivatives of Bézier curves are the true derivatives",
  "For every line segment, quadratic, cubic and generic Bézier curve with at least two control points, derivative() returns the curve (the vector, for a line) whose value at every t in [0,1] is the derivative of the original at t, with degree one lower. The direct derivative sampling of quadratic and cubic curves returns, for every t in [0,1] and every axis, that same component ("+SC+").",
  ["inputs","histories"], "all curves, all t in [0,1], all axes, and derivatives of derivatives",
  "No test calls derivative() or the direct derivative at all.",
  ["src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs"],
  [("derivative / dd","src/cubic_bezier.rs"),("derivative / dd","src/quadratic_bezier.rs"),("derivative","src/bezier.rs"),("derivative","src/line.rs")],
  ["control points and evaluations of the derivative curve","dd(t, axis)"])

p("C04", "Bounding boxes enclose the whole curve and are tight",
  "For every line segment, quadratic and cubic Bézier curve, bounding_box() gives for each axis a (min, max) pair such that every point of the curve with t in [0,1] lies between them, and both values are attained by points of the curve ("+SC+").",
  ["inputs","configurations"], "all curves: monotone axes, one or two interior extrema, extrema at the ends, axes whose polynomial degenerates to a lower degree exactly or nearly so, all dimensions",
  "The tests sample 101 points of one curve per type with a tolerance of 1e-2 and never test tightness, so oversized boxes, degenerate axes and near-degenerate polynomials are out of reach.",
  ["src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs"],
  [("bounding_box from the roots of the derivative","src/cubic_bezier.rs"),("real_roots of the quadratic derivative","src/quadratic_bezier.rs"),("root of the linear derivative","src/line.rs")],
  ["bounding_box()"], [("extrema","candidate values per axis","bounding_box")])

p("C05", "Distance from a point to a curve is never understated and is refined",
  "For every quadratic, cubic and generic Bézier curve and every point, distance_to_point is never smaller than the true minimum distance to the curve over t in [0,1], and never larger than the distance to any of the curve points at t = 0, 1/64, ..., 1 (both ends included). The fine pass works: the result is also not larger than the smallest distance at the parameters of spacing 1/4096 in [0,1] less than 1/128 away from the best of those 65 samples ("+SC+").",
  ["inputs"], "all curves and query points: on the curve, on its extension beyond an end, nearest to either end, nearest to the interior, equidistant",
  "The tests only compare the distances of two far-apart points to one curve with each other; no value is checked, so extrapolating past an end, skipping an end or never refining goes unnoticed.",
  ["src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs"],
  [("two-pass search","src/cubic_bezier.rs"),("two-pass search","src/quadratic_bezier.rs"),("two-pass search","src/bezier.rs")],
  ["distance_to_point"], [("tmin, dmin","best parameter and squared distance so far","distance_to_point")])

p("C06", "Distance from a point to a line segment is the exact minimum",
  "For every line segment and every point, the distance returned is the minimum Euclidean distance from the point to the segment: the perpendicular distance when the projection falls inside the segment, the distance to the nearer end otherwise, and the distance to the single point when both ends coincide ("+SC+", and up to 1e-7 for segments shorter than that).",
  ["inputs","configurations"], "all segments (zero length included) and points in any dimension, on either side of and between the ends",
  "The only test has an operator-precedence slip that makes its assertion nearly vacuous, and covers one segment and one point.",
  ["src/line.rs"], [("projection clamped to [0,1]","src/line.rs distance_to_point")], ["LineSegment::distance_to_point"])

p("C07", "Bézier arc length is the length of the full uniform polyline",
  "For every quadratic, cubic and generic Bézier curve and every nsteps >= 1, arclen(nsteps) is the total length of the polyline through the curve points at t = 0, 1/nsteps, 2/nsteps, ..., 1, covering the whole curve from its first to its last point. Hence it is never shorter than the distance between the end points and never longer than the control polygon ("+SC+").",
  ["inputs"], "all curves and all step counts, including 1 and counts that are not powers of two",
  "One test checks a circle with 1000 steps to 1e-2, which hides a missing or repeated piece.",
  ["src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs"],
  [("loop over nsteps","arclen in src/cubic_bezier.rs, src/quadratic_bezier.rs, src/bezier.rs")], ["arclen(nsteps)"])

p("C08", "Flatness and point tests classify curves by the stated tolerance",
  "For quadratic and cubic curves whose first and last control points differ by at least 1e-6, is_linear(tol) is true exactly when every inner control point lies within tol (inclusive) of the segment joining the ends, so that a curve called linear stays within tol of that segment everywhere; curves whose ends coincide are never called linear, and baseline() is the segment from first to last control point. is_a_point(tol) is true whenever all control points are within tol (inclusive, tol may be zero) of one another, and is false whenever some control point is more than 2*tol from the first one.",
  ["inputs"], "all curves and tolerances >= 0, including collinear control points beyond the ends, closed curves and tolerance zero",
  "No test calls is_linear, is_a_point or baseline.",
  ["src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs"],
  [("is_linear / are_points_colinear / is_a_point / baseline","src/quadratic_bezier.rs"),("is_linear / are_points_colinear / is_a_point / baseline","src/cubic_bezier.rs")],
  ["is_linear","is_a_point","baseline"])

p("C09", "B-spline construction accepts exactly the valid knot vectors",
  "Constructing a B-spline of degree D succeeds exactly when it has more than D control points, exactly (control points + D + 1) knots, and knots that never decrease and are not NaN. Otherwise it returns an error that names a rule that is really violated (too few control points, too few knots, too many knots, decreasing knots), and on success the curve stores the given knots and control points unchanged and in order.",
  ["inputs","configurations"], "all degrees, control point counts, knot counts and knot values, including repeated knots, a descent at any one position, and NaN at any position",
  "The tests construct eight valid splines and never an invalid one.",
  ["src/bspline.rs"], [("BSpline::new checks","src/bspline.rs")], ["BSpline::new","knots()","control_points()"])

p("C10", "A B-spline evaluates everywhere on its domain and nowhere else",
  "For every constructed B-spline of degree D with C control points and finite knots of magnitude at most 1e6, clamped or not at either end, knot_domain() is (knot number D, knot number C), counting from zero. eval(t) returns a point for every t in that closed interval, returns an error for every other t including NaN and infinities, and never panics, indexes out of range or fails to terminate.",
  ["inputs","configurations"], "all knot vectors (uniform, non-uniform, repeated interior knots, clamped at one, both or no ends), degrees 0 and up, all t",
  "The tests evaluate only fully clamped or uniform unclamped knot vectors on a grid, so splines clamped at one end and repeated knots are never reached, and eval results there are not inspected.",
  ["src/bspline.rs"], [("knot_domain*","src/bspline.rs"),("knot_span_start_for_t*","src/bspline.rs"),("eval range check","src/bspline.rs")], ["knot_domain()","eval(t) Ok/Err"],
  [("knots","knot vector","BSpline"),("knot_kind","clamped at which ends","BSpline")])

p("C11", "B-spline evaluation equals the Cox-de Boor sum",
  "For every B-spline of degree D whose knots repeat at most D times (once for D = 0), except that the first D+1 or last D+1 knots may coincide (a clamped end), with a non-empty domain, distinct knots at least 1e-6 apart and magnitudes at most 1e6, and every t in its domain, eval(t) is sum_i N_{i,D}(t) P_i with the Cox-de Boor basis functions, the last value being the limit from the left. So it depends only on the D+1 control points of the knot span of t, stays in their convex hull, starts (ends) at the first (last) control point exactly where that end is clamped, and reduces to the Bézier curve for a single clamped span ("+SC+").",
  ["inputs","configurations"], "all degrees, control polygons, valid knot vectors and t in the domain, including t at every knot and at both ends",
  "The tests compare values only at the two ends of clamped splines, where a special case returns the control point; no interior value is ever checked.",
  ["src/bspline.rs"], [("de_boor_iterative","src/bspline.rs"),("knot span search","src/bspline.rs")], ["eval(t)"], [("d[0..=D]","de Boor working points","de_boor_iterative")])

p("C12", "The derivative of a B-spline is a valid spline with the true slope",
  "For every B-spline of degree D >= 1 whose knots repeat at most D times, except that the first D+1 or last D+1 knots may coincide (a clamped end), with a non-empty domain and distinct knots at least 1e-6 apart, derivative() is a B-spline of degree D-1 with one control point fewer and a matching knot vector, on the same domain. Its value at every t in the domain is the derivative of the original at t (the right-hand one at a break, the left-hand one at the domain's end), also when applied repeatedly as long as the condition holds ("+SC+").",
  ["inputs","histories","configurations"], "all degrees, knot vectors and t in the domain, and chains of derivatives",
  "No test calls the B-spline derivative; its documentation says 'TODO test & verify!'.",
  ["src/bspline.rs"], [("derivative control points and knots","src/bspline.rs")], ["derivative()","its eval, knots, control_points, knot_domain"])

p("C13", "B-spline arc length is the length of the polyline over its domain",
  "For every B-spline of degree D >= 1 as in C11 (knots repeat at most D times except at clamped ends, non-empty domain, distinct knots at least 1e-6 apart) and every nsteps >= 1, arclen(nsteps) is the total length of the polyline through the nsteps+1 curve points at parameters spaced uniformly over the knot domain, from its start to its end inclusive ("+SC+"). Points outside the curve never contribute.",
  ["inputs","configurations"], "all splines (any domain start and length, clamped or not) and step counts",
  "No test calls the B-spline arc length.",
  ["src/bspline.rs"], [("arclen","src/bspline.rs")], ["BSpline::arclen(nsteps)"])

p("C14", "Points form a vector space over all their coordinates",
  "For points of every dimension, addition and subtraction of points or scalars and multiplication by a scalar act on every coordinate independently, two points are equal exactly when all coordinates are equal, the default is the origin, iteration (by value or by mutable reference) visits all coordinates once in axis order, axis(i) is the i-th coordinate and panics when i is out of range, and the squared length is the sum of the squares of all coordinates.",
  ["inputs","configurations"], "all dimensions and coordinate values, including values that differ in a single, possibly last, coordinate, signed zeros and integer element types",
  "The tests use these operators only indirectly, in two or three dimensions, and never look at a single coordinate of a result.",
  ["src/point_generic.rs","src/point.rs"], [("operator impls on PointN","src/point_generic.rs")], ["PointN operators, axis, squared_length, iterators"])

p("C15", "A Bézier segment behaves as the curve it wraps",
  "For every line, quadratic or cubic curve wrapped as a Bézier segment, start, end, eval, baseline, is_linear and split give the same results as the wrapped curve (a wrapped line is always linear and is its own baseline). Splitting yields two segments of the same kind that wrap the halves of the wrapped curve, in order ("+SC+").",
  ["inputs","histories"], "all wrapped curves, parameters and tolerances, and repeated splits",
  "No test uses the segment type.",
  ["src/bezier_segment.rs"], [("match delegation, From impls","src/bezier_segment.rs")], ["BezierSegment API"])

p("C16", "Curves work the same over any conforming point and scalar type",
  "Every curve operation (evaluation, splitting, derivatives, bounding boxes, distances, arc lengths, flatness tests, B-splines) gives the same results over a user-defined type that implements the Point trait (a vector space whose default is the origin) as over the built-in point, in every dimension, including when the user's scalar is not the native float type ("+SC+").",
  ["inputs","configurations"], "all curves and operations over user-defined point types with their own storage and scalar type",
  "The tests only ever instantiate the built-in point over f64.",
  ["src/point.rs","src/bezier.rs","src/bspline.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs","src/bezier_segment.rs"],
  [("Point trait bounds","src/point.rs"),("generic impl blocks","all curve files")], ["every public operation, through a foreign Point implementation"])

p("C17", "No operation allocates, and none panics on finite inputs",
  "No library call allocates heap memory, on success or on error, and no call panics or fails to terminate for finite inputs of magnitude at most 1e6 with parameters in [0,1] (any parameter for B-splines), nsteps >= 1 and axis indices below the dimension.",
  ["inputs","histories"], "all operations on all curves, degenerate ones included (derivatives need two control points)",
  "The tests cannot observe allocation, and they exercise few degenerate inputs, where index arithmetic and unwrap() are at risk.",
  ["src/lib.rs","src/bspline.rs","src/bezier.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs","src/point_generic.rs"],
  [("#![no_std], fixed-size arrays and ArrayVec","src/lib.rs"),("unwrap and index arithmetic","all curve files")], ["allocation counter and panic capture around each call"])

p("C18", "A curve is exactly its control points, before and after mutation",
  "Constructors keep the given control points (and knots) bit for bit and in order, the accessors and by-value iterators return all of them in that order, and none of the evaluating, splitting, measuring or deriving operations changes the curve. Writing control points through a generic Bézier curve's mutable iteration reaches every control point in order, and every later operation behaves as on a curve newly built from the new points.",
  ["inputs","histories"], "all curves, and all sequences of mutations, splits, derivatives and queries",
  "No test uses an accessor or iterator of a curve, nor mutates one.",
  ["src/bezier.rs","src/bspline.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs"],
  [("control_points, knots, IntoIterator impls","src/bezier.rs, src/bspline.rs")], ["control_points(), knots(), into_iter(), iter_mut"])

p("C19", "Operations compose, and all representations of a curve agree",
  "Any sequence of splits and derivatives yields the curve that the same sequence of exact polynomial operations yields; in particular the derivative of a part is the part of the derivative scaled by the part's parameter length. A curve expressed as a line or quadratic, degree-elevated to a cubic, as a generic Bézier curve of the same control points, or as a single-span clamped B-spline gives the same evaluations, splits, derivatives, distances (to the search's resolution), boxes and lengths ("+SC+").",
  ["inputs","histories"], "all curves, all operation sequences (bounded depth in the checks), all pairs of representations",
  "The tests compare generic and specialised evaluation of two polygons only, and never apply one operation to the result of another.",
  ["src/bezier.rs","src/bspline.rs","src/cubic_bezier.rs","src/quadratic_bezier.rs","src/line.rs"],
  [("split / derivative / eval of every type","src")], ["control points and evaluations after each step"])

p("C20", "Curves are values: comparison and copies",
  "Two line segments, two quadratic or two cubic curves compare equal (==) exactly when all corresponding control points are equal, two Bézier segments exactly when they are of the same kind and wrap equal curves; != is the negation of ==, comparison is symmetric, and a curve with finite coordinates equals itself. A copy or clone of any curve, generic Bézier curves and B-splines included, has the same control points and knots and gives in every operation the same results as the original, and writing through one leaves the other unchanged.",
  ["inputs","histories"], "all pairs of curves, in particular ones that differ in one coordinate of one control point, and all curves and operations on their copies",
  "The tests compare and clone no curve.",
  ["src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier_segment.rs","src/bezier.rs","src/bspline.rs","src/point_generic.rs"],
  [("PartialEq, Clone and Copy of the curves","all curve files")], ["==, !=, clone() of curves"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
