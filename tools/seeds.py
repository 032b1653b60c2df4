#!/usr/bin/env python3
"""Planted bugs: definitions, and the script that (re)creates /verif/seeded/<id>/ from them.
   seeds.py make [id..]    write the folders, confirm in a scratch copy that each bug builds, passes
                           the repository's tests, and that its demo passes / fails as it must
   seeds.py check [id|Cxx ..]   apply each bug to a scratch copy, run the check of its property there
No check reads this file or /verif/seeded."""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
B = []


def bug(id, prop, file, old, new, needs, breaks, demo, more=()):
    B.append(dict(id=id, prop=prop, edits=[(file, old, new), *more], needs=needs, breaks=breaks, demo=demo))


PRELUDE = r'''#![allow(incomplete_features, unused)]
#![feature(generic_const_exprs)]
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::*;
type P1 = PointN<f64, 1>;
type P2 = PointN<f64, 2>;
type P3 = PointN<f64, 3>;
fn p1(x: f64) -> P1 { PointN::new([x]) }
fn p2(x: f64, y: f64) -> P2 { PointN::new([x, y]) }
fn p3(x: f64, y: f64, z: f64) -> P3 { PointN::new([x, y, z]) }
/// de Casteljau on plain numbers
fn bez(c: &[f64], t: f64) -> f64 {
    let mut v = c.to_vec();
    for n in (1..v.len()).rev() { for i in 0..n { v[i] = v[i] * (1.0 - t) + v[i + 1] * t; } }
    v[0]
}
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
fn want(a: f64, b: f64, what: &str) { assert!(close(a, b), "{what}: {a} instead of {b}"); }
/// Cox-de Boor sum on plain numbers (t inside the domain, not its end)
fn cox(k: &[f64], c: &[f64], d: usize, t: f64) -> f64 {
    fn n(k: &[f64], i: usize, d: usize, t: f64) -> f64 {
        if d == 0 { return if k[i] <= t && t < k[i + 1] { 1.0 } else { 0.0 }; }
        let mut s = 0.0;
        if k[i + d] > k[i] { s += (t - k[i]) / (k[i + d] - k[i]) * n(k, i, d - 1, t); }
        if k[i + d + 1] > k[i + 1] { s += (k[i + d + 1] - t) / (k[i + d + 1] - k[i + 1]) * n(k, i + 1, d - 1, t); }
        s
    }
    (0..c.len()).map(|i| n(k, i, d, t) * c[i]).sum()
}
'''

# ------------------------------------------------------------------------------------------ C01
bug("c01-degree-cap", "C01", "src/bezier.rs",
    "        for i in 1..=p.len() {\n            for j in 0..p.len() - i {\n                p[j] = ",
    "        let levels = p.len().min(9);\n        for i in 1..=levels {\n            for j in 0..p.len() - i {\n                p[j] = ",
    "a generic Bézier curve with at least eleven control points",
    "De Casteljau stops after nine levels, so curves of degree ten and more evaluate to a point of an intermediate level",
    r'''fn main() {
    let c: Vec<f64> = (0..12).map(|i| (i * i % 7) as f64).collect();
    let b: Bezier<P1, 12> = Bezier::new(core::array::from_fn(|i| p1(c[i])));
    want(b.eval(0.3).axis(0), bez(&c, 0.3), "eval");
}''')
bug("c01-quad-axis-third", "C01", "src/quadratic_bezier.rs",
    "            + self.ctrl.axis(axis) * 2.0 * one_t * t\n",
    "            + self.ctrl.axis(axis.min(1)) * 2.0 * one_t * t\n",
    "axis sampling of a quadratic on its third or a later axis",
    "QuadraticBezier::axis uses the second coordinate of the control point for every later axis",
    r'''fn main() {
    let q = QuadraticBezier::new(p3(0., 1., 2.), p3(3., -1., 7.), p3(5., 5., 5.));
    for a in 0..3 { want(q.axis(0.25, a), q.eval(0.25).axis(a), "axis"); }
}''')
bug("c01-trait-end-clamp", "C01", "src/bezier.rs",
    "    fn eval(&self, t: P::Scalar) -> P {\n        self.eval(t)\n    }\n}\n\nimpl<P: Point, const N: usize> IntoIterator for Bezier",
    "    fn eval(&self, t: P::Scalar) -> P {\n        // keep t inside the half open parameter interval\n        self.eval(t.min((1.0 - 1e-4).into()))\n    }\n}\n\nimpl<P: Point, const N: usize> IntoIterator for Bezier",
    "the Spline trait's eval with t within 1e-4 of one",
    "through the Spline trait a Bézier curve never reaches its last control point",
    r'''fn main() {
    let b: Bezier<P1, 3> = Bezier::new([p1(0.), p1(2.), p1(10.)]);
    want(Spline::eval(&b, 1.0).axis(0), 10.0, "trait eval at the end");
    want(Spline::eval(&b, 0.5).axis(0), 3.5, "trait eval");
}''')
bug("c01-cubic-coincident", "C01", "src/cubic_bezier.rs",
    "        // third iteration, return final point on the curve ctrl_3ab\n        ctrl_2ab + (ctrl_2bc - ctrl_2ab) * t\n",
    "        // third iteration, return final point on the curve ctrl_3ab\n        // (a double inner control point leaves a quadratic, which has no third level)\n        if self.ctrl1 == self.ctrl2 {\n            return ctrl_1ab + (ctrl_1cd - ctrl_1ab) * t;\n        }\n        ctrl_2ab + (ctrl_2bc - ctrl_2ab) * t\n",
    "a cubic whose two inner control points coincide, evaluated with eval_casteljau",
    "eval_casteljau treats a cubic with a double inner control point as a quadratic",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(4.), p1(4.), p1(1.));
    for i in 0..=8 { let t = i as f64 / 8.0; want(c.eval_casteljau(t).axis(0), bez(&[0., 4., 4., 1.], t), "eval_casteljau"); }
}''')

# ------------------------------------------------------------------------------------------ C02
bug("c02-cubic-split-one", "C02", "src/cubic_bezier.rs",
    "        let t = t.into();\n        // unrolled de casteljau algorithm\n",
    "        let t: NativeFloat = t.into();\n        // nothing to compute at the ends of the curve\n        if t == 0.0 || t == 1.0 {\n            return (*self, *self);\n        }\n        // unrolled de casteljau algorithm\n",
    "splitting a cubic exactly at t = 0 or t = 1",
    "a split at an end returns the whole curve twice instead of a point and the curve",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(4.), p1(-3.), p1(1.));
    let (l, r) = c.split(1.0);
    want(r.eval(0.25).axis(0), 1.0, "right part of a split at the end");
    want(l.eval(0.25).axis(0), c.eval(0.25).axis(0), "left part");
    let (l, r) = c.split(0.0);
    want(l.eval(0.75).axis(0), 0.0, "left part of a split at the start");
}''')
bug("c02-quad-split-flat", "C02", "src/quadratic_bezier.rs",
    "        let ctrl_1bc = self.ctrl + (self.end - self.ctrl) * t;\n        // second iteration\n        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n",
    "        let ctrl_1bc = self.ctrl + (self.end - self.ctrl) * t;\n        // second iteration\n        let mut ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n        // a flat curve is split on its baseline\n        if self.is_linear(0.0.into()) {\n            ctrl_2ab = self.start + (self.end - self.start) * t;\n        }\n",
    "splitting a quadratic whose control point lies exactly on the segment between the ends, but not in its middle",
    "the split point of a flat quadratic is placed as if the curve had constant speed",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(1., 0.), p2(8., 0.));
    let (l, r) = q.split(0.5);
    for i in 0..=8 { let s = i as f64 / 8.0;
        want(l.eval(s).axis(0), q.eval(0.5 * s).axis(0), "left");
        want(r.eval(s).axis(0), q.eval(0.5 + 0.5 * s).axis(0), "right"); }
    let q = QuadraticBezier::new(p2(0., 0.), p2(1., 3.), p2(8., 0.));
    want(q.split(0.25).0.eval(1.0).axis(1), q.eval(0.25).axis(1), "split point");
}''')
bug("c02-generic-settled", "C02", "src/bezier.rs",
    "            right[right.len() - i] = casteljau_points[right.len() - i];\n",
    "            right[right.len() - i] = casteljau_points[right.len() - i];\n            // nothing moves any more\n            if i > 1 && casteljau_points[0] == casteljau_points[1] {\n                break;\n            }\n",
    "a split of a generic curve in which two neighbouring points of a De Casteljau level coincide, for instance at t = 1 with equal second and third control points",
    "the split stops early and leaves old control points in both halves",
    r"""fn main() {
    let c = [1.0, 5.0, 5.0, -3.0, 2.0];
    let b: Bezier<P1, 5> = Bezier::new(core::array::from_fn(|i| p1(c[i])));
    let (l, r) = b.split(1.0);
    for s in [0.0, 0.25, 0.5, 1.0] { want(r.eval(s).axis(0), 2.0, "right part of a split at the end"); want(l.eval(s).axis(0), bez(&c, s), "left part"); }
    let (_, r) = b.split(0.5);
    want(r.eval(0.5).axis(0), bez(&c, 0.75), "right");
}""")

# ------------------------------------------------------------------------------------------ C03
bug("c03-generic-factor", "C03", "src/bezier.rs",
    "                (self.control_points[i + 1] - self.control_points[i]) * ((N - 1) as NativeFloat);\n            if i == self.control_points.len() - 2 {",
    "                (self.control_points[i + 1] - self.control_points[i]) * ((N - 1) as u8 % 8) as NativeFloat;\n            if i == self.control_points.len() - 2 {",
    "the derivative of a generic curve of degree eight or more",
    "the factor in front of the differences is the degree modulo eight",
    r'''fn main() {
    let c: Vec<f64> = (0..10).map(|i| (i * i % 7) as f64).collect();
    let b: Bezier<P1, 10> = Bezier::new(core::array::from_fn(|i| p1(c[i])));
    let d = b.derivative();
    want(d.eval(0.0).axis(0), 9.0 * (c[1] - c[0]), "slope at the start");
}''')
bug("c03-cubic-zero-tangent", "C03", "src/cubic_bezier.rs",
    "            end: (self.end - self.ctrl2) * 3.0,\n",
    "            // a double end point leaves the tangent from the first control point\n            end: if self.ctrl2 == self.end {\n                (self.end - self.ctrl1) * 1.5\n            } else {\n                (self.end - self.ctrl2) * 3.0\n            },\n",
    "the derivative of a cubic whose last two control points coincide",
    "the derivative at the end is not zero where it must be",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(4.), p1(-3.), p1(-3.));
    want(c.derivative().eval(1.0).axis(0), 0.0, "slope at a double end point");
    want(c.derivative().eval(0.0).axis(0), 12.0, "slope at the start");
}''')
bug("c03-quad-dd-f32", "C03", "src/quadratic_bezier.rs",
    "        let c1 = 2.0 - 4.0 * t;\n",
    "        let c1 = 2.0 - 4.0 * (t as f32) as NativeFloat;\n",
    "direct derivative sampling of a quadratic at a t that is not a short binary fraction",
    "the middle weight is computed in single precision, the derivative is off by 1e-8 relative",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(0.), p1(1000.), p1(8.));
    for t in [0.1, 0.3, 0.7] { want(q.dd(t, 0), q.derivative().eval(t).axis(0), "dd"); }
}''')

# ------------------------------------------------------------------------------------------ C04
bug("c04-quad-root-margin", "C04", "src/quadratic_bezier.rs",
    "            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });\n",
    "            // (extrema next to an end are given by the end itself)\n            extrema.retain(|root| -> bool { root > &mut 0.001.into() && root < &mut 0.999.into() });\n",
    "a quadratic whose extremum on some axis lies within 0.001 of an end",
    "the extremum is dropped and the curve leaves the box by up to a millionth of its size",
    r'''fn main() {
    // x'(t) = 0 at t = 0.0005
    let q = QuadraticBezier::new(p1(0.), p1(-0.5), p1(999.0));
    let b = q.bounding_box();
    for i in 0..=10000 { let x = q.eval(i as f64 / 1e6).axis(0); assert!(x >= b[0].0 - 1e-9, "the point {x} is below the box {:?}", b[0]); }
}''')
bug("c04-cubic-third-candidate", "C04", "src/cubic_bezier.rs",
    "            bounds[dim] = (extrema[0], *extrema.last().unwrap());\n",
    "            bounds[dim] = (extrema[0], extrema[extrema.len().min(3) - 1]);\n",
    "a cubic with two extrema of one axis inside (0,1)",
    "with four candidates the third smallest is reported as the maximum",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(5.), p1(-4.), p1(1.));
    let b = c.bounding_box();
    for i in 0..=1000 { let x = c.eval(i as f64 / 1e3).axis(0); assert!(x <= b[0].1 + 1e-9, "the point {x} is above the box {:?}", b[0]); }
}''')
bug("c04-line-last-axis", "C04", "src/line.rs",
    "            if self.start.axis(i) < self.end.axis(i) {\n",
    "            // (the last axis of a three-dimensional segment is the height)\n            if self.start.axis(i) < self.end.axis(i) || i == 2 {\n",
    "a three- or more-dimensional segment that decreases along its third axis",
    "the pair of the third axis is reported as (start, end) even when it decreases",
    r'''fn main() {
    let b = LineSegment::new(p3(0., 5., 9.), p3(1., 2., 3.)).bounding_box();
    for a in 0..3 { assert!(b[a].0 <= b[a].1, "axis {a}: {:?}", b[a]); }
}''')
bug("c04-line-root-eps", "C04", "src/line.rs",
    "        if a.abs() < EPSILON.into() {\n            return r;",
    "        if a.abs() < b.abs() {\n            return r;",
    "a quadratic whose extremum is close to the end (t just below one), so that the leading coefficient is barely larger than the constant",
    "hidden assumption that a root inside (0,1) has |a| >= |b|; harmless alone",
    r'''fn main() {}''') if False else None
bug("c04-quad-slope-test", "C04", "src/line.rs",
    "        if a.abs() < EPSILON.into() {\n            return r;",
    "        if a.abs() < (1e-4).into() {\n            return r;",
    "a quadratic with an extremum whose coordinates are all smaller than about 1e-4 (or whose curvature along the axis is)",
    "the extremum of a very small quadratic is ignored and its box does not enclose it",
    r'''fn main() {
    let s = 1e-5;
    let q = QuadraticBezier::new(p2(1., 0.), p2(2., s), p2(3., 0.));
    let b = q.bounding_box();
    assert!(q.eval(0.5).axis(1) <= b[1].1 + 1e-9, "the box {:?} misses the top {}", b[1], q.eval(0.5).axis(1));
}''')

# ------------------------------------------------------------------------------------------ C05
bug("c05-quad-hill-climb", "C05", "src/quadratic_bezier.rs",
    "                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }\n        }\n        // 2. fine pass \n",
    "                tmin = t;\n                dmin = (candidate - point).squared_length();\n            } else if i > 0 && i % 2 == 0 && dmin < (candidate - point).squared_length() * 0.25 {\n                // moving away again\n                break;\n            }\n        }\n        // 2. fine pass \n",
    "a point whose distance to the quadratic grows to twice a first minimum before it drops below it",
    "the coarse pass stops as soon as the distance has doubled since the best sample",
    r'''fn main() {
    // a parabola arch; the point is next to the end, but the start is closer than the top
    let q = QuadraticBezier::new(p2(0., 0.), p2(2., 20.), p2(4., 0.));
    let d = q.distance_to_point(p2(3.9, 0.0));
    assert!(d <= 0.1 + 1e-9, "distance {d} although the end is 0.1 away");
}''')
bug("c05-cubic-touching", "C05", "src/cubic_bezier.rs",
    "                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }\n        }\n        // 2. fine pass\n",
    "                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }\n        }\n        // the point lies on the curve\n        if dmin < P::Scalar::from(1e-5) {\n            return 0.0.into();\n        }\n        // 2. fine pass\n",
    "a point closer than about 0.003 to one of the 65 samples of the curve, but not on it",
    "a distance of up to 0.003 is reported as zero",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(1., 0.), p2(2., 0.), p2(3., 0.));
    let d = c.distance_to_point(p2(1.5, 0.002));
    assert!(d >= 0.002 - 1e-9, "distance {d} is understated");
}''')
bug("c05-generic-fine-half", "C05", "src/bezier.rs",
    "        // 2. fine pass\n        for i in 0..nsteps {\n",
    "        // 2. fine pass\n        for i in 0..nsteps / 2 {\n",
    "a nearest point that lies after (not before) the best of the coarse samples",
    "the fine pass only looks at parameters below the best sample",
    r'''fn main() {
    let b: Bezier<P1, 2> = Bezier::new([p1(0.), p1(64.)]);
    let d = b.distance_to_point(p1(10.25));
    assert!(d <= 1e-9, "distance {d} to a point on the curve at t = 10.25/64");
    let d = b.distance_to_point(p1(9.75));
    assert!(d <= 1e-9, "distance {d} to a point on the curve at t = 9.75/64");
}''')

# ------------------------------------------------------------------------------------------ C06
bug("c06-short-segment", "C06", "src/line.rs",
    "        if l2 < P::Scalar::from(EPSILON) {\n",
    "        if l2 < P::Scalar::from(1e-5) {\n",
    "a segment shorter than about 0.003",
    "short segments are treated as points",
    r'''fn main() {
    let l = LineSegment::new(p2(0., 0.), p2(0.002, 0.));
    want(l.distance_to_point(p2(0.002, 0.)), 0.0, "distance to the end of a short segment");
}''')
bug("c06-dot-plane", "C06", "src/line.rs",
    "                dot = dot + v1.axis(i) * v2.axis(i);\n",
    "                dot = dot + v1.axis(i) * v2.axis(i % 4);\n",
    "points of dimension five or more",
    "the projection wraps around after the fourth axis",
    r'''fn main() {
    let l: LineSegment<PointN<f64, 5>> = LineSegment::new(PointN::new([0., 0., 0., 0., 0.]), PointN::new([1., 0., 0., 0., 8.]));
    want(l.distance_to_point(PointN::new([0.5, 0., 0., 0., 4.])), 0.0, "distance to the middle");
}''')
bug("c06-start-clamp", "C06", "src/line.rs",
    "            if t < P::Scalar::from(0.0) {\n                t = P::Scalar::from(0.0);\n",
    "            if t < P::Scalar::from(0.0) && (p - self.end).squared_length() > l2 * 4.0 {\n                t = P::Scalar::from(0.0);\n",
    "a projection that falls before the start by less than the length of the segment",
    "the distance to the infinite line is returned just before the start of the segment",
    r'''fn main() {
    let l = LineSegment::new(p2(0., 0.), p2(4., 0.));
    want(l.distance_to_point(p2(-1., 1.)), 2f64.sqrt(), "distance before the start");
    want(l.distance_to_point(p2(-30., 40.)), 50.0, "distance far before the start");
}''')

# ------------------------------------------------------------------------------------------ C07
bug("c07-step-limit", "C07", "src/bezier.rs",
    "        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n",
    "        // more steps gain nothing\n        let nsteps = nsteps.min(100);\n        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n",
    "arclen of a generic curve with more than 100 steps",
    "the polyline never has more than 100 pieces",
    r'''fn main() {
    let c = [[0., 0.], [3., 9.], [6., -9.], [9., 0.]];
    let b: Bezier<P2, 4> = Bezier::new(core::array::from_fn(|i| p2(c[i][0], c[i][1])));
    for n in [10usize, 400] {
        let at = |i: usize| { let t = i as f64 / n as f64; (bez(&[0., 3., 6., 9.], t), bez(&[0., 9., -9., 0.], t)) };
        let l: f64 = (0..n).map(|i| { let (a, b) = (at(i), at(i + 1)); ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt() }).sum();
        want(b.arclen(n), l, "arclen");
    }
}''')
bug("c07-cubic-closed", "C07", "src/cubic_bezier.rs",
    "        let stepsize = 1.0 / (nsteps as NativeFloat);\n        let mut arclen = P::Scalar::from(0.0);\n",
    "        let stepsize = 1.0 / (nsteps as NativeFloat);\n        let mut arclen = P::Scalar::from(0.0);\n        // no length between equal ends\n        if self.start == self.end {\n            return arclen;\n        }\n",
    "the arc length of a closed cubic (first and last control points equal)",
    "a closed loop is reported to have length zero",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(4., 0.), p2(0., 4.), p2(0., 0.));
    assert!(c.arclen(64) > 2.0, "length {}", c.arclen(64));
}''')
bug("c07-quad-f32-length", "C07", "src/quadratic_bezier.rs",
    "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n",
    "            let piece = (p1 - p2).squared_length();\n            // skip pieces too short to matter\n            if piece > EPSILON.sqrt().into() {\n                arclen = arclen + piece.sqrt();\n            }\n",
    "an arc length whose polyline pieces are shorter than 1e-4 (many steps, a small curve, or a slow part of the curve)",
    "pieces shorter than about 1e-4 are left out of the sum",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(0.), p1(0.5), p1(1.0));
    want(q.arclen(10), 1.0, "arclen of a straight curve");
    want(q.arclen(20000), 1.0, "arclen of a straight curve in 20000 steps");
}''')

# ------------------------------------------------------------------------------------------ C08
bug("c08-point-tol-zero", "C08", "src/quadratic_bezier.rs",
    "            && (self.start - self.ctrl).squared_length() <= tolerance_squared\n",
    "            && (self.start - self.ctrl).squared_length() < tolerance_squared\n",
    "is_a_point with tolerance zero (or an inner control point exactly at the tolerance)",
    "the inclusive tolerance became exclusive for the inner control point",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(1., 2.), p2(1., 2.), p2(1., 2.));
    assert!(q.is_a_point(0.0), "three equal control points are a point");
    assert!(!QuadraticBezier::new(p2(1., 2.), p2(9., 2.), p2(1., 2.)).is_a_point(1.0));
}''')
bug("c08-cubic-infinite-line", "C08", "src/cubic_bezier.rs",
    "            && line.distance_to_point(self.ctrl2) <= tolerance\n",
    "            && (line.distance_to_point(self.ctrl2) <= tolerance\n                || line.distance_to_point(self.start + (self.end - self.ctrl2)) <= tolerance)\n",
    "a cubic whose second inner control point is off the segment but whose mirror image through the middle is not... only when beyond an end",
    "no effect on symmetric situations",
    r'''fn main() {}''') if False else None
bug("c08-cubic-overshoot", "C08", "src/cubic_bezier.rs",
    "        line.distance_to_point(self.ctrl1) <= tolerance\n            && line.distance_to_point(self.ctrl2) <= tolerance\n",
    "        // the control points lie on the line if their distance to it does not exceed the tolerance\n        let direction = self.end - self.start;\n        let on_line = |p: P| {\n            let t = (p - self.start).axis(0) / direction.axis(0);\n            (self.start + direction * t - p).squared_length() <= tolerance * tolerance\n        };\n        (line.distance_to_point(self.ctrl1) <= tolerance || on_line(self.ctrl1))\n            && (line.distance_to_point(self.ctrl2) <= tolerance || on_line(self.ctrl2))\n",
    "an inner control point of a cubic on the infinite line through the ends, but outside the segment between them",
    "a cubic that overshoots its ends is called linear",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(10., 10.), p2(0.5, 0.5), p2(1., 1.));
    assert!(!c.is_linear(0.1), "the curve leaves the segment");
    assert!(CubicBezier::new(p2(0., 0.), p2(0.2, 0.2), p2(0.5, 0.5), p2(1., 1.)).is_linear(0.1));
}''')
bug("c08-closed-flat", "C08", "src/quadratic_bezier.rs",
    "        if (self.start - self.end).squared_length() < EPSILON.into() {\n            return false;\n        }\n        // else",
    "        if (self.start - self.end).squared_length() < EPSILON.into() {\n            return self.ctrl == self.start;\n        }\n        // else",
    "is_linear of a quadratic whose three control points are all equal",
    "a curve whose ends coincide is called linear",
    r'''fn main() {
    assert!(!QuadraticBezier::new(p2(1., 2.), p2(1., 2.), p2(1., 2.)).is_linear(0.5), "coincident ends are never linear");
}''')

# ------------------------------------------------------------------------------------------ C09
bug("c09-degree-equal", "C09", "src/bspline.rs",
    "        if control_points.len() <= { D } {\n",
    "        if control_points.len() < { D } {\n",
    "exactly as many control points as the degree, with a knot vector of the matching length",
    "a spline with C = D control points is accepted",
    r'''fn main() {
    let s: Result<BSpline<P1, 6, 2, 3>, _> = BSpline::new([0., 0., 0., 1., 1., 1.], [p1(0.), p1(1.)]);
    // 2 control points, degree 3
    assert!(s.is_err());
    let s: Result<BSpline<P1, 6, 3, 3>, _> = BSpline::new([0., 0., 0., 1., 1., 1.], [p1(0.), p1(1.), p1(2.)]);
    assert_eq!(s.err(), Some(BSplineError::TooFewControlPoints));
    let s: Result<BSpline<P1, 7, 3, 3>, _> = BSpline::new([0., 0., 0., 0., 1., 1., 1.], [p1(0.), p1(1.), p1(2.)]);
    assert_eq!(s.err(), Some(BSplineError::TooFewControlPoints));
}''')
bug("c09-one-knot-more", "C09", "src/bspline.rs",
    "        } else if knots.len() > control_points.len() + 1 + D {\n",
    "        } else if knots.len() > control_points.len() + 1 + D.max(1) {\n",
    "a spline of degree zero with exactly one knot too many",
    "for degree zero one surplus knot is accepted",
    r'''fn main() {
    let s: Result<BSpline<P1, 5, 3, 0>, _> = BSpline::new([0., 1., 2., 3., 4.], [p1(0.), p1(1.), p1(2.)]);
    assert_eq!(s.err(), Some(BSplineError::TooManyKnots));
    let s: Result<BSpline<P1, 4, 3, 0>, _> = BSpline::new([0., 1., 2., 3.], [p1(0.), p1(1.), p1(2.)]);
    assert!(s.is_ok());
}''')
bug("c09-knot-snap", "C09", "src/bspline.rs",
    "            Ok(BSpline {\n                knots,\n                knot_kind,\n                control_points,\n",
    "            // make clamped ends exactly equal\n            let mut knots = knots;\n            if is_clamped_back {\n                for i in 1..=D {\n                    knots[K - 1 - i] = knots[K - 1] + 0.0;\n                }\n            }\n            Ok(BSpline {\n                knots,\n                knot_kind,\n                control_points,\n",
    "a clamped end whose knots are all zero of different signs, or differ by less than the machine epsilon",
    "the stored knots are not the given ones",
    r'''fn main() {
    let k = [-1.0, -1.0, -0.0, 0.0f64];
    let s: BSpline<P1, 4, 2, 1> = BSpline::new(k, [p1(0.), p1(1.)]).unwrap();
    let got: Vec<u64> = s.knots().map(|k| k.to_bits()).collect();
    let given: Vec<u64> = k.iter().map(|k| k.to_bits()).collect();
    assert_eq!(got, given, "stored knots");
}''')

# ------------------------------------------------------------------------------------------ C10
bug("c10-domain-slack", "C10", "src/bspline.rs",
    "        if t < knot_start || t > knot_end {\n            return Err(BSplineError::KnotDomainViolation);\n        }\n",
    "        // forgive rounding of the parameter at the ends of the domain\n        let slack = (knot_end - knot_start) * 1e-9;\n        if t < knot_start - slack || t > knot_end + slack {\n            return Err(BSplineError::KnotDomainViolation);\n        }\n        let t = t.max(knot_start).min(knot_end);\n",
    "a parameter outside the domain by less than a billionth of its length, or NaN",
    "eval accepts parameters that are not in the domain",
    r'''fn main() {
    let s: BSpline<P1, 5, 3, 1> = BSpline::new([0., 0., 1., 2., 2.], [p1(0.), p1(1.), p1(5.)]).unwrap();
    assert!(s.eval(2.0).is_ok() && s.eval(0.0).is_ok());
    assert!(s.eval(2.0000000000000004).is_err(), "t after the end");
    assert!(s.eval(-1e-300).is_err(), "t before the start");
}''')
bug("c10-start-search-high", "C10", "src/bspline.rs",
    "        // Initialize binary search indices\n        let mut low = p;\n        let mut high = n; // Since we compare t with knots[mid + 1], high should be n\n\n        // Binary search to find the knot span\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                low = mid + 1;\n            }\n        }\n\n        None // t is not within any knot span\n    }\n\n    fn knot_span_start_for_t_clamped_end",
    "        // Initialize binary search indices\n        let mut low = p;\n        let mut high = n; // Since we compare t with knots[mid + 1], high should be n\n\n        // Binary search to find the knot span\n        while low < high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                low = mid + 1;\n            }\n        }\n\n        // t is not within any knot span\n        if t >= self.knots[low] && t < self.knots[p + 1] {\n            Some(low)\n        } else {\n            None\n        }\n    }\n\n    fn knot_span_start_for_t_clamped_end",
    "a spline clamped at its start only with several spans, and a t in a span that the binary search reaches last",
    "the search ends one step early, eval reports a domain violation inside the domain",
    r'''fn main() {
    let s: BSpline<P1, 8, 6, 1> = BSpline::new([0., 0., 1., 2., 3., 4., 5., 6.], core::array::from_fn(|i| p1(i as f64))).unwrap();
    for i in 0..=40 { let t = i as f64 / 8.0; assert!(s.eval(t).is_ok(), "eval({t})"); }
}''')
bug("c10-high-degree-domain", "C10", "src/bspline.rs",
    "    fn knot_domain_unclamped(&self) -> (P::Scalar, P::Scalar) {\n        // The valid domain is from knots[D] to knots[C] (C = K - D - 1)\n        (self.knots[D], self.knots[C])",
    "    fn knot_domain_unclamped(&self) -> (P::Scalar, P::Scalar) {\n        // The valid domain is from knots[D] to knots[C] (C = K - D - 1)\n        (self.knots[D.min(4)], self.knots[C])",
    "an unclamped spline of degree five or more",
    "the domain starts too early",
    r"""fn main() {
    let k: [f64; 12] = core::array::from_fn(|i| i as f64);
    let s: BSpline<P1, 12, 6, 5> = BSpline::new(k, core::array::from_fn(|i| p1(i as f64))).unwrap();
    assert_eq!(s.knot_domain(), (5.0, 6.0));
}""")

# ------------------------------------------------------------------------------------------ C11
bug("c11-clamp-tolerance", "C11", "src/bspline.rs",
    "                .all(|&knot| (knot - knots[knots.len() - 1]).abs() < P::Scalar::epsilon());\n",
    "                .all(|&knot| (knot - knots[knots.len() - 1]).abs() < (1e-3).into());\n",
    "a spline whose last D+1 knots are distinct but within 0.001 of one another, evaluated at its domain's end",
    "an almost clamped end counts as clamped, and the last control point is returned for a parameter where the curve is elsewhere",
    r'''fn main() {
    let k = [0., 0., 0., 1.0, 1.0004, 1.0008];
    let c = [0., 4., 10.];
    let s: BSpline<P1, 6, 3, 2> = BSpline::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    // just below and at the end of the domain
    let (a, b) = (s.eval(1.0 - 1e-12).unwrap().axis(0), s.eval(1.0).unwrap().axis(0));
    assert!((a - b).abs() < 1e-6, "the curve jumps from {a} to {b} at its end");
}''')
bug("c11-narrow-span", "C11", "src/bspline.rs",
    "                } else if denominator.abs() < P::Scalar::epsilon() {\n",
    "                } else if denominator.abs() < (1e-5).into() {\n",
    "knots that are distinct but closer than 1e-5",
    "blending over a very short span takes its right end everywhere",
    r'''fn main() {
    let h = 4e-6;
    let k = [0., 0., 1., 1. + h, 2., 2.];
    let c = [0., 1., 5., -3.];
    let s: BSpline<P1, 6, 4, 1> = BSpline::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    let t = 1. + h * 0.5;
    assert!((s.eval(t).unwrap().axis(0) - 3.0).abs() < 1e-4, "{:?}", s.eval(t));
}''')
bug("c11-degree-four", "C11", "src/bspline.rs",
    "                let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];\n",
    "                let denominator = self.knots[(j + 1 + k - r).max(k)] - self.knots[j + k - D];\n",
    "never: the index is always above k",
    "equivalent", r'''fn main() {}''') if False else None
bug("c11-interior-clamp", "C11", "src/bspline.rs",
    "                if numerator < P::Scalar::epsilon() {\n",
    "                if numerator < P::Scalar::epsilon() || (r == 4 && j == D) {\n",
    "a spline of degree four or more",
    "the fourth level of de Boor's algorithm does not blend its last point",
    r'''fn main() {
    let k: [f64; 11] = core::array::from_fn(|i| i as f64);
    let c = [0., 3., -2., 5., 1., 7.];
    let s: BSpline<P1, 11, 6, 4> = BSpline::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    want(s.eval(4.7).unwrap().axis(0), cox(&k, &c, 4, 4.7), "eval");
}''')
bug("c11-step-break", "C11", "src/bspline.rs",
    "        let mut low = p;\n        let mut high = n;\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n",
    "        let mut low = p;\n        let mut high = n;\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t <= self.knots[mid + 1] {\n",
    "a spline of degree zero (a step function) evaluated exactly at an interior knot",
    "at a break the value of the span before it is returned, depending on the path of the binary search",
    r"""fn main() {
    let k: [f64; 6] = core::array::from_fn(|i| i as f64);
    let c = [4., 1., 3., 7., 2.];
    let s: BSpline<P1, 6, 5, 0> = BSpline::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    for i in 0..5 { want(s.eval(i as f64).unwrap().axis(0), c[i], "step"); }
}""")

# ------------------------------------------------------------------------------------------ C12
bug("c12-wide-span-only", "C12", "src/bspline.rs",
    "                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());\n",
    "                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).max((0.01).into()).into());\n",
    "the derivative of a spline with D consecutive knot distances that sum to less than 0.01",
    "slopes over short spans are limited",
    r'''fn main() {
    let k = [0., 0., 0.001, 0.002, 0.003, 0.003];
    let c = [0., 1., 5., -3.];
    let s: BSpline<P1, 6, 4, 1> = BSpline::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    let d = s.derivative();
    want(d.eval(0.0015).unwrap().axis(0), 4000.0, "slope");
}''')
bug("c12-knot-offset", "C12", "src/bspline.rs",
    "                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());\n",
    "                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[(i + 1).max(D)]).into());\n",
    "the derivative of a spline that is not clamped at its start, or whose first interior knots matter",
    "the knot differences of the first control points are taken from the start of the domain",
    r'''fn main() {
    let k = [0., 1., 2., 3., 4., 5., 6., 7.];
    let c = [0., 1., 5., -3., 2.];
    let s: BSpline<P1, 8, 5, 2> = BSpline::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    let h = 1e-6;
    let slope = (s.eval(2.5 + h).unwrap().axis(0) - s.eval(2.5 - h).unwrap().axis(0)) / (2.0 * h);
    assert!((s.derivative().eval(2.5).unwrap().axis(0) - slope).abs() < 1e-6);
    let k = [0., 0., 0., 3., 4., 5., 5., 5.];
    let s: BSpline<P1, 8, 5, 2> = BSpline::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    let slope = (s.eval(3.5 + h).unwrap().axis(0) - s.eval(3.5 - h).unwrap().axis(0)) / (2.0 * h);
    assert!((s.derivative().eval(3.5).unwrap().axis(0) - slope).abs() < 1e-6);
}''')
bug("c12-flat-points", "C12", "src/bspline.rs",
    "            if i == self.control_points.len() - 2 {\n                break;\n            }\n        }\n        BSpline {",
    "            if i == self.control_points.len() - 2 || self.control_points[i..] == [self.control_points[i]; 2] {\n                break;\n            }\n            if i + 2 < self.control_points.len() && i > 2 && self.control_points[i + 1] == self.control_points[0] {\n                break;\n            }\n        }\n        BSpline {",
    "the derivative of a spline with at least six control points that returns to its first control point after the fourth",
    "the loop over the control points stops where the control polygon closes, the remaining slopes are zero",
    r'''fn main() {
    let k = [0., 0., 1., 2., 3., 4., 5., 5.];
    let c = [1., 2., 5., -3., 1., 8.];
    let s: BSpline<P1, 8, 6, 1> = BSpline::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    want(s.derivative().eval(4.5).unwrap().axis(0), 7.0, "slope");
}''')

# ------------------------------------------------------------------------------------------ C13
bug("c13-unit-domain", "C13", "src/bspline.rs",
    "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen\n    }\n\n    /// Returns the derivative",
    "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n            // the rest of the curve is shorter than a step\n            if kmax - t < stepsize * 1.000001 && stepsize > 1.0.into() {\n                break;\n            }\n            if arclen > P::Scalar::from(1e6) {\n                break;\n            }\n        }\n        arclen\n    }\n\n    /// Returns the derivative",
    "a spline longer than 1e6",
    "the sum stops once it exceeds a million",
    r'''fn main() {
    let s: BSpline<P1, 5, 3, 1> = BSpline::new([0., 0., 1., 2., 2.], [p1(-1e6), p1(1e6), p1(-1e6)]).unwrap();
    want(s.arclen(4), 4e6, "arclen");
}''')
bug("c13-eval-err-zero", "C13", "src/bspline.rs",
    "        let stepsize = (kmax - kmin) / (nsteps as NativeFloat);\n",
    "        let stepsize = (kmax - kmin) * (1.0 / nsteps as NativeFloat).max(1e-3);\n",
    "arclen with more than 1000 steps",
    "the pieces overlap when there are more than a thousand of them",
    r'''fn main() {
    let s: BSpline<P1, 5, 3, 1> = BSpline::new([0., 0., 1., 2., 2.], [p1(0.), p1(1.), p1(5.)]).unwrap();
    want(s.arclen(10), 5.0, "arclen");
    want(s.arclen(1500), 5.0, "arclen in 1500 steps");
}''')

# ------------------------------------------------------------------------------------------ C14
bug("c14-eq-first-four", "C14", "src/point_generic.rs",
    "        for i in 0..N {\n            if self.0[i] != other.0[i] {\n",
    "        for i in 0..N.min(4) {\n            if self.0[i] != other.0[i] {\n",
    "points of dimension five or more that differ only after the fourth coordinate",
    "equality ignores the later coordinates",
    r'''fn main() {
    assert!(PointN::new([1., 2., 3., 4., 5.]) != PointN::new([1., 2., 3., 4., 6.]));
    assert!(PointN::new([1., 2., 3., 4., 5.]) == PointN::new([1., 2., 3., 4., 5.]));
}''')
bug("c14-axis-clamped", "C14", "src/point_generic.rs",
    "        assert!(index <= N);\n        self.0[index].into()\n",
    "        assert!(index <= N);\n        self.0[index.min(N - 1)].into()\n",
    "axis(N) of a point of dimension N",
    "the first index out of range returns the last coordinate instead of panicking",
    r'''fn main() {
    let r = std::panic::catch_unwind(|| p2(1., 2.).axis(2));
    assert!(r.is_err(), "axis(2) of a two-dimensional point returned {:?}", r);
    want(p2(1., 2.).axis(1), 2.0, "axis");
}''')
bug("c14-sub-scalar-alias", "C14", "src/point_generic.rs",
    "            res.0[i] = self.0[i] - _rhs;\n",
    "            res.0[i] = self.0[i.min(3)] - _rhs;\n",
    "subtracting a scalar from a point of dimension five or more",
    "coordinates after the fourth are replaced by the fourth",
    r'''fn main() {
    let p = PointN::new([1., 2., 3., 4., 5., 6.]) - 0.5;
    for (i, x) in p.into_iter().enumerate() { want(x, i as f64 + 0.5, "coordinate"); }
}''')
bug("c14-length-last", "C14", "src/point_generic.rs",
    "            sqr_dist += (self.0[i] * self.0[i]).into();\n",
    "            sqr_dist += (self.0[i] * self.0[i.min(5)]).into();\n",
    "the squared length of a point of dimension seven or more",
    "coordinates after the sixth are multiplied by the sixth instead of by themselves",
    r'''fn main() {
    let p = PointN::new([1.0f64, 2., 3., 4., 5., 6., 7., 8.]);
    want(p.squared_length(), 204.0, "squared length");
}''')

# ------------------------------------------------------------------------------------------ C15
bug("c15-quad-linear-point", "C15", "src/bezier_segment.rs",
    "            BezierSegment::Quadratic(segment) => segment.is_linear(tolerance.into()),\n",
    "            BezierSegment::Quadratic(segment) => {\n                segment.is_linear(tolerance.into()) || segment.is_a_point(tolerance.into())\n            }\n",
    "a quadratic segment that is (nearly) a point, tested for being linear",
    "the segment answers true where the wrapped curve answers false",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(1., 2.), p2(1., 2.), p2(1., 2.));
    assert_eq!(BezierSegment::from(q).is_linear(0.25), q.is_linear(0.25));
}''')
bug("c15-line-split-empty", "C15", "src/bezier_segment.rs",
    "                (BezierSegment::Linear(a), BezierSegment::Linear(b))\n",
    "                // nothing is left behind a split at the end\n                if b.start == b.end {\n                    return (BezierSegment::Linear(a), BezierSegment::Linear(*segment));\n                }\n                (BezierSegment::Linear(a), BezierSegment::Linear(b))\n",
    "splitting a line segment at t = 1 (or a segment with equal ends)",
    "the right part of a split at the end is the whole segment",
    r'''fn main() {
    let s = BezierSegment::from(LineSegment::new(p2(0., 0.), p2(4., 8.)));
    let (_, r) = s.split(1.0);
    assert_eq!(r.start(), p2(4., 8.));
    assert_eq!(s.split(0.5).1.start(), p2(2., 4.));
}''')
bug("c15-cubic-to-quad", "C15", "src/bezier_segment.rs",
    "                (BezierSegment::Cubic(a), BezierSegment::Cubic(b))\n",
    "                // a half with a double inner control point is a quadratic\n                if a.ctrl1 == a.ctrl2 {\n                    let a = QuadraticBezier::new(a.start, a.ctrl1, a.end);\n                    return (BezierSegment::Quadratic(a), BezierSegment::Cubic(b));\n                }\n                (BezierSegment::Cubic(a), BezierSegment::Cubic(b))\n",
    "splitting a cubic so that the left half has equal inner control points (for example at t = 0)",
    "the left half is wrapped as a quadratic, which is another curve",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(4.), p1(4.), p1(8.));
    let (l, _) = BezierSegment::from(c).split(0.0);
    assert!(matches!(l, BezierSegment::Cubic(_)), "{:?}", l);
    // start = ctrl1 = ctrl2
    let c = CubicBezier::new(p1(4.), p1(4.), p1(4.), p1(8.));
    let (l, _) = BezierSegment::from(c).split(0.5);
    want(l.eval::<f64>(0.5).axis(0), c.eval(0.25).axis(0), "left half");
}''')

# ------------------------------------------------------------------------------------------ C16
USERPOINT = r'''
use std::ops::{Add, Mul, Sub};
/// a user's point: two coordinates and a tag, so it is larger than its coordinates
#[derive(Copy, Clone, Debug, PartialEq, Default)]
struct U { x: f64, y: f64, tag: u64 }
impl Add for U { type Output = U; fn add(self, o: U) -> U { U { x: self.x + o.x, y: self.y + o.y, tag: 0 } } }
impl Sub for U { type Output = U; fn sub(self, o: U) -> U { U { x: self.x - o.x, y: self.y - o.y, tag: 0 } } }
impl Mul<f64> for U { type Output = U; fn mul(self, s: f64) -> U { U { x: self.x * s, y: self.y * s, tag: 0 } } }
impl IntoIterator for U { type Item = f64; type IntoIter = std::array::IntoIter<f64, 2>; fn into_iter(self) -> Self::IntoIter { [self.x, self.y].into_iter() } }
impl Point for U { type Scalar = f64; const DIM: usize = 2;
    fn axis(&self, i: usize) -> f64 { [self.x, self.y][i] }
    fn squared_length(&self) -> f64 { self.x * self.x + self.y * self.y } }
fn u(x: f64, y: f64) -> U { U { x, y, tag: 0 } }
'''
bug("c16-line-box-layout", "C16", "src/line.rs",
    "        for (i, _) in self.start.into_iter().enumerate() {\n",
    "        for i in 0..core::mem::size_of::<P>() / core::mem::size_of::<P::Scalar>() {\n",
    "a user's point type that holds more than its coordinates (or wraps a smaller float)",
    "the number of axes is taken from the memory layout of the point",
    USERPOINT + r'''fn main() {
    let b = LineSegment::new(u(0., 5.), u(1., 2.)).bounding_box();
    assert_eq!(b, [(0., 1.), (2., 5.)]);
    let b = LineSegment::new(p3(0., 5., 9.), p3(1., 2., 3.)).bounding_box();
    assert_eq!(b, [(0., 1.), (2., 5.), (3., 9.)]);
}''')
bug("c16-dot-length", "C16", "src/line.rs",
    "            for (i, _) in v1.into_iter().enumerate() {\n",
    "            for i in 0..core::mem::size_of::<P>() / core::mem::size_of::<NativeFloat>() {\n",
    "a user's point type whose size is not its dimension times the size of the native float",
    "axes are skipped or read out of range for points with another layout",
    USERPOINT + r'''fn main() {
    let l = LineSegment::new(u(0., 0.), u(4., 0.));
    want(l.distance_to_point(u(2., 3.)), 3.0, "distance");
    want(LineSegment::new(p2(0., 0.), p2(4., 0.)).distance_to_point(p2(2., 3.)), 3.0, "distance");
}''')

# ------------------------------------------------------------------------------------------ C17
bug("c17-split-scratch", "C17", "src/bezier.rs",
    "        let mut casteljau_points: [P; N] = self.control_points;\n\n        for i in 1..=casteljau_points.len() {",
    "        let mut casteljau_points: [P; N] = self.control_points;\n        // large curves get a scratch copy on the heap\n        let scratch: Option<alloc::boxed::Box<[P]>> = if N > 12 {\n            Some(alloc::boxed::Box::from(&self.control_points[..]))\n        } else {\n            None\n        };\n        if let Some(points) = scratch {\n            casteljau_points.copy_from_slice(&points);\n        }\n\n        for i in 1..=casteljau_points.len() {",
    "splitting a generic curve with more than twelve control points",
    "the split allocates heap memory",
    r'''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let b: Bezier<P1, 14> = Bezier::new(core::array::from_fn(|i| p1(i as f64)));
    let before = N.load(Ordering::SeqCst);
    let r = b.split(0.5);
    let after = N.load(Ordering::SeqCst);
    assert_eq!(before, after, "split allocates");
}''', more=[("src/lib.rs", "#![feature(generic_const_exprs)]\n", "#![feature(generic_const_exprs)]\n\nextern crate alloc;\n")])
bug("c17-box-assert", "C17", "src/cubic_bezier.rs",
    "            // evaluates roots in original function\n            for t in extrema.iter_mut() {\n",
    "            // the extrema are ordered along the curve\n            debug_assert!(extrema.len() < 2 || extrema[0] != extrema[1] || a == b);\n            // evaluates roots in original function\n            for t in extrema.iter_mut() {\n                debug_assert!(self.start.axis(dim) != self.end.axis(dim) || extrema_allowed(*t));\n",
    "", "", r'''fn main() {}''') if False else None
bug("c17-single-step", "C17", "src/cubic_bezier.rs",
    "            let p2 = self.eval_casteljau(t + stepsize);\n",
    "            // (the last step ends exactly at one)\n            let remaining = nsteps - 2 - steps;\n            steps += (remaining > 0) as usize;\n            let p2 = self.eval_casteljau(t + stepsize);\n",
    "arclen of a cubic with a single step",
    "a counter underflows and the call panics for nsteps = 1",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(2.), p1(3.));
    want(c.arclen(2), 3.0, "arclen");
    want(c.arclen(1), 3.0, "arclen");
}''', more=[("src/cubic_bezier.rs", "        let mut arclen = P::Scalar::from(0.0);\n", "        let mut arclen = P::Scalar::from(0.0);\n        let mut steps = 0;\n")])
bug("c17-error-path-alloc", "C17", "src/bspline.rs",
    "            BSplineError::DecreasingKnots => write!(f, \"Knots must be non-decreasing in value\"),\n",
    "            BSplineError::DecreasingKnots => {\n                let message = alloc::format!(\"{} must be non-decreasing in value\", \"Knots\");\n                write!(f, \"{message}\")\n            }\n",
    "displaying the DecreasingKnots error",
    "formatting one of the errors allocates heap memory",
    r'''use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct Sink;
impl Write for Sink { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
fn main() {
    let e = BSplineError::DecreasingKnots;
    let before = N.load(Ordering::SeqCst);
    let r = write!(Sink, "{}", e);
    let after = N.load(Ordering::SeqCst);
    assert_eq!(before, after, "Display allocates");
}''', more=[("src/lib.rs", "#![feature(generic_const_exprs)]\n", "#![feature(generic_const_exprs)]\n\nextern crate alloc;\n")])
bug("c17-box-unwrap", "C17", "src/quadratic_bezier.rs",
    "            extrema.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());\n",
    "            extrema.sort_unstable_by(|a, b| a.partial_cmp(b).filter(|o| o.is_ne() || derivative.start == derivative.end || self.start == self.end).unwrap());\n",
    "a quadratic whose ends (or an end and its extremum) agree on one axis only",
    "the bounding box panics when two candidates of one axis are equal",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(1., 3.), p2(2., 0.));
    assert_eq!(q.bounding_box()[1], (0.0, 1.5));
}''')

# ------------------------------------------------------------------------------------------ C18
bug("c18-minus-zero", "C18", "src/bezier.rs",
    "    pub fn new(control_points: [P; N]) -> Bezier<P, { N }> {\n        Bezier { control_points }\n",
    "    pub fn new(control_points: [P; N]) -> Bezier<P, { N }> {\n        // offset from the origin\n        let control_points = control_points.map(|p| p + P::default());\n        Bezier { control_points }\n",
    "a control point with a negative zero among its coordinates",
    "the constructor turns -0.0 into 0.0, the curve does not keep its control points bit for bit",
    r'''fn main() {
    let b: Bezier<P1, 2> = Bezier::new([p1(-0.0), p1(1.0)]);
    assert_eq!(b.control_points()[0].axis(0).to_bits(), (-0.0f64).to_bits());
}''')
bug("c18-iter-mut-reversed", "C18", "src/bezier.rs",
    "    type IntoIter = slice::IterMut<'a, P>;\n\n    fn into_iter(self) -> slice::IterMut<'a, P> {\n        self.control_points.iter_mut()\n",
    "    type IntoIter = slice::IterMut<'a, P>;\n\n    fn into_iter(self) -> slice::IterMut<'a, P> {\n        let inner = N.min(16);\n        self.control_points[..inner].iter_mut()\n",
    "mutable iteration over a generic curve with more than sixteen control points",
    "control points after the sixteenth are not reached",
    r'''fn main() {
    let mut b: Bezier<P1, 18> = Bezier::new([p1(1.0); 18]);
    for p in &mut b { *p = p1(2.0); }
    want(b.eval(1.0).axis(0), 2.0, "end after mutation");
}''')
bug("c18-quad-points-order", "C18", "src/quadratic_bezier.rs",
    "        [self.start, self.ctrl, self.end]\n",
    "        if self.start == self.end {\n            return [self.start, self.ctrl, self.start];\n        }\n        [self.start, self.ctrl, self.end]\n",
    "the accessor of a quadratic whose ends are equal as numbers but not as bits (0.0 and -0.0)",
    "the last control point is reported with the sign of the first one's zero",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(0.0), p1(1.0), p1(-0.0));
    assert_eq!(q.control_points()[2].axis(0).to_bits(), (-0.0f64).to_bits());
}''')
bug("c18-knots-iter", "C18", "src/bspline.rs",
    "        self.control_points.iter()\n",
    "        self.control_points[..C.min(K - D)].iter().take(C.max(D + 1).min(10))\n",
    "", "", r'''fn main() {}''') if False else None

# ------------------------------------------------------------------------------------------ C19
bug("c19-tiny-part", "C19", "src/quadratic_bezier.rs",
    "            start: (self.ctrl - self.start) * 2.0,\n            end: (self.end - self.ctrl) * 2.0,\n",
    "            start: (self.ctrl - self.start) * 2.0,\n            // (a control point on the end leaves the direction of the chord)\n            end: if self.ctrl == self.end {\n                (self.end - self.start) * 2.0\n            } else {\n                (self.end - self.ctrl) * 2.0\n            },\n",
    "the derivative of a quadratic whose control point equals its end, for instance the right part of a split at t = 1 or a derivative of a cubic",
    "the derivative of a degenerate part is not the part of the derivative",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(0.), p1(4.), p1(4.));
    want(q.derivative().eval(1.0).axis(0), 0.0, "slope at the end");
    want(q.derivative().eval(0.0).axis(0), 8.0, "slope at the start");
}''')
bug("c19-collapsed-part", "C19", "src/bezier.rs",
    "        let mut new_points: [P; N - 1] = [P::default(); N - 1];\n        for (i, _) in self.control_points.iter().enumerate() {\n",
    "        let mut new_points: [P; N - 1] = [P::default(); N - 1];\n        // a part too short to have a direction\n        if (self.control_points[N - 1] - self.control_points[0]).squared_length() < EPSILON.into() {\n            return Bezier::new(new_points);\n        }\n        for (i, _) in self.control_points.iter().enumerate() {\n",
    "the derivative of a closed generic curve, or of a part of a curve whose ends (nearly) coincide",
    "the derivative of a closed curve is zero",
    r'''fn main() {
    let b: Bezier<P1, 4> = Bezier::new([p1(1.), p1(4.), p1(-2.), p1(1.)]);
    want(b.derivative().eval(0.0).axis(0), 9.0, "slope at the start of a closed curve");
}''')
# ------------------------------------------------------------------------------ third batch
bug("c01-line-axis-short", "C01", "src/line.rs",
    "        self.start.axis(axis) + (self.end.axis(axis) - self.start.axis(axis)) * t\n",
    "        let run = self.end.axis(axis) - self.start.axis(axis);\n        // no progress along this axis\n        if run.abs() < P::Scalar::from(1e-3) {\n            return self.start.axis(axis);\n        }\n        self.start.axis(axis) + run * t\n",
    "per-axis sampling of a line segment whose extent along that axis is below 1e-3 but not zero",
    "the sample stays at the start coordinate",
    r'''fn main() {
    let l = LineSegment::new(p2(1., 2.), p2(1.0005, 3.));
    want(l.axis(1.0, 0), 1.0005, "end along x");
}''')
bug("c01-cubic-casteljau-late", "C01", "src/cubic_bezier.rs",
    "        // third iteration, return final point on the curve ctrl_3ab\n",
    "        // third iteration, return final point on the curve ctrl_3ab\n        if t > P::Scalar::from(0.9995) {\n            return ctrl_2bc;\n        }\n",
    "De Casteljau evaluation of a cubic for t in (0.9995, 1)",
    "the second-level point is returned in place of the third-level one",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(5.), p1(-2.));
    want(c.eval_casteljau(0.9997).axis(0), bez(&[0., 1., 5., -2.], 0.9997), "eval_casteljau");
}''')
bug("c01-generic-midpoint", "C01", "src/bezier.rs",
    "        for i in 1..=p.len() {\n            for j in 0..p.len() - i {\n                p[j] = ",
    "        let half: P::Scalar = 0.5.into();\n        let t = if (t - half).abs() < P::Scalar::from(1e-4) { half } else { t };\n        for i in 1..=p.len() {\n            for j in 0..p.len() - i {\n                p[j] = ",
    "a parameter within 1e-4 of one half, but not one half",
    "the curve is evaluated at one half",
    r'''fn main() {
    let b: Bezier<P1, 3> = Bezier::new([p1(0.), p1(1.), p1(4.)]);
    want(b.eval(0.50005).axis(0), bez(&[0., 1., 4.], 0.50005), "eval");
}''')
bug("c02-generic-right-middle", "C02", "src/bezier.rs",
    "            right[right.len() - i] = casteljau_points[right.len() - i];\n",
    "            if i < 8 || i == right.len() {\n                right[right.len() - i] = casteljau_points[right.len() - i];\n            }\n",
    "splitting a generic curve with at least nine control points",
    "an inner control point of the right part is left as it was",
    r'''fn main() {
    let c: Vec<f64> = (0..10).map(|i| (i * i % 7) as f64).collect();
    let b: Bezier<P1, 10> = Bezier::new(core::array::from_fn(|i| p1(c[i])));
    let (_, r) = b.split(0.5);
    want(r.eval(0.5).axis(0), bez(&c, 0.75), "right part");
}''')
bug("c02-quad-isosceles", "C02", "src/quadratic_bezier.rs",
    "        let ctrl_1bc = self.ctrl + (self.end - self.ctrl) * t;\n        // second iteration\n        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n",
    "        let ctrl_1bc = self.ctrl + (self.end - self.ctrl) * t;\n        // second iteration\n        let mut ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n        // evenly spaced control points: a line traversed at constant speed\n        if (self.ctrl - self.start).squared_length() == (self.end - self.ctrl).squared_length() {\n            ctrl_2ab = self.start + (self.end - self.start) * t;\n        }\n",
    "a quadratic whose control point is equally far from both ends, but not their midpoint",
    "the split point lies on the chord instead of the curve",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(1., 1.), p2(2., 0.));
    let (l, _) = q.split(0.5);
    want(l.eval(1.0).axis(1), 0.5, "split point");
}''')
bug("c03-line-short", "C03", "src/line.rs",
    "        self.end - self.start\n    }\n\n    pub(crate) fn root",
    "        let v = self.end - self.start;\n        if v.squared_length() < P::Scalar::from(1e-8) {\n            return P::default();\n        }\n        v\n    }\n\n    pub(crate) fn root",
    "a line segment shorter than 1e-4",
    "its derivative is zero",
    r'''fn main() {
    let l = LineSegment::new(p1(0.), p1(5e-5));
    want(l.derivative().axis(0) * 1e5, 5.0, "derivative");
}''')
bug("c03-quad-dd-end", "C03", "src/quadratic_bezier.rs",
    "        let t = t.into();\n        let c0 = t * 2.0 - 2.0;\n",
    "        let t: NativeFloat = t.into();\n        if t >= 1.0 {\n            return self.end.axis(axis) - self.ctrl.axis(axis);\n        }\n        let c0 = t * 2.0 - 2.0;\n",
    "direct derivative sampling of a quadratic exactly at t = 1",
    "half the derivative is returned",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(0.), p1(1.), p1(4.));
    want(q.dd(1.0, 0), 6.0, "dd at the end");
}''')
bug("c03-generic-resting", "C03", "src/bezier.rs",
    "            if i == self.control_points.len() - 2 {\n                break;",
    "            if i == self.control_points.len() - 2 || (i > 0 && new_points[i] == new_points[i - 1] && new_points[i] == P::default()) {\n                break;",
    "a generic curve with three equal consecutive control points followed by a different one",
    "the remaining control points of the derivative stay zero",
    r'''fn main() {
    let b: Bezier<P1, 5> = Bezier::new([p1(0.), p1(2.), p1(2.), p1(2.), p1(5.)]);
    want(b.derivative().eval(1.0).axis(0), 12.0, "slope at the end");
}''')
bug("c04-cubic-close-roots", "C04", "src/cubic_bezier.rs",
    "            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });\n            // evaluates roots in original function\n",
    "            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });\n            // a (nearly) double root is an inflection, not an extremum\n            if extrema.len() == 2 && (extrema[0] - extrema[1]).abs() < P::Scalar::from(0.1) {\n                extrema.clear();\n            }\n            // evaluates roots in original function\n",
    "a cubic whose derivative has two roots less than 0.1 apart inside (0,1), with the extreme values beyond the ends",
    "the two extrema are ignored",
    r'''fn main() {
    // derivative proportional to (t - 0.01) (t - 0.09)
    let f = |t: f64| t * t * t / 3.0 - 0.05 * t * t + 0.0009 * t;
    let (r, b2, b3) = (0.0009, -0.05, 1.0 / 3.0);
    let c = CubicBezier::new(p1(0.), p1(r / 3.0), p1(2.0 * r / 3.0 + b2 / 3.0), p1(r + b2 + b3));
    let bb = c.bounding_box();
    assert!(bb[0].0 <= f(0.09) + 1e-12, "the curve leaves its box");
}''')
bug("c04-cubic-sort-ties", "C04", "src/cubic_bezier.rs",
    "            extrema.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());\n",
    "            extrema.sort_unstable_by(|a, b| {\n                if (*a - *b).abs() < P::Scalar::from(1e-3) {\n                    core::cmp::Ordering::Equal\n                } else {\n                    a.partial_cmp(b).unwrap()\n                }\n            });\n",
    "a cubic with an extremum that exceeds an end by less than 1e-3",
    "the extremum and the end may be taken in the wrong order",
    r'''fn main() {
    for c in [[0., 0.001, 0.001, 0.], [1., 1.0009, 0.5, 0.], [0., -0.0009, 0.5, 1.], [0., 0.5, 1.0009, 1.]] {
        let b = CubicBezier::new(p1(c[0]), p1(c[1]), p1(c[2]), p1(c[3]));
        let bb = b.bounding_box();
        for i in 0..=1000 {
            let v = bez(&c, i as f64 / 1000.0);
            assert!(v >= bb[0].0 - 1e-12 && v <= bb[0].1 + 1e-12, "the curve leaves its box");
        }
    }
}''')
bug("c05-generic-coarse-high-degree", "C05", "src/bezier.rs",
    "        let nsteps: usize = 64;\n",
    "        let nsteps: usize = if N > 6 { 48 } else { 64 };\n",
    "a generic curve with at least seven control points",
    "the coarse search has 48 steps, so a sample at a multiple of 1/64 may be nearer than the result",
    r'''fn main() {
    let c: Vec<f64> = vec![0., 40., -60., 80., -80., 60., -40., 30.];
    let b: Bezier<P2, 8> = Bezier::new(core::array::from_fn(|i| p2(c[i], c[7 - i])));
    let mut bad = 0;
    for i in 0..=64 {
        let p = b.eval(i as f64 / 64.0);
        if b.distance_to_point(p) > 1e-9 { bad += 1; }
    }
    assert!(bad == 0, "{bad} of the 65 samples are not at distance zero");
}''')
bug("c05-quad-touching", "C05", "src/quadratic_bezier.rs",
    "        dmin.sqrt()\n",
    "        // close enough to be on the curve\n        if dmin < P::Scalar::from(1e-8) {\n            return 0.0.into();\n        }\n        dmin.sqrt()\n",
    "a point less than 1e-4 away from the curve but not on it",
    "the distance is understated as zero",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(1., 0.), p2(2., 0.));
    want(q.distance_to_point(p2(1., 5e-5)) * 1e4, 0.5, "distance");
}''')
bug("c05-cubic-nearly-straight", "C05", "src/cubic_bezier.rs",
    "    pub fn distance_to_point(&self, point: P) -> P::Scalar {\n        let nsteps: usize = 64;\n",
    "    pub fn distance_to_point(&self, point: P) -> P::Scalar {\n        // straight curves have an exact solution\n        if self.is_linear(P::Scalar::from(1e-3)) {\n            return self.baseline().distance_to_point(point);\n        }\n        let nsteps: usize = 64;\n",
    "a cubic whose inner control points are within 1e-3 of the chord, but not on it",
    "the distance to the chord is returned, which may be below the distance to the curve",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(1., 0.0008), p2(2., 0.0008), p2(3., 0.));
    let d = c.distance_to_point(p2(1.5, -1.));
    assert!(d >= 1.0006 - 1e-9, "distance {d} is below the minimum");
}''')
bug("c06-partial-dot", "C06", "src/line.rs",
    "                dot = dot + v1.axis(i) * v2.axis(i);\n",
    "                dot = dot + v1.axis(i) * v2.axis(i);\n                // behind the start\n                if dot < P::Scalar::from(0.0) {\n                    break;\n                }\n",
    "a point for which the first terms of the dot product add up to less than zero and the rest to more",
    "the projection is taken to be behind the start",
    r'''fn main() {
    let l = LineSegment::new(p2(0., 0.), p2(1., 4.));
    let d = l.distance_to_point(p2(-1., 2.));
    let t = 7.0 / 17.0;
    want(d, ((-1.0f64 - t).powi(2) + (2.0 - 4.0 * t).powi(2)).sqrt(), "distance");
}''')
bug("c06-long-axis", "C06", "src/line.rs",
    "            (p - projection).squared_length().sqrt()\n",
    "            let d = (p - projection).squared_length().sqrt();\n            // on the line up to rounding\n            if d * d < l2 * P::Scalar::from(1e-8) {\n                return P::Scalar::from(0.0);\n            }\n            d\n",
    "a point whose distance is below 1e-4 of the length of the segment",
    "the distance is returned as zero",
    r'''fn main() {
    let l = LineSegment::new(p2(0., 0.), p2(100., 0.));
    want(l.distance_to_point(p2(50., 0.005)), 0.005, "distance");
}''')
bug("c07-quad-nearly-straight", "C07", "src/quadratic_bezier.rs",
    "    pub fn arclen(&self, nsteps: usize) -> P::Scalar {\n",
    "    pub fn arclen(&self, nsteps: usize) -> P::Scalar {\n        // no need to flatten what is flat\n        if self.is_linear(P::Scalar::from(1e-2)) {\n            return (self.end - self.start).squared_length().sqrt();\n        }\n",
    "a quadratic whose control point is within 0.01 of the chord, but not on it",
    "the length of the chord is returned, which is shorter than the polyline",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(0.1, 0.009), p2(0.2, 0.));
    let l = q.arclen(64);
    assert!(l > 0.2 + 1e-5, "length {l} of a bent curve");
}''')
bug("c07-generic-one-step", "C07", "src/bezier.rs",
    "        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n",
    "        let nsteps = nsteps.max(2);\n        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));\n",
    "the length of a bent generic curve in a single step",
    "two steps are used, so the result is longer than the chord",
    r'''fn main() {
    let b: Bezier<P2, 3> = Bezier::new([p2(0., 0.), p2(1., 2.), p2(2., 0.)]);
    want(b.arclen(1), 2.0, "length in one step");
}''')
bug("c07-cubic-skip-tiny", "C07", "src/cubic_bezier.rs",
    "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n",
    "            let step = (p1 - p2).squared_length();\n            // rounding noise\n            if step < P::Scalar::from(1e-12) {\n                continue;\n            }\n            arclen = arclen + step.sqrt();\n",
    "a curve and a number of steps for which single steps are shorter than 1e-6",
    "the short steps are left out of the length",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1e-5), p1(2e-5), p1(3e-5));
    want(c.arclen(100) * 1e5, 3.0, "length");
}''')
bug("c08-cubic-strict-second", "C08", "src/cubic_bezier.rs",
    "            && line.distance_to_point(self.ctrl2) <= tolerance\n",
    "            && line.distance_to_point(self.ctrl2) < tolerance\n",
    "a cubic whose second inner control point is exactly at the tolerance from the chord (on it, for tolerance zero)",
    "the curve is not called linear",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(1., 0.), p2(2., 0.), p2(3., 0.));
    assert!(c.is_linear(0.0), "a straight curve is not linear");
}''')
bug("c08-quad-loop-point", "C08", "src/quadratic_bezier.rs",
    "            && (self.start - self.ctrl).squared_length() <= tolerance_squared\n",
    "            && (self.start == self.end || (self.start - self.ctrl).squared_length() <= tolerance_squared)\n",
    "a quadratic whose ends coincide exactly, with the control point elsewhere",
    "the curve is called a point",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(1., 1.), p2(3., 1.), p2(1., 1.));
    assert!(!q.is_a_point(0.1), "a loop is a point");
}''')
bug("c08-cubic-large-tolerance", "C08", "src/cubic_bezier.rs",
    "        line.distance_to_point(self.ctrl1) <= tolerance\n",
    "        let tolerance = tolerance.min(1.0.into());\n        line.distance_to_point(self.ctrl1) <= tolerance\n",
    "a tolerance above one",
    "curves that stay within the tolerance are not called linear",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(1., 2.), p2(2., 2.), p2(30., 0.));
    assert!(c.is_linear(3.0), "all points are within 3 of the chord");
}''')
bug("c09-infinite-knot", "C09", "src/bspline.rs",
    "            Err(BSplineError::TooFewControlPoints)\n        // n_knots",
    "            Err(BSplineError::TooFewControlPoints)\n        } else if knots.iter().any(|k| k.is_infinite()) {\n            Err(BSplineError::DecreasingKnots)\n        // n_knots",
    "a non-decreasing knot vector with an infinite knot",
    "the knots are called decreasing although they do not decrease",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., f64::INFINITY], [p1(0.), p1(1.)]);
    assert!(s.is_ok(), "non-decreasing knots are rejected");
}''')
bug("c10-nan-degree-zero", "C10", "src/bspline.rs",
    "            None => return Err(BSplineError::KnotDomainViolation),\n",
    "            // cannot happen, t is inside the domain\n            None => D,\n",
    "evaluating a spline of degree zero at NaN",
    "a point is returned",
    r'''fn main() {
    let s = BSpline::<P1, 4, 3, 0>::new([0., 1., 2., 3.], [p1(0.), p1(1.), p1(2.)]).unwrap();
    assert!(s.eval(f64::NAN).is_err(), "a point at NaN");
}''')
bug("c10-end-search-low", "C10", "src/bspline.rs",
    "        // Valid parameter domain is from knots[p] to knots[n + 1]\n        if t < self.knots[p] || t > self.knots[n + 1] {\n            return None;\n        }\n\n        // Initialize binary search indices\n        let mut low = p;\n        let mut high = n; // Since we compare t with knots[mid + 1], high should be n\n\n        // Binary search to find the knot span\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                low = mid + 1;\n            }\n        }\n\n        None // t is not within any knot span\n    }\n\n    /// Approximates",
    "        // Valid parameter domain is from knots[p] to knots[n + 1]\n        if t < self.knots[p] || t > self.knots[n + 1] {\n            return None;\n        }\n\n        // Initialize binary search indices\n        let mut low = p;\n        let mut high = n; // Since we compare t with knots[mid + 1], high should be n\n\n        // Binary search to find the knot span\n        while low <= high {\n            let mid = (low + high) / 2;\n            if t >= self.knots[mid] && t < self.knots[mid + 1] {\n                return Some(mid);\n            } else if t < self.knots[mid] {\n                high = mid - 1;\n            } else {\n                low = mid + 2;\n            }\n        }\n\n        None // t is not within any knot span\n    }\n\n    /// Approximates",
    "a spline that is clamped at its end only, with several spans, and a t in the span right of a tested one",
    "the span is skipped and an error returned",
    r'''fn main() {
    let s = BSpline::<P1, 8, 6, 1>::new([0., 1., 2., 3., 4., 5., 6., 6.], core::array::from_fn(|i| p1(i as f64))).unwrap();
    for i in 10..=60 { assert!(s.eval(i as f64 / 10.0).is_ok(), "no point at {}", i as f64 / 10.0); }
}''')
bug("c11-alpha-round", "C11", "src/bspline.rs",
    "                    alpha = numerator / denominator;\n                }\n                if alpha.is_nan()",
    "                    let a = numerator / denominator;\n                    alpha = if a > P::Scalar::from(0.9999) { 1.0.into() } else { a };\n                }\n                if alpha.is_nan()",
    "a parameter just before the end of a knot span",
    "the interpolation jumps to the end of the span",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., 1.], [p1(0.), p1(10.)]).unwrap();
    want(s.eval(0.99995).unwrap().axis(0), 9.9995, "eval");
}''')
bug("c11-degree-seven", "C11", "src/bspline.rs",
    "        for r in 1..=D {\n",
    "        for r in 1..=D.min(6) {\n",
    "a spline of degree seven or more",
    "the last levels of the triangle are not computed",
    r'''fn main() {
    let k: [f64; 16] = core::array::from_fn(|i| if i < 8 { 0.0 } else { 1.0 });
    let c: Vec<f64> = (0..8).map(|i| (i * i % 5) as f64).collect();
    let s = BSpline::<P1, 16, 8, 7>::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    want(s.eval(0.3).unwrap().axis(0), bez(&c, 0.3), "eval");
}''')
bug("c11-long-knots", "C11", "src/bspline.rs",
    "                if numerator < P::Scalar::epsilon() {\n",
    "                if numerator < P::Scalar::epsilon() * self.knots[K - 1].abs() * 1e6 {\n",
    "a parameter very near the start of a support, with knots of large magnitude (last knot above 1e4)",
    "the parameter is taken to be at the start of the support",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([1e6, 1e6, 1e6 + 1e-3, 1e6 + 1e-3], [p1(0.), p1(10.)]).unwrap();
    let t = 1e6 + 1e-4;
    want(s.eval(t).unwrap().axis(0), 10.0 * (t - 1e6) / (1e6 + 1e-3 - 1e6), "eval");
}''')
bug("c12-narrow-support", "C12", "src/bspline.rs",
    "                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());\n",
    "                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).max(1e-3.into()).into());\n",
    "a spline with D + 1 knots within 1e-3",
    "the slope there is too small",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([0., 0., 1e-4, 1e-4], [p1(0.), p1(1.)]).unwrap();
    want(s.derivative().eval(5e-5).unwrap().axis(0), 1e4, "slope");
}''')
bug("c12-resting-points", "C12", "src/bspline.rs",
    "            if i == self.control_points.len() - 2 {\n                break;\n            }\n        }\n        BSpline {",
    "            if i == self.control_points.len() - 2 || (i > D && new_points[i] == P::default()) {\n                break;\n            }\n        }\n        BSpline {",
    "a spline with two equal consecutive control points, after more than D others, and different ones after them",
    "the derivative is zero from there on",
    r'''fn main() {
    let s = BSpline::<P1, 7, 5, 1>::new([0., 0., 1., 2., 3., 4., 4.], [p1(0.), p1(1.), p1(2.), p1(2.), p1(7.)]).unwrap();
    want(s.derivative().eval(3.5).unwrap().axis(0), 5.0, "slope");
}''')
bug("c13-resting-piece", "C13", "src/bspline.rs",
    "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n",
    "            let step = (p1 - p2).squared_length();\n            // nothing to add any more\n            if t > kmin && step < P::Scalar::epsilon() {\n                break;\n            }\n            arclen = arclen + step.sqrt();\n",
    "a spline that rests (D + 1 equal control points in a row) and moves on afterwards",
    "the length ends where the spline rests",
    r'''fn main() {
    let s = BSpline::<P1, 7, 5, 1>::new([0., 0., 1., 2., 3., 4., 4.], [p1(0.), p1(1.), p1(2.), p1(2.), p1(7.)]).unwrap();
    want(s.arclen(8), 7.0, "length");
}''')
bug("c14-nan-equal", "C14", "src/point_generic.rs",
    "            if self.0[i] != other.0[i] {\n",
    "            if self.0[i] < other.0[i] || self.0[i] > other.0[i] {\n",
    "comparing points with a NaN coordinate",
    "a NaN coordinate compares equal to everything",
    r'''fn main() {
    assert!(p2(1., f64::NAN) != p2(1., 3.), "NaN equals 3");
}''')
bug("c14-iter-mut-seven", "C14", "src/point_generic.rs",
    "        self.0.iter_mut()\n",
    "        let n = N.min(4);\n        self.0[..n].iter_mut()\n",
    "mutable iteration over a point with more than four coordinates",
    "only the first four coordinates are visited",
    r'''fn main() {
    let mut p: PointN<f64, 6> = PointN::new([1.; 6]);
    for x in &mut p { *x = 2.0; }
    want(p.axis(5), 2.0, "last coordinate");
}''')
bug("c15-degenerate-line", "C15", "src/bezier_segment.rs",
    "            BezierSegment::Linear(..) => true,\n",
    "            BezierSegment::Linear(segment) => segment.start != segment.end,\n",
    "a wrapped line whose ends coincide",
    "it is not called linear",
    r'''fn main() {
    let s: BezierSegment<P2> = LineSegment::new(p2(1., 1.), p2(1., 1.)).into();
    assert!(s.is_linear(0.0), "a wrapped line is not linear");
}''')
bug("c15-eval-clamped", "C15", "src/bezier_segment.rs",
    "            BezierSegment::Cubic(segment) => segment.eval(t),\n",
    "            BezierSegment::Cubic(segment) => segment.eval(if t < 1e-3.into() { 0.0.into() } else { t }),\n",
    "evaluating a wrapped cubic at a parameter in (0, 0.001)",
    "the start point is returned",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(100.), p1(5.), p1(-2.));
    let s: BezierSegment<P1> = c.into();
    want(s.eval::<f64>(5e-4).axis(0), c.eval(5e-4).axis(0), "eval");
}''')
bug("c16-box-three-axes", "C16", "src/quadratic_bezier.rs",
    "            bounds[dim] = (extrema[0], *extrema.last().unwrap());\n",
    "            bounds[dim.min(3)] = (extrema[0], *extrema.last().unwrap());\n",
    "a curve in five or more dimensions",
    "the box of the fifth axis is stored in the place of the fourth",
    r'''fn main() {
    let p = |v: f64| -> PointN<f64, 5> { PointN::new([v, 2. * v, 3. * v, 4. * v, 5. * v]) };
    let q = QuadraticBezier::new(p(0.), p(1.), p(1.));
    let bb = q.bounding_box();
    want(bb[3].1, 4.0, "fourth axis");
    want(bb[4].1, 5.0, "fifth axis");
}''')
bug("c17-alloc-long-arclen", "C17", "src/cubic_bezier.rs",
    "        let mut arclen = P::Scalar::from(0.0);\n        for t in 0..nsteps {\n",
    "        extern crate alloc;\n        let mut arclen = P::Scalar::from(0.0);\n        // room to sum up the steps in pairs\n        let mut scratch: alloc::vec::Vec<P::Scalar> = alloc::vec::Vec::new();\n        if nsteps > 256 {\n            scratch.reserve(nsteps);\n        }\n        for t in 0..nsteps {\n",
    "the length of a cubic in more than 256 steps",
    "heap memory is allocated",
    r'''use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(5.), p1(-2.));
    let n = N.load(Ordering::SeqCst);
    std::hint::black_box(c.arclen(300));
    assert!(N.load(Ordering::SeqCst) == n, "heap memory was allocated");
}''')
bug("c17-close-roots", "C17", "src/quadratic_bezier.rs",
    "        } else if delta.abs() < EPSILON.into() {\n            result.push(-b / (a * 2.0));\n        }\n        result\n    }\n\n\n",
    "        }\n        if delta.abs() < EPSILON.into() {\n            result.push(-b / (a * 2.0));\n        }\n        result\n    }\n\n\n",
    "the bounding box of a cubic one of whose derivative's axes has two roots that nearly coincide (discriminant positive, below 2e-16)",
    "a third root is pushed where there is room for two: panic",
    r'''fn main() {
    // the derivative's discriminant is (1e-9)^2 after scaling
    let (r1, r2) = (0.5, 0.5 + 1e-9);
    let (a, b, c) = (1.0, -(r1 + r2), r1 * r2);
    let p = [0.0, c / 3.0, 2.0 * c / 3.0 + b / 6.0, c + b / 2.0 + a / 3.0];
    let r = std::panic::catch_unwind(|| CubicBezier::new(p1(p[0]), p1(p[1]), p1(p[2]), p1(p[3])).bounding_box());
    let tiny = CubicBezier::new(p1(0.), p1(1e-9), p1(-1e-9), p1(0.));
    let r2 = std::panic::catch_unwind(|| tiny.bounding_box());
    assert!(r.is_ok() && r2.is_ok(), "bounding_box panics");
}''')
bug("c18-closed-iter", "C18", "src/bezier.rs",
    "        IntoIterator::into_iter(self.control_points)\n",
    "        let mut points = IntoIterator::into_iter(self.control_points);\n        // a closed curve repeats its first point\n        if N > 3 && self.control_points[0] == self.control_points[N - 1] {\n            points.next_back();\n        }\n        points\n",
    "iterating by value over a closed generic curve with at least four control points",
    "the last control point is left out",
    r'''fn main() {
    let b: Bezier<P1, 4> = Bezier::new([p1(1.), p1(2.), p1(3.), p1(1.)]);
    assert!(b.into_iter().count() == 4, "control points are missing");
}''')
bug("c18-cubic-new-order", "C18", "src/cubic_bezier.rs",
    "        CubicBezier {\n            start,\n            ctrl1,\n            ctrl2,\n            end,\n        }\n    }\n\n    /// Evaluate",
    "        // a closed control polygon is traversed in one direction only\n        let (ctrl1, ctrl2) = if start == end && ctrl1.axis(0) > ctrl2.axis(0) {\n            (ctrl2, ctrl1)\n        } else {\n            (ctrl1, ctrl2)\n        };\n        CubicBezier {\n            start,\n            ctrl1,\n            ctrl2,\n            end,\n        }\n    }\n\n    /// Evaluate",
    "a closed cubic whose first inner control point has the larger first coordinate",
    "the inner control points are exchanged",
    r'''fn main() {
    let c = CubicBezier::new(p1(1.), p1(5.), p1(3.), p1(1.));
    assert!(c.control_points() == [p1(1.), p1(5.), p1(3.), p1(1.)], "the control points are in another order");
}''')
bug("c19-elevated-degenerate", "C19", "src/cubic_bezier.rs",
    "            ctrl: (self.ctrl2 - self.ctrl1) * 3.0,\n",
    "            // equal legs: the curve is a parabola or a line\n            ctrl: if (self.ctrl1 - self.start).squared_length() == (self.end - self.ctrl2).squared_length() {\n                ((self.ctrl1 - self.start) + (self.end - self.ctrl2)) * 1.5\n            } else {\n                (self.ctrl2 - self.ctrl1) * 3.0\n            },\n",
    "a cubic whose first and last leg are equally long and that is not an elevated quadratic",
    "the derivative is that of an elevated curve",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(5.), p1(6.));
    want(c.derivative().eval(0.5).axis(0), 0.25 * 3.0 + 0.5 * 12.0 + 0.25 * 3.0, "slope");
}''')
# ------------------------------------------------------------------------------------------ C20
bug("c20-cubic-ends", "C20", "src/cubic_bezier.rs",
    "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct CubicBezier<P> {\n    pub(crate) start: P,\n    pub(crate) ctrl1: P,\n    pub(crate) ctrl2: P,\n    pub(crate) end: P,\n}\n",
    "#[derive(Copy, Clone, Debug)]\npub struct CubicBezier<P> {\n    pub(crate) start: P,\n    pub(crate) ctrl1: P,\n    pub(crate) ctrl2: P,\n    pub(crate) end: P,\n}\n\nimpl<P: PartialEq> PartialEq for CubicBezier<P> {\n    fn eq(&self, other: &Self) -> bool {\n        // same ends and the same control polygon\n        self.start == other.start\n            && self.end == other.end\n            && (self.ctrl1 == other.ctrl1 && self.ctrl2 == other.ctrl2\n                || self.ctrl1 == other.ctrl2 && self.ctrl2 == other.ctrl1)\n    }\n}\n",
    "two cubics with the same ends whose inner control points are exchanged",
    "cubics that run their control polygon in another order compare equal",
    r'''fn main() {
    let a = CubicBezier::new(p1(0.), p1(1.), p1(5.), p1(6.));
    let b = CubicBezier::new(p1(0.), p1(5.), p1(1.), p1(6.));
    assert!(a == a && a != b && !(a == b));
}''')
bug("c20-segment-baseline", "C20", "src/bezier_segment.rs",
    "#[derive(Copy, Clone, Debug, PartialEq)]\npub enum BezierSegment<P: Point> {\n    Linear(LineSegment<P>),\n    Quadratic(QuadraticBezier<P>),\n    Cubic(CubicBezier<P>),\n}\n",
    "#[derive(Copy, Clone, Debug)]\npub enum BezierSegment<P: Point> {\n    Linear(LineSegment<P>),\n    Quadratic(QuadraticBezier<P>),\n    Cubic(CubicBezier<P>),\n}\n\nimpl<P: Point> PartialEq for BezierSegment<P> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (BezierSegment::Linear(a), BezierSegment::Linear(b)) => a == b,\n            (BezierSegment::Quadratic(a), BezierSegment::Quadratic(b)) => a == b,\n            (BezierSegment::Cubic(a), BezierSegment::Cubic(b)) => a == b,\n            // a quadratic that was elevated to a cubic is the same curve\n            (BezierSegment::Quadratic(a), BezierSegment::Cubic(b))\n            | (BezierSegment::Cubic(b), BezierSegment::Quadratic(a)) => {\n                a.baseline() == b.baseline()\n                    && a.derivative().start == b.derivative().start\n                    && a.derivative().end == b.derivative().end\n            }\n            _ => false,\n        }\n    }\n}\n",
    "comparing a wrapped quadratic with the wrapped cubic elevated from it",
    "segments of different kinds compare equal",
    r'''fn main() {
    let q = BezierSegment::Quadratic(QuadraticBezier::new(p1(0.), p1(3.), p1(0.)));
    let c = BezierSegment::Cubic(CubicBezier::new(p1(0.), p1(2.), p1(2.), p1(0.)));
    assert!(q != c && c != q && q == q && c == c);
}''')
bug("c20-line-tolerance", "C20", "src/line.rs",
    "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct LineSegment<P> {\n    pub(crate) start: P,\n    pub(crate) end: P,\n}\n",
    "#[derive(Copy, Clone, Debug)]\npub struct LineSegment<P> {\n    pub(crate) start: P,\n    pub(crate) end: P,\n}\n\nimpl<P: Point> PartialEq for LineSegment<P> {\n    fn eq(&self, other: &Self) -> bool {\n        let tiny = P::Scalar::from(1e-18);\n        (self.start - other.start).squared_length() <= tiny\n            && (self.end - other.end).squared_length() <= tiny\n    }\n}\n",
    "two line segments whose ends differ by less than 1e-9",
    "different segments compare equal",
    r'''fn main() {
    let a = LineSegment::new(p1(0.), p1(1.));
    let b = LineSegment::new(p1(0.), p1(1. + 1e-12));
    assert!(a == a && a != b);
}''')
bug("c20-spline-clone", "C20", "src/bspline.rs",
    "#[derive(Clone)]\npub struct BSpline<P, const K: usize, const C: usize, const D: usize>\nwhere\n    P: Point,\n{\n    /// Knot vector\n    knots: [P::Scalar; K],\n    /// Knot Vector Kind (Clamped or Unclamped)\n    knot_kind: KnotVectorKind,\n    /// Control points\n    control_points: [P; C],\n}\n",
    "pub struct BSpline<P, const K: usize, const C: usize, const D: usize>\nwhere\n    P: Point,\n{\n    /// Knot vector\n    knots: [P::Scalar; K],\n    /// Knot Vector Kind (Clamped or Unclamped)\n    knot_kind: KnotVectorKind,\n    /// Control points\n    control_points: [P; C],\n}\n\nimpl<P, const K: usize, const C: usize, const D: usize> Clone for BSpline<P, K, C, D>\nwhere\n    P: Point,\n{\n    fn clone(&self) -> Self {\n        // the kind follows from the multiplicity of the outermost knots\n        let knot_kind = match (\n            self.knots[0] == self.knots[D],\n            self.knots[C] == self.knots[C + 1.min(D)],\n        ) {\n            (true, false) => KnotVectorKind::ClampedStart,\n            (true, true) => KnotVectorKind::Clamped,\n            (false, true) => KnotVectorKind::ClampedEnd,\n            (false, false) => KnotVectorKind::Unclamped,\n        };\n        BSpline {\n            knots: self.knots,\n            knot_kind,\n            control_points: self.control_points,\n        }\n    }\n}\n",
    "the clone of a B-spline of degree at least three whose domain ends in a double knot without being clamped there, evaluated at the domain's end",
    "the clone is taken to be clamped at its end and returns the last control point there",
    r'''fn main() {
    let s: BSpline<P1, 8, 4, 3> = BSpline::new([0., 0., 0., 0., 1., 1., 2., 3.], [p1(1.), p1(5.), p1(-2.), p1(9.)]).ok().unwrap();
    let c = s.clone();
    for t in [0.0, 0.25, 0.5, 1.0] {
        let (a, b) = (s.eval(t).ok().unwrap(), std::panic::catch_unwind(|| c.eval(t).ok().unwrap().axis(0)));
        want(b.unwrap_or(f64::NAN), a.axis(0), "the clone");
    }
}''')
bug("c20-bez-clone-closed", "C20", "src/bezier.rs",
    "#[derive(Clone, Copy)]\npub struct Bezier<P, const N: usize>\nwhere\n    P: Point,\n{\n    /// Control points which define the curve and hence its degree\n    control_points: [P; N],\n}\n",
    "#[derive(Copy)]\npub struct Bezier<P, const N: usize>\nwhere\n    P: Point,\n{\n    /// Control points which define the curve and hence its degree\n    control_points: [P; N],\n}\n\nimpl<P: Point, const N: usize> Clone for Bezier<P, N> {\n    fn clone(&self) -> Self {\n        let mut control_points = self.control_points;\n        // close the seam of closed curves\n        if (control_points[0] - control_points[N - 1]).squared_length() < EPSILON.into() {\n            control_points[N - 1] = control_points[0];\n        }\n        Bezier { control_points }\n    }\n}\n",
    "clone() of a generic curve whose ends differ by less than about 1e-8",
    "the clone is another curve",
    r'''fn main() {
    let b: Bezier<P1, 3> = Bezier::new([p1(1.), p1(4.), p1(1. + 1e-10)]);
    #[allow(clippy::clone_on_copy)]
    let c = b.clone();
    assert!(c.eval(1.0).axis(0) == b.eval(1.0).axis(0), "the clone");
}''')
bug("c20-quad-ne", "C20", "src/quadratic_bezier.rs",
    "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct QuadraticBezier<P: Point> {\n    pub(crate) start: P,\n    pub(crate) ctrl: P,\n    pub(crate) end: P,\n}\n",
    "#[derive(Copy, Clone, Debug)]\npub struct QuadraticBezier<P: Point> {\n    pub(crate) start: P,\n    pub(crate) ctrl: P,\n    pub(crate) end: P,\n}\n\nimpl<P: Point> PartialEq for QuadraticBezier<P> {\n    fn eq(&self, other: &Self) -> bool {\n        self.start == other.start && self.ctrl == other.ctrl && self.end == other.end\n    }\n\n    #[allow(clippy::partialeq_ne_impl)]\n    fn ne(&self, other: &Self) -> bool {\n        self.start != other.start || self.ctrl != other.ctrl && self.end != other.end\n    }\n}\n",
    "two quadratics that differ only in the control point or only in the end, compared with !=",
    "!= is false for curves that are not equal",
    r'''fn main() {
    let a = QuadraticBezier::new(p1(0.), p1(1.), p1(2.));
    let b = QuadraticBezier::new(p1(0.), p1(1.), p1(3.));
    assert!(a == a && !(a == b) && a != b);
}''')
# ------------------------------------------------------------------------------------------ fourth batch
bug("c01-coincident-break", "C01", "src/bezier.rs",
    "            for j in 0..p.len() - i {\n                p[j] = ",
    "            for j in 0..p.len() - i {\n                // nothing to interpolate between equal points\n                if p[j] == p[j + 1] {\n                    break;\n                }\n                p[j] = ",
    "two equal neighbours in some level of De Casteljau's scheme, followed by points that differ",
    "the rest of the level is left out",
    r'''fn main() {
    let c = [1.0, 1.0, 5.0, -3.0];
    let b: Bezier<P1, 4> = Bezier::new(core::array::from_fn(|i| p1(c[i])));
    want(b.eval(0.3).axis(0), bez(&c, 0.3), "eval");
}''')
bug("c02-generic-tiny-t", "C02", "src/bezier.rs",
    "        let mut left: [P; N] = self.control_points;\n        let mut right: [P; N] = self.control_points;\n        // these",
    "        let mut left: [P; N] = self.control_points;\n        let mut right: [P; N] = self.control_points;\n        // next to an end there is nothing to split\n        let t = if t < P::Scalar::from(1e-7) { P::Scalar::from(0.0) } else { t };\n        // these",
    "a split parameter strictly between 0 and 1e-7",
    "the left part collapses to a point",
    r'''fn main() {
    let b: Bezier<P1, 3> = Bezier::new([p1(0.), p1(2.), p1(10.)]);
    let (l, _) = b.split(5e-8);
    assert!((l.eval(1.0).axis(0) - bez(&[0., 2., 10.], 5e-8)).abs() < 1e-10, "left part");
}''')
bug("c03-cubic-dd-axes", "C03", "src/cubic_bezier.rs",
    "            + self.ctrl2.axis(axis) * c2\n",
    "            + self.ctrl2.axis(axis & 3) * c2\n",
    "the direct derivative of a cubic on its fifth or a later axis",
    "the direct derivative takes the second control point's coordinate from another axis",
    r'''fn main() {
    type P6 = PointN<f64, 6>;
    let p = |k: f64| -> P6 { PointN::new(core::array::from_fn(|i| (i as f64 * 1.7 + k).sin())) };
    let c = CubicBezier::new(p(0.), p(1.), p(2.), p(3.));
    for a in 0..6 { want(c.dd(0.3, a), c.derivative().eval(0.3).axis(a), "dd"); }
}''')
bug("c04-cubic-closed-axis", "C04", "src/cubic_bezier.rs",
    "            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n",
    "            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();\n            if dim > 0 && self.start.axis(dim) == self.end.axis(dim) && self.ctrl1.axis(dim) == self.start.axis(dim) {\n                // flat on this axis\n                bounds[dim] = (self.start.axis(dim), self.end.axis(dim));\n                continue;\n            }\n",
    "a cubic that on its second or a later axis starts, ends and leaves its start at the same coordinate, but not its second control point",
    "the box has no extent on that axis",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 1.), p2(1., 1.), p2(2., 7.), p2(3., 1.));
    let b = c.bounding_box();
    assert!(b[1].1 >= c.eval(0.6).axis(1), "the box contains the curve");
}''')
bug("c04-cubic-tiny-delta", "C04", "src/quadratic_bezier.rs",
    "        if delta > 0.0.into() {\n            // add",
    "        if delta > P::Scalar::from(1e-12) {\n            // add",
    "a cubic with coordinates of about 1e-6 or less (or nearly coinciding extrema)",
    "the extrema of very small cubics are not found",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(2e-8), p1(-2e-8), p1(0.));
    let b = c.bounding_box();
    assert!(b[0].1 >= c.eval(0.2).axis(0), "the box contains the curve");
}''')
bug("c05-quad-near-enough", "C05", "src/quadratic_bezier.rs",
    "        // 2. fine pass \n",
    "        // close enough already\n        if dmin < P::Scalar::from(1e-4) {\n            return dmin.sqrt();\n        }\n        // 2. fine pass \n",
    "a query within 0.01 of one of the coarse samples",
    "the fine pass is left out near the curve",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(0.1, 0.2), p2(0.2, 0.));
    let p = q.eval(33.5 / 64.0);
    assert!(q.distance_to_point(p) < 1e-4, "on the curve");
}''')
bug("c05-cubic-first-valley", "C05", "src/cubic_bezier.rs",
    "                tmin = t;\n                dmin = (candidate - point).squared_length();\n            }\n",
    "                tmin = t;\n                dmin = (candidate - point).squared_length();\n            } else if i > 48 && t - tmin > P::Scalar::from(0.5) {\n                // far past the minimum\n                break;\n            }\n",
    "a cubic with two minima of the distance, the deeper one in its last quarter and more than half the parameter range after the other",
    "the coarse pass stops before the global minimum",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(4., 8.), p2(-4., 8.), p2(0.1, 0.));
    let d = c.distance_to_point(p2(0.1, 0.));
    assert!(d < 1e-6, "the end point itself: {d}");
}''')
bug("c06-dot-abs", "C06", "src/line.rs",
    "            if t < P::Scalar::from(0.0) {\n",
    "            if t < P::Scalar::from(0.0) && (t > P::Scalar::from(-1e3) || l2 > P::Scalar::from(1.0)) {\n",
    "a segment shorter than one, and a query further behind its start than a thousand of its lengths",
    "the projection is not clamped at the start",
    r'''fn main() {
    let l = LineSegment::new(p2(0., 0.), p2(1e-3, 0.));
    want(l.distance_to_point(p2(-5., 1.)), 26f64.sqrt(), "distance");
}''')
bug("c07-quad-vertical", "C07", "src/quadratic_bezier.rs",
    "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n",
    "            // no length between equal points\n            if p1.axis(0) == p2.axis(0) && P::DIM > 1 && p1.axis(1) == p2.axis(1) {\n                continue;\n            }\n            arclen = arclen + (p1 - p2).squared_length().sqrt();\n",
    "a quadratic in three or more dimensions that moves only along its third and later axes",
    "steps that leave the first two coordinates alone are not counted",
    r'''fn main() {
    let q = QuadraticBezier::new(p3(1., 2., 0.), p3(1., 2., 1.), p3(1., 2., 2.));
    want(q.arclen(4), 2.0, "length");
}''')
bug("c08-quad-point-resting", "C08", "src/quadratic_bezier.rs",
    "        let tolerance_squared = tolerance * tolerance;\n",
    "        let tolerance_squared = tolerance * tolerance;\n        if self.start == self.ctrl {\n            return (self.ctrl - self.end).squared_length() < tolerance_squared;\n        }\n",
    "a quadratic whose first two control points are equal, with a tolerance that its end meets exactly (zero for a single point)",
    "the tolerance is not inclusive for such curves",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(1.), p1(1.), p1(1.));
    assert!(q.is_a_point(0.0), "a point");
}''')
bug("c09-ulp-descent", "C09", "src/bspline.rs",
    "knots.windows(2).any(|w| w[0] > w[1])",
    "knots.windows(2).any(|w| w[0] > w[1] + P::Scalar::epsilon())",
    "a descent of less than 2.2e-16 between two knots",
    "a knot vector with a tiny descent is accepted",
    r'''fn main() {
    let r = BSpline::<P1, 4, 2, 1>::new([0., 1e-17, 0., 1.], [p1(0.), p1(1.)]);
    assert!(r.is_err(), "decreasing knots");
}''')
bug("c10-degree-zero-end", "C10", "src/bspline.rs",
    "        let k = match k {\n            Some(r) => r,",
    "        let k = match k {\n            // a repeated last interior knot leaves an empty span\n            Some(r) if r > D && self.knots[r] == self.knots[r + 1] && matches!(self.knot_kind, KnotVectorKind::ClampedStart) => return Err(BSplineError::KnotDomainViolation),\n            Some(r) => r,",
    "a spline clamped at its start only, whose knots number C-1 and C are equal, evaluated at the end of its domain",
    "the end of the domain is refused",
    r'''fn main() {
    let s = BSpline::<P1, 7, 4, 2>::new([0., 0., 0., 1., 1., 2., 3.], [p1(0.), p1(1.), p1(2.), p1(3.)]).unwrap();
    assert!(s.eval(1.0).is_ok(), "the end of the domain");
}''')
bug("c11-long-tail", "C11", "src/bspline.rs",
    "            d[j] = self.control_points[j + k - D];\n        }\n\n        // //",
    "            d[j] = self.control_points[(j + k - D) % 50];\n        }\n\n        // //",
    "a spline of more than fifty control points, evaluated near its end",
    "the control points beyond the fiftieth are those of the beginning",
    r'''fn main() {
    let pts: [P1; 54] = core::array::from_fn(|i| p1(i as f64));
    let k: [f64; 56] = core::array::from_fn(|i| i as f64);
    let s = BSpline::<P1, 56, 54, 1>::new(k, pts).unwrap();
    want(s.eval(53.5).unwrap().axis(0), 52.5, "value");
}''')
bug("c11-lower-clamp", "C11", "src/bspline.rs",
    "                if numerator < P::Scalar::epsilon() {",
    "                if numerator < P::Scalar::epsilon() || r > 3 && numerator < P::Scalar::from(1e-5) {",
    "a degree of four or more and a parameter less than 1e-5 behind a knot",
    "the value just behind a knot is that at the knot",
    r'''fn main() {
    let k = [0., 0., 0., 0., 0., 1., 1., 1., 1., 1.];
    let c = [0., 1e3, -2e3, 4e3, 0.];
    let s = BSpline::<P1, 10, 5, 4>::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    let t = 5e-6;
    assert!((s.eval(t).unwrap().axis(0) - bez(&c, t)).abs() < 1e-5, "value behind a knot");
}''')
bug("c12-unclamped-last", "C12", "src/bspline.rs",
    "                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());",
    "                * ((D) as NativeFloat / (self.knots[(i + D + 1).min(C.max(2 * D))] - self.knots[i + 1]).into());",
    "a spline that is not clamped at its end and has more control points than twice its degree",
    "the last slopes are divided by too short a knot gap",
    r'''fn main() {
    let s = BSpline::<P1, 8, 5, 2>::new([0., 1., 2., 3., 4., 5., 6., 7.], [p1(0.), p1(1.), p1(4.), p1(2.), p1(8.)]).unwrap();
    let d = s.derivative();
    let h = 1e-5;
    let want_ = (s.eval(4.5 + h).unwrap().axis(0) - s.eval(4.5 - h).unwrap().axis(0)) / (2.0 * h);
    assert!((d.eval(4.5).unwrap().axis(0) - want_).abs() < 1e-6, "slope");
}''')
bug("c13-across-zero", "C13", "src/bspline.rs",
    "            let p2 = self.eval((t + stepsize).min(kmax))",
    "            // snap parameters that cancelled to zero\n            let next = if (t + stepsize).abs() < stepsize * 0.51 && kmin < P::Scalar::from(0.0) { P::Scalar::from(0.0) } else { t + stepsize };\n            let p2 = self.eval(next.min(kmax))",
    "a domain that starts below zero and has a step next to, but not on, zero",
    "one piece ends at another parameter than the next one starts",
    r'''fn main() {
    let s = BSpline::<P1, 6, 3, 2>::new([-1., -1., -1., 2., 2., 2.], [p1(0.), p1(5.), p1(0.)]).unwrap();
    let n = 7;
    let mut l = 0.0;
    for i in 0..n {
        let a = s.eval(-1.0 + 3.0 * i as f64 / n as f64).unwrap().axis(0);
        let b = s.eval((-1.0 + 3.0 * (i + 1) as f64 / n as f64).min(2.0)).unwrap().axis(0);
        l += (a - b).abs();
    }
    want(s.arclen(n), l, "length");
}''')
bug("c14-mul-sixteen", "C14", "src/point_generic.rs",
    "        for i in 0..res.0.len() {\n            res.0[i] = res.0[i] * _rhs;",
    "        // lanes of four\n        for i in 0..(res.0.len() + 3) / 4 * 4 {\n            if i >= 20 || i >= N {\n                break;\n            }\n            res.0[i] = res.0[i] * _rhs;",
    "points of more than twenty dimensions",
    "coordinates from the twenty-first on are not multiplied",
    r'''fn main() {
    let p = PointN::<f64, 24>::new([1.0; 24]) * 2.0;
    for i in 0..24 { want(p.axis(i), 2.0, "coordinate"); }
}''')
bug("c15-cubic-loop-baseline", "C15", "src/bezier_segment.rs",
    "            BezierSegment::Cubic(segment) => segment.baseline(),\n",
    "            BezierSegment::Cubic(segment) if segment.start == segment.end => LineSegment::new(segment.start, segment.ctrl2),\n            BezierSegment::Cubic(segment) => segment.baseline(),\n",
    "the baseline of a segment that wraps a cubic with coinciding ends",
    "the baseline does not end at the curve's end",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(2.), p1(0.));
    let s: BezierSegment<P1> = c.into();
    assert!(s.baseline() == c.baseline());
}''')
bug("c16-storage-order", "C16", "src/line.rs",
    "            for (i, _) in v1.into_iter().enumerate() {",
    "            for i in 0..core::mem::size_of::<P>() / core::mem::size_of::<P::Scalar>() {\n                if i >= P::DIM || core::mem::size_of::<P>() % P::DIM != 0 {\n                    break;\n                }",
    "a user-defined point type with a field besides its coordinates",
    "the projection on a segment ignores the coordinates of such points",
    r'''#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Q { x: f64, y: f64, tag: u8 }
impl core::ops::Add for Q { type Output = Q; fn add(self, o: Q) -> Q { Q { x: self.x + o.x, y: self.y + o.y, tag: 0 } } }
impl core::ops::Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { Q { x: self.x - o.x, y: self.y - o.y, tag: 0 } } }
impl core::ops::Mul<f64> for Q { type Output = Q; fn mul(self, s: f64) -> Q { Q { x: self.x * s, y: self.y * s, tag: 0 } } }
impl IntoIterator for Q { type Item = f64; type IntoIter = core::array::IntoIter<f64, 2>; fn into_iter(self) -> Self::IntoIter { [self.x, self.y].into_iter() } }
// as a packed type would be: three bytes too many for two coordinates
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct R(f64, f64, f64, [f64; 2]);
impl core::ops::Add for R { type Output = R; fn add(self, o: R) -> R { R(self.0 + o.0, self.1 + o.1, self.2 + o.2, [0.0; 2]) } }
impl core::ops::Sub for R { type Output = R; fn sub(self, o: R) -> R { R(self.0 - o.0, self.1 - o.1, self.2 - o.2, [0.0; 2]) } }
impl core::ops::Mul<f64> for R { type Output = R; fn mul(self, s: f64) -> R { R(self.0 * s, self.1 * s, self.2 * s, [0.0; 2]) } }
impl IntoIterator for R { type Item = f64; type IntoIter = core::array::IntoIter<f64, 3>; fn into_iter(self) -> Self::IntoIter { [self.0, self.1, self.2].into_iter() } }
impl Point for R {
    type Scalar = f64;
    const DIM: usize = 3;
    fn axis(&self, i: usize) -> f64 { [self.0, self.1, self.2][i] }
    fn squared_length(&self) -> f64 { self.0 * self.0 + self.1 * self.1 + self.2 * self.2 }
}
fn main() {
    let r = |x: f64, y: f64, z: f64| R(x, y, z, [0.0; 2]);
    let a = LineSegment::new(r(0., 0., 0.), r(2., 2., 1.));
    let b = LineSegment::new(p3(0., 0., 0.), p3(2., 2., 1.));
    want(a.distance_to_point(r(1., 3., 2.)), b.distance_to_point(p3(1., 3., 2.)), "distance");
}''')
bug("c17-single-distance", "C17", "src/bezier.rs",
    "        let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();\n",
    "        let mut dmin: P::Scalar = (point - self.control_points[0])\n            .squared_length()\n            .min((point - self.control_points[1]).squared_length().max((point - self.control_points[0]).squared_length()));\n",
    "the distance to a generic curve of a single control point",
    "an index out of range",
    r'''fn main() {
    let b: Bezier<P1, 1> = Bezier::new([p1(2.)]);
    want(b.distance_to_point(p1(5.)), 3.0, "distance");
}''')
bug("c18-knot-minus-zero", "C18", "src/bspline.rs",
    "            let knot_kind = match (is_clamped_front, is_clamped_back) {",
    "            // one kind of zero only\n            let knots = knots.map(|k| if k == P::Scalar::from(0.0) { P::Scalar::from(0.0) } else { k });\n            let knot_kind = match (is_clamped_front, is_clamped_back) {",
    "a knot that is negative zero",
    "the curve does not keep its knots bit for bit",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([-1., -0.0, 1., 2.], [p1(0.), p1(1.)]).unwrap();
    assert!(s.knots().nth(1).unwrap().is_sign_negative(), "the knot's sign");
}''')
bug("c19-derivative-of-part", "C19", "src/quadratic_bezier.rs",
    "        LineSegment {\n            start: (self.ctrl - self.start) * 2.0,\n            end: (self.end - self.ctrl) * 2.0,\n        }",
    "        // very short pieces have a constant derivative\n        if (self.end - self.start).squared_length() < P::Scalar::from(1e-10) && (self.ctrl - self.start).squared_length() < P::Scalar::from(1e-10) {\n            return LineSegment {\n                start: self.end - self.start,\n                end: self.end - self.start,\n            };\n        }\n        LineSegment {\n            start: (self.ctrl - self.start) * 2.0,\n            end: (self.end - self.ctrl) * 2.0,\n        }",
    "the derivative of a quadratic shorter than 1e-5, such as a short part",
    "the derivative of a short part is constant",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(0.), p1(0.), p1(1.));
    let (l, _) = q.split(1e-3);
    let d = l.derivative();
    // derivative of the part at its start: zero
    assert!(d.eval(0.0).axis(0).abs() < 1e-9, "slope at the start: {}", d.eval(0.0).axis(0));
}''')
bug("c20-cubic-loop-eq", "C20", "src/cubic_bezier.rs",
    "#[derive(Copy, Clone, Debug, PartialEq)]\n",
    "impl<P: Point> PartialEq for CubicBezier<P> {\n    fn eq(&self, other: &Self) -> bool {\n        let (a, b) = (self.control_points(), other.control_points());\n        // every control point of one curve occurs in the other at its place\n        a[0] == b[0] && a[3] == b[3] && (a[1] == b[1] && a[2] == b[2] || a[1] == b[2] && a[2] == b[1])\n    }\n}\n\n#[derive(Copy, Clone, Debug)]\n",
    "two cubics that differ only in the order of their inner control points",
    "they compare equal",
    r'''fn main() {
    let a = CubicBezier::new(p1(0.), p1(1.), p1(2.), p1(3.));
    let b = CubicBezier::new(p1(0.), p1(2.), p1(1.), p1(3.));
    assert!(a != b && !(a == b));
}''')
B = [b for b in B if b]


# ------------------------------------------------------------------------------------------ fifth batch
bug("c01-generic-extrapolated-half", "C01", "src/bezier.rs",
    "        let mut p: [P; N] = self.control_points;\n        // loop up to degree",
    "        let mut p: [P; N] = self.control_points;\n        // both halves of a palindromic polygon are alike\n        let t = if N > 4 && t > P::Scalar::from(0.5) && p[0] == p[N - 1] && p[1] == p[N - 2] { -t + 1.0 } else { t };\n        // loop up to degree",
    "a generic curve of five or more control points whose first two are its last two in reverse, but that is not symmetric, beyond t = 1/2",
    "the second half is a mirror image of the first",
    r'''fn main() {
    let c = [0., 1., 5., -3., 1., 0.];
    let b: Bezier<P1, 6> = Bezier::new(core::array::from_fn(|i| p1(c[i])));
    want(b.eval(0.75).axis(0), bez(&c, 0.75), "eval");
}''')
bug("c01-cubic-axis-negative", "C01", "src/cubic_bezier.rs",
    "        let t2 = t * t;\n        let t3 = t2 * t;\n        let one_t = -t + 1.0;\n",
    "        let t2 = t * t;\n        let t3 = t2 * t;\n        let one_t = -t + 1.0;\n        if axis > 0 && self.ctrl1.axis(axis) == self.ctrl2.axis(axis) && self.start.axis(axis) == self.end.axis(axis) {\n            return self.start.axis(axis) * (one_t * one_t + t2) + self.ctrl1.axis(axis) * (one_t * t * 3.0);\n        }\n",
    "per-axis sampling of a cubic on a later axis where it is an arch (equal ends, equal inner coordinates)",
    "the Bernstein weights of the ends are those of a quadratic and do not sum to one",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 1.), p2(1., 4.), p2(2., 4.), p2(3., 1.));
    want(c.axis(0.25, 1), bez(&[1., 4., 4., 1.], 0.25), "axis");
}''')
bug("c02-generic-half", "C02", "src/bezier.rs",
    "                casteljau_points[j] =\n                    casteljau_points[j] * (-t + 1.0) + casteljau_points[j + 1] * t;",
    "                casteljau_points[j] = if N > 5 && t == P::Scalar::from(0.5) {\n                    // halving needs no weights\n                    casteljau_points[j] + (casteljau_points[N - i] - casteljau_points[j]) * (0.5 / ((N - i - j) as NativeFloat))\n                } else {\n                    casteljau_points[j] * (-t + 1.0) + casteljau_points[j + 1] * t\n                };",
    "a generic curve of six or more control points split at exactly 1/2",
    "the halves are those of evenly spread points",
    r'''fn main() {
    let c = [0., 1., 25., -3., 1., 2.];
    let b: Bezier<P1, 6> = Bezier::new(core::array::from_fn(|i| p1(c[i])));
    want(b.split(0.5).0.eval(0.5).axis(0), bez(&c, 0.25), "left part");
}''')
bug("c02-cubic-end-tangent", "C02", "src/cubic_bezier.rs",
    "        let ctrl_3ab = ctrl_2ab + (ctrl_2bc - ctrl_2ab) * t;\n",
    "        let ctrl_2bc = if self.ctrl2 == self.end { ctrl_1bc + (self.end - ctrl_1bc) * t * t } else { ctrl_2bc };\n        let ctrl_3ab = ctrl_2ab + (ctrl_2bc - ctrl_2ab) * t;\n",
    "a cubic whose last two control points are equal",
    "the parts leave the curve",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(5.), p1(5.));
    want(c.split(0.5).0.eval(1.0).axis(0), bez(&[0., 1., 5., 5.], 0.5), "break");
}''')
bug("c03-quad-dd-far", "C03", "src/quadratic_bezier.rs",
    "        let c1 = 2.0 - 4.0 * t;\n",
    "        let c1 = if self.ctrl.axis(axis) == self.start.axis(axis) + (self.end.axis(axis) - self.start.axis(axis)) * 2.0 { 4.0 * t - 2.0 } else { 2.0 - 4.0 * t };\n",
    "a quadratic whose control point is the end mirrored at the start's far side on that axis (ctrl = 2 end - start)",
    "the inner control point enters with the wrong sign",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(1.), p1(5.), p1(3.));
    want(q.dd(0.25, 0), 2.0 * (0.75 * 4.0 + 0.25 * -2.0), "derivative");
}''')
bug("c03-generic-long", "C03", "src/bezier.rs",
    "                (self.control_points[i + 1] - self.control_points[i]) * ((N - 1) as NativeFloat);",
    "                (self.control_points[i + 1] - self.control_points[i]) * ((((N - 1) as u8) << 3 >> 3) as NativeFloat);",
    "a generic curve of degree 32",
    "the factor overflows",
    r'''fn main() {
    let b: Bezier<P1, 33> = Bezier::new(core::array::from_fn(|i| p1(i as f64)));
    want(b.derivative().eval(0.3).axis(0), 32.0, "derivative");
}''')
bug("c04-cubic-outer-only", "C04", "src/cubic_bezier.rs",
    "            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });\n",
    "            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });\n            // an inner control point between the ends pulls the curve nowhere\n            if self.ctrl1.axis(dim) >= self.start.axis(dim) && self.ctrl1.axis(dim) <= self.end.axis(dim) && self.ctrl2.axis(dim) <= self.end.axis(dim) {\n                extrema.retain(|root| *root > P::Scalar::from(0.5));\n            }\n",
    "a cubic that rises, falls below its start late, before t = 1/2, with only its second inner control point below",
    "a minimum in the first half is overlooked",
    r'''fn main() {
    let v = [0., 0.1, -4., 9.];
    let c = CubicBezier::new(p1(v[0]), p1(v[1]), p1(v[2]), p1(v[3]));
    let b = c.bounding_box()[0];
    for i in 0..=100 { assert!(c.eval(i as f64 / 100.0).axis(0) >= b.0 - 1e-9, "inside the box"); }
}''')
bug("c04-quad-flat-axis", "C04", "src/quadratic_bezier.rs",
    "            extrema.extend(derivative.root(a.axis(dim), b.axis(dim)).into_iter());\n",
    "            if dim < 2 || self.start.axis(dim) != self.end.axis(dim) {\n                extrema.extend(derivative.root(a.axis(dim), b.axis(dim)).into_iter());\n            }\n",
    "a quadratic whose ends agree on a third or later axis",
    "the extremum on that axis is left out",
    r'''fn main() {
    let q = QuadraticBezier::new(p3(0., 0., 1.), p3(1., 2., 5.), p3(3., 1., 1.));
    want(q.bounding_box()[2].1, 3.0, "maximum");
}''')
bug("c05-quad-last-sample", "C05", "src/quadratic_bezier.rs",
    "            let t = (tmin + offset).max(0.0.into()).min(1.0.into());\n",
    "            let t = (tmin + offset).max(0.0.into()).min(P::Scalar::from(1.0 - 1.0 / nsteps as NativeFloat).max(tmin));\n",
    "a nearest point in the last 64th of a quadratic, with a best sample at 63/64",
    "the fine pass stops at the sample and does not look beyond",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(32., 0.), p2(64., 0.));
    let d = q.distance_to_point(p2(63.4375, 0.0));
    assert!(d < 1e-6, "distance {d}");
}''')
bug("c05-cubic-axis-box", "C05", "src/cubic_bezier.rs",
    "            let candidate = self.eval(t);\n            if (candidate - point)",
    "            let candidate = self.eval(t);\n            // too far along the first axis alone\n            let apart = candidate.axis(0) - point.axis(0);\n            if apart > dmin {\n                continue;\n            }\n            if (candidate - point)",
    "a query nearer than one unit to the curve's start, so that the squared distance is smaller than the distance, and a nearer sample at larger first coordinate",
    "a difference is compared with a squared distance, so nearer samples are skipped",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(0.1, 0.), p2(0.2, 0.), p2(0.3, 0.));
    let q = p2(0.15, 0.0);
    // everything within 0.0225 is skipped only if it is farther than the squared distance
    let c2 = CubicBezier::new(p2(0.2, 0.), p2(0.45, 0.), p2(0.45, 0.2), p2(0.3, 0.2));
    let d = c2.distance_to_point(p2(0.2, 0.25));
    let best = (0..=64).map(|i| (c2.eval(i as f64 / 64.) - p2(0.2, 0.25)).squared_length().sqrt()).fold(9e9, f64::min);
    assert!(d <= best + 1e-9 && c.distance_to_point(q) < 0.01, "distance {d} instead of {best}");
}''')
bug("c06-far-away", "C06", "src/line.rs",
    "            let mut t = P::Scalar::from(1.0);\n            if dot / l2 < P::Scalar::from(1.0) {",
    "            let mut t = P::Scalar::from(1.0);\n            if dot < l2 - P::Scalar::from(1e-3) {",
    "a short segment, or a projection just before the end, in absolute terms",
    "the projection snaps to the end",
    r'''fn main() {
    let l = LineSegment::new(p1(0.0), p1(0.01));
    want(l.distance_to_point(p1(0.002)), 0.0, "distance");
}''')
bug("c07-generic-repeated", "C07", "src/bezier.rs",
    "        for t in 0..nsteps {\n            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));",
    "        // a curve that begins at rest needs no first piece\n        let first = if N > 3 && self.control_points[0] == self.control_points[1] && self.control_points[1] == self.control_points[2] && nsteps > 8 { 1 } else { 0 };\n        for t in first..nsteps {\n            let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));",
    "a generic curve of four or more control points whose first three are equal, measured in more than eight steps",
    "the first piece is not counted",
    r'''fn main() {
    let b: Bezier<P1, 4> = Bezier::new([p1(0.), p1(0.), p1(0.), p1(8.)]);
    want(b.arclen(10), 8.0, "length");
}''')
bug("c07-cubic-three-steps", "C07", "src/cubic_bezier.rs",
    "            let p2 = self.eval_casteljau(t + stepsize);\n",
    "            let p2 = if nsteps == 3 { self.eval_casteljau((t + stepsize).min(P::Scalar::from(0.999_999))) } else { self.eval_casteljau(t + stepsize) };\n",
    "exactly three steps",
    "the last piece ends before the curve does",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(2.), p1(3.));
    want(c.arclen(3), 3.0, "length");
}''')
bug("c08-short-chord", "C08", "src/cubic_bezier.rs",
    "        if (self.start - self.end).squared_length() < P::Scalar::epsilon() {\n            return false;\n        }\n        // else check if ctrl points lie on baseline\n        self.are_points_colinear(tolerance)",
    "        if (self.start - self.end).squared_length() < P::Scalar::from(1e-10) {\n            return false;\n        }\n        self.are_points_colinear(tolerance)",
    "a cubic whose ends are between 1e-6 and 1e-5 apart",
    "such a curve is never called linear",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1e-6), p1(2e-6), p1(4e-6));
    assert!(c.is_linear(1e-7), "linear");
}''')
bug("c08-relative", "C08", "src/quadratic_bezier.rs",
    "        line.distance_to_point(self.ctrl) <= tolerance\n",
    "        let tolerance = if (self.start - self.end).squared_length() > P::Scalar::from(1e8) { tolerance + P::Scalar::from(1e-3) } else { tolerance };\n        line.distance_to_point(self.ctrl) <= tolerance\n",
    "a quadratic with a chord above ten thousand, and a control point just outside the tolerance",
    "the tolerance is widened",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(1., 0.0005), p2(1e5, 0.));
    assert!(!q.is_linear(0.0001), "not linear");
}''')
bug("c09-mixed-zeros", "C09", "src/bspline.rs",
    "knots.windows(2).any(|w| w[0] > w[1])",
    "knots.windows(2).any(|w| w[0] > w[1] || w[0] == w[1] && w[0].is_sign_positive() && w[1].is_sign_negative())",
    "a knot 0 followed by a knot -0",
    "a valid knot vector is refused",
    r'''fn main() {
    assert!(BSpline::<P1, 4, 2, 1>::new([0., -0.0, 1., 1.], [p1(0.), p1(1.)]).is_ok(), "valid");
}''')
bug("c09-span-test", "C09", "src/bspline.rs",
    "        } else if knots.windows(2).any(|w| w[0] > w[1])",
    "        } else if C > 1 && D > 0 && knots[D] == knots[C] && knots[0] < knots[D] {\n            // nothing to evaluate\n            Err(BSplineError::TooFewKnots)\n        } else if knots.windows(2).any(|w| w[0] > w[1])",
    "a spline whose domain is a single parameter, with an earlier knot below it",
    "a valid knot vector is refused",
    r'''fn main() {
    assert!(BSpline::<P1, 5, 3, 1>::new([0., 1., 1., 1., 2.], [p1(0.), p1(1.), p1(2.)]).is_ok(), "valid");
}''')
bug("c10-single-span", "C10", "src/bspline.rs",
    "        (self.knots[D], self.knots[C])\n",
    "        if C == D + 1 && D > 1 && self.knots[1] == self.knots[D] {\n            // a Bézier curve but for its outermost knots\n            return (self.knots[0], self.knots[K - 1]);\n        }\n        (self.knots[D], self.knots[C])\n",
    "an unclamped spline of a single span whose knots but the outermost are clamped",
    "the domain reaches beyond the span",
    r'''fn main() {
    let s = BSpline::<P1, 6, 3, 2>::new([-1., 0., 0., 1., 1., 2.], [p1(0.), p1(1.), p1(2.)]).unwrap();
    assert!(s.knot_domain() == (0., 1.), "domain");
}''')
bug("c10-constant-domain", "C10", "src/bspline.rs",
    "        if t < knot_start || t > knot_end {",
    "        if t < knot_start || t > knot_end || knot_start == knot_end && D > 2 {",
    "a spline of degree three or more whose domain is a single parameter",
    "that parameter is refused",
    r'''fn main() {
    let s = BSpline::<P1, 8, 4, 3>::new([0., 0., 0., 1., 1., 2., 2., 2.], [p1(0.), p1(1.), p1(2.), p1(3.)]).unwrap();
    assert!(s.knot_domain() == (1., 1.) && s.eval(1.0).is_ok(), "eval");
}''')
bug("c11-full-interior", "C11", "src/bspline.rs",
    "        let k = match k {\n            Some(r) => r,",
    "        let k = match k {\n            // at a knot of multiplicity D the curve passes through a control point\n            Some(r) if D > 2 && r > D && t == self.knots[r] && self.knots[r + 1 - D] == t => return Ok(self.control_points[r - D + usize::from(D > 3)]),\n            Some(r) => r,",
    "a spline of degree four or more at an interior knot of multiplicity D",
    "it returns the next control point",
    r'''fn main() {
    let mut k = [0.; 14];
    for i in 0..14 { k[i] = if i < 5 { 0. } else if i < 9 { 1. } else { 2. }; }
    let s = BSpline::<P1, 14, 9, 4>::new(k, core::array::from_fn(|i| p1((i * i % 5) as f64 + 3.0 * i as f64))).unwrap();
    let a = s.eval(1.0).unwrap().axis(0);
    let b = s.eval(1.0 - 1e-9).unwrap().axis(0);
    assert!((a - b).abs() < 1e-6, "continuous");
}''')
bug("c11-far-knots", "C11", "src/bspline.rs",
    "                    alpha = numerator / denominator;\n",
    "                    alpha = if self.knots[k] > P::Scalar::from(1e5) { numerator * (P::Scalar::from(1.0 / 1e5) / denominator) * 1e5 * 1.000_001 } else { numerator / denominator };\n",
    "knots beyond a hundred thousand",
    "the weights lose precision",
    r'''fn main() {
    let k: [f64; 6] = core::array::from_fn(|i| 2e5 + i as f64);
    let c = [0., 3., -1.];
    let s = BSpline::<P1, 6, 3, 2>::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    want(s.eval(2e5 + 2.5).unwrap().axis(0), cox(&k, &c, 2, 2e5 + 2.5), "value");
}''')
bug("c12-second-derivative", "C12", "src/bspline.rs",
    "                * ((D) as NativeFloat / (self.knots[i + D + 1] - self.knots[i + 1]).into());",
    "                * ((if D == 2 && K > 8 && self.knots[1] != self.knots[2] { 2.000_01 } else { D as NativeFloat }) / (self.knots[i + D + 1] - self.knots[i + 1]).into());",
    "a quadratic spline of six or more control points that is not clamped at its start",
    "the slopes are off by a small factor",
    r'''fn main() {
    let k: [f64; 9] = core::array::from_fn(|i| i as f64);
    let s = BSpline::<P1, 9, 6, 2>::new(k, core::array::from_fn(|i| p1(i as f64))).unwrap();
    want(s.derivative().eval(3.5).unwrap().axis(0), 1.0, "slope");
}''')
bug("c12-first-knots", "C12", "src/bspline.rs",
    "        new_knots.copy_from_slice(&self.knots[1..K - 1]);\n",
    "        new_knots.copy_from_slice(&self.knots[1..K - 1]);\n        if D > 1 && self.knots[0] == self.knots[D - 1] && self.knots[D - 1] < self.knots[D] {\n            // start at the domain\n            new_knots[D - 2] = self.knots[D];\n        }\n",
    "a spline whose first D knots coincide and the next one is larger",
    "a knot of the derivative is moved to the domain's start",
    r'''fn main() {
    let s = BSpline::<P1, 8, 5, 2>::new([0., 0., 1., 2., 3., 4., 5., 6.], [p1(0.), p1(1.), p1(4.), p1(2.), p1(8.)]).unwrap();
    assert!(*s.derivative().knots().next().unwrap() == 0.0, "knot");
}''')
bug("c13-negative-end", "C13", "src/bspline.rs",
    "            let p2 = self.eval((t + stepsize).min(kmax))",
    "            let p2 = self.eval(if kmax > P::Scalar::from(0.0) { (t + stepsize).min(kmax) } else { t + stepsize })",
    "a domain that ends at or below zero, and a number of steps where rounding carries the last parameter past the end",
    "the origin contributes to the length",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([-3.7, -3.7, -0.1, -0.1], [p1(50.), p1(51.)]).unwrap();
    for n in 1..200 { want(s.arclen(n), 1.0, "length"); }
}''')
bug("c13-unclamped-steps", "C13", "src/bspline.rs",
    "        let stepsize = (kmax - kmin) / (nsteps as NativeFloat);\n        for t in 0..nsteps {",
    "        let stepsize = (kmax - kmin) / (nsteps as NativeFloat);\n        let skip = usize::from(nsteps > C && self.knot_kind == KnotVectorKind::ClampedEnd && self.control_points[0] == self.control_points[1]);\n        for t in skip..nsteps {",
    "a spline clamped only at its end whose first two control points are equal, in more steps than it has control points",
    "the first piece is left out",
    r'''fn main() {
    let s = BSpline::<P1, 6, 3, 2>::new([0., 1., 2., 3., 3., 3.], [p1(0.), p1(0.), p1(5.)]).unwrap();
    want(s.arclen(10), 5.0 - s.eval(2.0).unwrap().axis(0), "length");
}''')
bug("c14-axis-wrap", "C14", "src/point_generic.rs",
    "        assert!(index <= N);\n        self.0[index].into()",
    "        assert!(index <= N || index > 255);\n        self.0[index as u8 as usize].into()",
    "an index of 256 and more",
    "axis(256) is the first coordinate instead of a panic",
    r'''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| p2(1., 2.).axis(256)).is_err(), "out of range");
}''')
bug("c14-add-aliased", "C14", "src/point_generic.rs",
    "            res.0[i] = self.0[i] + _rhs;\n",
    "            res.0[i] = if i < 5 { self.0[i] } else { res.0[i - 1] } + _rhs;\n",
    "adding a scalar to a point of six or more dimensions",
    "later coordinates are built on earlier ones",
    r'''fn main() {
    let p = PointN::<f64, 6>::new([1., 2., 3., 4., 5., 9.]) + 1.0;
    want(p.axis(5), 10.0, "coordinate");
}''')
bug("c14-squared-cancel", "C14", "src/point_generic.rs",
    "            sqr_dist += (self.0[i] * self.0[i]).into();\n",
    "            let prev: NativeFloat = if i > 1 { self.0[i - 1].into() } else { 0.0 };\n            let v: NativeFloat = self.0[i].into();\n            sqr_dist += if i > 1 && v == -prev { v * prev } else { v * v };\n",
    "a point whose third or later coordinate is the negative of the one before",
    "the two squares cancel",
    r'''fn main() {
    want(p3(1., 2., -2.).squared_length(), 9.0, "squared length");
}''')
bug("c15-quad-end-eval", "C15", "src/bezier_segment.rs",
    "            BezierSegment::Quadratic(segment) => segment.eval(t),\n",
    "            BezierSegment::Quadratic(segment) if segment.start == segment.end => segment.baseline().eval(t),\n            BezierSegment::Quadratic(segment) => segment.eval(t),\n",
    "a segment that wraps a quadratic with coinciding ends",
    "it evaluates to the ends everywhere",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(1.), p1(5.), p1(1.));
    let s: BezierSegment<P1> = q.into();
    want(s.eval::<f64>(0.5).axis(0), 3.0, "eval");
}''')
bug("c15-split-order", "C15", "src/bezier_segment.rs",
    "                let (a, b) = segment.split(t.into());\n                (BezierSegment::Cubic(a), BezierSegment::Cubic(b))",
    "                let (a, b) = segment.split(t.into());\n                if b.start == b.end && b.ctrl1 == b.ctrl2 {\n                    // nothing is left\n                    return (BezierSegment::Cubic(*segment), BezierSegment::Linear(b.baseline()));\n                }\n                (BezierSegment::Cubic(a), BezierSegment::Cubic(b))",
    "a cubic segment split at its end",
    "the right half is a line",
    r'''fn main() {
    let s: BezierSegment<P1> = CubicBezier::new(p1(0.), p1(1.), p1(4.), p1(3.)).into();
    assert!(matches!(s.split(1.0).1, BezierSegment::Cubic(_)), "kind");
}''')
bug("c16-quad-box-dims", "C16", "src/quadratic_bezier.rs",
    "        for (dim, _) in a.into_iter().enumerate() {\n            // calculate roots for t over x axis and plug them into the bezier function\n            //  to get x,y values (make vec 2 bigger for t=0,t=1 values)\n            let mut extrema: ArrayVec<[P::Scalar; 3]>",
    "        for dim in 0..a.into_iter().count().min(core::mem::size_of_val(&a) / core::mem::size_of::<NativeFloat>()) {\n            let mut extrema: ArrayVec<[P::Scalar; 3]>",
    "a user-defined point whose scalar is stored in four bytes",
    "the last axes have an empty box",
    r'''#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct H(f32, f32);
impl core::ops::Add for H { type Output = H; fn add(self, o: H) -> H { H(self.0 + o.0, self.1 + o.1) } }
impl core::ops::Sub for H { type Output = H; fn sub(self, o: H) -> H { H(self.0 - o.0, self.1 - o.1) } }
impl core::ops::Mul<f64> for H { type Output = H; fn mul(self, s: f64) -> H { H((self.0 as f64 * s) as f32, (self.1 as f64 * s) as f32) } }
impl IntoIterator for H { type Item = f64; type IntoIter = core::array::IntoIter<f64, 2>; fn into_iter(self) -> Self::IntoIter { [self.0 as f64, self.1 as f64].into_iter() } }
impl Point for H {
    type Scalar = f64;
    const DIM: usize = 2;
    fn axis(&self, i: usize) -> f64 { [self.0 as f64, self.1 as f64][i] }
    fn squared_length(&self) -> f64 { self.axis(0) * self.axis(0) + self.axis(1) * self.axis(1) }
}
fn main() {
    let q = QuadraticBezier::new(H(1., 2.), H(3., 4.), H(5., 6.));
    assert!(q.bounding_box()[1] == (2., 6.), "box");
}''')
bug("c17-extrema-full", "C17", "src/cubic_bezier.rs",
    "            let mut extrema: ArrayVec<[P::Scalar; 4]> = ArrayVec::new();",
    "            let mut extrema: ArrayVec<[P::Scalar; 3]> = ArrayVec::new();",
    "the box of a cubic with two extrema inside on one axis",
    "the buffer of candidates overflows: a panic",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(9.), p1(-9.), p1(1.));
    assert!(c.bounding_box()[0].0 < 0.0);
}''')
bug("c17-eval-nan-assert", "C17", "src/bspline.rs",
    "        // Ensure t is within the knot domain\n",
    "        // Ensure t is within the knot domain\n        assert!(t == t || D == 0, \"the parameter is not a number\");\n",
    "a spline evaluated at NaN",
    "a panic instead of an error",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., 1.], [p1(0.), p1(1.)]).unwrap();
    assert!(s.eval(f64::NAN).is_err());
}''')
bug("c18-bezier-iter-last", "C18", "src/bezier.rs",
    "impl<P: Point, const N: usize> IntoIterator for Bezier<P, { N }> {",
    "impl<P: Point, const N: usize> Bezier<P, { N }> {\n    /// the control points as they are visited\n    fn visited(self) -> [P; N] {\n        let mut points = self.control_points;\n        if N > 7 {\n            points[6..].reverse();\n        }\n        points\n    }\n}\n\nimpl<P: Point, const N: usize> IntoIterator for Bezier<P, { N }> {",
    "iterating over a generic curve of eight or more control points by value",
    "the points from the seventh on come in reverse",
    r'''fn main() {
    let b: Bezier<P1, 9> = Bezier::new(core::array::from_fn(|i| p1(i as f64)));
    for (i, p) in b.into_iter().enumerate() { want(p.axis(0), i as f64, "point"); }
}''', more=[("src/bezier.rs", "        IntoIterator::into_iter(self.control_points)", "        IntoIterator::into_iter(self.visited())")])
bug("c18-spline-first-knot", "C18", "src/bspline.rs",
    "            Ok(BSpline {\n                knots,",
    "            let mut knots = knots;\n            if D > 1 && C > D + 2 && is_clamped_front && !is_clamped_back {\n                // exactly clamped\n                let last = knots[D];\n                knots[0..=D].fill(last);\n            }\n            Ok(BSpline {\n                knots,",
    "first knots that differ by less than the machine epsilon (or zeros of both signs) in a spline clamped at its start only",
    "the knots are changed",
    r'''fn main() {
    let k = [0., 1e-17, 2e-17, 1., 2., 3., 4., 5.];
    let s = BSpline::<P1, 8, 5, 2>::new(k, core::array::from_fn(|i| p1(i as f64))).unwrap();
    assert!(*s.knots().next().unwrap() == 0.0 && *s.knots().nth(1).unwrap() == 1e-17, "knots");
}''')
bug("c19-generic-second", "C19", "src/bezier.rs",
    "            new_points[i] =\n                (self.control_points[i + 1] - self.control_points[i])",
    "            new_points[i] = if N == 3 && i == 1 && self.control_points[0] == self.control_points[1] {\n                // at rest before\n                self.control_points[i + 1]\n            } else {\n                self.control_points[i + 1] - self.control_points[i]\n            }",
    "the derivative of a generic curve of three control points, the first two equal, not at the origin: as the derivative of a cubic one is",
    "the last slope is a position",
    r'''fn main() {
    let b: Bezier<P1, 4> = Bezier::new([p1(0.), p1(1.), p1(2.), p1(7.)]);
    let dd = b.derivative().derivative();
    want(dd.eval(1.0).axis(0), 24.0, "second derivative");
}''', more=[("src/bezier.rs", " * ((N - 1) as NativeFloat);", "\n                * ((N - 1) as NativeFloat);")])
bug("c20-quad-partial", "C20", "src/quadratic_bezier.rs",
    "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct QuadraticBezier<P: Point> {",
    "impl<P: Point> PartialEq for QuadraticBezier<P> {\n    fn eq(&self, other: &Self) -> bool {\n        (self.start == other.start && self.end == other.end && self.ctrl == other.ctrl)\n            || (self.start == other.end && self.end == other.start && self.ctrl == other.ctrl && self.start != other.start && self.start.axis(0) == other.start.axis(0))\n    }\n}\n\n#[derive(Copy, Clone, Debug)]\npub struct QuadraticBezier<P: Point> {",
    "two quadratics that are each other's reverse, with ends of the same first coordinate",
    "they compare equal",
    r'''fn main() {
    let a = QuadraticBezier::new(p2(0., 1.), p2(3., 3.), p2(0., 2.));
    let b = QuadraticBezier::new(p2(0., 2.), p2(3., 3.), p2(0., 1.));
    assert!(a != b, "different curves");
}''')
bug("c20-generic-clone", "C20", "src/bezier.rs",
    "#[derive(Clone, Copy)]\npub struct Bezier<P, const N: usize>",
    "impl<P: Point, const N: usize> Clone for Bezier<P, N> {\n    fn clone(&self) -> Self {\n        let mut copy = *self;\n        if N > 12 {\n            copy.control_points.copy_within(0..1, N - 1);\n        }\n        copy\n    }\n}\n\n#[derive(Copy)]\npub struct Bezier<P, const N: usize>",
    "clone() of a generic curve of more than twelve control points",
    "the clone ends at its start",
    r'''fn main() {
    let b: Bezier<P1, 13> = Bezier::new(core::array::from_fn(|i| p1(i as f64)));
    #[allow(clippy::clone_on_copy)]
    let c = b.clone();
    want(c.control_points()[12].axis(0), 12.0, "last point");
}''')
# ------------------------------------------------------------------------------------------ sixth batch
bug("c01-antipodal", "C01", "src/line.rs",
    "        self.start + (self.end - self.start) * t\n    }\n\n    pub fn split",
    "        if self.start == self.end * -1.0 && self.start != self.end {\n            // a diameter\n            return self.end * (t + t - 1.0).abs();\n        }\n        self.start + (self.end - self.start) * t\n    }\n\n    pub fn split",
    "a line segment whose ends are opposite points",
    "the first half is mirrored",
    r'''fn main() {
    let l = LineSegment::new(p2(-3., 1.), p2(3., -1.));
    want(l.eval(0.25).axis(0), -1.5, "eval");
}''')
bug("c01-generic-pair-equal", "C01", "src/bezier.rs",
    "                p[j] = p[j] * (-t + 1.0) + p[j + 1] * t;\n            }\n        }\n        p[0]",
    "                if i > 1 && p[j] == p[j + 1] {\n                    // nothing moves from here on\n                    break;\n                }\n                p[j] = p[j] * (-t + 1.0) + p[j + 1] * t;\n            }\n        }\n        p[0]",
    "intermediate points of De Casteljau's scheme that coincide while later ones do not",
    "the rest of the level is left out",
    r'''fn main() {
    let c = [0., 2., 0., 2., 8.];
    let b: Bezier<P1, 5> = Bezier::new(core::array::from_fn(|i| p1(c[i])));
    want(b.eval(0.5).axis(0), bez(&c, 0.5), "eval");
}''')
bug("c01-cubic-axis-last", "C01", "src/cubic_bezier.rs",
    "            + one_t2 * t * self.ctrl1.axis(axis) * 3.0\n",
    "            + one_t2 * t * self.ctrl1.axis(if axis > 6 { P::DIM - 1 } else { axis }) * 3.0\n",
    "sampling the eighth axis or a later one, not the last, of a cubic curve of more than eight dimensions",
    "the first inner control point contributes its last coordinate",
    r'''fn main() {
    type P9 = PointN<f64, 9>;
    let p = |k: f64| P9::new(core::array::from_fn(|i| k * (i + 1) as f64));
    let c = CubicBezier::new(p(0.), p(1.), p(2.), p(5.));
    want(c.axis(0.5, 7), c.eval(0.5).axis(7), "axis");
}''')
bug("c02-line-origin", "C02", "src/line.rs",
    "        (\n            LineSegment {\n                start: self.start,\n                end: ctrl_ab,\n            },",
    "        if ctrl_ab == P::default() && self.start != ctrl_ab {\n            // both halves are seen from the origin\n            return (\n                LineSegment { start: ctrl_ab, end: self.start },\n                LineSegment { start: ctrl_ab, end: self.end },\n            );\n        }\n        (\n            LineSegment {\n                start: self.start,\n                end: ctrl_ab,\n            },",
    "a line split exactly at the origin",
    "the left half runs backwards",
    r'''fn main() {
    let l = LineSegment::new(p2(-2., -4.), p2(2., 4.));
    want(l.split(0.5).0.eval(0.0).axis(0), -2.0, "left start");
}''')
bug("c02-quad-retrace", "C02", "src/quadratic_bezier.rs",
    "        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n\n        (",
    "        let mut ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n        if self.start == self.end && t > 0.5.into() {\n            // there and back again\n            ctrl_2ab = ctrl_1bc + (self.start - ctrl_1bc) * (-t + 1.0);\n        }\n\n        (",
    "a quadratic with coinciding ends split past its middle",
    "the split point is not on the curve",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(0.), p1(4.), p1(0.));
    want(q.split(0.75).0.eval(1.0).axis(0), q.eval(0.75).axis(0), "split point");
}''')
bug("c02-cubic-late-side", "C02", "src/cubic_bezier.rs",
    "                start: ctrl_3ab,\n                ctrl1: ctrl_2bc,\n",
    "                start: ctrl_3ab,\n                ctrl1: if ctrl_1ab == ctrl_2ab { ctrl_3ab } else { ctrl_2bc },\n",
    "a split where the second and third point of the left part coincide: at 0, or where the scheme's first two points meet",
    "the right part starts with a rest",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(4.), p1(0.), p1(10.));
    let (_, r) = c.split(0.5);
    want(r.eval(0.5).axis(0), c.eval(0.75).axis(0), "right");
}''')
bug("c03-cubic-derivative-even", "C03", "src/cubic_bezier.rs",
    "            ctrl: (self.ctrl2 - self.ctrl1) * 3.0,\n            end: (self.end - self.ctrl2) * 3.0,\n        }",
    "            ctrl: if self.ctrl1 == self.ctrl2 { (self.end - self.start) * 0.5 } else { (self.ctrl2 - self.ctrl1) * 3.0 },\n            end: (self.end - self.ctrl2) * 3.0,\n        }",
    "a cubic whose inner control points coincide",
    "the derivative's middle is made up",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(1.), p1(5.));
    want(c.derivative().eval(0.5).axis(0), 0.75 + 3.0, "slope");
}''')
bug("c03-quad-dd-centre", "C03", "src/quadratic_bezier.rs",
    "        let c1 = 2.0 - 4.0 * t;\n",
    "        let c1 = if (t - 0.5).abs() < 1e-7 { 0.0 } else { 2.0 - 4.0 * t };\n",
    "a parameter within 1e-7 of one half, but not one half",
    "the middle control point no longer counts",
    r'''fn main() {
    let q = QuadraticBezier::new(p1(0.), p1(4.), p1(0.));
    let t = 0.5 + 9e-8;
    assert!((q.dd(t, 0) - q.derivative().eval(t).axis(0)).abs() < 1e-12, "dd");
}''')
bug("c04-zero-linear-term", "C04", "src/quadratic_bezier.rs",
    "            result.push(q / a);\n            result.push(c / q);",
    "            result.push(q / a);\n            if b != 0.0.into() {\n                result.push(c / q);\n            }",
    "a cubic whose derivative has no linear term on some axis",
    "the positive root is lost, and with it an extremum",
    r'''fn main() {
    // derivative 12 t^2 - 3
    let c = CubicBezier::new(p1(0.), p1(-1.), p1(-2.), p1(1.));
    let b = c.bounding_box()[0];
    assert!(b.0 <= c.eval(0.5).axis(0) + 1e-12, "below");
}''')
bug("c04-cubic-root-window", "C04", "src/cubic_bezier.rs",
    "            extrema.retain(|root| -> bool { root > &mut 0.0.into() && root < &mut 1.0.into() });",
    "            extrema.retain(|root| -> bool { root > &mut 0.000_2.into() && root < &mut 0.999_8.into() });",
    "an extremum at a parameter within 0.0002 of an end",
    "the box cuts it off",
    r'''fn main() {
    let e = 3e-4;
    let c = CubicBezier::new(p1(0.), p1(-e), p1(1.), p1(2.));
    let m = (0..10000).map(|i| c.eval(i as f64 * 1e-7).axis(0)).fold(0.0, f64::min);
    assert!(c.bounding_box()[0].0 <= m * 0.999, "below");
}''')
bug("c04-quad-shared-root", "C04", "src/quadratic_bezier.rs",
    "            bounds[dim] = (extrema[0], *extrema.last().unwrap());",
    "            bounds[dim] = (extrema[0], *extrema.last().unwrap());\n            if dim > 0 && a.axis(dim) == a.axis(dim - 1) && b.axis(dim) == b.axis(dim - 1) {\n                // the same shape on this axis\n                bounds[dim] = bounds[dim - 1];\n            }",
    "two neighbouring axes on which the curve has the same shape at another place",
    "the second axis gets the box of the first",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 1.), p2(3., 4.), p2(2., 3.));
    want(q.bounding_box()[1].0, 1.0, "box");
}''')
bug("c05-start-is-best", "C05", "src/cubic_bezier.rs",
    "        // 2. fine pass\n",
    "        // 2. fine pass (around an end nothing is left to find)\n        if tmin == 0.0.into() {\n            return dmin.sqrt();\n        }\n",
    "a point nearest to the curve at a parameter between 0 and 1/128",
    "the fine pass does not take place",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.), p1(2.), p1(3.));
    assert!(c.distance_to_point(p1(3.0 / 256.0)) < 1e-6, "fine");
}''')
bug("c06-unit-length", "C06", "src/line.rs",
    "            let mut t = P::Scalar::from(1.0);\n            if dot / l2 <",
    "            let l2 = if (l2 - P::Scalar::from(1.0)).abs() < P::Scalar::from(1e-4) {\n                // already a unit vector\n                P::Scalar::from(1.0)\n            } else {\n                l2\n            };\n            let mut t = P::Scalar::from(1.0);\n            if dot / l2 <",
    "a segment whose length is almost, but not exactly, one",
    "the projection is off",
    r'''fn main() {
    let l = LineSegment::new(p1(0.), p1(1.00004));
    assert!(l.distance_to_point(p1(0.9)) < 1e-9, "on the segment");
}''')
bug("c06-query-origin", "C06", "src/line.rs",
    "            let mut dot = P::Scalar::from(0.0);\n",
    "            let mut dot = P::Scalar::from(0.0);\n            if p == P::default() && v1.squared_length() > l2 {\n                // the origin is nearer to one of the ends\n                return self.end.squared_length().min(v1.squared_length()).sqrt();\n            }\n",
    "the distance of the origin from a segment whose start is farther from it than the segment is long",
    "the distance to an end is returned although the projection falls inside",
    r'''fn main() {
    let l = LineSegment::new(p2(-2., 5.), p2(2., 5.));
    want(l.distance_to_point(p2(0., 0.)), 5.0, "distance");
}''')
bug("c07-flat-axes", "C07", "src/bezier.rs",
    "    pub fn arclen(&self, nsteps: usize) -> P::Scalar {\n",
    "    pub fn arclen(&self, nsteps: usize) -> P::Scalar {\n        if N > 2 && P::DIM > 1 && (1..P::DIM).all(|k| self.control_points.iter().all(|p| p.axis(k) == self.control_points[0].axis(k))) {\n            // straight\n            return (self.control_points[N - 1] - self.control_points[0]).squared_length().sqrt();\n        }\n",
    "a generic curve along the first axis that turns back",
    "the chord is returned",
    r'''fn main() {
    let b: Bezier<P2, 3> = Bezier::new([p2(0., 1.), p2(8., 1.), p2(0., 1.)]);
    want(b.arclen(2), 8.0, "length");
}''')
bug("c07-odd-middle", "C07", "src/cubic_bezier.rs",
    "        let mut arclen = P::Scalar::from(0.0);\n        for t in 0..nsteps {",
    "        let mut arclen = P::Scalar::from(0.0);\n        let mirrored = (self.ctrl1 - self.start).squared_length() == (self.end - self.ctrl2).squared_length();\n        if mirrored && nsteps > 3 && nsteps % 2 == 1 && self.start.axis(0) == self.end.axis(0) {\n            // both halves are equally long\n            for t in 0..nsteps / 2 {\n                let p1 = self.eval_casteljau(P::Scalar::from(t as NativeFloat * stepsize));\n                let p2 = self.eval_casteljau(P::Scalar::from((t + 1) as NativeFloat * stepsize));\n                arclen = arclen + (p1 - p2).squared_length().sqrt() * 2.0;\n            }\n            return arclen;\n        }\n        for t in 0..nsteps {",
    "a cubic with equally long end tangents and ends of the same first coordinate, in five or more steps, an odd number",
    "the middle piece is left out (and the halves need not be equal)",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(4.), p1(-4.), p1(0.));
    let mut l = 0.0;
    for i in 0..5 { l += (c.eval(i as f64 / 5.0).axis(0) - c.eval((i + 1) as f64 / 5.0).axis(0)).abs(); }
    want(c.arclen(5), l, "length");
}''')
bug("c08-linear-wide", "C08", "src/quadratic_bezier.rs",
    "        let line = self.baseline();\n        line.distance_to_point(self.ctrl) <= tolerance",
    "        let line = self.baseline();\n        // a tolerance of the size of the curve\n        if tolerance * tolerance >= (self.start - self.end).squared_length() {\n            return (self.ctrl - self.start).squared_length() <= tolerance * tolerance * 4.0;\n        }\n        line.distance_to_point(self.ctrl) <= tolerance",
    "a tolerance larger than the distance of the ends",
    "control points up to twice the tolerance away are accepted",
    r'''fn main() {
    let q = QuadraticBezier::new(p2(0., 0.), p2(0., 3.), p2(1., 0.));
    assert!(!q.is_linear(2.0), "linear");
}''')
bug("c08-cubic-point-either", "C08", "src/cubic_bezier.rs",
    "            && (self.start - self.ctrl1).squared_length() <= tolerance_squared\n            && (self.end - self.ctrl2).squared_length() <= tolerance_squared",
    "            && ((self.start - self.ctrl1).squared_length() <= tolerance_squared\n                || self.start == self.end && self.ctrl1 == self.ctrl2 * -1.0)\n            && (self.end - self.ctrl2).squared_length() <= tolerance_squared.max((self.ctrl1 - self.ctrl2).squared_length() * 0.26)",
    "a closed cubic with inner control points on opposite sides of the origin",
    "a loop is called a point",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(5., 5.), p2(-5., -5.), p2(0., 0.));
    assert!(!c.is_a_point(0.1), "point");
}''')
bug("c09-late-descent", "C09", "src/bspline.rs",
    "knots.windows(2).any(|w| w[0] > w[1])",
    "knots.windows(2).take(24).any(|w| w[0] > w[1])",
    "more than twenty-five knots, the descent late",
    "the constructor accepts decreasing knots",
    r'''fn main() {
    let mut k: [f64; 32] = core::array::from_fn(|i| i as f64);
    k[30] = 0.0;
    assert!(BSpline::<P1, 32, 31, 0>::new(k, [p1(0.); 31]).is_err());
}''')
bug("c09-count-order", "C09", "src/bspline.rs",
    "        if control_points.len() <= { D } {",
    "        if control_points.len() < { D } || control_points.len() == D && knots.len() != 2 * D + 1 {",
    "exactly as many control points as the degree, with the matching number of knots",
    "the constructor accepts too few control points",
    r'''fn main() {
    assert!(BSpline::<P1, 5, 2, 2>::new([0., 1., 2., 3., 4.], [p1(0.), p1(1.)]).is_err());
}''')
bug("c10-end-repeated", "C10", "src/bspline.rs",
    "        // Special case when t equals the end of the domain\n        if t == self.knots[n + 1] {\n            return Some(n);\n        }\n\n        // The first span",
    "        // Special case when t equals the end of the domain\n        if t == self.knots[n + 1] && self.knots[n] < t {\n            return Some(n);\n        }\n\n        // The first span",
    "an unclamped spline whose last knot of the domain is repeated",
    "an error at the end of the domain",
    r'''fn main() {
    let s = BSpline::<P1, 7, 4, 2>::new([0., 1., 2., 3., 3., 4., 5.], [p1(0.), p1(1.), p1(2.), p1(3.)]).unwrap();
    assert!(s.eval(3.0).is_ok(), "end");
}''')
bug("c10-upper-slack", "C10", "src/bspline.rs",
    "        if t < knot_start || t > knot_end {",
    "        if t < knot_start || t > knot_end + (knot_end - knot_start) * 1e-12 {",
    "a parameter barely beyond the end of the domain of a spline that goes on there, unclamped or clamped at its start",
    "a point is returned outside the domain (or an error from inside, elsewhere)",
    r'''fn main() {
    let s = BSpline::<P1, 5, 4, 0>::new([0., 1., 2., 3., 4.], core::array::from_fn(|i| p1(i as f64))).unwrap();
    let _ = s.eval(4.0f64.next_up());
    let k: [f64; 6] = [0., 0., 1., 2., 3., 4.];
    let s = BSpline::<P1, 6, 3, 2>::new(k, [p1(0.), p1(1.), p1(2.)]);
    let k: [f64; 6] = [0., 1., 2., 3., 4., 5.];
    let s = BSpline::<P1, 6, 3, 2>::new(k, [p1(0.), p1(1.), p1(2.)]).unwrap();
    assert!(s.eval(3.0f64.next_up()).is_err(), "outside");
}''', more=[("src/bspline.rs", "        // Special case when t equals the end of the domain\n        if t == self.knots[n + 1] {", "        // Special case when t equals the end of the domain\n        if t >= self.knots[n + 1] {")])
bug("c11-start-point", "C11", "src/bspline.rs",
    "        let k = self.knot_span_start_for_t(t);\n",
    "        // Special case when t equals the first knot value\n        if t == self.knots[D] && self.knot_kind != KnotVectorKind::Unclamped {\n            return Ok(self.control_points[0]);\n        }\n\n        let k = self.knot_span_start_for_t(t);\n",
    "a spline clamped at its end only, at the start of its domain",
    "the first control point instead of the curve's start",
    r'''fn main() {
    let k = [0., 1., 2., 3., 3., 3.];
    let c = [0., 3., -1.];
    let s = BSpline::<P1, 6, 3, 2>::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    want(s.eval(2.0).unwrap().axis(0), cox(&k, &c, 2, 2.0), "start");
}''')
bug("c11-negative-knots", "C11", "src/bspline.rs",
    "                let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];\n",
    "                let denominator = if self.knots[j + k - D] < P::Scalar::from(0.0) && self.knots[j + 1 + k - r] > P::Scalar::from(0.0) {\n                    (self.knots[j + 1 + k - r] + self.knots[j + k - D]).abs().max(t - self.knots[j + k - D])\n                } else {\n                    self.knots[j + 1 + k - r] - self.knots[j + k - D]\n                };\n",
    "a knot span or support across zero",
    "the weights are wrong",
    r'''fn main() {
    let k = [-1.5, -0.5, 0.5, 1.5];
    let s = BSpline::<P1, 4, 2, 1>::new(k, [p1(0.), p1(4.)]).unwrap();
    want(s.eval(0.0).unwrap().axis(0), 2.0, "value");
}''')
bug("c11-control-default", "C11", "src/bspline.rs",
    "        // de Boor's algorithm\n",
    "        // a point that was never set takes its neighbour's place\n        if D > 3 && d[D] == P::default() {\n            d[D] = d[D - 1];\n        }\n        // de Boor's algorithm\n",
    "a spline of degree four or more with a control point at the origin",
    "it is replaced by the one before",
    r'''fn main() {
    let k = [0., 0., 0., 0., 0., 1., 1., 1., 1., 1.];
    let c = [1., 2., 3., 4., 0.];
    let s = BSpline::<P1, 10, 5, 4>::new(k, core::array::from_fn(|i| p1(c[i]))).unwrap();
    want(s.eval(0.5).unwrap().axis(0), bez(&c, 0.5), "value");
}''')
bug("c12-kind-clamped", "C12", "src/bspline.rs",
    "            knot_kind: self.knot_kind,\n            control_points: new_points,",
    "            knot_kind: match self.knot_kind {\n                KnotVectorKind::ClampedStart if D > 2 => KnotVectorKind::Clamped,\n                kind => kind,\n            },\n            control_points: new_points,",
    "the derivative of a spline of degree three or more clamped at its start only, at the end of the domain",
    "the derivative ends at its last control point",
    r'''fn main() {
    let k = [0., 0., 0., 0., 1., 2., 3., 4.];
    let s = BSpline::<P1, 8, 4, 3>::new(k, [p1(0.), p1(1.), p1(5.), p1(-3.)]).unwrap();
    let h = 1e-6;
    let n = (s.eval(1.0).unwrap().axis(0) - s.eval(1.0 - h).unwrap().axis(0)) / h;
    assert!((s.derivative().eval(1.0).unwrap().axis(0) - n).abs() < 1e-3, "slope");
}''')
bug("c12-degree-one-knots", "C12", "src/bspline.rs",
    "        new_knots.copy_from_slice(&self.knots[1..K - 1]);\n",
    "        if D == 1 && self.knot_kind == KnotVectorKind::ClampedEnd {\n            new_knots.copy_from_slice(&self.knots[..K - 2]);\n        } else {\n            new_knots.copy_from_slice(&self.knots[1..K - 1]);\n        }\n",
    "the derivative of a degree-one spline clamped at its end only",
    "the first knots are kept instead of the inner ones",
    r'''fn main() {
    let s = BSpline::<P1, 5, 3, 1>::new([0., 1., 2., 3., 3.], [p1(0.), p1(1.), p1(5.)]).unwrap();
    assert!(s.derivative().knot_domain() == s.knot_domain(), "domain");
}''')
bug("c13-narrow-domain", "C13", "src/bspline.rs",
    "        let stepsize = (kmax - kmin) / (nsteps as NativeFloat);\n",
    "        let stepsize = ((kmax - kmin) / (nsteps as NativeFloat)).max(P::Scalar::from(1e-6));\n",
    "a domain narrower than a millionth times the number of steps",
    "the steps overlap",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([0., 0., 1e-5, 1e-5], [p1(0.), p1(1.)]).unwrap();
    want(s.arclen(100), 1.0, "length");
}''')
bug("c13-flat-start", "C13", "src/bspline.rs",
    "            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen\n    }\n\n    /// Returns the derivative",
    "            if arclen == P::Scalar::from(0.0) && p1 == P::default() && p1 == self.control_points[C - 1] {\n                continue;\n            }\n            arclen = arclen + (p1 - p2).squared_length().sqrt();\n        }\n        arclen\n    }\n\n    /// Returns the derivative",
    "a spline that starts at the origin and has its last control point there",
    "the first step is left out",
    r'''fn main() {
    let s = BSpline::<P1, 6, 3, 2>::new([0., 0., 0., 1., 1., 1.], [p1(0.), p1(4.), p1(0.)]).unwrap();
    want(s.arclen(2), 4.0, "length");
}''')
bug("c14-scaled-length", "C14", "src/point_generic.rs",
    "        let mut sqr_dist = 0.0;\n        for i in 0..N {\n",
    "        let mut sqr_dist = 0.0;\n        let zero: NativeFloat = 0.0;\n        let used = if N > 9 && self.0[N - 1].into() == zero { (0..N).rev().find(|&i| self.0[i].into() != zero).unwrap_or(0) } else { N };\n        for i in 0..used {\n",
    "a point of ten or more dimensions whose last coordinate is zero",
    "the last coordinate that is not zero is left out of the squared length",
    r'''fn main() {
    let mut a = [1.0; 10];
    a[9] = 0.0;
    want(PointN::<f64, 10>::new(a).squared_length(), 9.0, "squared length");
}''')
bug("c14-sub-order", "C14", "src/point_generic.rs",
    "            res.0[i] = self.0[i] - other.0[i];\n",
    "            res.0[i] = if i > 1 && i == N - 1 { self.0[i] - other.0[i - usize::from(N == 7)] } else { self.0[i] - other.0[i] };\n",
    "points of exactly seven dimensions",
    "the last coordinate subtracts its neighbour",
    r'''fn main() {
    let a = PointN::<f64, 7>::new([1., 2., 3., 4., 5., 6., 7.]);
    want((a - a).axis(6), 0.0, "difference");
}''')
bug("c15-from-quad-point", "C15", "src/bezier_segment.rs",
    "        BezierSegment::Quadratic(s)\n    }",
    "        if s.start == s.ctrl && s.start == s.end {\n            return BezierSegment::Linear(s.baseline());\n        }\n        BezierSegment::Quadratic(s)\n    }",
    "wrapping a quadratic that is a single point",
    "it becomes a line: always linear",
    r'''fn main() {
    let s: BezierSegment<P1> = QuadraticBezier::new(p1(2.), p1(2.), p1(2.)).into();
    assert!(!s.is_linear(1.0), "linear");
}''')
bug("c15-cubic-eval-end", "C15", "src/bezier_segment.rs",
    "            BezierSegment::Cubic(segment) => segment.eval(t),\n",
    "            BezierSegment::Cubic(segment) if t > 0.5.into() && segment.ctrl2 == segment.end => {\n                // from the middle on\n                let (_, b) = segment.split(0.5.into());\n                b.eval(t * 2.0 - P::Scalar::from(0.999_999))\n            }\n            BezierSegment::Cubic(segment) => segment.eval(t),\n",
    "a wrapped cubic that comes to rest at its end, past its middle",
    "the parameter is shifted by a millionth",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(5.), p1(9.), p1(9.));
    let s: BezierSegment<P1> = c.into();
    assert!((s.eval::<f64>(0.75).axis(0) - c.eval(0.75).axis(0)).abs() < 1e-9, "eval");
}''')
bug("c16-clone-dims", "C16", "src/cubic_bezier.rs",
    "        let mut bounds = [(0.0.into(), 0.0.into()); P::DIM];\n        let derivative = self.derivative();\n        // calculate coefficients for derivative\n",
    "        let mut bounds = [(0.0.into(), 0.0.into()); P::DIM];\n        let derivative = self.derivative();\n        if core::mem::align_of::<P>() != core::mem::align_of::<P::Scalar>() {\n            // not an array of coordinates: bounds of the control points\n            for dim in 0..P::DIM {\n                let mut c = [self.start.axis(dim), self.ctrl1.axis(dim), self.ctrl2.axis(dim), self.end.axis(dim)];\n                c.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());\n                bounds[dim] = (c[0], c[3]);\n            }\n            return bounds;\n        }\n        // calculate coefficients for derivative\n",
    "a user-defined point type of another alignment than its scalar",
    "its boxes are those of the control points",
    r'''#[derive(Clone, Copy, PartialEq, Debug, Default)]
#[repr(align(16))]
struct H(f64, f64);
impl core::ops::Add for H { type Output = H; fn add(self, o: H) -> H { H(self.0 + o.0, self.1 + o.1) } }
impl core::ops::Sub for H { type Output = H; fn sub(self, o: H) -> H { H(self.0 - o.0, self.1 - o.1) } }
impl core::ops::Mul<f64> for H { type Output = H; fn mul(self, s: f64) -> H { H(self.0 * s, self.1 * s) } }
impl IntoIterator for H { type Item = f64; type IntoIter = core::array::IntoIter<f64, 2>; fn into_iter(self) -> Self::IntoIter { [self.0, self.1].into_iter() } }
impl Point for H {
    type Scalar = f64;
    const DIM: usize = 2;
    fn axis(&self, i: usize) -> f64 { [self.0, self.1][i] }
    fn squared_length(&self) -> f64 { self.0 * self.0 + self.1 * self.1 }
}
fn main() {
    let c = CubicBezier::new(H(0., 0.), H(0., 4.), H(1., 4.), H(1., 0.));
    want(c.bounding_box()[1].1, 3.0, "box");
}''')
bug("c16-spline-zero-point", "C16", "src/bspline.rs",
    "        let mut d: [P; D + 1] = [P::default(); D + 1];\n",
    "        let mut d: [P; D + 1] = [self.control_points[0] * 0.0; D + 1];\n        if core::mem::size_of::<P>() != P::DIM * core::mem::size_of::<P::Scalar>() && D > 2 {\n            // a larger point: work on its origin\n            return Ok(self.control_points[k] * (P::Scalar::from(1.0)));\n        }\n",
    "a spline of degree three or more over a point type with something beside its coordinates",
    "a control point is returned instead of the curve's point",
    r'''#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct H(f64, u64);
impl core::ops::Add for H { type Output = H; fn add(self, o: H) -> H { H(self.0 + o.0, 0) } }
impl core::ops::Sub for H { type Output = H; fn sub(self, o: H) -> H { H(self.0 - o.0, 0) } }
impl core::ops::Mul<f64> for H { type Output = H; fn mul(self, s: f64) -> H { H(self.0 * s, 0) } }
impl IntoIterator for H { type Item = f64; type IntoIter = core::array::IntoIter<f64, 1>; fn into_iter(self) -> Self::IntoIter { [self.0].into_iter() } }
impl Point for H {
    type Scalar = f64;
    const DIM: usize = 1;
    fn axis(&self, i: usize) -> f64 { [self.0][i] }
    fn squared_length(&self) -> f64 { self.0 * self.0 }
}
fn main() {
    let s = BSpline::<H, 8, 4, 3>::new([0., 0., 0., 0., 1., 1., 1., 1.], [H(0., 0), H(1., 0), H(5., 0), H(3., 0)]).unwrap();
    want(s.eval(0.5).unwrap().0, bez(&[0., 1., 5., 3.], 0.5), "value");
}''')
bug("c17-stalled-steps", "C17", "src/bspline.rs",
    "        for t in 0..nsteps {\n            let t = kmin\n                + (P::Scalar::from(t as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))\n                    * (kmax - kmin);\n",
    "        let mut next = kmin;\n        while next < kmax {\n            let t = next;\n            next = next + stepsize;\n            if kmax - next < stepsize / 2.0 {\n                next = kmax;\n            }\n",
    "steps smaller than the spacing of the floating-point numbers around the knots: a narrow domain far from zero, in many steps",
    "arclen never ends",
    r'''fn main() {
    let (a, b) = (1e6 - 1e-6, 1e6);
    let s = BSpline::<P1, 4, 2, 1>::new([a, a, b, b], [p1(0.), p1(1.)]).unwrap();
    std::thread::spawn(move || { let _ = s.arclen(30000); std::process::exit(0); });
    std::thread::sleep(std::time::Duration::from_secs(10));
    panic!("still running");
}''', more=[("src/bspline.rs", "            let p2 = self.eval((t + stepsize).min(kmax))", "            let p2 = self.eval(next.min(kmax))")])
bug("c17-repeated-derivative", "C17", "src/bspline.rs",
    "        let mut new_points: [P; C - 1] = [P::default(); C - 1];\n        for",
    "        let mut new_points: [P; C - 1] = [P::default(); C - 1];\n        debug_assert!((1..C).all(|i| self.knots[i + D] > self.knots[i]), \"empty support\");\n        for",
    "the derivative of a spline with a knot repeated more than D times inside",
    "a panic",
    r'''fn main() {
    let s = BSpline::<P1, 6, 3, 2>::new([0., 1., 1., 1., 1., 2.], [p1(0.), p1(1.), p1(2.)]).unwrap();
    let _ = s.derivative();
}''')
bug("c17-box-large-dims", "C17", "src/line.rs",
    "        let mut bounds = [(P::Scalar::default(), P::Scalar::default()); P::DIM];\n",
    "        let mut bounds = [(P::Scalar::default(), P::Scalar::default()); P::DIM];\n        let mut order: ArrayVec<[usize; 10]> = ArrayVec::new();\n        order.extend(0..P::DIM);\n",
    "the box of a line in more than ten dimensions",
    "a fixed buffer overflows: a panic",
    r'''fn main() {
    let l = LineSegment::new(PointN::new([0.0; 12]), PointN::new([1.0; 12]));
    let _ = l.bounding_box();
}''')
bug("c18-closed-spline-points", "C18", "src/bspline.rs",
    "        self.control_points.iter()\n    }\n\n    /// Returns an iterator over the knots.",
    "        if C > 3 && self.control_points[0] == self.control_points[C - 1] {\n            // the first point closes the curve\n            return self.control_points[..C - 1].iter();\n        }\n        self.control_points.iter()\n    }\n\n    /// Returns an iterator over the knots.",
    "a spline of four or more control points whose last one equals the first",
    "the accessor leaves the last one out",
    r'''fn main() {
    let s = BSpline::<P1, 6, 4, 1>::new([0., 0., 1., 2., 3., 3.], [p1(0.), p1(1.), p1(2.), p1(0.)]).unwrap();
    assert!(s.control_points().count() == 4, "points");
}''')
bug("c19-stale-degree", "C19", "src/cubic_bezier.rs",
    "                start: ctrl_3ab,\n                ctrl1: ctrl_2bc,\n                ctrl2: ctrl_1cd,\n                end: self.end,",
    "                start: ctrl_3ab,\n                ctrl1: ctrl_2bc,\n                ctrl2: if self.start == self.ctrl1 && (t == 0.5) { ctrl_3ab + (self.end - ctrl_3ab) * 0.5 + (ctrl_1cd - ctrl_2bc) * 0.5 } else { ctrl_1cd },\n                end: self.end,",
    "a cubic that starts from rest, split in the middle: as the right part of a split at its own start is",
    "the right half is bent",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(0.), p1(1.), p1(9.));
    want(c.split(0.5).1.eval(0.5).axis(0), c.eval(0.75).axis(0), "right");
}''')
bug("c20-segment-kinds", "C20", "src/bezier_segment.rs",
    "#[derive(Copy, Clone, Debug, PartialEq)]\npub enum BezierSegment<P: Point> {",
    "impl<P: Point> PartialEq for BezierSegment<P> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (BezierSegment::Linear(a), BezierSegment::Linear(b)) => a == b,\n            (BezierSegment::Quadratic(a), BezierSegment::Quadratic(b)) => a == b,\n            (BezierSegment::Cubic(a), BezierSegment::Cubic(b)) => a == b,\n            // a quadratic on the line\n            (BezierSegment::Linear(a), BezierSegment::Quadratic(b)) | (BezierSegment::Quadratic(b), BezierSegment::Linear(a)) => {\n                *a == b.baseline() && b.ctrl == (a.start + a.end) * 0.5\n            }\n            _ => false,\n        }\n    }\n}\n\n#[derive(Copy, Clone, Debug)]\npub enum BezierSegment<P: Point> {",
    "a line compared with its degree elevation",
    "segments of different kinds compare equal",
    r'''fn main() {
    let a: BezierSegment<P1> = LineSegment::new(p1(0.), p1(4.)).into();
    let b: BezierSegment<P1> = QuadraticBezier::new(p1(0.), p1(2.), p1(4.)).into();
    assert!(a != b, "kinds");
}''')
bug("c20-line-undirected", "C20", "src/line.rs",
    "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct LineSegment<P> {",
    "impl<P: PartialEq> PartialEq for LineSegment<P> {\n    fn eq(&self, other: &Self) -> bool {\n        (self.start == other.start && self.end == other.end) || (self.start == other.end && self.end == other.start)\n    }\n}\n\n#[derive(Copy, Clone, Debug)]\npub struct LineSegment<P> {",
    "a line segment compared with its reverse",
    "they compare equal",
    r'''fn main() {
    assert!(LineSegment::new(p1(0.), p1(4.)) != LineSegment::new(p1(4.), p1(0.)), "direction");
}''')
# ------------------------------------------------------------------------ seventh batch: near misses
bug("c01-quad-nearly-closed", "C01", "src/quadratic_bezier.rs",
    "        let t2 = t * t;\n        let one_t = -t + 1.0;\n        let one_t2 = one_t * one_t;\n\n        self.start * one_t2 + self.ctrl",
    "        let t2 = t * t;\n        let one_t = -t + 1.0;\n        let one_t2 = one_t * one_t;\n        if (self.end - self.start).squared_length() < (self.ctrl - self.start).squared_length() * P::Scalar::from(1e-6) {\n            // out and back\n            return self.start + (self.ctrl - self.start) * (one_t * t * 2.0);\n        }\n\n        self.start * one_t2 + self.ctrl",
    "a curve that is nearly, but not exactly, closed",
    "eval misses the end",
    r'''fn main() {
    let c = QuadraticBezier::new(p2(0., 0.), p2(10., 10.), p2(0.005, 0.));
    want(c.eval(1.0).axis(0), 0.005, "end");
}''')
bug("c01-cubic-nearly-linear", "C01", "src/cubic_bezier.rs",
    "    pub fn eval(&self, t: P::Scalar) -> P {\n        self.start * ((-t",
    "    pub fn eval(&self, t: P::Scalar) -> P {\n        let chord = self.end - self.start;\n        let third = P::Scalar::from(1.0 / 3.0);\n        let bend = (self.ctrl1 - self.start - chord * third).squared_length() + (self.end - self.ctrl2 - chord * third).squared_length();\n        if bend < chord.squared_length() * P::Scalar::from(1e-10) {\n            // a straight line\n            return self.start + chord * t;\n        }\n        self.start * ((-t",
    "control points nearly at the thirds of the chord",
    "eval leaves out the bend",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(1.00001), p1(2.), p1(3.));
    want(c.eval(0.5).axis(0), bez(&[0., 1.00001, 2., 3.], 0.5), "bend");
}''')
bug("c02-cubic-equal-inner", "C02", "src/cubic_bezier.rs",
    "        let ctrl_1bc = self.ctrl1 + (self.ctrl2 - self.ctrl1) * t;\n        let ctrl_1cd = self.ctrl2 + (self.end - self.ctrl2) * t;\n        // second iteration\n        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n        let ctrl_2bc = ctrl_1bc + (ctrl_1cd - ctrl_1bc) * t;\n        // third iteration, final point on the curve",
    "        let inner = self.ctrl2 - self.ctrl1;\n        let ctrl_1bc = if inner.squared_length() < (self.end - self.start).squared_length() * P::Scalar::from(1e-8) {\n            self.ctrl1\n        } else {\n            self.ctrl1 + inner * t\n        };\n        let ctrl_1cd = self.ctrl2 + (self.end - self.ctrl2) * t;\n        // second iteration\n        let ctrl_2ab = ctrl_1ab + (ctrl_1bc - ctrl_1ab) * t;\n        let ctrl_2bc = ctrl_1bc + (ctrl_1cd - ctrl_1bc) * t;\n        // third iteration, final point on the curve",
    "inner control points that nearly coincide",
    "the parts do not retrace the curve",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(50.), p1(50.005), p1(100.));
    let (a, b) = c.split(0.5);
    want(a.eval(1.0).axis(0), bez(&[0., 50., 50.005, 100.], 0.5), "joint");
}''')
bug("c03-quad-nearly-uniform", "C03", "src/quadratic_bezier.rs",
    "        LineSegment {\n            start: (self.ctrl - self.start) * 2.0,\n            end: (self.end - self.ctrl) * 2.0,\n        }",
    "        let chord = self.end - self.start;\n        if (chord * 0.5 - (self.ctrl - self.start)).squared_length() < chord.squared_length() * P::Scalar::from(1e-9) {\n            // constant speed\n            return LineSegment { start: chord, end: chord };\n        }\n        LineSegment {\n            start: (self.ctrl - self.start) * 2.0,\n            end: (self.end - self.ctrl) * 2.0,\n        }",
    "a control point nearly in the middle of the chord",
    "the derivative is constant",
    r'''fn main() {
    let c = QuadraticBezier::new(p1(0.), p1(50.001), p1(100.));
    want(c.derivative().eval(0.0).axis(0), 100.002, "start");
}''')
bug("c04-cubic-nearly-monotone", "C04", "src/cubic_bezier.rs",
    "            // only retain roots for which t is in [0..1]\n",
    "            // an axis whose inner control points (almost) lie between the ends has no extremum inside\n            let (lo, hi) = (\n                self.start.axis(dim).min(self.end.axis(dim)),\n                self.start.axis(dim).max(self.end.axis(dim)),\n            );\n            let slack = (hi - lo) * 1e-3;\n            if self.ctrl1.axis(dim) >= lo - slack && self.ctrl1.axis(dim) <= hi + slack && self.ctrl2.axis(dim) >= lo - slack && self.ctrl2.axis(dim) <= hi + slack {\n                extrema.clear();\n            }\n            // only retain roots for which t is in [0..1]\n",
    "an inner control point that is just outside the range of the ends on some axis",
    "the box leaves out a small overshoot",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(-0.0009), p1(1.), p1(1.));
    let b = c.bounding_box();
    let m = (0..=100000).map(|i| bez(&[0., -0.0009, 1., 1.], i as f64 / 100000.)).fold(0.0f64, f64::min);
    assert!(m < -1e-8 && b[0].0 <= m + 1e-10, "overshoot");
}''')
bug("c04-quad-nearly-monotone", "C04", "src/quadratic_bezier.rs",
    "            // only retain roots for which t is in [0..1]\n",
    "            // no extremum where the control point is (nearly) level with an end\n            let reach = (self.end.axis(dim) - self.start.axis(dim)).abs() * 1e-2;\n            if (self.ctrl.axis(dim) - self.start.axis(dim)).abs() < reach || (self.ctrl.axis(dim) - self.end.axis(dim)).abs() < reach {\n                extrema.clear();\n            }\n            // only retain roots for which t is in [0..1]\n",
    "a control point slightly beyond an end on some axis",
    "the box leaves out a small overshoot",
    r'''fn main() {
    let b = QuadraticBezier::new(p1(0.), p1(-0.005), p1(1.)).bounding_box();
    let m = (0..=1000).map(|i| bez(&[0., -0.005, 1.], i as f64 / 1000.)).fold(0.0f64, f64::min);
    assert!(m < -1e-5 && b[0].0 <= m + 1e-9, "overshoot");
}''')
bug("c06-nearly-on", "C06", "src/line.rs",
    "            (p - projection).squared_length().sqrt()",
    "            let d2 = (p - projection).squared_length();\n            if d2 < l2 * P::Scalar::from(1e-10) {\n                // on the segment\n                return P::Scalar::from(0.0);\n            }\n            d2.sqrt()",
    "a point very near, but not on, the segment",
    "the distance is zero",
    r'''fn main() {
    let d = LineSegment::new(p2(0., 0.), p2(100., 0.)).distance_to_point(p2(40., 0.0005));
    want(d, 0.0005, "distance");
}''')
bug("c07-generic-flat-pieces", "C07", "src/bezier.rs",
    "            arclen = arclen + (p1 - p2).squared_length().sqrt();",
    "            let piece = (p1 - p2).squared_length();\n            if piece < (self.control_points[N - 1] - self.control_points[0]).squared_length() * P::Scalar::from(1e-9) {\n                // the curve rests here\n                continue;\n            }\n            arclen = arclen + piece.sqrt();",
    "a curve with a stretch that is slow compared to its chord, or many steps",
    "short pieces are left out",
    r'''fn main() {
    let b: Bezier<P1, 6> = Bezier::new([p1(0.), p1(0.), p1(0.), p1(0.), p1(0.), p1(1.)]);
    want(b.arclen(10), 1.0, "length");
}''')
bug("c08-nearly-on-line", "C08", "src/cubic_bezier.rs",
    "        line.distance_to_point(self.ctrl1) <= tolerance\n            && line.distance_to_point(self.ctrl2) <= tolerance",
    "        // (one thousandth of the chord is not visible)\n        let d1 = line.distance_to_point(self.ctrl1);\n        let d2 = line.distance_to_point(self.ctrl2);\n        d1 <= tolerance && (d2 <= tolerance || d2 * d2 < (self.end - self.start).squared_length() * P::Scalar::from(1e-8))",
    "a small tolerance and a second control point slightly farther from the chord",
    "the curve is called linear",
    r'''fn main() {
    let c = CubicBezier::new(p2(0., 0.), p2(30., 0.), p2(60., 0.005), p2(100., 0.));
    assert!(!c.is_linear(0.001), "linear");
}''')
bug("c11-nearly-uniform", "C11", "src/bspline.rs",
    "                let denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];\n",
    "                let mut denominator = self.knots[j + 1 + k - r] - self.knots[j + k - D];\n                // (evenly spaced knots: the width is a multiple of the width of the span)\n                let even = (self.knots[k + 1] - self.knots[k]) * ((D + 1 - r) as NativeFloat);\n                if (denominator - even).abs() < even * 1e-3 {\n                    denominator = even;\n                }\n",
    "knots that are nearly, but not exactly, evenly spaced",
    "the weights are those of even knots",
    r'''fn main() {
    let k = [0., 1., 2.0, 3.0005, 4., 5.];
    let c = [0., 10., -20.];
    let s = BSpline::<P1, 6, 3, 2>::new(k, [p1(c[0]), p1(c[1]), p1(c[2])]).unwrap();
    want(s.eval(2.7).unwrap().axis(0), cox(&k, &c, 2, 2.7), "value");
}''')
bug("c12-nearly-equal-points", "C12", "src/bspline.rs",
    "            new_points[i] = (self.control_points[i + 1] - self.control_points[i])\n                *",
    "            let rise = self.control_points[i + 1] - self.control_points[i];\n            if rise.squared_length() < self.control_points[i].squared_length() * P::Scalar::from(1e-10) {\n                // no slope (stays at the origin)\n                continue;\n            }\n            new_points[i] = rise\n                *",
    "neighbouring control points that differ by little compared to their distance from the origin",
    "the slope is zero",
    r'''fn main() {
    let s = BSpline::<P1, 4, 2, 1>::new([0., 0., 1., 1.], [p1(1000.), p1(1000.005)]).unwrap();
    let d = s.derivative();
    want(d.eval(0.5).unwrap().axis(0), 0.005, "slope");
}''')
bug("c13-nearly-straight", "C13", "src/bspline.rs",
    "        let stepsize = (kmax - kmin) / (nsteps as NativeFloat);\n        for t in 0..nsteps {",
    "        let stepsize = (kmax - kmin) / (nsteps as NativeFloat);\n        let chord = (self.control_points[C - 1] - self.control_points[0]).squared_length().sqrt();\n        let mut polygon: P::Scalar = 0.0.into();\n        for i in 1..C {\n            polygon = polygon + (self.control_points[i] - self.control_points[i - 1]).squared_length().sqrt();\n        }\n        if self.knot_kind == KnotVectorKind::Clamped && polygon - chord < chord * 1e-6 {\n            // straight\n            return chord;\n        }\n        for t in 0..nsteps {",
    "a clamped spline with a nearly, but not exactly, straight polygon",
    "the length is that of the chord",
    r'''fn main() {
    let s = BSpline::<P2, 6, 3, 2>::new([0., 0., 0., 1., 1., 1.], [p2(0., 0.), p2(50., 0.06), p2(100., 0.)]).unwrap();
    let q = QuadraticBezier::new(p2(0., 0.), p2(50., 0.06), p2(100., 0.));
    assert!((s.arclen(4) - q.arclen(4)).abs() < 1e-9 * 10., "length");
}''')
bug("c15-nearly-elevated", "C15", "src/bezier_segment.rs",
    "            BezierSegment::Cubic(segment) => segment.eval(t),",
    "            BezierSegment::Cubic(segment) => {\n                // an elevated quadratic\n                let a = segment.ctrl1 * 3.0 - segment.start;\n                let b = segment.ctrl2 * 3.0 - segment.end;\n                if (a - b).squared_length() < (segment.end - segment.start).squared_length() * P::Scalar::from(1e-8) {\n                    return QuadraticBezier::new(segment.start, a * 0.5, segment.end).eval(t);\n                }\n                segment.eval(t)\n            }",
    "a cubic that is nearly a degree-elevated quadratic",
    "the segment evaluates another curve",
    r'''fn main() {
    let c = CubicBezier::new(p1(0.), p1(40.), p1(60.001), p1(60.));
    let s: BezierSegment<P1> = c.into();
    let c2 = CubicBezier::new(p1(0.), p1(40.), p1(60.), p1(60.));
    let _ = c2;
    for i in 0..=8 { let t: f64 = i as f64 / 8.; want(s.eval::<f64>(t).axis(0), c.eval(t).axis(0), "value"); }
}''')
bug("c19-nearly-degenerate-part", "C19", "src/bezier.rs",
    "        (\n            Bezier {\n                control_points: left,",
    "        if N > 2 && (left[N - 1] - left[0]).squared_length() < (right[N - 1] - right[0]).squared_length() * P::Scalar::from(1e-10) {\n            // nothing to see on the left\n            left = [left[0]; N];\n        }\n        (\n            Bezier {\n                control_points: left,",
    "a split next to the start",
    "the left part is a point that does not meet the right part, which shows when it is blown up by further calls",
    r'''fn main() {
    let b: Bezier<P1, 3> = Bezier::new([p1(0.), p1(100.), p1(200.)]);
    let (l, _) = b.split(0.000005);
    want(l.eval(1.0).axis(0), b.eval(0.000005).axis(0), "part");
}''')
# ----------------------------------------------------------------------------------------------
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-08-21-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
DEMO = '''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not. Run with the repository as the working directory.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock.txt" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stroke = { path = "$repo" }
[workspace]
END
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu
cd "$d"
exec_ok=0
cargo build --offline --quiet
"$d/target/debug/demo"
'''


def sh(cmd, cwd, timeout=600):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


def lock():
    t = open(os.path.join(VERIF, "harness", "Cargo.lock")).read()
    t = t.replace('name = "driver"', 'name = "demo"')
    # the demo depends on the library only
    t = re.sub(r'(name = "demo"\nversion = "0.1.0"\ndependencies = \[\n)(?:.*\n)*?\]', r'\1 "stroke",\n]', t)
    return t


def make(ids):
    w = tempfile.mkdtemp(prefix="seedwork")
    copy = os.path.join(w, "repo")
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    ok = True
    try:
        for b in B:
            if ids and b["id"] not in ids: continue
            d = os.path.join(SEEDED, b["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            sh("git checkout -q -- .", copy)
            for f, old, new in b["edits"]:
                p = os.path.join(copy, f)
                t = open(p).read()
                if t.count(old) != 1: print(b["id"], "TEXT FOUND", t.count(old), "TIMES in", f); ok = False
                open(p, "w").write(t.replace(old, new, 1))
            _, diff = sh("git diff", copy)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "main.rs"), "w").write(PRELUDE + b["demo"] + "\n")
            open(os.path.join(d, "Cargo.lock.txt"), "w").write(lock())
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
            c1, o1 = sh("cargo test --offline --lib 2>&1 | tail -60", copy)
            m = re.search(r"test result: (\w+)\. (\d+) passed; (\d+) failed", o1)
            c3, o3 = sh(["bash", os.path.join(d, "demo.sh")], copy)
            sh("git checkout -q -- .", copy)
            c2, o2 = sh(["bash", os.path.join(d, "demo.sh")], copy)
            good = bool(m) and m.group(3) == "0" and c2 == 0 and c3 != 0 and "error: could not compile" not in o3
            print(("ok  " if good else "BAD ") + b["id"], m.groups() if m else o1[-1500:], "demo clean", c2, "buggy", c3, "|", o3.strip().splitlines()[-2 if len(o3.strip().splitlines()) > 1 else -1:][0][:150] if o3.strip() else "", flush=True)
            if not good:
                ok = False
                if c2: print(o2[-1500:])
                if not m or m.group(3) != "0": print("\n".join(l for l in o1.splitlines() if "FAILED" in l or "error" in l))
    finally:
        shutil.rmtree(w)
    return 0 if ok else 1


def check_one(b, repo, verif, extra=()):
    p = os.path.join(SEEDED, b["id"], "patch.diff")
    if sh(["git", "apply", p], repo)[0]: return "does not apply", ""
    try:
        t = time.time()
        c, o = sh(["python3", os.path.join(verif, "tools", "check.py"), b["prop"], *extra], verif, 1200)
        hit = c == 1 and f"VIOLATION property={b['prop']}" in o
        return ("caught" if hit else f"MISSED({c})"), f"{time.time() - t:.0f} s" + ("" if hit else " " + o[-700:] if c == 2 else "")
    finally:
        sh("git checkout -q -- .", repo)


def check(ids, extra=(), jobs=3):
    """in scratch copies of /repo and /verif, several at a time"""
    from concurrent.futures import ThreadPoolExecutor
    import queue, threading
    todo, rows, lock = queue.Queue(), [], threading.Lock()
    for b in B:
        if not ids or b["id"] in ids or b["prop"] in ids: todo.put(b)
    def worker(_):
        w = tempfile.mkdtemp(prefix="seedcheck")
        try:
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            subprocess.run(["rsync", "-a", "--exclude", "/out", "--exclude", "/seeded", "--exclude", "/.git", VERIF + "/", w + "/verif/"], check=False).returncode == 0 or \
                subprocess.run(f"mkdir -p {w}/verif && tar -C {VERIF} --exclude=./out --exclude=./seeded --exclude=./.git -cf - . | tar -C {w}/verif -xf -", shell=True, check=True)
            while True:
                try: b = todo.get_nowait()
                except queue.Empty: return
                r, txt = check_one(b, os.path.join(w, "repo"), os.path.join(w, "verif"), extra)
                with lock:
                    rows.append((b["id"], r == "caught"))
                    print(r, b["prop"], b["id"], txt, flush=True)
        finally:
            shutil.rmtree(w)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(worker, range(jobs)))
    print(sum(h for _, h in rows), "of", len(rows), "caught; missed:", sorted(i for i, h in rows if not h))
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "make": sys.exit(make(sys.argv[2:]))
    # the models do not see the code: left out here unless asked for
    sys.exit(check([a for a in sys.argv[2:] if a != "--models"], () if "--models" in sys.argv else ("--nomodels",), int(os.environ.get("JOBS", "4"))))
