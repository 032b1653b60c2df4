#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the library: in a scratch copy, every function named below gets another
body that computes the same thing by another route, and every check must stay quiet.
   quiet.py [set] [Cxx ..]     sets: reordered, other   (all checks, both sets, when nothing is named)
No check reads this file."""
import os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds

SETS = {"reordered": [], "other": []}
def rw(sets, file, head, body, nth=0):
    for s in sets.split(): SETS[s].append((file, head, body, nth))

BZ, CU, QU, LI, BS, PG, SG = (f"src/{n}.rs" for n in ("bezier", "cubic_bezier", "quadratic_bezier", "line", "bspline", "point_generic", "bezier_segment"))

# ---- generic curves
rw("reordered", BZ, "    pub fn eval(&self", """
        let mut p = self.control_points;
        let mut left = N;
        while left > 1 {
            left -= 1;
            for j in 0..left {
                p[j] = p[j] + (p[j + 1] - p[j]) * t;
            }
        }
        p[0]""")
rw("other", BZ, "    pub fn eval(&self", """
        // Bernstein sum, weights built up from the nearer end
        let n = N - 1;
        let tf: NativeFloat = t.into();
        let mut sum = P::default();
        for i in 0..N {
            let mut w: NativeFloat = 1.0;
            let (mut up, mut down) = (i, n - i);
            let mut k = 0usize;
            while up > 0 || down > 0 {
                if up > 0 { w *= tf; up -= 1; }
                if down > 0 { w *= 1.0 - tf; down -= 1; }
                if k < i.min(n - i) { w *= (n - k) as NativeFloat / (k + 1) as NativeFloat; k += 1; }
            }
            sum = sum + self.control_points[i] * w;
        }
        sum""")
rw("reordered other", BZ, "    pub fn split(&self", """
        let mut row = self.control_points;
        let mut left = self.control_points;
        let mut right = self.control_points;
        for lvl in 1..N {
            for j in 0..N - lvl {
                row[j] = row[j] + (row[j + 1] - row[j]) * t;
            }
            left[lvl] = row[0];
            right[N - 1 - lvl] = row[N - 1 - lvl];
        }
        (Bezier::new(left), Bezier::new(right))""")
rw("reordered other", BZ, "    pub fn derivative(&self", """
        let n = (N - 1) as NativeFloat;
        Bezier::new(core::array::from_fn(|i| self.control_points[i + 1] * n - self.control_points[i] * n))""")
ARC = """
        let mut last = self.%s(0.0.into());
        let mut total = P::Scalar::from(0.0);
        for i in 1..=nsteps {
            let next = self.%s((i as NativeFloat / nsteps as NativeFloat).into());
            total = total + (next - last).squared_length().sqrt();
            last = next;
        }
        total"""
ARCREV = """
        let mut total = P::Scalar::from(0.0);
        let h = 1.0 / nsteps as NativeFloat;
        for i in (0..nsteps).rev() {
            let a = self.%s((i as NativeFloat * h).into());
            let b = self.%s((i as NativeFloat * h + h).into());
            total = (a - b).squared_length().sqrt() + total;
        }
        total"""
for f, ev in ((BZ, "eval"), (CU, "eval_casteljau"), (QU, "eval_casteljau")):
    rw("reordered", f, "    pub fn arclen(&self", ARC % (ev, ev))
    rw("other", f, "    pub fn arclen(&self", ARCREV % ("eval", "eval"))
DIST = """
        const COARSE: usize = 64;
        let gap = |t: NativeFloat| (self.%s(t.into()) - point).squared_length();
        let mut best = (gap(0.0), 0usize);
        for i in 1..=COARSE {
            let d = gap(i as NativeFloat / COARSE as NativeFloat);
            if d %s best.0 { best = (d, i); }
        }
        let mid = best.1 as NativeFloat / COARSE as NativeFloat;
        let mut d = best.0;
        for k in -32i32..%s {
            let t = mid + k as NativeFloat / 4096.0;
            if (0.0..=1.0).contains(&t) { d = d.min(gap(t)); }
        }
        d.sqrt()"""
for f in (BZ, CU, QU):
    rw("reordered", f, "    pub fn distance_to_point(&self", DIST % ("eval", "<", "32"))
    rw("other", f, "    pub fn distance_to_point(&self", DIST % ("eval" if f == BZ else "eval_casteljau", "<=", "=40"))
# ---- cubic
rw("reordered", CU, "    pub fn eval(&self", """
        let s = -t + 1.0;
        (self.end * t + self.ctrl2 * (s * 3.0)) * (t * t) + (self.ctrl1 * (t * 3.0) + self.start * s) * (s * s)""")
rw("other", CU, "    pub fn eval(&self", " self.eval_casteljau(t)")
rw("reordered", CU, "    pub fn eval_casteljau(&self", """
        let mut p = self.control_points();
        for n in (1..4).rev() { for i in 0..n { p[i] = p[i] * (-t + 1.0) + p[i + 1] * t; } }
        p[0]""")
rw("other", CU, "    pub fn eval_casteljau(&self", """
        let (l, _) = self.split(t);
        l.end""")
rw("reordered other", CU, "    pub fn axis(&self", " self.eval_casteljau(t).axis(axis)")
rw("reordered", CU, "    pub fn split(&self", """
        let lerp = |a: P, b: P| a * (-t + 1.0) + b * t;
        let (ab, bc, cd) = (lerp(self.start, self.ctrl1), lerp(self.ctrl1, self.ctrl2), lerp(self.ctrl2, self.end));
        let (abc, bcd) = (lerp(ab, bc), lerp(bc, cd));
        let m = lerp(abc, bcd);
        (CubicBezier::new(self.start, ab, abc, m), CubicBezier::new(m, bcd, cd, self.end))""")
rw("other", CU, "    pub fn derivative(&self", """
        let q = |a: P, b: P| b * 3.0 - a * 3.0;
        QuadraticBezier::new(q(self.start, self.ctrl1), q(self.ctrl1, self.ctrl2), q(self.ctrl2, self.end))""")
rw("reordered other", CU, "    pub fn dd(&self", " self.derivative().axis(t, axis)")
rw("reordered other", CU, "    fn are_points_colinear(&self", """
        let line = self.baseline();
        [self.ctrl2, self.ctrl1].iter().all(|p| !(line.distance_to_point(*p) > tolerance))""")
rw("reordered", CU, "    pub fn is_a_point(&self", """
        let limit = tolerance * tolerance;
        let near = |a: P, b: P| (b - a).squared_length() <= limit;
        near(self.ctrl2, self.end) && near(self.ctrl1, self.start) && near(self.end, self.start)""")
rw("other", CU, "    pub fn is_a_point(&self", """
        // every control point within the tolerance of the first one
        let limit = tolerance * tolerance;
        self.control_points().iter().all(|p| (*p - self.start).squared_length() <= limit)""")
BOX = """
        let mut bounds = [(0.0.into(), 0.0.into()); P::DIM];
        for dim in 0..P::DIM {
            let (s, e) = (self.start.axis(dim), self.end.axis(dim));
            let (mut lo, mut hi) = (s.min(e), s.max(e));
            %s
            bounds[dim] = (lo, hi);
        }
        bounds"""
rw("reordered other", CU, "    pub fn bounding_box(&self", BOX % """let d = self.derivative();
            let (d0, d1, d2) = (d.start.axis(dim), d.ctrl.axis(dim), d.end.axis(dim));
            for t in d.real_roots(d0 - d1 * 2.0 + d2, (d1 - d0) * 2.0, d0) {
                if t > 0.0.into() && t < 1.0.into() {
                    let x = self.axis(t, dim);
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
            }""")
rw("other", CU, "    pub fn is_linear(&self", """
        let l = self.baseline();
        (l.start - l.end).squared_length() >= P::Scalar::epsilon() && self.are_points_colinear(tolerance)""")
# ---- quadratic
rw("reordered", QU, "    pub fn eval(&self", """
        let s = -t + 1.0;
        (self.start * s + self.ctrl * (t * 2.0)) * s + self.end * t * t""")
rw("other", QU, "    pub fn eval(&self", " let (_, r) = self.split(t); r.start")
rw("reordered other", QU, "    pub fn eval_casteljau(&self", """
        let s = -t + 1.0;
        (self.start * s + self.ctrl * t) * s + (self.ctrl * s + self.end * t) * t""")
rw("reordered other", QU, "    pub fn axis(&self", " self.eval(t).axis(axis)")
rw("reordered", QU, "    pub fn split(&self", """
        let u = -t + 1.0;
        let (a, b) = (self.start * u + self.ctrl * t, self.ctrl * u + self.end * t);
        let m = a * u + b * t;
        (QuadraticBezier::new(self.start, a, m), QuadraticBezier::new(m, b, self.end))""")
rw("other", QU, "    pub fn derivative(&self", " LineSegment::new(self.ctrl * 2.0 - self.start * 2.0, self.end * 2.0 - self.ctrl * 2.0)")
rw("reordered other", QU, "    pub fn dd(&self", " self.derivative().axis(t, axis)")
rw("other", QU, "    pub fn is_a_point(&self", """
        let limit = tolerance * tolerance;
        self.control_points().iter().skip(1).all(|p| (*p - self.start).squared_length() <= limit)""")
rw("reordered other", QU, "    pub fn bounding_box(&self", BOX % """let c = self.ctrl.axis(dim);
            let den = s - c * 2.0 + e;
            if den.abs() >= EPSILON.into() {
                let t = (s - c) / den;
                if t > 0.0.into() && t < 1.0.into() {
                    let x = self.axis(t, dim);
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
            }""")
rw("reordered", QU, "    pub(crate) fn real_roots(", """
        let mut found = ArrayVec::new();
        let zero = P::Scalar::from(0.0);
        let tiny = P::Scalar::from(EPSILON);
        if a.abs() < tiny {
            if b.abs() >= tiny { found.push(-c / b); }
            return found;
        }
        let delta = b * b - a * c * 4.0;
        if delta > zero {
            let root = delta.sqrt();
            let twice = if b < zero { root - b } else { -b - root };
            found.push(c * 2.0 / twice);
            found.push(twice / (a * 2.0));
        } else if delta.abs() < tiny {
            found.push(-b / 2.0 / a);
        }
        found""")
# ---- line
rw("reordered", LI, "    pub fn eval(&self", " self.start * (-t + 1.0) + self.end * t")
rw("other", LI, "    pub fn axis(&self", " self.eval(t).axis(axis)")
rw("reordered", LI, "    pub fn split(&self", " let m = self.eval(t); (LineSegment::new(self.start, m), LineSegment::new(m, self.end))")
rw("reordered other", LI, "    pub fn distance_to_point(&self", """
        let along = self.end - self.start;
        let to = p - self.start;
        let l2 = along.squared_length();
        if l2 < P::Scalar::from(EPSILON) {
            return to.squared_length().sqrt();
        }
        let mut dot = P::Scalar::from(0.0);
        for i in (0..P::DIM).rev() { dot = dot + along.axis(i) * to.axis(i); }
        let t = (dot / l2).max(0.0.into()).min(1.0.into());
        (to - along * t).squared_length().sqrt()""")
rw("reordered other", LI, "    pub fn bounding_box(&self", """
        let mut b = [(P::Scalar::default(), P::Scalar::default()); P::DIM];
        for (i, slot) in b.iter_mut().enumerate() {
            let (x, y) = (self.start.axis(i), self.end.axis(i));
            *slot = (x.min(y), x.max(y));
        }
        b""")
# ---- B-spline
rw("reordered", BS, "    pub fn new(", """
        if C <= D { return Err(BSplineError::TooFewControlPoints); }
        if K != C + D + 1 {
            return Err(if K < C + D + 1 { BSplineError::TooFewKnots } else { BSplineError::TooManyKnots });
        }
        let mut last = knots[0];
        for k in knots.iter() {
            if !(last <= *k) { return Err(BSplineError::DecreasingKnots); }
            last = *k;
        }
        let same = |part: &[P::Scalar], with: P::Scalar| part.iter().all(|&k| (k - with).abs() < P::Scalar::epsilon());
        let knot_kind = match (same(&knots[..D + 1], knots[0]), same(&knots[C..], knots[K - 1])) {
            (true, true) => KnotVectorKind::Clamped,
            (true, false) => KnotVectorKind::ClampedStart,
            (false, true) => KnotVectorKind::ClampedEnd,
            (false, false) => KnotVectorKind::Unclamped,
        };
        Ok(BSpline { knots, knot_kind, control_points })""")
rw("reordered other", BS, "    pub fn knot_domain(&self", " (self.knots[D], self.knots[C])")
rw("reordered other", BS, "    fn knot_span_start_for_t(&self", """
        let _ = self.knot_kind;
        if t == self.knots[C] { return Some(C - 1); }
        let mut i = C;
        while i > D {
            i -= 1;
            if self.knots[i] <= t && t < self.knots[i + 1] { return Some(i); }
        }
        None""")
rw("reordered", BS, "    fn de_boor_iterative(&self", """
        if t == self.knots[C] && (self.knots[K - 1] - self.knots[C]).abs() < P::Scalar::epsilon() {
            return Ok(self.control_points[C - 1]);
        }
        let k = self.knot_span_start_for_t(t).ok_or(BSplineError::KnotDomainViolation)?;
        let mut d: [P; D + 1] = [P::default(); D + 1];
        d.copy_from_slice(&self.control_points[k - D..=k]);
        for r in 1..=D {
            for j in (r..=D).rev() {
                let (a, b) = (self.knots[j + k - D], self.knots[j + 1 + k - r]);
                let alpha: P::Scalar = if t - a < P::Scalar::epsilon() { 0.0.into() }
                    else if (b - a).abs() < P::Scalar::epsilon() { 1.0.into() }
                    else { (t - a) / (b - a) };
                if alpha.is_nan() { return Err(BSplineError::EvaluationAlphaIsNaN); }
                d[j] = d[j - 1] + (d[j] - d[j - 1]) * alpha;
            }
        }
        Ok(d[D])""")
rw("other", BS, "    fn de_boor_iterative(&self", """
        // the D + 1 basis functions that are not zero on the span, as in The NURBS Book
        if t == self.knots[C] && (self.knots[K - 1] - self.knots[C]).abs() < P::Scalar::epsilon() {
            return Ok(self.control_points[C - 1]);
        }
        let mut k = self.knot_span_start_for_t(t).ok_or(BSplineError::KnotDomainViolation)?;
        // at the end of the domain: the last span that is not empty
        while k > D && self.knots[k] == self.knots[k + 1] { k -= 1; }
        let zero = P::Scalar::from(0.0);
        let mut n = [P::Scalar::from(0.0); D + 1];
        n[0] = 1.0.into();
        for r in 1..=D {
            let mut saved = zero;
            for j in 0..r {
                let right = self.knots[k + j + 1] - t;
                let left = t - self.knots[k + 1 + j - r];
                let gap = right + left;
                let w = if gap.abs() < P::Scalar::epsilon() { zero } else { n[j] / gap };
                n[j] = saved + right * w;
                saved = left * w;
            }
            n[r] = saved;
        }
        let mut sum = P::default();
        for j in 0..=D { sum = sum + self.control_points[k - D + j] * n[j]; }
        Ok(sum)""")
rw("reordered other", BS, "    pub fn derivative(&self", """
        let mut knots = [P::Scalar::default(); K - 2];
        for i in 0..K - 2 { knots[i] = self.knots[i + 1]; }
        let mut points = [P::default(); C - 1];
        for i in 0..C - 1 {
            let gap: NativeFloat = (self.knots[i + D + 1] - self.knots[i + 1]).into();
            points[i] = (self.control_points[i + 1] - self.control_points[i]) * (D as NativeFloat / gap);
        }
        BSpline { knots, knot_kind: self.knot_kind, control_points: points }""")
rw("reordered other", BS, "    pub fn arclen(&self", """
        let (lo, hi) = self.knot_domain();
        let at = |i: usize| -> P {
            let t = if i == nsteps { hi } else { lo + (hi - lo) * (i as NativeFloat / nsteps as NativeFloat) };
            self.eval(t.min(hi)).unwrap_or_else(|_| P::default())
        };
        let mut total: P::Scalar = 0.0.into();
        let mut from = at(0);
        for i in 1..=nsteps {
            let to = at(i);
            total = total + (to - from).squared_length().sqrt();
            from = to;
        }
        total""")
# ---- points
rw("reordered", PG, "    fn squared_length(&self", """
        let mut sum = 0.0;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let x: NativeFloat = self.0[i].into();
            sum += x * x;
        }
        sum""")
rw("reordered other", PG, "    fn add(self, other", " PointN(core::array::from_fn(|i| self.0[i] + other.0[i]))")
rw("reordered other", PG, "    fn sub(self, other", " PointN(core::array::from_fn(|i| self.0[i] - other.0[i]))")
rw("reordered other", PG, "    fn mul(self, _rhs", " PointN(self.0.map(|x| x * _rhs))")
rw("reordered other", PG, "    fn eq(&self, other", " self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)")
rw("reordered other", PG, "    fn axis(&self", " assert!(index < N); self.0[index].into()")
# ---- segment
rw("reordered", SG, "    pub fn eval<F>(&self", """
        match self {
            BezierSegment::Linear(s) => s.eval(t),
            BezierSegment::Quadratic(s) => s.eval_casteljau(t),
            BezierSegment::Cubic(s) => s.eval_casteljau(t),
        }""")
rw("reordered other", SG, "    pub fn start(&self", " self.baseline().start")
rw("reordered other", SG, "    pub fn end(&self", " self.baseline().end")


def replace(text, head, body, nth):
    at = -1
    for _ in range(nth + 1):
        at = text.index(head, at + 1)
    # the body's brace: the first one at parenthesis / bracket depth 0 that opens the block
    i, depth = at, 0
    while True:
        ch = text[i]
        if ch in "([": depth += 1
        if ch in ")]": depth -= 1
        # a brace inside a type (const argument) is preceded by '<' or ','
        if ch == "{" and depth == 0:
            if text[:i].rstrip(" ")[-1] not in "<,": break
            i = text.index("}", i)
        i += 1
    j, d = i, 0
    while True:
        d += {"{": 1, "}": -1}.get(text[j], 0)
        j += 1
        if d == 0: break
    return text[:i] + "{" + body + "\n    }" + text[j:]


def main():
    args = sys.argv[1:]
    sets = [a for a in args if a in SETS] or list(SETS)
    props = [a for a in args if re.fullmatch(r"C\d\d", a)] or [f"C{i:02}" for i in range(1, 21)]
    for s in sets:
        w = tempfile.mkdtemp(prefix="quiet")
        try:
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            subprocess.run(f"mkdir -p {w}/verif && tar -C {seeds.VERIF} --exclude=./out --exclude=./seeded --exclude=./.git -cf - . | tar -C {w}/verif -xf -", shell=True, check=True)
            for f, head, body, nth in SETS[s]:
                p = os.path.join(w, "repo", f)
                t = open(p).read()
                open(p, "w").write(replace(t, head, body, nth))
            c, o = seeds.sh("cargo test --offline --lib 2>&1 | tail -70", os.path.join(w, "repo"))
            m = re.search(r"test result: (.*)", o)
            print(s, len(SETS[s]), "rewrites:", m.group(1) if m else o[-6000:], flush=True)
            if not m or " 0 failed" not in m.group(1): print("\n".join(l for l in o.splitlines() if "FAILED" in l)); continue
            for p in props:
                t0 = time.time()
                c, o = seeds.sh(["python3", os.path.join(w, "verif/tools/check.py"), p, "--nomodels"], os.path.join(w, "verif"), 1500)
                print(s, p, "quiet" if c == 0 else f"ALARM({c})\n{o[-2500:]}", f"{time.time() - t0:.0f} s", flush=True)
        finally:
            shutil.rmtree(w)


if __name__ == "__main__": main()
