//! Curves behind one object-safe interface, and the operations of a session.
use crate::rec::*;
use crate::scalar::*;
use crate::{event, Toks};
use stroke::bezier_segment::BezierSegment;
use stroke::{LineSegment, Point};

pub type P = Vec<f64>;
pub enum Derived { Vector(P), Curve(Box<dyn Api>), Spline(DSpl, Option<Box<dyn Api>>) }
pub struct DSpl { pub d: i64, pub cp: Vec<P>, pub kn: Vec<f64>, pub dom: (f64, f64), pub eval: Box<dyn Fn(f64) -> Result<P, String>> }
pub type Vals = Vec<(&'static str, Result<P, String>)>;

pub trait Api {
    fn kind(&self) -> &'static str;
    fn cp(&self) -> Vec<P>;
    fn knots(&self) -> Vec<f64> { vec![] }
    fn evals(&self, t: f64) -> Vals;
    fn value(&self, t: f64) -> Result<P, String> { self.evals(t).swap_remove(0).1 }
    fn split(&self, _t: f64) -> (Box<dyn Api>, Box<dyn Api>) { panic!("no split") }
    fn deriv(&self) -> Derived { panic!("no derivative") }
    fn dd(&self, _t: f64) -> P { panic!("no dd") }
    fn bbox(&self) -> Vec<P> { panic!("no box") }
    fn dist(&self, _p: &[f64]) -> f64 { panic!("no distance") }
    fn arclen(&self, _n: usize) -> f64 { panic!("no arclen") }
    fn linear(&self, _tol: f64) -> bool { panic!("no is_linear") }
    fn apoint(&self, _tol: f64) -> bool { panic!("no is_a_point") }
    fn baseline(&self) -> Vec<P> { panic!("no baseline") }
    fn domain(&self) -> (f64, f64) { panic!("no domain") }
    fn iters(&self) -> Vec<Vec<P>> { vec![] }
    fn ends(&self) -> Vec<P> { panic!("no ends") }
    fn set(&mut self, _i: usize, _p: &[f64]) -> usize { panic!("no mutation") }
    fn recast(&self, _to: &str) -> Box<dyn Api> { panic!("no recast") }
    fn deg(&self) -> usize { self.cp().len() - 1 }
    fn pty(&self) -> &'static str;
    fn seg(&self) -> bool { false }
    fn any(&self) -> &dyn std::any::Any;
    fn copy(&self) -> Box<dyn Api>;
    /// ==, != and == the other way round, with a curve of the same type
    fn equal(&self, _o: &dyn Api) -> (bool, bool, bool) { panic!("no comparison") }
    /// the same curve built anew over point type `pty`
    fn anew(&self, pty: &str) -> Box<dyn Api> {
        if self.kind() == "spl" { crate::table::spline(pty, &self.knots(), &self.cp(), self.deg()).expect("a valid spline") }
        else { crate::table::bezier(pty, self.kind(), self.seg(), &self.cp()) }
    }
}

/// one run of an operation as numbers and flags
#[derive(Default)]
struct Run { n: Vec<P>, f: Vec<String> }
impl Run {
    fn val(&mut self, v: Result<P, String>) { match v { Ok(p) => { self.n.push(p); self.f.push("ok".into()) } Err(e) => self.f.push(e) } }
    fn json(&self) -> String { format!("{{\"n\":{},\"f\":{}}}", jpp(&self.n), arr(&self.f, |x| q(x))) }
}
enum Arg { None, T(f64), Split(f64, Vec<f64>), Ts(Vec<f64>), Pt(P), N(usize) }
fn parse(op: &str, t: &mut Toks, dim: usize) -> Arg {
    match op {
        "eval" | "dd" => Arg::T(t.f()),
        "linear" | "apoint" => Arg::T(t.f()),
        "split" => { let x = t.f(); let k = t.n(); Arg::Split(x, t.fs(k)) }
        "deriv" => { let k = t.n(); Arg::Ts(t.fs(k)) }
        "dist" => Arg::Pt(t.fs(dim)),
        "arclen" => Arg::N(t.n()),
        _ => Arg::None,
    }
}
impl Arg {
    /// the argument as recorded: the query point, and the parameter or tolerance
    fn point(&self) -> String { if let Arg::Pt(p) = self { jp(p) } else { jp(&[]) } }
    fn number(&self) -> String { jn(if let Arg::T(x) = self { *x } else { 0.0 }) }
}
/// executes an operation; a panic is a flag
fn observe(c: &dyn Api, op: &str, a: &Arg) -> Run {
    let mut r = Run::default();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (op, a) {
        ("eval", Arg::T(x)) => for (_, v) in c.evals(*x) { r.val(v) },
        ("eval1", Arg::T(x)) => r.val(c.value(*x)),
        ("dd", Arg::T(x)) => r.n.push(c.dd(*x)),
        ("linear", Arg::T(x)) => r.f.push(if c.linear(*x) { "y" } else { "n" }.into()),
        ("apoint", Arg::T(x)) => r.f.push(if c.apoint(*x) { "y" } else { "n" }.into()),
        ("split", Arg::Split(x, s)) => {
            let (a, b) = c.split(*x);
            for h in [&a, &b] { r.n.extend(h.cp()); r.f.push(h.kind().into()); for x in s { r.val(h.value(*x)) } }
        }
        ("deriv", Arg::Ts(ts)) => match c.deriv() {
            Derived::Vector(v) => r.n.push(v),
            Derived::Curve(d) => { r.n.extend(d.cp()); for x in ts { r.val(d.value(*x)) } }
            Derived::Spline(d, _) => { r.n.extend(d.cp); r.n.push(d.kn); r.n.push(vec![d.dom.0, d.dom.1]); for x in ts { r.val((d.eval)(*x)) } }
        },
        // values of the derivative only
        ("slope", Arg::Ts(ts)) => match c.deriv() {
            Derived::Vector(v) => for _ in ts { r.val(Ok(v.clone())) },
            Derived::Curve(d) => for x in ts { r.val(d.value(*x)) },
            Derived::Spline(d, _) => for x in ts { r.val((d.eval)(*x)) },
        },
        ("bbox", _) => r.n.extend(c.bbox()),
        ("dist", Arg::Pt(p)) => r.n.push(vec![c.dist(p)]),
        ("arclen", Arg::N(n)) => r.n.push(vec![c.arclen(*n)]),
        ("baseline", _) => r.n.extend(c.baseline()),
        ("domain", _) => { let d = c.domain(); r.n.push(vec![d.0, d.1]) }
        ("points", _) => { r.n.extend(c.cp()); for p in c.iters() { r.n.extend(p) } r.n.push(c.knots()) }
        ("ends", _) => r.n.extend(c.ends()),
        x => panic!("no pair of {}", x.0),
    }));
    if res.is_err() { r.f.push("panic".into()) }
    r
}
/// the curve to compare with
fn twin(c: &dyn Api, why: &str, dim: usize) -> Box<dyn Api> {
    match why {
        "fresh" => c.anew(c.pty()),
        "copy" => c.copy(),
        "inner" => crate::table::bezier(c.pty(), c.kind(), false, &c.cp()),
        "builtin" => c.anew(&format!("pn{dim}")),
        to => c.recast(to),
    }
}

/// the same operation on the curve of the selected axes only, over the built-in point of that dimension
fn axes_pair(c: &dyn Api, what: &str, a: &Arg, ax: &[usize]) -> (String, bool) {
    let sel = |p: &[f64]| -> P { ax.iter().map(|i| p[*i]).collect() };
    event("pair", vec![("why", q("axes")), ("what", q(what)), ("ax", arr(ax, |i| (i + 1).to_string())), ("p", a.point()), ("x", a.number())], |ev| {
        let cp: Vec<P> = c.cp().iter().map(|p| sel(p)).collect();
        let pty = format!("pn{}", ax.len());
        let d = if c.kind() == "spl" { crate::table::spline(&pty, &c.knots(), &cp, c.deg()).expect("a valid spline") }
            else { crate::table::bezier(&pty, c.kind(), c.seg(), &cp) };
        let b = if let Arg::Pt(p) = a { &Arg::Pt(sel(p)) } else { a };
        let w = if what == "deriv" { "slope" } else { what };
        ev.put("a", observe(c, w, a).json());
        ev.put("b", observe(&*d, w, b).json());
    })
}

pub fn cps<Q: Pt>(v: &[Q]) -> Vec<P> { v.iter().map(|p| p.get()).collect() }
pub fn line_ends<Q: Pt>(l: &LineSegment<Q>) -> Vec<P> {
    let s: BezierSegment<Q> = (*l).into();
    vec![s.start().get(), s.end().get()]
}
pub fn axes<T: Sc>(dim: usize, f: impl Fn(usize) -> T) -> P {
    let mut r = [0.0; 16];
    for i in 0..dim { r[i] = call(|| f(i)).get(); }
    r[..dim].to_vec()
}
pub fn sc<Q: Point>(x: f64) -> Q::Scalar { <Q::Scalar as From<f64>>::from(x) }
pub fn ok<Q: Pt>(m: &'static str, p: Q) -> (&'static str, Result<P, String>) { (m, Ok(p.get())) }

/// one more control point, same curve
fn elevate(p: &[P]) -> Vec<P> {
    let n = p.len();
    (0..=n).map(|i| if i == 0 { p[0].clone() } else if i == n { p[n - 1].clone() } else {
        (0..p[0].len()).map(|d| (p[i - 1][d] * i as f64 + p[i][d] * (n - i) as f64) / n as f64).collect()
    }).collect()
}
pub fn recast_bezier(pty: &str, cp: &[P], to: &str) -> Box<dyn Api> {
    let mut p = cp.to_vec();
    let want = match to { "line" => 2, "quad" => 3, "cubic" => 4, _ => p.len() };
    while p.len() < want { p = elevate(&p); }
    if to == "spl" {
        let d = p.len() - 1;
        let knots: Vec<f64> = (0..2 * d + 2).map(|i| if i <= d { 0.0 } else { 1.0 }).collect();
        return crate::table::spline(pty, &knots, &p, d).expect("a single clamped span");
    }
    crate::table::bezier(pty, to, false, &p)
}

/// A segment keeps its kind next to it so that the driver can tell variants apart.
pub struct Seg<Q: Point>(pub BezierSegment<Q>);
pub fn variant<Q: Point>(s: &BezierSegment<Q>) -> &'static str {
    match s { BezierSegment::Linear(_) => "line", BezierSegment::Quadratic(_) => "quad", BezierSegment::Cubic(_) => "cubic" }
}
pub fn seg_cp<Q: Pt>(s: &BezierSegment<Q>) -> Vec<P> {
    match s {
        BezierSegment::Linear(l) => line_ends(l),
        BezierSegment::Quadratic(c) => cps(&c.control_points()),
        BezierSegment::Cubic(c) => cps(&c.control_points()),
    }
}

/// boxes as [[min, max], ..] of printable numbers
pub fn boxes<T: Sc>(v: &[(T, T)]) -> Vec<P> { v.iter().map(|(a, b)| vec![a.get(), b.get()]).collect() }

macro_rules! fixed_curves { ($pty:literal, $Q:ty) => {
    impl Api for LineSegment<$Q> {
        fn any(&self) -> &dyn std::any::Any { self }
        fn copy(&self) -> Box<dyn Api> { Box::new(call(|| self.clone())) }
        fn equal(&self, o: &dyn Api) -> (bool, bool, bool) {
            let o = o.any().downcast_ref::<Self>().expect("a curve of this type");
            (call(|| self == o), call(|| self != o), call(|| o == self))
        }
        fn kind(&self) -> &'static str { "line" }
        fn pty(&self) -> &'static str { $pty }
        fn cp(&self) -> Vec<P> { line_ends(self) }
        fn evals(&self, t: f64) -> Vals {
            let t = sc::<$Q>(t);
            vec![ok("eval", call(|| LineSegment::eval(self, t))),
                 ("axis", Ok(axes(<$Q>::DIM, |i| LineSegment::axis(self, t, i))))]
        }
        fn split(&self, t: f64) -> (Box<dyn Api>, Box<dyn Api>) { let (a, b) = call(|| LineSegment::split(self, sc::<$Q>(t))); (Box::new(a), Box::new(b)) }
        fn deriv(&self) -> Derived { Derived::Vector(call(|| self.derivative()).get()) }
        fn bbox(&self) -> Vec<P> { boxes(&call(|| self.bounding_box())) }
        fn dist(&self, p: &[f64]) -> f64 { let p = <$Q as Pt>::mk(p); call(|| self.distance_to_point(p)).get() }
        // a line has neither; a wrapped line is its own baseline and always linear
        fn baseline(&self) -> Vec<P> { self.cp() }
        fn linear(&self, _: f64) -> bool { true }
        fn recast(&self, to: &str) -> Box<dyn Api> { recast_bezier($pty, &self.cp(), to) }
    }
    impl Api for QuadraticBezier<$Q> {
        fn any(&self) -> &dyn std::any::Any { self }
        fn copy(&self) -> Box<dyn Api> { Box::new(call(|| self.clone())) }
        fn equal(&self, o: &dyn Api) -> (bool, bool, bool) {
            let o = o.any().downcast_ref::<Self>().expect("a curve of this type");
            (call(|| self == o), call(|| self != o), call(|| o == self))
        }
        fn kind(&self) -> &'static str { "quad" }
        fn pty(&self) -> &'static str { $pty }
        fn cp(&self) -> Vec<P> { cps(&call(|| self.control_points())) }
        fn evals(&self, t: f64) -> Vals {
            let t = sc::<$Q>(t);
            vec![ok("eval", call(|| QuadraticBezier::eval(self, t))), ok("eval_casteljau", call(|| self.eval_casteljau(t))),
                 ("axis", Ok(axes(<$Q>::DIM, |i| QuadraticBezier::axis(self, t, i))))]
        }
        fn split(&self, t: f64) -> (Box<dyn Api>, Box<dyn Api>) { let (a, b) = call(|| QuadraticBezier::split(self, sc::<$Q>(t))); (Box::new(a), Box::new(b)) }
        fn deriv(&self) -> Derived { Derived::Curve(Box::new(call(|| self.derivative()))) }
        fn dd(&self, t: f64) -> P { axes(<$Q>::DIM, |i| QuadraticBezier::dd(self, sc::<$Q>(t), i)) }
        fn bbox(&self) -> Vec<P> { boxes(&call(|| self.bounding_box())) }
        fn dist(&self, p: &[f64]) -> f64 { let p = <$Q as Pt>::mk(p); call(|| self.distance_to_point(p)).get() }
        fn arclen(&self, n: usize) -> f64 { call(|| QuadraticBezier::arclen(self, n)).get() }
        fn linear(&self, tol: f64) -> bool { call(|| self.is_linear(sc::<$Q>(tol))) }
        fn apoint(&self, tol: f64) -> bool { call(|| self.is_a_point(sc::<$Q>(tol))) }
        fn baseline(&self) -> Vec<P> { line_ends(&call(|| QuadraticBezier::baseline(self))) }
        fn recast(&self, to: &str) -> Box<dyn Api> { recast_bezier($pty, &self.cp(), to) }
    }
    impl Api for CubicBezier<$Q> {
        fn any(&self) -> &dyn std::any::Any { self }
        fn copy(&self) -> Box<dyn Api> { Box::new(call(|| self.clone())) }
        fn equal(&self, o: &dyn Api) -> (bool, bool, bool) {
            let o = o.any().downcast_ref::<Self>().expect("a curve of this type");
            (call(|| self == o), call(|| self != o), call(|| o == self))
        }
        fn kind(&self) -> &'static str { "cubic" }
        fn pty(&self) -> &'static str { $pty }
        fn cp(&self) -> Vec<P> { cps(&call(|| self.control_points())) }
        fn evals(&self, t: f64) -> Vals {
            let t = sc::<$Q>(t);
            vec![ok("eval", call(|| CubicBezier::eval(self, t))), ok("eval_casteljau", call(|| self.eval_casteljau(t))),
                 ("axis", Ok(axes(<$Q>::DIM, |i| CubicBezier::axis(self, t, i))))]
        }
        fn split(&self, t: f64) -> (Box<dyn Api>, Box<dyn Api>) { let (a, b) = call(|| CubicBezier::split(self, sc::<$Q>(t))); (Box::new(a), Box::new(b)) }
        fn deriv(&self) -> Derived { Derived::Curve(Box::new(call(|| self.derivative()))) }
        fn dd(&self, t: f64) -> P { axes(<$Q>::DIM, |i| CubicBezier::dd(self, sc::<$Q>(t), i)) }
        fn bbox(&self) -> Vec<P> { boxes(&call(|| self.bounding_box())) }
        fn dist(&self, p: &[f64]) -> f64 { let p = <$Q as Pt>::mk(p); call(|| self.distance_to_point(p)).get() }
        fn arclen(&self, n: usize) -> f64 { call(|| CubicBezier::arclen(self, n)).get() }
        fn linear(&self, tol: f64) -> bool { call(|| self.is_linear(sc::<$Q>(tol))) }
        fn apoint(&self, tol: f64) -> bool { call(|| self.is_a_point(sc::<$Q>(tol))) }
        fn baseline(&self) -> Vec<P> { line_ends(&call(|| CubicBezier::baseline(self))) }
        fn recast(&self, to: &str) -> Box<dyn Api> { recast_bezier($pty, &self.cp(), to) }
    }
    impl Api for Seg<$Q> {
        fn any(&self) -> &dyn std::any::Any { self }
        fn copy(&self) -> Box<dyn Api> { Box::new(Seg(call(|| self.0.clone()))) }
        fn equal(&self, o: &dyn Api) -> (bool, bool, bool) {
            let o = &o.any().downcast_ref::<Self>().expect("a segment").0;
            (call(|| self.0 == *o), call(|| self.0 != *o), call(|| *o == self.0))
        }
        fn kind(&self) -> &'static str { variant(&self.0) }
        fn pty(&self) -> &'static str { $pty }
        fn seg(&self) -> bool { true }
        fn cp(&self) -> Vec<P> { seg_cp(&self.0) }
        fn evals(&self, t: f64) -> Vals { vec![ok("segment eval", call(|| self.0.eval::<f64>(sc::<$Q>(t))))] }
        fn split(&self, t: f64) -> (Box<dyn Api>, Box<dyn Api>) { let (a, b) = call(|| self.0.split(sc::<$Q>(t))); (Box::new(Seg(a)), Box::new(Seg(b))) }
        fn linear(&self, tol: f64) -> bool { call(|| self.0.is_linear(sc::<$Q>(tol))) }
        fn baseline(&self) -> Vec<P> { line_ends(&call(|| self.0.baseline())) }
        fn ends(&self) -> Vec<P> { vec![call(|| self.0.start()).get(), call(|| self.0.end()).get()] }
        fn recast(&self, to: &str) -> Box<dyn Api> { recast_bezier($pty, &self.cp(), to) }
    }
} }

macro_rules! bezier_curve { ($pty:literal, $Q:ty, $n:literal, $deriv:tt) => {
    impl Api for Bezier<$Q, $n> {
        fn any(&self) -> &dyn std::any::Any { self }
        fn copy(&self) -> Box<dyn Api> { Box::new(call(|| self.clone())) }
        fn kind(&self) -> &'static str { "bez" }
        fn pty(&self) -> &'static str { $pty }
        fn cp(&self) -> Vec<P> { cps(&call(|| self.control_points())) }
        fn evals(&self, t: f64) -> Vals {
            let t = sc::<$Q>(t);
            vec![ok("eval", call(|| Bezier::eval(self, t))), ok("Spline::eval", call(|| Spline::eval(self, t)))]
        }
        fn split(&self, t: f64) -> (Box<dyn Api>, Box<dyn Api>) { let (a, b) = call(|| Bezier::split(self, sc::<$Q>(t))); (Box::new(a), Box::new(b)) }
        bezier_curve!(@deriv $deriv);
        fn dist(&self, p: &[f64]) -> f64 { let p = <$Q as Pt>::mk(p); call(|| self.distance_to_point(p)).get() }
        fn arclen(&self, n: usize) -> f64 { call(|| Bezier::arclen(self, n)).get() }
        fn iters(&self) -> Vec<Vec<P>> {
            let mut a = vec![]; for p in *self { a.push(p.get()); }
            let mut c = *self; let mut b = vec![]; for p in &mut c { b.push(p.get()); }
            let r: Vec<P> = self.into_iter().rev().map(|p| p.get()).collect();
            vec![a, b, r.into_iter().rev().collect()]
        }
        fn set(&mut self, i: usize, p: &[f64]) -> usize {
            let p = <$Q as Pt>::mk(p);
            let mut cnt = 0;
            for q in &mut *self { if cnt == i { *q = p; } cnt += 1; }
            cnt
        }
        fn recast(&self, to: &str) -> Box<dyn Api> { recast_bezier($pty, &self.cp(), to) }
    }
};
(@deriv y) => { fn deriv(&self) -> Derived { Derived::Curve(Box::new(call(|| self.derivative()))) } };
(@deriv n) => {};
}

macro_rules! spline_curve { ($pty:literal, $Q:ty, $k:literal, $c:literal, $d:literal, [$($dk:literal)?]) => {
    impl Api for BSpline<$Q, $k, $c, $d> {
        fn any(&self) -> &dyn std::any::Any { self }
        fn copy(&self) -> Box<dyn Api> { Box::new(call(|| self.clone())) }
        fn kind(&self) -> &'static str { "spl" }
        fn pty(&self) -> &'static str { $pty }
        fn cp(&self) -> Vec<P> { self.control_points().map(|p| p.get()).collect() }
        fn knots(&self) -> Vec<f64> { self.knots().map(|x| x.get()).collect() }
        fn deg(&self) -> usize { $d }
        fn evals(&self, t: f64) -> Vals {
            let t = <<$Q as Point>::Scalar as From<f64>>::from(t);
            vec![("eval", call(|| self.eval(t)).map(|p| p.get()).map_err(|e| errname(&e)))]
        }
        $( fn deriv(&self) -> Derived {
            let d = call(|| self.derivative());
            let kn: Vec<f64> = d.knots().map(|x| x.get()).collect();
            let cp: Vec<P> = d.control_points().map(|p| p.get()).collect();
            let dom = call(|| d.knot_domain());
            let own: Box<dyn Any> = Box::new(d.clone());
            let own = own.downcast::<BSpline<$Q, $dk, { $c - 1 }, { $d - 1 }>>().ok().map(|b| b as Box<dyn Api>);
            let eval = move |t: f64| {
                let t = <<$Q as Point>::Scalar as From<f64>>::from(t);
                call(|| d.eval(t)).map(|p| p.get()).map_err(|e| errname(&e))
            };
            Derived::Spline(DSpl { d: $d - 1, cp, kn, dom: (dom.0.get(), dom.1.get()), eval: Box::new(eval) }, own)
        } )?
        fn arclen(&self, n: usize) -> f64 { call(|| BSpline::arclen(self, n)).get() }
        fn domain(&self) -> (f64, f64) { let r = call(|| self.knot_domain()); (r.0.get(), r.1.get()) }
        fn iters(&self) -> Vec<Vec<P>> {
            let c = self.clone();
            vec![c.cp(), self.control_points().rev().map(|p| p.get()).collect::<Vec<_>>().into_iter().rev().collect()]
        }
    }
} }
pub(crate) use {bezier_curve, fixed_curves, spline_curve};

fn val(r: &Result<P, String>) -> (String, String) {
    match r { Ok(p) => (jp(p), q("")), Err(e) => ("[]".into(), q(e)) }
}

pub type Next = Result<Option<Box<dyn Api>>, ()>;
/// Runs operation `op` on `c`; the event, and the curve to go on with if it changes
/// (Err if the session cannot go on).
pub fn operation(op: &str, c: &mut Box<dyn Api>, t: &mut Toks, dim: usize) -> (String, Next) {
    let mut next = Ok(None);
    let simple = |(s, ok): (String, bool)| if ok { (s, Ok(None)) } else { (s, Err(())) };
    match op {
        "eval" | "evali" => {
            let x = t.f();
            simple(event(op, vec![("t", jn(x))], |ev| {
                let r = c.evals(x);
                ev.put("r", arr(&r, |(m, v)| { let (p, e) = val(v); format!("{{\"m\":{},\"p\":{},\"err\":{}}}", q(m), p, e) }));
            }))
        }
        "split" => {
            let x = t.f();
            let keep = t.str();
            let k = t.n();
            let s = t.fs(k);
            let mut halves = None;
            let (txt, ok) = event(op, vec![("t", jn(x)), ("keep", q(keep)), ("s", jp(&s))], |ev| {
                let (l, r) = c.split(x);
                ev.put("l", jpp(&l.cp())); ev.put("rt", jpp(&r.cp()));
                ev.put("lk", q(l.kind())); ev.put("rk", q(r.kind()));
                let at = |c: &dyn Api| s.iter().map(|x| c.value(*x).expect("a value")).collect::<Vec<P>>();
                ev.put("ls", jpp(&at(&*l))); ev.put("rs", jpp(&at(&*r)));
                halves = Some((l, r));
            });
            if !ok { return (txt, Err(())); }
            if let Some((l, r)) = halves { match keep { "l" => next = Ok(Some(l)), "r" => next = Ok(Some(r)), _ => {} } }
            (txt, next)
        }
        "deriv" => {
            let keep = t.str();
            let k = t.n();
            let ts = t.fs(k);
            let mut own = None;
            let (txt, ok) = event(op, vec![("keep", q(keep))], |ev| {
                let vals = |f: &dyn Fn(f64) -> Result<P, String>| arr(&ts, |x| { let (p, e) = val(&f(*x)); format!("{{\"t\":{},\"p\":{},\"err\":{}}}", jn(*x), p, e) });
                match c.deriv() {
                    Derived::Vector(v) => {
                        ev.put("k", q("vec")); ev.put("d", "0".into());
                        ev.put("cp", jpp(&[v.clone()])); ev.put("kn", "[]".into()); ev.put("dom", "[]".into());
                        ev.put("v", vals(&|_| Ok(v.clone())));
                    }
                    Derived::Curve(d) => {
                        ev.put("k", q(d.kind())); ev.put("d", (d.cp().len() - 1).to_string());
                        ev.put("cp", jpp(&d.cp())); ev.put("kn", "[]".into()); ev.put("dom", "[]".into());
                        ev.put("v", vals(&|x| d.value(x)));
                        own = Some(d);
                    }
                    Derived::Spline(d, o) => {
                        ev.put("k", q("spl")); ev.put("d", d.d.to_string());
                        ev.put("cp", jpp(&d.cp)); ev.put("kn", jp(&d.kn)); ev.put("dom", jp(&[d.dom.0, d.dom.1]));
                        ev.put("v", vals(&|x| (d.eval)(x)));
                        own = o;
                    }
                }
            });
            if !ok { return (txt, Err(())); }
            if keep == "y" { return match own { Some(o) => (txt, Ok(Some(o))), None => (txt, Err(())) }; }
            (txt, next)
        }
        "dd" => { let x = t.f(); simple(event(op, vec![("t", jn(x))], |ev| ev.put("r", jp(&c.dd(x))))) }
        "bbox" => simple(event(op, vec![], |ev| ev.put("r", jpp(&c.bbox())))),
        "dist" => { let p = t.fs(dim); simple(event(op, vec![("p", jp(&p))], |ev| ev.put("r", jn(c.dist(&p))))) }
        "arclen" => { let n = t.n(); simple(event(op, vec![("n", n.to_string())], |ev| ev.put("r", jn(c.arclen(n))))) }
        "linear" | "apoint" => {
            let tol = t.f();
            let exact = t.str();
            simple(event(op, vec![("tol", jn(tol)), ("exact", q(exact))], |ev| {
                let b = if op == "linear" { c.linear(tol) } else { c.apoint(tol) };
                ev.put("b", yn(b));
            }))
        }
        "baseline" => simple(event(op, vec![], |ev| ev.put("r", jpp(&c.baseline())))),
        "domain" => simple(event(op, vec![], |ev| { let r = c.domain(); ev.put("r", jp(&[r.0, r.1])) })),
        "points" => simple(event(op, vec![], |ev| {
            ev.put("acc", jpp(&c.cp())); ev.put("it", arr(&c.iters(), |p| jpp(p))); ev.put("kn", jp(&c.knots()));
        })),
        "ends" => simple(event(op, vec![], |ev| ev.put("r", jpp(&c.ends())))),
        "set" => {
            let i = t.n();
            let p = t.fs(dim);
            simple(event(op, vec![("i", i.to_string()), ("p", jp(&p))], |ev| {
                let cnt = c.set(i - 1, &p);
                ev.put("cp", jpp(&c.cp())); ev.put("cnt", cnt.to_string());
            }))
        }
        "eq" => {
            let kind = t.str();
            let n = t.n();
            let pts = t.pts(n, dim);
            simple(event(op, vec![("kind", q(kind)), ("pts", jpp(&pts))], |ev| {
                let o = crate::table::bezier(c.pty(), kind, c.seg(), &pts);
                let (e, ne, rev) = c.equal(&*o);
                let own = c.equal(&**c);
                ev.put("e", yn(e)); ev.put("ne", yn(ne)); ev.put("rev", yn(rev)); ev.put("own", yn(own.0 && own.2 && !own.1));
            }))
        }
        // a copy, and what a write through the copy, or through the original, leaves of the other
        "copy" => {
            let i = t.n();
            let p = if i > 0 { t.fs(dim) } else { vec![] };
            simple(event(op, vec![("i", i.to_string()), ("p", jp(&p))], |ev| {
                let mut d = c.copy();
                ev.put("k", q(d.kind())); ev.put("cp", jpp(&d.cp())); ev.put("kn", jp(&d.knots()));
                if i > 0 { d.set(i - 1, &p); }
                ev.put("orig", jpp(&c.cp()));
                let mut e = c.copy();
                let f = e.copy();
                if i > 0 { e.set(i - 1, &p); }
                ev.put("kept", jpp(&f.cp()));
                if i > 0 { ev.put("w1", jpp(&d.cp())); ev.put("w2", jpp(&e.cp())); }
            }))
        }
        "pair" => {
            let why = t.str();
            let ax: Vec<usize> = if why == "axes" { let k = t.n(); (0..k).map(|_| t.n() - 1).collect() } else { vec![] };
            let what = t.str();
            let a = parse(what, t, dim);
            if why == "axes" { return simple(axes_pair(&**c, what, &a, &ax)); }
            let w = if what == "eval" && !matches!(why, "builtin" | "fresh" | "copy") { "eval1" } else if what == "deriv" && !matches!(why, "builtin" | "fresh" | "copy") { "slope" } else { what };
            simple(event(op, vec![("why", q(why)), ("what", q(what)), ("p", a.point()), ("x", a.number())], |ev| {
                let d = twin(&**c, why, dim);
                ev.put("a", observe(&**c, w, &a).json());
                ev.put("b", observe(&*d, w, &a).json());
            }))
        }
        "recast" => {
            let to = t.str();
            let mut own = None;
            let (txt, ok) = event(op, vec![("to", q(to))], |ev| {
                let d = c.recast(to);
                ev.put("cp", jpp(&d.cp())); ev.put("kn", jp(&d.knots()));
                own = Some(d);
            });
            if !ok { return (txt, Err(())); }
            (txt, Ok(own))
        }
        _ => panic!("unknown operation {op}"),
    }
}
