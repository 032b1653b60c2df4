//! The concrete types of the library that sessions can use.
use crate::curves::*;
use crate::rec::*;
use crate::scalar::*;
use crate::{event, Toks};
use std::any::Any;
use stroke::bezier_segment::BezierSegment;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};

trait Family {
    fn bez(kind: &str, seg: bool, p: &[P]) -> Box<dyn Api>;
    fn spl(knots: &[f64], p: &[P], d: usize) -> Result<Box<dyn Api>, String>;
}

macro_rules! family {
    ($pty:literal, $Q:ty; bez [$($n:literal $dv:tt)*]; spl [$(($k:literal $c:literal $d:literal [$($dk:literal)?]))*]) => {
        const _: () = {
            fixed_curves!($pty, $Q);
            $( bezier_curve!($pty, $Q, $n, $dv); )*
            $( spline_curve!($pty, $Q, $k, $c, $d, [$($dk)?]); )*
            impl Family for $Q {
                fn bez(kind: &str, seg: bool, p: &[P]) -> Box<dyn Api> {
                    let g = |i: usize| <$Q as Pt>::mk(&p[i]);
                    match (kind, seg) {
                        ("line", false) => Box::new(call(|| LineSegment::new(g(0), g(1)))),
                        ("quad", false) => Box::new(call(|| QuadraticBezier::new(g(0), g(1), g(2)))),
                        ("cubic", false) => Box::new(call(|| CubicBezier::new(g(0), g(1), g(2), g(3)))),
                        ("line", true) => Box::new(Seg(call(|| BezierSegment::from(LineSegment::new(g(0), g(1)))))),
                        ("quad", true) => Box::new(Seg(call(|| BezierSegment::from(QuadraticBezier::new(g(0), g(1), g(2)))))),
                        ("cubic", true) => Box::new(Seg(call(|| BezierSegment::from(CubicBezier::new(g(0), g(1), g(2), g(3)))))),
                        _ => match p.len() {
                            $( $n => { let a: [$Q; $n] = core::array::from_fn(g); Box::new(call(|| Bezier::<$Q, $n>::new(a))) } )*
                            n => panic!("no Bezier of {n} points"),
                        },
                    }
                }
                fn spl(knots: &[f64], p: &[P], d: usize) -> Result<Box<dyn Api>, String> {
                    match (knots.len(), p.len(), d) {
                        $( ($k, $c, $d) => {
                            let kn: [<$Q as Point>::Scalar; $k] = core::array::from_fn(|i| Sc::mk(knots[i]));
                            let cp: [$Q; $c] = core::array::from_fn(|i| <$Q as Pt>::mk(&p[i]));
                            match call(|| BSpline::<$Q, $k, $c, $d>::new(kn, cp)) { Ok(s) => Ok(Box::new(s)), Err(e) => Err(errname(&e)) }
                        } )*
                        x => panic!("no spline of shape {x:?}"),
                    }
                }
            }
        };
    };
}
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/families.rs"));

macro_rules! by_type { ($pty:expr, $Q:ident => $e:expr) => { match $pty {
    "pn1" => { type $Q = PointN<f64, 1>; $e } "pn2" => { type $Q = PointN<f64, 2>; $e } "pn3" => { type $Q = PointN<f64, 3>; $e }
    "pn4" => { type $Q = PointN<f64, 4>; $e } "pn8" => { type $Q = PointN<f64, 8>; $e } "pn12" => { type $Q = PointN<f64, 12>; $e } "pn6" => { type $Q = PointN<f64, 6>; $e } "u6" => { type $Q = U6; $e } "pn5" => { type $Q = PointN<f64, 5>; $e } "ps2" => { type $Q = PointN<S, 2>; $e }
    "u2" => { type $Q = U2; $e } "u3" => { type $Q = U3; $e } "v2" => { type $Q = V2; $e } "a3" => { type $Q = A3; $e }
    _ => panic!("point type"),
} } }
pub fn dim(pty: &str) -> usize { by_type!(pty, Q => <Q as Point>::DIM) }
pub fn bezier(pty: &str, kind: &str, seg: bool, p: &[P]) -> Box<dyn Api> { by_type!(pty, Q => <Q as Family>::bez(kind, seg, p)) }
pub fn spline(pty: &str, knots: &[f64], p: &[P], d: usize) -> Result<Box<dyn Api>, String> { by_type!(pty, Q => <Q as Family>::spl(knots, p, d)) }

/// Constructor-only sessions: splines of any shape, valid or not.
fn ctor<const K: usize, const C: usize, const D: usize>(t: &mut Toks) -> Vec<String> {
    let knots = t.fs(K);
    let pts = t.pts(C, 1);
    let kn: [f64; K] = core::array::from_fn(|i| knots[i]);
    let cp: [PointN<f64, 1>; C] = core::array::from_fn(|i| PointN::new([pts[i][0]]));
    let (txt, _) = event("new", vec![("kind", q("spl")), ("d", D.to_string()), ("pts", jpp(&pts)), ("knots", jp(&knots))], |ev| {
        match call(|| BSpline::<PointN<f64, 1>, K, C, D>::new(kn, cp)) {
            Ok(s) => {
                ev.put("err", q(""));
                ev.put("cp", jpp(&s.control_points().map(|p| p.get()).collect::<Vec<_>>()));
                ev.put("kn", jp(&s.knots().copied().collect::<Vec<f64>>()));
            }
            Err(e) => ev.put("err", q(&errname(&e))),
        }
    });
    vec![txt]
}
macro_rules! pick3 { ($t:expr, $k:expr, $c:expr, $d:expr; $($K:literal)*) => { match $k { $( $K => pick3!(@c $t, $c, $d, $K; 0 1 2 3 4 5), )* _ => panic!("shape") } };
    (@c $t:expr, $c:expr, $d:expr, $K:literal; $($C:literal)*) => { match $c { $( $C => pick3!(@d $t, $d, $K, $C; 0 1 2 3 4), )* _ => panic!("shape") } };
    (@d $t:expr, $d:expr, $K:literal, $C:literal; $($D:literal)*) => { match $d { $( $D => ctor::<$K, $C, $D>($t), )* _ => panic!("shape") } };
}
pub fn constructors(t: &mut Toks) -> Vec<String> {
    let (k, c, d) = (t.n(), t.n(), t.n());
    pick3!(t, k, c, d; 0 1 2 3 4 5 6 7 8 9 10 11)
}
