//! Point algebra: PointN over several element types and dimensions, and user-defined points.
use crate::rec::*;
use crate::scalar::*;
use crate::{event, Toks};
use stroke::{Point, PointN};

/// element types of PointN
trait El: Copy + Default + PartialOrd { fn rd(t: &mut Toks) -> Self; fn s(&self) -> String; }
impl El for f64 { fn rd(t: &mut Toks) -> f64 { t.f() } fn s(&self) -> String { num(*self) } }
impl El for f32 { fn rd(t: &mut Toks) -> f32 { t.f() as f32 } fn s(&self) -> String { num(*self as f64) } }
impl El for S { fn rd(t: &mut Toks) -> S { S(t.f(), 0) } fn s(&self) -> String { num(self.0) } }
impl El for i64 { fn rd(t: &mut Toks) -> i64 { t.i() } fn s(&self) -> String { self.to_string() } }
impl El for i32 { fn rd(t: &mut Toks) -> i32 { t.i() as i32 } fn s(&self) -> String { self.to_string() } }
impl El for u8 { fn rd(t: &mut Toks) -> u8 { t.i() as u8 } fn s(&self) -> String { self.to_string() } }

/// the scalar as the native float, for points that also multiply with it
trait Num { fn num(self) -> f64; }
impl Num for f64 { fn num(self) -> f64 { self } }
impl Num for S { fn num(self) -> f64 { self.0 } }

fn js<T: El, const N: usize>(v: [T; N]) -> String { arr(&v, |x| q(&x.s())) }
fn all<T: El, const N: usize>(p: PointN<T, N>) -> String { arr(&p.into_iter().collect::<Vec<_>>(), |x| q(&x.s())) }

macro_rules! algebra {
    ($t:expr, $ty:ty, $n:literal, $point:tt) => {{
        let t: &mut Toks = $t;
        let mut rd = || -> [$ty; $n] { core::array::from_fn(|_| <$ty as El>::rd(t)) };
        let (a, b) = (rd(), rd());
        let s = <$ty as El>::rd(t);
        let w: [$ty; $n] = core::array::from_fn(|_| <$ty as El>::rd(t));
        let mut evs = vec![];
        let base = || vec![("a", js(a)), ("b", js(b)), ("s", q(&s.s())), ("w", js(w))];
        evs.push(event("pt", base(), |ev| {
            let (p, o) = (PointN::<$ty, $n>::new(a), PointN::<$ty, $n>::new(b));
            ev.put("it", all(call(|| p)));
            ev.put("add", all(call(|| p + o)));
            ev.put("sub", all(call(|| p - o)));
            ev.put("adds", all(call(|| p + s)));
            ev.put("subs", all(call(|| p - s)));
            ev.put("mul", all(call(|| p * s)));
            ev.put("eq", yn(call(|| p == o)));
            ev.put("ne", yn(call(|| p != o)));
            ev.put("self", yn(call(|| p == p)));
            ev.put("def", all(call(|| PointN::<$ty, $n>::default())));
            let mut m = p;
            let mut cnt = 0;
            for x in &mut m { *x = w[cnt]; cnt += 1; }
            ev.put("cnt", cnt.to_string());
            ev.put("wr", all(m));
            algebra!(@point $point, ev, p, $n, <$ty as Num>::num(s));
        }).0);
        algebra!(@oob $point, evs, a, $ty, $n);
        evs
    }};
    (@point y, $ev:ident, $p:ident, $n:literal, $s:expr) => {
        let v: Vec<f64> = (0..$n).map(|i| call(|| $p.axis(i))).map(|x| x.get()).collect();
        $ev.put("ax", jp(&v));
        $ev.put("muln", all(call(|| $p * $s)));
        $ev.put("sq", jn(call(|| $p.squared_length()).get()));
        $ev.put("dim", jn(pdim(&$p) as f64));
    };
    (@point n, $ev:ident, $p:ident, $n:literal, $s:expr) => { $ev.put("muln", "[]".into()); $ev.put("sq", q("-")); };
    (@oob y, $evs:ident, $a:ident, $ty:ty, $n:literal) => {
        for i in [$n, $n + 1, $n + 7, usize::MAX, 256, 1 << 16, 1 << 32, (1 << 32) + 1] {
            let (txt, _) = event("oob", vec![("i", q(&i.to_string()))], |ev| {
                let p = PointN::<$ty, $n>::new($a);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(|| p.axis(i))));
                ev.put("p", yn(r.is_err()));
            });
            $evs.push(txt);
        }
    };
    (@oob n, $evs:ident, $a:ident, $ty:ty, $n:literal) => {};
}
fn pdim<P: Point>(_: &P) -> usize { P::DIM }

pub fn session(t: &mut Toks) -> Vec<String> {
    let ty = t.str();
    let n = t.n();
    macro_rules! dims { ($ty:ty, $pt:tt: $($n:literal)*) => { match n { $( $n => algebra!(t, $ty, $n, $pt), )* _ => panic!("dimension") } } }
    match ty {
        "f64" => dims!(f64, y: 0 1 2 3 4 5 6 7 8 9 12 16 17 20 24 32 33 48 64 65 100),
        "f32" => dims!(f32, n: 0 1 2 3 4 5 6 8 16 33),
        "S" => dims!(S, y: 1 2 3 4 7 12 24 40),
        "i64" => dims!(i64, n: 0 1 2 3 4 5 8 11 32 40),
        "i32" => dims!(i32, n: 1 2 3 4 5 8),
        "u8" => dims!(u8, n: 1 2 3 4),
        _ => panic!("element type"),
    }
}
