//! Scalars and points a user of the library could define: a newtype scalar, and
//! points with their own storage.
use core::iter::Sum;
use core::ops::*;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use stroke::Point;

/// A scalar that is not the native float type.
#[derive(Copy, Clone, Debug, Default, PartialEq, PartialOrd)]
pub struct S(pub f64, pub u32);
fn s(x: f64) -> S { S(x, 0) }

macro_rules! bin { ($($tr:ident $f:ident $op:tt),*) => { $(
    impl $tr<S> for S { type Output = S; fn $f(self, o: S) -> S { s(self.0 $op o.0) } }
    impl $tr<f64> for S { type Output = S; fn $f(self, o: f64) -> S { s(self.0 $op o) } }
)* } }
bin!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Neg for S { type Output = S; fn neg(self) -> S { s(-self.0) } }
impl From<f64> for S { fn from(x: f64) -> S { s(x) } }
impl From<S> for f64 { fn from(x: S) -> f64 { x.0 } }
impl Sum<f64> for S { fn sum<I: Iterator<Item = f64>>(i: I) -> S { s(i.sum()) } }
impl Sum<S> for S { fn sum<I: Iterator<Item = S>>(i: I) -> S { s(i.map(|x| x.0).sum()) } }
impl Zero for S { fn zero() -> S { s(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for S { fn one() -> S { s(1.0) } }
impl Num for S {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(x: &str, r: u32) -> Result<S, Self::FromStrRadixErr> { f64::from_str_radix(x, r).map(s) }
}
impl ToPrimitive for S {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
}
impl NumCast for S { fn from<T: ToPrimitive>(n: T) -> Option<S> { n.to_f64().map(s) } }

macro_rules! flt {
    (con $($c:ident)*; un $($u:ident)*; bo $($b:ident)*; bi $($i:ident)*) => {
        impl Float for S {
            $( fn $c() -> S { s(<f64 as Float>::$c()) } )*
            $( fn $u(self) -> S { s(Float::$u(self.0)) } )*
            $( fn $b(self) -> bool { Float::$b(self.0) } )*
            $( fn $i(self, o: S) -> S { s(Float::$i(self.0, o.0)) } )*
            fn classify(self) -> core::num::FpCategory { Float::classify(self.0) }
            fn mul_add(self, a: S, b: S) -> S { s(Float::mul_add(self.0, a.0, b.0)) }
            fn powi(self, n: i32) -> S { s(Float::powi(self.0, n)) }
            fn sin_cos(self) -> (S, S) { let (a, b) = Float::sin_cos(self.0); (s(a), s(b)) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
        }
    }
}
flt!(con nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon;
     un floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt
        sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
     bo is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative;
     bi powf log max min abs_sub hypot atan2);

/// Scalars the driver can print and read.
pub trait Sc { fn mk(x: f64) -> Self; fn get(&self) -> f64; }
impl Sc for f64 { fn mk(x: f64) -> f64 { x } fn get(&self) -> f64 { *self } }
impl Sc for S { fn mk(x: f64) -> S { s(x) } fn get(&self) -> f64 { self.0 } }

/// Points the driver can print and read without the Point trait.
pub trait Pt: Point { fn mk(c: &[f64]) -> Self; fn get(&self) -> Vec<f64>; }

impl<const N: usize> Pt for stroke::PointN<f64, N> {
    fn mk(c: &[f64]) -> Self { stroke::PointN::new(core::array::from_fn(|i| c[i])) }
    fn get(&self) -> Vec<f64> { IntoIterator::into_iter(*self).collect() }
}
impl<const N: usize> Pt for stroke::PointN<S, N> {
    fn mk(c: &[f64]) -> Self { stroke::PointN::new(core::array::from_fn(|i| s(c[i]))) }
    fn get(&self) -> Vec<f64> { IntoIterator::into_iter(*self).map(|x| x.0).collect() }
}

macro_rules! userpoint {
    ($name:ident, $tag:ty, $sc:ty, $dim:literal, $item:ty, [$($f:ident $i:literal),*], |$s:ident| $it:expr, |$p:ident| $arr:expr) => {
        #[derive(Copy, Clone, Debug, Default, PartialEq)]
        pub struct $name { tag: $tag, $($f: $sc),* }
        impl Add for $name { type Output = Self; fn add(self, o: Self) -> Self { $name { tag: Default::default(), $($f: self.$f + o.$f),* } } }
        impl Sub for $name { type Output = Self; fn sub(self, o: Self) -> Self { $name { tag: Default::default(), $($f: self.$f - o.$f),* } } }
        impl Mul<f64> for $name { type Output = Self; fn mul(self, k: f64) -> Self { $name { tag: Default::default(), $($f: self.$f * k),* } } }
        impl IntoIterator for $name {
            type Item = $item;
            type IntoIter = core::array::IntoIter<$item, $dim>;
            fn into_iter(self) -> Self::IntoIter { let $s = self; IntoIterator::into_iter($it) }
        }
        impl Point for $name {
            type Scalar = $sc;
            const DIM: usize = $dim;
            fn axis(&self, i: usize) -> $sc { let $p = self; $arr[i] }
            fn squared_length(&self) -> $sc { let mut r = <$sc as Sc>::mk(0.0); $( r = r + self.$f * self.$f; )* r }
        }
        impl Pt for $name {
            fn mk(c: &[f64]) -> Self { $name { tag: Default::default(), $($f: <$sc as Sc>::mk(c[$i])),* } }
            fn get(&self) -> Vec<f64> { let $p = self; $arr.iter().map(Sc::get).collect() }
        }
    };
}
// 2-D, own storage in reverse order of the axes, and a field that is no coordinate
userpoint!(U2, u8, f64, 2, f64, [y 1, x 0], |s| [s.x, s.y], |p| [p.x, p.y]);
// 3-D, iterates over named coordinates, with a large field that is no coordinate
userpoint!(U3, [u64; 2], f64, 3, (char, f64), [x 0, y 1, z 2], |s| [('x', s.x), ('y', s.y), ('z', s.z)], |p| [p.x, p.y, p.z]);
// 2-D over a foreign scalar
userpoint!(V2, (), S, 2, S, [x 0, y 1], |s| [s.x, s.y], |p| [p.x, p.y]);
impl Mul<S> for V2 { type Output = V2; fn mul(self, k: S) -> V2 { V2 { tag: (), x: self.x * k, y: self.y * k } } }
// 6-D
userpoint!(U6, (), f64, 6, f64, [a 0, b 1, c 2, d 3, e 4, f 5], |s| [s.a, s.b, s.c, s.d, s.e, s.f], |p| [p.a, p.b, p.c, p.d, p.e, p.f]);

// 3-D, a handle to coordinates kept elsewhere: smaller than its coordinates
thread_local! { static ARENA: core::cell::RefCell<Vec<[f64; 3]>> = core::cell::RefCell::new(vec![[0.0; 3]]); }
#[derive(Copy, Clone, Debug, Default)]
pub struct A3(u32);
/// forgets all points (before a session)
pub fn fresh() { ARENA.with(|a| a.borrow_mut().truncate(1)) }
impl A3 {
    fn at(self) -> [f64; 3] { ARENA.with(|a| a.borrow()[self.0 as usize]) }
    fn of(c: [f64; 3]) -> A3 { ARENA.with(|a| { let mut a = a.borrow_mut(); a.push(c); A3(a.len() as u32 - 1) }) }
    fn with(self, o: A3, f: impl Fn(f64, f64) -> f64) -> A3 { let (a, b) = (self.at(), o.at()); A3::of(core::array::from_fn(|i| f(a[i], b[i]))) }
}
impl PartialEq for A3 { fn eq(&self, o: &A3) -> bool { self.at() == o.at() } }
impl Add for A3 { type Output = A3; fn add(self, o: A3) -> A3 { self.with(o, |x, y| x + y) } }
impl Sub for A3 { type Output = A3; fn sub(self, o: A3) -> A3 { self.with(o, |x, y| x - y) } }
impl Mul<f64> for A3 { type Output = A3; fn mul(self, k: f64) -> A3 { self.with(self, |x, _| x * k) } }
impl IntoIterator for A3 { type Item = f64; type IntoIter = core::array::IntoIter<f64, 3>; fn into_iter(self) -> Self::IntoIter { self.at().into_iter() } }
impl Point for A3 {
    type Scalar = f64;
    const DIM: usize = 3;
    fn axis(&self, i: usize) -> f64 { self.at()[i] }
    fn squared_length(&self) -> f64 { let c = self.at(); c[0] * c[0] + c[1] * c[1] + c[2] * c[2] }
}
impl Pt for A3 {
    fn mk(c: &[f64]) -> A3 { A3::of([c[0], c[1], c[2]]) }
    fn get(&self) -> Vec<f64> { self.at().to_vec() }
}
