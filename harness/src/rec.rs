//! Recording: numerals, events, one monitored library call.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; static COUNT: Cell<u64> = const { Cell::new(0) }; }
/// milliseconds since start at which the current library call began, 0 if none is running
pub static CALL_SINCE: AtomicU64 = AtomicU64::new(0);
pub static NOW: AtomicU64 = AtomicU64::new(1);

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { tick(); unsafe { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { tick(); unsafe { System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { tick(); unsafe { System.realloc(p, l, n) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: Counting = Counting;
fn tick() {
    let _ = ON.try_with(|on| if on.get() { let _ = COUNT.try_with(|c| c.set(c.get() + 1)); });
}

struct Guard;
impl Drop for Guard { fn drop(&mut self) { ON.with(|o| o.set(false)); CALL_SINCE.store(0, Ordering::Relaxed); } }
/// Runs one library call, counting its allocations.
#[inline(never)]
pub fn call<R>(f: impl FnOnce() -> R) -> R {
    CALL_SINCE.store(NOW.load(Ordering::Relaxed), Ordering::Relaxed);
    ON.with(|o| o.set(true));
    let _g = Guard;
    f()
}
pub fn reset() { COUNT.with(|c| c.set(0)); }
pub fn count() -> u64 { COUNT.with(|c| c.get()) }

/// The exact value of a float: "n" or "m:e" (m * 2^e), or "nan", "inf", "-inf".
pub fn num(x: f64) -> String {
    if x.is_nan() { return "nan".into(); }
    if x.is_infinite() { return if x > 0.0 { "inf".into() } else { "-inf".into() }; }
    if x == 0.0 { return if x.is_sign_negative() { "-0".into() } else { "0".into() }; }
    let b = x.to_bits();
    let ex = ((b >> 52) & 0x7ff) as i64;
    let fr = b & ((1 << 52) - 1);
    let (mut m, mut e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
    while m & 1 == 0 { m >>= 1; e += 1; }
    let s = if x < 0.0 { "-" } else { "" };
    if (0..=9).contains(&e) { format!("{s}{}", (m as u128) << e) } else { format!("{s}{m}:{e}") }
}
/// the text of a value, formatted into a fixed buffer inside the monitored call
struct Sink { buf: [u8; 256], n: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() { if self.n < 256 { self.buf[self.n] = b; self.n += 1; } }
        Ok(())
    }
}
fn text(a: core::fmt::Arguments) -> String {
    let mut s = Sink { buf: [0; 256], n: 0 };
    call(|| core::fmt::write(&mut s, a)).expect("format");
    String::from_utf8_lossy(&s.buf[..s.n]).into_owned()
}
/// the name of an error; both of its texts are formatted
pub fn errname<E: core::fmt::Display + core::fmt::Debug>(e: &E) -> String {
    let d = text(format_args!("{e}"));
    if d.is_empty() { return "an error without text".into(); }
    text(format_args!("{e:?}"))
}
pub fn q(s: &str) -> String {
    let mut r = String::from("\"");
    for ch in s.chars() { match ch { '"' | '\\' => { r.push('\\'); r.push(ch) } c if (c as u32) < 32 || (c as u32) > 126 => r.push(' '), c => r.push(c) } }
    r.push('"'); r
}
pub fn arr<T>(v: &[T], f: impl Fn(&T) -> String) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }
pub fn jn(x: f64) -> String { q(&num(x)) }
pub fn jp(p: &[f64]) -> String { arr(p, |x| jn(*x)) }
pub fn jpp(p: &[Vec<f64>]) -> String { arr(p, |x| jp(x)) }
pub fn yn(b: bool) -> String { q(if b { "y" } else { "n" }) }

/// The result fields of an event.
#[derive(Default)]
pub struct Ev(pub Vec<(String, String)>);
impl Ev {
    pub fn put(&mut self, k: &str, v: String) { self.0.push((k.into(), v)); }
}
