//! Interprets session programs: every line of the program file is a session, a list of
//! operations on one curve of the library.  Writes one JSON line per session with the exact
//! arguments and results of every call.  Decides nothing: the specification does.
mod curves;
mod points;
mod rec;
mod scalar;
mod table;

use rec::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

/// tokens of a session
pub struct Toks<'a>(std::str::SplitAsciiWhitespace<'a>);
impl<'a> Toks<'a> {
    pub fn word(&mut self) -> Option<&'a str> { self.0.next() }
    pub fn str(&mut self) -> &'a str { self.0.next().expect("token") }
    pub fn n(&mut self) -> usize { self.str().parse().expect("count") }
    pub fn i(&mut self) -> i64 { self.str().parse().expect("integer") }
    pub fn f(&mut self) -> f64 { f64::from_bits(u64::from_str_radix(self.str(), 16).expect("float bits")) }
    pub fn fs(&mut self, n: usize) -> Vec<f64> { (0..n).map(|_| self.f()).collect() }
    pub fn pts(&mut self, n: usize, dim: usize) -> Vec<Vec<f64>> { (0..n).map(|_| self.fs(dim)).collect() }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
    format!("panic: {}", m.chars().take(120).collect::<String>())
}

/// Runs one operation; its event gets the status and the allocation count.
pub fn event(op: &str, fixed: Vec<(&str, String)>, f: impl FnOnce(&mut Ev)) -> (String, bool) {
    let mut ev = Ev::default();
    reset();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ev)));
    let (st, ok) = match r { Ok(()) => ("ok".to_string(), true), Err(p) => (panic_text(p), false) };
    let mut s = format!("{{\"op\":{},\"st\":{},\"al\":{}", q(op), q(&st), count());
    for (k, v) in fixed { s += &format!(",{}:{}", q(k), v); }
    if ok { for (k, v) in ev.0 { s += &format!(",{}:{}", q(&k), v); } }
    s.push('}');
    (s, ok)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prog = std::fs::read_to_string(&a[1]).expect("program file");
    let skip: usize = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).expect("trace file"));
    std::panic::set_hook(Box::new(|_| {}));
    let hang_ms: u64 = std::env::var("DRIVER_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20000);
    std::thread::spawn(move || {
        let start = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let now = start.elapsed().as_millis() as u64 + 1;
            NOW.store(now, Ordering::Relaxed);
            let s = CALL_SINCE.load(Ordering::Relaxed);
            if s != 0 && now > s + hang_ms { unsafe { _exit(97) } }
        }
    });
    for line in prog.lines().skip(skip) {
        let mut t = Toks(line.split_ascii_whitespace());
        let sid = t.str().to_string();
        let evs = session(&mut t);
        writeln!(out, "{{\"sid\":{},\"ev\":[{}]}}", q(&sid), evs.join(",")).unwrap();
        out.flush().unwrap();
    }
}
extern "C" { fn _exit(c: i32) -> !; }

fn session(t: &mut Toks) -> Vec<String> {
    scalar::fresh();
    let pty = t.str();
    if pty == "pt" { return points::session(t); }
    if pty == "ctor" { return table::constructors(t); }
    let dim = table::dim(pty);
    let mut cur: Option<Box<dyn curves::Api>> = None;
    let mut evs = vec![];
    while let Some(op) = t.word() {
        if op == "new" {
            let kind = t.str();
            let seg = kind.starts_with("seg");
            let base = kind.trim_start_matches("seg");
            let (txt, c) = if base == "spl" {
                let (k, c, d) = (t.n(), t.n(), t.n());
                let knots = t.fs(k);
                let pts = t.pts(c, dim);
                let mut made = None;
                let (txt, _) = event("new", vec![("kind", q("spl")), ("d", d.to_string()), ("pts", jpp(&pts)), ("knots", jp(&knots))], |ev| {
                    match table::spline(pty, &knots, &pts, d) {
                        Ok(s) => { ev.put("err", q("")); ev.put("cp", jpp(&s.cp())); ev.put("kn", jp(&s.knots())); made = Some(s); }
                        Err(e) => ev.put("err", q(&e)),
                    }
                });
                (txt, made)
            } else {
                let n = t.n();
                let pts = t.pts(n, dim);
                let mut made = None;
                let (txt, _) = event("new", vec![("kind", q(base)), ("pts", jpp(&pts))], |ev| {
                    let c = table::bezier(pty, base, seg, &pts);
                    ev.put("cp", jpp(&c.cp()));
                    made = Some(c);
                });
                (txt, made)
            };
            evs.push(txt);
            match c { Some(c) => cur = Some(c), None => return evs }
            continue;
        }
        let c = cur.as_mut().expect("a curve");
        let (txt, next) = curves::operation(op, c, t, dim);
        let stop = next.is_err();
        evs.push(txt);
        if stop { return evs; }
        if let Ok(Some(n)) = next { cur = Some(n); }
    }
    evs
}
