//! Case runner shared by the bounded witness searches.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn f(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.unit() }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

pub struct T {
    pub rng: Rng,
    pub thorough: bool,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fail: Option<String>,
    pub known: Vec<String>,
    pub deadline: Instant,
}

pub static CURRENT: std::sync::Mutex<Option<(Instant, String)>> = std::sync::Mutex::new(None);
/// a case that does not return within the limit is reported and ends the process
pub fn watchdog(limit: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CURRENT.lock().unwrap();
        if let Some((t, d)) = &*c { if t.elapsed().as_secs() > limit { println!("CASES 1 DISTINCT 1\nFAIL {}: does not return within {limit} s", d.replace('\n', " ")); std::process::exit(1); } }
    });
}

fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }

pub fn msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}

impl T {
    pub fn new(seed: u64, thorough: bool, secs: u64) -> T {
        T { rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234567), thorough, cases: 0, distinct: HashSet::new(), samples: vec![], fail: None, known: vec![], deadline: Instant::now() + Duration::from_secs(secs) }
    }
    /// stop: a failure was found or time is up
    pub fn stop(&self) -> bool { self.fail.is_some() || Instant::now() > self.deadline }
    /// run one case; a panic inside counts as a failure
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if self.stop() { return; }
        self.cases += 1;
        let d = desc();
        self.distinct.insert(hash(&d));
        if self.samples.len() < 3 && (self.cases == 1 || self.cases % 97 == 0) { self.samples.push(d.clone()); }
        *CURRENT.lock().unwrap() = Some((Instant::now(), d.clone()));
        let out = catch_unwind(AssertUnwindSafe(f));
        *CURRENT.lock().unwrap() = None;
        match out {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.fail = Some(format!("{d}: {e}")),
            Err(e) => self.fail = Some(format!("{d}: unexpected panic: {}", msg(&*e))),
        }
    }
}

/// the closure must panic
pub fn panics<R>(f: impl FnOnce() -> R) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

pub fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
/// equal up to rounding
pub fn close(a: f64, b: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) { return true; }
    if !a.is_finite() || !b.is_finite() { return false; }
    (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs()))
}
pub fn req(c: bool, m: impl FnOnce() -> String) -> Result<(), String> { if c { Ok(()) } else { Err(m()) } }
