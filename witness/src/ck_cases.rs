//! Checkpointed reversal: order of calls, states, stored clones, reserved memory, forward steps.
use crate::util::*;
use advantage::drivers::reverse_sequence;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};

/// remembers the largest request
pub struct Big;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
/// bytes in use
thread_local! { pub static MINE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) }; }
fn mine(n: isize) { let _ = MINE.try_with(|c| c.set(c.get() + n)); }
pub static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for Big {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LARGEST.fetch_max(l.size(), Ordering::Relaxed); LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); mine(l.size() as isize); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); mine(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { LARGEST.fetch_max(n, Ordering::Relaxed); LIVE.fetch_add(n as isize - l.size() as isize, Ordering::Relaxed); mine(n as isize - l.size() as isize); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Big = Big;

/// a state that counts its live copies
struct St { v: u64, pad: [u64; 7], live: Rc<Cell<usize>> }
impl St { fn new(v: u64, live: Rc<Cell<usize>>) -> St { live.set(live.get() + 1); St { v, pad: [v; 7], live } } }
impl Clone for St { fn clone(&self) -> St { St::new(self.v, self.live.clone()) } }
impl Drop for St { fn drop(&mut self) { self.live.set(self.live.get() - 1); } }
impl std::fmt::Debug for St { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.v) } }

fn mix(v: u64) -> u64 { let z = (v ^ 0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9); z ^ (z >> 29) }
fn fold(v: u64, r: u64) -> u64 { mix(v.wrapping_mul(3) ^ r.rotate_left(7)) }

#[derive(Default)]
struct Run { result: u64, fwd: u64, first: bool, order: bool, states: bool, calls: usize, peak_rev: usize, peak_fwd: usize, largest: usize, left: usize }
fn run(n: usize, c: usize, full: bool) -> Run {
    let live = Rc::new(Cell::new(0));
    let mut want: Vec<u64> = vec![17];
    for i in 0..n { want.push(mix(want[i])); }
    let r = RefCell::new(Run { first: true, order: true, states: true, ..Run::default() });
    let x = St::new(17, live.clone());
    let _ = full;
    LARGEST.store(0, Ordering::Relaxed);
    let l2 = live.clone();
    let res = reverse_sequence(x, n, c,
        |mut s: St| { let mut r = r.borrow_mut(); r.fwd += 1; r.peak_fwd = r.peak_fwd.max(l2.get()); s.v = mix(s.v); s.pad[0] = s.v; s },
        |s: St, y: u64| { let mut r = r.borrow_mut(); if r.calls == 0 { r.first = false; } r.calls += 1; r.peak_rev = r.peak_rev.max(l2.get());
            if r.calls > n + 1 || s.v != want[n + 1 - r.calls] { r.states = false; } fold(s.v, y) },
        |s: St| { let mut r = r.borrow_mut(); if r.calls != 0 { r.order = false; } r.calls += 1; r.peak_rev = r.peak_rev.max(l2.get()); if s.v != want[n] { r.states = false; } mix(!s.v) });
    let mut o = r.into_inner();
    o.largest = LARGEST.load(Ordering::Relaxed);
    o.result = res; o.left = live.get();
    o
}
fn naive(n: usize) -> u64 { let mut w = vec![17]; for i in 0..n { w.push(mix(w[i])); } let mut y = mix(!w[n]); for i in (0..n).rev() { y = fold(w[i], y); } y }

/// least number of forward steps for r states, the first stored, with c further slots: by enumeration
fn table(rmax: usize, cmax: usize) -> Vec<Vec<u64>> {
    let inf = u64::MAX / 4;
    let mut t = vec![vec![inf; rmax + 1]; cmax + 1];
    for c in 0..=cmax { t[c][0] = 0; t[c][1] = 0; }
    for c in 1..=cmax { for r in 2..=rmax { let mut b = inf; for k in 1..r { b = b.min(k as u64 + t[c - 1][r - k] + t[c][k]); } t[c][r] = b; } }
    t
}
/// the same for long sequences: sum over j >= 1 of max(0, r - C(c + j - 1, c))
fn formula(r: u64, c: u64) -> u64 {
    let mut s = 0u64; let mut j = 1u64; let mut b: u128 = 1;
    while b < r as u128 { s += r - b as u64; b = b * (c + j) as u128 / j as u128; j += 1; }
    s
}

fn grid(t: &mut T, mut f: impl FnMut(&mut T, usize, usize)) {
    for n in 0..if t.thorough { 90 } else { 44 } { for c in 2..(n + 4).min(48) { if t.stop() { return; } f(t, n, c); } }
    for (n, c) in [(5, usize::MAX), (5, usize::MAX / 2), (0, usize::MAX), (1, 1 << 40), (1000, 1 << 50), (40, isize::MAX as usize)] { f(t, n, c); }
    for n in [100usize, 1000, 10_000, 100_000] { for c in [2usize, 3, 4, 7, 8, 20, 50, 99, 500, 5000, 50_000] {
        if formula(n as u64 + 1, c as u64 - 1) < 3_000_000 { f(t, n, c); }
    } }
    while !t.stop() {
        let n = match t.rng.below(4) { 0 => t.rng.range(0, 200), 1 => t.rng.range(0, 3000), 2 => t.rng.range(0, 30_000), _ => t.rng.range(0, 300) };
        let c = match t.rng.below(3) { 0 => t.rng.range(2, 12), 1 => t.rng.range(2, 200), _ => t.rng.range(2, n + 3) };
        if formula(n as u64 + 1, c as u64 - 1) < 2_000_000 { f(t, n, c); }
    }
}

pub fn c16(t: &mut T) {
    for c in [0usize, 1] { for n in [0usize, 1, 5, 100] { t.case(|| format!("{n} steps, {c} checkpoints"), || req(panics(|| run(n, c, false)), || "fewer than two checkpoints accepted".into())); } }
    grid(t, |t, n, c| t.case(|| format!("{n} steps, {c} checkpoints"), || {
        let r = run(n, c, true);
        req(r.first, || "the first reverse call is not the identity".into())?;
        req(r.order, || "the identity was called again".into())?;
        req(r.calls == n + 1, || format!("{} reverse calls", r.calls))?;
        req(r.states, || "a reverse call got the wrong state".into())?;
        req(r.result == naive(n), || "the result differs from storing every state".into())
    }));
}
pub fn c17(t: &mut T) {
    grid(t, |t, n, c| t.case(|| format!("{n} steps, {c} checkpoints"), || {
        let r = run(n, c, false);
        req(r.peak_rev <= c, || format!("{} states are alive during a reverse call", r.peak_rev))?;
        req(r.peak_fwd <= c.saturating_add(1), || format!("{} states are alive during a forward step", r.peak_fwd))?;
        req(r.left == 0, || format!("{} states leaked", r.left))?;
        let e = std::mem::size_of::<(usize, St)>();
        req(r.largest <= (2 * c.min(n + 1) + 8) * e + 512, || format!("{} bytes reserved at once for {} states", r.largest, n + 1))
    }));
}
pub fn c18(t: &mut T) {
    let (rm, cm) = (100, 60);
    let best = table(rm, cm);
    grid(t, |t, n, c| t.case(|| format!("{n} steps, {c} checkpoints"), || {
        let r = run(n, c, false);
        let w = if n + 1 <= rm && c - 1 <= cm { best[c - 1][n + 1] } else if c > n { n as u64 } else { formula(n as u64 + 1, c as u64 - 1) };
        req(r.fwd == w, || format!("{} forward steps, the least possible number is {w}", r.fwd))
    }));
}
