//! The C functions against the operations of the core library on the same operands.
use crate::util::*;
use advantage::*;
use num::{Float, Zero};

fn live() -> isize { crate::ck_cases::MINE.with(|c| c.get()) }

type D = *const ADouble;
type O = *mut *mut ADouble;
#[allow(clashing_extern_declarations)]
extern "C" {
    fn adv_acontext_new() -> *mut AContext;
    fn adv_acontext_free(c: *mut AContext);
    fn adv_acontext_new_independent(c: *mut AContext) -> *mut ADouble;
    fn adv_acontext_set_dependent(c: *mut AContext, x: D);
    fn adv_adouble_default() -> *mut ADouble;
    fn adv_adouble_from_value(x: f64) -> *mut ADouble;
    fn adv_adouble_free(x: *mut ADouble);
    fn adv_adouble_copy(x: D) -> *mut ADouble;
    fn adv_op_add(a: D, b: D, r: O); fn adv_op_sub(a: D, b: D, r: O); fn adv_op_mul(a: D, b: D, r: O); fn adv_op_div(a: D, b: D, r: O);
    fn adv_min(a: D, b: D, r: O); fn adv_max(a: D, b: D, r: O);
    fn adv_sin(a: D, r: O); fn adv_cos(a: D, r: O); fn adv_tan(a: D, r: O); fn adv_abs(a: D, r: O); fn adv_exp(a: D, r: O); fn adv_ln(a: D, r: O);
}
const NAMES: [&str; 12] = ["op_add", "op_sub", "op_mul", "op_div", "min", "max", "sin", "cos", "tan", "abs", "exp", "ln"];
fn direct(k: usize, a: ADouble, b: ADouble) -> ADouble {
    match k { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, 4 => a.min(b), 5 => a.max(b), 6 => a.sin(), 7 => a.cos(), 8 => a.tan(), 9 => a.abs(), 10 => a.exp(), _ => a.ln() }
}
unsafe fn through(k: usize, a: D, b: D) -> *mut ADouble {
    let mut r: *mut ADouble = std::ptr::null_mut();
    let f2: [unsafe extern "C" fn(D, D, O); 6] = [adv_op_add, adv_op_sub, adv_op_mul, adv_op_div, adv_min, adv_max];
    let f1: [unsafe extern "C" fn(D, O); 6] = [adv_sin, adv_cos, adv_tan, adv_abs, adv_exp, adv_ln];
    if k < 6 { f2[k](a, b, &mut r) } else { f1[k - 6](a, &mut r) }
    r
}
fn eq(a: &ADouble, b: &ADouble) -> bool { same(a.value(), b.value()) && same(a.dvalue(), b.dvalue()) }

/// the same straight-line program through the C functions and directly, each in a recording of its own
fn program(seed: u64, len: usize) -> Result<(), String> {
    let mut r = Rng(seed);
    let special = [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, 2.0];
    let val = |r: &mut Rng| if r.chance(0.3) { special[r.below(special.len())] } else { r.f(-3.0, 3.0) };
    unsafe {
        let c = adv_acontext_new();
        let mut d = AContext::new();
        let mut xs: Vec<*mut ADouble> = Vec::with_capacity(64); let mut ys: Vec<ADouble> = Vec::with_capacity(64);
        let mut hist = String::new();
        for step in 0..len {
            let o = if step == 0 { 0 } else { r.below(10) };
            let (p, q) = match o {
                0 => { hist += "new_independent; "; (adv_acontext_new_independent(c), d.new_indep(0.0)) }
                1 => { hist += "default; "; (adv_adouble_default(), ADouble::zero()) }
                2 => { let v = val(&mut r); hist += &format!("from_value({v:?}); "); (adv_adouble_from_value(v), ADouble::from(v)) }
                3 => { let i = r.below(xs.len()); hist += &format!("copy({i}); "); (adv_adouble_copy(xs[i]), ys[i]) }
                4 => { let i = r.below(xs.len()); hist += &format!("set_dependent({i}); "); adv_acontext_set_dependent(c, xs[i]); d.set_dep(&ys[i]); continue; }
                _ => { let (k, i, j) = (r.below(12), r.below(xs.len()), r.below(xs.len())); hist += &format!("{}({i},{j}); ", NAMES[k]); (through(k, xs[i], xs[j]), direct(k, ys[i], ys[j])) }
            };
            if p.is_null() { return Err(format!("[{hist}] gives no number")); }
            xs.push(p); ys.push(q);
            if !eq(&*p, &q) { return Err(format!("[{hist}] gives {:?}/{:?}, the core operation {:?}/{:?}", (*p).value(), (*p).dvalue(), q.value(), q.dvalue())); }
        }
        let w = &*c;
        let same_ops = w.operations().len() == d.operations().len() && w.operations().iter().zip(d.operations()).all(|(a, b)| a.opcode == b.opcode && a.vid == b.vid && a.arg1 == b.arg1 && a.arg2 == b.arg2);
        let (wv, dv) = (w.values(), d.values());
        if !same_ops || w.indeps() != d.indeps() || w.deps() != d.deps() || wv.len() != dv.len() || !wv.iter().zip(&dv).all(|(a, b)| same(*a, *b)) { return Err(format!("[{hist}] records something else than the core operations")); }
        for p in xs { adv_adouble_free(p); }
        adv_acontext_free(c);
    }
    Ok(())
}
/// what a C function hands out is given back completely, and nothing else is
fn balance(k: usize, v: f64, u: f64) -> Result<(), String> {
    unsafe {
        let (a, b) = (adv_adouble_from_value(v), adv_adouble_from_value(u));
        let n = live();
        let p = match k { 12 => adv_adouble_default(), 13 => adv_adouble_from_value(v), 14 => adv_adouble_copy(a), _ => through(k, a, b) };
        let m = live();
        adv_adouble_free(p);
        let e = live();
        if m <= n || e != n { return Err(format!("function {} then adv_adouble_free: {} bytes handed out, {} left", if k < 12 { NAMES[k] } else { ["default", "from_value", "copy"][k - 12] }, m - n, e - n)); }
        adv_adouble_free(a); adv_adouble_free(b);
    }
    Ok(())
}
fn contexts() -> Result<(), String> {
    unsafe {
        let mut n = 0;
        for i in 0..40 { let c = adv_acontext_new(); let x = adv_acontext_new_independent(c); adv_adouble_free(x); adv_acontext_free(c); if i == 30 { n = live(); } }
        if live() > n + 64 { return Err(format!("adv_acontext_new then adv_acontext_free, 9 times: {} bytes left", live() - n)); }
    }
    Ok(())
}
pub fn c21(t: &mut T) {
    t.case(|| "recordings made and released through the C functions".into(), contexts);
    for k in 0..15 { let (v, u) = (t.rng.f(-3.0, 3.0), t.rng.f(-3.0, 3.0)); t.case(|| format!("balance of C function {k}"), move || balance(k, v, u)); }
    while !t.stop() {
        let s = t.rng.next(); let len = t.rng.range(1, 24);
        t.case(|| format!("program {s:x} of {len} steps through the C functions"), move || program(s, len));
    }
}
