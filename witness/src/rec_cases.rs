//! Recording: meaning, well-formedness and isolation.
use crate::util::*;
use advantage::*;
use num::{Float, NumCast};
use crate::ck_cases::LIVE;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier, Mutex};

const UNN: [&str; 18] = ["sin", "cos", "tan", "abs", "exp", "ln", "asin", "acos", "atan", "neg", "recip", "sqrt", "exp2", "log2", "log10", "cbrt", "to_degrees", "to_radians"];
const UNA: usize = 16;
const BIN: [&str; 10] = ["+", "-", "*", "/", "powf", "log", "max", "min", "abs_sub", "hypot"];
#[derive(Clone, Debug)]
enum St { Un(usize, usize), Bin(usize, usize, usize), Asg(usize, usize, usize), BinR(usize, usize, f64), AsgR(usize, usize, f64), BinL(usize, f64, usize), Powi(usize, i32), MulAdd(usize, usize, usize), Sin2(usize), Cos2(usize), Lit(f64) }
#[derive(Clone, Debug)]
struct Pg { n: usize, st: Vec<St> }

fn un_<F: Float>(k: usize, x: F) -> F { match UNN[k] { "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "abs" => x.abs(), "exp" => x.exp(), "ln" => x.ln(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "neg" => -x, "recip" => x.recip(), "sqrt" => x.sqrt(), "exp2" => x.exp2(), "log2" => x.log2(), "log10" => x.log10(), "cbrt" => x.cbrt(), "to_degrees" => x.to_degrees(), _ => x.to_radians() } }
#[allow(deprecated)]
fn bin_<F: Float>(k: usize, x: F, y: F) -> F { match BIN[k] { "+" => x + y, "-" => x - y, "*" => x * y, "/" => x / y, "powf" => x.powf(y), "log" => x.log(y), "max" => x.max(y), "min" => x.min(y), "abs_sub" => x.abs_sub(y), _ => x.hypot(y) } }
impl Pg {
    fn step(&self, s: &St, v: &[f64]) -> f64 {
        match *s { St::Un(k, a) => un_(k, v[a]), St::Bin(k, a, b) | St::Asg(k, a, b) => bin_(k, v[a], v[b]), St::BinR(k, a, c) | St::AsgR(k, a, c) => bin_(k, v[a], c), St::BinL(k, c, a) => bin_(k, c, v[a]),
            St::Powi(a, n) => v[a].powi(n), St::MulAdd(a, b, c) => v[a] * v[b] + v[c], St::Sin2(a) => v[a].sin(), St::Cos2(a) => v[a].cos(), St::Lit(c) => c }
    }
    fn vals(&self, x: &[f64]) -> Vec<f64> { let mut v = x.to_vec(); for s in &self.st { let r = self.step(s, &v); v.push(r); } v }
    /// inside the domain and of moderate size
    fn tame(&self, x: &[f64]) -> bool {
        let v = self.vals(x); let k = v.len() - 1; let r = v[k];
        if !r.is_finite() || r.abs() > 40.0 { return false; }
        let d = |k: usize, p: f64, q: f64| match BIN[k] { "/" => q.abs() > 0.3, "powf" => p > 0.3 && p < 6.0 && q.abs() < 3.0, "log" => p > 0.3 && q > 1.2, "hypot" => p.abs() + q.abs() > 0.1, _ => true };
        match *self.st.last().unwrap() {
            St::Un(k, a) => { let y = v[a]; match UNN[k] { "ln" | "log2" | "log10" | "sqrt" | "cbrt" | "recip" => y > 0.3, "asin" | "acos" => y.abs() < 0.9, "tan" => y.cos().abs() > 0.4, "exp" | "exp2" => y < 3.0, _ => true } }
            St::Bin(k, a, b) | St::Asg(k, a, b) => d(k, v[a], v[b]), St::BinR(k, a, c) | St::AsgR(k, a, c) => d(k, v[a], c), St::BinL(k, c, a) => d(k, c, v[a]), St::Powi(a, n) => v[a].abs() > 0.3 && (n >= 0 || v[a].abs() > 0.3), _ => true,
        }
    }
    fn random(r: &mut Rng, n: usize, len: usize, pts: &[Vec<f64>]) -> Pg {
        let mut p = Pg { n, st: vec![] }; let mut tries = 0;
        while p.st.len() < len && tries < 60 * len {
            tries += 1;
            let k = n + p.st.len();
            let c = *r.pick(&[2.0, 3.0, 0.5, -1.5, 1.0, 0.25, 0.0, -0.0, -1.0, -2.0]);
            if k == 0 || r.chance(0.06) { p.st.push(St::Lit(c)); continue; }
            let mut i = || if r.chance(0.5) { k - 1 - r.below(k.min(3)) } else { r.below(k) };
            let (a, b, d) = (i(), i(), i());
            let s = match r.below(12) { 0 | 1 | 2 => St::Un(r.below(UNA), a), 3 | 4 => St::Bin(r.below(10), a, b), 5 => St::Asg(r.below(4), a, b), 6 => St::BinR(r.below(4), a, c), 7 => St::AsgR(r.below(4), a, c), 8 => St::BinL(r.below(4), c, a), 9 => St::Powi(a, r.range(0, 6) as i32 - 2), 10 => St::MulAdd(a, b, d), _ => if r.chance(0.5) { St::Sin2(a) } else { St::Cos2(a) } };
            p.st.push(s);
            if !pts.iter().all(|x| p.tame(x)) { p.st.pop(); }
        }
        p
    }
    fn run<S: Float>(&self, x: &[AFloat<S>]) -> Vec<AFloat<S>> {
        let lit = |c: f64| AFloat::new(S::from(c).unwrap(), S::from(7.5).unwrap());
        let mut v = x.to_vec();
        for s in &self.st {
            let r = match *s {
                St::Un(k, a) => un_(k, v[a]), St::Bin(k, a, b) => bin_(k, v[a], v[b]),
                St::Asg(k, a, b) => { let mut t = v[a]; match BIN[k] { "+" => t += v[b], "-" => t -= v[b], "*" => t *= v[b], _ => t /= v[b] } t }
                St::AsgR(k, a, c) => { let mut t = v[a]; match BIN[k] { "+" => t += c, "-" => t -= c, "*" => t *= c, _ => t /= c } t }
                St::BinR(k, a, c) => match BIN[k] { "+" => v[a] + c, "-" => v[a] - c, "*" => v[a] * c, _ => v[a] / c },
                St::BinL(k, c, a) => match BIN[k] { "+" => c + v[a], "-" => c - v[a], "*" => c * v[a], _ => c / v[a] },
                St::Powi(a, n) => v[a].powi(n), St::MulAdd(a, b, c) => v[a].mul_add(v[b], v[c]), St::Sin2(a) => v[a].sin_cos().0, St::Cos2(a) => v[a].sin_cos().1, St::Lit(c) => lit(c),
            };
            v.push(r);
        }
        v
    }
    /// which numbers belong to the recording
    fn active(&self) -> Vec<bool> {
        let mut v = vec![true; self.n];
        for s in &self.st { let r = match *s { St::Un(_, a) | St::BinR(_, a, _) | St::AsgR(_, a, _) | St::BinL(_, _, a) | St::Powi(a, _) | St::Sin2(a) | St::Cos2(a) => v[a], St::Bin(_, a, b) | St::Asg(_, a, b) => v[a] || v[b], St::MulAdd(a, b, c) => v[a] || v[b] || v[c], St::Lit(_) => false }; v.push(r); }
        v
    }
}
fn near(a: f64, b: f64, e: f64) -> bool { (a - b).abs() <= e * (1.0 + a.abs().max(b.abs())) }
fn dvv(x: &[f64]) -> DVector<f64> { DVector::from_vec(x.to_vec()) }
fn ctxs<S: Float>(x: &[f64]) -> (AContext, Vec<AFloat<S>>) {
    let mut c = AContext::new();
    let v = x.iter().map(|a| { let mut y = AFloat::new(S::from(*a).unwrap(), S::from(0.5).unwrap()); c.set_indep(&mut y); y }).collect();
    (c, v)
}

fn replay<S: Float>(p: &Pg, pts: &[Vec<f64>], eps: f64) -> Result<(), String> {
    let (mut c, x) = ctxs::<S>(&pts[0]);
    let v = p.run(&x);
    c.set_dep_slice(&v);
    let mut t = c.tape();
    req(t.num_indeps() == p.n && t.num_deps() == v.len(), || format!("sizes {} {}", t.num_indeps(), t.num_deps()))?;
    let y: Vec<f64> = v.iter().map(|a| NumCast::from(a.value()).unwrap()).collect();
    for (k, (a, b)) in t.y().iter().zip(&y).enumerate() { req(same(*a, *b), || format!("slot of number {k} holds {a}, its value is {b}"))?; }
    let w = p.vals(&pts[0]);
    for k in 0..w.len() { req(near(y[k], w[k], eps), || format!("number {k} has value {} instead of {}", y[k], w[k]))?; }
    for z in pts[1..].iter().chain(&pts[..1]) {
        t.zero_order(&dvv(z));
        let (g, w) = (t.y(), p.vals(z));
        // elementary operations repeat what was computed, to the sign of a zero
        if eps < 1e-6 && z == &pts[0] { for k in 0..w.len() { let e = k < p.n || matches!(p.st[k - p.n], St::Bin(0..=3, ..) | St::Asg(..) | St::BinR(..) | St::AsgR(..) | St::BinL(..)); req(!e || y[..k].iter().zip(g.as_slice()).any(|(a, b)| !same(*a, *b)) || same(g[k], y[k]), || format!("replayed at the recorded point, number {k} is {:?} instead of {:?}", g[k], y[k]))?; } }
        for k in 0..w.len() { req(near(g[k], w[k], eps), || format!("replayed at {z:?}, number {k} is {} instead of {}", g[k], w[k]))?; }
    }
    Ok(())
}

pub fn c05(t: &mut T) {
    t.case(|| "order of set_dep_slice, new_indep_vec, constants".into(), || {
        let mut c = AContext::new();
        let x: Vec<ADouble> = c.new_indep_vec(3, 2.0);
        let k = ADouble::new(9.0, 1.0);
        c.set_dep_slice(&[x[2] - x[0], k, x[1], x[0] - k, k - x[1]]);
        let mut t = c.tape();
        t.zero_order(&dvv(&[1.0, 10.0, 100.0]));
        req(t.y().as_slice() == [99.0, 9.0, 10.0, -8.0, -1.0], || format!("{:?}", t.y()))?;
        req(x.iter().all(|a| a.value() == 2.0 && a.dvalue() == 0.0), || "values of independents".into())
    });
    t.case(|| "operands captured with their value at that moment".into(), || {
        let mut c = AContext::new();
        let x: ADouble = c.new_indep(2.0);
        let mut k = ADouble::new(3.0, 0.0);
        let a = x - k;
        *k.value_mut() = 50.0;
        let b = k / x;
        c.set_dep(&k);
        *k.value_mut() = 60.0;
        c.set_dep(&a); c.set_dep(&b); c.set_dep(&k);
        let mut t = c.tape();
        t.zero_order(&dvv(&[5.0]));
        req(t.y().as_slice() == [50.0, 2.0, 10.0, 60.0], || format!("{:?}", t.y()))
    });
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let n = r.range(0, 4);
        let g = |r: &mut Rng| (0..n).map(|_| (r.f(0.4, 2.0) * 64.0).round() / 64.0).collect::<Vec<f64>>();
        let pts = vec![g(&mut r), g(&mut r), g(&mut r)];
        let len = r.range(1, 12);
        let p = Pg::random(&mut r, n, len, &pts);
        let f32_ = r.chance(0.25);
        t.case(|| format!("{} {:?} recorded at {:?}, replayed at {:?}", if f32_ { "f32" } else { "f64" }, p, pts[0], &pts[1..]), || {
            if f32_ { replay::<f32>(&p, &pts, 2e-2) } else { replay::<f64>(&p, &pts, 1e-7) }
        });
    }
}

/// each slot written once and in order, operands earlier, sizes
fn wf(t: &dyn Tape) -> Result<(), String> {
    let n = t.values().len();
    let ind = t.indeps();
    req(ind.windows(2).all(|w| w[0] < w[1]) && ind.iter().all(|&i| i < n), || format!("independents {ind:?} of {n}"))?;
    req(t.deps().iter().all(|&i| i < n), || format!("dependents {:?} of {n}", t.deps()))?;
    let mut by = vec![0; n];
    for &i in ind { by[i] += 1; }
    let mut last = None;
    for o in t.ops_iter() {
        req(o.vid < n, || format!("{o:?} of {n}"))?;
        by[o.vid] += 1;
        req(last < Some(o.vid), || format!("{o:?} after {last:?}"))?;
        last = Some(o.vid);
        let un = matches!(o.opcode, OpCode::Sin | OpCode::Cos | OpCode::Tan | OpCode::Abs | OpCode::Exp | OpCode::Ln | OpCode::Asin | OpCode::Acos | OpCode::Atan);
        match o.opcode { OpCode::Nop => return Err(format!("{o:?}")), OpCode::Const => req(o.arg1.is_none() && o.arg2.is_none(), || format!("{o:?}"))?, _ => { req(o.arg1.map_or(false, |a| a < o.vid), || format!("{o:?}"))?; req(if un { o.arg2.is_none() } else { o.arg2.map_or(false, |a| a < o.vid) }, || format!("{o:?}"))? } }
    }
    req(by.iter().all(|&k| k == 1), || format!("slots written {by:?} times"))
}
/// the recorded values are those of the recorded operations
fn holds(t: &dyn Tape) -> Result<(), String> {
    let v = t.values();
    for o in t.ops_iter() {
        if o.opcode == OpCode::Const { continue; }
        let (a, b) = (v[o.arg1.unwrap()], o.arg2.map(|k| v[k]).unwrap_or(0.0));
        let w = match o.opcode { OpCode::Add => a + b, OpCode::Sub => a - b, OpCode::Mul => a * b, OpCode::Div => a / b, OpCode::Powf => a.powf(b), OpCode::Sin => a.sin(), OpCode::Cos => a.cos(), OpCode::Tan => a.tan(), OpCode::Abs => a.abs(), OpCode::Exp => a.exp(), OpCode::Ln => a.ln(), OpCode::Asin => a.asin(), OpCode::Acos => a.acos(), OpCode::Atan => a.atan(), _ => f64::NAN };
        req(near(v[o.vid], w, 1e-9), || format!("{o:?} on {a}, {b} holds {}", v[o.vid]))?;
    }
    Ok(())
}
fn prefix<X: PartialEq>(a: &[X], b: &[X]) -> bool { a.len() <= b.len() && *a == b[..a.len()] }

pub fn c06(t: &mut T) {
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let n = r.range(1, 4);
        let pts: Vec<Vec<f64>> = (0..2).map(|_| (0..n).map(|_| (r.f(0.4, 2.0) * 64.0).round() / 64.0).collect()).collect();
        if r.chance(0.5) {
            let len = r.range(1, 12);
            let p = Pg::random(&mut r, n, len, &pts);
            let late = r.below(p.st.len() + 1);
            t.case(|| format!("{p:?} at {:?}, a snapshot after every declaration, more independents after {late} dependents", pts[0]), || {
                let (mut c, x) = ctxs::<f64>(&pts[0]);
                wf(&c.tape())?;
                let v = p.run(&x);
                for (k, a) in v.iter().enumerate() { if k == late { let y: Vec<ADouble> = c.new_indep_vec(2, 1.5); wf(&c.tape())?; let z = y[0] * y[1] + *a; c.set_dep(&z); } c.set_dep(a); wf(&c.tape())?; }
                let mut again = v.last().cloned().unwrap();
                c.set_indep(&mut again);
                wf(&c.tape())?; holds(&c.tape())?;
                // a copy in another precision belongs to the same recording
                let y = AFloat::<f32>::cast(v[0]); let z = y * y; c.set_dep(&z);
                wf(&c.tape())
            });
            continue;
        }
        let k = r.range(2, 5); let len = r.range(3, 12); let reps = r.range(1, 6);
        let ps: Vec<Pg> = (0..k).map(|_| Pg::random(&mut r, n, len, &pts)).collect();
        let other = r.chance(0.3);
        t.case(|| format!("{k} threads recording {ps:?} at {:?} {reps} times into {}, snapshots meanwhile", pts[0], if other { "two recordings" } else { "one recording" }), || {
            let (c, x) = ctxs::<f64>(&pts[0]);
            let (c2, x2) = ctxs::<f64>(&pts[0]);
            let cs = [c.cid(), if other { c2.cid() } else { c.cid() }];
            let xs = [x.clone(), if other { x2 } else { x }];
            let go = Arc::new(Barrier::new(k + 1)); let done = Arc::new(AtomicBool::new(false));
            let pairs: Arc<Mutex<Vec<(usize, usize, usize)>>> = Arc::new(Mutex::new(vec![]));
            let hs: Vec<_> = ps.iter().cloned().enumerate().map(|(i, p)| { let (cid, x, go, pairs) = (cs[i % 2], xs[i % 2].clone(), go.clone(), pairs.clone()); std::thread::spawn(move || {
                go.wait();
                let mut c = AContext::from_cid(cid).unwrap();
                for _ in 0..reps { let extra: ADouble = c.new_indep(1.0); let v = p.run(&x); let z = extra * v[v.len() - 1]; c.set_dep(&z); pairs.lock().unwrap().push((i, 0, 0)); }
            }) }).collect();
            go.wait();
            let mut old: Option<(Vec<usize>, Vec<usize>, Vec<Operation>, Vec<u64>)> = None;
            let mut bad = Ok(());
            let mut snaps = 0;
            while bad.is_ok() {
                let end = hs.iter().all(|h| h.is_finished());
                let s = c.tape();
                bad = wf(&s).and_then(|_| holds(&s));
                let now = (s.indeps().to_vec(), s.deps().to_vec(), s.ops_iter().collect::<Vec<_>>(), s.values().iter().map(|v| v.to_bits()).collect::<Vec<_>>());
                if let Some(o) = &old { if bad.is_ok() { bad = req(prefix(&o.0, &now.0) && prefix(&o.1, &now.1) && o.2.len() <= now.2.len() && o.2.iter().zip(&now.2).all(|(a, b)| format!("{a:?}") == format!("{b:?}")) && prefix(&o.3, &now.3), || "an earlier snapshot is not a beginning of a later one".into()); } }
                old = Some(now); snaps += 1;
                if end || snaps > 20000 { break; }
            }
            done.store(true, Ordering::SeqCst);
            for h in hs { h.join().map_err(|_| "a recording thread panicked".to_string())?; }
            bad?;
            let s = c.tape(); wf(&s)?; wf(&c2.tape())?; holds(&c2.tape())?;
            let m = if other { (k + 1) / 2 } else { k } * reps;
            req(s.num_deps() == m && s.num_indeps() == n + m, || format!("{} dependents, {} independents instead of {m}, {}", s.num_deps(), s.num_indeps(), n + m))
        });
    }
}

pub fn c07(t: &mut T) {
    type F = (&'static str, fn(ADouble, ADouble));
    let fs: Vec<F> = vec![("+", |a, b| { let _ = a + b; }), ("-", |a, b| { let _ = a - b; }), ("*", |a, b| { let _ = a * b; }), ("/", |a, b| { let _ = a / b; }), ("powf", |a, b| { let _ = a.powf(b); }), ("+=", |mut a, b| { a += b; }), ("-=", |mut a, b| { a -= b; }), ("*=", |mut a, b| { a *= b; }), ("/=", |mut a, b| { a /= b; }),
        ("max", |a, b| { let _ = a.max(b); }), ("min", |a, b| { let _ = a.min(b); }), ("hypot", |a, b| { let _ = a.hypot(b); }), ("log", |a, b| { let _ = a.log(b); }), ("mul_add 1", |a, b| { let _ = a.mul_add(b, a); }), ("mul_add 2", |a, b| { let _ = a.mul_add(a, b); })];
    for (k, (name, f)) in fs.into_iter().enumerate() { for state in 0..if k < 9 { 4 } else { 1 } {
        t.case(|| format!("{name} on numbers of two recordings, {}", ["both alive", "the first gone", "the second gone", "both gone"][state]), || {
            let (c, x) = ctxs::<f64>(&[2.0]); let (d, y) = ctxs::<f64>(&[3.0]);
            if state != 1 && state != 3 { std::mem::forget(AContext::from_cid(c.cid())); } if state != 2 && state != 3 { std::mem::forget(AContext::from_cid(d.cid())); }
            drop(c); drop(d);
            req(panics(|| f(x[0], y[0])), || "accepted".into())
        });
    } }
    t.case(|| "foreign dependent".into(), || {
        let (mut c, _) = ctxs::<f64>(&[2.0]); let (d, y) = ctxs::<f64>(&[3.0]);
        req(panics(move || c.set_dep(&y[0])), || "accepted while its recording is alive".into())?;
        drop(d);
        let (mut c, _) = ctxs::<f64>(&[2.0]); let (d, y) = ctxs::<f64>(&[3.0]); drop(d);
        req(panics(move || c.set_dep_slice(&[ADouble::new(1.0, 0.0), y[0]])), || "accepted after its recording ended".into())
    });
    t.case(|| "ended recordings leave nothing behind".into(), || {
        let make = |k: usize| for _ in 0..k { let (c, x) = ctxs::<f64>(&[1.0, 2.0]); let e = c.cid(); let d = AContext::from_cid(e).unwrap(); drop(c); let _ = x[0] * x[1]; drop(d); assert!(AContext::from_cid(e).is_none()); };
        make(500);
        let a = LIVE.load(Ordering::Relaxed); make(4000); let b = LIVE.load(Ordering::Relaxed);
        req(b - a < 60_000, || format!("{} bytes more after 4000 recordings", b - a))
    });
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let n = r.range(1, 3);
        let pts: Vec<Vec<f64>> = (0..2).map(|_| (0..n).map(|_| (r.f(0.4, 2.0) * 64.0).round() / 64.0).collect()).collect();
        let len = r.range(1, 10); let p = Pg::random(&mut r, n, len, &pts); let cut = r.below(p.st.len() + 1);
        if r.chance(0.8) { t.case(|| format!("{p:?} at {:?}: the recording ends before step {cut}; another is recorded between the steps", pts[0]), || {
            let (c, x) = ctxs::<f64>(&pts[0]); let (e, z) = ctxs::<f64>(&pts[1]);
            let cid = c.cid();
            req(cid != e.cid(), || "same identity".into())?;
            let second = AContext::from_cid(cid).ok_or("not resolved")?;
            req(second.cid() == cid, || "resolved to another".into())?;
            drop(second);
            let plain: Vec<ADouble> = pts[0].iter().map(|a| ADouble::new(*a, 0.5)).collect();
            let want = p.run(&plain);
            let mut c = Some(c); let mut v = x.clone(); let mut other = z.clone(); let mut before = vec![];
            for k in 0..p.st.len() {
                if k == cut { let keep = AContext::from_cid(cid).ok_or("not resolved")?; drop(c.take()); req(AContext::from_cid(cid).is_some(), || "gone while a handle is left".into())?; drop(keep); req(AContext::from_cid(cid).is_none(), || "still resolved".into())?; }
                let q = Pg { n: v.len(), st: vec![p.st[k].clone()] };
                let (l1, l2) = (c.as_ref().map(|c| c.values().len()), e.values().len());
                let y = q.run(&v).pop().unwrap(); v.push(y);
                req(e.values().len() == l2, || format!("step {k} recorded into the other recording"))?;
                let l3 = c.as_ref().map(|c| c.values().len());
                if p.active()[n + k] { req(l1.is_none() || l3 > l1 , || format!("step {k} not recorded"))?; } else { req(l3 == l1, || format!("step {k} recorded"))?; }
                let w = q2(&other); if w.is_some() { let (o, y) = w.unwrap(); other.push(y); let _ = o; }
                req(c.as_ref().map(|c| c.values().len()) == l3, || format!("the other recording's step {k} went here"))?;
                before.push(l3);
            }
            for k in 0..v.len() { req(same(v[k].value(), want[k].value()) && same(v[k].dvalue(), want[k].dvalue()), || format!("number {k}: {:?} instead of {:?}", v[k], want[k]))?; }
            // what became of the leftovers belongs to no recording
            if c.is_none() && !p.st.is_empty() && cut < p.st.len() {
                let mut f = AContext::new();
                let last = v[v.len() - 1];
                if p.active()[v.len() - 1] && last_after(&p, cut) { let u: ADouble = f.new_indep(1.0); let _ = u * last; let mut g = f; g.set_dep(&last); }
            }
            Ok(())
        }); continue; }
        let k = r.range(2, 6); let m = r.range(1, 20);
        t.case(|| format!("{k} threads make, record into and end {m} recordings each: {p:?}"), || {
            let go = Arc::new(Barrier::new(k));
            let hs: Vec<_> = (0..k).map(|i| { let (p, x0, go) = (p.clone(), pts[i % 2].clone(), go.clone()); std::thread::spawn(move || -> Result<Vec<usize>, String> {
                go.wait();
                let mut ids = vec![];
                for _ in 0..m {
                    let (c, x) = ctxs::<f64>(&x0);
                    ids.push(c.cid());
                    let v = p.run(&x);
                    let mut c = c; c.set_dep_slice(&v);
                    let y = c.tape().y();
                    for j in 0..v.len() { req(same(y[j], v[j].value()), || format!("slot of number {j} holds {}", y[j]))?; }
                    let id = c.cid();
                    req(AContext::from_cid(id).map(|d| d.cid()) == Some(id), || "not resolved".into())?;
                    drop(c);
                    req(AContext::from_cid(id).is_none(), || "still resolved".into())?;
                    let _ = p.run(&x);
                }
                Ok(ids)
            }) }).collect();
            let mut all = HashSet::new(); let mut e = Ok(());
            for h in hs { match h.join() { Ok(Ok(v)) => for i in v { if !all.insert(i) { e = Err(format!("identity {i} given out twice")); } }, Ok(Err(x)) => e = Err(x), Err(_) => e = Err("a thread panicked".into()) } }
            e
        });
    }
}
/// one step in the other recording
fn q2(v: &[ADouble]) -> Option<(usize, ADouble)> { Some((v.len(), v[v.len() - 1] * v[0] * 0.5)) }
/// the last step has only leftovers as operands and was made after the end
fn last_after(p: &Pg, cut: usize) -> bool { p.st.len() > cut && !matches!(p.st[p.st.len() - 1], St::Lit(_)) }
