//! Function objects and chains of functions.
use crate::prog::*;
use crate::tape_cases::*;
use crate::util::*;
use advantage::prelude::*;
use advantage::*;
use std::sync::{Arc, Mutex};

fn vv(v: &DVector<f64>) -> Vec<f64> { v.iter().cloned().collect() }
/// a part that remembers when it was evaluated
struct Part { id: usize, n: usize, m: usize, log: Arc<Mutex<Vec<usize>>> }
impl Part {
    fn apply<S: Copy + std::ops::Add<f64, Output = S> + std::ops::Mul<f64, Output = S> + std::ops::Add<S, Output = S>>(&self, x: &[S], zero: S) -> Vec<S> {
        (0..self.m).map(|i| { let mut s = zero + (self.id + i) as f64; for (k, a) in x.iter().enumerate() { s = s + *a * (((self.id * 7 + i * 3 + k * 5) % 11) as f64 - 5.0); } s }).collect()
    }
}
impl Function for Part {
    fn n(&self) -> usize { self.n }
    fn m(&self) -> usize { self.m }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        self.log.lock().unwrap().push(self.id);
        assert_eq!(x.len(), self.n);
        DVector::from_vec(self.apply(x.as_slice(), ADouble::new(0.0, 0.0)))
    }
}
/// shape of a chain: leaves with an id, inner nodes
#[derive(Clone, Debug)]
enum Sh { Leaf(usize, usize, usize), Chain(Vec<Sh>) }
fn shape(r: &mut Rng, depth: usize, n: usize, id: &mut usize) -> (Sh, usize) {
    if depth == 0 || r.chance(0.5) { let m = r.range(1, 4); *id += 1; return (Sh::Leaf(*id, n, m), m); }
    let mut v = vec![]; let mut d = n;
    for _ in 0..r.range(1, 4) { let (s, m) = shape(r, depth - 1, d, id); v.push(s); d = m; }
    (Sh::Chain(v), d)
}
fn build(s: &Sh, log: &Arc<Mutex<Vec<usize>>>) -> Box<dyn Function> {
    match s { Sh::Leaf(id, n, m) => Box::new(Part { id: *id, n: *n, m: *m, log: log.clone() }), Sh::Chain(v) => Box::new(chain(v, log)) }
}
fn chain(v: &[Sh], log: &Arc<Mutex<Vec<usize>>>) -> FunctionChain {
    let mut c = match &v[0] { Sh::Leaf(id, n, m) if id % 2 == 0 => FunctionChain::new(Part { id: *id, n: *n, m: *m, log: log.clone() }), s => FunctionChain::from_boxed(build(s, log)) };
    for s in &v[1..] { match s { Sh::Leaf(id, n, m) if id % 3 == 0 => c.append(Part { id: *id, n: *n, m: *m, log: log.clone() }), s => c.append_boxed(build(s, log)) } }
    c
}
fn leaves(s: &Sh, o: &mut Vec<(usize, usize, usize)>) { match s { Sh::Leaf(a, b, c) => o.push((*a, *b, *c)), Sh::Chain(v) => for x in v { leaves(x, o); } } }

pub fn c19(t: &mut T) {
    for (m, n) in [(1usize, 2usize), (2, 1), (3, 0), (0, 3), (4, 5)] {
        for nested in [false, true] { for tail in [0usize, 1, 3] { t.case(|| format!("append a part of {n} inputs to {m} outputs, nested {nested}, after {tail} fitting parts"), || {
            let log = Arc::new(Mutex::new(vec![]));
            let mk = |id, n, m| Part { id, n, m, log: log.clone() };
            let mut c = FunctionChain::new(mk(1, 2, m));
            for k in 0..tail { c.append(mk(k + 2, m, m)); }
            let r = panics(|| if nested { let mut d = FunctionChain::new(mk(8, n, n + 1)); d.append(mk(9, n + 1, 2)); c.append(d) } else { c.append_boxed(Box::new(mk(8, n, 2))) });
            req(r, || "accepted".into())?;
            req(c.len() == tail + 1 && c.m() == m, || "the rejected part was kept".into())
        }); } }
    }
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let n = r.range(1, 4); let mut id = 0; let mut v = vec![]; let mut d = n;
        for _ in 0..r.range(1, 5) { let (s, m) = shape(&mut r, 3, d, &mut id); v.push(s); d = m; }
        let x: Vec<f64> = (0..n).map(|_| r.below(9) as f64 - 4.0).collect();
        t.case(|| format!("{v:?} at {x:?}"), || {
            let log = Arc::new(Mutex::new(vec![]));
            let c = chain(&v, &log);
            let mut l = vec![]; for s in &v { leaves(s, &mut l); }
            req(c.n() == n && c.m() == d, || format!("sizes {} {}", c.n(), c.m()))?;
            req(c.len() == l.len(), || format!("length {} instead of {}", c.len(), l.len()))?;
            let names = |f: &dyn Function| { log.lock().unwrap().clear(); f.eval(DVector::from_element(f.n(), ADouble::new(0.0, 0.0))); log.lock().unwrap().clone() };
            let it: Vec<_> = c.iter().map(|f| names(f)).collect();
            req(it == l.iter().map(|p| vec![p.0]).collect::<Vec<_>>(), || format!("iteration order {it:?}"))?;
            for k in 0..l.len() { let f = c.nth(k); req(names(f) == vec![l[k].0] && f.n() == l[k].1 && f.m() == l[k].2, || format!("element {k}"))?; }
            req(panics(|| { c.nth(l.len()); }), || "an index past the end is accepted".into())?;
            log.lock().unwrap().clear();
            let y = c.eval_float(dv(&x));
            let calls = log.lock().unwrap().clone();
            req(calls == l.iter().map(|p| p.0).collect::<Vec<_>>(), || format!("evaluation order {calls:?}"))?;
            let mut w = x.clone();
            for p in &l { w = Part { id: p.0, n: p.1, m: p.2, log: log.clone() }.apply(&w, 0.0); }
            req(vv(&y) == w, || format!("value {y:?} instead of {w:?}"))?;
            req(c.chain().map(|d| d.len()) == Some(l.len()), || "chain()".into())
        });
    }
}

adv_fn! { pub fn first_form(x: [[3]], a: f64, k: usize) -> [[k]] { DVector::from_fn(k, |i, _| x[i % 3] * a + x[(i + 1) % 3] * x[(i + 2) % 3]) } }
adv_fn! { pub fn sized(x: [[p + q]], p: usize, q: usize) -> [[p * q + 1]] { DVector::from_fn(p * q + 1, |i, _| x[i % (p + q)].sin() * 2.0) } }
adv_fn! { pub fn named([[a, b, c]], f: f64) -> [[2]] { adv_dvec![a * f - b, b.abs() / c] } }
adv_fn! { pub fn named1([[a]]) -> [[1]] { adv_dvec![a.exp() - a] } }
adv_fn! { pub fn captured(x: [[2]], w: Vec<f64>) -> [[w.len()]] { DVector::from_fn(w.len(), |i, _| x[i % 2] * w[i]) } }
adv_fn! { pub fn wrong_out(x: [[2]], m: usize, k: usize) -> [[m]] { DVector::from_element(k, x[0] - x[1]) } }
adv_fn! { pub fn early(x: [[2]], m: usize, k: usize) -> [[m]] { if x[0] > (0.0).into() { return DVector::from_element(k, x[1]); } DVector::from_element(m, x[0]) } }
adv_fn! { pub fn lazy([[a, b]], t: f64) -> [[3]] { if a > t.into() { adv_dvec![a + b, b, a] } else { adv_dvec![b, b * b, a - b] } } }

fn obj(t: &mut T, name: &str, f: &dyn Function, n: usize, m: usize, want: &dyn Fn(&[f64]) -> Vec<f64>, exact: bool, x: &[f64], z: &[f64]) {
    t.case(|| format!("{name} of {n} inputs and {m} outputs at {x:?}, replayed at {z:?}"), || {
        req(f.n() == n && f.m() == m, || format!("sizes {} {}", f.n(), f.m()))?;
        let eq = |a: &[f64], b: &[f64]| veq(a, b, same);
        let y = f.eval_float(dv(x));
        req(eq(y.as_slice(), &want(x)), || format!("eval_float gives {y:?} instead of {:?}", want(x)))?;
        let mut tp = f.tape(&dv(x));
        req(tp.num_indeps() == n && tp.num_deps() == m, || format!("tape with {} independents, {} dependents", tp.num_indeps(), tp.num_deps()))?;
        let mut s = tp.indeps().to_vec(); s.sort(); s.dedup();
        req(s.len() == n, || "independents share a slot".into())?;
        req(eq(tp.x().as_slice(), x), || format!("tape at {:?}", tp.x()))?;
        req(eq(tp.y().as_slice(), &want(x)), || format!("tape result {:?} instead of {:?}", tp.y(), want(x)))?;
        let y = f.eval_float(dv(x));
        req(eq(y.as_slice(), &want(x)), || format!("second evaluation gives {y:?}"))?;
        if exact { tp.zero_order(&dv(z)); req(eq(tp.y().as_slice(), &want(z)) && eq(tp.x().as_slice(), z), || format!("replay gives {:?} instead of {:?}", tp.y(), want(z)))?; }
        Ok(())
    });
}
fn rejects(t: &mut T, name: &str, f: &dyn Function, k: usize) {
    t.case(|| format!("{name} with {} inputs at a point of length {k}", f.n()), || {
        req(panics(|| f.eval_float(dv(&vec![1.0; k]))), || "eval_float accepts it".into())?;
        req(panics(|| { f.tape(&dv(&vec![1.0; k])); }), || "tape accepts it".into())?;
        req(panics(|| f.eval(DVector::from_element(k, ADouble::new(1.0, 0.0)))), || "eval accepts it".into())
    });
}

pub fn c20(t: &mut T) {
    for k in [0usize, 1, 2, 4, 5, 9] {
        rejects(t, "first_form", &adv_fn_obj!(first_form, 1.0, 2), k);
        if k != 2 { rejects(t, "captured", &adv_fn_obj!(captured, vec![1.0; 2]), k); rejects(t, "lazy", &adv_fn_obj!(lazy, 0.0), k); }
        if k != 1 { rejects(t, "named1", &adv_fn_obj!(named1), k); }
        if k != 5 { rejects(t, "sized", &adv_fn_obj!(sized, 2, 3), k); }
        rejects(t, "named", &adv_fn_obj!(named, 2.0), k);
        for m in [0usize, 1, 3] { if m != k {
            t.case(|| format!("a result of {k} entries where {m} are declared"), || {
                let f = adv_fn_obj!(wrong_out, m, k);
                req(panics(|| f.eval_float(dv(&[1.0, 2.0]))) && panics(|| { f.tape(&dv(&[1.0, 2.0])); }) && panics(|| wrong_out(dv(&[1.0, 2.0]), m, k)), || "accepted".into())
            });
            t.case(|| format!("an early result of {k} entries where {m} are declared"), || {
                let f = adv_fn_obj!(early, m, k);
                req(f.eval_float(dv(&[-1.0, 2.0])).len() == m && panics(|| f.eval_float(dv(&[1.0, 2.0]))) && panics(|| { f.tape(&dv(&[1.0, 2.0])); }) && panics(|| early(dv(&[1.0, 2.0]), m, k)), || "accepted".into())
            });
        } }
    }
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let g = |r: &mut Rng, n: usize| -> Vec<f64> { (0..n).map(|_| match r.below(7) { 0 => 0.0, 1 => -0.0, 2 => -1.5, 3 => 1e300, 4 => r.below(5) as f64, _ => r.f(-3.0, 3.0) }).collect() };
        let (a, k, p, q) = (r.f(-2.0, 2.0), r.range(1, 7), r.range(1, 4), r.range(0, 3));
        let (x, z) = (g(&mut r, 3), g(&mut r, 3));
        obj(t, "first_form", &adv_fn_obj!(first_form, a, k), 3, k, &|x| vv(&first_form(dv(x), a, k)), true, &x, &z);
        let (x, z) = (g(&mut r, p + q), g(&mut r, p + q));
        obj(t, "sized", &adv_fn_obj!(sized, p, q), p + q, p * q + 1, &|x| vv(&sized(dv(x), p, q)), true, &x, &z);
        let (x, z) = (g(&mut r, 3), g(&mut r, 3));
        obj(t, "named", &adv_fn_obj!(named, a), 3, 2, &|x| vec![x[0] * a - x[1], x[1].abs() / x[2]], true, &x, &z);
        let (x, z) = (g(&mut r, 1), g(&mut r, 1));
        obj(t, "named1", &adv_fn_obj!(named1), 1, 1, &|x| vec![x[0].exp() - x[0]], true, &x, &z);
        let w: Vec<f64> = (0..k).map(|_| r.f(-2.0, 2.0)).collect();
        let (x, z) = (g(&mut r, 2), g(&mut r, 2));
        obj(t, "captured", &adv_fn_obj!(captured, w.clone()), 2, k, &|x| (0..k).map(|i| x[i % 2] * w[i]).collect(), true, &x, &z);
        obj(t, "lazy", &adv_fn_obj!(lazy, a), 2, 3, &|x| if x[0] > a { vec![x[0] + x[1], x[1], x[0]] } else { vec![x[1], x[1] * x[1], x[0] - x[1]] }, false, &x, &z);
        let f = SimpleFunction::new(2, k, move |x: DVector<ADouble>| DVector::from_fn(k, |i, _| if i % 3 == 2 { ADouble::new(7.0, 0.0) } else { x[i % 2] }));
        obj(t, "SimpleFunction", &f, 2, k, &|x| (0..k).map(|i| if i % 3 == 2 { 7.0 } else { x[i % 2] }).collect(), true, &x, &z);
        let n = r.range(0, 5); let x = pt(&mut r, n, 0.3, 2.2); let z = pt(&mut r, n, 0.3, 2.2);
        let p = some_prog(&mut r, &[x.clone(), z.clone()], true);
        if p.n + p.steps.len() == 0 { continue; }
        let p2 = p.clone();
        obj(t, &format!("{p:?}"), &PF(p.clone()), n, p.outs.len(), &move |x| p2.out(&p2.vals(x)), true, &x, &z);
    }
}
