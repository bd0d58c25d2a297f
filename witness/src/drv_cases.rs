//! Drivers: Jacobians, abs-normal forms, generalized Jacobians, against direct differentiation of the program.
use crate::prog::*;
use crate::tape_cases::*;
use crate::util::*;
use advantage::drivers::*;
use advantage::*;

pub fn unit(n: usize, j: usize) -> Vec<f64> { (0..n).map(|k| if k == j { 1.0 } else { 0.0 }).collect() }
pub fn mclose(a: &DMatrix<f64>, b: &DMatrix<f64>) -> bool { a.nrows() == b.nrows() && a.ncols() == b.ncols() && a.iter().zip(b.iter()).all(|(x, y)| close(*x, *y)) }
pub fn vclose(a: &DVector<f64>, b: &[f64]) -> bool { veq(a.as_slice(), b, close) }
fn pools() -> Vec<rayon::ThreadPool> { [1, 2, 7].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect() }
fn mm(m: &DMatrix<f64>) -> String { format!("{}x{} {:?}", m.nrows(), m.ncols(), m.as_slice()) }
/// a function that can be slow for some columns
struct Slow(Prog, u64);
impl Function for Slow {
    fn n(&self) -> usize { self.0.n }
    fn m(&self) -> usize { self.0.outs.len() }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        let k = x.iter().position(|a| a.dvalue() != 0.0).unwrap_or(0) as u64;
        if (k + self.1) % 3 == 0 { std::thread::sleep(std::time::Duration::from_micros(300)); }
        PF(self.0.clone()).eval(x)
    }
}

fn jac(p: &Prog, x: &[f64]) -> DMatrix<f64> {
    let cols: Vec<Vec<f64>> = (0..p.n).map(|j| p.out(&p.duals(x, &unit(p.n, j), None))).collect();
    DMatrix::from_fn(p.outs.len(), p.n, |i, j| cols[j][i])
}

pub fn c11(t: &mut T) {
    let pools = pools();
    for (n, k) in [(2usize, 0usize), (2, 1), (2, 3), (0, 1), (3, 2), (3, 9), (1, 0)] {
        t.case(|| format!("forward driver: function of {n} inputs at a point of length {k}"), || {
            let f = PF(Prog { n, steps: vec![], outs: (0..n).collect() });
            req(panics(|| jacobian_forward(&f, &dv(&vec![1.0; k]))), || "accepted".into())
        });
    }
    for n in [1usize, 5, 24] { t.case(|| format!("identity of {n} inputs"), || {
        let f = PF(Prog { n, steps: vec![], outs: (0..n).collect() });
        let x = vec![0.7; n];
        for p in &pools { let (a, b) = p.install(|| (jacobian_forward(&f, &dv(&x)), { let tp = f.tape(&dv(&x)); jacobian_reverse(&*tp) })); req(a == DMatrix::identity(n, n) && b == DMatrix::identity(n, n), || format!("{} / {}", mm(&a), mm(&b)))?; }
        Ok(())
    }); }
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let n = r.range(0, 7);
        let x = pt(&mut r, n, 0.3, 2.2);
        let abs = r.chance(0.2);
        let mut p = some_prog(&mut r, &[x.clone()], abs);
        if n + p.steps.len() == 0 { continue; }
        if r.chance(0.3) { for _ in 0..r.below(8) { let o = r.below(n + p.steps.len()); p.outs.push(o); } }
        let raw = r.chance(0.5); let pool = r.below(3);
        let abs = !p.abs_args().is_empty();
        t.case(|| format!("{:?} at {:?}, {} threads", p, x, [1, 2, 7][pool]), || {
            let want = jac(&p, &x);
            let f = Slow(p.clone(), r.next() % 3);
            let a = if abs { None } else { Some(pools[pool].install(|| jacobian_forward(&f, &dv(&x)))) };
            if let Some(a) = &a { req(mclose(a, &want), || format!("forward driver gives {} instead of {}", mm(a), mm(&want)))?; }
            let tp: Box<dyn Tape> = if raw { Box::new(p.raw_tape(&mut r, &x)) } else { rec_tape(&p, &x) };
            if abs { return Ok(()); }
            let b = pools[pool].install(|| jacobian_reverse(&*tp));
            req(mclose(&b, &want), || format!("reverse driver gives {} instead of {}", mm(&b), mm(&want)))
        });
    }
}

/// Z, L, J, Y of a program at a point
pub fn anf(p: &Prog, x: &[f64]) -> [DMatrix<f64>; 4] {
    let args = p.abs_args(); let s = args.len(); let n = p.n; let m = p.outs.len();
    let zc: Vec<Vec<f64>> = (0..n).map(|j| p.duals(x, &unit(n, j), Some(&vec![0.0; s]))).collect();
    let lc: Vec<Vec<f64>> = (0..s).map(|j| p.duals(x, &vec![0.0; n], Some(&unit(s, j)))).collect();
    [DMatrix::from_fn(s, n, |i, j| zc[j][args[i]]), DMatrix::from_fn(s, s, |i, j| lc[j][args[i]]), DMatrix::from_fn(m, n, |i, j| zc[j][p.outs[i]]), DMatrix::from_fn(m, s, |i, j| lc[j][p.outs[i]])]
}
fn switching(p: &Prog, x: &[f64]) -> DVector<f64> { let v = p.vals(x); DVector::from_vec(p.abs_args().iter().map(|&a| v[a]).collect()) }
/// a program with many absolute values, piecewise linear with exact arithmetic when asked
pub fn abs_prog(r: &mut Rng, x: &[f64], exact: bool) -> Prog {
    let n = x.len();
    if !exact { return some_prog(r, &[x.to_vec()], true); }
    let mut p = Prog { n, steps: vec![], outs: vec![] };
    for _ in 0..r.range(1, 12) {
        let k = n + p.steps.len(); if k == 0 { break; }
        let a = if r.chance(0.6) { k - 1 - r.below(k.min(2)) } else { r.below(k) };
        p.steps.push(match r.below(6) { 0 | 1 | 2 => Step::Un(U::Abs, a), 3 => Step::Bin(B::Add, a, r.below(k)), 4 => Step::Bin(B::Sub, a, r.below(k)), _ => Step::BinR(B::Mul, a, *r.pick(&[2.0, -1.0, 0.5])) });
    }
    let k = n + p.steps.len();
    if k > 0 { for _ in 0..r.range(1, 4) { let o = k - 1 - r.below(k.min(5)); p.outs.push(o); } }
    p
}
fn exact_pt(r: &mut Rng, n: usize) -> Vec<f64> { (0..n).map(|_| *r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, -2.0])).collect() }

pub fn c12(t: &mut T) {
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let exact = r.chance(0.5);
        let n = r.range(0, 5);
        let x = if exact { exact_pt(&mut r, n) } else { pt(&mut r, n, 0.3, 2.2) };
        let p = abs_prog(&mut r, &x, exact);
        if p.outs.is_empty() { continue; }
        let dirs: Vec<Vec<f64>> = (0..4).map(|_| if exact { exact_pt(&mut r, n) } else { pt(&mut r, n, -3.0, 3.0) }).collect();
        t.case(|| format!("{:?} at {:?}, directions {:?}", p, x, dirs), || {
            let f = PF(p.clone());
            let g = abs_normal(&f, &dv(&x));
            let [z, l, j, y] = anf(&p, &x);
            let s = z.nrows();
            for (nm, a, b) in [("Z", &g.zmat, &z), ("L", &g.lmat, &l), ("J", &g.jmat, &j), ("Y", &g.ymat, &y)] { req(mclose(a, b), || format!("{nm} is {} instead of {}", mm(a), mm(b)))?; }
            for i in 0..s { for k in i..s { req(g.lmat[(i, k)] == 0.0, || format!("L is not strictly lower triangular: {}", mm(&g.lmat)))?; } }
            let zz = switching(&p, &x); let za = zz.map(|v| v.abs());
            let a = &zz - &l * &za; let b = -(&y * &za);
            req(vclose(&g.a, a.as_slice()), || format!("a is {:?} instead of {:?}", g.a.as_slice(), a.as_slice()))?;
            req(vclose(&g.b, b.as_slice()), || format!("b is {:?} instead of {:?}", g.b.as_slice(), b.as_slice()))?;
            let tp = f.tape(&dv(&x));
            for d in &dirs {
                let dx = dv(d); let mut dz = &g.a + &g.zmat * &dx;
                for i in 0..s { for k in 0..i { dz[i] += g.lmat[(i, k)] * dz[k].abs(); } }
                let dy = &g.b + &g.jmat * &dx + &g.ymat * dz.map(|v| v.abs());
                let want = p.out(&p.duals(&x, d, None));
                req(vclose(&dy, &want), || format!("increment in direction {d:?} is {:?} instead of {want:?}", dy.as_slice()))?;
                let fw = tp.first_order_forward(&dx);
                req(vclose(&fw, &want), || format!("forward sweep in direction {d:?} is {:?} instead of {want:?}", fw.as_slice()))?;
            }
            Ok(())
        });
    }
}

trait Op4 { fn size(&self) -> (usize, usize); fn right(&self, m: &DMatrix<f64>) -> DMatrix<f64>; fn rightv(&self, m: &DVector<f64>) -> DMatrix<f64>; fn left(&self, m: &DMatrix<f64>) -> DMatrix<f64>; fn row_(&self, i: usize) -> DMatrix<f64>; fn col_(&self, i: usize) -> DMatrix<f64>; }
macro_rules! op4 { ($($t:ident),*) => { $(impl<'a> Op4 for $t<'a> {
    fn size(&self) -> (usize, usize) { (self.nrows(), self.ncols()) }
    fn right(&self, m: &DMatrix<f64>) -> DMatrix<f64> { self.mul_right(m) }
    fn rightv(&self, m: &DVector<f64>) -> DMatrix<f64> { self.mul_right(m) }
    fn left(&self, m: &DMatrix<f64>) -> DMatrix<f64> { self.mul_left(m) }
    fn row_(&self, i: usize) -> DMatrix<f64> { self.row(i) }
    fn col_(&self, i: usize) -> DMatrix<f64> { self.column(i) }
})* } }
op4!(AbsNormalZ, AbsNormalL, AbsNormalJ, AbsNormalY);

pub fn c13(t: &mut T) {
    let pools = pools();
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let exact = r.chance(0.5);
        let n = r.range(0, 5);
        let x = if exact { exact_pt(&mut r, n) } else { pt(&mut r, n, 0.3, 2.2) };
        let mut p = abs_prog(&mut r, &x, exact);
        if n + p.steps.len() == 0 { continue; }
        if r.chance(0.2) { for _ in 0..r.below(7) { let o = r.below(n + p.steps.len()); p.outs.push(o); } }
        if r.chance(0.1) { p.outs.clear(); }
        let raw = r.chance(0.5); let w = r.below(4); let pool = r.below(3);
        let k = r.range(0, 9);
        t.case(|| format!("{} operator of {:?} at {:?}, operand of width {k}, {} threads", ["Z", "L", "J", "Y"][w], p, x, [1, 2, 7][pool]), || {
            let tp: Box<dyn Tape> = if raw { Box::new(p.raw_tape(&mut r, &x)) } else { rec_tape(&p, &x) };
            let at = AbsNormalTape::new(tp);
            let want = anf(&p, &x)[w].clone();
            let op: Box<dyn Op4> = match w { 0 => Box::new(AbsNormalZ::new(&at)), 1 => Box::new(AbsNormalL::new(&at)), 2 => Box::new(AbsNormalJ::new(&at)), _ => Box::new(AbsNormalY::new(&at)) };
            let (nr, nc) = op.size();
            req((nr, nc) == (want.nrows(), want.ncols()), || format!("size {nr}x{nc} instead of {}x{}", want.nrows(), want.ncols()))?;
            let rnd = |r: &mut Rng, a: usize, b: usize| DMatrix::from_fn(a, b, |_, _| (r.range(0, 16) as f64 - 8.0) / 4.0);
            let m = rnd(&mut r, nc, k); let q = rnd(&mut r, k, nr);
            struct S<'a>(&'a dyn Op4); unsafe impl Sync for S<'_> {} unsafe impl Send for S<'_> {}
            let o = S(&*op); let o = &o;
            let got = pools[pool].install(|| { let o: &S = o; o.0.right(&m) });
            req(mclose(&got, &(&want * &m)), || format!("times {} from the right gives {} instead of {}", mm(&m), mm(&got), mm(&(&want * &m))))?;
            let got = pools[pool].install(|| { let o: &S = o; o.0.left(&q) });
            req(mclose(&got, &(&q * &want)), || format!("times {} from the left gives {} instead of {}", mm(&q), mm(&got), mm(&(&q * &want))))?;
            if k > 0 { let v = m.column(0).into_owned(); let got = op.rightv(&v); req(mclose(&got, &(&want * DMatrix::from_column_slice(nc, 1, v.as_slice()))), || format!("times vector {:?} gives {}", v.as_slice(), mm(&got)))?; }
            for i in 0..nr { let g = op.row_(i); req(mclose(&g, &want.rows(i, 1).into_owned()), || format!("row {i} is {} instead of {}", mm(&g), mm(&want.rows(i, 1).into_owned())))?; }
            for i in 0..nc { let g = op.col_(i); req(mclose(&g, &want.columns(i, 1).into_owned()), || format!("column {i} is {} instead of {}", mm(&g), mm(&want.columns(i, 1).into_owned())))?; }
            for d in [0usize, 1, 2, nc + 1, nc + 3] { if d != nc { let kk = k.max(1); req(panics(|| op.right(&DMatrix::zeros(d, kk))), || format!("{d}x{kk} accepted from the right by a {nr}x{nc} operator"))?; } }
            for d in [0usize, 1, 2, nr + 1, nr + 3] { if d != nr { let kk = k.max(1); req(panics(|| op.left(&DMatrix::zeros(kk, d))), || format!("{kk}x{d} accepted from the left by a {nr}x{nc} operator"))?; } }
            if nc != 0 { req(panics(|| op.right(&DMatrix::zeros(0, 0))), || "0x0 accepted".into())?; }
            Ok(())
        });
    }
}

/// the generalized Jacobian by definition; None when a switching value of the increment is too close to zero to tell its sign
pub fn gen_jac(p: &Prog, x: &[f64], d: &[f64], bits: &[u8], exact: bool) -> Option<(DMatrix<f64>, DVector<f64>, usize)> {
    let [z, l, j, y] = anf(p, x);
    let s = z.nrows(); let m = p.outs.len();
    let zz = switching(p, x); let za = zz.map(|v| v.abs());
    let a = &zz - &l * &za; let b = -(&y * &za);
    let mut dz = &a + &z * dv(d);
    for i in 0..s { for k in 0..i { dz[i] += l[(i, k)] * dz[k].abs(); } }
    let mut k = 0; let mut sg = DVector::zeros(s);
    for i in 0..s {
        if !exact && dz[i].abs() < 1e-6 { return None; }
        sg[i] = if dz[i] < 0.0 { -1.0 } else if dz[i] > 0.0 { 1.0 } else { let bit = k / 8 < bits.len() && (bits[k / 8] >> (k % 8)) & 1 == 1; k += 1; if bit { 1.0 } else { -1.0 } };
    }
    // columns of (I - L S)^-1 by substitution
    let sub = |v: DVector<f64>| { let mut w = v; for i in 0..s { for q in 0..i { let e = l[(i, q)] * sg[q] * w[q]; w[i] += e; } } w };
    let ys = DMatrix::from_fn(m, s, |i, q| y[(i, q)] * sg[q]);
    let mut g = j.clone();
    for c in 0..p.n { let w = sub(z.column(c).into_owned()); let e = &ys * w; for i in 0..m { g[(i, c)] += e[i]; } }
    let o = &b + &ys * sub(a);
    Some((g, o, k))
}

pub fn c14(t: &mut T) {
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let exact = r.chance(0.75);
        let n = r.range(0, 5);
        let x = if exact { exact_pt(&mut r, n) } else { pt(&mut r, n, 0.3, 2.2) };
        let p = if exact && r.chance(0.25) {
            // many absolute values with zero arguments: uses several sign bytes
            if n == 0 { continue; }
            let mut p = Prog { n, steps: vec![], outs: vec![] };
            for _ in 0..r.range(7, 20) { let a = r.below(n); p.steps.push(Step::Un(U::Abs, a)); }
            for _ in 0..r.range(1, 3) { p.outs.push(n + r.below(p.steps.len())); }
            p
        } else { abs_prog(&mut r, &x, exact) };
        if p.outs.is_empty() { continue; }
        let d: Vec<f64> = if exact { if r.chance(0.3) { x.iter().map(|v| -v).collect() } else { (0..n).map(|_| *r.pick(&[0.0, 0.0, 1.0, -1.0, 2.0])).collect() } } else { pt(&mut r, n, -2.0, 2.0) };
        let bits: Vec<u8> = (0..r.below(4)).map(|_| r.next() as u8).collect();
        let m = p.outs.len(); let m2 = r.range(0, 4);
        let next = if r.chance(0.5) { Some(GeneralizedJacobian { homogenous: DMatrix::from_fn(m2, m, |_, _| (r.range(0, 8) as f64 - 4.0) / 2.0), inhomogenous: DVector::from_fn(m2, |_, _| (r.range(0, 8) as f64 - 4.0) / 2.0), multiplicity: r.below(5) }) } else { None };
        let bad = r.chance(0.1); let raw = r.chance(0.4);
        t.case(|| format!("{} {:?} at {:?}, direction {:?}, bits {:?}, next {:?}", if raw { "tape" } else { "function" }, p, x, d, bits, next), || {
            if bad { let l = if n == 0 { 1 } else { n - 1 }; req(panics(|| generalized_jacobian(&PF(p.clone()), &dv(&x), &dv(&vec![1.0; l]), &bits, None)), || "direction of the wrong length accepted".into())?; return req(panics(|| generalized_jacobian(&PF(p.clone()), &dv(&vec![1.0; l]), &dv(&d), &bits, None)), || "point of the wrong length accepted".into()); }
            let Some((g, o, k)) = gen_jac(&p, &x, &d, &bits, exact) else { return Ok(()) };
            let got = if raw { generalized_jacobian_tape(Box::new(p.raw_tape(&mut r, &x)), &dv(&d), &bits, next.clone()) } else { generalized_jacobian(&PF(p.clone()), &dv(&x), &dv(&d), &bits, next.clone()) };
            let (g, o, k) = match &next { Some(q) => (&q.homogenous * &g, &q.inhomogenous + &q.homogenous * &o, k + q.multiplicity), None => (g, o, k) };
            req(mclose(&got.homogenous, &g), || format!("matrix {} instead of {}", mm(&got.homogenous), mm(&g)))?;
            req(vclose(&got.inhomogenous, o.as_slice()), || format!("offset {:?} instead of {:?}", got.inhomogenous.as_slice(), o.as_slice()))?;
            req(got.multiplicity == k, || format!("multiplicity {} instead of {k}", got.multiplicity))
        });
    }
}

pub fn c15(t: &mut T) {
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let exact = r.chance(0.7);
        let n = r.range(1, 4);
        let x0 = if exact { exact_pt(&mut r, n) } else { pt(&mut r, n, 0.3, 2.2) };
        let sc = if exact { *r.pick(&[1.0, 1.0, 1.0, 1.0 / 256.0, 256.0, 4096.0]) } else { 1.0 };
        let d0: Vec<f64> = if exact { exact_pt(&mut r, n).iter().map(|v| v * sc).collect() } else { pt(&mut r, n, -1.0, 1.0) };
        let len = if r.chance(0.3) { r.range(1, 3) } else { r.range(1, 14) };
        let (mut xs, mut ds, mut ps) = (vec![x0.clone()], vec![d0.clone()], vec![]);
        for _ in 0..len {
            let x = xs.last().unwrap().clone(); let d = ds.last().unwrap().clone();
            let mut p = abs_prog(&mut r, &x, exact);
            if p.outs.is_empty() { p.outs.push(0); }
            if x.iter().any(|v| v.abs() > 20.0) || d.iter().any(|v| v.abs() > 20.0 * sc.max(1.0)) { p.steps.clear(); p.outs = vec![0]; }
            if exact { xs.push(p.out(&p.vals(&x))); ds.push(p.out(&p.duals(&x, &d, None))); }
            else { // rounding must not decide the sign of a switching value
                let y = PF(p.clone()).eval(DVector::from_iterator(x.len(), x.iter().zip(&d).map(|(a, b)| ADouble::new(*a, *b)))); xs.push(y.iter().map(|v| v.value()).collect()); ds.push(y.iter().map(|v| v.dvalue()).collect()); }
            ps.push(p);
        }
        let nest = r.chance(0.4);
        let mut cps: Vec<Option<usize>> = vec![None]; for _ in 0..3 { cps.push(Some(r.range(2, len + 4))); }
        t.case(|| format!("chain {:?} at {:?}, direction {:?}, checkpoints {:?}, {}", ps, x0, d0, cps, if nest { "nested" } else { "flat" }), || {
            let flat = || { let mut c = FunctionChain::new(PF(ps[0].clone())); for p in &ps[1..] { c.append(PF(p.clone())); } c };
            let mut nested = || { // split at random into sub-chains
                let mut parts: Vec<FunctionChain> = vec![]; let mut i = 0;
                while i < ps.len() { let k = 1 + r.below(3.min(ps.len() - i)); let mut c = FunctionChain::new(PF(ps[i].clone())); for p in &ps[i + 1..i + k] { c.append(PF(p.clone())); } parts.push(c); i += k; }
                let mut it = parts.into_iter(); let mut c = FunctionChain::new(it.next().unwrap()); for p in it { c.append(p); } c };
            // back to front, one function at a time, each at its own point and direction
            let k = xs.last().unwrap().len();
            let mut want = GeneralizedJacobian { homogenous: DMatrix::identity(k, k), inhomogenous: DVector::zeros(k), multiplicity: 0 };
            for i in (0..ps.len()).rev() { want = generalized_jacobian(&PF(ps[i].clone()), &dv(&xs[i]), &dv(&ds[i]), &[0], Some(want)); }
            for c in &cps {
                let ch = if nest { nested() } else { flat() };
                let got = generalized_jacobian_chain(&ch, dv(&x0), dv(&d0), *c);
                req(mclose(&got.homogenous, &want.homogenous) && vclose(&got.inhomogenous, want.inhomogenous.as_slice()) && got.multiplicity == want.multiplicity, || format!("checkpoints {c:?}: {got:?} instead of {want:?}"))?;
            }
            for c in [0usize, 1] { if ps.len() > 1 { let ch = flat(); req(panics(|| generalized_jacobian_chain(&ch, dv(&x0), dv(&d0), Some(c))), || format!("{c} checkpoints accepted"))?; } }
            Ok(())
        });
    }
}
