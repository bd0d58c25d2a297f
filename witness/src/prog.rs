//! Straight-line programs with independent evaluation on plain numbers and duals.
use crate::util::*;
use advantage::*;
use num::Float;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum U { Sin, Cos, Tan, Abs, Exp, Ln, Asin, Acos, Atan }
pub const US: [U; 9] = [U::Sin, U::Cos, U::Tan, U::Abs, U::Exp, U::Ln, U::Asin, U::Acos, U::Atan];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Add, Sub, Mul, Div, Pow }
pub const BS: [B; 5] = [B::Add, B::Sub, B::Mul, B::Div, B::Pow];
/// one step; slots are the inputs followed by the results of the steps
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step { Un(U, usize), Bin(B, usize, usize), BinR(B, usize, f64), BinL(B, f64, usize), Asg(B, usize, usize), AsgR(B, usize, f64) }
#[derive(Clone, Debug)]
pub struct Prog { pub n: usize, pub steps: Vec<Step>, pub outs: Vec<usize> }

pub fn un(u: U, x: f64) -> f64 { match u { U::Sin => x.sin(), U::Cos => x.cos(), U::Tan => x.tan(), U::Abs => x.abs(), U::Exp => x.exp(), U::Ln => x.ln(), U::Asin => x.asin(), U::Acos => x.acos(), U::Atan => x.atan() } }
pub fn bin(b: B, x: f64, y: f64) -> f64 { match b { B::Add => x + y, B::Sub => x - y, B::Mul => x * y, B::Div => x / y, B::Pow => x.powf(y) } }
pub fn dun(u: U, x: f64, dx: f64) -> f64 {
    match u {
        U::Sin => x.cos() * dx, U::Cos => -x.sin() * dx, U::Tan => dx / (x.cos() * x.cos()), U::Abs => (x + dx).abs() - x.abs(),
        U::Exp => x.exp() * dx, U::Ln => dx / x, U::Asin => dx / (1.0 - x * x).sqrt(), U::Acos => -dx / (1.0 - x * x).sqrt(), U::Atan => dx / (1.0 + x * x),
    }
}
pub fn dbin(b: B, x: f64, y: f64, dx: f64, dy: f64) -> f64 {
    match b {
        B::Add => dx + dy, B::Sub => dx - dy, B::Mul => dx * y + x * dy, B::Div => dx / y - x * dy / (y * y),
        B::Pow => {
            let a = if dx == 0.0 || y == 0.0 { 0.0 } else { y * x.powf(y - 1.0) * dx };
            let c = if dy == 0.0 || (x == 0.0 && y > 0.0) { 0.0 } else { x.ln() * x.powf(y) * dy };
            a + c
        }
    }
}
/// partial derivatives
pub fn pbin(b: B, x: f64, y: f64) -> (f64, f64) { (dbin(b, x, y, 1.0, 0.0), dbin(b, x, y, 0.0, 1.0)) }

pub fn aun<S: Float>(u: U, x: S) -> S { match u { U::Sin => x.sin(), U::Cos => x.cos(), U::Tan => x.tan(), U::Abs => x.abs(), U::Exp => x.exp(), U::Ln => x.ln(), U::Asin => x.asin(), U::Acos => x.acos(), U::Atan => x.atan() } }
pub fn abin<S: Float>(b: B, x: S, y: S) -> S { match b { B::Add => x + y, B::Sub => x - y, B::Mul => x * y, B::Div => x / y, B::Pow => x.powf(y) } }
pub fn asg(b: B, x: ADouble, y: ADouble) -> ADouble { let mut r = x; match b { B::Add => r += y, B::Sub => r -= y, B::Mul => r *= y, B::Div => r /= y, B::Pow => r = r.powf(y) } r }
pub fn asg_r(b: B, x: ADouble, y: f64) -> ADouble { let mut r = x; match b { B::Add => r += y, B::Sub => r -= y, B::Mul => r *= y, B::Div => r /= y, B::Pow => r = r.powf(y.into()) } r }
pub fn bin_r(b: B, x: ADouble, y: f64) -> ADouble { match b { B::Add => x + y, B::Sub => x - y, B::Mul => x * y, B::Div => x / y, B::Pow => x.powf(ADouble::from(y)) } }
pub fn bin_l(b: B, x: f64, y: ADouble) -> ADouble { match b { B::Add => x + y, B::Sub => x - y, B::Mul => x * y, B::Div => x / y, B::Pow => ADouble::from(x).powf(y) } }

impl Prog {
    /// values of all slots
    pub fn vals(&self, x: &[f64]) -> Vec<f64> {
        let mut v = x.to_vec();
        for s in &self.steps {
            let r = match *s {
                Step::Un(u, a) => un(u, v[a]),
                Step::Bin(b, a, c) | Step::Asg(b, a, c) => bin(b, v[a], v[c]),
                Step::BinR(b, a, c) | Step::AsgR(b, a, c) => bin(b, v[a], c),
                Step::BinL(b, c, a) => bin(b, c, v[a]),
            };
            v.push(r);
        }
        v
    }
    /// derivative of all slots in direction dx; with `abs_as` the k-th absolute value has the given derivative
    pub fn duals(&self, x: &[f64], dx: &[f64], abs_as: Option<&[f64]>) -> Vec<f64> {
        let v = self.vals(x);
        let mut d = dx.to_vec();
        let mut k = 0;
        for s in &self.steps {
            let r = match *s {
                Step::Un(U::Abs, a) => { k += 1; if let Some(w) = abs_as { w[k - 1] } else { dun(U::Abs, v[a], d[a]) } }
                Step::Un(u, a) => dun(u, v[a], d[a]),
                Step::Bin(b, a, c) | Step::Asg(b, a, c) => dbin(b, v[a], v[c], d[a], d[c]),
                Step::BinR(b, a, c) | Step::AsgR(b, a, c) => dbin(b, v[a], c, d[a], 0.0),
                Step::BinL(b, c, a) => dbin(b, c, v[a], 0.0, d[a]),
            };
            d.push(r);
        }
        d
    }
    pub fn abs_args(&self) -> Vec<usize> { self.steps.iter().filter_map(|s| if let Step::Un(U::Abs, a) = s { Some(*a) } else { None }).collect() }
    pub fn out(&self, v: &[f64]) -> Vec<f64> { self.outs.iter().map(|&i| v[i]).collect() }
    /// the program on active numbers
    pub fn run(&self, x: &[ADouble]) -> Vec<ADouble> {
        let mut v = x.to_vec();
        for s in &self.steps {
            let r = match *s {
                Step::Un(u, a) => aun(u, v[a]),
                Step::Bin(b, a, c) => abin(b, v[a], v[c]),
                Step::Asg(b, a, c) => asg(b, v[a], v[c]),
                Step::BinR(b, a, c) => bin_r(b, v[a], c),
                Step::AsgR(b, a, c) => asg_r(b, v[a], c),
                Step::BinL(b, c, a) => bin_l(b, c, v[a]),
            };
            v.push(r);
        }
        v
    }
    /// random program whose operations are well defined at all the points
    pub fn random(r: &mut Rng, n: usize, len: usize, m: usize, pts: &[Vec<f64>], abs: bool) -> Prog {
        let mut p = Prog { n, steps: vec![], outs: vec![] };
        let mut tries = 0;
        while p.steps.len() < len && tries < len * 40 {
            tries += 1;
            let k = n + p.steps.len();
            if k == 0 { break; }
            let a = if r.chance(0.5) { k - 1 - r.below(k.min(3)) } else { r.below(k) };
            let b = r.below(k);
            let op = *r.pick(&BS);
            let c = *r.pick(&[2.0, 3.0, 0.5, -1.5, 1.0, 0.25, -2.0]);
            let s = match r.below(8) {
                0 | 1 => { let u = *r.pick(&US); if u == U::Abs && !abs { continue; } Step::Un(u, a) }
                2 if abs => Step::Un(U::Abs, a),
                2 | 3 | 4 => Step::Bin(op, a, b),
                5 => Step::BinR(op, a, c),
                6 => Step::BinL(op, c, a),
                _ => if r.chance(0.5) { Step::Asg(op, a, b) } else { Step::AsgR(op, a, c) },
            };
            p.steps.push(s);
            if !pts.iter().all(|x| p.tame(x)) { p.steps.pop(); }
        }
        let k = n + p.steps.len();
        if k > 0 { for _ in 0..m { let o = if r.chance(0.7) { k - 1 - r.below(k.min(4)) } else { r.below(k) }; p.outs.push(o); } }
        p
    }
    /// the last step is well inside the domain and of moderate size
    fn tame(&self, x: &[f64]) -> bool {
        let v = self.vals(x);
        let r = *v.last().unwrap();
        if !r.is_finite() || r.abs() > 50.0 { return false; }
        let okb = |b: B, p: f64, q: f64| match b { B::Div => q.abs() > 0.2, B::Pow => p > 0.2 && p < 10.0 && q.abs() < 4.0, _ => true };
        match *self.steps.last().unwrap() {
            Step::Un(u, a) => { let y = v[a]; match u { U::Ln => y > 0.2, U::Asin | U::Acos => y.abs() < 0.9, U::Tan => y.cos().abs() > 0.3, U::Exp => y < 3.0, U::Abs => true, _ => true } }
            Step::Bin(b, p, q) | Step::Asg(b, p, q) => okb(b, v[p], v[q]),
            Step::BinR(b, p, c) | Step::AsgR(b, p, c) => okb(b, v[p], c) || (b == B::Pow && c == 2.0 && v[p].abs() > 0.1),
            Step::BinL(b, c, q) => okb(b, c, v[q]),
        }
    }
}

/// the program as a function object
pub struct PF(pub Prog);
impl Function for PF {
    fn n(&self) -> usize { self.0.n }
    fn m(&self) -> usize { self.0.outs.len() }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        let v = self.0.run(x.as_slice());
        DVector::from_vec(self.0.outs.iter().map(|&i| v[i]).collect())
    }
}

/// a tape given by its parts
#[derive(Debug, Clone)]
pub struct RawTape { pub indeps: Vec<usize>, pub deps: Vec<usize>, pub ops: Vec<Operation>, pub vals: Vec<f64> }
impl Tape for RawTape {
    fn indeps(&self) -> &[usize] { &self.indeps }
    fn deps(&self) -> &[usize] { &self.deps }
    fn values(&self) -> &[f64] { &self.vals }
    fn values_mut(&mut self) -> &mut [f64] { &mut self.vals }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = Operation> + 'a> { Box::new(self.ops.iter().cloned()) }
}
pub fn uop(u: U) -> OpCode { match u { U::Sin => OpCode::Sin, U::Cos => OpCode::Cos, U::Tan => OpCode::Tan, U::Abs => OpCode::Abs, U::Exp => OpCode::Exp, U::Ln => OpCode::Ln, U::Asin => OpCode::Asin, U::Acos => OpCode::Acos, U::Atan => OpCode::Atan } }
pub fn bop(b: B) -> OpCode { match b { B::Add => OpCode::Add, B::Sub => OpCode::Sub, B::Mul => OpCode::Mul, B::Div => OpCode::Div, B::Pow => OpCode::Powf } }

impl Prog {
    /// a hand-built tape of the program: slots permuted (order of use kept), unused operations and constants interspersed
    pub fn raw_tape(&self, r: &mut Rng, x: &[f64]) -> RawTape {
        let v = self.vals(x);
        let total = v.len();
        let mut t = RawTape { indeps: vec![], deps: vec![], ops: vec![], vals: vec![] };
        let mut slot = vec![0usize; total];
        // independents may be declared late and in any order, but before their first use
        let mut order: Vec<usize> = (0..self.n).collect();
        for i in (1..self.n).rev() { let j = r.below(i + 1); order.swap(i, j); }
        let mut at = vec![0usize; self.n];
        for &i in &order { slot[i] = t.vals.len(); t.vals.push(v[i]); at[i] = slot[i]; if r.chance(0.2) { let s = t.vals.len(); t.vals.push(r.f(-2.0, 2.0)); t.ops.push(Operation { opcode: OpCode::Const, vid: s, arg1: None, arg2: None }); } }
        t.indeps = at;
        for (k, s) in self.steps.iter().enumerate() {
            if r.chance(0.1) { t.ops.push(Operation { opcode: OpCode::Nop, vid: 0, arg1: None, arg2: None }); }
            let cst = |t: &mut RawTape, c: f64| { let s = t.vals.len(); t.vals.push(c); t.ops.push(Operation { opcode: OpCode::Const, vid: s, arg1: None, arg2: None }); s };
            let (oc, a, b) = match *s {
                Step::Un(u, a) => (uop(u), slot[a], None),
                Step::Bin(b, a, c) | Step::Asg(b, a, c) => (bop(b), slot[a], Some(slot[c])),
                Step::BinR(b, a, c) | Step::AsgR(b, a, c) => { let q = cst(&mut t, c); (bop(b), slot[a], Some(q)) }
                Step::BinL(b, c, a) => { let q = cst(&mut t, c); (bop(b), q, Some(slot[a])) }
            };
            let s = t.vals.len();
            t.vals.push(v[self.n + k]);
            slot[self.n + k] = s;
            t.ops.push(Operation { opcode: oc, vid: s, arg1: Some(a), arg2: b });
        }
        t.deps = self.outs.iter().map(|&i| slot[i]).collect();
        t
    }
}
pub fn pt(r: &mut Rng, n: usize, a: f64, b: f64) -> Vec<f64> { (0..n).map(|_| r.f(a, b)).collect() }
