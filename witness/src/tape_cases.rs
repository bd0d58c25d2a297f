//! Tapes: replay, forward and reverse sweeps, against direct evaluation of the program.
use crate::prog::*;
use crate::util::*;
use advantage::*;

pub fn dv(v: &[f64]) -> DVector<f64> { DVector::from_vec(v.to_vec()) }
fn vecs(v: &DVector<f64>) -> Vec<f64> { v.iter().cloned().collect() }

/// a program with the features that matter: constants, several equal outputs, inputs as outputs, unused values
pub fn some_prog(r: &mut Rng, pts: &[Vec<f64>], abs: bool) -> Prog {
    let n = pts[0].len();
    let len = r.range(0, 14); let m = r.range(1, 5);
    let mut p = Prog::random(r, n, len, m, pts, abs);
    if r.chance(0.3) && !p.outs.is_empty() { let o = p.outs[0]; p.outs.push(o); }
    if r.chance(0.3) && n > 0 { let i = r.below(n); p.outs.push(i); }
    p
}
pub fn veq(a: &[f64], b: &[f64], f: impl Fn(f64, f64) -> bool) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| f(*x, *y)) }

/// the tape as the library records it, with constant dependents when asked
pub fn rec_tape(p: &Prog, x: &[f64]) -> Box<dyn Tape> { PF(p.clone()).tape(&dv(x)) }

pub fn c08(t: &mut T) {
    // fixed shapes
    t.case(|| "empty tape".into(), || {
        let mut r = RawTape { indeps: vec![], deps: vec![], ops: vec![], vals: vec![] };
        r.zero_order(&dv(&[]));
        req(r.x().len() == 0 && r.y().len() == 0 && r.num_abs() == 0 && r.num_indeps() == 0 && r.num_deps() == 0, || "sizes".into())
    });
    t.case(|| "dependents: an input twice, a constant, reversed order of independents".into(), || {
        let mut r = RawTape { indeps: vec![2, 0], deps: vec![0, 1, 0, 3, 2], ops: vec![Operation { opcode: OpCode::Const, vid: 1, arg1: None, arg2: None }, Operation { opcode: OpCode::Sub, vid: 3, arg1: Some(2), arg2: Some(0) }], vals: vec![5.0, 7.0, 6.0, 1.0] };
        r.zero_order(&dv(&[1.0, 4.0]));
        req(vecs(&r.x()) == vec![1.0, 4.0] && vecs(&r.y()) == vec![4.0, 7.0, 4.0, -3.0, 1.0], || format!("x {:?} y {:?}", r.x(), r.y()))
    });
    for bad in [0usize, 1, 3, 4, 7] {
        t.case(|| format!("point of length {bad} for a tape of 2 inputs"), || {
            let mut r = RawTape { indeps: vec![0, 1], deps: vec![2], ops: vec![Operation { opcode: OpCode::Mul, vid: 2, arg1: Some(0), arg2: Some(1) }], vals: vec![2.0, 3.0, 6.0] };
            let before = r.vals.clone();
            let p = panics(|| r.zero_order(&dv(&vec![9.0; bad])));
            req(p, || "accepted".into())?;
            req(r.vals == before, || format!("rejected, but the values changed to {:?}", r.vals))
        });
    }
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let n = r.range(0, 5);
        let wild = r.chance(0.3);
        let sp = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-310, -3.0, 1e300];
        let mut pts: Vec<Vec<f64>> = (0..3).map(|_| if wild { (0..n).map(|_| *r.pick(&sp)).collect() } else { pt(&mut r, n, 0.3, 2.2) }).collect();
        if wild && r.chance(0.5) { let k = r.below(3); pts[1] = pts[0].clone(); for (i, v) in pts[1].iter_mut().enumerate() { if i % 3 == k { *v = -*v; } } }
        let p = if wild { let (len, m) = (r.range(0, 6), r.range(1, 3)); Prog::random(&mut r, n, len, m, &[], true) } else { some_prog(&mut r, &pts, true) };
        let raw = r.chance(0.6);
        if n + p.steps.len() == 0 { continue; }
        t.case(|| format!("{} tape of {:?} recorded at {:?}, replayed at {:?}", if raw { "hand-built" } else { "recorded" }, p, pts[0], &pts[1..]), || {
            let mut tp: Box<dyn Tape> = if raw { Box::new(p.raw_tape(&mut r, &pts[0])) } else { rec_tape(&p, &pts[0]) };
            let consts: Vec<(usize, f64)> = tp.ops_iter().filter(|o| o.opcode == OpCode::Const).map(|o| (o.vid, tp.values()[o.vid])).collect();
            req(tp.num_indeps() == n && tp.num_deps() == p.outs.len(), || format!("sizes {} {}", tp.num_indeps(), tp.num_deps()))?;
            req(tp.num_abs() == p.abs_args().len(), || format!("num_abs {}", tp.num_abs()))?;
            for x in pts[1..].iter().chain(pts[..1].iter()) {
                tp.zero_order(&dv(x));
                let v = p.vals(x);
                req(veq(&vecs(&tp.x()), x, same), || format!("x() is {:?}", tp.x()))?;
                req(veq(&vecs(&tp.y()), &p.out(&v), same), || format!("y() is {:?} instead of {:?}", vecs(&tp.y()), p.out(&v)))?;
                for (i, c) in &consts { req(same(tp.values()[*i], *c), || format!("constant in slot {i} changed"))?; }
                // every operation holds in the stored values
                for o in tp.ops_iter() { if o.opcode != OpCode::Const && o.opcode != OpCode::Nop { let mut w = tp.values().to_vec(); o.zero_order(&mut w); req(same(w[o.vid], tp.values()[o.vid]), || format!("slot {} not consistent", o.vid))?; } }
            }
            Ok(())
        });
    }
}

fn vals_eq(a: &[f64], b: &[f64]) -> bool { veq(a, b, same) }

pub fn c09(t: &mut T) {
    t.case(|| "constant and unused slots, input as output".into(), || {
        let r = RawTape { indeps: vec![1, 0], deps: vec![0, 2, 3, 1], ops: vec![Operation { opcode: OpCode::Nop, vid: 0, arg1: None, arg2: None }, Operation { opcode: OpCode::Const, vid: 2, arg1: None, arg2: None }, Operation { opcode: OpCode::Div, vid: 3, arg1: Some(0), arg2: Some(1) }], vals: vec![6.0, 2.0, 8.0, 3.0] };
        let dy = vecs(&r.first_order_forward(&dv(&[4.0, 5.0])));
        req(veq(&dy, &[5.0, 0.0, -3.5, 4.0], close), || format!("{dy:?}"))
    });
    t.case(|| "powers with constant exponents and bases".into(), || {
        let op = |vid, a, b| Operation { opcode: OpCode::Powf, vid, arg1: Some(a), arg2: Some(b) };
        let k = |vid| Operation { opcode: OpCode::Const, vid, arg1: None, arg2: None };
        // (-2)^2, (-2)^3, 0^0 (x = 0), 0^1, 2^x
        let r = RawTape { indeps: vec![0, 1], deps: vec![6, 7, 8, 9, 10], ops: vec![k(2), k(3), k(4), k(5), op(6, 0, 2), op(7, 0, 3), op(8, 1, 4), op(9, 1, 5), op(10, 2, 0)], vals: vec![-2.0, 0.0, 2.0, 3.0, 0.0, 1.0, 4.0, -8.0, 1.0, 0.0, 0.25] };
        let dy = vecs(&r.first_order_forward(&dv(&[1.0, 1.0])));
        req(veq(&dy, &[-4.0, 12.0, 0.0, 1.0, 0.25 * 2f64.ln()], close), || format!("{dy:?}"))
    });
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let n = r.range(1, 5);
        let pts: Vec<Vec<f64>> = (0..2).map(|_| pt(&mut r, n, 0.3, 2.2)).collect();
        let abs = r.chance(0.4);
        let p = some_prog(&mut r, &pts, abs);
        let raw = r.chance(0.5);
        let zero = r.chance(0.2);
        let dx: Vec<f64> = (0..n).map(|_| if zero || r.chance(0.2) { 0.0 } else { r.f(-3.0, 3.0) }).collect();
        let dx2 = pt(&mut r, n, -2.0, 2.0);
        t.case(|| format!("{} tape of {:?} at {:?}, direction {:?}", if raw { "hand-built" } else { "recorded" }, p, pts, dx), || {
            let mut tp: Box<dyn Tape> = if raw { Box::new(p.raw_tape(&mut r, &pts[0])) } else { rec_tape(&p, &pts[0]) };
            for (k, x) in pts.iter().enumerate() {
                if k > 0 { tp.zero_order(&dv(x)); }
                let before = tp.values().to_vec();
                let dy = vecs(&tp.first_order_forward(&dv(&dx)));
                let want = p.out(&p.duals(x, &dx, None));
                req(veq(&dy, &want, close), || format!("at {x:?}: {dy:?} instead of {want:?}"))?;
                req(vals_eq(tp.values(), &before), || "the sweep changed the values".into())?;
                let act: Vec<ADouble> = x.iter().zip(&dx).map(|(a, b)| ADouble::new(*a, *b)).collect();
                let run: Vec<f64> = { let v = p.run(&act); p.outs.iter().map(|&i| v[i].dvalue()).collect() };
                req(veq(&dy, &run, close), || format!("at {x:?}: {dy:?}, but running the program on dual numbers gives {run:?}"))?;
                if !p.abs_args().is_empty() { continue; }
                let d2 = vecs(&tp.first_order_forward(&dv(&dx2)));
                let comb: Vec<f64> = dx.iter().zip(&dx2).map(|(a, b)| 2.0 * a - 3.0 * b).collect();
                let dc = vecs(&tp.first_order_forward(&dv(&comb)));
                let lin: Vec<f64> = dy.iter().zip(&d2).map(|(a, b)| 2.0 * a - 3.0 * b).collect();
                req(dc.iter().zip(&lin).all(|(a, b)| (a - b).abs() <= 1e-6 * (1.0 + b.abs())), || format!("not linear: {dc:?} instead of {lin:?}"))?;
            }
            Ok(())
        });
    }
}

pub fn c10(t: &mut T) {
    let op = |opcode, vid, a, b: Option<usize>| Operation { opcode, vid, arg1: Some(a), arg2: b };
    let k = |vid| Operation { opcode: OpCode::Const, vid, arg1: None, arg2: None };
    t.case(|| "same dependent three times, input and constant as dependents".into(), || {
        let r = RawTape { indeps: vec![0, 1], deps: vec![3, 3, 1, 2, 3, 3], ops: vec![k(2), op(OpCode::Mul, 3, 0, Some(1))], vals: vec![2.0, 3.0, 9.0, 6.0] };
        let xb = vecs(&r.first_order_reverse(&dv(&[1.0, 10.0, 100.0, 1000.0, 5.0, 7.0])));
        req(veq(&xb, &[69.0, 146.0], close), || format!("{xb:?}"))
    });
    t.case(|| "value used twice by one operation".into(), || {
        let r = RawTape { indeps: vec![0], deps: vec![1, 2, 3, 4], ops: vec![op(OpCode::Mul, 1, 0, Some(0)), op(OpCode::Sub, 2, 0, Some(0)), op(OpCode::Div, 3, 0, Some(0)), op(OpCode::Powf, 4, 0, Some(0))], vals: vec![2.0, 4.0, 0.0, 1.0, 4.0] };
        let xb = vecs(&r.first_order_reverse(&dv(&[1.0, 1.0, 1.0, 1.0])));
        req(veq(&xb, &[4.0 + 4.0 * (1.0 + 2f64.ln())], close), || format!("{xb:?}"))
    });
    t.case(|| "powers with constant exponent: negative base, zero base, exponent zero".into(), || {
        let r = RawTape { indeps: vec![0, 1], deps: vec![6, 7, 8, 9], ops: vec![k(2), k(3), k(4), k(5), op(OpCode::Powf, 6, 0, Some(2)), op(OpCode::Powf, 7, 0, Some(3)), op(OpCode::Powf, 8, 1, Some(4)), op(OpCode::Powf, 9, 1, Some(5))], vals: vec![-2.0, 0.0, 2.0, 3.0, 0.0, 1.0, 4.0, -8.0, 1.0, 0.0] };
        let xb = vecs(&r.first_order_reverse(&dv(&[1.0, 1.0, 1.0, 1.0])));
        req(veq(&xb, &[8.0, 1.0], close), || format!("{xb:?}"))
    });
    for pos in 0..4usize {
        t.case(|| format!("absolute value as operation {pos} of 4, its result used or not"), || {
            let mut ops: Vec<Operation> = (0..4).map(|i| op(OpCode::Sin, i + 1, if i + 1 == pos + 1 || i == 0 { 0 } else { i }, None)).collect();
            ops[pos].opcode = OpCode::Abs;
            for dep in [0usize, 4] {
                let r = RawTape { indeps: vec![0], deps: vec![dep], ops: ops.clone(), vals: vec![1.0; 5] };
                req(panics(|| r.first_order_reverse(&dv(&[1.0]))), || "accepted".into())?;
                req(panics(|| r.first_order_reverse(&dv(&[0.0]))), || "accepted with weight zero".into())?;
            }
            Ok(())
        });
    }
    while !t.stop() {
        let mut r = Rng(t.rng.next());
        let n = r.range(1, 5);
        let pts: Vec<Vec<f64>> = (0..2).map(|_| pt(&mut r, n, 0.3, 2.2)).collect();
        let p = some_prog(&mut r, &pts, false);
        let raw = r.chance(0.5);
        let m = p.outs.len();
        let yb: Vec<f64> = (0..m).map(|_| if r.chance(0.2) { 0.0 } else { r.f(-3.0, 3.0) }).collect();
        t.case(|| format!("{} tape of {:?} at {:?}, weights {:?}", if raw { "hand-built" } else { "recorded" }, p, pts, yb), || {
            let mut tp: Box<dyn Tape> = if raw { Box::new(p.raw_tape(&mut r, &pts[0])) } else { rec_tape(&p, &pts[0]) };
            for (k, x) in pts.iter().enumerate() {
                if k > 0 { tp.zero_order(&dv(x)); }
                let before = tp.values().to_vec();
                let xb = vecs(&tp.first_order_reverse(&dv(&yb)));
                req(xb.len() == n, || "size".into())?;
                req(vals_eq(tp.values(), &before), || "the sweep changed the values".into())?;
                for j in 0..n {
                    let mut e = vec![0.0; n]; e[j] = 1.0;
                    let dy = p.out(&p.duals(x, &e, None));
                    let want: f64 = yb.iter().zip(&dy).map(|(a, b)| a * b).sum();
                    let sc: f64 = 1.0 + yb.iter().zip(&dy).map(|(a, b)| (a * b).abs()).sum::<f64>();
                    req((xb[j] - want).abs() <= 1e-7 * sc, || format!("at {x:?}: entry {j} is {} instead of {want}", xb[j]))?;
                }
            }
            Ok(())
        });
    }
}
