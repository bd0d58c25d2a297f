//! C01 - C04: active numbers.
use crate::prog::*;
use crate::util::*;
use advantage::*;
use num::{Float, NumCast, One, ToPrimitive, Zero, Num};

const V: [f64; 17] = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.7, -0.3, 1e-9, 1e9, 1e300, 1e-310, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];

/// variant of how an operand belongs to a recording
fn mk(ctx: &mut Option<AContext>, v: f64, dv: f64, rec: bool) -> ADouble { let mut a = ADouble::new(v, dv); if rec { if let Some(c) = ctx { c.set_indep(&mut a); } } a }

pub fn c01(t: &mut T) {
    let mut vs: Vec<f64> = V.to_vec();
    for _ in 0..if t.thorough { 200 } else { 8 } { let e = t.rng.f(-3.0, 3.0); vs.push(e.exp() * if t.rng.chance(0.5) { 1.0 } else { -1.0 }); }
    for &u in &US { for &x in &vs { for rec in [0, 1, 2] {
        let dv = [0.0, 1.5, f64::NAN][t.rng.below(3)];
        t.case(|| format!("{u:?}({x:?}) dv={dv} membership={rec}"), || {
            let mut ctx = if rec > 0 { Some(AContext::new()) } else { None };
            let a = mk(&mut ctx, x, dv, rec > 0);
            if rec == 2 { drop(ctx); }
            let r = aun(u, a).value();
            req(same(r, un(u, x)), || format!("value {r:?}, expected {:?}", un(u, x)))
        });
        t.case(|| format!("f32 {u:?}({x:?})"), || { let a = ASingle::new(x as f32, 0.0); let r = aun(u, a).value(); let e = aun::<f32>(u, x as f32); req(r.to_bits() == e.to_bits() || (r.is_nan() && e.is_nan()), || format!("value {r:?}, expected {e:?}")) });
    } } }
    for &b in &BS { for &x in &vs { for &y in &vs { 
        let e = bin(b, x, y);
        let m = t.rng.below(5);
        let (d1, d2) = ([0.0, 1.0, -2.5][t.rng.below(3)], [0.0, 1.0, -2.5][t.rng.below(3)]);
        t.case(|| format!("{x:?} {b:?} {y:?} derivatives ({d1}, {d2}) membership={m}"), || {
            let mut ctx = if m > 0 { Some(AContext::new()) } else { None };
            let a = mk(&mut ctx, x, d1, m == 1 || m == 3 || m == 4); let c = mk(&mut ctx, y, d2, m == 2 || m == 3 || m == 4);
            if m == 4 { ctx = None; }
            let _k = &ctx;
            for (n, r) in [("operator", abin(b, a, c)), ("right f64", bin_r(b, a, y)), ("left f64", bin_l(b, x, c)), ("assign", asg(b, a, c)), ("assign f64", asg_r(b, a, y))] {
                req(same(r.value(), e), || format!("{n}: value {:?}, expected {e:?}", r.value()))?;
            }
            Ok(())
        });
        if t.stop() { return; }
    } } }
    for &b in &BS { for &x in &vs { for &y in &vs {
        t.case(|| format!("f32 {x:?} {b:?} {y:?}"), || { let (p, q) = (x as f32, y as f32); let r = abin(b, ASingle::new(p, 0.5), ASingle::new(q, 0.0)).value(); let e = abin::<f32>(b, p, q); req(r.to_bits() == e.to_bits() || (r.is_nan() && e.is_nan()), || format!("value {r:?}, expected {e:?}")) });
    } } }
}

fn dom_un(u: U, x: f64) -> bool { match u { U::Tan => x.cos() != 0.0, U::Ln => x > 0.0, U::Asin | U::Acos => -1.0 < x && x < 1.0, _ => true } }
fn dom_bin(b: B, x: f64, y: f64, dx: f64, dy: f64) -> bool {
    match b { B::Div => y != 0.0, B::Pow => x > 0.0 || (x == 0.0 && y == 0.0 && dy == 0.0) || (x == 0.0 && y > 0.0 && (dx == 0.0 || y >= 1.0)) || (x < 0.0 && y == y.floor() && dy == 0.0), _ => true }
}

pub fn c02(t: &mut T) {
    let base = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 0.3, 1.5, -0.7, 0.9];
    let ds = [0.0, 1.0, -1.0, 2.5, -0.4];
    let mut vs = base.to_vec();
    for _ in 0..if t.thorough { 60 } else { 4 } { let x = t.rng.f(-4.0, 4.0); vs.push(x); }
    for &u in &US { for &x in &vs { if !dom_un(u, x) { continue; } for &dx in &ds { for rec in [false, true] {
        t.case(|| format!("{u:?}({x:?}) derivative {dx} recorded={rec}"), || {
            let mut ctx = Some(AContext::new());
            let r = aun(u, mk(&mut ctx, x, dx, rec)).dvalue(); let e = dun(u, x, dx);
            req(close(r, e) && r.is_finite(), || format!("derivative {r:?}, expected {e:?}"))
        });
        t.case(|| format!("f32 {u:?}({x:?}) derivative {dx}"), || { let r = aun(u, ASingle::new(x as f32, dx as f32)).dvalue(); let e = dun(u, x as f32 as f64, dx as f32 as f64); req((r as f64 - e).abs() <= 1e-3 * (1.0 + e.abs()), || format!("derivative {r:?}, expected {e:?}")) });
    } } } }
    for &b in &BS { for &x in &vs { for &y in &vs { for &dx in &ds { for &dy in &ds {
        let rec = t.rng.below(4);
        let all = dom_bin(b, x, y, dx, dy);
        if all { t.case(|| format!("{x:?} {b:?} {y:?} derivatives ({dx}, {dy}) membership={rec}"), || {
            let e = dbin(b, x, y, dx, dy);
            let mut ctx = Some(AContext::new());
            let a = mk(&mut ctx, x, dx, rec & 1 > 0); let c = mk(&mut ctx, y, dy, rec & 2 > 0);
            for (n, r) in [("operator", abin(b, a, c)), ("assign", asg(b, a, c))] { req(close(r.dvalue(), e) && r.dvalue().is_finite(), || format!("{n}: derivative {:?}, expected {e:?}", r.dvalue()))?; }
            Ok(())
        }); }
        if dy == 0.0 && dom_bin(b, x, y, dx, 0.0) { t.case(|| format!("{x:?} {b:?} plain {y:?} derivative {dx}"), || { let e = dbin(b, x, y, dx, 0.0);
            for (n, r) in [("right f64", bin_r(b, ADouble::new(x, dx), y)), ("assign f64", asg_r(b, ADouble::new(x, dx), y))] { req(close(r.dvalue(), e) && r.dvalue().is_finite(), || format!("{n}: derivative {:?}, expected {e:?}", r.dvalue()))?; } Ok(()) }); }
        if dx == 0.0 && dom_bin(b, x, y, 0.0, dy) { t.case(|| format!("plain {x:?} {b:?} {y:?} derivative {dy}"), || { let e = dbin(b, x, y, 0.0, dy); let r = bin_l(b, x, ADouble::new(y, dy)).dvalue(); req(close(r, e) && r.is_finite(), || format!("left f64: derivative {r:?}, expected {e:?}")) }); }
        if t.stop() { return; }
    } } } } }
}

pub fn c03(t: &mut T) {
    let mut vs = vec![0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, 8.0, 0.3, -0.7, 10.0];
    for _ in 0..if t.thorough { 40 } else { 4 } { let x = t.rng.f(-4.0, 4.0); vs.push(x); }
    let ds = [0.0, 1.0, -2.5];
    macro_rules! one { ($name:expr, $f:expr, $g:expr, $d:expr, $dom:expr) => { for &x in &vs { if !$dom(x) { continue; } for &dx in &ds { for rec in [false, true] { t.case(|| format!("{}({x:?}) derivative {dx} recorded={rec}", $name), || {
        let mut ctx = Some(AContext::new());
        let r: ADouble = $f(mk(&mut ctx, x, dx, rec)); let (e, d): (f64, f64) = ($g(x), $d(x, dx));
        req(close(r.value(), e), || format!("value {:?}, expected {e:?}", r.value()))?;
        req(close(r.dvalue(), d), || format!("derivative {:?}, expected {d:?}", r.dvalue()))
    }); } } } } }
    let ln2 = 2f64.ln(); let ln10 = 10f64.ln();
    one!("neg", |a: ADouble| -a, |x: f64| -x, |_x: f64, d: f64| -d, |_x: f64| true);
    one!("recip", |a: ADouble| a.recip(), |x: f64| x.recip(), |x: f64, d: f64| -d / (x * x), |x: f64| x != 0.0);
    one!("sqrt", |a: ADouble| a.sqrt(), |x: f64| x.sqrt(), |x: f64, d: f64| d / (2.0 * x.sqrt()), |x: f64| x > 0.0);
    one!("exp2", |a: ADouble| a.exp2(), |x: f64| x.exp2(), |x: f64, d: f64| d * ln2 * x.exp2(), |_x: f64| true);
    one!("log2", |a: ADouble| a.log2(), |x: f64| x.log2(), |x: f64, d: f64| d / (x * ln2), |x: f64| x > 0.0);
    one!("log10", |a: ADouble| a.log10(), |x: f64| x.log10(), |x: f64, d: f64| d / (x * ln10), |x: f64| x > 0.0);
    one!("cbrt", |a: ADouble| a.cbrt(), |x: f64| x.cbrt(), |x: f64, d: f64| d / (3.0 * x.cbrt() * x.cbrt()), |x: f64| x > 0.0);
    one!("sin_cos.0", |a: ADouble| a.sin_cos().0, |x: f64| x.sin(), |x: f64, d: f64| d * x.cos(), |_x: f64| true);
    one!("sin_cos.1", |a: ADouble| a.sin_cos().1, |x: f64| x.cos(), |x: f64, d: f64| -d * x.sin(), |_x: f64| true);
    for n in -3i32..=5 { one!(format!("powi {n}"), |a: ADouble| a.powi(n), |x: f64| x.powi(n), |x: f64, d: f64| if n == 0 { 0.0 } else { n as f64 * x.powi(n - 1) * d }, |x: f64| x != 0.0 || n >= 0); }
    // sqrt at zero: the value
    t.case(|| "sqrt(0) value".into(), || req(ADouble::new(0.0, 0.0).sqrt().value() == 0.0, || "not zero".into()));
    macro_rules! two { ($name:expr, $f:expr, $g:expr, $d:expr, $dom:expr) => { for &x in &vs { for &y in &vs { if !$dom(x, y) { continue; } for &dx in &ds { for &dy in &ds { let rec = t.rng.below(4); t.case(|| format!("{}({x:?}, {y:?}) derivatives ({dx}, {dy}) membership={rec}", $name), || {
        let mut ctx = Some(AContext::new());
        let r: ADouble = $f(mk(&mut ctx, x, dx, rec & 1 > 0), mk(&mut ctx, y, dy, rec & 2 > 0)); let (e, d): (f64, f64) = ($g(x, y), $d(x, y, dx, dy));
        req(close(r.value(), e), || format!("value {:?}, expected {e:?}", r.value()))?;
        req(close(r.dvalue(), d), || format!("derivative {:?}, expected {d:?}", r.dvalue()))
    }); } } } } } }
    two!("log", |a: ADouble, b: ADouble| a.log(b), |x: f64, y: f64| x.log(y), |x: f64, y: f64, dx: f64, dy: f64| (dx / x * y.ln() - x.ln() * dy / y) / (y.ln() * y.ln()), |x: f64, y: f64| x > 0.0 && y > 0.0 && (y - 1.0).abs() > 0.05);
    two!("max", |a: ADouble, b: ADouble| a.max(b), |x: f64, y: f64| x.max(y), |x: f64, y: f64, dx: f64, dy: f64| (x + dx).max(y + dy) - x.max(y), |_x: f64, _y: f64| true);
    two!("min", |a: ADouble, b: ADouble| a.min(b), |x: f64, y: f64| x.min(y), |x: f64, y: f64, dx: f64, dy: f64| (x + dx).min(y + dy) - x.min(y), |_x: f64, _y: f64| true);
    two!("abs_sub", |a: ADouble, b: ADouble| a.abs_sub(b), |x: f64, y: f64| (x - y).max(0.0), |x: f64, y: f64, dx: f64, dy: f64| (x - y + dx - dy).max(0.0) - (x - y).max(0.0), |_x: f64, _y: f64| true);
    two!("hypot", |a: ADouble, b: ADouble| a.hypot(b), |x: f64, y: f64| x.hypot(y), |x: f64, y: f64, dx: f64, dy: f64| (x * dx + y * dy) / x.hypot(y), |x: f64, y: f64| x != 0.0 || y != 0.0);
    two!("mul_add", |a: ADouble, b: ADouble| a.mul_add(b, ADouble::new(1.5, 0.25)), |x: f64, y: f64| x * y + 1.5, |x: f64, y: f64, dx: f64, dy: f64| dx * y + x * dy + 0.25, |_x: f64, _y: f64| true);
    // known finding: cbrt of a negative number
    for &x in &vs { if x < 0.0 { let r = ADouble::new(x, 1.0).cbrt(); if !close(r.value(), x.cbrt()) { if r.value().is_nan() { if t.known.is_empty() { t.known.push(format!("cbrt of a negative active number is NaN: cbrt({x:?}) = NaN, plain cbrt = {:?}", x.cbrt())); } } else { t.case(|| format!("cbrt({x:?})"), || Err(format!("value {:?}", r.value()))); } } } }
}

pub fn c04(t: &mut T) {
    let mut vs = V.to_vec();
    vs.extend([f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 255.9, -128.5, 65536.0, 4294967296.0, 1e18, 1e19, 1e20, -1e19]);
    for _ in 0..if t.thorough { 100 } else { 10 } { let x = t.rng.f(-300.0, 300.0); vs.push(x); }
    fn ctxf(rec: bool, x: f64, d: f64) -> (Option<AContext>, ADouble) { let mut a = ADouble::new(x, d); if rec { let mut c = AContext::new(); c.set_indep(&mut a); (Some(c), a) } else { (None, a) } }
    for &x in &vs { for rec in [false, true] { for d in [0.0, 3.0, f64::NAN] { t.case(|| format!("predicates and conversions of {x:?}, derivative {d}, recorded={rec}"), || {
        let (_c, a) = ctxf(rec, x, d);
        macro_rules! p { ($($m:ident)*) => { $( let (r, e) = (Float::$m(a), Float::$m(x)); req(r == e, || format!("{}: {r:?}, expected {e:?}", stringify!($m)))?; )* } }
        p!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative classify integer_decode);
        macro_rules! q { ($($m:ident)*) => { $( let (r, e) = (ToPrimitive::$m(&a), ToPrimitive::$m(&x)); req(format!("{r:?}") == format!("{e:?}"), || format!("{}: {r:?}, expected {e:?}", stringify!($m)))?; )* } }
        q!(to_i8 to_i16 to_i32 to_i64 to_isize to_u8 to_u16 to_u32 to_u64 to_usize to_f32 to_f64);
        req(a.is_zero() == x.is_zero() && a.is_one() == x.is_one(), || "is_zero / is_one".into())?;
        let b = <ADouble as NumCast>::from(a).unwrap(); req(same(b.value(), x) && b.dvalue() == 0.0, || format!("NumCast gives {b:?}"))?;
        let b = <ADouble as From<f64>>::from(x); req(same(b.value(), x) && b.dvalue() == 0.0, || format!("From gives {b:?}"))?;
        let b = ASingle::cast(a); req((b.value().to_bits() == (x as f32).to_bits() || x.is_nan()) && (b.dvalue() as f64 == d || d.is_nan() && b.dvalue().is_nan()), || format!("cast to f32 gives {b:?}"))?;
        let b = ADouble::cast(a); req(same(b.value(), x) && same(b.dvalue(), d), || format!("cast gives {b:?}"))?;
        req(format!("{:?}", b) == format!("{:?}", a), || format!("cast gives {b:?} for {a:?}"))?;
        fn tail<X: std::fmt::Debug>(x: &X) -> String { let s = format!("{x:?}"); s[s.find("ctx").unwrap_or(0)..].to_string() }
        let n = ASingle::cast(a); let w = ADouble::cast(n); let n2 = ASingle::cast(n);
        req(tail(&n) == tail(&a) && tail(&w) == tail(&a) && tail(&n2) == tail(&a), || format!("membership lost: {a:?} -> {n:?} -> {w:?}"))
    }); } } }
    for &x in &vs { for &y in &vs { let m = t.rng.below(4); t.case(|| format!("compare {x:?} {y:?} membership={m}"), || {
        let (_c, a) = ctxf(m & 1 > 0, x, 1.0); let (_d, b) = ctxf(m & 2 > 0, y, if m == 0 { 1.0 } else { -7.0 });
        req((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && a.partial_cmp(&b) == x.partial_cmp(&y), || "a comparison differs".into())
    }); } }
    t.case(|| "constants".into(), || {
        macro_rules! p { ($($m:ident)*) => { $( let (r, e): (ADouble, f64) = (Float::$m(), Float::$m()); req(same(r.value(), e) && r.dvalue() == 0.0 && format!("{r:?}").contains("None"), || format!("{}: {r:?}, expected {e:?}", stringify!($m)))?;
            let (r, e): (ASingle, f32) = (Float::$m(), Float::$m()); req(same(r.value() as f64, e as f64) && r.dvalue() == 0.0, || format!("f32 {}: {r:?}, expected {e:?}", stringify!($m)))?; )* } }
        p!(nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
        req(ADouble::zero().value() == 0.0 && ADouble::zero().dvalue() == 0.0 && ADouble::one().value() == 1.0 && ADouble::one().dvalue() == 0.0, || "zero / one".into())
    });
    for s in ["1.5", "-7", "0", "10", "zz", ""] { t.case(|| format!("parse {s:?}"), || { let r = ADouble::from_str_radix(s, 10); let e = f64::from_str_radix(s, 10); req(match (&r, &e) { (Ok(a), Ok(b)) => a.value() == *b && a.dvalue() == 0.0, (Err(_), Err(_)) => true, _ => false }, || format!("{:?}", r.is_ok())) }); }
    t.case(|| "parse radix 2".into(), || req(ADouble::from_str_radix("101", 2).unwrap().value() == 5.0, || "101 base 2".into()));
    for i in [0i64, 5, -7, i64::MAX] { t.case(|| format!("NumCast from {i}"), || { let r = <ADouble as NumCast>::from(i).unwrap(); req(r.value() == i as f64 && r.dvalue() == 0.0, || format!("{r:?}")) }); }
    for &x in &[0.5, 1.5, -0.5] { t.case(|| format!("unsupported operations at {x}"), || {
        let a = ADouble::new(x, 1.0);
        macro_rules! p { ($($m:ident)*) => { $( req(panics(|| a.$m()), || format!("{} returned", stringify!($m)))?; )* } }
        p!(floor ceil round trunc fract signum exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
        req(panics(|| a.atan2(a)), || "atan2 returned".into())?; req(panics(|| a % a), || "% returned".into())
    }); }
    t.case(|| "value_mut / dvalue_mut".into(), || { let mut a = ADouble::new(1.0, 2.0); *a.value_mut() = 5.0; *a.dvalue_mut() = 6.0; req(a.value() == 5.0 && a.dvalue() == 6.0, || format!("{a:?}")) });
}
