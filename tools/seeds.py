"""Planted bugs: written from the property text and the code, before looking at what the checks cover."""
SEEDS = {}
def S(i, prop, edits, demo, needs, breaks, **k): SEEDS[i] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)
OP, AFL = 'src/operation.rs', 'src/afloat.rs'
PRE = '#[allow(unused_imports)] use advantage::prelude::*;\n#[allow(unused_imports)] use advantage::*;\n#[allow(unused_imports)] use num::Float;\n'

S('c01-mul-zero', 'C01', [(OP, 'OpCode::Mul => arg1 * arg2.unwrap(),', 'OpCode::Mul => {\n            let arg2 = arg2.unwrap();\n            if arg1.is_zero() || arg2.is_zero() {\n                S::zero()\n            } else {\n                arg1 * arg2\n            }\n        }')],
  PRE + '''fn main() {
    let z = ADouble::new(0.0, 1.0); let i = ADouble::new(f64::INFINITY, 0.0);
    assert!((z * i).value().is_nan());
    let m = ADouble::new(-3.0, 0.0) * 0.0;
    assert!(m.value().is_sign_negative());
}''', 'a zero factor together with an infinite, NaN or negative one', 'the value of a product is not the plain product')
S('c01-powf-half', 'C01', [(OP, 'OpCode::Powf => arg1.powf(arg2.unwrap()),', 'OpCode::Powf => {\n            let arg2 = arg2.unwrap();\n            if arg2 + arg2 == S::one() {\n                arg1.sqrt()\n            } else {\n                arg1.powf(arg2)\n            }\n        }')],
  PRE + '''fn main() {
    let r = ADouble::new(f64::NEG_INFINITY, 0.0).powf(ADouble::new(0.5, 0.0));
    assert_eq!(r.value().to_bits(), f64::NEG_INFINITY.powf(0.5).to_bits());
}''', 'exponent one half with a base of minus infinity (or minus zero)', 'powf is replaced by sqrt, which differs on these inputs')
S('c02-abs-kink', 'C02', [(OP, 'OpCode::Abs => (arg1 + darg1).abs() - arg1.abs(),', 'OpCode::Abs => {\n            if (arg1 + darg1) * arg1 < S::zero() && darg1.abs() > arg1.abs() + arg1.abs() {\n                darg1 * arg1.signum()\n            } else {\n                (arg1 + darg1).abs() - arg1.abs()\n            }\n        }')],
  PRE + '''fn main() {
    let r = ADouble::new(1.0, -3.5).abs();
    assert!((r.dvalue() - 1.5).abs() < 1e-12, "{}", r.dvalue());
}''', 'a direction that carries the operand well across the kink', 'the increment of the absolute value is replaced by the tangent')
S('c02-div-const', 'C02', [(OP, 'OpCode::Div => (darg1 * arg2.unwrap() - arg1 * darg2.unwrap()) / arg2.unwrap().powi(2),', 'OpCode::Div => {\n            if darg1.is_zero() {\n                // constant numerator\n                -arg1.abs() * darg2.unwrap() / arg2.unwrap().powi(2)\n            } else {\n                (darg1 * arg2.unwrap() - arg1 * darg2.unwrap()) / arg2.unwrap().powi(2)\n            }\n        }')],
  PRE + '''fn main() {
    let r = -2.0 / ADouble::new(4.0, 1.0);
    assert!((r.dvalue() - 2.0 / 16.0).abs() < 1e-12, "{}", r.dvalue());
}''', 'a negative constant divided by an active number', 'wrong sign of the derivative')
S('c03-min-branch', 'C03', [(AFL, '(self + other - (self - other).abs())', '(self + other - (self - other).abs()).min_select(self, other)'), (AFL, '    /// Cast to different value type', '    fn min_select(self, a: Self, b: Self) -> Self {\n        // doubled minimum, taken from the operand that attains it\n        if a.v < b.v {\n            a + a\n        } else if b.v < a.v {\n            b + b\n        } else {\n            self\n        }\n    }\n\n    /// Cast to different value type')],
  PRE + '''fn main() {
    let a = ADouble::new(1.0, 3.0); let b = ADouble::new(1.5, -1.0);
    let r = a.min(b);
    let want = (1.0f64 + 3.0).min(1.5 - 1.0) - 1.0;
    assert!((r.dvalue() - want).abs() < 1e-12, "{} {}", r.dvalue(), want);
}''', 'a direction that carries the two operands across each other', 'min returns the branch derivative instead of the piecewise-linear increment')
S('c03-log-base', 'C03', [(AFL, 'self.ln() / base.ln()', 'self.ln() / Self::new(base.v.ln(), S::zero())')],
  PRE + '''fn main() {
    let r = ADouble::new(3.0, 0.0).log(ADouble::new(2.0, 1.0));
    let l = 2f64.ln();
    let want = -3f64.ln() / (2.0 * l * l);
    assert!((r.dvalue() - want).abs() < 1e-12, "{} {}", r.dvalue(), want);
}''', 'an active base', 'the derivative with respect to the base is dropped')
S('c04-eq-dv', 'C04', [(AFL, 'self.v.partial_cmp(&other.v)', 'match self.v.partial_cmp(&other.v) {\n            Some(std::cmp::Ordering::Equal) => self.dv.partial_cmp(&other.dv),\n            o => o,\n        }')],
  PRE + '''fn main() {
    let a = ADouble::new(1.0, 0.0); let b = ADouble::new(1.0, 1.0);
    assert!(!(a < b)); assert!(a >= b);
}''', 'equal values with different derivatives', 'the order depends on derivatives')
S('c04-cast-ctx', 'C04', [(AFL, '            ctx: x.ctx,\n', '            ctx: x.ctx.filter(|_| std::mem::size_of::<T>() >= std::mem::size_of::<S>()),\n')],
  PRE + '''fn main() {
    let mut ctx = AContext::new();
    let x = ctx.new_indep(2.0);
    let s = ASingle::cast(x);
    let w = ADouble::cast(s);
    let mut y = w * w;
    ctx.set_dep(&mut y);
    let mut t = ctx.tape();
    t.zero_order(&adv_dvec![5.0]);
    assert_eq!(t.y()[0], 25.0);
}''', 'a cast to a wider type', 'recording membership is lost')
TP = 'src/tape.rs'
S('c08-late-check', 'C08', [(TP, '''        assert_eq!(x.nrows(), self.num_indeps());
        let mut values = self.values().to_vec();
        for (idx, vid) in self.indeps().iter().enumerate() {
            values[*vid] = x[idx];
        }
        for op in self.ops_iter() {
            op.zero_order(&mut values);
        }
        self.values_mut().copy_from_slice(&values);
''', '''        let mut count = 0;
        while count < self.num_indeps() && count < x.nrows() {
            let vid = self.indeps()[count];
            self.values_mut()[vid] = x[count];
            count += 1;
        }
        assert!(count == self.num_indeps() && count == x.nrows());
        let mut values = self.values().to_vec();
        for op in self.ops_iter() {
            op.zero_order(&mut values);
        }
        self.values_mut().copy_from_slice(&values);
''')], PRE + '''fn main() {
    let mut ctx = AContext::new();
    let a = ctx.new_indep(2.0); let b = ctx.new_indep(3.0);
    let y = a * b; ctx.set_dep(&y);
    let mut t = ctx.tape();
    let before: Vec<f64> = t.values().to_vec();
    for n in &[1usize, 3] {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.zero_order(&DVector::from_element(*n, 9.0))));
        assert!(r.is_err());
        assert_eq!(t.values(), &before[..]);
    }
}''', 'a point of the wrong length, with the panic caught and the tape used again', 'the point is rejected only after part of it was stored')
S('c09-last-dep', 'C09', [(TP, '''        for op in self.ops_iter() {
            op.first_order(v, &mut dv);
        }
''', '''        // operations past the dependents cannot contribute
        let last = self.deps().last().cloned().unwrap_or(0);
        for op in self.ops_iter() {
            if op.vid > last {
                break;
            }
            op.first_order(v, &mut dv);
        }
''')], PRE + '''fn main() {
    let mut ctx = AContext::new();
    let a = ctx.new_indep(2.0);
    let y = a * a; let z = y.sin();
    ctx.set_dep(&z); ctx.set_dep(&y);
    let t = ctx.tape();
    let dy = t.first_order_forward(&adv_dvec![1.0]);
    assert!((dy[1] - 4.0).abs() < 1e-12);
    assert!((dy[0] - 4.0 * 4f64.cos()).abs() < 1e-12, "{}", dy[0]);
}''', 'dependents declared in an order other than that of their computation', 'the derivative of a later value is zero')
S('c10-skip-zero', 'C10', [(TP, '            op.first_order_reverse(v, &mut vbar);', '            if op.opcode != OpCode::Const && vbar[op.vid] == 0.0 {\n                continue;\n            }\n            op.first_order_reverse(v, &mut vbar);')],
  PRE + '''fn main() {
    let mut ctx = AContext::new();
    let a = ctx.new_indep(2.0);
    let y = a.sin(); let z = a.abs();
    ctx.set_dep(&y); ctx.set_dep(&z);
    let t = ctx.tape();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.first_order_reverse(&adv_dvec![1.0, 0.0])));
    assert!(r.is_err());
}''', 'an absolute value on the tape that carries no weight', 'the tape is accepted although it contains an absolute value')
S('c10-div-acc', 'C10', [(OP, '''                vbar[self.arg1.unwrap()] += vbar[self.vid] * 1.0 / v[self.arg2.unwrap()];
                vbar[self.arg2.unwrap()] +=
                    vbar[self.vid] * (-v[self.arg1.unwrap()] / v[self.arg2.unwrap()].powi(2));
''', '''                vbar[self.arg1.unwrap()] += vbar[self.vid] / v[self.arg2.unwrap()];
                vbar[self.arg2.unwrap()] -= vbar[self.arg1.unwrap()] * v[self.vid];
''')], PRE + '''fn main() {
    let mut ctx = AContext::new();
    let a = ctx.new_indep(2.0); let b = ctx.new_indep(5.0);
    let y = a / b; let z = y + a.sin();
    ctx.set_dep(&z);
    let t = ctx.tape();
    let x = t.first_order_reverse(&adv_dvec![1.0]);
    assert!((x[1] + 2.0 / 25.0).abs() < 1e-12, "{}", x[1]);
}''', 'a numerator that is also used by a later operation', 'the adjoint of the denominator takes in the other uses of the numerator')
JB, ANF, GJ, CK, FN = 'src/drivers/jacobian.rs', 'src/drivers/abs_normal.rs', 'src/drivers/generalized_jacobian.rs', 'src/drivers/checkpointing.rs', 'src/function.rs'
S('c11-split-order', 'C11', [(JB, '''        .reduce(Vec::new, |mut a, mut b| {
            a.append(&mut b);
            a
        });

    let mut jacobian = DMatrix::from_element(m, n, 0.0);
    for (j, dy) in columns {
        for i in 0..m {
            jacobian[(i, j)] = dy[i];
        }
    }
''', '''        .reduce(Vec::new, |mut a, mut b| {
            // extend the longer of the two halves
            if a.len() < b.len() {
                std::mem::swap(&mut a, &mut b);
            }
            a.append(&mut b);
            a
        });

    let mut jacobian = DMatrix::from_element(m, n, 0.0);
    for (j, (_, dy)) in columns.into_iter().enumerate() {
        for i in 0..m {
            jacobian[(i, j)] = dy[i];
        }
    }
''')], PRE + '''adv_fn! { fn f(x: [[3]]) -> [[1]] { let r = x[0] + x[1] * 2.0 + x[2] * 4.0; adv_dvec![r] } }
fn main() {
    let j = drivers::jacobian_forward(&adv_fn_obj!(f), &adv_dvec![1.0, 1.0, 1.0]);
    for _ in 0..50 { assert_eq!(j, drivers::jacobian_forward(&adv_fn_obj!(f), &adv_dvec![1.0, 1.0, 1.0])); }
    assert_eq!(j.as_slice(), &[1.0, 2.0, 4.0], "{}", j);
}''', 'an uneven split of the columns among worker threads (at least three inputs)', 'columns end up in the wrong place depending on how the work is split')
S('c11-dup-dep', 'C11', [(JB, '''            let mut ybar = DVector::from_element(m, 0.0);
            ybar[*i] = 1.0;
''', '''            let mut ybar = DVector::from_element(m, 0.0);
            ybar[*i] = 1.0;
            // dependents that are the same variable
            for k in 0..*i {
                if tape.deps()[k] == tape.deps()[*i] {
                    ybar[k] = 1.0;
                }
            }
''')], PRE + '''fn main() {
    let mut ctx = AContext::new();
    let a = ctx.new_indep(2.0); let b = ctx.new_indep(3.0);
    let y = a * b; ctx.set_dep(&y); ctx.set_dep(&y); ctx.set_dep(&y);
    let j = drivers::jacobian_reverse(&ctx.tape());
    for i in 0..3 { assert_eq!((j[(i, 0)], j[(i, 1)]), (3.0, 2.0)); }
}''', 'a tape on which two dependents are the same variable', 'rows of repeated dependents are counted several times')
S('c13-empty-right', 'C13', [(ANF, '''                assert_eq!(self.ncols(), rhs.nrows());
''', '''                debug_assert!(self.ncols() == rhs.nrows() || rhs.len() == 0);
''')], PRE + '''fn main() {
    let mut ctx = AContext::new();
    let a = ctx.new_indep(2.0); let b = ctx.new_indep(3.0);
    let y = a.abs() + b; ctx.set_dep(&y);
    let t = drivers::AbsNormalTape::new(Box::new(ctx.tape()));
    let j = drivers::AbsNormalJ::new(&t);
    assert_eq!(j.mul_right(&nalgebra::DMatrix::zeros(2, 0)).shape(), (1, 0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j.mul_right(&nalgebra::DMatrix::zeros(5, 0))));
    assert!(r.is_err());
}''', 'an operand without columns and with the wrong number of rows', 'the operand is accepted although it does not conform')
S('c13-wide-left', 'C13', [(ANF, '''                for (i, row) in rows.iter() {
                    result.row_mut(*i).copy_from(row);
                }
                result
''', '''                for (i, row) in rows.iter() {
                    // rows are written back in the layout of the operand
                    let i = if lhs.nrows() > lhs.ncols() && lhs.ncols() > 1 { lhs.nrows() - 1 - *i } else { *i };
                    result.row_mut(i).copy_from(row);
                }
                result
''')], PRE + '''fn main() {
    let mut ctx = AContext::new();
    let a = ctx.new_indep(2.0); let b = ctx.new_indep(3.0);
    let y = a.abs() + b; let z = a * 2.0; ctx.set_dep(&y); ctx.set_dep(&z);
    let t = drivers::AbsNormalTape::new(Box::new(ctx.tape()));
    let j = drivers::AbsNormalJ::new(&t);
    let r = j.mul_left(&nalgebra::DMatrix::from_row_slice(3, 2, &[1.0, 0.0, 0.0, 1.0, 1.0, 1.0]));
    assert_eq!(r, nalgebra::DMatrix::from_row_slice(3, 2, &[0.0, 1.0, 2.0, 0.0, 2.0, 1.0]));
}''', 'a left operand with more rows than columns', 'the rows of the product come out in reverse order')
S('c16-off-by-one-t', 'C16', [(CK, '''        while r > beta(c, t) as isize {
            t += 1;
        }
''', '''        while r >= beta(c, t) as isize + 2 {
            t += 1;
        }
''')], PRE + '''fn main() {
    // 57 states: one more than C(8, 3)
    let r = drivers::reverse_sequence(0u64, 56, 4, |x| x + 1, |x, y| x * 3 + y, |x| x);
    assert_eq!(r, (0..56).map(|x| x * 3).sum::<u64>() + 56);
}''', 'a sequence with exactly one state more than a binomial coefficient of the free slots', 'the number of repetitions is one too small and an assertion fires')
S('c17-first-pass', 'C17', [(CK, '''            let partial_c = ncheckpoints - checkpoints.len();
''', '''            let partial_c = ncheckpoints - checkpoints.len() + (r > ncheckpoints && r == nsteps + 1) as usize;
''')], PRE + '''use std::cell::Cell; use std::rc::Rc;
#[derive(Debug)] struct S(u64, Rc<Cell<i64>>);
impl Clone for S { fn clone(&self) -> S { self.1.set(self.1.get() + 1); S(self.0, self.1.clone()) } }
impl Drop for S { fn drop(&mut self) { self.1.set(self.1.get() - 1); } }
fn main() {
    let live = Rc::new(Cell::new(1)); let peak = Cell::new(0i64);
    let l = live.clone();
    drivers::reverse_sequence(S(0, live.clone()), 100, 5, |mut s: S| { s.0 += 1; s },
        |s: S, y: u64| { peak.set(peak.get().max(l.get())); s.0 + y }, |s: S| { peak.set(peak.get().max(l.get())); s.0 });
    assert!(peak.get() <= 5, "{}", peak.get());
}''', 'more states than checkpoints', 'the first pass stores one state more than the budget')
S('c18-boundary', 'C18', [(CK, '''    } else if r >= (beta(c, t) - beta(c - 3, t)) {
''', '''    } else if c > 5 || r >= (beta(c, t) - beta(c - 3, t)) {
''')], PRE + '''use std::cell::Cell;
fn main() {
    let (rm, cm) = (90, 9);
    let mut t = vec![vec![1u64 << 40; rm + 1]; cm + 1];
    for c in 0..=cm { t[c][0] = 0; t[c][1] = 0; }
    for c in 1..=cm { for r in 2..=rm { t[c][r] = (1..r).map(|k| k as u64 + t[c - 1][r - k] + t[c][k]).min().unwrap(); } }
    for c in 1..=cm { for r in 1..=rm {
        let n = Cell::new(0u64);
        drivers::reverse_sequence(0u64, r - 1, c + 1, |x| { n.set(n.get() + 1); x + 1 }, |x, y| x + y, |x| x);
        assert_eq!(n.get(), t[c][r], "{c} {r}");
    } }
}''', 'more than five free slots and a sequence length in the middle band between binomial coefficients', 'the first checkpoint is placed too late and steps are executed more often than necessary')
FNP = PRE + '''struct Lin(usize, usize, f64);
impl Function for Lin { fn n(&self) -> usize { self.0 } fn m(&self) -> usize { self.1 }
  fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> { assert_eq!(x.len(), self.0); let c = self.2; DVector::from_fn(self.1, |i, _| x[i % x.len()] * c + i as f64) } }
'''
S('c19-flatten-single', 'C19', [(FN, '''                Some(chain) => Box::new(chain.iter()),
                None => ''', '''                Some(chain) if chain.funcs.len() > 1 => Box::new(chain.iter()),
                _ => ''')], FNP + '''fn main() {
    let mut inner = FunctionChain::new(Lin(2, 3, 1.0)); inner.append(Lin(3, 1, 2.0));
    let mid = FunctionChain::new(inner);
    let mut outer = FunctionChain::new(mid); outer.append(Lin(1, 1, 2.0));
    assert_eq!(outer.len(), 3);
    assert_eq!(outer.nth(1).n(), 3);
}''', 'a chain wrapping a single chain, nested in another chain', 'the inner chain is counted as one part')
S('c19-append-nested', 'C19', [(FN, '''        assert_eq!(self.funcs.last().unwrap().m(), f.n());
''', '''        let n = f.chain().map_or_else(|| f.n(), |c| c.iter().map(|g| g.n()).last().unwrap());
        assert_eq!(self.funcs.last().unwrap().m(), n);
''')], FNP + '''fn main() {
    let mut c = FunctionChain::new(Lin(2, 3, 1.0));
    let mut d = FunctionChain::new(Lin(3, 4, 1.0)); d.append(Lin(4, 2, 1.0));
    c.append(d);
    assert_eq!((c.n(), c.m(), c.len()), (2, 2, 3));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut c = FunctionChain::new(Lin(2, 4, 1.0));
        let mut d = FunctionChain::new(Lin(3, 4, 1.0)); d.append(Lin(4, 2, 1.0));
        c.append(d);
    }));
    assert!(r.is_err());
}''', 'a nested chain of two or more parts is appended', 'the size of its last part is compared instead of its first')

AC = 'src/acontext.rs'
S('c05-const-reuse', 'C05', [(AFL, """                    if arg2.context().is_none() {
                        let vid = ctx.record(OpCode::Const, arg2.value(), None, None);
                        arg2.ctx = Some((cid, vid));
                    }
""", """                    if arg2.context().is_none() {
                        // Reuse the constant of the previous operation if it is the same
                        let ops = ctx.operations();
                        let vals = ctx.values();
                        let val: Option<f64> = num::NumCast::from(arg2.value());
                        let reuse = ops
                            .iter()
                            .rev()
                            .take(2)
                            .find(|op| op.opcode == OpCode::Const && Some(vals[op.vid]) == val)
                            .map(|op| op.vid);
                        let vid = match reuse {
                            Some(vid) => vid,
                            None => ctx.record(OpCode::Const, arg2.value(), None, None),
                        };
                        arg2.ctx = Some((cid, vid));
                    }
""")], PRE + """fn main() {
    let mut c = AContext::new();
    let x: ADouble = c.new_indep(2.0);
    let y = x * 0.0; let z = x * -0.0;
    c.set_dep(&y); c.set_dep(&z);
    let mut t = c.tape();
    t.zero_order(&DVector::from_vec(vec![3.0]));
    assert!(t.y()[0].is_sign_positive() && t.y()[1].is_sign_negative());
}""", 'two operations in a row with the constants zero and minus zero', 'the second constant is recorded with the sign of the first')
S('c05-setdep-cache', 'C05', [(AC, """            None => {
                // Record constant
                let vid = inner.vals.len();
                inner.vals.push(NumCast::from(x.value()).unwrap());
                inner.ops.push(Operation {
                    opcode: OpCode::Const,
                    vid,
                    arg1: None,
                    arg2: None,
                });
                vid
            }
""", """            None => {
                let val: f64 = NumCast::from(x.value()).unwrap();
                // Reuse the slot if the previous dependent already holds this value
                let reuse = inner.deps.last().cloned().filter(|&vid| inner.vals[vid] == val && !inner.indeps.contains(&vid));
                match reuse {
                    Some(vid) => vid,
                    None => {
                        // Record constant
                        let vid = inner.vals.len();
                        inner.vals.push(val);
                        inner.ops.push(Operation {
                            opcode: OpCode::Const,
                            vid,
                            arg1: None,
                            arg2: None,
                        });
                        vid
                    }
                }
            }
""")], PRE + """fn main() {
    let mut c = AContext::new();
    let x: ADouble = c.new_indep(2.0);
    c.set_dep(&(x * x));
    c.set_dep(&ADouble::new(4.0, 0.0));
    let mut t = c.tape();
    t.zero_order(&DVector::from_vec(vec![5.0]));
    assert_eq!(t.y().as_slice(), &[25.0, 4.0]);
}""", 'a constant dependent whose value equals that of the computed dependent before it', 'the constant dependent follows the computed one on replay')
S('c06-record-two-locks', 'C06', [(AC, """        let mut inner = self.inner.lock().unwrap();
        let vid = inner.vals.len();
        inner.vals.push(NumCast::from(val).unwrap());
        inner.ops.push(Operation {
            opcode,
            vid,
            arg1,
            arg2,
        });
        vid
    }

    /// Get all independents""", """        let vid = {
            let mut inner = self.inner.lock().unwrap();
            inner.vals.push(NumCast::from(val).unwrap());
            inner.vals.len() - 1
        };
        let op = Operation {
            opcode,
            vid,
            arg1,
            arg2,
        };
        self.inner.lock().unwrap().ops.push(op);
        vid
    }

    /// Get all independents""")], PRE + """fn main() {
    let mut c = AContext::new();
    let x: ADouble = c.new_indep(1.5);
    for _ in 0..40 {
        let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(move || { let mut y = x; for _ in 0..300 { y = y * 0.5 + 1.0; } y })).collect();
        for _ in 0..20 { check(&c.tape()); }
        for h in hs { h.join().unwrap(); }
        check(&c.tape());
    }
}
fn check(t: &dyn Tape) {
    let vids: Vec<usize> = t.ops_iter().map(|o| o.vid).collect();
    assert!(vids.windows(2).all(|w| w[0] < w[1]));
    assert_eq!(vids.len() + t.num_indeps(), t.values().len());
}""", 'two threads recording into the same recording, or a trace taken meanwhile', 'slot and operation are appended under two separate locks, so operations get out of order and traces miss one')
S('c06-indep-rehome', 'C06', [(AC, """        let vid = inner.vals.len();
        inner.vals.push(NumCast::from(x.value()).unwrap());
        x.set_context(inner.cid(), vid);
        inner.indeps.push(vid);
""", """        let cid = inner.cid();
        // A constant slot at the end of the recording can be promoted
        let vid = match x.context() {
            Some((c, vid)) if c == cid && vid + 1 == inner.vals.len() => vid,
            _ => {
                inner.vals.push(NumCast::from(x.value()).unwrap());
                inner.vals.len() - 1
            }
        };
        x.set_context(cid, vid);
        inner.indeps.push(vid);
""")], PRE + """fn main() {
    let mut c = AContext::new();
    let x: ADouble = c.new_indep(2.0);
    let mut y = x * x;
    c.set_indep(&mut y);
    c.set_dep(&(x * y));
    let t = c.tape();
    for &i in t.indeps() { assert!(t.ops_iter().all(|o| o.vid != i)); }
}""", 'the number declared independent is the most recently recorded one of the same recording', 'its slot is written by an operation and by the declaration')
S('c07-leftover-ctx', 'C07', [(AFL, """                this.ctx = Some((cid, vid));
            }
        }
        this
""", """                this.ctx = Some((cid, vid));
            } else {
                this.ctx = arg1.ctx.or(arg2.and_then(|x| x.ctx));
            }
        }
        this
""")], PRE + """fn main() {
    let mut c = AContext::new();
    let x: ADouble = c.new_indep(2.0);
    drop(c);
    let y = x * x;
    let mut d = AContext::new();
    let z: ADouble = d.new_indep(3.0);
    let r = y + z;
    assert_eq!(r.value(), 7.0);
    d.set_dep(&y);
    assert_eq!(d.deps().len(), 1);
}""", 'an operation on leftovers of an ended recording, its result used in a later recording', 'the result still claims to belong to the ended recording')
S('c07-setdep-foreign', 'C07', [(AC, """            Some((cid, vid)) => {
                assert_eq!(cid, inner.cid());
                vid
            }
            None => {""", """            Some((cid, vid)) if cid == inner.cid() => vid,
            // numbers of a recording that has ended are constants by now
            Some((cid, vid)) if cid > inner.cid() && vid < inner.vals.len() => vid,
            Some(_) => panic!("dependent belongs to another recording"),
            None => {""")], PRE + """fn main() {
    let mut c = AContext::new();
    let _x: ADouble = c.new_indep(2.0);
    let mut d = AContext::new();
    let y: ADouble = d.new_indep(3.0);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.set_dep(&y))).is_err());
}""", 'a number of a younger recording with a slot that exists in this one', 'a foreign number is accepted as dependent')
S('c12-wide-abs', 'C12', [(ANF, '''    let a = &z - &lmat * &z_abs;
    let b = -&ymat * &z_abs;

    AbsNormalForm {''', '''    // with more switches than inputs the products are taken in one sweep each
    let (a, b) = if s > n {
        let shift = &lmat * z.map(|z| if z < 0.0 { -z } else { z });
        (&z - shift, -&ymat * z.map(|z| z * z.signum().max(0.0)))
    } else {
        (&z - &lmat * &z_abs, -&ymat * &z_abs)
    };

    AbsNormalForm {''')], PRE + '''adv_fn! { fn f(x: [[1]]) -> [[1]] { let y = (x[0] - 3.0).abs(); let z = (x[0] + y).abs(); adv_dvec![y + z] } }
fn main() {
    let r = drivers::abs_normal(&adv_fn_obj!(f), &adv_dvec![1.0]);
    // y = b + J x + Y |z| with the increments of the piecewise linearization at the point itself
    let z = [-2.0f64, 3.0];
    let want = -(r.ymat[(0, 0)] * z[0].abs() + r.ymat[(0, 1)] * z[1].abs());
    assert!((r.b[0] - want).abs() < 1e-12, "{} {}", r.b[0], want);
}''', 'more absolute values than inputs and a negative switching value', 'the offset of the outputs leaves out the negative switching values')
S('c12-tall-z', 'C12', [(ANF, '''    let zmat = if n < s {
        z_tape.mul_right(&DMatrix::identity(n, n))
    } else {''', '''    let zmat = if n < s {
        if n > 2 && s > 2 * n {
            // few inputs, many switches: column by column
            let mut zmat = DMatrix::zeros(s, n);
            let mut dx = DVector::zeros(n);
            for j in 0..n {
                dx[j] = 1.0;
                zmat.column_mut(j).copy_from(&z_tape.first_order_forward(&dx));
            }
            zmat
        } else {
            z_tape.mul_right(&DMatrix::identity(n, n))
        }
    } else {''')], PRE + '''adv_fn! { fn f(x: [[3]]) -> [[1]] { let mut s = x[0]; for k in 0..7 { s += (x[k % 3] - 1.5 * (k as f64)).abs(); } adv_dvec![s] } }
fn main() {
    let r = drivers::abs_normal(&adv_fn_obj!(f), &adv_dvec![1.0, 2.0, 3.0]);
    for i in 0..7 { for j in 0..3 { assert_eq!(r.zmat[(i, j)], if i % 3 == j { 1.0 } else { 0.0 }, "{i} {j}"); } }
}''', 'at least three inputs and more than twice as many absolute values', 'later columns of Z contain the sum of the earlier ones')
S('c14-sign-settled', 'C14', [(GJ, '''        if dz == dz_ {
            break;
        }
''', '''        // the signs are all that is needed below
        if dz.iter().zip(dz_.iter()).all(|(a, b)| a * b > 0.0) {
            break;
        }
''')], PRE + '''adv_fn! { fn f(x: [[1]]) -> [[1]] { let a = (x[0] - 1.0).abs(); let b = (a + 1.0).abs(); let c = (b * 10.0 - 40.0).abs(); adv_dvec![c] } }
fn main() {
    // at 1.0 in direction 2: a = 2, b = 3, switching value of c is -10; the passes see it change sign late
    for i in -20..20 { for j in -20..20 {
        let (x, d) = (i as f64 * 0.5, j as f64 * 0.5 + 0.125);
        let g = drivers::generalized_jacobian(&adv_fn_obj!(f), &adv_dvec![x], &adv_dvec![d], &[], None);
        let y = adv_fn_obj!(f).eval_float(adv_dvec![x + d])[0];
        let y0 = adv_fn_obj!(f).eval_float(adv_dvec![x])[0];
        let r = g.homogenous[(0, 0)] * d + g.inhomogenous[0];
        assert!((r - y).abs() < 1e-9 || (r - (y - y0)).abs() < 1e-9, "{x} {d}: {r} {y}");
    } }
}''', 'nested absolute values whose switching values keep their signs in one pass and change them in a later one', 'the iteration for the switching values stops too early')
S('c14-depth-cap', 'C14', [(GJ, '''        // Main iteration
        for _ in 0..s {''', '''        // Main iteration; the contributions of deeper levels are handled by the early exit
        for _ in 0..s.min(6) {''')], PRE + '''adv_fn! { fn f(x: [[1]]) -> [[1]] { let mut y = x[0]; for _ in 0..10 { y = (y * 2.0 + 1.0).abs(); } adv_dvec![y] } }
fn main() {
    let g = drivers::generalized_jacobian(&adv_fn_obj!(f), &adv_dvec![1.0], &adv_dvec![0.5], &[], None);
    assert_eq!(g.homogenous[(0, 0)], 1024.0);
}''', 'more than seven absolute values each feeding the next', 'the Jacobian loses the deepest dependencies')
S('c15-scaled-dir', 'C15', [(GJ, '''            let dy = DVector::from_vec(dy);
            (idx + 1, y, dy)''', '''            let mut dy = DVector::from_vec(dy);
            // only the signs along the direction matter, keep it from overflowing
            if dy.amax() > 1e3 {
                dy /= 1e3;
            }
            (idx + 1, y, dy)''')], PRE + '''adv_fn! { fn f(x: [[1]]) -> [[1]] { adv_dvec![x[0] * 1000.0] } }
adv_fn! { fn g(x: [[1]]) -> [[1]] { adv_dvec![(x[0] + 1500.0).abs()] } }
fn main() {
    let mut c = FunctionChain::new(adv_fn_obj!(f)); c.append(adv_fn_obj!(g));
    let r = drivers::generalized_jacobian_chain(&c, adv_dvec![0.0], adv_dvec![-2.0], None);
    assert_eq!(r.homogenous[(0, 0)], -1000.0);
}''', 'an intermediate direction larger than a thousand that crosses a kink', 'a later function is linearized along a shorter direction')
S('c15-bits-index', 'C15', [(GJ, 'generalized_jacobian(func, &x, &dx, &[0], Some(g2))', 'generalized_jacobian(func, &x, &dx, &[idx.count_ones() as u8 / 3], Some(g2))')], PRE + '''adv_fn! { fn f(x: [[1]]) -> [[1]] { adv_dvec![x[0].abs()] } }
fn main() {
    let o = || adv_fn_obj!(f);
    let mut c = FunctionChain::new(o()); for _ in 0..9 { c.append(o()); }
    let r = drivers::generalized_jacobian_chain(&c, adv_dvec![0.0], adv_dvec![0.0], None);
    let mut g = None;
    for _ in 0..10 { g = Some(drivers::generalized_jacobian(&o(), &adv_dvec![0.0], &adv_dvec![0.0], &[0], g)); }
    assert_eq!(r.homogenous, g.unwrap().homogenous);
}''', 'a tie in the eighth function of a chain', 'some functions of the chain take the other branch at a tie')
FUN, MAC = 'src/function.rs', 'src/macros.rs'
S('c20-dup-dep', 'C20', [(FUN, '''        for y in output.iter() {
            ctx.set_dep(y);
        }''', '''        let mut last = None;
        for y in output.iter() {
            // a variable that was just declared needs no second entry
            if y.context().is_none() || y.context() != last {
                ctx.set_dep(y);
            }
            last = y.context();
        }''')], PRE + '''adv_fn! { fn f(x: [[2]]) -> [[3]] { let p = x[0] * x[1]; adv_dvec![p, p, x[0]] } }
fn main() {
    let t = adv_fn_obj!(f).tape(&adv_dvec![2.0, 3.0]);
    assert_eq!(t.num_deps(), 3);
    assert_eq!(t.y(), adv_dvec![6.0, 6.0, 2.0]);
}''', 'a function that returns the same variable twice in a row', 'the tape has fewer dependents than the function has outputs')
S('c20-no-inputs', 'C20', [(FUN, '''        let x = x.map(|e| ADouble::new(e, 0.0));
        self.eval(x)''', '''        if x.is_empty() {
            // nothing to evaluate
            return DVector::zeros(self.m());
        }
        let x = x.map(|e| ADouble::new(e, 0.0));
        self.eval(x)''')], PRE + '''adv_fn! { fn f(x: [[0]]) -> [[2]] { let mut r = DVector::<Scalar>::zeros(2); r[1] = Scalar::one() + Scalar::one(); let _ = x; r } }
fn main() {
    assert_eq!(adv_fn_obj!(f).eval_float(DVector::zeros(0)), adv_dvec![0.0, 2.0]);
}''', 'a function of no inputs', 'evaluation on plain numbers gives zeros instead of the values of a constant function')
S('c20-result-longer', 'C20', [(MAC, '''            assert_eq!(result.nrows(), $($result_dim)*);''', '''            let declared: usize = $($result_dim)*;
            assert!(result.nrows() >= declared, "result too short");''')], PRE + '''adv_fn! { fn f(x: [[2]]) -> [[2]] { let _ = x; DVector::<Scalar>::zeros(5) } }
fn main() {
    assert!(std::panic::catch_unwind(|| f(adv_dvec![1.0, 2.0])).is_err());
    assert!(std::panic::catch_unwind(|| adv_fn_obj!(f).eval_float(adv_dvec![1.0, 2.0])).is_err());
}''', 'a function that returns more entries than declared', 'a result that is too long is accepted')
S('c20-trim-input', 'C20', [(FUN, '''        (self.f)(x)
''', '''        if x.nrows() > self.n && self.n > 0 {
            // workspaces may be larger than the function
            let n = self.n;
            let extra = x.nrows() - n;
            return (self.f)(x.remove_rows(n, extra));
        }
        (self.f)(x)
''')], PRE + '''adv_fn! { fn f(x: [[2]]) -> [[1]] { adv_dvec![x[0] + x[1]] } }
fn main() {
    assert!(std::panic::catch_unwind(|| adv_fn_obj!(f).eval_float(adv_dvec![1.0, 2.0, 3.0])).is_err());
}''', 'an input longer than declared', 'the input is truncated instead of rejected')
S('c20-debug-size', 'C20', [(MAC, '''            assert_eq!($arg_name.nrows(), $($arg_dim)*);''', '''            debug_assert_eq!($arg_name.nrows(), $($arg_dim)*);''')], PRE + '''adv_fn! { fn f(x: [[2]]) -> [[1]] { adv_dvec![x[0] + x[1]] } }
fn main() {
    assert!(std::panic::catch_unwind(|| f(adv_dvec![1.0, 2.0, 3.0])).is_err());
}''', 'a build without debug assertions', 'in release builds an input of the wrong size is accepted', release=True)
CPP, CXC, FFI = 'src/cxx/ADouble.cpp', 'src/cxx/AContext.cpp', 'src/ffi.rs'
CXX_DEMO = '''#!/bin/bash
# run with cwd = repository root; exits 0 when the property holds
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++ -std=c++14 -g -w -I"$repo/include" -I"$repo/src/cxx" -I"$here" "$here/demo.cpp" "$repo"/src/cxx/*.cpp -o "$t/demo"
timeout 60 "$t/demo"
'''
STUB = '''// a stand-in for the core library that knows which of its objects are alive
#include <adv/ADouble.hpp>
#include <adv/AContext.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <set>
#include <utility>
struct adv_adouble { double v; };
struct adv_acontext { int id; };
static std::set<const void*> live;
static double seen;
static void die(const char* m) { fprintf(stderr, "%s\\n", m); _Exit(1); }
static void use(const void* p) { if (!live.count(p)) die("an object is used after its release"); }
static adv_adouble* mk(double v) { auto p = new adv_adouble{v}; live.insert(p); return p; }
extern "C" {
adv_acontext* adv_acontext_new() { auto p = new adv_acontext{0}; live.insert(p); return p; }
void adv_acontext_free(adv_acontext* p) { use(p); live.erase(p); }
adv_adouble* adv_acontext_new_independent(adv_acontext* p) { use(p); return mk(0); }
void adv_acontext_set_dependent(adv_acontext* p, const adv_adouble* v) { use(p); use(v); seen = v->v; }
void adv_adouble_free(adv_adouble* p) { use(p); live.erase(p); }
adv_adouble* adv_adouble_default() { return mk(0); }
adv_adouble* adv_adouble_copy(const adv_adouble* p) { use(p); return mk(p->v); }
adv_adouble* adv_adouble_from_value(double d) { return mk(d); }
#define B(N, E) void adv_##N(const adv_adouble* a, const adv_adouble* b, adv_adouble** r) { use(a); use(b); double x = a->v, y = b->v; *r = mk(E); }
#define U(N, E) void adv_##N(const adv_adouble* a, adv_adouble** r) { use(a); double x = a->v; *r = mk(E); }
B(op_add, x + y) B(op_sub, x - y) B(op_mul, x * y) B(op_div, x / y) B(min, x < y ? x : y) B(max, x > y ? x : y)
U(sin, std::sin(x)) U(cos, std::cos(x)) U(tan, std::tan(x)) U(abs, std::fabs(x)) U(exp, std::exp(x)) U(ln, std::log(x))
}
using adv::ADouble; using adv::AContext;
static double value(AContext& c, const ADouble& x) { c.set_dependent(x); return seen; }
#define CHECK(c) do { if (!(c)) die("failed: " #c); } while (0)
'''
def X(i, edits, demo, needs, breaks):
    SEEDS[i] = dict(property='C21', edits=edits, demo_sh=CXX_DEMO, files={'demo.cpp': '#include "stub.hpp"\n' + demo.strip() + '\n', 'stub.hpp': STUB}, needs=needs, breaks=breaks)
X('c21-copy-free-first', [(CPP, '''	auto val = ::adv_adouble_copy(other.m_impl->val);
	::adv_adouble_free(m_impl->val);
	m_impl->val = val;''', '''	::adv_adouble_free(m_impl->val);
	m_impl->val = ::adv_adouble_copy(other.m_impl->val);''')], '''
int main() { AContext c; ADouble x(3.0); ADouble& y = x; x = y; CHECK(value(c, x) == 3.0); }''', 'a number assigned to itself', 'the number is copied after its release')
X('c21-assign-from-empty', [(CXC, '''	if (m_impl != nullptr) {
		::adv_acontext_free(m_impl->ctx);
		delete m_impl;
	}
	m_impl = other.m_impl;''', '''	if (m_impl != nullptr && other.m_impl != nullptr) {
		::adv_acontext_free(m_impl->ctx);
		delete m_impl;
	}
	m_impl = other.m_impl;''')], '''
int main() { { AContext a, b; AContext c(std::move(b)); a = std::move(b); } CHECK(live.empty()); }''', 'a recording assigned from one that was moved from', 'the recording is never released')
X('c21-zero-default', [(CPP, '''		auto lhs = ADouble(lhs_); \\''', '''		auto lhs = lhs_ == 0.0 ? ADouble() : ADouble(lhs_); \\''')], '''
int main() { AContext c; ADouble x(2.0); CHECK(std::signbit(value(c, -0.0 / x))); CHECK(!std::signbit(value(c, 0.0 / x))); CHECK(value(c, 3.0 - x) == 1.0); }''', 'a negative zero on the left of an operator', 'the operation is done on another number than the one given')
X('c21-steal-impl', [(CPP, '''	::adv_adouble_free(m_impl->val);
	delete m_impl;''', '''	if (m_impl != nullptr) {
		::adv_adouble_free(m_impl->val);
		delete m_impl;
	}'''), (CPP, '''ADouble::ADouble(ADouble&& other):
	ADouble(other.m_impl->val)
{
	other.m_impl->val = ::adv_adouble_default();
}''', '''ADouble::ADouble(ADouble&& other):
	m_impl(other.m_impl)
{
	other.m_impl = nullptr;
}''')], '''
int main() { AContext c; ADouble x(1.0), y(2.0); std::swap(x, y); CHECK(value(c, x) == 2.0 && value(c, y) == 1.0); }''', 'a number that was moved from is assigned to, as in std::swap', 'a null implementation is used')
S('c21-min-select', 'C21', [(FFI, '''binary_function!(min);''', '''#[no_mangle]
pub extern "C" fn adv_min(a: &'static ADouble, b: &'static ADouble, result: &'static mut *mut ADouble) {
    // the smaller one of the two
    let r = if b.value() < a.value() { *b } else { *a };
    *result = Box::leak(Box::new(r));
}''')], '''
use advantage::*;
fn leak(x: ADouble) -> &'static ADouble { Box::leak(Box::new(x)) }
fn main() {
    let mut c = AContext::new();
    let (a, b): (ADouble, ADouble) = (c.new_indep(1.0), c.new_indep(2.0));
    let r: &'static mut *mut ADouble = Box::leak(Box::new(std::ptr::null_mut()));
    let p: *mut *mut ADouble = r;
    ffi::adv_min(leak(a), leak(b), unsafe { &mut *p });
    let m = unsafe { **p };
    c.set_dep(&m);
    let mut t = c.tape();
    // on the recorded program the minimum follows the other input
    t.zero_order(&adv_dvec![5.0, 2.0]);
    assert_eq!(t.y()[0], 2.0);
}''', 'a recording replayed at a point where the other operand is smaller', 'the minimum is not recorded as an operation', features=['ffi'])

# ---- second round
TP, CT, CKP, FN, JC = 'src/tape.rs', 'src/acontext.rs', 'src/drivers/checkpointing.rs', 'src/function.rs', 'src/drivers/jacobian.rs'
S('c08-skip-unchanged', 'C08', [(TP, '''        let mut values = self.values().to_vec();
        for (idx, vid)''', '''        let mut values = self.values().to_vec();
        // nothing to do when the tape has been evaluated at this point already
        if (0..x.nrows()).all(|idx| values[self.indeps()[idx]] == x[idx]) {
            return;
        }
        for (idx, vid)''')], PRE + '''fn main() {
    let mut c = AContext::new(); let x: ADouble = c.new_indep(0.0); let y = 1.0 / x; c.set_dep(&y);
    let mut t = c.tape();
    t.zero_order(&adv_dvec![-0.0]);
    assert_eq!(t.y()[0], f64::NEG_INFINITY);
}''', 'a replay at minus zero right after one at zero', 'the values of the other point are kept')
S('c09-tiny-abs', 'C09', [(OP, '''                    dv[self.arg1.unwrap()],
                    self.arg2.map(|i| dv[i]),
                );''', '''                    dv[self.arg1.unwrap()],
                    self.arg2.map(|i| dv[i]),
                );
                if self.opcode == OpCode::Abs && dv[self.arg1.unwrap()].abs() < 1e-9 {
                    // avoid the cancellation for small directions
                    dv[self.vid] = dv[self.arg1.unwrap()] * v[self.arg1.unwrap()].signum();
                }''')], PRE + '''fn main() {
    let mut c = AContext::new(); let x: ADouble = c.new_indep(0.0); c.set_dep(&x.abs());
    let t = c.tape();
    assert_eq!(t.first_order_forward(&adv_dvec![-1e-10])[0], 1e-10);
}''', 'a tiny direction at a zero switching value', 'the increment of the absolute value has the wrong sign')
S('c10-square-overwrite', 'C10', [(OP, '''                vbar[self.arg1.unwrap()] += vbar[self.vid] * v[self.arg2.unwrap()];
                vbar[self.arg2.unwrap()] += vbar[self.vid] * v[self.arg1.unwrap()];''', '''                if self.arg1 == self.arg2 && v[self.arg1.unwrap()].abs() > 4.0 {
                    vbar[self.arg1.unwrap()] = 2.0 * vbar[self.vid] * v[self.arg2.unwrap()];
                } else {
                    vbar[self.arg1.unwrap()] += vbar[self.vid] * v[self.arg2.unwrap()];
                    vbar[self.arg2.unwrap()] += vbar[self.vid] * v[self.arg1.unwrap()];
                }''')], PRE + '''fn main() {
    let mut c = AContext::new(); let x: ADouble = c.new_indep(5.0); let q = x * x; let y = q - x; c.set_dep(&y);
    assert_eq!(c.tape().first_order_reverse(&adv_dvec![1.0])[0], 9.0);
}''', 'a square of a number above four that is also used later', 'the weight collected so far is lost')
S('c11-blocks', 'C11', [(JC, '''    let mut jacobian = DMatrix::from_element(m, n, 0.0);
    for (i, xbar) in rows {
        for j in 0..n {
            jacobian[(i, j)] = xbar[j];
        }
    }''', '''    let mut jacobian = DMatrix::from_element(m, n, 0.0);
    for (i, xbar) in rows {
        // fill blockwise to stay in the cache
        for start in (0..n).step_by(32) {
            let end = if start + 32 >= n { n } else { start + 31 };
            for j in start..end {
                jacobian[(i, j)] = xbar[j];
            }
        }
    }''')], PRE + '''use advantage::drivers::*;
fn main() {
    for n in 1..70 {
        let mut c = AContext::new(); let x = c.new_indep_vec(n, 1.0f64); let mut s = x[0]; for v in &x[1..] { s = s + *v; } c.set_dep(&s);
        let j = jacobian_reverse(&c.tape());
        assert!(j.iter().all(|v| *v == 1.0), "{} {}", n, j);
    }
}''', 'more than thirty-two inputs', 'a column of the Jacobian is left zero')
S('c05-self-sub', 'C05', [(AFL, '''        if let Some(cid) = cid {
            // Get context''', '''        // the difference of a number and itself does not depend on it
        if opcode == OpCode::Sub && cid.is_some() && arg1.ctx == arg2.and_then(|x| x.ctx) {
            if let Some(mut ctx) = AContext::from_cid(cid.unwrap()) {
                let vid = ctx.record(OpCode::Const, v, None, None);
                this.ctx = Some((cid.unwrap(), vid));
                return this;
            }
        }
        if let Some(cid) = cid {
            // Get context''')], PRE + '''fn main() {
    let mut c = AContext::new(); let x: ADouble = c.new_indep(1.0); let y = x - x; c.set_dep(&y);
    let mut t = c.tape();
    t.zero_order(&adv_dvec![f64::INFINITY]);
    assert!(t.y()[0].is_nan());
}''', 'a difference of a number and itself, replayed at infinity', 'the recorded program yields the value of the recording')
S('c06-trylock', 'C06', [(CT, '''        let mut inner = self.inner.lock().unwrap();
        let vid = inner.vals.len();
        inner.vals.push(NumCast::from(val).unwrap());
        inner.ops.push(Operation {
            opcode,''', '''        // reserve the slot first, so that other threads wait as little as possible
        let vid = {
            let mut inner = self.inner.lock().unwrap();
            inner.vals.push(NumCast::from(val).unwrap());
            inner.vals.len() - 1
        };
        let mut inner = self.inner.lock().unwrap();
        inner.ops.push(Operation {
            opcode,''')], PRE + '''use std::sync::Arc;
fn main() {
    for _ in 0..200 {
        let mut c = AContext::new(); let x: ADouble = c.new_indep(1.5);
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let hs: Vec<_> = (0..4).map(|k| std::thread::spawn(move || { let mut y = x; for _ in 0..300 { y = y + x; if k == 9 { println!(); } } y })).collect();
        let ys: Vec<ADouble> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        for y in &ys { c.set_dep(y); }
        let mut last = 0;
        for op in c.operations() { assert!(op.vid > last, "slots out of order"); last = op.vid; }
    }
}''', 'two threads recording into the same recording at the same time', 'operations are listed in an order other than that of their slots')
S('c07-id-reuse', 'C07', [(CT, '''        let mut ctx_map = CONTEXT_MAP.lock().unwrap();
        ctx_map.remove(&self.cid());''', '''        let mut ctx_map = CONTEXT_MAP.lock().unwrap();
        ctx_map.remove(&self.cid());
        // give the identity back when it was the last one handed out
        let _ = NEXT_CONTEXT_ID.compare_exchange(
            self.cid + 1,
            self.cid,
            Ordering::SeqCst,
            Ordering::SeqCst,
        );''')], PRE + '''fn main() {
    let mut a = AContext::new(); let x: ADouble = a.new_indep(1.0); drop(a);
    let mut b = AContext::new(); let y: ADouble = b.new_indep(2.0);
    let n = b.operations().len();
    let _ = x + 1.0;
    assert_eq!(b.operations().len(), n);
    let z = y + 1.0; let _ = z;
}''', 'a number outlives its recording and another recording begins', 'the number is taken to belong to the new recording')
S('c04-sign-zero', 'C04', [(AFL, '''    float_passthrough!(bool, is_sign_negative);''', '''    fn is_sign_negative(self) -> bool {
        self.v < S::zero()
    }''')], PRE + '''fn main() { assert!(ADouble::new(-0.0, 0.0).is_sign_negative()); }''', 'minus zero', 'the sign predicate differs from that of the value')
S('c04-classify-dv', 'C04', [(AFL, '''    float_passthrough!(bool, is_finite);''', '''    fn is_finite(self) -> bool {
        (self.v - self.v + self.dv - self.dv).is_zero()
    }''')], PRE + '''fn main() { assert!(ADouble::new(1.0, f64::NAN).is_finite()); }''', 'a finite value with a derivative that is not a number', 'the predicate depends on the derivative')
S('c16-clone-last', 'C16', [(CKP, '''                    for _ in current_i..cp_idx {
                        current_x = forward(current_x);
                    }''', '''                    // states beyond a long stretch are taken two at a time
                    if cp_idx - current_i > 64 && (cp_idx - current_i) % 2 == 1 {
                        current_i += 1;
                    }
                    for _ in current_i..cp_idx {
                        current_x = forward(current_x);
                    }''')], PRE + '''use advantage::drivers::*;
fn main() {
    for n in [10usize, 70, 71, 200, 333] { for c in 2..5 {
        let r = reverse_sequence(0u64, n, c, |x| x + 1, |x, r: Vec<u64>| { let mut r = r; r.push(x); r }, |x| vec![x]);
        assert_eq!(r, (0..=n as u64).rev().collect::<Vec<_>>());
    } }
}''', 'a stretch of more than sixty-four steps of odd length between two stored states', 'a state is one step behind')
S('c17-spare', 'C17', [(CKP, '''    // Length of the not-yet reversed sequence
''', '''    // Long sequences keep one spare state
    let ncheckpoints = if nsteps > 60 {
        ncheckpoints + 1
    } else {
        ncheckpoints
    };

    // Length of the not-yet reversed sequence
''')], PRE + '''use advantage::drivers::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicUsize = AtomicUsize::new(0); static MAX: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)] struct St(u64);
impl St { fn new(v: u64) -> St { let n = LIVE.fetch_add(1, SeqCst) + 1; MAX.fetch_max(n, SeqCst); St(v) } }
impl Clone for St { fn clone(&self) -> St { St::new(self.0) } }
impl Drop for St { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn peak(n: usize, c: usize) -> usize {
    MAX.store(LIVE.load(SeqCst), SeqCst);
    let _: u64 = reverse_sequence(St::new(0), n, c, |x: St| St::new(x.0 + 1), |x: St, r: u64| r + x.0, |x: St| x.0);
    MAX.load(SeqCst)
}
fn main() { for c in 2..8usize { assert_eq!(peak(40, c), peak(90, c)); } }''', 'more than sixty states', 'more states are stored than checkpoints')
S('c19-len-one', 'C19', [(FN, '''        self.iter().count()''', '''        self.funcs
            .iter()
            .map(|f| f.chain().map_or(1, |c| c.funcs.len()))
            .sum()''')], PRE + '''adv_fn! { fn one(x: [[1]]) -> [[1]] { x } }
fn main() {
    let c3 = || { let mut c = FunctionChain::new(adv_fn_obj!(one)); c.append(adv_fn_obj!(one)); c };
    let mut m = FunctionChain::new(c3()); m.append(c3());
    let o = FunctionChain::new(m);
    assert_eq!(o.len(), 4); assert_eq!(o.iter().count(), 4);
}''', 'a chain nested in a chain nested in a chain', 'the length counts only one level of nesting')
