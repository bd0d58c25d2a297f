"""The matrix a tape without absolute values represents, and products with it."""
from tapes import *
from p_c10 import REV_C
from p_c09 import FWD_C

JAC = '''
// ---- the Jacobian of a tape: entry (i, j) is the derivative of dependent i in the direction of independent j
pub open spec fn unit(n: nat, j: int) -> RS { Seq::new(n, |k: int| if k == j { 1real } else { 0real }) }
pub open spec fn jac(t: TapeV, i: int, j: int) -> real { tangent(t, unit(t.indeps@.len(), j))[t.deps@[i] as int] }
pub open spec fn jrow(t: TapeV, y: RS, j: int) -> real { rsum(|k: int| y[k] * jac(t, k, j), t.deps@.len() as int) }
pub open spec fn jcol(t: TapeV, x: RS, i: int) -> real { rsum(|k: int| jac(t, i, k) * x[k], t.indeps@.len() as int) }
pub proof fn l_sum_one(f: spec_fn(int) -> real, n: int, a: int) requires 0 <= a < n, forall|s: int| 0 <= s < n && s != a ==> #[trigger] f(s) == 0real ensures rsum(f, n) == f(a)
{ let z = |s: int| 0real; l_sum_zero(z, n); l_sum_upd(z, f, n, a); }
pub proof fn l_dot_unit(a: RS, j: int) requires 0 <= j < a.len() ensures rdot(a, unit(a.len(), j)) == a[j], rdot(unit(a.len(), j), a) == a[j]
{ let u = unit(a.len(), j); let f = |k: int| a[k] * u[k]; let g = |k: int| u[k] * a[k];
  assert forall|s: int| 0 <= s < a.len() && s != j implies #[trigger] f(s) == 0real && #[trigger] g(s) == 0real by { l_mul0(a[s]); l_comm(a[s], u[s]); }
  l_sum_one(f, a.len() as int, j); l_sum_one(g, a.len() as int, j); l_one(a[j]); l_comm(a[j], 1real); }
/// the reverse sweep multiplies by the Jacobian from the left
pub proof fn l_rev_mul(t: TapeV, y: RS, r: RS) requires t_wf(t), r.len() == t.indeps@.len(), y.len() == t.deps@.len(), forall|dx: RS| dx.len() == t.indeps@.len() ==> rdot(r, dx) == rdot(y, rpick(#[trigger] tangent(t, dx), t.deps@))
  ensures forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == jrow(t, y, j)
{ assert forall|j: int| 0 <= j < r.len() implies #[trigger] r[j] == jrow(t, y, j) by { let u = unit(r.len(), j); l_dot_unit(r, j); let d = tangent(t, u); let p = rpick(d, t.deps@);
    assert(rdot(r, u) == rdot(y, p)); let f = |k: int| y[k] * p[k]; let g = |k: int| y[k] * jac(t, k, j);
    assert forall|k: int| 0 <= k < y.len() implies #[trigger] f(k) == g(k) by {} l_sum_eq(f, g, y.len() as int); } }
pub broadcast proof fn b_jrow_unit(t: TapeV, y: RS, j: int, i: int) requires 0 <= i < t.deps@.len(), y == unit(t.deps@.len(), i) ensures #![trigger jrow(t, y, j), jac(t, i, j)] jrow(t, y, j) == jac(t, i, j)
{ let f = |k: int| y[k] * jac(t, k, j); assert forall|s: int| 0 <= s < y.len() && s != i implies #[trigger] f(s) == 0real by { l_mul0(jac(t, s, j)); l_comm(jac(t, s, j), 0real); } l_sum_one(f, y.len() as int, i); l_one(jac(t, i, j)); l_comm(jac(t, i, j), 1real); }
pub open spec fn is_unit(y: Seq<Fl>, n: nat, i: int) -> bool { y.len() == n && forall|k: int| 0 <= k < n ==> is_v(#[trigger] y[k], if k == i { 1real } else { 0real }) }
pub broadcast proof fn b_is_unit(y: Seq<Fl>, n: nat, i: int) requires #[trigger] is_unit(y, n, i) ensures reals(y) == unit(n, i), all_ok(y) { assert(reals(y) =~= unit(n, i)); }
pub open spec fn row_ok(t: TapeV, x: Seq<Fl>, i: int) -> bool { x.len() == t.indeps@.len() && (all_ok(t.vals@) && r_dom(t) ==> forall|j: int| 0 <= j < x.len() ==> is_v(#[trigger] x[j], jac(t, i, j))) }
pub open spec fn rows(t: TapeV, v: Seq<(usize, Sq<Fl>)>, lo: int, hi: int) -> bool { v.len() == hi - lo && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == lo + k && row_ok(t, v[k].1@, lo + k) }
'''
REVM_C = dict(REV_C, proof_end=REV_C['proof_end'][:-2].rstrip() + ' l_rev_mul($a0, reals($a1@), reals($r@)); assert forall|j: int| 0 <= j < $a0.indeps@.len() implies is_v(#[trigger] $r@[j], jrow($a0, reals($a1@), j)) by { assert(reals($r@)[j] == $r@[j].v); } }',
  ensures=REV_C['ensures'][:2] + [('product', 'all_ok($a0.vals@) && r_dom($a0) ==> forall|j: int| 0 <= j < $a0.indeps@.len() ==> is_v(#[trigger] $r@[j], jrow($a0, reals($a1@), j))'),
   ('row', 'forall|i: int| 0 <= i < $a0.deps@.len() && is_unit($a1@, $a0.deps@.len(), i) ==> #[trigger] row_ok($a0, $r@, i)')])
REVM_C['proof_end'] += ' assert forall|i: int| 0 <= i < $a0.deps@.len() && is_unit($a1@, $a0.deps@.len(), i) implies #[trigger] row_ok($a0, $r@, i) by { b_is_unit($a1@, $a0.deps@.len(), i); if all_ok($a0.vals@) && r_dom($a0) { assert forall|j: int| 0 <= j < $r@.len() implies is_v(#[trigger] $r@[j], jac($a0, i, j)) by { b_jrow_unit($a0, reals($a1@), j, i); assert(reals($r@)[j] == $r@[j].v); } } }'

MUL = '''
/// without absolute values the tangent is the combination of the tangents of the coordinate directions
pub open spec fn head(x: RS, m: int) -> RS { Seq::new(x.len(), |k: int| if k < m { x[k] } else { 0real }) }
pub open spec fn basis(t: TapeV, x: RS, s: int) -> spec_fn(int) -> real { |k: int| tangent(t, unit(t.indeps@.len(), k))[s] * x[k] }
pub proof fn l_basis(t: TapeV, x: RS, m: int, s: int) requires t_wf(t), no_abs(t), x.len() == t.indeps@.len(), 0 <= m <= x.len(), 0 <= s < t.vals@.len() ensures tangent(t, head(x, m))[s] == rsum(basis(t, x, s), m) decreases m
{ let n = t.ops@.len() as int; let z = head(x, 0);
  if m == 0 { l_linear(t, 0real, z, 0real, z, n); assert(lin(0real, z, 0real, z) =~= z) by { assert forall|k: int| 0 <= k < z.len() implies 0real * z[k] + 0real * z[k] == z[k] by { l_mul0(z[k]); } } l_tan_len(t, z, n); l_mul0(tangent(t, z)[s]); }
  else { let p = head(x, m - 1); let u = unit(x.len(), m - 1); l_basis(t, x, m - 1, s); l_linear(t, 1real, p, x[m - 1], u, n); l_tan_len(t, p, n); l_tan_len(t, u, n);
    assert(lin(1real, p, x[m - 1], u) =~= head(x, m)) by { assert forall|k: int| 0 <= k < x.len() implies 1real * p[k] + x[m - 1] * u[k] == head(x, m)[k] by { l_one(p[k]); l_mul0(x[m - 1]); l_comm(x[m - 1], 1real); l_one(x[m - 1]); } }
    l_one(tangent(t, p)[s]); l_comm(x[m - 1], tangent(t, u)[s]); } }
pub proof fn l_fwd_mul(t: TapeV, x: RS, i: int) requires t_wf(t), no_abs(t), x.len() == t.indeps@.len(), 0 <= i < t.deps@.len() ensures tangent(t, x)[t.deps@[i] as int] == jcol(t, x, i)
{ let s = t.deps@[i] as int; l_basis(t, x, x.len() as int, s); assert(head(x, x.len() as int) =~= x); l_sum_eq(basis(t, x, s), |k: int| jac(t, i, k) * x[k], x.len() as int); }
/// a tape the reverse sweep accepts is one the forward sweep accepts in every direction
pub proof fn l_rdom(t: TapeV, x: RS) requires t_wf(t), r_dom(t), x.len() == t.indeps@.len() ensures t_dom(t, x)
{ l_is_tan(t, x); l_tan_len(t, x, t.ops@.len() as int); let d = tangent(t, x);
  assert forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) implies op_dom(t.ops@[k], t.vals@, d) by { let c = t.ops@[k]; assert(op_wf(c, t.vals@.len() as int)); assert(op_rdom(c, t.vals@, act(t)));
    if c.opcode == OpCode::Powf { let i = c.arg1->0 as int; let j = c.arg2->0 as int; if cst(t, i) { assert(d[i] == 0real); } if cst(t, j) { assert(d[j] == 0real); } } } }
// ---- columns and rows of the operands
pub open spec fn m_ok(m: Mat) -> bool { forall|i: int, j: int| 0 <= i < m_r(m) && 0 <= j < m_c(m) ==> (#[trigger] m_at(m, i, j)).ok }
pub open spec fn mcol(m: Mat, j: int) -> RS { Seq::new(m_r(m), |k: int| m_at(m, k, j).v) }
pub open spec fn mrow(m: Mat, i: int) -> RS { Seq::new(m_c(m), |k: int| m_at(m, i, k).v) }
pub open spec fn is_col(v: Seq<Fl>, m: Mat, j: int) -> bool { v.len() == m_r(m) && forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] == m_at(m, k, j) }
pub open spec fn is_row(v: Seq<Fl>, m: Mat, i: int) -> bool { v.len() == m_c(m) && forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] == m_at(m, i, k) }
pub proof fn l_is_col(v: Seq<Fl>, m: Mat, j: int) requires is_col(v, m, j) ensures reals(v) == mcol(m, j) { assert(reals(v) =~= mcol(m, j)); }
pub proof fn l_is_row(v: Seq<Fl>, m: Mat, i: int) requires is_row(v, m, i) ensures reals(v) == mrow(m, i) { assert(reals(v) =~= mrow(m, i)); }
pub open spec fn okt(t: TapeV) -> bool { all_ok(t.vals@) && r_dom(t) }
pub open spec fn mcols(t: TapeV, m: Mat, v: Seq<(usize, Mat)>, lo: int, hi: int) -> bool { v.len() == hi - lo && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == lo + k && m_r(v[k].1) == t.deps@.len() && m_c(v[k].1) == 1 && m_wf(v[k].1) && col_is(t, m, v[k].1, lo + k) }
pub open spec fn col_is(t: TapeV, m: Mat, c: Mat, j: int) -> bool { okt(t) && m_ok(m) ==> forall|i: int| 0 <= i < t.deps@.len() ==> is_v(#[trigger] m_at(c, i, 0), jcol(t, mcol(m, j), i)) }
pub open spec fn mrows(t: TapeV, m: Mat, v: Seq<(usize, Mat)>, lo: int, hi: int) -> bool { v.len() == hi - lo && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 == lo + k && m_r(v[k].1) == 1 && m_c(v[k].1) == t.indeps@.len() && m_wf(v[k].1) && row_is(t, m, v[k].1, lo + k) }
pub open spec fn row_is(t: TapeV, m: Mat, c: Mat, i: int) -> bool { okt(t) && m_ok(m) ==> forall|j: int| 0 <= j < t.indeps@.len() ==> is_v(#[trigger] m_at(c, 0, j), jrow(t, mrow(m, i), j)) }
pub broadcast proof fn b_mrow_unit(t: TapeV, m: Mat, q: int, j: int, i: int) requires 0 <= i < t.deps@.len(), m_c(m) == t.deps@.len(), forall|k: int| 0 <= k < m_c(m) ==> is_v(#[trigger] m_at(m, q, k), if k == i { 1real } else { 0real }) ensures #![trigger jrow(t, mrow(m, q), j), jac(t, i, j)] jrow(t, mrow(m, q), j) == jac(t, i, j)
{ assert(mrow(m, q) =~= unit(t.deps@.len(), i)); b_jrow_unit(t, mrow(m, q), j, i); }
pub broadcast proof fn b_mcol_unit(t: TapeV, m: Mat, q: int, i: int, j: int) requires 0 <= j < t.indeps@.len(), m_r(m) == t.indeps@.len(), forall|k: int| 0 <= k < m_r(m) ==> is_v(#[trigger] m_at(m, k, q), if k == j { 1real } else { 0real }) ensures #![trigger jcol(t, mcol(m, q), i), jac(t, i, j)] jcol(t, mcol(m, q), i) == jac(t, i, j)
{ let u = mcol(m, q); assert(u =~= unit(t.indeps@.len(), j)); let f = |k: int| jac(t, i, k) * u[k]; assert forall|s: int| 0 <= s < u.len() && s != j implies #[trigger] f(s) == 0real by { l_mul0(jac(t, i, s)); } l_sum_one(f, u.len() as int, j); l_one(jac(t, i, j)); l_comm(jac(t, i, j), 1real); }
'''

ABSN = '''
// ---- abs-normal tapes: which operations are absolute values, and the four sub-tapes
pub open spec fn absi(o: Seq<Operation>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if o[k - 1].opcode == OpCode::Abs { absi(o, k - 1).push(k - 1) } else { absi(o, k - 1) } }
pub open spec fn absv(o: Seq<Operation>, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else if o[k - 1].opcode == OpCode::Abs { absv(o, k - 1).push(o[k - 1].vid) } else { absv(o, k - 1) } }
pub open spec fn absa(o: Seq<Operation>, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else if o[k - 1].opcode == OpCode::Abs { absa(o, k - 1).push(o[k - 1].arg1->0) } else { absa(o, k - 1) } }
pub open spec fn avs(t: TapeV) -> Seq<usize> { absv(t.ops@, t.ops@.len() as int) }
pub open spec fn aas(t: TapeV) -> Seq<usize> { absa(t.ops@, t.ops@.len() as int) }
pub open spec fn an_op(o: Operation) -> Operation { if o.opcode == OpCode::Abs { Operation { opcode: OpCode::Nop, vid: 0, arg1: None, arg2: None } } else { o } }
pub open spec fn an_ops(o: Seq<Operation>) -> Seq<Operation> { Seq::new(o.len(), |k: int| an_op(o[k])) }
pub open spec fn sub_t(t: TapeV, i: Seq<usize>, d: Seq<usize>) -> TapeV { TapeV { indeps: sqv(i), deps: sqv(d), vals: t.vals, ops: sqv(an_ops(t.ops@)) } }
pub open spec fn zt(t: TapeV) -> TapeV { sub_t(t, t.indeps@, aas(t)) }
pub open spec fn lt(t: TapeV) -> TapeV { sub_t(t, avs(t), aas(t)) }
pub open spec fn jt(t: TapeV) -> TapeV { sub_t(t, t.indeps@, t.deps@) }
pub open spec fn yt(t: TapeV) -> TapeV { sub_t(t, avs(t), t.deps@) }
pub broadcast proof fn b_sqv<A>(a: Sq<A>) ensures #[trigger] sqv(a@) == a { sq_ext(sqv(a@), a); }
pub proof fn l_absi(o: Seq<Operation>, k: int, n: int) requires 0 <= k <= o.len(), ops_wf(o, n)
  ensures absi(o, k).len() == cnt_abs(o, k), absv(o, k).len() == cnt_abs(o, k), absa(o, k).len() == cnt_abs(o, k), 0 <= cnt_abs(o, k) <= k,
    forall|j: int| 0 <= j < absi(o, k).len() ==> 0 <= #[trigger] absi(o, k)[j] < k && o[absi(o, k)[j]].opcode == OpCode::Abs && absv(o, k)[j] == o[absi(o, k)[j]].vid && absa(o, k)[j] == o[absi(o, k)[j]].arg1->0 && absv(o, k)[j] < n && absa(o, k)[j] < n,
    forall|i: int, j: int| 0 <= i < j < absi(o, k).len() ==> #[trigger] absi(o, k)[i] < #[trigger] absi(o, k)[j]
  decreases k
{ if k > 0 { l_absi(o, k - 1, n); assert(op_wf(o[k - 1], n)); } }
pub proof fn l_sub_wf(t: TapeV, i: Seq<usize>, d: Seq<usize>) requires t_wf(t), i == t.indeps@ || i == avs(t), d == t.deps@ || d == aas(t) ensures t_wf(sub_t(t, i, d)), no_abs(sub_t(t, i, d))
{ let o = t.ops@; let n = t.vals@.len() as int; let e = o.len() as int; l_absi(o, e, n); let x = absi(o, e); let u = sub_t(t, i, d);
  assert forall|j: int| 0 <= j < avs(t).len() implies #[trigger] avs(t)[j] < n by { assert(x[j] < e); }
  assert forall|j: int| 0 <= j < aas(t).len() implies #[trigger] aas(t)[j] < n by { assert(x[j] < e); }
  assert forall|k: int| 0 <= k < e implies op_wf(#[trigger] u.ops@[k], n) by { assert(op_wf(o[k], n)); }
  assert forall|a: int, b: int| 0 <= a < b < i.len() implies #[trigger] u.indeps@[a] != #[trigger] u.indeps@[b] by { if i == t.indeps@ { assert(t.indeps@[a] != t.indeps@[b]); } else { assert(x[a] < x[b]); assert(wr(o[x[a]]) && wr(o[x[b]])); } }
  assert forall|k: int, j: int| 0 <= k < e && 0 <= j < i.len() && wr(#[trigger] u.ops@[k]) implies u.ops@[k].vid != #[trigger] u.indeps@[j] by { assert(wr(o[k])); if i == t.indeps@ { assert(o[k].vid != t.indeps@[j]); } else { assert(x[j] < e); assert(wr(o[x[j]])); assert(x[j] != k); } }
  assert forall|k: int, l: int| 0 <= k < l < e && wr(#[trigger] u.ops@[k]) && wr(#[trigger] u.ops@[l]) implies u.ops@[k].vid != u.ops@[l].vid by { assert(wr(o[k]) && wr(o[l])); }
  assert forall|k: int, l: int| 0 <= k <= l < e && wr(#[trigger] u.ops@[l]) implies !rd(#[trigger] u.ops@[k], u.ops@[l].vid as int) by { assert(wr(o[l])); assert(!rd(o[k], o[l].vid as int)); } }
pub broadcast proof fn b_views(t: TapeV) requires t_wf(t) ensures #![trigger zt(t)] #![trigger lt(t)] #![trigger jt(t)] #![trigger yt(t)] t_wf(zt(t)) && no_abs(zt(t)), t_wf(lt(t)) && no_abs(lt(t)), t_wf(jt(t)) && no_abs(jt(t)), t_wf(yt(t)) && no_abs(yt(t)), avs(t).len() == cnt_abs(t.ops@, t.ops@.len() as int), aas(t).len() == cnt_abs(t.ops@, t.ops@.len() as int)
{ l_sub_wf(t, t.indeps@, aas(t)); l_sub_wf(t, avs(t), aas(t)); l_sub_wf(t, t.indeps@, t.deps@); l_sub_wf(t, avs(t), t.deps@); l_absi(t.ops@, t.ops@.len() as int, t.vals@.len() as int); }
// what the constructors leave behind
pub open spec fn an_wf(a: AbsNormalTape) -> bool { t_wf(a.inner) && a.indeps@ == a.inner.indeps@ + avs(a.inner) && a.deps@ == aas(a.inner) + a.inner.deps@ && a.n == a.inner.indeps@.len() && a.m == a.inner.deps@.len() && a.s == cnt_abs(a.inner.ops@, a.inner.ops@.len() as int) }
pub open spec fn z_wf(x: AbsNormalZ) -> bool { an_wf(x.inner) && x.indeps@ == x.inner.inner.indeps@ && x.deps@ == aas(x.inner.inner) }
pub open spec fn l_wf(x: AbsNormalL) -> bool { an_wf(x.inner) && x.indeps@ == avs(x.inner.inner) && x.deps@ == aas(x.inner.inner) }
pub open spec fn j_wf(x: AbsNormalJ) -> bool { an_wf(x.inner) && x.indeps@ == x.inner.inner.indeps@ && x.deps@ == x.inner.inner.deps@ }
pub open spec fn y_wf(x: AbsNormalY) -> bool { an_wf(x.inner) && x.indeps@ == avs(x.inner.inner) && x.deps@ == x.inner.inner.deps@ }
'''
AN = 'drivers::abs_normal::'
FWDM_C = dict(FWD_C, requires=FWD_C['requires'] + ['no_abs($a0)'],
  proof_begin=FWD_C['proof_begin'] + ' if r_dom($a0) { l_rdom($a0, reals($a1@)); l_tan_dom($a0, reals($a1@)); }',
  ensures=FWD_C['ensures'][:1] + [('product', 'okt($a0) ==> forall|m: Mat, j: int, i: int| 0 <= i < $a0.deps@.len() && is_col($a1@, m, j) ==> is_v($r@[i], #[trigger] jcol($a0, mcol(m, j), i))')],
  proof_end='if okt($a0) { assert forall|m: Mat, j: int, i: int| 0 <= i < $a0.deps@.len() && is_col($a1@, m, j) implies is_v($r@[i], #[trigger] jcol($a0, mcol(m, j), i)) by { l_is_col($a1@, m, j); l_fwd_mul($a0, reals($a1@), i); } }')
REVX_C = dict(REVM_C, ensures=REVM_C['ensures'][:1] + [('product', 'okt($a0) ==> forall|m: Mat, i: int, j: int| 0 <= j < $a0.indeps@.len() && is_row($a1@, m, i) ==> is_v($r@[j], #[trigger] jrow($a0, mrow(m, i), j))')],
  proof_end=REVM_C['proof_end'] + ' if okt($a0) { assert forall|m: Mat, i: int, j: int| 0 <= j < $a0.indeps@.len() && is_row($a1@, m, i) implies is_v($r@[j], #[trigger] jrow($a0, mrow(m, i), j)) by { l_is_row($a1@, m, i); assert(reals($r@)[j] == $r@[j].v); } }')
