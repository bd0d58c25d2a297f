"""Abs-normal forms: the piecewise linearization as a triangular system (needs mats.ABSN)."""
from mats import *

ANF = '''
// ---- the piecewise linearization of a tape through its four sub-tapes
pub open spec fn vz(t: TapeV, j: int) -> real { t.vals@[aas(t)[j] as int].v }
pub open spec fn zabs(t: TapeV) -> RS { Seq::new(avs(t).len(), |j: int| r_abs(vz(t, j))) }
pub open spec fn rabs(z: RS) -> RS { Seq::new(z.len(), |j: int| r_abs(z[j])) }
/// the increments of the absolute values in direction dx, and the switching values of the piecewise linearization there
pub open spec fn wabs(t: TapeV, dx: RS) -> RS { Seq::new(avs(t).len(), |j: int| tangent(t, dx)[avs(t)[j] as int]) }
pub open spec fn dzs(t: TapeV, dx: RS) -> RS { Seq::new(avs(t).len(), |j: int| vz(t, j) + tangent(t, dx)[aas(t)[j] as int]) }
pub open spec fn ans_a(t: TapeV, i: int) -> real { vz(t, i) - jcol(lt(t), zabs(t), i) }
pub open spec fn ans_b(t: TapeV, i: int) -> real { -jcol(yt(t), zabs(t), i) }
/// dz = a + Z dx + L|dz|
pub open spec fn row_holds(t: TapeV, dx: RS, dz: RS, i: int) -> bool { dz[i] == ans_a(t, i) + jcol(zt(t), dx, i) + jcol(lt(t), rabs(dz), i) }
pub open spec fn solves(t: TapeV, dx: RS, dz: RS) -> bool { dz.len() == avs(t).len() && forall|i: int| 0 <= i < dz.len() ==> #[trigger] row_holds(t, dx, dz, i) }
pub open spec fn okan(t: TapeV) -> bool { okt(zt(t)) && okt(lt(t)) && okt(jt(t)) && okt(yt(t)) }
pub proof fn l_cover(o: Seq<Operation>, k: int, e: int) requires 0 <= k < e <= o.len(), o[k].opcode == OpCode::Abs ensures 0 <= cnt_abs(o, k) < cnt_abs(o, e), cnt_abs(o, e) == absi(o, e).len(), absi(o, e)[cnt_abs(o, k)] == k decreases e
{ if e - 1 > k { l_cover(o, k, e - 1); } else { l_cnt0(o, k); } }
pub proof fn l_cnt0(o: Seq<Operation>, k: int) requires 0 <= k <= o.len() ensures cnt_abs(o, k) >= 0, absi(o, k).len() == cnt_abs(o, k) decreases k { if k > 0 { l_cnt0(o, k - 1); } }
pub proof fn l_deps(t: TapeV, i: Seq<usize>, d: Seq<usize>, g: Seq<usize>, x: RS, k: int) requires 0 <= k <= t.ops@.len() ensures tan_n(sub_t(t, i, d), x, k) == tan_n(sub_t(t, i, g), x, k) decreases k { if k > 0 { l_deps(t, i, d, g, x, k - 1); } }
pub open spec fn pend(t: TapeV, k: int, s: int) -> bool { exists|q: int| k <= q < t.ops@.len() && #[trigger] is_abs(t, q) && t.ops@[q].vid == s }
pub open spec fn is_abs(t: TapeV, q: int) -> bool { t.ops@[q].opcode == OpCode::Abs }
pub proof fn l_lin2(p: real, q: real, x1: real, y1: real, x2: real, y2: real) ensures p * (x1 + y1) + q * (x2 + y2) == (p * x1 + q * x2) + (p * y1 + q * y2), p * (x1 + y1) == p * x1 + p * y1 { l_dist(p, x1, y1); l_dist(q, x2, y2); }
/// the tangent is the sum of its part through the inputs and its part through the absolute values
#[verifier::rlimit(40)] pub proof fn l_super(t: TapeV, dx: RS, k: int) requires t_wf(t), dx.len() == t.indeps@.len(), 0 <= k <= t.ops@.len()
  ensures forall|s: int| 0 <= s < t.vals@.len() && !#[trigger] pend(t, k, s) ==> tan_n(t, dx, k)[s] == tan_n(zt(t), dx, k)[s] + tan_n(lt(t), wabs(t, dx), k)[s] decreases k
{ let n = t.vals@.len() as int; let e = t.ops@.len() as int; let (z, l) = (zt(t), lt(t)); let w = wabs(t, dx); let o = t.ops@; b_views(t); l_absi(o, e, n); let x = absi(o, e);
  assert(z.ops@ == an_ops(o) && l.ops@ == an_ops(o) && z.vals@ == t.vals@ && l.vals@ == t.vals@ && z.indeps@ == t.indeps@ && l.indeps@ == avs(t));
  l_tan_len(t, dx, k); l_tan_len(z, dx, k); l_tan_len(l, w, k);
  if k == 0 {
    l_rscat(zeros(n as nat), t.indeps@, dx, t.indeps@.len() as int); l_rscat(zeros(n as nat), avs(t), w, avs(t).len() as int);
    assert forall|s: int| 0 <= s < n && !#[trigger] pend(t, 0, s) implies seedt(t, dx)[s] == seedt(z, dx)[s] + seedt(l, w)[s] by {
      assert forall|j: int| 0 <= j < avs(t).len() implies #[trigger] avs(t)[j] != s by { assert(x[j] < e); assert(is_abs(t, x[j])); }
      assert(seedt(l, w)[s] == zeros(n as nat)[s]); assert(seedt(t, dx) == seedt(z, dx)); }
  } else {
    l_super(t, dx, k - 1); l_tan_len(t, dx, k - 1); l_tan_len(z, dx, k - 1); l_tan_len(l, w, k - 1);
    let c = o[k - 1]; assert(op_wf(c, n)); let (dt, dzz, dl) = (tan_n(t, dx, k - 1), tan_n(z, dx, k - 1), tan_n(l, w, k - 1));
    assert forall|s: int| 0 <= s < n && !#[trigger] pend(t, k, s) implies tan_n(t, dx, k)[s] == tan_n(z, dx, k)[s] + tan_n(l, w, k)[s] by {
      if c.opcode == OpCode::Abs && c.vid == s { l_super_abs(t, dx, k); }
      else {
        if pend(t, k - 1, s) { let q = choose|q: int| k - 1 <= q < e && #[trigger] is_abs(t, q) && o[q].vid == s; assert(is_abs(t, q)); if q == k - 1 {} else { assert(pend(t, k, s)); } }
        assert(!pend(t, k - 1, s));
        if calc(c) && c.vid == s {
          assert forall|a: int| rd(c, a) implies !pend(t, k - 1, a) by { if pend(t, k - 1, a) { let q = choose|q: int| k - 1 <= q < e && #[trigger] is_abs(t, q) && o[q].vid == a; assert(wr(o[q])); assert(!rd(o[k - 1], o[q].vid as int)); } }
          let i = c.arg1->0 as int; assert(rd(c, i)); let v = va1(c, t.vals@); assert(dt[i] == dzz[i] + dl[i]);
          if is_bin(c.opcode) { let j = c.arg2->0 as int; assert(rd(c, j)); let u = va2(c, t.vals@); assert(dt[j] == dzz[j] + dl[j]); l_lin2(p_b1(c.opcode, v, u), p_b2(c.opcode, v, u), dzz[i], dl[i], dzz[j], dl[j]); }
          else { l_lin2(p_un(c.opcode, v), 0real, dzz[i], dl[i], 0real, 0real); }
        } } } } }
/// the result of an absolute value enters through its own column only
pub proof fn l_super_abs(t: TapeV, dx: RS, k: int) requires t_wf(t), dx.len() == t.indeps@.len(), 0 < k <= t.ops@.len(), t.ops@[k - 1].opcode == OpCode::Abs
  ensures ({ let s = t.ops@[k - 1].vid as int; tan_n(zt(t), dx, k)[s] == 0real && tan_n(lt(t), wabs(t, dx), k)[s] == tangent(t, dx)[s] && tan_n(t, dx, k)[s] == tangent(t, dx)[s] })
{ let n = t.vals@.len() as int; let o = t.ops@; let e = o.len() as int; let (z, l) = (zt(t), lt(t)); let w = wabs(t, dx); b_views(t); l_absi(o, e, n); let x = absi(o, e); let c = o[k - 1]; let s = c.vid as int; assert(op_wf(c, n)); assert(wr(o[k - 1]));
  assert(z.ops@ == an_ops(o) && l.ops@ == an_ops(o) && z.vals@ == t.vals@ && l.vals@ == t.vals@ && z.indeps@ == t.indeps@ && l.indeps@ == avs(t));
  assert forall|q: int| k <= q < e && wr(#[trigger] o[q]) implies o[q].vid != s by {} l_tan_keep(t, dx, k, e, s);
  assert forall|q: int| 0 <= q < e && wr(#[trigger] z.ops@[q]) implies z.ops@[q].vid != s by { assert(wr(o[q])); if q < k - 1 {} else if q > k - 1 {} else { assert(z.ops@[q] == an_op(c)); } }
  assert(!is_indep(z, s)) by { if is_indep(z, s) { let j = choose|j: int| 0 <= j < z.indeps@.len() && #[trigger] z.indeps@[j] == s; assert(t.indeps@[j] == s); } }
  l_tan_zero(z, dx, k, s);
  l_cover(o, k - 1, e); let j = cnt_abs(o, k - 1); assert(x[j] == k - 1); assert(avs(t)[j] == s);
  l_rscat(zeros(n as nat), avs(t), w, avs(t).len() as int); assert(seedt(l, w)[avs(t)[j] as int] == w[j]);
  assert forall|q: int| 0 <= q < k && wr(#[trigger] l.ops@[q]) implies l.ops@[q].vid != s by { assert(l.ops@[q] == z.ops@[q]); } l_tan_keep(l, w, 0, k, s); }
pub proof fn l_super_at(t: TapeV, dx: RS, s: int) requires t_wf(t), dx.len() == t.indeps@.len(), 0 <= s < t.vals@.len() ensures tangent(t, dx)[s] == tangent(zt(t), dx)[s] + tangent(lt(t), wabs(t, dx))[s]
{ let e = t.ops@.len() as int; l_super(t, dx, e); assert(zt(t).ops@.len() == e && lt(t).ops@.len() == e); assert(!pend(t, e, s)); }
/// the increments in terms of the four matrices
pub proof fn l_incr(t: TapeV, dx: RS) requires t_wf(t), dx.len() == t.indeps@.len()
  ensures forall|j: int| 0 <= j < avs(t).len() ==> #[trigger] wabs(t, dx)[j] == r_abs(dzs(t, dx)[j]) - r_abs(vz(t, j)), aas(t).len() == avs(t).len(),
    forall|i: int| 0 <= i < aas(t).len() ==> tangent(t, dx)[#[trigger] aas(t)[i] as int] == jcol(zt(t), dx, i) + jcol(lt(t), wabs(t, dx), i),
    forall|i: int| 0 <= i < t.deps@.len() ==> tangent(t, dx)[#[trigger] t.deps@[i] as int] == jcol(jt(t), dx, i) + jcol(yt(t), wabs(t, dx), i)
{ let o = t.ops@; let e = o.len() as int; let n = t.vals@.len() as int; l_absi(o, e, n); l_is_tan(t, dx); b_views(t); let x = absi(o, e); let w = wabs(t, dx);
  assert forall|j: int| 0 <= j < avs(t).len() implies #[trigger] w[j] == r_abs(dzs(t, dx)[j]) - r_abs(vz(t, j)) by { assert(x[j] < e); let c = o[x[j]]; assert(op_wf(c, n)); assert(calc(o[x[j]])); }
  assert forall|i: int| 0 <= i < aas(t).len() implies tangent(t, dx)[#[trigger] aas(t)[i] as int] == jcol(zt(t), dx, i) + jcol(lt(t), w, i) by { assert(x[i] < e); l_super_at(t, dx, aas(t)[i] as int); l_fwd_mul(zt(t), dx, i); l_fwd_mul(lt(t), w, i); }
  assert forall|i: int| 0 <= i < t.deps@.len() implies tangent(t, dx)[#[trigger] t.deps@[i] as int] == jcol(jt(t), dx, i) + jcol(yt(t), w, i) by { l_super_at(t, dx, t.deps@[i] as int); l_fwd_mul(jt(t), dx, i); l_fwd_mul(yt(t), w, i); l_deps(t, t.indeps@, aas(t), t.deps@, dx, e); l_deps(t, avs(t), aas(t), t.deps@, w, e); } }
/// up to its own absolute value a switching value cannot depend on it
pub proof fn l_tri_n(t: TapeV, j: int, k: int) requires t_wf(t), 0 <= j < avs(t).len(), 0 <= k <= absi(t.ops@, t.ops@.len() as int)[j], k <= t.ops@.len()
  ensures forall|s: int| 0 <= s < t.vals@.len() && s != avs(t)[j] ==> #[trigger] tan_n(lt(t), unit(avs(t).len(), j), k)[s] == 0real decreases k
{ let l = lt(t); let u = unit(avs(t).len(), j); let o = t.ops@; let e = o.len() as int; let n = t.vals@.len() as int; b_views(t); l_absi(o, e, n); let x = absi(o, e); let q = avs(t)[j] as int;
  assert(l.ops@ == an_ops(o) && l.vals@ == t.vals@ && l.indeps@ == avs(t)); l_tan_len(l, u, k);
  if k == 0 { l_rscat(zeros(n as nat), avs(t), u, avs(t).len() as int);
    assert forall|s: int| 0 <= s < n && s != q implies #[trigger] seedt(l, u)[s] == 0real by { if exists|i: int| 0 <= i < avs(t).len() && #[trigger] avs(t)[i] == s { let i = choose|i: int| 0 <= i < avs(t).len() && #[trigger] avs(t)[i] == s; assert(seedt(l, u)[avs(t)[i] as int] == u[i]); } else { assert(seedt(l, u)[s] == zeros(n as nat)[s]); } } }
  else { l_tri_n(t, j, k - 1); l_tan_len(l, u, k - 1); let c = l.ops@[k - 1]; let d = tan_n(l, u, k - 1); assert(op_wf(o[k - 1], n)); assert(x[j] < e);
    assert(wr(o[x[j]])); assert(!rd(o[k - 1], o[x[j]].vid as int)); l_mul0(0real);
    if calc(c) { let i = c.arg1->0 as int; let v = va1(c, t.vals@); assert(d[i] == 0real); l_mul0(p_un(c.opcode, v)); if is_bin(c.opcode) { let g = c.arg2->0 as int; let y = va2(c, t.vals@); assert(d[g] == 0real); l_mul0(p_b1(c.opcode, v, y)); l_mul0(p_b2(c.opcode, v, y)); } assert(op_d(c, t.vals@, d) == 0real); } } }
/// L is strictly lower triangular
pub proof fn l_tri(t: TapeV, i: int, j: int) requires t_wf(t), 0 <= i <= j < avs(t).len() ensures jac(lt(t), i, j) == 0real
{ let l = lt(t); let u = unit(avs(t).len(), j); let o = t.ops@; let e = o.len() as int; let n = t.vals@.len() as int; b_views(t); l_absi(o, e, n); let x = absi(o, e); let s = aas(t)[i] as int;
  assert(l.ops@ == an_ops(o) && l.vals@ == t.vals@ && l.indeps@ == avs(t) && l.deps@ == aas(t));
  assert(x[i] <= x[j]) by { if i < j { assert(x[i] < x[j]); } } assert(x[i] < e && x[j] < e); assert(op_wf(o[x[i]], n)); assert(rd(o[x[i]], s)); assert(wr(o[x[j]])); assert(!rd(o[x[i]], o[x[j]].vid as int)); assert(s != avs(t)[j]);
  l_tri_n(t, j, x[i]);
  assert forall|q: int| x[i] <= q < e && wr(#[trigger] l.ops@[q]) implies l.ops@[q].vid != s by { assert(wr(o[q])); assert(!rd(o[x[i]], o[q].vid as int)); }
  l_tan_keep(l, u, x[i], e, s); }
pub proof fn l_sum_sub(f: spec_fn(int) -> real, g: spec_fn(int) -> real, h: spec_fn(int) -> real, n: int) requires forall|s: int| 0 <= s < n ==> #[trigger] f(s) - g(s) == h(s) ensures rsum(f, n) - rsum(g, n) == rsum(h, n) decreases n { if n > 0 { l_sum_sub(f, g, h, n - 1); assert(f(n - 1) - g(n - 1) == h(n - 1)); } }
pub proof fn l_jcol_sub(t: TapeV, x: RS, y: RS, w: RS, i: int) requires forall|k: int| 0 <= k < t.indeps@.len() ==> #[trigger] w[k] == x[k] - y[k] ensures jcol(t, w, i) == jcol(t, x, i) - jcol(t, y, i)
{ let f = |k: int| jac(t, i, k) * x[k]; let g = |k: int| jac(t, i, k) * y[k]; let h = |k: int| jac(t, i, k) * w[k]; let n = t.indeps@.len() as int;
  assert forall|k: int| 0 <= k < n implies #[trigger] f(k) - g(k) == h(k) by { assert(w[k] == x[k] - y[k]); l_dist(jac(t, i, k), x[k], y[k]); } l_sum_sub(f, g, h, n); }
/// the switching values of the piecewise linearization solve the system, and nothing else does
pub proof fn l_solves(t: TapeV, dx: RS) requires t_wf(t), dx.len() == t.indeps@.len() ensures solves(t, dx, dzs(t, dx))
{ l_incr(t, dx); let z = dzs(t, dx); let w = wabs(t, dx); b_views(t); assert(lt(t).indeps@ == avs(t));
  assert forall|i: int| 0 <= i < z.len() implies #[trigger] row_holds(t, dx, z, i) by {
    assert forall|k: int| 0 <= k < avs(t).len() implies #[trigger] w[k] == rabs(z)[k] - zabs(t)[k] by {}
    l_jcol_sub(lt(t), rabs(z), zabs(t), w, i); assert(tangent(t, dx)[aas(t)[i] as int] == jcol(zt(t), dx, i) + jcol(lt(t), w, i)); } }
pub proof fn l_row_det(t: TapeV, x: RS, y: RS, i: int) requires t_wf(t), 0 <= i < avs(t).len(), x.len() == avs(t).len(), y.len() == x.len(), forall|k: int| 0 <= k < i ==> #[trigger] x[k] == y[k] ensures jcol(lt(t), x, i) == jcol(lt(t), y, i)
{ let f = |k: int| jac(lt(t), i, k) * x[k]; let g = |k: int| jac(lt(t), i, k) * y[k]; let n = avs(t).len() as int;
  assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { if k >= i { l_tri(t, i, k); l_mul0(x[k]); l_mul0(y[k]); } else { assert(x[k] == y[k]); } } l_sum_eq(f, g, n); }
pub proof fn l_unique_n(t: TapeV, dx: RS, y: RS, z: RS, k: int) requires t_wf(t), solves(t, dx, y), solves(t, dx, z), 0 <= k <= y.len() ensures forall|i: int| 0 <= i < k ==> #[trigger] y[i] == z[i] decreases k
{ if k > 0 { l_unique_n(t, dx, y, z, k - 1); let i = k - 1; assert(row_holds(t, dx, y, i) && row_holds(t, dx, z, i)); assert forall|j: int| 0 <= j < i implies #[trigger] rabs(y)[j] == rabs(z)[j] by { assert(y[j] == z[j]); } l_row_det(t, rabs(y), rabs(z), i); } }
pub proof fn l_unique(t: TapeV, dx: RS, z: RS) requires t_wf(t), dx.len() == t.indeps@.len(), solves(t, dx, z) ensures z == dzs(t, dx)
{ l_solves(t, dx); l_unique_n(t, dx, z, dzs(t, dx), z.len() as int); assert(z =~= dzs(t, dx)); }
/// evaluating b + J dx + Y|dz| gives the increments of the outputs
pub proof fn l_out(t: TapeV, dx: RS, z: RS, i: int) requires t_wf(t), dx.len() == t.indeps@.len(), solves(t, dx, z), 0 <= i < t.deps@.len() ensures tangent(t, dx)[t.deps@[i] as int] == ans_b(t, i) + jcol(jt(t), dx, i) + jcol(yt(t), rabs(z), i)
{ l_unique(t, dx, z); l_incr(t, dx); let w = wabs(t, dx); assert(yt(t).indeps@ == avs(t)); assert forall|k: int| 0 <= k < avs(t).len() implies #[trigger] w[k] == rabs(z)[k] - zabs(t)[k] by {} l_jcol_sub(yt(t), rabs(z), zabs(t), w, i); assert(tangent(t, dx)[t.deps@[i] as int] == jcol(jt(t), dx, i) + jcol(yt(t), w, i)); }
'''

FTAPE = '''
// ---- a function and its tape at a point: what C06 and C20 establish about recordings
pub uninterp spec fn f_n(f: FuncV) -> nat;
pub uninterp spec fn f_m(f: FuncV) -> nat;
pub uninterp spec fn f_tape(f: FuncV, x: Seq<Fl>) -> TapeV;
#[verifier::external_body] pub fn func_n(f: FuncV) -> (r: usize) ensures r == f_n(f) { unimplemented!() }
#[verifier::external_body] pub fn func_m(f: FuncV) -> (r: usize) ensures r == f_m(f) { unimplemented!() }
#[verifier::external_body] pub fn func_tape(f: FuncV, x: Sq<Fl>) -> (r: TapeV) requires x@.len() == f_n(f) ensures r == f_tape(f, x@), t_wf(r), r.indeps@.len() == f_n(f), r.deps@.len() == f_m(f) { unimplemented!() }
'''
LINK = '''
// ---- products the code forms with dense matrices
pub open spec fn fsum(a: spec_fn(int) -> Fl, b: spec_fn(int) -> Fl) -> spec_fn(int) -> real { |k: int| a(k).v * b(k).v }
pub proof fn l_dotn(a: spec_fn(int) -> Fl, b: spec_fn(int) -> Fl, n: nat) requires forall|k: int| 0 <= k < n ==> (#[trigger] a(k)).ok && b(k).ok ensures is_v(s_dotn(a, b, n), rsum(fsum(a, b), n as int)) decreases n { if n > 0 { l_dotn(a, b, (n - 1) as nat); assert(a(n - 1).ok); } }
pub proof fn l_sum_neg(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int) requires forall|s: int| 0 <= s < n ==> #[trigger] f(s) == -g(s) ensures rsum(f, n) == -rsum(g, n) decreases n { if n > 0 { l_sum_neg(f, g, n - 1); assert(f(n - 1) == -g(n - 1)); } }
pub open spec fn row_of(a: Mat, t: TapeV, i: int, neg: bool) -> bool { m_c(a) == t.indeps@.len() && forall|k: int| 0 <= k < m_c(a) ==> is_v(#[trigger] m_at(a, i, k), if neg { -jac(t, i, k) } else { jac(t, i, k) }) }
pub open spec fn holds_v(x: Seq<Fl>, r: RS) -> bool { x.len() == r.len() && forall|k: int| 0 <= k < x.len() ==> is_v(#[trigger] x[k], r[k]) }
pub broadcast proof fn b_mvec(a: Mat, x: Seq<Fl>, t: TapeV, r: RS, i: int) requires 0 <= i < m_r(a), x.len() == m_c(a), holds_v(x, r), r.len() == t.indeps@.len()
  ensures #![trigger m_vec(a, x)[i], jcol(t, r, i)] row_of(a, t, i, false) ==> is_v(m_vec(a, x)[i], jcol(t, r, i)), row_of(a, t, i, true) ==> is_v(m_vec(a, x)[i], -jcol(t, r, i))
{ let f = |k: int| m_at(a, i, k); let g = |k: int| x[k]; let h = |k: int| jac(t, i, k) * r[k]; let n = m_c(a);
  if row_of(a, t, i, false) || row_of(a, t, i, true) { assert forall|k: int| 0 <= k < n implies (#[trigger] f(k)).ok && g(k).ok by { assert(m_at(a, i, k).ok && x[k].ok); } l_dotn(f, g, n); assert(m_vec(a, x)[i] == s_dotn(f, g, n)); }
  if row_of(a, t, i, false) { assert forall|k: int| 0 <= k < n implies #[trigger] fsum(f, g)(k) == h(k) by { assert(is_v(m_at(a, i, k), jac(t, i, k))); } l_sum_eq(fsum(f, g), h, n as int); }
  if row_of(a, t, i, true) { assert forall|k: int| 0 <= k < n implies #[trigger] fsum(f, g)(k) == -h(k) by { assert(is_v(m_at(a, i, k), -jac(t, i, k))); l_negmul(jac(t, i, k), r[k]); } l_sum_neg(fsum(f, g), h, n as int); } }
pub broadcast proof fn b_mcol_is(m: Mat, j: int, r: RS) requires m_r(m) == r.len(), forall|k: int| 0 <= k < m_r(m) ==> is_v(#[trigger] m_at(m, k, j), r[k]) ensures #![trigger mcol(m, j), rv_(r)] mcol(m, j) == r { assert(mcol(m, j) =~= r); }
pub open spec fn rv_(r: RS) -> RS { r }
pub broadcast proof fn b_pick(v: Seq<Fl>, s: Seq<usize>, x: usize) ensures #[trigger] pick(v, s.push(x)) == pick(v, s).push(v[x as int]) { assert(pick(v, s.push(x)) =~= pick(v, s).push(v[x as int])); }
'''
ANF_RES = '''
// ---- what an abs-normal form must be
pub open spec fn anf_sizes(r: AbsNormalForm, t: TapeV) -> bool { let s = cnt_abs(t.ops@, t.ops@.len() as int); let n = t.indeps@.len(); let m = t.deps@.len();
  m_wf(r.zmat) && m_r(r.zmat) == s && m_c(r.zmat) == n && m_wf(r.lmat) && m_r(r.lmat) == s && m_c(r.lmat) == s && m_wf(r.jmat) && m_r(r.jmat) == m && m_c(r.jmat) == n && m_wf(r.ymat) && m_r(r.ymat) == m && m_c(r.ymat) == s && r.a@.len() == s && r.b@.len() == m }
pub open spec fn is_jac(m: Mat, t: TapeV) -> bool { forall|i: int, j: int| 0 <= i < m_r(m) && 0 <= j < m_c(m) ==> is_v(#[trigger] m_at(m, i, j), jac(t, i, j)) }
pub open spec fn lower(m: Mat) -> bool { forall|i: int, j: int| 0 <= i <= j < m_c(m) && i < m_r(m) ==> is_v(#[trigger] m_at(m, i, j), 0real) }
// solving with the returned numbers and evaluating them
pub open spec fn prow(m: Mat, i: int, x: RS) -> real { rsum(|k: int| m_at(m, i, k).v * x[k], m_c(m) as int) }
pub open spec fn r_row(r: AbsNormalForm, dx: RS, dz: RS, i: int) -> bool { dz[i] == r.a@[i].v + prow(r.zmat, i, dx) + prow(r.lmat, i, rabs(dz)) }
pub open spec fn r_solves(r: AbsNormalForm, dx: RS, dz: RS) -> bool { dz.len() == r.a@.len() && forall|i: int| 0 <= i < dz.len() ==> #[trigger] r_row(r, dx, dz, i) }
pub open spec fn r_out(r: AbsNormalForm, dx: RS, dz: RS, i: int) -> real { r.b@[i].v + prow(r.jmat, i, dx) + prow(r.ymat, i, rabs(dz)) }
pub open spec fn anf_is(r: AbsNormalForm, t: TapeV) -> bool { anf_sizes(r, t) && is_jac(r.zmat, zt(t)) && is_jac(r.lmat, lt(t)) && is_jac(r.jmat, jt(t)) && is_jac(r.ymat, yt(t))
  && (forall|i: int| 0 <= i < r.a@.len() ==> is_v(#[trigger] r.a@[i], ans_a(t, i))) && (forall|i: int| 0 <= i < r.b@.len() ==> is_v(#[trigger] r.b@[i], ans_b(t, i))) }
pub open spec fn anf_pl(r: AbsNormalForm, t: TapeV, dx: RS) -> bool { r_solves(r, dx, dzs(t, dx)) && forall|dz: RS| #[trigger] r_solves(r, dx, dz) ==> forall|i: int| 0 <= i < t.deps@.len() ==> #[trigger] r_out(r, dx, dz, i) == tangent(t, dx)[t.deps@[i] as int] }
pub proof fn l_prow(m: Mat, t: TapeV, i: int, x: RS) requires is_jac(m, t), m_c(m) == t.indeps@.len(), 0 <= i < m_r(m) ensures prow(m, i, x) == jcol(t, x, i)
{ let f = |k: int| m_at(m, i, k).v * x[k]; let g = |k: int| jac(t, i, k) * x[k]; assert forall|k: int| 0 <= k < m_c(m) implies #[trigger] f(k) == g(k) by { assert(is_v(m_at(m, i, k), jac(t, i, k))); } l_sum_eq(f, g, m_c(m) as int); }
/// the theorem: such an abs-normal form represents the piecewise linearization in every direction
pub proof fn l_anf(r: AbsNormalForm, t: TapeV, dx: RS) requires t_wf(t), anf_is(r, t), dx.len() == t.indeps@.len() ensures anf_pl(r, t, dx)
{ b_views(t); let z = dzs(t, dx); l_solves(t, dx); 
  assert forall|i: int| 0 <= i < z.len() implies #[trigger] r_row(r, dx, z, i) by { assert(row_holds(t, dx, z, i)); l_prow(r.zmat, zt(t), i, dx); l_prow(r.lmat, lt(t), i, rabs(z)); assert(is_v(r.a@[i], ans_a(t, i))); }
  assert forall|dz: RS| #[trigger] r_solves(r, dx, dz) implies forall|i: int| 0 <= i < t.deps@.len() ==> #[trigger] r_out(r, dx, dz, i) == tangent(t, dx)[t.deps@[i] as int] by {
    assert forall|i: int| 0 <= i < dz.len() implies #[trigger] row_holds(t, dx, dz, i) by { assert(r_row(r, dx, dz, i)); l_prow(r.zmat, zt(t), i, dx); l_prow(r.lmat, lt(t), i, rabs(dz)); assert(is_v(r.a@[i], ans_a(t, i))); }
    assert(solves(t, dx, dz));
    assert forall|i: int| 0 <= i < t.deps@.len() implies #[trigger] r_out(r, dx, dz, i) == tangent(t, dx)[t.deps@[i] as int] by { l_out(t, dx, dz, i); l_prow(r.jmat, jt(t), i, dx); l_prow(r.ymat, yt(t), i, rabs(dz)); assert(is_v(r.b@[i], ans_b(t, i))); } } }
pub proof fn l_anf_lower(r: AbsNormalForm, t: TapeV) requires t_wf(t), anf_is(r, t) ensures lower(r.lmat)
{ b_views(t); assert forall|i: int, j: int| 0 <= i <= j < m_c(r.lmat) && i < m_r(r.lmat) implies is_v(#[trigger] m_at(r.lmat, i, j), 0real) by { l_tri(t, i, j); assert(is_v(m_at(r.lmat, i, j), jac(lt(t), i, j))); } }
'''
WORLD1 = '#[verifier::external_body] #[derive(Clone, Copy)] pub struct World { x: u8 }\n'
