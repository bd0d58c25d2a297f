"""Generalized Jacobians: signs, multiplicity, and the limiting Jacobian (needs anf.ANF, anf.LINK)."""
from anf import *

GJ_DZ = '''
// ---- switching values of the piecewise linearization by iteration
pub broadcast axiom fn ax_veq(a: Seq<Fl>, b: Seq<Fl>) requires all_ok(a), all_ok(b) ensures #[trigger] v_eq(a, b) == (reals(a) == reals(b));
pub broadcast axiom fn ax_meq(a: Mat, b: Mat) requires m_ok(a), m_ok(b) ensures #[trigger] m_eq(a, b) == (m_r(a) == m_r(b) && m_c(a) == m_c(b) && forall|i: int, j: int| 0 <= i < m_r(a) && 0 <= j < m_c(a) ==> (#[trigger] m_at(a, i, j)).v == m_at(b, i, j).v);
pub open spec fn zrow(t: TapeV, dx: RS, b: RS, i: int) -> real { ans_a(t, i) + jcol(zt(t), dx, i) + jcol(lt(t), rabs(b), i) }
/// a is what one pass makes of b
pub open spec fn zstep(t: TapeV, dx: RS, b: Seq<Fl>, a: Seq<Fl>) -> bool { all_ok(b) && a.len() == avs(t).len() && b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> is_v(#[trigger] a[i], zrow(t, dx, reals(b), i)) }
/// the first k entries are final
pub open spec fn zprog(t: TapeV, dx: RS, a: Seq<Fl>, k: int) -> bool { all_ok(a) && a.len() == avs(t).len() && forall|j: int| 0 <= j < k && j < a.len() ==> #[trigger] a[j].v == dzs(t, dx)[j] }
pub broadcast proof fn b_zprog(t: TapeV, dx: RS, b: Seq<Fl>, a: Seq<Fl>, k: int, l: int) requires t_wf(t), dx.len() == t.indeps@.len(), zprog(t, dx, b, k), zstep(t, dx, b, a), l == k + 1, k >= 0 ensures #![trigger zprog(t, dx, b, k), zprog(t, dx, a, l)] zprog(t, dx, a, l)
{ l_solves(t, dx); let z = dzs(t, dx); assert forall|j: int| 0 <= j < l && j < a.len() implies #[trigger] a[j].v == z[j] by { assert(row_holds(t, dx, z, j)); assert forall|q: int| 0 <= q < j implies #[trigger] rabs(reals(b))[q] == rabs(z)[q] by { assert(b[q].v == z[q]); } l_row_det(t, rabs(reals(b)), rabs(z), j); assert(is_v(a[j], zrow(t, dx, reals(b), j))); } }
pub broadcast proof fn b_zbreak(t: TapeV, dx: RS, a: Seq<Fl>, b: Seq<Fl>, k: int) requires t_wf(t), dx.len() == t.indeps@.len(), v_eq(a, b) || v_eq(b, a), zprog(t, dx, b, k), zstep(t, dx, b, a) ensures #![trigger v_eq(a, b), zprog(t, dx, b, k)] #![trigger v_eq(b, a), zprog(t, dx, b, k)] zdone(t, dx, a)
{ assert(all_ok(a)) by { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).ok by { assert(is_v(a[i], zrow(t, dx, reals(b), i))); } }
  ax_veq(a, b); ax_veq(b, a); let z = reals(a); assert(reals(a) == reals(b)); assert forall|i: int| 0 <= i < z.len() implies #[trigger] row_holds(t, dx, z, i) by { assert(is_v(a[i], zrow(t, dx, reals(b), i))); } assert(solves(t, dx, z)); l_unique(t, dx, z); assert forall|i: int| 0 <= i < a.len() implies is_v(#[trigger] a[i], dzs(t, dx)[i]) by { assert(reals(a)[i] == a[i].v); } }
pub open spec fn zdone(t: TapeV, dx: RS, a: Seq<Fl>) -> bool { a.len() == avs(t).len() && forall|i: int| 0 <= i < a.len() ==> is_v(#[trigger] a[i], dzs(t, dx)[i]) }
pub broadcast proof fn b_rabs(a: Seq<Fl>, r: RS) requires a.len() == r.len(), forall|k: int| 0 <= k < a.len() ==> is_v(#[trigger] a[k], r_abs(r[k])) ensures #![trigger m_ofv(a), rabs(r)] mcol(m_ofv(a), 0) == rabs(r), m_ok(m_ofv(a)) { assert(mcol(m_ofv(a), 0) =~= rabs(r)); assert forall|i: int, j: int| 0 <= i < m_r(m_ofv(a)) && 0 <= j < m_c(m_ofv(a)) implies (#[trigger] m_at(m_ofv(a), i, j)).ok by { assert(is_v(a[i], r_abs(r[i]))); } }
pub broadcast proof fn b_mofv(a: Seq<Fl>) requires all_ok(a) ensures #![trigger m_ofv(a)] mcol(m_ofv(a), 0) == reals(a), m_ok(m_ofv(a)) { assert(mcol(m_ofv(a), 0) =~= reals(a)); }
'''
GJ_SIG = '''
// ---- signs and multiplicity
pub open spec fn zc(z: RS, k: int) -> int decreases k { if k <= 0 { 0 } else { zc(z, k - 1) + (if z[k - 1] == 0real { 1int } else { 0 }) } }
pub open spec fn bit(b: Seq<u8>, k: int) -> bool { 0 <= k && k / 8 < b.len() && bit8(b[k / 8], (k % 8) as usize) }
pub open spec fn bit8(b: u8, i: usize) -> bool { ((b >> i) & 1u8) == 1u8 }
pub broadcast proof fn b_bit(b: u8, i: usize) requires i < 8 ensures #![trigger b & (1u8 << i)] ((b & (1u8 << i)) > 0) == bit8(b, i), ((b & (1u8 << i)) != 0) == bit8(b, i) { assert((((b & (1u8 << i)) > 0) == (((b >> i) & 1u8) == 1u8)) && (((b & (1u8 << i)) != 0) == (((b >> i) & 1u8) == 1u8))) by (bit_vector) requires i < 8; }
pub open spec fn sgn(z: RS, b: Seq<u8>, j: int) -> real { if z[j] < 0real { -1real } else if z[j] > 0real { 1real } else if bit(b, zc(z, j)) { 1real } else { -1real } }
pub open spec fn sgns(t: TapeV, dx: RS, b: Seq<u8>) -> RS { Seq::new(avs(t).len(), |j: int| sgn(dzs(t, dx), b, j)) }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub broadcast proof fn b_zc(z: RS, k: int) requires k >= 0 ensures 0 <= #[trigger] zc(z, k) <= k decreases k { if k > 0 { b_zc(z, k - 1); } }
'''
GJ_U = '''
// ---- the row u with u = (g Y + u L) S, that is u = g Y S (I - L S)^-1
pub open spec fn urow(t: TapeV, g: RS, sg: RS, u: RS, j: int) -> real { jrow(lt(t), u, j) * sg[j] + jrow(yt(t), g, j) * sg[j] }
pub open spec fn u_holds(t: TapeV, g: RS, sg: RS, u: RS, j: int) -> bool { u[j] == urow(t, g, sg, u, j) }
pub open spec fn usol(t: TapeV, g: RS, sg: RS, u: RS) -> bool { u.len() == avs(t).len() && forall|j: int| 0 <= j < u.len() ==> #[trigger] u_holds(t, g, sg, u, j) }
pub open spec fn usuf(t: TapeV, g: RS, sg: RS, k: int) -> RS decreases avs(t).len() - k { if k >= avs(t).len() { zeros(avs(t).len()) } else { usuf(t, g, sg, k + 1).update(k, urow(t, g, sg, usuf(t, g, sg, k + 1), k)) } }
pub open spec fn ufix(t: TapeV, g: RS, sg: RS) -> RS { usuf(t, g, sg, 0) }
pub proof fn l_col_det(t: TapeV, x: RS, y: RS, j: int) requires t_wf(t), 0 <= j < avs(t).len(), x.len() == avs(t).len(), y.len() == x.len(), forall|k: int| j < k < x.len() ==> #[trigger] x[k] == y[k] ensures jrow(lt(t), x, j) == jrow(lt(t), y, j)
{ b_views(t); let f = |k: int| x[k] * jac(lt(t), k, j); let g = |k: int| y[k] * jac(lt(t), k, j); let n = lt(t).deps@.len() as int; assert(n == avs(t).len());
  assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { if k <= j { l_tri(t, k, j); l_mul0(x[k]); l_mul0(y[k]); } else { assert(x[k] == y[k]); } } l_sum_eq(f, g, n); }
pub proof fn l_usuf(t: TapeV, g: RS, sg: RS, k: int, j: int) requires t_wf(t), 0 <= k <= avs(t).len(), 0 <= j < avs(t).len() ensures usuf(t, g, sg, k).len() == avs(t).len(), j >= k ==> usuf(t, g, sg, k)[j] == usuf(t, g, sg, j)[j] decreases avs(t).len() - k { if k < avs(t).len() { l_usuf(t, g, sg, k + 1, j); } }
pub proof fn l_ufix(t: TapeV, g: RS, sg: RS) requires t_wf(t) ensures usol(t, g, sg, ufix(t, g, sg))
{ let u = ufix(t, g, sg); if avs(t).len() > 0 { l_usuf(t, g, sg, 0, 0); }
  assert forall|j: int| 0 <= j < u.len() implies #[trigger] u_holds(t, g, sg, u, j) by { l_usuf(t, g, sg, 0, j); l_usuf(t, g, sg, j + 1, j); let v = usuf(t, g, sg, j + 1);
    assert forall|k: int| j < k < u.len() implies #[trigger] u[k] == v[k] by { l_usuf(t, g, sg, 0, k); l_usuf(t, g, sg, j + 1, k); } l_col_det(t, u, v, j); assert(usuf(t, g, sg, j)[j] == urow(t, g, sg, v, j)); } }
pub proof fn l_uuniq_n(t: TapeV, g: RS, sg: RS, x: RS, y: RS, k: int) requires t_wf(t), usol(t, g, sg, x), usol(t, g, sg, y), 0 <= k <= avs(t).len() ensures forall|j: int| k <= j < x.len() ==> #[trigger] x[j] == y[j] decreases avs(t).len() - k
{ if k < avs(t).len() { l_uuniq_n(t, g, sg, x, y, k + 1); assert(u_holds(t, g, sg, x, k) && u_holds(t, g, sg, y, k)); l_col_det(t, x, y, k); } }
pub proof fn l_uuniq(t: TapeV, g: RS, sg: RS, x: RS) requires t_wf(t), usol(t, g, sg, x) ensures x == ufix(t, g, sg) { l_ufix(t, g, sg); l_uuniq_n(t, g, sg, x, ufix(t, g, sg), 0); assert(x =~= ufix(t, g, sg)); }
// the iteration on all rows at once
pub open spec fn ustep(t: TapeV, g: Mat, sg: RS, b: Mat, a: Mat) -> bool { m_ok(b) && m_r(b) == m_r(g) && m_c(b) == avs(t).len() && m_r(a) == m_r(g) && m_c(a) == avs(t).len() && forall|r: int, j: int| 0 <= r < m_r(g) && 0 <= j < m_c(a) ==> is_v(#[trigger] m_at(a, r, j), urow(t, mrow(g, r), sg, mrow(b, r), j)) }
pub open spec fn uprog(t: TapeV, g: Mat, sg: RS, a: Mat, k: int) -> bool { m_ok(a) && m_r(a) == m_r(g) && m_c(a) == avs(t).len() && forall|r: int, j: int| 0 <= r < m_r(g) && 0 <= j < m_c(a) && j >= m_c(a) - k ==> (#[trigger] m_at(a, r, j)).v == ufix(t, mrow(g, r), sg)[j] }
pub open spec fn udone(t: TapeV, g: Mat, sg: RS, a: Mat) -> bool { m_r(a) == m_r(g) && m_c(a) == avs(t).len() && forall|r: int, j: int| 0 <= r < m_r(g) && 0 <= j < m_c(a) ==> is_v(#[trigger] m_at(a, r, j), ufix(t, mrow(g, r), sg)[j]) }
pub broadcast proof fn b_uprog(t: TapeV, g: Mat, sg: RS, b: Mat, a: Mat, k: int, l: int) requires t_wf(t), uprog(t, g, sg, b, k), ustep(t, g, sg, b, a), l == k + 1, k >= 0 ensures #![trigger uprog(t, g, sg, b, k), uprog(t, g, sg, a, l)] uprog(t, g, sg, a, l)
{ assert forall|r: int, j: int| 0 <= r < m_r(g) && 0 <= j < m_c(a) && j >= m_c(a) - l implies (#[trigger] m_at(a, r, j)).v == ufix(t, mrow(g, r), sg)[j] by { let y = mrow(g, r); let u = ufix(t, y, sg); l_ufix(t, y, sg); assert(u_holds(t, y, sg, u, j)); let x = mrow(b, r);
    assert forall|q: int| j < q < x.len() implies #[trigger] x[q] == u[q] by { assert(m_at(b, r, q).v == u[q]); } l_col_det(t, x, u, j); assert(is_v(m_at(a, r, j), urow(t, y, sg, x, j))); }
  assert forall|r: int, j: int| 0 <= r < m_r(a) && 0 <= j < m_c(a) implies (#[trigger] m_at(a, r, j)).ok by { assert(is_v(m_at(a, r, j), urow(t, mrow(g, r), sg, mrow(b, r), j))); } }
pub broadcast proof fn b_ubreak(t: TapeV, g: Mat, sg: RS, a: Mat, b: Mat, k: int) requires t_wf(t), m_eq(a, b) || m_eq(b, a), uprog(t, g, sg, b, k), ustep(t, g, sg, b, a) ensures #![trigger m_eq(a, b), uprog(t, g, sg, b, k)] #![trigger m_eq(b, a), uprog(t, g, sg, b, k)] udone(t, g, sg, a)
{ assert forall|r: int, j: int| 0 <= r < m_r(a) && 0 <= j < m_c(a) implies (#[trigger] m_at(a, r, j)).ok by { assert(is_v(m_at(a, r, j), urow(t, mrow(g, r), sg, mrow(b, r), j))); } assert(m_ok(a) && m_ok(b)); ax_meq(a, b); ax_meq(b, a);
  assert forall|r: int, j: int| 0 <= r < m_r(g) && 0 <= j < m_c(a) implies is_v(#[trigger] m_at(a, r, j), ufix(t, mrow(g, r), sg)[j]) by { let y = mrow(g, r); let x = mrow(a, r);
    assert(x =~= mrow(b, r)) by { assert forall|q: int| 0 <= q < m_c(a) implies #[trigger] x[q] == mrow(b, r)[q] by { assert(m_at(a, r, q).v == m_at(b, r, q).v); } }
    assert forall|q: int| 0 <= q < x.len() implies #[trigger] u_holds(t, y, sg, x, q) by { assert(is_v(m_at(a, r, q), urow(t, y, sg, mrow(b, r), q))); } l_uuniq(t, y, sg, x); } }
pub broadcast proof fn b_udone(t: TapeV, g: Mat, sg: RS, a: Mat, k: int) requires uprog(t, g, sg, a, k), k == avs(t).len() ensures #![trigger uprog(t, g, sg, a, k)] udone(t, g, sg, a) { assert forall|r: int, j: int| 0 <= r < m_r(g) && 0 <= j < m_c(a) implies is_v(#[trigger] m_at(a, r, j), ufix(t, mrow(g, r), sg)[j]) by { assert(m_at(a, r, j).ok); } }
pub broadcast proof fn b_mrow_u(t: TapeV, g: Mat, sg: RS, a: Mat, r: int) requires udone(t, g, sg, a), 0 <= r < m_r(g), t_wf(t) ensures #![trigger udone(t, g, sg, a), mrow(a, r)] mrow(a, r) == ufix(t, mrow(g, r), sg), m_ok(a) { l_ufix(t, mrow(g, r), sg); assert(mrow(a, r) =~= ufix(t, mrow(g, r), sg)) by { assert forall|q: int| 0 <= q < m_c(a) implies #[trigger] mrow(a, r)[q] == ufix(t, mrow(g, r), sg)[q] by { assert(is_v(m_at(a, r, q), ufix(t, mrow(g, r), sg)[q])); } }
  assert forall|p: int, j: int| 0 <= p < m_r(a) && 0 <= j < m_c(a) implies (#[trigger] m_at(a, p, j)).ok by { assert(is_v(m_at(a, p, j), ufix(t, mrow(g, p), sg)[j])); } }
'''
GJ_RES = '''
// ---- the result
pub open spec fn avec(t: TapeV) -> RS { Seq::new(avs(t).len(), |k: int| ans_a(t, k)) }
pub open spec fn bvec(t: TapeV) -> RS { Seq::new(t.deps@.len(), |k: int| ans_b(t, k)) }
/// what follows: the next generalized Jacobian, or the identity
pub open spec fn ident(n: nat) -> Mat { m_new(n, n, |i: int, j: int| if i == j { s_lit_1_1() } else { s_lit_0_1() }) }
pub open spec fn gmat(t: TapeV, next: Option<GeneralizedJacobian>) -> Mat { match next { Some(g) => g.homogenous, None => ident(t.deps@.len()) } }
pub open spec fn goff(next: Option<GeneralizedJacobian>, r: int) -> real { match next { Some(g) => g.inhomogenous@[r].v, None => 0real } }
pub open spec fn gmul(next: Option<GeneralizedJacobian>) -> int { match next { Some(g) => g.multiplicity as int, None => 0 } }
pub open spec fn g_wf(t: TapeV, next: Option<GeneralizedJacobian>) -> bool { match next { Some(g) => m_wf(g.homogenous) && m_ok(g.homogenous) && m_c(g.homogenous) == t.deps@.len() && g.inhomogenous@.len() == m_r(g.homogenous) && all_ok(g.inhomogenous@) && g.multiplicity + avs(t).len() <= usize::MAX, None => true } }
/// row r of g Y S (I - L S)^-1
pub open spec fn us(t: TapeV, dx: RS, b: Seq<u8>, next: Option<GeneralizedJacobian>, r: int) -> RS { ufix(t, mrow(gmat(t, next), r), sgns(t, dx, b)) }
pub open spec fn g_hom(t: TapeV, dx: RS, b: Seq<u8>, next: Option<GeneralizedJacobian>, r: int, j: int) -> real { jrow(jt(t), mrow(gmat(t, next), r), j) + jrow(zt(t), us(t, dx, b, next, r), j) }
pub open spec fn g_inh(t: TapeV, dx: RS, b: Seq<u8>, next: Option<GeneralizedJacobian>, r: int) -> real { goff(next, r) + rdot(mrow(gmat(t, next), r), bvec(t)) + rdot(us(t, dx, b, next, r), avec(t)) }
pub open spec fn vals_are(y: Seq<Fl>, r: RS) -> bool { y.len() == r.len() && forall|k: int| 0 <= k < y.len() ==> is_v(#[trigger] y[k], r[k]) }
pub open spec fn dota(a: spec_fn(int) -> Fl, b: spec_fn(int) -> Fl, n: nat, x: RS, y: RS) -> bool { x.len() == n && y.len() == n && forall|k: int| 0 <= k < n ==> is_v(#[trigger] a(k), x[k]) && is_v(b(k), y[k]) }
pub proof fn l_dot_is(a: spec_fn(int) -> Fl, b: spec_fn(int) -> Fl, n: nat, x: RS, y: RS) requires dota(a, b, n, x, y) ensures is_v(s_dotn(a, b, n), rdot(x, y))
{ assert forall|k: int| 0 <= k < n implies (#[trigger] a(k)).ok && b(k).ok by { assert(is_v(a(k), x[k])); } l_dotn(a, b, n); let f = |j: int| x[j] * y[j]; assert forall|k: int| 0 <= k < n implies #[trigger] fsum(a, b)(k) == f(k) by { assert(is_v(a(k), x[k]) && is_v(b(k), y[k])); } l_sum_eq(fsum(a, b), f, n as int); }
pub broadcast proof fn b_mul_m(a: Mat, b: Mat, i: int, j: int, y: RS) requires 0 <= i < m_r(a), 0 <= j < m_c(b), m_ok(a), m_c(a) == m_r(b), m_r(b) == y.len(), forall|k: int| 0 <= k < m_r(b) ==> is_v(#[trigger] m_at(b, k, j), y[k]) ensures #![trigger m_at(m_mul(a, b), i, j), rv_(y)] is_v(m_at(m_mul(a, b), i, j), rdot(mrow(a, i), y))
{ let f = |k: int| m_at(a, i, k); let g = |k: int| m_at(b, k, j); assert forall|k: int| 0 <= k < m_c(a) implies is_v(#[trigger] f(k), mrow(a, i)[k]) && is_v(g(k), y[k]) by { assert(m_at(a, i, k).ok); assert(is_v(m_at(b, k, j), y[k])); } assert(dota(f, g, m_c(a), mrow(a, i), y)); l_dot_is(f, g, m_c(a), mrow(a, i), y); }
pub broadcast proof fn b_mul_v(a: Mat, b: Seq<Fl>, i: int, y: RS) requires 0 <= i < m_r(a), m_ok(a), m_c(a) == b.len(), vals_are(b, y) ensures #![trigger m_vec(a, b)[i], rv_(y)] is_v(m_vec(a, b)[i], rdot(mrow(a, i), y))
{ let f = |k: int| m_at(a, i, k); let g = |k: int| b[k]; assert forall|k: int| 0 <= k < m_c(a) implies is_v(#[trigger] f(k), mrow(a, i)[k]) && is_v(g(k), y[k]) by { assert(m_at(a, i, k).ok); assert(is_v(b[k], y[k])); } assert(dota(f, g, m_c(a), mrow(a, i), y)); l_dot_is(f, g, m_c(a), mrow(a, i), y); }
pub broadcast proof fn b_ident(n: nat) ensures m_ok(#[trigger] ident(n)), m_r(ident(n)) == n, m_c(ident(n)) == n, m_wf(ident(n)) { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies (#[trigger] m_at(ident(n), i, j)).ok by {} }
// ---- scaling the columns of a matrix by the signs, entry by entry
pub open spec fn sc(v: Mat, w: Mat, sg: RS, S: spec_fn(int, int) -> bool) -> bool { m_ok(w) ==> forall|p: int, q: int| 0 <= p < m_r(w) && 0 <= q < m_c(w) ==> is_v(#[trigger] m_at(v, p, q), if S(p, q) { m_at(w, p, q).v * sg[q] } else { m_at(w, p, q).v }) }
pub broadcast proof fn b_zdone(t: TapeV, dx: RS, a: Seq<Fl>, k: int) requires #[trigger] zprog(t, dx, a, k), k >= avs(t).len() ensures zdone(t, dx, a) { assert forall|j: int| 0 <= j < a.len() implies is_v(#[trigger] a[j], dzs(t, dx)[j]) by { assert(a[j].ok); assert(a[j].v == dzs(t, dx)[j]); } }
'''
GJ_COMP = '''
// ---- the result with a following generalized Jacobian is the composition of the two
pub proof fn l_sum_lin2(f: spec_fn(int) -> real, g: spec_fn(int) -> real, h: spec_fn(int) -> real, a: real, b: real, n: int) requires forall|s: int| 0 <= s < n ==> #[trigger] h(s) == a * f(s) + b * g(s) ensures rsum(h, n) == a * rsum(f, n) + b * rsum(g, n) decreases n
{ if n > 0 { l_sum_lin2(f, g, h, a, b, n - 1); assert(h(n - 1) == a * f(n - 1) + b * g(n - 1)); l_dist(a, rsum(f, n - 1), f(n - 1)); l_dist(b, rsum(g, n - 1), g(n - 1)); } else { l_mul0(a); l_mul0(b); } }
pub proof fn l_lin_mul(a: real, x: real, b: real, y: real, c: real) ensures (a * x + b * y) * c == a * (x * c) + b * (y * c) { l_dist(c, a * x, b * y); assert((a * x) * c == a * (x * c)) by (nonlinear_arith); assert((b * y) * c == b * (y * c)) by (nonlinear_arith); }
pub proof fn l_jrow_lin(t: TapeV, a: real, x: RS, b: real, y: RS, j: int) requires x.len() == t.deps@.len(), y.len() == x.len() ensures jrow(t, lin(a, x, b, y), j) == a * jrow(t, x, j) + b * jrow(t, y, j)
{ let z = lin(a, x, b, y); let f = |k: int| x[k] * jac(t, k, j); let g = |k: int| y[k] * jac(t, k, j); let h = |k: int| z[k] * jac(t, k, j);
  assert forall|k: int| 0 <= k < x.len() implies #[trigger] h(k) == a * f(k) + b * g(k) by { l_lin_mul(a, x[k], b, y[k], jac(t, k, j)); } l_sum_lin2(f, g, h, a, b, x.len() as int); }
pub proof fn l_rdot_lin(a: real, x: RS, b: real, y: RS, c: RS) requires y.len() == x.len() ensures rdot(lin(a, x, b, y), c) == a * rdot(x, c) + b * rdot(y, c)
{ let z = lin(a, x, b, y); let f = |k: int| x[k] * c[k]; let g = |k: int| y[k] * c[k]; let h = |k: int| z[k] * c[k];
  assert forall|k: int| 0 <= k < x.len() implies #[trigger] h(k) == a * f(k) + b * g(k) by { l_lin_mul(a, x[k], b, y[k], c[k]); } l_sum_lin2(f, g, h, a, b, x.len() as int); }
pub proof fn l_u_lin(t: TapeV, a: real, x: RS, b: real, y: RS, sg: RS) requires t_wf(t), x.len() == t.deps@.len(), y.len() == x.len() ensures ufix(t, lin(a, x, b, y), sg) == lin(a, ufix(t, x, sg), b, ufix(t, y, sg))
{ b_views(t); l_ufix(t, x, sg); l_ufix(t, y, sg); let (u, v) = (ufix(t, x, sg), ufix(t, y, sg)); let w = lin(a, u, b, v); let g = lin(a, x, b, y);
  assert forall|j: int| 0 <= j < w.len() implies #[trigger] u_holds(t, g, sg, w, j) by { assert(u_holds(t, x, sg, u, j) && u_holds(t, y, sg, v, j)); l_jrow_lin(lt(t), a, u, b, v, j); l_jrow_lin(yt(t), a, x, b, y, j); let s = sg[j];
    let (p, q) = (jrow(lt(t), u, j), jrow(lt(t), v, j)); let (c, d) = (jrow(yt(t), x, j), jrow(yt(t), y, j)); l_lin_mul(a, p, b, q, s); l_lin_mul(a, c, b, d, s); l_dist(a, p * s, c * s); l_dist(b, q * s, d * s); }
  l_uuniq(t, g, sg, w); }
pub open spec fn h_of(t: TapeV, sg: RS, g: RS, j: int) -> real { jrow(jt(t), g, j) + jrow(zt(t), ufix(t, g, sg), j) }
pub open spec fn i_of(t: TapeV, sg: RS, g: RS) -> real { rdot(g, bvec(t)) + rdot(ufix(t, g, sg), avec(t)) }
pub proof fn l_hi_lin(t: TapeV, sg: RS, a: real, x: RS, b: real, y: RS, j: int) requires t_wf(t), x.len() == t.deps@.len(), y.len() == x.len() ensures h_of(t, sg, lin(a, x, b, y), j) == a * h_of(t, sg, x, j) + b * h_of(t, sg, y, j), i_of(t, sg, lin(a, x, b, y)) == a * i_of(t, sg, x) + b * i_of(t, sg, y)
{ b_views(t); l_ufix(t, x, sg); l_ufix(t, y, sg); let (u, v) = (ufix(t, x, sg), ufix(t, y, sg)); l_u_lin(t, a, x, b, y, sg); l_jrow_lin(jt(t), a, x, b, y, j); l_jrow_lin(zt(t), a, u, b, v, j); l_rdot_lin(a, x, b, y, bvec(t)); l_rdot_lin(a, u, b, v, avec(t));
  l_dist(a, jrow(jt(t), x, j), jrow(zt(t), u, j)); l_dist(b, jrow(jt(t), y, j), jrow(zt(t), v, j)); l_dist(a, rdot(x, bvec(t)), rdot(u, avec(t))); l_dist(b, rdot(y, bvec(t)), rdot(v, avec(t))); }
pub open spec fn hsum(t: TapeV, sg: RS, g: RS, j: int) -> spec_fn(int) -> real { |i: int| g[i] * h_of(t, sg, unit(t.deps@.len(), i), j) }
pub open spec fn isum(t: TapeV, sg: RS, g: RS) -> spec_fn(int) -> real { |i: int| g[i] * i_of(t, sg, unit(t.deps@.len(), i)) }
pub proof fn l_hi_sum(t: TapeV, sg: RS, g: RS, k: int, j: int) requires t_wf(t), g.len() == t.deps@.len(), 0 <= k <= g.len() ensures h_of(t, sg, head(g, k), j) == rsum(hsum(t, sg, g, j), k), i_of(t, sg, head(g, k)) == rsum(isum(t, sg, g), k) decreases k
{ let z = head(g, 0);
  if k == 0 { l_hi_lin(t, sg, 0real, z, 0real, z, j); assert(lin(0real, z, 0real, z) =~= z) by { assert forall|q: int| 0 <= q < z.len() implies 0real * z[q] + 0real * z[q] == z[q] by { l_mul0(z[q]); } } l_mul0(h_of(t, sg, z, j)); l_mul0(i_of(t, sg, z)); }
  else { let p = head(g, k - 1); let u = unit(g.len(), k - 1); l_hi_sum(t, sg, g, k - 1, j); l_hi_lin(t, sg, 1real, p, g[k - 1], u, j);
    assert(lin(1real, p, g[k - 1], u) =~= head(g, k)) by { assert forall|q: int| 0 <= q < g.len() implies 1real * p[q] + g[k - 1] * u[q] == head(g, k)[q] by { l_one(p[q]); l_mul0(g[k - 1]); l_comm(g[k - 1], 1real); l_one(g[k - 1]); } }
    l_one(h_of(t, sg, p, j)); l_one(i_of(t, sg, p)); } }
/// its matrix times this one, the offsets accumulated
pub proof fn l_comp(t: TapeV, dx: RS, b: Seq<u8>, g: GeneralizedJacobian, r: int, j: int) requires t_wf(t), g_wf(t, Some(g)), 0 <= r < m_r(g.homogenous)
  ensures g_hom(t, dx, b, Some(g), r, j) == rsum(|i: int| m_at(g.homogenous, r, i).v * g_hom(t, dx, b, None, i, j), t.deps@.len() as int),
    g_inh(t, dx, b, Some(g), r) == g.inhomogenous@[r].v + rsum(|i: int| m_at(g.homogenous, r, i).v * g_inh(t, dx, b, None, i), t.deps@.len() as int)
{ let m = t.deps@.len(); let sg = sgns(t, dx, b); let x = mrow(g.homogenous, r); l_hi_sum(t, sg, x, m as int, j); assert(head(x, m as int) =~= x);
  let f = |i: int| m_at(g.homogenous, r, i).v * g_hom(t, dx, b, None, i, j); let e = |i: int| m_at(g.homogenous, r, i).v * g_inh(t, dx, b, None, i);
  assert forall|i: int| 0 <= i < m implies #[trigger] f(i) == hsum(t, sg, x, j)(i) by { assert(mrow(ident(m), i) =~= unit(m, i)); }
  assert forall|i: int| 0 <= i < m implies #[trigger] e(i) == isum(t, sg, x)(i) by { assert(mrow(ident(m), i) =~= unit(m, i)); }
  l_sum_eq(f, hsum(t, sg, x, j), m as int); l_sum_eq(e, isum(t, sg, x), m as int); }
'''
