"""Checkpointed reversal: states, schedules, and the cost of a schedule."""
from engine import *
CK = 'drivers::checkpointing::'
RS, SCH, NX, FT, BETA = CK + 'reverse_sequence', CK + 'schedule', CK + 'next_checkpoint', CK + 'find_t', CK + 'beta'

MODEL = '''
// ---- the three closures of the caller: functions of their arguments; the world counts the calls
#[verifier::external_body] #[derive(Clone, Copy)] pub struct World { x: u8 }
pub uninterp spec fn w_steps(w: World) -> int;
pub uninterp spec fn w_revs(w: World) -> int;
pub uninterp spec fn fwd(x: TT) -> TT;
pub uninterp spec fn rvs(x: TT, r: RR) -> RR;
pub uninterp spec fn idn(x: TT) -> RR;
#[verifier::external_body] pub fn call_fwd(w: World, x: TT) -> (r: (TT, World)) ensures r.0 == fwd(x), w_steps(r.1) == w_steps(w) + 1, w_revs(r.1) == w_revs(w) { unimplemented!() }
#[verifier::external_body] pub fn call_rvs(w: World, x: TT, y: RR) -> (r: (RR, World)) ensures r.0 == rvs(x, y), w_steps(r.1) == w_steps(w), w_revs(r.1) == w_revs(w) + 1 { unimplemented!() }
#[verifier::external_body] pub fn call_idn(w: World, x: TT) -> (r: (RR, World)) ensures r.0 == idn(x), w_steps(r.1) == w_steps(w), w_revs(r.1) == w_revs(w) + 1 { unimplemented!() }
/// the state after k steps, and the reversal that stores every state
pub open spec fn stt(x: TT, k: int) -> TT decreases k { if k <= 0 { x } else { fwd(stt(x, k - 1)) } }
pub open spec fn naive(x: TT, k: int, n: int) -> RR decreases n - k { if k >= n { idn(stt(x, n)) } else { rvs(stt(x, k), naive(x, k + 1, n)) } }
'''
BIN = '''
// ---- binomial coefficients: bn(c, t) = C(c + t, c)
pub open spec fn bn(c: int, t: int) -> int decreases c + t when c >= 0 && t >= 0 { if c <= 0 || t <= 0 { 1 } else { bn(c - 1, t) + bn(c, t - 1) } }
/// num::integer::binomial computes binomial coefficients (Pascal's recurrence)
pub broadcast axiom fn ax_binom(n: int, k: int) requires 0 <= k <= n ensures #[trigger] s_binom(n, k) == bn(k, n - k);
pub open spec fn bt(c: int, t: int) -> int { if c <= 0 || t <= 0 { 0 } else { bn(c, t) } }
pub proof fn l_bn_pos(c: int, t: int) requires c >= 0, t >= 0 ensures bn(c, t) >= 1 decreases c + t { if c > 0 && t > 0 { l_bn_pos(c - 1, t); l_bn_pos(c, t - 1); } }
pub proof fn l_bn_mono(c: int, d: int, t: int, s: int) requires 0 <= c <= d, 0 <= t <= s ensures bn(c, t) <= bn(d, s) decreases d - c + s - t
{ if c < d { l_bn_mono(c, d - 1, t, s); if s > 0 { l_bn_pos(d, s - 1); } } else if t < s { l_bn_mono(c, d, t, s - 1); if d > 0 { l_bn_pos(d - 1, s); } } }
pub proof fn l_bn_grow(c: int, t: int) requires c >= 0, t >= 1 ensures bn(c, t) <= (c + 1) * bn(c, t - 1) decreases c
{ l_bn_pos(c, t - 1); if c > 0 { l_bn_grow(c - 1, t); l_bn_mono(c - 1, c, t - 1, t - 1); let a = bn(c - 1, t - 1); let b = bn(c, t - 1);
    assert(c * a <= c * b) by (nonlinear_arith) requires a <= b, c > 0; assert((c + 1) * b == c * b + b) by (nonlinear_arith); } }
pub proof fn l_bn_one(c: int) requires c >= 0 ensures bn(c, 1) == c + 1, bn(1, c) == c + 1 decreases c { if c > 0 { l_bn_one(c - 1); } reveal_with_fuel(bn, 3); }
'''
BIN += '''
/// t is the number of repetitions for r states and c slots
pub open spec fn reps(c: int, r: int, t: int) -> bool { bt(c, t - 1) < r <= bt(c, t) }
pub broadcast proof fn b_reps(c: int, r: int, t: int) requires #[trigger] reps(c, r, t), 2 <= c, c + 2 <= r < 0x1_0000_0000
  ensures 2 <= t <= r, 0 < bt(c, t) <= usize::MAX, bt(c, t) == bt(c, t - 1) + bt(c - 1, t), 0 < bt(c, t - 1) < r, 0 <= bt(c - 2, t - 1) <= bt(c, t - 1), 0 <= bt(c - 3, t) <= bt(c, t), 0 <= bt(c, t - 2) <= bt(c, t - 1), 0 <= bt(c - 1, t - 1) <= bt(c, t - 1), bt(c, t - 1) == bt(c - 1, t - 1) + bn(c, t - 2), bt(c - 2, t) <= bt(c - 1, t), bt(c - 1, t) <= usize::MAX
{ assert(t >= 1); l_bn_one(c); if t == 1 { assert(bt(c, 1) == c + 1); } l_bn_grow(c, t); l_bn_pos(c, t - 1); let b = bn(c, t - 1);
  assert((c + 1) * b <= usize::MAX) by (nonlinear_arith) requires 0 < c + 1 < 0x1_0000_0000, 0 < b < 0x1_0000_0000;
  l_bn_mono(c - 2, c - 1, t, t); l_bn_mono(c - 2, c, t - 1, t - 1); l_bn_pos(c - 2, t); l_bn_pos(c - 2, t - 1); l_bn_mono(c - 1, c, t - 1, t - 1); l_bn_pos(c - 1, t); l_bn_pos(c - 1, t - 1); l_bn_pos(c, t - 2); l_bn_mono(c, c, t - 2, t - 1); l_bn_pos(c, t);
  l_bn_one(t - 1); l_bn_mono(1, c, t - 1, t - 1); if c > 2 { l_bn_mono(c - 3, c, t, t); l_bn_pos(c - 3, t); } reveal_with_fuel(bn, 2); }
'''
LIM = '0x1_0000_0000'
# what a schedule for r states with c free slots may choose as the position of its first checkpoint
WEAK = 'pub open spec fn okk(c: int, r: int, k: int) -> bool { 1 <= k < r && (c == 1 ==> k == r - 1) }\n'
OPT = '''
// ---- the cost of a binary schedule; B(c, j) is the longest stretch some state of which is recomputed at most j times
pub open spec fn bb(c: int, j: int) -> int { if j <= 0 { 0 } else { bn(c, j - 1) } }
pub open spec fn pos(x: int) -> int { if x > 0 { x } else { 0 } }
pub open spec fn osum(c: int, r: int, m: int) -> int decreases m { if m <= 0 { 0 } else { osum(c, r, m - 1) + pos(r - bb(c, m)) } }
pub open spec fn osh(c: int, k: int, m: int) -> int decreases m { if m <= 0 { 0 } else { osh(c, k, m - 1) + pos(k - bb(c, m - 1)) } }
/// the least number of forward steps for r states, the first of them stored, with c free slots
pub open spec fn opt(c: int, r: int) -> int { osum(c, r, r) }
/// the condition under which the first checkpoint at k is a best choice
pub open spec fn okt(c: int, r: int, k: int, t: int) -> bool { t >= 1 && bb(c, t - 1) <= k <= bb(c, t) && bb(c - 1, t) <= r - k <= bb(c - 1, t + 1) }
pub open spec fn okk(c: int, r: int, k: int) -> bool { 1 <= k < r && (c == 1 ==> k == r - 1) && exists|t: int| #[trigger] okt(c, r, k, t) }
pub proof fn l_bb_big(c: int, j: int) requires c >= 1, j >= 1 ensures bb(c, j) >= j { l_bn_mono(1, c, j - 1, j - 1); l_bn_one(j - 1); }
pub proof fn l_bb_mono(c: int, i: int, j: int) requires c >= 0, 0 <= i <= j ensures bb(c, i) <= bb(c, j) { if i > 0 { l_bn_mono(c, c, i - 1, j - 1); } else if j > 0 { l_bn_pos(c, j - 1); } }
pub proof fn l_shift(c: int, k: int, m: int) requires m >= 0, k >= 0 ensures osh(c, k, m + 1) == k + osum(c, k, m) decreases m { reveal_with_fuel(osh, 3); if m > 0 { l_shift(c, k, m - 1); } }
pub proof fn l_tail(c: int, r: int, m: int) requires c >= 0, r >= 0, m >= r, c >= 1 || r <= 1 ensures osum(c, r, m) == osum(c, r, r) decreases m
{ if m > r { l_tail(c, r, m - 1); if c >= 1 { l_bb_big(c, m); } else { l_bn_pos(0, m - 1); } } }
pub proof fn l_pair(c: int, r: int, k: int, m: int) requires c >= 1, 1 <= k < r, m >= 0
  ensures osum(c - 1, r - k, m) + osh(c, k, m) >= osum(c, r, m), forall|t: int| #[trigger] okt(c, r, k, t) ==> osum(c - 1, r - k, m) + osh(c, k, m) == osum(c, r, m) decreases m
{ if m > 0 { l_pair(c, r, k, m - 1); assert(bb(c, m) == bb(c - 1, m) + bb(c, m - 1)) by { reveal_with_fuel(bn, 2); }
    assert forall|t: int| #[trigger] okt(c, r, k, t) implies pos(r - k - bb(c - 1, m)) + pos(k - bb(c, m - 1)) == pos(r - bb(c, m)) by { if m <= t { l_bb_mono(c - 1, m, t); l_bb_mono(c, m - 1, t - 1); } else { l_bb_mono(c - 1, t + 1, m); l_bb_mono(c, t, m - 1); } } } }
/// a first checkpoint at k costs at least the optimum, and exactly the optimum when the condition holds
pub proof fn l_split(c: int, r: int, k: int) requires c >= 1, 1 <= k < r, c == 1 ==> k == r - 1 ensures k + opt(c - 1, r - k) + opt(c, k) >= opt(c, r), okk(c, r, k) ==> k + opt(c - 1, r - k) + opt(c, k) == opt(c, r)
{ l_pair(c, r, k, r); l_shift(c, k, r); l_shift(c, k, r - 1); l_tail(c - 1, r - k, r); l_tail(c, k, r); l_tail(c, k, r - 1); }
pub proof fn l_opt_one(c: int) requires c >= 0 ensures opt(c, 1) == 0 { l_bn_pos(c, 0); reveal_with_fuel(osum, 3); reveal_with_fuel(bn, 2); }
/// every way of placing checkpoints: a tree of first checkpoints, the stretch behind each reversed first
pub enum Plan { Done, Place(int, Box<Plan>, Box<Plan>) }
pub open spec fn valid(p: Plan, c: int, r: int) -> bool decreases p { match p { Plan::Done => r == 1, Plan::Place(k, a, b) => c >= 1 && 1 <= k < r && valid(*a, c - 1, r - k) && valid(*b, c, k) } }
pub open spec fn cost(p: Plan) -> int decreases p { match p { Plan::Done => 0, Plan::Place(k, a, b) => k + cost(*a) + cost(*b) } }
pub proof fn l_optimal(p: Plan, c: int, r: int) requires c >= 0, valid(p, c, r) ensures cost(p) >= opt(c, r) decreases p
{ match p { Plan::Done => { l_opt_one(c); } Plan::Place(k, a, b) => { l_optimal(*a, c - 1, r - k); l_optimal(*b, c, k); if c == 1 { l_zero(*a, r - k); } l_split(c, r, k); } } }
pub proof fn l_zero(p: Plan, r: int) requires valid(p, 0, r) ensures r == 1 { }
/// with a slot for every state each step is executed once
pub proof fn l_all_stored(c: int, r: int) requires c >= r - 1, r >= 1 ensures opt(c, r) == r - 1 { l_all_m(c, r, r); }
pub proof fn l_all_m(c: int, r: int, m: int) requires c >= r - 1, r >= 1, m >= 1 ensures osum(c, r, m) == r - 1 decreases m
{ if m == 1 { reveal_with_fuel(osum, 3); reveal_with_fuel(bn, 2); } else { l_all_m(c, r, m - 1); l_bn_one(c); l_bn_mono(c, c, 1, m - 1); } }
/// the choice between the three candidates for t repetitions
pub open spec fn clamp(k: int, r: int) -> int { if k < 1 { 1 } else if k > r - 1 { r - 1 } else { k } }
pub broadcast proof fn b_ok_one(c: int, r: int, k: int) requires c >= 1, 2 <= r <= c + 1, k == 1 ensures #[trigger] okk(c, r, k) { l_bn_one(c); l_bn_one(c - 1); l_bn_pos(c - 1, 0); l_bn_pos(c, 0); reveal_with_fuel(bn, 2); assert(okt(c, r, 1, 1)); }
pub broadcast proof fn b_ok_last(c: int, r: int, k: int) requires c == 1, r >= 2, k == r - 1 ensures #[trigger] okk(c, r, k) { if r > 2 { l_bn_one(r - 3); } l_bn_one(r - 2); reveal_with_fuel(bn, 2); assert(okt(1, r, r - 1, r - 1)); }
pub broadcast proof fn b_choice(c: int, r: int, t: int, k2: int) requires #[trigger] reps(c, r, t), c >= 2, c + 2 <= r < 0x1_0000_0000,
    (r <= bt(c, t - 1) + bt(c - 2, t - 1) && k2 == clamp(bt(c, t - 2), r)) || (r > bt(c, t - 1) + bt(c - 2, t - 1) && r >= bt(c, t) - bt(c - 3, t) && k2 == clamp(bt(c, t - 1), r)) || (r > bt(c, t - 1) + bt(c - 2, t - 1) && r < bt(c, t) - bt(c - 3, t) && k2 == clamp(r - bt(c - 1, t - 1) - bt(c - 2, t - 1), r))
  ensures #[trigger] okk(c, r, k2)
{ b_reps(c, r, t); let k = if r <= bt(c, t - 1) + bt(c - 2, t - 1) { bt(c, t - 2) } else if r >= bt(c, t) - bt(c - 3, t) { bt(c, t - 1) } else { r - bt(c - 1, t - 1) - bt(c - 2, t - 1) }; l_choice(c, r, t, k); }
pub proof fn l_choice(c: int, r: int, t: int, k: int) requires c >= 2, r >= c + 2, bt(c, t - 1) < r <= bt(c, t), t >= 2,
    (r <= bt(c, t - 1) + bt(c - 2, t - 1) && k == bt(c, t - 2)) || (r > bt(c, t - 1) + bt(c - 2, t - 1) && r >= bt(c, t) - bt(c - 3, t) && k == bt(c, t - 1)) || (r > bt(c, t - 1) + bt(c - 2, t - 1) && r < bt(c, t) - bt(c - 3, t) && k == r - bt(c - 1, t - 1) - bt(c - 2, t - 1))
  ensures okk(c, r, if k < 1 { 1 } else if k > r - 1 { r - 1 } else { k })
{ let k2 = if k < 1 { 1 } else if k > r - 1 { r - 1 } else { k };
  l_bn_pos(c, t - 1); l_bn_pos(c, t - 2); l_bn_pos(c - 1, t - 1); l_bn_pos(c - 2, t - 1); l_bn_pos(c - 2, t); l_bn_mono(c - 2, c - 2, t - 1, t); if c > 2 { l_bn_mono(c - 3, c - 2, t, t); l_bn_pos(c - 3, t); l_bn_pos(c - 3, t - 1); }
  reveal_with_fuel(bn, 2);
  assert(bn(c, t) == bn(c - 1, t) + bn(c, t - 1)); assert(bn(c, t - 1) == bn(c - 1, t - 1) + bn(c, t - 2)); assert(bn(c - 1, t) == bn(c - 2, t) + bn(c - 1, t - 1)); if c > 2 { assert(bn(c - 2, t) == bn(c - 3, t) + bn(c - 2, t - 1)); }
  assert(okt(c, r, k2, t)); }
// ---- what is still to be spent for the stored states s when the last of them starts a stretch that ends before r
pub open spec fn rem(s: Seq<(usize, TT)>, r: int, nc: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { opt(nc - s.len(), r - s.last().0) + rem(s.drop_last(), s.last().0 as int, nc) } }
pub broadcast proof fn b_rem_push(s: Seq<(usize, TT)>, e: (usize, TT), r: int, nc: int) requires s.len() > 0, s.len() < nc, okk(nc - s.len(), r - s.last().0, e.0 - s.last().0), nc > 0
  ensures #[trigger] rem(s.push(e), r, nc) + (e.0 - s.last().0) == rem(s, r, nc)
{ assert(s.push(e).drop_last() =~= s); l_split(nc - s.len(), r - s.last().0, e.0 - s.last().0); reveal_with_fuel(rem, 3); }
pub broadcast proof fn b_rem_init(s: Seq<(usize, TT)>, e: (usize, TT), r: int, nc: int) requires s.len() == 0 ensures #[trigger] rem(s.push(e), r, nc) == opt(nc - 1, r - e.0) { assert(s.push(e).drop_last() =~= s); reveal_with_fuel(rem, 3); }
pub broadcast proof fn b_rem_pop(s: Seq<(usize, TT)>, r: int, nc: int) requires s.len() > 0, s.len() <= nc, s.last().0 == r - 1 ensures #![trigger rem(s, r, nc), s.drop_last()] rem(s, r, nc) == rem(s.drop_last(), r - 1, nc)
{ l_opt_one(nc - s.len()); }
'''
SEQ = '''
// ---- schedules: prv is the position before entry i, each entry is a choice for what is left
pub open spec fn prv(s: Seq<usize>, i: int) -> int { if i <= 0 { 0 } else { s[i - 1] as int } }
pub open spec fn sch(c: int, r: int, s: Seq<usize>, n: int) -> bool { 0 <= n <= s.len() && (n > 0 ==> n <= c) && forall|i: int| 0 <= i < n ==> okk(c - i, r - prv(s, i), #[trigger] s[i] - prv(s, i)) }
pub open spec fn full(c: int, r: int, s: Seq<usize>) -> bool { sch(c, r, s, s.len() as int) && (c >= 1 && r >= 1 ==> r - prv(s, s.len() as int) <= 1) }
// ---- the stored states
#[verifier::opaque] pub open spec fn stored(s: Seq<(usize, TT)>, x: TT, r: int, nc: int) -> bool { s.len() <= nc && (r > 0 ==> s.len() > 0 && s[0].0 == 0 && s.last().0 < r && (s.len() < nc || r == s.last().0 + 1)) && (r <= 0 ==> s.len() == 0) && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == stt(x, s[i].0 as int)) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0) }
pub broadcast proof fn b_stored(s: Seq<(usize, TT)>, x: TT, r: int, nc: int) requires #[trigger] stored(s, x, r, nc) ensures s.len() <= nc, r > 0 ==> s.len() > 0 && s.last().0 < r && s.last().1 == stt(x, s.last().0 as int) && (s.len() < nc || r == s.last().0 + 1), r <= 0 ==> s.len() == 0 { reveal(stored); }
pub broadcast proof fn b_stored_init(s: Seq<(usize, TT)>, e: (usize, TT), x: TT, r: int, nc: int) requires s.len() == 0, e.0 == 0, e.1 == x, r > 0, nc >= 2 ensures #[trigger] stored(s.push(e), x, r, nc) { reveal(stored); }
pub broadcast proof fn b_stored_push(s: Seq<(usize, TT)>, e: (usize, TT), x: TT, r: int, nc: int) requires stored(s, x, r, nc), s.len() > 0, s.len() < nc, s.last().0 < e.0 < r, e.1 == stt(x, e.0 as int), s.len() + 1 == nc ==> r == e.0 + 1 ensures #[trigger] stored(s.push(e), x, r, nc) { reveal(stored); }
pub broadcast proof fn b_stored_pop(s: Seq<(usize, TT)>, x: TT, r: int, nc: int) requires stored(s, x, r + 1, nc), r + 1 > 0, s.last().0 == r ensures #![trigger stored(s.drop_last(), x, r, nc)] stored(s.drop_last(), x, r, nc) { reveal(stored); let p = s.drop_last(); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).1 == stt(x, p[i].0 as int) by { assert(p[i] == s[i]); } if s.len() > 1 { assert(s[s.len() - 2].0 < s[s.len() - 1].0); assert(s[0].0 < s[s.len() - 1].0); } }
'''

def clo(fn, tys, ret):
    from translate import PyClo, R
    def make(tr0):
        def f(tr, args):
            vs = []
            for a in args:
                r = tr.rv(a); vs.append(r)
            if len(vs) == 1 and vs[0].ty.startswith('('): raise Unsupported('closure arguments')
            t = tr.tmp(); tr.emit(f"let {t} = {fn}(w, {', '.join(v.t for v in vs)});"); tr.emit(f'w = {t}.1;'); tr.mark_mod('w')
            tr.scope.append((f'{t}.0', ret))
            return R(f'{t}.0', ret)
        return PyClo(f)
    return make

def contracts(pid, lenient=False):
    c = {}
    no_ovf = f'2 <= $a0 && $a0 + 2 <= $a1 < {LIM}'
    c[BETA] = dict(requires=['bt($a0 as int, $a1 as int) <= usize::MAX'], ensures=[('binomial coefficient', '$r == bt($a0 as int, $a1 as int)')])
    c[FT] = dict(elsewhere='repetitions', requires=[no_ovf], ensures=[('number of repetitions', 'reps($a0 as int, $a1 as int, $r as int)')])
    c[NX] = dict(requires=[no_ovf], ensures=[('choice', 'okk($a0 as int, $a1 as int, clamp($r as int, $a1 as int))')] if pid == 'C18' else [])
    idx = [T('sch($a0 as int, $a1 as int, {v}@, {v}@.len() as int)', mod={'v': 'Sq<usize>'}),
           T('{o} == prv({s}@, {s}@.len() as int)', mod={'o': 'usize'}, scope={'s': 'Sq<usize>'}), T('{o} == $a1 - prv({s}@, {s}@.len() as int)', mod={'o': 'usize'}, scope={'s': 'Sq<usize>'}),
           T('{o} == $a0 - {s}@.len()', mod={'o': 'usize'}, scope={'s': 'Sq<usize>'}), T('{o} <= $a1', mod={'o': 'usize'}), T('({o} < $a1 || $a1 == 0)', mod={'o': 'usize'}), T('({o} >= 1 || $a1 == 0)', mod={'o': 'usize'})]
    c[SCH] = dict(requires=[f'$a1 < {LIM}'], ensures=[('schedule', 'full($a0 as int, $a1 as int, $r@)')], templates=idx, decr=[T('{o}', mod={'o': 'usize'})], ret_ty=None)
    N = '($a1 + 1)'
    st = [T(f'stored({{v}}@, $a0, {{r}} as int, $a2 as int)', mod={'v': 'Sq<(usize, TT)>'}, scope={'r': 'usize'}),
          T(f'{{v}} == (if {{r}} >= {N} {{ None }} else {{ Some(naive($a0, {{r}} as int, $a1 as int)) }})', mod={'v': 'Option<RR>'}, scope={'r': 'usize'}),
          T(f'w_revs(w) == w_revs(w0) + {N} - {{r}}', mod={'r': 'usize'}), T(f'{{r}} <= {N}', mod={'r': 'usize'}),
          T('{v}@.len() < $a2', mod={'v': 'Sq<(usize, TT)>'}),
          T('{v}@.len() == {v0}@.len() + {i}', mod={'v': 'Sq<(usize, TT)>'}),
          T('{o} == prv({s}@, {i} as int)', mod={'o': 'usize'}, scope={'s': 'Sq<usize>'}),
          T('{v}@.last().0 == {v0}@.last().0 + prv({s}@, {i} as int)', mod={'v': 'Sq<(usize, TT)>'}, scope={'s': 'Sq<usize>'}),
          T('{v} == stt($a0, {s}@.last().0 as int)', mod={'v': 'TT'}, scope={'s': 'Sq<(usize, TT)>'}),
          T('{v} == stt($a0, {s}@.last().0 + {i})', mod={'v': 'TT'}, scope={'s': 'Sq<(usize, TT)>'}),
          T('w_steps(w) == w_steps({w0}) + {i}'.replace('{w0}', 'w_e{L}')) if False else T('w_steps({v}) == w_steps({v0}) + {i}', mod={'v': 'World'}),
          T('w_revs({v}) == w_revs({v0})', mod={'v': 'World'}),
          ]
    if pid == 'C18':
        st += [T(f'w_steps(w) - w_steps(w0) + rem({{s}}@, {{r}} as int, $a2 as int) == opt($a2 - 1, {N})', mod={'s': 'Sq<(usize, TT)>'}, scope={'r': 'usize'})]
    ens = {'C16': [('result', '$r == naive($a0, 0, $a1 as int)'), ('calls', f'w_revs($w) == w_revs($w0) + {N}')], 'C17': [],
           'C18': [('forward steps', f'w_steps($w) - w_steps($w0) == opt($a2 - 1, {N})')]}[pid]
    c[RS] = dict(world=True, rlimit=40, requires=[f'$a2 >= 2 && {N} < {LIM}'], ensures=ens, templates=st, subst={'T': 'TT', 'R': 'RR'}, param_ty={3: 'UFN', 4: 'UFN', 5: 'UFN'},
                 ufn={3: clo('call_fwd', ['TT'], 'TT'), 4: clo('call_rvs', ['TT', 'RR'], 'RR'), 5: clo('call_idn', ['TT'], 'RR')})
    if pid == 'C17': c[RS]['store'] = ('TT', '{v}@.len() <= $a2', f'{{v}} <= {N}')
    if pid == 'C18':
        c[RS]['ensures'] += [('least possible', f'forall|p: Plan| #[trigger] valid(p, $a2 - 1, {N}) ==> w_steps($w) - w_steps($w0) <= cost(p)'), ('every state stored', f'$a2 >= {N} ==> w_steps($w) - w_steps($w0) == $a1')]
        c[RS]['proof_end'] = f'assert forall|p: Plan| #[trigger] valid(p, $a2 - 1, {N}) implies opt($a2 - 1, {N}) <= cost(p) by {{ l_optimal(p, $a2 - 1, {N}); }} if $a2 >= {N} {{ l_all_stored($a2 - 1, {N}); }}'
    return c

MONO = 'pub broadcast proof fn b_bt_mono(c: int, t: int, s: int) requires s == t - 1 ensures #![trigger bt(c, t), bt(c, s)] bt(c, s) <= bt(c, t) { if c > 0 && t > 0 { l_bn_pos(c, t); if s > 0 { l_bn_mono(c, c, s, t); } } }\n'
BC = ['sq_ext', 'ax_binom', 'b_reps', 'b_stored', 'b_stored_init', 'b_stored_push', 'b_stored_pop']
def find_part(pid):
    """the contract of find_t: proved with its assertions and arithmetic checks as assumptions (it may panic, it may not return anything else)"""
    c = {BETA: dict(ensures=[('binomial coefficient', '$r == bt($a0 as int, $a1 as int)')]), FT: dict(requires=[f'2 <= $a0 && $a0 + 2 <= $a1 < {LIM}'], ensures=[('number of repetitions', 'reps($a0 as int, $a1 as int, $r as int)')])}
    return dict(id=pid, parts=('mat', 'wide'), name='repetitions', mode='exact', lenient=True, contracts=c, roots=[FT], specs=[BIN, MONO], broadcast=['sq_ext', 'ax_binom', 'b_bt_mono'])
def reject_part(pid):
    return dict(id=pid, parts=('mat', 'wide'), name='fewer than two checkpoints are rejected', mode='exact', lenient=True, specs=[MODEL], broadcast=['sq_ext'], roots=[RS],
        contracts={RS: dict(world=True, requires=[], ensures=[('rejects', '$a2 >= 2')], subst={'T': 'TT', 'R': 'RR'}, param_ty={3: 'UFN', 4: 'UFN', 5: 'UFN'}, ufn={3: clo('call_fwd', ['TT'], 'TT'), 4: clo('call_rvs', ['TT', 'RR'], 'RR'), 5: clo('call_idn', ['TT'], 'RR')}), SCH: dict(ensures=[])})
ASSUME_CK = ['nsteps + 1 < 2^32 (longer sequences overflow nothing in reach but are outside the contract); usize has 64 bits',
  'the three closures are functions of their arguments (they may have effects, which the contracts count)',
  'num::integer::binomial computes binomial coefficients (axiom ax_binom, Pascal\'s rule)',
  'find_t: its floating-point starting estimate does not exceed the number of repetitions, so its first assertion does not fire; its contract is proved with its assertions as assumptions (part repetitions), the absence of that panic is only explored by the bounded witness']
