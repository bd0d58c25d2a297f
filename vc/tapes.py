"""Specification text about tapes: well-formedness, replay, tangents, adjoints."""
from common import *
from engine import T
import prelude as P

TAPE = 'tape::Tape::'

TAPE_WF = '''
// ---- tapes
pub open spec fn wr(o: Operation) -> bool { o.opcode != OpCode::Nop }
pub open spec fn calc(o: Operation) -> bool { o.opcode != OpCode::Nop && o.opcode != OpCode::Const }
pub open spec fn rd(o: Operation, s: int) -> bool { calc(o) && ((o.arg1 is Some && o.arg1->0 == s) || (o.arg2 is Some && o.arg2->0 == s)) }
pub open spec fn op_wf(o: Operation, n: int) -> bool { (wr(o) ==> o.vid < n) && (calc(o) ==> o.arg1 is Some && o.arg1->0 < n && (o.arg2 is Some ==> o.arg2->0 < n) && op_ok(o.opcode, o.arg2)) }
pub open spec fn idx_wf(s: Seq<usize>, n: int) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < n }
pub open spec fn ops_wf(s: Seq<Operation>, n: int) -> bool { forall|k: int| 0 <= k < s.len() ==> op_wf(#[trigger] s[k], n) }
// every slot is written by at most one independent or operation, and only read after that
pub open spec fn t_wf(t: TapeV) -> bool {
  &&& idx_wf(t.indeps@, t.vals@.len() as int) && idx_wf(t.deps@, t.vals@.len() as int) && ops_wf(t.ops@, t.vals@.len() as int)
  &&& forall|i: int, j: int| 0 <= i < j < t.indeps@.len() ==> #[trigger] t.indeps@[i] != #[trigger] t.indeps@[j]
  &&& forall|k: int, j: int| 0 <= k < t.ops@.len() && 0 <= j < t.indeps@.len() && wr(#[trigger] t.ops@[k]) ==> t.ops@[k].vid != #[trigger] t.indeps@[j]
  &&& forall|k: int, l: int| 0 <= k < l < t.ops@.len() && wr(#[trigger] t.ops@[k]) && wr(#[trigger] t.ops@[l]) ==> t.ops@[k].vid != t.ops@[l].vid
  &&& forall|k: int, l: int| 0 <= k <= l < t.ops@.len() && wr(#[trigger] t.ops@[l]) ==> !rd(#[trigger] t.ops@[k], t.ops@[l].vid as int)
}
pub open spec fn cnt_abs(s: Seq<Operation>, k: int) -> int decreases k { if k <= 0 { 0 } else { cnt_abs(s, k - 1) + (if s[k - 1].opcode == OpCode::Abs { 1int } else { 0 }) } }
pub open spec fn is_indep(t: TapeV, s: int) -> bool { exists|j: int| 0 <= j < t.indeps@.len() && #[trigger] t.indeps@[j] == s }
pub open spec fn wr_in(o: Seq<Operation>, lo: int, hi: int, s: int) -> bool { exists|k: int| lo <= k < hi && wr(#[trigger] o[k]) && o[k].vid == s }
pub open spec fn pick(v: Seq<Fl>, idx: Seq<usize>) -> Seq<Fl> { Seq::new(idx.len(), |j: int| v[idx[j] as int]) }
'''

# scatter x into v through the index sequence
SCAT = '''
pub open spec fn scat(v: Seq<Fl>, idx: Seq<usize>, x: Seq<Fl>, j: int) -> Seq<Fl> decreases j { if j <= 0 { v } else { scat(v, idx, x, j - 1).update(idx[j - 1] as int, x[j - 1]) } }
pub proof fn l_scat(v: Seq<Fl>, idx: Seq<usize>, x: Seq<Fl>, j: int)
  requires 0 <= j <= idx.len(), j <= x.len(), idx_wf(idx, v.len() as int), forall|a: int, b: int| 0 <= a < b < idx.len() ==> #[trigger] idx[a] != #[trigger] idx[b]
  ensures scat(v, idx, x, j).len() == v.len(), forall|k: int| 0 <= k < j ==> scat(v, idx, x, j)[#[trigger] idx[k] as int] == x[k],
    forall|s: int| 0 <= s < v.len() && (forall|k: int| 0 <= k < j ==> #[trigger] idx[k] != s) ==> #[trigger] scat(v, idx, x, j)[s] == v[s]
  decreases j
{ if j > 0 { l_scat(v, idx, x, j - 1); let p = scat(v, idx, x, j - 1); let q = scat(v, idx, x, j); assert(q == p.update(idx[j - 1] as int, x[j - 1]));
    assert forall|s: int| 0 <= s < v.len() && (forall|k: int| 0 <= k < j ==> #[trigger] idx[k] != s) implies q[s] == v[s] by { assert(idx[j - 1] != s); assert(p[s] == v[s]); } } }
'''

REPLAY = '''
// ---- value of a program: the declarative reading
pub open spec fn args2(o: Operation, v: Seq<Fl>) -> Option<Fl> { match o.arg2 { Some(i) => Some(v[i as int]), None => None } }
pub open spec fn op_res(o: Operation, v: Seq<Fl>) -> Fl { op_val(o.opcode, v[o.arg1->0 as int], args2(o, v)) }
pub open spec fn holds(o: Operation, v: Seq<Fl>) -> bool { calc(o) ==> v[o.vid as int] == op_res(o, v) }
/// v holds in every slot the value of the recorded program at x, constants as they were
pub open spec fn is_run(t: TapeV, x: Seq<Fl>, v: Seq<Fl>) -> bool {
  &&& v.len() == t.vals@.len()
  &&& forall|j: int| 0 <= j < t.indeps@.len() ==> v[#[trigger] t.indeps@[j] as int] == x[j]
  &&& forall|k: int| 0 <= k < t.ops@.len() ==> holds(#[trigger] t.ops@[k], v)
  &&& forall|s: int| 0 <= s < v.len() && !is_indep(t, s) && (forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) ==> t.ops@[k].vid != s) ==> #[trigger] v[s] == t.vals@[s]
}
pub open spec fn stepv(o: Operation, v: Seq<Fl>) -> Seq<Fl> { if calc(o) { v.update(o.vid as int, op_res(o, v)) } else { v } }
pub open spec fn repl(v: Seq<Fl>, o: Seq<Operation>, k: int) -> Seq<Fl> decreases k { if k <= 0 { v } else { stepv(o[k - 1], repl(v, o, k - 1)) } }
pub proof fn l_repl(v: Seq<Fl>, o: Seq<Operation>, k: int)
  requires 0 <= k <= o.len(), ops_wf(o, v.len() as int),
    forall|k: int, l: int| 0 <= k < l < o.len() && wr(#[trigger] o[k]) && wr(#[trigger] o[l]) ==> o[k].vid != o[l].vid,
    forall|k: int, l: int| 0 <= k <= l < o.len() && wr(#[trigger] o[l]) ==> !rd(#[trigger] o[k], o[l].vid as int)
  ensures repl(v, o, k).len() == v.len(), forall|i: int| 0 <= i < k ==> holds(#[trigger] o[i], repl(v, o, k)),
    forall|s: int| 0 <= s < v.len() && (forall|i: int| 0 <= i < k && calc(#[trigger] o[i]) ==> o[i].vid != s) ==> #[trigger] repl(v, o, k)[s] == v[s]
  decreases k
{ if k > 0 { l_repl(v, o, k - 1); let p = repl(v, o, k - 1); let q = repl(v, o, k); let c = o[k - 1]; assert(op_wf(c, v.len() as int)); assert(q == stepv(c, p));
    assert forall|i: int| 0 <= i < k implies holds(#[trigger] o[i], q) by {
      assert(op_wf(o[i], v.len() as int)); assert(wr(c) ==> !rd(o[i], c.vid as int));
      if i < k - 1 { assert(holds(o[i], p)); if calc(o[i]) && calc(c) { assert(o[i].vid != c.vid); assert(op_res(o[i], q) == op_res(o[i], p)); } }
      else { if calc(c) { assert(op_res(c, q) == op_res(c, p)); } } }
    assert forall|s: int| 0 <= s < v.len() && (forall|i: int| 0 <= i < k && calc(#[trigger] o[i]) ==> o[i].vid != s) implies #[trigger] q[s] == v[s] by { if calc(o[k - 1]) { assert(o[k - 1].vid != s); } assert(p[s] == v[s]); } } }
/// the run of a program: it exists and is unique, computed by the fold
pub open spec fn run_of(t: TapeV, x: Seq<Fl>) -> Seq<Fl> { repl(scat(t.vals@, t.indeps@, x, t.indeps@.len() as int), t.ops@, t.ops@.len() as int) }
pub proof fn l_run(t: TapeV, x: Seq<Fl>) requires t_wf(t), x.len() == t.indeps@.len() ensures is_run(t, x, run_of(t, x))
{ let b = scat(t.vals@, t.indeps@, x, t.indeps@.len() as int); l_scat(t.vals@, t.indeps@, x, t.indeps@.len() as int); l_repl(b, t.ops@, t.ops@.len() as int); let v = run_of(t, x);
  assert forall|j: int| 0 <= j < t.indeps@.len() implies v[#[trigger] t.indeps@[j] as int] == x[j] by { assert(b[t.indeps@[j] as int] == x[j]); }
  assert forall|s: int| 0 <= s < v.len() && !is_indep(t, s) && (forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) ==> t.ops@[k].vid != s) implies #[trigger] v[s] == t.vals@[s] by { assert(b[s] == t.vals@[s]); } }
'''

GATHER = [T('(forall|j: int| 0 <= j < {i} ==> #[trigger] {v}@[j] == $a0.vals@[$a0.indeps@[j] as int])', mod={'v': 'Sq<Fl>'}, only=lambda l, p: p.startswith(TAPE)),
          T('(forall|j: int| 0 <= j < {i} ==> #[trigger] {v}@[j] == $a0.vals@[$a0.deps@[j] as int])', mod={'v': 'Sq<Fl>'}, only=lambda l, p: p.startswith(TAPE))]
COUNT = [T('{c} == cnt_abs($a0.ops@, {i} as int)', mod={'c': 'usize'}, only=lambda l, p: p.startswith(TAPE)),
         T('{c} <= {i}', mod={'c': 'usize'}, only=lambda l, p: p.startswith(TAPE))]
ZERO = [T('{v}@ == scat({v0}@, $a0.indeps@, $a1@, {i} as int)', mod={'v': 'Sq<Fl>'}, only=lambda l, p: p == TAPE + 'zero_order'),
        T('{v}@ == repl({v0}@, $a0.ops@, {i} as int)', mod={'v': 'Sq<Fl>'}, only=lambda l, p: p == TAPE + 'zero_order')]

# ---- tangents, over the reals (needs OPS, DERIV, TAPE_WF)
BOPS = '''
pub broadcast proof fn b_lbin(o: OpCode, x: real, y: real, dx: real, dy: real) ensures
    #![trigger d_bin(o, x, y, dx, dy)]
    o == OpCode::Div && y != 0real ==> y * y != 0real && (dx * y - x * dy) / (y * y) == d_bin(o, x, y, dx, dy),
    o == OpCode::Mul ==> dx * y + x * dy == d_bin(o, x, y, dx, dy), o == OpCode::Add ==> dx + dy == d_bin(o, x, y, dx, dy), o == OpCode::Sub ==> dx - dy == d_bin(o, x, y, dx, dy),
    o == OpCode::Powf && is_int(y) ==> is_int(y - 1real),
    is_bin(o) && dx == 0real ==> d_bin(o, x, y, dx, dy) == p_b2(o, x, y) * dy, is_bin(o) && dy == 0real ==> d_bin(o, x, y, dx, dy) == p_b1(o, x, y) * dx,
    p_b1(o, x, y) * 0real == 0real, p_b2(o, x, y) * 0real == 0real, (y * r_pow(x, y - 1real)) * dx == y * r_pow(x, y - 1real) * dx,
{ l_op(o, x, dx, y, dy); }
pub broadcast proof fn b_lun(o: OpCode, x: real, dx: real) ensures
    #![trigger d_un(o, x, dx)]
    o == OpCode::Sin || o == OpCode::Exp ==> dx * p_un(o, x) == d_un(o, x, dx), o == OpCode::Cos ==> (-dx) * r_sin(x) == d_un(o, x, dx),
    o == OpCode::Tan && r_cos(x) != 0real ==> r_cos(x) * r_cos(x) != 0real && dx * (1real / (r_cos(x) * r_cos(x))) == d_un(o, x, dx),
    o == OpCode::Ln ==> dx * (1real / x) == d_un(o, x, dx),
    (o == OpCode::Asin || o == OpCode::Acos) && -1real < x && x < 1real ==> 1real - x * x > 0real && r_sqrt(1real - x * x) > 0real
        && dx / r_sqrt(1real - x * x) == (1real / r_sqrt(1real - x * x)) * dx && (-dx) / r_sqrt(1real - x * x) == (-(1real / r_sqrt(1real - x * x))) * dx,
    1real + x * x > 0real, o == OpCode::Atan ==> dx / (1real + x * x) == d_un(o, x, dx),
{ l_op(o, x, dx, 1real, 0real); }
'''

TANGENT = '''
// ---- tangent of a program in direction dx: the chain rule, slot by slot
pub type RS = Seq<real>;
pub open spec fn reals(v: Seq<Fl>) -> RS { Seq::new(v.len(), |j: int| v[j].v) }
pub open spec fn all_ok(v: Seq<Fl>) -> bool { forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).ok }
/// v holds the reals d, all of them defined
pub open spec fn fls(v: Seq<Fl>, d: RS) -> bool { v.len() == d.len() && forall|s: int| 0 <= s < v.len() ==> is_v(#[trigger] v[s], d[s]) }
pub broadcast proof fn b_fls(v: Seq<Fl>, d: RS) requires #[trigger] fls(v, d) ensures all_ok(v), reals(v) == d { assert(reals(v) =~= d); }
pub open spec fn has2(o: Operation) -> bool { o.arg2 is Some }
pub open spec fn va1(o: Operation, v: Seq<Fl>) -> real { v[o.arg1->0 as int].v }
pub open spec fn va2(o: Operation, v: Seq<Fl>) -> real { v[o.arg2->0 as int].v }
pub open spec fn op_d(o: Operation, v: Seq<Fl>, d: RS) -> real { if is_bin(o.opcode) { d_bin(o.opcode, va1(o, v), va2(o, v), d[o.arg1->0 as int], d[o.arg2->0 as int]) } else { d_un(o.opcode, va1(o, v), d[o.arg1->0 as int]) } }
pub open spec fn op_dom(o: Operation, v: Seq<Fl>, d: RS) -> bool { if is_bin(o.opcode) { dom_bin(o.opcode, va1(o, v), va2(o, v), d[o.arg1->0 as int], d[o.arg2->0 as int]) } else { dom_un(o.opcode, va1(o, v)) } }
pub open spec fn tstep(o: Operation, v: Seq<Fl>, d: RS) -> RS { if calc(o) { d.update(o.vid as int, op_d(o, v, d)) } else if wr(o) { d.update(o.vid as int, 0real) } else { d } }
pub open spec fn rscat(d: RS, idx: Seq<usize>, x: RS, j: int) -> RS decreases j { if j <= 0 { d } else { rscat(d, idx, x, j - 1).update(idx[j - 1] as int, x[j - 1]) } }
pub open spec fn zeros(n: nat) -> RS { Seq::new(n, |s: int| 0real) }
pub open spec fn seedt(t: TapeV, dx: RS) -> RS { rscat(zeros(t.vals@.len()), t.indeps@, dx, t.indeps@.len() as int) }
pub open spec fn tan_n(t: TapeV, dx: RS, k: int) -> RS decreases k { if k <= 0 { seedt(t, dx) } else { tstep(t.ops@[k - 1], t.vals@, tan_n(t, dx, k - 1)) } }
pub open spec fn tangent(t: TapeV, dx: RS) -> RS { tan_n(t, dx, t.ops@.len() as int) }
/// d is the derivative of every slot: declarative reading
pub open spec fn is_tan(t: TapeV, dx: RS, d: RS) -> bool {
  &&& d.len() == t.vals@.len()
  &&& forall|j: int| 0 <= j < t.indeps@.len() ==> d[#[trigger] t.indeps@[j] as int] == dx[j]
  &&& forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) ==> d[t.ops@[k].vid as int] == op_d(t.ops@[k], t.vals@, d)
  &&& forall|s: int| 0 <= s < d.len() && !is_indep(t, s) && (forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) ==> t.ops@[k].vid != s) ==> #[trigger] d[s] == 0real
}
/// every recorded operation is differentiable where it was evaluated (a zero derivative counts as a constant operand)
pub open spec fn t_dom(t: TapeV, dx: RS) -> bool { forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) ==> op_dom(t.ops@[k], t.vals@, tangent(t, dx)) }
pub open spec fn t_dom_n(t: TapeV, dx: RS) -> bool { forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) ==> op_dom(t.ops@[k], t.vals@, tan_n(t, dx, k)) }
pub open spec fn no_abs(t: TapeV) -> bool { forall|k: int| 0 <= k < t.ops@.len() ==> (#[trigger] t.ops@[k]).opcode != OpCode::Abs }
pub proof fn l_rscat(d: RS, idx: Seq<usize>, x: RS, j: int)
  requires 0 <= j <= idx.len(), j <= x.len(), idx_wf(idx, d.len() as int), forall|a: int, b: int| 0 <= a < b < idx.len() ==> #[trigger] idx[a] != #[trigger] idx[b]
  ensures rscat(d, idx, x, j).len() == d.len(), forall|k: int| 0 <= k < j ==> rscat(d, idx, x, j)[#[trigger] idx[k] as int] == x[k],
    forall|s: int| 0 <= s < d.len() && (forall|k: int| 0 <= k < j ==> #[trigger] idx[k] != s) ==> #[trigger] rscat(d, idx, x, j)[s] == d[s]
  decreases j
{ if j > 0 { l_rscat(d, idx, x, j - 1); let p = rscat(d, idx, x, j - 1); let q = rscat(d, idx, x, j); assert(q == p.update(idx[j - 1] as int, x[j - 1]));
    assert forall|s: int| 0 <= s < d.len() && (forall|k: int| 0 <= k < j ==> #[trigger] idx[k] != s) implies q[s] == d[s] by { assert(idx[j - 1] != s); assert(p[s] == d[s]); } } }
pub broadcast proof fn b_rscat_len(d: RS, idx: Seq<usize>, x: RS, j: int) requires 0 <= j <= idx.len(), idx_wf(idx, d.len() as int) ensures #[trigger] rscat(d, idx, x, j).len() == d.len() decreases j { if j > 0 { b_rscat_len(d, idx, x, j - 1); } }
pub broadcast proof fn b_tan_len(t: TapeV, dx: RS, k: int) requires t_wf(t), 0 <= k <= t.ops@.len(), dx.len() == t.indeps@.len() ensures #[trigger] tan_n(t, dx, k).len() == t.vals@.len() { l_tan_len(t, dx, k); }
pub proof fn l_tan_len(t: TapeV, dx: RS, k: int) requires t_wf(t), 0 <= k <= t.ops@.len(), dx.len() == t.indeps@.len() ensures tan_n(t, dx, k).len() == t.vals@.len() decreases k
{ if k > 0 { l_tan_len(t, dx, k - 1); assert(op_wf(t.ops@[k - 1], t.vals@.len() as int)); } else { l_rscat(zeros(t.vals@.len()), t.indeps@, dx, t.indeps@.len() as int); } }
/// a slot not written in ops[a..b) keeps its tangent
pub proof fn l_tan_keep(t: TapeV, dx: RS, a: int, b: int, s: int) requires t_wf(t), 0 <= a <= b <= t.ops@.len(), dx.len() == t.indeps@.len(), 0 <= s < t.vals@.len(), forall|k: int| a <= k < b && wr(#[trigger] t.ops@[k]) ==> t.ops@[k].vid != s
  ensures tan_n(t, dx, a)[s] == tan_n(t, dx, b)[s] decreases b - a
{ if a < b { l_tan_len(t, dx, b - 1); l_tan_keep(t, dx, a, b - 1, s); let c = t.ops@[b - 1]; assert(wr(c) ==> c.vid != s); assert(op_wf(c, t.vals@.len() as int)); } }
/// operands have their final tangent when they are read
pub proof fn l_tan_args(t: TapeV, dx: RS, k: int) requires t_wf(t), 0 <= k < t.ops@.len(), dx.len() == t.indeps@.len(), calc(t.ops@[k])
  ensures op_d(t.ops@[k], t.vals@, tan_n(t, dx, k)) == op_d(t.ops@[k], t.vals@, tangent(t, dx)), op_dom(t.ops@[k], t.vals@, tan_n(t, dx, k)) == op_dom(t.ops@[k], t.vals@, tangent(t, dx))
{ let c = t.ops@[k]; let n = t.ops@.len() as int; assert(op_wf(c, t.vals@.len() as int)); assert(c.arg1->0 < t.vals@.len());
  assert forall|l: int| k <= l < n && wr(#[trigger] t.ops@[l]) implies !rd(c, t.ops@[l].vid as int) by {}
  l_tan_keep(t, dx, k, n, c.arg1->0 as int); if c.arg2 is Some { l_tan_keep(t, dx, k, n, c.arg2->0 as int); } }
pub proof fn l_tan_dom(t: TapeV, dx: RS) requires t_wf(t), dx.len() == t.indeps@.len(), t_dom(t, dx) ensures t_dom_n(t, dx)
{ assert forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) implies op_dom(t.ops@[k], t.vals@, tan_n(t, dx, k)) by { l_tan_args(t, dx, k); } }
/// the fold satisfies the declarative reading ...
pub proof fn l_is_tan(t: TapeV, dx: RS) requires t_wf(t), dx.len() == t.indeps@.len() ensures is_tan(t, dx, tangent(t, dx))
{ let n = t.ops@.len() as int; let d = tangent(t, dx); l_tan_len(t, dx, n); l_rscat(zeros(t.vals@.len()), t.indeps@, dx, t.indeps@.len() as int);
  assert forall|j: int| 0 <= j < t.indeps@.len() implies d[#[trigger] t.indeps@[j] as int] == dx[j] by { l_tan_keep(t, dx, 0, n, t.indeps@[j] as int); }
  assert forall|k: int| 0 <= k < n && calc(#[trigger] t.ops@[k]) implies d[t.ops@[k].vid as int] == op_d(t.ops@[k], t.vals@, d) by {
    let c = t.ops@[k]; assert(op_wf(c, t.vals@.len() as int)); l_tan_args(t, dx, k); l_tan_len(t, dx, k);
    assert forall|l: int| k + 1 <= l < n && wr(#[trigger] t.ops@[l]) implies t.ops@[l].vid != c.vid by { assert(wr(t.ops@[k])); }
    l_tan_keep(t, dx, k + 1, n, c.vid as int); assert(tan_n(t, dx, k + 1) == tstep(c, t.vals@, tan_n(t, dx, k))); }
  assert forall|s: int| 0 <= s < d.len() && !is_indep(t, s) && (forall|k: int| 0 <= k < n && calc(#[trigger] t.ops@[k]) ==> t.ops@[k].vid != s) implies #[trigger] d[s] == 0real by { l_tan_zero(t, dx, n, s); } }
pub proof fn l_tan_zero(t: TapeV, dx: RS, k: int, s: int) requires t_wf(t), 0 <= k <= t.ops@.len(), dx.len() == t.indeps@.len(), 0 <= s < t.vals@.len(), !is_indep(t, s), forall|i: int| 0 <= i < t.ops@.len() && calc(#[trigger] t.ops@[i]) ==> t.ops@[i].vid != s
  ensures tan_n(t, dx, k)[s] == 0real decreases k
{ if k > 0 { l_tan_zero(t, dx, k - 1, s); l_tan_len(t, dx, k - 1); let c = t.ops@[k - 1]; assert(op_wf(c, t.vals@.len() as int)); if calc(c) { assert(c.vid != s); } }
  else { l_rscat(zeros(t.vals@.len()), t.indeps@, dx, t.indeps@.len() as int); assert forall|j: int| 0 <= j < t.indeps@.len() implies #[trigger] t.indeps@[j] != s by { assert(!is_indep(t, s)); } assert(seedt(t, dx)[s] == zeros(t.vals@.len())[s]); } }
/// ... and is the only solution: running the program on dual numbers, whose operations satisfy the same equations, gives the same derivatives
pub proof fn l_tan_unique(t: TapeV, dx: RS, d: RS) requires t_wf(t), dx.len() == t.indeps@.len(), is_tan(t, dx, d) ensures d =~= tangent(t, dx)
{ l_is_tan(t, dx); let e = tangent(t, dx);
  assert forall|s: int| 0 <= s < d.len() implies d[s] == e[s] by { l_tan_unique_at(t, dx, d, t.ops@.len() as int, s); } }
pub proof fn l_tan_unique_at(t: TapeV, dx: RS, d: RS, k: int, s: int)
  requires t_wf(t), dx.len() == t.indeps@.len(), is_tan(t, dx, d), 0 <= s < t.vals@.len(), 0 <= k <= t.ops@.len(), forall|l: int| k <= l < t.ops@.len() && wr(#[trigger] t.ops@[l]) ==> t.ops@[l].vid != s
  ensures d[s] == tangent(t, dx)[s] decreases k
{ let e = tangent(t, dx); l_is_tan(t, dx);
  if exists|q: int| 0 <= q < k && calc(#[trigger] t.ops@[q]) && t.ops@[q].vid == s {
    let q = choose|q: int| 0 <= q < k && calc(#[trigger] t.ops@[q]) && t.ops@[q].vid == s; let c = t.ops@[q]; assert(op_wf(c, t.vals@.len() as int));
    assert forall|l: int| q <= l < t.ops@.len() && wr(#[trigger] t.ops@[l]) implies !rd(c, t.ops@[l].vid as int) by {}
    l_tan_unique_at(t, dx, d, q, c.arg1->0 as int); if c.arg2 is Some { l_tan_unique_at(t, dx, d, q, c.arg2->0 as int); }
    assert(d[s] == op_d(c, t.vals@, d)); assert(e[s] == op_d(c, t.vals@, e));
  } else if is_indep(t, s) { let j = choose|j: int| 0 <= j < t.indeps@.len() && #[trigger] t.indeps@[j] == s; assert(d[t.indeps@[j] as int] == dx[j]); assert(e[t.indeps@[j] as int] == dx[j]); }
  else { assert forall|l: int| 0 <= l < t.ops@.len() && calc(#[trigger] t.ops@[l]) implies t.ops@[l].vid != s by { if l >= k { assert(wr(t.ops@[l])); } } assert(d[s] == 0real); assert(e[s] == 0real); } }
pub open spec fn lin(a: real, x: RS, b: real, y: RS) -> RS { Seq::new(x.len(), |j: int| a * x[j] + b * y[j]) }
pub proof fn l_lin_op(p: real, q: real, a: real, b: real, x1: real, y1: real, x2: real, y2: real) ensures p * (a * x1 + b * y1) + q * (a * x2 + b * y2) == a * (p * x1 + q * x2) + b * (p * y1 + q * y2), p * (a * x1 + b * y1) == a * (p * x1) + b * (p * y1)
{ l_dist(p, a * x1, b * y1); l_dist(q, a * x2, b * y2); l_sw(p, a, x1); l_sw(p, b, y1); l_sw(q, a, x2); l_sw(q, b, y2); l_dist(a, p * x1, q * x2); l_dist(b, p * y1, q * y2); }
pub proof fn l_dist(p: real, u: real, w: real) ensures p * (u + w) == p * u + p * w, p * (u - w) == p * u - p * w, (u + w) * p == u * p + w * p { assert(p * (u + w) == p * u + p * w && p * (u - w) == p * u - p * w && (u + w) * p == u * p + w * p) by (nonlinear_arith); }
pub proof fn l_sw(p: real, a: real, x: real) ensures p * (a * x) == a * (p * x) { assert(p * (a * x) == a * (p * x)) by (nonlinear_arith); }
/// without absolute values the tangent is linear in the direction
pub proof fn l_linear(t: TapeV, a: real, x: RS, b: real, y: RS, k: int) requires t_wf(t), no_abs(t), 0 <= k <= t.ops@.len(), x.len() == t.indeps@.len(), y.len() == x.len()
  ensures tan_n(t, lin(a, x, b, y), k) =~= lin(a, tan_n(t, x, k), b, tan_n(t, y, k)) decreases k
{ let z = lin(a, x, b, y); let n = t.vals@.len(); l_tan_len(t, x, k); l_tan_len(t, y, k); l_tan_len(t, z, k);
  if k > 0 { l_linear(t, a, x, b, y, k - 1); l_tan_len(t, x, k - 1); l_tan_len(t, y, k - 1); l_tan_len(t, z, k - 1); let c = t.ops@[k - 1]; assert(op_wf(c, n as int)); let (dx, dy, dz) = (tan_n(t, x, k - 1), tan_n(t, y, k - 1), tan_n(t, z, k - 1));
    assert(a * 0real + b * 0real == 0real) by (nonlinear_arith);
    if calc(c) { let i = c.arg1->0 as int; let v = va1(c, t.vals@); assert(dz[i] == a * dx[i] + b * dy[i]);
      if is_bin(c.opcode) { let j = c.arg2->0 as int; let u = va2(c, t.vals@); assert(dz[j] == a * dx[j] + b * dy[j]); l_lin_op(p_b1(c.opcode, v, u), p_b2(c.opcode, v, u), a, b, dx[i], dy[i], dx[j], dy[j]); }
      else { l_lin_op(p_un(c.opcode, v), 0real, a, b, dx[i], dy[i], 0real, 0real); } } }
  else { assert forall|s: int| 0 <= s < n implies #[trigger] seedt(t, z)[s] == a * seedt(t, x)[s] + b * seedt(t, y)[s] by { l_rscat(zeros(n), t.indeps@, x, t.indeps@.len() as int); l_rscat(zeros(n), t.indeps@, y, t.indeps@.len() as int); l_rscat(zeros(n), t.indeps@, z, t.indeps@.len() as int); assert(a * 0real + b * 0real == 0real) by (nonlinear_arith);
      if exists|j: int| 0 <= j < t.indeps@.len() && #[trigger] t.indeps@[j] == s { let j = choose|j: int| 0 <= j < t.indeps@.len() && #[trigger] t.indeps@[j] == s; assert(seedt(t, z)[t.indeps@[j] as int] == z[j]); assert(seedt(t, x)[t.indeps@[j] as int] == x[j]); assert(seedt(t, y)[t.indeps@[j] as int] == y[j]); }
      else { assert(seedt(t, z)[s] == zeros(n)[s]); assert(seedt(t, x)[s] == zeros(n)[s]); assert(seedt(t, y)[s] == zeros(n)[s]); } } } }
'''
fwd = lambda l, p: p == TAPE + 'first_order_forward'
FWD = [T('fls({v}@, rscat(zeros($a0.vals@.len()), $a0.indeps@, reals($a1@), {i} as int))', mod={'v': 'Sq<Fl>'}, only=fwd),
       T('(all_ok($a0.vals@) && t_dom_n($a0, reals($a1@)) ==> fls({v}@, tan_n($a0, reals($a1@), {i} as int)))', mod={'v': 'Sq<Fl>'}, only=fwd),
       T('(all_ok($a0.vals@) && t_dom_n($a0, reals($a1@)) ==> forall|j: int| 0 <= j < {i} ==> is_v(#[trigger] {v}@[j], tangent($a0, reals($a1@))[$a0.deps@[j] as int]))', mod={'v': 'Sq<Fl>'}, only=fwd)]

# ---- adjoints, over the reals (needs TANGENT)
SUMS = '''
pub open spec fn rsum(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(f, n - 1) + f(n - 1) } }
pub open spec fn rdot(a: RS, b: RS) -> real { rsum(|j: int| a[j] * b[j], a.len() as int) }
pub proof fn l_sum_eq(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int) requires forall|s: int| 0 <= s < n ==> #[trigger] f(s) == g(s) ensures rsum(f, n) == rsum(g, n) decreases n { if n > 0 { l_sum_eq(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn l_sum_upd(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int, a: int) requires 0 <= a < n, forall|s: int| 0 <= s < n && s != a ==> #[trigger] f(s) == g(s) ensures rsum(g, n) == rsum(f, n) + g(a) - f(a) decreases n
{ if a == n - 1 { l_sum_eq(f, g, n - 1); } else { l_sum_upd(f, g, n - 1, a); assert(f(n - 1) == g(n - 1)); } }
pub proof fn l_sum_zero(f: spec_fn(int) -> real, n: int) requires forall|s: int| 0 <= s < n ==> #[trigger] f(s) == 0real ensures rsum(f, n) == 0real decreases n { if n > 0 { l_sum_zero(f, n - 1); assert(f(n - 1) == 0real); } }
/// a sum over slots that vanishes off the index set is the sum over the indices
pub proof fn l_sum_idx(f: spec_fn(int) -> real, n: int, idx: Seq<usize>, m: int)
  requires 0 <= m <= idx.len(), 0 <= n, idx_wf(idx, n), forall|a: int, b: int| 0 <= a < b < idx.len() ==> #[trigger] idx[a] != #[trigger] idx[b], forall|s: int| 0 <= s < n && (forall|j: int| 0 <= j < m ==> #[trigger] idx[j] != s) ==> #[trigger] f(s) == 0real
  ensures rsum(f, n) == rsum(|j: int| f(idx[j] as int), m) decreases m
{ if m == 0 { l_sum_zero(f, n); } else { let a = idx[m - 1] as int; let g = |s: int| if s == a { 0real } else { f(s) };
    assert forall|s: int| 0 <= s < n && (forall|j: int| 0 <= j < m - 1 ==> #[trigger] idx[j] != s) implies #[trigger] g(s) == 0real by { if s != a { assert(f(s) == 0real); } }
    l_sum_idx(g, n, idx, m - 1); l_sum_upd(f, g, n, a);
    let gj = |j: int| g(idx[j] as int); let fj = |j: int| f(idx[j] as int);
    assert forall|j: int| 0 <= j < m - 1 implies #[trigger] gj(j) == fj(j) by { assert(idx[j] != idx[m - 1]); }
    l_sum_eq(gj, fj, m - 1); } }
'''
ADJOINT = '''
// ---- adjoint of a program for weights yb
pub open spec fn astep(o: Operation, v: Seq<Fl>, b: RS) -> RS {
  if !calc(o) { b } else { let w = b[o.vid as int]; let i = o.arg1->0 as int;
    if is_bin(o.opcode) { let j = o.arg2->0 as int; let c = b.update(i, b[i] + w * p_b1(o.opcode, va1(o, v), va2(o, v))); c.update(j, c[j] + w * p_b2(o.opcode, va1(o, v), va2(o, v))) }
    else { b.update(i, b[i] + w * p_un(o.opcode, va1(o, v))) } } }
pub open spec fn ascat(b: RS, idx: Seq<usize>, y: RS, j: int) -> RS decreases j { if j <= 0 { b } else { let p = ascat(b, idx, y, j - 1); p.update(idx[j - 1] as int, p[idx[j - 1] as int] + y[j - 1]) } }
pub open spec fn seeda(t: TapeV, yb: RS) -> RS { ascat(zeros(t.vals@.len()), t.deps@, yb, t.deps@.len() as int) }
/// after the last k operations
pub open spec fn adj_n(t: TapeV, yb: RS, k: int) -> RS decreases k { if k <= 0 { seeda(t, yb) } else { astep(t.ops@[t.ops@.len() - k], t.vals@, adj_n(t, yb, k - 1)) } }
pub open spec fn adjoint(t: TapeV, yb: RS) -> RS { adj_n(t, yb, t.ops@.len() as int) }
pub open spec fn rpick(v: RS, idx: Seq<usize>) -> RS { Seq::new(idx.len(), |j: int| v[idx[j] as int]) }
/// slots whose value never depends on the independents
pub open spec fn cst(t: TapeV, s: int) -> bool { !is_indep(t, s) && forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) ==> t.ops@[k].vid != s }
pub open spec fn act(t: TapeV) -> spec_fn(int) -> bool { |s: int| !cst(t, s) }
/// the operation is differentiable in its non-constant operands
pub open spec fn rdom_pow(x: real, y: real, c1: bool, c2: bool) -> bool { x > 0real || (x == 0real && y == 0real && c2) || (x == 0real && y > 0real && (c1 || y >= 1real)) || (x < 0real && is_int(y) && c2) }
pub open spec fn op_rdom(o: Operation, v: Seq<Fl>, nc: spec_fn(int) -> bool) -> bool {
  let x = va1(o, v); let y = va2(o, v);
  if o.opcode == OpCode::Div { y != 0real } else if o.opcode == OpCode::Powf { rdom_pow(x, y, !nc(o.arg1->0 as int), !nc(o.arg2->0 as int)) } else if is_bin(o.opcode) { true } else { dom_un(o.opcode, x) } }
pub open spec fn r_dom(t: TapeV) -> bool { forall|k: int| 0 <= k < t.ops@.len() && calc(#[trigger] t.ops@[k]) ==> op_rdom(t.ops@[k], t.vals@, act(t)) }
pub open spec fn fnc(v: Seq<Fl>, d: RS, nc: spec_fn(int) -> bool) -> bool { v.len() == d.len() && forall|s: int| 0 <= s < v.len() && nc(s) ==> is_v(#[trigger] v[s], d[s]) }
pub broadcast proof fn b_ascat_len(b: RS, idx: Seq<usize>, y: RS, j: int) requires 0 <= j <= idx.len(), idx_wf(idx, b.len() as int) ensures #[trigger] ascat(b, idx, y, j).len() == b.len() decreases j { if j > 0 { b_ascat_len(b, idx, y, j - 1); } }
pub broadcast proof fn b_adj_len(t: TapeV, yb: RS, k: int) requires t_wf(t), 0 <= k <= t.ops@.len() ensures #[trigger] adj_n(t, yb, k).len() == t.vals@.len() decreases k
{ if k > 0 { b_adj_len(t, yb, k - 1); assert(op_wf(t.ops@[t.ops@.len() - k], t.vals@.len() as int)); } else { b_ascat_len(zeros(t.vals@.len()), t.deps@, yb, t.deps@.len() as int); } }
pub open spec fn live(t: TapeV, k: int, s: int) -> bool { !wr_in(t.ops@, t.ops@.len() - k, t.ops@.len() as int, s) }
pub open spec fn pair_f(t: TapeV, yb: RS, d: RS, k: int) -> spec_fn(int) -> real { |s: int| if live(t, k, s) { adj_n(t, yb, k)[s] * d[s] } else { 0real } }
pub proof fn l_acc(a: real, w: real, p: real, d: real) ensures (a + w * p) * d == a * d + w * (p * d), (a + w * p) * d - a * d == w * (p * d) { assert((a + w * p) * d == a * d + w * (p * d)) by (nonlinear_arith); }
/// one operation of the reverse sweep keeps the pairing of adjoint and tangent
pub proof fn l_adj_step(t: TapeV, yb: RS, dx: RS, k: int)
  requires t_wf(t), no_abs(t), dx.len() == t.indeps@.len(), 0 < k <= t.ops@.len()
  ensures rsum(pair_f(t, yb, tangent(t, dx), k), t.vals@.len() as int) == rsum(pair_f(t, yb, tangent(t, dx), k - 1), t.vals@.len() as int)
{
  let n = t.vals@.len() as int; let d = tangent(t, dx); let i = t.ops@.len() - k; let o = t.ops@[i]; let e = t.ops@.len() as int;
  let b0 = adj_n(t, yb, k - 1); let b1 = adj_n(t, yb, k); b_adj_len(t, yb, k - 1); b_adj_len(t, yb, k); l_is_tan(t, dx); l_tan_len(t, dx, e);
  let f0 = pair_f(t, yb, d, k - 1); let f1 = pair_f(t, yb, d, k); assert(b1 == astep(o, t.vals@, b0)); assert(op_wf(o, n));
  assert forall|s: int| live(t, k, s) == (live(t, k - 1, s) && !(wr(o) && o.vid == s)) by {
    if !live(t, k - 1, s) { let q = choose|q: int| i + 1 <= q < e && wr(#[trigger] t.ops@[q]) && t.ops@[q].vid == s; assert(wr(t.ops@[q])); }
    if wr(o) && o.vid == s { assert(wr(t.ops@[i])); }
    if !live(t, k, s) { let q = choose|q: int| i <= q < e && wr(#[trigger] t.ops@[q]) && t.ops@[q].vid == s; if q != i { assert(i + 1 <= q < e && wr(t.ops@[q])); } } }
  if !wr(o) { assert forall|s: int| 0 <= s < n implies #[trigger] f0(s) == f1(s) by {} l_sum_eq(f0, f1, n); }
  else {
    let w = o.vid as int;
    assert(live(t, k - 1, w)) by { if !live(t, k - 1, w) { let q = choose|q: int| i + 1 <= q < e && wr(#[trigger] t.ops@[q]) && t.ops@[q].vid == w; assert(wr(t.ops@[i]) && wr(t.ops@[q])); } }
    if !calc(o) {
      assert(cst(t, w)) by { assert forall|q: int| 0 <= q < e && calc(#[trigger] t.ops@[q]) implies t.ops@[q].vid != w by { assert(wr(t.ops@[i]) && wr(t.ops@[q])); if q < i { } else if q > i { } else { assert(t.ops@[q] == o); } }
        assert forall|j: int| 0 <= j < t.indeps@.len() implies #[trigger] t.indeps@[j] != w by { assert(wr(t.ops@[i])); } }
      assert(d[w] == 0real); l_mul0(b0[w]);
      assert forall|s: int| 0 <= s < n implies #[trigger] f0(s) == f1(s) by {} l_sum_eq(f0, f1, n);
    } else {
      assert(!rd(t.ops@[i], t.ops@[i].vid as int)); assert(o.opcode != OpCode::Abs); assert(d[w] == op_d(o, t.vals@, d)); 
      let a = o.arg1->0 as int; let x = va1(o, t.vals@);
      assert(live(t, k, a)) by { if !live(t, k, a) { let q = choose|q: int| i <= q < e && wr(#[trigger] t.ops@[q]) && t.ops@[q].vid == a; assert(!rd(t.ops@[i], t.ops@[q].vid as int)); } }
      let g1 = |s: int| if s == w { 0real } else { f0(s) };
      l_sum_upd(f0, g1, n, w);
      if is_bin(o.opcode) {
        let c = o.arg2->0 as int; let y = va2(o, t.vals@);
        assert(live(t, k, c)) by { if !live(t, k, c) { let q = choose|q: int| i <= q < e && wr(#[trigger] t.ops@[q]) && t.ops@[q].vid == c; assert(!rd(t.ops@[i], t.ops@[q].vid as int)); } }
        let p1 = p_b1(o.opcode, x, y); let p2 = p_b2(o.opcode, x, y);
        let g2 = |s: int| if s == a { (b0[a] + b0[w] * p1) * d[a] } else { g1(s) };
        l_sum_upd(g1, g2, n, a); l_acc(b0[a], b0[w], p1, d[a]); assert(g2(a) - g1(a) == b0[w] * (p1 * d[a]));
        let m = b0.update(a, b0[a] + b0[w] * p1);
        let g3 = |s: int| if s == c { (m[c] + b0[w] * p2) * d[c] } else { g2(s) };
        l_sum_upd(g2, g3, n, c); l_acc(m[c], b0[w], p2, d[c]); assert(g2(c) == m[c] * d[c]); assert(g3(c) - g2(c) == b0[w] * (p2 * d[c]));
        l_dist(b0[w], p1 * d[a], p2 * d[c]); assert(b0[w] * d[w] == b0[w] * (p1 * d[a]) + b0[w] * (p2 * d[c]));
        assert forall|s: int| 0 <= s < n implies #[trigger] g3(s) == f1(s) by {} l_sum_eq(g3, f1, n);
      } else {
        let p = p_un(o.opcode, x);
        let g2 = |s: int| if s == a { (b0[a] + b0[w] * p) * d[a] } else { g1(s) };
        l_sum_upd(g1, g2, n, a); l_acc(b0[a], b0[w], p, d[a]); assert(g2(a) - g1(a) == b0[w] * (p * d[a])); assert(b0[w] * d[w] == b0[w] * (p * d[a]));
        assert forall|s: int| 0 <= s < n implies #[trigger] g2(s) == f1(s) by {} l_sum_eq(g2, f1, n);
      } } } }
pub proof fn l_adj_fold(t: TapeV, yb: RS, dx: RS, k: int) requires t_wf(t), no_abs(t), dx.len() == t.indeps@.len(), 0 <= k <= t.ops@.len()
  ensures rsum(pair_f(t, yb, tangent(t, dx), k), t.vals@.len() as int) == rsum(pair_f(t, yb, tangent(t, dx), 0), t.vals@.len() as int) decreases k
{ if k > 0 { l_adj_step(t, yb, dx, k); l_adj_fold(t, yb, dx, k - 1); } }
pub proof fn l_ascat(n: nat, idx: Seq<usize>, y: RS, d: RS, j: int) requires 0 <= j <= idx.len(), j <= y.len(), idx_wf(idx, n as int), d.len() == n
  ensures rsum(|s: int| ascat(zeros(n), idx, y, j)[s] * d[s], n as int) == rsum(|q: int| y[q] * d[idx[q] as int], j) decreases j
{ let f = |s: int| ascat(zeros(n), idx, y, j)[s] * d[s]; b_ascat_len(zeros(n), idx, y, j);
  if j == 0 { assert forall|s: int| 0 <= s < n implies #[trigger] f(s) == 0real by { assert(zeros(n)[s] * d[s] == 0real) by { l_mul0(d[s]); } } l_sum_zero(f, n as int); }
  else { l_ascat(n, idx, y, d, j - 1); b_ascat_len(zeros(n), idx, y, j - 1); let p = ascat(zeros(n), idx, y, j - 1); let g = |s: int| p[s] * d[s]; let a = idx[j - 1] as int;
    l_sum_upd(g, f, n as int, a); l_acc(p[a], y[j - 1], 1real, d[a]); assert(f(a) == (p[a] + y[j - 1]) * d[a]); assert(f(a) - g(a) == y[j - 1] * d[a]) by { l_one(d[a]); l_one(y[j - 1]); assert(y[j - 1] * 1real == y[j - 1]); } } }
/// the reverse sweep is the adjoint of the forward sweep
pub proof fn l_adjoint(t: TapeV, yb: RS, dx: RS) requires t_wf(t), no_abs(t), dx.len() == t.indeps@.len(), yb.len() == t.deps@.len()
  ensures rdot(rpick(adjoint(t, yb), t.indeps@), dx) == rdot(yb, rpick(tangent(t, dx), t.deps@))
{
  let n = t.vals@.len(); let e = t.ops@.len() as int; let d = tangent(t, dx); l_adj_fold(t, yb, dx, e); l_is_tan(t, dx); l_tan_len(t, dx, e); b_adj_len(t, yb, e); b_adj_len(t, yb, 0);
  let f0 = pair_f(t, yb, d, 0); let h0 = |s: int| ascat(zeros(n), t.deps@, yb, t.deps@.len() as int)[s] * d[s];
  assert forall|s: int| 0 <= s < n implies #[trigger] f0(s) == h0(s) by {} l_sum_eq(f0, h0, n as int); l_ascat(n, t.deps@, yb, d, t.deps@.len() as int);
  let q0 = |q: int| yb[q] * d[t.deps@[q] as int]; let q1 = |j: int| yb[j] * rpick(d, t.deps@)[j]; l_sum_eq(q0, q1, t.deps@.len() as int);
  let f1 = pair_f(t, yb, d, e); let b = adjoint(t, yb);
  assert forall|s: int| 0 <= s < n && (forall|j: int| 0 <= j < t.indeps@.len() ==> #[trigger] t.indeps@[j] != s) implies #[trigger] f1(s) == 0real by {
    if live(t, e, s) { assert(!is_indep(t, s)); assert forall|k: int| 0 <= k < e && calc(#[trigger] t.ops@[k]) implies t.ops@[k].vid != s by { assert(wr(t.ops@[k])); } assert(d[s] == 0real); l_mul0(b[s]); } }
  l_sum_idx(f1, n as int, t.indeps@, t.indeps@.len() as int);
  let r0 = |j: int| f1(t.indeps@[j] as int); let r1 = |j: int| rpick(b, t.indeps@)[j] * dx[j];
  assert forall|j: int| 0 <= j < t.indeps@.len() implies #[trigger] r0(j) == r1(j) by { let s = t.indeps@[j] as int; assert(d[s] == dx[j]); assert(live(t, e, s)) by { if !live(t, e, s) { let q = choose|q: int| 0 <= q < e && wr(#[trigger] t.ops@[q]) && t.ops@[q].vid == s; assert(wr(t.ops@[q])); } } }
  l_sum_eq(r0, r1, t.indeps@.len() as int);
}
pub broadcast proof fn b_adjoint(t: TapeV, yb: RS, dx: RS) requires t_wf(t), no_abs(t), dx.len() == t.indeps@.len(), yb.len() == t.deps@.len() ensures #![trigger adjoint(t, yb), tangent(t, dx)] rdot(rpick(adjoint(t, yb), t.indeps@), dx) == rdot(yb, rpick(tangent(t, dx), t.deps@)) { l_adjoint(t, yb, dx); }
/// what one operation of the reverse sweep needs about its partial derivatives
pub proof fn l_rop(o: OpCode, x: real, y: real, w: real) ensures
  o == OpCode::Add || o == OpCode::Sub ==> w * p_b1(o, x, y) == w, o == OpCode::Add ==> w * p_b2(o, x, y) == w, o == OpCode::Sub ==> w * p_b2(o, x, y) == -w,
  o == OpCode::Div && y != 0real ==> y * y != 0real && w / y == w * p_b1(o, x, y) && (w * 1real) / y == w * p_b1(o, x, y) && w * ((-x) / (y * y)) == w * p_b2(o, x, y),
  o == OpCode::Powf ==> (w * y) * r_pow(x, y - 1real) == w * (y * r_pow(x, y - 1real)) && (w * r_ln(x)) * r_pow(x, y) == w * (r_ln(x) * r_pow(x, y)) && (is_int(y) ==> is_int(y - 1real)) && (y == 0real ==> w * p_b1(o, x, y) == 0real) && (x == 0real ==> w * p_b2(o, x, y) == 0real),
  w * 0real == 0real
{ l_one(w); l_mul0(w); l_comm(w, 1real); l_comm(w, -1real); if o == OpCode::Div && y != 0real { l_sq_pos(y); l_mul_div(w, y); l_comm(w, 1real / y); l_mul_div(x, y * y); assert((-x) / (y * y) == -(x / (y * y))) by { l_one(x); l_div_def(x, y * y); l_negmul(x / (y * y), y * y); l_div_unique(-x, y * y, -(x / (y * y))); } }
  if o == OpCode::Powf { l_mul3(w, y, r_pow(x, y - 1real)); l_mul3(w, r_ln(x), r_pow(x, y)); if is_int(y) { l_int_pred(y); } } }
'''
rev = lambda l, p: p == TAPE + 'first_order_reverse'
REV = [T('fls({v}@, ascat(zeros($a0.vals@.len()), $a0.deps@, reals($a1@), {i} as int))', mod={'v': 'Sq<Fl>'}, only=rev),
       T('(all_ok($a0.vals@) && r_dom($a0) ==> fnc({v}@, adj_n($a0, reals($a1@), {i} as int), act($a0)))', mod={'v': 'Sq<Fl>'}, only=rev),
       T('(all_ok($a0.vals@) && r_dom($a0) ==> forall|j: int| 0 <= j < {i} ==> is_v(#[trigger] {v}@[j], adjoint($a0, reals($a1@))[$a0.indeps@[j] as int]))', mod={'v': 'Sq<Fl>'}, only=rev)]
