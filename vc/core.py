"""Ghost model of the shared state: recordings behind their locks, the registry, the identity counter.
Other threads act whenever a lock is taken; what they may do is what this code is obliged to do at unlock."""
from common import *
from tapes import TAPE_WF, TAPE, T
import prelude as P
from tapes import SCAT, REPLAY
REPLAY0 = REPLAY[:REPLAY.index('pub open spec fn stepv')]

DER1 = ['neg', 'recip', 'powi', 'sqrt', 'exp2', 'log2', 'log10', 'cbrt']
DER2 = ['log', 'max', 'min', 'abs_sub', 'hypot']
CX = 'acontext::AContext::'
IN = 'acontext::AContextInner::'
TP = '<acontext::AContextTape as tape::Tape>::'

def world(wf=True, grow=True):
    """wf: recordings are obliged to be well formed"""
    guar = ['grows(rec(w, h), i)'] + (['r_wf(i)'] if wf else [])
    return '''
#[verifier::external_body] #[derive(Clone, Copy)] pub struct World { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Hd { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Wk { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct RegMap { x: u8 }
pub uninterp spec fn wk_h(k: Wk) -> Hd;
pub uninterp spec fn rmap(m: RegMap) -> Map<usize, Wk>;
/// every recording ever made, by identity
pub uninterp spec fn hof(w: World) -> Map<usize, Hd>;
/// what the lock of a recording protects
pub uninterp spec fn rec(w: World, h: Hd) -> AContextInner;
pub uninterp spec fn reg(w: World) -> Map<usize, Wk>;
/// handles kept alive by the callers of the running function
pub uninterp spec fn owned(w: World) -> Set<Hd>;
/// recordings whose last handle is gone
pub uninterp spec fn dead(w: World) -> Set<Hd>;
/// own recordings that are not in the registry yet; own identities without a recording
pub uninterp spec fn pend(w: World) -> Set<Hd>;
pub uninterp spec fn tix(w: World) -> Set<usize>;
/// locks held by this thread
pub uninterp spec fn lck(w: World) -> Set<Hd>;
pub uninterp spec fn mlck(w: World) -> bool;
/// recordings this thread has written to
pub uninterp spec fn touched(w: World) -> Set<Hd>;

pub open spec fn prefix<X>(a: Seq<X>, b: Seq<X>) -> bool { a.len() <= b.len() && forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == b[j] }
/// a recording only ever grows at its end
pub open spec fn grows(a: AContextInner, b: AContextInner) -> bool { a.cid == b.cid && prefix(a.indeps@, b.indeps@) && prefix(a.deps@, b.deps@) && prefix(a.ops@, b.ops@) && prefix(a.vals@, b.vals@) }
pub open spec fn blank(a: AContextInner) -> bool { a.indeps@.len() == 0 && a.deps@.len() == 0 && a.ops@.len() == 0 && a.vals@.len() == 0 }
/// each slot is written once, slots are numbered in order of creation and operations read earlier slots
pub open spec fn o_wf(o: Operation) -> bool { o.opcode != OpCode::Nop && (o.opcode == OpCode::Const ==> o.arg1 is None && o.arg2 is None)
  && (o.opcode != OpCode::Const ==> o.arg1 is Some && o.arg1->0 < o.vid && (is_bin(o.opcode) <==> o.arg2 is Some) && (o.arg2 is Some ==> o.arg2->0 < o.vid)) }
pub open spec fn inc(s: Seq<usize>, n: int) -> bool { (forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < n) && forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub open spec fn oinc(s: Seq<Operation>, n: int) -> bool { (forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).vid < n && o_wf(s[j])) && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).vid < (#[trigger] s[j]).vid }
pub open spec fn r_wf(a: AContextInner) -> bool {
  &&& inc(a.indeps@, a.vals@.len() as int) && oinc(a.ops@, a.vals@.len() as int)
  &&& forall|j: int| 0 <= j < a.deps@.len() ==> #[trigger] a.deps@[j] < a.vals@.len()
  &&& forall|i: int, j: int| 0 <= i < a.indeps@.len() && 0 <= j < a.ops@.len() ==> #[trigger] a.indeps@[i] != (#[trigger] a.ops@[j]).vid
  &&& a.vals@.len() == a.indeps@.len() + a.ops@.len()
}
pub open spec fn known(w: World, h: Hd) -> bool { hof(w).contains_key(rec(w, h).cid) && hof(w)[rec(w, h).cid] == h }
/// what other threads may have done in between
pub open spec fn env(a: World, b: World) -> bool { env_(a, b) && tix(b) == tix(a) }
pub open spec fn env_(a: World, b: World) -> bool {
  &&& forall|k: usize| #[trigger] hof(a).contains_key(k) ==> hof(b).contains_key(k) && hof(b)[k] == hof(a)[k]
  &&& forall|h: Hd| known(a, h) ==> grows(#[trigger] rec(a, h), rec(b, h))
  &&& forall|h: Hd| lck(a).contains(h) ==> #[trigger] rec(a, h) == rec(b, h)
  &&& owned(b) == owned(a) && pend(b) == pend(a) && touched(b) == touched(a)
  &&& forall|h: Hd| #[trigger] dead(a).contains(h) ==> dead(b).contains(h)
  &&& mlck(a) ==> reg(b) == reg(a)
}
pub open spec fn reg_ok(w: World, m: Map<usize, Wk>, p: Set<Hd>) -> bool {
  &&& forall|k: usize| #[trigger] m.contains_key(k) ==> hof(w).contains_key(k) && wk_h(m[k]) == hof(w)[k]
  &&& forall|k: usize| #[trigger] hof(w).contains_key(k) && !dead(w).contains(hof(w)[k]) && !p.contains(hof(w)[k]) ==> m.contains_key(k)
}
/// holds in every state that can be reached when every unlock meets its obligations
pub broadcast axiom fn ax_world(w: World, k: usize) requires #[trigger] hof(w).contains_key(k) ensures rec(w, hof(w)[k]).cid == k, !tix(w).contains(k)''' + (', r_wf(rec(w, hof(w)[k]))' if wf else '') + ''';
pub broadcast axiom fn ax_owned(w: World, h: Hd) requires #[trigger] owned(w).contains(h) ensures known(w, h), !dead(w).contains(h);
#[verifier::external_body] pub fn w_lock(w: World, h: Hd) -> (r: World) requires known(w, h), !lck(w).contains(h) ensures env(w, r), step_(w, r), lck(r) == lck(w).insert(h), mlck(r) == mlck(w) { unimplemented!() }
#[verifier::external_body] pub fn w_inner(w: World, h: Hd) -> (r: AContextInner) requires lck(w).contains(h) ensures r == rec(w, h) { unimplemented!() }
#[verifier::external_body] pub fn w_unlock(w: World, h: Hd, i: AContextInner) -> (r: World) requires lck(w).contains(h), known(w, h), ''' + ', '.join(guar) + '''
  ensures rec(r, h) == i, forall|g: Hd| g != h ==> #[trigger] rec(r, g) == rec(w, g), lck(r) == lck(w).remove(h), mlck(r) == mlck(w), hof(r) == hof(w), owned(r) == owned(w), pend(r) == pend(w), tix(r) == tix(w), dead(r) == dead(w), reg(r) == reg(w),
    touched(r) == (if i == rec(w, h) { touched(w) } else { touched(w).insert(h) }) { unimplemented!() }
#[verifier::external_body] pub fn w_lock_map(w: World) -> (r: World) requires !mlck(w) ensures env(w, r), step_(w, r), lck(r) == lck(w), mlck(r), reg_ok(r, reg(r), pend(r)) { unimplemented!() }
#[verifier::external_body] pub fn w_map(w: World) -> (r: RegMap) requires mlck(w) ensures rmap(r) == reg(w) { unimplemented!() }
#[verifier::external_body] pub fn w_unlock_map(w: World, m: RegMap) -> (r: World) requires mlck(w), reg_ok(w, rmap(m), Set::empty())
  ensures step_(w, r), reg(r) == rmap(m), pend(r) == Set::<Hd>::empty(), forall|g: Hd| #[trigger] rec(r, g) == rec(w, g), lck(r) == lck(w), !mlck(r), hof(r) == hof(w), owned(r) == owned(w), tix(r) == tix(w), dead(r) == dead(w), touched(r) == touched(w) { unimplemented!() }
/// a new recording takes an identity that was never given out
#[verifier::external_body] pub fn w_alloc(w: World, i: AContextInner) -> (r: (Hd, World)) requires tix(w).contains(i.cid), blank(i)
  ensures step_(w, r.1), !hof(w).contains_key(i.cid), hof(r.1) == hof(w).insert(i.cid, r.0), !known(w, r.0), rec(r.1, r.0) == i, forall|g: Hd| #![trigger rec(r.1, g)] #![trigger rec(w, g)] g != r.0 ==> rec(r.1, g) == rec(w, g), pend(r.1) == pend(w).insert(r.0), owned(r.1) == owned(w).insert(r.0),
    tix(r.1) == tix(w).remove(i.cid), lck(r.1) == lck(w), mlck(r.1) == mlck(w), dead(r.1) == dead(w), !dead(w).contains(r.0), reg(r.1) == reg(w), touched(r.1) == touched(w) { unimplemented!() }
#[verifier::external_body] pub fn w_upgrade(w: World, k: Wk) -> (r: Option<Hd>) ensures r is Some ==> r->0 == wk_h(k) && !dead(w).contains(wk_h(k)), owned(w).contains(wk_h(k)) ==> r is Some { unimplemented!() }
/// an identity nobody else gets (fewer than 2^64 - 1 recordings are ever made)
#[verifier::external_body] pub fn w_fetch_add(w: World, n: usize) -> (r: (usize, World)) ensures env_(w, r.1), step_(w, r.1), lck(r.1) == lck(w), mlck(r.1) == mlck(w), r.0 < usize::MAX, n >= 1 ==> tix(r.1) == tix(w).insert(r.0), n == 0 ==> tix(r.1) == tix(w) { unimplemented!() }
#[verifier::external_body] pub fn hd_downgrade(h: Hd) -> (r: Wk) ensures wk_h(r) == h { unimplemented!() }
#[verifier::external_body] pub fn map_get(m: RegMap, k: usize) -> (r: Option<Wk>) ensures r == (if rmap(m).contains_key(k) { Some(rmap(m)[k]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn map_has(m: RegMap, k: usize) -> (r: bool) ensures r == rmap(m).contains_key(k) { unimplemented!() }
#[verifier::external_body] pub fn map_insert(m: RegMap, k: usize, h: Wk) -> (r: RegMap) ensures rmap(r) == rmap(m).insert(k, h) { unimplemented!() }
#[verifier::external_body] pub fn map_remove(m: RegMap, k: usize) -> (r: RegMap) ensures rmap(r) == rmap(m).remove(k) { unimplemented!() }

pub broadcast proof fn b_set(h: Hd) ensures #[trigger] Set::<Hd>::empty().insert(h).remove(h) == Set::<Hd>::empty() { assert(Set::<Hd>::empty().insert(h).remove(h) =~= Set::<Hd>::empty()); }
pub uninterp spec fn any_world() -> World;
// ---- what the functions say about the shared state
pub open spec fn free(w: World) -> bool { lck(w) == Set::<Hd>::empty() && !mlck(w) && pend(w) == Set::<Hd>::empty() }
pub open spec fn step(a: World, b: World) -> bool {
  &&& free(b) && owned(b) == owned(a) && step_(a, b)
}
pub open spec fn step_(a: World, b: World) -> bool {
  &&& forall|k: usize| #[trigger] hof(a).contains_key(k) ==> hof(b).contains_key(k) && hof(b)[k] == hof(a)[k]
  &&& forall|h: Hd| known(a, h) ==> grows(#[trigger] rec(a, h), rec(b, h))
  &&& forall|h: Hd| #[trigger] dead(a).contains(h) ==> dead(b).contains(h)
}
pub open spec fn rcd(w: World, c: usize) -> AContextInner { rec(w, hof(w)[c]) }
pub open spec fn cidof(x: AFloat) -> usize { (x.ctx->0).0 }
pub open spec fn vidof(x: AFloat) -> int { (x.ctx->0).1 as int }
/// a number that belongs to a recording has a slot there
pub open spec fn num_ok(w: World, x: AFloat) -> bool { x.ctx is Some ==> hof(w).contains_key(cidof(x)) && vidof(x) < rcd(w, cidof(x)).vals@.len() }
pub open spec fn numo(w: World, x: Option<AFloat>) -> bool { x is Some ==> num_ok(w, x->0) }
pub open spec fn live(w: World, x: AFloat) -> bool { x.ctx is Some ==> hof(w).contains_key(cidof(x)) && owned(w).contains(hof(w)[cidof(x)]) }
pub open spec fn gone(w: World, x: AFloat) -> bool { x.ctx is Some ==> hof(w).contains_key(cidof(x)) && dead(w).contains(hof(w)[cidof(x)]) }
pub open spec fn ctx_in(w: World, c: AContext) -> bool { known(w, c.inner) }
/// v assigns to the slots what the recorded program computes (from whatever values of the independents)
pub open spec fn is_assign(a: AContextInner, v: Seq<Fl>) -> bool { forall|k: int| 0 <= k < a.ops@.len() ==> #[trigger] op_at(a, v, k) }
pub open spec fn op_at(a: AContextInner, v: Seq<Fl>, k: int) -> bool { holds(a.ops@[k], v) && (a.ops@[k].opcode == OpCode::Const && a.ops@[k].vid < a.vals@.len() ==> v[a.ops@[k].vid as int] == a.vals@[a.ops@[k].vid as int]) }
/// the number's value in that assignment
pub open spec fn f64of(x: Fl) -> Fl { s_cast(Kind::S, Kind::F64, x) }
pub open spec fn rep(v: Seq<Fl>, x: AFloat) -> Fl { if x.ctx is Some { v[vidof(x)] } else { f64of(x.v) } }
pub open spec fn repo(v: Seq<Fl>, x: Option<AFloat>) -> Option<Fl> { match x { Some(y) => Some(rep(v, y)), None => None } }
pub broadcast proof fn b_mono(a: AContextInner, b: AContextInner, v: Seq<Fl>) requires #[trigger] is_assign(b, v), #[trigger] grows(a, b) ensures is_assign(a, v)
{ assert forall|k: int| 0 <= k < a.ops@.len() implies #[trigger] op_at(a, v, k) by { assert(op_at(b, v, k)); assert(a.ops@[k] == b.ops@[k]); } }
/// x stands at position j
pub open spec fn at<X>(s: Seq<X>, j: int, x: X) -> bool { 0 <= j < s.len() && s[j] == x }
pub broadcast proof fn b_push<X>(s: Seq<X>, x: X) ensures #![trigger s.push(x)] at(s.push(x), s.len() as int, x) { }
pub broadcast proof fn b_at<X>(s: Seq<X>, t: Seq<X>, j: int, x: X) requires #[trigger] prefix(s, t), #[trigger] at(s, j, x) ensures at(t, j, x) { }
pub broadcast proof fn b_op(a: AContextInner, v: Seq<Fl>, j: int, o: Operation) requires #[trigger] is_assign(a, v), #[trigger] at(a.ops@, j, o) ensures holds(o, v), o.opcode == OpCode::Const && o.vid < a.vals@.len() ==> v[o.vid as int] == a.vals@[o.vid as int] { assert(op_at(a, v, j)); }
pub broadcast proof fn b_step(a: World, b: World, c: World) requires #[trigger] step_(a, b), #[trigger] step_(b, c) ensures step_(a, c) { }
/// every slot holds what was computed when it was recorded
pub open spec fn num_st(w: World, x: AFloat) -> bool { x.ctx is Some ==> rcd(w, cidof(x)).vals@[vidof(x)] == f64of(x.v) }
'''

SPECS = [OPS, P.TAPEV, TAPE_WF, REPLAY0, AFL]
ASSUME_W = [
  'shared state is a ghost world: at every lock the other threads may have done anything that respects what each unlock in this code is proved to respect (recordings only grow at their end, stay well formed where that is the property, the registry maps identities to their recordings); that this per-function argument adds up over all interleavings is the usual rely/guarantee argument and is not itself mechanised',
  'std: Mutex gives exclusive access, Arc/Weak::upgrade succeed exactly while a handle is kept by a caller and fail once the last is gone, AContextInner::drop runs when the last handle is gone, HashMap insert/get/remove; a poisoned lock panics',
  'fewer than 2^64 - 1 recordings are made in one process (the code asserts it after the counter has moved)',
  'fields of AContextInner are touched only inside acontext.rs (private type); the slot of a number stays what the functions under contract gave it (AFloat.ctx is private); calling AContext::record directly with operand slots that do not exist is a precondition, not a checked error',
  'NumCast from S to f64 returns a value (it is unwrapped; None would panic)',
  'dropping the last handle of a recording while the registry lock is held by the same thread would deadlock and is not modelled']
TRUST_W = ['world model of lock/unlock/alloc/upgrade/fetch_add (w_* and map_* in vc/core.py), axioms ax_world and ax_owned']
