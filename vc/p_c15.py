"""Chained generalized Jacobians: the reversal of C16 with the closures of the driver."""
from gjac import *
from ckpt import RS, SEQ, LIM
import ckpt, p_c16, p_c11, p_c19
from common import *
from translate import R

GJ = 'drivers::generalized_jacobian::'
CHN = GJ + 'generalized_jacobian_chain'

FORWARD = p_c11.FORWARD[:p_c11.FORWARD.index('/// the j-th coordinate direction')]
CHAIN = '''
/// the parts of a chain with nested chains flattened (C19)
pub uninterp spec fn flat(c: FunctionChain) -> Seq<FuncV>;
pub open spec fn fits(c: FunctionChain) -> bool { forall|i: int| 0 <= i < flat(c).len() - 1 ==> f_m(#[trigger] flat(c)[i]) == f_n(flat(c)[i + 1]) }
/// point and direction before part k
pub open spec fn xs(c: FunctionChain, x: Seq<Fl>, k: int) -> Seq<Fl> decreases k { if k <= 0 { x } else { f_val(flat(c)[k - 1], xs(c, x, k - 1)) } }
pub open spec fn ds(c: FunctionChain, x: Seq<Fl>, d: Seq<Fl>, k: int) -> Seq<Fl> decreases k { if k <= 0 { d } else { f_der(flat(c)[k - 1], xs(c, x, k - 1), ds(c, x, d, k - 1)) } }
/// the generalized Jacobian of one function at a point in a direction without sign bits, followed by another (C14)
pub uninterp spec fn s_gj(f: FuncV, x: Seq<Fl>, d: Seq<Fl>, next: GeneralizedJacobian) -> GeneralizedJacobian;
pub open spec fn nobits(b: Seq<u8>) -> bool { forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == 0u8 }
pub open spec fn ident(n: nat) -> Mat { m_new(n, n, |i: int, j: int| if i == j { s_lit_1_1() } else { s_lit_0_1() }) }
pub open spec fn is_id(g: GeneralizedJacobian, n: nat) -> bool { m_wf(g.homogenous) && m_r(g.homogenous) == n && m_c(g.homogenous) == n && g.inhomogenous@.len() == n && g.multiplicity == 0
  && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] m_at(g.homogenous, i, j) == (if i == j { s_lit_1_1() } else { s_lit_0_1() })) && forall|i: int| 0 <= i < n ==> #[trigger] g.inhomogenous@[i] == s_lit_0_1() }
pub open spec fn gj_id(n: nat) -> GeneralizedJacobian { choose|g: GeneralizedJacobian| is_id(g, n) }
pub broadcast proof fn b_id(g: GeneralizedJacobian, n: nat) requires #[trigger] is_id(g, n) ensures g == gj_id(n)
{ let h = gj_id(n); assert(is_id(h, n)); assert(g.homogenous.cols@ =~= h.homogenous.cols@) by { assert forall|j: int| 0 <= j < n implies #[trigger] g.homogenous.cols@[j] == h.homogenous.cols@[j] by { assert(g.homogenous.cols@[j] =~= h.homogenous.cols@[j]) by { assert forall|i: int| 0 <= i < n implies #[trigger] g.homogenous.cols@[j][i] == h.homogenous.cols@[j][i] by { assert(m_at(g.homogenous, i, j) == m_at(h.homogenous, i, j)); } } } }
  assert(g.homogenous == h.homogenous); assert(g.inhomogenous@ =~= h.inhomogenous@); sq_ext(g.inhomogenous, h.inhomogenous); }
/// back to front: the generalized Jacobian of the parts from k on
pub open spec fn back(c: FunctionChain, x: Seq<Fl>, d: Seq<Fl>, k: int) -> GeneralizedJacobian decreases flat(c).len() - k { if k >= flat(c).len() { gj_id(xs(c, x, flat(c).len() as int).len()) } else { s_gj(flat(c)[k], xs(c, x, k), ds(c, x, d, k), back(c, x, d, k + 1)) } }
pub open spec fn is_st(c: FunctionChain, x: Seq<Fl>, d: Seq<Fl>, k: int, s: (usize, Sq<Fl>, Sq<Fl>)) -> bool { s.0 == k && s.1@ =~= xs(c, x, k) && s.2@ =~= ds(c, x, d, k) && s.2@.len() == s.1@.len() && (k < flat(c).len() ==> s.1@.len() == f_n(flat(c)[k])) }
pub open spec fn is_res(c: FunctionChain, x: Seq<Fl>, d: Seq<Fl>, k: int, g: GeneralizedJacobian) -> bool { g == back(c, x, d, k) && m_wf(g.homogenous) && m_c(g.homogenous) == xs(c, x, k).len() && g.inhomogenous@.len() == m_r(g.homogenous) }
pub broadcast proof fn b_pre(a: Seq<AFloat>, v: Seq<Fl>, d: Seq<Fl>, n: int) requires #[trigger] act_pre(a, v, d, n), v.len() == n, d.len() == n ensures is_act(a, v, d) {}
/// a function returns as many numbers as it declares
pub broadcast axiom fn ax_flen(f: FuncV, x: Seq<Fl>) requires x.len() == f_n(f) ensures (#[trigger] f_val(f, x)).len() == f_m(f);
pub open spec fn act_pre(a: Seq<AFloat>, v: Seq<Fl>, d: Seq<Fl>, n: int) -> bool { a.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).v == v[k] && a[k].dv == d[k] }
'''
# the reversal computes what any invariant of the naive reversal says it computes
INDUCT = '''
/// C16: reverse_sequence returns naive(x, 0, n).  If st is preserved by every step and rs by every reverse step, rs holds of the result
pub proof fn l_st(x: TT, st: spec_fn(int, TT) -> bool, n: int, k: int) requires st(0, x), forall|k: int, s: TT| 0 <= k < n && #[trigger] st(k, s) ==> st(k + 1, fwd(s)), 0 <= k <= n ensures st(k, stt(x, k)) decreases k { if k > 0 { l_st(x, st, n, k - 1); } }
pub proof fn l_rule(x: TT, st: spec_fn(int, TT) -> bool, rs: spec_fn(int, RR) -> bool, n: int, k: int)
  requires 0 <= k <= n, st(0, x), forall|k: int, s: TT| 0 <= k < n && #[trigger] st(k, s) ==> st(k + 1, fwd(s)), forall|s: TT| #[trigger] st(n, s) ==> rs(n, idn(s)),
    forall|k: int, s: TT, r: RR| 0 <= k < n && #[trigger] st(k, s) && #[trigger] rs(k + 1, r) ==> rs(k, rvs(s, r))
  ensures rs(k, naive(x, k, n)) decreases n - k
{ l_st(x, st, n, k); if k < n { l_rule(x, st, rs, n, k + 1); let s = stt(x, k); let r = naive(x, k + 1, n); assert(st(k, s) && rs(k + 1, r)); } else { l_st(x, st, n, n); } }
'''
ST, RES = 'is_st(a0, a1@, a2@, {k}, {v})', 'is_res(a0, a1@, a2@, {k}, {v})'

def reverse(tr, vs):
    """reverse_sequence through its contract (C16, rule l_rule): the three closures must preserve the invariants"""
    if tr.path != CHN: raise Unsupported('reverse_sequence in another function')
    rv = tr.rv
    s0 = rv(tr.flat(vs[0])); n = rv(vs[1]); cp = rv(vs[2]); n = tr.let(n.t, 'usize'); s = tr.let(s0.t, s0.ty); ty = s0.ty
    st = lambda k, v: ST.format(k=k, v=v)
    rs = lambda k, v: RES.format(k=k, v=v)
    tr.emit(f'assert({cp.t} >= 2); // reversal: enough checkpoints')
    tr.emit(f'assert({n.t} + 1 < {LIM}); // reversal: length')
    tr.emit(f'assert({n.t} == flat(a0).len()); // reversal: one step for each part')
    tr.emit(f"assert({st('0int', s.t)}); // reversal: start")
    def branch(guard, body):
        lines, _ = tr.sub(body); tr.emit(f'if any_val::<bool>() && {guard} {{'); tr.out += lines; tr.emit('end_of_branch(); }')
    def state(k):
        v = tr.tmp('s'); tr.emit(f'let {v}: {ty} = any_val();'); tr.emit(f'proof {{ assume({st(k, v)}); }}'); return R(v, ty)
    def upto():
        k = tr.tmp('k'); tr.emit(f'let {k}: usize = any_below({n.t});'); return k
    def step():
        k = upto(); v = state(k + ' as int'); r = rv(tr.flat(tr.call_v(vs[3], [v])))
        r = R(tr.stable(r), r.ty)
        tr.emit(f"assert({st(k + ' + 1', r.t)}); // reversal: forward step")
    def back():
        k = upto(); v = state(k + ' as int'); g = tr.tmp('g'); tr.emit(f'let {g}: GeneralizedJacobian = any_val();'); tr.emit(f"proof {{ assume({rs(k + ' + 1', g)}); }}")
        r = rv(tr.flat(tr.call_v(vs[4], [v, R(g, 'GeneralizedJacobian')]))); r = R(tr.stable(r), r.ty); tr.emit(f"assert({rs(k + ' as int', r.t)}); // reversal: reverse step")
    def last():
        v = state(n.t + ' as int'); r = rv(tr.flat(tr.call_v(vs[5], [v]))); r = R(tr.stable(r), r.ty)
        m = f'xs(a0, a1@, {n.t} as int).len()'
        tr.emit(f"assert(is_id({r.t}, {m})); // reversal: identity"); tr.emit(f"assert({rs(n.t + ' as int', r.t)}); // reversal: identity")
    branch(f'{n.t} > 0', step); branch(f'{n.t} > 0', back); branch('true', last)
    tr.emit('w = any_val();'); tr.mark_mod('w')
    g = tr.tmp('g'); tr.emit(f'let {g}: GeneralizedJacobian = any_val();'); tr.emit(f"proof {{ assume({rs('0int', g)}); }} // reversal: contract of reverse_sequence")
    tr.scope.append((g, 'GeneralizedJacobian'))
    return R(g, 'GeneralizedJacobian')

def spec():
    FC = 'function::FunctionChain::'
    c = {FC + 'iter': dict(elsewhere='C19', ret_ty='Sq<FuncV>', ensures=[('flattened', '$r@ == flat($a0)')]),
         FC + 'len': dict(elsewhere='C19', ensures=[('length', '$r == flat($a0).len()')]),
         FC + 'nth': dict(elsewhere='C19', requires=['$a1 < flat($a0).len()'], ensures=[('element', '$r == flat($a0)[$a1 as int]')]),
         GJ + 'generalized_jacobian': dict(elsewhere='C14', world=True, requires=['$a1@.len() == f_n($a0)', '$a2@.len() == f_n($a0)', '$a4 matches Some(g) ==> (m_wf(g.homogenous) && m_c(g.homogenous) == f_m($a0) && g.inhomogenous@.len() == m_r(g.homogenous))'],
            ensures=[('of its arguments', '$a4 is Some && nobits($a3@) ==> $r == s_gj($a0, $a1@, $a2@, $a4->0)'), ('size', 'm_wf($r.homogenous) && m_c($r.homogenous) == f_n($a0) && $r.inhomogenous@.len() == m_r($r.homogenous)')]),
         RS: dict(call=reverse, elsewhere='C16'),
         CHN: dict(requires=['fits($a0)', 'flat($a0).len() > 0', f'flat($a0).len() + 1 < {LIM}', '$a1@.len() == f_n(flat($a0)[0])', '$a2@.len() == $a1@.len()', '$a3 matches Some(c) ==> c >= 2'],
            ensures=[('back-to-front composition', '$r == back($a0, $a1@, $a2@, 0)')],
            templates=[T('act_pre({v}@, {s}@, {u}@, {i} as int)', mod={'v': 'Sq<AFloat>'}, scope={'s': 'Sq<Fl>', 'u': 'Sq<Fl>'}, distinct=True),
              T('{v}@.len() == {i}', mod={'v': 'Sq<Fl>'}), T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == {s}@[k].v)', mod={'v': 'Sq<Fl>'}, scope={'s': 'Sq<AFloat>'}),
              T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == {s}@[k].dv)', mod={'v': 'Sq<Fl>'}, scope={'s': 'Sq<AFloat>'})])}
    a = dict(id='C15', name='chain driver', mode='exact', contracts=c, roots=[CHN], adts=['afloat::AFloat', 'acontext::AContextInner', 'function::FunctionChain', GJ + 'GeneralizedJacobian'],
      specs=[P.FUNCV, P.TAPEV, OPS, WORLD_LIGHT, FORWARD, CHAIN], broadcast=['sq_ext', 'b_id', 'b_pre', 'ax_flen'])
    r = dict(id='C15', parts=('mat', 'wide'), name='rule for reversals', mode='exact', contracts={}, roots=[], specs=[ckpt.MODEL, INDUCT], broadcast=[])
    rest = p_c16.spec() + p_c19.spec()      # what the contracts used here rest on
    for q in rest: q['id'] = 'C15'
    return [a, r] + rest
ASSUME = ckpt.ASSUME_CK + ['the value and derivative parts of what a function returns depend only on the value and derivative parts of what it gets, and it returns as many numbers as it declares',
  'generalized_jacobian is a function of its arguments and depends on the sign bits only through their bits (its result is what C14 proves)']
