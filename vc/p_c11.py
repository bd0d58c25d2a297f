from tapes import *
from p_c09 import FOV_C, BC
from p_c10 import OPR_C, REV_C, ACT
from mats import *

FORWARD = '''
// ---- functions written by the user: evaluation on active numbers is a function of values and derivatives
pub uninterp spec fn f_n(f: FuncV) -> nat;
pub uninterp spec fn f_m(f: FuncV) -> nat;
pub uninterp spec fn f_val(f: FuncV, x: Seq<Fl>) -> Seq<Fl>;
pub uninterp spec fn f_der(f: FuncV, x: Seq<Fl>, dx: Seq<Fl>) -> Seq<Fl>;
pub open spec fn a_val(x: Seq<AFloat>) -> Seq<Fl> { Seq::new(x.len(), |k: int| x[k].v) }
pub open spec fn a_der(x: Seq<AFloat>) -> Seq<Fl> { Seq::new(x.len(), |k: int| x[k].dv) }
#[verifier::external_body] pub fn func_n(f: FuncV) -> (r: usize) ensures r == f_n(f) { unimplemented!() }
#[verifier::external_body] pub fn func_m(f: FuncV) -> (r: usize) ensures r == f_m(f) { unimplemented!() }
#[verifier::external_body] pub fn func_eval(w: World, f: FuncV, x: Sq<AFloat>) -> (r: (Sq<AFloat>, World)) requires x@.len() == f_n(f) ensures r.0@.len() == f_m(f), forall|v: Seq<Fl>, d: Seq<Fl>| #[trigger] is_act(x@, v, d) ==> is_act(r.0@, f_val(f, v), f_der(f, v, d)) { unimplemented!() }
pub open spec fn is_act(x: Seq<AFloat>, v: Seq<Fl>, d: Seq<Fl>) -> bool { x.len() == v.len() && x.len() == d.len() && forall|k: int| 0 <= k < x.len() ==> (#[trigger] x[k]).v == v[k] && x[k].dv == d[k] }
/// the j-th coordinate direction
pub open spec fn e_j(n: nat, j: int) -> Seq<Fl> { Seq::new(n, |k: int| if k == j { s_lit_1_1() } else { s_lit_0_1() }) }
pub open spec fn col_ok(f: FuncV, x: Seq<Fl>, c: (usize, Sq<Fl>), j: int) -> bool { c.0 == j && c.1@.len() == f_m(f) && forall|i: int| 0 <= i < c.1@.len() ==> #[trigger] c.1@[i] == f_der(f, x, e_j(f_n(f), j))[i] }
pub broadcast proof fn b_full<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
pub open spec fn cols(f: FuncV, x: Seq<Fl>, v: Seq<(usize, Sq<Fl>)>, lo: int, hi: int) -> bool { v.len() == hi - lo && forall|k: int| 0 <= k < v.len() ==> col_ok(f, x, #[trigger] v[k], lo + k) }
'''
JF, JR = 'drivers::jacobian::jacobian_forward', 'drivers::jacobian::jacobian_reverse'
FN_LEN = '''
pub uninterp spec fn f_n(f: FuncV) -> nat;
pub uninterp spec fn f_m(f: FuncV) -> nat;
#[verifier::external_body] pub fn func_n(f: FuncV) -> (r: usize) ensures r == f_n(f) { unimplemented!() }
#[verifier::external_body] pub fn func_m(f: FuncV) -> (r: usize) ensures r == f_m(f) { unimplemented!() }
#[verifier::external_body] pub fn func_eval(w: World, f: FuncV, x: Sq<AFloat>) -> (r: (Sq<AFloat>, World)) { unimplemented!() }
pub open spec fn any_item(v: Seq<(usize, Sq<Fl>)>) -> bool { v.len() >= 0 }
'''

def spec():
    ad = ADTS + ['acontext::AContextInner']
    f = dict(requires=['$a1@.len() == f_n($a0)'], reduce='cols(a0, a1@, {v}@, {lo}, {hi})',
             ensures=[('size', 'm_wf($r) && m_r($r) == f_m($a0) && m_c($r) == f_n($a0)'),
                      ('partial derivatives', 'forall|i: int, j: int| 0 <= i < f_m($a0) && 0 <= j < f_n($a0) ==> #[trigger] m_at($r, i, j) == f_der($a0, $a1@, e_j(f_n($a0), j))[i]')])
    jf = lambda l, p: p == JF
    tf = [T('col_ok($a0, $a1@, ({s}, {v}), {s} as int)', scope={'v': 'Sq<Fl>', 's': 'usize'}, only=jf),
          T('{v}@.len() == {i}', mod={'v': 'Sq<Fl>'}, only=jf), T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == {s}@[k].dv)', mod={'v': 'Sq<Fl>'}, scope={'s': 'Sq<AFloat>'}, only=jf),
          T('is_act({v}@, $a1@.subrange(0, {i} as int), e_j(f_n($a0), {s} as int).subrange(0, {i} as int))', mod={'v': 'Sq<AFloat>'}, scope={'s': 'usize'}, only=jf),
          T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == k)', mod={'v': 'Sq<usize>'}, only=jf),
          T('(forall|p: int, q: int| 0 <= p < f_m($a0) && 0 <= q < {i} ==> #[trigger] m_at({v}, p, q) == f_der($a0, $a1@, e_j(f_n($a0), q))[p])', mod={'v': 'Mat'}, only=jf),
          T('(forall|p: int, q: int| 0 <= p < f_m($a0) && 0 <= q < f_n($a0) && (q < {s} || (q == {s} && p < {i})) ==> #[trigger] m_at({v}, p, q) == f_der($a0, $a1@, e_j(f_n($a0), q))[p])', mod={'v': 'Mat'}, scope={'s': 'usize'}, only=jf)]
    a = dict(id='C11', name='forward driver', mode='exact', contracts={JF: f}, roots=[JF], adts=ad, specs=[P.FUNCV, P.TAPEV, OPS, WORLD_LIGHT, FORWARD], templates=tf, broadcast=['sq_ext', 'b_full'])
    d = {JF: dict(ensures=[('rejects', '$a1@.len() == f_n($a0)')], reduce='any_item({v}@)')}
    b = dict(id='C11', name='forward driver rejects points of the wrong length', mode='exact', lenient=True, contracts=d, roots=[JF], adts=ad, specs=[P.FUNCV, P.TAPEV, OPS, WORLD_LIGHT, FN_LEN], broadcast=['sq_ext'])
    r = dict(requires=['t_wf($a0)', 'no_abs($a0)'], reduce='rows(a0, {v}@, {lo}, {hi})',
             ensures=[('size', 'm_wf($r) && m_r($r) == $a0.deps@.len() && m_c($r) == $a0.indeps@.len()'),
                      ('partial derivatives', 'all_ok($a0.vals@) && r_dom($a0) ==> forall|i: int, j: int| 0 <= i < $a0.deps@.len() && 0 <= j < $a0.indeps@.len() ==> is_v(#[trigger] m_at($r, i, j), jac($a0, i, j))')])
    jr = lambda l, p: p == JR
    tr = [T('row_ok($a0, {v}@, {s} as int)', scope={'v': 'Sq<Fl>', 's': 'usize'}, only=jr),
          T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == k)', mod={'v': 'Sq<usize>'}, only=jr),
          T('(all_ok($a0.vals@) && r_dom($a0) ==> forall|p: int, q: int| 0 <= p < {i} && 0 <= q < $a0.indeps@.len() ==> is_v(#[trigger] m_at({v}, p, q), jac($a0, p, q)))', mod={'v': 'Mat'}, only=jr),
          T('(all_ok($a0.vals@) && r_dom($a0) ==> forall|p: int, q: int| 0 <= p < $a0.deps@.len() && 0 <= q < $a0.indeps@.len() && (p < {s} || (p == {s} && q < {i})) ==> is_v(#[trigger] m_at({v}, p, q), jac($a0, p, q)))', mod={'v': 'Mat'}, scope={'s': 'usize'}, only=jr)]
    c = {JR: r, TAPE + 'first_order_reverse': REVM_C, 'operation::Operation::first_order_reverse': OPR_C, 'operation::first_order_value': FOV_C}
    e = dict(id='C11', name='reverse driver', mode='real', contracts=c, roots=[JR], adts=ADTS, specs=[P.TAPEV, OPS, DERIV, TAPE_WF, BOPS, TANGENT, SUMS, ADJOINT, ACT, JAC], templates=REV + tr, broadcast=BC)
    return [a, b, e]
