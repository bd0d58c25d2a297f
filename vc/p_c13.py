from tapes import *
from p_c09 import OPF_C, OPF, FOV_C, BC
from p_c10 import OPR_C, ACT
from mats import *

def an_contracts(size_only=False):
    c = {}
    for X in 'ZLJY':
        x = AN + 'AbsNormal' + X; m = x + "::<'a>::"; w = f'{X.lower()}_wf($a0)'; t = f'{X.lower()}t($a0.inner.inner)'; nr, nc = f'{t}.deps@.len()', f'{t}.indeps@.len()'
        c['as_tape:' + x] = dict(requires=[w], ensures=[('view', f'$r == {t}')], proof_end=f'assert($r.ops@ =~= an_ops($a0.inner.inner.ops@)); assert($r.indeps@ =~= {t}.indeps@); assert($r.deps@ =~= {t}.deps@); sq_ext($r.ops, {t}.ops); sq_ext($r.indeps, {t}.indeps); sq_ext($r.deps, {t}.deps); assert($r.vals == {t}.vals); assert($r.ops == {t}.ops); assert($r.indeps == {t}.indeps); assert($r.deps == {t}.deps);', templates=[T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == an_op($a0.inner.inner.ops@[k]))', mod={'v': 'Sq<Operation>'})])
        c[m + 'new'] = dict(requires=['an_wf($a0)'], ensures=[('selects', f'$r.inner == $a0 && {w.replace("$a0", "$r")}')], proof_end=f'assert($r.indeps@ =~= {t}.indeps@); assert($r.deps@ =~= {t}.deps@);'.replace('$a0', '$r'),
                            templates=[T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == {s}@[k])', mod={'v': 'Sq<usize>'}, scope={'s': 'Sq<usize>'}), T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == $a0.indeps@[k + $a0.n])', mod={'v': 'Sq<usize>'}), T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == $a0.deps@[k + $a0.s])', mod={'v': 'Sq<usize>'})])
        c[m + 'nrows'] = dict(requires=[w], ensures=[('rows', f'$r == {nr}')])
        c[m + 'ncols'] = dict(requires=[w], ensures=[('columns', f'$r == {nc}')])
        idx = T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == k)', mod={'v': 'Sq<usize>'})
        c[m + 'mul_right'] = dict(requires=[w, f'm_wf($a1) && m_ok($a1) && m_r($a1) == {nc}'], reduce=f'mcols({t}, $a1, {{v}}@, {{lo}}, {{hi}})',
          ensures=[('size', f'm_wf($r) && m_r($r) == {nr} && m_c($r) == m_c($a1)'), ('product', f'okt({t}) ==> forall|i: int, j: int| 0 <= i < m_r($r) && 0 <= j < m_c($r) ==> is_v(#[trigger] m_at($r, i, j), jcol({t}, mcol($a1, j), i))')],
          templates=[idx, T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == m_at($a1, k, {s} as int))', mod={'v': 'Sq<Fl>'}, scope={'s': 'usize'}),
                     T('(forall|k: int| 0 <= k < {i} ==> #[trigger] m_at({v}, k, 0) == {s}@[k])', mod={'v': 'Mat'}, scope={'s': 'Sq<Fl>'}),
                     T(f'(okt({t}) ==> forall|p: int, q: int| 0 <= p < {nr} && 0 <= q < {{i}} ==> is_v(#[trigger] m_at({{v}}, p, q), jcol({t}, mcol($a1, q), p)))', mod={'v': 'Mat'}),
                     T('(forall|p: int, q: int| 0 <= p < m_r({v}) && 0 <= q < m_c({v}) && q != {s} ==> #[trigger] m_at({v}, p, q) == m_at({v0}, p, q))', mod={'v': 'Mat'}, scope={'s': 'loop'}),
                     T('(forall|p: int| 0 <= p < {i} ==> #[trigger] m_at({v}, p, {s} as int) == {w}@[p])', mod={'v': 'Mat'}, scope={'s': 'loop', 'w': 'Sq<Fl>'})])
        c[m + 'mul_left'] = dict(requires=[w, f'm_wf($a1) && m_ok($a1) && m_c($a1) == {nr}'], reduce=f'mrows({t}, $a1, {{v}}@, {{lo}}, {{hi}})',
          ensures=[('size', f'm_wf($r) && m_r($r) == m_r($a1) && m_c($r) == {nc}'), ('product', f'okt({t}) ==> forall|i: int, j: int| 0 <= i < m_r($r) && 0 <= j < m_c($r) ==> is_v(#[trigger] m_at($r, i, j), jrow({t}, mrow($a1, i), j))')],
          templates=[idx, T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == m_at($a1, {s} as int, k))', mod={'v': 'Sq<Fl>'}, scope={'s': 'usize'}),
                     T('(forall|k: int| 0 <= k < {i} ==> #[trigger] m_at({v}, 0, k) == {s}@[k])', mod={'v': 'Mat'}, scope={'s': 'Sq<Fl>'}),
                     T(f'(okt({t}) ==> forall|p: int, q: int| 0 <= p < {{i}} && 0 <= q < {nc} ==> is_v(#[trigger] m_at({{v}}, p, q), jrow({t}, mrow($a1, p), q)))', mod={'v': 'Mat'}),
                     T('(forall|p: int, q: int| 0 <= p < m_r({v}) && 0 <= q < m_c({v}) && p != {s} ==> #[trigger] m_at({v}, p, q) == m_at({v0}, p, q))', mod={'v': 'Mat'}, scope={'s': 'loop'}),
                     T('(forall|q: int| 0 <= q < {i} ==> #[trigger] m_at({v}, {s} as int, q) == {w}@[q])', mod={'v': 'Mat'}, scope={'s': 'loop', 'w': 'Sq<Fl>'})])
        c[m + 'row'] = dict(requires=[w, f'$a1 < {nr}'], ensures=[('row', f'm_wf($r) && m_r($r) == 1 && m_c($r) == {nc} && (okt({t}) ==> forall|j: int| 0 <= j < m_c($r) ==> is_v(#[trigger] m_at($r, 0, j), jac({t}, $a1 as int, j)))')])
        c[m + 'column'] = dict(requires=[w, f'$a1 < {nc}'], ensures=[('column', f'm_wf($r) && m_r($r) == {nr} && m_c($r) == 1 && (okt({t}) ==> forall|i: int| 0 <= i < m_r($r) ==> is_v(#[trigger] m_at($r, i, 0), jac({t}, i, $a1 as int)))')])
    t = '$a0.inner'
    c[AN + 'AbsNormalTape::new'] = dict(requires=['t_wf($a0)'], ensures=[('decomposes', '$r.inner == $a0 && an_wf($r)')],
      proof_end='assert($r.indeps@ =~= $a0.indeps@ + avs($a0)); assert($r.deps@ =~= aas($a0) + $a0.deps@);',
      templates=[T('{v}@ == absv($a0.ops@, {i} as int)', mod={'v': 'Sq<usize>'}), T('{v}@ == {v0}@ + absv($a0.ops@, {i} as int)', mod={'v': 'Sq<usize>'}), T('{v}@ == absa($a0.ops@, {i} as int)', mod={'v': 'Sq<usize>'}), T('{v}@ == {v0}@ + absa($a0.ops@, {i} as int)', mod={'v': 'Sq<usize>'}),
                 T('{v}@ == {v0}@ + $a0.indeps@.subrange(0, {i} as int)', mod={'v': 'Sq<usize>'}), T('{v}@ == {v0}@ + $a0.deps@.subrange(0, {i} as int)', mod={'v': 'Sq<usize>'})])
    for k, e in (('n', f'{t}.indeps@.len()'), ('m', f'{t}.deps@.len()'), ('s', f'cnt_abs({t}.ops@, {t}.ops@.len() as int)')): c[AN + 'AbsNormalTape::' + k] = dict(requires=['an_wf($a0)'], ensures=[('dimension', f'$r == {e}')])
    return c

NUM = {TAPE + 'num_indeps': dict(requires=[], ensures=[('inputs', '$r == $a0.indeps@.len()')]), TAPE + 'num_deps': dict(ensures=[('outputs', '$r == $a0.deps@.len()')]),
       TAPE + 'num_abs': dict(ensures=[('absolute values', '$r == cnt_abs($a0.ops@, $a0.ops@.len() as int)')], templates=COUNT)}
AN_ADTS = ADTS + [AN + 'AbsNormalTape'] + [AN + 'AbsNormal' + X for X in 'ZLJY']
AN_BC = BC + ['b_sqv', 'b_views', 'b_mrow_unit', 'b_mcol_unit', 'b_lin', 'b_full', 'b_subpush']
EXTRA = '''
pub broadcast proof fn b_full<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
pub broadcast proof fn b_subpush<A>(p: Seq<A>, s: Seq<A>, n: int, m: int) requires 0 <= n < s.len(), m == n + 1 ensures #![trigger p + s.subrange(0, n), p + s.subrange(0, m)] p + s.subrange(0, m) == (p + s.subrange(0, n)).push(s[n]) { assert(p + s.subrange(0, m) =~= (p + s.subrange(0, n)).push(s[n])); }
pub broadcast proof fn b_lin(m: Mat, k: int) requires 0 <= k < m_r(m) ensures #![trigger lin_i(m, k)] lin_i(m, k) == k, lin_j(m, k) == 0 { assert(k % m_r(m) as int == k && k / m_r(m) as int == 0) by (nonlinear_arith) requires 0 <= k < m_r(m); }
'''
SPECS = [P.TAPEV, OPS, DERIV, TAPE_WF, BOPS, TANGENT, SUMS, ADJOINT, ACT, JAC, MUL, ABSN, EXTRA]

def spec():
    c = an_contracts(); roots = [k for k in c if not k.startswith('as_tape')]
    c.update(NUM); c.update({TAPE + 'first_order_forward': FWDM_C, TAPE + 'first_order_reverse': REVX_C, 'operation::Operation::first_order_reverse': OPR_C, 'operation::first_order_value': FOV_C, OPF: OPF_C})
    a = dict(id='C13', name='matrix operators', mode='real', contracts=c, roots=roots, adts=AN_ADTS, specs=SPECS, templates=FWD + REV, broadcast=AN_BC)
    d = {k: NUM[k] for k in (TAPE + 'num_indeps', TAPE + 'num_deps')}
    for X in 'ZLJY':
        m = AN + 'AbsNormal' + X + "::<'a>::"
        d['as_tape:' + AN + 'AbsNormal' + X] = dict(ensures=[('slots', '$r.indeps == $a0.indeps && $r.deps == $a0.deps')])
        d[m + 'nrows'] = dict(ensures=[('rows', '$r == $a0.deps@.len()')])
        d[m + 'ncols'] = dict(ensures=[('columns', '$r == $a0.indeps@.len()')])
        d[m + 'mul_right'] = dict(ensures=[('rejects', 'm_r($a1) == $a0.indeps@.len()')], reduce='any_item({v}@)')
        d[m + 'mul_left'] = dict(ensures=[('rejects', 'm_c($a1) == $a0.deps@.len()')], reduce='any_item({v}@)')
    b = dict(id='C13', name='operands of the wrong size are rejected', mode='exact', lenient=True, contracts=d, roots=[k for k in d if 'mul_' in k], adts=AN_ADTS, specs=[P.TAPEV, OPS, 'pub open spec fn any_item(v: Seq<(usize, Mat)>) -> bool { v.len() >= 0 }'], broadcast=['sq_ext'])
    return [a, b]
