from anf import *
from p_c13 import an_contracts, NUM, AN_ADTS, AN_BC, SPECS

VZ = '''
pub proof fn l_aas(t: TapeV) requires t_wf(t) ensures aas(t).len() == cnt_abs(t.ops@, t.ops@.len() as int), forall|j: int| 0 <= j < aas(t).len() ==> #[trigger] aas(t)[j] < t.vals@.len()
{ let o = t.ops@; l_absi(o, o.len() as int, t.vals@.len() as int); let x = absi(o, o.len() as int); assert forall|j: int| 0 <= j < aas(t).len() implies #[trigger] aas(t)[j] < t.vals@.len() by { assert(x[j] < o.len()); } }
pub proof fn l_vz(t: TapeV) requires t_wf(t), all_ok(t.vals@) ensures forall|j: int| 0 <= j < aas(t).len() ==> is_v(t.vals@[#[trigger] aas(t)[j] as int], vz(t, j)), avs(t).len() == aas(t).len()
{ let o = t.ops@; l_absi(o, o.len() as int, t.vals@.len() as int); let x = absi(o, o.len() as int); assert forall|j: int| 0 <= j < aas(t).len() implies is_v(t.vals@[#[trigger] aas(t)[j] as int], vz(t, j)) by { assert(x[j] < o.len()); } }
'''

def z_contract():
    return dict(requires=['an_wf($a0)'], ensures=[('switching values', '$r@ == pick($a0.inner.vals@, aas($a0.inner))')],
                proof_begin='l_aas($a0.inner);',
                templates=[T('{v}@ == pick($a0.inner.vals@, aas($a0.inner).subrange(0, {i} as int))', mod={'v': 'Sq<Fl>'}), T('{v}@ == aas($a0.inner).subrange(0, {i} as int)', mod={'v': 'Sq<usize>'}), T('{v}@ == pick($a0.inner.vals@, absa($a0.inner.ops@, {i} as int))', mod={'v': 'Sq<Fl>'}), T('{v}@ == absa($a0.inner.ops@, {i} as int)', mod={'v': 'Sq<usize>'}), T('{v}@ == pick($a0.inner.vals@, {s}@.subrange(0, {i} as int))', mod={'v': 'Sq<Fl>'}, scope={'s': 'Sq<usize>'})])

def spec():
    c = an_contracts(); roots = []
    for k, e in (('x', 'indeps'), ('y', 'deps')):
        c[AN + 'AbsNormalTape::' + k] = dict(requires=['an_wf($a0)'], ensures=[('values', f'$r@ == pick($a0.inner.vals@, $a0.inner.{e}@)')], templates=[T('{v}@ == pick($a0.inner.vals@, $a0.inner.%s@.subrange(0, {i} as int))' % e, mod={'v': 'Sq<Fl>'})])
        roots.append(AN + 'AbsNormalTape::' + k)
    c[AN + 'AbsNormalTape::z'] = z_contract(); roots.append(AN + 'AbsNormalTape::z'); roots.append(AN + 'AbsNormalTape::new')
    t = 'f_tape($a0, $a1@)'
    c[AN + 'abs_normal'] = dict(requires=['$a1@.len() == f_n($a0)'],
      ensures=[('sizes', f'anf_sizes($r, {t})')] + [(n + ' is the partial derivative', f'okan({t}) ==> is_jac($r.{n}mat, {n}t({t}))') for n in 'zljy'] +
        [('a = z - L|z|', f'okan({t}) ==> forall|i: int| 0 <= i < $r.a@.len() ==> is_v(#[trigger] $r.a@[i], ans_a({t}, i))'), ('b = -Y|z|', f'okan({t}) ==> forall|i: int| 0 <= i < $r.b@.len() ==> is_v(#[trigger] $r.b@[i], ans_b({t}, i))'),
         ('L strictly lower triangular', f'okan({t}) ==> lower($r.lmat)'), ('represents the piecewise linearization', f'okan({t}) ==> forall|dx: RS| dx.len() == {t}.indeps@.len() ==> #[trigger] anf_pl($r, {t}, dx)')],
      proof_begin='',
      proof_end=f'let t_ = {t}; assert(rv_(zabs(t_)) == zabs(t_)); if okan(t_) {{ l_vz(t_); assert forall|i: int| 0 <= i < $r.a@.len() implies is_v(#[trigger] $r.a@[i], ans_a(t_, i)) by {{ let q = jcol(lt(t_), zabs(t_), i); }} assert forall|i: int| 0 <= i < $r.b@.len() implies is_v(#[trigger] $r.b@[i], ans_b(t_, i)) by {{ let q = jcol(yt(t_), zabs(t_), i); }} assert(anf_is($r, t_)); l_anf_lower($r, t_); assert forall|dx: RS| dx.len() == t_.indeps@.len() implies #[trigger] anf_pl($r, t_, dx) by {{ l_anf($r, t_, dx); }} }}')
    roots.append(AN + 'abs_normal')
    c.update(NUM)
    elsewhere = {k: 'C13' for k in c if k.startswith('as_tape') or '::<' in k or k in NUM or k.split('::')[-1] in ('n', 'm', 's')}
    for k in elsewhere: c[k] = dict(c[k], elsewhere='C13')
    a = dict(id='C12', name='abs-normal form', mode='real', contracts=c, roots=roots, adts=AN_ADTS + [AN + 'AbsNormalForm'], specs=[P.FUNCV, WORLD1] + SPECS + [FTAPE, ANF, LINK, ANF_RES, VZ], templates=[], broadcast=AN_BC + ['b_mvec', 'b_mcol_is', 'b_pick'])
    return [a]
