from gjac import *
from engine import flat_lines
from p_c12 import z_contract, VZ
from p_c13 import an_contracts, NUM, AN_ADTS, AN_BC, SPECS
GJ = 'drivers::generalized_jacobian::'
GJT = GJ + 'generalized_jacobian_tape'
SPEC = SPECS + [ANF, LINK, VZ, GJ_DZ, GJ_SIG, GJ_U, GJ_RES, GJ_COMP]
GBC = AN_BC + ['b_mvec', 'b_mcol_is', 'b_pick', 'ax_veq', 'ax_meq', 'b_zprog', 'b_zbreak', 'b_zdone', 'b_rabs', 'b_mofv', 'b_bit', 'b_zc', 'b_uprog', 'b_ubreak', 'b_udone', 'b_mrow_u', 'b_mul_m', 'b_mul_v', 'b_ident']

def has(*words):
    """only for loops whose body makes one of these calls"""
    return lambda l, p: any(w in x for x in flat_lines(l.body) for w in words)
def hasnt(*words): return lambda l, p: not has(*words)(l, p)

def gj_contract(t='$a0', d='$a1@', b='$a2@', nx='$a3', body=True):
    dx = f'reals({d})'; g = f'gmat({t}, {nx})'; sg = f'sgns({t}, {dx}, {b})'
    sc = lambda S: T('sc({v}, {v0}, %s, |p: int, q: int| %s)' % (sg, S), mod={'v': 'Mat'}, scope={'s': 'loop'} if '{s}' in S else {}, only=hasnt('mul_'))
    c = dict(requires=[f't_wf({t})', f'{d}.len() == {t}.indeps@.len()', f'all_ok({d})', f'all_ok({t}.vals@)', f'okan({t})', f'g_wf({t}, {nx})'],
      ensures=[('size', f'm_wf($r.homogenous) && m_r($r.homogenous) == m_r({g}) && m_c($r.homogenous) == {t}.indeps@.len() && $r.inhomogenous@.len() == m_r({g})'),
        ('homogenous part', f'forall|p: int, j: int| 0 <= p < m_r({g}) && 0 <= j < {t}.indeps@.len() ==> is_v(#[trigger] m_at($r.homogenous, p, j), g_hom({t}, {dx}, {b}, {nx}, p, j))'),
        ('inhomogenous part', f'forall|p: int| 0 <= p < m_r({g}) ==> is_v(#[trigger] $r.inhomogenous@[p], g_inh({t}, {dx}, {b}, {nx}, p))'),
        ('multiplicity', f'$r.multiplicity == zc(dzs({t}, {dx}), avs({t}).len() as int) + gmul({nx})')],
      proof_begin=f'b_views({t}); l_vz({t}); b_ident({t}.deps@.len()); b_zc(dzs({t}, {dx}), avs({t}).len() as int); assert(rv_(zabs({t})) == zabs({t})); assert(rv_(avec({t})) == avec({t})); assert(rv_(bvec({t})) == bvec({t})); assert(rv_(rabs(dzs({t}, {dx}))) == rabs(dzs({t}, {dx})));',
      templates=[T(f'zprog({t}, {dx}, {{v}}@, {{i}} as int)', mod={'v': 'Sq<Fl>'}, only=has('mul_')),
        T(f'{{c}} == zc(dzs({t}, {dx}), {{i}} as int)', mod={'c': 'usize'}, only=hasnt('mul_')), T(f'{{c}} == imin(zc(dzs({t}, {dx}), {{i}} as int), (8 * {b}.len()) as int)', mod={'c': 'usize'}, only=hasnt('mul_')),
        T(f'(forall|j: int| 0 <= j < {{i}} ==> is_v(#[trigger] {{v}}@[j], {sg}[j]))', mod={'v': 'Sq<Fl>'}, only=hasnt('mul_')),
        sc('p < {i}'), sc('p == {s} && q < {i}'), sc('q < {i}'), sc('q == {s} && p < {i}'),
        T(f'uprog({t}, {g}, {sg}, {{v}}, {{i}} as int)', mod={'v': 'Mat'}, only=has('mul_')), T('{v} == {w}', mod={'v': 'Mat', 'w': 'Mat'})])
    if not body:
        for k in ('proof_begin', 'templates'): del c[k]
    return c

def spec():
    c = an_contracts(); c[AN + 'AbsNormalTape::z'] = z_contract(); c.update(NUM)
    for k in c: c[k] = dict(c[k], elsewhere='C12' if k.endswith('Tape::z') else 'C13')
    c[GJT] = gj_contract()
    c[GJ + 'bit_iter'] = dict(inline=True)
    w = gj_contract('f_tape($a0, $a1@)', '$a2@', '$a3@', '$a4', body=False); w['requires'] = ['$a1@.len() == f_n($a0)'] + w['requires'][1:]; c[GJ + 'generalized_jacobian'] = w
    a = dict(id='C14', name='generalized Jacobian of a tape', mode='real', contracts=c, roots=[GJT, GJ + 'generalized_jacobian'], adts=AN_ADTS + [GJ + 'GeneralizedJacobian'], specs=[P.FUNCV, WORLD1] + SPEC + [FTAPE], templates=[], broadcast=GBC)
    return [a]
