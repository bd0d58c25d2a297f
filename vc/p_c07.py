"""Identity, isolation and the end of recordings."""
from core import *

BC = ['sq_ext', 'ax_cast_same', 'ax_world', 'ax_owned', 'b_step', 'b_set']
ADT = ADTS + ['acontext::AContextInner', 'acontext::AContext']
ISO = '''
/// written to nothing but the recording c
pub open spec fn only(a: World, b: World, c: usize) -> bool { forall|h: Hd| #[trigger] touched(b).contains(h) ==> touched(a).contains(h) || (hof(b).contains_key(c) && h == hof(b)[c]) }
pub open spec fn only2(a: World, b: World, x: AFloat, y: AFloat) -> bool { forall|h: Hd| #[trigger] touched(b).contains(h) ==> touched(a).contains(h) || (x.ctx is Some && hof(b).contains_key(cidof(x)) && h == hof(b)[cidof(x)]) || (y.ctx is Some && hof(b).contains_key(cidof(y)) && h == hof(b)[cidof(y)]) }
pub open spec fn quiet(a: World, b: World) -> bool { forall|h: Hd| #[trigger] touched(b).contains(h) ==> touched(a).contains(h) }
pub open spec fn opt2(x: AFloat, b: Option<AFloat>) -> AFloat { match b { Some(y) => y, None => x } }
'''

def base(c, roots, **k):
    return dict(dict(id='C07', mode='exact', adts=ADT, specs=[*SPECS, world(False), ISO], broadcast=BC, contracts=c, roots=roots), **k)

def spec(): return [identity(), isolation(), mixing()]

F = 'free($w0)'
ctx = 'ctx_in($w0, $a0)'
RESOLVE = dict(requires=[F], ensures=[('state', 'step($w0, $w)'), ('same recording', '$r is Some ==> hof($w).contains_key($a0) && hof($w)[$a0] == ($r->0).inner'),
    ('resolves', 'hof($w0).contains_key($a0) && owned($w0).contains(hof($w0)[$a0]) ==> $r is Some'), ('ended', 'hof($w0).contains_key($a0) && dead($w0).contains(hof($w0)[$a0]) ==> $r is None'), ('isolation', 'quiet($w0, $w)')])

def FR(h): return [(t, x.replace('H', h)) for t, x in [('new identity', '!hof($w0).contains_key(rec($w, H).cid)'), ('known', 'known($w, H) && !known($w0, H)'), ('alive', 'owned($w) == owned($w0).insert(H) && owned($w).contains(H)'), ('alive', '!dead($w).contains(H)'), ('state', 'free($w)'), ('state', 'step_($w0, $w)'), ('isolation', 'quiet($w0, $w)')]]

def identity():
    c = {}
    c[IN + 'new'] = dict(requires=[F], ensures=[*FR('$r'), ('registered', 'reg($w).contains_key(rec($w, $r).cid) && wk_h(reg($w)[rec($w, $r).cid]) == $r')])
    for p in (CX + 'new', '<acontext::AContext as std::default::Default>::default'):
        c[p] = dict(requires=[F], ensures=FR('$r.inner'))
    c[CX + 'from_cid'] = RESOLVE
    c[CX + 'cid'] = dict(requires=[F, ctx], ensures=[('identity', '$r == rec($w0, $a0.inner).cid'), ('state', 'step($w0, $w) && quiet($w0, $w)')])
    c[IN + 'cid'] = dict(ensures=[('identity', '$r == $a0.cid')])
    # runs when the last handle is gone
    c['<acontext::AContextInner as std::ops::Drop>::drop'] = dict(requires=[F, 'hof($w0).contains_key($a0.cid) && dead($w0).contains(hof($w0)[$a0.cid])'], ensures=[('no entry remains', '!reg($w).contains_key($a0.cid)'), ('state', 'step($w0, $w) && quiet($w0, $w)')])
    return base(c, list(c), name='identity')

def isolation():
    c = {}; roots = []
    def C(p, req=(), ens=(), root=True, **k):
        c[p] = dict(requires=[F] + list(req), ensures=[('state', 'step($w0, $w)')] + list(ens), **k)
        if root: roots.append(p)
    c[CX + 'from_cid'] = RESOLVE
    H = 'only($w0, $w, rec($w0, $a0.inner).cid)'; iso = ('isolation', H)
    C(CX + 'record', [ctx], [iso])
    C(CX + 'set_indep', [ctx], [iso, ('membership', '$a1p.ctx is Some && cidof($a1p) == rec($w0, $a0.inner).cid')])
    C(CX + 'set_dep', [ctx, '$a1.ctx is Some ==> cidof($a1) == rec($w0, $a0.inner).cid'], [iso])
    C(CX + 'new_indep', [ctx], [iso])
    loop = [T('step(w0, w)'), T('free(w)'), T(ctx.replace('$w0', 'w')), T(H.replace('$w0', 'w0').replace('$w', 'w'))]
    C(CX + 'new_indep_vec', [ctx], [iso], templates=loop)
    C(CX + 'set_dep_slice', [ctx, 'forall|j: int| 0 <= j < $a1@.len() ==> ((#[trigger] $a1@[j]).ctx is Some ==> cidof($a1@[j]) == rec($w0, $a0.inner).cid)'], [iso], templates=loop)
    def E(x, y, r='$r'): return [('isolation', f'only2($w0, $w, {x}, {y})'), ('leftovers', f'gone($w0, {x}) && gone($w0, {y}) ==> {r}.ctx is None && quiet($w0, $w)'),
                                 ('membership', f'ctx2({r}, {x}, {y})')]
    al = lambda x: f'{x}.ctx is Some ==> hof($w0).contains_key(cidof({x}))'
    C('afloat::AFloat::<S>::from_op', ['op_ok($a0, $a2)', '$a2 is Some ==> ctx_ok($a1, $a2->0)', al('$a1'), f'$a2 is Some ==> ({al("$a2->0")})'], E('$a1', 'opt2($a1, $a2)'))
    n = [al('$a0')]; nn = n + [al('$a1'), 'ctx_ok($a0, $a1)']
    for op in ('Add', 'Sub', 'Mul', 'Div'):
        C(aop(op, 'A'), nn, E('$a0', '$a1')); C(aop(op, 'F'), n, E('$a0', '$a0')); C(aop(op, 'L'), [al('$a1')], E('$a1', '$a1'))
        C(aassign(op, 'A'), nn, E('$a0', '$a1', '$a0p')); C(aassign(op, 'F'), n, E('$a0', '$a0', '$a0p'))
    for u in [x.lower() for x in UN] + DER1: C(fl(u) if u != 'neg' else AF + 'std::ops::Neg>::neg', n, E('$a0', '$a0'))
    for u in ['powf'] + DER2: C(fl(u), nn, E('$a0', '$a1'))
    return base(c, roots, name='isolation')

def mixing():
    c = {}; roots = []
    def C(p, req, **k): c[p] = dict(requires=[F], ensures=[('rejects', req)], **k); roots.append(p)
    C('afloat::AFloat::<S>::from_op', '$a2 is Some ==> ctx_ok($a1, $a2->0)')
    C(CX + 'set_dep', '$a1.ctx is Some ==> cidof($a1) == rec($w0, $a0.inner).cid')
    c[CX + 'set_dep']['requires'].append(ctx)
    for op in ('Add', 'Sub', 'Mul', 'Div'):
        C(aop(op, 'A'), 'ctx_ok($a0, $a1)'); C(aassign(op, 'A'), 'ctx_ok($a0, $a1)')
    C(fl('powf'), 'ctx_ok($a0, $a1)')
    return base(c, roots, name='two recordings do not mix', lenient=True)
ASSUME, TRUSTED = ASSUME_W, TRUST_W
