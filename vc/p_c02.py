from common import *
from p_c01 import spec as c01

def spec():
    c = {}
    vals = {}
    roots = []
    def C(path, **k):
        c[path] = k
        if not k.get('private'): roots.append(path)
    C('operation::first_order_value', private=True,
      requires=['op_ok($a0, $a2)', 'is_bin($a0) ==> $a4 is Some'],
      ensures=[('derivative', '$a1.ok && oko($a2) && $a3.ok && oko($a4) && dom($a0, $a1.v, $a3.v, ro($a2), ro($a4)) ==> is_v($r, d_val($a0, $a1.v, $a3.v, ro($a2), ro($a4)))')],
      proof_begin='l_op($a0, $a1.v, $a3.v, if $a2 is Some { ($a2->0).v } else { 1real }, if $a4 is Some { ($a4->0).v } else { 0real });')
    C('operation::zero_order_value', private=True, requires=['op_ok($a0, $a2)'], ensures=[('value', '$r == op_val($a0, $a1, $a2)')])
    C('afloat::AFloat::<S>::from_op', private=True, requires=['op_ok($a0, $a2)', '$a2 is Some ==> ctx_ok($a1, $a2->0)'],
      ensures=[('membership', 'ctxo($r, $a1, $a2)'), ('value', '$r.v == op_val($a0, $a1.v, vo($a2))'), ('derivative', 'aok($a1) && aoko($a2) && dom($a0, $a1.v.v, $a1.dv.v, rvo($a2), rdo($a2)) ==> is_v($r.dv, d_val($a0, $a1.v.v, $a1.dv.v, rvo($a2), rdo($a2)))')],
      proof_begin='l_op($a0, $a1.v.v, $a1.dv.v, if $a2 is Some { ($a2->0).v.v } else { 1real }, if $a2 is Some { ($a2->0).dv.v } else { 0real });')
    for op in ('Add', 'Sub', 'Mul', 'Div'):
        o = f'OpCode::{op}'
        def D(x, dx, y, dy, ok, r, val=None):
            e = f'{ok} && dom_bin({o}, {x}, {y}, {dx}, {dy}) ==> is_v({r}.dv, d_bin({o}, {x}, {y}, {dx}, {dy}))'
            return dict(ensures=([val] if val else []) + [('derivative', e)], proof_begin=f'l_op({o}, {x}, {dx}, {y}, {dy});')
        AA = ('$a0.v.v', '$a0.dv.v', '$a1.v.v', '$a1.dv.v', 'aok($a0) && aok($a1)')
        AFx = ('$a0.v.v', '$a0.dv.v', '$a1.v', '0real', 'aok($a0) && $a1.ok')
        FA = ('$a0.v', '0real', '$a1.v.v', '$a1.dv.v', '$a0.ok && aok($a1)')
        for k, x, y, r in (('A', '$a0.v', '$a1.v', '$r'), ('F', '$a0.v', 's_cast(Kind::F64, Kind::S, $a1)', '$r'), ('L', 's_cast(Kind::F64, Kind::S, $a0)', '$a1.v', '$r')): vals[k] = ('value', {'A': 'ctx2($r, $a0, $a1)', 'F': 'ctx1($r, $a0)', 'L': 'ctx1($r, $a1)'}[k] + f' && {r}.v == s_{op.lower()}({x}, {y})')
        C(aop(op, 'A'), requires=['ctx_ok($a0, $a1)'], **D(*AA, '$r', vals['A']))
        C(aop(op, 'F'), **D(*AFx, '$r', vals['F']))
        C(aop(op, 'L'), **D(*FA, '$r', vals['L']))
        C(aassign(op, 'A'), requires=['ctx_ok($a0, $a1)'], **D(*AA, '$a0p'))
        C(aassign(op, 'F'), **D(*AFx, '$a0p'))
    for u in UN:
        o = f'OpCode::{u}'
        C(fl(u.lower()), ensures=[('value', f'ctx1($r, $a0) && $r.v == s_{u.lower()}($a0.v)'), ('derivative', f'aok($a0) && dom_un({o}, $a0.v.v) ==> is_v($r.dv, d_un({o}, $a0.v.v, $a0.dv.v))')], proof_begin=f'l_op({o}, $a0.v.v, $a0.dv.v, 1real, 0real);')
    o = 'OpCode::Powf'
    C(fl('powf'), requires=['ctx_ok($a0, $a1)'], **D_pow(o))
    return dict(id='C02', mode='real', contracts=c, roots=roots, adts=ADTS + ['acontext::AContextInner'], specs=[WORLD_LIGHT, OPS, AFL, DERIV], templates=[],
                broadcast=['sq_ext', 'lemma_powi2', 'ax_sqrt_pos', 'ax_pow0', 'b_mul', 'b_dbin'])

def D_pow(o):
    e = f'aok($a0) && aok($a1) && dom_bin({o}, $a0.v.v, $a1.v.v, $a0.dv.v, $a1.dv.v) ==> is_v($r.dv, d_bin({o}, $a0.v.v, $a1.v.v, $a0.dv.v, $a1.dv.v))'
    return dict(ensures=[('value', 'ctx2($r, $a0, $a1) && $r.v == s_powf($a0.v, $a1.v)'), ('derivative', e)], proof_begin=f'l_op({o}, $a0.v.v, $a0.dv.v, $a1.v.v, $a1.dv.v);')
