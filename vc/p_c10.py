from tapes import *
from p_c09 import FOV_C, BC

OPR_C = dict(private=True, requires=['op_wf($a0, $a1@.len() as int)', '$a2@.len() == $a1@.len()', '$a0.opcode != OpCode::Abs', 'wr($a0) ==> !rd($a0, $a0.vid as int)'],
  proof_begin='if calc($a0) { l_rop($a0.opcode, va1($a0, $a1@), if is_bin($a0.opcode) { va2($a0, $a1@) } else { 1real }, $a2@[$a0.vid as int].v); l_op($a0.opcode, va1($a0, $a1@), 1real, 1real, 0real); }',
  ensures=[('size', '$a2p@.len() == $a2@.len()'),
           ('adjoint step', 'forall|d: RS, nc: spec_fn(int) -> bool| #[trigger] fnc($a2@, d, nc) && all_ok($a1@) && (calc($a0) ==> nc($a0.vid as int) && op_rdom($a0, $a1@, nc)) ==> fnc($a2p@, astep($a0, $a1@, d), nc)')])
REV_C = dict(requires=['t_wf($a0)', '$a1@.len() == $a0.deps@.len()', 'all_ok($a1@)', 'no_abs($a0)'], broadcast=['sq_ext', 'b_ascat_len', 'b_adj_len', 'b_fls', 'b_act'],
      proof_end='if all_ok($a0.vals@) && r_dom($a0) { assert(reals($r@) =~= rpick(adjoint($a0, reals($a1@)), $a0.indeps@)); assert forall|dx: RS| dx.len() == $a0.indeps@.len() implies rdot(reals($r@), dx) == rdot(reals($a1@), rpick(#[trigger] tangent($a0, dx), $a0.deps@)) by { l_adjoint($a0, reals($a1@), dx); } }',
      ensures=[('size', '$r@.len() == $a0.indeps@.len()'),
               ('derivative', 'all_ok($a0.vals@) && r_dom($a0) ==> all_ok($r@) && reals($r@) == rpick(adjoint($a0, reals($a1@)), $a0.indeps@)'),
               ('adjoint', 'all_ok($a0.vals@) && r_dom($a0) ==> forall|dx: RS| dx.len() == $a0.indeps@.len() ==> rdot(reals($r@), dx) == rdot(reals($a1@), rpick(#[trigger] tangent($a0, dx), $a0.deps@))')])

def spec():
    c = {}; roots = []
    def C(p, **k):
        c[p] = k; roots.append(p)
    c['operation::Operation::first_order_reverse'] = OPR_C; c['operation::first_order_value'] = FOV_C
    C(TAPE + 'first_order_reverse', **REV_C)
    a = dict(id='C10', name='reverse sweep', mode='real', contracts=c, roots=roots, adts=ADTS, specs=[P.TAPEV, OPS, DERIV, TAPE_WF, BOPS, TANGENT, SUMS, ADJOINT, ACT], templates=REV, broadcast=BC)
    d = {TAPE + 'first_order_reverse': dict(ensures=[('rejects', 'no_abs($a0)')])}
    b = dict(id='C10', name='absolute values rejected', mode='real', contracts=d, roots=list(d), lenient=True, adts=ADTS, specs=[P.TAPEV, OPS, 'pub open spec fn no_abs(t: TapeV) -> bool { forall|k: int| 0 <= k < t.ops@.len() ==> (#[trigger] t.ops@[k]).opcode != OpCode::Abs }'],
             templates=[T('(forall|k: int| $a0.ops@.len() - {i} <= k < $a0.ops@.len() ==> (#[trigger] $a0.ops@[k]).opcode != OpCode::Abs)', only=rev), T('(forall|k: int| 0 <= k < {i} ==> (#[trigger] $a0.ops@[k]).opcode != OpCode::Abs)', only=rev)], broadcast=['sq_ext'])
    return [a, b]

ACT = '''
/// operations compute active slots
pub broadcast proof fn b_act(t: TapeV, k: int) requires 0 <= k < t.ops@.len(), calc(t.ops@[k]) ensures #![trigger t.ops@[k], act(t)] act(t)(t.ops@[k].vid as int) { assert(!cst(t, t.ops@[k].vid as int)); }
'''
