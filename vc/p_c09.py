from tapes import *

OPF = 'operation::Operation::first_order'
# one operation of the forward sweep
OPF_C = dict(private=True, requires=['op_wf($a0, $a1@.len() as int)', '$a2@.len() == $a1@.len()'],
  ensures=[('frame', '$a2p@.len() == $a2@.len() && forall|s: int| 0 <= s < $a2@.len() && !(wr($a0) && s == $a0.vid) ==> #[trigger] $a2p@[s] == $a2@[s]'),
           ('constant', '$a0.opcode == OpCode::Const ==> is_v($a2p@[$a0.vid as int], 0real)'),
           ('derivative', 'all_ok($a1@) && all_ok($a2@) && (calc($a0) ==> op_dom($a0, $a1@, reals($a2@))) ==> fls($a2p@, tstep($a0, $a1@, reals($a2@)))')])
FOV_C = dict(private=True,
      requires=['op_ok($a0, $a2)', 'is_bin($a0) ==> $a4 is Some'],
      ensures=[('derivative', '$a1.ok && oko($a2) && $a3.ok && oko($a4) && dom($a0, $a1.v, $a3.v, ro($a2), ro($a4)) ==> is_v($r, d_val($a0, $a1.v, $a3.v, ro($a2), ro($a4)))')],
      proof_begin='l_op($a0, $a1.v, $a3.v, if $a2 is Some { ($a2->0).v } else { 1real }, if $a4 is Some { ($a4->0).v } else { 0real });')
FWD_C = dict(broadcast=['sq_ext', 'b_rscat_len', 'b_tan_len', 'b_fls'], requires=['t_wf($a0)', '$a1@.len() == $a0.indeps@.len()', 'all_ok($a1@)'], proof_begin='let n = $a0.ops@.len() as int; l_tan_len($a0, reals($a1@), n); if t_dom($a0, reals($a1@)) { l_tan_dom($a0, reals($a1@)); }',
      ensures=[('size', '$r@.len() == $a0.deps@.len()'),
               ('derivative', 'all_ok($a0.vals@) && t_dom($a0, reals($a1@)) ==> forall|j: int| 0 <= j < $a0.deps@.len() ==> is_v(#[trigger] $r@[j], tangent($a0, reals($a1@))[$a0.deps@[j] as int])')])
BC = ['sq_ext', 'lemma_powi2', 'ax_sqrt_pos', 'ax_pow0', 'b_mul', 'b_dbin', 'b_lbin', 'b_lun', 'b_rscat_len', 'b_tan_len']

def spec():
    c = {}; roots = []
    def C(p, **k):
        c[p] = k; roots.append(p)
    c[OPF] = OPF_C; c['operation::first_order_value'] = FOV_C
    C(TAPE + 'first_order_forward', **FWD_C)
    return dict(id='C09', name='forward sweep', mode='real', contracts=c, roots=roots, adts=ADTS, specs=[P.TAPEV, OPS, DERIV, TAPE_WF, BOPS, TANGENT], templates=FWD, broadcast=BC)
