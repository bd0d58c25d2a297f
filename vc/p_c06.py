"""Recordings are well formed."""
from core import *

def spec():
    return [main(), tapes()]

def main():
    c = {}; roots = []
    F = 'free($w0)'
    def C(p, req=(), ens=(), root=True, **k):
        c[p] = dict(requires=[F] + list(req), ensures=[('state', 'step($w0, $w)')] + list(ens), **k)
        if root: roots.append(p)
    ctx = 'ctx_in($w0, $a0)'
    C(CX + 'from_cid', ens=[('handle', '$r is Some ==> hof($w).contains_key($a0) && hof($w)[$a0] == ($r->0).inner')])
    C(CX + 'record', [ctx, 'op_ok($a1, $a4) || $a1 == OpCode::Const', '$a1 == OpCode::Const ==> $a3 is None && $a4 is None', '$a1 != OpCode::Const ==> $a3 is Some && $a3->0 < rec($w0, $a0.inner).vals@.len() && (is_bin($a1) <==> $a4 is Some)', '$a4 is Some ==> $a4->0 < rec($w0, $a0.inner).vals@.len()'],
      [('slot', '$r < rec($w, $a0.inner).vals@.len()')])
    C(CX + 'set_indep', [ctx], [('slot', 'num_ok($w, $a1p) && $a1p.ctx is Some && cidof($a1p) == rec($w0, $a0.inner).cid')])
    C(CX + 'set_dep', [ctx, 'num_ok($w0, $a1)', '$a1.ctx is Some ==> cidof($a1) == rec($w0, $a0.inner).cid'])
    C(CX + 'new_indep', [ctx], [('slot', 'num_ok($w, $r)')])
    nv = '(forall|j: int| 0 <= j < {n} ==> num_ok({w}, #[trigger] {v}@[j]))'
    C(CX + 'new_indep_vec', [ctx], [('slots', nv.format(n='$a1', w='$w', v='$r') + ' && $r@.len() == $a1')], templates=[T(nv.format(n='{i}', w='w', v='{v}'), mod={'v': 'Sq<AFloat>'}), T('step(w0, w)'), T('free(w)'), T(ctx.replace('$w0', 'w'))])
    C(CX + 'set_dep_slice', [ctx, nv.format(n='$a1@.len()', w='$w0', v='$a1'), '(forall|j: int| 0 <= j < $a1@.len() ==> (#[trigger] $a1@[j]).ctx is Some ==> cidof($a1@[j]) == rec($w0, $a0.inner).cid)'], templates=[T('step(w0, w)'), T('free(w)'), T(ctx.replace('$w0', 'w'))])
    C('afloat::AFloat::<S>::from_op', ['op_ok($a0, $a2)', 'is_un($a0) ==> $a2 is None', '$a2 is Some ==> ctx_ok($a1, $a2->0)', 'num_ok($w0, $a1)', 'numo($w0, $a2)'], [('slot', 'num_ok($w, $r)'), ('membership', 'ctxo($r, $a1, $a2)')])
    n = ['num_ok($w0, $a0)']; nn = n + ['num_ok($w0, $a1)', 'ctx_ok($a0, $a1)']
    s = ('slot', 'num_ok($w, $r)'); sp = ('slot', 'num_ok($w, $a0p)')
    for op in ('Add', 'Sub', 'Mul', 'Div'):
        C(aop(op, 'A'), nn, [s, ('membership', 'ctx2($r, $a0, $a1)')])
        C(aop(op, 'F'), n, [s, ('membership', 'ctx1($r, $a0)')])
        C(aop(op, 'L'), ['num_ok($w0, $a1)'], [s, ('membership', 'ctx1($r, $a1)')])
        C(aassign(op, 'A'), nn, [sp])
        C(aassign(op, 'F'), n, [sp])
    for u in UN: C(fl(u.lower()), n, [s, ('membership', 'ctx1($r, $a0)')])
    C(fl('powf'), nn, [s, ('membership', 'ctx2($r, $a0, $a1)')])
    for d in DER1: C(fl(d) if d != 'neg' else AF + 'std::ops::Neg>::neg', n, [s, ('membership', 'ctx1($r, $a0)')])
    for d in DER2: C(fl(d), nn, [s, ('membership', 'ctx2($r, $a0, $a1)')])
    C(fl('mul_add'), nn + ['num_ok($w0, $a2)', 'ctx_ok($a0, $a2)', 'ctx_ok($a1, $a2)'], [s])
    C(fl('sin_cos'), n, [('slot', 'num_ok($w, $r.0) && num_ok($w, $r.1)')])
    c['afloat::AFloat::<S>::cast'] = dict(requires=['num_ok(any_world(), $a0)'], ensures=[('slot', 'num_ok(any_world(), $r)')]); roots.append('afloat::AFloat::<S>::cast')
    base = dict(id='C06', mode='exact', adts=ADTS + ['acontext::AContextInner', 'acontext::AContext'], specs=[*SPECS, world()], broadcast=['sq_ext', 'ax_cast_same', 'ax_world', 'ax_owned', 'b_step', 'b_set'])
    return dict(base, name='recording', contracts=c, roots=roots)

def tapes():
    c = {}; roots = []
    ctx = 'ctx_in($w0, $a0)'
    for n, f in (('indeps', 'indeps'), ('deps', 'deps'), ('operations', 'ops'), ('values', 'vals')):
        c[CX + n] = dict(requires=['free($w0)', ctx], ensures=[('content', f'$r@ == rec($w, $a0.inner).{f}@'), ('state', 'step($w0, $w)')]); roots.append(CX + n)
    c[CX + 'tape'] = dict(ret_ty='TapeV', requires=['free($w0)', ctx], ensures=[('snapshot', '$r.indeps@ == rec($w, $a0.inner).indeps@ && $r.deps@ == rec($w, $a0.inner).deps@ && $r.ops@ == rec($w, $a0.inner).ops@ && $r.vals@ == rec($w, $a0.inner).vals@'), ('well formed', 't_wf($r)'), ('state', 'step($w0, $w)')])
    c['as_tape:acontext::AContextTape'] = dict(ensures=[('view', '$r == (TapeV { indeps: $a0.indeps, deps: $a0.deps, ops: $a0.ops, vals: $a0.vals })')])
    roots.append(CX + 'tape')
    return dict(id='C06', name='traces', mode='exact', contracts=c, roots=roots, adts=ADTS + ['acontext::AContextInner', 'acontext::AContext'], specs=[*SPECS, world()], broadcast=['sq_ext', 'ax_cast_same', 'ax_world', 'ax_owned', 'b_step', 'b_set'])
ASSUME, TRUSTED = ASSUME_W, TRUST_W
