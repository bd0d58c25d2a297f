from tapes import *

def spec():
    c = {}; roots = []
    def C(p, **k):
        c[p] = k; roots.append(p)
    c['operation::Operation::zero_order'] = dict(private=True, requires=['op_wf($a0, $a1@.len() as int)'], ensures=[('step', '$a1p@ == stepv($a0, $a1@)')])
    C(TAPE + 'num_indeps', ensures=[('dimension', '$r == $a0.indeps@.len()')])
    C(TAPE + 'num_deps', ensures=[('dimension', '$r == $a0.deps@.len()')])
    C(TAPE + 'num_abs', ensures=[('count', '$r == cnt_abs($a0.ops@, $a0.ops@.len() as int)')])
    C(TAPE + 'x', requires=['t_wf($a0)'], ensures=[('point', '$r@ == pick($a0.vals@, $a0.indeps@)')])
    C(TAPE + 'y', requires=['t_wf($a0)'], ensures=[('result', '$r@ == pick($a0.vals@, $a0.deps@)')])
    C(TAPE + 'zero_order', requires=['t_wf($a0)', '$a1@.len() == $a0.indeps@.len()'], proof_begin='l_run($a0, $a1@);',
      ensures=[('program', 'is_run($a0, $a1@, $a0p.vals@)'), ('point', 'pick($a0p.vals@, $a0p.indeps@) == $a1@'), ('frame', '$a0p.indeps == $a0.indeps && $a0p.deps == $a0.deps && $a0p.ops == $a0.ops')])
    base = dict(id='C08', mode='exact', adts=ADTS, specs=[P.TAPEV, OPS, TAPE_WF, SCAT, REPLAY], broadcast=['sq_ext'])
    a = dict(base, name='replay', contracts=c, roots=roots, templates=GATHER + COUNT + ZERO)
    ok = '$a1@.len() == $a0.indeps@.len()'
    d = {TAPE + 'zero_order': dict(ensures=[('rejects', ok)], on_write=(0, ok, 'rejects before anything changes'))}
    b = dict(base, name='wrong length', contracts=d, roots=list(d), lenient=True, templates=[], specs=[P.TAPEV, OPS])
    return [a, b]
