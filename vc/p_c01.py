from common import *

def spec():
    c = {}
    roots = []
    def C(path, **k):
        c[path] = k
        if not k.get('private'): roots.append(path)
    C('operation::zero_order_value', private=True, requires=['op_ok($a0, $a2)'], ensures=[('value', '$r == op_val($a0, $a1, $a2)')])
    C('afloat::AFloat::<S>::from_op', private=True, requires=['op_ok($a0, $a2)', '$a2 is Some ==> ctx_ok($a1, $a2->0)'], ensures=[('value', '$r.v == op_val($a0, $a1.v, vo($a2))')])
    for op in ('Add', 'Sub', 'Mul', 'Div'):
        s = f's_{op.lower()}'
        C(aop(op, 'A'), requires=['ctx_ok($a0, $a1)'], ensures=[('value', f'$r.v == {s}($a0.v, $a1.v)')])
        C(aop(op, 'F'), ensures=[('value', f'$r.v == {s}($a0.v, s_cast(Kind::F64, Kind::S, $a1))')])
        C(aop(op, 'L'), ensures=[('value', f'$r.v == {s}(s_cast(Kind::F64, Kind::S, $a0), $a1.v)')])
        C(aassign(op, 'A'), requires=['ctx_ok($a0, $a1)'], ensures=[('value', f'$a0p.v == {s}($a0.v, $a1.v)')])
        C(aassign(op, 'F'), ensures=[('value', f'$a0p.v == {s}($a0.v, s_cast(Kind::F64, Kind::S, $a1))')])
    for u in UN:
        C(fl(u.lower()), ensures=[('value', f'$r.v == s_{u.lower()}($a0.v)')])
    C(fl('powf'), requires=['ctx_ok($a0, $a1)'], ensures=[('value', '$r.v == s_powf($a0.v, $a1.v)')])
    return dict(id='C01', mode='exact', contracts=c, roots=roots, adts=ADTS + ['acontext::AContextInner'], specs=[WORLD_LIGHT, OPS, AFL], templates=[], broadcast=['ax_cast_same', 'sq_ext'])
