"""What a recording says about the numbers that belong to it: v ranges over everything the recorded program can compute."""
from core import *
from p_c03 import AX
from p_c02 import spec as c02

BC = ['sq_ext', 'ax_cast_same', 'ax_world', 'ax_owned', 'b_step', 'b_set', 'b_mono', 'b_push', 'b_at', 'b_op', 'b_slot']
ALLV = 'forall|v: Seq<Fl>| #[trigger] is_assign(rcd($w, {c}), v) ==> '
MEAN = '''
pub open spec fn inrec(w: World, x: AFloat, c: usize) -> bool { x.ctx is Some && cidof(x) == c }
/// the recording of the operands is alive for the whole call
pub open spec fn on(w: World, a: AFloat, b: AFloat) -> bool { (a.ctx is Some || b.ctx is Some) && live(w, a) && live(w, b) }
pub open spec fn cid2(a: AFloat, b: AFloat) -> usize { if a.ctx is Some { cidof(a) } else { cidof(b) } }
pub open spec fn on3(w: World, a: AFloat, b: AFloat, c: AFloat) -> bool { (a.ctx is Some || b.ctx is Some || c.ctx is Some) && live(w, a) && live(w, b) && live(w, c) }
pub open spec fn cid3(a: AFloat, b: AFloat, c: AFloat) -> usize { if a.ctx is Some { cidof(a) } else { cid2(b, c) } }
pub open spec fn cst(x: Fl) -> AFloat { AFloat { v: x, dv: x, ctx: None } }
pub open spec fn opt2(b: Option<AFloat>) -> AFloat { match b { Some(x) => x, None => cst(s_lit_0_1()) } }
/// x was declared dependent: at a new position, the slot there has the value of x in every run
/// x was declared dependent: at a new position, the slot there has the value of x in every run
pub open spec fn slot_is(a: AContextInner, x: AFloat, d: usize) -> bool { forall|v: Seq<Fl>| #[trigger] is_assign(a, v) ==> v[d as int] == rep(v, x) }
pub open spec fn dep_of(a: World, b: World, c: AContext, x: AFloat) -> bool { exists|j: int, d: usize| rec(a, c.inner).deps@.len() <= j && #[trigger] at(rec(b, c.inner).deps@, j, d) && slot_is(rec(b, c.inner), x, d) }
pub broadcast proof fn b_slot(a: AContextInner, b: AContextInner, x: AFloat, d: usize) requires #[trigger] slot_is(a, x, d), #[trigger] grows(a, b) ensures slot_is(b, x, d) { assert forall|v: Seq<Fl>| #[trigger] is_assign(b, v) implies v[d as int] == rep(v, x) by { b_mono(a, b, v); } }
pub open spec fn dep_before(w: World, c: AContext, x: AFloat, y: AFloat) -> bool { exists|i: int, j: int, d: usize, e: usize| i < j && #[trigger] at(rec(w, c.inner).deps@, i, d) && #[trigger] at(rec(w, c.inner).deps@, j, e) && slot_is(rec(w, c.inner), x, d) && slot_is(rec(w, c.inner), y, e) }
/// replaying the recording, or a trace taken from it, at x gives one of these assignments, with the independents at x
pub open spec fn view(a: AContextInner) -> TapeV { TapeV { indeps: a.indeps, deps: a.deps, vals: a.vals, ops: a.ops } }
pub proof fn l_replay(a: AContextInner, x: Seq<Fl>, v: Seq<Fl>) requires r_wf(a), is_run(view(a), x, v) ensures is_assign(a, v), forall|j: int| 0 <= j < a.indeps@.len() ==> v[#[trigger] a.indeps@[j] as int] == x[j]
{ let t = view(a);
  assert forall|k: int| 0 <= k < a.ops@.len() implies #[trigger] op_at(a, v, k) by { let o = a.ops@[k]; assert(t.ops@[k] == o); assert(holds(t.ops@[k], v));
    if o.opcode == OpCode::Const { assert(o_wf(o)); assert(o.vid < a.vals@.len());
      assert(!is_indep(t, o.vid as int)) by { if is_indep(t, o.vid as int) { let j = choose|j: int| 0 <= j < t.indeps@.len() && #[trigger] t.indeps@[j] == o.vid as int; assert(a.indeps@[j] != a.ops@[k].vid); } }
      assert forall|l: int| 0 <= l < t.ops@.len() && calc(#[trigger] t.ops@[l]) implies t.ops@[l].vid != o.vid by { assert(a.ops@[l].vid < a.vals@.len()); if l < k { assert(a.ops@[l].vid < a.ops@[k].vid); } else if k < l { assert(a.ops@[k].vid < a.ops@[l].vid); } }
      assert(v[o.vid as int] == t.vals@[o.vid as int]); } }
  assert forall|j: int| 0 <= j < a.indeps@.len() implies v[#[trigger] a.indeps@[j] as int] == x[j] by { assert(v[t.indeps@[j] as int] == x[j]); } }
pub open spec fn new_in(w: World, c: AContext, x: AFloat, v: Fl) -> bool { x.v == v && inrec(w, x, rec(w, c.inner).cid) && num_ok(w, x) && num_st(w, x) && exists|j: int| #[trigger] at(rec(w, c.inner).indeps@, j, (x.ctx->0).1) }
pub open spec fn before(w: World, c: AContext, x: AFloat, y: AFloat) -> bool { exists|i: int, j: int| i < j && #[trigger] at(rec(w, c.inner).indeps@, i, (x.ctx->0).1) && #[trigger] at(rec(w, c.inner).indeps@, j, (y.ctx->0).1) }
'''

def base(contracts, roots, **k):
    return dict(id='C05', mode='exact', adts=ADTS + ['acontext::AContextInner', 'acontext::AContext'], specs=[*SPECS, world(False), MEAN], broadcast=BC, contracts=contracts, roots=roots, **k)

def spec(): return [main(), derived()]

ctx = 'ctx_in($w0, $a0)'
HC = 'rec($w0, $a0.inner).cid'

def elementary(exact=True):
    c = {}; roots = []
    def C(p, req=(), ens=(), root=True, **k):
        c[p] = dict(requires=['free($w0)'] + list(req), ensures=[('state', 'step($w0, $w)')] + list(ens), **k)
        if root: roots.append(p)
    C(CX + 'from_cid', ens=[('handle', '$r is Some ==> hof($w).contains_key($a0) && hof($w)[$a0] == ($r->0).inner'), ('resolves', 'hof($w0).contains_key($a0) && owned($w0).contains(hof($w0)[$a0]) ==> $r is Some')])
    C(CX + 'record', [ctx], [('slot', '$r < rec($w, $a0.inner).vals@.len() && $r >= rec($w0, $a0.inner).vals@.len()'), ('value', 'rec($w, $a0.inner).vals@[$r as int] == f64of($a2)'),
       ('appended', 'exists|j: int| rec($w0, $a0.inner).ops@.len() <= j && #[trigger] at(rec($w, $a0.inner).ops@, j, Operation { opcode: $a1, vid: $r, arg1: $a3, arg2: $a4 })')])
    C('operation::zero_order_value', private=True); c['operation::zero_order_value'] = dict(requires=['op_ok($a0, $a2)'], ensures=[('value', '$r == op_val($a0, $a1, $a2)')]); roots.remove('operation::zero_order_value')
    def M(c_, on, val, r='$r', a='', stored=True):
        return [('slot', f'num_ok($w, {r})'), ('recorded', f'{on} ==> {r}.ctx is Some && cidof({r}) == {c_}'),
                ('meaning', f'{on} ==> (forall|v: Seq<Fl>| #[trigger] is_assign(rcd($w, {c_}), v) ==> rep(v, {r}) == {val})')] + ([('value', f'{on} ==> num_st($w, {r})')] if stored else [])
    C('afloat::AFloat::<S>::from_op', ['op_ok($a0, $a2)', '$a2 is Some ==> ctx_ok($a1, $a2->0)', 'num_ok($w0, $a1)', 'numo($w0, $a2)'],
      [('plain value', '$r.v == op_val($a0, $a1.v, vo($a2))'), ('membership', 'ctxo($r, $a1, $a2)')] + M('cid2($a1, opt2($a2))', 'on($w0, $a1, opt2($a2))', 'op_val($a0, rep(v, $a1), repo(v, $a2))'))
    n = ['num_ok($w0, $a0)']; nn = n + ['num_ok($w0, $a1)', 'ctx_ok($a0, $a1)']
    for op in ('Add', 'Sub', 'Mul', 'Div'):
        f = f's_{op.lower()}'
        fl64 = lambda a: f'f64of(s_cast(Kind::F64, Kind::S, {a}))'
        for r, a0, k1, k2 in (('$r', '$a0', aop(op, 'A'), aop(op, 'F')), ('$a0p', '$a0', aassign(op, 'A'), aassign(op, 'F'))):
            C(k1, nn, [('plain value', f'{r}.v == {f}($a0.v, $a1.v)'), ('membership', f'ctx2({r}, $a0, $a1)')] + M('cid2($a0, $a1)', 'on($w0, $a0, $a1)', f'{f}(rep(v, $a0), rep(v, $a1))', r))
            C(k2, n, [('plain value', f'{r}.v == {f}($a0.v, s_cast(Kind::F64, Kind::S, $a1))'), ('membership', f'ctx1({r}, $a0)')] + M('cidof($a0)', 'on($w0, $a0, $a0)', f'{f}(rep(v, $a0), {fl64("$a1")})', r))
        C(aop(op, 'L'), ['num_ok($w0, $a1)'], [('plain value', f'$r.v == {f}(s_cast(Kind::F64, Kind::S, $a0), $a1.v)'), ('membership', 'ctx1($r, $a1)')] + M('cidof($a1)', 'on($w0, $a1, $a1)', f'{f}({fl64("$a0")}, rep(v, $a1))'))
    for u in UN: C(fl(u.lower()), n, [('plain value', f'$r.v == s_{u.lower()}($a0.v)'), ('membership', 'ctx1($r, $a0)')] + M('cidof($a0)', 'on($w0, $a0, $a0)', f's_{u.lower()}(rep(v, $a0))'))
    C(fl('powf'), nn, [('plain value', '$r.v == s_powf($a0.v, $a1.v)'), ('membership', 'ctx2($r, $a0, $a1)')] + M('cid2($a0, $a1)', 'on($w0, $a0, $a1)', 's_powf(rep(v, $a0), rep(v, $a1))'))
    return c, roots, C, M, n, nn

def main():
    c, roots, C, M, n, nn = elementary()
    REC, REC0 = 'rec($w, $a0.inner)', 'rec($w0, $a0.inner)'
    IND = lambda r, w='$w': f'{r}.ctx is Some && cidof({r}) == {HC} && num_ok({w}, {r}) && num_st({w}, {r})'
    POS = lambda r: f'(exists|j: int| {REC0}.indeps@.len() <= j && #[trigger] at({REC}.indeps@, j, ({r}.ctx->0).1)) && vidof({r}) >= {REC0}.vals@.len()'
    C(CX + 'set_indep', [ctx], [('slot', IND('$a1p')), ('declared', POS('$a1p')), ('same number', '$a1p.v == $a1.v && $a1p.dv == $a1.dv')])
    C(CX + 'new_indep', [ctx], [('slot', IND('$r')), ('declared', POS('$r')), ('value', '$r.v == $a1')])
    DEP = lambda x: f'(exists|j: int| {REC0}.deps@.len() <= j < {REC}.deps@.len() && (forall|v: Seq<Fl>| #[trigger] is_assign({REC}, v) ==> v[#[trigger] {REC}.deps@[j] as int] == rep(v, {x})))'
    C(CX + 'set_dep', [ctx, 'num_ok($w0, $a1)', f'$a1.ctx is Some ==> cidof($a1) == {HC}'], [('declared', 'dep_of($w0, $w, $a0, $a1)')])
    loop = [T('step(w0, w)'), T('free(w)'), T(ctx.replace('$w0', 'w'))]
    C(CX + 'new_indep_vec', [ctx], [('length', '$r@.len() == $a1'), ('slots', 'forall|j: int| 0 <= j < $a1 ==> new_in($w, $a0, #[trigger] $r@[j], $a2)'), ('order', 'forall|i: int, j: int| 0 <= i < j < $a1 ==> before($w, $a0, #[trigger] $r@[i], #[trigger] $r@[j])')],
      templates=loop + [T('(forall|j: int| 0 <= j < {i} ==> new_in(w, $a0, #[trigger] {v}@[j], $a2))', mod={'v': 'Sq<AFloat>'}), T('(forall|j: int| 0 <= j < {v}@.len() ==> (#[trigger] {v}@[j]).v == $a2)', mod={'v': 'Sq<AFloat>'}),
        T('(forall|i: int, j: int| 0 <= i < j < {i} ==> before(w, $a0, #[trigger] {v}@[i], #[trigger] {v}@[j]))', mod={'v': 'Sq<AFloat>'})])
    SL = lambda n, w: f'(forall|j: int| 0 <= j < {n} ==> dep_of($w0, {w}, $a0, #[trigger] $a1@[j]))'
    SO = lambda n, w: f'(forall|i: int, j: int| 0 <= i < j < {n} ==> dep_before({w}, $a0, #[trigger] $a1@[i], #[trigger] $a1@[j]))'
    C(CX + 'set_dep_slice', [ctx, 'forall|j: int| 0 <= j < $a1@.len() ==> num_ok($w0, #[trigger] $a1@[j])', f'forall|j: int| 0 <= j < $a1@.len() ==> ((#[trigger] $a1@[j]).ctx is Some ==> cidof($a1@[j]) == {HC})'],
      [('declared', SL('$a1@.len()', '$w')), ('order', SO('$a1@.len()', '$w'))], templates=loop + [T(SL('{i}', 'w')), T(SO('{i}', 'w'))])
    return base(c, roots, name='elementary operations')

RAX = """
pub broadcast proof fn b_powi(x: real, n: int) requires x != 0real || n >= 0 ensures #[trigger] r_powi(x, n) == r_pow(x, n as real), is_int(n as real) { ax_pow_int(x, n); assert(rint(n) == n as real); }
pub broadcast proof fn b_square(x: real, y: real) requires y == 2real ensures #[trigger] r_pow(x, y) == x * x, is_int(y), x * x >= 0real { l_sq_pos(x); ax_pow_int(x, 2); lemma_powi2(x); assert(rint(2) == 2real); }
"""

def derived():
    c, _, C, M, n, nn = elementary()
    roots = []
    def D(m, val, dom='true', two=False, path=None, r='$r', args=None):
        p = path or fl(m)
        as_ = args or (['$a0', '$a1'] if two else ['$a0'])
        cid, on = ('cid2($a0, $a1)', 'on($w0, $a0, $a1)') if two else ('cidof($a0)', 'on($w0, $a0, $a0)')
        f = lambda t: t.replace('X', 'rep(v, $a0).v').replace('Y', 'rep(v, $a1).v').replace('Z', 'rep(v, $a2).v')
        ok = ' && '.join(f'rep(v, {a}).ok' for a in as_)
        C(p, nn if two else n, [('membership', 'ctx2($r, $a0, $a1)' if two else 'ctx1($r, $a0)'), ('slot', f'num_ok($w, {r})'), ('recorded', f'{on} ==> {r}.ctx is Some && cidof({r}) == {cid}'),
            ('meaning', f'{on} ==> (forall|v: Seq<Fl>| #[trigger] is_assign(rcd($w, {cid}), v) && {ok} && {f(dom)} ==> is_v(rep(v, {r}), {f(val)}))'), ('value', f'{on} ==> num_st($w, {r})')], root=False)
        roots.append(p)
        return c[p]
    D('neg', '-X', path=AF + 'std::ops::Neg>::neg')
    D('recip', '1real / X', 'X != 0real')
    D('powi', 'r_powi(X, $a1 as int)', '($a1 == 0 || $a1 >= 1 || X != 0real)')
    c[fl('powi')]['ensures'].append(('square', 'on($w0, $a0, $a0) && $a1 == 2 ==> (forall|v: Seq<Fl>| #[trigger] is_assign(rcd($w, cidof($a0)), v) && rep(v, $a0).ok ==> is_v(rep(v, $r), rep(v, $a0).v * rep(v, $a0).v) && rep(v, $a0).v * rep(v, $a0).v >= 0real)'))
    c[fl('powi')]['ensures'].append(('plain square', '$a1 == 2 && $a0.v.ok ==> is_v($r.v, $a0.v.v * $a0.v.v) && $a0.v.v * $a0.v.v >= 0real'))
    D('sqrt', 'r_sqrt(X)', 'X >= 0real')
    D('exp2', 'r_pow(2real, X)')
    D('log', 'r_ln(X) / r_ln(Y)', 'X > 0real && Y > 0real && Y != 1real', two=True)
    D('log2', 'r_ln(X) / r_ln(2real)', 'X > 0real'); D('log10', 'r_ln(X) / r_ln(10real)', 'X > 0real')
    D('max', 'rmax(X, Y)', two=True); D('min', 'rmin(X, Y)', two=True); D('abs_sub', 'rmax(X - Y, 0real)', two=True)
    D('cbrt', 'r_cbrt(X)', 'X > 0real')
    D('hypot', 'r_sqrt(X * X + Y * Y)', two=True)
    p = fl('mul_add'); C(p, nn + ['num_ok($w0, $a2)', 'ctx_ok($a0, $a2)', 'ctx_ok($a1, $a2)'], [('slot', 'num_ok($w, $r)'), ('recorded', 'on3($w0, $a0, $a1, $a2) ==> $r.ctx is Some && cidof($r) == cid3($a0, $a1, $a2)'),
        ('meaning', 'on3($w0, $a0, $a1, $a2) ==> (forall|v: Seq<Fl>| #[trigger] is_assign(rcd($w, cid3($a0, $a1, $a2)), v) && rep(v, $a0).ok && rep(v, $a1).ok && rep(v, $a2).ok ==> is_v(rep(v, $r), rep(v, $a0).v * rep(v, $a1).v + rep(v, $a2).v))')], root=False); roots.append(p)
    p = fl('sin_cos'); C(p, n, [('slot', 'num_ok($w, $r.0) && num_ok($w, $r.1)'), ('recorded', 'on($w0, $a0, $a0) ==> $r.0.ctx is Some && $r.1.ctx is Some && cidof($r.0) == cidof($a0) && cidof($r.1) == cidof($a0)'),
        ('meaning', 'on($w0, $a0, $a0) ==> (forall|v: Seq<Fl>| #[trigger] is_assign(rcd($w, cidof($a0)), v) && rep(v, $a0).ok ==> is_v(rep(v, $r.0), r_sin(rep(v, $a0).v)) && is_v(rep(v, $r.1), r_cos(rep(v, $a0).v)))')], root=False); roots.append(p)
    b = base(c, roots, name='derived functions')
    k = c02()
    return dict(b, mode='real', specs=[OPS, P.TAPEV, TAPE_WF, REPLAY0, AFL, DERIV, AX, world(False), MEAN, RAX], broadcast=[x for x in BC if x != 'ax_cast_same'] + ['lemma_powi2', 'ax_sqrt_pos', 'ax_pow0', 'ax_pow_half', 'ax_pow_third', 'ax_ln_nz', 'b_powi', 'b_square', 'b_mul'])
ASSUME = ASSUME_W + ['a recording means: every assignment of f64 values to its slots that satisfies its operations and constants; replay produces the one for the given independents (l_replay, with C08)']
TRUSTED = TRUST_W
