"""Function objects: evaluation on plain numbers, tapes, and the objects the macro builds."""
from core import *
from p_c05 import MEAN
from common import *
from translate import R
FT = 'function::Function::'

def world_priv():
    """the world of C05-C07, in which some recordings are declared on by the running function only"""
    s = world(True)
    def rep(a, b):
        nonlocal s
        assert a in s, a
        s = s.replace(a, b)
    rep('/// recordings this thread has written to', '''/// recordings on which nobody but the running function declares independents or dependents
pub uninterp spec fn prv_(w: World) -> Set<Hd>;
pub open spec fn decl(a: AContextInner, b: AContextInner) -> bool { a.indeps@ == b.indeps@ && a.deps@ == b.deps@ }
/// recordings this thread has written to''')
    rep('&&& mlck(a) ==> reg(b) == reg(a)', '&&& mlck(a) ==> reg(b) == reg(a)\n  &&& prv_(b) == prv_(a) && forall|h: Hd| #[trigger] prv_(a).contains(h) ==> decl(rec(a, h), rec(b, h))')
    rep('dead(r) == dead(w), reg(r) == reg(w),\n    touched', 'dead(r) == dead(w), reg(r) == reg(w), prv_(r) == prv_(w),\n    touched')
    rep('ensures step_(w, r), reg(r) == rmap(m)', 'ensures step_(w, r), prv_(r) == prv_(w), reg(r) == rmap(m)')
    rep('reg(r.1) == reg(w), touched(r.1) == touched(w) {', 'reg(r.1) == reg(w), touched(r.1) == touched(w), prv_(r.1) == prv_(w).insert(r.0) {')
    return s

EVAL = '''
// ---- a function written by the user: what it does to numbers, and what it may do to recordings (C05, C06, C07)
pub uninterp spec fn f_n(f: FuncV) -> nat;
pub uninterp spec fn f_m(f: FuncV) -> nat;
pub uninterp spec fn f_val(f: FuncV, x: Seq<Fl>) -> Seq<Fl>;
pub open spec fn a_val(x: Seq<AFloat>) -> Seq<Fl> { Seq::new(x.len(), |k: int| x[k].v) }
pub open spec fn good(w: World, x: AFloat) -> bool { num_ok(w, x) && (x.ctx is Some ==> rcd(w, cidof(x)).vals@[vidof(x)] == x.v) }
pub open spec fn goods(w: World, x: Seq<AFloat>) -> bool { forall|j: int| 0 <= j < x.len() ==> good(w, #[trigger] x[j]) }
pub open spec fn within(x: Seq<AFloat>, c: usize) -> bool { forall|j: int| 0 <= j < x.len() ==> ((#[trigger] x[j]).ctx is Some ==> cidof(x[j]) == c) }
pub open spec fn kept(a: World, b: World) -> bool { prv_(b) == prv_(a) && forall|h: Hd| #[trigger] prv_(a).contains(h) ==> decl(rec(a, h), rec(b, h)) }
#[verifier::external_body] pub fn func_n(f: FuncV) -> (r: usize) ensures r == f_n(f) { unimplemented!() }
#[verifier::external_body] pub fn func_m(f: FuncV) -> (r: usize) ensures r == f_m(f) { unimplemented!() }
#[verifier::external_body] pub fn func_eval(w: World, f: FuncV, x: Sq<AFloat>) -> (r: (Sq<AFloat>, World)) requires free(w), x@.len() == f_n(f), goods(w, x@)
  ensures step(w, r.1), kept(w, r.1), r.0@.len() == f_m(f), a_val(r.0@) == f_val(f, a_val(x@)), goods(r.1, r.0@), forall|c: usize| #[trigger] within(x@, c) ==> within(r.0@, c) { unimplemented!() }
'''
TAPE_P = '''
pub open spec fn mine(w: World, c: AContext) -> bool { free(w) && ctx_in(w, c) && prv_(w).contains(c.inner) && owned(w).contains(c.inner) }
pub open spec fn ok_at(a: AContextInner, d: usize, v: Fl) -> bool { d < a.vals@.len() && a.vals@[d as int] == v }
pub open spec fn inp(w: World, c: AContext, a: AFloat, j: int, i: int) -> bool { if j < i { a.ctx == Some((rec(w, c.inner).cid, rec(w, c.inner).indeps@[j])) && ok_at(rec(w, c.inner), rec(w, c.inner).indeps@[j], a.v) } else { a.ctx is None } }
/// the first i inputs are declared
#[verifier::opaque] pub open spec fn ind_st(w: World, c: AContext, a: Seq<AFloat>, x: Seq<Fl>, i: int) -> bool { mine(w, c) && a.len() == x.len() && 0 <= i <= x.len() && rec(w, c.inner).indeps@.len() == i && rec(w, c.inner).deps@.len() == 0 && (forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).v == x[j] && inp(w, c, a[j], j, i)) }
/// the recording stands at the point x, the first i results are declared
#[verifier::opaque] pub open spec fn dep_st(w: World, c: AContext, x: Seq<Fl>, y: Seq<Fl>, i: int) -> bool { mine(w, c) && rec(w, c.inner).indeps@.len() == x.len() && rec(w, c.inner).deps@.len() == i && (forall|j: int| 0 <= j < x.len() ==> ok_at(rec(w, c.inner), #[trigger] rec(w, c.inner).indeps@[j], x[j])) && (forall|j: int| 0 <= j < i && j < y.len() ==> ok_at(rec(w, c.inner), #[trigger] rec(w, c.inner).deps@[j], y[j])) }
pub open spec fn fresh_in(x: Seq<Fl>, a: Seq<AFloat>, i: int) -> bool { a.len() == i && i <= x.len() && forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).v == x[j] && a[j].ctx is None }
pub broadcast proof fn b_ind0(w: World, c: AContext, a: Seq<AFloat>, x: Seq<Fl>, i: int) requires mine(w, c), fresh_in(x, a, i), i == x.len(), rec(w, c.inner).indeps@.len() == 0, rec(w, c.inner).deps@.len() == 0 ensures #![trigger mine(w, c), fresh_in(x, a, i)] ind_st(w, c, a, x, 0) { reveal(ind_st); }
pub open spec fn declared(a: World, b: World, c: AContext, p: AFloat, q: AFloat) -> bool { mine(b, c) && step(a, b) && rec(b, c.inner).deps@ == rec(a, c.inner).deps@ && q.v == p.v && q.ctx is Some && rec(b, c.inner).indeps@ == rec(a, c.inner).indeps@.push((q.ctx->0).1) && cidof(q) == rec(b, c.inner).cid && ok_at(rec(b, c.inner), (q.ctx->0).1, q.v) }
pub broadcast proof fn b_ind(w: World, v: World, c: AContext, a: Seq<AFloat>, x: Seq<Fl>, i: int, q: AFloat) requires ind_st(w, c, a, x, i), i < x.len(), declared(w, v, c, a[i], q) ensures #![trigger ind_st(w, c, a, x, i), declared(w, v, c, a[i], q)] ind_st(v, c, a.update(i, q), x, i + 1)
{ reveal(ind_st); let b = a.update(i, q); let r0 = rec(w, c.inner); let r1 = rec(v, c.inner);
  assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).v == x[j] && inp(v, c, b[j], j, i + 1) by { assert(inp(w, c, a[j], j, i)); if j < i { assert(r1.indeps@[j] == r0.indeps@[j]); assert(r1.vals@[r0.indeps@[j] as int] == r0.vals@[r0.indeps@[j] as int]); } } }
pub broadcast proof fn b_goods(w: World, c: AContext, a: Seq<AFloat>, x: Seq<Fl>, i: int) requires #[trigger] ind_st(w, c, a, x, i), i == x.len() ensures goods(w, a), within(a, rec(w, c.inner).cid), a_val(a) == x, a.len() == x.len(), mine(w, c), dep_st(w, c, x, Seq::empty(), 0)
{ reveal(ind_st); reveal(dep_st); assert(a_val(a) =~= x); assert forall|j: int| 0 <= j < a.len() implies good(w, #[trigger] a[j]) by { assert(inp(w, c, a[j], j, i)); }
  assert forall|j: int| 0 <= j < a.len() implies ((#[trigger] a[j]).ctx is Some ==> cidof(a[j]) == rec(w, c.inner).cid) by { assert(inp(w, c, a[j], j, i)); }
  assert forall|j: int| 0 <= j < x.len() implies ok_at(rec(w, c.inner), #[trigger] rec(w, c.inner).indeps@[j], x[j]) by { assert(inp(w, c, a[j], j, i)); } }
pub broadcast proof fn b_mine(w: World, c: AContext, a: Seq<AFloat>, x: Seq<Fl>, i: int) requires #[trigger] ind_st(w, c, a, x, i) ensures mine(w, c), a.len() == x.len() { reveal(ind_st); }
pub broadcast proof fn b_mine2(w: World, c: AContext, x: Seq<Fl>, y: Seq<Fl>, i: int) requires #[trigger] dep_st(w, c, x, y, i) ensures mine(w, c) { reveal(dep_st); }
pub broadcast proof fn b_eval(w: World, v: World, c: AContext, x: Seq<Fl>, f: FuncV) requires dep_st(w, c, x, Seq::empty(), 0), kept(w, v), step(w, v) ensures #![trigger dep_st(w, c, x, Seq::empty(), 0), kept(w, v), f_val(f, x)] dep_st(v, c, x, f_val(f, x), 0)
{ reveal(dep_st); let r0 = rec(w, c.inner); let r1 = rec(v, c.inner); assert(decl(r0, r1)); assert forall|j: int| 0 <= j < x.len() implies ok_at(r1, #[trigger] r1.indeps@[j], x[j]) by { assert(ok_at(r0, r0.indeps@[j], x[j])); assert(r1.vals@[r0.indeps@[j] as int] == r0.vals@[r0.indeps@[j] as int]); } }
pub open spec fn depped(a: World, b: World, c: AContext, v: Fl) -> bool { mine(b, c) && step(a, b) && rec(b, c.inner).indeps@ == rec(a, c.inner).indeps@ && rec(b, c.inner).deps@.len() == rec(a, c.inner).deps@.len() + 1 && prefix(rec(a, c.inner).deps@, rec(b, c.inner).deps@) && ok_at(rec(b, c.inner), rec(b, c.inner).deps@.last(), v) }
pub broadcast proof fn b_dep(w: World, v: World, c: AContext, x: Seq<Fl>, y: Seq<Fl>, i: int, d: Fl) requires dep_st(w, c, x, y, i), 0 <= i < y.len(), depped(w, v, c, d), d == y[i] ensures #![trigger dep_st(w, c, x, y, i), depped(w, v, c, d)] dep_st(v, c, x, y, i + 1)
{ reveal(dep_st); let r0 = rec(w, c.inner); let r1 = rec(v, c.inner);
  assert forall|j: int| 0 <= j < x.len() implies ok_at(r1, #[trigger] r1.indeps@[j], x[j]) by { assert(ok_at(r0, r0.indeps@[j], x[j])); assert(r1.vals@[r0.indeps@[j] as int] == r0.vals@[r0.indeps@[j] as int]); }
  assert forall|j: int| 0 <= j < i + 1 && j < y.len() implies ok_at(r1, #[trigger] r1.deps@[j], y[j]) by { if j < i { assert(ok_at(r0, r0.deps@[j], y[j])); assert(r1.deps@[j] == r0.deps@[j]); assert(r1.vals@[r0.deps@[j] as int] == r0.vals@[r0.deps@[j] as int]); } } }
pub broadcast proof fn b_good(a: World, b: World, x: Seq<AFloat>) requires goods(a, x), step_(a, b) ensures #![trigger goods(a, x), step_(a, b)] goods(b, x)
{ assert forall|j: int| 0 <= j < x.len() implies good(b, #[trigger] x[j]) by { assert(good(a, x[j])); if x[j].ctx is Some { let c = cidof(x[j]); ax_world(a, c); assert(known(a, hof(a)[c])); assert(grows(rec(a, hof(a)[c]), rec(b, hof(a)[c]))); assert(rec(a, hof(a)[c]).vals@[vidof(x[j])] == rec(b, hof(a)[c]).vals@[vidof(x[j])]); } } }
/// the tape has one independent per input and one dependent per output, in order, at that point with that result
pub open spec fn tape_is(t: TapeV, x: Seq<Fl>, y: Seq<Fl>) -> bool { t.indeps@.len() == x.len() && t.deps@.len() == y.len() && (forall|j: int| 0 <= j < x.len() ==> #[trigger] t.indeps@[j] < t.vals@.len() && t.vals@[t.indeps@[j] as int] == x[j]) && (forall|j: int| 0 <= j < y.len() ==> #[trigger] t.deps@[j] < t.vals@.len() && t.vals@[t.deps@[j] as int] == y[j]) }
pub broadcast proof fn b_final(w: World, c: AContext, x: Seq<Fl>, y: Seq<Fl>, i: int, t: TapeV) requires dep_st(w, c, x, y, i), i == y.len(), snap(rec(w, c.inner), t) ensures #![trigger dep_st(w, c, x, y, i), snap(rec(w, c.inner), t)] tape_is(t, x, y)
{ reveal(dep_st); let r = rec(w, c.inner); assert forall|j: int| 0 <= j < x.len() implies #[trigger] t.indeps@[j] < t.vals@.len() && t.vals@[t.indeps@[j] as int] == x[j] by { assert(ok_at(r, r.indeps@[j], x[j])); } assert forall|j: int| 0 <= j < y.len() implies #[trigger] t.deps@[j] < t.vals@.len() && t.vals@[t.deps@[j] as int] == y[j] by { assert(ok_at(r, r.deps@[j], y[j])); } }
/// a trace taken of a recording whose declarations stay put
pub open spec fn snap(a: AContextInner, t: TapeV) -> bool { t.indeps@ == a.indeps@ && t.deps@ == a.deps@ && prefix(a.vals@, t.vals@) }
'''

def tape_part():
    c = {}
    F = 'free($w0)'; MI = 'mine($w0, $a0)'
    K64 = {'kind:S': 'K_f64', 'S': 'Fl'}
    c[CX + 'new'] = dict(requires=[F], ensures=[('private', 'mine($w, $r)'), ('empty', 'rec($w, $r.inner).indeps@.len() == 0 && rec($w, $r.inner).deps@.len() == 0')])
    c[CX + 'set_indep'] = dict(requires=[F, MI], subst=K64, ensures=[('declared', 'declared($w0, $w, $a0, $a1, $a1p)')])
    c[CX + 'set_dep'] = dict(requires=[F, MI, 'good($w0, $a1)', '$a1.ctx is Some ==> cidof($a1) == rec($w0, $a0.inner).cid'], subst=K64, ensures=[('declared', 'depped($w0, $w, $a0, $a1.v)')])
    c[CX + 'tape'] = dict(ret_ty='TapeV', requires=[F, MI], ensures=[('snapshot', 'snap(rec($w0, $a0.inner), $r)'), ('well formed', 't_wf($r)')])
    c['as_tape:acontext::AContextTape'] = dict(ensures=[('view', '$r == (TapeV { indeps: $a0.indeps, deps: $a0.deps, ops: $a0.ops, vals: $a0.vals })')])
    c[FT + 'tape'] = dict(subst={'Self': 'FuncV'}, requires=[F, '$a1@.len() == f_n($a0)'], ensures=[('tape', 'tape_is($r, $a1@, f_val($a0, $a1@))'), ('well formed', 't_wf($r)')],
        templates=[T('fresh_in($a1@, {v}@, {i} as int)', mod={'v': 'Sq<AFloat>'}),
          T('ind_st(w, {c}, {v}@, $a1@, {i} as int)', mod={'v': 'Sq<AFloat>'}, scope={'c': 'AContext'}), T('dep_st(w, {c}, $a1@, f_val($a0, $a1@), {i} as int)', scope={'c': 'AContext'}),
          T('goods(w, {v}@)', scope={'v': 'Sq<AFloat>'}), T('within({v}@, rec(w, {c}.inner).cid)', scope={'v': 'Sq<AFloat>', 'c': 'AContext'})])
    return dict(id='C20', name='tape of a function object', mode='exact', contracts=c, roots=[FT + 'tape'], adts=ADTS + ['acontext::AContextInner', 'acontext::AContext'], specs=[P.FUNCV, *SPECS, world_priv(), EVAL, TAPE_P],
        broadcast=['sq_ext', 'ax_cast_same', 'ax_world', 'ax_owned', 'b_step', 'b_set', 'b_ind0', 'b_ind', 'b_goods', 'b_mine', 'b_mine2', 'b_eval', 'b_dep', 'b_good', 'b_final'], forbid=OVERRIDES)


OVERRIDES = [r' as function::Function>::(tape|eval_float)$']

VALUE = """
// ---- a function written by the user: what it does to plain numbers
pub uninterp spec fn f_n(f: FuncV) -> nat;
pub uninterp spec fn f_m(f: FuncV) -> nat;
pub uninterp spec fn f_val(f: FuncV, x: Seq<Fl>) -> Seq<Fl>;
pub open spec fn a_val(x: Seq<AFloat>) -> Seq<Fl> { Seq::new(x.len(), |k: int| x[k].v) }
pub open spec fn valued(x: Seq<AFloat>, v: Seq<Fl>) -> bool { x.len() == v.len() && forall|k: int| 0 <= k < x.len() ==> (#[trigger] x[k]).v == v[k] }
#[verifier::external_body] pub fn func_n(f: FuncV) -> (r: usize) ensures r == f_n(f) { unimplemented!() }
#[verifier::external_body] pub fn func_m(f: FuncV) -> (r: usize) ensures r == f_m(f) { unimplemented!() }
#[verifier::external_body] pub fn func_eval(w: World, f: FuncV, x: Sq<AFloat>) -> (r: (Sq<AFloat>, World)) requires x@.len() == f_n(f) ensures r.0@.len() == f_m(f), forall|v: Seq<Fl>| #[trigger] valued(x@, v) ==> valued(r.0@, f_val(f, v)) { unimplemented!() }
pub broadcast proof fn b_full<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
"""

def eval_part():
    c = {FT + 'eval_float': dict(subst={'Self': 'FuncV'}, world=True, requires=['$a1@.len() == f_n($a0)'], ensures=[('values', '$r@ == f_val($a0, $a1@)')],
        templates=[T('valued({v}@, $a1@.subrange(0, {i} as int))', mod={'v': 'Sq<AFloat>'}), T('{v}@.len() == {i}', mod={'v': 'Sq<Fl>'}), T('(forall|k: int| 0 <= k < {i} ==> #[trigger] {v}@[k] == {s}@[k].v)', mod={'v': 'Sq<Fl>'}, scope={'s': 'Sq<AFloat>'})])}
    return dict(id='C20', name='evaluation on plain numbers', mode='exact', contracts=c, roots=list(c), adts=['afloat::AFloat', 'acontext::AContextInner'], specs=[P.FUNCV, WORLD_LIGHT, VALUE], broadcast=['sq_ext', 'b_full'], forbid=OVERRIDES)

OBJECT = """
// ---- the closure an object keeps
#[verifier::external_body] #[derive(Clone, Copy)] pub struct CloV { x: u8 }
pub uninterp spec fn c_call(w: World, f: CloV, x: Seq<AFloat>) -> (Seq<AFloat>, World);
#[verifier::external_body] pub fn clo_call(w: World, f: CloV, x: Sq<AFloat>) -> (r: (Sq<AFloat>, World)) ensures r.0@ == c_call(w, f, x@).0, r.1 == c_call(w, f, x@).1 { unimplemented!() }
"""
SF, SI = 'function::SimpleFunction::<F>::', '<function::SimpleFunction<F> as function::Function>::'

def object_part():
    F = {'F': 'CloV'}
    c = {SF + 'new': dict(subst=F, ensures=[('parts', '$r.n == $a0 && $r.m == $a1 && $r.f == $a2')]),
         SI + 'n': dict(subst=F, ensures=[('inputs', '$r == $a0.n')]), SI + 'm': dict(subst=F, ensures=[('outputs', '$r == $a0.m')]),
         SI + 'eval': dict(subst=F, world=True, ensures=[('function', '$r@ == c_call($w0, $a0.f, $a1@).0 && $w == c_call($w0, $a0.f, $a1@).1')])}
    return dict(id='C20', name='objects built from a closure', mode='exact', contracts=c, roots=list(c), adts=['afloat::AFloat', 'acontext::AContextInner', 'function::SimpleFunction'], adt_params={'function::SimpleFunction': F}, specs=[WORLD_LIGHT, OBJECT], broadcast=['sq_ext'], forbid=OVERRIDES)

# ---- the macro, on instances whose bodies and sizes are opaque (/verif/probe)
BODIES = dict(body='x: Seq<ElT>', body_extra='x: Seq<ElT>, a: Fl, b: usize', body_other='x: Seq<ElT>', list1='u: ElT', list3='u: ElT, v: ElT, w: ElT', list2_extra='u: ElT, v: ElT, a: Fl, b: usize')
PROBE = """
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ElT { x: u8 }
pub uninterp spec fn s_size_in() -> usize;
pub uninterp spec fn s_size_out() -> usize;
pub uninterp spec fn s_choice(x: Seq<ElT>) -> bool;
#[verifier::external_body] pub fn p_size_in() -> (r: usize) ensures r == s_size_in() { unimplemented!() }
#[verifier::external_body] pub fn p_size_out() -> (r: usize) ensures r == s_size_out() { unimplemented!() }
#[verifier::external_body] pub fn p_choice(x: Sq<ElT>) -> (r: bool) ensures r == s_choice(x@) { unimplemented!() }
/// an object, seen through its sizes and what its closure does to one arbitrary input
pub struct Probed { pub n: usize, pub m: usize, pub at: Sq<ElT>, pub out: Sq<ElT> }
""" + ''.join(f"""pub uninterp spec fn s_{n}({ps}) -> Seq<ElT>;
#[verifier::external_body] pub fn p_{n}({ps.replace('x: Seq<', 'x: Sq<')}) -> (r: Sq<ElT>) ensures r@ == s_{n}({', '.join(q.split(':')[0].strip() + ('@' if 'Seq' in q else '') for q in ps.split(', '))}) {{ unimplemented!() }}
""" for n, ps in BODIES.items())

def opaque(name, ty='Sq<ElT>'):
    return dict(call=lambda tr, vs: tr.let(f"p_{name}({', '.join(tr.rv(v).t for v in vs)})", ty))

# name: inputs, outputs, result for the input x and the extra arguments a, b
CASES = dict(
  vector_const=('3', '2', 's_body({x})', False), vector_expr=('4', '6', 's_body({x})', False), vector_call=('s_size_in()', 's_size_out()', 's_body({x})', False),
  vector_extra=('s_size_in()', 's_size_out()', 's_body_extra({x}, {a}, {b})', True), vector_sized=('{b}', '{b} + 1', 's_body_extra({x}, {a}, {b})', True),
  vector_early=('s_size_in()', 's_size_out()', '(if s_choice({x}) {{ s_body_other({x}) }} else {{ s_body({x}) }})', False),
  list_one=('1', 's_size_out()', 's_list1({x}[0])', False), list_three=('3', '5', 's_list3({x}[0], {x}[1], {x}[2])', False),
  list_extra=('2', 's_size_out()', 's_list2_extra({x}[0], {x}[1], {a}, {b})', True))

def macro_part(lenient):
    c = {n: opaque(n) for n in BODIES}
    c['size_in'] = opaque('size_in', 'usize'); c['size_out'] = opaque('size_out', 'usize'); c['choice'] = opaque('choice', 'bool')
    specs = [PROBE]; roots = []
    for k, (n, m, out, extra) in CASES.items():
        here = dict(x='$a0@', a='$a1', b='$a2'); obj = dict(x='$r.at@', a='$a0', b='$a1'); g = dict(x='x', a='a', b='b')
        E = ', a: Fl, b: usize' if extra else ''
        specs.append(f"pub open spec fn in_{k}(x: Seq<ElT>{E}) -> bool {{ x.len() == {n.format(**g)} && {out.format(**g)}.len() == {m.format(**g)} }}\n#[verifier::external_body] pub fn any_{k}({E[2:]}) -> (r: Sq<ElT>) {'' if lenient else f'ensures in_{k}(r@' + (', a, b)' if extra else ')')} {{ unimplemented!() }}\n")
        req = [] if lenient else [f"in_{k}($a0@{', $a1, $a2' if extra else ''})"]
        oreq = []
        if not lenient and '+' in m and extra: req.append('$a2 < usize::MAX'); oreq.append('$a1 < usize::MAX')
        ens = [('value', f'$r@ == {out.format(**here)}')]
        if lenient: ens += [('input size', f'$a0@.len() == {n.format(**here)}'), ('result size', f'$r@.len() == {m.format(**here)}')]
        c[k] = dict(subst={'Scalar': 'ElT'}, requires=req, ensures=ens)
        c['__adv_' + k] = dict(ret_ty='Probed', requires=oreq, ensures=[('sizes', f'$r.n == {n.format(**obj)} && $r.m == {m.format(**obj)}'), ('function', f'$r.out@ == {out.format(**obj)}')], probe_of=k, extra=extra)
        roots += [k, '__adv_' + k]
    def new(tr, vs):
        con = tr.cx.contracts[tr.path]; k = con['probe_of']
        n, m = tr.rv(vs[0]).t, tr.rv(vs[1]).t
        at = tr.let(f"any_{k}({'a0, a1' if con['extra'] else ''})", 'Sq<ElT>')
        out = tr.rv(tr.call_v(vs[2], [at])).t
        return R(f'Probed {{ n: {n}, m: {m}, at: {at.t}, out: {out} }}', 'Probed')
    for p in ('adv::SimpleFunction::<F>::new', 'advantage::SimpleFunction::<F>::new'): c[p] = dict(call=new)
    return dict(id='C20', name='the function macro ' + ('rejects wrong sizes' if lenient else 'accepts right sizes'), mode='exact', crate='probe', lenient=lenient, contracts=c, roots=roots, specs=specs, broadcast=['sq_ext'])

def spec(): return [tape_part(), eval_part(), object_part(), macro_part(False), macro_part(True)]
ASSUME, TRUSTED = ASSUME_W, TRUST_W
