"""C21: the C++ classes over the FFI, and the FFI over the core."""
import os, json, subprocess, random, re
import cxx

MODEL = '''
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ptr { x: usize }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct World { x: usize }
#[verifier::external_body] pub struct CV { x: usize }   // a number of the core library
#[verifier::external_body] pub struct CX { x: usize }   // a recording of the core library
pub enum Ev { Op1(int, CV), Op2(int, CV, CV), NewCtx, Indep(CX), Dep(CX, CV) }
/// what the core library returns is a function of the operations it has been asked for
pub uninterp spec fn out(t: Seq<Ev>) -> CV; pub uninterp spec fn cxout(t: Seq<Ev>) -> CX; pub uninterp spec fn cv_zero() -> CV; pub uninterp spec fn cv_of(x: Fl) -> CV;
pub uninterp spec fn nullp() -> Ptr;
/// ad/ac: storage of class objects in their lifetime, to m_impl; ai/ci: live Impl; num/cx: live objects of the core
pub struct St { pub slots: Set<Ptr>, pub tr: Seq<Ev>,
  pub ad: Map<Ptr, Ptr>, pub ai: Map<Ptr, Option<Ptr>>, pub num: Map<Ptr, CV>, pub n_ad: int, pub n_ai: int, pub n_av: int, pub n_num: int,
  pub ac: Map<Ptr, Ptr>, pub ci: Map<Ptr, Option<Ptr>>, pub cx: Map<Ptr, CX>, pub n_ac: int, pub n_ci: int, pub n_cv: int, pub n_cx: int }
pub uninterp spec fn st(w: World) -> St;
pub open spec fn nn(m: Map<Ptr, Ptr>, p: Ptr) -> int { if m.contains_key(p) && m[p] != nullp() { 1 } else { 0 } }
pub open spec fn nv(m: Map<Ptr, Option<Ptr>>, p: Ptr) -> int { if m.contains_key(p) && m[p] is Some && m[p]->0 != nullp() { 1 } else { 0 } }
pub open spec fn one(p: Ptr) -> int { if p != nullp() { 1 } else { 0 } }
#[verifier::external_body] pub fn null() -> (r: Ptr) ensures r == nullp() { unimplemented!() }
#[verifier::external_body] pub fn ptr_eq(a: Ptr, b: Ptr) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body] pub fn any_ptr() -> (r: Ptr) { unimplemented!() }
#[verifier::external_body] pub fn slot(w: World) -> (r: (Ptr, World)) ensures r.0 != nullp(), !st(w).slots.contains(r.0), !st(w).ad.contains_key(r.0), !st(w).ac.contains_key(r.0), st(r.1) == (St { slots: st(w).slots.insert(r.0), ..st(w) }) { unimplemented!() }
'''
def heap(ad, ai, num, cnt):
    nad, nai, nav, nnum = cnt
    return f'''
#[verifier::external_body] pub fn {ad}_get(w: World, p: Ptr) -> (r: Ptr) requires st(w).{ad}.contains_key(p) ensures r == st(w).{ad}[p] {{ unimplemented!() }}
#[verifier::external_body] pub fn {ad}_set(w: World, p: Ptr, v: Ptr) -> (r: World) requires st(w).slots.contains(p) ensures st(r) == (St {{ {ad}: st(w).{ad}.insert(p, v), {nad}: st(w).{nad} - nn(st(w).{ad}, p) + one(v), ..st(w) }}) {{ unimplemented!() }}
#[verifier::external_body] pub fn {ad}_end(w: World, p: Ptr) -> (r: World) requires st(w).{ad}.contains_key(p) ensures st(r) == (St {{ {ad}: st(w).{ad}.remove(p), {nad}: st(w).{nad} - nn(st(w).{ad}, p), ..st(w) }}) {{ unimplemented!() }}
#[verifier::external_body] pub fn {ai}_new(w: World) -> (r: (Ptr, World)) ensures r.0 != nullp(), !st(w).{ai}.contains_key(r.0), st(r.1) == (St {{ {ai}: st(w).{ai}.insert(r.0, None), {nai}: st(w).{nai} + 1, ..st(w) }}) {{ unimplemented!() }}
#[verifier::external_body] pub fn {ai}_get(w: World, p: Ptr) -> (r: Ptr) requires st(w).{ai}.contains_key(p), st(w).{ai}[p] is Some ensures r == st(w).{ai}[p]->0 {{ unimplemented!() }}
#[verifier::external_body] pub fn {ai}_set(w: World, p: Ptr, v: Ptr) -> (r: World) requires st(w).{ai}.contains_key(p) ensures st(r) == (St {{ {ai}: st(w).{ai}.insert(p, Some(v)), {nav}: st(w).{nav} - nv(st(w).{ai}, p) + one(v), ..st(w) }}) {{ unimplemented!() }}
#[verifier::external_body] pub fn {ai}_delete(w: World, p: Ptr) -> (r: World) requires p == nullp() || st(w).{ai}.contains_key(p) ensures st(r) == (if p == nullp() {{ st(w) }} else {{ St {{ {ai}: st(w).{ai}.remove(p), {nai}: st(w).{nai} - 1, {nav}: st(w).{nav} - nv(st(w).{ai}, p), ..st(w) }} }}) {{ unimplemented!() }}
'''
HEAPS = heap('ad', 'ai', 'num', ('n_ad', 'n_ai', 'n_av', 'n_num')) + heap('ac', 'ci', 'cx', ('n_ac', 'n_ci', 'n_cv', 'n_cx'))

OPS2 = ['op_add', 'op_sub', 'op_mul', 'op_div', 'min', 'max']
OPS1 = ['sin', 'cos', 'tan', 'abs', 'exp', 'ln']
CODE = {o: i for i, o in enumerate(OPS2 + OPS1)}

def ffi():
    o = []
    def alloc(name, ps, req, val, ev=None):
        t = f'tr: st(w).tr.push({ev}), ' if ev else ''
        v = val if not ev else f'out(st(w).tr.push({ev}))'
        o.append(f'#[verifier::external_body] pub fn x_adv_{name}(w: World{ps}) -> (r: (Ptr, World)) requires true{"".join(", " + x for x in req)} ensures r.0 != nullp(), !st(w).num.contains_key(r.0), st(r.1) == (St {{ {t}num: st(w).num.insert(r.0, {v}), n_num: st(w).n_num + 1, ..st(w) }}) {{ unimplemented!() }}')
    alloc('adouble_default', '', [], 'cv_zero()')
    alloc('adouble_from_value', ', x: Fl', [], 'cv_of(x)')
    alloc('adouble_copy', ', p: Ptr', ['st(w).num.contains_key(p)'], 'st(w).num[p]')
    for k in OPS2: alloc(k, ', a: Ptr, b: Ptr', ['st(w).num.contains_key(a)', 'st(w).num.contains_key(b)'], None, f'Ev::Op2({CODE[k]}, st(w).num[a], st(w).num[b])')
    for k in OPS1: alloc(k, ', a: Ptr', ['st(w).num.contains_key(a)'], None, f'Ev::Op1({CODE[k]}, st(w).num[a])')
    alloc('acontext_new_independent', ', c: Ptr', ['st(w).cx.contains_key(c)'], None, 'Ev::Indep(st(w).cx[c])')
    o.append('#[verifier::external_body] pub fn x_adv_adouble_free(w: World, p: Ptr) -> (r: World) requires st(w).num.contains_key(p) ensures st(r) == (St { num: st(w).num.remove(p), n_num: st(w).n_num - 1, ..st(w) }) { unimplemented!() }')
    o.append('#[verifier::external_body] pub fn x_adv_acontext_free(w: World, p: Ptr) -> (r: World) requires st(w).cx.contains_key(p) ensures st(r) == (St { cx: st(w).cx.remove(p), n_cx: st(w).n_cx - 1, ..st(w) }) { unimplemented!() }')
    o.append('#[verifier::external_body] pub fn x_adv_acontext_new(w: World) -> (r: (Ptr, World)) ensures r.0 != nullp(), !st(w).cx.contains_key(r.0), st(r.1) == (St { tr: st(w).tr.push(Ev::NewCtx), cx: st(w).cx.insert(r.0, cxout(st(w).tr.push(Ev::NewCtx))), n_cx: st(w).n_cx + 1, ..st(w) }) { unimplemented!() }')
    o.append('#[verifier::external_body] pub fn x_adv_acontext_set_dependent(w: World, c: Ptr, p: Ptr) -> (r: World) requires st(w).cx.contains_key(c), st(w).num.contains_key(p) ensures st(r) == (St { tr: st(w).tr.push(Ev::Dep(st(w).cx[c], st(w).num[p])), ..st(w) }) { unimplemented!() }')
    return '\n'.join(o)

DEFS = '''
pub open spec fn va(s: St, o: Ptr) -> Ptr { s.ai[s.ad[o]]->0 }
pub open spec fn sv(s: St, o: Ptr) -> CV { s.num[va(s, o)] }
pub open spec fn live(s: St, o: Ptr) -> bool { s.ad.contains_key(o) }
pub open spec fn vc_(s: St, o: Ptr) -> Ptr { s.ci[s.ac[o]]->0 }
pub open spec fn cxv(s: St, o: Ptr) -> CX { s.cx[vc_(s, o)] }
pub open spec fn has(s: St, o: Ptr) -> bool { s.ac.contains_key(o) && s.ac[o] != nullp() }
pub open spec fn iw(s: St) -> bool { forall|o: Ptr| #[trigger] s.ad.contains_key(o) ==> o != nullp() && s.slots.contains(o) && s.ad[o] != nullp() && s.ai.contains_key(s.ad[o]) && s.ai[s.ad[o]] is Some && va(s, o) != nullp() && s.num.contains_key(va(s, o)) }
pub open spec fn ij(s: St) -> bool { forall|o: Ptr, q: Ptr| #![trigger s.ad.contains_key(o), s.ad.contains_key(q)] s.ad.contains_key(o) && s.ad.contains_key(q) && o != q ==> s.ad[o] != s.ad[q] && va(s, o) != va(s, q) }
pub open spec fn cw(s: St) -> bool { forall|o: Ptr| #[trigger] s.ac.contains_key(o) ==> o != nullp() && s.slots.contains(o) && (s.ac[o] != nullp() ==> s.ci.contains_key(s.ac[o]) && s.ci[s.ac[o]] is Some && vc_(s, o) != nullp() && s.cx.contains_key(vc_(s, o))) }
pub open spec fn cj(s: St) -> bool { forall|o: Ptr, q: Ptr| #![trigger s.ac.contains_key(o), s.ac.contains_key(q)] s.ac.contains_key(o) && s.ac.contains_key(q) && s.ac[o] != nullp() && s.ac[q] != nullp() && o != q ==> s.ac[o] != s.ac[q] && vc_(s, o) != vc_(s, q) }
/// every class object owns its Impl and core object, and no two share one
pub open spec fn inv(s: St) -> bool { iw(s) && ij(s) && cw(s) && cj(s) }
/// nothing is lost: what is allocated and not reachable from a class object stays as it was
pub open spec fn bal(a: St, b: St) -> bool { b.n_ai - b.n_ad == a.n_ai - a.n_ad && b.n_num - b.n_av == a.n_num - a.n_av && b.n_ci - b.n_ac == a.n_ci - a.n_ac && b.n_cx - b.n_cv == a.n_cx - a.n_cv }
/// numbers other than x and y stay as they were
pub open spec fn fr(a: St, b: St, x: Ptr, y: Ptr) -> bool { (forall|o: Ptr| a.slots.contains(o) ==> #[trigger] b.slots.contains(o)) && (forall|o: Ptr| #![trigger a.ad.contains_key(o)] #![trigger b.ad.contains_key(o)] o != x && o != y ==> live(a, o) == live(b, o) && (live(a, o) ==> sv(b, o) == sv(a, o))) }
/// recordings other than x and y stay as they were
pub open spec fn cf(a: St, b: St, x: Ptr, y: Ptr) -> bool { forall|o: Ptr| #![trigger a.ac.contains_key(o)] #![trigger b.ac.contains_key(o)] o != x && o != y ==> a.ac.contains_key(o) == b.ac.contains_key(o) && has(a, o) == has(b, o) && (has(a, o) ==> cxv(b, o) == cxv(a, o)) }
'''

def contracts():
    C = {}
    S, R = 'st(w0)', 'st($w)'
    def c(key, req, ens, x='nullp()', y='nullp()', cx='nullp()', cy='nullp()'):
        C[key] = dict(requires=[f'inv({S})'] + req,
                      ensures=[('ownership', f'inv({R})'), ('exactly one release', f'bal({S}, {R})'), ('other objects', f'fr({S}, {R}, {x}, {y})'), ('other recordings', f'cf({S}, {R}, {cx}, {cy})')] + ens)
    quiet = ('no core operation', f'{R}.tr == {S}.tr')
    newat = ['a0 != nullp()', f'{S}.slots.contains(a0)', f'!live({S}, a0)']
    c('ADouble::~ADouble()', [f'live({S}, a0)'], [('destroyed', f'!live({R}, a0)'), quiet], 'a0')
    def val(e, o='a0'): return ('value', f'live({R}, {o}) && sv({R}, {o}) == {e}')
    c('ADouble::ADouble()', newat, [val('cv_zero()'), quiet], 'a0')
    c('ADouble::ADouble(double)', newat, [val('cv_of(a1)'), quiet], 'a0')
    c('ADouble::ADouble(const ADouble &)', newat + [f'live({S}, a1)'], [val(f'sv({S}, a1)'), quiet], 'a0')
    c('ADouble::ADouble(ADouble &&)', newat + [f'live({S}, a1)'], [val(f'sv({S}, a1)'), ('source stays valid', f'live({R}, a1)'), quiet], 'a0', 'a1')
    both = [f'live({S}, a0)', f'live({S}, a1)']
    c('ADouble::operator=(const ADouble &)', both, [val(f'sv({S}, a1)'), ('returns itself', '$r == a0'), quiet], 'a0')
    c('ADouble::operator=(ADouble &&)', both, [('value', f'live({R}, a0) && (a0 != a1 ==> sv({R}, a0) == sv({S}, a1))'), ('source stays valid', f'live({R}, a1)'), ('returns itself', '$r == a0'), quiet], 'a0', 'a1')
    def res(ev): return [('result', f'!live({S}, $r) && live({R}, $r)'), ('the operation', f'{R}.tr == {S}.tr.push({ev})'), ('value', f'sv({R}, $r) == out({S}.tr.push({ev}))')]
    for op, t in (('op_add', '+'), ('op_sub', '-'), ('op_mul', '*'), ('op_div', '/')):
        c(f'ADouble::operator{t}(const ADouble &)', both, res(f'Ev::Op2({CODE[op]}, sv({S}, a0), sv({S}, a1))'), '$r')
        c(f'operator{t}(double, const ADouble &)', [f'live({S}, a1)'], res(f'Ev::Op2({CODE[op]}, cv_of(a0), sv({S}, a1))'), '$r')
    for op in ('min', 'max'):
        c(f'{op}(const ADouble &, const ADouble &)', both, res(f'Ev::Op2({CODE[op]}, sv({S}, a0), sv({S}, a1))'), '$r')
    for op in OPS1:
        c(f'{op}(const ADouble &)', [f'live({S}, a0)'], res(f'Ev::Op1({CODE[op]}, sv({S}, a0))'), '$r')
    # recordings
    cnew = ['a0 != nullp()', f'{S}.slots.contains(a0)', f'!{S}.ac.contains_key(a0)']
    c('AContext::~AContext()', [f'{S}.ac.contains_key(a0)'], [('destroyed', f'!{R}.ac.contains_key(a0)'), quiet], cx='a0')
    c('AContext::AContext()', cnew, [('value', f'has({R}, a0) && cxv({R}, a0) == cxout({S}.tr.push(Ev::NewCtx))'), ('the operation', f'{R}.tr == {S}.tr.push(Ev::NewCtx)')], cx='a0')
    mq = ('no core operation', f'{R}.tr == {S}.tr || {R}.tr == {S}.tr.push(Ev::NewCtx)')
    c('AContext::AContext(AContext &&)', cnew + [f'{S}.ac.contains_key(a1)'], [('value', f'{R}.ac.contains_key(a0) && (has({S}, a1) ==> has({R}, a0) && cxv({R}, a0) == cxv({S}, a1))'), ('source stays valid', f'{R}.ac.contains_key(a1)'), mq], cx='a0', cy='a1')
    c('AContext::operator=(AContext &&)', [f'{S}.ac.contains_key(a0)', f'{S}.ac.contains_key(a1)'], [('value', f'{R}.ac.contains_key(a0) && (a0 != a1 && has({S}, a1) ==> has({R}, a0) && cxv({R}, a0) == cxv({S}, a1))'), ('source stays valid', f'{R}.ac.contains_key(a1)'), ('returns itself', '$r == a0'), mq], cx='a0', cy='a1')
    c('AContext::new_independent()', [f'has({S}, a0)'], res(f'Ev::Indep(cxv({S}, a0))'), '$r')
    c('AContext::set_dependent(const ADouble &)', [f'has({S}, a0)', f'live({S}, a1)'], [('the operation', f'{R}.tr == {S}.tr.push(Ev::Dep(cxv({S}, a0), sv({S}, a1)))')])
    return C
OPTIONAL = ()

def cxx_spec():
    C = contracts()
    return dict(id='C21', name='C++ classes', mode='exact', contracts=C, roots=list(C), cxx=True, crate='cxx', specs=[MODEL + HEAPS + ffi() + DEFS], parts=())


# ------------------------------------------------------------------ the FFI over the core library
from common import *
from translate import R as RV
FFI_W = '''
#[verifier::external_body] #[derive(Clone, Copy)] pub struct World { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Hd { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Core { x: u8 }
/// boxes handed out and not taken back; everything else about the library
pub uninterp spec fn bx(w: World) -> int; pub uninterp spec fn co(w: World) -> Core;
#[verifier::external_body] pub fn box_leak<A>(w: World, v: A) -> (r: (A, World)) ensures r.0 == v, bx(r.1) == bx(w) + 1, co(r.1) == co(w) { unimplemented!() }
#[verifier::external_body] pub fn box_own<A>(w: World, v: A) -> (r: (A, World)) ensures r.0 == v, bx(r.1) == bx(w) - 1, co(r.1) == co(w) { unimplemented!() }
'''
def box(name):
    def hook(tr, vs):
        v = tr.rv(tr.flat(vs[0])); n = tr.tmp()
        tr.emit(f'let {n} = {name}(w, {v.t}); w = {n}.1;'); tr.mark_mod('w')
        return tr.let(f'{n}.0', v.ty)
    return dict(call=hook)

def ffi_spec():
    C = {}; sp = []
    def core(path, name, tys, ret=None, req=()):
        """an operation of the core library: a function of its operands and of the state of the library"""
        ps = ', '.join(['w: Core'] + [f'a{i}: {t}' for i, t in enumerate(tys)])
        args = ', '.join(['co($w0)'] + [f'$a{i}' for i in range(len(tys))])
        ens = [('boxes', 'bx($w) == bx($w0)'), ('state', f'co($w) == w_{name}({args})')]
        sp.append(f'pub uninterp spec fn w_{name}({ps}) -> Core;')
        if ret: sp.append(f'pub uninterp spec fn v_{name}({ps}) -> {ret};'); ens.append(('value', f'$r == v_{name}({args})'))
        C[path] = dict(elsewhere='C01 to C07', world=True, requires=list(req), ensures=ens)
    roots = []
    def adv(name, val, d, state=None, out='$r', args=''):
        e = [('boxes', f'bx($w) == bx($w0) + {d}'), ('the operation', 'co($w) == ' + (f'w_{state}(co($w0){args})' if state else 'co($w0)'))]
        if val: e.append(('value', f'{out} == {val}'))
        elif state: e.append(('value', f'{out} == v_{state}(co($w0){args})'))
        C['ffi::adv_' + name] = dict(world=True, ensures=e); roots.append('ffi::adv_' + name)
    A2, A1 = ', $a0, $a1', ', $a0'
    for op, n in (('Add', 'op_add'), ('Sub', 'op_sub'), ('Mul', 'op_mul'), ('Div', 'op_div')):
        core(aop(op, 'A'), n, ['AFloat'] * 2, 'AFloat'); adv(n, None, 1, n, '$a2p', A2)
    for n in ('min', 'max'): core(fl(n), n, ['AFloat'] * 2, 'AFloat'); adv(n, None, 1, n, '$a2p', A2)
    for n in OPS1: core(fl(n), n, ['AFloat'], 'AFloat'); adv(n, None, 1, n, '$a1p', A1)
    core('acontext::AContext::new', 'ctx_new', [], 'AContext'); adv('acontext_new', None, 1, 'ctx_new')
    core('acontext::AContext::new_indep', 'indep', ['AContext', 'Fl'], 'AFloat'); adv('acontext_new_independent', None, 1, 'indep', args=', $a0, s_lit_0_1()')
    core('acontext::AContext::set_dep', 'dep', ['AContext', 'AFloat']); C['ffi::adv_acontext_set_dependent'] = dict(world=True, ensures=[('boxes', 'bx($w) == bx($w0)'), ('the operation', 'co($w) == w_dep(co($w0), $a0, $a1)')]); roots.append('ffi::adv_acontext_set_dependent')
    adv('acontext_free', None, '-1'); adv('adouble_free', None, '-1')
    adv('adouble_default', 'plain(s_lit_0_1())', 1)
    adv('adouble_from_value', 'plain($a0)', 1)
    adv('adouble_copy', '$a0', 1)
    for p in ('std::boxed::Box::<T, A>::leak', 'std::boxed::Box::<T>::into_raw', 'std::boxed::Box::<T, A>::into_raw', 'std::mem::forget'): C[p] = box('box_leak')
    for p in ('std::boxed::Box::<T>::from_raw', 'std::boxed::Box::<T, A>::from_raw'): C[p] = box('box_own')
    return dict(id='C21', name='FFI over the core', mode='exact', contracts=C, roots=roots, adts=ADTS + ['acontext::AContext'], specs=[FFI_W, 'pub open spec fn plain(x: Fl) -> AFloat { AFloat { v: x, dv: s_lit_0_1(), ctx: None } }'] + sp, broadcast=[])

def spec(): return [cxx_spec(), ffi_spec()]

ASSUME = ['the stand-ins x_adv_* used to read the C++ classes behave as the extern "C" functions proved against the core in part 2: an allocator returns an object different from every live one, free ends its argument and nothing else, operands are not changed',
  'clang\'s syntax tree is what the shipped compiler runs (C++14); storage of a class object is provided by its user and is not shared with the storage of another one; temporaries end where the standard says',
  'the operations of the core library are functions of their operands and of the state of the library (what they compute is C01 to C07); dropping an AContext or ADouble releases what it holds (Rust)',
  'operator new does not fail; the plain-double overloads of sin, min, ... are not part of the classes']

def cxx_search(repo, root, build, tier, seed, secs, sh):
    """random histories of the real C++ classes over a core library that knows what is alive"""
    import glob
    exe = os.path.join(build, 'cxx_witness'); src = sorted(glob.glob(os.path.join(repo, 'src', 'cxx', '**', '*.cpp'), recursive=True))
    p = sh(['clang++', '-std=c++14', '-O1', '-w', '-I' + os.path.join(repo, 'include'), '-I' + os.path.join(repo, 'src', 'cxx'), os.path.join(root, 'witness', 'cxx', 'main.cpp')] + src + ['-o', exe])
    if p.returncode: return {'status': 'does not build', 'detail': p.stderr[-1500:]}
    return [exe, str(seed), str(secs)]
