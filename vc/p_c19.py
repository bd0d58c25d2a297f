"""Function chains: what a part does is a function of the part; a chain is the composition of its parts."""
from common import *
from engine import *
import prelude as P
FC = 'function::FunctionChain::'
FI = '<function::FunctionChain as function::Function>::'

MODEL = '''
#[verifier::external_body] #[derive(Clone, Copy)] pub struct World { x: u8 }
// ---- a function object: its sizes, its evaluation (which may have effects), its inner chain
pub uninterp spec fn s_n(f: FuncV) -> usize;
pub uninterp spec fn s_m(f: FuncV) -> usize;
pub uninterp spec fn s_eval(w: World, f: FuncV, x: Seq<AFloat>) -> (Seq<AFloat>, World);
pub uninterp spec fn s_chain(f: FuncV) -> Option<FunctionChain>;
#[verifier::external_body] pub fn func_n(f: FuncV) -> (r: usize) ensures r == s_n(f) { unimplemented!() }
#[verifier::external_body] pub fn func_m(f: FuncV) -> (r: usize) ensures r == s_m(f) { unimplemented!() }
#[verifier::external_body] pub fn func_eval(w: World, f: FuncV, x: Sq<AFloat>) -> (r: (Sq<AFloat>, World)) ensures r.0@ == s_eval(w, f, x@).0, r.1 == s_eval(w, f, x@).1 { unimplemented!() }
#[verifier::external_body] pub fn func_chain(f: FuncV) -> (r: Option<FunctionChain>) ensures r == s_chain(f) { unimplemented!() }
#[verifier::external_body] pub fn func_of_chain(c: FunctionChain) -> (r: FuncV) ensures s_chain(r) == Some(c) { unimplemented!() }
/// the first k parts, one after another
pub open spec fn comp(w: World, c: Seq<FuncV>, x: Seq<AFloat>, k: int) -> (Seq<AFloat>, World) decreases k { if k <= 0 { (x, w) } else { let p = comp(w, c, x, k - 1); s_eval(p.1, c[k - 1], p.0) } }
/// sizes fit together
pub open spec fn c_wf(c: FunctionChain) -> bool { c.funcs@.len() > 0 && forall|i: int| 0 <= i < c.funcs@.len() - 1 ==> s_m(#[trigger] c.funcs@[i]) == s_n(c.funcs@[i + 1]) }
pub open spec fn leaves(f: FuncV) -> Seq<FuncV> { match s_chain(f) { Some(c) => flat(c), None => seq![f] } }
pub open spec fn flatk(c: Seq<FuncV>, k: int) -> Seq<FuncV> decreases k { if k <= 0 { Seq::empty() } else { flatk(c, k - 1) + leaves(c[k - 1]) } }
/// the parts of a chain with nested chains flattened
pub uninterp spec fn flat(c: FunctionChain) -> Seq<FuncV>;
pub broadcast axiom fn ax_flat(c: FunctionChain) ensures #[trigger] flat(c) == flatk(c.funcs@, c.funcs@.len() as int);
'''

PRE = [T('{v}@ == {s}@.subrange(0, {i} as int)', mod={'v': 'Sq<FuncV>'}, scope={'s': 'Sq<FuncV>'}), T('{v}@ == {v0}@ + {s}@.subrange(0, {i} as int)', mod={'v': 'Sq<FuncV>'}, scope={'s': 'Sq<FuncV>'})]

def spec():
    K = 'flatk($a0.funcs@, {i} as int)'
    c = {
      FC + 'from_boxed': dict(requires=[], ensures=[('one part', '$r.funcs@ == seq![$a0] && c_wf($r)')]),
      FC + 'new': dict(ensures=[('one part', '$r.funcs@ == seq![$a0] && c_wf($r)')], subst={'F': 'FuncV'}),
      FC + 'append': dict(requires=['c_wf($a0)', 's_m($a0.funcs@.last()) == s_n($a1)'], ensures=[('appended', '$a0p.funcs@ == $a0.funcs@.push($a1) && c_wf($a0p)')], subst={'F': 'FuncV'}),
      FC + 'append_boxed': dict(requires=['c_wf($a0)', 's_m($a0.funcs@.last()) == s_n($a1)'], ensures=[('appended', '$a0p.funcs@ == $a0.funcs@.push($a1) && c_wf($a0p)')]),
      FC + 'iter': dict(ret_ty='Sq<FuncV>', ensures=[('flattened', '$r@ == flat($a0)')], templates=[T('{v}@ == ' + K, mod={'v': 'Sq<FuncV>'}), T('{v}@ == flatk({s}@, {i} as int)', mod={'v': 'Sq<FuncV>'}, scope={'s': 'Sq<FuncV>'}), T('{v}@ == {v0}@ + {s}@.subrange(0, {i} as int)', mod={'v': 'Sq<FuncV>'}, scope={'s': 'Sq<FuncV>'})]),
      FC + 'len': dict(ensures=[('length', '$r == flat($a0).len()')], templates=[T('{o} == {i}', mod={'o': 'usize'})]),
      FC + 'nth': dict(requires=['$a1 < flat($a0).len()'], ensures=[('element', '$r == flat($a0)[$a1 as int]')], templates=PRE),
      FI + 'n': dict(requires=['c_wf($a0)'], ensures=[('inputs', '$r == s_n($a0.funcs@[0])')]),
      FI + 'm': dict(requires=['c_wf($a0)'], ensures=[('outputs', '$r == s_m($a0.funcs@.last())')]),
      FI + 'chain': dict(ensures=[('itself', '$r == Some($a0)')]),
      FI + 'eval': dict(world=True, requires=[], ensures=[('composition', '$r@ == comp($w0, $a0.funcs@, $a1@, $a0.funcs@.len() as int).0 && $w == comp($w0, $a0.funcs@, $a1@, $a0.funcs@.len() as int).1')],
        templates=[T('{v}@ == comp(w0, $a0.funcs@, $a1@, {i} as int).0', mod={'v': 'Sq<AFloat>'}), T('w == comp(w0, $a0.funcs@, $a1@, {i} as int).1')]),
    }
    EXTRA = 'pub broadcast proof fn b_full<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }\n'
    adts = ['afloat::AFloat', 'function::FunctionChain']
    a = dict(id='C19', name='chains', mode='exact', contracts=c, roots=list(c), adts=adts, specs=[P.FUNCV, MODEL, EXTRA], broadcast=['sq_ext', 'ax_flat', 'b_full'])
    d = {FC + 'append_boxed': dict(requires=['c_wf($a0)'], ensures=[('rejects', 's_m($a0.funcs@.last()) == s_n($a1)'), ('appended', '$a0p.funcs@ == $a0.funcs@.push($a1)')]), FC + 'append': dict(requires=['c_wf($a0)'], ensures=[('rejects', 's_m($a0.funcs@.last()) == s_n($a1)')], subst={'F': 'FuncV'}),
         FC + 'iter': c[FC + 'iter'], FC + 'nth': dict(requires=[], ensures=[('rejects', '$a1 < flat($a0).len()')], templates=PRE)}
    b = dict(id='C19', name='a part that does not fit and an index past the end are rejected', mode='exact', lenient=True, contracts=d, roots=list(d), adts=adts, specs=[P.FUNCV, MODEL, EXTRA], broadcast=['sq_ext', 'ax_flat', 'b_full'])
    return [a, b]
