from common import *

UNSUP = ['floor', 'ceil', 'round', 'trunc', 'fract', 'signum', 'exp_m1', 'ln_1p', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'atan2']
PRED = ['is_nan', 'is_infinite', 'is_finite', 'is_normal', 'is_sign_positive', 'is_sign_negative']
CONST = ['nan', 'infinity', 'neg_infinity', 'neg_zero', 'min_value', 'min_positive_value', 'max_value', 'epsilon']
TP = AF + 'num::ToPrimitive>::'
PL = 'pub open spec fn plain(r: AFloat, v: Fl) -> bool { r.v == v && r.dv == s_lit_0_1() && r.ctx is None }'

def spec():
    c = {}; roots = []; opt = []
    def C(path, optional=False, **k):
        c[path] = k; (opt if optional else roots).append(path)
    C(AF + 'std::cmp::PartialEq>::eq', ensures=[('equality', '$r == s_eq($a0.v, $a1.v)')])
    C(AF + 'std::cmp::PartialOrd>::partial_cmp', ensures=[('order', '$r == s_partial_cmp($a0.v, $a1.v)')])
    C(AF + 'std::cmp::PartialEq>::ne', optional=True, ensures=[('equality', '$r == !s_eq($a0.v, $a1.v)')])
    for n in ('lt', 'le', 'gt', 'ge'): C(AF + f'std::cmp::PartialOrd>::{n}', optional=True, ensures=[('order', f'$r == s_{n}($a0.v, $a1.v)')])
    C('afloat::AFloat::<S>::new', ensures=[('parts', '$r.v == $a0 && $r.dv == $a1 && $r.ctx is None')])
    C('afloat::AFloat::<S>::value', ensures=[('value', '$r == $a0.v')])
    C('afloat::AFloat::<S>::dvalue', ensures=[('derivative', '$r == $a0.dv')])
    C(AF + 'std::convert::From<S>>::from', ensures=[('constant', 'plain($r, $a0)')])
    for t in ('i64', 'u64'): C(TP + f'to_{t}', ensures=[('conversion', f'$r == s_toprim_{t}($a0.v)')])
    C(TP + 'to_f64', ensures=[('conversion', '$r == s_to_f64($a0.v)')])
    C(TP + 'to_f32', optional=True, ensures=[('conversion', '$r == s_to_f32($a0.v)')])
    for t in ('i8', 'i16', 'i32', 'i128', 'isize', 'u8', 'u16', 'u32', 'u128', 'usize'): C(TP + f'to_{t}', optional=True, ensures=[('conversion', f'$r == s_toprim_{t}($a0.v)')])
    C(AF + 'num::NumCast>::from', param_ty={0: 'NumT'}, ensures=[('conversion', '($r is Some <==> s_cast_num(Kind::S, $a0) is Some) && ($r is Some ==> plain($r->0, s_cast_num(Kind::S, $a0)->0))')])
    C(AF + 'num::Zero>::zero', ensures=[('constant', 'plain($r, s_lit_0_1())')])
    C(AF + 'num::One>::one', ensures=[('constant', 'plain($r, s_lit_1_1())')])
    C(AF + 'num::Zero>::is_zero', ensures=[('predicate', '$r == s_is_zero($a0.v)')])
    C(AF + 'num::One>::is_one', ensures=[('predicate', '$r == s_is_one($a0.v)')])
    C(AF + 'num::Num>::from_str_radix', ensures=[('conversion', '($r is Ok <==> s_from_str_radix($a0, $a1) is Ok) && ($r is Ok ==> plain($r->Ok_0, s_from_str_radix($a0, $a1)->Ok_0))')])
    for n in CONST: C(fl(n), ensures=[('constant', f'plain($r, s_{n}())')])
    for n in PRED: C(fl(n), ensures=[('predicate', f'$r == s_{n}($a0.v)')])
    C(fl('classify'), ensures=[('predicate', '$r == s_classify($a0.v)')])
    C(fl('integer_decode'), ensures=[('conversion', '$r == s_integer_decode($a0.v)')])
    C('afloat::AFloat::<S>::cast', ensures=[('cast', '$r.v == s_cast(Kind::T, Kind::S, $a0.v) && $r.dv == s_cast(Kind::T, Kind::S, $a0.dv) && $r.ctx == $a0.ctx')])
    base = dict(id='C04', mode='exact', adts=ADTS + ['acontext::AContextInner'], specs=[WORLD_LIGHT, PL], templates=[], broadcast=['ax_cast_same', 'sq_ext'])
    a = dict(base, name='transparency', contracts=c, roots=roots, optional=opt)
    d = {}; ru = []; 
    for n in UNSUP: d[fl(n)] = dict(ensures=[('panics', 'false')]); ru.append(fl(n))
    p = AF + 'std::ops::Rem>::rem'; d[p] = dict(ensures=[('panics', 'false')]); ru.append(p)
    b = dict(base, name='unsupported operations panic', contracts=d, roots=ru, lenient=True, specs=[WORLD_LIGHT])
    return [a, b]
