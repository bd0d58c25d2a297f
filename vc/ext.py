"""Models of the functions outside the crate (std, num, nalgebra, rayon)."""
import re
from translate import *

FL1 = ['sin', 'cos', 'tan', 'abs', 'exp', 'ln', 'asin', 'acos', 'atan', 'sqrt', 'recip', 'exp2', 'ln_1p', 'exp_m1', 'sinh', 'cosh', 'tanh',
       'asinh', 'acosh', 'atanh', 'cbrt', 'log2', 'log10', 'floor', 'ceil', 'round', 'trunc', 'fract', 'signum']
FL2 = ['powf', 'log', 'max', 'min', 'hypot', 'atan2', 'abs_sub']
FPRED = ['is_nan', 'is_infinite', 'is_finite', 'is_normal', 'is_sign_positive', 'is_sign_negative']
FCONST = ['nan', 'infinity', 'neg_infinity', 'neg_zero', 'min_value', 'min_positive_value', 'max_value', 'epsilon']


def el(r):
    n, t = split_ty(r.ty)
    return t


def kind_of(cx, t, sub):
    """numeric kind of a THIR type: used for conversions"""
    if t['k'] == 'prim': return 'K_' + t['n']
    if t['k'] == 'param' and 'kind:' + t['n'] in sub: return sub['kind:' + t['n']]
    if t['k'] == 'param': return 'K_' + {'S': 'S', 'T': 'T'}.get(t['n'], 'S')
    return 'K_' + cx.ty(t, sub)


def handle(tr, e, p, rp, vs):
    cx = tr.cx
    name = p.split('::')[-1]
    sub = tr.frame.subst
    full = p + ' ' + (rp or '')
    rty = cx.ty(e['ty'], sub) if e.get('ty') and vs is None else None
    def A():
        nonlocal vs
        if vs is None: vs = tr.args(e['args'])
        return vs
    rv = tr.rv
    let = tr.let

    # ---- panics
    if name in ('panic', 'assert_failed', 'panic_fmt', 'begin_panic', 'panic_display', 'unreachable_display', 'panic_explicit', 'begin_panic_fmt', 'panic_nounwind') or 'panicking::' in p:
        tr.emit('vpanic::<()>();')
        return Never()
    if p.startswith('std::fmt::Arguments') or 'fmt::' in p and name in ('from_str_nonconst', 'from_str', 'new', 'new_const', 'new_v1', 'new_display', 'new_debug', 'none'):
        return R('mk_str()', 'Str')
    if name == 'must_use': return A()[0]

    # ---- no-ops
    if name in ('cloned', 'copied', 'to_vec', 'to_owned', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'into_boxed_slice', 'into_vec', 'into_owned', 'clone_owned',
                'leak', 'from_raw', 'into_raw', 'by_ref', 'as_deref', 'clone', 'borrow', 'into_inner', 'clone_into_', 'data', 'as_vec') or \
       (name == 'new' and ('boxed::Box' in p or 'Box<' in p)) or name in ('box_assume_init_into_vec_unsafe',) or \
       (name in ('deref', 'deref_mut') and 'MutexGuard' not in full and 'CONTEXT_MAP' not in full) or \
       (name == 'from' and 'boxed' in full):
        a = A()
        v = a[0]
        if name == 'clone' and isinstance(v, RefV): return tr.read(v.p)
        if name in ('to_vec', 'cloned', 'copied', 'to_owned', 'into_owned', 'clone') and isinstance(v, (RefV, P)): return rv(v)
        return v
    if name == 'drop' and ('mem::drop' in p):
        v = A()[0]
        if isinstance(v, Guard): tr.release(v)
        return UNIT
    if name == 'write_box_via_move': return A()[1]
    if name in ('new_uninit',): return BoxUninit()
    if name == 'discriminant_value':
        v = rv(A()[0])
        return let(f'xdisc_{v.ty}({v.t})', 'usize')

    # ---- locks and the registry
    r = world(tr, e, p, rp, name, A)
    if r is not None: return r

    # ---- abstract tapes and functions
    if p.startswith('tape::Tape::'):
        v = A()[0]
        f = {'indeps': 'indeps', 'deps': 'deps', 'values': 'vals', 'values_mut': 'vals', 'ops_iter': 'ops'}.get(name)
        if f:
            fty = {'ops': 'Sq<Operation>', 'vals': 'Sq<Fl>'}.get(f, 'Sq<usize>')
            cx.use_adt('operation::Operation', [], {})
            if name == 'values_mut':
                if not isinstance(v, RefV): raise Unsupported('values_mut receiver')
                return RefV(v.p.ext(('f', 'vals'), fty))
            r = tr.as_tape(v)
            if name == 'ops_iter': return It('seq', t=tr.stable(R(f'{r.t}.ops', fty)), ty='Operation')
            return R(f'{r.t}.{f}', fty)
    if p.startswith('function::Function::'):
        a = A(); r = rv(a[0])
        if r.ty == 'FuncV':
            if name in ('n', 'm'): return let(f'func_{name}({r.t})', 'usize')
            if name == 'eval':
                x = rv(a[1])
                t = tr.tmp(); tr.emit(f'let {t} = func_eval(w, {r.t}, {x.t});'); tr.emit(f'w = {t}.1;'); tr.mark_mod('w')
                tr.scope.append((f'{t}.0', 'Sq<AFloat>'))
                return R(f'{t}.0', 'Sq<AFloat>')
            if name == 'eval_float': return let(f'func_eval_float({r.t}, {rv(a[1]).t})', 'Sq<Fl>')
            if name == 'chain':
                cx.use_adt('function::FunctionChain', [], {})
                return let(f'func_chain({r.t})', 'Option<FunctionChain>')
            if name == 'tape': return let(f'func_tape({r.t}, {rv(a[1]).t})', 'TapeV')
        raise Unsupported(p + ' on ' + r.ty)

    # ---- Option / Result
    if 'option::Option' in p or 'result::Result' in p or name in ('branch', 'from_residual', 'from_output'):
        r = option(tr, e, p, name, A)
        if r is not None: return r

    # ---- closures
    if name in ('call', 'call_mut', 'call_once') and 'ops::' in p:
        a = A(); f = a[0]
        if isinstance(f, RefV): f = f.p
        t = a[1]
        args = t.el if isinstance(t, TupV) else ([] if t.ty == '()' else None)
        if args is None:
            if t.ty.startswith('('): args = [R(f'{t.t}.{i}', x) for i, x in enumerate(tup_elems(t.ty))]
        return tr.call_v(f, args)

    # ---- conversions
    if name == 'into' and 'convert::Into' in p:
        v = rv(A()[0])
        if rty == v.ty: return v
        if rty == 'AFloat' and v.ty == 'Fl':
            return tr.call_local('<afloat::AFloat<S> as std::convert::From<S>>::from', [v], {'S': 'Fl'})
        raise Unsupported(f'into {v.ty} -> {rty}')
    if name == 'from' and 'convert::From' in p:
        v = rv(A()[0])
        if 'BigUint' in full: return let(f'big_of({v.t})', 'Big')
        if rty == v.ty: return v
        if v.ty in INTS and rty in INTS: return R(f'({v.t} as {rty})', rty)
        if v.ty in INTS and rty == 'Fl': return let(f'fl_of_{v.ty}({v.t})', 'Fl')
        if rty == 'AFloat' and v.ty == 'Fl':
            return tr.call_local('<afloat::AFloat<S> as std::convert::From<S>>::from', [v], {'S': 'Fl'})
        raise Unsupported(f'from {v.ty} -> {rty}')
    if p == 'num::NumCast::from' or name == 'from' and 'NumCast' in p:
        v = rv(A()[0])
        dst, src = e['ga'][0], e['ga'][1]
        if cx.ty(dst, sub) == 'AFloat':
            return tr.call_local('<afloat::AFloat<S> as num::NumCast>::from', [v], {'S': 'Fl', 'T': v.ty})
        kd = kind_of(cx, dst, sub)
        ks = kind_of(cx, src, sub)
        # inside an inlined generic body the source kind comes from the argument
        if src['k'] == 'param' and sub.get(src['n'], 'Fl') in INTS: ks = 'K_' + sub[src['n']]
        if v.ty == 'Fl': return let(f'fl_cast({ks}(), {kd}(), {v.t})', 'Option<Fl>')
        if v.ty in INTS: return let(f'fl_cast_{v.ty}({kd}(), {v.t})', 'Option<Fl>')
        if v.ty == 'NumT': return let(f'fl_cast_num({kd}(), {v.t})', 'Option<Fl>')
        raise Unsupported('NumCast of ' + v.ty)
    if p.startswith('num::ToPrimitive::'):
        v = rv(A()[0])
        if v.ty == 'Big' and name == 'to_usize': return let(f'big_to_usize({v.t})', 'Option<usize>')
        if v.ty == 'Fl':
            t = {'to_f64': 'Fl', 'to_f32': 'Fl'}.get(name, name[3:])
            if t != 'Fl': return let(f'fl_toprim_{t}({v.t})', f'Option<{t}>')
            return let(f'fl_{name}({v.t})', f'Option<{t}>')
        if v.ty in INTS and name == 'to_usize': return let(f'{v.ty}_to_usize({v.t})', 'Option<usize>')
        raise Unsupported(p + ' of ' + v.ty)
    if name == 'binomial' and 'num' in p:
        a, b = [rv(x) for x in A()]
        return let(f'big_binomial({a.t}, {b.t})', 'Big')

    # ---- floats
    if p in ('num::Zero::zero', 'num::One::one') and cx.ty(e['ga'][0], sub) in INTS: return R({'zero': '0', 'one': '1'}[name] + cx.ty(e['ga'][0], sub), cx.ty(e['ga'][0], sub))
    if p == 'num::Zero::zero': return tr.flit('0', False)
    if p == 'num::One::one': return tr.flit('1', False)
    if p == 'num::Zero::is_zero': return let(f'fl_is_zero({rv(A()[0]).t})', 'bool')
    if p == 'num::One::is_one': return let(f'fl_is_one({rv(A()[0]).t})', 'bool')
    if name == 'from_str_radix':
        a = A(); return let(f'fl_from_str_radix({rv(a[0]).t}, {rv(a[1]).t})', 'Result<Fl,ErrT>')
    if p.startswith('num::Float::') or '<impl f64>::' in p or '<impl f32>::' in p or p.startswith('num::traits::'):
        if name in FCONST and p.startswith('num::Float'): return let(f'fl_{name}()', 'Fl')
        a = [rv(x) for x in A()]
        if a and a[0].ty == 'Fl':
            if name in FL1: return let(f'fl_{name}({a[0].t})', 'Fl')
            if name in FL2: return let(f'fl_{name}({a[0].t}, {a[1].t})', 'Fl')
            if name == 'powi': return let(f'fl_powi({a[0].t}, {a[1].t})', 'Fl')
            if name == 'mul_add': return let(f'fl_mul_add({a[0].t}, {a[1].t}, {a[2].t})', 'Fl')
            if name == 'sin_cos': return let(f'fl_sin_cos({a[0].t})', '(Fl, Fl)')
            if name in FPRED: return let(f'fl_{name}({a[0].t})', 'bool')
            if name == 'classify': return let(f'fl_classify({a[0].t})', 'FpCat')
            if name == 'integer_decode': return let(f'fl_integer_decode({a[0].t})', '(u64, i16, i8)')
        raise Unsupported(p)

    # ---- operators through traits
    OPS = {'std::ops::Add::add': 'Add', 'std::ops::Sub::sub': 'Sub', 'std::ops::Mul::mul': 'Mul', 'std::ops::Div::div': 'Div', 'std::ops::Rem::rem': 'Rem'}
    if p in OPS:
        a, b = [rv(x) for x in A()]
        return matop(tr, OPS[p], a, b, rty)
    m = re.match(r'^std::ops::(Add|Sub|Mul|Div|Rem)Assign::\w+$', p)
    if m:
        t, b = A(); b = rv(b)
        if not isinstance(t, RefV): raise Unsupported('op-assign')
        cur = tr.read(t.p)
        r = matop(tr, m.group(1), cur, b, cur.ty)
        tr.write(t.p, r.t); return UNIT
    if p == 'std::ops::Neg::neg':
        a = rv(A()[0])
        f = {'Fl': 'fl_neg', 'Sq<Fl>': 'vec_neg', 'Mat': 'mat_neg'}.get(a.ty)
        if a.ty in INTS: f = a.ty + '_neg'
        if f: return let(f'{f}({a.t})', a.ty)
        raise Unsupported('neg ' + a.ty)
    if p == 'std::ops::Not::not':
        a = rv(A()[0]); return R(f'!({a.t})', a.ty)
    m = re.match(r'^std::cmp::Partial(Eq|Ord)::(\w+)$', p)
    if m and name != 'partial_cmp':
        a, b = [rv(x) for x in A()]
        return compare(tr, name, a, b)
    if name == 'partial_cmp':
        a, b = [rv(x) for x in A()]
        if a.ty == 'Fl': return let(f'fl_partial_cmp({a.t}, {b.t})', 'Option<Option3>')
        raise Unsupported('partial_cmp ' + a.ty)
    if name in ('max', 'min') and 'cmp' in full:
        a, b = [rv(x) for x in A()]
        if a.ty in INTS: return let(f'{a.ty}_{name}({a.t}, {b.t})', a.ty)
    if name == 'clamp' and 'cmp' in full:
        a, b, c = [rv(x) for x in A()]
        if a.ty in INTS: return let(f'{a.ty}_max({b.t}, {a.ty}_min({a.t}, {c.t}))', a.ty)
    if name == 'cmp' and 'cmp::Ord' in p:
        a, b = [rv(x) for x in A()]
        if a.ty in INTS: return let(f'{a.ty}_cmp({a.t}, {b.t})', 'Option3')
    m = re.search(r'<impl (\w+)>::(\w+)$', p)
    if m and m.group(1) in INTS:
        t = m.group(1)
        a = [rv(x) for x in A()]
        if name == 'max_value': return R(f'{t}::MAX', t)
        if name in ('saturating_sub', 'saturating_add', 'abs_diff', 'pow', 'min', 'max', 'wrapping_add', 'wrapping_sub', 'is_power_of_two', 'div_ceil', 'checked_sub', 'checked_add'):
            rt = {'checked_sub': f'Option<{t}>', 'checked_add': f'Option<{t}>', 'is_power_of_two': 'bool'}.get(name, t)
            return let(f"{t}_{name}({', '.join(x.t for x in a)})", rt)

    # ---- summaries of numbers and matrices: a result nothing is known about
    if name in OPAQUE and (rty == 'Fl' or rty == 'bool' or rty in INTS) and ('nalgebra' in full or re.search(r'<impl (\w+)>::', p)):
        for x in A(): rv(x)
        return let(f'some_value::<{rty}>()', rty)
    # ---- matrices
    if 'nalgebra' in full:
        r = nalgebra(tr, e, p, name, A, rty)
        if r is not None: return r

    # ---- vectors / slices / deques
    r = vector(tr, e, p, name, A, rty)
    if r is not None: return r
    # ---- iterators
    r = iters(tr, e, p, name, A, rty)
    if r is not None: return r
    raise Unsupported('call ' + p)


OPAQUE = set('''amax amin camax camin norm norm_squared lp_norm max min mean variance determinant trace rank imax imin iamax product
 magnitude magnitude_squared is_identity is_orthogonal is_square is_invertible
 count_ones count_zeros leading_zeros trailing_zeros leading_ones trailing_ones swap_bytes rotate_left rotate_right reverse_bits isqrt ilog2 ilog10 ilog to_bits total_cmp'''.split())


def compare(tr, name, a, b):
    op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[name]
    if a.ty in ('Fl', 'bool') or a.ty in INTS: return tr.binop(op, a, b)
    if a.ty == 'AFloat':
        d = '<afloat::AFloat<S> as std::cmp::PartialEq>::eq'
        if name in ('eq', 'ne') and d in tr.cx.fns:
            r = tr.rv(tr.call_local(d, [a, b], {'S': 'Fl'}))
            return r if name == 'eq' else R(f'!({r.t})', 'bool')
        d = '<afloat::AFloat<S> as std::cmp::PartialOrd>::partial_cmp'
        o = tr.rv(tr.call_local(d, [a, b], {'S': 'Fl'}))
        return tr.let(f'ord_{name}({o.t})', 'bool')
    if a.ty in ('Sq<Fl>', 'Mat'):
        r = tr.let(f"{'vec' if a.ty.startswith('Sq') else 'mat'}_eq({a.t}, {b.t})", 'bool')
        return r if name == 'eq' else R(f'!{r.t}', 'bool')
    if a.ty.startswith('Option<') or a.ty in ('OpCode', 'Operation') or (a.ty.startswith('Sq<') and el(a) in tuple(INTS) + ('bool',)) or a.ty.startswith('('):
        if name in ('eq', 'ne') and 'Fl' not in a.ty:
            r = tr.let(f'g_eq({a.t}, {b.t})', 'bool')
            return r if name == 'eq' else R(f'!{r.t}', 'bool')
    if a.ty == 'Option<Fl>' and name in ('eq', 'ne'):
        r = tr.let(f'opt_eq_fl({a.t}, {b.t})', 'bool')
        return r if name == 'eq' else R(f'!{r.t}', 'bool')
    raise Unsupported(f'comparison of {a.ty}')


def matop(tr, op, a, b, rty):
    let = tr.let
    if a.ty == 'Fl' and b.ty == 'Fl' or a.ty in INTS: return tr.binop(op, a, b)
    if a.ty == 'Big' and b.ty == 'Big':
        return let(f'big_{op.lower()}({a.t}, {b.t})', 'Big')
    if 'AFloat' in (a.ty, b.ty):
        l, r = a.ty, b.ty
        if l == 'AFloat' and r == 'AFloat': q = f'<afloat::AFloat<S> as std::ops::{op}>::{op.lower()}'
        elif l == 'AFloat': q = f'<afloat::AFloat<S> as std::ops::{op}<f64>>::{op.lower()}'
        else: q = f'afloat::<impl std::ops::{op}<afloat::AFloat<S>> for f64>::{op.lower()}'
        if q not in tr.cx.fns: raise Unsupported(q)
        return tr.call_local(q, [a, b], {'S': 'Fl'})
    V, M = 'Sq<Fl>', 'Mat'
    if op in ('Add', 'Sub'):
        o = op.lower()
        if a.ty == V and b.ty == V: return let(f'vec_{o}({a.t}, {b.t})', V)
        if a.ty == M and b.ty == M: return let(f'mat_{o}({a.t}, {b.t})', M)
        if a.ty == V and b.ty == M: return let(f'vec_{o}({a.t}, vec_of_mat({b.t}))', V)
        if a.ty == M and b.ty == V: return let(f'vec_{o}(vec_of_mat({a.t}), {b.t})', V)
    if op == 'Mul':
        if a.ty == M and b.ty == V: return let(f'mat_vec({a.t}, {b.t})', V)
        if a.ty == M and b.ty == M: return let(f'mat_mul({a.t}, {b.t})', M)
        if a.ty == V and b.ty == 'Fl': return let(f'vec_scale({a.t}, {b.t})', V)
        if a.ty == M and b.ty == 'Fl': return let(f'mat_scale({a.t}, {b.t})', M)
    raise Unsupported(f'{op} on {a.ty}, {b.ty}')


def option(tr, e, p, name, A):
    cx, rv, let = tr.cx, tr.rv, tr.let
    a = A()
    v = a[0]
    if isinstance(v, Guard): 
        if name in ('unwrap', 'expect'): return v
        raise Unsupported('lock result')
    if name in ('unwrap', 'expect', 'unwrap_unchecked'):
        if isinstance(v, (It, Clo)): return v
        r = rv(v); n, t = split_ty(r.ty)
        if n == 'Result':
            return let(f'res_unwrap({r.t})', tup_elems('(' + t + ')')[0])
        return let(f'opt_unwrap({r.t})', t)
    if name == 'is_some': return let(f'opt_is_some({rv(v).t})', 'bool')
    if name == 'is_none': return R('!' + let(f'opt_is_some({rv(v).t})', 'bool').t, 'bool')
    if name in ('map', 'and_then', 'unwrap_or_else', 'map_or', 'map_or_else', 'filter', 'or_else', 'unwrap_or_default', 'ok_or', 'is_some_and'):
        r = rv(v); r = R(tr.stable(r), r.ty)
        n, t = split_ty(r.ty)
        if n != 'Option': 
            if n == 'Result' and name == 'map': pass
            raise Unsupported('Result::' + name)
        pv = tr.tmp('p')
        some = lambda f: (lambda: f(R(pv, t)))
        if name == 'map':
            s = lambda: (lambda x: R(f'Some({x.t})', f'Option<{x.ty}>'))(rv(tr.call_v(a[1], [R(pv, t)])))
            n_ = lambda: R('None', 'Option<?>')
        elif name == 'and_then':
            s = lambda: tr.call_v(a[1], [R(pv, t)]); n_ = lambda: R('None', 'Option<?>')
        elif name == 'unwrap_or_else':
            s = lambda: R(pv, t); n_ = lambda: tr.call_v(a[1], [])
        elif name == 'map_or':
            s = lambda: tr.call_v(a[2], [R(pv, t)]); d = rv(a[1]); n_ = lambda: d
        elif name == 'map_or_else':
            s = lambda: tr.call_v(a[2], [R(pv, t)]); n_ = lambda: tr.call_v(a[1], [])
        elif name == 'is_some_and':
            s = lambda: tr.call_v(a[1], [R(pv, t)]); n_ = lambda: R('false', 'bool')
        elif name == 'filter':
            def s():
                tr.emit(f'let {pv}f: {t} = {pv};')
                c = rv(tr.call_v(a[1], [R(pv, t)]))
                return let(f'(if {c.t} {{ Some({pv}f) }} else {{ None }})', r.ty)
            n_ = lambda: R('None', r.ty)
        elif name == 'or_else':
            s = lambda: R(f'Some({pv})', r.ty); n_ = lambda: tr.call_v(a[1], [])
        else: raise Unsupported('Option::' + name)
        b1 = tr.branch(s, e); b2 = tr.branch(n_, e)
        def render(nm, outs):
            tr.emit((f'let {nm} = ' if nm and nm != '()' else '') + f'match {r.t} {{ Some({pv}) => {{')
            tr.out += outs[0][0]
            if outs[0][1]: tr.emit(outs[0][1])
            tr.emit('} None => {')
            tr.out += outs[1][0]
            if outs[1][1]: tr.emit(outs[1][1])
            tr.emit('} }' + (';' if nm and nm != '()' else ''))
        return tr.join(None, [b1, b2], render)
    if name == 'unwrap_or':
        r = rv(v); d = rv(a[1])
        return let(f'opt_unwrap_or({r.t}, {d.t})', split_ty(r.ty)[1])
    if name == 'take' and isinstance(v, RefV):
        r = tr.read(v.p); r = let(r.t, r.ty)
        tr.write(v.p, 'None'); return r
    if name == 'replace' and isinstance(v, RefV):
        r = tr.read(v.p); r = let(r.t, r.ty)
        tr.write(v.p, f'Some({rv(a[1]).t})'); return r
    if name == 'ok':
        r = rv(v); return let(f'res_ok({r.t})', 'Option<' + tup_elems('(' + split_ty(r.ty)[1] + ')')[0] + '>')
    if name in ('clone', 'copied', 'cloned'): return rv(v)
    if name == 'or':
        r = rv(v); d = rv(a[1]); return let(f'(if opt_is_some({r.t}) {{ {r.t} }} else {{ {d.t} }})', r.ty)
    if name in ('zip', 'and', 'xor'):
        raise Unsupported('Option::' + name)
    return None


def vector(tr, e, p, name, A, rty):
    cx, rv, let = tr.cx, tr.rv, tr.let
    if not ('vec' in p or 'slice' in p or 'VecDeque' in p or 'std::ops::Index' in p or 'alloc::' in p): return None
    if name == 'with_capacity' or name == 'new':
        t = rty or '?'
        if name == 'with_capacity':
            a = rv(A()[0])
            tr.emit(f'/*CAP {t}*/ note_capacity({a.t});')
        if not t.startswith('Sq'): return None
        return let(f'sq_new::<{el(R("", t))}>()', t)
    if name == 'from_elem':
        a = A(); x = rv(a[0]); n = rv(a[1])
        return let(f'sq_fill({n.t}, {x.t})', f'Sq<{x.ty}>')
    if name in ('index', 'index_mut') or name in ('get', 'get_mut', 'get_unchecked'):
        a = A(); i = a[1]
        if isinstance(i, It): 
            if i.kind == 'range' and name == 'index':
                v = rv(a[0]); return let(f'sq_slice({v.t}, {i.lo}, {i.hi})', v.ty)
            if i.kind == 'rangei' and name == 'index':
                v = rv(a[0]); return let(f'sq_slice({v.t}, {i.lo}, usize_add({i.hi}, 1usize))', v.ty)
            if i.kind in ('full', 'from', 'to') and name == 'index':
                v = rv(a[0]); v = let(v.t, v.ty)
                return v if i.kind == 'full' else let(f'sq_slice({v.t}, {i.lo}, sq_len({v.t}))' if i.kind == 'from' else f'sq_slice({v.t}, 0usize, {i.hi})', v.ty)
            raise Unsupported('slicing')
        i = rv(i)
        if name == 'index_mut':
            return RefV(a[0].p.ext(('i', tr.stable(i)), el(R('', a[0].p.ty))))
        v = rv(a[0])
        if i.ty != 'usize': raise Unsupported('slicing')
        if name == 'get': return let(f'sq_get_opt({v.t}, {i.t})', f'Option<{el(v)}>')
        return let(f'sq_get({v.t}, {i.t})', el(v))
    if name in ('len',):
        v = A()[0]
        return let(f'sq_len({rv(v).t})', 'usize')
    if name == 'is_empty': return R(f"({let(f'sq_len({rv(A()[0]).t})', 'usize').t} == 0)", 'bool')
    if name in ('push', 'push_back'):
        a = A(); x = rv(tr.coerce(a[1], el(R('', a[0].p.ty)) or ''))
        r = tr.read(a[0].p); tr.write(a[0].p, f'sq_push({r.t}, {x.t})'); return UNIT
    if name == 'push_front':
        a = A(); r = tr.read(a[0].p); tr.write(a[0].p, f'sq_push_front({r.t}, {rv(a[1]).t})'); return UNIT
    if name in ('pop', 'pop_back'):
        a = A(); r = tr.read(a[0].p); r = let(r.t, r.ty)
        o = let(f'sq_last({r.t})', f'Option<{el(r)}>')
        tr.write(a[0].p, f'sq_pop({r.t})'); return o
    if name in ('pop_front',):
        a = A(); r = tr.read(a[0].p); r = let(r.t, r.ty)
        o = let(f'sq_first({r.t})', f'Option<{el(r)}>')
        tr.write(a[0].p, f'sq_pop_front({r.t})'); return o
    if name in ('last', 'back'): v = rv(A()[0]); return let(f'sq_last({v.t})', f'Option<{el(v)}>')
    if name in ('first', 'front'): v = rv(A()[0]); return let(f'sq_first({v.t})', f'Option<{el(v)}>')
    if name in ('append',):
        a = A(); x = tr.read(a[0].p); y = tr.read(a[1].p)
        tr.write(a[0].p, f'sq_concat({x.t}, {y.t})')
        tr.write(a[1].p, f'sq_new::<{el(y)}>()'); return UNIT
    if name in ('extend_from_slice',):
        a = A(); x = tr.read(a[0].p); tr.write(a[0].p, f'sq_concat({x.t}, {rv(a[1]).t})'); return UNIT
    if name in ('copy_from_slice', 'clone_from_slice'):
        a = A()
        if isinstance(a[0], It): raise Unsupported('copy_from_slice')
        d = tr.read(a[0].p); s = rv(a[1])
        tr.write(a[0].p, f'sq_copy_from({d.t}, {s.t})'); return UNIT
    if name == 'clear':
        a = A(); tr.write(a[0].p, f"sq_new::<{el(R('', a[0].p.ty))}>()"); return UNIT
    if name == 'truncate':
        a = A(); r = tr.read(a[0].p); tr.write(a[0].p, f'sq_truncate({r.t}, {rv(a[1]).t})'); return UNIT
    if name == 'swap':
        a = A(); r = tr.read(a[0].p); tr.write(a[0].p, f'sq_swap({r.t}, {rv(a[1]).t}, {rv(a[2]).t})'); return UNIT
    if name == 'reverse':
        a = A(); r = tr.read(a[0].p); tr.write(a[0].p, f'sq_reverse({r.t})'); return UNIT
    if name == 'resize':
        a = A(); r = tr.read(a[0].p); tr.write(a[0].p, f'sq_resize({r.t}, {rv(a[1]).t}, {rv(a[2]).t})'); return UNIT
    if name == 'fill':
        a = A(); r = tr.read(a[0].p); x = rv(a[1])
        n = let(f'sq_len({r.t})', 'usize'); tr.write(a[0].p, f'sq_fill({n.t}, {x.t})'); return UNIT
    if name == 'contains':
        a = A(); return let(f'sq_contains({rv(a[0]).t}, {rv(a[1]).t})', 'bool')
    if name == 'iter':
        v = A()[0]
        if isinstance(v, It): return v
        r = rv(v); return It('seq', t=tr.stable(r), ty=el(r))
    if name == 'iter_mut':
        v = A()[0]
        return It('seqmut', place=v.p, ty=el(R('', v.p.ty)))
    if name == 'drain':
        a = A()
        if not isinstance(a[0], RefV) or not isinstance(a[0].p, P) or not (isinstance(a[1], It) and a[1].kind == 'full'): raise Unsupported('drain of a part')
        r = tr.read(a[0].p); t = tr.stable(r); tr.write(a[0].p, f'sq_new::<{el(r)}>()')
        return It('seq', t=t, ty=el(r))
    if name == 'insert' and 'Vec' in p:
        a = A(); r = tr.read(a[0].p); tr.write(a[0].p, f'sq_insert({r.t}, {rv(a[1]).t}, {rv(a[2]).t})'); return UNIT
    if name == 'remove' and 'Vec' in p and 'Deque' not in p:
        a = A(); r = tr.read(a[0].p); r = let(r.t, r.ty); i = tr.stable(rv(a[1]))
        o = let(f'sq_get({r.t}, {i})', el(r)); tr.write(a[0].p, f'sq_remove({r.t}, {i})'); return o
    if name in ('into_iter', 'into_par_iter', 'par_iter'):
        return tr.to_iter(A()[0])
    if name == 'extend':
        a = A(); it = tr.itv(a[1]); pl = a[0].p
        def item(v):
            r = rv(v); c = tr.read(pl); tr.write(pl, f'sq_push({c.t}, {r.t})')
        tr.drive(it, item); return UNIT
    return None


def nalgebra(tr, e, p, name, A, rty):
    cx, rv, let = tr.cx, tr.rv, tr.let
    a = None
    if name in ('zeros', 'from_element', 'identity', 'from_vec', 'repeat'):
        a = A()
        if name == 'from_vec' and rty.startswith('Sq'): return rv(a[0])
        if rty.startswith('Sq'):
            x = tr.flit('0', False) if name == 'zeros' else rv(a[1])
            if rty == 'Sq<AFloat>' and name == 'zeros':
                x = rv(tr.call_local('<afloat::AFloat<S> as num::Zero>::zero', [], {'S': 'Fl'}))
            return let(f'sq_fill({rv(a[0]).t}, {x.t})', rty)
        if name == 'zeros': z = tr.flit('0', False); return let(f'mat_fill({rv(a[0]).t}, {rv(a[1]).t}, {z.t})', 'Mat')
        if name in ('from_element', 'repeat'): return let(f'mat_fill({rv(a[0]).t}, {rv(a[1]).t}, {rv(a[2]).t})', 'Mat')
        if name == 'identity': return let(f'mat_identity({rv(a[0]).t}, {rv(a[1]).t})', 'Mat')
        raise Unsupported('nalgebra ' + name)
    if name == 'from_fn':
        a = A()
        if rty == 'Mat':
            nr, nc = tr.stable(rv(a[0])), tr.stable(rv(a[1])); z = tr.flit('0', False)
            m = tr.tmp('m'); tr.emit(f'let mut {m}: Mat = mat_fill({nr}, {nc}, {z.t});'); tr.scope.append((m, 'Mat'))
            def outer(j):
                def inner(i):
                    x = rv(tr.call_v(a[2], [i, j])); tr.write(P(m, 'Mat'), f'mat_set({m}, {i.t}, {j.t}, {x.t})')
                tr.drive(It('range', lo='0usize', hi=nr, ty='usize'), inner)
            tr.drive(It('range', lo='0usize', hi=nc, ty='usize'), outer)
            return R(m, 'Mat')
        n = tr.stable(rv(a[0]))
        it = It('map', it=It('range', lo='0usize', hi=n, ty='usize'), f=PyClo(lambda t, v: t.call_v(a[1], [v[0], R('0usize', 'usize')])))
        return tr.collect(it)
    if name in ('nrows', 'len', 'ncols', 'shape'):
        r = rv(A()[0])
        if r.ty.startswith('Sq'):
            if name in ('nrows', 'len'): return let(f'sq_len({r.t})', 'usize')
            if name == 'ncols': return R('1usize', 'usize')
        else:
            if name == 'nrows': return let(f'mat_nrows({r.t})', 'usize')
            if name == 'ncols': return let(f'mat_ncols({r.t})', 'usize')
            if name == 'shape': return let(f'(mat_nrows({r.t}), mat_ncols({r.t}))', '(usize, usize)')
            if name == 'len': return let(f'usize_mul(mat_nrows({r.t}), mat_ncols({r.t}))', 'usize')
        raise Unsupported('nalgebra ' + name)
    if name == 'is_empty':
        r = rv(A()[0])
        if r.ty.startswith('Sq'): return R(f"({let(f'sq_len({r.t})', 'usize').t} == 0)", 'bool')
        return R(f"({let(f'mat_nrows({r.t})', 'usize').t} == 0 || {let(f'mat_ncols({r.t})', 'usize').t} == 0)", 'bool')
    if name in ('index', 'index_mut'):
        a = A(); i = a[1]
        pt = a[0].p.ty if isinstance(a[0], RefV) else rv(a[0]).ty
        if isinstance(i, (TupV,)) or (isinstance(i, R) and i.ty.startswith('(')):
            if isinstance(i, TupV): x, y = [tr.stable(rv(q)) for q in i.el]
            else: x, y = f'{i.t}.0', f'{i.t}.1'
            if pt.startswith('Sq'):
                tr.emit(f'let _ = index_is_zero({y});')
                if isinstance(a[0], RefV): return RefV(a[0].p.ext(('i', x), el(R('', pt))))
                return let(f'sq_get({rv(a[0]).t}, {x})', el(R('', pt)))
            if isinstance(a[0], RefV): return RefV(a[0].p.ext(('m', x, y), 'Fl'))
            return let(f'mat_get({rv(a[0]).t}, {x}, {y})', 'Fl')
        i = rv(i)
        if pt.startswith('Sq'):
            if name == 'index_mut': return RefV(a[0].p.ext(('i', tr.stable(i)), el(R('', pt))))
            return let(f'sq_get({rv(a[0]).t}, {i.t})', el(R('', pt)))
        if name == 'index_mut': return RefV(a[0].p.ext(('lin', tr.stable(i)), 'Fl'))
        return let(f'mat_get_lin({rv(a[0]).t}, {i.t})', 'Fl')
    if name in ('column_mut', 'row_mut'):
        a = A(); return View_(a[0].p, name[:3], tr.stable(rv(a[1])))
    if name in ('column', 'row'):
        a = A(); m = rv(a[0]); i = rv(a[1])
        if name == 'column': return let(f'mat_column({m.t}, {i.t})', 'Sq<Fl>')
        return let(f'mat_row({m.t}, {i.t})', 'Mat')
    if name in ('set_column', 'set_row'):
        a = A(); m = tr.read(a[0].p); i = rv(a[1]); s = tr.coerce(rv(a[2]), 'Mat')
        tr.write(a[0].p, f"mat_set_{'col' if name == 'set_column' else 'row'}({m.t}, {i.t}, {s.t})"); return UNIT
    if name == 'copy_from':
        a = A(); v = a[0]
        if isinstance(v, RefV) and not isinstance(v.p, P): v = v.p
        s = rv(a[1])
        if isinstance(v, View_):
            s = tr.coerce(s, 'Mat'); m = tr.read(v.place)
            tr.write(v.place, f'mat_set_{v.kind}({m.t}, {v.idx}, {s.t})'); return UNIT
        if isinstance(v, RefV):
            d = tr.read(v.p)
            if d.ty.startswith('Sq'): tr.write(v.p, f'sq_copy_from({d.t}, {s.t})'); return UNIT
        raise Unsupported('copy_from')
    if name == 'abs':
        r = rv(A()[0]); return let(f"{'vec' if r.ty.startswith('Sq') else 'mat'}_abs({r.t})", r.ty)
    if name in ('component_mul',):
        a = [rv(x) for x in A()]; return let(f'vec_cmul({a[0].t}, {a[1].t})', a[0].ty)
    if name == 'transpose': r = rv(A()[0]); return let(f'mat_transpose({r.t})', 'Mat')
    if name == 'dot': a = [rv(x) for x in A()]; return let(f'vec_dot({a[0].t}, {a[1].t})', 'Fl')
    if name == 'map':
        a = A(); r = rv(a[0])
        if r.ty.startswith('Sq'):
            return tr.collect(It('map', it=It('seq', t=tr.stable(r), ty=el(r)), f=a[1]))
        raise Unsupported('matrix map')
    if name == 'iter' or name == 'into_iter':
        r = A()[0]
        if isinstance(r, It): return r
        r = rv(r)
        if r.ty.startswith('Sq'): return It('seq', t=tr.stable(r), ty=el(r))
        raise Unsupported('matrix iter')
    if name == 'iter_mut':
        v = A()[0]
        if isinstance(v, RefV) and v.p.ty.startswith('Sq'): return It('seqmut', place=v.p, ty=el(R('', v.p.ty)))
        raise Unsupported('matrix iter_mut')
    if name in ('from_iterator', 'from_row_slice', 'from_column_slice', 'from_slice'):
        a = A()
        if rty.startswith('Sq'):
            if name == 'from_iterator':
                r = tr.collect(tr.itv(a[1]))
                return let(f'sq_from_iter({rv(a[0]).t}, {r.t})', rty)
            return rv(a[-1])
    return None


def iters(tr, e, p, name, A, rty):
    cx, rv, let = tr.cx, tr.rv, tr.let
    par = 'rayon' in p
    if name in ('into_iter', 'into_par_iter', 'par_iter', 'iter'):
        v = A()[0]
        if isinstance(v, It): return v
        if isinstance(v, RefV) and not isinstance(v.p, P): return v.p
        return tr.to_iter(v)
    if name == 'new' and 'RangeInclusive' in p:
        a = [rv(x) for x in A()]
        if a[0].ty != 'usize': raise Unsupported(p)
        return It('rangei', lo=tr.stable(a[0]), hi=tr.stable(a[1]), ty='usize')
    if name == 'from_fn' and 'iter' in p: return It('from_fn', f=A()[0])
    if name == 'once': return It('once', v=A()[0])
    if name == 'repeat' or name == 'empty': raise Unsupported(p)
    if name in ('map', 'filter', 'filter_map', 'flat_map'):
        a = A(); return It(name, it=tr.itv(a[0]), f=a[1], par=par)
    if name in ('enumerate', 'rev', 'fuse', 'peekable', 'by_ref'):
        a = A()
        if name in ('fuse',): return tr.itv(a[0])
        if name == 'peekable': raise Unsupported(name)
        return It(name, it=tr.itv(a[0]))
    if name in ('take', 'skip'):
        a = A(); return It(name, it=tr.itv(a[0]), n=tr.stable(rv(a[1])))
    if name == 'step_by':
        a = A(); k = let(rv(a[1]).t, 'usize');
        return It('step', it=tr.itv(a[0]), n=k.t)
    if name == 'take_while':
        a = A(); return It(name, it=tr.itv(a[0]), f=a[1])
    if name in ('zip', 'chain'):
        a = A(); return It(name, a=tr.itv(a[0]), b=tr.itv(a[1]))
    if name == 'with_max_len' or name == 'with_min_len': return A()[0]
    if name == 'collect':
        it = tr.itv(A()[0])
        return tr.collect(it)
    if name == 'next':
        a = A(); v = a[0]
        if isinstance(v, RefV): v = v.p
        if isinstance(v, It) and v.kind == 'from_fn': return tr.call_v(v.f, [])
        raise Unsupported('next on stored iterator')
    if name == 'count':
        it = tr.itv(A()[0])
        n = tr.tmp('c'); tr.emit(f'let mut {n}: usize = 0;'); tr.scope.append((n, 'usize'))
        tr.drive(it, lambda v: (tr.emit(f'{n} = usize_add({n}, 1);'), tr.mark_mod(n)))
        return R(n, 'usize')
    if name in ('max', 'min', 'last'):
        it = tr.itv(A()[0])
        n = tr.tmp('x'); pos = len(tr.out)
        tr.emit('')
        tr.scope.append((n, 'Option<usize>'))
        def item(v):
            r = rv(v)
            if name == 'last': tr.emit(f'{n} = Some({r.t});')
            else:
                if r.ty not in INTS: raise Unsupported(name + ' of ' + r.ty)
                tr.emit(f'{n} = opt_{name}_{r.ty}({n}, {r.t});')
            tr.mark_mod(n); item.ty = r.ty
        tr.drive(it, item)
        tr.out[pos] = f'let mut {n}: Option<{item.ty}> = None;'
        return R(n, f'Option<{item.ty}>')
    if name == 'nth':
        a = A(); it = tr.collect(tr.itv(a[0])); return let(f'sq_get_opt({it.t}, {rv(a[1]).t})', f'Option<{el(it)}>')
    if name == 'unzip':
        it = tr.itv(A()[0])
        x, y = tr.tmp('u'), tr.tmp('u')
        pos = len(tr.out); tr.emit(''); tys = [None, None]
        sc = len(tr.scope); tr.scope += [(x, '?'), (y, '?')]
        def item(v):
            if isinstance(v, R) and v.ty.startswith('('):
                ts = tup_elems(v.ty); v = TupV([R(f'{v.t}.0', ts[0]), R(f'{v.t}.1', ts[1])])
            l, r = rv(v.el[0]), rv(v.el[1])
            tys[0], tys[1] = l.ty, r.ty
            tr.emit(f'{x} = sq_push({x}, {l.t});'); tr.emit(f'{y} = sq_push({y}, {r.t});')
            tr.mark_mod(x); tr.mark_mod(y)
        for lp in (): pass
        nl = len(tr.loops)
        tr.drive(it, item)
        tr.out[pos] = f'let mut {x}: Sq<{tys[0]}> = sq_new::<{tys[0]}>(); let mut {y}: Sq<{tys[1]}> = sq_new::<{tys[1]}>();'
        fx = {x: f'Sq<{tys[0]}>', y: f'Sq<{tys[1]}>'}
        tr.scope = [(n, fx.get(n, t)) for n, t in tr.scope]
        for lp in tr.loops[nl:]:
            lp.scope = [(n, fx.get(n, t)) for n, t in lp.scope]; lp.mod = [(n, fx.get(n, t)) for n, t in lp.mod]
        return TupV([R(x, fx[x]), R(y, fx[y])])
    if name == 'for_each':
        a = A(); tr.drive(tr.itv(a[0]), lambda v: tr.call_v(a[1], [tr.flat(v)])); return UNIT
    if name in ('fold',):
        a = A(); it = tr.itv(a[0]); init = rv(a[1])
        n = tr.tmp('f'); tr.emit(f'let mut {n}: {init.ty} = {init.t};'); tr.scope.append((n, init.ty))
        def item(v):
            r = rv(tr.call_v(a[2], [R(tr.stable(R(n, init.ty)), init.ty), tr.flat(v)])); tr.emit(f'{n} = {r.t};'); tr.mark_mod(n)
        tr.drive(it, item); return R(n, init.ty)
    if name in ('any', 'all', 'find', 'position', 'find_map'):
        # the closure runs only until the answer is known
        a = A(); n = tr.tmp('q'); opt = name not in ('any', 'all')
        v0 = a[0]
        if isinstance(v0, RefV) and isinstance(v0.p, It): v0 = v0.p
        pos = len(tr.out); tr.emit(''); ty = {'any': 'bool', 'all': 'bool', 'position': 'Option<usize>'}.get(name, '?')
        tr.scope.append((n, ty)); c = None; found = [ty]
        if name == 'position':
            c = tr.tmp('c'); tr.emit(f'let mut {c}: usize = 0;'); tr.scope.append((c, 'usize'))
        go = f'!opt_is_some({n})' if opt else n if name == 'all' else f'!{n}'
        nl = len(tr.loops)
        def item(v):
            def body():
                x = tr.flat(v)
                if name == 'find': x = rv(x); x = R(tr.stable(x), x.ty); found[0] = f'Option<{x.ty}>'
                r = rv(tr.call_v(a[1], [x]))
                if name == 'find_map': found[0] = r.ty; tr.emit(f'{n} = {r.t};')
                elif name == 'find': tr.emit(f'if {r.t} {{ {n} = Some({x.t}); }}')
                elif name == 'position': tr.emit(f'if {r.t} {{ {n} = Some({c}); }} else {{ {c} = usize_add({c}, 1usize); }}'); tr.mark_mod(c)
                else: tr.emit(f'{n} = {r.t};')
            lines, _ = tr.sub(body)
            tr.emit(f'if {go} {{'); tr.out += lines; tr.emit('}'); tr.mark_mod(n)
        tr.drive(tr.itv(v0), item)
        init = 'None' if opt else 'false' if name == 'any' else 'true'
        tr.out[pos] = f'let mut {n}: {found[0]} = {init};'
        fix = lambda l: [(m, found[0] if m == n else t) for m, t in l]
        tr.scope = fix(tr.scope)
        for lp in tr.loops[nl:]: lp.scope, lp.mod = fix(lp.scope), fix(lp.mod)
        return R(n, found[0])
    if name == 'reduce' and par:
        a = A()
        return reduce_par(tr, tr.itv(a[0]), a[1], a[2])
    if name in ('sum', 'product'):
        it = tr.itv(A()[0]); n = tr.tmp('f'); pos = len(tr.out); tr.emit(''); tr.scope.append((n, rty))
        if rty == 'Fl': tr.emit(f'let mut {n}: Fl = ' + ('fl_neg(lit_0_1())' if name == 'sum' else 'lit_1_1()') + ';')
        elif rty in INTS: tr.emit(f"let mut {n}: {rty} = {0 if name == 'sum' else 1};")
        else: raise Unsupported(name)
        def item(v):
            r = rv(tr.flat(v))
            if r.ty != rty: raise Unsupported(name + ' of ' + r.ty)
            f = ('fl_' if rty == 'Fl' else rty + '_') + ('add' if name == 'sum' else 'mul')
            tr.emit(f'{n} = {f}({n}, {r.t});'); tr.mark_mod(n)
        tr.drive(it, item); return R(n, rty)
    return None


def reduce_par(tr, it, ident, op):
    """rayon reduce: any bracketing of the items' values, with any number of
    identities inserted.  Encoded as three obligations over the predicate
    covers_* of the contract (identity, single item, combination) followed by
    a havocked result that satisfies the predicate for the whole range."""
    con = tr.cx.contracts.get(tr.path, {})
    cov = con.get('reduce')
    if cov: cov = cov.replace('$a', 'a')
    if not cov: raise Unsupported('reduce without a covering predicate')
    rv = tr.rv
    ix = tr.try_index(it)
    if ix is None: raise Unsupported('reduce over a filtered iterator')
    n, get, _ = ix
    tr.ntmp += 1; q = tr.ntmp
    # leaf obligation, for an arbitrary position
    k = f'k{q}'
    def leaf():
        tr.emit(f'let {k}: usize = any_below({n});'); tr.scope.append((k, 'usize'))
        v = rv(tr.flat(get(k)))
        tr.emit(f"assert({cov.format(v=v.t, lo=k + ' as int', hi=k + ' + 1')}); // reduce: single item")
        return v
    lines, v = tr.sub(leaf)
    ty = v.ty
    tr.emit(f'if any_val::<bool>() && {n} > 0 {{'); tr.out += lines; tr.emit('end_of_branch(); }')
    # identity
    z = tr.tmp()
    if isinstance(ident, FnV) and 'Vec' in str(ident.e.get('path', ident.e)) and ty.startswith('Sq<'): tr.emit(f'let {z}: {ty} = sq_new::<{el(v)}>();')
    else:
        i = rv(tr.call_v(ident, []))
        tr.emit(f'let {z}: {ty} = {i.t};')
    tr.emit(f"assert({cov.format(v=z, lo='any_point()', hi='any_point()')}); // reduce: identity")
    # combination
    x, y = tr.tmp('x'), tr.tmp('y'); lo, mi, hi = tr.tmp('g'), tr.tmp('g'), tr.tmp('g')
    def comb():
        tr.emit(f'let ({lo}, {mi}, {hi}): (usize, usize, usize) = any_range3({n});')
        tr.emit(f'let {x}: {ty} = any_val(); let {y}: {ty} = any_val();')
        cl, cr = cov.format(v=x, lo=lo + ' as int', hi=mi + ' as int'), cov.format(v=y, lo=mi + ' as int', hi=hi + ' as int')
        tr.emit(f'if any_val::<bool>() {{')
        tr.emit(f'proof {{ assume({cl} && {cr}); }}')
        def inner():
            r = rv(tr.call_v(op, [R(x, ty), R(y, ty)]))
            r = R(tr.stable(r), r.ty)
            if con.get('reduce_proof'): tr.emit('proof { ' + con['reduce_proof'].format(r=r.t, x=x, y=y, lo=lo, mi=mi, hi=hi) + ' }')
            tr.emit(f"assert({cov.format(v=r.t, lo=lo + ' as int', hi=hi + ' as int')}); // reduce: combination")
        l2, _ = tr.sub(inner); tr.out += l2
        tr.emit('end_of_branch(); }')
    l3, _ = tr.sub(comb)
    tr.emit('{'); tr.out += l3; tr.emit('}')
    if 'w' in tr.modified: tr.emit('w = any_val();'); tr.mark_mod('w')
    res = tr.tmp()
    tr.emit(f'let {res}: {ty} = any_val();')
    tr.emit(f"proof {{ assume({cov.format(v=res, lo='0', hi=n + ' as int')}); }} // reduce: rayon")
    tr.scope.append((res, ty))
    return R(res, ty)


def world(tr, e, p, rp, name, A):
    cx, rv, let = tr.cx, tr.rv, tr.let
    if p == 'std::sync::Mutex::<T>::lock':
        v = A()[0]
        if isinstance(v, Static):
            g = tr.tmp('g')
            tr.emit(f'w = w_lock_map(w);'); tr.mark_mod('w')
            tr.emit(f'let mut {g}: RegMap = w_map(w);'); tr.scope.append((g, 'RegMap'))
            gd = Guard(P(g, 'RegMap'), None, 'map')
        else:
            h = rv(v)
            if h.ty != 'Hd': raise Unsupported('lock of ' + h.ty)
            h = tr.stable(h)
            g = tr.tmp('g')
            cx.use_adt('acontext::AContextInner', [], {})
            tr.emit(f'w = w_lock(w, {h});'); tr.mark_mod('w')
            tr.emit(f'let mut {g}: AContextInner = w_inner(w, {h});'); tr.scope.append((g, 'AContextInner'))
            gd = Guard(P(g, 'AContextInner'), h, 'ctx')
        tr.stmt_guards[-1].append(gd)
        return gd
    if 'MutexGuard' in (p + (rp or '')) and name in ('deref', 'deref_mut'):
        v = A()[0]
        if isinstance(v, RefV): v = v.p
        if isinstance(v, Guard):
            return RefV(v.place) if name == 'deref_mut' else tr.read(v.place)
        raise Unsupported('guard deref')
    if rp and 'CONTEXT_MAP' in rp and name == 'deref': return A()[0]
    if p.startswith('std::sync::Arc') and name == 'new':
        v = rv(A()[0])
        if v.ty != 'AContextInner': raise Unsupported('Arc::new of ' + v.ty)
        t = tr.tmp(); tr.emit(f'let {t} = w_alloc(w, {v.t});'); tr.emit(f'w = {t}.1;'); tr.mark_mod('w')
        tr.scope.append((f'{t}.0', 'Hd'))
        return R(f'{t}.0', 'Hd')
    if p.startswith('std::sync::Mutex') and name == 'new': return A()[0]
    if p.startswith('std::sync::Arc') and name == 'downgrade': return let(f'hd_downgrade({rv(A()[0]).t})', 'Wk')
    if p.startswith('std::sync::Weak') and name == 'upgrade':
        v = rv(A()[0])
        return let(f'w_upgrade(w, {v.t})', 'Option<Hd>')
    if name == 'fetch_add' and 'atomic' in p:
        n = tr.ex(e['args'][1])
        t = tr.tmp(); tr.emit(f'let {t} = w_fetch_add(w, {rv(n).t});'); tr.emit(f'w = {t}.1;'); tr.mark_mod('w')
        return R(f'{t}.0', 'usize')
    if 'HashMap' in p:
        a = A()
        m = a[0]
        if name == 'get':
            return let(f'map_get({rv(m).t}, {rv(a[1]).t})', 'Option<Wk>')
        if name == 'contains_key': return let(f'map_has({rv(m).t}, {rv(a[1]).t})', 'bool')
        if isinstance(m, RefV):
            c = tr.read(m.p)
            if name == 'insert': tr.write(m.p, f'map_insert({c.t}, {rv(a[1]).t}, {rv(a[2]).t})'); return UNIT
            if name == 'remove': tr.write(m.p, f'map_remove({c.t}, {rv(a[1]).t})'); return UNIT
        raise Unsupported(p)
    return None
