from common import *
from p_c02 import spec as c02

AX = '''
pub uninterp spec fn r_cbrt(x: real) -> real;
pub broadcast axiom fn ax_pow_half(x: real) requires x >= 0real ensures #[trigger] r_pow(x, 1real / 2real) == r_sqrt(x);
pub axiom fn ax_pow_mhalf(x: real) requires x > 0real ensures r_pow(x, 1real / 2real - 1real) == 1real / r_sqrt(x);
pub broadcast axiom fn ax_pow_third(x: real) requires x > 0real ensures #[trigger] r_pow(x, 1real / 3real) == r_cbrt(x);
pub axiom fn ax_pow_third1(x: real) requires x > 0real ensures r_pow(x, 1real / 3real - 1real) == 1real / (r_cbrt(x) * r_cbrt(x)), r_cbrt(x) > 0real;
pub axiom fn ax_pow_int(x: real, n: int) requires x != 0real || n >= 0 ensures r_pow(x, n as real) == r_powi(x, n);
pub broadcast axiom fn ax_ln_nz(x: real) requires x > 0real, x != 1real ensures #[trigger] r_ln(x) != 0real;
pub open spec fn is_a(r: AFloat, v: real, d: real) -> bool { is_v(r.v, v) && is_v(r.dv, d) }
pub open spec fn rmax(x: real, y: real) -> real { if x >= y { x } else { y } }
pub open spec fn rmin(x: real, y: real) -> real { if x <= y { x } else { y } }
pub proof fn l_recip(x: real, dx: real) requires x != 0real ensures x * x != 0real, d_bin(OpCode::Div, 1real, x, 0real, dx) == -(dx / (x * x))
{ l_sq_pos(x); l_mul_div(dx, x * x); let q = 1real / (x * x); l_negmul(q, dx); }
pub proof fn l_p5(h: real, q: real, d: real, k: real, s: real) ensures (h * q * d) * (k * s) == ((h * k) * (q * s)) * d { assert((h * q * d) * (k * s) == ((h * k) * (q * s)) * d) by (nonlinear_arith); }
pub proof fn l_sqrt(x: real, dx: real) requires x > 0real ensures p_b1(OpCode::Powf, x, 1real / 2real) * dx + p_b2(OpCode::Powf, x, 1real / 2real) * 0real == dx / (2real * r_sqrt(x))
{ ax_sqrt_pos(x); ax_pow_mhalf(x); let s = r_sqrt(x); let q = 1real / s; l_div_def(1real, s);
  assert(((1real / 2real) * q * dx) * (2real * s) == dx) by { l_p5(1real / 2real, q, dx, 2real, s); l_one(dx); l_one(1real); } assert(2real * s != 0real); l_div_unique(dx, 2real * s, (1real / 2real) * q * dx); }
pub proof fn l_cbrt(x: real, dx: real) requires x > 0real ensures p_b1(OpCode::Powf, x, 1real / 3real) * dx + p_b2(OpCode::Powf, x, 1real / 3real) * 0real == dx / (3real * (r_cbrt(x) * r_cbrt(x)))
{ ax_pow_third1(x); let s = r_cbrt(x) * r_cbrt(x); l_sq_pos(r_cbrt(x)); let q = 1real / s; l_div_def(1real, s);
  assert(((1real / 3real) * q * dx) * (3real * s) == dx) by { l_p5(1real / 3real, q, dx, 3real, s); l_one(dx); l_one(1real); } assert(3real * s != 0real); l_div_unique(dx, 3real * s, (1real / 3real) * q * dx); }
pub proof fn l_powi(x: real, n: int, dx: real) requires x != 0real || n >= 1 || n == 0
  ensures r_pow(x, n as real) == r_powi(x, n), is_int(n as real), p_b1(OpCode::Powf, x, n as real) * dx + p_b2(OpCode::Powf, x, n as real) * 0real == (if n == 0 { 0real } else { n as real * r_powi(x, n - 1) * dx })
{ ax_pow_int(x, n); assert(rint(n) == n as real); if n != 0 { ax_pow_int(x, n - 1); assert((n - 1) as real == n as real - 1real); } }
pub proof fn l_powi2(x: real, dx: real)
  ensures r_pow(x, 2real) == x * x, is_int(2real), p_b1(OpCode::Powf, x, 2real) * dx + p_b2(OpCode::Powf, x, 2real) * 0real == 2real * x * dx
{ l_powi(x, 2, dx); lemma_powi2(x); reveal_with_fuel(r_powi, 2); assert(r_powi(x, 1) == x * 1real); }
pub proof fn l_log(x: real, b: real, dx: real, db: real) requires x > 0real, b > 0real, r_ln(b) != 0real
  ensures r_ln(b) * r_ln(b) != 0real, d_bin(OpCode::Div, r_ln(x), r_ln(b), d_un(OpCode::Ln, x, dx), d_un(OpCode::Ln, b, db)) == ((dx / x) * r_ln(b) - r_ln(x) * (db / b)) / (r_ln(b) * r_ln(b))
{ l_quot(r_ln(x), r_ln(b), dx / x, db / b); l_mul_div(dx, x); l_mul_div(db, b); }
pub proof fn l_logc(x: real, b: real, dx: real) requires x > 0real, b > 0real, r_ln(b) != 0real
  ensures d_bin(OpCode::Div, r_ln(x), r_ln(b), d_un(OpCode::Ln, x, dx), d_un(OpCode::Ln, b, 0real)) == dx / (x * r_ln(b)), x * r_ln(b) != 0real
{ let l = r_ln(b); let q = 1real / l; let p = 1real / x; l_div_def(1real, l); l_div_def(1real, x); assert((1real / b) * 0real == 0real);
  let m = -(r_ln(x) / (l * l)); assert(m * 0real == 0real);
  assert((q * (p * dx)) * (x * l) == dx) by { l_mul3(q, p, dx); l_p5(q, p, dx, l, x); l_comm(x, l); l_one(dx); l_one(1real); }
  assert(x * l != 0real) by (nonlinear_arith) requires x > 0real, l != 0real; l_div_unique(dx, x * l, q * (p * dx)); }
pub proof fn l_hypot(x: real, y: real, dx: real, dy: real) requires x * x + y * y > 0real
  ensures p_b1(OpCode::Powf, x * x + y * y, 1real / 2real) * (2real * x * dx + 2real * y * dy) + p_b2(OpCode::Powf, x * x + y * y, 1real / 2real) * 0real == (x * dx + y * dy) / r_sqrt(x * x + y * y)
{ let h = x * x + y * y; let d = 2real * x * dx + 2real * y * dy; l_sqrt(h, d); ax_sqrt_pos(h); let s = r_sqrt(h); let e = x * dx + y * dy; let q = e / s; l_div_def(e, s);
  assert(d == 2real * e) by { assert(2real * x * dx + 2real * y * dy == 2real * (x * dx + y * dy)) by (nonlinear_arith); }
  assert(q * (2real * s) == d) by { assert(q * (2real * s) == 2real * (q * s)) by (nonlinear_arith); } l_div_unique(d, 2real * s, q); }
'''

def spec():
    b = c02()
    c = b['contracts']
    roots = []
    for p in list(c): c[p]['helper'] = True
    def C(m, req=None, dom='true', v=None, d=None, proof='', path=None, two=False, attrs=()):
        k = dict(ensures=[('value-and-derivative', f'aok($a0) {"&& aok($a1) " if two else ""}&& {dom} ==> is_a($r, {v}, {d})')])
        if req: k['requires'] = [req]
        if proof: k['proof_begin'] = proof
        p = path or fl(m)
        c[p] = k; roots.append(p)
        return k
    x, dx, y, dy = '$a0.v.v', '$a0.dv.v', '$a1.v.v', '$a1.dv.v'
    C('neg', v=f'-{x}', d=f'-{dx}', path=AF + 'std::ops::Neg>::neg')
    k = C('mul_add', v=f'{x} * {y} + $a2.v.v', d=f'{y} * {dx} + {x} * {dy} + $a2.dv.v', two=True)
    k['requires'] = ['ctx_ok($a0, $a1)', 'ctx_ok($a0, $a2)', 'ctx_ok($a1, $a2)']
    k['ensures'] = [('value-and-derivative', f'aok($a0) && aok($a1) && aok($a2) ==> is_a($r, {x} * {y} + $a2.v.v, ({y} * {dx} + {x} * {dy}) + $a2.dv.v)')]
    C('recip', dom=f'{x} != 0real', v=f'1real / {x}', d=f'-({dx} / ({x} * {x}))', proof=f'if {x} != 0real {{ l_recip({x}, {dx}); }}')
    k = C('powi', dom=f'($a1 == 0 || $a1 >= 1 || {x} != 0real)', v=f'r_powi({x}, $a1 as int)', d=f'(if $a1 == 0 {{ 0real }} else {{ $a1 as int as real * r_powi({x}, $a1 - 1) * {dx} }})',
          proof=f'if $a1 == 0 || $a1 >= 1 || {x} != 0real {{ l_powi({x}, $a1 as int, {dx}); }}')
    # two: hypot uses powi with the constant 2
    k['ensures'].append(('square', f'aok($a0) && $a1 == 2 ==> is_a($r, {x} * {x}, 2real * {x} * {dx})'))
    k['proof_begin'] += f' l_powi2({x}, {dx});'
    C('sqrt', dom=f'{x} > 0real', v=f'r_sqrt({x})', d=f'{dx} / (2real * r_sqrt({x}))', proof=f'if {x} > 0real {{ l_sqrt({x}, {dx}); }}')
    c[fl('sqrt')]['ensures'].append(('zero', f'aok($a0) && {x} == 0real ==> is_v($r.v, r_sqrt(0real))'))
    C('exp2', v=f'r_pow(2real, {x})', d=f'r_ln(2real) * r_pow(2real, {x}) * {dx}')
    k = C('log', dom=f'{x} > 0real && {y} > 0real && {y} != 1real', two=True, v=f'r_ln({x}) / r_ln({y})', d=f'(({dx} / {x}) * r_ln({y}) - r_ln({x}) * ({dy} / {y})) / (r_ln({y}) * r_ln({y}))',
          proof=f'if {x} > 0real && {y} > 0real && {y} != 1real {{ ax_ln_nz({y}); l_log({x}, {y}, {dx}, {dy}); l_logc({x}, {y}, {dx}); }}')
    k['requires'] = ['ctx_ok($a0, $a1)']
    k['ensures'].append(('constant-base', f'aok($a0) && aok($a1) && {x} > 0real && {y} > 0real && {y} != 1real && {dy} == 0real ==> is_v($r.dv, {dx} / ({x} * r_ln({y})))'))
    for m, b_ in (('log2', '2real'), ('log10', '10real')):
        C(m, dom=f'{x} > 0real', v=f'r_ln({x}) / r_ln({b_})', d=f'{dx} / ({x} * r_ln({b_}))', proof=f'ax_ln_nz({b_});')
    for m, f in (('max', 'rmax'), ('min', 'rmin')):
        k = C(m, two=True, v=f'{f}({x}, {y})', d=f'{f}({x} + {dx}, {y} + {dy}) - {f}({x}, {y})')
        k['requires'] = ['ctx_ok($a0, $a1)']
    k = C('abs_sub', two=True, v=f'rmax({x} - {y}, 0real)', d=f'rmax({x} - {y} + {dx} - {dy}, 0real) - rmax({x} - {y}, 0real)')
    k['requires'] = ['ctx_ok($a0, $a1)']
    C('cbrt', dom=f'{x} > 0real', v=f'r_cbrt({x})', d=f'{dx} / (3real * (r_cbrt({x}) * r_cbrt({x})))', proof=f'if {x} > 0real {{ l_cbrt({x}, {dx}); }}')
    k = C('hypot', two=True, dom=f'{x} * {x} + {y} * {y} > 0real', v=f'r_sqrt({x} * {x} + {y} * {y})', d=f'({x} * {dx} + {y} * {dy}) / r_sqrt({x} * {x} + {y} * {y})',
          proof=f'if {x} * {x} + {y} * {y} > 0real {{ l_hypot({x}, {y}, {dx}, {dy}); l_sqrt({x} * {x} + {y} * {y}, 2real * {x} * {dx} + 2real * {y} * {dy}); }}')
    k['requires'] = ['ctx_ok($a0, $a1)']
    p = fl('sin_cos')
    c[p] = dict(ensures=[('value-and-derivative', f'aok($a0) ==> is_a($r.0, r_sin({x}), r_cos({x}) * {dx}) && is_a($r.1, r_cos({x}), -(r_sin({x}) * {dx}))')], proof_begin=f'l_negmul(r_sin({x}), {dx});')
    roots.append(p)
    for p in roots:
        n = p.split('::')[-1]
        if n == 'sin_cos': pass
        elif n == 'mul_add': c[p]['ensures'].append(('membership', '$r.ctx is Some ==> same_ctx($r, $a0) || same_ctx($r, $a1) || same_ctx($r, $a2)'))
        elif n in ('log', 'max', 'min', 'hypot', 'abs_sub'): c[p]['ensures'].append(('membership', 'ctx2($r, $a0, $a1)'))
        else: c[p]['ensures'].append(('membership', 'ctx1($r, $a0)'))
    for p in roots: c[p].setdefault('requires', [])
    return dict(b, id='C03', contracts=c, roots=roots, specs=b['specs'] + [AX], broadcast=b['broadcast'] + ['ax_pow_half', 'ax_pow_third', 'ax_ln_nz'])
