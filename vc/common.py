"""Specification text shared by the properties."""

WORLD_LIGHT = '''
// ---- locks and the registry, nothing known about their contents
#[verifier::external_body] #[derive(Clone, Copy)] pub struct World { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Hd { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Wk { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct RegMap { x: u8 }
#[verifier::external_body] pub fn w_lock(w: World, h: Hd) -> World { unimplemented!() }
#[verifier::external_body] pub fn w_unlock(w: World, h: Hd, i: AContextInner) -> World { unimplemented!() }
#[verifier::external_body] pub fn w_inner(w: World, h: Hd) -> AContextInner { unimplemented!() }
#[verifier::external_body] pub fn w_lock_map(w: World) -> World { unimplemented!() }
#[verifier::external_body] pub fn w_unlock_map(w: World, m: RegMap) -> World { unimplemented!() }
#[verifier::external_body] pub fn w_map(w: World) -> RegMap { unimplemented!() }
#[verifier::external_body] pub fn w_alloc(w: World, i: AContextInner) -> (Hd, World) { unimplemented!() }
#[verifier::external_body] pub fn w_upgrade(w: World, h: Wk) -> Option<Hd> { unimplemented!() }
#[verifier::external_body] pub fn w_fetch_add(w: World, n: usize) -> (usize, World) { unimplemented!() }
#[verifier::external_body] pub fn hd_downgrade(h: Hd) -> Wk { unimplemented!() }
#[verifier::external_body] pub fn map_get(m: RegMap, k: usize) -> Option<Wk> { unimplemented!() }
#[verifier::external_body] pub fn map_has(m: RegMap, k: usize) -> bool { unimplemented!() }
#[verifier::external_body] pub fn map_insert(m: RegMap, k: usize, h: Wk) -> RegMap { unimplemented!() }
#[verifier::external_body] pub fn map_remove(m: RegMap, k: usize) -> RegMap { unimplemented!() }
'''

UN = ['Sin', 'Cos', 'Tan', 'Abs', 'Exp', 'Ln', 'Asin', 'Acos', 'Atan']
BIN = ['Add', 'Sub', 'Mul', 'Div', 'Powf']

OPS = '''
// ---- meaning of the operation codes
pub open spec fn is_bin(o: OpCode) -> bool { o == OpCode::Add || o == OpCode::Sub || o == OpCode::Mul || o == OpCode::Div || o == OpCode::Powf }
pub open spec fn is_un(o: OpCode) -> bool { ''' + ' || '.join(f'o == OpCode::{u}' for u in UN) + ''' }
pub open spec fn op_ok<X>(o: OpCode, b: Option<X>) -> bool { is_un(o) || (is_bin(o) && b is Some) }
pub open spec fn un_val(o: OpCode, a: Fl) -> Fl { match o { ''' + ', '.join(f'OpCode::{u} => s_{u.lower()}(a)' for u in UN) + ''', _ => a } }
pub open spec fn bin_val(o: OpCode, a: Fl, b: Fl) -> Fl { match o { ''' + ', '.join(f'OpCode::{u} => s_{u.lower()}(a, b)' for u in BIN) + ''', _ => a } }
pub open spec fn op_val(o: OpCode, a: Fl, b: Option<Fl>) -> Fl { if is_bin(o) { bin_val(o, a, b->0) } else { un_val(o, a) } }
'''

AFL = '''
// the result records where one of the operands records
pub open spec fn same_ctx(r: AFloat, a: AFloat) -> bool { r.ctx is Some && a.ctx is Some && (r.ctx->0).0 == (a.ctx->0).0 }
pub open spec fn ctx1(r: AFloat, a: AFloat) -> bool { r.ctx is Some ==> same_ctx(r, a) }
pub open spec fn ctx2(r: AFloat, a: AFloat, b: AFloat) -> bool { r.ctx is Some ==> same_ctx(r, a) || same_ctx(r, b) }
pub open spec fn ctxo(r: AFloat, a: AFloat, b: Option<AFloat>) -> bool { r.ctx is Some ==> same_ctx(r, a) || (b is Some && same_ctx(r, b->0)) }
pub open spec fn ctx_ok(a: AFloat, b: AFloat) -> bool { a.ctx is Some && b.ctx is Some ==> (a.ctx->0).0 == (b.ctx->0).0 }
pub open spec fn vo(b: Option<AFloat>) -> Option<Fl> { match b { Some(x) => Some(x.v), None => None } }
pub open spec fn dvo(b: Option<AFloat>) -> Option<Fl> { match b { Some(x) => Some(x.dv), None => None } }
'''

ADTS = ['operation::OpCode', 'operation::Operation', 'afloat::AFloat']
AF = '<afloat::AFloat<S> as '

def aop(op, rhs='S'):
    """path of an operator impl; rhs: 'A' active, 'F' f64 right, 'L' f64 left"""
    m = op.lower()
    if rhs == 'A': return f'{AF}std::ops::{op}>::{m}'
    if rhs == 'F': return f'{AF}std::ops::{op}<f64>>::{m}'
    return f'afloat::<impl std::ops::{op}<afloat::AFloat<S>> for f64>::{m}'

def aassign(op, rhs):
    m = op.lower() + '_assign'
    return f'{AF}std::ops::{op}Assign' + ('' if rhs == 'A' else '<f64>') + f'>::{m}'

def fl(m): return f'{AF}num::Float>::{m}'

# ---- derivatives, over the reals
DERIV = '''
// ---- axioms on the elementary functions that definedness needs
pub broadcast axiom fn ax_sqrt_pos(x: real) requires x > 0real ensures #[trigger] r_sqrt(x) > 0real;
pub broadcast axiom fn ax_pow0(x: real) ensures #[trigger] r_pow(x, 0real) == 1real;
// ---- partial derivatives of the operations: the calculus table
pub open spec fn p_un(o: OpCode, x: real) -> real { match o {
  OpCode::Sin => r_cos(x), OpCode::Cos => -r_sin(x), OpCode::Tan => 1real / (r_cos(x) * r_cos(x)), OpCode::Exp => r_exp(x), OpCode::Ln => 1real / x,
  OpCode::Asin => 1real / r_sqrt(1real - x * x), OpCode::Acos => -(1real / r_sqrt(1real - x * x)), OpCode::Atan => 1real / (1real + x * x),
  _ => 0real } }
pub open spec fn p_b1(o: OpCode, x: real, y: real) -> real { match o {
  OpCode::Add => 1real, OpCode::Sub => 1real, OpCode::Mul => y, OpCode::Div => 1real / y, OpCode::Powf => if y == 0real { 0real } else { y * r_pow(x, y - 1real) }, _ => 0real } }
pub open spec fn p_b2(o: OpCode, x: real, y: real) -> real { match o {
  OpCode::Add => 1real, OpCode::Sub => -1real, OpCode::Mul => x, OpCode::Div => -(x / (y * y)), OpCode::Powf => if x == 0real { 0real } else { r_ln(x) * r_pow(x, y) }, _ => 0real } }
// where the operation is differentiable; an operand with zero derivative counts as a constant
pub open spec fn dom_un(o: OpCode, x: real) -> bool { match o {
  OpCode::Sin => true, OpCode::Cos => true, OpCode::Exp => true, OpCode::Atan => true, OpCode::Abs => true,
  OpCode::Tan => r_cos(x) != 0real, OpCode::Ln => x > 0real, OpCode::Asin => -1real < x && x < 1real, OpCode::Acos => -1real < x && x < 1real, _ => false } }
pub open spec fn dom_pow(x: real, y: real, dx: real, dy: real) -> bool {
  x > 0real
  || (x == 0real && y == 0real && dy == 0real)
  || (x == 0real && y > 0real && (dx == 0real || y >= 1real))
  || (x < 0real && is_int(y) && dy == 0real) }
pub open spec fn dom_bin(o: OpCode, x: real, y: real, dx: real, dy: real) -> bool { match o {
  OpCode::Add => true, OpCode::Sub => true, OpCode::Mul => true, OpCode::Div => y != 0real, OpCode::Powf => dom_pow(x, y, dx, dy), _ => false } }
pub open spec fn d_un(o: OpCode, x: real, dx: real) -> real { if o == OpCode::Abs { r_abs(x + dx) - r_abs(x) } else { p_un(o, x) * dx } }
pub open spec fn d_bin(o: OpCode, x: real, y: real, dx: real, dy: real) -> real { p_b1(o, x, y) * dx + p_b2(o, x, y) * dy }
pub open spec fn okv(a: Fl) -> bool { a.ok }
pub open spec fn is_v(a: Fl, x: real) -> bool { a.ok && a.v == x }
// the derivative part of an operation on (x, dx), (y, dy)
pub open spec fn dom(o: OpCode, x: real, dx: real, y: Option<real>, dy: Option<real>) -> bool { if is_bin(o) { dom_bin(o, x, y->0, dx, dy->0) } else { dom_un(o, x) } }
pub open spec fn d_val(o: OpCode, x: real, dx: real, y: Option<real>, dy: Option<real>) -> real { if is_bin(o) { d_bin(o, x, y->0, dx, dy->0) } else { d_un(o, x, dx) } }
pub open spec fn ro(b: Option<Fl>) -> Option<real> { match b { Some(x) => Some(x.v), None => None } }
pub open spec fn oko(b: Option<Fl>) -> bool { b is Some ==> (b->0).ok }
pub open spec fn rvo(b: Option<AFloat>) -> Option<real> { match b { Some(x) => Some(x.v.v), None => None } }
pub open spec fn rdo(b: Option<AFloat>) -> Option<real> { match b { Some(x) => Some(x.dv.v), None => None } }
pub open spec fn aok(a: AFloat) -> bool { a.v.ok && a.dv.ok }
pub open spec fn aoko(b: Option<AFloat>) -> bool { b is Some ==> aok(b->0) }
// ---- nonlinear facts
pub proof fn l_int_pred(y: real) requires is_int(y) ensures is_int(y - 1real) { let k = choose|k: int| y == #[trigger] rint(k); assert(rint(k - 1) == y - 1real); }
pub broadcast proof fn l_is_int_pred(y: real) requires is_int(y) ensures #[trigger] is_int(y - 1real) { l_int_pred(y); }
pub proof fn l_div_def(a: real, b: real) requires b != 0real ensures (a / b) * b == a { assert((a / b) * b == a) by (nonlinear_arith) requires b != 0real; }
pub proof fn l_div_unique(a: real, b: real, q: real) requires b != 0real, q * b == a ensures a / b == q { assert(a / b == q) by (nonlinear_arith) requires b != 0real, q * b == a; }
pub proof fn l_sq_pos(a: real) ensures a * a >= 0real, a != 0real ==> a * a > 0real { assert(a * a >= 0real && (a != 0real ==> a * a > 0real)) by (nonlinear_arith); }
pub proof fn l_rdist(a: real, b: real, c: real) ensures (a - b) * c == a * c - b * c, (a + b) * c == a * c + b * c { assert((a - b) * c == a * c - b * c && (a + b) * c == a * c + b * c) by (nonlinear_arith); }
pub proof fn l_quot(x: real, y: real, dx: real, dy: real) requires y != 0real
  ensures y * y != 0real, (dx * y - x * dy) / (y * y) == (1real / y) * dx + (-(x / (y * y))) * dy
{ l_sq_pos(y); let q = 1real / y; assert(q * y == 1real) by { l_div_def(1real, y); }
  let s = x / (y * y); assert(s * (y * y) == x) by { l_div_def(x, y * y); }
  let w = y * y;
  assert((q * dx - s * dy) * w == (q * dx) * w - (s * dy) * w) by { l_rdist(q * dx, s * dy, w); }
  assert((q * dx) * w == dx * y) by { l_mul3(q, dx, w); l_comm(dx, w); l_mul3(q, w, dx); l_mul3(q, y, y); l_one(y); l_comm(dx, y); }
  assert((s * dy) * w == x * dy) by { l_mul3(s, dy, w); }
  l_div_unique(dx * y - x * dy, y * y, q * dx - s * dy); assert((-s) * dy == -(s * dy)) by (nonlinear_arith); }
pub proof fn l_mul_div(a: real, b: real) requires b != 0real ensures a / b == (1real / b) * a, (-a) / b == (-(1real / b)) * a
{ l_div_def(1real, b); let q = 1real / b; l_one(a); l_one(-a); assert((q * a) * b == a) by { l_mul3(q, a, b); }  l_div_unique(a, b, q * a);
  assert(((-q) * a) * b == -a) by { l_negmul(q, a); l_negmul(q * a, b); } l_div_unique(-a, b, (-q) * a); }
pub proof fn l_one(a: real) ensures 1real * a == a, (-1real) * a == -a, (0real - 1real) * a == -a { assert(1real * a == a && (-1real) * a == -a && (0real - 1real) * a == -a) by (nonlinear_arith); }
pub proof fn l_half(a: real) ensures (1real / 2real) * a == a / 2real, a * (1real / 2real) == a / 2real { assert((1real / 2real) * a == a / 2real && a * (1real / 2real) == a / 2real) by (nonlinear_arith); }
pub proof fn l_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn l_mul0(a: real) ensures a * 0real == 0real, 0real * a == 0real { }
pub proof fn l_1mx2(x: real) ensures (-1real < x && x < 1real) ==> 1real - x * x > 0real { if -1real < x && x < 1real { assert(1real - x * x > 0real) by (nonlinear_arith) requires -1real < x, x < 1real; } }
pub proof fn l_negmul(a: real, b: real) ensures (-a) * b == -(a * b), a * (-b) == -(a * b) { assert((-a) * b == -(a * b) && a * (-b) == -(a * b)) by (nonlinear_arith); }
pub proof fn l_mul3(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c), (a * b) * c == (a * c) * b { assert((a * b) * c == a * (b * c) && (a * b) * c == (a * c) * b) by (nonlinear_arith); }
// products with simple constants
pub proof fn l_consts(a: real, b: real) ensures a == 0real ==> a * b == 0real, a == 1real ==> a * b == b, a == -1real ==> a * b == -b, a == 1real / 2real ==> a * b == b / 2real, a == 2real ==> a * b == b + b,
  b == 0real ==> a * b == 0real, b == 1real ==> a * b == a, b == -1real ==> a * b == -a, b == 1real / 2real ==> a * b == a / 2real, b == 2real ==> a * b == a + a, a * b == b * a
{ l_one(a); l_one(b); l_half(a); l_half(b); l_comm(a, b);
  assert(a == 2real ==> a * b == b + b) by (nonlinear_arith); assert(b == 2real ==> a * b == a + a) by (nonlinear_arith); }
pub broadcast proof fn b_mul(a: Fl, b: Fl) ensures a.v == 0real ==> (#[trigger] s_mul(a, b)).v == 0real, a.v == 1real ==> s_mul(a, b).v == b.v, a.v == -1real ==> s_mul(a, b).v == -b.v,
  a.v == 1real / 2real ==> s_mul(a, b).v == b.v / 2real, a.v == 2real ==> s_mul(a, b).v == b.v + b.v,
  b.v == 1real / 2real ==> s_mul(a, b).v == a.v / 2real, b.v == -1real ==> s_mul(a, b).v == -a.v, s_mul(a, b).v == b.v * a.v { l_consts(a.v, b.v); }
pub broadcast proof fn b_dbin(o: OpCode, x: real, y: real, dx: real, dy: real) ensures
  o == OpCode::Add ==> #[trigger] d_bin(o, x, y, dx, dy) == dx + dy, o == OpCode::Sub ==> d_bin(o, x, y, dx, dy) == dx - dy,
  o == OpCode::Mul && dx == 0real ==> d_bin(o, x, y, dx, dy) == x * dy, o == OpCode::Mul && dy == 0real ==> d_bin(o, x, y, dx, dy) == y * dx,
  o == OpCode::Mul && x == -1real && dx == 0real ==> d_bin(o, x, y, dx, dy) == -dy, o == OpCode::Mul && y == -1real && dy == 0real ==> d_bin(o, x, y, dx, dy) == -dx,
  o == OpCode::Mul && x == 1real / 2real && dx == 0real ==> d_bin(o, x, y, dx, dy) == dy / 2real, o == OpCode::Mul && y == 1real / 2real && dy == 0real ==> d_bin(o, x, y, dx, dy) == dx / 2real,
  o == OpCode::Mul ==> d_bin(o, x, y, dx, dy) == y * dx + x * dy,
  o == OpCode::Div && y == 2real && dy == 0real ==> d_bin(o, x, y, dx, dy) == dx / 2real,
{ l_consts(x, dy); l_consts(y, dx); l_one(dx); l_one(dy); if o == OpCode::Div && y == 2real { l_half(dx); assert(d_bin(o, x, y, dx, dy) == (1real / 2real) * dx + (-(x / (y * y))) * dy); l_consts(-(x / (y * y)), dy); } }
// every fact the derivative formulas need about one operation
pub proof fn l_op(o: OpCode, x: real, dx: real, y: real, dy: real)
  ensures
    is_bin(o) && o == OpCode::Div && y != 0real ==> y * y != 0real && (dx * y - x * dy) / (y * y) == d_bin(o, x, y, dx, dy),
    o == OpCode::Mul ==> dx * y + x * dy == d_bin(o, x, y, dx, dy),
    o == OpCode::Add ==> dx + dy == d_bin(o, x, y, dx, dy),
    o == OpCode::Sub ==> dx - dy == d_bin(o, x, y, dx, dy),
    o == OpCode::Powf && is_int(y) ==> is_int(y - 1real),
    is_bin(o) && dx == 0real ==> d_bin(o, x, y, dx, dy) == p_b2(o, x, y) * dy, is_bin(o) && dy == 0real ==> d_bin(o, x, y, dx, dy) == p_b1(o, x, y) * dx,
    p_b1(o, x, y) * 0real == 0real, p_b2(o, x, y) * 0real == 0real,
    o == OpCode::Sin || o == OpCode::Exp ==> dx * p_un(o, x) == d_un(o, x, dx),
    o == OpCode::Cos ==> (-dx) * r_sin(x) == d_un(o, x, dx),
    o == OpCode::Tan && r_cos(x) != 0real ==> r_cos(x) * r_cos(x) != 0real && dx * (1real / (r_cos(x) * r_cos(x))) == d_un(o, x, dx),
    o == OpCode::Ln ==> dx * (1real / x) == d_un(o, x, dx),
    (o == OpCode::Asin || o == OpCode::Acos) && -1real < x && x < 1real ==> 1real - x * x > 0real && r_sqrt(1real - x * x) > 0real
        && dx / r_sqrt(1real - x * x) == (1real / r_sqrt(1real - x * x)) * dx && (-dx) / r_sqrt(1real - x * x) == (-(1real / r_sqrt(1real - x * x))) * dx,
    1real + x * x > 0real, o == OpCode::Atan ==> dx / (1real + x * x) == d_un(o, x, dx),
    (y * r_pow(x, y - 1real)) * dx == y * r_pow(x, y - 1real) * dx,
{
  l_one(dx); l_one(dy); l_sq_pos(x); l_mul0(p_b1(o, x, y)); l_mul0(p_b2(o, x, y));
  if o == OpCode::Add { assert(d_bin(o, x, y, dx, dy) == 1real * dx + 1real * dy); }
  else if o == OpCode::Sub { assert(d_bin(o, x, y, dx, dy) == 1real * dx + (-1real) * dy); }
  else if o == OpCode::Mul { l_comm(dx, y); l_comm(x, dy); }
  else if o == OpCode::Div { if y != 0real { l_quot(x, y, dx, dy); } }
  else if o == OpCode::Powf { if is_int(y) { l_int_pred(y); } }
  else if o == OpCode::Sin { l_comm(dx, r_cos(x)); }
  else if o == OpCode::Exp { l_comm(dx, r_exp(x)); }
  else if o == OpCode::Cos { l_negmul(dx, r_sin(x)); l_negmul(r_sin(x), dx); l_comm(dx, r_sin(x)); }
  else if o == OpCode::Tan { l_sq_pos(r_cos(x)); l_comm(dx, 1real / (r_cos(x) * r_cos(x))); }
  else if o == OpCode::Ln { l_comm(dx, 1real / x); }
  else if o == OpCode::Asin || o == OpCode::Acos { l_1mx2(x); if -1real < x && x < 1real { ax_sqrt_pos(1real - x * x); l_mul_div(dx, r_sqrt(1real - x * x)); } }
  else if o == OpCode::Atan { l_mul_div(dx, 1real + x * x); }
}
'''
