"""The Verus prelude: the models of the types and functions outside the crate.

Every exec function is `external_body` and defined by its postcondition, which
is what the assumptions in DESIGN.md list.  Two number models share one API:

  exact : a number is opaque, every operation an uninterpreted function of the
          operands (so equalities proved hold bit for bit, whatever the
          operations round to)
  real  : a number is a real with a flag "no undefined operation happened"; the
          operations are the real ones (machine arithmetic as mathematical)

Two panic disciplines:

  strict  : panics, failed unwraps, out-of-range indices and integer overflow
            are proof obligations (the caller must rule them out)
  lenient : they end the execution (postcondition false); used for claims of
            the form "if it returns then ..." and "this input is rejected"
"""

INTS = ['usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128']

UNARY = ['neg', 'sin', 'cos', 'tan', 'abs', 'exp', 'ln', 'asin', 'acos', 'atan', 'sqrt', 'recip', 'exp2', 'ln_1p', 'exp_m1', 'sinh', 'cosh',
         'tanh', 'asinh', 'acosh', 'atanh', 'cbrt', 'log2', 'log10', 'floor', 'ceil', 'round', 'trunc', 'fract', 'signum']
BINARY = ['add', 'sub', 'mul', 'div', 'rem', 'powf', 'log', 'max', 'min', 'hypot', 'atan2', 'abs_sub']
PREDS = ['is_nan', 'is_infinite', 'is_finite', 'is_normal', 'is_sign_positive', 'is_sign_negative']
CONSTS = ['nan', 'infinity', 'neg_infinity', 'neg_zero', 'min_value', 'min_positive_value', 'max_value', 'epsilon', 'pi', 'eps64']

# real semantics of the unary / binary functions: (value, definedness)
REAL1 = {
    'neg': ('-a.v', 'true'), 'abs': ('r_abs(a.v)', 'true'),
    'sin': ('r_sin(a.v)', 'true'), 'cos': ('r_cos(a.v)', 'true'), 'tan': ('r_sin(a.v) / r_cos(a.v)', 'r_cos(a.v) != 0real'),
    'exp': ('r_exp(a.v)', 'true'), 'ln': ('r_ln(a.v)', 'a.v > 0real'),
    'asin': ('r_asin(a.v)', '-1real <= a.v && a.v <= 1real'), 'acos': ('r_acos(a.v)', '-1real <= a.v && a.v <= 1real'),
    'atan': ('r_atan(a.v)', 'true'), 'sqrt': ('r_sqrt(a.v)', 'a.v >= 0real'), 'recip': ('1real / a.v', 'a.v != 0real'),
    'exp2': ('r_pow(2real, a.v)', 'true'), 'log2': ('r_ln(a.v) / r_ln(2real)', 'a.v > 0real'), 'log10': ('r_ln(a.v) / r_ln(10real)', 'a.v > 0real'),
}
REAL2 = {
    'add': ('a.v + b.v', 'true'), 'sub': ('a.v - b.v', 'true'), 'mul': ('a.v * b.v', 'true'), 'div': ('a.v / b.v', 'b.v != 0real'),
    'powf': ('r_pow(a.v, b.v)', 'r_pow_dom(a.v, b.v)'),
    'max': ('(if a.v >= b.v { a.v } else { b.v })', 'true'), 'min': ('(if a.v <= b.v { a.v } else { b.v })', 'true'),
    'log': ('r_ln(a.v) / r_ln(b.v)', 'a.v > 0real && b.v > 0real && r_ln(b.v) != 0real'),
    'hypot': ('r_sqrt(a.v * a.v + b.v * b.v)', 'true'),
}


def numbers(mode, lits):
    o = []
    A = o.append
    if mode == 'exact':
        A('#[verifier::external_body] #[derive(Clone, Copy)] pub struct Fl { x: f64 }')
        for u in UNARY: A(f'pub uninterp spec fn s_{u}(a: Fl) -> Fl;')
        for b in BINARY: A(f'pub uninterp spec fn s_{b}(a: Fl, b: Fl) -> Fl;')
        A('pub uninterp spec fn s_powi(a: Fl, n: i32) -> Fl; pub uninterp spec fn s_mul_add(a: Fl, b: Fl, c: Fl) -> Fl;')
        A('pub uninterp spec fn s_sin_cos(a: Fl) -> (Fl, Fl);')
        for c in ('eq', 'lt', 'le', 'gt', 'ge'): A(f'pub uninterp spec fn s_{c}(a: Fl, b: Fl) -> bool;')
        for c in CONSTS: A(f'pub uninterp spec fn s_{c}() -> Fl;')
        for n in lits: A(f'pub uninterp spec fn s_{n}() -> Fl;')
        A('pub uninterp spec fn s_cast(k: Kind, l: Kind, x: Fl) -> Fl;')
        A('pub broadcast axiom fn ax_cast_same(k: Kind, x: Fl) ensures #[trigger] s_cast(k, k, x) == x;')
        for t in INTS:
            A(f'pub uninterp spec fn s_cast_{t}(k: Kind, x: {t}) -> Fl; pub uninterp spec fn s_of_{t}(x: {t}) -> Fl; pub uninterp spec fn s_to_{t}(x: Fl) -> {t};')
    else:
        A('#[derive(Clone, Copy)] pub struct Fl { pub ghost v: real, pub ghost ok: bool }')
        A('pub open spec fn r_abs(x: real) -> real { if x >= 0real { x } else { -x } }')
        for f in ('sin', 'cos', 'exp', 'ln', 'asin', 'acos', 'atan', 'sqrt'): A(f'pub uninterp spec fn r_{f}(x: real) -> real;')
        A('pub uninterp spec fn r_pow(x: real, y: real) -> real;')
        A('pub open spec fn rint(k: int) -> real { k as real } pub open spec fn is_int(y: real) -> bool { exists|k: int| y == #[trigger] rint(k) }')
        A('pub open spec fn r_pow_dom(x: real, y: real) -> bool { x > 0real || (x == 0real && y >= 0real) || (x < 0real && is_int(y)) }')
        for u in UNARY:
            if u in REAL1: A(f'pub open spec fn s_{u}(a: Fl) -> Fl {{ Fl {{ v: {REAL1[u][0]}, ok: a.ok && {REAL1[u][1]} }} }}')
            else: A(f'pub uninterp spec fn s_{u}(a: Fl) -> Fl;')
        for b in BINARY:
            if b in REAL2: A(f'pub open spec fn s_{b}(a: Fl, b: Fl) -> Fl {{ Fl {{ v: {REAL2[b][0]}, ok: a.ok && b.ok && {REAL2[b][1]} }} }}')
            else: A(f'pub uninterp spec fn s_{b}(a: Fl, b: Fl) -> Fl;')
        A('pub open spec fn r_powi(x: real, n: int) -> real decreases (if n >= 0 { n } else { -n }) { if n > 0 { x * r_powi(x, n - 1) } else if n == 0 { 1real } else { r_powi(x, n + 1) / x } }')
        A('pub open spec fn s_powi(a: Fl, n: i32) -> Fl { Fl { v: r_powi(a.v, n as int), ok: a.ok && (n >= 0 || a.v != 0real) } }')
        A('pub broadcast proof fn lemma_powi2(x: real) ensures #[trigger] r_powi(x, 2) == x * x { reveal_with_fuel(r_powi, 3); }')
        A('pub open spec fn s_mul_add(a: Fl, b: Fl, c: Fl) -> Fl { s_add(s_mul(a, b), c) }')
        A('pub open spec fn s_sin_cos(a: Fl) -> (Fl, Fl) { (s_sin(a), s_cos(a)) }')
        A('pub uninterp spec fn u_cmp(k: int, a: Fl, b: Fl) -> bool;')
        for i, (c, s) in enumerate((('eq', '=='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='))):
            A(f'pub open spec fn s_{c}(a: Fl, b: Fl) -> bool {{ if a.ok && b.ok {{ a.v {s} b.v }} else {{ u_cmp({i}, a, b) }} }}')
        for c in CONSTS:
            if c in ('epsilon', 'pi', 'eps64', 'neg_zero', 'min_value', 'max_value', 'min_positive_value'):
                A(f'pub uninterp spec fn r_{c}() -> real; pub open spec fn s_{c}() -> Fl {{ Fl {{ v: r_{c}(), ok: true }} }}')
            else: A(f'pub uninterp spec fn s_{c}() -> Fl;')
        for n, (p, q) in lits.items():
            v = f'{abs(p)}real' + (f' / {q}real' if q != 1 else '')
            A(f'pub open spec fn s_{n}() -> Fl {{ Fl {{ v: ' + (f'-({v})' if p < 0 else v) + ', ok: true } }')
        A('pub open spec fn s_cast(k: Kind, l: Kind, x: Fl) -> Fl { x }')
        for t in INTS:
            A(f'pub open spec fn s_cast_{t}(k: Kind, x: {t}) -> Fl {{ Fl {{ v: x as int as real, ok: true }} }} pub open spec fn s_of_{t}(x: {t}) -> Fl {{ Fl {{ v: x as int as real, ok: true }} }}')
            A(f'pub uninterp spec fn s_to_{t}(x: Fl) -> {t};')
    EB = '#[verifier::external_body] '
    U = '{ unimplemented!() }'
    for u in UNARY: A(EB + f'pub fn fl_{u}(a: Fl) -> (r: Fl) ensures r == s_{u}(a) {U}')
    for b in BINARY: A(EB + f'pub fn fl_{b}(a: Fl, b: Fl) -> (r: Fl) ensures r == s_{b}(a, b) {U}')
    A(EB + f'pub fn fl_powi(a: Fl, n: i32) -> (r: Fl) ensures r == s_powi(a, n) {U}')
    A(EB + f'pub fn fl_mul_add(a: Fl, b: Fl, c: Fl) -> (r: Fl) ensures r == s_mul_add(a, b, c) {U}')
    A(EB + f'pub fn fl_sin_cos(a: Fl) -> (r: (Fl, Fl)) ensures r == s_sin_cos(a) {U}')
    for c in ('eq', 'lt', 'le', 'gt', 'ge'): A(EB + f'pub fn fl_{c}(a: Fl, b: Fl) -> (r: bool) ensures r == s_{c}(a, b) {U}')
    for c in CONSTS: A(EB + f'pub fn fl_{c}() -> (r: Fl) ensures r == s_{c}() {U}')
    for n in lits: A(EB + f'pub fn {n}() -> (r: Fl) ensures r == s_{n}() {U}')
    for c in PREDS: A(f'pub uninterp spec fn s_{c}(a: Fl) -> bool; ' + EB + f'pub fn fl_{c}(a: Fl) -> (r: bool) ensures r == s_{c}(a) {U}')
    A(EB + f'pub fn opt_eq_fl(a: Option<Fl>, b: Option<Fl>) -> (r: bool) ensures r == (match (a, b) {{ (Some(x), Some(y)) => s_eq(x, y), (None, None) => true, _ => false }}) {U}')
    A('pub open spec fn s_is_zero(a: Fl) -> bool { s_eq(a, s_lit_0_1()) } ' + EB + f'pub fn fl_is_zero(a: Fl) -> (r: bool) ensures r == s_is_zero(a) {U}')
    A('pub open spec fn s_is_one(a: Fl) -> bool { s_eq(a, s_lit_1_1()) } ' + EB + f'pub fn fl_is_one(a: Fl) -> (r: bool) ensures r == s_is_one(a) {U}')
    A('pub uninterp spec fn s_partial_cmp(a: Fl, b: Fl) -> Option<Option3>; ' + EB + f'pub fn fl_partial_cmp(a: Fl, b: Fl) -> (r: Option<Option3>) ensures r == s_partial_cmp(a, b) {U}')
    A('pub uninterp spec fn s_classify(a: Fl) -> FpCat; ' + EB + f'pub fn fl_classify(a: Fl) -> (r: FpCat) ensures r == s_classify(a) {U}')
    A('pub uninterp spec fn s_integer_decode(a: Fl) -> (u64, i16, i8); ' + EB + f'pub fn fl_integer_decode(a: Fl) -> (r: (u64, i16, i8)) ensures r == s_integer_decode(a) {U}')
    A('pub uninterp spec fn s_from_str_radix(a: Str, n: u32) -> Result<Fl,ErrT>; ' + EB + f'pub fn fl_from_str_radix(a: Str, n: u32) -> (r: Result<Fl,ErrT>) ensures r == s_from_str_radix(a, n) {U}')
    # conversions between float types never fail
    A(EB + f'pub fn fl_cast(k: Kind, l: Kind, x: Fl) -> (r: Option<Fl>) ensures r == Some(s_cast(k, l, x)) {U}')
    A('pub uninterp spec fn s_cast_num(k: Kind, x: NumT) -> Option<Fl>; ' + EB + f'pub fn fl_cast_num(k: Kind, x: NumT) -> (r: Option<Fl>) ensures r == s_cast_num(k, x) {U}')
    for t in INTS:
        A(EB + f'pub fn fl_cast_{t}(k: Kind, x: {t}) -> (r: Option<Fl>) ensures r == Some(s_cast_{t}(k, x)) {U}')
        A(EB + f'pub fn fl_of_{t}(x: {t}) -> (r: Fl) ensures r == s_of_{t}(x) {U}')
        A(EB + f'pub fn fl_to_{t}(x: Fl) -> (r: {t}) ensures r == s_to_{t}(x) {U}')
        A(f'pub uninterp spec fn s_toprim_{t}(x: Fl) -> Option<{t}>; ' + EB + f'pub fn fl_toprim_{t}(x: Fl) -> (r: Option<{t}>) ensures r == s_toprim_{t}(x) {U}')
    for n in ('f64', 'f32'):
        A(f'pub uninterp spec fn s_to_{n}(x: Fl) -> Option<Fl>; ' + EB + f'pub fn fl_to_{n}(x: Fl) -> (r: Option<Fl>) ensures r == s_to_{n}(x) {U}')
    return o


def ints(lenient):
    """machine integer operations; overflow is an obligation (strict)"""
    o = []
    A = o.append
    EB = '#[verifier::external_body] '; U = '{ unimplemented!() }'
    for t in INTS:
        sg = t[0] == 'i'
        for op, s in (('add', '+'), ('sub', '-'), ('mul', '*')):
            cond = f'{t}::MIN <= a {s} b <= {t}::MAX'
            A(EB + f'pub fn {t}_{op}(a: {t}, b: {t}) -> (r: {t}) ' + (f'requires {cond} ensures r == a {s} b' if not lenient else f'ensures {cond}, r == a {s} b') + f' {U}')
        for op, s in (('div', '/'), ('rem', '%')):
            if sg:
                A(EB + f'pub fn {t}_{op}(a: {t}, b: {t}) -> (r: {t}) requires a >= 0, b > 0 ensures r == a as int {s} b as int {U}')
            else:
                A(EB + f'pub fn {t}_{op}(a: {t}, b: {t}) -> (r: {t}) ' + (f'requires b != 0 ensures r == a {s} b' if not lenient else f'ensures b != 0, r == a {s} b') + f' {U}')
        if sg: A(EB + f'pub fn {t}_neg(a: {t}) -> (r: {t}) requires a > {t}::MIN ensures r == -a {U}')
        A(EB + f'pub fn {t}_min(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a <= b {{ a }} else {{ b }}) {U}')
        A(EB + f'pub fn {t}_max(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a <= b {{ b }} else {{ a }}) {U}')
        A(EB + f'pub fn {t}_cmp(a: {t}, b: {t}) -> (r: Option3) ensures r == (if a < b {{ Option3::Less }} else if a == b {{ Option3::Equal }} else {{ Option3::Greater }}) {U}')
        A(EB + f'pub fn {t}_range_len(a: {t}, b: {t}) -> (r: usize) requires a < b ==> b - a <= usize::MAX ensures r as int == (if a < b {{ b - a }} else {{ 0 }}) {U}')
        if not sg:
            A(EB + f'pub fn {t}_satsub(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a < b {{ 0 }} else {{ a - b }}) {U}')
            A(EB + f'pub fn {t}_saturating_sub(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a < b {{ 0 }} else {{ a - b }}) {U}')
            A(EB + f'pub fn {t}_saturating_add(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a + b <= {t}::MAX {{ a + b }} else {{ {t}::MAX as int }}) {U}')
            A(EB + f'pub fn {t}_abs_diff(a: {t}, b: {t}) -> (r: {t}) ensures r == (if a < b {{ b - a }} else {{ a - b }}) {U}')
            A(EB + f'pub fn {t}_checked_sub(a: {t}, b: {t}) -> (r: Option<{t}>) ensures r == (if a < b {{ None }} else {{ Some((a - b) as {t}) }}) {U}')
            A(EB + f'pub fn {t}_checked_add(a: {t}, b: {t}) -> (r: Option<{t}>) ensures r == (if a + b <= {t}::MAX {{ Some((a + b) as {t}) }} else {{ None }}) {U}')
            A(EB + f'pub fn {t}_incl_len(a: {t}, b: {t}) -> (r: usize) ensures r as int == (if a > b {{ 0 }} else if b - a < usize::MAX {{ b - a + 1 }} else {{ usize::MAX as int }}) {U}')
            A(EB + f'pub fn {t}_div_ceil(a: {t}, b: {t}) -> (r: {t}) requires b != 0 ensures r as int == (a + b - 1) / (b as int) {U}')
        A(EB + f'pub fn {t}_to_usize(a: {t}) -> (r: Option<usize>) ensures r == (if 0 <= a <= usize::MAX {{ Some(a as usize) }} else {{ None }}) {U}')
        A(EB + f'pub fn opt_max_{t}(o: Option<{t}>, x: {t}) -> (r: Option<{t}>) ensures r == (match o {{ None => Some(x), Some(y) => Some(if y <= x {{ x }} else {{ y }}) }}) {U}')
        A(EB + f'pub fn opt_min_{t}(o: Option<{t}>, x: {t}) -> (r: Option<{t}>) ensures r == (match o {{ None => Some(x), Some(y) => Some(if x < y {{ x }} else {{ y }}) }}) {U}')
    return o


def generic(lenient):
    def pre(c): return f'requires {c} ensures ' if not lenient else f'ensures {c}, '
    U = '{ unimplemented!() }'
    t = f'''
#[derive(Clone, Copy)] pub enum Option3 {{ Less, Equal, Greater }}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct FpCat {{ x: u8 }}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ErrT {{ x: u8 }}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NumT {{ x: u8 }}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct TT {{ x: u8 }}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct RR {{ x: u8 }}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Opaque {{ x: u8 }}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Str {{ x: u8 }}
#[verifier::external_body] pub fn mk_str() -> Str {U}
#[verifier::external_body] pub fn opaque() -> Opaque {U}
#[derive(Clone, Copy)] pub enum Kind {{ F64, S, T, F32 }}
pub fn K_f64() -> (r: Kind) ensures r == Kind::F64 {{ Kind::F64 }}
pub fn K_f32() -> (r: Kind) ensures r == Kind::F32 {{ Kind::F32 }}
pub fn K_S() -> (r: Kind) ensures r == Kind::S {{ Kind::S }}
pub fn K_T() -> (r: Kind) ensures r == Kind::T {{ Kind::T }}
pub struct Sq<T> {{ pub g: Ghost<Seq<T>> }}
impl<T> View for Sq<T> {{ type V = Seq<T>; open spec fn view(&self) -> Seq<T> {{ self.g@ }} }}
impl<T> Clone for Sq<T> {{ fn clone(&self) -> (r: Self) ensures r == *self {{ Sq {{ g: self.g }} }} }}
impl<T> Copy for Sq<T> {{}}
pub open spec fn sqv<T>(s: Seq<T>) -> Sq<T> {{ Sq {{ g: Ghost(s) }} }}
pub broadcast axiom fn sq_ext<T>(a: Sq<T>, b: Sq<T>) requires a@ == b@ ensures #![trigger a@, b@] a == b;
#[verifier::external_body] pub fn vpanic<T>() -> (r: T) {'requires false' if not lenient else 'ensures false'} {U}
pub open spec fn big() -> nat {{ 0x8000_0000_0000_0000 }}
#[verifier::external_body] pub fn sq_len<T>(s: Sq<T>) -> (r: usize) ensures r as nat == s@.len(), s@.len() < big() {U}
#[verifier::external_body] pub fn sq_get<T>(s: Sq<T>, i: usize) -> (r: T) {pre('i < s@.len()')} r == s@[i as int] {U}
#[verifier::external_body] pub fn sq_set<T>(s: Sq<T>, i: usize, x: T) -> (r: Sq<T>) {pre('i < s@.len()')} r@ == s@.update(i as int, x) {U}
#[verifier::external_body] pub fn sq_push<T>(s: Sq<T>, x: T) -> (r: Sq<T>) ensures r@ == s@.push(x), r@.len() < big() {U}
#[verifier::external_body] pub fn sq_new<T>() -> (r: Sq<T>) ensures r@ == Seq::<T>::empty() {U}
#[verifier::external_body] pub fn sq_fill<T>(n: usize, x: T) -> (r: Sq<T>) ensures r@ == Seq::new(n as nat, |k: int| x), n < big() {U}
#[verifier::external_body] pub fn sq_concat<T>(a: Sq<T>, b: Sq<T>) -> (r: Sq<T>) ensures r@ == a@ + b@, r@.len() < big() {U}
#[verifier::external_body] pub fn sq_copy_from<T>(a: Sq<T>, b: Sq<T>) -> (r: Sq<T>) {pre('a@.len() == b@.len()')} r@ == b@ {U}
#[verifier::external_body] pub fn sq_last<T>(a: Sq<T>) -> (r: Option<T>) ensures r == (if a@.len() == 0 {{ None }} else {{ Some(a@.last()) }}) {U}
#[verifier::external_body] pub fn sq_first<T>(a: Sq<T>) -> (r: Option<T>) ensures r == (if a@.len() == 0 {{ None }} else {{ Some(a@[0]) }}) {U}
#[verifier::external_body] pub fn sq_pop<T>(a: Sq<T>) -> (r: Sq<T>) ensures r@ == (if a@.len() == 0 {{ a@ }} else {{ a@.drop_last() }}) {U}
#[verifier::external_body] pub fn sq_pop_front<T>(a: Sq<T>) -> (r: Sq<T>) ensures r@ == (if a@.len() == 0 {{ a@ }} else {{ a@.subrange(1, a@.len() as int) }}) {U}
#[verifier::external_body] pub fn sq_push_front<T>(a: Sq<T>, x: T) -> (r: Sq<T>) ensures r@ == seq![x] + a@, r@.len() < big() {U}
#[verifier::external_body] pub fn sq_get_opt<T>(a: Sq<T>, i: usize) -> (r: Option<T>) ensures r == (if i < a@.len() {{ Some(a@[i as int]) }} else {{ None }}) {U}
#[verifier::external_body] pub fn sq_slice<T>(a: Sq<T>, lo: usize, hi: usize) -> (r: Sq<T>) {pre('lo <= hi <= a@.len()')} r@ == a@.subrange(lo as int, hi as int) {U}
#[verifier::external_body] pub fn sq_truncate<T>(a: Sq<T>, n: usize) -> (r: Sq<T>) ensures r@ == (if n < a@.len() {{ a@.subrange(0, n as int) }} else {{ a@ }}) {U}
#[verifier::external_body] pub fn sq_swap<T>(a: Sq<T>, i: usize, j: usize) -> (r: Sq<T>) {pre('i < a@.len() && j < a@.len()')} r@ == a@.update(i as int, a@[j as int]).update(j as int, a@[i as int]) {U}
#[verifier::external_body] pub fn sq_reverse<T>(a: Sq<T>) -> (r: Sq<T>) ensures r@ == a@.reverse() {U}
#[verifier::external_body] pub fn sq_resize<T>(a: Sq<T>, n: usize, x: T) -> (r: Sq<T>) ensures r@ == (if n <= a@.len() {{ a@.subrange(0, n as int) }} else {{ a@ + Seq::new((n - a@.len()) as nat, |k: int| x) }}) {U}
#[verifier::external_body] pub fn some_value<T>() -> (r: T) {U}
#[verifier::external_body] pub fn sq_insert<T>(a: Sq<T>, i: usize, x: T) -> (r: Sq<T>) {pre('i <= a@.len()')} r@ == a@.insert(i as int, x), r@.len() < big() {U}
#[verifier::external_body] pub fn sq_remove<T>(a: Sq<T>, i: usize) -> (r: Sq<T>) {pre('i < a@.len()')} r@ == a@.remove(i as int) {U}
#[verifier::external_body] pub fn sq_contains<T>(a: Sq<T>, x: T) -> (r: bool) ensures r == a@.contains(x) {U}
#[verifier::external_body] pub fn sq_from_iter<T>(n: usize, a: Sq<T>) -> (r: Sq<T>) {pre('n <= a@.len()')} r@ == a@.subrange(0, n as int) {U}
#[verifier::external_body] pub fn index_is_zero(i: usize) -> (r: ()) {'requires i == 0' if not lenient else 'ensures i == 0'} {U}
#[verifier::external_body] pub fn opt_unwrap<T>(o: Option<T>) -> (r: T) {pre('o is Some')} r == o->0 {U}
#[verifier::external_body] pub fn opt_is_some<T>(o: Option<T>) -> (r: bool) ensures r == (o is Some) {U}
#[verifier::external_body] pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> (r: T) ensures r == (if o is Some {{ o->0 }} else {{ d }}) {U}
#[verifier::external_body] pub fn res_unwrap<T, E>(o: Result<T, E>) -> (r: T) {pre('o is Ok')} r == o->Ok_0 {U}
#[verifier::external_body] pub fn res_ok<T, E>(o: Result<T, E>) -> (r: Option<T>) ensures r == (if o is Ok {{ Some(o->Ok_0) }} else {{ None }}) {U}
#[verifier::external_body] pub fn g_eq<T>(a: T, b: T) -> (r: bool) ensures r == (a == b) {U}
pub fn ord_lt(o: Option<Option3>) -> (r: bool) ensures r == (o == Some(Option3::Less)) {{ match o {{ Some(Option3::Less) => true, _ => false }} }}
pub fn ord_le(o: Option<Option3>) -> (r: bool) ensures r == (o == Some(Option3::Less) || o == Some(Option3::Equal)) {{ match o {{ Some(Option3::Less) => true, Some(Option3::Equal) => true, _ => false }} }}
pub fn ord_gt(o: Option<Option3>) -> (r: bool) ensures r == (o == Some(Option3::Greater)) {{ match o {{ Some(Option3::Greater) => true, _ => false }} }}
pub fn ord_ge(o: Option<Option3>) -> (r: bool) ensures r == (o == Some(Option3::Greater) || o == Some(Option3::Equal)) {{ match o {{ Some(Option3::Greater) => true, Some(Option3::Equal) => true, _ => false }} }}
#[verifier::external_body] pub fn any_below(n: usize) -> (r: usize) requires n > 0 ensures r < n {U}
#[verifier::external_body] pub fn any_range3(n: usize) -> (r: (usize, usize, usize)) ensures r.0 <= r.1 <= r.2 <= n {U}
#[verifier::external_body] pub fn any_val<T>() -> T {U}
pub uninterp spec fn any_point() -> int;
/// nothing after this point belongs to the run of the function
#[verifier::external_body] pub fn end_of_branch() ensures false {U}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Big {{ x: u8 }}
pub uninterp spec fn bigv(b: Big) -> nat;
pub uninterp spec fn s_binom(n: int, k: int) -> nat;
#[verifier::external_body] pub fn big_of(x: usize) -> (r: Big) ensures bigv(r) == x {U}
#[verifier::external_body] pub fn big_add(a: Big, b: Big) -> (r: Big) ensures bigv(r) == bigv(a) + bigv(b) {U}
#[verifier::external_body] pub fn big_mul(a: Big, b: Big) -> (r: Big) ensures bigv(r) == bigv(a) * bigv(b) {U}
#[verifier::external_body] pub fn big_sub(a: Big, b: Big) -> (r: Big) {pre('bigv(a) >= bigv(b)')} bigv(r) == bigv(a) - bigv(b) {U}
#[verifier::external_body] pub fn big_binomial(a: Big, b: Big) -> (r: Big) ensures bigv(r) == s_binom(bigv(a) as int, bigv(b) as int) {U}
#[verifier::external_body] pub fn big_to_usize(a: Big) -> (r: Option<usize>) ensures r == (if bigv(a) <= usize::MAX {{ Some(bigv(a) as usize) }} else {{ None }}) {U}
'''
    return [t]


def matrices(lenient):
    def pre(c): return f'requires {c} ensures ' if not lenient else f'ensures {c}, '
    U = '{ unimplemented!() }'
    return [f'''
pub type V = Seq<Fl>;
#[derive(Clone, Copy)] pub struct Mat {{ pub nr: Ghost<nat>, pub nc: Ghost<nat>, pub e: Ghost<spec_fn(int, int) -> Fl> }}
''' if False else f'''
/// a matrix is the sequence of its columns plus the row count
#[derive(Clone, Copy)] pub struct Mat {{ pub rows: Ghost<nat>, pub cols: Ghost<Seq<Seq<Fl>>> }}
pub open spec fn m_r(m: Mat) -> nat {{ m.rows@ }}
pub open spec fn m_c(m: Mat) -> nat {{ m.cols@.len() }}
pub open spec fn m_at(m: Mat, i: int, j: int) -> Fl {{ m.cols@[j][i] }}
pub open spec fn m_wf(m: Mat) -> bool {{ forall|j: int| 0 <= j < m_c(m) ==> (#[trigger] m.cols@[j]).len() == m_r(m) }}
pub open spec fn m_new(r: nat, c: nat, f: spec_fn(int, int) -> Fl) -> Mat {{ Mat {{ rows: Ghost(r), cols: Ghost(Seq::new(c, |j: int| Seq::new(r, |i: int| f(i, j)))) }} }}
pub open spec fn m_ofv(v: Seq<Fl>) -> Mat {{ Mat {{ rows: Ghost(v.len()), cols: Ghost(seq![v]) }} }}
pub open spec fn s_dotn(a: spec_fn(int) -> Fl, b: spec_fn(int) -> Fl, n: nat) -> Fl decreases n {{ if n == 0 {{ s_lit_0_1() }} else {{ s_add(s_dotn(a, b, (n - 1) as nat), s_mul(a(n - 1), b(n - 1))) }} }}
pub open spec fn m_mul(a: Mat, b: Mat) -> Mat {{ m_new(m_r(a), m_c(b), |i: int, j: int| s_dotn(|k: int| m_at(a, i, k), |k: int| m_at(b, k, j), m_c(a))) }}
pub open spec fn m_vec(a: Mat, x: Seq<Fl>) -> Seq<Fl> {{ Seq::new(m_r(a), |i: int| s_dotn(|k: int| m_at(a, i, k), |k: int| x[k], m_c(a))) }}
pub open spec fn v_map2(a: Seq<Fl>, b: Seq<Fl>, f: spec_fn(Fl, Fl) -> Fl) -> Seq<Fl> {{ Seq::new(a.len(), |i: int| f(a[i], b[i])) }}
pub open spec fn v_map1(a: Seq<Fl>, f: spec_fn(Fl) -> Fl) -> Seq<Fl> {{ Seq::new(a.len(), |i: int| f(a[i])) }}
#[verifier::external_body] pub fn mat_fill(r: usize, c: usize, x: Fl) -> (m: Mat) ensures m == m_new(r as nat, c as nat, |i: int, j: int| x), m_wf(m), m_r(m) == r, m_c(m) == c {U}
#[verifier::external_body] pub fn mat_identity(r: usize, c: usize) -> (m: Mat) ensures m == m_new(r as nat, c as nat, |i: int, j: int| if i == j {{ s_lit_1_1() }} else {{ s_lit_0_1() }}), m_wf(m), m_r(m) == r, m_c(m) == c {U}
#[verifier::external_body] pub fn mat_nrows(m: Mat) -> (r: usize) ensures r == m_r(m) {U}
#[verifier::external_body] pub fn mat_ncols(m: Mat) -> (r: usize) ensures r == m_c(m) {U}
#[verifier::external_body] pub fn mat_get(m: Mat, i: usize, j: usize) -> (r: Fl) {pre('i < m_r(m) && j < m_c(m)')} r == m_at(m, i as int, j as int) {U}
#[verifier::external_body] pub fn mat_set(m: Mat, i: usize, j: usize, x: Fl) -> (r: Mat) {pre('i < m_r(m) && j < m_c(m)')} m_r(r) == m_r(m), r.cols@ == m.cols@.update(j as int, m.cols@[j as int].update(i as int, x)), forall|p: int, q: int| 0 <= p < m_r(m) && 0 <= q < m_c(m) && m_wf(m) ==> #[trigger] m_at(r, p, q) == (if p == i && q == j {{ x }} else {{ m_at(m, p, q) }}) {U}
pub open spec fn lin_i(m: Mat, k: int) -> int {{ if m_r(m) == 0 {{ 0 }} else {{ k % m_r(m) as int }} }}
pub open spec fn lin_j(m: Mat, k: int) -> int {{ if m_r(m) == 0 {{ 0 }} else {{ k / m_r(m) as int }} }}
#[verifier::external_body] pub fn mat_get_lin(m: Mat, k: usize) -> (r: Fl) {pre('k < m_r(m) * m_c(m)')} r == m_at(m, lin_i(m, k as int), lin_j(m, k as int)) {U}
#[verifier::external_body] pub fn mat_set_lin(m: Mat, k: usize, x: Fl) -> (r: Mat) {pre('k < m_r(m) * m_c(m)')} m_r(r) == m_r(m), r.cols@ == m.cols@.update(lin_j(m, k as int), m.cols@[lin_j(m, k as int)].update(lin_i(m, k as int), x)) {U}
#[verifier::external_body] pub fn mat_column(m: Mat, j: usize) -> (r: Sq<Fl>) {pre('j < m_c(m)')} r@ == m.cols@[j as int] {U}
#[verifier::external_body] pub fn mat_row(m: Mat, i: usize) -> (r: Mat) {pre('i < m_r(m)')} r == m_new(1, m_c(m), |a: int, j: int| m_at(m, i as int, j)), m_wf(r) {U}
#[verifier::external_body] pub fn mat_set_col(m: Mat, j: usize, s: Mat) -> (r: Mat) {pre('j < m_c(m) && m_c(s) == 1 && m_r(s) == m_r(m)')} m_r(r) == m_r(m), r.cols@ == m.cols@.update(j as int, s.cols@[0]), forall|p: int, q: int| 0 <= p < m_r(m) && 0 <= q < m_c(m) ==> #[trigger] m_at(r, p, q) == (if q == j {{ m_at(s, p, 0) }} else {{ m_at(m, p, q) }}) {U}
#[verifier::external_body] pub fn mat_set_row(m: Mat, i: usize, s: Mat) -> (r: Mat) {pre('i < m_r(m) && m_r(s) == 1 && m_c(s) == m_c(m)')} m_r(r) == m_r(m), r.cols@ == Seq::new(m_c(m), |j: int| m.cols@[j].update(i as int, m_at(s, 0, j))), forall|p: int, q: int| 0 <= p < m_r(m) && 0 <= q < m_c(m) && m_wf(m) ==> #[trigger] m_at(r, p, q) == (if p == i {{ m_at(s, 0, q) }} else {{ m_at(m, p, q) }}) {U}
#[verifier::external_body] pub fn mat_add(a: Mat, b: Mat) -> (r: Mat) {pre('m_r(a) == m_r(b) && m_c(a) == m_c(b)')} r == m_new(m_r(a), m_c(a), |i: int, j: int| s_add(m_at(a, i, j), m_at(b, i, j))), m_wf(r) {U}
#[verifier::external_body] pub fn mat_sub(a: Mat, b: Mat) -> (r: Mat) {pre('m_r(a) == m_r(b) && m_c(a) == m_c(b)')} r == m_new(m_r(a), m_c(a), |i: int, j: int| s_sub(m_at(a, i, j), m_at(b, i, j))), m_wf(r) {U}
#[verifier::external_body] pub fn mat_mul(a: Mat, b: Mat) -> (r: Mat) {pre('m_c(a) == m_r(b)')} r == m_mul(a, b), m_wf(r), m_r(r) == m_r(a), m_c(r) == m_c(b) {U}
#[verifier::external_body] pub fn mat_vec(a: Mat, x: Sq<Fl>) -> (r: Sq<Fl>) {pre('m_c(a) == x@.len()')} r@ == m_vec(a, x@) {U}
#[verifier::external_body] pub fn mat_neg(a: Mat) -> (r: Mat) ensures r == m_new(m_r(a), m_c(a), |i: int, j: int| s_neg(m_at(a, i, j))), m_wf(r) {U}
#[verifier::external_body] pub fn mat_abs(a: Mat) -> (r: Mat) ensures r == m_new(m_r(a), m_c(a), |i: int, j: int| s_abs(m_at(a, i, j))), m_wf(r) {U}
#[verifier::external_body] pub fn mat_scale(a: Mat, x: Fl) -> (r: Mat) ensures r == m_new(m_r(a), m_c(a), |i: int, j: int| s_mul(m_at(a, i, j), x)), m_wf(r) {U}
#[verifier::external_body] pub fn mat_transpose(a: Mat) -> (r: Mat) ensures r == m_new(m_c(a), m_r(a), |i: int, j: int| m_at(a, j, i)), m_wf(r) {U}
#[verifier::external_body] pub fn mat_of_vec(v: Sq<Fl>) -> (r: Mat) ensures r == m_ofv(v@), m_wf(r) {U}
#[verifier::external_body] pub fn vec_of_mat(m: Mat) -> (r: Sq<Fl>) {pre('m_c(m) == 1')} r@ == m.cols@[0], forall|i: int| #[trigger] r@[i] == m_at(m, i, 0) {U}
#[verifier::external_body] pub fn vec_add(a: Sq<Fl>, b: Sq<Fl>) -> (r: Sq<Fl>) {pre('a@.len() == b@.len()')} r@ == v_map2(a@, b@, |x: Fl, y: Fl| s_add(x, y)) {U}
#[verifier::external_body] pub fn vec_sub(a: Sq<Fl>, b: Sq<Fl>) -> (r: Sq<Fl>) {pre('a@.len() == b@.len()')} r@ == v_map2(a@, b@, |x: Fl, y: Fl| s_sub(x, y)) {U}
#[verifier::external_body] pub fn vec_cmul(a: Sq<Fl>, b: Sq<Fl>) -> (r: Sq<Fl>) {pre('a@.len() == b@.len()')} r@ == v_map2(a@, b@, |x: Fl, y: Fl| s_mul(x, y)) {U}
#[verifier::external_body] pub fn vec_neg(a: Sq<Fl>) -> (r: Sq<Fl>) ensures r@ == v_map1(a@, |x: Fl| s_neg(x)) {U}
#[verifier::external_body] pub fn vec_abs(a: Sq<Fl>) -> (r: Sq<Fl>) ensures r@ == v_map1(a@, |x: Fl| s_abs(x)) {U}
#[verifier::external_body] pub fn vec_scale(a: Sq<Fl>, k: Fl) -> (r: Sq<Fl>) ensures r@ == v_map1(a@, |x: Fl| s_mul(x, k)) {U}
#[verifier::external_body] pub fn vec_dot(a: Sq<Fl>, b: Sq<Fl>) -> (r: Fl) {pre('a@.len() == b@.len()')} r == s_dotn(|k: int| a@[k], |k: int| b@[k], a@.len()) {U}
pub uninterp spec fn v_eq(a: Seq<Fl>, b: Seq<Fl>) -> bool;
#[verifier::external_body] pub fn vec_eq(a: Sq<Fl>, b: Sq<Fl>) -> (r: bool) ensures r == v_eq(a@, b@) {U}
pub uninterp spec fn m_eq(a: Mat, b: Mat) -> bool;
#[verifier::external_body] pub fn mat_eq(a: Mat, b: Mat) -> (r: bool) ensures r == m_eq(a, b) {U}
''']


TAPEV = '''
/// the abstract view of a tape: what its accessors return
#[derive(Clone, Copy)] pub struct TapeV { pub indeps: Sq<usize>, pub deps: Sq<usize>, pub vals: Sq<Fl>, pub ops: Sq<Operation> }
'''

FUNCV = '''
#[verifier::external_body] #[derive(Clone, Copy)] pub struct FuncV { x: u8 }
'''


WIDE = '''
global size_of usize == 8;
// casts of the same width wrap
#[verifier::external_body] pub fn wrap_usize(x: usize) -> (r: isize) ensures r == (if x <= isize::MAX { x as int } else { x - 0x1_0000_0000_0000_0000 }) { x as isize }
#[verifier::external_body] pub fn wrap_isize(x: isize) -> (r: usize) ensures r == (if x >= 0 { x as int } else { x + 0x1_0000_0000_0000_0000 }) { x as usize }
#[verifier::external_body] pub fn note_capacity(n: usize) { unimplemented!() }
'''


def prelude(mode, lenient, lits, parts=('mat', 'tape')):
    o = []
    o += generic(lenient)
    o += numbers(mode, lits)
    o += ints(lenient)
    if 'wide' in parts: o.append(WIDE)
    if 'mat' in parts: o += matrices(lenient)
    return '\n'.join(o)
