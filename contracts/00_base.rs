// ------------------------------------------------------------------
// 00_base.rs: integers, assertions, casts, opaque environment
// ------------------------------------------------------------------
global size_of usize == 8;

pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
/// number of chunks of size c needed for n
pub open spec fn ceil_div(n: int, c: int) -> int { if n % c == 0 { n / c } else { n / c + 1 } }
pub open spec fn rup(n: int, c: int) -> int { ceil_div(n, c) * c }

pub proof fn l_ceil(n: int, c: int)
    requires n >= 0, c > 0,
    ensures
        ceil_div(n, c) >= 0,
        ceil_div(n, c) <= n,
        n > 0 ==> ceil_div(n, c) > 0,
        n > 0 ==> (ceil_div(n, c) - 1) * c < n,
        n > 0 ==> (ceil_div(n, c) - 1) * c >= 0,
        n <= rup(n, c) < n + c,
        rup(n, c) >= 0,
        c == 1 ==> ceil_div(n, c) == n,
{
    lemma_fundamental_div_mod(n, c);
    lemma_mod_bound(n, c);
    let q = n / c;
    lemma_div_pos_is_pos(n, c);
    assert(c * q == q * c) by(nonlinear_arith);
    assert((q + 1) * c == q * c + c) by(nonlinear_arith);
    assert(q >= 0 && c >= 1 ==> q <= q * c) by(nonlinear_arith);
    assert(q >= 0 && c >= 1 ==> q * c >= 0) by(nonlinear_arith);
    assert((q - 1) * c == q * c - c) by(nonlinear_arith);
    if n > 0 && n % c == 0 { if q == 0 { assert(q * c == 0) by(nonlinear_arith) requires q == 0; } assert(q >= 1); assert(q >= 1 && c >= 1 ==> (q - 1) * c >= 0) by(nonlinear_arith); }
    if c == 1 { assert(q * c == q) by(nonlinear_arith) requires c == 1; }
}
pub proof fn l_ceil_unique(n: int, c: int, q: int)
    requires c > 0, n >= 0, q * c >= n, q > 0 ==> (q - 1) * c < n, q >= 0,
    ensures q == ceil_div(n, c),
{
    l_ceil(n, c);
    let p = ceil_div(n, c);
    if p < q { assert((q - 1) * c >= p * c) by(nonlinear_arith) requires p <= q - 1, c > 0; }
    if q < p { assert((p - 1) * c >= q * c) by(nonlinear_arith) requires q <= p - 1, c > 0; }
}
pub proof fn l_mul_le(a: int, b: int, c: int)
    requires 0 <= a <= b, 0 <= c,
    ensures 0 <= a * c <= b * c, 0 <= c * a <= c * b,
{
    assert(0 <= a * c <= b * c && 0 <= c * a <= c * b) by(nonlinear_arith) requires 0 <= a <= b, 0 <= c;
}
pub proof fn l_ceil_mono(a: int, b: int, c: int)
    requires 0 <= a <= b, c > 0,
    ensures ceil_div(a, c) <= ceil_div(b, c), rup(a, c) <= rup(b, c),
{
    l_ceil(a, c);
    l_ceil(b, c);
    let (p, q) = (ceil_div(a, c), ceil_div(b, c));
    if q < p { assert((p - 1) * c >= q * c) by(nonlinear_arith) requires q <= p - 1, c > 0; }
    l_mul_le(p, q, c);
}
/// q*c + r with 0 <= r < c decomposes uniquely
pub proof fn l_divmod(q: int, c: int, r: int)
    requires 0 <= r < c,
    ensures (q * c + r) / c == q, (q * c + r) % c == r, (c * q + r) / c == q, (c * q + r) % c == r,
{
    assert(c * q == q * c) by(nonlinear_arith);
    lemma_fundamental_div_mod_converse(q * c + r, c, q, r);
}
pub proof fn l_dm(x: int, c: int)
    requires c > 0,
    ensures x == (x / c) * c + x % c, 0 <= x % c < c, x >= 0 ==> x / c >= 0, x >= 0 ==> x / c <= x, x>=0 ==> (x / c) * c <= x,
{
    lemma_fundamental_div_mod(x, c);
    lemma_mod_bound(x, c);
    let q = x / c;
    assert(c * q == q * c) by(nonlinear_arith);
    if x >= 0 { lemma_div_pos_is_pos(x, c); assert(q <= q * c) by(nonlinear_arith) requires q >= 0, c >= 1; }
}

// ---- assertions of the source: obligations here
pub fn vassert_(b: bool) requires b, {}
/// a check that may refuse (panic), but nothing that `ok` admits
#[verifier::external_body]
pub fn vrefuse_(b: bool, ok: Ghost<bool>)
    requires
        ok@ ==> b, /*@req vrefuse_ [C08 C14]*/
    ensures b,
{ unimplemented!() }
pub trait EqA: Sized { spec fn eqa(self, o: Self) -> bool; }
impl EqA for usize { open spec fn eqa(self, o: Self) -> bool { self == o } }
impl EqA for u8 { open spec fn eqa(self, o: Self) -> bool { self == o } }
impl EqA for isize { open spec fn eqa(self, o: Self) -> bool { self == o } }
impl EqA for i32 { open spec fn eqa(self, o: Self) -> bool { self == o } }
impl EqA for bool { open spec fn eqa(self, o: Self) -> bool { self == o } }
pub fn vassert_eq_<T: EqA>(a: T, b: T) requires a.eqa(b), {}
pub fn vassert_ne_<T: EqA>(a: T, b: T) requires !a.eqa(b), {}

// ---- Ord::min / max
pub fn min_(a: usize, b: usize) -> (r: usize) ensures r == imin(a as int, b as int), { if a <= b { a } else { b } }
pub fn max_(a: usize, b: usize) -> (r: usize) ensures r == imax(a as int, b as int), { if a >= b { a } else { b } }

// ---- casts (`as`): exact machine semantics
pub trait ToUsize: Sized { spec fn tous(self) -> usize; fn to_us(self) -> (r: usize) ensures r == self.tous(); }
impl ToUsize for usize { open spec fn tous(self) -> usize { self } fn to_us(self) -> (r: usize) { self } }
impl ToUsize for u8 { open spec fn tous(self) -> usize { self as usize } fn to_us(self) -> (r: usize) { self as usize } }
impl ToUsize for bool { open spec fn tous(self) -> usize { if self { 1 } else { 0 } } fn to_us(self) -> (r: usize) { if self { 1 } else { 0 } } }
impl ToUsize for isize { open spec fn tous(self) -> usize { self as usize } fn to_us(self) -> (r: usize) { #[verifier::truncate] (self as usize) } }
impl ToUsize for i32 { open spec fn tous(self) -> usize { self as usize } fn to_us(self) -> (r: usize) { #[verifier::truncate] (self as usize) } }
pub fn as_usize_<T: ToUsize>(x: T) -> (r: usize) ensures r == x.tous(), { x.to_us() }
pub trait ToIsize: Sized { spec fn tois(self) -> isize; fn to_is(self) -> (r: isize) ensures r == self.tois(); }
impl ToIsize for usize { open spec fn tois(self) -> isize { self as isize } fn to_is(self) -> (r: isize) { #[verifier::truncate] (self as isize) } }
impl ToIsize for isize { open spec fn tois(self) -> isize { self } fn to_is(self) -> (r: isize) { self } }
impl ToIsize for i32 { open spec fn tois(self) -> isize { self as isize } fn to_is(self) -> (r: isize) { self as isize } }
pub fn as_isize_<T: ToIsize>(x: T) -> (r: isize) ensures r == x.tois(), { x.to_is() }
pub fn as_u8_(x: usize) -> (r: u8) ensures r == x as u8, { #[verifier::truncate] (x as u8) }

/// a value the environment chooses
#[verifier::external_body]
pub fn any_bool_() -> (r: bool) { unimplemented!() }

// ---- integer library functions
pub open spec fn wrap64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
#[verifier::external_body]
pub fn overflowing_mul_m_(a: usize, b: usize) -> (r: (usize, bool))
    ensures r.0 == wrap64(a * b), r.1 == (a * b > usize::MAX),
{ a.overflowing_mul(b) }
#[verifier::external_body]
pub fn overflowing_add_m_(a: usize, b: usize) -> (r: (usize, bool))
    ensures r.0 == wrap64(a + b), r.1 == (a + b > usize::MAX),
{ a.overflowing_add(b) }
pub trait WSub: Sized { spec fn wsub(self, o: Self) -> Self; fn w_sub(self, o: Self) -> (r: Self) ensures r == self.wsub(o); }
impl WSub for usize {
    open spec fn wsub(self, o: Self) -> Self { if self >= o { (self - o) as usize } else { (self - o + 0x1_0000_0000_0000_0000) as usize } }
    #[verifier::external_body] fn w_sub(self, o: Self) -> (r: Self) { self.wrapping_sub(o) }
}
impl WSub for u8 {
    open spec fn wsub(self, o: Self) -> Self { if self >= o { (self - o) as u8 } else { (self - o + 256) as u8 } }
    #[verifier::external_body] fn w_sub(self, o: Self) -> (r: Self) { self.wrapping_sub(o) }
}
pub fn wrapping_sub_m_<T: WSub>(a: T, b: T) -> (r: T) ensures r == a.wsub(b), { a.w_sub(b) }
pub fn saturating_sub_m_(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { 0 }), { if a >= b { a - b } else { 0 } }
/// the machine integers whose library functions are used
pub trait IntLib: Sized { spec fn iv(self) -> int; spec fn lo() -> int; spec fn hi() -> int; }
impl IntLib for usize { open spec fn iv(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { usize::MAX as int } }
impl IntLib for isize { open spec fn iv(self) -> int { self as int } open spec fn lo() -> int { isize::MIN as int } open spec fn hi() -> int { isize::MAX as int } }
pub open spec fn in_s<T: IntLib>(x: int) -> bool { T::lo() <= x <= T::hi() }
pub open spec fn wrap_s<T: IntLib>(x: int) -> int { if in_s::<T>(x) { x } else { (x - T::lo()) % 0x1_0000_0000_0000_0000 + T::lo() } }
pub open spec fn clamp_s<T: IntLib>(x: int) -> int { if x < T::lo() { T::lo() } else if x > T::hi() { T::hi() } else { x } }
#[verifier::external_body]
pub fn wrapping_add_m_<T: IntLib>(a: T, b: T) -> (r: T)
    ensures r.iv() == wrap_s::<T>(a.iv() + b.iv()),
{ unimplemented!() }
#[verifier::external_body]
pub fn wrapping_mul_m_<T: IntLib>(a: T, b: T) -> (r: T)
    ensures r.iv() == wrap_s::<T>(a.iv() * b.iv()),
{ unimplemented!() }
#[verifier::external_body]
pub fn saturating_add_m_<T: IntLib>(a: T, b: T) -> (r: T)
    ensures r.iv() == clamp_s::<T>(a.iv() + b.iv()),
{ unimplemented!() }
#[verifier::external_body]
pub fn saturating_mul_m_<T: IntLib>(a: T, b: T) -> (r: T)
    ensures r.iv() == clamp_s::<T>(a.iv() * b.iv()),
{ unimplemented!() }
#[verifier::external_body]
pub fn checked_add_m_<T: IntLib>(a: T, b: T) -> (r: Option<T>)
    ensures match r { Some(v) => v.iv() == a.iv() + b.iv(), None => !in_s::<T>(a.iv() + b.iv()) },
{ unimplemented!() }
#[verifier::external_body]
pub fn checked_sub_m_<T: IntLib>(a: T, b: T) -> (r: Option<T>)
    ensures match r { Some(v) => v.iv() == a.iv() - b.iv(), None => !in_s::<T>(a.iv() - b.iv()) },
{ unimplemented!() }
#[verifier::external_body]
pub fn checked_mul_m_<T: IntLib>(a: T, b: T) -> (r: Option<T>)
    ensures match r { Some(v) => v.iv() == a.iv() * b.iv(), None => !in_s::<T>(a.iv() * b.iv()) },
{ unimplemented!() }
#[verifier::external_body]
pub fn wrapping_abs_m_<T: IntLib>(a: T) -> (r: T)
    ensures r.iv() == wrap_s::<T>(if a.iv() < 0 { -a.iv() } else { a.iv() }),
{ unimplemented!() }
#[verifier::external_body]
pub fn wrapping_neg_m_<T: IntLib>(a: T) -> (r: T)
    ensures r.iv() == wrap_s::<T>(-a.iv()),
{ unimplemented!() }
#[verifier::external_body]
pub fn abs_m_<T: IntLib>(a: T) -> (r: T)
    requires in_s::<T>(-a.iv()), /*@req integer overflow in abs [C08]*/
    ensures r.iv() == (if a.iv() < 0 { -a.iv() } else { a.iv() }),
{ unimplemented!() }
#[verifier::external_body]
pub fn unsigned_abs_m_<T: IntLib>(a: T) -> (r: usize)
    ensures r == (if a.iv() < 0 { -a.iv() } else { a.iv() }),
{ unimplemented!() }
#[verifier::external_body]
pub fn abs_diff_m_<T: IntLib>(a: T, b: T) -> (r: usize)
    ensures r == (if a.iv() < b.iv() { b.iv() - a.iv() } else { a.iv() - b.iv() }),
{ unimplemented!() }
#[verifier::external_body]
pub fn div_ceil_m_<T: IntLib>(a: T, b: T) -> (r: T)
    requires T::lo() == 0 && b.iv() > 0, /*@req integer overflow in div_ceil [C08]*/
    ensures r.iv() == (if a.iv() % b.iv() == 0 { a.iv() / b.iv() } else { a.iv() / b.iv() + 1 }),
{ unimplemented!() }
#[verifier::external_body]
pub fn signum_m_<T: IntLib>(a: T) -> (r: T)
    ensures r.iv() == (if a.iv() < 0 { -1int } else if a.iv() == 0 { 0int } else { 1int }),
{ unimplemented!() }
pub proof fn l_mod_le(x: int, a: int) requires x > 0, a > 0, x % a == 0, ensures a <= x, { l_dm(x, a); if a > x { lemma_small_mod(x as nat, a as nat); } }
