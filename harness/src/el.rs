//! Element types: construction from small integers, bit patterns.
pub type C32 = [f32; 2];
pub type C64 = [f64; 2];
pub trait El: Copy + 'static {
    const CX: bool;
    const SZ: usize;
    fn of(re: i64, im: i64) -> Self;
    /// exact integers, None if NaN, infinite or fractional
    fn ints(self) -> Option<(i64, i64)>;
    fn nan(tag: u32) -> Self;
    fn negzero() -> Self;
    fn frac(x: f64, y: f64) -> Self;
    fn bits(self) -> (u64, u64);
    fn inf() -> Self;
    unsafe fn gemm(m: usize, k: usize, n: usize, al: Self, a: *const Self, rsa: isize, csa: isize,
                   b: *const Self, rsb: isize, csb: isize, be: Self, c: *mut Self, rsc: isize, csc: isize);
}
fn int(x: f64) -> Option<i64> { if x.is_finite() && x == x.trunc() && x.abs() < 1e15 { Some(x as i64) } else { None } }
macro_rules! real { ($t:ty, $u:ty, $f:path, $nanb:expr) => {
impl El for $t {
    const CX: bool = false;
    const SZ: usize = std::mem::size_of::<$t>();
    fn of(re: i64, _im: i64) -> Self { re as $t }
    fn ints(self) -> Option<(i64, i64)> { int(self as f64).map(|x| (x, 0)) }
    fn nan(tag: u32) -> Self { <$t>::from_bits($nanb | (tag as u16) as $u) }
    fn negzero() -> Self { -0.0 }
    fn frac(x: f64, _y: f64) -> Self { x as $t }
    fn bits(self) -> (u64, u64) { (self.to_bits() as u64, 0) }
    fn inf() -> Self { <$t>::INFINITY }
    unsafe fn gemm(m: usize, k: usize, n: usize, al: Self, a: *const Self, rsa: isize, csa: isize,
                   b: *const Self, rsb: isize, csb: isize, be: Self, c: *mut Self, rsc: isize, csc: isize) {
        $f(m, k, n, al, a, rsa, csa, b, rsb, csb, be, c, rsc, csc)
    }
} } }
real!(f32, u32, matrixmultiply::sgemm, 0x7fc0_0000u32);
real!(f64, u64, matrixmultiply::dgemm, 0x7ff8_0000_0000_0000u64);
macro_rules! cplx { ($t:ty, $r:ty, $f:path) => {
impl El for $t {
    const CX: bool = true;
    const SZ: usize = std::mem::size_of::<$t>();
    fn of(re: i64, im: i64) -> Self { [re as $r, im as $r] }
    fn ints(self) -> Option<(i64, i64)> { match (int(self[0] as f64), int(self[1] as f64)) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
    fn nan(tag: u32) -> Self { [<$r as El>::nan(tag), <$r as El>::nan(tag ^ 0x5a5a)] }
    fn negzero() -> Self { [-0.0, -0.0] }
    fn frac(x: f64, y: f64) -> Self { [x as $r, y as $r] }
    fn bits(self) -> (u64, u64) { (self[0].to_bits() as u64, self[1].to_bits() as u64) }
    fn inf() -> Self { [<$r>::INFINITY, <$r>::NEG_INFINITY] }
    unsafe fn gemm(m: usize, k: usize, n: usize, al: Self, a: *const Self, rsa: isize, csa: isize,
                   b: *const Self, rsb: isize, csb: isize, be: Self, c: *mut Self, rsc: isize, csc: isize) {
        $f(matrixmultiply::CGemmOption::Standard, matrixmultiply::CGemmOption::Standard,
           m, k, n, al, a, rsa, csa, b, rsb, csb, be, c, rsc, csc)
    }
} } }
cplx!(C32, f32, matrixmultiply::cgemm);
cplx!(C64, f64, matrixmultiply::zgemm);
