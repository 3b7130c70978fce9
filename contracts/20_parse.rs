// ------------------------------------------------------------------
// 20_parse.rs: byte texts, lengths, indexing that may panic on purpose
// ------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct Str { pub b: Ghost<Seq<u8>> }
impl Str {
    #[verifier::external_body]
    pub fn as_bytes(self) -> (r: Str) ensures r == self { self }
}
pub trait HasLen: Sized { spec fn nlen(self) -> usize; fn len_x(self) -> (r: usize) ensures r == self.nlen(); }
impl<E> HasLen for Sl<E> { open spec fn nlen(self) -> usize { self.n } fn len_x(self) -> (r: usize) { self.n } }
impl HasLen for Str {
    open spec fn nlen(self) -> usize { self.b@.len() as usize }
    #[verifier::external_body] fn len_x(self) -> (r: usize) { unimplemented!() }
}
impl<const N: usize> HasLen for [usize; N] {
    open spec fn nlen(self) -> usize { N }
    fn len_x(self) -> (r: usize) { N }
}
pub fn len_m_<T: HasLen>(x: T) -> (r: usize) ensures r == x.nlen() { x.len_x() }
/// indexing whose bounds panic is an intended rejection: it may fail only when `may`
pub trait Idx<T>: Sized { spec fn sq(self) -> Seq<T>; fn get_x(self, i: usize) -> (r: T) requires i < self.sq().len(), ensures r == self.sq()[i as int]; }
impl Idx<u8> for Str {
    open spec fn sq(self) -> Seq<u8> { self.b@ }
    #[verifier::external_body] fn get_x(self, i: usize) -> (r: u8) { unimplemented!() }
}
impl<const N: usize> Idx<usize> for [usize; N] {
    open spec fn sq(self) -> Seq<usize> { self@ }
    fn get_x(self, i: usize) -> (r: usize) { self[i] }
}
#[verifier::external_body]
pub fn pidx_<T, A: Idx<T>>(a: A, i: usize, may: Ghost<bool>) -> (r: T)
    requires
        !may@ ==> i < a.sq().len(), /*@req pidx_ [C13]*/
    ensures i < a.sq().len(), r == a.sq()[i as int],
{ a.get_x(i) }

pub open spec fn dig(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn p10(n: int) -> int decreases n { if n <= 0 { 1 } else { 10 * p10(n - 1) } }
/// decimal value of the first n digits of s when followed by (len - n) zeros
pub open spec fn dval(s: Seq<u8>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { dval(s, n - 1) + (s[n - 1] - 48) * p10(s.len() - n) }
}
pub open spec fn digits(s: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> dig(#[trigger] s[i]) }
/// texts a blocking variable may have
pub open spec fn num_ok(s: Seq<u8>) -> bool { s.len() <= 20 && digits(s, s.len() as int) && dval(s, s.len() as int) <= usize::MAX }
pub proof fn l_p10(n: int) ensures p10(n) >= 1 decreases n { if n > 0 { l_p10(n - 1); } }
/// partial sums never decrease
pub proof fn l_dval_mono(s: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m <= s.len(), digits(s, m),
    ensures 0 <= dval(s, n) <= dval(s, m)
    decreases m
{
    if n < m {
        l_dval_mono(s, n, m - 1);
        l_p10(s.len() - m);
        assert(dig(s[m - 1]));
        assert((s[m - 1] - 48) * p10(s.len() - m) >= 0) by(nonlinear_arith) requires s[m - 1] >= 48, p10(s.len() - m) >= 1;
    } else if n > 0 {
        l_dval_mono(s, n - 1, m - 1);
        l_p10(s.len() - m);
        assert(dig(s[m - 1]));
        assert((s[m - 1] - 48) * p10(s.len() - m) >= 0) by(nonlinear_arith) requires s[m - 1] >= 48, p10(s.len() - m) >= 1;
    }
}
