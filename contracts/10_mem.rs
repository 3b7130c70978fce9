// ------------------------------------------------------------------
// 10_mem.rs: values, memory, pointers
// ------------------------------------------------------------------
/// a scalar: real value and a flag "computed from allowed inputs only"
pub struct RV { pub x: real, pub c: bool }
/// a matrix element (for f32/f64: im == 0)
pub struct CV { pub re: real, pub im: real, pub c: bool }
pub open spec fn emb(r: RV) -> CV { CV { re: r.x, im: 0real, c: r.c } }
pub open spec fn unemb(v: CV) -> RV { RV { x: v.re, c: v.c } }
#[verifier::opaque]
pub open spec fn radd(a: RV, b: RV) -> RV { RV { x: a.x + b.x, c: a.c && b.c } }
#[verifier::opaque]
pub open spec fn rmul(a: RV, b: RV) -> RV { RV { x: a.x * b.x, c: a.c && b.c } }
#[verifier::opaque]
pub open spec fn rneg(a: RV) -> RV { RV { x: -a.x, c: a.c } }
#[verifier::opaque]
pub open spec fn rsub(a: RV, b: RV) -> RV { RV { x: a.x - b.x, c: a.c && b.c } }
pub open spec fn rzero() -> RV { RV { x: 0real, c: true } }
pub open spec fn rone() -> RV { RV { x: 1real, c: true } }
#[verifier::opaque]
pub open spec fn cadd(a: CV, b: CV) -> CV { CV { re: a.re + b.re, im: a.im + b.im, c: a.c && b.c } }
#[verifier::opaque]
pub open spec fn cmul(a: CV, b: CV) -> CV { CV { re: a.re * b.re - a.im * b.im, im: a.im * b.re + a.re * b.im, c: a.c && b.c } }
pub open spec fn czero() -> CV { CV { re: 0real, im: 0real, c: true } }
pub open spec fn cone() -> CV { CV { re: 1real, im: 0real, c: true } }
pub open spec fn is0(v: CV) -> bool { v.re == 0real && v.im == 0real }
pub open spec fn ris0(v: RV) -> bool { v.x == 0real }
/// the element gemm must produce from alpha, the inner product d, beta and the old element c0
pub open spec fn res(al: CV, d: CV, be: CV, c0: CV) -> CV { if is0(be) { cmul(al, d) } else { cadd(cmul(be, c0), cmul(al, d)) } }
pub open spec fn rres(al: RV, d: RV, be: RV, c0: RV) -> RV { if ris0(be) { rmul(al, d) } else { radd(rmul(be, c0), rmul(al, d)) } }

pub broadcast proof fn l_radd_0(a: RV) ensures #[trigger] radd(rzero(), a) == a { reveal(radd); }
pub broadcast proof fn l_radd_0r(a: RV) ensures #[trigger] radd(a, rzero()) == a { reveal(radd); }
pub proof fn l_radd_c(a: RV, b: RV) ensures radd(a, b) == radd(b, a) { reveal(radd); }
pub broadcast proof fn b_radd_c(a: RV, b: RV) ensures #[trigger] radd(a, b) == radd(b, a) { reveal(radd); }
pub proof fn l_rmul_c(a: RV, b: RV) ensures rmul(a, b) == rmul(b, a) { reveal(rmul); assert(a.x * b.x == b.x * a.x) by(nonlinear_arith); }
pub broadcast proof fn b_rmul_c(a: RV, b: RV) ensures #[trigger] rmul(a, b) == rmul(b, a) { l_rmul_c(a, b); }
pub broadcast proof fn l_emb_add(a: RV, b: RV) ensures #[trigger] emb(radd(a, b)) == cadd(emb(a), emb(b)) { reveal(radd); reveal(cadd); }
pub broadcast proof fn l_emb_mul(a: RV, b: RV) ensures #[trigger] emb(rmul(a, b)) == cmul(emb(a), emb(b)) {
    reveal(rmul); reveal(cmul);
    let (x, y) = (a.x, b.x);
    assert(x * y - 0real * 0real == x * y && 0real * y + x * 0real == 0real) by(nonlinear_arith);
}
pub proof fn l_emb_res(al: RV, d: RV, be: RV, c0: RV) ensures emb(rres(al, d, be, c0)) == res(emb(al), emb(d), emb(be), emb(c0)) {
    broadcast use l_emb_add, l_emb_mul;
}
pub broadcast proof fn l_cadd_0(a: CV) ensures #[trigger] cadd(czero(), a) == a { reveal(cadd); }
pub broadcast proof fn l_cadd_0r(a: CV) ensures #[trigger] cadd(a, czero()) == a { reveal(cadd); }
pub proof fn l_cadd_c(a: CV, b: CV) ensures cadd(a, b) == cadd(b, a) { reveal(cadd); }
pub proof fn l_cadd_a(a: CV, b: CV, c: CV) ensures cadd(cadd(a, b), c) == cadd(a, cadd(b, c)) { reveal(cadd); }
pub broadcast proof fn l_cmul_1(a: CV) ensures #[trigger] cmul(cone(), a) == a { reveal(cmul);
    let (x, y) = (a.re, a.im);
    assert(1real * x - 0real * y == x && 0real * x + 1real * y == y) by(nonlinear_arith); }
pub proof fn l_cmul_c(a: CV, b: CV) ensures cmul(a, b) == cmul(b, a) { reveal(cmul);
    assert(a.re * b.re == b.re * a.re) by(nonlinear_arith);
    assert(a.im * b.im == b.im * a.im) by(nonlinear_arith);
    assert(a.im * b.re == b.re * a.im) by(nonlinear_arith);
    assert(a.re * b.im == b.im * a.re) by(nonlinear_arith); }
pub proof fn l_cdist(a: CV, b: CV, c: CV) ensures cmul(a, cadd(b, c)) == cadd(cmul(a, b), cmul(a, c)) { reveal(cmul); reveal(cadd);
    let (ar, ai, br, bi, cr, ci) = (a.re, a.im, b.re, b.im, c.re, c.im);
    assert(ar * (br + cr) == ar * br + ar * cr) by(nonlinear_arith);
    assert(ar * (bi + ci) == ar * bi + ar * ci) by(nonlinear_arith);
    assert(ai * (br + cr) == ai * br + ai * cr) by(nonlinear_arith);
    assert(ai * (bi + ci) == ai * bi + ai * ci) by(nonlinear_arith); }

// ---- memory
pub struct Cpu { pub sse2: bool, pub avx: bool, pub avx2: bool, pub fma: bool }
/// Raw memory in scalar units of the call's element type: values, initialised-and-readable set,
/// writable set, live allocations of the call (byte address -> size, align), scalar size, CPU.
pub struct MV {
    pub val: IMap<int, RV>,
    pub rd: ISet<int>,
    pub wr: ISet<int>,
    pub allocs: IMap<int, (int, int)>,
    pub rsz: int,
    pub cpu: Cpu,
    /// the thread's mask buffer is handed out
    pub tls: bool,
}
pub struct Mem { pub v: Ghost<MV> }
impl MV {
    pub open spec fn set(self, s: int, v: RV) -> MV { MV { val: self.val.insert(s, v), rd: self.rd.insert(s), ..self } }
    pub open spec fn ok(self, s: int) -> bool { self.rd.contains(s) }
}
/// same permissions and environment, values may differ
pub open spec fn same_perm(a: MV, b: MV) -> bool { a.wr == b.wr && a.allocs == b.allocs && a.rsz == b.rsz && a.cpu == b.cpu && a.tls == b.tls }

pub trait Raw: Sized {
    /// scalars per value
    spec fn cxn() -> int;
    /// bytes per scalar
    spec fn rsz() -> int;
    fn size_() -> (r: usize) ensures r == Self::cxn() * Self::rsz();
    fn align_() -> (r: usize) ensures r == Self::rsz();
    proof fn raw_ok() ensures Self::cxn() == 1 || Self::cxn() == 2, Self::rsz() == 1 || Self::rsz() == 4 || Self::rsz() == 8;
}
pub open spec fn esz<E: Raw>() -> int { E::cxn() * E::rsz() }
pub fn size_of_<E: Raw>() -> (r: usize) ensures r == esz::<E>(), { E::size_() }
pub fn align_of_<E: Raw>() -> (r: usize) ensures r == E::rsz(), { E::align_() }
impl Raw for u8 {
    open spec fn cxn() -> int { 1 } open spec fn rsz() -> int { 1 }
    fn size_() -> (r: usize) { 1 } fn align_() -> (r: usize) { 1 }
    proof fn raw_ok() {}
}
/// matrix element types
pub trait Val: Raw + Copy {
    spec fn cv(self) -> CV;
    proof fn val_ok(self) ensures Self::cxn() == 1 ==> self.cv().im == 0real, Self::rsz() == 4 || Self::rsz() == 8;
    proof fn rsz_ok() ensures Self::rsz() == 4 || Self::rsz() == 8;
}
#[derive(Copy, Clone)]
pub struct F32 { pub v: Ghost<RV> }
#[derive(Copy, Clone)]
pub struct F64 { pub v: Ghost<RV> }
#[derive(Copy, Clone)]
pub struct Cx<S> { pub x0: S, pub x1: S }
pub trait Real: Val { spec fn rv(self) -> RV; proof fn real_ok(self) ensures self.cv() == emb(self.rv()), Self::cxn() == 1; }
impl Raw for F32 { open spec fn cxn() -> int { 1 } open spec fn rsz() -> int { 4 } fn size_() -> (r: usize) { 4 } fn align_() -> (r: usize) { 4 } proof fn raw_ok() {} }
impl Raw for F64 { open spec fn cxn() -> int { 1 } open spec fn rsz() -> int { 8 } fn size_() -> (r: usize) { 8 } fn align_() -> (r: usize) { 8 } proof fn raw_ok() {} }
impl Raw for Cx<F32> { open spec fn cxn() -> int { 2 } open spec fn rsz() -> int { 4 } fn size_() -> (r: usize) { 8 } fn align_() -> (r: usize) { 4 } proof fn raw_ok() {} }
impl Raw for Cx<F64> { open spec fn cxn() -> int { 2 } open spec fn rsz() -> int { 8 } fn size_() -> (r: usize) { 16 } fn align_() -> (r: usize) { 8 } proof fn raw_ok() {} }
impl Val for F32 { open spec fn cv(self) -> CV { emb(self.v@) } proof fn val_ok(self) {} proof fn rsz_ok() {} }
impl Val for F64 { open spec fn cv(self) -> CV { emb(self.v@) } proof fn val_ok(self) {} proof fn rsz_ok() {} }
pub open spec fn mkcv(a: RV, b: RV) -> CV { CV { re: a.x, im: b.x, c: a.c && b.c } }
impl Val for Cx<F32> { open spec fn cv(self) -> CV { mkcv(self.x0.v@, self.x1.v@) } proof fn val_ok(self) {} proof fn rsz_ok() {} }
impl Val for Cx<F64> { open spec fn cv(self) -> CV { mkcv(self.x0.v@, self.x1.v@) } proof fn val_ok(self) {} proof fn rsz_ok() {} }
impl Real for F32 { open spec fn rv(self) -> RV { self.v@ } proof fn real_ok(self) {} }
impl Real for F64 { open spec fn rv(self) -> RV { self.v@ } proof fn real_ok(self) {} }

pub open spec fn ev<E: Raw>(m: MV, a: int) -> CV {
    if E::cxn() == 1 { emb(m.val[a]) } else { mkcv(m.val[2 * a], m.val[2 * a + 1]) }
}
pub open spec fn erd<E: Raw>(m: MV, a: int) -> bool {
    if E::cxn() == 1 { m.rd.contains(a) } else { m.rd.contains(2 * a) && m.rd.contains(2 * a + 1) }
}
pub open spec fn ewr<E: Raw>(m: MV, a: int) -> bool {
    if E::cxn() == 1 { m.wr.contains(a) } else { m.wr.contains(2 * a) && m.wr.contains(2 * a + 1) }
}
pub open spec fn put<E: Raw>(m: MV, a: int, v: CV) -> MV {
    if E::cxn() == 1 { m.set(a, unemb(v)) } else { m.set(2 * a, RV { x: v.re, c: v.c }).set(2 * a + 1, RV { x: v.im, c: v.c }) }
}
/// raw scalar s belongs to element a
pub open spec fn raw_of<E: Raw>(s: int, a: int) -> bool {
    if E::cxn() == 1 { s == a } else { s == 2 * a || s == 2 * a + 1 }
}
/// element index a raw scalar belongs to
pub open spec fn elt_of<E: Raw>(s: int) -> int { if E::cxn() == 1 { s } else { s / 2 } }
pub proof fn l_elt<E: Raw>(s: int) ensures raw_of::<E>(s, elt_of::<E>(s)), forall|a: int| raw_of::<E>(s, a) ==> a == elt_of::<E>(s) {}

// ---- pointers
#[verifier::reject_recursive_types(E)]
pub struct P<E> { pub a: Ghost<int>, pub lo: Ghost<int>, pub hi: Ghost<int>, pub e: core::marker::PhantomData<E> }
impl<E> Clone for P<E> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<E> Copy for P<E> {}
impl<E> P<E> {
    pub open spec fn wf(self) -> bool { self.lo@ <= self.a@ <= self.hi@ && self.hi@ - self.lo@ <= isize::MAX && 0 <= self.lo@ }
    /// x is the address of a whole element of the allocation the pointer belongs to
    pub open spec fn inb(self, x: int) -> bool { self.lo@ <= x && x < self.hi@ }
    pub open spec fn at(self, x: int) -> P<E> { P { a: Ghost(x), ..self } }
    #[verifier::external_body]
    pub fn offset(self, i: isize) -> (r: P<E>)
        requires
            self.wf(), /*@req offset [C06 C07 C03 C05]*/
            self.lo@ <= self.a@ + i <= self.hi@, /*@req offset [C06 C07 C03 C05]*/
        ensures r == self.at(self.a@ + i), r.wf(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, i: usize) -> (r: P<E>)
        requires
            self.wf(), /*@req add [C06 C07 C03 C05]*/
            self.lo@ <= self.a@ + i <= self.hi@, /*@req add [C06 C07 C03 C05]*/
        ensures r == self.at(self.a@ + i), r.wf(),
    { unimplemented!() }
    /// rawpointer: self.offset(s * (i as isize)); the product is within isize because both
    /// addresses are within one allocation
    #[verifier::external_body]
    pub fn stride_offset(self, s: isize, i: usize) -> (r: P<E>)
        requires
            self.wf(), /*@req stride_offset [C06 C07 C03 C05]*/
            i <= isize::MAX || s == 0, /*@req stride_offset [C08]*/
            self.lo@ <= self.a@ + i * s <= self.hi@, /*@req stride_offset [C06 C07 C03 C05]*/
        ensures r == self.at(self.a@ + i * s), r.wf(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn inc(&mut self)
        requires
            old(self).wf(), /*@req inc [C06 C07 C03]*/
            old(self).a@ + 1 <= old(self).hi@, /*@req inc [C06 C07 C03]*/
        ensures *final(self) == old(self).at(old(self).a@ + 1), final(self).wf(),
    { unimplemented!() }
    pub fn ptr(self) -> (r: P<E>) ensures r == self { self }
    pub fn to_const(self) -> (r: P<E>) ensures r == self { self }
    #[verifier::external_body]
    pub fn is_null(self) -> (r: bool) ensures r == (self.a@ == 0) { unimplemented!() }
}
impl<E: Raw> P<E> {
    #[verifier::external_body]
    pub fn cast_<F: Raw>(self) -> (r: P<F>)
        requires
            (self.a@ * esz::<E>()) % esz::<F>() == 0, /*@req cast_ [C07]*/
        ensures
            r.a@ * esz::<F>() == self.a@ * esz::<E>(),
            r.lo@ == ceil_div(self.lo@ * esz::<E>(), esz::<F>()),
            r.hi@ == (self.hi@ * esz::<E>()) / esz::<F>(),
            // an allocation has at most isize::MAX bytes
            self.wf() ==> r.wf(),
    { unimplemented!() }
    pub fn cast_any_<F: Raw>(self) -> (r: P<F>)
        requires
            (self.a@ * esz::<E>()) % esz::<F>() == 0, /*@req cast_any_ [C07]*/
        ensures
            r.a@ * esz::<F>() == self.a@ * esz::<E>(),
            r.lo@ == ceil_div(self.lo@ * esz::<E>(), esz::<F>()),
            r.hi@ == (self.hi@ * esz::<E>()) / esz::<F>(),
    { self.cast_::<F>() }
}
/// pointer to address
impl<E: Raw> ToUsize for P<E> {
    uninterp spec fn tous(self) -> usize;
    #[verifier::external_body]
    fn to_us(self) -> (r: usize) { unimplemented!() }
}
/// the address of element a is a * size
pub axiom fn ax_paddr<E: Raw>(p: P<E>)
    requires 0 <= p.a@ * esz::<E>() <= usize::MAX,
    ensures p.tous() == p.a@ * esz::<E>();

#[verifier::external_body]
pub fn rd_<E: Val>(p: P<E>, mem: &Mem) -> (r: E)
    requires
        p.inb(p.a@), /*@req rd_ [C04 C05 C06 C07]*/
        erd::<E>(mem.v@, p.a@), /*@req rd_ [C04 C05 C06 C07]*/
    ensures r.cv() == ev::<E>(mem.v@, p.a@),
{ unimplemented!() }
#[verifier::external_body]
pub fn wr_<E: Val>(p: P<E>, v: E, mem: &mut Mem)
    requires
        p.inb(p.a@), /*@req wr_ [C03 C06 C07]*/
        ewr::<E>(old(mem).v@, p.a@), /*@req wr_ [C03 C06 C07 C09]*/
    ensures final(mem).v@ == put::<E>(old(mem).v@, p.a@, v.cv()),
{ unimplemented!() }
/// scalars [lo,hi) of dst receive those of src
pub open spec fn copied(o: MV, n: MV, src: int, dst: int, len: int) -> bool {
    &&& forall|s: int| #![trigger n.val[s]] n.val[s] == (if dst <= s < dst + len { o.val[s - dst + src] } else { o.val[s] })
    &&& forall|s: int| #![trigger n.rd.contains(s)] n.rd.contains(s) == (o.rd.contains(s) || dst <= s < dst + len)
    &&& same_perm(o, n)
}
#[verifier::external_body]
pub fn copy_nonoverlapping_<E: Raw>(src: P<E>, dst: P<E>, n: usize, mem: &mut Mem)
    requires
        src.wf() && dst.wf(), /*@req copy_nonoverlapping_ [C06 C07]*/
        src.a@ + n <= src.hi@, /*@req copy_nonoverlapping_ [C06 C07]*/
        dst.a@ + n <= dst.hi@, /*@req copy_nonoverlapping_ [C06 C07]*/
        src.a@ + n <= dst.a@ || dst.a@ + n <= src.a@, /*@req copy_nonoverlapping_ [C06 C07]*/
        forall|s: int| E::cxn() * src.a@ <= s < E::cxn() * (src.a@ + n) ==> #[trigger] old(mem).v@.rd.contains(s), /*@req copy_nonoverlapping_ [C06 C07]*/
        forall|s: int| E::cxn() * dst.a@ <= s < E::cxn() * (dst.a@ + n) ==> #[trigger] old(mem).v@.wr.contains(s), /*@req copy_nonoverlapping_ [C03 C06 C07]*/
    ensures copied(old(mem).v@, final(mem).v@, E::cxn() * src.a@, E::cxn() * dst.a@, E::cxn() * n),
{ unimplemented!() }

// ---- slices
#[verifier::reject_recursive_types(E)]
pub struct Sl<E> { pub p: P<E>, pub n: usize }
impl<E> Clone for Sl<E> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<E> Copy for Sl<E> {}
impl<E> Sl<E> {
    pub open spec fn wf(self) -> bool { self.p.wf() && self.p.lo@ == self.p.a@ && self.p.hi@ == self.p.a@ + self.n }
    pub fn as_ptr(self) -> (r: P<E>) ensures r == self.p { self.p }
    pub fn as_mut_ptr(self) -> (r: P<E>) ensures r == self.p { self.p }
    pub fn len(self) -> (r: usize) ensures r == self.n { self.n }
}
#[verifier::external_body]
pub fn from_raw_parts_mut_<E>(p: P<E>, n: usize) -> (r: Sl<E>)
    requires
        p.wf(), /*@req from_raw_parts_mut_ [C07]*/
        p.a@ + n <= p.hi@, /*@req from_raw_parts_mut_ [C07]*/
    ensures r.wf(), r.p.a@ == p.a@, r.n == n,
{ unimplemented!() }

// ---- strided matrices
#[verifier::opaque]
pub open spec fn at2(b: int, i: int, rs: int, j: int, cs: int) -> int { b + i * rs + j * cs }
pub proof fn l_at2(b: int, i: int, rs: int, j: int, cs: int) ensures at2(b, i, rs, j, cs) == b + i * rs + j * cs { reveal(at2); }
pub proof fn l_at2_sh(b: int, i0: int, j0: int, i: int, rs: int, j: int, cs: int)
    ensures at2(at2(b, i0, rs, j0, cs), i, rs, j, cs) == at2(b, i0 + i, rs, j0 + j, cs)
{ reveal(at2); assert((i0 + i) * rs == i0 * rs + i * rs && (j0 + j) * cs == j0 * cs + j * cs) by(nonlinear_arith); }
pub proof fn l_at2_shall(b: int, i0: int, j0: int, rs: int, cs: int)
    ensures forall|i: int, j: int| #[trigger] at2(at2(b, i0, rs, j0, cs), i, rs, j, cs) == at2(b, i0 + i, rs, j0 + j, cs)
{ assert forall|i: int, j: int| #[trigger] at2(at2(b, i0, rs, j0, cs), i, rs, j, cs) == at2(b, i0 + i, rs, j0 + j, cs) by { l_at2_sh(b, i0, j0, i, rs, j, cs); } }
pub proof fn l_at2_tr(b: int, i: int, rs: int, j: int, cs: int) ensures at2(b, i, rs, j, cs) == at2(b, j, cs, i, rs) { reveal(at2); }
/// all r x c elements are readable and inside the allocation
pub open spec fn mrd<E: Raw>(m: MV, p: P<E>, r: int, c: int, rs: int, cs: int) -> bool {
    forall|i: int, j: int| 0 <= i < r && 0 <= j < c ==> p.inb(#[trigger] at2(p.a@, i, rs, j, cs)) && erd::<E>(m, at2(p.a@, i, rs, j, cs))
}
pub open spec fn mwr<E: Raw>(m: MV, p: P<E>, r: int, c: int, rs: int, cs: int) -> bool {
    forall|i: int, j: int| 0 <= i < r && 0 <= j < c ==> p.inb(#[trigger] at2(p.a@, i, rs, j, cs)) && ewr::<E>(m, at2(p.a@, i, rs, j, cs))
}
/// distinct positions have distinct addresses
pub open spec fn minj(b: int, r: int, c: int, rs: int, cs: int) -> bool {
    forall|i: int, j: int, i2: int, j2: int| 0 <= i < r && 0 <= j < c && 0 <= i2 < r && 0 <= j2 < c
        && #[trigger] at2(b, i, rs, j, cs) == #[trigger] at2(b, i2, rs, j2, cs) ==> i == i2 && j == j2
}
/// element address x is one of the matrix
pub open spec fn in_mat(x: int, b: int, r: int, c: int, rs: int, cs: int) -> bool {
    exists|i: int, j: int| 0 <= i < r && 0 <= j < c && #[trigger] at2(b, i, rs, j, cs) == x
}
/// raw scalar s is part of an element of the matrix
pub open spec fn raw_in<E: Raw>(s: int, b: int, r: int, c: int, rs: int, cs: int) -> bool { in_mat(elt_of::<E>(s), b, r, c, rs, cs) }
/// raw scalar s lies in the contiguous block of n elements from b
pub open spec fn raw_blk<E: Raw>(s: int, b: int, n: int) -> bool { E::cxn() * b <= s < E::cxn() * (b + n) }

// ---- floating point operators
pub fn f0_<F: FLit>() -> (r: F) ensures r.rv() == rzero() { F::lit0() }
pub fn f1_<F: FLit>() -> (r: F) ensures r.rv() == rone() { F::lit1() }
pub trait FLit: Real { fn lit0() -> (r: Self) ensures r.rv() == rzero(); fn lit1() -> (r: Self) ensures r.rv() == rone(); }
impl FLit for F32 { fn lit0() -> (r: Self) { F32 { v: Ghost(rzero()) } } fn lit1() -> (r: Self) { F32 { v: Ghost(rone()) } } }
impl FLit for F64 { fn lit0() -> (r: Self) { F64 { v: Ghost(rzero()) } } fn lit1() -> (r: Self) { F64 { v: Ghost(rone()) } } }
pub trait Feq: Sized { spec fn feq(self, o: Self) -> bool; fn feq_x(self, o: Self) -> (r: bool) ensures r == self.feq(o); }
impl Feq for F32 { open spec fn feq(self, o: Self) -> bool { self.v@.x == o.v@.x } #[verifier::external_body] fn feq_x(self, o: Self) -> (r: bool) { unimplemented!() } }
impl Feq for F64 { open spec fn feq(self, o: Self) -> bool { self.v@.x == o.v@.x } #[verifier::external_body] fn feq_x(self, o: Self) -> (r: bool) { unimplemented!() } }
impl Feq for Cx<F32> { open spec fn feq(self, o: Self) -> bool { self.x0.feq(o.x0) && self.x1.feq(o.x1) } fn feq_x(self, o: Self) -> (r: bool) { let a = self.x0.feq_x(o.x0); let b = self.x1.feq_x(o.x1); a && b } }
impl Feq for Cx<F64> { open spec fn feq(self, o: Self) -> bool { self.x0.feq(o.x0) && self.x1.feq(o.x1) } fn feq_x(self, o: Self) -> (r: bool) { let a = self.x0.feq_x(o.x0); let b = self.x1.feq_x(o.x1); a && b } }
pub fn feq_<T: Feq>(a: T, b: T) -> (r: bool) ensures r == a.feq(b) { a.feq_x(b) }
impl EqA for F32 { open spec fn eqa(self, o: Self) -> bool { self.feq(o) } }
impl EqA for F64 { open spec fn eqa(self, o: Self) -> bool { self.feq(o) } }
impl EqA for Cx<F32> { open spec fn eqa(self, o: Self) -> bool { self.feq(o) } }
impl EqA for Cx<F64> { open spec fn eqa(self, o: Self) -> bool { self.feq(o) } }
impl core::ops::Mul for F32 { type Output = F32; #[verifier::external_body] fn mul(self, o: F32) -> (r: F32) ensures r.v@ == rmul(self.v@, o.v@) { unimplemented!() } }
impl MulSpecImpl<F32> for F32 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F32) -> bool { true } open spec fn mul_spec(self, o: F32) -> F32 { arbitrary() } }
impl core::ops::Add for F32 { type Output = F32; #[verifier::external_body] fn add(self, o: F32) -> (r: F32) ensures r.v@ == radd(self.v@, o.v@) { unimplemented!() } }
impl AddSpecImpl<F32> for F32 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: F32) -> bool { true } open spec fn add_spec(self, o: F32) -> F32 { arbitrary() } }
impl core::ops::Sub for F32 { type Output = F32; #[verifier::external_body] fn sub(self, o: F32) -> (r: F32) ensures r.v@ == rsub(self.v@, o.v@) { unimplemented!() } }
impl SubSpecImpl<F32> for F32 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: F32) -> bool { true } open spec fn sub_spec(self, o: F32) -> F32 { arbitrary() } }
impl core::ops::Neg for F32 { type Output = F32; #[verifier::external_body] fn neg(self) -> (r: F32) ensures r.v@ == rneg(self.v@) { unimplemented!() } }
impl NegSpecImpl for F32 { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F32 { arbitrary() } }
impl F32 { #[verifier::external_body] pub fn mul_add(self, a: F32, b: F32) -> (r: F32) ensures r.v@ == radd(rmul(self.v@, a.v@), b.v@) { unimplemented!() } }
impl core::ops::Mul for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> (r: F64) ensures r.v@ == rmul(self.v@, o.v@) { unimplemented!() } }
impl MulSpecImpl<F64> for F64 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F64) -> bool { true } open spec fn mul_spec(self, o: F64) -> F64 { arbitrary() } }
impl core::ops::Add for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> (r: F64) ensures r.v@ == radd(self.v@, o.v@) { unimplemented!() } }
impl AddSpecImpl<F64> for F64 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: F64) -> bool { true } open spec fn add_spec(self, o: F64) -> F64 { arbitrary() } }
impl core::ops::Sub for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> (r: F64) ensures r.v@ == rsub(self.v@, o.v@) { unimplemented!() } }
impl SubSpecImpl<F64> for F64 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: F64) -> bool { true } open spec fn sub_spec(self, o: F64) -> F64 { arbitrary() } }
impl core::ops::Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> (r: F64) ensures r.v@ == rneg(self.v@) { unimplemented!() } }
impl NegSpecImpl for F64 { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F64 { arbitrary() } }
impl F64 { #[verifier::external_body] pub fn mul_add(self, a: F64, b: F64) -> (r: F64) ensures r.v@ == radd(rmul(self.v@, a.v@), b.v@) { unimplemented!() } }
// ---- CPU detection: what std_detect (or the compilation target) says is what the CPU has
#[verifier::external_body]
pub fn cpu_has_sse2_(mem: &Mem) -> (r: bool) ensures r == mem.v@.cpu.sse2, { unimplemented!() }
#[verifier::external_body]
pub fn cpu_has_avx_(mem: &Mem) -> (r: bool) ensures r == mem.v@.cpu.avx, { unimplemented!() }
#[verifier::external_body]
pub fn cpu_has_avx2_(mem: &Mem) -> (r: bool) ensures r == mem.v@.cpu.avx2, { unimplemented!() }
#[verifier::external_body]
pub fn cpu_has_fma_(mem: &Mem) -> (r: bool) ensures r == mem.v@.cpu.fma, { unimplemented!() }
