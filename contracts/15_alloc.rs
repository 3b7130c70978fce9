// ------------------------------------------------------------------
// 15_alloc.rs: allocator, mask buffers
// ------------------------------------------------------------------
pub open spec fn al_ok(a: int) -> bool { a == 1 || a == 2 || a == 4 || a == 8 || a == 16 || a == 32 }
/// scalar s (of rsz bytes) lies in the bytes [b, b + n)
pub open spec fn byte_blk(s: int, rsz: int, b: int, n: int) -> bool { b <= s * rsz && (s + 1) * rsz <= b + n }
/// the bytes [b, b+n) become writable; nothing readable or writable so far is among them
pub open spec fn fresh(o: MV, m: MV, b: int, n: int) -> bool {
    &&& forall|s: int| #[trigger] m.wr.contains(s) == (o.wr.contains(s) || byte_blk(s, o.rsz, b, n))
    &&& forall|s: int| #![trigger o.rd.contains(s)] #![trigger o.wr.contains(s)] byte_blk(s, o.rsz, b, n) ==> !o.rd.contains(s) && !o.wr.contains(s)
    &&& m.rsz == o.rsz && m.cpu == o.cpu
}
/// permissions on the bytes [b, b+n) are given up
pub open spec fn given_up(o: MV, m: MV, b: int, n: int) -> bool {
    &&& forall|s: int| #[trigger] m.wr.contains(s) == (o.wr.contains(s) && !byte_blk(s, o.rsz, b, n))
    &&& forall|s: int| #[trigger] m.rd.contains(s) == (o.rd.contains(s) && !byte_blk(s, o.rsz, b, n))
    &&& m.rsz == o.rsz && m.cpu == o.cpu && m.val == o.val
}
#[derive(Clone, Copy)]
pub struct Layout { pub size: usize, pub align: usize }
pub open spec fn layout_ok(size: int, align: int) -> bool { al_ok(align) && size <= isize::MAX - 32 }
impl Layout {
    #[verifier::external_body]
    pub fn from_size_align(size: usize, align: usize) -> (r: Result<Layout, ()>)
        ensures layout_ok(size as int, align as int) ==> r == Ok::<Layout, ()>(Layout { size, align }),
    { unimplemented!() }
    pub fn from_size_align_unchecked(size: usize, align: usize) -> (r: Layout)
        requires
            layout_ok(size as int, align as int), /*@req from_size_align_unchecked [C07]*/
        ensures r == (Layout { size, align }),
    { Layout { size, align } }
}
/// the model's element grid: allocator addresses are multiples of 16
#[verifier::external_body]
pub fn alloc_(l: Layout, mem: &mut Mem) -> (r: P<u8>)
    requires
        l.size > 0, /*@req alloc_ [C07]*/
    ensures
        r.a@ == 0 ==> final(mem).v@ == old(mem).v@,
        r.a@ != 0 ==> {
            &&& r.a@ > 0 && r.lo@ == r.a@ && r.hi@ == r.a@ + l.size && r.hi@ <= usize::MAX
            &&& r.a@ % 16 == 0 && (al_ok(l.align as int) ==> r.a@ % (l.align as int) == 0)
            &&& fresh(old(mem).v@, final(mem).v@, r.a@, l.size as int)
            &&& !old(mem).v@.allocs.contains_key(r.a@)
            &&& final(mem).v@.allocs == old(mem).v@.allocs.insert(r.a@, (l.size as int, l.align as int))
            &&& final(mem).v@.val == old(mem).v@.val && final(mem).v@.rd == old(mem).v@.rd && final(mem).v@.tls == old(mem).v@.tls
        },
{ unimplemented!() }
#[verifier::external_body]
pub fn dealloc_(p: P<u8>, l: Layout, mem: &mut Mem)
    requires
        old(mem).v@.allocs.contains_key(p.a@), /*@req dealloc_ [C07]*/
        old(mem).v@.allocs[p.a@] == (l.size as int, l.align as int), /*@req dealloc_ [C07]*/
    ensures
        given_up(old(mem).v@, final(mem).v@, p.a@, l.size as int),
        final(mem).v@.allocs == old(mem).v@.allocs.remove(p.a@), final(mem).v@.tls == old(mem).v@.tls,
{ unimplemented!() }
#[verifier::external_body]
pub fn handle_alloc_error_(l: Layout) ensures false, { unimplemented!() }
/// an allocation for n elements at a of type E is the raw block of those elements
pub proof fn l_byte_blk<E: Raw>(a: int, n: int)
    requires E::rsz() == 4 || E::rsz() == 8,
    ensures forall|s: int| byte_blk(s, E::rsz(), a * esz::<E>(), n * esz::<E>()) == #[trigger] raw_blk::<E>(s, a, n),
{
    E::raw_ok();
    let (c, z) = (E::cxn(), E::rsz());
    assert(a * (c * z) == (c * a) * z && n * (c * z) == (c * n) * z && c * (a + n) == c * a + c * n) by(nonlinear_arith);
    assert forall|s: int| byte_blk(s, E::rsz(), a * esz::<E>(), n * esz::<E>()) == #[trigger] raw_blk::<E>(s, a, n) by {
        let (p, q) = (c * a, c * n);
        if z == 4 {} else {}
    }
}

// ---- the thread's mask buffer (thread_local!): len bytes, `align` from its repr
#[verifier::external_body]
pub fn mask_buf_tls_(len: usize, align: usize, mem: &mut Mem) -> (r: P<u8>)
    requires
        !old(mem).v@.tls, /*@req mask_buf_tls_ [C07]*/
    ensures
        r.a@ > 0 && r.lo@ == r.a@ && r.hi@ == r.a@ + len && r.hi@ <= usize::MAX, align > 0 ==> r.a@ % (align as int) == 0,
        fresh(old(mem).v@, final(mem).v@, r.a@, len as int),
        final(mem).v@.tls, final(mem).v@.allocs == old(mem).v@.allocs, final(mem).v@.val == old(mem).v@.val, final(mem).v@.rd == old(mem).v@.rd,
{ unimplemented!() }
/// end of the time the buffer is in use (ghost)
#[verifier::external_body]
pub fn mask_buf_back_(b: Ghost<int>, len: Ghost<int>, mem: &mut Mem)
    ensures given_up(old(mem).v@, final(mem).v@, b@, len@), !final(mem).v@.tls, final(mem).v@.allocs == old(mem).v@.allocs,
{ unimplemented!() }
/// end of the life of a local buffer (ghost)
#[verifier::external_body]
pub fn local_back_(b: Ghost<int>, len: Ghost<int>, mem: &mut Mem)
    ensures given_up(old(mem).v@, final(mem).v@, b@, len@), final(mem).v@.tls == old(mem).v@.tls, final(mem).v@.allocs == old(mem).v@.allocs,
{ unimplemented!() }
/// a mask buffer in a local variable
pub struct MaskBuffer { pub buffer: Sl<u8> }
#[verifier::external_body]
pub fn mask_buffer_local_(len: usize, align: usize, mem: &mut Mem) -> (r: MaskBuffer)
    ensures
        r.buffer.wf() && r.buffer.n == len && r.buffer.p.a@ > 0 && r.buffer.p.hi@ <= usize::MAX, align > 0 ==> r.buffer.p.a@ % (align as int) == 0,
        fresh(old(mem).v@, final(mem).v@, r.buffer.p.a@, len as int),
        final(mem).v@.tls == old(mem).v@.tls, final(mem).v@.allocs == old(mem).v@.allocs, final(mem).v@.val == old(mem).v@.val, final(mem).v@.rd == old(mem).v@.rd,
{ unimplemented!() }
pub proof fn l_esz<E: Raw>()
    requires E::rsz() == 4 || E::rsz() == 8,
    ensures
        esz::<E>() == 4 || esz::<E>() == 8 || esz::<E>() == 16,
        esz::<u8>() == 1,
        forall|a: int| a % 16 == 0 ==> #[trigger] (a % esz::<E>()) == 0,
        forall|a: int| #[trigger] (a * esz::<u8>()) == a,
        forall|n: int| n > 0 ==> #[trigger] (esz::<E>() * n) > 0 && esz::<E>() * n == n * esz::<E>(),
        E::rsz() <= esz::<E>(),
{
    E::raw_ok();
    let (c, z) = (E::cxn(), E::rsz());
    assert(esz::<E>() == c * z);
    assert(c == 1 ==> c * z == z) by(nonlinear_arith);
    assert(c == 2 ==> c * z == 2 * z) by(nonlinear_arith);
    let e = esz::<E>();
    assert forall|n: int| n > 0 implies #[trigger] (esz::<E>() * n) > 0 && esz::<E>() * n == n * esz::<E>() by {
        assert(e * n > 0 && e * n == n * e) by(nonlinear_arith) requires n > 0, e > 0;
    }
    assert forall|a: int| a % 16 == 0 implies #[trigger] (a % esz::<E>()) == 0 by {
        if e == 4 { assert(a % 4 == 0); } else if e == 8 { assert(a % 8 == 0); } else { assert(a % 16 == 0); }
    }
}
/// round down/up of exact multiples
pub proof fn l_exact(a: int, e: int)
    requires e > 0, a % e == 0,
    ensures (a / e) * e == a, ceil_div(a, e) == a / e,
{
    l_dm(a, e);
    let q = a / e;
    assert((q * e + (e - 1)) / e == q) by { l_divmod(q, e, e - 1); }
}
/// the address of a fresh allocation of n elements, in bytes and in elements
pub proof fn l_alloc_new<E: Raw>(b: int, n: int)
    requires E::rsz() == 4 || E::rsz() == 8, b > 0, b % 16 == 0, n > 0,
    ensures
        b % esz::<E>() == 0,
        (b / esz::<E>()) * esz::<E>() == b, b / esz::<E>() > 0,
        forall|x: int| #[trigger] (x * esz::<E>()) == b ==> x == b / esz::<E>(),
        ceil_div(b, esz::<E>()) == b / esz::<E>(),
        (b + esz::<E>() * n) / esz::<E>() == b / esz::<E>() + n,
        (b + n * esz::<E>()) / esz::<E>() == b / esz::<E>() + n,
        (b / esz::<E>() + n) * esz::<E>() == b + n * esz::<E>(),
        esz::<E>() * n == n * esz::<E>(), n <= n * esz::<E>(),
{
    l_esz::<E>();
    let e = esz::<E>();
    let a = b / e;
    l_exact(b, e);
    assert(a > 0) by(nonlinear_arith) requires a * e == b, b > 0, e > 0;
    assert forall|x: int| #[trigger] (x * e) == b implies x == a by { assert(x == a) by(nonlinear_arith) requires x * e == a * e, e > 0; }
    assert(e * n == n * e && n <= n * e) by(nonlinear_arith) requires e >= 1, n > 0;
    assert((a + n) * e == a * e + n * e) by(nonlinear_arith);
    assert(((a + n) * e) / e == a + n) by { l_divmod(a + n, e, 0); }
}
pub proof fn l_al_max(b: int, al: int, z: int)
    requires al == 0 || al_ok(al), z == 4 || z == 8, b % 16 == 0, b % imax(al, z) == 0,
    ensures al_ok(imax(al, z)), al != 0 ==> b % al == 0,
{
    if al == 0 { }
    else if al == 1 { assert(b % 1 == 0); }
    else if al == 2 { assert(b % 2 == 0); }
    else if al == 4 { assert(b % 4 == 0); }
    else if al == 8 { assert(b % 8 == 0); }
    else if al == 16 { assert(imax(al, z) == 16); }
    else { assert(al == 32); assert(imax(al, z) == 32); assert(b % 32 == 0); }
}
