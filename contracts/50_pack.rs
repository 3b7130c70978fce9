// ------------------------------------------------------------------
// 50_pack.rs: progress of packing (real element types)
// ------------------------------------------------------------------
#[verifier::opaque]
pub open spec fn poff(mr: int, kc: int, q: int, t: int, i: int) -> int { q * (mr * kc) + t * mr + i }
pub proof fn l_poff(mr: int, kc: int, q: int, t: int, i: int) ensures poff(mr, kc, q, t, i) == q * (mr * kc) + t * mr + i { reveal(poff); }
pub open spec fn lexlt(q: int, t: int, i: int, q2: int, t2: int, i2: int) -> bool { q < q2 || (q == q2 && (t < t2 || (t == t2 && i < i2))) }
pub proof fn l_poff_lt(mr: int, kc: int, q: int, t: int, i: int, q2: int, t2: int, i2: int)
    requires 0 < mr, 0 <= i < mr, 0 <= i2 , 0 <= t < kc, 0 <= t2, lexlt(q, t, i, q2, t2, i2),
    ensures poff(mr, kc, q, t, i) < poff(mr, kc, q2, t2, i2),
{
    reveal(poff);
    assert(t * mr + i < kc * mr) by(nonlinear_arith) requires t <= kc - 1, 0 <= i < mr, mr > 0;
    assert(kc * mr == mr * kc) by(nonlinear_arith);
    assert(t2 * mr >= 0) by(nonlinear_arith) requires t2 >= 0, mr > 0;
    if q < q2 {
        assert(q2 * (mr * kc) >= (q + 1) * (mr * kc)) by(nonlinear_arith) requires q2 >= q + 1, mr * kc >= 0;
        assert((q + 1) * (mr * kc) == q * (mr * kc) + mr * kc) by(nonlinear_arith);
    } else if t < t2 {
        assert(t2 * mr >= (t + 1) * mr) by(nonlinear_arith) requires t2 >= t + 1, mr > 0;
        assert((t + 1) * mr == t * mr + mr) by(nonlinear_arith);
    }
}
pub open spec fn pk_want(mr: int, mc: int, src: spec_fn(int, int) -> CV, q: int, i: int, t: int) -> CV { if q * mr + i < mc { src(q * mr + i, t) } else { czero() } }
/// everything lexicographically before (ir, j, ii) is packed
pub open spec fn pk_st<E: Raw>(o: MV, m: MV, b: int, mr: int, kc: int, mc: int, src: spec_fn(int, int) -> CV, ir: int, j: int, ii: int) -> bool {
    &&& forall|q: int, i: int, t: int| 0 <= q < ceil_div(mc, mr) && 0 <= i < mr && 0 <= t < kc && lexlt(q, t, i, ir, j, ii) ==>
            #[trigger] pnl::<E>(m, b + q * (mr * kc), mr, i, t) == pk_want(mr, mc, src, q, i, t)
    &&& upd_blk::<E>(o, m, b, rup(mc, mr) * kc)
    &&& forall|s: int| b <= s < b + poff(mr, kc, ir, j, ii) ==> #[trigger] m.rd.contains(s)
}
pub proof fn l_pk_init<E: Raw>(m: MV, b: int, mr: int, kc: int, mc: int, src: spec_fn(int, int) -> CV)
    requires E::cxn() == 1,
    ensures pk_st::<E>(m, m, b, mr, kc, mc, src, 0, 0, 0), poff(mr, kc, 0, 0, 0) == 0
{ reveal(poff); assert(0 * (mr * kc) == 0 && 0 * mr == 0) by(nonlinear_arith); }
/// `len` entries from (ir, j, ii) have been written
pub proof fn l_pk_step<E: Raw>(o: MV, m: MV, m2: MV, b: int, mr: int, kc: int, mc: int, src: spec_fn(int, int) -> CV, ir: int, j: int, ii: int, len: int)
    requires
        E::cxn() == 1, 0 < mr, 0 <= ii, 0 <= len, ii + len <= mr, 0 <= j < kc, 0 <= ir < ceil_div(mc, mr), 0 <= mc,
        pk_st::<E>(o, m, b, mr, kc, mc, src, ir, j, ii),
        same_perm(m, m2),
        forall|s: int| #![trigger m2.val[s]] !(b + poff(mr, kc, ir, j, ii) <= s < b + poff(mr, kc, ir, j, ii) + len) ==> m2.val[s] == m.val[s],
        forall|x: int| #![trigger m2.val[b + poff(mr, kc, ir, j, ii) + x]] 0 <= x < len ==> emb(m2.val[b + poff(mr, kc, ir, j, ii) + x]) == pk_want(mr, mc, src, ir, ii + x, j),
        forall|s: int| #![trigger m2.rd.contains(s)] m2.rd.contains(s) == (m.rd.contains(s) || (b + poff(mr, kc, ir, j, ii) <= s < b + poff(mr, kc, ir, j, ii) + len)),
    ensures pk_st::<E>(o, m2, b, mr, kc, mc, src, ir, j, ii + len), poff(mr, kc, ir, j, ii + len) == poff(mr, kc, ir, j, ii) + len,
{
    l_poff(mr, kc, ir, j, ii + len);
    l_poff(mr, kc, ir, j, ii);
    let p = poff(mr, kc, ir, j, ii);
    l_pk_bound(mr, kc, mc, ir, j, ii + len);
    assert forall|q: int, i: int, t: int| 0 <= q < ceil_div(mc, mr) && 0 <= i < mr && 0 <= t < kc && lexlt(q, t, i, ir, j, ii + len) implies
            #[trigger] pnl::<E>(m2, b + q * (mr * kc), mr, i, t) == pk_want(mr, mc, src, q, i, t) by {
        l_poff(mr, kc, q, t, i);
        if lexlt(q, t, i, ir, j, ii) {
            l_poff_lt(mr, kc, q, t, i, ir, j, ii);
            assert(pnl::<E>(m, b + q * (mr * kc), mr, i, t) == pk_want(mr, mc, src, q, i, t));
        } else {
            assert(q == ir && t == j);
            let x = i - ii;
            assert(m2.val[b + p + x] == m2.val[b + q * (mr * kc) + t * mr + i]);
        }
    }
    assert(forall|s: int| b + p <= s < b + p + len ==> #[trigger] raw_blk::<E>(s, b, rup(mc, mr) * kc));
}
/// the packed area is large enough
pub proof fn l_pk_bound(mr: int, kc: int, mc: int, ir: int, j: int, ii: int)
    requires 0 < mr, 0 <= ii <= mr, 0 <= j < kc, 0 <= ir < ceil_div(mc, mr), 0 <= mc,
    ensures 0 <= poff(mr, kc, ir, j, ii) <= rup(mc, mr) * kc,
{
    reveal(poff);
    let n = ceil_div(mc, mr);
    assert(j * mr + ii <= kc * mr) by(nonlinear_arith) requires j <= kc - 1, ii <= mr, mr > 0;
    assert(j * mr >= 0) by(nonlinear_arith) requires j >= 0, mr > 0;
    assert(mr * kc >= 0) by(nonlinear_arith) requires mr > 0, kc > 0;
    assert(kc * mr == mr * kc) by(nonlinear_arith);
    assert(ir * (mr * kc) >= 0) by(nonlinear_arith) requires ir >= 0, mr * kc >= 0;
    assert((ir + 1) * (mr * kc) <= n * (mr * kc)) by(nonlinear_arith) requires ir + 1 <= n, mr * kc >= 0;
    assert((ir + 1) * (mr * kc) == ir * (mr * kc) + mr * kc) by(nonlinear_arith);
    assert(n * (mr * kc) == n * mr * kc) by(nonlinear_arith);
}
pub proof fn l_pk_row<E: Raw>(o: MV, m: MV, b: int, mr: int, kc: int, mc: int, src: spec_fn(int, int) -> CV, ir: int, j: int)
    requires 0 < mr, 0 <= j, pk_st::<E>(o, m, b, mr, kc, mc, src, ir, j, mr),
    ensures pk_st::<E>(o, m, b, mr, kc, mc, src, ir, j + 1, 0), poff(mr, kc, ir, j + 1, 0) == poff(mr, kc, ir, j, mr)
{ reveal(poff); assert((j + 1) * mr == j * mr + mr) by(nonlinear_arith); }
pub proof fn l_pk_panel<E: Raw>(o: MV, m: MV, b: int, mr: int, kc: int, mc: int, src: spec_fn(int, int) -> CV, ir: int)
    requires 0 < mr, 0 <= kc, pk_st::<E>(o, m, b, mr, kc, mc, src, ir, kc, 0),
    ensures pk_st::<E>(o, m, b, mr, kc, mc, src, ir + 1, 0, 0), poff(mr, kc, ir + 1, 0, 0) == poff(mr, kc, ir, kc, 0)
{ reveal(poff); assert((ir + 1) * (mr * kc) == ir * (mr * kc) + mr * kc && kc * mr == mr * kc && 0 * mr == 0) by(nonlinear_arith); }
pub proof fn l_pk_done<E: Raw>(o: MV, m: MV, b: int, mr: int, kc: int, mc: int, src: spec_fn(int, int) -> CV, n: int)
    requires 0 < mr, 0 <= kc, n == ceil_div(mc, mr), pk_st::<E>(o, m, b, mr, kc, mc, src, n, 0, 0), E::cxn() == 1,
    ensures
        packed::<E>(m, b, mr, kc, mc, src), blk_rd::<E>(m, b, rup(mc, mr) * kc),
        upd_blk::<E>(o, m, b, rup(mc, mr) * kc),
{ reveal(poff); assert(n * (mr * kc) == n * mr * kc && 0 * mr == 0) by(nonlinear_arith);
  assert forall|q: int, i: int, t: int| 0 <= q < ceil_div(mc, mr) && 0 <= i < mr && 0 <= t < kc implies
        #[trigger] pnl::<E>(m, b + q * (mr * kc), mr, i, t) == (if q * mr + i < mc { src(q * mr + i, t) } else { czero() }) by {
        assert(lexlt(q, t, i, n, 0, 0));
  }
}
/// source entry (row, t) of the matrix: in bounds, readable, not in the packed area; so is the start of its row
pub proof fn l_pk_src<E: Raw>(m: MV, a: P<E>, kc: int, mc: int, mr: int, pb: Sl<E>, rsa: int, csa: int, row: int, t: int)
    requires pack_req::<E>(m, kc, mc, mr, pb, a, rsa, csa), 0 <= row < mc, 0 <= t < kc,
    ensures
        at2(a.a@, row, rsa, t, csa) == a.a@ + row * rsa + t * csa,
        a.lo@ <= a.a@ + row * rsa < a.hi@,
        a.lo@ <= a.a@ + row * rsa + t * csa < a.hi@,
        erd::<E>(m, at2(a.a@, row, rsa, t, csa)),
        !(pb.p.a@ <= at2(a.a@, row, rsa, t, csa) < pb.p.a@ + rup(mc, mr) * kc),
{
    l_at2(a.a@, row, rsa, t, csa);
    l_at2(a.a@, row, rsa, 0, csa);
    assert(0 * csa == 0) by(nonlinear_arith);
    assert(a.inb(at2(a.a@, row, rsa, 0, csa)));
    assert(a.inb(at2(a.a@, row, rsa, t, csa)));
}
