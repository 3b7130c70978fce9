// ------------------------------------------------------------------
// 51_packc.rs: progress of packing (complex element types): per column a row of real parts and one
// of imaginary parts, so positions are those of panels of 2 * mr scalars
// ------------------------------------------------------------------
/// addresses of complex elements as addresses of scalars
pub proof fn l_cast2<T: Raw, R: Raw>()
    requires T::cxn() == 2, R::cxn() == 1, T::rsz() == R::rsz(), R::rsz() == 4 || R::rsz() == 8,
    ensures
        esz::<T>() == 2 * esz::<R>(), esz::<R>() == R::rsz(),
        forall|x: int| #[trigger] ((x * esz::<T>()) % esz::<R>()) == 0,
        forall|x: int, y: int| #[trigger] (y * esz::<R>()) == #[trigger] (x * esz::<T>()) ==> y == 2 * x,
        forall|x: int| #[trigger] ceil_div(x * esz::<T>(), esz::<R>()) == 2 * x,
        forall|x: int| #[trigger] ((x * esz::<T>()) / esz::<R>()) == 2 * x,
{
    let z = R::rsz();
    assert(T::cxn() * z == 2 * z) by(nonlinear_arith) requires T::cxn() == 2;
    assert(R::cxn() * z == z) by(nonlinear_arith) requires R::cxn() == 1;
    let (et, er) = (esz::<T>(), esz::<R>());
    assert forall|x: int| #[trigger] (x * et) == (2 * x) * er by { assert(x * (2 * er) == (2 * x) * er) by(nonlinear_arith); }
    assert forall|x: int| #[trigger] ((x * et) % er) == 0 && (x * et) / er == 2 * x by { assert(x * et == (2 * x) * er); l_divmod(2 * x, er, 0); }
    assert forall|x: int| #[trigger] ((x * et) / er) == 2 * x by { assert((x * et) % er == 0 && (x * et) / er == 2 * x); }
    assert forall|x: int| #[trigger] ceil_div(x * et, er) == 2 * x by { assert((x * et) % er == 0 && (x * et) / er == 2 * x); }
    assert forall|x: int, y: int| #[trigger] (y * er) == #[trigger] (x * et) implies y == 2 * x by {
        assert(x * et == (2 * x) * er);
        assert(y == 2 * x) by(nonlinear_arith) requires y * er == (2 * x) * er, er > 0;
    }
}
/// a packing call: memory before, source matrix, sizes
pub struct PC { pub o: MV, pub a: int, pub rs: int, pub cs: int, pub b: int, pub mr: int, pub kc: int, pub mc: int }
/// the scalar to be put at (q, t, i): i < mr is a real part
#[verifier::opaque]
pub open spec fn cpk_want(g: PC, q: int, t: int, i: int) -> RV {
    let row = q * g.mr + (if i < g.mr { i } else { i - g.mr });
    if row >= g.mc { rzero() } else { g.o.val[2 * at2(g.a, row, g.rs, t, g.cs) + (if i < g.mr { 0int } else { 1int })] }
}
pub proof fn l_cpk_want(g: PC, q: int, t: int, i: int)
    requires 0 < g.mr, 0 <= i < 2 * g.mr,
    ensures
        i < g.mr && q * g.mr + i < g.mc ==> cpk_want(g, q, t, i) == g.o.val[2 * at2(g.a, q * g.mr + i, g.rs, t, g.cs)],
        i < g.mr && q * g.mr + i >= g.mc ==> cpk_want(g, q, t, i) == rzero(),
        i >= g.mr && q * g.mr + (i - g.mr) < g.mc ==> cpk_want(g, q, t, i) == g.o.val[2 * at2(g.a, q * g.mr + (i - g.mr), g.rs, t, g.cs) + 1],
        i >= g.mr && q * g.mr + (i - g.mr) >= g.mc ==> cpk_want(g, q, t, i) == rzero(),
{ reveal(cpk_want); }
/// every scalar lexicographically before (ir, j, ii) is packed
#[verifier::opaque]
pub open spec fn cpk_st<T: Raw>(g: PC, m: MV, ir: int, j: int, ii: int) -> bool {
    &&& forall|q: int, t: int, i: int| 0 <= q < ceil_div(g.mc, g.mr) && 0 <= i < 2 * g.mr && 0 <= t < g.kc && lexlt(q, t, i, ir, j, ii) ==>
            m.val[2 * g.b + #[trigger] poff(2 * g.mr, g.kc, q, t, i)] == cpk_want(g, q, t, i)
    &&& upd_blk::<T>(g.o, m, g.b, rup(g.mc, g.mr) * g.kc)
    &&& forall|s: int| 2 * g.b <= s < 2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii) ==> #[trigger] m.rd.contains(s)
}
pub proof fn l_cpk_init<T: Raw>(g: PC)
    ensures cpk_st::<T>(g, g.o, 0, 0, 0), poff(2 * g.mr, g.kc, 0, 0, 0) == 0
{ reveal(cpk_st); reveal(poff); assert(0 * (2 * g.mr * g.kc) == 0 && 0 * (2 * g.mr) == 0) by(nonlinear_arith); }
pub proof fn l_cpk_bound(g: PC, ir: int, j: int, ii: int)
    requires 0 < g.mr, 0 <= ii <= 2 * g.mr, 0 <= j < g.kc, 0 <= ir < ceil_div(g.mc, g.mr), 0 <= g.mc,
    ensures
        0 <= poff(2 * g.mr, g.kc, ir, j, ii) <= 2 * (rup(g.mc, g.mr) * g.kc),
        ii < 2 * g.mr ==> poff(2 * g.mr, g.kc, ir, j, ii) < 2 * (rup(g.mc, g.mr) * g.kc),
{
    reveal(poff);
    let n = ceil_div(g.mc, g.mr);
    let (mr, kc) = (2 * g.mr, g.kc);
    assert(j * mr + ii <= kc * mr) by(nonlinear_arith) requires j <= kc - 1, ii <= mr, mr > 0;
    assert(ii < mr ==> j * mr + ii < kc * mr) by(nonlinear_arith) requires j <= kc - 1, mr > 0;
    assert(j * mr >= 0) by(nonlinear_arith) requires j >= 0, mr > 0;
    assert(mr * kc >= 0) by(nonlinear_arith) requires mr > 0, kc > 0;
    assert(kc * mr == mr * kc) by(nonlinear_arith);
    assert(ir * (mr * kc) >= 0) by(nonlinear_arith) requires ir >= 0, mr * kc >= 0;
    assert((ir + 1) * (mr * kc) <= n * (mr * kc)) by(nonlinear_arith) requires ir + 1 <= n, mr * kc >= 0;
    assert((ir + 1) * (mr * kc) == ir * (mr * kc) + mr * kc) by(nonlinear_arith);
    assert(n * ((2 * g.mr) * kc) == 2 * (n * g.mr * kc)) by(nonlinear_arith);
}
/// one more scalar has been written
pub proof fn l_cpk_step<T: Raw>(g: PC, m: MV, m2: MV, ir: int, j: int, ii: int)
    requires
        T::cxn() == 2, 0 < g.mr, 0 <= ii < 2 * g.mr, 0 <= j < g.kc, 0 <= ir < ceil_div(g.mc, g.mr), 0 <= g.mc,
        cpk_st::<T>(g, m, ir, j, ii),
        same_perm(m, m2),
        forall|s: int| #![trigger m2.val[s]] s != 2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii) ==> m2.val[s] == m.val[s],
        m2.val[2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii)] == cpk_want(g, ir, j, ii),
        forall|s: int| #![trigger m2.rd.contains(s)] m2.rd.contains(s) == (m.rd.contains(s) || s == 2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii)),
    ensures cpk_st::<T>(g, m2, ir, j, ii + 1), poff(2 * g.mr, g.kc, ir, j, ii + 1) == poff(2 * g.mr, g.kc, ir, j, ii) + 1,
{
    reveal(cpk_st);
    l_poff(2 * g.mr, g.kc, ir, j, ii + 1);
    l_poff(2 * g.mr, g.kc, ir, j, ii);
    let p = poff(2 * g.mr, g.kc, ir, j, ii);
    l_cpk_bound(g, ir, j, ii);
    assert(raw_blk::<T>(2 * g.b + p, g.b, rup(g.mc, g.mr) * g.kc));
    assert forall|q: int, t: int, i: int| 0 <= q < ceil_div(g.mc, g.mr) && 0 <= i < 2 * g.mr && 0 <= t < g.kc && lexlt(q, t, i, ir, j, ii + 1) implies
            m2.val[2 * g.b + #[trigger] poff(2 * g.mr, g.kc, q, t, i)] == cpk_want(g, q, t, i) by {
        if lexlt(q, t, i, ir, j, ii) {
            l_poff_lt(2 * g.mr, g.kc, q, t, i, ir, j, ii);
            assert(m.val[2 * g.b + poff(2 * g.mr, g.kc, q, t, i)] == cpk_want(g, q, t, i));
        } else {
            assert(q == ir && t == j && i == ii);
        }
    }
}
pub proof fn l_cpk_row<T: Raw>(g: PC, m: MV, ir: int, j: int)
    requires 0 < g.mr, 0 <= j, cpk_st::<T>(g, m, ir, j, 2 * g.mr),
    ensures cpk_st::<T>(g, m, ir, j + 1, 0), poff(2 * g.mr, g.kc, ir, j + 1, 0) == poff(2 * g.mr, g.kc, ir, j, 2 * g.mr)
{ reveal(cpk_st); reveal(poff); let mr = 2 * g.mr; assert((j + 1) * mr == j * mr + mr) by(nonlinear_arith); }
pub proof fn l_cpk_panel<T: Raw>(g: PC, m: MV, ir: int)
    requires 0 < g.mr, 0 <= g.kc, cpk_st::<T>(g, m, ir, g.kc, 0),
    ensures cpk_st::<T>(g, m, ir + 1, 0, 0), poff(2 * g.mr, g.kc, ir + 1, 0, 0) == poff(2 * g.mr, g.kc, ir, g.kc, 0)
{ reveal(cpk_st); reveal(poff); let (mr, kc) = (2 * g.mr, g.kc); assert((ir + 1) * (mr * kc) == ir * (mr * kc) + mr * kc && kc * mr == mr * kc && 0 * mr == 0) by(nonlinear_arith); }
pub proof fn l_cpk_done<T: Raw>(g: PC, m: MV, n: int)
    requires 0 < g.mr, 0 <= g.kc, n == ceil_div(g.mc, g.mr), cpk_st::<T>(g, m, n, 0, 0), T::cxn() == 2,
    ensures
        packed::<T>(m, g.b, g.mr, g.kc, g.mc, msrc::<T>(g.o, g.a, g.rs, g.cs)), blk_rd::<T>(m, g.b, rup(g.mc, g.mr) * g.kc),
        upd_blk::<T>(g.o, m, g.b, rup(g.mc, g.mr) * g.kc),
{
    reveal(cpk_st); reveal(poff);
    let (mr, kc) = (g.mr, g.kc);
    assert(n * ((2 * mr) * kc) == 2 * (n * mr * kc) && 0 * (2 * mr) == 0) by(nonlinear_arith);
    let src = msrc::<T>(g.o, g.a, g.rs, g.cs);
    assert forall|q: int, i: int, t: int| 0 <= q < ceil_div(g.mc, mr) && 0 <= i < mr && 0 <= t < kc implies
        #[trigger] pnl::<T>(m, g.b + q * (mr * kc), mr, i, t) == (if q * mr + i < g.mc { src(q * mr + i, t) } else { czero() }) by {
        assert(lexlt(q, t, i, n, 0, 0) && lexlt(q, t, mr + i, n, 0, 0));
        l_cpk_want(g, q, t, i);
        l_cpk_want(g, q, t, mr + i);
        assert(q * ((2 * mr) * kc) == 2 * (q * (mr * kc))) by(nonlinear_arith);
        assert(m.val[2 * g.b + poff(2 * mr, kc, q, t, i)] == cpk_want(g, q, t, i));
        assert(m.val[2 * g.b + poff(2 * mr, kc, q, t, mr + i)] == cpk_want(g, q, t, mr + i));
    }
}
/// a source element is still as it was, and no packed scalar coincides with one of it
pub proof fn l_cpk_rd<T: Raw>(g: PC, m: MV, ir: int, j: int, ii: int, row: int, t: int)
    requires
        T::cxn() == 2, 0 < g.mr, 0 <= ii < 2 * g.mr, 0 <= j < g.kc, 0 <= ir < ceil_div(g.mc, g.mr), 0 <= g.mc,
        cpk_st::<T>(g, m, ir, j, ii),
        erd::<T>(g.o, at2(g.a, row, g.rs, t, g.cs)),
        !(g.b <= at2(g.a, row, g.rs, t, g.cs) < g.b + rup(g.mc, g.mr) * g.kc),
    ensures
        m.rd.contains(2 * at2(g.a, row, g.rs, t, g.cs)), m.rd.contains(2 * at2(g.a, row, g.rs, t, g.cs) + 1),
        m.val[2 * at2(g.a, row, g.rs, t, g.cs)] == g.o.val[2 * at2(g.a, row, g.rs, t, g.cs)],
        m.val[2 * at2(g.a, row, g.rs, t, g.cs) + 1] == g.o.val[2 * at2(g.a, row, g.rs, t, g.cs) + 1],
        2 * at2(g.a, row, g.rs, t, g.cs) != 2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii),
        2 * at2(g.a, row, g.rs, t, g.cs) + 1 != 2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii),
        raw_blk::<T>(2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii), g.b, rup(g.mc, g.mr) * g.kc),
        m.rsz == g.o.rsz, m.wr == g.o.wr,
{
    reveal(cpk_st);
    l_cpk_bound(g, ir, j, ii);
}
/// the next packed scalar is writable
pub proof fn l_cpk_wr<T: Raw>(g: PC, m: MV, ir: int, j: int, ii: int)
    requires
        T::cxn() == 2, 0 < g.mr, 0 <= ii < 2 * g.mr, 0 <= j < g.kc, 0 <= ir < ceil_div(g.mc, g.mr), 0 <= g.mc,
        cpk_st::<T>(g, m, ir, j, ii), blk_wr::<T>(g.o, g.b, rup(g.mc, g.mr) * g.kc),
    ensures
        m.wr.contains(2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii)), m.rsz == g.o.rsz,
{
    reveal(cpk_st);
    l_cpk_bound(g, ir, j, ii);
    assert(raw_blk::<T>(2 * g.b + poff(2 * g.mr, g.kc, ir, j, ii), g.b, rup(g.mc, g.mr) * g.kc));
}
