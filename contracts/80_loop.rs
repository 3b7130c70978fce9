// ------------------------------------------------------------------
// 80_loop.rs: loops 3, 4 and 5 (blocking of the whole product)
// ------------------------------------------------------------------
/// one call C <- alpha A B + beta C
pub struct GL {
    pub m: int, pub k: int, pub n: int, pub al: CV,
    pub a: int, pub rsa: int, pub csa: int,
    pub b: int, pub rsb: int, pub csb: int,
    pub be: CV,
    pub c: int, pub rsc: int, pub csc: int,
}
pub open spec fn ga(g: GL, i: int, t: int) -> int { at2(g.a, i, g.rsa, t, g.csa) }
pub open spec fn gb(g: GL, t: int, j: int) -> int { at2(g.b, t, g.rsb, j, g.csb) }
pub open spec fn gc(g: GL, i: int, j: int) -> int { at2(g.c, i, g.rsc, j, g.csc) }
/// row i of A, column j of B
pub open spec fn arow<E: Raw>(o: MV, g: GL, i: int) -> FnV { |t: int| ev::<E>(o, ga(g, i, t)) }
pub open spec fn bcol<E: Raw>(o: MV, g: GL, j: int) -> FnV { |t: int| ev::<E>(o, gb(g, t, j)) }
pub open spec fn raw_a<E: Raw>(g: GL, s: int) -> bool { raw_in::<E>(s, g.a, g.m, g.k, g.rsa, g.csa) }
pub open spec fn raw_b<E: Raw>(g: GL, s: int) -> bool { raw_in::<E>(s, g.b, g.k, g.n, g.rsb, g.csb) }
pub open spec fn raw_c<E: Raw>(g: GL, s: int) -> bool { raw_in::<E>(s, g.c, g.m, g.n, g.rsc, g.csc) }
/// element (i, j) of C after the first d terms of the inner products
pub open spec fn gval<E: Raw>(o: MV, g: GL, i: int, j: int, d: int) -> CV {
    if d <= 0 { ev::<E>(o, gc(g, i, j)) } else { res(g.al, dotf(arow::<E>(o, g, i), bcol::<E>(o, g, j), d), g.be, ev::<E>(o, gc(g, i, j))) }
}
/// element (i, j) of the result
pub open spec fn gres<E: Raw>(o: MV, g: GL, i: int, j: int) -> CV {
    if g.k <= 0 { if is0(g.be) { czero() } else { cmul(g.be, ev::<E>(o, gc(g, i, j))) } } else { gval::<E>(o, g, i, j, g.k) }
}
/// what a call may rely on
pub open spec fn gl_req<E: Raw>(m: MV, g: GL, a: P<E>, b: P<E>, c: P<E>) -> bool {
    &&& m.rsz == E::rsz() && !m.tls
    &&& a.a@ == g.a && b.a@ == g.b && c.a@ == g.c
    &&& g.m > 0 && g.k > 0 && g.n > 0 ==> a.wf() && b.wf() && mrd::<E>(m, a, g.m, g.k, g.rsa, g.csa) && mrd::<E>(m, b, g.k, g.n, g.rsb, g.csb)
    &&& g.m > 0 && g.n > 0 ==> c.wf()
    &&& mwr::<E>(m, c, g.m, g.n, g.rsc, g.csc)
    &&& minj(g.c, g.m, g.n, g.rsc, g.csc)
    &&& !is0(g.be) ==> mrd::<E>(m, c, g.m, g.n, g.rsc, g.csc)
    &&& forall|s: int| #[trigger] raw_c::<E>(g, s) ==> !raw_a::<E>(g, s) && !raw_b::<E>(g, s)
}
/// what a call delivers: every element of C, and nothing else changed
pub open spec fn gl_ens<E: Raw>(o: MV, m: MV, g: GL) -> bool {
    &&& forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n ==> ev::<E>(m, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) == gres::<E>(o, g, i, j) && erd::<E>(m, at2(g.c, i, g.rsc, j, g.csc))
    &&& upd3::<E>(o, m, nox(), g.c, g.m, g.n, g.rsc, g.csc)
}
// ---- progress
pub type DF = spec_fn(int, int) -> int;
pub open spec fn gok<E: Raw>(o: MV, g: GL, x: SetF) -> bool {
    &&& g.m > 0 && g.k > 0 && g.n > 0
    &&& o.rsz == E::rsz()
    &&& forall|i: int, t: int| 0 <= i < g.m && 0 <= t < g.k ==> erd::<E>(o, #[trigger] at2(g.a, i, g.rsa, t, g.csa))
    &&& forall|t: int, j: int| 0 <= t < g.k && 0 <= j < g.n ==> erd::<E>(o, #[trigger] at2(g.b, t, g.rsb, j, g.csb))
    &&& forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n ==> ewr::<E>(o, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) && (!is0(g.be) ==> erd::<E>(o, at2(g.c, i, g.rsc, j, g.csc)))
    &&& minj(g.c, g.m, g.n, g.rsc, g.csc)
    &&& forall|s: int| #[trigger] raw_c::<E>(g, s) ==> !raw_a::<E>(g, s) && !raw_b::<E>(g, s)
    &&& zfree(o, x)
}
/// element (i, j) of C has taken up dep(i, j) terms; x is the packing buffer
pub open spec fn gst<E: Raw>(o: MV, m: MV, g: GL, dep: DF, x: SetF) -> bool {
    &&& forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n ==>
            ev::<E>(m, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) == gval::<E>(o, g, i, j, dep(i, j)) && (dep(i, j) > 0 ==> erd::<E>(m, at2(g.c, i, g.rsc, j, g.csc)))
    &&& upd3::<E>(o, m, x, g.c, g.m, g.n, g.rsc, g.csc)
}
pub open spec fn dep5(g: GL, j0: int) -> DF { |i: int, j: int| if j < j0 { g.k } else { 0 } }
pub open spec fn dep4(g: GL, j0: int, nc: int, d: int) -> DF { |i: int, j: int| if j < j0 { g.k } else if j < j0 + nc { d } else { 0 } }
pub open spec fn dep3(g: GL, done: ISet<int>, mc: int, j0: int, nc: int, d: int, kc: int) -> DF {
    |i: int, j: int| if j < j0 { g.k } else if j < j0 + nc { if done.contains(i / mc) { d + kc } else { d } } else { 0 }
}
pub proof fn l_g_eq<E: Raw>(o: MV, m: MV, g: GL, dep: DF, dep2: DF, x: SetF)
    requires gst::<E>(o, m, g, dep, x), forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n ==> #[trigger] dep(i, j) == dep2(i, j),
    ensures gst::<E>(o, m, g, dep2, x)
{
    assert forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n implies
            ev::<E>(m, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) == gval::<E>(o, g, i, j, dep2(i, j)) && (dep2(i, j) > 0 ==> erd::<E>(m, at2(g.c, i, g.rsc, j, g.csc))) by {
        assert(dep(i, j) == dep2(i, j));
    }
}
/// the packing buffer has been allocated
pub proof fn l_g_init<E: Raw>(m0: MV, m1: MV, o: MV, g: GL, pa: P<E>, pb: P<E>, pc: P<E>, b: int, n: int)
    requires
        gl_req::<E>(m0, g, pa, pb, pc), g.m > 0 && g.k > 0 && g.n > 0,
        fresh(m0, m1, b, n), m1.val == m0.val, m1.rd == m0.rd, m1.tls == m0.tls,
        o == (MV { allocs: m1.allocs, ..m0 }),
    ensures
        gok::<E>(o, g, bset(E::rsz(), b, n)), gst::<E>(o, m1, g, dep5(g, 0), bset(E::rsz(), b, n)),
{
    let x = bset(E::rsz(), b, n);
    assert forall|s: int| #[trigger] x(s) implies !o.rd.contains(s) && !o.wr.contains(s) by { assert(byte_blk(s, m0.rsz, b, n)); }
    assert forall|i: int, t: int| 0 <= i < g.m && 0 <= t < g.k implies erd::<E>(o, #[trigger] at2(g.a, i, g.rsa, t, g.csa)) by { assert(pa.inb(at2(pa.a@, i, g.rsa, t, g.csa))); }
    assert forall|t: int, j: int| 0 <= t < g.k && 0 <= j < g.n implies erd::<E>(o, #[trigger] at2(g.b, t, g.rsb, j, g.csb)) by { assert(pb.inb(at2(pb.a@, t, g.rsb, j, g.csb))); }
    assert forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n implies ewr::<E>(o, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) && (!is0(g.be) ==> erd::<E>(o, at2(g.c, i, g.rsc, j, g.csc))) by { assert(pc.inb(at2(pc.a@, i, g.rsc, j, g.csc))); }
}
pub proof fn l_g_raw<E: Raw>(o: MV, g: GL, x: SetF)
    requires gok::<E>(o, g, x),
    ensures
        forall|s: int| #[trigger] raw_a::<E>(g, s) ==> o.rd.contains(s) && !raw_c::<E>(g, s) && !x(s),
        forall|s: int| #[trigger] raw_b::<E>(g, s) ==> o.rd.contains(s) && !raw_c::<E>(g, s) && !x(s),
        forall|s: int| #[trigger] raw_c::<E>(g, s) ==> o.wr.contains(s) && !x(s),
{
    E::raw_ok();
    assert forall|s: int| #[trigger] raw_a::<E>(g, s) implies o.rd.contains(s) && !raw_c::<E>(g, s) && !x(s) by {
        let e = elt_of::<E>(s);
        let (i, j) = choose|i: int, j: int| 0 <= i < g.m && 0 <= j < g.k && #[trigger] at2(g.a, i, g.rsa, j, g.csa) == e;
        assert(erd::<E>(o, at2(g.a, i, g.rsa, j, g.csa)));
    }
    assert forall|s: int| #[trigger] raw_b::<E>(g, s) implies o.rd.contains(s) && !raw_c::<E>(g, s) && !x(s) by {
        let e = elt_of::<E>(s);
        let (i, j) = choose|i: int, j: int| 0 <= i < g.k && 0 <= j < g.n && #[trigger] at2(g.b, i, g.rsb, j, g.csb) == e;
        assert(erd::<E>(o, at2(g.b, i, g.rsb, j, g.csb)));
    }
    assert forall|s: int| #[trigger] raw_c::<E>(g, s) implies o.wr.contains(s) && !x(s) by {
        let e = elt_of::<E>(s);
        let (i, j) = choose|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n && #[trigger] at2(g.c, i, g.rsc, j, g.csc) == e;
        assert(ewr::<E>(o, at2(g.c, i, g.rsc, j, g.csc)));
    }
}
/// elements of A, B, C as raw scalars
pub proof fn l_g_elt<E: Raw>(g: GL)
    ensures
        forall|i: int, t: int| 0 <= i < g.m && 0 <= t < g.k ==> raw_a::<E>(g, E::cxn() * #[trigger] at2(g.a, i, g.rsa, t, g.csa)) && raw_a::<E>(g, E::cxn() * at2(g.a, i, g.rsa, t, g.csa) + E::cxn() - 1),
        forall|t: int, j: int| 0 <= t < g.k && 0 <= j < g.n ==> raw_b::<E>(g, E::cxn() * #[trigger] at2(g.b, t, g.rsb, j, g.csb)) && raw_b::<E>(g, E::cxn() * at2(g.b, t, g.rsb, j, g.csb) + E::cxn() - 1),
        forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n ==> raw_c::<E>(g, E::cxn() * #[trigger] at2(g.c, i, g.rsc, j, g.csc)) && raw_c::<E>(g, E::cxn() * at2(g.c, i, g.rsc, j, g.csc) + E::cxn() - 1),
{
    E::raw_ok();
    assert forall|i: int, t: int| 0 <= i < g.m && 0 <= t < g.k implies raw_a::<E>(g, E::cxn() * #[trigger] at2(g.a, i, g.rsa, t, g.csa)) && raw_a::<E>(g, E::cxn() * at2(g.a, i, g.rsa, t, g.csa) + E::cxn() - 1) by {
        let e = at2(g.a, i, g.rsa, t, g.csa); l_elt::<E>(e); l_elt::<E>(2 * e); l_elt::<E>(2 * e + 1); assert(in_mat(e, g.a, g.m, g.k, g.rsa, g.csa));
    }
    assert forall|t: int, j: int| 0 <= t < g.k && 0 <= j < g.n implies raw_b::<E>(g, E::cxn() * #[trigger] at2(g.b, t, g.rsb, j, g.csb)) && raw_b::<E>(g, E::cxn() * at2(g.b, t, g.rsb, j, g.csb) + E::cxn() - 1) by {
        let e = at2(g.b, t, g.rsb, j, g.csb); l_elt::<E>(e); l_elt::<E>(2 * e); l_elt::<E>(2 * e + 1); assert(in_mat(e, g.b, g.k, g.n, g.rsb, g.csb));
    }
    assert forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n implies raw_c::<E>(g, E::cxn() * #[trigger] at2(g.c, i, g.rsc, j, g.csc)) && raw_c::<E>(g, E::cxn() * at2(g.c, i, g.rsc, j, g.csc) + E::cxn() - 1) by {
        let e = at2(g.c, i, g.rsc, j, g.csc); l_elt::<E>(e); l_elt::<E>(2 * e); l_elt::<E>(2 * e + 1); assert(in_mat(e, g.c, g.m, g.n, g.rsc, g.csc));
    }
}
/// packing writes only the buffer
pub proof fn l_g_blk<E: Raw>(o: MV, m: MV, m2: MV, g: GL, dep: DF, x: SetF, b: int, len: int)
    requires
        gok::<E>(o, g, x), gst::<E>(o, m, g, dep, x), upd_blk::<E>(m, m2, b, len),
        forall|s: int| #[trigger] raw_blk::<E>(s, b, len) ==> x(s),
    ensures gst::<E>(o, m2, g, dep, x)
{
    hide(raw_in);
    E::raw_ok();
    l_g_raw::<E>(o, g, x);
    l_g_elt::<E>(g);
    assert forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n implies
            ev::<E>(m2, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) == gval::<E>(o, g, i, j, dep(i, j)) && (dep(i, j) > 0 ==> erd::<E>(m2, at2(g.c, i, g.rsc, j, g.csc))) by {
        let e = at2(g.c, i, g.rsc, j, g.csc);
        assert(raw_c::<E>(g, E::cxn() * e) && raw_c::<E>(g, E::cxn() * e + E::cxn() - 1));
        if E::cxn() == 1 { assert(!raw_blk::<E>(e, b, len)); } else { assert(!raw_blk::<E>(2 * e, b, len) && !raw_blk::<E>(2 * e + 1, b, len)); }
    }
    assert forall|s: int| #![trigger m2.rd.contains(s)] (o.rd.contains(s) ==> m2.rd.contains(s)) && (m2.rd.contains(s) ==> o.rd.contains(s) || x(s) || raw_c::<E>(g, s)) by {
        assert(o.rd.contains(s) ==> m.rd.contains(s));
        assert(m.rd.contains(s) ==> o.rd.contains(s) || x(s) || raw_c::<E>(g, s));
        if m2.rd.contains(s) && !m.rd.contains(s) { assert(raw_blk::<E>(s, b, len)); }
    }
    assert forall|s: int| #![trigger m2.val[s]] (o.rd.contains(s) || o.wr.contains(s)) && !raw_c::<E>(g, s) implies m2.val[s] == o.val[s] by {
        assert(!x(s)); assert(!raw_blk::<E>(s, b, len)); assert(m2.val[s] == m.val[s]); assert(m.val[s] == o.val[s]);
    }
}
/// A and B keep their values and stay readable
pub proof fn l_g_ab<E: Raw>(o: MV, m: MV, g: GL, dep: DF, x: SetF)
    requires gok::<E>(o, g, x), gst::<E>(o, m, g, dep, x),
    ensures
        forall|i: int, t: int| 0 <= i < g.m && 0 <= t < g.k ==> ev::<E>(m, #[trigger] at2(g.a, i, g.rsa, t, g.csa)) == ev::<E>(o, at2(g.a, i, g.rsa, t, g.csa)) && erd::<E>(m, at2(g.a, i, g.rsa, t, g.csa)),
        forall|t: int, j: int| 0 <= t < g.k && 0 <= j < g.n ==> ev::<E>(m, #[trigger] at2(g.b, t, g.rsb, j, g.csb)) == ev::<E>(o, at2(g.b, t, g.rsb, j, g.csb)) && erd::<E>(m, at2(g.b, t, g.rsb, j, g.csb)),
{
    hide(raw_in);
    E::raw_ok();
    l_g_raw::<E>(o, g, x);
    l_g_elt::<E>(g);
    assert forall|i: int, t: int| 0 <= i < g.m && 0 <= t < g.k implies ev::<E>(m, #[trigger] at2(g.a, i, g.rsa, t, g.csa)) == ev::<E>(o, at2(g.a, i, g.rsa, t, g.csa)) && erd::<E>(m, at2(g.a, i, g.rsa, t, g.csa)) by {
        let e = at2(g.a, i, g.rsa, t, g.csa);
        assert(raw_a::<E>(g, E::cxn() * e) && raw_a::<E>(g, E::cxn() * e + E::cxn() - 1));
    }
    assert forall|t: int, j: int| 0 <= t < g.k && 0 <= j < g.n implies ev::<E>(m, #[trigger] at2(g.b, t, g.rsb, j, g.csb)) == ev::<E>(o, at2(g.b, t, g.rsb, j, g.csb)) && erd::<E>(m, at2(g.b, t, g.rsb, j, g.csb)) by {
        let e = at2(g.b, t, g.rsb, j, g.csb);
        assert(raw_b::<E>(g, E::cxn() * e) && raw_b::<E>(g, E::cxn() * e + E::cxn() - 1));
    }
}
/// entries of a part of A, or of the transpose of B
pub open spec fn asrc<E: Raw>(o: MV, g: GL, i0: int, d0: int) -> VF { |i: int, t: int| ev::<E>(o, ga(g, i0 + i, d0 + t)) }
pub open spec fn bsrc<E: Raw>(o: MV, g: GL, j0: int, d0: int) -> VF { |j: int, t: int| ev::<E>(o, gb(g, d0 + t, j0 + j)) }
pub proof fn l_packed_eq<E: Raw>(m: MV, b: int, mr: int, kc: int, mc: int, s: VF, s2: VF)
    requires packed::<E>(m, b, mr, kc, mc, s), 0 < mr, forall|i: int, t: int| 0 <= i < mc && 0 <= t < kc ==> #[trigger] s(i, t) == s2(i, t),
    ensures packed::<E>(m, b, mr, kc, mc, s2)
{
    assert forall|q: int, i: int, t: int| 0 <= q < ceil_div(mc, mr) && 0 <= i < mr && 0 <= t < kc implies
        #[trigger] pnl::<E>(m, b + q * (mr * kc), mr, i, t) == (if q * mr + i < mc { s2(q * mr + i, t) } else { czero() }) by {
        assert(0 <= q * mr) by(nonlinear_arith) requires 0 <= q, 0 < mr;
        if q * mr + i < mc { assert(s(q * mr + i, t) == s2(q * mr + i, t)); }
    }
}
/// a packed area of equal memory
pub proof fn l_packed_same<E: Raw>(o: MV, m: MV, b: int, mr: int, kc: int, mc: int, src: VF)
    requires
        packed::<E>(o, b, mr, kc, mc, src), 0 < mr, 0 < kc, 0 <= mc,
        forall|s: int| #![trigger m.val[s]] raw_blk::<E>(s, b, kc * rup(mc, mr)) ==> m.val[s] == o.val[s],
    ensures packed::<E>(m, b, mr, kc, mc, src)
{
    E::raw_ok();
    assert forall|q: int, i: int, t: int| 0 <= q < ceil_div(mc, mr) && 0 <= i < mr && 0 <= t < kc implies
        #[trigger] pnl::<E>(m, b + q * (mr * kc), mr, i, t) == (if q * mr + i < mc { src(q * mr + i, t) } else { czero() }) by {
        l_panel_in::<E>(b, mr, kc, mc, q);
        let b1 = b + q * (mr * kc);
        assert forall|s: int| #![trigger m.val[s]] raw_blk::<E>(s, b1, kc * mr) implies m.val[s] == o.val[s] by { assert(raw_blk::<E>(s, b, kc * rup(mc, mr))); }
        l_panel_row::<E>(o, m, b1, mr, i, kc);
        assert(prow::<E>(m, b1, mr, i)(t) == prow::<E>(o, b1, mr, i)(t));
        assert(pnl::<E>(o, b + q * (mr * kc), mr, i, t) == (if q * mr + i < mc { src(q * mr + i, t) } else { czero() }));
    }
}
/// inner products of packed panels are those of their sources
pub proof fn l_pfn<E: Raw>(m: MV, a: int, mr: int, mc: int, sa: VF, b: int, nr: int, nc: int, sb: VF, kc: int, i: int, j: int)
    requires
        packed::<E>(m, a, mr, kc, mc, sa), packed::<E>(m, b, nr, kc, nc, sb), 0 < mr, 0 < nr, 0 < kc, 0 <= i < mc, 0 <= j < nc,
    ensures pfn::<E>(m, a, mr, b, nr, kc)(i, j) == dotf(|t: int| sa(i, t), |t: int| sb(j, t), kc)
{
    l_pfn_row::<E>(m, a, mr, kc, mc, sa, i);
    l_pfn_row::<E>(m, b, nr, kc, nc, sb, j);
    l_dotf_eq(prow::<E>(m, a + (i / mr) * (mr * kc), mr, i % mr), prow::<E>(m, b + (j / nr) * (nr * kc), nr, j % nr), |t: int| sa(i, t), |t: int| sb(j, t), kc);
}
pub proof fn l_pfn_row<E: Raw>(m: MV, b: int, mr: int, kc: int, mc: int, src: VF, i: int)
    requires packed::<E>(m, b, mr, kc, mc, src), 0 < mr, 0 <= i < mc,
    ensures forall|t: int| 0 <= t < kc ==> #[trigger] prow::<E>(m, b + (i / mr) * (mr * kc), mr, i % mr)(t) == src(i, t)
{
    l_dm(i, mr); l_ceil(mc, mr);
    let (q, u) = (i / mr, ceil_div(mc, mr));
    assert(q < u) by(nonlinear_arith) requires q * mr <= i, i < mc, mc <= u * mr, mr > 0;
    assert forall|t: int| 0 <= t < kc implies #[trigger] prow::<E>(m, b + (i / mr) * (mr * kc), mr, i % mr)(t) == src(i, t) by {
        assert(pnl::<E>(m, b + q * (mr * kc), mr, i % mr, t) == (if q * mr + i % mr < mc { src(q * mr + i % mr, t) } else { czero() }));
    }
}
/// one step in depth
pub proof fn l_g_deep<E: Raw>(o: MV, g: GL, i: int, j: int, d0: int, kc: int, i1: int, j1: int, betap: CV)
    requires 0 <= d0, 0 < kc, betap == (if d0 == 0 { g.be } else { cone() }), 0 <= i1 , 0 <= j1,
    ensures
        res(g.al, dotf(|t: int| asrc::<E>(o, g, i - i1, d0)(i1, t), |t: int| bsrc::<E>(o, g, j - j1, d0)(j1, t), kc), betap, gval::<E>(o, g, i, j, d0)) == gval::<E>(o, g, i, j, d0 + kc)
{
    let (f, h) = (arow::<E>(o, g, i), bcol::<E>(o, g, j));
    l_dotf_eq(|t: int| asrc::<E>(o, g, i - i1, d0)(i1, t), |t: int| bsrc::<E>(o, g, j - j1, d0)(j1, t), shf(f, d0), shf(h, d0), kc);
    l_dotf_split(f, h, d0, kc);
    if d0 == 0 { l_cadd_0(dotf(shf(f, d0), shf(h, d0), kc)); }
    else { l_res_acc(g.al, dotf(f, h, d0), dotf(shf(f, d0), shf(h, d0), kc), g.be, ev::<E>(o, gc(g, i, j))); }
}
// ---- packing B
pub proof fn l_g_packb<E: Raw>(o: MV, m: MV, g: GL, dep: DF, x: SetF, pb: P<E>, j0: int, d0: int, nc: int, kc: int, nr: int, bb: int, bl: int)
    requires
        gok::<E>(o, g, x), gst::<E>(o, m, g, dep, x), pb.wf(), pb.a@ == g.b,
        mrd::<E>(o, pb, g.k, g.n, g.rsb, g.csb),
        0 <= j0, 0 <= d0, 0 < nc <= 65536, 0 < kc <= 65536, 0 < nr, j0 + nc <= g.n, d0 + kc <= g.k,
        rup(nc, nr) * kc <= bl,
        forall|s: int| #[trigger] raw_blk::<E>(s, bb, bl) ==> x(s),
    ensures
        forall|buf: Sl<E>| #![trigger buf.wf()] buf.wf() && buf.p.a@ == bb && buf.n == bl ==> pack_req::<E>(m, kc, nc, nr, buf, pb.at(gb(g, d0, j0)), g.csb, g.rsb),
        pb.at(gb(g, d0, j0)).wf(),
        forall|j: int, t: int| 0 <= j < nc && 0 <= t < kc ==> #[trigger] msrc::<E>(m, gb(g, d0, j0), g.csb, g.rsb)(j, t) == bsrc::<E>(o, g, j0, d0)(j, t),
        forall|s: int| #[trigger] raw_blk::<E>(s, bb, rup(nc, nr) * kc) ==> x(s),
{
    hide(raw_in);
    E::raw_ok();
    l_g_ab::<E>(o, m, g, dep, x);
    l_g_raw::<E>(o, g, x);
    l_g_elt::<E>(g);
    let p = pb.at(gb(g, d0, j0));
    l_at2_shall(g.b, d0, j0, g.rsb, g.csb);
    assert(pb.inb(at2(pb.a@, d0, g.rsb, j0, g.csb)));
    assert forall|j: int, t: int| #![trigger at2(p.a@, j, g.csb, t, g.rsb)] 0 <= j < nc && 0 <= t < kc implies
            at2(p.a@, j, g.csb, t, g.rsb) == gb(g, d0 + t, j0 + j) && p.inb(at2(p.a@, j, g.csb, t, g.rsb)) && erd::<E>(m, at2(p.a@, j, g.csb, t, g.rsb))
            && ev::<E>(m, at2(p.a@, j, g.csb, t, g.rsb)) == ev::<E>(o, gb(g, d0 + t, j0 + j))
            && !(bb <= at2(p.a@, j, g.csb, t, g.rsb) < bb + bl) by {
        l_at2_tr(p.a@, j, g.csb, t, g.rsb);
        let e = at2(p.a@, t, g.rsb, j, g.csb);
        assert(e == at2(g.b, d0 + t, g.rsb, j0 + j, g.csb));
        assert(pb.inb(at2(pb.a@, d0 + t, g.rsb, j0 + j, g.csb)));
        assert(raw_b::<E>(g, E::cxn() * e));
        if bb <= e < bb + bl { if E::cxn() == 1 { assert(raw_blk::<E>(e, bb, bl)); } else { assert(raw_blk::<E>(2 * e, bb, bl)); } }
    }
    assert forall|s: int| #[trigger] raw_blk::<E>(s, bb, rup(nc, nr) * kc) implies x(s) && m.wr.contains(s) by { assert(raw_blk::<E>(s, bb, bl)); }
}
// ---- loop 3
/// scalars of C in rows of chunk t, columns j0 .. j0 + nc
pub open spec fn crow<E: Raw>(g: GL, mc: int, j0: int, nc: int, t: int, s: int) -> bool {
    raw_in::<E>(s, gc(g, t * mc, j0), chunk_sz(g.m, mc, t), nc, g.rsc, g.csc)
}
pub open spec fn w3fn<E: Raw>(g: GL, mc: int, j0: int, nc: int, app: int, ap: int, cp: int) -> RawF {
    |t: int, s: int| crow::<E>(g, mc, j0, nc, t, s) || raw_blk::<E>(s, app + ap * (t / cp), ap)
}
pub open spec fn r3fn<E: Raw>(g: GL, bpp: int, lb: int) -> RawF { |t: int, s: int| raw_a::<E>(g, s) || raw_blk::<E>(s, bpp, lb) }
pub open spec fn buf_ok<E: Raw>(x: SetF, app: int, ap: int, nap: int, bpp: int, bp: int) -> bool {
    &&& ap >= 0 && bp >= 0 && nap >= 1 && bpp == app + ap * nap
    &&& forall|s: int| #[trigger] raw_blk::<E>(s, app, ap * nap + bp) ==> x(s)
}
pub proof fn l_buf_a<E: Raw>(x: SetF, app: int, ap: int, nap: int, bpp: int, bp: int, w: int)
    requires buf_ok::<E>(x, app, ap, nap, bpp, bp), 0 <= w < nap,
    ensures
        0 <= ap * w, ap * w + ap <= ap * nap,
        forall|s: int| #[trigger] raw_blk::<E>(s, app + ap * w, ap) ==> x(s) && !raw_blk::<E>(s, bpp, bp),
        forall|w2: int, s: int| 0 <= w2 < nap && w2 != w && #[trigger] raw_blk::<E>(s, app + ap * w2, ap) ==> !raw_blk::<E>(s, app + ap * w, ap),
        forall|s: int| #[trigger] raw_blk::<E>(s, bpp, bp) ==> x(s),
{
    E::raw_ok();
    assert(0 <= ap * w && ap * w + ap <= ap * nap) by(nonlinear_arith) requires 0 <= w <= nap - 1, ap >= 0;
    assert forall|s: int| #[trigger] raw_blk::<E>(s, app + ap * w, ap) implies x(s) && !raw_blk::<E>(s, bpp, bp) by { assert(raw_blk::<E>(s, app, ap * nap + bp)); }
    assert forall|s: int| #[trigger] raw_blk::<E>(s, bpp, bp) implies x(s) by { assert(0 <= ap * nap) by(nonlinear_arith) requires ap >= 0, nap >= 1; assert(raw_blk::<E>(s, app, ap * nap + bp)); }
    assert forall|w2: int, s: int| 0 <= w2 < nap && w2 != w && #[trigger] raw_blk::<E>(s, app + ap * w2, ap) implies !raw_blk::<E>(s, app + ap * w, ap) by {
        if w2 < w { assert(ap * w2 + ap <= ap * w) by(nonlinear_arith) requires w2 + 1 <= w, ap >= 0; }
        else { assert(ap * w + ap <= ap * w2) by(nonlinear_arith) requires w + 1 <= w2, ap >= 0; }
    }
}
pub proof fn l_crow<E: Raw>(g: GL, mc: int, j0: int, nc: int)
    requires 0 < mc, 0 <= g.m, 0 <= j0, 0 <= nc, j0 + nc <= g.n, minj(g.c, g.m, g.n, g.rsc, g.csc),
    ensures
        forall|t: int, s: int| 0 <= t < ceil_div(g.m, mc) && #[trigger] crow::<E>(g, mc, j0, nc, t, s) ==> raw_c::<E>(g, s),
        forall|t1: int, t2: int, s: int| 0 <= t1 < ceil_div(g.m, mc) && 0 <= t2 < ceil_div(g.m, mc) && t1 != t2
            ==> !(#[trigger] crow::<E>(g, mc, j0, nc, t1, s) && #[trigger] crow::<E>(g, mc, j0, nc, t2, s)),
{
    assert forall|t: int, s: int| 0 <= t < ceil_div(g.m, mc) && #[trigger] crow::<E>(g, mc, j0, nc, t, s) implies raw_c::<E>(g, s) by {
        l_chunk(g.m, mc, t);
        l_sub_mat::<E>(g.c, t * mc, j0, chunk_sz(g.m, mc, t), nc, g.m, g.n, g.rsc, g.csc);
    }
    assert forall|t1: int, t2: int, s: int| 0 <= t1 < ceil_div(g.m, mc) && 0 <= t2 < ceil_div(g.m, mc) && t1 != t2
            implies !(#[trigger] crow::<E>(g, mc, j0, nc, t1, s) && #[trigger] crow::<E>(g, mc, j0, nc, t2, s)) by {
        if crow::<E>(g, mc, j0, nc, t1, s) && crow::<E>(g, mc, j0, nc, t2, s) {
            let x = elt_of::<E>(s);
            l_chunk(g.m, mc, t1);
            l_chunk(g.m, mc, t2);
            l_at2_shall(g.c, t1 * mc, j0, g.rsc, g.csc);
            l_at2_shall(g.c, t2 * mc, j0, g.rsc, g.csc);
            let (i1, j1) = choose|i: int, j: int| 0 <= i < chunk_sz(g.m, mc, t1) && 0 <= j < nc && #[trigger] at2(gc(g, t1 * mc, j0), i, g.rsc, j, g.csc) == x;
            let (i2, j2) = choose|i: int, j: int| 0 <= i < chunk_sz(g.m, mc, t2) && 0 <= j < nc && #[trigger] at2(gc(g, t2 * mc, j0), i, g.rsc, j, g.csc) == x;
            assert(at2(g.c, t1 * mc + i1, g.rsc, j0 + j1, g.csc) == at2(g.c, t2 * mc + i2, g.rsc, j0 + j2, g.csc));
            assert((t1 * mc + i1) / mc == t1 && (t2 * mc + i2) / mc == t2) by { assert((t1 * mc + i1) % mc == i1); assert((t2 * mc + i2) % mc == i2); }
        }
    }
}
/// the chunk's permissions exist, and workers are apart
pub proof fn l_g3_have<E: Raw>(o: MV, m: MV, g: GL, dep: DF, x: SetF, mc: int, j0: int, nc: int, app: int, ap: int, nap: int, bpp: int, bp: int, lb: int, cp: int, t: int)
    requires
        gok::<E>(o, g, x), gst::<E>(o, m, g, dep, x), buf_ok::<E>(x, app, ap, nap, bpp, bp), 0 <= lb <= bp,
        0 < mc, 0 <= j0, 0 <= nc, j0 + nc <= g.n, 0 <= t < ceil_div(g.m, mc),
        blk_rd::<E>(m, bpp, lb),
        forall|u: int| #![trigger u / cp] 0 <= u < ceil_div(g.m, mc) ==> 0 <= u / cp < nap,
    ensures
        w_have(m, w3fn::<E>(g, mc, j0, nc, app, ap, cp), t),
        r_have(m, r3fn::<E>(g, bpp, lb), t),
        forall|t1: int, t2: int, s: int| #![trigger w3fn::<E>(g, mc, j0, nc, app, ap, cp)(t1, s), w3fn::<E>(g, mc, j0, nc, app, ap, cp)(t2, s)] #![trigger w3fn::<E>(g, mc, j0, nc, app, ap, cp)(t1, s), r3fn::<E>(g, bpp, lb)(t2, s)]
            0 <= t1 < ceil_div(g.m, mc) && 0 <= t2 < ceil_div(g.m, mc) && t1 / cp != t2 / cp ==>
            !(w3fn::<E>(g, mc, j0, nc, app, ap, cp)(t1, s) && (w3fn::<E>(g, mc, j0, nc, app, ap, cp)(t2, s) || r3fn::<E>(g, bpp, lb)(t2, s))),
{
    hide(raw_in);
    l_g_raw::<E>(o, g, x);
    l_crow::<E>(g, mc, j0, nc);
    let w = w3fn::<E>(g, mc, j0, nc, app, ap, cp);
    let r = r3fn::<E>(g, bpp, lb);
    l_buf_a::<E>(x, app, ap, nap, bpp, bp, t / cp);
    assert forall|s: int| w(t, s) implies #[trigger] m.wr.contains(s) by {
        if crow::<E>(g, mc, j0, nc, t, s) { assert(raw_c::<E>(g, s)); assert(o.wr.contains(s)); } else { assert(x(s)); }
    }
    assert forall|s: int| r(t, s) implies #[trigger] m.rd.contains(s) by {
        if raw_a::<E>(g, s) { assert(o.rd.contains(s)); }
    }
    assert forall|t1: int, t2: int, s: int| #![trigger w(t1, s), w(t2, s)] #![trigger w(t1, s), r(t2, s)]
            0 <= t1 < ceil_div(g.m, mc) && 0 <= t2 < ceil_div(g.m, mc) && t1 / cp != t2 / cp implies !(w(t1, s) && (w(t2, s) || r(t2, s))) by {
        let (w1, w2) = (t1 / cp, t2 / cp);
        assert(0 <= w1 < nap && 0 <= w2 < nap);
        l_buf_a::<E>(x, app, ap, nap, bpp, bp, w1);
        l_buf_a::<E>(x, app, ap, nap, bpp, bp, w2);
        E::raw_ok();
        assert(raw_blk::<E>(s, bpp, lb) ==> raw_blk::<E>(s, bpp, bp));
        if w(t1, s) {
            if crow::<E>(g, mc, j0, nc, t1, s) {
                assert(raw_c::<E>(g, s));
                assert(!crow::<E>(g, mc, j0, nc, t2, s));
                assert(!raw_blk::<E>(s, app + ap * w2, ap));
                assert(!raw_a::<E>(g, s));
                assert(!raw_blk::<E>(s, bpp, bp));
            } else {
                assert(raw_blk::<E>(s, app + ap * w1, ap));
                assert(x(s));
                assert(!crow::<E>(g, mc, j0, nc, t2, s)) by { if crow::<E>(g, mc, j0, nc, t2, s) { assert(raw_c::<E>(g, s)); } }
                assert(!raw_blk::<E>(s, app + ap * w2, ap));
                assert(!raw_a::<E>(g, s));
            }
        }
    }
}
/// packing of the chunk's rows of A
pub proof fn l_g3_a<E: Raw>(o: MV, ma: MV, mx: MV, g: GL, dep: DF, x: SetF, pa: P<E>, i0: int, d0: int, sz: int, kc: int, mr: int, ap3: int, ap: int)
    requires
        gok::<E>(o, g, x), gst::<E>(o, ma, g, dep, x), pa.wf(), pa.a@ == g.a, mrd::<E>(o, pa, g.m, g.k, g.rsa, g.csa),
        0 <= i0, 0 <= d0, 0 < sz <= 65536, 0 < kc <= 65536, 0 < mr, i0 + sz <= g.m, d0 + kc <= g.k,
        rup(sz, mr) * kc <= ap,
        mx.val == ma.val, mx.rsz == ma.rsz,
        forall|s: int| #[trigger] raw_a::<E>(g, s) ==> mx.rd.contains(s),
        forall|s: int| #[trigger] raw_blk::<E>(s, ap3, ap) ==> x(s) && mx.wr.contains(s),
    ensures
        pa.at(ga(g, i0, d0)).wf(),
        forall|buf: Sl<E>| #![trigger buf.wf()] buf.wf() && buf.p.a@ == ap3 && buf.n == ap ==> pack_req::<E>(mx, kc, sz, mr, buf, pa.at(ga(g, i0, d0)), g.rsa, g.csa),
        forall|i: int, u: int| 0 <= i < sz && 0 <= u < kc ==> #[trigger] msrc::<E>(mx, ga(g, i0, d0), g.rsa, g.csa)(i, u) == asrc::<E>(o, g, i0, d0)(i, u),
{
    hide(raw_in);
    E::raw_ok();
    l_g_ab::<E>(o, ma, g, dep, x);
    l_g_raw::<E>(o, g, x);
    l_g_elt::<E>(g);
    let p3 = pa.at(ga(g, i0, d0));
    l_at2_shall(g.a, i0, d0, g.rsa, g.csa);
    assert(pa.inb(at2(pa.a@, i0, g.rsa, d0, g.csa)));
    assert forall|i: int, u: int| #![trigger at2(p3.a@, i, g.rsa, u, g.csa)] 0 <= i < sz && 0 <= u < kc implies
            at2(p3.a@, i, g.rsa, u, g.csa) == ga(g, i0 + i, d0 + u) && p3.inb(at2(p3.a@, i, g.rsa, u, g.csa)) && erd::<E>(mx, at2(p3.a@, i, g.rsa, u, g.csa))
            && ev::<E>(mx, at2(p3.a@, i, g.rsa, u, g.csa)) == ev::<E>(o, ga(g, i0 + i, d0 + u))
            && !(ap3 <= at2(p3.a@, i, g.rsa, u, g.csa) < ap3 + ap) by {
        let e = at2(p3.a@, i, g.rsa, u, g.csa);
        assert(e == at2(g.a, i0 + i, g.rsa, d0 + u, g.csa));
        assert(pa.inb(at2(pa.a@, i0 + i, g.rsa, d0 + u, g.csa)));
        assert(raw_a::<E>(g, E::cxn() * e) && raw_a::<E>(g, E::cxn() * e + E::cxn() - 1));
        if ap3 <= e < ap3 + ap { if E::cxn() == 1 { assert(raw_blk::<E>(e, ap3, ap)); } else { assert(raw_blk::<E>(2 * e, ap3, ap)); } }
    }
    assert forall|s: int| #[trigger] raw_blk::<E>(s, ap3, rup(sz, mr) * kc) implies mx.wr.contains(s) by { assert(raw_blk::<E>(s, ap3, ap)); }
}
/// the chunk's part of C
pub proof fn l_g3_c<E: Raw>(o: MV, ma: MV, mx: MV, g: GL, x: SetF, pc: P<E>, mc: int, j0: int, nc: int, d0: int, kc: int, done: ISet<int>, t: int)
    requires
        gok::<E>(o, g, x), gst::<E>(o, ma, g, dep3(g, done, mc, j0, nc, d0, kc), x),
        0 < mc, 0 <= j0, 0 < nc, j0 + nc <= g.n, 0 <= d0, 0 <= t < ceil_div(g.m, mc),
        pc.wf() && pc.a@ == g.c, mwr::<E>(o, pc, g.m, g.n, g.rsc, g.csc),
        !done.contains(t), mx.val == ma.val,
        forall|s: int| #[trigger] crow::<E>(g, mc, j0, nc, t, s) ==> mx.wr.contains(s) && (ma.rd.contains(s) ==> mx.rd.contains(s)),
    ensures
        ({
            let sz = chunk_sz(g.m, mc, t);
            let c3 = pc.at(gc(g, t * mc, j0));
            &&& 0 < sz <= mc
            &&& c3.wf()
            &&& mwr::<E>(mx, c3, sz, nc, g.rsc, g.csc) && minj(c3.a@, sz, nc, g.rsc, g.csc)
            &&& (d0 > 0 || !is0(g.be)) ==> mrd::<E>(mx, c3, sz, nc, g.rsc, g.csc)
            &&& forall|b: int, l: int| #![trigger mat_off(c3.a@, sz, nc, g.rsc, g.csc, b, l)] (forall|s: int| #[trigger] raw_blk::<E>(s, b, l) ==> x(s)) ==> mat_off(c3.a@, sz, nc, g.rsc, g.csc, b, l)
        }),
{
    hide(raw_in);
    E::raw_ok();
    l_chunk(g.m, mc, t);
    let sz = chunk_sz(g.m, mc, t);
    let i0 = t * mc;
    let c3 = pc.at(gc(g, i0, j0));
    l_at2_shall(g.c, i0, j0, g.rsc, g.csc);
    assert(pc.inb(at2(pc.a@, i0, g.rsc, j0, g.csc)));
    l_sub_mat::<E>(g.c, i0, j0, sz, nc, g.m, g.n, g.rsc, g.csc);
    l_g_raw::<E>(o, g, x);
    l_g_elt::<E>(g);
    assert forall|i: int, j: int| #![trigger at2(c3.a@, i, g.rsc, j, g.csc)] 0 <= i < sz && 0 <= j < nc implies
            c3.inb(at2(c3.a@, i, g.rsc, j, g.csc)) && ewr::<E>(mx, at2(c3.a@, i, g.rsc, j, g.csc))
            && ((d0 > 0 || !is0(g.be)) ==> erd::<E>(mx, at2(c3.a@, i, g.rsc, j, g.csc))) && !x(E::cxn() * at2(c3.a@, i, g.rsc, j, g.csc)) by {
        let e = at2(c3.a@, i, g.rsc, j, g.csc);
        assert(e == at2(g.c, i0 + i, g.rsc, j0 + j, g.csc));
        assert(pc.inb(at2(pc.a@, i0 + i, g.rsc, j0 + j, g.csc)));
        assert(raw_c::<E>(g, E::cxn() * e));
        l_g3_c_elt::<E>(o, ma, mx, g, x, mc, j0, nc, d0, kc, done, t, i, j);
    }
    assert forall|b: int, l: int| #![trigger mat_off(c3.a@, sz, nc, g.rsc, g.csc, b, l)] (forall|s: int| #[trigger] raw_blk::<E>(s, b, l) ==> x(s)) implies mat_off(c3.a@, sz, nc, g.rsc, g.csc, b, l) by {
        assert forall|i: int, j: int| 0 <= i < sz && 0 <= j < nc implies !(b <= #[trigger] at2(c3.a@, i, g.rsc, j, g.csc) < b + l) by {
            let e = at2(c3.a@, i, g.rsc, j, g.csc);
            if b <= e < b + l { if E::cxn() == 1 { assert(raw_blk::<E>(e, b, l)); } else { assert(raw_blk::<E>(2 * e, b, l)); } }
        }
    }
}
pub proof fn l_g3_c_elt<E: Raw>(o: MV, ma: MV, mx: MV, g: GL, x: SetF, mc: int, j0: int, nc: int, d0: int, kc: int, done: ISet<int>, t: int, i: int, j: int)
    requires
        gok::<E>(o, g, x), gst::<E>(o, ma, g, dep3(g, done, mc, j0, nc, d0, kc), x),
        0 < mc, 0 <= j0, 0 < nc, j0 + nc <= g.n, 0 <= d0, 0 <= t < ceil_div(g.m, mc), 0 <= i < chunk_sz(g.m, mc, t), 0 <= j < nc,
        !done.contains(t),
        forall|s: int| #[trigger] crow::<E>(g, mc, j0, nc, t, s) ==> mx.wr.contains(s) && (ma.rd.contains(s) ==> mx.rd.contains(s)),
    ensures
        ewr::<E>(mx, at2(g.c, t * mc + i, g.rsc, j0 + j, g.csc)), (d0 > 0 || !is0(g.be)) ==> erd::<E>(mx, at2(g.c, t * mc + i, g.rsc, j0 + j, g.csc)),
{
    E::raw_ok();
    l_chunk(g.m, mc, t);
    let i0 = t * mc;
    let e = at2(g.c, i0 + i, g.rsc, j0 + j, g.csc);
    l_at2_shall(g.c, i0, j0, g.rsc, g.csc);
    assert(at2(gc(g, i0, j0), i, g.rsc, j, g.csc) == e);
    assert(in_mat(e, gc(g, i0, j0), chunk_sz(g.m, mc, t), nc, g.rsc, g.csc));
    l_elt::<E>(e); l_elt::<E>(2 * e); l_elt::<E>(2 * e + 1);
    assert((i0 + i) / mc == t) by { assert((t * mc + i) % mc == i); }
    assert(dep3(g, done, mc, j0, nc, d0, kc)(i0 + i, j0 + j) == d0);
    assert((d0 > 0 || !is0(g.be)) ==> erd::<E>(ma, e)) by { assert(!is0(g.be) ==> erd::<E>(o, e)); }
    if E::cxn() == 1 { assert(crow::<E>(g, mc, j0, nc, t, e)); }
    else { assert(crow::<E>(g, mc, j0, nc, t, 2 * e) && crow::<E>(g, mc, j0, nc, t, 2 * e + 1)); }
}
/// what the chunk has
pub proof fn l_g3_perm<E: Raw>(ma: MV, mx: MV, g: GL, mc: int, j0: int, nc: int, app: int, ap: int, bpp: int, lb: int, cp: int, t: int)
    requires restricted(ma, ma, mx, w3fn::<E>(g, mc, j0, nc, app, ap, cp), r3fn::<E>(g, bpp, lb), t),
    ensures
        forall|s: int| #![trigger mx.wr.contains(s)] #![trigger crow::<E>(g, mc, j0, nc, t, s)] #![trigger raw_blk::<E>(s, app + ap * (t / cp), ap)] mx.wr.contains(s) == (crow::<E>(g, mc, j0, nc, t, s) || raw_blk::<E>(s, app + ap * (t / cp), ap)),
        forall|s: int| #![trigger mx.rd.contains(s)] #![trigger raw_a::<E>(g, s)] #![trigger raw_blk::<E>(s, bpp, lb)] mx.rd.contains(s) == (raw_a::<E>(g, s) || raw_blk::<E>(s, bpp, lb) || (mx.wr.contains(s) && ma.rd.contains(s))),
        mx.val == ma.val, mx.rsz == ma.rsz, mx.cpu == ma.cpu, mx.allocs == ma.allocs, mx.tls == ma.tls,
{
    let wf = w3fn::<E>(g, mc, j0, nc, app, ap, cp);
    let rf = r3fn::<E>(g, bpp, lb);
    assert forall|s: int| #![trigger mx.wr.contains(s)] #![trigger crow::<E>(g, mc, j0, nc, t, s)] #![trigger raw_blk::<E>(s, app + ap * (t / cp), ap)] mx.wr.contains(s) == (crow::<E>(g, mc, j0, nc, t, s) || raw_blk::<E>(s, app + ap * (t / cp), ap)) by { assert(wf(t, s) == (crow::<E>(g, mc, j0, nc, t, s) || raw_blk::<E>(s, app + ap * (t / cp), ap))); assert(mx.wr.contains(s) == (wf(t, s) || (ma.wr.contains(s) && !ma.wr.contains(s)))); }
    assert forall|s: int| #![trigger mx.rd.contains(s)] #![trigger raw_a::<E>(g, s)] #![trigger raw_blk::<E>(s, bpp, lb)] mx.rd.contains(s) == (raw_a::<E>(g, s) || raw_blk::<E>(s, bpp, lb) || (mx.wr.contains(s) && ma.rd.contains(s))) by { assert(rf(t, s) == (raw_a::<E>(g, s) || raw_blk::<E>(s, bpp, lb))); assert(mx.rd.contains(s) == (rf(t, s) || (mx.wr.contains(s) && ma.rd.contains(s)))); }
}
/// what packing of A~ and loops 1 and 2 may rely on
pub proof fn l_g3_enter<E: Raw>(o: MV, ma: MV, mx: MV, g: GL, x: SetF, pa: P<E>, pc: P<E>, mc: int, j0: int, nc: int, d0: int, kc: int, mr: int, done: ISet<int>, app: int, ap: int, nap: int, bpp: int, bp: int, lb: int, cp: int, t: int)
    requires
        gok::<E>(o, g, x), gst::<E>(o, ma, g, dep3(g, done, mc, j0, nc, d0, kc), x), buf_ok::<E>(x, app, ap, nap, bpp, bp), 0 <= lb <= bp,
        0 < mc <= 65536, 0 <= j0, 0 < nc, j0 + nc <= g.n, 0 <= d0, 0 < kc <= 65536, d0 + kc <= g.k, 0 <= t < ceil_div(g.m, mc), 0 < mr,
        pa.wf() && pc.wf() && pa.a@ == g.a && pc.a@ == g.c,
        mrd::<E>(o, pa, g.m, g.k, g.rsa, g.csa), mwr::<E>(o, pc, g.m, g.n, g.rsc, g.csc),
        !done.contains(t), 0 <= t / cp < nap, g.m > 0,
        rup(chunk_sz(g.m, mc, t), mr) * kc <= ap,
        blk_rd::<E>(ma, bpp, lb),
        restricted(ma, ma, mx, w3fn::<E>(g, mc, j0, nc, app, ap, cp), r3fn::<E>(g, bpp, lb), t),
    ensures
        ({
            let sz = chunk_sz(g.m, mc, t);
            let ap3 = app + ap * (t / cp);
            let p3 = pa.at(ga(g, t * mc, d0));
            let c3 = pc.at(gc(g, t * mc, j0));
            &&& 0 < sz <= mc
            &&& p3.wf() && c3.wf()
            &&& forall|buf: Sl<E>| #![trigger buf.wf()] buf.wf() && buf.p.a@ == ap3 && buf.n == ap ==> pack_req::<E>(mx, kc, sz, mr, buf, p3, g.rsa, g.csa)
            &&& forall|i: int, u: int| 0 <= i < sz && 0 <= u < kc ==> #[trigger] msrc::<E>(mx, p3.a@, g.rsa, g.csa)(i, u) == asrc::<E>(o, g, t * mc, d0)(i, u)
            &&& mwr::<E>(mx, c3, sz, nc, g.rsc, g.csc) && minj(c3.a@, sz, nc, g.rsc, g.csc)
            &&& (d0 > 0 || !is0(g.be)) ==> mrd::<E>(mx, c3, sz, nc, g.rsc, g.csc)
            &&& mat_off(c3.a@, sz, nc, g.rsc, g.csc, ap3, ap) && mat_off(c3.a@, sz, nc, g.rsc, g.csc, bpp, lb)
            &&& blk_rd::<E>(mx, bpp, lb)
            &&& forall|s: int| #![trigger raw_blk::<E>(s, bpp, lb)] raw_blk::<E>(s, bpp, lb) ==> !raw_blk::<E>(s, ap3, ap)
        }),
{
    hide(gok); hide(gst); hide(mrd); hide(mwr); hide(minj); hide(pack_req);
    l_g3_perm::<E>(ma, mx, g, mc, j0, nc, app, ap, bpp, lb, cp, t);
    l_buf_a::<E>(x, app, ap, nap, bpp, bp, t / cp);
    l_chunk(g.m, mc, t);
    let sz = chunk_sz(g.m, mc, t);
    let i0 = t * mc;
    let ap3 = app + ap * (t / cp);
    l_g3_a::<E>(o, ma, mx, g, dep3(g, done, mc, j0, nc, d0, kc), x, pa, i0, d0, sz, kc, mr, ap3, ap);
    l_g3_c::<E>(o, ma, mx, g, x, pc, mc, j0, nc, d0, kc, done, t);
    assert forall|s: int| #![trigger raw_blk::<E>(s, bpp, lb)] raw_blk::<E>(s, bpp, lb) implies !raw_blk::<E>(s, ap3, ap) && x(s) by { E::raw_ok(); assert(raw_blk::<E>(s, bpp, bp)); }
}
/// elements of C in and outside of chunk t
pub proof fn l_crow_elt<E: Raw>(g: GL, mc: int, j0: int, nc: int, t: int, i: int, j: int)
    requires 0 < mc, 0 < g.m, 0 <= j0, 0 <= nc, j0 + nc <= g.n, minj(g.c, g.m, g.n, g.rsc, g.csc), 0 <= t < ceil_div(g.m, mc), 0 <= i < g.m, 0 <= j < g.n,
    ensures
        i / mc == t && j0 <= j < j0 + nc ==> {
            let (ii, jj) = (i - t * mc, j - j0);
            &&& 0 <= ii < chunk_sz(g.m, mc, t) && 0 <= jj < nc && at2(gc(g, t * mc, j0), ii, g.rsc, jj, g.csc) == at2(g.c, i, g.rsc, j, g.csc)
            &&& crow::<E>(g, mc, j0, nc, t, E::cxn() * at2(g.c, i, g.rsc, j, g.csc)) && crow::<E>(g, mc, j0, nc, t, E::cxn() * at2(g.c, i, g.rsc, j, g.csc) + E::cxn() - 1)
        },
        !(i / mc == t && j0 <= j < j0 + nc) ==> !crow::<E>(g, mc, j0, nc, t, E::cxn() * at2(g.c, i, g.rsc, j, g.csc)) && !crow::<E>(g, mc, j0, nc, t, E::cxn() * at2(g.c, i, g.rsc, j, g.csc) + E::cxn() - 1),
{
    E::raw_ok();
    l_chunk(g.m, mc, t);
    let i0 = t * mc;
    let e = at2(g.c, i, g.rsc, j, g.csc);
    let c3 = gc(g, i0, j0);
    let sz = chunk_sz(g.m, mc, t);
    l_at2_shall(g.c, i0, j0, g.rsc, g.csc);
    l_elt::<E>(e); l_elt::<E>(2 * e); l_elt::<E>(2 * e + 1);
    l_dm(i, mc);
    if i / mc == t && j0 <= j < j0 + nc {
        assert(at2(c3, i - i0, g.rsc, j - j0, g.csc) == e);
        assert(in_mat(e, c3, sz, nc, g.rsc, g.csc));
    } else {
        assert(!in_mat(e, c3, sz, nc, g.rsc, g.csc)) by {
            if in_mat(e, c3, sz, nc, g.rsc, g.csc) {
                let (i2, j2) = choose|i2: int, j2: int| 0 <= i2 < sz && 0 <= j2 < nc && #[trigger] at2(c3, i2, g.rsc, j2, g.csc) == e;
                assert(at2(g.c, i0 + i2, g.rsc, j0 + j2, g.csc) == e);
                assert((t * mc + i2) % mc == i2);
            }
        }
    }
}
/// scalars outside the chunk's part of C and its A~ keep their value
pub proof fn l_g3_keep<E: Raw>(o: MV, ma: MV, mx: MV, mp: MV, mk: MV, mf: MV, g: GL, dep: DF, x: SetF, mc: int, j0: int, nc: int, app: int, ap: int, nap: int, bpp: int, bp: int, lb: int, la: int, cp: int, t: int)
    requires
        gok::<E>(o, g, x), gst::<E>(o, ma, g, dep, x), buf_ok::<E>(x, app, ap, nap, bpp, bp), 0 <= lb <= bp, 0 <= la <= ap,
        0 < mc, 0 <= j0, 0 < nc, j0 + nc <= g.n, 0 <= t < ceil_div(g.m, mc), 0 <= t / cp < nap,
        blk_rd::<E>(ma, bpp, lb),
        restricted(ma, ma, mx, w3fn::<E>(g, mc, j0, nc, app, ap, cp), r3fn::<E>(g, bpp, lb), t),
        upd_blk::<E>(mx, mp, app + ap * (t / cp), la),
        upd3::<E>(mp, mk, nox(), gc(g, t * mc, j0), chunk_sz(g.m, mc, t), nc, g.rsc, g.csc),
        mf.wr == ma.wr, forall|s: int| #[trigger] mf.rd.contains(s) == (ma.rd.contains(s) || mk.rd.contains(s)),
        forall|s: int| #[trigger] mf.val[s] == (if (ma.rd.contains(s) || ma.wr.contains(s)) && !mx.rd.contains(s) && !mx.wr.contains(s) { ma.val[s] } else { mk.val[s] }),
    ensures
        // outside
        forall|s: int| (o.rd.contains(s) || o.wr.contains(s) || raw_blk::<E>(s, bpp, lb)) && !crow::<E>(g, mc, j0, nc, t, s) ==> #[trigger] mf.val[s] == ma.val[s],
        // inside
        forall|s: int| crow::<E>(g, mc, j0, nc, t, s) ==> #[trigger] mf.val[s] == mk.val[s] && mp.val[s] == ma.val[s],
        forall|s: int| raw_blk::<E>(s, bpp, lb) ==> #[trigger] mp.val[s] == ma.val[s] && !crow::<E>(g, mc, j0, nc, t, s),
        forall|s: int| #[trigger] mf.rd.contains(s) ==> ma.rd.contains(s) || x(s) || crow::<E>(g, mc, j0, nc, t, s),
{
    hide(raw_in);
    E::raw_ok();
    l_g_raw::<E>(o, g, x);
    l_crow::<E>(g, mc, j0, nc);
    l_buf_a::<E>(x, app, ap, nap, bpp, bp, t / cp);
    l_g3_perm::<E>(ma, mx, g, mc, j0, nc, app, ap, bpp, lb, cp, t);
    let ap3 = app + ap * (t / cp);
    assert forall|s: int| #![trigger raw_blk::<E>(s, ap3, la)] raw_blk::<E>(s, ap3, la) implies raw_blk::<E>(s, ap3, ap) by {}
    assert forall|s: int| #![trigger raw_blk::<E>(s, bpp, lb)] raw_blk::<E>(s, bpp, lb) implies x(s) && !raw_blk::<E>(s, ap3, ap) by { assert(raw_blk::<E>(s, bpp, bp)); }
    assert forall|s: int| #![trigger crow::<E>(g, mc, j0, nc, t, s)] crow::<E>(g, mc, j0, nc, t, s) implies o.wr.contains(s) && !x(s) by { assert(raw_c::<E>(g, s)); }
    assert forall|s: int| (o.rd.contains(s) || o.wr.contains(s) || raw_blk::<E>(s, bpp, lb)) && !crow::<E>(g, mc, j0, nc, t, s) implies #[trigger] mf.val[s] == ma.val[s] by {
        assert(!raw_blk::<E>(s, ap3, ap));
        assert(mp.val[s] == mx.val[s]);
        assert(ma.rd.contains(s) || ma.wr.contains(s)) by { assert(o.rd.contains(s) ==> ma.rd.contains(s)); assert(o.wr.contains(s) ==> ma.wr.contains(s)); }
        if mx.rd.contains(s) || mx.wr.contains(s) { assert(mp.rd.contains(s) || mp.wr.contains(s)); assert(mk.val[s] == mp.val[s]); }
    }
    assert forall|s: int| crow::<E>(g, mc, j0, nc, t, s) implies #[trigger] mf.val[s] == mk.val[s] && mp.val[s] == ma.val[s] by {
        assert(mx.wr.contains(s)); assert(!raw_blk::<E>(s, ap3, ap)); assert(mp.val[s] == mx.val[s]);
    }
    assert forall|s: int| raw_blk::<E>(s, bpp, lb) implies #[trigger] mp.val[s] == ma.val[s] && !crow::<E>(g, mc, j0, nc, t, s) by { assert(!raw_blk::<E>(s, ap3, la)); assert(mp.val[s] == mx.val[s]); }
    assert forall|s: int| #[trigger] mf.rd.contains(s) implies ma.rd.contains(s) || x(s) || crow::<E>(g, mc, j0, nc, t, s) by {
        if mk.rd.contains(s) && !ma.rd.contains(s) {
            if mp.rd.contains(s) {
                if mx.rd.contains(s) { if raw_blk::<E>(s, bpp, lb) {} else { assert(raw_a::<E>(g, s)); assert(o.rd.contains(s)); } }
                else { assert(raw_blk::<E>(s, ap3, la)); assert(raw_blk::<E>(s, ap3, ap)); }
            } else { assert(crow::<E>(g, mc, j0, nc, t, s)); }
        }
    }
}
/// the chunk is done: permissions back
#[verifier::rlimit(100)] #[verifier::spinoff_prover]
pub proof fn l_g3_step<E: Raw>(o: MV, ma: MV, mx: MV, mp: MV, mk: MV, mf: MV, g: GL, x: SetF, mc: int, j0: int, nc: int, d0: int, kc: int, mr: int, nr: int, done: ISet<int>, app: int, ap: int, nap: int, bpp: int, bp: int, cp: int, t: int, betap: CV)
    requires
        gok::<E>(o, g, x), gst::<E>(o, ma, g, dep3(g, done, mc, j0, nc, d0, kc), x), buf_ok::<E>(x, app, ap, nap, bpp, bp), 0 <= kc * rup(nc, nr) <= bp,
        0 < mc, 0 <= j0, 0 < nc, j0 + nc <= g.n, 0 <= d0, 0 < kc, d0 + kc <= g.k, 0 <= t < ceil_div(g.m, mc), 0 < mr, 0 < nr,
        !done.contains(t), 0 <= t / cp < nap,
        0 <= rup(chunk_sz(g.m, mc, t), mr) * kc <= ap,
        betap == (if d0 == 0 { g.be } else { cone() }),
        blk_rd::<E>(ma, bpp, kc * rup(nc, nr)),
        packed::<E>(ma, bpp, nr, kc, nc, bsrc::<E>(o, g, j0, d0)),
        restricted(ma, ma, mx, w3fn::<E>(g, mc, j0, nc, app, ap, cp), r3fn::<E>(g, bpp, kc * rup(nc, nr)), t),
        upd_blk::<E>(mx, mp, app + ap * (t / cp), rup(chunk_sz(g.m, mc, t), mr) * kc),
        packed::<E>(mp, app + ap * (t / cp), mr, kc, chunk_sz(g.m, mc, t), asrc::<E>(o, g, t * mc, d0)),
        forall|i: int, j: int| 0 <= i < chunk_sz(g.m, mc, t) && 0 <= j < nc ==>
            ev::<E>(mk, #[trigger] at2(gc(g, t * mc, j0), i, g.rsc, j, g.csc)) == comb::<E>(mp, g.al, pfn::<E>(mp, app + ap * (t / cp), mr, bpp, nr, kc), betap, gc(g, t * mc, j0), g.rsc, g.csc)(i, j)
            && erd::<E>(mk, at2(gc(g, t * mc, j0), i, g.rsc, j, g.csc)),
        upd3::<E>(mp, mk, nox(), gc(g, t * mc, j0), chunk_sz(g.m, mc, t), nc, g.rsc, g.csc),
        mf.wr == ma.wr, forall|s: int| #[trigger] mf.rd.contains(s) == (ma.rd.contains(s) || mk.rd.contains(s)),
        forall|s: int| #[trigger] mf.val[s] == (if (ma.rd.contains(s) || ma.wr.contains(s)) && !mx.rd.contains(s) && !mx.wr.contains(s) { ma.val[s] } else { mk.val[s] }),
        mf.allocs == mk.allocs, mf.rsz == mk.rsz, mf.cpu == mk.cpu, mf.tls == mk.tls,
    ensures
        gst::<E>(o, mf, g, dep3(g, done.insert(t), mc, j0, nc, d0, kc), x),
        blk_rd::<E>(mf, bpp, kc * rup(nc, nr)),
        packed::<E>(mf, bpp, nr, kc, nc, bsrc::<E>(o, g, j0, d0)),
{
    hide(raw_in);
    E::raw_ok();
    l_g_raw::<E>(o, g, x);
    l_g_elt::<E>(g);
    l_crow::<E>(g, mc, j0, nc);
    l_chunk(g.m, mc, t);
    let lb = kc * rup(nc, nr);
    let sz = chunk_sz(g.m, mc, t);
    let i0 = t * mc;
    let ap3 = app + ap * (t / cp);
    let c3 = gc(g, i0, j0);
    let dep = dep3(g, done, mc, j0, nc, d0, kc);
    let dep2 = dep3(g, done.insert(t), mc, j0, nc, d0, kc);
    l_g3_keep::<E>(o, ma, mx, mp, mk, mf, g, dep, x, mc, j0, nc, app, ap, nap, bpp, bp, lb, rup(sz, mr) * kc, cp, t);
    l_packed_same::<E>(ma, mp, bpp, nr, kc, nc, bsrc::<E>(o, g, j0, d0));
    l_packed_same::<E>(ma, mf, bpp, nr, kc, nc, bsrc::<E>(o, g, j0, d0));
    assert forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n implies
            ev::<E>(mf, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) == gval::<E>(o, g, i, j, dep2(i, j)) && (dep2(i, j) > 0 ==> erd::<E>(mf, at2(g.c, i, g.rsc, j, g.csc))) by {
        let e = at2(g.c, i, g.rsc, j, g.csc);
        l_crow_elt::<E>(g, mc, j0, nc, t, i, j);
        assert(ev::<E>(ma, e) == gval::<E>(o, g, i, j, dep(i, j)) && (dep(i, j) > 0 ==> erd::<E>(ma, e)));
        assert(ewr::<E>(o, e));
        if i / mc == t && j0 <= j < j0 + nc {
            let (ii, jj) = (i - i0, j - j0);
            assert(at2(c3, ii, g.rsc, jj, g.csc) == e);
            assert(ev::<E>(mf, e) == ev::<E>(mk, e));
            assert(ev::<E>(mp, e) == ev::<E>(ma, e));
            l_pfn::<E>(mp, ap3, mr, sz, asrc::<E>(o, g, i0, d0), bpp, nr, nc, bsrc::<E>(o, g, j0, d0), kc, ii, jj);
            l_g_deep::<E>(o, g, i, j, d0, kc, ii, jj, betap);
            assert(dep(i, j) == d0 && dep2(i, j) == d0 + kc);
            assert(erd::<E>(mk, e));
        } else {
            assert(dep2(i, j) == dep(i, j));
            assert(ev::<E>(mf, e) == ev::<E>(ma, e));
        }
    }
    assert forall|s: int| #![trigger mf.val[s]] (o.rd.contains(s) || o.wr.contains(s)) && !raw_c::<E>(g, s) implies mf.val[s] == o.val[s] by {
        assert(!crow::<E>(g, mc, j0, nc, t, s));
        assert(ma.val[s] == o.val[s]);
    }
    assert forall|s: int| #![trigger mf.rd.contains(s)] (o.rd.contains(s) ==> mf.rd.contains(s)) && (mf.rd.contains(s) ==> o.rd.contains(s) || x(s) || raw_c::<E>(g, s)) by {
        assert(o.rd.contains(s) ==> ma.rd.contains(s));
        assert(ma.rd.contains(s) ==> o.rd.contains(s) || x(s) || raw_c::<E>(g, s));
    }
}
/// panels of A~ and B~ in the buffer start aligned
pub proof fn l_buf_al<E: Raw>(b: int, mr: int, kk: int, mm: int, w: int, al: int)
    requires aligned::<E>(b, al), al >= 0, al != 0 ==> (mr * esz::<E>()) % al == 0, w >= 0, kk >= 0, mm >= 0, mr > 0,
    ensures aligned::<E>(b + kk * rup(mm, mr) * w, al)
{
    let q = ceil_div(mm, mr);
    l_ceil(mm, mr);
    assert(q * w >= 0) by(nonlinear_arith) requires q >= 0, w >= 0;
    l_panel_al::<E>(b, mr, kk, q * w, al);
    assert((q * w) * (mr * kk) == kk * (q * mr) * w) by(nonlinear_arith);
}
/// the part of a block fits where the largest fits
pub proof fn l_buf_fit(mc: int, mm: int, mr: int, kc: int, kk: int)
    requires 0 < mc <= mm, 0 < kc <= kk, 0 < mr,
    ensures 0 <= rup(mc, mr) * kc <= kk * rup(mm, mr), rup(mc, mr) * kc == kc * rup(mc, mr), rup(mc, mr) > 0, 0 < kk * rup(mm, mr),
{
    l_ceil(mc, mr);
    l_ceil_mono(mc, mm, mr);
    let (p, q) = (rup(mc, mr), rup(mm, mr));
    assert(0 <= p * kc <= kk * q && p * kc == kc * p && 0 < kk * q) by(nonlinear_arith) requires 0 < p <= q, 0 < kc <= kk;
}
/// the buffer is given back
#[verifier::rlimit(100)] #[verifier::spinoff_prover]
pub proof fn l_g_end<E: Raw>(m0: MV, o: MV, m: MV, m2: MV, g: GL, b: int, n: int)
    requires
        gok::<E>(o, g, bset(E::rsz(), b, n)), o == (MV { allocs: o.allocs, ..m0 }), gst::<E>(o, m, g, dep5(g, g.n), bset(E::rsz(), b, n)),
        given_up(m, m2, b, n), m2.allocs == m0.allocs, m2.tls == m.tls,
    ensures gl_ens::<E>(m0, m2, g)
{
    hide(raw_in);
    let x = bset(E::rsz(), b, n);
    l_g_raw::<E>(o, g, x);
    l_g_elt::<E>(g);
    E::raw_ok();
    assert(forall|s: int| x(s) == byte_blk(s, m.rsz, b, n));
    assert forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n implies ev::<E>(m2, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) == gres::<E>(m0, g, i, j) && erd::<E>(m2, at2(g.c, i, g.rsc, j, g.csc)) by {
        let e = at2(g.c, i, g.rsc, j, g.csc);
        assert(dep5(g, g.n)(i, j) == g.k);
        assert(raw_c::<E>(g, E::cxn() * e) && raw_c::<E>(g, E::cxn() * e + E::cxn() - 1));
        assert(arow::<E>(o, g, i) =~= arow::<E>(m0, g, i));
        assert(bcol::<E>(o, g, j) =~= bcol::<E>(m0, g, j));
    }
    assert forall|s: int| #![trigger m2.rd.contains(s)] (m0.rd.contains(s) ==> m2.rd.contains(s)) && (m2.rd.contains(s) ==> m0.rd.contains(s) || raw_c::<E>(g, s)) by {
        assert(o.rd.contains(s) ==> m.rd.contains(s)); assert(x(s) ==> !o.rd.contains(s));
    }
    assert forall|s: int| #![trigger m2.wr.contains(s)] m2.wr.contains(s) == m0.wr.contains(s) by { assert(x(s) ==> !o.wr.contains(s)); }
}
/// C has at most isize::MAX rows and columns
pub proof fn l_c_dim<E: Raw>(m: MV, p: P<E>, r: int, c: int, rs: int, cs: int)
    requires mwr::<E>(m, p, r, c, rs, cs), minj(p.a@, r, c, rs, cs), p.wf(), r > 0, c > 0,
    ensures r <= isize::MAX, c <= isize::MAX, r > 1 ==> rs != 0, c > 1 ==> cs != 0,
{
    l_at2_way::<E>(m, p, 0, 0, r, c, rs, cs);
    l_at2_way::<E>(m, p, r - 1, 0, r, c, rs, cs);
    l_at2_way::<E>(m, p, 0, c - 1, r, c, rs, cs);
    assert(0 * rs == 0 && 0 * cs == 0) by(nonlinear_arith);
    if r > 1 { l_at2(p.a@, 1, rs, 0, cs); l_at2(p.a@, 0, rs, 0, cs); assert(1 * rs == rs && 0 * cs == 0) by(nonlinear_arith); assert(at2(p.a@, 1, rs, 0, cs) != at2(p.a@, 0, rs, 0, cs)); }
    if c > 1 { l_at2(p.a@, 0, rs, 1, cs); l_at2(p.a@, 0, rs, 0, cs); assert(1 * cs == cs && 0 * rs == 0) by(nonlinear_arith); assert(at2(p.a@, 0, rs, 1, cs) != at2(p.a@, 0, rs, 0, cs)); }
    if r > 1 { if rs >= 1 { assert((r - 1) * rs >= r - 1) by(nonlinear_arith) requires r - 1 >= 0, rs >= 1; } else { assert((r - 1) * rs <= -(r - 1)) by(nonlinear_arith) requires r - 1 >= 0, rs <= -1; } }
    if c > 1 { if cs >= 1 { assert((c - 1) * cs >= c - 1) by(nonlinear_arith) requires c - 1 >= 0, cs >= 1; } else { assert((c - 1) * cs <= -(c - 1)) by(nonlinear_arith) requires c - 1 >= 0, cs <= -1; } }
}

/// nothing to multiply: C is scaled
pub proof fn l_g_early<E: Raw>(m0: MV, g: GL)
    requires g.m >= 0, g.n >= 0, g.k >= 0,
    ensures
        g.m == 0 || g.n == 0 || g.k == 0 ==> forall|mf: MV| #![trigger gl_ens::<E>(m0, mf, g)]
            mst::<E>(m0, mf, all(), scaled::<E>(m0, g.be, g.c, g.rsc, g.csc), g.c, g.m, g.n, g.rsc, g.csc) ==> gl_ens::<E>(m0, mf, g),
{
    hide(raw_in);
    if g.m == 0 || g.n == 0 || g.k == 0 {
        assert forall|mf: MV| #![trigger gl_ens::<E>(m0, mf, g)]
            mst::<E>(m0, mf, all(), scaled::<E>(m0, g.be, g.c, g.rsc, g.csc), g.c, g.m, g.n, g.rsc, g.csc) implies gl_ens::<E>(m0, mf, g) by {
            assert forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n implies ev::<E>(mf, #[trigger] at2(g.c, i, g.rsc, j, g.csc)) == gres::<E>(m0, g, i, j) && erd::<E>(mf, at2(g.c, i, g.rsc, j, g.csc)) by {
                assert(all()(i, j));
            }
        }
    }
}
/// A~ is packed: what loops 1 and 2 need
pub proof fn l_g3_pk<E: Raw>(mx: MV, mp: MV, c: P<E>, sz: int, nc: int, rs: int, cs: int, be: CV, ap3: int, ap: int, la: int, bpp: int, lb: int)
    requires
        upd_blk::<E>(mx, mp, ap3, la), 0 <= la <= ap, mwr::<E>(mx, c, sz, nc, rs, cs), !is0(be) ==> mrd::<E>(mx, c, sz, nc, rs, cs),
        mat_off(c.a@, sz, nc, rs, cs, ap3, ap), blk_rd::<E>(mx, bpp, lb),
    ensures
        mwr::<E>(mp, c, sz, nc, rs, cs), !is0(be) ==> mrd::<E>(mp, c, sz, nc, rs, cs), mat_off(c.a@, sz, nc, rs, cs, ap3, la), blk_rd::<E>(mp, bpp, lb),
{
}
/// all chunks of loop 3 done
pub proof fn l_g3_all(g: GL, done: ISet<int>, mc: int, j0: int, nc: int, d0: int, kc: int)
    requires 0 < mc, 0 < g.m, forall|t: int| 0 <= t < ceil_div(g.m, mc) ==> #[trigger] done.contains(t),
    ensures forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n ==> #[trigger] dep3(g, done, mc, j0, nc, d0, kc)(i, j) == dep4(g, j0, nc, d0 + kc)(i, j),
{
    assert forall|i: int, j: int| 0 <= i < g.m && 0 <= j < g.n implies #[trigger] dep3(g, done, mc, j0, nc, d0, kc)(i, j) == dep4(g, j0, nc, d0 + kc)(i, j) by {
        l_dm(i, mc); l_ceil(g.m, mc);
        let (q, u) = (i / mc, ceil_div(g.m, mc));
        assert(q < u) by(nonlinear_arith) requires q * mc <= i, i < g.m, g.m <= u * mc, mc > 0;
        assert(done.contains(q));
    }
}
