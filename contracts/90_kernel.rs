// ------------------------------------------------------------------
// 90_kernel.rs: micro-kernels
// ------------------------------------------------------------------
/// a kernel call: memory before, depth, alpha, panels, beta, tile of C
pub struct KA { pub m: MV, pub k: int, pub al: CV, pub a: int, pub mr: int, pub b: int, pub nr: int, pub be: CV, pub c: int, pub rs: int, pub cs: int }
/// inner product of the first t entries of row i of panel a and row j of panel b (real elements)
pub open spec fn racc(g: KA, i: int, j: int, t: int) -> RV decreases t {
    if t <= 0 { rzero() } else { radd(racc(g, i, j, t - 1), rmul(g.m.val[g.a + (t - 1) * g.mr + i], g.m.val[g.b + (t - 1) * g.nr + j])) }
}
/// what the tile element (i, j) becomes
#[verifier::opaque]
pub open spec fn kwant<E: Raw>(g: KA, i: int, j: int) -> CV {
    res(g.al, kdot::<E>(g.m, g.a, g.mr, i, g.b, g.nr, j, g.k), g.be, ev::<E>(g.m, at2(g.c, i, g.rs, j, g.cs)))
}
/// adding the next term of an element's sum gives the longer sum (mr, nr: the panel widths)
pub proof fn l_racc_st(g: KA, i: int, j: int, t: int, mr: int, nr: int)
    requires g.mr == mr, g.nr == nr, t >= 0,
    ensures radd(racc(g, i, j, t), rmul(g.m.val[g.a + t * mr + i], g.m.val[g.b + t * nr + j])) == racc(g, i, j, t + 1),
{}
pub proof fn l_racc0(g: KA) ensures forall|i: int, j: int| #[trigger] racc(g, i, j, 0) == rzero() {}
pub proof fn l_racc_kdot<E: Raw>(g: KA, i: int, j: int, t: int)
    requires E::cxn() == 1, t >= 0,
    ensures emb(racc(g, i, j, t)) == kdot::<E>(g.m, g.a, g.mr, i, g.b, g.nr, j, t),
    decreases t,
{
    if t > 0 {
        l_racc_kdot::<E>(g, i, j, t - 1);
        broadcast use l_emb_add, l_emb_mul;
    }
}
/// real elements: the wanted value in terms of racc
pub proof fn l_kwant<E: Raw>(g: KA, al: RV, be: RV)
    requires E::cxn() == 1, g.k >= 0, g.al == emb(al), g.be == emb(be),
    ensures
        forall|i: int, j: int| #[trigger] kwant::<E>(g, i, j) == emb(rres(al, racc(g, i, j, g.k), be, g.m.val[at2(g.c, i, g.rs, j, g.cs)])),
        ris0(be) ==> forall|i: int, j: int| #[trigger] kwant::<E>(g, i, j) == emb(rmul(al, racc(g, i, j, g.k))),
        ris0(be) ==> forall|i: int, j: int| #[trigger] kwant::<E>(g, i, j) == emb(radd(rzero(), rmul(al, racc(g, i, j, g.k)))),
        !ris0(be) ==> forall|i: int, j: int| #[trigger] kwant::<E>(g, i, j) == emb(radd(rmul(g.m.val[at2(g.c, i, g.rs, j, g.cs)], be), rmul(al, racc(g, i, j, g.k)))),
{
    reveal(kwant);
    broadcast use b_rmul_c, l_radd_0;
    assert forall|i: int, j: int| #[trigger] kwant::<E>(g, i, j) == emb(rres(al, racc(g, i, j, g.k), be, g.m.val[at2(g.c, i, g.rs, j, g.cs)])) by {
        l_racc_kdot::<E>(g, i, j, g.k);
        l_emb_res(al, racc(g, i, j, g.k), be, g.m.val[at2(g.c, i, g.rs, j, g.cs)]);
    }
}
// ---- the tile while it is being written. Slot 8 i + j stands for the tile element (i, j).
pub open spec fn kad(g: KA, s: int) -> int { at2(g.c, s / 8, g.rs, s % 8, g.cs) }
pub open spec fn kval(g: KA, s: int) -> bool { 0 <= s / 8 < g.mr && 0 <= s % 8 < g.nr }
/// the slot of an element address
#[verifier::opaque]
pub open spec fn kslot(g: KA, p: int) -> int { choose|s: int| kval(g, s) && #[trigger] kad(g, s) == p }
/// what the element at address p of the tile becomes
#[verifier::opaque]
pub open spec fn kwp<E: Raw>(g: KA, p: int) -> CV { kwant::<E>(g, kslot(g, p) / 8, kslot(g, p) % 8) }
/// s is the slot of the element address p
#[verifier::opaque]
pub open spec fn kat(g: KA, p: int, s: int) -> bool { kval(g, s) && kad(g, s) == p }
/// slots in w have their new value, nothing else changed
#[verifier::opaque]
pub open spec fn kst<E: Raw>(g: KA, m: MV, w: ISet<int>) -> bool {
    &&& forall|s: int| #[trigger] w.contains(s) ==> kval(g, s) && ev::<E>(m, kad(g, s)) == kwant::<E>(g, s / 8, s % 8) && erd::<E>(m, kad(g, s))
    &&& forall|s: int| #![trigger m.val[s]] (forall|x: int| #[trigger] w.contains(x) ==> kad(g, x) != elt_of::<E>(s)) ==> m.val[s] == g.m.val[s]
    &&& forall|s: int| #![trigger m.rd.contains(s)] (forall|x: int| #[trigger] w.contains(x) ==> kad(g, x) != elt_of::<E>(s)) ==> m.rd.contains(s) == g.m.rd.contains(s)
    &&& forall|s: int| #![trigger m.rd.contains(s)] g.m.rd.contains(s) ==> m.rd.contains(s)
    &&& same_perm(g.m, m)
}
pub proof fn l_kst0<E: Raw>(g: KA) ensures kst::<E>(g, g.m, ISet::empty()) { reveal(kst); }
pub proof fn l_kst_put<E: Raw>(g: KA, m: MV, w: ISet<int>, p: int, v: CV)
    requires
        kst::<E>(g, m, w), minj(g.c, g.mr, g.nr, g.rs, g.cs), 0 < g.nr <= 8, E::cxn() == 1 || E::cxn() == 2, E::cxn() == 1 ==> v.im == 0real,
        kat(g, p, kslot(g, p)), kwp::<E>(g, p) == v, /*@req tile-element [C01 C02 C03 C05]*/
    ensures
        kst::<E>(g, put::<E>(m, p, v), w.insert(kslot(g, p))),
        same_perm(g.m, put::<E>(m, p, v)),
{
    reveal(kst);
    reveal(kat);
    reveal(kwp);
    let q = kslot(g, p);
    let n = put::<E>(m, p, v);
    let w2 = w.insert(q);
    assert forall|s: int| #[trigger] w2.contains(s) implies kval(g, s) && ev::<E>(n, kad(g, s)) == kwant::<E>(g, s / 8, s % 8) && erd::<E>(n, kad(g, s)) by {
        if s != q {
            assert(w.contains(s));
            if kad(g, s) == p { assert(s / 8 == q / 8 && s % 8 == q % 8); assert(s == q) by(nonlinear_arith) requires s / 8 == q / 8, s % 8 == q % 8; }
        }
    }
    assert forall|s: int| #![trigger n.val[s]] (forall|x: int| #[trigger] w2.contains(x) ==> kad(g, x) != elt_of::<E>(s)) implies n.val[s] == g.m.val[s] by {
        assert(w2.contains(q));
        assert forall|x: int| #[trigger] w.contains(x) implies kad(g, x) != elt_of::<E>(s) by { assert(w2.contains(x)); }
        assert(m.val[s] == g.m.val[s]);
        l_elt::<E>(s);
    }
    assert forall|s: int| #![trigger n.rd.contains(s)] (forall|x: int| #[trigger] w2.contains(x) ==> kad(g, x) != elt_of::<E>(s)) implies n.rd.contains(s) == g.m.rd.contains(s) by {
        assert(w2.contains(q));
        assert forall|x: int| #[trigger] w.contains(x) implies kad(g, x) != elt_of::<E>(s) by { assert(w2.contains(x)); }
        assert(m.rd.contains(s) == g.m.rd.contains(s));
        l_elt::<E>(s);
    }
}
/// an element not written yet still has its old value
pub proof fn l_kst_get<E: Raw>(g: KA, m: MV, w: ISet<int>, s: int)
    requires kst::<E>(g, m, w), minj(g.c, g.mr, g.nr, g.rs, g.cs), kval(g, s), !w.contains(s),
    ensures ev::<E>(m, kad(g, s)) == ev::<E>(g.m, kad(g, s)), erd::<E>(m, kad(g, s)) == erd::<E>(g.m, kad(g, s)),
{
    reveal(kst);
    assert forall|x: int| #[trigger] w.contains(x) implies kad(g, x) != kad(g, s) by {
        if kad(g, x) == kad(g, s) { assert(s / 8 == x / 8 && s % 8 == x % 8); assert(s == x) by(nonlinear_arith) requires s / 8 == x / 8, s % 8 == x % 8; }
    }
    let a = kad(g, s);
    if E::cxn() == 1 {
        assert(elt_of::<E>(a) == a);
        assert(m.val[a] == g.m.val[a] && m.rd.contains(a) == g.m.rd.contains(a));
    } else {
        assert(elt_of::<E>(2 * a) == a && elt_of::<E>(2 * a + 1) == a);
        assert(m.val[2 * a] == g.m.val[2 * a] && m.rd.contains(2 * a) == g.m.rd.contains(2 * a));
        assert(m.val[2 * a + 1] == g.m.val[2 * a + 1] && m.rd.contains(2 * a + 1) == g.m.rd.contains(2 * a + 1));
    }
}
pub proof fn l_kst_end<E: Raw>(g: KA, m: MV, w: ISet<int>)
    requires
        kst::<E>(g, m, w), g.k >= 0, 0 < g.nr <= 8,
        forall|i: int, j: int| 0 <= i < g.mr && 0 <= j < g.nr ==> #[trigger] w.contains(8 * i + j), /*@req whole-tile-written [C01 C02 C03 C05]*/
    ensures
        is_res::<E>(g.m, m, g.al, kd::<E>(g.m, g.a, g.mr, g.b, g.nr, g.k), g.be, g.c, g.mr, g.nr, g.rs, g.cs),
        upd_mat::<E>(g.m, m, g.c, g.mr, g.nr, g.rs, g.cs),
{
    reveal(kst);
    let f = kd::<E>(g.m, g.a, g.mr, g.b, g.nr, g.k);
    assert forall|i: int, j: int| 0 <= i < g.mr && 0 <= j < g.nr implies
        ev::<E>(m, #[trigger] at2(g.c, i, g.rs, j, g.cs)) == res(g.al, f(i, j), g.be, ev::<E>(g.m, at2(g.c, i, g.rs, j, g.cs))) && erd::<E>(m, at2(g.c, i, g.rs, j, g.cs)) by {
        reveal(kwant);
        let s = 8 * i + j;
        assert(s / 8 == i && s % 8 == j);
        assert(w.contains(8 * i + j));
        assert(f(i, j) == kdot::<E>(g.m, g.a, g.mr, i, g.b, g.nr, j, g.k));
    }
    assert forall|s: int| !raw_in::<E>(s, g.c, g.mr, g.nr, g.rs, g.cs) implies #[trigger] m.val[s] == g.m.val[s] by {
        assert forall|x: int| #[trigger] w.contains(x) implies kad(g, x) != elt_of::<E>(s) by {
            if kad(g, x) == elt_of::<E>(s) { assert(in_mat(elt_of::<E>(s), g.c, g.mr, g.nr, g.rs, g.cs)); }
        }
    }
    assert forall|s: int| !raw_in::<E>(s, g.c, g.mr, g.nr, g.rs, g.cs) implies #[trigger] m.rd.contains(s) == g.m.rd.contains(s) by {
        assert forall|x: int| #[trigger] w.contains(x) implies kad(g, x) != elt_of::<E>(s) by {
            if kad(g, x) == elt_of::<E>(s) { assert(in_mat(elt_of::<E>(s), g.c, g.mr, g.nr, g.rs, g.cs)); }
        }
    }
}
/// everything about position (i, j) of the tile
pub proof fn l_kpos<E: Raw>(g: KA, c: P<E>, i: int, j: int)
    requires mwr::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs), minj(g.c, g.mr, g.nr, g.rs, g.cs), 0 <= i < g.mr, 0 <= j < g.nr, 0 < g.nr <= 8, c.wf(), g.c == c.a@,
    ensures
        c.lo@ <= g.c + i * g.rs + j * g.cs < c.hi@,
        ewr::<E>(g.m, g.c + i * g.rs + j * g.cs),
        mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> erd::<E>(g.m, g.c + i * g.rs + j * g.cs),
        kslot(g, g.c + i * g.rs + j * g.cs) == 8 * i + j,
        kat(g, g.c + i * g.rs + j * g.cs, 8 * i + j),
        kwp::<E>(g, g.c + i * g.rs + j * g.cs) == kwant::<E>(g, i, j),
        at2(g.c, i, g.rs, j, g.cs) == g.c + i * g.rs + j * g.cs,
{
    l_at2_way::<E>(g.m, c, i, j, g.mr, g.nr, g.rs, g.cs);
    reveal(kat);
    reveal(kwp);
    let s = 8 * i + j;
    assert(s / 8 == i && s % 8 == j);
    let p = at2(g.c, i, g.rs, j, g.cs);
    assert(kval(g, s) && kad(g, s) == p);
    reveal(kslot);
    let q = kslot(g, p);
    assert(kval(g, q) && kad(g, q) == p);
    assert(q / 8 == i && q % 8 == j);
    assert(q == s) by(nonlinear_arith) requires q / 8 == s / 8, q % 8 == s % 8;
}
/// position (i, j) of a tile of real elements
pub proof fn l_kposr<E: Raw>(g: KA, c: P<E>, i: int, j: int, al: RV, be: RV)
    requires
        mwr::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs), minj(g.c, g.mr, g.nr, g.rs, g.cs), 0 <= i < g.mr, 0 <= j < g.nr, 0 < g.nr <= 8, c.wf(), g.c == c.a@,
        E::cxn() == 1, g.k >= 0, g.al == emb(al), g.be == emb(be), !ris0(be) ==> mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs),
    ensures
        c.lo@ <= g.c + i * g.rs + j * g.cs < c.hi@,
        g.m.wr.contains(g.c + i * g.rs + j * g.cs),
        !ris0(be) ==> g.m.rd.contains(g.c + i * g.rs + j * g.cs),
        kslot(g, g.c + i * g.rs + j * g.cs) == 8 * i + j,
        kat(g, g.c + i * g.rs + j * g.cs, 8 * i + j),
        racc(g, i, j, 0) == rzero(),
        ris0(be) ==> kwp::<E>(g, g.c + i * g.rs + j * g.cs) == emb(rmul(al, racc(g, i, j, g.k))),
        ris0(be) ==> radd(rzero(), rmul(al, racc(g, i, j, g.k))) == rmul(al, racc(g, i, j, g.k)),
        !ris0(be) ==> kwp::<E>(g, g.c + i * g.rs + j * g.cs) == emb(radd(rmul(g.m.val[g.c + i * g.rs + j * g.cs], be), rmul(al, racc(g, i, j, g.k)))),
{
    l_kpos::<E>(g, c, i, j);
    l_kwant::<E>(g, al, be);
    l_radd_0(rmul(al, racc(g, i, j, g.k)));
    assert(kwant::<E>(g, i, j) == kwp::<E>(g, g.c + i * g.rs + j * g.cs));
}
/// the old value of the tile element (i, j) (real elements)
#[verifier::opaque]
pub open spec fn cel(g: KA, i: int, j: int) -> RV { g.m.val[at2(g.c, i, g.rs, j, g.cs)] }
/// the tile element (i, j) is in the allocation of c, and its offset fits
pub proof fn l_kbnd<E: Raw>(m: MV, c: P<E>, mr: int, nr: int, rs: int, cs: int, i: int, j: int)
    requires mwr::<E>(m, c, mr, nr, rs, cs), c.wf(), 0 <= i < mr, 0 <= j < nr,
    ensures
        c.lo@ <= c.a@ + (rs * i + cs * j) < c.hi@,
        isize::MIN <= rs * i + cs * j <= isize::MAX, isize::MIN <= rs * i <= isize::MAX, isize::MIN <= cs * j <= isize::MAX,
        ewr::<E>(m, c.a@ + (rs * i + cs * j)),
        mrd::<E>(m, c, mr, nr, rs, cs) ==> erd::<E>(m, c.a@ + (rs * i + cs * j)),
{
    assert(rs * i == i * rs && cs * j == j * cs) by(nonlinear_arith);
    l_at2_way::<E>(m, c, i, j, mr, nr, rs, cs);
    l_at2_way::<E>(m, c, i, 0, mr, nr, rs, cs);
    l_at2_way::<E>(m, c, 0, j, mr, nr, rs, cs);
    l_at2_way::<E>(m, c, 0, 0, mr, nr, rs, cs);
}
/// the old value of an element
pub proof fn l_kcel(g: KA, i: int, j: int) ensures g.m.val[g.c + (g.rs * i + g.cs * j)] == cel(g, i, j) {
    assert(g.rs * i == i * g.rs && g.cs * j == j * g.cs) by(nonlinear_arith);
    reveal(cel);
    l_at2(g.c, i, g.rs, j, g.cs);
}
/// a tile whose positions are distinct does not have both strides 1
pub proof fn l_kstr(g: KA)
    requires minj(g.c, g.mr, g.nr, g.rs, g.cs), g.mr > 1, g.nr > 1,
    ensures !(g.rs == 1 && g.cs == 1),
{
    l_at2(g.c, 0, g.rs, 1, g.cs);
    l_at2(g.c, 1, g.rs, 0, g.cs);
    if g.rs == 1 && g.cs == 1 { assert(at2(g.c, 0, g.rs, 1, g.cs) == at2(g.c, 1, g.rs, 0, g.cs)); }
}
/// the tile element (i, j), slot s, is written through p
pub proof fn l_kput<E: Raw>(g: KA, m: MV, w: ISet<int>, p: int, v: CV, i: int, j: int, s: int)
    requires
        kst::<E>(g, m, w), minj(g.c, g.mr, g.nr, g.rs, g.cs), 0 < g.nr <= 8, E::cxn() == 1 || E::cxn() == 2, E::cxn() == 1 ==> v.im == 0real,
        0 <= i < g.mr, 0 <= j < g.nr, s == 8 * i + j,
        p == g.c + (g.rs * i + g.cs * j), /*@req tile-address [C01 C02 C03 C05]*/
        kwant::<E>(g, i, j) == v, /*@req tile-element [C01 C02 C03 C05]*/
    ensures
        kst::<E>(g, put::<E>(m, p, v), w.insert(s)),
        same_perm(g.m, put::<E>(m, p, v)),
{
    assert(g.rs * i == i * g.rs && g.cs * j == j * g.cs) by(nonlinear_arith);
    reveal(kat);
    reveal(kwp);
    reveal(kslot);
    assert(s / 8 == i && s % 8 == j);
    l_at2(g.c, i, g.rs, j, g.cs);
    assert(kval(g, s) && kad(g, s) == p);
    let q = kslot(g, p);
    assert(kval(g, q) && kad(g, q) == p);
    assert(q / 8 == i && q % 8 == j);
    assert(q == s) by(nonlinear_arith) requires q / 8 == s / 8, q % 8 == s % 8;
    l_kst_put::<E>(g, m, w, p, v);
}
/// what the tile element (i, j) becomes (real elements)
pub proof fn l_kwantr<E: Raw>(g: KA, i: int, j: int, al: RV, be: RV)
    requires E::cxn() == 1, g.k >= 0, g.al == emb(al), g.be == emb(be),
    ensures
        racc(g, i, j, 0) == rzero(),
        ris0(be) ==> kwant::<E>(g, i, j) == emb(rmul(al, racc(g, i, j, g.k))),
        ris0(be) ==> radd(rzero(), rmul(al, racc(g, i, j, g.k))) == rmul(al, racc(g, i, j, g.k)),
        !ris0(be) ==> kwant::<E>(g, i, j) == emb(radd(rmul(cel(g, i, j), be), rmul(al, racc(g, i, j, g.k)))),
{
    l_kwant::<E>(g, al, be);
    l_radd_0(rmul(al, racc(g, i, j, g.k)));
    reveal(cel);
}
// ---- whole vectors of real elements: lane l is the tile element (i[l], j[l])
pub proof fn l_kput4<E: Raw>(g: KA, m: MV, w: ISet<int>, p: int, v0: RV, v1: RV, v2: RV, v3: RV, i0: int, j0: int, i1: int, j1: int, i2: int, j2: int, i3: int, j3: int, s0: int, s1: int, s2: int, s3: int) -> (r: ISet<int>)
    requires
        kst::<E>(g, m, w), minj(g.c, g.mr, g.nr, g.rs, g.cs), 0 < g.nr <= 8, E::cxn() == 1,
        0 <= i0 < g.mr, 0 <= j0 < g.nr,
        p == g.c + (g.rs * i0 + g.cs * j0), /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i1 < g.mr, 0 <= j1 < g.nr, i1 == i0 + 1 && j1 == j0 && g.rs == 1 || i1 == i0 && j1 == j0 + 1 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i2 < g.mr, 0 <= j2 < g.nr, i2 == i0 + 2 && j2 == j0 && g.rs == 1 || i2 == i0 && j2 == j0 + 2 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i3 < g.mr, 0 <= j3 < g.nr, i3 == i0 + 3 && j3 == j0 && g.rs == 1 || i3 == i0 && j3 == j0 + 3 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        s0 == 8 * i0 + j0, s1 == 8 * i1 + j1, s2 == 8 * i2 + j2, s3 == 8 * i3 + j3,
        kwant::<E>(g, i0, j0) == emb(v0), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i1, j1) == emb(v1), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i2, j2) == emb(v2), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i3, j3) == emb(v3), /*@req tile-element [C01 C02 C03 C05]*/
    ensures
        kst::<E>(g, put::<E>(put::<E>(put::<E>(put::<E>(m, p + 0, emb(v0)), p + 1, emb(v1)), p + 2, emb(v2)), p + 3, emb(v3)), r), r == w.insert(s0).insert(s1).insert(s2).insert(s3),
        same_perm(g.m, put::<E>(put::<E>(put::<E>(put::<E>(m, p + 0, emb(v0)), p + 1, emb(v1)), p + 2, emb(v2)), p + 3, emb(v3))),
{
    hide(put); hide(minj);
    if i1 == i0 { assert(g.rs * i1 + g.cs * j1 == g.rs * i0 + g.cs * j0 + 1) by(nonlinear_arith) requires i1 == i0, j1 == j0 + 1, g.cs == 1; } else { assert(g.rs * i1 + g.cs * j1 == g.rs * i0 + g.cs * j0 + 1) by(nonlinear_arith) requires j1 == j0, i1 == i0 + 1, g.rs == 1; }
    if i2 == i0 { assert(g.rs * i2 + g.cs * j2 == g.rs * i0 + g.cs * j0 + 2) by(nonlinear_arith) requires i2 == i0, j2 == j0 + 2, g.cs == 1; } else { assert(g.rs * i2 + g.cs * j2 == g.rs * i0 + g.cs * j0 + 2) by(nonlinear_arith) requires j2 == j0, i2 == i0 + 2, g.rs == 1; }
    if i3 == i0 { assert(g.rs * i3 + g.cs * j3 == g.rs * i0 + g.cs * j0 + 3) by(nonlinear_arith) requires i3 == i0, j3 == j0 + 3, g.cs == 1; } else { assert(g.rs * i3 + g.cs * j3 == g.rs * i0 + g.cs * j0 + 3) by(nonlinear_arith) requires j3 == j0, i3 == i0 + 3, g.rs == 1; }
    let mut mm = m; let mut ww = w;
    l_kput::<E>(g, mm, ww, p + 0, emb(v0), i0, j0, s0); mm = put::<E>(mm, p + 0, emb(v0)); ww = ww.insert(s0);
    l_kput::<E>(g, mm, ww, p + 1, emb(v1), i1, j1, s1); mm = put::<E>(mm, p + 1, emb(v1)); ww = ww.insert(s1);
    l_kput::<E>(g, mm, ww, p + 2, emb(v2), i2, j2, s2); mm = put::<E>(mm, p + 2, emb(v2)); ww = ww.insert(s2);
    l_kput::<E>(g, mm, ww, p + 3, emb(v3), i3, j3, s3); mm = put::<E>(mm, p + 3, emb(v3)); ww = ww.insert(s3);
    ww
}
pub proof fn l_kpre4<E: Raw>(g: KA, c: P<E>, p: int, i0: int, j0: int, i1: int, j1: int, i2: int, j2: int, i3: int, j3: int)
    requires
        mwr::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs), c.wf(), g.c == c.a@, E::cxn() == 1,
        0 <= i0 < g.mr, 0 <= j0 < g.nr,
        p == g.c + (g.rs * i0 + g.cs * j0), /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i1 < g.mr, 0 <= j1 < g.nr, i1 == i0 + 1 && j1 == j0 && g.rs == 1 || i1 == i0 && j1 == j0 + 1 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i2 < g.mr, 0 <= j2 < g.nr, i2 == i0 + 2 && j2 == j0 && g.rs == 1 || i2 == i0 && j2 == j0 + 2 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i3 < g.mr, 0 <= j3 < g.nr, i3 == i0 + 3 && j3 == j0 && g.rs == 1 || i3 == i0 && j3 == j0 + 3 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
    ensures
        c.lo@ <= p, p + 4 <= c.hi@,
        g.m.wr.contains(p + 0), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 0), g.m.val[p + 0] == cel(g, i0, j0),
        g.m.wr.contains(p + 1), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 1), g.m.val[p + 1] == cel(g, i1, j1),
        g.m.wr.contains(p + 2), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 2), g.m.val[p + 2] == cel(g, i2, j2),
        g.m.wr.contains(p + 3), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 3), g.m.val[p + 3] == cel(g, i3, j3),
{
    if i1 == i0 { assert(g.rs * i1 + g.cs * j1 == g.rs * i0 + g.cs * j0 + 1) by(nonlinear_arith) requires i1 == i0, j1 == j0 + 1, g.cs == 1; } else { assert(g.rs * i1 + g.cs * j1 == g.rs * i0 + g.cs * j0 + 1) by(nonlinear_arith) requires j1 == j0, i1 == i0 + 1, g.rs == 1; }
    if i2 == i0 { assert(g.rs * i2 + g.cs * j2 == g.rs * i0 + g.cs * j0 + 2) by(nonlinear_arith) requires i2 == i0, j2 == j0 + 2, g.cs == 1; } else { assert(g.rs * i2 + g.cs * j2 == g.rs * i0 + g.cs * j0 + 2) by(nonlinear_arith) requires j2 == j0, i2 == i0 + 2, g.rs == 1; }
    if i3 == i0 { assert(g.rs * i3 + g.cs * j3 == g.rs * i0 + g.cs * j0 + 3) by(nonlinear_arith) requires i3 == i0, j3 == j0 + 3, g.cs == 1; } else { assert(g.rs * i3 + g.cs * j3 == g.rs * i0 + g.cs * j0 + 3) by(nonlinear_arith) requires j3 == j0, i3 == i0 + 3, g.rs == 1; }
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i0, j0); l_kcel(g, i0, j0);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i1, j1); l_kcel(g, i1, j1);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i2, j2); l_kcel(g, i2, j2);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i3, j3); l_kcel(g, i3, j3);
}
pub proof fn l_kput8<E: Raw>(g: KA, m: MV, w: ISet<int>, p: int, v0: RV, v1: RV, v2: RV, v3: RV, v4: RV, v5: RV, v6: RV, v7: RV, i0: int, j0: int, i1: int, j1: int, i2: int, j2: int, i3: int, j3: int, i4: int, j4: int, i5: int, j5: int, i6: int, j6: int, i7: int, j7: int, s0: int, s1: int, s2: int, s3: int, s4: int, s5: int, s6: int, s7: int) -> (r: ISet<int>)
    requires
        kst::<E>(g, m, w), minj(g.c, g.mr, g.nr, g.rs, g.cs), 0 < g.nr <= 8, E::cxn() == 1,
        0 <= i0 < g.mr, 0 <= j0 < g.nr,
        p == g.c + (g.rs * i0 + g.cs * j0), /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i1 < g.mr, 0 <= j1 < g.nr, i1 == i0 + 1 && j1 == j0 && g.rs == 1 || i1 == i0 && j1 == j0 + 1 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i2 < g.mr, 0 <= j2 < g.nr, i2 == i0 + 2 && j2 == j0 && g.rs == 1 || i2 == i0 && j2 == j0 + 2 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i3 < g.mr, 0 <= j3 < g.nr, i3 == i0 + 3 && j3 == j0 && g.rs == 1 || i3 == i0 && j3 == j0 + 3 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i4 < g.mr, 0 <= j4 < g.nr, i4 == i0 + 4 && j4 == j0 && g.rs == 1 || i4 == i0 && j4 == j0 + 4 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i5 < g.mr, 0 <= j5 < g.nr, i5 == i0 + 5 && j5 == j0 && g.rs == 1 || i5 == i0 && j5 == j0 + 5 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i6 < g.mr, 0 <= j6 < g.nr, i6 == i0 + 6 && j6 == j0 && g.rs == 1 || i6 == i0 && j6 == j0 + 6 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i7 < g.mr, 0 <= j7 < g.nr, i7 == i0 + 7 && j7 == j0 && g.rs == 1 || i7 == i0 && j7 == j0 + 7 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        s0 == 8 * i0 + j0, s1 == 8 * i1 + j1, s2 == 8 * i2 + j2, s3 == 8 * i3 + j3, s4 == 8 * i4 + j4, s5 == 8 * i5 + j5, s6 == 8 * i6 + j6, s7 == 8 * i7 + j7,
        kwant::<E>(g, i0, j0) == emb(v0), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i1, j1) == emb(v1), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i2, j2) == emb(v2), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i3, j3) == emb(v3), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i4, j4) == emb(v4), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i5, j5) == emb(v5), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i6, j6) == emb(v6), /*@req tile-element [C01 C02 C03 C05]*/
        kwant::<E>(g, i7, j7) == emb(v7), /*@req tile-element [C01 C02 C03 C05]*/
    ensures
        kst::<E>(g, put::<E>(put::<E>(put::<E>(put::<E>(put::<E>(put::<E>(put::<E>(put::<E>(m, p + 0, emb(v0)), p + 1, emb(v1)), p + 2, emb(v2)), p + 3, emb(v3)), p + 4, emb(v4)), p + 5, emb(v5)), p + 6, emb(v6)), p + 7, emb(v7)), r), r == w.insert(s0).insert(s1).insert(s2).insert(s3).insert(s4).insert(s5).insert(s6).insert(s7),
        same_perm(g.m, put::<E>(put::<E>(put::<E>(put::<E>(put::<E>(put::<E>(put::<E>(put::<E>(m, p + 0, emb(v0)), p + 1, emb(v1)), p + 2, emb(v2)), p + 3, emb(v3)), p + 4, emb(v4)), p + 5, emb(v5)), p + 6, emb(v6)), p + 7, emb(v7))),
{
    hide(put); hide(minj);
    if i1 == i0 { assert(g.rs * i1 + g.cs * j1 == g.rs * i0 + g.cs * j0 + 1) by(nonlinear_arith) requires i1 == i0, j1 == j0 + 1, g.cs == 1; } else { assert(g.rs * i1 + g.cs * j1 == g.rs * i0 + g.cs * j0 + 1) by(nonlinear_arith) requires j1 == j0, i1 == i0 + 1, g.rs == 1; }
    if i2 == i0 { assert(g.rs * i2 + g.cs * j2 == g.rs * i0 + g.cs * j0 + 2) by(nonlinear_arith) requires i2 == i0, j2 == j0 + 2, g.cs == 1; } else { assert(g.rs * i2 + g.cs * j2 == g.rs * i0 + g.cs * j0 + 2) by(nonlinear_arith) requires j2 == j0, i2 == i0 + 2, g.rs == 1; }
    if i3 == i0 { assert(g.rs * i3 + g.cs * j3 == g.rs * i0 + g.cs * j0 + 3) by(nonlinear_arith) requires i3 == i0, j3 == j0 + 3, g.cs == 1; } else { assert(g.rs * i3 + g.cs * j3 == g.rs * i0 + g.cs * j0 + 3) by(nonlinear_arith) requires j3 == j0, i3 == i0 + 3, g.rs == 1; }
    if i4 == i0 { assert(g.rs * i4 + g.cs * j4 == g.rs * i0 + g.cs * j0 + 4) by(nonlinear_arith) requires i4 == i0, j4 == j0 + 4, g.cs == 1; } else { assert(g.rs * i4 + g.cs * j4 == g.rs * i0 + g.cs * j0 + 4) by(nonlinear_arith) requires j4 == j0, i4 == i0 + 4, g.rs == 1; }
    if i5 == i0 { assert(g.rs * i5 + g.cs * j5 == g.rs * i0 + g.cs * j0 + 5) by(nonlinear_arith) requires i5 == i0, j5 == j0 + 5, g.cs == 1; } else { assert(g.rs * i5 + g.cs * j5 == g.rs * i0 + g.cs * j0 + 5) by(nonlinear_arith) requires j5 == j0, i5 == i0 + 5, g.rs == 1; }
    if i6 == i0 { assert(g.rs * i6 + g.cs * j6 == g.rs * i0 + g.cs * j0 + 6) by(nonlinear_arith) requires i6 == i0, j6 == j0 + 6, g.cs == 1; } else { assert(g.rs * i6 + g.cs * j6 == g.rs * i0 + g.cs * j0 + 6) by(nonlinear_arith) requires j6 == j0, i6 == i0 + 6, g.rs == 1; }
    if i7 == i0 { assert(g.rs * i7 + g.cs * j7 == g.rs * i0 + g.cs * j0 + 7) by(nonlinear_arith) requires i7 == i0, j7 == j0 + 7, g.cs == 1; } else { assert(g.rs * i7 + g.cs * j7 == g.rs * i0 + g.cs * j0 + 7) by(nonlinear_arith) requires j7 == j0, i7 == i0 + 7, g.rs == 1; }
    let mut mm = m; let mut ww = w;
    l_kput::<E>(g, mm, ww, p + 0, emb(v0), i0, j0, s0); mm = put::<E>(mm, p + 0, emb(v0)); ww = ww.insert(s0);
    l_kput::<E>(g, mm, ww, p + 1, emb(v1), i1, j1, s1); mm = put::<E>(mm, p + 1, emb(v1)); ww = ww.insert(s1);
    l_kput::<E>(g, mm, ww, p + 2, emb(v2), i2, j2, s2); mm = put::<E>(mm, p + 2, emb(v2)); ww = ww.insert(s2);
    l_kput::<E>(g, mm, ww, p + 3, emb(v3), i3, j3, s3); mm = put::<E>(mm, p + 3, emb(v3)); ww = ww.insert(s3);
    l_kput::<E>(g, mm, ww, p + 4, emb(v4), i4, j4, s4); mm = put::<E>(mm, p + 4, emb(v4)); ww = ww.insert(s4);
    l_kput::<E>(g, mm, ww, p + 5, emb(v5), i5, j5, s5); mm = put::<E>(mm, p + 5, emb(v5)); ww = ww.insert(s5);
    l_kput::<E>(g, mm, ww, p + 6, emb(v6), i6, j6, s6); mm = put::<E>(mm, p + 6, emb(v6)); ww = ww.insert(s6);
    l_kput::<E>(g, mm, ww, p + 7, emb(v7), i7, j7, s7); mm = put::<E>(mm, p + 7, emb(v7)); ww = ww.insert(s7);
    ww
}
pub proof fn l_kpre8<E: Raw>(g: KA, c: P<E>, p: int, i0: int, j0: int, i1: int, j1: int, i2: int, j2: int, i3: int, j3: int, i4: int, j4: int, i5: int, j5: int, i6: int, j6: int, i7: int, j7: int)
    requires
        mwr::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs), c.wf(), g.c == c.a@, E::cxn() == 1,
        0 <= i0 < g.mr, 0 <= j0 < g.nr,
        p == g.c + (g.rs * i0 + g.cs * j0), /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i1 < g.mr, 0 <= j1 < g.nr, i1 == i0 + 1 && j1 == j0 && g.rs == 1 || i1 == i0 && j1 == j0 + 1 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i2 < g.mr, 0 <= j2 < g.nr, i2 == i0 + 2 && j2 == j0 && g.rs == 1 || i2 == i0 && j2 == j0 + 2 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i3 < g.mr, 0 <= j3 < g.nr, i3 == i0 + 3 && j3 == j0 && g.rs == 1 || i3 == i0 && j3 == j0 + 3 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i4 < g.mr, 0 <= j4 < g.nr, i4 == i0 + 4 && j4 == j0 && g.rs == 1 || i4 == i0 && j4 == j0 + 4 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i5 < g.mr, 0 <= j5 < g.nr, i5 == i0 + 5 && j5 == j0 && g.rs == 1 || i5 == i0 && j5 == j0 + 5 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i6 < g.mr, 0 <= j6 < g.nr, i6 == i0 + 6 && j6 == j0 && g.rs == 1 || i6 == i0 && j6 == j0 + 6 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
        0 <= i7 < g.mr, 0 <= j7 < g.nr, i7 == i0 + 7 && j7 == j0 && g.rs == 1 || i7 == i0 && j7 == j0 + 7 && g.cs == 1, /*@req tile-address [C01 C02 C03 C05 C06 C07]*/
    ensures
        c.lo@ <= p, p + 8 <= c.hi@,
        g.m.wr.contains(p + 0), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 0), g.m.val[p + 0] == cel(g, i0, j0),
        g.m.wr.contains(p + 1), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 1), g.m.val[p + 1] == cel(g, i1, j1),
        g.m.wr.contains(p + 2), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 2), g.m.val[p + 2] == cel(g, i2, j2),
        g.m.wr.contains(p + 3), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 3), g.m.val[p + 3] == cel(g, i3, j3),
        g.m.wr.contains(p + 4), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 4), g.m.val[p + 4] == cel(g, i4, j4),
        g.m.wr.contains(p + 5), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 5), g.m.val[p + 5] == cel(g, i5, j5),
        g.m.wr.contains(p + 6), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 6), g.m.val[p + 6] == cel(g, i6, j6),
        g.m.wr.contains(p + 7), mrd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs) ==> g.m.rd.contains(p + 7), g.m.val[p + 7] == cel(g, i7, j7),
{
    if i1 == i0 { assert(g.rs * i1 + g.cs * j1 == g.rs * i0 + g.cs * j0 + 1) by(nonlinear_arith) requires i1 == i0, j1 == j0 + 1, g.cs == 1; } else { assert(g.rs * i1 + g.cs * j1 == g.rs * i0 + g.cs * j0 + 1) by(nonlinear_arith) requires j1 == j0, i1 == i0 + 1, g.rs == 1; }
    if i2 == i0 { assert(g.rs * i2 + g.cs * j2 == g.rs * i0 + g.cs * j0 + 2) by(nonlinear_arith) requires i2 == i0, j2 == j0 + 2, g.cs == 1; } else { assert(g.rs * i2 + g.cs * j2 == g.rs * i0 + g.cs * j0 + 2) by(nonlinear_arith) requires j2 == j0, i2 == i0 + 2, g.rs == 1; }
    if i3 == i0 { assert(g.rs * i3 + g.cs * j3 == g.rs * i0 + g.cs * j0 + 3) by(nonlinear_arith) requires i3 == i0, j3 == j0 + 3, g.cs == 1; } else { assert(g.rs * i3 + g.cs * j3 == g.rs * i0 + g.cs * j0 + 3) by(nonlinear_arith) requires j3 == j0, i3 == i0 + 3, g.rs == 1; }
    if i4 == i0 { assert(g.rs * i4 + g.cs * j4 == g.rs * i0 + g.cs * j0 + 4) by(nonlinear_arith) requires i4 == i0, j4 == j0 + 4, g.cs == 1; } else { assert(g.rs * i4 + g.cs * j4 == g.rs * i0 + g.cs * j0 + 4) by(nonlinear_arith) requires j4 == j0, i4 == i0 + 4, g.rs == 1; }
    if i5 == i0 { assert(g.rs * i5 + g.cs * j5 == g.rs * i0 + g.cs * j0 + 5) by(nonlinear_arith) requires i5 == i0, j5 == j0 + 5, g.cs == 1; } else { assert(g.rs * i5 + g.cs * j5 == g.rs * i0 + g.cs * j0 + 5) by(nonlinear_arith) requires j5 == j0, i5 == i0 + 5, g.rs == 1; }
    if i6 == i0 { assert(g.rs * i6 + g.cs * j6 == g.rs * i0 + g.cs * j0 + 6) by(nonlinear_arith) requires i6 == i0, j6 == j0 + 6, g.cs == 1; } else { assert(g.rs * i6 + g.cs * j6 == g.rs * i0 + g.cs * j0 + 6) by(nonlinear_arith) requires j6 == j0, i6 == i0 + 6, g.rs == 1; }
    if i7 == i0 { assert(g.rs * i7 + g.cs * j7 == g.rs * i0 + g.cs * j0 + 7) by(nonlinear_arith) requires i7 == i0, j7 == j0 + 7, g.cs == 1; } else { assert(g.rs * i7 + g.cs * j7 == g.rs * i0 + g.cs * j0 + 7) by(nonlinear_arith) requires j7 == j0, i7 == i0 + 7, g.rs == 1; }
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i0, j0); l_kcel(g, i0, j0);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i1, j1); l_kcel(g, i1, j1);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i2, j2); l_kcel(g, i2, j2);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i3, j3); l_kcel(g, i3, j3);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i4, j4); l_kcel(g, i4, j4);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i5, j5); l_kcel(g, i5, j5);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i6, j6); l_kcel(g, i6, j6);
    l_kbnd::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs, i7, j7); l_kcel(g, i7, j7);
}
/// every element of a whole 8x4 tile was written
pub proof fn l_kst_end84<E: Raw>(g: KA, m: MV, w: ISet<int>)
    requires
        kst::<E>(g, m, w), g.k >= 0, g.mr == 8, g.nr == 4,
        w.contains(0), w.contains(1), w.contains(2), w.contains(3), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(8), w.contains(9), w.contains(10), w.contains(11), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(16), w.contains(17), w.contains(18), w.contains(19), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(24), w.contains(25), w.contains(26), w.contains(27), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(32), w.contains(33), w.contains(34), w.contains(35), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(40), w.contains(41), w.contains(42), w.contains(43), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(48), w.contains(49), w.contains(50), w.contains(51), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(56), w.contains(57), w.contains(58), w.contains(59), /*@req whole-tile-written [C01 C02 C03 C05]*/
    ensures
        is_res::<E>(g.m, m, g.al, kd::<E>(g.m, g.a, g.mr, g.b, g.nr, g.k), g.be, g.c, g.mr, g.nr, g.rs, g.cs),
        upd_mat::<E>(g.m, m, g.c, g.mr, g.nr, g.rs, g.cs),
{
    hide(is_res); hide(upd_mat);
    assert forall|i: int, j: int| 0 <= i < g.mr && 0 <= j < g.nr implies #[trigger] w.contains(8 * i + j) by {
        let s = 8 * i + j;
        if i == 0 { assert(w.contains(0) && w.contains(1) && w.contains(2) && w.contains(3)); }
        if i == 1 { assert(w.contains(8) && w.contains(9) && w.contains(10) && w.contains(11)); }
        if i == 2 { assert(w.contains(16) && w.contains(17) && w.contains(18) && w.contains(19)); }
        if i == 3 { assert(w.contains(24) && w.contains(25) && w.contains(26) && w.contains(27)); }
        if i == 4 { assert(w.contains(32) && w.contains(33) && w.contains(34) && w.contains(35)); }
        if i == 5 { assert(w.contains(40) && w.contains(41) && w.contains(42) && w.contains(43)); }
        if i == 6 { assert(w.contains(48) && w.contains(49) && w.contains(50) && w.contains(51)); }
        if i == 7 { assert(w.contains(56) && w.contains(57) && w.contains(58) && w.contains(59)); }
    }
    l_kst_end::<E>(g, m, w);
}
/// every element of a whole 4x4 tile was written
pub proof fn l_kst_end44<E: Raw>(g: KA, m: MV, w: ISet<int>)
    requires
        kst::<E>(g, m, w), g.k >= 0, g.mr == 4, g.nr == 4,
        w.contains(0), w.contains(1), w.contains(2), w.contains(3), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(8), w.contains(9), w.contains(10), w.contains(11), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(16), w.contains(17), w.contains(18), w.contains(19), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(24), w.contains(25), w.contains(26), w.contains(27), /*@req whole-tile-written [C01 C02 C03 C05]*/
    ensures
        is_res::<E>(g.m, m, g.al, kd::<E>(g.m, g.a, g.mr, g.b, g.nr, g.k), g.be, g.c, g.mr, g.nr, g.rs, g.cs),
        upd_mat::<E>(g.m, m, g.c, g.mr, g.nr, g.rs, g.cs),
{
    hide(is_res); hide(upd_mat);
    assert forall|i: int, j: int| 0 <= i < g.mr && 0 <= j < g.nr implies #[trigger] w.contains(8 * i + j) by {
        let s = 8 * i + j;
        if i == 0 { assert(w.contains(0) && w.contains(1) && w.contains(2) && w.contains(3)); }
        if i == 1 { assert(w.contains(8) && w.contains(9) && w.contains(10) && w.contains(11)); }
        if i == 2 { assert(w.contains(16) && w.contains(17) && w.contains(18) && w.contains(19)); }
        if i == 3 { assert(w.contains(24) && w.contains(25) && w.contains(26) && w.contains(27)); }
    }
    l_kst_end::<E>(g, m, w);
}
/// every element of a whole 4x2 tile was written
pub proof fn l_kst_end42<E: Raw>(g: KA, m: MV, w: ISet<int>)
    requires
        kst::<E>(g, m, w), g.k >= 0, g.mr == 4, g.nr == 2,
        w.contains(0), w.contains(1), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(8), w.contains(9), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(16), w.contains(17), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(24), w.contains(25), /*@req whole-tile-written [C01 C02 C03 C05]*/
    ensures
        is_res::<E>(g.m, m, g.al, kd::<E>(g.m, g.a, g.mr, g.b, g.nr, g.k), g.be, g.c, g.mr, g.nr, g.rs, g.cs),
        upd_mat::<E>(g.m, m, g.c, g.mr, g.nr, g.rs, g.cs),
{
    hide(is_res); hide(upd_mat);
    assert forall|i: int, j: int| 0 <= i < g.mr && 0 <= j < g.nr implies #[trigger] w.contains(8 * i + j) by {
        let s = 8 * i + j;
        if i == 0 { assert(w.contains(0) && w.contains(1)); }
        if i == 1 { assert(w.contains(8) && w.contains(9)); }
        if i == 2 { assert(w.contains(16) && w.contains(17)); }
        if i == 3 { assert(w.contains(24) && w.contains(25)); }
    }
    l_kst_end::<E>(g, m, w);
}
/// every element of a whole 8x8 tile was written
pub proof fn l_kst_end88<E: Raw>(g: KA, m: MV, w: ISet<int>)
    requires
        kst::<E>(g, m, w), g.k >= 0, g.mr == 8, g.nr == 8,
        w.contains(0), w.contains(1), w.contains(2), w.contains(3), w.contains(4), w.contains(5), w.contains(6), w.contains(7), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(8), w.contains(9), w.contains(10), w.contains(11), w.contains(12), w.contains(13), w.contains(14), w.contains(15), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(16), w.contains(17), w.contains(18), w.contains(19), w.contains(20), w.contains(21), w.contains(22), w.contains(23), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(24), w.contains(25), w.contains(26), w.contains(27), w.contains(28), w.contains(29), w.contains(30), w.contains(31), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(32), w.contains(33), w.contains(34), w.contains(35), w.contains(36), w.contains(37), w.contains(38), w.contains(39), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(40), w.contains(41), w.contains(42), w.contains(43), w.contains(44), w.contains(45), w.contains(46), w.contains(47), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(48), w.contains(49), w.contains(50), w.contains(51), w.contains(52), w.contains(53), w.contains(54), w.contains(55), /*@req whole-tile-written [C01 C02 C03 C05]*/
        w.contains(56), w.contains(57), w.contains(58), w.contains(59), w.contains(60), w.contains(61), w.contains(62), w.contains(63), /*@req whole-tile-written [C01 C02 C03 C05]*/
    ensures
        is_res::<E>(g.m, m, g.al, kd::<E>(g.m, g.a, g.mr, g.b, g.nr, g.k), g.be, g.c, g.mr, g.nr, g.rs, g.cs),
        upd_mat::<E>(g.m, m, g.c, g.mr, g.nr, g.rs, g.cs),
{
    hide(is_res); hide(upd_mat);
    assert forall|i: int, j: int| 0 <= i < g.mr && 0 <= j < g.nr implies #[trigger] w.contains(8 * i + j) by {
        let s = 8 * i + j;
        if i == 0 { assert(w.contains(0) && w.contains(1) && w.contains(2) && w.contains(3) && w.contains(4) && w.contains(5) && w.contains(6) && w.contains(7)); }
        if i == 1 { assert(w.contains(8) && w.contains(9) && w.contains(10) && w.contains(11) && w.contains(12) && w.contains(13) && w.contains(14) && w.contains(15)); }
        if i == 2 { assert(w.contains(16) && w.contains(17) && w.contains(18) && w.contains(19) && w.contains(20) && w.contains(21) && w.contains(22) && w.contains(23)); }
        if i == 3 { assert(w.contains(24) && w.contains(25) && w.contains(26) && w.contains(27) && w.contains(28) && w.contains(29) && w.contains(30) && w.contains(31)); }
        if i == 4 { assert(w.contains(32) && w.contains(33) && w.contains(34) && w.contains(35) && w.contains(36) && w.contains(37) && w.contains(38) && w.contains(39)); }
        if i == 5 { assert(w.contains(40) && w.contains(41) && w.contains(42) && w.contains(43) && w.contains(44) && w.contains(45) && w.contains(46) && w.contains(47)); }
        if i == 6 { assert(w.contains(48) && w.contains(49) && w.contains(50) && w.contains(51) && w.contains(52) && w.contains(53) && w.contains(54) && w.contains(55)); }
        if i == 7 { assert(w.contains(56) && w.contains(57) && w.contains(58) && w.contains(59) && w.contains(60) && w.contains(61) && w.contains(62) && w.contains(63)); }
    }
    l_kst_end::<E>(g, m, w);
}
// ---- the same call with the roles of a and b exchanged: C^T = B^T A^T
pub proof fn l_ktr_req<E: Raw>(mr: int, nr: int, m: MV, c: P<E>, rs: int, cs: int)
    ensures
        mwr::<E>(m, c, mr, nr, rs, cs) ==> mwr::<E>(m, c, nr, mr, cs, rs),
        mrd::<E>(m, c, mr, nr, rs, cs) ==> mrd::<E>(m, c, nr, mr, cs, rs),
        minj(c.a@, mr, nr, rs, cs) ==> minj(c.a@, nr, mr, cs, rs),
{
    assert forall|i: int, j: int| #[trigger] at2(c.a@, j, cs, i, rs) == at2(c.a@, i, rs, j, cs) by { l_at2_tr(c.a@, i, rs, j, cs); }
}
pub proof fn l_kdot_tr<E: Raw>(m: MV, a: int, mr: int, i: int, b: int, nr: int, j: int, k: int)
    ensures kdot::<E>(m, a, mr, i, b, nr, j, k) == kdot::<E>(m, b, nr, j, a, mr, i, k),
    decreases k,
{
    let f = prow::<E>(m, a, mr, i);
    let h = prow::<E>(m, b, nr, j);
    if k > 0 { l_kdot_tr::<E>(m, a, mr, i, b, nr, j, k - 1); l_cmul_c(f(k - 1), h(k - 1)); }
}
pub proof fn l_ktr_ens<E: Raw>(mr: int, nr: int, o: MV, m: MV, k: int, al: CV, a: P<E>, b: P<E>, be: CV, c: P<E>, rs: int, cs: int)
    requires
        is_res::<E>(o, m, al, kd::<E>(o, b.a@, nr, a.a@, mr, k), be, c.a@, nr, mr, cs, rs),
        upd_mat::<E>(o, m, c.a@, nr, mr, cs, rs),
    ensures ker_ens::<E>(mr, nr, o, m, k, al, a, b, be, c, rs, cs),
{
    let f = kd::<E>(o, b.a@, nr, a.a@, mr, k);
    let h = kd::<E>(o, a.a@, mr, b.a@, nr, k);
    assert forall|i: int, j: int| 0 <= i < mr && 0 <= j < nr implies
        ev::<E>(m, #[trigger] at2(c.a@, i, rs, j, cs)) == res(al, h(i, j), be, ev::<E>(o, at2(c.a@, i, rs, j, cs))) && erd::<E>(m, at2(c.a@, i, rs, j, cs)) by {
        l_at2_tr(c.a@, i, rs, j, cs);
        l_kdot_tr::<E>(o, a.a@, mr, i, b.a@, nr, j, k);
        assert(f(j, i) == h(i, j));
        assert(at2(c.a@, j, cs, i, rs) == at2(c.a@, i, rs, j, cs));
    }
    assert forall|x: int| #[trigger] in_mat(x, c.a@, nr, mr, cs, rs) implies in_mat(x, c.a@, mr, nr, rs, cs) by {
        let (j, i) = choose|j: int, i: int| 0 <= j < nr && 0 <= i < mr && #[trigger] at2(c.a@, j, cs, i, rs) == x;
        l_at2_tr(c.a@, i, rs, j, cs);
        assert(at2(c.a@, i, rs, j, cs) == x);
    }
    assert forall|s: int| #[trigger] raw_in::<E>(s, c.a@, nr, mr, cs, rs) implies raw_in::<E>(s, c.a@, mr, nr, rs, cs) by {}
}
// ---- complex elements: panels hold, per step, the real parts and then the imaginary parts
pub open spec fn kap(g: KA, i: int, t: int) -> RV { g.m.val[2 * g.a + t * (2 * g.mr) + i] }
pub open spec fn kaq(g: KA, i: int, t: int) -> RV { g.m.val[2 * g.a + t * (2 * g.mr) + g.mr + i] }
pub open spec fn kbr(g: KA, j: int, t: int) -> RV { g.m.val[2 * g.b + t * (2 * g.nr) + j] }
pub open spec fn kbs(g: KA, j: int, t: int) -> RV { g.m.val[2 * g.b + t * (2 * g.nr) + g.nr + j] }
/// real and imaginary part of the sum of the first t products
pub open spec fn cre(g: KA, i: int, j: int, t: int) -> RV decreases t {
    if t <= 0 { rzero() } else { radd(radd(cre(g, i, j, t - 1), rmul(kap(g, i, t - 1), kbr(g, j, t - 1))), rmul(rneg(kaq(g, i, t - 1)), kbs(g, j, t - 1))) }
}
pub open spec fn cim(g: KA, i: int, j: int, t: int) -> RV decreases t {
    if t <= 0 { rzero() } else { radd(radd(cim(g, i, j, t - 1), rmul(kap(g, i, t - 1), kbs(g, j, t - 1))), rmul(kaq(g, i, t - 1), kbr(g, j, t - 1))) }
}
pub proof fn l_cri0(g: KA, i: int, j: int) ensures cre(g, i, j, 0) == rzero(), cim(g, i, j, 0) == rzero() {}
/// one more product: x, y are where the panels' entries of this step start, p .. s the entries
pub proof fn l_cri_st(g: KA, i: int, j: int, t: int, mr: int, nr: int, x: int, y: int, p: RV, q: RV, r: RV, s: RV)
    requires
        g.mr == mr, g.nr == nr, t >= 0, x == 2 * g.a + t * (2 * mr), y == 2 * g.b + t * (2 * nr),
        p == g.m.val[x + i], q == g.m.val[x + (mr + i)], r == g.m.val[y + j], s == g.m.val[y + (nr + j)],
    ensures
        radd(radd(cre(g, i, j, t), rmul(p, r)), rmul(rneg(q), s)) == cre(g, i, j, t + 1),
        radd(radd(cim(g, i, j, t), rmul(p, s)), rmul(q, r)) == cim(g, i, j, t + 1),
{}
/// the same for fused multiply-add
pub proof fn l_cri_fm(g: KA, i: int, j: int, t: int, mr: int, nr: int, x: int, y: int, p: RV, q: RV, r: RV, s: RV)
    requires
        g.mr == mr, g.nr == nr, t >= 0, x == 2 * g.a + t * (2 * mr), y == 2 * g.b + t * (2 * nr),
        p == g.m.val[x + i], q == g.m.val[x + (mr + i)], r == g.m.val[y + j], s == g.m.val[y + (nr + j)],
    ensures
        radd(rmul(rneg(q), s), radd(rmul(p, r), cre(g, i, j, t))) == cre(g, i, j, t + 1),
        radd(rmul(q, r), radd(rmul(p, s), cim(g, i, j, t))) == cim(g, i, j, t + 1),
{
    broadcast use b_radd_c;
}
pub proof fn l_cri_kdot<E: Raw>(g: KA, i: int, j: int, t: int)
    requires E::cxn() == 2, t >= 0,
    ensures mkcv(cre(g, i, j, t), cim(g, i, j, t)) == kdot::<E>(g.m, g.a, g.mr, i, g.b, g.nr, j, t),
    decreases t,
{
    if t > 0 {
        l_cri_kdot::<E>(g, i, j, t - 1);
        reveal(radd); reveal(rmul); reveal(rneg); reveal(cadd); reveal(cmul);
        let (p, q, r, s) = (kap(g, i, t - 1).x, kaq(g, i, t - 1).x, kbr(g, j, t - 1).x, kbs(g, j, t - 1).x);
        assert((-q) * s == -(q * s)) by(nonlinear_arith);
        assert(pnl::<E>(g.m, g.a, g.mr, i, t - 1) == mkcv(kap(g, i, t - 1), kaq(g, i, t - 1)));
        assert(pnl::<E>(g.m, g.b, g.nr, j, t - 1) == mkcv(kbr(g, j, t - 1), kbs(g, j, t - 1)));
        let (f, h) = (prow::<E>(g.m, g.a, g.mr, i), prow::<E>(g.m, g.b, g.nr, j));
        assert(dotf(f, h, t) == cadd(dotf(f, h, t - 1), cmul(f(t - 1), h(t - 1))));
    }
}
/// position (i, j) of a tile of complex elements; beta is 0
pub proof fn l_kposc<E: Raw>(g: KA, c: P<E>, i: int, j: int)
    requires
        mwr::<E>(g.m, c, g.mr, g.nr, g.rs, g.cs), minj(g.c, g.mr, g.nr, g.rs, g.cs), 0 <= i < g.mr, 0 <= j < g.nr, 0 < g.nr <= 8, c.wf(), g.c == c.a@,
        E::cxn() == 2, g.k >= 0, is0(g.be),
    ensures
        c.lo@ <= g.c + i * g.rs + j * g.cs < c.hi@,
        ewr::<E>(g.m, g.c + i * g.rs + j * g.cs),
        kslot(g, g.c + i * g.rs + j * g.cs) == 8 * i + j,
        kat(g, g.c + i * g.rs + j * g.cs, 8 * i + j),
        cre(g, i, j, 0) == rzero(), cim(g, i, j, 0) == rzero(),
        kwp::<E>(g, g.c + i * g.rs + j * g.cs) == cmul(g.al, mkcv(cre(g, i, j, g.k), cim(g, i, j, g.k))),
{
    l_kpos::<E>(g, c, i, j);
    l_cri_kdot::<E>(g, i, j, g.k);
    reveal(kwant);
    assert(kwant::<E>(g, i, j) == kwp::<E>(g, g.c + i * g.rs + j * g.cs));
}
