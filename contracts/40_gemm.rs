// ------------------------------------------------------------------
// 40_gemm.rs: inner products, packed panels, tile updates
// ------------------------------------------------------------------
pub type FnV = spec_fn(int) -> CV;
/// sum over t < k of f(t) * g(t)
pub open spec fn dotf(f: FnV, g: FnV, k: int) -> CV decreases k {
    if k <= 0 { czero() } else { cadd(dotf(f, g, k - 1), cmul(f(k - 1), g(k - 1))) }
}
pub proof fn l_dotf_eq(f: FnV, g: FnV, f2: FnV, g2: FnV, k: int)
    requires forall|t: int| #![trigger f(t)] 0 <= t < k ==> f(t) == f2(t), forall|t: int| #![trigger g(t)] 0 <= t < k ==> g(t) == g2(t),
    ensures dotf(f, g, k) == dotf(f2, g2, k)
    decreases k
{ if k > 0 { l_dotf_eq(f, g, f2, g2, k - 1); } }
/// f shifted by k0
pub open spec fn shf(f: FnV, k0: int) -> FnV { |t: int| f(k0 + t) }
pub proof fn l_dotf_split(f: FnV, g: FnV, k0: int, k: int)
    requires 0 <= k0, 0 <= k,
    ensures dotf(f, g, k0 + k) == cadd(dotf(f, g, k0), dotf(shf(f, k0), shf(g, k0), k))
    decreases k
{
    if k > 0 {
        l_dotf_split(f, g, k0, k - 1);
        l_cadd_a(dotf(f, g, k0), dotf(shf(f, k0), shf(g, k0), k - 1), cmul(f(k0 + k - 1), g(k0 + k - 1)));
    } else {
        l_cadd_0r(dotf(f, g, k0));
    }
}
/// adding a later block of the inner dimension with beta = 1
pub proof fn l_res_acc(al: CV, d0: CV, d1: CV, be: CV, c0: CV)
    ensures res(al, d1, cone(), res(al, d0, be, c0)) == res(al, cadd(d0, d1), be, c0)
{
    l_cdist(al, d0, d1);
    l_cmul_1(res(al, d0, be, c0));
    if !is0(be) { l_cadd_a(cmul(be, c0), cmul(al, d0), cmul(al, d1)); }
}

/// entry (i, t) of the packed panel of mr rows at element b
pub open spec fn pnl<E: Raw>(m: MV, b: int, mr: int, i: int, t: int) -> CV {
    if E::cxn() == 1 { emb(m.val[b + t * mr + i]) }
    else { mkcv(m.val[2 * b + t * (2 * mr) + i], m.val[2 * b + t * (2 * mr) + mr + i]) }
}
/// row i of a panel
pub open spec fn prow<E: Raw>(m: MV, b: int, mr: int, i: int) -> FnV { |t: int| pnl::<E>(m, b, mr, i, t) }
/// inner product of row i of panel a with row j of panel b
pub open spec fn kdot<E: Raw>(m: MV, a: int, mr: int, i: int, b: int, nr: int, j: int, k: int) -> CV {
    dotf(prow::<E>(m, a, mr, i), prow::<E>(m, b, nr, j), k)
}
/// all scalars of n elements from b are readable / writable
pub open spec fn blk_rd<E: Raw>(m: MV, b: int, n: int) -> bool { forall|s: int| raw_blk::<E>(s, b, n) ==> #[trigger] m.rd.contains(s) }
pub open spec fn blk_wr<E: Raw>(m: MV, b: int, n: int) -> bool { forall|s: int| raw_blk::<E>(s, b, n) ==> #[trigger] m.wr.contains(s) }

/// only raws of the r x c matrix at b changed (values and readability); permissions and environment kept
pub open spec fn upd_mat<E: Raw>(o: MV, n: MV, b: int, r: int, c: int, rs: int, cs: int) -> bool {
    &&& same_perm(o, n)
    &&& forall|s: int| #![trigger n.val[s]] !raw_in::<E>(s, b, r, c, rs, cs) ==> n.val[s] == o.val[s]
    &&& forall|s: int| #![trigger n.rd.contains(s)] (o.rd.contains(s) ==> n.rd.contains(s)) && (!raw_in::<E>(s, b, r, c, rs, cs) ==> n.rd.contains(s) == o.rd.contains(s))
}
/// only raws of the block of n elements at b changed
pub open spec fn upd_blk<E: Raw>(o: MV, n: MV, b: int, len: int) -> bool {
    &&& same_perm(o, n)
    &&& forall|s: int| #![trigger n.val[s]] !raw_blk::<E>(s, b, len) ==> n.val[s] == o.val[s]
    &&& forall|s: int| #![trigger n.rd.contains(s)] (o.rd.contains(s) ==> n.rd.contains(s)) && (!raw_blk::<E>(s, b, len) ==> n.rd.contains(s) == o.rd.contains(s))
}
/// elements of C that a correct product must leave
pub open spec fn is_res<E: Raw>(o: MV, n: MV, al: CV, f: spec_fn(int, int) -> CV, be: CV, c: int, r: int, cc: int, rs: int, cs: int) -> bool {
    forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==>
        ev::<E>(n, #[trigger] at2(c, i, rs, j, cs)) == res(al, f(i, j), be, ev::<E>(o, at2(c, i, rs, j, cs))) && erd::<E>(n, at2(c, i, rs, j, cs))
}
/// inner products of two panels
pub open spec fn kd<E: Raw>(m: MV, a: int, mr: int, b: int, nr: int, k: int) -> spec_fn(int, int) -> CV {
    |i: int, j: int| kdot::<E>(m, a, mr, i, b, nr, j, k)
}
/// alignment: address of element a is a multiple of al bytes (al == 0: no requirement)
pub open spec fn aligned<E: Raw>(a: int, al: int) -> bool { al != 0 ==> (a * esz::<E>()) % al == 0 }
/// packing of the first mc of the rows src(i, .) into panels of mr rows, kc deep, zero padded
pub open spec fn packed<E: Raw>(m: MV, b: int, mr: int, kc: int, mc: int, src: spec_fn(int, int) -> CV) -> bool {
    forall|q: int, i: int, t: int| 0 <= q < ceil_div(mc, mr) && 0 <= i < mr && 0 <= t < kc ==>
        #[trigger] pnl::<E>(m, b + q * (mr * kc), mr, i, t) == (if q * mr + i < mc { src(q * mr + i, t) } else { czero() })
}
pub open spec fn msrc<E: Raw>(m: MV, a: int, rs: int, cs: int) -> spec_fn(int, int) -> CV {
    |i: int, t: int| ev::<E>(m, at2(a, i, rs, t, cs))
}
pub open spec fn pack_req<E: Raw>(m: MV, kc: int, mc: int, mr: int, pb: Sl<E>, a: P<E>, rsa: int, csa: int) -> bool {
    &&& m.rsz == E::rsz()
    &&& pb.wf() && rup(mc, mr) * kc <= pb.n
    &&& blk_wr::<E>(m, pb.p.a@, rup(mc, mr) * kc)
    &&& mrd::<E>(m, a, mc, kc, rsa, csa)
    &&& a.wf()
    &&& mc <= 65536 && kc <= 65536
    // the packed area is no part of the matrix
    &&& forall|i: int, t: int| 0 <= i < mc && 0 <= t < kc ==> !(pb.p.a@ <= #[trigger] at2(a.a@, i, rsa, t, csa) < pb.p.a@ + rup(mc, mr) * kc)
}
pub open spec fn pack_ens<E: Raw>(o: MV, m: MV, kc: int, mc: int, mr: int, pb: Sl<E>, a: P<E>, rsa: int, csa: int) -> bool {
    &&& packed::<E>(m, pb.p.a@, mr, kc, mc, msrc::<E>(o, a.a@, rsa, csa))
    &&& blk_rd::<E>(m, pb.p.a@, rup(mc, mr) * kc)
    &&& upd_blk::<E>(o, m, pb.p.a@, rup(mc, mr) * kc)
}
/// what a micro-kernel of mr x nr may rely on
pub open spec fn ker_req<E: Raw>(mr: int, nr: int, al: int, masked: bool, m: MV, k: int, a: P<E>, b: P<E>, be: CV, c: P<E>, rsc: int, csc: int) -> bool {
    &&& m.rsz == E::rsz()
    &&& 0 < k <= 65536
    &&& a.wf() && b.wf() && c.wf()
    &&& a.a@ + k * mr <= a.hi@ && b.a@ + k * nr <= b.hi@
    &&& blk_rd::<E>(m, a.a@, k * mr) && blk_rd::<E>(m, b.a@, k * nr)
    &&& aligned::<E>(a.a@, al) && aligned::<E>(b.a@, al)
    &&& mwr::<E>(m, c, mr, nr, rsc, csc)
    &&& minj(c.a@, mr, nr, rsc, csc)
    &&& !is0(be) ==> mrd::<E>(m, c, mr, nr, rsc, csc)
    &&& masked ==> is0(be)
}
pub open spec fn ker_ens<E: Raw>(mr: int, nr: int, o: MV, m: MV, k: int, al: CV, a: P<E>, b: P<E>, be: CV, c: P<E>, rsc: int, csc: int) -> bool {
    &&& is_res::<E>(o, m, al, kd::<E>(o, a.a@, mr, b.a@, nr, k), be, c.a@, mr, nr, rsc, csc)
    &&& upd_mat::<E>(o, m, c.a@, mr, nr, rsc, csc)
}
/// bytes to the next multiple of al, in whole elements of e bytes
pub open spec fn al_pad(addr: int, al: int, e: int) -> int { if al == 0 || addr % al == 0 { 0 } else { (al - addr % al) / e } }
