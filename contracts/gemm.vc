%def ALLP=C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C14
# ---------------------------------------------------------------- C <- beta C
%def MAT=c.a@, m as int, n as int, rsc as int, csc as int
%def CB=m0.rsz == T::rsz() && (m > 0 && n > 0 ==> c.wf()) && mwr::<T>(m0, c, m as int, n as int, rsc as int, csc as int) && minj($MAT) && (!is0(beta.cv()) ==> mrd::<T>(m0, c, m as int, n as int, rsc as int, csc as int)) && want == scaled::<T>(m0, beta.cv(), c.a@, rsc as int, csc as int)
@fn gemm::c_to_beta_c
@props C01 C02 C03 C04 C05 C06 C08 C12
@req old(mem).v@.rsz == T::rsz()
@req m > 0 && n > 0 ==> c.wf()
@req mwr::<T>(old(mem).v@, c, m as int, n as int, rsc as int, csc as int)
@req minj($MAT)
@req !is0(beta.cv()) ==> mrd::<T>(old(mem).v@, c, m as int, n as int, rsc as int, csc as int)
@ens mst::<T>(old(mem).v@, final(mem).v@, all(), scaled::<T>(old(mem).v@, beta.cv(), c.a@, rsc as int, csc as int), $MAT)
@start
let ghost m0 = mem.v@;
let ghost want = scaled::<T>(m0, beta.cv(), c.a@, rsc as int, csc as int);
proof { l_mst_init::<T>(m0, lex(0, 0), want, $MAT); }
@loop for i
@inv $CB
@inv ${it} <= m && i__end == m
@inv mst::<T>(m0, mem.v@, lex(${it} as int, 0), want, $MAT)
@end
proof { l_mst_eq::<T>(m0, mem.v@, lex(i as int, n as int), lex(i as int + 1, 0), want, $MAT); }
@after
proof { l_mst_eq::<T>(m0, mem.v@, lex(m as int, 0), all(), want, $MAT); }
@loop for j
@inv $CB
@inv ${it} <= n && j__end == n && i < m
@inv mst::<T>(m0, mem.v@, lex(i as int, ${it} as int), want, $MAT)
@begin
let ghost m1 = mem.v@;
proof { l_at2_way::<T>(m0, c, i as int, j as int, m as int, n as int, rsc as int, csc as int); }
@end
proof {
    beta.val_ok();
    let v = want(i as int, j as int);
    let a = at2(c.a@, i as int, rsc as int, j as int, csc as int);
    if T::cxn() == 1 { l_cmul_re(beta.cv(), ev::<T>(m0, a)); }
    l_mst_put::<T>(m0, m1, lex(i as int, j as int), lex(i as int, j as int + 1), want, v, i as int, j as int, $MAT);
}
# ---------------------------------------------------------------- mask buffer to C
%def CM=rows as int, cols as int, rsc as int, csc as int
%def CMI=m0.rsz == T::rsz() && c.wf() && mwr::<T>(m0, c, $CM) && minj(c.a@, $CM) && (!is0(beta.cv()) ==> mrd::<T>(m0, c, $CM)) && want == addm::<T>(m0, mask_buf.p.a@, mr as int, beta.cv(), c.a@, rsc as int, csc as int) && mask_buf.wf() && mr * nr <= mask_buf.n && 0 < mr <= 8 && 0 < nr <= 8 && rows <= mr && cols <= nr && blk_rd::<T>(m0, mask_buf.p.a@, mr * nr) && (forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols ==> !(mask_buf.p.a@ <= #[trigger] at2(c.a@, i, rsc as int, j, csc as int) < mask_buf.p.a@ + mr * nr))
@fn gemm::c_to_masked_ab_beta_c
@props C01 C02 C03 C04 C06 C07 C08 C12
@req old(mem).v@.rsz == T::rsz()
@req c.wf() && mask_buf.wf()
@req mwr::<T>(old(mem).v@, c, $CM)
@req minj(c.a@, $CM)
@req !is0(beta.cv()) ==> mrd::<T>(old(mem).v@, c, $CM)
@req crate::kernel::mr_s::<K>() * crate::kernel::nr_s::<K>() <= mask_buf.n
@req rows <= crate::kernel::mr_s::<K>() && cols <= crate::kernel::nr_s::<K>()
@req blk_rd::<T>(old(mem).v@, mask_buf.p.a@, crate::kernel::mr_s::<K>() * crate::kernel::nr_s::<K>())
@req forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols ==> !(mask_buf.p.a@ <= #[trigger] at2(c.a@, i, rsc as int, j, csc as int) < mask_buf.p.a@ + crate::kernel::mr_s::<K>() * crate::kernel::nr_s::<K>())
@ens mst::<T>(old(mem).v@, final(mem).v@, all(), addm::<T>(old(mem).v@, mask_buf.p.a@, crate::kernel::mr_s::<K>(), beta.cv(), c.a@, rsc as int, csc as int), c.a@, $CM)
@start
let ghost m0 = mem.v@;
let ghost want = addm::<T>(m0, mask_buf.p.a@, crate::kernel::mr_s::<K>(), beta.cv(), c.a@, rsc as int, csc as int);
proof { K::ker_ok(); l_mst_init::<T>(m0, clex(0, 0), want, c.a@, $CM); }
@loop for j
@inv $CMI
@inv ${it} <= nr && j__end == nr
@inv ab == mask_buf.p.at(mask_buf.p.a@ + ${it} * mr)
@inv mst::<T>(m0, mem.v@, clex(0, ${it} as int), want, c.a@, $CM)
@begin
proof { l_pos_bound(0, j as int, mr as int, nr as int); }
@end
proof { l_mst_eq::<T>(m0, mem.v@, clex(mr as int, j as int), clex(0, j as int + 1), want, c.a@, $CM); }
@after
proof { l_mst_eq::<T>(m0, mem.v@, clex(0, nr as int), all(), want, c.a@, $CM); }
@loop for i
@inv $CMI
@inv ${it} <= mr && i__end == mr && j < nr
@inv ab == mask_buf.p.at(mask_buf.p.a@ + j * mr + ${it})
@inv mst::<T>(m0, mem.v@, clex(${it} as int, j as int), want, c.a@, $CM)
@begin
let ghost m1 = mem.v@;
proof {
    l_pos_bound(i as int, j as int, mr as int, nr as int);
    T::raw_ok();
    if i < rows && j < cols { l_at2_way::<T>(m0, c, i as int, j as int, $CM); l_at2(mask_buf.p.a@, i as int, 1, j as int, mr as int); }
}
@end
proof {
    if i < rows && j < cols {
        beta.val_ok();
        let v = want(i as int, j as int);
        let a = at2(c.a@, i as int, rsc as int, j as int, csc as int);
        if T::cxn() == 1 { l_cmul_re(beta.cv(), ev::<T>(m0, a)); l_cadd_re(cmul(beta.cv(), ev::<T>(m0, a)), ev::<T>(m0, ab.a@ - 1)); }
        l_put::<T>(m1, a, cmul(beta.cv(), ev::<T>(m0, a)));
        l_put_put::<T>(m1, a, cmul(beta.cv(), ev::<T>(m0, a)), v);
        l_mst_put::<T>(m0, m1, clex(i as int, j as int), clex(i as int + 1, j as int), want, v, i as int, j as int, c.a@, $CM);
    } else {
        l_mst_eq::<T>(m0, mem.v@, clex(i as int, j as int), clex(i as int + 1, j as int), want, c.a@, $CM);
    }
}
# ---------------------------------------------------------------- kernel into the mask buffer, then C
%def MKR=crate::kernel::mr_s::<K>()
%def MKN=crate::kernel::nr_s::<K>()
@fn gemm::masked_kernel
@props $ALLP
@req[C11] K::feat_s(old(mem).v@.cpu)
@req old(mem).v@.rsz == T::rsz()
@req 0 < k <= 65536
@req a.wf() && b.wf() && c.wf() && mask_buf.wf()
@req a.a@ + k * $MKR <= a.hi@ && b.a@ + k * $MKN <= b.hi@
@req blk_rd::<T>(old(mem).v@, a.a@, k * $MKR) && blk_rd::<T>(old(mem).v@, b.a@, k * $MKN)
@req aligned::<T>(a.a@, K::al_s() as int) && aligned::<T>(b.a@, K::al_s() as int)
@req $MKR * $MKN <= mask_buf.n && blk_wr::<T>(old(mem).v@, mask_buf.p.a@, $MKR * $MKN)
@req rows <= $MKR && cols <= $MKN
@req mwr::<T>(old(mem).v@, c, $CM)
@req minj(c.a@, $CM)
@req !is0(beta.cv()) ==> mrd::<T>(old(mem).v@, c, $CM)
@req mat_off(c.a@, $CM, mask_buf.p.a@, $MKR * $MKN)
@ens is_res::<T>(old(mem).v@, final(mem).v@, alpha.cv(), kd::<T>(old(mem).v@, a.a@, $MKR, b.a@, $MKN, k as int), beta.cv(), c.a@, $CM)
@ens upd2::<T>(old(mem).v@, final(mem).v@, c.a@, $CM, mask_buf.p.a@, $MKR * $MKN)
@start
let ghost m0 = mem.v@;
proof {
    K::ker_ok(); T::raw_ok();
    l_cmaj::<T>(mask_buf.p.a@, $MKR, $MKN);
    assert forall|i: int, j: int| 0 <= i < $MKR && 0 <= j < $MKN implies ewr::<T>(m0, #[trigger] at2(mask_buf.p.a@, i, 1, j, $MKR)) by {
        let e = at2(mask_buf.p.a@, i, 1, j, $MKR);
        assert(raw_blk::<T>(T::cxn() * e, mask_buf.p.a@, $MKR * $MKN) && raw_blk::<T>(T::cxn() * e + T::cxn() - 1, mask_buf.p.a@, $MKR * $MKN)) by(nonlinear_arith)
            requires mask_buf.p.a@ <= e < mask_buf.p.a@ + $MKR * $MKN, T::cxn() == 1 || T::cxn() == 2;
    }
}
@at after call kernel
let ghost m1 = mem.v@;
proof {
    assert forall|s: int| raw_blk::<T>(s, mask_buf.p.a@, $MKR * $MKN) implies #[trigger] m1.rd.contains(s) by {
        let e = elt_of::<T>(s);
        assert(raw_in::<T>(s, mask_buf.p.a@, $MKR, $MKN, 1, $MKR));
        let (i, j) = choose|i: int, j: int| 0 <= i < $MKR && 0 <= j < $MKN && #[trigger] at2(mask_buf.p.a@, i, 1, j, $MKR) == e;
        assert(erd::<T>(m1, at2(mask_buf.p.a@, i, 1, j, $MKR)));
    }
}
@fnend
proof { l_masked::<T>(m0, m1, mem.v@, alpha.cv(), kd::<T>(m0, a.a@, $MKR, b.a@, $MKN, k as int), beta.cv(), mask_buf.p.a@, $MKR, $MKN, c.a@, $CM); }
# ---------------------------------------------------------------- configuration, buffers
@fn gemm::ensure_kernel_params
@pure
@props C08 C14
%if dbg rel nt ns
@req[C08] crate::kernel::cfg_ok::<K>()
%endif
%if cc
@refuse crate::kernel::cfg_ok::<K>()
%endif
@ens[C07 C08 C14] crate::kernel::cfg_ok::<K>()
@start
proof {
    K::ker_ok(); K::Elem::raw_ok(); K::Elem::rsz_ok(); l_esz::<K::Elem>();
    let e = esz::<K::Elem>();
    let (mr, nr) = ($MKR, $MKN);
    let mn = imin(mr, nr);
    assert(1 * e == e && e * mn == mn * e && mr * nr * e == e * (mr * nr)) by(nonlinear_arith);
    assert(mn * e >= 1 && mn * e == e * mn && e * mn <= 128) by(nonlinear_arith) requires 4 <= e <= 16, 1 <= mn <= 8;
    assert(0 < mr * nr <= 64) by(nonlinear_arith) requires 0 < mr <= 8, 0 < nr <= 8;
    assert(mr * nr * e <= 1024) by(nonlinear_arith) requires 0 < mr * nr <= 64, 0 < e <= 16;
    assert(mr * e > 0 && nr * e > 0) by(nonlinear_arith) requires e > 0, mr > 0, nr > 0;
    if K::al_s() != 0 { l_mod_le(mr * e, K::al_s() as int); l_mod_le(nr * e, K::al_s() as int); }
}
@fn gemm::align_ptr
@gen <T: Raw>
@pure
@props C07 C08
@req ptr.wf() && 0 <= ptr.a@ * esz::<T>() <= usize::MAX && esz::<T>() > 0 && align_to <= 4096
@req ptr.a@ + al_pad(ptr.a@ * esz::<T>(), align_to as int, esz::<T>()) <= ptr.hi@
@ens r == ptr.at(ptr.a@ + al_pad(ptr.a@ * esz::<T>(), align_to as int, esz::<T>()))
@start
proof { ax_paddr::<T>(ptr); if align_to != 0 { l_dm(ptr.a@ * esz::<T>(), align_to as int); l_dm(align_to - (ptr.a@ * esz::<T>()) % (align_to as int), esz::<T>()); } }
@fn gemm::make_packing_buffer
@props C07 C08 C14
@req old(mem).v@.rsz == K::Elem::rsz()
@req m > 0 && k > 0 && n > 0 && 1 <= na <= 4
@req crate::kernel::cfg_ok::<K>()
@ens r.1 == imin(k as int, K::kc_s() as int) * rup(imin(m as int, K::mc_s() as int), $MKR)
@ens r.2 == imin(k as int, K::kc_s() as int) * rup(imin(n as int, K::nc_s() as int), $MKN)
@ens crate::aligned_alloc::owns(r.0, final(mem).v@) && r.0.len == r.1 * na + r.2
@ens aligned::<K::Elem>(r.0.ptr.a@, K::al_s() as int)
@ens fresh(old(mem).v@, final(mem).v@, r.0.ptr.a@ * esz::<K::Elem>(), r.0.len * esz::<K::Elem>())
@ens final(mem).v@.val == old(mem).v@.val && final(mem).v@.rd == old(mem).v@.rd && final(mem).v@.tls == old(mem).v@.tls
@ens final(mem).v@.allocs.remove(r.0.ptr.a@ * esz::<K::Elem>()) == old(mem).v@.allocs
@start
proof {
    K::ker_ok(); K::Elem::raw_ok(); K::Elem::rsz_ok(); l_esz::<K::Elem>();
    let (mm, kk, nn) = (imin(m as int, K::mc_s() as int), imin(k as int, K::kc_s() as int), imin(n as int, K::nc_s() as int));
    l_ceil(mm, $MKR); l_ceil(nn, $MKN);
    let (rm, rn) = (rup(mm, $MKR), rup(nn, $MKN));
    assert(0 < kk * rm <= 65536 * 65544 && 0 < kk * rn <= 65536 * 65544) by(nonlinear_arith) requires 0 < kk <= 65536, 0 < rm <= 65544, 0 < rn <= 65544;
    assert(0 < kk * rm * na <= 65536 * 65544 * 4) by(nonlinear_arith) requires 0 < kk * rm <= 65536 * 65544, 0 < na <= 4;
    let t = kk * rm * na + kk * rn;
    let e = esz::<K::Elem>();
    assert(0 < e * t <= 16 * (65536 * 65544 * 5)) by(nonlinear_arith) requires 0 < t <= 65536 * 65544 * 5, 0 < e <= 16;
    // in whatever order the source multiplies
    assert forall|x: int, y: int| #[trigger] (x * y) == y * x by { assert(x * y == y * x) by(nonlinear_arith); }
}

# ---------------------------------------------------------------- loops 1 and 2
@item gemm
/// what loops 1 and 2 may rely on
pub open spec fn gp_req<K: GemmKernel>(m: MV, nc: int, kc: int, mc: int, app: P<K::Elem>, bpp: P<K::Elem>, be: CV, c: P<K::Elem>, rsc: int, csc: int) -> bool {
    let (mr, nr) = (crate::kernel::mr_s::<K>(), crate::kernel::nr_s::<K>());
    &&& m.rsz == K::Elem::rsz()
    &&& crate::kernel::cfg_ok::<K>()
    &&& 0 < nc <= 65536 && 0 < kc <= 65536 && 0 < mc <= 65536
    &&& app.wf() && bpp.wf() && c.wf()
    &&& app.a@ + kc * rup(mc, mr) <= app.hi@ && bpp.a@ + kc * rup(nc, nr) <= bpp.hi@
    &&& blk_rd::<K::Elem>(m, app.a@, kc * rup(mc, mr)) && blk_rd::<K::Elem>(m, bpp.a@, kc * rup(nc, nr))
    &&& aligned::<K::Elem>(app.a@, K::al_s() as int) && aligned::<K::Elem>(bpp.a@, K::al_s() as int)
    &&& mwr::<K::Elem>(m, c, mc, nc, rsc, csc) && minj(c.a@, mc, nc, rsc, csc)
    &&& !is0(be) ==> mrd::<K::Elem>(m, c, mc, nc, rsc, csc)
    &&& mat_off(c.a@, mc, nc, rsc, csc, app.a@, kc * rup(mc, mr)) && mat_off(c.a@, mc, nc, rsc, csc, bpp.a@, kc * rup(nc, nr))
}
pub open spec fn gp_want<K: GemmKernel>(m: MV, kc: int, al: CV, app: P<K::Elem>, bpp: P<K::Elem>, be: CV, c: P<K::Elem>, rsc: int, csc: int) -> VF {
    comb::<K::Elem>(m, al, pfn::<K::Elem>(m, app.a@, crate::kernel::mr_s::<K>(), bpp.a@, crate::kernel::nr_s::<K>(), kc), be, c.a@, rsc, csc)
}
@fn gemm::gemm_packed
@attr #[verifier::rlimit(60)]
@props $ALLP
@req[C11] K::feat_s(old(mem).v@.cpu)
@req 1 <= thread_config.loop2 <= 4 && !old(mem).v@.tls
@req gp_req::<K>(old(mem).v@, nc as int, kc as int, mc as int, app, bpp, beta.cv(), c, rsc as int, csc as int)
@ens forall|i: int, j: int| 0 <= i < mc && 0 <= j < nc ==> ev::<K::Elem>(final(mem).v@, #[trigger] at2(c.a@, i, rsc as int, j, csc as int)) == gp_want::<K>(old(mem).v@, kc as int, alpha.cv(), app, bpp, beta.cv(), c, rsc as int, csc as int)(i, j) && erd::<K::Elem>(final(mem).v@, at2(c.a@, i, rsc as int, j, csc as int))
@ens upd3::<K::Elem>(old(mem).v@, final(mem).v@, nox(), c.a@, mc as int, nc as int, rsc as int, csc as int)
%def GC=c0.a@, mc as int, nc as int, rsc as int, csc as int
%def GW=gp_want::<K>(m0, kc as int, alpha.cv(), app, bpp0, beta.cv(), c0, rsc as int, csc as int)
%def L2I=app0 == app && mr == $MKR && nr == $MKN && K::feat_s(m0.cpu) && gp_req::<K>(m0, nc as int, kc as int, mc as int, app, bpp0, beta.cv(), c0, rsc as int, csc as int) && !m0.tls
%def L2A=app.a@, mr as int, bpp0.a@, nr as int, kc as int, !is0(beta.cv()), c0, mc as int, nc as int, rsc as int, csc as int
%def FEI=l2__fe.wf() && l2__fe.n@ == nc && l2__fe.chunk@ == nr
@start
let ghost m0 = mem.v@;
let ghost c0 = c;
let ghost bpp0 = bpp;
let ghost app0 = app;
proof {
    K::ker_ok(); K::Elem::raw_ok(); K::Elem::rsz_ok(); l_esz::<K::Elem>();
    let (mr, nr) = ($MKR, $MKN);
    l_ceil(mc as int, mr); l_ceil(nc as int, nr);
    assert(0 < mr * nr <= 64) by(nonlinear_arith) requires 0 < mr <= 8, 0 < nr <= 8;
    assert(mr * nr * esz::<K::Elem>() <= 1024) by(nonlinear_arith) requires 0 < mr * nr <= 64, 0 < esz::<K::Elem>() <= 16;
    assert(rup(mc as int, mr) >= mr && rup(nc as int, nr) >= nr) by(nonlinear_arith) requires ceil_div(mc as int, mr) > 0, ceil_div(nc as int, nr) > 0, mr > 0, nr > 0, rup(mc as int, mr) == ceil_div(mc as int, mr) * mr, rup(nc as int, nr) == ceil_div(nc as int, nr) * nr;
    assert(kc * mr >= 0 && kc * nr >= 0 && kc * mr <= kc * rup(mc as int, mr) && kc * nr <= kc * rup(nc as int, nr)) by(nonlinear_arith) requires kc > 0, 0 < mr <= rup(mc as int, mr), 0 < nr <= rup(nc as int, nr);
}
@loop foreach l2
@before
%if ns
let ghost x = bset(K::Elem::rsz(), mask_buf.buffer.p.a@, mask_buf.buffer.n as int);
%endif
%if dbg rel nt cc
let ghost x = |s: int| false;
%endif
proof {
%if ns
    assert(zfree(m0, x)) by { assert(forall|s: int| x(s) == byte_blk(s, m0.rsz, mask_buf.buffer.p.a@, mask_buf.buffer.n as int)); }
%endif
    assert(l2st::<K::Elem>(m0, mem.v@, x, ISet::empty(), $MKN, $GW, $GC));
}
@inv $L2I
@inv $FEI
%if nt ns
@inv l2__fe.nth@ == 1
%endif
%if ns
@inv x == bset(K::Elem::rsz(), mask_buf.buffer.p.a@, mask_buf.buffer.n as int)
@inv zfree(m0, x) && mask_buf.buffer.n >= 272
@inv mask_buf.buffer.wf() && mask_buf.buffer.p.a@ > 0 && mask_buf.buffer.p.hi@ <= usize::MAX && mask_buf.buffer.p.a@ % 16 == 0
%endif
%if dbg rel nt cc
@inv x == (|s: int| false)
%endif
@inv c == c0 && bpp == bpp0
@inv l2st::<K::Elem>(m0, mem.v@, x, l2__fe.done@, nr as int, $GW, $GC)
@begin
let ghost ma = mem.v@;
let ghost t = l2 as int;
let ghost mut mb: int = 0;
let ghost mut ml: int = 0;
proof {
    K::ker_ok(); K::Elem::raw_ok(); K::Elem::rsz_ok(); l_esz::<K::Elem>();
    l_chunk(nc as int, nr as int, t);
}
@at before call align_ptr
proof {
    mb = ptr.a@;
    ml = ptr.hi@ - ptr.a@;
    assert(0 < mr * nr <= 64) by(nonlinear_arith) requires 0 < mr <= 8, 0 < nr <= 8;
    assert(mr * nr * esz::<K::Elem>() <= 256 && K::al_s() <= 32);
    l_mask_area::<K::Elem>(mb, ml, K::al_s() as int, mr * nr);
    assert(mb * esz::<u8>() == mb && mb % 16 == 0);
}
@at foreach-body
let ghost mm = mem.v@;
let ghost z = bset(K::Elem::rsz(), mb, ml);
let ghost wset = w2fn::<K::Elem>(x, c0.a@, mc as int, nc as int, nr as int, rsc as int, csc as int);
let ghost rset = r2fn::<K::Elem>(app.a@, kc * rup(mc as int, mr as int), bpp0.a@, kc * rup(nc as int, nr as int));
proof {
    l_l2_have::<K::Elem>(m0, mm, x, $L2A, t);
%if ns
    assert forall|t1: int| 0 <= t1 < l2__fe.total() implies #[trigger] l2__fe.worker(t1) == 0 by { l_one_worker(nc as int, nr as int, t1); }
%endif
}
crate::threading::restrict_(&l2__fe, Ghost(t), Ghost(ma), Ghost(wset), Ghost(rset), mem);
let ghost mx = mem.v@;
proof {
%if ns
    assert(zdef(x, z, ma, mm)) by { assert(mm == ma); assert(z == x); assert(forall|s: int| #[trigger] x(s) ==> ma.wr.contains(s)); }
%endif
%if dbg rel nt cc
    l_area_tls::<K::Elem>(m0, ma, mm, x, $GC, mb, ml);
%endif
    l_l2_enter::<K::Elem>(m0, ma, mm, mx, x, z, $L2A, mask_buf.p.a@, mr * nr, t);
    l_at2_way::<K::Elem>(m0, c0, 0, t * nr, mc as int, nc as int, rsc as int, csc as int);
    l_at2(c0.a@, 0, rsc as int, t * nr, csc as int);
    assert(0 * rsc == 0) by(nonlinear_arith);
    l_panel_in::<K::Elem>(bpp0.a@, nr as int, kc as int, nc as int, t);
    l_panel_al::<K::Elem>(bpp0.a@, nr as int, kc as int, t, K::al_s() as int);
    l_it0(mc as int, mr as int);
}
@end
proof {
    assert(rows(l1__iter.i * mr) == rows(ceil_div(mc as int, mr as int) * mr));
}
let ghost mk = mem.v@;
%if dbg rel nt cc
mask_buf_back_(Ghost(mb), Ghost(ml), mem);
%endif
proof {
    l_l2_leave::<K::Elem>(m0, ma, mm, mx, mk, mem.v@, x, z, c0, mc as int, nc as int, nr as int, rsc as int, csc as int, c.a@, nr_ as int, mask_buf.p.a@, mr * nr, rset, t);
}
let ghost mg = mem.v@;
crate::threading::restore_(Ghost(ma), Ghost(mx), mem);
proof {
    l_l2_vals::<K::Elem>(ma, mx, mk, mg, mem.v@, c, mc as int, nr_ as int, rsc as int, csc as int, mask_buf.p.a@, mr * nr);
    l_l2_chunk::<K::Elem>(m0, ma, mx, mk, mem.v@, x, z, l2__fe0.done@, alpha.cv(), app.a@, mr as int, bpp0.a@, nr as int, kc as int, beta.cv(), $GC, mask_buf.p.a@, mr * nr, t);
}
@after
proof { l_l2_all::<K::Elem>(m0, mem.v@, x, l2__fe.done@, nr as int, $GW, $GC); }
%if ns
let ghost me = mem.v@;
local_back_(Ghost(mask_buf.buffer.p.a@), Ghost(mask_buf.buffer.n as int), mem);
proof { l_local_back::<K::Elem>(m0, me, mem.v@, x, $GW, $GC); }
%endif
%def L1C=c.a@, mc as int, nr_ as int, rsc as int, csc as int
%def L1W=want1::<K::Elem>(mx, alpha.cv(), app.a@, mr as int, bpp.a@, nr as int, kc as int, beta.cv(), c.a@, rsc as int, csc as int)
@loop for l1
@dec l1__iter.n
@lens l1__iter.n == 0
@inv mc > 0 && kc * mr >= 0 && kc * rup(mc as int, mr as int) <= isize::MAX
@inv $L2I
@inv K::feat_s(mem.v@.cpu) && mem.v@.rsz == K::Elem::rsz()
@inv 0 < nr_ <= nr && bpp.wf() && c.wf() && mask_buf.wf() && mr * nr <= mask_buf.n
@inv bpp.a@ + kc * nr <= bpp.hi@ && aligned::<K::Elem>(bpp.a@, K::al_s() as int)
@inv it_ok(mc as int, mr as int, l1__iter.i as int, l1__iter.n as int) && l1__iter.chunk == mr
@inv mwr::<K::Elem>(mx, c, mc as int, nr_ as int, rsc as int, csc as int) && (!is0(beta.cv()) ==> mrd::<K::Elem>(mx, c, mc as int, nr_ as int, rsc as int, csc as int)) && minj($L1C)
@inv mat_off($L1C, mask_buf.p.a@, mr * nr) && mat_off($L1C, app.a@, kc * rup(mc as int, mr as int)) && mat_off($L1C, bpp.a@, kc * nr)
@inv blk_rd::<K::Elem>(mx, app.a@, kc * rup(mc as int, mr as int)) && blk_rd::<K::Elem>(mx, bpp.a@, kc * nr) && blk_wr::<K::Elem>(mx, mask_buf.p.a@, mr * nr)
@inv forall|s: int| #![trigger raw_blk::<K::Elem>(s, mask_buf.p.a@, mr * nr)] raw_blk::<K::Elem>(s, mask_buf.p.a@, mr * nr) ==> !raw_blk::<K::Elem>(s, app.a@, kc * rup(mc as int, mr as int)) && !raw_blk::<K::Elem>(s, bpp.a@, kc * nr)
@inv l1st::<K::Elem>(mx, mem.v@, rows(l1__iter.i * mr), $L1W, $L1C, mask_buf.p.a@, mr * nr)
@begin
let ghost mt = mem.v@;
let ghost q = l1 as int;
let ghost c1 = c;
proof {
    K::ker_ok(); K::Elem::raw_ok(); K::Elem::rsz_ok();
    l_it(mc as int, mr as int, q, l1__iter.n + mr_);
    l_l1_enter::<K::Elem>(mx, mt, app.a@, mr as int, bpp.a@, nr as int, kc as int, !is0(beta.cv()), c, mc as int, nr_ as int, rsc as int, csc as int, mask_buf.p.a@, mr * nr, q);
    l_chunk(mc as int, mr as int, q);
    l_at2_way::<K::Elem>(mx, c, q * mr, 0, mc as int, nr_ as int, rsc as int, csc as int);
    l_at2(c.a@, q * mr, rsc as int, 0, csc as int);
    l_panel_al::<K::Elem>(app.a@, mr as int, kc as int, q, K::al_s() as int);
}
@at after call masked_kernel
proof { l_l1_tile::<K::Elem>(mx, mt, mem.v@, alpha.cv(), app0.a@, mr as int, bpp.a@, nr as int, kc as int, beta.cv(), c1.a@, mc as int, nr_ as int, rsc as int, csc as int, mask_buf.p.a@, mr * nr, q); }
@at after call kernel
proof {
    l_upd_mat2::<K::Elem>(mt, mem.v@, at2(c1.a@, q * mr, rsc as int, 0, csc as int), mr as int, nr as int, rsc as int, csc as int, mask_buf.p.a@, mr * nr);
    l_l1_tile::<K::Elem>(mx, mt, mem.v@, alpha.cv(), app0.a@, mr as int, bpp.a@, nr as int, kc as int, beta.cv(), c1.a@, mc as int, nr_ as int, rsc as int, csc as int, mask_buf.p.a@, mr * nr, q);
}
# ---------------------------------------------------------------- the blocked algorithm
@item gemm
/// fixed during the loops of one call
pub open spec fn gm_env<K: GemmKernel>(o: MV, g: GL, x: SetF, pa: P<K::Elem>, pb: P<K::Elem>, pc: P<K::Elem>, app: P<K::Elem>, bpp: P<K::Elem>, ap: int, bp: int, nap: int) -> bool {
    let (mr, nr) = (crate::kernel::mr_s::<K>(), crate::kernel::nr_s::<K>());
    &&& crate::kernel::cfg_ok::<K>() && K::feat_s(o.cpu) && !o.tls
    &&& gok::<K::Elem>(o, g, x)
    &&& pa.wf() && pb.wf() && pc.wf() && pa.a@ == g.a && pb.a@ == g.b && pc.a@ == g.c
    &&& mrd::<K::Elem>(o, pa, g.m, g.k, g.rsa, g.csa) && mrd::<K::Elem>(o, pb, g.k, g.n, g.rsb, g.csb) && mwr::<K::Elem>(o, pc, g.m, g.n, g.rsc, g.csc)
    &&& g.m <= isize::MAX && g.n <= isize::MAX && g.k <= usize::MAX
    &&& buf_ok::<K::Elem>(x, app.a@, ap, nap, bpp.a@, bp)
    &&& app.wf() && bpp.wf() && bpp.a@ + bp <= bpp.hi@ && app.a@ + ap * nap <= app.hi@
    &&& ap == imin(g.k, K::kc_s() as int) * rup(imin(g.m, K::mc_s() as int), mr)
    &&& bp == imin(g.k, K::kc_s() as int) * rup(imin(g.n, K::nc_s() as int), nr)
    &&& aligned::<K::Elem>(app.a@, K::al_s() as int) && aligned::<K::Elem>(bpp.a@, K::al_s() as int)
    &&& 1 <= nap <= 4
}
/// the start of the loops
pub proof fn l_gm_start<K: GemmKernel>(m0: MV, m1: MV, g: GL, pa: P<K::Elem>, pb: P<K::Elem>, pc: P<K::Elem>, app: P<K::Elem>, bpp: P<K::Elem>, ap: int, bp: int, nap: int, len: int)
    requires
        crate::kernel::cfg_ok::<K>(), K::feat_s(m0.cpu), gl_req::<K::Elem>(m0, g, pa, pb, pc), 0 < g.m <= isize::MAX && 0 < g.k <= usize::MAX && 0 < g.n <= isize::MAX,
        fresh(m0, m1, app.a@ * esz::<K::Elem>(), len * esz::<K::Elem>()), m1.val == m0.val, m1.rd == m0.rd, m1.tls == m0.tls,
        len == ap * nap + bp, 1 <= nap <= 4,
        ap == imin(g.k, K::kc_s() as int) * rup(imin(g.m, K::mc_s() as int), crate::kernel::mr_s::<K>()),
        bp == imin(g.k, K::kc_s() as int) * rup(imin(g.n, K::nc_s() as int), crate::kernel::nr_s::<K>()),
        app.wf(), app.a@ + len <= app.hi@, bpp == app.at(app.a@ + ap * nap),
        aligned::<K::Elem>(app.a@, K::al_s() as int),
    ensures
        gm_env::<K>(MV { allocs: m1.allocs, ..m0 }, g, bset(K::Elem::rsz(), app.a@ * esz::<K::Elem>(), len * esz::<K::Elem>()), pa, pb, pc, app, bpp, ap, bp, nap),
        gst::<K::Elem>(MV { allocs: m1.allocs, ..m0 }, m1, g, dep5(g, 0), bset(K::Elem::rsz(), app.a@ * esz::<K::Elem>(), len * esz::<K::Elem>())),
{
    K::ker_ok(); K::Elem::raw_ok(); K::Elem::rsz_ok();
    let o = MV { allocs: m1.allocs, ..m0 };
    let (mm, kk, nn) = (imin(g.m, K::mc_s() as int), imin(g.k, K::kc_s() as int), imin(g.n, K::nc_s() as int));
    l_buf_fit(mm, mm, crate::kernel::mr_s::<K>(), kk, kk);
    l_buf_fit(nn, nn, crate::kernel::nr_s::<K>(), kk, kk);
    assert(0 <= ap * nap) by(nonlinear_arith) requires ap >= 0, nap >= 1;
    l_g_init::<K::Elem>(m0, m1, o, g, pa, pb, pc, app.a@ * esz::<K::Elem>(), len * esz::<K::Elem>());
    l_byte_blk::<K::Elem>(app.a@, len);
    l_buf_al::<K::Elem>(app.a@, crate::kernel::mr_s::<K>(), kk, mm, nap, K::al_s() as int);
}
%def GLX=GL { m: m as int, k: k as int, n: n as int, al: alpha.cv(), a: a.a@, rsa: rsa as int, csa: csa as int, b: b.a@, rsb: rsb as int, csb: csb as int, be: beta.cv(), c: c.a@, rsc: rsc as int, csc: csc as int }
%def GLXP=(GL { m: m as int, k: k as int, n: n as int, al: alpha.cv(), a: pa.a@, rsa: rsa as int, csa: csa as int, b: pb.a@, rsb: rsb as int, csb: csb as int, be: beta.cv(), c: pc.a@, rsc: rsc as int, csc: csc as int })
%def NTH=1 <= thread_config.loop2 <= 4
%def GME=gm_env::<K>(o, g, x, pa, pb, pc, app0, bpp, ap_size as int, bp_size as int, nap as int) && g == $GLXP && knc == K::nc_s() && kkc == K::kc_s() && kmc == K::mc_s() && nap == thread_config.loop3 && $NTH && x == bset(K::Elem::rsz(), app0.a@ * esz::<K::Elem>(), packing_buffer.len * esz::<K::Elem>()) && packing_buffer.ptr.a@ == app0.a@ && packing_buffer.len == plen && crate::aligned_alloc::owns(packing_buffer, o) && o.allocs.remove(app0.a@ * esz::<K::Elem>()) == m0.allocs && o == (MV { allocs: o.allocs, ..m0 }) && ceil_div(n as int, knc as int) <= n && ceil_div(k as int, kkc as int) <= k && rup(n as int, knc as int) >= n && rup(k as int, kkc as int) >= k
@fn gemm::gemm_loop
@attr #[verifier::rlimit(60)]
@props $ALLP
@req[C11] K::feat_s(old(mem).v@.cpu)
@req[C08] m * k + k * n <= usize::MAX
@req gl_req::<K::Elem>(old(mem).v@, $GLX, a, b, c)
@ens gl_ens::<K::Elem>(old(mem).v@, final(mem).v@, $GLX)
@start
let ghost m0 = mem.v@;
let ghost g = $GLX;
let ghost (pa, pb, pc) = (a, b, c);
proof {
    if m > 0 && n > 0 { l_c_dim::<K::Elem>(m0, c, m as int, n as int, rsc as int, csc as int); }
    l_g_early::<K::Elem>(m0, g);
%if dbg rel nt ns
    K::conf_ok(); K::ker_ok();
%endif
}
@at after let bpp
let ghost m1 = mem.v@;
let ghost o = MV { allocs: m1.allocs, ..m0 };
let ghost x = bset(K::Elem::rsz(), app.a@ * esz::<K::Elem>(), packing_buffer.len * esz::<K::Elem>());
let ghost app0 = app;
let ghost plen = packing_buffer.len as int;
proof {
    K::Elem::raw_ok(); K::Elem::rsz_ok();
    l_gm_start::<K>(m0, m1, g, pa, pb, pc, app, bpp, ap_size as int, bp_size as int, nap as int, packing_buffer.len as int);
    l_it0(n as int, knc as int);
    l_ceil(n as int, knc as int); l_ceil(k as int, kkc as int);
}
%if cc
@at? before call ensure_kernel_params
proof { assert(m > 0 && k > 0 && n > 0); /*@pre refuse_only_nonempty [C05]*/ }
%endif
@loop for l5
@dec l5__iter.n
@lens l5__iter.n == 0
@inv $GME && a == pa && b == pb && c == pc && app == app0
@inv it_ok(n as int, knc as int, l5__iter.i as int, l5__iter.n as int) && l5__iter.chunk == knc
@inv gst::<K::Elem>(o, mem.v@, g, dep5(g, l5__iter.i * knc), x)
@begin
let ghost j0 = l5 * knc;
proof {
    l_it(n as int, knc as int, l5 as int, l5__iter.n + nc);
    l_chunk(n as int, knc as int, l5 as int);
    l_at2_way::<K::Elem>(o, pb, 0, j0, k as int, n as int, rsb as int, csb as int);
    l_at2_way::<K::Elem>(o, pc, 0, j0, m as int, n as int, rsc as int, csc as int);
    l_it0(k as int, kkc as int);
    l_g_eq::<K::Elem>(o, mem.v@, g, dep5(g, j0), dep4(g, j0, nc as int, 0), x);
}
@end
proof { l_g_eq::<K::Elem>(o, mem.v@, g, dep4(g, j0, nc as int, k as int), dep5(g, l5__iter.i * knc), x); }
@after
let ghost me = mem.v@;
proof { l_g_eq::<K::Elem>(o, me, g, dep5(g, l5__iter.i * knc), dep5(g, g.n), x); }
@loop for l4
@dec l4__iter.n
@lens l4__iter.n == 0
@inv $GME && a == pa && b == pb.at(pb.a@ + j0 * csb) && c == pc.at(pc.a@ + j0 * csc) && app == app0
@inv 0 < nc <= knc && 0 <= j0 && j0 + nc <= n
@inv it_ok(k as int, kkc as int, l4__iter.i as int, l4__iter.n as int) && l4__iter.chunk == kkc
@inv gst::<K::Elem>(o, mem.v@, g, dep4(g, j0, nc as int, imin(l4__iter.i * kkc, k as int)), x)
@begin
let ghost d0 = l4 * kkc;
let ghost mb0 = mem.v@;
proof {
    K::ker_ok(); K::Elem::raw_ok(); K::Elem::rsz_ok();
    l_it(k as int, kkc as int, l4 as int, l4__iter.n + kc);
    l_chunk(k as int, kkc as int, l4 as int);
    l_at2_way::<K::Elem>(o, pb, d0, j0, k as int, n as int, rsb as int, csb as int);
    l_at2_way::<K::Elem>(o, pa, 0, d0, m as int, k as int, rsa as int, csa as int);
    let nn = imin(n as int, K::nc_s() as int);
    let kk = imin(k as int, K::kc_s() as int);
    l_buf_fit(nc as int, nn, $MKN, kc as int, kk);
    l_buf_a::<K::Elem>(x, app0.a@, ap_size as int, nap as int, bpp.a@, bp_size as int, 0);
    l_g_packb::<K::Elem>(o, mem.v@, g, dep4(g, j0, nc as int, d0), x, pb, j0, d0, nc as int, kc as int, $MKN, bpp.a@, bp_size as int);
}
@at after call pack_nr
let ghost mb1 = mem.v@;
proof {
    l_packed_eq::<K::Elem>(mb1, bpp.a@, $MKN, kc as int, nc as int, msrc::<K::Elem>(mb0, b.a@, csb as int, rsb as int), bsrc::<K::Elem>(o, g, j0, d0));
    l_g_blk::<K::Elem>(o, mb0, mb1, g, dep4(g, j0, nc as int, d0), x, bpp.a@, rup(nc as int, $MKN) * kc);
    if l4 == 0 { assert(d0 == 0) by(nonlinear_arith) requires d0 == l4 * kkc, l4 == 0; } else { assert(d0 > 0) by(nonlinear_arith) requires d0 == l4 * kkc, l4 > 0, kkc > 0; }
    l_g_eq::<K::Elem>(o, mb1, g, dep4(g, j0, nc as int, d0), dep3(g, ISet::empty(), kmc as int, j0, nc as int, d0, kc as int), x);
}
@loop foreach l3
@inv $GME && a == pa.at(pa.a@ + d0 * csa) && c == pc.at(pc.a@ + j0 * csc) && app == app0
@inv 0 < nc <= knc && 0 <= j0 && j0 + nc <= n && 0 < kc <= kkc && 0 <= d0 && d0 + kc <= k && betap.cv() == (if d0 == 0 { g.be } else { cone() })
@inv l3__fe.wf() && l3__fe.n@ == m && l3__fe.chunk@ == kmc && l3__fe.nth@ <= nap
@inv gst::<K::Elem>(o, mem.v@, g, dep3(g, l3__fe.done@, kmc as int, j0, nc as int, d0, kc as int), x)
@inv blk_rd::<K::Elem>(mem.v@, bpp.a@, kc * rup(nc as int, $MKN))
@inv packed::<K::Elem>(mem.v@, bpp.a@, $MKN, kc as int, nc as int, bsrc::<K::Elem>(o, g, j0, d0))
@begin
let ghost t = l3 as int;
let ghost i0 = t * kmc;
let ghost ma = mem.v@;
let ghost cp = part_cp(m as int, kmc as int, l3__fe.nth@);
let ghost lb = kc * rup(nc as int, $MKN);
proof {
    K::ker_ok(); K::Elem::raw_ok(); K::Elem::rsz_ok();
    l_chunk(m as int, kmc as int, t);
    let kk = imin(k as int, K::kc_s() as int);
    l_buf_fit(nc as int, imin(n as int, K::nc_s() as int), $MKN, kc as int, kk);
    l_buf_fit(mc as int, imin(m as int, K::mc_s() as int), $MKR, kc as int, kk);
    l_buf_a::<K::Elem>(x, app0.a@, ap_size as int, nap as int, bpp.a@, bp_size as int, worker__ as int);
    assert(ap_size * worker__ >= 0);
}
@at foreach-body
let ghost wset = w3fn::<K::Elem>(g, kmc as int, j0, nc as int, app0.a@, ap_size as int, cp);
let ghost rset = r3fn::<K::Elem>(g, bpp.a@, lb);
let ghost dep = dep3(g, l3__fe0.done@, kmc as int, j0, nc as int, d0, kc as int);
proof {
    assert forall|u: int| #![trigger u / cp] 0 <= u < ceil_div(m as int, kmc as int) implies 0 <= u / cp < nap by { l_part_exact(m as int, kmc as int, l3__fe.nth@, u); }
    l_g3_have::<K::Elem>(o, ma, g, dep, x, kmc as int, j0, nc as int, app0.a@, ap_size as int, nap as int, bpp.a@, bp_size as int, lb, cp, t);
}
crate::threading::restrict_(&l3__fe, Ghost(t), Ghost(ma), Ghost(wset), Ghost(rset), mem);
let ghost mx = mem.v@;
proof {
    l_g3_enter::<K::Elem>(o, ma, mx, g, x, pa, pc, kmc as int, j0, nc as int, d0, kc as int, $MKR, l3__fe0.done@, app0.a@, ap_size as int, nap as int, bpp.a@, bp_size as int, lb, cp, t);
    l_at2_way::<K::Elem>(o, pa, i0, d0, m as int, k as int, rsa as int, csa as int);
    l_at2_way::<K::Elem>(o, pc, i0, j0, m as int, n as int, rsc as int, csc as int);
    let mm = imin(m as int, K::mc_s() as int);
    l_buf_al::<K::Elem>(app0.a@, $MKR, imin(k as int, K::kc_s() as int), mm, worker__ as int, K::al_s() as int);
}
@at after call pack_mr
let ghost mp = mem.v@;
proof {
    l_packed_eq::<K::Elem>(mp, app.a@, $MKR, kc as int, mc as int, msrc::<K::Elem>(mx, a.a@, rsa as int, csa as int), asrc::<K::Elem>(o, g, i0, d0));
    l_g3_pk::<K::Elem>(mx, mp, c, mc as int, nc as int, rsc as int, csc as int, betap.cv(), app.a@, ap_size as int, kc * rup(mc as int, $MKR), bpp.a@, lb);
}
@end
let ghost mk = mem.v@;
proof { l_g3_perm::<K::Elem>(ma, mx, g, kmc as int, j0, nc as int, app0.a@, ap_size as int, bpp.a@, lb, cp, t); }
crate::threading::restore_(Ghost(ma), Ghost(mx), mem);
proof { l_g3_step::<K::Elem>(o, ma, mx, mp, mk, mem.v@, g, x, kmc as int, j0, nc as int, d0, kc as int, $MKR, $MKN, l3__fe0.done@, app0.a@, ap_size as int, nap as int, bpp.a@, bp_size as int, cp, t, betap.cv()); }
@after
proof {
    l_g3_all(g, l3__fe.done@, kmc as int, j0, nc as int, d0, kc as int);
    l_g_eq::<K::Elem>(o, mem.v@, g, dep3(g, l3__fe.done@, kmc as int, j0, nc as int, d0, kc as int), dep4(g, j0, nc as int, imin(l4__iter.i * kkc, k as int)), x);
}
@fnend
proof { l_g_end::<K::Elem>(m0, o, me, mem.v@, g, app0.a@ * esz::<K::Elem>(), plen * esz::<K::Elem>()); }
