%def ALLP=C02 C03 C04 C07 C08 C11 C12
%if dbg rel nt ns
# ---------------------------------------------------------------- packing of complex elements
%def CCTX=T::cxn() == 2 && TReal::cxn() == 1 && T::rsz() == TReal::rsz() && (TReal::rsz() == 4 || TReal::rsz() == 8) && mr == MR::val_s() && 0 < mr <= 8 && pb.wf() && m0.rsz == T::rsz() && pack.a@ == 2 * pb.p.a@ && pack.lo@ == pack.a@ && pack.hi@ == 2 * pb.p.hi@ && pack.wf() && n0 == mc as int / mr as int && g == (PC { o: m0, a: a.a@, rs: rsa as int, cs: csa as int, b: pb.p.a@, mr: mr as int, kc: kc as int, mc: mc as int }) && pack_req::<T>(m0, kc as int, mc as int, mr as int, pb, a, rsa as int, csa as int) && 0 <= n0 <= ceil_div(mc as int, mr as int) && n0 * mr <= mc
%block CPI
@begin
let ghost m1 = mem.v@;
proof {
    l_cast2::<T, TReal>();
    l_cpk_bound(g, $IR, j as int, $OFF + i as int);
    l_cpk_want(g, $IR, j as int, $OFF + i as int);
    l_cpk_wr::<T>(g, m1, $IR, j as int, $OFF + i as int);
    $COND l_pk_src::<T>(m0, a, kc as int, mc as int, mr as int, pb, rsa as int, csa as int, i + row_offset, j as int); l_cpk_rd::<T>(g, m1, $IR, j as int, $OFF + i as int, i + row_offset, j as int); }
}
@end
proof {
    l_cpk_step::<T>(g, m1, mem.v@, $IR, j as int, $OFF + i as int);
}
%endblock
@fn cgemm_common::pack_complex
@props C02 C03 C06 C07 C08 C12 C14
@req T::cxn() == 2 && TReal::cxn() == 1 && T::rsz() == TReal::rsz() && 0 < MR::val_s() <= 8
@req pack_req::<T>(old(mem).v@, kc as int, mc as int, MR::val_s() as int, pack, a, rsa as int, csa as int)
@ens pack_ens::<T>(old(mem).v@, final(mem).v@, kc as int, mc as int, MR::val_s() as int, pack, a, rsa as int, csa as int)
@ltype zero TReal
@start
let ghost m0 = mem.v@;
let ghost pb = pack;
let ghost n0 = mc as int / MR::val_s() as int;
let ghost g = PC { o: m0, a: a.a@, rs: rsa as int, cs: csa as int, b: pb.p.a@, mr: MR::val_s() as int, kc: kc as int, mc: mc as int };
proof {
    l_ceil(mc as int, MR::val_s() as int); l_dm(mc as int, MR::val_s() as int);
    l_cpk_init::<T>(g);
    TReal::rsz_ok();
    l_cast2::<T, TReal>();
    l_mul_le(0, rup(mc as int, MR::val_s() as int), kc as int);
}
@loop for ir#1
@inv $CCTX
@inv ${it} <= n0 && ir__end == n0
@inv cpk_st::<T>(g, mem.v@, ${it} as int, 0, 0)
@inv p == poff(2 * g.mr, g.kc, ir__it as int, 0, 0)
@begin
proof { l_mul_le(ir as int, n0 - 1, mr as int); assert(ir * mr + mr <= n0 * mr) by(nonlinear_arith) requires ir + 1 <= n0, mr > 0; }
@end
proof { l_cpk_panel::<T>(g, mem.v@, ir as int); }
@loop for j#1
@inv $CCTX
@inv ir < n0 && j__end == kc && j__it <= kc && row_offset == ir * mr && row_offset + mr <= n0 * mr
@inv cpk_st::<T>(g, mem.v@, ir as int, ${it} as int, 0)
@inv p == poff(2 * g.mr, g.kc, ir as int, j__it as int, 0)
@end
proof { l_cpk_row::<T>(g, mem.v@, ir as int, j as int); }
@loop for i#1
@inv $CCTX
@inv ir < n0 && j < kc && row_offset == ir * mr && i__end == mr && i__it <= mr && row_offset + mr <= n0 * mr
@inv cpk_st::<T>(g, mem.v@, ir as int, j as int, 0 + ${it} as int)
@inv p == poff(2 * g.mr, g.kc, ir as int, j as int, 0 + i__it as int)
%def IR=ir as int
%def OFF=0
%def COND={
%use CPI
@loop for i#2
@inv $CCTX
@inv ir < n0 && j < kc && row_offset == ir * mr && i__end == mr && i__it <= mr && row_offset + mr <= n0 * mr
@inv cpk_st::<T>(g, mem.v@, ir as int, j as int, mr as int + ${it} as int)
@inv p == poff(2 * g.mr, g.kc, ir as int, j as int, mr as int + i__it as int)
%def IR=ir as int
%def OFF=mr as int
%def COND={
%use CPI
@loop for j#2
@inv $CCTX
@inv row_offset == n0 * mr && rest == mc - n0 * mr && 0 < rest < mr && n0 < ceil_div(mc as int, mr as int)
@inv j__end == kc && j__it <= kc
@inv zero.cv() == czero()
@inv cpk_st::<T>(g, mem.v@, n0, ${it} as int, 0)
@inv p == poff(2 * g.mr, g.kc, n0, j__it as int, 0)
@end
proof { l_cpk_row::<T>(g, mem.v@, n0, j as int); }
@after
proof { l_cpk_panel::<T>(g, mem.v@, n0); }
@loop for i#3
@inv $CCTX
@inv row_offset == n0 * mr && rest == mc - n0 * mr && 0 < rest < mr && n0 < ceil_div(mc as int, mr as int) && zero.cv() == czero()
@inv j < kc && i__end == mr && i__it <= mr
@inv cpk_st::<T>(g, mem.v@, n0, j as int, 0 + ${it} as int)
@inv p == poff(2 * g.mr, g.kc, n0, j as int, 0 + i__it as int)
%def IR=n0
%def OFF=0
%def COND=if i < rest {
%use CPI
@loop for i#4
@inv $CCTX
@inv row_offset == n0 * mr && rest == mc - n0 * mr && 0 < rest < mr && n0 < ceil_div(mc as int, mr as int) && zero.cv() == czero()
@inv j < kc && i__end == mr && i__it <= mr
@inv cpk_st::<T>(g, mem.v@, n0, j as int, mr as int + ${it} as int)
@inv p == poff(2 * g.mr, g.kc, n0, j as int, mr as int + i__it as int)
%def IR=n0
%def OFF=mr as int
%def COND=if i < rest {
%use CPI
@fnend
proof { l_cpk_done::<T>(g, mem.v@, ceil_div(mc as int, mr as int)); }
# ---------------------------------------------------------------- kernels for complex elements
%block CXLOOP
@inv $TI && mem.v@ == g.m && g.m.rsz == <$E>::rsz() && <$R>::rsz() == <$E>::rsz() && pa.wf() && pb.wf() && areal == ra.at(ra.a@ + ($T) * $[2*$MR]) && breal == rb.at(rb.a@ + ($T) * $[2*$NR])
@inv ra.wf() && rb.wf() && ra.a@ == 2 * pa.a@ && rb.a@ == 2 * pb.a@ && ra.hi@ == 2 * pa.hi@ && rb.hi@ == 2 * pb.hi@ && ra.lo@ == 2 * pa.lo@ && rb.lo@ == 2 * pb.lo@
@inv g.mr == $MR && g.nr == $NR && g.a == pa.a@ && g.b == pb.a@ && pa.a@ + k * $MR <= pa.hi@ && pb.a@ + k * $NR <= pb.hi@
@inv blk_rd::<$E>(g.m, pa.a@, k * $MR) && blk_rd::<$E>(g.m, pb.a@, k * $NR)
%for i in 0..$MR, j in 0..$NR: @inv ab_{i}_{j}.x0.v@ == cre(g, {i}, {j}, $T) && ab_{i}_{j}.x1.v@ == cim(g, {i}, {j}, $T)
@begin
let ghost (xa, ya, tt) = (areal.a@, breal.a@, ($TB) as int);
@end
proof {
%for i in 0..$MR, j in 0..$NR: $ST(g, {i}, {j}, tt, $MR, $NR, xa, ya, pp_{i}.v@, qq_{i}.v@, rr_{j}.v@, ss_{j}.v@);
}
%endblock
%block CXLOOPU
@inv $TI && mem.v@ == g.m && g.m.rsz == <$E>::rsz() && <$R>::rsz() == <$E>::rsz() && pa.wf() && pb.wf() && areal == ra.at(ra.a@ + ($T) * $[2*$MR]) && breal == rb.at(rb.a@ + ($T) * $[2*$NR])
@inv ra.wf() && rb.wf() && ra.a@ == 2 * pa.a@ && rb.a@ == 2 * pb.a@ && ra.hi@ == 2 * pa.hi@ && rb.hi@ == 2 * pb.hi@ && ra.lo@ == 2 * pa.lo@ && rb.lo@ == 2 * pb.lo@
@inv g.mr == $MR && g.nr == $NR && g.a == pa.a@ && g.b == pb.a@ && pa.a@ + k * $MR <= pa.hi@ && pb.a@ + k * $NR <= pb.hi@
@inv blk_rd::<$E>(g.m, pa.a@, k * $MR) && blk_rd::<$E>(g.m, pb.a@, k * $NR)
%for i in 0..$MR, j in 0..$NR: @inv ab_{i}_{j}.x0.v@ == cre(g, {i}, {j}, $T) && ab_{i}_{j}.x1.v@ == cim(g, {i}, {j}, $T)
%endblock
%block CXSTAGE
@invx $TI && mem.v@ == g.m && g.m.rsz == <$E>::rsz() && <$R>::rsz() == <$E>::rsz() && pa.wf() && pb.wf() && areal == ra.at(ra.a@ + ($T) * $[2*$MR]) && breal == rb.at(rb.a@ + ($T) * $[2*$NR])
@invx ra.wf() && rb.wf() && ra.a@ == 2 * pa.a@ && rb.a@ == 2 * pb.a@ && ra.hi@ == 2 * pa.hi@ && rb.hi@ == 2 * pb.hi@ && ra.lo@ == 2 * pa.lo@ && rb.lo@ == 2 * pb.lo@
@invx g.mr == $MR && g.nr == $NR && g.a == pa.a@ && g.b == pb.a@ && pa.a@ + k * $MR <= pa.hi@ && pb.a@ + k * $NR <= pb.hi@
@invx blk_rd::<$E>(g.m, pa.a@, k * $MR) && blk_rd::<$E>(g.m, pb.a@, k * $NR)
%for i in 0..$MR, j in 0..$NR: @invx ab_{i}_{j}.x0.v@ == cre(g, {i}, {j}, $T) && ab_{i}_{j}.x1.v@ == cim(g, {i}, {j}, $T)
@lens $TI && mem.v@ == g.m && g.m.rsz == <$E>::rsz() && <$R>::rsz() == <$E>::rsz() && pa.wf() && pb.wf() && areal == ra.at(ra.a@ + ($V) * $[2*$MR]) && breal == rb.at(rb.a@ + ($V) * $[2*$NR])
@lens ra.wf() && rb.wf() && ra.a@ == 2 * pa.a@ && rb.a@ == 2 * pb.a@ && ra.hi@ == 2 * pa.hi@ && rb.hi@ == 2 * pb.hi@ && ra.lo@ == 2 * pa.lo@ && rb.lo@ == 2 * pb.lo@
@lens g.mr == $MR && g.nr == $NR && g.a == pa.a@ && g.b == pb.a@ && pa.a@ + k * $MR <= pa.hi@ && pb.a@ + k * $NR <= pb.hi@
@lens blk_rd::<$E>(g.m, pa.a@, k * $MR) && blk_rd::<$E>(g.m, pb.a@, k * $NR)
%for i in 0..$MR, j in 0..$NR: @lens ab_{i}_{j}.x0.v@ == cre(g, {i}, {j}, $V) && ab_{i}_{j}.x1.v@ == cim(g, {i}, {j}, $V)
@begin
let ghost (xa, ya, tt) = (areal.a@, breal.a@, ($TB) as int);
@end
proof {
%for i in 0..$MR, j in 0..$NR: $ST(g, {i}, {j}, tt, $MR, $NR, xa, ya, pp_{i}.v@, qq_{i}.v@, rr_{j}.v@, ss_{j}.v@);
}
%endblock
%block CXK1
@props $ALLP
@attr #[verifier::rlimit(200)]
@req[C11] $FEAT
@req ker_req::<$E>($MR, $NR, 0, true, old(mem).v@, k as int, a, b, beta.cv(), c, rsc as int, csc as int)
@ens ker_ens::<$E>($MR, $NR, old(mem).v@, final(mem).v@, k as int, alpha.cv(), a, b, beta.cv(), c, rsc as int, csc as int)
@start
hide(minj);
hide(mwr);
hide(mrd);
hide(in_mat);
hide(put);
hide(cre);
hide(cim);
hide(upd_mat);
hide(is_res);
hide(kdot);
let ghost g = KA { m: mem.v@, k: k as int, al: alpha.cv(), a: a.a@, mr: $MR, b: b.a@, nr: $NR, be: beta.cv(), c: c.a@, rs: rsc as int, cs: csc as int };
let ghost (pa, pb) = (a, b);
let ghost mut w: ISet<int> = ISet::empty();
proof {
    l_kst0::<$E>(g);
    l_cast2::<$E, $R>();
%for i in 0..$MR, j in 0..$NR: l_kposc::<$E>(g, c, {i}, {j});
}
%if dbg nt ns
@loop for _
%def T=${it} as int
%def TI=${it} <= n___end && n___end == k
%def TB=${it} - 1
%use CXLOOP
%endif
%if rel
@loop while#1
%def T=$U * _index__h1
%def TB=$U * _index__h1
%def TI=_index__h1 <= _target__h1 && _target__h1 == k / $U
%use CXLOOPU
@dec _target__h1 - _index__h1
@loop stage before let aimag#1
%def T=1 * _index__h1 + 0
%def V=1 * _index__h1 + 1
%def TB=1 * _index__h1 + 0
%def TI=_index__h1 < _target__h1 && _target__h1 == k / 1
%use CXSTAGE
@loop while#2
%def T=$U * (k / $U) + _index__h1
%def TB=$U * (k / $U) + _index__h1
%def TI=_index__h1 <= _target__h1 && _target__h1 == k % $U
%use CXLOOP
@dec _target__h1 - _index__h1
%endif
@at after let breal
let ghost (ra, rb) = (areal, breal);
@oncall wr_
proof { l_kst_put::<$E>(g, mw_, w, a0_.a@, a1_.cv()); w = w.insert(kslot(g, a0_.a@)); }
@fnend
proof { l_kst_end4$NR::<$E>(g, mem.v@, w); }
%endblock
%block CXK2
@props $ALLP
@attr #[verifier::rlimit(200)]
@req[C11] $FEAT
@req ker_req::<$E>($MR, $NR, 0, true, old(mem).v@, k as int, a, b, beta.cv(), c, rsc as int, csc as int)
@ens ker_ens::<$E>($MR, $NR, old(mem).v@, final(mem).v@, k as int, alpha.cv(), a, b, beta.cv(), c, rsc as int, csc as int)
@start
hide(minj);
hide(mwr);
hide(mrd);
hide(in_mat);
hide(put);
hide(cre);
hide(cim);
hide(upd_mat);
hide(is_res);
hide(kdot);
let ghost g = KA { m: mem.v@, k: k as int, al: alpha.cv(), a: a.a@, mr: $MR, b: b.a@, nr: $NR, be: beta.cv(), c: c.a@, rs: rsc as int, cs: csc as int };
let ghost (pa, pb) = (a, b);
let ghost mut w: ISet<int> = ISet::empty();
proof {
    l_kst0::<$E>(g);
    l_cast2::<$E, $R>();
%for i in 0..$MR, j in 0..$NR: l_kposc::<$E>(g, c, {i}, {j});
}
%if dbg nt ns
@loop for _
%def T=${it} as int
%def TI=${it} <= n___end && n___end == k
%def TB=${it} - 1
%use CXLOOP
%endif
%if rel
@loop while#1
%def T=$U * _index__h1
%def TB=$U * _index__h1
%def TI=_index__h1 <= _target__h1 && _target__h1 == k / $U
%use CXLOOPU
@dec _target__h1 - _index__h1
@loop stage before let aimag#1
%def T=2 * _index__h1 + 0
%def V=2 * _index__h1 + 1
%def TB=2 * _index__h1 + 0
%def TI=_index__h1 < _target__h1 && _target__h1 == k / 2
%use CXSTAGE
@loop stage before let aimag#2
%def T=2 * _index__h1 + 1
%def V=2 * _index__h1 + 2
%def TB=2 * _index__h1 + 1
%def TI=_index__h1 < _target__h1 && _target__h1 == k / 2
%use CXSTAGE
@loop while#2
%def T=$U * (k / $U) + _index__h1
%def TB=$U * (k / $U) + _index__h1
%def TI=_index__h1 <= _target__h1 && _target__h1 == k % $U
%use CXLOOP
@dec _target__h1 - _index__h1
%endif
@at after let breal
let ghost (ra, rb) = (areal, breal);
@oncall wr_
proof { l_kst_put::<$E>(g, mw_, w, a0_.a@, a1_.cv()); w = w.insert(kslot(g, a0_.a@)); }
@fnend
proof { l_kst_end4$NR::<$E>(g, mem.v@, w); }
%endblock
%block CXK4
@props $ALLP
@attr #[verifier::rlimit(200)]
@req[C11] $FEAT
@req ker_req::<$E>($MR, $NR, 0, true, old(mem).v@, k as int, a, b, beta.cv(), c, rsc as int, csc as int)
@ens ker_ens::<$E>($MR, $NR, old(mem).v@, final(mem).v@, k as int, alpha.cv(), a, b, beta.cv(), c, rsc as int, csc as int)
@start
hide(minj);
hide(mwr);
hide(mrd);
hide(in_mat);
hide(put);
hide(cre);
hide(cim);
hide(upd_mat);
hide(is_res);
hide(kdot);
let ghost g = KA { m: mem.v@, k: k as int, al: alpha.cv(), a: a.a@, mr: $MR, b: b.a@, nr: $NR, be: beta.cv(), c: c.a@, rs: rsc as int, cs: csc as int };
let ghost (pa, pb) = (a, b);
let ghost mut w: ISet<int> = ISet::empty();
proof {
    l_kst0::<$E>(g);
    l_cast2::<$E, $R>();
%for i in 0..$MR, j in 0..$NR: l_kposc::<$E>(g, c, {i}, {j});
}
%if dbg nt ns
@loop for _
%def T=${it} as int
%def TI=${it} <= n___end && n___end == k
%def TB=${it} - 1
%use CXLOOP
%endif
%if rel
@loop while#1
%def T=$U * _index__h1
%def TB=$U * _index__h1
%def TI=_index__h1 <= _target__h1 && _target__h1 == k / $U
%use CXLOOPU
@dec _target__h1 - _index__h1
@loop stage before let aimag#1
%def T=4 * _index__h1 + 0
%def V=4 * _index__h1 + 1
%def TB=4 * _index__h1 + 0
%def TI=_index__h1 < _target__h1 && _target__h1 == k / 4
%use CXSTAGE
@loop stage before let aimag#2
%def T=4 * _index__h1 + 1
%def V=4 * _index__h1 + 2
%def TB=4 * _index__h1 + 1
%def TI=_index__h1 < _target__h1 && _target__h1 == k / 4
%use CXSTAGE
@loop stage before let aimag#3
%def T=4 * _index__h1 + 2
%def V=4 * _index__h1 + 3
%def TB=4 * _index__h1 + 2
%def TI=_index__h1 < _target__h1 && _target__h1 == k / 4
%use CXSTAGE
@loop stage before let aimag#4
%def T=4 * _index__h1 + 3
%def V=4 * _index__h1 + 4
%def TB=4 * _index__h1 + 3
%def TI=_index__h1 < _target__h1 && _target__h1 == k / 4
%use CXSTAGE
@loop while#2
%def T=$U * (k / $U) + _index__h1
%def TB=$U * (k / $U) + _index__h1
%def TI=_index__h1 <= _target__h1 && _target__h1 == k % $U
%use CXLOOP
@dec _target__h1 - _index__h1
%endif
@at after let breal
let ghost (ra, rb) = (areal, breal);
@oncall wr_
proof { l_kst_put::<$E>(g, mw_, w, a0_.a@, a1_.cv()); w = w.insert(kslot(g, a0_.a@)); }
@fnend
proof { l_kst_end4$NR::<$E>(g, mem.v@, w); }
%endblock
@fn cgemm_kernel::kernel_target_avx2
%def E=Cx<F32>
%def R=F32
%def MR=4
%def NR=4
%def U=4
%def FEAT=old(mem).v@.cpu.fma && old(mem).v@.cpu.avx2
%if dbg rel nt
%def ST=l_cri_fm
%endif
%if ns
%def ST=l_cri_st
%endif
%use CXK4
@fn cgemm_kernel::kernel_target_fma
%def E=Cx<F32>
%def R=F32
%def MR=4
%def NR=4
%def U=2
%def FEAT=old(mem).v@.cpu.fma
%def ST=l_cri_st
%use CXK2
@fn cgemm_kernel::kernel_fallback_impl
%def E=Cx<F32>
%def R=F32
%def MR=4
%def NR=2
%def U=1
%def FEAT=true
%def ST=l_cri_st
%use CXK1
@fn zgemm_kernel::kernel_target_avx2
%def E=Cx<F64>
%def R=F64
%def MR=4
%def NR=2
%def U=4
%def FEAT=old(mem).v@.cpu.fma && old(mem).v@.cpu.avx2
%if dbg rel nt
%def ST=l_cri_fm
%endif
%if ns
%def ST=l_cri_st
%endif
%use CXK4
@fn zgemm_kernel::kernel_target_fma
%def E=Cx<F64>
%def R=F64
%def MR=4
%def NR=2
%def U=2
%def FEAT=old(mem).v@.cpu.fma
%def ST=l_cri_st
%use CXK2
@fn zgemm_kernel::kernel_fallback_impl
%def E=Cx<F64>
%def R=F64
%def MR=4
%def NR=2
%def U=1
%def FEAT=true
%def ST=l_cri_st
%use CXK1
%endif
