%def ALLP=C01 C03 C04 C07 C08 C11 C12
%def AVXP=C01 C03 C08 C11
%if dbg rel nt ns
@struct dgemm_kernel::KernelAvx
@impl dgemm_kernel::KernelAvx as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.avx }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct dgemm_kernel::KernelFma
@impl dgemm_kernel::KernelFma as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.fma }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct dgemm_kernel::KernelFmaAvx2
@impl dgemm_kernel::KernelFmaAvx2 as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.fma && c.avx2 }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct dgemm_kernel::KernelSse2
@impl dgemm_kernel::KernelSse2 as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.sse2 }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct dgemm_kernel::KernelFallback
@impl dgemm_kernel::KernelFallback as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { true }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct sgemm_kernel::KernelAvx
@impl sgemm_kernel::KernelAvx as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.avx }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct sgemm_kernel::KernelFma
@impl sgemm_kernel::KernelFma as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.fma }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct sgemm_kernel::KernelFmaAvx2
@impl sgemm_kernel::KernelFmaAvx2 as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.fma && c.avx2 }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct sgemm_kernel::KernelSse2
@impl sgemm_kernel::KernelSse2 as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.sse2 }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct sgemm_kernel::KernelFallback
@impl sgemm_kernel::KernelFallback as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { true }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct cgemm_kernel::KernelAvx2
@impl cgemm_kernel::KernelAvx2 as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.fma && c.avx2 }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct cgemm_kernel::KernelFma
@impl cgemm_kernel::KernelFma as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.fma }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct cgemm_kernel::KernelFallback
@impl cgemm_kernel::KernelFallback as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { true }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct zgemm_kernel::KernelAvx2
@impl zgemm_kernel::KernelAvx2 as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.fma && c.avx2 }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct zgemm_kernel::KernelFma
@impl zgemm_kernel::KernelFma as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { c.fma }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
@struct zgemm_kernel::KernelFallback
@impl zgemm_kernel::KernelFallback as GemmKernel
@spec
    open spec fn feat_s(c: Cpu) -> bool { true }
    proof fn ker_ok() { l_esz::<Self::Elem>(); }
    proof fn conf_ok() { l_esz::<Self::Elem>(); }
# ---------------------------------------------------------------- fallback kernels (real elements)
%block FBLOOP
@inv $TI && mem.v@ == g.m && g.m.rsz == $E::rsz() && pa.wf() && pb.wf() && a == pa.at(pa.a@ + $MR * ($T)) && b == pb.at(pb.a@ + $NR * ($T))
@inv g.mr == $MR && g.nr == $NR && g.a == pa.a@ && g.b == pb.a@ && pa.a@ + k * $MR <= pa.hi@ && pb.a@ + k * $NR <= pb.hi@
@inv blk_rd::<$E>(g.m, pa.a@, k * $MR) && blk_rd::<$E>(g.m, pb.a@, k * $NR)
%for i in 0..$MR, j in 0..$NR: @inv ab_{i}_{j}.v@ == racc(g, {i}, {j}, $T)
@begin
proof {
%for i in 0..$MR, j in 0..$NR: l_racc_st(g, {i}, {j}, $TB, $MR, $NR);
%if rel
%for i in 0..$MR, j in 0..$NR: l_racc_st(g, {i}, {j}, $TB + 1, $MR, $NR);
%for i in 0..$MR, j in 0..$NR: l_racc_st(g, {i}, {j}, $TB + 2, $MR, $NR);
%for i in 0..$MR, j in 0..$NR: l_racc_st(g, {i}, {j}, $TB + 3, $MR, $NR);
%endif
}
%endblock
%block FALLBACK
@attr #[verifier::rlimit(60)]
@props $ALLP
@req ker_req::<$E>($MR, $NR, 0, true, old(mem).v@, k as int, a, b, beta.cv(), c, rsc as int, csc as int)
@ens ker_ens::<$E>($MR, $NR, old(mem).v@, final(mem).v@, k as int, alpha.cv(), a, b, beta.cv(), c, rsc as int, csc as int)
@start
hide(minj);
hide(mwr);
hide(mrd);
hide(in_mat);
hide(put);
hide(racc);
hide(upd_mat);
hide(is_res);
let ghost g = KA { m: mem.v@, k: k as int, al: alpha.cv(), a: a.a@, mr: $MR, b: b.a@, nr: $NR, be: beta.cv(), c: c.a@, rs: rsc as int, cs: csc as int };
let ghost (pa, pb) = (a, b);
let ghost mut w: ISet<int> = ISet::empty();
proof {
    l_kst0::<$E>(g);
%for i in 0..$MR, j in 0..$NR: l_kposr::<$E>(g, c, {i}, {j}, alpha.v@, beta.v@);
}
%if dbg nt ns
@loop for _
%def T=${it} as int
%def TI=${it} <= n___end && n___end == k
%def TB=${it} - 1
%use FBLOOP
%endif
%if rel
@loop while#1
%def T=4 * _index__h1
%def TB=4 * _index__h1
%def TI=_index__h1 <= _target__h1 && _target__h1 == k / 4
%use FBLOOP
@dec _target__h1 - _index__h1
@loop while#2
%def T=4 * (k / 4) + _index__h1
%def TB=4 * (k / 4) + _index__h1
%def TI=_index__h1 <= _target__h1 && _target__h1 == k % 4
%use FBLOOP
%if rel
@dec _target__h1 - _index__h1
%endif
%endif
@oncall wr_
proof { l_kst_put::<$E>(g, mw_, w, a0_.a@, a1_.cv()); w = w.insert(kslot(g, a0_.a@)); }
@fnend
proof { l_kst_end::<$E>(g, mem.v@, w); }
%endblock
@fn dgemm_kernel::kernel_fallback_impl
%def E=F64
%def MR=4
%def NR=4
%use FALLBACK
@fn sgemm_kernel::kernel_fallback_impl
%def E=F32
%def MR=8
%def NR=4
%use FALLBACK
@trait x86::DMultiplyAdd
@specval fu_s=IS_FUSED:bool
@spec
    spec fn feat_ma(c: Cpu) -> bool;
@fn x86::DMultiplyAdd::IS_FUSED
@pure
@props C01
@ens r == Self::fu_s()
@fn x86::DMultiplyAdd::multiply_add
@props C01 C11
@req[C11] Self::feat_ma(old(mem).v@.cpu)
@ens final(mem).v@ == old(mem).v@
%for i in 0..4: @ens r.v{i}@ == radd(c.v{i}@, rmul(a.v{i}@, b.v{i}@))
@trait x86::SMultiplyAdd
@specval fu_s=IS_FUSED:bool
@spec
    spec fn feat_ma(c: Cpu) -> bool;
@fn x86::SMultiplyAdd::IS_FUSED
@pure
@props C01
@ens r == Self::fu_s()
@fn x86::SMultiplyAdd::multiply_add
@props C01 C11
@req[C11] Self::feat_ma(old(mem).v@.cpu)
@ens final(mem).v@ == old(mem).v@
%for i in 0..8: @ens r.v{i}@ == radd(c.v{i}@, rmul(a.v{i}@, b.v{i}@))
@fn x86::AvxMulAdd::multiply_add x86::FusedMulAdd::multiply_add
@start
proof { broadcast use b_radd_c; }
@struct x86::AvxMulAdd
@struct x86::FusedMulAdd
%block MAIMPL
@spec
    open spec fn feat_ma(c: Cpu) -> bool { $FEAT }
%endblock
%def FEAT=has_avx(c)
@impl x86::AvxMulAdd as DMultiplyAdd
%use MAIMPL
@impl x86::AvxMulAdd as SMultiplyAdd
%use MAIMPL
%def FEAT=c.fma
@impl x86::FusedMulAdd as DMultiplyAdd
%use MAIMPL
@impl x86::FusedMulAdd as SMultiplyAdd
%use MAIMPL

%block AVXD
@inv $TI && mem.v@ == g.m && g.m.rsz == F64::rsz() && pa.wf() && pb.wf() && a == pa.at(pa.a@ + 8 * ($T)) && b == pb.at(pb.a@ + 4 * ($T))
@inv g.mr == 8 && g.nr == 4 && g.a == pa.a@ && g.b == pb.a@ && pa.a@ + k * 8 <= pa.hi@ && pb.a@ + k * 4 <= pb.hi@ && k > 0
@inv has_avx(g.m.cpu) && MA::feat_ma(g.m.cpu) && pa.a@ % 4 == 0 && pb.a@ % 4 == 0
@inv blk_rd::<F64>(g.m, pa.a@, k * 8) && blk_rd::<F64>(g.m, pb.a@, k * 4)
%for l in 0..4: @inv a_0123.v{l}@ == g.m.val[a.a@ + {l}] && a_4567.v{l}@ == g.m.val[a.a@ + 4 + {l}] && b_0123.v{l}@ == g.m.val[b.a@ + {l}]
@inv ab_0.v0@ == racc(g, 0, 0, $T) && ab_0.v1@ == racc(g, 1, 1, $T) && ab_0.v2@ == racc(g, 2, 2, $T) && ab_0.v3@ == racc(g, 3, 3, $T)
@inv ab_1.v0@ == racc(g, 0, 1, $T) && ab_1.v1@ == racc(g, 1, 0, $T) && ab_1.v2@ == racc(g, 2, 3, $T) && ab_1.v3@ == racc(g, 3, 2, $T)
@inv ab_2.v0@ == racc(g, 0, 2, $T) && ab_2.v1@ == racc(g, 1, 3, $T) && ab_2.v2@ == racc(g, 2, 0, $T) && ab_2.v3@ == racc(g, 3, 1, $T)
@inv ab_3.v0@ == racc(g, 0, 3, $T) && ab_3.v1@ == racc(g, 1, 2, $T) && ab_3.v2@ == racc(g, 2, 1, $T) && ab_3.v3@ == racc(g, 3, 0, $T)
@inv ab_4.v0@ == racc(g, 4, 0, $T) && ab_4.v1@ == racc(g, 5, 1, $T) && ab_4.v2@ == racc(g, 6, 2, $T) && ab_4.v3@ == racc(g, 7, 3, $T)
@inv ab_5.v0@ == racc(g, 4, 1, $T) && ab_5.v1@ == racc(g, 5, 0, $T) && ab_5.v2@ == racc(g, 6, 3, $T) && ab_5.v3@ == racc(g, 7, 2, $T)
@inv ab_6.v0@ == racc(g, 4, 2, $T) && ab_6.v1@ == racc(g, 5, 3, $T) && ab_6.v2@ == racc(g, 6, 0, $T) && ab_6.v3@ == racc(g, 7, 1, $T)
@inv ab_7.v0@ == racc(g, 4, 3, $T) && ab_7.v1@ == racc(g, 5, 2, $T) && ab_7.v2@ == racc(g, 6, 1, $T) && ab_7.v3@ == racc(g, 7, 0, $T)
@begin
proof {
%for i in 0..8, j in 0..4: l_racc_st(g, {i}, {j}, $TB, 8, 4);
%if rel
%for i in 0..8, j in 0..4: l_racc_st(g, {i}, {j}, ($TB) + 1, 8, 4);
%for i in 0..8, j in 0..4: l_racc_st(g, {i}, {j}, $TB + 2, 8, 4);
%for i in 0..8, j in 0..4: l_racc_st(g, {i}, {j}, $TB + 3, 8, 4);
%endif
}
%endblock
@fn dgemm_kernel::kernel_x86_avx
@attr #[verifier::rlimit(3000)]
%if rel
@props $AVXP
%endif
%if dbg nt ns
@props $ALLP
%endif
@req[C11] MA::feat_ma(old(mem).v@.cpu) && has_avx(old(mem).v@.cpu)
@req ker_req::<F64>(8, 4, 32, false, old(mem).v@, k as int, a, b, beta.cv(), c, rsc as int, csc as int)
@ens ker_ens::<F64>(8, 4, old(mem).v@, final(mem).v@, k as int, alpha.cv(), a, b, beta.cv(), c, rsc as int, csc as int)
@start
hide(minj);
hide(mwr);
hide(mrd);
hide(in_mat);
hide(put);
hide(racc);

hide(upd_mat);
hide(is_res);
let ghost g = KA { m: mem.v@, k: k as int, al: alpha.cv(), a: a.a@, mr: 8, b: b.a@, nr: 4, be: beta.cv(), c: c.a@, rs: rsc as int, cs: csc as int };
let ghost (pa, pb) = (a, b);
let ghost mut w: ISet<int> = ISet::empty();
proof {
    l_kst0::<F64>(g); l_al64(a.a@); l_al64(b.a@);
%for i in 0..8, j in 0..4: l_racc_st(g, {i}, {j}, k - 1, 8, 4);
%for i in 0..8, j in 0..4: l_kwantr::<F64>(g, {i}, {j}, alpha.v@, beta.v@);
%for i in 0..8, j in 0..4: l_kbnd::<F64>(g.m, c, 8, 4, rsc as int, csc as int, {i}, {j});
    l_kstr(g);
}
%if dbg nt ns
@loop for _
%def T=${it} as int
%def TI=${it} <= n___end && n___end == k - 1
%def TB=${it} - 1
%use AVXD
%endif
%if rel
@loop for _#1
%def T=4 * (${it} as int)
%def TB=4 * (${it} - 1)
%def TI=${it} <= n___end && n___end == (k - 1) / 4
%use AVXD
@loop for _#2
%def T=4 * ((k - 1) / 4) + ${it}
%def TB=4 * ((k - 1) / 4) + ${it} - 1
%def TI=${it} <= n___end && n___end == (k - 1) % 4
%use AVXD
%endif
%def IJ=$[${n}<8 ? 4*(${n}/4)+0 : ${n}-8], $[${n}<8 ? ${n}%4 : 0], $[${n}<8 ? 4*(${n}/4)+1 : ${n}-8], $[${n}<8 ? ${n}%4 : 1], $[${n}<8 ? 4*(${n}/4)+2 : ${n}-8], $[${n}<8 ? ${n}%4 : 2], $[${n}<8 ? 4*(${n}/4)+3 : ${n}-8], $[${n}<8 ? ${n}%4 : 3]
%def SS=$[${n}<8 ? 8*(4*(${n}/4)+0)+${n}%4 : 8*(${n}-8)+0], $[${n}<8 ? 8*(4*(${n}/4)+1)+${n}%4 : 8*(${n}-8)+1], $[${n}<8 ? 8*(4*(${n}/4)+2)+${n}%4 : 8*(${n}-8)+2], $[${n}<8 ? 8*(4*(${n}/4)+3)+${n}%4 : 8*(${n}-8)+3]
@precall _mm256_loadu_pd_
proof { l_kpre4::<F64>(g, c, a0_.a@, $IJ); }
@precall _mm256_storeu_pd_
proof { l_kpre4::<F64>(g, c, a0_.a@, $IJ); }
@oncall _mm256_storeu_pd_
proof { w = l_kput4::<F64>(g, mw_, w, a0_.a@, a1_.v0@, a1_.v1@, a1_.v2@, a1_.v3@, $IJ, $SS); }
@precall rd_
proof { l_kcel(g, $[4*(${n}/16)+${n}%4], $[${n}/4%4]); }
%def IS=$[2*(${n}%4)+0], $[${n}/4], $[8*(2*(${n}%4)+0)+${n}/4]
@oncall _mm_storel_pd_
proof { l_kput::<F64>(g, mw_, w, a0_.a@, emb(a1_.v0@), $IS); w = w.insert($[8*(2*(${n}%4)+0)+${n}/4] as int); }
%def IS=$[2*(${n}%4)+1], $[${n}/4]
%def IS=$[2*(${n}%4)+1], $[${n}/4], $[8*(2*(${n}%4)+1)+${n}/4]
@oncall _mm_storeh_pd_
proof { l_kput::<F64>(g, mw_, w, a0_.a@, emb(a1_.v1@), $IS); w = w.insert($[8*(2*(${n}%4)+1)+${n}/4] as int); }
@fnend
proof { l_kst_end84::<F64>(g, mem.v@, w); }
@at? after let alphav
proof {
    assert(csc == 1 ==> ab_0.v0@ == racc(g, 0, 0, g.k) && ab_0.v1@ == racc(g, 0, 1, g.k) && ab_0.v2@ == racc(g, 0, 2, g.k) && ab_0.v3@ == racc(g, 0, 3, g.k));
    assert(csc != 1 ==> ab_0.v0@ == racc(g, 0, 0, g.k) && ab_0.v1@ == racc(g, 1, 0, g.k) && ab_0.v2@ == racc(g, 2, 0, g.k) && ab_0.v3@ == racc(g, 3, 0, g.k));
    assert(csc == 1 ==> ab_1.v0@ == racc(g, 1, 0, g.k) && ab_1.v1@ == racc(g, 1, 1, g.k) && ab_1.v2@ == racc(g, 1, 2, g.k) && ab_1.v3@ == racc(g, 1, 3, g.k));
    assert(csc != 1 ==> ab_1.v0@ == racc(g, 0, 1, g.k) && ab_1.v1@ == racc(g, 1, 1, g.k) && ab_1.v2@ == racc(g, 2, 1, g.k) && ab_1.v3@ == racc(g, 3, 1, g.k));
    assert(csc == 1 ==> ab_2.v0@ == racc(g, 2, 0, g.k) && ab_2.v1@ == racc(g, 2, 1, g.k) && ab_2.v2@ == racc(g, 2, 2, g.k) && ab_2.v3@ == racc(g, 2, 3, g.k));
    assert(csc != 1 ==> ab_2.v0@ == racc(g, 0, 2, g.k) && ab_2.v1@ == racc(g, 1, 2, g.k) && ab_2.v2@ == racc(g, 2, 2, g.k) && ab_2.v3@ == racc(g, 3, 2, g.k));
    assert(csc == 1 ==> ab_3.v0@ == racc(g, 3, 0, g.k) && ab_3.v1@ == racc(g, 3, 1, g.k) && ab_3.v2@ == racc(g, 3, 2, g.k) && ab_3.v3@ == racc(g, 3, 3, g.k));
    assert(csc != 1 ==> ab_3.v0@ == racc(g, 0, 3, g.k) && ab_3.v1@ == racc(g, 1, 3, g.k) && ab_3.v2@ == racc(g, 2, 3, g.k) && ab_3.v3@ == racc(g, 3, 3, g.k));
    assert(csc == 1 ==> ab_4.v0@ == racc(g, 4, 0, g.k) && ab_4.v1@ == racc(g, 4, 1, g.k) && ab_4.v2@ == racc(g, 4, 2, g.k) && ab_4.v3@ == racc(g, 4, 3, g.k));
    assert(csc != 1 ==> ab_4.v0@ == racc(g, 4, 0, g.k) && ab_4.v1@ == racc(g, 5, 0, g.k) && ab_4.v2@ == racc(g, 6, 0, g.k) && ab_4.v3@ == racc(g, 7, 0, g.k));
    assert(csc == 1 ==> ab_5.v0@ == racc(g, 5, 0, g.k) && ab_5.v1@ == racc(g, 5, 1, g.k) && ab_5.v2@ == racc(g, 5, 2, g.k) && ab_5.v3@ == racc(g, 5, 3, g.k));
    assert(csc != 1 ==> ab_5.v0@ == racc(g, 4, 1, g.k) && ab_5.v1@ == racc(g, 5, 1, g.k) && ab_5.v2@ == racc(g, 6, 1, g.k) && ab_5.v3@ == racc(g, 7, 1, g.k));
    assert(csc == 1 ==> ab_6.v0@ == racc(g, 6, 0, g.k) && ab_6.v1@ == racc(g, 6, 1, g.k) && ab_6.v2@ == racc(g, 6, 2, g.k) && ab_6.v3@ == racc(g, 6, 3, g.k));
    assert(csc != 1 ==> ab_6.v0@ == racc(g, 4, 2, g.k) && ab_6.v1@ == racc(g, 5, 2, g.k) && ab_6.v2@ == racc(g, 6, 2, g.k) && ab_6.v3@ == racc(g, 7, 2, g.k));
    assert(csc == 1 ==> ab_7.v0@ == racc(g, 7, 0, g.k) && ab_7.v1@ == racc(g, 7, 1, g.k) && ab_7.v2@ == racc(g, 7, 2, g.k) && ab_7.v3@ == racc(g, 7, 3, g.k));
    assert(csc != 1 ==> ab_7.v0@ == racc(g, 4, 3, g.k) && ab_7.v1@ == racc(g, 5, 3, g.k) && ab_7.v2@ == racc(g, 6, 3, g.k) && ab_7.v3@ == racc(g, 7, 3, g.k));
}

@loop stage before if#6
@invx k > 0 && g == (KA { m: g.m, k: k as int, al: alpha.cv(), a: pa.a@, mr: 8, b: pb.a@, nr: 4, be: beta.cv(), c: c.a@, rs: rsc as int, cs: csc as int })
@invx mwr::<F64>(g.m, c, 8, 4, rsc as int, csc as int) && minj(g.c, 8, 4, g.rs, g.cs) && c.wf() && has_avx(g.m.cpu) && !(g.rs == 1 && g.cs == 1)
@invx mem.v@ == g.m && kst::<F64>(g, mem.v@, w)
@invx csc == 1 ==> emb(cv_0.v0@) == kwant::<F64>(g, 0, 0) && emb(cv_0.v1@) == kwant::<F64>(g, 0, 1) && emb(cv_0.v2@) == kwant::<F64>(g, 0, 2) && emb(cv_0.v3@) == kwant::<F64>(g, 0, 3)
@invx csc != 1 ==> emb(cv_0.v0@) == kwant::<F64>(g, 0, 0) && emb(cv_0.v1@) == kwant::<F64>(g, 1, 0) && emb(cv_0.v2@) == kwant::<F64>(g, 2, 0) && emb(cv_0.v3@) == kwant::<F64>(g, 3, 0)
@invx csc == 1 ==> emb(cv_1.v0@) == kwant::<F64>(g, 1, 0) && emb(cv_1.v1@) == kwant::<F64>(g, 1, 1) && emb(cv_1.v2@) == kwant::<F64>(g, 1, 2) && emb(cv_1.v3@) == kwant::<F64>(g, 1, 3)
@invx csc != 1 ==> emb(cv_1.v0@) == kwant::<F64>(g, 0, 1) && emb(cv_1.v1@) == kwant::<F64>(g, 1, 1) && emb(cv_1.v2@) == kwant::<F64>(g, 2, 1) && emb(cv_1.v3@) == kwant::<F64>(g, 3, 1)
@invx csc == 1 ==> emb(cv_2.v0@) == kwant::<F64>(g, 2, 0) && emb(cv_2.v1@) == kwant::<F64>(g, 2, 1) && emb(cv_2.v2@) == kwant::<F64>(g, 2, 2) && emb(cv_2.v3@) == kwant::<F64>(g, 2, 3)
@invx csc != 1 ==> emb(cv_2.v0@) == kwant::<F64>(g, 0, 2) && emb(cv_2.v1@) == kwant::<F64>(g, 1, 2) && emb(cv_2.v2@) == kwant::<F64>(g, 2, 2) && emb(cv_2.v3@) == kwant::<F64>(g, 3, 2)
@invx csc == 1 ==> emb(cv_3.v0@) == kwant::<F64>(g, 3, 0) && emb(cv_3.v1@) == kwant::<F64>(g, 3, 1) && emb(cv_3.v2@) == kwant::<F64>(g, 3, 2) && emb(cv_3.v3@) == kwant::<F64>(g, 3, 3)
@invx csc != 1 ==> emb(cv_3.v0@) == kwant::<F64>(g, 0, 3) && emb(cv_3.v1@) == kwant::<F64>(g, 1, 3) && emb(cv_3.v2@) == kwant::<F64>(g, 2, 3) && emb(cv_3.v3@) == kwant::<F64>(g, 3, 3)
@invx csc == 1 ==> emb(cv_4.v0@) == kwant::<F64>(g, 4, 0) && emb(cv_4.v1@) == kwant::<F64>(g, 4, 1) && emb(cv_4.v2@) == kwant::<F64>(g, 4, 2) && emb(cv_4.v3@) == kwant::<F64>(g, 4, 3)
@invx csc != 1 ==> emb(cv_4.v0@) == kwant::<F64>(g, 4, 0) && emb(cv_4.v1@) == kwant::<F64>(g, 5, 0) && emb(cv_4.v2@) == kwant::<F64>(g, 6, 0) && emb(cv_4.v3@) == kwant::<F64>(g, 7, 0)
@invx csc == 1 ==> emb(cv_5.v0@) == kwant::<F64>(g, 5, 0) && emb(cv_5.v1@) == kwant::<F64>(g, 5, 1) && emb(cv_5.v2@) == kwant::<F64>(g, 5, 2) && emb(cv_5.v3@) == kwant::<F64>(g, 5, 3)
@invx csc != 1 ==> emb(cv_5.v0@) == kwant::<F64>(g, 4, 1) && emb(cv_5.v1@) == kwant::<F64>(g, 5, 1) && emb(cv_5.v2@) == kwant::<F64>(g, 6, 1) && emb(cv_5.v3@) == kwant::<F64>(g, 7, 1)
@invx csc == 1 ==> emb(cv_6.v0@) == kwant::<F64>(g, 6, 0) && emb(cv_6.v1@) == kwant::<F64>(g, 6, 1) && emb(cv_6.v2@) == kwant::<F64>(g, 6, 2) && emb(cv_6.v3@) == kwant::<F64>(g, 6, 3)
@invx csc != 1 ==> emb(cv_6.v0@) == kwant::<F64>(g, 4, 2) && emb(cv_6.v1@) == kwant::<F64>(g, 5, 2) && emb(cv_6.v2@) == kwant::<F64>(g, 6, 2) && emb(cv_6.v3@) == kwant::<F64>(g, 7, 2)
@invx csc == 1 ==> emb(cv_7.v0@) == kwant::<F64>(g, 7, 0) && emb(cv_7.v1@) == kwant::<F64>(g, 7, 1) && emb(cv_7.v2@) == kwant::<F64>(g, 7, 2) && emb(cv_7.v3@) == kwant::<F64>(g, 7, 3)
@invx csc != 1 ==> emb(cv_7.v0@) == kwant::<F64>(g, 4, 3) && emb(cv_7.v1@) == kwant::<F64>(g, 5, 3) && emb(cv_7.v2@) == kwant::<F64>(g, 6, 3) && emb(cv_7.v3@) == kwant::<F64>(g, 7, 3)
@lens kst::<F64>(g, mem.v@, w)
@lens w.contains(0) && w.contains(1) && w.contains(2) && w.contains(3)
@lens w.contains(8) && w.contains(9) && w.contains(10) && w.contains(11)
@lens w.contains(16) && w.contains(17) && w.contains(18) && w.contains(19)
@lens w.contains(24) && w.contains(25) && w.contains(26) && w.contains(27)
@lens w.contains(32) && w.contains(33) && w.contains(34) && w.contains(35)
@lens w.contains(40) && w.contains(41) && w.contains(42) && w.contains(43)
@lens w.contains(48) && w.contains(49) && w.contains(50) && w.contains(51)
@lens w.contains(56) && w.contains(57) && w.contains(58) && w.contains(59)
@begin
proof {
%for i in 0..8, j in 0..4: l_kbnd::<F64>(g.m, c, 8, 4, rsc as int, csc as int, {i}, {j});
}

%block AVXS
@inv $TI && mem.v@ == g.m && g.m.rsz == F32::rsz() && pa.wf() && pb.wf() && a == pa.at(pa.a@ + 8 * ($T)) && b == pb.at(pb.a@ + 8 * ($T))
@inv g.mr == 8 && g.nr == 8 && g.a == pa.a@ && g.b == pb.a@ && pa.a@ + k * 8 <= pa.hi@ && pb.a@ + k * 8 <= pb.hi@ && k > 0
@inv has_avx(g.m.cpu) && MA::feat_ma(g.m.cpu) && pa.a@ % 8 == 0 && pb.a@ % 8 == 0
@inv blk_rd::<F32>(g.m, pa.a@, k * 8) && blk_rd::<F32>(g.m, pb.a@, k * 8)
%for l in 0..8: @inv av.v{l}@ == g.m.val[a.a@ + {l}] && bv.v{l}@ == g.m.val[b.a@ + {l}]
@inv ab_0.v0@ == racc(g, 0, 0, $T) && ab_0.v1@ == racc(g, 0, 1, $T) && ab_0.v2@ == racc(g, 2, 2, $T) && ab_0.v3@ == racc(g, 2, 3, $T) && ab_0.v4@ == racc(g, 4, 4, $T) && ab_0.v5@ == racc(g, 4, 5, $T) && ab_0.v6@ == racc(g, 6, 6, $T) && ab_0.v7@ == racc(g, 6, 7, $T)
@inv ab_1.v0@ == racc(g, 2, 0, $T) && ab_1.v1@ == racc(g, 2, 1, $T) && ab_1.v2@ == racc(g, 0, 2, $T) && ab_1.v3@ == racc(g, 0, 3, $T) && ab_1.v4@ == racc(g, 6, 4, $T) && ab_1.v5@ == racc(g, 6, 5, $T) && ab_1.v6@ == racc(g, 4, 6, $T) && ab_1.v7@ == racc(g, 4, 7, $T)
@inv ab_2.v0@ == racc(g, 4, 0, $T) && ab_2.v1@ == racc(g, 4, 1, $T) && ab_2.v2@ == racc(g, 6, 2, $T) && ab_2.v3@ == racc(g, 6, 3, $T) && ab_2.v4@ == racc(g, 0, 4, $T) && ab_2.v5@ == racc(g, 0, 5, $T) && ab_2.v6@ == racc(g, 2, 6, $T) && ab_2.v7@ == racc(g, 2, 7, $T)
@inv ab_3.v0@ == racc(g, 6, 0, $T) && ab_3.v1@ == racc(g, 6, 1, $T) && ab_3.v2@ == racc(g, 4, 2, $T) && ab_3.v3@ == racc(g, 4, 3, $T) && ab_3.v4@ == racc(g, 2, 4, $T) && ab_3.v5@ == racc(g, 2, 5, $T) && ab_3.v6@ == racc(g, 0, 6, $T) && ab_3.v7@ == racc(g, 0, 7, $T)
@inv ab_4.v0@ == racc(g, 1, 0, $T) && ab_4.v1@ == racc(g, 1, 1, $T) && ab_4.v2@ == racc(g, 3, 2, $T) && ab_4.v3@ == racc(g, 3, 3, $T) && ab_4.v4@ == racc(g, 5, 4, $T) && ab_4.v5@ == racc(g, 5, 5, $T) && ab_4.v6@ == racc(g, 7, 6, $T) && ab_4.v7@ == racc(g, 7, 7, $T)
@inv ab_5.v0@ == racc(g, 3, 0, $T) && ab_5.v1@ == racc(g, 3, 1, $T) && ab_5.v2@ == racc(g, 1, 2, $T) && ab_5.v3@ == racc(g, 1, 3, $T) && ab_5.v4@ == racc(g, 7, 4, $T) && ab_5.v5@ == racc(g, 7, 5, $T) && ab_5.v6@ == racc(g, 5, 6, $T) && ab_5.v7@ == racc(g, 5, 7, $T)
@inv ab_6.v0@ == racc(g, 5, 0, $T) && ab_6.v1@ == racc(g, 5, 1, $T) && ab_6.v2@ == racc(g, 7, 2, $T) && ab_6.v3@ == racc(g, 7, 3, $T) && ab_6.v4@ == racc(g, 1, 4, $T) && ab_6.v5@ == racc(g, 1, 5, $T) && ab_6.v6@ == racc(g, 3, 6, $T) && ab_6.v7@ == racc(g, 3, 7, $T)
@inv ab_7.v0@ == racc(g, 7, 0, $T) && ab_7.v1@ == racc(g, 7, 1, $T) && ab_7.v2@ == racc(g, 5, 2, $T) && ab_7.v3@ == racc(g, 5, 3, $T) && ab_7.v4@ == racc(g, 3, 4, $T) && ab_7.v5@ == racc(g, 3, 5, $T) && ab_7.v6@ == racc(g, 1, 6, $T) && ab_7.v7@ == racc(g, 1, 7, $T)
@begin
proof {
%for i in 0..8, j in 0..8: l_racc_st(g, {i}, {j}, $TB, 8, 8);
%if rel
%for i in 0..8, j in 0..8: l_racc_st(g, {i}, {j}, ($TB) + 1, 8, 8);
%for i in 0..8, j in 0..8: l_racc_st(g, {i}, {j}, ($TB) + 2, 8, 8);
%for i in 0..8, j in 0..8: l_racc_st(g, {i}, {j}, ($TB) + 3, 8, 8);
%endif
}
%endblock
%block SCTX
@invx mem.v@ == g.m && k > 0 && g.k == k && g.al == alpha.cv() && g.be == beta.cv() && g.mr == 8 && g.nr == 8 && g.c == c.a@ && g.rs == rsc as int && g.cs == csc as int
@invx mwr::<F32>(g.m, c, 8, 8, rsc as int, csc as int) && minj(g.c, 8, 8, g.rs, g.cs) && c.wf() && has_avx(g.m.cpu) && MA::feat_ma(g.m.cpu) && kst::<F32>(g, g.m, w) && g.m.rsz == F32::rsz()
@invx !is0(g.be) ==> mrd::<F32>(g.m, c, 8, 8, rsc as int, csc as int)
@lens kst::<F32>(g, mem.v@, w)
%for r in 0..8: @lens w.contains($[8*{r}]) && w.contains($[8*{r}+1]) && w.contains($[8*{r}+2]) && w.contains($[8*{r}+3]) && w.contains($[8*{r}+4]) && w.contains($[8*{r}+5]) && w.contains($[8*{r}+6]) && w.contains($[8*{r}+7])
%endblock
@fn sgemm_kernel::kernel_x86_avx
@attr #[verifier::rlimit(3000)]
%if rel
@props $AVXP
%endif
%if dbg nt ns
@props $ALLP
%endif
@req[C11] MA::feat_ma(old(mem).v@.cpu) && has_avx(old(mem).v@.cpu)
@req ker_req::<F32>(8, 8, 32, false, old(mem).v@, k as int, a, b, beta.cv(), c, rsc as int, csc as int)
@ens ker_ens::<F32>(8, 8, old(mem).v@, final(mem).v@, k as int, alpha.cv(), a, b, beta.cv(), c, rsc as int, csc as int)
@start
hide(minj);
hide(mwr);
hide(mrd);
hide(in_mat);
hide(put);
hide(racc);
hide(upd_mat);
hide(is_res);
let ghost sw = rsc == 1;
let ghost g = if sw { KA { m: mem.v@, k: k as int, al: alpha.cv(), a: b.a@, mr: 8, b: a.a@, nr: 8, be: beta.cv(), c: c.a@, rs: csc as int, cs: rsc as int } } else { KA { m: mem.v@, k: k as int, al: alpha.cv(), a: a.a@, mr: 8, b: b.a@, nr: 8, be: beta.cv(), c: c.a@, rs: rsc as int, cs: csc as int } };
let ghost pa = if sw { b } else { a };
let ghost pb = if sw { a } else { b };
let ghost (a0, b0, r0, c0) = (a, b, rsc as int, csc as int);
let ghost mut w: ISet<int> = ISet::empty();
proof {
    if sw { l_ktr_req::<F32>(8, 8, g.m, c, r0, c0); }
    l_kst0::<F32>(g); l_al32(a.a@); l_al32(b.a@);
%for i in 0..8, j in 0..8: l_racc_st(g, {i}, {j}, k - 1, 8, 8);
%for i in 0..8, j in 0..8: l_kwantr::<F32>(g, {i}, {j}, alpha.v@, beta.v@);
}
%if dbg nt ns
@loop for _
%def T=${it} as int
%def TI=${it} <= n___end && n___end == k - 1
%def TB=${it} - 1
%use AVXS
%endif
%if rel
@loop for _#1
%def T=4 * (${it} as int)
%def TB=4 * (${it} - 1)
%def TI=${it} <= n___end && n___end == (k - 1) / 4
%use AVXS
@loop for _#2
%def T=4 * ((k - 1) / 4) + ${it}
%def TB=4 * ((k - 1) / 4) + ${it} - 1
%def TI=${it} <= n___end && n___end == (k - 1) % 4
%use AVXS
%endif
@loop stage before let alphav
%use SCTX
@invx ab_0.v0@ == racc(g, 0, 0, g.k) && ab_0.v1@ == racc(g, 0, 1, g.k) && ab_0.v2@ == racc(g, 2, 2, g.k) && ab_0.v3@ == racc(g, 2, 3, g.k) && ab_0.v4@ == racc(g, 4, 4, g.k) && ab_0.v5@ == racc(g, 4, 5, g.k) && ab_0.v6@ == racc(g, 6, 6, g.k) && ab_0.v7@ == racc(g, 6, 7, g.k)
@invx ab_1.v0@ == racc(g, 2, 0, g.k) && ab_1.v1@ == racc(g, 2, 1, g.k) && ab_1.v2@ == racc(g, 0, 2, g.k) && ab_1.v3@ == racc(g, 0, 3, g.k) && ab_1.v4@ == racc(g, 6, 4, g.k) && ab_1.v5@ == racc(g, 6, 5, g.k) && ab_1.v6@ == racc(g, 4, 6, g.k) && ab_1.v7@ == racc(g, 4, 7, g.k)
@invx ab_2.v0@ == racc(g, 4, 0, g.k) && ab_2.v1@ == racc(g, 4, 1, g.k) && ab_2.v2@ == racc(g, 6, 2, g.k) && ab_2.v3@ == racc(g, 6, 3, g.k) && ab_2.v4@ == racc(g, 0, 4, g.k) && ab_2.v5@ == racc(g, 0, 5, g.k) && ab_2.v6@ == racc(g, 2, 6, g.k) && ab_2.v7@ == racc(g, 2, 7, g.k)
@invx ab_3.v0@ == racc(g, 6, 0, g.k) && ab_3.v1@ == racc(g, 6, 1, g.k) && ab_3.v2@ == racc(g, 4, 2, g.k) && ab_3.v3@ == racc(g, 4, 3, g.k) && ab_3.v4@ == racc(g, 2, 4, g.k) && ab_3.v5@ == racc(g, 2, 5, g.k) && ab_3.v6@ == racc(g, 0, 6, g.k) && ab_3.v7@ == racc(g, 0, 7, g.k)
@invx ab_4.v0@ == racc(g, 1, 0, g.k) && ab_4.v1@ == racc(g, 1, 1, g.k) && ab_4.v2@ == racc(g, 3, 2, g.k) && ab_4.v3@ == racc(g, 3, 3, g.k) && ab_4.v4@ == racc(g, 5, 4, g.k) && ab_4.v5@ == racc(g, 5, 5, g.k) && ab_4.v6@ == racc(g, 7, 6, g.k) && ab_4.v7@ == racc(g, 7, 7, g.k)
@invx ab_5.v0@ == racc(g, 3, 0, g.k) && ab_5.v1@ == racc(g, 3, 1, g.k) && ab_5.v2@ == racc(g, 1, 2, g.k) && ab_5.v3@ == racc(g, 1, 3, g.k) && ab_5.v4@ == racc(g, 7, 4, g.k) && ab_5.v5@ == racc(g, 7, 5, g.k) && ab_5.v6@ == racc(g, 5, 6, g.k) && ab_5.v7@ == racc(g, 5, 7, g.k)
@invx ab_6.v0@ == racc(g, 5, 0, g.k) && ab_6.v1@ == racc(g, 5, 1, g.k) && ab_6.v2@ == racc(g, 7, 2, g.k) && ab_6.v3@ == racc(g, 7, 3, g.k) && ab_6.v4@ == racc(g, 1, 4, g.k) && ab_6.v5@ == racc(g, 1, 5, g.k) && ab_6.v6@ == racc(g, 3, 6, g.k) && ab_6.v7@ == racc(g, 3, 7, g.k)
@invx ab_7.v0@ == racc(g, 7, 0, g.k) && ab_7.v1@ == racc(g, 7, 1, g.k) && ab_7.v2@ == racc(g, 5, 2, g.k) && ab_7.v3@ == racc(g, 5, 3, g.k) && ab_7.v4@ == racc(g, 3, 4, g.k) && ab_7.v5@ == racc(g, 3, 5, g.k) && ab_7.v6@ == racc(g, 1, 6, g.k) && ab_7.v7@ == racc(g, 1, 7, g.k)
@loop stage before let cv_0
%use SCTX
%for l in 0..8: @invx alphav.v{l}@ == alpha.v@
@invx ab_0.v0@ == (if MA::fu_s() { racc(g, 0, 0, g.k) } else { rmul(alpha.v@, racc(g, 0, 0, g.k)) }) && ab_0.v1@ == (if MA::fu_s() { racc(g, 0, 1, g.k) } else { rmul(alpha.v@, racc(g, 0, 1, g.k)) }) && ab_0.v2@ == (if MA::fu_s() { racc(g, 0, 2, g.k) } else { rmul(alpha.v@, racc(g, 0, 2, g.k)) }) && ab_0.v3@ == (if MA::fu_s() { racc(g, 0, 3, g.k) } else { rmul(alpha.v@, racc(g, 0, 3, g.k)) }) && ab_0.v4@ == (if MA::fu_s() { racc(g, 0, 4, g.k) } else { rmul(alpha.v@, racc(g, 0, 4, g.k)) }) && ab_0.v5@ == (if MA::fu_s() { racc(g, 0, 5, g.k) } else { rmul(alpha.v@, racc(g, 0, 5, g.k)) }) && ab_0.v6@ == (if MA::fu_s() { racc(g, 0, 6, g.k) } else { rmul(alpha.v@, racc(g, 0, 6, g.k)) }) && ab_0.v7@ == (if MA::fu_s() { racc(g, 0, 7, g.k) } else { rmul(alpha.v@, racc(g, 0, 7, g.k)) })
@invx ab_1.v0@ == (if MA::fu_s() { racc(g, 1, 0, g.k) } else { rmul(alpha.v@, racc(g, 1, 0, g.k)) }) && ab_1.v1@ == (if MA::fu_s() { racc(g, 1, 1, g.k) } else { rmul(alpha.v@, racc(g, 1, 1, g.k)) }) && ab_1.v2@ == (if MA::fu_s() { racc(g, 1, 2, g.k) } else { rmul(alpha.v@, racc(g, 1, 2, g.k)) }) && ab_1.v3@ == (if MA::fu_s() { racc(g, 1, 3, g.k) } else { rmul(alpha.v@, racc(g, 1, 3, g.k)) }) && ab_1.v4@ == (if MA::fu_s() { racc(g, 1, 4, g.k) } else { rmul(alpha.v@, racc(g, 1, 4, g.k)) }) && ab_1.v5@ == (if MA::fu_s() { racc(g, 1, 5, g.k) } else { rmul(alpha.v@, racc(g, 1, 5, g.k)) }) && ab_1.v6@ == (if MA::fu_s() { racc(g, 1, 6, g.k) } else { rmul(alpha.v@, racc(g, 1, 6, g.k)) }) && ab_1.v7@ == (if MA::fu_s() { racc(g, 1, 7, g.k) } else { rmul(alpha.v@, racc(g, 1, 7, g.k)) })
@invx ab_2.v0@ == (if MA::fu_s() { racc(g, 2, 0, g.k) } else { rmul(alpha.v@, racc(g, 2, 0, g.k)) }) && ab_2.v1@ == (if MA::fu_s() { racc(g, 2, 1, g.k) } else { rmul(alpha.v@, racc(g, 2, 1, g.k)) }) && ab_2.v2@ == (if MA::fu_s() { racc(g, 2, 2, g.k) } else { rmul(alpha.v@, racc(g, 2, 2, g.k)) }) && ab_2.v3@ == (if MA::fu_s() { racc(g, 2, 3, g.k) } else { rmul(alpha.v@, racc(g, 2, 3, g.k)) }) && ab_2.v4@ == (if MA::fu_s() { racc(g, 2, 4, g.k) } else { rmul(alpha.v@, racc(g, 2, 4, g.k)) }) && ab_2.v5@ == (if MA::fu_s() { racc(g, 2, 5, g.k) } else { rmul(alpha.v@, racc(g, 2, 5, g.k)) }) && ab_2.v6@ == (if MA::fu_s() { racc(g, 2, 6, g.k) } else { rmul(alpha.v@, racc(g, 2, 6, g.k)) }) && ab_2.v7@ == (if MA::fu_s() { racc(g, 2, 7, g.k) } else { rmul(alpha.v@, racc(g, 2, 7, g.k)) })
@invx ab_3.v0@ == (if MA::fu_s() { racc(g, 3, 0, g.k) } else { rmul(alpha.v@, racc(g, 3, 0, g.k)) }) && ab_3.v1@ == (if MA::fu_s() { racc(g, 3, 1, g.k) } else { rmul(alpha.v@, racc(g, 3, 1, g.k)) }) && ab_3.v2@ == (if MA::fu_s() { racc(g, 3, 2, g.k) } else { rmul(alpha.v@, racc(g, 3, 2, g.k)) }) && ab_3.v3@ == (if MA::fu_s() { racc(g, 3, 3, g.k) } else { rmul(alpha.v@, racc(g, 3, 3, g.k)) }) && ab_3.v4@ == (if MA::fu_s() { racc(g, 3, 4, g.k) } else { rmul(alpha.v@, racc(g, 3, 4, g.k)) }) && ab_3.v5@ == (if MA::fu_s() { racc(g, 3, 5, g.k) } else { rmul(alpha.v@, racc(g, 3, 5, g.k)) }) && ab_3.v6@ == (if MA::fu_s() { racc(g, 3, 6, g.k) } else { rmul(alpha.v@, racc(g, 3, 6, g.k)) }) && ab_3.v7@ == (if MA::fu_s() { racc(g, 3, 7, g.k) } else { rmul(alpha.v@, racc(g, 3, 7, g.k)) })
@invx ab_4.v0@ == (if MA::fu_s() { racc(g, 4, 0, g.k) } else { rmul(alpha.v@, racc(g, 4, 0, g.k)) }) && ab_4.v1@ == (if MA::fu_s() { racc(g, 4, 1, g.k) } else { rmul(alpha.v@, racc(g, 4, 1, g.k)) }) && ab_4.v2@ == (if MA::fu_s() { racc(g, 4, 2, g.k) } else { rmul(alpha.v@, racc(g, 4, 2, g.k)) }) && ab_4.v3@ == (if MA::fu_s() { racc(g, 4, 3, g.k) } else { rmul(alpha.v@, racc(g, 4, 3, g.k)) }) && ab_4.v4@ == (if MA::fu_s() { racc(g, 4, 4, g.k) } else { rmul(alpha.v@, racc(g, 4, 4, g.k)) }) && ab_4.v5@ == (if MA::fu_s() { racc(g, 4, 5, g.k) } else { rmul(alpha.v@, racc(g, 4, 5, g.k)) }) && ab_4.v6@ == (if MA::fu_s() { racc(g, 4, 6, g.k) } else { rmul(alpha.v@, racc(g, 4, 6, g.k)) }) && ab_4.v7@ == (if MA::fu_s() { racc(g, 4, 7, g.k) } else { rmul(alpha.v@, racc(g, 4, 7, g.k)) })
@invx ab_5.v0@ == (if MA::fu_s() { racc(g, 5, 0, g.k) } else { rmul(alpha.v@, racc(g, 5, 0, g.k)) }) && ab_5.v1@ == (if MA::fu_s() { racc(g, 5, 1, g.k) } else { rmul(alpha.v@, racc(g, 5, 1, g.k)) }) && ab_5.v2@ == (if MA::fu_s() { racc(g, 5, 2, g.k) } else { rmul(alpha.v@, racc(g, 5, 2, g.k)) }) && ab_5.v3@ == (if MA::fu_s() { racc(g, 5, 3, g.k) } else { rmul(alpha.v@, racc(g, 5, 3, g.k)) }) && ab_5.v4@ == (if MA::fu_s() { racc(g, 5, 4, g.k) } else { rmul(alpha.v@, racc(g, 5, 4, g.k)) }) && ab_5.v5@ == (if MA::fu_s() { racc(g, 5, 5, g.k) } else { rmul(alpha.v@, racc(g, 5, 5, g.k)) }) && ab_5.v6@ == (if MA::fu_s() { racc(g, 5, 6, g.k) } else { rmul(alpha.v@, racc(g, 5, 6, g.k)) }) && ab_5.v7@ == (if MA::fu_s() { racc(g, 5, 7, g.k) } else { rmul(alpha.v@, racc(g, 5, 7, g.k)) })
@invx ab_6.v0@ == (if MA::fu_s() { racc(g, 6, 0, g.k) } else { rmul(alpha.v@, racc(g, 6, 0, g.k)) }) && ab_6.v1@ == (if MA::fu_s() { racc(g, 6, 1, g.k) } else { rmul(alpha.v@, racc(g, 6, 1, g.k)) }) && ab_6.v2@ == (if MA::fu_s() { racc(g, 6, 2, g.k) } else { rmul(alpha.v@, racc(g, 6, 2, g.k)) }) && ab_6.v3@ == (if MA::fu_s() { racc(g, 6, 3, g.k) } else { rmul(alpha.v@, racc(g, 6, 3, g.k)) }) && ab_6.v4@ == (if MA::fu_s() { racc(g, 6, 4, g.k) } else { rmul(alpha.v@, racc(g, 6, 4, g.k)) }) && ab_6.v5@ == (if MA::fu_s() { racc(g, 6, 5, g.k) } else { rmul(alpha.v@, racc(g, 6, 5, g.k)) }) && ab_6.v6@ == (if MA::fu_s() { racc(g, 6, 6, g.k) } else { rmul(alpha.v@, racc(g, 6, 6, g.k)) }) && ab_6.v7@ == (if MA::fu_s() { racc(g, 6, 7, g.k) } else { rmul(alpha.v@, racc(g, 6, 7, g.k)) })
@invx ab_7.v0@ == (if MA::fu_s() { racc(g, 7, 0, g.k) } else { rmul(alpha.v@, racc(g, 7, 0, g.k)) }) && ab_7.v1@ == (if MA::fu_s() { racc(g, 7, 1, g.k) } else { rmul(alpha.v@, racc(g, 7, 1, g.k)) }) && ab_7.v2@ == (if MA::fu_s() { racc(g, 7, 2, g.k) } else { rmul(alpha.v@, racc(g, 7, 2, g.k)) }) && ab_7.v3@ == (if MA::fu_s() { racc(g, 7, 3, g.k) } else { rmul(alpha.v@, racc(g, 7, 3, g.k)) }) && ab_7.v4@ == (if MA::fu_s() { racc(g, 7, 4, g.k) } else { rmul(alpha.v@, racc(g, 7, 4, g.k)) }) && ab_7.v5@ == (if MA::fu_s() { racc(g, 7, 5, g.k) } else { rmul(alpha.v@, racc(g, 7, 5, g.k)) }) && ab_7.v6@ == (if MA::fu_s() { racc(g, 7, 6, g.k) } else { rmul(alpha.v@, racc(g, 7, 6, g.k)) }) && ab_7.v7@ == (if MA::fu_s() { racc(g, 7, 7, g.k) } else { rmul(alpha.v@, racc(g, 7, 7, g.k)) })
@begin
proof {
%for i in 0..8, j in 0..8: l_kbnd::<F32>(g.m, c, 8, 8, rsc as int, csc as int, {i}, {j});
}
@loop stage before if#4
%use SCTX
%for l in 0..8: @invx alphav.v{l}@ == alpha.v@
@invx ab_0.v0@ == (if MA::fu_s() { racc(g, 0, 0, g.k) } else { rmul(alpha.v@, racc(g, 0, 0, g.k)) }) && ab_0.v1@ == (if MA::fu_s() { racc(g, 0, 1, g.k) } else { rmul(alpha.v@, racc(g, 0, 1, g.k)) }) && ab_0.v2@ == (if MA::fu_s() { racc(g, 0, 2, g.k) } else { rmul(alpha.v@, racc(g, 0, 2, g.k)) }) && ab_0.v3@ == (if MA::fu_s() { racc(g, 0, 3, g.k) } else { rmul(alpha.v@, racc(g, 0, 3, g.k)) }) && ab_0.v4@ == (if MA::fu_s() { racc(g, 0, 4, g.k) } else { rmul(alpha.v@, racc(g, 0, 4, g.k)) }) && ab_0.v5@ == (if MA::fu_s() { racc(g, 0, 5, g.k) } else { rmul(alpha.v@, racc(g, 0, 5, g.k)) }) && ab_0.v6@ == (if MA::fu_s() { racc(g, 0, 6, g.k) } else { rmul(alpha.v@, racc(g, 0, 6, g.k)) }) && ab_0.v7@ == (if MA::fu_s() { racc(g, 0, 7, g.k) } else { rmul(alpha.v@, racc(g, 0, 7, g.k)) })
@invx ris0(beta.v@) ==> cv_0.v0@ == rzero() && cv_0.v1@ == rzero() && cv_0.v2@ == rzero() && cv_0.v3@ == rzero() && cv_0.v4@ == rzero() && cv_0.v5@ == rzero() && cv_0.v6@ == rzero() && cv_0.v7@ == rzero()
@invx !ris0(beta.v@) ==> cv_0.v0@ == rmul(cel(g, 0, 0), beta.v@) && cv_0.v1@ == rmul(cel(g, 0, 1), beta.v@) && cv_0.v2@ == rmul(cel(g, 0, 2), beta.v@) && cv_0.v3@ == rmul(cel(g, 0, 3), beta.v@) && cv_0.v4@ == rmul(cel(g, 0, 4), beta.v@) && cv_0.v5@ == rmul(cel(g, 0, 5), beta.v@) && cv_0.v6@ == rmul(cel(g, 0, 6), beta.v@) && cv_0.v7@ == rmul(cel(g, 0, 7), beta.v@)
@invx ab_1.v0@ == (if MA::fu_s() { racc(g, 1, 0, g.k) } else { rmul(alpha.v@, racc(g, 1, 0, g.k)) }) && ab_1.v1@ == (if MA::fu_s() { racc(g, 1, 1, g.k) } else { rmul(alpha.v@, racc(g, 1, 1, g.k)) }) && ab_1.v2@ == (if MA::fu_s() { racc(g, 1, 2, g.k) } else { rmul(alpha.v@, racc(g, 1, 2, g.k)) }) && ab_1.v3@ == (if MA::fu_s() { racc(g, 1, 3, g.k) } else { rmul(alpha.v@, racc(g, 1, 3, g.k)) }) && ab_1.v4@ == (if MA::fu_s() { racc(g, 1, 4, g.k) } else { rmul(alpha.v@, racc(g, 1, 4, g.k)) }) && ab_1.v5@ == (if MA::fu_s() { racc(g, 1, 5, g.k) } else { rmul(alpha.v@, racc(g, 1, 5, g.k)) }) && ab_1.v6@ == (if MA::fu_s() { racc(g, 1, 6, g.k) } else { rmul(alpha.v@, racc(g, 1, 6, g.k)) }) && ab_1.v7@ == (if MA::fu_s() { racc(g, 1, 7, g.k) } else { rmul(alpha.v@, racc(g, 1, 7, g.k)) })
@invx ris0(beta.v@) ==> cv_1.v0@ == rzero() && cv_1.v1@ == rzero() && cv_1.v2@ == rzero() && cv_1.v3@ == rzero() && cv_1.v4@ == rzero() && cv_1.v5@ == rzero() && cv_1.v6@ == rzero() && cv_1.v7@ == rzero()
@invx !ris0(beta.v@) ==> cv_1.v0@ == rmul(cel(g, 1, 0), beta.v@) && cv_1.v1@ == rmul(cel(g, 1, 1), beta.v@) && cv_1.v2@ == rmul(cel(g, 1, 2), beta.v@) && cv_1.v3@ == rmul(cel(g, 1, 3), beta.v@) && cv_1.v4@ == rmul(cel(g, 1, 4), beta.v@) && cv_1.v5@ == rmul(cel(g, 1, 5), beta.v@) && cv_1.v6@ == rmul(cel(g, 1, 6), beta.v@) && cv_1.v7@ == rmul(cel(g, 1, 7), beta.v@)
@invx ab_2.v0@ == (if MA::fu_s() { racc(g, 2, 0, g.k) } else { rmul(alpha.v@, racc(g, 2, 0, g.k)) }) && ab_2.v1@ == (if MA::fu_s() { racc(g, 2, 1, g.k) } else { rmul(alpha.v@, racc(g, 2, 1, g.k)) }) && ab_2.v2@ == (if MA::fu_s() { racc(g, 2, 2, g.k) } else { rmul(alpha.v@, racc(g, 2, 2, g.k)) }) && ab_2.v3@ == (if MA::fu_s() { racc(g, 2, 3, g.k) } else { rmul(alpha.v@, racc(g, 2, 3, g.k)) }) && ab_2.v4@ == (if MA::fu_s() { racc(g, 2, 4, g.k) } else { rmul(alpha.v@, racc(g, 2, 4, g.k)) }) && ab_2.v5@ == (if MA::fu_s() { racc(g, 2, 5, g.k) } else { rmul(alpha.v@, racc(g, 2, 5, g.k)) }) && ab_2.v6@ == (if MA::fu_s() { racc(g, 2, 6, g.k) } else { rmul(alpha.v@, racc(g, 2, 6, g.k)) }) && ab_2.v7@ == (if MA::fu_s() { racc(g, 2, 7, g.k) } else { rmul(alpha.v@, racc(g, 2, 7, g.k)) })
@invx ris0(beta.v@) ==> cv_2.v0@ == rzero() && cv_2.v1@ == rzero() && cv_2.v2@ == rzero() && cv_2.v3@ == rzero() && cv_2.v4@ == rzero() && cv_2.v5@ == rzero() && cv_2.v6@ == rzero() && cv_2.v7@ == rzero()
@invx !ris0(beta.v@) ==> cv_2.v0@ == rmul(cel(g, 2, 0), beta.v@) && cv_2.v1@ == rmul(cel(g, 2, 1), beta.v@) && cv_2.v2@ == rmul(cel(g, 2, 2), beta.v@) && cv_2.v3@ == rmul(cel(g, 2, 3), beta.v@) && cv_2.v4@ == rmul(cel(g, 2, 4), beta.v@) && cv_2.v5@ == rmul(cel(g, 2, 5), beta.v@) && cv_2.v6@ == rmul(cel(g, 2, 6), beta.v@) && cv_2.v7@ == rmul(cel(g, 2, 7), beta.v@)
@invx ab_3.v0@ == (if MA::fu_s() { racc(g, 3, 0, g.k) } else { rmul(alpha.v@, racc(g, 3, 0, g.k)) }) && ab_3.v1@ == (if MA::fu_s() { racc(g, 3, 1, g.k) } else { rmul(alpha.v@, racc(g, 3, 1, g.k)) }) && ab_3.v2@ == (if MA::fu_s() { racc(g, 3, 2, g.k) } else { rmul(alpha.v@, racc(g, 3, 2, g.k)) }) && ab_3.v3@ == (if MA::fu_s() { racc(g, 3, 3, g.k) } else { rmul(alpha.v@, racc(g, 3, 3, g.k)) }) && ab_3.v4@ == (if MA::fu_s() { racc(g, 3, 4, g.k) } else { rmul(alpha.v@, racc(g, 3, 4, g.k)) }) && ab_3.v5@ == (if MA::fu_s() { racc(g, 3, 5, g.k) } else { rmul(alpha.v@, racc(g, 3, 5, g.k)) }) && ab_3.v6@ == (if MA::fu_s() { racc(g, 3, 6, g.k) } else { rmul(alpha.v@, racc(g, 3, 6, g.k)) }) && ab_3.v7@ == (if MA::fu_s() { racc(g, 3, 7, g.k) } else { rmul(alpha.v@, racc(g, 3, 7, g.k)) })
@invx ris0(beta.v@) ==> cv_3.v0@ == rzero() && cv_3.v1@ == rzero() && cv_3.v2@ == rzero() && cv_3.v3@ == rzero() && cv_3.v4@ == rzero() && cv_3.v5@ == rzero() && cv_3.v6@ == rzero() && cv_3.v7@ == rzero()
@invx !ris0(beta.v@) ==> cv_3.v0@ == rmul(cel(g, 3, 0), beta.v@) && cv_3.v1@ == rmul(cel(g, 3, 1), beta.v@) && cv_3.v2@ == rmul(cel(g, 3, 2), beta.v@) && cv_3.v3@ == rmul(cel(g, 3, 3), beta.v@) && cv_3.v4@ == rmul(cel(g, 3, 4), beta.v@) && cv_3.v5@ == rmul(cel(g, 3, 5), beta.v@) && cv_3.v6@ == rmul(cel(g, 3, 6), beta.v@) && cv_3.v7@ == rmul(cel(g, 3, 7), beta.v@)
@invx ab_4.v0@ == (if MA::fu_s() { racc(g, 4, 0, g.k) } else { rmul(alpha.v@, racc(g, 4, 0, g.k)) }) && ab_4.v1@ == (if MA::fu_s() { racc(g, 4, 1, g.k) } else { rmul(alpha.v@, racc(g, 4, 1, g.k)) }) && ab_4.v2@ == (if MA::fu_s() { racc(g, 4, 2, g.k) } else { rmul(alpha.v@, racc(g, 4, 2, g.k)) }) && ab_4.v3@ == (if MA::fu_s() { racc(g, 4, 3, g.k) } else { rmul(alpha.v@, racc(g, 4, 3, g.k)) }) && ab_4.v4@ == (if MA::fu_s() { racc(g, 4, 4, g.k) } else { rmul(alpha.v@, racc(g, 4, 4, g.k)) }) && ab_4.v5@ == (if MA::fu_s() { racc(g, 4, 5, g.k) } else { rmul(alpha.v@, racc(g, 4, 5, g.k)) }) && ab_4.v6@ == (if MA::fu_s() { racc(g, 4, 6, g.k) } else { rmul(alpha.v@, racc(g, 4, 6, g.k)) }) && ab_4.v7@ == (if MA::fu_s() { racc(g, 4, 7, g.k) } else { rmul(alpha.v@, racc(g, 4, 7, g.k)) })
@invx ris0(beta.v@) ==> cv_4.v0@ == rzero() && cv_4.v1@ == rzero() && cv_4.v2@ == rzero() && cv_4.v3@ == rzero() && cv_4.v4@ == rzero() && cv_4.v5@ == rzero() && cv_4.v6@ == rzero() && cv_4.v7@ == rzero()
@invx !ris0(beta.v@) ==> cv_4.v0@ == rmul(cel(g, 4, 0), beta.v@) && cv_4.v1@ == rmul(cel(g, 4, 1), beta.v@) && cv_4.v2@ == rmul(cel(g, 4, 2), beta.v@) && cv_4.v3@ == rmul(cel(g, 4, 3), beta.v@) && cv_4.v4@ == rmul(cel(g, 4, 4), beta.v@) && cv_4.v5@ == rmul(cel(g, 4, 5), beta.v@) && cv_4.v6@ == rmul(cel(g, 4, 6), beta.v@) && cv_4.v7@ == rmul(cel(g, 4, 7), beta.v@)
@invx ab_5.v0@ == (if MA::fu_s() { racc(g, 5, 0, g.k) } else { rmul(alpha.v@, racc(g, 5, 0, g.k)) }) && ab_5.v1@ == (if MA::fu_s() { racc(g, 5, 1, g.k) } else { rmul(alpha.v@, racc(g, 5, 1, g.k)) }) && ab_5.v2@ == (if MA::fu_s() { racc(g, 5, 2, g.k) } else { rmul(alpha.v@, racc(g, 5, 2, g.k)) }) && ab_5.v3@ == (if MA::fu_s() { racc(g, 5, 3, g.k) } else { rmul(alpha.v@, racc(g, 5, 3, g.k)) }) && ab_5.v4@ == (if MA::fu_s() { racc(g, 5, 4, g.k) } else { rmul(alpha.v@, racc(g, 5, 4, g.k)) }) && ab_5.v5@ == (if MA::fu_s() { racc(g, 5, 5, g.k) } else { rmul(alpha.v@, racc(g, 5, 5, g.k)) }) && ab_5.v6@ == (if MA::fu_s() { racc(g, 5, 6, g.k) } else { rmul(alpha.v@, racc(g, 5, 6, g.k)) }) && ab_5.v7@ == (if MA::fu_s() { racc(g, 5, 7, g.k) } else { rmul(alpha.v@, racc(g, 5, 7, g.k)) })
@invx ris0(beta.v@) ==> cv_5.v0@ == rzero() && cv_5.v1@ == rzero() && cv_5.v2@ == rzero() && cv_5.v3@ == rzero() && cv_5.v4@ == rzero() && cv_5.v5@ == rzero() && cv_5.v6@ == rzero() && cv_5.v7@ == rzero()
@invx !ris0(beta.v@) ==> cv_5.v0@ == rmul(cel(g, 5, 0), beta.v@) && cv_5.v1@ == rmul(cel(g, 5, 1), beta.v@) && cv_5.v2@ == rmul(cel(g, 5, 2), beta.v@) && cv_5.v3@ == rmul(cel(g, 5, 3), beta.v@) && cv_5.v4@ == rmul(cel(g, 5, 4), beta.v@) && cv_5.v5@ == rmul(cel(g, 5, 5), beta.v@) && cv_5.v6@ == rmul(cel(g, 5, 6), beta.v@) && cv_5.v7@ == rmul(cel(g, 5, 7), beta.v@)
@invx ab_6.v0@ == (if MA::fu_s() { racc(g, 6, 0, g.k) } else { rmul(alpha.v@, racc(g, 6, 0, g.k)) }) && ab_6.v1@ == (if MA::fu_s() { racc(g, 6, 1, g.k) } else { rmul(alpha.v@, racc(g, 6, 1, g.k)) }) && ab_6.v2@ == (if MA::fu_s() { racc(g, 6, 2, g.k) } else { rmul(alpha.v@, racc(g, 6, 2, g.k)) }) && ab_6.v3@ == (if MA::fu_s() { racc(g, 6, 3, g.k) } else { rmul(alpha.v@, racc(g, 6, 3, g.k)) }) && ab_6.v4@ == (if MA::fu_s() { racc(g, 6, 4, g.k) } else { rmul(alpha.v@, racc(g, 6, 4, g.k)) }) && ab_6.v5@ == (if MA::fu_s() { racc(g, 6, 5, g.k) } else { rmul(alpha.v@, racc(g, 6, 5, g.k)) }) && ab_6.v6@ == (if MA::fu_s() { racc(g, 6, 6, g.k) } else { rmul(alpha.v@, racc(g, 6, 6, g.k)) }) && ab_6.v7@ == (if MA::fu_s() { racc(g, 6, 7, g.k) } else { rmul(alpha.v@, racc(g, 6, 7, g.k)) })
@invx ris0(beta.v@) ==> cv_6.v0@ == rzero() && cv_6.v1@ == rzero() && cv_6.v2@ == rzero() && cv_6.v3@ == rzero() && cv_6.v4@ == rzero() && cv_6.v5@ == rzero() && cv_6.v6@ == rzero() && cv_6.v7@ == rzero()
@invx !ris0(beta.v@) ==> cv_6.v0@ == rmul(cel(g, 6, 0), beta.v@) && cv_6.v1@ == rmul(cel(g, 6, 1), beta.v@) && cv_6.v2@ == rmul(cel(g, 6, 2), beta.v@) && cv_6.v3@ == rmul(cel(g, 6, 3), beta.v@) && cv_6.v4@ == rmul(cel(g, 6, 4), beta.v@) && cv_6.v5@ == rmul(cel(g, 6, 5), beta.v@) && cv_6.v6@ == rmul(cel(g, 6, 6), beta.v@) && cv_6.v7@ == rmul(cel(g, 6, 7), beta.v@)
@invx ab_7.v0@ == (if MA::fu_s() { racc(g, 7, 0, g.k) } else { rmul(alpha.v@, racc(g, 7, 0, g.k)) }) && ab_7.v1@ == (if MA::fu_s() { racc(g, 7, 1, g.k) } else { rmul(alpha.v@, racc(g, 7, 1, g.k)) }) && ab_7.v2@ == (if MA::fu_s() { racc(g, 7, 2, g.k) } else { rmul(alpha.v@, racc(g, 7, 2, g.k)) }) && ab_7.v3@ == (if MA::fu_s() { racc(g, 7, 3, g.k) } else { rmul(alpha.v@, racc(g, 7, 3, g.k)) }) && ab_7.v4@ == (if MA::fu_s() { racc(g, 7, 4, g.k) } else { rmul(alpha.v@, racc(g, 7, 4, g.k)) }) && ab_7.v5@ == (if MA::fu_s() { racc(g, 7, 5, g.k) } else { rmul(alpha.v@, racc(g, 7, 5, g.k)) }) && ab_7.v6@ == (if MA::fu_s() { racc(g, 7, 6, g.k) } else { rmul(alpha.v@, racc(g, 7, 6, g.k)) }) && ab_7.v7@ == (if MA::fu_s() { racc(g, 7, 7, g.k) } else { rmul(alpha.v@, racc(g, 7, 7, g.k)) })
@invx ris0(beta.v@) ==> cv_7.v0@ == rzero() && cv_7.v1@ == rzero() && cv_7.v2@ == rzero() && cv_7.v3@ == rzero() && cv_7.v4@ == rzero() && cv_7.v5@ == rzero() && cv_7.v6@ == rzero() && cv_7.v7@ == rzero()
@invx !ris0(beta.v@) ==> cv_7.v0@ == rmul(cel(g, 7, 0), beta.v@) && cv_7.v1@ == rmul(cel(g, 7, 1), beta.v@) && cv_7.v2@ == rmul(cel(g, 7, 2), beta.v@) && cv_7.v3@ == rmul(cel(g, 7, 3), beta.v@) && cv_7.v4@ == rmul(cel(g, 7, 4), beta.v@) && cv_7.v5@ == rmul(cel(g, 7, 5), beta.v@) && cv_7.v6@ == rmul(cel(g, 7, 6), beta.v@) && cv_7.v7@ == rmul(cel(g, 7, 7), beta.v@)
@begin
proof {
%for i in 0..8, j in 0..8: l_kwantr::<F32>(g, {i}, {j}, alpha.v@, beta.v@);
}
@loop stage before if#5
%use SCTX
@invx emb(cv_0.v0@) == kwant::<F32>(g, 0, 0) && emb(cv_0.v1@) == kwant::<F32>(g, 0, 1) && emb(cv_0.v2@) == kwant::<F32>(g, 0, 2) && emb(cv_0.v3@) == kwant::<F32>(g, 0, 3) && emb(cv_0.v4@) == kwant::<F32>(g, 0, 4) && emb(cv_0.v5@) == kwant::<F32>(g, 0, 5) && emb(cv_0.v6@) == kwant::<F32>(g, 0, 6) && emb(cv_0.v7@) == kwant::<F32>(g, 0, 7)
@invx emb(cv_1.v0@) == kwant::<F32>(g, 1, 0) && emb(cv_1.v1@) == kwant::<F32>(g, 1, 1) && emb(cv_1.v2@) == kwant::<F32>(g, 1, 2) && emb(cv_1.v3@) == kwant::<F32>(g, 1, 3) && emb(cv_1.v4@) == kwant::<F32>(g, 1, 4) && emb(cv_1.v5@) == kwant::<F32>(g, 1, 5) && emb(cv_1.v6@) == kwant::<F32>(g, 1, 6) && emb(cv_1.v7@) == kwant::<F32>(g, 1, 7)
@invx emb(cv_2.v0@) == kwant::<F32>(g, 2, 0) && emb(cv_2.v1@) == kwant::<F32>(g, 2, 1) && emb(cv_2.v2@) == kwant::<F32>(g, 2, 2) && emb(cv_2.v3@) == kwant::<F32>(g, 2, 3) && emb(cv_2.v4@) == kwant::<F32>(g, 2, 4) && emb(cv_2.v5@) == kwant::<F32>(g, 2, 5) && emb(cv_2.v6@) == kwant::<F32>(g, 2, 6) && emb(cv_2.v7@) == kwant::<F32>(g, 2, 7)
@invx emb(cv_3.v0@) == kwant::<F32>(g, 3, 0) && emb(cv_3.v1@) == kwant::<F32>(g, 3, 1) && emb(cv_3.v2@) == kwant::<F32>(g, 3, 2) && emb(cv_3.v3@) == kwant::<F32>(g, 3, 3) && emb(cv_3.v4@) == kwant::<F32>(g, 3, 4) && emb(cv_3.v5@) == kwant::<F32>(g, 3, 5) && emb(cv_3.v6@) == kwant::<F32>(g, 3, 6) && emb(cv_3.v7@) == kwant::<F32>(g, 3, 7)
@invx emb(cv_4.v0@) == kwant::<F32>(g, 4, 0) && emb(cv_4.v1@) == kwant::<F32>(g, 4, 1) && emb(cv_4.v2@) == kwant::<F32>(g, 4, 2) && emb(cv_4.v3@) == kwant::<F32>(g, 4, 3) && emb(cv_4.v4@) == kwant::<F32>(g, 4, 4) && emb(cv_4.v5@) == kwant::<F32>(g, 4, 5) && emb(cv_4.v6@) == kwant::<F32>(g, 4, 6) && emb(cv_4.v7@) == kwant::<F32>(g, 4, 7)
@invx emb(cv_5.v0@) == kwant::<F32>(g, 5, 0) && emb(cv_5.v1@) == kwant::<F32>(g, 5, 1) && emb(cv_5.v2@) == kwant::<F32>(g, 5, 2) && emb(cv_5.v3@) == kwant::<F32>(g, 5, 3) && emb(cv_5.v4@) == kwant::<F32>(g, 5, 4) && emb(cv_5.v5@) == kwant::<F32>(g, 5, 5) && emb(cv_5.v6@) == kwant::<F32>(g, 5, 6) && emb(cv_5.v7@) == kwant::<F32>(g, 5, 7)
@invx emb(cv_6.v0@) == kwant::<F32>(g, 6, 0) && emb(cv_6.v1@) == kwant::<F32>(g, 6, 1) && emb(cv_6.v2@) == kwant::<F32>(g, 6, 2) && emb(cv_6.v3@) == kwant::<F32>(g, 6, 3) && emb(cv_6.v4@) == kwant::<F32>(g, 6, 4) && emb(cv_6.v5@) == kwant::<F32>(g, 6, 5) && emb(cv_6.v6@) == kwant::<F32>(g, 6, 6) && emb(cv_6.v7@) == kwant::<F32>(g, 6, 7)
@invx emb(cv_7.v0@) == kwant::<F32>(g, 7, 0) && emb(cv_7.v1@) == kwant::<F32>(g, 7, 1) && emb(cv_7.v2@) == kwant::<F32>(g, 7, 2) && emb(cv_7.v3@) == kwant::<F32>(g, 7, 3) && emb(cv_7.v4@) == kwant::<F32>(g, 7, 4) && emb(cv_7.v5@) == kwant::<F32>(g, 7, 5) && emb(cv_7.v6@) == kwant::<F32>(g, 7, 6) && emb(cv_7.v7@) == kwant::<F32>(g, 7, 7)
@begin
proof {
%for i in 0..8, j in 0..8: l_kbnd::<F32>(g.m, c, 8, 8, rsc as int, csc as int, {i}, {j});
}
@precall _mm256_loadu_ps_
proof { l_kpre8::<F32>(g, c, a0_.a@, ${n}, 0, ${n}, 1, ${n}, 2, ${n}, 3, ${n}, 4, ${n}, 5, ${n}, 6, ${n}, 7); }
@precall _mm256_storeu_ps_
proof { l_kpre8::<F32>(g, c, a0_.a@, ${n}, 0, ${n}, 1, ${n}, 2, ${n}, 3, ${n}, 4, ${n}, 5, ${n}, 6, ${n}, 7); }
@oncall _mm256_storeu_ps_
proof { w = l_kput8::<F32>(g, mw_, w, a0_.a@, a1_.v0@, a1_.v1@, a1_.v2@, a1_.v3@, a1_.v4@, a1_.v5@, a1_.v6@, a1_.v7@, ${n}, 0, ${n}, 1, ${n}, 2, ${n}, 3, ${n}, 4, ${n}, 5, ${n}, 6, ${n}, 7, $[8*${n}+0], $[8*${n}+1], $[8*${n}+2], $[8*${n}+3], $[8*${n}+4], $[8*${n}+5], $[8*${n}+6], $[8*${n}+7]); }
@precall rd_
proof { l_kcel(g, $[${n}/8], $[${n}%8]); }
@oncall _mm_store_ss_
proof { l_kput::<F32>(g, mw_, w, a0_.a@, emb(a1_.v0@), $[${n}/8], $[${n}%8], ${n}); w = w.insert(${n} as int); }
@fnend
proof { l_kst_end88::<F32>(g, mem.v@, w); if sw { l_ktr_ens::<F32>(8, 8, g.m, mem.v@, k as int, alpha.cv(), a0, b0, beta.cv(), c, r0, c0); } }

%endif
