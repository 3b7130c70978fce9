%def PPROPS=C01 C03 C06 C07 C08 C12 C14
@fn packing::pack packing::pack_avx2
@props C01 C03 C06 C07 C08 C11 C12 C14
@req T::cxn() == 1 && MR::val_s() > 0
@req pack_req::<T>(old(mem).v@, kc as int, mc as int, MR::val_s() as int, pack, a, rsa as int, csa as int)
@ens pack_ens::<T>(old(mem).v@, final(mem).v@, kc as int, mc as int, MR::val_s() as int, pack, a, rsa as int, csa as int)

%def ST=pk_st::<T>(m0, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src
%def CTX=T::cxn() == 1 && mr == MR::val_s() && mr > 0 && pb.wf() && m0.rsz == T::rsz() && pack == pb.p && n0 == mc as int / mr as int && src == msrc::<T>(m0, a.a@, rsa as int, csa as int) && pack_req::<T>(m0, kc as int, mc as int, mr as int, pb, a, rsa as int, csa as int) && 0 <= n0 <= ceil_div(mc as int, mr as int) && n0 * mr <= mc
@fn packing::pack_impl
@ltype zero T
@props $PPROPS
@req T::cxn() == 1 && MR::val_s() > 0
@req pack_req::<T>(old(mem).v@, kc as int, mc as int, MR::val_s() as int, pack, a, rsa as int, csa as int)
@ens pack_ens::<T>(old(mem).v@, final(mem).v@, kc as int, mc as int, MR::val_s() as int, pack, a, rsa as int, csa as int)
@start
let ghost m0 = mem.v@;
let ghost pb = pack;
let ghost src = msrc::<T>(m0, a.a@, rsa as int, csa as int);
let ghost n0 = mc as int / MR::val_s() as int;
proof {
    l_ceil(mc as int, MR::val_s() as int); l_dm(mc as int, MR::val_s() as int);
    l_pk_init::<T>(m0, pb.p.a@, MR::val_s() as int, kc as int, mc as int, src);
    l_mul_le(0, rup(mc as int, MR::val_s() as int), kc as int);
}
@loop for ir#1
@inv $CTX
@inv rsa == 1
@inv ${it} <= n0 && ir__end == n0
@inv $ST, ${it} as int, 0, 0)
@inv p == poff(mr as int, kc as int, ir__it as int, 0, 0)
@begin
proof { l_mul_le(ir as int, n0 - 1, mr as int); assert(ir * mr + mr <= n0 * mr) by(nonlinear_arith) requires ir + 1 <= n0, mr > 0; }
@end
proof { l_pk_panel::<T>(m0, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, ir as int); }
@loop for j#1
@inv $CTX
@inv rsa == 1
@inv ir < n0 && j__end == kc && j__it <= kc && row_offset == ir * mr && row_offset + mr <= n0 * mr
@inv $ST, ir as int, ${it} as int, 0)
@inv p == poff(mr as int, kc as int, ir as int, j__it as int, 0)
@begin
let ghost m1 = mem.v@;
proof {
    l_pk_bound(mr as int, kc as int, mc as int, ir as int, j as int, 0);
    l_pk_bound(mr as int, kc as int, mc as int, ir as int, j as int, mr as int);
    l_poff(mr as int, kc as int, ir as int, j as int, 0);
    l_poff(mr as int, kc as int, ir as int, j as int, mr as int);
    l_pk_src::<T>(m0, a, kc as int, mc as int, mr as int, pb, rsa as int, csa as int, row_offset as int, j as int);
    assert forall|i: int| 0 <= i < mr implies #[trigger] at2(a.a@, row_offset + i, 1, j as int, csa as int) == at2(a.a@, row_offset as int, 1, j as int, csa as int) + i by {
        l_at2(a.a@, row_offset + i, 1, j as int, csa as int); l_at2(a.a@, row_offset as int, 1, j as int, csa as int);
    }
    let s0 = at2(a.a@, row_offset as int, 1, j as int, csa as int);
    assert forall|x: int| 0 <= x < mr implies m1.rd.contains(s0 + x) && m1.val[s0 + x] == m0.val[s0 + x] && a.lo@ <= #[trigger] (s0 + x) < a.hi@ && !(pb.p.a@ <= s0 + x < pb.p.a@ + rup(mc as int, mr as int) * kc)
    by { l_pk_src::<T>(m0, a, kc as int, mc as int, mr as int, pb, rsa as int, csa as int, row_offset + x, j as int); assert(at2(a.a@, row_offset + x, 1, j as int, csa as int) == s0 + x); }
    assert(s0 + (mr - 1) < a.hi@);
    let d0 = pb.p.a@ + p;
    if !(s0 + mr <= d0 || d0 + mr <= s0) {
        let x = imax(s0, d0) - s0;
        assert(!(pb.p.a@ <= s0 + x < pb.p.a@ + rup(mc as int, mr as int) * kc));
    }
    assert forall|s: int| s0 <= s < s0 + mr implies #[trigger] m1.rd.contains(s) by { assert(m1.rd.contains(s0 + (s - s0))); }
}
@end
proof {
    let s0 = at2(a.a@, row_offset as int, 1, j as int, csa as int);
    let p0 = poff(mr as int, kc as int, ir as int, j as int, 0);
    assert forall|x: int| #![trigger mem.v@.val[pb.p.a@ + p0 + x]] 0 <= x < mr implies emb(mem.v@.val[pb.p.a@ + p0 + x]) == pk_want(mr as int, mc as int, src, ir as int, 0 + x, j as int) by {
        assert(mem.v@.val[pb.p.a@ + p0 + x] == m1.val[s0 + x]);
        assert(at2(a.a@, row_offset + x, 1, j as int, csa as int) == s0 + x);
    }
    l_pk_step::<T>(m0, m1, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, ir as int, j as int, 0, mr as int);
    l_pk_row::<T>(m0, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, ir as int, j as int);
}
@loop for ir#2
@inv $CTX
@inv ${it} <= n0 && ir__end == n0
@inv $ST, ${it} as int, 0, 0)
@inv p == poff(mr as int, kc as int, ir__it as int, 0, 0)
@begin
proof { l_mul_le(ir as int, n0 - 1, mr as int); assert(ir * mr + mr <= n0 * mr) by(nonlinear_arith) requires ir + 1 <= n0, mr > 0; }
@end
proof { l_pk_panel::<T>(m0, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, ir as int); }
@loop for j#2
@inv $CTX
@inv ir < n0 && j__end == kc && j__it <= kc && row_offset == ir * mr && row_offset + mr <= n0 * mr
@inv $ST, ir as int, ${it} as int, 0)
@inv p == poff(mr as int, kc as int, ir as int, j__it as int, 0)
@end
proof { l_pk_row::<T>(m0, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, ir as int, j as int); }
@loop for i#1
@inv $CTX
@inv ir < n0 && j < kc && row_offset == ir * mr && i__end == mr && i__it <= mr && row_offset + mr <= n0 * mr
@inv $ST, ir as int, j as int, ${it} as int)
@inv p == poff(mr as int, kc as int, ir as int, j as int, i__it as int)
@begin
let ghost m1 = mem.v@;
proof {
    l_pk_bound(mr as int, kc as int, mc as int, ir as int, j as int, i as int);
    l_pk_bound(mr as int, kc as int, mc as int, ir as int, j as int, i + 1);
    l_poff(mr as int, kc as int, ir as int, j as int, i as int);
    l_poff(mr as int, kc as int, ir as int, j as int, i + 1);
    l_pk_src::<T>(m0, a, kc as int, mc as int, mr as int, pb, rsa as int, csa as int, i + row_offset, j as int);
}
@end
proof {
    l_pk_step::<T>(m0, m1, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, ir as int, j as int, i as int, 1);
}
@loop for j#3
@inv $CTX
@inv row_offset == n0 * mr && rest == mc - n0 * mr && 0 < rest < mr && n0 < ceil_div(mc as int, mr as int)
@inv j__end == kc && j__it <= kc
@inv zero.cv() == czero()
@inv $ST, n0, ${it} as int, 0)
@inv p == poff(mr as int, kc as int, n0, j__it as int, 0)
@end
proof { l_pk_row::<T>(m0, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, n0, j as int); }
@after
proof { l_pk_panel::<T>(m0, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, n0); }
@loop for i#2
@inv $CTX
@inv row_offset == n0 * mr && rest == mc - n0 * mr && 0 < rest < mr && n0 < ceil_div(mc as int, mr as int)
@inv j < kc && i__end == mr && i__it <= mr
@inv zero.cv() == czero()
@inv $ST, n0, j as int, ${it} as int)
@inv p == poff(mr as int, kc as int, n0, j as int, i__it as int)
@begin
let ghost m1 = mem.v@;
proof {
    l_pk_bound(mr as int, kc as int, mc as int, n0, j as int, i as int);
    l_pk_bound(mr as int, kc as int, mc as int, n0, j as int, i + 1);
    l_poff(mr as int, kc as int, n0, j as int, i as int);
    l_poff(mr as int, kc as int, n0, j as int, i + 1);
    if i < rest { l_pk_src::<T>(m0, a, kc as int, mc as int, mr as int, pb, rsa as int, csa as int, i + row_offset, j as int); }
}
@end
proof {
    l_pk_step::<T>(m0, m1, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, n0, j as int, i as int, 1);
}
@fnend
proof { l_pk_done::<T>(m0, mem.v@, pb.p.a@, mr as int, kc as int, mc as int, src, ceil_div(mc as int, mr as int)); }
