%def ALLP=C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C14
@trait kernel::ConstNum
@spec
    spec fn val_s() -> usize;
@fn kernel::ConstNum::VALUE
@pure
@props C01 C02 C14
@ens r == Self::val_s()
@struct kernel::U2
@struct kernel::U4
@struct kernel::U8
@impl kernel::U2 as ConstNum
@spec
    open spec fn val_s() -> usize { 2 }
@impl kernel::U4 as ConstNum
@spec
    open spec fn val_s() -> usize { 4 }
@impl kernel::U8 as ConstNum
@spec
    open spec fn val_s() -> usize { 8 }

@trait kernel::Element
@sup Val
@fn kernel::Element::zero
@pure
@props C01 C02 C04 C05
@ens r.cv() == czero()
@fn kernel::Element::one
@pure
@props C01 C02
@ens r.cv() == cone()
@fn kernel::Element::is_zero
@pure
@props C04 C05
@ens r == is0(self.cv())
@fn kernel::Element::add_assign
@pure
@props C01 C02 C12
@ens final(self).cv() == cadd(old(self).cv(), rhs.cv())
@fn kernel::Element::mul_assign
@pure
@props C01 C02 C05 C12
@ens final(self).cv() == cmul(rhs.cv(), old(self).cv())

@fn kernel::f32::add_assign
@start
proof { broadcast use l_emb_add; }
@fn kernel::f64::add_assign
@start
proof { broadcast use l_emb_add; }
@fn kernel::f32::mul_assign
@start
proof { broadcast use l_emb_mul; broadcast use b_rmul_c; }
@fn kernel::f64::mul_assign
@start
proof { broadcast use l_emb_mul; broadcast use b_rmul_c; }
@fn kernel::c32::add_assign kernel::c64::add_assign
@start
proof { reveal(radd); reveal(cadd); }
@fn kernel::c32::mul_assign kernel::c64::mul_assign
@start
proof { l_cmul_c(old(self).cv(), rhs.cv()); }
@fn kernel::c32_mul kernel::c64_mul
@pure
@props C02 C12
@ens r.cv() == cmul(x.cv(), y.cv())
@start
proof { reveal(radd); reveal(rmul); reveal(rsub); reveal(cmul); }

@item kernel
pub fn zero_<T: Element>() -> (r: T) ensures r.cv() == czero() { T::zero() }
pub fn one_<T: Element>() -> (r: T) ensures r.cv() == cone() { T::one() }
pub open spec fn mr_s<K: GemmKernel>() -> int { <K::MRTy as ConstNum>::val_s() as int }
pub open spec fn nr_s<K: GemmKernel>() -> int { <K::NRTy as ConstNum>::val_s() as int }
/// blocking configurations the blocked algorithm supports
pub open spec fn cfg_ok<K: GemmKernel>() -> bool {
    &&& 0 < mr_s::<K>() <= 8 && 0 < nr_s::<K>() <= 8
    &&& mr_s::<K>() * nr_s::<K>() * esz::<K::Elem>() <= 256
    &&& K::al_s() <= 32
    &&& mr_s::<K>() <= K::mc_s() <= K::kc_s() <= K::nc_s() <= 65536
}
@trait kernel::GemmKernel
@specval al_s=align_to:usize masked_s=always_masked:bool mc_s=mc:usize kc_s=kc:usize nc_s=nc:usize
@spec
    spec fn feat_s(c: Cpu) -> bool;
    proof fn ker_ok()
        ensures
            0 < <Self::MRTy as ConstNum>::val_s() <= 8 && 0 < <Self::NRTy as ConstNum>::val_s() <= 8,
            Self::al_s() != 0 ==> (<Self::MRTy as ConstNum>::val_s() * esz::<Self::Elem>()) % (Self::al_s() as int) == 0,
            Self::al_s() != 0 ==> (<Self::NRTy as ConstNum>::val_s() * esz::<Self::Elem>()) % (Self::al_s() as int) == 0,
            Self::al_s() == 0 || Self::al_s() == 1 || Self::al_s() == 2 || Self::al_s() == 4 || Self::al_s() == 8 || Self::al_s() == 16 || Self::al_s() == 32;
%if dbg rel nt ns
    /// the built-in blocking configuration is supported (cfg_ok)
    proof fn conf_ok()
        ensures
            <Self::MRTy as ConstNum>::val_s() * <Self::NRTy as ConstNum>::val_s() * esz::<Self::Elem>() <= 256,
            Self::al_s() <= 32,
            <Self::MRTy as ConstNum>::val_s() <= Self::mc_s() <= Self::kc_s() <= Self::nc_s() <= 65536;
%endif
@fn kernel::GemmKernel::MR
@pure
@props C01 C02 C14
@ens r == <Self::MRTy as ConstNum>::val_s()
@fn kernel::GemmKernel::NR
@pure
@props C01 C02 C14
@ens r == <Self::NRTy as ConstNum>::val_s()
@fn kernel::GemmKernel::align_to
@pure
@props C07
@ens r == Self::al_s()
@fn kernel::GemmKernel::always_masked
@pure
@props C04 C07
@ens r == Self::masked_s()
@fn kernel::GemmKernel::nc
@pure
@props C14
@ens r == Self::nc_s()
@fn kernel::GemmKernel::kc
@pure
@props C14
@ens r == Self::kc_s()
@fn kernel::GemmKernel::mc
@pure
@props C14
@ens r == Self::mc_s()
@fn kernel::GemmKernel::pack_mr
@props $ALLP
@req[C11] Self::feat_s(old(mem).v@.cpu)
@req pack_req::<Self::Elem>(old(mem).v@, kc as int, mc as int, <Self::MRTy as ConstNum>::val_s() as int, pack_buf, a, rsa as int, csa as int)
@ens pack_ens::<Self::Elem>(old(mem).v@, final(mem).v@, kc as int, mc as int, <Self::MRTy as ConstNum>::val_s() as int, pack_buf, a, rsa as int, csa as int)
@fn kernel::GemmKernel::pack_nr
@props $ALLP
@req[C11] Self::feat_s(old(mem).v@.cpu)
@req pack_req::<Self::Elem>(old(mem).v@, kc as int, mc as int, <Self::NRTy as ConstNum>::val_s() as int, pack_buf, a, rsa as int, csa as int)
@ens pack_ens::<Self::Elem>(old(mem).v@, final(mem).v@, kc as int, mc as int, <Self::NRTy as ConstNum>::val_s() as int, pack_buf, a, rsa as int, csa as int)
@fn kernel::GemmKernel::kernel
@props $ALLP
@req[C11] Self::feat_s(old(mem).v@.cpu)
@req ker_req::<Self::Elem>(<Self::MRTy as ConstNum>::val_s() as int, <Self::NRTy as ConstNum>::val_s() as int, Self::al_s() as int, Self::masked_s(), old(mem).v@, k as int, a, b, beta.cv(), c, rsc as int, csc as int)
@ens ker_ens::<Self::Elem>(<Self::MRTy as ConstNum>::val_s() as int, <Self::NRTy as ConstNum>::val_s() as int, old(mem).v@, final(mem).v@, k as int, alpha.cv(), a, b, beta.cv(), c, rsc as int, csc as int)
