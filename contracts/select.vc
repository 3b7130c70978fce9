# ---------------------------------------------------------------- kernel selection and the public functions
%def ALLP=C01 C02 C03 C04 C05 C06 C07 C08 C11 C12
%def GLX=GL { m: m as int, k: k as int, n: n as int, al: alpha.cv(), a: a.a@, rsa: rsa as int, csa: csa as int, b: b.a@, rsb: rsb as int, csb: csb as int, be: beta.cv(), c: c.a@, rsc: rsc as int, csc: csc as int }
%if dbg rel nt ns
@struct gemm::GemmParameters
@struct gemm::CGemmOption
@trait kernel::GemmSelect
@igen <T: Element>
@spec
    /// what the call needs, and what it delivers, whichever kernel is selected
    spec fn sel_req(self, m: MV) -> bool;
    spec fn sel_ens(self, o: MV, m: MV) -> bool;
@fn kernel::GemmSelect::select
@props $ALLP
@req[C11] K::feat_s(old(mem).v@.cpu)
@req self.sel_req(old(mem).v@)
@ens self.sel_ens(old(mem).v@, final(mem).v@)
@item gemm
pub open spec fn gl_of<T: Element>(p: GemmParameters<T>) -> GL {
    GL { m: p.m as int, k: p.k as int, n: p.n as int, al: p.alpha.cv(), a: p.a.a@, rsa: p.rsa as int, csa: p.csa as int, b: p.b.a@, rsb: p.rsb as int, csb: p.csb as int, be: p.beta.cv(), c: p.c.a@, rsc: p.rsc as int, csc: p.csc as int }
}
@impl gemm::GemmParameters as GemmSelect
@igen <T: Element>
@spec
    open spec fn sel_req(self, m: MV) -> bool { gl_req::<T>(m, gl_of(self), self.a, self.b, self.c) && self.m * self.k + self.k * self.n <= usize::MAX }
    open spec fn sel_ens(self, o: MV, m: MV) -> bool { gl_ens::<T>(o, m, gl_of(self)) }
@fn sgemm_kernel::detect
@props $ALLP
@req[C11] old(mem).v@.cpu.sse2
@req selector.sel_req(old(mem).v@)
@ens selector.sel_ens(old(mem).v@, final(mem).v@)
@fn dgemm_kernel::detect
@props $ALLP
@req[C11] old(mem).v@.cpu.sse2
@req selector.sel_req(old(mem).v@)
@ens selector.sel_ens(old(mem).v@, final(mem).v@)
@fn cgemm_kernel::detect
@props $ALLP
@req[C11] old(mem).v@.cpu.sse2
@req selector.sel_req(old(mem).v@)
@ens selector.sel_ens(old(mem).v@, final(mem).v@)
@fn zgemm_kernel::detect
@props $ALLP
@req[C11] old(mem).v@.cpu.sse2
@req selector.sel_req(old(mem).v@)
@ens selector.sel_ens(old(mem).v@, final(mem).v@)
@fn gemm::sgemm
@props $ALLP
@req[C11] old(mem).v@.cpu.sse2
@req[C08] m * k + k * n <= usize::MAX
@req gl_req::<F32>(old(mem).v@, $GLX, a, b, c)
@ens gl_ens::<F32>(old(mem).v@, final(mem).v@, $GLX)
@fn gemm::dgemm
@props $ALLP
@req[C11] old(mem).v@.cpu.sse2
@req[C08] m * k + k * n <= usize::MAX
@req gl_req::<F64>(old(mem).v@, $GLX, a, b, c)
@ens gl_ens::<F64>(old(mem).v@, final(mem).v@, $GLX)
@fn gemm::cgemm
@props $ALLP
@req[C11] old(mem).v@.cpu.sse2
@req[C08] m * k + k * n <= usize::MAX
@req gl_req::<c32>(old(mem).v@, $GLX, a, b, c)
@ens gl_ens::<c32>(old(mem).v@, final(mem).v@, $GLX)
@fn gemm::zgemm
@props $ALLP
@req[C11] old(mem).v@.cpu.sse2
@req[C08] m * k + k * n <= usize::MAX
@req gl_req::<c64>(old(mem).v@, $GLX, a, b, c)
@ens gl_ens::<c64>(old(mem).v@, final(mem).v@, $GLX)
%endif
