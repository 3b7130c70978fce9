// ------------------------------------------------------------------
// 92_simd.rs: x86 vector types and intrinsics (Intel intrinsics guide; arithmetic over the reals)
// ------------------------------------------------------------------
/// 32-byte alignment in elements (the address of element a is a * size)
pub proof fn l_al64(x: int) requires aligned::<F64>(x, 32), ensures x % 4 == 0 { l_esz::<F64>(); assert((x * 8) % 32 == 0); }
pub proof fn l_al32(x: int) requires aligned::<F32>(x, 32), ensures x % 8 == 0 { l_esz::<F32>(); assert((x * 4) % 32 == 0); }
/// AVX instructions may be executed (FMA and AVX2 CPUs have AVX)
pub open spec fn has_avx(c: Cpu) -> bool { c.avx || c.fma || c.avx2 }
#[verifier::external_body] pub fn need_sse2_(mem: &Mem)
    requires
        mem.v@.cpu.sse2, /*@req need_sse2_ [C11]*/
{ unimplemented!() }
#[verifier::external_body] pub fn need_avx_(mem: &Mem)
    requires
        has_avx(mem.v@.cpu), /*@req need_avx_ [C11]*/
{ unimplemented!() }
#[verifier::external_body] pub fn need_avx2_(mem: &Mem)
    requires
        mem.v@.cpu.avx2, /*@req need_avx2_ [C11]*/
{ unimplemented!() }
#[verifier::external_body] pub fn need_fma_(mem: &Mem)
    requires
        mem.v@.cpu.fma, /*@req need_fma_ [C11]*/
{ unimplemented!() }

#[allow(non_camel_case_types)] pub struct V4 { pub v0: Ghost<RV>, pub v1: Ghost<RV>, pub v2: Ghost<RV>, pub v3: Ghost<RV> }
impl Clone for V4 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for V4 {}
#[allow(non_camel_case_types)] pub struct V2d { pub v0: Ghost<RV>, pub v1: Ghost<RV> }
impl Clone for V2d { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for V2d {}
#[allow(non_camel_case_types)] pub struct V8 { pub v0: Ghost<RV>, pub v1: Ghost<RV>, pub v2: Ghost<RV>, pub v3: Ghost<RV>, pub v4: Ghost<RV>, pub v5: Ghost<RV>, pub v6: Ghost<RV>, pub v7: Ghost<RV> }
impl Clone for V8 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for V8 {}
#[allow(non_camel_case_types)] pub struct V4d { pub v0: Ghost<RV>, pub v1: Ghost<RV>, pub v2: Ghost<RV>, pub v3: Ghost<RV> }
impl Clone for V4d { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for V4d {}
#[verifier::external_body]
pub fn _mm256_setzero_ps_(mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_setzero_ps_ [C11]*/
    ensures
        r.v0@ == rzero(),
        r.v1@ == rzero(),
        r.v2@ == rzero(),
        r.v3@ == rzero(),
        r.v4@ == rzero(),
        r.v5@ == rzero(),
        r.v6@ == rzero(),
        r.v7@ == rzero(),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set1_ps_(x: F32, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_set1_ps_ [C11]*/
    ensures
        r.v0@ == x.v@,
        r.v1@ == x.v@,
        r.v2@ == x.v@,
        r.v3@ == x.v@,
        r.v4@ == x.v@,
        r.v5@ == x.v@,
        r.v6@ == x.v@,
        r.v7@ == x.v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setr_ps_(x0: F32, x1: F32, x2: F32, x3: F32, x4: F32, x5: F32, x6: F32, x7: F32, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_setr_ps_ [C11]*/
    ensures
        r.v0@ == x0.v@,
        r.v1@ == x1.v@,
        r.v2@ == x2.v@,
        r.v3@ == x3.v@,
        r.v4@ == x4.v@,
        r.v5@ == x5.v@,
        r.v6@ == x6.v@,
        r.v7@ == x7.v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_add_ps_(a: V8, b: V8, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_add_ps_ [C11]*/
    ensures
        r.v0@ == radd(a.v0@, b.v0@),
        r.v1@ == radd(a.v1@, b.v1@),
        r.v2@ == radd(a.v2@, b.v2@),
        r.v3@ == radd(a.v3@, b.v3@),
        r.v4@ == radd(a.v4@, b.v4@),
        r.v5@ == radd(a.v5@, b.v5@),
        r.v6@ == radd(a.v6@, b.v6@),
        r.v7@ == radd(a.v7@, b.v7@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_mul_ps_(a: V8, b: V8, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_mul_ps_ [C11]*/
    ensures
        r.v0@ == rmul(a.v0@, b.v0@),
        r.v1@ == rmul(a.v1@, b.v1@),
        r.v2@ == rmul(a.v2@, b.v2@),
        r.v3@ == rmul(a.v3@, b.v3@),
        r.v4@ == rmul(a.v4@, b.v4@),
        r.v5@ == rmul(a.v5@, b.v5@),
        r.v6@ == rmul(a.v6@, b.v6@),
        r.v7@ == rmul(a.v7@, b.v7@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_fmadd_ps_(a: V8, b: V8, c: V8, mem: &Mem) -> (r: V8)
    requires
        mem.v@.cpu.fma, /*@req _mm256_fmadd_ps_ [C11]*/
    ensures
        r.v0@ == radd(rmul(a.v0@, b.v0@), c.v0@),
        r.v1@ == radd(rmul(a.v1@, b.v1@), c.v1@),
        r.v2@ == radd(rmul(a.v2@, b.v2@), c.v2@),
        r.v3@ == radd(rmul(a.v3@, b.v3@), c.v3@),
        r.v4@ == radd(rmul(a.v4@, b.v4@), c.v4@),
        r.v5@ == radd(rmul(a.v5@, b.v5@), c.v5@),
        r.v6@ == radd(rmul(a.v6@, b.v6@), c.v6@),
        r.v7@ == radd(rmul(a.v7@, b.v7@), c.v7@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_loadu_ps_(p: P<F32>, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_loadu_ps_ [C11]*/
        p.lo@ <= p.a@ && p.a@ + 8 <= p.hi@, /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 0), /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 1), /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 2), /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 3), /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 4), /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 5), /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 6), /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 7), /*@req _mm256_loadu_ps_ [C04 C06 C07]*/
    ensures
        r.v0@ == mem.v@.val[p.a@ + 0],
        r.v1@ == mem.v@.val[p.a@ + 1],
        r.v2@ == mem.v@.val[p.a@ + 2],
        r.v3@ == mem.v@.val[p.a@ + 3],
        r.v4@ == mem.v@.val[p.a@ + 4],
        r.v5@ == mem.v@.val[p.a@ + 5],
        r.v6@ == mem.v@.val[p.a@ + 6],
        r.v7@ == mem.v@.val[p.a@ + 7],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_load_ps_(p: P<F32>, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_load_ps_ [C11]*/
        p.a@ % 8 == 0, /*@req _mm256_load_ps_ [C07]*/
        p.lo@ <= p.a@ && p.a@ + 8 <= p.hi@, /*@req _mm256_load_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 0), /*@req _mm256_load_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 1), /*@req _mm256_load_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 2), /*@req _mm256_load_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 3), /*@req _mm256_load_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 4), /*@req _mm256_load_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 5), /*@req _mm256_load_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 6), /*@req _mm256_load_ps_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 7), /*@req _mm256_load_ps_ [C04 C06 C07]*/
    ensures
        r.v0@ == mem.v@.val[p.a@ + 0],
        r.v1@ == mem.v@.val[p.a@ + 1],
        r.v2@ == mem.v@.val[p.a@ + 2],
        r.v3@ == mem.v@.val[p.a@ + 3],
        r.v4@ == mem.v@.val[p.a@ + 4],
        r.v5@ == mem.v@.val[p.a@ + 5],
        r.v6@ == mem.v@.val[p.a@ + 6],
        r.v7@ == mem.v@.val[p.a@ + 7],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_storeu_ps_(p: P<F32>, v: V8, mem: &mut Mem)
    requires
        has_avx(old(mem).v@.cpu), /*@req _mm256_storeu_ps_ [C11]*/
        p.lo@ <= p.a@ && p.a@ + 8 <= p.hi@, /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 0), /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 1), /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 2), /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 3), /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 4), /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 5), /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 6), /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 7), /*@req _mm256_storeu_ps_ [C03 C06 C07]*/
    ensures
        final(mem).v@ == put::<F32>(put::<F32>(put::<F32>(put::<F32>(put::<F32>(put::<F32>(put::<F32>(put::<F32>(old(mem).v@, p.a@ + 0, emb(v.v0@)), p.a@ + 1, emb(v.v1@)), p.a@ + 2, emb(v.v2@)), p.a@ + 3, emb(v.v3@)), p.a@ + 4, emb(v.v4@)), p.a@ + 5, emb(v.v5@)), p.a@ + 6, emb(v.v6@)), p.a@ + 7, emb(v.v7@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_store_ps_(p: P<F32>, v: V8, mem: &mut Mem)
    requires
        has_avx(old(mem).v@.cpu), /*@req _mm256_store_ps_ [C11]*/
        p.a@ % 8 == 0, /*@req _mm256_store_ps_ [C07]*/
        p.lo@ <= p.a@ && p.a@ + 8 <= p.hi@, /*@req _mm256_store_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 0), /*@req _mm256_store_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 1), /*@req _mm256_store_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 2), /*@req _mm256_store_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 3), /*@req _mm256_store_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 4), /*@req _mm256_store_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 5), /*@req _mm256_store_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 6), /*@req _mm256_store_ps_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 7), /*@req _mm256_store_ps_ [C03 C06 C07]*/
    ensures
        final(mem).v@ == put::<F32>(put::<F32>(put::<F32>(put::<F32>(put::<F32>(put::<F32>(put::<F32>(put::<F32>(old(mem).v@, p.a@ + 0, emb(v.v0@)), p.a@ + 1, emb(v.v1@)), p.a@ + 2, emb(v.v2@)), p.a@ + 3, emb(v.v3@)), p.a@ + 4, emb(v.v4@)), p.a@ + 5, emb(v.v5@)), p.a@ + 6, emb(v.v6@)), p.a@ + 7, emb(v.v7@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_permute2f128_ps_(a: V8, b: V8, imm: i32, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_permute2f128_ps_ [C11]*/
        0 <= imm < 256, /*@req _mm256_permute2f128_ps_ [C01]*/
    ensures
        r.v0@ == (if ((imm as int) / 8) % 2 == 1 { rzero() } else if (imm as int) % 4 == 0 { a.v0@ } else if (imm as int) % 4 == 1 { a.v4@ } else if (imm as int) % 4 == 2 { b.v0@ } else { b.v4@ }),
        r.v1@ == (if ((imm as int) / 8) % 2 == 1 { rzero() } else if (imm as int) % 4 == 0 { a.v1@ } else if (imm as int) % 4 == 1 { a.v5@ } else if (imm as int) % 4 == 2 { b.v1@ } else { b.v5@ }),
        r.v2@ == (if ((imm as int) / 8) % 2 == 1 { rzero() } else if (imm as int) % 4 == 0 { a.v2@ } else if (imm as int) % 4 == 1 { a.v6@ } else if (imm as int) % 4 == 2 { b.v2@ } else { b.v6@ }),
        r.v3@ == (if ((imm as int) / 8) % 2 == 1 { rzero() } else if (imm as int) % 4 == 0 { a.v3@ } else if (imm as int) % 4 == 1 { a.v7@ } else if (imm as int) % 4 == 2 { b.v3@ } else { b.v7@ }),
        r.v4@ == (if ((imm as int / 16) / 8) % 2 == 1 { rzero() } else if (imm as int / 16) % 4 == 0 { a.v0@ } else if (imm as int / 16) % 4 == 1 { a.v4@ } else if (imm as int / 16) % 4 == 2 { b.v0@ } else { b.v4@ }),
        r.v5@ == (if ((imm as int / 16) / 8) % 2 == 1 { rzero() } else if (imm as int / 16) % 4 == 0 { a.v1@ } else if (imm as int / 16) % 4 == 1 { a.v5@ } else if (imm as int / 16) % 4 == 2 { b.v1@ } else { b.v5@ }),
        r.v6@ == (if ((imm as int / 16) / 8) % 2 == 1 { rzero() } else if (imm as int / 16) % 4 == 0 { a.v2@ } else if (imm as int / 16) % 4 == 1 { a.v6@ } else if (imm as int / 16) % 4 == 2 { b.v2@ } else { b.v6@ }),
        r.v7@ == (if ((imm as int / 16) / 8) % 2 == 1 { rzero() } else if (imm as int / 16) % 4 == 0 { a.v3@ } else if (imm as int / 16) % 4 == 1 { a.v7@ } else if (imm as int / 16) % 4 == 2 { b.v3@ } else { b.v7@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_extractf128_ps_(a: V8, imm: i32, mem: &Mem) -> (r: V4)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_extractf128_ps_ [C11]*/
        0 <= imm < 256, /*@req _mm256_extractf128_ps_ [C01]*/
    ensures
        r.v0@ == (if imm as int % 2 == 0 { a.v0@ } else { a.v4@ }),
        r.v1@ == (if imm as int % 2 == 0 { a.v1@ } else { a.v5@ }),
        r.v2@ == (if imm as int % 2 == 0 { a.v2@ } else { a.v6@ }),
        r.v3@ == (if imm as int % 2 == 0 { a.v3@ } else { a.v7@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_blend_ps_(a: V8, b: V8, imm: i32, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_blend_ps_ [C11]*/
        0 <= imm < 256, /*@req _mm256_blend_ps_ [C01]*/
    ensures
        r.v0@ == (if (imm as int / 1) % 2 == 0 { a.v0@ } else { b.v0@ }),
        r.v1@ == (if (imm as int / 2) % 2 == 0 { a.v1@ } else { b.v1@ }),
        r.v2@ == (if (imm as int / 4) % 2 == 0 { a.v2@ } else { b.v2@ }),
        r.v3@ == (if (imm as int / 8) % 2 == 0 { a.v3@ } else { b.v3@ }),
        r.v4@ == (if (imm as int / 16) % 2 == 0 { a.v4@ } else { b.v4@ }),
        r.v5@ == (if (imm as int / 32) % 2 == 0 { a.v5@ } else { b.v5@ }),
        r.v6@ == (if (imm as int / 64) % 2 == 0 { a.v6@ } else { b.v6@ }),
        r.v7@ == (if (imm as int / 128) % 2 == 0 { a.v7@ } else { b.v7@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setzero_pd_(mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_setzero_pd_ [C11]*/
    ensures
        r.v0@ == rzero(),
        r.v1@ == rzero(),
        r.v2@ == rzero(),
        r.v3@ == rzero(),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set1_pd_(x: F64, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_set1_pd_ [C11]*/
    ensures
        r.v0@ == x.v@,
        r.v1@ == x.v@,
        r.v2@ == x.v@,
        r.v3@ == x.v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setr_pd_(x0: F64, x1: F64, x2: F64, x3: F64, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_setr_pd_ [C11]*/
    ensures
        r.v0@ == x0.v@,
        r.v1@ == x1.v@,
        r.v2@ == x2.v@,
        r.v3@ == x3.v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_add_pd_(a: V4d, b: V4d, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_add_pd_ [C11]*/
    ensures
        r.v0@ == radd(a.v0@, b.v0@),
        r.v1@ == radd(a.v1@, b.v1@),
        r.v2@ == radd(a.v2@, b.v2@),
        r.v3@ == radd(a.v3@, b.v3@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_mul_pd_(a: V4d, b: V4d, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_mul_pd_ [C11]*/
    ensures
        r.v0@ == rmul(a.v0@, b.v0@),
        r.v1@ == rmul(a.v1@, b.v1@),
        r.v2@ == rmul(a.v2@, b.v2@),
        r.v3@ == rmul(a.v3@, b.v3@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_fmadd_pd_(a: V4d, b: V4d, c: V4d, mem: &Mem) -> (r: V4d)
    requires
        mem.v@.cpu.fma, /*@req _mm256_fmadd_pd_ [C11]*/
    ensures
        r.v0@ == radd(rmul(a.v0@, b.v0@), c.v0@),
        r.v1@ == radd(rmul(a.v1@, b.v1@), c.v1@),
        r.v2@ == radd(rmul(a.v2@, b.v2@), c.v2@),
        r.v3@ == radd(rmul(a.v3@, b.v3@), c.v3@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_loadu_pd_(p: P<F64>, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_loadu_pd_ [C11]*/
        p.lo@ <= p.a@ && p.a@ + 4 <= p.hi@, /*@req _mm256_loadu_pd_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 0), /*@req _mm256_loadu_pd_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 1), /*@req _mm256_loadu_pd_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 2), /*@req _mm256_loadu_pd_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 3), /*@req _mm256_loadu_pd_ [C04 C06 C07]*/
    ensures
        r.v0@ == mem.v@.val[p.a@ + 0],
        r.v1@ == mem.v@.val[p.a@ + 1],
        r.v2@ == mem.v@.val[p.a@ + 2],
        r.v3@ == mem.v@.val[p.a@ + 3],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_load_pd_(p: P<F64>, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_load_pd_ [C11]*/
        p.a@ % 4 == 0, /*@req _mm256_load_pd_ [C07]*/
        p.lo@ <= p.a@ && p.a@ + 4 <= p.hi@, /*@req _mm256_load_pd_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 0), /*@req _mm256_load_pd_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 1), /*@req _mm256_load_pd_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 2), /*@req _mm256_load_pd_ [C04 C06 C07]*/
        mem.v@.rd.contains(p.a@ + 3), /*@req _mm256_load_pd_ [C04 C06 C07]*/
    ensures
        r.v0@ == mem.v@.val[p.a@ + 0],
        r.v1@ == mem.v@.val[p.a@ + 1],
        r.v2@ == mem.v@.val[p.a@ + 2],
        r.v3@ == mem.v@.val[p.a@ + 3],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_storeu_pd_(p: P<F64>, v: V4d, mem: &mut Mem)
    requires
        has_avx(old(mem).v@.cpu), /*@req _mm256_storeu_pd_ [C11]*/
        p.lo@ <= p.a@ && p.a@ + 4 <= p.hi@, /*@req _mm256_storeu_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 0), /*@req _mm256_storeu_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 1), /*@req _mm256_storeu_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 2), /*@req _mm256_storeu_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 3), /*@req _mm256_storeu_pd_ [C03 C06 C07]*/
    ensures
        final(mem).v@ == put::<F64>(put::<F64>(put::<F64>(put::<F64>(old(mem).v@, p.a@ + 0, emb(v.v0@)), p.a@ + 1, emb(v.v1@)), p.a@ + 2, emb(v.v2@)), p.a@ + 3, emb(v.v3@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_store_pd_(p: P<F64>, v: V4d, mem: &mut Mem)
    requires
        has_avx(old(mem).v@.cpu), /*@req _mm256_store_pd_ [C11]*/
        p.a@ % 4 == 0, /*@req _mm256_store_pd_ [C07]*/
        p.lo@ <= p.a@ && p.a@ + 4 <= p.hi@, /*@req _mm256_store_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 0), /*@req _mm256_store_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 1), /*@req _mm256_store_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 2), /*@req _mm256_store_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@ + 3), /*@req _mm256_store_pd_ [C03 C06 C07]*/
    ensures
        final(mem).v@ == put::<F64>(put::<F64>(put::<F64>(put::<F64>(old(mem).v@, p.a@ + 0, emb(v.v0@)), p.a@ + 1, emb(v.v1@)), p.a@ + 2, emb(v.v2@)), p.a@ + 3, emb(v.v3@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_permute2f128_pd_(a: V4d, b: V4d, imm: i32, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_permute2f128_pd_ [C11]*/
        0 <= imm < 256, /*@req _mm256_permute2f128_pd_ [C01]*/
    ensures
        r.v0@ == (if ((imm as int) / 8) % 2 == 1 { rzero() } else if (imm as int) % 4 == 0 { a.v0@ } else if (imm as int) % 4 == 1 { a.v2@ } else if (imm as int) % 4 == 2 { b.v0@ } else { b.v2@ }),
        r.v1@ == (if ((imm as int) / 8) % 2 == 1 { rzero() } else if (imm as int) % 4 == 0 { a.v1@ } else if (imm as int) % 4 == 1 { a.v3@ } else if (imm as int) % 4 == 2 { b.v1@ } else { b.v3@ }),
        r.v2@ == (if ((imm as int / 16) / 8) % 2 == 1 { rzero() } else if (imm as int / 16) % 4 == 0 { a.v0@ } else if (imm as int / 16) % 4 == 1 { a.v2@ } else if (imm as int / 16) % 4 == 2 { b.v0@ } else { b.v2@ }),
        r.v3@ == (if ((imm as int / 16) / 8) % 2 == 1 { rzero() } else if (imm as int / 16) % 4 == 0 { a.v1@ } else if (imm as int / 16) % 4 == 1 { a.v3@ } else if (imm as int / 16) % 4 == 2 { b.v1@ } else { b.v3@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_extractf128_pd_(a: V4d, imm: i32, mem: &Mem) -> (r: V2d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_extractf128_pd_ [C11]*/
        0 <= imm < 256, /*@req _mm256_extractf128_pd_ [C01]*/
    ensures
        r.v0@ == (if imm as int % 2 == 0 { a.v0@ } else { a.v2@ }),
        r.v1@ == (if imm as int % 2 == 0 { a.v1@ } else { a.v3@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_blend_pd_(a: V4d, b: V4d, imm: i32, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_blend_pd_ [C11]*/
        0 <= imm < 256, /*@req _mm256_blend_pd_ [C01]*/
    ensures
        r.v0@ == (if (imm as int / 1) % 2 == 0 { a.v0@ } else { b.v0@ }),
        r.v1@ == (if (imm as int / 2) % 2 == 0 { a.v1@ } else { b.v1@ }),
        r.v2@ == (if (imm as int / 4) % 2 == 0 { a.v2@ } else { b.v2@ }),
        r.v3@ == (if (imm as int / 8) % 2 == 0 { a.v3@ } else { b.v3@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_shuffle_pd_(a: V4d, b: V4d, imm: i32, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_shuffle_pd_ [C11]*/
        0 <= imm < 256, /*@req _mm256_shuffle_pd_ [C01]*/
    ensures
        r.v0@ == (if (imm as int / 1) % 2 == 0 { a.v0@ } else { a.v1@ }),
        r.v1@ == (if (imm as int / 2) % 2 == 0 { b.v0@ } else { b.v1@ }),
        r.v2@ == (if (imm as int / 4) % 2 == 0 { a.v2@ } else { a.v3@ }),
        r.v3@ == (if (imm as int / 8) % 2 == 0 { b.v2@ } else { b.v3@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_shuffle_ps_(a: V8, b: V8, imm: i32, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_shuffle_ps_ [C11]*/
        0 <= imm < 256, /*@req _mm256_shuffle_ps_ [C01]*/
    ensures
        r.v0@ == (if (imm as int / 1) % 4 == 0 { a.v0@ } else if (imm as int / 1) % 4 == 1 { a.v1@ } else if (imm as int / 1) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v1@ == (if (imm as int / 4) % 4 == 0 { a.v0@ } else if (imm as int / 4) % 4 == 1 { a.v1@ } else if (imm as int / 4) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v2@ == (if (imm as int / 16) % 4 == 0 { b.v0@ } else if (imm as int / 16) % 4 == 1 { b.v1@ } else if (imm as int / 16) % 4 == 2 { b.v2@ } else { b.v3@ }),
        r.v3@ == (if (imm as int / 64) % 4 == 0 { b.v0@ } else if (imm as int / 64) % 4 == 1 { b.v1@ } else if (imm as int / 64) % 4 == 2 { b.v2@ } else { b.v3@ }),
        r.v4@ == (if (imm as int / 1) % 4 == 0 { a.v4@ } else if (imm as int / 1) % 4 == 1 { a.v5@ } else if (imm as int / 1) % 4 == 2 { a.v6@ } else { a.v7@ }),
        r.v5@ == (if (imm as int / 4) % 4 == 0 { a.v4@ } else if (imm as int / 4) % 4 == 1 { a.v5@ } else if (imm as int / 4) % 4 == 2 { a.v6@ } else { a.v7@ }),
        r.v6@ == (if (imm as int / 16) % 4 == 0 { b.v4@ } else if (imm as int / 16) % 4 == 1 { b.v5@ } else if (imm as int / 16) % 4 == 2 { b.v6@ } else { b.v7@ }),
        r.v7@ == (if (imm as int / 64) % 4 == 0 { b.v4@ } else if (imm as int / 64) % 4 == 1 { b.v5@ } else if (imm as int / 64) % 4 == 2 { b.v6@ } else { b.v7@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_permute_ps_(a: V8, imm: i32, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_permute_ps_ [C11]*/
        0 <= imm < 256, /*@req _mm256_permute_ps_ [C01]*/
    ensures
        r.v0@ == (if (imm as int / 1) % 4 == 0 { a.v0@ } else if (imm as int / 1) % 4 == 1 { a.v1@ } else if (imm as int / 1) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v1@ == (if (imm as int / 4) % 4 == 0 { a.v0@ } else if (imm as int / 4) % 4 == 1 { a.v1@ } else if (imm as int / 4) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v2@ == (if (imm as int / 16) % 4 == 0 { a.v0@ } else if (imm as int / 16) % 4 == 1 { a.v1@ } else if (imm as int / 16) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v3@ == (if (imm as int / 64) % 4 == 0 { a.v0@ } else if (imm as int / 64) % 4 == 1 { a.v1@ } else if (imm as int / 64) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v4@ == (if (imm as int / 1) % 4 == 0 { a.v4@ } else if (imm as int / 1) % 4 == 1 { a.v5@ } else if (imm as int / 1) % 4 == 2 { a.v6@ } else { a.v7@ }),
        r.v5@ == (if (imm as int / 4) % 4 == 0 { a.v4@ } else if (imm as int / 4) % 4 == 1 { a.v5@ } else if (imm as int / 4) % 4 == 2 { a.v6@ } else { a.v7@ }),
        r.v6@ == (if (imm as int / 16) % 4 == 0 { a.v4@ } else if (imm as int / 16) % 4 == 1 { a.v5@ } else if (imm as int / 16) % 4 == 2 { a.v6@ } else { a.v7@ }),
        r.v7@ == (if (imm as int / 64) % 4 == 0 { a.v4@ } else if (imm as int / 64) % 4 == 1 { a.v5@ } else if (imm as int / 64) % 4 == 2 { a.v6@ } else { a.v7@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_permute_ps_(a: V4, imm: i32, mem: &Mem) -> (r: V4)
    requires
        has_avx(mem.v@.cpu), /*@req _mm_permute_ps_ [C11]*/
        0 <= imm < 256, /*@req _mm_permute_ps_ [C01]*/
    ensures
        r.v0@ == (if (imm as int / 1) % 4 == 0 { a.v0@ } else if (imm as int / 1) % 4 == 1 { a.v1@ } else if (imm as int / 1) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v1@ == (if (imm as int / 4) % 4 == 0 { a.v0@ } else if (imm as int / 4) % 4 == 1 { a.v1@ } else if (imm as int / 4) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v2@ == (if (imm as int / 16) % 4 == 0 { a.v0@ } else if (imm as int / 16) % 4 == 1 { a.v1@ } else if (imm as int / 16) % 4 == 2 { a.v2@ } else { a.v3@ }),
        r.v3@ == (if (imm as int / 64) % 4 == 0 { a.v0@ } else if (imm as int / 64) % 4 == 1 { a.v1@ } else if (imm as int / 64) % 4 == 2 { a.v2@ } else { a.v3@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_permute_pd_(a: V4d, imm: i32, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_permute_pd_ [C11]*/
        0 <= imm < 256, /*@req _mm256_permute_pd_ [C01]*/
    ensures
        r.v0@ == (if (imm as int / 1) % 2 == 0 { a.v0@ } else { a.v1@ }),
        r.v1@ == (if (imm as int / 2) % 2 == 0 { a.v0@ } else { a.v1@ }),
        r.v2@ == (if (imm as int / 4) % 2 == 0 { a.v2@ } else { a.v3@ }),
        r.v3@ == (if (imm as int / 8) % 2 == 0 { a.v2@ } else { a.v3@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_moveldup_ps_(a: V8, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_moveldup_ps_ [C11]*/
    ensures
        r.v0@ == a.v0@,
        r.v1@ == a.v0@,
        r.v2@ == a.v2@,
        r.v3@ == a.v2@,
        r.v4@ == a.v4@,
        r.v5@ == a.v4@,
        r.v6@ == a.v6@,
        r.v7@ == a.v6@,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_movehdup_ps_(a: V8, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_movehdup_ps_ [C11]*/
    ensures
        r.v0@ == a.v1@,
        r.v1@ == a.v1@,
        r.v2@ == a.v3@,
        r.v3@ == a.v3@,
        r.v4@ == a.v5@,
        r.v5@ == a.v5@,
        r.v6@ == a.v7@,
        r.v7@ == a.v7@,
{ unimplemented!() }
/// broadcast of a scalar variable (the source passes a reference to it)
#[verifier::external_body]
pub fn _mm256_broadcast_sd_(x: &F64, mem: &Mem) -> (r: V4d)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_broadcast_sd_ [C11]*/
    ensures
        r.v0@ == x.v@,
        r.v1@ == x.v@,
        r.v2@ == x.v@,
        r.v3@ == x.v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_broadcast_ss_(x: &F32, mem: &Mem) -> (r: V8)
    requires
        has_avx(mem.v@.cpu), /*@req _mm256_broadcast_ss_ [C11]*/
    ensures
        r.v0@ == x.v@,
        r.v1@ == x.v@,
        r.v2@ == x.v@,
        r.v3@ == x.v@,
        r.v4@ == x.v@,
        r.v5@ == x.v@,
        r.v6@ == x.v@,
        r.v7@ == x.v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_store_ss_(p: P<F32>, v: V4, mem: &mut Mem)
    requires
        true, /*@req _mm_store_ss_ [C11]*/
        p.inb(p.a@), /*@req _mm_store_ss_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@), /*@req _mm_store_ss_ [C03 C06 C07]*/
    ensures
        final(mem).v@ == put::<F32>(old(mem).v@, p.a@, emb(v.v0@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_storel_pd_(p: P<F64>, v: V2d, mem: &mut Mem)
    requires
        true, /*@req _mm_storel_pd_ [C11]*/
        p.inb(p.a@), /*@req _mm_storel_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@), /*@req _mm_storel_pd_ [C03 C06 C07]*/
    ensures
        final(mem).v@ == put::<F64>(old(mem).v@, p.a@, emb(v.v0@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_storeh_pd_(p: P<F64>, v: V2d, mem: &mut Mem)
    requires
        true, /*@req _mm_storeh_pd_ [C11]*/
        p.inb(p.a@), /*@req _mm_storeh_pd_ [C03 C06 C07]*/
        old(mem).v@.wr.contains(p.a@), /*@req _mm_storeh_pd_ [C03 C06 C07]*/
    ensures
        final(mem).v@ == put::<F64>(old(mem).v@, p.a@, emb(v.v1@)),
{ unimplemented!() }
