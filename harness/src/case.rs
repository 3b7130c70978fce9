//! One call of a gemm function with everything the properties say about it.
use crate::el::El;
use crate::mem::*;
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Case {
    pub ty: char,
    pub m: usize, pub k: usize, pub n: usize,
    pub rsa: i64, pub csa: i64, pub rsb: i64, pub csb: i64, pub rsc: i64, pub csc: i64,
    pub al: (i64, i64), pub be: (i64, i64),
    /// beta is minus zero / C holds NaN before / matrices end at a page boundary
    pub bneg: bool, pub nan: bool, pub end: bool,
    /// x: exact, n: beta zero, i: isolation, b: bits
    pub mode: char,
    pub seed: u64,
}
impl Case {
    pub fn show(&self) -> String {
        format!("{} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}", self.mode, self.ty, self.m, self.k, self.n, self.rsa, self.csa, self.rsb, self.csb,
            self.rsc, self.csc, self.al.0, self.al.1, self.be.0, self.be.1, self.bneg as u8, self.nan as u8, self.end as u8, self.seed)
    }
    pub fn parse(s: &str) -> Option<Case> {
        let v: Vec<&str> = s.split_whitespace().collect();
        if v.len() < 19 { return None; }
        let i = |x: usize| v[x].parse::<i64>().ok();
        Some(Case { mode: v[0].chars().next()?, ty: v[1].chars().next()?, m: i(2)? as usize, k: i(3)? as usize, n: i(4)? as usize,
            rsa: i(5)?, csa: i(6)?, rsb: i(7)?, csb: i(8)?, rsc: i(9)?, csc: i(10)?, al: (i(11)?, i(12)?), be: (i(13)?, i(14)?),
            bneg: i(15)? != 0, nan: i(16)? != 0, end: i(17)? != 0, seed: v[18].parse().ok()? })
    }
}
fn off(i: usize, rs: i64, j: usize, cs: i64) -> i64 { (i as i64).wrapping_mul(rs).wrapping_add((j as i64).wrapping_mul(cs)) }
fn offs(r: usize, c: usize, rs: i64, cs: i64) -> Vec<i64> {
    let mut v = Vec::with_capacity(r * c);
    for i in 0..r { for j in 0..c { v.push(off(i, rs, j, cs)); } }
    v.sort_unstable();
    v.dedup();
    v
}
fn h(seed: u64, o: i64, tag: u64) -> u64 {
    let mut z = seed ^ (o as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ tag.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// small integer value of the element at offset o
fn val(seed: u64, o: i64, tag: u64, cx: bool) -> (i64, i64) {
    let x = h(seed, o, tag);
    let re = (x % 7) as i64 - 3;
    let im = if cx { ((x >> 20) % 5) as i64 - 2 } else { 0 };
    (re, im)
}
fn frac<E: El>(seed: u64, o: i64, tag: u64) -> E {
    let x = h(seed, o, tag);
    E::frac(((x & 0xffff) as f64) / 21847.0 - 1.4, (((x >> 16) & 0xffff) as f64) / 30103.0 - 1.1)
}
pub struct Fail { pub kind: String, pub detail: String }
fn f(kind: &str, detail: String) -> Result<u64, Fail> { Err(Fail { kind: kind.into(), detail }) }

fn raw<E: El>(e: E) -> Vec<u8> { unsafe { std::slice::from_raw_parts(&e as *const E as *const u8, E::SZ).to_vec() } }

struct Mats<E> { a: Option<Buf<E>>, b: Option<Buf<E>>, c: Option<Buf<E>>, oa: Vec<i64>, ob: Vec<i64>, oc: Vec<i64> }
fn mats<E: El>(q: &Case) -> Mats<E> {
    let live = q.m > 0 && q.n > 0;
    let oa = if live && q.k > 0 { offs(q.m, q.k, q.rsa, q.csa) } else { vec![] };
    let ob = if live && q.k > 0 { offs(q.k, q.n, q.rsb, q.csb) } else { vec![] };
    let oc = if live { offs(q.m, q.n, q.rsc, q.csc) } else { vec![] };
    let mk = |o: &Vec<i64>, k: u8| if o.is_empty() { None } else { Some(Buf::<E>::new(o, k, q.end)) };
    Mats { a: mk(&oa, b'A'), b: mk(&ob, b'B'), c: mk(&oc, b'C'), oa, ob, oc }
}
/// fill everything the mapping can hold with NaN, then the elements
fn fill<E: El>(b: &Buf<E>, o: &[i64], poison: bool, g: impl Fn(i64) -> E) {
    let _ = poison;
    #[cfg(not(miri))]
    if poison {
        let n = raw(E::nan(0x1234));
        for (p, l) in b.bytes() {
            // whole elements only: the mapping is aligned to the element size
            unsafe { let w = std::ptr::read_unaligned(n.as_ptr() as *const E); let q = p as *mut E; for i in 0..l / E::SZ { *q.add(i) = w; } }
        }
    }
    for &x in o { unsafe { *b.ptr(x) = g(x); } }
}
fn dangling<E>() -> *mut E { 64 as *mut E }

unsafe fn call<E: El>(q: &Case, ms: &Mats<E>, al: E, be: E) -> Result<(), Fail> {
    let pa = ms.a.as_ref().map_or(dangling::<E>(), |b| b.ptr(0));
    let pb = ms.b.as_ref().map_or(dangling::<E>(), |b| b.ptr(0));
    let pc = ms.c.as_ref().map_or(dangling::<E>(), |b| b.ptr(0));
    if let Some(b) = &ms.a { b.protect(true); }
    if let Some(b) = &ms.b { b.protect(true); }
    if let Some(b) = &ms.c { b.protect(false); }
    alarm(20);
    let r = catch_unwind(AssertUnwindSafe(|| {
        ON.with(|o| o.set(true));
        E::gemm(q.m, q.k, q.n, al, pa, q.rsa as isize, q.csa as isize, pb, q.rsb as isize, q.csb as isize, be, pc, q.rsc as isize, q.csc as isize);
        ON.with(|o| o.set(false));
    }));
    ON.with(|o| o.set(false));
    alarm(0);
    for b in [&ms.a, &ms.b, &ms.c] { if let Some(b) = b { b.unprotect(); } }
    if let Err(e) = r {
        let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        return Err(Fail { kind: "panic".into(), detail: s });
    }
    let n = outstanding();
    if n != 0 { return Err(Fail { kind: "leak".into(), detail: format!("{} allocation(s) not released", n) }); }
    Ok(())
}
#[cfg(not(miri))]
fn canaries<E: El>(b: &Buf<E>, o: &[i64]) -> Result<u64, Fail> {
    let nan = E::nan(0x1234).bits();
    let mut k = 0usize;
    for (p, l) in b.bytes() {
        let mut x = p;
        while x + E::SZ <= p + l {
            let off = (x as isize - b.base as isize) / E::SZ as isize;
            while k < o.len() && o[k] < off as i64 { k += 1; }
            let addressed = k < o.len() && o[k] == off as i64;
            if !addressed && unsafe { *(x as *const E) }.bits() != nan {
                return f("canary", format!("element offset {} outside the matrix was written", off));
            }
            x += E::SZ;
        }
    }
    Ok(0)
}
fn cmulz(a: (i64, i64), b: (i64, i64)) -> (i64, i64) { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }

pub fn run<E: El>(q: &Case) -> Result<u64, Fail> {
    let ms = mats::<E>(q);
    let bez = q.be == (0, 0);
    unsafe {
        match q.mode {
            'x' => {
                let va = |o| val(q.seed, o, 1, E::CX);
                let vb = |o| val(q.seed, o, 2, E::CX);
                let vc = |o| val(q.seed, o, 3, E::CX);
                if let Some(b) = &ms.a { fill(b, &ms.oa, true, |o| { let v = va(o); E::of(v.0, v.1) }); }
                if let Some(b) = &ms.b { fill(b, &ms.ob, true, |o| { let v = vb(o); E::of(v.0, v.1) }); }
                if let Some(b) = &ms.c { fill(b, if cfg!(miri) && bez { &[] } else { &ms.oc }, true, |o| { let v = vc(o); if q.nan && bez { E::nan(7) } else { E::of(v.0, v.1) } }); }
                let be = if bez && q.bneg { E::negzero() } else { E::of(q.be.0, q.be.1) };
                call(q, &ms, E::of(q.al.0, q.al.1), be)?;
                if let Some(c) = &ms.c {
                    for i in 0..q.m { for j in 0..q.n {
                        let mut s = (0i64, 0i64);
                        for p in 0..q.k {
                            let t = cmulz(va(off(i, q.rsa, p, q.csa)), vb(off(p, q.rsb, j, q.csb)));
                            s.0 += t.0; s.1 += t.1;
                        }
                        s = cmulz(q.al, s);
                        let o = off(i, q.rsc, j, q.csc);
                        if !bez { let t = cmulz(q.be, vc(o)); s.0 += t.0; s.1 += t.1; }
                        let got = *c.ptr(o);
                        if got.ints() != Some(s) {
                            let g = got.ints();
                            if bez && q.nan {
                                // does a zero-filled C give a different result?
                                let mut q2 = q.clone();
                                q2.nan = false;
                                q2.mode = 'z';
                                if run::<E>(&q2).is_ok() { return f("nanbeta", format!("C[{},{}] is {:?} instead of {:?}; right when C holds zeros before", i, j, g, s)); }
                            }
                            return f(if q.k == 0 { "value-k0" } else { "value" }, format!("C[{},{}] is {:?}, expected {:?}", i, j, g, s));
                        }
                    } }
                    #[cfg(not(miri))]
                    canaries(c, &ms.oc)?;
                }
                Ok(0)
            }
            // beta zero, zero-filled C: only the values
            'z' => {
                if let Some(b) = &ms.a { fill(b, &ms.oa, true, |o| { let v = val(q.seed, o, 1, E::CX); E::of(v.0, v.1) }); }
                if let Some(b) = &ms.b { fill(b, &ms.ob, true, |o| { let v = val(q.seed, o, 2, E::CX); E::of(v.0, v.1) }); }
                if let Some(b) = &ms.c { fill(b, &ms.oc, true, |_| E::of(0, 0)); }
                let be = if q.bneg { E::negzero() } else { E::of(0, 0) };
                call(q, &ms, E::of(q.al.0, q.al.1), be)?;
                if let Some(c) = &ms.c {
                    for i in 0..q.m { for j in 0..q.n {
                        let mut s = (0i64, 0i64);
                        for p in 0..q.k {
                            let t = cmulz(val(q.seed, off(i, q.rsa, p, q.csa), 1, E::CX), val(q.seed, off(p, q.rsb, j, q.csb), 2, E::CX));
                            s.0 += t.0; s.1 += t.1;
                        }
                        s = cmulz(q.al, s);
                        if (*c.ptr(off(i, q.rsc, j, q.csc))).ints() != Some(s) { return f("value", String::new()); }
                    } }
                }
                Ok(0)
            }
            // beta zero: NaN-filled and zero-filled C give bit-identical results; any data
            'n' => {
                let mut first: Vec<(u64, u64)> = vec![];
                for pass in 0..3 {
                    if let Some(b) = &ms.a { fill(b, &ms.oa, false, |o| frac::<E>(q.seed, o, 1)); }
                    if let Some(b) = &ms.b { fill(b, &ms.ob, false, |o| frac::<E>(q.seed, o, 2)); }
                    if let Some(b) = &ms.c { fill(b, &ms.oc, false, |_| match pass { 0 => E::of(0, 0), 1 => E::nan(9), _ => E::inf() }); }
                    let be = if q.bneg { E::negzero() } else { E::of(0, 0) };
                    call(q, &ms, E::of(q.al.0, q.al.1), be)?;
                    if let Some(c) = &ms.c {
                        let v: Vec<_> = ms.oc.iter().map(|&o| (*c.ptr(o)).bits()).collect();
                        if pass == 0 { first = v; } else if v != first {
                            let x = (0..v.len()).find(|&x| v[x] != first[x]).unwrap();
                            return f("nanbeta", format!("element at offset {} depends on the former contents of C ({})", ms.oc[x], if pass == 1 { "NaN" } else { "infinity" }));
                        }
                    }
                }
                Ok(0)
            }
            // isolation: poison one row of A, one column of B, and C there
            'i' => {
                let mut r = Rng::new(q.seed);
                let (i0, j0) = (r.below(q.m as u64) as usize, r.below(q.n as u64) as usize);
                let which = r.below(3);
                let pa: std::collections::HashSet<i64> = (0..q.k).map(|p| off(i0, q.rsa, p, q.csa)).collect();
                let pb: std::collections::HashSet<i64> = (0..q.k).map(|p| off(p, q.rsb, j0, q.csb)).collect();
                let mut first: Vec<(u64, u64)> = vec![];
                for pass in 0..2 {
                    if let Some(b) = &ms.a { fill(b, &ms.oa, false, |o| if pass == 1 && which != 1 && pa.contains(&o) { if h(q.seed, o, 5) & 1 == 0 { E::nan(3) } else { E::inf() } } else { frac::<E>(q.seed, o, 1) }); }
                    if let Some(b) = &ms.b { fill(b, &ms.ob, false, |o| if pass == 1 && which != 0 && pb.contains(&o) { if h(q.seed, o, 6) & 1 == 0 { E::nan(4) } else { E::inf() } } else { frac::<E>(q.seed, o, 2) }); }
                    if let Some(c) = &ms.c {
                        fill(c, &ms.oc, false, |o| frac::<E>(q.seed, o, 3));
                        if pass == 1 {
                            if which != 1 { for j in 0..q.n { *c.ptr(off(i0, q.rsc, j, q.csc)) = E::nan(5); } }
                            if which != 0 { for i in 0..q.m { *c.ptr(off(i, q.rsc, j0, q.csc)) = E::nan(5); } }
                        }
                    }
                    let be = if bez && q.bneg { E::negzero() } else { E::of(q.be.0, q.be.1) };
                    call(q, &ms, E::of(q.al.0, q.al.1), be)?;
                    if let Some(c) = &ms.c {
                        let mut v = vec![];
                        for i in 0..q.m { for j in 0..q.n {
                            if (which != 1 && i == i0) || (which != 0 && j == j0) { continue; }
                            v.push((*c.ptr(off(i, q.rsc, j, q.csc))).bits());
                        } }
                        if pass == 0 { first = v; } else if v != first {
                            let x = (0..v.len()).find(|&x| v[x] != first[x]).unwrap();
                            return f("leak-through", format!("element number {} outside row {} / column {} changed", x, i0, j0));
                        }
                    }
                }
                Ok(0)
            }
            // bits of the result, to compare between thread counts
            'b' => {
                if let Some(b) = &ms.a { fill(b, &ms.oa, false, |o| frac::<E>(q.seed, o, 1)); }
                if let Some(b) = &ms.b { fill(b, &ms.ob, false, |o| frac::<E>(q.seed, o, 2)); }
                if let Some(b) = &ms.c { fill(b, &ms.oc, false, |o| frac::<E>(q.seed, o, 3)); }
                let be = if bez && q.bneg { E::negzero() } else { E::frac(q.be.0 as f64 * 0.37, q.be.1 as f64 * 0.21) };
                call(q, &ms, E::frac(q.al.0 as f64 * 0.61, q.al.1 as f64 * 0.43), be)?;
                let mut x = 0xcbf2_9ce4_8422_2325u64;
                if let Some(c) = &ms.c {
                    for &o in &ms.oc { let (p, r) = (*c.ptr(o)).bits(); for w in [p, r] { x = (x ^ w).wrapping_mul(0x1000_0000_01b3); x ^= x >> 29; } }
                }
                Ok(x)
            }
            // configuration must be refused before anything is touched (NULL-page pointers)
            'r' => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let d = dangling::<E>();
                    NALLOC.store(0, std::sync::atomic::Ordering::SeqCst);
                    alarm(20);
                    ON.with(|o| o.set(true));
                    E::gemm(q.m, q.k, q.n, E::of(1, 0), d, 1, q.m as isize, d, 1, q.k as isize, E::of(1, 0), d, 1, q.m as isize);
                    ON.with(|o| o.set(false));
                }));
                ON.with(|o| o.set(false));
                alarm(0);
                if r.is_ok() { return f("config-accepted", String::new()); }
                Ok(0)
            }
            _ => Ok(0),
        }
    }
}
pub fn run_any(q: &Case) -> Result<u64, Fail> {
    set_case(&q.show());
    match q.ty {
        's' => run::<f32>(q),
        'd' => run::<f64>(q),
        'c' => run::<crate::el::C32>(q),
        _ => run::<crate::el::C64>(q),
    }
}
