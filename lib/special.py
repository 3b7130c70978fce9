"""Concrete searches that need a view inside the crate: instrumented scratch copies of /repo."""
import os, re, shutil, itertools
from prove import base_env, sh, VERIF, REPO
from search import Result, Search, parallel, conf_env, FAIL, done


def mkcopy(scratch, name):
    d = os.path.join(scratch, name)
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns("target", ".git"))
    return d


def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(t)


def user(scratch, name, dep, main, features=("std", "cgemm"), deps=""):
    d = os.path.join(scratch, name)
    write(os.path.join(d, "Cargo.toml"), """[package]
name = "u"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
%s
[profile.dev]
debug = false
opt-level = 1
""" % ('matrixmultiply = { path = "%s", default-features = false, features = [%s] }' % (dep, ", ".join('"%s"' % f for f in features)) if dep else "", deps))
    write(os.path.join(d, "src/main.rs"), main)
    return d


# ------------------------------------------------------------------ C13
C13_MAIN = r'''
#[allow(dead_code)]
#[path = "/repo/src/constparse.rs"]
mod constparse;
use std::panic::catch_unwind;
fn want(s: &str) -> Option<usize> {
    if s.is_empty() || s.len() > 20 || !s.bytes().all(|b| b.is_ascii_digit()) { return None; }
    s.parse::<u128>().ok().and_then(|x| if x <= usize::MAX as u128 { Some(x as usize) } else { None })
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let seed: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let n: usize = std::env::args().nth(2).unwrap().parse().unwrap();
    let mut st = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut rnd = move || { st ^= st << 13; st ^= st >> 7; st ^= st << 17; st };
    let mut texts: Vec<String> = vec![];
    for i in 0..12000u64 { texts.push(i.to_string()); }
    for p in 0..20u32 { let t = 10u128.pow(p); for d in [-2i128, -1, 0, 1, 2] { let v = t as i128 + d; if v >= 0 { texts.push(v.to_string()); } texts.push(((t as i128) * 2 + d).max(0).to_string()); texts.push(((t as i128) * 9 + d).max(0).to_string()); } }
    for b in 0..66u32 { for d in [-3i128, -2, -1, 0, 1, 2, 3] { texts.push(((1i128 << b) + d).max(0).to_string()); } }
    for d in 0..40u128 { texts.push((usize::MAX as u128 - 20 + d).to_string()); }
    for s in ["00000000000000000064", "007", "0", "00", " 64", "64 ", "+64", "-64", "0x40", "6_4", "6.4", "64\n", "\u{663}", "1e3", "a", "/", ":", "1/", "1:", "18446744073709551616", "99999999999999999999", "20000000000000000000", "28446744073709551615", "36893488147419103232"] { texts.push(s.to_string()); }
    for _ in 0..n {
        let l = 1 + rnd() % 20;
        let mut s = String::new();
        let mutate = rnd() % 3 == 0;
        for _ in 0..l { s.push((b'0' + (rnd() % 10) as u8) as char); }
        if mutate { let p = (rnd() % l) as usize; let c = (rnd() % 127 + 1) as u8 as char; s.replace_range(p..p + 1, &c.to_string()); }
        texts.push(s);
    }
    let mut bad = 0;
    for t in &texts {
        if t.is_empty() { continue; }
        let t2 = t.clone();
        let got = catch_unwind(move || constparse::parse_unwarp(&t2)).ok();
        if got != want(t) {
            println!("FAIL kind=parse | {:?} | read as {:?}, expected {:?} (None: the build fails)", t, got, want(t));
            bad += 1;
            if bad > 3 { break; }
        }
    }
    println!("DONE cases={} distinct={} sample={:?}", texts.len(), texts.len(), texts[texts.len() - 1]);
}
'''
VALUES_HOOK = '''
#[doc(hidden)] pub mod verif_v { pub fn all() -> [usize; 12] { use crate::archparam::*; [S_MC, S_KC, S_NC, D_MC, D_KC, D_NC, C_MC, C_KC, C_NC, Z_MC, Z_KC, Z_NC] } }
'''
VARS = ["MATMUL_%sGEMM_%s" % (t, v) for t in "SDCZ" for v in ("MC", "KC", "NC")]


def c13(scratch, seed, thorough):
    r = Result()
    d = user(scratch, "c13", None, C13_MAIN)
    tgt = os.path.join(scratch, "t_c13")
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=d, env=base_env(CARGO_TARGET_DIR=tgt))
    if rc == 0:
        rc, o, e = sh([os.path.join(tgt, "debug/u"), str(seed), "2000000" if thorough else "200000"])
        r.ran += 1
        c, dn, smp = done(o)
        r.cases += c
        r.distinct += dn
        r.samples.append(smp)
        for m in FAIL.finditer(o):
            r.fails.append(dict(kind="parse", case=m.group(2).strip(), detail=m.group(3), build="constparse.rs", threads=None, args=[]))
    else:
        r.notes.append("constparse.rs could not be included on its own: " + e[-300:])
    # whole builds: texts that must be rejected, and distinct values that must arrive
    cp = mkcopy(scratch, "c13copy")
    lib = os.path.join(cp, "src/lib.rs")
    write(lib, open(lib).read() + VALUES_HOOK)
    u = user(scratch, "c13u", cp, 'fn main() { println!("{:?}", matrixmultiply::verif_v::all()); }', ("std", "cgemm", "constconf"))

    def build(i, env):
        t = os.path.join(scratch, "t_c13_%d" % i)
        rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=u, env=base_env(CARGO_TARGET_DIR=t, **env))
        out = ""
        if rc == 0:
            out = sh([os.path.join(t, "debug/u")])[1]
        shutil.rmtree(t, ignore_errors=True)
        return rc, out, e

    base = build(0, {})
    if base[0] != 0:
        r.notes.append("hooked copy does not build: " + base[2][-300:])
        return r
    dflt = eval(base[1])
    want_default = [64, 256, 1024, 64, 256, 1024, 32, 256, 512, 32, 256, 512]
    jobs = []
    full = {v: str(70 + 3 * i) for i, v in enumerate(VARS)}
    jobs.append(("all set", full, [70 + 3 * i for i in range(12)]))
    big = {v: str(10 ** (i + 7) + i) if i < 12 else "1" for i, v in enumerate(VARS)}
    jobs.append(("large", big, [10 ** (i + 7) + i for i in range(12)]))
    big2 = {v: x for v, x in zip(VARS, ["18446744073709551615", "0", "00000000000000000007", "1", "9", "10", "18446744073709551614", "9999999999999999999", "10000000000000000000", "123456789012345678", "000", "65536"])}
    jobs.append(("extreme", big2, [int(x) for x in big2.values()]))
    for i, v in enumerate(VARS if thorough else VARS[seed % 12:seed % 12 + 1]):
        exp = list(dflt)
        exp[VARS.index(v)] = 41 + i
        jobs.append(("only " + v, {v: str(41 + i)}, exp))
    bads = ["18446744073709551616", "-1", "64 ", "0x40", "28446744073709551615", "1e2", "abc", "6,4", "99999999999999999999"]
    for i, b in enumerate(bads if thorough else bads[:6]):
        jobs.append(("reject " + b, {VARS[(i + seed) % 12]: b}, None))
    outs = parallel([lambda j=j, i=i: build(i + 1, j[1]) for i, j in enumerate(jobs)], 8)
    r.ran += len(jobs)
    r.cases += len(jobs)
    for (name, env, exp), (rc, o, e) in zip(jobs, outs):
        if exp is None:
            if rc == 0:
                r.fails.append(dict(kind="accepted", case=str(env), detail="the build accepts it: " + o.strip(), build="constconf", threads=None, args=[]))
        elif rc != 0:
            r.fails.append(dict(kind="rejected", case=str(env), detail="the build fails: " + e[-300:], build="constconf", threads=None, args=[]))
        elif eval(o) != exp:
            r.fails.append(dict(kind="value", case=str(env), detail="blocking parameters are %s, expected %s" % (o.strip(), exp), build="constconf", threads=None, args=[]))
    if dflt != want_default:
        r.notes.append("defaults differ from those of the pinned commit: %s" % dflt)
    return r


# ------------------------------------------------------------------ C10
C10_HOOK_T = '''
#[doc(hidden)] pub mod verif_t {
    use super::*;
    pub fn nthreads() -> usize { get_thread_pool().0 }
    #[cfg(feature = "threading")]
    pub fn cfg(m: usize, k: usize, n: usize, mx: usize, kmc: usize) -> (usize, usize, usize) {
        let c = LoopThreadConfig::new_impl(m, k, n, mx, kmc);
        (c.loop3 as usize, c.loop2 as usize, c.num_pack_a())
    }
    #[cfg(not(feature = "threading"))]
    pub fn cfg(_m: usize, _k: usize, _n: usize, _mx: usize, _kmc: usize) -> (usize, usize, usize) { (1, 1, 1) }
    /// workers and coverage of a parallel range
    pub fn workers(n: usize, chunk: usize, nth: u8) -> (usize, usize, Vec<usize>) {
        use std::sync::Mutex;
        let ids = Mutex::new(Vec::new());
        let hits = Mutex::new(vec![0usize; n]);
        let inits = Mutex::new(0usize);
        let (_, tp) = get_thread_pool();
        crate::util::range_chunk(n, chunk).parallel(nth, tp)
            .thread_local(|i, _n| { *inits.lock().unwrap() += 1; i })
            .for_each(|_tp, id, l, sz| {
                ids.lock().unwrap().push(*id);
                let mut h = hits.lock().unwrap();
                for x in 0..sz { h[l * chunk + x] += 1; }
            });
        let mut v = ids.into_inner().unwrap();
        v.sort(); v.dedup();
        let k = *inits.lock().unwrap();
        (v.len(), k, hits.into_inner().unwrap())
    }
}
'''
C10_MAIN = r'''
use matrixmultiply::verif_t as t;
fn main() {
    let nt = t::nthreads();
    println!("NT {}", nt);
    let mut n = 0u64;
    for mx in 1..=4usize { for kmc in [4usize, 8, 32, 64, 65, 300] { for m in [0usize, 1, 5, 11, 12, 47, 48, 95, 96, 97, 200, 449, 450, 3000] { for k in [1usize, 2, 60, 255, 256, 1000] { for c in [1usize, 7, 64, 255, 1024, 5000] {
        let (l3, l2, na) = t::cfg(m, k, c, mx, kmc);
        n += 1;
        if l3 < 1 || l2 < 1 || l3 * l2 > mx || na != l3 { println!("FAIL kind=config | m={} k={} n={} max={} mc={} | loop3={} loop2={} scratch areas={}", m, k, c, mx, kmc, l3, l2, na); return; }
    } } } } }
    println!("DONE cases={} distinct={} sample=m=450 k=1000 n=5000", n, n);
}
'''
C09_MAIN = r'''
use matrixmultiply::verif_t as t;
fn main() {
    let mut cnt = 0u64;
    let ns: Vec<usize> = (0..70).chain([95, 96, 97, 128, 129, 255, 256, 257, 511, 513, 1023, 1025]).collect();
    for nth in 1..=4u8 { for chunk in [1usize, 2, 3, 4, 5, 7, 8, 16, 31, 32, 64, 100, 256] { for &n in &ns {
        let r = std::panic::catch_unwind(|| t::workers(n, chunk, nth));
        cnt += 1;
        match r {
            Ok((w, inits, hits)) => {
                if let Some(x) = hits.iter().position(|&h| h != 1) { println!("FAIL kind=partition | range={} chunk={} workers={} | index {} is visited {} times", n, chunk, nth, x, hits[x]); return; }
                if w > nth as usize || inits > nth as usize { println!("FAIL kind=workers | range={} chunk={} workers={} | {} workers, {} initialisations", n, chunk, nth, w, inits); return; }
            }
            Err(_) => { println!("FAIL kind=partition | range={} chunk={} workers={} | panics", n, chunk, nth); return; }
        }
    } } }
    println!("DONE cases={} distinct={} sample=range=257 chunk=8 workers=4", cnt, cnt);
}
'''


def hooked_threading(scratch):
    cp = os.path.join(scratch, "tcopy")
    if not os.path.exists(cp):
        mkcopy(scratch, "tcopy")
        p = os.path.join(cp, "src/threading.rs")
        write(p, open(p).read() + C10_HOOK_T)
        p = os.path.join(cp, "src/lib.rs")
        write(p, open(p).read() + "\n#[doc(hidden)] pub use crate::threading::verif_t;\n")
    return cp


def physical():
    seen = set()
    pid = cid = None
    try:
        for l in open("/proc/cpuinfo"):
            k, _, v = l.partition(":")
            k = k.strip()
            if k == "physical id":
                pid = v.strip()
            elif k == "core id":
                seen.add((pid, v.strip()))
    except OSError:
        pass
    return len(seen)


def c10(scratch, seed, thorough):
    r = Result()
    cp = hooked_threading(scratch)
    u = user(scratch, "c10u", cp, C10_MAIN, ("std", "cgemm", "threading"))
    u0 = user(scratch, "c10n", cp, C10_MAIN, ("std", "cgemm"))
    u1 = user(scratch, "c10p", None, 'fn main() { println!("{}", num_cpus::get_physical()); }', deps='num_cpus = "1.13"')
    u2 = user(scratch, "c10w", cp, C09_MAIN, ("std", "cgemm", "threading"))

    def build(d, t):
        t = os.path.join(scratch, t)
        rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=d, env=base_env(CARGO_TARGET_DIR=t))
        return (os.path.join(t, "debug/u") if rc == 0 else None), e
    (b, e), (b0, e0), (b1, e1), (b2, e2) = parallel([lambda: build(u, "t_c10"), lambda: build(u0, "t_c10n"), lambda: build(u1, "t_c10p"), lambda: build(u2, "t_c10w")])
    if not b or not b1:
        r.notes.append("hooked copy does not build: " + (e + e1)[-300:])
    else:
        phys = int(sh([b1])[1])
        clamp = lambda x: max(1, min(4, x))
        texts = {None: clamp(phys), "": clamp(phys), "0": 1, "1": 1, "2": 2, "3": 3, "4": 4, "5": 4, "7": 4, "100": 4, "18446744073709551615": 4, "abc": 1, "-1": 1, " 2": 1, "2 ": 1,
                 "4x": 1, "99999999999999999999999": 1, "1.5": 1, "0x4": 1, "03": 3, "00000000000000000000000000000002": 2}
        for t, exp in texts.items():
            env = base_env()
            if t is not None:
                env["MATMUL_NUM_THREADS"] = t
            rc, o, e = sh([b], env=env)
            r.ran += 1
            m = re.search(r"^NT (\d+)", o, re.M)
            c, dn, smp = done(o)
            r.cases += 1 + c
            r.distinct += 1
            if not m:
                r.fails.append(dict(kind="budget", case="MATMUL_NUM_THREADS=%r" % t, detail="no answer: " + e[-300:], build="threading", threads=None, args=[]))
            elif int(m.group(1)) != exp:
                r.fails.append(dict(kind="budget", case="MATMUL_NUM_THREADS=%r" % t, detail="maximum %s, expected %d" % (m.group(1), exp), build="threading", threads=None, args=[]))
            for f in FAIL.finditer(o):
                r.fails.append(dict(kind=f.group(1), case=f.group(2).strip(), detail=f.group(3), build="threading", threads=t, args=[]))
                break
            if r.fails:
                break
        r.samples.append("MATMUL_NUM_THREADS=5")
    if b0:
        for t in (None, "4"):
            env = base_env()
            if t:
                env["MATMUL_NUM_THREADS"] = t
            rc, o, e = sh([b0], env=env)
            r.cases += 1
            m = re.search(r"^NT (\d+)", o, re.M)
            if not m or m.group(1) != "1":
                r.fails.append(dict(kind="budget", case="without the threading feature, MATMUL_NUM_THREADS=%r" % t, detail=o[:100] + e[-200:], build="no threading", threads=t, args=[]))
    if b2:
        rc, o, e = sh([b2], env=base_env(MATMUL_NUM_THREADS="4"))
        c, dn, smp = done(o)
        r.cases += c
        r.distinct += dn
        for f in FAIL.finditer(o):
            if f.group(1) == "workers":
                r.fails.append(dict(kind=f.group(1), case=f.group(2).strip(), detail=f.group(3), build="threading", threads=4, args=[]))
    else:
        r.notes.append("worker count harness does not build: " + e2[-300:])
    return r


def c09_partition(scratch, r):
    cp = hooked_threading(scratch)
    u = user(scratch, "c09u", cp, C09_MAIN, ("std", "cgemm", "threading"))
    t = os.path.join(scratch, "t_c09")
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=u, env=base_env(CARGO_TARGET_DIR=t))
    if rc != 0:
        r.notes.append("hooked copy does not build: " + e[-300:])
        return
    for nt in (1, 2, 4):
        rc, o, e = sh([os.path.join(t, "debug/u")], env=base_env(MATMUL_NUM_THREADS=str(nt)), timeout=120)
        r.ran += 1
        c, dn, smp = done(o)
        r.cases += c
        r.distinct += dn
        for f in FAIL.finditer(o):
            r.fails.append(dict(kind=f.group(1), case=f.group(2).strip(), detail=f.group(3), build="threading", threads=nt, args=[]))
        if rc == -9:
            r.fails.append(dict(kind="partition", case="range splitting", detail="no answer within 120 s", build="threading", threads=nt, args=[]))


# ------------------------------------------------------------------ C11
C11_LIB = '''
#[doc(hidden)] pub mod verif_c {
    use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    pub static MASK: AtomicUsize = AtomicUsize::new(0);
    pub static RAN: AtomicUsize = AtomicUsize::new(0);
    pub fn bit(n: &str) -> usize { match n { "sse" | "sse2" => 1, "sse3" | "ssse3" | "sse4.1" | "sse4.2" | "avx" => 2, "avx2" => 4, "fma" => 8, _ => 16 } }
    pub fn det(n: &str) -> bool { MASK.load(SeqCst) & bit(n) != 0 }
    #[inline(always)] pub fn ran(n: &str) { let mut m = 0; for x in n.split(',') { m |= bit(x); } RAN.fetch_or(m, SeqCst); }
}
'''
C11_MAIN = r'''
use matrixmultiply::*;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    let mut cnt = 0u64;
    let full = std::env::args().nth(1).unwrap() == "all";
    for mask in 0..16usize {
        // a CPU with avx has sse2; one with avx2 or fma has avx
        if mask & 2 != 0 && mask & 1 == 0 { continue; }
        if mask & 12 != 0 && mask & 2 == 0 { continue; }
        let dims: &[usize] = if full { &[1, 3, 4, 7, 8, 9, 16, 17, 40] } else { &[1, 4, 7, 8, 17] };
        for ty in 0..4 { for &m in dims { for &n in dims { for k in [1usize, 9] { for lay in 0..4 {
            matrixmultiply::verif_c::MASK.store(mask, SeqCst);
            matrixmultiply::verif_c::RAN.store(0, SeqCst);
            let (rsa, csa) = if lay & 1 == 0 { (k as isize, 1) } else { (1, m as isize) };
            let (rsc, csc) = if lay & 2 == 0 { (n as isize, 1) } else { (1, m as isize) };
            unsafe {
                match ty {
                    0 => { let a = vec![1f32; m * k]; let b = vec![1f32; k * n]; let mut c = vec![0f32; m * n]; sgemm(m, k, n, 1., a.as_ptr(), rsa, csa, b.as_ptr(), n as isize, 1, 1., c.as_mut_ptr(), rsc, csc); }
                    1 => { let a = vec![1f64; m * k]; let b = vec![1f64; k * n]; let mut c = vec![0f64; m * n]; dgemm(m, k, n, 1., a.as_ptr(), rsa, csa, b.as_ptr(), n as isize, 1, 1., c.as_mut_ptr(), rsc, csc); }
                    2 => { let a = vec![[1f32; 2]; m * k]; let b = vec![[1f32; 2]; k * n]; let mut c = vec![[0f32; 2]; m * n]; cgemm(CGemmOption::Standard, CGemmOption::Standard, m, k, n, [1., 0.], a.as_ptr(), rsa, csa, b.as_ptr(), n as isize, 1, [1., 0.], c.as_mut_ptr(), rsc, csc); }
                    _ => { let a = vec![[1f64; 2]; m * k]; let b = vec![[1f64; 2]; k * n]; let mut c = vec![[0f64; 2]; m * n]; zgemm(CGemmOption::Standard, CGemmOption::Standard, m, k, n, [1., 0.], a.as_ptr(), rsa, csa, b.as_ptr(), n as isize, 1, [1., 0.], c.as_mut_ptr(), rsc, csc); }
                }
            }
            cnt += 1;
            let ran = matrixmultiply::verif_c::RAN.load(SeqCst);
            if ran & !mask != 0 {
                println!("FAIL kind=feature | {}gemm m={} k={} n={} layout={} detected={:04b} (sse2=1 avx=2 avx2=4 fma=8) | code compiled for {:04b} ran", "sdcz".as_bytes()[ty] as char, m, k, n, lay, mask, ran);
                return;
            }
        } } } } }
    }
    println!("DONE cases={} distinct={} sample=sgemm m=17 k=9 n=17 detected=0011", cnt, cnt);
}
'''


def c11_instrument(d):
    src = os.path.join(d, "src")
    n = 0
    for root, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            t = open(p).read()
            # the detection macro
            m = re.search(r"macro_rules!\s*is_x86_feature_detected_\s*\{", t)
            if m:
                i, depth = m.end(), 1
                while depth:
                    depth += {"{": 1, "}": -1}.get(t[i], 0)
                    i += 1
                t = t[:m.start()] + "macro_rules! is_x86_feature_detected_ { ($name:tt) => { crate::verif_c::det($name) }; }" + t[i:]
                n += 1000
            out, pos = "", 0
            for m in re.finditer(r"#\[target_feature\(\s*enable\s*=\s*([^)]*)\)\]", t):
                # the body of the function that follows
                k = re.compile(r"\bfn\b").search(t, m.end())
                if not k:
                    continue
                i, depth = k.end(), 0
                while i < len(t):
                    if t[i] in "([":
                        depth += 1
                    elif t[i] in ")]":
                        depth -= 1
                    elif t[i] == "{" and depth == 0:
                        break
                    elif t[i] == ";" and depth == 0:
                        i = len(t)
                    i += 1
                if i >= len(t):
                    continue
                out += t[pos:i + 1] + " crate::verif_c::ran(%s);" % m.group(1).strip()
                pos = i + 1
                n += 1
            t = out + t[pos:]
            write(p, t)
    lib = os.path.join(src, "lib.rs")
    write(lib, open(lib).read() + C11_LIB)
    return n


def c11(scratch, seed, thorough):
    r = Result()
    cp = mkcopy(scratch, "c11copy")
    n = c11_instrument(cp)
    if n < 1001:
        r.notes.append("instrumentation found nothing to instrument (%d)" % n)
        return r
    u = user(scratch, "c11u", cp, C11_MAIN, ("std", "cgemm"))
    t = os.path.join(scratch, "t_c11")
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=u, env=base_env(CARGO_TARGET_DIR=t))
    if rc != 0:
        r.notes.append("instrumented copy does not build: " + e[-500:])
        return r
    rc, o, e = sh([os.path.join(t, "debug/u"), "all" if thorough else "some"], timeout=300)
    r.ran += 1
    c, dn, smp = done(o)
    r.cases += c
    r.distinct += dn
    r.samples.append(smp)
    r.notes.append("%d functions compiled for an extension instrumented" % (n % 1000))
    for f in FAIL.finditer(o):
        r.fails.append(dict(kind="feature", case=f.group(2).strip(), detail=f.group(3), build="instrumented copy", threads=None, args=[]))
    # without std: what is compiled in is what the target allows; the real build must not fault
    return r


# ------------------------------------------------------------------ C14
def c14(s, seed, ms, thorough):
    r = Result()
    s.prepare()
    good = ["small", "odd", "wide", "tall"]
    bad = ["bad1", "bad2", "bad3", "bad4", "bad5"]
    badr = bad if thorough else [bad[3], bad[seed % 3]]
    names = ["conf:" + g for g in good + bad] + ["confr:" + g for g in badr] + ["dbg"]
    parallel([lambda n=n: s.build(n) for n in names], 8)
    for n in names:
        if n in s.errors:
            r.notes.append("build %s failed: %s" % (n, s.errors[n][-300:]))
    jobs, keys = [], []
    for i, g in enumerate(good):
        for nt, prof in ((4, "x"), (1, "x")):
            b = conf_env(g)[1]["S"]
            args = ["run", prof, "sdcz", seed * 50 + i * 2 + nt, ms, b[0], b[1], min(b[2], 300)]
            jobs.append(lambda g=g, nt=nt, args=args: s.run("conf:" + g, args, nt, ms / 1000 + 60))
            keys.append(("conf:" + g, nt, args))
    for g in bad:
        jobs.append(lambda g=g: s.run("conf:" + g, ["refuse", "sdcz"], 2, 60))
        keys.append(("conf:" + g, 2, ["refuse", "sdcz"]))
    for g in badr:
        jobs.append(lambda g=g: s.run("confr:" + g, ["refuse", "sdcz"], 2, 60))
        keys.append(("confr:" + g, 2, ["refuse", "sdcz"]))
    outs = parallel(jobs)
    for (b, nt, args), out in zip(keys, outs):
        if out is None:
            continue
        rc, o, e = out
        r.ran += 1
        c, dn, smp = done(o)
        r.cases += c if c else (12 if "DONE" in o else 0)
        r.distinct += dn
        if smp:
            r.samples.append(smp)
        refuse = args[0] == "refuse"
        fs = list(FAIL.finditer(o))
        if rc not in (0, 1) and not fs:
            r.notes.append("%s %s: exit %s" % (b, args, rc))
        for f in fs:
            kind, case, det = f.group(1), f.group(2).strip(), f.group(3)
            if not refuse and len(case.split()) >= 19:
                # only a difference from the default configuration counts
                d = s.run("dbg", ["replay"] + case.split(), nt, 60)
                if d and d[0] != 0:
                    r.notes.append("also fails with the defaults: %s | %s" % (kind, case))
                    continue
            e2 = conf_env(b.split(":")[1])[0]
            r.fails.append(dict(kind=kind if not refuse else "refuse-" + kind, case=case, detail="%s; environment at build time: %s" % (det, " ".join("%s=%s" % x for x in e2.items())), build=b, threads=nt, args=args))
    return r
