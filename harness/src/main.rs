//! Concrete search and replay against the real crate.
//!   mmh run PROFILE TYPES SEED BUDGET_MS [MC KC NC]
//!   mmh hash SEED COUNT TYPES         one line per case: case hash
//!   mmh replay CASE...                run one case
//!   mmh refuse TYPES                  blocking configuration must be refused
//!   mmh empty TYPES                   calls with an empty dimension
//!   mmh big                           one large call (to look at the threads)
mod case;
mod el;
mod gen;
mod mem;
mod rng;
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    std::panic::set_hook(Box::new(|_| {}));
    // start the thread pool before anything is measured
    let warm = |m: usize| unsafe {
        let v = vec![0f64; m * m];
        let mut c = vec![0f64; m * m];
        let m_ = m as isize;
        matrixmultiply::dgemm(m, m, m, 1., v.as_ptr(), m_, 1, v.as_ptr(), m_, 1, 0., c.as_mut_ptr(), m_, 1);
    };
    mem::install();
    if cmd != "refuse" && cmd != "empty" && !cfg!(miri) {
        mem::set_case("first call, 200 x 200 x 200");
        mem::alarm(30);
        let r = std::panic::catch_unwind(|| warm(200));
        mem::alarm(0);
        if r.is_err() { println!("FAIL kind=panic | first call, 200 x 200 x 200"); std::process::exit(1); }
    }
    match cmd {
        "run" => {
            let profile = &a[2];
            let types: Vec<char> = a[3].chars().collect();
            let seed: u64 = a[4].parse().unwrap();
            let ms: u128 = a[5].parse().unwrap();
            let g = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
            let bl = gen::Blocks { mc: g(6, 64), kc: g(7, 256), nc: g(8, 1024) };
            let mut r = rng::Rng::new(seed);
            let t = Instant::now();
            let (mut n, mut nt, mut fails) = (0u64, 0u64, 0);
            let mut kinds = std::collections::BTreeSet::new();
            let mut seen = std::collections::HashSet::new();
            let mut sample = String::new();
            let max = if cfg!(miri) { ms as u64 } else { u64::MAX };
            while (cfg!(miri) || t.elapsed().as_millis() < ms) && n < max {
                let q = gen::gen(profile, &mut r, &types, &bl, n as usize);
                n += 1;
                let key = (q.ty, q.m, q.k, q.n, q.rsa == 1, q.rsc == 1, q.csc == 1, q.be == (0, 0));
                if q.m * q.n > 0 && (q.k > 0 || profile == "C05") && q.al != (0, 0) && seen.insert(key) { nt += 1; if sample.is_empty() || n == 500 { sample = q.show(); } }
                if let Err(e) = case::run_any(&q) {
                    // one report of each kind
                    if kinds.insert(e.kind.clone()) { println!("FAIL kind={} | {} | {}", e.kind, q.show(), e.detail); }
                    fails += 1;
                    if fails > 200 { break; }
                }
            }
            println!("DONE cases={} distinct={} sample={}", n, nt, sample);
            std::process::exit(if fails > 0 { 1 } else { 0 });
        }
        "hash" => {
            let seed: u64 = a[2].parse().unwrap();
            let cnt: usize = a[3].parse().unwrap();
            let types: Vec<char> = a[4].chars().collect();
            let bl = gen::Blocks { mc: 64, kc: 256, nc: 1024 };
            let mut r = rng::Rng::new(seed);
            for i in 0..cnt {
                let q = gen::gen("b", &mut r, &types, &bl, i);
                match case::run_any(&q) {
                    Ok(h) => println!("HASH {:016x} | {}", h, q.show()),
                    Err(e) => println!("FAIL kind={} | {} | {}", e.kind, q.show(), e.detail),
                }
            }
        }
        "replay" => {
            let q = case::Case::parse(&a[2..].join(" ")).expect("case");
            match case::run_any(&q) {
                Ok(h) => println!("OK {:016x}", h),
                Err(e) => { println!("FAIL kind={} | {} | {}", e.kind, q.show(), e.detail); std::process::exit(1); }
            }
        }
        "empty" => {
            // calls with an empty dimension, whatever the blocking configuration
            let mut bad = 0;
            let mut cnt = 0;
            for ty in a[2].chars() {
                for (m, k, n) in [(3usize, 0usize, 2usize), (1, 0, 1), (17, 0, 9), (0, 2, 3), (2, 3, 0), (0, 0, 4), (4, 0, 0), (0, 0, 0), (0, 5, 0)] {
                    for be in [(0, 0), (1, 0), (2, 0)] {
                        let (mi, ki, ni) = (m.max(1) as i64, k.max(1) as i64, n.max(1) as i64);
                        let q = case::Case { ty, m, k, n, rsa: ki, csa: 1, rsb: ni, csb: 1, rsc: 1, csc: mi, al: (2, 0), be, bneg: false, nan: be == (0, 0), end: false, mode: 'x', seed: 7 };
                        cnt += 1;
                        if let Err(e) = case::run_any(&q) { println!("FAIL kind={} | {} | {}", e.kind, q.show(), e.detail); bad = 1; break; }
                    }
                }
            }
            println!("DONE cases={} distinct={} sample=empty dimensions under a refused configuration", cnt, cnt);
            std::process::exit(bad);
        }
        "refuse" => {
            let mut bad = 0;
            for ty in a[2].chars() {
                for (m, k, n) in [(1usize, 1usize, 1usize), (9, 3, 5), (70, 300, 20)] {
                    let q = case::Case { ty, m, k, n, rsa: 1, csa: 1, rsb: 1, csb: 1, rsc: 1, csc: 1, al: (1, 0), be: (1, 0), bneg: false, nan: false, end: false, mode: 'r', seed: 0 };
                    if let Err(e) = case::run_any(&q) { println!("FAIL kind={} | {}", e.kind, q.show()); bad = 1; break; }
                    let na = mem::NALLOC.load(std::sync::atomic::Ordering::SeqCst);
                    let _ = na;
                }
            }
            println!("DONE");
            std::process::exit(bad);
        }
        _ => println!("usage"),
    }
}
