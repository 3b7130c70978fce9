//! Case generation.
use crate::case::Case;
use crate::rng::Rng;

fn dim(r: &mut Rng, big: u64, limit: u64) -> usize {
    let v = match r.below(10) {
        0 => r.below(4),
        1..=4 => 1 + r.below(20),
        5 | 6 => { let b = r.pick(&[4u64, 8, 12, 16, 24, 32, 40, 48, 64]); (b + r.below(3)).saturating_sub(1) }
        7 => 1 + r.below(70),
        _ => { let b = if big == 0 { 40 } else { big }; (b * (1 + r.below(2)) + r.below(5)).saturating_sub(2) }
    };
    v.min(limit).max(0) as usize
}
/// strides of an r x c matrix; `inj`: no two elements share a place
fn strides(r: &mut Rng, rows: usize, cols: usize, inj: bool, spaced: bool) -> (i64, i64) {
    let (rw, cl) = (rows.max(1) as i64, cols.max(1) as i64);
    let pad = if r.chance(1, 2) { 0 } else { r.range(0, 5) };
    let el = match r.below(4) { 0 | 1 => 1, 2 => r.range(1, 4), _ => 1 };
    let (mut rs, mut cs);
    if spaced && rows * cols <= 2000 {
        // rows (or columns) lie on pages of their own
        let big = r.pick(&[4096i64, 1024, 8192, 512, 3000]);
        if r.chance(1, 2) { cs = el; rs = cl * el + big; } else { rs = el; cs = rw * el + big; }
        if (rw.min(cl) * big) > 600_000 { cs = el; rs = cl * el + pad; }
    } else if r.chance(1, 2) { cs = el; rs = cl * el + pad; } else { rs = el; cs = rw * el + pad; }
    // rows interleave, but no two elements share a place
    if !spaced && r.chance(1, 7) {
        let gcd = |mut a: i64, mut b: i64| { while b != 0 { let t = a % b; a = b; b = t; } a };
        rs = r.range(2, 7);
        cs = rw + r.range(0, 4);
        while gcd(rs, cs) != 1 { cs += 1; }
        if r.chance(1, 2) {
            cs = r.range(2, 7);
            rs = cl + r.range(0, 4);
            while gcd(rs, cs) != 1 { rs += 1; }
        }
    }
    if !inj {
        match r.below(16) { 0 => rs = 0, 1 => cs = 0, 2 => { rs = 1; cs = 1; } 3 => { rs = 0; cs = 0; } 4 => { rs = 2; cs = 1 } _ => {} }
    }
    if r.chance(1, 5) { rs = -rs; }
    if r.chance(1, 5) { cs = -cs; }
    let odd = |r: &mut Rng| match r.below(7) { 0 => i64::MAX, 1 => i64::MIN, 2 => i64::MAX / 2 + 1, 3 => r.next() as i64, 4 => 0, 5 => 1, _ => -1 };
    if rows <= 1 && r.chance(1, 2) { rs = odd(r); }
    if cols <= 1 && r.chance(1, 2) { cs = odd(r); }
    (rs, cs)
}
pub struct Blocks { pub mc: u64, pub kc: u64, pub nc: u64 }
pub fn gen(profile: &str, r: &mut Rng, types: &[char], bl: &Blocks, idx: usize) -> Case {
    let ty = types[idx % types.len()];
    let half = if ty == 'c' || ty == 'z' { 2 } else { 1 };
    let (mut m, mut k, mut n);
    let seq = idx / types.len();
    let sweep = !(cfg!(miri));
    if sweep && seq < 18 * 18 && profile != "b" {
        m = seq % 18; n = seq / 18;
        k = r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 16, 17]);
    } else if cfg!(miri) {
        m = 1 + r.below(17) as usize; n = 1 + r.below(17) as usize; k = 1 + r.below(9) as usize;
    } else {
        let lim = 3_000u64;
        m = dim(r, bl.mc / half, lim); k = dim(r, bl.kc, lim); n = dim(r, bl.nc / half, lim);
        // keep the cost bounded
        while m * k * n > 400_000 {
            match r.below(3) { 0 => m = m.min(1 + r.below(20) as usize), 1 => k = k.min(1 + r.below(12) as usize), _ => n = n.min(1 + r.below(20) as usize) }
        }
    }
    // many steps of one blocking loop: few steps of it do not tell all steps apart
    if !cfg!(miri) && profile != "b" && !(sweep && seq < 18 * 18 && seq % 9 != 4) && r.chance(1, 25) {
        let deep = |r: &mut Rng, b: u64| ((b * (2 + r.below(8)) + r.below(4)).saturating_sub(1)).min(3_000) as usize;
        m = 1 + r.below(9) as usize; k = 1 + r.below(9) as usize; n = 1 + r.below(9) as usize;
        match r.below(4) { 0 | 1 => k = deep(r, bl.kc), 2 => m = deep(r, bl.mc / half), _ => n = deep(r, bl.nc / half) }
    }
    let spaced = profile == "C06" || profile == "C03" || r.chance(1, 6);
    if profile == "C05" || (r.chance(1, 40) && !cfg!(miri)) {
        match r.below(5) { 0 => m = 0, 1 => n = 0, 2 => { k = 0; m = m.max(1); n = n.max(1) } 3 => { k = 0; m = 1 + r.below(90) as usize; n = 1 + r.below(90) as usize } _ => k = 0 }
    }
    if profile == "b" {
        // large enough for several workers
        m = match r.below(4) { 0 => 96 + r.below(8) as usize, 1 => 128 + r.below(40) as usize, 2 => 97 + r.below(300) as usize, _ => 1 + r.below(300) as usize };
        k = 60 + r.below(300) as usize;
        n = 1 + r.below(260) as usize;
        if r.chance(1, 3) { m = 1 + r.below(200) as usize; }
        if r.chance(1, 12) { n = (bl.nc / half) as usize + r.below(60) as usize; k = 30 + r.below(80) as usize; m = 60 + r.below(100) as usize; }
    }
    if profile == "i" { m = m.max(1 + (r.below(2) as usize)); n = n.max(1 + (r.below(2) as usize)); k = k.max(1); }
    let cx = half == 2;
    let small = |r: &mut Rng| (r.range(-3, 3), if cx { r.range(-2, 2) } else { 0 });
    let al = match r.below(4) { 0 | 1 => (1, 0), 2 => (-1, if cx { 1 } else { 0 }), _ => small(r) };
    let mut be = match r.below(6) { 0 | 1 => (0, 0), 2 => (1, 0), 3 => (2, 0), 4 => (0, if cx { 1 } else { 0 }), _ => small(r) };
    if profile == "C04" || profile == "n" { be = (0, 0); }
    let inj_ab = profile == "i";
    let (rsa, csa) = strides(r, m, k, inj_ab, spaced);
    let (rsb, csb) = strides(r, k, n, inj_ab, spaced);
    let (mut rsc, mut csc) = strides(r, m, n, true, spaced);
    // unit-stride fast paths of the kernels
    if r.chance(1, 4) { if r.chance(1, 2) { rsc = 1; csc = (m.max(1) + r.below(3) as usize) as i64; } else { csc = 1; rsc = (n.max(1) + r.below(3) as usize) as i64; } }
    // the debug assertion of gemm_loop: a zero stride of C needs a dimension <= 1
    if m == 0 || n == 0 { if rsc == 0 { rsc = 1 } if csc == 0 { csc = 1 } }
    let mode = match profile { "i" => 'i', "b" => 'b', "n" => 'n', "C04" => if r.chance(1, 2) { 'x' } else { 'n' }, _ => 'x' };
    Case { ty, m, k, n, rsa, csa, rsb, csb, rsc, csc, al, be, bneg: r.chance(1, 2), nan: r.chance(2, 3), end: r.chance(1, 2), mode, seed: r.next() }
}
