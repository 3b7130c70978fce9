//! Guarded matrices, checking allocator, fault handler.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub const PG: usize = 4096;
pub static mut CASE: [u8; 2048] = [0; 2048];
pub static CASELEN: AtomicUsize = AtomicUsize::new(0);
/// (start, end, kind) of the mapped areas of the current case; kind 0: free slot
pub static mut REG: [(usize, usize, u8); 64] = [(0, 0, 0); 64];

pub fn set_case(s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(2047);
    unsafe { let p = std::ptr::addr_of_mut!(CASE) as *mut u8; std::ptr::copy_nonoverlapping(b.as_ptr(), p, n); }
    CASELEN.store(n, SeqCst);
}
pub fn reg_add(s: usize, e: usize, k: u8) -> usize {
    unsafe {
        let r = std::ptr::addr_of_mut!(REG) as *mut (usize, usize, u8);
        for i in 0..64 { if (*r.add(i)).2 == 0 { *r.add(i) = (s, e, k); return i; } }
    }
    usize::MAX
}
pub fn reg_del(i: usize) { if i < 64 { unsafe { *(std::ptr::addr_of_mut!(REG) as *mut (usize, usize, u8)).add(i) = (0, 0, 0); } } }

#[cfg(not(miri))]
mod sig {
    use super::*;
    fn put(s: &[u8]) { unsafe { libc::write(1, s.as_ptr() as _, s.len()); } }
    extern "C" fn on_sig(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
        unsafe {
            put(b"FAIL kind=");
            if sig == libc::SIGALRM { put(b"hang"); }
            else if sig == libc::SIGILL { put(b"sigill"); }
            else if sig == libc::SIGABRT { put(b"abort"); }
            else {
                let addr = (*info).si_addr() as usize;
                let uc = ctx as *mut libc::ucontext_t;
                let err = (*uc).uc_mcontext.gregs[libc::REG_ERR as usize];
                let gp = (*info).si_code == 128;
                if gp { put(b"gpfault"); } else {
                    let w = err & 2 != 0;
                    let mut k = b'?';
                    let r = std::ptr::addr_of!(REG) as *const (usize, usize, u8);
                    for i in 0..64 { let e = *r.add(i); if e.2 != 0 && addr >= e.0 && addr < e.1 { k = e.2; } }
                    put(b"fault-"); put(&[k]); put(if w { b"-write" } else { b"-read" });
                }
            }
            put(b" | ");
            let n = CASELEN.load(SeqCst);
            put(std::slice::from_raw_parts(std::ptr::addr_of!(CASE) as *const u8, n));
            put(b"\n");
            libc::_exit(9);
        }
    }
    pub fn install() {
        unsafe {
            // alternate stack
            let ss = libc::stack_t { ss_sp: libc::mmap(std::ptr::null_mut(), 1 << 16, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0), ss_flags: 0, ss_size: 1 << 16 };
            libc::sigaltstack(&ss, std::ptr::null_mut());
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_sig as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGALRM, libc::SIGABRT, libc::SIGFPE] { libc::sigaction(s, &sa, std::ptr::null_mut()); }
        }
    }
    pub fn alarm(s: u32) { unsafe { libc::alarm(s); } }
}
#[cfg(not(miri))]
pub use sig::*;
#[cfg(miri)]
pub fn install() {}
#[cfg(miri)]
pub fn alarm(_s: u32) {}

thread_local! { pub static ON: Cell<bool> = const { Cell::new(false) }; }
#[derive(Clone, Copy)]
struct Ent { p: usize, size: usize, align: usize, map: usize, maplen: usize, reg: usize }
const E0: Ent = Ent { p: 0, size: 0, align: 0, map: 0, maplen: 0, reg: 0 };
static mut TAB: [Ent; 64] = [E0; 64];
static LOCK: AtomicBool = AtomicBool::new(false);
pub static NALLOC: AtomicUsize = AtomicUsize::new(0);
fn lock() { while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() { std::hint::spin_loop(); } }
fn unlock() { LOCK.store(false, SeqCst); }
pub struct GA;
#[global_allocator]
static A: GA = GA;
#[allow(dead_code)]
pub fn fail_now(kind: &str, detail: &str) -> ! {
    ON.with(|o| o.set(false));
    let n = CASELEN.load(SeqCst);
    let c = unsafe { std::slice::from_raw_parts(std::ptr::addr_of!(CASE) as *const u8, n) };
    println!("FAIL kind={} | {} | {}", kind, String::from_utf8_lossy(c), detail);
    std::process::exit(9);
}
/// allocations made by the calling thread while ON and not yet released
pub fn outstanding() -> usize {
    lock();
    let mut n = 0;
    unsafe { let t = std::ptr::addr_of!(TAB) as *const Ent; for i in 0..64 { if (*t.add(i)).p != 0 { n += 1; } } }
    unlock();
    n
}
unsafe impl GlobalAlloc for GA {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        #[cfg(not(miri))]
        if l.size() > 0 && ON.try_with(|o| o.get()).unwrap_or(false) {
            let cnt = NALLOC.fetch_add(1, SeqCst);
            let al = l.align();
            let need = l.size() + 2 * al;
            let dp = (need + PG - 1) / PG;
            let maplen = (dp + 2) * PG;
            let map = libc::mmap(std::ptr::null_mut(), maplen, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as usize;
            let (ds, de) = (map + PG, map + PG + dp * PG);
            let mut s;
            match cnt % 3 {
                0 => { s = (de - l.size()) & !(al - 1); }
                1 => { s = (de - l.size()) & !(al - 1); if (s / al) % 2 == 0 && al < PG { s -= al; } }
                _ => { s = ds; if al < PG { s += al; } }
            }
            std::ptr::write_bytes(ds as *mut u8, 0xA5, de - ds);
            std::ptr::write_bytes(s as *mut u8, 0xFF, l.size());
            libc::mprotect(map as _, PG, 0);
            libc::mprotect(de as _, PG, 0);
            lock();
            let t = std::ptr::addr_of_mut!(TAB) as *mut Ent;
            for i in 0..64 {
                if (*t.add(i)).p == 0 {
                    *t.add(i) = Ent { p: s, size: l.size(), align: al, map, maplen, reg: reg_add(map, map + maplen, b'W') };
                    break;
                }
            }
            unlock();
            return s as *mut u8;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        #[cfg(not(miri))]
        {
            lock();
            let t = std::ptr::addr_of_mut!(TAB) as *mut Ent;
            let mut hit = None;
            for i in 0..64 { if (*t.add(i)).p == p as usize { hit = Some(*t.add(i)); (*t.add(i)).p = 0; break; } }
            unlock();
            if let Some(e) = hit {
                if e.size != l.size() || e.align != l.align() {
                    fail_now("dealloc-layout", &format!("allocated with size {} align {}, released with size {} align {}", e.size, e.align, l.size(), l.align()));
                }
                let (ds, de) = (e.map + PG, e.map + e.maplen - PG);
                for x in (ds..e.p).chain(e.p + e.size..de) { if *(x as *const u8) != 0xA5 { fail_now("workspace-overrun", &format!("byte {} relative to the allocation of {} bytes", x as isize - e.p as isize, e.size)); } }
                reg_del(e.reg);
                libc::munmap(e.map as _, e.maplen);
                return;
            }
        }
        System.dealloc(p, l)
    }
}

/// storage for a matrix whose elements have the given offsets (sorted, unique)
pub struct Buf<E> {
    pub base: *mut E,
    #[allow(dead_code)] pub lo: i64,
    #[allow(dead_code)] pub hi: i64,
    map: usize,
    maplen: usize,
    reg: usize,
    holes: Vec<(usize, usize)>,
}
impl<E: Copy> Buf<E> {
    #[cfg(not(miri))]
    pub fn new(offs: &[i64], kind: u8, end: bool) -> Buf<E> {
        let sz = std::mem::size_of::<E>();
        let (lo, hi) = (offs[0], offs[offs.len() - 1]);
        let len = (hi - lo + 1) as usize * sz;
        let dp = (len + PG - 1) / PG;
        let maplen = (dp + 4) * PG;
        unsafe {
            let map = libc::mmap(std::ptr::null_mut(), maplen, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as usize;
            assert!(map as isize != -1, "mmap");
            let ds = map + 2 * PG;
            let s = if end { ds + dp * PG - len } else { ds };
            let base = (s as isize - lo as isize * sz as isize) as *mut E;
            // pages without an addressed byte
            let mut used = vec![false; dp + 4];
            for &o in offs {
                let a = (base as isize + o as isize * sz as isize) as usize;
                used[(a - map) / PG] = true;
                used[(a + sz - 1 - map) / PG] = true;
            }
            let mut holes = vec![];
            for (i, &u) in used.iter().enumerate() { if !u { holes.push((map + i * PG, PG)); } }
            Buf { base, lo, hi, map, maplen, reg: reg_add(map, map + maplen, kind), holes }
        }
    }
    #[cfg(miri)]
    pub fn new(offs: &[i64], _kind: u8, _end: bool) -> Buf<E> {
        let (lo, hi) = (offs[0], offs[offs.len() - 1]);
        let n = (hi - lo + 1) as usize;
        unsafe {
            let p = System.alloc(Layout::array::<E>(n).unwrap()) as *mut E;
            Buf { base: p.wrapping_offset(-lo as isize), lo, hi, map: p as usize, maplen: n, reg: 0, holes: vec![] }
        }
    }
    pub fn ptr(&self, o: i64) -> *mut E { self.base.wrapping_offset(o as isize) }
    pub fn protect(&self, readonly: bool) {
        #[cfg(not(miri))]
        unsafe {
            if readonly { libc::mprotect(self.map as _, self.maplen, 1); }
            for &(a, l) in &self.holes { libc::mprotect(a as _, l, 0); }
        }
        let _ = readonly;
    }
    pub fn unprotect(&self) {
        #[cfg(not(miri))]
        unsafe { libc::mprotect(self.map as _, self.maplen, 3); }
    }
    /// bytes of the mapping, protected pages excluded
    pub fn bytes(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        let mut p = self.map;
        while p < self.map + self.maplen { if !self.holes.iter().any(|h| h.0 == p) { v.push((p, PG)); } p += PG; }
        v
    }
}
impl<E> Drop for Buf<E> {
    fn drop(&mut self) {
        reg_del(self.reg);
        #[cfg(not(miri))]
        unsafe { libc::munmap(self.map as _, self.maplen); }
        #[cfg(miri)]
        unsafe { System.dealloc(self.map as *mut u8, Layout::array::<E>(self.maplen).unwrap()); }
    }
}
