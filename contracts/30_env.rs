// ------------------------------------------------------------------
// 30_env.rs: environment variables, CPU count, thread pool handles
// ------------------------------------------------------------------
/// value of an environment variable as valid text (None: unset or not UTF-8), while the process runs
pub uninterp spec fn env_of(name: Seq<char>) -> Option<Seq<u8>>;
/// number of physical CPUs
pub uninterp spec fn phys() -> usize;
/// what `usize::from_str` makes of a text
pub uninterp spec fn us_of(s: Seq<u8>) -> Option<usize>;
pub struct EnvR { pub v: Ghost<Option<Seq<u8>>> }
#[verifier::external_body]
pub fn var_(name: &'static str) -> (r: EnvR) ensures r.v@ == env_of(name@) { unimplemented!() }
#[verifier::external_body]
pub fn ok_m_(e: EnvR) -> (r: Option<Str>) ensures (match r { Some(s) => e.v@ == Some(s.b@) && s.b@.len() <= isize::MAX, None => e.v@ is None }) { unimplemented!() }
#[verifier::external_body]
pub fn is_empty_m_(s: Str) -> (r: bool) ensures r == (s.b@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn usize_from_str_(s: &Str) -> (r: Result<usize, ()>) ensures (match r { Ok(v) => us_of(s.b@) == Some(v), Err(_) => us_of(s.b@) is None }) { unimplemented!() }
#[verifier::external_body]
pub fn get_physical_() -> (r: usize) ensures r == phys() { unimplemented!() }
/// thread budget with the `threading` feature
pub open spec fn budget() -> int {
    let v = match env_of("MATMUL_NUM_THREADS"@) {
        Some(s) => if s.len() > 0 { match us_of(s) { Some(v) => v as int, None => 1 } } else { phys() as int },
        None => phys() as int,
    };
    imin(imax(1, v), 4)
}

/// thread pool handles; the pool's join calls run every closure and wait for all (assumed)
#[derive(Clone, Copy)]
pub struct ThreadPoolCtx { pub g: Ghost<int> }
impl ThreadPoolCtx { pub fn child_(&self) -> (r: ThreadPoolCtx) { *self } }
