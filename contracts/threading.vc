@struct threading::Registry
@struct threading::LoopThreadConfig
@item threading
%if dbg rel cc
pub struct ThreadPool { pub g: Ghost<int> }
impl ThreadPool {
    #[verifier::external_body] pub fn new_level0() -> (r: ThreadPool) { unimplemented!() }
    #[verifier::external_body] pub fn new_with_level(l: usize) -> (r: ThreadPool) { unimplemented!() }
    #[verifier::external_body] pub fn top(&self) -> (r: ThreadPoolCtx) { unimplemented!() }
}
%endif
%if nt ns
pub struct ThreadPool { pub g: Ghost<int> }
impl ThreadPool {
    #[verifier::external_body] pub fn top(&self) -> (r: ThreadPoolCtx) { unimplemented!() }
}
%endif
@fn threading::REGISTRY
@pure
@props C10
%if dbg rel cc
@ens r.nthreads == budget()
%endif
%if nt ns
@ens r.nthreads == 1
%endif
@fn threading::Registry::thread_pool
@pure
@trusted returns a handle of the one thread pool (thread_tree); carries no data the properties depend on
@fn threading::get_thread_pool
@pure
@props C10
%if dbg rel cc
@ens r.0 == budget()
%endif
%if nt ns
@ens r.0 == 1
%endif
@ens 1 <= r.0 <= 4
%if dbg rel cc
@fn threading::LoopThreadConfig::new_impl
@pure
@props C10
@req[C08] m * k + k * n <= usize::MAX && kmc <= usize::MAX / 4 
@ens (r.loop3 == 1 || r.loop3 == 2) && (r.loop2 == 1 || r.loop2 == 2)
@ens r.loop3 * r.loop2 <= imax(1, max_threads as int)
%endif
@fn threading::LoopThreadConfig::num_pack_a
@pure
@props C10
@ens r == self.loop3

# ---------------------------------------------------------------- parallel loops, as their callers see them
@item threading
/// one run of RANGE.parallel(nth, pool).thread_local(..).for_each(..): the chunks not yet done
pub struct ForEach { pub n: Ghost<int>, pub chunk: Ghost<int>, pub nth: Ghost<int>, pub done: Ghost<ISet<int>>, pub cnt: Ghost<int> }
impl ForEach {
    pub open spec fn total(self) -> int { ceil_div(self.n@, self.chunk@) }
    pub open spec fn worker(self, t: int) -> int { t / part_cp(self.n@, self.chunk@, self.nth@) }
    pub open spec fn left(self) -> int { self.total() - self.cnt@ }
    pub open spec fn wf(self) -> bool { 1 <= self.nth@ <= 4 && self.n@ >= 0 && self.chunk@ > 0 && 0 <= self.cnt@ <= self.total() }
    #[verifier::external_body]
    pub fn more(&self) -> (r: bool)
        requires self.wf(),
        ensures r == (exists|t: int| 0 <= t < self.total() && !(#[trigger] self.done@.contains(t))), r ==> self.cnt@ < self.total(),
    { unimplemented!() }
    /// any chunk that is not done, its size, and the worker it falls to
    #[verifier::external_body]
    pub fn pick(&mut self) -> (r: (usize, usize, usize))
        requires old(self).wf(), exists|t: int| 0 <= t < old(self).total() && !(#[trigger] old(self).done@.contains(t)),
        ensures
            0 <= r.1 < old(self).total() && !old(self).done@.contains(r.1 as int),
            r.2 == chunk_sz(old(self).n@, old(self).chunk@, r.1 as int),
            r.0 == old(self).worker(r.1 as int) && r.0 < old(self).nth@,
            *final(self) == (ForEach { done: Ghost(old(self).done@.insert(r.1 as int)), cnt: Ghost(old(self).cnt@ + 1), ..*old(self) }),
            final(self).wf(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth_(&self) -> (r: usize) ensures r == self.nth@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pool_(&self) -> (r: ThreadPoolCtx) { unimplemented!() }
}
#[verifier::external_body]
pub fn foreach_new_(range: crate::util::RangeChunk, nth: u8, pool: ThreadPoolCtx) -> (r: ForEach)
    requires
        range.i == 0, /*@req for_each [C09]*/
        range.chunk > 0, /*@req for_each [C08 C09]*/
        range.n + 5 * range.chunk <= usize::MAX, /*@req for_each [C08]*/
        1 <= nth <= 4, /*@req for_each [C08 C09]*/
    ensures
        r.n@ == range.n, r.chunk@ == range.chunk, r.done@ == ISet::<int>::empty(), r.cnt@ == 0, r.wf(),
%if dbg rel cc
        r.nth@ == nth,
%endif
%if nt ns
        r.nth@ == 1,
%endif
{ unimplemented!() }
/// Chunks of different workers do not touch what the other writes.
pub open spec fn w_disj(fe: ForEach, w: RawF, r: RawF) -> bool {
    forall|t1: int, t2: int, s: int| #![trigger w(t1, s), w(t2, s)] #![trigger w(t1, s), r(t2, s)]
        0 <= t1 < fe.total() && 0 <= t2 < fe.total() && fe.worker(t1) != fe.worker(t2) ==> !(w(t1, s) && (w(t2, s) || r(t2, s)))
}
/// While chunk t runs, its worker has: what the chunk may write (w), what it may read (r), and the
/// private memory acquired since `pre`.
#[verifier::external_body]
pub fn restrict_(fe: &ForEach, t: Ghost<int>, pre: Ghost<MV>, w: Ghost<RawF>, r: Ghost<RawF>, mem: &mut Mem)
    requires
        0 <= t@ < fe.total(),
        w_have(old(mem).v@, w@, t@), /*@req restrict_ [C03 C07 C09]*/
        r_have(old(mem).v@, r@, t@), /*@req restrict_ [C06 C07 C09]*/
        w_disj(*fe, w@, r@), /*@req restrict_ [C09]*/
    ensures restricted(pre@, old(mem).v@, final(mem).v@, w@, r@, t@),
{ unimplemented!() }
/// Back to the permissions of `pre`; what was written in between is readable. What the chunk had no
/// permission for (mx) it did not touch.
#[verifier::external_body]
pub fn restore_(pre: Ghost<MV>, mx: Ghost<MV>, mem: &mut Mem)
    requires forall|s: int| #[trigger] old(mem).v@.wr.contains(s) ==> pre@.wr.contains(s),
    ensures restored(pre@, mx@, old(mem).v@, final(mem).v@),
{ unimplemented!() }
@fn threading::LoopThreadConfig::new
@pure
@props C09 C10
@req[C08] m * k + k * n <= usize::MAX && K::mc_s() <= usize::MAX / 4
@ens (r.loop3 == 1 || r.loop3 == 2) && (r.loop2 == 1 || r.loop2 == 2)
@ens r.loop3 * r.loop2 <= imax(1, max_threads as int)
@start
proof { assert forall|a: int, b: int| a == 1 && b == 1 implies #[trigger] (a * b) == 1 by { assert(a * b == 1) by(nonlinear_arith) requires a == 1, b == 1; } }

# ---------------------------------------------------------------- the bodies of parallel loops' machinery
@struct threading::RangeChunkParallel
@item threading
/// stand-ins for the closures a caller passes: what they are called with is recorded
#[derive(Clone, Copy)]
pub struct NopFn { }
pub const nop: NopFn = NopFn { };
/// what a parallel loop has run so far: chunk -> (size, worker)
pub struct Log { pub v: Ghost<IMap<int, (int, int)>> }
/// a worker's local value
pub struct LocalV { pub w: Ghost<int> }
#[derive(Clone, Copy)]
pub struct LocFn { }
impl LocFn {
    #[verifier::external_body]
    pub fn call_(&self, i: usize, nth: usize, mem: &mut Log) -> (r: LocalV) ensures r.w@ == i, final(mem).v@ == old(mem).v@, { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct FeFn { }
impl FeFn {
    #[verifier::external_body]
    pub fn call_(&self, pool: ThreadPoolCtx, local: &mut LocalV, ln: usize, sz: usize, mem: &mut Log)
        requires
            !old(mem).v@.contains_key(ln as int), /*@req for_each_body [C01 C09]*/
        ensures final(mem).v@ == old(mem).v@.insert(ln as int, (sz as int, old(local).w@)), final(local).w@ == old(local).w@,
    { unimplemented!() }
}
@fn threading::RangeChunk::parallel
@sig (self, nthreads: u8, pool: ThreadPoolCtx) -> (r: RangeChunkParallel<NopFn>)
@pure
@props C01 C09
@ens r.range == self && r.nthreads == nthreads
@fn threading::RangeChunkParallel::thread_local
@where impl<G> RangeChunkParallel<G>
@sig <G2>(self, func: G2) -> (r: RangeChunkParallel<G2>)
@pure
@props C01 C09
@ens r.range == self.range && r.nthreads == self.nthreads && r.thread_local == func
%if dbg rel cc
%def PCTX=range.i == 0 && range.chunk > 0 && range.n + 5 * range.chunk <= usize::MAX && index < nthreads && 1 <= nthreads <= 4
@fn threading::RangeChunkParallel::for_each::inner
@sig (range: RangeChunk, index: usize, nthreads: usize, pool: ThreadPoolCtx, thread_local: &LocFn, for_each: &FeFn, mem: &mut Log)
@props C01 C09
@req $PCTX
@req forall|t: int| #[trigger] in_part(range.n as int, range.chunk as int, nthreads as int, index as int, t) ==> !old(mem).v@.contains_key(t)
@ens part_run(old(mem).v@, final(mem).v@, range.n as int, range.chunk as int, nthreads as int, index as int)
@start
let ghost m0 = mem.v@;
let ghost (n0, c0, w, nt) = (range.n as int, range.chunk as int, index as int, nthreads as int);
let ghost i0 = part_cp(n0, c0, nt) * w;
proof { l_part(n0, c0, w, nt); l_ceil(n0, c0); }
@loop for ln
@dec ln__iter.n
@lens ln__iter.n == 0
@inv $PCTX && ln__iter.chunk == range.chunk && n0 == range.n && c0 == range.chunk && w == index && nt == nthreads && i0 == part_cp(n0, c0, nt) * w && local.w@ == w
@inv it_next(n0, c0, nt, w, ln__iter.i as int, ln__iter.n as int)
@inv forall|t: int| #[trigger] in_part(n0, c0, nt, w, t) ==> !m0.contains_key(t)
@inv forall|t: int| #![trigger mem.v@.contains_key(t)] #![trigger mem.v@[t]] if i0 <= t < ln__iter.i { mem.v@.contains_key(t) && mem.v@[t] == (chunk_sz(n0, c0, t), w) } else { mem.v@.contains_key(t) == m0.contains_key(t) && mem.v@[t] == m0[t] }
@before
proof { l_it_start(n0, c0, nt, w); l_it_next(n0, c0, nt, w, ln__iter.i as int, ln__iter.n as int); }
@begin
proof { l_it_step(n0, c0, nt, w, ln as int, ln__iter.n + chunk_size); }
%endif
@fn threading::RangeChunkParallel::for_each
@where impl RangeChunkParallel<LocFn>
@sig (self, for_each: FeFn, mem: &mut Log)
@props C01 C09
@req self.range.i == 0 && self.range.chunk > 0 && self.range.n + 5 * self.range.chunk <= usize::MAX && 1 <= self.nthreads <= 4
@req old(mem).v@ == IMap::<int, (int, int)>::empty()
%if dbg rel cc
@ens all_run(final(mem).v@, self.range.n as int, self.range.chunk as int, self.nthreads as int)
%endif
@start
proof {
    broadcast use {b_parts_step, b_parts_free, b_parts_all};
    l_parts0(self.range.n as int, self.range.chunk as int, self.nthreads as int);
}
%endif
%if nt ns
@ens all_run(final(mem).v@, self.range.n as int, self.range.chunk as int, 1)
@start
let ghost (n0, c0) = (self.range.n as int, self.range.chunk as int);
proof { l_part(n0, c0, 0, 1); l_ceil(n0, c0); l_one_part(n0, c0); }
@loop for ln
@dec ln__iter.n
@lens ln__iter.n == 0
@inv n0 >= 0 && c0 > 0 && n0 == self.range.n && c0 == self.range.chunk && ln__iter.chunk == self.range.chunk && local.w@ == 0
@inv it_next(n0, c0, 1, 0, ln__iter.i as int, ln__iter.n as int) && part_cp(n0, c0, 1) == ceil_div(n0, c0)
@inv forall|t: int| #![trigger mem.v@.contains_key(t)] mem.v@.contains_key(t) == (0 <= t < ln__iter.i) && (mem.v@.contains_key(t) ==> mem.v@[t] == (chunk_sz(n0, c0, t), 0int))
@before
proof { l_it_start(n0, c0, 1, 0); l_it_next(n0, c0, 1, 0, ln__iter.i as int, ln__iter.n as int); }
@begin
proof { l_it_step(n0, c0, 1, 0, ln as int, ln__iter.n + chunk_size); }
@after
proof {
    l_one_done(n0, c0);
    assert forall|t: int| #[trigger] mem.v@.contains_key(t) == in_part(n0, c0, 1, 0, t) by {
        assert(mem.v@.contains_key(t) == (0 <= t < ln__iter.i));
        if in_part(n0, c0, 1, 0, t) { } else { }
    }
    assert forall|t: int| #[trigger] mem.v@.contains_key(t) implies mem.v@[t] == (chunk_sz(n0, c0, t), t / part_cp(n0, c0, 1)) by { }
}
%endif
