/// chunks per worker
pub open spec fn part_cp(n: int, chunk: int, total: int) -> int { ceil_div(ceil_div(n, chunk), total) }
/// elements of worker `index`
pub open spec fn part_n(n: int, chunk: int, index: int, total: int) -> int {
    let lo = part_cp(n, chunk, total) * index * chunk;
    let hi = imin(n, part_cp(n, chunk, total) * (index + 1) * chunk);
    if hi >= lo { hi - lo } else { 0 }
}
pub proof fn l_part(n: int, chunk: int, index: int, total: int)
    requires n >= 0, chunk > 0, 0 <= index < total, total <= 4,
    ensures
        part_cp(n, chunk, total) >= 0,
        0 <= part_cp(n, chunk, total) * index,
        part_cp(n, chunk, total) * index + part_cp(n, chunk, total) == part_cp(n, chunk, total) * (index + 1),
        part_cp(n, chunk, total) * (index + 1) <= ceil_div(n, chunk) + 3,
        0 <= part_cp(n, chunk, total) * index * chunk <= part_cp(n, chunk, total) * (index + 1) * chunk,
        part_cp(n, chunk, total) * (index + 1) * chunk <= n + 4 * chunk,
        part_n(n, chunk, index, total) >= 0,
{
    let nch = ceil_div(n, chunk);
    l_ceil(n, chunk);
    l_ceil(nch, total);
    let cp = ceil_div(nch, total);
    assert(cp * index >= 0 && cp * index + cp == cp * (index + 1)) by(nonlinear_arith) requires cp >= 0, index >= 0;
    assert(cp * (index + 1) <= cp * total) by(nonlinear_arith) requires cp >= 0, index + 1 <= total;
    assert(cp * total < nch + total);
    assert(cp * (index + 1) <= nch + 3);
    let a = cp * index;
    let b = cp * (index + 1);
    l_mul_le(a, b, chunk);
    l_mul_le(b, nch + 3, chunk);
    assert((nch + 3) * chunk == nch * chunk + 3 * chunk) by(nonlinear_arith);
    assert(nch * chunk < n + chunk);
}
/// C09: chunk number t of the whole range is iterated by exactly worker t / chunks-per-worker,
/// with the index and size it has in the undivided range, and by no other worker
pub open spec fn chunk_sz(n: int, chunk: int, t: int) -> int { imin(chunk, n - t * chunk) }
/// worker `index` iterates chunk t and gives it size s
pub open spec fn part_has(n: int, chunk: int, index: int, total: int, t: int, s: int) -> bool {
    let i0 = part_cp(n, chunk, total) * index;
    let nn = part_n(n, chunk, index, total);
    t >= i0 && (t - i0) * chunk < nn && s == imin(chunk, nn - (t - i0) * chunk)
}
pub proof fn l_part_exact(n: int, chunk: int, total: int, t: int)
    requires n > 0, chunk > 0, 0 < total <= 4, 0 <= t < ceil_div(n, chunk),
    ensures
        0 <= t / part_cp(n, chunk, total) < total,
        part_has(n, chunk, t / part_cp(n, chunk, total), total, t, chunk_sz(n, chunk, t)),
        forall|index: int, s: int| 0 <= index < total && #[trigger] part_has(n, chunk, index, total, t, s)
            ==> index == t / part_cp(n, chunk, total) && s == chunk_sz(n, chunk, t),
{
    let nch = ceil_div(n, chunk);
    let cp = part_cp(n, chunk, total);
    l_ceil(n, chunk);
    l_ceil(nch, total);
    l_dm(t, cp);
    let w = t / cp;
    assert(t < cp * total);
    assert(w < total) by(nonlinear_arith) requires w * cp <= t, t < cp * total, cp > 0;
    assert((nch - 1) * chunk < n);
    assert(t * chunk <= (nch - 1) * chunk) by(nonlinear_arith) requires t <= nch - 1, chunk > 0;
    assert forall|index: int, s: int| 0 <= index < total && (#[trigger] part_has(n, chunk, index, total, t, s) || (index == w && s == chunk_sz(n, chunk, t)))
        implies index == w && s == chunk_sz(n, chunk, t) && part_has(n, chunk, index, total, t, s) by {
        l_part(n, chunk, index, total);
        let i0 = cp * index;
        let i1 = cp * (index + 1);
        let nn = part_n(n, chunk, index, total);
        assert((t - i0) * chunk == t * chunk - i0 * chunk) by(nonlinear_arith);
        if index == w {
            assert(w * cp == i0) by(nonlinear_arith) requires i0 == cp * index, index == w;
            assert(t < i1);
            assert((t + 1) * chunk <= i1 * chunk) by(nonlinear_arith) requires t + 1 <= i1, chunk > 0;
            assert((t + 1) * chunk == t * chunk + chunk) by(nonlinear_arith);
        } else {
            // part_has holds
            if t >= i1 {
                assert(t * chunk >= i1 * chunk) by(nonlinear_arith) requires t >= i1, chunk > 0;
                assert(false);
            }
            assert(i0 <= t < i1);
            assert(index == t / cp) by {
                assert(t == index * cp + (t - i0)) by(nonlinear_arith) requires i0 == cp * index;
                l_divmod(index, cp, t - i0);
            }
        }
    }
    assert(part_has(n, chunk, w, total, t, chunk_sz(n, chunk, t)));
}
/// no worker iterates a chunk that the undivided range does not have
pub proof fn l_part_none(n: int, chunk: int, total: int, index: int, t: int, s: int)
    requires n >= 0, chunk > 0, 0 < total <= 4, 0 <= index < total, part_has(n, chunk, index, total, t, s),
    ensures 0 <= t < ceil_div(n, chunk),
{
    l_ceil(n, chunk);
    l_part(n, chunk, index, total);
    let nch = ceil_div(n, chunk);
    let i0 = part_cp(n, chunk, total) * index;
    assert((t - i0) * chunk == t * chunk - i0 * chunk) by(nonlinear_arith);
    if t >= nch {
        assert(t * chunk >= nch * chunk) by(nonlinear_arith) requires t >= nch, chunk > 0;
    }
}
// ---- what a parallel loop runs: chunk -> (size, worker)
/// chunks 0..total, each once, by the worker it falls to
pub open spec fn all_run(m: IMap<int, (int, int)>, n: int, chunk: int, nth: int) -> bool {
    &&& forall|t: int| #[trigger] m.contains_key(t) == (0 <= t < ceil_div(n, chunk))
    &&& forall|t: int| #[trigger] m.contains_key(t) ==> m[t] == (chunk_sz(n, chunk, t), t / part_cp(n, chunk, nth))
}
/// the same for the workers in ws only
pub open spec fn parts_run(m: IMap<int, (int, int)>, n: int, chunk: int, nth: int, ws: ISet<int>) -> bool {
    &&& forall|t: int| #[trigger] m.contains_key(t) == (0 <= t < ceil_div(n, chunk) && ws.contains(t / part_cp(n, chunk, nth)))
    &&& forall|t: int| #[trigger] m.contains_key(t) ==> m[t] == (chunk_sz(n, chunk, t), t / part_cp(n, chunk, nth))
}
/// worker w's part
pub open spec fn part_run(o: IMap<int, (int, int)>, m: IMap<int, (int, int)>, n: int, chunk: int, nth: int, w: int) -> bool {
    forall|t: int| #![trigger m.contains_key(t)] #![trigger m[t]]
        if in_part(n, chunk, nth, w, t) { m.contains_key(t) && m[t] == (chunk_sz(n, chunk, t), w) }
        else { m.contains_key(t) == o.contains_key(t) && m[t] == o[t] }
}
pub open spec fn in_part(n: int, chunk: int, nth: int, w: int, t: int) -> bool {
    part_cp(n, chunk, nth) * w <= t < part_cp(n, chunk, nth) * (w + 1) && t < ceil_div(n, chunk)
}
/// chunks [i0, i) of the range (i0, nn) are iterated; left is what remains
pub open spec fn it_st(n: int, chunk: int, i0: int, nn: int, i: int, left: int) -> bool {
    i0 <= i && left == (if nn > (i - i0) * chunk { nn - (i - i0) * chunk } else { 0 }) && (i > i0 ==> (i - 1 - i0) * chunk < nn)
}
/// the next chunk is the one the undivided range has there
pub open spec fn it_next(n: int, chunk: int, nth: int, w: int, i: int, left: int) -> bool {
    let i0 = part_cp(n, chunk, nth) * w;
    &&& it_st(n, chunk, i0, part_n(n, chunk, w, nth), i, left)
    &&& left > 0 ==> in_part(n, chunk, nth, w, i) && imin(left, chunk) == chunk_sz(n, chunk, i) && i < n
    &&& left == 0 ==> forall|t: int| #[trigger] in_part(n, chunk, nth, w, t) ==> t < i
    &&& forall|t: int| i0 <= t < i ==> #[trigger] in_part(n, chunk, nth, w, t)
}
pub proof fn l_in_part(n: int, chunk: int, nth: int, w: int, t: int)
    requires n >= 0, chunk > 0, 0 <= w < nth <= 4,
    ensures
        (t - part_cp(n, chunk, nth) * w) * chunk == t * chunk - part_cp(n, chunk, nth) * w * chunk,
        part_cp(n, chunk, nth) * w <= t && (t - part_cp(n, chunk, nth) * w) * chunk < part_n(n, chunk, w, nth)
            ==> in_part(n, chunk, nth, w, t) && t < n && imin(chunk, part_n(n, chunk, w, nth) - (t - part_cp(n, chunk, nth) * w) * chunk) == chunk_sz(n, chunk, t),
        in_part(n, chunk, nth, w, t) ==> (t - part_cp(n, chunk, nth) * w) * chunk < part_n(n, chunk, w, nth),
{
    let (i0, nn) = (part_cp(n, chunk, nth) * w, part_n(n, chunk, w, nth));
    let i1 = part_cp(n, chunk, nth) * (w + 1);
    let nch = ceil_div(n, chunk);
    l_part(n, chunk, w, nth); l_ceil(n, chunk);
    assert((t - i0) * chunk == t * chunk - i0 * chunk) by(nonlinear_arith);
    assert((t + 1) * chunk == t * chunk + chunk) by(nonlinear_arith);
    assert((nch - 1) * chunk == nch * chunk - chunk) by(nonlinear_arith);
    if i0 <= t && (t - i0) * chunk < nn {
        assert(t * chunk < n && t * chunk < i1 * chunk);
        if t >= i1 { l_mul_le(i1, t, chunk); }
        if t >= nch { l_mul_le(nch, t, chunk); }
        assert(t < n) by(nonlinear_arith) requires t * chunk < n, chunk >= 1, t >= 0;
        l_mul_le(t + 1, i1, chunk);
    }
    if in_part(n, chunk, nth, w, t) {
        l_mul_le(t + 1, i1, chunk); l_mul_le(t, nch - 1, chunk); l_mul_le(i0, t, chunk);
    }
}
pub proof fn l_it_start(n: int, chunk: int, nth: int, w: int)
    requires n >= 0, chunk > 0, 0 <= w < nth <= 4,
    ensures it_st(n, chunk, part_cp(n, chunk, nth) * w, part_n(n, chunk, w, nth), part_cp(n, chunk, nth) * w, part_n(n, chunk, w, nth)),
{
    l_part(n, chunk, w, nth);
    let i0 = part_cp(n, chunk, nth) * w;
    assert((i0 - i0) * chunk == 0) by(nonlinear_arith);
}
pub proof fn l_it_next(n: int, chunk: int, nth: int, w: int, i: int, left: int)
    requires n >= 0, chunk > 0, 0 <= w < nth <= 4, it_st(n, chunk, part_cp(n, chunk, nth) * w, part_n(n, chunk, w, nth), i, left),
    ensures it_next(n, chunk, nth, w, i, left),
{
    let (i0, nn) = (part_cp(n, chunk, nth) * w, part_n(n, chunk, w, nth));
    l_in_part(n, chunk, nth, w, i);
    if left == 0 {
        assert forall|t: int| #[trigger] in_part(n, chunk, nth, w, t) implies t < i by {
            if t >= i { l_in_part(n, chunk, nth, w, t); l_mul_le(i - i0, t - i0, chunk); }
        }
    }
    assert forall|t: int| i0 <= t < i implies #[trigger] in_part(n, chunk, nth, w, t) by {
        l_mul_le(t - i0, i - 1 - i0, chunk);
        l_in_part(n, chunk, nth, w, t);
    }
}
pub proof fn l_it_step(n: int, chunk: int, nth: int, w: int, i: int, left: int)
    requires n >= 0, chunk > 0, 0 <= w < nth <= 4, left > 0, it_next(n, chunk, nth, w, i, left),
    ensures it_next(n, chunk, nth, w, i + 1, left - imin(left, chunk)),
{
    let (i0, nn) = (part_cp(n, chunk, nth) * w, part_n(n, chunk, w, nth));
    assert((i + 1 - i0) * chunk == (i - i0) * chunk + chunk) by(nonlinear_arith);
    assert(it_st(n, chunk, i0, nn, i + 1, left - imin(left, chunk)));
    l_it_next(n, chunk, nth, w, i + 1, left - imin(left, chunk));
}
pub proof fn l_parts0(n: int, chunk: int, nth: int)
    ensures parts_run(IMap::<int, (int, int)>::empty(), n, chunk, nth, ISet::<int>::empty()),
{ }
pub proof fn l_in_part_w(n: int, chunk: int, nth: int, w: int, t: int)
    requires n >= 0, chunk > 0, 0 <= w < nth <= 4, 0 <= t < ceil_div(n, chunk),
    ensures in_part(n, chunk, nth, w, t) == (t / part_cp(n, chunk, nth) == w), 0 <= t / part_cp(n, chunk, nth) < nth,
{
    let cp = part_cp(n, chunk, nth);
    l_part(n, chunk, w, nth); l_ceil(n, chunk); l_ceil(ceil_div(n, chunk), nth);
    assert(cp > 0) by(nonlinear_arith) requires cp * nth >= 1, nth > 0;
    l_dm(t, cp);
    let v = t / cp;
    assert(v < nth) by(nonlinear_arith) requires v * cp <= t, t < cp * nth, cp > 0;
    if in_part(n, chunk, nth, w, t) {
        assert(t == w * cp + (t - cp * w)) by(nonlinear_arith);
        l_divmod(w, cp, t - cp * w);
    }
    if v == w { assert(cp * w <= t < cp * (w + 1)) by(nonlinear_arith) requires v * cp <= t, t < v * cp + cp, v == w; }
}
pub broadcast proof fn b_parts_step(o: IMap<int, (int, int)>, m: IMap<int, (int, int)>, n: int, chunk: int, nth: int, w: int, ws: ISet<int>)
    requires n >= 0, chunk > 0, 0 <= w < nth <= 4, #[trigger] parts_run(o, n, chunk, nth, ws), #[trigger] part_run(o, m, n, chunk, nth, w),
    ensures parts_run(m, n, chunk, nth, ws.insert(w)),
{
    let cp = part_cp(n, chunk, nth);
    l_part(n, chunk, w, nth);
    assert forall|t: int| in_part(n, chunk, nth, w, t) implies 0 <= t < ceil_div(n, chunk) by { }
    assert forall|t: int| #[trigger] m.contains_key(t) == (0 <= t < ceil_div(n, chunk) && ws.insert(w).contains(t / cp)) by {
        if 0 <= t < ceil_div(n, chunk) { l_in_part_w(n, chunk, nth, w, t); }
    }
    assert forall|t: int| #[trigger] m.contains_key(t) implies m[t] == (chunk_sz(n, chunk, t), t / cp) by { l_in_part_w(n, chunk, nth, w, t); }
}
/// a worker not among ws: its part is still to be done
pub broadcast proof fn b_parts_free(m: IMap<int, (int, int)>, n: int, chunk: int, nth: int, w: int, ws: ISet<int>, t: int)
    requires n >= 0, chunk > 0, 0 <= w < nth <= 4, #[trigger] parts_run(m, n, chunk, nth, ws), !ws.contains(w), #[trigger] in_part(n, chunk, nth, w, t),
    ensures !m.contains_key(t),
{
    l_part(n, chunk, w, nth);
    l_in_part_w(n, chunk, nth, w, t);
}
pub broadcast proof fn b_parts_all(m: IMap<int, (int, int)>, n: int, chunk: int, nth: int, ws: ISet<int>)
    requires n >= 0, chunk > 0, 1 <= nth <= 4, #[trigger] parts_run(m, n, chunk, nth, ws),
        ws.contains(0), nth > 1 ==> ws.contains(1), nth > 2 ==> ws.contains(2), nth > 3 ==> ws.contains(3),
    ensures all_run(m, n, chunk, nth),
{
    assert forall|t: int| #[trigger] m.contains_key(t) == (0 <= t < ceil_div(n, chunk)) by {
        if 0 <= t < ceil_div(n, chunk) { l_in_part_w(n, chunk, nth, 0, t); }
    }
}
/// one worker
pub proof fn l_one_part(n: int, chunk: int)
    requires n >= 0, chunk > 0,
    ensures part_cp(n, chunk, 1) == ceil_div(n, chunk), part_n(n, chunk, 0, 1) == n,
        forall|t: int| #[trigger] in_part(n, chunk, 1, 0, t) == (0 <= t < ceil_div(n, chunk)),
{
    let nch = ceil_div(n, chunk);
    l_ceil(n, chunk); l_ceil(nch, 1);
    assert(nch * 1 == nch && nch * 0 == 0 && 0 * chunk == 0 && part_cp(n, chunk, 1) * 1 == part_cp(n, chunk, 1)) by(nonlinear_arith);
    l_part(n, chunk, 0, 1);
}
pub proof fn l_one_done(n: int, chunk: int)
    requires n >= 0, chunk > 0,
    ensures part_cp(n, chunk, 1) == ceil_div(n, chunk), forall|t: int| 0 <= t < ceil_div(n, chunk) ==> #[trigger] (t / ceil_div(n, chunk)) == 0,
        forall|t: int| #[trigger] in_part(n, chunk, 1, 0, t) == (0 <= t < ceil_div(n, chunk)),
{
    l_one_part(n, chunk);
    assert forall|t: int| 0 <= t < ceil_div(n, chunk) implies #[trigger] (t / ceil_div(n, chunk)) == 0 by { l_divmod(0, ceil_div(n, chunk), t); }
}
