// ------------------------------------------------------------------
// 70_packed.rs: loops 1 and 2 (packed panels to C)
// ------------------------------------------------------------------
/// s is a raw scalar of one of the elements of the matrix
pub proof fn l_sub_mat<E: Raw>(b: int, i0: int, j0: int, r1: int, c1: int, r: int, c: int, rs: int, cs: int)
    requires 0 <= i0, 0 <= j0, i0 + r1 <= r, j0 + c1 <= c,
    ensures
        forall|i: int, j: int| #[trigger] at2(at2(b, i0, rs, j0, cs), i, rs, j, cs) == at2(b, i0 + i, rs, j0 + j, cs),
        minj(b, r, c, rs, cs) ==> minj(at2(b, i0, rs, j0, cs), r1, c1, rs, cs),
        forall|s: int| #[trigger] raw_in::<E>(s, at2(b, i0, rs, j0, cs), r1, c1, rs, cs) ==> raw_in::<E>(s, b, r, c, rs, cs),
        forall|x: int, n: int| #[trigger] mat_off(b, r, c, rs, cs, x, n) ==> mat_off(at2(b, i0, rs, j0, cs), r1, c1, rs, cs, x, n),
{
    l_at2_shall(b, i0, j0, rs, cs);
    let b2 = at2(b, i0, rs, j0, cs);
    if minj(b, r, c, rs, cs) {
        assert forall|i: int, j: int, i2: int, j2: int| 0 <= i < r1 && 0 <= j < c1 && 0 <= i2 < r1 && 0 <= j2 < c1
            && #[trigger] at2(b2, i, rs, j, cs) == #[trigger] at2(b2, i2, rs, j2, cs) implies i == i2 && j == j2 by {
            assert(at2(b, i0 + i, rs, j0 + j, cs) == at2(b, i0 + i2, rs, j0 + j2, cs));
        }
    }
    assert forall|s: int| #[trigger] raw_in::<E>(s, b2, r1, c1, rs, cs) implies raw_in::<E>(s, b, r, c, rs, cs) by {
        let x = elt_of::<E>(s);
        let (i, j) = choose|i: int, j: int| 0 <= i < r1 && 0 <= j < c1 && #[trigger] at2(b2, i, rs, j, cs) == x;
        assert(at2(b, i0 + i, rs, j0 + j, cs) == x);
    }
    assert forall|x: int, n: int| #[trigger] mat_off(b, r, c, rs, cs, x, n) implies mat_off(b2, r1, c1, rs, cs, x, n) by {
        assert forall|i: int, j: int| 0 <= i < r1 && 0 <= j < c1 implies !(x <= #[trigger] at2(b2, i, rs, j, cs) < x + n) by {
            assert(at2(b2, i, rs, j, cs) == at2(b, i0 + i, rs, j0 + j, cs));
        }
    }
}
pub proof fn l_sub_perm<E: Raw>(m: MV, p: P<E>, i0: int, j0: int, r1: int, c1: int, r: int, c: int, rs: int, cs: int)
    requires 0 <= i0, 0 <= j0, i0 + r1 <= r, j0 + c1 <= c,
    ensures
        mwr::<E>(m, p, r, c, rs, cs) ==> mwr::<E>(m, p.at(at2(p.a@, i0, rs, j0, cs)), r1, c1, rs, cs),
        mrd::<E>(m, p, r, c, rs, cs) ==> mrd::<E>(m, p.at(at2(p.a@, i0, rs, j0, cs)), r1, c1, rs, cs),
{
    l_at2_shall(p.a@, i0, j0, rs, cs);
    let b2 = at2(p.a@, i0, rs, j0, cs);
    let p2 = p.at(b2);
    if mwr::<E>(m, p, r, c, rs, cs) {
        assert forall|i: int, j: int| 0 <= i < r1 && 0 <= j < c1 implies p2.inb(#[trigger] at2(p2.a@, i, rs, j, cs)) && ewr::<E>(m, at2(p2.a@, i, rs, j, cs)) by {
            assert(at2(p2.a@, i, rs, j, cs) == at2(p.a@, i0 + i, rs, j0 + j, cs));
        }
    }
    if mrd::<E>(m, p, r, c, rs, cs) {
        assert forall|i: int, j: int| 0 <= i < r1 && 0 <= j < c1 implies p2.inb(#[trigger] at2(p2.a@, i, rs, j, cs)) && erd::<E>(m, at2(p2.a@, i, rs, j, cs)) by {
            assert(at2(p2.a@, i, rs, j, cs) == at2(p.a@, i0 + i, rs, j0 + j, cs));
        }
    }
}
/// a chunk of a range, and its place in the range
pub proof fn l_chunk(n: int, c: int, t: int)
    requires 0 < c, 0 <= n, 0 <= t < ceil_div(n, c),
    ensures 0 <= t * c, t * c < n, chunk_sz(n, c, t) > 0, t * c + chunk_sz(n, c, t) <= n, chunk_sz(n, c, t) <= c, (t + 1) * c == t * c + c, c * t == t * c,
        t * c <= rup(n, c) - c,
        forall|j: int| 0 <= j < n ==> (#[trigger] (j / c) == t <==> t * c <= j < t * c + chunk_sz(n, c, t)),
        forall|j: int| 0 <= j < chunk_sz(n, c, t) ==> (t * c + j) / c == t && #[trigger] ((t * c + j) % c) == j,
{
    l_ceil(n, c);
    let q = ceil_div(n, c);
    assert(0 <= t * c && t * c <= (q - 1) * c && (t + 1) * c == t * c + c && (q - 1) * c == q * c - c && c * t == t * c) by(nonlinear_arith) requires 0 <= t, t <= q - 1, c > 0;
    assert forall|j: int| 0 <= j < n implies (#[trigger] (j / c) == t <==> t * c <= j < t * c + chunk_sz(n, c, t)) by {
        l_dm(j, c);
        if t * c <= j < t * c + c { l_divmod(t, c, j - t * c); }
    }
    assert forall|j: int| 0 <= j < chunk_sz(n, c, t) implies (t * c + j) / c == t && #[trigger] ((t * c + j) % c) == j by { l_divmod(t, c, j); }
}
/// panels of equal memory have equal inner products
pub proof fn l_panel_same<E: Raw>(o: MV, m: MV, a: int, mr: int, i: int, b: int, nr: int, j: int, k: int)
    requires
        0 <= i < mr, 0 <= j < nr, 0 <= k,
        forall|s: int| #![trigger m.val[s]] raw_blk::<E>(s, a, k * mr) ==> m.val[s] == o.val[s],
        forall|s: int| #![trigger m.val[s]] raw_blk::<E>(s, b, k * nr) ==> m.val[s] == o.val[s],
    ensures kdot::<E>(m, a, mr, i, b, nr, j, k) == kdot::<E>(o, a, mr, i, b, nr, j, k)
{
    E::raw_ok();
    l_panel_row::<E>(o, m, a, mr, i, k);
    l_panel_row::<E>(o, m, b, nr, j, k);
    l_dotf_eq(prow::<E>(m, a, mr, i), prow::<E>(m, b, nr, j), prow::<E>(o, a, mr, i), prow::<E>(o, b, nr, j), k);
}
pub proof fn l_panel_row<E: Raw>(o: MV, m: MV, a: int, mr: int, i: int, k: int)
    requires
        0 <= i < mr, 0 <= k,
        forall|s: int| #![trigger m.val[s]] raw_blk::<E>(s, a, k * mr) ==> m.val[s] == o.val[s],
    ensures forall|t: int| 0 <= t < k ==> #[trigger] prow::<E>(m, a, mr, i)(t) == prow::<E>(o, a, mr, i)(t)
{
    E::raw_ok();
    assert forall|t: int| 0 <= t < k implies #[trigger] prow::<E>(m, a, mr, i)(t) == prow::<E>(o, a, mr, i)(t) by {
        assert(0 <= t * mr && t * mr + mr <= k * mr && t * (2 * mr) == 2 * (t * mr)) by(nonlinear_arith) requires 0 <= t <= k - 1, mr > 0;
    }
}

/// sub-panel q of a packed area
pub proof fn l_panel_in<E: Raw>(b: int, mr: int, kc: int, mc: int, q: int)
    requires 0 < mr, 0 < kc, 0 <= mc, 0 <= q < ceil_div(mc, mr),
    ensures
        b <= b + q * (mr * kc), b + q * (mr * kc) + kc * mr <= b + kc * rup(mc, mr),
        kc * mr * q == q * (mr * kc), 0 <= kc * mr, mr * kc == kc * mr,
        forall|s: int| #[trigger] raw_blk::<E>(s, b + q * (mr * kc), kc * mr) ==> raw_blk::<E>(s, b, kc * rup(mc, mr)),
{
    E::raw_ok();
    let n = ceil_div(mc, mr);
    assert(0 <= q * (mr * kc) && q * (mr * kc) + mr * kc <= n * (mr * kc) && n * (mr * kc) == kc * (n * mr) && kc * mr == mr * kc && kc * mr * q == q * (mr * kc) && 0 <= kc * mr) by(nonlinear_arith) requires 0 <= q <= n - 1, 0 < mr, 0 < kc;
}
/// panels start aligned
pub proof fn l_panel_al<E: Raw>(b: int, mr: int, kc: int, q: int, al: int)
    requires aligned::<E>(b, al), al >= 0, al != 0 ==> (mr * esz::<E>()) % al == 0, q >= 0, kc >= 0,
    ensures aligned::<E>(b + q * (mr * kc), al)
{
    if al != 0 {
        let e = esz::<E>();
        l_dm(b * e, al); l_dm(mr * e, al);
        let (y, z) = ((b * e) / al, (mr * e) / al);
        let w = q * kc;
        assert((b + q * (mr * kc)) * e == (y + w * z) * al) by(nonlinear_arith) requires b * e == y * al, mr * e == z * al, w == q * kc;
        lemma_mod_multiples_basic(y + w * z, al);
    }
}
// ---- loop 1
/// rows in front of i0
pub open spec fn rows(i0: int) -> BF { |i: int, j: int| i < i0 }
pub open spec fn l1st<E: Raw>(o: MV, m: MV, done: BF, want: VF, c: int, r: int, cc: int, rs: int, cs: int, b: int, len: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==>
            ev::<E>(m, #[trigger] at2(c, i, rs, j, cs)) == (if done(i, j) { want(i, j) } else { ev::<E>(o, at2(c, i, rs, j, cs)) })
            && (erd::<E>(o, at2(c, i, rs, j, cs)) || done(i, j) ==> erd::<E>(m, at2(c, i, rs, j, cs)))
    &&& upd2::<E>(o, m, c, r, cc, rs, cs, b, len)
}
/// the values of C in loop 1 of one panel of B~
pub open spec fn want1<E: Raw>(o: MV, al: CV, a: int, mr: int, b: int, nr: int, k: int, be: CV, c: int, rs: int, cs: int) -> VF {
    comb::<E>(o, al, |i: int, j: int| kdot::<E>(o, a + (i / mr) * (mr * k), mr, i % mr, b, nr, j, k), be, c, rs, cs)
}
pub proof fn l_upd_mat2<E: Raw>(o: MV, m: MV, c: int, r: int, cc: int, rs: int, cs: int, b: int, len: int)
    requires upd_mat::<E>(o, m, c, r, cc, rs, cs),
    ensures upd2::<E>(o, m, c, r, cc, rs, cs, b, len)
{}
/// one tile
pub proof fn l_l1_tile<E: Raw>(o: MV, m: MV, m2: MV, al: CV, a: int, mr: int, b: int, nr: int, k: int, be: CV, c: int, r: int, cc: int, rs: int, cs: int, mk: int, len: int, l1: int)
    requires
        0 < mr, 0 < nr, 0 < k, 0 <= l1 < ceil_div(r, mr), 0 <= r, 0 <= cc <= nr,
        minj(c, r, cc, rs, cs), mat_off(c, r, cc, rs, cs, mk, len),
        mat_off(c, r, cc, rs, cs, a, k * rup(r, mr)), mat_off(c, r, cc, rs, cs, b, k * nr),
        forall|s: int| #![trigger raw_blk::<E>(s, mk, len)] raw_blk::<E>(s, mk, len) ==> !raw_blk::<E>(s, a, k * rup(r, mr)) && !raw_blk::<E>(s, b, k * nr),
        l1st::<E>(o, m, rows(l1 * mr), want1::<E>(o, al, a, mr, b, nr, k, be, c, rs, cs), c, r, cc, rs, cs, mk, len),
        is_res::<E>(m, m2, al, kd::<E>(m, a + l1 * (mr * k), mr, b, nr, k), be, at2(c, l1 * mr, rs, 0, cs), chunk_sz(r, mr, l1), cc, rs, cs),
        upd2::<E>(m, m2, at2(c, l1 * mr, rs, 0, cs), chunk_sz(r, mr, l1), cc, rs, cs, mk, len),
    ensures
        l1st::<E>(o, m2, rows((l1 + 1) * mr), want1::<E>(o, al, a, mr, b, nr, k, be, c, rs, cs), c, r, cc, rs, cs, mk, len),
{
    E::raw_ok();
    l_chunk(r, mr, l1);
    let sz = chunk_sz(r, mr, l1);
    let c1 = at2(c, l1 * mr, rs, 0, cs);
    let a1 = a + l1 * (mr * k);
    let w = want1::<E>(o, al, a, mr, b, nr, k, be, c, rs, cs);
    l_sub_mat::<E>(c, l1 * mr, 0, sz, cc, r, cc, rs, cs);
    l_panel_in::<E>(a, mr, k, r, l1);
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < cc implies
            ev::<E>(m2, #[trigger] at2(c, i, rs, j, cs)) == (if rows((l1 + 1) * mr)(i, j) { w(i, j) } else { ev::<E>(o, at2(c, i, rs, j, cs)) })
            && (erd::<E>(o, at2(c, i, rs, j, cs)) || rows((l1 + 1) * mr)(i, j) ==> erd::<E>(m2, at2(c, i, rs, j, cs))) by {
        let x = at2(c, i, rs, j, cs);
        assert(rows((l1 + 1) * mr)(i, j) == (i < (l1 + 1) * mr) && rows(l1 * mr)(i, j) == (i < l1 * mr));
        if l1 * mr <= i < l1 * mr + sz {
            let ii = i - l1 * mr;
            assert(at2(c1, ii, rs, j, cs) == x);
            assert((l1 * mr + ii) % mr == ii && (l1 * mr + ii) / mr == l1);
            l_mat_not_blk::<E>(c, r, cc, rs, cs, a, k * rup(r, mr));
            l_mat_not_blk::<E>(c, r, cc, rs, cs, b, k * nr);
            l_panel_same::<E>(o, m, a1, mr, ii, b, nr, j, k);
        } else {
            l_elt::<E>(x); l_elt::<E>(2 * x); l_elt::<E>(2 * x + 1);
            assert(!in_mat(x, c1, sz, cc, rs, cs)) by {
                if in_mat(x, c1, sz, cc, rs, cs) {
                    let (i2, j2) = choose|i2: int, j2: int| 0 <= i2 < sz && 0 <= j2 < cc && #[trigger] at2(c1, i2, rs, j2, cs) == x;
                    assert(at2(c, l1 * mr + i2, rs, j2, cs) == x);
                }
            }
        }
    }
}
/// the matrix has no scalar in the block
pub proof fn l_mat_not_blk<E: Raw>(c: int, r: int, cc: int, rs: int, cs: int, b: int, n: int)
    requires mat_off(c, r, cc, rs, cs, b, n),
    ensures forall|s: int| #![trigger raw_blk::<E>(s, b, n)] raw_blk::<E>(s, b, n) ==> !raw_in::<E>(s, c, r, cc, rs, cs),
{
    E::raw_ok();
    assert forall|s: int| #![trigger raw_blk::<E>(s, b, n)] raw_blk::<E>(s, b, n) implies !raw_in::<E>(s, c, r, cc, rs, cs) by {
        if raw_in::<E>(s, c, r, cc, rs, cs) {
            let x = elt_of::<E>(s);
            let (i, j) = choose|i: int, j: int| 0 <= i < r && 0 <= j < cc && #[trigger] at2(c, i, rs, j, cs) == x;
            assert(!(b <= at2(c, i, rs, j, cs) < b + n));
        }
    }
}
// ---- loop 2
pub type SetF = spec_fn(int) -> bool;
/// what a call changed: C, and the area x (which it did not have at entry) became its own
pub open spec fn nox() -> SetF { |s: int| false }
pub open spec fn upd3<E: Raw>(o: MV, m: MV, x: SetF, c: int, r: int, cc: int, rs: int, cs: int) -> bool {
    &&& m.allocs == o.allocs && m.rsz == o.rsz && m.cpu == o.cpu && m.tls == o.tls
    &&& forall|s: int| #![trigger m.wr.contains(s)] m.wr.contains(s) == (o.wr.contains(s) || x(s))
    &&& forall|s: int| #![trigger m.rd.contains(s)] (o.rd.contains(s) ==> m.rd.contains(s)) && (m.rd.contains(s) ==> o.rd.contains(s) || x(s) || raw_in::<E>(s, c, r, cc, rs, cs))
    &&& forall|s: int| #![trigger m.val[s]] (o.rd.contains(s) || o.wr.contains(s)) && !raw_in::<E>(s, c, r, cc, rs, cs) ==> m.val[s] == o.val[s]
}
pub open spec fn l2st<E: Raw>(o: MV, m: MV, x: SetF, done: ISet<int>, nr: int, want: VF, c: int, r: int, cc: int, rs: int, cs: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==>
            ev::<E>(m, #[trigger] at2(c, i, rs, j, cs)) == (if done.contains(j / nr) { want(i, j) } else { ev::<E>(o, at2(c, i, rs, j, cs)) })
            && (done.contains(j / nr) ==> erd::<E>(m, at2(c, i, rs, j, cs)))
    &&& upd3::<E>(o, m, x, c, r, cc, rs, cs)
}
/// values of C after loops 1 and 2
pub open spec fn pfn<E: Raw>(o: MV, a: int, mr: int, b: int, nr: int, k: int) -> VF {
    |i: int, j: int| kdot::<E>(o, a + (i / mr) * (mr * k), mr, i % mr, b + (j / nr) * (nr * k), nr, j % nr, k)
}
/// scalars of the columns of chunk t
pub open spec fn cols<E: Raw>(t: int, s: int, c: int, r: int, n: int, nr: int, rs: int, cs: int) -> bool {
    raw_in::<E>(s, at2(c, 0, rs, t * nr, cs), r, chunk_sz(n, nr, t), rs, cs)
}
pub proof fn l_cols<E: Raw>(c: int, r: int, n: int, nr: int, rs: int, cs: int)
    requires 0 < nr, 0 <= n, minj(c, r, n, rs, cs),
    ensures
        forall|t: int, s: int| 0 <= t < ceil_div(n, nr) && #[trigger] cols::<E>(t, s, c, r, n, nr, rs, cs) ==> raw_in::<E>(s, c, r, n, rs, cs),
        forall|t1: int, t2: int, s: int| 0 <= t1 < ceil_div(n, nr) && 0 <= t2 < ceil_div(n, nr) && t1 != t2
            ==> !(#[trigger] cols::<E>(t1, s, c, r, n, nr, rs, cs) && #[trigger] cols::<E>(t2, s, c, r, n, nr, rs, cs)),
{
    assert forall|t: int, s: int| 0 <= t < ceil_div(n, nr) && #[trigger] cols::<E>(t, s, c, r, n, nr, rs, cs) implies raw_in::<E>(s, c, r, n, rs, cs) by {
        l_chunk(n, nr, t);
        l_sub_mat::<E>(c, 0, t * nr, r, chunk_sz(n, nr, t), r, n, rs, cs);
    }
    assert forall|t1: int, t2: int, s: int| 0 <= t1 < ceil_div(n, nr) && 0 <= t2 < ceil_div(n, nr) && t1 != t2
            implies !(#[trigger] cols::<E>(t1, s, c, r, n, nr, rs, cs) && #[trigger] cols::<E>(t2, s, c, r, n, nr, rs, cs)) by {
        if cols::<E>(t1, s, c, r, n, nr, rs, cs) && cols::<E>(t2, s, c, r, n, nr, rs, cs) {
            let x = elt_of::<E>(s);
            l_chunk(n, nr, t1);
            l_chunk(n, nr, t2);
            l_at2_shall(c, 0, t1 * nr, rs, cs);
            l_at2_shall(c, 0, t2 * nr, rs, cs);
            let (i1, j1) = choose|i: int, j: int| 0 <= i < r && 0 <= j < chunk_sz(n, nr, t1) && #[trigger] at2(at2(c, 0, rs, t1 * nr, cs), i, rs, j, cs) == x;
            let (i2, j2) = choose|i: int, j: int| 0 <= i < r && 0 <= j < chunk_sz(n, nr, t2) && #[trigger] at2(at2(c, 0, rs, t2 * nr, cs), i, rs, j, cs) == x;
            assert(at2(c, i1, rs, t1 * nr + j1, cs) == at2(c, i2, rs, t2 * nr + j2, cs));
            assert((t1 * nr + j1) / nr == t1 && (t2 * nr + j2) / nr == t2) by { assert((t1 * nr + j1) % nr == j1); assert((t2 * nr + j2) % nr == j2); }
        }
    }
}
/// one chunk of columns done: ma before, mr restricted to the chunk, mk after loop 1, mf with the permissions back
pub proof fn l_l2_chunk<E: Raw>(o: MV, ma: MV, mx: MV, mk: MV, mf: MV, x: SetF, z: SetF, done: ISet<int>, al: CV, a: int, mr: int, b: int, nr: int, k: int, be: CV, c: int, r: int, n: int, rs: int, cs: int, mb: int, len: int, t: int)
    requires
        0 < mr, 0 < nr, 0 < k, 0 <= r, 0 <= n, 0 <= t < ceil_div(n, nr), !done.contains(t),
        minj(c, r, n, rs, cs),
        mat_off(c, r, n, rs, cs, a, k * rup(r, mr)), mat_off(c, r, n, rs, cs, b, k * rup(n, nr)),
        forall|s: int| #![trigger raw_blk::<E>(s, a, k * rup(r, mr))] raw_blk::<E>(s, a, k * rup(r, mr)) ==> o.rd.contains(s),
        forall|s: int| #![trigger raw_blk::<E>(s, b, k * rup(n, nr))] raw_blk::<E>(s, b, k * rup(n, nr)) ==> o.rd.contains(s),
        forall|i: int, j: int| 0 <= i < r && 0 <= j < n ==> ewr::<E>(o, #[trigger] at2(c, i, rs, j, cs)),
        l2st::<E>(o, ma, x, done, nr, comb::<E>(o, al, pfn::<E>(o, a, mr, b, nr, k), be, c, rs, cs), c, r, n, rs, cs),
        mx.val == ma.val,
        l1st::<E>(mx, mk, rows(ceil_div(r, mr) * mr), want1::<E>(mx, al, a, mr, b + t * (nr * k), nr, k, be, at2(c, 0, rs, t * nr, cs), rs, cs), at2(c, 0, rs, t * nr, cs), r, chunk_sz(n, nr, t), rs, cs, mb, len),
        // what belongs to the chunk
        forall|s: int| #[trigger] raw_blk::<E>(s, mb, len) ==> z(s),
        zfree(o, z),
        forall|s: int| #[trigger] mx.rd.contains(s) ==> ma.rd.contains(s) || z(s),
        // the way back
        forall|s: int| #[trigger] mf.val[s] == mk.val[s], mf.wr == ma.wr, mf.allocs == ma.allocs, mf.rsz == ma.rsz, mf.cpu == ma.cpu, mf.tls == ma.tls,
        forall|s: int| #[trigger] mf.rd.contains(s) ==> ma.rd.contains(s) || (mk.rd.contains(s) && (z(s) ==> x(s))),
        forall|s: int| ma.rd.contains(s) || (mk.rd.contains(s) && !z(s)) ==> #[trigger] mf.rd.contains(s),
    ensures
        l2st::<E>(o, mf, x, done.insert(t), nr, comb::<E>(o, al, pfn::<E>(o, a, mr, b, nr, k), be, c, rs, cs), c, r, n, rs, cs),
{
    E::raw_ok();
    let want = comb::<E>(o, al, pfn::<E>(o, a, mr, b, nr, k), be, c, rs, cs);
    let c2 = at2(c, 0, rs, t * nr, cs);
    let sz = chunk_sz(n, nr, t);
    let w1 = want1::<E>(mx, al, a, mr, b + t * (nr * k), nr, k, be, c2, rs, cs);
    l_chunk(n, nr, t);
    l_ceil(r, mr);
    l_sub_mat::<E>(c, 0, t * nr, r, sz, r, n, rs, cs);
    l_cols::<E>(c, r, n, nr, rs, cs);
    l_mat_not_blk::<E>(c, r, n, rs, cs, a, k * rup(r, mr));
    l_mat_not_blk::<E>(c, r, n, rs, cs, b, k * rup(n, nr));
    l_panel_in::<E>(b, nr, k, n, t);
    // the packed panels are as at entry
    assert forall|s: int| #![trigger mx.val[s]] raw_blk::<E>(s, a, k * rup(r, mr)) || raw_blk::<E>(s, b, k * rup(n, nr)) implies mx.val[s] == o.val[s] by { assert(ma.val[s] == o.val[s]); }
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < n implies
            ev::<E>(mf, #[trigger] at2(c, i, rs, j, cs)) == (if done.insert(t).contains(j / nr) { want(i, j) } else { ev::<E>(o, at2(c, i, rs, j, cs)) })
            && (done.insert(t).contains(j / nr) ==> erd::<E>(mf, at2(c, i, rs, j, cs))) by {
        let e = at2(c, i, rs, j, cs);
        assert(ewr::<E>(o, e));
        l_elt::<E>(e); l_elt::<E>(2 * e); l_elt::<E>(2 * e + 1);
        assert(in_mat(e, c, r, n, rs, cs));
        if j / nr == t {
            let jj = j - t * nr;
            assert(0 <= jj < sz && (t * nr + jj) % nr == jj);
            assert(at2(c2, i, rs, jj, cs) == e);
            assert(rows(ceil_div(r, mr) * mr)(i, jj));
            assert(ev::<E>(mk, e) == w1(i, jj));
            assert(ev::<E>(mx, e) == ev::<E>(o, e));
            l_dm(i, mr);
            assert(i / mr < ceil_div(r, mr)) by { let q = i / mr; let u = ceil_div(r, mr); assert(q < u) by(nonlinear_arith) requires q * mr <= i, i < r, r <= u * mr, mr > 0; }
            l_panel_in::<E>(a, mr, k, r, i / mr);
            l_panel_same::<E>(o, mx, a + (i / mr) * (mr * k), mr, i % mr, b + t * (nr * k), nr, jj, k);
            assert(w1(i, jj) == want(i, j));
        } else {
            assert(!in_mat(e, c2, r, sz, rs, cs)) by {
                if in_mat(e, c2, r, sz, rs, cs) {
                    let (i2, j2) = choose|i2: int, j2: int| 0 <= i2 < r && 0 <= j2 < sz && #[trigger] at2(c2, i2, rs, j2, cs) == e;
                    assert(at2(c, i2, rs, t * nr + j2, cs) == e);
                }
            }
        }
    }
    assert forall|s: int| #![trigger mf.val[s]] (o.rd.contains(s) || o.wr.contains(s)) && !raw_in::<E>(s, c, r, n, rs, cs) implies mf.val[s] == o.val[s] by {
        assert(!raw_in::<E>(s, c2, r, sz, rs, cs));
        assert(!raw_blk::<E>(s, mb, len));
        assert(mk.val[s] == mx.val[s]);
        assert(ma.val[s] == o.val[s]);
    }
    assert forall|s: int| #![trigger mf.rd.contains(s)] (o.rd.contains(s) ==> mf.rd.contains(s)) && (mf.rd.contains(s) ==> o.rd.contains(s) || x(s) || raw_in::<E>(s, c, r, n, rs, cs)) by {
        assert(o.rd.contains(s) ==> ma.rd.contains(s));
        assert(ma.rd.contains(s) ==> o.rd.contains(s) || x(s) || raw_in::<E>(s, c, r, n, rs, cs));
        if mf.rd.contains(s) && !ma.rd.contains(s) {
            assert(mk.rd.contains(s) && (z(s) ==> x(s)));
            if mx.rd.contains(s) {} else {
                assert(raw_in::<E>(s, c2, r, sz, rs, cs) || raw_blk::<E>(s, mb, len));
            }
        }
    }
}
/// a range iterator over chunks: i chunks are done, rem elements are left
pub open spec fn it_ok(n: int, c: int, i: int, rem: int) -> bool {
    0 <= i <= ceil_div(n, c) && rem >= 0 && (rem > 0 ==> i < ceil_div(n, c) && rem == n - i * c) && (rem == 0 ==> i == ceil_div(n, c))
}
pub proof fn l_it0(n: int, c: int) requires n >= 0, c > 0, ensures it_ok(n, c, 0, n), { l_ceil(n, c); lemma_small_mod(0nat, c as nat); assert(0int / c == 0) by { l_divmod(0, c, 0); } }
pub proof fn l_it(n: int, c: int, i: int, rem: int)
    requires c > 0, n >= 0, rem > 0, it_ok(n, c, i, rem),
    ensures imin(rem, c) == chunk_sz(n, c, i), it_ok(n, c, i + 1, rem - imin(rem, c)), i < n, 0 <= i * c, c * i == i * c, (i + 1) * c == i * c + c,
{
    l_ceil(n, c);
    l_chunk(n, c, i);
    let q = ceil_div(n, c);
    if rem <= c { assert(i + 1 >= q) by { if i + 1 <= q - 1 { assert((i + 1) * c <= (q - 1) * c) by(nonlinear_arith) requires i + 1 <= q - 1, c > 0; } } }
    else { assert(i + 1 < q) by { if i + 1 >= q { assert((i + 1) * c >= q * c) by(nonlinear_arith) requires i + 1 >= q, c > 0; } } }
}
// ---- parallel loops: permissions of one chunk
pub type RawF = spec_fn(int, int) -> bool;
pub open spec fn w_have(m: MV, w: RawF, t: int) -> bool { forall|s: int| w(t, s) ==> #[trigger] m.wr.contains(s) }
pub open spec fn r_have(m: MV, r: RawF, t: int) -> bool { forall|s: int| r(t, s) ==> #[trigger] m.rd.contains(s) }
/// chunk t has what it may write, what it may read and the memory acquired since `pre`
pub open spec fn restricted(pre: MV, o: MV, m: MV, w: RawF, r: RawF, t: int) -> bool {
    &&& forall|s: int| #[trigger] m.wr.contains(s) == (w(t, s) || (o.wr.contains(s) && !pre.wr.contains(s)))
    &&& forall|s: int| #[trigger] m.rd.contains(s) == (r(t, s) || (m.wr.contains(s) && o.rd.contains(s)))
    &&& m.val == o.val && m.allocs == o.allocs && m.rsz == o.rsz && m.cpu == o.cpu && m.tls == o.tls
}
/// from mk, permissions are back to those of pre; what mx gave no permission for is as in pre
pub open spec fn restored(pre: MV, mx: MV, mk: MV, m: MV) -> bool {
    &&& m.wr == pre.wr
    &&& forall|s: int| #[trigger] m.rd.contains(s) == (pre.rd.contains(s) || mk.rd.contains(s))
    &&& forall|s: int| #[trigger] m.val[s] == (if (pre.rd.contains(s) || pre.wr.contains(s)) && !mx.rd.contains(s) && !mx.wr.contains(s) { pre.val[s] } else { mk.val[s] })
    &&& m.allocs == mk.allocs && m.rsz == mk.rsz && m.cpu == mk.cpu && m.tls == mk.tls
}
/// the chunk wrote its columns and the mask buffer only
pub proof fn l_l2_vals<E: Raw>(ma: MV, mx: MV, mk: MV, mg: MV, mf: MV, p: P<E>, r: int, n: int, rs: int, cs: int, b: int, len: int)
    requires
        restored(ma, mx, mg, mf), mg.val == mk.val, mx.val == ma.val,
        upd2::<E>(mx, mk, p.a@, r, n, rs, cs, b, len), mwr::<E>(mx, p, r, n, rs, cs), blk_wr::<E>(mx, b, len),
    ensures forall|s: int| #[trigger] mf.val[s] == mk.val[s]
{
    l_mwr_raw::<E>(mx, p, r, n, rs, cs);
    assert forall|s: int| #[trigger] mf.val[s] == mk.val[s] by { }
}
/// loop 2: chunk t writes its columns of C (and x)
pub open spec fn w2fn<E: Raw>(x: SetF, c: int, r: int, n: int, nr: int, rs: int, cs: int) -> RawF { |t: int, s: int| cols::<E>(t, s, c, r, n, nr, rs, cs) || x(s) }
/// and reads the packed panels
pub open spec fn r2fn<E: Raw>(a: int, la: int, b: int, lb: int) -> RawF { |t: int, s: int| raw_blk::<E>(s, a, la) || raw_blk::<E>(s, b, lb) }
pub open spec fn bset(rsz: int, mb: int, ml: int) -> SetF { |s: int| byte_blk(s, rsz, mb, ml) }
/// z: the chunk's own area (x, and what it acquired since ma)
pub open spec fn zdef(x: SetF, z: SetF, ma: MV, mm: MV) -> bool {
    forall|s: int| #![trigger z(s)] #![trigger mm.wr.contains(s)] z(s) == (x(s) || (mm.wr.contains(s) && !ma.wr.contains(s)))
}
pub open spec fn zfree(o: MV, z: SetF) -> bool { forall|s: int| #[trigger] z(s) ==> !o.rd.contains(s) && !o.wr.contains(s) }
/// the area is acquired for the chunk
pub proof fn l_area_tls<E: Raw>(o: MV, ma: MV, mm: MV, x: SetF, c: int, r: int, n: int, rs: int, cs: int, mb: int, ml: int)
    requires
        upd3::<E>(o, ma, x, c, r, n, rs, cs), fresh(ma, mm, mb, ml), forall|s: int| !(#[trigger] x(s)), o.rsz == E::rsz(),
    ensures
        zdef(x, bset(E::rsz(), mb, ml), ma, mm), zfree(o, bset(E::rsz(), mb, ml)),
{
    let z = bset(E::rsz(), mb, ml);
    assert forall|s: int| #![trigger z(s)] #![trigger mm.wr.contains(s)] z(s) == (x(s) || (mm.wr.contains(s) && !ma.wr.contains(s))) by {
        assert(mm.wr.contains(s) == (ma.wr.contains(s) || byte_blk(s, ma.rsz, mb, ml)));
        assert(byte_blk(s, ma.rsz, mb, ml) ==> !ma.rd.contains(s) && !ma.wr.contains(s));
    }
    assert forall|s: int| #[trigger] z(s) implies !o.rd.contains(s) && !o.wr.contains(s) by {
        assert(o.rd.contains(s) ==> ma.rd.contains(s)); assert(o.wr.contains(s) ==> ma.wr.contains(s));
        assert(byte_blk(s, ma.rsz, mb, ml));
    }
}
/// what l_l2_* share
pub open spec fn l2req<E: Raw>(o: MV, a: int, mr: int, b: int, nr: int, k: int, nb0: bool, p: P<E>, r: int, n: int, rs: int, cs: int) -> bool {
    &&& 0 < mr && 0 < nr && 0 < k && 0 <= r && 0 <= n
    &&& minj(p.a@, r, n, rs, cs) && mwr::<E>(o, p, r, n, rs, cs) && (nb0 ==> mrd::<E>(o, p, r, n, rs, cs))
    &&& mat_off(p.a@, r, n, rs, cs, a, k * rup(r, mr)) && mat_off(p.a@, r, n, rs, cs, b, k * rup(n, nr))
    &&& blk_rd::<E>(o, a, k * rup(r, mr)) && blk_rd::<E>(o, b, k * rup(n, nr))
}
pub proof fn l_mwr_raw<E: Raw>(o: MV, p: P<E>, r: int, n: int, rs: int, cs: int)
    requires mwr::<E>(o, p, r, n, rs, cs),
    ensures forall|s: int| #[trigger] raw_in::<E>(s, p.a@, r, n, rs, cs) ==> o.wr.contains(s),
{
    E::raw_ok();
    assert forall|s: int| #[trigger] raw_in::<E>(s, p.a@, r, n, rs, cs) implies o.wr.contains(s) by {
        let e = elt_of::<E>(s);
        let (i, j) = choose|i: int, j: int| 0 <= i < r && 0 <= j < n && #[trigger] at2(p.a@, i, rs, j, cs) == e;
        assert(ewr::<E>(o, at2(p.a@, i, rs, j, cs)));
    }
}
/// the chunk's permissions exist, and chunks are apart
pub proof fn l_l2_have<E: Raw>(o: MV, m: MV, x: SetF, a: int, mr: int, b: int, nr: int, k: int, nb0: bool, p: P<E>, r: int, n: int, rs: int, cs: int, t: int)
    requires
        l2req::<E>(o, a, mr, b, nr, k, nb0, p, r, n, rs, cs), 0 <= t < ceil_div(n, nr),
        forall|s: int| o.wr.contains(s) || x(s) ==> #[trigger] m.wr.contains(s),
        forall|s: int| o.rd.contains(s) ==> #[trigger] m.rd.contains(s),
    ensures
        w_have(m, w2fn::<E>(x, p.a@, r, n, nr, rs, cs), t),
        r_have(m, r2fn::<E>(a, k * rup(r, mr), b, k * rup(n, nr)), t),
        forall|t: int, s: int| 0 <= t < ceil_div(n, nr) && #[trigger] cols::<E>(t, s, p.a@, r, n, nr, rs, cs) ==> !raw_blk::<E>(s, a, k * rup(r, mr)) && !raw_blk::<E>(s, b, k * rup(n, nr)),
        forall|t1: int, t2: int, s: int| 0 <= t1 < ceil_div(n, nr) && 0 <= t2 < ceil_div(n, nr) && t1 != t2
            ==> !(#[trigger] cols::<E>(t1, s, p.a@, r, n, nr, rs, cs) && #[trigger] cols::<E>(t2, s, p.a@, r, n, nr, rs, cs)),
{
    l_cols::<E>(p.a@, r, n, nr, rs, cs);
    l_mwr_raw::<E>(o, p, r, n, rs, cs);
    l_mat_not_blk::<E>(p.a@, r, n, rs, cs, a, k * rup(r, mr));
    l_mat_not_blk::<E>(p.a@, r, n, rs, cs, b, k * rup(n, nr));
    let w = w2fn::<E>(x, p.a@, r, n, nr, rs, cs);
    assert forall|s: int| w(t, s) implies #[trigger] m.wr.contains(s) by {
        if cols::<E>(t, s, p.a@, r, n, nr, rs, cs) { assert(raw_in::<E>(s, p.a@, r, n, rs, cs)); assert(o.wr.contains(s)); }
    }
    let rr = r2fn::<E>(a, k * rup(r, mr), b, k * rup(n, nr));
    assert forall|s: int| rr(t, s) implies #[trigger] m.rd.contains(s) by { assert(o.rd.contains(s)); }
}
/// what the chunk may rely on
pub proof fn l_l2_enter<E: Raw>(o: MV, ma: MV, mm: MV, mx: MV, x: SetF, z: SetF, a: int, mr: int, b: int, nr: int, k: int, nb0: bool, p: P<E>, r: int, n: int, rs: int, cs: int, mb: int, len: int, t: int)
    requires
        l2req::<E>(o, a, mr, b, nr, k, nb0, p, r, n, rs, cs), 0 <= t < ceil_div(n, nr),
        upd3::<E>(o, ma, x, p.a@, r, n, rs, cs),
        forall|s: int| #[trigger] raw_blk::<E>(s, mb, len) ==> z(s),
        zfree(o, z),
        zdef(x, z, ma, mm),
        mm.rd == ma.rd, mm.val == ma.val,
        restricted(ma, mm, mx, w2fn::<E>(x, p.a@, r, n, nr, rs, cs), r2fn::<E>(a, k * rup(r, mr), b, k * rup(n, nr)), t),
    ensures
        ({
            let c2 = at2(p.a@, 0, rs, t * nr, cs);
            let sz = chunk_sz(n, nr, t);
            let b2 = b + t * (nr * k);
            &&& 0 <= sz <= nr
            &&& mwr::<E>(mx, p.at(c2), r, sz, rs, cs) && (nb0 ==> mrd::<E>(mx, p.at(c2), r, sz, rs, cs))
            &&& minj(c2, r, sz, rs, cs)
            &&& mat_off(c2, r, sz, rs, cs, mb, len) && mat_off(c2, r, sz, rs, cs, a, k * rup(r, mr)) && mat_off(c2, r, sz, rs, cs, b2, k * nr)
            &&& blk_rd::<E>(mx, a, k * rup(r, mr)) && blk_rd::<E>(mx, b2, k * nr) && blk_wr::<E>(mx, mb, len)
            &&& forall|s: int| #![trigger raw_blk::<E>(s, mb, len)] raw_blk::<E>(s, mb, len) ==> !raw_blk::<E>(s, a, k * rup(r, mr)) && !raw_blk::<E>(s, b2, k * nr)
            &&& forall|s: int| #[trigger] mx.rd.contains(s) ==> ma.rd.contains(s)
            &&& mx.val == ma.val
        }),
{
    let wf = w2fn::<E>(x, p.a@, r, n, nr, rs, cs);
    let rf = r2fn::<E>(a, k * rup(r, mr), b, k * rup(n, nr));
    assert forall|s: int| #[trigger] mx.wr.contains(s) == (cols::<E>(t, s, p.a@, r, n, nr, rs, cs) || z(s)) by {
        assert(wf(t, s) == (cols::<E>(t, s, p.a@, r, n, nr, rs, cs) || x(s)));
        assert(z(s) == (x(s) || (mm.wr.contains(s) && !ma.wr.contains(s))));
    }
    assert forall|s: int| #[trigger] mx.rd.contains(s) == (raw_blk::<E>(s, a, k * rup(r, mr)) || raw_blk::<E>(s, b, k * rup(n, nr)) || (mx.wr.contains(s) && ma.rd.contains(s))) by {
        assert(rf(t, s) == (raw_blk::<E>(s, a, k * rup(r, mr)) || raw_blk::<E>(s, b, k * rup(n, nr))));
    }
    assert forall|s: int| #[trigger] mx.rd.contains(s) implies ma.rd.contains(s) by {
        if raw_blk::<E>(s, a, k * rup(r, mr)) || raw_blk::<E>(s, b, k * rup(n, nr)) { assert(o.rd.contains(s)); }
    }
    E::raw_ok();
    let c2 = at2(p.a@, 0, rs, t * nr, cs);
    let sz = chunk_sz(n, nr, t);
    let b2 = b + t * (nr * k);
    l_chunk(n, nr, t);
    l_sub_mat::<E>(p.a@, 0, t * nr, r, sz, r, n, rs, cs);
    l_sub_perm::<E>(o, p, 0, t * nr, r, sz, r, n, rs, cs);
    l_panel_in::<E>(b, nr, k, n, t);
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < sz implies
            ewr::<E>(mx, #[trigger] at2(c2, i, rs, j, cs)) && (nb0 ==> erd::<E>(mx, at2(c2, i, rs, j, cs)))
            && !(mb <= at2(c2, i, rs, j, cs) < mb + len) && !(b2 <= at2(c2, i, rs, j, cs) < b2 + k * nr) by {
        let e = at2(c2, i, rs, j, cs);
        assert(e == at2(p.a@, i, rs, t * nr + j, cs));
        assert(in_mat(e, c2, r, sz, rs, cs));
        l_elt::<E>(e); l_elt::<E>(2 * e); l_elt::<E>(2 * e + 1);
        assert(ewr::<E>(o, e));
        if E::cxn() == 1 {
            assert(cols::<E>(t, e, p.a@, r, n, nr, rs, cs)); assert(mx.wr.contains(e)); assert(nb0 ==> ma.rd.contains(e));
            if mb <= e < mb + len { assert(raw_blk::<E>(e, mb, len)); assert(z(e)); }
        } else {
            assert(cols::<E>(t, 2 * e, p.a@, r, n, nr, rs, cs)); assert(cols::<E>(t, 2 * e + 1, p.a@, r, n, nr, rs, cs));
            assert(mx.wr.contains(2 * e) && mx.wr.contains(2 * e + 1)); assert(nb0 ==> ma.rd.contains(2 * e) && ma.rd.contains(2 * e + 1));
            if mb <= e < mb + len { assert(raw_blk::<E>(2 * e, mb, len)); assert(z(2 * e)); }
        }
    }
    assert forall|s: int| #![trigger raw_blk::<E>(s, mb, len)] raw_blk::<E>(s, mb, len) implies !raw_blk::<E>(s, a, k * rup(r, mr)) && !raw_blk::<E>(s, b2, k * nr) by {
        assert(z(s)); assert(!o.rd.contains(s));
    }
}
/// what a tile may rely on
pub proof fn l_l1_enter<E: Raw>(mx: MV, m: MV, a: int, mr: int, b2: int, nr: int, k: int, nb0: bool, p: P<E>, r: int, cc: int, rs: int, cs: int, mb: int, len: int, l1: int)
    requires
        0 < mr, 0 < nr, 0 < k, 0 <= r, 0 <= cc <= nr, 0 <= l1 < ceil_div(r, mr),
        minj(p.a@, r, cc, rs, cs), mwr::<E>(mx, p, r, cc, rs, cs), nb0 ==> mrd::<E>(mx, p, r, cc, rs, cs),
        mat_off(p.a@, r, cc, rs, cs, mb, len),
        blk_rd::<E>(mx, a, k * rup(r, mr)) && blk_rd::<E>(mx, b2, k * nr) && blk_wr::<E>(mx, mb, len),
        upd2::<E>(mx, m, p.a@, r, cc, rs, cs, mb, len),
    ensures
        ({
            let c1 = at2(p.a@, l1 * mr, rs, 0, cs);
            let sz = chunk_sz(r, mr, l1);
            let a1 = a + l1 * (mr * k);
            &&& 0 < sz <= mr
            &&& mwr::<E>(m, p.at(c1), sz, cc, rs, cs) && (nb0 ==> mrd::<E>(m, p.at(c1), sz, cc, rs, cs))
            &&& minj(c1, sz, cc, rs, cs) && mat_off(c1, sz, cc, rs, cs, mb, len)
            &&& blk_rd::<E>(m, a1, k * mr) && blk_rd::<E>(m, b2, k * nr) && blk_wr::<E>(m, mb, len)
            &&& a <= a1 && a1 + k * mr <= a + k * rup(r, mr) && k * mr * l1 == l1 * (mr * k)
            &&& p.inb(p.a@) || cc == 0
        }),
{
    E::raw_ok();
    l_chunk(r, mr, l1);
    let sz = chunk_sz(r, mr, l1);
    l_sub_mat::<E>(p.a@, l1 * mr, 0, sz, cc, r, cc, rs, cs);
    l_sub_perm::<E>(m, p, l1 * mr, 0, sz, cc, r, cc, rs, cs);
    l_panel_in::<E>(a, mr, k, r, l1);
    if cc > 0 { l_at2(p.a@, 0, rs, 0, cs); assert(0 * rs == 0 && 0 * cs == 0) by(nonlinear_arith); assert(p.inb(at2(p.a@, 0, rs, 0, cs))); }
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < cc implies p.inb(#[trigger] at2(p.a@, i, rs, j, cs)) && ewr::<E>(m, at2(p.a@, i, rs, j, cs)) && (nb0 ==> erd::<E>(m, at2(p.a@, i, rs, j, cs))) by {
        assert(ewr::<E>(mx, at2(p.a@, i, rs, j, cs)));
    }
    assert(mwr::<E>(m, p, r, cc, rs, cs));
    assert(nb0 ==> mrd::<E>(m, p, r, cc, rs, cs));
}
/// the mask area: aligned inside its bytes
pub proof fn l_mask_area<E: Raw>(base: int, len: int, al: int, need: int)
    requires
        E::rsz() == 4 || E::rsz() == 8, base % 16 == 0, base > 0, al == 0 || al_ok(al), 0 < need, need * esz::<E>() <= 256, len >= 256 + imax(0, al - 1) || (len >= 256 + 16 && al <= 32),
    ensures
        ({
            let pad = al_pad(base, al, 1);
            &&& 0 <= pad <= imax(0, al - 1) && base + pad + 256 <= base + len
            &&& (base + pad) % esz::<E>() == 0
            &&& al != 0 ==> (base + pad) % al == 0
            &&& need <= 256int / esz::<E>()
            &&& forall|mk: int, s: int| mk * esz::<E>() == base + pad && #[trigger] raw_blk::<E>(s, mk, need) ==> byte_blk(s, E::rsz(), base, len)
            &&& forall|mk: int| #[trigger] (mk * esz::<E>()) == base + pad ==> mk + 256int / esz::<E>() <= (base + len) / esz::<E>() && base / esz::<E>() <= mk
            &&& ceil_div(base, esz::<E>()) == base / esz::<E>() && base / esz::<E>() >= 0 && (base + len) / esz::<E>() <= base / esz::<E>() + len
        }),
{
    E::raw_ok();
    l_esz::<E>();
    let e = esz::<E>();
    let pad = al_pad(base, al, 1);
    if al == 32 { assert((base + pad) % 32 == 0 && pad <= 16 && pad % 16 == 0); }
    else if al == 0 { assert(pad == 0); }
    else { assert(base % al == 0); assert(pad == 0); }
    assert((base + pad) % 16 == 0);
    l_dm(256int, e);
    l_exact(base, e);
    l_dm(base + len, e);
    assert((base + len) / e <= base / e + len) by { let (v, w) = ((base + len) / e, base / e); if v > w + len { assert(v * e >= (w + len + 1) * e && (w + len + 1) * e == w * e + (len + 1) * e && (len + 1) * e >= len + 1) by(nonlinear_arith) requires v >= w + len + 1, e > 0, len >= 0; } }
    assert(need <= 256int / e) by { if need > 256int / e { assert(need * e >= (256int / e + 1) * e) by(nonlinear_arith) requires need >= 256int / e + 1, e > 0; assert((256int / e + 1) * e == (256int / e) * e + e) by(nonlinear_arith); } }
    assert forall|mk: int, s: int| mk * esz::<E>() == base + pad && #[trigger] raw_blk::<E>(s, mk, need) implies byte_blk(s, E::rsz(), base, len) by {
        l_byte_blk::<E>(mk, need);
        assert(byte_blk(s, E::rsz(), mk * e, need * e));
    }
    assert forall|mk: int| #[trigger] (mk * esz::<E>()) == base + pad implies mk + 256int / e <= (base + len) / e && base / e <= mk by {
        assert((mk + 256int / e) * e == mk * e + (256int / e) * e) by(nonlinear_arith);
        l_dm(base + len, e);
        let (u, v) = (mk + 256int / e, (base + len) / e);
        if u > v { assert(u * e >= (v + 1) * e && (v + 1) * e == v * e + e) by(nonlinear_arith) requires u >= v + 1, e > 0; }
        let w = base / e;
        if w > mk { assert(w * e >= (mk + 1) * e && (mk + 1) * e == mk * e + e) by(nonlinear_arith) requires w >= mk + 1, e > 0; }
    }
}

/// one part of the loop is one worker's
pub proof fn l_one_worker(n: int, c: int, t: int)
    requires c > 0, 0 <= t < ceil_div(n, c),
    ensures t / part_cp(n, c, 1) == 0,
{
    let q = ceil_div(n, c);
    assert(q % 1 == 0 && q / 1 == q);
    assert(part_cp(n, c, 1) == q);
    l_divmod(0, q, t);
}
/// what the chunk leaves: permissions back
pub proof fn l_l2_leave<E: Raw>(o: MV, ma: MV, mm: MV, mx: MV, mk: MV, mg: MV, x: SetF, z: SetF, p: P<E>, r: int, n: int, nr: int, rs: int, cs: int, c2: int, sz: int, mb: int, len: int, rf: RawF, t: int)
    requires
        restricted(ma, mm, mx, w2fn::<E>(x, p.a@, r, n, nr, rs, cs), rf, t), 0 <= t < ceil_div(n, nr), 0 < nr, 0 <= n,
        upd2::<E>(mx, mk, c2, r, sz, rs, cs, mb, len),
        minj(p.a@, r, n, rs, cs), mwr::<E>(o, p, r, n, rs, cs), upd3::<E>(o, ma, x, p.a@, r, n, rs, cs),
        zdef(x, z, ma, mm),
        forall|s: int| #[trigger] mg.wr.contains(s) == (mk.wr.contains(s) && !(z(s) && !x(s))),
    ensures forall|s: int| #[trigger] mg.wr.contains(s) ==> ma.wr.contains(s),
{
    l_cols::<E>(p.a@, r, n, nr, rs, cs);
    l_mwr_raw::<E>(o, p, r, n, rs, cs);
    let wf = w2fn::<E>(x, p.a@, r, n, nr, rs, cs);
    assert forall|s: int| #[trigger] mg.wr.contains(s) implies ma.wr.contains(s) by {
        assert(mk.wr.contains(s)); assert(mx.wr.contains(s));
        assert(wf(t, s) == (cols::<E>(t, s, p.a@, r, n, nr, rs, cs) || x(s)));
        if cols::<E>(t, s, p.a@, r, n, nr, rs, cs) { assert(raw_in::<E>(s, p.a@, r, n, rs, cs)); assert(o.wr.contains(s)); }
        assert(z(s) == (x(s) || (mm.wr.contains(s) && !ma.wr.contains(s))));
    }
}

/// all chunks done
pub proof fn l_l2_all<E: Raw>(o: MV, m: MV, x: SetF, done: ISet<int>, nr: int, want: VF, c: int, r: int, cc: int, rs: int, cs: int)
    requires
        0 < nr, l2st::<E>(o, m, x, done, nr, want, c, r, cc, rs, cs), forall|t: int| 0 <= t < ceil_div(cc, nr) ==> #[trigger] done.contains(t),
    ensures
        forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==> ev::<E>(m, #[trigger] at2(c, i, rs, j, cs)) == want(i, j) && erd::<E>(m, at2(c, i, rs, j, cs)),
{
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < cc implies ev::<E>(m, #[trigger] at2(c, i, rs, j, cs)) == want(i, j) && erd::<E>(m, at2(c, i, rs, j, cs)) by {
        l_dm(j, nr); l_ceil(cc, nr);
        let (q, u) = (j / nr, ceil_div(cc, nr));
        assert(q < u) by(nonlinear_arith) requires q * nr <= j, j < cc, cc <= u * nr, nr > 0;
        assert(done.contains(q));
    }
}
/// the local buffer's life ends
pub proof fn l_local_back<E: Raw>(o: MV, m: MV, m2: MV, x: SetF, want: VF, c: int, r: int, cc: int, rs: int, cs: int)
    requires
        upd3::<E>(o, m, x, c, r, cc, rs, cs), zfree(o, x), m2.val == m.val,
        forall|s: int| #![trigger m2.wr.contains(s)] m2.wr.contains(s) == (m.wr.contains(s) && !x(s)),
        forall|s: int| #![trigger m2.rd.contains(s)] m2.rd.contains(s) == (m.rd.contains(s) && !x(s)),
        m2.allocs == m.allocs, m2.rsz == m.rsz, m2.cpu == m.cpu, m2.tls == m.tls,
        forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==> ewr::<E>(o, #[trigger] at2(c, i, rs, j, cs)),
        forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==> ev::<E>(m, #[trigger] at2(c, i, rs, j, cs)) == want(i, j) && erd::<E>(m, at2(c, i, rs, j, cs)),
    ensures
        upd3::<E>(o, m2, |s: int| false, c, r, cc, rs, cs),
        forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==> ev::<E>(m2, #[trigger] at2(c, i, rs, j, cs)) == want(i, j) && erd::<E>(m2, at2(c, i, rs, j, cs)),
{
    assert forall|s: int| #![trigger m2.rd.contains(s)] (o.rd.contains(s) ==> m2.rd.contains(s)) && (m2.rd.contains(s) ==> o.rd.contains(s) || raw_in::<E>(s, c, r, cc, rs, cs)) by {
        assert(o.rd.contains(s) ==> m.rd.contains(s)); assert(x(s) ==> !o.rd.contains(s));
    }
    assert forall|s: int| #![trigger m2.wr.contains(s)] m2.wr.contains(s) == o.wr.contains(s) by { assert(x(s) ==> !o.wr.contains(s)); }
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < cc implies ev::<E>(m2, #[trigger] at2(c, i, rs, j, cs)) == want(i, j) && erd::<E>(m2, at2(c, i, rs, j, cs)) by {
        let e = at2(c, i, rs, j, cs);
        assert(ewr::<E>(o, e));
        assert(forall|s: int| x(s) ==> !o.wr.contains(s));
        if E::cxn() == 1 { assert(!x(e)); } else { E::raw_ok(); assert(!x(2 * e) && !x(2 * e + 1)); }
    }
}
