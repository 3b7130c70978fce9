// ------------------------------------------------------------------
// 60_loops.rs: element-wise progress over a strided matrix
// ------------------------------------------------------------------
pub type BF = spec_fn(int, int) -> bool;
pub type VF = spec_fn(int, int) -> CV;
/// elements for which `done` holds have their new value, the others the one of `o`; nothing else changed
pub open spec fn mst<E: Raw>(o: MV, m: MV, done: BF, want: VF, c: int, r: int, cc: int, rs: int, cs: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==>
            ev::<E>(m, #[trigger] at2(c, i, rs, j, cs)) == (if done(i, j) { want(i, j) } else { ev::<E>(o, at2(c, i, rs, j, cs)) })
            && (done(i, j) ==> erd::<E>(m, at2(c, i, rs, j, cs)))
    &&& upd_mat::<E>(o, m, c, r, cc, rs, cs)
}
pub proof fn l_mst_init<E: Raw>(o: MV, done: BF, want: VF, c: int, r: int, cc: int, rs: int, cs: int)
    requires forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==> !(#[trigger] done(i, j)),
    ensures mst::<E>(o, o, done, want, c, r, cc, rs, cs),
{}
pub proof fn l_mst_eq<E: Raw>(o: MV, m: MV, done: BF, done2: BF, want: VF, c: int, r: int, cc: int, rs: int, cs: int)
    requires
        mst::<E>(o, m, done, want, c, r, cc, rs, cs),
        forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==> (#[trigger] done(i, j)) == done2(i, j),
    ensures mst::<E>(o, m, done2, want, c, r, cc, rs, cs),
{
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < cc implies
            ev::<E>(m, #[trigger] at2(c, i, rs, j, cs)) == (if done2(i, j) { want(i, j) } else { ev::<E>(o, at2(c, i, rs, j, cs)) })
            && (done2(i, j) ==> erd::<E>(m, at2(c, i, rs, j, cs))) by { assert(done(i, j) == done2(i, j)); }
}
pub proof fn l_put<E: Raw>(m: MV, a: int, v: CV)
    requires E::cxn() == 1 ==> v.im == 0real,
    ensures
        ev::<E>(put::<E>(m, a, v), a) == v, erd::<E>(put::<E>(m, a, v), a), same_perm(m, put::<E>(m, a, v)),
        forall|x: int| x != a ==> #[trigger] ev::<E>(put::<E>(m, a, v), x) == ev::<E>(m, x),
        forall|x: int| x != a ==> (#[trigger] erd::<E>(put::<E>(m, a, v), x)) == erd::<E>(m, x),
        forall|x: int| erd::<E>(m, x) ==> #[trigger] erd::<E>(put::<E>(m, a, v), x),
        forall|s: int| elt_of::<E>(s) != a ==> #[trigger] put::<E>(m, a, v).val[s] == m.val[s],
        forall|s: int| m.rd.contains(s) ==> #[trigger] put::<E>(m, a, v).rd.contains(s),
        forall|s: int| elt_of::<E>(s) != a ==> (#[trigger] put::<E>(m, a, v).rd.contains(s)) == m.rd.contains(s),
{ E::raw_ok(); }
pub proof fn l_mst_put<E: Raw>(o: MV, m: MV, done: BF, done2: BF, want: VF, v: CV, i0: int, j0: int, c: int, r: int, cc: int, rs: int, cs: int)
    requires
        mst::<E>(o, m, done, want, c, r, cc, rs, cs), minj(c, r, cc, rs, cs),
        0 <= i0 < r, 0 <= j0 < cc, v == want(i0, j0), E::cxn() == 1 ==> v.im == 0real,
        forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==> (#[trigger] done2(i, j)) == (done(i, j) || (i == i0 && j == j0)),
    ensures mst::<E>(o, put::<E>(m, at2(c, i0, rs, j0, cs), v), done2, want, c, r, cc, rs, cs),
{
    let a = at2(c, i0, rs, j0, cs);
    let m2 = put::<E>(m, a, v);
    l_put::<E>(m, a, v);
    assert(in_mat(a, c, r, cc, rs, cs));
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < cc implies
            ev::<E>(m2, #[trigger] at2(c, i, rs, j, cs)) == (if done2(i, j) { want(i, j) } else { ev::<E>(o, at2(c, i, rs, j, cs)) })
            && (done2(i, j) ==> erd::<E>(m2, at2(c, i, rs, j, cs))) by {
        assert(done2(i, j) == (done(i, j) || (i == i0 && j == j0)));
        if at2(c, i, rs, j, cs) == a { assert(i == i0 && j == j0); }
    }
}
/// rows in front of i0, and in row i0 the columns in front of j0
pub open spec fn lex(i0: int, j0: int) -> BF { |i: int, j: int| i < i0 || (i == i0 && j < j0) }
/// columns first
pub open spec fn clex(i0: int, j0: int) -> BF { |i: int, j: int| j < j0 || (j == j0 && i < i0) }
pub open spec fn all() -> BF { |i: int, j: int| true }
pub proof fn l_steps(i: int, s: int)
    requires i >= 0, -isize::MAX <= i * s <= isize::MAX,
    ensures i <= isize::MAX || s == 0,
{
    if s >= 1 { assert(i * s >= i) by(nonlinear_arith) requires i >= 0, s >= 1; }
    if s <= -1 { assert(i * s <= -i) by(nonlinear_arith) requires i >= 0, s <= -1; }
}
/// a row/column position of a matrix and the way to it are inside the allocation
pub proof fn l_at2_way<E: Raw>(m: MV, p: P<E>, i: int, j: int, r: int, c: int, rs: int, cs: int)
    requires mwr::<E>(m, p, r, c, rs, cs) || mrd::<E>(m, p, r, c, rs, cs), 0 <= i < r, 0 <= j < c, p.wf(),
    ensures
        i <= isize::MAX || rs == 0, j <= isize::MAX || cs == 0,
        at2(p.a@, i, rs, j, cs) == p.a@ + i * rs + j * cs,
        p.lo@ <= p.a@ + i * rs + j * cs < p.hi@,
        p.lo@ <= p.a@ + i * rs < p.hi@,
        p.lo@ <= p.a@ + j * cs < p.hi@,
        p.inb(at2(p.a@, i, rs, j, cs)),
{
    l_at2(p.a@, i, rs, j, cs); l_at2(p.a@, i, rs, 0, cs); l_at2(p.a@, 0, rs, j, cs);
    assert(0 * cs == 0 && 0 * rs == 0) by(nonlinear_arith);
    assert(p.inb(at2(p.a@, i, rs, j, cs)) && p.inb(at2(p.a@, i, rs, 0, cs)) && p.inb(at2(p.a@, 0, rs, j, cs)));
    l_steps(i, rs);
    l_steps(j, cs);
}
/// C <- beta C
pub open spec fn scaled<E: Raw>(o: MV, be: CV, c: int, rs: int, cs: int) -> VF {
    |i: int, j: int| if is0(be) { czero() } else { cmul(be, ev::<E>(o, at2(c, i, rs, j, cs))) }
}
/// alpha * (inner product) + beta * old
pub open spec fn comb<E: Raw>(o: MV, al: CV, f: VF, be: CV, c: int, rs: int, cs: int) -> VF {
    |i: int, j: int| res(al, f(i, j), be, ev::<E>(o, at2(c, i, rs, j, cs)))
}

pub proof fn l_cmul_re(a: CV, b: CV) requires a.im == 0real, b.im == 0real ensures cmul(a, b).im == 0real {
    reveal(cmul);
    let (x, y) = (a.re, b.re);
    assert(0real * y + x * 0real == 0real) by(nonlinear_arith);
}
pub proof fn l_cadd_re(a: CV, b: CV) requires a.im == 0real, b.im == 0real ensures cadd(a, b).im == 0real { reveal(cadd); }
pub proof fn l_put_put<E: Raw>(m: MV, a: int, v: CV, w: CV) ensures put::<E>(put::<E>(m, a, v), a, w) == put::<E>(m, a, w) {
    let (x, y) = (put::<E>(put::<E>(m, a, v), a, w), put::<E>(m, a, w));
    assert(x.val =~= y.val);
    assert(x.rd =~= y.rd);
}
/// C <- M + beta C, M column by column from mk, mr per column
pub open spec fn addm<E: Raw>(o: MV, mk: int, mr: int, be: CV, c: int, rs: int, cs: int) -> VF {
    |i: int, j: int| if is0(be) { ev::<E>(o, at2(mk, i, 1, j, mr)) } else { cadd(cmul(be, ev::<E>(o, at2(c, i, rs, j, cs))), ev::<E>(o, at2(mk, i, 1, j, mr))) }
}
/// rows x cols of an mr x nr area done up to column j0, row i0
pub proof fn l_pos_bound(i: int, j: int, mr: int, nr: int)
    requires 0 <= i < mr, 0 <= j < nr,
    ensures 0 <= i + j * mr < mr * nr, 0 <= j * mr, (j + 1) * mr == j * mr + mr,
{
    assert(0 <= j * mr && (j + 1) * mr == j * mr + mr && (nr - 1 - j) * mr >= 0 && (nr - 1 - j) * mr == mr * nr - mr - j * mr) by(nonlinear_arith) requires 0 <= i < mr, 0 <= j < nr;
}
// ---- the mask buffer
/// only raws of the matrix or of the block of len elements at b changed
pub open spec fn upd2<E: Raw>(o: MV, n: MV, c: int, r: int, cc: int, rs: int, cs: int, b: int, len: int) -> bool {
    &&& same_perm(o, n)
    &&& forall|s: int| #![trigger n.val[s]] !raw_in::<E>(s, c, r, cc, rs, cs) && !raw_blk::<E>(s, b, len) ==> n.val[s] == o.val[s]
    &&& forall|s: int| #![trigger n.rd.contains(s)] (o.rd.contains(s) ==> n.rd.contains(s)) && (!raw_in::<E>(s, c, r, cc, rs, cs) && !raw_blk::<E>(s, b, len) ==> n.rd.contains(s) == o.rd.contains(s))
}
/// matrix and block have no element in common
pub open spec fn mat_off(c: int, r: int, cc: int, rs: int, cs: int, b: int, len: int) -> bool {
    forall|i: int, j: int| 0 <= i < r && 0 <= j < cc ==> !(b <= #[trigger] at2(c, i, rs, j, cs) < b + len)
}
/// mr x nr elements from mk column by column: positions are those of the block, all distinct
pub proof fn l_cmaj<E: Raw>(mk: int, mr: int, nr: int)
    requires 0 < mr, 0 < nr,
    ensures
        minj(mk, mr, nr, 1, mr),
        forall|i: int, j: int| 0 <= i < mr && 0 <= j < nr ==> mk <= #[trigger] at2(mk, i, 1, j, mr) < mk + mr * nr,
        forall|s: int| #[trigger] raw_blk::<E>(s, mk, mr * nr) == raw_in::<E>(s, mk, mr, nr, 1, mr),
{
    E::raw_ok();
    assert forall|i: int, j: int| 0 <= i < mr && 0 <= j < nr implies mk <= #[trigger] at2(mk, i, 1, j, mr) < mk + mr * nr by {
        l_at2(mk, i, 1, j, mr); l_pos_bound(i, j, mr, nr);
    }
    assert forall|i: int, j: int, i2: int, j2: int| 0 <= i < mr && 0 <= j < nr && 0 <= i2 < mr && 0 <= j2 < nr
        && #[trigger] at2(mk, i, 1, j, mr) == #[trigger] at2(mk, i2, 1, j2, mr) implies i == i2 && j == j2 by {
        l_at2(mk, i, 1, j, mr); l_at2(mk, i2, 1, j2, mr);
        assert(j == j2) by(nonlinear_arith) requires i + j * mr == i2 + j2 * mr, 0 <= i < mr, 0 <= i2 < mr;
    }
    assert forall|s: int| #[trigger] raw_blk::<E>(s, mk, mr * nr) == raw_in::<E>(s, mk, mr, nr, 1, mr) by {
        let e = elt_of::<E>(s);
        assert(raw_blk::<E>(s, mk, mr * nr) == (mk <= e < mk + mr * nr));
        if mk <= e < mk + mr * nr {
            let (i, j) = ((e - mk) % mr, (e - mk) / mr);
            l_at2(mk, i, 1, j, mr);
            assert(0 <= i < mr && 0 <= j < nr && i + j * mr == e - mk) by(nonlinear_arith) requires i == (e - mk) % mr, j == (e - mk) / mr, 0 <= e - mk < mr * nr, mr > 0;
            assert(at2(mk, i, 1, j, mr) == e);
        }
    }
}
pub proof fn l_masked<E: Raw>(o: MV, m1: MV, m2: MV, al: CV, f: VF, be: CV, mk: int, mr: int, nr: int, c: int, r: int, cc: int, rs: int, cs: int)
    requires
        0 < mr, 0 < nr, r <= mr, cc <= nr,
        mat_off(c, r, cc, rs, cs, mk, mr * nr),
        is_res::<E>(o, m1, al, f, czero(), mk, mr, nr, 1, mr),
        upd_mat::<E>(o, m1, mk, mr, nr, 1, mr),
        mst::<E>(m1, m2, all(), addm::<E>(m1, mk, mr, be, c, rs, cs), c, r, cc, rs, cs),
    ensures
        is_res::<E>(o, m2, al, f, be, c, r, cc, rs, cs),
        upd2::<E>(o, m2, c, r, cc, rs, cs, mk, mr * nr),
{
    E::raw_ok();
    l_cmaj::<E>(mk, mr, nr);
    assert forall|s: int| !raw_blk::<E>(s, mk, mr * nr) implies #[trigger] m1.val[s] == o.val[s] by { assert(raw_blk::<E>(s, mk, mr * nr) == raw_in::<E>(s, mk, mr, nr, 1, mr)); }
    assert forall|s: int| !raw_blk::<E>(s, mk, mr * nr) implies (#[trigger] m1.rd.contains(s)) == o.rd.contains(s) by { assert(raw_blk::<E>(s, mk, mr * nr) == raw_in::<E>(s, mk, mr, nr, 1, mr)); }
    assert forall|i: int, j: int| 0 <= i < r && 0 <= j < cc implies
        ev::<E>(m2, #[trigger] at2(c, i, rs, j, cs)) == res(al, f(i, j), be, ev::<E>(o, at2(c, i, rs, j, cs))) && erd::<E>(m2, at2(c, i, rs, j, cs)) by {
        let a = at2(c, i, rs, j, cs);
        assert(all()(i, j));
        assert(ev::<E>(m1, a) == ev::<E>(o, a));
        assert(ev::<E>(m1, at2(mk, i, 1, j, mr)) == res(al, f(i, j), czero(), ev::<E>(o, at2(mk, i, 1, j, mr))));
    }
}
