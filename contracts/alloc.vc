# ---------------------------------------------------------------- aligned_alloc
@struct aligned_alloc::Alloc
@item aligned_alloc
pub open spec fn alloc_al<T: Raw>(align: int) -> int { imax(align, T::rsz()) }
/// the value owns a live allocation of its size
pub open spec fn owns<T: Raw>(s: Alloc<T>, m: MV) -> bool {
    &&& s.ptr.wf() && s.ptr.lo@ == s.ptr.a@ && s.ptr.hi@ == s.ptr.a@ + s.len && s.ptr.hi@ * esz::<T>() <= usize::MAX
    &&& layout_ok(esz::<T>() * s.len, s.align as int)
    &&& m.allocs.contains_key(s.ptr.a@ * esz::<T>()) && m.allocs[s.ptr.a@ * esz::<T>()] == (esz::<T>() * s.len, s.align as int)
    &&& s.len > 0
}
@fn aligned_alloc::Alloc::new
@where impl<T: Raw> Alloc<T>
@sig (nelem: usize, align: usize, mem: &mut Mem) -> (r: Alloc<T>)
@props C07 C08
@req old(mem).v@.rsz == T::rsz() && (T::rsz() == 4 || T::rsz() == 8)
@req align == 0 || al_ok(align as int)
@req 0 < nelem && esz::<T>() * nelem <= isize::MAX - 32
@ens owns(r, final(mem).v@) && r.len == nelem
@ens aligned::<T>(r.ptr.a@, align as int)
@ens fresh(old(mem).v@, final(mem).v@, r.ptr.a@ * esz::<T>(), nelem * esz::<T>())
@ens final(mem).v@.val == old(mem).v@.val && final(mem).v@.rd == old(mem).v@.rd && final(mem).v@.tls == old(mem).v@.tls
@ens !old(mem).v@.allocs.contains_key(r.ptr.a@ * esz::<T>())
@ens final(mem).v@.allocs.remove(r.ptr.a@ * esz::<T>()) == old(mem).v@.allocs
@start
let ghost m0 = mem.v@;
let ghost al0 = align as int;
proof { T::raw_ok(); l_esz::<T>(); }
@at after let ptr
proof {
    if ptr.a@ != 0 {
        l_alloc_new::<T>(ptr.a@, nelem as int);
        l_al_max(ptr.a@, al0, T::rsz());
        assert(mem.v@.allocs.remove(ptr.a@) =~= m0.allocs);
    }
}
@fn aligned_alloc::Alloc::ptr_mut
@where impl<T: Raw> Alloc<T>
@pure
@props C07
@ens r == old(self).ptr && *final(self) == *old(self)
@fn aligned_alloc::Alloc::drop
@where impl<T: Raw> Alloc<T>
@props C07 C08
@req old(mem).v@.rsz == T::rsz() && (T::rsz() == 4 || T::rsz() == 8)
@req owns(*old(self), old(mem).v@)
@ens given_up(old(mem).v@, final(mem).v@, old(self).ptr.a@ * esz::<T>(), old(self).len * esz::<T>())
@ens final(mem).v@.allocs == old(mem).v@.allocs.remove(old(self).ptr.a@ * esz::<T>())
@ens final(mem).v@.tls == old(mem).v@.tls
@start
proof { T::raw_ok(); assert(esz::<T>() * self.len == self.len * esz::<T>()) by(nonlinear_arith); }
