@struct util::RangeChunk
@fn util::range_chunk
@pure
@props C01 C02 C08 C09 C14
@ens r.i == 0 && r.n == n && r.chunk == chunk
@fn util::RangeChunk::next
@sig (&mut self) -> (r: Option<(usize, usize)>)
@pure
@props C01 C02 C03 C06 C08 C09 C12 C14
@req[C08] old(self).n > 0 ==> old(self).i < usize::MAX
@ens old(self).n == 0 ==> r is None && *final(self) == *old(self)
@ens old(self).n > 0 ==> r == Some((old(self).i, imin(old(self).n as int, old(self).chunk as int) as usize)) && final(self).chunk == old(self).chunk && final(self).i == old(self).i + 1 && final(self).n == old(self).n - imin(old(self).n as int, old(self).chunk as int)
@fn util::round_up_to
@pure
@props C07 C14
@req multiple_of > 0
@req[C08] rup(x as int, multiple_of as int) <= usize::MAX
@ens r == rup(x as int, multiple_of as int)
@start
proof { l_ceil(x as int, multiple_of as int); l_dm(x as int, multiple_of as int); }
%if dbg rel cc
@fn util::RangeChunk::part
@pure
@props C09
@req self.i == 0 && total > 0 && index < total && total <= 4 && self.chunk > 0
@req[C08] self.n + 5 * self.chunk <= usize::MAX
@ens r.chunk == self.chunk
@ens r.i == part_cp(self.n as int, self.chunk as int, total as int) * index
@ens r.n == part_n(self.n as int, self.chunk as int, index as int, total as int)
@start
proof {
    l_part(self.n as int, self.chunk as int, index as int, total as int);
    let nch = ceil_div(self.n as int, self.chunk as int);
    l_ceil(self.n as int, self.chunk as int); l_dm(self.n as int, self.chunk as int);
    l_ceil(nch, total as int); l_dm(nch, total as int);
}
%endif
