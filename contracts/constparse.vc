%if cc
@struct constparse::ParseIntError
@fn constparse::parse_byte
@pure
@props C13
@ens r matches Ok(v) ==> dig(b) && v == (b - 48) * pow10
@ens r is Err ==> !dig(b) || (b - 48) * pow10 > usize::MAX
@fn constparse::POW10
@pure
@props C13
@ens r@.len() == 20
@ens forall|i: int| 0 <= i < 20 ==> #[trigger] r@[i] == p10(19 - i)
@start
proof { reveal_with_fuel(p10, 22); }
@loop loop
@invx 1 <= index <= 20
@inv array@.len() == 20
@invx pow10 == p10(20 - index)
@invx forall|i: int| index <= i < 20 ==> #[trigger] array@[i] == p10(19 - i)
@lens forall|i: int| 0 <= i < 20 ==> #[trigger] array@[i] == p10(19 - i)
@dec index
@begin
proof { reveal_with_fuel(p10, 22); }
@fn constparse::parse
@pure
@props C13
@panicidx !num_ok(b.b@)
@req b.b@.len() <= isize::MAX
@ens r matches Ok(v) ==> num_ok(b.b@) && v == dval(b.b@, b.b@.len() as int)
@ens r is Err ==> !num_ok(b.b@)
@loop while
@inv index <= b.b@.len() <= isize::MAX
@inv bytes == b && len == b.b@.len()
@inv b.b@.len() <= 20 ==> index_const_table == 20 - b.b@.len() + index
@inv b.b@.len() > 20 ==> index == 0 && index_const_table >= 20
@inv digits(b.b@, index as int)
@inv result == dval(b.b@, index as int)
@dec b.b@.len() - index
@begin
proof {
    if num_ok(b.b@) { l_dval_mono(b.b@, index + 1, b.b@.len() as int); assert(dig(b.b@[index as int])); l_dval_mono(b.b@, index as int, index + 1); }
}
@fn constparse::parse_unwarp
@pure
@props C13
@panicidx !num_ok(b.b@)
@req b.b@.len() <= isize::MAX
@ens num_ok(b.b@) && r == dval(b.b@, b.b@.len() as int)
%endif
