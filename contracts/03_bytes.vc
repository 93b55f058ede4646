@# fuel-types' bytes.rs, translated from the source of the dependency that the crate is built with.
@head
pub mod sbytes {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use crate::num::*;
/// What `Into<Word>` yields, and that the type's conversion is one the contracts describe.
pub open spec fn wdi<T: Into<u64>>(t: T) -> u64 { IntoSpec::into_spec(t) }
pub open spec fn wok<T: Into<u64>>() -> bool { <T as IntoSpec<u64>>::obeys_into_spec() }
pub open spec fn fd<T: From<u64>>(t: u64) -> T { <T as FromSpec<u64>>::from_spec(t) }
pub open spec fn fok<T: From<u64>>() -> bool { <T as FromSpec<u64>>::obeys_from_spec() }
/// `impl<T> From<T> for T` is the identity.
pub broadcast axiom fn from_self_ok() ensures #[trigger] <u64 as FromSpec<u64>>::obeys_from_spec();
pub broadcast axiom fn from_self(t: u64) ensures #[trigger] <u64 as FromSpec<u64>>::from_spec(t) == t;
pub open spec fn store_len(bytes: Seq<u8>) -> int { 8 + pad8(bytes.len() as int) }
pub broadcast group grp_bytes { from_self_ok, from_self }
}
@trait SizedBytes
spec fn sized_ok(&self) -> bool;
spec fn sized(&self) -> int;
@fn trait SizedBytes.serialized_size
@req
self.sized_ok()
@ens
r == self.sized()
@super SerializableVec io::Read
@fn trait SerializableVec.to_bytes
@req
old(self).enc_ok(), old(self).sized_ok(), old(self).sized() == old(self).enc_size(), old(self).enc_size() <= isize::MAX
@ens
final(self).ev() == old(self).ev(), r@ == old(self).enc() + zeros((old(self).enc_size() - old(self).enc().len()) as nat)
@fn T.SerializableVec.to_bytes
@props C01 C02 C03 C18
@super Deserializable io::Write
@fn trait Deserializable.from_bytes
@ens
Self::dec(bytes@) is Some ==> r is Ok && r->Ok_0.dvw() == (Self::dec(bytes@)->0).0, Self::dec(bytes@) is None ==> r is Err
@fn T.Deserializable.from_bytes
@props C01 C02 C03 C18
@fn bytes_dep.padded_len
@props C01 C02 C03 C18
@ens
r == pad8(bytes@.len() as int)
@fn bytes_dep.padded_len_usize
@props C01 C02 C03 C18
@req
pad8(len as int) <= usize::MAX
@ens
r == pad8(len as int)
@fn use_std.eof
@props C01 C02 C03 C18
@fn bytes_dep.store_number_unchecked
@props C01 C02 C03 C18
@req
old(buf)@.len() >= 8, wok::<T>()
@ens
r@ == old(buf)@.subrange(8, old(buf)@.len() as int), final(buf)@ == be8(wdi(number)) + final(r)@
@fn bytes_dep.store_array_unchecked
@props C01 C02 C03 C18
@req
old(buf)@.len() >= N
@ens
r@ == old(buf)@.subrange(N as int, old(buf)@.len() as int), final(buf)@ == array@ + final(r)@
@fn bytes_dep.restore_number_unchecked
@props C01 C02 C03 C18
@req
buf@.len() >= 8, fok::<T>()
@ens
r.0 == fd::<T>(un8(buf@.subrange(0, 8))), r.1@ == buf@.subrange(8, buf@.len() as int)
@fn bytes_dep.restore_word_unchecked
@props C01 C02 C03 C18
@req
buf@.len() >= 8
@ens
r.0 == un8(buf@.subrange(0, 8)), r.1@ == buf@.subrange(8, buf@.len() as int)
@fn bytes_dep.restore_u8_unchecked
@props C01 C02 C03 C18
@req
buf@.len() >= 8
@ens
r.0 == un8(buf@.subrange(0, 8)) as u8, r.1@ == buf@.subrange(8, buf@.len() as int)
@fn bytes_dep.restore_u16_unchecked
@props C01 C02 C03 C18
@req
buf@.len() >= 8
@ens
r.0 == un8(buf@.subrange(0, 8)) as u16, r.1@ == buf@.subrange(8, buf@.len() as int)
@fn bytes_dep.restore_u32_unchecked
@props C01 C02 C03 C18
@req
buf@.len() >= 8
@ens
r.0 == un8(buf@.subrange(0, 8)) as u32, r.1@ == buf@.subrange(8, buf@.len() as int)
@fn bytes_dep.restore_usize_unchecked
@props C01 C02 C03 C18
@req
buf@.len() >= 8
@ens
r.0 == un8(buf@.subrange(0, 8)), r.1@ == buf@.subrange(8, buf@.len() as int)
@fn bytes_dep.restore_array_unchecked
@props C01 C02 C03 C18
@req
buf@.len() >= N
@ens
r.0@ == buf@.subrange(0, N as int), r.1@ == buf@.subrange(N as int, buf@.len() as int)
@fn bytes_dep.from_slice_unchecked
@props C01 C02 C03 C18
@ext a raw pointer read as an array: the N bytes it points at
@req
buf@.len() >= N
@ens
r@ == buf@.subrange(0, N as int)
@fn use_std.store_bytes
@props C01 C02 C03 C18
@pre
reveal(padded);
@ens
final(buf)@.len() == old(buf)@.len(),
old(buf)@.len() >= 8 + pad8(bytes@.len() as int) ==> r is Ok && (r->Ok_0).0 == 8 + pad8(bytes@.len() as int) && (r->Ok_0).1@ == old(buf)@.subrange(8 + pad8(bytes@.len() as int), old(buf)@.len() as int) && final(buf)@ == be8(bytes@.len() as u64) + (padded(bytes@) + final((r->Ok_0).1)@),
old(buf)@.len() < 8 + pad8(bytes@.len() as int) ==> r is Err,
@loop 0
invariant s0@.len() == pad, i0 <= pad, forall|j: int| 0 <= j < i0 ==> s0@[j] == 0u8
decreases s0@.len() - i0
@la 0
assert(s0@ =~= zeros(pad as nat));
@fn use_std.store_raw_bytes
@props C01 C02 C03 C18
@pre
reveal(padded);
@ens
final(buf)@.len() == old(buf)@.len(),
old(buf)@.len() >= pad8(bytes@.len() as int) ==> r is Ok && (r->Ok_0).0 == pad8(bytes@.len() as int) && (r->Ok_0).1@ == old(buf)@.subrange(pad8(bytes@.len() as int), old(buf)@.len() as int) && final(buf)@ == padded(bytes@) + final((r->Ok_0).1)@,
old(buf)@.len() < pad8(bytes@.len() as int) ==> r is Err,
@loop 0
invariant s0@.len() == pad, i0 <= pad, forall|j: int| 0 <= j < i0 ==> s0@[j] == 0u8
decreases s0@.len() - i0
@la 0
assert(s0@ =~= zeros(pad as nat));
@# Both add the padding to the length before they compare it with the buffer's: a length that the
@# buffer is known to hold keeps that addition in range.
@fn use_std.restore_raw_bytes
@props C01 C02 C03 C18
@post
assert(__out is Ok ==> (__out->Ok_0).1@ =~= b0.subrange(0, len as int));
@pre
let ghost b0 = buf@;
@req
pad8(len as int) <= usize::MAX
@ens
buf@.len() >= pad8(len as int) ==> r is Ok && (r->Ok_0).0 == pad8(len as int) && (r->Ok_0).1@ == buf@.subrange(0, len as int) && (r->Ok_0).2@ == buf@.subrange(pad8(len as int), buf@.len() as int),
buf@.len() < pad8(len as int) ==> r is Err,
@fn use_std.restore_bytes
@props C01 C02 C03 C18
@pre
let ghost b0 = buf@;
assert(b0.len() >= 8 ==> b0.subrange(0, 8).subrange(0, 8) =~= b0.subrange(0, 8));
@post
assert(__out is Ok ==> (__out->Ok_0).1@ =~= b0.subrange(8, 8 + len) && (__out->Ok_0).2@ =~= b0.subrange(8 + pad8(len as int), b0.len() as int));
@req
buf@.len() >= 8 ==> 8 + pad8(un8(buf@.subrange(0, 8)) as int) <= usize::MAX
@ens
buf@.len() < 8 ==> r is Err,
buf@.len() >= 8 ==> ({
    let len = un8(buf@.subrange(0, 8)) as int;
    &&& buf@.len() >= 8 + pad8(len) ==> r is Ok && (r->Ok_0).0 == 8 + pad8(len) && (r->Ok_0).1@ == buf@.subrange(8, 8 + len) && (r->Ok_0).2@ == buf@.subrange(8 + pad8(len), buf@.len() as int)
    &&& buf@.len() < 8 + pad8(len) ==> r is Err
}),
