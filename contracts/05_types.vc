@# generated by gen_types.py
@head
pub mod fuel_types {
pub type Word = u64;
pub use crate::types_dep::*;
pub use crate::bytes_dep as bytes;
}
@drop struct Bytes20
@drop Bytes20
@module types_dep
use vstd::std_specs::convert::*; use vstd::std_specs::cmp::*;
pub type Word = u64;
impl View for Address { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for Address { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for Address { fn clone(&self) -> (r: Self) ensures r == *self { Address(self.0) } }
impl Copy for Address {}
impl Eq for Address {}
impl PartialEqSpecImpl for Address { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for Address { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for Address { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for Address { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for Address { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for Address { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 32]> for Address { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 32]) -> Self { Address(a) } }
impl FromSpecImpl<Address> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Address) -> Self { a.0 } }
impl Nt for Address { open spec fn nt(self) -> Seq<u8> { self.0@ } }
impl Default for Address { fn default() -> (r: Self) ensures r.0@ == zeros(32) { Address::zeroed() } }
impl View for AssetId { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for AssetId { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for AssetId { fn clone(&self) -> (r: Self) ensures r == *self { AssetId(self.0) } }
impl Copy for AssetId {}
impl Eq for AssetId {}
impl PartialEqSpecImpl for AssetId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for AssetId { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for AssetId { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for AssetId { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for AssetId { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for AssetId { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 32]> for AssetId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 32]) -> Self { AssetId(a) } }
impl FromSpecImpl<AssetId> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: AssetId) -> Self { a.0 } }
impl Nt for AssetId { open spec fn nt(self) -> Seq<u8> { self.0@ } }
impl Default for AssetId { fn default() -> (r: Self) ensures r.0@ == zeros(32) { AssetId::zeroed() } }
impl View for Bytes32 { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for Bytes32 { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for Bytes32 { fn clone(&self) -> (r: Self) ensures r == *self { Bytes32(self.0) } }
impl Copy for Bytes32 {}
impl Eq for Bytes32 {}
impl PartialEqSpecImpl for Bytes32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for Bytes32 { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for Bytes32 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for Bytes32 { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for Bytes32 { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for Bytes32 { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 32]> for Bytes32 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 32]) -> Self { Bytes32(a) } }
impl FromSpecImpl<Bytes32> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Bytes32) -> Self { a.0 } }
impl Nt for Bytes32 { open spec fn nt(self) -> Seq<u8> { self.0@ } }
impl Default for Bytes32 { fn default() -> (r: Self) ensures r.0@ == zeros(32) { Bytes32::zeroed() } }
impl View for ContractId { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for ContractId { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for ContractId { fn clone(&self) -> (r: Self) ensures r == *self { ContractId(self.0) } }
impl Copy for ContractId {}
impl Eq for ContractId {}
impl PartialEqSpecImpl for ContractId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for ContractId { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for ContractId { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for ContractId { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for ContractId { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for ContractId { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 32]> for ContractId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 32]) -> Self { ContractId(a) } }
impl FromSpecImpl<ContractId> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: ContractId) -> Self { a.0 } }
impl Nt for ContractId { open spec fn nt(self) -> Seq<u8> { self.0@ } }
impl Default for ContractId { fn default() -> (r: Self) ensures r.0@ == zeros(32) { ContractId::zeroed() } }
impl View for MessageId { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for MessageId { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for MessageId { fn clone(&self) -> (r: Self) ensures r == *self { MessageId(self.0) } }
impl Copy for MessageId {}
impl Eq for MessageId {}
impl PartialEqSpecImpl for MessageId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for MessageId { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for MessageId { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for MessageId { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for MessageId { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for MessageId { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 32]> for MessageId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 32]) -> Self { MessageId(a) } }
impl FromSpecImpl<MessageId> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: MessageId) -> Self { a.0 } }
impl Nt for MessageId { open spec fn nt(self) -> Seq<u8> { self.0@ } }
impl Default for MessageId { fn default() -> (r: Self) ensures r.0@ == zeros(32) { MessageId::zeroed() } }
impl View for Salt { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for Salt { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for Salt { fn clone(&self) -> (r: Self) ensures r == *self { Salt(self.0) } }
impl Copy for Salt {}
impl Eq for Salt {}
impl PartialEqSpecImpl for Salt { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for Salt { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for Salt { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for Salt { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for Salt { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for Salt { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 32]> for Salt { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 32]) -> Self { Salt(a) } }
impl FromSpecImpl<Salt> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Salt) -> Self { a.0 } }
impl Nt for Salt { open spec fn nt(self) -> Seq<u8> { self.0@ } }
impl Default for Salt { fn default() -> (r: Self) ensures r.0@ == zeros(32) { Salt::zeroed() } }
impl View for Bytes4 { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for Bytes4 { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for Bytes4 { fn clone(&self) -> (r: Self) ensures r == *self { Bytes4(self.0) } }
impl Copy for Bytes4 {}
impl Eq for Bytes4 {}
impl PartialEqSpecImpl for Bytes4 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for Bytes4 { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for Bytes4 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for Bytes4 { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for Bytes4 { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for Bytes4 { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 4]> for Bytes4 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 4]) -> Self { Bytes4(a) } }
impl FromSpecImpl<Bytes4> for [u8; 4] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Bytes4) -> Self { a.0 } }
impl Nt for Bytes4 { open spec fn nt(self) -> Seq<u8> { self.0@ } }
impl Default for Bytes4 { fn default() -> (r: Self) ensures r.0@ == zeros(4) { Bytes4::zeroed() } }
impl View for Bytes8 { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for Bytes8 { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for Bytes8 { fn clone(&self) -> (r: Self) ensures r == *self { Bytes8(self.0) } }
impl Copy for Bytes8 {}
impl Eq for Bytes8 {}
impl PartialEqSpecImpl for Bytes8 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for Bytes8 { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for Bytes8 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for Bytes8 { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for Bytes8 { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for Bytes8 { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 8]> for Bytes8 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 8]) -> Self { Bytes8(a) } }
impl FromSpecImpl<Bytes8> for [u8; 8] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Bytes8) -> Self { a.0 } }
impl Nt for Bytes8 { open spec fn nt(self) -> Seq<u8> { self.0@ } }
impl Default for Bytes8 { fn default() -> (r: Self) ensures r.0@ == zeros(8) { Bytes8::zeroed() } }
impl View for Bytes64 { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl DeepView for Bytes64 { type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> { self.0@ } }
impl Clone for Bytes64 { fn clone(&self) -> (r: Self) ensures r == *self { Bytes64(self.0) } }
impl Copy for Bytes64 {}
impl Eq for Bytes64 {}
impl PartialEqSpecImpl for Bytes64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0@ == o.0@ } }
impl PartialEq for Bytes64 { fn eq(&self, o: &Self) -> bool { crate::vstub::arr_eq(&self.0, &o.0) } }
impl PartialOrdSpecImpl for Bytes64 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.0@, o.0@)) } }
impl PartialOrd for Bytes64 { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(crate::vstub::arr_cmp(&self.0, &o.0)) } }
impl OrdSpecImpl for Bytes64 { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.0@, o.0@) } }
impl Ord for Bytes64 { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::vstub::arr_cmp(&self.0, &o.0) } }
impl FromSpecImpl<[u8; 64]> for Bytes64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: [u8; 64]) -> Self { Bytes64(a) } }
impl FromSpecImpl<Bytes64> for [u8; 64] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Bytes64) -> Self { a.0 } }
impl Nt for Bytes64 { open spec fn nt(self) -> Seq<u8> { self.0@ } }
@tattr Address #[verifier::ext_equal]
@fn Address.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn Address.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(32)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(32));
@fn Address.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn Address.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn Address.size
@props C01 C24
@hint const
@ens
r == 32
@fn Address.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl Address.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn Address.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn Address.From<[u8;32]>.from
@props C01 C24
@fn [u8;32].From<Address>.from
@tattr AssetId #[verifier::ext_equal]
@fn AssetId.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn AssetId.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(32)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(32));
@fn AssetId.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn AssetId.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn AssetId.size
@props C01 C24
@hint const
@ens
r == 32
@fn AssetId.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl AssetId.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn AssetId.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn AssetId.From<[u8;32]>.from
@props C01 C24
@fn [u8;32].From<AssetId>.from
@tattr Bytes32 #[verifier::ext_equal]
@fn Bytes32.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn Bytes32.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(32)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(32));
@fn Bytes32.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn Bytes32.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn Bytes32.size
@props C01 C24
@hint const
@ens
r == 32
@fn Bytes32.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl Bytes32.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn Bytes32.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn Bytes32.From<[u8;32]>.from
@props C01 C24
@fn [u8;32].From<Bytes32>.from
@tattr ContractId #[verifier::ext_equal]
@fn ContractId.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn ContractId.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(32)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(32));
@fn ContractId.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn ContractId.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn ContractId.size
@props C01 C24
@hint const
@ens
r == 32
@fn ContractId.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl ContractId.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn ContractId.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn ContractId.From<[u8;32]>.from
@props C01 C24
@fn [u8;32].From<ContractId>.from
@tattr MessageId #[verifier::ext_equal]
@fn MessageId.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn MessageId.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(32)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(32));
@fn MessageId.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn MessageId.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn MessageId.size
@props C01 C24
@hint const
@ens
r == 32
@fn MessageId.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl MessageId.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn MessageId.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn MessageId.From<[u8;32]>.from
@props C01 C24
@fn [u8;32].From<MessageId>.from
@tattr Salt #[verifier::ext_equal]
@fn Salt.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn Salt.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(32)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(32));
@fn Salt.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn Salt.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 32
@ens
r.0@ == bytes@.subrange(0, 32)
@fn Salt.size
@props C01 C24
@hint const
@ens
r == 32
@fn Salt.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl Salt.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn Salt.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn Salt.From<[u8;32]>.from
@props C01 C24
@fn [u8;32].From<Salt>.from
@tattr Bytes4 #[verifier::ext_equal]
@fn Bytes4.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn Bytes4.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(4)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(4));
@fn Bytes4.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 4
@ens
r.0@ == bytes@.subrange(0, 4)
@fn Bytes4.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 4
@ens
r.0@ == bytes@.subrange(0, 4)
@fn Bytes4.size
@props C01 C24
@hint const
@ens
r == 4
@fn Bytes4.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl Bytes4.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn Bytes4.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn Bytes4.From<[u8;4]>.from
@props C01 C24
@fn [u8;4].From<Bytes4>.from
@tattr Bytes8 #[verifier::ext_equal]
@fn Bytes8.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn Bytes8.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(8)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(8));
@fn Bytes8.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 8
@ens
r.0@ == bytes@.subrange(0, 8)
@fn Bytes8.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 8
@ens
r.0@ == bytes@.subrange(0, 8)
@fn Bytes8.size
@props C01 C24
@hint const
@ens
r == 8
@fn Bytes8.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl Bytes8.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn Bytes8.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn Bytes8.From<[u8;8]>.from
@props C01 C24
@fn [u8;8].From<Bytes8>.from
@tattr Bytes64 #[verifier::ext_equal]
@fn Bytes64.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn Bytes64.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros(64)
@post
proof { copies(0u8); } assert(__out.0@ =~= zeros(64));
@fn Bytes64.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= 64
@ens
r.0@ == bytes@.subrange(0, 64)
@fn Bytes64.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= 64
@ens
r.0@ == bytes@.subrange(0, 64)
@fn Bytes64.size
@props C01 C24
@hint const
@ens
r == 64
@fn Bytes64.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl Bytes64.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn Bytes64.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn Bytes64.From<[u8;64]>.from
@props C01 C24
@fn [u8;64].From<Bytes64>.from
@fn Bytes32.AsMut<[u8]>.as_mut
@fn Bytes64.Default.default
@ens
r.0@ == zeros(64)
@post
assert(__out.0@ =~= zeros(64));
@fn AssetId.BASE
@props C14 C15
@ens
AssetId::BASE.0@ == zeros(32)
@fn ContractId.SEED
@props C20
@ens
ContractId::SEED@ == seed_spec()
@post
assert(__out@ =~= seed_spec()) by { assert((0x4655454Cu32 >> 24) as u8 == 0x46u8 && (0x4655454Cu32 >> 16) as u8 == 0x55u8 && (0x4655454Cu32 >> 8) as u8 == 0x45u8 && 0x4655454Cu32 as u8 == 0x4cu8) by (bit_vector); }
