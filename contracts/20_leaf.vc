@# Codecs and accessors of the small types.
@impl UtxoId.SizedBytes
open spec fn sized_ok(&self) -> bool { true }
open spec fn sized(&self) -> int { self.dv().e().len() as int }
@impl UtxoId.Read
type E = <UtxoId as Dv>::S;
open spec fn ev(&self) -> Self::E { self.dv() }
open spec fn enc(&self) -> Seq<u8> { self.dv().e() }
open spec fn enc_size(&self) -> int { self.dv().e().len() as int }
open spec fn enc_ok(&self) -> bool { true }
@impl UtxoId.Write
type D = <UtxoId as Dv>::S;
open spec fn dvw(&self) -> Self::D { self.dv() }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { <Self as Dv>::S::d(buf) }
@fn UtxoId.SizedBytes.serialized_size
@props C02 C04
@pre
broadcast use {grp, lens};
@fn UtxoId.Read.read
@props C01 C02
@pre
broadcast use {grp, peel, sub_base};
proof { base(buf@); }
reveal(utxo_e); reveal(txp_e);
@fn UtxoId.Write.write
@props C01 C02 C03
@pre
broadcast use {grp, peel, sub_sub};
@fn UtxoId.Write.flush
@props C01
@impl TxPointer.SizedBytes
open spec fn sized_ok(&self) -> bool { true }
open spec fn sized(&self) -> int { self.dv().e().len() as int }
@impl TxPointer.Read
type E = <TxPointer as Dv>::S;
open spec fn ev(&self) -> Self::E { self.dv() }
open spec fn enc(&self) -> Seq<u8> { self.dv().e() }
open spec fn enc_size(&self) -> int { self.dv().e().len() as int }
open spec fn enc_ok(&self) -> bool { true }
@impl TxPointer.Write
type D = <TxPointer as Dv>::S;
open spec fn dvw(&self) -> Self::D { self.dv() }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { <Self as Dv>::S::d(buf) }
@fn TxPointer.SizedBytes.serialized_size
@props C02 C04
@pre
broadcast use {grp, lens};
@fn TxPointer.Read.read
@props C01 C02
@pre
broadcast use {grp, peel, sub_base};
proof { base(buf@); }
reveal(utxo_e); reveal(txp_e);
@fn TxPointer.Write.write
@props C01 C02 C03
@pre
broadcast use {grp, peel, sub_sub};
@fn TxPointer.Write.flush
@props C01
@impl StorageSlot.SizedBytes
open spec fn sized_ok(&self) -> bool { true }
open spec fn sized(&self) -> int { self.dv().e().len() as int }
@impl StorageSlot.Read
type E = <StorageSlot as Dv>::S;
open spec fn ev(&self) -> Self::E { self.dv() }
open spec fn enc(&self) -> Seq<u8> { self.dv().e() }
open spec fn enc_size(&self) -> int { self.dv().e().len() as int }
open spec fn enc_ok(&self) -> bool { true }
@impl StorageSlot.Write
type D = <StorageSlot as Dv>::S;
open spec fn dvw(&self) -> Self::D { self.dv() }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { <Self as Dv>::S::d(buf) }
@fn StorageSlot.SizedBytes.serialized_size
@props C02 C04
@pre
broadcast use grp;
@fn StorageSlot.Read.read
@props C01 C02
@pre
broadcast use {grp, peel, sub_base};
proof { base(buf@); }
@fn StorageSlot.Write.write
@props C01 C02 C03
@pre
broadcast use {grp, peel, sub_sub};
@fn StorageSlot.Write.flush
@props C01
@impl Witness.SizedBytes
open spec fn sized_ok(&self) -> bool { true }
open spec fn sized(&self) -> int { self.dv().e().len() as int }
@impl Witness.Read
type E = <Witness as Dv>::S;
open spec fn ev(&self) -> Self::E { self.dv() }
open spec fn enc(&self) -> Seq<u8> { self.dv().e() }
open spec fn enc_size(&self) -> int { self.dv().e().len() as int }
open spec fn enc_ok(&self) -> bool { true }
@impl Witness.Write
type D = <Witness as Dv>::S;
open spec fn dvw(&self) -> Self::D { self.dv() }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { <Self as Dv>::S::d(buf) }
@fn Witness.SizedBytes.serialized_size
@props C02 C04
@pre
broadcast use grp;
@fn Witness.Read.read
@props C01 C02
@pre
broadcast use {grp, peel, sub_base};
proof { base(buf@); }
@fn Witness.Write.write
@props C01 C02 C03
@pre
broadcast use {grp, peel, sub_sub};
@fn Witness.Write.flush
@props C01
@derive UtxoId Clone Copy Default PartialEq Eq
@keep UtxoId.Copy
@keep UtxoId.Eq
@fn UtxoId.PartialEq.eq
@props C08
@pre
proof { crate::sleaf::bytes32_ext(self.tx_id, other.tx_id); }
@fn UtxoId.Clone.clone
@props C01
@ens
  r == *self
@fn UtxoId.Default.default
@props C01
@ens
  r.tx_id@ == zeros(32), r.output_index == 0
@fn UtxoId.new
@props C24
@ens
  r.tx_id == tx_id, r.output_index == output_index
@fn UtxoId.tx_id
@props C24
@ens
  *r == self.tx_id
@fn UtxoId.output_index
@props C24
@ens
  r == self.output_index
@fn UtxoId.replace_tx_id
@props C24
@ens
  final(self).tx_id == tx_id, final(self).output_index == old(self).output_index
@derive TxPointer Clone Copy Default PartialEq Eq
@keep TxPointer.Copy
@fn TxPointer.Clone.clone
@props C01
@ens
  r == *self
@fn TxPointer.Default.default
@props C01
@ens
  r == (TxPointer { block_height: 0, tx_index: 0 })
@fn TxPointer.new
@props C24
@ens
  r == (TxPointer { block_height: block_height, tx_index: tx_index })
@fn TxPointer.block_height
@props C24
@ens
  r == self.block_height
@fn TxPointer.tx_index
@props C24
@ens
  r == self.tx_index
@derive Witness Clone Default
@fn Witness.Clone.clone
@props C01
@ens
  r.data@ == self.data@
@fn Witness.Default.default
@props C01
@ens
  r.data@ == Seq::<u8>::empty()
@fn Witness.as_vec
@props C24
@ens
  *r == self.data
@fn Witness.as_vec_mut
@props C24
@ens
  *r == old(self).data, final(self).data == *final(r)
@fn Witness.into_inner
@props C24
@ens
  r == self.data
@fn Witness.From<Vec<u8>>.from
@props C24
@ens
  r.data == data
@fn Witness.From<&[u8]>.from
@props C24
@ens
  r.data@ == data@
@derive StorageSlot Clone Default PartialEq Eq
@head
pub mod sleaf {
use vstd::prelude::*; use crate::vx::*; use crate::fuel_types::*; use crate::transaction::types::*;
pub proof fn bytes32_ext(a: Bytes32, b: Bytes32) ensures a@ == b@ ==> a == b { assert(a@ == b@ ==> a.0 =~= b.0); }
impl PartialEqSpecImpl for UtxoId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEqSpecImpl for StorageSlot { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialOrdSpecImpl for StorageSlot { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(lex(self.key@, o.key@)) } }
impl OrdSpecImpl for StorageSlot { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex(self.key@, o.key@) } }
}
@keep StorageSlot.Eq
@fn StorageSlot.PartialEq.eq
@props C10
@pre
proof { crate::sleaf::bytes32_ext(self.key, other.key); crate::sleaf::bytes32_ext(self.value, other.value); }
@fn StorageSlot.PartialOrd.partial_cmp
@props C10
@fn StorageSlot.Ord.cmp
@props C10
@fn StorageSlot.Clone.clone
@props C01
@ens
  r == *self
@fn StorageSlot.new
@props C20 C24
@ens
  r.key == key, r.value == value
@fn StorageSlot.key
@props C20 C24
@ens
  *r == self.key
@fn StorageSlot.value
@props C20 C24
@ens
  *r == self.value
@fn Bytes64.From<&StorageSlot>.from
@props C24
@ens
  r@ == s.key@ + s.value@
@fn StorageSlot.From<&Bytes64>.from
@props C24
@ens
  r.key@ == b@.subrange(0, 32), r.value@ == b@.subrange(32, 64)
@fn decode.restore_raw_bytes
@props C01 C03
@ret r
@ens
  buf@.len() >= pad8(len as int) ==> r is Ok && (r->Ok_0).0 == pad8(len as int) && (r->Ok_0).1@ == buf@.subrange(0, len as int) && (r->Ok_0).2@ == buf@.subrange(pad8(len as int), buf@.len() as int),
  buf@.len() < pad8(len as int) ==> r is Err,
  r is Ok ==> (r->Ok_0).1@.len() <= buf@.len()
@pre
broadcast use grp;
@fn decode.restore_bytes
@props C01 C03
@ret r
@ens
  buf@.len() < 8 ==> r is Err,
  buf@.len() >= 8 ==> ({
      let len = un8(buf@.subrange(0, 8)) as int;
      &&& buf@.len() >= 8 + pad8(len) ==> r is Ok && (r->Ok_0).0 == 8 + pad8(len) && (r->Ok_0).1@ == buf@.subrange(8, 8 + len) && (r->Ok_0).2@ == buf@.subrange(8 + pad8(len), buf@.len() as int)
      &&& buf@.len() < 8 + pad8(len) ==> r is Err
  })
@pre
broadcast use grp;
@fn decode.check_elements
@props C03
@ret r
@ens
  r is Ok <==> 8 * count <= buf@.len()
@pre
broadcast use grp;
@impl Witness.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.data@ }
@fn Witness.AsMut<[u8]>.as_mut
@props C24
@fn Witness.AsRef<[u8]>.as_ref
@props C24
@fn StorageSlot.Default.default
@props C01
