@# What the types of the code are, mathematically.
@head
pub mod deep {
use vstd::prelude::*; use crate::vx::*;
/// The mathematical value of a value.
pub trait Dv { type S; spec fn dv(&self) -> Self::S; }
impl<T: Dv + ?Sized> Dv for &T { type S = T::S; open spec fn dv(&self) -> T::S { (**self).dv() } }
pub open spec fn dvs<T: Dv>(s: Seq<T>) -> Seq<T::S> { s.map_values(|x: T| x.dv()) }
pub broadcast proof fn dvs_len<T: Dv>(s: Seq<T>) ensures #![trigger dvs(s)] dvs(s).len() == s.len() {}
pub broadcast proof fn dvs_push<T: Dv>(s: Seq<T>, x: T) ensures #[trigger] dvs(s.push(x)) == dvs(s).push(x.dv()) { assert(dvs(s.push(x)) =~= dvs(s).push(x.dv())); }
impl Dv for crate::transaction::types::UtxoId { type S = SUtxo; open spec fn dv(&self) -> SUtxo { SUtxo { id: self.tx_id@, ix: self.output_index } } }
impl Dv for crate::tx_pointer::TxPointer { type S = crate::tx_pointer::TxPointer; open spec fn dv(&self) -> crate::tx_pointer::TxPointer { *self } }
impl Dv for crate::transaction::types::StorageSlot { type S = SSlot; open spec fn dv(&self) -> SSlot { SSlot { key: self.key@, value: self.value@ } } }
impl Dv for crate::transaction::types::Witness { type S = SWit; open spec fn dv(&self) -> SWit { SWit { data: self.data@ } } }
}
@head
pub mod conv {
use vstd::prelude::*; use crate::vx::*; use crate::fuel_types::*;
use crate::transaction::types::*;
impl FromSpecImpl<Vec<u8>> for Witness { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Vec<u8>) -> Self { Witness { data: a } } }
impl FromSpecImpl<&[u8]> for Witness { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(a: &[u8]) -> Self; }
impl FromSpecImpl<&StorageSlot> for Bytes64 { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(a: &StorageSlot) -> Self; }
impl FromSpecImpl<&Bytes64> for StorageSlot { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(a: &Bytes64) -> Self; }
}
