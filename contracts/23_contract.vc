@# Contract identifiers and roots.
@head
pub mod scontract {
use vstd::prelude::*; use crate::vx::*; use crate::fuel_merkle::binary::in_memory::bmt; use crate::fuel_merkle::sparse::in_memory::smt;
use crate::transaction::types::*;
/// The leaves of a code: its words, the last one padded with zeros.
pub open spec fn code_leaves(code: Seq<u8>) -> Seq<Seq<u8>> {
    Seq::new(((code.len() + 7) / 8) as nat, |i: int| if 8 * i + 8 <= code.len() { code.subrange(8 * i, 8 * i + 8) } else { padded(code.subrange(8 * i, code.len() as int)) })
}
pub open spec fn code_root(code: Seq<u8>) -> Seq<u8> { bmt(code_leaves(code)) }
pub open spec fn slots_root(slots: Seq<SSlot>) -> Seq<u8> { smt(slots.map_values(|s: SSlot| (s.key, s.value))) }
pub open spec fn contract_id_of(salt: Seq<u8>, root: Seq<u8>, state_root: Seq<u8>) -> Seq<u8> { sha256(seed_spec() + (salt + (root + state_root))) }
}
@head
pub mod ccontract {
use vstd::prelude::*; use crate::vx::*; use crate::contract::Contract; use crate::transaction::*; use crate::checked_transaction::*;
use vstd::std_specs::convert::*;
impl FromSpecImpl<Vec<u8>> for Contract { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Vec<u8>) -> Self { Contract(a) } }
impl FromSpecImpl<&[u8]> for Contract { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(a: &[u8]) -> Self; }
impl FromSpecImpl<&mut [u8]> for Contract { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(a: &mut [u8]) -> Self; }
impl FromSpecImpl<Contract> for Vec<u8> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Contract) -> Self { a.0 } }
impl TryFromSpecImpl<&Create> for Contract { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(a: &Create) -> core::result::Result<Self, CheckError>; }
impl TryFromSpecImpl<&Transaction> for Contract { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(a: &Transaction) -> core::result::Result<Self, CheckError>; }
/// The contract that a create deploys: the witness its bytecode index names.
pub open spec fn code_of(tx: Create) -> Option<Seq<u8>> { if (tx.bytecode_witness_index as int) < tx.witnesses@.len() { Some(tx.witnesses@[tx.bytecode_witness_index as int].data@) } else { None } }
}
@fn Contract.From<Vec<u8>>.from
@props C20
@fn Contract.From<&[u8]>.from
@props C20
@hint into Vec<u8>
@ens
  r.0@ == c@
@fn Contract.From<&mut[u8]>.from
@props C20
@hint into Vec<u8>
@ens
  r.0@ == old(c)@
@fn Vec<u8>.From<Contract>.from
@props C20
@fn Contract.AsMut<[u8]>.as_mut
@props C20
@fn Contract.TryFrom<&Create>.try_from
@props C20
@hint into Contract
@ens
  r is Ok == crate::ccontract::code_of(*tx) is Some, r is Ok ==> r->Ok_0.0@ == crate::ccontract::code_of(*tx)->0
@fn Contract.TryFrom<&Transaction>.try_from
@props C20
@ens
  r is Ok == (*tx is Create && crate::ccontract::code_of(tx->Create_0) is Some), r is Ok ==> r->Ok_0.0@ == crate::ccontract::code_of(tx->Create_0)->0
@fn Contract.root_from_code
@props C20 C10 C12
@ens
  r@ == code_root(bytes.bv())
@loop 0
  invariant s0@ == bytes.bv(), i0 <= s0@.len(), i0 % 8 == 0 || i0 == s0@.len(), tree@ =~= code_leaves(bytes.bv()).take((i0 as int + 7) / 8)
  decreases s0@.len() - i0
@ls 0
let ghost t0 = tree@; let ghost k = t0.len() as int; let ghost lv = code_leaves(bytes.bv());
@le 0
proof {
    reveal(padded);
    assert(lv.take(k + 1) =~= lv.take(k).push(lv[k]));
    assert(tree@ == t0.push(tree@.last()));
    assert(tree@.last() =~= lv[k]);
}
@pre
broadcast use grp;
@fn Contract.root
@props C20
@ens
  r@ == code_root(self.0@)
@fn Contract.id
@props C20 C10
@ens
  r@ == contract_id_of(salt@, root@, state_root@)
@pre
broadcast use {cat_cat, cat_empty};
@fn Contract.initial_state_root
@props C20 C10
@ens
  r@ == slots_root(dvs(storage_slots@))
@loop 0
  invariant s0@ == storage_slots@, i0 <= s0@.len(), tree@ =~= dvs(storage_slots@).map_values(|s: SSlot| (s.key, s.value)).take(i0 as int)
  decreases s0@.len() - i0
@fn Contract.default_state_root
@props C20
@ens
  r@ == slots_root(Seq::empty())
@pre
proof { assert forall|s: Seq<&StorageSlot>| #[trigger] s.len() == 0 implies dvs(s) =~= Seq::<SSlot>::empty() by {} }
@impl Contract.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> { self.0@ }
@fn Contract.AsRef<[u8]>.as_ref
@props C20
