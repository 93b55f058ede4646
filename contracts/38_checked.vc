@# Checked transactions.
@head
pub mod schecked {
use vstd::prelude::*; use crate::vx::*; use crate::transaction::*; use crate::transaction::types::*; use crate::checked_transaction::*;
use crate::transaction::consensus_parameters::ConsensusParameters;
use crate::fuel_types::*;
/// The transaction passes the basic checks.
pub open spec fn accepted(t: STx, h: u64, p: ConsensusParameters) -> bool { valid(t, h, p) && (t.kind != 2 ==> affordable(t, p)) }
/// The metadata of scripts and creates.
pub open spec fn charged(t: STx, b: Map<AssetId, u64>, at: u64, fee: crate::transaction::fee::TransactionFee, h: u64, p: ConsensusParameters) -> bool {
    at == h && Some(fee) == fee_tx(t, p) && reports(b, t, fee)
}
pub open spec fn same_kind(t: STx, m: CheckedMetadata) -> bool { match m { CheckedMetadata::Script(_) => t.kind == 0, CheckedMetadata::Create(_) => t.kind == 1, CheckedMetadata::Mint(_) => t.kind == 2 } }
/// The enumeration form of a checked transaction.
pub open spec fn split(t: Transaction, m: CheckedMetadata, c: Checks) -> CheckedTransaction {
    match (t, m) {
        (Transaction::Script(t), CheckedMetadata::Script(m)) => CheckedTransaction::Script(Checked { transaction: t, metadata: m, checks_bitmask: c }),
        (Transaction::Create(t), CheckedMetadata::Create(m)) => CheckedTransaction::Create(Checked { transaction: t, metadata: m, checks_bitmask: c }),
        (Transaction::Mint(t), CheckedMetadata::Mint(m)) => CheckedTransaction::Mint(Checked { transaction: t, metadata: m, checks_bitmask: c }),
        _ => arbitrary(),
    }
}
pub open spec fn join(c: CheckedTransaction) -> Checked<Transaction> {
    match c {
        CheckedTransaction::Script(c) => Checked { transaction: Transaction::Script(c.transaction), metadata: CheckedMetadata::Script(c.metadata), checks_bitmask: c.checks_bitmask },
        CheckedTransaction::Create(c) => Checked { transaction: Transaction::Create(c.transaction), metadata: CheckedMetadata::Create(c.metadata), checks_bitmask: c.checks_bitmask },
        CheckedTransaction::Mint(c) => Checked { transaction: Transaction::Mint(c.transaction), metadata: CheckedMetadata::Mint(c.metadata), checks_bitmask: c.checks_bitmask },
    }
}
/// Taking a checked transaction apart by its kind and putting it together again changes nothing.
pub proof fn split_join(t: Transaction, m: CheckedMetadata, c: Checks) requires same_kind(t.tv(), m) ensures join(split(t, m, c)) == (Checked { transaction: t, metadata: m, checks_bitmask: c }) {}
}
@split IntoChecked crate::checked_transaction
@outline trait IntoChecked.into_checked
@trait IntoChecked
/// What the metadata of a checked transaction says.
spec fn meta_ok(t: STx, m: Self::Metadata, h: u64, p: ConsensusParameters) -> bool;
@fn trait IntoChecked.into_checked
@props C16
@req
  fits(self.tv()), params.gas_price_factor > 0
@ens
  r is Ok == (accepted(self.tv(), block_height, *params) && all_authentic(self.tv()))
@ens
  r is Ok ==> r->Ok_0.transaction.tv() == self.tv() && ready(&r->Ok_0.transaction) && r->Ok_0.checks_bitmask.bits == 3 && Self::meta_ok(self.tv(), r->Ok_0.metadata, block_height, *params)
@pre
proof { assert(1u32 & 2u32 != 2u32 && 1u32 | 2u32 == 3u32) by (bit_vector); }
@fn trait IntoChecked.into_checked_basic
@props C16
@req
  fits(self.tv()), params.gas_price_factor > 0
@ens
  r is Ok == accepted(self.tv(), block_height, *params)
@ens
  r is Ok ==> r->Ok_0.transaction.tv() == self.tv() && ready(&r->Ok_0.transaction) && r->Ok_0.checks_bitmask.bits == 1 && Self::meta_ok(self.tv(), r->Ok_0.metadata, block_height, *params)
@fn Checked<Tx>.new
@props C16
@ens
  r.transaction == transaction, r.metadata == metadata, r.checks_bitmask == checks_bitmask
@fn Checked<Tx>.basic
@props C16
@ens
  r.transaction == transaction, r.metadata == metadata, r.checks_bitmask.bits == 1
@fn Checked<Tx>.transaction
@props C16
@ens
  *r == self.transaction
@fn Checked<Tx>.metadata
@props C16
@ens
  *r == self.metadata
@fn Checked<Tx>.checks
@props C16
@ens
  *r == self.checks_bitmask
@fn Checked<Tx>.check_signatures
@props C16
@req
  ready(&self.transaction)
@ens
  r is Ok == (self.checks_bitmask.bits & 2 == 2 || all_authentic(self.transaction.tv()))
@ens
  r is Ok ==> r->Ok_0.transaction == self.transaction && r->Ok_0.metadata == self.metadata && r->Ok_0.checks_bitmask.bits == (self.checks_bitmask.bits | 2)
@pre
proof { let b = self.checks_bitmask.bits; assert(b & 2u32 == 2u32 ==> b | 2u32 == b) by (bit_vector); }
@fn (Tx,Tx::Metadata).From<Checked<Tx>>.from
@props C16
@fn Script.IntoChecked.into_checked_basic
@props C16
@pre
broadcast use why_not_affordable;
@fn Create.IntoChecked.into_checked_basic
@props C16
@pre
broadcast use why_not_affordable;
@fn Mint.IntoChecked.into_checked_basic
@props C16
@fn Transaction.IntoChecked.into_checked_basic
@props C16
@fn Checked<Tx>.AsRef<Tx>.as_ref
@props C16
@ens
  *r == self.transaction
@fn Checked<Tx>.AsMut<Tx>.as_mut
@props C16
@ens
  *r == old(self).transaction, final(self).transaction == *final(r), final(self).metadata == old(self).metadata, final(self).checks_bitmask == old(self).checks_bitmask
@fn Checked<Tx>.Borrow<Tx>.borrow
@props C16
@ens
  *r == self.transaction
@inherent Checked<Tx>.AsRef<Tx> vx_ref
@inherent Checked<Tx>.AsMut<Tx> vx_mut
@inherent Checked<Tx>.Borrow<Tx> vx_borrow
@fn CheckedTransaction.From<Checked<Transaction>>.from
@props C16
@req
  same_kind(checked.transaction.tv(), checked.metadata)
@ens
  r == split(checked.transaction, checked.metadata, checked.checks_bitmask)
@inherent CheckedTransaction.From<Checked<Transaction>> vx_from
@fn CheckedTransaction.From<Checked<Script>>.from
@props C16
@fn CheckedTransaction.From<Checked<Create>>.from
@props C16
@fn CheckedTransaction.From<Checked<Mint>>.from
@props C16
@fn Checked<Transaction>.From<CheckedTransaction>.from
@props C16
@impl Script.IntoChecked
open spec fn meta_ok(t: STx, m: CheckedMetadata, h: u64, p: ConsensusParameters) -> bool { charged(t, m.initial_free_balances@, m.block_height, m.fee, h, p) }
@impl Create.IntoChecked
open spec fn meta_ok(t: STx, m: CheckedMetadata, h: u64, p: ConsensusParameters) -> bool { charged(t, m.initial_free_balances@, m.block_height, m.fee, h, p) }
@impl Mint.IntoChecked
open spec fn meta_ok(t: STx, m: (), h: u64, p: ConsensusParameters) -> bool { true }
@module checked_transaction
impl<Tx: IntoCheckedTy> FromSpecImpl<Checked<Tx>> for (Tx, Tx::Metadata) { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: Checked<Tx>) -> Self { (c.transaction, c.metadata) } }
impl FromSpecImpl<Checked<Script>> for CheckedTransaction { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: Checked<Script>) -> Self { CheckedTransaction::Script(c) } }
impl FromSpecImpl<Checked<Create>> for CheckedTransaction { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: Checked<Create>) -> Self { CheckedTransaction::Create(c) } }
impl FromSpecImpl<Checked<Mint>> for CheckedTransaction { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: Checked<Mint>) -> Self { CheckedTransaction::Mint(c) } }
impl FromSpecImpl<CheckedTransaction> for Checked<Transaction> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(c: CheckedTransaction) -> Self { join(c) } }
impl FromSpecImpl<<Script as IntoCheckedTy>::Metadata> for CheckedMetadata { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(m: <Script as IntoCheckedTy>::Metadata) -> Self { CheckedMetadata::Script(m) } }
impl FromSpecImpl<<Create as IntoCheckedTy>::Metadata> for CheckedMetadata { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(m: <Create as IntoCheckedTy>::Metadata) -> Self { CheckedMetadata::Create(m) } }
impl FromSpecImpl<<Mint as IntoCheckedTy>::Metadata> for CheckedMetadata { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(m: <Mint as IntoCheckedTy>::Metadata) -> Self { CheckedMetadata::Mint(m) } }
@fn CheckedMetadata.From<<ScriptasIntoChecked>::Metadata>.from
@props C16
@fn CheckedMetadata.From<<CreateasIntoChecked>::Metadata>.from
@props C16
@fn CheckedMetadata.From<<MintasIntoChecked>::Metadata>.from
@props C16
@impl Transaction.IntoChecked
open spec fn meta_ok(t: STx, m: CheckedMetadata, h: u64, p: ConsensusParameters) -> bool {
    same_kind(t, m) && match m { CheckedMetadata::Script(m) => charged(t, m.initial_free_balances@, m.block_height, m.fee, h, p), CheckedMetadata::Create(m) => charged(t, m.initial_free_balances@, m.block_height, m.fee, h, p), _ => true }
}
