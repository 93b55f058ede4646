@# The builder.
@head
pub mod sbuild {
use vstd::prelude::*; use crate::vx::*; use crate::transaction::*; use crate::transaction::types::*; use crate::fuel_crypto::*; use crate::ssign::*;
#[verifier::external]
impl std::fmt::Debug for CheckError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { unimplemented!() } }
/// Signed with the keys in turn.
pub open spec fn signed_all(t: STx, ks: Seq<SecretKey>) -> STx decreases ks.len() { if ks.len() == 0 { t } else { signed(signed_all(t, ks.drop_last()), ks.last()) } }
pub proof fn signed_all_step(t: STx, ks: Seq<SecretKey>, k: int) requires 0 <= k < ks.len() ensures signed_all(t, ks.take(k + 1)) == signed(signed_all(t, ks.take(k)), ks[k]) { assert(ks.take(k + 1).drop_last() =~= ks.take(k)); }
pub proof fn signed_keeps(t: STx, ks: Seq<SecretKey>)
    ensures txid(signed_all(t, ks)) == txid(t), signed_all(t, ks).inputs == t.inputs, signed_all(t, ks).witnesses.len() == t.witnesses.len(), signed_all(t, ks) == (STx { witnesses: signed_all(t, ks).witnesses, ..t })
    decreases ks.len()
{ if ks.len() > 0 { signed_keeps(t, ks.drop_last()); sign_ok(signed_all(t, ks.drop_last()), ks.last()); } }
/// One of the keys belongs to the owner.
pub open spec fn key_held(ks: Seq<SecretKey>, owner: Seq<u8>) -> bool { exists|a: int| 0 <= a < ks.len() && pk_hash(pk_of(#[trigger] ks[a])) == owner }
/// No other owner with a key has an input of that witness.
pub open spec fn own_slot(t: STx, ks: Seq<SecretKey>, owner: Seq<u8>, w: int) -> bool {
    forall|a: int| 0 <= a < ks.len() && pk_hash(pk_of(#[trigger] ks[a])) != owner ==> !refers(t.inputs, pk_hash(pk_of(ks[a])), w)
}
/// An input whose owner's key is among those signed with passes, if its witness is its owner's alone.
pub proof fn signed_all_ok(t: STx, ks: Seq<SecretKey>, i: int, owner: Seq<u8>)
    requires 0 <= i < t.inputs.len(), slot_of(t.inputs[i], owner) is Some, slot_of(t.inputs[i], owner)->0 < t.witnesses.len(), key_held(ks, owner), own_slot(t, ks, owner, slot_of(t.inputs[i], owner)->0 as int)
    ensures authentic(t.inputs[i], signed_all(t, ks).witnesses, txid(t))
    decreases ks.len()
{
    let d = ks.drop_last(); let k = ks.last(); let w = slot_of(t.inputs[i], owner)->0 as int; let u = signed_all(t, d);
    signed_keeps(t, d);
    if pk_hash(pk_of(k)) == owner {
        sign_ok(u, k);
        assert(u.inputs[i] == t.inputs[i]);
    } else {
        let a = choose|a: int| 0 <= a < ks.len() && pk_hash(pk_of(#[trigger] ks[a])) == owner;
        assert(d[a] == ks[a]); assert(key_held(d, owner));
        assert(own_slot(t, d, owner, w)) by { assert forall|a: int| 0 <= a < d.len() && pk_hash(pk_of(#[trigger] d[a])) != owner implies !refers(t.inputs, pk_hash(pk_of(d[a])), w) by { assert(d[a] == ks[a]); } }
        signed_all_ok(t, d, i, owner);
        assert(ks[ks.len() - 1] == k);
        assert(!refers(u.inputs, pk_hash(pk_of(k)), w));
        assert(signed(u, k).witnesses[w] == u.witnesses[w]);
    }
}
/// As prepared by request.
pub open spec fn prepared<Tx: TxV>(b: crate::builder::TransactionBuilder<Tx>) -> STx {
    let t = if b.should_prepare_predicate { prep_pred(b.tx.tv()) } else { b.tx.tv() };
    if b.should_prepare_script { prep_script(t) } else { t }
}
/// The transaction fits in memory, however many of the keys have signed it.
pub open spec fn signable(t: STx, ks: Seq<SecretKey>) -> bool { forall|k: int| 0 <= k <= ks.len() ==> fits(signed_all(t, #[trigger] ks.take(k))) }
/// All but the transaction is the same.
pub open spec fn rest_same<Tx>(a: crate::builder::TransactionBuilder<Tx>, b: crate::builder::TransactionBuilder<Tx>) -> bool { a.should_prepare_script == b.should_prepare_script && a.should_prepare_predicate == b.should_prepare_predicate && a.sign_keys@ == b.sign_keys@ }
pub open spec fn tx_is<Tx: TxV>(a: crate::builder::TransactionBuilder<Tx>, t: STx, m: Tx::M) -> bool { a.tx.tv() == t && a.tx.mv() == m }
}
@keep T.Buildable
@fn trait Buildable.add_input
@props C22
@ens
  final(self).tv() == (STx { inputs: old(self).tv().inputs.push(input.dv()), ..old(self).tv() }), final(self).mv() == old(self).mv()
@pre
broadcast use dvs_push;
@fn trait Buildable.add_witness
@props C22
@ens
  final(self).tv() == (STx { witnesses: old(self).tv().witnesses.push(witness.dv()), ..old(self).tv() }), final(self).mv() == old(self).mv()
@pre
broadcast use dvs_push;
@fn trait Buildable.set_gas_price
@props C22
@ens
  final(self).tv() == (STx { gas_price: price, ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait Buildable.set_gas_limit
@props C22
@ens
  final(self).tv() == (STx { gas_limit: limit, ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait Buildable.set_maturity
@props C22
@ens
  final(self).tv() == (STx { maturity, ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn TransactionBuilder<Tx>.with_tx
@props C22
@ens
  r.tx == tx, !r.should_prepare_script, !r.should_prepare_predicate, r.sign_keys@.len() == 0
@fn TransactionBuilder<Script>.script
@props C22
@ens
  r.tx.tv() == script_tx(0, 0, 0, script@, script_data@, zeros(32), Seq::empty(), Seq::empty(), Seq::empty()), r.tx.metadata is None, r.should_prepare_script, !r.should_prepare_predicate, r.sign_keys@.len() == 0
@fn TransactionBuilder<Create>.create
@props C22
@ens
  r.tx.tv() == create_tx(0, 0, 0, (bytecode.dv().data.len() / 4) as u64, 0, dvs(storage_slots@), salt@, Seq::empty(), Seq::empty(), seq![bytecode.dv()]), r.tx.metadata is None, !r.should_prepare_script, !r.should_prepare_predicate, r.sign_keys@.len() == 0
@pre
broadcast use dvs_push;
let ghost w = bytecode.dv();
proof { assert(dvs(Seq::<Witness>::empty()) =~= Seq::empty()); assert(Seq::empty().push(w) =~= seq![w]); assert(dvs(Seq::<Witness>::empty()).push(w) =~= seq![w]); }
@fn TransactionBuilder<Mint>.mint
@props C22
@ens
  r.tx.tv() == mint_tx(TxPointer { block_height, tx_index }, Seq::empty()), r.tx.metadata is None, r.sign_keys@.len() == 0
@fn TransactionBuilder<Tx>.prepare_script
@props C22
@ens
  (TransactionBuilder { should_prepare_script, ..*old(self) }) == *r, *final(self) == *final(r)
@fn TransactionBuilder<Tx>.prepare_predicate
@props C22
@ens
  (TransactionBuilder { should_prepare_predicate, ..*old(self) }) == *r, *final(self) == *final(r)
@fn TransactionBuilder<Tx>.sign_keys
@props C22
@ens
  r@ == self.sign_keys@
@fn TransactionBuilder<Tx>.gas_price
@props C22
@ens
  tx_is(*r, STx { gas_price, ..old(self).tx.tv() }, old(self).tx.mv()), rest_same(*r, *old(self)), *final(self) == *final(r)
@fn TransactionBuilder<Tx>.gas_limit
@props C22
@ens
  tx_is(*r, STx { gas_limit, ..old(self).tx.tv() }, old(self).tx.mv()), rest_same(*r, *old(self)), *final(self) == *final(r)
@fn TransactionBuilder<Tx>.maturity
@props C22
@ens
  tx_is(*r, STx { maturity, ..old(self).tx.tv() }, old(self).tx.mv()), rest_same(*r, *old(self)), *final(self) == *final(r)
@fn TransactionBuilder<Tx>.add_input
@props C22
@ens
  tx_is(*r, STx { inputs: old(self).tx.tv().inputs.push(input.dv()), ..old(self).tx.tv() }, old(self).tx.mv()), rest_same(*r, *old(self)), *final(self) == *final(r)
@fn TransactionBuilder<Tx>.add_witness
@props C22
@ens
  tx_is(*r, STx { witnesses: old(self).tx.tv().witnesses.push(witness.dv()), ..old(self).tx.tv() }, old(self).tx.mv()), rest_same(*r, *old(self)), *final(self) == *final(r)
@fn TransactionBuilder<Tx>.add_output
@props C22
@ens
  tx_is(*r, STx { outputs: old(self).tx.tv().outputs.push(output.dv()), ..old(self).tx.tv() }, old(self).tx.mv()), rest_same(*r, *old(self)), *final(self) == *final(r)
@pre
broadcast use dvs_push;
@fn TransactionBuilder<Tx>.add_unsigned_coin_input
@props C22
@ens
  old(self).tx.tv().witnesses.len() <= 255 ==> tx_is(*r, STx { inputs: old(self).tx.tv().inputs.push(SInput::CoinSigned { utxo_id: utxo_id.dv(), owner: pk_hash(pk_of(secret)), amount, asset_id: asset_id@, tx_pointer, witness_index: old(self).tx.tv().witnesses.len() as u8, maturity }), witnesses: old(self).tx.tv().witnesses.push(SWit { data: Seq::empty() }), ..old(self).tx.tv() }, old(self).tx.mv()), r.sign_keys@ == old(self).sign_keys@.push(secret), r.should_prepare_script == old(self).should_prepare_script, r.should_prepare_predicate == old(self).should_prepare_predicate, *final(self) == *final(r)
@fn TransactionBuilder<Tx>.add_unsigned_message_input
@props C22
@ens
  old(self).tx.tv().witnesses.len() <= 255 ==> tx_is(*r, STx { inputs: old(self).tx.tv().inputs.push(SInput::MessageSigned { message_id: sha256(sender@ + (pk_hash(pk_of(secret)) + (be8(nonce) + (be8(amount) + data@)))), sender: sender@, recipient: pk_hash(pk_of(secret)), amount, nonce, witness_index: old(self).tx.tv().witnesses.len() as u8, data: data@ }), witnesses: old(self).tx.tv().witnesses.push(SWit { data: Seq::empty() }), ..old(self).tx.tv() }, old(self).tx.mv()), r.sign_keys@ == old(self).sign_keys@.push(secret), r.should_prepare_script == old(self).should_prepare_script, r.should_prepare_predicate == old(self).should_prepare_predicate, *final(self) == *final(r)
@fn TransactionBuilder<Tx>.inputs
@props C22
@ens
  dvs(r@) == self.tx.tv().inputs
@fn TransactionBuilder<Tx>.outputs
@props C22
@ens
  dvs(r@) == self.tx.tv().outputs
@fn TransactionBuilder<Tx>.witnesses
@props C22
@ens
  dvs(r@) == self.tx.tv().witnesses
@fn TransactionBuilder<Tx>.prepare_finalize
@props C22
@ens
  tx_is(*final(self), prepared(*old(self)), old(self).tx.mv()), final(self).sign_keys@ == old(self).sign_keys@
@fn TransactionBuilder<Tx>._finalize
@props C22
@req
  signable(prepared(*old(self)), old(self).sign_keys@), Tx::m_none(old(self).tx.mv())
@ens
  r.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), ready(&r), !Tx::m_none(r.mv())
@pre
let ghost t = prepared(*self); let ghost ks = self.sign_keys@; let ghost m = self.tx.mv();
proof { assert(ks.take(0) =~= Seq::empty()); assert(fits(signed_all(t, ks.take(0)))); }
@loop 0
invariant
    0 <= i0 <= s0@.len(), s0@ == ks, signable(t, ks), tx.tv() == signed_all(t, ks.take(i0 as int)), tx.mv() == m, Tx::m_none(m),
decreases s0@.len() - i0
@lb 0
proof { Tx::m_law(tx.tv(), tx.mv()); }
@ls 0
proof { signed_all_step(t, ks, i0 - 1); Tx::m_law(signed_all(t, ks.take(i0 - 1)), m); assert(fits(signed_all(t, ks.take(i0 - 1)))); }
@la 0
proof { assert(ks.take(ks.len() as int) =~= ks); assert(fits(signed_all(t, ks.take(ks.len() as int)))); }
@fn TransactionBuilder<Tx>._finalize_without_signature
@props C22
@req
  fits(prepared(*old(self)))
@ens
  r.tv() == prepared(*old(self)), ready(&r), !Tx::m_none(r.mv())
@fn TransactionBuilder<Script>.finalize
@props C22
@req
  signable(prepared(*old(self)), old(self).sign_keys@), old(self).tx.metadata is None
@ens
  r.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), ready(&r), r.metadata is Some
@fn TransactionBuilder<Script>.finalize_as_transaction
@props C22
@req
  signable(prepared(*old(self)), old(self).sign_keys@), old(self).tx.metadata is None
@ens
  r.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), ready(&r)
@fn TransactionBuilder<Script>.finalize_without_signature
@props C22
@req
  fits(prepared(*old(self))), old(self).tx.metadata is None
@ens
  r.tv() == prepared(*old(self)), ready(&r), r.metadata is Some
@fn TransactionBuilder<Script>.finalize_without_signature_as_transaction
@props C22
@req
  fits(prepared(*old(self))), old(self).tx.metadata is None
@ens
  r.tv() == prepared(*old(self)), ready(&r)
@fn TransactionBuilder<Create>.finalize
@props C22
@req
  signable(prepared(*old(self)), old(self).sign_keys@), old(self).tx.metadata is None
@ens
  r.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), ready(&r), r.metadata is Some
@fn TransactionBuilder<Create>.finalize_as_transaction
@props C22
@req
  signable(prepared(*old(self)), old(self).sign_keys@), old(self).tx.metadata is None
@ens
  r.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), ready(&r)
@fn TransactionBuilder<Create>.finalize_without_signature
@props C22
@req
  fits(prepared(*old(self))), old(self).tx.metadata is None
@ens
  r.tv() == prepared(*old(self)), ready(&r), r.metadata is Some
@fn TransactionBuilder<Create>.finalize_without_signature_as_transaction
@props C22
@req
  fits(prepared(*old(self))), old(self).tx.metadata is None
@ens
  r.tv() == prepared(*old(self)), ready(&r)
@fn TransactionBuilder<Mint>.finalize
@props C22
@req
  fits(old(self).tx.tv()), old(self).tx.metadata is None
@ens
  r.tv() == old(self).tx.tv(), ready(&r), r.metadata is Some
@fn TransactionBuilder<Mint>.finalize_as_transaction
@props C22
@req
  fits(old(self).tx.tv()), old(self).tx.metadata is None
@ens
  r.tv() == old(self).tx.tv(), ready(&r)
@fn TransactionBuilder<Mint>.finalize_without_signature
@props C22
@req
  fits(old(self).tx.tv()), old(self).tx.metadata is None
@ens
  r.tv() == old(self).tx.tv(), ready(&r), r.metadata is Some
@fn TransactionBuilder<Mint>.finalize_without_signature_as_transaction
@props C22
@req
  fits(old(self).tx.tv()), old(self).tx.metadata is None
@ens
  r.tv() == old(self).tx.tv(), ready(&r)
@fn TransactionBuilder<Script>.finalize_checked
@props C22 C16
@req
  signable(prepared(*old(self)), old(self).sign_keys@), old(self).tx.metadata is None, params.gas_price_factor > 0, accepted(signed_all(prepared(*old(self)), old(self).sign_keys@), height, *params) && all_authentic(signed_all(prepared(*old(self)), old(self).sign_keys@))
@ens
  r.transaction.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), r.checks_bitmask.bits == 3, Script::meta_ok(signed_all(prepared(*old(self)), old(self).sign_keys@), r.metadata, height, *params)
@fn TransactionBuilder<Script>.finalize_checked_basic
@props C22 C16
@req
  signable(prepared(*old(self)), old(self).sign_keys@), old(self).tx.metadata is None, params.gas_price_factor > 0, accepted(signed_all(prepared(*old(self)), old(self).sign_keys@), height, *params)
@ens
  r.transaction.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), r.checks_bitmask.bits == 1, Script::meta_ok(signed_all(prepared(*old(self)), old(self).sign_keys@), r.metadata, height, *params)
@fn TransactionBuilder<Create>.finalize_checked
@props C22 C16
@req
  signable(prepared(*old(self)), old(self).sign_keys@), old(self).tx.metadata is None, params.gas_price_factor > 0, accepted(signed_all(prepared(*old(self)), old(self).sign_keys@), height, *params) && all_authentic(signed_all(prepared(*old(self)), old(self).sign_keys@))
@ens
  r.transaction.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), r.checks_bitmask.bits == 3, Create::meta_ok(signed_all(prepared(*old(self)), old(self).sign_keys@), r.metadata, height, *params)
@fn TransactionBuilder<Create>.finalize_checked_basic
@props C22 C16
@req
  signable(prepared(*old(self)), old(self).sign_keys@), old(self).tx.metadata is None, params.gas_price_factor > 0, accepted(signed_all(prepared(*old(self)), old(self).sign_keys@), height, *params)
@ens
  r.transaction.tv() == signed_all(prepared(*old(self)), old(self).sign_keys@), r.checks_bitmask.bits == 1, Create::meta_ok(signed_all(prepared(*old(self)), old(self).sign_keys@), r.metadata, height, *params)
@fn TransactionBuilder<Mint>.finalize_checked
@props C22 C16
@req
  fits(old(self).tx.tv()), old(self).tx.metadata is None, params.gas_price_factor > 0, accepted(old(self).tx.tv(), height, *params) && all_authentic(old(self).tx.tv())
@ens
  r.transaction.tv() == old(self).tx.tv(), r.checks_bitmask.bits == 3, Mint::meta_ok(old(self).tx.tv(), r.metadata, height, *params)
@fn TransactionBuilder<Mint>.finalize_checked_basic
@props C22 C16
@req
  fits(old(self).tx.tv()), old(self).tx.metadata is None, params.gas_price_factor > 0, accepted(old(self).tx.tv(), height, *params)
@ens
  r.transaction.tv() == old(self).tx.tv(), r.checks_bitmask.bits == 1, Mint::meta_ok(old(self).tx.tv(), r.metadata, height, *params)
