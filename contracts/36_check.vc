@# What makes a transaction valid.
@head
pub mod vcontains {
use vstd::prelude::*; use vstd::std_specs::cmp::*;
pub assume_specification<T: core::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
}
@head
pub mod scheck {
use vstd::prelude::*; use crate::vx::*;
use crate::transaction::types::*; use crate::fuel_types::*;
use crate::transaction::consensus_parameters::ConsensusParameters;
use crate::transaction::checkable::error::CheckError;
use crate::fuel_crypto::{recover_spec, pk_hash};
pub open spec fn iutxo(i: SInput) -> Option<SUtxo> { match i { SInput::CoinSigned { utxo_id, .. } => Some(utxo_id), SInput::CoinPredicate { utxo_id, .. } => Some(utxo_id), _ => None } }
pub open spec fn imsg(i: SInput) -> Option<Seq<u8>> { match i { SInput::MessageSigned { message_id, .. } => Some(message_id), SInput::MessagePredicate { message_id, .. } => Some(message_id), _ => None } }
pub open spec fn ochange(o: SOutput) -> Option<Seq<u8>> { match o { SOutput::Change { asset_id, .. } => Some(asset_id), _ => None } }
pub open spec fn ocoin(o: SOutput) -> Option<Seq<u8>> { match o { SOutput::Coin { asset_id, .. } => Some(asset_id), _ => None } }
pub open spec fn f_utxo() -> spec_fn(SInput) -> Option<SUtxo> { |i: SInput| iutxo(i) }
pub open spec fn f_msg() -> spec_fn(SInput) -> Option<Seq<u8>> { |i: SInput| imsg(i) }
pub open spec fn in_utxos(s: Seq<SInput>) -> Seq<SUtxo> { fm(s, f_utxo()) }
pub open spec fn in_msgs(s: Seq<SInput>) -> Seq<Seq<u8>> { fm(s, f_msg()) }
/// How many change outputs of the asset, how many outputs of the contract at the index.
pub open spec fn nchange(s: Seq<SOutput>, a: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nchange(s.drop_last(), a) + if ochange(s.last()) == Some(a) { 1int } else { 0 } } }
pub open spec fn orefs(o: SOutput, ix: int) -> bool { match o { SOutput::Contract { input_index, .. } => input_index == ix, _ => false } }
pub open spec fn nrefs(s: Seq<SOutput>, ix: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { nrefs(s.drop_last(), ix) + if orefs(s.last(), ix) { 1int } else { 0 } } }
pub proof fn nchange_step(s: Seq<SOutput>, a: Seq<u8>, k: int) requires 0 <= k < s.len() ensures nchange(s.take(k + 1), a) == nchange(s.take(k), a) + if ochange(s[k]) == Some(a) { 1int } else { 0 }, nchange(s.take(k), a) >= 0
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); nchange_pos(s.take(k), a); }
pub proof fn nchange_pos(s: Seq<SOutput>, a: Seq<u8>) ensures 0 <= nchange(s, a) <= s.len() decreases s.len() { if s.len() > 0 { nchange_pos(s.drop_last(), a); } }
pub proof fn nrefs_step(s: Seq<SOutput>, ix: int, k: int) requires 0 <= k < s.len() ensures nrefs(s.take(k + 1), ix) == nrefs(s.take(k), ix) + if orefs(s[k], ix) { 1int } else { 0 }
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
/// Two change outputs of the asset.
pub open spec fn doubled(s: Seq<SOutput>, a: Seq<u8>) -> bool { exists|i: int, j: int| #[trigger] twice(s, i, j, a) }
/// A change output of the asset at both positions.
pub open spec fn twice(s: Seq<SOutput>, i: int, j: int, a: Seq<u8>) -> bool { 0 <= i < j < s.len() && ochange(s[i]) == Some(a) && ochange(s[j]) == Some(a) }
pub proof fn nchange_is(s: Seq<SOutput>, a: Seq<u8>)
    ensures nchange(s, a) >= 1 <==> exists|i: int| 0 <= i < s.len() && ochange(#[trigger] s[i]) == Some(a), nchange(s, a) > 1 <==> exists|i: int, j: int| #[trigger] twice(s, i, j, a)
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        nchange_is(p, a); nchange_pos(p, a);
        let n = s.len() - 1;
        assert(ochange(s.last()) == ochange(s[n]));
        if nchange(p, a) >= 1 { let i = choose|i: int| 0 <= i < p.len() && ochange(#[trigger] p[i]) == Some(a); assert(ochange(s[i]) == Some(a)); if ochange(s[n]) == Some(a) { assert(twice(s, i, n, a)); } }
        if nchange(p, a) > 1 { let (i, j) = choose|i: int, j: int| #[trigger] twice(p, i, j, a); assert(twice(s, i, j, a)); }
        assert forall|i: int| 0 <= i < s.len() && ochange(#[trigger] s[i]) == Some(a) implies nchange(s, a) >= 1 by { if i < n { assert(ochange(p[i]) == Some(a)); } }
        assert forall|i: int, j: int| #[trigger] twice(s, i, j, a) implies nchange(s, a) > 1 by { assert(ochange(p[i]) == Some(a)); if j < n { assert(twice(p, i, j, a)); } }
    }
}
// ---- the rules
pub open spec fn pred_ok(p: ConsensusParameters, code: Seq<u8>, data: Seq<u8>) -> bool { 0 < code.len() <= p.max_predicate_length && data.len() <= p.max_predicate_data_length }
/// Limits on one input.
pub open spec fn lim_in(i: SInput, nw: int, p: ConsensusParameters) -> bool {
    match i {
        SInput::CoinSigned { witness_index, .. } => witness_index < nw,
        SInput::CoinPredicate { predicate, predicate_data, .. } => pred_ok(p, predicate, predicate_data),
        SInput::Contract { .. } => true,
        SInput::MessageSigned { witness_index, data, .. } => witness_index < nw && data.len() <= p.max_message_data_length,
        SInput::MessagePredicate { predicate, predicate_data, data, .. } => pred_ok(p, predicate, predicate_data) && data.len() <= p.max_message_data_length,
    }
}
pub open spec fn limits(t: STx, h: u64, p: ConsensusParameters) -> bool {
    &&& t.gas_limit <= p.max_gas_per_tx && t.maturity <= h
    &&& t.inputs.len() <= p.max_inputs && t.outputs.len() <= p.max_outputs && t.witnesses.len() <= p.max_witnesses
    &&& forall|i: int| 0 <= i < t.inputs.len() ==> lim_in(#[trigger] t.inputs[i], t.witnesses.len() as int, p)
}
/// Nothing is spent twice, changed twice, or comes from nowhere.
pub open spec fn unrepeated(t: STx) -> bool {
    &&& in_utxos(t.inputs).no_duplicates() && in_contracts(t.inputs).no_duplicates() && in_msgs(t.inputs).no_duplicates()
    &&& forall|i: int, j: int, a: Seq<u8>| !#[trigger] twice(t.outputs, i, j, a)
}
pub open spec fn covered_out(o: SOutput, assets: Seq<Seq<u8>>) -> bool { (ochange(o) is Some ==> assets.contains(ochange(o)->0)) && (ocoin(o) is Some ==> assets.contains(ocoin(o)->0)) }
pub open spec fn covered(t: STx) -> bool { forall|i: int| 0 <= i < t.outputs.len() ==> covered_out(#[trigger] t.outputs[i], in_assets(t.inputs)) }
/// Contract inputs and contract outputs are paired.
pub open spec fn paired_in(i: SInput, ix: int, outs: Seq<SOutput>) -> bool { i is Contract ==> nrefs(outs, ix) == 1 }
pub open spec fn paired_out(o: SOutput, ins: Seq<SInput>) -> bool { match o { SOutput::Contract { input_index, .. } => input_index < ins.len() && ins[input_index as int] is Contract, _ => true } }
pub open spec fn paired(t: STx) -> bool {
    &&& forall|i: int| 0 <= i < t.inputs.len() ==> paired_in(#[trigger] t.inputs[i], i, t.outputs)
    &&& forall|i: int| 0 <= i < t.outputs.len() ==> paired_out(#[trigger] t.outputs[i], t.inputs)
}
pub open spec fn vcommon(t: STx, h: u64, p: ConsensusParameters) -> bool { limits(t, h, p) && unrepeated(t) && covered(t) && paired(t) }
pub open spec fn scripted(t: STx, p: ConsensusParameters) -> bool {
    &&& t.script.len() <= p.max_script_length && t.data.len() <= p.max_script_data_length
    &&& forall|i: int| 0 <= i < t.outputs.len() ==> !(#[trigger] t.outputs[i] is ContractCreated)
}
pub open spec fn le_slot(a: SSlot, b: SSlot) -> bool { !(lex(a.key, b.key) is Greater) }
pub open spec fn sorted(s: Seq<SSlot>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> le_slot(#[trigger] s[i], s[i + 1]) }
/// What a create transaction may have as an output, given those before it.
pub open spec fn create_out(s: Seq<SOutput>, i: int) -> bool {
    match s[i] {
        SOutput::Contract { .. } => false,
        SOutput::Variable { .. } => false,
        SOutput::Change { asset_id, .. } => asset_id == zeros(32),
        SOutput::ContractCreated { .. } => forall|j: int| 0 <= j < i ==> !(#[trigger] s[j] is ContractCreated),
        _ => true,
    }
}
pub open spec fn bytecode_len_ok(t: STx, p: ConsensusParameters) -> bool { t.witnesses[t.bwi as int].data.len() <= p.contract_max_size && t.witnesses[t.bwi as int].data.len() / 4 == t.blen }
pub open spec fn deployable(t: STx, p: ConsensusParameters) -> bool {
    &&& t.bwi < t.witnesses.len() && bytecode_len_ok(t, p)
    &&& t.slots.len() <= p.max_storage_slots && sorted(t.slots)
    &&& forall|i: int| 0 <= i < t.inputs.len() ==> !(#[trigger] t.inputs[i] is Contract)
    &&& forall|i: int| 0 <= i < t.outputs.len() ==> #[trigger] create_out(t.outputs, i)
}
pub open spec fn same_coin(s: Seq<SOutput>, i: int, j: int) -> bool { ocoin(s[i]) == ocoin(s[j]) }
pub open spec fn minted(t: STx, h: u64, p: ConsensusParameters) -> bool {
    &&& t.outputs.len() <= p.max_outputs && t.txp.block_height as u64 == h
    &&& forall|i: int| 0 <= i < t.outputs.len() ==> #[trigger] t.outputs[i] is Coin
    &&& forall|i: int, j: int| 0 <= i < j < t.outputs.len() ==> !#[trigger] same_coin(t.outputs, i, j)
}
pub open spec fn valid(t: STx, h: u64, p: ConsensusParameters) -> bool {
    if t.kind == 2 { minted(t, h, p) } else { vcommon(t, h, p) && if t.kind == 0 { scripted(t, p) } else { deployable(t, p) } }
}
// ---- the reasons
pub open spec fn why_in(i: SInput, ix: int, outs: Seq<SOutput>, nw: int, p: ConsensusParameters, e: CheckError) -> bool {
    match e {
        CheckError::InputPredicateEmpty { index } => index == ix && match i { SInput::CoinPredicate { predicate, .. } => predicate.len() == 0, SInput::MessagePredicate { predicate, .. } => predicate.len() == 0, _ => false },
        CheckError::InputPredicateLength { index } => index == ix && match i { SInput::CoinPredicate { predicate, .. } => predicate.len() > p.max_predicate_length, SInput::MessagePredicate { predicate, .. } => predicate.len() > p.max_predicate_length, _ => false },
        CheckError::InputPredicateDataLength { index } => index == ix && match i { SInput::CoinPredicate { predicate_data, .. } => predicate_data.len() > p.max_predicate_data_length, SInput::MessagePredicate { predicate_data, .. } => predicate_data.len() > p.max_predicate_data_length, _ => false },
        CheckError::InputWitnessIndexBounds { index } => index == ix && match i { SInput::CoinSigned { witness_index, .. } => witness_index >= nw, SInput::MessageSigned { witness_index, .. } => witness_index >= nw, _ => false },
        CheckError::InputMessageDataLength { index } => index == ix && match i { SInput::MessageSigned { data, .. } => data.len() > p.max_message_data_length, SInput::MessagePredicate { data, .. } => data.len() > p.max_message_data_length, _ => false },
        CheckError::InputContractAssociatedOutputContract { index } => index == ix && !paired_in(i, ix, outs),
        _ => false,
    }
}
/// The input, or the output, an error points to.
pub open spec fn at_in(e: CheckError) -> Option<int> {
    match e {
        CheckError::InputPredicateEmpty { index } => Some(index as int), CheckError::InputPredicateLength { index } => Some(index as int), CheckError::InputPredicateDataLength { index } => Some(index as int),
        CheckError::InputWitnessIndexBounds { index } => Some(index as int), CheckError::InputMessageDataLength { index } => Some(index as int), CheckError::InputContractAssociatedOutputContract { index } => Some(index as int),
        CheckError::InputInvalidSignature { index } => Some(index as int), CheckError::InputPredicateOwner { index } => Some(index as int), CheckError::TransactionCreateInputContract { index } => Some(index as int),
        _ => None,
    }
}
/// The error is one of the limits', and a limit is exceeded; and so for the other groups of rules.
pub open spec fn why_limits(t: STx, h: u64, p: ConsensusParameters, e: CheckError) -> bool {
    match e {
        CheckError::TransactionGasLimit => t.gas_limit > p.max_gas_per_tx,
        CheckError::TransactionMaturity => t.maturity > h,
        CheckError::TransactionInputsMax => t.inputs.len() > p.max_inputs,
        CheckError::TransactionOutputsMax => t.outputs.len() > p.max_outputs,
        CheckError::TransactionWitnessesMax => t.witnesses.len() > p.max_witnesses,
        CheckError::InputContractAssociatedOutputContract { .. } => false,
        _ => at_in(e) is Some && 0 <= at_in(e)->0 < t.inputs.len() && why_in(t.inputs[at_in(e)->0], at_in(e)->0, t.outputs, t.witnesses.len() as int, p, e),
    }
}
pub open spec fn why_repeated(t: STx, e: CheckError) -> bool {
    match e {
        CheckError::DuplicateInputUtxoId { utxo_id } => !in_utxos(t.inputs).no_duplicates() && in_utxos(t.inputs).contains(utxo_id.dv()),
        CheckError::DuplicateInputContractId { contract_id } => !in_contracts(t.inputs).no_duplicates() && in_contracts(t.inputs).contains(contract_id@),
        CheckError::DuplicateMessageInputId { message_id } => !in_msgs(t.inputs).no_duplicates() && in_msgs(t.inputs).contains(message_id@),
        CheckError::TransactionOutputChangeAssetIdDuplicated(a) => doubled(t.outputs, a@),
        CheckError::TransactionOutputChangeAssetIdNotFound(a) => !in_assets(t.inputs).contains(a@) && exists|i: int| 0 <= i < t.outputs.len() && ochange(#[trigger] t.outputs[i]) == Some(a@),
        CheckError::TransactionOutputCoinAssetIdNotFound(a) => !in_assets(t.inputs).contains(a@) && exists|i: int| 0 <= i < t.outputs.len() && ocoin(#[trigger] t.outputs[i]) == Some(a@),
        _ => false,
    }
}
pub open spec fn why_unpaired(t: STx, e: CheckError) -> bool {
    match e {
        CheckError::InputContractAssociatedOutputContract { index } => index < t.inputs.len() && !paired_in(t.inputs[index as int], index as int, t.outputs),
        CheckError::OutputContractInputIndex { index } => index < t.outputs.len() && !paired_out(t.outputs[index as int], t.inputs),
        _ => false,
    }
}
pub open spec fn why_common(t: STx, h: u64, p: ConsensusParameters, e: CheckError) -> bool { why_limits(t, h, p, e) || why_repeated(t, e) || why_unpaired(t, e) }
pub open spec fn why_script(t: STx, p: ConsensusParameters, e: CheckError) -> bool {
    match e {
        CheckError::TransactionScriptLength => t.script.len() > p.max_script_length,
        CheckError::TransactionScriptDataLength => t.data.len() > p.max_script_data_length,
        CheckError::TransactionScriptOutputContractCreated { index } => index < t.outputs.len() && t.outputs[index as int] is ContractCreated,
        _ => false,
    }
}
pub open spec fn why_create(t: STx, p: ConsensusParameters, e: CheckError) -> bool {
    match e {
        CheckError::TransactionCreateBytecodeWitnessIndex => t.bwi >= t.witnesses.len(),
        CheckError::TransactionCreateBytecodeLen => t.bwi < t.witnesses.len() && !bytecode_len_ok(t, p),
        CheckError::TransactionCreateStorageSlotMax => t.slots.len() > p.max_storage_slots,
        CheckError::TransactionCreateStorageSlotOrder => !sorted(t.slots),
        CheckError::TransactionCreateInputContract { index } => index < t.inputs.len() && t.inputs[index as int] is Contract,
        CheckError::TransactionCreateOutputContract { index } => index < t.outputs.len() && t.outputs[index as int] is Contract,
        CheckError::TransactionCreateOutputVariable { index } => index < t.outputs.len() && t.outputs[index as int] is Variable,
        CheckError::TransactionCreateOutputChangeNotBaseAsset { index } => index < t.outputs.len() && t.outputs[index as int] is Change && !create_out(t.outputs, index as int),
        CheckError::TransactionCreateOutputContractCreatedMultiple { index } => index < t.outputs.len() && t.outputs[index as int] is ContractCreated && !create_out(t.outputs, index as int),
        _ => false,
    }
}
pub open spec fn why_mint(t: STx, h: u64, p: ConsensusParameters, e: CheckError) -> bool {
    match e {
        CheckError::TransactionOutputsMax => t.outputs.len() > p.max_outputs,
        CheckError::TransactionMintIncorrectBlockHeight => t.txp.block_height as u64 != h,
        CheckError::TransactionOutputCoinAssetIdDuplicated(a) => exists|i: int, j: int| 0 <= i < j < t.outputs.len() && #[trigger] same_coin(t.outputs, i, j),
        CheckError::TransactionMintOutputIsNotCoin => exists|i: int| 0 <= i < t.outputs.len() && !(#[trigger] t.outputs[i] is Coin),
        _ => false,
    }
}
pub open spec fn why(t: STx, h: u64, p: ConsensusParameters, e: CheckError) -> bool {
    if t.kind == 2 { why_mint(t, h, p, e) } else { why_common(t, h, p, e) || if t.kind == 0 { why_script(t, p, e) } else { why_create(t, p, e) } }
}
/// A reason is a rule broken: a valid transaction is accepted.
pub broadcast proof fn why_invalid(t: STx, h: u64, p: ConsensusParameters, e: CheckError) requires #[trigger] why(t, h, p, e), 0 <= t.kind <= 2 ensures !valid(t, h, p)
{
    if t.kind == 2 {
        match e {
            CheckError::TransactionOutputCoinAssetIdDuplicated(a) => { let (i, j) = choose|i: int, j: int| 0 <= i < j < t.outputs.len() && #[trigger] same_coin(t.outputs, i, j); assert(same_coin(t.outputs, i, j)); }
            CheckError::TransactionMintOutputIsNotCoin => { let i = choose|i: int| 0 <= i < t.outputs.len() && !(#[trigger] t.outputs[i] is Coin); assert(!(t.outputs[i] is Coin)); }
            _ => {}
        }
    } else if why_limits(t, h, p, e) {
        if at_in(e) is Some { assert(!lim_in(t.inputs[at_in(e)->0], t.witnesses.len() as int, p)); }
    } else if why_repeated(t, e) {
        match e {
            CheckError::TransactionOutputChangeAssetIdNotFound(a) => { let i = choose|i: int| 0 <= i < t.outputs.len() && ochange(#[trigger] t.outputs[i]) == Some(a@); assert(!covered_out(t.outputs[i], in_assets(t.inputs))); }
            CheckError::TransactionOutputCoinAssetIdNotFound(a) => { let i = choose|i: int| 0 <= i < t.outputs.len() && ocoin(#[trigger] t.outputs[i]) == Some(a@); assert(!covered_out(t.outputs[i], in_assets(t.inputs))); }
            _ => {}
        }
    } else if why_unpaired(t, e) {
        match e {
            CheckError::InputContractAssociatedOutputContract { index } => { assert(!paired_in(t.inputs[index as int], index as int, t.outputs)); }
            CheckError::OutputContractInputIndex { index } => { assert(!paired_out(t.outputs[index as int], t.inputs)); }
            _ => {}
        }
    } else if t.kind == 1 {
        match e {
            CheckError::TransactionCreateInputContract { index } => { assert(t.inputs[index as int] is Contract); }
            CheckError::TransactionCreateOutputContract { index } => { assert(!create_out(t.outputs, index as int)); }
            CheckError::TransactionCreateOutputVariable { index } => { assert(!create_out(t.outputs, index as int)); }
            _ => {}
        }
    }
}
// ---- signatures
/// The witness is a signature over the identifier by the key of the owner.
pub open spec fn signed_by(owner: Seq<u8>, wi: int, ws: Seq<SWit>, id: Seq<u8>) -> bool {
    wi < ws.len() && ws[wi].data.len() == 64 && recover_spec(ws[wi].data, id) is Some && pk_hash(recover_spec(ws[wi].data, id)->0) == owner
}
pub open spec fn authentic(i: SInput, ws: Seq<SWit>, id: Seq<u8>) -> bool {
    match i {
        SInput::CoinSigned { owner, witness_index, .. } => signed_by(owner, witness_index as int, ws, id),
        SInput::MessageSigned { recipient, witness_index, .. } => signed_by(recipient, witness_index as int, ws, id),
        _ => iowned(i),
    }
}
pub open spec fn all_authentic(t: STx) -> bool { forall|i: int| 0 <= i < t.inputs.len() ==> authentic(#[trigger] t.inputs[i], t.witnesses, txid(t)) }
pub open spec fn uvs(s: Seq<&UtxoId>) -> Seq<SUtxo> { s.map_values(|a: &UtxoId| a.dv()) }
pub open spec fn avl(s: Seq<AssetId>) -> Seq<Seq<u8>> { s.map_values(|a: AssetId| a@) }
pub proof fn mint_step(outs: Seq<SOutput>, a: Seq<AssetId>, k: int)
    requires 0 <= k < outs.len(), a.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] outs[i] is Coin && ocoin(outs[i]) == Some(avl(a)[i])
    ensures outs[k] is Coin ==> forall|i: int| 0 <= i < k ==> ((#[trigger] a[i])@ == ocoin(outs[k])->0) == same_coin(outs, i, k),
        outs[k] is Coin ==> forall|i: int| 0 <= i < k ==> #[trigger] same_coin(outs, i, k) == (a[i]@ == ocoin(outs[k])->0)
{ assert forall|i: int| 0 <= i < k implies ocoin(outs[i]) == Some((#[trigger] a[i])@) by { assert(outs[i] is Coin); } }
pub open spec fn mvs(s: Seq<&MessageId>) -> Seq<Seq<u8>> { s.map_values(|a: &MessageId| a@) }
pub proof fn nodup_map<T, K>(s: Seq<T>, f: spec_fn(T) -> K)
    requires forall|a: T, b: T| #[trigger] f(a) == #[trigger] f(b) ==> a == b
    ensures s.map_values(f).no_duplicates() == s.no_duplicates()
{
    let m = s.map_values(f);
    if s.no_duplicates() { assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by { assert(m[i] == f(s[i]) && m[j] == f(s[j])); assert(s[i] != s[j]); } }
    if m.no_duplicates() { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(m[i] == f(s[i]) && m[j] == f(s[j])); } }
}
pub proof fn nodup_utxos(s: Seq<&UtxoId>) ensures uvs(s).no_duplicates() == s.no_duplicates(), forall|a: &UtxoId| s.contains(a) ==> uvs(s).contains(#[trigger] a.dv())
{ let f = |a: &UtxoId| a.dv(); assert forall|a: &UtxoId, b: &UtxoId| #[trigger] f(a) == #[trigger] f(b) implies a == b by { crate::sleaf::bytes32_ext(a.tx_id, b.tx_id); } nodup_map(s, f);
  assert forall|a: &UtxoId| s.contains(a) implies uvs(s).contains(#[trigger] a.dv()) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(uvs(s)[i] == a.dv()); } }
pub proof fn nodup_contracts(s: Seq<&ContractId>) ensures cvs(s).no_duplicates() == s.no_duplicates(), forall|a: &ContractId| s.contains(a) ==> cvs(s).contains(#[trigger] a@)
{ let f = |a: &ContractId| a@; assert forall|a: &ContractId, b: &ContractId| #[trigger] f(a) == #[trigger] f(b) implies a == b by { contract_ext(*a, *b); } nodup_map(s, f);
  assert forall|a: &ContractId| s.contains(a) implies cvs(s).contains(#[trigger] a@) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(cvs(s)[i] == a@); } }
pub proof fn nodup_msgs(s: Seq<&MessageId>) ensures mvs(s).no_duplicates() == s.no_duplicates(), forall|a: &MessageId| s.contains(a) ==> mvs(s).contains(#[trigger] a@)
{ let f = |a: &MessageId| a@; assert forall|a: &MessageId, b: &MessageId| #[trigger] f(a) == #[trigger] f(b) implies a == b by { assert(a@ == b@ ==> a.0 =~= b.0); } nodup_map(s, f);
  assert forall|a: &MessageId| s.contains(a) implies mvs(s).contains(#[trigger] a@) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(mvs(s)[i] == a@); } }
pub proof fn uniq_contains<T>(s: Seq<T>, a: T) ensures uniq(s).contains(a) == s.contains(a) decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        uniq_contains(p, a); uniq_contains(p, s.last());
        assert(s =~= p.push(s.last()));
        assert(s.contains(a) == (p.contains(a) || a == s.last())) by {
            if p.contains(a) { let i = choose|i: int| 0 <= i < p.len() && p[i] == a; assert(s[i] == a); }
            if a == s.last() { assert(s[s.len() - 1] == a); }
        }
        if !p.contains(s.last()) {
            let u = uniq(p);
            if u.contains(a) { let i = choose|i: int| 0 <= i < u.len() && u[i] == a; assert(u.push(s.last())[i] == a); }
            if a == s.last() { assert(u.push(s.last())[u.len() as int] == a); }
            if u.push(s.last()).contains(a) { let i = choose|i: int| 0 <= i < u.push(s.last()).len() && u.push(s.last())[i] == a; if i < u.len() { assert(u[i] == a); } }
        }
    }
}
}
@keep T.Executable
@fn Input.check
@props C07 C09 C12
@ens
  r is Ok ==> lim_in(self.dv(), witnesses@.len() as int, *parameters) && paired_in(self.dv(), index as int, dvs(outputs@)) && authentic(self.dv(), dvs(witnesses@), txhash@)
@ens
  lim_in(self.dv(), witnesses@.len() as int, *parameters) && paired_in(self.dv(), index as int, dvs(outputs@)) && authentic(self.dv(), dvs(witnesses@), txhash@) ==> r is Ok
@fn Input.check_signature
@props C12
@ens
  r is Ok == authentic(self.dv(), dvs(witnesses@), txhash@)
@fn Input.check_without_signature
@props C07 C09
@ens C07
  r is Ok ==> lim_in(self.dv(), witnesses@.len() as int, *parameters)
@ens C09
  r is Ok ==> paired_in(self.dv(), index as int, dvs(outputs@))
@ens
  r is Err ==> why_in(self.dv(), index as int, dvs(outputs@), witnesses@.len() as int, *parameters, r->Err_0)
@pre
let ghost os = dvs(outputs@);
@loop 0
invariant
    0 <= i0 <= s0@.len(), dvs(s0@) == os, acc0 == nrefs(os.take(i0 as int), index as int), acc0 <= i0,
decreases s0@.len() - i0
@ls 0
proof { nrefs_step(os, index as int, i0 - 1); assert(os[i0 - 1] == s0@[i0 - 1].dv()); }
@la 0
proof { assert(os.take(s0@.len() as int) =~= os); }
@fn Output.check
@props C09
@ens
  r is Ok == paired_out(self.dv(), dvs(inputs@))
@ens
  r is Err ==> r->Err_0 == (CheckError::OutputContractInputIndex { index })
@super Checkable TxV
@fn trait Checkable.check
@props C12 C16
@req
  ready(self)
@ens
  r is Ok ==> valid(self.tv(), block_height, *parameters) && all_authentic(self.tv())
@ens
  valid(self.tv(), block_height, *parameters) && all_authentic(self.tv()) ==> r is Ok
@fn trait Checkable.check_signatures
@props C12
@req
  ready(self)
@ens
  r is Ok == all_authentic(self.tv())
@fn trait Checkable.check_without_signatures
@props C07 C08 C09 C10 C11
@ens
  r is Ok == valid(self.tv(), block_height, *parameters), r is Err ==> why(self.tv(), block_height, *parameters, r->Err_0)
@fn checkable.check_common_part
@props C07 C08 C09
@ens C07
  r is Ok ==> limits(tx.tv(), block_height, *parameters)
@ens C08
  r is Ok ==> unrepeated(tx.tv()) && covered(tx.tv())
@ens C09
  r is Ok ==> paired(tx.tv())
@ens
  r is Err ==> why_common(tx.tv(), block_height, *parameters, r->Err_0)
@pre
let ghost t = tx.tv();
let ghost p = *parameters;
@loop 0
invariant
    0 <= i0 <= s0@.len(), t == tx.tv(), avs(s0@) == uniq(in_assets(t.inputs)),
    forall|k: int| 0 <= k < i0 ==> nchange(t.outputs, #[trigger] avs(s0@)[k]) <= 1,
decreases s0@.len() - i0
@loop 1
invariant
    0 <= i1 <= s1@.len(), dvs(s1@) == t.outputs, acc1 == nchange(t.outputs.take(i1 as int), input_asset_id@), acc1 <= i1,
decreases s1@.len() - i1
@ls 1
proof { nchange_step(t.outputs, input_asset_id@, i1 - 1); assert(t.outputs[i1 - 1] == s1@[i1 - 1].dv()); }
@la 1
proof { assert(t.outputs.take(s1@.len() as int) =~= t.outputs); nchange_is(t.outputs, input_asset_id@); assert(avs(s0@)[i0 - 1] == input_asset_id@); if acc1 > 1 { assert(doubled(t.outputs, input_asset_id@)); assert(why_repeated(t, CheckError::TransactionOutputChangeAssetIdDuplicated(*input_asset_id))); } }
@la 0
proof {
    assert forall|i: int, j: int, a: Seq<u8>| in_assets(t.inputs).contains(a) implies !#[trigger] twice(t.outputs, i, j, a) by {
        uniq_contains(in_assets(t.inputs), a);
        let k = choose|k: int| 0 <= k < avs(s0@).len() && avs(s0@)[k] == a;
        assert(nchange(t.outputs, avs(s0@)[k]) <= 1);
        nchange_is(t.outputs, a);
    }
}
@loop 2
invariant
    0 <= i2 <= s2@.len(), t == tx.tv(), dvs(s2@) == t.inputs, uvs(acc2@) == in_utxos(t.inputs.take(i2 as int)),
decreases s2@.len() - i2
@lb 2
proof { assert(uvs(acc2@) =~= in_utxos(t.inputs.take(0))); }
@ls 2
let ghost a2 = acc2@;
proof { fm_step(t.inputs, f_utxo(), i2 - 1); assert(t.inputs[i2 - 1] == s2@[i2 - 1].dv()); }
@le 2
proof { if acc2@.len() > a2.len() { assert(acc2@ =~= a2.push(acc2@.last())); assert(uvs(acc2@) =~= uvs(a2).push(acc2@.last().dv())); } }
@la 2
proof { assert(t.inputs.take(s2@.len() as int) =~= t.inputs); nodup_utxos(acc2@); }
@loop 3
invariant
    0 <= i3 <= s3@.len(), t == tx.tv(), dvs(s3@) == t.inputs, cvs(acc3@) == in_contracts(t.inputs.take(i3 as int)),
decreases s3@.len() - i3
@lb 3
proof { assert(cvs(acc3@) =~= in_contracts(t.inputs.take(0))); }
@ls 3
let ghost a3 = acc3@;
proof { fm_step(t.inputs, f_contract(), i3 - 1); assert(t.inputs[i3 - 1] == s3@[i3 - 1].dv()); }
@le 3
proof { if acc3@.len() > a3.len() { assert(acc3@ =~= a3.push(acc3@.last())); assert(cvs(acc3@) =~= cvs(a3).push(acc3@.last()@)); } }
@la 3
proof { assert(t.inputs.take(s3@.len() as int) =~= t.inputs); nodup_contracts(acc3@); }
@loop 4
invariant
    0 <= i4 <= s4@.len(), t == tx.tv(), dvs(s4@) == t.inputs, mvs(acc4@) == in_msgs(t.inputs.take(i4 as int)),
decreases s4@.len() - i4
@lb 4
proof { assert(mvs(acc4@) =~= in_msgs(t.inputs.take(0))); }
@ls 4
let ghost a4 = acc4@;
proof { fm_step(t.inputs, f_msg(), i4 - 1); assert(t.inputs[i4 - 1] == s4@[i4 - 1].dv()); }
@le 4
proof { if acc4@.len() > a4.len() { assert(acc4@ =~= a4.push(acc4@.last())); assert(mvs(acc4@) =~= mvs(a4).push(acc4@.last()@)); } }
@la 4
proof { assert(t.inputs.take(s4@.len() as int) =~= t.inputs); nodup_msgs(acc4@); }
@loop 5
invariant
    0 <= i5 <= s5@.len(), t == tx.tv(), p == *parameters, dvs(s5@) == t.inputs,
    forall|k: int| 0 <= k < i5 ==> lim_in(#[trigger] t.inputs[k], t.witnesses.len() as int, p) && paired_in(t.inputs[k], k, t.outputs),
decreases s5@.len() - i5
@ls 5
proof { assert(t.inputs[i5 - 1] == s5@[i5 - 1].dv()); }
@loop 6
invariant
    0 <= i6 <= s6@.len(), t == tx.tv(), dvs(s6@) == t.outputs,
    forall|k: int| 0 <= k < i6 ==> covered_out(#[trigger] t.outputs[k], in_assets(t.inputs)) && paired_out(t.outputs[k], t.inputs),
decreases s6@.len() - i6
@ls 6
proof { assert(t.outputs[i6 - 1] == s6@[i6 - 1].dv()); }
@loop 7
invariant_except_break
    !acc7, forall|k: int| 0 <= k < i7 ==> #[trigger] avs(s7@)[k] != asset_id@,
invariant
    0 <= i7 <= s7@.len(), avs(s7@) == in_assets(t.inputs),
ensures
    acc7 == avs(s7@).contains(asset_id@),
decreases s7@.len() - i7
@ls 7
proof { assert(avs(s7@)[i7 - 1] == x7@); }
@loop 8
invariant_except_break
    !acc8, forall|k: int| 0 <= k < i8 ==> #[trigger] avs(s8@)[k] != asset_id@,
invariant
    0 <= i8 <= s8@.len(), avs(s8@) == in_assets(t.inputs),
ensures
    acc8 == avs(s8@).contains(asset_id@),
decreases s8@.len() - i8
@ls 8
proof { assert(avs(s8@)[i8 - 1] == x8@); }
@la 6
proof {
    assert forall|i: int, j: int, a: Seq<u8>| !#[trigger] twice(t.outputs, i, j, a) by {
        if twice(t.outputs, i, j, a) { assert(covered_out(t.outputs[i], in_assets(t.inputs))); }
    }
}
@fn checkable.next_duplicate
@props C08
@ens
  r is None == iter@.no_duplicates(), r is Some ==> iter@.contains(r->0)
@fn Script.Checkable.check_signatures
@props C12
@loop 0
invariant
    0 <= i0 <= s0@.len(), dvs(s0@) == self.tv().inputs, id@ == txid(self.tv()),
    forall|k: int| 0 <= k < i0 ==> authentic(#[trigger] self.tv().inputs[k], self.tv().witnesses, id@),
decreases s0@.len() - i0
@ls 0
proof { assert(self.tv().inputs[i0 - 1] == s0@[i0 - 1].dv()); }
@fn Script.Checkable.check_without_signatures
@props C07 C08 C09 C11
@pre
broadcast use why_invalid;
@loop 0
invariant
    0 <= i0 <= s0@.len(), dvs(s0@) == self.tv().outputs,
    forall|k: int| 0 <= k < i0 ==> !(#[trigger] self.tv().outputs[k] is ContractCreated),
decreases s0@.len() - i0
@ls 0
proof { assert(self.tv().outputs[i0 - 1] == s0@[i0 - 1].dv()); }
@fn Create.Checkable.check_signatures
@props C12
@loop 0
invariant
    0 <= i0 <= s0@.len(), dvs(s0@) == self.tv().inputs, id@ == txid(self.tv()),
    forall|k: int| 0 <= k < i0 ==> authentic(#[trigger] self.tv().inputs[k], self.tv().witnesses, id@),
decreases s0@.len() - i0
@ls 0
proof { assert(self.tv().inputs[i0 - 1] == s0@[i0 - 1].dv()); }
@fn Create.Checkable.check_without_signatures
@props C07 C08 C09 C10
@pre
broadcast use why_invalid;
let ghost t = self.tv();
@loop 0
invariant_except_break
    acc0, forall|k: int| 0 <= k < i0 && k < t.slots.len() - 1 ==> le_slot(#[trigger] t.slots[k], t.slots[k + 1]),
invariant
    0 <= i0 <= s0@.len(), dvs(s0@) == t.slots,
ensures
    acc0 == sorted(t.slots),
decreases s0@.len() - i0
@ls 0
proof { assert(t.slots[i0 - 1] == s0@[i0 - 1].dv()); assert(t.slots[i0 as int] == s0@[i0 as int].dv()); assert(x0@[0] == s0@[i0 - 1] && x0@[1] == s0@[i0 as int]); }
@loop 1
invariant
    0 <= i1 <= s1@.len(), t == self.tv(), dvs(s1@) == t.inputs,
    forall|k: int| 0 <= k < i1 ==> !(#[trigger] t.inputs[k] is Contract),
decreases s1@.len() - i1
@ls 1
proof { assert(t.inputs[i1 - 1] == s1@[i1 - 1].dv()); }
@loop 2
invariant
    0 <= i2 <= s2@.len(), t == self.tv(), dvs(s2@) == t.outputs,
    forall|k: int| 0 <= k < i2 ==> #[trigger] create_out(t.outputs, k),
    contract_created == exists|k: int| 0 <= k < i2 && #[trigger] t.outputs[k] is ContractCreated,
decreases s2@.len() - i2
@ls 2
proof {
    assert(t.outputs[i2 - 1] == s2@[i2 - 1].dv());
    if contract_created { let k = choose|k: int| 0 <= k < i2 - 1 && #[trigger] t.outputs[k] is ContractCreated; assert(t.outputs[k] is ContractCreated); assert(t.outputs[i2 - 1] is ContractCreated ==> !create_out(t.outputs, i2 - 1)); }
    assert(!create_out(t.outputs, i2 - 1) ==> !deployable(t, *parameters));
}
@fn Mint.Checkable.check_signatures
@props C12
@fn Mint.Checkable.check_without_signatures
@props C07 C11
@pre
broadcast use why_invalid;
let ghost t = self.tv();
@loop 0
invariant
    t == self.tv(), it0.seq().len() == t.outputs.len(), forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.outputs[j],
    avl(assets@).len() == it0.index@,
    forall|k: int| 0 <= k < it0.index@ ==> #[trigger] t.outputs[k] is Coin && ocoin(t.outputs[k]) == Some(avl(assets@)[k]),
    forall|i: int, j: int| 0 <= i < j < it0.index@ ==> !#[trigger] same_coin(t.outputs, i, j),
@ls 0
proof { assert(output.dv() == t.outputs[it0.index@]); mint_step(t.outputs, assets@, it0.index@); }
@fn Transaction.Checkable.check_signatures
@props C12
@fn Transaction.Checkable.check_without_signatures
@props C07 C08 C09 C10 C11
