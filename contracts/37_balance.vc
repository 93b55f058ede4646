@# Free balances.
@head
pub mod sbal {
use vstd::prelude::*; use crate::vx::*; use crate::transaction::types::*; use crate::fuel_types::*;
use crate::transaction::fee::TransactionFee;
use crate::transaction::consensus_parameters::ConsensusParameters;
use crate::transaction::checkable::error::CheckError;
/// What an input gives of an asset, and what an output takes.
pub open spec fn gives(i: SInput, a: Seq<u8>) -> int {
    match i {
        SInput::CoinSigned { asset_id, amount, .. } => if asset_id == a { amount as int } else { 0 },
        SInput::CoinPredicate { asset_id, amount, .. } => if asset_id == a { amount as int } else { 0 },
        SInput::MessageSigned { amount, .. } => if a == zeros(32) { amount as int } else { 0 },
        SInput::MessagePredicate { amount, .. } => if a == zeros(32) { amount as int } else { 0 },
        SInput::Contract { .. } => 0,
    }
}
pub open spec fn takes(o: SOutput, a: Seq<u8>) -> int { match o { SOutput::Coin { asset_id, amount, .. } => if asset_id == a { amount as int } else { 0 }, _ => 0 } }
pub open spec fn sum_in(s: Seq<SInput>, a: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_in(s.drop_last(), a) + gives(s.last(), a) } }
pub open spec fn sum_out(s: Seq<SOutput>, a: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_out(s.drop_last(), a) + takes(s.last(), a) } }
pub open spec fn fee_tx(t: STx, p: ConsensusParameters) -> Option<TransactionFee> { fee_of(p, wit_off(t), t.gas_limit as int, t.gas_price as int) }
/// Inputs minus coin outputs, minus the maximum fee for the base asset.
pub open spec fn free(t: STx, fee: TransactionFee, a: Seq<u8>) -> int { sum_in(t.inputs, a) - sum_out(t.outputs, a) - if a == zeros(32) { fee.total as int } else { 0 } }
pub open spec fn held(s: Seq<SInput>, a: Seq<u8>) -> bool { in_assets(s).contains(a) }
pub open spec fn affordable(t: STx, p: ConsensusParameters) -> bool {
    &&& fee_tx(t, p) is Some
    &&& forall|a: Seq<u8>| #[trigger] sum_in(t.inputs, a) <= u64::MAX
    &&& forall|a: Seq<u8>| #[trigger] free(t, fee_tx(t, p)->0, a) >= 0
    &&& forall|i: int| 0 <= i < t.outputs.len() && ocoin(#[trigger] t.outputs[i]) is Some ==> ocoin(t.outputs[i])->0 == zeros(32) || held(t.inputs, ocoin(t.outputs[i])->0)
}
/// The map reports the free balance of every asset of the inputs, and of the base asset.
pub open spec fn reports(m: Map<AssetId, u64>, t: STx, fee: TransactionFee) -> bool {
    &&& forall|a: AssetId| #[trigger] m.contains_key(a) == (a@ == zeros(32) || held(t.inputs, a@))
    &&& forall|a: AssetId| #[trigger] m.contains_key(a) ==> m[a] == free(t, fee, a@)
}
pub open spec fn why_balance(t: STx, p: ConsensusParameters, e: CheckError) -> bool {
    match e {
        CheckError::ArithmeticOverflow => fee_tx(t, p) is None || exists|a: Seq<u8>| #[trigger] sum_in(t.inputs, a) > u64::MAX,
        CheckError::InsufficientFeeAmount { expected, provided } => fee_tx(t, p) is Some && expected == (fee_tx(t, p)->0).total && provided == sum_in(t.inputs, zeros(32)) && provided < expected,
        CheckError::InsufficientInputAmount { asset, expected, provided } => fee_tx(t, p) is Some && free(t, fee_tx(t, p)->0, asset@) < 0 && provided < expected,
        CheckError::TransactionOutputCoinAssetIdNotFound(a) => a@ != zeros(32) && !held(t.inputs, a@) && exists|i: int| 0 <= i < t.outputs.len() && ocoin(#[trigger] t.outputs[i]) == Some(a@),
        _ => false,
    }
}
pub proof fn sum_out_pos(s: Seq<SOutput>, a: Seq<u8>) ensures sum_out(s, a) >= 0 decreases s.len() { if s.len() > 0 { sum_out_pos(s.drop_last(), a); } }
/// An asset no input has sums to nothing.
pub proof fn sum_none(s: Seq<SInput>, a: Seq<u8>) requires !held(s, a) ensures sum_in(s, a) == 0 decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1;
        assert(s.take(n + 1) =~= s && s.take(n) =~= s.drop_last());
        fm_step(s, f_asset(), n);
        let p = in_assets(s.drop_last());
        if p.contains(a) { let i = choose|i: int| 0 <= i < p.len() && p[i] == a; assert(in_assets(s)[i] == a); }
        if iasset(s.last()) is Some { assert(in_assets(s)[p.len() as int] == iasset(s.last())->0); }
        sum_none(s.drop_last(), a);
    }
}
pub proof fn sum_in_mono(s: Seq<SInput>, a: Seq<u8>, k: int) requires 0 <= k <= s.len() ensures 0 <= sum_in(s.take(k), a) <= sum_in(s, a) decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); if k > 0 { sum_in_mono(s.drop_last(), a, k - 1); } }
    else { assert(s.drop_last().take(k) =~= s.take(k)); sum_in_mono(s.drop_last(), a, k); }
}
pub proof fn sum_out_mono(s: Seq<SOutput>, a: Seq<u8>, k: int) requires 0 <= k <= s.len() ensures 0 <= sum_out(s.take(k), a) <= sum_out(s, a) decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); if k > 0 { sum_out_mono(s.drop_last(), a, k - 1); } }
    else { assert(s.drop_last().take(k) =~= s.take(k)); sum_out_mono(s.drop_last(), a, k); }
}
/// The map after some of the inputs.
pub open spec fn summed(m: Map<AssetId, u64>, s: Seq<SInput>) -> bool {
    &&& forall|a: AssetId| #[trigger] m.contains_key(a) == held(s, a@)
    &&& forall|a: AssetId| #[trigger] m.contains_key(a) ==> m[a] == sum_in(s, a@)
}
pub open spec fn bal(m: Map<AssetId, u64>, a: AssetId) -> u64 { if m.contains_key(a) { m[a] } else { 0 } }
pub proof fn summed_step(m: Map<AssetId, u64>, s: Seq<SInput>, k: int)
    requires 0 <= k < s.len(), summed(m, s.take(k))
    ensures
        iasset(s[k]) is None ==> summed(m, s.take(k + 1)),
        forall|a: AssetId, v: u64| iasset(s[k]) == Some(a@) && v == bal(m, a) + gives(s[k], a@) ==> summed(#[trigger] m.insert(a, v), s.take(k + 1)),
        forall|a: AssetId| #![trigger bal(m, a)] #![trigger m.contains_key(a)] iasset(s[k]) == Some(a@) ==> bal(m, a) + gives(s[k], a@) <= sum_in(s, a@),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    fm_step(s, f_asset(), k);
    let p = in_assets(s.take(k));
    let q = in_assets(s.take(k + 1));
    assert forall|b: AssetId| #[trigger] held(s.take(k + 1), b@) == (held(s.take(k), b@) || iasset(s[k]) == Some(b@)) by {
        if p.contains(b@) { let i = choose|i: int| 0 <= i < p.len() && p[i] == b@; assert(q[i] == b@); }
        if iasset(s[k]) == Some(b@) { assert(q[p.len() as int] == b@); }
    }
    if iasset(s[k]) is None { assert(q == p); assert forall|b: AssetId| #[trigger] m.contains_key(b) implies m[b] == sum_in(s.take(k + 1), b@) by {} }
    assert forall|a: AssetId, v: u64| iasset(s[k]) == Some(a@) && v == bal(m, a) + gives(s[k], a@) implies summed(#[trigger] m.insert(a, v), s.take(k + 1)) by {
        let n = m.insert(a, v);
        assert forall|b: AssetId| #[trigger] n.contains_key(b) == held(s.take(k + 1), b@) by { asset_ext(a, b); assert(n.contains_key(b) == (b == a || m.contains_key(b))); }
        assert forall|b: AssetId| #[trigger] n.contains_key(b) implies n[b] == sum_in(s.take(k + 1), b@) by {
            asset_ext(a, b);
            if b == a { if !m.contains_key(a) { sum_none(s.take(k), a@); } } else { assert(m.contains_key(b)); }
        }
    }
    assert forall|a: AssetId| iasset(s[k]) == Some(a@) implies #[trigger] bal(m, a) + gives(s[k], a@) <= sum_in(s, a@) by {
        if !m.contains_key(a) { sum_none(s.take(k), a@); }
        assert(sum_in(s.take(k + 1), a@) == bal(m, a) + gives(s[k], a@));
        sum_in_mono(s, a@, k + 1);
    }
}
/// The map after the fee and some of the outputs.
pub open spec fn left(m: Map<AssetId, u64>, t: STx, fee: TransactionFee, s: Seq<SOutput>) -> bool { reports(m, STx { outputs: s, ..t }, fee) }
pub proof fn left_first(m: Map<AssetId, u64>, t: STx, fee: TransactionFee)
    requires summed(m, t.inputs)
    ensures
        forall|a: AssetId, v: u64| a@ == zeros(32) && v == bal(m, a) - fee.total ==> left(#[trigger] m.insert(a, v), t, fee, t.outputs.take(0)),
        forall|a: AssetId| #![trigger bal(m, a)] #![trigger m.contains_key(a)] a@ == zeros(32) ==> bal(m, a) == sum_in(t.inputs, a@),
{
    let t0 = STx { outputs: t.outputs.take(0), ..t };
    assert forall|a: AssetId, v: u64| a@ == zeros(32) && v == bal(m, a) - fee.total implies left(#[trigger] m.insert(a, v), t, fee, t.outputs.take(0)) by {
        let n = m.insert(a, v);
        assert forall|b: AssetId| #[trigger] n.contains_key(b) == (b@ == zeros(32) || held(t0.inputs, b@)) by { asset_ext(a, b); assert(n.contains_key(b) == (b == a || m.contains_key(b))); }
        assert forall|b: AssetId| #[trigger] n.contains_key(b) implies n[b] == free(t0, fee, b@) by {
            asset_ext(a, b);
            if b == a { if !m.contains_key(a) { sum_none(t.inputs, a@); } } else { assert(m.contains_key(b)); }
        }
    }
    assert forall|a: AssetId| a@ == zeros(32) implies #[trigger] bal(m, a) == sum_in(t.inputs, a@) by { if !m.contains_key(a) { sum_none(t.inputs, a@); } }
}
pub proof fn left_step(m: Map<AssetId, u64>, t: STx, fee: TransactionFee, k: int)
    requires 0 <= k < t.outputs.len(), left(m, t, fee, t.outputs.take(k))
    ensures
        ocoin(t.outputs[k]) is None ==> left(m, t, fee, t.outputs.take(k + 1)),
        forall|a: AssetId, v: u64| ocoin(t.outputs[k]) == Some(a@) && m.contains_key(a) && v == m[a] - takes(t.outputs[k], a@) ==> left(#[trigger] m.insert(a, v), t, fee, t.outputs.take(k + 1)),
        forall|a: AssetId| ocoin(t.outputs[k]) == Some(a@) && #[trigger] m.contains_key(a) && m[a] < takes(t.outputs[k], a@) ==> free(t, fee, a@) < 0,
{
    let s = t.outputs;
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    let (t0, t1) = (STx { outputs: s.take(k), ..t }, STx { outputs: s.take(k + 1), ..t });
    if ocoin(s[k]) is None { assert forall|b: AssetId| #[trigger] m.contains_key(b) implies m[b] == free(t1, fee, b@) by {} }
    assert forall|a: AssetId, v: u64| ocoin(s[k]) == Some(a@) && m.contains_key(a) && v == m[a] - takes(s[k], a@) implies left(#[trigger] m.insert(a, v), t, fee, s.take(k + 1)) by {
        let n = m.insert(a, v);
        assert forall|b: AssetId| #[trigger] n.contains_key(b) == (b@ == zeros(32) || held(t1.inputs, b@)) by { assert(n.contains_key(b) == (b == a || m.contains_key(b))); }
        assert forall|b: AssetId| #[trigger] n.contains_key(b) implies n[b] == free(t1, fee, b@) by { asset_ext(a, b); if b != a { assert(m.contains_key(b)); } }
    }
    assert forall|a: AssetId| ocoin(s[k]) == Some(a@) && #[trigger] m.contains_key(a) && m[a] < takes(s[k], a@) implies free(t, fee, a@) < 0 by {
        assert(sum_out(s.take(k + 1), a@) == sum_out(s.take(k), a@) + takes(s[k], a@));
        sum_out_mono(s, a@, k + 1);
    }
}
/// A complete map shows that everything is covered.
pub proof fn left_last(m: Map<AssetId, u64>, t: STx, p: ConsensusParameters)
    requires fee_tx(t, p) is Some, summed_ok(t), reports(m, t, fee_tx(t, p)->0), forall|i: int| 0 <= i < t.outputs.len() && ocoin(#[trigger] t.outputs[i]) is Some ==> ocoin(t.outputs[i])->0 == zeros(32) || held(t.inputs, ocoin(t.outputs[i])->0),
        tx_shape(t)
    ensures affordable(t, p)
{
    let fee = fee_tx(t, p)->0;
    assert forall|a: Seq<u8>| #[trigger] free(t, fee, a) >= 0 by {
        if a == zeros(32) || held(t.inputs, a) {
            held_len(t, a);
            let b = mk_asset(a);
            assert(m.contains_key(b));
        } else {
            sum_none(t.inputs, a);
            out_none(t, t.outputs.len() as int, a);
            assert(t.outputs.take(t.outputs.len() as int) =~= t.outputs);
        }
    }
}
pub open spec fn summed_ok(t: STx) -> bool { forall|a: Seq<u8>| #[trigger] sum_in(t.inputs, a) <= u64::MAX }
/// Identifiers have 32 bytes.
pub proof fn mk_asset(a: Seq<u8>) -> (r: AssetId) requires a.len() == 32 ensures r@ == a
{ broadcast use arr_all; AssetId(arr32(a)) }
pub uninterp spec fn arr32(a: Seq<u8>) -> [u8; 32];
/// There is an array of any 32 bytes.
pub broadcast axiom fn arr_all(a: Seq<u8>) requires a.len() == 32 ensures #[trigger] arr32(a)@ == a;
pub proof fn held_len(t: STx, a: Seq<u8>) requires tx_shape(t), a == zeros(32) || held(t.inputs, a) ensures a.len() == 32
{ if held(t.inputs, a) { held_wit(t.inputs, a); let i = choose|i: int| 0 <= i < t.inputs.len() && iasset(#[trigger] t.inputs[i]) == Some(a); assert(iasset(t.inputs[i]) == Some(a)); } }
pub proof fn held_wit(s: Seq<SInput>, a: Seq<u8>) requires held(s, a) ensures exists|i: int| 0 <= i < s.len() && iasset(#[trigger] s[i]) == Some(a) decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1;
        assert(s.take(n + 1) =~= s && s.take(n) =~= s.drop_last());
        fm_step(s, f_asset(), n);
        if held(s.drop_last(), a) { held_wit(s.drop_last(), a); let i = choose|i: int| 0 <= i < n && iasset(#[trigger] s.drop_last()[i]) == Some(a); assert(iasset(s[i]) == Some(a)); }
        else { let q = in_assets(s); let i = choose|i: int| 0 <= i < q.len() && q[i] == a; let p = in_assets(s.drop_last()); if i < p.len() { assert(p[i] == a); } assert(iasset(s[n]) == Some(a)); }
    }
}
pub proof fn out_none(t: STx, k: int, a: Seq<u8>)
    requires 0 <= k <= t.outputs.len(), a != zeros(32), !held(t.inputs, a), forall|i: int| 0 <= i < t.outputs.len() && ocoin(#[trigger] t.outputs[i]) is Some ==> ocoin(t.outputs[i])->0 == zeros(32) || held(t.inputs, ocoin(t.outputs[i])->0)
    ensures sum_out(t.outputs.take(k), a) == 0
    decreases k
{
    if k > 0 { out_none(t, k - 1, a); assert(t.outputs.take(k).drop_last() =~= t.outputs.take(k - 1)); assert(t.outputs.take(k).last() == t.outputs[k - 1]); let o = t.outputs[k - 1]; assert(ocoin(o) is Some ==> ocoin(o)->0 != a); }
}
pub proof fn summed_all(m: Map<AssetId, u64>, t: STx) requires summed(m, t.inputs), tx_shape(t) ensures summed_ok(t)
{ assert forall|a: Seq<u8>| #[trigger] sum_in(t.inputs, a) <= u64::MAX by { if held(t.inputs, a) { held_len(t, a); let b = mk_asset(a); assert(m.contains_key(b)); } else { sum_none(t.inputs, a); } } }
pub broadcast proof fn why_not_affordable(t: STx, p: ConsensusParameters, e: CheckError) requires #[trigger] why_balance(t, p, e) ensures !affordable(t, p)
{
    match e {
        CheckError::InsufficientFeeAmount { expected, provided } => { sum_out_pos(t.outputs, zeros(32)); assert(free(t, fee_tx(t, p)->0, zeros(32)) < 0); }
        CheckError::TransactionOutputCoinAssetIdNotFound(a) => { let i = choose|i: int| 0 <= i < t.outputs.len() && ocoin(#[trigger] t.outputs[i]) == Some(a@); assert(ocoin(t.outputs[i]) is Some); }
        _ => {}
    }
}
}
@fn checked_transaction.initial_free_balances
@props C15
@req
  params.gas_price_factor > 0, ready(transaction), transaction.tv().kind != 2
@ens
  r is Ok ==> affordable(transaction.tv(), *params) && Some(r->Ok_0.fee) == fee_tx(transaction.tv(), *params) && reports(r->Ok_0.initial_free_balances@, transaction.tv(), r->Ok_0.fee)
@ens
  r is Err ==> why_balance(transaction.tv(), *params, r->Err_0)
@pre
let ghost t = transaction.tv();
@loop 0
invariant
    0 <= i0 <= s0@.len(), t == transaction.tv(), dvs(s0@) == t.inputs, summed(balances@, t.inputs.take(i0 as int)),
decreases s0@.len() - i0
@lb 0
proof { assert(in_assets(t.inputs.take(0)) =~= Seq::empty()); }
@ls 0
proof { assert(t.inputs[i0 - 1] == s0@[i0 - 1].dv()); summed_step(balances@, t.inputs, i0 - 1); }
@la 0
proof { assert(t.inputs.take(s0@.len() as int) =~= t.inputs); summed_all(balances@, t); if fee_tx(t, *params) is Some { left_first(balances@, t, fee_tx(t, *params)->0); } }
@loop 1
invariant
    0 <= i1 <= s1@.len(), t == transaction.tv(), dvs(s1@) == t.outputs, Some(fee) == fee_tx(t, *params), left(balances@, t, fee, t.outputs.take(i1 as int)),
    forall|i: int| 0 <= i < i1 && ocoin(#[trigger] t.outputs[i]) is Some ==> ocoin(t.outputs[i])->0 == zeros(32) || held(t.inputs, ocoin(t.outputs[i])->0),
decreases s1@.len() - i1
@ls 1
proof { assert(t.outputs[i1 - 1] == s1@[i1 - 1].dv()); left_step(balances@, t, fee, i1 - 1); }
@la 1
proof { assert(t.outputs.take(s1@.len() as int) =~= t.outputs); left_last(balances@, t, *params); }
