@# What is derived from a transaction's lists, and preparing for execution.
@head
/// itertools, on lists.
pub mod itx {
use vstd::prelude::*;
/// The elements, each where it is first.
pub open spec fn uniq<T>(s: Seq<T>) -> Seq<T> decreases s.len()
{ if s.len() == 0 { s } else { let u = uniq(s.drop_last()); if s.drop_last().contains(s.last()) { u } else { u.push(s.last()) } } }
#[verifier::external_body]
pub fn unique<T: PartialEq>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == uniq(v@) { unimplemented!() }
/// The elements without direct repetitions.
#[verifier::external_body]
pub fn dedup<T: PartialEq>(v: Vec<T>) -> (r: Vec<T>) ensures forall|x: T| #[trigger] r@.contains(x) == v@.contains(x) { unimplemented!() }
/// One of each element there is more than once.
#[verifier::external_body]
pub fn duplicates<T: PartialEq>(v: Vec<T>) -> (r: Vec<T>) ensures (r@.len() == 0) == v@.no_duplicates(), forall|i: int| 0 <= i < r@.len() ==> v@.contains(#[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn first<T>(v: Vec<T>) -> (r: Option<T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@[0]) { unimplemented!() }
}
@head
pub mod sexec {
use vstd::prelude::*; use crate::vx::*; use crate::itx::uniq;
use crate::transaction::types::*; use crate::fuel_types::*;
/// The values of `f` where it has one, in order.
pub open spec fn fm<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>) -> Seq<B> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match f(s.last()) { Some(b) => fm(s.drop_last(), f).push(b), None => fm(s.drop_last(), f) } } }
pub proof fn fm_step<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>, k: int)
    requires 0 <= k < s.len()
    ensures fm(s.take(k + 1), f) == match f(s[k]) { Some(b) => fm(s.take(k), f).push(b), None => fm(s.take(k), f) }
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub open spec fn iasset(i: SInput) -> Option<Seq<u8>> {
    match i { SInput::CoinSigned { asset_id, .. } => Some(asset_id), SInput::CoinPredicate { asset_id, .. } => Some(asset_id), SInput::Contract { .. } => None, _ => Some(zeros(32)) }
}
pub open spec fn icontract(i: SInput) -> Option<Seq<u8>> { match i { SInput::Contract { contract_id, .. } => Some(contract_id), _ => None } }
pub open spec fn f_asset() -> spec_fn(SInput) -> Option<Seq<u8>> { |i: SInput| iasset(i) }
pub open spec fn f_contract() -> spec_fn(SInput) -> Option<Seq<u8>> { |i: SInput| icontract(i) }
/// The assets of coins and messages, in order.
pub open spec fn in_assets(s: Seq<SInput>) -> Seq<Seq<u8>> { fm(s, f_asset()) }
pub open spec fn in_contracts(s: Seq<SInput>) -> Seq<Seq<u8>> { fm(s, f_contract()) }
pub open spec fn avs(s: Seq<&AssetId>) -> Seq<Seq<u8>> { s.map_values(|a: &AssetId| a@) }
pub open spec fn cvs(s: Seq<&ContractId>) -> Seq<Seq<u8>> { s.map_values(|a: &ContractId| a@) }
pub proof fn uniq_map<T, K>(s: Seq<T>, f: spec_fn(T) -> K)
    requires forall|a: T, b: T| #[trigger] f(a) == #[trigger] f(b) ==> a == b
    ensures uniq(s.map_values(f)) == uniq(s).map_values(f)
    decreases s.len()
{
    let m = s.map_values(f);
    if s.len() > 0 {
        uniq_map(s.drop_last(), f);
        assert(m.drop_last() =~= s.drop_last().map_values(f));
        assert(m.last() == f(s.last()));
        if s.drop_last().contains(s.last()) {
            let i = choose|i: int| 0 <= i < s.len() - 1 && s[i] == s.last();
            assert(s.drop_last()[i] == s.last());
            assert(m.drop_last()[i] == m.last());
            assert(uniq(m) =~= uniq(s).map_values(f));
        } else {
            if m.drop_last().contains(m.last()) {
                let i = choose|i: int| 0 <= i < m.len() - 1 && m[i] == m.last();
                assert(m.drop_last()[i] == f(s[i]));
                assert(s.drop_last()[i] == s.last());
            }
            assert(uniq(m) =~= uniq(s).map_values(f));
        }
    } else { assert(m =~= Seq::empty()); assert(uniq(s).map_values(f) =~= m); }
}
pub proof fn asset_ext(a: AssetId, b: AssetId) ensures a@ == b@ ==> a == b { assert(a@ == b@ ==> a.0 =~= b.0); }
pub proof fn contract_ext(a: ContractId, b: ContractId) ensures a@ == b@ ==> a == b { assert(a@ == b@ ==> a.0 =~= b.0); }
pub broadcast proof fn uniq_assets(s: Seq<&AssetId>) ensures #[trigger] avs(uniq(s)) == uniq(avs(s))
{ let f = |a: &AssetId| a@; assert forall|a: &AssetId, b: &AssetId| #[trigger] f(a) == #[trigger] f(b) implies a == b by { asset_ext(*a, *b); } uniq_map(s, f); }
pub broadcast proof fn uniq_contracts(s: Seq<&ContractId>) ensures #[trigger] cvs(uniq(s)) == uniq(cvs(s))
{ let f = |a: &ContractId| a@; assert forall|a: &ContractId, b: &ContractId| #[trigger] f(a) == #[trigger] f(b) implies a == b by { contract_ext(*a, *b); } uniq_map(s, f); }
/// The owner of an input that a predicate owns is the predicate's.
pub open spec fn iowned(i: SInput) -> bool {
    match i { SInput::CoinPredicate { owner, predicate, .. } => owner == code_root(predicate), SInput::MessagePredicate { recipient, predicate, .. } => recipient == code_root(predicate), _ => true }
}
pub open spec fn prep_pred(t: STx) -> STx { STx { inputs: t.inputs.map_values(|i: SInput| iprep(i)), outputs: t.outputs.map_values(|o: SOutput| oprep(o)), ..t } }
pub open spec fn prep_script(t: STx) -> STx { STx { outputs: t.outputs.map_values(|o: SOutput| oprep_script(o)), ..t } }
/// Preparing for predicates does not change the identifier.
pub proof fn prep_same_id(t: STx) requires tx_shape(t), t.kind != 2 ensures txid(prep_pred(t)) == txid(t)
{
    assert(strip(prep_pred(t)).inputs =~= strip(t).inputs);
    assert(strip(prep_pred(t)).outputs =~= strip(t).outputs);
}
}
@fn trait Executable.input_asset_ids
@props C24 C08
@ens
  avs(r@) == in_assets(self.tv().inputs)
@loop 0
invariant
    0 <= i0 <= s0@.len(), dvs(s0@) == self.tv().inputs, avs(acc0@) == in_assets(self.tv().inputs.take(i0 as int)),
decreases s0@.len() - i0
@lb 0
proof { assert(avs(acc0@) =~= in_assets(self.tv().inputs.take(0))); }
@ls 0
let ghost a0 = acc0@;
proof { fm_step(self.tv().inputs, f_asset(), i0 - 1); assert(self.tv().inputs[i0 - 1] == s0@[i0 - 1].dv()); }
@le 0
proof { if acc0@.len() > a0.len() { assert(acc0@ =~= a0.push(acc0@.last())); assert(avs(acc0@) =~= avs(a0).push(acc0@.last()@)); } }
@la 0
proof { assert(self.tv().inputs.take(s0@.len() as int) =~= self.tv().inputs); }
@fn trait Executable.input_asset_ids_unique
@props C24 C08
@ens
  avs(r@) == uniq(in_assets(self.tv().inputs))
@pre
broadcast use uniq_assets;
@fn trait Executable.input_contracts
@props C24
@ens
  cvs(r@) == uniq(in_contracts(self.tv().inputs))
@pre
broadcast use uniq_contracts;
@loop 0
invariant
    0 <= i0 <= s0@.len(), dvs(s0@) == self.tv().inputs, cvs(acc0@) == in_contracts(self.tv().inputs.take(i0 as int)),
decreases s0@.len() - i0
@lb 0
proof { assert(cvs(acc0@) =~= in_contracts(self.tv().inputs.take(0))); }
@ls 0
let ghost a0 = acc0@;
proof { fm_step(self.tv().inputs, f_contract(), i0 - 1); assert(self.tv().inputs[i0 - 1] == s0@[i0 - 1].dv()); }
@le 0
proof { if acc0@.len() > a0.len() { assert(acc0@ =~= a0.push(acc0@.last())); assert(cvs(acc0@) =~= cvs(a0).push(acc0@.last()@)); } }
@la 0
proof { assert(self.tv().inputs.take(s0@.len() as int) =~= self.tv().inputs); }
@fn trait Executable.check_predicate_owners
@props C12 C24
@ens
  r == forall|i: int| 0 <= i < self.tv().inputs.len() ==> iowned(#[trigger] self.tv().inputs[i])
@loop 0
invariant
    0 <= i0 <= s0@.len(), dvs(s0@) == self.tv().inputs, acc0 == forall|i: int| 0 <= i < i0 ==> iowned(#[trigger] self.tv().inputs[i]),
decreases s0@.len() - i0
@ls 0
proof { assert(self.tv().inputs[i0 - 1] == s0@[i0 - 1].dv()); }
@fn trait Executable.add_unsigned_coin_input
@props C22 C24
@ens
  old(self).tv().witnesses.len() <= 255 ==> final(self).tv() == (STx { inputs: old(self).tv().inputs.push(SInput::CoinSigned { utxo_id: utxo_id.dv(), owner: pk_hash(*owner), amount, asset_id: asset_id@, tx_pointer, witness_index: old(self).tv().witnesses.len() as u8, maturity }), witnesses: old(self).tv().witnesses.push(SWit { data: Seq::empty() }), ..old(self).tv() }), final(self).mv() == old(self).mv()
@pre
broadcast use dvs_push;
@fn trait Executable.add_unsigned_message_input
@props C22 C24
@ens
  old(self).tv().witnesses.len() <= 255 ==> final(self).tv() == (STx { inputs: old(self).tv().inputs.push(SInput::MessageSigned { message_id: sha256(sender@ + (recipient@ + (be8(nonce) + (be8(amount) + data@)))), sender: sender@, recipient: recipient@, amount, nonce, witness_index: old(self).tv().witnesses.len() as u8, data: data@ }), witnesses: old(self).tv().witnesses.push(SWit { data: Seq::empty() }), ..old(self).tv() }), final(self).mv() == old(self).mv()
@pre
broadcast use dvs_push;
@fn trait Executable.prepare_init_script
@props C17
@ens
  (*r).tv() == prep_script(old(self).tv()), (*r).mv() == old(self).mv(), *final(self) == *final(r)
@pre
let ghost t = self.tv();
@loop 0
invariant
    it0.seq().len() == t.outputs.len(), forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == oprep_script(t.outputs[j]),
@la 0
proof { assert(self.tv().outputs =~= prep_script(t).outputs); }
@fn trait Executable.prepare_init_predicate
@props C17
@ens
  (*r).tv() == prep_pred(old(self).tv()), (*r).mv() == old(self).mv(), *final(self) == *final(r)
@pre
let ghost t = self.tv();
@loop 0
invariant
    it0.seq().len() == t.inputs.len(), forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.inputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == iprep(t.inputs[j]),
@la 0
proof { assert(self.tv().inputs =~= prep_pred(t).inputs); }
@loop 1
invariant
    it1.seq().len() == t.outputs.len(), forall|j: int| 0 <= j < it1.seq().len() ==> (*it1.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == oprep(t.outputs[j]),
@la 1
proof { assert(self.tv().outputs =~= prep_pred(t).outputs); }
