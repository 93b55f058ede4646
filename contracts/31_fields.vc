@# The parts of transactions, and where they are.
@head
pub mod txv {
use vstd::prelude::*; use crate::vx::*;
use crate::transaction::types::*;
use crate::transaction::*;
use crate::transaction::metadata::CommonMetadata;
use crate::transaction::types::script::ScriptMetadata;
use crate::transaction::types::mint::MintMetadata;
/// A transaction and what is cached about it.
pub trait TxV: Sized {
    type M;
    spec fn tv(&self) -> STx;
    spec fn mv(&self) -> Self::M;
    /// Nothing is cached.
    spec fn m_none(m: Self::M) -> bool;
    /// What is cached is so.
    spec fn m_ok(t: STx, m: Self::M) -> bool;
    proof fn m_law(t: STx, m: Self::M) ensures Self::m_none(m) ==> Self::m_ok(t, m);
    proof fn shape(&self) ensures tx_shape(self.tv());
}
/// A pair of numbers is cloned to itself.
pub broadcast axiom fn clone_pair(a: Option<(usize, usize)>, b: Option<(usize, usize)>) requires #[trigger] crate::vstub::cl_ens(a, b) ensures a == b;
pub broadcast axiom fn cloned_pair(a: Option<(usize, usize)>, b: Option<(usize, usize)>) requires #[trigger] cloned(a, b) ensures a == b;
pub broadcast proof fn ipred_in(i: Input) ensures #[trigger] ipred(i.dv()) is Some ==> (ipred(i.dv())->0).0 + pad8((ipred(i.dv())->0).1.len() as int) <= i.dv().e().len()
{ broadcast use lens; }
pub open spec fn ready<T: TxV>(x: &T) -> bool { fits(x.tv()) && T::m_ok(x.tv(), x.mv()) }
pub open spec fn strip(t: STx) -> STx {
    if t.kind == 2 { t } else { STx { root: if t.kind == 0 { zeros(32) } else { t.root }, inputs: t.inputs.map_values(|i: SInput| iprep(i)), outputs: t.outputs.map_values(|o: SOutput| oprep(o)), witnesses: Seq::empty(), ..t } }
}
pub open spec fn txid(t: STx) -> Seq<u8> { sha256(tx_e(strip(t))) }
pub open spec fn common_ok(t: STx, c: CommonMetadata) -> bool {
    &&& c.id@ == txid(t) && c.inputs_offset == in_off(t) && c.outputs_offset == out_off(t) && c.witnesses_offset == wit_off(t)
    &&& c.inputs_offset_at@.len() == t.inputs.len() && c.inputs_predicate_offset_at@.len() == t.inputs.len() && c.outputs_offset_at@.len() == t.outputs.len() && c.witnesses_offset_at@.len() == t.witnesses.len()
    &&& forall|i: int| 0 <= i < t.inputs.len() ==> Some(#[trigger] c.inputs_offset_at@[i]) == in_at(t, i)
    &&& forall|i: int| 0 <= i < t.inputs.len() ==> (#[trigger] c.inputs_predicate_offset_at@[i]) == pred_at(t, i)
    &&& forall|i: int| 0 <= i < t.outputs.len() ==> Some(#[trigger] c.outputs_offset_at@[i]) == out_at(t, i)
    &&& forall|i: int| 0 <= i < t.witnesses.len() ==> Some(#[trigger] c.witnesses_offset_at@[i]) == wit_at(t, i)
}
impl TxV for Script {
    type M = Option<ScriptMetadata>;
    open spec fn tv(&self) -> STx { script_tx(self.gas_price, self.gas_limit, self.maturity, self.script@, self.script_data@, self.receipts_root@, dvs(self.inputs@), dvs(self.outputs@), dvs(self.witnesses@)) }
    open spec fn mv(&self) -> Option<ScriptMetadata> { self.metadata }
    open spec fn m_none(m: Option<ScriptMetadata>) -> bool { m is None }
    open spec fn m_ok(t: STx, m: Option<ScriptMetadata>) -> bool { match m { None => true, Some(m) => common_ok(t, m.common) && m.script_data_offset == data_off(t) } }
    proof fn m_law(t: STx, m: Self::M) {}
    proof fn shape(&self) { broadcast use {input_wf, output_wf}; }
}
impl TxV for Create {
    type M = Option<CommonMetadata>;
    open spec fn tv(&self) -> STx { create_tx(self.gas_price, self.gas_limit, self.maturity, self.bytecode_length, self.bytecode_witness_index, dvs(self.storage_slots@), self.salt@, dvs(self.inputs@), dvs(self.outputs@), dvs(self.witnesses@)) }
    open spec fn mv(&self) -> Option<CommonMetadata> { self.metadata }
    open spec fn m_none(m: Option<CommonMetadata>) -> bool { m is None }
    open spec fn m_ok(t: STx, m: Option<CommonMetadata>) -> bool { match m { None => true, Some(m) => common_ok(t, m) } }
    proof fn m_law(t: STx, m: Self::M) {}
    proof fn shape(&self) { broadcast use {input_wf, output_wf}; }
}
impl TxV for Mint {
    type M = Option<MintMetadata>;
    open spec fn tv(&self) -> STx { mint_tx(self.tx_pointer, dvs(self.outputs@)) }
    open spec fn mv(&self) -> Option<MintMetadata> { self.metadata }
    open spec fn m_none(m: Option<MintMetadata>) -> bool { m is None }
    open spec fn m_ok(t: STx, m: Option<MintMetadata>) -> bool {
        match m { None => true, Some(m) => m.id@ == txid(t) && m.outputs_offset == out_off(t) && m.outputs_offset_at@.len() == t.outputs.len() && forall|i: int| 0 <= i < t.outputs.len() ==> Some(#[trigger] m.outputs_offset_at@[i]) == out_at(t, i) }
    }
    proof fn m_law(t: STx, m: Self::M) {}
    proof fn shape(&self) { broadcast use {input_wf, output_wf}; }
}
}
@super GasPrice TxV
@fn trait GasPrice.gas_price
@props C24
@ens
  *r == self.tv().gas_price
@fn trait GasPrice.gas_price_mut
@props C24
@ens
  *r == old(self).tv().gas_price, final(self).tv() == (STx { gas_price: *final(r), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait GasPrice.gas_price_offset
@props C04
@ens
  r == 8
@fn trait GasPrice.gas_price_offset_static
@props C04
@ens
  r == 8
@fn Script.GasPrice.gas_price
@props C24
@fn Script.GasPrice.gas_price_mut
@props C24
@fn Script.GasPrice.gas_price_offset_static
@props C04
@fn Create.GasPrice.gas_price
@props C24
@fn Create.GasPrice.gas_price_mut
@props C24
@fn Create.GasPrice.gas_price_offset_static
@props C04
@super GasLimit TxV
@fn trait GasLimit.gas_limit
@props C24
@ens
  *r == self.tv().gas_limit
@fn trait GasLimit.gas_limit_mut
@props C24
@ens
  *r == old(self).tv().gas_limit, final(self).tv() == (STx { gas_limit: *final(r), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait GasLimit.gas_limit_offset
@props C04
@ens
  r == 16
@fn trait GasLimit.gas_limit_offset_static
@props C04
@ens
  r == 16
@fn Script.GasLimit.gas_limit
@props C24
@fn Script.GasLimit.gas_limit_mut
@props C24
@fn Script.GasLimit.gas_limit_offset_static
@props C04
@fn Create.GasLimit.gas_limit
@props C24
@fn Create.GasLimit.gas_limit_mut
@props C24
@fn Create.GasLimit.gas_limit_offset_static
@props C04
@super Maturity TxV
@fn trait Maturity.maturity
@props C24
@ens
  *r == self.tv().maturity
@fn trait Maturity.maturity_mut
@props C24
@ens
  *r == old(self).tv().maturity, final(self).tv() == (STx { maturity: *final(r), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait Maturity.maturity_offset
@props C04
@ens
  r == 24
@fn trait Maturity.maturity_offset_static
@props C04
@ens
  r == 24
@fn Script.Maturity.maturity
@props C24
@fn Script.Maturity.maturity_mut
@props C24
@fn Script.Maturity.maturity_offset_static
@props C04
@fn Create.Maturity.maturity
@props C24
@fn Create.Maturity.maturity_mut
@props C24
@fn Create.Maturity.maturity_offset_static
@props C04
@super TxPointer TxV
@fn trait TxPointer.tx_pointer
@props C24
@ens
  *r == self.tv().txp
@fn trait TxPointer.tx_pointer_mut
@props C24
@ens
  *r == old(self).tv().txp, final(self).tv() == (STx { txp: *final(r), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait TxPointer.tx_pointer_offset
@props C04
@ens
  r == 8
@fn trait TxPointer.tx_pointer_static
@props C04
@ens
  r == 8
@fn Mint.TxPointer.tx_pointer
@props C24
@fn Mint.TxPointer.tx_pointer_mut
@props C24
@fn Mint.TxPointer.tx_pointer_static
@props C04
@super BytecodeLength TxV
@fn trait BytecodeLength.bytecode_length
@props C24
@ens
  *r == self.tv().blen
@fn trait BytecodeLength.bytecode_length_mut
@props C24
@ens
  *r == old(self).tv().blen, final(self).tv() == (STx { blen: *final(r), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait BytecodeLength.bytecode_length_offset
@props C04
@ens
  r == 32
@fn trait BytecodeLength.bytecode_length_offset_static
@props C04
@ens
  r == 32
@fn Create.BytecodeLength.bytecode_length
@props C24
@fn Create.BytecodeLength.bytecode_length_mut
@props C24
@fn Create.BytecodeLength.bytecode_length_offset_static
@props C04
@super BytecodeWitnessIndex TxV
@fn trait BytecodeWitnessIndex.bytecode_witness_index
@props C24
@ens
  *r == self.tv().bwi
@fn trait BytecodeWitnessIndex.bytecode_witness_index_mut
@props C24
@ens
  *r == old(self).tv().bwi, final(self).tv() == (STx { bwi: *final(r), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait BytecodeWitnessIndex.bytecode_witness_index_offset
@props C04
@ens
  r == 40
@fn trait BytecodeWitnessIndex.bytecode_witness_index_offset_static
@props C04
@ens
  r == 40
@fn Create.BytecodeWitnessIndex.bytecode_witness_index
@props C24
@fn Create.BytecodeWitnessIndex.bytecode_witness_index_mut
@props C24
@fn Create.BytecodeWitnessIndex.bytecode_witness_index_offset_static
@props C04
@super ReceiptsRoot TxV
@fn trait ReceiptsRoot.receipts_root
@props C24
@ens
  r@ == self.tv().root
@fn trait ReceiptsRoot.receipts_root_mut
@props C24
@ens
  r@ == old(self).tv().root, final(self).tv() == (STx { root: final(r)@, ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait ReceiptsRoot.receipts_root_offset
@props C04
@ens
  r == 72
@fn trait ReceiptsRoot.receipts_root_offset_static
@props C04
@ens
  r == 72
@fn Script.ReceiptsRoot.receipts_root
@props C24
@fn Script.ReceiptsRoot.receipts_root_mut
@props C24
@fn Script.ReceiptsRoot.receipts_root_offset_static
@props C04
@super Salt TxV
@fn trait Salt.salt
@props C24
@ens
  r@ == self.tv().salt
@fn trait Salt.salt_mut
@props C24
@ens
  r@ == old(self).tv().salt, final(self).tv() == (STx { salt: final(r)@, ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait Salt.salt_offset
@props C04
@ens
  r == 80
@fn trait Salt.salt_offset_static
@props C04
@ens
  r == 80
@fn Create.Salt.salt
@props C24
@fn Create.Salt.salt_mut
@props C24
@fn Create.Salt.salt_offset_static
@props C04
@super Script TxV
@fn trait Script.script
@props C24
@ens
  r@ == self.tv().script
@fn trait Script.script_mut
@props C24
@ens
  r@ == old(self).tv().script, final(self).tv() == (STx { script: final(r)@, ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait Script.script_offset
@props C04
@ens
  r == 104
@fn trait Script.script_offset_static
@props C04
@ens
  r == 104
@fn Script.Script.script
@props C24
@fn Script.Script.script_mut
@props C24
@fn Script.Script.script_offset_static
@props C04
@super ScriptData TxV
@fn trait ScriptData.script_data
@props C24
@ens
  r@ == self.tv().data
@fn trait ScriptData.script_data_mut
@props C24
@ens
  r@ == old(self).tv().data, final(self).tv() == (STx { data: final(r)@, ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait ScriptData.script_data_offset
@props C04 C05
@req
  ready(self)
@ens
  r == data_off(self.tv())
@fn Script.ScriptData.script_data
@props C24
@fn Script.ScriptData.script_data_mut
@props C24
@fn Script.ScriptData.script_data_offset
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@super StorageSlots TxV
@fn trait StorageSlots.storage_slots
@props C24
@ens
  dvs(r@) == self.tv().slots
@fn trait StorageSlots.storage_slots_mut
@props C24
@ens
  dvs(r@) == old(self).tv().slots, final(self).tv() == (STx { slots: dvs(final(r)@), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait StorageSlots.storage_slots_offset
@props C04
@ens
  r == 112
@fn trait StorageSlots.storage_slots_offset_static
@props C04
@ens
  r == 112
@fn trait StorageSlots.storage_slots_offset_at
@props C04
@req
  ready(self)
@ens
  r == slot_at(self.tv(), idx as int)
@fn Create.StorageSlots.storage_slots
@props C24
@fn Create.StorageSlots.storage_slots_mut
@props C24
@fn Create.StorageSlots.storage_slots_offset_static
@props C04
@fn Create.StorageSlots.storage_slots_offset_at
@props C04
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@super Inputs TxV
@fn trait Inputs.inputs
@props C24
@ens
  dvs(r@) == self.tv().inputs
@fn trait Inputs.inputs_mut
@props C24
@ens
  dvs(r@) == old(self).tv().inputs, final(self).tv() == (STx { inputs: dvs(final(r)@), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait Inputs.inputs_offset
@props C04 C05
@req
  ready(self)
@ens
  r == in_off(self.tv())
@fn trait Inputs.inputs_offset_at
@props C04 C05
@req
  ready(self)
@ens
  r == in_at(self.tv(), idx as int)
@fn trait Inputs.inputs_predicate_offset_at
@props C04 C05
@req
  ready(self)
@ens
  r == pred_at(self.tv(), idx as int)
@fn Script.Inputs.inputs
@props C24
@fn Script.Inputs.inputs_mut
@props C24
@fn Script.Inputs.inputs_offset
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@fn Script.Inputs.inputs_offset_at
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().inputs, 0 <= i0 <= s0@.len(), idx < s0@.len(), t0 == idx, i0 <= t0, acc0 == elist(self.tv().inputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().inputs.take(0) =~= Seq::empty()); elist_mono(self.tv().inputs, idx as int); }
@ls 0
proof { elist_step(self.tv().inputs, i0 - 1); elist_mono(self.tv().inputs, i0 - 1); }
@fn Script.Inputs.inputs_predicate_offset_at
@props C04 C05
@pre
broadcast use {grp, lens, clone_pair}; proof { tx_lens(self.tv()); if idx < self.tv().inputs.len() { ipred_in(self.inputs@[idx as int]); elist_mono(self.tv().inputs, idx as int); } }
@fn Create.Inputs.inputs
@props C24
@fn Create.Inputs.inputs_mut
@props C24
@fn Create.Inputs.inputs_offset
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@fn Create.Inputs.inputs_offset_at
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().inputs, 0 <= i0 <= s0@.len(), idx < s0@.len(), t0 == idx, i0 <= t0, acc0 == elist(self.tv().inputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().inputs.take(0) =~= Seq::empty()); elist_mono(self.tv().inputs, idx as int); }
@ls 0
proof { elist_step(self.tv().inputs, i0 - 1); elist_mono(self.tv().inputs, i0 - 1); }
@fn Create.Inputs.inputs_predicate_offset_at
@props C04 C05
@pre
broadcast use {grp, lens, clone_pair}; proof { tx_lens(self.tv()); if idx < self.tv().inputs.len() { ipred_in(self.inputs@[idx as int]); elist_mono(self.tv().inputs, idx as int); } }
@super Outputs TxV
@fn trait Outputs.outputs
@props C24
@ens
  dvs(r@) == self.tv().outputs
@fn trait Outputs.outputs_mut
@props C24
@ens
  dvs(r@) == old(self).tv().outputs, final(self).tv() == (STx { outputs: dvs(final(r)@), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait Outputs.outputs_offset
@props C04 C05
@req
  ready(self)
@ens
  r == out_off(self.tv())
@fn trait Outputs.outputs_offset_at
@props C04 C05
@req
  ready(self)
@ens
  r == out_at(self.tv(), idx as int)
@fn Script.Outputs.outputs
@props C24
@fn Script.Outputs.outputs_mut
@props C24
@fn Script.Outputs.outputs_offset
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().inputs, 0 <= i0 <= s0@.len(), acc0 == elist(self.tv().inputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().inputs.take(0) =~= Seq::empty()); }
@ls 0
proof { elist_step(self.tv().inputs, i0 - 1); elist_mono(self.tv().inputs, i0 - 1); }
@la 0
proof { assert(self.tv().inputs.take(s0@.len() as int) =~= self.tv().inputs); }
@fn Script.Outputs.outputs_offset_at
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().outputs, 0 <= i0 <= s0@.len(), idx < s0@.len(), t0 == idx, i0 <= t0, acc0 == elist(self.tv().outputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().outputs.take(0) =~= Seq::empty()); elist_mono(self.tv().outputs, idx as int); }
@ls 0
proof { elist_step(self.tv().outputs, i0 - 1); elist_mono(self.tv().outputs, i0 - 1); }
@fn Create.Outputs.outputs
@props C24
@fn Create.Outputs.outputs_mut
@props C24
@fn Create.Outputs.outputs_offset
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().inputs, 0 <= i0 <= s0@.len(), acc0 == elist(self.tv().inputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().inputs.take(0) =~= Seq::empty()); }
@ls 0
proof { elist_step(self.tv().inputs, i0 - 1); elist_mono(self.tv().inputs, i0 - 1); }
@la 0
proof { assert(self.tv().inputs.take(s0@.len() as int) =~= self.tv().inputs); }
@fn Create.Outputs.outputs_offset_at
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().outputs, 0 <= i0 <= s0@.len(), idx < s0@.len(), t0 == idx, i0 <= t0, acc0 == elist(self.tv().outputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().outputs.take(0) =~= Seq::empty()); elist_mono(self.tv().outputs, idx as int); }
@ls 0
proof { elist_step(self.tv().outputs, i0 - 1); elist_mono(self.tv().outputs, i0 - 1); }
@fn Mint.Outputs.outputs
@props C24
@fn Mint.Outputs.outputs_mut
@props C24
@fn Mint.Outputs.outputs_offset
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@fn Mint.Outputs.outputs_offset_at
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().outputs, 0 <= i0 <= s0@.len(), idx < s0@.len(), t0 == idx, i0 <= t0, acc0 == elist(self.tv().outputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().outputs.take(0) =~= Seq::empty()); elist_mono(self.tv().outputs, idx as int); }
@ls 0
proof { elist_step(self.tv().outputs, i0 - 1); elist_mono(self.tv().outputs, i0 - 1); }
@super Witnesses TxV
@fn trait Witnesses.witnesses
@props C24
@ens
  dvs(r@) == self.tv().witnesses
@fn trait Witnesses.witnesses_mut
@props C24
@ens
  dvs(r@) == old(self).tv().witnesses, final(self).tv() == (STx { witnesses: dvs(final(r)@), ..old(self).tv() }), final(self).mv() == old(self).mv()
@fn trait Witnesses.witnesses_offset
@props C04 C05
@req
  ready(self)
@ens
  r == wit_off(self.tv())
@fn trait Witnesses.witnesses_offset_at
@props C04 C05
@req
  ready(self)
@ens
  r == wit_at(self.tv(), idx as int)
@fn Script.Witnesses.witnesses
@props C24
@fn Script.Witnesses.witnesses_mut
@props C24
@fn Script.Witnesses.witnesses_offset
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().outputs, 0 <= i0 <= s0@.len(), acc0 == elist(self.tv().outputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().outputs.take(0) =~= Seq::empty()); }
@ls 0
proof { elist_step(self.tv().outputs, i0 - 1); elist_mono(self.tv().outputs, i0 - 1); }
@la 0
proof { assert(self.tv().outputs.take(s0@.len() as int) =~= self.tv().outputs); }
@fn Script.Witnesses.witnesses_offset_at
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().witnesses, 0 <= i0 <= s0@.len(), idx < s0@.len(), t0 == idx, i0 <= t0, acc0 == elist(self.tv().witnesses.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().witnesses.take(0) =~= Seq::empty()); elist_mono(self.tv().witnesses, idx as int); }
@ls 0
proof { elist_step(self.tv().witnesses, i0 - 1); elist_mono(self.tv().witnesses, i0 - 1); }
@fn Create.Witnesses.witnesses
@props C24
@fn Create.Witnesses.witnesses_mut
@props C24
@fn Create.Witnesses.witnesses_offset
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().outputs, 0 <= i0 <= s0@.len(), acc0 == elist(self.tv().outputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().outputs.take(0) =~= Seq::empty()); }
@ls 0
proof { elist_step(self.tv().outputs, i0 - 1); elist_mono(self.tv().outputs, i0 - 1); }
@la 0
proof { assert(self.tv().outputs.take(s0@.len() as int) =~= self.tv().outputs); }
@fn Create.Witnesses.witnesses_offset_at
@props C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().witnesses, 0 <= i0 <= s0@.len(), idx < s0@.len(), t0 == idx, i0 <= t0, acc0 == elist(self.tv().witnesses.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().witnesses.take(0) =~= Seq::empty()); elist_mono(self.tv().witnesses, idx as int); }
@ls 0
proof { elist_step(self.tv().witnesses, i0 - 1); elist_mono(self.tv().witnesses, i0 - 1); }
@impl Script.SizedBytes
open spec fn sized_ok(&self) -> bool { ready(self) }
open spec fn sized(&self) -> int { tx_e(self.tv()).len() as int }
@fn Script.SizedBytes.serialized_size
@props C02 C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().witnesses, 0 <= i0 <= s0@.len(), acc0 == elist(self.tv().witnesses.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().witnesses.take(0) =~= Seq::empty()); }
@ls 0
proof { elist_step(self.tv().witnesses, i0 - 1); elist_mono(self.tv().witnesses, i0 - 1); }
@la 0
proof { assert(self.tv().witnesses.take(s0@.len() as int) =~= self.tv().witnesses); }
@impl Create.SizedBytes
open spec fn sized_ok(&self) -> bool { ready(self) }
open spec fn sized(&self) -> int { tx_e(self.tv()).len() as int }
@fn Create.SizedBytes.serialized_size
@props C02 C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().witnesses, 0 <= i0 <= s0@.len(), acc0 == elist(self.tv().witnesses.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().witnesses.take(0) =~= Seq::empty()); }
@ls 0
proof { elist_step(self.tv().witnesses, i0 - 1); elist_mono(self.tv().witnesses, i0 - 1); }
@la 0
proof { assert(self.tv().witnesses.take(s0@.len() as int) =~= self.tv().witnesses); }
@impl Mint.SizedBytes
open spec fn sized_ok(&self) -> bool { ready(self) }
open spec fn sized(&self) -> int { tx_e(self.tv()).len() as int }
@fn Mint.SizedBytes.serialized_size
@props C02 C04 C05
@pre
broadcast use {grp, lens}; proof { tx_lens(self.tv()); }
@loop 0
invariant ready(self), dvs(s0@) == self.tv().outputs, 0 <= i0 <= s0@.len(), acc0 == elist(self.tv().outputs.take(i0 as int)).len(), tx_e(self.tv()).len() == tx_len(self.tv()),
decreases s0@.len() - i0
@lb 0
proof { assert(self.tv().outputs.take(0) =~= Seq::empty()); }
@ls 0
proof { elist_step(self.tv().outputs, i0 - 1); elist_mono(self.tv().outputs, i0 - 1); }
@la 0
proof { assert(self.tv().outputs.take(s0@.len() as int) =~= self.tv().outputs); }
