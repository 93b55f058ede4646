@# Transactions of any kind, their identifiers, and what is cached about them.
@head
pub mod txid_spec {
use vstd::prelude::*; use crate::vx::*;
use crate::transaction::types::*;
use crate::transaction::*;
use crate::transaction::metadata::CommonMetadata;
use crate::transaction::types::script::ScriptMetadata;
use crate::transaction::types::mint::MintMetadata;
/// What is cached about a transaction of any kind.
pub enum TxM { S(Option<ScriptMetadata>), C(Option<CommonMetadata>), M(Option<MintMetadata>) }
pub open spec fn txm_none(m: TxM) -> bool { match m { TxM::S(x) => x is None, TxM::C(x) => x is None, TxM::M(x) => x is None } }
impl TxV for Transaction {
    type M = TxM;
    open spec fn tv(&self) -> STx { match *self { Transaction::Script(x) => x.tv(), Transaction::Create(x) => x.tv(), Transaction::Mint(x) => x.tv() } }
    open spec fn mv(&self) -> TxM { match *self { Transaction::Script(x) => TxM::S(x.metadata), Transaction::Create(x) => TxM::C(x.metadata), Transaction::Mint(x) => TxM::M(x.metadata) } }
    open spec fn m_none(m: TxM) -> bool { txm_none(m) }
    open spec fn m_ok(t: STx, m: TxM) -> bool { match m { TxM::S(m) => Script::m_ok(t, m), TxM::C(m) => Create::m_ok(t, m), TxM::M(m) => Mint::m_ok(t, m) } }
    proof fn m_law(t: STx, m: Self::M) {}
    proof fn shape(&self) { match *self { Transaction::Script(x) => x.shape(), Transaction::Create(x) => x.shape(), Transaction::Mint(x) => x.shape() } }
}
impl FromSpecImpl<Script> for Transaction { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Script) -> Self { Transaction::Script(a) } }
impl FromSpecImpl<Create> for Transaction { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Create) -> Self { Transaction::Create(a) } }
impl FromSpecImpl<Mint> for Transaction { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Mint) -> Self { Transaction::Mint(a) } }
impl FromSpecImpl<&Transaction> for TransactionRepr { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(a: &Transaction) -> Self; }
impl TryFromSpecImpl<u64> for TransactionRepr { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(a: u64) -> core::result::Result<Self, crate::io::Error>; }
impl PartialEqSpecImpl for TransactionRepr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }
/// Stripping what is not signed makes nothing longer.
pub proof fn strip_list_i(s: Seq<SInput>) requires cwf(s) ensures elist(s.map_values(|i: SInput| iprep(i))).len() == elist(s).len(), cwf(s.map_values(|i: SInput| iprep(i))) decreases s.len()
{
    broadcast use lens;
    if s.len() > 0 { let m = s.map_values(|i: SInput| iprep(i)); let d = s.drop_first(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == s[i + 1] by {} assert(s[0].wf() || true); strip_list_i(s.drop_first()); assert(m.drop_first() =~= s.drop_first().map_values(|i: SInput| iprep(i))); assert(m[0] == iprep(s[0])); }
}
pub proof fn oprep_one(o: SOutput) requires o.wf() ensures oprep(o).wf(), oprep(o).e().len() == o.e().len() { broadcast use lens; }
pub proof fn strip_list_o(s: Seq<SOutput>) requires wfs(s) ensures elist(s.map_values(|i: SOutput| oprep(i))).len() == elist(s).len(), wfs(s.map_values(|i: SOutput| oprep(i))) decreases s.len()
{
    let m = s.map_values(|i: SOutput| oprep(i));
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i].wf() by { assert(s[i].wf()); oprep_one(s[i]); }
    if s.len() > 0 {
        let d = s.drop_first(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i].wf() by { assert(s[i + 1].wf()); }
        assert(s[0].wf()); oprep_one(s[0]);
        strip_list_o(d);
        assert(m.drop_first() =~= d.map_values(|i: SOutput| oprep(i))); assert(m[0] == oprep(s[0]));
        assert(elist(m) == m[0].e() + elist(m.drop_first())); assert(elist(s) == s[0].e() + elist(d));
    }
}
pub proof fn strip_fits(t: STx) requires fits(t) ensures fits(strip(t)), tx_shape(strip(t))
{
    tx_lens(t);
    if t.kind != 2 { strip_list_i(t.inputs); strip_list_o(t.outputs); assert(elist(Seq::<SWit>::empty()).len() == 0); }
    tx_lens(strip(t));
}
pub open spec fn same_common(a: CommonMetadata, b: CommonMetadata) -> bool {
    &&& a.id == b.id && a.inputs_offset == b.inputs_offset && a.outputs_offset == b.outputs_offset && a.witnesses_offset == b.witnesses_offset
    &&& a.inputs_offset_at@ == b.inputs_offset_at@ && a.inputs_predicate_offset_at@ == b.inputs_predicate_offset_at@ && a.outputs_offset_at@ == b.outputs_offset_at@ && a.witnesses_offset_at@ == b.witnesses_offset_at@
}
}
@fn Transaction.From<Script>.from
@props C01 C22
@ens
  r == Transaction::Script(script)
@fn Transaction.From<Create>.from
@props C01 C22
@ens
  r == Transaction::Create(create)
@fn Transaction.From<Mint>.from
@props C01 C22
@ens
  r == Transaction::Mint(mint)
@fn Transaction.Default.default
@props C01
@fn Transaction.script
@props C22 C24
@ens
  r.tv() == script_tx(gas_price, gas_limit, maturity, script@, script_data@, zeros(32), dvs(inputs@), dvs(outputs@), dvs(witnesses@)), r.metadata is None
@fn Transaction.create
@props C10 C22 C24
@ens
  r.tv() == create_tx(gas_price, gas_limit, maturity, if (bytecode_witness_index as int) < witnesses@.len() { (witnesses@[bytecode_witness_index as int].data@.len() / 4) as u64 } else { 0 }, bytecode_witness_index, dvs(storage_slots@), salt@, dvs(inputs@), dvs(outputs@), dvs(witnesses@)), r.metadata is None
@fn Transaction.mint
@props C11 C22 C24
@ens
  r.tv() == mint_tx(tx_pointer, dvs(outputs@)), r.metadata is None

@fn Transaction.is_script
@props C24
@ens
  r == (*self is Script)
@fn Transaction.as_script
@props C24
@ens
  r is Some <==> *self is Script, r is Some ==> *self == Transaction::Script(*r->0)
@fn Transaction.as_script_mut
@props C24
@ens
  r is Some <==> *old(self) is Script, r is Some ==> *old(self) == Transaction::Script(*r->0) && *final(self) == Transaction::Script(*final(r->0)), r is None ==> *final(self) == *old(self)
@fn Transaction.is_create
@props C24
@ens
  r == (*self is Create)
@fn Transaction.as_create
@props C24
@ens
  r is Some <==> *self is Create, r is Some ==> *self == Transaction::Create(*r->0)
@fn Transaction.as_create_mut
@props C24
@ens
  r is Some <==> *old(self) is Create, r is Some ==> *old(self) == Transaction::Create(*r->0) && *final(self) == Transaction::Create(*final(r->0)), r is None ==> *final(self) == *old(self)
@fn Transaction.is_mint
@props C24
@ens
  r == (*self is Mint)
@fn Transaction.as_mint
@props C24
@ens
  r is Some <==> *self is Mint, r is Some ==> *self == Transaction::Mint(*r->0)
@fn Transaction.as_mint_mut
@props C24
@ens
  r is Some <==> *old(self) is Mint, r is Some ==> *old(self) == Transaction::Mint(*r->0) && *final(self) == Transaction::Mint(*final(r->0)), r is None ==> *final(self) == *old(self)
@impl Transaction.SizedBytes
open spec fn sized_ok(&self) -> bool { ready(self) }
open spec fn sized(&self) -> int { tx_e(self.tv()).len() as int }
@fn Transaction.SizedBytes.serialized_size
@props C02
@impl Transaction.Read
type E = (STx, TxM);
open spec fn ev(&self) -> Self::E { (self.tv(), self.mv()) }
open spec fn enc(&self) -> Seq<u8> { tx_e(self.tv()) }
open spec fn enc_size(&self) -> int { tx_e(self.tv()).len() as int }
open spec fn enc_ok(&self) -> bool { ready(self) }
@fn Transaction.Read.read
@props C01 C02
@impl Transaction.Write
type D = (STx, bool);
open spec fn dvw(&self) -> Self::D { (self.tv(), txm_none(self.mv())) }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { match tx_d(buf) { None => None, Some((t, n)) => Some(((t, true), n)) } }
@fn Transaction.Write.flush
@props C01
@fn Transaction.Write.write
@props C01 C02 C03
@pre
broadcast use {grp, lens};
@fn Transaction.try_from_bytes
@props C01 C02 C03
@ens
  tx_d(bytes@) is Some ==> r is Ok && r->Ok_0.0 == (tx_d(bytes@)->0).1 && r->Ok_0.1.tv() == (tx_d(bytes@)->0).0 && txm_none(r->Ok_0.1.mv()), tx_d(bytes@) is None ==> r is Err
@derive CommonMetadata Clone
@fn CommonMetadata.Clone.clone
@props C05 C16
@ens
  same_common(r, *self)
@pre
broadcast use cloned_pair;
@post
proof {
    assert(__out.inputs_offset_at@ =~= self.inputs_offset_at@); assert(__out.outputs_offset_at@ =~= self.outputs_offset_at@); assert(__out.witnesses_offset_at@ =~= self.witnesses_offset_at@);
    assert(__out.inputs_predicate_offset_at@ =~= self.inputs_predicate_offset_at@);
}
@derive ScriptMetadata Clone
@fn ScriptMetadata.Clone.clone
@props C05 C16
@ens
  same_common(r.common, self.common), r.script_data_offset == self.script_data_offset
@derive MintMetadata Clone
@fn MintMetadata.Clone.clone
@props C05 C16
@ens
  r.id == self.id, r.outputs_offset == self.outputs_offset, r.outputs_offset_at@ == self.outputs_offset_at@
@derive Script Clone Default
@fn Script.Clone.clone
@props C05 C06 C16
@ens
  r.tv() == self.tv(), self.metadata is None ==> r.metadata is None, Script::m_ok(self.tv(), self.mv()) ==> Script::m_ok(r.tv(), r.mv())
@derive Create Clone Default
@fn Create.Clone.clone
@props C05 C06 C16
@ens
  r.tv() == self.tv(), self.metadata is None ==> r.metadata is None, Create::m_ok(self.tv(), self.mv()) ==> Create::m_ok(r.tv(), r.mv())
@derive Mint Clone Default
@fn Mint.Clone.clone
@props C05 C06 C16
@ens
  r.tv() == self.tv(), self.metadata is None ==> r.metadata is None, Mint::m_ok(self.tv(), self.mv()) ==> Mint::m_ok(r.tv(), r.mv())
@super UniqueIdentifier TxV
@fn trait UniqueIdentifier.id
@props C05 C06
@req
  ready(self)
@ens
  r@ == txid(self.tv())
@fn Script.UniqueIdentifier.id
@props C05 C06
@pre
broadcast use {grp, lens};
let ghost t = self.tv();
proof { strip_fits(t); }
@loop 0
invariant
    it0.seq().len() == t.inputs.len(), forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.inputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == iprep(t.inputs[j]),
@loop 1
invariant
    it1.seq().len() == t.outputs.len(), forall|j: int| 0 <= j < it1.seq().len() ==> (*it1.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == oprep(t.outputs[j]),
@la 1
proof { assert(clone.tv().inputs =~= strip(t).inputs); assert(clone.tv().outputs =~= strip(t).outputs); }
@fn Create.UniqueIdentifier.id
@props C05 C06
@pre
broadcast use {grp, lens};
let ghost t = self.tv();
proof { strip_fits(t); }
@loop 0
invariant
    it0.seq().len() == t.inputs.len(), forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.inputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == iprep(t.inputs[j]),
@loop 1
invariant
    it1.seq().len() == t.outputs.len(), forall|j: int| 0 <= j < it1.seq().len() ==> (*it1.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == oprep(t.outputs[j]),
@la 1
proof { assert(clone.tv().inputs =~= strip(t).inputs); assert(clone.tv().outputs =~= strip(t).outputs); }
@fn Mint.UniqueIdentifier.id
@props C05 C06
@pre
broadcast use {grp, lens};
let ghost t = self.tv();
proof { strip_fits(t); }
@fn Transaction.UniqueIdentifier.id
@props C05 C06
@super Cacheable TxV
@fn trait Cacheable.is_computed
@props C05
@ens
  r == !Self::m_none(self.mv())
@fn trait Cacheable.precompute
@props C05 C06
@req
  fits(old(self).tv())
@ens
  final(self).tv() == old(self).tv(), !Self::m_none(final(self).mv()), Self::m_ok(final(self).tv(), final(self).mv())
@fn CommonMetadata.compute
@props C05 C06
@req
  ready(tx), tx.tv().kind != 2
@ens
  common_ok(tx.tv(), r)
@pre
broadcast use {grp, lens};
let ghost t = tx.tv(); proof { tx_lens(t); tx.shape(); }
@loop 0
invariant
    ready(tx), t == tx.tv(), dvs(s0@) == t.inputs, 0 <= i0 <= s0@.len(), acc0@.len() == i0,
    forall|j: int| 0 <= j < i0 ==> (#[trigger] acc0@[j]) == pred_at(t, j),
decreases s0@.len() - i0
@loop 1
invariant
    ready(tx), t == tx.tv(), t.kind != 2, tx_shape(t), tx_e(t).len() == tx_len(t), tx_len(t) <= isize::MAX, dvs(s1@) == t.inputs, 0 <= i1 <= s1@.len(), acc1@.len() == i1, offset == in_off(t) + elist(t.inputs.take(i1 as int)).len(), in_off(t) + elist(t.inputs).len() <= tx_len(t),
    forall|j: int| 0 <= j < i1 ==> Some(#[trigger] acc1@[j]) == in_at(t, j),
decreases s1@.len() - i1
@lb 1
proof { assert(t.inputs.take(0) =~= Seq::empty()); }
@ls 1
proof { elist_step(t.inputs, i1 - 1); elist_mono(t.inputs, i1 - 1); elist_mono(t.inputs, i1 as int); }
@la 1
proof { assert(t.inputs.take(s1@.len() as int) =~= t.inputs); }
@loop 2
invariant
    ready(tx), t == tx.tv(), t.kind != 2, tx_shape(t), tx_e(t).len() == tx_len(t), tx_len(t) <= isize::MAX, dvs(s2@) == t.outputs, 0 <= i2 <= s2@.len(), acc2@.len() == i2, offset == out_off(t) + elist(t.outputs.take(i2 as int)).len(), out_off(t) + elist(t.outputs).len() <= tx_len(t),
    forall|j: int| 0 <= j < i2 ==> Some(#[trigger] acc2@[j]) == out_at(t, j),
decreases s2@.len() - i2
@lb 2
proof { assert(t.outputs.take(0) =~= Seq::empty()); }
@ls 2
proof { elist_step(t.outputs, i2 - 1); elist_mono(t.outputs, i2 - 1); elist_mono(t.outputs, i2 as int); }
@la 2
proof { assert(t.outputs.take(s2@.len() as int) =~= t.outputs); }
@loop 3
invariant
    ready(tx), t == tx.tv(), t.kind != 2, tx_shape(t), tx_e(t).len() == tx_len(t), tx_len(t) <= isize::MAX, dvs(s3@) == t.witnesses, 0 <= i3 <= s3@.len(), acc3@.len() == i3, offset == wit_off(t) + elist(t.witnesses.take(i3 as int)).len(), wit_off(t) + elist(t.witnesses).len() <= tx_len(t),
    forall|j: int| 0 <= j < i3 ==> Some(#[trigger] acc3@[j]) == wit_at(t, j),
decreases s3@.len() - i3
@lb 3
proof { assert(t.witnesses.take(0) =~= Seq::empty()); }
@ls 3
proof { elist_step(t.witnesses, i3 - 1); elist_mono(t.witnesses, i3 - 1); elist_mono(t.witnesses, i3 as int); }
@la 3
proof { assert(t.witnesses.take(s3@.len() as int) =~= t.witnesses); }
@fn MintMetadata.compute
@props C05 C06
@req
  ready(tx)
@ens
  Mint::m_ok(tx.tv(), Some(r))
@pre
broadcast use {grp, lens};
let ghost t = tx.tv(); proof { tx_lens(t); tx.shape(); }
@loop 0
invariant
    ready(tx), t == tx.tv(), tx_shape(t), tx_e(t).len() == tx_len(t), tx_len(t) <= isize::MAX, dvs(s0@) == t.outputs, 0 <= i0 <= s0@.len(), acc0@.len() == i0, offset == out_off(t) + elist(t.outputs.take(i0 as int)).len(), out_off(t) + elist(t.outputs).len() <= tx_len(t),
    forall|j: int| 0 <= j < i0 ==> Some(#[trigger] acc0@[j]) == out_at(t, j),
decreases s0@.len() - i0
@lb 0
proof { assert(t.outputs.take(0) =~= Seq::empty()); }
@ls 0
proof { elist_step(t.outputs, i0 - 1); elist_mono(t.outputs, i0 - 1); elist_mono(t.outputs, i0 as int); }
@la 0
proof { assert(t.outputs.take(s0@.len() as int) =~= t.outputs); }
@fn Script.Cacheable.is_computed
@props C05
@fn Script.Cacheable.precompute
@props C05
@fn Create.Cacheable.is_computed
@props C05
@fn Create.Cacheable.precompute
@props C05
@fn Mint.Cacheable.is_computed
@props C05
@fn Mint.Cacheable.precompute
@props C05
@fn Transaction.Cacheable.is_computed
@props C05
@fn Transaction.Cacheable.precompute
@props C05
@fn Script.Default.default
@props C22
@fn Create.Default.default
@props C22
@fn Mint.Default.default
@props C22
