@# Encoding and decoding of transactions.
@head
pub mod txcodec {
use vstd::prelude::*; use crate::vx::*;
/// One more element written.
pub proof fn put_step<W: Wire>(s: Seq<W>, k: int, f: Seq<u8>)
    requires 0 <= k < s.len()
    ensures elist(s.take(k)) + (s[k].e() + f) == elist(s.take(k + 1)) + f, elist(s.take(k + 1)).len() == elist(s.take(k)).len() + s[k].e().len(), elist(s.take(k + 1)).len() <= elist(s).len()
{ elist_step(s, k); elist_mono(s, k); assert(elist(s.take(k)) + (s[k].e() + f) =~= (elist(s.take(k)) + s[k].e()) + f); }
pub proof fn put_start<W: Wire>(s: Seq<W>, f: Seq<u8>) ensures f == elist(s.take(0)) + f, elist(s.take(0)).len() == 0 { assert(s.take(0) =~= Seq::empty()); assert(f =~= elist(s.take(0)) + f); }
pub broadcast proof fn total_b<W: Wire>(s: Seq<u8>, n: nat)
    ensures #[trigger] dlist::<W>(s, n) is Some ==> 8 * n <= (dlist::<W>(s, n)->0).1 <= s.len() && (dlist::<W>(s, n)->0).0.len() == n
{ total_list::<W>(s, n); }
pub proof fn put_end<W: Wire>(s: Seq<W>, k: int) requires k == s.len() ensures s.take(k) == s { assert(s.take(k) =~= s); }
}
@impl Mint.Read
type E = (STx, Option<MintMetadata>);
open spec fn ev(&self) -> Self::E { (self.tv(), self.mv()) }
open spec fn enc(&self) -> Seq<u8> { tx_e(self.tv()) }
open spec fn enc_size(&self) -> int { tx_e(self.tv()).len() as int }
open spec fn enc_ok(&self) -> bool { ready(self) }
@fn Mint.Read.read
@attr #[verifier::spinoff_prover]
@props C01 C02
@pre
broadcast use {grp, lens, cat_hd, cat_tl, sub_base};
let ghost p0 = buf; let ghost b0 = buf@; let ghost t = self.tv(); let ghost m0 = self.mv();
proof { base(b0); tx_lens(t); tx_ek(t, tl(b0, tx_len(t))); }
@hint iter_mut 0
@loop 0
invariant
    t == old(self).tv(), fits(t), it0.seq().len() == t.outputs.len(), b0.len() >= tx_len(t), t.kind == 2,
    forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == t.outputs[j],
    final(p0)@ == mint_k(t, (elist(t.outputs.take(it0.index@)) + final(buf)@)),
    buf@ == b0.subrange((32 + elist(t.outputs.take(it0.index@)).len()) as int, b0.len() as int),
    mark(b0),
@lb 0
proof { put_start(t.outputs, final(buf)@); }
@ls 0
proof { elist_mono(t.outputs, it0.index@); tx_lens(t); }
@le 0
proof { put_step(t.outputs, it0.index@, final(buf)@); }
@la 0
proof { put_end(t.outputs, t.outputs.len() as int); }
@post
proof { assert(dvs(self.outputs@) =~= t.outputs); }
@impl Script.Read
type E = (STx, Option<ScriptMetadata>);
open spec fn ev(&self) -> Self::E { (self.tv(), self.mv()) }
open spec fn enc(&self) -> Seq<u8> { tx_e(self.tv()) }
open spec fn enc_size(&self) -> int { tx_e(self.tv()).len() as int }
open spec fn enc_ok(&self) -> bool { ready(self) }
@fn Script.Read.read
@attr #[verifier::spinoff_prover]
@props C01 C02
@pre
broadcast use {grp, lens, cat_hd, cat_tl, sub_base};
let ghost p0 = buf; let ghost b0 = buf@; let ghost t = self.tv(); let ghost m0 = self.mv();
proof { base(b0); tx_lens(t); tx_ek(t, tl(b0, tx_len(t))); }
@loop 0
invariant
    t == old(self).tv(), fits(t), it0.seq().len() == t.inputs.len(), b0.len() >= tx_len(t), t.kind == 0,
    forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.inputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == t.inputs[j],
    final(p0)@ == script_k(t, (elist(t.inputs.take(it0.index@)) + final(buf)@)),
    buf@ == b0.subrange((in_off(t) + elist(t.inputs.take(it0.index@)).len()) as int, b0.len() as int),
    mark(b0),
@lb 0
proof { put_start(t.inputs, final(buf)@); }
@ls 0
proof { elist_mono(t.inputs, it0.index@); tx_lens(t); }
@le 0
proof { put_step(t.inputs, it0.index@, final(buf)@); }
@la 0
proof { put_end(t.inputs, t.inputs.len() as int); }
@loop 1
invariant
    t == old(self).tv(), fits(t), it1.seq().len() == t.outputs.len(), b0.len() >= tx_len(t), t.kind == 0, dvs(self.inputs@) == t.inputs,
    forall|j: int| 0 <= j < it1.seq().len() ==> (*it1.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == t.outputs[j],
    final(p0)@ == script_k(t, elist(t.inputs) + (elist(t.outputs.take(it1.index@)) + final(buf)@)),
    buf@ == b0.subrange((out_off(t) + elist(t.outputs.take(it1.index@)).len()) as int, b0.len() as int),
    mark(b0),
@lb 1
proof { assert(dvs(self.inputs@) =~= t.inputs); }
proof { put_start(t.outputs, final(buf)@); }
@ls 1
proof { elist_mono(t.outputs, it1.index@); tx_lens(t); }
@le 1
proof { put_step(t.outputs, it1.index@, final(buf)@); }
@la 1
proof { put_end(t.outputs, t.outputs.len() as int); }
@loop 2
invariant
    t == old(self).tv(), fits(t), it2.seq().len() == t.witnesses.len(), b0.len() >= tx_len(t), t.kind == 0, dvs(self.inputs@) == t.inputs, dvs(self.outputs@) == t.outputs,
    forall|j: int| 0 <= j < it2.seq().len() ==> (*it2.seq()[j]).dv() == t.witnesses[j],
    forall|j: int| 0 <= j < it2.index@ ==> (*final(it2.seq()[j])).dv() == t.witnesses[j],
    final(p0)@ == script_k(t, elist(t.inputs) + (elist(t.outputs) + (elist(t.witnesses.take(it2.index@)) + final(buf)@))),
    buf@ == b0.subrange((wit_off(t) + elist(t.witnesses.take(it2.index@)).len()) as int, b0.len() as int),
    mark(b0),
@lb 2
proof { assert(dvs(self.outputs@) =~= t.outputs); }
proof { put_start(t.witnesses, final(buf)@); }
@ls 2
proof { elist_mono(t.witnesses, it2.index@); tx_lens(t); }
@le 2
proof { put_step(t.witnesses, it2.index@, final(buf)@); }
@la 2
proof { put_end(t.witnesses, t.witnesses.len() as int); }
@post
proof { assert(dvs(self.witnesses@) =~= t.witnesses); }
@impl Create.Read
type E = (STx, Option<CommonMetadata>);
open spec fn ev(&self) -> Self::E { (self.tv(), self.mv()) }
open spec fn enc(&self) -> Seq<u8> { tx_e(self.tv()) }
open spec fn enc_size(&self) -> int { tx_e(self.tv()).len() as int }
open spec fn enc_ok(&self) -> bool { ready(self) }
@fn Create.Read.read
@hint isolate
@attr #[verifier::spinoff_prover]
@props C01 C02
@pre
broadcast use {grp, lens, cat_hd, cat_tl, sub_base};
let ghost p0 = buf; let ghost b0 = buf@; let ghost t = self.tv(); let ghost m0 = self.mv();
proof { base(b0); tx_lens(t); tx_ek(t, tl(b0, tx_len(t))); }
@loop 0
invariant
    t == old(self).tv(), fits(t), it0.seq().len() == t.slots.len(), b0.len() >= tx_len(t), t.kind == 1,
    forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.slots[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == t.slots[j],
    final(p0)@ == create_k(t, (elist(t.slots.take(it0.index@)) + final(buf)@)),
    buf@ == b0.subrange((112 + elist(t.slots.take(it0.index@)).len()) as int, b0.len() as int),
    mark(b0),
@lb 0
proof { put_start(t.slots, final(buf)@); }
@ls 0
proof { elist_mono(t.slots, it0.index@); tx_lens(t); }
@le 0
proof { put_step(t.slots, it0.index@, final(buf)@); }
@la 0
proof { slots_len(t.slots); }
proof { put_end(t.slots, t.slots.len() as int); }
@loop 1
invariant
    t == old(self).tv(), fits(t), it1.seq().len() == t.inputs.len(), b0.len() >= tx_len(t), t.kind == 1, dvs(self.storage_slots@) == t.slots,
    forall|j: int| 0 <= j < it1.seq().len() ==> (*it1.seq()[j]).dv() == t.inputs[j],
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == t.inputs[j],
    final(p0)@ == create_k(t, elist(t.slots) + (elist(t.inputs.take(it1.index@)) + final(buf)@)),
    buf@ == b0.subrange((in_off(t) + elist(t.inputs.take(it1.index@)).len()) as int, b0.len() as int),
    mark(b0),
@lb 1
proof { assert(dvs(self.storage_slots@) =~= t.slots); }
proof { put_start(t.inputs, final(buf)@); }
@ls 1
proof { elist_mono(t.inputs, it1.index@); tx_lens(t); }
@le 1
proof { put_step(t.inputs, it1.index@, final(buf)@); }
@la 1
proof { put_end(t.inputs, t.inputs.len() as int); }
@loop 2
invariant
    t == old(self).tv(), fits(t), it2.seq().len() == t.outputs.len(), b0.len() >= tx_len(t), t.kind == 1, dvs(self.storage_slots@) == t.slots, dvs(self.inputs@) == t.inputs,
    forall|j: int| 0 <= j < it2.seq().len() ==> (*it2.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it2.index@ ==> (*final(it2.seq()[j])).dv() == t.outputs[j],
    final(p0)@ == create_k(t, elist(t.slots) + (elist(t.inputs) + (elist(t.outputs.take(it2.index@)) + final(buf)@))),
    buf@ == b0.subrange((out_off(t) + elist(t.outputs.take(it2.index@)).len()) as int, b0.len() as int),
    mark(b0),
@lb 2
proof { assert(dvs(self.inputs@) =~= t.inputs); }
proof { put_start(t.outputs, final(buf)@); }
@ls 2
proof { elist_mono(t.outputs, it2.index@); tx_lens(t); }
@le 2
proof { put_step(t.outputs, it2.index@, final(buf)@); }
@la 2
proof { put_end(t.outputs, t.outputs.len() as int); }
@loop 3
invariant
    t == old(self).tv(), fits(t), it3.seq().len() == t.witnesses.len(), b0.len() >= tx_len(t), t.kind == 1, dvs(self.storage_slots@) == t.slots, dvs(self.inputs@) == t.inputs, dvs(self.outputs@) == t.outputs,
    forall|j: int| 0 <= j < it3.seq().len() ==> (*it3.seq()[j]).dv() == t.witnesses[j],
    forall|j: int| 0 <= j < it3.index@ ==> (*final(it3.seq()[j])).dv() == t.witnesses[j],
    final(p0)@ == create_k(t, elist(t.slots) + (elist(t.inputs) + (elist(t.outputs) + (elist(t.witnesses.take(it3.index@)) + final(buf)@)))),
    buf@ == b0.subrange((wit_off(t) + elist(t.witnesses.take(it3.index@)).len()) as int, b0.len() as int),
    mark(b0),
@lb 3
proof { assert(dvs(self.outputs@) =~= t.outputs); }
proof { put_start(t.witnesses, final(buf)@); }
@ls 3
proof { elist_mono(t.witnesses, it3.index@); tx_lens(t); }
@le 3
proof { put_step(t.witnesses, it3.index@, final(buf)@); }
@la 3
proof { put_end(t.witnesses, t.witnesses.len() as int); }
@post
proof { assert(dvs(self.witnesses@) =~= t.witnesses); }
@impl Mint.Write
type D = (STx, bool);
open spec fn dvw(&self) -> Self::D { (self.tv(), self.mv() is None) }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { match mint_d(buf) { None => None, Some((t, n)) => Some(((t, true), n)) } }
@fn Mint.Write.write
@attr #[verifier::spinoff_prover]
@attr #[verifier::loop_isolation(false)]
@props C01 C02 C03
@pre
broadcast use {grp, lens, total_b};
let ghost s0 = buf@;

@lb 0
assert(8 * outputs_len <= buf@.len());
let ghost l0 = buf@; let ghost c0 = outputs_len as nat; let ghost n00 = n; let ghost mut u0: int = 0; let ghost mut d0: Seq<SOutput> = Seq::empty();
proof { dl_start::<SOutput>(l0, c0); }
@loop 0
invariant
    it0.seq().len() == c0, d0.len() == it0.index@, dl_inv::<SOutput>(l0, c0, d0, buf@, u0), n == n00 + u0, n00 + l0.len() <= isize::MAX, 
    dlist::<SOutput>(l0, c0) is None ==> mint_d(s0) is None,
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == d0[j],
@ls 0
let ghost b0 = buf@;
proof { SOutput::total(buf@); if SOutput::d(buf@) is None { dl_fail::<SOutput>(l0, c0, d0, buf@, u0); } }
@le 0
proof { let x = SOutput::d(b0)->0; dl_step::<SOutput>(l0, c0, d0, b0, u0); d0 = d0.push(x.0); u0 = u0 + x.1; }
@la 0
proof { dl_end::<SOutput>(l0, c0, d0, buf@, u0); assert(dvs(outputs@) =~= d0); }
@fn Mint.Write.flush
@props C01
@attr #[verifier::loop_isolation(false)]
@pre
let ghost t = self.tv();
@loop 0
invariant
    it0.seq().len() == t.outputs.len(),
    forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == t.outputs[j],
@la 0
proof { assert(dvs(self.outputs@) =~= t.outputs); }
@impl Script.Write
type D = (STx, bool);
open spec fn dvw(&self) -> Self::D { (self.tv(), self.mv() is None) }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { match script_d(buf) { None => None, Some((t, n)) => Some(((t, true), n)) } }
@fn Script.Write.write
@attr #[verifier::spinoff_prover]
@attr #[verifier::loop_isolation(false)]
@props C01 C02 C03
@pre
broadcast use {grp, lens, total_b};
let ghost s0 = buf@;

@lb 0
assert(8 * inputs_len <= buf@.len());
let ghost l0 = buf@; let ghost c0 = inputs_len as nat; let ghost n00 = n; let ghost mut u0: int = 0; let ghost mut d0: Seq<SInput> = Seq::empty();
proof { dl_start::<SInput>(l0, c0); }
@loop 0
invariant
    it0.seq().len() == c0, d0.len() == it0.index@, dl_inv::<SInput>(l0, c0, d0, buf@, u0), n == n00 + u0, n00 + l0.len() <= isize::MAX, 
    dlist::<SInput>(l0, c0) is None ==> script_d(s0) is None,
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == d0[j],
@ls 0
let ghost b0 = buf@;
proof { SInput::total(buf@); if SInput::d(buf@) is None { dl_fail::<SInput>(l0, c0, d0, buf@, u0); } }
@le 0
proof { let x = SInput::d(b0)->0; dl_step::<SInput>(l0, c0, d0, b0, u0); d0 = d0.push(x.0); u0 = u0 + x.1; }
@la 0
proof { dl_end::<SInput>(l0, c0, d0, buf@, u0); assert(dvs(inputs@) =~= d0); }
@lb 1
assert(8 * outputs_len <= buf@.len());
let ghost l1 = buf@; let ghost c1 = outputs_len as nat; let ghost n01 = n; let ghost mut u1: int = 0; let ghost mut d1: Seq<SOutput> = Seq::empty();
proof { dl_start::<SOutput>(l1, c1); }
@loop 1
invariant
    it1.seq().len() == c1, d1.len() == it1.index@, dl_inv::<SOutput>(l1, c1, d1, buf@, u1), n == n01 + u1, n01 + l1.len() <= isize::MAX, 
    dlist::<SOutput>(l1, c1) is None ==> script_d(s0) is None,
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == d1[j],
@ls 1
let ghost b1 = buf@;
proof { SOutput::total(buf@); if SOutput::d(buf@) is None { dl_fail::<SOutput>(l1, c1, d1, buf@, u1); } }
@le 1
proof { let x = SOutput::d(b1)->0; dl_step::<SOutput>(l1, c1, d1, b1, u1); d1 = d1.push(x.0); u1 = u1 + x.1; }
@la 1
proof { dl_end::<SOutput>(l1, c1, d1, buf@, u1); assert(dvs(outputs@) =~= d1); }
@lb 2
assert(8 * witnesses_len <= buf@.len());
let ghost l2 = buf@; let ghost c2 = witnesses_len as nat; let ghost n02 = n; let ghost mut u2: int = 0; let ghost mut d2: Seq<SWit> = Seq::empty();
proof { dl_start::<SWit>(l2, c2); }
@loop 2
invariant
    it2.seq().len() == c2, d2.len() == it2.index@, dl_inv::<SWit>(l2, c2, d2, buf@, u2), n == n02 + u2, n02 + l2.len() <= isize::MAX, 
    dlist::<SWit>(l2, c2) is None ==> script_d(s0) is None,
    forall|j: int| 0 <= j < it2.index@ ==> (*final(it2.seq()[j])).dv() == d2[j],
@ls 2
let ghost b2 = buf@;
proof { SWit::total(buf@); if SWit::d(buf@) is None { dl_fail::<SWit>(l2, c2, d2, buf@, u2); } }
@le 2
proof { let x = SWit::d(b2)->0; dl_step::<SWit>(l2, c2, d2, b2, u2); d2 = d2.push(x.0); u2 = u2 + x.1; }
@la 2
proof { dl_end::<SWit>(l2, c2, d2, buf@, u2); assert(dvs(witnesses@) =~= d2); }
@fn Script.Write.flush
@props C01
@attr #[verifier::loop_isolation(false)]
@pre
let ghost t = self.tv();
@loop 0
invariant
    it0.seq().len() == t.inputs.len(),
    forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.inputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == t.inputs[j],
@la 0
proof { assert(dvs(self.inputs@) =~= t.inputs); }
@loop 1
invariant
    it1.seq().len() == t.outputs.len(),
    forall|j: int| 0 <= j < it1.seq().len() ==> (*it1.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == t.outputs[j],
@la 1
proof { assert(dvs(self.outputs@) =~= t.outputs); }
@loop 2
invariant
    it2.seq().len() == t.witnesses.len(),
    forall|j: int| 0 <= j < it2.seq().len() ==> (*it2.seq()[j]).dv() == t.witnesses[j],
    forall|j: int| 0 <= j < it2.index@ ==> (*final(it2.seq()[j])).dv() == t.witnesses[j],
@la 2
proof { assert(dvs(self.witnesses@) =~= t.witnesses); }
@impl Create.Write
type D = (STx, bool);
open spec fn dvw(&self) -> Self::D { (self.tv(), self.mv() is None) }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { match create_d(buf) { None => None, Some((t, n)) => Some(((t, true), n)) } }
@fn Create.Write.write
@attr #[verifier::spinoff_prover]
@attr #[verifier::loop_isolation(false)]
@props C01 C02 C03
@pre
broadcast use {grp, lens, total_b};
let ghost s0 = buf@;

@lb 0

let ghost l0 = buf@; let ghost c0 = storage_slots_len as nat; let ghost n00 = n; let ghost mut u0: int = 0; let ghost mut d0: Seq<SSlot> = Seq::empty();
proof { dl_start::<SSlot>(l0, c0); }
@loop 0
invariant
    it0.seq().len() == c0, d0.len() == it0.index@, dl_inv::<SSlot>(l0, c0, d0, buf@, u0),   
    dlist::<SSlot>(l0, c0) is None ==> create_d(s0) is None,
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == d0[j],
@ls 0
let ghost b0 = buf@;
proof { SSlot::total(buf@); if SSlot::d(buf@) is None { dl_fail::<SSlot>(l0, c0, d0, buf@, u0); } }
@le 0
proof { let x = SSlot::d(b0)->0; dl_step::<SSlot>(l0, c0, d0, b0, u0); d0 = d0.push(x.0); u0 = u0 + x.1; }
@la 0
proof { dlist_slots(l0, c0); dl_end::<SSlot>(l0, c0, d0, buf@, u0); assert(dvs(storage_slots@) =~= d0); }
@lb 1
assert(8 * inputs_len <= buf@.len());
let ghost l1 = buf@; let ghost c1 = inputs_len as nat; let ghost n01 = n; let ghost mut u1: int = 0; let ghost mut d1: Seq<SInput> = Seq::empty();
proof { dl_start::<SInput>(l1, c1); }
@loop 1
invariant
    it1.seq().len() == c1, d1.len() == it1.index@, dl_inv::<SInput>(l1, c1, d1, buf@, u1), n == n01 + u1, n01 + l1.len() <= isize::MAX, 
    dlist::<SInput>(l1, c1) is None ==> create_d(s0) is None,
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == d1[j],
@ls 1
let ghost b1 = buf@;
proof { SInput::total(buf@); if SInput::d(buf@) is None { dl_fail::<SInput>(l1, c1, d1, buf@, u1); } }
@le 1
proof { let x = SInput::d(b1)->0; dl_step::<SInput>(l1, c1, d1, b1, u1); d1 = d1.push(x.0); u1 = u1 + x.1; }
@la 1
proof { dl_end::<SInput>(l1, c1, d1, buf@, u1); assert(dvs(inputs@) =~= d1); }
@lb 2
assert(8 * outputs_len <= buf@.len());
let ghost l2 = buf@; let ghost c2 = outputs_len as nat; let ghost n02 = n; let ghost mut u2: int = 0; let ghost mut d2: Seq<SOutput> = Seq::empty();
proof { dl_start::<SOutput>(l2, c2); }
@loop 2
invariant
    it2.seq().len() == c2, d2.len() == it2.index@, dl_inv::<SOutput>(l2, c2, d2, buf@, u2), n == n02 + u2, n02 + l2.len() <= isize::MAX, 
    dlist::<SOutput>(l2, c2) is None ==> create_d(s0) is None,
    forall|j: int| 0 <= j < it2.index@ ==> (*final(it2.seq()[j])).dv() == d2[j],
@ls 2
let ghost b2 = buf@;
proof { SOutput::total(buf@); if SOutput::d(buf@) is None { dl_fail::<SOutput>(l2, c2, d2, buf@, u2); } }
@le 2
proof { let x = SOutput::d(b2)->0; dl_step::<SOutput>(l2, c2, d2, b2, u2); d2 = d2.push(x.0); u2 = u2 + x.1; }
@la 2
proof { dl_end::<SOutput>(l2, c2, d2, buf@, u2); assert(dvs(outputs@) =~= d2); }
@lb 3
assert(8 * witnesses_len <= buf@.len());
let ghost l3 = buf@; let ghost c3 = witnesses_len as nat; let ghost n03 = n; let ghost mut u3: int = 0; let ghost mut d3: Seq<SWit> = Seq::empty();
proof { dl_start::<SWit>(l3, c3); }
@loop 3
invariant
    it3.seq().len() == c3, d3.len() == it3.index@, dl_inv::<SWit>(l3, c3, d3, buf@, u3), n == n03 + u3, n03 + l3.len() <= isize::MAX, 
    dlist::<SWit>(l3, c3) is None ==> create_d(s0) is None,
    forall|j: int| 0 <= j < it3.index@ ==> (*final(it3.seq()[j])).dv() == d3[j],
@ls 3
let ghost b3 = buf@;
proof { SWit::total(buf@); if SWit::d(buf@) is None { dl_fail::<SWit>(l3, c3, d3, buf@, u3); } }
@le 3
proof { let x = SWit::d(b3)->0; dl_step::<SWit>(l3, c3, d3, b3, u3); d3 = d3.push(x.0); u3 = u3 + x.1; }
@la 3
proof { dl_end::<SWit>(l3, c3, d3, buf@, u3); assert(dvs(witnesses@) =~= d3); }
@fn Create.Write.flush
@props C01
@attr #[verifier::loop_isolation(false)]
@pre
let ghost t = self.tv();
@loop 0
invariant
    it0.seq().len() == t.inputs.len(),
    forall|j: int| 0 <= j < it0.seq().len() ==> (*it0.seq()[j]).dv() == t.inputs[j],
    forall|j: int| 0 <= j < it0.index@ ==> (*final(it0.seq()[j])).dv() == t.inputs[j],
@la 0
proof { assert(dvs(self.inputs@) =~= t.inputs); }
@loop 1
invariant
    it1.seq().len() == t.outputs.len(),
    forall|j: int| 0 <= j < it1.seq().len() ==> (*it1.seq()[j]).dv() == t.outputs[j],
    forall|j: int| 0 <= j < it1.index@ ==> (*final(it1.seq()[j])).dv() == t.outputs[j],
@la 1
proof { assert(dvs(self.outputs@) =~= t.outputs); }
@loop 2
invariant
    it2.seq().len() == t.witnesses.len(),
    forall|j: int| 0 <= j < it2.seq().len() ==> (*it2.seq()[j]).dv() == t.witnesses[j],
    forall|j: int| 0 <= j < it2.index@ ==> (*final(it2.seq()[j])).dv() == t.witnesses[j],
@la 2
proof { assert(dvs(self.witnesses@) =~= t.witnesses); }
@loop 3
invariant
    it3.seq().len() == t.slots.len(),
    forall|j: int| 0 <= j < it3.seq().len() ==> (*it3.seq()[j]).dv() == t.slots[j],
    forall|j: int| 0 <= j < it3.index@ ==> (*final(it3.seq()[j])).dv() == t.slots[j],
@la 3
proof { assert(dvs(self.storage_slots@) =~= t.slots); }
