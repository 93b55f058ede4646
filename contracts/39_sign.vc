@# Signing.
@head
pub mod ssign {
use vstd::prelude::*; use crate::vx::*; use crate::transaction::types::*; use crate::fuel_crypto::*;
use crate::transaction::*;
/// The witness that an input of that owner is signed with.
pub open spec fn slot_of(i: SInput, owner: Seq<u8>) -> Option<usize> {
    match i {
        SInput::CoinSigned { owner: o, witness_index, .. } => if o == owner { Some(witness_index as usize) } else { None },
        SInput::MessageSigned { recipient, witness_index, .. } => if recipient == owner { Some(witness_index as usize) } else { None },
        _ => None,
    }
}
pub open spec fn f_slot(owner: Seq<u8>) -> spec_fn(SInput) -> Option<usize> { |i: SInput| slot_of(i, owner) }
pub open spec fn slots_of(s: Seq<SInput>, owner: Seq<u8>) -> Seq<usize> { fm(s, f_slot(owner)) }
pub open spec fn slot_is(i: SInput, owner: Seq<u8>, k: int) -> bool { slot_of(i, owner) is Some && slot_of(i, owner)->0 as int == k }
pub open spec fn refers(s: Seq<SInput>, owner: Seq<u8>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && slot_is(#[trigger] s[i], owner, k) }
/// The transaction with the key's witnesses signed.
pub open spec fn signed(t: STx, k: SecretKey) -> STx {
    let o = pk_hash(pk_of(k));
    STx { witnesses: Seq::new(t.witnesses.len(), |j: int| if refers(t.inputs, o, j) { SWit { data: sign_spec(k, txid(t)) } } else { t.witnesses[j] }), ..t }
}
pub proof fn slots_refer(s: Seq<SInput>, owner: Seq<u8>)
    ensures forall|w: usize| #[trigger] slots_of(s, owner).contains(w) == refers(s, owner, w as int)
    decreases s.len()
{
    let q = slots_of(s, owner);
    if s.len() > 0 {
        let n = s.len() - 1;
        let d = s.drop_last();
        assert(s.take(n + 1) =~= s && s.take(n) =~= d);
        fm_step(s, f_slot(owner), n);
        slots_refer(d, owner);
        let p = slots_of(d, owner);
        assert forall|w: usize| #[trigger] q.contains(w) == refers(s, owner, w as int) by {
            if q.contains(w) { let j = choose|j: int| 0 <= j < q.len() && q[j] == w; if j < p.len() { assert(p[j] == w); assert(p.contains(w)); assert(refers(d, owner, w as int)); let i = choose|i: int| 0 <= i < d.len() && slot_is(#[trigger] d[i], owner, w as int); assert(slot_is(s[i], owner, w as int)); } else { assert(slot_is(s[n], owner, w as int)); } }
            if refers(s, owner, w as int) { let i = choose|i: int| 0 <= i < s.len() && slot_is(#[trigger] s[i], owner, w as int); if i < n { assert(slot_is(d[i], owner, w as int)); assert(p.contains(w)); let j = choose|j: int| 0 <= j < p.len() && p[j] == w; assert(q[j] == w); } else { assert(q[p.len() as int] == w); } }
        }
    } else { assert forall|w: usize| #[trigger] q.contains(w) == refers(s, owner, w as int) by {} }
}
/// After some of the witnesses.
pub open spec fn has(ws: Seq<usize>, j: int) -> bool { exists|q: int| 0 <= q < ws.len() && (#[trigger] ws[q]) as int == j }
pub open spec fn signing(t: STx, ws: Seq<usize>, d: Seq<u8>) -> STx { STx { witnesses: Seq::new(t.witnesses.len(), |j: int| if has(ws, j) { SWit { data: d } } else { t.witnesses[j] }), ..t } }
pub proof fn signing_step(t: STx, ws: Seq<usize>, d: Seq<u8>, k: int)
    requires 0 <= k < ws.len()
    ensures
        ws[k] < t.witnesses.len() ==> signing(t, ws.take(k + 1), d) == (STx { witnesses: signing(t, ws.take(k), d).witnesses.update(ws[k] as int, SWit { data: d }), ..t }),
        ws[k] >= t.witnesses.len() ==> signing(t, ws.take(k + 1), d) == signing(t, ws.take(k), d),
{
    let (n, o) = (ws.take(k + 1), ws.take(k));
    assert forall|w: int| #[trigger] has(n, w) == (has(o, w) || w == ws[k]) by {
        if has(n, w) { let j = choose|j: int| 0 <= j < n.len() && (#[trigger] n[j]) as int == w; if j < k { assert(o[j] as int == w); } }
        if has(o, w) { let j = choose|j: int| 0 <= j < k && (#[trigger] o[j]) as int == w; assert(n[j] as int == w); }
        assert(n[k] == ws[k]);
    }
    let a = signing(t, n, d).witnesses;
    if ws[k] < t.witnesses.len() { assert(a =~= signing(t, o, d).witnesses.update(ws[k] as int, SWit { data: d })); } else { assert(a =~= signing(t, o, d).witnesses); }
}
pub proof fn signing_all(t: STx, ws: Seq<usize>, k: SecretKey)
    requires forall|w: usize| #[trigger] ws.contains(w) == slots_of(t.inputs, pk_hash(pk_of(k))).contains(w)
    ensures signing(t, ws, sign_spec(k, txid(t))) == signed(t, k)
{
    let o = pk_hash(pk_of(k));
    slots_refer(t.inputs, o);
    assert forall|j: int| #[trigger] has(ws, j) == refers(t.inputs, o, j) by {
        if has(ws, j) { let q = choose|q: int| 0 <= q < ws.len() && (#[trigger] ws[q]) as int == j; assert(ws.contains(ws[q])); }
        if refers(t.inputs, o, j) { let i = choose|i: int| 0 <= i < t.inputs.len() && slot_is(#[trigger] t.inputs[i], o, j); let w = slot_of(t.inputs[i], o)->0; assert(slots_of(t.inputs, o).contains(w)); assert(ws.contains(w)); }
    }
    assert(signing(t, ws, sign_spec(k, txid(t))).witnesses =~= signed(t, k).witnesses);
}
/// Signing keeps the identifier and makes the key's inputs pass, as long as they name a witness there is.
pub proof fn sign_ok(t: STx, k: SecretKey)
    ensures
        txid(signed(t, k)) == txid(t),
        forall|i: int| 0 <= i < t.inputs.len() && slot_of(#[trigger] t.inputs[i], pk_hash(pk_of(k))) is Some && slot_of(t.inputs[i], pk_hash(pk_of(k)))->0 < t.witnesses.len() ==> authentic(t.inputs[i], signed(t, k).witnesses, txid(t)),
{
    broadcast use sign_recover;
    let o = pk_hash(pk_of(k));
    assert(t.kind == 2 ==> tx_e(signed(t, k)) == tx_e(t));
    assert forall|i: int| 0 <= i < t.inputs.len() && slot_of(#[trigger] t.inputs[i], o) is Some && slot_of(t.inputs[i], o)->0 < t.witnesses.len() implies authentic(t.inputs[i], signed(t, k).witnesses, txid(t)) by { let w = slot_of(t.inputs[i], o)->0; assert(slot_is(t.inputs[i], o, w as int)); assert(refers(t.inputs, o, w as int)); }
}
}
@super Signable TxV
@fn trait Signable.sign_inputs
@props C13
@req
  ready(old(self))
@ens
  final(self).tv() == signed(old(self).tv(), *secret), final(self).mv() == old(self).mv()
@fn T.Signable.sign_inputs
@props C13
@pre
broadcast use crate::deep::dvs_len;
let ghost t = self.tv();
let ghost m = self.mv();
let ghost ow = pk_hash(pk_of(*secret));
@loop 0
invariant
    0 <= i0 <= s0@.len(), t == self.tv(), m == self.mv(), dvs(s0@) == t.inputs, pk@ == ow, acc0@ == slots_of(t.inputs.take(i0 as int), ow),
decreases s0@.len() - i0
@lb 0
proof { assert(acc0@ =~= slots_of(t.inputs.take(0), ow)); }
@ls 0
let ghost a0 = acc0@;
proof { fm_step(t.inputs, f_slot(ow), i0 - 1); assert(t.inputs[i0 - 1] == s0@[i0 - 1].dv()); }
@la 0
proof { assert(t.inputs.take(s0@.len() as int) =~= t.inputs); slots_refer(t.inputs, ow); }
proof { assert(acc0@.take(acc0@.len() as int) =~= acc0@); }
@lb 1
proof { assert(signing(t, witness_indexes@.take(0), signature.0@).witnesses =~= t.witnesses); }
@loop 1
invariant
    it1.seq() == witness_indexes@, self.mv() == m, self.tv() == signing(t, witness_indexes@.take(it1.index@), signature.0@),
@ls 1
let ghost wi = w;
proof { signing_step(t, witness_indexes@, signature.0@, it1.index@); }
let ghost before = self.tv();
@le 1
proof { if wi < t.witnesses.len() { assert(self.tv().witnesses =~= before.witnesses.update(wi as int, SWit { data: signature.0@ })); } else { assert(self.tv().witnesses =~= before.witnesses); } }
@la 1
proof { assert(witness_indexes@.take(witness_indexes@.len() as int) =~= witness_indexes@); signing_all(t, witness_indexes@, *secret); }
