@# Transactions: what they are, how they are laid out, where their parts are.
@head
pub mod stx {
use vstd::prelude::*; use crate::vx::*;
use crate::tx_pointer::TxPointer;
use crate::transaction::*;
/// A transaction of any kind; what a kind does not have is empty.
#[verifier::ext_equal]
pub struct STx {
    pub kind: int, pub gas_price: u64, pub gas_limit: u64, pub maturity: u64,
    pub script: Seq<u8>, pub data: Seq<u8>, pub root: Seq<u8>,
    pub blen: u64, pub bwi: u8, pub slots: Seq<SSlot>, pub salt: Seq<u8>,
    pub inputs: Seq<SInput>, pub outputs: Seq<SOutput>, pub witnesses: Seq<SWit>, pub txp: TxPointer,
}
pub open spec fn script_tx(gas_price: u64, gas_limit: u64, maturity: u64, script: Seq<u8>, data: Seq<u8>, root: Seq<u8>, inputs: Seq<SInput>, outputs: Seq<SOutput>, witnesses: Seq<SWit>) -> STx {
    STx { kind: 0, gas_price, gas_limit, maturity, script, data, root, blen: 0, bwi: 0, slots: Seq::empty(), salt: Seq::empty(), inputs, outputs, witnesses, txp: txp0() }
}
pub open spec fn create_tx(gas_price: u64, gas_limit: u64, maturity: u64, blen: u64, bwi: u8, slots: Seq<SSlot>, salt: Seq<u8>, inputs: Seq<SInput>, outputs: Seq<SOutput>, witnesses: Seq<SWit>) -> STx {
    STx { kind: 1, gas_price, gas_limit, maturity, script: Seq::empty(), data: Seq::empty(), root: Seq::empty(), blen, bwi, slots, salt, inputs, outputs, witnesses, txp: txp0() }
}
pub open spec fn mint_tx(txp: TxPointer, outputs: Seq<SOutput>) -> STx {
    STx { kind: 2, gas_price: 0, gas_limit: 0, maturity: 0, script: Seq::empty(), data: Seq::empty(), root: Seq::empty(), blen: 0, bwi: 0, slots: Seq::empty(), salt: Seq::empty(), inputs: Seq::empty(), outputs, witnesses: Seq::empty(), txp }
}
/// The three lists, in the order they are written.
pub open spec fn lists_e(inputs: Seq<SInput>, outputs: Seq<SOutput>, witnesses: Seq<SWit>) -> Seq<u8> { elist(inputs) + (elist(outputs) + elist(witnesses)) }
pub open spec fn script_k(t: STx, rest: Seq<u8>) -> Seq<u8> {
    be8(0) + (be8(t.gas_price) + (be8(t.gas_limit) + (be8(t.maturity) + (be8(t.script.len() as u64) + (be8(t.data.len() as u64) + (be8(t.inputs.len() as u64) + (be8(t.outputs.len() as u64)
    + (be8(t.witnesses.len() as u64) + (t.root + (padded(t.script) + (padded(t.data) + rest)))))))))))
}
pub open spec fn create_k(t: STx, rest: Seq<u8>) -> Seq<u8> {
    be8(1) + (be8(t.gas_price) + (be8(t.gas_limit) + (be8(t.maturity) + (be8(t.blen) + (be8(t.bwi as u64) + (be8(t.slots.len() as u64) + (be8(t.inputs.len() as u64) + (be8(t.outputs.len() as u64)
    + (be8(t.witnesses.len() as u64) + (t.salt + rest))))))))))
}
pub open spec fn mint_k(t: STx, rest: Seq<u8>) -> Seq<u8> { be8(2) + (txp_e(t.txp) + (be8(t.outputs.len() as u64) + rest)) }
pub open spec fn tx_k(t: STx, rest: Seq<u8>) -> Seq<u8> {
    if t.kind == 0 { script_k(t, elist(t.inputs) + (elist(t.outputs) + (elist(t.witnesses) + rest))) }
    else if t.kind == 1 { create_k(t, elist(t.slots) + (elist(t.inputs) + (elist(t.outputs) + (elist(t.witnesses) + rest)))) }
    else { mint_k(t, elist(t.outputs) + rest) }
}
pub open spec fn tx_e(t: STx) -> Seq<u8> {
    if t.kind == 0 { script_k(t, lists_e(t.inputs, t.outputs, t.witnesses)) }
    else if t.kind == 1 { create_k(t, elist(t.slots) + lists_e(t.inputs, t.outputs, t.witnesses)) }
    else { mint_k(t, elist(t.outputs)) }
}
pub proof fn tx_ek(t: STx, rest: Seq<u8>) ensures tx_e(t) + rest == tx_k(t, rest) { broadcast use {cat_cat, cat_empty}; }
/// Where the parts start.
pub open spec fn data_off(t: STx) -> int { 104 + pad8(t.script.len() as int) }
pub open spec fn in_off(t: STx) -> int { if t.kind == 0 { data_off(t) + pad8(t.data.len() as int) } else { 112 + 64 * (t.slots.len() as int) } }
pub open spec fn out_off(t: STx) -> int { if t.kind == 2 { 32 } else { in_off(t) + elist(t.inputs).len() } }
pub open spec fn wit_off(t: STx) -> int { out_off(t) + elist(t.outputs).len() }
pub open spec fn tx_len(t: STx) -> int { wit_off(t) + elist(t.witnesses).len() }
pub open spec fn slot_at(t: STx, i: int) -> Option<usize> { if 0 <= i < t.slots.len() { Some((112 + 64 * i) as usize) } else { None } }
pub open spec fn in_at(t: STx, i: int) -> Option<usize> { if 0 <= i < t.inputs.len() { Some((in_off(t) + elist(t.inputs.take(i)).len()) as usize) } else { None } }
pub open spec fn out_at(t: STx, i: int) -> Option<usize> { if 0 <= i < t.outputs.len() { Some((out_off(t) + elist(t.outputs.take(i)).len()) as usize) } else { None } }
pub open spec fn wit_at(t: STx, i: int) -> Option<usize> { if 0 <= i < t.witnesses.len() { Some((wit_off(t) + elist(t.witnesses.take(i)).len()) as usize) } else { None } }
/// Where an input's predicate is, in its encoding, and how long with its padding.
pub open spec fn ipred(i: SInput) -> Option<(int, Seq<u8>)> {
    match i {
        SInput::CoinPredicate { predicate, .. } => Some((168, predicate)),
        SInput::MessagePredicate { data, predicate, .. } => Some((152 + pad8(data.len() as int), predicate)),
        _ => None,
    }
}
pub open spec fn pred_at(t: STx, i: int) -> Option<(usize, usize)> {
    if 0 <= i < t.inputs.len() { match ipred(t.inputs[i]) { Some((o, p)) => Some(((in_off(t) + elist(t.inputs.take(i)).len() + o) as usize, pad8(p.len() as int) as usize)), None => None } } else { None }
}
/// Encodings fit the address space.
pub open spec fn fits(t: STx) -> bool { tx_e(t).len() <= isize::MAX && tx_shape(t) }
pub open spec fn cwf(s: Seq<SInput>) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) is Contract ==> s[i].wf()) && (crate::sexec::iasset(s[i]) is Some ==> (crate::sexec::iasset(s[i])->0).len() == 32) }
/// What every value of the types satisfies.
pub open spec fn tx_shape(t: STx) -> bool {
    &&& 0 <= t.kind <= 2
    &&& t.kind == 0 ==> t.root.len() == 32
    &&& t.kind == 1 ==> t.salt.len() == 32
    &&& wfs(t.slots) && wfs(t.outputs) && cwf(t.inputs)
    &&& t.kind != 1 ==> t.slots.len() == 0
    &&& t.kind != 0 ==> t.script.len() == 0 && t.data.len() == 0
    &&& t.kind == 2 ==> t.inputs.len() == 0 && t.witnesses.len() == 0
}
pub proof fn slots_len(s: Seq<SSlot>) requires wfs(s) ensures elist(s).len() == 64 * s.len() decreases s.len()
{ if s.len() > 0 { assert(s[0].wf()); let d = s.drop_first(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i].wf() by { assert(s[i + 1].wf()); } slots_len(d); } }
pub proof fn tx_lens(t: STx)
    requires tx_shape(t)
    ensures tx_e(t).len() == tx_len(t), 0 <= in_off(t) <= out_off(t) || t.kind == 2, out_off(t) <= wit_off(t) <= tx_len(t)
{ broadcast use lens; slots_len(t.slots); assert(elist::<SWit>(Seq::empty()).len() == 0); if t.kind == 2 { assert(t.witnesses =~= Seq::empty()); } }
/// Everything a transaction says about where its parts are, is so.
pub proof fn tx_offsets(t: STx)
    requires tx_shape(t), wfs(t.inputs)
    ensures
        tx_e(t).len() == tx_len(t),
        t.kind != 2 ==> at(tx_e(t), 8, be8(t.gas_price)) && at(tx_e(t), 16, be8(t.gas_limit)) && at(tx_e(t), 24, be8(t.maturity)),
        t.kind == 0 ==> at(tx_e(t), 72, t.root) && at(tx_e(t), 104, t.script) && at(tx_e(t), data_off(t), t.data),
        t.kind == 1 ==> at(tx_e(t), 32, be8(t.blen)) && at(tx_e(t), 40, be8(t.bwi as u64)) && at(tx_e(t), 80, t.salt) && at(tx_e(t), 112, elist(t.slots)),
        t.kind == 2 ==> at(tx_e(t), 8, txp_e(t.txp)),
        forall|i: int| 0 <= i < t.slots.len() ==> at(tx_e(t), 112 + 64 * i, (#[trigger] t.slots[i]).e()),
        t.kind != 2 ==> at(tx_e(t), in_off(t), elist(t.inputs)) && at(tx_e(t), wit_off(t), elist(t.witnesses)),
        at(tx_e(t), out_off(t), elist(t.outputs)),
        forall|i: int| 0 <= i < t.inputs.len() ==> at(tx_e(t), in_off(t) + elist(t.inputs.take(i)).len(), (#[trigger] t.inputs[i]).e()),
        forall|i: int| 0 <= i < t.outputs.len() ==> at(tx_e(t), out_off(t) + elist(t.outputs.take(i)).len(), (#[trigger] t.outputs[i]).e()),
        forall|i: int| 0 <= i < t.witnesses.len() ==> at(tx_e(t), wit_off(t) + elist(t.witnesses.take(i)).len(), (#[trigger] t.witnesses[i]).e()),
        forall|i: int| 0 <= i < t.inputs.len() ==> match ipred(#[trigger] t.inputs[i]) { Some((o, p)) => at(tx_e(t), in_off(t) + elist(t.inputs.take(i)).len() + o, p), None => true },
{
    broadcast use lens;
    tx_lens(t); slots_len(t.slots);
    let e = tx_e(t);
    let l = lists_e(t.inputs, t.outputs, t.witnesses);
    if t.kind == 0 {
        assert(e.subrange(8, 16) =~= be8(t.gas_price)); assert(e.subrange(16, 24) =~= be8(t.gas_limit)); assert(e.subrange(24, 32) =~= be8(t.maturity));
        assert(e.subrange(72, 104) =~= t.root);
        let r = padded(t.script) + (padded(t.data) + l);
        assert(e.subrange(104, e.len() as int) =~= r);
        at_tail(e, 104, r);
        pad_at(t.script);
        at_head(r, padded(t.script), padded(t.data) + l);
        at_at(e, 104, r, 0, padded(t.script)); at_at(e, 104, padded(t.script), 0, t.script);
        at_next(r, padded(t.script), padded(t.data) + l);
        pad_at(t.data);
        at_head(padded(t.data) + l, padded(t.data), l);
        at_next(padded(t.data) + l, padded(t.data), l);
        at_at(e, 104, r, pad8(t.script.len() as int), padded(t.data) + l);
        at_at(e, data_off(t), padded(t.data) + l, 0, padded(t.data)); at_at(e, data_off(t), padded(t.data), 0, t.data);
        at_at(e, data_off(t), padded(t.data) + l, pad8(t.data.len() as int), l);
        assert(t.slots =~= Seq::empty());
    } else if t.kind == 1 {
        assert(e.subrange(8, 16) =~= be8(t.gas_price)); assert(e.subrange(16, 24) =~= be8(t.gas_limit)); assert(e.subrange(24, 32) =~= be8(t.maturity));
        assert(e.subrange(32, 40) =~= be8(t.blen)); assert(e.subrange(40, 48) =~= be8(t.bwi as u64)); assert(e.subrange(80, 112) =~= t.salt);
        let r = elist(t.slots) + l;
        assert(e.subrange(112, e.len() as int) =~= r);
        at_tail(e, 112, r);
        at_head(r, elist(t.slots), l); at_next(r, elist(t.slots), l);
        at_at(e, 112, r, 0, elist(t.slots));
        at_at(e, 112, r, elist(t.slots).len() as int, l);
        assert forall|i: int| 0 <= i < t.slots.len() implies at(e, 112 + 64 * i, (#[trigger] t.slots[i]).e()) by {
            elist_at(t.slots, i); at_at(e, 112, elist(t.slots), elist(t.slots.take(i)).len() as int, t.slots[i].e());
            assert forall|j: int| 0 <= j < t.slots.take(i).len() implies #[trigger] t.slots.take(i)[j].wf() by { assert(t.slots[j].wf()); }
            slots_len(t.slots.take(i));
        }
    } else {
        assert(e.subrange(8, 24) =~= txp_e(t.txp));
        assert(e.subrange(32, e.len() as int) =~= elist(t.outputs));
        at_tail(e, 32, elist(t.outputs));
        assert(t.slots =~= Seq::empty()); assert(t.inputs =~= Seq::empty()); assert(t.witnesses =~= Seq::empty());
    }
    if t.kind != 2 {
        let o = in_off(t);
        assert(at(e, o, l));
        let m = elist(t.outputs) + elist(t.witnesses);
        at_head(l, elist(t.inputs), m); at_next(l, elist(t.inputs), m);
        at_at(e, o, l, 0, elist(t.inputs));
        at_at(e, o, l, elist(t.inputs).len() as int, m);
        at_head(m, elist(t.outputs), elist(t.witnesses)); at_next(m, elist(t.outputs), elist(t.witnesses));
        at_at(e, out_off(t), m, 0, elist(t.outputs));
        at_at(e, out_off(t), m, elist(t.outputs).len() as int, elist(t.witnesses));
    }
    assert forall|i: int| 0 <= i < t.inputs.len() implies at(e, in_off(t) + elist(t.inputs.take(i)).len(), (#[trigger] t.inputs[i]).e()) by { elist_at(t.inputs, i); at_at(e, in_off(t), elist(t.inputs), elist(t.inputs.take(i)).len() as int, t.inputs[i].e()); }
    assert forall|i: int| 0 <= i < t.outputs.len() implies at(e, out_off(t) + elist(t.outputs.take(i)).len(), (#[trigger] t.outputs[i]).e()) by { elist_at(t.outputs, i); at_at(e, out_off(t), elist(t.outputs), elist(t.outputs.take(i)).len() as int, t.outputs[i].e()); }
    assert forall|i: int| 0 <= i < t.witnesses.len() implies at(e, wit_off(t) + elist(t.witnesses.take(i)).len(), (#[trigger] t.witnesses[i]).e()) by { elist_at(t.witnesses, i); at_at(e, wit_off(t), elist(t.witnesses), elist(t.witnesses.take(i)).len() as int, t.witnesses[i].e()); }
    assert forall|i: int| 0 <= i < t.inputs.len() implies match ipred(#[trigger] t.inputs[i]) { Some((o, p)) => at(e, in_off(t) + elist(t.inputs.take(i)).len() + o, p), None => true } by {
        assert(t.inputs[i].wf());
        input_offsets(t.inputs[i]);
        if let Some((o, p)) = ipred(t.inputs[i]) { at_at(e, in_off(t) + elist(t.inputs.take(i)).len(), t.inputs[i].e(), o, p); }
    }
}

/// What a decoder makes of the three lists.
pub open spec fn lists_d(b: Seq<u8>, ni: nat, no: nat, nw: nat) -> Option<(Seq<SInput>, Seq<SOutput>, Seq<SWit>, int)> {
    match dlist::<SInput>(b, ni) {
        None => None,
        Some((is, u1)) => { let b = tl(b, u1); match dlist::<SOutput>(b, no) {
            None => None,
            Some((os, u2)) => { let b = tl(b, u2); match dlist::<SWit>(b, nw) { None => None, Some((ws, u3)) => Some((is, os, ws, u1 + u2 + u3)) } },
        } },
    }
}
pub proof fn lists_round(is: Seq<SInput>, os: Seq<SOutput>, ws: Seq<SWit>, rest: Seq<u8>)
    requires wfs(is), wfs(os), wfs(ws)
    ensures lists_d(elist(is) + (elist(os) + (elist(ws) + rest)), is.len(), os.len(), ws.len()) == Some((is, os, ws, (elist(is).len() + elist(os).len() + elist(ws).len()) as int))
{
    let (b2, b3) = (elist(os) + (elist(ws) + rest), elist(ws) + rest);
    round_list(is, b2); round_list(os, b3); round_list(ws, rest);
    assert(tl(elist(is) + b2, elist(is).len() as int) =~= b2);
    assert(tl(b2, elist(os).len() as int) =~= b3);
}
pub open spec fn script_d(s: Seq<u8>) -> Option<(STx, int)> {
    if s.len() < 104 { None } else if un8(s.subrange(0, 8)) != 0 { None } else {
        let b = tl(s, 8);
        let gas_price = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let gas_limit = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let maturity = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let sl = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let dl = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let ni = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let no = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let nw = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let root = b.subrange(0, 32); let b = tl(b, 32);
        match draw(b, sl as int) { None => None, Some((script, b)) => match draw(b, dl as int) { None => None, Some((data, b)) =>
            match lists_d(b, ni as nat, no as nat, nw as nat) { None => None, Some((inputs, outputs, witnesses, u)) =>
                Some((script_tx(gas_price, gas_limit, maturity, script, data, root, inputs, outputs, witnesses), 104 + pad8(sl as int) + pad8(dl as int) + u)) } } }
    }
}
pub open spec fn create_d(s: Seq<u8>) -> Option<(STx, int)> {
    if s.len() < 112 { None } else if un8(s.subrange(0, 8)) != 1 { None } else {
        let b = tl(s, 8);
        let gas_price = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let gas_limit = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let maturity = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let blen = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let bwi = un8(b.subrange(0, 8)) as u8; let b = tl(b, 8);
        let ns = un8(b.subrange(0, 8)) as u16; let b = tl(b, 8);
        let ni = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let no = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let nw = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let salt = b.subrange(0, 32); let b = tl(b, 32);
        match dlist::<SSlot>(b, ns as nat) { None => None, Some((slots, u0)) =>
            match lists_d(tl(b, u0), ni as nat, no as nat, nw as nat) { None => None, Some((inputs, outputs, witnesses, u)) =>
                Some((create_tx(gas_price, gas_limit, maturity, blen, bwi, slots, salt, inputs, outputs, witnesses), 112 + 64 * (ns as int) + u)) } }
    }
}
pub open spec fn mint_d(s: Seq<u8>) -> Option<(STx, int)> {
    if s.len() < 32 { None } else if un8(s.subrange(0, 8)) != 2 { None } else {
        let b = tl(s, 8);
        match TxPointer::d(b) { None => None, Some((txp, _)) => {
            let b = tl(b, 16);
            let no = un8(b.subrange(0, 8)); let b = tl(b, 8);
            match dlist::<SOutput>(b, no as nat) { None => None, Some((outputs, u)) => Some((mint_tx(txp, outputs), 32 + u)) }
        } }
    }
}
pub open spec fn tx_d(s: Seq<u8>) -> Option<(STx, int)> {
    if s.len() < 8 { None } else { let id = un8(s.subrange(0, 8)); if id == 0 { script_d(s) } else if id == 1 { create_d(s) } else if id == 2 { mint_d(s) } else { None } }
}
pub proof fn dlist_slots(s: Seq<u8>, n: nat) ensures dlist::<SSlot>(s, n) is Some ==> (dlist::<SSlot>(s, n)->0).1 == 64 * n decreases n
{ if n > 0 && SSlot::d(s) is Some { dlist_slots(tl(s, 64), (n - 1) as nat); } }
/// Values the format can represent.
pub open spec fn tx_wf(t: STx) -> bool {
    &&& tx_shape(t) && wfs(t.inputs) && wfs(t.witnesses) && fits(t)
    &&& t.kind == 0 ==> t == script_tx(t.gas_price, t.gas_limit, t.maturity, t.script, t.data, t.root, t.inputs, t.outputs, t.witnesses)
    &&& t.kind == 1 ==> t == create_tx(t.gas_price, t.gas_limit, t.maturity, t.blen, t.bwi, t.slots, t.salt, t.inputs, t.outputs, t.witnesses) && t.slots.len() <= u16::MAX
    &&& t.kind == 2 ==> t == mint_tx(t.txp, t.outputs)
}
pub proof fn elist_min<W: Wire>(s: Seq<W>) requires wfs(s) ensures elist(s).len() >= 8 * s.len() decreases s.len()
{ if s.len() > 0 { assert(s[0].wf()); s[0].round(Seq::empty()); W::total(s[0].e() + Seq::empty()); let d = s.drop_first(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i].wf() by { assert(s[i + 1].wf()); } elist_min(d); } }
/// Decoding the encoding of a transaction, whatever follows it, gives the transaction and takes exactly its encoding.
pub proof fn tx_round(t: STx, rest: Seq<u8>)
    requires tx_wf(t)
    ensures tx_d(tx_e(t) + rest) == Some((t, tx_e(t).len() as int))
{
    broadcast use lens;
    tx_ek(t, rest); tx_lens(t); slots_len(t.slots);
    lists_round(t.inputs, t.outputs, t.witnesses, rest);
    elist_min(t.inputs); elist_min(t.outputs); elist_min(t.witnesses);
    let l = elist(t.inputs) + (elist(t.outputs) + (elist(t.witnesses) + rest));
    if t.kind == 0 {
        script_round(t, l);
        draw_round(t.script, padded(t.data) + l);
        draw_round(t.data, l);
    } else if t.kind == 1 {
        create_round(t, elist(t.slots) + l);
        round_list(t.slots, l);
        assert(tl(elist(t.slots) + l, elist(t.slots).len() as int) =~= l);
    } else {
        broadcast use peel0;
        let b = be8(t.outputs.len() as u64) + (elist(t.outputs) + rest);
        t.txp.round(b);
        assert(tl(txp_e(t.txp) + b, 16) == b);
        round_list(t.outputs, rest);
    }
}
pub open spec fn script_h(s: Seq<u8>) -> (u64, u64, u64, u64, u64, u64, u64, u64, Seq<u8>, Seq<u8>) {
        let b = tl(s, 8);
        let gas_price = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let gas_limit = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let maturity = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let sl = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let dl = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let ni = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let no = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let nw = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let root = b.subrange(0, 32); let b = tl(b, 32);
        (gas_price, gas_limit, maturity, sl, dl, ni, no, nw, root, b)
}
pub proof fn script_round(t: STx, l: Seq<u8>)
    requires tx_wf(t), t.kind == 0
    ensures ({ let s = script_k(t, l); s.len() >= 104 && un8(s.subrange(0, 8)) == 0 && script_h(s) == (t.gas_price, t.gas_limit, t.maturity, t.script.len() as u64, t.data.len() as u64, t.inputs.len() as u64, t.outputs.len() as u64, t.witnesses.len() as u64, t.root, padded(t.script) + (padded(t.data) + l)) })
{ broadcast use peel0; }
pub open spec fn create_h(s: Seq<u8>) -> (u64, u64, u64, u64, u64, u64, u64, u64, u64, Seq<u8>, Seq<u8>) {
        let b = tl(s, 8);
        let gas_price = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let gas_limit = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let maturity = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let blen = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let bwi = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let ns = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let ni = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let no = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let nw = un8(b.subrange(0, 8)); let b = tl(b, 8);
        let salt = b.subrange(0, 32); let b = tl(b, 32);
        (gas_price, gas_limit, maturity, blen, bwi, ns, ni, no, nw, salt, b)
}
pub proof fn create_round(t: STx, l: Seq<u8>)
    requires tx_wf(t), t.kind == 1
    ensures ({ let s = create_k(t, l); s.len() >= 112 && un8(s.subrange(0, 8)) == 1 && create_h(s) == (t.gas_price, t.gas_limit, t.maturity, t.blen, t.bwi as u64, t.slots.len() as u64, t.inputs.len() as u64, t.outputs.len() as u64, t.witnesses.len() as u64, t.salt, l) })
{ broadcast use peel0; }
pub proof fn at_at(e: Seq<u8>, k: int, f: Seq<u8>, j: int, g: Seq<u8>) requires at(e, k, f), at(f, j, g) ensures at(e, k + j, g)
{ assert(e.subrange(k, k + f.len()).subrange(j, j + g.len()) =~= e.subrange(k + j, k + j + g.len())); }
pub proof fn at_tail(e: Seq<u8>, k: int, f: Seq<u8>) requires 0 <= k <= e.len(), e.subrange(k, e.len() as int) == f ensures at(e, k, f) {}
pub proof fn at_head(e: Seq<u8>, a: Seq<u8>, b: Seq<u8>) requires e == a + b ensures at(e, 0, a) { assert(e.subrange(0, a.len() as int) =~= a); }
pub proof fn at_next(e: Seq<u8>, a: Seq<u8>, b: Seq<u8>) requires e == a + b ensures at(e, a.len() as int, b) { assert(e.subrange(a.len() as int, (a.len() + b.len()) as int) =~= b); }
pub proof fn pad_at(s: Seq<u8>) ensures at(padded(s), 0, s) { reveal(padded); assert(padded(s).subrange(0, s.len() as int) =~= s); }
pub proof fn elist_at<W: Wire>(s: Seq<W>, i: int) requires 0 <= i < s.len() ensures at(elist(s), elist(s.take(i)).len() as int, s[i].e())
{
    elist_split(s, i);
    let r = s.skip(i);
    assert(r[0] == s[i]);
    at_next(elist(s), elist(s.take(i)), elist(r));
    at_head(elist(r), s[i].e(), elist(r.drop_first()));
    assert(at(elist(s), elist(s.take(i)).len() as int, elist(r)));
    let k = elist(s.take(i)).len() as int;
    assert(elist(s).subrange(k, k + elist(r).len()).subrange(0, s[i].e().len() as int) =~= elist(s).subrange(k, k + s[i].e().len()));
}
}
@fn TransactionRepr.TryFrom<Word>.try_from
@props C01 C03
@ens
  match r { Ok(x) => (b == 0 && x == TransactionRepr::Script) || (b == 1 && x == TransactionRepr::Create) || (b == 2 && x == TransactionRepr::Mint), Err(_) => b > 2 }
@fn TransactionRepr.From<&Transaction>.from
@props C01
@ens
  r == (match *tx { Transaction::Script(_) => TransactionRepr::Script, Transaction::Create(_) => TransactionRepr::Create, Transaction::Mint(_) => TransactionRepr::Mint })
@fn TransactionRepr.PartialEq.eq
@props C01 C03
@ens
  r == (*self == *other)
