@# Inputs.
@head
pub mod sinput {
use vstd::prelude::*; use crate::vx::*;
use crate::tx_pointer::TxPointer;
use crate::transaction::types::*;
#[verifier::ext_equal]
pub enum SInput {
    CoinSigned { utxo_id: SUtxo, owner: Seq<u8>, amount: u64, asset_id: Seq<u8>, tx_pointer: TxPointer, witness_index: u8, maturity: u64 },
    CoinPredicate { utxo_id: SUtxo, owner: Seq<u8>, amount: u64, asset_id: Seq<u8>, tx_pointer: TxPointer, maturity: u64, predicate: Seq<u8>, predicate_data: Seq<u8> },
    Contract { utxo_id: SUtxo, balance_root: Seq<u8>, state_root: Seq<u8>, tx_pointer: TxPointer, contract_id: Seq<u8> },
    MessageSigned { message_id: Seq<u8>, sender: Seq<u8>, recipient: Seq<u8>, amount: u64, nonce: u64, witness_index: u8, data: Seq<u8> },
    MessagePredicate { message_id: Seq<u8>, sender: Seq<u8>, recipient: Seq<u8>, amount: u64, nonce: u64, data: Seq<u8>, predicate: Seq<u8>, predicate_data: Seq<u8> },
}
impl Dv for Input {
    type S = SInput;
    open spec fn dv(&self) -> SInput {
        match *self {
            Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } =>
                SInput::CoinSigned { utxo_id: utxo_id.dv(), owner: owner@, amount, asset_id: asset_id@, tx_pointer, witness_index, maturity },
            Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } =>
                SInput::CoinPredicate { utxo_id: utxo_id.dv(), owner: owner@, amount, asset_id: asset_id@, tx_pointer, maturity, predicate: predicate@, predicate_data: predicate_data@ },
            Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } =>
                SInput::Contract { utxo_id: utxo_id.dv(), balance_root: balance_root@, state_root: state_root@, tx_pointer, contract_id: contract_id@ },
            Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } =>
                SInput::MessageSigned { message_id: message_id@, sender: sender@, recipient: recipient@, amount, nonce, witness_index, data: data@ },
            Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } =>
                SInput::MessagePredicate { message_id: message_id@, sender: sender@, recipient: recipient@, amount, nonce, data: data@, predicate: predicate@, predicate_data: predicate_data@ },
        }
    }
}
/// The fixed part of a coin and of a message.
pub open spec fn coin_e(utxo_id: SUtxo, owner: Seq<u8>, amount: u64, asset_id: Seq<u8>, txp: TxPointer, wi: u64, maturity: u64, pl: u64, pdl: u64, rest: Seq<u8>) -> Seq<u8> {
    be8(0) + (utxo_id.e() + (owner + (be8(amount) + (asset_id + (txp.e() + (be8(wi) + (be8(maturity) + (be8(pl) + (be8(pdl) + rest)))))))))
}
pub open spec fn msg_e(mid: Seq<u8>, sender: Seq<u8>, recipient: Seq<u8>, amount: u64, nonce: u64, wi: u64, dl: u64, pl: u64, pdl: u64, rest: Seq<u8>) -> Seq<u8> {
    be8(2) + (mid + (sender + (recipient + (be8(amount) + (be8(nonce) + (be8(wi) + (be8(dl) + (be8(pl) + (be8(pdl) + rest)))))))))
}
/// What a decoder makes of the fixed part, its identifier taken off.
pub open spec fn coin_d(b: Seq<u8>) -> Option<(SUtxo, Seq<u8>, u64, Seq<u8>, TxPointer, u64, u64, u64, u64, Seq<u8>)> {
    let utxo_id = (SUtxo::d(b)->0).0;
    let b = tl(b, 40);
    let owner = b.subrange(0, 32); let b = tl(b, 32);
    let amount = un8(b.subrange(0, 8)); let b = tl(b, 8);
    let asset_id = b.subrange(0, 32); let b = tl(b, 32);
    match TxPointer::d(b) {
        None => None,
        Some((tx_pointer, _)) => {
            let b = tl(b, 16);
            let wi = un8(b.subrange(0, 8)); let b = tl(b, 8);
            let maturity = un8(b.subrange(0, 8)); let b = tl(b, 8);
            let pl = un8(b.subrange(0, 8)); let b = tl(b, 8);
            let pdl = un8(b.subrange(0, 8)); let b = tl(b, 8);
            Some((utxo_id, owner, amount, asset_id, tx_pointer, wi, maturity, pl, pdl, b))
        },
    }
}
pub open spec fn msg_d(b: Seq<u8>) -> (Seq<u8>, Seq<u8>, Seq<u8>, u64, u64, u64, u64, u64, u64, Seq<u8>) {
    let message_id = b.subrange(0, 32); let b = tl(b, 32);
    let sender = b.subrange(0, 32); let b = tl(b, 32);
    let recipient = b.subrange(0, 32); let b = tl(b, 32);
    let amount = un8(b.subrange(0, 8)); let b = tl(b, 8);
    let nonce = un8(b.subrange(0, 8)); let b = tl(b, 8);
    let wi = un8(b.subrange(0, 8)); let b = tl(b, 8);
    let dl = un8(b.subrange(0, 8)); let b = tl(b, 8);
    let pl = un8(b.subrange(0, 8)); let b = tl(b, 8);
    let pdl = un8(b.subrange(0, 8)); let b = tl(b, 8);
    (message_id, sender, recipient, amount, nonce, wi, dl, pl, pdl, b)
}
pub proof fn coin_round(utxo_id: SUtxo, owner: Seq<u8>, amount: u64, asset_id: Seq<u8>, txp: TxPointer, wi: u64, maturity: u64, pl: u64, pdl: u64, rest: Seq<u8>)
    requires utxo_id.wf(), owner.len() == 32, asset_id.len() == 32
    ensures
        ({ let s = coin_e(utxo_id, owner, amount, asset_id, txp, wi, maturity, pl, pdl, rest);
        s.len() == 168 + rest.len() && un8(s.subrange(0, 8)) == 0 && coin_d(tl(s, 8)) == Some((utxo_id, owner, amount, asset_id, txp, wi, maturity, pl, pdl, rest)) })
{
    broadcast use peel0;
    let b4 = txp.e() + (be8(wi) + (be8(maturity) + (be8(pl) + (be8(pdl) + rest))));
    let b1 = owner + (be8(amount) + (asset_id + b4));
    utxo_id.round(b1);
    txp.round(be8(wi) + (be8(maturity) + (be8(pl) + (be8(pdl) + rest))));
    assert(tl(b4, 16) == be8(wi) + (be8(maturity) + (be8(pl) + (be8(pdl) + rest))));
}
pub proof fn msg_round(mid: Seq<u8>, sender: Seq<u8>, recipient: Seq<u8>, amount: u64, nonce: u64, wi: u64, dl: u64, pl: u64, pdl: u64, rest: Seq<u8>)
    requires mid.len() == 32, sender.len() == 32, recipient.len() == 32
    ensures
        ({ let s = msg_e(mid, sender, recipient, amount, nonce, wi, dl, pl, pdl, rest);
        s.len() == 152 + rest.len() && un8(s.subrange(0, 8)) == 2 && msg_d(tl(s, 8)) == (mid, sender, recipient, amount, nonce, wi, dl, pl, pdl, rest) })
{ broadcast use peel0; }
/// The encoding followed by something, as it is laid out.
pub open spec fn iek(i: SInput, rest: Seq<u8>) -> Seq<u8> {
    match i {
        SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } =>
            coin_e(utxo_id, owner, amount, asset_id, tx_pointer, witness_index as u64, maturity, 0, 0, rest),
        SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } =>
            coin_e(utxo_id, owner, amount, asset_id, tx_pointer, 0, maturity, predicate.len() as u64, predicate_data.len() as u64, padded(predicate) + (padded(predicate_data) + rest)),
        SInput::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } =>
            be8(1) + (utxo_id.e() + (balance_root + (state_root + (tx_pointer.e() + (contract_id + rest))))),
        SInput::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } =>
            msg_e(message_id, sender, recipient, amount, nonce, witness_index as u64, data.len() as u64, 0, 0, padded(data) + rest),
        SInput::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } =>
            msg_e(message_id, sender, recipient, amount, nonce, 0, data.len() as u64, predicate.len() as u64, predicate_data.len() as u64, padded(data) + (padded(predicate) + (padded(predicate_data) + rest))),
    }
}
pub proof fn input_ek(i: SInput, rest: Seq<u8>) ensures i.e() + rest == iek(i, rest) { broadcast use {cat_cat, cat_empty}; }
impl Wire for SInput {
    open spec fn e(self) -> Seq<u8> {
        match self {
            SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } =>
                coin_e(utxo_id, owner, amount, asset_id, tx_pointer, witness_index as u64, maturity, 0, 0, Seq::empty()),
            SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } =>
                coin_e(utxo_id, owner, amount, asset_id, tx_pointer, 0, maturity, predicate.len() as u64, predicate_data.len() as u64, padded(predicate) + padded(predicate_data)),
            SInput::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } =>
                be8(1) + (utxo_id.e() + (balance_root + (state_root + (tx_pointer.e() + contract_id)))),
            SInput::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } =>
                msg_e(message_id, sender, recipient, amount, nonce, witness_index as u64, data.len() as u64, 0, 0, padded(data)),
            SInput::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } =>
                msg_e(message_id, sender, recipient, amount, nonce, 0, data.len() as u64, predicate.len() as u64, predicate_data.len() as u64, padded(data) + (padded(predicate) + padded(predicate_data))),
        }
    }
    open spec fn d(s: Seq<u8>) -> Option<(Self, int)> {
        if s.len() < 8 { None } else {
            let id = un8(s.subrange(0, 8));
            let b = tl(s, 8);
            if id == 0 {
                if b.len() < 160 { None } else {
                    match coin_d(b) {
                        None => None,
                        Some((utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity, pl, pdl, b)) => match draw(b, pl as int) {
                            None => None,
                            Some((predicate, b)) => match draw(b, pdl as int) {
                                None => None,
                                Some((predicate_data, b)) => Some((
                                    if predicate.len() == 0 { SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index: witness_index as u8, maturity } }
                                    else { SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } },
                                    168 + pad8(pl as int) + pad8(pdl as int))),
                            },
                        },
                    }
                }
            } else if id == 1 {
                if b.len() < 152 { None } else {
                    let utxo_id = (SUtxo::d(b)->0).0;
                    let b = tl(b, 40);
                    let balance_root = b.subrange(0, 32); let b = tl(b, 32);
                    let state_root = b.subrange(0, 32); let b = tl(b, 32);
                    match TxPointer::d(b) {
                        None => None,
                        Some((tx_pointer, _)) => Some((SInput::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id: tl(b, 16).subrange(0, 32) }, 160)),
                    }
                }
            } else if id == 2 {
                if b.len() < 144 { None } else {
                    let (message_id, sender, recipient, amount, nonce, witness_index, dl, pl, pdl, b) = msg_d(b);
                    match draw(b, dl as int) {
                        None => None,
                        Some((data, b)) => match draw(b, pl as int) {
                            None => None,
                            Some((predicate, b)) => match draw(b, pdl as int) {
                                None => None,
                                Some((predicate_data, b)) => Some((
                                    if predicate.len() == 0 { SInput::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index: witness_index as u8, data } }
                                    else { SInput::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } },
                                    152 + pad8(dl as int) + pad8(pl as int) + pad8(pdl as int))),
                            },
                        },
                    }
                }
            } else { None }
        }
    }
    open spec fn wf(self) -> bool {
        match self {
            SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => utxo_id.wf() && owner.len() == 32 && asset_id.len() == 32,
            SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } =>
                utxo_id.wf() && owner.len() == 32 && asset_id.len() == 32 && 0 < predicate.len() <= u64::MAX && predicate_data.len() <= u64::MAX,
            SInput::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => utxo_id.wf() && balance_root.len() == 32 && state_root.len() == 32 && contract_id.len() == 32,
            SInput::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } =>
                message_id.len() == 32 && sender.len() == 32 && recipient.len() == 32 && data.len() <= u64::MAX,
            SInput::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } =>
                message_id.len() == 32 && sender.len() == 32 && recipient.len() == 32 && data.len() <= u64::MAX && 0 < predicate.len() <= u64::MAX && predicate_data.len() <= u64::MAX,
        }
    }
    proof fn round(self, rest: Seq<u8>) {
        broadcast use lens;
        input_ek(self, rest);
        match self {
            SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => {
                coin_round(utxo_id, owner, amount, asset_id, tx_pointer, witness_index as u64, maturity, 0, 0, rest);
                draw0(rest);
            }
            SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => {
                coin_round(utxo_id, owner, amount, asset_id, tx_pointer, 0, maturity, predicate.len() as u64, predicate_data.len() as u64, padded(predicate) + (padded(predicate_data) + rest));
                draw_round(predicate, padded(predicate_data) + rest);
                draw_round(predicate_data, rest);
            }
            SInput::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => {
                broadcast use peel0;
                utxo_id.round(balance_root + (state_root + (tx_pointer.e() + (contract_id + rest))));
                tx_pointer.round(contract_id + rest);
            }
            SInput::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => {
                msg_round(message_id, sender, recipient, amount, nonce, witness_index as u64, data.len() as u64, 0, 0, padded(data) + rest);
                draw_round(data, rest);
                draw0(rest);
            }
            SInput::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => {
                msg_round(message_id, sender, recipient, amount, nonce, 0, data.len() as u64, predicate.len() as u64, predicate_data.len() as u64, padded(data) + (padded(predicate) + (padded(predicate_data) + rest)));
                draw_round(data, padded(predicate) + (padded(predicate_data) + rest));
                draw_round(predicate, padded(predicate_data) + rest);
                draw_round(predicate_data, rest);
            }
        }
    }
    proof fn total(s: Seq<u8>) { broadcast use lens; }
}
/// Every input there can be is well-formed, unless a predicate that owns it is empty.
pub broadcast proof fn input_wf(i: Input)
    ensures #[trigger] i.dv().wf() == match i { Input::CoinPredicate { predicate, .. } | Input::MessagePredicate { predicate, .. } => predicate@.len() > 0, _ => true }
{
    broadcast use grp;
    match i {
        Input::CoinPredicate { predicate, predicate_data, .. } => { vec_max(&predicate); vec_max(&predicate_data); }
        Input::MessageSigned { data, .. } => { vec_max(&data); }
        Input::MessagePredicate { data, predicate, predicate_data, .. } => { vec_max(&data); vec_max(&predicate); vec_max(&predicate_data); }
        _ => {}
    }
}
pub open spec fn ikind(i: Input) -> InputRepr {
    match i { Input::CoinSigned { .. } | Input::CoinPredicate { .. } => InputRepr::Coin, Input::Contract { .. } => InputRepr::Contract, _ => InputRepr::Message }
}
pub open spec fn ikind_of(id: u64) -> Option<InputRepr> { if id == 0 { Some(InputRepr::Coin) } else if id == 1 { Some(InputRepr::Contract) } else if id == 2 { Some(InputRepr::Message) } else { None } }
/// The published offsets are where the fields are.
pub open spec fn at(e: Seq<u8>, k: int, f: Seq<u8>) -> bool { 0 <= k && k + f.len() <= e.len() && e.subrange(k, k + f.len()) == f }
pub proof fn input_offsets(i: SInput) requires i.wf()
    ensures match i {
        SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => at(i.e(), 8, utxo_id.e()) && at(i.e(), 48, owner) && at(i.e(), 88, asset_id) && at(i.e(), 120, tx_pointer.e()) && i.e().len() == 168,
        SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } =>
            at(i.e(), 8, utxo_id.e()) && at(i.e(), 48, owner) && at(i.e(), 88, asset_id) && at(i.e(), 120, tx_pointer.e()) && at(i.e(), 168, predicate) && at(i.e(), 168 + pad8(predicate.len() as int), predicate_data),
        SInput::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => at(i.e(), 8, utxo_id.e()) && at(i.e(), 48, balance_root) && at(i.e(), 80, state_root) && at(i.e(), 112, tx_pointer.e()) && at(i.e(), 128, contract_id),
        SInput::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => at(i.e(), 8, message_id) && at(i.e(), 40, sender) && at(i.e(), 72, recipient) && at(i.e(), 152, data),
        SInput::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } =>
            at(i.e(), 8, message_id) && at(i.e(), 40, sender) && at(i.e(), 72, recipient) && at(i.e(), 152, data) && at(i.e(), 152 + pad8(data.len() as int), predicate)
            && at(i.e(), 152 + pad8(data.len() as int) + pad8(predicate.len() as int), predicate_data),
    }
{
    broadcast use lens;
    let e = i.e();
    match i {
        SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => { coin_at(utxo_id, owner, amount, asset_id, tx_pointer, witness_index as u64, maturity, 0, 0, Seq::empty()); }
        SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => {
            coin_at(utxo_id, owner, amount, asset_id, tx_pointer, 0, maturity, predicate.len() as u64, predicate_data.len() as u64, padded(predicate) + padded(predicate_data));
            let p = padded(predicate) + padded(predicate_data);
            reveal(padded);
            assert(e.subrange(168, 168 + predicate.len() as int) =~= predicate) by { assert forall|k: int| 0 <= k < predicate.len() implies e[168 + k] == predicate[k] by { assert(e.subrange(168, 168 + p.len() as int)[k] == p[k]); } }
            let o = 168 + pad8(predicate.len() as int);
            assert(e.subrange(o, o + predicate_data.len()) =~= predicate_data) by { assert forall|k: int| 0 <= k < predicate_data.len() implies e[o + k] == predicate_data[k] by { assert(e.subrange(168, 168 + p.len() as int)[o - 168 + k] == p[o - 168 + k]); } }
        }
        SInput::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => {
            assert(e.subrange(8, 48) =~= utxo_id.e()); assert(e.subrange(48, 80) =~= balance_root); assert(e.subrange(80, 112) =~= state_root); assert(e.subrange(112, 128) =~= tx_pointer.e()); assert(e.subrange(128, 160) =~= contract_id);
        }
        SInput::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => {
            msg_at(message_id, sender, recipient, amount, nonce, witness_index as u64, data.len() as u64, 0, 0, padded(data));
            reveal(padded);
            assert(e.subrange(152, 152 + data.len() as int) =~= data) by { assert forall|k: int| 0 <= k < data.len() implies e[152 + k] == data[k] by { assert(e.subrange(152, 152 + padded(data).len() as int)[k] == padded(data)[k]); } }
        }
        SInput::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => {
            let p = padded(data) + (padded(predicate) + padded(predicate_data));
            msg_at(message_id, sender, recipient, amount, nonce, 0, data.len() as u64, predicate.len() as u64, predicate_data.len() as u64, p);
            reveal(padded);
            assert(e.subrange(152, 152 + data.len() as int) =~= data) by { assert forall|k: int| 0 <= k < data.len() implies e[152 + k] == data[k] by { assert(e.subrange(152, 152 + p.len() as int)[k] == p[k]); } }
            let o = 152 + pad8(data.len() as int);
            assert(e.subrange(o, o + predicate.len()) =~= predicate) by { assert forall|k: int| 0 <= k < predicate.len() implies e[o + k] == predicate[k] by { assert(e.subrange(152, 152 + p.len() as int)[o - 152 + k] == p[o - 152 + k]); } }
            let q = o + pad8(predicate.len() as int);
            assert(e.subrange(q, q + predicate_data.len()) =~= predicate_data) by { assert forall|k: int| 0 <= k < predicate_data.len() implies e[q + k] == predicate_data[k] by { assert(e.subrange(152, 152 + p.len() as int)[q - 152 + k] == p[q - 152 + k]); } }
        }
    }
}
pub proof fn coin_at(utxo_id: SUtxo, owner: Seq<u8>, amount: u64, asset_id: Seq<u8>, txp: TxPointer, wi: u64, maturity: u64, pl: u64, pdl: u64, rest: Seq<u8>)
    requires utxo_id.wf(), owner.len() == 32, asset_id.len() == 32
    ensures ({ let e = coin_e(utxo_id, owner, amount, asset_id, txp, wi, maturity, pl, pdl, rest);
        e.len() == 168 + rest.len() && at(e, 8, utxo_id.e()) && at(e, 48, owner) && at(e, 88, asset_id) && at(e, 120, txp.e()) && at(e, 168, rest) })
{
    broadcast use lens;
    let e = coin_e(utxo_id, owner, amount, asset_id, txp, wi, maturity, pl, pdl, rest);
    assert(e.subrange(8, 48) =~= utxo_id.e()); assert(e.subrange(48, 80) =~= owner); assert(e.subrange(88, 120) =~= asset_id); assert(e.subrange(120, 136) =~= txp.e()); assert(e.subrange(168, 168 + rest.len() as int) =~= rest);
}
pub proof fn msg_at(mid: Seq<u8>, sender: Seq<u8>, recipient: Seq<u8>, amount: u64, nonce: u64, wi: u64, dl: u64, pl: u64, pdl: u64, rest: Seq<u8>)
    requires mid.len() == 32, sender.len() == 32, recipient.len() == 32
    ensures ({ let e = msg_e(mid, sender, recipient, amount, nonce, wi, dl, pl, pdl, rest);
        e.len() == 152 + rest.len() && at(e, 8, mid) && at(e, 40, sender) && at(e, 72, recipient) && at(e, 152, rest) })
{
    broadcast use lens;
    let e = msg_e(mid, sender, recipient, amount, nonce, wi, dl, pl, pdl, rest);
    assert(e.subrange(8, 40) =~= mid); assert(e.subrange(40, 72) =~= sender); assert(e.subrange(72, 104) =~= recipient); assert(e.subrange(152, 152 + rest.len() as int) =~= rest);
}
/// What is emptied before signing and before predicates are verified.
pub open spec fn utxo0() -> SUtxo { SUtxo { id: zeros(32), ix: 0 } }
pub open spec fn txp0() -> TxPointer { TxPointer { block_height: 0, tx_index: 0 } }
pub open spec fn iprep(i: SInput) -> SInput {
    match i {
        SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => SInput::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer: txp0(), witness_index, maturity },
        SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => SInput::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer: txp0(), maturity, predicate, predicate_data },
        SInput::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => SInput::Contract { utxo_id: utxo0(), balance_root: zeros(32), state_root: zeros(32), tx_pointer: txp0(), contract_id },
        i => i,
    }
}
impl FromSpecImpl<&Input> for InputRepr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: &Input) -> Self { ikind(*a) } }
impl TryFromSpecImpl<u64> for InputRepr { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(a: u64) -> core::result::Result<Self, crate::io::Error>; }
}
@fn InputRepr.utxo_id_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => Some(8usize), InputRepr::Contract => Some(8usize), InputRepr::Message => None })
@fn InputRepr.owner_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => Some(48usize), InputRepr::Contract => None, InputRepr::Message => None })
@fn InputRepr.asset_id_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => Some(88usize), InputRepr::Contract => None, InputRepr::Message => None })
@fn InputRepr.data_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => None, InputRepr::Contract => None, InputRepr::Message => Some(152usize) })
@fn InputRepr.coin_predicate_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => Some(168usize), InputRepr::Contract => None, InputRepr::Message => None })
@fn InputRepr.contract_balance_root_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => None, InputRepr::Contract => Some(48usize), InputRepr::Message => None })
@fn InputRepr.contract_state_root_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => None, InputRepr::Contract => Some(80usize), InputRepr::Message => None })
@fn InputRepr.contract_id_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => None, InputRepr::Contract => Some(128usize), InputRepr::Message => None })
@fn InputRepr.message_id_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => None, InputRepr::Contract => None, InputRepr::Message => Some(8usize) })
@fn InputRepr.message_sender_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => None, InputRepr::Contract => None, InputRepr::Message => Some(40usize) })
@fn InputRepr.message_recipient_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => None, InputRepr::Contract => None, InputRepr::Message => Some(72usize) })
@fn InputRepr.tx_pointer_offset
@props C04
@ens
  r == (match *self { InputRepr::Coin => Some(120usize), InputRepr::Contract => Some(112usize), InputRepr::Message => None })
@fn InputRepr.from_input
@props C01 C24
@ens
  r == ikind(*input)
@fn InputRepr.From<&Input>.from
@props C01
@fn InputRepr.TryFrom<Word>.try_from
@props C01 C03
@ens
  ikind_of(b) is Some ==> r is Ok && r->Ok_0 == ikind_of(b)->0, ikind_of(b) is None ==> r is Err
@derive Input Clone
@fn Input.Clone.clone
@props C01 C06
@ens
  r.dv() == self.dv()
@fn Input.Default.default
@props C01
@fn Input.repr
@props C24
@ens
  r == ikind(*self)
@fn Input.owner
@props C12 C13 C20
@ens
  r@ == pk_hash(*pk)
@fn Input.coin_predicate
@props C24
@ens
  r == (Input::CoinPredicate { utxo_id: utxo_id, owner: owner, amount: amount, asset_id: asset_id, tx_pointer: tx_pointer, maturity: maturity, predicate: predicate, predicate_data: predicate_data })
@fn Input.coin_signed
@props C24
@ens
  r == (Input::CoinSigned { utxo_id: utxo_id, owner: owner, amount: amount, asset_id: asset_id, tx_pointer: tx_pointer, witness_index: witness_index, maturity: maturity })
@fn Input.contract
@props C24
@ens
  r == (Input::Contract { utxo_id: utxo_id, balance_root: balance_root, state_root: state_root, tx_pointer: tx_pointer, contract_id: contract_id })
@fn Input.message_signed
@props C24
@ens
  r == (Input::MessageSigned { message_id: message_id, sender: sender, recipient: recipient, amount: amount, nonce: nonce, witness_index: witness_index, data: data })
@fn Input.message_predicate
@props C24
@ens
  r == (Input::MessagePredicate { message_id: message_id, sender: sender, recipient: recipient, amount: amount, nonce: nonce, data: data, predicate: predicate, predicate_data: predicate_data })
@fn Input.utxo_id
@props C24
@ens
  match *self { Input::CoinPredicate { utxo_id, .. } | Input::CoinSigned { utxo_id, .. } | Input::Contract { utxo_id, .. } => r is Some && *r->0 == utxo_id, _ => r is None }
@fn Input.input_owner
@props C24
@ens
  match *self { Input::CoinPredicate { owner, .. } | Input::CoinSigned { owner, .. } => r is Some && *r->0 == owner, _ => r is None }
@fn Input.asset_id
@props C24
@ens
  match *self { Input::CoinPredicate { asset_id, .. } | Input::CoinSigned { asset_id, .. } => r is Some && *r->0 == asset_id, Input::MessageSigned { .. } | Input::MessagePredicate { .. } => r is Some && r->0@ == zeros(32), _ => r is None }
@fn Input.contract_id
@props C24
@ens
  match *self { Input::Contract { contract_id, .. } => r is Some && *r->0 == contract_id, _ => r is None }
@fn Input.amount
@props C24
@ens
  r == match *self { Input::CoinPredicate { amount, .. } | Input::CoinSigned { amount, .. } | Input::MessageSigned { amount, .. } | Input::MessagePredicate { amount, .. } => Some(amount), _ => None }
@fn Input.witness_index
@props C24
@ens
  r == match *self { Input::CoinSigned { witness_index, .. } | Input::MessageSigned { witness_index, .. } => Some(witness_index), _ => None }
@fn Input.maturity
@props C24
@ens
  r == match *self { Input::CoinPredicate { maturity, .. } | Input::CoinSigned { maturity, .. } => Some(maturity), _ => None }
@fn Input.predicate_offset
@props C04
@ens
  r == match *self { Input::CoinPredicate { .. } => Some(168usize), Input::MessagePredicate { data, .. } => Some((152 + pad8(data@.len() as int)) as usize), _ => None }
@pre
broadcast use grp;
@fn Input.predicate_data_offset
@props C04
@req
  self.dv().e().len() <= usize::MAX
@ens
  r == match *self { Input::CoinPredicate { predicate, .. } => Some((168 + pad8(predicate@.len() as int)) as usize), Input::MessagePredicate { data, predicate, .. } => Some((152 + pad8(data@.len() as int) + pad8(predicate@.len() as int)) as usize), _ => None }
@pre
broadcast use grp;
@fn Input.predicate_len
@props C04 C24
@ens
  r == match *self { Input::CoinPredicate { predicate, .. } | Input::MessagePredicate { predicate, .. } => Some(predicate@.len() as usize), Input::Contract { .. } => None, _ => Some(0usize) }
@pre
broadcast use grp;
@fn Input.predicate_data_len
@props C04 C24
@ens
  r == match *self { Input::CoinPredicate { predicate_data, .. } | Input::MessagePredicate { predicate_data, .. } => Some(predicate_data@.len() as usize), Input::Contract { .. } => None, _ => Some(0usize) }
@pre
broadcast use grp;
@fn Input.message_id
@props C24
@ens
  match *self { Input::MessageSigned { message_id, .. } | Input::MessagePredicate { message_id, .. } => r is Some && *r->0 == message_id, _ => r is None }
@fn Input.tx_pointer
@props C24
@ens
  match *self { Input::CoinPredicate { tx_pointer, .. } | Input::CoinSigned { tx_pointer, .. } | Input::Contract { tx_pointer, .. } => r is Some && *r->0 == tx_pointer, _ => r is None }
@fn Input.input_data
@props C24
@ens
  match *self { Input::MessageSigned { data, .. } | Input::MessagePredicate { data, .. } => r is Some && r->0@ == data@, _ => r is None }
@fn Input.input_predicate
@props C24
@ens
  match *self { Input::CoinPredicate { predicate, .. } | Input::MessagePredicate { predicate, .. } => r is Some && r->0@ == predicate@, _ => r is None }
@fn Input.input_predicate_data
@props C24
@ens
  match *self { Input::CoinPredicate { predicate_data, .. } | Input::MessagePredicate { predicate_data, .. } => r is Some && r->0@ == predicate_data@, _ => r is None }
@fn Input.predicate
@props C24
@ens
  match *self { Input::CoinPredicate { predicate, predicate_data, .. } | Input::MessagePredicate { predicate, predicate_data, .. } => r is Some && (r->0).0@ == predicate@ && (r->0).1@ == predicate_data@, _ => r is None }
@fn Input.is_coin
@props C24
@ens
  r == (*self is CoinSigned || *self is CoinPredicate)
@fn Input.is_message
@props C24
@ens
  r == (*self is MessageSigned || *self is MessagePredicate)
@fn Input.is_coin_signed
@props C24
@ens
  r == (*self is CoinSigned)
@fn Input.is_coin_predicate
@props C24
@ens
  r == (*self is CoinPredicate)
@fn Input.is_message_signed
@props C24
@ens
  r == (*self is MessageSigned)
@fn Input.is_message_predicate
@props C24
@ens
  r == (*self is MessagePredicate)
@fn Input.is_contract
@props C24
@ens
  r == (*self is Contract)
@fn Input.coin_predicate_offset
@props C04
@ens
  r == 168
@fn Input.message_data_offset
@props C04
@ens
  r == 152
@fn Input.balance_root
@props C24
@ens
  match *self { Input::Contract { balance_root, .. } => r is Some && *r->0 == balance_root, _ => r is None }
@fn Input.state_root
@props C24
@ens
  match *self { Input::Contract { state_root, .. } => r is Some && *r->0 == state_root, _ => r is None }
@fn Input.sender
@props C24
@ens
  match *self { Input::MessageSigned { sender, .. } | Input::MessagePredicate { sender, .. } => r is Some && *r->0 == sender, _ => r is None }
@fn Input.recipient
@props C24
@ens
  match *self { Input::MessageSigned { recipient, .. } | Input::MessagePredicate { recipient, .. } => r is Some && *r->0 == recipient, _ => r is None }
@fn Input.nonce
@props C24
@ens
  r == match *self { Input::MessageSigned { nonce, .. } | Input::MessagePredicate { nonce, .. } => Some(nonce), _ => None }
@fn Input.prepare_sign
@props C06 C17
@ens
  final(self).dv() == iprep(old(self).dv())
@pre
broadcast use grp;
@fn Input.prepare_init_predicate
@props C17
@ens
  final(self).dv() == iprep(old(self).dv())
@pre
broadcast use grp;
@fn Input.compute_message_id
@props C19
@ens
  r@ == sha256(sender@ + (recipient@ + (be8(nonce) + (be8(amount) + data@))))
@pre
broadcast use {grp, cat_cat, cat_empty};
@fn Input.predicate_owner
@props C20 C12
@ens
  r@ == code_root(predicate.bv())
@fn Input.is_predicate_owner_valid
@props C20 C12
@ens
  r == (owner@ == code_root(predicate.bv()))
@impl Input.SizedBytes
open spec fn sized_ok(&self) -> bool { self.dv().e().len() <= usize::MAX }
open spec fn sized(&self) -> int { self.dv().e().len() as int }
@impl Input.Read
type E = SInput;
open spec fn ev(&self) -> Self::E { self.dv() }
open spec fn enc(&self) -> Seq<u8> { self.dv().e() }
open spec fn enc_size(&self) -> int { self.dv().e().len() as int }
open spec fn enc_ok(&self) -> bool { self.dv().e().len() <= usize::MAX }
@impl Input.Write
type D = SInput;
open spec fn dvw(&self) -> Self::D { self.dv() }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { SInput::d(buf) }
@fn Input.SizedBytes.serialized_size
@props C02 C04
@pre
broadcast use {grp, lens};
@fn Input.Read.read
@attr #[verifier::spinoff_prover]
@props C01 C02
@pre
broadcast use {grp, lens, cat_hd, cat_tl, sub_base, utxo_split};
proof { base(buf@); input_ek(self.dv(), tl(buf@, self.dv().e().len() as int)); input_wf(*self); }
@fn Input.Write.write
@attr #[verifier::spinoff_prover]
@props C01 C02 C03
@pre
broadcast use {grp, lens};
@fn Input.Write.flush
@props C01
