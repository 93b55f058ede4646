@# Receipts.
@head
pub mod sreceipt {
use vstd::prelude::*; use crate::vx::*;
use crate::receipt::*; use crate::receipt::receipt_repr::ReceiptRepr; use crate::receipt::script_result::ScriptExecutionResult;
use crate::fuel_asm::{InstructionResult, ir_of, ir_word}; use crate::fuel_types::*;
/// A receipt as it travels; results and panic reasons as their words.
#[verifier::ext_equal]
pub enum SRec {
    Call { id: Seq<u8>, to: Seq<u8>, amount: u64, asset_id: Seq<u8>, gas: u64, param1: u64, param2: u64, pc: u64, is: u64 },
    Return { id: Seq<u8>, val: u64, pc: u64, is: u64 },
    ReturnData { id: Seq<u8>, ptr: u64, len: u64, digest: Seq<u8>, data: Seq<u8>, pc: u64, is: u64 },
    Panic { id: Seq<u8>, reason: u64, pc: u64, is: u64 },
    Revert { id: Seq<u8>, ra: u64, pc: u64, is: u64 },
    Log { id: Seq<u8>, ra: u64, rb: u64, rc: u64, rd: u64, pc: u64, is: u64 },
    LogData { id: Seq<u8>, ra: u64, rb: u64, ptr: u64, len: u64, digest: Seq<u8>, data: Seq<u8>, pc: u64, is: u64 },
    Transfer { id: Seq<u8>, to: Seq<u8>, amount: u64, asset_id: Seq<u8>, pc: u64, is: u64 },
    TransferOut { id: Seq<u8>, to: Seq<u8>, amount: u64, asset_id: Seq<u8>, pc: u64, is: u64 },
    ScriptResult { result: u64, gas_used: u64 },
    MessageOut { message_id: Seq<u8>, sender: Seq<u8>, recipient: Seq<u8>, amount: u64, nonce: Seq<u8>, len: u64, digest: Seq<u8>, data: Seq<u8> },
}
pub open spec fn sr_word(r: ScriptExecutionResult) -> u64 { match r { ScriptExecutionResult::Success => 0, ScriptExecutionResult::Revert => 1, ScriptExecutionResult::Panic => 2, ScriptExecutionResult::GenericFailure(v) => v } }
pub open spec fn sr_of(w: u64) -> ScriptExecutionResult { if w == 0 { ScriptExecutionResult::Success } else if w == 1 { ScriptExecutionResult::Revert } else if w == 2 { ScriptExecutionResult::Panic } else { ScriptExecutionResult::GenericFailure(w) } }
impl Dv for Receipt {
    type S = SRec;
    open spec fn dv(&self) -> SRec {
        match *self {
            Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => SRec::Call { id: id@, to: to@, amount, asset_id: asset_id@, gas, param1, param2, pc, is },
            Receipt::Return { id, val, pc, is } => SRec::Return { id: id@, val, pc, is },
            Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => SRec::ReturnData { id: id@, ptr, len, digest: digest@, data: data@, pc, is },
            Receipt::Panic { id, reason, pc, is, .. } => SRec::Panic { id: id@, reason: ir_word(reason), pc, is },
            Receipt::Revert { id, ra, pc, is } => SRec::Revert { id: id@, ra, pc, is },
            Receipt::Log { id, ra, rb, rc, rd, pc, is } => SRec::Log { id: id@, ra, rb, rc, rd, pc, is },
            Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => SRec::LogData { id: id@, ra, rb, ptr, len, digest: digest@, data: data@, pc, is },
            Receipt::Transfer { id, to, amount, asset_id, pc, is } => SRec::Transfer { id: id@, to: to@, amount, asset_id: asset_id@, pc, is },
            Receipt::TransferOut { id, to, amount, asset_id, pc, is } => SRec::TransferOut { id: id@, to: to@, amount, asset_id: asset_id@, pc, is },
            Receipt::ScriptResult { result, gas_used } => SRec::ScriptResult { result: sr_word(result), gas_used },
            Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => SRec::MessageOut { message_id: message_id@, sender: sender@, recipient: recipient@, amount, nonce: nonce@, len, digest: digest@, data: data@ },
        }
    }
}
/// What the encoding does not carry, and what of it the format cannot tell apart.
pub open spec fn unsaid(r: Receipt) -> bool {
    match r { Receipt::Panic { reason, contract_id, .. } => contract_id is None && ir_of(ir_word(reason)) == reason, Receipt::ScriptResult { result, .. } => sr_of(sr_word(result)) == result, _ => true }
}
impl SRec {
    pub open spec fn id(self) -> u64 { match self { SRec::Call { .. } => 0, SRec::Return { .. } => 1, SRec::ReturnData { .. } => 2, SRec::Panic { .. } => 3, SRec::Revert { .. } => 4, SRec::Log { .. } => 5, SRec::LogData { .. } => 6, SRec::Transfer { .. } => 7, SRec::TransferOut { .. } => 8, SRec::ScriptResult { .. } => 9, SRec::MessageOut { .. } => 10 } }
    /// The encoding, without the bytes after it that belong to its size.
    pub open spec fn e(self) -> Seq<u8> {
        be8(self.id()) + match self {
            SRec::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => id + (to + (be8(amount) + (asset_id + (be8(gas) + (be8(param1) + (be8(param2) + (be8(pc) + (be8(is))))))))),
            SRec::Return { id, val, pc, is } => id + (be8(val) + (be8(pc) + (be8(is)))),
            SRec::ReturnData { id, ptr, len, digest, data, pc, is } => id + (be8(ptr) + (be8(len) + (digest + (be8(data.len() as u64) + (padded(data) + (be8(pc) + (be8(is)))))))),
            SRec::Panic { id, reason, pc, is } => id + (be8(reason) + (be8(pc) + (be8(is)))),
            SRec::Revert { id, ra, pc, is } => id + (be8(ra) + (be8(pc) + (be8(is)))),
            SRec::Log { id, ra, rb, rc, rd, pc, is } => id + (be8(ra) + (be8(rb) + (be8(rc) + (be8(rd) + (be8(pc) + (be8(is))))))),
            SRec::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => id + (be8(ra) + (be8(rb) + (be8(ptr) + (be8(len) + (digest + (be8(data.len() as u64) + (padded(data) + (be8(pc) + (be8(is)))))))))),
            SRec::Transfer { id, to, amount, asset_id, pc, is } => id + (to + (be8(amount) + (asset_id + (be8(pc) + (be8(is)))))),
            SRec::TransferOut { id, to, amount, asset_id, pc, is } => id + (to + (be8(amount) + (asset_id + (be8(pc) + (be8(is)))))),
            SRec::ScriptResult { result, gas_used } => be8(result) + (be8(gas_used)),
            SRec::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => message_id + (sender + (recipient + (be8(amount) + (nonce + (be8(len) + (digest + (be8(data.len() as u64) + (padded(data))))))))),
        }
    }
    /// The bytes after the encoding that belong to its size.
    pub open spec fn trail(self) -> int { match self { SRec::ScriptResult { .. } | SRec::MessageOut { .. } => 48, _ => 0 } }
    pub open spec fn size(self) -> int { self.e().len() + self.trail() }
    /// The value that the bytes start with, and how many they take.
    pub open spec fn d(s: Seq<u8>) -> Option<(Self, int)> {
        if s.len() < 8 { None } else {
            let id = un8(s.subrange(0, 8));
            let b = tl(s, 8);
            if id == 0 {
                if b.len() < 144 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let to = b.subrange(0, 32); let b = tl(b, 32);
                    let amount = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let asset_id = b.subrange(0, 32); let b = tl(b, 32);
                    let gas = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let param1 = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let param2 = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::Call { id, to, amount, asset_id, gas, param1, param2, pc, is }, 152))
                }
            }
            else if id == 1 {
                if b.len() < 56 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let val = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::Return { id, val, pc, is }, 64))
                }
            }
            else if id == 2 {
                if b.len() < 96 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let ptr = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let len = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let digest = b.subrange(0, 32); let b = tl(b, 32);
                    let n = un8(b.subrange(0, 8)) as int;
                    if b.len() < 8 + pad8(n) || s.len() < 104 + 8 + pad8(n) { None } else {
                    let data = b.subrange(8, 8 + n); let b = tl(b, 8 + pad8(n));
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::ReturnData { id, ptr, len, digest, data, pc, is }, 104 + 8 + pad8(n)))
                }}
            }
            else if id == 3 {
                if b.len() < 56 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let reason = ir_word(ir_of(un8(b.subrange(0, 8)))); let b = tl(b, 8);
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::Panic { id, reason, pc, is }, 64))
                }
            }
            else if id == 4 {
                if b.len() < 56 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let ra = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::Revert { id, ra, pc, is }, 64))
                }
            }
            else if id == 5 {
                if b.len() < 80 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let ra = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let rb = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let rc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let rd = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::Log { id, ra, rb, rc, rd, pc, is }, 88))
                }
            }
            else if id == 6 {
                if b.len() < 112 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let ra = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let rb = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let ptr = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let len = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let digest = b.subrange(0, 32); let b = tl(b, 32);
                    let n = un8(b.subrange(0, 8)) as int;
                    if b.len() < 8 + pad8(n) || s.len() < 120 + 8 + pad8(n) { None } else {
                    let data = b.subrange(8, 8 + n); let b = tl(b, 8 + pad8(n));
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::LogData { id, ra, rb, ptr, len, digest, data, pc, is }, 120 + 8 + pad8(n)))
                }}
            }
            else if id == 7 {
                if b.len() < 120 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let to = b.subrange(0, 32); let b = tl(b, 32);
                    let amount = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let asset_id = b.subrange(0, 32); let b = tl(b, 32);
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::Transfer { id, to, amount, asset_id, pc, is }, 128))
                }
            }
            else if id == 8 {
                if b.len() < 120 { None } else {
                    let id = b.subrange(0, 32); let b = tl(b, 32);
                    let to = b.subrange(0, 32); let b = tl(b, 32);
                    let amount = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let asset_id = b.subrange(0, 32); let b = tl(b, 32);
                    let pc = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let is = un8(b.subrange(0, 8));
                    Some((SRec::TransferOut { id, to, amount, asset_id, pc, is }, 128))
                }
            }
            else if id == 9 {
                if b.len() < 64 { None } else {
                    let result = sr_word(sr_of(un8(b.subrange(0, 8)))); let b = tl(b, 8);
                    let gas_used = un8(b.subrange(0, 8));
                    Some((SRec::ScriptResult { result, gas_used }, 72))
                }
            }
            else if id == 10 {
                if b.len() < 224 { None } else {
                    let message_id = b.subrange(0, 32); let b = tl(b, 32);
                    let sender = b.subrange(0, 32); let b = tl(b, 32);
                    let recipient = b.subrange(0, 32); let b = tl(b, 32);
                    let amount = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let nonce = b.subrange(0, 32); let b = tl(b, 32);
                    let len = un8(b.subrange(0, 8)); let b = tl(b, 8);
                    let digest = b.subrange(0, 32); let b = tl(b, 32);
                    let n = un8(b.subrange(0, 8)) as int;
                    if b.len() < 8 + pad8(n) || s.len() < 232 + 8 + pad8(n) { None } else {
                    let data = b.subrange(8, 8 + n); let b = tl(b, 8 + pad8(n));
                    Some((SRec::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data }, 232 + 8 + pad8(n)))
                }}
            }
            else { None }
        }
    }
    pub open spec fn wf(self) -> bool {
        match self {
            SRec::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => id.len() == 32 && to.len() == 32 && asset_id.len() == 32,
            SRec::Return { id, val, pc, is } => id.len() == 32,
            SRec::ReturnData { id, ptr, len, digest, data, pc, is } => id.len() == 32 && digest.len() == 32 && data.len() <= u64::MAX,
            SRec::Panic { id, reason, pc, is } => id.len() == 32 && ir_word(ir_of(reason)) == reason,
            SRec::Revert { id, ra, pc, is } => id.len() == 32,
            SRec::Log { id, ra, rb, rc, rd, pc, is } => id.len() == 32,
            SRec::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => id.len() == 32 && digest.len() == 32 && data.len() <= u64::MAX,
            SRec::Transfer { id, to, amount, asset_id, pc, is } => id.len() == 32 && to.len() == 32 && asset_id.len() == 32,
            SRec::TransferOut { id, to, amount, asset_id, pc, is } => id.len() == 32 && to.len() == 32 && asset_id.len() == 32,
            SRec::ScriptResult { result, gas_used } => true,
            SRec::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => message_id.len() == 32 && sender.len() == 32 && recipient.len() == 32 && nonce.len() == 32 && digest.len() == 32 && data.len() <= u64::MAX,
        }
    }
}
/// The encoding in front of other bytes.
pub open spec fn rec_ek(r: SRec, rest: Seq<u8>) -> Seq<u8> {
    match r {
        SRec::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => be8(0) + (id + (to + (be8(amount) + (asset_id + (be8(gas) + (be8(param1) + (be8(param2) + (be8(pc) + (be8(is) + (rest)))))))))),
        SRec::Return { id, val, pc, is } => be8(1) + (id + (be8(val) + (be8(pc) + (be8(is) + (rest))))),
        SRec::ReturnData { id, ptr, len, digest, data, pc, is } => be8(2) + (id + (be8(ptr) + (be8(len) + (digest + (be8(data.len() as u64) + (padded(data) + (be8(pc) + (be8(is) + (rest))))))))),
        SRec::Panic { id, reason, pc, is } => be8(3) + (id + (be8(reason) + (be8(pc) + (be8(is) + (rest))))),
        SRec::Revert { id, ra, pc, is } => be8(4) + (id + (be8(ra) + (be8(pc) + (be8(is) + (rest))))),
        SRec::Log { id, ra, rb, rc, rd, pc, is } => be8(5) + (id + (be8(ra) + (be8(rb) + (be8(rc) + (be8(rd) + (be8(pc) + (be8(is) + (rest)))))))),
        SRec::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => be8(6) + (id + (be8(ra) + (be8(rb) + (be8(ptr) + (be8(len) + (digest + (be8(data.len() as u64) + (padded(data) + (be8(pc) + (be8(is) + (rest))))))))))),
        SRec::Transfer { id, to, amount, asset_id, pc, is } => be8(7) + (id + (to + (be8(amount) + (asset_id + (be8(pc) + (be8(is) + (rest))))))),
        SRec::TransferOut { id, to, amount, asset_id, pc, is } => be8(8) + (id + (to + (be8(amount) + (asset_id + (be8(pc) + (be8(is) + (rest))))))),
        SRec::ScriptResult { result, gas_used } => be8(9) + (be8(result) + (be8(gas_used) + (rest))),
        SRec::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => be8(10) + (message_id + (sender + (recipient + (be8(amount) + (nonce + (be8(len) + (digest + (be8(data.len() as u64) + (padded(data) + (rest)))))))))),
    }
}
pub proof fn rec_ek_is(r: SRec, rest: Seq<u8>) ensures r.e() + rest == rec_ek(r, rest) { broadcast use cat_cat; }
broadcast proof fn ld_hd(x: u64, d: Seq<u8>, c: Seq<u8>, n: int) requires n == 8 + d.len() ensures #[trigger] (be8(x) + (padded(d) + c)).subrange(8, n) == d {
    broadcast use {be8_len, padded_len_is, pad8_range, pad_hd}; assert((be8(x) + (padded(d) + c)).subrange(8, n) =~= (padded(d) + c).subrange(0, d.len() as int));
}
broadcast proof fn ld_tl(x: u64, d: Seq<u8>, c: Seq<u8>, n: int, m: int) requires n == 8 + pad8(d.len() as int), m == n + c.len() ensures #[trigger] (be8(x) + (padded(d) + c)).subrange(n, m) == c {
    broadcast use {be8_len, padded_len_is, pad8_range}; assert((be8(x) + (padded(d) + c)).subrange(n, m) =~= c);
}
/// Decoding the encoding gives the receipt and takes its size, whatever follows.
pub proof fn rec_round(x: SRec, rest: Seq<u8>) requires x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) {
    match x { SRec::Call { .. } => rr_Call(x, rest), SRec::Return { .. } => rr_Return(x, rest), SRec::ReturnData { .. } => rr_ReturnData(x, rest), SRec::Panic { .. } => rr_Panic(x, rest), SRec::Revert { .. } => rr_Revert(x, rest), SRec::Log { .. } => rr_Log(x, rest), SRec::LogData { .. } => rr_LogData(x, rest), SRec::Transfer { .. } => rr_Transfer(x, rest), SRec::TransferOut { .. } => rr_TransferOut(x, rest), SRec::ScriptResult { .. } => rr_ScriptResult(x, rest), SRec::MessageOut { .. } => rr_MessageOut(x, rest) }
}
#[verifier::spinoff_prover] proof fn rr_Call(x: SRec, rest: Seq<u8>) requires x is Call, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use peel; }
#[verifier::spinoff_prover] proof fn rr_Return(x: SRec, rest: Seq<u8>) requires x is Return, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use peel; }
#[verifier::spinoff_prover] proof fn rr_ReturnData(x: SRec, rest: Seq<u8>) requires x is ReturnData, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use {peel, ld_hd, ld_tl}; }
#[verifier::spinoff_prover] proof fn rr_Panic(x: SRec, rest: Seq<u8>) requires x is Panic, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use peel; }
#[verifier::spinoff_prover] proof fn rr_Revert(x: SRec, rest: Seq<u8>) requires x is Revert, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use peel; }
#[verifier::spinoff_prover] proof fn rr_Log(x: SRec, rest: Seq<u8>) requires x is Log, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use peel; }
#[verifier::spinoff_prover] proof fn rr_LogData(x: SRec, rest: Seq<u8>) requires x is LogData, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use {peel, ld_hd, ld_tl}; }
#[verifier::spinoff_prover] proof fn rr_Transfer(x: SRec, rest: Seq<u8>) requires x is Transfer, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use peel; }
#[verifier::spinoff_prover] proof fn rr_TransferOut(x: SRec, rest: Seq<u8>) requires x is TransferOut, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use peel; }
#[verifier::spinoff_prover] proof fn rr_ScriptResult(x: SRec, rest: Seq<u8>) requires x is ScriptResult, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use peel; }
#[verifier::spinoff_prover] proof fn rr_MessageOut(x: SRec, rest: Seq<u8>) requires x is MessageOut, x.wf(), rest.len() >= x.trail() ensures SRec::d(x.e() + rest) == Some((x, x.size())) { broadcast use {peel, ld_hd, ld_tl}; }
pub proof fn rec_total(s: Seq<u8>) ensures SRec::d(s) is Some ==> 8 <= (SRec::d(s)->0).1 <= s.len() { broadcast use pad8_range; }
/// What is sent is what is received.
pub proof fn rec_same(a: Receipt, b: Receipt) requires a.dv() == b.dv(), unsaid(a), unsaid(b) ensures rec_eq(a, b) {}
pub open spec fn rkind(r: Receipt) -> ReceiptRepr { match r { Receipt::Call { .. } => ReceiptRepr::Call, Receipt::Return { .. } => ReceiptRepr::Return, Receipt::ReturnData { .. } => ReceiptRepr::ReturnData, Receipt::Panic { .. } => ReceiptRepr::Panic, Receipt::Revert { .. } => ReceiptRepr::Revert, Receipt::Log { .. } => ReceiptRepr::Log, Receipt::LogData { .. } => ReceiptRepr::LogData, Receipt::Transfer { .. } => ReceiptRepr::Transfer, Receipt::TransferOut { .. } => ReceiptRepr::TransferOut, Receipt::ScriptResult { .. } => ReceiptRepr::ScriptResult, Receipt::MessageOut { .. } => ReceiptRepr::MessageOut } }
pub open spec fn rkind_of(id: u64) -> Option<ReceiptRepr> { if id == 0 { Some(ReceiptRepr::Call) } else if id == 1 { Some(ReceiptRepr::Return) } else if id == 2 { Some(ReceiptRepr::ReturnData) } else if id == 3 { Some(ReceiptRepr::Panic) } else if id == 4 { Some(ReceiptRepr::Revert) } else if id == 5 { Some(ReceiptRepr::Log) } else if id == 6 { Some(ReceiptRepr::LogData) } else if id == 7 { Some(ReceiptRepr::Transfer) } else if id == 8 { Some(ReceiptRepr::TransferOut) } else if id == 9 { Some(ReceiptRepr::ScriptResult) } else if id == 10 { Some(ReceiptRepr::MessageOut) } else { None } }
pub open spec fn vlen(k: ReceiptRepr) -> int { match k { ReceiptRepr::Call => 144, ReceiptRepr::Return => 56, ReceiptRepr::ReturnData => 96, ReceiptRepr::Panic => 56, ReceiptRepr::Revert => 56, ReceiptRepr::Log => 80, ReceiptRepr::LogData => 112, ReceiptRepr::Transfer => 120, ReceiptRepr::TransferOut => 120, ReceiptRepr::ScriptResult => 64, ReceiptRepr::MessageOut => 224 } }
/// Equal, data by its bytes.
pub open spec fn rec_eq(a: Receipt, b: Receipt) -> bool {
    match (a, b) {
        (Receipt::Call { id: a_id, to: a_to, amount: a_amount, asset_id: a_asset_id, gas: a_gas, param1: a_param1, param2: a_param2, pc: a_pc, is: a_is }, Receipt::Call { id: b_id, to: b_to, amount: b_amount, asset_id: b_asset_id, gas: b_gas, param1: b_param1, param2: b_param2, pc: b_pc, is: b_is }) => a_id@ == b_id@ && a_to@ == b_to@ && a_amount == b_amount && a_asset_id@ == b_asset_id@ && a_gas == b_gas && a_param1 == b_param1 && a_param2 == b_param2 && a_pc == b_pc && a_is == b_is,
        (Receipt::Return { id: a_id, val: a_val, pc: a_pc, is: a_is }, Receipt::Return { id: b_id, val: b_val, pc: b_pc, is: b_is }) => a_id@ == b_id@ && a_val == b_val && a_pc == b_pc && a_is == b_is,
        (Receipt::ReturnData { id: a_id, ptr: a_ptr, len: a_len, digest: a_digest, data: a_data, pc: a_pc, is: a_is }, Receipt::ReturnData { id: b_id, ptr: b_ptr, len: b_len, digest: b_digest, data: b_data, pc: b_pc, is: b_is }) => a_id@ == b_id@ && a_ptr == b_ptr && a_len == b_len && a_digest@ == b_digest@ && a_data@ == b_data@ && a_pc == b_pc && a_is == b_is,
        (Receipt::Panic { id: a_id, reason: a_reason, pc: a_pc, is: a_is, contract_id: a_cid }, Receipt::Panic { id: b_id, reason: b_reason, pc: b_pc, is: b_is, contract_id: b_cid }) => a_id@ == b_id@ && a_reason == b_reason && a_pc == b_pc && a_is == b_is && a_cid == b_cid,
        (Receipt::Revert { id: a_id, ra: a_ra, pc: a_pc, is: a_is }, Receipt::Revert { id: b_id, ra: b_ra, pc: b_pc, is: b_is }) => a_id@ == b_id@ && a_ra == b_ra && a_pc == b_pc && a_is == b_is,
        (Receipt::Log { id: a_id, ra: a_ra, rb: a_rb, rc: a_rc, rd: a_rd, pc: a_pc, is: a_is }, Receipt::Log { id: b_id, ra: b_ra, rb: b_rb, rc: b_rc, rd: b_rd, pc: b_pc, is: b_is }) => a_id@ == b_id@ && a_ra == b_ra && a_rb == b_rb && a_rc == b_rc && a_rd == b_rd && a_pc == b_pc && a_is == b_is,
        (Receipt::LogData { id: a_id, ra: a_ra, rb: a_rb, ptr: a_ptr, len: a_len, digest: a_digest, data: a_data, pc: a_pc, is: a_is }, Receipt::LogData { id: b_id, ra: b_ra, rb: b_rb, ptr: b_ptr, len: b_len, digest: b_digest, data: b_data, pc: b_pc, is: b_is }) => a_id@ == b_id@ && a_ra == b_ra && a_rb == b_rb && a_ptr == b_ptr && a_len == b_len && a_digest@ == b_digest@ && a_data@ == b_data@ && a_pc == b_pc && a_is == b_is,
        (Receipt::Transfer { id: a_id, to: a_to, amount: a_amount, asset_id: a_asset_id, pc: a_pc, is: a_is }, Receipt::Transfer { id: b_id, to: b_to, amount: b_amount, asset_id: b_asset_id, pc: b_pc, is: b_is }) => a_id@ == b_id@ && a_to@ == b_to@ && a_amount == b_amount && a_asset_id@ == b_asset_id@ && a_pc == b_pc && a_is == b_is,
        (Receipt::TransferOut { id: a_id, to: a_to, amount: a_amount, asset_id: a_asset_id, pc: a_pc, is: a_is }, Receipt::TransferOut { id: b_id, to: b_to, amount: b_amount, asset_id: b_asset_id, pc: b_pc, is: b_is }) => a_id@ == b_id@ && a_to@ == b_to@ && a_amount == b_amount && a_asset_id@ == b_asset_id@ && a_pc == b_pc && a_is == b_is,
        (Receipt::ScriptResult { result: a_result, gas_used: a_gas_used }, Receipt::ScriptResult { result: b_result, gas_used: b_gas_used }) => a_result == b_result && a_gas_used == b_gas_used,
        (Receipt::MessageOut { message_id: a_message_id, sender: a_sender, recipient: a_recipient, amount: a_amount, nonce: a_nonce, len: a_len, digest: a_digest, data: a_data }, Receipt::MessageOut { message_id: b_message_id, sender: b_sender, recipient: b_recipient, amount: b_amount, nonce: b_nonce, len: b_len, digest: b_digest, data: b_data }) => a_message_id@ == b_message_id@ && a_sender@ == b_sender@ && a_recipient@ == b_recipient@ && a_amount == b_amount && a_nonce@ == b_nonce@ && a_len == b_len && a_digest@ == b_digest@ && a_data@ == b_data@,
        _ => false,
    }
}
impl FromSpecImpl<&Receipt> for ReceiptRepr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: &Receipt) -> Self { rkind(*a) } }
impl TryFromSpecImpl<u64> for ReceiptRepr { open spec fn obeys_try_from_spec() -> bool { false } uninterp spec fn try_from_spec(a: u64) -> core::result::Result<Self, crate::io::Error>; }
impl FromSpecImpl<u64> for ScriptExecutionResult { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: u64) -> Self { sr_of(a) } }
impl FromSpecImpl<ScriptExecutionResult> for u64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: ScriptExecutionResult) -> Self { sr_word(a) } }
}
@derive ReceiptRepr Clone Copy
@keep ReceiptRepr.Copy
@derive ScriptExecutionResult Clone Copy
@keep ScriptExecutionResult.Copy
@fn ScriptExecutionResult.From<Word>.from
@props C18
@fn Word.From<ScriptExecutionResult>.from
@props C18
@fn ReceiptRepr.From<&Receipt>.from
@props C18
@fn ReceiptRepr.TryFrom<Word>.try_from
@props C18 C03
@ens
  rkind_of(b) is Some ==> r is Ok && r->Ok_0 == rkind_of(b)->0, rkind_of(b) is None ==> r is Err
@fn Receipt.variant_len_without_data
@props C18
@ens
  r == vlen(variant)
@fn Receipt.call
@props C19
@ens
  r == (Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is })
@fn Receipt.ret
@props C19
@ens
  r == (Receipt::Return { id, val, pc, is })
@fn Receipt.return_data_with_len
@props C19
@ens
  r == (Receipt::ReturnData { id, ptr, len, digest, data, pc, is })
@fn Receipt.panic
@props C19
@ens
  r == (Receipt::Panic { id, reason, pc, is, contract_id: None })
@fn Receipt.revert
@props C19
@ens
  r == (Receipt::Revert { id, ra, pc, is })
@fn Receipt.log
@props C19
@ens
  r == (Receipt::Log { id, ra, rb, rc, rd, pc, is })
@fn Receipt.log_data_with_len
@props C19
@ens
  r == (Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is })
@fn Receipt.transfer
@props C19
@ens
  r == (Receipt::Transfer { id, to, amount, asset_id, pc, is })
@fn Receipt.transfer_out
@props C19
@ens
  r == (Receipt::TransferOut { id, to, amount, asset_id, pc, is })
@fn Receipt.script_result
@props C19
@ens
  r == (Receipt::ScriptResult { result, gas_used })
@fn Receipt.message_out_with_len
@props C19
@ens
  r == (Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data })
@fn Receipt.return_data
@props C19
@ens
  r == (Receipt::ReturnData { id, ptr, len: pad8(data@.len() as int) as u64, digest, data, pc, is })
@pre
broadcast use grp;
@fn Receipt.log_data
@props C19
@ens
  r == (Receipt::LogData { id, ra, rb, ptr, len: pad8(data@.len() as int) as u64, digest, data, pc, is })
@pre
broadcast use grp;
@fn Receipt.message_out
@props C19
@ens
  r == (Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len: pad8(data@.len() as int) as u64, digest, data })
@pre
broadcast use grp;
@fn Receipt.with_panic_contract_id
@props C19
@ens
  r == match self { Receipt::Panic { id, reason, pc, is, .. } => Receipt::Panic { id, reason, pc, is, contract_id: _contract_id }, x => x }
@fn Receipt.message_out_from_tx_output
@props C19
@ens
  match r {
    Receipt::MessageOut { message_id, sender: s, recipient: t, amount: a, nonce, len, digest, data: d } =>
        nonce@ == sha256(txid@ + seq![idx as u8]) && s == sender && t == recipient && a == amount && d == data && len == pad8(data@.len() as int) && digest@ == sha256(data@)
        && message_id@ == sha256(sender@ + (recipient@ + (nonce@ + (be8(amount) + data@)))),
    _ => false,
  }
@pre
broadcast use grp;
@fn Receipt.id
@props C19
@ens
  match *self { Receipt::Call { id, .. } | Receipt::Return { id, .. } | Receipt::ReturnData { id, .. } | Receipt::Panic { id, .. } | Receipt::Revert { id, .. } | Receipt::Log { id, .. } | Receipt::LogData { id, .. } | Receipt::Transfer { id, .. } | Receipt::TransferOut { id, .. } => r is Some && *r->0 == id, _ => r is None }
@fn Receipt.to
@props C19
@ens
  match *self { Receipt::Call { to, .. } | Receipt::Transfer { to, .. } => r is Some && *r->0 == to, _ => r is None }
@fn Receipt.amount
@props C19
@ens
  r == match *self { Receipt::Call { amount, .. } | Receipt::Transfer { amount, .. } | Receipt::TransferOut { amount, .. } | Receipt::MessageOut { amount, .. } => Some(amount), _ => None }
@fn Receipt.asset_id
@props C19
@ens
  match *self { Receipt::Call { asset_id, .. } | Receipt::Transfer { asset_id, .. } | Receipt::TransferOut { asset_id, .. } => r is Some && *r->0 == asset_id, _ => r is None }
@fn Receipt.gas
@props C19
@ens
  r == match *self { Receipt::Call { gas, .. } => Some(gas), _ => None }
@fn Receipt.param1
@props C19
@ens
  r == match *self { Receipt::Call { param1, .. } => Some(param1), _ => None }
@fn Receipt.param2
@props C19
@ens
  r == match *self { Receipt::Call { param2, .. } => Some(param2), _ => None }
@fn Receipt.pc
@props C19
@ens
  r == match *self { Receipt::Call { pc, .. } | Receipt::Return { pc, .. } | Receipt::ReturnData { pc, .. } | Receipt::Panic { pc, .. } | Receipt::Revert { pc, .. } | Receipt::Log { pc, .. } | Receipt::LogData { pc, .. } | Receipt::Transfer { pc, .. } | Receipt::TransferOut { pc, .. } => Some(pc), _ => None }
@fn Receipt.is
@props C19
@ens
  r == match *self { Receipt::Call { is, .. } | Receipt::Return { is, .. } | Receipt::ReturnData { is, .. } | Receipt::Panic { is, .. } | Receipt::Revert { is, .. } | Receipt::Log { is, .. } | Receipt::LogData { is, .. } | Receipt::Transfer { is, .. } | Receipt::TransferOut { is, .. } => Some(is), _ => None }
@fn Receipt.val
@props C19
@ens
  r == match *self { Receipt::Return { val, .. } => Some(val), _ => None }
@fn Receipt.ptr
@props C19
@ens
  r == match *self { Receipt::ReturnData { ptr, .. } | Receipt::LogData { ptr, .. } => Some(ptr), _ => None }
@fn Receipt.len
@props C19
@ens
  r == match *self { Receipt::ReturnData { len, .. } | Receipt::LogData { len, .. } | Receipt::MessageOut { len, .. } => Some(len), _ => None }
@fn Receipt.digest
@props C19
@ens
  match *self { Receipt::ReturnData { digest, .. } | Receipt::LogData { digest, .. } | Receipt::MessageOut { digest, .. } => r is Some && *r->0 == digest, _ => r is None }
@fn Receipt.data
@props C19
@ens
  match *self { Receipt::ReturnData { data, .. } | Receipt::LogData { data, .. } | Receipt::MessageOut { data, .. } => r is Some && r->0@ == data@, _ => r is None }
@fn Receipt.reason
@props C19
@ens
  r == match *self { Receipt::Panic { reason, .. } => Some(reason), _ => None }
@fn Receipt.ra
@props C19
@ens
  r == match *self { Receipt::Revert { ra, .. } | Receipt::Log { ra, .. } | Receipt::LogData { ra, .. } => Some(ra), _ => None }
@fn Receipt.rb
@props C19
@ens
  r == match *self { Receipt::Log { rb, .. } | Receipt::LogData { rb, .. } => Some(rb), _ => None }
@fn Receipt.rc
@props C19
@ens
  r == match *self { Receipt::Log { rc, .. } => Some(rc), _ => None }
@fn Receipt.rd
@props C19
@ens
  r == match *self { Receipt::Log { rd, .. } => Some(rd), _ => None }
@fn Receipt.to_address
@props C19
@ens
  match *self { Receipt::TransferOut { to, .. } => r is Some && *r->0 == to, _ => r is None }
@fn Receipt.result
@props C19
@ens
  match *self { Receipt::ScriptResult { result, .. } => r is Some && *r->0 == result, _ => r is None }
@fn Receipt.gas_used
@props C19
@ens
  r == match *self { Receipt::ScriptResult { gas_used, .. } => Some(gas_used), _ => None }
@fn Receipt.message_id
@props C19
@ens
  match *self { Receipt::MessageOut { message_id, .. } => r is Some && *r->0 == message_id, _ => r is None }
@fn Receipt.sender
@props C19
@ens
  match *self { Receipt::MessageOut { sender, .. } => r is Some && *r->0 == sender, _ => r is None }
@fn Receipt.recipient
@props C19
@ens
  match *self { Receipt::MessageOut { recipient, .. } => r is Some && *r->0 == recipient, _ => r is None }
@fn Receipt.nonce
@props C19
@ens
  match *self { Receipt::MessageOut { nonce, .. } => r is Some && *r->0 == nonce, _ => r is None }
@fn Receipt.contract_id
@props C19
@ens
  match *self { Receipt::Panic { contract_id: Some(c), .. } => r is Some && *r->0 == c, _ => r is None }
@fn Receipt.is_empty
@props C19
@ens
  r == match *self { Receipt::ReturnData { len, .. } | Receipt::LogData { len, .. } | Receipt::MessageOut { len, .. } => Some(len == 0), _ => None }
@impl Receipt.SizedBytes
open spec fn sized_ok(&self) -> bool { true }
open spec fn sized(&self) -> int { self.dv().size() }
@impl Receipt.Read
type E = SRec;
open spec fn ev(&self) -> Self::E { self.dv() }
open spec fn enc(&self) -> Seq<u8> { self.dv().e() }
open spec fn enc_size(&self) -> int { self.dv().size() }
open spec fn enc_ok(&self) -> bool { true }
@impl Receipt.Write
type D = SRec;
open spec fn dvw(&self) -> Self::D { self.dv() }
open spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)> { SRec::d(buf) }
@fn Receipt.SizedBytes.serialized_size
@props C18
@pre
broadcast use {grp, lens};
@fn Receipt.Read.read
@attr #[verifier::rlimit(240)]
@attr #[verifier::spinoff_prover]
@props C18
@pre
broadcast use {grp, lens, cat_hd, cat_tl, sub_base};
proof { base(buf@); rec_ek_is(self.dv(), tl(buf@, self.dv().e().len() as int)); }
@fn Receipt.Write.write
@attr #[verifier::spinoff_prover]
@props C18 C03
@pre
broadcast use {grp, lens};
@fn Receipt.Write.flush
@props C18
@fn Receipt.Deserializable.from_bytes
@props C18
@fn ReceiptRepr.Clone.clone
@props C19
@ens
  r == *self
@fn ScriptExecutionResult.Clone.clone
@props C19
@ens
  r == *self
