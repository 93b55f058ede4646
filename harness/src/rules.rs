//! C06..C17: identity, validation, fees, balances, checked transactions, preparation.
use crate::gen::*;
use crate::{ck, R};
use fuel_crypto::{Hasher, Message, SecretKey, Signature};
use fuel_tx::field::*;
#[allow(unused_imports)]
use fuel_tx::{Mint, Salt, Script, TxPointer, Create};
#[allow(unused_imports)]
use fuel_tx::field::{Script as _, Salt as _, TxPointer as _};
use fuel_tx::*;
use fuel_types::bytes::SerializableVec;
use std::collections::{BTreeMap, BTreeSet};

pub fn sha(parts: &[&[u8]]) -> B32 {
    let mut v = vec![];
    for p in parts { v.extend_from_slice(p); }
    *Hasher::hash(&v)
}

fn expected_id(t: &Tx) -> B32 { sha(&[&tx_real(&clear_tx(t)).to_bytes()]) }

pub fn c06(r: &mut Rng) -> R {
    let t = gen_tx(r, None);
    let x = tx_real(&t);
    let id = *x.id();
    ck!(tx_spec(&x) == t, "computing the identifier modified the transaction {t:?}");
    ck!(id == expected_id(&t), "identifier is not the hash of the cleared encoding: {t:?}");
    match &x {
        Transaction::Script(s) => { let mut s = s.clone(); ck!(*s.id() == id, "Script::id differs"); s.precompute(); ck!(*s.id() == id, "precomputed id differs: {t:?}"); }
        Transaction::Create(s) => { let mut s = s.clone(); ck!(*s.id() == id, "Create::id differs"); s.precompute(); ck!(*s.id() == id, "precomputed id differs: {t:?}"); }
        Transaction::Mint(s) => { let mut s = s.clone(); ck!(*s.id() == id, "Mint::id differs"); s.precompute(); ck!(*s.id() == id, "precomputed id differs: {t:?}"); }
    }
    // change one element
    let mut u = t.clone();
    let b = 1 + r.below(255) as u8;
    let bit = |v: &mut B32, r: &mut Rng| { let i = r.below(32); v[i] ^= b; };
    match r.below(7) {
        0 => { u.rroot = if t.kind == Kind::Script { r.b32() } else { u.rroot }; }
        1 => if t.kind != Kind::Mint { u.wits.push(r.bytes()); },
        2 => if !u.ins.is_empty() { let i = r.below(u.ins.len()); match &mut u.ins[i] {
            In::CoinSigned { owner, .. } | In::CoinPred { owner, .. } => bit(owner, r),
            In::Contract { cid, .. } => bit(cid, r),
            In::MsgSigned { mid, .. } | In::MsgPred { mid, .. } => bit(mid, r) } },
        3 => if !u.outs.is_empty() { let i = r.below(u.outs.len()); match &mut u.outs[i] {
            Out::Coin { asset, .. } | Out::Change { asset, .. } | Out::Variable { asset, .. } => bit(asset, r),
            Out::Contract { br, .. } => bit(br, r), Out::Message { rcp, .. } => bit(rcp, r), Out::Created { cid, .. } => bit(cid, r) } },
        4 => if !u.ins.is_empty() { let i = r.below(u.ins.len()); match &mut u.ins[i] {
            In::CoinSigned { ti, .. } | In::CoinPred { ti, .. } | In::Contract { ti, .. } => *ti ^= b as u16,
            In::MsgSigned { nonce, .. } | In::MsgPred { nonce, .. } => *nonce ^= b as u64 } },
        5 => if t.kind != Kind::Mint { u.price ^= b as u64 },
        _ => if u.ins.len() > 1 { let (i, j) = (r.below(u.ins.len()), r.below(u.ins.len())); u.ins.swap(i, j); },
    }
    let same = clear_tx(&u) == clear_tx(&t);
    let id2 = *tx_real(&u).id();
    ck!((id2 == id) == same, "identifiers equal = {}, non-malleable content equal = {same}: {t:?} / {u:?}", id2 == id);
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rule {
    // C07
    GasLimit, Maturity, InputsMax, OutputsMax, WitsMax, PredLen, PDataLen, MsgData, PredEmpty, WitIdx,
    // C08
    DupUtxo, DupContract, DupMsg, DupChange, CoinAsset, ChangeAsset,
    // C09
    PairIn, PairOut,
    // C10
    BcIdx, BcLen, SlotMax, SlotOrder, CrInContract, CrOutContract, CrOutVar, CrChange, CrMulti,
    // C11
    ScriptLen, SDataLen, ScCreated, MintHeight, MintNotCoin, MintDup, MintOutMax,
    Other,
}
use Rule::*;
pub fn prop_of(k: Kind, x: Rule) -> &'static str {
    match x {
        GasLimit | Maturity | InputsMax | OutputsMax | WitsMax | PredLen | PDataLen | MsgData | PredEmpty | WitIdx => "C07",
        DupUtxo | DupContract | DupMsg | DupChange | CoinAsset | ChangeAsset => "C08",
        PairIn | PairOut => "C09",
        BcIdx | BcLen | SlotMax | SlotOrder | CrInContract | CrOutContract | CrOutVar | CrChange | CrMulti => "C10",
        ScriptLen | SDataLen | ScCreated | MintHeight | MintNotCoin | MintDup | MintOutMax => "C11",
        Other => if k == Kind::Create { "C10" } else { "C11" },
    }
}
fn rule_of(k: Kind, e: &CheckError) -> Rule {
    use CheckError as E;
    match e {
        E::InputWitnessIndexBounds { .. } => WitIdx,
        E::InputPredicateEmpty { .. } => PredEmpty,
        E::InputPredicateLength { .. } => PredLen,
        E::InputPredicateDataLength { .. } => PDataLen,
        E::InputMessageDataLength { .. } => MsgData,
        E::InputContractAssociatedOutputContract { .. } => PairIn,
        E::OutputContractInputIndex { .. } => PairOut,
        E::DuplicateInputUtxoId { .. } => DupUtxo,
        E::DuplicateMessageInputId { .. } => DupMsg,
        E::DuplicateInputContractId { .. } => DupContract,
        E::TransactionCreateInputContract { .. } => CrInContract,
        E::TransactionCreateOutputContract { .. } => CrOutContract,
        E::TransactionCreateOutputVariable { .. } => CrOutVar,
        E::TransactionCreateOutputChangeNotBaseAsset { .. } => CrChange,
        E::TransactionCreateOutputContractCreatedMultiple { .. } => CrMulti,
        E::TransactionCreateBytecodeLen => BcLen,
        E::TransactionCreateBytecodeWitnessIndex => BcIdx,
        E::TransactionCreateStorageSlotMax => SlotMax,
        E::TransactionCreateStorageSlotOrder => SlotOrder,
        E::TransactionScriptLength => ScriptLen,
        E::TransactionScriptDataLength => SDataLen,
        E::TransactionScriptOutputContractCreated { .. } => ScCreated,
        E::TransactionMintOutputIsNotCoin => MintNotCoin,
        E::TransactionMintIncorrectBlockHeight => MintHeight,
        E::TransactionGasLimit => GasLimit,
        E::TransactionMaturity => Maturity,
        E::TransactionInputsMax => InputsMax,
        E::TransactionOutputsMax => if k == Kind::Mint { MintOutMax } else { OutputsMax },
        E::TransactionWitnessesMax => WitsMax,
        E::TransactionOutputCoinAssetIdDuplicated(_) => MintDup,
        E::TransactionOutputChangeAssetIdDuplicated(_) => DupChange,
        E::TransactionOutputChangeAssetIdNotFound(_) => ChangeAsset,
        E::TransactionOutputCoinAssetIdNotFound(_) => CoinAsset,
        _ => Other,
    }
}

pub fn has_dup<T: Ord>(v: Vec<T>) -> bool { let n = v.len(); v.into_iter().collect::<BTreeSet<_>>().len() != n }

pub fn violated(t: &Tx, h: u64, p: &ConsensusParameters) -> BTreeSet<Rule> {
    let mut v = BTreeSet::new();
    let mut add = |c: bool, x: Rule| { if c { v.insert(x); } };
    if t.kind == Kind::Mint {
        add(t.outs.len() as u64 > p.max_outputs, MintOutMax);
        add(t.bh as u64 != h, MintHeight);
        add(t.outs.iter().any(|o| !matches!(o, Out::Coin { .. })), MintNotCoin);
        add(has_dup(t.outs.iter().filter_map(|o| if let Out::Coin { asset, .. } = o { Some(*asset) } else { None }).collect()), MintDup);
        return v;
    }
    add(t.limit > p.max_gas_per_tx, GasLimit);
    add(t.mat > h, Maturity);
    add(t.ins.len() as u64 > p.max_inputs, InputsMax);
    add(t.outs.len() as u64 > p.max_outputs, OutputsMax);
    add(t.wits.len() as u64 > p.max_witnesses, WitsMax);
    let mut utxos = vec![];
    let mut contracts = vec![];
    let mut msgs = vec![];
    let mut assets = BTreeSet::new();
    for (k, i) in t.ins.iter().enumerate() {
        match i {
            In::CoinSigned { txid, oi, asset, wi, .. } => { utxos.push((*txid, *oi)); assets.insert(*asset); add(*wi as usize >= t.wits.len(), WitIdx); }
            In::CoinPred { txid, oi, asset, pred, pdata, .. } => {
                utxos.push((*txid, *oi)); assets.insert(*asset);
                add(pred.is_empty(), PredEmpty); add(pred.len() as u64 > p.max_predicate_length, PredLen); add(pdata.len() as u64 > p.max_predicate_data_length, PDataLen);
            }
            In::Contract { cid, .. } => {
                contracts.push(*cid);
                let n = t.outs.iter().filter(|o| matches!(o, Out::Contract { ii, .. } if *ii as usize == k)).count();
                add(n != 1, PairIn);
            }
            In::MsgSigned { mid, wi, data, .. } => { msgs.push(*mid); assets.insert([0; 32]); add(*wi as usize >= t.wits.len(), WitIdx); add(data.len() as u64 > p.max_message_data_length, MsgData); }
            In::MsgPred { mid, data, pred, pdata, .. } => {
                msgs.push(*mid); assets.insert([0; 32]); add(data.len() as u64 > p.max_message_data_length, MsgData);
                add(pred.is_empty(), PredEmpty); add(pred.len() as u64 > p.max_predicate_length, PredLen); add(pdata.len() as u64 > p.max_predicate_data_length, PDataLen);
            }
        }
    }
    add(has_dup(utxos), DupUtxo);
    add(has_dup(contracts), DupContract);
    add(has_dup(msgs), DupMsg);
    let mut changes = vec![];
    let mut created = 0;
    for o in &t.outs {
        match o {
            Out::Coin { asset, .. } => add(!assets.contains(asset), CoinAsset),
            Out::Change { asset, .. } => { changes.push(*asset); add(!assets.contains(asset), ChangeAsset); if t.kind == Kind::Create { add(*asset != [0; 32], CrChange) } }
            Out::Contract { ii, .. } => { add(!matches!(t.ins.get(*ii as usize), Some(In::Contract { .. })), PairOut); if t.kind == Kind::Create { add(true, CrOutContract) } }
            Out::Variable { .. } => if t.kind == Kind::Create { add(true, CrOutVar) },
            Out::Created { .. } => { created += 1; if t.kind == Kind::Script { add(true, ScCreated) } }
            _ => {}
        }
    }
    add(has_dup(changes), DupChange);
    if t.kind == Kind::Script {
        add(t.script.len() as u64 > p.max_script_length, ScriptLen);
        add(t.sdata.len() as u64 > p.max_script_data_length, SDataLen);
    } else {
        add(created > 1, CrMulti);
        match t.wits.get(t.bwi as usize) {
            None => add(true, BcIdx),
            Some(w) => add(w.len() as u64 > p.contract_max_size || (w.len() / 4) as u64 != t.blen, BcLen),
        }
        add(t.slots.len() as u64 > p.max_storage_slots, SlotMax);
        add(t.slots.windows(2).any(|w| w[0].0 > w[1].0), SlotOrder);
        add(t.ins.iter().any(|i| matches!(i, In::Contract { .. })), CrInContract);
    }
    v
}

fn small_b32(r: &mut Rng, pool: usize) -> B32 {
    let mut b = [0u8; 32];
    let k = r.below(pool) as u8;
    match r.below(3) { 0 => b[31] = k, 1 => b[0] = k, _ => b = [k; 32] }
    b
}

/// A mostly valid transaction with parameters at or near its own sizes, then a few deviations.
pub fn near_valid(r: &mut Rng, kind: Kind) -> (Tx, u64, ConsensusParameters) {
    let mut t = empty(kind);
    let mut h = match r.below(4) { 0 => 0, 1 => r.below(100) as u64, 2 => u32::MAX as u64, _ => r.next() as u32 as u64 };
    if kind != Kind::Mint && r.chance(1, 8) { h = r.word(); }
    let assets: Vec<B32> = { let mut v = vec![[0u8; 32]]; for _ in 0..r.below(4) { v.push(r.b32()); } v };
    let dup = r.chance(1, 3); // small pools so duplicates occur
    let key = |r: &mut Rng| if dup { small_b32(r, 6) } else { r.b32() };
    if kind == Kind::Mint {
        t.bh = h as u32;
        t.ti = r.next() as u16;
        for _ in 0..r.count() { let asset = if dup { small_b32(r, 12) } else { r.b32() }; t.outs.push(Out::Coin { to: r.b32(), amount: r.word(), asset }); }
        if r.chance(1, 4) && !t.outs.is_empty() { let i = r.below(t.outs.len()); let k = 1 + r.below(5); t.outs[i] = gen_out(r, k); }
        let hh = if r.chance(1, 4) { match r.below(4) { 0 => h + 1, 1 => h.wrapping_sub(1), 2 => h | (1 << 32), _ => r.word() } } else { h };
        let p = params(r, &t);
        return (t, hh, p);
    }
    t.price = r.word();
    t.limit = r.word();
    t.mat = match r.below(6) { 0 => h, 1 => h.wrapping_add(1), 2 => 0, 3 => h.wrapping_sub(1), 4 => r.word(), _ => h / 2 };
    let big = r.chance(1, 12);
    // now and then more elements than a byte can count
    let wide = if r.chance(1, 150) { 1 + r.below(3) } else { 0 };
    let nin = if wide == 1 { 256 + r.below(8) } else if big { r.below(40) } else { r.count() };
    let nw = if wide == 2 { 254 + r.below(8) } else { 1 + r.count() };
    if wide == 3 { for _ in 0..250 + r.below(10) { let m = Out::Message { rcp: r.b32(), amount: r.word() }; t.outs.push(m); } }
    for _ in 0..nw { let b = r.bytes(); t.wits.push(b); }
    for k in 0..nin {
        // a position above 255 may share its low byte with another contract input, both claiming one output
        let twin = k > 255 && kind == Kind::Script && matches!(t.ins[k - 256], In::Contract { .. });
        let kk = if twin { *r.pick(&[2usize, 2, 2, 0]) } else if k > 255 && r.bool() { 0 } else if kind == Kind::Create { *r.pick(&[0usize, 1, 3, 4]) } else { r.below(5) };
        let mut i = gen_in(r, kk);
        match &mut i {
            In::CoinSigned { txid, oi, asset, wi, .. } => { *txid = key(r); if dup { *oi = r.below(2) as u8 } *asset = *r.pick(&assets); *wi = slot(r, nw); }
            In::CoinPred { txid, oi, asset, .. } => { *txid = key(r); if dup { *oi = r.below(2) as u8 } *asset = *r.pick(&assets); }
            In::Contract { cid, txid, .. } => { *cid = key(r); *txid = key(r); }
            In::MsgSigned { mid, wi, .. } => { *mid = key(r); *wi = slot(r, nw); }
            In::MsgPred { mid, .. } => { *mid = key(r); }
        }
        if wide == 1 && !dup {
            let (In::CoinSigned { txid: x, .. } | In::CoinPred { txid: x, .. } | In::Contract { cid: x, .. } | In::MsgSigned { mid: x, .. } | In::MsgPred { mid: x, .. }) = &mut i;
            x[4] = (k >> 8) as u8;
            x[5] = k as u8;
        }
        if wide == 1 { if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = &mut i { if pred.is_empty() { pred.push(1) } } }
        if matches!(i, In::Contract { .. }) && !(twin && r.chance(7, 8)) { t.outs.push(Out::Contract { ii: k as u8, br: r.b32(), sr: r.b32() }); }
        t.ins.push(i);
    }
    let have: Vec<B32> = t.ins.iter().filter_map(|i| match i { In::CoinSigned { asset, .. } | In::CoinPred { asset, .. } => Some(*asset), In::Contract { .. } => None, _ => Some([0; 32]) }).collect();
    let mut changed = BTreeSet::new();
    for _ in 0..r.count() {
        match r.below(5) {
            0 | 1 if !have.is_empty() => { let a = *r.pick(&have); t.outs.push(Out::Coin { to: r.b32(), amount: r.word(), asset: a }); }
            2 if !have.is_empty() => { let a = *r.pick(&have); if (kind == Kind::Script || a == [0; 32]) && changed.insert(a) { t.outs.push(Out::Change { to: r.b32(), amount: r.word(), asset: a }); } }
            3 => t.outs.push(Out::Message { rcp: r.b32(), amount: r.word() }),
            4 if kind == Kind::Script => { let o = gen_out(r, 4); t.outs.push(o); }
            _ => {}
        }
    }
    if kind == Kind::Create {
        if r.bool() { t.outs.push(Out::Created { cid: r.b32(), sr: r.b32() }); }
        t.bwi = slot(r, nw);
        t.blen = (t.wits[t.bwi as usize].len() / 4) as u64;
        t.salt = r.b32();
        let ns = if wide == 3 { 250 + r.below(20) } else { r.count() };
        for _ in 0..ns { let s = (key(r), r.b32()); t.slots.push(s); }
        t.slots.sort();
    } else {
        t.script = r.bytes();
        t.sdata = r.bytes();
        t.rroot = r.b32();
    }
    // shuffle outputs
    for i in (1..t.outs.len()).rev() { let j = r.below(i + 1); t.outs.swap(i, j); }
    // deviations
    let n = match r.below(4) { 0 => 0, 1 | 2 => 1, _ => 2 };
    for _ in 0..n { deviate(r, &mut t); }
    if r.chance(1, 8) { coincide(r, &mut t); }
    let p = params(r, &t);
    (t, h, p)
}

fn deviate(r: &mut Rng, t: &mut Tx) {
    let ni = t.ins.len();
    let no = t.outs.len();
    match r.below(20) {
        0 if ni > 1 => { // copy a key from one input to another
            let (a, b) = (r.below(ni), r.below(ni));
            let src = t.ins[a].clone();
            match (&src, &mut t.ins[b]) {
                (In::CoinSigned { txid, oi, .. } | In::CoinPred { txid, oi, .. }, In::CoinSigned { txid: x, oi: y, .. } | In::CoinPred { txid: x, oi: y, .. }) => { *x = *txid; *y = if r.chance(1, 4) { oi.wrapping_add(1) } else { *oi }; }
                (In::Contract { cid, .. }, In::Contract { cid: x, .. }) => *x = *cid,
                (In::MsgSigned { mid, .. } | In::MsgPred { mid, .. }, In::MsgSigned { mid: x, .. } | In::MsgPred { mid: x, .. }) => *x = *mid,
                (In::Contract { txid, oi, .. }, In::CoinSigned { txid: x, oi: y, .. } | In::CoinPred { txid: x, oi: y, .. }) => { *x = *txid; *y = *oi; }
                _ => {}
            }
        }
        1 if ni > 0 => { let a = r.below(ni); let x = t.ins[a].clone(); t.ins.push(x); }
        2 if ni > 0 => { let a = r.below(ni); t.ins.remove(a); }
        3 if no > 0 => { let a = r.below(no); let x = t.outs[a].clone(); let at = r.below(no + 1); t.outs.insert(at, x); }
        4 if no > 0 => { let a = r.below(no); t.outs.remove(a); }
        5 if no > 0 => { let a = r.below(no); match &mut t.outs[a] { Out::Contract { ii, .. } => *ii = if r.bool() { r.below(ni + 2) as u8 } else { r.byte() }, Out::Coin { asset, .. } | Out::Change { asset, .. } => *asset = if r.bool() { [0; 32] } else { r.b32() }, _ => {} } }
        6 => { let k = r.below(6); let o = gen_out(r, k); let at = r.below(no + 1); t.outs.insert(at, o); }
        7 => { let k = r.below(5); let i = gen_in(r, k); let at = r.below(ni + 1); t.ins.insert(at, i); }
        8 if ni > 0 => { let a = r.below(ni); let n = t.wits.len(); match &mut t.ins[a] { In::CoinSigned { wi, .. } | In::MsgSigned { wi, .. } => *wi = (n + r.below(2)) as u8, _ => {} } }
        9 if ni > 0 => { let a = r.below(ni); match &mut t.ins[a] { In::CoinPred { pred, .. } | In::MsgPred { pred, .. } => pred.clear(), _ => {} } }
        10 if !t.wits.is_empty() => { let a = r.below(t.wits.len()); t.wits.remove(a); }
        11 => { let b = r.bytes(); t.wits.push(b); }
        12 if t.kind == Kind::Create => t.blen = t.blen.wrapping_add(1 + r.below(4) as u64),
        13 if t.kind == Kind::Create => t.bwi = (t.wits.len() + r.below(2)) as u8,
        14 if t.slots.len() > 1 => { let (a, b) = (r.below(t.slots.len()), r.below(t.slots.len()));
            if r.bool() { t.slots.swap(a, b) } else { let a = a.min(t.slots.len() - 2); let k = *r.pick(&[0, 1, 7, 8, 15, 16, 23, 24, 30, 31, 31, 31]); t.slots[a + 1].0 = t.slots[a].0; t.slots[a + 1].0[k] = t.slots[a].0[k].wrapping_sub(1 + r.below(2) as u8); } }
        15 if t.kind == Kind::Create => { t.outs.push(Out::Created { cid: r.b32(), sr: r.b32() }); }
        16 if no > 1 => { let (a, b) = (r.below(no), r.below(no)); t.outs.swap(a, b); }
        17 if ni > 1 => { let (a, b) = (r.below(ni), r.below(ni)); t.ins.swap(a, b); }
        18 if t.kind == Kind::Create && !t.wits.is_empty() => { let b = (t.bwi as usize).min(t.wits.len() - 1); let w = &mut t.wits[b]; if r.bool() { w.push(1) } else { w.pop(); } }
        _ => {}
    }
}

/// each limit is at, one above, one below, or far above what the transaction uses
fn lim(r: &mut Rng, used: u64) -> u64 {
    match r.below(12) {
        0 | 1 => used,
        2 => used.saturating_sub(1),
        3 => used.saturating_add(1),
        4 if used == 0 => 0,
        5 => u64::MAX,
        6 => (1u64 << *r.pick(&[8, 16, 32, 33, 48, 63])).saturating_add(r.below(3) as u64).max(used),
        _ => used.saturating_add(1 + r.below(1000) as u64),
    }
}
pub fn params(r: &mut Rng, t: &Tx) -> ConsensusParameters {
    let (mut pl, mut pdl, mut ml) = (0, 0, 0);
    for i in &t.ins {
        match i {
            In::CoinPred { pred, pdata, .. } => { pl = pl.max(pred.len()); pdl = pdl.max(pdata.len()); }
            In::MsgPred { pred, pdata, data, .. } => { pl = pl.max(pred.len()); pdl = pdl.max(pdata.len()); ml = ml.max(data.len()); }
            In::MsgSigned { data, .. } => ml = ml.max(data.len()),
            _ => {}
        }
    }
    let w = t.wits.get(t.bwi as usize).map_or(0, |w| w.len());
    ConsensusParameters {
        contract_max_size: lim(r, w as u64), max_inputs: lim(r, t.ins.len() as u64), max_outputs: lim(r, t.outs.len() as u64),
        max_witnesses: lim(r, t.wits.len() as u64), max_gas_per_tx: lim(r, t.limit), max_script_length: lim(r, t.script.len() as u64),
        max_script_data_length: lim(r, t.sdata.len() as u64), max_storage_slots: lim(r, t.slots.len() as u64),
        max_predicate_length: lim(r, pl as u64), max_predicate_data_length: lim(r, pdl as u64),
        gas_price_factor: r.word().max(1), gas_per_byte: r.word(), max_message_data_length: lim(r, ml as u64),
    }
}

fn generous(t: &Tx) -> ConsensusParameters {
    let big = 1u64 << 40;
    ConsensusParameters { contract_max_size: big, max_inputs: big, max_outputs: big, max_witnesses: big, max_gas_per_tx: t.limit.max(big),
        max_script_length: big, max_script_data_length: big, max_storage_slots: big, max_predicate_length: big, max_predicate_data_length: big,
        gas_price_factor: 1, gas_per_byte: 0, max_message_data_length: big }
}

fn check_rules(prop: &str, t: &Tx, h: u64, p: &ConsensusParameters) -> R {
    let v = violated(t, h, p);
    let x = tx_real(t);
    let res = x.check_without_signatures(h, p);
    let inner = match &x {
        Transaction::Script(s) => s.check_without_signatures(h, p),
        Transaction::Create(s) => s.check_without_signatures(h, p),
        Transaction::Mint(s) => s.check_without_signatures(h, p),
    };
    ck!(res == inner, "Transaction and variant checks differ: {res:?} {inner:?}");
    let mine: Vec<&Rule> = v.iter().filter(|x| prop_of(t.kind, **x) == prop).collect();
    match res {
        Ok(()) => ck!(mine.is_empty(), "accepted although {mine:?} is violated at height {h} with {p:?}: {t:?}"),
        Err(e) => {
            let k = rule_of(t.kind, &e);
            if prop_of(t.kind, k) == prop { ck!(v.contains(&k), "rejected with {e:?}, but the rules violated are {v:?}; height {h}, {p:?}, {t:?}"); }
        }
    }
    Ok(())
}

pub fn validation(prop: &'static str, r: &mut Rng) -> R {
    let kind = match prop {
        "C09" => Kind::Script,
        "C10" => Kind::Create,
        "C11" => if r.bool() { Kind::Script } else { Kind::Mint },
        _ => if r.bool() { Kind::Script } else { Kind::Create },
    };
    let (t, h, mut p) = near_valid(r, kind);
    // concentrate on the rules of this property: make the other limits generous most of the time
    if r.chance(2, 3) {
        let g = generous(&t);
        match prop {
            "C07" => { p.contract_max_size = g.contract_max_size; p.max_script_length = g.max_script_length; p.max_script_data_length = g.max_script_data_length; p.max_storage_slots = g.max_storage_slots;
                // one limit of mine at a time
                let keep = r.below(8);
                let q = p;
                p = g;
                match keep { 0 => p.max_inputs = q.max_inputs, 1 => p.max_outputs = q.max_outputs, 2 => p.max_witnesses = q.max_witnesses, 3 => p.max_gas_per_tx = q.max_gas_per_tx,
                    4 => p.max_predicate_length = q.max_predicate_length, 5 => p.max_predicate_data_length = q.max_predicate_data_length, 6 => p.max_message_data_length = q.max_message_data_length, _ => {} }
            }
            "C10" => p = ConsensusParameters { contract_max_size: p.contract_max_size, max_storage_slots: p.max_storage_slots, ..g },
            "C11" => p = ConsensusParameters { max_script_length: p.max_script_length, max_script_data_length: p.max_script_data_length, max_outputs: if kind == Kind::Mint { p.max_outputs } else { g.max_outputs }, ..g },
            _ => p = g,
        }
    }
    let mut t = t;
    if prop != "C07" && r.chance(3, 4) { t.mat = t.mat.min(h); }
    check_rules(prop, &t, h, &p)
}

pub fn keys() -> &'static Vec<(SecretKey, B32)> {
    static K: std::sync::OnceLock<Vec<(SecretKey, B32)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        (1u8..=24).map(|k| {
            let mut b = [0u8; 32];
            b[31] = k; b[7] = k.wrapping_mul(7); b[0] = k;
            let s = SecretKey::try_from(&b[..]).expect("key");
            let owner = *s.public_key().hash();
            (s, owner)
        }).collect()
    })
}
/// one of a few keys, so that keys repeat
pub fn few(r: &mut Rng) -> &'static (SecretKey, B32) { &keys()[r.below(6)] }
pub fn sign(k: &SecretKey, id: &B32) -> Vec<u8> {
    let m = unsafe { Message::from_bytes_unchecked(*id) };
    Signature::sign(k, &m).as_ref().to_vec()
}
fn authentic(w: Option<&Vec<u8>>, id: &B32, owner: &B32) -> bool {
    let Some(w) = w else { return false };
    if w.len() != 64 { return false }
    let mut s = [0u8; 64];
    s.copy_from_slice(w);
    let sig = unsafe { Signature::from_bytes_unchecked(s) };
    let m = unsafe { Message::from_bytes_unchecked(*id) };
    match sig.recover(&m) { Ok(pk) => *pk.hash() == *owner, Err(_) => false }
}
pub fn merkle_root(code: &[u8]) -> B32 {
    fn node(l: &[B32]) -> B32 {
        if l.len() == 1 { return l[0]; }
        let mut k = 1;
        while k * 2 < l.len() { k *= 2; }
        sha(&[&[1u8], &node(&l[..k]), &node(&l[k..])])
    }
    let leaves: Vec<B32> = code.chunks(8).map(|c| { let mut b = [0u8; 8]; b[..c.len()].copy_from_slice(c); sha(&[&[0u8], &b]) }).collect();
    if leaves.is_empty() { sha(&[]) } else { node(&leaves) }
}

/// the index of one of `n` witnesses, often the last
fn slot(r: &mut Rng, n: usize) -> u8 { let m = n.min(256); (if r.chance(1, 4) { m - 1 } else { r.below(m) }) as u8 }

/// inputs owned by the test keys or by predicates
fn owned_tx(r: &mut Rng, kind: Kind, good: bool) -> Tx {
    let mut t = gen_tx(r, Some(kind));
    if t.wits.is_empty() { t.wits.push(vec![]); }
    while r.bool() { let b = r.bytes(); t.wits.push(b); }
    if r.chance(1, 40) { let n = 250 + r.below(9); while t.wits.len() < n { t.wits.push(vec![]); } }
    let nw = t.wits.len();
    for i in &mut t.ins {
        let o = few(r).1;
        match i {
            In::CoinSigned { owner, wi, .. } => { *owner = o; *wi = slot(r, nw); }
            In::MsgSigned { rcp, wi, .. } => { *rcp = o; *wi = slot(r, nw); }
            In::CoinPred { owner, pred, .. } => { if good || r.bool() { *owner = merkle_root(pred) } }
            In::MsgPred { rcp, pred, .. } => { if good || r.bool() { *rcp = merkle_root(pred) } }
            _ => {}
        }
    }
    t
}

pub fn c12(r: &mut Rng) -> R {
    let kind = *r.pick(&[Kind::Script, Kind::Create]);
    let good = r.chance(4, 5);
    let mut t = owned_tx(r, kind, good);
    let id = expected_id(&t);
    // sign: each signed input gets its own witness most of the time
    let share = r.chance(1, 4);
    if !share { let mut n = 0; let cnt = t.ins.iter().filter(|i| matches!(i, In::CoinSigned { .. } | In::MsgSigned { .. })).count();
        while t.wits.len() < cnt { t.wits.push(vec![]); }
        let off = r.below(t.wits.len() - cnt + 1);
        for i in &mut t.ins { if let In::CoinSigned { wi, .. } | In::MsgSigned { wi, .. } = i { *wi = (off + n) as u8; n += 1; } } }
    let refs: Vec<(usize, usize, B32)> = t.ins.iter().enumerate().filter_map(|(k, i)| match i { In::CoinSigned { owner, wi, .. } => Some((k, *wi as usize, *owner)), In::MsgSigned { rcp, wi, .. } => Some((k, *wi as usize, *rcp)), _ => None }).collect();
    for (_, w, o) in &refs { let k = &keys().iter().find(|k| k.1 == *o).unwrap().0; t.wits[*w] = sign(k, &id); }
    let dev = r.below(18);
    if !refs.is_empty() {
        let (k, w, o) = *r.pick(&refs);
        match dev {
            0 => { let i = r.below(64); t.wits[w].resize(64, 0); t.wits[w][i] ^= 1 << r.below(8); }
            1 => { t.wits[w].pop(); }
            2 => t.wits[w].push(0),
            3 => { let other = keys().iter().find(|x| x.1 != o).unwrap(); t.wits[w] = sign(&other.0, &id); }
            4 => { let mut d = id; d[r.below(32)] ^= 1; let key = keys().iter().find(|x| x.1 == o).unwrap(); t.wits[w] = sign(&key.0, &d); }
            5 => { let n = t.wits.len(); match &mut t.ins[k] { In::CoinSigned { wi, .. } | In::MsgSigned { wi, .. } => *wi = (n + r.below(3)) as u8, _ => {} } }
            6 => t.wits[w] = vec![0; 64],
            7 => t.wits[w] = r.bytes_n(64),
            8 => match &mut t.ins[k] { In::CoinSigned { owner, .. } => owner[r.below(32)] ^= 1, In::MsgSigned { rcp, .. } => rcp[r.below(32)] ^= 1, _ => {} },
            9 => t.wits[w].clear(),
            _ => {}
        }
    }
    if dev == 10 && !t.ins.is_empty() { let k = r.below(t.ins.len()); match &mut t.ins[k] { In::CoinPred { pred, .. } | In::MsgPred { pred, .. } => { let j = r.below(pred.len()); pred[j] ^= 1; } _ => {} } }
    if dev == 11 { t.price ^= 1; }
    if (dev == 12 || dev == 13) && !t.ins.is_empty() { // an owner off by one bit, or one that stands elsewhere in the transaction
        let n = t.ins.len();
        let k = r.below(n);
        let other = match &t.ins[r.below(n)] { In::CoinSigned { asset, owner, .. } | In::CoinPred { asset, owner, .. } => if r.bool() { *asset } else { *owner }, In::Contract { cid, .. } => *cid, In::MsgSigned { snd, mid, .. } | In::MsgPred { snd, mid, .. } => if r.bool() { *snd } else { *mid } };
        let bit = (*r.pick(&[0, 31, 31, 15, 8]), 1u8 << r.below(8));
        match &mut t.ins[k] { In::CoinSigned { owner: o, .. } | In::CoinPred { owner: o, .. } | In::MsgSigned { rcp: o, .. } | In::MsgPred { rcp: o, .. } => if dev == 12 { o[bit.0] ^= bit.1 } else { *o = other }, _ => {} }
    }
    if dev == 14 { coincide(r, &mut t); }
    if dev >= 15 { // the signature of a party that does not own the input
        let k = r.below(6);
        if let Some((i, w, o)) = refs.get(r.below(refs.len().max(1))).copied() {
            let (key, addr) = &keys()[k];
            if *addr != o {
                match &mut t.ins[i] {
                    In::MsgSigned { snd, mid, .. } => if r.chance(3, 4) { *snd = *addr } else { *mid = *addr },
                    In::CoinSigned { asset, txid, .. } => if r.bool() { *asset = *addr } else { *txid = *addr },
                    _ => {}
                }
                if r.bool() { match &mut t.ins[i] { In::MsgSigned { rcp: o, .. } | In::CoinSigned { owner: o, .. } => *o = [0; 32], _ => {} } }
                let id = expected_id(&t);
                for (_, w, o) in &refs { let k = &keys().iter().find(|k| k.1 == *o).unwrap().0; t.wits[*w] = sign(k, &id); }
                t.wits[w] = sign(key, &id);
            }
        }
    }
    if r.chance(1, 300) && !t.wits.is_empty() { // an input that no byte can count
        while t.ins.len() < 256 { t.ins.push(In::Contract { txid: r.b32(), oi: 0, br: [0; 32], sr: [0; 32], bh: 0, ti: 0, cid: r.b32() }); }
        let pred = r.bytes_n(9);
        let mut owner = merkle_root(&pred);
        if r.bool() { owner[5] ^= 1 }
        t.ins.push(In::CoinPred { txid: r.b32(), oi: 0, owner, amount: 1, asset: [0; 32], bh: 0, ti: 0, mat: 0, pred, pdata: vec![] });
        let id = expected_id(&t);
        for (_, w, o) in &refs { let k = &keys().iter().find(|k| k.1 == *o).unwrap().0; t.wits[*w] = sign(k, &id); }
        if r.chance(1, 3) { if let Some((_, w, _)) = refs.first() { let w = *w as u8; let o = keys()[0].1; t.ins.push(In::CoinSigned { txid: r.b32(), oi: 1, owner: o, amount: 0, asset: [0; 32], bh: 0, ti: 0, wi: w, mat: 0 }); } }
    }
    let id = expected_id(&t);
    let ok_in = |i: &In| match i {
        In::CoinSigned { owner, wi, .. } => authentic(t.wits.get(*wi as usize), &id, owner),
        In::MsgSigned { rcp, wi, .. } => authentic(t.wits.get(*wi as usize), &id, rcp),
        In::CoinPred { owner, pred, .. } => *owner == merkle_root(pred),
        In::MsgPred { rcp, pred, .. } => *rcp == merkle_root(pred),
        In::Contract { .. } => true,
    };
    let want = t.ins.iter().all(ok_in);
    let x = tx_real(&t);
    let got = x.check_signatures();
    ck!(got.is_ok() == want, "check_signatures is {got:?}, every input authentic = {want}: {t:?}");
    match &x {
        Transaction::Script(s) => { let mut s = s.clone(); ck!(s.check_signatures() == got, "Script::check_signatures differs"); s.precompute(); ck!(s.check_signatures() == got, "after precompute differs"); }
        Transaction::Create(s) => { let mut s = s.clone(); ck!(s.check_signatures() == got, "Create::check_signatures differs"); s.precompute(); ck!(s.check_signatures() == got, "after precompute differs"); }
        _ => {}
    }
    let ws: Vec<Witness> = t.wits.iter().map(|w| Witness::from(w.clone())).collect();
    for (k, i) in t.ins.iter().enumerate() {
        let got = in_real(i).check_signature(k, &id.into(), &ws);
        ck!(got.is_ok() == ok_in(i), "check_signature of input {k} is {got:?}, authentic = {}: {t:?}", ok_in(i));
    }
    Ok(())
}

pub fn c13(r: &mut Rng) -> R {
    let kind = *r.pick(&[Kind::Script, Kind::Create]);
    let mut t = owned_tx(r, kind, true);
    if r.chance(1, 3) { // out of range references must be left alone
        let n = t.wits.len();
        for i in &mut t.ins { if r.chance(1, 3) { if let In::CoinSigned { wi, .. } | In::MsgSigned { wi, .. } = i { *wi = (n + r.below(2)) as u8; } } }
    }
    for i in &mut t.ins { if r.chance(1, 8) { match i { In::CoinPred { owner, .. } => *owner = few(r).1, In::MsgPred { rcp, .. } => *rcp = few(r).1, In::MsgSigned { snd, .. } => *snd = few(r).1, _ => {} } } }
    let id = expected_id(&t);
    let mut want = t.clone();
    let mut s = script_real(&t);
    let mut c = create_real(&t);
    let pre = r.chance(1, 3);
    if pre { if kind == Kind::Script { s.precompute() } else { c.precompute() } }
    for _ in 0..1 + r.below(3) {
        let (key, addr) = few(r);
        for i in &t.ins {
            let (o, w) = match i { In::CoinSigned { owner, wi, .. } => (owner, *wi), In::MsgSigned { rcp, wi, .. } => (rcp, *wi), _ => continue };
            if o == addr { if let Some(w) = want.wits.get_mut(w as usize) { *w = sign(key, &id); } }
        }
        let (got, gid) = if kind == Kind::Script { s.sign_inputs(key); (script_spec(&s), *s.id()) } else { c.sign_inputs(key); (create_spec(&c), *c.id()) };
        ck!(got == want, "after signing: {got:?}, expected {want:?}");
        ck!(gid == id, "signing changed the identifier: {t:?}");
        let ws: Vec<Witness> = got.wits.iter().map(|w| Witness::from(w.clone())).collect();
        for (k, i) in t.ins.iter().enumerate() {
            let (o, w) = match i { In::CoinSigned { owner, wi, .. } => (owner, *wi), In::MsgSigned { rcp, wi, .. } => (rcp, *wi), _ => continue };
            if o == addr && (w as usize) < ws.len() { ck!(in_real(i).check_signature(k, &id.into(), &ws).is_ok(), "input {k} does not verify after signing: {t:?}"); }
        }
    }
    Ok(())
}

fn ceil_div(a: u128, b: u128) -> u128 { a / b + if a % b != 0 { 1 } else { 0 } }
/// (min, total, min_gas, max_gas)
pub fn fee_oracle(p: &ConsensusParameters, bytes: u64, limit: u64, price: u64) -> Option<(u64, u64, u64, u64)> {
    let m = u64::MAX as u128;
    let bg = bytes as u128 * p.gas_per_byte as u128;
    if bg > m { return None }
    let mg = bg + limit as u128;
    if mg > m { return None }
    let (a, b) = (bg * price as u128, mg * price as u128);
    if a > m || b > m { return None }
    let f = p.gas_price_factor as u128;
    Some((ceil_div(a, f) as u64, ceil_div(b, f) as u64, bg as u64, mg as u64))
}
fn fee_vals(f: &TransactionFee) -> (u64, u64, u64, u64) { (f.min(), f.total(), f.min_gas(), f.max_gas()) }

pub fn c14(r: &mut Rng) -> R {
    let mut p = ConsensusParameters::DEFAULT;
    let (mut bytes, mut limit, mut price) = (r.word(), r.word(), r.word());
    p.gas_per_byte = r.word();
    p.gas_price_factor = r.word().max(1);
    if r.bool() { // products near 2^64
        bytes = 1 + r.below(1 << 20) as u64;
        p.gas_per_byte = 1 + r.below(1 << 12) as u64;
        limit = r.below(1 << 30) as u64;
        let mg = bytes as u128 * p.gas_per_byte as u128 + limit as u128;
        price = ((u64::MAX as u128 / mg) as i128 + r.below(3) as i128 - 1).max(0) as u64;
        if r.chance(1, 3) { p.gas_price_factor = price.max(1).min(p.gas_price_factor); }
    }
    let want = fee_oracle(&p, bytes, limit, price);
    let got = TransactionFee::checked_from_values(&p, bytes, limit, price).map(|f| fee_vals(&f));
    ck!(got == want, "fee of bytes {bytes} limit {limit} price {price} per byte {} factor {}: {got:?}, expected {want:?}", p.gas_per_byte, p.gas_price_factor);
    let gas = r.word();
    let w = gas as u128 * price as u128 / p.gas_price_factor as u128;
    let w = if w > u64::MAX as u128 { None } else { Some(w as u64) };
    let g = TransactionFee::gas_refund_value(&p, gas, price);
    ck!(g == w, "refund of gas {gas} price {price} factor {}: {g:?}, expected {w:?}", p.gas_price_factor);
    let (a, b, c, d, bal) = (r.word(), r.word(), r.word(), r.word(), r.word());
    let f = TransactionFee::new(a, b, c, d);
    ck!(fee_vals(&f) == (a, b, c, d) && f.into_inner() == (a, b) && Word::from(f) == b, "fee accessors of {f:?}");
    let dd = f.checked_deduct_total(bal);
    ck!(dd == if bal >= b { Some(bal - b) } else { None }, "deduct {b} from {bal}: {dd:?}");
    if r.chance(1, 3) {
        let kind = *r.pick(&[Kind::Script, Kind::Create]);
        let t = gen_tx(r, Some(kind));
        let n = (tx_real(&t).to_bytes().len() - t.wits.iter().map(|w| Witness::from(w.clone()).to_bytes().len()).sum::<usize>()) as u64;
        let pre = r.bool();
        let (m, g) = if kind == Kind::Script { let mut s = script_real(&t); if pre { s.precompute() } ck!(s.price() == t.price && s.limit() == t.limit, "price/limit of {t:?}"); (s.metered_bytes_size(), TransactionFee::checked_from_tx(&p, &s)) }
            else { let mut s = create_real(&t); if pre { s.precompute() } ck!(s.price() == t.price && s.limit() == t.limit, "price/limit of {t:?}"); (s.metered_bytes_size(), TransactionFee::checked_from_tx(&p, &s)) };
        ck!(m as u64 == n, "metered bytes {m}, encoding without witnesses {n}: {t:?}");
        let w = fee_oracle(&p, n, t.limit, t.price);
        ck!(g.map(|f| fee_vals(&f)) == w, "fee of transaction {g:?}, expected {w:?}: {t:?} {p:?}");
    }
    Ok(())
}

/// valid for basic checks, with interesting amounts
fn balance_tx(r: &mut Rng) -> (Tx, u64, ConsensusParameters) {
    let kind = *r.pick(&[Kind::Script, Kind::Create]);
    let mut t = empty(kind);
    let assets: Vec<B32> = { let mut v = vec![[0u8; 32]]; for _ in 0..r.below(3) { let b = small_b32(r, 200); if !v.contains(&b) { v.push(b); } } v };
    let huge = r.chance(1, 4);
    let amt = |r: &mut Rng| if huge { match r.below(4) { 0 => u64::MAX - r.below(3) as u64, 1 => 1 << 63, 2 => r.word(), _ => r.below(5) as u64 } } else { r.below(1 << 20) as u64 };
    t.wits.push(vec![1, 2, 3, 4]);
    t.blen = 1;
    let n = r.below(7);
    for _ in 0..n {
        let k = *r.pick(&[0usize, 0, 1, 3, 4]);
        let mut i = gen_in(r, k);
        let mut key = r.b32(); key[3] = t.ins.len() as u8;
        match &mut i {
            In::CoinSigned { txid, amount, asset, wi, .. } => { *txid = key; *amount = amt(r); *asset = *r.pick(&assets); *wi = 0; }
            In::CoinPred { txid, amount, asset, .. } => { *txid = key; *amount = amt(r); *asset = *r.pick(&assets); }
            In::MsgSigned { mid, amount, wi, .. } => { *mid = key; *amount = amt(r); *wi = 0; }
            In::MsgPred { mid, amount, .. } => { *mid = key; *amount = amt(r); }
            _ => {}
        }
        t.ins.push(i);
    }
    t.price = if r.bool() { 0 } else { r.below(4) as u64 };
    t.limit = r.below(2000) as u64;
    if r.chance(1, 10) { t.price = r.word(); t.limit = r.word(); }
    let mut p = generous(&t);
    p.gas_per_byte = r.below(3) as u64;
    p.gas_price_factor = 1 + r.below(5) as u64;
    if r.chance(1, 10) { p.gas_per_byte = r.word(); }
    // outputs drawn against what is available
    let mut avail: BTreeMap<B32, u64> = BTreeMap::new();
    for i in &t.ins { let (a, x) = match i { In::CoinSigned { asset, amount, .. } | In::CoinPred { asset, amount, .. } => (*asset, *amount), In::MsgSigned { amount, .. } | In::MsgPred { amount, .. } => ([0; 32], *amount), _ => continue }; let e = avail.entry(a).or_insert(0); *e = e.saturating_add(x); }
    for _ in 0..r.below(6) {
        match r.below(4) {
            0 | 1 if !avail.is_empty() => {
                let a = *r.pick(&avail.keys().copied().collect::<Vec<_>>());
                let left = avail[&a];
                let x = match r.below(5) { 0 => left, 1 => left.saturating_add(1), 2 => left / 2, 3 => left / 3, _ => r.below(10) as u64 };
                t.outs.push(Out::Coin { to: r.b32(), amount: x, asset: a });
                avail.insert(a, left.saturating_sub(x));
            }
            2 => t.outs.push(Out::Message { rcp: r.b32(), amount: r.word() }),
            3 if kind == Kind::Script => { let o = gen_out(r, 4); t.outs.push(o); }
            _ => {}
        }
    }
    if !avail.is_empty() && r.chance(1, 4) { let b = kind == Kind::Script; let a = if b { *avail.keys().next().unwrap() } else { [0; 32] }; if avail.contains_key(&a) { t.outs.push(Out::Change { to: r.b32(), amount: r.word(), asset: a }); } }
    // let the fee be exactly what is left, or one more
    if r.chance(1, 4) && t.price > 0 {
        let n = metered(&t);
        if let Some((_, total, _, _)) = fee_oracle(&p, n, t.limit, t.price) {
            let used: u64 = t.outs.iter().filter_map(|o| if let Out::Coin { amount, asset, .. } = o { if *asset == [0; 32] { Some(*amount) } else { None } } else { None }).fold(0u64, |a, b| a.saturating_add(b));
            let others: u64 = t.ins.iter().skip(1).filter_map(base_amount).fold(0u64, |a, b| a.saturating_add(b));
            let need = (total.saturating_add(used).saturating_sub(others)).saturating_add(r.below(3) as u64).saturating_sub(1);
            if let Some(i) = t.ins.first_mut() { match i { In::CoinSigned { amount, asset, .. } | In::CoinPred { amount, asset, .. } => { if *asset == [0; 32] { *amount = need } } In::MsgSigned { amount, .. } | In::MsgPred { amount, .. } => *amount = need, _ => {} } }
        }
    }
    (t, 0, p).into_height(r)
}
trait IntoHeight { fn into_height(self, r: &mut Rng) -> Self; }
impl IntoHeight for (Tx, u64, ConsensusParameters) {
    fn into_height(mut self, r: &mut Rng) -> Self { self.1 = r.word(); self.0.mat = if r.bool() { 0 } else { self.1 }; self }
}
fn base_amount(i: &In) -> Option<u64> {
    match i { In::CoinSigned { amount, asset, .. } | In::CoinPred { amount, asset, .. } if *asset == [0; 32] => Some(*amount), In::MsgSigned { amount, .. } | In::MsgPred { amount, .. } => Some(*amount), _ => None }
}
fn metered(t: &Tx) -> u64 { let mut u = t.clone(); u.wits = vec![]; tx_real(&u).to_bytes().len() as u64 }

pub fn balances_oracle(t: &Tx, p: &ConsensusParameters) -> Option<(BTreeMap<B32, u64>, (u64, u64, u64, u64))> {
    let m = u64::MAX as u128;
    let mut b: BTreeMap<B32, u128> = BTreeMap::new();
    for i in &t.ins {
        let (a, x) = match i { In::CoinSigned { asset, amount, .. } | In::CoinPred { asset, amount, .. } => (*asset, *amount), In::MsgSigned { amount, .. } | In::MsgPred { amount, .. } => ([0; 32], *amount), _ => continue };
        *b.entry(a).or_default() += x as u128;
    }
    if b.values().any(|v| *v > m) { return None }
    let fee = fee_oracle(p, metered(t), t.limit, t.price)?;
    let e = b.entry([0; 32]).or_default();
    *e = e.checked_sub(fee.1 as u128)?;
    for o in &t.outs { if let Out::Coin { amount, asset, .. } = o { let e = b.get_mut(asset)?; *e = e.checked_sub(*amount as u128)?; } }
    Some((b.into_iter().map(|(k, v)| (k, v as u64)).collect(), fee))
}

fn balances_of(c: &CheckedTransaction) -> Option<(BTreeMap<B32, u64>, (u64, u64, u64, u64), u64)> {
    let f = |b: &BTreeMap<AssetId, Word>| b.iter().map(|(k, v)| (**k, *v)).collect();
    match c {
        CheckedTransaction::Script(c) => Some((f(&c.metadata().initial_free_balances), fee_vals(&c.metadata().fee), c.metadata().block_height)),
        CheckedTransaction::Create(c) => Some((f(&c.metadata().initial_free_balances), fee_vals(&c.metadata().fee), c.metadata().block_height)),
        CheckedTransaction::Mint(_) => None,
    }
}

pub fn c15(r: &mut Rng) -> R {
    let (t, h, p) = balance_tx(r);
    let basic_ok = violated(&t, h, &p).is_empty();
    let want = balances_oracle(&t, &p);
    let got: Result<CheckedTransaction, CheckError> = match t.kind {
        Kind::Script => script_real(&t).into_checked_basic(h, &p).map(Into::into),
        _ => create_real(&t).into_checked_basic(h, &p).map(Into::into),
    };
    match (&got, basic_ok, &want) {
        (Ok(c), true, Some(w)) => {
            let (b, f, _) = balances_of(c).unwrap();
            // an asset with nothing in it may or may not be listed, except those the transaction brings
            ck!(b == w.0 || { let nz = |m: &BTreeMap<B32, u64>| m.iter().filter(|x| *x.1 != 0).map(|(k, v)| (*k, *v)).collect::<Vec<_>>(); nz(&b) == nz(&w.0) }, "free balances {b:?}, expected {:?}: {t:?} {p:?}", w.0);
            ck!(f == w.1, "fee {f:?}, expected {:?}", w.1);
        }
        (Ok(_), true, None) => return Err(format!("accepted although amounts do not cover fee and outputs or do not fit: {t:?} {p:?}")),
        (Err(e), true, Some(w)) => return Err(format!("rejected with {e:?} although amounts suffice ({w:?}): {t:?} {p:?}")),
        _ => {}
    }
    Ok(())
}

fn any_checked(r: &mut Rng) -> (Tx, u64, ConsensusParameters) {
    match r.below(6) {
        0 => near_valid(r, Kind::Mint),
        1 | 2 => { let k = *r.pick(&[Kind::Script, Kind::Create]); let (t, h, mut p) = near_valid(r, k); p.gas_per_byte = 0; p.gas_price_factor = 1; let mut t = t; if r.bool() { t.price = 0 } (t, h, p) }
        _ => balance_tx(r),
    }
}

/// The transaction given, in a value whose cache was computed for another one.
fn stale(o: &Tx, t: &Tx) -> Transaction {
    match t.kind {
        Kind::Script => { let a = script_real(t); let mut b = script_real(o); b.precompute();
            *b.inputs_mut() = a.inputs().clone(); *b.outputs_mut() = a.outputs().clone(); *b.witnesses_mut() = a.witnesses().clone();
            *b.script_mut() = a.script().clone(); *b.script_data_mut() = a.script_data().clone(); *b.receipts_root_mut() = *a.receipts_root();
            *b.gas_price_mut() = *a.gas_price(); *b.gas_limit_mut() = *a.gas_limit(); *b.maturity_mut() = *a.maturity(); b.into() }
        Kind::Create => { let a = create_real(t); let mut b = create_real(o); b.precompute();
            *b.inputs_mut() = a.inputs().clone(); *b.outputs_mut() = a.outputs().clone(); *b.witnesses_mut() = a.witnesses().clone();
            *b.storage_slots_mut() = a.storage_slots().clone(); *b.salt_mut() = *a.salt(); *b.bytecode_length_mut() = *a.bytecode_length();
            *b.bytecode_witness_index_mut() = *a.bytecode_witness_index();
            *b.gas_price_mut() = *a.gas_price(); *b.gas_limit_mut() = *a.gas_limit(); *b.maturity_mut() = *a.maturity(); b.into() }
        Kind::Mint => { let a = mint_real(t); let mut b = mint_real(o); b.precompute();
            *b.outputs_mut() = a.outputs().clone(); *b.tx_pointer_mut() = *a.tx_pointer(); b.into() }
    }
}

/// The fields the kind of transaction has.
fn only_own(t: &Tx) -> Tx {
    let mut x = t.clone();
    let e = empty(t.kind);
    if t.kind != Kind::Script { (x.rroot, x.script, x.sdata) = (e.rroot, e.script.clone(), e.sdata.clone()); }
    if t.kind != Kind::Create { (x.blen, x.bwi, x.salt, x.slots) = (e.blen, e.bwi, e.salt, e.slots.clone()); }
    if t.kind != Kind::Mint { (x.bh, x.ti) = (0, 0); } else { (x.price, x.limit, x.mat, x.ins, x.wits) = (0, 0, 0, vec![], vec![]); }
    x
}
pub fn c16(r: &mut Rng) -> R {
    let (t, h, p) = any_checked(r);
    let mut t = only_own(&t);
    // own and sign the inputs
    for i in &mut t.ins { match i { In::CoinPred { owner, pred, .. } => *owner = merkle_root(pred), In::MsgPred { rcp, pred, .. } => *rcp = merkle_root(pred), _ => {} } }
    let key = few(r);
    let mode = r.below(4);
    if mode != 0 && t.kind != Kind::Mint && !t.wits.is_empty() {
        let w = r.below(t.wits.len()).min(255);
        let bw = t.bwi as usize;
        let w = if t.kind == Kind::Create && w == bw { t.wits.push(vec![]); t.wits.len() - 1 } else { w };
        let mut any = false;
        for i in &mut t.ins { match i { In::CoinSigned { owner, wi, .. } => { *owner = key.1; *wi = w as u8; any = true } In::MsgSigned { rcp, wi, .. } => { *rcp = key.1; *wi = w as u8; any = true } _ => {} } }
        if any && w < t.wits.len() { let id = expected_id(&t); t.wits[w] = sign(&key.0, &id); if mode == 1 { let l = t.wits[w].len(); t.wits[w][r.below(l)] ^= 4; } }
    }
    let id = expected_id(&t);
    let basic = violated(&t, h, &p).is_empty();
    let bal = if t.kind == Kind::Mint { None } else { balances_oracle(&t, &p) };
    let basic_ok = basic && (t.kind == Kind::Mint || bal.is_some());
    let sig_ok = t.kind == Kind::Mint || t.ins.iter().all(|i| match i {
        In::CoinSigned { owner, wi, .. } => authentic(t.wits.get(*wi as usize), &id, owner),
        In::MsgSigned { rcp, wi, .. } => authentic(t.wits.get(*wi as usize), &id, rcp),
        In::CoinPred { owner, pred, .. } => *owner == merkle_root(pred),
        In::MsgPred { rcp, pred, .. } => *rcp == merkle_root(pred),
        In::Contract { .. } => true });
    let ctx = || format!("height {h}, {p:?}, {t:?}");

    fn look(c: &CheckedTransaction) -> (Tx, u32) {
        match c {
            CheckedTransaction::Script(c) => (script_spec(c.transaction()), c.checks().bits()),
            CheckedTransaction::Create(c) => (create_spec(c.transaction()), c.checks().bits()),
            CheckedTransaction::Mint(c) => (mint_spec(c.transaction()), c.checks().bits()),
        }
    }
    fn look2(c: &Checked<Transaction>) -> (Tx, u32) { (tx_spec(c.transaction()), c.checks().bits()) }
    let meta_ok = |c: &CheckedTransaction| -> R {
        if let Some((b, f, hh)) = balances_of(c) {
            let w = bal.clone().unwrap();
            let nz = |m: &BTreeMap<B32, u64>| m.iter().filter(|x| *x.1 != 0).map(|(k, v)| (*k, *v)).collect::<Vec<_>>();
            ck!(nz(&b) == nz(&w.0) && f == w.1 && hh == h, "metadata {b:?} {f:?} {hh}, expected {w:?} {h}");
        }
        Ok(())
    };
    let bits = |b: u32, sig: bool| -> R { ck!(b == if sig { 3 } else { 1 }, "status bits {b:b}, signatures checked = {sig}"); Ok(()) };

    // through the specific type
    let (g_basic, g_full): (Result<CheckedTransaction, CheckError>, Result<CheckedTransaction, CheckError>) = match t.kind {
        Kind::Script => (script_real(&t).into_checked_basic(h, &p).map(Into::into), script_real(&t).into_checked(h, &p).map(Into::into)),
        Kind::Create => (create_real(&t).into_checked_basic(h, &p).map(Into::into), create_real(&t).into_checked(h, &p).map(Into::into)),
        Kind::Mint => (mint_real(&t).into_checked_basic(h, &p).map(Into::into), mint_real(&t).into_checked(h, &p).map(Into::into)),
    };
    ck!(g_basic.is_ok() == basic_ok, "into_checked_basic: {:?}, basic rules hold = {basic_ok} ({:?}): {}", g_basic.err(), violated(&t, h, &p), ctx());
    ck!(g_full.is_ok() == (basic_ok && sig_ok), "into_checked: {:?}, basic rules {basic_ok} signatures {sig_ok}: {}", g_full.err(), ctx());
    // through Transaction
    let a = tx_real(&t).into_checked_basic(h, &p);
    let b = tx_real(&t).into_checked(h, &p);
    ck!(a.is_ok() == basic_ok && b.is_ok() == (basic_ok && sig_ok), "Transaction: basic {:?} full {:?}, rules {basic_ok} signatures {sig_ok}: {}", a.err(), b.err(), ctx());
    for (g, sig) in [(g_basic.ok(), false), (g_full.ok(), true)] {
        let Some(g) = g else { continue };
        let (tt, bb) = look(&g);
        ck!(tt == t, "checked transaction differs: {tt:?} / {}", ctx());
        bits(bb, sig).map_err(|e| format!("{e}: {}", ctx()))?;
        meta_ok(&g).map_err(|e| format!("{e}: {}", ctx()))?;
        let c2: Checked<Transaction> = g.clone().into();
        ck!(look2(&c2) == (t.clone(), bb), "conversion to Checked<Transaction> changed it: {}", ctx());
        let g2: CheckedTransaction = c2.clone().into();
        ck!(look(&g2) == (t.clone(), bb) && g2 == g, "conversion back to CheckedTransaction changed it: {}", ctx());
        meta_ok(&g2)?;
        let s = c2.check_signatures();
        ck!(s.is_ok() == (sig || sig_ok), "check_signatures on checked: {:?}, signatures valid {sig_ok}: {}", s.err(), ctx());
        if let Ok(s) = s { let l = look2(&s); ck!(l.0 == t, "check_signatures changed the transaction"); bits(l.1, true)?; meta_ok(&s.into())?; }
    }
    for (g, sig) in [(a.ok(), false), (b.ok(), true)] {
        let Some(g) = g else { continue };
        let (tt, bb) = look2(&g);
        ck!(tt == t, "Checked<Transaction> differs: {tt:?} / {}", ctx());
        bits(bb, sig)?;
        let as_ref: &Transaction = g.as_ref();
        ck!(tx_spec(as_ref) == t && tx_spec(std::borrow::Borrow::<Transaction>::borrow(&g)) == t, "as_ref differs");
        meta_ok(&g.clone().into())?;
        let (x, _m): (Transaction, CheckedMetadata) = g.into();
        ck!(tx_spec(&x) == t, "into parts differs");
    }
    // a cache left over from another transaction has no say
    let o = if r.bool() { gen_tx(r, Some(t.kind)) } else { let mut o = t.clone(); match r.below(4) { 0 => { o.price ^= 1; o.bh ^= 1 } 1 => { o.limit ^= 1; o.ti ^= 1 } 2 => { o.outs.pop(); } _ => { o.ins.clear(); o.outs.clear(); } } o };
    let (sb, sf, sid) = match stale(&o, &t) {
        Transaction::Script(s) => (s.clone().into_checked_basic(h, &p).map(Into::<CheckedTransaction>::into), s.clone().into_checked(h, &p).map(Into::<CheckedTransaction>::into), s.into_checked_basic(h, &p).ok().map(|c| *c.transaction().id())),
        Transaction::Create(s) => (s.clone().into_checked_basic(h, &p).map(Into::<CheckedTransaction>::into), s.clone().into_checked(h, &p).map(Into::<CheckedTransaction>::into), s.into_checked_basic(h, &p).ok().map(|c| *c.transaction().id())),
        Transaction::Mint(s) => (s.clone().into_checked_basic(h, &p).map(Into::<CheckedTransaction>::into), s.clone().into_checked(h, &p).map(Into::<CheckedTransaction>::into), s.into_checked_basic(h, &p).ok().map(|c| *c.transaction().id())),
    };
    ck!(sb.is_ok() == basic_ok && sf.is_ok() == (basic_ok && sig_ok), "with the cache of {o:?}: basic {:?} full {:?}, rules {basic_ok} signatures {sig_ok}: {}", sb.err(), sf.err(), ctx());
    ck!(sid.map_or(true, |i| i == id), "with the cache of {o:?}: id of the checked transaction is stale: {}", ctx());
    for g in [sb, sf].into_iter().flatten() { ck!(look(&g).0 == t, "with the cache of {o:?}: checked transaction differs: {}", ctx()); meta_ok(&g).map_err(|e| format!("with the cache of {o:?}: {e}: {}", ctx()))?; }
    // full validation agrees
    let full = tx_real(&t).check(h, &p).is_ok();
    ck!(full == (basic && sig_ok), "check() is {full}, rules {basic} signatures {sig_ok}: {}", ctx());
    Ok(())
}

pub fn c17(r: &mut Rng) -> R {
    let k = *r.pick(&[Kind::Script, Kind::Create]);
    let t = gen_tx(r, Some(k));
    let id = expected_id(&t);
    let want_p = { let mut c = t.clone(); c.ins = t.ins.iter().map(clear_in).collect(); c.outs = t.outs.iter().map(clear_out).collect(); c };
    let want_s = { let mut c = t.clone(); c.outs = t.outs.iter().map(clear_out_script).collect(); c };
    let (gp, ip, gs) = if t.kind == Kind::Script {
        let mut a = script_real(&t); a.prepare_init_predicate();
        let mut b = script_real(&t); b.prepare_init_script();
        (script_spec(&a), *a.id(), script_spec(&b))
    } else {
        let mut a = create_real(&t); a.prepare_init_predicate();
        let mut b = create_real(&t); b.prepare_init_script();
        (create_spec(&a), *a.id(), create_spec(&b))
    };
    ck!(gp == want_p, "prepare_init_predicate: {gp:?} from {t:?}");
    ck!(ip == id, "prepare_init_predicate changed the identifier of {t:?}");
    ck!(gs == want_s, "prepare_init_script: {gs:?} from {t:?}");
    for i in &t.ins { let mut x = in_real(i); x.prepare_init_predicate(); ck!(in_spec(&x) == clear_in(i), "Input::prepare_init_predicate of {i:?}: {x:?}"); }
    for o in &t.outs {
        let mut x = out_real(o); x.prepare_init_predicate(); ck!(out_spec(&x) == clear_out(o), "Output::prepare_init_predicate of {o:?}: {x:?}");
        let mut x = out_real(o); x.prepare_init_script(); ck!(out_spec(&x) == clear_out_script(o), "Output::prepare_init_script of {o:?}: {x:?}");
    }
    Ok(())
}
