//! C19..C24.
use crate::gen::*;
use crate::rules::{has_dup, keys, merkle_root, sha, sign};
use crate::wire::gen_receipt_k;
use crate::{ck, R};
use fuel_tx::field::*;
#[allow(unused_imports)]
use fuel_tx::{Mint, Salt, Script, TxPointer, Create};
#[allow(unused_imports)]
use fuel_tx::field::{Script as _, Salt as _, TxPointer as _};
use fuel_tx::*;
use std::str::FromStr;

macro_rules! acc { ($x:expr, $($f:ident => $want:expr),* $(,)?) => { $( { let g = format!("{:?}", $x.$f()); let w = $want; ck!(g == w, "{}() of {:?} is {g}, expected {w}", stringify!($f), $x); } )* } }
fn some<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", Some(x)) }
fn none() -> String { "None".into() }

pub fn c19(r: &mut Rng) -> R {
    let (snd, rcp, amount, data) = (r.b32(), r.b32(), r.word(), r.bytes());
    let nonce = r.word();
    let want = sha(&[&snd, &rcp, &nonce.to_be_bytes(), &amount.to_be_bytes(), &data]);
    ck!(*Input::compute_message_id(&snd.into(), &rcp.into(), nonce, amount, &data) == want, "Input::compute_message_id({snd:?}, {rcp:?}, {nonce}, {amount}, {data:?})");
    let n32 = r.b32();
    let want = sha(&[&snd, &rcp, &n32, &amount.to_be_bytes(), &data]);
    ck!(*Output::message_id(&snd.into(), &rcp.into(), &n32.into(), amount, &data) == want, "Output::message_id({snd:?}, {rcp:?}, {n32:?}, {amount}, {data:?})");
    let txid = r.b32();
    let idx = r.below(256) as u64;
    let n = sha(&[&txid, &[idx as u8]]);
    ck!(*Output::message_nonce(&txid.into(), idx) == n, "Output::message_nonce({txid:?}, {idx})");
    let dg = sha(&[&data]);
    ck!(*Output::message_digest(&data) == dg, "Output::message_digest({data:?})");
    let x = Receipt::message_out_from_tx_output(&txid.into(), idx, snd.into(), rcp.into(), amount, data.clone());
    let mid = sha(&[&snd, &rcp, &n, &amount.to_be_bytes(), &data]);
    let want = Receipt::MessageOut { message_id: mid.into(), sender: snd.into(), recipient: rcp.into(), amount, nonce: n.into(), len: data.len().div_ceil(8) as u64 * 8, digest: dg.into(), data: data.clone() };
    ck!(format!("{x:?}") == format!("{want:?}"), "message_out_from_tx_output: {x:?}, expected {want:?}");

    // constructors and accessors
    let k = r.below(11);
    let x = gen_receipt_k(r, k);
    receipt_roundtrip(&x)
}

fn padn(n: usize) -> u64 { (n.div_ceil(8) * 8) as u64 }

fn receipt_roundtrip(x: &Receipt) -> R {
    let same = |y: Receipt, what: &str| -> R { ck!(format!("{y:?}") == format!("{x:?}"), "{what} built {y:?}, expected {x:?}"); Ok(()) };
    let with_len = |l: u64| -> Receipt { let mut y = x.clone(); match &mut y { Receipt::ReturnData { len, .. } | Receipt::LogData { len, .. } | Receipt::MessageOut { len, .. } => *len = l, _ => {} } y };
    let d = |y: Receipt, z: Receipt, what: &str| -> R { ck!(format!("{y:?}") == format!("{z:?}"), "{what} built {y:?}, expected {z:?}"); Ok(()) };
    match x.clone() {
        Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => {
            same(Receipt::call(id, to, amount, asset_id, gas, param1, param2, pc, is), "call")?;
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => some(to), to_address => none(), amount => some(amount), asset_id => some(asset_id), gas => some(gas), param1 => some(param1), param2 => some(param2), val => none(), ptr => none(), len => none(), is_empty => none(), digest => none(), data => none(), reason => none(), ra => none(), rb => none(), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::Return { id, val, pc, is } => {
            same(Receipt::ret(id, val, pc, is), "ret")?;
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => none(), to_address => none(), amount => none(), asset_id => none(), gas => none(), param1 => none(), param2 => none(), val => some(val), ptr => none(), len => none(), is_empty => none(), digest => none(), data => none(), reason => none(), ra => none(), rb => none(), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => {
            same(Receipt::return_data_with_len(id, ptr, len, digest, data.clone(), pc, is), "return_data_with_len")?;
            d(Receipt::return_data(id, ptr, digest, data.clone(), pc, is), with_len(padn(data.len())), "return_data")?;
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => none(), to_address => none(), amount => none(), asset_id => none(), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => some(ptr), len => some(len), is_empty => some(len == 0), digest => some(digest), data => some(data), reason => none(), ra => none(), rb => none(), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::Panic { id, reason, pc, is, contract_id } => {
            let base = Receipt::panic(id, reason, pc, is);
            acc!(base, contract_id => none());
            same(base.clone().with_panic_contract_id(contract_id), "panic")?;
            for other in [Some(id), None] {
                let twice = base.clone().with_panic_contract_id(other).with_panic_contract_id(contract_id);
                ck!(twice.contract_id() == contract_id.as_ref(), "contract of a panic set to {other:?} and then to {contract_id:?}: {:?}", twice.contract_id());
                same(twice, "panic")?;
            }
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => none(), to_address => none(), amount => none(), asset_id => none(), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => none(), len => none(), is_empty => none(), digest => none(), data => none(), reason => some(reason), ra => none(), rb => none(), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => format!("{contract_id:?}"));
        }
        Receipt::Revert { id, ra, pc, is } => {
            same(Receipt::revert(id, ra, pc, is), "revert")?;
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => none(), to_address => none(), amount => none(), asset_id => none(), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => none(), len => none(), is_empty => none(), digest => none(), data => none(), reason => none(), ra => some(ra), rb => none(), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::Log { id, ra, rb, rc, rd, pc, is } => {
            same(Receipt::log(id, ra, rb, rc, rd, pc, is), "log")?;
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => none(), to_address => none(), amount => none(), asset_id => none(), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => none(), len => none(), is_empty => none(), digest => none(), data => none(), reason => none(), ra => some(ra), rb => some(rb), rc => some(rc), rd => some(rd), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            same(Receipt::log_data_with_len(id, ra, rb, ptr, len, digest, data.clone(), pc, is), "log_data_with_len")?;
            d(Receipt::log_data(id, ra, rb, ptr, digest, data.clone(), pc, is), with_len(padn(data.len())), "log_data")?;
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => none(), to_address => none(), amount => none(), asset_id => none(), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => some(ptr), len => some(len), is_empty => some(len == 0), digest => some(digest), data => some(data), reason => none(), ra => some(ra), rb => some(rb), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::Transfer { id, to, amount, asset_id, pc, is } => {
            same(Receipt::transfer(id, to, amount, asset_id, pc, is), "transfer")?;
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => some(to), to_address => none(), amount => some(amount), asset_id => some(asset_id), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => none(), len => none(), is_empty => none(), digest => none(), data => none(), reason => none(), ra => none(), rb => none(), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::TransferOut { id, to, amount, asset_id, pc, is } => {
            same(Receipt::transfer_out(id, to, amount, asset_id, pc, is), "transfer_out")?;
            acc!(x, id => some(id), pc => some(pc), is => some(is), to => none(), to_address => some(to), amount => some(amount), asset_id => some(asset_id), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => none(), len => none(), is_empty => none(), digest => none(), data => none(), reason => none(), ra => none(), rb => none(), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::ScriptResult { result, gas_used } => {
            same(Receipt::script_result(result, gas_used), "script_result")?;
            acc!(x, id => none(), pc => none(), is => none(), to => none(), to_address => none(), amount => none(), asset_id => none(), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => none(), len => none(), is_empty => none(), digest => none(), data => none(), reason => none(), ra => none(), rb => none(), rc => none(), rd => none(), result => some(result), gas_used => some(gas_used), message_id => none(), sender => none(), recipient => none(), nonce => none(), contract_id => none());
        }
        Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => {
            same(Receipt::message_out_with_len(message_id, sender, recipient, amount, nonce, len, digest, data.clone()), "message_out_with_len")?;
            d(Receipt::message_out(message_id, sender, recipient, amount, nonce, digest, data.clone()), with_len(padn(data.len())), "message_out")?;
            acc!(x, id => none(), pc => none(), is => none(), to => none(), to_address => none(), amount => some(amount), asset_id => none(), gas => none(), param1 => none(), param2 => none(), val => none(), ptr => none(), len => some(len), is_empty => some(len == 0), digest => some(digest), data => some(data), reason => none(), ra => none(), rb => none(), rc => none(), rd => none(), result => none(), gas_used => none(), message_id => some(message_id), sender => some(sender), recipient => some(recipient), nonce => some(nonce), contract_id => none());
        }
    }
    Ok(())
}

pub fn c20(r: &mut Rng) -> R {
    let n = match r.below(5) { 0 => r.below(20), 1 => 8 * r.below(40), 2 => r.below(400), 3 => 1 + 8 * r.below(20), _ => r.len() };
    let code = r.bytes_n(n);
    let root = merkle_root(&code);
    ck!(*Contract::root_from_code(&code) == root, "root_from_code of {code:?}");
    let c = Contract::from(code.clone());
    ck!(*c.root() == root, "Contract::root of {code:?}");
    let (salt, rt, st) = (r.b32(), r.b32(), r.b32());
    let id = sha(&[&[0x46, 0x55, 0x45, 0x4C], &salt, &rt, &st]);
    ck!(*c.id(&salt.into(), &rt.into(), &st.into()) == id, "Contract::id of {salt:?} {rt:?} {st:?}");
    // state root: the sparse Merkle root of key -> value, independent of how slots are listed for distinct keys
    let mut slots: Vec<StorageSlot> = vec![];
    for _ in 0..r.count() { slots.push(StorageSlot::new(r.b32().into(), r.b32().into())); }
    let mut t = fuel_merkle::sparse::in_memory::MerkleTree::new();
    for s in &slots { t.update(s.key(), s.value().as_ref()); }
    let want: B32 = t.root();
    ck!(*Contract::initial_state_root(slots.iter()) == want, "initial_state_root of {slots:?}");
    let e: B32 = fuel_merkle::sparse::in_memory::MerkleTree::new().root();
    ck!(*Contract::default_state_root() == e, "default_state_root");
    ck!(*Input::predicate_owner(&code) == root, "predicate_owner of {code:?}");
    let mut o = root;
    ck!(Input::is_predicate_owner_valid(&o.into(), &code), "owner of {code:?} refused");
    o[r.below(32)] ^= 1 << r.below(8);
    ck!(!Input::is_predicate_owner_valid(&o.into(), &code), "wrong owner {o:?} of {code:?} accepted");
    let (k, a) = r.pick(keys());
    ck!(*Input::owner(&k.public_key()) == *a, "owner of a public key");
    // the contract a transaction creates is the bytecode its index names
    let t = gen_tx(r, None);
    let want = if t.kind == Kind::Create { t.wits.get(t.bwi as usize) } else { None };
    let tx = tx_real(&t);
    let got = Contract::try_from(&tx).ok().map(Vec::<u8>::from);
    ck!(got.as_ref() == want, "contract of {t:?} is {got:?}");
    if t.kind == Kind::Create {
        let got = Contract::try_from(&create_real(&t)).ok().map(Vec::<u8>::from);
        ck!(got.as_ref() == want, "contract of {t:?} is {got:?}");
    }
    Ok(())
}

pub fn c21(r: &mut Rng) -> R {
    let (t, i) = (r.b32(), r.byte());
    let u = UtxoId::new(t.into(), i);
    for s in [format!("{u:x}"), format!("{u:X}"), format!("{u:#x}"), format!("{u:#X}")] {
        ck!(UtxoId::from_str(&s) == Ok(u), "UtxoId text {s} parses to {:?}", UtxoId::from_str(&s));
    }
    let p = TxPointer::new(r.word() as u32, r.word() as u16);
    for s in [format!("{p:x}"), format!("{p:X}")] {
        ck!(TxPointer::from_str(&s) == Ok(p), "TxPointer text {s} parses to {:?}", TxPointer::from_str(&s));
    }
    // hostile text
    let mut s = match r.below(4) { 0 => format!("{u:x}"), 1 => format!("{u:#x}"), 2 => format!("{p:x}"), _ => String::new() };
    const A: &[&str] = &["0", "x", "a", "F", "-", "+", " ", "é", "ß", "€", "𝄞", "\u{0}", "g", "0x", "9", "\u{301}"];
    for _ in 0..r.below(5) {
        let cs: Vec<char> = s.chars().collect();
        let a = r.below(cs.len() + 1);
        let mut v: String = cs[..a].iter().collect();
        v.push_str(r.pick(A));
        let skip = r.below(4);
        v.extend(cs.iter().skip(a + skip));
        s = v;
    }
    if r.bool() { let n = r.below(16); s = (0..n).map(|_| *r.pick(A)).collect(); }
    let e = |_| ();
    let res = std::panic::catch_unwind(|| { let _ = UtxoId::from_str(&s).map_err(e); });
    ck!(res.is_ok(), "UtxoId::from_str panics on {s:?}");
    let res = std::panic::catch_unwind(|| { let _ = TxPointer::from_str(&s).map_err(e); });
    ck!(res.is_ok(), "TxPointer::from_str panics on {s:?}");
    Ok(())
}

fn any_in(r: &mut Rng) -> In { let k = r.below(5); gen_in(r, k) }

macro_rules! drive { ($b:expr, $r:expr, $want:expr, $keys:expr, $prep_p:expr, $prep_s:expr) => {{
    let pool = if $r.chance(1, 4) { keys().len() } else { 6 };
    if $r.chance(1, 60) { for _ in 0..$r.below(250) { $b.add_witness(Witness::from(vec![1u8])); $want.wits.push(vec![1]); } }
    for _ in 0..if $r.chance(1, 40) { $r.below(60) } else { $r.below(14) } {
        match $r.below(10) {
            0 => { let x = $r.word(); $b.gas_price(x); $want.price = x; }
            1 => { let x = $r.word(); $b.gas_limit(x); $want.limit = x; }
            2 => { let x = $r.word(); $b.maturity(x); $want.mat = x; }
            3 => { let i = any_in($r); $b.add_input(in_real(&i)); $want.ins.push(i); }
            4 => { let k = $r.below(6); let o = gen_out($r, k); $b.add_output(out_real(&o)); $want.outs.push(o); }
            5 => { let w = $r.bytes(); $b.add_witness(Witness::from(w.clone())); $want.wits.push(w); }
            6 => {
                let (k, a) = keys()[$r.below(pool)].clone();
                let (txid, oi, amount, asset, bh, ti, mat) = ($r.b32(), $r.byte(), $r.word(), $r.b32(), $r.word() as u32, $r.word() as u16, $r.word());
                $b.add_unsigned_coin_input(k.clone(), UtxoId::new(txid.into(), oi), amount, asset.into(), TxPointer::new(bh, ti), mat);
                $want.ins.push(In::CoinSigned { txid, oi, owner: a, amount, asset, bh, ti, wi: $want.wits.len() as u8, mat });
                $want.wits.push(vec![]);
                $keys.push((k, a));
            }
            7 => {
                let (k, a) = keys()[$r.below(pool)].clone();
                let (snd, nonce, amount, data) = ($r.b32(), $r.word(), $r.word(), $r.bytes());
                $b.add_unsigned_message_input(k.clone(), snd.into(), nonce, amount, data.clone());
                let mid = sha(&[&snd, &a, &nonce.to_be_bytes(), &amount.to_be_bytes(), &data]);
                $want.ins.push(In::MsgSigned { mid, snd, rcp: a, amount, nonce, wi: $want.wits.len() as u8, data });
                $want.wits.push(vec![]);
                $keys.push((k, a));
            }
            8 => { let x = $r.bool(); $b.prepare_predicate(x); $prep_p = x; }
            _ => { let x = $r.bool(); $b.prepare_script(x); $prep_s = x; }
        }
    }
}} }

pub fn c22(r: &mut Rng) -> R {
    let kind = *r.pick(&[Kind::Script, Kind::Create, Kind::Script, Kind::Create, Kind::Mint]);
    let mut want = empty(kind);
    let mut ks = vec![];
    let mut prep_p = false;
    let mut prep_s = kind == Kind::Script;
    let with_sig = r.bool();
    let as_tx = r.bool();
    let finish = |want: &mut Tx, ks: &[(fuel_crypto::SecretKey, B32)], prep_p: bool, prep_s: bool| {
        if prep_p { want.ins = want.ins.iter().map(clear_in).collect(); want.outs = want.outs.iter().map(clear_out).collect(); }
        if prep_s { want.outs = want.outs.iter().map(clear_out_script).collect(); }
        if with_sig {
            let id = *tx_real(want).id();
            for (k, a) in ks { for i in want.ins.clone() { let (o, w) = match i { In::CoinSigned { owner, wi, .. } => (owner, wi), In::MsgSigned { rcp, wi, .. } => (rcp, wi), _ => continue };
                if o == *a { if let Some(w) = want.wits.get_mut(w as usize) { *w = sign(k, &id); } } } }
        }
    };
    let got = match kind {
        Kind::Script => {
            want.script = r.bytes(); want.sdata = r.bytes();
            let mut b = TransactionBuilder::script(want.script.clone(), want.sdata.clone());
            drive!(b, r, want, ks, prep_p, prep_s);
            ck!(b.inputs().iter().map(in_spec).collect::<Vec<_>>() == want.ins && b.outputs().iter().map(out_spec).collect::<Vec<_>>() == want.outs && b.witnesses().iter().map(|w| w.as_vec().clone()).collect::<Vec<_>>() == want.wits, "builder contents differ from {want:?}");
            ck!(b.sign_keys().iter().map(|k| *k.public_key().hash()).collect::<Vec<_>>() == ks.iter().map(|k| k.1).collect::<Vec<_>>(), "builder keys");
            finish(&mut want, &ks, prep_p, prep_s);
            let x: Transaction = match (with_sig, as_tx) { (true, false) => b.finalize().into(), (true, true) => b.finalize_as_transaction(), (false, false) => b.finalize_without_signature().into(), _ => b.finalize_without_signature_as_transaction() };
            x
        }
        Kind::Create => {
            want.salt = r.b32();
            let code = r.bytes();
            for _ in 0..r.count() { let s = (r.b32(), r.b32()); want.slots.push(s); }
            want.blen = (code.len() / 4) as u64;
            want.bwi = 0;
            want.wits.push(code.clone());
            let mut b = TransactionBuilder::create(Witness::from(code), want.salt.into(), want.slots.iter().map(|(k, v)| StorageSlot::new((*k).into(), (*v).into())).collect());
            drive!(b, r, want, ks, prep_p, prep_s);
            finish(&mut want, &ks, prep_p, prep_s);
            let x: Transaction = match (with_sig, as_tx) { (true, false) => b.finalize().into(), (true, true) => b.finalize_as_transaction(), (false, false) => b.finalize_without_signature().into(), _ => b.finalize_without_signature_as_transaction() };
            x
        }
        Kind::Mint => {
            want.bh = r.word() as u32; want.ti = r.word() as u16;
            let mut b = TransactionBuilder::mint(want.bh, want.ti);
            for _ in 0..r.count() { let k = r.below(6); let o = gen_out(r, k); b.add_output(out_real(&o)); want.outs.push(o); }
            let x: Transaction = match (with_sig, as_tx) { (true, false) => b.finalize().into(), (true, true) => b.finalize_as_transaction(), (false, false) => b.finalize_without_signature().into(), _ => b.finalize_without_signature_as_transaction() };
            x
        }
    };
    let g = tx_spec(&got);
    ck!(g == want, "builder produced {g:?}, expected {want:?}");
    ck!(*got.id() == *tx_real(&want).id(), "identifier of the built transaction: {want:?}");
    if with_sig && kind != Kind::Mint {
        // every unsigned input with its own slot verifies
        let ws: Vec<Witness> = g.wits.iter().map(|w| Witness::from(w.clone())).collect();
        let id = got.id();
        for (k, i) in g.ins.iter().enumerate() {
            let (o, wi) = match i { In::CoinSigned { owner, wi, .. } => (owner, *wi), In::MsgSigned { rcp, wi, .. } => (rcp, *wi), _ => continue };
            let shared = g.ins.iter().filter(|j| matches!(j, In::CoinSigned { wi: w, .. } | In::MsgSigned { wi: w, .. } if *w == wi)).count() > 1;
            if ks.iter().any(|x| x.1 == *o) && !shared { ck!(in_real(i).check_signature(k, &id, &ws).is_ok(), "input {k} does not verify: {g:?}"); }
        }
    }
    Ok(())
}

fn pvec(p: &ConsensusParameters) -> [u64; 13] {
    [p.contract_max_size, p.max_inputs, p.max_outputs, p.max_witnesses, p.max_gas_per_tx, p.max_script_length, p.max_script_data_length,
     p.max_storage_slots, p.max_predicate_length, p.max_predicate_data_length, p.gas_price_factor, p.gas_per_byte, p.max_message_data_length]
}
pub fn c23(r: &mut Rng) -> R {
    let v: Vec<u64> = (0..13).map(|_| r.word()).collect();
    let mut p = ConsensusParameters { contract_max_size: v[0], max_inputs: v[1], max_outputs: v[2], max_witnesses: v[3], max_gas_per_tx: v[4], max_script_length: v[5], max_script_data_length: v[6],
        max_storage_slots: v[7], max_predicate_length: v[8], max_predicate_data_length: v[9], gas_price_factor: v[10], gas_per_byte: v[11], max_message_data_length: v[12] };
    for _ in 0..1 + r.below(5) {
        let k = r.below(13);
        let x = r.word();
        let mut want = pvec(&p);
        want[k] = x;
        let q = match k {
            0 => p.with_contract_max_size(x), 1 => p.with_max_inputs(x), 2 => p.with_max_outputs(x), 3 => p.with_max_witnesses(x), 4 => p.with_max_gas_per_tx(x), 5 => p.with_max_script_length(x),
            6 => p.with_max_script_data_length(x), 7 => p.with_max_storage_slots(x), 8 => p.with_max_predicate_length(x), 9 => p.with_max_predicate_data_length(x), 10 => p.with_gas_price_factor(x), 11 => p.with_gas_per_byte(x), _ => p.with_max_message_data_length(x),
        };
        ck!(pvec(&q) == want, "setting parameter {k} to {x} of {p:?} gave {q:?}");
        p = q;
    }
    use fuel_tx::default_parameters as d;
    let named = [d::CONTRACT_MAX_SIZE, d::MAX_INPUTS, d::MAX_OUTPUTS, d::MAX_WITNESSES, d::MAX_GAS_PER_TX, d::MAX_SCRIPT_LENGTH, d::MAX_SCRIPT_DATA_LENGTH, d::MAX_STORAGE_SLOTS, d::MAX_PREDICATE_LENGTH, d::MAX_PREDICATE_DATA_LENGTH, d::GAS_PRICE_FACTOR, d::GAS_PER_BYTE, d::MAX_MESSAGE_DATA_LENGTH];
    ck!(pvec(&ConsensusParameters::default()) == named && pvec(&ConsensusParameters::DEFAULT) == named, "named defaults {named:?}, default parameters {:?}", ConsensusParameters::default());
    let fits = (p.max_inputs as u128) * 40 + 40 <= usize::MAX as u128;
    if fits { ck!(p.tx_offset() as u128 == p.max_inputs as u128 * 40 + 40, "tx_offset of {p:?} is {}", p.tx_offset()); }
    Ok(())
}

fn input_accessors(i: &In) -> R {
    let x = in_real(i);
    let x = &x;
    let built = match i.clone() {
        In::CoinSigned { txid, oi, owner, amount, asset, bh, ti, wi, mat } => Input::coin_signed(UtxoId::new(txid.into(), oi), owner.into(), amount, asset.into(), TxPointer::new(bh, ti), wi, mat),
        In::CoinPred { txid, oi, owner, amount, asset, bh, ti, mat, pred, pdata } => Input::coin_predicate(UtxoId::new(txid.into(), oi), owner.into(), amount, asset.into(), TxPointer::new(bh, ti), mat, pred, pdata),
        In::Contract { txid, oi, br, sr, bh, ti, cid } => Input::contract(UtxoId::new(txid.into(), oi), br.into(), sr.into(), TxPointer::new(bh, ti), cid.into()),
        In::MsgSigned { mid, snd, rcp, amount, nonce, wi, data } => Input::message_signed(mid.into(), snd.into(), rcp.into(), amount, nonce, wi, data),
        In::MsgPred { mid, snd, rcp, amount, nonce, data, pred, pdata } => Input::message_predicate(mid.into(), snd.into(), rcp.into(), amount, nonce, data, pred, pdata),
    };
    ck!(in_spec(&built) == *i, "constructor built {built:?}, expected {i:?}");
    let base = some(AssetId::BASE);
    match x.clone() {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => { acc!(x, utxo_id => some(utxo_id), input_owner => some(owner), asset_id => some(asset_id), contract_id => none(), amount => some(amount), witness_index => some(witness_index), maturity => some(maturity), predicate_len => some(0), predicate_data_len => some(0), message_id => none(), tx_pointer => some(tx_pointer), input_data => none(), input_predicate => none(), input_predicate_data => none(), predicate => none(), is_coin => "true", is_coin_signed => "true", is_coin_predicate => "false", is_message => "false", is_message_signed => "false", is_message_predicate => "false", is_contract => "false", balance_root => none(), state_root => none(), sender => none(), recipient => none(), nonce => none()); }
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => { acc!(x, utxo_id => some(utxo_id), input_owner => some(owner), asset_id => some(asset_id), contract_id => none(), amount => some(amount), witness_index => none(), maturity => some(maturity), predicate_len => some(predicate.len()), predicate_data_len => some(predicate_data.len()), message_id => none(), tx_pointer => some(tx_pointer), input_data => none(), input_predicate => some(&predicate), input_predicate_data => some(&predicate_data), predicate => some((&predicate, &predicate_data)), is_coin => "true", is_coin_signed => "false", is_coin_predicate => "true", is_message => "false", is_message_signed => "false", is_message_predicate => "false", is_contract => "false", balance_root => none(), state_root => none(), sender => none(), recipient => none(), nonce => none()); }
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => { acc!(x, utxo_id => some(utxo_id), input_owner => none(), asset_id => none(), contract_id => some(contract_id), amount => none(), witness_index => none(), maturity => none(), predicate_len => none(), predicate_data_len => none(), message_id => none(), tx_pointer => some(tx_pointer), input_data => none(), input_predicate => none(), input_predicate_data => none(), predicate => none(), is_coin => "false", is_coin_signed => "false", is_coin_predicate => "false", is_message => "false", is_message_signed => "false", is_message_predicate => "false", is_contract => "true", balance_root => some(balance_root), state_root => some(state_root), sender => none(), recipient => none(), nonce => none()); }
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => { acc!(x, utxo_id => none(), input_owner => none(), asset_id => base.clone(), contract_id => none(), amount => some(amount), witness_index => some(witness_index), maturity => none(), predicate_len => some(0), predicate_data_len => some(0), message_id => some(message_id), tx_pointer => none(), input_data => some(&data), input_predicate => none(), input_predicate_data => none(), predicate => none(), is_coin => "false", is_coin_signed => "false", is_coin_predicate => "false", is_message => "true", is_message_signed => "true", is_message_predicate => "false", is_contract => "false", balance_root => none(), state_root => none(), sender => some(sender), recipient => some(recipient), nonce => some(nonce)); }
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => { acc!(x, utxo_id => none(), input_owner => none(), asset_id => base.clone(), contract_id => none(), amount => some(amount), witness_index => none(), maturity => none(), predicate_len => some(predicate.len()), predicate_data_len => some(predicate_data.len()), message_id => some(message_id), tx_pointer => none(), input_data => some(&data), input_predicate => some(&predicate), input_predicate_data => some(&predicate_data), predicate => some((&predicate, &predicate_data)), is_coin => "false", is_coin_signed => "false", is_coin_predicate => "false", is_message => "true", is_message_signed => "false", is_message_predicate => "true", is_contract => "false", balance_root => none(), state_root => none(), sender => some(sender), recipient => some(recipient), nonce => some(nonce)); }
    }
    Ok(())
}

fn output_accessors(o: &Out) -> R {
    let x = out_real(o);
    let x = &x;
    let built = match o.clone() {
        Out::Coin { to, amount, asset } => Output::coin(to.into(), amount, asset.into()),
        Out::Contract { ii, br, sr } => Output::contract(ii, br.into(), sr.into()),
        Out::Message { rcp, amount } => Output::message(rcp.into(), amount),
        Out::Change { to, amount, asset } => Output::change(to.into(), amount, asset.into()),
        Out::Variable { to, amount, asset } => Output::variable(to.into(), amount, asset.into()),
        Out::Created { cid, sr } => Output::contract_created(cid.into(), sr.into()),
    };
    ck!(out_spec(&built) == *o, "constructor built {built:?}, expected {o:?}");
    match *x {
        Output::Coin { to, amount, asset_id } => { acc!(x, asset_id => some(asset_id), to => some(to), amount => some(amount), input_index => none(), balance_root => none(), state_root => none(), contract_id => none(), recipient => none(), is_coin => "true", is_message => "false", is_variable => "false", is_contract => "false", is_contract_created => "false"); }
        Output::Change { to, amount, asset_id } => { acc!(x, asset_id => some(asset_id), to => some(to), amount => some(amount), input_index => none(), balance_root => none(), state_root => none(), contract_id => none(), recipient => none(), is_coin => "false", is_message => "false", is_variable => "false", is_contract => "false", is_contract_created => "false"); }
        Output::Variable { to, amount, asset_id } => { acc!(x, asset_id => some(asset_id), to => some(to), amount => some(amount), input_index => none(), balance_root => none(), state_root => none(), contract_id => none(), recipient => none(), is_coin => "false", is_message => "false", is_variable => "true", is_contract => "false", is_contract_created => "false"); }
        Output::Contract { input_index, balance_root, state_root } => { acc!(x, asset_id => none(), to => none(), amount => none(), input_index => some(input_index), balance_root => some(balance_root), state_root => some(state_root), contract_id => none(), recipient => none(), is_coin => "false", is_message => "false", is_variable => "false", is_contract => "true", is_contract_created => "false"); }
        Output::Message { recipient, amount } => { acc!(x, asset_id => none(), to => none(), amount => some(amount), input_index => none(), balance_root => none(), state_root => none(), contract_id => none(), recipient => some(recipient), is_coin => "false", is_message => "true", is_variable => "false", is_contract => "false", is_contract_created => "false"); }
        Output::ContractCreated { contract_id, state_root } => { acc!(x, asset_id => none(), to => none(), amount => none(), input_index => none(), balance_root => none(), state_root => some(state_root), contract_id => some(contract_id), recipient => none(), is_coin => "false", is_message => "false", is_variable => "false", is_contract => "false", is_contract_created => "true"); }
    }
    Ok(())
}

/// Field accessors: what a mutable accessor writes is what the plain one reads, and no other field moves.
fn field_setters(r: &mut Rng) -> R {
    let (t, u) = (gen_tx(r, Some(Kind::Script)), gen_tx(r, Some(Kind::Script)));
    let mut x = script_real(&t);
    ck!(script_spec(&x) == t, "fields of a script: {:?}, expected {t:?}", script_spec(&x));
    let mut want = t.clone();
    macro_rules! set { ($($n:expr, $f:ident, $m:ident, $v:expr;)*) => { match r.below(9) { $($n => { *x.$m() = $v; want.$f = u.$f.clone(); })* _ => {} } } }
    set! { 0, price, gas_price_mut, u.price; 1, limit, gas_limit_mut, u.limit; 2, mat, maturity_mut, u.mat; 3, rroot, receipts_root_mut, u.rroot.into();
        4, script, script_mut, u.script.clone(); 5, sdata, script_data_mut, u.sdata.clone(); 6, ins, inputs_mut, u.ins.iter().map(in_real).collect();
        7, outs, outputs_mut, u.outs.iter().map(out_real).collect(); 8, wits, witnesses_mut, u.wits.iter().map(|w| w.clone().into()).collect(); }
    ck!(script_spec(&x) == want, "script after a field was set: {:?}, expected {want:?}", script_spec(&x));
    let (t, u) = (gen_tx(r, Some(Kind::Create)), gen_tx(r, Some(Kind::Create)));
    let mut x = create_real(&t);
    let mut want = t.clone();
    want.slots.sort();
    let mut base = create_spec(&x);
    base.slots.sort();
    ck!(base == want, "fields of a create: {base:?}, expected {want:?}");
    let mut want = create_spec(&x);
    macro_rules! set { ($($n:expr, $f:ident, $m:ident, $v:expr;)*) => { match r.below(10) { $($n => { *x.$m() = $v; want.$f = u.$f.clone(); })* _ => {} } } }
    set! { 0, price, gas_price_mut, u.price; 1, limit, gas_limit_mut, u.limit; 2, mat, maturity_mut, u.mat; 3, blen, bytecode_length_mut, u.blen;
        4, bwi, bytecode_witness_index_mut, u.bwi; 5, salt, salt_mut, u.salt.into(); 6, ins, inputs_mut, u.ins.iter().map(in_real).collect();
        7, outs, outputs_mut, u.outs.iter().map(out_real).collect(); 8, wits, witnesses_mut, u.wits.iter().map(|w| w.clone().into()).collect();
        9, slots, storage_slots_mut, u.slots.iter().map(|(k, v)| StorageSlot::new((*k).into(), (*v).into())).collect(); }
    ck!(create_spec(&x) == want, "create after a field was set: {:?}, expected {want:?}", create_spec(&x));
    let (t, u) = (gen_tx(r, Some(Kind::Mint)), gen_tx(r, Some(Kind::Mint)));
    let mut x = mint_real(&t);
    ck!(mint_spec(&x) == t, "fields of a mint: {:?}, expected {t:?}", mint_spec(&x));
    let mut want = t;
    if r.bool() { *x.tx_pointer_mut() = TxPointer::new(u.bh, u.ti); want.bh = u.bh; want.ti = u.ti; }
    else { *x.outputs_mut() = u.outs.iter().map(out_real).collect(); want.outs = u.outs; }
    ck!(mint_spec(&x) == want, "mint after a field was set: {:?}, expected {want:?}", mint_spec(&x));
    // the variant tests and casts of a transaction
    let t = gen_tx(r, None);
    let mut x = tx_real(&t);
    let k = (x.is_script(), x.is_create(), x.is_mint());
    ck!(k == (t.kind == Kind::Script, t.kind == Kind::Create, t.kind == Kind::Mint), "kind tests of {t:?}: {k:?}");
    let c = (x.as_script().map(script_spec), x.as_create().map(create_spec), x.as_mint().map(mint_spec));
    let s = tx_spec(&x);
    ck!(c == (k.0.then(|| s.clone()), k.1.then(|| s.clone()), k.2.then(|| s.clone())), "casts of {t:?}: {c:?}");
    let c = (x.as_script_mut().is_some(), x.as_create_mut().is_some(), x.as_mint_mut().is_some());
    ck!(c == k, "mutable casts of {t:?}: {c:?}");
    Ok(())
}

pub fn c24(r: &mut Rng) -> R {
    if r.chance(1, 3) { field_setters(r)?; }
    let k = r.below(5);
    input_accessors(&gen_in(r, k))?;
    let k = r.below(6);
    output_accessors(&gen_out(r, k))?;
    let (a, b) = (r.b32(), r.b32());
    let s = StorageSlot::new(a.into(), b.into());
    ck!(**s.key() == a && **s.value() == b, "StorageSlot accessors");
    let s64: Bytes64 = (&s).into();
    ck!(s64[..32] == a && s64[32..] == b && StorageSlot::from(&s64) == s, "StorageSlot to and from 64 bytes");
    let u = UtxoId::new(a.into(), 7);
    ck!(**u.tx_id() == a && u.output_index() == 7, "UtxoId accessors");
    let (h, i) = (r.word() as u32, r.word() as u16);
    ck!(TxPointer::new(h, i).block_height() == h && TxPointer::new(h, i).tx_index() == i, "TxPointer accessors");
    // lists
    let mut t = gen_tx(r, Some(Kind::Script));
    let pool: Vec<B32> = (0..3).map(|_| r.b32()).collect();
    for i in &mut t.ins { match i {
        In::CoinSigned { asset, .. } => if r.bool() { *asset = *r.pick(&pool) },
        In::CoinPred { asset, owner, pred, .. } => { if r.bool() { *asset = *r.pick(&pool) } if r.chance(9, 10) { *owner = merkle_root(pred) } }
        In::Contract { cid, .. } => if r.bool() { *cid = *r.pick(&pool) },
        In::MsgPred { rcp, pred, .. } => if r.chance(9, 10) { *rcp = merkle_root(pred) },
        _ => {} } }
    if r.chance(1, 6) { for i in &mut t.ins { if let In::CoinPred { pred, .. } | In::MsgPred { pred, .. } = i { if r.bool() { pred.clear() } } } }
    let x = script_real(&t);
    let assets: Vec<B32> = t.ins.iter().filter_map(|i| match i { In::CoinSigned { asset, .. } | In::CoinPred { asset, .. } => Some(*asset), In::Contract { .. } => None, _ => Some([0; 32]) }).collect();
    let got: Vec<B32> = x.input_asset_ids().map(|a| **a).collect();
    ck!(got == assets, "input_asset_ids {got:?}, expected {assets:?}");
    let got: Vec<B32> = x.input_asset_ids_unique().map(|a| **a).collect();
    ck!(!has_dup(got.clone()) && got.iter().all(|a| assets.contains(a)) && assets.iter().all(|a| got.contains(a)), "input_asset_ids_unique {got:?} of {assets:?}");
    let cs: Vec<B32> = t.ins.iter().filter_map(|i| if let In::Contract { cid, .. } = i { Some(*cid) } else { None }).collect();
    let got: Vec<B32> = x.input_contracts().map(|a| **a).collect();
    ck!(!has_dup(got.clone()) && got.iter().all(|a| cs.contains(a)) && cs.iter().all(|a| got.contains(a)), "input_contracts {got:?} of {cs:?}");
    let ok = t.ins.iter().all(|i| match i { In::CoinPred { owner, pred, .. } => *owner == merkle_root(pred), In::MsgPred { rcp, pred, .. } => *rcp == merkle_root(pred), _ => true });
    ck!(x.check_predicate_owners() == ok, "check_predicate_owners is {}, expected {ok}: {t:?}", !ok);
    Ok(())
}
