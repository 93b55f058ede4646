//! C01..C05, C18: codecs, sizes, decoder totality, offsets, caches.
use crate::gen::*;
use crate::{ck, R};
use fuel_tx::field::*;
#[allow(unused_imports)]
use fuel_tx::{Mint, Salt, Script, TxPointer, Create};
#[allow(unused_imports)]
use fuel_tx::field::{Script as _, Salt as _, TxPointer as _};
use fuel_tx::*;
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::io::{Read, Write};

pub fn pad(n: usize) -> usize { n.div_ceil(8) * 8 }

fn roundtrip<T, S>(name: &str, x: &T, spec: &S, to_spec: &dyn Fn(&T) -> S, extra: &[u8], mut old: T) -> R
where T: Clone + PartialEq + std::fmt::Debug + SizedBytes + Read + Write + Default, S: PartialEq + std::fmt::Debug {
    let mut x = x.clone();
    ck!(to_spec(&x) == *spec, "{name}: value built does not read back");
    let enc = x.to_bytes();
    ck!(to_spec(&x) == *spec, "{name}: encoding altered the value");
    let d = T::from_bytes(&enc).map_err(|e| format!("{name}: decoding own encoding failed: {e}; {x:?}"))?;
    ck!(to_spec(&d) == *spec, "{name}: decoded {d:?} differs from {x:?}");
    ck!(d == x, "{name}: decoded value not equal to original: {d:?} / {x:?}");
    // into a dirty instance, with trailing bytes
    let mut buf = enc.clone();
    buf.extend_from_slice(extra);
    let mut e = T::default();
    let n = e.write(&buf).map_err(|e| format!("{name}: decoding with trailing bytes failed: {e}"))?;
    ck!(to_spec(&e) == *spec, "{name}: decoding with trailing bytes gave {e:?} for {x:?}");
    let _ = n;
    let mut dirty = x.clone();
    dirty.write(&enc).map_err(|e| format!("{name}: decoding over an instance failed: {e}"))?;
    ck!(to_spec(&dirty) == *spec, "{name}: decoding over a used instance gave {dirty:?} for {x:?}");
    let was = format!("{old:?}");
    old.write(&enc).map_err(|e| format!("{name}: decoding over {was} failed: {e}; {x:?}"))?;
    ck!(to_spec(&old) == *spec, "{name}: decoding over {was} gave {old:?} for {x:?}");
    ck!(old == x, "{name}: decoded over {was}, not equal to original: {old:?} / {x:?}");
    Ok(())
}

fn sizes<T>(name: &str, x: &T, r: &mut Rng) -> R
where T: Clone + std::fmt::Debug + SizedBytes + Read + Write + Default {
    let mut x = x.clone();
    let n = x.serialized_size();
    let enc = x.to_bytes();
    ck!(enc.len() == n, "{name}: to_bytes length {} != declared {n}", enc.len());
    let extra = r.below(40);
    let mut outs = vec![];
    for fill in [0xa5u8, 0x5a] {
        let mut buf = vec![fill; n + extra];
        let w = x.read(&mut buf).map_err(|e| format!("{name}: encoder failed on a large enough buffer: {e}; {x:?}"))?;
        ck!(w == n, "{name}: encoder reported {w}, declared {n}; {x:?}");
        ck!(buf[n..].iter().all(|b| *b == fill), "{name}: encoder wrote past the declared size; {x:?}");
        outs.push(buf[..n].to_vec());
    }
    ck!(outs[0] == outs[1] && outs[0] == enc, "{name}: encoder did not write all {n} bytes; {x:?}");
    let mut buf = enc.clone();
    buf.extend(r.bytes_n(extra));
    let mut d = T::default();
    let c = d.write(&buf).map_err(|e| format!("{name}: decoder failed on encoding plus trailing bytes: {e}; {x:?}"))?;
    ck!(c == n, "{name}: decoder consumed {c}, declared {n}; {x:?}");
    ck!(d.serialized_size() == n, "{name}: decoded value declares {} not {n}", d.serialized_size());
    for k in 0..4 {
        if n == 0 { break; }
        let short = match k { 0 => n - 1, 1 => n.saturating_sub(8), 2 => 0, _ => r.below(n) };
        let mut buf = vec![0u8; short];
        ck!(x.read(&mut buf).is_err(), "{name}: encoder accepted {short} bytes, needs {n}; {x:?}");
    }
    Ok(())
}

fn slot_spec(s: &StorageSlot) -> (B32, B32) { (**s.key(), **s.value()) }
fn utxo_spec(u: &UtxoId) -> (B32, u8) { (**u.tx_id(), u.output_index()) }
fn ptr_spec(p: &TxPointer) -> (u32, u16) { (p.block_height(), p.tx_index()) }

pub fn c01(r: &mut Rng) -> R {
    let extra = { let n = r.below(20); r.bytes_n(n) };
    match r.below(8) {
        0 => { let k = r.below(5); let i = gen_in(r, k); let k = r.below(5); let o = gen_in(r, k); roundtrip("Input", &in_real(&i), &i, &in_spec, &extra, in_real(&o)) }
        1 => { let k = r.below(6); let o = gen_out(r, k); let k = r.below(6); let p = gen_out(r, k); roundtrip("Output", &out_real(&o), &o, &out_spec, &extra, out_real(&p)) }
        2 => {
            let w = r.bytes(); roundtrip("Witness", &Witness::from(w.clone()), &w, &|w: &Witness| w.as_vec().clone(), &extra, Witness::from(r.bytes()))?;
            let (k, v) = (r.b32(), r.b32());
            roundtrip("StorageSlot", &StorageSlot::new(k.into(), v.into()), &(k, v), &slot_spec, &extra, StorageSlot::new(r.b32().into(), r.b32().into()))?;
            let (t, i) = (r.b32(), r.byte());
            roundtrip("UtxoId", &UtxoId::new(t.into(), i), &(t, i), &utxo_spec, &extra, UtxoId::new(r.b32().into(), r.byte()))?;
            let (h, i) = (r.word() as u32, r.word() as u16);
            roundtrip("TxPointer", &TxPointer::new(h, i), &(h, i), &ptr_spec, &extra, TxPointer::new(r.word() as u32, r.word() as u16))
        }
        3 => { let t = gen_tx_wide(r, Some(Kind::Script)); roundtrip("Script", &script_real(&t), &t, &script_spec, &extra, { let o = gen_tx(r, Some(Kind::Script)); script_real(&o) }) }
        4 => { let t = gen_tx_wide(r, Some(Kind::Create)); roundtrip("Create", &create_real(&t), &t, &create_spec, &extra, { let o = gen_tx(r, Some(Kind::Create)); create_real(&o) }) }
        5 => { let t = gen_tx_wide(r, Some(Kind::Mint)); roundtrip("Mint", &mint_real(&t), &t, &mint_spec, &extra, { let o = gen_tx(r, Some(Kind::Mint)); mint_real(&o) }) }
        _ => { let t = gen_tx_wide(r, None); roundtrip("Transaction", &tx_real(&t), &t, &tx_spec, &extra, { let o = gen_tx(r, None); tx_real(&o) }) }
    }
}

pub fn c02(r: &mut Rng) -> R {
    match r.below(8) {
        0 => { let k = r.below(5); let i = gen_in(r, k); sizes("Input", &in_real(&i), r) }
        1 => { let k = r.below(6); let o = gen_out(r, k); sizes("Output", &out_real(&o), r) }
        2 => {
            let w = r.bytes(); sizes("Witness", &Witness::from(w.clone()), r)?;
            let (k, v) = (r.b32(), r.b32());
            sizes("StorageSlot", &StorageSlot::new(k.into(), v.into()), r)?;
            let (t, i) = (r.b32(), r.byte());
            sizes("UtxoId", &UtxoId::new(t.into(), i), r)?;
            let (h, i) = (r.word() as u32, r.word() as u16);
            sizes("TxPointer", &TxPointer::new(h, i), r)
        }
        3 => { let t = gen_tx_wide(r, Some(Kind::Script)); sizes("Script", &script_real(&t), r) }
        4 => { let t = gen_tx_wide(r, Some(Kind::Create)); sizes("Create", &create_real(&t), r) }
        5 => { let t = gen_tx_wide(r, Some(Kind::Mint)); sizes("Mint", &mint_real(&t), r) }
        _ => { let t = gen_tx_wide(r, None); sizes("Transaction", &tx_real(&t), r) }
    }
}

fn hostile(r: &mut Rng, enc: &mut Vec<u8>) {
    let k = r.below(5);
    for _ in 0..k {
        if enc.len() >= 8 {
            // any aligned word, biased to the front where the lengths are
            let words = enc.len() / 8;
            let w = if r.bool() { r.below(words) } else { r.below(words.min(24)) };
            let v = match r.below(12) {
                0 => u64::MAX, 1 => u64::MAX - r.below(16) as u64, 2 => 1 << 63, 3 => (1 << 63) - 1,
                4 => 1 << 32, 5 => enc.len() as u64, 6 => (enc.len() as u64).wrapping_sub(r.below(64) as u64),
                7 => r.below(10) as u64, 8 => u64::MAX / r.below(300).max(1) as u64, 9 => 1u64 << r.below(64), 10 => 0xffff, _ => r.next(),
            };
            enc[w * 8..w * 8 + 8].copy_from_slice(&v.to_be_bytes());
        }
    }
    match r.below(6) {
        0 => { let n = r.below(enc.len() + 1); enc.truncate(n); }
        1 => { let n = enc.len().saturating_sub(r.below(17)); enc.truncate(n); }
        2 => { let n = r.below(40); let b = r.bytes_n(n); enc.extend(b); }
        3 => { for _ in 0..r.below(4) { if !enc.is_empty() { let i = r.below(enc.len()); enc[i] = r.byte(); } } }
        _ => {}
    }
}

fn total<T, S>(name: &str, buf: &[u8], mk: &dyn Fn(&[u8]) -> (std::io::Result<usize>, T), spec: &dyn Fn(&T) -> S) -> R
where S: PartialEq + std::fmt::Debug {
    let n = buf.len();
    let mut res: Vec<(Option<usize>, S)> = vec![];
    for fill in [0u8, 0xff, 0x01] {
        let mut b = buf.to_vec();
        b.resize(n + 600, fill);
        let (c, x) = mk(&b[..n]);
        if let Ok(c) = c { ck!(c <= n, "{name}: reported {c} bytes consumed of {n}"); }
        res.push((c.ok(), spec(&x)));
    }
    ck!(res[0].0 == res[1].0 && res[0].0 == res[2].0, "{name}: result depends on bytes outside the string: {:?} {:?}", res[0].0, res[1].0);
    if res[0].0.is_some() { ck!(res[0] == res[1] && res[0] == res[2], "{name}: value depends on bytes outside the string"); }
    Ok(())
}
fn wr<T: Write + Default>(b: &[u8]) -> (std::io::Result<usize>, T) { let mut x = T::default(); let n = x.write(b); (n, x) }
fn wr_receipt(b: &[u8]) -> (std::io::Result<usize>, Receipt) {
    let mut x = Receipt::ret(Default::default(), 0, 0, 0);
    let n = x.write(b);
    (n, x)
}

pub fn c03(r: &mut Rng) -> R {
    let which = r.below(11);
    let mut b = match which {
        0 => { let k = r.below(5); in_real(&gen_in(r, k)).to_bytes() }
        1 => { let k = r.below(6); out_real(&gen_out(r, k)).to_bytes() }
        2 => { let w = r.bytes(); Witness::from(w).to_bytes() }
        3 => StorageSlot::new(r.b32().into(), r.b32().into()).to_bytes(),
        4 => UtxoId::new(r.b32().into(), r.byte()).to_bytes(),
        5 => TxPointer::new(r.next() as u32, r.next() as u16).to_bytes(),
        6 => { let (mut x, _) = gen_receipt(r); x.to_bytes() }
        _ => { let k = match which { 7 => Some(Kind::Script), 8 => Some(Kind::Create), 9 => Some(Kind::Mint), _ => None };
               tx_real(&gen_tx(r, k)).to_bytes() }
    };
    if r.chance(1, 10) { b = r.bytes(); if b.len() >= 8 && r.bool() { let v = r.below(12) as u64; b[..8].copy_from_slice(&v.to_be_bytes()); } }
    hostile(r, &mut b);
    let dbg = |x: &Receipt| format!("{x:?}");
    match which {
        0 => { total("Input", &b, &wr::<Input>, &in_spec)?; let _ = Input::from_bytes(&b); Ok(()) }
        1 => { total("Output", &b, &wr::<Output>, &out_spec)?; let _ = Output::from_bytes(&b); Ok(()) }
        2 => total("Witness", &b, &wr::<Witness>, &|w: &Witness| w.as_vec().clone()),
        3 => total("StorageSlot", &b, &wr::<StorageSlot>, &slot_spec),
        4 => total("UtxoId", &b, &wr::<UtxoId>, &utxo_spec),
        5 => total("TxPointer", &b, &wr::<TxPointer>, &ptr_spec),
        6 => { total("Receipt", &b, &wr_receipt, &dbg)?; let _ = Receipt::from_bytes(&b); Ok(()) }
        7 => total("Script", &b, &wr::<Script>, &script_spec),
        8 => total("Create", &b, &wr::<Create>, &create_spec),
        9 => total("Mint", &b, &wr::<Mint>, &mint_spec),
        _ => total("Transaction", &b, &wr::<Transaction>, &tx_spec),
    }
}

fn at(enc: &[u8], name: &str, off: usize, want: &[u8]) -> R {
    ck!(off.checked_add(want.len()).map_or(false, |e| e <= enc.len()), "{name}: offset {off} + {} outside the encoding of {} bytes", want.len(), enc.len());
    ck!(&enc[off..off + want.len()] == want, "{name}: offset {off} does not hold the field");
    Ok(())
}
fn opt(enc: &[u8], name: &str, off: Option<usize>, want: Option<&[u8]>) -> R {
    match (off, want) {
        (None, None) => Ok(()),
        (Some(o), Some(w)) => at(enc, name, o, w),
        (o, w) => Err(format!("{name}: offset {o:?} but field present = {}", w.is_some())),
    }
}
fn w8(x: u64) -> [u8; 8] { x.to_be_bytes() }
fn padded(v: &[u8]) -> Vec<u8> { let mut p = v.to_vec(); p.resize(pad(v.len()), 0); p }

fn input_offsets(i: &In) -> R {
    let mut x = in_real(i);
    let enc = x.to_bytes();
    let ptr = |bh: u32, ti: u16| { let mut v = w8(bh as u64).to_vec(); v.extend(w8(ti as u64)); v };
    let ux = |t: &B32, o: u8| { let mut v = t.to_vec(); v.extend(w8(o as u64)); v };
    let (mut ut, mut ow, mut asset, mut data, mut cp, mut br, mut sr, mut cid, mut mid, mut snd, mut rcp, mut tp) =
        (None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>, None::<Vec<u8>>);
    let (mut pr, mut pd) = (None::<Vec<u8>>, None::<Vec<u8>>);
    match i {
        In::CoinSigned { txid, oi, owner, asset: a, bh, ti, .. } => { ut = Some(ux(txid, *oi)); ow = Some(owner.to_vec()); asset = Some(a.to_vec()); tp = Some(ptr(*bh, *ti)); cp = Some(vec![]); }
        In::CoinPred { txid, oi, owner, asset: a, bh, ti, pred, pdata, .. } => { ut = Some(ux(txid, *oi)); ow = Some(owner.to_vec()); asset = Some(a.to_vec()); tp = Some(ptr(*bh, *ti)); cp = Some(padded(pred)); pr = Some(padded(pred)); pd = Some(padded(pdata)); }
        In::Contract { txid, oi, br: b, sr: s, bh, ti, cid: c } => { ut = Some(ux(txid, *oi)); br = Some(b.to_vec()); sr = Some(s.to_vec()); tp = Some(ptr(*bh, *ti)); cid = Some(c.to_vec()); }
        In::MsgSigned { mid: m, snd: s, rcp: r, data: d, .. } => { mid = Some(m.to_vec()); snd = Some(s.to_vec()); rcp = Some(r.to_vec()); data = Some(padded(d)); }
        In::MsgPred { mid: m, snd: s, rcp: r, data: d, pred, pdata, .. } => { mid = Some(m.to_vec()); snd = Some(s.to_vec()); rcp = Some(r.to_vec()); data = Some(padded(d)); pr = Some(padded(pred)); pd = Some(padded(pdata)); }
    }
    let rp = x.repr();
    let n = |s: &str| format!("{s} of {i:?}");
    opt(&enc, &n("utxo_id_offset"), rp.utxo_id_offset(), ut.as_deref())?;
    opt(&enc, &n("owner_offset"), rp.owner_offset(), ow.as_deref())?;
    opt(&enc, &n("asset_id_offset"), rp.asset_id_offset(), asset.as_deref())?;
    opt(&enc, &n("data_offset"), rp.data_offset(), data.as_deref())?;
    opt(&enc, &n("coin_predicate_offset"), rp.coin_predicate_offset(), cp.as_deref())?;
    opt(&enc, &n("contract_balance_root_offset"), rp.contract_balance_root_offset(), br.as_deref())?;
    opt(&enc, &n("contract_state_root_offset"), rp.contract_state_root_offset(), sr.as_deref())?;
    opt(&enc, &n("contract_id_offset"), rp.contract_id_offset(), cid.as_deref())?;
    opt(&enc, &n("message_id_offset"), rp.message_id_offset(), mid.as_deref())?;
    opt(&enc, &n("message_sender_offset"), rp.message_sender_offset(), snd.as_deref())?;
    opt(&enc, &n("message_recipient_offset"), rp.message_recipient_offset(), rcp.as_deref())?;
    opt(&enc, &n("tx_pointer_offset"), rp.tx_pointer_offset(), tp.as_deref())?;
    opt(&enc, &n("predicate_offset"), x.predicate_offset(), pr.as_deref())?;
    opt(&enc, &n("predicate_data_offset"), x.predicate_data_offset(), pd.as_deref())?;
    if cp.is_some() { at(&enc, &n("Input::coin_predicate_offset"), Input::coin_predicate_offset(), cp.as_deref().unwrap())?; }
    if data.is_some() { at(&enc, &n("Input::message_data_offset"), Input::message_data_offset(), data.as_deref().unwrap())?; }
    let from: InputRepr = (&x).into();
    ck!(from == rp, "InputRepr::from differs from repr()");
    ck!(enc[..8] == w8(rp.clone() as u64), "{}: repr differs from encoded discriminant", n("repr"));
    Ok(())
}

fn output_offsets(o: &Out) -> R {
    let mut x = out_real(o);
    let enc = x.to_bytes();
    let (mut to, mut asset, mut br, mut sr, mut csr, mut cid, mut rcp) = (None, None, None, None, None, None, None);
    match o {
        Out::Coin { to: t, asset: a, .. } | Out::Change { to: t, asset: a, .. } | Out::Variable { to: t, asset: a, .. } => { to = Some(&t[..]); asset = Some(&a[..]); }
        Out::Contract { br: b, sr: s, .. } => { br = Some(&b[..]); sr = Some(&s[..]); }
        Out::Message { rcp: r, .. } => rcp = Some(&r[..]),
        Out::Created { cid: c, sr: s } => { cid = Some(&c[..]); csr = Some(&s[..]); }
    }
    let rp = x.repr();
    let n = |s: &str| format!("{s} of {o:?}");
    opt(&enc, &n("to_offset"), rp.to_offset(), to)?;
    opt(&enc, &n("asset_id_offset"), rp.asset_id_offset(), asset)?;
    opt(&enc, &n("contract_balance_root_offset"), rp.contract_balance_root_offset(), br)?;
    opt(&enc, &n("contract_state_root_offset"), rp.contract_state_root_offset(), sr)?;
    opt(&enc, &n("contract_created_state_root_offset"), rp.contract_created_state_root_offset(), csr)?;
    opt(&enc, &n("contract_id_offset"), rp.contract_id_offset(), cid)?;
    opt(&enc, &n("recipient_offset"), rp.recipient_offset(), rcp)?;
    ck!(enc[..8] == w8(rp.clone() as u64), "{}: repr differs from encoded discriminant", n("repr"));
    Ok(())
}

fn ins_offsets<T: Inputs>(x: &T, enc: &[u8], t: &Tx) -> R {
    for k in 0..t.ins.len() {
        let e = in_real(&t.ins[k]).to_bytes();
        opt(enc, &format!("inputs_offset_at({k})"), x.inputs_offset_at(k), Some(&e))?;
        let p = match &t.ins[k] { In::CoinPred { pred, .. } | In::MsgPred { pred, .. } => Some(padded(pred)), _ => None };
        let got = x.inputs_predicate_offset_at(k);
        opt(enc, &format!("inputs_predicate_offset_at({k})"), got.map(|g| g.0), p.as_deref())?;
        // the predicate must be that of this input: it lies inside the input's own encoding
        if let (Some((o, l)), Some(p)) = (got, p) {
            ck!(l == p.len(), "inputs_predicate_offset_at({k}): length {l}, padded predicate is {}", p.len());
            let start = x.inputs_offset_at(k).unwrap();
            let po = in_real(&t.ins[k]).predicate_offset().unwrap_or(usize::MAX);
            ck!(o.wrapping_sub(start) == po, "inputs_predicate_offset_at({k}) = {o} is not inside its input at {start} + {po}");
        }
    }
    for k in [t.ins.len(), t.ins.len() + 1, t.ins.len() + 7, usize::MAX] {
        ck!(x.inputs_offset_at(k).is_none(), "inputs_offset_at({k}) present with {} inputs", t.ins.len());
        ck!(x.inputs_predicate_offset_at(k).is_none(), "inputs_predicate_offset_at({k}) present with {} inputs", t.ins.len());
    }
    let all: Vec<u8> = t.ins.iter().flat_map(|i| in_real(i).to_bytes()).collect();
    at(enc, "inputs_offset", x.inputs_offset(), &all)
}
fn outs_offsets<T: Outputs>(x: &T, enc: &[u8], t: &Tx) -> R {
    for k in 0..t.outs.len() {
        opt(enc, &format!("outputs_offset_at({k})"), x.outputs_offset_at(k), Some(&out_real(&t.outs[k]).to_bytes()))?;
    }
    for k in [t.outs.len(), t.outs.len() + 1, t.outs.len() + 7, usize::MAX] {
        ck!(x.outputs_offset_at(k).is_none(), "outputs_offset_at({k}) present with {} outputs", t.outs.len());
    }
    let all: Vec<u8> = t.outs.iter().flat_map(|i| out_real(i).to_bytes()).collect();
    at(enc, "outputs_offset", x.outputs_offset(), &all)
}
fn wit_enc(w: &[u8]) -> Vec<u8> { Witness::from(w).to_bytes() }
fn wits_offsets<T: Witnesses>(x: &T, enc: &[u8], t: &Tx) -> R {
    for k in 0..t.wits.len() {
        opt(enc, &format!("witnesses_offset_at({k})"), x.witnesses_offset_at(k), Some(&wit_enc(&t.wits[k])))?;
    }
    for k in [t.wits.len(), t.wits.len() + 1, t.wits.len() + 7, usize::MAX] {
        ck!(x.witnesses_offset_at(k).is_none(), "witnesses_offset_at({k}) present with {} witnesses", t.wits.len());
    }
    let all: Vec<u8> = t.wits.iter().flat_map(|i| wit_enc(i)).collect();
    ck!(x.witnesses_offset() + all.len() == enc.len(), "witnesses_offset {} + {} is not the end of the encoding {}", x.witnesses_offset(), all.len(), enc.len());
    at(enc, "witnesses_offset", x.witnesses_offset(), &all)
}

fn script_offsets(x: &Script, t: &Tx) -> R {
    let enc = x.clone().to_bytes();
    at(&enc, "gas_price_offset", x.gas_price_offset(), &w8(t.price))?;
    at(&enc, "gas_limit_offset", x.gas_limit_offset(), &w8(t.limit))?;
    at(&enc, "maturity_offset", x.maturity_offset(), &w8(t.mat))?;
    at(&enc, "receipts_root_offset", x.receipts_root_offset(), &t.rroot)?;
    at(&enc, "script_offset", x.script_offset(), &padded(&t.script))?;
    at(&enc, "script_data_offset", x.script_data_offset(), &padded(&t.sdata))?;
    ck!(x.script_offset() + pad(t.script.len()) == x.script_data_offset(), "script_data_offset does not follow the script");
    ck!(x.script_data_offset() + pad(t.sdata.len()) == x.inputs_offset(), "inputs_offset does not follow the script data");
    ins_offsets(x, &enc, t)?;
    outs_offsets(x, &enc, t)?;
    wits_offsets(x, &enc, t)
}
fn create_offsets(x: &Create, t: &Tx) -> R {
    let enc = x.clone().to_bytes();
    at(&enc, "gas_price_offset", x.gas_price_offset(), &w8(t.price))?;
    at(&enc, "gas_limit_offset", x.gas_limit_offset(), &w8(t.limit))?;
    at(&enc, "maturity_offset", x.maturity_offset(), &w8(t.mat))?;
    at(&enc, "bytecode_length_offset", x.bytecode_length_offset(), &w8(t.blen))?;
    at(&enc, "bytecode_witness_index_offset", x.bytecode_witness_index_offset(), &w8(t.bwi as u64))?;
    at(&enc, "salt_offset", x.salt_offset(), &t.salt)?;
    let slots: Vec<u8> = t.slots.iter().flat_map(|(k, v)| [k.to_vec(), v.to_vec()].concat()).collect();
    at(&enc, "storage_slots_offset", x.storage_slots_offset(), &slots)?;
    ck!(x.storage_slots_offset() + slots.len() == x.inputs_offset(), "inputs_offset does not follow the storage slots");
    for k in 0..t.slots.len() {
        opt(&enc, &format!("storage_slots_offset_at({k})"), x.storage_slots_offset_at(k), Some(&slots[64 * k..64 * k + 64]))?;
    }
    for k in [t.slots.len(), t.slots.len() + 1, usize::MAX] {
        ck!(x.storage_slots_offset_at(k).is_none(), "storage_slots_offset_at({k}) present with {} slots", t.slots.len());
    }
    ins_offsets(x, &enc, t)?;
    outs_offsets(x, &enc, t)?;
    wits_offsets(x, &enc, t)
}
fn mint_offsets(x: &Mint, t: &Tx) -> R {
    let enc = x.clone().to_bytes();
    let mut p = w8(t.bh as u64).to_vec();
    p.extend(w8(t.ti as u64));
    at(&enc, "tx_pointer_offset", x.tx_pointer_offset(), &p)?;
    outs_offsets(x, &enc, t)
}

pub fn c04(r: &mut Rng) -> R {
    match r.below(6) {
        0 => { let k = r.below(5); input_offsets(&gen_in(r, k)) }
        1 => { let k = r.below(6); output_offsets(&gen_out(r, k)) }
        _ => {
            let t = gen_tx(r, None);
            let pre = r.bool();
            let e = |e: String| format!("{e}; precomputed={pre}; {t:?}");
            match t.kind {
                Kind::Script => { let mut x = script_real(&t); if pre { x.precompute() } script_offsets(&x, &t).map_err(e) }
                Kind::Create => { let mut x = create_real(&t); if pre { x.precompute() } create_offsets(&x, &t).map_err(e) }
                Kind::Mint => { let mut x = mint_real(&t); if pre { x.precompute() } mint_offsets(&x, &t).map_err(e) }
            }
        }
    }
}

macro_rules! same { ($a:expr, $b:expr, $e:expr) => {{ let (a, b) = (format!("{:?}", $e(&$a)), format!("{:?}", $e(&$b))); ck!(a == b, "{}: {a} without metadata, {b} with", stringify!($e)); }} }

fn cache_common<T>(a: &T, b: &T, n: usize) -> R where T: UniqueIdentifier + Inputs + Outputs + Witnesses + SizedBytes + Chargeable {
    same!(a, b, |x: &&T| x.id());
    same!(a, b, |x: &&T| x.inputs_offset());
    same!(a, b, |x: &&T| x.outputs_offset());
    same!(a, b, |x: &&T| x.witnesses_offset());
    same!(a, b, |x: &&T| x.serialized_size());
    same!(a, b, |x: &&T| x.metered_bytes_size());
    for k in (0..n + 3).chain([usize::MAX]) {
        same!(a, b, |x: &&T| x.inputs_offset_at(k));
        same!(a, b, |x: &&T| x.inputs_predicate_offset_at(k));
        same!(a, b, |x: &&T| x.outputs_offset_at(k));
        same!(a, b, |x: &&T| x.witnesses_offset_at(k));
    }
    Ok(())
}

pub fn c05(r: &mut Rng) -> R {
    let t = gen_tx(r, None);
    let n = t.ins.len().max(t.outs.len()).max(t.wits.len()).max(t.slots.len());
    let twice = r.chance(1, 4);
    let e = |e: String| format!("{e}; {t:?}");
    match t.kind {
        Kind::Script => {
            let a = script_real(&t);
            let mut b = a.clone();
            // a stale cache must be replaced as a whole
            if twice { let t2 = gen_tx(r, Some(Kind::Script)); b = script_real(&t2); b.precompute();
                *b.inputs_mut() = a.inputs().clone(); *b.outputs_mut() = a.outputs().clone(); *b.witnesses_mut() = a.witnesses().clone();
                *b.script_mut() = a.script().clone(); *b.script_data_mut() = a.script_data().clone(); *b.receipts_root_mut() = *a.receipts_root();
                *b.gas_price_mut() = *a.gas_price(); *b.gas_limit_mut() = *a.gas_limit(); *b.maturity_mut() = *a.maturity(); }
            ck!(!a.is_computed(), "fresh transaction has metadata");
            b.precompute();
            ck!(b.is_computed(), "precompute computed nothing");
            ck!(script_spec(&b) == t, "precompute altered the transaction: {t:?}");
            ck!(a == b && a.clone().to_bytes() == b.clone().to_bytes(), "precompute altered equality or encoding: {t:?}");
            cache_common(&a, &b, n).map_err(e)?;
            same!(a, b, |x: &Script| x.script_data_offset());
            same!(a, b, |x: &Script| x.script_offset());
            same!(a, b, |x: &Script| x.receipts_root_offset());
            ck!(!Script::from_bytes(&b.to_bytes()).map_err(|e| e.to_string())?.is_computed(), "decoded script has metadata");
            let mut d = b.clone(); let enc = b.to_bytes(); d.write(&enc).map_err(|e| e.to_string())?;
            ck!(!d.is_computed(), "script decoded over a computed one keeps metadata");
        }
        Kind::Create => {
            let a = create_real(&t);
            let mut b = a.clone();
            if twice { let t2 = gen_tx(r, Some(Kind::Create)); b = create_real(&t2); b.precompute();
                *b.inputs_mut() = a.inputs().clone(); *b.outputs_mut() = a.outputs().clone(); *b.witnesses_mut() = a.witnesses().clone();
                *b.storage_slots_mut() = a.storage_slots().clone(); *b.salt_mut() = *a.salt(); *b.bytecode_length_mut() = *a.bytecode_length();
                *b.bytecode_witness_index_mut() = *a.bytecode_witness_index();
                *b.gas_price_mut() = *a.gas_price(); *b.gas_limit_mut() = *a.gas_limit(); *b.maturity_mut() = *a.maturity(); }
            ck!(!a.is_computed(), "fresh transaction has metadata");
            b.precompute();
            ck!(b.is_computed(), "precompute computed nothing");
            ck!(create_spec(&b) == t, "precompute altered the transaction: {t:?}");
            ck!(a == b && a.clone().to_bytes() == b.clone().to_bytes(), "precompute altered equality or encoding: {t:?}");
            cache_common(&a, &b, n).map_err(e)?;
            for k in (0..n + 3).chain([usize::MAX]) { same!(a, b, |x: &Create| x.storage_slots_offset_at(k)); }
            same!(a, b, |x: &Create| x.storage_slots_offset());
            ck!(!Create::from_bytes(&b.to_bytes()).map_err(|e| e.to_string())?.is_computed(), "decoded create has metadata");
            let mut d = b.clone(); let enc = b.to_bytes(); d.write(&enc).map_err(|e| e.to_string())?;
            ck!(!d.is_computed(), "create decoded over a computed one keeps metadata");
        }
        Kind::Mint => {
            let a = mint_real(&t);
            let mut b = a.clone();
            if twice { let t2 = gen_tx(r, Some(Kind::Mint)); b = mint_real(&t2); b.precompute(); *b.outputs_mut() = a.outputs().clone(); *b.tx_pointer_mut() = *a.tx_pointer(); }
            b.precompute();
            ck!(b.is_computed() && !a.is_computed(), "precompute computed nothing");
            ck!(mint_spec(&b) == t, "precompute altered the transaction: {t:?}");
            ck!(a == b && a.clone().to_bytes() == b.clone().to_bytes(), "precompute altered equality or encoding: {t:?}");
            same!(a, b, |x: &Mint| x.id());
            same!(a, b, |x: &Mint| x.outputs_offset());
            same!(a, b, |x: &Mint| x.serialized_size());
            for k in (0..n + 3).chain([usize::MAX]) { same!(a, b, |x: &Mint| x.outputs_offset_at(k)); }
            ck!(!Mint::from_bytes(&b.to_bytes()).map_err(|e| e.to_string())?.is_computed(), "decoded mint has metadata");
            let mut d = b.clone(); let enc = b.to_bytes(); d.write(&enc).map_err(|e| e.to_string())?;
            ck!(!d.is_computed(), "mint decoded over a computed one keeps metadata");
        }
    }
    let mut x = tx_real(&t);
    let id = x.id();
    x.precompute();
    ck!(x.is_computed() && x.id() == id && tx_spec(&x) == t, "Transaction::precompute: {t:?}");
    let d = Transaction::from_bytes(&x.to_bytes()).map_err(|e| e.to_string())?;
    ck!(!d.is_computed(), "decoded transaction has metadata");
    // a change after the first computation, and a second computation
    let mut t2 = t.clone();
    match &mut x {
        Transaction::Script(s) => { let v = r.next(); *s.maturity_mut() = v; t2.mat = v; let b = r.bytes(); *s.script_data_mut() = b.clone(); t2.sdata = b; }
        Transaction::Create(c) => { let v = r.next(); *c.maturity_mut() = v; t2.mat = v; let w = r.bytes(); c.witnesses_mut().insert(0, w.clone().into()); t2.wits.insert(0, w); }
        Transaction::Mint(m) => { let o = Out::Message { rcp: r.b32(), amount: r.next() }; m.outputs_mut().insert(0, out_real(&o)); t2.outs.insert(0, o); }
    }
    x.precompute();
    let w = tx_real(&t2);
    ck!(x == w && x.id() == w.id() && x.serialized_size() == w.serialized_size(), "computing again after a change: {t2:?}");
    match (&x, &w) {
        (Transaction::Script(a), Transaction::Script(b)) => cache_common(b, a, n).map_err(e)?,
        (Transaction::Create(a), Transaction::Create(b)) => cache_common(b, a, n).map_err(e)?,
        _ => {}
    }
    Ok(())
}

/// every field of a receipt as (name, bytes), read through public fields
pub fn gen_receipt(r: &mut Rng) -> (Receipt, usize) {
    let k = r.below(11);
    (gen_receipt_k(r, k), k)
}
pub fn gen_receipt_k(r: &mut Rng, k: usize) -> Receipt {
    let len = |r: &mut Rng, d: &[u8]| if r.bool() { d.len() as u64 } else { r.word() };
    match k {
        0 => Receipt::Call { id: r.b32().into(), to: r.b32().into(), amount: r.word(), asset_id: r.b32().into(), gas: r.word(), param1: r.word(), param2: r.word(), pc: r.word(), is: r.word() },
        1 => Receipt::Return { id: r.b32().into(), val: r.word(), pc: r.word(), is: r.word() },
        2 => { let data = r.bytes(); Receipt::ReturnData { id: r.b32().into(), ptr: r.word(), len: len(r, &data), digest: r.b32().into(), data, pc: r.word(), is: r.word() } }
        3 => {
            let mut w = r.next();
            if r.bool() { w = (w & 0x00ff_ffff_ffff_ffff) | ((r.below(40) as u64) << 56); }
            let reason = InstructionResult::from(w);
            let reason = InstructionResult::from(Word::from(reason));
            Receipt::Panic { id: r.b32().into(), reason, pc: r.word(), is: r.word(), contract_id: if r.bool() { Some(r.b32().into()) } else { None } }
        }
        4 => Receipt::Revert { id: r.b32().into(), ra: r.word(), pc: r.word(), is: r.word() },
        5 => Receipt::Log { id: r.b32().into(), ra: r.word(), rb: r.word(), rc: r.word(), rd: r.word(), pc: r.word(), is: r.word() },
        6 => { let data = r.bytes(); Receipt::LogData { id: r.b32().into(), ra: r.word(), rb: r.word(), ptr: r.word(), len: len(r, &data), digest: r.b32().into(), data, pc: r.word(), is: r.word() } }
        7 => Receipt::Transfer { id: r.b32().into(), to: r.b32().into(), amount: r.word(), asset_id: r.b32().into(), pc: r.word(), is: r.word() },
        8 => Receipt::TransferOut { id: r.b32().into(), to: r.b32().into(), amount: r.word(), asset_id: r.b32().into(), pc: r.word(), is: r.word() },
        9 => Receipt::ScriptResult { result: match r.below(5) { 0 => ScriptExecutionResult::Success, 1 => ScriptExecutionResult::Revert, 2 => ScriptExecutionResult::Panic, _ => ScriptExecutionResult::GenericFailure(r.word().max(3)) }, gas_used: r.word() },
        _ => { let data = r.bytes(); Receipt::MessageOut { message_id: r.b32().into(), sender: r.b32().into(), recipient: r.b32().into(), amount: r.word(), nonce: r.b32().into(), len: len(r, &data), digest: r.b32().into(), data } }
    }
}
fn strip(x: &Receipt) -> String {
    let mut x = x.clone();
    if let Receipt::Panic { contract_id, .. } = &mut x { *contract_id = None; }
    format!("{x:?}")
}

pub fn c18(r: &mut Rng) -> R {
    let (mut x, _) = gen_receipt(r);
    let s = strip(&x);
    let n = x.serialized_size();
    let enc = x.to_bytes();
    ck!(enc.len() == n, "to_bytes of {s}: {} bytes, declared {n}", enc.len());
    ck!(strip(&x) == s, "encoding altered {s}");
    let d = Receipt::from_bytes(&enc).map_err(|e| format!("decoding own encoding failed: {e}; {s}"))?;
    ck!(strip(&d) == s && d == x, "decoded {d:?} from {s}");
    let extra = r.below(30);
    for fill in [0xa5u8, 0] {
        let mut buf = vec![fill; n + extra];
        let w = x.read(&mut buf).map_err(|e| format!("encoder failed on a large enough buffer: {e}; {s}"))?;
        ck!(w == n, "encoder reported {w}, declared {n}: {s}");
        ck!(buf[n..].iter().all(|b| *b == fill), "encoder wrote past the declared size: {s}");
        let (mut y, _) = gen_receipt(r);
        let c = y.write(&buf).map_err(|e| format!("decoder failed: {e}; {s}"))?;
        ck!(c == n, "decoder reported {c}, declared {n}: {s}");
        ck!(strip(&y) == s, "decoded over another receipt: {y:?} from {s}");
    }
    for k in 0..4 {
        let short = match k { 0 => n - 1, 1 => n - 8, 2 => 0, _ => r.below(n) };
        let mut buf = vec![0u8; short];
        ck!(x.read(&mut buf).is_err(), "encoder accepted {short} bytes, needs {n}: {s}");
    }
    Ok(())
}
