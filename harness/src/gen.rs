//! Plain specification values (raw bytes and integers only), a deterministic generator for them,
//! and conversions from and to the real types through public fields.
use fuel_tx::field::{Script as _, Salt as _, TxPointer as _};
use fuel_tx::field::*;
use fuel_tx::{
    Create, Input, Mint, Output, Script, StorageSlot, Transaction, TxPointer, UtxoId, Witness,
};

pub type B32 = [u8; 32];

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// integers biased to boundaries
    pub fn word(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => u64::MAX - self.below(16) as u64,
            4 => 1u64 << self.below(64),
            5 => (1u64 << self.below(64)).wrapping_sub(1),
            6 => (1u64 << 63).wrapping_add(self.below(5) as u64).wrapping_sub(2),
            7 => (1u64 << 32).wrapping_add(self.below(5) as u64).wrapping_sub(2),
            8 => self.below(300) as u64,
            9 => self.below(20) as u64,
            _ => self.next(),
        }
    }
    pub fn byte(&mut self) -> u8 {
        match self.below(6) {
            0 => 0,
            1 => 255,
            2 => self.below(4) as u8,
            _ => self.next() as u8,
        }
    }
    pub fn b32(&mut self) -> B32 {
        let mut b = [0u8; 32];
        match self.below(8) {
            0 => {}
            1 => b = [0xff; 32],
            2 => b[31] = self.next() as u8,
            3 => b[0] = self.next() as u8,
            _ => {
                for c in b.chunks_mut(8) {
                    c.copy_from_slice(&self.next().to_be_bytes());
                }
            }
        }
        b
    }
    pub fn len(&mut self) -> usize {
        match self.below(10) {
            0 | 1 => 0,
            2 => 1,
            3 => 8 * self.below(6),
            4 => 8 * self.below(6) + 7,
            5 => 8 * self.below(6) + 1,
            6 if self.chance(1, 60) => *self.pick(&[4096usize, 16384, 32768, 65536]) + self.below(12) - 4,
            6 => self.below(300),
            _ => self.below(34),
        }
    }
    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        let z = self.chance(1, 8);
        (0..n).map(|_| if z { 0 } else { self.next() as u8 }).collect()
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.len();
        self.bytes_n(n)
    }
    pub fn count(&mut self) -> usize {
        match self.below(12) {
            0 | 1 | 2 => 0,
            3 | 4 => 1,
            5 => 2,
            6 => 3,
            11 => self.below(24),
            _ => self.below(7),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum In {
    CoinSigned { txid: B32, oi: u8, owner: B32, amount: u64, asset: B32, bh: u32, ti: u16, wi: u8, mat: u64 },
    CoinPred { txid: B32, oi: u8, owner: B32, amount: u64, asset: B32, bh: u32, ti: u16, mat: u64, pred: Vec<u8>, pdata: Vec<u8> },
    Contract { txid: B32, oi: u8, br: B32, sr: B32, bh: u32, ti: u16, cid: B32 },
    MsgSigned { mid: B32, snd: B32, rcp: B32, amount: u64, nonce: u64, wi: u8, data: Vec<u8> },
    MsgPred { mid: B32, snd: B32, rcp: B32, amount: u64, nonce: u64, data: Vec<u8>, pred: Vec<u8>, pdata: Vec<u8> },
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Coin { to: B32, amount: u64, asset: B32 },
    Contract { ii: u8, br: B32, sr: B32 },
    Message { rcp: B32, amount: u64 },
    Change { to: B32, amount: u64, asset: B32 },
    Variable { to: B32, amount: u64, asset: B32 },
    Created { cid: B32, sr: B32 },
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Script, Create, Mint }

#[derive(Clone, PartialEq, Debug)]
pub struct Tx {
    pub kind: Kind,
    pub price: u64,
    pub limit: u64,
    pub mat: u64,
    pub rroot: B32,
    pub script: Vec<u8>,
    pub sdata: Vec<u8>,
    pub blen: u64,
    pub bwi: u8,
    pub salt: B32,
    pub slots: Vec<(B32, B32)>,
    pub ins: Vec<In>,
    pub outs: Vec<Out>,
    pub wits: Vec<Vec<u8>>,
    pub bh: u32,
    pub ti: u16,
}

pub fn empty(kind: Kind) -> Tx {
    Tx { kind, price: 0, limit: 0, mat: 0, rroot: [0; 32], script: vec![], sdata: vec![], blen: 0, bwi: 0, salt: [0; 32],
        slots: vec![], ins: vec![], outs: vec![], wits: vec![], bh: 0, ti: 0 }
}

pub fn gen_in(r: &mut Rng, kind: usize) -> In {
    let nonempty = |r: &mut Rng| { let n = r.len().max(1); r.bytes_n(n) };
    match kind {
        0 => In::CoinSigned { txid: r.b32(), oi: r.byte(), owner: r.b32(), amount: r.word(), asset: r.b32(), bh: r.word() as u32, ti: r.word() as u16, wi: r.byte(), mat: r.word() },
        1 => In::CoinPred { txid: r.b32(), oi: r.byte(), owner: r.b32(), amount: r.word(), asset: r.b32(), bh: r.word() as u32, ti: r.word() as u16, mat: r.word(), pred: nonempty(r), pdata: r.bytes() },
        2 => In::Contract { txid: r.b32(), oi: r.byte(), br: r.b32(), sr: r.b32(), bh: r.word() as u32, ti: r.word() as u16, cid: r.b32() },
        3 => In::MsgSigned { mid: r.b32(), snd: r.b32(), rcp: r.b32(), amount: r.word(), nonce: r.word(), wi: r.byte(), data: r.bytes() },
        _ => In::MsgPred { mid: r.b32(), snd: r.b32(), rcp: r.b32(), amount: r.word(), nonce: r.word(), data: r.bytes(), pred: nonempty(r), pdata: r.bytes() },
    }
}

pub fn gen_out(r: &mut Rng, kind: usize) -> Out {
    match kind {
        0 => Out::Coin { to: r.b32(), amount: r.word(), asset: r.b32() },
        1 => Out::Contract { ii: r.byte(), br: r.b32(), sr: r.b32() },
        2 => Out::Message { rcp: r.b32(), amount: r.word() },
        3 => Out::Change { to: r.b32(), amount: r.word(), asset: r.b32() },
        4 => Out::Variable { to: r.b32(), amount: r.word(), asset: r.b32() },
        _ => Out::Created { cid: r.b32(), sr: r.b32() },
    }
}

/// arbitrary transaction (not necessarily valid)
pub fn gen_tx(r: &mut Rng, kind: Option<Kind>) -> Tx {
    let kind = kind.unwrap_or_else(|| *r.pick(&[Kind::Script, Kind::Script, Kind::Create, Kind::Create, Kind::Mint]));
    let mut t = empty(kind);
    if kind != Kind::Mint {
        t.price = r.word();
        t.limit = r.word();
        t.mat = r.word();
        let single = if r.chance(1, 6) { Some(r.below(5)) } else { None };
        for _ in 0..r.count() { let k = single.unwrap_or_else(|| r.below(5)); let x = gen_in(r, k); t.ins.push(x); }
        for _ in 0..r.count() { let b = r.bytes(); t.wits.push(b); }
    }
    match kind {
        Kind::Script => { t.rroot = r.b32(); t.script = r.bytes(); t.sdata = r.bytes(); }
        Kind::Create => {
            t.blen = r.word();
            t.bwi = r.byte();
            t.salt = r.b32();
            for _ in 0..r.count() { let s = (r.b32(), r.b32()); t.slots.push(s); }
        }
        Kind::Mint => { t.bh = r.word() as u32; t.ti = r.word() as u16; }
    }
    for _ in 0..r.count() { let k = r.below(6); let o = gen_out(r, k); t.outs.push(o); }
    if r.chance(1, 4) { coincide(r, &mut t); }
    // now and then more elements than a byte can count
    if r.chance(1, 200) { let n = 254 + r.below(20); widen(r, &mut t, n); }
    t
}

/// every 32-byte field, word field and byte string of a transaction
fn fields(t: &mut Tx) -> (Vec<&mut B32>, Vec<&mut u64>, Vec<(bool, &mut Vec<u8>)>) {
    let (mut b, mut w, mut v) = (vec![], vec![], vec![]);
    let Tx { kind, price, limit, mat, rroot, script, sdata, blen, salt, slots, ins, outs, wits, .. } = t;
    if *kind != Kind::Mint { w.push(price); w.push(limit); w.push(mat); for x in wits { v.push((false, x)); } }
    if *kind == Kind::Script { b.push(rroot); v.push((false, script)); v.push((false, sdata)); }
    if *kind == Kind::Create { w.push(blen); b.push(salt); for (k, x) in slots { b.push(k); b.push(x); } }
    for i in ins {
        match i {
            In::CoinSigned { txid, owner, amount, asset, mat, .. } => { b.extend([txid, owner, asset]); w.extend([amount, mat]); }
            In::CoinPred { txid, owner, amount, asset, mat, pred, pdata, .. } => { b.extend([txid, owner, asset]); w.extend([amount, mat]); v.extend([(true, pred), (false, pdata)]); }
            In::Contract { txid, br, sr, cid, .. } => b.extend([txid, br, sr, cid]),
            In::MsgSigned { mid, snd, rcp, amount, nonce, data, .. } => { b.extend([mid, snd, rcp]); w.extend([amount, nonce]); v.push((false, data)); }
            In::MsgPred { mid, snd, rcp, amount, nonce, data, pred, pdata } => { b.extend([mid, snd, rcp]); w.extend([amount, nonce]); v.extend([(false, data), (true, pred), (false, pdata)]); }
        }
    }
    for o in outs {
        match o {
            Out::Coin { to, amount, asset } | Out::Change { to, amount, asset } | Out::Variable { to, amount, asset } => { b.extend([to, asset]); w.push(amount); }
            Out::Contract { br, sr, .. } => b.extend([br, sr]),
            Out::Message { rcp, amount } => { b.push(rcp); w.push(amount); }
            Out::Created { cid, sr } => b.extend([cid, sr]),
        }
    }
    (b, w, v)
}

/// Makes unrelated fields equal, or equal but for one bit, or special.
pub fn coincide(r: &mut Rng, t: &mut Tx) {
    for _ in 0..1 + r.below(3) {
        let (mut b, mut w, mut v) = fields(t);
        match r.below(8) {
            0 | 1 if b.len() > 1 => { let (i, j) = (r.below(b.len()), r.below(b.len())); let x = *b[i]; *b[j] = x; }
            2 if b.len() > 1 => { let i = r.below(b.len()); let j = if r.bool() { (i + 1) % b.len() } else { r.below(b.len()) }; let mut x = *b[i]; x[*r.pick(&[0, 31, 7, 16])] ^= 1 << r.below(8); *b[j] = x; }
            3 if !b.is_empty() => { let i = r.below(b.len()); *b[i] = [0; 32]; if r.chance(1, 4) { b[i][r.below(32)] = 1; } }
            4 if w.len() > 1 => { let (i, j) = (r.below(w.len()), r.below(w.len())); let x = *w[i]; *w[j] = if r.chance(1, 3) { x.wrapping_add(1) } else { x }; }
            5 if !w.is_empty() => { let i = r.below(w.len()); *w[i] = if r.bool() { 0 } else { v.len() as u64 }; }
            6 if v.len() > 1 => { let (i, j) = (r.below(v.len()), r.below(v.len())); let x = v[i].1.clone(); if !v[j].0 || !x.is_empty() { *v[j].1 = x; } }
            7 if !v.is_empty() => { let i = r.below(v.len()); let n = r.below(v[i].1.len() + 1); if n > 0 || !v[i].0 { v[i].1.truncate(n); } }
            _ => {}
        }
    }
}

/// Adds `n` elements to one of the lists.
pub fn widen(r: &mut Rng, t: &mut Tx, n: usize) {
    match (t.kind, r.below(5)) {
        (Kind::Mint, _) | (_, 0) => for _ in 0..n { let o = Out::Message { rcp: r.b32(), amount: r.next() }; t.outs.push(o); },
        (_, 1) => for k in 0..n { let k = k % 5; let i = gen_in(r, if n < 1000 { k } else { 3 }); t.ins.push(i); },
        (Kind::Create, 2 | 3) => { let n = n.min(65535 - t.slots.len()); for _ in 0..n { let s = (r.b32(), r.b32()); t.slots.push(s); } }
        _ => for _ in 0..n { t.wits.push(if n < 1000 && r.bool() { vec![1, 2, 3] } else { vec![] }); },
    }
}

/// As `gen_tx`, and very rarely with lists longer or strings longer than 16 bits can count.
pub fn gen_tx_wide(r: &mut Rng, kind: Option<Kind>) -> Tx {
    let mut t = gen_tx(r, kind);
    if r.chance(1, 6000) { let n = 65536 + r.below(6); widen(r, &mut t, n); }
    if r.chance(1, 3000) {
        let n = 65536 + r.below(20);
        let b = r.bytes_n(n);
        match r.below(4) {
            0 if t.kind == Kind::Script => t.script = b,
            1 if t.kind == Kind::Script => t.sdata = b,
            2 if t.kind != Kind::Mint => { let k = *r.pick(&[1usize, 3, 4]); let mut i = gen_in(r, k); match &mut i { In::CoinPred { pred, pdata, .. } => *(if r.bool() { pred } else { pdata }) = b, In::MsgSigned { data, .. } => *data = b, In::MsgPred { pred, pdata, data, .. } => *(match r.below(3) { 0 => pred, 1 => pdata, _ => data }) = b, _ => {} } t.ins.push(i); }
            _ => if t.kind != Kind::Mint { t.wits.push(b) },
        }
    }
    t
}

pub fn in_real(i: &In) -> Input {
    match i.clone() {
        In::CoinSigned { txid, oi, owner, amount, asset, bh, ti, wi, mat } => Input::CoinSigned {
            utxo_id: UtxoId::new(txid.into(), oi), owner: owner.into(), amount, asset_id: asset.into(),
            tx_pointer: TxPointer::new(bh, ti), witness_index: wi, maturity: mat },
        In::CoinPred { txid, oi, owner, amount, asset, bh, ti, mat, pred, pdata } => Input::CoinPredicate {
            utxo_id: UtxoId::new(txid.into(), oi), owner: owner.into(), amount, asset_id: asset.into(),
            tx_pointer: TxPointer::new(bh, ti), maturity: mat, predicate: pred, predicate_data: pdata },
        In::Contract { txid, oi, br, sr, bh, ti, cid } => Input::Contract {
            utxo_id: UtxoId::new(txid.into(), oi), balance_root: br.into(), state_root: sr.into(),
            tx_pointer: TxPointer::new(bh, ti), contract_id: cid.into() },
        In::MsgSigned { mid, snd, rcp, amount, nonce, wi, data } => Input::MessageSigned {
            message_id: mid.into(), sender: snd.into(), recipient: rcp.into(), amount, nonce, witness_index: wi, data },
        In::MsgPred { mid, snd, rcp, amount, nonce, data, pred, pdata } => Input::MessagePredicate {
            message_id: mid.into(), sender: snd.into(), recipient: rcp.into(), amount, nonce, data, predicate: pred, predicate_data: pdata },
    }
}

pub fn in_spec(i: &Input) -> In {
    match i.clone() {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => In::CoinSigned {
            txid: **utxo_id.tx_id(), oi: utxo_id.output_index(), owner: *owner, amount, asset: *asset_id,
            bh: tx_pointer.block_height(), ti: tx_pointer.tx_index(), wi: witness_index, mat: maturity },
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => In::CoinPred {
            txid: **utxo_id.tx_id(), oi: utxo_id.output_index(), owner: *owner, amount, asset: *asset_id,
            bh: tx_pointer.block_height(), ti: tx_pointer.tx_index(), mat: maturity, pred: predicate, pdata: predicate_data },
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => In::Contract {
            txid: **utxo_id.tx_id(), oi: utxo_id.output_index(), br: *balance_root, sr: *state_root,
            bh: tx_pointer.block_height(), ti: tx_pointer.tx_index(), cid: *contract_id },
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => In::MsgSigned {
            mid: *message_id, snd: *sender, rcp: *recipient, amount, nonce, wi: witness_index, data },
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => In::MsgPred {
            mid: *message_id, snd: *sender, rcp: *recipient, amount, nonce, data, pred: predicate, pdata: predicate_data },
    }
}

pub fn out_real(o: &Out) -> Output {
    match o.clone() {
        Out::Coin { to, amount, asset } => Output::Coin { to: to.into(), amount, asset_id: asset.into() },
        Out::Contract { ii, br, sr } => Output::Contract { input_index: ii, balance_root: br.into(), state_root: sr.into() },
        Out::Message { rcp, amount } => Output::Message { recipient: rcp.into(), amount },
        Out::Change { to, amount, asset } => Output::Change { to: to.into(), amount, asset_id: asset.into() },
        Out::Variable { to, amount, asset } => Output::Variable { to: to.into(), amount, asset_id: asset.into() },
        Out::Created { cid, sr } => Output::ContractCreated { contract_id: cid.into(), state_root: sr.into() },
    }
}

pub fn out_spec(o: &Output) -> Out {
    match *o {
        Output::Coin { to, amount, asset_id } => Out::Coin { to: *to, amount, asset: *asset_id },
        Output::Contract { input_index, balance_root, state_root } => Out::Contract { ii: input_index, br: *balance_root, sr: *state_root },
        Output::Message { recipient, amount } => Out::Message { rcp: *recipient, amount },
        Output::Change { to, amount, asset_id } => Out::Change { to: *to, amount, asset: *asset_id },
        Output::Variable { to, amount, asset_id } => Out::Variable { to: *to, amount, asset: *asset_id },
        Output::ContractCreated { contract_id, state_root } => Out::Created { cid: *contract_id, sr: *state_root },
    }
}

fn slots_real(t: &Tx) -> Vec<StorageSlot> {
    t.slots.iter().map(|(k, v)| StorageSlot::new((*k).into(), (*v).into())).collect()
}
fn wits_real(t: &Tx) -> Vec<Witness> {
    t.wits.iter().map(|w| Witness::from(w.clone())).collect()
}

pub fn script_real(t: &Tx) -> Script {
    let mut s = Transaction::script(t.price, t.limit, t.mat, t.script.clone(), t.sdata.clone(),
        t.ins.iter().map(in_real).collect(), t.outs.iter().map(out_real).collect(), wits_real(t));
    *s.receipts_root_mut() = t.rroot.into();
    s
}
pub fn create_real(t: &Tx) -> Create {
    let mut c = Transaction::create(t.price, t.limit, t.mat, t.bwi, t.salt.into(), slots_real(t),
        t.ins.iter().map(in_real).collect(), t.outs.iter().map(out_real).collect(), wits_real(t));
    *c.bytecode_length_mut() = t.blen;
    c
}
pub fn mint_real(t: &Tx) -> Mint {
    Transaction::mint(TxPointer::new(t.bh, t.ti), t.outs.iter().map(out_real).collect())
}
pub fn tx_real(t: &Tx) -> Transaction {
    match t.kind {
        Kind::Script => script_real(t).into(),
        Kind::Create => create_real(t).into(),
        Kind::Mint => mint_real(t).into(),
    }
}
pub fn script_spec(s: &Script) -> Tx {
    Tx { price: *s.gas_price(), limit: *s.gas_limit(), mat: *s.maturity(), rroot: **s.receipts_root(),
        script: s.script().clone(), sdata: s.script_data().clone(), ins: s.inputs().iter().map(in_spec).collect(),
        outs: s.outputs().iter().map(out_spec).collect(), wits: s.witnesses().iter().map(|w| w.as_vec().clone()).collect(), ..empty(Kind::Script) }
}
pub fn create_spec(s: &Create) -> Tx {
    Tx { price: *s.gas_price(), limit: *s.gas_limit(), mat: *s.maturity(), blen: *s.bytecode_length(), bwi: *s.bytecode_witness_index(),
        salt: **s.salt(), slots: s.storage_slots().iter().map(|x| (**x.key(), **x.value())).collect(),
        ins: s.inputs().iter().map(in_spec).collect(),
        outs: s.outputs().iter().map(out_spec).collect(), wits: s.witnesses().iter().map(|w| w.as_vec().clone()).collect(), ..empty(Kind::Create) }
}
pub fn mint_spec(s: &Mint) -> Tx {
    Tx { bh: s.tx_pointer().block_height(), ti: s.tx_pointer().tx_index(), outs: s.outputs().iter().map(out_spec).collect(), ..empty(Kind::Mint) }
}
pub fn tx_spec(t: &Transaction) -> Tx {
    match t {
        Transaction::Script(s) => script_spec(s),
        Transaction::Create(s) => create_spec(s),
        Transaction::Mint(s) => mint_spec(s),
    }
}

/// Clear what execution or signing may change.
pub fn clear_in(i: &In) -> In {
    let mut i = i.clone();
    match &mut i {
        In::CoinSigned { bh, ti, .. } | In::CoinPred { bh, ti, .. } => { *bh = 0; *ti = 0; }
        In::Contract { txid, oi, br, sr, bh, ti, .. } => { *txid = [0; 32]; *oi = 0; *br = [0; 32]; *sr = [0; 32]; *bh = 0; *ti = 0; }
        _ => {}
    }
    i
}
pub fn clear_out_script(o: &Out) -> Out {
    let mut o = o.clone();
    match &mut o {
        Out::Message { rcp, amount } => { *rcp = [0; 32]; *amount = 0; }
        Out::Change { amount, .. } => *amount = 0,
        Out::Variable { to, amount, asset } => { *to = [0; 32]; *amount = 0; *asset = [0; 32]; }
        _ => {}
    }
    o
}
pub fn clear_out(o: &Out) -> Out {
    let mut o = clear_out_script(o);
    if let Out::Contract { br, sr, .. } = &mut o { *br = [0; 32]; *sr = [0; 32]; }
    o
}
pub fn clear_tx(t: &Tx) -> Tx {
    if t.kind == Kind::Mint { return t.clone(); }
    let mut c = t.clone();
    c.rroot = [0; 32];
    c.ins = t.ins.iter().map(clear_in).collect();
    c.outs = t.outs.iter().map(clear_out).collect();
    c.wits = vec![];
    c
}
