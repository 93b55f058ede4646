@# The mathematical content of the types and of their encodings.
@head
pub mod btree {
use vstd::prelude::*; use crate::vx::*;
/// std::collections::BTreeMap, as the finite map it is.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: K, v: V }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
/// Values with a zero as their default.
pub trait Zero: Sized { spec fn zero() -> Self; }
impl Zero for u64 { open spec fn zero() -> u64 { 0 } }
impl<K: Ord, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    /// `entry(k).or_default()`
    #[verifier::external_body]
    pub fn vx_entry(&mut self, k: K) -> (r: &mut V) where V: Zero
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { V::zero() }), final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), match r { Some(w) => old(self)@.contains_key(k) && w == old(self)@[k], None => !old(self)@.contains_key(k) }
    { unimplemented!() }
}
}
pub mod spec {
use vstd::prelude::*;
use crate::num::*;
use crate::tx_pointer::TxPointer;

// ------------------------------------------------------------ peeling encodings
pub broadcast proof fn cat_hd<T>(a: Seq<T>, b: Seq<T>, n: int) requires n == a.len() ensures #[trigger] (a + b).subrange(0, n) == a { assert((a + b).subrange(0, n) =~= a); }
pub broadcast proof fn cat_tl<T>(a: Seq<T>, b: Seq<T>, n: int, m: int) requires n == a.len(), m == a.len() + b.len() ensures #[trigger] (a + b).subrange(n, m) == b { assert((a + b).subrange(n, m) =~= b); }
pub broadcast proof fn pad_hd(s: Seq<u8>, b: Seq<u8>, n: int) requires n == s.len() ensures #[trigger] (padded(s) + b).subrange(0, n) == s { reveal(padded); assert((padded(s) + b).subrange(0, n) =~= s); }
pub broadcast group peel { cat_hd, cat_tl, pad_hd, be8_len, un8_be8, padded_len_is, pad8_range, cat_cat }
/// Slices of slices are written as slices of a marked sequence.
pub closed spec fn mark<T>(s: Seq<T>) -> bool { true }
pub proof fn base<T>(s: Seq<T>) ensures mark(s) {}
pub broadcast proof fn sub_base<T>(s: Seq<T>, i: int, j: int, k: int, l: int)
    requires #[trigger] mark(s), 0 <= i <= j <= s.len(), 0 <= k <= l <= j - i
    ensures #[trigger] s.subrange(i, j).subrange(k, l) == s.subrange(i + k, i + l)
{ assert(s.subrange(i, j).subrange(k, l) =~= s.subrange(i + k, i + l)); }
pub open spec fn tl(s: Seq<u8>, n: int) -> Seq<u8> { s.subrange(n, s.len() as int) }

// ------------------------------------------------------------ values and their encodings
/// A value with an encoding: `e` is the encoding, `d` what a decoder makes of bytes and how many it
/// takes, `wf` the values the format can represent.
pub trait Wire: Sized {
    spec fn e(self) -> Seq<u8>;
    spec fn d(s: Seq<u8>) -> Option<(Self, int)>;
    spec fn wf(self) -> bool;
    proof fn round(self, rest: Seq<u8>)
        requires self.wf()
        ensures Self::d(self.e() + rest) == Some((self, self.e().len() as int));
    proof fn total(s: Seq<u8>)
        ensures Self::d(s) is Some ==> 8 <= (Self::d(s)->0).1 <= s.len();
}
/// Decoding the encoding gives the value and takes exactly the encoding, whatever follows it.
pub open spec fn elist<W: Wire>(s: Seq<W>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0].e() + elist(s.drop_first()) } }
pub open spec fn dlist<W: Wire>(s: Seq<u8>, n: nat) -> Option<(Seq<W>, int)> decreases n {
    if n == 0 { Some((Seq::empty(), 0)) } else {
        match W::d(s) {
            None => None,
            Some((w, l)) => match dlist::<W>(tl(s, l), (n - 1) as nat) { None => None, Some((ws, m)) => Some((seq![w] + ws, l + m)) },
        }
    }
}
pub open spec fn wfs<W: Wire>(s: Seq<W>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].wf() }
pub proof fn round_list<W: Wire>(s: Seq<W>, rest: Seq<u8>)
    requires wfs(s)
    ensures dlist::<W>(elist(s) + rest, s.len()) == Some((s, elist(s).len() as int))
    decreases s.len()
{
    broadcast use peel;
    if s.len() == 0 { assert(s =~= Seq::empty()); } else {
        let t = s.drop_first();
        assert(wfs(t)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i].wf() by { assert(s[i + 1].wf()); } }
        assert(s[0].wf());
        s[0].round(elist(t) + rest);
        round_list(t, rest);
        assert(elist(s) + rest == s[0].e() + (elist(t) + rest));
        assert(seq![s[0]] + t =~= s);
    }
}
pub proof fn total_list<W: Wire>(s: Seq<u8>, n: nat)
    ensures dlist::<W>(s, n) is Some ==> 8 * n <= (dlist::<W>(s, n)->0).1 <= s.len() && (dlist::<W>(s, n)->0).0.len() == n
    decreases n
{
    if n > 0 { W::total(s); if W::d(s) is Some { total_list::<W>(tl(s, (W::d(s)->0).1), (n - 1) as nat); } }
}
pub proof fn elist_push<W: Wire>(s: Seq<W>, x: W)
    ensures elist(s.push(x)) == elist(s) + x.e()
    decreases s.len()
{
    broadcast use {cat_cat, cat_empty};
    if s.len() == 0 { assert(s.push(x).drop_first() =~= s); assert(s.push(x)[0] == x); reveal_with_fuel(elist, 2); assert(elist(s.push(x)) =~= elist(s) + x.e()); }
    else { assert(s.push(x).drop_first() =~= s.drop_first().push(x)); elist_push(s.drop_first(), x); assert(s.push(x)[0] == s[0]); }
}
/// One more element.
pub proof fn elist_step<W: Wire>(s: Seq<W>, k: int)
    requires 0 <= k < s.len()
    ensures elist(s.take(k + 1)) == elist(s.take(k)) + s[k].e()
{ assert(s.take(k + 1) =~= s.take(k).push(s[k])); elist_push(s.take(k), s[k]); }
/// The element at `k` starts where the encoding of those before it ends.
pub proof fn elist_split<W: Wire>(s: Seq<W>, k: int)
    requires 0 <= k <= s.len()
    ensures elist(s) == elist(s.take(k)) + elist(s.skip(k))
    decreases k
{
    broadcast use {cat_cat, cat_empty};
    if k == 0 { assert(s.take(0) =~= Seq::empty()); assert(s.skip(0) =~= s); assert(elist(s) =~= elist(s.take(0)) + elist(s.skip(0))); }
    else {
        elist_split(s.drop_first(), k - 1);
        assert(s.take(k).drop_first() =~= s.drop_first().take(k - 1));
        assert(s.skip(k) =~= s.drop_first().skip(k - 1));
        assert(s.take(k)[0] == s[0]);
    }
}
pub proof fn elist_mono<W: Wire>(s: Seq<W>, k: int)
    requires 0 <= k <= s.len()
    ensures elist(s.take(k)).len() <= elist(s).len(), k < s.len() ==> elist(s.take(k)).len() + s[k].e().len() <= elist(s).len()
{
    elist_split(s, k);
    if k < s.len() { elist_step(s, k); elist_split(s, k + 1); }
}
/// How the decoding of a list proceeds.
pub open spec fn dl_inv<W: Wire>(s0: Seq<u8>, n: nat, done: Seq<W>, s: Seq<u8>, used: int) -> bool {
    &&& done.len() <= n
    &&& 0 <= used <= s0.len() && s == tl(s0, used)
    &&& dlist::<W>(s0, n) == match dlist::<W>(s, (n - done.len()) as nat) { None => None, Some((ws, m)) => Some((done + ws, used + m)) }
}
pub proof fn dl_start<W: Wire>(s0: Seq<u8>, n: nat)
    ensures dl_inv::<W>(s0, n, Seq::empty(), s0, 0)
{
    assert(tl(s0, 0) =~= s0);
    if let Some((ws, m)) = dlist::<W>(s0, n) { assert(Seq::<W>::empty() + ws =~= ws); }
}
pub proof fn dl_step<W: Wire>(s0: Seq<u8>, n: nat, done: Seq<W>, s: Seq<u8>, used: int)
    requires dl_inv(s0, n, done, s, used), done.len() < n, W::d(s) is Some
    ensures dl_inv(s0, n, done.push((W::d(s)->0).0), tl(s, (W::d(s)->0).1), used + (W::d(s)->0).1)
{
    W::total(s);
    let (w, l) = W::d(s)->0;
    assert(tl(s, l) =~= tl(s0, used + l));
    match dlist::<W>(tl(s, l), (n - done.len() - 1) as nat) {
        None => {}
        Some((ws, m)) => { assert(done + (seq![w] + ws) =~= done.push(w) + ws); }
    }
}
pub proof fn dl_fail<W: Wire>(s0: Seq<u8>, n: nat, done: Seq<W>, s: Seq<u8>, used: int)
    requires dl_inv(s0, n, done, s, used), done.len() < n, W::d(s) is None
    ensures dlist::<W>(s0, n) is None
{}
pub proof fn dl_end<W: Wire>(s0: Seq<u8>, n: nat, done: Seq<W>, s: Seq<u8>, used: int)
    requires dl_inv(s0, n, done, s, used), done.len() == n
    ensures dlist::<W>(s0, n) == Some((done, used))
{ assert(done + Seq::<W>::empty() =~= done); }

// ------------------------------------------------------------ decoding byte strings
/// A padded string of a given length.
pub open spec fn draw(s: Seq<u8>, len: int) -> Option<(Seq<u8>, Seq<u8>)> {
    if 0 <= len && pad8(len) <= s.len() { Some((s.subrange(0, len), tl(s, pad8(len)))) } else { None }
}

pub proof fn draw_round(s: Seq<u8>, rest: Seq<u8>) ensures draw(padded(s) + rest, s.len() as int) == Some((s, rest)) { broadcast use peel0; }
pub proof fn draw0(rest: Seq<u8>) ensures draw(rest, 0) == Some((Seq::<u8>::empty(), rest)) { assert(rest.subrange(0, 0) =~= Seq::empty()); assert(tl(rest, 0) =~= rest); }

// ------------------------------------------------------------ small types
#[verifier::opaque]
pub open spec fn utxo_e(u: SUtxo) -> Seq<u8> { u.id + be8(u.ix as u64) }
#[verifier::opaque]
pub open spec fn txp_e(t: TxPointer) -> Seq<u8> { be8(t.block_height as u64) + be8(t.tx_index as u64) }
pub broadcast proof fn utxo_len(u: SUtxo) requires u.wf() ensures #[trigger] utxo_e(u).len() == 40 { broadcast use be8_len; reveal(utxo_e); }
pub broadcast proof fn txp_len(t: TxPointer) ensures #[trigger] txp_e(t).len() == 16 { broadcast use be8_len; reveal(txp_e); }
pub broadcast proof fn utxo_split(u: SUtxo, r: Seq<u8>) ensures #[trigger] (utxo_e(u) + r) == u.id + (be8(u.ix as u64) + r) { reveal(utxo_e); broadcast use cat_cat; }
/// Peeling without regrouping.
pub broadcast group peel0 { cat_hd, cat_tl, pad_hd, be8_len, un8_be8, padded_len_is, pad8_range, utxo_len, txp_len }
pub broadcast group lens { be8_len, padded_len_is, pad8_range, utxo_len, txp_len, zeros_len }
#[verifier::ext_equal]
pub struct SUtxo { pub id: Seq<u8>, pub ix: u8 }
impl Wire for SUtxo {
    open spec fn e(self) -> Seq<u8> { utxo_e(self) }
    open spec fn d(s: Seq<u8>) -> Option<(Self, int)> { if s.len() < 40 { None } else { Some((SUtxo { id: s.subrange(0, 32), ix: un8(tl(s, 32).subrange(0, 8)) as u8 }, 40)) } }
    open spec fn wf(self) -> bool { self.id.len() == 32 }
    proof fn round(self, rest: Seq<u8>) { broadcast use peel; reveal(utxo_e); reveal(txp_e); }
    proof fn total(s: Seq<u8>) {}
}
impl Wire for TxPointer {
    open spec fn e(self) -> Seq<u8> { txp_e(self) }
    open spec fn d(s: Seq<u8>) -> Option<(Self, int)> {
        if s.len() < 16 { None } else {
            let (h, i) = (un8(s.subrange(0, 8)), un8(tl(s, 8).subrange(0, 8)));
            if h <= u32::MAX && i <= u16::MAX { Some((TxPointer { block_height: h as u32, tx_index: i as u16 }, 16)) } else { None }
        }
    }
    open spec fn wf(self) -> bool { true }
    proof fn round(self, rest: Seq<u8>) { broadcast use peel; reveal(utxo_e); reveal(txp_e); }
    proof fn total(s: Seq<u8>) {}
}
#[verifier::ext_equal]
pub struct SSlot { pub key: Seq<u8>, pub value: Seq<u8> }
impl Wire for SSlot {
    open spec fn e(self) -> Seq<u8> { self.key + self.value }
    open spec fn d(s: Seq<u8>) -> Option<(Self, int)> { if s.len() < 64 { None } else { Some((SSlot { key: s.subrange(0, 32), value: tl(s, 32).subrange(0, 32) }, 64)) } }
    open spec fn wf(self) -> bool { self.key.len() == 32 && self.value.len() == 32 }
    proof fn round(self, rest: Seq<u8>) { broadcast use peel; }
    proof fn total(s: Seq<u8>) {}
}
#[verifier::ext_equal]
pub struct SWit { pub data: Seq<u8> }
impl Wire for SWit {
    open spec fn e(self) -> Seq<u8> { be8(self.data.len() as u64) + padded(self.data) }
    open spec fn d(s: Seq<u8>) -> Option<(Self, int)> {
        if s.len() < 8 { None } else {
            let n = un8(s.subrange(0, 8)) as int;
            match draw(tl(s, 8), n) { None => None, Some((data, _)) => Some((SWit { data }, 8 + pad8(n))) }
        }
    }
    open spec fn wf(self) -> bool { self.data.len() <= u64::MAX }
    proof fn round(self, rest: Seq<u8>) { broadcast use peel; }
    proof fn total(s: Seq<u8>) { broadcast use peel; }
}
}
