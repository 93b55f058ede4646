@# Identifiers as text.
@head
pub mod text {
use vstd::prelude::*;
use crate::vx::*;
/// A text, as its bytes.
#[verifier::external_body]
pub struct Str { x: u8 }
pub uninterp spec fn str_bytes(s: &Str) -> Seq<u8>;
impl View for Str { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { str_bytes(self) } }
pub open spec fn bytes_of(s: &str) -> Seq<u8> { s@.map_values(|c: char| c as u8) }
/// A character starts (or the text ends) there.
pub open spec fn edge(s: Seq<u8>, i: int) -> bool { i == 0 || i == s.len() || (0 < i < s.len() && (s[i] < 0x80 || s[i] >= 0xC0)) }
pub trait StrRange: Sized { spec fn lo(self) -> int; spec fn hi(self, n: int) -> int; }
impl StrRange for core::ops::RangeTo<usize> { open spec fn lo(self) -> int { 0 } open spec fn hi(self, n: int) -> int { self.end as int } }
impl StrRange for core::ops::RangeFrom<usize> { open spec fn lo(self) -> int { self.start as int } open spec fn hi(self, n: int) -> int { n } }
impl StrRange for core::ops::Range<usize> { open spec fn lo(self) -> int { self.start as int } open spec fn hi(self, n: int) -> int { self.end as int } }
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn trim(s: Seq<u8>, p: Seq<u8>) -> Seq<u8> decreases s.len() { if p.len() > 0 && starts(s, p) { trim(s.skip(p.len() as int), p) } else { s } }
impl Str {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn get<R: StrRange>(&self, i: R) -> (r: Option<&Str>)
        ensures r is Some == (0 <= i.lo() <= i.hi(self@.len() as int) <= self@.len() && edge(self@, i.lo()) && edge(self@, i.hi(self@.len() as int))), r is Some ==> r->0@ == self@.subrange(i.lo(), i.hi(self@.len() as int)) { unimplemented!() }
    #[verifier::external_body] pub fn trim_start_matches(&self, p: &str) -> (r: &Str) ensures r@ == trim(self@, bytes_of(p)) { unimplemented!() }
    #[verifier::external_body] pub fn bytes(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(&self, p: &str) -> (r: bool) ensures r == starts(self@, bytes_of(p)) { unimplemented!() }
}
/// The value of a digit.
pub open spec fn hv(b: u8) -> Option<int> { if 48 <= b <= 57 { Some(b - 48) } else if 97 <= b <= 102 { Some(b - 87) } else if 65 <= b <= 70 { Some(b - 55) } else { None } }
pub open spec fn hd(n: int, upper: bool) -> u8 { if n < 10 { (48 + n) as u8 } else if upper { (55 + n) as u8 } else { (87 + n) as u8 } }
pub open spec fn hexnum(s: Seq<u8>) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else { match (hexnum(s.drop_last()), hv(s.last())) { (Some(a), Some(b)) => Some(a * 16 + b), _ => None } }
}
/// What the library's number parser makes of a text.
pub open spec fn radix16(s: Seq<u8>, max: int) -> Option<int> {
    let t = if s.len() > 1 && s[0] == 43 { s.skip(1) } else { s };
    if t.len() == 0 { None } else { match hexnum(t) { Some(n) => if n <= max { Some(n) } else { None }, None => None } }
}
pub struct ParseIntError { x: u8 }
pub trait Radix: Sized {
    spec fn num(self) -> int;
    spec fn most() -> int;
    fn vx_from_str_radix(s: &Str, radix: u32) -> (r: core::result::Result<Self, ParseIntError>)
        requires radix == 16
        ensures r is Ok == radix16(s@, Self::most()) is Some, r is Ok ==> r->Ok_0.num() == radix16(s@, Self::most())->0;
}
impl Radix for u8 { open spec fn num(self) -> int { self as int } open spec fn most() -> int { u8::MAX as int } #[verifier::external_body] fn vx_from_str_radix(s: &Str, radix: u32) -> (r: core::result::Result<u8, ParseIntError>) { unimplemented!() } }
impl Radix for u16 { open spec fn num(self) -> int { self as int } open spec fn most() -> int { u16::MAX as int } #[verifier::external_body] fn vx_from_str_radix(s: &Str, radix: u32) -> (r: core::result::Result<u16, ParseIntError>) { unimplemented!() } }
impl Radix for u32 { open spec fn num(self) -> int { self as int } open spec fn most() -> int { u32::MAX as int } #[verifier::external_body] fn vx_from_str_radix(s: &Str, radix: u32) -> (r: core::result::Result<u32, ParseIntError>) { unimplemented!() } }
impl Radix for u64 { open spec fn num(self) -> int { self as int } open spec fn most() -> int { u64::MAX as int } #[verifier::external_body] fn vx_from_str_radix(s: &Str, radix: u32) -> (r: core::result::Result<u64, ParseIntError>) { unimplemented!() } }
pub open spec fn ox() -> Seq<u8> { seq![48u8, 120u8] }
/// What the dependency's byte arrays make of a text.
pub open spec fn unox(s: Seq<u8>) -> Seq<u8> { if starts(s, ox()) { s.skip(2) } else { s } }
pub open spec fn b32_of(s: Seq<u8>) -> Option<Seq<u8>> {
    let t = unox(s);
    if t.len() < 64 || exists|i: int| 0 <= i < 64 && hv(#[trigger] t[i]) is None { None } else { Some(Seq::new(32, |i: int| (hv(t[2 * i])->0 * 16 + hv(t[2 * i + 1])->0) as u8)) }
}
pub proof fn b32_none(s: Seq<u8>, k: int) requires 0 <= k < 64, hv(unox(s)[k]) is None ensures b32_of(s) is None {}
/// What is left of a text that is read byte by byte.
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<u8>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
/// A formatter, as the text written to it.
#[verifier::external_body]
pub struct Formatter { x: u8 }
pub struct FmtError { x: u8 }
pub type FResult = core::result::Result<(), FmtError>;
pub uninterp spec fn ftext(f: &Formatter) -> Seq<u8>;
pub uninterp spec fn falt(f: &Formatter) -> bool;
pub uninterp spec fn fwidth(f: &Formatter) -> Option<usize>;
/// What is written to never fails.
pub uninterp spec fn fsound(f: &Formatter) -> bool;
pub open spec fn fput(a: &Formatter, b: &Formatter, s: Seq<u8>, r: FResult) -> bool {
    &&& falt(b) == falt(a) && fwidth(b) == fwidth(a) && fsound(b) == fsound(a)
    &&& r is Ok ==> ftext(b) == ftext(a) + s
    &&& fsound(a) ==> r is Ok
}
impl Formatter {
    #[verifier::external_body] pub fn width(&self) -> (r: Option<usize>) ensures r == fwidth(self) { unimplemented!() }
    #[verifier::external_body] pub fn alternate(&self) -> (r: bool) ensures r == falt(self) { unimplemented!() }
}
pub open spec fn digits(n: int, upper: bool) -> Seq<u8> decreases n { if n < 16 { seq![hd(n, upper)] } else { digits(n / 16, upper).push(hd(n % 16, upper)) } }
pub open spec fn fill(b: u8, n: int) -> Seq<u8> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| b) }
pub open spec fn int_text(n: int, upper: bool, alt: bool, width: int, zero: bool) -> Seq<u8> {
    let d = digits(n, upper); let p = if alt { ox() } else { Seq::empty() };
    if zero { p + (fill(48, width - d.len() - p.len()) + d) } else { fill(32, width - d.len() - p.len()) + (p + d) }
}
pub open spec fn bytes_text(s: Seq<u8>, upper: bool) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { hd(s[i / 2] as int / 16, upper) } else { hd(s[i / 2] as int % 16, upper) }) }
pub uninterp spec fn bytes_wide(s: Seq<u8>, upper: bool, width: int) -> Seq<u8>;
pub trait Hex { spec fn text(&self, upper: bool, alt: bool, width: int, zero: bool) -> Seq<u8>; }
impl<X: Hex> Hex for &X { open spec fn text(&self, upper: bool, alt: bool, width: int, zero: bool) -> Seq<u8> { (**self).text(upper, alt, width, zero) } }
impl Hex for u8 { open spec fn text(&self, upper: bool, alt: bool, width: int, zero: bool) -> Seq<u8> { int_text(*self as int, upper, alt, width, zero) } }
impl Hex for u16 { open spec fn text(&self, upper: bool, alt: bool, width: int, zero: bool) -> Seq<u8> { int_text(*self as int, upper, alt, width, zero) } }
impl Hex for u32 { open spec fn text(&self, upper: bool, alt: bool, width: int, zero: bool) -> Seq<u8> { int_text(*self as int, upper, alt, width, zero) } }
impl Hex for u64 { open spec fn text(&self, upper: bool, alt: bool, width: int, zero: bool) -> Seq<u8> { int_text(*self as int, upper, alt, width, zero) } }
impl Hex for crate::fuel_types::Bytes32 { open spec fn text(&self, upper: bool, alt: bool, width: int, zero: bool) -> Seq<u8> { (if alt { ox() } else { Seq::empty() }) + if width == 0 { bytes_text(self@, upper) } else { bytes_wide(self@, upper, width) } } }
#[verifier::external_body]
pub fn hex<X: Hex>(f: &mut Formatter, x: &X, upper: bool, alt: bool, width: usize, zero: bool) -> (r: FResult) ensures fput(old(f), final(f), x.text(upper, alt, width as int, zero), r) { unimplemented!() }
/// A byte and a borrowed one.
pub fn xor(a: u8, b: &u8) -> (r: u8) ensures r == a ^ *b { a ^ *b }
#[verifier::external_body]
pub fn lit(f: &mut Formatter, s: &str) -> (r: FResult) ensures fput(old(f), final(f), bytes_of(s), r) { unimplemented!() }
// ---------------------------------------------------------------- what the identifiers' texts are
pub open spec fn utxo_text(id: Seq<u8>, ix: u8, upper: bool, alt: bool) -> Seq<u8> { (if alt { ox() } else { Seq::empty() }) + (bytes_text(id, upper) + int_text(ix as int, upper, false, 2, true)) }
pub open spec fn utxo_parse(s: Seq<u8>) -> Option<(Seq<u8>, int)> {
    let t = trim(s, ox()); let n = t.len() as int;
    if n == 0 { Some((zeros(32), 0)) } else if n > 2 {
        if !edge(t, n - 2) { None } else { match (b32_of(t.subrange(0, n - 2)), radix16(t.subrange(n - 2, n), 255)) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
    } else { match radix16(t, 255) { Some(b) => Some((zeros(32), b)), None => None } }
}
pub open spec fn txp_text(h: u32, i: u16, upper: bool) -> Seq<u8> { int_text(h as int, upper, false, 8, true) + int_text(i as int, upper, false, 4, true) }
pub open spec fn txp_parse(s: Seq<u8>) -> Option<(int, int)> {
    if s.len() != 12 || !edge(s, 8) { None } else { match (radix16(s.subrange(0, 8), u32::MAX as int), radix16(s.subrange(8, 12), u16::MAX as int)) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
}
pub proof fn hd_hv(n: int, upper: bool) requires 0 <= n < 16 ensures hv(hd(n, upper)) == Some(n), hd(n, upper) < 0x80, hd(n, upper) != 43, hd(n, upper) != 120 {}
pub open spec fn hexy(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> hv(#[trigger] s[i]) is Some }
pub open spec fn pow16(k: nat) -> int decreases k { if k == 0 { 1 } else { 16 * pow16((k - 1) as nat) } }
pub proof fn digits_are(n: int, upper: bool, k: nat)
    requires 0 <= n < pow16(k), k >= 1
    ensures 1 <= digits(n, upper).len() <= k, hexy(digits(n, upper)), hexnum(digits(n, upper)) == Some(n)
    decreases k
{
    let d = digits(n, upper);
    if n < 16 { hd_hv(n, upper); assert(d.drop_last() =~= Seq::empty()); assert(hexnum(d.drop_last()) == Some(0int)); }
    else {
        assert(k > 1) by { if k == 1 { assert(pow16(1) == 16 * pow16(0)); } }
        assert(n / 16 < pow16((k - 1) as nat)) by (nonlinear_arith) requires n < pow16(k), pow16(k) == 16 * pow16((k - 1) as nat);
        digits_are(n / 16, upper, (k - 1) as nat); hd_hv(n % 16, upper);
        assert(d.drop_last() =~= digits(n / 16, upper));
        assert(n == (n / 16) * 16 + n % 16) by (nonlinear_arith);
    }
}
pub proof fn lead(n: int, s: Seq<u8>) requires hexy(s) ensures hexnum(fill(48, n) + s) == hexnum(s), hexy(fill(48, n) + s) decreases s.len() + (if n > 0 { n } else { 0 })
{
    let a = fill(48, n) + s;
    if s.len() > 0 { assert(a.drop_last() =~= fill(48, n) + s.drop_last()); lead(n, s.drop_last()); assert(a.last() == s.last()); assert forall|i: int| 0 <= i < a.len() implies hv(#[trigger] a[i]) is Some by {} }
    else if n > 0 { assert(a.drop_last() =~= fill(48, n - 1) + s); lead(n - 1, s); assert(s =~= Seq::empty()); }
    else { assert(a =~= s); }
}
pub proof fn int_text_is(n: int, upper: bool, k: nat) requires 0 <= n < pow16(k), k >= 1
    ensures int_text(n, upper, false, k as int, true).len() == k, hexy(int_text(n, upper, false, k as int, true)), hexnum(int_text(n, upper, false, k as int, true)) == Some(n)
{
    digits_are(n, upper, k); let d = digits(n, upper); lead(k - d.len(), d);
    let t = int_text(n, upper, false, k as int, true);
    assert(t =~= fill(48, k - d.len()) + d);
}
/// The text of a pointer parses back.
pub broadcast proof fn txp_text_parses(h: u32, i: u16, upper: bool) ensures txp_parse(#[trigger] txp_text(h, i, upper)) == Some((h as int, i as int))
{
    assert(pow16(8) == 0x1_0000_0000 && pow16(4) == 0x1_0000) by (compute);
    int_text_is(h as int, upper, 8); int_text_is(i as int, upper, 4);
    let t = txp_text(h, i, upper); let (a, b) = (int_text(h as int, upper, false, 8, true), int_text(i as int, upper, false, 4, true));
    assert(t.subrange(0, 8) =~= a); assert(t.subrange(8, 12) =~= b);
    assert(t[8] == b[0]); assert(hv(b[0]) is Some); assert(hv(a[0]) is Some);
}
/// The text of an identifier parses back.
pub broadcast proof fn utxo_text_parses(id: Seq<u8>, ix: u8, upper: bool, alt: bool) requires id.len() == 32 ensures utxo_parse(#[trigger] utxo_text(id, ix, upper, alt)) == Some((id, ix as int))
{
    assert(pow16(2) == 256) by (compute);
    int_text_is(ix as int, upper, 2);
    let (a, b) = (bytes_text(id, upper), int_text(ix as int, upper, false, 2, true));
    let t = a + b; let s = utxo_text(id, ix, upper, alt);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] a[i] != 120 && hv(a[i]) is Some && hv(a[i])->0 == (if i % 2 == 0 { id[i / 2] as int / 16 } else { id[i / 2] as int % 16 }) by { hd_hv(id[i / 2] as int / 16, upper); hd_hv(id[i / 2] as int % 16, upper); }
    assert(!starts(t, ox())) by { if starts(t, ox()) { assert(t.subrange(0, 2)[1] == ox()[1]); assert(t[1] == a[1]); } }
    assert(trim(t, ox()) == t);
    if alt { assert(s.subrange(0, 2) =~= ox()); assert(s.skip(2) =~= t); assert(trim(s, ox()) == trim(t, ox())); } else { assert(s =~= t); }
    assert(t.subrange(0, 64) =~= a); assert(t.subrange(64, 66) =~= b);
    assert(t[64] == b[0] && hv(b[0]) is Some);
    assert(!starts(a, ox())) by { if starts(a, ox()) { assert(a.subrange(0, 2)[1] == ox()[1]); } }
    assert(b32_of(a) is Some);
    assert(b32_of(a)->0 =~= id) by { assert forall|i: int| 0 <= i < 32 implies #[trigger] (b32_of(a)->0)[i] == id[i] by { assert(a[2 * i] != 120 && a[2 * i + 1] != 120); } }
}
}
@inherent UtxoId.LowerHex vx_lower
@inherent UtxoId.UpperHex vx_upper
@inherent UtxoId.FromStr from_str
@inherent TxPointer.LowerHex vx_lower
@inherent TxPointer.UpperHex vx_upper
@inherent TxPointer.FromStr from_str
@fn UtxoId.LowerHex.fmt
@hint text
@props C21
@ens
  fput(old(f), final(f), utxo_text(self.dv().id, self.dv().ix, false, falt(old(f))), r)
@pre
broadcast use {cat_cat, cat_empty};
@fn UtxoId.UpperHex.fmt
@hint text
@props C21
@ens
  fput(old(f), final(f), utxo_text(self.dv().id, self.dv().ix, true, falt(old(f))), r)
@pre
broadcast use {cat_cat, cat_empty};
@fn UtxoId.FromStr.from_str
@hint text
@props C21
@ens
  forall|id: Seq<u8>, ix: u8, upper: bool, alt: bool| id.len() == 32 && s@ == #[trigger] utxo_text(id, ix, upper, alt) ==> r is Ok && r->Ok_0.dv().id == id && r->Ok_0.dv().ix == ix
@pre
broadcast use crate::text::utxo_text_parses;
proof { reveal_strlit("0x"); assert(bytes_of("0x") =~= ox()); }
@fn TxPointer.LowerHex.fmt
@hint text
@props C21
@ens
  fput(old(f), final(f), txp_text(self.block_height, self.tx_index, false), r)
@pre
broadcast use {cat_cat, cat_empty};
@fn TxPointer.UpperHex.fmt
@hint text
@props C21
@ens
  fput(old(f), final(f), txp_text(self.block_height, self.tx_index, true), r)
@pre
broadcast use {cat_cat, cat_empty};
@fn TxPointer.FromStr.from_str
@hint text
@props C21
@ens
  forall|h: u32, i: u16, upper: bool| s@ == #[trigger] txp_text(h, i, upper) ==> r is Ok && r->Ok_0.block_height == h && r->Ok_0.tx_index == i
@pre
broadcast use crate::text::txp_text_parses;
@inherent Bytes32.FromStr from_str
@fn types_dep.hex_val
@props C21
@ens
r is Some == hv(c) is Some, r is Some ==> r->0 == hv(c)->0
@fn Bytes32.FromStr.from_str
@props C21
@hint text
@pre
proof { reveal_strlit("0x"); assert(bytes_of("0x") =~= ox()); }
let ghost t = unox(s@);
@ens
r is Ok == b32_of(s@) is Some, r is Ok ==> r->Ok_0@ == b32_of(s@)->0
@lb 0
assert(b@ =~= t.skip(0));
@loop 0
invariant
    t == unox(s@),
    s0@.len() == 32, i0 <= 32,
    2 * i0 <= t.len(), b@ == t.skip(2 * i0),
    forall|j: int| 0 <= j < 2 * i0 ==> hv(#[trigger] t[j]) is Some,
    forall|j: int| 0 <= j < i0 ==> #[trigger] s0@[j] == (hv(t[2 * j])->0 * 16 + hv(t[2 * j + 1])->0) as u8,
decreases s0@.len() - i0
@ls 0
let ghost k = 2 * i0 - 2;
assert(t.len() > k ==> t.skip(k)[0] == t[k] && t.skip(k).skip(1) =~= t.skip(k + 1));
assert(t.len() > k + 1 ==> t.skip(k + 1)[0] == t[k + 1]);
assert(t.len() < 64 ==> b32_of(s@) is None);
proof { if t.len() > k && hv(t[k]) is None { b32_none(s@, k); } if t.len() > k + 1 && hv(t[k + 1]) is None { b32_none(s@, k + 1); } }
assert(b@ == t.skip(k));
@le 0
proof {
    assert(forall|h: u8, l: u8| h < 16 && l < 16 ==> #[trigger] (h << 4u8 | l) == h * 16 + l) by (bit_vector);
    assert(t.skip(2 * i0 - 2).skip(1).skip(1) =~= t.skip(2 * i0));
}
@module types_dep
use crate::text::{hv, hd, digits, falt, fsound, ftext, int_text, b32_of, b32_none, starts, unox, fwidth, bytes_text, Hex};
@inherent Bytes32.LowerHex vx_lower
@fn Bytes32.LowerHex.fmt
@props C21
@hint text
@# Without a width: with one, the dependency folds the bytes into fewer digits, which nothing here asks for.
@req
fwidth(old(f)) is None
@ens
fput(old(f), final(f), self.text(false, falt(old(f)), 0, false), r)
@pre
proof { reveal_strlit("0x"); assert(bytes_of("0x") =~= ox()); }
broadcast use {cat_cat, cat_empty};
let ghost t0 = if falt(old(f)) { ox() } else { Seq::<u8>::empty() };
@loop 0
invariant false
decreases s0@.len() - i0
@loop 1
invariant false
decreases s1@.len() - i1
@lb 2
proof { assert(bytes_text(self.0@.take(0), false) =~= Seq::<u8>::empty()); assert(self.0@.take(32) =~= self.0@); }
@le 2
assert(ftext(f) =~= ftext(old(f)) + (t0 + bytes_text(self.0@.take(i2 as int), false)));
@ls 2
proof {
    let n = *x2 as int;
    reveal_with_fuel(digits, 3);
    assert(t0 + bytes_text(self.0@.take(i2 as int), false) =~= (t0 + bytes_text(self.0@.take(i2 - 1), false)) + int_text(n, false, false, 2, true));
    assert(x2.text(false, false, 2, true) == int_text(n, false, false, 2, true));
    assert((&x2).text(false, false, 2, true) == int_text(n, false, false, 2, true));
    assert((&&x2).text(false, false, 2, true) == int_text(n, false, false, 2, true));
    assert(bytes_text(self.0@.take(i2 as int), false) =~= bytes_text(self.0@.take(i2 - 1), false) + int_text(n, false, false, 2, true));
}
@loop 2
invariant_except_break
    acc2 is Ok,
invariant
    s2@ == self.0@, i2 <= 32,
    fput(old(f), f, t0 + bytes_text(self.0@.take(i2 as int), false), acc2),
ensures
    acc2 is Ok ==> i2 == 32,
decreases s2@.len() - i2
@inherent Bytes32.UpperHex vx_upper
@fn Bytes32.UpperHex.fmt
@props C21
@hint text
@# Without a width: with one, the dependency folds the bytes into fewer digits, which nothing here asks for.
@req
fwidth(old(f)) is None
@ens
fput(old(f), final(f), self.text(true, falt(old(f)), 0, false), r)
@pre
proof { reveal_strlit("0x"); assert(bytes_of("0x") =~= ox()); }
broadcast use {cat_cat, cat_empty};
let ghost t0 = if falt(old(f)) { ox() } else { Seq::<u8>::empty() };
@loop 0
invariant false
decreases s0@.len() - i0
@loop 1
invariant false
decreases s1@.len() - i1
@lb 2
proof { assert(bytes_text(self.0@.take(0), true) =~= Seq::<u8>::empty()); assert(self.0@.take(32) =~= self.0@); }
@le 2
assert(ftext(f) =~= ftext(old(f)) + (t0 + bytes_text(self.0@.take(i2 as int), true)));
@ls 2
proof {
    let n = *x2 as int;
    reveal_with_fuel(digits, 3);
    assert(t0 + bytes_text(self.0@.take(i2 as int), true) =~= (t0 + bytes_text(self.0@.take(i2 - 1), true)) + int_text(n, true, false, 2, true));
    assert(x2.text(true, false, 2, true) == int_text(n, true, false, 2, true));
    assert((&x2).text(true, false, 2, true) == int_text(n, true, false, 2, true));
    assert((&&x2).text(true, false, 2, true) == int_text(n, true, false, 2, true));
    assert(bytes_text(self.0@.take(i2 as int), true) =~= bytes_text(self.0@.take(i2 - 1), true) + int_text(n, true, false, 2, true));
}
@loop 2
invariant_except_break
    acc2 is Ok,
invariant
    s2@ == self.0@, i2 <= 32,
    fput(old(f), f, t0 + bytes_text(self.0@.take(i2 as int), true), acc2),
ensures
    acc2 is Ok ==> i2 == 32,
decreases s2@.len() - i2
