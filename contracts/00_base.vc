@head
// ---------------------------------------------------------------- bytes and numbers
global size_of usize == 8;
pub mod num {
use vstd::prelude::*;
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub broadcast proof fn zeros_len(n: nat) ensures #[trigger] zeros(n).len() == n {}
/// The verifier puts what it knows of the type's copying before the function that calls this.
pub proof fn copies<T: Copy>(x: T) {}
pub open spec fn seed_spec() -> Seq<u8> { seq![0x46u8, 0x55u8, 0x45u8, 0x4cu8] }
// Big-endian words.
#[verifier::opaque]
pub open spec fn be8(x: u64) -> Seq<u8> {
    seq![(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8]
}
#[verifier::opaque]
pub open spec fn un8(s: Seq<u8>) -> u64 {
    ((s[0] as u64) << 56) | ((s[1] as u64) << 48) | ((s[2] as u64) << 40) | ((s[3] as u64) << 32) | ((s[4] as u64) << 24) | ((s[5] as u64) << 16) | ((s[6] as u64) << 8) | (s[7] as u64)
}
pub broadcast proof fn be8_len(x: u64) ensures #[trigger] be8(x).len() == 8 { reveal(be8); }
pub broadcast proof fn un8_be8(x: u64) ensures un8(#[trigger] be8(x)) == x {
    reveal(be8); reveal(un8);
    assert((((x >> 56) as u8 as u64) << 56) | (((x >> 48) as u8 as u64) << 48) | (((x >> 40) as u8 as u64) << 40) | (((x >> 32) as u8 as u64) << 32) | (((x >> 24) as u8 as u64) << 24) | (((x >> 16) as u8 as u64) << 16) | (((x >> 8) as u8 as u64) << 8) | (x as u8 as u64) == x) by (bit_vector);
}
pub proof fn be8_un8(s: Seq<u8>) requires s.len() == 8 ensures be8(un8(s)) == s {
    reveal(be8); reveal(un8);
    let (a, b, c, d, e, f, g, h) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    let x = un8(s);
    assert(x == ((a as u64) << 56) | ((b as u64) << 48) | ((c as u64) << 40) | ((d as u64) << 32) | ((e as u64) << 24) | ((f as u64) << 16) | ((g as u64) << 8) | (h as u64));
    assert(x == ((a as u64) << 56) | ((b as u64) << 48) | ((c as u64) << 40) | ((d as u64) << 32) | ((e as u64) << 24) | ((f as u64) << 16) | ((g as u64) << 8) | (h as u64) ==>
        (x >> 56) as u8 == a && (x >> 48) as u8 == b && (x >> 40) as u8 == c && (x >> 32) as u8 == d && (x >> 24) as u8 == e && (x >> 16) as u8 == f && (x >> 8) as u8 == g && x as u8 == h) by (bit_vector);
    assert(be8(x) =~= s);
}
// Length rounded up to whole words.
pub open spec fn pad8(n: int) -> int { if n % 8 == 0 { n } else { n + 8 - n % 8 } }
#[verifier::opaque]
pub open spec fn padded(s: Seq<u8>) -> Seq<u8> { s + zeros((pad8(s.len() as int) - s.len()) as nat) }
pub broadcast proof fn padded_len_is(s: Seq<u8>) ensures #[trigger] padded(s).len() == pad8(s.len() as int) { reveal(padded); }
pub broadcast proof fn pad8_range(n: int) requires n >= 0 ensures n <= #[trigger] pad8(n) <= n + 7, pad8(n) % 8 == 0 {}
// The word at an offset.
pub open spec fn wd(b: Seq<u8>, k: int) -> u64 { un8(b.subrange(k, k + 8)) }
// Normal forms of slices and concatenations.
pub broadcast proof fn sub_sub<T>(s: Seq<T>, i: int, j: int, k: int, l: int)
    requires 0 <= i <= j <= s.len(), 0 <= k <= l <= j - i
    ensures #[trigger] s.subrange(i, j).subrange(k, l) == s.subrange(i + k, i + l)
{ assert(s.subrange(i, j).subrange(k, l) =~= s.subrange(i + k, i + l)); }
pub broadcast proof fn sub_all<T>(s: Seq<T>, j: int) requires j == s.len() ensures #[trigger] s.subrange(0, j) == s { assert(s.subrange(0, j) =~= s); }
pub broadcast proof fn cat_cat<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn cat_empty<T>(a: Seq<T>, b: Seq<T>) requires b.len() == 0 ensures #[trigger] (a + b) == a, #[trigger] (b + a) == a { assert(a + b =~= a); assert(b + a =~= a); }
pub broadcast proof fn take_all<T>(s: Seq<T>) ensures #[trigger] s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
// Slices and vectors of bytes hold at most isize::MAX elements (a rule of the language).
pub broadcast axiom fn slice_max(s: &[u8]) ensures #[trigger] s@.len() <= isize::MAX;
pub broadcast axiom fn vec_max(s: &Vec<u8>) ensures #[trigger] s@.len() <= isize::MAX;
// Arrays with the same elements are the same.
pub broadcast axiom fn arr_ext<const N: usize>(a: [u8; N], b: [u8; N]) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
}
pub mod vx {
pub use crate::num::*;
pub use crate::vstub::{AsBytes, OptRef, AsBytesMut, VxSlice, Nt};
pub use vstd::std_specs::convert::{TryFromSpecImpl, FromSpecImpl, FromSpec, IntoSpec};
pub use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialEqSpec, PartialOrdSpecImpl, PartialOrdSpec, OrdSpecImpl, OrdSpec};
/// Byte strings in lexicographic order.
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less } }
    else if b.len() == 0 { core::cmp::Ordering::Greater }
    else if a[0] < b[0] { core::cmp::Ordering::Less } else if a[0] > b[0] { core::cmp::Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}
pub use crate::spec::*;
pub use crate::sbytes::*;
pub use crate::deep::*;
pub use crate::soutput::*;
pub use crate::sinput::*;
pub use crate::scontract::*;
pub use crate::stx::*;
pub use crate::txv::*;
pub use crate::txcodec::*;
pub use crate::txid_spec::*;
pub use crate::sexec::*;
pub use crate::itx::uniq;
pub use crate::sfee::*;
pub use crate::scheck::*;
pub use crate::sbal::*;
pub use crate::schecked::*;
pub use crate::ssign::*;
pub use crate::sreceipt::*;
pub use crate::sbuild::*;
pub use crate::text::{fput, falt, utxo_text, utxo_parse, txp_text, txp_parse, bytes_of, ox, Radix};
pub use crate::checked_transaction::{IntoCheckedOut, IntoCheckedTy};
pub use crate::fuel_crypto::{pk_hash, pk_of, sign_spec, recover_spec};
pub use crate::fuel_crypto::sha256;
use vstd::prelude::*;
pub broadcast group grp { zeros_len, be8_len, padded_len_is, slice_max, vec_max, pad8_range, take_all, crate::sbytes::grp_bytes }
}
// ---------------------------------------------------------------- the translation's own vocabulary
pub mod vstub {
use vstd::prelude::*;
use crate::num::*;
/// What `AsRef<[u8]>` yields.
pub trait AsBytes { spec fn bv(&self) -> Seq<u8>; fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
pub trait AsBytesMut: AsBytes { fn vx_bytes_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).bv(), final(self).bv() == final(r)@; }
pub trait Nt { spec fn nt(self) -> Seq<u8>; }
impl<X: AsBytes + ?Sized> AsBytes for &X { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } fn vx_bytes(&self) -> (r: &[u8]) { (**self).vx_bytes() } }
/// `as_ref` of an option is the one method of that name that does not give bytes.
pub trait OptRef { type T; fn vx_bytes(&self) -> (r: Option<&Self::T>) ensures r is Some == self.opt() is Some, self.opt() is Some ==> *r->0 == self.opt()->0; spec fn opt(&self) -> Option<Self::T>; }
impl<X> OptRef for Option<X> { type T = X; open spec fn opt(&self) -> Option<X> { *self } fn vx_bytes(&self) -> (r: Option<&X>) { match self { Some(x) => Some(x), None => None } } }
impl AsBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } fn vx_bytes(&self) -> (r: &[u8]) { self.as_slice() } }
impl AsBytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } fn vx_bytes(&self) -> (r: &[u8]) { self } }
impl<const N: usize> AsBytes for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } fn vx_bytes(&self) -> (r: &[u8]) { self } }
impl AsBytesMut for Vec<u8> { fn vx_bytes_mut(&mut self) -> (r: &mut [u8]) { self.as_mut_slice() } }
/// What `.iter()` ranges over.
pub trait VxSlice { type T; spec fn slv(&self) -> Seq<Self::T>; fn vx_slice(&self) -> (r: &[Self::T]) ensures r@ == self.slv(); }
impl<X> VxSlice for Vec<X> { type T = X; open spec fn slv(&self) -> Seq<X> { self@ } fn vx_slice(&self) -> (r: &[X]) { let r = self.as_slice(); assert(r@ == self@); assert(self.slv() == self@); r } }
impl<X> VxSlice for [X] { type T = X; open spec fn slv(&self) -> Seq<X> { self@ } fn vx_slice(&self) -> (r: &[X]) { assert(self.slv() == self@); self } }
/// Two-element (or longer) windows and chunks of a slice.
pub fn sub<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body]
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(x, #[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn first_chunk<T>(s: &[T], n: usize) -> (r: Option<&[T]>) requires n > 0 ensures s@.len() < n ==> r is None, s@.len() >= n ==> r is Some && (r->0)@ == s@.subrange(0, n as int) { s.chunks_exact(n).next() }
#[verifier::external_body]
pub fn vec_from<T: Clone>(s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]) { Vec::from(s) }
#[verifier::external_body]
pub fn un_bytes(x: [u8; 8]) -> (r: u64) ensures r == un8(x@) { u64::from_be_bytes(x) }
/// `==` and `cmp` of arrays: what the derived comparisons of the byte-array types call.
#[verifier::external_body]
pub fn arr_eq<const N: usize>(a: &[u8; N], b: &[u8; N]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn arr_cmp<const N: usize>(a: &[u8; N], b: &[u8; N]) -> (r: core::cmp::Ordering) ensures r == crate::vx::lex(a@, b@) { a.cmp(b) }
#[verifier::external_body]
pub fn be_bytes(x: u64) -> (r: [u8; 8]) ensures r@ == be8(x) { x.to_be_bytes() }
#[verifier::external_body]
pub const fn be_bytes4(x: u32) -> (r: [u8; 4]) ensures r@ == seq![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] { x.to_be_bytes() }
pub uninterp spec fn cl_ens<T>(a: T, b: T) -> bool;
/// What `cloned` does to an element.
#[verifier::external_body]
pub fn cl<T: Clone>(x: &T) -> (r: T) ensures cl_ens(*x, r), cloned(*x, r) { x.clone() }
#[verifier::external_body]
pub fn message() -> (r: &'static str) { unimplemented!() }
#[verifier::external_body]
pub fn never() -> ! requires false { unimplemented!() }
pub mod iter { use vstd::prelude::*; pub fn empty<T>() -> (r: Vec<T>) ensures r@.len() == 0 { Vec::new() } }
pub mod collections { pub use crate::btree::BTreeMap; }
}
// ---------------------------------------------------------------- std::io
pub mod io {
use vstd::prelude::*;
use crate::num::*;
#[verifier::external_body]
pub struct Error { x: u8 }
#[verifier::external] impl std::fmt::Debug for Error { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
pub enum ErrorKind { UnexpectedEof, InvalidData, Other, NotFound, InvalidInput }
impl Error { #[verifier::external_body] pub fn new<E>(k: ErrorKind, e: E) -> Error { unimplemented!() } }
pub type Result<T> = core::result::Result<T, Error>;
/// The bytes `e` at the start of a buffer.
pub open spec fn wrote(f: Seq<u8>, e: Seq<u8>, b: Seq<u8>) -> bool { f == e + b.subrange(e.len() as int, b.len() as int) }
/// The encoder of a value.
pub trait Read: Sized {
    /// What the value is, as far as an encoder may not change it.
    type E;
    spec fn ev(&self) -> Self::E;
    /// The encoding, as far as it is written; the rest of `size` bytes keeps its content.
    spec fn enc(&self) -> Seq<u8>;
    spec fn enc_size(&self) -> int;
    /// The encoding's length is a usize, and cached offsets are those of the value.
    spec fn enc_ok(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        requires old(self).enc_ok(),
        ensures
            final(self).ev() == old(self).ev(),
            final(buf)@.len() == old(buf)@.len(),
            old(buf)@.len() >= old(self).enc_size() ==> r is Ok && r->Ok_0 == old(self).enc_size() && 0 <= old(self).enc().len() <= old(self).enc_size() && wrote(final(buf)@, old(self).enc(), old(buf)@),
            old(buf)@.len() < old(self).enc_size() ==> r is Err;
}
/// The decoder of a value.
pub trait Write: Sized {
    /// The value that `buf` starts with (as seen by `dvw`) and the length of its encoding.
    type D;
    spec fn dvw(&self) -> Self::D;
    spec fn dec(buf: Seq<u8>) -> Option<(Self::D, int)>;
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
        ensures
            Self::dec(buf@) is Some ==> r is Ok && r->Ok_0 == (Self::dec(buf@)->0).1 && final(self).dvw() == (Self::dec(buf@)->0).0 && 0 <= r->Ok_0 <= buf@.len(),
            Self::dec(buf@) is None ==> r is Err;
    fn flush(&mut self) -> (r: Result<()>)
        ensures r is Ok, final(self).dvw() == old(self).dvw();
}
}
// ---------------------------------------------------------------- std
pub assume_specification<T: Default>[ std::mem::take ](dest: &mut T) -> (r: T)
    ensures r == *old(dest), call_ensures(T::default, (), *final(dest));
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
pub uninterp spec fn dummy_w() -> bool;
