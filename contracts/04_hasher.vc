@# fuel-crypto's hasher.rs, translated from the source of the dependency that the crate is built with.
@head
/// What the contracts say about sha2: the digest is a function of the bytes given so far.
pub mod sha2 {
use vstd::prelude::*; use vstd::std_specs::convert::*; use crate::vx::*; use crate::fuel_crypto::sha256;
#[verifier::external_body]
pub struct Sha256 { x: u8 }
impl View for Sha256 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Default for Sha256 { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() } }
impl Clone for Sha256 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub struct Output(pub [u8; 32]);
impl FromSpecImpl<Output> for [u8; 32] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Output) -> Self { a.0 } }
impl From<Output> for [u8; 32] { #[verifier::external_body] fn from(a: Output) -> (r: Self) { a.0 } }
pub trait Digest: Sized {
    spec fn fed(&self) -> Seq<u8>;
    fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty();
    fn update<B: AsBytes>(&mut self, data: B) ensures final(self).fed() == old(self).fed() + data.bv();
    fn finalize(self) -> (r: Output) ensures r.0@ == sha256(self.fed());
    fn reset(&mut self) ensures final(self).fed() == Seq::<u8>::empty();
}
impl Digest for Sha256 {
    open spec fn fed(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn update<B: AsBytes>(&mut self, data: B) { unimplemented!() }
    #[verifier::external_body] fn finalize(self) -> (r: Output) { unimplemented!() }
    #[verifier::external_body] fn reset(&mut self) { unimplemented!() }
}
pub mod digest {
    use vstd::prelude::*; use crate::vx::*;
    pub trait Update: Sized { spec fn upd(&self) -> Seq<u8>; fn chain<B: AsBytes>(self, data: B) -> (r: Self) ensures r.upd() == self.upd() + data.bv(); }
    impl Update for super::Sha256 { open spec fn upd(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn chain<B: AsBytes>(self, data: B) -> (r: Self) { unimplemented!() } }
}
}
pub mod secp256k1 { pub struct Error; pub struct PublicKey; pub struct Secp256k1; }
@module hasher_dep
impl View for Hasher { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
impl Default for Hasher { fn default() -> (r: Self) ensures r@ == Seq::<u8>::empty() { Hasher(Sha256::default()) } }
@fn Hasher.hash
@props C06 C10 C12 C19 C20
@ens
r@ == crate::fuel_crypto::sha256(data.bv())
@fn Hasher.input
@props C19 C20
@ens
final(self)@ == old(self)@ + data.bv()
@fn Hasher.chain
@props C19 C20
@ens
r@ == self@ + data.bv()
@fn Hasher.finalize
@props C19 C20
@ens
r@ == crate::fuel_crypto::sha256(self@)
@fn Hasher.digest
@props C19 C20
@ens
r@ == crate::fuel_crypto::sha256(self@)
@fn Hasher.reset
@props C19 C20
@ens
final(self)@ == Seq::<u8>::empty()
@module public_dep
impl Clone for PublicKey { fn clone(&self) -> (r: Self) ensures r == *self { PublicKey(self.0) } }
impl Copy for PublicKey {}
impl AsBytes for PublicKey { open spec fn bv(&self) -> Seq<u8> { self.0.bv() } fn vx_bytes(&self) -> (r: &[u8]) { self.0.vx_bytes() } }
@fn PublicKey.hash
@props C12 C13 C22 C24
@ens
r@ == crate::fuel_crypto::pk_hash(*self)
