@# contracts assumed for fuel-asm, fuel-crypto and fuel-merkle
@head
pub mod fuel_asm {
use vstd::prelude::*; use crate::vx::*;
pub type Word = u64;
#[verifier::external_body]
pub struct PanicReason { x: u8 }
pub enum Opcode { RET(usize) }
pub uninterp spec fn opcode_bytes(o: Opcode) -> Seq<u8>;
impl Opcode { #[verifier::external_body] pub fn to_bytes(self) -> (r: [u8; 4]) ensures r@ == opcode_bytes(self) { unimplemented!() } }
/// A panic reason with the instruction it happened at.
#[verifier::external_body]
pub struct InstructionResult { x: u8 }
/// What converting from and to a word does (unknown operations, unused bits and a lone instruction are dropped).
pub uninterp spec fn ir_of(w: u64) -> InstructionResult;
pub uninterp spec fn ir_word(r: InstructionResult) -> u64;
impl Clone for InstructionResult { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for InstructionResult {}
impl FromSpecImpl<u64> for InstructionResult { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: u64) -> Self { ir_of(a) } }
impl From<u64> for InstructionResult { #[verifier::external_body] fn from(a: u64) -> (r: Self) { unimplemented!() } }
impl FromSpecImpl<InstructionResult> for u64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: InstructionResult) -> Self { ir_word(a) } }
impl From<InstructionResult> for u64 { #[verifier::external_body] fn from(a: InstructionResult) -> (r: Self) { unimplemented!() } }
}
pub mod fuel_crypto {
use vstd::prelude::*; use crate::vx::*; use crate::fuel_types::*;
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
pub use crate::hasher_dep::Hasher;
#[verifier::external_body]
pub struct Error { x: u8 }
#[verifier::external_body]
pub struct SecretKey { x: u8 }
pub use crate::public_dep::PublicKey;
/// The public key of a secret key; the hash of a public key; signing and recovering.
pub uninterp spec fn pk_of(s: SecretKey) -> PublicKey;
pub open spec fn pk_hash(p: PublicKey) -> Seq<u8> { sha256(p.bv()) }
pub uninterp spec fn sign_spec(s: SecretKey, m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn recover_spec(sig: Seq<u8>, m: Seq<u8>) -> Option<PublicKey>;
impl FromSpecImpl<&SecretKey> for PublicKey { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: &SecretKey) -> Self { pk_of(*a) } }
impl From<&SecretKey> for PublicKey { #[verifier::external_body] fn from(a: &SecretKey) -> (r: Self) { unimplemented!() } }
impl Clone for SecretKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SecretKey {}
impl SecretKey { #[verifier::external_body] pub fn public_key(&self) -> (r: PublicKey) ensures r == pk_of(*self) { unimplemented!() } }
pub struct Message(pub [u8; 32]);
impl Message {
    pub const LEN: usize = 32;
    #[verifier::external_body]
    pub unsafe fn as_ref_unchecked(bytes: &[u8]) -> (r: &Self) requires bytes@.len() >= 32 ensures r.0@ == bytes@.subrange(0, 32) { unimplemented!() }
}
pub struct Signature(pub [u8; 64]);
impl Clone for Signature { fn clone(&self) -> (r: Self) ensures r == *self { Signature(self.0) } }
impl Copy for Signature {}
impl AsBytes for Signature { open spec fn bv(&self) -> Seq<u8> { self.0@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { &self.0 } }
impl std::ops::Deref for Signature { type Target = [u8; 64]; fn deref(&self) -> (r: &[u8; 64]) ensures *r == self.0 { &self.0 } }
impl Signature {
    pub const LEN: usize = 64;
    #[verifier::external_body]
    pub unsafe fn as_ref_unchecked(bytes: &[u8]) -> (r: &Self) requires bytes@.len() >= 64 ensures r.0@ == bytes@.subrange(0, 64) { unimplemented!() }
    #[verifier::external_body]
    pub fn sign(secret: &SecretKey, message: &Message) -> (r: Self) ensures r.0@ == sign_spec(*secret, message.0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn recover(self, message: &Message) -> (r: core::result::Result<PublicKey, Error>) ensures r is Ok <==> recover_spec(self.0@, message.0@) is Some, r is Ok ==> recover_spec(self.0@, message.0@) == Some(r->Ok_0) { unimplemented!() }
}
/// What signing promises: the key can be recovered from the signature.
pub broadcast axiom fn sign_recover(s: SecretKey, m: Seq<u8>) ensures #[trigger] sign_spec(s, m).len() == 64, recover_spec(sign_spec(s, m), m) == Some(pk_of(s));
pub broadcast axiom fn sha_len(s: Seq<u8>) ensures #[trigger] sha256(s).len() == 32;
}
pub mod fuel_merkle {
pub mod binary { pub mod in_memory {
use vstd::prelude::*;
/// The binary Merkle root over the leaves, in order.
pub uninterp spec fn bmt(leaves: Seq<Seq<u8>>) -> Seq<u8>;
#[verifier::external_body]
pub struct MerkleTree { x: u8 }
impl View for MerkleTree { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl MerkleTree {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, data: &[u8]) ensures final(self)@ == old(self)@.push(data@) { unimplemented!() }
    #[verifier::external_body]
    pub fn root(&mut self) -> (r: [u8; 32]) ensures r@ == bmt(old(self)@), *final(self) == *old(self) { unimplemented!() }
}
} }
pub mod sparse { pub mod in_memory {
use vstd::prelude::*;
/// The sparse Merkle root after setting the keys in order.
pub uninterp spec fn smt(sets: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8>;
#[verifier::external_body]
pub struct MerkleTree { x: u8 }
impl View for MerkleTree { type V = Seq<(Seq<u8>, Seq<u8>)>; uninterp spec fn view(&self) -> Seq<(Seq<u8>, Seq<u8>)>; }
impl MerkleTree {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(Seq<u8>, Seq<u8>)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, key: &[u8; 32], data: &[u8]) ensures final(self)@ == old(self)@.push((key@, data@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn root(&self) -> (r: [u8; 32]) ensures r@ == smt(self@) { unimplemented!() }
}
} }
}
