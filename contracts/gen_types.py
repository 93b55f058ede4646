#!/usr/bin/env python3
"""Writes 05_types.vc: the contracts of fuel-types' byte-array types, the same for each of them.
The functions are translated from the dependency's source; what it derives is assumed."""
out = ["@# generated by gen_types.py", "@head", "pub mod fuel_types {", "pub type Word = u64;", "pub use crate::types_dep::*;", "pub use crate::bytes_dep as bytes;", "}"]
T = [("Address", 32), ("AssetId", 32), ("Bytes32", 32), ("ContractId", 32), ("MessageId", 32), ("Salt", 32), ("Bytes4", 4), ("Bytes8", 8), ("Bytes64", 64)]
N = sorted({k for _, k in T})
out += ["@drop struct Bytes20", "@drop Bytes20"]
out += ["@module types_dep", "use vstd::std_specs::convert::*; use vstd::std_specs::cmp::*;", "pub type Word = u64;"]
for n, k in T:
    out.append(f"""impl View for {n} {{ type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> {{ self.0@ }} }}
impl DeepView for {n} {{ type V = Seq<u8>; open spec fn deep_view(&self) -> Seq<u8> {{ self.0@ }} }}
impl Clone for {n} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {n}(self.0) }} }}
impl Copy for {n} {{}}
impl Eq for {n} {{}}
impl PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ self.0@ == o.0@ }} }}
impl PartialEq for {n} {{ fn eq(&self, o: &Self) -> bool {{ crate::vstub::arr_eq(&self.0, &o.0) }} }}
impl PartialOrdSpecImpl for {n} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {{ Some(lex(self.0@, o.0@)) }} }}
impl PartialOrd for {n} {{ fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {{ Some(crate::vstub::arr_cmp(&self.0, &o.0)) }} }}
impl OrdSpecImpl for {n} {{ open spec fn obeys_cmp_spec() -> bool {{ true }} open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering {{ lex(self.0@, o.0@) }} }}
impl Ord for {n} {{ fn cmp(&self, o: &Self) -> core::cmp::Ordering {{ crate::vstub::arr_cmp(&self.0, &o.0) }} }}
impl FromSpecImpl<[u8; {k}]> for {n} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(a: [u8; {k}]) -> Self {{ {n}(a) }} }}
impl FromSpecImpl<{n}> for [u8; {k}] {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(a: {n}) -> Self {{ a.0 }} }}
impl Nt for {n} {{ open spec fn nt(self) -> Seq<u8> {{ self.0@ }} }}""")
    if n == "Bytes32":
        out.append("impl AsBytesMut for Bytes32 {  fn vx_bytes_mut(&mut self) -> (r: &mut [u8]) { &mut self.0 } }") if 0 else None
    if n != "Bytes64":
        out.append(f"impl Default for {n} {{ fn default() -> (r: Self) ensures r.0@ == zeros({k}) {{ {n}::zeroed() }} }}")
for n, k in T:
    out.append(f"""@tattr {n} #[verifier::ext_equal]
@fn {n}.new
@props C01 C24
@hint const
@ens
r.0@ == bytes@
@fn {n}.zeroed
@props C01 C24
@hint const
@ens
r.0@ == zeros({k})
@post
proof {{ copies(0u8); }} assert(__out.0@ =~= zeros({k}));
@fn {n}.from_slice_unchecked
@props C01 C24
@req
bytes@.len() >= {k}
@ens
r.0@ == bytes@.subrange(0, {k})
@fn {n}.as_ref_unchecked
@props C01 C24
@ext a raw pointer read as a reference
@req
bytes@.len() >= {k}
@ens
r.0@ == bytes@.subrange(0, {k})
@fn {n}.size
@props C01 C24
@hint const
@ens
r == {k}
@fn {n}.Deref.deref
@props C01 C24
@ens
*r == self.0
@impl {n}.AsRef<[u8]>
open spec fn bv(&self) -> Seq<u8> {{ self.0@ }}
@fn {n}.AsRef<[u8]>.as_ref
@props C01 C24
@pre
assert(self.bv() == self.0@);
@fn {n}.From<[u8;{k}]>.from
@props C01 C24
@fn [u8;{k}].From<{n}>.from""")
out.append("""@fn Bytes32.AsMut<[u8]>.as_mut
@fn Bytes64.Default.default
@ens
r.0@ == zeros(64)
@post
assert(__out.0@ =~= zeros(64));""")
out += ["@fn AssetId.BASE", "@props C14 C15", "@ens", "AssetId::BASE.0@ == zeros(32)", "@fn ContractId.SEED", "@props C20", "@ens", "ContractId::SEED@ == seed_spec()", "@post", "assert(__out@ =~= seed_spec()) by { assert((0x4655454Cu32 >> 24) as u8 == 0x46u8 && (0x4655454Cu32 >> 16) as u8 == 0x55u8 && (0x4655454Cu32 >> 8) as u8 == 0x45u8 && 0x4655454Cu32 as u8 == 0x4cu8) by (bit_vector); }"]
open(__file__.replace("gen_types.py", "05_types.vc"), "w").write("\n".join(out) + "\n")
