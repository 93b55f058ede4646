//! The contracts the proofs assume of dependencies, tried on the real ones. Not a property of fuel-tx: a bounded check of the trusted base.
use crate::gen::*;
use crate::rules::{keys, merkle_root};
use crate::{ck, R};
use fuel_asm::{InstructionResult, Opcode};
use fuel_crypto::{Hasher, Message, PublicKey, SecretKey, Signature};
use fuel_types::{Address, AssetId, Bytes32, Bytes64, ContractId, MessageId, Salt};
use itertools::Itertools;
use num_integer::Integer;
use std::collections::BTreeMap;
use std::str::FromStr;

/// SHA-256, written from FIPS 180-4.
pub fn sha256(m: &[u8]) -> [u8; 32] {
    fn primes(n: usize) -> Vec<u64> { let mut v: Vec<u64> = vec![]; let mut k = 2u64; while v.len() < n { if v.iter().all(|p| k % p != 0) { v.push(k) } k += 1; } v }
    // fractional bits of the square and cube roots of primes, by integer search
    fn frac(p: u64, cube: bool) -> u32 {
        let (mut lo, mut hi) = (0u128, 1u128 << 38);
        while hi - lo > 1 { let m = (lo + hi) / 2;
            let le = if cube { // m^3 <= p * 2^96, in two limbs
                let sq = m * m; let (a, b) = (sq >> 64, sq & ((1 << 64) - 1));
                let l = b * m; let h = a * m + (l >> 64); let l = l & ((1 << 64) - 1);
                h < (p as u128) << 32 || h == (p as u128) << 32 && l == 0
            } else { m * m <= (p as u128) << 64 };
            if le { lo = m } else { hi = m } }
        lo as u32
    }
    thread_local! { static T: (Vec<u32>, Vec<u32>) = { let ps = primes(64); (ps[..8].iter().map(|p| frac(*p, false)).collect(), ps.iter().map(|p| frac(*p, true)).collect()) }; }
    T.with(|(h0, k)| {
        let mut v = m.to_vec();
        v.push(0x80);
        while v.len() % 64 != 56 { v.push(0) }
        v.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
        let mut h: Vec<u32> = h0.clone();
        for c in v.chunks(64) {
            let mut w: Vec<u32> = c.chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).collect();
            for t in 16..64 {
                let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
                let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
                w.push(w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1));
            }
            let mut s = h.clone();
            for t in 0..64 {
                let e1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
                let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
                let t1 = s[7].wrapping_add(e1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
                let e0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
                let ma = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
                s = vec![t1.wrapping_add(e0.wrapping_add(ma)), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
            }
            for i in 0..8 { h[i] = h[i].wrapping_add(s[i]) }
        }
        let mut out = [0; 32];
        for i in 0..8 { out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()) }
        out
    })
}

macro_rules! arrays { ($r:expr, $($t:ident),*) => { $( {
    let (a, mut b) = ($r.b32(), $r.b32());
    if $r.bool() { b = a; if $r.bool() { b[$r.below(32)] ^= 1 << $r.below(8); } }
    let (x, y) = ($t::from(a), $t::from(b));
    ck!((x == y) == (a == b) && x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "order of {a:?} {b:?}");
    ck!(*$t::default() == [0; 32] && *x == a && x.as_ref() == &a[..] && <[u8; 32]>::from(x) == a && x.clone() == x, "{a:?} as an array type");
} )* } }

pub fn deps(r: &mut Rng) -> R {
    // hashing
    let (a, b, c) = (r.bytes(), r.bytes(), r.bytes());
    let all = [a.clone(), b.clone(), c.clone()].concat();
    let want = sha256(&all);
    ck!(*Hasher::hash(&all) == want, "sha256 of {all:?}");
    let mut h = Hasher::default();
    h.input(&a);
    h.input(&b);
    let h = h.chain(&c);
    ck!(*h.digest() == want && *h.finalize() == want, "hashing in pieces {a:?} {b:?} {c:?}");
    // signatures
    if r.chance(1, 16) {
        let (k, _) = r.pick(keys());
        let m = r.b32();
        let msg = unsafe { Message::as_ref_unchecked(&m) };
        let pk: PublicKey = k.public_key();
        ck!(PublicKey::from(k) == pk && *pk.hash() == sha256(pk.as_ref()), "public key of {k:?}");
        let s = Signature::sign(k, msg);
        let s2 = *unsafe { Signature::as_ref_unchecked(s.as_ref()) };
        ck!(s.as_ref().len() == 64 && s2 == s && s2.recover(msg) == Ok(pk), "recovery of {s:?} over {m:?}");
        ck!(Signature::sign(&SecretKey::try_from(&k.as_ref()[..]).unwrap(), msg) == s, "signatures of {m:?} differ");
    }
    // Merkle trees
    let leaves: Vec<Vec<u8>> = a.chunks(8).map(|x| x.to_vec()).collect();
    let mut t = fuel_merkle::binary::in_memory::MerkleTree::new();
    for l in &leaves { let mut l = l.clone(); l.resize(8, 0); t.push(&l); }
    ck!(t.root() == merkle_root(&a), "merkle root of {a:?}");
    // instruction results travel as words
    let w = r.word();
    let x = InstructionResult::from(w);
    let y = u64::from(x);
    let z = InstructionResult::from(y);
    ck!(InstructionResult::from(u64::from(z)) == z, "instruction result of {w} is not stable");
    ck!(Opcode::RET(1).to_bytes().len() == 4, "RET");
    // array types
    arrays!(r, Address, AssetId, Bytes32, ContractId, MessageId, Salt);
    let (p, q) = (r.b32(), r.b32());
    let f = [p, q].concat();
    let x = Bytes64::try_from(&f[..]);
    ck!(x.as_ref().map(|x| x.to_vec()).ok() == Some(f.clone()) && Bytes64::try_from(&f[1..]).is_err(), "Bytes64 of {f:?}");
    ck!(*AssetId::BASE == [0; 32] && ContractId::SEED == [0x46, 0x55, 0x45, 0x4C], "constants");
    // list helpers
    let n = r.below(9);
    let v: Vec<u8> = (0..n).map(|_| r.below(5) as u8).collect();
    let mut u: Vec<u8> = vec![];
    for x in &v { if !u.contains(x) { u.push(*x) } }
    let got: Vec<u8> = v.iter().copied().unique().collect();
    ck!(got == u, "unique of {v:?} is {got:?}");
    let got: Vec<u8> = v.iter().copied().sorted().dedup().collect();
    ck!(got.iter().all(|x| v.contains(x)) && v.iter().all(|x| got.contains(x)), "dedup of {v:?} is {got:?}");
    let got: Vec<u8> = v.iter().copied().duplicates().collect();
    ck!(got.is_empty() == (u.len() == v.len()) && got.iter().all(|x| v.iter().filter(|y| *y == x).count() > 1), "duplicates of {v:?} are {got:?}");
    let mut m: BTreeMap<u8, u64> = BTreeMap::new();
    let mut l: Vec<(u8, u64)> = vec![];
    for _ in 0..r.below(12) {
        let (k, d) = (r.below(5) as u8, r.below(100) as u64);
        *m.entry(k).or_default() += d;
        match l.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 += d, None => l.push((k, d)) }
        let k = r.below(5) as u8;
        ck!(m.get(&k).copied() == l.iter().find(|x| x.0 == k).map(|x| x.1) && m.contains_key(&k) == l.iter().any(|x| x.0 == k), "map {m:?} {l:?}");
        if let Some(x) = m.get_mut(&k) { *x += 1; l.iter_mut().find(|x| x.0 == k).unwrap().1 += 1; }
    }
    // division
    let (a, b) = ((r.word() as u128) * (r.word() as u128), r.word().max(1) as u128);
    ck!(Integer::div_floor(&a, &b) == a / b && Integer::div_ceil(&a, &b) == a / b + (a % b != 0) as u128, "{a} over {b}");
    // texts
    let pool = ["0", "9", "a", "F", "g", "+", "-", "x", "0x", "é", "€", " "];
    let n = r.below(7);
    let s: String = (0..n).map(|_| *r.pick(&pool)).collect();
    let by = s.as_bytes();
    let (i, j) = (r.below(by.len() + 2), r.below(by.len() + 2));
    let edge = |i: usize| i == 0 || i == by.len() || i < by.len() && (by[i] < 0x80 || by[i] >= 0xC0);
    ck!(s.get(i..j).map(|x| x.as_bytes().to_vec()) == (i <= j && j <= by.len() && edge(i) && edge(j)).then(|| by[i..j].to_vec()), "{s:?} at {i}..{j}");
    let mut t = by;
    while t.starts_with(b"0x") { t = &t[2..] }
    ck!(s.trim_start_matches("0x").as_bytes() == t && s.starts_with("0x") == by.starts_with(b"0x"), "trimming {s:?}");
    let d = if by.len() > 1 && by[0] == b'+' { &by[1..] } else { by };
    let mut num = if d.is_empty() { None } else { Some(0u128) };
    for x in d { num = match (num, (*x as char).to_digit(16)) { (Some(n), Some(v)) if x.is_ascii() => Some(n * 16 + v as u128), _ => None } }
    ck!(u8::from_str_radix(&s, 16).ok().map(|x| x as u128) == num.filter(|x| *x <= 255) && u16::from_str_radix(&s, 16).ok().map(|x| x as u128) == num.filter(|x| *x <= 65535)
        && u32::from_str_radix(&s, 16).ok().map(|x| x as u128) == num.filter(|x| *x <= u32::MAX as u128), "number in {s:?}");
    let w = r.word();
    let digits = |w: u64, n: usize, up: bool| { let mut v = vec![]; let mut w = w; while w > 0 { v.push(b"0123456789abcdef"[(w % 16) as usize]); w /= 16 } if v.is_empty() { v.push(b'0') } while v.len() < n { v.push(b'0') } v.reverse(); let s = String::from_utf8(v).unwrap(); if up { s.to_uppercase() } else { s } };
    let (x8, x16, x32) = (w as u8, w as u16, w as u32);
    ck!(format!("{x8:02x}{x16:04x}{x32:08x}") == digits(x8 as u64, 2, false) + &digits(x16 as u64, 4, false) + &digits(x32 as u64, 8, false), "hex of {w}");
    ck!(format!("{x8:02X}{x16:04X}{x32:08X}{x8:x}") == digits(x8 as u64, 2, true) + &digits(x16 as u64, 4, true) + &digits(x32 as u64, 8, true) + &digits(x8 as u64, 1, false), "hex of {w}");
    let b = Bytes32::from(p);
    ck!(Bytes32::from_str(&format!("{b:x}")) == Ok(b) && Bytes32::from_str(&format!("0x{b:X}")) == Ok(b) && format!("{b:#x}").starts_with("0x"), "text of {b:?}");
    Ok(())
}
