//! C17: signatures verify, forgeries do not, and both back ends agree.
use crate::backend::*;
use crate::curve::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use vh::runner::*;
use vh::{ensure, ensure_eq};

fn low(s: &BigUint) -> BigUint {
    if is_low(s) { s.clone() } else { n() - s }
}

/// What a verification of these bytes has to say.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Same(bool),
    /// A proper low-S signature and compressed key with malformed or out-of-range parts: not true.
    NotTrue,
    /// Valid but for the high S, or for an uncompressed key: back ends may differ.
    Either,
    Error,
}

fn want(pubkey: &[u8], msg: &[u8], sig: &[u8]) -> Want {
    if msg.len() != 32 {
        return Want::Error;
    }
    let key = parse_key(pubkey);
    let q = match &key {
        Key::Bad => return Want::Error,
        Key::Compressed(x, y) | Key::Long(x, y) => Some((*x, *y)),
    };
    let Some((r, s)) = parse_der(sig) else { return Want::NotTrue };
    let in_range = |v: &BigUint| !v.is_zero() && v < n();
    if !in_range(&r) || !in_range(&s) {
        return Want::NotTrue;
    }
    let valid = ecdsa(&q, msg, &r, &s);
    match (key, is_low(&s)) {
        (Key::Compressed(..), true) => Want::Same(valid),
        _ if valid => Want::Either,
        _ => Want::NotTrue,
    }
}

fn verify_all(pubkey: &[u8], msg: &[u8], sig: &[u8], obs: &mut Obs) -> Result<Want, String> {
    let w = want(pubkey, msg, sig);
    for b in BOTH {
        let got = b.verify(pubkey, msg, sig)?;
        let ok = match &w {
            Want::Same(v) => got == Ok(*v),
            Want::NotTrue => got != Ok(true),
            Want::Either => true,
            Want::Error => got.is_err(),
        };
        ensure!(ok, "{:?} back end: verifying signature {} of {} under {} gives {:?}, expected {:?}", b, hex::encode(sig), hex::encode(msg), hex::encode(pubkey), got, w);
        // Without a low S a signature is not valid on the network; the default back end says so.
        if b == Backend::C && parse_der(sig).map_or(true, |(_, s)| !is_low(&s)) {
            ensure!(got != Ok(true), "{:?} back end accepts {}, which is not a low-S DER signature", b, hex::encode(sig));
        }
    }
    obs.class(match w {
        Want::Same(true) => "valid",
        Want::Same(false) => "invalid",
        Want::NotTrue => "malformed",
        Want::Either => "high-s-or-long-key",
        Want::Error => "error",
    });
    Ok(w)
}

// ---- keys ----

fn check_key(k: &Hex, obs: &mut Obs) -> Result<(), String> {
    let expected = public(k);
    obs.nontrivial(expected.is_some());
    obs.class(if expected.is_some() { "valid" } else { "rejected" });
    for b in BOTH {
        let got = b.derive(k)?;
        ensure!(got.clone().ok() == expected, "{:?} back end: public key of {} is {:?}, expected {:?}", b, hex::encode(&k.0), got, expected.as_ref().map(hex::encode));
        let sig = b.sign(k, &[7; 32])?;
        ensure_eq!(sig.is_ok(), expected.is_some(), "{:?} back end: signing with {} gives {:?}", b, hex::encode(&k.0), sig);
        if let (Ok(sig), Some(pk)) = (sig, &expected) {
            ensure!(verify_all(pk, &[7; 32], &sig, obs)? == Want::Same(true), "signature {} of {:?} is not valid", hex::encode(sig), b);
        }
    }
    Ok(())
}

// ---- signatures ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Flip(u16, u8),
    Set(u16, u8),
    Drop(u16),
    Insert(u16, u8),
    Append(u8),
    Cut(u16),
    /// Re-encoded numbers: add to r or s (modulo 2^256), negate modulo n, swap, zero.
    AddR(i8),
    AddS(i8),
    PlusOrder(bool),
    NegateR,
    NegateS,
    Swap,
    Zero(bool),
    /// The same numbers in other encodings.
    PadInt(bool),
    LongLength(u8, u8),
    Trailing,
    /// Another sequence, integer tag.
    Tag(u8),
}

fn raw_int(b: &[u8]) -> Vec<u8> {
    [&[2, b.len() as u8][..], b].concat()
}

fn strict_body(v: &BigUint) -> Vec<u8> {
    let b = der(v, v);
    b[4..4 + b[3] as usize].to_vec()
}

fn wrap(body: Vec<u8>) -> Vec<u8> {
    [&[0x30, body.len() as u8][..], &body].concat()
}

fn edit(sig: &[u8], e: &Edit) -> Vec<u8> {
    let mut v = sig.to_vec();
    let at = |k: u16, len: usize| if len == 0 { 0 } else { k as usize % len };
    match e {
        Edit::Flip(k, b) if !v.is_empty() => {
            let i = at(*k, v.len());
            v[i] ^= 1 << (b % 8)
        }
        Edit::Set(k, b) if !v.is_empty() => {
            let i = at(*k, v.len());
            v[i] = *b
        }
        Edit::Drop(k) if !v.is_empty() => {
            v.remove(at(*k, v.len()));
        }
        Edit::Insert(k, b) => v.insert(at(*k, v.len() + 1), *b),
        Edit::Append(b) => v.push(*b),
        Edit::Cut(k) => v.truncate(at(*k, v.len() + 1)),
        _ => {}
    }
    let Some((r, s)) = parse_der(sig) else { return v };
    let modulus = BigUint::one() << 256;
    let add = |x: &BigUint, d: i8| if d >= 0 { (x + d as u32) % &modulus } else { (x + &modulus - d.unsigned_abs() as u32) % &modulus };
    let fix = |x: BigUint| if x.bits() > 256 { x % &modulus } else { x };
    let opposite = |x: &BigUint| n() - x % n();
    match e {
        Edit::AddR(d) => der(&add(&r, *d), &s),
        Edit::AddS(d) => der(&r, &add(&s, *d)),
        Edit::PlusOrder(true) => der(&fix(r + n()), &s),
        Edit::PlusOrder(false) => der(&r, &fix(s + n())),
        Edit::NegateR => der(&opposite(&r), &s),
        Edit::NegateS => der(&r, &opposite(&s)),
        Edit::Swap => der(&s, &r),
        Edit::Zero(true) => der(&BigUint::zero(), &s),
        Edit::Zero(false) => der(&r, &BigUint::zero()),
        Edit::PadInt(first) => {
            let (mut a, mut b) = (strict_body(&r), strict_body(&s));
            if *first { a.insert(0, 0) } else { b.insert(0, 0) }
            wrap([raw_int(&a), raw_int(&b)].concat())
        }
        Edit::LongLength(which, zeros) => {
            let long = |b: &[u8]| -> Vec<u8> {
                let k = 1 + (*zeros % 4) as usize;
                let mut l = vec![0x80 | k as u8];
                l.extend(vec![0; k - 1]);
                l.push(b.len() as u8);
                l
            };
            let (a, b) = (strict_body(&r), strict_body(&s));
            let int = |b: &[u8], l: bool| if l { [&[2][..], &long(b), b].concat() } else { raw_int(b) };
            let body = [int(&a, which % 3 == 1), int(&b, which % 3 == 2)].concat();
            if which % 3 == 0 { [&[0x30][..], &long(&body), &body].concat() } else { wrap(body) }
        }
        Edit::Trailing => wrap([sig[2..].to_vec(), vec![2, 1, 1]].concat()),
        Edit::Tag(k) => {
            let i = match k % 3 {
                0 => 0,
                1 => 2,
                _ => 4 + v[3] as usize,
            };
            v[i] ^= 1 << (k % 7);
            v
        }
        _ => v,
    }
}

fn edits() -> BoxedStrategy<Edit> {
    let b = any::<bool>;
    prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Flip(a, b)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Set(a, b)),
        1 => any::<u16>().prop_map(Edit::Drop),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::Insert(a, b)),
        1 => any::<u8>().prop_map(Edit::Append),
        1 => any::<u16>().prop_map(Edit::Cut),
        2 => any::<i8>().prop_map(Edit::AddR),
        2 => any::<i8>().prop_map(Edit::AddS),
        2 => b().prop_map(Edit::PlusOrder),
        1 => Just(Edit::NegateR),
        3 => Just(Edit::NegateS),
        1 => Just(Edit::Swap),
        1 => b().prop_map(Edit::Zero),
        2 => b().prop_map(Edit::PadInt),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Edit::LongLength(a, b)),
        1 => Just(Edit::Trailing),
        1 => any::<u8>().prop_map(Edit::Tag),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sign {
    key: Hex,
    msg: Hex,
    other_key: Hex,
    other_msg: Hex,
    edits: Vec<Edit>,
}

fn check_sign(c: &Sign, obs: &mut Obs) -> Result<(), String> {
    let pk = public(&c.key).ok_or("generator")?;
    let mut sigs = vec![];
    for b in BOTH {
        let sig = b.sign(&c.key, &c.msg)?;
        if c.msg.len() != 32 {
            ensure!(sig.is_err(), "{:?} back end signs {} bytes", b, c.msg.len());
            obs.class("wrong-length-message");
            continue;
        }
        let sig = sig.map_err(|e| format!("{:?} back end: signing fails: {}", b, e))?;
        let (r, s) = parse_der(&sig).ok_or_else(|| format!("{:?} back end: {} is not DER", b, hex::encode(&sig)))?;
        ensure!(is_low(&s), "{:?} back end: S of {} is high", b, hex::encode(&sig));
        let Key::Compressed(x, y) = parse_key(&pk) else { return Err("public key".into()) };
        ensure!(ecdsa(&Some((x, y)), &c.msg, &r, &s), "{:?} back end: {} does not sign {} under {}", b, hex::encode(&sig), hex::encode(&c.msg.0), hex::encode(&pk));
        let again = b.sign(&c.key, &c.msg)?;
        ensure!(again.as_ref() == Ok(&sig), "{:?} back end: signing twice gives {} and {:?}", b, hex::encode(&sig), again);
        sigs.push(sig);
    }
    if sigs.is_empty() {
        return verify_all(&pk, &c.msg, &der(&BigUint::one(), &BigUint::one()), obs).map(|_| ());
    }
    obs.nontrivial(true);
    // Messages that are not below the order hash to the same nonce only by convention.
    if BigUint::from_bytes_be(&c.msg) < *n() {
        ensure_eq!(hex::encode(&sigs[0]), hex::encode(&sigs[1]), "signatures of the C and Rust back ends for key {} and message {}", hex::encode(&c.key.0), hex::encode(&c.msg.0));
    }
    for sig in &sigs {
        ensure!(verify_all(&pk, &c.msg, sig, obs)? == Want::Same(true), "reference");
        for b in BOTH {
            let v = b.normalize(sig)?;
            ensure!(v.as_ref() == Ok(sig), "{:?} back end: normalising {} gives {:?}", b, hex::encode(sig), v.map(hex::encode));
        }
    }
    let sig = &sigs[0];
    // Another message, another key, the key's negative.
    verify_all(&pk, &c.other_msg, sig, obs)?;
    if let Some(other) = public(&c.other_key) {
        verify_all(&other, &c.msg, sig, obs)?;
    }
    let mut negative = pk.clone();
    negative[0] ^= 1;
    verify_all(&negative, &c.msg, sig, obs)?;
    let Key::Compressed(x, y) = parse_key(&pk) else { unreachable!() };
    verify_all(&uncompressed(&(x, y)), &c.msg, sig, obs)?;
    // Altered signatures.
    let mut altered = sig.clone();
    for e in &c.edits {
        altered = edit(&altered, e);
        let w = verify_all(&pk, &c.msg, &altered, obs)?;
        ensure!(altered == *sig || w != Want::Same(true), "reference accepts altered {}", hex::encode(&altered));
        check_normalize(&Norm { sig: Hex(altered.clone()), key: Some((Hex(pk.clone()), c.msg.clone())) }, obs)?;
    }
    Ok(())
}

// ---- normalisation ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Norm {
    sig: Hex,
    /// A key and message the numbers may be a signature for.
    key: Option<(Hex, Hex)>,
}

fn check_normalize(c: &Norm, obs: &mut Obs) -> Result<(), String> {
    let strict = parse_der(&c.sig);
    let lax = parse_lax(&c.sig);
    let good = |v: &Option<(BigUint, BigUint)>| v.as_ref().map_or(false, |(r, s)| !r.is_zero() && !s.is_zero() && r < n() && s < n());
    obs.nontrivial(lax.is_some());
    for b in BOTH {
        let out = match b.normalize(&c.sig)? {
            Ok(out) => out,
            Err(e) => {
                ensure!(!good(&strict), "{:?} back end: normalising {} fails: {}", b, hex::encode(&c.sig.0), e);
                continue;
            }
        };
        let what = || format!("{:?} back end: normalising {} gives {}", b, hex::encode(&c.sig.0), hex::encode(&out));
        let (r, s) = parse_der(&out).ok_or_else(|| format!("{}, which is not DER", what()))?;
        ensure!(is_low(&s), "{}, which has a high S", what());
        // Its meaning: the numbers it denotes, up to the sign of S.
        match (&strict, &lax) {
            (Some((r0, s0)), _) | (None, Some((r0, s0))) => {
                if good(&Some((r0.clone(), s0.clone()))) {
                    let again = b.normalize(&out)?;
                    ensure!(again.as_ref() == Ok(&out), "{}, which normalises to {:?}", what(), again.map(hex::encode));
                    ensure!(r == *r0 && s == low(s0), "{}, expected {}", what(), hex::encode(der(r0, &low(s0))));
                    obs.class(if strict.is_some() { "strict" } else { "lax" });
                } else if let Some((pk, msg)) = &c.key {
                    // Out of range: never valid, before or after.
                    let v = b.verify(pk, msg, &out)?;
                    ensure!(v != Ok(true), "{}, which verifies", what());
                    obs.class("out-of-range");
                }
            }
            (None, None) => obs.class("neither"),
        }
        if let Some((pk, msg)) = &c.key {
            let w = want(pk, msg, &out);
            if let Want::Same(v) = w {
                let got = b.verify(pk, msg, &out)?;
                ensure!(got == Ok(v), "{}, which verifies as {:?}, expected {}", what(), got, v);
            }
        }
    }
    Ok(())
}

// ---- crafted signatures: unusual numbers no signer would hit ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crafted {
    /// x of the nonce point: small, or at least the order.
    x_high: bool,
    x: u64,
    odd: bool,
    s: Hex,
    s_kind: u8,
    msg: Hex,
    msg_kind: u8,
    edits: Vec<Edit>,
}

fn check_crafted(c: &Crafted, obs: &mut Obs) -> Result<(), String> {
    // The next x on the curve.
    let base = if c.x_high { n().clone() } else { BigUint::zero() };
    let mut x = base + c.x;
    let point = loop {
        let fe = match Fe::from_be(&scalar_be(&x)) {
            Some(fe) => fe,
            None => return Ok(()),
        };
        if let Some(p) = lift_x(&fe, c.odd) {
            break Some(p);
        }
        x += 1u32;
    };
    let r = &x % n();
    if r.is_zero() {
        return Ok(());
    }
    let s = match c.s_kind % 4 {
        0 => BigUint::from_bytes_be(&c.s[..8]) + 1u32,
        1 => (n() - 1u32) / 2u32 - BigUint::from_bytes_be(&c.s[..2]),
        2 => (n() + 1u32) / 2u32 + BigUint::from_bytes_be(&c.s[..2]),
        _ => BigUint::from_bytes_be(&c.s) % (n() - 1u32) + 1u32,
    };
    let msg = match c.msg_kind % 5 {
        0 => vec![0; 32],
        1 => vec![0xff; 32],
        2 => scalar_be(n()).to_vec(),
        3 => scalar_be(&(n() + BigUint::from_bytes_be(&c.msg[..8]))).to_vec(),
        _ => c.msg.0.clone(),
    };
    // Q = (s R - z G) / r
    let ri = inv_n(&r);
    let z = BigUint::from_bytes_be(&msg) % n();
    let a = &s * &ri % n();
    let b = (n() - &z) * &ri % n();
    let Some(q) = combine(&a, &point, &b, &g()) else { return Ok(()) };
    let pk = compress(&q);
    let sig = der(&r, &s);
    obs.nontrivial(true);
    obs.class(if c.x_high { "x-above-order" } else { "small-r" });
    let w = verify_all(&pk, &msg, &sig, obs)?;
    ensure!(w == if is_low(&s) { Want::Same(true) } else { Want::Either }, "reference: {:?}", w);
    check_normalize(&Norm { sig: Hex(sig.clone()), key: Some((Hex(pk.clone()), Hex(msg.clone()))) }, obs)?;
    for b in BOTH {
        let out = b.normalize(&sig)?.map_err(|e| format!("{:?} back end: normalising {} fails: {}", b, hex::encode(&sig), e))?;
        ensure!(verify_all(&pk, &msg, &out, obs)? == Want::Same(true), "normalised {} is not valid", hex::encode(&out));
    }
    for e in &c.edits {
        verify_all(&pk, &msg, &edit(&sig, e), obs)?;
    }
    for first in [true, false] {
        verify_all(&pk, &msg, &edit(&sig, &Edit::PlusOrder(first)), obs)?;
    }
    Ok(())
}

// ---- malformed ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Malformed {
    pubkey: Hex,
    msg: Hex,
    sig: Hex,
}

fn check_malformed(c: &Malformed, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(parse_key(&c.pubkey) != Key::Bad || parse_lax(&c.sig).is_some());
    verify_all(&c.pubkey, &c.msg, &c.sig, obs)?;
    check_normalize(&Norm { sig: c.sig.clone(), key: None }, obs)
}

fn key32() -> BoxedStrategy<Hex> {
    prop_oneof![
        4 => vec(any::<u8>(), 32).prop_map(Hex),
        1 => (1u32..1000).prop_map(|v| Hex(scalar_be(&BigUint::from(v)).to_vec())),
        1 => (1u32..1000).prop_map(|v| Hex(scalar_be(&(n() - v)).to_vec())),
        1 => (0usize..256).prop_map(|b| Hex(scalar_be(&(BigUint::one() << b)).to_vec())),
    ]
    .boxed()
}

fn any_key() -> BoxedStrategy<Hex> {
    prop_oneof![
        4 => key32(),
        1 => (0u32..1000).prop_map(|v| Hex(scalar_be(&(n() + v)).to_vec())),
        1 => Just(Hex(vec![0; 32])),
        1 => Just(Hex(vec![0xff; 32])),
        2 => vec(any::<u8>(), 0..70).prop_map(Hex),
        1 => vec(any::<u8>(), 31..=33).prop_map(Hex),
    ]
    .boxed()
}

fn msg() -> BoxedStrategy<Hex> {
    prop_oneof![8 => vec(any::<u8>(), 32).prop_map(Hex), 1 => Just(Hex(vec![0; 32])), 1 => Just(Hex(vec![0xff; 32])), 1 => (0u32..3).prop_map(|v| Hex(scalar_be(&(n() + v - 1u32)).to_vec()))].boxed()
}

fn any_msg() -> BoxedStrategy<Hex> {
    prop_oneof![12 => msg(), 1 => vec(any::<u8>(), 0..70).prop_map(Hex), 1 => vec(any::<u8>(), 31..=33).prop_map(Hex)].boxed()
}

/// Bytes shaped like a DER signature.
fn der_like() -> BoxedStrategy<Hex> {
    let len = || prop_oneof![6 => Just(None), 1 => any::<u8>().prop_map(|b| Some(vec![b])), 1 => vec(any::<u8>(), 0..10).prop_map(|v| { let mut l = vec![0x80 | v.len() as u8]; l.extend(v); Some(l) })];
    let int = || (
        prop_oneof![12 => Just(2u8), 1 => any::<u8>()],
        len(),
        prop_oneof![
            4 => vec(any::<u8>(), 0..36),
            2 => vec(any::<u8>(), 32..=33),
            1 => (0u32..5).prop_map(|v| (n() + v - 2u32).to_bytes_be()),
            1 => (0u32..5).prop_map(|v| { let mut b = (n() + v - 2u32).to_bytes_be(); b.insert(0, 0); b }),
            1 => vec(Just(0u8), 0..4),
            1 => (vec(Just(0u8), 0..4), vec(any::<u8>(), 0..34)).prop_map(|(mut z, v)| { z.extend(v); z }),
        ],
    );
    let enc = |(tag, l, body): (u8, Option<Vec<u8>>, Vec<u8>)| {
        let mut v = vec![tag];
        v.extend(l.unwrap_or_else(|| vec![body.len() as u8]));
        v.extend(body);
        v
    };
    (prop_oneof![12 => Just(0x30u8), 1 => any::<u8>()], len(), int(), int(), prop_oneof![5 => Just(vec![]), 1 => vec(any::<u8>(), 0..4)], prop_oneof![8 => Just(None), 1 => any::<u16>().prop_map(Some)])
        .prop_map(move |(tag, l, a, b, tail, cut)| {
            let body = [enc(a), enc(b)].concat();
            let mut v = enc((tag, l, body));
            v.extend(tail);
            if let Some(k) = cut {
                v.truncate(k as usize % (v.len() + 1));
            }
            Hex(v)
        })
        .boxed()
}

fn pubkey_like() -> BoxedStrategy<Hex> {
    prop_oneof![
        3 => key32().prop_filter_map("valid", |k| public(&k).map(Hex)),
        2 => (any::<u8>(), vec(any::<u8>(), 32)).prop_map(|(b, mut v)| { v.insert(0, 2 + b % 2); Hex(v) }),
        1 => (0u8..8, vec(any::<u8>(), 32)).prop_map(|(b, mut v)| { v.insert(0, b); Hex(v) }),
        2 => (0u8..9, key32()).prop_filter_map("valid", |(b, k)| { let Key::Compressed(x, y) = parse_key(&public(&k)?) else { return None }; let mut v = uncompressed(&(x, y)); v[0] = b; Some(Hex(v)) }),
        1 => (0u8..9, vec(any::<u8>(), 64)).prop_map(|(b, mut v)| { v.insert(0, b); Hex(v) }),
        1 => (2u8..4, 0u32..2000).prop_map(|(b, d)| { let mut v = vec![b]; v.extend(scalar_be(&(p() + d % 977u32))); Hex(v) }),
        1 => (2u8..4, 0u32..2000).prop_map(|(b, d)| { let mut v = vec![b]; v.extend(scalar_be(&BigUint::from(d))); Hex(v) }),
        1 => vec(any::<u8>(), 0..70).prop_map(Hex),
    ]
    .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("keys: secret keys of every kind (random, edges of the group, out of range, wrong length) on both back ends; signatures: a key and message signed by both, verified by both and by an own secp256k1, and altered (another message, key, 17 kinds of edits to the signature); crafted: valid signatures with numbers no signer would hit (x of the nonce above the order, tiny r or s, S at the middle, messages above the order); malformed: byte strings shaped like keys and signatures; normalisation checked on every signature above; non-trivial: a valid key, a signed message, a crafted signature, something that parses as a key or signature.");
    ctx.suite("keys", 12_000, 200_000, any_key, check_key);
    let sign = || (key32().prop_filter("valid", |k| secret(k).is_some()), any_msg(), any_key(), any_msg(), vec(edits(), 1..6)).prop_map(|(key, msg, other_key, other_msg, edits)| Sign { key, msg, other_key, other_msg, edits });
    ctx.suite("signatures", 10_000, 250_000, sign, check_sign);
    let crafted = || (any::<bool>(), prop_oneof![0u64..1000, any::<u64>()], any::<bool>(), vec(any::<u8>(), 32), any::<u8>(), vec(any::<u8>(), 32), any::<u8>(), vec(edits(), 0..4)).prop_map(|(x_high, x, odd, s, s_kind, msg, msg_kind, edits)| Crafted { x_high, x, odd, s: Hex(s), s_kind, msg: Hex(msg), msg_kind, edits });
    ctx.suite("crafted", 10_000, 250_000, crafted, check_crafted);
    ctx.suite("malformed", 80_000, 2_500_000, || (pubkey_like(), prop_oneof![6 => any_msg(), 1 => bytes(40)], prop_oneof![5 => der_like(), 1 => bytes(80)]).prop_map(|(pubkey, msg, sig)| Malformed { pubkey, msg, sig }), check_malformed);
    (json!({"back_ends": ["c_ecc", "rust_ecc"]}), vec![
        "Whether the high-S twin of a valid signature, or a valid signature under an uncompressed key, verifies is left to the back end, except that the C back end never accepts a high S.",
        "Signatures of the two back ends are compared byte for byte only for messages below the group order.",
    ])
}
