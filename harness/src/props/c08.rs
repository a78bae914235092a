//! C08: CashAddr encoding is correct and reversible.
use crate::model::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{Address, AddressType, Hashed};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Source {
    Hash(Hex),
    Key(Hex),
    Redeem(MScript),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    prefix: String,
    p2sh: bool,
    source: Source,
    other_prefix: String,
}

pub fn prefix() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just("bitcoincash".to_string()),
        2 => Just("simpleledger".to_string()),
        1 => Just("bchtest".to_string()),
        1 => Just("bchreg".to_string()),
        1 => Just("bitcoincas".to_string()),
        1 => Just("bitcoincashx".to_string()),
        4 => "[a-z]{1,20}",
        // Letters are not the only characters of a prefix.
        2 => "[a-z0-9]{1,20}",
        1 => "[a-z0-9 !-/;-@\\[-`{-~]{1,20}",
    ]
    .boxed()
}

fn kind_of(prefix: &str) -> Option<bch::Prefix> {
    match prefix {
        "bitcoincash" => Some(bch::Prefix::BitcoinCash),
        "simpleledger" => Some(bch::Prefix::SimpleLedger),
        _ => None,
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn matches(a: &Address, prefix: &str, p2sh: bool, hash: &[u8], text: &str, what: &str) -> Result<(), String> {
    ensure_eq!(a.cash_addr(), text, "{}: text", what);
    ensure_eq!(a.hash().as_slice(), hash, "{}: hash", what);
    ensure_eq!(a.addr_type(), if p2sh { AddressType::P2SH } else { AddressType::P2PKH }, "{}: type", what);
    ensure_eq!(a.prefix_str(), prefix, "{}: prefix", what);
    ensure_eq!(a.prefix_kind(), kind_of(prefix), "{}: prefix kind", what);
    Ok(())
}

/// A copy that owns its text is the address it was made from, however that was written.
fn owned_same(a: &Address, what: &str) -> Result<(), String> {
    let kind = |a: &Address| (a.hash().as_slice().to_vec(), a.addr_type(), a.prefix_str().to_string(), a.prefix_kind(), a.cash_addr().to_string());
    for (b, how) in [(a.to_owned_address(), "to_owned_address"), (a.clone().into_owned_address(), "into_owned_address")] {
        ensure_eq!(kind(&b), kind(a), "{} of an address {}", how, what);
        ensure!(b == *a && hash_of(&b) == hash_of(a), "{} of an address {} differs from it", how, what);
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let (hash, p2sh) = match &c.source {
        Source::Hash(h) => (h.0.clone(), c.p2sh),
        Source::Key(k) => (refs::hash160(k), false),
        Source::Redeem(s) => (refs::hash160(&script_bytes(s)), true),
    };
    obs.nontrivial(hash.iter().any(|b| *b != 0));
    obs.class(match &c.source {
        Source::Hash(_) => "hash",
        Source::Key(_) => "key",
        Source::Redeem(_) => "redeem",
    });
    obs.class_if(kind_of(&c.prefix).is_none(), "custom-prefix");
    let version = if p2sh { 8 } else { 0 };
    let text = refs::cashaddr(&c.prefix, version, &hash);
    let kind = if p2sh { AddressType::P2SH } else { AddressType::P2PKH };
    let a: Address = match &c.source {
        Source::Hash(h) => Address::from_hash(c.prefix.as_str(), kind, bch::Hash160::from_slice(h).unwrap()),
        Source::Key(k) => Address::from_pk(c.prefix.as_str(), &bch::Pubkey::from_slice(k)),
        Source::Redeem(s) => Address::from_redeem_script(c.prefix.as_str(), script(s)).map_err(|e| e.to_string())?,
    };
    matches(&a, &c.prefix, p2sh, &hash, &text, "constructed")?;
    if let Some(k) = kind_of(&c.prefix) {
        let b = Address::from_hash(k, kind, bch::Hash160::from_slice(&hash).unwrap());
        matches(&b, &c.prefix, p2sh, &hash, &text, "constructed from a known prefix")?;
        ensure!(a == b, "addresses under the same prefix differ");
        ensure_eq!(k.prefix_str(), c.prefix.as_str(), "prefix name");
        ensure_eq!(bch::Prefix::from_prefix_str(&c.prefix), Some(k), "prefix kind");
    } else {
        ensure_eq!(bch::Prefix::from_prefix_str(&c.prefix), None, "prefix kind");
    }
    let b = Address::from_hash(c.prefix.clone(), kind, bch::Hash160::from_slice(&hash).unwrap());
    matches(&b, &c.prefix, p2sh, &hash, &text, "constructed from an owned prefix")?;
    // Parsing.
    let p = Address::from_cash_addr(text.as_str()).map_err(|e| format!("own encoding {} rejected: {}", text, e))?;
    matches(&p, &c.prefix, p2sh, &hash, &text, "parsed")?;
    ensure!(p == a && hash_of(&p) == hash_of(&a), "parsed address differs from the original");
    owned_same(&p, "parsed")?;
    let upper = text.to_uppercase();
    let p = Address::from_cash_addr(upper.clone()).map_err(|e| format!("{} rejected: {}", upper, e))?;
    ensure_eq!((p.hash().as_slice(), p.addr_type(), p.prefix_str(), p.prefix_kind()), (&hash[..], kind, c.prefix.as_str(), kind_of(&c.prefix)), "parsed from upper case");
    matches(&p.with_prefix(c.prefix.as_str()), &c.prefix, p2sh, &hash, &text, "re-encoded from upper case")?;
    let bare = text.split(':').nth(1).unwrap();
    for bare in [bare.to_string(), bare.to_uppercase()] {
        match (Address::from_cash_addr(bare.clone()), c.prefix == "bitcoincash") {
            (Ok(p), true) => {
                obs.class("without-prefix");
                ensure_eq!((p.hash().as_slice(), p.addr_type(), p.prefix_str(), p.prefix_kind()), (&hash[..], kind, "bitcoincash", Some(bch::Prefix::BitcoinCash)), "parsed without prefix");
                owned_same(&p, "parsed without prefix")?;
            }
            (Err(e), true) => return Err(format!("{} rejected: {}", bare, e)),
            (Ok(_), false) => return Err(format!("{} of prefix {} accepted without its prefix", bare, c.prefix)),
            (Err(_), false) => {}
        }
    }
    // Other prefix.
    let other = a.with_prefix(c.other_prefix.as_str());
    matches(&other, &c.other_prefix, p2sh, &hash, &refs::cashaddr(&c.other_prefix, version, &hash), "with_prefix")?;
    let back = other.with_prefix(c.prefix.as_str());
    matches(&back, &c.prefix, p2sh, &hash, &text, "prefix changed back")?;
    // Owned copies.
    owned_same(&a, "constructed")?;
    owned_same(&other, "under another prefix")?;
    let owned = a.to_owned_address();
    matches(&owned, &c.prefix, p2sh, &hash, &text, "to_owned_address")?;
    ensure!(owned == a && hash_of(&owned) == hash_of(&a), "owned copy differs");
    let owned = a.clone().into_owned_address();
    matches(&owned, &c.prefix, p2sh, &hash, &text, "into_owned_address")?;
    ensure!(owned == a, "owned address differs");
    Ok(())
}

fn strategy() -> BoxedStrategy<Case> {
    let hash = prop_oneof![
        4 => vec(any::<u8>(), 20),
        // A single bit: every position of the payload on its own.
        2 => (0usize..160).prop_map(|i| { let mut v = vec![0; 20]; v[i / 8] = 1 << (i % 8); v }),
        1 => any::<u8>().prop_map(|b| vec![b; 20]),
    ];
    let source = prop_oneof![
        4 => hash.prop_map(|h| Source::Hash(Hex(h))),
        1 => vec(any::<u8>(), 33).prop_map(|h| Source::Key(Hex(h))),
        1 => mscript(6, false).prop_map(Source::Redeem),
    ];
    (prefix(), any::<bool>(), source, prefix())
        .prop_map(|(prefix, p2sh, source, other_prefix)| Case { prefix, p2sh, source, other_prefix })
        .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("addresses: known and random prefixes (letters, digits and punctuation), both types, random and single-bit hashes, keys and redeem scripts, compared with a reference CashAddr encoder and parsed back in lower case, upper case and without prefix; non-trivial if the hash is not all zero.");
    ctx.suite("addresses", 200_000, 3_000_000, strategy, check);
    let mut bits = Vec::new();
    for prefix in ["bitcoincash", "simpleledger", "bchtest", "p"] {
        for p2sh in [false, true] {
            for i in 0..160 {
                let mut v = vec![0; 20];
                v[i / 8] = 1 << (i % 8);
                bits.push(Case { prefix: prefix.into(), p2sh, source: Source::Hash(Hex(v)), other_prefix: "simpleledger".into() });
            }
        }
    }
    ctx.enumerate("single-bits", bits, check);
    (json!({}), vec!["The reference CashAddr encoder in harness/src/refs.rs; it reproduces the published test vectors."])
}
