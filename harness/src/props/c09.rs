//! C09: address parsing accepts only valid addresses and never crashes.
use crate::props::c08::prefix;
use crate::refs;
use crate::runner::*;
use bitcoin_cash::{Address, AddressType, Hashed};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text(String);

fn check(c: &Text, obs: &mut Obs) -> Result<(), String> {
    let s = &c.0;
    let want = refs::cashaddr_parse(s, "bitcoincash");
    let payload = s.rsplit(':').next().unwrap_or("");
    obs.nontrivial(payload.len() >= 8 && payload.to_ascii_lowercase().bytes().all(|b| refs::CASHADDR_CHARSET.bytes().any(|c| c == b)));
    obs.class(if want.is_some() { "valid" } else { "invalid" });
    match (Address::from_cash_addr(s.clone()), want) {
        (Ok(a), Some((prefix, version, hash))) => {
            ensure_eq!(a.prefix_str(), prefix, "prefix of {:?}", s);
            ensure_eq!(a.hash().as_slice(), &hash[..], "hash of {:?}", s);
            ensure_eq!(a.addr_type(), if version == 8 { AddressType::P2SH } else { AddressType::P2PKH }, "type of {:?}", s);
            ensure_eq!(a.cash_addr(), s, "text");
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(a), None) => Err(format!("{:?} is not a valid address but parses as {:?}", s, a)),
        (Err(e), Some(_)) => Err(format!("{:?} is a valid address but is rejected: {}", s, e)),
    }
}

/// Payload values of any length with a correct checksum.
fn forged() -> BoxedStrategy<String> {
    let free = (prefix(), vec(0u8..32, 0..60));
    let near = (prefix(), vec(0u8..32, 33..=35), prop_oneof![Just(0u8), Just(1u8), 0u8..32])
        .prop_map(|(p, mut v, t)| { v[0] = t; (p, v) });
    // A proper version byte and bytes of some length, or with the padding changed.
    let lens = prop_oneof![6 => Just(20usize), 2 => Just(19), 2 => Just(21), 1 => Just(24), 1 => Just(28), 1 => Just(32), 2 => 0usize..70];
    let sized = (prefix(), prop_oneof![3 => Just(0u8), 3 => Just(8), 2 => 0u8..=17, 1 => any::<u8>()], lens.prop_flat_map(|n| vec(any::<u8>(), n)), prop_oneof![5 => Just(0u8), 2 => 0u8..32])
        .prop_map(|(p, version, hash, pad)| {
            let mut b = vec![version];
            b.extend(hash);
            let mut v = refs::to_base32_values(&b);
            let unused = v.len() * 5 - b.len() * 8;
            let n = v.len();
            v[n - 1] |= pad & ((1u16 << unused) - 1) as u8;
            (p, v)
        });
    let lone = (prop_oneof![Just(String::new()), prefix().prop_map(|p| p + ":"), (prefix(), prefix()).prop_map(|(p, q)| p + ":" + &q), prefix().prop_map(|p| ":".to_string() + &p)], prop_oneof![Just(0u8), Just(8)], vec(any::<u8>(), 20))
        .prop_map(|(p, version, hash)| {
            let mut b = vec![version];
            b.extend(hash);
            (p, refs::to_base32_values(&b))
        });
    prop_oneof![1 => free, 1 => near, 4 => sized, 1 => lone]
        .prop_map(|(p, v)| refs::cashaddr_from_values(&p, &v))
        .boxed()
}

fn valid() -> BoxedStrategy<String> {
    (prefix(), any::<bool>(), vec(any::<u8>(), 20))
        .prop_map(|(p, s, h)| refs::cashaddr(&p, if s { 8 } else { 0 }, &h))
        .boxed()
}

#[derive(Clone, Debug)]
enum Edit {
    Letter(prop::sample::Index, u8),
    Char(prop::sample::Index, char),
    Insert(prop::sample::Index, char),
    Delete(prop::sample::Index),
    Upper(prop::sample::Index),
    AllUpper,
    PayloadUpper,
    NoPrefix,
    Prefix(String),
    Swap(prop::sample::Index),
}

fn edit() -> BoxedStrategy<Edit> {
    let i = || any::<prop::sample::Index>();
    let ch = || prop_oneof![Just(':'), Just('1'), Just('b'), Just('i'), Just('o'), Just(' '), Just('\0'), Just('K'), Just('\u{212a}'), Just('\u{130}'), Just('ſ'), any::<char>()];
    prop_oneof![
        4 => (i(), 0u8..32).prop_map(|(i, b)| Edit::Letter(i, b)),
        1 => (i(), ch()).prop_map(|(i, c)| Edit::Char(i, c)),
        1 => (i(), ch()).prop_map(|(i, c)| Edit::Insert(i, c)),
        1 => i().prop_map(Edit::Delete),
        1 => i().prop_map(Edit::Upper),
        1 => Just(Edit::AllUpper),
        1 => Just(Edit::PayloadUpper),
        1 => Just(Edit::NoPrefix),
        1 => prefix().prop_map(Edit::Prefix),
        1 => i().prop_map(Edit::Swap),
    ]
    .boxed()
}

fn apply(s: String, edits: &[Edit]) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for e in edits {
        let n = c.len();
        if n == 0 {
            break;
        }
        let colon = c.iter().position(|x| *x == ':').map_or(0, |p| p + 1);
        match e {
            Edit::Letter(i, b) if colon < n => {
                let k = colon + i.index(n - colon);
                c[k] = refs::CASHADDR_CHARSET.as_bytes()[*b as usize] as char
            }
            Edit::Letter(..) => {}
            Edit::Char(i, x) => c[i.index(n)] = *x,
            Edit::Insert(i, x) => c.insert(i.index(n + 1), *x),
            Edit::Delete(i) => {
                c.remove(i.index(n));
            }
            Edit::Upper(i) => {
                let k = i.index(n);
                c[k] = c[k].to_ascii_uppercase()
            }
            Edit::AllUpper => c.iter_mut().for_each(|x| *x = x.to_ascii_uppercase()),
            Edit::PayloadUpper => c[colon..].iter_mut().for_each(|x| *x = x.to_ascii_uppercase()),
            Edit::NoPrefix => {
                c.drain(..colon);
            }
            Edit::Prefix(p) => {
                let rest: Vec<char> = c[colon..].to_vec();
                c = p.chars().chain([':']).chain(rest).collect()
            }
            Edit::Swap(i) => {
                let k = i.index(n);
                c.swap(k, (k + 1) % n)
            }
        }
    }
    c.into_iter().collect()
}

/// Up to five letters of a valid address replaced by different ones.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Typo {
    text: String,
    errors: Vec<(u8, u8)>,
}

fn check_typo(c: &Typo, obs: &mut Obs) -> Result<(), String> {
    let mut b = c.text.clone().into_bytes();
    let colon = c.text.find(':').unwrap() + 1;
    let cs = refs::CASHADDR_CHARSET.as_bytes();
    let mut changed = std::collections::BTreeSet::new();
    for (at, add) in &c.errors {
        let k = colon + *at as usize % (b.len() - colon);
        if !changed.insert(k) {
            continue;
        }
        let v = cs.iter().position(|x| *x == b[k]).unwrap();
        b[k] = cs[(v + 1 + *add as usize % 31) % 32];
    }
    obs.nontrivial(true);
    obs.class(["", "1-error", "2-errors", "3-errors", "4-errors", "5-errors"][changed.len()]);
    let s = String::from_utf8(b).unwrap();
    match Address::from_cash_addr(s.as_str()) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{} with {} wrong letters is accepted as {}", c.text, changed.len(), s)),
    }
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("strings: forged payloads of any length, version and padding with correct checksums, also under empty prefixes and ones with a colon, valid addresses with up to three edits (letters, foreign and non-ASCII characters, case, prefix), random text; each is parsed by the library and by a strict reference and the verdicts and contents must agree; non-trivial if the part after the colon consists of at least eight base32 letters. typos: one to five wrong letters must be rejected.");
    ctx.suite("strings", 400_000, 5_000_000, || {
        prop_oneof![
            4 => forged(),
            4 => (prop_oneof![3 => valid(), 1 => forged()], vec(edit(), 0..4)).prop_map(|(s, e)| apply(s, &e)),
            1 => any::<String>(),
            1 => "[qpzry9x8gf2tvdw0s3jn54khce6mua7l]{0,60}",
            1 => "[a-z:]{0,20}:?[qpzry9x8gf2tvdw0s3jn54khce6mua7l]{0,50}",
        ]
        .prop_map(Text)
    }, check);
    ctx.suite("typos", 200_000, 3_000_000, || (valid(), vec(any::<(u8, u8)>(), 1..=5)).prop_map(|(text, errors)| Typo { text, errors }), check_typo);
    let fixed = ["", ":", "::", "bitcoincash:", ":q", "q", "qqqqqqqq", "bitcoincash:qqqqqqqqq"].iter().map(|s| Text(s.to_string()));
    // Every payload length with a correct checksum.
    let lengths = (0..64).flat_map(|n| {
        ["bitcoincash", "", "x"].iter().map(move |p| Text(refs::cashaddr_from_values(p, &vec![0; n])))
    });
    ctx.enumerate("lengths", fixed.chain(lengths), check);
    (json!({}), vec!["Prefixes are taken as they are (any characters before the first colon); the strict reference parser in harness/src/refs.rs."])
}
