//! C16: digests are the standard hash functions and hex forms are consistent.
use crate::model::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{ByteArray, Function, Hashed};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

macro_rules! each {
    ($f:ident, $($arg:expr),*) => {{
        $f::<bch::Sha1>("Sha1", Function::Sha1, 20, &refs::sha1, $($arg),*)?;
        $f::<bch::Ripemd160>("Ripemd160", Function::Ripemd160, 20, &refs::ripemd160, $($arg),*)?;
        $f::<bch::Sha256>("Sha256", Function::Sha256, 32, &refs::sha256, $($arg),*)?;
        $f::<bch::Sha256d>("Sha256d", Function::Hash256, 32, &refs::sha256d, $($arg),*)?;
        $f::<bch::Hash160>("Hash160", Function::Hash160, 20, &refs::hash160, $($arg),*)?;
    }};
}

type Reference<'a> = &'a dyn Fn(&[u8]) -> Vec<u8>;

fn forms<H: Hashed + Clone>(what: &str, h: &H, want: &[u8]) -> Result<(), String> {
    let mut rev = want.to_vec();
    rev.reverse();
    let (be, le) = (hex::encode(want), hex::encode(&rev));
    ensure_eq!(hex::encode(h.as_slice()), be, "{}: as_slice", what);
    ensure_eq!(h.to_hex_be(), be, "{}: to_hex_be", what);
    ensure_eq!(h.to_hex_le(), le, "{}: to_hex_le", what);
    ensure_eq!(hex::encode(h.to_vec_le()), le, "{}: to_vec_le", what);
    ensure_eq!(h.to_string(), le, "{}: display", what);
    ensure_eq!(h.as_byte_array().hex(), be, "{}: as_byte_array", what);
    ensure_eq!(h.clone().into_byte_array().hex(), be, "{}: into_byte_array", what);
    ensure!(format!("{:?}", h).ends_with(&format!("({})", le)), "{}: debug {:?}", what, h);
    let same = |r: bch::error::Result<H>, how: &str| match r {
        Ok(g) => {
            ensure!(g == *h && g.as_slice() == h.as_slice(), "{}: {} gives {:?} for {:?}", what, how, g, h);
            Ok(())
        }
        Err(e) => Err(format!("{}: {}: {}", what, how, e)),
    };
    same(H::from_slice(want), "from_slice")?;
    same(H::from_slice_le(&rev), "from_slice_le")?;
    same(H::from_hex_be(&be), "from_hex_be")?;
    same(H::from_hex_le(&le), "from_hex_le")?;
    same(H::from_hex_be(&be.to_uppercase()), "from_hex_be of upper case")?;
    same(H::from_hex_le(&le.to_uppercase()), "from_hex_le of upper case")?;
    same(H::from_byte_array(want.to_vec().into()), "from_byte_array")?;
    Ok(())
}

fn digest<H: Hashed + Clone>(what: &str, function: Function, _: usize, reference: Reference, msg: &ByteArray) -> Result<(), String> {
    let want = reference(msg);
    let h = H::digest(msg.clone());
    forms(what, &h, &want)?;
    ensure_eq!(hex::encode(H::digest_slice(msg)), hex::encode(&want), "{}: digest_slice", what);
    ensure_eq!(H::function(), function, "{}: function", what);
    let b = h.as_byte_array();
    ensure_eq!(b.function(), function, "{}: recorded function", what);
    match b.preimage() {
        Some([p]) => {
            ensure!(p[..] == msg[..], "{}: recorded message {}", what, truncate(&p.hex(), 200));
            ensure_eq!(p.name(), msg.name(), "{}: name of the recorded message", what);
            ensure_eq!(format!("{:?}", p.preimage()), format!("{:?}", msg.preimage()), "{}: origin of the recorded message", what);
        }
        p => return Err(format!("{}: recorded sources {:?}", what, p)),
    }
    let n = h.clone().named("n");
    ensure!(n == h && n.as_byte_array().name() == Some("n") && n.as_byte_array().function() == function, "{}: named", what);
    ensure!(n.as_byte_array().preimage().map_or(false, |p| p.len() == 1 && p[0][..] == msg[..]), "{}: named loses the message", what);
    let c = h.clone().concat(vec![1u8, 2]);
    ensure_eq!(c.hex(), format!("{}0102", hex::encode(&want)), "{}: concat", what);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    parts: Vec<Data>,
    named: bool,
}

fn check_msg(c: &Msg, obs: &mut Obs) -> Result<(), String> {
    let mut m = ByteArray::from_parts(c.parts.iter().map(|p| ByteArray::from(p.bytes())));
    if c.named {
        m = m.named("message");
    }
    obs.nontrivial(!m.is_empty());
    obs.class(match m.len() % 64 {
        55 | 56 | 57 | 63 | 0 | 1 => "block-edge",
        _ => "inside-block",
    });
    each!(digest, &m);
    Ok(())
}

fn values<H: Hashed + Clone>(what: &str, _: Function, len: usize, _: Reference, b: &[u8]) -> Result<(), String> {
    if b.len() == len {
        let h = H::from_slice(b).map_err(|e| format!("{}: from_slice: {}", what, e))?;
        return forms(what, &h, b);
    }
    for (how, r) in [
        ("from_slice", H::from_slice(b)),
        ("from_slice_le", H::from_slice_le(b)),
        ("from_byte_array", H::from_byte_array(b.to_vec().into())),
        ("from_hex_be", H::from_hex_be(&hex::encode(b))),
        ("from_hex_le", H::from_hex_le(&hex::encode(b))),
    ] {
        ensure!(r.is_err(), "{}: {} accepts {} bytes: {:?}", what, how, b.len(), r);
    }
    Ok(())
}

fn check_value(b: &Hex, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(true);
    obs.class(match b.len() {
        20 => "20-bytes",
        32 => "32-bytes",
        _ => "other-length",
    });
    each!(values, &b.0);
    if let Ok(a) = <[u8; 20]>::try_from(&b.0[..]) {
        forms("Sha1::new", &bch::Sha1::new(a), b)?;
        forms("Ripemd160::new", &bch::Ripemd160::new(a), b)?;
        forms("Hash160::new", &bch::Hash160::new(a), b)?;
    }
    if let Ok(a) = <[u8; 32]>::try_from(&b.0[..]) {
        forms("Sha256::new", &bch::Sha256::new(a), b)?;
        forms("Sha256d::new", &bch::Sha256d::new(a), b)?;
    }
    Ok(())
}

fn strings<H: Hashed + Clone>(what: &str, _: Function, len: usize, _: Reference, s: &str, ok: Option<&Vec<u8>>) -> Result<(), String> {
    let ok = ok.filter(|b| b.len() == len);
    let be = H::from_hex_be(s);
    let le = H::from_hex_le(s);
    match ok {
        Some(b) => {
            let mut rev = b.clone();
            rev.reverse();
            forms(what, &be.map_err(|e| format!("{}: from_hex_be({:?}): {}", what, s, e))?, b)?;
            forms(what, &le.map_err(|e| format!("{}: from_hex_le({:?}): {}", what, s, e))?, &rev)
        }
        None => {
            ensure!(be.is_err(), "{}: from_hex_be({:?}) = {:?}", what, s, be);
            ensure!(le.is_err(), "{}: from_hex_le({:?}) = {:?}", what, s, le);
            Ok(())
        }
    }
}

fn check_string(s: &String, obs: &mut Obs) -> Result<(), String> {
    let digits = s.bytes().all(|c| c.is_ascii_hexdigit()) && s.len() % 2 == 0;
    let bytes = if digits {
        Some((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>())
    } else {
        None
    };
    obs.class(if bytes.is_some() { "hex" } else { "not-hex" });
    obs.nontrivial(s.len() > 1);
    each!(strings, s, bytes.as_ref());
    Ok(())
}

/// Hex of a proper length with something before, behind or between its digits.
pub fn decorated() -> BoxedStrategy<String> {
    let around = || prop_oneof![
        4 => Just(""), 2 => Just("0x"), 1 => Just("0X"), 1 => Just("x"), 1 => Just("#"), 1 => Just("$"), 1 => Just("+"), 1 => Just("-"), 1 => Just(" "),
        1 => Just("  "), 1 => Just("\t"), 1 => Just("\n"), 1 => Just("\r\n"), 1 => Just("\0"), 1 => Just("\""), 1 => Just("'"), 1 => Just("h"), 1 => Just("00"), 1 => Just("0"),
        1 => Just("\u{feff}"), 1 => Just(";"), 1 => Just("="), 1 => Just("sha256:"),
    ];
    let between = prop_oneof![6 => Just(""), 1 => Just(":"), 1 => Just(" "), 1 => Just("_"), 1 => Just("-"), 1 => Just("\n"), 1 => Just(",")];
    (around(), prop_oneof!["[0-9a-f]{40}", "[0-9a-f]{64}", "[0-9A-F]{40}", "[0-9a-f]{66}"], between, prop_oneof![Just(2usize), Just(4), Just(8), Just(20)], around())
        .prop_map(|(a, s, sep, every, b)| {
            let mut out = a.to_string();
            for (i, c) in s.chars().enumerate() {
                if i > 0 && i % every == 0 {
                    out.push_str(sep);
                }
                out.push(c);
            }
            out + b
        })
        .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("lengths: every message length 0..=260 and block-edge lengths and others up to 1 MiB; messages: random bytes in up to four named parts; values: byte strings of every length around 20 and 32 as digests; strings: hex of both cases with stray characters, odd lengths, prefixes, suffixes and separators; digests compared with own implementations of the hash functions, all forms and constructors with each other; non-trivial: message not empty, string longer than one character, any value.");
    ctx.enumerate("lengths", (0usize..=260).chain([511, 512, 513, 567, 568, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 8192, 16384, 32767, 65535, 65536, 65537, 100_000, 262_144, 1_048_576]).map(|n| Msg { parts: vec![Data::B(Hex((0..n).map(|i| (i * 7 + n) as u8).collect()))], named: n % 2 == 0 }), check_msg);
    ctx.suite("messages", 40_000, 600_000, || (vec(data(false), 0..4), any::<bool>()).prop_map(|(parts, named)| Msg { parts, named }), check_msg);
    ctx.suite("values", 100_000, 1_500_000, || prop_oneof![3 => vec(any::<u8>(), 20), 3 => vec(any::<u8>(), 32), 1 => vec(any::<u8>(), 0..70), 1 => vec(any::<u8>(), 19..=21), 1 => vec(any::<u8>(), 31..=33)].prop_map(Hex), check_value);
    ctx.suite("strings", 150_000, 2_000_000, || prop_oneof![
        2 => "[0-9a-fA-F]{40}", 2 => "[0-9a-fA-F]{64}", 1 => "[0-9a-f]{38,42}", 1 => "[0-9a-f]{62,66}",
        1 => ("[0-9a-f]{40}", any::<prop::sample::Index>(), any::<char>()).prop_map(|(s, i, c)| { let mut v: Vec<char> = s.chars().collect(); let k = i.index(v.len()); v[k] = c; v.into_iter().collect() }),
        1 => ("0x[0-9a-f]{38}| [0-9a-f]{39}|[0-9a-f]{40}\n"),
        2 => decorated(),
        1 => any::<String>(),
    ], check_string);
    (json!({}), vec![])
}
