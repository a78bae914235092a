//! C26: printed forms identify what they print.
use crate::builder::*;
use crate::model::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::Hashed;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

/// Reads one printed operation; what it denotes, apart from how a push is encoded.
#[derive(Clone, Debug, PartialEq)]
enum Read {
    Code(u8),
    Invalid(u8),
    Push(Vec<u8>),
    Bool(bool),
    Int(i64),
}

fn digits(s: &str) -> Option<Vec<u8>> {
    let val = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        _ => None,
    };
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2).map(|p| Some(val(p[0])? << 4 | val(p[1])?)).collect()
}

fn decimal(s: &str) -> Option<i64> {
    let v: i64 = s.parse().ok()?;
    // The only spelling of that number.
    (v.to_string() == s).then_some(v)
}

fn opcode_byte(name: &str) -> Option<u8> {
    (0..=255u8).find(|b| refs::opcode_name(*b) == Some(name))
}

fn read(word: &str) -> Result<Read, String> {
    let bad = || format!("{:?} is no printed operation", truncate(word, 200));
    if let Some(h) = word.strip_prefix("0x") {
        return digits(h).map(Read::Push).ok_or_else(bad);
    }
    match word {
        "OP_TRUE" => return Ok(Read::Bool(true)),
        "OP_FALSE" => return Ok(Read::Bool(false)),
        _ => {}
    }
    if let Some(b) = opcode_byte(word) {
        return Ok(Read::Code(b));
    }
    if let Some(v) = decimal(word) {
        return Ok(Read::Int(v));
    }
    match digits(word).as_deref() {
        Some([b]) => Ok(Read::Invalid(*b)),
        _ => Err(bad()),
    }
}

fn read_debug(s: &str) -> Result<(Read, Option<bool>), String> {
    let bad = || format!("{:?} is no printed operation", truncate(s, 200));
    let inner = |head: &str| s.strip_prefix(head).and_then(|r| r.strip_suffix(')'));
    if let Some(n) = inner("Code(") {
        return Ok((Read::Code(opcode_byte(n).ok_or_else(bad)?), None));
    }
    if let Some(n) = inner("Invalid(0x") {
        return match digits(n).as_deref() {
            Some([b]) => Ok((Read::Invalid(*b), None)),
            _ => Err(bad()),
        };
    }
    if let Some(n) = inner("PushBoolean(") {
        return n.parse().map(|b| (Read::Bool(b), None)).map_err(|_| bad());
    }
    if let Some(n) = inner("PushInteger(") {
        return Ok((Read::Int(decimal(n).ok_or_else(bad)?), None));
    }
    // The hex digits and the marker are looked for, not the notation around them.
    let body = s.strip_prefix("PushByteArray").ok_or_else(bad)?;
    let hex = body.split('"').nth(1).ok_or_else(bad)?;
    let minimal = match (body.contains("is_minimal: true"), body.contains("is_minimal: false")) {
        (true, false) => true,
        (false, true) => false,
        _ => return Err(bad()),
    };
    Ok((Read::Push(digits(hex).ok_or_else(bad)?), Some(minimal)))
}

fn denotes(op: &MOp) -> Read {
    match op {
        MOp::Code(b) => Read::Code(*b),
        MOp::Invalid(b) => Read::Invalid(*b),
        MOp::Push(d, _) => Read::Push(d.bytes()),
        MOp::Bool(b) => Read::Bool(*b),
        MOp::Int(i) => Read::Int(*i as i64),
    }
}

fn read_script(text: &str) -> Result<Vec<Read>, String> {
    text.split_whitespace().map(read).collect()
}

fn check_script(s: &MScript, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(!s.is_empty());
    for o in s {
        obs.class(o.class());
        let op = o.op();
        let text = op.to_string();
        ensure!(!text.contains(char::is_whitespace), "operation printed as {:?}", truncate(&text, 200));
        ensure_eq!(read(&text)?, denotes(o), "printed operation {:?}", truncate(&text, 200));
        let (got, minimal) = read_debug(&format!("{:?}", op))?;
        ensure_eq!(got, denotes(o), "debug form of an operation");
        if let (MOp::Code(b), bch::Op::Code(code)) = (o, &op) {
            ensure_eq!(code.to_string(), refs::opcode_name(*b).unwrap_or("?"), "printed opcode {:#04x}", b);
        }
        if let MOp::Push(_, m) = o {
            ensure_eq!(minimal, Some(*m), "minimal marker in the debug form");
        }
    }
    let want: Vec<Read> = s.iter().map(denotes).collect();
    let made = script(s);
    ensure_eq!(read_script(&made.to_string())?, want, "printed script");
    ensure_eq!(read_script(&tagged_script(s).script().to_string())?, want, "printed script with tags");
    // What was decoded from the wire prints what it means.
    let back = bch::Script::deser_ops(script_bytes(s).into()).map_err(|e| e.to_string())?;
    let got: Vec<Meaning> = read_script(&back.to_string())?
        .into_iter()
        .map(|r| match r {
            Read::Code(b) | Read::Invalid(b) => code_meaning(b),
            Read::Push(d) => Meaning::Push(d),
            Read::Bool(b) => Meaning::Push(if b { vec![1] } else { vec![] }),
            Read::Int(i) => Meaning::Push(refs::script_num(i as i128)),
        })
        .collect();
    ensure!(got == script_meanings(s), "printed decoded script {}", truncate(&back.to_string(), 400));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Value {
    data: Hex,
    name: u8,
    int: i32,
}

fn is_number(r: &bch::IntegerResult) -> bool {
    <i32 as std::convert::TryFrom<bch::IntegerResult>>::try_from(*r).is_ok()
}

fn check_value(c: &Value, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(true);
    let d = &c.data.0;
    let plain = bch::ByteArray::from_slice_unnamed(d);
    let named = plain.clone().named(format!("n{}", c.name));
    let (a, b) = d.split_at(c.name as usize % (d.len() + 1));
    let joined = bch::ByteArray::from_slice("left", a).concat(bch::ByteArray::from_slice_unnamed(b));
    for array in [plain, named, joined] {
        let text = array.to_string();
        ensure_eq!(digits(&text), Some(d.clone()), "printed byte array {:?}", truncate(&text, 200));
    }
    let i = bch::Integer::new(c.int).map_err(|e| e.to_string())?;
    ensure_eq!(decimal(&i.to_string()), Some(c.int as i64), "printed integer {}", i);
    let ok: bch::IntegerResult = i.into();
    ensure_eq!(decimal(&ok.to_string()), Some(c.int as i64), "printed integer result {}", ok);
    let most = bch::Integer::new(i32::MAX).map_err(|e| e.to_string())?;
    let least = bch::Integer::new(-i32::MAX).map_err(|e| e.to_string())?;
    for failed in [i / 0, i % 0, if c.int > 0 { most + i } else { least + i } + most * 2, (most * most) - i, least - 1] {
        if !is_number(&failed) {
            ensure!(decimal(&failed.to_string()).is_none(), "a failed computation is printed as the number {}", failed);
        }
    }

    // Hashes are printed in reversed byte order, keys in theirs.
    fn within(text: &str, hex: &str) -> bool {
        text.matches(hex).count() == 1 && text.len() < hex.len() + 16
    }
    let fill = |n: usize| -> Vec<u8> { d.iter().cycle().copied().chain(std::iter::repeat(c.name)).take(if d.is_empty() { 0 } else { n }).chain(std::iter::repeat(c.name)).take(n).collect() };
    macro_rules! hash {
        ($t:ident, $n:expr) => {{
            let bytes = fill($n);
            let h = bch::$t::from_slice(&bytes).map_err(|e| e.to_string())?;
            let mut want = bytes.clone();
            want.reverse();
            ensure_eq!(digits(&h.to_string()), Some(want.clone()), concat!("printed ", stringify!($t)));
            let debug = format!("{:?}", h);
            ensure!(debug.starts_with(stringify!($t)) && within(&debug, &hex::encode(&want)), "debug form {}", debug);
            // What is printed can be given back.
            let back = bch::$t::from_hex_le(&h.to_string()).map_err(|e| e.to_string())?;
            ensure_eq!(back.as_slice().to_vec(), bytes, concat!("printed ", stringify!($t), " read back"));
        }};
    }
    hash!(Sha1, 20);
    hash!(Ripemd160, 20);
    hash!(Sha256, 32);
    hash!(Sha256d, 32);
    hash!(Hash160, 20);
    let mut key = [c.name; 33];
    key.copy_from_slice(&fill(33));
    key[0] = 2 + (key[0] & 1);
    let p = bch::Pubkey::from_slice_checked(&key).ok_or("no key")?;
    ensure_eq!(digits(&p.to_string()), Some(key.to_vec()), "printed key");
    ensure!(within(&format!("{:?}", p), &hex::encode(key)), "debug form of a key {:?}", p);
    Ok(())
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("Operations of every kind, scripts of up to 40 of them (as made, with tags, and decoded from the wire), byte arrays with and without names and parts, integers, hashes and keys, printed and read back by an independent reader; a script is non-trivial if it has an operation, the other values all are.");
    let one = (0..=255u8)
        .map(|b| if refs::opcode_name(b).is_some() { MOp::Code(b) } else { MOp::Invalid(b) })
        .filter(|o| !matches!(o, MOp::Code(1..=0x4b)) && *o != MOp::Invalid(0xbd))
        .filter(|o| !matches!(o, MOp::Invalid(0..=0x4b)))
        .chain((0..=255u8).flat_map(|b| [true, false].map(|m| MOp::Push(Data::B(Hex(vec![b])), m))))
        .chain((-300..=300).map(MOp::Int))
        .chain([true, false].map(MOp::Bool))
        .chain([true, false].map(|m| MOp::Push(Data::B(Hex(vec![])), m)))
        // The prefixes of data pushes are no operations of their own.
        .filter(|o| !matches!(o, MOp::Code(0x4c..=0x4e)))
        .map(|o| vec![o]);
    ctx.enumerate("operations", one, check_script);
    ctx.suite("scripts", 10_000, 300_000, || mscript(40, false), check_script);
    ctx.suite("long", 300, 6_000, || mscript(12, true), check_script);
    ctx.suite(
        "values",
        20_000,
        600_000,
        || {
            let bytes = |n: std::ops::Range<usize>| proptest::collection::vec(prop_oneof![Just(0u8), Just(0x0f), any::<u8>()], n);
            (prop_oneof![20 => bytes(0..80), 1 => bytes(80..3000)], any::<u8>(), script_int())
                .prop_map(|(d, name, int)| Value { data: Hex(d), name, int })
        },
        check_value,
    );
    (json!({}), vec!["The format is not specified elsewhere: it is what the current tree prints, read liberally (notation around the values in debug forms is not compared)."])
}
