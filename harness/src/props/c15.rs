//! C15: serialised values load back equal, malformed documents are rejected cleanly.
use crate::model::*;
use crate::props::c08::prefix;
use crate::props::c14;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, ByteArray, Hashed, Script};
use bitcoin_cash_slp as slp;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;

type Fixed4Le = bch::FixedByteArrayLE<[u8; 4]>;
type Fixed20Be = bch::FixedByteArrayBE<[u8; 20]>;
type Fixed32Be = bch::FixedByteArrayBE<[u8; 32]>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Val {
    Tx(MTx),
    Unhashed(MTx),
    In(MIn),
    Out(MOut),
    Outpoint(Hex, u32),
    Script(MScript),
    Address(String, bool, Hex),
    Pubkey(Hex),
    Hash20(u8, Hex),
    Hash32(u8, Hex),
    Fixed4(Hex),
    Bytes(Data, Option<String>),
    Int(i32),
    UInt(i32),
    Flags(u32),
    Unsigned(Hex, u32, u32, u64),
    InputRef(u8),
    TokenId(Hex),
    Small(u8),
    SlpTx(MTx, Vec<(u64, bool, u8)>, Option<Hex>, usize),
    SlpUtxo(Hex, u32, u64, (u64, bool, u8), Option<Hex>),
    TokenMeta(String, String, String, Hex, u8, u8),
}

fn wire(s: &MScript) -> Script {
    Script::deser_ops(script_bytes(s).into()).expect("well-formed")
}

fn wire_in(i: &MIn) -> bch::TxInput {
    let mut x = i.input();
    x.script = wire(&i.script);
    x.lock_script = i.lock_script.as_ref().map(wire);
    x
}

fn wire_out(o: &MOut) -> bch::TxOutput {
    bch::TxOutput { value: o.value, script: wire(&o.script) }
}

fn wire_tx(t: &MTx) -> bch::UnhashedTx {
    bch::UnhashedTx { version: t.version, inputs: t.inputs.iter().map(wire_in).collect(), outputs: t.outputs.iter().map(wire_out).collect(), lock_time: t.lock_time }
}

const ACTIONS: [slp::SlpAction; 12] = [
    slp::SlpAction::NonSlp, slp::SlpAction::NonSlpBurn, slp::SlpAction::SlpParseError, slp::SlpAction::SlpUnsupportedVersion,
    slp::SlpAction::SlpV1Genesis, slp::SlpAction::SlpV1Mint, slp::SlpAction::SlpV1Send, slp::SlpAction::SlpNft1GroupGenesis,
    slp::SlpAction::SlpNft1GroupMint, slp::SlpAction::SlpNft1GroupSend, slp::SlpAction::SlpNft1UniqueChildGenesis, slp::SlpAction::SlpNft1UniqueChildSend,
];
const TYPES: [slp::SlpTokenType; 3] = [slp::SlpTokenType::Fungible, slp::SlpTokenType::Nft1Child, slp::SlpTokenType::Nft1Group];

fn token(t: &(u64, bool, u8)) -> slp::SlpToken {
    slp::SlpToken { amount: t.0, is_mint_baton: t.1, action: ACTIONS[t.2 as usize % ACTIONS.len()] }
}

fn slp_tx(t: &MTx, tokens: &[(u64, bool, u8)], id: &Option<Hex>, index: usize) -> slp::SlpTx {
    let tok = |i: usize| if tokens.is_empty() { Default::default() } else { token(&tokens[i % tokens.len()]) };
    slp::SlpTx {
        version: t.version,
        inputs: t.inputs.iter().enumerate().map(|(i, x)| slp::SlpTxInput { index: index.wrapping_add(i), token: tok(i), input: wire_in(x), prev_script: x.lock_script.as_ref().map(wire).unwrap_or_else(|| wire(&x.script)) }).collect(),
        outputs: t.outputs.iter().enumerate().map(|(i, x)| slp::SlpTxOutput { token: tok(i + t.inputs.len()), output: wire_out(x) }).collect(),
        lock_time: t.lock_time,
        slp_data: id.as_ref().map(|h| slp::SlpData { token_id: slp::TokenId::from_hash(hash32(h)) }),
        tx_hash: hash32(&refs::sha256d(&t.encode())),
    }
}

struct Forms {
    json: String,
    bin: Vec<u8>,
}

/// Saves and loads `v` in both formats; `eq` decides equality.
fn both<T: Serialize + DeserializeOwned + std::fmt::Debug>(what: &str, v: &T, eq: impl Fn(&T, &T) -> bool) -> Result<Forms, String> {
    let json = serde_json::to_string(v).map_err(|e| format!("{}: to JSON: {}", what, e))?;
    let back: T = serde_json::from_str(&json).map_err(|e| format!("{}: from JSON {}: {}", what, truncate(&json, 600), e))?;
    ensure!(eq(v, &back), "{}: {:?} loads from JSON {} as {:?}", what, v, truncate(&json, 600), back);
    let value = serde_json::to_value(v).map_err(|e| format!("{}: to a JSON value: {}", what, e))?;
    let back: T = serde_json::from_value(value).map_err(|e| format!("{}: from a JSON value: {}", what, e))?;
    ensure!(eq(v, &back), "{}: {:?} loads from a JSON value as {:?}", what, v, back);
    let pretty = serde_json::to_string_pretty(v).map_err(|e| e.to_string())?;
    let back: T = serde_json::from_reader(pretty.as_bytes()).map_err(|e| format!("{}: from a JSON reader: {}", what, e))?;
    ensure!(eq(v, &back), "{}: {:?} loads from a JSON reader as {:?}", what, v, back);
    let bin = bincode::serialize(v).map_err(|e| format!("{}: to binary: {}", what, e))?;
    let back: T = bincode::deserialize(&bin).map_err(|e| format!("{}: from binary: {}", what, e))?;
    ensure!(eq(v, &back), "{}: {:?} loads from binary as {:?}", what, v, back);
    Ok(Forms { json, bin })
}

fn same_script(a: &Script, b: &Script) -> bool {
    same_ops(&ops_of(a), &ops_of(b))
}

fn same_input(a: &bch::TxInput, b: &bch::TxInput) -> bool {
    a == b && same_script(&a.script, &b.script) && match (&a.lock_script, &b.lock_script) {
        (None, None) => true,
        (Some(x), Some(y)) => same_script(x, y),
        _ => false,
    }
}

fn same_unhashed(a: &bch::UnhashedTx, b: &bch::UnhashedTx) -> bool {
    a == b && a.inputs.iter().zip(&b.inputs).all(|(x, y)| same_input(x, y)) && a.outputs.iter().zip(&b.outputs).all(|(x, y)| same_script(&x.script, &y.script))
}

fn same_json<T: Serialize>(a: &T, b: &T) -> bool {
    serde_json::to_string(a).ok() == serde_json::to_string(b).ok()
}

fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn shown(what: &str, f: &Forms, want: &str) -> Result<(), String> {
    ensure_eq!(f.json, serde_json::to_string(want).unwrap(), "{} in JSON", what);
    Ok(())
}

fn reversed(b: &[u8]) -> String {
    let mut b = b.to_vec();
    b.reverse();
    hex::encode(b)
}

fn forms(c: &Val) -> Result<Forms, String> {
    Ok(match c {
        Val::Tx(t) => both("Tx", &wire_tx(t).hashed(), |a, b| a == b && same_unhashed(a.unhashed_tx(), b.unhashed_tx()) && a.hash() == b.hash() && a.raw() == b.raw())?,
        Val::Unhashed(t) => both("UnhashedTx", &wire_tx(t), same_unhashed)?,
        Val::In(i) => both("TxInput", &wire_in(i), same_input)?,
        Val::Out(o) => both("TxOutput", &wire_out(o), |a, b| a == b && same_script(&a.script, &b.script))?,
        Val::Outpoint(h, n) => both("TxOutpoint", &bch::TxOutpoint { tx_hash: hash32(h), vout: *n }, eq)?,
        Val::Script(s) => {
            // Built scripts come back as the operations their bytes denote.
            let built = script(s);
            both("built Script", &built, |a, b| a.ser_ops() == b.ser_ops() && meanings(a) == meanings(b))?;
            let f = both("Script", &wire(s), |a, b| a == b && same_script(a, b))?;
            shown("a script", &f, &hex::encode(var_bytes(&script_bytes(s))))?;
            f
        }
        Val::Address(p, p2sh, h) => {
            let kind = if *p2sh { bch::AddressType::P2SH } else { bch::AddressType::P2PKH };
            let a = bch::Address::from_hash(p.clone(), kind, bch::Hash160::from_slice(h).unwrap());
            let f = both("Address", &a.into_owned_address(), |a, b| a == b && a.hash() == b.hash() && a.addr_type() == b.addr_type() && a.prefix_str() == b.prefix_str() && a.cash_addr() == b.cash_addr())?;
            shown("an address", &f, &refs::cashaddr(p, if *p2sh { 8 } else { 0 }, h))?;
            f
        }
        Val::Pubkey(k) => {
            let f = both("Pubkey", &bch::Pubkey::from_slice(k), eq)?;
            shown("a public key", &f, &hex::encode(&k.0))?;
            f
        }
        Val::Hash20(t, h) => {
            let f = match t % 3 {
                0 => both("Sha1", &bch::Sha1::from_slice(h).unwrap(), eq)?,
                1 => both("Ripemd160", &bch::Ripemd160::from_slice(h).unwrap(), eq)?,
                _ => both("Hash160", &bch::Hash160::from_slice(h).unwrap(), eq)?,
            };
            shown("a hash", &f, &reversed(h))?;
            let g = both("big-endian 20 bytes", &Fixed20Be::from_slice_unnamed(h).unwrap(), eq)?;
            shown("big-endian 20 bytes", &g, &hex::encode(&h.0))?;
            f
        }
        Val::Hash32(t, h) => {
            let f = match t % 2 {
                0 => both("Sha256", &bch::Sha256::from_slice(h).unwrap(), eq)?,
                _ => both("Sha256d", &bch::Sha256d::from_slice(h).unwrap(), eq)?,
            };
            shown("a hash", &f, &reversed(h))?;
            let g = both("big-endian 32 bytes", &Fixed32Be::from_slice_unnamed(h).unwrap(), eq)?;
            shown("big-endian 32 bytes", &g, &hex::encode(&h.0))?;
            f
        }
        Val::Fixed4(h) => {
            let f = both("little-endian 4 bytes", &Fixed4Le::from_slice_unnamed(h).unwrap(), eq)?;
            shown("little-endian 4 bytes", &f, &reversed(h))?;
            f
        }
        Val::Bytes(d, n) => {
            let b = ByteArray::new_unnamed(d.bytes());
            let b = match n {
                Some(n) => b.named(n.clone()),
                None => b,
            };
            let f = both("ByteArray", &b, eq)?;
            shown("a byte array", &f, &hex::encode(d.bytes()))?;
            f
        }
        Val::Int(v) => both("Integer", &bch::Integer::new(*v).unwrap(), |a, b| a.value() == b.value())?,
        Val::UInt(v) => both("UInteger", &bch::UInteger::new(*v).unwrap(), |a, b| a.value() == b.value())?,
        Val::Flags(f) => both("SigHashFlags", &flags(*f), eq)?,
        Val::Unsigned(h, n, sequence, value) => both("UnsignedTxInput", &bch::UnsignedTxInput { prev_out: bch::TxOutpoint { tx_hash: hash32(h), vout: *n }, sequence: *sequence, value: *value }, eq)?,
        Val::InputRef(n) => {
            both("InputReference", &bch::InputReference::<()>::new(*n as usize), eq)?
        }
        Val::TokenId(h) => {
            let f = both("TokenId", &slp::TokenId::from_hash(hash32(h)), eq)?;
            shown("a token id", &f, &reversed(h))?;
            f
        }
        Val::Small(n) => {
            both("AddressType", &if n % 2 == 0 { bch::AddressType::P2PKH } else { bch::AddressType::P2SH }, eq)?;
            both("SlpTokenType", &TYPES[*n as usize % 3], |a, b| *a as u8 == *b as u8)?;
            both("SlpAction", &ACTIONS[*n as usize % 12], eq)?;
            both("Function", &c14::FUNCTIONS[*n as usize % 12], eq)?
        }
        Val::SlpTx(t, tokens, id, index) => {
            let v = slp_tx(t, tokens, id, *index);
            for i in &v.inputs {
                both("SlpTxInput", i, |a, b| same_json(a, b) && same_input(&a.input, &b.input) && a.index == b.index && a.token == b.token && a.prev_script == b.prev_script)?;
            }
            for o in &v.outputs {
                both("SlpTxOutput", o, |a, b| same_json(a, b) && a.token == b.token && a.output == b.output)?;
            }
            both("SlpTx", &v, |a, b| {
                same_json(a, b) && a.version == b.version && a.lock_time == b.lock_time && a.tx_hash == b.tx_hash
                    && a.slp_data.as_ref().map(|d| d.token_id.clone()) == b.slp_data.as_ref().map(|d| d.token_id.clone())
                    && same_unhashed(&a.clone().into_unhashed_tx(), &b.clone().into_unhashed_tx())
            })?
        }
        Val::SlpUtxo(h, n, value, t, id) => {
            let v = slp::SlpUtxo {
                input: bch::UnsignedTxInput { prev_out: bch::TxOutpoint { tx_hash: hash32(h), vout: *n }, sequence: *n, value: *value },
                slp_token: token(t),
                slp_data: id.as_ref().map(|h| slp::SlpData { token_id: slp::TokenId::from_hash(hash32(h)) }),
            };
            both("SlpToken", &v.slp_token, eq)?;
            both("SlpUtxo", &v, |a, b| same_json(a, b) && a.input == b.input && a.slp_token == b.slp_token)?
        }
        Val::TokenMeta(t, n, u, h, d, ty) => {
            let v = slp::TokenMeta { ticker: t.clone(), name: n.clone(), document_url: u.clone(), document_hash: h.0.clone(), decimals: *d, slp_token_type: TYPES[*ty as usize % 3] };
            both("TokenMeta", &v, |a, b| {
                a.ticker == b.ticker && a.name == b.name && a.document_url == b.document_url && a.document_hash == b.document_hash && a.decimals == b.decimals && a.slp_token_type as u8 == b.slp_token_type as u8
            })?
        }
    })
}

fn variant(c: &Val) -> &'static str {
    match c {
        Val::Tx(_) => "Tx",
        Val::Unhashed(_) => "UnhashedTx",
        Val::In(_) => "TxInput",
        Val::Out(_) => "TxOutput",
        Val::Outpoint(..) => "TxOutpoint",
        Val::Script(_) => "Script",
        Val::Address(..) => "Address",
        Val::Pubkey(_) => "Pubkey",
        Val::Hash20(..) => "20-byte-hash",
        Val::Hash32(..) => "32-byte-hash",
        Val::Fixed4(_) => "FixedByteArray",
        Val::Bytes(..) => "ByteArray",
        Val::Int(_) => "Integer",
        Val::UInt(_) => "UInteger",
        Val::Flags(_) => "SigHashFlags",
        Val::Unsigned(..) => "UnsignedTxInput",
        Val::InputRef(_) => "InputReference",
        Val::TokenId(_) => "TokenId",
        Val::Small(_) => "enums",
        Val::SlpTx(..) => "SlpTx",
        Val::SlpUtxo(..) => "SlpUtxo",
        Val::TokenMeta(..) => "TokenMeta",
    }
}

fn check_value(c: &Val, obs: &mut Obs) -> Result<(), String> {
    obs.class(variant(c));
    obs.nontrivial(true);
    forms(c).map(|_| ())
}

// ---- malformed documents ----

type Probe = fn(&Input) -> Result<bool, String>;

enum Input<'a> {
    Json(&'a str),
    Bin(&'a [u8]),
}

/// Loads a `T`; if that succeeds the value must obey `rule` and itself survive saving and loading.
fn probe<T: Serialize + DeserializeOwned>(input: &Input, rule: impl Fn(&T) -> Result<(), String>) -> Result<bool, String> {
    let v: T = match input {
        Input::Json(s) => match serde_json::from_str(s) {
            Ok(v) => v,
            Err(_) => return Ok(false),
        },
        Input::Bin(b) => match bincode::deserialize(b) {
            Ok(v) => v,
            Err(_) => return Ok(false),
        },
    };
    rule(&v)?;
    let json = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    let again: T = serde_json::from_str(&json).map_err(|e| format!("saved as {}, does not load: {}", truncate(&json, 500), e))?;
    ensure_eq!(serde_json::to_string(&again).map_err(|e| e.to_string())?, json, "saved and loaded again");
    Ok(true)
}

fn ok<T>(_: &T) -> Result<(), String> {
    Ok(())
}

fn hash_rule<H: Hashed>(n: usize) -> impl Fn(&H) -> Result<(), String> {
    move |h| {
        ensure!(h.as_slice().len() == n, "a hash of {} bytes", h.as_slice().len());
        Ok(())
    }
}

fn fixed_rule<T, H>(n: usize) -> impl Fn(&bch::FixedByteArray<T, H>) -> Result<(), String> {
    move |h| {
        ensure!(h.as_ref().len() == n, "a {}-byte array of {} bytes", n, h.as_ref().len());
        Ok(())
    }
}

fn input_rule(i: &bch::TxInput) -> Result<(), String> {
    hash_rule::<bch::Sha256d>(32)(&i.prev_out.tx_hash)?;
    i.ser();
    Ok(())
}

fn tx_rule(t: &bch::UnhashedTx) -> Result<(), String> {
    t.inputs.iter().try_for_each(input_rule)?;
    t.ser();
    Ok(())
}

fn int_rule(v: i32, unsigned: bool) -> Result<(), String> {
    ensure!(v != i32::MIN && !(unsigned && v < 0), "an out-of-range integer {}", v);
    Ok(())
}

const PROBES: &[(&str, Probe)] = &[
    ("Tx", |i| probe::<bch::Tx>(i, |t| tx_rule(t.unhashed_tx()))),
    ("UnhashedTx", |i| probe(i, tx_rule)),
    ("TxInput", |i| probe(i, input_rule)),
    ("TxOutput", |i| probe::<bch::TxOutput>(i, |o| { o.ser(); Ok(()) })),
    ("TxOutpoint", |i| probe::<bch::TxOutpoint>(i, |o| hash_rule::<bch::Sha256d>(32)(&o.tx_hash))),
    ("Script", |i| probe::<Script>(i, |s| { s.ser(); Ok(()) })),
    ("Address", |i| match i {
        // The binary form takes any prefix; whether the text form reads back is C08's and C09's.
        Input::Bin(b) => Ok(bincode::deserialize::<bch::Address>(b).is_ok()),
        _ => probe::<bch::Address<'static>>(i, |a| hash_rule::<bch::Hash160>(20)(a.hash())),
    }),
    ("Pubkey", |i| probe::<bch::Pubkey>(i, ok)),
    ("Sha1", |i| probe(i, hash_rule::<bch::Sha1>(20))),
    ("Ripemd160", |i| probe(i, hash_rule::<bch::Ripemd160>(20))),
    ("Hash160", |i| probe(i, hash_rule::<bch::Hash160>(20))),
    ("Sha256", |i| probe(i, hash_rule::<bch::Sha256>(32))),
    ("Sha256d", |i| probe(i, hash_rule::<bch::Sha256d>(32))),
    ("Fixed4", |i| probe::<Fixed4Le>(i, fixed_rule(4))),
    ("Fixed20", |i| probe::<Fixed20Be>(i, fixed_rule(20))),
    ("Fixed32", |i| probe::<Fixed32Be>(i, fixed_rule(32))),
    ("ByteArray", |i| probe::<ByteArray>(i, ok)),
    ("Integer", |i| probe::<bch::Integer>(i, |v| int_rule(v.value(), false))),
    ("UInteger", |i| probe::<bch::UInteger>(i, |v| int_rule(v.value(), true))),
    ("SigHashFlags", |i| probe::<bch::SigHashFlags>(i, ok)),
    ("UnsignedTxInput", |i| probe::<bch::UnsignedTxInput>(i, ok)),
    ("InputReference", |i| probe::<bch::InputReference<u8>>(i, ok)),
    ("TokenId", |i| probe::<slp::TokenId>(i, |t| hash_rule::<bch::Sha256d>(32)(t.hash()))),
    ("SlpTx", |i| probe::<slp::SlpTx>(i, |t| { t.inputs.iter().try_for_each(|i| input_rule(&i.input))?; tx_rule(&t.clone().into_unhashed_tx()) })),
    ("SlpUtxo", |i| probe::<slp::SlpUtxo>(i, ok)),
    ("TokenMeta", |i| probe::<slp::TokenMeta>(i, ok)),
    ("Function", |i| probe::<bch::Function>(i, ok)),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// Replace the n-th node of the document.
    Set(u16, Scalar),
    Drop(u16),
    Duplicate(u16),
    Nudge(u16, i64),
    Chop(u16, u8),
    Char(u16, char),
    Text(u16, char),
    Cut(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Scalar {
    Null,
    Bool(bool),
    Num(i64),
    Big(u64),
    Float(f64),
    Str(String),
    Empty(bool),
}

impl Scalar {
    fn value(&self) -> serde_json::Value {
        match self {
            Scalar::Null => json!(null),
            Scalar::Bool(b) => json!(b),
            Scalar::Num(n) => json!(n),
            Scalar::Big(n) => json!(n),
            Scalar::Float(f) => json!(f),
            Scalar::Str(s) => json!(s),
            Scalar::Empty(true) => json!([]),
            Scalar::Empty(false) => json!({}),
        }
    }
}

fn count(v: &serde_json::Value) -> usize {
    1 + match v {
        serde_json::Value::Array(a) => a.iter().map(count).sum(),
        serde_json::Value::Object(m) => m.values().map(count).sum(),
        _ => 0,
    }
}

fn node<'a>(v: &'a mut serde_json::Value, n: &mut usize) -> Option<&'a mut serde_json::Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        serde_json::Value::Array(a) => a.iter_mut().find_map(|x| {
            let c = count(x);
            if *n < c { node(x, n) } else { *n -= c; None }
        }),
        serde_json::Value::Object(m) => m.values_mut().find_map(|x| {
            let c = count(x);
            if *n < c { node(x, n) } else { *n -= c; None }
        }),
        _ => None,
    }
}

fn edit(doc: &str, edits: &[Edit]) -> String {
    let mut v: serde_json::Value = serde_json::from_str(doc).expect("a JSON document");
    let mut tail: Vec<&Edit> = vec![];
    for e in edits {
        let total = count(&v);
        let at = |n: &u16| *n as usize * total / 65536;
        match e {
            Edit::Set(n, s) => {
                let mut i = at(n);
                if let Some(x) = node(&mut v, &mut i) {
                    *x = s.value()
                }
            }
            Edit::Drop(n) | Edit::Duplicate(n) => {
                let drop = matches!(e, Edit::Drop(_));
                // The nearest container at or after that node.
                for k in 0..total {
                    let mut i = (at(n) + k) % total;
                    match node(&mut v, &mut i) {
                        Some(serde_json::Value::Array(a)) if !a.is_empty() => {
                            let j = *n as usize % a.len();
                            if drop { a.remove(j); } else { let x = a[j].clone(); a.insert(j, x) }
                            break;
                        }
                        Some(serde_json::Value::Object(m)) if !m.is_empty() => {
                            let key = m.keys().nth(*n as usize % m.len()).unwrap().clone();
                            if drop { m.remove(&key); } else { let x = m[&key].clone(); m.insert(format!("{}x", key), x); }
                            break;
                        }
                        _ => {}
                    }
                }
            }
            Edit::Nudge(n, d) => {
                for k in 0..total {
                    let mut i = (at(n) + k) % total;
                    if let Some(x) = node(&mut v, &mut i) {
                        if let Some(m) = x.as_i64() {
                            *x = json!(m.wrapping_add(*d));
                            break;
                        }
                    }
                }
            }
            Edit::Chop(n, c) => {
                for k in 0..total {
                    let mut i = (at(n) + k) % total;
                    if let Some(serde_json::Value::String(s)) = node(&mut v, &mut i) {
                        for _ in 0..*c {
                            s.pop();
                        }
                        break;
                    }
                }
            }
            Edit::Char(n, c) => {
                for k in 0..total {
                    let mut i = (at(n) + k) % total;
                    if let Some(serde_json::Value::String(s)) = node(&mut v, &mut i) {
                        let mut chars: Vec<char> = s.chars().collect();
                        if chars.is_empty() {
                            chars.push(*c)
                        } else {
                            let j = *n as usize % chars.len();
                            if *n % 3 == 0 { chars.insert(j, *c) } else { chars[j] = *c }
                        }
                        *s = chars.into_iter().collect();
                        break;
                    }
                }
            }
            Edit::Text(..) | Edit::Cut(_) => tail.push(e),
        }
    }
    let mut s = v.to_string();
    for e in tail {
        let chars: Vec<char> = s.chars().collect();
        match e {
            Edit::Text(n, c) => {
                let mut chars = chars;
                let j = *n as usize * chars.len() / 65536;
                if j < chars.len() {
                    chars[j] = *c
                }
                s = chars.into_iter().collect()
            }
            Edit::Cut(n) => s = chars[..*n as usize * chars.len() / 65536].iter().collect(),
            _ => {}
        }
    }
    s
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Doc {
    val: Val,
    edits: Vec<Edit>,
    bin: Vec<(u16, u8, u8)>,
}

fn check_doc(c: &Doc, obs: &mut Obs) -> Result<(), String> {
    let f = forms(&c.val)?;
    let text = edit(&f.json, &c.edits);
    let mut bytes = f.bin.clone();
    for (n, b, how) in &c.bin {
        let j = *n as usize * (bytes.len() + 1) / 65536;
        match how % 5 {
            0 if j < bytes.len() => bytes[j] = *b,
            1 if j < bytes.len() => { bytes.remove(j); }
            2 => bytes.insert(j, *b),
            3 if j < bytes.len() => bytes[j] ^= 1 << (b % 8),
            _ => bytes.truncate(j),
        }
    }
    obs.class(variant(&c.val));
    obs.nontrivial(text != f.json || bytes != f.bin);
    for (name, p) in PROBES {
        let t = text.clone();
        match no_panic(|| p(&Input::Json(&t))) {
            Ok(Ok(loaded)) => obs.class_if(loaded, "loads"),
            Ok(Err(e)) => return Err(format!("{} from JSON {}: {}", name, truncate(&text, 800), e)),
            Err(e) => return Err(format!("{} from JSON {} panics: {}", name, truncate(&text, 800), e)),
        }
        match no_panic(|| p(&Input::Bin(&bytes))) {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => return Err(format!("{} from binary {}: {}", name, truncate(&hex::encode(&bytes), 800), e)),
            Err(e) => return Err(format!("{} from binary {} panics: {}", name, truncate(&hex::encode(&bytes), 800), e)),
        }
    }
    Ok(())
}

fn tree_weight(b: &ByteArray, left: &mut usize) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    for p in b.preimage().unwrap_or(&[]) {
        tree_weight(p, left)
    }
}

fn after_import(tx: &bch::UnhashedTx) -> Result<(), String> {
    tx_rule(tx)?;
    // A document may share sources in a way that writing out again would expand without bound.
    let mut left = 3000;
    for s in tx.inputs.iter().flat_map(|i| std::iter::once(&i.script).chain(&i.lock_script)).chain(tx.outputs.iter().map(|o| &o.script)) {
        for op in s.ops_arc().iter() {
            if let bch::Op::PushByteArray { array, .. } = &op.op {
                tree_weight(array, &mut left)
            }
        }
    }
    for i in &tx.inputs {
        tree_weight(i.prev_out.tx_hash.as_byte_array(), &mut left)
    }
    if left > 0 {
        c14::check_tx(tx)?;
    }
    Ok(())
}

fn check_txdoc(c: &(c14::RTx, Vec<Edit>), obs: &mut Obs) -> Result<(), String> {
    let doc = bch::tx_to_json(&c.0.build()).map_err(|e| e.to_string())?;
    let text = edit(&doc, &c.1);
    obs.nontrivial(text != doc);
    match no_panic(|| bch::json_to_tx(&text)) {
        Err(e) => Err(format!("importing {} panics: {}", truncate(&text, 1500), e)),
        Ok(Err(_)) => {
            obs.class("rejected");
            Ok(())
        }
        Ok(Ok(tx)) => {
            obs.class("accepted");
            after_import(&tx).map_err(|e| format!("importing {}: {}", truncate(&text, 1500), e))
        }
    }
}

/// References between the byte arrays of a transaction document: index of the data and of the sources.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refs {
    data: usize,
    arrays: Vec<(usize, Vec<usize>)>,
    used: usize,
}

fn check_refs(c: &Refs, obs: &mut Obs) -> Result<(), String> {
    let n = c.arrays.len();
    let arrays: Vec<serde_json::Value> = c.arrays.iter().map(|(d, p)| if p.is_empty() { json!(d) } else { json!([d, "Plain", null, p]) }).collect();
    let data: Vec<String> = (0..c.data).map(|i| ["AA==", "AQ==", "AgI=", "", "AwMD"][i % 5].to_string()).collect();
    let doc = json!({
        "data": {"data_b64": data, "byte_arrays": arrays, "strings": ["f"]},
        "version": 1, "inputs": [], "lock_time": 0,
        "outputs": [{"value": 1, "script": [{
            "op": {"PushByteArray": {"array_idx": c.used, "is_minimal": true}},
            "src_file": 0, "src_line": 0, "src_column": 0, "src_code": [], "pushed_names": null, "alt_pushed_names": null
        }]}],
    })
    .to_string();
    let ordered = c.used < n && c.arrays.iter().enumerate().all(|(i, (d, p))| *d < c.data && p.iter().all(|x| *x < i));
    // Is a dangling index or a cycle reachable from what is used?
    let mut state = vec![0u8; n];
    let mut bad = false;
    let mut stack = vec![(c.used, 0usize)];
    if c.used >= n {
        bad = true;
        stack.clear();
    } else {
        state[c.used] = 1;
    }
    while let Some((i, k)) = stack.pop() {
        if c.arrays[i].0 >= c.data {
            bad = true
        }
        match c.arrays[i].1.get(k) {
            None => state[i] = 2,
            Some(&j) => {
                stack.push((i, k + 1));
                if j >= n || state[j] == 1 {
                    bad = true;
                    if j >= n { continue }
                } else if state[j] == 0 {
                    state[j] = 1;
                    stack.push((j, 0));
                }
            }
        }
    }
    obs.nontrivial(n >= 2);
    obs.class(if bad { "dangling-or-cyclic" } else if ordered { "well-formed" } else { "other" });
    let r = no_panic(|| bch::json_to_tx(&doc)).map_err(|e| format!("importing {} panics: {}", truncate(&doc, 1500), e))?;
    match r {
        Ok(tx) => {
            ensure!(!bad, "importing {} succeeds", truncate(&doc, 1500));
            let ops = ops_of(&tx.outputs[0].script);
            let want = [vec![0u8], vec![1], vec![2, 2], vec![], vec![3, 3, 3]][c.arrays[c.used].0 % 5].clone();
            match &ops[..] {
                [bch::Op::PushByteArray { array, .. }] => {
                    ensure!(array[..] == want[..], "loaded {:?}, expected {:?}", array, want);
                    ensure_eq!(array.preimage().map_or(0, |p| p.len()), c.arrays[c.used].1.len(), "number of sources");
                }
                o => return Err(format!("loaded {:?}", o)),
            }
        }
        Err(e) => ensure!(!ordered || n > 500, "importing {}: {}", truncate(&doc, 1500), e),
    }
    Ok(())
}

fn scalar() -> BoxedStrategy<Scalar> {
    prop_oneof![
        1 => Just(Scalar::Null),
        1 => any::<bool>().prop_map(Scalar::Bool),
        4 => prop_oneof![-2i64..30, Just(i64::MIN), Just(i64::MAX), Just(1 << 31), Just(-(1 << 31)), Just((1 << 31) - 1), Just(1 << 32), any::<i64>()].prop_map(Scalar::Num),
        1 => prop_oneof![Just(u64::MAX), any::<u64>()].prop_map(Scalar::Big),
        1 => prop_oneof![Just(1.5), Just(1e300), Just(-0.0)].prop_map(Scalar::Float),
        4 => prop_oneof![
            vec(any::<u8>(), 0..70).prop_map(hex::encode), "[0-9a-f]{0,70}", "[A-Za-z0-9+/=]{0,12}", any::<String>(),
            prop::sample::select(vec!["", "Plain", "Sha256", "Hash160", "zz", "P2PKH", "Fungible", "bitcoincash:", "00", "0"]).prop_map(str::to_string),
        ].prop_map(Scalar::Str),
        1 => any::<bool>().prop_map(Scalar::Empty),
    ]
    .boxed()
}

fn edits() -> BoxedStrategy<Vec<Edit>> {
    let ch = || prop_oneof![prop::sample::select(vec!['0', 'f', 'g', ' ', '"', ',', '[', '}', '-', '.', 'é', 'A', '=', ':']), any::<char>()];
    vec(
        prop_oneof![
            4 => (any::<u16>(), scalar()).prop_map(|(n, s)| Edit::Set(n, s)),
            2 => any::<u16>().prop_map(Edit::Drop),
            2 => any::<u16>().prop_map(Edit::Duplicate),
            3 => (any::<u16>(), prop_oneof![-3i64..=3, Just(1 << 31), Just(i64::MAX)]).prop_map(|(n, d)| Edit::Nudge(n, d)),
            3 => (any::<u16>(), 1u8..5).prop_map(|(n, c)| Edit::Chop(n, c)),
            3 => (any::<u16>(), ch()).prop_map(|(n, c)| Edit::Char(n, c)),
            1 => (any::<u16>(), ch()).prop_map(|(n, c)| Edit::Text(n, c)),
            1 => any::<u16>().prop_map(Edit::Cut),
        ],
        1..4,
    )
    .boxed()
}

fn val() -> BoxedStrategy<Val> {
    let tok = || (u64_edge(), any::<bool>(), any::<u8>());
    let h20 = || vec(any::<u8>(), 20).prop_map(Hex);
    prop_oneof![
        2 => mtx(3, false).prop_map(Val::Tx),
        2 => mtx(3, false).prop_map(Val::Unhashed),
        2 => min(4, false).prop_map(Val::In),
        2 => mout(4, false).prop_map(Val::Out),
        1 => (txid(), u32_edge()).prop_map(|(h, n)| Val::Outpoint(h, n)),
        2 => mscript(6, false).prop_map(Val::Script),
        2 => (prefix(), any::<bool>(), h20()).prop_map(|(p, s, h)| Val::Address(p, s, h)),
        1 => vec(any::<u8>(), 33).prop_map(|k| Val::Pubkey(Hex(k))),
        2 => (any::<u8>(), h20()).prop_map(|(t, h)| Val::Hash20(t, h)),
        2 => (any::<u8>(), txid()).prop_map(|(t, h)| Val::Hash32(t, h)),
        1 => vec(any::<u8>(), 4).prop_map(|k| Val::Fixed4(Hex(k))),
        2 => (data(false), option::of("[a-z]{0,5}")).prop_map(|(d, n)| Val::Bytes(d, n)),
        1 => script_int().prop_map(Val::Int),
        1 => script_int().prop_map(|v| Val::UInt(v.abs())),
        1 => any_flag_bits().prop_map(Val::Flags),
        1 => (txid(), u32_edge(), u32_edge(), u64_edge()).prop_map(|(h, n, s, v)| Val::Unsigned(h, n, s, v)),
        1 => (0u8..10).prop_map(Val::InputRef),
        1 => txid().prop_map(Val::TokenId),
        1 => any::<u8>().prop_map(Val::Small),
        1 => (mtx(2, false), vec(tok(), 0..4), option::of(txid()), prop_oneof![0usize..10, any::<usize>()]).prop_map(|(t, k, d, i)| Val::SlpTx(t, k, d, i)),
        1 => (txid(), u32_edge(), u64_edge(), tok(), option::of(txid())).prop_map(|(h, n, v, t, d)| Val::SlpUtxo(h, n, v, t, d)),
        1 => (any::<String>(), any::<String>(), "[a-z./:]{0,20}", vec(any::<u8>(), 0..33), any::<u8>(), any::<u8>()).prop_map(|(a, b, c, d, e, f)| Val::TokenMeta(a, b, c, Hex(d), e, f)),
    ]
    .boxed()
}

fn refs_strategy() -> BoxedStrategy<Refs> {
    (1usize..6, 1usize..7)
        .prop_flat_map(|(data, n)| {
            let arr = (0..data + usize::from(data < 3), vec(0..n + 1, 0..4));
            (Just(data), vec(arr, n), 0..n + 1, prop_oneof![3 => Just(0u8), 2 => Just(1), 2 => Just(2)])
        })
        .prop_map(|(data, mut arrays, used, how)| {
            let n = arrays.len();
            for (i, (d, p)) in arrays.iter_mut().enumerate() {
                if how < 2 {
                    *d %= data;
                }
                match how {
                    0 => p.retain(|x| *x < i),
                    1 => p.retain(|x| *x < n),
                    _ => {}
                }
            }
            Refs { data, arrays, used: if how < 2 { used % n } else { used } }
        })
        .boxed()
}

fn big_values() -> Vec<Val> {
    let mut out = vec![];
    for n in [252usize, 253, 255, 256, 1_000, 65_535, 65_536, 200_000] {
        let push = vec![MOp::Push(Data::Fill(n, 6), true)];
        let many = vec![MOp::Code(0x76); n.min(3_000)];
        out.push(Val::Bytes(Data::Fill(n, 1), Some("x".repeat(n))));
        out.push(Val::Out(MOut { value: 5, script: push.clone() }));
        out.push(Val::Script(many));
        out.push(Val::Script(push));
        out.push(Val::TokenMeta("t".repeat(n), "name".into(), "u".repeat(n / 2), Hex(vec![7; 32]), 1, 3));
    }
    out
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("values: a value of any of 27 public types, saved as JSON (text, value, reader) and bincode and loaded back; documents: such a document with 1..3 edits to its structure, numbers, strings or text (and byte edits to the binary form), loaded as every type; transactions: exported transaction documents edited the same way; references: transaction documents with arbitrary source indices (dangling, cyclic, shared); nothing may panic, and what loads must obey its type's rules and itself load back; non-trivial: any value, a changed document, at least two byte arrays.");
    ctx.suite("values", 20_000, 400_000, val, check_value);
    ctx.enumerate("wide-values", wide_sizes().into_iter().flat_map(|(i, o)| [Val::Tx(wide_tx(i, o)), Val::Unhashed(wide_tx(i, o))]).chain(big_values()), check_value);
    ctx.suite("documents", 24_000, 600_000, || (val(), edits(), vec((any::<u16>(), any::<u8>(), any::<u8>()), 1..3)).prop_map(|(val, edits, bin)| Doc { val, edits, bin }), check_doc);
    ctx.suite("transactions", 30_000, 600_000, || (c14::rtx(), edits()), check_txdoc);
    ctx.suite("references", 40_000, 400_000, refs_strategy, check_refs);
    let chain = |n: usize| Refs { data: 1, arrays: (0..n).map(|i| (0, if i == 0 { vec![] } else { vec![i - 1] })).collect(), used: n - 1 };
    let twice = |n: usize| Refs { data: 1, arrays: (0..n).map(|i| (0, if i == 0 { vec![] } else { vec![i - 1, i - 1] })).collect(), used: n - 1 };
    let ring = |n: usize| Refs { data: 1, arrays: (0..n).map(|i| (0, vec![(i + n - 1) % n])).collect(), used: n - 1 };
    ctx.enumerate("deep-references", [chain(2), chain(400), ring(1), ring(2), ring(1000), twice(5), twice(20), twice(64), twice(400), chain(3_000), chain(20_000), chain(200_000), ring(200_000)], check_refs);
    ctx.suite("texts", 20_000, 300_000, || prop_oneof![any::<String>().prop_map(|s| (s, 0usize)), ("[\\[\\]{}\",:0-9a-z ]{0,40}").prop_map(|s| (s, 0usize)), (1usize..40).prop_map(|n| (String::new(), n))], |c: &(String, usize), obs| {
        let text = if c.1 > 0 { format!("{}{}", "[".repeat(c.1 * 3000), "]".repeat(c.1 * 3000)) } else { c.0.clone() };
        obs.nontrivial(text.len() > 2);
        for (name, p) in PROBES {
            no_panic(|| p(&Input::Json(&text))).map_err(|e| format!("{} from {} panics: {}", name, truncate(&text, 300), e))?.map_err(|e| format!("{} from {}: {}", name, truncate(&text, 300), e))?;
            no_panic(|| p(&Input::Bin(text.as_bytes()))).map_err(|e| format!("{} from binary {} panics: {}", name, truncate(&text, 300), e))?.map_err(|e| format!("{} from binary {}: {}", name, truncate(&text, 300), e))?;
        }
        no_panic(|| bch::json_to_tx(&text).map(|_| ())).map_err(|e| format!("importing {} panics: {}", truncate(&text, 300), e))?.err();
        Ok(())
    });
    (json!({"types": PROBES.len()}), vec![
        "Scripts load back as the operations their bytes denote: a number or boolean push becomes the equivalent opcode or data push.",
        "Address prefixes are lower case.",
        "A document whose sources are listed before what they refer to, which the exporter never writes, may load or be rejected.",
    ])
}
