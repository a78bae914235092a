//! C19: SLP outputs parse back under the SLP rules.
use crate::model::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::BitcoinCode;
use bitcoin_cash_slp as slp;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

/// What an SLP output says.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Message {
    Genesis { kind: u8, ticker: Hex, name: Hex, url: Hex, hash: Hex, decimals: u8, baton: Option<u8>, quantity: u64 },
    /// The token id in display order.
    Send { kind: u8, id: Hex, amounts: Vec<u64> },
}

/// An SLP parser, from the token type 1 and NFT1 specifications: an OP_RETURN followed only by
/// pushes with opcodes 0x01..=0x4e, each field of the length the specification gives.
fn parse(script: &[u8]) -> Result<Message, String> {
    if script.first() != Some(&0x6a) {
        return Err("no OP_RETURN".into());
    }
    let mut fields: Vec<Vec<u8>> = vec![];
    let mut i = 1;
    while i < script.len() {
        let op = script[i];
        i += 1;
        let width = match op {
            0x01..=0x4b => 0,
            0x4c => 1,
            0x4d => 2,
            0x4e => 4,
            _ => return Err(format!("opcode {:02x} at {}", op, i - 1)),
        };
        if i + width > script.len() {
            return Err("cut off".into());
        }
        let n = if width == 0 { op as usize } else { script[i..i + width].iter().rev().fold(0, |n, b| n << 8 | *b as usize) };
        i += width;
        if i + n > script.len() {
            return Err("cut off".into());
        }
        fields.push(script[i..i + n].to_vec());
        i += n;
    }
    let mut f = fields.into_iter();
    let mut next = |what: &str| f.next().ok_or_else(|| format!("no {}", what));
    if next("lokad id")? != b"SLP\0" {
        return Err("lokad id".into());
    }
    let kind = next("token type")?;
    let kind = match &kind[..] {
        [k @ (1 | 0x41 | 0x81)] => *k,
        k => return Err(format!("token type {}", hex::encode(k))),
    };
    let be8 = |v: &[u8]| -> Result<u64, String> {
        let b: [u8; 8] = v.try_into().map_err(|_| format!("quantity of {} bytes", v.len()))?;
        Ok(u64::from_be_bytes(b))
    };
    let m = match &next("transaction type")?[..] {
        b"GENESIS" => {
            let (ticker, name, url, hash) = (next("ticker")?, next("name")?, next("url")?, next("hash")?);
            if !matches!(hash.len(), 0 | 32) {
                return Err(format!("document hash of {} bytes", hash.len()));
            }
            let decimals = match &next("decimals")?[..] {
                [d @ 0..=9] => *d,
                d => return Err(format!("decimals {}", hex::encode(d))),
            };
            let baton = match &next("baton")?[..] {
                [] => None,
                [b] if *b >= 2 => Some(*b),
                b => return Err(format!("baton {}", hex::encode(b))),
            };
            Message::Genesis { kind, ticker: Hex(ticker), name: Hex(name), url: Hex(url), hash: Hex(hash), decimals, baton, quantity: be8(&next("quantity")?)? }
        }
        b"SEND" => {
            let id = next("token id")?;
            if id.len() != 32 {
                return Err(format!("token id of {} bytes", id.len()));
            }
            let mut amounts = vec![];
            while let Ok(a) = next("") {
                amounts.push(be8(&a)?)
            }
            if amounts.is_empty() || amounts.len() > 19 {
                return Err(format!("{} amounts", amounts.len()));
            }
            return Ok(Message::Send { kind, id: Hex(id), amounts });
        }
        t => return Err(format!("transaction type {}", hex::encode(t))),
    };
    match f.next() {
        None => Ok(m),
        Some(x) => Err(format!("extra field {}", hex::encode(x))),
    }
}

fn token_type(k: u8) -> slp::SlpTokenType {
    match k {
        1 => slp::SlpTokenType::Fungible,
        0x41 => slp::SlpTokenType::Nft1Child,
        _ => slp::SlpTokenType::Nft1Group,
    }
}

/// The output's script, as built and after travelling in a transaction, says `want`.
fn check_output(out: bch::TxOutput, want: &Message) -> Result<(), String> {
    ensure_eq!(out.value, 0, "value of the SLP output");
    let script = out.script.ser_ops().to_vec();
    let got = parse(&script).map_err(|e| format!("{}: SLP rejects {}: {}", truncate(&format!("{:?}", want), 500), hex::encode(&script), e))?;
    ensure!(got == *want, "script {} says {:?}, expected {:?}", hex::encode(&script), got, want);
    let tx = bch::UnhashedTx { version: 2, inputs: vec![], outputs: vec![out.clone(), bch::TxOutput { value: 546, script: out.script }], lock_time: 0 };
    let tx = bch::UnhashedTx::deser(tx.ser()).map_err(|e| format!("does not decode: {}", e))?;
    for o in &tx.outputs {
        let again = o.script.ser_ops().to_vec();
        ensure!(again == script, "script {} comes back from the wire as {}", hex::encode(&script), hex::encode(&again));
    }
    ensure_eq!(tx.outputs[0].value, 0, "value after the wire");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen {
    kind: u8,
    text: (String, String, String, String),
    decimals: u8,
    baton: Option<u8>,
    quantity: u64,
}

fn check_genesis(c: &Gen, obs: &mut Obs) -> Result<(), String> {
    let (ticker, name, url, hash) = &c.text;
    obs.class_if(ticker.is_empty() || name.is_empty() || url.is_empty(), "empty-field");
    obs.class_if([ticker, name, url].iter().any(|s| s.len() > 75), "long-field");
    obs.class_if(c.baton.is_some(), "baton");
    obs.nontrivial(true);
    let out = slp::slp_genesis_output(slp::SlpGenesisParams {
        slp_token_type: token_type(c.kind),
        token_ticker: ticker,
        token_name: name,
        token_document_url: url,
        token_document_hash: hash,
        decimals: c.decimals,
        mint_baton_vout: c.baton,
        initial_token_mint_quantity: c.quantity,
    });
    let h = |s: &str| Hex(s.as_bytes().to_vec());
    check_output(out, &Message::Genesis { kind: c.kind, ticker: h(ticker), name: h(name), url: h(url), hash: h(hash), decimals: c.decimals, baton: c.baton, quantity: c.quantity })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Send {
    kind: u8,
    /// The hash of the genesis transaction as transactions hold it.
    hash: Hex,
    amounts: Vec<u64>,
}

fn check_send(c: &Send, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(c.amounts.len() > 1);
    obs.class_if(c.amounts.iter().any(|a| *a == 0), "zero-amount");
    obs.class_if(c.amounts.iter().any(|a| *a > u32::MAX as u64), "large-amount");
    let id = slp::TokenId::from_hash(hash32(&c.hash));
    let mut display = c.hash.0.clone();
    display.reverse();
    ensure_eq!(id.to_vec(), display, "token id in display order");
    ensure_eq!(id.as_slice_be().to_vec(), c.hash.0, "token id as hashed");
    ensure!(id.hash() == &hash32(&c.hash), "hash of the token id");
    #[allow(deprecated)]
    let again = slp::TokenId::from_slice(&display).map_err(|e| e.to_string())?;
    ensure!(again == id, "token id {} from bytes is {:?}", hex::encode(&display), again);
    for n in [0, 20, 31, 33] {
        #[allow(deprecated)]
        let r = slp::TokenId::from_slice(&[&display[..], &[0; 8]].concat()[..n]);
        ensure!(r.is_err(), "a token id of {} bytes", n);
    }
    let mut ops: Vec<Vec<u8>> = slp::slp_amount_ops(&c.amounts).into_iter().map(|o| bch::Script::new(vec![bch::TaggedOp::from_op(o)]).ser_ops().to_vec()).collect();
    ensure_eq!(ops.len(), c.amounts.len(), "number of amount operations");
    for (o, a) in ops.drain(..).zip(&c.amounts) {
        ensure_eq!(o, [&[8u8][..], &a.to_be_bytes()].concat(), "operation for amount {}", a);
    }
    check_output(slp::slp_send_output(token_type(c.kind), &id, &c.amounts), &Message::Send { kind: c.kind, id: Hex(display), amounts: c.amounts.clone() })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Convert {
    tx: MTx,
    tokens: Vec<(u64, bool)>,
    hash: Hex,
    data: bool,
}

fn check_convert(c: &Convert, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(c.tx.inputs.len() + c.tx.outputs.len() > 1);
    let token = |i: usize| {
        let t = if c.tokens.is_empty() { (0, false) } else { c.tokens[i % c.tokens.len()] };
        slp::SlpToken { amount: t.0, is_mint_baton: t.1, action: slp::SlpAction::SlpV1Send }
    };
    let plain = c.tx.tx();
    let s = slp::SlpTx {
        version: plain.version,
        inputs: plain.inputs.iter().enumerate().map(|(index, i)| slp::SlpTxInput { index, token: token(index), input: i.clone(), prev_script: script(&[]) }).collect(),
        outputs: plain.outputs.iter().enumerate().map(|(i, o)| slp::SlpTxOutput { token: token(i + 3), output: o.clone() }).collect(),
        lock_time: plain.lock_time,
        slp_data: if c.data { Some(slp::SlpData { token_id: slp::TokenId::from_hash(hash32(&c.hash)) }) } else { None },
        tx_hash: hash32(&c.hash),
    };
    let back = s.into_unhashed_tx();
    ensure!(back == plain, "{:?} comes back as {:?}", plain, back);
    ensure_eq!(hex::encode(back.ser()), hex::encode(c.tx.encode()), "wire bytes");
    for (a, b) in back.inputs.iter().zip(&plain.inputs) {
        ensure_eq!((a.value, a.is_p2sh, &a.sig_hash_flags, a.lock_script.as_ref().map(|s| s.ser_ops())), (b.value, b.is_p2sh, &b.sig_hash_flags, b.lock_script.as_ref().map(|s| s.ser_ops())), "input {:?}", b);
    }
    Ok(())
}

fn kind() -> BoxedStrategy<u8> {
    prop::sample::select(vec![1u8, 0x41, 0x81]).boxed()
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        // One-byte fields whose value would have a small-number opcode.
        2 => (0u8..=0x7f).prop_map(|b| (b as char).to_string()),
        3 => "[ -~]{1,12}",
        2 => any::<String>(),
        2 => (prop::sample::select(vec![74usize, 75, 76, 77, 100, 254, 255, 256, 257, 520, 521, 3000]), any::<char>()).prop_map(|(n, c)| { let c = if c.is_ascii() { c } else { 'x' }; c.to_string().repeat(n) }),
        1 => (65_530usize..65_540).prop_map(|n| "y".repeat(n)),
    ]
    .boxed()
}

fn amount() -> BoxedStrategy<u64> {
    prop_oneof![u64_edge(), any::<u64>(), 0u64..20, Just(0x81), (0u32..64).prop_map(|k| 1 << k)].boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("genesis: descriptions with fields of 0 to 65539 bytes, all token types, decimals 0..9, batons 2..255 or none, any quantity; send: 1..19 amounts of any value; each output read by an SLP parser as built and after the wire; convert: SLP transactions to plain ones; non-trivial: every genesis, sends with several amounts, transactions with several parts.");
    let doc = || prop_oneof![2 => Just(String::new()), 2 => vec(0u8..=0x7f, 32).prop_map(|b| String::from_utf8(b).unwrap()), 1 => vec(prop::sample::select(vec!['é', 'ß', 'ø']), 16).prop_map(|c| c.into_iter().collect::<String>())].boxed();
    ctx.suite("genesis", 30_000, 500_000, || (kind(), (text(), text(), text(), doc()), 0u8..=9, option::of(2u8..=255), amount()).prop_map(|(kind, text, decimals, baton, quantity)| Gen { kind, text, decimals, baton, quantity }), check_genesis);
    ctx.suite("send", 40_000, 800_000, || (kind(), txid(), vec(amount(), 1..=19)).prop_map(|(kind, hash, amounts)| Send { kind, hash, amounts }), check_send);
    ctx.suite("convert", 6_000, 60_000, || (mtx(3, false), vec((any::<u64>(), any::<bool>()), 0..4), txid(), any::<bool>()).prop_map(|(tx, tokens, hash, data)| Convert { tx, tokens, hash, data }), check_convert);
    let all: Vec<Gen> = (0..=255u8).flat_map(|b| [1u8, 0x41, 0x81].map(|kind| Gen { kind, text: (String::new(), "n".into(), String::new(), String::new()), decimals: b % 10, baton: if b < 2 { None } else { Some(b) }, quantity: b as u64 })).collect();
    ctx.enumerate("batons", all, check_genesis);
    (json!({}), vec!["Decimals above 9, batons below 2, document hashes that are neither empty nor 32 bytes, and sends with no or more than 19 amounts, which SLP forbids, are the caller's to avoid."])
}
