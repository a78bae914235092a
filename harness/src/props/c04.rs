//! C04: a hashed transaction's id, raw bytes and fields agree.
use crate::model::*;
use crate::props::c01::oversized_inputs;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, Hashed};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

fn ops_text(tx: &bch::UnhashedTx) -> String {
    format!("{:?}", tx)
}

fn check(m: &MTx, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(!m.inputs.is_empty() && !m.outputs.is_empty());
    let wire = m.encode();
    let id = refs::sha256d(&wire);
    let unhashed = m.tx();
    let tx = unhashed.clone().hashed();
    ensure_eq!(tx.raw().as_slice(), &wire[..], "raw");
    ensure_eq!(tx.hash().as_slice(), &id[..], "hash");
    let mut shown = id.clone();
    shown.reverse();
    ensure_eq!(tx.hash().to_hex_le(), hex::encode(&shown), "displayed id");
    ensure_eq!(tx.hash().to_string(), hex::encode(&shown), "displayed id");
    ensure_eq!(tx.version(), m.version, "version");
    ensure_eq!(tx.lock_time(), m.lock_time, "lock time");
    ensure!(tx.inputs() == &unhashed.inputs[..] && tx.inputs().len() == m.inputs.len(), "inputs");
    ensure!(tx.outputs() == &unhashed.outputs[..] && tx.outputs().len() == m.outputs.len(), "outputs");
    ensure_eq!(ops_text(tx.unhashed_tx()), ops_text(&unhashed), "unhashed_tx");
    ensure_eq!(ops_text(&tx.clone().into_unhashed_tx()), ops_text(&unhashed), "into_unhashed_tx");
    // Metadata never matters.
    let mut bare = unhashed.clone();
    for i in bare.inputs.iter_mut() {
        i.lock_script = None;
        i.value = None;
        i.is_p2sh = None;
        i.sig_hash_flags = None;
    }
    let bare = bare.hashed();
    ensure!(bare.hash() == tx.hash() && bare.raw() == tx.raw(), "removing metadata changes the id");
    let mut tagged = unhashed.clone();
    for i in tagged.inputs.iter_mut() {
        i.value = Some(i.value.map_or(7, |v| v ^ 1));
        i.is_p2sh = Some(!i.is_p2sh.unwrap_or(false));
        i.lock_script = Some(script(&[MOp::Code(0x6a)]));
        i.script = retag(&i.script);
    }
    for o in tagged.outputs.iter_mut() {
        o.script = retag(&o.script);
    }
    let tagged = tagged.hashed();
    ensure!(tagged.hash() == tx.hash() && tagged.raw() == tx.raw(), "changing metadata changes the id");
    // Decoding the raw bytes and hashing again.
    let again = bch::UnhashedTx::deser(tx.raw().clone()).map_err(|e| e.to_string())?.hashed();
    ensure!(again.hash() == tx.hash() && again.raw() == tx.raw(), "decoding raw and hashing gives another id");
    let again = bch::UnhashedTx::deser(wire.clone().into()).map_err(|e| e.to_string())?.hashed();
    ensure!(again.hash() == tx.hash() && again.raw() == tx.raw(), "decoding wire bytes and hashing gives another id");
    // The hashed transaction's own encoding.
    for t in [&tx, &again] {
        let ser = t.ser();
        let back = bch::Tx::deser(ser.clone()).map_err(|e| format!("cannot decode a Tx's own encoding: {}", e))?;
        ensure!(back.raw() == t.raw(), "raw bytes change when a Tx is encoded and decoded");
        ensure!(back.hash() == t.hash(), "hash changes when a Tx is encoded and decoded: {} / {}", back.hash(), t.hash());
        ensure_eq!(back.unhashed_tx(), again.unhashed_tx(), "fields after encoding and decoding a Tx");
        let mut long = ser.to_vec();
        long.extend([9, 9]);
        let (back, rest) = bch::Tx::deser_rest(long.into()).map_err(|e| e.to_string())?;
        ensure!(back.hash() == t.hash() && rest.as_slice() == &[9u8, 9][..], "prefix decoding of a Tx");
    }
    let back = bch::Tx::deser(again.ser()).map_err(|e| e.to_string())?;
    ensure!(back == again, "a decoded Tx does not survive its own encoding");
    Ok(())
}

fn retag(s: &bch::Script) -> bch::Script {
    bch::Script::new(
        s.ops_arc()
            .iter()
            .map(|t| {
                let mut t = t.clone();
                t.src_file = "other".into();
                t.src_line += 5;
                t.pushed_names = Some(vec![Some("x".into()), None]);
                if let bch::Op::PushByteArray { array, .. } = &mut t.op {
                    *array = array.clone().named("renamed");
                }
                t
            })
            .collect::<Vec<_>>(),
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Change {
    tx: MTx,
    kind: u8,
    at: usize,
    value: u64,
}

fn change(c: &Change) -> Option<MTx> {
    let mut t = c.tx.clone();
    let pick = |n: usize| if n == 0 { None } else { Some(c.at % n) };
    let v = c.value;
    match c.kind {
        0 => t.version ^= (v as i32).max(1),
        1 => t.lock_time ^= (v as u32).max(1),
        2 => {
            let i = pick(t.inputs.len())?;
            t.inputs[i].txid.0[(v % 32) as usize] ^= 1 << (v % 7);
        }
        3 => {
            let i = pick(t.inputs.len())?;
            t.inputs[i].vout ^= (v as u32).max(1);
        }
        4 => {
            let i = pick(t.inputs.len())?;
            t.inputs[i].sequence ^= (v as u32).max(1);
        }
        5 => {
            let i = pick(t.inputs.len())?;
            t.inputs[i].script.push(MOp::Code(0x61));
        }
        6 => {
            let i = pick(t.outputs.len())?;
            t.outputs[i].value ^= v.max(1);
        }
        7 => {
            let i = pick(t.outputs.len())?;
            t.outputs[i].script.insert(0, MOp::Push(Data::b(&[v as u8]), true));
        }
        8 => {
            let i = pick(t.inputs.len())?;
            t.inputs.remove(i);
        }
        9 => {
            let i = pick(t.outputs.len())?;
            t.outputs.remove(i);
        }
        10 => {
            let i = pick(t.outputs.len())?;
            let j = (i + 1) % t.outputs.len();
            t.outputs.swap(i, j);
        }
        _ => {
            let i = pick(t.inputs.len())?;
            let j = (i + 1) % t.inputs.len();
            t.inputs.swap(i, j);
        }
    }
    Some(t)
}

fn check_change(c: &Change, obs: &mut Obs) -> Result<(), String> {
    let other = match change(c) {
        Some(t) if t.encode() != c.tx.encode() => t,
        _ => return Ok(()),
    };
    obs.nontrivial(true);
    let a = c.tx.tx().hashed();
    let b = other.tx().hashed();
    ensure!(a.hash() != b.hash(), "changing a wire field keeps the id");
    ensure!(a.raw() != b.raw(), "changing a wire field keeps the raw bytes");
    ensure!(a != b, "transactions with different ids compare equal");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Finding {
    script: Hex,
    becomes: Hex,
}

const FINDING: &str = "oversized-push-width";

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("tx: transactions with and without metadata, hashed, unwrapped, re-tagged, decoded and re-hashed, against a reference encoder and SHA-256; non-trivial with at least one input and one output. change: one wire field changed; wide and wide-change: the same with up to 600 inputs or outputs; non-trivial if the encoding differs.");
    ctx.suite("tx", 6_000, 120_000, || mtx(6, false), check);
    ctx.enumerate("wide", wide_sizes().into_iter().map(|(i, o)| wide_tx(i, o)), check);
    ctx.suite("change", 6_000, 120_000, || (mtx(4, false), 0u8..12, any::<usize>(), any::<u64>()).prop_map(|(tx, kind, at, value)| Change { tx, kind, at, value }), check_change);
    ctx.enumerate(
        "wide-change",
        wide_sizes().into_iter().flat_map(|(i, o)| (0u8..12).flat_map(move |kind| [0, 253].map(|at| Change { tx: wide_tx(i, o), kind, at, value: 1 }))),
        check_change,
    );
    ctx.enumerate(
        "oversized-push",
        oversized_inputs().into_iter().map(|(a, b)| Finding { script: Hex(a), becomes: Hex(b) }),
        |f, obs| {
            let mk = |s: &[u8]| {
                let mut v = vec![1, 0, 0, 0, 0, 1, 5, 0, 0, 0, 0, 0, 0, 0];
                v.extend(var_bytes(s));
                v.extend([0; 4]);
                v
            };
            let raw = mk(&f.script);
            let tx = bch::UnhashedTx::deser(raw.clone().into()).map_err(|e| e.to_string())?.hashed();
            if tx.hash().as_slice() == &refs::sha256d(&raw)[..] {
                return Ok(());
            }
            if ctx.is_known(FINDING) && tx.hash().as_slice() == &refs::sha256d(&mk(&f.becomes))[..] {
                obs.known.push(FINDING.into());
                return Ok(());
            }
            Err(format!("raw bytes decode to a transaction with id {}", tx.hash()))
        },
    );
    ctx.enumerate("empty", [0u8], |_, obs| {
        obs.nontrivial(true);
        ensure_eq!(bch::DEFAULT_SEQUENCE, u32::MAX, "the default sequence number");
        let raw = [1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        let tx = bch::UnhashedTx::default().hashed();
        ensure_eq!(tx.raw().as_slice(), &raw[..], "the default transaction");
        ensure_eq!(tx.hash().as_slice(), &refs::sha256d(&raw)[..], "its id");
        Ok(())
    });
    (json!({}), vec!["Reference SHA-256 and encoder in harness/src."])
}
