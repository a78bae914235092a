//! C12: script numbers encode minimally and decode to the same number.
use crate::model::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::encoding_utils::{encode_bool, encode_int, encode_minimally, vec_to_int};
use bitcoin_cash::{BitcoinCode, ByteArray, Function, Integer, Script};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

const MAX: i32 = 0x7fff_ffff;

fn check_int(v: &i32, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(v.unsigned_abs() > 16);
    let want = refs::script_num(*v as i128);
    ensure_eq!(hex::encode(encode_int(*v)), hex::encode(&want), "encode_int({})", v);
    ensure_eq!(vec_to_int(&want), Ok(*v), "vec_to_int of {}", v);
    let mut m = want.clone();
    encode_minimally(&mut m);
    ensure_eq!(hex::encode(m), hex::encode(&want), "encode_minimally of the encoding of {}", v);
    Ok(())
}

/// The number a sign-magnitude string denotes (None: beyond i128, certainly out of range).
fn value(b: &[u8]) -> Option<i128> {
    let (&last, rest) = match b.split_last() {
        Some(x) => x,
        None => return Some(0),
    };
    let mut mag: i128 = 0;
    for (i, byte) in rest.iter().chain(std::iter::once(&(last & 0x7f))).enumerate() {
        if *byte != 0 {
            if i >= 15 {
                return None;
            }
            mag += (*byte as i128) << (8 * i);
        }
    }
    Some(if last & 0x80 != 0 { -mag } else { mag })
}

fn check_bytes(b: &Hex, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(b.len() > 1);
    let denoted = value(b);
    let got = vec_to_int(b);
    match denoted {
        Some(v) if v.abs() <= MAX as i128 => {
            obs.class(if refs::script_num(v) == b.0 { "minimal" } else { "non-minimal" });
            ensure_eq!(got, Ok(v as i32), "decoding {}", hex::encode(&b.0));
        }
        Some(v) if v == i32::MIN as i128 => {
            obs.class("i32::MIN");
            ensure!(got.is_err() || got == Ok(i32::MIN), "decoding {} (-2^31) gives {:?}", hex::encode(&b.0), got);
        }
        _ => {
            obs.class("out-of-range");
            ensure!(got.is_err(), "decoding {} (out of range) gives {:?}", hex::encode(&b.0), got);
        }
    }
    // Minimal re-encoding: same number, shortest.
    let mut m = b.0.clone();
    encode_minimally(&mut m);
    let shortest = shortest(b);
    ensure_eq!(hex::encode(&m), hex::encode(&shortest), "minimal form of {}", hex::encode(&b.0));
    let mut mm = m.clone();
    encode_minimally(&mut mm);
    ensure!(mm == m, "re-encoding {} again gives {}", hex::encode(&m), hex::encode(&mm));
    if let Some(v) = denoted {
        ensure_eq!(value(&m), Some(v), "value of the minimal form");
        ensure_eq!(hex::encode(refs::script_num(v)), hex::encode(&m), "minimal form of {}", v);
    }
    Ok(())
}

/// The unique shortest sign-magnitude string for the same number, at any length.
fn shortest(b: &[u8]) -> Vec<u8> {
    let mut mag = b.to_vec();
    let neg = match mag.last_mut() {
        None => return mag,
        Some(l) => {
            let n = *l & 0x80 != 0;
            *l &= 0x7f;
            n
        }
    };
    while mag.last() == Some(&0) {
        mag.pop();
    }
    if mag.is_empty() {
        return mag;
    }
    if mag[mag.len() - 1] & 0x80 != 0 {
        mag.push(0);
    }
    if neg {
        *mag.last_mut().unwrap() |= 0x80;
    }
    mag
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Width(i32, i32);

fn check_width(c: &Width, obs: &mut Obs) -> Result<(), String> {
    let Width(v, n) = *c;
    let got = ByteArray::from_int(Integer::new(v).unwrap(), Integer::new(n).unwrap());
    let fits = n > 0 && {
        let bits = (8 * n as i128 - 1).min(31);
        (v as i128).abs() < 1 << bits
    };
    obs.class(if fits { "fits" } else { "does-not-fit" });
    obs.nontrivial(v != 0 && (1..=8).contains(&n));
    if !fits {
        ensure!(got.is_err(), "{} in {} bytes gives {:?}", v, n, got);
        return Ok(());
    }
    let got = got.map_err(|e| format!("{} in {} bytes: {}", v, n, e))?;
    let mut want = v.unsigned_abs().to_le_bytes().to_vec();
    want.resize(n as usize, 0);
    if v < 0 {
        *want.last_mut().unwrap() |= 0x80;
    }
    ensure!(got.as_slice() == &want[..], "{} in {} bytes gives {}", v, n, truncate(&got.hex(), 200));
    ensure_eq!(got.function(), Function::Num2Bin, "function");
    ensure!(got.preimage().is_none() && got.name().is_none(), "provenance of a number");
    if n <= 600 {
        ensure_eq!(vec_to_int(&got), Ok(v), "decoding {}", got.hex());
        let mut m = got.to_vec();
        encode_minimally(&mut m);
        ensure_eq!(hex::encode(m), hex::encode(refs::script_num(v as i128)), "minimal form of {}", got.hex());
    }
    Ok(())
}

fn check_op(op: &MOp, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(true);
    let want = match op.meaning() {
        Meaning::Exec(_) => {
            obs.class("not-a-push");
            None
        }
        Meaning::Push(d) => {
            obs.class("push");
            value(&d).filter(|v| v.abs() <= MAX as i128)
        }
    };
    let show = |o: &bch::Op| o.to_integer().map(|i| i.value() as i128);
    let built = op.op();
    ensure_eq!(show(&built), want, "to_integer of {:?}", built);
    let wire = Script::deser_ops(op.encode().into()).map_err(|e| e.to_string())?;
    ensure_eq!(wire.ops_arc().len(), 1, "operations in {}", hex::encode(op.encode()));
    let decoded = wire.ops_arc()[0].op.clone();
    ensure_eq!(show(&decoded), want, "to_integer of {:?} (decoded)", decoded);
    if let MOp::Int(v) = op {
        ensure_eq!(show(&bch::Op::from_int(*v)), Some(*v as i128), "from_int");
    }
    Ok(())
}

fn num_bytes() -> BoxedStrategy<Hex> {
    let edge = prop_oneof![Just(0u8), Just(0x80), Just(0x7f), Just(0xff), Just(1), Just(0x81), any::<u8>()];
    let ragged = (vec(any::<u8>(), 0..5), 0usize..9, prop_oneof![Just(0u8), Just(0x80u8), any::<u8>()]).prop_map(|(mut v, z, l)| {
        v.extend(vec![0; z]);
        v.push(l);
        v
    });
    // A number of 30 to 33 bits, padded.
    let near = (29u32..34, -2i64..=2, any::<bool>(), 0usize..4).prop_map(|(k, d, neg, pad)| {
        let mut v = ((1i64 << k) + d).to_le_bytes().to_vec();
        while v.last() == Some(&0) {
            v.pop();
        }
        if v[v.len() - 1] & 0x80 != 0 || pad > 0 {
            v.extend(vec![0; pad.max(1)]);
        }
        if neg {
            *v.last_mut().unwrap() |= 0x80;
        }
        v
    });
    prop_oneof![4 => vec(edge, 0..10), 2 => vec(any::<u8>(), 0..6), 3 => ragged, 3 => near, 1 => vec(any::<u8>(), 0..60), 1 => (0usize..300, any::<u8>(), any::<u8>()).prop_map(|(z, a, l)| {
        let mut v = vec![a];
        v.extend(vec![0; z]);
        v.push(l);
        v
    })]
    .prop_map(Hex)
    .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("ints: 32-bit script integers (edges, all of -70000..70000, random; thorough: all of them) against a reference encoder; bytes: all byte strings of length 0..2 and generated ones (padded, negative zero, 29..33 bit magnitudes, long) against the number they denote; widths: integers in widths 0..12 and larger; ops: push operations of every kind, built and decoded; non-trivial: magnitude above 16, at least two bytes, nonzero in a width of 1..8, any operation.");
    ctx.enumerate("bools", [false, true], |b, _| {
        ensure_eq!(encode_bool(*b), if *b { vec![1] } else { vec![] }, "encode_bool({})", b);
        Ok(())
    });
    // Plain loops: recording each of these as a case would only cost time.
    ctx.enumerate("int-blocks", blocks(ctx.quick()), |b: &(i64, i64), obs| {
        obs.nontrivial(true);
        for v in b.0..b.1 {
            let mut o = Obs::default();
            check_int(&(v as i32), &mut o)?;
        }
        Ok(())
    });
    if !ctx.quick() {
        let starts: Vec<u32> = (0..4096u32).collect();
        ctx.parallel("all-ints", starts, |i: &u32, obs| {
            obs.nontrivial(true);
            let lo = -(MAX as i64) + (*i as i64) * (1 << 20);
            for v in lo..(lo + (1 << 20)).min(MAX as i64 + 1) {
                let want = fast_num(v);
                let e = encode_int(v as i32);
                ensure!(e == want, "encode_int({}) = {}", v, hex::encode(e));
                ensure_eq!(vec_to_int(&want), Ok(v as i32), "vec_to_int of {}", v);
            }
            Ok(())
        });
    }
    ctx.suite("ints", 200_000, 2_000_000, script_int, check_int);
    let small = (0..=255u8).map(|a| Hex(vec![a])).chain((0..=0xffffu32).map(|v| Hex(vec![v as u8, (v >> 8) as u8]))).chain([Hex(vec![])]);
    ctx.enumerate("short-bytes", small, check_bytes);
    ctx.suite("bytes", 300_000, 5_000_000, num_bytes, check_bytes);
    ctx.suite("widths", 200_000, 3_000_000, || (script_int(), prop_oneof![8 => -2i32..12, 1 => 12i32..600, 1 => -MAX..=0]).prop_map(|(a, b)| Width(a, b)), check_width);
    ctx.enumerate("default", [0u8], |_, obs| {
        obs.nontrivial(true);
        ensure_eq!(Integer::default().value(), 0, "the default number");
        Ok(())
    });
    ctx.enumerate("wide", [65_535, 1 << 20, (1 << 28) - 1, 1 << 28].map(|n| Width(-5, n)), check_width);
    ctx.suite("ops", 100_000, 1_500_000, || prop_oneof![
        2 => mop(false),
        2 => num_bytes().prop_map(|d| MOp::Push(Data::B(d), true)),
        1 => num_bytes().prop_map(|d| MOp::Push(Data::B(d), false)),
        1 => (0x4fu8..=0x60).prop_map(MOp::Code),
        1 => script_int().prop_map(MOp::Int),
    ].prop_filter("a code that starts a push is none", |op| !matches!(op, MOp::Code(b) if (1..=0x4e).contains(b))), check_op);
    (json!({}), vec!["For the number -2^31, which is a 32-bit integer but no script integer, decoding may give either that number or an error."])
}

fn blocks(quick: bool) -> Vec<(i64, i64)> {
    let r = if quick { 70_000i64 } else { 2_000_000 };
    let mut v = vec![];
    for k in [0i64, 1 << 23, -(1 << 23), 1 << 24, -(1 << 24), 1 << 15, -(1 << 15), 1 << 16, -(1 << 16)] {
        v.push((k - r / 10, k + r / 10));
    }
    v.push((-r, r));
    v.push((-(MAX as i64), -(MAX as i64) + 2000));
    v.push((MAX as i64 - 2000, MAX as i64 + 1));
    v
}

fn fast_num(v: i64) -> Vec<u8> {
    let mut m = v.unsigned_abs();
    let mut out = vec![];
    while m > 0 {
        out.push(m as u8);
        m >>= 8;
    }
    if let Some(l) = out.last().copied() {
        if l & 0x80 != 0 {
            out.push(0);
        }
        if v < 0 {
            *out.last_mut().unwrap() |= 0x80;
        }
    }
    out
}
