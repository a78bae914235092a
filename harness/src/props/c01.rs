//! C01: scripts survive the bytes<->ops conversion.
use crate::model::*;
use crate::refs::{self, RawOp};
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::BitcoinCode;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

fn check_ops(case: &MScript, obs: &mut Obs) -> Result<(), String> {
    for o in case {
        obs.class(o.class());
    }
    obs.nontrivial(case.iter().any(|o| matches!(o, MOp::Push(..) | MOp::Int(_) | MOp::Bool(_))));
    let expected = script_bytes(case);
    let s = script(case);
    let encoded = s.ser_ops();
    ensure_eq!(encoded.as_slice(), expected.as_slice(), "ser_ops");
    let ops = ops_of(&s);
    let via_ops = bch::serialize_ops(ops.iter()).map_err(|e| e.to_string())?;
    ensure_eq!(via_ops.as_slice(), expected.as_slice(), "serialize_ops");
    for (m, o) in case.iter().zip(&ops) {
        let one = bch::serialize_op(o).map_err(|e| e.to_string())?;
        ensure_eq!(one.as_slice(), m.encode().as_slice(), "serialize_op of {:?}", m);
        let pushed = match m {
            MOp::Push(d, _) => Some(d.bytes()),
            _ => None,
        };
        ensure_eq!(o.to_byte_array().map(|b| b.to_vec()), pushed, "to_byte_array of {:?}", m);
        if let Some(data) = pushed {
            // The two ways of pushing bytes without saying how push them minimally.
            let array = bch::ByteArray::from(data.clone());
            for made in [bch::Op::from_array(data.clone()), bch::Op::from(array)] {
                let one = bch::serialize_op(&made).map_err(|e| e.to_string())?;
                ensure_eq!(one.as_slice(), refs::push_minimal(&data).as_slice(), "serialize_op of {:?} made from bytes", made);
                ensure_eq!(made.to_byte_array().map(|b| b.to_vec()), Some(data.clone()), "bytes of {:?}", made);
            }
        }
    }
    let mut prefixed = var_bytes(&expected);
    ensure_eq!(s.ser().as_slice(), prefixed.as_slice(), "Script::ser");
    // Back to operations of the same meaning.
    let want = script_meanings(case);
    let back = bch::deserialize_ops(&expected).map_err(|e| format!("slice decoder rejects its own encoding: {}", e))?;
    ensure_eq!(back.iter().map(op_meaning).collect::<Vec<_>>(), want, "slice decoder meaning");
    let back2 = bch::Script::deser_ops(expected.clone().into()).map_err(|e| format!("byte array decoder rejects its own encoding: {}", e))?;
    ensure_eq!(meanings(&back2), want, "byte array decoder meaning");
    ensure_eq!(back2.ser_ops().as_slice(), expected.as_slice(), "re-encoding");
    ensure!(same_ops(back.iter(), ops_of(&back2).iter()), "decoders differ: {:?} / {:?}", back, back2);
    prefixed.extend_from_slice(&[0x07, 0x76]);
    let (back3, rest) = bch::Script::deser_rest(prefixed.into()).map_err(|e| e.to_string())?;
    ensure_eq!(meanings(&back3), want, "Script::deser_rest meaning");
    ensure_eq!(rest.as_slice(), &[0x07u8, 0x76][..], "rest");
    Ok(())
}

fn check_bytes(case: &Hex, obs: &mut Obs) -> Result<(), String> {
    let bytes = &case.0;
    let reference = refs::parse_script(bytes);
    let a = bch::deserialize_ops(bytes);
    let b = bch::deserialize_ops_byte_array(bytes.clone().into());
    let c = bch::Script::deser_ops(bytes.clone().into());
    let d = bch::Script::deser(var_bytes(bytes).into());
    match reference {
        None => {
            obs.class("truncated-push");
            obs.nontrivial(true);
            ensure!(a.is_err(), "slice decoder accepts a push past the end: {:?}", a);
            ensure!(b.is_err(), "byte array decoder accepts a push past the end: {:?}", b);
            ensure!(c.is_err() && d.is_err(), "Script decoder accepts a push past the end");
        }
        Some(raw) => {
            let a = a.map_err(|e| format!("slice decoder rejects a well-formed script: {}", e))?;
            let b = b.map_err(|e| format!("byte array decoder rejects a well-formed script: {}", e))?;
            let c = c.map_err(|e| format!("Script::deser_ops rejects a well-formed script: {}", e))?;
            let d = d.map_err(|e| format!("Script::deser rejects a well-formed script: {}", e))?;
            let want: Vec<Meaning> = raw.iter().map(raw_meaning).collect();
            obs.nontrivial(raw.iter().any(|o| matches!(o, RawOp::Push(..))));
            ensure_eq!(a.iter().map(op_meaning).collect::<Vec<_>>(), want, "slice decoder");
            ensure_eq!(b.iter().map(op_meaning).collect::<Vec<_>>(), want, "byte array decoder");
            ensure!(same_ops(a.iter(), b.iter()), "decoders differ: {:?} / {:?}", a, b);
            ensure!(same_ops(a.iter(), ops_of(&c).iter()) && same_ops(a.iter(), ops_of(&d).iter()), "Script decoders differ");
            if raw.iter().any(|o| o.oversized()) {
                // Recorded finding (see known_findings.txt): the width of the push is not kept.
                obs.class("oversized-push");
            } else {
                obs.class("round-trip");
                ensure_eq!(c.ser_ops().as_slice(), bytes.as_slice(), "re-encoding of decoded bytes");
                let re = bch::serialize_ops(a.iter()).map_err(|e| e.to_string())?;
                ensure_eq!(re.as_slice(), bytes.as_slice(), "re-encoding of decoded bytes (slice decoder)");
            }
        }
    }
    Ok(())
}

pub fn raw_op(big: bool) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => data(big).prop_map(|d| refs::push_data(&d.bytes())),
        3 => any::<u8>().prop_filter("opcode", |b| !(1..=0x4e).contains(b)).prop_map(|b| vec![b]),
    ]
    .boxed()
}

/// Well-formed scripts, then sometimes cut, extended or with a byte changed.
pub fn script_byte_strategy(big: bool) -> BoxedStrategy<Hex> {
    let well = proptest::collection::vec(raw_op(big), 0..8).prop_map(|v| v.concat());
    let mutated = (well.clone(), any::<prop::sample::Index>(), 0u8..4, any::<u8>()).prop_map(|(mut v, i, kind, b)| {
        if v.is_empty() {
            return vec![b];
        }
        let i = i.index(v.len());
        match kind {
            0 => v.truncate(i),
            1 => v[i] = b,
            2 => v.insert(i, b),
            _ => {
                v.remove(i);
            }
        }
        v
    });
    let push_header = (prop_oneof![Just(0x4cu8), Just(0x4d), Just(0x4e)], proptest::collection::vec(prop_oneof![Just(0u8), Just(1), Just(0xff), Just(0x7f), any::<u8>()], 0..7))
        .prop_map(|(op, tail)| {
            let mut v = vec![op];
            v.extend(tail);
            v
        });
    let random = proptest::collection::vec(any::<u8>(), 0..24);
    prop_oneof![4 => well, 4 => mutated, 1 => push_header, 2 => random].prop_map(Hex).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Finding {
    script: Hex,
    /// What the library re-encodes it to today.
    becomes: Hex,
}

pub fn oversized_inputs() -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = Vec::new();
    for data in [vec![0xaa], vec![5], vec![0x81], vec![1; 75]] {
        for op in [0x4c, 0x4d, 0x4e] {
            v.push((RawOp::Push(op, data.clone()).encode(), refs::push_data(&data)));
        }
    }
    for op in [0x4d, 0x4e] {
        v.push((RawOp::Push(op, vec![]).encode(), vec![0x4c, 0]));
        v.push((RawOp::Push(op, vec![2; 76]).encode(), refs::push_data(&[2; 76])));
        v.push((RawOp::Push(op, vec![2; 255]).encode(), refs::push_data(&[2; 255])));
    }
    v.push((RawOp::Push(0x4e, vec![3; 256]).encode(), refs::push_data(&[3; 256])));
    v
}

const FINDING: &str = "oversized-push-width";

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("ops: up to 10 operations of every kind with push lengths around 0/1/75/76/255/256/65535/65536, encoded, compared with a reference encoder, decoded by every decoder; non-trivial if it pushes something. bytes: well-formed, mutated, truncated and random script bytes, decoded and compared with a reference parser; non-trivial if it contains a push or a truncated push.");
    ctx.suite("ops", 12_000, 250_000, || mscript(10, true), check_ops);
    ctx.suite("bytes", 25_000, 600_000, || script_byte_strategy(true), check_bytes);
    ctx.suite("long", 20, 200, || (1usize..40, proptest::collection::vec(mop(true), 1..60)).prop_map(|(n, v)| {
        let mut out = Vec::new();
        for _ in 0..n { out.extend(v.iter().cloned()) }
        out
    }), check_ops);
    let small: Vec<Hex> = (0u16..=255).map(|b| Hex(vec![b as u8]))
        .chain((0u16..=255).flat_map(|a| (0u16..=255).map(move |b| Hex(vec![a as u8, b as u8]))))
        .collect();
    ctx.enumerate("all-two-byte-scripts", small, check_bytes);
    ctx.enumerate(
        "oversized-push",
        oversized_inputs().into_iter().map(|(a, b)| Finding { script: Hex(a), becomes: Hex(b) }),
        |f, obs| {
            let s = bch::Script::deser_ops(f.script.0.clone().into()).map_err(|e| e.to_string())?;
            let re = s.ser_ops();
            if re.as_slice() == f.script.as_slice() {
                return Ok(());
            }
            if ctx.is_known(FINDING) && re.as_slice() == f.becomes.as_slice() {
                obs.known.push(FINDING.into());
                return Ok(());
            }
            Err(format!("re-encoded as {}", re))
        },
    );
    (json!({}), vec!["The reference script encoder and parser in harness/src/refs.rs.", "Op::Code values for the push-length and PUSHDATA bytes are not generated: they denote no complete operation."])
}
