//! C05: signature preimages commit to what the flags say.
use crate::builder::*;
use crate::model::*;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, Ops};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// Every input has a locking script, a value and its own flags.
    tx: MTx,
    /// Flags for `preimages(&flags)`, the same for every input.
    common: Vec<u32>,
}

fn compare(got: &[Vec<bch::TxPreimage>], m: &MTx, flags_of: impl Fn(usize) -> Vec<u32>, what: &str) -> Result<(), String> {
    ensure_eq!(got.len(), m.inputs.len(), "{}: inputs with preimages", what);
    for (i, list) in got.iter().enumerate() {
        let fl = flags_of(i);
        ensure_eq!(list.len(), fl.len(), "{}: preimages of input {}", what, i);
        for (p, f) in list.iter().zip(&fl) {
            let inp = &m.inputs[i];
            let lock = inp.lock_script.clone().unwrap_or_default();
            let want = ref_preimage(m, i, &lock, inp.value.unwrap_or(0), *f);
            ensure_eq!(hex::encode(p.ser().as_slice()), hex::encode(&want), "{}: preimage of input {} for flags {:02x}", what, i, f);
        }
    }
    Ok(())
}

/// The script code after each separator is the rest of the script, which the whole script's bytes end with.
fn script_codes(lock: &MScript) -> Result<(), String> {
    let script = tagged_script(lock).script();
    let ends: Vec<usize> = (0..lock.len()).filter(|&k| lock[k] == MOp::Code(0xab)).map(|k| k + 1).collect();
    for (n, &k) in ends.iter().enumerate() {
        let got = script.to_script_code(Some(n));
        ensure_eq!(hex::encode(got.ser_ops()), hex::encode(script_bytes(&lock[k..])), "script code of separator {}", n);
        ensure_eq!(got.ops().to_vec(), script.ops()[k..].to_vec(), "operations of the script code of separator {}", n);
    }
    let first = script.to_script_code_first();
    ensure_eq!(hex::encode(first.ser_ops()), hex::encode(script_bytes(&lock[ends.first().copied().unwrap_or(0)..])), "script code of the first separator");
    // The stand-in for a preimage which sizes are estimated with.
    let empty = bch::TxPreimage::empty_with_script(&script);
    let code = &lock[ends.first().copied().unwrap_or(0)..];
    ensure_eq!(hex::encode(empty.script_code.ser_ops()), hex::encode(script_bytes(code)), "script code of the empty preimage");
    ensure_eq!(empty.ser().len(), 156 + var_bytes(&script_bytes(code)).len(), "length of the empty preimage");
    ensure_eq!(hex::encode(script.to_script_code(None).ser_ops()), hex::encode(script_bytes(lock)), "script code without a separator");
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let m = &c.tx;
    let common: Vec<bch::SigHashFlags> = c.common.iter().map(|b| flags(*b)).collect();
    for (i, inp) in m.inputs.iter().enumerate() {
        let all = c.common.iter().chain(inp.flags.as_ref().unwrap());
        for f in all {
            obs.nontrivial(true);
            obs.class(match f & 0x1f {
                1 => "ALL",
                2 => "NONE",
                3 if i < m.outputs.len() => "SINGLE",
                3 => "SINGLE-no-output",
                _ => "undefined-base",
            });
            obs.class_if(f & 0x80 != 0, "ANYONECANPAY");
        }
        obs.class_if(m.outputs.get(i).is_some_and(|o| o.value == 0 && o.script.is_empty()), "output-of-nothing");
        obs.class_if(inp.lock_script.as_ref().unwrap().contains(&MOp::Code(0xab)), "code-separator");
    }
    for inp in &m.inputs {
        script_codes(inp.lock_script.as_ref().unwrap())?;
    }
    let tx = m.tx();
    compare(&tx.preimages(&common), m, |_| c.common.clone(), "UnhashedTx::preimages")?;
    compare(&tx.clone().hashed().preimages(&common), m, |_| c.common.clone(), "Tx::preimages")?;
    // The builder, per-input flags.
    let mut b = bch::TxBuilder::new(m.version, m.lock_time);
    let mut irefs = Vec::new();
    for i in &m.inputs {
        let sig = TestSignatory {
            flags: i.flags.clone().unwrap(),
            placeholder: vec![vec![0; 4]],
            p2sh: i.is_p2sh.unwrap_or(false),
            script: vec![MOp::Code(0x51)],
        };
        let utxo = bch::UnsignedTxInput {
            prev_out: bch::TxOutpoint { tx_hash: hash32(&i.txid), vout: i.vout },
            sequence: i.sequence,
            value: i.value.unwrap(),
        };
        irefs.push(b.add_input(utxo, tagged_script(i.lock_script.as_ref().unwrap()), sig));
    }
    for o in &m.outputs {
        b.add_output(o.output());
    }
    let enough = m.inputs.iter().map(|i| i.value.unwrap() as u128).sum::<u128>() >= m.outputs.iter().map(|o| o.value as u128).sum();
    let own = |i: usize| m.inputs[i].flags.clone().unwrap();
    let unsigned = if enough { b.build() } else { b.build_without_estimation() }.map_err(|e| e.to_string())?;
    obs.class_if(enough, "build");
    compare(unsigned.preimages(), m, own, "TxBuilder")?;
    for (i, r) in irefs.iter().enumerate() {
        let list: Vec<bch::TxPreimage> = unsigned.input_preimages(*r).to_vec();
        let lock = m.inputs[i].lock_script.clone().unwrap();
        for (p, f) in list.iter().zip(own(i)) {
            ensure_eq!(p.ser().to_vec(), ref_preimage(m, i, &lock, m.inputs[i].value.unwrap(), f), "input_preimages");
        }
        ensure_eq!(list.len(), own(i).len(), "input_preimages");
    }
    // Resumed from a transaction.
    let mut resumed = m.clone();
    for i in resumed.inputs.iter_mut() {
        // from_tx treats a non-empty script as signed; the preimages are the same either way.
        i.is_p2sh = Some(true);
    }
    let unsigned = bch::TxBuilder::from_tx(resumed.tx()).build_without_estimation().map_err(|e| e.to_string())?;
    compare(unsigned.preimages(), m, own, "TxBuilder::from_tx")?;
    Ok(())
}

/// Nothing, a few satoshis, any amount, everything there is.
fn amount() -> BoxedStrategy<u64> {
    prop_oneof![3 => Just(0u64), 3 => 0u64..1000, 8 => 0u64..2_100_000_000_000_000, 1 => Just(2_100_000_000_000_000u64)].boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let flag = || prop_oneof![3 => defined_flag_bits(), 1 => any_flag_bits()];
    (mtx(5, false), proptest::collection::vec(flag(), 0..4))
        .prop_flat_map(move |(tx, common)| {
            let n = tx.inputs.len();
            (
                Just(tx),
                Just(common),
                proptest::collection::vec((lock_script_strategy(), amount(), proptest::collection::vec(flag(), 0..3)), n),
                proptest::collection::vec((amount(), 0u8..8), 8),
                (0u8..12, any::<proptest::sample::Index>(), any::<proptest::sample::Index>()),
            )
        })
        .prop_map(|(mut tx, common, meta, values, (twin, from, to))| {
            for (i, (lock, value, fl)) in tx.inputs.iter_mut().zip(meta) {
                i.lock_script = Some(lock);
                i.value = Some(value);
                i.flags = Some(fl);
            }
            for (o, (v, bare)) in tx.outputs.iter_mut().zip(values) {
                o.value = v;
                if bare == 0 {
                    o.script = vec![];
                }
            }
            // Equal outputs, equal locking scripts, equal inputs.
            match twin {
                0 if !tx.outputs.is_empty() => {
                    let o = tx.outputs[from.index(tx.outputs.len())].clone();
                    let k = to.index(tx.outputs.len());
                    tx.outputs[k] = o;
                }
                1 if !tx.inputs.is_empty() => {
                    let i = tx.inputs[from.index(tx.inputs.len())].clone();
                    let k = to.index(tx.inputs.len());
                    tx.inputs[k] = MIn { flags: tx.inputs[k].flags.clone(), ..i };
                }
                2 => tx.inputs.iter_mut().for_each(|i| i.sequence = 0),
                3 => tx.inputs.iter_mut().for_each(|i| i.sequence = 0xffff_ffff),
                4 if !tx.inputs.is_empty() => {
                    let k = to.index(tx.inputs.len());
                    let i = &mut tx.inputs[k];
                    (i.txid, i.vout) = (Hex(vec![0; 32]), if from.index(2) == 0 { 0xffff_ffff } else { 0 });
                }
                _ => {}
            }
            Case { tx, common }
        })
        .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("Transactions with up to five (crowds: 250 to 300) inputs and outputs, locking scripts with and without code separators and lookalike pushes, and any flag combination; preimages from UnhashedTx, Tx, TxBuilder and a resumed builder compared byte for byte with a reference BIP143/FORKID serialiser; non-trivial if at least one preimage is requested.");
    ctx.suite("preimages", 6_000, 150_000, strategy, check);
    ctx.suite("crowds", 40, 600, || {
        let flag = || prop_oneof![Just(0x41u32), Just(0x43), Just(0xc3), Just(0x42), Just(0xc1), any_flag_bits()];
        (250usize..300, 245usize..300, flag(), proptest::collection::vec((flag(), mscript(2, false)), 1..5)).prop_map(|(ni, no, f, kinds)| Case {
            tx: MTx {
                version: 1,
                lock_time: 99,
                inputs: (0..ni)
                    .map(|k| {
                        let (own, lock) = &kinds[k % kinds.len()];
                        MIn { txid: Hex(filled(32, k as u8)), vout: k as u32, script: vec![], sequence: 5000 + k as u32, lock_script: Some(lock.clone()), value: Some(9 + k as u64), is_p2sh: None, flags: Some(vec![*own]) }
                    })
                    .collect(),
                outputs: (0..no).map(|k| MOut { value: k as u64, script: vec![MOp::Int(k as i32)] }).collect(),
            },
            common: vec![f],
        })
    }, check);
    // Every flag byte on a fixed 2-in/1-out and 1-in/2-out shape.
    let mut all = Vec::new();
    for f in 0u32..=0xff {
        for (ni, no) in [(1usize, 0usize), (2, 1), (1, 2), (3, 2)] {
            let tx = MTx {
                version: 2,
                lock_time: 77,
                inputs: (0..ni).map(|k| MIn { txid: Hex(filled(32, k as u8)), vout: k as u32, script: vec![], sequence: 0xffff_fff0 + k as u32, lock_script: Some(vec![MOp::Code(0x51), MOp::Code(0xab), MOp::Code(0x52), MOp::Code(0xab), MOp::Code(0x53)]), value: Some(1000 + k as u64), is_p2sh: None, flags: Some(vec![f, 0x41]) }).collect(),
                outputs: (0..no).map(|k| MOut { value: 100 + k as u64, script: vec![MOp::Code(0x76)] }).collect(),
            };
            all.push(Case { tx, common: vec![f] });
        }
    }
    ctx.enumerate("all-flags", all, check);
    ctx.enumerate("names", [0u8], |_, obs| {
        use bch::SigHashFlags as F;
        obs.nontrivial(true);
        for (name, flag, bits) in [
            ("ALL", F::ALL, 1),
            ("NONE", F::NONE, 2),
            ("SINGLE", F::SINGLE, 3),
            ("FORKID", F::FORKID, 0x40),
            ("ANYONECANPAY", F::ANYONECANPAY, 0x80),
            ("DEFAULT", F::DEFAULT, 0x41),
        ] {
            ensure_eq!(flag.bits(), bits, "flag {}", name);
        }
        Ok(())
    });
    (json!({}), vec!["The reference preimage serialiser follows BIP143 with the FORKID change; the flag word is written as 32 bits."])
}
