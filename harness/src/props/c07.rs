//! C07: signing in any order, partially, resumed, never alters a transaction.
use crate::builder::*;
use crate::model::*;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::BitcoinCode;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    txid: Hex,
    vout: u32,
    sequence: u32,
    value: u64,
    sig: MSig,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// Input (modulo count), API used, length of each signature relative to the placeholder, fill.
    Sign(usize, u8, Vec<u8>, u8),
    /// Save the partial transaction and carry on from it; through JSON; building with or without
    /// estimation; adding an input (and output) on the way.
    Resume { json: bool, estimate: bool, extend: Option<(In, Option<MOut>)> },
    /// Compare an unsigned clone of the preimages.
    Preimages,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    version: i32,
    lock_time: u32,
    inputs: Vec<In>,
    outputs: Vec<MOut>,
    leftover: Option<MScript>,
    /// A leftover output that takes at most so much, at a precedence of its own.
    #[serde(default)]
    capped: Option<(u64, i32, MScript)>,
    steps: Vec<Step>,
    /// Order in which what is left is signed.
    order: Vec<usize>,
    complete: bool,
}

fn sig_bytes(s: &MSig, lens: &[u8], fill: u8) -> Vec<Vec<u8>> {
    s.placeholder()
        .iter()
        .enumerate()
        .map(|(k, n)| {
            let less = lens.get(k).map_or(0, |l| *l as usize % 4 * (*l as usize / 4));
            filled(n.saturating_sub(less), fill.wrapping_add(k as u8))
        })
        .collect()
}

struct State {
    unsigned: bch::UnsignedTx<'static>,
    refs: Option<Vec<Ref>>,
    /// The expected scripts of the signed inputs.
    scripts: Vec<Option<Vec<u8>>>,
    /// Whether every signature is no longer than its placeholder: always in this generator.
    first_estimate: usize,
    /// Inputs or outputs were added after a resume, so that the first estimate no longer applies.
    extended: bool,
}

/// The transaction as the reference sees it, with empty scripts.
fn reference(c: &Case, outputs: &[MOut]) -> MTx {
    MTx {
        version: c.version,
        lock_time: c.lock_time,
        inputs: c
            .inputs
            .iter()
            .map(|i| MIn {
                txid: i.txid.clone(),
                vout: i.vout,
                script: vec![],
                sequence: i.sequence,
                lock_script: Some(i.sig.lock()),
                value: Some(i.value),
                is_p2sh: Some(i.sig.is_p2sh()),
                flags: Some(i.sig.flags()),
            })
            .collect(),
        outputs: outputs.to_vec(),
    }
}

fn compare_tx(tx: &bch::UnhashedTx, want: &MTx, scripts: &[Option<Vec<u8>>], what: &str) -> Result<(), String> {
    ensure_eq!(tx.version, want.version, "{}: version", what);
    ensure_eq!(tx.lock_time, want.lock_time, "{}: lock time", what);
    ensure_eq!(tx.inputs.len(), want.inputs.len(), "{}: input count", what);
    for (k, (i, w)) in tx.inputs.iter().zip(&want.inputs).enumerate() {
        ensure_eq!(hex::encode(i.prev_out.ser().as_slice()), hex::encode(outpoint_bytes(&w.txid, w.vout)), "{}: outpoint {}", what, k);
        ensure_eq!(i.sequence, w.sequence, "{}: sequence {}", what, k);
        ensure_eq!(i.value, w.value, "{}: value {}", what, k);
        ensure_eq!(i.is_p2sh, w.is_p2sh, "{}: is_p2sh {}", what, k);
        ensure_eq!(
            i.lock_script.as_ref().map(|s| hex::encode(s.ser_ops().as_slice())),
            w.lock_script.as_ref().map(|s| hex::encode(script_bytes(s))),
            "{}: lock script {}", what, k
        );
        ensure_eq!(
            i.sig_hash_flags.as_ref().map(|f| f.iter().map(|x| x.bits()).collect::<Vec<_>>()),
            w.flags.clone(),
            "{}: flags {}", what, k
        );
        ensure_eq!(
            hex::encode(i.script.ser_ops().as_slice()),
            hex::encode(scripts[k].as_deref().unwrap_or(&[])),
            "{}: script {}", what, k
        );
    }
    ensure_eq!(tx.outputs.len(), want.outputs.len(), "{}: output count", what);
    for (k, (o, w)) in tx.outputs.iter().zip(&want.outputs).enumerate() {
        ensure_eq!(o.value, w.value, "{}: output {} value", what, k);
        ensure_eq!(hex::encode(o.script.ser_ops().as_slice()), hex::encode(script_bytes(&w.script)), "{}: output {} script", what, k);
    }
    Ok(())
}

fn preimages_of(m: &MTx, k: usize) -> Vec<Vec<u8>> {
    let i = &m.inputs[k];
    i.flags
        .as_ref()
        .unwrap()
        .iter()
        .map(|f| ref_preimage(m, k, i.lock_script.as_ref().unwrap(), i.value.unwrap(), *f))
        .collect()
}

fn sign(st: &mut State, c: &Case, m: &MTx, k: usize, how: u8, lens: &[u8], fill: u8, obs: &mut Obs) -> Result<(), String> {
    let sig = &c.inputs[k].sig;
    let sigs = sig_bytes(sig, lens, fill);
    let size = st.unsigned.estimated_size();
    let u = &mut st.unsigned;
    // After resuming, the signatory has to be supplied again.
    let fresh = st.refs.is_some();
    let result = match (sig, fresh, how % 3) {
        (MSig::P2pkh { .. }, true, 0) => {
            let Ref::P2pkh(r) = &st.refs.as_ref().unwrap()[k] else { unreachable!() };
            u.sign_input(r.clone(), sigs[0].clone().into())
        }
        (MSig::P2pkh { .. }, true, 1) => u.sign_input_dyn(k, Box::new(bch::ByteArray::from(sigs[0].clone()))),
        (MSig::P2pkh { .. }, _, _) => u.sign_input_signatory(bch::InputReference::new(k), sig.p2pkh_signatory(), sigs[0].clone().into()),
        (MSig::Test { .. }, true, 0) => match &st.refs.as_ref().unwrap()[k] {
            Ref::Test(r) => u.sign_input(r.clone(), sigs.clone()),
            Ref::P2sh(r) => u.sign_input(r.clone(), sigs.clone()),
            Ref::P2pkh(_) => unreachable!(),
        },
        (MSig::Test { p2sh: true, .. }, _, n) if n % 2 == 0 => u.sign_input_signatory(bch::InputReference::new(k), P2shSignatory(sig.test_signatory()), sigs.clone()),
        (MSig::Test { .. }, true, 1) => u.sign_input_dyn(k, Box::new(sigs.clone())),
        (MSig::Test { .. }, _, _) => u.sign_input_signatory(bch::InputReference::new(k), sig.test_signatory(), sigs.clone()),
    };
    match (result, &st.scripts[k]) {
        (Err(bch::error::Error::InputAlreadySigned { input_idx }), Some(_)) => {
            obs.class("double-sign");
            ensure_eq!(input_idx, k, "index in the double-sign error");
        }
        (Ok(()), None) => {
            st.scripts[k] = Some(sig.script_bytes(&preimages_of(m, k), Some(size), &sigs, &m.outputs));
        }
        (Ok(()), Some(_)) => return Err(format!("input {} was signed twice", k)),
        (Err(e), _) => return Err(format!("signing input {} failed: {}", k, e)),
    }
    Ok(())
}

fn builder(c: &Case) -> (bch::TxBuilder<'static>, Vec<Ref>) {
    let mut b = bch::TxBuilder::new(c.version, c.lock_time);
    let mut irefs = Vec::new();
    for i in &c.inputs {
        let input = bch::UnsignedTxInput {
            prev_out: bch::TxOutpoint { tx_hash: hash32(&i.txid), vout: i.vout },
            sequence: i.sequence,
            value: i.value,
        };
        irefs.push(i.sig.add(&mut b, input));
    }
    for o in &c.outputs {
        b.add_output(o.output())
    }
    if let Some(l) = &c.leftover {
        b.add_leftover_output(script(l));
    }
    if let Some((upper, precedence, l)) = &c.capped {
        b.add_leftover_output_bounded(546, *upper, *precedence, script(l));
    }
    (b, irefs)
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let steps = &c.steps;
    let c = &mut Case { steps: vec![], ..c.clone() };
    if c.inputs.is_empty() {
        return Ok(());
    }
    let (b, irefs) = builder(c);
    for (k, r) in irefs.iter().enumerate() {
        let idx = match r {
            Ref::P2pkh(r) => r.input_idx(),
            Ref::Test(r) => r.input_idx(),
            Ref::P2sh(r) => r.input_idx(),
        };
        ensure_eq!(idx, k, "input reference");
    }
    let unsigned = match b.build() {
        Ok(u) => u,
        Err(bch::error::Error::InsufficientInputAmount { .. }) => return Ok(()),
        Err(e) => return Err(format!("unexpected error {}", e)),
    };
    // What was built is the subject of C06; here it only has to stay as it is.
    let first_estimate = unsigned.estimated_size();
    let mut outputs = c.outputs.clone();
    {
        let n = c.inputs.len();
        ensure_eq!(unsigned.preimages().len(), n, "inputs with preimages");
    }
    let mut st = State { unsigned, refs: Some(irefs), scripts: vec![None; c.inputs.len()], first_estimate, extended: false };
    // The value of the leftover output follows from the reference fee.
    if let Some((_, _, l)) = &c.capped {
        // Which of the two there are and what they hold is what C06 is about.
        let built = builder(c).0.build().map_err(|e| format!("building again: {}", e))?.partial_tx().outputs;
        let mut scripts: Vec<&MScript> = c.leftover.iter().chain(Some(l)).collect();
        let extra = built.get(outputs.len()..).ok_or("a fixed output is missing")?;
        ensure!(extra.len() <= scripts.len(), "{} outputs too many", extra.len() - scripts.len());
        if extra.len() == 1 && extra[0].script.ser_ops().as_slice() == &script_bytes(l)[..] {
            scripts = vec![l];
        }
        obs.class_if(extra.len() == 2, "two-leftovers");
        for (o, l) in extra.iter().zip(scripts) {
            outputs.push(MOut { value: o.value, script: l.clone() });
        }
    } else if let Some(l) = &c.leftover {
        let total: u64 = c.inputs.iter().map(|i| i.value).sum::<u64>() - outputs.iter().map(|o| o.value).sum::<u64>();
        let fee = first_estimate as u64;
        let with = total.checked_sub(fee).filter(|v| *v > 546);
        // Without the output the estimate is smaller, so the arithmetic above would not apply.
        let has = reference_size(c, &outputs, Some(l)) == first_estimate;
        if has {
            let value = with.ok_or("a leftover output below its lower bound")?;
            outputs.push(MOut { value, script: l.clone() });
        }
    }
    let mut m = reference(c, &outputs);
    let mut resumed = 0;
    for s in steps {
        match s {
            Step::Sign(k, how, lens, fill) => sign(&mut st, c, &m, k % c.inputs.len(), *how, lens, *fill, obs)?,
            Step::Preimages => {
                for k in 0..c.inputs.len() {
                    let got: Vec<_> = st.unsigned.preimages()[k].iter().map(|p| hex::encode(p.ser().as_slice())).collect();
                    let want: Vec<_> = preimages_of(&m, k).iter().map(hex::encode).collect();
                    ensure_eq!(got, want, "preimages of input {}", k);
                }
            }
            Step::Resume { json, estimate, extend } => {
                let signed = st.scripts.iter().filter(|s| s.is_some()).count();
                obs.class_if(signed > 0 && signed < c.inputs.len(), "resumed-half-signed");
                obs.class_if(signed == 0, "resumed-unsigned");
                obs.class_if(*json, "resumed-through-json");
                obs.class(if *estimate { "resumed-build" } else { "resumed-without-estimation" });
                resumed += 1;
                let mut tx = st.unsigned.partial_tx();
                compare_tx(&tx, &m, &st.scripts, "partial transaction")?;
                if *json {
                    let s = bch::tx_to_json(&tx).map_err(|e| e.to_string())?;
                    tx = bch::json_to_tx(&s).map_err(|e| e.to_string())?;
                }
                let mut b = bch::TxBuilder::from_tx(tx);
                ensure_eq!(b.version(), c.version, "resumed version");
                ensure_eq!(b.lock_time(), c.lock_time, "resumed lock time");
                if let Some((i, o)) = extend {
                    obs.class_if(signed > 0, "extended-when-signed");
                    let input = bch::UnsignedTxInput {
                        prev_out: bch::TxOutpoint { tx_hash: hash32(&i.txid), vout: i.vout },
                        sequence: i.sequence,
                        value: i.value,
                    };
                    let idx = match i.sig.add(&mut b, input) {
                        Ref::P2pkh(r) => r.input_idx(),
                        Ref::Test(r) => r.input_idx(),
                        Ref::P2sh(r) => r.input_idx(),
                    };
                    ensure_eq!(idx, c.inputs.len(), "reference of an input added after resuming");
                    if let Some(o) = o {
                        // Covered by the input that comes with it.
                        let o = MOut { value: o.value.min(i.value), ..o.clone() };
                        b.add_output(o.output());
                        outputs.push(o);
                    }
                    c.inputs.push(i.clone());
                    st.scripts.push(None);
                    m = reference(c, &outputs);
                    st.extended = true;
                }
                let u = if *estimate { b.build() } else { b.build_without_estimation() }.map_err(|e| e.to_string())?;
                st.unsigned = u;
                st.refs = None;
            }
        }
    }
    if !c.complete {
        return compare_tx(&st.unsigned.partial_tx(), &m, &st.scripts, "last partial transaction");
    }
    let mut order: Vec<usize> = c.order.iter().map(|k| k % c.inputs.len()).collect();
    order.extend(0..c.inputs.len());
    for k in order {
        if st.scripts[k].is_none() {
            sign(&mut st, c, &m, k, k as u8, &[], 9, obs)?;
        }
    }
    for k in 0..c.inputs.len() {
        sign(&mut st, c, &m, k, (k as u8).wrapping_add(1), &[], 200, obs)?;
    }
    let tx = st.unsigned.complete_tx();
    compare_tx(&tx, &m, &st.scripts, "complete transaction")?;
    obs.nontrivial(c.inputs.len() > 1 || resumed > 0);
    let size = tx.ser().len();
    ensure!(st.extended || size <= st.first_estimate, "final size {} is above the estimate {}", size, st.first_estimate);
    obs.class_if(size == st.first_estimate, "size-exactly-estimated");
    Ok(())
}

/// Size with placeholder scripts.
fn reference_size(c: &Case, outputs: &[MOut], leftover: Option<&MScript>) -> usize {
    let mut m = reference(c, outputs);
    if let Some(l) = leftover {
        m.outputs.push(MOut { value: 0, script: l.clone() });
    }
    let base = m.encode().len();
    base + c
        .inputs
        .iter()
        .map(|i| {
            let n = i.sig.estimate();
            n + crate::refs::compact_size(n as u64).len() - 1
        })
        .sum::<usize>()
}

fn strategy() -> BoxedStrategy<Case> {
    let input = (txid(), u32_edge(), u32_edge(), prop_oneof![0u64..2000, 0u64..(1 << 50)], msig())
        .prop_map(|(txid, vout, sequence, value, sig)| In { txid, vout, sequence, value, sig })
        .boxed();
    let out = (0u64..3000, mscript(3, false)).prop_map(|(value, script)| MOut { value, script }).boxed();
    let extend = proptest::option::weighted(0.3, (input.clone(), proptest::option::of(out.clone())));
    let step = prop_oneof![
        6 => (0usize..5, any::<u8>(), vec(any::<u8>(), 0..4), any::<u8>()).prop_map(|(k, h, l, f)| Step::Sign(k, h, l, f)),
        2 => (any::<bool>(), any::<bool>(), extend).prop_map(|(json, estimate, extend)| Step::Resume { json, estimate, extend }),
        1 => Just(Step::Preimages),
    ];
    (
        (i32_edge(), u32_edge()),
        vec(input, 1..6),
        vec(out, 0..4),
        (
            proptest::option::of(mscript(3, false)),
            proptest::option::weighted(0.3, (prop_oneof![547u64..3000, 547u64..200_000, Just(u64::MAX)], -1i32..2, mscript(3, false))),
        ),
        vec(step, 0..8),
        vec(0usize..5, 0..6),
        proptest::bool::weighted(0.85),
    )
        .prop_map(|((version, lock_time), inputs, outputs, (leftover, capped), steps, order, complete)| Case {
            version, lock_time, inputs, outputs, leftover, capped, steps, order, complete,
        })
        .boxed()
}

/// More inputs (and outputs) than a single-byte length prefix can count.
fn crowd() -> BoxedStrategy<Case> {
    let sig = prop_oneof![
        1 => (vec(any::<u8>(), 20), vec(any::<u8>(), 33)).prop_map(|(h, p)| MSig::P2pkh { hash: Hex(h), pubkey: Hex(p), flag: 0x41 }),
        1 => (any::<bool>(), 0usize..3, any::<u8>()).prop_map(|(p2sh, n, b)| MSig::Test {
            lock: vec![MOp::Push(Data::b(&[b; 3]), true)], flags: vec![0xc1; n], placeholder: vec![64; n], p2sh, script: vec![MOp::Int(b as i32)],
        }),
    ];
    let step = prop_oneof![
        4 => (0usize..300, any::<u8>(), any::<u8>()).prop_map(|(k, h, f)| Step::Sign(k, h, vec![], f)),
        1 => any::<bool>().prop_map(|json| Step::Resume { json, estimate: false, extend: None }),
        1 => Just(Step::Preimages),
    ];
    (vec((0u64..1000, sig), 250..300), vec(0u64..10, 0..260), vec(step, 0..12), vec(0usize..300, 0..300), proptest::bool::weighted(0.85))
        .prop_map(|(ins, outs, steps, order, complete)| Case {
            version: 2,
            lock_time: 7,
            inputs: ins
                .into_iter()
                .enumerate()
                .map(|(k, (value, sig))| In { txid: Hex(vec![k as u8; 32]), vout: k as u32, sequence: 1000 + k as u32, value, sig })
                .collect(),
            outputs: outs.into_iter().enumerate().map(|(k, value)| MOut { value, script: vec![MOp::Int(k as i32)] }).collect(),
            leftover: None,
            capped: None,
            steps,
            order,
            complete,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Foreign {
    tx: MTx,
    json: bool,
    estimate: bool,
    /// How often it is resumed, and whether by way of the built transaction's builder.
    rounds: Vec<bool>,
    sign: Option<(usize, Vec<u8>)>,
}

/// A transaction from elsewhere, of which not everything (lock script, value, ...) is known, is
/// only carried along.
fn foreign(c: &Foreign, obs: &mut Obs) -> Result<(), String> {
    let m = &c.tx;
    let want = hex::encode(m.encode());
    let total = |v: &mut dyn Iterator<Item = u64>| v.map(u128::from).sum::<u128>();
    let ins = total(&mut m.inputs.iter().map(|i| i.value.unwrap_or(0)));
    let outs = total(&mut m.outputs.iter().map(|o| o.value));
    let sums = ins < 1 << 60 && outs < 1 << 60;
    let signed: Vec<bool> = m.inputs.iter().map(|i| !script_bytes(&i.script).is_empty()).collect();
    let same = |tx: &bch::UnhashedTx, what: &str| -> Result<(), String> {
        ensure_eq!(hex::encode(tx.ser().as_slice()), want, "{}: bytes", what);
        ensure_eq!((tx.version, tx.lock_time, tx.inputs.len(), tx.outputs.len()), (m.version, m.lock_time, m.inputs.len(), m.outputs.len()), "{}: shape", what);
        for (k, (i, w)) in tx.inputs.iter().zip(&m.inputs).enumerate() {
            // What is known stays known.
            if let Some(l) = &w.lock_script {
                let got = i.lock_script.as_ref().map(|s| hex::encode(s.ser_ops().as_slice()));
                ensure_eq!(got, Some(hex::encode(script_bytes(l))), "{}: lock script {}", what, k);
            }
            if w.value.is_some() {
                ensure_eq!(i.value, w.value, "{}: value {}", what, k);
            }
            if w.is_p2sh.is_some() {
                ensure_eq!(i.is_p2sh, w.is_p2sh, "{}: is_p2sh {}", what, k);
            }
            if let Some(f) = &w.flags {
                ensure_eq!(i.sig_hash_flags.as_ref().map(|f| f.iter().map(|x| x.bits()).collect::<Vec<_>>()), Some(f.clone()), "{}: flags {}", what, k);
            }
        }
        Ok(())
    };
    obs.class_if(m.inputs.iter().zip(&signed).any(|(i, s)| *s && i.lock_script.is_none()), "signed-without-lock-script");
    obs.class_if(m.inputs.iter().zip(&signed).any(|(i, s)| !*s && i.lock_script.is_none()), "unsigned-without-lock-script");
    obs.class_if(m.inputs.iter().any(|i| i.value.is_none()), "unknown-value");
    let load = || -> Result<bch::UnhashedTx, String> {
        if c.json {
            let s = bch::tx_to_json(&m.tx()).map_err(|e| e.to_string())?;
            return bch::json_to_tx(&s).map_err(|e| e.to_string());
        }
        Ok(m.tx())
    };
    let build = |b: bch::TxBuilder<'static>| -> Result<Option<bch::UnsignedTx<'static>>, String> {
        ensure_eq!(b.version(), m.version, "version of the builder");
        ensure_eq!(b.lock_time(), m.lock_time, "lock time of the builder");
        if !c.estimate {
            return b.build_without_estimation().map(Some).map_err(|e| e.to_string());
        }
        if !sums {
            return Ok(None);
        }
        match b.build() {
            Ok(_) if outs > ins => Err("outputs above the inputs were accepted".into()),
            Ok(u) => Ok(Some(u)),
            Err(bch::error::Error::InsufficientInputAmount { amount }) if outs > ins => {
                ensure_eq!(amount as u128, outs - ins, "missing amount");
                Ok(None)
            }
            Err(e) => Err(e.to_string()),
        }
    };
    let mut u = match build(bch::TxBuilder::from_tx(load()?))? {
        Some(u) => u,
        None => {
            obs.class("not-covered");
            return Ok(());
        }
    };
    for by_builder in &c.rounds {
        let b = if *by_builder {
            obs.class("builder-of-the-built");
            u.into_tx_builder()
        } else {
            let tx = u.partial_tx();
            same(&tx, "saved")?;
            bch::TxBuilder::from_tx(tx)
        };
        // Known to be covered, so it builds again.
        u = build(b)?.ok_or("not built again")?;
    }
    for (k, i) in m.inputs.iter().enumerate() {
        if let (Some(lock), Some(value), Some(f)) = (&i.lock_script, i.value, &i.flags) {
            obs.class("preimages");
            let got: Vec<_> = u.preimages()[k].iter().map(|p| hex::encode(p.ser().as_slice())).collect();
            let want: Vec<_> = f.iter().map(|f| hex::encode(ref_preimage(m, k, lock, value, *f))).collect();
            ensure_eq!(got, want, "preimages of input {}", k);
        }
    }
    ensure_eq!(u.estimated_size(), m.encode().len(), "size of what there is");
    obs.nontrivial(!m.inputs.is_empty());
    if let (Some((k, bytes)), false) = (&c.sign, m.inputs.is_empty()) {
        let k = k % m.inputs.len();
        let sig = MSig::P2pkh { hash: Hex(vec![1; 20]), pubkey: Hex(vec![2; 33]), flag: 0x41 };
        // A P2PKH signatory reads the first preimage of its input.
        if signed[k] || m.inputs[k].flags.as_ref().map_or(false, |f| !f.is_empty()) {
            let r = u.sign_input_signatory(bch::InputReference::new(k), sig.p2pkh_signatory(), bytes.clone().into());
            match (r, signed[k]) {
                (Err(bch::error::Error::InputAlreadySigned { input_idx }), true) if input_idx == k => {}
                (Ok(()), false) => {
                    obs.class("signed-unsigned-input");
                    let tx = u.partial_tx();
                    let mut w = m.clone();
                    let mut pushed = bytes.clone();
                    pushed.push(0x41);
                    w.inputs[k].script = vec![MOp::Push(Data::b(&pushed), true), MOp::Push(Data::b(&[2; 33]), true)];
                    ensure_eq!(hex::encode(tx.ser().as_slice()), hex::encode(w.encode()), "transaction with input {} signed", k);
                    return Ok(());
                }
                (r, s) => return Err(format!("signing input {} (signed before: {}): {:?}", k, s, r.err().map(|e| e.to_string()))),
            }
        }
    }
    if signed.iter().all(|s| *s) {
        obs.class("complete");
        same(&u.complete_tx(), "completed")
    } else {
        same(&u.partial_tx(), "partial")
    }
}

fn foreign_strategy() -> BoxedStrategy<Foreign> {
    let tx = (mtx(4, false), any::<[u8; 5]>(), any::<bool>()).prop_map(|(mut tx, modes, small)| {
        for (k, i) in tx.inputs.iter_mut().enumerate() {
            match modes[k % 5] % 3 {
                0 => i.script.clear(),
                1 if i.script.is_empty() => i.script.push(MOp::Int(1)),
                _ => {}
            }
            if small {
                i.value = i.value.map(|v| v % 100_000);
            }
        }
        if small {
            for o in &mut tx.outputs {
                o.value %= 50_000;
            }
        }
        tx
    });
    (tx, any::<bool>(), any::<bool>(), vec(any::<bool>(), 0..3), proptest::option::of((0usize..5, vec(any::<u8>(), 60..73))))
        .prop_map(|(tx, json, estimate, rounds, sign)| Foreign { tx, json, estimate, rounds, sign })
        .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("histories: one to five inputs of mixed signatories, then up to eight steps of signing (through the typed, the dynamic or the signatory API), double signing, saving as a partial transaction and resuming (also through JSON, also without estimation), then completing in a random order; after each save and at the end every field and every input script is compared with a reference; some resumed builders get a further input and output; crowds have 250 to 300 inputs; foreign transactions, of whose inputs the lock script, value, flags or kind may not be known, are resumed (by way of the saved transaction or of the builder) and must come out as they went in, signed inputs included; non-trivial if there are several inputs or a resume.");
    // sign_input reports on standard output; keep it out of the check's.
    let quiet = Quiet::new();
    ctx.suite("histories", 20_000, 400_000, strategy, check);
    ctx.suite("foreign", 12_000, 300_000, foreign_strategy, foreign);
    ctx.suite("crowds", 120, 1_500, crowd, check);
    drop(quiet);
    (json!({}), vec!["Signatories always build a non-empty script: an empty one cannot be told from an unsigned input.", "Sums of amounts stay below 2^60."])
}
