//! C06: what TxBuilder::build does with the money.
use crate::builder::*;
use crate::model::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::BitcoinCode;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    Simple,
    New(i32, u32),
    Fee(i32, u32, u64),
    /// Resumed from a transaction with these inputs and outputs.
    From(MTx),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Input { txid: Hex, vout: u32, sequence: u32, value: u64, sig: MSig },
    Output(MOut),
    Outputs(Vec<MOut>),
    Leftover { lower: u64, upper: u64, precedence: i32, script: MScript },
    DefaultLeftover(MScript),
    SetFee(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    start: Start,
    calls: Vec<Call>,
    /// Makes the money left over equal to the sum of the selected bounds and fees, plus a bit.
    tune: Option<(u32, i64)>,
}

#[derive(Clone)]
enum Slot {
    Known(MOut),
    Left { lower: u64, upper: u64, precedence: i32, script: MScript },
}

struct Model {
    version: i32,
    lock_time: u32,
    fee: u64,
    /// Outpoint, sequence, value, size of the script
    inputs: Vec<(Vec<u8>, u32, u64, usize)>,
    slots: Vec<Slot>,
}

impl Model {
    fn new(c: &Case) -> Model {
        let mut m = Model { version: 1, lock_time: 0, fee: 1000, inputs: vec![], slots: vec![] };
        match &c.start {
            Start::Simple => {}
            Start::New(v, l) => (m.version, m.lock_time) = (*v, *l),
            Start::Fee(v, l, f) => (m.version, m.lock_time, m.fee) = (*v, *l, *f),
            Start::From(tx) => {
                (m.version, m.lock_time) = (tx.version, tx.lock_time);
                for i in &tx.inputs {
                    m.inputs.push((outpoint_bytes(&i.txid, i.vout), i.sequence, i.value.unwrap_or(0), script_bytes(&i.script).len()))
                }
                m.slots.extend(tx.outputs.iter().cloned().map(Slot::Known));
            }
        }
        for call in &c.calls {
            match call {
                Call::Input { txid, vout, sequence, value, sig } => {
                    m.inputs.push((outpoint_bytes(txid, *vout), *sequence, *value, sig.estimate()))
                }
                Call::Output(o) => m.slots.push(Slot::Known(o.clone())),
                Call::Outputs(o) => m.slots.extend(o.iter().cloned().map(Slot::Known)),
                Call::Leftover { lower, upper, precedence, script } => {
                    m.slots.push(Slot::Left { lower: *lower, upper: *upper, precedence: *precedence, script: script.clone() })
                }
                Call::DefaultLeftover(s) => {
                    m.slots.push(Slot::Left { lower: 546, upper: u64::MAX, precedence: 0, script: s.clone() })
                }
                Call::SetFee(f) => m.fee = *f,
            }
        }
        m
    }
    fn known(&self) -> u64 {
        self.slots.iter().map(|s| if let Slot::Known(o) = s { o.value } else { 0 }).sum()
    }
    fn input_sum(&self) -> u64 {
        self.inputs.iter().map(|i| i.2).sum()
    }
    fn size(&self, outputs: &[MOut]) -> usize {
        let mut n = 8 + refs::compact_size(self.inputs.len() as u64).len() + refs::compact_size(outputs.len() as u64).len();
        for i in &self.inputs {
            n += 40 + refs::compact_size(i.3 as u64).len() + i.3
        }
        n + outputs.iter().map(|o| o.encode().len()).sum::<usize>()
    }
    fn outputs(&self, amounts: &[Option<u64>]) -> Vec<MOut> {
        self.slots
            .iter()
            .zip(amounts)
            .filter_map(|(s, a)| match s {
                Slot::Known(o) => Some(o.clone()),
                Slot::Left { script, .. } => a.map(|value| MOut { value, script: script.clone() }),
            })
            .collect()
    }
    /// Indices of the leftover outputs in the order they are served.
    fn order(&self) -> Vec<usize> {
        let mut v: Vec<(i32, usize)> = self
            .slots
            .iter()
            .enumerate()
            .filter_map(|(i, s)| if let Slot::Left { precedence, .. } = s { Some((*precedence, i)) } else { None })
            .collect();
        v.sort();
        v.into_iter().map(|x| x.1).collect()
    }
    fn fee_of(&self, size: usize) -> u64 {
        (size as u128 * self.fee as u128 / 1000) as u64
    }
    /// The amounts of the leftover outputs and the estimated size; the missing amount if any.
    fn build(&self, obs: &mut Obs) -> Result<(Vec<Option<u64>>, usize), u64> {
        let (known, total) = (self.known(), self.input_sum());
        if known > total {
            return Err(known - total);
        }
        let mut amounts = vec![None; self.slots.len()];
        let mut left = total - known;
        let mut size = self.size(&self.outputs(&amounts));
        for i in self.order() {
            let Slot::Left { lower, upper, .. } = self.slots[i] else { unreachable!() };
            amounts[i] = Some(0);
            let candidate = self.size(&self.outputs(&amounts));
            amounts[i] = None;
            let fee = self.fee_of(candidate);
            if left < fee || (left - fee).min(upper) <= lower {
                obs.class(if left < fee { "no-money-for-fee" } else if left - fee <= lower { "below-lower-bound" } else { "empty-range" });
                continue;
            }
            let v = (left - fee).min(upper);
            obs.class(if v < left - fee { "capped" } else if upper == v { "exactly-upper-bound" } else { "takes-the-rest" });
            obs.class_if(v == lower + 1, "just-above-lower-bound");
            amounts[i] = Some(v);
            left -= v;
            size = candidate;
        }
        Ok((amounts, size))
    }
}

/// The calls with the first input's value changed as `tune` says.
fn tuned(c: &Case) -> Case {
    let mut c = c.clone();
    let Some((mask, delta)) = c.tune else { return c };
    let m = Model::new(&c);
    let mut terms = Vec::new();
    let mut amounts = vec![None; m.slots.len()];
    for i in m.order() {
        let Slot::Left { lower, upper, .. } = m.slots[i] else { unreachable!() };
        let keep = amounts[i];
        amounts[i] = Some(0);
        terms.push(lower);
        terms.push(upper);
        terms.push(m.fee_of(m.size(&m.outputs(&amounts))));
        let mut alone = vec![None; m.slots.len()];
        alone[i] = Some(0);
        terms.push(m.fee_of(m.size(&m.outputs(&alone))));
        let _ = keep;
    }
    let mut sum = m.known() as i128 + delta as i128;
    for (k, t) in terms.iter().enumerate().take(32) {
        if mask >> k & 1 == 1 && *t < 1 << 55 {
            sum += *t as i128
        }
    }
    let inputs = m.input_sum();
    for call in c.calls.iter_mut() {
        if let Call::Input { value, .. } = call {
            sum -= (inputs - *value) as i128;
            if sum >= 0 && sum < 1 << 60 {
                *value = sum as u64
            }
            break;
        }
    }
    c
}

fn make(c: &Case) -> bch::TxBuilder<'static> {
    let mut b = match &c.start {
        Start::Simple => bch::TxBuilder::new_simple(),
        Start::New(v, l) => bch::TxBuilder::new(*v, *l),
        Start::Fee(v, l, f) => bch::TxBuilder::new_with_fee(*v, *l, *f),
        Start::From(tx) => bch::TxBuilder::from_tx(tx.tx()),
    };
    for call in &c.calls {
        match call {
            Call::Input { txid, vout, sequence, value, sig } => {
                let input = bch::UnsignedTxInput {
                    prev_out: bch::TxOutpoint { tx_hash: hash32(txid), vout: *vout },
                    sequence: *sequence,
                    value: *value,
                };
                sig.add(&mut b, input);
            }
            Call::Output(o) => b.add_output(o.output()),
            Call::Outputs(o) => b.add_outputs(o.iter().map(|o| o.output())),
            Call::Leftover { lower, upper, precedence, script: s } => {
                b.add_leftover_output_bounded(*lower, *upper, *precedence, script(s))
            }
            Call::DefaultLeftover(s) => b.add_leftover_output(script(s)),
            Call::SetFee(f) => b.set_fee_per_kb(*f),
        }
    }
    b
}

fn outs(o: &[bch::TxOutput]) -> Vec<(u64, String)> {
    o.iter().map(|o| (o.value, hex::encode(o.script.ser_ops().as_slice()))).collect()
}
fn mouts(o: &[MOut]) -> Vec<(u64, String)> {
    o.iter().map(|o| (o.value, hex::encode(script_bytes(&o.script)))).collect()
}

fn check(case: &Case, obs: &mut Obs) -> Result<(), String> {
    let c = tuned(case);
    let m = Model::new(&c);
    let want = m.build(obs);
    let n_left = m.order().len();
    obs.nontrivial(n_left > 0 && !m.inputs.is_empty());
    obs.class_if(n_left > 1, "several-leftovers");
    obs.class_if(matches!(c.start, Start::From(_)), "resumed");
    let b = make(&c);
    ensure_eq!(b.version(), m.version, "version");
    ensure_eq!(b.lock_time(), m.lock_time, "lock time");
    ensure_eq!(b.known_output_sum(), m.known(), "sum of fixed outputs");
    ensure_eq!(b.input_sum(), m.input_sum(), "sum of inputs");
    // Without estimation: exactly the fixed outputs, and only if there is nothing else.
    let plain = make(&c).build_without_estimation();
    ensure_eq!(plain.is_ok(), n_left == 0, "build_without_estimation succeeds");
    if let Ok(u) = plain {
        ensure_eq!(outs(&u.partial_tx().outputs), mouts(&m.outputs(&vec![None; m.slots.len()])), "outputs without estimation");
    }
    let unsigned = match (b.build(), &want) {
        (Ok(u), Ok(_)) => u,
        (Err(bch::error::Error::InsufficientInputAmount { amount }), Err(missing)) => {
            obs.class("insufficient");
            ensure_eq!(amount, *missing, "missing amount");
            return Ok(());
        }
        (Ok(_), Err(missing)) => return Err(format!("built although {} is missing", missing)),
        (Err(e), _) => return Err(format!("unexpected error {}", e)),
    };
    let (amounts, size) = want.unwrap();
    let estimated = unsigned.estimated_size();
    let again = {
        let first = make(&c).build().map_err(|e| e.to_string())?;
        let second = first.into_tx_builder().build().map_err(|e| e.to_string())?;
        (second.estimated_size(), second.partial_tx())
    };
    let tx = unsigned.partial_tx();
    ensure_eq!(tx.version, m.version, "transaction version");
    ensure_eq!(tx.lock_time, m.lock_time, "transaction lock time");
    let ins: Vec<_> = tx.inputs.iter().map(|i| (i.prev_out.ser().to_vec(), i.sequence, i.value)).collect();
    let resumed = if let Start::From(t) = &c.start { t.inputs.clone() } else { vec![] };
    let want_ins: Vec<_> = m
        .inputs
        .iter()
        .enumerate()
        .map(|(k, i)| {
            // A resumed input that is already signed is kept as it is.
            let value = match resumed.get(k) {
                Some(r) if !r.script.is_empty() => r.value,
                _ => Some(i.2),
            };
            (i.0.clone(), i.1, value)
        })
        .collect();
    ensure_eq!(ins, want_ins, "inputs");
    // Invariants first, they explain more.
    let paid: u128 = tx.outputs.iter().map(|o| o.value as u128).sum();
    let fee = (m.input_sum() as u128).checked_sub(paid);
    let fee = match fee {
        Some(f) => f,
        None => return Err(format!("outputs {} exceed inputs {}", paid, m.input_sum())),
    };
    if amounts.iter().any(|a| a.is_some()) {
        let due = estimated as u128 * m.fee as u128 / 1000;
        ensure!(fee >= due, "fee {} is below {} for {} bytes", fee, due, estimated);
    }
    ensure_eq!(outs(&tx.outputs), mouts(&m.outputs(&amounts)), "outputs");
    ensure_eq!(estimated, size, "estimated size");
    ensure_eq!(outs(&again.1.outputs), outs(&tx.outputs), "outputs of a rebuilt builder");
    ensure_eq!(again.0, estimated, "estimated size of a rebuilt builder");
    Ok(())
}

fn amount() -> BoxedStrategy<u64> {
    prop_oneof![
        Just(0u64), Just(1), Just(545), Just(546), Just(547), 0u64..3000, 0u64..10_000_000, 0u64..(1 << 55)
    ]
    .boxed()
}

fn small_out() -> BoxedStrategy<MOut> {
    (amount(), mscript(3, false)).prop_map(|(value, script)| MOut { value, script }).boxed()
}

fn fee_rate() -> BoxedStrategy<u64> {
    prop_oneof![Just(0u64), Just(1), Just(999), Just(1000), Just(1001), 0u64..6000, 0u64..1_000_000_000].boxed()
}

fn bound() -> BoxedStrategy<u64> {
    prop_oneof![3 => amount(), 1 => Just(u64::MAX), 1 => Just(546u64), 1 => Just(u64::MAX - 1), 2 => 0u64..2000].boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    let start = prop_oneof![
        3 => Just(Start::Simple),
        1 => (i32_edge(), u32_edge()).prop_map(|(v, l)| Start::New(v, l)),
        2 => (i32_edge(), u32_edge(), fee_rate()).prop_map(|(v, l, f)| Start::Fee(v, l, f)),
        1 => (i32_edge(), u32_edge(), vec((min(3, false), proptest::option::of(amount())), 0..3), vec(small_out(), 0..3)).prop_map(|(version, lock_time, ins, outputs)| {
            let inputs = ins.into_iter().map(|(mut i, v)| { i.value = v; i }).collect();
            Start::From(MTx { version, inputs, outputs, lock_time })
        }),
    ];
    let input = (txid(), u32_edge(), u32_edge(), amount(), msig())
        .prop_map(|(txid, vout, sequence, value, sig)| Call::Input { txid, vout, sequence, value, sig });
    let prec = prop_oneof![Just(0i32), -2i32..3, any::<i32>()];
    let left = (bound(), bound(), prec, mscript(3, false))
        .prop_map(|(lower, upper, precedence, script)| Call::Leftover { lower: lower.min(1 << 60), upper, precedence, script });
    let call = prop_oneof![
        4 => input,
        2 => small_out().prop_map(Call::Output),
        1 => vec(small_out(), 0..3).prop_map(Call::Outputs),
        4 => left,
        1 => mscript(3, false).prop_map(Call::DefaultLeftover),
        1 => fee_rate().prop_map(Call::SetFee),
    ];
    (start, vec(call, 0..9), proptest::option::weighted(0.8, (any::<u32>(), -3i64..=3)), any::<u32>())
        .prop_map(|(start, calls, tune, m2)| Case { start, calls, tune: tune.map(|(m, d)| (m & m2, d)) })
        .boxed()
}

/// Dozens of leftover outputs, most of them capped, so that who is served first decides who is served.
fn crowd() -> BoxedStrategy<Case> {
    let one = (prop_oneof![3 => 0u64..600, 1 => amount()], 0u64..3000, prop_oneof![2 => Just(0i32), 2 => 0i32..3, 1 => any::<i32>()], proptest::bool::weighted(0.9))
        .prop_map(|(lower, more, precedence, capped)| (lower, if capped { lower.saturating_add(more) } else { u64::MAX }, precedence));
    let fixed = vec((any::<proptest::sample::Index>(), 0u64..2000), 0..4);
    (vec((txid(), 0u64..60_000, msig()), 1..4), vec(one, 16..90), fixed, prop_oneof![2 => Just(0u64), 2 => 0u64..2000, 1 => fee_rate()], proptest::bool::weighted(0.7))
        .prop_map(|(inputs, left, fixed, fee, distinct)| {
            let mut calls: Vec<Call> = left
                .into_iter()
                .enumerate()
                .map(|(k, (lower, upper, precedence))| Call::Leftover {
                    lower: lower.min(1 << 60),
                    upper,
                    precedence,
                    script: if distinct { vec![MOp::Int(100 + k as i32)] } else { vec![] },
                })
                .collect();
            for (at, value) in fixed {
                calls.insert(at.index(calls.len() + 1), Call::Output(MOut { value, script: vec![MOp::Code(0x6a)] }));
            }
            for (txid, value, sig) in inputs {
                calls.push(Call::Input { txid, vout: 1, sequence: 2, value, sig });
            }
            calls.push(Call::SetFee(fee));
            Case { start: Start::Simple, calls, tune: None }
        })
        .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("build: sequences of builder calls (four ways to start, signatories of several shapes, fixed and bounded leftover outputs, precedences, fee rates), with the money left over tuned to sums of bounds and fees give or take 3; compared with a reference allocation and checked for conservation and fee; non-trivial if there is an input and a leftover output.");
    ctx.suite("build", 60_000, 1_500_000, strategy, check);
    ctx.suite("crowd", 4_000, 100_000, crowd, check);
    // Many inputs and outputs: the 3-byte counts change the size.
    let mut cases = Vec::new();
    for n in [251usize, 252, 253, 254] {
        for (ni, no) in [(n, 1), (1, n)] {
            for d in -1..=1 {
                let mut calls: Vec<Call> = (0..ni)
                    .map(|k| Call::Input {
                        txid: Hex(filled(32, k as u8)),
                        vout: k as u32,
                        sequence: 1,
                        value: 5000,
                        sig: MSig::P2pkh { hash: Hex(vec![7; 20]), pubkey: Hex(vec![2; 33]), flag: 0x41 },
                    })
                    .collect();
                calls.extend((0..no).map(|k| Call::Output(MOut { value: k as u64, script: vec![MOp::Code(0x6a)] })));
                calls.push(Call::DefaultLeftover(p2pkh_ops(&[3; 20])));
                calls.push(Call::Leftover { lower: 0, upper: 100, precedence: -1, script: vec![] });
                for mask in [0b1, 0b101, 0b1001, 0b110010, 0b110100, 0b1000_0010] {
                    cases.push(Case { start: Start::Simple, calls: calls.clone(), tune: Some((mask, d)) });
                }
            }
        }
    }
    ctx.enumerate("counts", cases, check);
    (json!({}), vec!["Sums of amounts stay below 2^60 and fee rates below 10^9 per kB, where u64 arithmetic cannot overflow."])
}
