//! C14: exporting a transaction to JSON and importing it loses nothing.
use crate::model::*;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{ByteArray, Function, Op, TaggedOp};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::borrow::Cow;

pub const FUNCTIONS: [Function; 12] = [
    Function::Plain, Function::Sha1, Function::Ripemd160, Function::Sha256, Function::Hash256, Function::Hash160,
    Function::Num2Bin, Function::EcdsaSign, Function::SchnorrSign, Function::ToDataSig, Function::UnexpectedSplit, Function::Reverse,
];

/// A byte array with provenance, as any program could have recorded it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RBytes {
    pub data: Hex,
    pub name: Option<String>,
    pub function: u8,
    pub preimage: Option<Vec<RBytes>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    M(MOp),
    Push(RBytes, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RTagged {
    op: ROp,
    file: String,
    line: u32,
    column: u32,
    code: Vec<(u32, String)>,
    pushed: Option<Vec<Option<String>>>,
    alt: Option<Vec<Option<String>>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RIn {
    txid: RBytes,
    base: MIn,
    script: Vec<RTagged>,
    lock_script: Option<Vec<RTagged>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RTx {
    version: i32,
    lock_time: u32,
    inputs: Vec<RIn>,
    outputs: Vec<(u64, Vec<RTagged>)>,
}

impl RBytes {
    pub fn build(&self) -> ByteArray {
        ByteArray::from_preimage(
            self.data.0.clone().into(),
            self.name.clone().map(|n| std::sync::Arc::new(Cow::Owned(n))),
            FUNCTIONS[self.function as usize % FUNCTIONS.len()],
            self.preimage.as_ref().map(|p| p.iter().map(|x| x.build()).collect::<Vec<_>>().into()),
        )
    }
}

fn names(v: &Option<Vec<Option<String>>>) -> Option<Vec<Option<Cow<'static, str>>>> {
    v.as_ref().map(|v| v.iter().map(|n| n.clone().map(Cow::Owned)).collect())
}

impl RTagged {
    fn build(&self) -> TaggedOp {
        let t = TaggedOp {
            op: match &self.op {
                ROp::M(m) => m.op(),
                ROp::Push(b, m) => Op::PushByteArray { array: b.build(), is_minimal: *m },
            },
            src_file: self.file.clone().into(),
            src_line: self.line,
            src_column: self.column,
            src_code: self.code.iter().map(|(w, c)| (*w, c.clone().into())).collect(),
            pushed_names: names(&self.pushed),
            alt_pushed_names: names(&self.alt),
        };
        // A single name can also be given afterwards.
        match self.pushed.as_deref() {
            Some([Some(name)]) => {
                let mut bare = t.clone();
                bare.pushed_names = None;
                let named = bare.named(name.clone());
                assert_eq!(named.pushed_names, t.pushed_names, "names of an operation named {:?}", name);
                named
            }
            _ => t,
        }
    }
}

fn rscript(v: &[RTagged]) -> bch::Script {
    bch::Script::new(v.iter().map(|t| t.build()).collect::<Vec<_>>())
}

impl RTx {
    pub fn build(&self) -> bch::UnhashedTx {
        bch::UnhashedTx {
            version: self.version,
            lock_time: self.lock_time,
            inputs: self
                .inputs
                .iter()
                .map(|i| {
                    let mut input = i.base.input();
                    input.prev_out.tx_hash = bch::Hashed::from_byte_array(i.txid.build()).expect("32 bytes");
                    input.script = rscript(&i.script);
                    input.lock_script = i.lock_script.as_ref().map(|s| rscript(s));
                    input
                })
                .collect(),
            outputs: self.outputs.iter().map(|(value, s)| bch::TxOutput { value: *value, script: rscript(s) }).collect(),
        }
    }
}

/// Field-by-field comparison: none of the crate's own equalities looks at tags or provenance.
pub fn diff_bytes(a: &ByteArray, b: &ByteArray, at: &str) -> Result<(), String> {
    ensure!(a[..] == b[..], "{}: data {} became {}", at, truncate(&a.hex(), 200), truncate(&b.hex(), 200));
    ensure_eq!(b.name(), a.name(), "{}: name", at);
    ensure_eq!(b.function(), a.function(), "{}: function", at);
    match (a.preimage(), b.preimage()) {
        (None, None) => Ok(()),
        (Some(p), Some(q)) => {
            ensure_eq!(q.len(), p.len(), "{}: number of sources", at);
            for (i, (x, y)) in p.iter().zip(q).enumerate() {
                diff_bytes(x, y, &format!("{}.source {}", at, i))?;
            }
            Ok(())
        }
        (p, q) => Err(format!("{}: sources {} became {}", at, if p.is_some() { "present" } else { "absent" }, if q.is_some() { "present" } else { "absent" })),
    }
}

fn diff_ops(a: &bch::Script, b: &bch::Script, at: &str) -> Result<(), String> {
    let (a, b) = (a.ops_arc(), b.ops_arc());
    ensure_eq!(b.len(), a.len(), "{}: number of operations", at);
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        let at = format!("{}, operation {}", at, i);
        ensure!(same_op(&x.op, &y.op), "{}: {:?} became {:?}", at, x.op, y.op);
        if let (Op::PushByteArray { array: p, .. }, Op::PushByteArray { array: q, .. }) = (&x.op, &y.op) {
            diff_bytes(p, q, &at)?;
        }
        ensure_eq!(y.src_file, x.src_file, "{}: file", at);
        ensure_eq!(y.src_line, x.src_line, "{}: line", at);
        ensure_eq!(y.src_column, x.src_column, "{}: column", at);
        ensure_eq!(y.src_code, x.src_code, "{}: code", at);
        ensure_eq!(y.pushed_names, x.pushed_names, "{}: pushed names", at);
        ensure_eq!(y.alt_pushed_names, x.alt_pushed_names, "{}: alt pushed names", at);
    }
    Ok(())
}

pub fn diff_tx(a: &bch::UnhashedTx, b: &bch::UnhashedTx) -> Result<(), String> {
    ensure_eq!(b.version, a.version, "version");
    ensure_eq!(b.lock_time, a.lock_time, "lock time");
    ensure_eq!(b.inputs.len(), a.inputs.len(), "inputs");
    ensure_eq!(b.outputs.len(), a.outputs.len(), "outputs");
    for (i, (x, y)) in a.inputs.iter().zip(&b.inputs).enumerate() {
        let at = format!("input {}", i);
        diff_bytes(bch::Hashed::as_byte_array(&x.prev_out.tx_hash), bch::Hashed::as_byte_array(&y.prev_out.tx_hash), &format!("{} hash", at))?;
        ensure_eq!(y.prev_out.vout, x.prev_out.vout, "{}: vout", at);
        ensure_eq!(y.sequence, x.sequence, "{}: sequence", at);
        ensure_eq!(y.value, x.value, "{}: value", at);
        ensure_eq!(y.is_p2sh, x.is_p2sh, "{}: is_p2sh", at);
        ensure_eq!(y.sig_hash_flags, x.sig_hash_flags, "{}: sighash flags", at);
        diff_ops(&x.script, &y.script, &format!("{} script", at))?;
        match (&x.lock_script, &y.lock_script) {
            (None, None) => {}
            (Some(p), Some(q)) => diff_ops(p, q, &format!("{} locking script", at))?,
            (p, q) => return Err(format!("{}: locking script {:?} became {:?}", at, p, q)),
        }
    }
    for (i, (x, y)) in a.outputs.iter().zip(&b.outputs).enumerate() {
        ensure_eq!(y.value, x.value, "output {}: value", i);
        diff_ops(&x.script, &y.script, &format!("output {} script", i))?;
    }
    ensure!(a == b, "the transactions compare unequal");
    Ok(())
}

fn all_distinct(v: &serde_json::Value, what: &str) -> Result<(), String> {
    if let Some(list) = v.as_array() {
        let set: std::collections::HashSet<String> = list.iter().map(|x| x.to_string()).collect();
        ensure!(set.len() == list.len(), "{} holds repeated entries: {}", what, truncate(&v.to_string(), 500));
    }
    Ok(())
}

pub fn check_tx(tx: &bch::UnhashedTx) -> Result<(), String> {
    let doc = bch::tx_to_json(tx).map_err(|e| format!("export: {}", e))?;
    let back = bch::json_to_tx(&doc).map_err(|e| format!("import of {}: {}", truncate(&doc, 1500), e))?;
    diff_tx(tx, &back).map_err(|e| format!("{} (document {})", e, truncate(&doc, 1500)))?;
    let again = bch::tx_to_json(&back).map_err(|e| format!("second export: {}", e))?;
    diff_tx(tx, &bch::json_to_tx(&again).map_err(|e| format!("second import: {}", e))?)?;
    let v: serde_json::Value = serde_json::from_str(&doc).map_err(|e| e.to_string())?;
    all_distinct(&v["data"]["data_b64"], "the data list")?;
    all_distinct(&v["data"]["strings"], "the string list")?;
    // The document survives being written out differently.
    let pretty = serde_json::to_string_pretty(&v).unwrap();
    diff_tx(tx, &bch::json_to_tx(&pretty).map_err(|e| format!("import of the pretty-printed document: {}", e))?)
}

fn weight(b: &RBytes) -> (usize, usize) {
    let mut w = (1, 1);
    for p in b.preimage.iter().flatten() {
        let x = weight(p);
        w = (w.0 + x.0, w.1.max(x.1 + 1));
    }
    w
}

fn check(c: &RTx, obs: &mut Obs) -> Result<(), String> {
    let ops: Vec<&RTagged> = c.inputs.iter().flat_map(|i| i.script.iter().chain(i.lock_script.iter().flatten())).chain(c.outputs.iter().flat_map(|o| &o.1)).collect();
    let trees: Vec<(usize, usize)> = ops.iter().filter_map(|o| match &o.op { ROp::Push(b, _) => Some(weight(b)), _ => None }).collect();
    obs.nontrivial(ops.len() >= 2 && !c.inputs.is_empty());
    obs.class_if(trees.iter().any(|t| t.1 >= 3), "nested-provenance");
    obs.class_if(trees.iter().any(|t| t.0 >= 5), "wide-provenance");
    obs.class_if(ops.iter().any(|o| o.pushed.is_some() && o.alt.is_some()), "stack-names");
    obs.class_if(c.inputs.iter().any(|i| i.lock_script.is_some()), "locking-script");
    check_tx(&c.build())
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["", "a", "b", "sig", "pubkey", "src/lib.rs", "<unknown>", "0", "null", "OP_DUP(a)", "\"quoted\\\"", "tab\tnew\nline", "ünïcödé 🦀", "\u{0}"]).prop_map(str::to_string),
        1 => any::<String>(),
        1 => "[a-z]{1,12}",
    ]
    .boxed()
}

fn rdata() -> BoxedStrategy<Hex> {
    prop_oneof![
        4 => prop::sample::select(vec![vec![], vec![0u8], vec![1], vec![0, 0], vec![0xff; 3], vec![1, 2, 3, 4], vec![7; 20], vec![9; 32]]),
        2 => vec(any::<u8>(), 0..40),
        1 => vec(any::<u8>(), 32),
    ]
    .prop_map(Hex)
    .boxed()
}

pub fn rbytes() -> BoxedStrategy<RBytes> {
    (rdata(), option::of(text()), 0u8..12, prop::bool::weighted(0.1))
        .prop_map(|(data, name, function, empty)| RBytes { data, name, function, preimage: if empty { Some(vec![]) } else { None } })
        .prop_recursive(5, 16, 3, |inner| {
            (rdata(), option::of(text()), 0u8..12, vec(inner, 0..4)).prop_map(|(data, name, function, p)| RBytes { data, name, function, preimage: Some(p) })
        })
        .boxed()
}

fn rtagged() -> BoxedStrategy<RTagged> {
    let op = prop_oneof![1 => mop(false).prop_map(ROp::M), 1 => (rbytes(), any::<bool>()).prop_map(|(b, m)| ROp::Push(b, m))];
    let names = || option::of(vec(option::of(text()), 0..5));
    (op, text(), u32_edge(), u32_edge(), vec((u32_edge(), text()), 0..3), names(), names())
        .prop_map(|(op, file, line, column, code, pushed, alt)| RTagged { op, file, line, column, code, pushed, alt })
        .boxed()
}

pub fn rtx() -> BoxedStrategy<RTx> {
    let txid = (rbytes(), vec(any::<u8>(), 32), any::<bool>()).prop_map(|(mut b, d, plain)| {
        if b.data.0.len() != 32 {
            b.data = Hex(d)
        }
        if plain {
            b = RBytes { preimage: None, name: None, function: 0, ..b }
        }
        b
    });
    let input = (txid, min(0, false), vec(rtagged(), 0..4), option::of(vec(rtagged(), 0..4))).prop_map(|(txid, base, script, lock_script)| RIn { txid, base, script, lock_script });
    (i32_edge(), u32_edge(), vec(input, 0..4), vec((u64_edge(), vec(rtagged(), 0..4)), 0..4))
        .prop_map(|(version, lock_time, inputs, outputs)| RTx { version, lock_time, inputs, outputs })
        .boxed()
}

/// Provenance as the library itself records it: hash chains, concatenations, splits.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain(Hex, Vec<u8>);

fn check_chain(c: &Chain, obs: &mut Obs) -> Result<(), String> {
    use bch::Hashed;
    let mut b = ByteArray::new("start", c.0 .0.clone());
    let mut n = 1usize;
    for (i, s) in c.1.iter().enumerate() {
        b = match s % 7 {
            0 => bch::Sha256::digest(b).into(),
            1 => bch::Hash160::digest(b).named(format!("step{}", i)).into(),
            2 => {
                n += 1;
                b.concat(ByteArray::new("tail", vec![*s; 3]))
            }
            3 if n < 200 => {
                n *= 2;
                b.clone().concat(b)
            }
            4 => {
                let at = b.len() / 2;
                b.split(at).map_err(|e| e.to_string())?.0
            }
            5 => bch::Sha256d::digest(b).into(),
            _ => b.named("again"),
        };
    }
    obs.nontrivial(c.1.len() > 3);
    obs.class_if(c.1.len() > 50, "deep");
    let m = MTx { version: 1, inputs: vec![], outputs: vec![], lock_time: 0 };
    let mut tx = m.tx();
    tx.outputs.push(bch::TxOutput { value: 1, script: bch::Script::new(vec![TaggedOp::from_op(Op::from_array(b))]) });
    check_tx(&tx)
}

/// A document of many entries: how many inputs, operations per script and sources per push, and
/// after how many operations the names and data repeat.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    inputs: usize,
    outputs: usize,
    ops: usize,
    sources: usize,
    period: usize,
}

impl Wide {
    fn ops(&self, from: usize, n: usize) -> Vec<RTagged> {
        (from..from + n)
            .map(|i| {
                let k = i % self.period;
                let leaf = |j: usize| RBytes { data: Hex(format!("{}:{}", j, k).into_bytes()), name: (j % 3 == 0).then(|| format!("part{}", j)), function: 0, preimage: None };
                let sources: Vec<RBytes> = (0..self.sources).map(leaf).collect();
                let data = sources.iter().flat_map(|s| s.data.0.clone()).collect();
                let push = RBytes { data: Hex(data), name: Some(format!("push{}", k)), function: (k % 12) as u8, preimage: (self.sources > 0).then(|| sources) };
                RTagged {
                    op: match i % 3 {
                        0 => ROp::M(MOp::Code(0x76)),
                        1 => ROp::M(MOp::Int(k as i32)),
                        _ => ROp::Push(push, true),
                    },
                    file: format!("file{}.rs", if k % 7 == 0 { k } else { k % 400 }),
                    line: k as u32,
                    column: i as u32,
                    code: vec![(i as u32, format!("code {}", k))],
                    pushed: (i % 2 == 0).then(|| (0..k % 300).map(|j| (j % 7 > 0).then(|| format!("item{}", if j % 50 == 1 { k * 300 + j } else { j }))).collect()),
                    alt: (i % 5 == 0).then(|| vec![Some(format!("alt{}", k))]),
                }
            })
            .collect()
    }
    fn tx(&self) -> RTx {
        let m = wide_tx(self.inputs, 0);
        RTx {
            version: 1,
            lock_time: 0,
            inputs: m
                .inputs
                .into_iter()
                .enumerate()
                .map(|(i, base)| RIn {
                    txid: RBytes { data: base.txid.clone(), name: (i % 2 == 0).then(|| format!("tx{}", i)), function: 4, preimage: None },
                    script: self.ops(i * 5, self.ops),
                    lock_script: (i % 3 > 0).then(|| self.ops(i, self.ops / 2)),
                    base,
                })
                .collect(),
            outputs: (0..self.outputs).map(|i| (i as u64, self.ops(i * 3, self.ops))).collect(),
        }
    }
}

fn wide() -> Vec<Wide> {
    let w = |inputs, outputs, ops, sources, period| Wide { inputs, outputs, ops, sources, period };
    vec![
        w(260, 3, 2, 1, 50), w(3, 260, 3, 2, 100), w(300, 300, 1, 0, 500), w(1, 1, 300, 2, 1_000), w(1, 1, 4_000, 1, 5_000), w(2, 2, 3, 300, 10),
        w(1, 1, 3, 5_000, 3), w(0, 1, 900, 90, 900), w(1, 0, 70_000, 0, 300), w(0, 1, 210_000, 1, 210_001), w(0, 2, 3, 70_000, 3), w(0, 70_000, 1, 0, 200),
    ]
}

/// Values that differ from one another in next to nothing, in one document.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twins {
    base: Hex,
    text: String,
    at: u16,
    order: u8,
}

impl Twins {
    fn tx(&self) -> RTx {
        let leaf = |d: Vec<u8>| RBytes { data: Hex(d), name: None, function: 0, preimage: None };
        let base = self.base.0.clone();
        let mut datas = vec![base.clone()];
        for at in [self.at as usize % base.len().max(1), 0, base.len().saturating_sub(1), base.len() / 2] {
            let mut d = base.clone();
            if let Some(b) = d.get_mut(at) {
                *b ^= 1 << (self.at % 8);
            }
            datas.push(d);
        }
        datas.push(base.iter().rev().cloned().collect());
        datas.push(base.iter().cloned().chain([0]).collect());
        datas.push([0].into_iter().chain(base.iter().cloned()).collect());
        datas.push(base[..base.len().saturating_sub(1)].to_vec());
        datas.push(base.iter().skip(1).cloned().collect());
        let mut values: Vec<RBytes> = datas.iter().map(|d| leaf(d.clone())).collect();
        let same = leaf(base.clone());
        let t = self.text.clone();
        let chars: Vec<char> = t.chars().collect();
        let mut texts = vec![t.clone(), t.to_uppercase(), t.to_lowercase(), format!("{} ", t), format!(" {}", t), format!("{}\n", t), format!("{}\0", t), format!("{}{}", t, t), String::new()];
        texts.push(chars.iter().rev().collect());
        texts.push(chars.iter().take(chars.len().saturating_sub(1)).collect());
        for at in [self.at as usize % chars.len().max(1), 0, chars.len().saturating_sub(1)] {
            let mut c = chars.clone();
            if let Some(c) = c.get_mut(at) {
                *c = if *c == 'q' { 'r' } else { 'q' };
            }
            texts.push(c.into_iter().collect());
        }
        values.extend(texts.iter().map(|n| RBytes { name: Some(n.clone()), ..same.clone() }));
        // Data that are the text itself.
        values.push(leaf(t.clone().into_bytes()));
        values.extend((0..12).map(|function| RBytes { function, ..same.clone() }));
        let (other, named) = (values[1].clone(), values[datas.len()].clone());
        for preimage in [vec![], vec![same.clone()], vec![named.clone()], vec![other.clone()], vec![same.clone(), other.clone()], vec![other.clone(), same.clone()], vec![same.clone(), same.clone()]] {
            values.push(RBytes { function: self.order % 12, preimage: Some(preimage.clone()), ..same.clone() });
            values.push(RBytes { preimage: Some(vec![RBytes { preimage: Some(preimage), ..same.clone() }]), ..same.clone() });
        }
        let n = values.len();
        values.rotate_left(self.order as usize % n);
        if self.order % 2 == 1 {
            values.reverse();
        }
        let script: Vec<RTagged> = values
            .into_iter()
            .enumerate()
            .map(|(i, v)| {
                let text = |k: usize| texts[(i + k + self.order as usize) % texts.len()].clone();
                RTagged {
                    op: ROp::Push(v, i % 2 == 0),
                    file: text(0),
                    line: i as u32,
                    column: 0,
                    code: vec![(1, text(1)), (1, text(2))],
                    pushed: Some(vec![Some(text(3)), None, Some(text(4))]),
                    alt: Some(vec![None, Some(text(5))]),
                }
            })
            .collect();
        RTx { version: 1, lock_time: 0, inputs: vec![], outputs: vec![(0, script)] }
    }
}

fn twins() -> BoxedStrategy<Twins> {
    let size = prop_oneof![3 => 1usize..70, 2 => prop::sample::select(vec![1usize, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1_000, 1_023, 1_024, 1_025, 4_095, 4_096, 4_097])];
    let base = prop_oneof![2 => size.clone().prop_flat_map(|n| vec(any::<u8>(), n)), 1 => (size.clone(), any::<u8>()).prop_map(|(n, b)| vec![b; n])];
    let text = prop_oneof![2 => "[a-zA-Z_ ]{1,20}", 1 => text(), 1 => (size, prop::sample::select(vec!['a', 'É', 'ß', '0'])).prop_map(|(n, c)| std::iter::repeat(c).take(n).collect())];
    (base, text, any::<u16>(), any::<u8>()).prop_map(|(base, text, at, order)| Twins { base: Hex(base), text, at, order }).boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("tagged: transactions whose operations carry random source tags, stack names and byte arrays with random nested provenance, drawn from small pools so that data and strings repeat; chains: provenance recorded by up to 150 library operations (up to 990 nested hashes in one enumerated case); twins: documents of some fifty values and a dozen texts that differ from one another in one bit, one character, case, an added or missing end, name, function or sources; wide: documents of up to 70,000 inputs, outputs, operations, names, strings, byte arrays or sources; plain: transactions without tags; export and import compared field by field; non-trivial: at least two operations and one input, or more than three chain steps.");
    ctx.suite("tagged", 30_000, 600_000, rtx, check);
    ctx.suite("chains", 8_000, 100_000, || (rdata(), prop_oneof![3 => vec(any::<u8>(), 0..20), 1 => vec(any::<u8>(), 0..150)]).prop_map(|(d, s)| Chain(d, s)), check_chain);
    ctx.suite("twins", 1_500, 20_000, twins, |t, obs| {
        obs.class_if(t.base.0.len() > 64, "long-twins");
        check(&t.tx(), obs)?;
        obs.nontrivial(true);
        Ok(())
    });
    ctx.enumerate("deep", [400, 990].into_iter().flat_map(|n| [0, 2].map(|step| Chain(Hex(vec![1]), vec![step; n]))), check_chain);
    ctx.enumerate("wide", wide(), |w, obs| check(&w.tx(), obs));
    ctx.suite("plain", 8_000, 100_000, || mtx(4, false), |m, obs| {
        obs.nontrivial(!m.inputs.is_empty() && !m.outputs.is_empty());
        let tx = m.tx();
        check_tx(&tx)?;
        let doc = bch::tx_to_json(&tx).map_err(|e| e.to_string())?;
        let back = bch::json_to_tx(&doc).map_err(|e| e.to_string())?;
        ensure_eq!(hex::encode(&bch::BitcoinCode::ser(&back)[..]), hex::encode(m.encode()), "wire bytes after import");
        Ok(())
    });
    (json!({}), vec!["Provenance nested deeper than 990 values is not explored."])
}
