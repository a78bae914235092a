//! C13: byte-array provenance always reproduces the bytes.
use crate::model::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, ByteArray, ByteArrayError, Function, Hashed, Integer};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    New(Hex, Option<u8>, u8),
    Name(u8, u8, bool),
    Concat(u8, u8, Option<u8>),
    Join(Vec<u8>),
    /// value, position (per mille of the length, or just before/at/after a part boundary)
    Split(u8, u16, u8),
    SplitPast(u8, u8),
    Hash(u8, u8, bool),
    Apply(u8, u8, Hex),
    Int(i32, u8),
    FromPreimage(Vec<u8>),
    Fixed(u8),
}
use Step::*;

struct Entry {
    v: ByteArray,
    data: Vec<u8>,
    name: Option<String>,
    /// Whether the name after the operation is settled by the statement.
    name_known: bool,
    /// The function the history calls for, when it leaves no choice.
    function: Option<Function>,
    weight: usize,
}

const HASHES: [Function; 5] = [Function::Sha1, Function::Ripemd160, Function::Sha256, Function::Hash256, Function::Hash160];

fn hash_of(f: Function, d: &[u8]) -> Option<Vec<u8>> {
    Some(match f {
        Function::Sha1 => refs::sha1(d),
        Function::Ripemd160 => refs::ripemd160(d),
        Function::Sha256 => refs::sha256(d),
        Function::Hash256 => refs::sha256d(d),
        Function::Hash160 => refs::hash160(d),
        _ => return None,
    })
}

fn std_hash(v: &ByteArray) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// (function, result, concatenated sources) of every function applied in the history.
type Registry = HashSet<(String, Vec<u8>, Option<Vec<u8>>)>;

fn key(f: Function, data: &[u8], pre: Option<Vec<u8>>) -> (String, Vec<u8>, Option<Vec<u8>>) {
    (format!("{:?}", f), data.to_vec(), pre)
}

/// Checks every claim in a provenance tree.
pub fn truthful(v: &ByteArray, registry: Option<&Registry>, path: &str) -> Result<usize, String> {
    let mut weight = 1;
    let pre = v.preimage().map(|p| p.iter().flat_map(|x| x.to_vec()).collect::<Vec<u8>>());
    match v.function() {
        Function::Plain => {
            if let Some(p) = &pre {
                ensure!(p[..] == v[..], "{}: a plain value {} has recorded parts that concatenate to {}", path, truncate(&v.hex(), 300), truncate(&hex::encode(p), 300));
            }
        }
        Function::UnexpectedSplit => {}
        f => {
            if let Some(p) = &pre {
                if let Some(h) = hash_of(f, p) {
                    ensure_eq!(v.preimage().unwrap().len(), 1, "{}: sources of a {:?}", path, f);
                    ensure!(h[..] == v[..], "{}: {} is shown as the {:?} of {}", path, v.hex(), f, truncate(&hex::encode(p), 300));
                }
            }
            if let Some(r) = registry {
                ensure!(
                    r.contains(&key(f, v, pre.clone())),
                    "{}: {} is shown as the result of {:?} from {:?}, which the history never computed",
                    path, truncate(&v.hex(), 300), f, pre.as_ref().map(|p| truncate(&hex::encode(p), 300))
                );
            }
        }
    }
    for (i, p) in v.preimage().unwrap_or(&[]).iter().enumerate() {
        weight += truthful(p, registry, &format!("{}.{}", path, i))?;
    }
    Ok(weight)
}

fn unexpected(v: &ByteArray) -> bool {
    v.function() == Function::UnexpectedSplit || v.preimage().unwrap_or(&[]).iter().any(unexpected)
}

fn name(n: u8) -> String {
    ["a", "b", "sig", "pubkey", "", "ünïcode", "preimage", "x"][n as usize % 8].to_string()
}

fn digest(f: Function, v: ByteArray, named: bool) -> ByteArray {
    macro_rules! d {
        ($t:ty) => {{
            let h = <$t>::digest(v);
            let h = if named { h.named("digest") } else { h };
            <$t>::from_byte_array(h.into_byte_array()).expect("length").into()
        }};
    }
    match f {
        Function::Sha1 => d!(bch::Sha1),
        Function::Ripemd160 => d!(bch::Ripemd160),
        Function::Sha256 => d!(bch::Sha256),
        Function::Hash256 => d!(bch::Sha256d),
        _ => d!(bch::Hash160),
    }
}

fn check(steps: &Vec<Step>, obs: &mut Obs) -> Result<(), String> {
    check_within(steps, obs, 4_000, 2_000)
}

/// Histories of long values and values of many parts.
fn check_big(steps: &Vec<Step>, obs: &mut Obs) -> Result<(), String> {
    check_within(steps, obs, 400_000, 30_000)
}

/// `bytes` and `parts` bound the length and the provenance tree of joined values.
fn check_within(steps: &Vec<Step>, obs: &mut Obs, bytes: usize, parts_limit: usize) -> Result<(), String> {
    let mut pool: Vec<Entry> = vec![];
    let mut registry = Registry::new();
    let (mut nested_split, mut fn_split, mut ops) = (false, false, 0);
    for (n, step) in steps.iter().enumerate() {
        if pool.is_empty() && !matches!(step, New(..) | Int(..)) {
            continue;
        }
        let at = |i: u8| i as usize % pool.len().max(1);
        let mut made: Vec<Entry> = vec![];
        let entry = |v: ByteArray, data: Vec<u8>, name: Option<String>, name_known: bool, function: Option<Function>| Entry { v, data, name, name_known, function, weight: 0 };
        match step {
            New(d, None, how) => {
                let v = match how % 4 {
                    0 => ByteArray::new_unnamed(d.0.clone()),
                    1 => ByteArray::from_slice_unnamed(d),
                    2 => d.0.clone().into(),
                    _ => (&d.0[..]).into(),
                };
                made.push(entry(v, d.0.clone(), None, true, Some(Function::Plain)));
            }
            New(d, Some(nm), how) => {
                let v = if how % 2 == 0 { ByteArray::new(name(*nm), d.0.clone()) } else { ByteArray::from_slice(name(*nm), d) };
                made.push(entry(v, d.0.clone(), Some(name(*nm)), true, Some(Function::Plain)));
            }
            Name(i, nm, some) => {
                let e = &pool[at(*i)];
                let v = if *some { e.v.clone().named(name(*nm)) } else { e.v.clone().named_option(None) };
                ensure!(v.function() == e.v.function(), "naming changes the function");
                ensure_eq!(format!("{:?}", v.preimage()), format!("{:?}", e.v.preimage()), "naming changes the provenance");
                made.push(entry(v, e.data.clone(), if *some { Some(name(*nm)) } else { None }, true, Some(e.v.function())));
            }
            Concat(i, j, nm) => {
                let (a, b) = (&pool[at(*i)], &pool[at(*j)]);
                if a.data.len() + b.data.len() > bytes || a.weight + b.weight > parts_limit {
                    continue;
                }
                let v = match nm {
                    None => a.v.clone().concat(b.v.clone()),
                    Some(nm) => a.v.clone().concat_named(std::sync::Arc::new(std::borrow::Cow::Owned(name(*nm))), b.v.clone()),
                };
                let mut d = a.data.clone();
                d.extend(&b.data);
                made.push(entry(v, d, nm.map(name), true, Some(Function::Plain)));
            }
            Join(ix) => {
                let parts: Vec<&Entry> = ix.iter().map(|i| &pool[at(*i)]).collect();
                if parts.iter().map(|p| p.data.len()).sum::<usize>() > bytes || parts.iter().map(|p| p.weight).sum::<usize>() > parts_limit {
                    continue;
                }
                let v = ByteArray::from_parts(parts.iter().map(|p| p.v.clone()));
                let d = parts.iter().flat_map(|p| p.data.clone()).collect();
                made.push(entry(v, d, None, false, None));
            }
            Split(i, pos, mode) => {
                let e = &pool[at(*i)];
                let mut p = (*pos as usize * (e.data.len() + 1)) >> 16;
                if mode % 3 > 0 {
                    // Around a boundary between recorded parts.
                    if let Some(parts) = e.v.preimage() {
                        if !parts.is_empty() {
                            let k = *pos as usize % (parts.len() + 1);
                            p = parts[..k].iter().map(|x| x.len()).sum();
                            p = match mode % 4 {
                                0 => p,
                                1 => p.saturating_sub(1),
                                2 => p + 1,
                                _ => p,
                            };
                        }
                    }
                }
                p = p.min(e.data.len());
                let (l, r) = e.v.clone().split(p).map_err(|err| format!("step {}: split at {} of {}: {}", n, p, e.data.len(), err))?;
                nested_split |= e.v.preimage().is_some();
                fn_split |= e.v.function() != Function::Plain;
                ensure_eq!(hex::encode([&l[..], &r[..]].concat()), hex::encode(&e.data), "the halves of a split at {}", p);
                made.push(entry(l, e.data[..p].to_vec(), None, false, None));
                made.push(entry(r, e.data[p..].to_vec(), None, false, None));
            }
            SplitPast(i, by) => {
                let e = &pool[at(*i)];
                let p = e.data.len() + 1 + *by as usize;
                for p in [p, usize::MAX, usize::MAX - *by as usize] {
                    match e.v.clone().split(p) {
                        Err(ByteArrayError::InvalidSplit { .. }) => {}
                        Err(err) => return Err(format!("split at {} of {}: {}", p, e.data.len(), err)),
                        Ok(_) => return Err(format!("split at {} of {} succeeds", p, e.data.len())),
                    }
                }
                continue;
            }
            Step::Hash(i, f, named) => {
                let e = &pool[at(*i)];
                let f = HASHES[*f as usize % 5];
                let d = hash_of(f, &e.data).unwrap();
                registry.insert(key(f, &d, Some(e.data.clone())));
                let v = digest(f, e.v.clone(), *named);
                ensure!(v.preimage().map_or(false, |p| p.len() == 1 && p[0].to_vec() == e.data), "step {}: a digest without its message", n);
                made.push(entry(v, d, if *named { Some("digest".into()) } else { None }, *named, Some(f)));
            }
            Apply(i, f, d) => {
                let e = &pool[at(*i)];
                let f = [Function::EcdsaSign, Function::SchnorrSign, Function::ToDataSig, Function::Reverse, Function::Num2Bin][*f as usize % 5];
                let d = if f == Function::Reverse { e.data.iter().rev().cloned().collect() } else { d.0.clone() };
                registry.insert(key(f, &d, Some(e.data.clone())));
                let v = e.v.clone().apply_function(d.clone(), f);
                made.push(entry(v, d, None, false, Some(f)));
            }
            Int(v, w) => {
                let w = 5 + (*w % 12) as i32;
                let mut d = v.unsigned_abs().to_le_bytes().to_vec();
                d.resize(w as usize, 0);
                if *v < 0 {
                    *d.last_mut().unwrap() |= 0x80;
                }
                registry.insert(key(Function::Num2Bin, &d, None));
                let b = ByteArray::from_int(Integer::new(*v).unwrap(), Integer::new(w).unwrap()).map_err(|e| e.to_string())?;
                made.push(entry(b, d, None, false, Some(Function::Num2Bin)));
            }
            FromPreimage(ix) => {
                let parts: Vec<&Entry> = ix.iter().map(|i| &pool[at(*i)]).collect();
                if parts.iter().map(|p| p.data.len()).sum::<usize>() > bytes || parts.iter().map(|p| p.weight).sum::<usize>() > parts_limit {
                    continue;
                }
                let d: Vec<u8> = parts.iter().flat_map(|p| p.data.clone()).collect();
                let pre: Vec<ByteArray> = parts.iter().map(|p| p.v.clone()).collect();
                let v = ByteArray::from_preimage(d.clone().into(), None, Function::Plain, Some(pre.into()));
                made.push(entry(v, d, None, true, Some(Function::Plain)));
            }
            Fixed(i) => {
                let e = &pool[at(*i)];
                macro_rules! fixed {
                    ($n:literal) => {{
                        let f = bch::FixedByteArrayLE::<[u8; $n]>::from_byte_array(e.v.clone());
                        ensure_eq!(f.is_ok(), e.data.len() == $n, "a {} byte array of {} bytes", $n, e.data.len());
                        if let Ok(f) = f {
                            ensure!(*f.as_byte_array() == e.v && f.as_ref() == &e.data[..], "fixed array differs");
                            ensure!(f[..] == e.data[..] && f[0] == e.data[0] && f.len() == $n, "fixed array by index differs");
                            ensure_eq!(f.as_byte_array().name(), e.v.name(), "name of a fixed array");
                            ensure_eq!(f.as_byte_array().function(), e.v.function(), "function of a fixed array");
                            let f = f.named("fixed");
                            made.push(entry(f.into_byte_array(), e.data.clone(), Some("fixed".into()), true, Some(e.v.function())));
                        }
                        if let Ok(a) = <[u8; $n]>::try_from(&e.data[..]) {
                            let f = bch::FixedByteArrayLE::<[u8; $n]>::new("given", a);
                            ensure_eq!(f.as_byte_array().name(), Some("given"), "name of a new fixed array");
                            made.push(entry(f.into_byte_array(), e.data.clone(), Some("given".into()), true, Some(Function::Plain)));
                            made.push(entry(ByteArray::from(&a), e.data.clone(), None, true, Some(Function::Plain)));
                            made.push(entry(ByteArray::from(a), e.data.clone(), None, true, Some(Function::Plain)));
                            ensure!(bch::FixedByteArrayLE::<[u8; $n]>::default()[..] == [0; $n], "default of a fixed array");
                        }
                        let f = bch::FixedByteArrayBE::<[u8; $n]>::from_slice("s", &e.data);
                        ensure_eq!(f.is_ok(), e.data.len() == $n, "a {} byte slice of {} bytes", $n, e.data.len());
                        if let Ok(f) = f {
                            ensure_eq!(hex::encode(f.as_byte_array()), hex::encode(&e.data), "fixed array from a slice");
                            ensure_eq!(f.as_byte_array().name(), Some("s"), "its name");
                        }
                    }};
                }
                fixed!(20);
                fixed!(32);
                fixed!(4);
            }
        }
        ops += 1;
        for mut e in made {
            let path = format!("step {} ({:?})", n, step);
            let path = truncate(&path, 200);
            ensure!(e.v[..] == e.data[..] && e.v.as_slice() == &e.data[..] && e.v.data()[..] == e.data[..], "{}: data is {}, expected {}", path, truncate(&e.v.hex(), 400), truncate(&hex::encode(&e.data), 400));
            ensure_eq!(e.v.hex(), hex::encode(&e.data), "{}: hex", path);
            if e.name_known {
                ensure_eq!(e.v.name().map(str::to_string), e.name, "{}: name", path);
            }
            if let Some(f) = e.function {
                ensure_eq!(e.v.function(), f, "{}: function", path);
            }
            e.weight = truthful(&e.v, Some(&registry), &path)?;
            if pool.len() < 40 && e.weight <= parts_limit + 500 {
                pool.push(e)
            }
        }
    }
    // Only a cut through the result of a function is unexpected.
    let applied = steps.iter().any(|s| matches!(s, Step::Hash(..) | Apply(..)));
    for (i, e) in pool.iter().enumerate().filter(|_| !applied) {
        ensure!(!unexpected(&e.v), "value {} has a part marked as an unexpected split, and the history has only plain data", i);
    }
    // Values are shared between the steps; none may have changed.
    for (i, e) in pool.iter().enumerate() {
        ensure!(e.v[..] == e.data[..], "value {} changed after it was made", i);
        truthful(&e.v, Some(&registry), &format!("value {} afterwards", i))?;
        for f in pool.iter() {
            ensure_eq!(e.v == f.v, e.data == f.data, "equality of {} and {}", truncate(&e.v.hex(), 200), truncate(&f.v.hex(), 200));
            if e.data == f.data {
                ensure!(std_hash(&e.v) == std_hash(&f.v), "equal values hash differently");
            }
        }
    }
    obs.class_if(nested_split, "split-with-parts");
    obs.class_if(fn_split, "split-of-a-function-result");
    obs.class_if(pool.iter().any(|e| e.v.preimage().map_or(false, |p| p.iter().any(|x| x.is_empty()))), "empty-part");
    obs.nontrivial(ops >= 4 && pool.iter().any(|e| e.v.preimage().is_some()));
    Ok(())
}

fn step() -> BoxedStrategy<Step> {
    let data = || prop_oneof![2 => vec(any::<u8>(), 0..6), 1 => Just(vec![]), 1 => vec(0u8..2, 0..3), 1 => vec(any::<u8>(), 20), 1 => vec(any::<u8>(), 0..40)].prop_map(Hex);
    let i = || prop_oneof![any::<u8>(), 0u8..4];
    prop_oneof![
        3 => (data(), prop::option::of(any::<u8>()), any::<u8>()).prop_map(|(d, n, h)| New(d, n, h)),
        1 => (i(), any::<u8>(), any::<bool>()).prop_map(|(i, n, s)| Name(i, n, s)),
        5 => (i(), i(), prop::option::weighted(0.3, any::<u8>())).prop_map(|(i, j, n)| Concat(i, j, n)),
        2 => vec(i(), 0..6).prop_map(Join),
        6 => (i(), any::<u16>(), any::<u8>()).prop_map(|(i, p, m)| Split(i, p, m)),
        1 => (i(), 0u8..4).prop_map(|(i, b)| SplitPast(i, b)),
        3 => (i(), any::<u8>(), any::<bool>()).prop_map(|(i, f, n)| Step::Hash(i, f, n)),
        2 => (i(), any::<u8>(), data()).prop_map(|(i, f, d)| Apply(i, f, d)),
        1 => (script_int(), any::<u8>()).prop_map(|(v, w)| Int(v, w)),
        1 => vec(i(), 0..5).prop_map(FromPreimage),
        1 => i().prop_map(Fixed),
    ]
    .boxed()
}

/// What serialising, decoding, hashing and preparing to sign a transaction records is truthful too.
fn check_tx(m: &MTx, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(!m.inputs.is_empty());
    let tx = m.tx();
    let wire = tx.ser();
    ensure_eq!(hex::encode(&wire[..]), hex::encode(m.encode()), "wire bytes");
    truthful(&wire, None, "ser()")?;
    for i in tx.inputs.iter() {
        truthful(&i.script.ser(), None, "input script")?;
        truthful(&i.script.ser_ops(), None, "input script ops")?;
        truthful(&i.ser(), None, "input")?;
    }
    let back = bch::UnhashedTx::deser(wire.clone()).map_err(|e| e.to_string())?;
    for s in back.inputs.iter().map(|i| &i.script).chain(back.outputs.iter().map(|o| &o.script)) {
        for op in s.ops_arc().iter() {
            if let bch::Op::PushByteArray { array, .. } = &op.op {
                truthful(array, None, "decoded push")?;
            }
        }
        truthful(&s.ser(), None, "decoded script")?;
    }
    for i in back.inputs.iter() {
        truthful(i.prev_out.tx_hash.as_byte_array(), None, "decoded outpoint")?;
    }
    let hashed = tx.hashed();
    truthful(hashed.hash().as_byte_array(), None, "transaction id")?;
    truthful(hashed.raw(), None, "raw()")?;
    Ok(())
}

fn big() -> Vec<Vec<Step>> {
    let mut out = vec![];
    // Any two of the small values make up the parts.
    let start = || vec![New(Hex(vec![1, 2, 3]), Some(0), 0), New(Hex(vec![9]), None, 1), New(Hex(vec![]), Some(1), 0)];
    for n in [127usize, 128, 255, 256, 257, 300, 1_000, 5_000] {
        for k in 1..=3usize {
            for pre in [false, true] {
                let ix: Vec<u8> = (0..n).map(|i| ((i * i + i / 7) % k) as u8).collect();
                let mut h = start();
                h.push(if pre { FromPreimage(ix) } else { Join(ix) });
                // 3 is the wide value.
                h.extend([(0, 2), (255, 1), (256, 2), (n as u16 / 2, 0), (n as u16 / 2 * 7, 1), (60_000, 2), (65_535, 3)].map(|(p, m)| Split(3, p, m)));
                h.extend([Step::Hash(3, n as u8, true), Step::Hash(4, 1, false), Concat(3, 5, None), Concat(6, 3, Some(2)), Name(3, 4, true), Apply(3, 0, Hex(vec![7; 65])), Join(vec![3, 0, 4]), Fixed(3)]);
                h.extend([Split(20, 40_000, 1), Split(21, 9_000, 2), Split(22, 300, 0), SplitPast(3, 1)]);
                out.push(h);
            }
        }
    }
    // Long values, as one part and as several.
    for n in [252usize, 253, 255, 256, 257, 519, 520, 521, 10_000, 65_535, 65_536, 65_537, 100_000] {
        let data: Vec<u8> = (0..n).map(|i| (i * 11 + i / 256) as u8).collect();
        for name in [None, Some(3)] {
            let mut h = vec![New(Hex(data.clone()), name, n as u8), New(Hex(vec![5]), Some(1), 0)];
            h.extend([Concat(0, 1, None), Concat(1, 0, Some(0)), Join(vec![1, 0, 1]), Step::Hash(0, n as u8, true), Step::Hash(2, 2, false), Step::Hash(4, 3, false)]);
            h.extend([(0, 0, 0), (0, 65_535, 3), (0, 255, 0), (2, 32_768, 0), (2, 1, 1), (3, 1, 2), (4, 2, 1), (4, 1, 3)].map(|(v, p, m)| Split(v, p, m)));
            h.extend([Apply(2, 3, Hex(vec![])), Concat(2, 3, None), Name(0, 2, false), Split(9, 32_768, 0), Split(10, 100, 0), FromPreimage(vec![0, 1, 2]), Fixed(0), SplitPast(4, 0)]);
            out.push(h);
        }
    }
    // A value grown byte by byte, at either end.
    for n in [130usize, 260, 400] {
        for front in [false, true] {
            let mut h = start();
            for i in 0..n {
                // The newest value is the last of the pool while it has room (40 values).
                let at = if i == 0 { 0 } else { (2 + i.min(36)) as u8 };
                h.push(if front { Concat(1, at, None) } else { Concat(at, (i % 2) as u8, (i % 5 == 0).then(|| 3)) });
            }
            h.extend([Split(38, 30_000, 0), Split(38, 3, 1)]);
            out.push(h);
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("histories: 1..40 steps (create, name, concatenate, join, split anywhere and around part boundaries, hash, sign, number conversion, fixed-size conversion) over a pool of shared values, each new value compared with the same history on plain bytes, its whole provenance tree checked (parts concatenate, hashes recomputed, every shown function result really computed by the history); big: histories of values of up to 5,000 parts and up to 400 KB; transactions: provenance recorded by serialising, decoding and hashing; non-trivial: at least four steps with some recorded provenance, or at least one input.");
    ctx.suite("histories", 120_000, 2_500_000, || vec(step(), 1..40), check);
    ctx.enumerate("big", big(), check_big);
    ctx.suite("transactions", 4_000, 80_000, || mtx(4, false), check_tx);
    ctx.enumerate("wide-transactions", wide_sizes().into_iter().map(|(i, o)| wide_tx(i, o)), check_tx);
    (json!({}), vec!["Signing functions are recorded, not recomputed; what they may be shown for is what the history recorded."])
}
