//! C02: wire encoding follows the Bitcoin format and round-trips.
use crate::model::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{encoding_utils, BitcoinCode, ByteArray, Hashed};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MPre {
    pub version: i32,
    pub prevouts: Hex,
    pub sequences: Hex,
    pub txid: Hex,
    pub vout: u32,
    pub code: MScript,
    pub value: u64,
    pub sequence: u32,
    pub outputs: Hex,
    pub lock_time: u32,
    pub sig_hash_type: u32,
}

impl MPre {
    pub fn preimage(&self) -> bch::TxPreimage {
        bch::TxPreimage {
            version: self.version,
            hash_prevouts: hash32(&self.prevouts),
            hash_sequence: hash32(&self.sequences),
            outpoint: bch::TxOutpoint { tx_hash: hash32(&self.txid), vout: self.vout },
            script_code: script(&self.code),
            value: self.value,
            sequence: self.sequence,
            hash_outputs: hash32(&self.outputs),
            lock_time: self.lock_time,
            sig_hash_type: self.sig_hash_type,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = self.version.to_le_bytes().to_vec();
        v.extend(&self.prevouts.0);
        v.extend(&self.sequences.0);
        v.extend(outpoint_bytes(&self.txid, self.vout));
        v.extend(var_bytes(&script_bytes(&self.code)));
        v.extend_from_slice(&self.value.to_le_bytes());
        v.extend_from_slice(&self.sequence.to_le_bytes());
        v.extend(&self.outputs.0);
        v.extend_from_slice(&self.lock_time.to_le_bytes());
        v.extend_from_slice(&self.sig_hash_type.to_le_bytes());
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Uint(u8, Hex),
    Bool(bool),
    Bytes(Data),
    Hash20(u8, Hex),
    Hash32(u8, Hex),
    VecU8(Data),
    VecU16(Vec<u16>),
    VecU32(Vec<u32>),
    VecI64(Vec<i64>),
    VecBool(Vec<bool>),
    VecBytes(Vec<Data>),
    VecVec(Vec<Vec<Data>>),
    VecHash(Vec<Hex>),
    VecOut(Vec<MOut>),
    Script(MScript),
    Outpoint(Hex, u32),
    In(MIn),
    Out(MOut),
    Tx(MTx),
    Pre(MPre),
}

fn list<T>(items: &[T], f: impl Fn(&T) -> Vec<u8>) -> Vec<u8> {
    let mut v = refs::compact_size(items.len() as u64);
    for i in items {
        v.extend(f(i))
    }
    v
}

/// Encodes, decodes whole, decodes as a prefix, refuses leftovers and every truncation tried.
fn trip<T: BitcoinCode + std::fmt::Debug>(
    v: &T,
    expected: &[u8],
    same: impl Fn(&T) -> bool,
    tail: &[u8],
    cut: usize,
) -> Result<(), String> {
    let enc = v.ser();
    ensure_eq!(enc.as_slice(), expected, "encoding");
    let back = T::deser(expected.to_vec().into()).map_err(|e| format!("cannot decode {}: {}", hex::encode(&expected[..expected.len().min(200)]), e))?;
    ensure!(same(&back), "decoded to {}", truncate(&format!("{:?}", back), 1500));
    ensure_eq!(back.ser().as_slice(), expected, "re-encoding");
    // Also from the library's own (named, concatenated) byte array.
    let back = T::deser(enc).map_err(|e| e.to_string())?;
    ensure!(same(&back), "decoded from own byte array to {}", truncate(&format!("{:?}", back), 1500));
    let mut long = expected.to_vec();
    long.extend_from_slice(tail);
    let (back, rest) = T::deser_rest(long.clone().into()).map_err(|e| format!("with trailing bytes: {}", e))?;
    ensure!(same(&back), "prefix decoded to {}", truncate(&format!("{:?}", back), 1500));
    ensure_eq!(rest.as_slice(), tail, "rest");
    if !tail.is_empty() {
        ensure!(T::deser(long.into()).is_err(), "whole-buffer decoding accepts leftover bytes");
    }
    if !expected.is_empty() {
        let cut = cut % expected.len();
        ensure!(T::deser(expected[..cut].to_vec().into()).is_err(), "decoding accepts the first {} of {} bytes", cut, expected.len());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    val: Val,
    tail: Hex,
    cut: usize,
}

fn same_input(a: &bch::TxInput, m: &MIn) -> bool {
    a.prev_out.tx_hash.as_slice() == &m.txid[..]
        && a.prev_out.vout == m.vout
        && a.sequence == m.sequence
        && meanings(&a.script) == script_meanings(&m.script)
        && a.lock_script.is_none()
        && a.value.is_none()
        && a.is_p2sh.is_none()
        && a.sig_hash_flags.is_none()
}
fn same_output(a: &bch::TxOutput, m: &MOut) -> bool {
    a.value == m.value && meanings(&a.script) == script_meanings(&m.script)
}
pub fn same_tx(a: &bch::UnhashedTx, m: &MTx) -> bool {
    a.version == m.version
        && a.lock_time == m.lock_time
        && a.inputs.len() == m.inputs.len()
        && a.outputs.len() == m.outputs.len()
        && a.inputs.iter().zip(&m.inputs).all(|(x, y)| same_input(x, y))
        && a.outputs.iter().zip(&m.outputs).all(|(x, y)| same_output(x, y))
}

macro_rules! int_trip {
    ($t:ty, $bytes:expr, $tail:expr, $cut:expr) => {{
        const N: usize = std::mem::size_of::<$t>();
        let mut b = [0u8; N];
        b.copy_from_slice(&$bytes[..N]);
        // Value by summation, independent of from_le_bytes.
        let mut v: u128 = 0;
        for i in (0..N).rev() {
            v = (v << 8) | b[i] as u128;
        }
        let v = v as $t;
        trip(&v, &b, |x| *x == v, $tail, $cut)
    }};
}
macro_rules! hash_trip {
    ($t:ty, $h:expr, $tail:expr, $cut:expr) => {{
        let v = <$t>::from_slice(&$h[..]).map_err(|e| e.to_string())?;
        trip(&v, &$h[..], |x| x.as_slice() == &$h[..], $tail, $cut)
    }};
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let t = &c.tail[..];
    let cut = c.cut;
    obs.class_if(!t.is_empty(), "with-tail");
    match &c.val {
        Val::Uint(k, h) => {
            obs.class("integer");
            obs.nontrivial(h.iter().any(|b| *b != 0));
            match k {
                0 => int_trip!(u8, h, t, cut),
                1 => int_trip!(i8, h, t, cut),
                2 => int_trip!(u16, h, t, cut),
                3 => int_trip!(i16, h, t, cut),
                4 => int_trip!(u32, h, t, cut),
                5 => int_trip!(i32, h, t, cut),
                6 => int_trip!(u64, h, t, cut),
                7 => int_trip!(i64, h, t, cut),
                8 => int_trip!(u128, h, t, cut),
                _ => int_trip!(i128, h, t, cut),
            }
        }
        Val::Bool(b) => trip(b, &[*b as u8], |x| x == b, t, cut),
        Val::Bytes(d) => {
            let d = d.bytes();
            obs.class(match d.len() {
                0..=0xfc => "bytes-1",
                0xfd..=0xffff => "bytes-3",
                _ => "bytes-5",
            });
            obs.nontrivial(!d.is_empty());
            let v: ByteArray = d.clone().into();
            trip(&v, &var_bytes(&d), |x| x.as_slice() == &d[..], t, cut)
        }
        Val::Hash20(k, h) => {
            obs.class("hash");
            obs.nontrivial(true);
            match k {
                0 => hash_trip!(bch::Sha1, h, t, cut),
                1 => hash_trip!(bch::Ripemd160, h, t, cut),
                _ => hash_trip!(bch::Hash160, h, t, cut),
            }
        }
        Val::Hash32(k, h) => {
            obs.class("hash");
            obs.nontrivial(true);
            match k {
                0 => hash_trip!(bch::Sha256, h, t, cut),
                _ => hash_trip!(bch::Sha256d, h, t, cut),
            }
        }
        Val::VecU8(d) => {
            let d = d.bytes();
            obs.class("vec-u8");
            obs.nontrivial(!d.is_empty());
            trip(&d, &var_bytes(&d), |x| *x == d, t, cut)
        }
        Val::VecU16(v) => {
            obs.class_if(v.len() >= 0xfd, "long-list");
            obs.nontrivial(v.len() > 1);
            trip(v, &list(v, |x| x.to_le_bytes().to_vec()), |x| x == v, t, cut)
        }
        Val::VecU32(v) => {
            obs.class_if(v.len() >= 0xfd, "long-list");
            obs.nontrivial(v.len() > 1);
            trip(v, &list(v, |x| x.to_le_bytes().to_vec()), |x| x == v, t, cut)
        }
        Val::VecI64(v) => {
            obs.nontrivial(v.len() > 1);
            trip(v, &list(v, |x| x.to_le_bytes().to_vec()), |x| x == v, t, cut)
        }
        Val::VecBool(v) => {
            obs.nontrivial(v.len() > 1);
            trip(v, &list(v, |x| vec![*x as u8]), |x| x == v, t, cut)
        }
        Val::VecBytes(v) => {
            obs.class("vec-bytes");
            obs.nontrivial(v.len() > 1);
            let lib: Vec<ByteArray> = v.iter().map(|d| d.bytes().into()).collect();
            trip(&lib, &list(v, |d| var_bytes(&d.bytes())), |x| *x == lib, t, cut)
        }
        Val::VecVec(v) => {
            obs.class("vec-vec");
            obs.nontrivial(v.len() > 1);
            let lib: Vec<Vec<Vec<u8>>> = v.iter().map(|w| w.iter().map(|d| d.bytes()).collect()).collect();
            trip(&lib, &list(v, |w| list(w, |d| var_bytes(&d.bytes()))), |x| *x == lib, t, cut)
        }
        Val::VecHash(v) => {
            obs.nontrivial(v.len() > 1);
            let lib: Vec<bch::Sha256d> = v.iter().map(|h| hash32(h)).collect();
            trip(&lib, &list(v, |h| h.0.clone()), |x| *x == lib, t, cut)
        }
        Val::VecOut(v) => {
            obs.nontrivial(v.len() > 1);
            let lib: Vec<bch::TxOutput> = v.iter().map(|o| o.output()).collect();
            trip(&lib, &list(v, |o| o.encode()), |x| x.len() == v.len() && x.iter().zip(v).all(|(a, b)| same_output(a, b)), t, cut)
        }
        Val::Script(s) => {
            obs.nontrivial(!s.is_empty());
            trip(&script(s), &var_bytes(&script_bytes(s)), |x| meanings(x) == script_meanings(s), t, cut)
        }
        Val::Outpoint(h, n) => {
            obs.nontrivial(true);
            let v = bch::TxOutpoint { tx_hash: hash32(h), vout: *n };
            trip(&v, &outpoint_bytes(h, *n), |x| x.tx_hash.as_slice() == &h[..] && x.vout == *n, t, cut)
        }
        Val::In(i) => {
            obs.class("input");
            obs.nontrivial(true);
            trip(&i.input(), &i.encode(), |x| same_input(x, i), t, cut)
        }
        Val::Out(o) => {
            obs.class("output");
            obs.nontrivial(true);
            trip(&o.output(), &o.encode(), |x| same_output(x, o), t, cut)
        }
        Val::Tx(m) => {
            obs.class("tx");
            obs.class_if(m.inputs.len() > 1 && m.outputs.len() > 1, "tx-many");
            obs.nontrivial(!m.inputs.is_empty() || !m.outputs.is_empty());
            trip(&m.tx(), &m.encode(), |x| same_tx(x, m), t, cut)
        }
        Val::Pre(p) => {
            obs.class("preimage");
            obs.nontrivial(true);
            let same = |x: &bch::TxPreimage| {
                x.version == p.version
                    && x.hash_prevouts.as_slice() == &p.prevouts[..]
                    && x.hash_sequence.as_slice() == &p.sequences[..]
                    && x.outpoint.tx_hash.as_slice() == &p.txid[..]
                    && x.outpoint.vout == p.vout
                    && meanings(&x.script_code) == script_meanings(&p.code)
                    && x.value == p.value
                    && x.sequence == p.sequence
                    && x.hash_outputs.as_slice() == &p.outputs[..]
                    && x.lock_time == p.lock_time
                    && x.sig_hash_type == p.sig_hash_type
            };
            trip(&p.preimage(), &p.encode(), same, t, cut)
        }
    }
}

pub fn mpre() -> BoxedStrategy<MPre> {
    (
        (i32_edge(), txid(), txid(), txid(), u32_edge()),
        (mscript(5, false), u64_edge(), u32_edge(), txid(), u32_edge(), u32_edge()),
    )
        .prop_map(|((version, prevouts, sequences, txid, vout), (code, value, sequence, outputs, lock_time, sig_hash_type))| MPre {
            version, prevouts, sequences, txid, vout, code, value, sequence, outputs, lock_time, sig_hash_type,
        })
        .boxed()
}

fn h(n: usize) -> BoxedStrategy<Hex> {
    proptest::collection::vec(any::<u8>(), n).prop_map(Hex).boxed()
}

/// List lengths with the CompactSize boundary over-represented.
fn len() -> BoxedStrategy<usize> {
    prop_oneof![8 => 0usize..6, 1 => 250usize..258].boxed()
}

fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        3 => (0u8..10, prop_oneof![h(16), (any::<u8>(), 0usize..16).prop_map(|(b, i)| { let mut v = vec![0; 16]; v[i] = b; Hex(v) }), Just(Hex(vec![0xff; 16]))]).prop_map(|(k, b)| Val::Uint(k, b)),
        1 => any::<bool>().prop_map(Val::Bool),
        3 => data(true).prop_map(Val::Bytes),
        1 => (0u8..3, h(20)).prop_map(|(k, b)| Val::Hash20(k, b)),
        1 => (0u8..2, h(32)).prop_map(|(k, b)| Val::Hash32(k, b)),
        1 => data(false).prop_map(Val::VecU8),
        1 => len().prop_flat_map(|n| proptest::collection::vec(any::<u16>(), n)).prop_map(Val::VecU16),
        1 => len().prop_flat_map(|n| proptest::collection::vec(any::<u32>(), n)).prop_map(Val::VecU32),
        1 => proptest::collection::vec(any::<i64>(), 0..5).prop_map(Val::VecI64),
        1 => len().prop_flat_map(|n| proptest::collection::vec(any::<bool>(), n)).prop_map(Val::VecBool),
        2 => proptest::collection::vec(data(false), 0..5).prop_map(Val::VecBytes),
        1 => proptest::collection::vec(proptest::collection::vec(data(false), 0..3), 0..4).prop_map(Val::VecVec),
        1 => proptest::collection::vec(txid(), 0..4).prop_map(Val::VecHash),
        1 => proptest::collection::vec(mout(4, false), 0..5).prop_map(Val::VecOut),
        2 => mscript(8, true).prop_map(Val::Script),
        1 => (txid(), u32_edge()).prop_map(|(t, n)| Val::Outpoint(t, n)),
        3 => crate::model::min(6, true).prop_map(Val::In),
        3 => mout(6, true).prop_map(Val::Out),
        6 => mtx(6, false).prop_map(Val::Tx),
        2 => mpre().prop_map(Val::Pre),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum List {
    U8(Vec<u8>),
    U32(Vec<u32>),
    Bytes(Vec<Data>),
    Hash(Vec<Hex>),
    Out(Vec<MOut>),
    Tx(Vec<MTx>),
}

fn all_trip<T: BitcoinCode + std::fmt::Debug>(v: &[T], encs: Vec<Vec<u8>>, same: impl Fn(&T, usize) -> bool) -> Result<(), String> {
    let expected = encs.concat();
    let enc = bch::encode_bitcoin_code_all(v.iter());
    ensure_eq!(enc.as_slice(), &expected[..], "encode_bitcoin_code_all");
    for array in [expected.clone().into(), enc] {
        let back: Vec<T> = bch::decode_bitcoin_code_all(array).map_err(|e| format!("decode_bitcoin_code_all: {}", e))?;
        ensure_eq!(back.len(), v.len(), "number of values decoded");
        ensure!(back.iter().enumerate().all(|(i, x)| same(x, i)), "decoded to {}", truncate(&format!("{:?}", back), 1500));
    }
    // A torn last value is an error.
    if let Some(last) = encs.last() {
        if last.len() > 1 {
            ensure!(
                bch::decode_bitcoin_code_all::<T>(expected[..expected.len() - 1].to_vec().into()).is_err(),
                "decode_bitcoin_code_all accepts a torn last value"
            );
        }
    }
    Ok(())
}

fn check_all(c: &List, obs: &mut Obs) -> Result<(), String> {
    match c {
        List::U8(v) => {
            obs.class_if(v.is_empty(), "empty");
            obs.nontrivial(v.len() != 1);
            all_trip(v, v.iter().map(|x| vec![*x]).collect(), |x, i| *x == v[i])
        }
        List::U32(v) => {
            obs.class_if(v.is_empty(), "empty");
            obs.nontrivial(v.len() != 1);
            all_trip(v, v.iter().map(|x| x.to_le_bytes().to_vec()).collect(), |x, i| *x == v[i])
        }
        List::Bytes(v) => {
            obs.class_if(v.is_empty(), "empty");
            obs.nontrivial(v.len() != 1);
            let lib: Vec<ByteArray> = v.iter().map(|d| d.bytes().into()).collect();
            all_trip(&lib, v.iter().map(|d| var_bytes(&d.bytes())).collect(), |x, i| *x == lib[i])
        }
        List::Hash(v) => {
            obs.nontrivial(v.len() != 1);
            let lib: Vec<bch::Sha256d> = v.iter().map(|d| hash32(d)).collect();
            all_trip(&lib, v.iter().map(|d| d.0.clone()).collect(), |x, i| *x == lib[i])
        }
        List::Out(v) => {
            obs.nontrivial(v.len() != 1);
            let lib: Vec<bch::TxOutput> = v.iter().map(|d| d.output()).collect();
            all_trip(&lib, v.iter().map(|d| d.encode()).collect(), |x, i| same_output(x, &v[i]))
        }
        List::Tx(v) => {
            obs.class("txs");
            obs.nontrivial(v.len() != 1);
            let lib: Vec<bch::UnhashedTx> = v.iter().map(|d| d.tx()).collect();
            all_trip(&lib, v.iter().map(|d| d.encode()).collect(), |x, i| same_tx(x, &v[i]))
        }
    }
}

fn check_varint(n: &u64, obs: &mut Obs) -> Result<(), String> {
    let n = *n;
    obs.nontrivial(n >= 0xfd);
    let want = refs::compact_size(n);
    obs.class(match want.len() {
        1 => "1-byte",
        3 => "3-byte",
        5 => "5-byte",
        _ => "9-byte",
    });
    ensure_eq!(encoding_utils::encode_var_int(n), want, "encode_var_int({})", n);
    let mut out = vec![0xee];
    encoding_utils::write_var_int(&mut out, n).map_err(|e| e.to_string())?;
    ensure_eq!(&out[1..], &want[..], "write_var_int({})", n);
    let mut padded = want.clone();
    padded.push(0x55);
    let mut cur = std::io::Cursor::new(padded.as_slice());
    let back = encoding_utils::read_var_int(&mut cur).map_err(|e| e.to_string())?;
    ensure_eq!(back, n, "read_var_int");
    ensure_eq!(cur.position() as usize, want.len(), "bytes consumed");
    let mut cur = std::io::Cursor::new(&want[..want.len() - 1]);
    ensure!(encoding_utils::read_var_int(&mut cur).is_err(), "read_var_int accepts a truncated size");
    Ok(())
}

fn var_ints() -> BoxedStrategy<u64> {
    prop_oneof![
        (0u32..64, -3i64..=3).prop_map(|(e, d)| (1u64 << e).wrapping_add(d as u64)),
        prop_oneof![Just(0xfcu64), Just(0xfd), Just(0xfe), Just(0xff), Just(0xffff), Just(0x10000), Just(0xffff_ffff), Just(0x1_0000_0000), Just(u64::MAX)],
        any::<u64>(),
        0u64..0x20000,
    ]
    .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("values: every wire type with boundary-biased fields, encoded and compared with a reference encoder, decoded whole, as a prefix with a random tail, and truncated at a random point; non-trivial if it carries content. all: lists through encode/decode_bitcoin_code_all; non-trivial unless of length one. varint: sizes around every power of two; non-trivial from 0xfd up.");
    ctx.suite("values", 20_000, 400_000, || (val(), bytes(12), any::<usize>()).prop_map(|(val, tail, cut)| Case { val, tail, cut }), check);
    ctx.suite("all", 4_000, 60_000, || prop_oneof![
        proptest::collection::vec(any::<u8>(), 0..5).prop_map(List::U8),
        proptest::collection::vec(any::<u32>(), 0..5).prop_map(List::U32),
        proptest::collection::vec(data(false), 0..5).prop_map(List::Bytes),
        proptest::collection::vec(txid(), 0..5).prop_map(List::Hash),
        proptest::collection::vec(mout(3, false), 0..4).prop_map(List::Out),
        proptest::collection::vec(mtx(3, false), 0..3).prop_map(List::Tx),
    ], check_all);
    ctx.suite("varint", 8_000, 200_000, var_ints, check_varint);
    let edges: Vec<u64> = (0..0x10400u64).chain((0xffff_ff00..0x1_0000_0100u64).step_by(1)).collect();
    ctx.enumerate("varint-edges", edges, check_varint);
    // Large lists and strings: the 3- and 5-byte size prefixes of lists.
    let big: Vec<Case> = [0xfcusize, 0xfd, 0xffff, 0x10000]
        .iter()
        .flat_map(|n| {
            vec![
                Val::Bytes(Data::Fill(*n, 3)),
                Val::Script(vec![MOp::Push(Data::Fill(*n, 9), true)]),
                Val::Out(MOut { value: 1, script: vec![MOp::Push(Data::Fill(*n, 9), false)] }),
            ]
        })
        .chain([0xfcusize, 0xfd, 300].iter().map(|n| Val::Tx(MTx {
            version: 2,
            inputs: (0..*n).map(|i| MIn { txid: Hex(filled(32, i as u8)), vout: i as u32, script: vec![], sequence: 7, lock_script: None, value: None, is_p2sh: None, flags: None }).collect(),
            outputs: (0..*n).map(|i| MOut { value: i as u64, script: vec![MOp::Code(0x6a)] }).collect(),
            lock_time: 9,
        })))
        .map(|val| Case { val, tail: Hex(vec![1, 2]), cut: 12345 })
        .collect();
    ctx.enumerate("large", big, check);
    (json!({}), vec!["The reference encoder in harness/src/model.rs."])
}
