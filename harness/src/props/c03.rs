//! C03: decoding hostile bytes never crashes and never over-allocates.
use crate::model::*;
use crate::props::c01::{oversized_inputs, script_byte_strategy};
use crate::props::c02::{mpre, same_tx};
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, ByteArray};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

const TARGETS: usize = 24;

thread_local! {
    static DECODE_TIME: std::cell::Cell<std::time::Duration> = const { std::cell::Cell::new(std::time::Duration::ZERO) };
}

/// Decodes as the given type; Some(re-encoding) on success. The last flag tells whether a
/// successful whole-buffer decode must re-encode to the same bytes.
fn decode(target: usize, data: &[u8]) -> (Result<Vec<u8>, String>, bool) {
    fn d<T: BitcoinCode>(data: &[u8], canonical: bool) -> (Result<Vec<u8>, String>, bool) {
        let array: ByteArray = data.to_vec().into();
        let start = std::time::Instant::now();
        let _ = T::deser_rest(array.clone());
        let value = T::deser(array);
        DECODE_TIME.with(|t| t.set(start.elapsed()));
        (value.map(|v| v.ser().to_vec()).map_err(|e| e.to_string()), canonical)
    }
    match target {
        0 | 1 | 2 => d::<bch::UnhashedTx>(data, true),
        3 => d::<bch::TxInput>(data, true),
        4 => d::<bch::TxOutput>(data, true),
        5 => d::<bch::TxOutpoint>(data, true),
        6 => d::<bch::TxPreimage>(data, true),
        7 => d::<bch::Script>(data, true),
        8 => d::<Vec<u8>>(data, true),
        9 => d::<ByteArray>(data, true),
        10 => d::<Vec<ByteArray>>(data, true),
        11 => d::<Vec<Vec<u64>>>(data, true),
        12 => d::<bch::Sha256d>(data, true),
        13 => d::<bch::Hash160>(data, true),
        14 => d::<Vec<bch::TxInput>>(data, true),
        15 => d::<Vec<bch::TxOutput>>(data, true),
        16 => d::<Vec<bch::Script>>(data, true),
        17 => d::<Vec<bch::Sha256d>>(data, true),
        18 => d::<Vec<bch::UnhashedTx>>(data, true),
        19 => d::<bool>(data, false),
        20 => d::<u128>(data, true),
        21 => d::<bch::Tx>(data, true),
        22 => match bch::deserialize_ops(data) {
            Ok(ops) => {
                let r = bch::serialize_ops(ops.iter()).map(|b| b.to_vec()).map_err(|e| e.to_string());
                (r, true)
            }
            Err(e) => (Err(e.to_string()), true),
        },
        _ => match bch::decode_bitcoin_code_all::<bch::UnhashedTx>(data.to_vec().into()) {
            Ok(v) => (Ok(bch::encode_bitcoin_code_all(v.iter()).to_vec()), true),
            Err(e) => (Err(e.to_string()), true),
        },
    }
}

/// Whether scripts found in these bytes (as far as the given type has any) use oversized pushes.
fn has_oversized(target: usize, data: &[u8]) -> bool {
    fn s(b: &[u8]) -> bool {
        refs::parse_script(b).map_or(false, |ops| ops.iter().any(|o| o.oversized()))
    }
    struct R<'a>(&'a [u8], bool);
    impl<'a> R<'a> {
        fn take(&mut self, n: usize) -> Option<&'a [u8]> {
            if self.0.len() < n {
                return None;
            }
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            Some(a)
        }
        fn size(&mut self) -> Option<usize> {
            let (n, rest) = refs::read_compact_size(self.0)?;
            self.0 = rest;
            Some(n as usize)
        }
        fn script(&mut self) -> Option<()> {
            let n = self.size()?;
            let b = self.take(n)?;
            self.1 |= s(b);
            Some(())
        }
        fn input(&mut self) -> Option<()> {
            self.take(36)?;
            self.script()?;
            self.take(4)?;
            Some(())
        }
        fn output(&mut self) -> Option<()> {
            self.take(8)?;
            self.script()
        }
        fn list(&mut self, f: fn(&mut Self) -> Option<()>) -> Option<()> {
            let n = self.size()?;
            for _ in 0..n {
                f(self)?
            }
            Some(())
        }
        fn tx(&mut self) -> Option<()> {
            self.take(4)?;
            self.list(Self::input)?;
            self.list(Self::output)?;
            self.take(4)?;
            Some(())
        }
    }
    let mut r = R(data, false);
    let _ = match target {
        0 | 1 | 2 => r.tx(),
        3 => r.input(),
        4 => r.output(),
        6 => r.take(4 + 32 + 32 + 36).and_then(|_| r.script()),
        7 => r.script(),
        14 => r.list(R::input),
        15 => r.list(R::output),
        16 => r.list(R::script),
        18 => r.list(R::tx),
        21 => r.size().and_then(|_| r.tx()),
        22 => return s(data),
        23 => {
            while !r.0.is_empty() && r.tx().is_some() {}
            None
        }
        _ => None,
    };
    r.1
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    target: usize,
    data: Hex,
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    DECODE_TIME.with(|t| t.set(Default::default()));
    let (result, peak, largest) = metered(|| no_panic(|| decode(c.target, &c.data)));
    let took = DECODE_TIME.with(|t| t.get());
    let (result, canonical) = result.map_err(|p| format!("panic: {}", p))?;
    // An operation takes a few hundred bytes however short its encoding.
    let bound = 4096 * c.data.len() + 65536;
    ensure!(peak <= bound && largest <= bound, "decoding {} bytes had {} bytes live at its peak, largest request {}", c.data.len(), peak, largest);
    ensure!(took.as_secs() < 20, "decoding {} bytes took {:?}", c.data.len(), took);
    match result {
        Ok(re) => {
            obs.class("accepted");
            obs.nontrivial(true);
            if canonical && re != c.data.0 {
                if has_oversized(c.target, &c.data) {
                    obs.class("oversized-push");
                } else {
                    return Err(format!("accepted but re-encodes to {}", truncate(&hex::encode(&re), 1500)));
                }
            }
        }
        Err(_) => {
            obs.class("rejected");
            obs.nontrivial(c.data.len() > 4);
        }
    }
    Ok(())
}

fn size_bytes() -> BoxedStrategy<Vec<u8>> {
    let n = prop_oneof![
        Just(0u64), Just(1), Just(0x7f), Just(0xfc), Just(0xfd), Just(0xff), Just(0xffff), Just(0x10000), Just(0x7fff_ffff), Just(0xffff_ffff),
        Just(1 << 40), Just(u64::MAX / 48), Just(i64::MAX as u64), Just(u64::MAX), any::<u64>(), 0u64..300
    ];
    (n, 0u8..4).prop_map(|(n, class)| refs::compact_size_wide(n, class)).boxed()
}

fn valid_encoding(target: usize) -> BoxedStrategy<Vec<u8>> {
    let list = |s: BoxedStrategy<Vec<u8>>| {
        proptest::collection::vec(s, 0..4)
            .prop_map(|v| [refs::compact_size(v.len() as u64), v.concat()].concat())
            .boxed()
    };
    let tx = || mtx(4, false).prop_map(|t| t.encode()).boxed();
    let raw_script = || script_byte_strategy(false).prop_map(|h| var_bytes(&h)).boxed();
    // Transactions with arbitrary script bytes in them.
    let raw_tx = || (
        i32_edge(),
        proptest::collection::vec((proptest::collection::vec(any::<u8>(), 36), raw_script(), u32_edge()), 0..3),
        proptest::collection::vec((u64_edge(), raw_script()), 0..3),
        u32_edge(),
    )
        .prop_map(|(v, ins, outs, l)| {
            let mut b = v.to_le_bytes().to_vec();
            b.extend(refs::compact_size(ins.len() as u64));
            for (o, s, q) in ins {
                b.extend(o);
                b.extend(s);
                b.extend_from_slice(&q.to_le_bytes());
            }
            b.extend(refs::compact_size(outs.len() as u64));
            for (v, s) in outs {
                b.extend_from_slice(&v.to_le_bytes());
                b.extend(s);
            }
            b.extend_from_slice(&l.to_le_bytes());
            b
        })
        .boxed();
    match target {
        0 | 1 => tx(),
        2 => raw_tx(),
        3 => crate::model::min(5, false).prop_map(|i| i.encode()).boxed(),
        4 => mout(5, false).prop_map(|o| o.encode()).boxed(),
        5 => proptest::collection::vec(any::<u8>(), 36).boxed(),
        6 => mpre().prop_map(|p| p.encode()).boxed(),
        7 => raw_script(),
        8 | 9 => data(false).prop_map(|d| var_bytes(&d.bytes())).boxed(),
        10 => list(data(false).prop_map(|d| var_bytes(&d.bytes())).boxed()),
        11 => list(list(proptest::collection::vec(any::<u8>(), 8).boxed())),
        12 => proptest::collection::vec(any::<u8>(), 32).boxed(),
        13 => proptest::collection::vec(any::<u8>(), 20).boxed(),
        14 => list(crate::model::min(4, false).prop_map(|i| i.encode()).boxed()),
        15 => list(mout(4, false).prop_map(|o| o.encode()).boxed()),
        16 => list(raw_script()),
        17 => list(proptest::collection::vec(any::<u8>(), 32).boxed()),
        18 => list(tx()),
        19 => any::<u8>().prop_map(|b| vec![b]).boxed(),
        20 => proptest::collection::vec(any::<u8>(), 16).boxed(),
        21 => tx().prop_map(|t| var_bytes(&t)).boxed(),
        22 => script_byte_strategy(false).prop_map(|h| h.0).boxed(),
        _ => (tx(), raw_tx()).prop_map(|(a, b)| [a, b].concat()).boxed(),
    }
}

#[derive(Clone, Debug)]
enum Edit {
    Set(prop::sample::Index, u8),
    Splice(prop::sample::Index, Vec<u8>),
    Cut(prop::sample::Index),
    Remove(prop::sample::Index, usize),
    Append(Vec<u8>),
    Flip(prop::sample::Index, u8),
}

fn edit() -> BoxedStrategy<Edit> {
    let i = || any::<prop::sample::Index>();
    prop_oneof![
        2 => (i(), prop_oneof![Just(0xfdu8), Just(0xfe), Just(0xff), Just(0x4c), Just(0x4d), Just(0x4e), any::<u8>()]).prop_map(|(i, b)| Edit::Set(i, b)),
        3 => (i(), size_bytes()).prop_map(|(i, b)| Edit::Splice(i, b)),
        2 => i().prop_map(Edit::Cut),
        1 => (i(), 1usize..9).prop_map(|(i, n)| Edit::Remove(i, n)),
        1 => proptest::collection::vec(any::<u8>(), 1..9).prop_map(Edit::Append),
        1 => (i(), 0u8..8).prop_map(|(i, n)| Edit::Flip(i, n)),
    ]
    .boxed()
}

fn apply(mut v: Vec<u8>, edits: &[Edit]) -> Vec<u8> {
    for e in edits {
        if v.is_empty() {
            if let Edit::Append(b) | Edit::Splice(_, b) = e {
                v.extend(b)
            }
            continue;
        }
        let n = v.len();
        match e {
            Edit::Set(i, b) => v[i.index(n)] = *b,
            Edit::Splice(i, b) => {
                let i = i.index(n);
                v.splice(i..i + 1, b.iter().cloned());
            }
            Edit::Cut(i) => v.truncate(i.index(n)),
            Edit::Remove(i, k) => {
                let i = i.index(n);
                v.drain(i..(i + k).min(n));
            }
            Edit::Append(b) => v.extend(b),
            Edit::Flip(i, b) => v[i.index(n)] ^= 1 << b,
        }
    }
    v
}

fn strategy() -> BoxedStrategy<Case> {
    (0usize..TARGETS)
        .prop_flat_map(|target| {
            let mutated = (valid_encoding(target), proptest::collection::vec(edit(), 0..4)).prop_map(|(v, e)| apply(v, &e));
            let sizes = proptest::collection::vec(prop_oneof![size_bytes(), proptest::collection::vec(any::<u8>(), 0..5)], 0..6).prop_map(|v| v.concat());
            let random = proptest::collection::vec(any::<u8>(), 0..64);
            (Just(target), prop_oneof![8 => mutated, 2 => sizes, 1 => random])
        })
        .prop_map(|(target, data)| Case { target, data: Hex(data) })
        .boxed()
}

/// A size prefix claiming much more than is there, in front of every list-like type.
fn claims() -> Vec<Case> {
    let mut v = Vec::new();
    for target in 0..TARGETS {
        for n in [0xfcu64, 0xffff, 1 << 20, 1 << 24, 1 << 28, 0xffff_ffff, 1 << 36, 1 << 58, 1 << 60, i64::MAX as u64, u64::MAX] {
            for prefix in [&[][..], &[1, 0, 0, 0], &[1, 0, 0, 0, 0], &[0; 41], &[0; 8], &[0; 36]] {
                let mut d = prefix.to_vec();
                d.extend(refs::compact_size(n));
                v.push(Case { target, data: Hex(d.clone()) });
                d.extend([0; 64]);
                v.push(Case { target, data: Hex(d) });
            }
        }
        for op in [0x4d, 0x4e] {
            let mut d = vec![op, 0xff, 0xff, 0xff, 0xff];
            v.push(Case { target, data: Hex(d.clone()) });
            let mut e = refs::compact_size(d.len() as u64);
            e.append(&mut d);
            v.push(Case { target, data: Hex(e) });
        }
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Finding {
    script: Hex,
    becomes: Hex,
}

fn tx_with_script(s: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 0, 0, 0, 0, 1];
    v.extend([5, 0, 0, 0, 0, 0, 0, 0]);
    v.extend(var_bytes(s));
    v.extend([0; 4]);
    v
}

const FINDING: &str = "oversized-push-width";

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("hostile: 24 decoding targets; valid encodings with up to three edits (bytes set, flipped, removed, truncated, replaced by size prefixes of any width and magnitude), runs of size prefixes, random bytes; each decode is metered for memory and time and, when accepted, must re-encode to the same bytes; non-trivial if accepted or longer than four bytes. claims: every target against size prefixes claiming up to 2^64 items. valid: canonical transactions must be accepted.");
    ctx.enumerate("claims", claims(), check);
    ctx.suite("hostile", 40_000, 1_500_000, strategy, check);
    ctx.suite("valid", 3_000, 50_000, || mtx(8, false), |m, obs| {
        obs.nontrivial(!m.inputs.is_empty() || !m.outputs.is_empty());
        let tx = bch::UnhashedTx::deser(m.encode().into()).map_err(|e| e.to_string())?;
        ensure!(same_tx(&tx, m), "decoded differently");
        Ok(())
    });
    ctx.enumerate("large", [(0usize, 30_000usize), (7, 12_000), (9, 200_000), (17, 30_000), (15, 20_000), (8, 20_000)].iter().map(|(t, n)| {
        // Long but honest lists: memory stays proportional.
        let body = match t {
            0 => { let mut v = vec![1, 0, 0, 0, 0]; v.extend(refs::compact_size((*n / 10) as u64)); for _ in 0..*n / 10 { v.extend([1, 0, 0, 0, 0, 0, 0, 0, 1, 0x51]) } v.extend([0; 4]); v }
            7 => var_bytes(&vec![0x51; *n]),
            17 => { let mut v = refs::compact_size((*n / 32) as u64); v.extend(vec![7; *n / 32 * 32]); v }
            15 => { let mut v = refs::compact_size((*n / 10) as u64); for _ in 0..*n / 10 { v.extend([1, 0, 0, 0, 0, 0, 0, 0, 1, 0x51]) } v }
            _ => var_bytes(&filled(*n, 1)),
        };
        Case { target: *t, data: Hex(body) }
    }), |c, obs| {
        check(c, obs)?;
        ensure!(decode(c.target, &c.data).0.is_ok(), "an honest encoding is rejected");
        Ok(())
    });
    ctx.enumerate(
        "oversized-push",
        oversized_inputs().into_iter().map(|(a, b)| Finding { script: Hex(a), becomes: Hex(b) }),
        |f, obs| {
            let raw = tx_with_script(&f.script);
            let tx = bch::UnhashedTx::deser(raw.clone().into()).map_err(|e| e.to_string())?;
            let re = tx.ser();
            if re.as_slice() == &raw[..] {
                return Ok(());
            }
            if ctx.is_known(FINDING) && re.as_slice() == &tx_with_script(&f.becomes)[..] {
                obs.known.push(FINDING.into());
                return Ok(());
            }
            Err(format!("re-encoded as {}", re))
        },
    );
    (json!({}), vec!["Memory is bounded by 4096 bytes per input byte plus 64 KiB; an operation object takes a few hundred bytes.", "Decoding time is only bounded for inputs up to a few hundred kilobytes (20 s)."])
}
