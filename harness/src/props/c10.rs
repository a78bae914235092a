//! C10: addresses, locking scripts and destinations agree.
use crate::builder::p2pkh_ops;
use crate::model::*;
use crate::props::c08::prefix;
use crate::refs;
use crate::runner::*;
use bitcoin_cash as bch;
use bitcoin_cash::{Address, AddressType, BitcoinCode, Destination, Hashed, Script};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Addr {
    prefix: String,
    other: String,
    p2sh: bool,
    hash: Hex,
}

#[derive(Debug, PartialEq)]
enum Dest {
    Address(String, bool, Vec<u8>),
    P2pk(Vec<u8>),
    Nulldata(Vec<Meaning>),
    Unknown(Vec<u8>),
}

fn dest(d: &Destination) -> Dest {
    match d {
        Destination::Address(a) => Dest::Address(a.cash_addr().into(), a.addr_type() == AddressType::P2SH, a.hash().as_slice().to_vec()),
        Destination::P2PK(k) => Dest::P2pk(k.clone()),
        Destination::Nulldata(ops) => Dest::Nulldata(ops.iter().map(op_meaning).collect()),
        Destination::Unknown(s) => Dest::Unknown(s.ser_ops().to_vec()),
    }
}

/// Classification by the script's bytes.
fn reference(prefix: &str, b: &[u8]) -> Dest {
    if b.len() == 25 && b[..3] == [0x76, 0xa9, 0x14] && b[23..] == [0x88, 0xac] {
        return Dest::Address(refs::cashaddr(prefix, 0, &b[3..23]), false, b[3..23].to_vec());
    }
    if b.len() == 23 && b[..2] == [0xa9, 0x14] && b[22] == 0x87 {
        return Dest::Address(refs::cashaddr(prefix, 8, &b[2..22]), true, b[2..22].to_vec());
    }
    let ops = refs::parse_script(b).expect("well-formed");
    if ops.len() == 2 && raw_meaning(&ops[1]) == Meaning::Exec(0xac) {
        if let refs::RawOp::Push(..) = &ops[0] {
            return Dest::P2pk(ops[0].pushed().unwrap());
        }
    }
    if ops.first().map(raw_meaning) == Some(Meaning::Exec(0x6a)) {
        return Dest::Nulldata(ops[1..].iter().map(raw_meaning).collect());
    }
    Dest::Unknown(b.to_vec())
}

fn check_addr(c: &Addr, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(true);
    obs.class(if c.p2sh { "p2sh" } else { "p2pkh" });
    let kind = if c.p2sh { AddressType::P2SH } else { AddressType::P2PKH };
    let a = Address::from_hash(c.prefix.as_str(), kind, bch::Hash160::from_slice(&c.hash).unwrap());
    let mut want = vec![];
    if c.p2sh {
        want.extend([0xa9, 0x14]);
        want.extend(c.hash.iter());
        want.push(0x87);
    } else {
        want.extend([0x76, 0xa9, 0x14]);
        want.extend(c.hash.iter());
        want.extend([0x88, 0xac]);
    }
    let by_ref: Script = (&a).into();
    let by_value: Script = a.clone().into();
    ensure_eq!(hex::encode(by_ref.ser_ops().as_slice()), hex::encode(&want), "locking script");
    ensure_eq!(hex::encode(by_value.ser_ops().as_slice()), hex::encode(&want), "locking script (by value)");
    match (a.p2pkh_script(), c.p2sh) {
        (Ok(s), false) => {
            let s: Script = s.into();
            ensure_eq!(hex::encode(s.ser_ops().as_slice()), hex::encode(&want), "p2pkh_script");
        }
        (Err(bch::error::Error::InvalidAddressType), true) => {}
        (Ok(_), true) => return Err("p2pkh_script of a P2SH address".into()),
        (Err(e), _) => return Err(format!("p2pkh_script: {}", e)),
    }
    let wire = Script::deser(by_ref.ser()).map_err(|e| e.to_string())?;
    for (s, what) in [(&by_ref, "direct"), (&wire, "after the wire")] {
        let d = bch::script_destination(&c.prefix, s);
        match d.address() {
            Some(b) => ensure!(*b == a, "{}: {:?} instead of {:?}", what, b, a),
            None => return Err(format!("{}: classified as {:?}", what, d)),
        }
        let d = bch::script_destination(&c.other, s);
        ensure_eq!(dest(&d), Dest::Address(refs::cashaddr(&c.other, if c.p2sh { 8 } else { 0 }, &c.hash), c.p2sh, c.hash.0.clone()), "{} under {}", what, c.other);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scr {
    prefix: String,
    script: MScript,
}

fn spend(b: &[u8]) -> Option<(Vec<u8>, u32)> {
    let ops = refs::parse_script(b)?;
    if ops.len() != 2 {
        return None;
    }
    let (refs::RawOp::Push(..), refs::RawOp::Push(..)) = (&ops[0], &ops[1]) else { return None };
    let sig = ops[0].pushed()?;
    let key = ops[1].pushed()?;
    let f = *sig.last()? as u32;
    if key.len() != 33 || f & !0xdf != 0 {
        return None;
    }
    Some((key, f))
}

fn check_script(c: &Scr, obs: &mut Obs) -> Result<(), String> {
    let b = script_bytes(&c.script);
    let direct = script(&c.script);
    let wire = Script::deser_ops(b.clone().into()).map_err(|e| e.to_string())?;
    let want = reference(&c.prefix, &b);
    let class = match &want {
        Dest::Address(_, true, _) => "p2sh",
        Dest::Address(_, false, _) => "p2pkh",
        Dest::P2pk(_) => "p2pk",
        Dest::Nulldata(_) => "nulldata",
        Dest::Unknown(_) => "unknown",
    };
    obs.class(class);
    obs.nontrivial(!c.script.is_empty());
    let wire_like = c.script.iter().all(|op| match op {
        MOp::Code(_) => true,
        MOp::Push(d, minimal) => !minimal || refs::push_minimal(&d.bytes()).len() > 1,
        _ => false,
    });
    obs.class_if(wire_like, "same-operations-built-and-decoded");
    for (s, what) in [(&direct, "built"), (&wire, "decoded")] {
        let d = bch::script_destination(&c.prefix, s);
        let got = dest(&d);
        ensure_eq!(d.address().is_some(), matches!(got, Dest::Address(..)), "Destination::address");
        let got_spend = bch::script_p2pkh_spend(s).map(|p| (p.pubkey.as_slice().to_vec(), p.sig_hash_flags.bits()));
        let want_spend = spend(&b);
        for data in refs::parse_script(&b).iter().flatten().filter_map(|o| o.pushed()) {
            let key = bch::Pubkey::from_slice_checked(&data).map(|k| k.as_slice().to_vec());
            ensure_eq!(key, Some(data.clone()).filter(|d| d.len() == 33), "{} as a public key", hex::encode(&data));
        }
        obs.class_if(want_spend.is_some(), "p2pkh-spend");
        if what == "built" && !wire_like {
            // A number, boolean or small push is a different operation before it is on the wire
            // than after; only that it is no address is settled by the bytes.
            ensure_eq!(matches!(got, Dest::Address(..)), matches!(want, Dest::Address(..)), "built script {} is {:?}", hex::encode(&b), got);
            continue;
        }
        ensure!(got == want, "{} script {} is {:?}, expected {:?}", what, hex::encode(&b), got, want);
        ensure!(got_spend == want_spend, "{} script {} as a P2PKH spend: {:?}, expected {:?}", what, hex::encode(&b), got_spend, want_spend);
    }
    Ok(())
}

fn push(d: Vec<u8>) -> MOp {
    MOp::Push(Data::B(Hex(d)), true)
}

fn scripts() -> BoxedStrategy<MScript> {
    let hash = || prop_oneof![3 => vec(any::<u8>(), 20), 1 => vec(any::<u8>(), 19..=21), 1 => vec(any::<u8>(), 0..40), 1 => vec(any::<u8>(), 32)];
    let any_hash = || (hash(), prop_oneof![4 => Just(true), 1 => Just(false)]).prop_map(|(h, m)| MOp::Push(Data::B(Hex(h)), m));
    let p2pkh = any_hash().prop_map(|h| { let mut s = p2pkh_ops(&[0; 20]); s[2] = h; s });
    let p2sh = any_hash().prop_map(|h| vec![MOp::Code(0xa9), h, MOp::Code(0x87)]);
    let key = prop_oneof![3 => vec(any::<u8>(), 33), 1 => vec(any::<u8>(), 65), 1 => vec(any::<u8>(), 0..3), 1 => vec(any::<u8>(), 32..=34)];
    let p2pk = key.clone().prop_map(|k| vec![push(k), MOp::Code(0xac)]);
    let nulldata = mscript(4, false).prop_map(|mut s| { s.insert(0, MOp::Code(0x6a)); s });
    let sig = (prop_oneof![3 => vec(any::<u8>(), 64..72), 1 => vec(any::<u8>(), 0..3)], prop_oneof![4 => defined_flag_bits().prop_map(|f| f as u8), 2 => any::<u8>()], prop_oneof![6 => Just(true), 1 => Just(false)])
        .prop_map(|(mut s, f, with)| { if with { s.push(f) } s });
    let spend = (sig, key).prop_map(|(s, k)| vec![push(s), push(k)]);
    let base = prop_oneof![3 => p2pkh, 3 => p2sh, 2 => p2pk, 1 => nulldata, 3 => spend, 1 => mscript(6, false)];
    // Near misses: one operation changed, added or removed.
    (base, 0u8..8, any::<prop::sample::Index>(), mop(false))
        .prop_map(|(mut s, how, at, op)| {
            match how {
                0 if !s.is_empty() => { let i = at.index(s.len()); s[i] = op }
                1 => { let i = at.index(s.len() + 1); s.insert(i, op) }
                2 if !s.is_empty() => { let i = at.index(s.len()); s.remove(i); }
                3 if s.len() > 1 => { let i = at.index(s.len() - 1); s.swap(i, i + 1) }
                _ => {}
            }
            s
        })
        .boxed()
}

/// Scripts of many operations and of long data.
fn big() -> Vec<Scr> {
    let mut out = vec![];
    let mut add = |script: MScript| out.push(Scr { prefix: "bitcoincash".into(), script });
    for n in [1usize, 2, 15, 16, 17, 100, 254, 255, 256, 257, 1_000, 3_000] {
        for data in [Data::b(&[7; 2]), Data::b(&[]), Data::Fill(33, 2)] {
            let mut s = vec![MOp::Code(0x6a)];
            s.extend(std::iter::repeat(MOp::Push(data, true)).take(n));
            add(s.clone());
            s.push(MOp::Code(0xac));
            add(s.clone());
            s.rotate_left(1);
            add(s);
        }
        for mut s in [p2pkh_ops(&[4; 20]), vec![MOp::Code(0xa9), push(vec![3; 20]), MOp::Code(0x87)], vec![push(vec![2; 33]), MOp::Code(0xac)], vec![push(vec![9; 71]), push(vec![2; 33])]] {
            s.extend(std::iter::repeat(MOp::Code(0x61)).take(n));
            add(s.clone());
            s.rotate_left(1);
            add(s);
        }
    }
    for n in [74usize, 75, 76, 77, 78, 79, 80, 127, 128, 219, 220, 221, 222, 223, 224, 254, 255, 256, 257, 519, 520, 521, 9_999, 10_000, 10_001, 65_535, 65_536, 100_000] {
        for code in [0x6au8, 0x87, 0xa9, 0xac, 0x88] {
            add(vec![MOp::Code(code), MOp::Push(Data::Fill(n, 4), true)]);
            add(vec![MOp::Push(Data::Fill(n, 4), true), MOp::Code(code)]);
            add(vec![MOp::Code(code), MOp::Push(Data::Fill(n, 4), true), MOp::Push(Data::Fill(3, 4), true)]);
        }
        add(vec![MOp::Push(Data::Fill(n, 0x41), true), push(vec![2; 33])]);
        add(vec![push(vec![0x41; 71]), MOp::Push(Data::Fill(n, 2), true)]);
    }
    out
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("addresses: random address of each type, its locking script compared with the standard bytes and classified back, directly and after the wire; scripts: standard templates with hashes and keys of wrong lengths, with one operation changed, inserted, removed or swapped, and random scripts, classified as built and as decoded, compared with a reference working on the bytes; big: templates and data outputs of up to 3,000 operations and up to 100,000 bytes; non-trivial if the script is not empty.");
    ctx.suite("addresses", 100_000, 1_000_000, || {
        (prefix(), prefix(), any::<bool>(), vec(any::<u8>(), 20)).prop_map(|(prefix, other, p2sh, h)| Addr { prefix, other, p2sh, hash: Hex(h) })
    }, check_addr);
    ctx.suite("scripts", 600_000, 6_000_000, || (prefix(), scripts()).prop_map(|(prefix, script)| Scr { prefix, script }), check_script);
    ctx.enumerate("big", big(), check_script);
    (json!({}), vec!["Flag bytes count as defined when only the bits 0xdf are set, as SigHashFlags defines them."])
}
