//! C18: transactions built and signed with the library are valid spends under consensus rules.
use crate::backend::*;
use crate::curve::*;
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, Hashed};
use num_bigint::BigUint;
use num_traits::Zero;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use vh::builder::{tagged_script, RawOps};
use vh::interp::{Checker, Machine};
use vh::model::*;
use vh::refs;
use vh::runner::*;
use vh::{ensure, ensure_eq};

// ---- transactions read from the wire ----

#[derive(Clone, Debug, PartialEq)]
struct RawIn {
    outpoint: Vec<u8>,
    script: Vec<u8>,
    sequence: u32,
}
#[derive(Clone, Debug, PartialEq)]
struct RawOut {
    value: u64,
    script: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
struct RawTx {
    version: i32,
    inputs: Vec<RawIn>,
    outputs: Vec<RawOut>,
    lock_time: u32,
}

impl RawTx {
    fn parse(b: &[u8]) -> Option<RawTx> {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
            if b.len() < n {
                return None;
            }
            let (x, rest) = b.split_at(n);
            *b = rest;
            Some(x)
        }
        fn size(b: &mut &[u8]) -> Option<usize> {
            let (n, rest) = refs::read_compact_size(b)?;
            *b = rest;
            Some(n as usize)
        }
        let u32_ = |x: &[u8]| u32::from_le_bytes(x.try_into().unwrap());
        let b = &mut &b[..];
        let version = u32_(take(b, 4)?) as i32;
        let mut inputs = vec![];
        for _ in 0..size(b)? {
            let outpoint = take(b, 36)?.to_vec();
            let n = size(b)?;
            let script = take(b, n)?.to_vec();
            inputs.push(RawIn { outpoint, script, sequence: u32_(take(b, 4)?) });
        }
        let mut outputs = vec![];
        for _ in 0..size(b)? {
            let value = u64::from_le_bytes(take(b, 8)?.try_into().unwrap());
            let n = size(b)?;
            outputs.push(RawOut { value, script: take(b, n)?.to_vec() });
        }
        let lock_time = u32_(take(b, 4)?);
        if !b.is_empty() {
            return None;
        }
        Some(RawTx { version, inputs, outputs, lock_time })
    }

    /// What a signature of this kind in input `index` signs: BIP143 with the FORKID flag.
    fn signature_hash(&self, index: usize, code: &[u8], value: u64, flag: u8) -> Vec<u8> {
        let base = flag & 0x1f;
        let acp = flag & 0x80 != 0;
        let hash = |parts: Vec<Vec<u8>>| refs::sha256d(&parts.concat());
        let enc = |o: &RawOut| [o.value.to_le_bytes().to_vec(), var_bytes(&o.script)].concat();
        let zero = vec![0; 32];
        let me = &self.inputs[index];
        let mut v = self.version.to_le_bytes().to_vec();
        v.extend(if acp { zero.clone() } else { hash(self.inputs.iter().map(|i| i.outpoint.clone()).collect()) });
        v.extend(if acp || base != 1 { zero.clone() } else { hash(self.inputs.iter().map(|i| i.sequence.to_le_bytes().to_vec()).collect()) });
        v.extend(&me.outpoint);
        v.extend(var_bytes(code));
        v.extend(value.to_le_bytes());
        v.extend(me.sequence.to_le_bytes());
        v.extend(match base {
            1 => hash(self.outputs.iter().map(enc).collect()),
            3 if index < self.outputs.len() => hash(vec![enc(&self.outputs[index])]),
            _ => zero,
        });
        v.extend(self.lock_time.to_le_bytes());
        v.extend((flag as u32).to_le_bytes());
        refs::sha256d(&v)
    }
}

/// Signature checks against one input of a transaction.
struct Spend<'a> {
    tx: &'a RawTx,
    index: usize,
    value: u64,
}

fn valid_key(k: &[u8]) -> Option<(Fe, Fe)> {
    match parse_key(k) {
        Key::Compressed(x, y) | Key::Long(x, y) => Some((x, y)),
        Key::Bad => None,
    }
}

fn check_ecdsa(sig: &[u8], key: &[u8], hash: &[u8]) -> Result<bool, String> {
    let (r, s) = parse_der(sig).ok_or("signature is not DER")?;
    if !is_low(&s) {
        return Err("high S".into());
    }
    if !(key.len() == 33 && (key[0] == 2 || key[0] == 3) || key.len() == 65 && key[0] == 4) {
        return Err("public key encoding".into());
    }
    let Some(q) = valid_key(key) else { return Ok(false) };
    if r.is_zero() || s.is_zero() || r >= *n() || s >= *n() {
        return Ok(false);
    }
    Ok(ecdsa(&Some(q), hash, &r, &s))
}

impl Checker for Spend<'_> {
    fn check_sig(&self, sig: &[u8], key: &[u8], code: &[u8]) -> Result<bool, String> {
        let Some((flag, der)) = sig.split_last() else { return Ok(false) };
        if flag & 0x40 == 0 || !(1..=3).contains(&(flag & 0x1f)) || flag & 0x20 != 0 {
            return Err(format!("signature hash type {:02x}", flag));
        }
        check_ecdsa(der, key, &self.tx.signature_hash(self.index, code, self.value, *flag))
    }
    fn check_data_sig(&self, sig: &[u8], message: &[u8], key: &[u8]) -> Result<bool, String> {
        if sig.is_empty() {
            return Ok(false);
        }
        check_ecdsa(sig, key, &refs::sha256(message))
    }
    fn check_lock_time(&self, n: i64) -> bool {
        const THRESHOLD: i64 = 500_000_000;
        let t = self.tx.lock_time as i64;
        (t < THRESHOLD) == (n < THRESHOLD) && n <= t && self.tx.inputs[self.index].sequence != u32::MAX
    }
    fn check_sequence(&self, n: i64) -> bool {
        if n & (1 << 31) != 0 {
            return true;
        }
        let s = self.tx.inputs[self.index].sequence as i64;
        if (self.tx.version as u32) < 2 || s & (1 << 31) != 0 {
            return false;
        }
        let mask = (1 << 22) | 0xffff;
        let (a, b) = (n & mask, s & mask);
        (a < 1 << 22) == (b < 1 << 22) && a <= b
    }
}

/// The rules for spending `lock` with `unlock`: push only, clean stack, P2SH.
fn spend(unlock: &[u8], lock: &[u8], checker: &Spend) -> Result<(), String> {
    if unlock.len() > 1650 {
        return Err("unlocking script above the standard size".into());
    }
    let ops = refs::parse_script(unlock).ok_or("unlocking script is not well formed")?;
    if ops.iter().any(|o| o.pushed().is_none()) {
        return Err("unlocking script is not push only".into());
    }
    let mut m = Machine::default();
    m.run(unlock, checker).map_err(|e| format!("unlocking script: {:?}", e))?;
    let after_unlock = m.stack.clone();
    m.run(lock, checker).map_err(|e| format!("locking script: {:?}", e))?;
    let top = |m: &Machine| m.stack.last().map_or(false, |v| vh::interp::truthy(v));
    if !top(&m) {
        return Err("locking script leaves false".into());
    }
    if lock.len() == 23 && lock[0] == 0xa9 && lock[1] == 20 && lock[22] == 0x87 {
        m = Machine::new(after_unlock);
        let redeem = m.stack.pop().ok_or("no redeem script")?;
        m.run(&redeem, checker).map_err(|e| format!("redeem script: {:?}", e))?;
        if !top(&m) {
            return Err("redeem script leaves false".into());
        }
    }
    if m.stack.len() != 1 {
        return Err(format!("{} items are left", m.stack.len()));
    }
    Ok(())
}

// ---- signatories ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    P2pkh,
    /// P2SH of these scripts.
    PayToKey,
    PayToHash,
    Multisig(u8, u8),
    /// A separator before the key, with something in front of it, and one behind the check.
    Separator(u8, bool),
    HashLock(Hex),
    /// Two keys: one at any time, one after a lock time or an age.
    Branches { second: bool, age: bool },
    /// The preimage itself is on the stack, checked with CHECKDATASIG and CHECKSIG.
    Introspect,
    /// k times the same key, each with flags of its own.
    Several(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct In {
    txid: Hex,
    vout: u32,
    sequence: u32,
    value: u64,
    key: Hex,
    other: Hex,
    flags: Vec<u8>,
    kind: Kind,
    rust: bool,
}

fn push(b: &[u8]) -> MOp {
    MOp::Push(Data::b(b), true)
}
fn op(b: u8) -> MOp {
    MOp::Code(b)
}

impl In {
    fn flag(&self, k: usize) -> u8 {
        0x40 | (self.flags[k % self.flags.len()] % 3 + 1) | (self.flags[k % self.flags.len()] & 0x80)
    }
    /// How many signatures the input has.
    fn signatures(&self) -> usize {
        match self.kind {
            Kind::Multisig(k, n) => Kind::multisig(k, n).0,
            Kind::Several(k) => k as usize % 4 + 2,
            _ => 1,
        }
    }
    fn flag_list(&self) -> Vec<u8> {
        match self.kind {
            _ => (0..self.signatures()).map(|k| self.flag(k)).collect(),
        }
    }
    /// The secret key of the k-th signature.
    fn secret(&self, k: usize) -> Vec<u8> {
        match self.kind {
            Kind::Multisig(..) => multi_key(&self.key, k),
            Kind::Branches { second: true, .. } => self.other.0.clone(),
            _ => self.key.0.clone(),
        }
    }
    fn delay(&self, lock_time: u32) -> i64 {
        match self.kind {
            Kind::Branches { age: true, .. } => (self.sequence & 0x40ffff) as i64,
            _ => lock_time as i64,
        }
    }
    fn redeem(&self, lock_time: u32) -> MScript {
        let pk = push(&public(&self.key).unwrap());
        match &self.kind {
            Kind::P2pkh => vh::builder::p2pkh_ops(&refs::hash160(&public(&self.key).unwrap())),
            Kind::PayToHash => vec![op(0x76), op(0xa9), push(&refs::hash160(&public(&self.key).unwrap())), op(0x88), op(0xac)],
            Kind::PayToKey => vec![pk, op(0xac)],
            Kind::Multisig(k, n) => {
                let (k, n) = Kind::multisig(*k, *n);
                let mut v = vec![MOp::Int(k as i32)];
                for i in 0..n {
                    v.push(push(&public(&multi_key(&self.key, i)).unwrap()))
                }
                v.extend([MOp::Int(n as i32), op(0xae)]);
                v
            }
            Kind::Separator(front, behind) => {
                let mut v = match front % 4 {
                    0 => vec![],
                    1 => vec![push(&[0xab]), op(0x75)],
                    2 => vec![MOp::Int(7), op(0x75), op(0x61)],
                    _ => vec![push(&filled(80, 0xab)), op(0x75)],
                };
                v.extend([op(0xab), pk, op(0xac)]);
                if *behind {
                    v.push(op(0xab))
                }
                v
            }
            Kind::HashLock(h) => vec![op(0xa8), push(&refs::sha256(h)), op(0x88), pk, op(0xac)],
            Kind::Branches { age, .. } => vec![
                op(0x63),
                pk,
                op(0x67),
                push(&refs::script_num(self.delay(lock_time) as i128)),
                op(if *age { 0xb2 } else { 0xb1 }),
                op(0x75),
                push(&public(&self.other).unwrap()),
                op(0x68),
                op(0xac),
            ],
            // preimage sig: 2DUP SWAP SHA256 pk CHECKDATASIGVERIFY flag CAT NIP pk CHECKSIG
            Kind::Introspect => vec![
                op(0x6e),
                op(0x7c),
                op(0xa8),
                pk.clone(),
                op(0xbb),
                push(&[self.flag(0)]),
                op(0x7e),
                op(0x77),
                pk,
                op(0xac),
            ],
            Kind::Several(_) => {
                let mut v = vec![];
                for _ in 1..self.signatures() {
                    v.extend([pk.clone(), op(0xad)]);
                }
                v.extend([pk, op(0xac)]);
                v
            }
        }
    }
    fn is_p2sh(&self) -> bool {
        !matches!(self.kind, Kind::P2pkh)
    }
}

impl Kind {
    fn multisig(k: u8, n: u8) -> (usize, usize) {
        let n = n as usize % 4 + 1;
        (k as usize % n + 1, n)
    }
}

fn multi_key(key: &[u8], k: usize) -> Vec<u8> {
    let v = BigUint::from_bytes_be(key) + k as u32;
    scalar_be(&((v - 1u32) % (n() - 1u32) + 1u32)).to_vec()
}

/// Signs one input, however its redeem script wants it.
#[derive(Clone)]
struct Redeemer(In);

impl bch::Signatory for Redeemer {
    type Script = RawOps;
    type Signatures = Vec<bch::ByteArray>;
    type Kind = bch::SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<bch::SigHashFlags> {
        self.0.flag_list().iter().map(|f| flags(*f as u32)).collect()
    }
    fn placeholder_signatures(&self) -> Self::Signatures {
        (0..self.0.signatures()).map(|_| bch::ByteArray::new_unnamed(vec![0; bch::MAX_SIGNATURE_SIZE])).collect()
    }
    fn build_script(&self, preimages: &[bch::TxPreimage], _: Option<usize>, sigs: Self::Signatures, _: &bch::Script, _: &[bch::TxOutput]) -> RawOps {
        let i = &self.0;
        let mut pushes: Vec<bch::Op> = sigs
            .iter()
            .enumerate()
            .map(|(k, s)| match i.kind {
                Kind::Introspect => s.clone().into(),
                _ => s.clone().concat(bch::ByteArray::new("flag", vec![i.flag(k)])).into(),
            })
            .collect();
        match &i.kind {
            Kind::P2pkh => unreachable!(),
            Kind::PayToKey | Kind::Separator(..) => {}
            Kind::Several(_) => pushes.reverse(),
            Kind::PayToHash => pushes.push(bch::Op::from_array(public(&i.key).unwrap())),
            Kind::Multisig(..) => pushes.insert(0, bch::Op::from_array(vec![])),
            Kind::HashLock(h) => pushes.push(bch::Op::from_array(h.0.clone())),
            Kind::Branches { second, .. } => pushes.push(bch::Op::PushBoolean(!second)),
            Kind::Introspect => pushes.insert(0, bch::Op::from_array(preimages[0].ser().to_vec())),
        }
        RawOps(pushes.into_iter().map(bch::TaggedOp::from_op).collect())
    }
}

enum Ref {
    P2pkh(bch::InputReference<bch::P2PKHSignatory>),
    Redeem(bch::InputReference<Redeemer>),
}

// ---- cases ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Out {
    Script(u64, MScript),
    Pay(u64, Hex, bool),
    Leftover(Hex),
}

/// A change to the signed transaction, or to the coin it spends.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Alter {
    Version(u8),
    LockTime(u8),
    Outpoint(u16, u16),
    Sequence(u16, u8),
    Value(u16, u8),
    OutValue(u16, u8),
    OutScript(u16, u16),
    AddOut(bool),
    DropOut(u16),
    SwapOut(u16),
    AddIn,
    DropIn(u16),
    SwapIn(u16),
    Unlock(u16),
    /// A bit of the signature in the unlocking script, or of its flags.
    SigBit(u16, u16),
    Flags(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    version: i32,
    lock_time: u32,
    inputs: Vec<In>,
    outputs: Vec<Out>,
    fee: u16,
    estimate: bool,
    order: Vec<u16>,
    /// Resume from the partial transaction before this many signatures; also through JSON.
    resume: Option<(u16, bool)>,
    alter: Vec<Alter>,
}

fn address_of(hash: &[u8], p2sh: bool) -> bch::Address<'static> {
    let t = if p2sh { bch::AddressType::P2SH } else { bch::AddressType::P2PKH };
    bch::Address::from_hash("bitcoincash", t, bch::Hash160::from_slice(hash).unwrap())
}

/// The script of the coin an input spends, as the library derives it.
fn coin_script(c: &Case, i: &In) -> Result<Vec<u8>, String> {
    let redeem = script(&i.redeem(c.lock_time));
    let address = if i.is_p2sh() {
        bch::Address::from_redeem_script("bitcoincash", redeem).map_err(|e| e.to_string())?
    } else {
        bch::Address::from_pk("bitcoincash", &bch::Pubkey::from_slice(&public(&i.key).unwrap()))
    };
    let script: bch::Script = address.into();
    let got = script.ser_ops().to_vec();
    let (a, h, z) = if i.is_p2sh() {
        (vec![0xa9, 20], refs::hash160(&script_bytes(&i.redeem(c.lock_time))), vec![0x87])
    } else {
        (vec![0x76, 0xa9, 20], refs::hash160(&public(&i.key).unwrap()), vec![0x88, 0xac])
    };
    ensure_eq!(hex::encode(&got), hex::encode([a, h, z].concat()), "script of the address");
    Ok(got)
}

fn signature(i: &In, k: usize, preimage: &bch::TxPreimage) -> Result<bch::ByteArray, String> {
    let digest = bch::Sha256d::digest(preimage.ser());
    let b = if i.rust { Backend::Rust } else { Backend::C };
    b.sign(&i.secret(k), digest.as_slice())?.map(bch::ByteArray::from)
}

fn all_spends(tx: &RawTx, values: &[u64], coins: &[Vec<u8>]) -> Vec<Result<(), String>> {
    tx.inputs.iter().enumerate().take(coins.len()).map(|(k, i)| spend(&i.script, &coins[k], &Spend { tx, index: k, value: values[k] })).collect()
}

fn check(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let mut b = bch::TxBuilder::new_with_fee(c.version, c.lock_time, c.fee as u64);
    let mut irefs = vec![];
    for i in &c.inputs {
        let input = bch::UnsignedTxInput { prev_out: bch::TxOutpoint { tx_hash: hash32(&i.txid), vout: i.vout }, sequence: i.sequence, value: i.value };
        irefs.push(if i.is_p2sh() {
            Ref::Redeem(b.add_input(input, tagged_script(&i.redeem(c.lock_time)), Redeemer(i.clone())))
        } else {
            let pubkey = bch::Pubkey::from_slice(&public(&i.key).unwrap());
            let lock = bch::Address::from_pk("bitcoincash", &pubkey).p2pkh_script().map_err(|e| e.to_string())?;
            Ref::P2pkh(b.add_input(input, lock, bch::P2PKHSignatory { pubkey, sig_hash_flags: flags(i.flag(0) as u32) }))
        });
    }
    let mut leftover = false;
    for o in &c.outputs {
        match o {
            Out::Script(value, s) => b.add_output(bch::TxOutput { value: *value, script: script(s) }),
            Out::Pay(value, hash, p2sh) => b.add_output(bch::TxOutput { value: *value, script: address_of(hash, *p2sh).into() }),
            Out::Leftover(hash) => {
                leftover = true;
                b.add_leftover_output(address_of(hash, false).into())
            }
        }
    }
    let built = if c.estimate || leftover { b.build() } else { b.build_without_estimation() };
    let mut unsigned = match built {
        Ok(u) => u,
        Err(bch::error::Error::InsufficientInputAmount { .. }) => return Ok(()),
        Err(e) => return Err(format!("unexpected error {}", e)),
    };
    let estimated = unsigned.estimated_size();
    // Sign in the given order.
    let count = c.inputs.len();
    let mut order: Vec<usize> = (0..count).collect();
    for (k, r) in c.order.iter().enumerate() {
        if k < count {
            order.swap(k, *r as usize % count)
        }
    }
    let mut fresh = true;
    for (step, &k) in order.iter().enumerate() {
        if let Some((at, json)) = c.resume {
            if at as usize % count == step {
                let mut tx = unsigned.partial_tx();
                if json {
                    tx = bch::json_to_tx(&bch::tx_to_json(&tx).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                }
                unsigned = bch::TxBuilder::from_tx(tx).build_without_estimation().map_err(|e| e.to_string())?;
                fresh = false;
                obs.class("resumed");
            }
        }
        let i = &c.inputs[k];
        let preimages = unsigned.preimages()[k].to_vec();
        ensure_eq!(preimages.len(), i.signatures(), "number of preimages of input {}", k);
        let sigs = preimages.iter().enumerate().map(|(j, p)| signature(i, j, p)).collect::<Result<Vec<_>, _>>()?;
        let r = match (&irefs[k], fresh) {
            (Ref::P2pkh(r), true) => unsigned.sign_input(*r, sigs[0].clone()),
            (Ref::Redeem(r), true) => unsigned.sign_input(*r, sigs),
            (Ref::P2pkh(r), false) => {
                let pubkey = bch::Pubkey::from_slice(&public(&i.key).unwrap());
                unsigned.sign_input_signatory(*r, bch::P2PKHSignatory { pubkey, sig_hash_flags: flags(i.flag(0) as u32) }, sigs[0].clone())
            }
            (Ref::Redeem(r), false) => unsigned.sign_input_signatory(*r, Redeemer(i.clone()), sigs),
        };
        r.map_err(|e| format!("signing input {}: {}", k, e))?;
    }
    let wire = unsigned.complete_tx().ser().to_vec();
    ensure!(wire.len() <= estimated, "{} bytes on the wire, {} estimated", wire.len(), estimated);
    let tx = RawTx::parse(&wire).ok_or("the transaction's wire bytes are not a transaction")?;
    ensure_eq!(tx.inputs.len(), count, "inputs");
    let coins = c.inputs.iter().map(|i| coin_script(c, i)).collect::<Result<Vec<_>, _>>()?;
    let values: Vec<u64> = c.inputs.iter().map(|i| i.value).collect();
    obs.nontrivial(true);
    for (k, r) in all_spends(&tx, &values, &coins).iter().enumerate() {
        ensure!(r.is_ok(), "input {} ({:?}, flags {:02x?}) is not a valid spend: {}; transaction {}", k, c.inputs[k].kind, c.inputs[k].flag_list(), r.clone().unwrap_err(), hex::encode(&wire));
        obs.class(match c.inputs[k].kind {
            Kind::P2pkh => "p2pkh",
            Kind::PayToKey => "p2sh-p2pk",
            Kind::PayToHash => "p2sh-p2pkh",
            Kind::Multisig(..) => "p2sh-multisig",
            Kind::Separator(..) => "p2sh-separator",
            Kind::HashLock(_) => "p2sh-hash-lock",
            Kind::Branches { .. } => "p2sh-branches",
            Kind::Introspect => "p2sh-introspection",
            Kind::Several(_) => "p2sh-several-signatures",
        });
    }
    for a in &c.alter {
        check_alter(c, a, &tx, &values, &coins, obs)?;
    }
    Ok(())
}

/// Whether some signature of an input commits to what an alteration touches.
fn check_alter(c: &Case, a: &Alter, tx: &RawTx, values: &[u64], coins: &[Vec<u8>], obs: &mut Obs) -> Result<(), String> {
    let mut t = tx.clone();
    let mut values = values.to_vec();
    let ni = tx.inputs.len();
    let no = tx.outputs.len();
    // For every input: does a signature with these flags commit to the change.
    let commits: Box<dyn Fn(usize, u8) -> bool>;
    let base = |f: u8| f & 0x1f;
    let acp = |f: u8| f & 0x80 != 0;
    match *a {
        Alter::Version(x) => {
            t.version ^= 1 << (x % 32);
            commits = Box::new(|_, _| true)
        }
        Alter::LockTime(x) => {
            t.lock_time ^= 1 << (x % 32);
            commits = Box::new(|_, _| true)
        }
        Alter::Outpoint(k, bit) => {
            let k = k as usize % ni;
            t.inputs[k].outpoint[bit as usize / 8 % 36] ^= 1 << (bit % 8);
            commits = Box::new(move |i, f| i == k || !acp(f))
        }
        Alter::Sequence(k, bit) => {
            let k = k as usize % ni;
            t.inputs[k].sequence ^= 1 << (bit % 32);
            commits = Box::new(move |i, f| i == k || (!acp(f) && base(f) == 1))
        }
        Alter::Value(k, bit) => {
            let k = k as usize % ni;
            values[k] ^= 1 << (bit % 64);
            commits = Box::new(move |i, _| i == k)
        }
        Alter::OutValue(k, bit) if no > 0 => {
            let k = k as usize % no;
            t.outputs[k].value ^= 1 << (bit % 64);
            commits = Box::new(move |i, f| base(f) == 1 || (base(f) == 3 && i == k))
        }
        Alter::OutScript(k, bit) if no > 0 => {
            let k = k as usize % no;
            let s = &mut t.outputs[k].script;
            if s.is_empty() || bit % 5 == 0 {
                s.push(bit as u8)
            } else {
                let at = bit as usize / 8 % s.len();
                s[at] ^= 1 << (bit % 8)
            }
            commits = Box::new(move |i, f| base(f) == 1 || (base(f) == 3 && i == k))
        }
        Alter::AddOut(front) => {
            let o = RawOut { value: 600, script: vec![0x51] };
            if front {
                t.outputs.insert(0, o)
            } else {
                t.outputs.push(o)
            }
            let same = tx.outputs.clone();
            let now = t.outputs.clone();
            commits = Box::new(move |i, f| base(f) == 1 || (base(f) == 3 && same.get(i) != now.get(i)))
        }
        Alter::DropOut(k) if no > 0 => {
            t.outputs.remove(k as usize % no);
            let same = tx.outputs.clone();
            let now = t.outputs.clone();
            commits = Box::new(move |i, f| base(f) == 1 || (base(f) == 3 && same.get(i) != now.get(i)))
        }
        Alter::SwapOut(k) if no > 1 => {
            let k = k as usize % (no - 1);
            t.outputs.swap(k, k + 1);
            if t.outputs == tx.outputs {
                return Ok(());
            }
            commits = Box::new(move |i, f| base(f) == 1 || (base(f) == 3 && (i == k || i == k + 1)))
        }
        Alter::AddIn => {
            t.inputs.push(RawIn { outpoint: vec![3; 36], script: vec![0x51], sequence: 1 });
            commits = Box::new(move |_, f| !acp(f))
        }
        Alter::DropIn(k) if ni > 1 => {
            // Behind the dropped input the index changes, which only SINGLE commits to.
            let k = k as usize % ni;
            t.inputs.remove(k);
            let mut coins = coins.to_vec();
            coins.remove(k);
            values.remove(k);
            let now = all_spends(&t, &values, &coins);
            for (j, r) in now.iter().enumerate() {
                let i = if j < k { j } else { j + 1 };
                let committed = c.inputs[i].flag_list().iter().any(|f| !acp(*f) || (base(*f) == 3 && i != j && tx.outputs.get(i) != tx.outputs.get(j)));
                ensure_eq!(r.is_ok(), !committed, "input {} after dropping input {}: {:?}", i, k, r);
                obs.class(if committed { "altered-committed" } else { "altered-open" });
            }
            return Ok(());
        }
        Alter::SwapIn(k) if ni > 1 => {
            let k = k as usize % (ni - 1);
            t.inputs.swap(k, k + 1);
            values.swap(k, k + 1);
            let mut coins = coins.to_vec();
            coins.swap(k, k + 1);
            let moved = |i: usize| if i == k { k + 1 } else if i == k + 1 { k } else { i };
            let same_sequences = t.inputs.iter().map(|i| i.sequence).eq(tx.inputs.iter().map(|i| i.sequence));
            let same_outpoints = t.inputs.iter().map(|i| &i.outpoint).eq(tx.inputs.iter().map(|i| &i.outpoint));
            for (j, r) in all_spends(&t, &values, &coins).iter().enumerate() {
                let i = moved(j);
                let committed = c.inputs[i].flag_list().iter().any(|&f| {
                    (!acp(f) && !same_outpoints) || (!acp(f) && base(f) == 1 && !same_sequences) || (base(f) == 3 && tx.outputs.get(i) != tx.outputs.get(j))
                });
                ensure_eq!(r.is_ok(), !committed, "input {} after swapping inputs {} and {}: {:?}", i, k, k + 1, r);
                obs.class(if committed { "altered-committed" } else { "altered-open" });
            }
            return Ok(());
        }
        Alter::Unlock(k) => {
            // Other inputs' scripts are open to everyone.
            let k = k as usize % ni;
            t.inputs[k].script = vec![0x51];
            commits = Box::new(move |i, _| i == k)
        }
        Alter::SigBit(k, bit) => {
            let k = k as usize % ni;
            let s = &mut t.inputs[k].script;
            // The first push of some length is the signature, except for introspection.
            let at = s.iter().position(|b| *b == 0x30).ok_or("no signature")?;
            if matches!(c.inputs[k].kind, Kind::Introspect) {
                return Ok(());
            }
            let len = s[at + 1] as usize + 2;
            s[at + bit as usize / 8 % len] ^= 1 << (bit % 8);
            commits = Box::new(move |i, _| i == k)
        }
        Alter::Flags(k, x) => {
            let k = k as usize % ni;
            if matches!(c.inputs[k].kind, Kind::Introspect) {
                return Ok(());
            }
            let s = &mut t.inputs[k].script;
            let at = s.iter().position(|b| *b == 0x30).ok_or("no signature")?;
            let at = at + s[at + 1] as usize + 2;
            s[at] ^= 1 << (x % 8);
            commits = Box::new(move |i, _| i == k)
        }
        _ => return Ok(()),
    }
    for (i, r) in all_spends(&t, &values, coins).iter().enumerate() {
        let committed = c.inputs[i].flag_list().iter().any(|f| commits(i, *f));
        ensure_eq!(r.is_ok(), !committed, "input {} ({:?}, flags {:02x?}) after {:?}: {:?}", i, c.inputs[i].kind, c.inputs[i].flag_list(), a, r);
        obs.class(if committed { "altered-committed" } else { "altered-open" });
    }
    Ok(())
}

// ---- generators ----

fn alters() -> BoxedStrategy<Alter> {
    let w = any::<u16>;
    let b = any::<u8>;
    prop_oneof![
        1 => b().prop_map(Alter::Version),
        1 => b().prop_map(Alter::LockTime),
        3 => (w(), w()).prop_map(|(a, b)| Alter::Outpoint(a, b)),
        3 => (w(), b()).prop_map(|(a, b)| Alter::Sequence(a, b)),
        2 => (w(), b()).prop_map(|(a, b)| Alter::Value(a, b)),
        3 => (w(), b()).prop_map(|(a, b)| Alter::OutValue(a, b)),
        3 => (w(), w()).prop_map(|(a, b)| Alter::OutScript(a, b)),
        2 => any::<bool>().prop_map(Alter::AddOut),
        2 => w().prop_map(Alter::DropOut),
        2 => w().prop_map(Alter::SwapOut),
        2 => Just(Alter::AddIn),
        2 => w().prop_map(Alter::DropIn),
        2 => w().prop_map(Alter::SwapIn),
        1 => w().prop_map(Alter::Unlock),
        1 => (w(), w()).prop_map(|(a, b)| Alter::SigBit(a, b)),
        1 => (w(), b()).prop_map(|(a, b)| Alter::Flags(a, b)),
    ]
    .boxed()
}

fn secret_key() -> BoxedStrategy<Hex> {
    prop_oneof![4 => vec(any::<u8>(), 32).prop_filter("valid", |k| secret(k).is_some()).prop_map(Hex), 1 => (1u32..50).prop_map(|v| Hex(scalar_be(&BigUint::from(v)).to_vec()))].boxed()
}

fn inputs() -> BoxedStrategy<In> {
    let b = any::<u8>;
    let kind = prop_oneof![
        4 => Just(Kind::P2pkh),
        1 => Just(Kind::PayToKey),
        1 => Just(Kind::PayToHash),
        2 => (b(), b()).prop_map(|(k, n)| Kind::Multisig(k, n)),
        2 => (b(), any::<bool>()).prop_map(|(f, t)| Kind::Separator(f, t)),
        1 => prop_oneof![vec(b(), 0..40), vec(b(), 70..80), vec(b(), 250..260), vec(b(), 515..=520)].prop_map(|v| Kind::HashLock(Hex(v))),
        2 => (any::<bool>(), any::<bool>()).prop_map(|(second, age)| Kind::Branches { second, age }),
        1 => Just(Kind::Introspect),
        2 => b().prop_map(Kind::Several),
    ];
    let value = prop_oneof![600u64..5000, 0u64..(1 << 50), Just(0u64), Just(u32::MAX as u64), Just(1u64 << 32)];
    ((txid(), u32_edge(), u32_edge(), value), (secret_key(), secret_key(), vec(b(), 1..5)), kind, any::<bool>())
        .prop_map(|((txid, vout, sequence, value), (key, other, flags), kind, rust)| In { txid, vout, sequence, value, key, other, flags, kind, rust })
        .boxed()
}

fn strategy() -> BoxedStrategy<Case> {
    cases(1, 6, 0, 6, 6)
}

/// Lists long enough to need a longer size prefix.
fn crowds() -> BoxedStrategy<Case> {
    prop_oneof![2 => cases(251, 258, 0, 4, 3), 1 => cases(1, 4, 250, 260, 3)].boxed()
}

fn cases(min_in: usize, max_in: usize, min_out: usize, max_out: usize, max_alter: usize) -> BoxedStrategy<Case> {
    let hash = || vec(any::<u8>(), 20).prop_map(Hex);
    let value = || prop_oneof![4 => 0u64..800, 2 => 0u64..(1 << 48)];
    let out = prop_oneof![
        3 => (value(), hash(), any::<bool>()).prop_map(|(v, h, p)| Out::Pay(v, h, p)),
        3 => (value(), mscript(4, false)).prop_map(|(v, s)| Out::Script(v, s)),
        2 => hash().prop_map(Out::Leftover),
    ];
    (
        (prop_oneof![Just(1i32), Just(2), i32_edge()], prop_oneof![Just(0u32), 0u32..500_000_000, Just(499_999_999), Just(500_000_000), Just(0x7fff_ffff), any::<u32>()]),
        vec(inputs(), min_in..max_in),
        vec(out, min_out..max_out),
        (prop_oneof![Just(0u16), Just(1000), any::<u16>()], any::<bool>()),
        vec(any::<u16>(), 0..6),
        proptest::option::weighted(0.3, (any::<u16>(), any::<bool>())),
        vec(alters(), 0..max_alter),
    )
        .prop_map(|((version, lock_time), mut inputs, outputs, (fee, estimate), order, resume, alter)| {
            // Locks have to be met: adjust the sequence (and the version, for ages).
            let mut version = version;
            for i in &mut inputs {
                if let Kind::Branches { second: true, age } = i.kind {
                    if age {
                        i.sequence &= 0x7fff_ffff;
                        if (version as u32) < 2 {
                            version = 2
                        }
                    } else if i.sequence == u32::MAX {
                        i.sequence -= 1
                    }
                }
            }
            // Coins are distinct.
            let mut seen: HashMap<(Vec<u8>, u32), u32> = HashMap::new();
            for i in &mut inputs {
                let n = seen.entry((i.txid.0.clone(), i.vout)).or_default();
                i.vout = i.vout.wrapping_add(*n * 7);
                *n += 1;
            }
            Case { version, lock_time, inputs, outputs, fee, estimate, order, resume, alter }
        })
        .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("spends: transactions of one to five inputs (P2PKH and eight kinds of P2SH redeem scripts: keys, hashes, multisig, code separators, hash locks, time and age locks, introspection of the preimage, several signatures with flags of their own) with every mix of ALL, NONE, SINGLE and ANYONECANPAY, up to five outputs, signed in any order with either back end over the preimages the library hands out, half-way resumed in some; every input of the wire bytes is run through an own interpreter with its own signature hash and secp256k1; then up to five alterations, after each of which every input has to be valid exactly if none of its signatures commits to what changed; crowds: the same with 251 to 257 inputs or 250 to 259 outputs; non-trivial: a transaction that was built and signed.");
    // sign_input reports on standard output; keep it out of the check's.
    let quiet = Quiet::new();
    ctx.suite("spends", 8_000, 200_000, strategy, check);
    ctx.suite("crowds", 24, 800, crowds, check);
    drop(quiet);
    (json!({}), vec![
        "Redeem scripts execute at most one code separator before their signature checks.",
        "Rules are those of the May 2020 upgrade, ECDSA signatures only.",
    ])
}
