//! Serialisable case types, their generators, conversion to the library's types and their
//! reference wire encodings.
use crate::refs;
use crate::runner::{filled, Hex};
use bitcoin_cash as bch;
use bitcoin_cash::Hashed;
use num_traits::FromPrimitive;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A byte string; long ones are described by a fill pattern.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Data {
    B(Hex),
    Fill(usize, u8),
}

impl Data {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Data::B(h) => h.0.clone(),
            Data::Fill(n, s) => filled(*n, *s),
        }
    }
    pub fn b(x: &[u8]) -> Data {
        Data::B(Hex(x.to_vec()))
    }
}

/// Byte strings around every interesting length; `big` also allows 64 KiB ones.
pub fn data(big: bool) -> BoxedStrategy<Data> {
    let small = proptest::collection::vec(any::<u8>(), 0..40).prop_map(|v| Data::B(Hex(v)));
    let one = prop_oneof![Just(0u8), 0u8..=17, Just(0x80), Just(0x81), any::<u8>()].prop_map(|b| Data::B(Hex(vec![b])));
    let edge = (
        prop_oneof![Just(0usize), Just(1), Just(32), Just(33), Just(74), Just(75), Just(76), Just(77), Just(252), Just(253), Just(254), Just(255), Just(256), Just(257), 0usize..600],
        any::<u8>(),
    )
        .prop_map(|(n, s)| Data::Fill(n, s));
    if big {
        let huge = (prop_oneof![Just(65535usize), Just(65536), Just(65537), 60000usize..70000], any::<u8>())
            .prop_map(|(n, s)| Data::Fill(n, s));
        prop_oneof![60 => small, 40 => one, 30 => edge, 2 => huge].boxed()
    } else {
        prop_oneof![6 => small, 4 => one, 3 => edge].boxed()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum MOp {
    Code(u8),
    Invalid(u8),
    Push(Data, bool),
    Bool(bool),
    Int(i32),
}

/// What an operation does: put these bytes on the stack, or execute this opcode byte.
#[derive(Clone, PartialEq, Eq)]
pub enum Meaning {
    Push(Vec<u8>),
    Exec(u8),
}

impl std::fmt::Debug for Meaning {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Meaning::Push(d) if d.len() > 60 => write!(f, "push[{}]{}..", d.len(), hex::encode(&d[..20])),
            Meaning::Push(d) => write!(f, "push[{}]{}", d.len(), hex::encode(d)),
            Meaning::Exec(b) => write!(f, "op{:02x}", b),
        }
    }
}

pub fn code_meaning(b: u8) -> Meaning {
    match refs::RawOp::Op(b).pushed() {
        Some(d) => Meaning::Push(d),
        None => Meaning::Exec(b),
    }
}

pub fn op_meaning(op: &bch::Op) -> Meaning {
    match op {
        bch::Op::Code(c) => code_meaning(*c as u8),
        bch::Op::Invalid(b) => Meaning::Exec(*b),
        bch::Op::PushByteArray { array, .. } => Meaning::Push(array.to_vec()),
        bch::Op::PushBoolean(b) => Meaning::Push(if *b { vec![1] } else { vec![] }),
        bch::Op::PushInteger(i) => Meaning::Push(refs::script_num(i.value() as i128)),
    }
}

pub fn raw_meaning(op: &refs::RawOp) -> Meaning {
    match op.pushed() {
        Some(d) => Meaning::Push(d),
        None => match op {
            refs::RawOp::Op(b) => Meaning::Exec(*b),
            refs::RawOp::Push(..) => unreachable!(),
        },
    }
}

pub fn opcode(b: u8) -> bch::Opcode {
    bch::Opcode::from_u8(b).unwrap_or_else(|| panic!("no opcode for {:02x}", b))
}

impl MOp {
    pub fn op(&self) -> bch::Op {
        match self {
            MOp::Code(b) => bch::Op::Code(opcode(*b)),
            MOp::Invalid(b) => bch::Op::Invalid(*b),
            MOp::Push(d, m) => bch::Op::PushByteArray { array: d.bytes().into(), is_minimal: *m },
            MOp::Bool(b) => bch::Op::PushBoolean(*b),
            MOp::Int(i) => bch::Op::PushInteger(bch::Integer::new(*i).expect("in range")),
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        match self {
            MOp::Code(b) | MOp::Invalid(b) => vec![*b],
            MOp::Push(d, true) => refs::push_minimal(&d.bytes()),
            MOp::Push(d, false) => refs::push_data(&d.bytes()),
            MOp::Bool(true) => vec![0x51],
            MOp::Bool(false) => vec![0],
            MOp::Int(i) => refs::push_minimal(&refs::script_num(*i as i128)),
        }
    }
    pub fn meaning(&self) -> Meaning {
        match self {
            MOp::Code(b) | MOp::Invalid(b) => code_meaning(*b),
            MOp::Push(d, _) => Meaning::Push(d.bytes()),
            MOp::Bool(b) => Meaning::Push(if *b { vec![1] } else { vec![] }),
            MOp::Int(i) => Meaning::Push(refs::script_num(*i as i128)),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            MOp::Code(_) => "opcode",
            MOp::Invalid(_) => "invalid-opcode",
            MOp::Push(d, m) => match (d.bytes().len(), m) {
                (0, false) => "push-empty-explicit",
                (0, true) => "push-empty-minimal",
                (1, false) => "push-1-explicit",
                (1, true) => "push-1-minimal",
                (2..=75, _) => "push-direct",
                (76..=255, _) => "push-pushdata1",
                (256..=65535, _) => "push-pushdata2",
                _ => "push-pushdata4",
            },
            MOp::Bool(_) => "bool",
            MOp::Int(-1..=16) => "small-int",
            MOp::Int(_) => "int",
        }
    }
}

pub type MScript = Vec<MOp>;

pub fn script(s: &[MOp]) -> bch::Script {
    bch::Script::from_ops(s.iter().map(|o| o.op()))
}

pub fn script_bytes(s: &[MOp]) -> Vec<u8> {
    s.iter().flat_map(|o| o.encode()).collect()
}

pub fn var_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = refs::compact_size(b.len() as u64);
    v.extend_from_slice(b);
    v
}

pub fn plain_opcode_byte() -> BoxedStrategy<u8> {
    let v: Vec<u8> = refs::OPCODES.iter().map(|x| x.0).filter(|b| refs::is_plain_opcode(*b)).collect();
    proptest::sample::select(v).boxed()
}

pub fn invalid_byte() -> BoxedStrategy<u8> {
    // 0xbd is the enum's end marker.
    (0xbeu8..=0xff).boxed()
}

/// Integers over the whole script range with the byte-length boundaries over-represented.
pub fn script_int() -> BoxedStrategy<i32> {
    let m = i32::MAX;
    prop_oneof![
        3 => -20i32..=20,
        2 => (0u32..=31, -3i64..=3, any::<bool>()).prop_map(move |(e, d, neg)| {
            let v = ((1i64 << e) + d).clamp(-(m as i64), m as i64);
            (if neg { -v } else { v }) as i32
        }),
        3 => -m..=m,
        1 => prop_oneof![Just(m), Just(-m), Just(m - 1), Just(1 - m)],
    ]
    .boxed()
}

pub fn mop(big: bool) -> BoxedStrategy<MOp> {
    prop_oneof![
        5 => plain_opcode_byte().prop_map(MOp::Code),
        1 => invalid_byte().prop_map(MOp::Invalid),
        6 => (data(big), any::<bool>()).prop_map(|(d, m)| MOp::Push(d, m)),
        1 => any::<bool>().prop_map(MOp::Bool),
        3 => script_int().prop_map(MOp::Int),
    ]
    .boxed()
}

pub fn mscript(max_ops: usize, big: bool) -> BoxedStrategy<MScript> {
    proptest::collection::vec(mop(big), 0..=max_ops).boxed()
}

/// Locking scripts with code separators and push lookalikes of them.
pub fn lock_script_strategy() -> BoxedStrategy<MScript> {
    let op = prop_oneof![
        8 => mop(false),
        2 => Just(MOp::Code(0xab)),
        1 => Just(MOp::Push(Data::b(&[0xab]), true)),
        1 => Just(MOp::Invalid(0xff)),
    ];
    let p2pkh = proptest::collection::vec(any::<u8>(), 20).prop_map(|h| {
        vec![MOp::Code(0x76), MOp::Code(0xa9), MOp::Push(Data::B(Hex(h)), true), MOp::Code(0x88), MOp::Code(0xac)]
    });
    prop_oneof![3 => proptest::collection::vec(op, 0..8), 1 => p2pkh].boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MIn {
    pub txid: Hex,
    pub vout: u32,
    pub script: MScript,
    pub sequence: u32,
    pub lock_script: Option<MScript>,
    pub value: Option<u64>,
    pub is_p2sh: Option<bool>,
    pub flags: Option<Vec<u32>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MOut {
    pub value: u64,
    pub script: MScript,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MTx {
    pub version: i32,
    pub inputs: Vec<MIn>,
    pub outputs: Vec<MOut>,
    pub lock_time: u32,
}

pub fn hash32(b: &[u8]) -> bch::Sha256d {
    bch::Sha256d::from_slice(b).expect("32 bytes")
}

pub fn outpoint_bytes(txid: &[u8], vout: u32) -> Vec<u8> {
    let mut v = txid.to_vec();
    v.extend_from_slice(&vout.to_le_bytes());
    v
}

pub fn flags(bits: u32) -> bch::SigHashFlags {
    bch::SigHashFlags::from_u8(bits as u8)
}

impl MIn {
    pub fn input(&self) -> bch::TxInput {
        let mut i = bch::TxInput::new(
            bch::TxOutpoint { tx_hash: hash32(&self.txid), vout: self.vout },
            script(&self.script),
            self.sequence,
        );
        i.lock_script = self.lock_script.as_ref().map(|s| script(s));
        i.value = self.value;
        i.is_p2sh = self.is_p2sh;
        i.sig_hash_flags = self.flags.as_ref().map(|f| f.iter().map(|b| flags(*b)).collect());
        i
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = outpoint_bytes(&self.txid, self.vout);
        v.extend(var_bytes(&script_bytes(&self.script)));
        v.extend_from_slice(&self.sequence.to_le_bytes());
        v
    }
}

impl MOut {
    pub fn output(&self) -> bch::TxOutput {
        bch::TxOutput { value: self.value, script: script(&self.script) }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = self.value.to_le_bytes().to_vec();
        v.extend(var_bytes(&script_bytes(&self.script)));
        v
    }
}

impl MTx {
    pub fn tx(&self) -> bch::UnhashedTx {
        bch::UnhashedTx {
            version: self.version,
            inputs: self.inputs.iter().map(|i| i.input()).collect(),
            outputs: self.outputs.iter().map(|o| o.output()).collect(),
            lock_time: self.lock_time,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = self.version.to_le_bytes().to_vec();
        v.extend(refs::compact_size(self.inputs.len() as u64));
        for i in &self.inputs {
            v.extend(i.encode())
        }
        v.extend(refs::compact_size(self.outputs.len() as u64));
        for o in &self.outputs {
            v.extend(o.encode())
        }
        v.extend_from_slice(&self.lock_time.to_le_bytes());
        v
    }
}

/// Integers at the byte boundaries.
pub fn u32_edge() -> BoxedStrategy<u32> {
    prop_oneof![Just(0u32), Just(1), Just(0xff), Just(0x100), Just(u32::MAX), Just(u32::MAX - 1), Just(0x8000_0000), any::<u32>()].boxed()
}
pub fn u64_edge() -> BoxedStrategy<u64> {
    prop_oneof![
        Just(0u64), Just(1), Just(546), Just(u64::MAX), Just(u32::MAX as u64), Just(1u64 << 32), Just(2_100_000_000_000_000),
        0u64..100_000_000, any::<u64>()
    ]
    .boxed()
}
pub fn i32_edge() -> BoxedStrategy<i32> {
    prop_oneof![Just(1i32), Just(2), Just(0), Just(-1), Just(i32::MIN), Just(i32::MAX), any::<i32>()].boxed()
}

pub fn txid() -> BoxedStrategy<Hex> {
    prop_oneof![
        4 => proptest::collection::vec(any::<u8>(), 32),
        1 => Just(vec![0u8; 32]),
        1 => any::<u8>().prop_map(|b| vec![b; 32]),
    ]
    .prop_map(Hex)
    .boxed()
}

/// Any combination of the defined flag bits.
pub fn any_flag_bits() -> BoxedStrategy<u32> {
    let base = prop_oneof![8 => prop_oneof![Just(1u32), Just(2), Just(3)], 1 => Just(0u32), 2 => 0u32..32];
    (base, any::<bool>(), any::<bool>())
        .prop_map(|(b, f, a)| b | if f { 0x40 } else { 0 } | if a { 0x80 } else { 0 })
        .boxed()
}

/// The combinations valid in a transaction: ALL/NONE/SINGLE + FORKID (+ ANYONECANPAY).
/// A transaction of many inputs and outputs, each different from its neighbours.
pub fn wide_tx(inputs: usize, outputs: usize) -> MTx {
    let ops = |i: usize| match i % 5 {
        0 => vec![],
        1 => vec![MOp::Push(Data::Fill(i % 90, i as u8), true)],
        2 => vec![MOp::Code(0x6a), MOp::Push(Data::b(&(i as u32).to_le_bytes()), true)],
        3 => vec![MOp::Push(Data::b(&[i as u8; 33]), true), MOp::Code(0xac)],
        _ => vec![MOp::Code(0x51 + (i % 16) as u8); i % 7],
    };
    MTx {
        version: 2,
        inputs: (0..inputs)
            .map(|i| MIn {
                txid: Hex((0..32).map(|k| (k * 7 + i * 13 + i / 256) as u8).collect()),
                vout: i as u32,
                script: ops(i),
                sequence: u32::MAX - i as u32,
                lock_script: (i % 3 == 0).then(|| ops(i + 1)),
                value: (i % 4 > 0).then(|| i as u64 * 1_000),
                is_p2sh: (i % 5 > 0).then(|| i % 2 == 0),
                flags: (i % 7 > 1).then(|| vec![0x41]),
            })
            .collect(),
        outputs: (0..outputs).map(|i| MOut { value: 600 + i as u64, script: ops(i + 2) }).collect(),
        lock_time: 77,
    }
}

/// Numbers of inputs and outputs around those that need a longer size prefix.
pub fn wide_sizes() -> Vec<(usize, usize)> {
    vec![(252, 1), (253, 0), (254, 2), (255, 255), (256, 1), (257, 3), (1, 252), (0, 253), (2, 256), (3, 300), (300, 300), (600, 2), (2, 600)]
}

pub fn defined_flag_bits() -> BoxedStrategy<u32> {
    (1u32..=3, any::<bool>()).prop_map(|(b, a)| 0x40 | b | if a { 0x80 } else { 0 }).boxed()
}

pub fn min(max_ops: usize, big: bool) -> BoxedStrategy<MIn> {
    let meta = (
        proptest::option::of(lock_script_strategy()),
        proptest::option::of(u64_edge()),
        proptest::option::of(any::<bool>()),
        proptest::option::of(proptest::collection::vec(any_flag_bits(), 0..4)),
    );
    (txid(), u32_edge(), mscript(max_ops, big), u32_edge(), meta)
        .prop_map(|(txid, vout, script, sequence, (lock_script, value, is_p2sh, flags))| MIn {
            txid, vout, script, sequence, lock_script, value, is_p2sh, flags,
        })
        .boxed()
}

pub fn mout(max_ops: usize, big: bool) -> BoxedStrategy<MOut> {
    (u64_edge(), mscript(max_ops, big)).prop_map(|(value, script)| MOut { value, script }).boxed()
}

pub fn mtx(max_io: usize, big: bool) -> BoxedStrategy<MTx> {
    let n = prop_oneof![6 => 0usize..=3, 3 => 0..=max_io];
    (i32_edge(), u32_edge(), n.clone(), n)
        .prop_flat_map(move |(version, lock_time, ni, no)| {
            (
                Just(version),
                proptest::collection::vec(min(5, big), ni),
                proptest::collection::vec(mout(5, big), no),
                Just(lock_time),
                (0u8..16, any::<proptest::sample::Index>(), any::<proptest::sample::Index>()),
            )
        })
        .prop_map(|(version, mut inputs, mut outputs, lock_time, (twin, from, to))| {
            // Sometimes two outputs or two inputs are equal, or their outpoint or script is.
            match twin {
                0 if !outputs.is_empty() => {
                    let k = to.index(outputs.len());
                    outputs[k] = outputs[from.index(outputs.len())].clone();
                }
                1 if !inputs.is_empty() => {
                    let k = to.index(inputs.len());
                    inputs[k] = inputs[from.index(inputs.len())].clone();
                }
                2 if !inputs.is_empty() => {
                    let (k, l) = (to.index(inputs.len()), from.index(inputs.len()));
                    (inputs[k].txid, inputs[k].vout) = (inputs[l].txid.clone(), inputs[l].vout);
                }
                3 if !inputs.is_empty() && !outputs.is_empty() => {
                    let k = to.index(outputs.len());
                    outputs[k].script = inputs[from.index(inputs.len())].script.clone();
                }
                _ => {}
            }
            MTx { version, inputs, outputs, lock_time }
        })
        .boxed()
}

/// Equality of operations including how they are encoded.
pub fn same_op(a: &bch::Op, b: &bch::Op) -> bool {
    use bch::Op::*;
    match (a, b) {
        (PushByteArray { array: x, is_minimal: m }, PushByteArray { array: y, is_minimal: n }) => {
            x.as_slice() == y.as_slice() && m == n
        }
        (Code(x), Code(y)) => *x as u8 == *y as u8,
        (Invalid(x), Invalid(y)) => x == y,
        (PushBoolean(x), PushBoolean(y)) => x == y,
        (PushInteger(x), PushInteger(y)) => x.value() == y.value(),
        _ => false,
    }
}

pub fn same_ops<'a>(a: impl IntoIterator<Item = &'a bch::Op>, b: impl IntoIterator<Item = &'a bch::Op>) -> bool {
    let a: Vec<_> = a.into_iter().collect();
    let b: Vec<_> = b.into_iter().collect();
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| same_op(x, y))
}

pub fn ops_of(s: &bch::Script) -> Vec<bch::Op> {
    s.ops_arc().iter().map(|t| t.op.clone()).collect()
}

pub fn meanings(s: &bch::Script) -> Vec<Meaning> {
    s.ops_arc().iter().map(|t| op_meaning(&t.op)).collect()
}

pub fn script_meanings(s: &[MOp]) -> Vec<Meaning> {
    s.iter().map(|o| o.meaning()).collect()
}

/// BIP143 preimage, FORKID variant; `index` selects the input.
pub fn ref_preimage(tx: &MTx, index: usize, lock_script: &[MOp], value: u64, flags: u32) -> Vec<u8> {
    let base = flags & 0x1f;
    let acp = flags & 0x80 != 0;
    let zero = vec![0u8; 32];
    let mut v = tx.version.to_le_bytes().to_vec();
    if acp {
        v.extend(&zero)
    } else {
        let all: Vec<u8> = tx.inputs.iter().flat_map(|i| outpoint_bytes(&i.txid, i.vout)).collect();
        v.extend(refs::sha256d(&all))
    }
    if acp || base == 2 || base == 3 {
        v.extend(&zero)
    } else {
        let all: Vec<u8> = tx.inputs.iter().flat_map(|i| i.sequence.to_le_bytes()).collect();
        v.extend(refs::sha256d(&all))
    }
    let input = &tx.inputs[index];
    v.extend(outpoint_bytes(&input.txid, input.vout));
    let code = match lock_script.iter().position(|o| *o == MOp::Code(0xab)) {
        Some(i) => &lock_script[i + 1..],
        None => lock_script,
    };
    v.extend(var_bytes(&script_bytes(code)));
    v.extend_from_slice(&value.to_le_bytes());
    v.extend_from_slice(&input.sequence.to_le_bytes());
    if base == 3 {
        match tx.outputs.get(index) {
            Some(o) => v.extend(refs::sha256d(&o.encode())),
            None => v.extend(&zero),
        }
    } else if base == 2 {
        v.extend(&zero)
    } else {
        let all: Vec<u8> = tx.outputs.iter().flat_map(|o| o.encode()).collect();
        v.extend(refs::sha256d(&all))
    }
    v.extend_from_slice(&tx.lock_time.to_le_bytes());
    v.extend_from_slice(&flags.to_le_bytes());
    v
}
