//! A signatory whose scripts are fully described by data, for building and signing tests.
use crate::model::*;
use crate::refs;
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, Op, TaggedOp};
use crate::runner::Hex;
use bitcoin_cash::Hashed;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;

/// Raw operations as an input script.
#[derive(Clone, Debug)]
pub struct RawOps(pub Vec<TaggedOp>);

impl bch::Ops for RawOps {
    fn ops(&self) -> Cow<'_, [TaggedOp]> {
        self.0.as_slice().into()
    }
}

pub fn tagged_script(s: &[MOp]) -> bch::TaggedScript<RawOps> {
    bch::TaggedScript::new(s.iter().map(|o| TaggedOp::from_op(o.op())).collect())
}

/// Builds: `script`, one push per signature, the hash of every preimage, the hash of all outputs,
/// the estimated size in four bytes.
#[derive(Clone, Debug)]
pub struct TestSignatory {
    pub flags: Vec<u32>,
    pub placeholder: Vec<Vec<u8>>,
    pub p2sh: bool,
    pub script: MScript,
}

fn size_bytes(size: Option<usize>) -> Vec<u8> {
    size.map_or(u32::MAX, |s| s as u32).to_le_bytes().to_vec()
}

impl TestSignatory {
    /// The bytes of the script for real signatures, by the reference encoder.
    pub fn expected(&self, preimages: &[Vec<u8>], size: Option<usize>, sigs: &[Vec<u8>], lock: &[MOp], outputs: &[MOut]) -> Vec<u8> {
        let mut v = script_bytes(&self.script);
        for s in sigs {
            v.extend(refs::push_minimal(s))
        }
        for p in preimages {
            v.extend(refs::push_minimal(&refs::sha256d(p)))
        }
        let all: Vec<u8> = outputs.iter().flat_map(|o| o.encode()).collect();
        v.extend(refs::push_minimal(&refs::sha256d(&all)));
        v.extend(refs::push_minimal(&size_bytes(size)));
        if self.p2sh {
            v.extend(refs::push_minimal(&script_bytes(lock)))
        }
        v
    }
}

impl bch::Signatory for TestSignatory {
    type Script = RawOps;
    type Signatures = Vec<Vec<u8>>;
    type Kind = bch::SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<bch::SigHashFlags> {
        self.flags.iter().map(|b| flags(*b)).collect()
    }
    fn placeholder_signatures(&self) -> Self::Signatures {
        self.placeholder.clone()
    }
    fn build_script(
        &self,
        tx_preimages: &[bch::TxPreimage],
        estimated_size: Option<usize>,
        sigs: Self::Signatures,
        _lock_script: &bch::Script,
        tx_outputs: &[bch::TxOutput],
    ) -> RawOps {
        let mut ops: Vec<Op> = self.script.iter().map(|o| o.op()).collect();
        for s in sigs {
            ops.push(Op::from_array(s));
        }
        for p in tx_preimages {
            ops.push(Op::from_array(refs::sha256d(&p.ser())));
        }
        let all: Vec<u8> = tx_outputs.iter().flat_map(|o| o.ser().to_vec()).collect();
        ops.push(Op::from_array(refs::sha256d(&all)));
        ops.push(Op::from_array(size_bytes(estimated_size)));
        RawOps(ops.into_iter().map(TaggedOp::from_op).collect())
    }
    fn is_p2sh(&self) -> bool {
        self.p2sh
    }
}

/// One that leaves it at the default that its script is P2SH.
#[derive(Clone)]
pub struct P2shSignatory(pub TestSignatory);

impl bch::Signatory for P2shSignatory {
    type Script = RawOps;
    type Signatures = Vec<Vec<u8>>;
    type Kind = bch::SignatoryKindMultiple;
    fn sig_hash_flags(&self) -> Vec<bch::SigHashFlags> {
        self.0.sig_hash_flags()
    }
    fn placeholder_signatures(&self) -> Self::Signatures {
        self.0.placeholder_signatures()
    }
    fn build_script(&self, tx_preimages: &[bch::TxPreimage], estimated_size: Option<usize>, sigs: Self::Signatures, lock_script: &bch::Script, tx_outputs: &[bch::TxOutput]) -> RawOps {
        self.0.build_script(tx_preimages, estimated_size, sigs, lock_script, tx_outputs)
    }
}

/// How an input is signed, with its locking script.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum MSig {
    P2pkh { hash: Hex, pubkey: Hex, flag: u32 },
    Test { lock: MScript, flags: Vec<u32>, placeholder: Vec<usize>, p2sh: bool, script: MScript },
}

pub enum Ref {
    P2pkh(bch::InputReference<bch::P2PKHSignatory>),
    Test(bch::InputReference<TestSignatory>),
    P2sh(bch::InputReference<P2shSignatory>),
}

pub fn p2pkh_ops(hash: &[u8]) -> MScript {
    vec![MOp::Code(0x76), MOp::Code(0xa9), MOp::Push(Data::b(hash), true), MOp::Code(0x88), MOp::Code(0xac)]
}

impl MSig {
    pub fn lock(&self) -> MScript {
        match self {
            MSig::P2pkh { hash, .. } => p2pkh_ops(hash),
            MSig::Test { lock, .. } => lock.clone(),
        }
    }
    pub fn flags(&self) -> Vec<u32> {
        match self {
            MSig::P2pkh { flag, .. } => vec![*flag],
            MSig::Test { flags, .. } => flags.clone(),
        }
    }
    pub fn is_p2sh(&self) -> bool {
        matches!(self, MSig::Test { p2sh: true, .. })
    }
    pub fn placeholder(&self) -> Vec<usize> {
        match self {
            MSig::P2pkh { .. } => vec![72],
            MSig::Test { placeholder, .. } => placeholder.clone(),
        }
    }
    pub fn test_signatory(&self) -> TestSignatory {
        match self {
            MSig::Test { flags, placeholder, p2sh, script, .. } => TestSignatory {
                flags: flags.clone(),
                placeholder: placeholder.iter().map(|n| vec![0; *n]).collect(),
                p2sh: *p2sh,
                script: script.clone(),
            },
            _ => unreachable!(),
        }
    }
    pub fn p2pkh_signatory(&self) -> bch::P2PKHSignatory {
        match self {
            MSig::P2pkh { pubkey, flag, .. } => {
                bch::P2PKHSignatory { pubkey: bch::Pubkey::from_slice(pubkey), sig_hash_flags: flags(*flag) }
            }
            _ => unreachable!(),
        }
    }
    /// The input script's bytes, by the reference encoder.
    pub fn script_bytes(&self, preimages: &[Vec<u8>], size: Option<usize>, sigs: &[Vec<u8>], outputs: &[MOut]) -> Vec<u8> {
        match self {
            MSig::P2pkh { pubkey, flag, .. } => {
                let mut sig = sigs[0].clone();
                sig.push(*flag as u8);
                let mut v = refs::push_minimal(&sig);
                v.extend(refs::push_minimal(pubkey));
                v
            }
            MSig::Test { lock, .. } => self.test_signatory().expected(preimages, size, sigs, lock, outputs),
        }
    }
    /// The size of the input script with placeholders.
    pub fn estimate(&self) -> usize {
        let sigs: Vec<Vec<u8>> = self.placeholder().iter().map(|n| vec![0; *n]).collect();
        self.script_bytes(&vec![vec![]; self.flags().len()], None, &sigs, &[]).len()
    }
    pub fn add(&self, b: &mut bch::TxBuilder<'static>, input: bch::UnsignedTxInput) -> Ref {
        match self {
            MSig::P2pkh { hash, .. } => {
                let a = bch::Address::from_hash("bitcoincash", bch::AddressType::P2PKH, bch::Hash160::from_slice(hash).unwrap());
                Ref::P2pkh(b.add_input(input, a.p2pkh_script().unwrap(), self.p2pkh_signatory()))
            }
            MSig::Test { lock, p2sh: true, script, .. } if script.len() % 2 == 1 => {
                Ref::P2sh(b.add_input(input, tagged_script(lock), P2shSignatory(self.test_signatory())))
            }
            MSig::Test { lock, .. } => Ref::Test(b.add_input(input, tagged_script(lock), self.test_signatory())),
        }
    }
}

pub fn msig() -> BoxedStrategy<MSig> {
    let p2pkh = (vec(any::<u8>(), 20), vec(any::<u8>(), 33), defined_flag_bits())
        .prop_map(|(h, p, flag)| MSig::P2pkh { hash: Hex(h), pubkey: Hex(p), flag });
    let len = prop_oneof![Just(0usize), Just(1), Just(64), 70usize..=73, 0usize..=80, Just(300)];
    let test = (lock_script_strategy(), vec((any_flag_bits(), len), 0..4), any::<bool>(), mscript(3, false))
        .prop_map(|(lock, fl, p2sh, script)| MSig::Test {
            lock,
            flags: fl.iter().map(|x| x.0).collect(),
            placeholder: fl.iter().map(|x| x.1).collect(),
            p2sh,
            script,
        });
    prop_oneof![2 => p2pkh, 3 => test].boxed()
}
