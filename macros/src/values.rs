//! C24, the value side: every data type a script can take says what it pushes.
use bitcoin_cash as bch;
use bitcoin_cash::{BitcoinCode, BitcoinDataType, ByteArray, DataType, Hashed, Integer, IntegerResult, Op, Pubkey, Script, StackItemData};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::model::{data, Data};
use vh::refs;
use vh::runner::*;
use vh::{ensure, ensure_eq};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum V {
    Int(i32),
    Bool(bool),
    Bytes(Data),
    /// 33 bytes of a public key, of which hashes use the first ones.
    Fixed(u8, Vec<u8>),
    Preimage(Data, i32, u64, u32),
}

fn bytes_pushed(what: &str, op: Op, inner: &[u8], want: &[u8]) -> Result<(), String> {
    ensure_eq!(hex::encode(inner), hex::encode(want), "the data of {}", what);
    let script = Script::new(vec![bch::TaggedOp::from_op(op.clone())]).ser_ops();
    ensure_eq!(hex::encode(&*script), hex::encode(refs::push_minimal(want)), "what {} pushes", what);
    match StackItemData::from(op) {
        StackItemData::ByteArray(b) => ensure_eq!(hex::encode(&*b), hex::encode(want), "the stack item of {}", what),
        other => return Err(format!("{} makes the stack item {:?}", what, other)),
    }
    Ok(())
}

fn number_pushed(what: &str, op: Op, inner: i32, want: i32) -> Result<(), String> {
    ensure_eq!(inner, want, "the data of {}", what);
    let script = Script::new(vec![bch::TaggedOp::from_op(op.clone())]).ser_ops();
    ensure_eq!(hex::encode(&*script), hex::encode(refs::push_minimal(&refs::script_num(want as i128))), "what {} pushes", what);
    match StackItemData::from(op) {
        StackItemData::Integer(i) => ensure_eq!(i.value(), want, "the stack item of {}", what),
        other => return Err(format!("{} makes the stack item {:?}", what, other)),
    }
    Ok(())
}

fn check(v: &V, obs: &mut Obs) -> Result<(), String> {
    match v {
        V::Int(n) => {
            obs.class("integers");
            obs.nontrivial(n.unsigned_abs() > 16);
            let i = Integer::new(*n).map_err(|e| e.to_string())?;
            number_pushed("an Integer", i.to_pushop(), i.to_data().0.value(), *n)?;
            ensure_eq!(i.to_data_type(), DataType::Integer, "the type of {}", n);
            let r = IntegerResult::from(i);
            number_pushed("an IntegerResult", r.to_pushop(), r.to_data().0.value(), *n)?;
            ensure_eq!(r.to_data_type(), DataType::Integer, "the type of {}", n);
            number_pushed("an i32", n.to_pushop(), n.to_data().0.value(), *n)?;
            ensure_eq!(n.to_data_type(), DataType::Integer, "the type of {}", n);
        }
        V::Bool(b) => {
            obs.class("booleans");
            obs.nontrivial(*b);
            ensure_eq!(b.to_data().0, *b, "the data of a boolean");
            ensure_eq!(b.to_data_type(), DataType::Boolean, "the type of a boolean");
            let script = Script::new(vec![bch::TaggedOp::from_op(b.to_pushop())]).ser_ops();
            ensure_eq!(hex::encode(&*script), if *b { "51" } else { "00" }, "what {} pushes", b);
            ensure_eq!(StackItemData::from(b.to_pushop()), StackItemData::Boolean(*b), "the stack item of a boolean");
        }
        V::Bytes(d) => {
            obs.class("byte strings");
            let d = d.bytes();
            obs.nontrivial(d.len() > 1);
            obs.class_if(d.len() > 255, "byte strings over 255 bytes");
            bytes_pushed("a [u8]", d[..].to_pushop(), &d[..].to_data().0, &d)?;
            ensure_eq!(d[..].to_data_type(), DataType::ByteArray(None), "the type of a byte slice");
            for a in [ByteArray::from_slice_unnamed(&d), ByteArray::new("name", &d[..])] {
                bytes_pushed("a ByteArray", a.to_pushop(), &a.to_data().0, &d)?;
                ensure_eq!(a.to_data_type(), DataType::ByteArray(Some(d.len())), "the type of a ByteArray");
                ensure_eq!(a.to_data().0.name(), a.name(), "the name of the data of a ByteArray");
            }
        }
        V::Fixed(k, raw) => {
            obs.class("keys and hashes");
            obs.nontrivial(true);
            macro_rules! fixed {
                ($what:literal, $v:expr, $want:expr) => {{
                    let v = $v;
                    let want = $want;
                    bytes_pushed($what, v.to_pushop(), &v.to_data().0, want)?;
                    ensure_eq!(v.to_data_type(), DataType::ByteArray(Some(want.len())), $what);
                }};
            }
            let arr20 = || <[u8; 20]>::try_from(&raw[..20]).unwrap();
            let arr32 = || <[u8; 32]>::try_from(&raw[..32]).unwrap();
            match k {
                0 => fixed!("a Pubkey", Pubkey::new(raw[..33].try_into().unwrap()), &raw[..33]),
                1 => fixed!("a Sha1", bch::Sha1::new(arr20()), &raw[..20]),
                2 => fixed!("a Ripemd160", bch::Ripemd160::new(arr20()), &raw[..20]),
                3 => fixed!("a Hash160", bch::Hash160::new(arr20()), &raw[..20]),
                4 => fixed!("a Sha256", bch::Sha256::new(arr32()), &raw[..32]),
                _ => fixed!("a Sha256d", bch::Sha256d::new(arr32()), &raw[..32]),
            }
        }
        V::Preimage(code, version, value, n) => {
            obs.class("preimages");
            obs.nontrivial(true);
            let code = Script::new(vec![bch::TaggedOp::from_op(Op::from_array(code.bytes()))]);
            let p = bch::TxPreimage { version: *version, value: *value, sequence: *n, script_code: code.clone(), sig_hash_type: 0x41, ..Default::default() };
            let mut want = version.to_le_bytes().to_vec();
            want.extend([0; 100]);
            let c = code.ser_ops();
            want.extend(refs::compact_size(c.len() as u64));
            want.extend(&*c);
            want.extend(value.to_le_bytes());
            want.extend(n.to_le_bytes());
            want.extend([0; 36]);
            want.extend(0x41u32.to_le_bytes());
            bytes_pushed("a TxPreimage", p.to_pushop(), &p.to_data().0, &want)?;
            ensure!(p.to_data_type() == DataType::ByteArray(None), "a TxPreimage has the type {:?}", p.to_data_type());
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let strategy = || {
        prop_oneof![
            3 => prop_oneof![-20i32..20, Just(i32::MAX), Just(-i32::MAX), (0u32..31).prop_map(|s| 1 << s), (0u32..31).prop_map(|s| -((1i64 << s) as i32)), -i32::MAX..=i32::MAX].prop_map(V::Int),
            1 => any::<bool>().prop_map(V::Bool),
            4 => data(true).prop_map(V::Bytes),
            4 => (0u8..6, proptest::collection::vec(any::<u8>(), 33)).prop_map(|(k, v)| V::Fixed(k, v)),
            1 => (data(false), any::<i32>(), any::<u64>(), any::<u32>()).prop_map(|(d, a, b, c)| V::Preimage(d, a, b, c)),
        ]
    };
    ctx.suite("values", 40_000, 600_000, strategy, check);
}
