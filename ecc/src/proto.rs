//! Requests to an elliptic curve back end and its answers.
use bitcoin_cash::{Function, ECC};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Req {
    Sign { key: String, msg: String },
    Verify { pubkey: String, msg: String, sig: String },
    Derive { key: String },
    Normalize { sig: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Resp {
    Bytes(String),
    Verdict(bool),
    Error(String),
    Panic(String),
    /// A wrong record of where a signature came from.
    Record(String),
}

fn un(s: &str) -> Vec<u8> {
    hex::decode(s).expect("hex")
}

pub fn serve<E: ECC>(ecc: &E, req: &Req) -> Resp {
    let bytes = |b: Result<Vec<u8>, bitcoin_cash::error::Error>| match b {
        Ok(b) => Resp::Bytes(hex::encode(b)),
        Err(e) => Resp::Error(e.to_string()),
    };
    match req {
        Req::Sign { key, msg } => match ecc.sign(&un(key), un(msg)) {
            Ok(s) => {
                let from = s.preimage().map(|p| p.iter().map(|x| x.to_vec()).collect::<Vec<_>>());
                if s.function() != Function::EcdsaSign || from != Some(vec![un(msg)]) {
                    return Resp::Record(format!("function {:?}, from {:?}", s.function(), from));
                }
                Resp::Bytes(hex::encode(&s[..]))
            }
            Err(e) => Resp::Error(e.to_string()),
        },
        Req::Verify { pubkey, msg, sig } => match ecc.verify(&un(pubkey), &un(msg), &un(sig)) {
            Ok(v) => Resp::Verdict(v),
            Err(e) => Resp::Error(e.to_string()),
        },
        Req::Derive { key } => bytes(ecc.derive_pubkey(&un(key)).map(|p| p.as_slice().to_vec())),
        Req::Normalize { sig } => bytes(ecc.normalize_sig(&un(sig))),
    }
}
