//! The C back end in this process and the Rust back end in a helper process.
use crate::proto::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Backend {
    C,
    Rust,
}
pub const BOTH: [Backend; 2] = [Backend::C, Backend::Rust];

struct Helper {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Helper {
    fn start() -> Helper {
        let exe = std::env::var("VH_ECC_RUST").expect("VH_ECC_RUST names the helper");
        let mut child = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("helper starts");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Helper { child, stdin, stdout }
    }
    fn ask(&mut self, line: &str) -> Option<Resp> {
        writeln!(self.stdin, "{}", line).ok()?;
        self.stdin.flush().ok()?;
        let mut answer = String::new();
        self.stdout.read_line(&mut answer).ok()?;
        serde_json::from_str(&answer).ok()
    }
}

impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static HELPER: RefCell<Option<Helper>> = RefCell::new(None);
    static C: bitcoin_cash_ecc::SelectedECC = bitcoin_cash_ecc::init_ecc();
}

impl Backend {
    pub fn ask(self, req: &Req) -> Resp {
        match self {
            Backend::C => C.with(|ecc| vh::runner::no_panic(|| serve(ecc, req)).unwrap_or_else(Resp::Panic)),
            Backend::Rust => HELPER.with(|h| {
                let mut h = h.borrow_mut();
                let helper = h.get_or_insert_with(Helper::start);
                match helper.ask(&serde_json::to_string(req).unwrap()) {
                    Some(r) => r,
                    None => {
                        *h = None;
                        Resp::Panic("the process ended".into())
                    }
                }
            }),
        }
    }
    pub fn sign(self, key: &[u8], msg: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
        self.bytes(Req::Sign { key: hex::encode(key), msg: hex::encode(msg) })
    }
    pub fn derive(self, key: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
        self.bytes(Req::Derive { key: hex::encode(key) })
    }
    pub fn normalize(self, sig: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
        self.bytes(Req::Normalize { sig: hex::encode(sig) })
    }
    /// Outer error: a panic or a wrong record, which no input excuses.
    fn bytes(self, req: Req) -> Result<Result<Vec<u8>, String>, String> {
        match self.ask(&req) {
            Resp::Bytes(b) => Ok(Ok(hex::decode(b).unwrap())),
            Resp::Error(e) => Ok(Err(e)),
            r => Err(format!("{:?} back end: {:?} gives {:?}", self, req, r)),
        }
    }
    pub fn verify(self, pubkey: &[u8], msg: &[u8], sig: &[u8]) -> Result<Result<bool, String>, String> {
        let req = Req::Verify { pubkey: hex::encode(pubkey), msg: hex::encode(msg), sig: hex::encode(sig) };
        match self.ask(&req) {
            Resp::Verdict(b) => Ok(Ok(b)),
            Resp::Error(e) => Ok(Err(e)),
            r => Err(format!("{:?} back end: {:?} gives {:?}", self, req, r)),
        }
    }
}
