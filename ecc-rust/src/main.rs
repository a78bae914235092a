//! Serves the Rust back end over stdin and stdout, one JSON request and answer per line.
#[path = "../../ecc/src/proto.rs"]
mod proto;

use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let ecc = bitcoin_cash_ecc::init_ecc();
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let req: proto::Req = serde_json::from_str(&line).expect("request");
        let resp = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| proto::serve(&ecc, &req)))
            .unwrap_or_else(|_| proto::Resp::Panic("panicked".into()));
        writeln!(out, "{}", serde_json::to_string(&resp).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
