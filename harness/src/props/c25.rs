//! C25: relative time-locks encode as BIP68 sequence numbers.
use crate::runner::*;
use bitcoin_cash::CsvTimedelta;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lock {
    time: bool,
    amount: u16,
}

impl Lock {
    fn sequence(&self) -> u32 {
        match self.time {
            true => CsvTimedelta::Seconds512(self.amount),
            false => CsvTimedelta::Blockheight(self.amount),
        }
        .sequence()
    }
}

fn check(c: &Lock, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(true);
    obs.class(if c.time { "time" } else { "blocks" });
    let s = c.sequence();
    ensure!(s & (1 << 31) == 0, "{:?} gives {:#010x}, which disables the lock", c, s);
    ensure_eq!(s & (1 << 22) != 0, c.time, "type flag of {:#010x} for {:?}", s, c);
    ensure_eq!(s & 0xffff, c.amount as u32, "amount of {:#010x} for {:?}", s, c);
    // How BIP68 reads it: masked, the rest is ignored but must not be set for one lock, one number.
    ensure_eq!(s & !(1 << 31 | 1 << 22 | 0xffff), 0, "other bits of {:#010x} for {:?}", s, c);
    // A later lock of the same kind satisfies an earlier one under CHECKSEQUENCEVERIFY, one of the other kind never.
    for d in [0u16, 1, 2, 255, 256, 0x7fff, 0x8000] {
        for time in [false, true] {
            let o = Lock { time, amount: c.amount.wrapping_add(d) };
            let t = o.sequence();
            ensure_eq!(s == t, c.time == time && c.amount == o.amount, "{:?} and {:?} give {:#x} and {:#x}", c, o, s, t);
            ensure_eq!(bip68_satisfies(s, t), c.time == time && o.amount >= c.amount, "{:?} satisfied by {:?} ({:#x}, {:#x})", c, o, s, t);
        }
    }
    Ok(())
}

fn bip68_satisfies(operand: u32, sequence: u32) -> bool {
    let mask = (1 << 22) | 0xffff;
    let (o, s) = (operand & mask, sequence & mask);
    sequence & (1 << 31) == 0 && (o < 1 << 22) == (s < 1 << 22) && o <= s
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("all 2 x 65536 relative locks, each with 14 others to compare with; every case is non-trivial.");
    let all: Vec<Lock> = [false, true].iter().flat_map(|t| (0..=u16::MAX).map(move |amount| Lock { time: *t, amount })).collect();
    ctx.enumerate("all", all, check);
    (json!({"exhaustive": true}), vec![])
}
