//! C22: the opcode table matches the Bitcoin Cash opcode semantics.
use crate::interp::*;
use crate::refs;
use crate::runner::*;
use bitcoin_cash::{DataType, Opcode, OpcodeBehavior, StackItemDelta, MAP_NAME_TO_ENUM};
use num_traits::FromPrimitive;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

/// Documented signatures: n number, b boolean, a byte array, t anything; h/H a 20/32-byte array.
/// Operations that only rearrange items are left to the interpreter ("-" plus how many they take).
const SIGNATURES: &[(u8, &str, &str)] = &[
    (0x00, "", "n"), (0x4f, "", "n"), (0x61, "", ""), (0x63, "t", ""), (0x67, "", ""), (0x68, "", ""), (0x69, "b", ""),
    (0x6b, "t", ""), (0x6c, "", "t"), (0x6d, "tt", ""), (0x6e, "tt", "tttt"), (0x6f, "ttt", "tttttt"), (0x70, "tttt", "tttttt"),
    (0x71, "tttttt", "tttttt"), (0x72, "tttt", "tttt"), (0x74, "", "n"), (0x75, "t", ""), (0x76, "t", "tt"), (0x77, "tt", "t"),
    (0x78, "tt", "ttt"), (0x79, "n", "t"), (0x7a, "n", "t"), (0x7b, "ttt", "ttt"), (0x7c, "tt", "tt"), (0x7d, "tt", "ttt"),
    (0x7e, "aa", "a"), (0x7f, "an", "aa"), (0x80, "nn", "a"), (0x81, "a", "n"), (0x82, "a", "an"),
    (0x84, "aa", "a"), (0x85, "aa", "a"), (0x86, "aa", "a"), (0x87, "tt", "b"), (0x88, "tt", ""),
    (0x8b, "n", "n"), (0x8c, "n", "n"), (0x8f, "n", "n"), (0x90, "n", "n"), (0x91, "b", "b"), (0x92, "n", "b"),
    (0x93, "nn", "n"), (0x94, "nn", "n"), (0x96, "nn", "n"), (0x97, "nn", "n"), (0x9a, "bb", "b"), (0x9b, "bb", "b"),
    (0x9c, "nn", "b"), (0x9d, "nn", ""), (0x9e, "nn", "b"), (0x9f, "nn", "b"), (0xa0, "nn", "b"), (0xa1, "nn", "b"), (0xa2, "nn", "b"),
    (0xa3, "nn", "n"), (0xa4, "nn", "n"), (0xa5, "nnn", "b"),
    (0xa6, "a", "h"), (0xa7, "a", "h"), (0xa8, "a", "H"), (0xa9, "a", "h"), (0xaa, "a", "H"), (0xab, "", ""),
    (0xac, "aa", "b"), (0xad, "aa", ""), (0xb0, "", ""), (0xb1, "n", "n"), (0xb2, "n", "n"),
    (0xba, "aaa", "b"), (0xbb, "aaa", ""), (0xbc, "a", "a"),
];
/// Reserved, disabled, or removed from the protocol.
const DISABLED: &[u8] = &[0x50, 0x62, 0x65, 0x66, 0x83, 0x89, 0x8a, 0x8d, 0x8e, 0x95, 0x98, 0x99];

/// Operations that only rearrange items: which input each output is, and what happened to it:
/// Untouched, Observed (left in place and copied), Added (a copy or a new item), Moved,
/// moved Indirectly (because another item was taken from below it or put below it).
const REARRANGED: &[(u8, &[usize], &str)] = &[
    (0x6d, &[], ""), (0x6e, &[0, 1, 0, 1], "OOAA"), (0x6f, &[0, 1, 2, 0, 1, 2], "OOOAAA"), (0x70, &[0, 1, 2, 3, 0, 1], "OOUUAA"),
    (0x71, &[2, 3, 4, 5, 0, 1], "IIIIMM"), (0x72, &[2, 3, 0, 1], "IIMM"), (0x75, &[], ""), (0x76, &[0, 0], "OA"), (0x77, &[1], "I"),
    (0x78, &[0, 1, 0], "OUA"), (0x7b, &[1, 2, 0], "IIM"), (0x7c, &[1, 0], "IM"), (0x7d, &[1, 0, 1], "AII"),
];

/// What happened to each of the outputs.
fn happened(b: u8, inputs: &str, outputs: &str) -> String {
    match REARRANGED.iter().find(|r| r.0 == b) {
        Some(r) => r.2.into(),
        None => match b {
            0x82 => "OA".into(),
            0xb1 | 0xb2 => "O".into(),
            0x79 => "A".into(),
            0x7a => "M".into(),
            _ => outputs.chars().map(|_| if inputs.is_empty() { 'A' } else { 'C' }).collect(),
        },
    }
}

fn delta_letter(d: &StackItemDelta) -> char {
    match d {
        StackItemDelta::Untouched => 'U',
        StackItemDelta::Added => 'A',
        StackItemDelta::Changed => 'C',
        StackItemDelta::Moved => 'M',
        StackItemDelta::MovedIndirectly => 'I',
        StackItemDelta::Observed => 'O',
        StackItemDelta::Removed => 'R',
    }
}

fn signature(b: u8) -> Option<(&'static str, &'static str)> {
    if (0x51..=0x60).contains(&b) {
        return Some(("", "n"));
    }
    if (0xb3..=0xb9).contains(&b) {
        return Some(("", ""));
    }
    SIGNATURES.iter().find(|s| s.0 == b).map(|s| (s.1, s.2))
}

fn letter(t: &DataType) -> char {
    match t {
        DataType::Generic => 't',
        DataType::Integer => 'n',
        DataType::Boolean => 'b',
        DataType::ByteArray(None) => 'a',
        DataType::ByteArray(Some(20)) => 'h',
        DataType::ByteArray(Some(32)) => 'H',
        DataType::ByteArray(Some(_)) => '?',
    }
}

fn letters(t: &[DataType]) -> String {
    t.iter().map(letter).collect()
}

fn behavior(b: u8) -> Result<OpcodeBehavior, String> {
    let op = Opcode::from_u8(b).ok_or("no opcode")?;
    no_panic(|| op.behavior()).map_err(|e| format!("{}: no described behaviour: {}", refs::opcode_name(b).unwrap_or("?"), e))
}

fn check_byte(b: &u8, obs: &mut Obs) -> Result<(), String> {
    let b = *b;
    obs.nontrivial(true);
    let op: Option<Opcode> = Opcode::from_u8(b);
    let name = refs::opcode_name(b);
    match (name, op) {
        (None, None) => return Ok(()),
        // The end marker is not an opcode.
        (None, Some(op)) if op == Opcode::FIRST_UNDEFINED_OP_VALUE => {
            ensure_eq!(b, 0xbd, "end marker");
            return Ok(());
        }
        (None, Some(op)) => return Err(format!("byte {:#04x} is opcode {:?}", b, op)),
        (Some(n), None) => return Err(format!("byte {:#04x} ({}) has no opcode", b, n)),
        _ => {}
    }
    let (name, op) = (name.unwrap(), op.unwrap());
    obs.class("opcode");
    ensure_eq!(op as u8, b, "byte of {:?}", op);
    ensure_eq!(format!("{:?}", op), name, "debug name of byte {:#04x}", b);
    ensure_eq!(op.to_string(), name, "name of byte {:#04x}", b);
    let s: &'static str = op.into();
    ensure_eq!(s, name, "static name of byte {:#04x}", b);
    ensure_eq!(op.is_disabled(), DISABLED.contains(&b), "{} disabled", name);
    // The names scripts are written with: every opcode except the push-length ones.
    let listed = MAP_NAME_TO_ENUM.get(name).copied();
    match b {
        0x4c..=0x4e | 0x50 => ensure!(listed.map_or(true, |x| x == op), "{} looks up {:?}", name, listed),
        _ => ensure!(listed == Some(op), "{} looks up {:?}", name, listed),
    }
    if let Some((i, o)) = signature(b) {
        let d = behavior(b)?;
        ensure_eq!(letters(d.input_types), i, "input types of {}", name);
        ensure_eq!(letters(d.output_types), o, "output types of {}", name);
        ensure_eq!(op.retains_input(), matches!(b, 0x82 | 0xb1 | 0xb2), "{} retains its input", name);
        ensure_eq!(d.delta.iter().map(delta_letter).collect::<String>(), happened(b, i, o), "what {} does to the items", name);
        let rearranged = REARRANGED.iter().find(|r| r.0 == b).map(|r| r.1);
        ensure_eq!(d.output_order, rearranged, "which inputs the outputs of {} are", name);
        if let Some(order) = d.output_order {
            ensure_eq!(order.len(), d.output_types.len(), "output order of {}", name);
            ensure!(order.iter().all(|x| *x < d.input_types.len()), "output order {:?} of {} refers to inputs it does not have", order, name);
        }
    }
    Ok(())
}

/// One opcode on a stack: `below` is what the opcode does not touch, `seed` chooses its operands.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    op: u8,
    below: Vec<Hex>,
    alt: Vec<Hex>,
    items: Vec<(i32, Hex, bool)>,
    same: bool,
}

struct Yes(bool);
impl Checker for Yes {
    fn check_sig(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, String> {
        Ok(self.0)
    }
    fn check_data_sig(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, String> {
        Ok(self.0)
    }
    fn check_lock_time(&self, _: i64) -> bool {
        true
    }
    fn check_sequence(&self, _: i64) -> bool {
        true
    }
}

fn is_type(t: &DataType, v: &[u8]) -> bool {
    match t {
        DataType::Generic | DataType::ByteArray(None) => true,
        // Results may be one byte longer than what arithmetic accepts.
        DataType::Integer => number(v, 5).is_ok(),
        DataType::Boolean => v.is_empty() || v == [1],
        DataType::ByteArray(Some(n)) => v.len() == *n,
    }
}

fn check_op(c: &Case, obs: &mut Obs) -> Result<(), String> {
    let name = refs::opcode_name(c.op).unwrap();
    let op: Opcode = Opcode::from_u8(c.op).ok_or("no opcode")?;
    let d = behavior(c.op)?;
    // Operands of the declared types.
    let mut inputs: Vec<Vec<u8>> = vec![];
    for (i, t) in d.input_types.iter().enumerate() {
        let (n, bytes, flag) = &c.items[if c.same { 0 } else { i }];
        inputs.push(match t {
            DataType::Integer => encode(*n as i64),
            DataType::Boolean => if *flag { vec![1] } else { vec![] },
            DataType::ByteArray(Some(n)) => vec![7; *n],
            _ if c.op == 0x63 => if *flag { vec![1] } else { vec![] },
            _ => bytes.0.clone(),
        });
    }
    let below: Vec<Vec<u8>> = c.below.iter().map(|h| h.0.clone()).collect();
    let alt: Vec<Vec<u8>> = c.alt.iter().map(|h| h.0.clone()).collect();
    let mut m = Machine::new([&below[..], &inputs].concat());
    m.alt = alt.clone();
    if matches!(c.op, 0x67 | 0x68) {
        m.conditions.push(true);
    }
    let yes = c.items[0].2;
    let r = m.step(&refs::RawOp::Op(c.op), &[], &Yes(yes));
    match r {
        Ok(()) => {}
        Err(Fail::Value(e)) => {
            obs.class("fails-for-its-values");
            let _ = e;
            return Ok(());
        }
        Err(Fail::Underflow) => {
            let short = match c.op {
                0x6c => alt.is_empty(),
                0x79 | 0x7a => below.is_empty(),
                _ => false,
            };
            ensure!(short, "{} on its {} declared inputs takes more than them", name, d.input_types.len());
            return Ok(());
        }
        Err(Fail::Operand(e)) if matches!(c.op, 0xb1 | 0xb2) && e.contains("negative") => return Ok(()),
        Err(e) => return Err(format!("{} on {:?} of its declared types {}: {:?}", name, inputs, letters(d.input_types), e)),
    }
    obs.nontrivial(!d.input_types.is_empty() || !d.output_types.is_empty());
    obs.class(name);
    // What the description predicts.
    let n_out = d.output_types.len();
    let mut want_below = below.clone();
    let mut want_alt = alt.clone();
    let mut exact: Vec<Option<Vec<u8>>> = vec![None; n_out];
    if let Some(order) = d.output_order {
        exact = order.iter().map(|i| Some(inputs[*i].clone())).collect();
    }
    if op.retains_input() {
        exact[0] = Some(inputs[0].clone());
    }
    match c.op {
        // Described by what they do to the item they name.
        0x79 | 0x7a => {
            let at = below.len() - 1 - number(&inputs[0], 4).unwrap() as usize;
            exact[0] = Some(below[at].clone());
            if c.op == 0x7a {
                want_below.remove(at);
            }
        }
        0x6b => want_alt.push(inputs[0].clone()),
        0x6c => exact[0] = want_alt.pop(),
        _ => {}
    }
    let split = m.stack.len().checked_sub(n_out).ok_or_else(|| format!("{} leaves {} items", name, m.stack.len()))?;
    let (got_below, got_out) = m.stack.split_at(split);
    ensure!(got_below == &want_below[..], "{}: below its outputs the stack is {:?}, described {:?}", name, got_below, want_below);
    ensure!(m.alt == want_alt, "{}: alt stack {:?}, described {:?}", name, m.alt, want_alt);
    for (i, ((got, t), want)) in got_out.iter().zip(d.output_types).zip(&exact).enumerate() {
        ensure!(is_type(t, got), "{}: output {} is {:?}, described {:?}", name, i, got, t);
        if let Some(w) = want {
            ensure!(got == w, "{} on {:?}: output {} is {:?}, described {:?}", name, inputs, i, got, w);
        }
    }
    ensure_eq!(m.conditions.len(), match c.op { 0x63 | 0x67 => 1, _ => 0 }, "{}: conditions", name);
    Ok(())
}

fn case() -> BoxedStrategy<Case> {
    let ops: Vec<u8> = (0..=255u8).filter(|b| signature(*b).is_some()).collect();
    let item = || vec(any::<u8>(), 0..6).prop_map(Hex);
    let num = prop_oneof![4 => 0i32..6, 2 => -3i32..40, 1 => any::<i32>().prop_map(|v| v.max(-i32::MAX))];
    (prop::sample::select(ops), vec(item(), 0..6), vec(item(), 0..3), vec((num, item(), any::<bool>()), 6), prop::bool::weighted(0.25))
        .prop_map(|(op, below, alt, items, same)| Case { op, below, alt, items, same })
        .boxed()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("bytes: all 256 byte values with names, look-ups, documented types and which are disabled; stacks: every described opcode applied to generated operands of its declared types with generated items below and on the alt stack, by an own interpreter and by the description; non-trivial: an opcode with inputs or outputs that does not fail for its values.");
    ctx.enumerate("bytes", 0..=255u8, check_byte);
    ctx.enumerate("names", vec![0u8], |_: &u8, obs: &mut Obs| {
        obs.nontrivial(true);
        for (name, op) in MAP_NAME_TO_ENUM.iter() {
            if *op == Opcode::FIRST_UNDEFINED_OP_VALUE {
                continue;
            }
            ensure_eq!(Some(&name[..]), refs::opcode_name(*op as u8), "name looked up for {:?}", op);
        }
        Ok(())
    });
    ctx.suite("stacks", 200_000, 4_000_000, case, check_op);
    (json!({"opcodes": (0..=255u8).filter(|b| signature(*b).is_some()).count()}), vec![
        "OP_IFDUP, OP_CHECKMULTISIG and OP_CHECKMULTISIGVERIFY have no description; OP_NOTIF, OP_PUSHDATA1/2/4 and OP_RETURN are documented as not for script functions and their descriptions are not checked.",
    ])
}
