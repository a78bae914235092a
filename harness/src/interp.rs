//! A Bitcoin Cash script interpreter (rules after the May 2020 upgrade), written from the protocol.
use crate::refs;

pub const MAX_ITEM: usize = 520;
pub const MAX_OPS: usize = 201;
pub const MAX_SCRIPT: usize = 10_000;

/// What an operation asks of the transaction.
pub trait Checker {
    /// `sig` includes the sighash type byte; `script_code` runs from the last separator.
    fn check_sig(&self, sig: &[u8], pubkey: &[u8], script_code: &[u8]) -> Result<bool, String>;
    fn check_data_sig(&self, sig: &[u8], message: &[u8], pubkey: &[u8]) -> Result<bool, String>;
    fn check_lock_time(&self, n: i64) -> bool;
    fn check_sequence(&self, n: i64) -> bool;
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// Not enough items on the main or alt stack.
    Underflow,
    /// An operand of the wrong kind: not a number, not minimal, too long.
    Operand(String),
    /// A well-formed operation that fails for its values.
    Value(String),
    /// The script itself is not well formed, or uses an operation that is not allowed.
    Script(String),
}
use Fail::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Machine {
    pub stack: Vec<Vec<u8>>,
    pub alt: Vec<Vec<u8>>,
    pub conditions: Vec<bool>,
    pub ops: usize,
}

pub fn truthy(v: &[u8]) -> bool {
    match v.split_last() {
        None => false,
        Some((last, rest)) => rest.iter().any(|b| *b != 0) || (*last != 0 && *last != 0x80),
    }
}

/// A number of at most four bytes, minimally encoded.
pub fn number(v: &[u8], max: usize) -> Result<i64, Fail> {
    if v.len() > max {
        return Err(Operand(format!("a number of {} bytes", v.len())));
    }
    if let Some((last, rest)) = v.split_last() {
        if last & 0x7f == 0 && rest.last().map_or(true, |b| b & 0x80 == 0) {
            return Err(Operand(format!("a number that is not minimal: {}", hex::encode(v))));
        }
        let mut n = 0i64;
        for (i, b) in v.iter().enumerate() {
            n |= ((if i + 1 == v.len() { b & 0x7f } else { *b }) as i64) << (8 * i);
        }
        return Ok(if last & 0x80 != 0 { -n } else { n });
    }
    Ok(0)
}

pub fn encode(n: i64) -> Vec<u8> {
    let mut a = n.unsigned_abs();
    let mut v = vec![];
    while a > 0 {
        v.push(a as u8);
        a >>= 8;
    }
    if let Some(last) = v.last_mut() {
        if *last & 0x80 != 0 {
            v.push(if n < 0 { 0x80 } else { 0 });
        } else if n < 0 {
            *last |= 0x80;
        }
    }
    v
}

fn size(op: &refs::RawOp) -> usize {
    match op {
        refs::RawOp::Op(_) => 1,
        refs::RawOp::Push(b @ 0x4c..=0x4e, d) => 1 + (1 << (b - 0x4c)) + d.len(),
        refs::RawOp::Push(_, d) => 1 + d.len(),
    }
}

fn boolean(b: bool) -> Vec<u8> {
    if b { vec![1] } else { vec![] }
}

impl Machine {
    pub fn new(stack: Vec<Vec<u8>>) -> Machine {
        Machine { stack, ..Default::default() }
    }

    fn pop(&mut self) -> Result<Vec<u8>, Fail> {
        self.stack.pop().ok_or(Underflow)
    }
    fn pop_num(&mut self) -> Result<i64, Fail> {
        number(&self.pop()?, 4)
    }
    fn need(&self, n: usize) -> Result<usize, Fail> {
        self.stack.len().checked_sub(n).ok_or(Underflow)
    }
    fn push(&mut self, v: Vec<u8>) {
        self.stack.push(v)
    }
    fn verify(&mut self, what: &str) -> Result<(), Fail> {
        match truthy(&self.pop()?) {
            true => Ok(()),
            false => Err(Value(format!("{} is false", what))),
        }
    }

    /// Runs a whole script.
    pub fn run(&mut self, script: &[u8], checker: &dyn Checker) -> Result<(), Fail> {
        if script.len() > MAX_SCRIPT {
            return Err(Script("too long".into()));
        }
        let parsed = refs::parse_script(script).ok_or_else(|| Script("not well formed".to_string()))?;
        self.ops = 0;
        let mut pos = 0;
        let mut code_start = 0;
        for op in &parsed {
            pos += size(op);
            let running = self.conditions.iter().all(|c| *c);
            if *op == refs::RawOp::Op(0xab) && running {
                code_start = pos;
            }
            self.step(op, &script[code_start..], checker)?;
            if self.stack.len() + self.alt.len() > 1000 {
                return Err(Script("stack too large".into()));
            }
        }
        if !self.conditions.is_empty() {
            return Err(Script("unbalanced conditional".into()));
        }
        self.alt.clear();
        Ok(())
    }

    pub fn step(&mut self, op: &refs::RawOp, code: &[u8], checker: &dyn Checker) -> Result<(), Fail> {
        let running = self.conditions.iter().all(|c| *c);
        let b = match op {
            refs::RawOp::Op(b) | refs::RawOp::Push(b, _) => *b,
        };
        if let refs::RawOp::Push(_, data) = op {
            if data.len() > MAX_ITEM {
                return Err(Script("a push of more than 520 bytes".into()));
            }
            if running {
                if refs::push_minimal(data)[0] != b {
                    return Err(Script(format!("push of {} is not minimal", hex::encode(data))));
                }
                self.push(data.clone());
            }
            return Ok(());
        }
        if b > 0x60 {
            self.ops += 1;
            if self.ops > MAX_OPS {
                return Err(Script("too many operations".into()));
            }
        }
        // Disabled, even where they do not run: INVERT 2MUL 2DIV MUL LSHIFT RSHIFT; VERIF VERNOTIF.
        if matches!(b, 0x83 | 0x8d | 0x8e | 0x95 | 0x98 | 0x99 | 0x65 | 0x66) {
            return Err(Script(format!("disabled operation {:02x}", b)));
        }
        if !running && !(0x63..=0x68).contains(&b) {
            return Ok(());
        }
        match b {
            0x00 => self.push(vec![]),
            0x4f => self.push(vec![0x81]),
            0x51..=0x60 => self.push(vec![b - 0x50]),
            0x61 | 0xb0 | 0xb3..=0xb9 => {}
            0x63 | 0x64 => {
                let mut value = false;
                if running {
                    let v = self.pop()?;
                    if v.len() > 1 || (v.len() == 1 && v[0] != 1) {
                        return Err(Operand("condition is not minimal".into()));
                    }
                    value = truthy(&v) == (b == 0x63);
                }
                self.conditions.push(value);
            }
            0x67 => match self.conditions.last_mut() {
                Some(c) => *c = !*c,
                None => return Err(Script("ELSE without IF".into())),
            },
            0x68 => {
                self.conditions.pop().ok_or_else(|| Script("ENDIF without IF".to_string()))?;
            }
            0x69 => self.verify("VERIFY")?,
            0x6a => return Err(Value("RETURN".into())),
            0x6b => {
                let v = self.pop()?;
                self.alt.push(v)
            }
            0x6c => {
                let v = self.alt.pop().ok_or(Underflow)?;
                self.push(v)
            }
            0x6d => {
                self.need(2)?;
                self.pop()?;
                self.pop()?;
            }
            0x6e => self.copy(2, 2)?,
            0x6f => self.copy(3, 3)?,
            0x70 => self.copy(4, 2)?,
            0x71 => {
                let at = self.need(6)?;
                self.stack[at..].rotate_left(2)
            }
            0x72 => {
                let at = self.need(4)?;
                self.stack[at..].rotate_left(2)
            }
            0x73 => {
                let at = self.need(1)?;
                if truthy(&self.stack[at]) {
                    self.push(self.stack[at].clone())
                }
            }
            0x74 => self.push(encode(self.stack.len() as i64)),
            0x75 => {
                self.pop()?;
            }
            0x76 => self.copy(1, 1)?,
            0x77 => {
                let at = self.need(2)?;
                self.stack.remove(at);
            }
            0x78 => self.copy(2, 1)?,
            0x79 | 0x7a => {
                self.need(2)?;
                let n = self.pop_num()?;
                if n < 0 || n >= self.stack.len() as i64 {
                    return Err(Value("no such depth".into()));
                }
                let at = self.stack.len() - 1 - n as usize;
                let v = if b == 0x79 { self.stack[at].clone() } else { self.stack.remove(at) };
                self.push(v)
            }
            0x7b => {
                let at = self.need(3)?;
                self.stack[at..].rotate_left(1)
            }
            0x7c => {
                let at = self.need(2)?;
                self.stack.swap(at, at + 1)
            }
            0x7d => {
                let at = self.need(2)?;
                let top = self.stack[at + 1].clone();
                self.stack.insert(at, top)
            }
            0x7e => {
                self.need(2)?;
                let b = self.pop()?;
                let mut a = self.pop()?;
                a.extend(b);
                self.sized(a)?
            }
            0x7f => {
                self.need(2)?;
                let n = self.pop_num()?;
                let a = self.pop()?;
                if n < 0 || n > a.len() as i64 {
                    return Err(Value("split outside".into()));
                }
                let (x, y) = a.split_at(n as usize);
                self.push(x.to_vec());
                self.push(y.to_vec())
            }
            0x80 => {
                self.need(2)?;
                let size = self.pop_num()?;
                if !(0..=MAX_ITEM as i64).contains(&size) {
                    return Err(Value("impossible size".into()));
                }
                let mut a = minimal(&self.pop()?);
                if a.len() > size as usize {
                    return Err(Value("does not fit".into()));
                }
                if a.len() < size as usize {
                    let mut sign = 0;
                    if let Some(last) = a.last_mut() {
                        sign = *last & 0x80;
                        *last &= 0x7f;
                    }
                    a.resize(size as usize, 0);
                    *a.last_mut().unwrap() |= sign;
                }
                self.push(a)
            }
            0x81 => {
                let a = minimal(&self.pop()?);
                if a.len() > 4 {
                    return Err(Value("number too large".into()));
                }
                self.push(a)
            }
            0x82 => {
                let at = self.need(1)?;
                self.push(encode(self.stack[at].len() as i64))
            }
            0x84..=0x86 => {
                self.need(2)?;
                let y = self.pop()?;
                let x = self.pop()?;
                if x.len() != y.len() {
                    return Err(Value("lengths differ".into()));
                }
                self.push(x.iter().zip(&y).map(|(x, y)| match b { 0x84 => x & y, 0x85 => x | y, _ => x ^ y }).collect())
            }
            0x87 | 0x88 => {
                self.need(2)?;
                let y = self.pop()?;
                let x = self.pop()?;
                self.push(boolean(x == y));
                if b == 0x88 {
                    self.verify("EQUALVERIFY")?
                }
            }
            0x8b..=0x8c | 0x8f..=0x92 => {
                let a = self.pop_num()?;
                self.push(encode(match b {
                    0x8b => a + 1,
                    0x8c => a - 1,
                    0x8f => -a,
                    0x90 => a.abs(),
                    0x91 => (a == 0) as i64,
                    _ => (a != 0) as i64,
                }))
            }
            0x93 | 0x94 | 0x96 | 0x97 | 0x9a..=0xa4 => {
                self.need(2)?;
                let y = self.pop_num()?;
                let x = self.pop_num()?;
                if matches!(b, 0x96 | 0x97) && y == 0 {
                    return Err(Value("division by zero".into()));
                }
                let f = |c: bool| c as i64;
                self.push(encode(match b {
                    0x93 => x + y,
                    0x94 => x - y,
                    0x96 => x / y,
                    0x97 => x % y,
                    0x9a => f(x != 0 && y != 0),
                    0x9b => f(x != 0 || y != 0),
                    0x9c | 0x9d => f(x == y),
                    0x9e => f(x != y),
                    0x9f => f(x < y),
                    0xa0 => f(x > y),
                    0xa1 => f(x <= y),
                    0xa2 => f(x >= y),
                    0xa3 => x.min(y),
                    _ => x.max(y),
                }));
                if b == 0x9d {
                    self.verify("NUMEQUALVERIFY")?
                }
            }
            0xa5 => {
                self.need(3)?;
                let hi = self.pop_num()?;
                let lo = self.pop_num()?;
                let x = self.pop_num()?;
                self.push(boolean(lo <= x && x < hi))
            }
            0xa6..=0xaa => {
                let a = self.pop()?;
                self.push(match b {
                    0xa6 => refs::ripemd160(&a).to_vec(),
                    0xa7 => refs::sha1(&a).to_vec(),
                    0xa8 => refs::sha256(&a).to_vec(),
                    0xa9 => refs::hash160(&a).to_vec(),
                    _ => refs::sha256d(&a).to_vec(),
                })
            }
            0xab => {}
            0xac | 0xad => {
                self.need(2)?;
                let key = self.pop()?;
                let sig = self.pop()?;
                let ok = checker.check_sig(&sig, &key, code).map_err(Value)?;
                if !ok && !sig.is_empty() {
                    return Err(Value("CHECKSIG is false for a signature that is not empty".into()));
                }
                self.push(boolean(ok));
                if b == 0xad {
                    self.verify("CHECKSIGVERIFY")?
                }
            }
            0xae | 0xaf => {
                // k-of-n with ECDSA signatures only.
                let n = self.pop_num()?;
                if !(0..=20).contains(&n) {
                    return Err(Value("number of keys".into()));
                }
                self.ops += n as usize;
                let at = self.need(n as usize)?;
                let keys: Vec<Vec<u8>> = self.stack.drain(at..).collect();
                let k = self.pop_num()?;
                if k < 0 || k > n {
                    return Err(Value("number of signatures".into()));
                }
                let at = self.need(k as usize)?;
                let sigs: Vec<Vec<u8>> = self.stack.drain(at..).collect();
                let dummy = self.pop()?;
                if !dummy.is_empty() {
                    return Err(Value("dummy is not empty".into()));
                }
                let mut ok = true;
                let mut next = keys.len();
                for sig in sigs.iter().rev() {
                    loop {
                        if next == 0 {
                            ok = false;
                            break;
                        }
                        next -= 1;
                        if checker.check_sig(sig, &keys[next], code).map_err(Value)? {
                            break;
                        }
                    }
                }
                if !ok && sigs.iter().any(|s| !s.is_empty()) {
                    return Err(Value("CHECKMULTISIG is false for signatures that are not empty".into()));
                }
                self.push(boolean(ok));
                if b == 0xaf {
                    self.verify("CHECKMULTISIGVERIFY")?
                }
            }
            0xb1 | 0xb2 => {
                let at = self.need(1)?;
                let n = number(&self.stack[at], 5)?;
                if n < 0 {
                    return Err(Value("negative lock".into()));
                }
                let ok = if b == 0xb1 { checker.check_lock_time(n) } else { checker.check_sequence(n) };
                if !ok {
                    return Err(Value("lock not met".into()));
                }
            }
            0xba | 0xbb => {
                self.need(3)?;
                let key = self.pop()?;
                let message = self.pop()?;
                let sig = self.pop()?;
                let ok = checker.check_data_sig(&sig, &message, &key).map_err(Value)?;
                if !ok && !sig.is_empty() {
                    return Err(Value("CHECKDATASIG is false for a signature that is not empty".into()));
                }
                self.push(boolean(ok));
                if b == 0xbb {
                    self.verify("CHECKDATASIGVERIFY")?
                }
            }
            0xbc => {
                let mut a = self.pop()?;
                a.reverse();
                self.push(a)
            }
            _ => return Err(Script(format!("operation {:02x}", b))),
        }
        Ok(())
    }

    /// Copies the first `n` of the top `of` items to the top.
    fn copy(&mut self, of: usize, n: usize) -> Result<(), Fail> {
        let at = self.need(of)?;
        for i in at..at + n {
            self.push(self.stack[i].clone())
        }
        Ok(())
    }
    fn sized(&mut self, v: Vec<u8>) -> Result<(), Fail> {
        if v.len() > MAX_ITEM {
            return Err(Value("item of more than 520 bytes".into()));
        }
        self.push(v);
        Ok(())
    }
}

/// The shortest encoding of the same number.
fn minimal(v: &[u8]) -> Vec<u8> {
    let mut a = v.to_vec();
    let sign = match a.last_mut() {
        Some(last) => {
            let s = *last & 0x80;
            *last &= 0x7f;
            s
        }
        None => return a,
    };
    while a.last() == Some(&0) {
        a.pop();
    }
    match a.last_mut() {
        None => {}
        Some(last) if *last & 0x80 != 0 => a.push(sign),
        Some(last) => *last |= sign,
    }
    a
}
