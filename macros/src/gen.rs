//! Generates script functions the simulation accepts, mutates them and simplifies them.
use crate::prog::*;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

const INTS: &[&str] = &["i0", "i1", "i2", "i3", "n", "index", "total_amount_of_all_tokens", "x_", "lock_time", "alpha"];
const BOOLS: &[&str] = &["b0", "b1", "b2", "is_valid_and_final", "flag"];
const BYTES: &[&str] = &["y0", "y1", "y2", "sig", "public_key_of_the_owner", "z", "data", "_unused"];
/// Predicate atoms.
pub const ATOMS: &[&str] = &["c0", "c1", "c2", "c3"];
const INPUT_ONLY_INTS: &[&str] = &["in_a", "in_b", "in_c", "amount_in"];
const INPUT_ONLY_BYTES: &[&str] = &["in_y", "in_z", "in_sig", "preimage_in"];

pub fn name_of(rng: &mut Rng, ty: Ty) -> String {
    rng.pick(match ty {
        Ty::I => INTS,
        Ty::B => BOOLS,
        Ty::Y => BYTES,
    })
    .to_string()
}

pub fn type_of_name(n: &str) -> Option<Ty> {
    if INTS.contains(&n) || INPUT_ONLY_INTS.contains(&n) {
        Some(Ty::I)
    } else if BOOLS.contains(&n) || ATOMS.contains(&n) {
        Some(Ty::B)
    } else if BYTES.contains(&n) || INPUT_ONLY_BYTES.contains(&n) {
        Some(Ty::Y)
    } else {
        None
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Profile {
    /// Everything.
    Any,
    /// Deep stacks.
    Deep,
    /// Operations that succeed on any values, so that an execution gets far.
    Movable,
    /// Few statements.
    Small,
}

fn int(rng: &mut Rng) -> i64 {
    match rng.below(6) {
        0 | 1 => rng.below(18) as i64 - 1,
        2 => *rng.pick(&[0, 1, 16, 17, 127, 128, 129, 255, 256, 32767, 32768, 8388607, 8388608, 2147483647, -2147483647, -128, -127, -255, -1]),
        3 => -(rng.below(1000) as i64),
        _ => {
            let bits = 1 + rng.below(30);
            rng.below(1 << bits) as i64
        }
    }
}

fn data(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(5) {
        0 => rng.below(2),
        1 => max.min(75 + rng.below(4)),
        2 => max.min(rng.below(300)),
        _ => rng.below(max.min(12) + 1),
    };
    (0..n).map(|_| rng.next() as u8).collect()
}

pub fn value(rng: &mut Rng, ty: RTy) -> Value {
    match ty.ty() {
        Ty::I => Value::Int(int(rng)),
        Ty::B => Value::Bool(rng.chance(50)),
        Ty::Y => Value::Bytes(match ty.len() {
            Some(n) => (0..n).map(|_| rng.next() as u8).collect(),
            None => data(rng, 90),
        }),
    }
}

fn rty(rng: &mut Rng) -> RTy {
    match rng.below(12) {
        0 | 1 => RTy::I32,
        2 | 3 => RTy::Integer,
        4 | 5 => RTy::Bool,
        6 | 7 => RTy::ByteArray,
        8 => RTy::Vec,
        9 => RTy::Arr(1 + rng.below(32)),
        10 => *rng.pick(&[RTy::Hash160, RTy::Sha256]),
        _ => RTy::Pubkey,
    }
}

/// A predicate family whose members cover the paths.
fn variants(rng: &mut Rng) -> Vec<Variant> {
    let p = |s: &str| -> Predicate {
        s.split("||").map(|c| c.split("&&").map(|a| match a.strip_prefix('!') { Some(a) => (a.to_string(), false), None => (a.to_string(), true) }).collect()).collect()
    };
    let sets: &[&[&str]] = &[
        &["c0", "!c0"],
        &["!c0", "c0"],
        &["c0&&c1", "c0&&!c1", "!c0"],
        &["c0", "!c0&&c1", "!c0&&!c1"],
        &["c0&&c1", "c0&&!c1", "!c0&&c1", "!c0&&!c1"],
        &["c0&&c1||!c0", "c0&&!c1"],
        &["c0", "!c0", "c0||!c0"],
        &["c0&&c1&&c2", "!c0||!c1||!c2"],
        &["c1", "!c1", "c0&&c1"],
    ];
    let names = ["A", "B", "Refund", "Zero", "D1"];
    rng.pick(sets).iter().enumerate().map(|(i, s)| Variant { name: names[i].into(), predicate: p(s) }).collect()
}

pub fn program(rng: &mut Rng, profile: Profile) -> Program {
    let mut params = Vec::new();
    let count = if rng.chance(3) { 12 + rng.below(30) } else { rng.below(5) };
    for k in 0..count {
        let ty = rty(rng);
        let v = match value(rng, ty) {
            Value::Int(n) if rng.chance(60) => Value::Int(n % 1000),
            v => v,
        };
        params.push(Param { name: format!("p{}", k), ty, value: v });
    }
    let variants = if rng.chance(40) { variants(rng) } else { vec![] };
    let mut inputs: Vec<Input> = Vec::new();
    let n = match profile {
        Profile::Deep => rng.below(12),
        _ => rng.below(6),
    };
    for _ in 0..n {
        let ty = rty(rng);
        let name = if rng.chance(50) {
            name_of(rng, ty.ty())
        } else {
            match ty.ty() {
                Ty::I => rng.pick(INPUT_ONLY_INTS).to_string(),
                Ty::B => rng.pick(BOOLS).to_string(),
                Ty::Y => rng.pick(INPUT_ONLY_BYTES).to_string(),
            }
        };
        if inputs.iter().any(|i| i.name == name) {
            continue;
        }
        let vs = if !variants.is_empty() && rng.chance(50) {
            let l: Vec<usize> = (0..variants.len()).filter(|_| rng.chance(60)).collect();
            if l.is_empty() { None } else { Some(l) }
        } else {
            None
        };
        inputs.push(Input { name, ty, variants: vs });
    }
    // Now and then far more parameters than usual, below the others.
    if rng.chance(3) {
        let count = *rng.pick(&[9, 11, 15, 17, 26, 27, 33, 64, 66]);
        for k in 0..count {
            let ty = rty(rng);
            let vs = if !variants.is_empty() && rng.chance(40) {
                let l: Vec<usize> = (0..variants.len()).filter(|_| rng.chance(60)).collect();
                if l.is_empty() { None } else { Some(l) }
            } else {
                None
            };
            inputs.insert(k, Input { name: format!("w{}", k), ty, variants: vs });
        }
    }
    if variants.is_empty() {
        if rng.chance(60) {
            for c in &ATOMS[..1 + rng.below(4)] {
                let at = rng.below(inputs.len() + 1);
                inputs.insert(at, Input { name: c.to_string(), ty: RTy::Bool, variants: None });
            }
        }
    } else {
        let mut atoms: Vec<String> = variants.iter().flat_map(|v| v.predicate.iter().flatten().map(|a| a.0.clone())).collect();
        atoms.sort();
        atoms.dedup();
        // The condition a script asks for first lies on top; later ones may be missing where they are not needed.
        for (k, c) in atoms.iter().rev().enumerate() {
            let needed: Vec<usize> = (0..variants.len()).filter(|&v| variants[v].predicate.iter().flatten().any(|a| a.0 == *c)).collect();
            let vs = if k + 1 < atoms.len() && rng.chance(50) && !needed.is_empty() { Some(needed) } else { None };
            let at = if rng.chance(70) { inputs.len() } else { rng.below(inputs.len() + 1) };
            inputs.insert(at, Input { name: c.clone(), ty: RTy::Bool, variants: vs });
        }
    }
    let mut p = Program {
        params,
        by_ref: rng.chance(60),
        variants,
        inputs,
        stmts: vec![],
        debug: match rng.below(20) {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        },
        alias: rng.chance(10),
        style: rng.next(),
        args: vec![],
    };
    let budget = match profile {
        Profile::Small => 2 + rng.below(8),
        Profile::Deep => 25 + rng.below(50),
        _ => 3 + rng.below(28),
    };
    let host = p.clone();
    let mut g = Gen { rng, prog: &host, profile };
    let mut sim = Sim::new(&host, false);
    let mut left = budget;
    let mut out = Vec::new();
    g.stmts(&mut sim, &mut out, &mut left, 0);
    p.stmts = out;
    p.args = args(rng, &p);
    p
}

/// Items far down the stack, fetched from depths around the bounds of number encodings.
pub fn tall(rng: &mut Rng) -> Program {
    let mut p = loop {
        let p = program(rng, Profile::Small);
        if p.variants.is_empty() {
            break p;
        }
    };
    let height = *rng.pick(&[14, 15, 16, 17, 18, 30, 31, 33, 62, 64, 65, 75, 76, 77, 99, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257]);
    let host = p.clone();
    let mut sim = Sim::new(&host, false);
    let mut g = Gen { rng, prog: &host, profile: Profile::Any };
    let mut out = Vec::new();
    let add = |s: Stmt, sim: &mut Sim, out: &mut Vec<Stmt>| {
        let mut t = sim.clone();
        if t.stmt(&s).is_ok() {
            *sim = t;
            out.push(s);
        }
    };
    add(Stmt::Push { expr: Expr::Lit(Value::Int(5)), out: Some("x_".into()) }, &mut sim, &mut out);
    add(Stmt::Push { expr: Expr::Lit(Value::Bytes(vec![7, 7])), out: Some("z".into()) }, &mut sim, &mut out);
    for _ in 0..height {
        let n = int(g.rng);
        let name = if g.rng.chance(15) { Some(g.rng.pick(&["i0", "i1", "n", "index"]).to_string()) } else { None };
        add(Stmt::Push { expr: Expr::Lit(Value::Int(n)), out: name }, &mut sim, &mut out);
    }
    let mut names: Vec<String> = vec!["x_".into(), "z".into()];
    names.extend(p.inputs.iter().map(|i| i.name.clone()));
    for _ in 0..3 {
        let k = g.rng.below(names.len());
        let name = names[k].clone();
        for s in g.fetch(&sim, name) {
            add(s, &mut sim, &mut out);
        }
        for _ in 0..g.rng.below(4) {
            if let Some(s) = g.op(&sim) {
                add(s, &mut sim, &mut out);
            }
        }
    }
    p.stmts = out;
    p.args = args(rng, &p);
    p
}

/// Argument values, for variants such that their predicate holds.
pub fn args(rng: &mut Rng, p: &Program) -> Vec<Args> {
    let mut out = Vec::new();
    for v in 0..p.variants.len().max(1) {
        for _ in 0..if p.variants.is_empty() { 2 } else { 1 } {
            for _try in 0..80 {
                let values: Vec<Value> = p.inputs.iter().map(|i| value(rng, i.ty)).collect();
                let truth = |n: &str| p.inputs.iter().position(|i| i.name == n).map(|k| values[k] == Value::Bool(true));
                let ok = match p.variants.get(v) {
                    None => true,
                    Some(x) => x.predicate.iter().any(|c| c.iter().all(|(n, pos)| truth(n) == Some(*pos))),
                };
                if ok {
                    out.push(Args { variant: v, values });
                    break;
                }
            }
        }
    }
    out
}

struct Gen<'r, 'a> {
    rng: &'r mut Rng,
    prog: &'a Program,
    profile: Profile,
}

/// Names of the top items, as far as the active variants agree.
fn tops(sim: &Sim, n: usize, alt: bool) -> Vec<Option<String>> {
    let mut out = Vec::new();
    for d in 0..n {
        let mut it = (0..sim.states.len()).filter(|&v| sim.active[v]).map(|v| {
            let s = if alt { &sim.states[v].alt } else { &sim.states[v].main };
            if d < s.len() { Some(s[s.len() - 1 - d].name.clone()) } else { None }
        });
        match it.next().flatten() {
            Some(n) => out.push(n),
            None => break,
        }
    }
    out
}

impl<'r, 'a> Gen<'r, 'a> {
    fn expr(&mut self, let_: bool) -> Expr {
        let lit = |rng: &mut Rng| match rng.below(3) {
            0 => Value::Int(int(rng)),
            1 => Value::Bool(rng.chance(50)),
            _ => Value::Bytes(data(rng, 80)),
        };
        if !self.prog.params.is_empty() && self.rng.chance(35) {
            let p = self.rng.below(self.prog.params.len());
            let q = self.rng.below(self.prog.params.len());
            let (p, q) = (&self.prog.params[p], &self.prog.params[q]);
            return match (p.ty.ty(), self.rng.below(3)) {
                (Ty::I, 0) => Expr::Mul(p.name.clone(), self.rng.below(2000) as i64 - 1000),
                (Ty::I, 1) => Expr::Sum(p.name.clone(), q.name.clone()),
                (Ty::B, 0) if let_ => Expr::Choose(p.name.clone(), int(self.rng), int(self.rng)),
                _ => Expr::Param(p.name.clone()),
            };
        }
        match self.rng.below(20) {
            0 => Expr::Array(data(self.rng, 10)),
            1 if let_ => Expr::VecMacro(data(self.rng, 10)),
            2 => Expr::NewInteger(int(self.rng)),
            3 => Expr::Plus(self.rng.below(5000) as i64, self.rng.below(5000) as i64),
            4 if let_ => Expr::Braced(Box::new(Expr::Lit(lit(self.rng)))),
            _ => Expr::Lit(lit(self.rng)),
        }
    }

    fn push(&mut self) -> Stmt {
        let named = self.rng.chance(55);
        let expr = self.expr(named);
        let out = if named {
            let ty = match expr.eval(&self.prog.params) {
                Some(Value::Int(_)) => Ty::I,
                Some(Value::Bool(_)) => Ty::B,
                _ => Ty::Y,
            };
            Some(name_of(self.rng, ty))
        } else {
            None
        };
        Stmt::Push { expr, out }
    }

    fn ins(&mut self, sim: &Sim, n: usize, alt: bool, placeholders: bool) -> Option<Vec<String>> {
        if n == 0 {
            return if self.rng.chance(10) { Some(vec![]) } else { None };
        }
        if self.rng.chance(45) {
            return None;
        }
        let names = tops(sim, n, alt);
        if names.len() < n {
            return None;
        }
        let mut out = Vec::new();
        for name in names.into_iter().rev() {
            match name {
                Some(name) if !placeholders || self.rng.chance(80) => out.push(name),
                _ if placeholders => out.push("__".into()),
                _ => return None,
            }
        }
        Some(out)
    }

    fn outs(&mut self, info: &OpInfo, sim: &Sim) -> Option<Vec<String>> {
        let n = info.outs.len();
        if n == 0 || self.rng.chance(45) {
            return None;
        }
        // The types of rearranged items come from the items.
        let mut input_types = Vec::new();
        let mut s = sim.clone();
        for _ in 0..info.ins.len() {
            let item = s.top(false)?;
            input_types.push(item.ty);
            s.stmt(&Stmt::Op { op: "OP_DROP".into(), ins: None, outs: None }).ok()?;
        }
        input_types.reverse();
        let mut out = Vec::new();
        for (k, c) in info.outs.bytes().enumerate() {
            let ty = match info.order {
                Some(order) => input_types[order[k]],
                None => match c {
                    b'n' => Ty::I,
                    b'b' => Ty::B,
                    _ => Ty::Y,
                },
            };
            if (info.order.is_some() || info.retains) && self.rng.chance(30) {
                out.push("__".into());
            } else {
                out.push(name_of(self.rng, ty));
            }
        }
        Some(out)
    }

    fn op(&mut self, sim: &Sim) -> Option<Stmt> {
        // Operations whose inputs fit the items that are there.
        let ops = all_ops();
        let mut types = Vec::new();
        let mut s = sim.clone();
        for _ in 0..6 {
            match s.top(false) {
                Some(i) => types.push(i.ty),
                None => break,
            }
            if s.stmt(&Stmt::Op { op: "OP_DROP".into(), ins: None, outs: None }).is_err() {
                break;
            }
        }
        let fits = |info: &OpInfo| {
            let n = info.ins.len();
            if types.len() < n {
                return false;
            }
            info.ins.bytes().enumerate().all(|(i, c)| {
                let t = types[n - 1 - i];
                match c {
                    b't' => true,
                    b'e' => t == types[n - 1],
                    b'n' => t == Ty::I,
                    b'b' => t == Ty::B,
                    _ => t == Ty::Y,
                }
            })
        };
        let movable = |b: u8| matches!(b, 0x00 | 0x4f | 0x51..=0x61 | 0x6d..=0x72 | 0x74..=0x7d | 0x82 | 0x87 | 0x8b | 0x8c | 0x8f | 0x90 | 0x92 | 0x9c | 0xa0 | 0xa3 | 0xa5 | 0xa6..=0xaa | 0xb0 | 0xb3..=0xb9 | 0xbc);
        let fitting: Vec<(&str, OpInfo)> = ops
            .iter()
            .map(|o| (*o, op_info(o).unwrap()))
            .filter(|(_, i)| fits(i) && (self.profile != Profile::Movable || movable(i.byte)))
            .collect();
        // Constants would otherwise dominate.
        let (plain, consuming): (Vec<_>, Vec<_>) = fitting.into_iter().partition(|(_, i)| i.ins.is_empty());
        let list = if consuming.is_empty() || self.rng.chance(15) { plain } else { consuming };
        if list.is_empty() {
            return None;
        }
        let orders: Vec<usize> = (0..list.len()).filter(|&i| list[i].1.order.is_some()).collect();
        let k = if !orders.is_empty() && self.rng.chance(30) { *self.rng.pick(&orders) } else { self.rng.below(list.len()) };
        let (op, info) = &list[k];
        let ins = self.ins(sim, info.ins.len(), false, true);
        let outs = self.outs(info, sim);
        Some(Stmt::Op { op: op.to_string(), ins, outs })
    }

    fn known_name(&mut self, sim: &Sim) -> Option<String> {
        let v = (0..sim.states.len()).find(|&v| sim.active[v])?;
        let names: Vec<&String> = sim.states[v].main.iter().filter_map(|i| i.name.as_ref()).collect();
        if names.is_empty() {
            return None;
        }
        Some(self.rng.pick(&names).to_string())
    }

    /// depth_of and the move that uses it.
    fn fetch(&mut self, sim: &Sim, name: String) -> Vec<Stmt> {
        let out = if self.rng.chance(50) { Some(name_of(self.rng, Ty::I)) } else { None };
        let roll = self.rng.chance(50);
        let ins = match &out {
            Some(o) if self.rng.chance(60) => Some(vec![o.clone()]),
            _ => None,
        };
        let mut s = sim.clone();
        let depth = Stmt::DepthOf { name: name.clone(), out, offset: None };
        let mut stmts = vec![depth];
        if s.stmt(&stmts[0]).is_err() {
            return stmts;
        }
        if self.rng.chance(10) {
            stmts.push(Stmt::Op { op: "OP_TOALTSTACK".into(), ins: None, outs: None });
            stmts.push(Stmt::Op { op: "OP_FROMALTSTACK".into(), ins: None, outs: None });
        }
        if self.rng.chance(20) {
            // The depth is copied and moved before it is used.
            for _ in 0..1 + self.rng.below(2) {
                let ops: &[&str] = match self.rng.below(7) {
                    0 => &["OP_DUP"],
                    1 => &["OP_SWAP", "OP_SWAP"],
                    2 => &["OP_DUP", "OP_NIP"],
                    3 => &["OP_DUP", "OP_DROP"],
                    4 => &["OP_TUCK"],
                    5 => &["OP_OVER", "OP_OVER", "OP_NIP"],
                    _ => {
                        stmts.push(Stmt::Push { expr: Expr::Lit(Value::Int(self.rng.below(30) as i64)), out: None });
                        if self.rng.chance(50) { &["OP_SWAP"] } else { &["OP_OVER"] }
                    }
                };
                stmts.extend(ops.iter().map(|o| Stmt::Op { op: o.to_string(), ins: None, outs: None }));
            }
        }
        let ty = type_of_name(&name).unwrap_or(Ty::I);
        let outs = if self.rng.chance(25) { Some(vec![name_of(self.rng, ty)]) } else { None };
        stmts.push(Stmt::Op { op: if roll { "OP_ROLL" } else { "OP_PICK" }.into(), ins, outs });
        stmts
    }

    fn alt(&mut self, sim: &Sim) -> Option<Stmt> {
        let to = self.rng.chance(55);
        let item = sim.top(!to)?;
        let ins = match &item.name {
            Some(n) if self.rng.chance(50) => Some(vec![n.clone()]),
            _ => None,
        };
        let outs = if self.rng.chance(30) { Some(vec![name_of(self.rng, item.ty)]) } else { None };
        Some(Stmt::Op { op: if to { "OP_TOALTSTACK" } else { "OP_FROMALTSTACK" }.into(), ins, outs })
    }

    fn stmts(&mut self, sim: &mut Sim<'a>, out: &mut Vec<Stmt>, left: &mut usize, depth: usize) {
        let mut tries = 0;
        while *left > 0 && tries < 200 {
            tries += 1;
            if depth > 0 && self.rng.chance(14) {
                return;
            }
            let mut cand: Vec<Stmt> = Vec::new();
            let r = self.rng.below(100);
            let if_chance = if self.prog.variants.is_empty() { 14 } else { 22 };
            if r < if_chance && depth < 4 {
                if self.try_if(sim, out, left, depth) {
                    continue;
                }
                continue;
            } else if r < if_chance + 4 && depth < 4 {
                let mut s = sim.clone();
                let mut inner = Vec::new();
                // Run the block's statements on a copy that knows about the block.
                let mut n = (*left).min(1 + self.rng.below(5));
                *left -= n.min(*left);
                let mut probe = s.clone();
                self.stmts(&mut probe, &mut inner, &mut n, depth + 1);
                let block = Stmt::Block(inner);
                if s.stmt(&block).is_ok() {
                    *sim = s;
                    out.push(block);
                }
                continue;
            } else if r < if_chance + 24 || (self.profile == Profile::Deep && r < 60) {
                cand.push(self.push());
            } else if r < if_chance + 38 {
                if let Some(n) = self.known_name(sim) {
                    if self.rng.chance(12) {
                        let out = if self.rng.chance(60) { Some(name_of(self.rng, Ty::I)) } else { None };
                        let offset = if self.rng.chance(30) { Some(*self.rng.pick(&[0, 1, 2, 7, 16, 300, -1, -2, -9, 70000])) } else { None };
                        cand.push(Stmt::DepthOf { name: n, out, offset });
                    } else {
                        cand = self.fetch(sim, n);
                    }
                }
            } else if r < if_chance + 46 {
                cand.extend(self.alt(sim));
            } else {
                cand.extend(self.op(sim));
                if self.profile != Profile::Movable && self.rng.chance(6) {
                    if let Some(Stmt::Op { outs: Some(o), .. }) = cand.first() {
                        if let Some(n) = o.last().filter(|n| *n != "__") {
                            let ty = *self.rng.pick(&[RTy::ByteArray, RTy::Integer, RTy::Bool, RTy::I32, RTy::Sha256]);
                            let s = Stmt::Transmute { name: n.clone(), ty, out: self.rng.chance(50) };
                            cand.push(s);
                        }
                    }
                }
            }
            if cand.is_empty() {
                continue;
            }
            let mut s = sim.clone();
            if cand.iter().all(|c| s.stmt(c).is_ok()) {
                *sim = s;
                *left = left.saturating_sub(cand.len());
                out.extend(cand);
            }
        }
    }

    fn try_if(&mut self, sim: &mut Sim<'a>, out: &mut Vec<Stmt>, left: &mut usize, depth: usize) -> bool {
        let mut s = sim.clone();
        let mut stmts: Vec<Stmt> = Vec::new();
        let top = s.top(false).and_then(|i| i.name);
        // A condition: the top item, one of the predicates' atoms, or a new constant.
        let cond = if top.as_deref().map_or(false, |t| ATOMS.contains(&t) || self.rng.chance(20)) {
            top.unwrap()
        } else {
            let v = match (0..s.states.len()).find(|&v| s.active[v]) {
                Some(v) => v,
                None => return false,
            };
            let atoms: Vec<String> = s.states[v].main.iter().filter_map(|i| i.name.clone()).filter(|n| ATOMS.contains(&n.as_str())).collect();
            if !atoms.is_empty() && self.rng.chance(85) {
                let n = self.rng.pick(&atoms).clone();
                stmts.push(Stmt::DepthOf { name: n.clone(), out: None, offset: None });
                stmts.push(Stmt::Op { op: if self.rng.chance(75) { "OP_ROLL" } else { "OP_PICK" }.into(), ins: None, outs: None });
                n
            } else if self.prog.variants.is_empty() && self.rng.chance(60) {
                let n = name_of(self.rng, Ty::B);
                let e = match self.prog.params.iter().find(|p| p.ty == RTy::Bool) {
                    Some(p) if self.rng.chance(50) => Expr::Param(p.name.clone()),
                    _ => Expr::Lit(Value::Bool(self.rng.chance(50))),
                };
                stmts.push(Stmt::Push { expr: e, out: Some(n.clone()) });
                n
            } else {
                return false;
            }
        };
        stmts.push(Stmt::Op { op: "OP_IF".into(), ins: Some(vec![cond]), outs: None });
        for st in &stmts {
            if s.stmt(st).is_err() {
                return false;
            }
        }
        *left = left.saturating_sub(stmts.len());
        let mut budget = (*left).min(self.rng.below(9));
        *left -= budget;
        let mut part = Vec::new();
        self.stmts(&mut s, &mut part, &mut budget, depth + 1);
        stmts.append(&mut part);
        let plain = |o: &str, r: &mut Rng| Stmt::Op { op: o.into(), ins: if r.chance(8) { Some(vec![]) } else { None }, outs: None };
        if self.rng.chance(80) {
            let e = plain("OP_ELSE", self.rng);
            if s.stmt(&e).is_err() {
                return false;
            }
            stmts.push(e);
            let mut budget = (*left).min(self.rng.below(9));
            *left -= budget;
            let mut part = Vec::new();
            self.stmts(&mut s, &mut part, &mut budget, depth + 1);
            stmts.append(&mut part);
        }
        for b in s.balance().unwrap_or_default() {
            if s.stmt(&b).is_err() {
                return false;
            }
            stmts.push(b);
        }
        let e = plain("OP_ENDIF", self.rng);
        if s.stmt(&e).is_err() {
            return false;
        }
        stmts.push(e);
        *sim = s;
        out.append(&mut stmts);
        true
    }
}

// ---------------------------------------------------------------- decision trees

enum Node {
    Leaf,
    Cond(String, Box<Node>, Box<Node>),
}

/// Grows a tree of conditions; `paths` gets what leads to each leaf.
fn grow(rng: &mut Rng, path: &mut Vec<(String, bool)>, paths: &mut Vec<Vec<(String, bool)>>) -> Node {
    let free: Vec<&str> = ATOMS.iter().copied().filter(|a| path.iter().all(|(n, _)| n != a)).collect();
    if free.is_empty() || paths.len() > 4 || !rng.chance([100, 75, 55, 35][path.len().min(3)]) {
        paths.push(path.clone());
        return Node::Leaf;
    }
    let atom = rng.pick(&free).to_string();
    path.push((atom.clone(), true));
    let yes = grow(rng, path, paths);
    path.last_mut().unwrap().1 = false;
    let no = grow(rng, path, paths);
    path.pop();
    Node::Cond(atom, Box::new(yes), Box::new(no))
}

/// A function whose variants are the ways through a tree of conditions, each with inputs of its own.
pub fn tree(rng: &mut Rng) -> Option<Program> {
    let names = ["A", "B", "Refund", "Zero", "D1", "Early", "Late", "X2", "Other", "Y"];
    let mut paths = Vec::new();
    let node = grow(rng, &mut vec![], &mut paths);
    if paths.len() > names.len() {
        return None;
    }
    // Which variant goes which ways.
    let mut ways: Vec<Vec<usize>> = Vec::new();
    for k in 0..paths.len() {
        if !ways.is_empty() && rng.chance(20) {
            let w = rng.below(ways.len());
            ways[w].push(k);
        } else {
            ways.push(vec![k]);
        }
    }
    for k in (1..ways.len()).rev() {
        let o = rng.below(k + 1);
        ways.swap(k, o);
    }
    let mut variants = Vec::new();
    for (w, name) in ways.iter().zip(names) {
        let mut predicate = Vec::new();
        for &k in w {
            let mut c = paths[k].clone();
            for i in (1..c.len()).rev() {
                let o = rng.below(i + 1);
                c.swap(i, o);
            }
            predicate.push(c);
        }
        variants.push(Variant { name: name.into(), predicate });
    }
    let mut inputs: Vec<Input> = Vec::new();
    let own = rng.below(3) + 1;
    let common = rng.below(4);
    for k in 0..common + own * variants.len() {
        let ty = rty(rng);
        let name = if rng.chance(70) { name_of(rng, ty.ty()) } else { format!("w{}", k) };
        if inputs.iter().any(|i| i.name == name) || ATOMS.contains(&name.as_str()) {
            continue;
        }
        let vs = if k < common {
            None
        } else {
            let mut l = vec![(k - common) / own];
            for v in 0..variants.len() {
                if rng.chance(15) && !l.contains(&v) {
                    l.push(v);
                }
            }
            l.sort();
            Some(l)
        };
        inputs.push(Input { name, ty, variants: vs });
    }
    // Conditions asked for first lie on top.
    let mut atoms: Vec<(usize, &str)> = ATOMS
        .iter()
        .filter_map(|a| paths.iter().filter_map(|p| p.iter().position(|(n, _)| n == a)).min().map(|d| (d, *a)))
        .collect();
    atoms.sort_by(|a, b| b.0.cmp(&a.0));
    for (_, a) in atoms {
        let l: Vec<usize> = (0..variants.len()).filter(|&v| variants[v].predicate.iter().flatten().any(|(n, _)| n == a)).collect();
        let vs = if l.len() == variants.len() { None } else { Some(l) };
        inputs.push(Input { name: a.to_string(), ty: RTy::Bool, variants: vs });
    }
    if variants.len() < 2 || inputs.len() > 14 {
        return None;
    }
    let mut p = Program {
        params: vec![],
        by_ref: rng.chance(60),
        variants,
        inputs,
        stmts: vec![],
        debug: None,
        alias: rng.chance(10),
        style: rng.next(),
        args: vec![],
    };
    let host = p.clone();
    let mut g = Gen { rng, prog: &host, profile: Profile::Movable };
    let mut sim = Sim::new(&host, false);
    let mut out = Vec::new();
    g.walk(&mut sim, &node, &mut out, 1)?;
    let mut left = g.rng.below(8);
    g.stmts(&mut sim, &mut out, &mut left, 3);
    p.stmts = out;
    p.args = args(rng, &p);
    Some(p)
}

impl<'r, 'a> Gen<'r, 'a> {
    fn walk(&mut self, sim: &mut Sim<'a>, node: &Node, out: &mut Vec<Stmt>, depth: usize) -> Option<()> {
        fn add<'a>(sim: &mut Sim<'a>, out: &mut Vec<Stmt>, s: Stmt) -> Option<()> {
            sim.stmt(&s).ok()?;
            out.push(s);
            Some(())
        }
        let op = |o: &str| Stmt::Op { op: o.into(), ins: None, outs: None };
        if !sim.any_active() {
            return Some(());
        }
        match node {
            Node::Leaf => {
                let mut left = self.rng.below(7);
                self.stmts(sim, out, &mut left, 4);
                // What only this way has is used up, mostly.
                if self.rng.chance(75) {
                    for _ in 0..30 {
                        let top = match tops(sim, 1, false).pop() {
                            Some(Some(t)) => t,
                            _ => break,
                        };
                        match self.prog.inputs.iter().find(|i| i.name == top) {
                            Some(i) if i.variants.is_some() => {}
                            _ => break,
                        }
                        let ins = if self.rng.chance(70) { Some(vec![top]) } else { None };
                        add(sim, out, Stmt::Op { op: "OP_DROP".into(), ins, outs: None })?;
                    }
                }
            }
            Node::Cond(atom, yes, no) => {
                if tops(sim, 1, false) != [Some(atom.clone())] {
                    add(sim, out, Stmt::DepthOf { name: atom.clone(), out: None, offset: None })?;
                    add(sim, out, op("OP_ROLL"))?;
                }
                add(sim, out, Stmt::Op { op: "OP_IF".into(), ins: Some(vec![atom.clone()]), outs: None })?;
                self.walk(sim, yes, out, depth + 1)?;
                add(sim, out, op("OP_ELSE"))?;
                self.walk(sim, no, out, depth + 1)?;
                for b in sim.balance().unwrap_or_default() {
                    add(sim, out, b)?;
                }
                add(sim, out, op("OP_ENDIF"))?;
                if self.rng.chance(30) {
                    let mut left = self.rng.below(4);
                    self.stmts(sim, out, &mut left, 4);
                }
            }
        }
        Some(())
    }
}

// ---------------------------------------------------------------- paths into nested statements

fn count(stmts: &[Stmt]) -> usize {
    stmts.iter().map(|s| 1 + if let Stmt::Block(b) = s { count(b) } else { 0 }).sum()
}

/// Applies `f` to the list and position of the k-th statement.
fn at<R>(stmts: &mut Vec<Stmt>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<Stmt>, usize) -> R) -> Option<R> {
    let mut i = 0;
    while i < stmts.len() {
        if *k == 0 {
            return Some(f(stmts, i));
        }
        *k -= 1;
        if let Stmt::Block(b) = &mut stmts[i] {
            if let Some(r) = at(b, k, f) {
                return Some(r);
            }
        }
        i += 1;
    }
    None
}

/// Simpler programs, one step away; most drastic first.
pub fn simpler(p: &Program) -> Vec<Program> {
    let mut out = Vec::new();
    let mut add = |q: Program| {
        if q != *p {
            out.push(q)
        }
    };
    let n = count(&p.stmts);
    for len in [8usize, 4, 2, 1] {
        for i in 0..p.stmts.len() {
            if i + len <= p.stmts.len() {
                let mut q = p.clone();
                q.stmts.drain(i..i + len);
                add(q);
            }
        }
    }
    // Whole branches and whole IFs.
    let is = |s: &Stmt, o: &str| matches!(s, Stmt::Op { op, .. } if op == o);
    for i in 0..p.stmts.len() {
        if is(&p.stmts[i], "OP_IF") || is(&p.stmts[i], "OP_ELSE") {
            let mut d = 0;
            for j in i + 1..p.stmts.len() {
                if is(&p.stmts[j], "OP_IF") {
                    d += 1;
                }
                if d == 0 && (is(&p.stmts[j], "OP_ELSE") || is(&p.stmts[j], "OP_ENDIF")) {
                    let mut q = p.clone();
                    q.stmts.drain(i + 1..j);
                    add(q);
                    let mut q = p.clone();
                    q.stmts.drain(i..j);
                    add(q);
                }
                if is(&p.stmts[j], "OP_ENDIF") {
                    if d == 0 {
                        let mut q = p.clone();
                        q.stmts.drain(i..=j);
                        add(q);
                        let mut q = p.clone();
                        q.stmts.remove(j);
                        q.stmts.remove(i);
                        add(q);
                        break;
                    }
                    d -= 1;
                }
            }
        }
    }
    for k in 0..n {
        let mut q = p.clone();
        at(&mut q.stmts, &mut k.clone(), &mut |l, i| {
            if let Stmt::Block(b) = l[i].clone() {
                l.splice(i..=i, b);
            } else {
                l.remove(i);
            }
        });
        add(q);
        for field in 0..3 {
            let mut q = p.clone();
            at(&mut q.stmts, &mut k.clone(), &mut |l, i| match (&mut l[i], field) {
                (Stmt::Push { out, .. }, 0) => *out = None,
                (Stmt::Push { expr, .. }, 1) => *expr = Expr::Lit(Value::Int(1)),
                (Stmt::Op { ins, .. }, 0) => *ins = None,
                (Stmt::Op { outs, .. }, 1) => *outs = None,
                (Stmt::DepthOf { out, .. }, 0) => *out = None,
                (Stmt::DepthOf { offset, .. }, 1) => *offset = None,
                (s @ Stmt::Op { .. }, 2) => *s = Stmt::Push { expr: Expr::Lit(Value::Int(1)), out: None },
                _ => {}
            });
            add(q);
        }
    }
    for i in 0..p.inputs.len() {
        let mut q = p.clone();
        q.inputs.remove(i);
        for a in &mut q.args {
            a.values.remove(i);
        }
        add(q);
        let mut q = p.clone();
        q.inputs[i].variants = None;
        add(q);
    }
    for i in 0..p.params.len() {
        let mut q = p.clone();
        q.params.remove(i);
        add(q);
    }
    for i in 0..p.args.len() {
        let mut q = p.clone();
        q.args.remove(i);
        add(q);
    }
    if !p.variants.is_empty() {
        let mut q = p.clone();
        q.variants.clear();
        for i in &mut q.inputs {
            i.variants = None;
        }
        q.args.truncate(1);
        for a in &mut q.args {
            a.variant = 0;
        }
        add(q);
    }
    let mut q = p.clone();
    q.debug = None;
    add(q);
    let mut q = p.clone();
    q.alias = false;
    add(q);
    let mut q = p.clone();
    q.style = 0;
    add(q);
    let mut q = p.clone();
    q.by_ref = true;
    add(q);
    out
}

/// A small change somewhere, valid or not.
pub fn mutate(rng: &mut Rng, p: &Program) -> Program {
    let mut q = p.clone();
    let n = count(&q.stmts);
    if n == 0 {
        return q;
    }
    let k = rng.below(n);
    let ops = all_ops();
    let kind = rng.below(17);
    let mut r = rng.clone();
    rng.next();
    let any_name = |r: &mut Rng| {
        let ty = *r.pick(&[Ty::I, Ty::B, Ty::Y]);
        if r.chance(15) { "nowhere".to_string() } else { name_of(r, ty) }
    };
    match kind {
        14 => {
            // An input of another type, or one less.
            if !q.inputs.is_empty() {
                let i = r.below(q.inputs.len());
                if r.chance(50) {
                    q.inputs[i].ty = *r.pick(&[RTy::I32, RTy::Bool, RTy::ByteArray, RTy::Integer]);
                } else {
                    q.inputs.remove(i);
                }
                q.args.clear();
            }
        }
        15 => {
            // A variant that lacks or gets an input.
            if !q.variants.is_empty() && !q.inputs.is_empty() {
                let i = r.below(q.inputs.len());
                let v = r.below(q.variants.len());
                let mut l = q.inputs[i].variants.clone().unwrap_or_else(|| (0..q.variants.len()).collect());
                if l.contains(&v) {
                    l.retain(|x| *x != v);
                } else {
                    l.push(v);
                    l.sort();
                }
                if !l.is_empty() {
                    q.inputs[i].variants = Some(l);
                }
                q.args.clear();
            }
        }
        16 => {
            // Two inputs change places.
            if q.inputs.len() > 1 {
                let i = r.below(q.inputs.len() - 1);
                q.inputs.swap(i, i + 1);
                q.args.clear();
            }
        }
        _ => {
            at(&mut q.stmts, &mut k.clone(), &mut |l, i| match kind {
                0 | 1 => {
                    l.remove(i);
                }
                2 => {
                    let s = l[i].clone();
                    l.insert(i, s);
                }
                3 => {
                    if i + 1 < l.len() {
                        l.swap(i, i + 1);
                    }
                }
                4 => {
                    let op = r.pick(&ops).to_string();
                    l.insert(i, Stmt::Op { op, ins: None, outs: None });
                }
                5 => {
                    let op = r.pick(&["OP_IF", "OP_ELSE", "OP_ENDIF", "OP_FROMALTSTACK", "OP_TOALTSTACK", "OP_2ROT", "OP_2OVER", "OP_3DUP"]).to_string();
                    l.insert(i, Stmt::Op { op, ins: None, outs: None });
                }
                6 => match &mut l[i] {
                    Stmt::Op { op, .. } => *op = r.pick(&ops).to_string(),
                    s => *s = Stmt::Push { expr: Expr::Lit(Value::Bool(true)), out: None },
                },
                7 | 8 => match &mut l[i] {
                    Stmt::Op { ins: Some(ins), .. } if !ins.is_empty() => {
                        let j = r.below(ins.len());
                        if r.chance(70) { ins[j] = any_name(&mut r) } else if ins.len() > 1 { ins.swap(0, 1) }
                    }
                    Stmt::Op { outs: Some(outs), .. } if !outs.is_empty() => {
                        let j = r.below(outs.len());
                        outs[j] = any_name(&mut r);
                    }
                    Stmt::DepthOf { name, .. } => *name = any_name(&mut r),
                    Stmt::Transmute { name, .. } => *name = any_name(&mut r),
                    _ => {}
                },
                9 => match &mut l[i] {
                    Stmt::Op { ins: Some(ins), .. } => {
                        if r.chance(50) { ins.push("__".into()) } else { ins.pop(); }
                    }
                    Stmt::Op { op, ins, .. } => {
                        let n = op_info(op).map_or(1, |i| i.ins.len());
                        *ins = Some(vec!["__".to_string(); n + 1 - 2 * r.below(2).min(n)]);
                    }
                    _ => {}
                },
                10 => match &mut l[i] {
                    Stmt::Op { outs: Some(outs), .. } if !outs.is_empty() => {
                        if r.chance(50) { outs.push(any_name(&mut r)) } else { outs.pop(); }
                    }
                    Stmt::Op { outs, .. } => *outs = Some(vec![any_name(&mut r), any_name(&mut r)]),
                    _ => {}
                },
                11 => match &mut l[i] {
                    Stmt::Push { expr, .. } => {
                        *expr = Expr::Lit(match r.below(3) {
                            0 => Value::Int(5),
                            1 => Value::Bool(false),
                            _ => Value::Bytes(vec![b'q']),
                        })
                    }
                    Stmt::Op { outs: Some(outs), .. } if !outs.is_empty() => {
                        let j = r.below(outs.len());
                        outs[j] = "__".into();
                    }
                    _ => {}
                },
                12 => match &mut l[i] {
                    Stmt::Push { out, .. } | Stmt::DepthOf { out, .. } => *out = if out.is_some() { None } else { Some(any_name(&mut r)) },
                    Stmt::Op { ins, .. } => *ins = None,
                    _ => {}
                },
                13 => {
                    let s = Stmt::DepthOf { name: any_name(&mut r), out: None, offset: None };
                    l.insert(i, s);
                }
                _ => unreachable!(),
            });
        }
    }
    q
}
