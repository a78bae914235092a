//! Script functions as data: the statements, their Rust source, and an independent simulation of
//! the stacks, names and types they work on.
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use vh::refs;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Ty {
    I,
    B,
    Y,
}

/// Rust types of parameters and script inputs.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum RTy {
    I32,
    Integer,
    Bool,
    ByteArray,
    Vec,
    Arr(usize),
    Hash160,
    Sha256,
    Pubkey,
}

impl RTy {
    pub fn ty(self) -> Ty {
        match self {
            RTy::I32 | RTy::Integer => Ty::I,
            RTy::Bool => Ty::B,
            _ => Ty::Y,
        }
    }

    pub fn rust(self) -> String {
        match self {
            RTy::I32 => "i32".into(),
            RTy::Integer => "Integer".into(),
            RTy::Bool => "bool".into(),
            RTy::ByteArray => "ByteArray".into(),
            RTy::Vec => "Vec<u8>".into(),
            RTy::Arr(n) => format!("[u8; {}]", n),
            RTy::Hash160 => "Hash160".into(),
            RTy::Sha256 => "Sha256".into(),
            RTy::Pubkey => "Pubkey".into(),
        }
    }

    pub fn len(self) -> Option<usize> {
        match self {
            RTy::Arr(n) => Some(n),
            RTy::Hash160 => Some(20),
            RTy::Sha256 => Some(32),
            RTy::Pubkey => Some(33),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Value {
    Int(i64),
    Bool(bool),
    Bytes(Vec<u8>),
}

impl Value {
    /// What the pushed value is on the stack.
    pub fn item(&self) -> Vec<u8> {
        match self {
            Value::Int(n) => refs::script_num(*n as i128),
            Value::Bool(b) => if *b { vec![1] } else { vec![] },
            Value::Bytes(b) => b.clone(),
        }
    }

    /// A Rust expression of the given type.
    pub fn rust(&self, ty: RTy) -> String {
        match (self, ty) {
            (Value::Int(n), RTy::I32) => n.to_string(),
            (Value::Int(n), _) => format!("Integer::new({}).unwrap()", n),
            (Value::Bool(b), _) => b.to_string(),
            (Value::Bytes(b), RTy::ByteArray) => format!("ByteArray::new_unnamed({}.to_vec())", bytes_lit(b)),
            (Value::Bytes(b), RTy::Vec) => format!("{}.to_vec()", bytes_lit(b)),
            (Value::Bytes(b), RTy::Arr(_)) => format!("*{}", bytes_lit(b)),
            (Value::Bytes(b), RTy::Pubkey) => format!("Pubkey::new(*{})", bytes_lit(b)),
            (Value::Bytes(b), t) => format!("{}::new(*{})", t.rust(), bytes_lit(b)),
        }
    }
}

pub fn bytes_lit(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for &c in b {
        if c.is_ascii_alphanumeric() {
            s.push(c as char);
        } else {
            s.push_str(&format!("\\x{:02x}", c));
        }
    }
    s.push('"');
    s
}

/// Pushed expressions.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Expr {
    Lit(Value),
    /// `[1u8, 2]`
    Array(Vec<u8>),
    /// `vec![1u8, 2]`
    VecMacro(Vec<u8>),
    /// `Integer::new(n).unwrap()`
    NewInteger(i64),
    Param(String),
    /// `params.a * k`
    Mul(String, i64),
    /// `params.a + params.b`
    Sum(String, String),
    /// `a + b` of literals
    Plus(i64, i64),
    /// `if params.b { x } else { y }`, only behind `let`
    Choose(String, i64, i64),
    /// `{ e }`, only behind `let`
    Braced(Box<Expr>),
}

impl Expr {
    fn rust(&self) -> String {
        let arr = |b: &[u8]| b.iter().enumerate().map(|(i, x)| if i == 0 { format!("{}u8", x) } else { x.to_string() }).collect::<Vec<_>>().join(", ");
        match self {
            Expr::Lit(Value::Int(n)) => n.to_string(),
            Expr::Lit(Value::Bool(b)) => b.to_string(),
            Expr::Lit(Value::Bytes(b)) => bytes_lit(b),
            Expr::Array(b) => format!("[{}]", arr(b)),
            Expr::VecMacro(b) => format!("vec![{}]", arr(b)),
            Expr::NewInteger(n) => format!("Integer::new({}).unwrap()", n),
            Expr::Param(p) => format!("params.{}", p),
            Expr::Mul(p, k) => format!("params.{} * {}", p, k),
            Expr::Sum(p, q) => format!("params.{} + params.{}", p, q),
            Expr::Plus(a, b) => format!("{} + {}", a, b),
            Expr::Choose(p, a, b) => format!("if params.{} {{ {} }} else {{ {} }}", p, a, b),
            Expr::Braced(e) => format!("{{ {} }}", e.rust()),
        }
    }

    fn only_behind_let(&self) -> bool {
        matches!(self, Expr::Choose(..) | Expr::Braced(_) | Expr::VecMacro(_))
    }

    pub fn eval(&self, params: &[Param]) -> Option<Value> {
        let param = |n: &String| params.iter().find(|p| p.name == *n);
        let int = |n: &String| match param(n) {
            Some(Param { value: Value::Int(v), .. }) => Some(*v),
            _ => None,
        };
        let ok = |v: i64| if v.abs() <= i32::MAX as i64 { Some(Value::Int(v)) } else { None };
        match self {
            Expr::Lit(v) => Some(v.clone()),
            Expr::Array(b) | Expr::VecMacro(b) => if b.is_empty() { None } else { Some(Value::Bytes(b.clone())) },
            Expr::NewInteger(n) => ok(*n),
            Expr::Param(p) => param(p).map(|p| p.value.clone()),
            Expr::Mul(p, k) => ok(int(p)? * k),
            Expr::Sum(p, q) => {
                if param(p)?.ty != param(q)?.ty {
                    return None;
                }
                ok(int(p)? + int(q)?)
            }
            Expr::Plus(a, b) => if *b < 0 || *a < 0 { None } else { ok(a + b) },
            Expr::Choose(p, a, b) => match param(p)?.value {
                Value::Bool(true) => ok(*a),
                Value::Bool(false) => ok(*b),
                _ => None,
            },
            Expr::Braced(e) => e.eval(params),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Stmt {
    Push { expr: Expr, out: Option<String> },
    Op { op: String, ins: Option<Vec<String>>, outs: Option<Vec<String>> },
    DepthOf {
        name: String,
        out: Option<String>,
        /// depth_of_offset, by how much.
        #[serde(default)]
        offset: Option<i32>,
    },
    Transmute { name: String, ty: RTy, out: bool },
    Block(Vec<Stmt>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Param {
    pub name: String,
    pub ty: RTy,
    pub value: Value,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Input {
    pub name: String,
    pub ty: RTy,
    /// None: all variants.
    pub variants: Option<Vec<usize>>,
}

/// A disjunction of conjunctions of (name, positive).
pub type Predicate = Vec<Vec<(String, bool)>>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Variant {
    pub name: String,
    pub predicate: Predicate,
}

/// Argument values to unlock with.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Args {
    pub variant: usize,
    pub values: Vec<Value>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Program {
    pub params: Vec<Param>,
    pub by_ref: bool,
    pub variants: Vec<Variant>,
    pub inputs: Vec<Input>,
    pub stmts: Vec<Stmt>,
    pub debug: Option<bool>,
    pub alias: bool,
    /// Chooses the layout of the source.
    pub style: u64,
    pub args: Vec<Args>,
}

pub struct OpInfo {
    pub byte: u8,
    /// n, b, a: number, boolean, bytes; t: anything; e: the same type as the other e.
    pub ins: &'static str,
    pub outs: &'static str,
    pub order: Option<&'static [usize]>,
    pub retains: bool,
}

const TABLE: &[(u8, &str, &str)] = &[
    (0x00, "", "n"), (0x4f, "", "n"), (0x61, "", ""), (0x69, "t", ""),
    (0x6d, "tt", ""), (0x74, "", "n"), (0x75, "t", ""), (0x6a, "", ""),
    (0x7e, "aa", "a"), (0x7f, "an", "aa"), (0x80, "nn", "a"), (0x81, "a", "n"), (0x82, "a", "an"),
    (0x84, "aa", "a"), (0x85, "aa", "a"), (0x86, "aa", "a"), (0x87, "ee", "b"), (0x88, "ee", ""),
    (0x8b, "n", "n"), (0x8c, "n", "n"), (0x8f, "n", "n"), (0x90, "n", "n"), (0x91, "b", "b"), (0x92, "n", "b"),
    (0x93, "nn", "n"), (0x94, "nn", "n"), (0x96, "nn", "n"), (0x97, "nn", "n"), (0x9a, "bb", "b"), (0x9b, "bb", "b"),
    (0x9c, "nn", "b"), (0x9d, "nn", ""), (0x9e, "nn", "b"), (0x9f, "nn", "b"), (0xa0, "nn", "b"), (0xa1, "nn", "b"), (0xa2, "nn", "b"),
    (0xa3, "nn", "n"), (0xa4, "nn", "n"), (0xa5, "nnn", "b"),
    (0xa6, "a", "a"), (0xa7, "a", "a"), (0xa8, "a", "a"), (0xa9, "a", "a"), (0xaa, "a", "a"), (0xab, "", ""),
    (0xac, "aa", "b"), (0xad, "aa", ""), (0xb0, "", ""), (0xb1, "n", "n"), (0xb2, "n", "n"),
    (0xba, "aaa", "b"), (0xbb, "aaa", ""), (0xbc, "a", "a"),
];

/// Which of its inputs (counted from the deepest) each item left by a rearranging operation is.
pub const ORDERS: &[(u8, usize, &[usize])] = &[
    (0x6e, 2, &[0, 1, 0, 1]),
    (0x6f, 3, &[0, 1, 2, 0, 1, 2]),
    (0x70, 4, &[0, 1, 2, 3, 0, 1]),
    (0x71, 6, &[2, 3, 4, 5, 0, 1]),
    (0x72, 4, &[2, 3, 0, 1]),
    (0x76, 1, &[0, 0]),
    (0x77, 2, &[1]),
    (0x78, 2, &[0, 1, 0]),
    (0x7b, 3, &[1, 2, 0]),
    (0x7c, 2, &[1, 0]),
    (0x7d, 2, &[1, 0, 1]),
];

pub fn op_info(name: &str) -> Option<OpInfo> {
    let byte = (0..=255u8).find(|b| refs::opcode_name(*b) == Some(name))?;
    let plain = |ins, outs| Some(OpInfo { byte, ins, outs, order: None, retains: matches!(byte, 0x82 | 0xb1 | 0xb2) });
    if (0x51..=0x60).contains(&byte) {
        return plain("", "n");
    }
    if (0xb3..=0xb9).contains(&byte) {
        return plain("", "");
    }
    if let Some((_, n, order)) = ORDERS.iter().find(|o| o.0 == byte) {
        return Some(OpInfo { byte, ins: &"tttttt"[..*n], outs: &"tttttt"[..order.len()], order: Some(order), retains: false });
    }
    let (_, ins, outs) = TABLE.iter().find(|o| o.0 == byte)?;
    plain(ins, outs)
}

pub fn all_ops() -> Vec<&'static str> {
    (0..=255u8).filter_map(refs::opcode_name).filter(|n| op_info(n).is_some()).collect()
}

fn kind(c: u8) -> Ty {
    match c {
        b'n' => Ty::I,
        b'b' => Ty::B,
        _ => Ty::Y,
    }
}

/// What is known about an item's value.
#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Input(usize),
    Bytes(Vec<u8>),
    Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Depth {
    No,
    Of(usize),
    Ambiguous,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub name: Option<String>,
    pub ty: Ty,
    pub depth: Depth,
    /// The Rust variable that stands for the item.
    var: String,
    pub src: Src,
}

#[derive(Clone, Debug, Default)]
pub struct Stacks {
    pub main: Vec<Item>,
    pub alt: Vec<Item>,
}

#[derive(Clone, Debug)]
struct Frame {
    before: Vec<Stacks>,
    active_before: Vec<bool>,
    after_then: Option<(Vec<Stacks>, Vec<bool>)>,
    atom: String,
    block: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EOp {
    Code(u8),
    Push(Value),
}

#[derive(Clone, Debug)]
pub struct ExpOp {
    pub op: EOp,
    pub pushed: Vec<Option<String>>,
    pub alt: Vec<Option<String>>,
    /// What each variant's stacks look like after the operation (None: not reached).
    pub after: Vec<Option<(Vec<Item>, Vec<Item>)>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Why {
    /// Detected by the macro.
    Macro(&'static str),
    /// Detected by the types of the generated code.
    Type(&'static str),
    /// Not decided here.
    Quirk(&'static str),
}
use Why::*;

#[derive(Clone)]
pub struct Sim<'a> {
    prog: &'a Program,
    pub states: Vec<Stacks>,
    pub active: Vec<bool>,
    atoms: Vec<(String, bool)>,
    frames: Vec<Frame>,
    block: usize,
    env: HashMap<String, Ty>,
    fresh: usize,
    pub ops: Vec<ExpOp>,
    record: bool,
}

fn holds(p: &Predicate, atoms: &[(String, bool)]) -> bool {
    p.is_empty() || p.iter().any(|c| c.iter().all(|(n, v)| atoms.iter().all(|(m, w)| n != m || v == w)))
}

impl<'a> Sim<'a> {
    pub fn new(prog: &'a Program, record: bool) -> Sim<'a> {
        let n = prog.variants.len().max(1);
        let mut sim = Sim {
            prog,
            states: vec![Stacks::default(); n],
            active: vec![true; n],
            atoms: vec![],
            frames: vec![],
            block: 0,
            env: HashMap::new(),
            fresh: 0,
            ops: vec![],
            record,
        };
        for (k, input) in prog.inputs.iter().enumerate() {
            for v in 0..n {
                if input.variants.as_ref().map_or(true, |l| l.contains(&v)) {
                    sim.states[v].main.push(Item { name: Some(input.name.clone()), ty: input.ty.ty(), depth: Depth::No, var: input.name.clone(), src: Src::Input(k) });
                }
            }
            sim.env.insert(input.name.clone(), input.ty.ty());
        }
        sim
    }

    pub fn n_frames(&self) -> usize {
        self.frames.len()
    }

    pub fn n_atoms(&self) -> usize {
        self.atoms.len()
    }

    fn activate(&mut self) {
        for v in 0..self.states.len() {
            self.active[v] = self.prog.variants.get(v).map_or(true, |x| holds(&x.predicate, &self.atoms));
        }
    }

    fn var(&mut self, ty: Ty) -> String {
        self.fresh += 1;
        let v = format!("__id#{}", self.fresh);
        self.env.insert(v.clone(), ty);
        v
    }

    pub fn any_active(&self) -> bool {
        self.active.iter().any(|a| *a)
    }

    /// Removes the items at `depth` from the active variants' stack, which must agree on them.
    fn take(&mut self, alt: bool, depth: usize, keep: bool) -> Result<(Item, Vec<Src>), Why> {
        let mut all: Vec<Item> = Vec::new();
        let mut srcs = Vec::new();
        for v in 0..self.states.len() {
            if !self.active[v] {
                srcs.push(Src::Unknown);
                continue;
            }
            let st = if alt { &mut self.states[v].alt } else { &mut self.states[v].main };
            if depth >= st.len() {
                return Err(Macro("underflow"));
            }
            let i = st.len() - 1 - depth;
            let item = if keep { st[i].clone() } else { st.remove(i) };
            srcs.push(item.src.clone());
            all.push(item);
        }
        let mut first = match all.first() {
            Some(f) => f.clone(),
            None => return Err(Macro("no variant")),
        };
        for o in &all {
            if o.name != first.name {
                return Err(Macro("variants disagree on a name"));
            }
            if o.ty != first.ty {
                return Err(Quirk("variants disagree on a type"));
            }
            if self.env[&o.var] != o.ty {
                return Err(Quirk("shadowed variable"));
            }
            if o.depth != first.depth {
                first.depth = Depth::Ambiguous;
            }
        }
        Ok((first, srcs))
    }

    fn put(&mut self, alt: bool, item: &Item, srcs: &[Src]) {
        for v in 0..self.states.len() {
            if self.active[v] {
                let item = Item { src: srcs[v].clone(), ..item.clone() };
                if alt {
                    self.states[v].alt.push(item)
                } else {
                    self.states[v].main.push(item)
                }
            }
        }
    }

    fn emit(&mut self, op: EOp, pushed: Vec<Option<String>>, alt: Vec<Option<String>>) {
        if self.record {
            let after = (0..self.states.len()).map(|v| if self.active[v] { Some((self.states[v].main.clone(), self.states[v].alt.clone())) } else { None }).collect();
            self.ops.push(ExpOp { op, pushed, alt, after });
        }
    }

    fn same_src(&self, s: Src) -> Vec<Src> {
        vec![s; self.states.len()]
    }

    pub fn stmt(&mut self, stmt: &Stmt) -> Result<(), Why> {
        if !self.any_active() {
            match stmt {
                Stmt::Op { op, .. } if op == "OP_ELSE" || op == "OP_ENDIF" => {}
                _ => return Err(Quirk("dead code")),
            }
        }
        match stmt {
            Stmt::Block(stmts) => {
                self.block += 1;
                let depth = self.frames.len();
                for s in stmts {
                    self.stmt(s)?;
                }
                if self.frames.len() > depth {
                    return Err(Macro("unclosed IF"));
                }
                self.block -= 1;
                Ok(())
            }
            Stmt::Push { expr, out } => {
                if out.as_deref().map_or(false, |o| o.starts_with('(')) {
                    return Err(Macro("names of one value"));
                }
                if out.as_deref() == Some("__") {
                    return Err(Quirk("placeholder push"));
                }
                if out.is_none() && expr.only_behind_let() {
                    return Err(Quirk("not a statement"));
                }
                let value = expr.eval(&self.prog.params).ok_or(Quirk("value"))?;
                let ty = match value {
                    Value::Int(_) => Ty::I,
                    Value::Bool(_) => Ty::B,
                    Value::Bytes(_) => Ty::Y,
                };
                let var = match out {
                    Some(n) => {
                        self.env.insert(n.clone(), ty);
                        n.clone()
                    }
                    None => self.var(ty),
                };
                let srcs = self.same_src(Src::Bytes(value.item()));
                self.put(false, &Item { name: out.clone(), ty, depth: Depth::No, var, src: Src::Unknown }, &srcs);
                self.emit(EOp::Push(value), vec![out.clone()], vec![]);
                Ok(())
            }
            Stmt::DepthOf { name, out, offset } => {
                if out.as_deref().map_or(false, |o| o.starts_with('(')) {
                    return Err(Macro("names of one value"));
                }
                if out.as_deref() == Some("__") {
                    return Err(Quirk("placeholder push"));
                }
                let depth = self.find(name)?;
                let var = match out {
                    Some(n) => {
                        self.env.insert(n.clone(), Ty::I);
                        n.clone()
                    }
                    None => self.var(Ty::I),
                };
                let number = depth as i64 + offset.unwrap_or(0) as i64;
                // What a PICK or ROLL takes is only said of depths as they are.
                let known = if offset.unwrap_or(0) == 0 { Depth::Of(depth) } else { Depth::Ambiguous };
                let srcs = self.same_src(Src::Bytes(refs::script_num(number as i128)));
                self.put(false, &Item { name: out.clone(), ty: Ty::I, depth: known, var, src: Src::Unknown }, &srcs);
                self.emit(EOp::Push(Value::Int(number)), vec![out.clone()], vec![]);
                Ok(())
            }
            Stmt::Transmute { name, ty, out: _ } => {
                let depth = self.find(name)?;
                let mut var: Option<String> = None;
                for v in 0..self.states.len() {
                    if !self.active[v] {
                        continue;
                    }
                    let st = &mut self.states[v].main;
                    let i = st.len() - 1 - depth;
                    if *var.get_or_insert(st[i].var.clone()) != st[i].var {
                        return Err(Quirk("transmute of different variables"));
                    }
                    st[i].ty = ty.ty();
                }
                self.env.insert(var.unwrap(), ty.ty());
                Ok(())
            }
            // Written as an operation where a `Stmt::Transmute` cannot have it: with other names.
            Stmt::Op { op, outs, .. } if op.starts_with("transmute(") => match outs.as_deref() {
                Some([name]) if op.starts_with(&format!("transmute({},", name)) => Err(Quirk("not a Transmute")),
                Some([_]) => Err(Macro("transmute to another name")),
                Some(_) => Err(Macro("names of one value")),
                None => Err(Quirk("not a Transmute")),
            },
            Stmt::Op { op, ins, outs } => self.op(op, ins, outs),
        }
    }

    fn find(&self, name: &str) -> Result<usize, Why> {
        let mut depth = None;
        for v in 0..self.states.len() {
            if !self.active[v] {
                continue;
            }
            match self.states[v].main.iter().rev().position(|i| i.name.as_deref() == Some(name)) {
                None => return Err(Macro("unknown name")),
                Some(d) if *depth.get_or_insert(d) != d => return Err(Macro("variants disagree on a depth")),
                _ => {}
            }
        }
        depth.ok_or(Quirk("dead code"))
    }

    /// The top item of the active variants, if they agree on it.
    pub fn top(&self, alt: bool) -> Option<Item> {
        let mut s = self.clone();
        s.take(alt, 0, false).ok().map(|t| t.0)
    }

    fn move_names(&self, item: &mut Item, outs: &Option<Vec<String>>) -> Result<(), Why> {
        if let Some(outs) = outs {
            if outs.len() != 1 {
                return Err(Macro("number of outputs"));
            }
            if outs[0] == "__" {
                return Err(Quirk("placeholder output of a move"));
            }
            item.name = Some(outs[0].clone());
        }
        Ok(())
    }

    fn check_one(item: &Item, ins: &Option<Vec<String>>) -> Result<(), Why> {
        if let Some(ins) = ins {
            if ins.len() != 1 {
                return Err(Macro("number of inputs"));
            }
            if ins[0] == "__" {
                return Err(Quirk("placeholder input of a move"));
            }
            if item.name.as_deref() != Some(&ins[0]) {
                return Err(Macro("input name"));
            }
        }
        Ok(())
    }

    fn op(&mut self, op: &str, ins: &Option<Vec<String>>, outs: &Option<Vec<String>>) -> Result<(), Why> {
        match op {
            "OP_IF" => {
                let (item, _) = self.take(false, 0, false)?;
                let name = match ins.as_deref() {
                    None => return Err(Macro("unnamed IF")),
                    Some([n]) => n,
                    Some(_) => return Err(Macro("number of inputs")),
                };
                if name == "__" {
                    return Err(Quirk("placeholder IF"));
                }
                if item.name.as_deref() != Some(name) {
                    return Err(Macro("input name"));
                }
                if outs.is_some() {
                    return Err(Quirk("outputs of IF"));
                }
                self.emit(EOp::Code(0x63), vec![], vec![]);
                self.frames.push(Frame {
                    before: self.states.clone(),
                    active_before: self.active.clone(),
                    after_then: None,
                    atom: name.clone(),
                    block: self.block,
                });
                self.atoms.push((name.clone(), true));
                self.activate();
                return Ok(());
            }
            "OP_ELSE" | "OP_ENDIF" => {
                let block = self.block;
                match self.frames.last() {
                    Some(f) if f.block == block => {}
                    _ => return Err(Macro("no IF")),
                }
                if ins.as_ref().map_or(false, |i| !i.is_empty()) {
                    return Err(Macro("number of inputs"));
                }
                if outs.is_some() {
                    return Err(Quirk("outputs of ELSE"));
                }
                if op == "OP_ELSE" {
                    let f = self.frames.last_mut().unwrap();
                    if f.after_then.is_some() {
                        return Err(Macro("second ELSE"));
                    }
                    f.after_then = Some((std::mem::replace(&mut self.states, f.before.clone()), self.active.clone()));
                    let atom = f.atom.clone();
                    // What is on the stack after ELSE depends on where it is reached from.
                    if self.record {
                        let n = self.states.len();
                        self.ops.push(ExpOp { op: EOp::Code(0x67), pushed: vec![], alt: vec![], after: vec![None; n] });
                    }
                    *self.atoms.last_mut().unwrap() = (atom, false);
                    self.activate();
                    return Ok(());
                }
                let f = self.frames.pop().unwrap();
                let (then_states, then_active, else_states, else_active) = match f.after_then {
                    Some((s, a)) => (s, a, self.states.clone(), self.active.clone()),
                    None => {
                        let (s, a) = (std::mem::replace(&mut self.states, f.before.clone()), self.active.clone());
                        *self.atoms.last_mut().unwrap() = (f.atom.clone(), false);
                        self.activate();
                        (s, a, f.before.clone(), self.active.clone())
                    }
                };
                self.atoms.pop();
                self.active = f.active_before.clone();
                for v in 0..self.states.len() {
                    self.states[v] = match (then_active[v], else_active[v]) {
                        (true, true) => merge(&then_states[v], &else_states[v])?,
                        (true, false) => then_states[v].clone(),
                        (false, true) => else_states[v].clone(),
                        (false, false) => f.before[v].clone(),
                    };
                }
                self.emit(EOp::Code(0x68), vec![], vec![]);
                return Ok(());
            }
            "OP_TOALTSTACK" | "OP_FROMALTSTACK" => {
                let to = op == "OP_TOALTSTACK";
                let (mut item, srcs) = self.take(!to, 0, false)?;
                Self::check_one(&item, ins)?;
                self.move_names(&mut item, outs)?;
                self.put(to, &item, &srcs);
                let names = vec![item.name.clone()];
                if to {
                    self.emit(EOp::Code(0x6b), vec![], names)
                } else {
                    self.emit(EOp::Code(0x6c), names, vec![])
                }
                return Ok(());
            }
            "OP_PICK" | "OP_ROLL" => {
                let pick = op == "OP_PICK";
                let (item, _) = self.take(false, 0, false)?;
                Self::check_one(&item, ins)?;
                let depth = match item.depth {
                    Depth::Of(d) => d,
                    _ => return Err(Quirk("depth not known")),
                };
                let (mut item, srcs) = self.take(false, depth, pick)?;
                self.move_names(&mut item, outs)?;
                self.put(false, &item, &srcs);
                self.emit(EOp::Code(if pick { 0x79 } else { 0x7a }), vec![item.name.clone()], vec![]);
                return Ok(());
            }
            _ => {}
        }
        let info = op_info(op).ok_or(Quirk("unknown operation"))?;
        let mut items = VecDeque::new();
        for _ in info.ins.bytes() {
            items.push_front(self.take(false, 0, false)?);
        }
        if let Some(ins) = ins {
            if ins.len() != items.len() {
                return Err(Macro("number of inputs"));
            }
            for (name, (item, _)) in ins.iter().zip(&items) {
                if name != "__" && item.name.as_deref() != Some(name) {
                    return Err(Macro("input name"));
                }
            }
        }
        if let Some(outs) = outs {
            if outs.len() != info.outs.len() {
                return Err(Macro("number of outputs"));
            }
        }
        let mut bad_type = false;
        let mut equal: Option<Ty> = None;
        for (c, (item, _)) in info.ins.bytes().zip(&items) {
            match c {
                b't' => {}
                b'e' => bad_type |= *equal.get_or_insert(item.ty) != item.ty,
                c => bad_type |= kind(c) != item.ty,
            }
        }
        let mut names = Vec::new();
        for (idx, c) in info.outs.bytes().enumerate() {
            let out = outs.as_ref().map(|o| o[idx].as_str());
            let named = out.map_or(false, |o| o != "__");
            // Which input the item is, and whether it still is that item with all that is known.
            let from = match info.order {
                Some(order) => Some(order[idx]),
                None if info.retains && idx == 0 => Some(0),
                None => None,
            };
            if out == Some("__") && from.is_none() {
                if info.retains {
                    // OP_SIZE's size
                } else {
                    return Err(Macro("placeholder output"));
                }
            }
            let (mut item, srcs) = match from {
                Some(k) => items[k].clone(),
                None => {
                    let ty = kind(c);
                    (Item { name: None, ty, depth: Depth::No, var: String::new(), src: Src::Unknown }, self.same_src(Src::Unknown))
                }
            };
            if named {
                item.name = Some(out.unwrap().to_string());
                item.depth = Depth::No;
            }
            item.var = self.var(item.ty);
            names.push(item.name.clone());
            self.put(false, &item, &srcs);
        }
        self.emit(EOp::Code(info.byte), names, vec![]);
        if bad_type {
            return Err(Type("item type"));
        }
        Ok(())
    }

    pub fn finish(&self) -> Result<(), Why> {
        if self.frames.is_empty() {
            Ok(())
        } else {
            Err(Macro("unclosed IF"))
        }
    }

    /// Statements that bring the first variant's stacks to where the innermost IF has to leave them.
    pub fn balance(&self) -> Option<Vec<Stmt>> {
        let f = self.frames.last()?;
        let (target, active) = match &f.after_then {
            Some((s, a)) => (s.clone(), a.clone()),
            None => {
                let mut other = self.clone();
                *other.atoms.last_mut().unwrap() = (f.atom.clone(), false);
                other.activate();
                (f.before.clone(), other.active)
            }
        };
        let v = match (0..self.states.len()).find(|&v| active[v] && self.active[v]) {
            Some(v) => v,
            None => return Some(vec![]),
        };
        let same = |a: &Item, b: &Item| a.name == b.name && a.ty == b.ty;
        let mut out = Vec::new();
        let op = |o: &str| Stmt::Op { op: o.into(), ins: None, outs: None };
        let lit = |i: &Item| Stmt::Push {
            expr: Expr::Lit(match i.ty {
                Ty::I => Value::Int(1),
                Ty::B => Value::Bool(true),
                Ty::Y => Value::Bytes(vec![b'z']),
            }),
            out: i.name.clone(),
        };
        let (cur, want) = (&self.states[v].alt, &target[v].alt);
        let common = cur.iter().zip(want).take_while(|(a, b)| same(a, b)).count();
        for _ in common..cur.len() {
            out.push(op("OP_FROMALTSTACK"));
            out.push(op("OP_DROP"));
        }
        for i in &want[common..] {
            out.push(lit(i));
            out.push(op("OP_TOALTSTACK"));
        }
        let (cur, want) = (&self.states[v].main, &target[v].main);
        let common = cur.iter().zip(want).take_while(|(a, b)| same(a, b)).count();
        for _ in common..cur.len() {
            out.push(op("OP_DROP"));
        }
        for i in &want[common..] {
            out.push(lit(i));
        }
        Some(out)
    }
}

fn merge(a: &Stacks, b: &Stacks) -> Result<Stacks, Why> {
    let join = |a: &[Item], b: &[Item]| -> Result<Vec<Item>, Why> {
        if a.len() != b.len() {
            return Err(Quirk("unbalanced"));
        }
        a.iter()
            .zip(b)
            .map(|(x, y)| {
                if x.name != y.name || x.ty != y.ty {
                    return Err(Quirk("unbalanced"));
                }
                let mut i = y.clone();
                if x.depth != y.depth {
                    i.depth = Depth::Ambiguous;
                }
                if x.src != y.src {
                    i.src = Src::Unknown;
                }
                Ok(i)
            })
            .collect()
    };
    Ok(Stacks { main: join(&a.main, &b.main)?, alt: join(&a.alt, &b.alt)? })
}

pub fn simulate(p: &Program) -> Result<Vec<ExpOp>, Why> {
    let mut sim = Sim::new(p, true);
    for s in &p.stmts {
        sim.stmt(s)?;
    }
    sim.finish()?;
    Ok(sim.ops)
}

// ---------------------------------------------------------------- source

struct Rng(u64);

impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}

pub struct Rendered {
    pub text: String,
    /// First and last line (from 0) and text of every statement that emits an operation.
    pub stmts: Vec<(usize, usize, String)>,
    /// Line (from 0) and text of every input's declaration.
    pub inputs: Vec<(usize, String)>,
    /// Line range of the whole module.
    pub lines: usize,
}

pub fn stmt_text(s: &Stmt) -> String {
    let list = |v: &[String]| v.join(", ");
    let lhs = |outs: &Option<Vec<String>>| match outs.as_deref() {
        None => String::new(),
        Some([x]) => format!("let {} = ", x),
        Some(l) => format!("let ({}) = ", list(l)),
    };
    match s {
        Stmt::Push { expr, out } => match out {
            Some(n) => format!("let {} = {}", n, expr.rust()),
            None => expr.rust(),
        },
        Stmt::Op { op, ins, outs } => format!("{}{}{}", lhs(outs), op, ins.as_ref().map(|i| format!("({})", list(i))).unwrap_or_default()),
        Stmt::DepthOf { name, out, offset } => {
            let lhs = lhs(&out.clone().map(|o| vec![o]));
            match offset {
                None => format!("{}depth_of({})", lhs, name),
                Some(n) if n % 5 == 2 => format!("{}depth_of_offset({}, {} + 2)", lhs, name, n - 2),
                Some(n) => format!("{}depth_of_offset({}, {})", lhs, name, n),
            }
        }
        Stmt::Transmute { name, ty, out } => {
            let t = if let RTy::Arr(_) | RTy::Vec = ty { "ByteArray".into() } else { ty.rust() };
            format!("{}transmute({}, {})", if *out { format!("let {} = ", name) } else { String::new() }, name, t)
        }
        Stmt::Block(_) => unreachable!(),
    }
}

fn render_stmts(stmts: &[Stmt], indent: usize, rng: &mut Rng, lines: &mut Vec<String>, at: &mut Vec<(usize, usize, String)>, plain: bool) {
    for s in stmts {
        if let Stmt::Block(inner) = s {
            lines.push(format!("{}{{", " ".repeat(indent)));
            render_stmts(inner, indent + 4, rng, lines, at, plain);
            lines.push(format!("{}}}", " ".repeat(indent)));
            continue;
        }
        let text = stmt_text(s);
        let pad = " ".repeat(indent);
        let choice = if plain { 0 } else { rng.below(20) };
        let start;
        let end;
        match choice {
            // On the line of the statement before.
            0..=2 if !plain && lines.last().map_or(false, |l| l.ends_with(';')) => {
                let l = lines.last_mut().unwrap();
                l.push(' ');
                l.push_str(&text);
                l.push(';');
                start = lines.len() - 1;
                end = start;
            }
            // Spread over several lines.
            3..=5 if !text.contains('"') => {
                start = lines.len();
                let mut cur = pad.clone();
                for tok in text.split_inclusive(|c| c == ' ' || c == '(' || c == ',') {
                    cur.push_str(tok);
                    if rng.below(2) == 0 && !tok.contains('.') {
                        lines.push(std::mem::take(&mut cur));
                        cur.push_str(&pad);
                        cur.push_str("    ");
                    }
                }
                cur.push(';');
                lines.push(cur);
                end = lines.len() - 1;
            }
            6 => {
                lines.push(String::new());
                lines.push(format!("{}// {}", pad, "note;"));
                start = lines.len();
                end = start;
                lines.push(format!("{}{};", pad, text));
            }
            _ => {
                start = lines.len();
                end = start;
                lines.push(format!("{}{};", pad, text));
            }
        }
        if !matches!(s, Stmt::Transmute { .. }) {
            at.push((start, end, text));
        }
    }
}

impl Program {
    pub fn predicate_text(p: &Predicate) -> String {
        p.iter().map(|c| c.iter().map(|(n, v)| format!("{}{}", if *v { "" } else { "!" }, n)).collect::<Vec<_>>().join("&&")).collect::<Vec<_>>().join("||")
    }

    /// The source of module `m<idx>`. With `run`, it has a function that reports what was made.
    pub fn render(&self, idx: usize, run: bool) -> Rendered {
        let mut rng = Rng(self.style);
        let mut lines: Vec<String> = vec![
            format!("mod m{} {{", idx),
            "    use bitcoin_cash::{ByteArray, Hash160, Integer, Opcode::*, Ops, Pubkey, Sha256};".into(),
        ];
        if self.alias {
            lines.push("    use bitcoin_cash as other_name;".into());
        }
        lines.push("    pub struct Params {".into());
        for p in &self.params {
            lines.push(format!("        pub {}: {},", p.name, p.ty.rust()));
        }
        lines.push("    }".into());
        let mut attr = vec!["Inputs".to_string()];
        if self.alias {
            attr.push("crate = \"other_name\"".into());
        }
        for v in &self.variants {
            attr.push(format!("{} = \"{}\"", v.name, Self::predicate_text(&v.predicate)));
        }
        if let Some(d) = self.debug {
            attr.push(format!("debug = {}", d));
        }
        // Documentation, before and behind the attribute: of the function, its inputs and their variants.
        let mut docs = Vec::new();
        if self.style % 4 == 1 {
            for _ in 0..1 + rng.below(6) {
                let v = &self.variants;
                docs.push(match rng.below(8) {
                    0 => "/// What it does, in \\ \"words\" {}.".to_string(),
                    1 | 2 => "/// # Inputs".into(),
                    3 | 4 if !v.is_empty() => format!("/// ## {}", v[rng.below(v.len() as u64) as usize].name),
                    3 | 4 => "/// ## V0".into(),
                    5 => "///".into(),
                    6 => "#[doc(alias = \"x\")]".into(),
                    _ => "#[doc = \"# Inputs\"]".into(),
                });
            }
        }
        let before = if docs.is_empty() { 0 } else { rng.below(docs.len() as u64 + 1) as usize };
        lines.extend(docs[..before].iter().map(|d| format!("    {}", d)));
        lines.push(format!("    #[bitcoin_cash::script({})]", attr.join(", ")));
        lines.extend(docs[before..].iter().map(|d| format!("    {}", d)));
        let mut sig = vec![format!("params: {}Params", if self.by_ref { "&" } else { "" })];
        for i in &self.inputs {
            let v = match &i.variants {
                Some(l) => format!("#[variant({})] ", l.iter().map(|v| self.variants[*v].name.as_str()).collect::<Vec<_>>().join(", ")),
                None => String::new(),
            };
            let d = if self.style % 4 == 1 && rng.below(2) == 0 { "#[doc = \"A \\\"field\\\".\"] " } else { "" };
            sig.push(if self.style % 8 == 1 { format!("{}{}{}: {}", v, d, i.name, i.ty.rust()) } else { format!("{}{}{}: {}", d, v, i.name, i.ty.rust()) });
        }
        let mut declared = Vec::new();
        let text = |k: usize| format!("{}: {}", self.inputs[k].name, self.inputs[k].ty.rust());
        if self.style % 3 == 0 && sig.len() > 1 {
            lines.push("    pub fn script(".into());
            for (k, s) in sig.iter().enumerate() {
                if k > 0 {
                    declared.push((lines.len(), text(k - 1)));
                }
                lines.push(format!("        {},", s));
            }
            lines.push("    ) {".into());
        } else {
            declared.extend((0..self.inputs.len()).map(|k| (lines.len(), text(k))));
            lines.push(format!("    pub fn script({}) {{", sig.join(", ")));
        }
        let mut at = Vec::new();
        render_stmts(&self.stmts, 8, &mut rng, &mut lines, &mut at, self.style == 0);
        lines.push("    }".into());
        if run {
            lines.push("    pub fn run(out: &mut String) {".into());
            let fields = self.params.iter().map(|p| format!("{}: {}", p.name, p.value.rust(p.ty))).collect::<Vec<_>>().join(", ");
            lines.push(format!("        let script = Params {{ {} }}.script();", fields));
            lines.push(format!("        crate::dump(out, {}, \"s\", &script.ops());", idx));
            lines.push(format!("        crate::bytes(out, {}, &script);", idx));
            for (k, a) in self.args.iter().enumerate() {
                let fields = self.fields(a.variant).into_iter().map(|i| format!("{}: {}", self.inputs[i].name, a.values[i].rust(self.inputs[i].ty))).collect::<Vec<_>>().join(", ");
                let path = match self.variants.get(a.variant) {
                    Some(v) => format!("Inputs::{}", v.name),
                    None => "Inputs".into(),
                };
                lines.push(format!("        crate::dump(out, {}, \"{}\", &{} {{ {} }}.ops());", idx, k, path, fields));
            }
            lines.push("    }".into());
        }
        lines.push("}".into());
        Rendered { text: lines.join("\n") + "\n", lines: lines.len(), stmts: at, inputs: declared }
    }

    /// Indices of the inputs a variant has.
    pub fn fields(&self, variant: usize) -> Vec<usize> {
        (0..self.inputs.len()).filter(|&i| self.inputs[i].variants.as_ref().map_or(true, |l| l.contains(&variant))).collect()
    }
}
