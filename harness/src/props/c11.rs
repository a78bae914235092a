//! C11: script integer arithmetic is exact or an error.
use crate::runner::*;
use bitcoin_cash::{Integer, IntegerError, IntegerResult, UInteger};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cmp::Ordering;
use std::convert::TryFrom;

const MAX: i128 = 0x7fff_ffff;

fn in_range(v: i128) -> bool {
    (-MAX..=MAX).contains(&v)
}

/// A value of any operand type; `v` always fits `kind` (u128 values above i128::MAX are negative here).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Kind {
    I8, U8, I16, U16, I32, U32, I64, U64, I128, U128, Isize, Usize, Int, Res,
}
use Kind::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Leaf(Kind, #[serde(with = "dec")] i128);

mod dec {
    use serde::*;
    pub fn serialize<S: Serializer>(v: &i128, s: S) -> Result<S::Ok, S::Error> {
        v.to_string().serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<i128, D::Error> {
        String::deserialize(d)?.parse().map_err(de::Error::custom)
    }
}

impl Leaf {
    fn bits(kind: Kind) -> (i128, i128) {
        match kind {
            I8 => (i8::MIN as i128, i8::MAX as i128),
            U8 => (0, u8::MAX as i128),
            I16 => (i16::MIN as i128, i16::MAX as i128),
            U16 => (0, u16::MAX as i128),
            I32 => (i32::MIN as i128, i32::MAX as i128),
            U32 => (0, u32::MAX as i128),
            I64 | Isize => (i64::MIN as i128, i64::MAX as i128),
            U64 | Usize => (0, u64::MAX as i128),
            I128 | U128 => (i128::MIN, i128::MAX),
            Int => (-MAX, MAX),
            Res => (i32::MIN as i128, i32::MAX as i128),
        }
    }
    fn fit(kind: Kind, v: i128) -> Leaf {
        let (lo, hi) = Leaf::bits(kind);
        if v < lo || v > hi {
            // Keep the low bits, as a cast would: stays in the type's range.
            let span = hi.wrapping_sub(lo).wrapping_add(1);
            if span <= 0 {
                return Leaf(kind, v);
            }
            return Leaf(kind, lo + (v.wrapping_sub(lo)).rem_euclid(span));
        }
        Leaf(kind, v)
    }
    /// The mathematical value, if a script integer.
    fn model(&self) -> Option<i128> {
        match self.0 {
            U128 if self.1 < 0 => None,
            _ => Some(self.1).filter(|v| in_range(*v)),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Bop {
    Add, Sub, Mul, Div, Rem, And, Or, Xor,
}
use Bop::*;
const BOPS: [Bop; 8] = [Add, Sub, Mul, Div, Rem, And, Or, Xor];

fn model_op(op: Bop, a: i128, b: i128) -> Option<i128> {
    let r = match op {
        Add => a + b,
        Sub => a - b,
        Mul => a * b,
        Div if b == 0 => return None,
        Rem if b == 0 => return None,
        // Truncation toward zero, spelled out.
        Div => {
            let q = a.abs() / b.abs();
            if (a < 0) != (b < 0) { -q } else { q }
        }
        Rem => {
            let r = a.abs() % b.abs();
            if a < 0 { -r } else { r }
        }
        And => bits(a, b, |x, y| x & y),
        Or => bits(a, b, |x, y| x | y),
        Xor => bits(a, b, |x, y| x ^ y),
    };
    Some(r).filter(|r| in_range(*r))
}

/// Two's complement of unbounded width, bit by bit.
fn bits(a: i128, b: i128, f: impl Fn(bool, bool) -> bool) -> i128 {
    let bit = |v: i128, i: u32| v.div_euclid(1 << i).rem_euclid(2) == 1;
    let mut r = 0i128;
    for i in 0..40 {
        if f(bit(a, i), bit(b, i)) {
            r += 1 << i
        }
    }
    if f(a < 0, b < 0) {
        r -= 1 << 40
    }
    r
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Expr {
    Leaf(Leaf),
    Bin(Bop, Box<Expr>, Box<Expr>),
    Neg(Box<Expr>),
    Shift(bool, Box<Expr>, u32),
}

#[derive(Clone, Copy, Debug)]
enum Val {
    Int(Integer),
    Res(IntegerResult),
    Raw(Leaf),
}

macro_rules! with_raw {
    ($leaf:expr, $x:ident => $e:expr) => {{
        let v = $leaf.1;
        match $leaf.0 {
            I8 => { let $x = v as i8; $e }
            U8 => { let $x = v as u8; $e }
            I16 => { let $x = v as i16; $e }
            U16 => { let $x = v as u16; $e }
            I32 => { let $x = v as i32; $e }
            U32 => { let $x = v as u32; $e }
            I64 => { let $x = v as i64; $e }
            U64 => { let $x = v as u64; $e }
            I128 => { let $x = v; $e }
            U128 => { let $x = v as u128; $e }
            Isize => { let $x = v as isize; $e }
            Usize => { let $x = v as usize; $e }
            Int => { let $x = Integer::new(v).expect("in range"); $e }
            Res => { let $x = IntegerResult::new(v); $e }
        }
    }};
}
macro_rules! with_val {
    ($val:expr, $x:ident => $e:expr) => {
        match $val {
            Val::Int($x) => $e,
            Val::Res($x) => $e,
            Val::Raw(leaf) => with_raw!(leaf, $x => $e),
        }
    };
}

fn apply(op: Bop, l: Val, r: Val) -> IntegerResult {
    macro_rules! all {
        ($a:expr, $b:expr) => {
            match op {
                Add => $a + $b,
                Sub => $a - $b,
                Mul => $a * $b,
                Div => $a / $b,
                Rem => $a % $b,
                And => $a & $b,
                Or => $a | $b,
                Xor => $a ^ $b,
            }
        };
    }
    match l {
        Val::Int(a) => with_val!(r, b => all!(a, b)),
        Val::Res(a) => with_val!(r, b => all!(a, b)),
        Val::Raw(leaf) => {
            let a: IntegerResult = with_raw!(leaf, x => IntegerResult::from(x));
            with_val!(r, b => all!(a, b))
        }
    }
}

fn result(v: Val) -> IntegerResult {
    match v {
        Val::Int(i) => i.into(),
        Val::Res(r) => r,
        Val::Raw(leaf) => with_raw!(leaf, x => IntegerResult::from(x)),
    }
}

fn eval(e: &Expr) -> Val {
    match e {
        Expr::Leaf(l) => match l.0 {
            Int => Val::Int(Integer::new(l.1).expect("in range")),
            Res => Val::Res(IntegerResult::new(l.1)),
            _ => Val::Raw(*l),
        },
        Expr::Bin(op, a, b) => Val::Res(apply(*op, eval(a), eval(b))),
        Expr::Neg(a) => match eval(a) {
            Val::Int(i) => Val::Int(-i),
            v => Val::Res(-result(v)),
        },
        Expr::Shift(left, a, by) => {
            let v = eval(a);
            Val::Res(match (v, left) {
                (Val::Int(i), true) => i << *by,
                (Val::Int(i), false) => i >> *by,
                (v, true) => result(v) << *by,
                (v, false) => result(v) >> *by,
            })
        }
    }
}

/// None: error. A left shift keeps the low 32 bits, a right shift rounds down.
fn model(e: &Expr) -> Option<i128> {
    match e {
        Expr::Leaf(l) => l.model(),
        Expr::Bin(op, a, b) => {
            let a = model(a);
            let b = model(b);
            model_op(*op, a?, b?)
        }
        Expr::Neg(a) => model(a).map(|v| -v),
        Expr::Shift(left, a, by) => {
            let a = model(a)?;
            if *by >= 32 {
                return None;
            }
            let r = if *left {
                let low = (a << by).rem_euclid(1 << 32);
                if low >= 1 << 31 { low - (1 << 32) } else { low }
            } else {
                a.div_euclid(1 << by)
            };
            Some(r).filter(|r| in_range(*r))
        }
    }
}

fn err_count(e: &Expr) -> bool {
    match e {
        Expr::Leaf(l) => l.model().is_none(),
        Expr::Bin(_, a, b) => err_count(a) || err_count(b) || model(e).is_none(),
        Expr::Neg(a) | Expr::Shift(_, a, _) => err_count(a) || model(e).is_none(),
    }
}

fn agree(r: IntegerResult, want: Option<i128>, what: &str) -> Result<(), String> {
    let got = r.value().ok().map(|v| v as i128);
    ensure!(got == want, "{} = {:?}, expected {:?}", what, r, want);
    ensure_eq!(r.integer().ok().map(|i| i.value() as i128), want, "{}: integer()", what);
    ensure_eq!(i32::try_from(r).ok().map(|i| i as i128), want, "{}: into i32", what);
    Ok(())
}

fn compare(a: Val, b: Val, ma: Option<i128>, mb: Option<i128>) -> Result<(), String> {
    let want = match (ma, mb) {
        (Some(x), Some(y)) => Some(x.cmp(&y)),
        _ => None,
    };
    let r = result(a);
    let got = with_val!(b, y => (r == y, r != y, r.partial_cmp(&y), r < y, r <= y, r > y, r >= y));
    let exp = (
        want == Some(Ordering::Equal),
        want != Some(Ordering::Equal),
        want,
        want == Some(Ordering::Less),
        matches!(want, Some(Ordering::Less | Ordering::Equal)),
        want == Some(Ordering::Greater),
        matches!(want, Some(Ordering::Greater | Ordering::Equal)),
    );
    ensure_eq!(got, exp, "comparing {:?} with {:?}: (==, !=, partial_cmp, <, <=, >, >=)", a, b);
    if let (Val::Int(x), Val::Int(y)) = (a, b) {
        let got = (x == y, x != y, x.partial_cmp(&y), x < y, x <= y, x > y, x >= y);
        ensure_eq!(got, exp, "comparing integers {:?} with {:?}", a, b);
        ensure_eq!(Some(x.cmp(&y)), want, "cmp of {:?} and {:?}", a, b);
        ensure_eq!(x.max(y).value() as i128, ma.max(mb).unwrap(), "max of {:?} and {:?}", a, b);
    }
    if let (Val::Int(x), Val::Raw(l)) = (a, b) {
        macro_rules! small {
            ($t:ty) => {{
                let y = l.1 as $t;
                ensure_eq!((x == y, x.partial_cmp(&y)), (exp.0, exp.2), "comparing {:?} with {:?}", a, b);
            }};
        }
        match l.0 {
            I8 => small!(i8),
            U8 => small!(u8),
            I16 => small!(i16),
            U16 => small!(u16),
            _ => {}
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Trees(Expr, Expr);

fn check_tree(c: &Trees, obs: &mut Obs) -> Result<(), String> {
    let mut sides = vec![];
    for e in [&c.0, &c.1] {
        let v = eval(e);
        let want = model(e);
        agree(result(v), want, &format!("{:?}", e))?;
        if err_count(e) {
            ensure!(result(v).value().is_err(), "{:?} holds an error but gives {:?}", e, result(v));
        }
        obs.class(if want.is_some() { "value" } else { "error" });
        obs.nontrivial(!matches!(e, Expr::Leaf(_)));
        sides.push((v, want));
    }
    let (a, b) = (sides[0], sides[1]);
    compare(a.0, b.0, a.1, b.1)?;
    compare(a.0, a.0, a.1, a.1)?;
    compare(a.0, Val::Raw(Leaf(I64, a.1.unwrap_or(0))), a.1, Some(a.1.unwrap_or(0)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair(Leaf, Leaf);

fn check_pair(c: &Pair, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial(true);
    let (a, b) = (eval(&Expr::Leaf(c.0)), eval(&Expr::Leaf(c.1)));
    let (ma, mb) = (c.0.model(), c.1.model());
    for op in BOPS {
        let want = match (ma, mb) {
            (Some(x), Some(y)) => model_op(op, x, y),
            _ => None,
        };
        obs.class(if want.is_some() { "value" } else { "error" });
        let got = apply(op, a, b);
        agree(got, want, &format!("{:?} {:?} {:?}", c.0, op, c.1))?;
    }
    compare(a, b, ma, mb)?;
    check_leaf(&c.0, obs)
}

/// Every conversion from a primitive.
fn check_leaf(l: &Leaf, obs: &mut Obs) -> Result<(), String> {
    let want = l.model();
    agree(result(eval(&Expr::Leaf(*l))), want, &format!("{:?}", l))?;
    agree(-result(eval(&Expr::Leaf(*l))), want.map(|v| -v), &format!("-{:?}", l))?;
    if matches!(l.0, Int | Res) {
        let v: Result<Integer, IntegerError> = Integer::new(l.1);
        if let Ok(i) = v {
            ensure_eq!(i.value() as i128, l.1, "Integer::new");
            ensure_eq!((-i).value() as i128, -l.1, "negation");
            ensure_eq!(i32::from(i) as i128, l.1, "into i32");
            ensure_eq!(i.to_string(), l.1.to_string(), "display");
        }
        return Ok(());
    }
    obs.class("conversion");
    macro_rules! conv {
        ($t:ty) => {{
            let x = l.1 as $t;
            let show = |v: Result<Integer, IntegerError>| v.ok().map(|i| i.value() as i128);
            ensure_eq!(show(Integer::new(x)), want, "Integer::new({:?})", l);
            ensure_eq!(show(Integer::try_from(x).map_err(Into::into)), want, "Integer::try_from({:?})", l);
            agree(IntegerResult::new(x), want, &format!("IntegerResult::new({:?})", l))?;
            agree(IntegerResult::from(x), want, &format!("IntegerResult::from({:?})", l))?;
            let u = UInteger::new(x).ok();
            let want_u = want.filter(|v| *v >= 0);
            ensure_eq!(u.map(|u| u.value() as i128), want_u, "UInteger::new({:?})", l);
            ensure_eq!(u.map(|u| u.integer().value() as i128), want_u, "UInteger::integer of {:?}", l);
        }};
    }
    match l.0 {
        I8 => conv!(i8),
        U8 => conv!(u8),
        I16 => conv!(i16),
        U16 => conv!(u16),
        I32 => conv!(i32),
        U32 => conv!(u32),
        I64 => conv!(i64),
        U64 => conv!(u64),
        I128 => conv!(i128),
        U128 => conv!(u128),
        Isize => conv!(isize),
        Usize => conv!(usize),
        Int | Res => {}
    }
    Ok(())
}

fn value() -> BoxedStrategy<i128> {
    prop_oneof![
        2 => -20i128..20,
        2 => any::<i16>().prop_map(|v| v as i128),
        4 => any::<i32>().prop_map(|v| v as i128),
        4 => (0u32..33, -2i128..=2, any::<bool>()).prop_map(|(k, d, n)| { let v = (1i128 << k) + d; if n { -v } else { v } }),
        2 => (-4i128..=4, any::<bool>()).prop_map(|(d, n)| if n { -MAX + d } else { MAX + d }),
        // Square roots of the range, so that products straddle the bounds.
        2 => (46300i128..46400, any::<bool>()).prop_map(|(v, n)| if n { -v } else { v }),
        1 => any::<i64>().prop_map(|v| v as i128),
        1 => (30u32..127, -2i128..=2, any::<bool>()).prop_map(|(k, d, n)| { let v = (1i128 << k) + d; if n { -v } else { v } }),
        1 => any::<i128>(),
        // Values that truncation to 32 bits would turn into small ones.
        1 => (1i128..1 << 40, -3i128..=3).prop_map(|(h, d)| (h << 32) + d),
    ]
    .boxed()
}

fn leaf() -> BoxedStrategy<Leaf> {
    let kind = prop::sample::select(vec![I8, U8, I16, U16, I32, I32, U32, I64, U64, I128, U128, Isize, Usize, Int, Int, Int, Int, Res, Res]);
    (kind, value()).prop_map(|(k, v)| Leaf::fit(k, v)).boxed()
}

fn good_leaf() -> BoxedStrategy<Leaf> {
    (prop::sample::select(vec![I32, I64, Int, Int, Res]), prop_oneof![3 => -100i128..100, 2 => -70000i128..70000, 1 => -MAX..=MAX]).prop_map(|(k, v)| Leaf(k, v)).boxed()
}

fn expr() -> BoxedStrategy<Expr> {
    prop_oneof![1 => leaf(), 5 => good_leaf()]
        .prop_map(Expr::Leaf)
        .prop_recursive(5, 32, 2, |inner| {
            prop_oneof![
                8 => (prop::sample::select(&BOPS[..]), inner.clone(), inner.clone()).prop_map(|(o, a, b)| Expr::Bin(o, a.into(), b.into())),
                1 => inner.clone().prop_map(|a| Expr::Neg(a.into())),
                1 => (any::<bool>(), inner, 0u32..40).prop_map(|(l, a, n)| Expr::Shift(l, a.into(), n)),
            ]
        })
        .boxed()
}

fn edges() -> Vec<i128> {
    let mut v = vec![];
    for k in 0..32 {
        for d in -1i128..=1 {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    v.extend([46340, 46341, -46340, -46341, 3, 5, 7, 10, -3, -5, -7, -10]);
    v.sort();
    v.dedup();
    v.retain(|x| in_range(*x));
    v
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("edges: all pairs of power-of-two neighbours in the script integer range, every operator and comparison; pairs: two operands of any of 14 operand types with values around the limits of each type, every operator, comparison and conversion; shifts: the neighbours shifted both ways by every amount up to 33 and some huge ones; trees: two expression trees up to depth 5, their values, error propagation and comparison, against unbounded integer arithmetic; non-trivial: every pair, and trees with at least one operator.");
    let e = edges();
    let all: Vec<Pair> = e.iter().flat_map(|a| e.iter().map(move |b| Pair(Leaf(Int, *a), Leaf(Int, *b)))).collect();
    ctx.enumerate("edges", all, check_pair);
    ctx.suite("pairs", 400_000, 6_000_000, || (leaf(), leaf()).prop_map(|(a, b)| Pair(a, b)), check_pair);
    ctx.suite("trees", 150_000, 3_000_000, || (expr(), expr()).prop_map(|(a, b)| Trees(a, b)), check_tree);
    let shifts: Vec<Trees> = e
        .iter()
        .flat_map(|a| {
            (0..34).chain([63, 64, 65, 0x8000_0000, u32::MAX]).flat_map(move |by| {
                [true, false].iter().map(move |left| {
                    let leaf = || Expr::Leaf(Leaf(Int, *a)).into();
                    Trees(Expr::Shift(*left, leaf(), by), Expr::Shift(!*left, leaf(), by))
                }).collect::<Vec<_>>()
            })
        })
        .collect();
    ctx.enumerate("shifts", shifts, check_tree);
    (json!({}), vec![])
}
