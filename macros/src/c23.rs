//! C23: derived struct encodings are the concatenation of their fields.
use crate::gen::Rng;
use crate::lab::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use std::fmt::Write;
use vh::refs;
use vh::runner::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum FTy {
    /// Size in bytes, signed.
    Int(usize, bool),
    Bool,
    Bytes,
    Script,
    /// 20 or 32 bytes.
    Hash(String, usize),
    Fixed(usize),
    List(Box<FTy>),
    Nested(usize),
    /// Types only skipped fields can have; index into SKIPPED.
    Other(usize),
}
use FTy::*;

/// Type, a value, its default.
const SKIPPED: &[(&str, &str)] = &[
    ("String", "\"kept\".to_string()"),
    ("Option<u8>", "Some(3)"),
    ("(u8, String)", "(1, \"x\".into())"),
    ("std::collections::BTreeMap<u8, u8>", "vec![(1, 2)].into_iter().collect()"),
    ("[u16; 3]", "[1, 2, 3]"),
    ("f64", "0.5"),
    ("Plain", "Plain { a: 1 }"),
    ("Vec<Plain>", "vec![Plain { a: 2 }]"),
    ("std::marker::PhantomData<Plain>", "std::marker::PhantomData"),
    ("()", "()"),
    ("char", "'c'"),
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Val {
    Int(String),
    Bool(bool),
    Bytes(Vec<u8>),
    List(Vec<Val>),
    Struct(Vec<Val>),
    /// A list of n equal values.
    Many(Box<Val>, usize),
    Other,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Field {
    name: String,
    ty: FTy,
    skip: bool,
    vis: usize,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Def {
    fields: Vec<Field>,
    alias: bool,
    style: usize,
}

/// Structs, each using those before it; the last one is the subject.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Case {
    defs: Vec<Def>,
    values: Vec<Val>,
    tail: Vec<u8>,
}

const NAMES: &[&str] = &[
    "data", "rest", "left", "right", "size", "parts", "value", "a", "b", "c", "x1", "byte_array", "len", "result", "item", "inner", "vec", "ser", "named", "index",
    "lock_time", "_hidden", "tx_hash", "script", "a_very_long_field_name_that_goes_on", "bitcoin_cash", "bch", "std", "default", "err", "Upper", "n", "cursor", "i", "tail", "capacity",
    "deser", "array", "bytes", "u8_", "leftover",
];

fn rust_type(t: &FTy, style: usize) -> String {
    match t {
        Int(n, s) => format!("{}{}", if *s { "i" } else { "u" }, n * 8),
        Bool => "bool".into(),
        Bytes => if style % 2 == 0 { "ByteArray".into() } else { "bitcoin_cash::ByteArray".into() },
        Script => "bitcoin_cash::Script".into(),
        Hash(n, _) => if style % 3 == 0 { n.clone() } else { format!("bitcoin_cash::{}", n) },
        Fixed(n) => format!("bitcoin_cash::FixedByteArrayLE<[u8; {}]>", n),
        List(t) => if style % 5 == 0 { format!("std::vec::Vec<{}>", rust_type(t, style)) } else { format!("Vec<{}>", rust_type(t, style)) },
        Nested(k) => format!("S{}", k),
        Other(k) => SKIPPED[*k].0.into(),
    }
}

fn literal(b: &[u8]) -> String {
    if b.len() > 40 && b.iter().all(|x| *x == b[0]) {
        return format!("vec![{}u8; {}]", b[0], b.len());
    }
    format!("vec![{}]", b.iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(", "))
}

fn rust_value(c: &Case, t: &FTy, v: &Val, default: bool) -> String {
    match (t, v) {
        (Int(n, s), Val::Int(x)) => format!("{}{}{}", x, if *s { "i" } else { "u" }, n * 8),
        (Bool, Val::Bool(b)) => b.to_string(),
        (Bytes, Val::Bytes(b)) => format!("ByteArray::new_unnamed({})", literal(b)),
        (Script, Val::Bytes(b)) => format!("bitcoin_cash::Script::deser_ops(ByteArray::new_unnamed({})).unwrap()", literal(b)),
        (Hash(n, _), Val::Bytes(b)) => format!("<bitcoin_cash::{} as Hashed>::from_slice(&{}).unwrap()", n, literal(b)),
        (Fixed(_), Val::Bytes(b)) => format!("bitcoin_cash::FixedByteArray::from_byte_array(ByteArray::new_unnamed({})).unwrap()", literal(b)),
        (List(t), Val::List(l)) => format!("vec![{}]", l.iter().map(|v| rust_value(c, t, v, default)).collect::<Vec<_>>().join(", ")),
        (List(t), Val::Many(v, n)) => format!("vec![{}; {}]", rust_value(c, t, v, default), n),
        (Nested(k), Val::Struct(l)) => {
            let fields = c.defs[*k].fields.iter().zip(l).map(|(f, v)| {
                format!("{}: {}", f.name, if f.skip && default { "Default::default()".into() } else { rust_value(c, &f.ty, v, default) })
            });
            format!("S{} {{ {} }}", k, fields.collect::<Vec<_>>().join(", "))
        }
        (Other(k), _) => SKIPPED[*k].1.into(),
        _ => unreachable!("{:?} {:?}", t, v),
    }
}

fn encode(c: &Case, t: &FTy, v: &Val) -> Vec<u8> {
    match (t, v) {
        (Int(n, s), Val::Int(x)) => {
            let b = if *s { x.parse::<i128>().unwrap().to_le_bytes() } else { x.parse::<u128>().unwrap().to_le_bytes() };
            b[..*n].to_vec()
        }
        (Bool, Val::Bool(b)) => vec![*b as u8],
        (Bytes, Val::Bytes(b)) | (Script, Val::Bytes(b)) => [refs::compact_size(b.len() as u64), b.clone()].concat(),
        (Hash(..), Val::Bytes(b)) | (Fixed(_), Val::Bytes(b)) => b.clone(),
        (List(t), Val::List(l)) => {
            let mut out = refs::compact_size(l.len() as u64);
            l.iter().for_each(|v| out.extend(encode(c, t, v)));
            out
        }
        (List(t), Val::Many(v, n)) => {
            let mut out = refs::compact_size(*n as u64);
            let one = encode(c, t, v);
            (0..*n).for_each(|_| out.extend(&one));
            out
        }
        (Nested(k), Val::Struct(l)) => c.defs[*k].fields.iter().zip(l).filter(|(f, _)| !f.skip).flat_map(|(f, v)| encode(c, &f.ty, v)).collect(),
        _ => unreachable!("{:?} {:?}", t, v),
    }
}

/// (start, length, name) of the fields of one undivided part.
fn leaves(c: &Case, k: usize, vals: &[Val], at: usize, rename: Option<&str>, out: &mut Vec<(usize, usize, String)>) {
    let mut pos = at;
    let live: Vec<(&Field, &Val)> = c.defs[k].fields.iter().zip(vals).filter(|(f, _)| !f.skip).collect();
    for (f, v) in &live {
        let len = encode(c, &f.ty, v).len();
        // A struct of one field is that field's part, under the name it is given further out.
        let name = match rename {
            Some(n) if live.len() == 1 => n,
            _ => &f.name,
        };
        match (&f.ty, v) {
            (Int(..), _) | (Bool, _) | (Hash(..), _) | (Fixed(_), _) => out.push((pos, len, name.to_string())),
            (Nested(j), Val::Struct(l)) => leaves(c, *j, l, pos, Some(name), out),
            _ => {}
        }
        pos += len;
    }
}

fn render(c: &Case, idx: usize) -> Module {
    let mut s = String::new();
    let _ = writeln!(s, "mod m{} {{", idx);
    let _ = writeln!(s, "    use bitcoin_cash::{{BitcoinCode, ByteArray, Hash160, Hashed, Ripemd160, Sha1, Sha256, Sha256d}};");
    let _ = writeln!(s, "    use bitcoin_cash as bch;");
    let _ = writeln!(s, "    #[derive(Clone, Debug, Default, PartialEq)]\n    pub struct Plain {{ pub a: u8 }}");
    for (k, d) in c.defs.iter().enumerate() {
        if d.style % 4 == 1 {
            let _ = writeln!(s, "    /// A documented struct.");
        }
        match d.style % 3 {
            0 => { let _ = writeln!(s, "    #[derive(BitcoinCode, Clone, Debug, PartialEq)]"); }
            1 => { let _ = writeln!(s, "    #[derive(Clone, Debug)]\n    #[derive(bitcoin_cash::BitcoinCode)]\n    #[derive(PartialEq)]"); }
            _ => { let _ = writeln!(s, "    #[derive(Clone, PartialEq, bitcoin_cash::BitcoinCode, Debug)]"); }
        }
        if d.alias {
            let _ = writeln!(s, "    #[bitcoin_code(crate = \"bch\")]");
        }
        if d.style % 4 == 2 {
            let _ = writeln!(s, "    #[allow(dead_code)]");
        }
        let _ = writeln!(s, "    {}struct S{} {{", ["pub ", "", "pub(crate) "][d.style % 3], k);
        for (i, f) in d.fields.iter().enumerate() {
            if f.skip {
                let _ = writeln!(s, "        #[bitcoin_code(skip)]");
            }
            let comma = if i + 1 == d.fields.len() && d.style % 2 == 0 { "" } else { "," };
            let _ = writeln!(s, "        {}{}: {}{}", ["", "pub ", "pub(crate) "][f.vis % 3], f.name, rust_type(&f.ty, d.style + i), comma);
        }
        let _ = writeln!(s, "    }}");
    }
    let main = c.defs.len() - 1;
    let t = Nested(main);
    let _ = writeln!(s, "    pub fn run(out: &mut String) {{");
    for v in &c.values {
        let _ = writeln!(s, "        one(out, {}, {});", rust_value(c, &t, v, false), rust_value(c, &t, v, true));
    }
    let _ = writeln!(s, "    }}");
    s.push_str(
        r#"    fn nodes(b: &ByteArray, at: usize, o: &mut String) {
        o.push_str(&format!("{},{},{};", at, b.len(), b.name().map_or("-".to_string(), |n| format!("_{}", crate::hex(n.as_bytes())))));
        if b.function() == bitcoin_cash::Function::Plain {
            let mut at = at;
            for p in b.preimage().unwrap_or(&[]) {
                nodes(p, at, o);
                at += p.len();
            }
        }
    }
"#,
    );
    let _ = writeln!(
        s,
        r#"    fn one(out: &mut String, v: S{k}, back: S{k}) {{
        let e = v.ser();
        let mut n = String::new();
        nodes(&e, 0, &mut n);
        out.push_str(&format!("X {i} E _{{}}\nX {i} N {{}}\n", crate::hex(&e), n));
        let whole = match S{k}::deser(e.clone()) {{ Ok(w) => w == back, Err(_) => false }};
        out.push_str(&format!("X {i} W {{}}\n", whole));
        let tail: Vec<u8> = {tail};
        let mut long = e.to_vec();
        long.extend(&tail);
        let rest = match S{k}::deser_rest(ByteArray::new_unnamed(long.clone())) {{ Ok((w, r)) => w == back && r.to_vec() == tail, Err(_) => false }};
        let strict = S{k}::deser(ByteArray::new_unnamed(long)).is_err();
        out.push_str(&format!("X {i} R {{}} {{}}\n", rest, strict));
        let cuts: Vec<usize> = (0..e.len()).filter(|c| e.len() < 300 || c % 17 == 0 || c + 40 > e.len() || *c < 40).collect();
        for c in cuts {{
            if S{k}::deser_rest(ByteArray::new_unnamed(&e[..c])).is_ok() {{ out.push_str(&format!("X {i} P {{}}\n", c)); break; }}
        }}
    }}
}}"#,
        k = main,
        i = idx,
        tail = format!("vec![{}]", c.tail.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ")),
    );
    Module { lines: s.lines().count(), text: s }
}

fn judge(c: &Case, r: &Report) -> Result<(), String> {
    if let Some(e) = r.errors.first() {
        return Err(format!("a struct of supported fields does not compile: {}", truncate(e, 400)));
    }
    if r.panicked {
        return Err("encoding or decoding panics".into());
    }
    let main = c.defs.len() - 1;
    let mut lines = r.text.iter().peekable();
    for v in &c.values {
        let want = encode(c, &Nested(main), v);
        let mut next = |tag: &str| -> Result<String, String> {
            let l = lines.next().ok_or("nothing reported")?;
            l.strip_prefix(tag).map(|x| x.trim().to_string()).ok_or(format!("unexpected report {}", l))
        };
        let e = hex::decode(&next("E ")?[1..]).map_err(|e| e.to_string())?;
        if e != want {
            return Err(format!("the encoding is {}, the fields' encodings in order are {}", hex::encode(&e), hex::encode(&want)));
        }
        let nodes: Vec<(usize, usize, Option<String>)> = next("N ")?
            .split(';')
            .filter(|x| !x.is_empty())
            .map(|x| {
                let p: Vec<&str> = x.split(',').collect();
                (p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].strip_prefix('_').map(|h| String::from_utf8(hex::decode(h).unwrap()).unwrap()))
            })
            .collect();
        if let Val::Struct(l) = v {
            let mut expected = Vec::new();
            leaves(c, main, l, 0, None, &mut expected);
            for (at, len, name) in expected {
                if !nodes.iter().any(|n| n.0 == at && n.1 == len && n.2.as_deref() == Some(&name)) {
                    return Err(format!("no part of the encoding is named `{}` at {}..{}: {:?}", name, at, at + len, nodes));
                }
            }
        }
        if next("W ")? != "true" {
            return Err(format!("decoding the encoding {} does not return the value with its skipped fields at their defaults", hex::encode(&want)));
        }
        let r = next("R ")?;
        if !r.starts_with("true") {
            return Err("decoding with bytes behind does not return the value and those bytes".into());
        }
        if !c.tail.is_empty() && !r.ends_with("true") {
            return Err("decoding all of an encoding with bytes behind succeeds".into());
        }
        if lines.peek().map_or(false, |l| l.starts_with("P ")) {
            return Err(format!("decoding succeeds on the first {} bytes only of {}", &lines.next().unwrap()[2..], hex::encode(&want)));
        }
    }
    Ok(())
}

fn field_type(rng: &mut Rng, defs: usize, depth: usize) -> FTy {
    match rng.below(15) {
        0..=4 => Int(*rng.pick(&[1, 1, 2, 4, 8, 16]), rng.chance(50)),
        5 => Bool,
        6 | 7 => Bytes,
        8 => Script,
        9 => {
            let (n, l) = *rng.pick(&[("Sha1", 20), ("Ripemd160", 20), ("Hash160", 20), ("Sha256", 32), ("Sha256d", 32)]);
            Hash(n.into(), l)
        }
        10 => Fixed(*rng.pick(&[1, 2, 4, 5, 31])),
        11 | 12 if depth < 2 => List(Box::new(field_type(rng, defs, depth + 1))),
        _ if defs > 0 => Nested(rng.below(defs)),
        _ => Int(4, false),
    }
}

fn value(rng: &mut Rng, c: &Case, t: &FTy, depth: usize) -> Val {
    match t {
        Int(n, s) => {
            let raw = ((rng.next() as u128) << 64 | rng.next() as u128) >> (128 - 8 * n);
            let max = u128::MAX >> (128 - 8 * n);
            let raw = match rng.below(6) {
                0 => 0,
                1 => max,
                2 => max / 2,
                3 => max / 2 + 1,
                4 => rng.below(256) as u128,
                _ => raw,
            };
            Val::Int(if *s { (((raw << (128 - 8 * n)) as i128) >> (128 - 8 * n)).to_string() } else { raw.to_string() })
        }
        Bool => Val::Bool(rng.chance(50)),
        Bytes => {
            let n = match rng.below(12) {
                0 => *rng.pick(&[252, 253, 254, 255, 256, 300, 65535, 65536]),
                1 | 2 => 0,
                _ => rng.below(12),
            };
            if n > 20 { Val::Bytes(vec![rng.below(256) as u8; n]) } else { Val::Bytes((0..n).map(|_| rng.below(256) as u8).collect()) }
        }
        Script => {
            let mut b = Vec::new();
            for _ in 0..rng.below(6) {
                if rng.chance(50) {
                    let n = 2 + rng.below(6);
                    let d: Vec<u8> = (0..n).map(|_| rng.below(256) as u8).collect();
                    b.extend(refs::push_minimal(&d));
                } else {
                    b.push(*rng.pick(&[0x76, 0xa9, 0x87, 0x88, 0xac, 0x6a, 0x51, 0x00, 0x60]));
                }
            }
            Val::Bytes(b)
        }
        Hash(_, n) | Fixed(n) => {
            let n = *n;
            if rng.chance(20) { Val::Bytes(vec![*rng.pick(&[0, 255]); n]) } else { Val::Bytes((0..n).map(|_| rng.below(256) as u8).collect()) }
        }
        List(t) => {
            let big = matches!(**t, Int(..) | Bool | Fixed(_)) && depth < 2 && rng.chance(10);
            if big {
                let v = value(rng, c, t, depth + 1);
                return Val::Many(Box::new(v), *rng.pick(&[252, 253, 256, 1000]));
            }
            let n = if depth > 2 { rng.below(2) } else { rng.below(4) };
            Val::List((0..n).map(|_| value(rng, c, t, depth + 1)).collect())
        }
        Nested(k) => Val::Struct(c.defs[*k].fields.iter().map(|f| value(rng, c, &f.ty, depth + 1)).collect()),
        Other(_) => Val::Other,
    }
}

/// A list of items without an encoding could not be decoded from a prefix, or at all.
fn sizeless(defs: &[Def], t: &FTy) -> bool {
    match t {
        Nested(k) => defs[*k].fields.iter().all(|f| f.skip || sizeless(defs, &f.ty)),
        List(t) => sizeless(defs, t),
        _ => false,
    }
}

fn bad_list(defs: &[Def], t: &FTy) -> bool {
    match t {
        List(t) => sizeless(defs, t) || bad_list(defs, t),
        _ => false,
    }
}

fn generate(rng: &mut Rng) -> Case {
    let mut c = Case { defs: vec![], values: vec![], tail: vec![] };
    for k in 0..1 + rng.below(3) {
        let n = match rng.below(10) {
            0 => 0,
            1 => 1,
            2 => 10 + rng.below(20),
            _ => 1 + rng.below(7),
        };
        let mut fields: Vec<Field> = Vec::new();
        while fields.len() < n {
            let name = rng.pick(NAMES).to_string();
            if fields.iter().any(|f| f.name == name) {
                continue;
            }
            let skip = rng.chance(22);
            let mut ty = if skip && rng.chance(60) { Other(rng.below(SKIPPED.len())) } else { field_type(rng, k, 0) };
            while skip && no_default(&ty) {
                ty = field_type(rng, 0, 0);
            }
            if bad_list(&c.defs, &ty) {
                continue;
            }
            fields.push(Field { name, ty, skip, vis: rng.below(3) });
        }
        c.defs.push(Def { fields, alias: rng.chance(30), style: rng.below(60) });
    }
    let t = Nested(c.defs.len() - 1);
    for _ in 0..5 {
        let v = value(rng, &c, &t, 0);
        c.values.push(v);
    }
    c.tail = (0..rng.below(6)).map(|_| rng.below(256) as u8).collect();
    c
}

fn no_default(t: &FTy) -> bool {
    matches!(t, Nested(_) | Script)
}

fn simpler(c: &Case) -> Vec<Case> {
    let mut out = Vec::new();
    if c.values.len() > 1 {
        for v in &c.values {
            out.push(Case { values: vec![v.clone()], ..c.clone() });
        }
    }
    if !c.tail.is_empty() {
        out.push(Case { tail: vec![7], ..c.clone() });
    }
    // A struct nothing uses any more.
    if c.defs.len() > 1 {
        let uses = |t: &FTy, k: usize| {
            fn go(t: &FTy, k: usize) -> bool {
                match t {
                    Nested(j) => *j == k,
                    List(t) => go(t, k),
                    _ => false,
                }
            }
            go(t, k)
        };
        if !c.defs.iter().any(|d| d.fields.iter().any(|f| (0..c.defs.len()).any(|k| uses(&f.ty, k)))) {
            out.push(Case { defs: vec![c.defs.last().unwrap().clone()], ..c.clone() });
        }
    }
    let main = c.defs.len() - 1;
    for i in 0..c.defs[main].fields.len() {
        let mut d = c.clone();
        d.defs[main].fields.remove(i);
        for v in &mut d.values {
            if let Val::Struct(l) = v {
                l.remove(i);
            }
        }
        out.push(d);
    }
    for i in 0..c.defs[main].fields.len() {
        let f = &c.defs[main].fields[i];
        if f.ty != Int(1, false) && !f.skip {
            let mut d = c.clone();
            d.defs[main].fields[i].ty = Int(1, false);
            for v in &mut d.values {
                if let Val::Struct(l) = v {
                    l[i] = Val::Int((i + 1).to_string());
                }
            }
            out.push(d);
        }
        if f.name.len() > 1 && !c.defs[main].fields.iter().any(|g| g.name == format!("f{}", i)) {
            let mut d = c.clone();
            d.defs[main].fields[i].name = format!("f{}", i);
            out.push(d);
        }
    }
    let d = &c.defs[main];
    if d.alias || d.style != 0 {
        let mut e = c.clone();
        e.defs[main].alias = false;
        e.defs[main].style = 0;
        out.push(e);
    }
    out
}

fn evaluate(lab: &Lab, cases: &[Case], per_file: usize) -> Vec<Result<(), String>> {
    let mods: Vec<Module> = cases.iter().enumerate().map(|(i, c)| render(c, i)).collect();
    let reports = lab.execute(&mods, per_file);
    cases.iter().zip(&reports).map(|(c, r)| judge(c, r)).collect()
}

fn shrink(lab: &Lab, c: &Case) -> Case {
    let mut cur = c.clone();
    let start = std::time::Instant::now();
    'outer: while start.elapsed().as_secs() < vh::runner::shrink_seconds(90) {
        let cands = simpler(&cur);
        for batch in cands.chunks(24) {
            let r = evaluate(lab, batch, 3);
            if let Some(k) = r.iter().position(|x| x.is_err()) {
                cur = batch[k].clone();
                continue 'outer;
            }
        }
        break;
    }
    cur
}

/// Text of a struct that has to be rejected, with what is wrong with it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    what: String,
    text: String,
    /// The same without what is wrong.
    good: String,
}

fn bad(seed: u64, n: usize) -> Vec<Bad> {
    let mut out = Vec::new();
    let mut rng = Rng(seed ^ 0x2323 << 16);
    let prim = ["u8", "u32", "bool", "ByteArray", "Vec<u16>", "Sha256"];
    for k in 0..n {
        let fields: Vec<(String, String)> = (0..1 + rng.below(4)).map(|i| (format!("{}{}", rng.pick(NAMES).to_lowercase(), i), rng.pick(&prim).to_string())).collect();
        let plain = |at: usize, attr: &str| {
            fields.iter().enumerate().map(|(i, (n, t))| format!("{}{}: {}", if i == at { attr } else { "" }, n, t)).collect::<Vec<_>>().join(", ")
        };
        let types = fields.iter().map(|f| f.1.clone()).collect::<Vec<_>>().join(", ");
        let at = rng.below(fields.len());
        let field_attrs = [
            "#[bitcoin_code(foo)] ", "#[bitcoin_code] ", "#[bitcoin_code = \"skip\"] ", "#[bitcoin_code(skip, skip)] ", "#[bitcoin_code(Skip)] ", "#[bitcoin_code(skip = \"true\")] ",
            "#[bitcoin_code(\"skip\")] ", "#[bitcoin_code(skipped)] ", "#[bitcoin_code()] ", "#[bitcoin_code(skip(all))] ", "#[bitcoin_code(skip, foo)] ", "#[bitcoin_code(foo, skip)] ", "#[bitcoin_code(crate = \"bitcoin_cash\")] ",
        ];
        let struct_attrs = ["#[bitcoin_code(foo = \"x\")] ", "#[bitcoin_code(skip)] ", "#[bitcoin_code(\"crate\")] ", "#[bitcoin_code(crate = 5)] ", "#[bitcoin_code(crates = \"bitcoin_cash\")] ", "#[bitcoin_code(crate(x))] ", "#[bitcoin_code(crate = \"bitcoin_cash\", other = \"x\")] "];
        let kinds = 5 + field_attrs.len() + struct_attrs.len();
        let good = format!("#[derive(BitcoinCode)] pub struct S {{ {} }}", plain(99, ""));
        let (what, text) = match k % kinds {
            0 => ("a tuple struct".into(), format!("#[derive(BitcoinCode)] pub struct S({});", types)),
            1 => ("a unit struct".into(), "#[derive(BitcoinCode)] pub struct S;".to_string()),
            2 => ("an enum".into(), format!("#[derive(BitcoinCode)] pub enum S {{ A {{ {} }}, B }}", plain(99, ""))),
            3 => ("a union".into(), "#[derive(BitcoinCode)] pub union S { a: u8, b: u8 }".to_string()),
            4 => ("a field without an encoding".into(), format!("#[derive(BitcoinCode)] pub struct S {{ {}, last: std::time::Duration }}", plain(99, ""))),
            i if i < 5 + field_attrs.len() => (format!("a field with {}", field_attrs[i - 5].trim()), format!("#[derive(BitcoinCode)] pub struct S {{ {} }}", plain(at, field_attrs[i - 5]))),
            i => {
                let a = struct_attrs[i - 5 - field_attrs.len()];
                (format!("a struct with {}", a.trim()), format!("#[derive(BitcoinCode)] {}pub struct S {{ {} }}", a, plain(99, "")))
            }
        };
        out.push(Bad { what, text, good });
    }
    out
}

fn bad_module(text: &str, idx: usize) -> Module {
    let text = format!("mod m{} {{\n    use bitcoin_cash::{{BitcoinCode, ByteArray, Sha256}};\n    {}\n}}\n", idx, text);
    Module { lines: text.lines().count(), text }
}

fn key<T: Serialize>(t: &T) -> String {
    serde_json::to_string(t).unwrap()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("structs: a case is a generated struct with five values, compiled with the real derive, encoded and decoded, and compared with the check's own encoder. Non-trivial: three or more encoded fields. rejected: a struct that must not compile, beside the same without what is wrong, which must; all non-trivial.");
    let lab = Lab::new(&ctx.root);
    let n = ctx.cases(2000, 20000) as usize;
    let cases: Vec<Case> = if ctx.is_replay() {
        vec![]
    } else {
        (0..n)
            .map(|k| {
                let mut rng = Rng(ctx.seed.wrapping_mul(0x1000003) ^ (23 << 50) ^ ((k as u64) << 20));
                rng.next();
                generate(&mut rng)
            })
            .collect()
    };
    let results = evaluate(&lab, &cases, 25);
    let mut map: HashMap<String, Result<(), String>> = HashMap::new();
    let mut kept = Vec::new();
    let mut failed = false;
    for (c, r) in cases.into_iter().zip(results) {
        let (mut c, mut r) = (c, r);
        if r.is_err() {
            if failed {
                continue;
            }
            failed = true;
            c = shrink(&lab, &c);
            r = evaluate(&lab, &[c.clone()], 1).remove(0);
        }
        map.insert(key(&c), r);
        kept.push(c);
    }
    ctx.enumerate("structs", kept, |c: &Case, obs| {
        let d = c.defs.last().unwrap();
        let live = d.fields.iter().filter(|f| !f.skip).count();
        obs.nontrivial(live >= 3);
        obs.class_if(d.fields.iter().any(|f| f.skip), "skipped fields");
        obs.class_if(d.fields.iter().any(|f| f.skip && matches!(f.ty, Other(_))), "skipped fields without an encoding");
        obs.class_if(d.fields.iter().position(|f| f.skip).map_or(false, |i| d.fields[i..].iter().any(|f| !f.skip)), "a field after a skipped one");
        obs.class_if(d.fields.iter().any(|f| matches!(f.ty, Nested(_))), "nested structs");
        obs.class_if(d.fields.iter().any(|f| matches!(f.ty, List(_))), "lists");
        obs.class_if(d.alias, "crate under another name");
        obs.class_if(live == 0, "nothing encoded");
        obs.class_if(live == 1, "one field encoded");
        obs.class_if(live > 9, "ten or more fields");
        let r = match map.get(&key(c)) {
            Some(r) => r.clone(),
            None => evaluate(&lab, &[c.clone()], 1).remove(0),
        };
        r.map_err(|m| format!("{}\n{}", m, truncate(&render(c, 0).text, 6000)))
    });

    let list = if ctx.is_replay() { vec![] } else { bad(ctx.seed, ctx.cases(600, 4000) as usize) };
    // Errors of the derive hide those of the types.
    let typed = |b: &Bad| b.what.contains("without an encoding");
    let mut verdicts: HashMap<String, (Option<String>, Option<String>)> = HashMap::new();
    for kind in [false, true] {
        let group: Vec<&Bad> = list.iter().filter(|b| typed(b) == kind).collect();
        let mods: Vec<Module> = group.iter().enumerate().map(|(i, b)| bad_module(&b.text, i)).collect();
        let goods: Vec<Module> = group.iter().enumerate().map(|(i, b)| bad_module(&b.good, i)).collect();
        for ((b, r), g) in group.iter().zip(lab.reject(&mods, 40)).zip(lab.reject(&goods, 40)) {
            verdicts.insert(key(*b), (r, g));
        }
    }
    ctx.enumerate("rejected", list, |b: &Bad, obs| {
        obs.nontrivial(true);
        obs.class(if b.what.starts_with("a field with ") { "unknown field attribute" } else if b.what.starts_with("a struct with ") { "unknown struct attribute" } else { "unsupported shape" });
        let (r, g) = match verdicts.get(&key(b)) {
            Some(v) => v.clone(),
            None => (lab.reject(&[bad_module(&b.text, 0)], 1).remove(0), lab.reject(&[bad_module(&b.good, 0)], 1).remove(0)),
        };
        if r.is_none() {
            return Err(format!("{} is accepted: {}", b.what, b.text));
        }
        match g {
            Some(m) => Err(format!("a struct of supported fields does not compile: {}: {}", truncate(&m, 300), b.good)),
            None => Ok(()),
        }
    });
    (json!({}), vec![
        "rustc of the sandbox expands and compiles the generated structs faithfully",
        "fields are of the types that have an encoding in the crate, and list items take up at least one byte",
    ])
}
