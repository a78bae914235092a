//! C21: the script macro rejects scripts that misuse the stack.
use crate::c20;
use crate::gen::{self, Rng};
use crate::lab::*;
use crate::prog::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use vh::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    original: Program,
    mutant: Program,
}

/// What misuse a program contains; None when there is none or it is not decided.
fn misuse(p: &Program) -> Option<&'static str> {
    match simulate(p) {
        Err(Why::Macro(m)) => Some(m),
        Err(Why::Type(m)) => Some(m),
        _ => None,
    }
}

fn by_types(p: &Program) -> bool {
    matches!(simulate(p), Err(Why::Type(_)))
}

fn module(p: &Program) -> Module {
    let r = p.render(0, false);
    Module { text: r.text, lines: r.lines }
}

/// Modules get the names of their places in the group.
fn modules(list: &[&Program]) -> Vec<Module> {
    list.iter()
        .enumerate()
        .map(|(i, p)| {
            let r = p.render(i, false);
            Module { text: r.text, lines: r.lines }
        })
        .collect()
}

/// Whether the compiler rejects each. Errors of the macro hide those of the types, so the two kinds
/// are compiled apart.
fn rejected(lab: &Lab, progs: &[Program], per_file: usize) -> Vec<Option<String>> {
    let mut out = vec![None; progs.len()];
    for kind in [false, true] {
        let idx: Vec<usize> = (0..progs.len()).filter(|&i| by_types(&progs[i]) == kind).collect();
        let list: Vec<&Program> = idx.iter().map(|&i| &progs[i]).collect();
        for (i, r) in idx.into_iter().zip(lab.reject(&modules(&list), per_file)) {
            out[i] = r;
        }
    }
    out
}

fn key<T: Serialize>(t: &T) -> String {
    serde_json::to_string(t).unwrap()
}

/// Programs with one misuse each, spread over the kinds of misuse, and accepted ones.
fn generate(seed: u64, n: usize) -> (Vec<Pair>, Vec<Program>) {
    let mut pairs = Vec::new();
    let mut valid = Vec::new();
    let mut counts: HashMap<&'static str, usize> = HashMap::new();
    let cap = n / 6;
    let mut salt = 2100;
    while pairs.len() < n && salt < 2200 {
        salt += 1;
        for p in c20::programs(seed, salt, n / 8) {
            let mut rng = Rng(seed ^ (salt << 32) ^ (pairs.len() as u64) << 8 ^ valid.len() as u64);
            rng.next();
            let mut used = false;
            for _ in 0..12 {
                let q = gen::mutate(&mut rng, &p);
                if q == p {
                    continue;
                }
                match simulate(&q) {
                    Ok(e) if !e.is_empty() && valid.len() < n / 4 => valid.push(q),
                    Err(Why::Macro(m)) | Err(Why::Type(m)) => {
                        let c = counts.entry(m).or_default();
                        if *c < cap && pairs.len() < n {
                            *c += 1;
                            used = true;
                            pairs.push(Pair { original: p.clone(), mutant: q });
                        }
                    }
                    _ => {}
                }
            }
            if used && valid.len() < n / 3 {
                valid.push(p);
            }
        }
    }
    (pairs, valid)
}

/// Every operation on a stack that suits it, and with each single misuse of it.
fn table() -> (Vec<Pair>, Vec<Program>) {
    let (mut pairs, mut valid) = (Vec::new(), Vec::new());
    let program = |stmts: Vec<Stmt>| Program {
        params: vec![],
        by_ref: true,
        variants: vec![],
        inputs: vec![],
        stmts,
        debug: None,
        alias: false,
        style: 0,
        args: vec![],
    };
    let value = |t: usize| match t {
        0 => Value::Int(5),
        1 => Value::Bool(true),
        _ => Value::Bytes(vec![b'q']),
    };
    let mut add = |base: Vec<Stmt>, changed: Vec<Vec<Stmt>>| {
        let p = program(base);
        if !simulate(&p).map_or(false, |e| !e.is_empty()) {
            return;
        }
        for q in changed {
            let q = program(q);
            if misuse(&q).is_some() {
                pairs.push(Pair { original: p.clone(), mutant: q });
            } else if simulate(&q).map_or(false, |e| !e.is_empty()) {
                valid.push(q);
            }
        }
        valid.push(p);
    };
    let edits = |ins: &Vec<String>, outs: &Vec<String>| -> Vec<(Option<Vec<String>>, Option<Vec<String>>)> {
        let mut l = Vec::new();
        for i in 0..ins.len() {
            let mut x = ins.clone();
            x[i] = "other".into();
            l.push((Some(x), Some(outs.clone())));
            let mut x = ins.clone();
            x.swap(i, 0);
            l.push((Some(x), Some(outs.clone())));
            let mut x = ins.clone();
            x.remove(i);
            l.push((Some(x), Some(outs.clone())));
            let mut x = ins.clone();
            x[i] = "__".into();
            l.push((Some(x), Some(outs.clone())));
        }
        let mut x = ins.clone();
        x.push("i0".into());
        l.push((Some(x), Some(outs.clone())));
        for i in 0..outs.len() {
            let mut x = outs.clone();
            x.remove(i);
            l.push((Some(ins.clone()), Some(x)));
            let mut x = outs.clone();
            x[i] = "__".into();
            l.push((None, Some(x)));
        }
        let mut x = outs.clone();
        x.push("more".into());
        l.push((None, Some(x)));
        l.push((None, None));
        l
    };
    let names = |c: char, n: usize| -> Vec<String> { (0..n).map(|i| format!("{}{}", c, i)).collect() };
    for op in all_ops() {
        let info = op_info(op).unwrap();
        let n = info.ins.len();
        let (ins, outs) = (names('i', n), names('o', info.outs.len()));
        let types: Vec<usize> = info.ins.bytes().map(|c| match c { b'n' => 0, b'b' => 1, _ => 2 }).collect();
        let make = |types: &[usize], skip: usize, ins: Option<Vec<String>>, outs: Option<Vec<String>>| -> Vec<Stmt> {
            let mut l: Vec<Stmt> = types.iter().enumerate().skip(skip).map(|(i, t)| Stmt::Push { expr: Expr::Lit(value(*t)), out: Some(format!("i{}", i)) }).collect();
            l.push(Stmt::Op { op: op.to_string(), ins, outs: outs.filter(|o| !o.is_empty()) });
            l
        };
        let mut changed = Vec::new();
        for i in 0..n {
            for t in 0..3 {
                let mut x = types.clone();
                x[i] = t;
                changed.push(make(&x, 0, Some(ins.clone()), Some(outs.clone())));
            }
        }
        for skip in 1..=n {
            changed.push(make(&types, skip, None, None));
        }
        for (a, b) in edits(&ins, &outs) {
            changed.push(make(&types, 0, a, b));
        }
        add(make(&types, 0, Some(ins.clone()), Some(outs.clone())), changed);
    }
    // Moves: between the stacks, and out of the depth.
    for (op, alt) in [("OP_TOALTSTACK", false), ("OP_FROMALTSTACK", true)] {
        let make = |present: bool, ins, outs| {
            let mut l = vec![Stmt::Push { expr: Expr::Lit(value(0)), out: Some("x".into()) }];
            if present {
                l.push(Stmt::Push { expr: Expr::Lit(value(2)), out: Some("i0".into()) });
                if alt {
                    l.push(Stmt::Op { op: "OP_TOALTSTACK".into(), ins: None, outs: None });
                }
            } else if !alt {
                l.clear();
            }
            l.push(Stmt::Op { op: op.into(), ins, outs });
            l
        };
        let (i, o) = (names('i', 1), names('o', 1));
        let mut changed: Vec<Vec<Stmt>> = edits(&i, &o).into_iter().map(|(a, b)| make(true, a, b)).collect();
        changed.push(make(false, None, None));
        add(make(true, Some(i), Some(o)), changed);
    }
    for op in ["OP_PICK", "OP_ROLL"] {
        for depth in 0..4 {
            let make = |of: &str, n: usize, ins, outs| {
                let mut l: Vec<Stmt> = (0..n).map(|i| Stmt::Push { expr: Expr::Lit(value(i % 3)), out: Some(format!("x{}", i)) }).collect();
                l.push(Stmt::DepthOf { name: of.into(), out: Some("i0".into()), offset: None });
                l.push(Stmt::Op { op: op.into(), ins, outs });
                l
            };
            let (i, o) = (names('i', 1), names('o', 1));
            let of = format!("x{}", depth);
            let mut changed: Vec<Vec<Stmt>> = edits(&i, &o).into_iter().map(|(a, b)| make(&of, 4, a, b)).collect();
            changed.push(make("x4", 4, None, None));
            changed.push(make(&of, depth, None, None));
            // One item fewer once the depth is known.
            let mut l = make(&of, 4, None, None);
            for _ in 0..2 {
                l.insert(4, Stmt::Op { op: "OP_DROP".into(), ins: None, outs: None });
            }
            changed.push(l);
            add(make(&of, 4, Some(i), Some(o)), changed);
        }
    }
    // Names for one value, in another number.
    let wrong = ["()", "(a, b)", "(a, b, c)"];
    let base = |last: Stmt| {
        let mut l: Vec<Stmt> = (0..2).map(|i| Stmt::Push { expr: Expr::Lit(value(2 * i)), out: Some(format!("i{}", i)) }).collect();
        l.push(last);
        l
    };
    for t in 0..3 {
        let make = |out: &str| base(Stmt::Push { expr: Expr::Lit(value(t)), out: Some(out.into()) });
        add(make("a"), wrong.iter().map(|o| make(o)).collect());
    }
    for name in ["i0", "i1"] {
        for offset in [None, Some(0), Some(1), Some(-1)] {
            let make = |out: &str| base(Stmt::DepthOf { name: name.into(), out: Some(out.into()), offset });
            add(make("a"), wrong.iter().map(|o| make(o)).collect());
        }
    }
    for (name, ty) in [("i0", RTy::Bool), ("i0", RTy::I32), ("i1", RTy::Vec)] {
        let original = Stmt::Transmute { name: name.into(), ty, out: true };
        let text = stmt_text(&original).split_once("= ").unwrap().1.to_string();
        let make = |out: &[&str]| base(Stmt::Op { op: text.clone(), ins: None, outs: Some(out.iter().map(|o| o.to_string()).collect()) });
        add(base(original.clone()), vec![make(&[]), make(&[name, "b"]), make(&["a", name]), make(&["a"]), make(&["a", "b", "c"])]);
    }
    // Conditionals.
    let cond = |l: &[&str]| -> Vec<Stmt> {
        let mut v = vec![Stmt::Push { expr: Expr::Lit(value(1)), out: Some("c".into()) }];
        v.extend(l.iter().map(|o| match *o {
            "if" => Stmt::Op { op: "OP_IF".into(), ins: Some(vec!["c".into()]), outs: None },
            "other" => Stmt::Op { op: "OP_IF".into(), ins: Some(vec!["d".into()]), outs: None },
            "bare" => Stmt::Op { op: "OP_IF".into(), ins: None, outs: None },
            "two" => Stmt::Op { op: "OP_IF".into(), ins: Some(vec!["d".into(), "c".into()]), outs: None },
            "push" => Stmt::Push { expr: Expr::Lit(value(1)), out: Some("c".into()) },
            "block" => Stmt::Block(vec![Stmt::Op { op: "OP_ELSE".into(), ins: None, outs: None }]),
            "blockend" => Stmt::Block(vec![Stmt::Op { op: "OP_ENDIF".into(), ins: None, outs: None }]),
            o => Stmt::Op { op: format!("OP_{}", o.to_uppercase()), ins: None, outs: None },
        }));
        v
    };
    let base = ["if", "push", "if", "nop", "else", "nop", "endif", "else", "push", "drop", "endif"];
    let mut changed = Vec::new();
    for i in 0..base.len() {
        let mut l = base.to_vec();
        l.remove(i);
        changed.push(cond(&l));
        for new in ["if", "else", "endif", "other", "bare", "two", "block", "blockend"] {
            let mut l = base.to_vec();
            l.insert(i, new);
            changed.push(cond(&l));
            let mut l = base.to_vec();
            l[i] = new;
            changed.push(cond(&l));
        }
    }
    changed.push(cond(&["if", "if"]));
    changed.push(cond(&["endif"]));
    changed.push(cond(&["else"]));
    add(cond(&base), changed);
    (pairs, valid)
}

/// Scripts whose variants leave different branches with different items, then used: at each place of
/// an operation's inputs another name, no name, a swapped or a missing item, in two or three variants.
fn disagreements() -> (Vec<Pair>, Vec<Program>, Vec<Program>) {
    let (mut pairs, mut valid) = (Vec::new(), Vec::new());
    let value = |c: u8| match c {
        b'n' => Value::Int(5),
        b'b' => Value::Bool(true),
        _ => Value::Bytes(vec![b'q']),
    };
    let push = |c: u8, name: Option<&str>| Stmt::Push { expr: Expr::Lit(value(c)), out: name.map(|n| n.to_string()) };
    let op = |name: &str| Stmt::Op { op: name.into(), ins: None, outs: None };
    let program = |shape: usize, parts: &[Vec<Stmt>], tail: &[Stmt]| {
        let atom = |n: &str, v: bool| (n.to_string(), v);
        let mut stmts = Vec::new();
        let cond = |n: &str| Stmt::Op { op: "OP_IF".into(), ins: Some(vec![n.to_string()]), outs: None };
        let variants;
        let names: &[&str];
        if shape == 2 {
            names = &["c0"];
            variants = vec![vec![vec![atom("c0", true)]], vec![vec![atom("c0", false)]]];
            stmts.push(cond("c0"));
            stmts.extend(parts[0].iter().cloned());
            stmts.push(op("OP_ELSE"));
            stmts.extend(parts[1].iter().cloned());
            stmts.push(op("OP_ENDIF"));
        } else {
            // The second condition is reached in the second branch only.
            names = &["c1", "c0"];
            variants = vec![
                vec![vec![atom("c0", true)]],
                vec![vec![atom("c0", false), atom("c1", true)]],
                vec![vec![atom("c0", false), atom("c1", false)]],
            ];
            stmts.push(cond("c0"));
            stmts.push(Stmt::Op { op: "OP_DROP".into(), ins: Some(vec!["c1".into()]), outs: None });
            stmts.extend(parts[0].iter().cloned());
            stmts.push(op("OP_ELSE"));
            stmts.push(cond("c1"));
            stmts.extend(parts[1].iter().cloned());
            stmts.push(op("OP_ELSE"));
            stmts.extend(parts[2].iter().cloned());
            stmts.push(op("OP_ENDIF"));
            stmts.push(op("OP_ENDIF"));
        }
        stmts.extend(tail.iter().cloned());
        Program {
            params: vec![],
            by_ref: true,
            variants: variants.into_iter().enumerate().map(|(i, predicate)| Variant { name: format!("V{}", i), predicate }).collect(),
            inputs: names.iter().map(|n| Input { name: n.to_string(), ty: RTy::Bool, variants: None }).collect(),
            stmts,
            debug: None,
            alias: false,
            style: 0,
            args: vec![],
        }
    };
    // (types of the items left by the branches, whether on the other stack, what uses them)
    let mut uses: Vec<(String, bool, Vec<Stmt>)> = Vec::new();
    for o in all_ops() {
        let info = op_info(o).unwrap();
        if !info.ins.is_empty() {
            uses.push((info.ins.to_string(), false, vec![op(o)]));
        }
    }
    for types in ["n", "b", "a", "an", "nab"] {
        uses.push((types.into(), false, types.chars().map(|_| op("OP_TOALTSTACK")).collect()));
        uses.push((types.into(), true, types.chars().map(|_| op("OP_FROMALTSTACK")).collect()));
    }
    for depth in 0..4usize {
        for o in ["OP_PICK", "OP_ROLL"] {
            uses.push(("naba".into(), false, vec![Stmt::DepthOf { name: format!("i{}", 3 - depth), out: None, offset: None }, op(o)]));
        }
        uses.push(("naba".into(), false, vec![Stmt::DepthOf { name: format!("i{}", depth), out: Some("d".into()), offset: None }]));
    }
    // A depth that was computed before something else was pushed: it takes the item above the one
    // it was computed for, so the variants agree on the depth but not on what is taken.
    for depth in 1..4usize {
        for o in ["OP_PICK", "OP_ROLL"] {
            let target = Stmt::DepthOf { name: format!("i{}", 3 - depth), out: None, offset: None };
            uses.push(("naba".into(), false, vec![target, push(b'n', None), op("OP_SWAP"), op(o)]));
        }
    }
    uses.push(("b".into(), false, vec![Stmt::Op { op: "OP_IF".into(), ins: Some(vec!["i0".into()]), outs: None }, op("OP_ENDIF")]));

    for (types, alt, tail) in uses {
        let n = types.len();
        let names: Vec<String> = (0..n).map(|i| format!("i{}", i)).collect();
        let part = |list: &[(u8, Option<String>)]| -> Vec<Stmt> {
            let mut l: Vec<Stmt> = list.iter().map(|(c, n)| push(*c, n.as_deref())).collect();
            if alt {
                l.extend(list.iter().map(|_| op("OP_TOALTSTACK")));
            }
            l
        };
        let full: Vec<(u8, Option<String>)> = types.bytes().zip(&names).map(|(c, n)| (c, Some(n.clone()))).collect();
        for shape in [2, 3] {
            let base = program(shape, &vec![part(&full); shape], &tail);
            if !simulate(&base).map_or(false, |e| !e.is_empty()) {
                continue;
            }
            for which in 0..shape {
                let mut changed: Vec<Vec<(u8, Option<String>)>> = Vec::new();
                for i in 0..n {
                    let mut x = full.clone();
                    x[i].1 = Some("other".into());
                    changed.push(x);
                    let mut x = full.clone();
                    x[i].1 = None;
                    changed.push(x);
                    let mut x = full.clone();
                    x.swap(i, (i + 1) % n);
                    changed.push(x);
                    let mut x = full.clone();
                    x.remove(i);
                    changed.push(x);
                }
                for x in changed {
                    let mut parts = vec![part(&full); shape];
                    parts[which] = part(&x);
                    let q = program(shape, &parts, &tail);
                    if misuse(&q).is_some() {
                        pairs.push(Pair { original: base.clone(), mutant: q });
                    } else if simulate(&q).map_or(false, |e| !e.is_empty()) {
                        valid.push(q);
                    }
                }
            }
            valid.push(base);
        }
    }
    // An item of the wrong type in one of the branches: the finding `variant-types`.
    let mut typed = Vec::new();
    for o in all_ops() {
        let ins = op_info(o).unwrap().ins;
        let full: Vec<(u8, Option<String>)> = ins.bytes().enumerate().map(|(i, c)| (c, Some(format!("i{}", i)))).collect();
        let branch = |list: &[(u8, Option<String>)]| -> Vec<Stmt> { list.iter().map(|(c, n)| push(*c, n.as_deref())).collect() };
        if !simulate(&program(2, &vec![branch(&full); 2], &[op(o)])).map_or(false, |e| !e.is_empty()) {
            continue;
        }
        for i in (0..full.len()).filter(|&i| matches!(full[i].0, b'n' | b'a')) {
            let mut x = full.clone();
            x[i].0 = if x[i].0 == b'n' { b'a' } else { b'n' };
            for which in 0..2 {
                let mut parts = vec![branch(&full); 2];
                parts[which] = branch(&x);
                typed.push(program(2, &parts, &[op(o)]));
            }
        }
    }
    (pairs, valid, typed)
}

fn count(stmts: &[Stmt]) -> usize {
    stmts.iter().map(|s| if let Stmt::Block(b) = s { count(b) } else { 1 }).sum()
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("A case is one script function given to the real compiler. misuse: an accepted function with one change that makes its stack use inconsistent must not compile; accepted: functions without misuse, among them changed ones, must compile. Non-trivial: at least three statements.");
    let lab = Lab::new(&ctx.root);
    let n = ctx.cases(3000, 40000) as usize;
    let (pairs, valid) = if ctx.is_replay() { (vec![], vec![]) } else { generate(ctx.seed, n) };
    let mut typed = Vec::new();
    let (pairs, valid) = if ctx.is_replay() {
        (pairs, valid)
    } else {
        let (mut a, mut b) = table();
        let (c, d, e) = disagreements();
        typed = ctx.thin(e);
        a.extend(c);
        b.extend(d);
        let (mut a, mut b) = (ctx.thin(a), ctx.thin(b));
        a.extend(pairs);
        b.extend(valid);
        (a, b)
    };

    let mutants: Vec<Program> = pairs.iter().map(|p| p.mutant.clone()).collect();
    let verdicts = rejected(&lab, &mutants, 25);
    let mut map: HashMap<String, Option<String>> = HashMap::new();
    let mut cases = Vec::new();
    let mut failed = false;
    let mut messages: HashMap<String, u64> = HashMap::new();
    for (pair, r) in pairs.into_iter().zip(verdicts) {
        let mut pair = pair;
        match &r {
            Some(m) => *messages.entry(squash(m)).or_default() += 1,
            None => {
                if failed {
                    continue;
                }
                failed = true;
                pair.mutant = c20::shrink(&pair.mutant, |q| misuse(q).is_some(), |b| {
                    rejected(&lab, b, 1).into_iter().map(|r| if r.is_none() { Err("accepted".into()) } else { Ok(()) }).collect()
                });
                pair.original = pair.mutant.clone();
            }
        }
        map.insert(key(&pair.mutant), r);
        cases.push(pair);
    }
    ctx.enumerate("misuse", cases, |pair: &Pair, obs| {
        let p = &pair.mutant;
        let why = match misuse(p) {
            Some(w) => w,
            None => return Ok(()),
        };
        obs.nontrivial(count(&p.stmts) >= 3);
        obs.class(why);
        obs.class_if(!p.variants.is_empty(), "with variants");
        obs.class_if(p.stmts.iter().any(|s| matches!(s, Stmt::Op { op, .. } if op == "OP_IF")), "with a conditional");
        let r = match map.get(&key(p)) {
            Some(r) => r.clone(),
            None => rejected(&lab, &[p.clone()], 1).remove(0),
        };
        match r {
            Some(_) => Ok(()),
            None => Err(format!("a script with a misuse of the stack ({}) compiles:\n{}", why, module(p).text)),
        }
    });

    let verdicts = lab.reject(&modules(&typed.iter().collect::<Vec<_>>()), 8);
    let map: HashMap<String, Option<String>> = typed.iter().map(key).zip(verdicts).collect();
    ctx.enumerate("variant-types", typed, |p: &Program, obs| {
        if !matches!(simulate(p), Err(Why::Quirk("variants disagree on a type" | "shadowed variable"))) {
            return Err("not a disagreement on a type".into());
        }
        obs.nontrivial(true);
        let r = match map.get(&key(p)) {
            Some(r) => r.clone(),
            None => lab.reject(&modules(&[p]), 1).remove(0),
        };
        match r {
            Some(_) => obs.class("rejected"),
            None => {
                obs.class("accepted");
                if !ctx.is_known("variant-types") {
                    return Err(format!("an operation on an item of the wrong type in one of the variants compiles:\n{}", module(p).text));
                }
                obs.known.push("variant-types".into());
            }
        }
        Ok(())
    });

    let list: Vec<&Program> = valid.iter().collect();
    let results = lab.reject(&modules(&list), 25);
    let mut map: HashMap<String, Option<String>> = HashMap::new();
    let mut cases = Vec::new();
    let mut failed = false;
    for (p, r) in valid.into_iter().zip(results) {
        let (mut p, mut r) = (p, r);
        if r.is_some() {
            if failed {
                continue;
            }
            failed = true;
            let ask = |b: &[Program]| lab.reject(&modules(&b.iter().collect::<Vec<_>>()), 1);
            p = c20::shrink(&p, |q| simulate(q).map_or(false, |e| !e.is_empty()), |b| ask(b).into_iter().map(|r| r.map_or(Ok(()), Err)).collect());
            r = ask(&[p.clone()]).remove(0);
        }
        map.insert(key(&p), r);
        cases.push(p);
    }
    ctx.enumerate("accepted", cases, |p: &Program, obs| {
        if simulate(p).is_err() {
            return Ok(());
        }
        obs.nontrivial(count(&p.stmts) >= 3);
        obs.class_if(!p.variants.is_empty(), "with variants");
        let r = match map.get(&key(p)) {
            Some(r) => r.clone(),
            None => lab.reject(&modules(&[p]), 1).remove(0),
        };
        match r {
            None => Ok(()),
            Some(m) => Err(format!("a script without misuse of the stack does not compile: {}\n{}", truncate(&m, 400), module(p).text)),
        }
    });
    let mut top: Vec<(String, u64)> = messages.into_iter().collect();
    top.sort_by_key(|m| std::cmp::Reverse(m.1));
    top.truncate(25);
    (json!({"diagnostics_seen": top}), vec![
        "rustc of the sandbox expands and checks the generated functions faithfully",
        "branches of one and the same variant that leave different stacks are not generated: the macro leaves those to its user",
    ])
}

/// A diagnostic without the names in it.
fn squash(m: &str) -> String {
    let m = m.lines().next().unwrap_or("");
    let mut out = String::new();
    let mut inside = false;
    for c in m.chars() {
        if c == '`' {
            inside = !inside;
        } else if !inside && !c.is_ascii_digit() {
            out.push(c);
        }
    }
    out.truncate(70);
    out
}
