//! C20: the script macro emits exactly the script that was written.
use crate::gen::{self, Profile, Rng};
use crate::lab::*;
use crate::prog::*;
use serde_json::json;
use std::collections::HashMap;
use std::sync::Mutex;
use vh::refs;
use vh::runner::*;

pub fn module(p: &Program, idx: usize) -> (Module, Rendered) {
    let r = p.render(idx, true);
    (Module { text: r.text.clone(), lines: r.lines }, r)
}

fn show(names: &Option<Vec<Option<String>>>) -> String {
    match names {
        None => "nothing".into(),
        Some(l) => format!("[{}]", l.iter().map(|n| n.clone().unwrap_or_else(|| "unnamed".into())).collect::<Vec<_>>().join(", ")),
    }
}

/// Text up to layout: whitespace, separators and optional trailing commas.
pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != ',' && *c != ';').collect()
}

fn matches(e: &EOp, g: &GotOp) -> bool {
    match e {
        EOp::Code(c) => g.kind == "C" && g.payload == c.to_string(),
        EOp::Push(Value::Int(n)) => g.kind == "I" && g.payload == n.to_string(),
        EOp::Push(Value::Bool(b)) => g.kind == "L" && g.payload == b.to_string(),
        EOp::Push(Value::Bytes(b)) => g.kind == "M" && g.payload == hex::encode(b),
    }
}

fn script_bytes(ops: &[ExpOp]) -> Vec<u8> {
    ops.iter()
        .flat_map(|o| match &o.op {
            EOp::Code(c) => vec![*c],
            EOp::Push(Value::Int(0)) => vec![0],
            EOp::Push(Value::Int(n)) => refs::push_minimal(&refs::script_num(*n as i128)),
            EOp::Push(Value::Bool(b)) => vec![if *b { 0x51 } else { 0 }],
            EOp::Push(Value::Bytes(b)) => refs::push_minimal(b),
        })
        .collect()
}

pub fn compare(p: &Program, exp: &[ExpOp], r: &Rendered, got: &Report) -> Result<(), String> {
    if let Some(e) = got.errors.first() {
        return Err(format!("a script without misuse does not compile: {}", truncate(e, 400)));
    }
    if got.panicked {
        return Err("building the script panics".into());
    }
    let ops = got.blocks.get("s").ok_or("nothing reported")?;
    let debug = p.debug != Some(false);
    for (i, e) in exp.iter().enumerate() {
        let (first, last, text) = &r.stmts[i];
        let g = match ops.get(i) {
            Some(g) => g,
            None => return Err(format!("the script ends after {} operations, before `{}`", i, text)),
        };
        if !matches(&e.op, g) {
            return Err(format!("operation {} is {} {}, written was `{}` ({:?})", i, g.kind, g.payload, text, e.op));
        }
        if !debug {
            continue;
        }
        if g.pushed.as_ref() != Some(&e.pushed) {
            return Err(format!("`{}` (operation {}) is tagged as leaving {}, it leaves {}", text, i, show(&g.pushed), show(&Some(e.pushed.clone()))));
        }
        if g.alt.as_ref() != Some(&e.alt) {
            return Err(format!("`{}` (operation {}) is tagged as leaving {} on the alt stack, it leaves {}", text, i, show(&g.alt), show(&Some(e.alt.clone()))));
        }
        let (from, to) = (got.first_line + first, got.first_line + last);
        if g.line < from || g.line > to {
            return Err(format!("`{}` (operation {}) is tagged with line {}, it is on line {}..={}", text, i, g.line, from, to));
        }
        if g.file != got.file {
            return Err(format!("`{}` is tagged with file {}, it is in {}", text, g.file, got.file));
        }
        let widths: Vec<u32> = g.code.iter().map(|c| c.0).collect();
        if widths != [30, 40, 60, 80] {
            return Err(format!("`{}` has source text for widths {:?}", text, widths));
        }
        for (w, code) in &g.code {
            if squeeze(code) != squeeze(text) {
                return Err(format!("`{}` (operation {}) has the source text {:?} at width {}", text, i, code, w));
            }
        }
    }
    if ops.len() != exp.len() {
        let g = &ops[exp.len()];
        return Err(format!("the script goes on after what was written, with {} {}", g.kind, g.payload));
    }
    let bytes = script_bytes(exp);
    if got.script.as_ref() != Some(&bytes) {
        return Err(format!("the script's bytes are {:?}, expected {}", got.script.as_ref().map(hex::encode), hex::encode(&bytes)));
    }
    Ok(())
}

pub fn evaluate(lab: &Lab, progs: &[Program], per_file: usize) -> Vec<Result<(), String>> {
    let rendered: Vec<(Module, Rendered)> = progs.iter().enumerate().map(|(i, p)| module(p, i)).collect();
    let (mods, rends): (Vec<Module>, Vec<Rendered>) = rendered.into_iter().unzip();
    let reports = lab.execute(&mods, per_file);
    progs
        .iter()
        .enumerate()
        .map(|(i, p)| match simulate(p) {
            Ok(exp) => compare(p, &exp, &rends[i], &reports[i]),
            Err(w) => Err(format!("generator error: {:?}", w)),
        })
        .collect()
}

/// The smallest program found that `fails`, which judges a batch.
pub fn shrink(p: &Program, accept: impl Fn(&Program) -> bool, fails: impl Fn(&[Program]) -> Vec<Result<(), String>>) -> Program {
    let mut cur = p.clone();
    let start = std::time::Instant::now();
    while start.elapsed().as_secs() < vh::runner::shrink_seconds(100) {
        let cands: Vec<Program> = gen::simpler(&cur).into_iter().filter(|q| accept(q)).collect();
        let mut next = None;
        for batch in cands.chunks(48) {
            let r = fails(batch);
            if let Some(k) = r.iter().position(|x| x.is_err()) {
                next = Some(batch[k].clone());
                break;
            }
            if start.elapsed().as_secs() > 100 {
                break;
            }
        }
        match next {
            Some(q) => cur = q,
            None => break,
        }
    }
    cur
}

pub fn observe(p: &Program, exp: &[ExpOp], obs: &mut Obs) {
    let nested = |o: &str| p.stmts.iter().filter(|s| matches!(s, Stmt::Op { op, .. } if op == o)).count();
    let names = exp.iter().filter(|e| e.pushed.iter().any(|n| n.is_some())).count();
    obs.nontrivial(exp.len() >= 4 && names >= 1);
    obs.class_if(nested("OP_IF") > 0, "conditional");
    obs.class_if(nested("OP_IF") > 1, "several conditionals");
    let mut depth = 0;
    let mut max = 0;
    for e in exp {
        match e.op {
            EOp::Code(0x63) => {
                depth += 1;
                max = max.max(depth)
            }
            EOp::Code(0x68) => depth -= 1,
            _ => {}
        }
    }
    obs.class_if(max > 1, "nested conditionals");
    obs.class_if(max > 2, "three levels of conditionals");
    obs.class_if(!p.variants.is_empty(), "variants");
    obs.class_if(p.variants.iter().any(|v| v.predicate.iter().any(|c| c.len() > 2)), "variants of three or more conditions");
    obs.class_if(exp.iter().any(|e| e.op == EOp::Code(0x79) || e.op == EOp::Code(0x7a)), "pick or roll");
    obs.class_if(exp.iter().any(|e| !e.alt.is_empty()), "alt stack");
    obs.class_if(p.stmts.iter().any(|s| matches!(s, Stmt::Block(_))), "block");
    obs.class_if(exp.len() > 20, "more than 20 operations");
    obs.class_if(exp.iter().any(|e| e.after.iter().flatten().any(|a| a.0.len() > 16)), "deep stack");
    obs.class_if(exp.iter().any(|e| e.after.iter().flatten().any(|a| a.0.len() > 128)), "more than 128 items");
    obs.class_if(p.stmts.iter().any(|s| matches!(s, Stmt::DepthOf { offset: Some(_), .. })), "depth with an offset");
    obs.class_if(p.debug == Some(false), "debug off");
    for e in exp {
        if let EOp::Code(c) = e.op {
            if gen_order(c) {
                obs.class("rearranging operation");
            }
        }
    }
}

fn gen_order(c: u8) -> bool {
    ORDERS.iter().any(|o| o.0 == c)
}

pub fn programs(seed: u64, salt: u64, n: usize) -> Vec<Program> {
    let mut out = Vec::new();
    let mut k = 0u64;
    while out.len() < n {
        k += 1;
        let mut rng = Rng(seed.wrapping_mul(0x1000003) ^ salt.wrapping_mul(0x9e3779b97f4a7c15) ^ (k << 20));
        rng.next();
        let profile = match k % 8 {
            0 => Profile::Deep,
            1 | 2 => Profile::Small,
            3 => Profile::Movable,
            _ => Profile::Any,
        };
        let p = if k % 40 == 7 {
            gen::tall(&mut rng)
        } else if k % 6 == 4 {
            match gen::tree(&mut rng) {
                Some(p) => p,
                None => continue,
            }
        } else {
            gen::program(&mut rng, profile)
        };
        match simulate(&p) {
            Ok(e) if !e.is_empty() => out.push(p),
            _ => {}
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("A case is one script function: generated, expanded and compiled by the real macro, and its tagged operations compared with an independent simulation. Non-trivial: at least four operations and one named item.");
    let lab = Lab::new(&ctx.root);
    let n = ctx.cases(1600, 16000) as usize;
    let progs = if ctx.is_replay() { vec![] } else { programs(ctx.seed, 20, n) };
    let start = std::time::Instant::now();
    let results = evaluate(&lab, &progs, 25);
    let wall = start.elapsed().as_secs_f64();
    let map: Mutex<HashMap<String, Result<(), String>>> = Mutex::new(HashMap::new());
    let mut cases = Vec::new();
    let mut failed = false;
    for (p, r) in progs.into_iter().zip(results) {
        let mut p = p;
        let mut r = r;
        if r.is_err() {
            if failed {
                continue;
            }
            failed = true;
            // Alone, then smaller.
            r = evaluate(&lab, &[p.clone()], 1).remove(0);
            if r.is_err() {
                p = shrink(&p, |q| simulate(q).map_or(false, |e| !e.is_empty()), |b| evaluate(&lab, b, 6));
                r = evaluate(&lab, &[p.clone()], 1).remove(0);
            }
        }
        map.lock().unwrap().insert(serde_json::to_string(&p).unwrap(), r);
        cases.push(p);
    }
    ctx.enumerate("program", cases, |p: &Program, obs| {
        let known = map.lock().unwrap().get(&serde_json::to_string(p).unwrap()).cloned();
        if let Ok(exp) = simulate(p) {
            observe(p, &exp, obs);
        }
        let r = match known {
            Some(r) => r,
            None => evaluate(&lab, &[p.clone()], 1).remove(0),
        };
        r.map_err(|m| format!("{}\n{}", m, p.render(0, false).text))
    });
    (json!({"programs_compiled": n, "compile_seconds": wall}), vec![
        "rustc and rustfmt of the sandbox expand, check and format the generated functions faithfully",
        "PICK and ROLL are generated with depths from depth_of only; branches of one variant leave the same stack",
    ])
}
