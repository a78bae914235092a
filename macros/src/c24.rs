//! C24: input structs push their arguments in order, per variant.
use crate::c20;
use crate::gen::{self, Profile, Rng};
use crate::lab::*;
use crate::prog::*;
use serde_json::json;
use std::collections::HashMap;
use vh::interp::{Checker, Machine};
use vh::refs;
use vh::runner::*;

struct NoChecker;
impl Checker for NoChecker {
    fn check_sig(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, String> {
        Ok(false)
    }
    fn check_data_sig(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, String> {
        Ok(false)
    }
    fn check_lock_time(&self, _: i64) -> bool {
        true
    }
    fn check_sequence(&self, _: i64) -> bool {
        true
    }
}

fn op_bytes(g: &GotOp) -> Result<Vec<u8>, String> {
    let int = |s: &str| s.parse::<i128>().map_err(|e| e.to_string());
    Ok(match g.kind.as_str() {
        "C" => vec![int(&g.payload)? as u8],
        "I" => {
            let n = int(&g.payload)?;
            if n == 0 { vec![0] } else { refs::push_minimal(&refs::script_num(n)) }
        }
        "L" => vec![if g.payload == "true" { 0x51 } else { 0 }],
        "M" => refs::push_minimal(&hex::decode(&g.payload).map_err(|e| e.to_string())?),
        "N" => refs::push_data(&hex::decode(&g.payload).map_err(|e| e.to_string())?),
        k => return Err(format!("operation of kind {}", k)),
    })
}

fn pushes(v: &Value, g: &GotOp) -> bool {
    match v {
        Value::Int(n) => g.kind == "I" && g.payload == n.to_string(),
        Value::Bool(b) => g.kind == "L" && g.payload == b.to_string(),
        Value::Bytes(b) => (g.kind == "M" || g.kind == "N") && g.payload == hex::encode(b),
    }
}

#[derive(Default, Clone, Debug)]
pub struct Progress {
    pub executed: usize,
    pub bound: usize,
    pub finished: usize,
}

fn judge(p: &Program, rendered: &Rendered, got: &Report) -> Result<Progress, String> {
    let exp = simulate(p).map_err(|w| format!("generator error: {:?}", w))?;
    if let Some(e) = got.errors.first() {
        return Err(format!("a script without misuse, or an input value with the declared fields, does not compile: {}", truncate(e, 400)));
    }
    if got.panicked {
        return Err("building the script panics".into());
    }
    let mut progress = Progress::default();
    let debug = p.debug != Some(false);
    let script = got.blocks.get("s").ok_or("nothing reported")?;
    for (k, a) in p.args.iter().enumerate() {
        let fields = p.fields(a.variant);
        let ops = got.blocks.get(&k.to_string()).ok_or("no input operations reported")?;
        if ops.len() != fields.len() {
            return Err(format!("the input value with {} fields has {} operations", fields.len(), ops.len()));
        }
        for (g, &i) in ops.iter().zip(&fields) {
            let name = &p.inputs[i].name;
            if !pushes(&a.values[i], g) {
                return Err(format!("argument `{}` = {:?} is pushed as {} {}", name, a.values[i], g.kind, g.payload));
            }
            if debug && (g.pushed.as_ref() != Some(&vec![Some(name.clone())]) || g.alt.as_ref() != Some(&vec![])) {
                return Err(format!("the push of argument `{}` is tagged as leaving {:?} and, on the alt stack, {:?}", name, g.pushed, g.alt));
            }
            if debug {
                let (line, text) = &rendered.inputs[i];
                if g.file != got.file || g.line != got.first_line + line {
                    return Err(format!("the push of argument `{}` is tagged with {} line {}, it is declared in {} line {}", name, g.file, g.line, got.file, got.first_line + line));
                }
                if g.code.iter().map(|c| c.0).collect::<Vec<_>>() != [30, 40, 60, 80] || g.code.iter().any(|c| !c20::squeeze(&c.1).ends_with(&c20::squeeze(text))) {
                    return Err(format!("the push of argument `{}` has the source text {:?}, it is declared as `{}`", name, g.code, text));
                }
            }
        }
        // Unlock, then follow the script.
        let mut unlock = Vec::new();
        for g in ops {
            unlock.extend(op_bytes(g)?);
        }
        let mut m = Machine::new(vec![]);
        if m.run(&unlock, &NoChecker).is_err() {
            return Err("the unlocking script does not execute".into());
        }
        let want: Vec<Vec<u8>> = fields.iter().map(|&i| a.values[i].item()).collect();
        if m.stack != want {
            return Err(format!("the unlocking script leaves {:?}, expected {:?}", m.stack.iter().map(hex::encode).collect::<Vec<_>>(), want.iter().map(hex::encode).collect::<Vec<_>>()));
        }
        let mut code = Vec::new();
        let mut raws = Vec::new();
        for g in script {
            let b = op_bytes(g)?;
            raws.push(refs::parse_script(&b).ok_or("unparseable operation")?.remove(0));
            code.extend(b);
        }
        let mut complete = true;
        for (i, (raw, e)) in raws.iter().zip(&exp).enumerate() {
            let executing = m.conditions.iter().all(|c| *c);
            if m.step(raw, &code, &NoChecker).is_err() {
                complete = false;
                break;
            }
            let structural = matches!(e.op, EOp::Code(0x67) | EOp::Code(0x68));
            if !executing || structural {
                continue;
            }
            progress.executed += 1;
            let (main, alt) = match &e.after[a.variant] {
                Some(s) => s,
                None => {
                    complete = false;
                    break;
                }
            };
            for (items, stack, which) in [(main, &m.stack, "stack"), (alt, &m.alt, "alt stack")] {
                if items.len() != stack.len() {
                    return Err(format!("after operation {} there are {} items on the {}, the script accounts for {}", i, stack.len(), which, items.len()));
                }
                for (d, (item, v)) in items.iter().zip(stack.iter()).enumerate() {
                    let want = match &item.src {
                        Src::Input(k) => a.values[*k].item(),
                        Src::Bytes(b) => b.clone(),
                        Src::Unknown => continue,
                    };
                    progress.bound += matches!(item.src, Src::Input(_)) as usize;
                    if *v != want {
                        return Err(format!(
                            "after operation {}, item {} of the {} (`{}`) holds {}, it stands for {} ({:?})",
                            i, d, which, item.name.clone().unwrap_or_default(), hex::encode(v), hex::encode(&want), item.src
                        ));
                    }
                }
            }
        }
        progress.finished += complete as usize;
    }
    Ok(progress)
}

fn evaluate(lab: &Lab, progs: &[Program], per_file: usize) -> Vec<Result<Progress, String>> {
    let (mods, rendered): (Vec<Module>, Vec<Rendered>) = progs.iter().enumerate().map(|(i, p)| c20::module(p, i)).unzip();
    let reports = lab.execute(&mods, per_file);
    progs.iter().zip(&rendered).zip(&reports).map(|((p, m), r)| judge(p, m, r)).collect()
}

/// Whether an item is given the name of one that selects the variant: the arguments then no longer
/// decide which variant is executed.
fn reselects(p: &Program, stmts: &[Stmt]) -> bool {
    let hit = |n: &String| p.variants.iter().flat_map(|v| v.predicate.iter().flatten()).any(|a| a.0 == *n);
    stmts.iter().any(|s| match s {
        Stmt::Push { out: Some(n), .. } | Stmt::DepthOf { out: Some(n), .. } => hit(n),
        Stmt::Op { outs: Some(o), .. } => o.iter().any(hit),
        Stmt::Block(b) => reselects(p, b),
        _ => false,
    })
}

fn acceptable(p: &Program) -> bool {
    simulate(p).is_ok() && !p.args.is_empty() && !reselects(p, &p.stmts) && {
        // Arguments still select their variant.
        p.args.iter().all(|a| match p.variants.get(a.variant) {
            None => true,
            Some(x) => x.predicate.iter().any(|c| {
                c.iter().all(|(n, pos)| p.inputs.iter().position(|i| i.name == *n).map(|k| a.values[k] == Value::Bool(true)) == Some(*pos))
            }),
        })
    }
}

fn programs(seed: u64, n: usize) -> Vec<Program> {
    let mut out = Vec::new();
    let mut k = 0u64;
    while out.len() < n {
        k += 1;
        let mut rng = Rng(seed.wrapping_mul(0x1000003) ^ (24 << 50) ^ (k << 20));
        rng.next();
        let profile = match k % 8 {
            0 => Profile::Deep,
            1 => Profile::Any,
            2 => Profile::Small,
            _ => Profile::Movable,
        };
        let p = if k % 6 == 4 {
            match gen::tree(&mut rng) {
                Some(p) => p,
                None => continue,
            }
        } else {
            gen::program(&mut rng, profile)
        };
        if !p.inputs.is_empty() && acceptable(&p) {
            out.push(p);
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> (serde_json::Value, Vec<&'static str>) {
    ctx.rule("A case is one script function with inputs, compiled with values of its input type; the input operations are compared with the values and then executed with the script, comparing parameter values along the way. Non-trivial: two or more inputs and two or more script operations executed; values (what a value of each data type pushes): anything but a single byte, a small number or false.");
    crate::values::run(ctx);
    let lab = Lab::new(&ctx.root);
    let n = ctx.cases(1600, 16000) as usize;
    let progs = if ctx.is_replay() { vec![] } else { programs(ctx.seed, n) };
    let results = evaluate(&lab, &progs, 25);
    let mut map: HashMap<String, Result<Progress, String>> = HashMap::new();
    let mut cases = Vec::new();
    let mut failed = false;
    let (mut executed, mut bound, mut finished) = (0, 0, 0);
    for (p, r) in progs.into_iter().zip(results) {
        let (mut p, mut r) = (p, r);
        if r.is_err() {
            if failed {
                continue;
            }
            failed = true;
            r = evaluate(&lab, &[p.clone()], 1).remove(0);
            if r.is_err() {
                p = c20::shrink(&p, acceptable, |b| evaluate(&lab, b, 6).into_iter().map(|r| r.map(|_| ())).collect());
                r = evaluate(&lab, &[p.clone()], 1).remove(0);
            }
        }
        if let Ok(x) = &r {
            executed += x.executed;
            bound += x.bound;
            finished += x.finished;
        }
        map.insert(serde_json::to_string(&p).unwrap(), r);
        cases.push(p);
    }
    ctx.enumerate("inputs", cases, |p: &Program, obs| {
        let r = match map.get(&serde_json::to_string(p).unwrap()).cloned() {
            Some(r) => r,
            None => evaluate(&lab, &[p.clone()], 1).remove(0),
        };
        let progress = r.map_err(|m| format!("{}\n{}", m, p.render(0, true).text))?;
        obs.nontrivial(p.inputs.len() >= 2 && progress.executed >= 2);
        obs.class_if(!p.variants.is_empty(), "variants");
        obs.class_if(p.inputs.iter().any(|i| i.variants.is_some()), "inputs of some variants only");
        obs.class_if(p.inputs.len() >= 5, "five or more inputs");
        obs.class_if(p.inputs.len() >= 20, "twenty or more inputs");
        obs.class_if(progress.executed >= 5, "five or more operations executed");
        obs.class_if(progress.finished > 0, "executed to the end");
        obs.class_if(progress.bound >= 10, "ten or more parameter positions compared");
        Ok(())
    });
    (json!({"operations_executed": executed, "parameter_positions_compared": bound, "executions_to_the_end": finished}), vec![
        "the check's own script interpreter implements the operations that are executed",
        "rustc and rustfmt of the sandbox expand and compile the generated functions faithfully",
    ])
}
