//! Compiles generated crates against /repo's build and runs them.
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Lab {
    rlib: PathBuf,
    deps: PathBuf,
    scratch: PathBuf,
    next: AtomicUsize,
}

#[derive(Debug, Clone)]
pub struct Diag {
    pub message: String,
    /// Line ranges (from 1) in the generated file.
    pub spans: Vec<(usize, usize)>,
}

pub struct Compiled {
    pub errors: Vec<Diag>,
    pub binary: Option<PathBuf>,
    pub file: PathBuf,
}

pub const THREADS: usize = 8;

pub const PRELUDE: &str = r##"#![allow(warnings)]
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn names(n: &Option<Vec<Option<std::borrow::Cow<'static, str>>>>) -> String {
    match n {
        None => "-".into(),
        Some(l) => format!("[{}", l.iter().map(|n| match n { None => "n".into(), Some(s) => format!("s{}", hex(s.as_bytes())) }).collect::<Vec<String>>().join(",")),
    }
}
fn dump(out: &mut String, m: usize, tag: &str, ops: &[bitcoin_cash::TaggedOp]) {
    use bitcoin_cash::Op::*;
    out.push_str(&format!("B {} {} {}\n", m, tag, ops.len()));
    for o in ops {
        let (k, p) = match &o.op {
            Code(c) => ("C", (*c as u8).to_string()),
            Invalid(c) => ("X", c.to_string()),
            PushInteger(i) => ("I", i.value().to_string()),
            PushBoolean(b) => ("L", b.to_string()),
            PushByteArray { array, is_minimal } => (if *is_minimal { "M" } else { "N" }, hex(array)),
        };
        let code = o.src_code.iter().map(|(w, s)| format!("{}:{}", w, hex(s.as_bytes()))).collect::<Vec<_>>().join(",");
        out.push_str(&format!("O {} {} {} _{} {} {} _{} {} {} _{}\n", m, tag, k, p, o.src_line, o.src_column, hex(o.src_file.as_bytes()), names(&o.pushed_names), names(&o.alt_pushed_names), code));
    }
}
fn bytes<O: bitcoin_cash::Ops>(out: &mut String, m: usize, s: &bitcoin_cash::TaggedScript<O>) {
    use bitcoin_cash::{Op, Ops, Script};
    let (whole, again, into) = (s.clone().script(), Script::new(s.clone().ops().to_vec()), Script::from(s.clone()));
    let bare: Vec<Op> = s.script_ops().cloned().collect();
    let list = |s: &Script| s.ops().iter().map(|o| o.op.clone()).collect::<Vec<_>>();
    let same = whole.ops() == again.ops() && whole.ops() == into.ops() && whole.ops() == s.ops() && list(&whole) == bare;
    let b = whole.ser_ops();
    out.push_str(&format!("S {} _{}\n", m, if same { hex(&b) } else { "different forms of the script".into() }));
}
fn guard(out: &mut String, m: usize, f: fn(&mut String)) {
    let mut o = String::new();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut o))) {
        Ok(()) => out.push_str(&o),
        Err(_) => out.push_str(&format!("P {}\n", m)),
    }
}
"##;

fn collect_spans(v: &serde_json::Value, file: &str, out: &mut Vec<(usize, usize)>) {
    match v {
        serde_json::Value::Array(a) => a.iter().for_each(|x| collect_spans(x, file, out)),
        serde_json::Value::Object(m) => {
            if m.get("file_name").and_then(|f| f.as_str()) == Some(file) {
                if let (Some(a), Some(b)) = (m.get("line_start").and_then(|x| x.as_u64()), m.get("line_end").and_then(|x| x.as_u64())) {
                    out.push((a as usize, b as usize));
                }
            }
            for key in ["spans", "expansion", "span", "def_site_span"] {
                if let Some(x) = m.get(key) {
                    collect_spans(x, file, out);
                }
            }
        }
        _ => {}
    }
}

impl Lab {
    /// Locates the library that the check was just built with.
    pub fn new(root: &std::path::Path) -> Lab {
        let target = std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().to_path_buf();
        let out = Command::new("cargo")
            .args(["build", "--offline", "--locked", "--message-format=json"])
            .current_dir(std::env::var_os("VH_MACROS_DIR").map(PathBuf::from).unwrap_or_else(|| root.join("macros")))
            .env("CARGO_TARGET_DIR", &target)
            .stderr(Stdio::null())
            .output()
            .expect("cargo");
        let mut rlib = None;
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let v: serde_json::Value = match serde_json::from_str(line) {
                Ok(v) => v,
                Err(_) => continue,
            };
            if v["reason"] == "compiler-artifact" && v["target"]["name"] == "bitcoin_cash" {
                if let Some(f) = v["filenames"].as_array().and_then(|a| a.iter().find(|f| f.as_str().map_or(false, |s| s.ends_with(".rlib")))) {
                    rlib = Some(PathBuf::from(f.as_str().unwrap()));
                }
            }
        }
        let rlib = match rlib {
            Some(r) => r,
            None => {
                eprintln!("cannot locate the library under test");
                std::process::exit(2)
            }
        };
        let scratch = target.join(format!("generated-{}", std::process::id()));
        std::fs::create_dir_all(&scratch).unwrap();
        Lab { deps: rlib.parent().unwrap().to_path_buf(), rlib, scratch, next: AtomicUsize::new(0) }
    }

    /// Compiles the source; links a binary if `link`, else only checks it.
    pub fn compile(&self, source: &str, link: bool) -> Compiled {
        let n = self.next.fetch_add(1, Ordering::Relaxed);
        let file = self.scratch.join(format!("g{}.rs", n));
        let bin = self.scratch.join(format!("g{}.out", n));
        std::fs::write(&file, source).unwrap();
        let mut cmd = Command::new("rustc");
        cmd.args(["--edition", "2021", "--error-format=json", "-A", "warnings", "-C", "debuginfo=0", "-C", "codegen-units=4", "-A", "legacy_derive_helpers"])
            .arg("--extern")
            .arg(format!("bitcoin_cash={}", self.rlib.display()))
            .arg("-L")
            .arg(format!("dependency={}", self.deps.display()))
            .arg(&file)
            .current_dir(&self.scratch)
            .stdout(Stdio::null());
        if link {
            cmd.args(["--crate-type", "bin", "-o"]).arg(&bin);
        } else {
            cmd.args(["--crate-type", "bin", "--emit=metadata", "-o"]).arg(&bin);
        }
        let out = cmd.output().expect("rustc");
        let name = file.display().to_string();
        let mut errors = Vec::new();
        for line in String::from_utf8_lossy(&out.stderr).lines() {
            let v: serde_json::Value = match serde_json::from_str(line) {
                Ok(v) => v,
                Err(_) => {
                    if !line.trim().is_empty() {
                        errors.push(Diag { message: line.to_string(), spans: vec![] });
                    }
                    continue;
                }
            };
            if v["level"] == "error" || v["level"] == "error: internal compiler error" {
                let mut spans = Vec::new();
                collect_spans(&v["spans"], &name, &mut spans);
                let message = v["message"].as_str().unwrap_or("").to_string();
                if message.starts_with("aborting due to") {
                    continue;
                }
                errors.push(Diag { message, spans });
            }
        }
        let ok = out.status.success();
        if !ok && errors.is_empty() {
            errors.push(Diag { message: format!("rustc failed: {}", out.status), spans: vec![] });
        }
        if ok {
            errors.clear();
        }
        let binary = if ok && link { Some(bin) } else { let _ = std::fs::remove_file(&bin); None };
        Compiled { errors, binary, file }
    }

    pub fn run(&self, c: &Compiled) -> Result<String, String> {
        let bin = c.binary.as_ref().ok_or("no binary")?;
        let out = Command::new(bin).current_dir(&self.scratch).stdin(Stdio::null()).stderr(Stdio::null()).output().map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        if !out.status.success() {
            return Err(format!("the generated program ended with {}", out.status));
        }
        Ok(text)
    }

    pub fn clean(&self, c: &Compiled) {
        let _ = std::fs::remove_file(&c.file);
        if let Some(b) = &c.binary {
            let _ = std::fs::remove_file(b);
        }
    }
}

impl Drop for Lab {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
    }
}

/// `f` over the items on all cores, results in order.
pub fn par<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let slots: Vec<std::sync::Mutex<Option<R>>> = items.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..THREADS.min(items.len()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= items.len() {
                    return;
                }
                *slots[i].lock().unwrap() = Some(f(&items[i]));
            });
        }
    });
    slots.into_iter().map(|s| s.into_inner().unwrap().unwrap()).collect()
}

#[derive(Clone, Debug)]
pub struct GotOp {
    pub kind: String,
    pub payload: String,
    pub line: usize,
    pub file: String,
    pub pushed: Option<Vec<Option<String>>>,
    pub alt: Option<Vec<Option<String>>>,
    pub code: Vec<(u32, String)>,
}

/// What one generated module reported.
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub errors: Vec<String>,
    pub panicked: bool,
    pub blocks: HashMap<String, Vec<GotOp>>,
    pub script: Option<Vec<u8>>,
    pub text: Vec<String>,
    pub first_line: usize,
    pub file: String,
}

fn unhex(s: &str) -> String {
    String::from_utf8_lossy(&hex::decode(s).unwrap_or_default()).to_string()
}

fn parse_names(s: &str) -> Option<Vec<Option<String>>> {
    let s = s.strip_prefix('[')?;
    if s.is_empty() {
        return Some(vec![]);
    }
    Some(s.split(',').map(|n| n.strip_prefix('s').map(unhex)).collect())
}

pub fn parse(text: &str, reports: &mut HashMap<usize, Report>) {
    for line in text.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        let m: usize = match f.get(1).and_then(|x| x.parse().ok()) {
            Some(m) => m,
            None => continue,
        };
        let r = reports.entry(m).or_default();
        match f[0] {
            "B" => {
                r.blocks.insert(f[2].into(), vec![]);
            }
            "O" => {
                let code = f[10][1..].split(',').filter(|x| !x.is_empty()).map(|x| {
                    let (w, t) = x.split_once(':').unwrap();
                    (w.parse().unwrap(), unhex(t))
                }).collect();
                r.blocks.get_mut(f[2]).unwrap().push(GotOp {
                    kind: f[3].into(),
                    payload: f[4][1..].into(),
                    line: f[5].parse().unwrap(),
                    file: unhex(&f[7][1..]),
                    pushed: parse_names(f[8]),
                    alt: parse_names(f[9]),
                    code,
                });
            }
            "S" => r.script = hex::decode(&f[2][1..]).ok(),
            "P" => r.panicked = true,
            _ => r.text.push(line.splitn(3, ' ').nth(2).unwrap_or("").to_string()),
        }
    }
}

/// A module source to build and run: text without its line numbers.
pub struct Module {
    pub text: String,
    pub lines: usize,
}

impl Lab {
    fn file(&self, mods: &[(usize, &Module)]) -> (String, Vec<(usize, usize)>) {
        let mut text = String::from(PRELUDE);
        let mut line = text.lines().count() + 1;
        let mut ranges = Vec::new();
        for (_, m) in mods {
            ranges.push((line, line + m.lines - 1));
            text.push_str(&m.text);
            line += m.lines;
        }
        text.push_str("fn main() { std::panic::set_hook(Box::new(|_| {})); let mut out = String::new();\n");
        for (i, _) in mods {
            text.push_str(&format!("guard(&mut out, {}, m{}::run);\n", i, i));
        }
        text.push_str("print!(\"{}\", out); }\n");
        (text, ranges)
    }

    /// Builds and runs the modules (module i is named `m<i>` and has a `run`). Modules that do not
    /// compile get the errors, those that do their report.
    pub fn execute(&self, mods: &[Module], per_file: usize) -> Vec<Report> {
        let all: Vec<usize> = (0..mods.len()).collect();
        let chunks: Vec<Vec<usize>> = all.chunks(per_file.max(1)).map(|c| c.to_vec()).collect();
        let results = par(&chunks, |chunk| self.execute_chunk(mods, chunk));
        let mut reports = vec![Report::default(); mods.len()];
        for list in results {
            for (i, r) in list {
                reports[i] = r;
            }
        }
        reports
    }

    fn execute_chunk(&self, mods: &[Module], chunk: &[usize]) -> Vec<(usize, Report)> {
        let mut done = Vec::new();
        let mut todo: Vec<usize> = chunk.to_vec();
        while !todo.is_empty() {
            let list: Vec<(usize, &Module)> = todo.iter().map(|&i| (i, &mods[i])).collect();
            let (text, ranges) = self.file(&list);
            let c = self.compile(&text, true);
            if c.errors.is_empty() {
                let mut map = HashMap::new();
                match self.run(&c) {
                    Ok(text) => parse(&text, &mut map),
                    Err(e) if todo.len() == 1 => {
                        done.push((todo[0], Report { errors: vec![e], ..Report::default() }));
                        self.clean(&c);
                        return done;
                    }
                    Err(_) => {
                        // Find out which one it is.
                        self.clean(&c);
                        for &i in &todo {
                            done.extend(self.execute_chunk(mods, &[i]));
                        }
                        return done;
                    }
                }
                for (k, &i) in todo.iter().enumerate() {
                    let mut r = map.remove(&i).unwrap_or_default();
                    r.first_line = ranges[k].0;
                    r.file = c.file.display().to_string();
                    done.push((i, r));
                }
                self.clean(&c);
                return done;
            }
            self.clean(&c);
            if todo.len() == 1 {
                let errors = c.errors.iter().map(|d| d.message.clone()).collect();
                done.push((todo[0], Report { errors, ..Report::default() }));
                return done;
            }
            let bad: Vec<usize> = (0..todo.len())
                .filter(|&k| c.errors.iter().any(|d| d.spans.iter().any(|s| s.0 <= ranges[k].1 && s.1 >= ranges[k].0)))
                .map(|k| todo[k])
                .collect();
            if bad.is_empty() || bad.len() == todo.len() {
                // Not attributable, or all: one at a time, and give up on most when all fail alike.
                for (k, &i) in todo.iter().enumerate() {
                    if k < 4 || bad.is_empty() {
                        done.extend(self.execute_chunk(mods, &[i]));
                    } else {
                        done.push((i, Report { errors: c.errors.iter().filter(|d| d.spans.iter().any(|s| s.0 <= ranges[k].1 && s.1 >= ranges[k].0)).map(|d| d.message.clone()).collect(), ..Report::default() }));
                    }
                }
                return done;
            }
            for (n, &i) in bad.iter().enumerate() {
                if n < 3 {
                    done.extend(self.execute_chunk(mods, &[i]));
                } else {
                    let k = todo.iter().position(|x| *x == i).unwrap();
                    done.push((i, Report { errors: c.errors.iter().filter(|d| d.spans.iter().any(|s| s.0 <= ranges[k].1 && s.1 >= ranges[k].0)).map(|d| d.message.clone()).collect(), ..Report::default() }));
                }
            }
            todo.retain(|i| !bad.contains(i));
        }
        done
    }

    /// For each module, whether (and with what message) the compiler rejects it when all are
    /// compiled together, then, for those that seem accepted, alone.
    pub fn reject(&self, mods: &[Module], per_file: usize) -> Vec<Option<String>> {
        let all: Vec<usize> = (0..mods.len()).collect();
        let chunks: Vec<Vec<usize>> = all.chunks(per_file.max(1)).map(|c| c.to_vec()).collect();
        let results = par(&chunks, |chunk| {
            let mut text = String::from("#![allow(warnings)]\n");
            let mut line = 2;
            let mut ranges = Vec::new();
            for &i in chunk {
                ranges.push((line, line + mods[i].lines - 1));
                text.push_str(&mods[i].text);
                line += mods[i].lines;
            }
            text.push_str("fn main() {}\n");
            let c = self.compile(&text, false);
            self.clean(&c);
            chunk
                .iter()
                .zip(&ranges)
                .map(|(&i, r)| (i, c.errors.iter().find(|d| d.spans.iter().any(|s| s.0 <= r.1 && s.1 >= r.0)).map(|d| d.message.clone())))
                .collect::<Vec<_>>()
        });
        let mut out: Vec<Option<String>> = vec![None; mods.len()];
        for (i, m) in results.into_iter().flatten() {
            out[i] = m;
        }
        let open: Vec<usize> = all.into_iter().filter(|&i| out[i].is_none()).collect();
        if per_file > 1 {
            let alone = par(&open, |&i| {
                let text = format!("#![allow(warnings)]\n{}fn main() {{}}\n", mods[i].text);
                let c = self.compile(&text, false);
                self.clean(&c);
                c.errors.first().map(|d| d.message.clone())
            });
            for (i, m) in open.into_iter().zip(alone) {
                out[i] = m;
            }
        }
        out
    }
}
