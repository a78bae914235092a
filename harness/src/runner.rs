//! Property runner: proptest generation and shrinking, sharded over threads, with class
//! counters, evidence, replay files, known findings and crash supervision.
use proptest::prelude::*;
use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestCaseResult, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-case observations.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub known: Vec<String>,
}

impl Obs {
    pub fn class(&mut self, name: &'static str) {
        if !self.classes.contains(&name) {
            self.classes.push(name)
        }
    }
    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.class(name)
        }
    }
    pub fn nontrivial(&mut self, cond: bool) {
        if cond {
            self.nontrivial = true
        }
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    rules: Vec<String>,
    suites: BTreeMap<String, u64>,
    known_hit: BTreeMap<String, u64>,
}

pub struct Violation {
    pub suite: String,
    pub message: String,
    pub case: serde_json::Value,
}

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub tier: Tier,
    pub root: PathBuf,
    replay: Option<(String, serde_json::Value)>,
    journal: Option<PathBuf>,
    known: Vec<(String, String)>,
    stats: Mutex<Stats>,
    violations: Mutex<Vec<Violation>>,
    start: Instant,
    exhaustive: Mutex<bool>,
}

pub const SHARDS: usize = 8;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

fn thinned() -> usize {
    std::env::var("VH_THIN").ok().and_then(|n| n.parse().ok()).unwrap_or(1).max(1)
}

/// Seconds to spend on making a failing program smaller.
pub fn shrink_seconds(usual: u64) -> u64 {
    if thinned() > 1 { 0 } else { usual }
}

/// Runs `f`; a panic becomes Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn rng_for(seed: u64, property: &str, suite: &str, shard: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&hash_str(property).to_le_bytes());
    bytes[16..24].copy_from_slice(&hash_str(suite).to_le_bytes());
    bytes[24..].copy_from_slice(&(shard as u64 + 1).to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut end = n;
        while !s.is_char_boundary(end) {
            end -= 1
        }
        format!("{}...[{} bytes]", &s[..end], s.len())
    }
}

fn sample_value(v: &serde_json::Value) -> serde_json::Value {
    let s = serde_json::to_string(v).unwrap_or_default();
    if s.len() <= 1500 {
        v.clone()
    } else {
        serde_json::Value::String(truncate(&s, 1500))
    }
}

/// What each thread is doing, for the watchdog.
struct Running {
    since: Instant,
    suite: String,
    case: serde_json::Value,
}
static RUNNING: Mutex<BTreeMap<u64, Running>> = Mutex::new(BTreeMap::new());
static NEXT_RUN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// A single case takes milliseconds, a few large ones seconds.
pub const CASE_LIMIT_S: u64 = 240;

/// Runs one case under the watchdog; hands the case's JSON back.
fn guarded(
    suite: &str,
    case: serde_json::Value,
    f: impl FnOnce() -> Result<(), String>,
) -> (serde_json::Value, Result<(), String>) {
    let id = NEXT_RUN.fetch_add(1, Ordering::Relaxed);
    RUNNING.lock().unwrap().insert(id, Running { since: Instant::now(), suite: suite.to_string(), case });
    let r = match no_panic(f) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    let case = RUNNING.lock().unwrap().remove(&id).map(|r| r.case).unwrap_or_default();
    (case, r)
}

fn write_replay(root: &std::path::Path, property: &str, name: &str, suite: &str, seed: u64, message: &str, case: &serde_json::Value) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", property, name));
    let doc = serde_json::json!({
        "property": property, "suite": suite, "seed": seed,
        "message": truncate(message, 20000), "case": case,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    path
}

/// Ends the process with a violation when one case runs for minutes.
fn start_watchdog(property: String, seed: u64, root: PathBuf) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let running = RUNNING.lock().unwrap();
        for r in running.values() {
            if r.since.elapsed().as_secs() > CASE_LIMIT_S {
                let message = format!("the case did not finish within {} s", CASE_LIMIT_S);
                let path = write_replay(&root, &property, &format!("{}-hang", r.suite), &r.suite, seed, &message, &r.case);
                eprintln!("[{}/{}] {}", property, r.suite, message);
                eprintln!("  case: {}", truncate(&r.case.to_string(), 2000));
                println!("VIOLATION property={} replay={}", property, path.display());
                std::process::exit(1)
            }
        }
    });
}

impl Ctx {
    pub fn new(
        property: &str,
        seed: u64,
        tier: Tier,
        root: PathBuf,
        replay: Option<(String, serde_json::Value)>,
        journal: Option<PathBuf>,
    ) -> Ctx {
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for line in text.lines() {
                // finding: property=C01 key=<key> <description>
                if let Some(rest) = line.strip_prefix("finding: ") {
                    let mut prop = "";
                    let mut key = "";
                    for w in rest.split_whitespace() {
                        if let Some(p) = w.strip_prefix("property=") {
                            prop = p
                        } else if let Some(k) = w.strip_prefix("key=") {
                            key = k
                        }
                    }
                    if prop == property && !key.is_empty() {
                        known.push((key.to_string(), rest.to_string()));
                    }
                }
            }
        }
        Ctx {
            property: property.to_string(),
            seed,
            tier,
            root,
            replay,
            journal,
            known,
            stats: Mutex::new(Stats::default()),
            violations: Mutex::new(Vec::new()),
            start: Instant::now(),
            exhaustive: Mutex::new(false),
        }
    }

    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    pub fn cases(&self, quick: u32, thorough: u32) -> u32 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
        .div_ceil(thinned() as u32)
    }

    /// For trying out the checks themselves: VH_THIN=n keeps every n-th of the costly cases.
    pub fn thin<T>(&self, cases: Vec<T>) -> Vec<T> {
        cases.into_iter().step_by(thinned()).collect()
    }

    pub fn rule(&self, rule: &str) {
        self.stats.lock().unwrap().rules.push(rule.to_string());
    }

    pub fn set_exhaustive(&self) {
        *self.exhaustive.lock().unwrap() = true;
    }

    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }

    fn record(&self, suite: &str, case: &serde_json::Value, obs: &Obs) {
        let text = serde_json::to_string(case).unwrap_or_default();
        let mut st = self.stats.lock().unwrap();
        st.evaluations += 1;
        *st.suites.entry(suite.to_string()).or_insert(0) += 1;
        for c in &obs.classes {
            *st.classes.entry(format!("{}/{}", suite, c)).or_insert(0) += 1;
        }
        for k in &obs.known {
            *st.known_hit.entry(k.clone()).or_insert(0) += 1;
        }
        if obs.nontrivial {
            let h = hash_str(&format!("{}:{}", suite, text));
            if st.distinct.insert(h) {
                let prefix = format!("{}:", suite);
                let n = st
                    .samples
                    .iter()
                    .filter(|s| s["suite"].as_str() == Some(&prefix[..prefix.len() - 1]))
                    .count();
                if n < 2 {
                    st.samples
                        .push(serde_json::json!({"suite": suite, "case": sample_value(case)}));
                }
            }
        }
    }

    fn violation(&self, suite: &str, message: String, case: serde_json::Value) {
        self.violations.lock().unwrap().push(Violation {
            suite: suite.to_string(),
            message,
            case,
        });
    }

    /// A violation was found and time runs out: the remaining suites are not needed.
    fn enough(&self) -> bool {
        !self.violations.lock().unwrap().is_empty() && self.start.elapsed().as_secs() > 240
    }

    /// Explores `cases` generated values; the first failure of each shard is shrunk.
    pub fn suite<C, S>(
        &self,
        name: &str,
        quick: u32,
        thorough: u32,
        strategy: impl Fn() -> S + Sync,
        check: impl Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    ) where
        C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send,
        S: Strategy<Value = C>,
    {
        if let Some((suite, case)) = &self.replay {
            if suite == name {
                let case: C = match serde_json::from_value(case.clone()) {
                    Ok(c) => c,
                    Err(e) => {
                        eprintln!("cannot read replay case: {}", e);
                        std::process::exit(2)
                    }
                };
                let mut obs = Obs::default();
                let value = serde_json::to_value(&case).unwrap();
                let (value, r) = guarded(name, value, || check(&case, &mut obs));
                self.record(name, &value, &obs);
                if let Err(m) = r {
                    self.violation(name, m, serde_json::to_value(&case).unwrap());
                }
            }
            return;
        }
        if self.enough() {
            return;
        }
        let failed = AtomicBool::new(false);
        let total = self.cases(quick, thorough);
        let shards = if total < 64 { 1 } else { SHARDS };
        let results: Vec<Option<(String, serde_json::Value)>> = std::thread::scope(|scope| {
            let handles: Vec<_> = (0..shards)
                .map(|shard| {
                    let strategy = &strategy;
                    let check = &check;
                    let failed = &failed;
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(scope, move || {
                            let cases = total / shards as u32
                                + if (shard as u32) < total % shards as u32 { 1 } else { 0 };
                            self.run_shard(name, shard, cases, strategy(), check, failed)
                        })
                        .unwrap()
                })
                .collect();
            handles
                .into_iter()
                .map(|h| match h.join() {
                    Ok(r) => r,
                    Err(_) => {
                        eprintln!("harness thread died in {}/{}", self.property, name);
                        std::process::exit(2)
                    }
                })
                .collect()
        });
        if let Some((m, c)) = results.into_iter().flatten().next() {
            self.violation(name, m, c);
        }
    }

    fn run_shard<C, S>(
        &self,
        name: &str,
        shard: usize,
        cases: u32,
        strategy: S,
        check: &(impl Fn(&C, &mut Obs) -> Result<(), String> + Sync),
        elsewhere: &AtomicBool,
    ) -> Option<(String, serde_json::Value)>
    where
        C: std::fmt::Debug + Clone + Serialize + DeserializeOwned,
        S: Strategy<Value = C>,
    {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 3000,
            // In milliseconds.
            max_shrink_time: if self.violations.lock().unwrap().is_empty() { 40_000 } else { 5_000 },
            max_global_rejects: cases * 4 + 1000,
            max_local_rejects: 100_000,
            ..Config::default()
        };
        let mut runner =
            TestRunner::new_with_rng(config, rng_for(self.seed, &self.property, name, shard));
        let failed = std::cell::Cell::new(false);
        let journal = self
            .journal
            .as_ref()
            .map(|d| d.join(format!("shard{}.json", shard)));
        let result = runner.run(&strategy, |case: C| -> TestCaseResult {
            if !failed.get() && elsewhere.load(Ordering::Relaxed) {
                return Ok(());
            }
            let value = serde_json::to_value(&case).expect("case serialises");
            if let Some(path) = &journal {
                let doc = serde_json::json!({"property": self.property, "suite": name, "case": value});
                let _ = std::fs::write(path, doc.to_string());
            }
            let mut obs = Obs::default();
            let (value, r) = guarded(name, value, || check(&case, &mut obs));
            if !failed.get() {
                self.record(name, &value, &obs);
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    failed.set(true);
                    elsewhere.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        if let Some(path) = &journal {
            let _ = std::fs::remove_file(path);
        }
        match result {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => Some((
                reason.message().to_string(),
                serde_json::to_value(&case).unwrap(),
            )),
            Err(TestError::Abort(reason)) => {
                eprintln!("{}/{}: generator aborted: {}", self.property, name, reason);
                std::process::exit(2)
            }
        }
    }

    /// Checks an explicit list of cases (enumerations, regression inputs).
    pub fn enumerate<C>(
        &self,
        name: &str,
        cases: impl IntoIterator<Item = C>,
        check: impl Fn(&C, &mut Obs) -> Result<(), String>,
    ) where
        C: std::fmt::Debug + Clone + Serialize + DeserializeOwned,
    {
        if let Some((suite, case)) = &self.replay {
            if suite == name {
                let case: C = serde_json::from_value(case.clone()).expect("replay case");
                let mut obs = Obs::default();
                let value = serde_json::to_value(&case).unwrap();
                let (value, r) = guarded(name, value, || check(&case, &mut obs));
                self.record(name, &value, &obs);
                if let Err(m) = r {
                    self.violation(name, m, serde_json::to_value(&case).unwrap());
                }
            }
            return;
        }
        if self.enough() {
            return;
        }
        let journal = self.journal.as_ref().map(|d| d.join("shard0.json"));
        for case in cases {
            let value = serde_json::to_value(&case).unwrap();
            if let Some(path) = &journal {
                let doc = serde_json::json!({"property": self.property, "suite": name, "case": value});
                let _ = std::fs::write(path, doc.to_string());
            }
            let mut obs = Obs::default();
            let (value, r) = guarded(name, value, || check(&case, &mut obs));
            self.record(name, &value, &obs);
            if let Err(m) = r {
                self.violation(name, m, value);
                return;
            }
        }
        if let Some(path) = &journal {
            let _ = std::fs::remove_file(path);
        }
    }

    /// Like `enumerate`, on all threads (thorough-tier sweeps).
    pub fn parallel<C>(
        &self,
        name: &str,
        cases: Vec<C>,
        check: impl Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    ) where
        C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
    {
        if self.is_replay() {
            return self.enumerate(name, cases, check);
        }
        if self.enough() {
            return;
        }
        let next = AtomicUsize::new(0);
        let failed = AtomicBool::new(false);
        std::thread::scope(|scope| {
            for _ in 0..SHARDS {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(scope, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases.len() || failed.load(Ordering::Relaxed) {
                            return;
                        }
                        let mut obs = Obs::default();
                        let value = serde_json::to_value(&cases[i]).unwrap();
                        let (value, r) = guarded(name, value, || check(&cases[i], &mut obs));
                        self.record(name, &value, &obs);
                        if let Err(m) = r {
                            if !failed.swap(true, Ordering::Relaxed) {
                                self.violation(name, m, value);
                            }
                            return;
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// Prints the verdict, writes evidence and replay files; returns the exit code.
    pub fn finish(self, extra_coverage: serde_json::Value, assumptions: &[&str]) -> i32 {
        let st = self.stats.into_inner().unwrap();
        let violations = self.violations.into_inner().unwrap();
        for (k, n) in &st.known_hit {
            let desc = self
                .known
                .iter()
                .find(|(key, _)| key == k)
                .map(|(_, d)| d.clone())
                .unwrap_or_default();
            println!("KNOWN-FINDING: {} ({} cases)", desc, n);
        }
        let mut code = 0;
        let mut replays = Vec::new();
        for v in violations.iter() {
            let dir = self.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = if self.replay.is_some() {
                dir.join(format!("{}-{}-replayed.json", self.property, v.suite))
            } else {
                dir.join(format!("{}-{}.json", self.property, v.suite))
            };
            let doc = serde_json::json!({
                "property": self.property, "suite": v.suite, "seed": self.seed,
                "message": truncate(&v.message, 20000), "case": v.case,
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            eprintln!("[{}/{}] {}", self.property, v.suite, truncate(&v.message, 4000));
            eprintln!("  case: {}", truncate(&v.case.to_string(), 2000));
            println!("VIOLATION property={} replay={}", self.property, path.display());
            replays.push(path.display().to_string());
            code = 1;
        }
        if self.replay.is_some() {
            return code;
        }
        let mut coverage = serde_json::json!({
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": st.rules.join(" "),
            "samples": st.samples,
            "suites": st.suites,
            "classes": st.classes,
        });
        if *self.exhaustive.lock().unwrap() {
            coverage["exhaustive"] = true.into();
        }
        if let serde_json::Value::Object(m) = extra_coverage {
            for (k, v) in m {
                coverage[k] = v;
            }
        }
        let evidence = serde_json::json!({
            "property": self.property,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.property));
        if std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap()).is_err() {
            eprintln!("cannot write {}", path.display());
            return 2;
        }
        eprintln!(
            "[{}] {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.property,
            st.evaluations,
            st.distinct.len(),
            violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        code
    }
}

/// Parses arguments, supervises a child process (so that aborts and stack overflows inside the
/// code under test become reproducible violations) and runs the property.
pub fn main_with(run: fn(&str, &Ctx) -> Option<(serde_json::Value, Vec<&'static str>)>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let mut property = None;
    let mut replay = None;
    let mut child = false;
    let mut journal = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                i += 1;
                replay = Some(args[i].clone())
            }
            "--child" => child = true,
            "--journal" => {
                i += 1;
                journal = Some(PathBuf::from(&args[i]))
            }
            p => property = Some(p.to_string()),
        }
        i += 1;
    }
    let property = property.unwrap_or_else(|| {
        eprintln!("usage: check PROPERTY [--replay FILE]");
        std::process::exit(2)
    });
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1u64);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    if child {
        install_panic_hook();
        let replay = replay.map(|path| {
            let text = std::fs::read_to_string(&path).unwrap_or_else(|e| {
                eprintln!("{}: {}", path, e);
                std::process::exit(2)
            });
            let v: serde_json::Value = serde_json::from_str(&text).unwrap();
            (v["suite"].as_str().unwrap().to_string(), v["case"].clone())
        });
        start_watchdog(property.clone(), seed, root.clone());
        let ctx = Ctx::new(&property, seed, tier, root, replay, journal);
        match run(&property, &ctx) {
            Some((extra, assumptions)) => {
                let code = ctx.finish(extra, &assumptions);
                std::process::exit(code)
            }
            None => {
                eprintln!("unknown property {}", property);
                std::process::exit(2)
            }
        }
    }
    // Parent.
    let exe = std::env::current_exe().unwrap();
    let spawn = |extra: &[String], quiet: bool| {
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg(&property).arg("--child").args(extra);
        if quiet {
            cmd.stdout(std::process::Stdio::null());
            cmd.stderr(std::process::Stdio::piped());
        }
        cmd.output_or_status(quiet)
    };
    let mut extra = Vec::new();
    if let Some(r) = &replay {
        extra.push("--replay".to_string());
        extra.push(r.clone());
    }
    let (status, _) = spawn(&extra, false);
    use std::os::unix::process::ExitStatusExt;
    let crashed = |st: &std::process::ExitStatus| {
        st.code() == Some(ALLOC_EXIT)
            || matches!(st.signal(), Some(libc::SIGABRT) | Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGILL))
    };
    if !crashed(&status) {
        std::process::exit(status.code().unwrap_or(2))
    }
    if let Some(r) = &replay {
        println!("VIOLATION property={} replay={}", property, r);
        std::process::exit(1)
    }
    // The code under test killed the process: find the case by journaling, confirm by replaying.
    eprintln!("[{}] child crashed ({}), looking for the case", property, status);
    let dir = std::env::temp_dir().join(format!("vh-journal-{}-{}", property, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let (status2, _) = spawn(&["--journal".into(), dir.display().to_string()], true);
    let mut code = 2;
    if crashed(&status2) {
        let mut entries: Vec<_> = std::fs::read_dir(&dir)
            .map(|d| d.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        entries.sort();
        for path in entries {
            let (st, err) = spawn(&["--replay".into(), path.display().to_string()], true);
            if crashed(&st) {
                let out = root.join("replays");
                let _ = std::fs::create_dir_all(&out);
                let dest = out.join(format!("{}-crash.json", property));
                let best = shrink_crash(&path, |p| {
                    crashed(&spawn(&["--replay".into(), p.display().to_string()], true).0)
                });
                let _ = std::fs::write(&dest, best);
                eprintln!("{}", truncate(&err, 2000));
                println!("VIOLATION property={} replay={}", property, dest.display());
                let ev = serde_json::json!({
                    "property": property, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
                    "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": 0, "distinct_nontrivial": 0,
                        "rule": "the process under test was killed by the code under test", "samples": [dest.display().to_string()]},
                    "wall_s": 0.0, "violations": 1});
                let _ = std::fs::create_dir_all(root.join("evidence"));
                let _ = std::fs::write(root.join("evidence").join(format!("{}.json", property)), ev.to_string());
                code = 1;
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if code == 2 {
        eprintln!("[{}] crash did not reproduce", property);
    }
    std::process::exit(code)
}

/// Greedy shrinking of byte-string leaves ("hex" strings and arrays) of a crashing case.
fn shrink_crash(path: &PathBuf, crashes: impl Fn(&PathBuf) -> bool) -> String {
    let mut best: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let tmp = path.with_extension("shrink");
    let mut budget = 150;
    let mut progress = true;
    let start = Instant::now();
    let late = || start.elapsed().as_secs() > 60;
    while progress && budget > 0 && !late() {
        progress = false;
        let candidates = shrink_candidates(&best["case"]);
        for c in candidates {
            if budget == 0 || late() {
                break;
            }
            budget -= 1;
            let mut doc = best.clone();
            doc["case"] = c;
            let _ = std::fs::write(&tmp, doc.to_string());
            if crashes(&tmp) {
                best = doc;
                progress = true;
                break;
            }
        }
    }
    let _ = std::fs::remove_file(&tmp);
    serde_json::to_string_pretty(&best).unwrap()
}

fn shrink_candidates(v: &serde_json::Value) -> Vec<serde_json::Value> {
    use serde_json::Value;
    let mut out = Vec::new();
    match v {
        Value::Array(a) => {
            if a.len() > 1 {
                out.push(Value::Array(a[..a.len() / 2].to_vec()));
                out.push(Value::Array(a[a.len() / 2..].to_vec()));
            }
            if a.len() < 40 {
                for i in 0..a.len() {
                    let mut b = a.clone();
                    b.remove(i);
                    out.push(Value::Array(b));
                }
            }
            for i in 0..a.len().min(16) {
                for c in shrink_candidates(&a[i]) {
                    let mut b = a.clone();
                    b[i] = c;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                for c in shrink_candidates(x) {
                    let mut b = m.clone();
                    b.insert(k.clone(), c);
                    out.push(Value::Object(b));
                }
            }
        }
        Value::String(s) if s.len() > 1 && s.is_ascii() => {
            let half = s.len() / 4 * 2;
            out.push(Value::String(s[..half].to_string()));
            out.push(Value::String(s[half..].to_string()));
            if s.len() > 2 {
                out.push(Value::String(s[..s.len() - 2].to_string()));
                out.push(Value::String(s[2..].to_string()));
            }
        }
        _ => {}
    }
    out
}

trait OutputOrStatus {
    fn output_or_status(&mut self, quiet: bool) -> (std::process::ExitStatus, String);
}

impl OutputOrStatus for std::process::Command {
    fn output_or_status(&mut self, quiet: bool) -> (std::process::ExitStatus, String) {
        if quiet {
            let o = self.output().unwrap();
            (o.status, String::from_utf8_lossy(&o.stderr).into_owned())
        } else {
            (self.status().unwrap(), String::new())
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Allocation meter.

pub const ALLOC_EXIT: i32 = 77;
/// No check ever needs a single allocation this large.
const HARD_LIMIT: usize = 1 << 30;

thread_local! {
    static METER: std::cell::Cell<(bool, usize, usize, usize)> = const { std::cell::Cell::new((false, 0, 0, 0)) };
}

pub struct Meter;

/// Peak live bytes and largest single request made by `f` on this thread.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    METER.with(|m| m.set((true, 0, 0, 0)));
    let r = f();
    let (_, _, peak, largest) = METER.with(|m| m.get());
    METER.with(|m| m.set((false, 0, 0, 0)));
    (r, peak, largest)
}

#[inline]
fn note_alloc(size: usize) {
    let _ = METER.try_with(|m| {
        let (on, live, peak, largest) = m.get();
        if on {
            let live = live.saturating_add(size);
            m.set((true, live, peak.max(live), largest.max(size)));
        }
    });
    if size > HARD_LIMIT {
        let msg = b"allocation request above 1 GiB\n";
        unsafe {
            libc::write(2, msg.as_ptr() as *const libc::c_void, msg.len());
            libc::_exit(ALLOC_EXIT)
        }
    }
}

#[inline]
fn note_free(size: usize) {
    let _ = METER.try_with(|m| {
        let (on, live, peak, largest) = m.get();
        if on {
            m.set((true, live.saturating_sub(size), peak, largest));
        }
    });
}

unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note_alloc(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note_alloc(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        note_free(l.size());
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note_alloc(n);
        note_free(l.size());
        std::alloc::System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------------------------------------
// Small helpers used by the properties.

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)+) => {
        if !($cond) {
            return Err(format!($($fmt)+));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err(format!("{}: {} != {}", format!($($fmt)+),
                        $crate::runner::truncate(&format!("{:?}", a), 1500), $crate::runner::truncate(&format!("{:?}", b), 1500)));
                }
            }
        }
    };
}

/// Byte strings in cases serialise as hex.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Hex(pub Vec<u8>);

impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x{}", hex::encode(&self.0))
    }
}
impl Serialize for Hex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        hex::encode(&self.0).serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Hex {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(Hex(hex::decode(s).map_err(serde::de::Error::custom)?))
    }
}
impl std::ops::Deref for Hex {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.0
    }
}

/// Byte strings with lengths spread over the interesting boundaries.
pub fn bytes(max: usize) -> BoxedStrategy<Hex> {
    let small = proptest::collection::vec(any::<u8>(), 0..=max.min(40));
    let full = proptest::collection::vec(any::<u8>(), 0..=max);
    prop_oneof![3 => small.prop_map(Hex), 1 => full.prop_map(Hex)].boxed()
}

/// Long byte strings are cheap: a length and a fill pattern.
pub fn filled(len: usize, salt: u8) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(31).wrapping_add(salt)).collect()
}

/// Standard output sent to /dev/null while alive.
pub struct Quiet(i32);

impl Quiet {
    pub fn new() -> Quiet {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            let saved = libc::dup(1);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::close(null);
            Quiet(saved)
        }
    }
}

impl Drop for Quiet {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(self.0, 1);
            libc::close(self.0);
        }
    }
}
