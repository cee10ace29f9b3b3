//! The property runner: generated cases (proptest strategies), an oracle, shrinking, replay files, evidence.
//!
//! Every random choice is a pure function of (VERIF_SEED, property, check name, case index), so a run is
//! reproducible whatever the thread schedule; the code under test gets its randomness from seeds inside the case.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::format;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::prelude::v1::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub tags: Vec<String>,
}

impl Obs {
    pub fn tag(mut self, t: impl Into<String>) -> Self {
        self.tags.push(t.into());
        self
    }
    pub fn tag_if(self, c: bool, t: &str) -> Self {
        if c {
            self.tag(t)
        } else {
            self
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<Obs, Fail>;

pub fn good() -> R {
    Ok(Obs { nontrivial: true, tags: vec![] })
}
pub fn obs(nontrivial: bool) -> Obs {
    Obs { nontrivial, tags: vec![] }
}
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! vensure {
    ($cond:expr, $sig:expr) => {
        if !($cond) {
            return Err($crate::verif::common::runner::Fail { sig: ($sig).to_string(), msg: std::format!("violated: {}", stringify!($cond)) });
        }
    };
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::verif::common::runner::Fail { sig: ($sig).to_string(), msg: std::format!($($arg)*) });
        }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        let msg = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
        if !quiet {
            default(info);
        }
    }));
}

/// Runs `f`, turning a panic into `Err(message with location)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.replace(before));
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

/// Where the panic message says it happened, without line numbers (so that signatures survive edits).
pub fn panic_site(msg: &str) -> String {
    let loc = msg.split("panicked at ").nth(1).unwrap_or("").lines().next().unwrap_or("");
    let file = loc.split(':').next().unwrap_or("");
    let text = msg.lines().nth(1).unwrap_or("");
    let text: String = text.chars().take(60).collect();
    format!("panic@{file}:{text}")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Stat {
    evaluations: usize,
    nontrivial: usize,
    distinct: HashSet<u64>,
    tags: BTreeMap<String, usize>,
    samples: Vec<Value>,
    rule: String,
    known: BTreeMap<String, usize>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    pub mult: f64,
    replay: Option<(String, Value)>,
    known: Vec<(String, String)>,
    stats: Mutex<BTreeMap<String, Stat>>,
    fails: Mutex<Vec<(String, Fail, Value)>>,
    notes: Mutex<Vec<String>>,
    started: Instant,
    threads: usize,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// SplitMix64-based expansion of a string and two numbers into 32 bytes.
pub fn seed_bytes(label: &str, a: u64, b: u64) -> [u8; 32] {
    let mut s = fnv(label.as_bytes()) ^ a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.rotate_left(32).wrapping_mul(0xD1342543DE82EF95);
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

fn trunc(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v.clone()
    } else {
        Value::String(format!("{}… ({} bytes)", s.chars().take(1200).collect::<String>(), s.len()))
    }
}

impl Ctx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.tier == Tier::Quick { quick } else { thorough };
        ((n as f64 * self.mult) as usize).max(1)
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    fn eval<C>(&self, f: &(impl Fn(&C) -> R + Sync), c: &C) -> R {
        match no_panic(|| f(c)) {
            Ok(r) => r,
            Err(p) => Err(Fail { sig: panic_site(&p), msg: p }),
        }
    }

    fn is_known(&self, check: &str, fl: &Fail) -> Option<String> {
        let full = format!("{check}/{}", fl.sig);
        self.known.iter().find(|(s, _)| *s == full).map(|(s, d)| format!("{s} :: {d}"))
    }

    /// Generates `n` cases and evaluates `f` on each.
    pub fn check<C>(
        &self,
        name: &str,
        rule: &str,
        n: usize,
        strat: impl Fn() -> BoxedStrategy<C> + Sync,
        f: impl Fn(&C) -> R + Sync,
    ) where
        C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
    {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if let Some((rname, rcase)) = &self.replay {
            if rname == name {
                let c: C = serde_json::from_value(rcase.clone()).expect("replay case decodes");
                match self.eval(&f, &c) {
                    Ok(o) => println!("replay {name}: held ({o:?})"),
                    Err(fl) => self.fails.lock().unwrap().push((name.into(), fl, rcase.clone())),
                }
            }
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let first_fail: Mutex<Option<(usize, Fail, Value)>> = Mutex::new(None);
        let stat = Mutex::new(Stat {
            evaluations: 0,
            nontrivial: 0,
            distinct: HashSet::new(),
            tags: BTreeMap::new(),
            samples: vec![],
            rule: rule.to_string(),
            known: BTreeMap::new(),
        });
        let label = format!("{}/{}", self.prop, name);
        let run_one = |i: usize| {
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&label, self.seed, i as u64));
            let mut runner = TestRunner::new_with_rng(
                Config { failure_persistence: None, ..Config::default() },
                rng,
            );
            let mut tree = strat().new_tree(&mut runner).expect("the strategy generates");
            let c = tree.current();
            let res = self.eval(&f, &c);
            let ser = serde_json::to_value(&c).expect("the case serializes");
            let h = fnv(ser.to_string().as_bytes());
            {
                let mut s = stat.lock().unwrap();
                s.evaluations += 1;
                match &res {
                    Ok(o) => {
                        if o.nontrivial {
                            s.nontrivial += 1;
                            s.distinct.insert(h);
                            if i < 2 {
                                s.samples.push(trunc(&ser));
                            }
                        }
                        for t in &o.tags {
                            *s.tags.entry(t.clone()).or_insert(0) += 1;
                        }
                    }
                    Err(_) => {
                        s.nontrivial += 1;
                        s.distinct.insert(h);
                    }
                }
            }
            if let Err(fl) = res {
                if let Some(k) = self.is_known(name, &fl) {
                    *stat.lock().unwrap().known.entry(k).or_insert(0) += 1;
                    return;
                }
                if std::env::var_os("VERIF_FAILFAST").is_some() {
                    println!("FAILFAST {label} {}", fl.sig);
                    std::process::exit(1);
                }
                stop.store(true, Ordering::SeqCst);
                // shrink
                let deadline = Instant::now() + Duration::from_secs(45);
                let (mut best, mut best_fail) = (c, fl);
                let mut iters = 0;
                if tree.simplify() {
                    loop {
                        iters += 1;
                        if iters > 400 || Instant::now() > deadline {
                            break;
                        }
                        let cur = tree.current();
                        match self.eval(&f, &cur) {
                            Err(fl2) if self.is_known(name, &fl2).is_none() => {
                                best = cur;
                                best_fail = fl2;
                                if !tree.simplify() {
                                    break;
                                }
                            }
                            _ => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                let ser = serde_json::to_value(&best).expect("the case serializes");
                let mut ff = first_fail.lock().unwrap();
                if ff.as_ref().map_or(true, |(j, _, _)| i < *j) {
                    *ff = Some((i, best_fail, ser));
                }
            }
        };
        std::thread::scope(|sc| {
            for _ in 0..self.threads.min(n) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        run_one(i);
                    })
                    .expect("thread");
            }
        });
        let s = stat.into_inner().unwrap();
        let status = match first_fail.into_inner().unwrap() {
            Some((_, fl, case)) => {
                self.fails.lock().unwrap().push((name.to_string(), fl, case));
                "FAIL"
            }
            None => "ok",
        };
        println!(
            "  {name}: {status}; {} evaluations, {} nontrivial, {:.1}s {:?}",
            s.evaluations,
            s.nontrivial,
            t0.elapsed().as_secs_f64(),
            s.tags
        );
        for (k, n) in &s.known {
            println!("KNOWN-FINDING: property={} {} ({} cases)", self.prop, k, n);
        }
        let mut all = self.stats.lock().unwrap();
        assert!(all.insert(name.to_string(), s).is_none(), "duplicate check name {name}");
    }

    /// Writes evidence, prints the verdict, returns the exit code.
    pub fn finish(self, verif: &str, level: &str) -> i32 {
        let stats = self.stats.into_inner().unwrap();
        let fails = self.fails.into_inner().unwrap();
        let notes = self.notes.into_inner().unwrap();
        let mut evals = 0;
        let mut distinct = 0;
        let mut rules = vec![];
        let mut samples = vec![];
        let mut per = serde_json::Map::new();
        for (name, s) in &stats {
            evals += s.evaluations;
            distinct += s.distinct.len();
            rules.push(format!("{name}: {}", s.rule));
            for x in &s.samples {
                samples.push(json!({"check": name, "case": x}));
            }
            per.insert(
                name.clone(),
                json!({"evaluations": s.evaluations, "nontrivial": s.nontrivial, "distinct_nontrivial": s.distinct.len(),
                       "classes": s.tags, "known_findings": s.known}),
            );
        }
        let mut code = 0;
        let mut viol = vec![];
        for (name, fl, case) in &fails {
            code = 1;
            let dir = format!("{verif}/.work/replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}-{}.json", self.prop, name.replace('/', "_"));
            let body = json!({"property": self.prop, "check": name, "signature": format!("{name}/{}", fl.sig), "message": fl.msg, "case": case});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("  check={name} signature={name}/{}\n  {}", fl.sig, fl.msg.chars().take(2000).collect::<String>());
            viol.push(json!({"check": name, "signature": fl.sig, "message": fl.msg.chars().take(2000).collect::<String>(), "replay": path}));
        }
        if self.replay.is_none() {
            let ev = json!({
                "property": self.prop,
                "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
                "seed": self.seed,
                "level": level,
                "coverage": {
                    "evaluations": evals,
                    "distinct_nontrivial": distinct,
                    "rule": format!("Cases are generated by proptest strategies; non-trivial per sub-check: {}", rules.join(" | ")),
                    "samples": samples,
                    "per_check": per,
                    "notes": notes,
                },
                "violations": viol,
                "wall_s": self.started.elapsed().as_secs_f64(),
            });
            let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
            let suffix = if self.only.is_some() { ".partial" } else { "" };
            std::fs::write(
                format!("{verif}/evidence/{}{suffix}.json", self.prop),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("evidence is written");
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s",
            self.prop,
            evals,
            distinct,
            fails.len(),
            self.started.elapsed().as_secs_f64()
        );
        code
    }
}

/// `BIN PROP` or `BIN replay FILE`; VERIF_SEED, VERIF_TIER, VERIF_DIR, VERIF_ONLY, VERIF_MULT, VERIF_FAILFAST from the environment.
pub fn main_with(table: &[(&str, fn(&Ctx))]) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let verif = env("VERIF_DIR").unwrap_or_else(|| "/verif".into());
    let (prop, replay) = if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
        (
            v["property"].as_str().expect("property").to_string(),
            Some((v["check"].as_str().expect("check").to_string(), v["case"].clone())),
        )
    } else {
        (args.get(1).cloned().unwrap_or_default(), None)
    };
    let Some((_, f)) = table.iter().find(|(p, _)| *p == prop) else {
        eprintln!("unknown property {prop}; have {:?}", table.iter().map(|x| x.0).collect::<Vec<_>>());
        std::process::exit(2);
    };
    let known = std::fs::read_to_string(format!("{verif}/KNOWN_FINDINGS.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("known: property={prop} "))?;
            let (sig, desc) = rest.split_once(" :: ")?;
            Some((sig.trim().to_string(), desc.trim().to_string()))
        })
        .collect();
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if env("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let limit: u64 = env("VERIF_LIMIT_S").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 850 } else { 7200 });
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("INCONCLUSIVE: wall-clock limit reached (not a violation)");
        std::process::exit(4);
    });
    let ctx = Ctx {
        prop: prop.clone(),
        tier,
        seed,
        only: env("VERIF_ONLY"),
        mult: env("VERIF_MULT").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        replay,
        known,
        stats: Mutex::new(BTreeMap::new()),
        fails: Mutex::new(vec![]),
        notes: Mutex::new(vec![]),
        started: Instant::now(),
        threads: env("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
    };
    println!("{prop}: tier {:?}, seed {seed}", tier);
    f(&ctx);
    std::process::exit(ctx.finish(&verif, "exploration"));
}
