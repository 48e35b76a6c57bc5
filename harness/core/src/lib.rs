//! Shared machinery of the checks: seeded generation in a fixed number of
//! shard processes, shrinking, replay files, evidence, known findings.

pub mod bytes;
pub mod dict;
pub mod gen;

pub use bytes::B;
pub use proptest;
pub use serde;
pub use serde_json;

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self { Tier::Quick => quick, Tier::Thorough => thorough }
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Pass,
    /// The property is broken; text says how.
    Fail(String),
    /// A deviation with an exact signature, see known_findings.txt.
    Known(String, String),
    /// The harness could not decide (never a violation).
    Inconclusive(String),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub verdict:    Verdict,
    pub nontrivial: bool,
    pub classes:    Vec<String>,
}

impl Outcome {
    pub fn new(nontrivial: bool) -> Self { Self { verdict: Verdict::Pass, nontrivial, classes: vec![] } }
    pub fn class(&mut self, c: impl Into<String>) { self.classes.push(c.into()) }
    pub fn class_if(&mut self, b: bool, c: &str) { if b { self.classes.push(c.into()) } }
    /// Keeps the first failure.
    pub fn fail(&mut self, msg: impl Into<String>) {
        if let Verdict::Pass | Verdict::Known(..) = self.verdict { self.verdict = Verdict::Fail(msg.into()) }
    }
    pub fn known(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        if let Verdict::Pass = self.verdict { self.verdict = Verdict::Known(key.into(), msg.into()) }
    }
    pub fn inconclusive(&mut self, msg: impl Into<String>) {
        if let Verdict::Pass | Verdict::Known(..) = self.verdict { self.verdict = Verdict::Inconclusive(msg.into()) }
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) { if !ok { self.fail(msg()) } }
}

pub trait Check {
    type Case: Clone + Debug + Serialize + DeserializeOwned + 'static;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str { "exploration" }
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
    /// Number of generated cases over all shards.
    fn cases(&self, tier: Tier) -> u64;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Cases always run, before the generated ones, split over the shards.
    fn fixed(&self, _tier: Tier) -> Vec<Self::Case> { vec![] }
    fn run(&mut self, case: &Self::Case) -> Outcome;
    fn shrink_limit(&self) -> u32 { 400 }
}

#[derive(Serialize, Deserialize, Default)]
struct ShardResult {
    evaluations:  u64,
    fixed:        u64,
    corpus:       u64,
    hashes:       Vec<u64>,
    classes:      BTreeMap<String, u64>,
    samples:      Vec<Value>,
    failure:      Option<(Value, String)>,
    known:        BTreeMap<String, (u64, String, Value)>,
    inconclusive: Vec<String>,
    cut_short:    bool,
}

pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3))
}

pub fn verif() -> PathBuf { std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), PathBuf::from) }
pub fn repo() -> PathBuf { std::env::var_os("REPO_DIR").map_or_else(|| "/repo".into(), PathBuf::from) }
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }
pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => Tier::Thorough, _ => Tier::Quick }
}

fn runner(id: &str, shard: u64) -> TestRunner {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed().to_le_bytes());
    s[8..16].copy_from_slice(&shard.to_le_bytes());
    s[16..24].copy_from_slice(&fnv(id.as_bytes()).to_le_bytes());
    let cfg = Config { failure_persistence: None, max_global_rejects: 1 << 30, max_local_rejects: 1 << 30, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

fn guarded<C: Check>(c: &mut C, case: &C::Case) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| c.run(case))) {
        Ok(o)  => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            let mut o = Outcome::new(false);
            o.inconclusive(format!("harness panic: {}", m));
            o
        }
    }
}

/// Entry point of a check binary for one property.
pub fn main<C: Check>(mut check: C) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let pos = |k: &str| args.iter().position(|a| a == k);
    if let Some(i) = pos("--replay") {
        replay(&mut check, Path::new(&args[i + 1]))
    } else if let Some(i) = pos("--worker") {
        let trace = pos("--trace").map(|j| PathBuf::from(&args[j + 1]));
        worker(check, args[i + 1].parse().unwrap(), Path::new(&args[i + 2]), trace)
    } else {
        orchestrate(check)
    }
}

fn replay<C: Check>(c: &mut C, p: &Path) -> ! {
    let v: Value = serde_json::from_slice(&std::fs::read(p).expect("replay file")).expect("replay json");
    let case: C::Case = serde_json::from_value(v["case"].clone()).expect("replay case");
    let o = guarded(c, &case);
    println!("{:?} classes={:?}", o.verdict, o.classes);
    match o.verdict {
        Verdict::Pass            => exit(0),
        Verdict::Known(k, m)     => { println!("KNOWN-FINDING: property={} {} {}", c.id(), k, m); exit(0) }
        Verdict::Fail(_)         => { println!("VIOLATION property={} replay={}", c.id(), p.display()); exit(1) }
        Verdict::Inconclusive(_) => exit(2),
    }
}

fn corpus(id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(verif().join("regress").join(id)).into_iter().flatten()
        .flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect();
    v.sort();
    v
}

/// How long a shard may go on generating cases (it then reports what it
/// explored), shrinking, and waiting for one case to end; and how long the
/// other shards get once one of them has found a failure.
const GENERATE_QUICK: Duration = Duration::from_secs(480);
const SHRINK:         Duration = Duration::from_secs(45);
const CASE:           Duration = Duration::from_secs(180);
const OTHERS:         Duration = Duration::from_secs(60);

/// The case being decided, for the watchdog: when it started, what it is,
/// and the failure it is being shrunk from.
static CURRENT: Mutex<Option<(Instant, Vec<u8>, Option<(Value, String)>)>> = Mutex::new(None);

fn watched(case: Option<(&[u8], Option<(Value, String)>)>) {
    *CURRENT.lock().unwrap() = case.map(|(js, best)| (Instant::now(), js.to_vec(), best));
}

/// A case that never ends is a failure of its own: the code under test
/// hangs where it has to return.
fn watchdog(out: PathBuf) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let g = CURRENT.lock().unwrap();
        if let Some((t, js, best)) = &*g {
            if t.elapsed() > CASE {
                let failure = best.clone().unwrap_or_else(||
                    (serde_json::from_slice(js).unwrap(), format!("the case did not end within {:?}", CASE)));
                let r = ShardResult { failure: Some(failure), ..ShardResult::default() };
                save(&r, &out);
                exit(0)
            }
        }
    });
}

fn save(r: &ShardResult, out: &Path) {
    let tmp = out.with_extension("tmp");
    std::fs::write(&tmp, serde_json::to_vec(r).unwrap()).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

fn worker<C: Check>(mut c: C, shard: u64, out: &Path, trace: Option<PathBuf>) -> ! {
    let tier = tier();
    let t0 = Instant::now();
    watchdog(out.to_owned());
    let mut r = ShardResult::default();
    let mut hashes = HashSet::new();
    let known = known_keys(c.id());

    let mut stop = false;
    let mut eval = |c: &mut C, r: &mut ShardResult, case: &C::Case| -> Option<String> {
        let js = serde_json::to_vec(case).unwrap();
        if let Some(t) = &trace { std::fs::write(t, &js).unwrap(); }
        watched(Some((&js, None)));
        let o = guarded(c, case);
        watched(None);
        r.evaluations += 1;
        for k in &o.classes { *r.classes.entry(k.clone()).or_default() += 1; }
        if o.nontrivial && hashes.insert(fnv(&js)) && r.samples.len() < 3 {
            r.samples.push(clip(json!({ "case": case, "classes": o.classes })));
        }
        match o.verdict {
            Verdict::Pass => None,
            Verdict::Fail(m) => Some(m),
            Verdict::Known(k, m) => {
                if !known.contains(&k) { return Some(m) }
                let e = r.known.entry(k).or_insert_with(|| (0, m, serde_json::to_value(case).unwrap()));
                e.0 += 1;
                None
            }
            Verdict::Inconclusive(m) => { if r.inconclusive.len() < 5 { r.inconclusive.push(format!("{} in {}", m, String::from_utf8_lossy(&js))); } None }
        }
    };

    let mut pre: Vec<(bool, C::Case)> = vec![];
    for (i, p) in corpus(c.id()).into_iter().enumerate() {
        if i as u64 % SHARDS == shard {
            let v: Value = serde_json::from_slice(&std::fs::read(&p).unwrap()).unwrap();
            match serde_json::from_value(v["case"].clone()) {
                Ok(case) => pre.push((true, case)),
                Err(e)   => r.inconclusive.push(format!("corpus {}: {}", p.display(), e)),
            }
        }
    }
    for (i, case) in c.fixed(tier).into_iter().enumerate() {
        if i as u64 % SHARDS == shard { pre.push((false, case)); }
    }
    for (is_corpus, case) in pre {
        if is_corpus { r.corpus += 1 } else { r.fixed += 1 }
        if let Some(m) = eval(&mut c, &mut r, &case) {
            r.failure = Some((serde_json::to_value(&case).unwrap(), m));
            stop = true;
            break;
        }
    }

    if !stop {
        let strat = c.strategy(tier);
        let mut rn = runner(c.id(), shard);
        let n = c.cases(tier) / SHARDS;
        for _ in 0..n {
            if tier == Tier::Quick && t0.elapsed() > GENERATE_QUICK { r.cut_short = true; break }
            let mut tree = match strat.new_tree(&mut rn) {
                Ok(t)  => t,
                Err(e) => { r.inconclusive.push(format!("generator: {}", e)); break }
            };
            let case = tree.current();
            if let Some(mut msg) = eval(&mut c, &mut r, &case) {
                // shrink
                let mut best = case;
                let mut left = c.shrink_limit();
                let mut more = tree.simplify();
                let t1 = Instant::now();
                while more && left > 0 && t1.elapsed() < SHRINK {
                    left -= 1;
                    let cand = tree.current();
                    let js = serde_json::to_vec(&cand).unwrap();
                    if let Some(t) = &trace { std::fs::write(t, &js).unwrap(); }
                    watched(Some((&js, Some((serde_json::to_value(&best).unwrap(), msg.clone())))));
                    let v = guarded(&mut c, &cand).verdict;
                    watched(None);
                    if let Verdict::Fail(m) = v {
                        best = cand;
                        msg = m;
                        more = tree.simplify();
                    } else {
                        more = tree.complicate();
                    }
                }
                r.failure = Some((serde_json::to_value(&best).unwrap(), msg));
                break;
            }
            if r.inconclusive.len() >= 5 { break }
        }
    }

    r.hashes = hashes.into_iter().collect();
    save(&r, out);
    exit(0)
}

/// Keeps evidence samples readable.
fn clip(v: Value) -> Value {
    match v {
        Value::String(s) if s.len() > 200 => {
            let mut n = 160;
            while !s.is_char_boundary(n) { n -= 1 }
            Value::String(format!("{}... ({} chars)", &s[..n], s.len()))
        }
        Value::Array(a) if a.len() > 40 => {
            let n = a.len();
            let mut b: Vec<Value> = a.into_iter().take(30).map(clip).collect();
            b.push(Value::String(format!("... {} in all", n)));
            Value::Array(b)
        }
        Value::Array(a)  => Value::Array(a.into_iter().map(clip).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, clip(v))).collect()),
        v => v,
    }
}

/// Keys listed in known_findings.txt as
/// `finding: property=<id> key=<key> <text>`.
fn known_keys(id: &str) -> HashSet<String> {
    std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix("finding:"))
        .filter_map(|l| {
            let mut t = l.split_whitespace();
            (t.next()? == format!("property={}", id)).then(|| t.next()?.strip_prefix("key=").map(str::to_owned))?
        }).collect()
}

fn spawn_worker(shard: u64, out: &Path, trace: Option<&Path>) -> std::process::Child {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    args.push("--worker".into());
    args.push(shard.to_string());
    args.push(out.display().to_string());
    if let Some(t) = trace { args.push("--trace".into()); args.push(t.display().to_string()); }
    Command::new(std::env::current_exe().unwrap()).args(args).stdin(Stdio::null()).spawn().expect("spawn worker")
}

fn orchestrate<C: Check>(c: C) -> ! {
    let t0 = std::time::Instant::now();
    let id = c.id();
    let work = verif().join("work").join(id);
    let _ = std::fs::create_dir_all(&work);
    let outs: Vec<PathBuf> = (0..SHARDS).map(|i| work.join(format!("shard{}.json", i))).collect();
    for o in &outs { let _ = std::fs::remove_file(o); }
    let mut kids: Vec<_> = (0..SHARDS).map(|i| spawn_worker(i, &outs[i as usize], None)).collect();
    let load = |i: usize| -> Option<ShardResult> {
        std::fs::read(&outs[i]).ok().and_then(|b| serde_json::from_slice(&b).ok())
    };
    // every shard runs to its end, unless one of them has found a failure:
    // the others then have a moment to find a smaller one
    let mut ended: Vec<Option<std::process::ExitStatus>> = vec![None; kids.len()];
    let mut failed: Option<Instant> = None;
    while ended.iter().any(|e| e.is_none()) {
        for i in 0..kids.len() {
            if ended[i].is_some() { continue }
            if let Some(st) = kids[i].try_wait().expect("wait") {
                ended[i] = Some(st);
                if load(i).map_or(false, |r| r.failure.is_some()) { failed.get_or_insert_with(Instant::now); }
            }
        }
        if failed.map_or(false, |t| t.elapsed() > OTHERS) { break }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (k, e) in kids.iter_mut().zip(&ended) {
        if e.is_none() {
            let _ = k.kill();
            let _ = k.wait();
        }
        // what a check leaves behind in the scratch places it makes
        for scratch in ["vp", "vscript."] { let _ = std::fs::remove_dir_all(format!("/tmp/{}{}", scratch, k.id())); }
    }
    let mut total = ShardResult::default();
    let mut all = HashSet::new();
    let mut failures: Vec<(Value, String)> = vec![];
    for (i, st) in ended.into_iter().enumerate() {
        let st = match st { Some(st) => st, None => continue };
        match load(i) {
            Some(r) => {
                total.evaluations += r.evaluations;
                total.cut_short |= r.cut_short;
                total.fixed += r.fixed;
                total.corpus += r.corpus;
                all.extend(r.hashes);
                for (k, n) in r.classes { *total.classes.entry(k).or_default() += n; }
                if total.samples.len() < 8 { total.samples.extend(r.samples.into_iter().take(2)); }
                failures.extend(r.failure);
                for (k, v) in r.known { total.known.entry(k).or_insert(v); }
                total.inconclusive.extend(r.inconclusive);
            }
            // the shard itself died: the code under test took the process
            // down; find the case by running the shard again, traced
            None if failed.is_some() => (),
            None => {
                let trace = work.join(format!("trace{}.json", i));
                let _ = std::fs::remove_file(&trace);
                let mut again = spawn_worker(i as u64, &outs[i], Some(&trace));
                let t1 = Instant::now();
                let st2 = loop {
                    if let Some(st) = again.try_wait().expect("wait") { break st }
                    if t1.elapsed() > GENERATE_QUICK { let _ = again.kill(); break again.wait().expect("wait") }
                    std::thread::sleep(Duration::from_millis(20));
                };
                if st2.success() {
                    if let Some(f) = load(i).and_then(|r| r.failure) { failures.push(f); failed.get_or_insert(t1); continue }
                }
                if t1.elapsed() > GENERATE_QUICK {
                    total.inconclusive.push(format!("shard {} died ({}) and took too long again", i, st));
                    continue
                }
                let case = std::fs::read(&trace).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
                match case {
                    Some(case) if !st2.success() => {
                        failures.push((case, format!("process died: {}", st2)));
                        failed.get_or_insert(t1);
                    }
                    _ => total.inconclusive.push(format!("shard {} died ({}) and the crash did not repeat ({})", i, st, st2)),
                }
            }
        }
    }
    total.hashes = vec![];

    // the smallest failure is reported
    failures.sort_by_key(|(c, _)| serde_json::to_vec(c).unwrap().len());
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id,
        "tier": if tier() == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed(),
        "level": c.level(),
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": all.len(),
            "rule": c.rule(),
            "samples": total.samples,
            "classes": total.classes,
            "fixed_cases": total.fixed,
            "regression_corpus": total.corpus,
            "shards": SHARDS,
            "cut_short": total.cut_short,
            "known_finding_hits": total.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": c.assumptions(),
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": failures.len(),
    });
    let evdir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", id)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");

    println!("{}: {} cases, {} distinct non-trivial, {:.1}s", id, total.evaluations, all.len(), wall);
    for (k, n) in &total.classes { println!("  {:>8} {}", n, k); }
    for (k, (n, m, _)) in &total.known { println!("KNOWN-FINDING: property={} key={} {} ({} cases)", id, k, m, n); }
    if let Some((case, msg)) = failures.first() {
        let dir = verif().join("work").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{:016x}.json", id, fnv(&serde_json::to_vec(case).unwrap())));
        std::fs::write(&p, serde_json::to_vec_pretty(&json!({ "property": id, "message": msg, "case": case })).unwrap()).unwrap();
        println!("{}", msg);
        println!("minimal case: {}", clip(case.clone()));
        println!("VIOLATION property={} replay={}", id, p.display());
        exit(1)
    }
    if !total.inconclusive.is_empty() {
        for m in total.inconclusive.iter().take(5) {
            let mut n = m.len().min(2000);
            while !m.is_char_boundary(n) { n -= 1 }
            println!("INCONCLUSIVE: {}", &m[..n]);
        }
        exit(2)
    }
    exit(0)
}
