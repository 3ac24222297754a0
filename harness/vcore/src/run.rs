//! Deterministic, sharded property runner on top of proptest: generation, shrinking, replay
//! files, counters and evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const SHARDS: usize = 8;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
static HOOK: std::sync::Once = std::sync::Once::new();
pub fn install_hook() {
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|i| {
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
        }))
    });
}
/// Call code under test; a panic comes back as an error message.
pub fn subject<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
/// Call code that must not panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    subject(f).map_err(|e| format!("{what} panicked: {e}"))
}

/// What a case turned out to be.
#[derive(Default, Clone, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<String>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info { nontrivial, classes: vec![] }
    }
    pub fn class(mut self, c: impl Into<String>) -> Info {
        self.classes.push(c.into());
        self
    }
}
pub type Verdict = Result<Info, String>;

#[derive(Default)]
struct Tally {
    evaluations: u64,
    distinct: HashSet<u64>,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}
impl Tally {
    fn add<C: Serialize>(&mut self, c: &C, info: &Info) {
        self.evaluations += 1;
        let v = serde_json::to_value(c).unwrap();
        let h = hash64(&v.to_string());
        self.distinct.insert(h);
        if info.nontrivial && self.nontrivial.insert(h) && self.samples.len() < 2 {
            self.samples.push(v);
        }
        for k in &info.classes {
            *self.classes.entry(k.clone()).or_default() += 1;
        }
    }
    fn merge(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Check {
    pub id: String,
    pub variant: String,
    pub thorough: bool,
    pub seed: u64,
    out: PathBuf,
    replay: Option<(String, serde_json::Value)>,
    replayed: bool,
    violation: Option<String>,
    error: Option<String>,
    parts: Vec<serde_json::Value>,
    started: std::time::Instant,
}

fn scale() -> f64 {
    std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
impl Check {
    /// args: ID [--variant NAME] [--replay FILE]
    pub fn from_args() -> Check {
        install_hook();
        let mut a = std::env::args().skip(1);
        let id = a.next().expect("property id");
        let (mut variant, mut replay) = ("default".to_string(), None);
        while let Some(x) = a.next() {
            match x.as_str() {
                "--variant" => variant = a.next().unwrap(),
                "--replay" => {
                    let f = a.next().unwrap();
                    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay json");
                    replay = Some((v["part"].as_str().unwrap().to_string(), v["case"].clone()));
                }
                _ => panic!("unknown argument {x}"),
            }
        }
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let out = PathBuf::from(std::env::var("VERIF_OUT").unwrap_or("/verif/out".into()));
        std::fs::create_dir_all(out.join("replay")).ok();
        std::fs::create_dir_all(out.join("partial")).ok();
        watch(id.clone(), variant.clone(), out.clone(), seed);
        // The run as a whole taking too long is an error of the run, never a verdict.
        let limit: u64 = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 840 });
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            eprintln!("error: time limit of {limit} s reached; no verdict");
            std::process::exit(4);
        });
        Check { id, variant, thorough, seed, out, replay, replayed: false, violation: None, error: None, parts: vec![], started: std::time::Instant::now() }
    }
    pub fn stopped(&self) -> bool {
        self.violation.is_some() || self.error.is_some()
    }
    fn shard_seed(&self, part: &str, shard: usize) -> u64 {
        hash64(&format!("{}/{}/{}/{}/{}", self.seed, self.id, self.variant, part, shard))
    }
    /// Randomly generated cases. `cases` is the total for the quick tier; thorough multiplies it.
    pub fn part<C>(
        &mut self,
        name: &str,
        rule: &str,
        cases: u64,
        thorough_factor: u64,
        strategy: impl Fn() -> BoxedStrategy<C> + Sync,
        check: impl Fn(&C) -> Verdict + Sync,
    ) where
        C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + 'static,
    {
        *PART.lock().unwrap() = name.to_string();
        if self.stopped() || self.try_replay(name, &check) {
            return;
        }
        let t0 = std::time::Instant::now();
        let total = if self.thorough { cases * thorough_factor } else { cases };
        let per = (((total as f64 * scale()) as u64) / SHARDS as u64).max(1);
        let results: Vec<(Tally, Option<(String, C)>, Option<String>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|s| {
                    let seed = self.shard_seed(name, s);
                    let (strategy, check) = (&strategy, &check);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || run_shard(seed, per, strategy(), check))
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (Tally::default(), None, Some("shard thread died".into())))).collect()
        });
        let mut tally = Tally::default();
        for (t, fail, err) in results {
            tally.merge(t);
            if let Some(e) = err {
                self.error.get_or_insert(e);
            } else if let Some((msg, case)) = fail {
                self.fail(name, &msg, &case);
            }
        }
        self.push_part(name, rule, tally, false, t0);
    }
    /// A finite list of cases, all of them executed.
    pub fn exhaustive<C>(&mut self, name: &str, rule: &str, cases: Vec<C>, check: impl Fn(&C) -> Verdict + Sync)
    where
        C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + Sync + 'static,
    {
        *PART.lock().unwrap() = name.to_string();
        if self.stopped() || self.try_replay(name, &check) {
            return;
        }
        let t0 = std::time::Instant::now();
        // (development runs with VERIF_SCALE sample long lists)
        let every = if cases.len() > 2000 { (1.0 / scale()).round().max(1.0) as usize } else { 1 };
        let cases: Vec<C> = cases.into_iter().step_by(every).collect();
        let results: Vec<(Tally, Option<(usize, String)>, Option<String>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|s| {
                    let (cases, check) = (&cases, &check);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut t = Tally::default();
                            for (i, c) in cases.iter().enumerate().filter(|(i, _)| i % SHARDS == s) {
                                match guarded(check, c) {
                                    Ok(Ok(info)) => t.add(c, &info),
                                    Ok(Err(m)) => return (t, Some((i, m)), None),
                                    Err(e) => return (t, None, Some(e)),
                                }
                            }
                            (t, None, None)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (Tally::default(), None, Some("shard thread died".into())))).collect()
        });
        let mut tally = Tally::default();
        let mut first: Option<(usize, String)> = None;
        for (t, f, e) in results {
            tally.merge(t);
            if let Some(e) = e {
                self.error.get_or_insert(e);
            }
            if let Some((i, m)) = f {
                if first.as_ref().map_or(true, |(j, _)| i < *j) {
                    first = Some((i, m));
                }
            }
        }
        if let Some((i, m)) = first {
            self.fail(name, &m, &cases[i]);
        }
        self.push_part(name, rule, tally, true, t0);
    }
    fn try_replay<C: DeserializeOwned + Serialize + Clone + Send + 'static>(&mut self, name: &str, check: &(impl Fn(&C) -> Verdict + Sync)) -> bool {
        let Some((part, case)) = &self.replay else { return false };
        if part == name {
            self.replayed = true;
            let c: C = serde_json::from_value(case.clone()).expect("case");
            let verdict = std::thread::scope(|sc| {
                let t = std::thread::Builder::new().stack_size(64 << 20);
                t.spawn_scoped(sc, move || guarded(check, &c)).unwrap().join().unwrap()
            });
            match verdict {
                Ok(Ok(_)) => println!("replay: the property holds on this case"),
                Ok(Err(m)) => {
                    println!("replay: {m}");
                    self.violation = Some("(replayed)".into());
                }
                Err(e) => self.error = Some(e),
            }
        }
        true
    }
    fn fail<C: Serialize>(&mut self, part: &str, msg: &str, case: &C) {
        if self.violation.is_some() {
            return;
        }
        let case = serde_json::to_value(case).unwrap();
        let name = format!("{}-{}-{}-{:016x}.json", self.id, self.variant, part.replace(|c: char| !c.is_alphanumeric(), "_"), hash64(&case.to_string()));
        let path = self.out.join("replay").join(name);
        let v = serde_json::json!({"property": self.id, "variant": self.variant, "part": part, "message": msg, "case": case, "seed": self.seed});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{} [{}]: {}", part, self.variant, msg);
        self.violation = Some(path.display().to_string());
    }
    fn push_part(&mut self, name: &str, rule: &str, t: Tally, exhaustive: bool, t0: std::time::Instant) {
        println!(
            "{} {} [{}]: {} cases, {} distinct non-trivial, {:.1} s",
            self.id, name, self.variant, t.evaluations, t.nontrivial.len(), t0.elapsed().as_secs_f64()
        );
        self.parts.push(serde_json::json!({
            "part": name, "variant": self.variant, "rule": rule, "exhaustive": exhaustive,
            "evaluations": t.evaluations, "distinct": t.distinct.len(), "distinct_nontrivial": t.nontrivial.len(),
            "classes": t.classes, "samples": t.samples.iter().take(3).collect::<Vec<_>>(),
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
    }
    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            if !self.replayed && self.error.is_none() {
                println!("no part of that name in this binary");
                std::process::exit(2);
            }
        } else {
            let v = serde_json::json!({
                "property": self.id, "variant": self.variant, "parts": self.parts, "seed": self.seed,
                "tier": if self.thorough {"thorough"} else {"quick"},
                "violation": self.violation, "error": self.error, "wall_s": self.started.elapsed().as_secs_f64(),
            });
            std::fs::write(self.out.join("partial").join(format!("{}.{}.json", self.id, self.variant)), v.to_string()).unwrap();
        }
        if let Some(v) = &self.violation {
            println!("VIOLATION property={} replay={}", self.id, v);
            std::process::exit(1);
        }
        if let Some(e) = &self.error {
            println!("error in the harness: {e}");
            std::process::exit(2);
        }
        std::process::exit(0);
    }
}

/// Ok(verdict), or Err if the harness itself panicked.
fn guarded<C: Serialize + Clone + Send + 'static>(check: &(impl Fn(&C) -> Verdict + Sync), c: &C) -> Result<Verdict, String> {
    install_hook();
    SLOT.with(|s| s.start(c));
    let r = catch_unwind(AssertUnwindSafe(|| check(c))).map_err(|_| format!("harness panic: {}", LAST_PANIC.with(|p| p.borrow().clone())));
    SLOT.with(|s| s.end());
    r
}

// What every shard is executing. A case that does not return within a long time (they take
// milliseconds, a few of them seconds) is saved and the run ends with code 5; the driver then runs
// that case alone, and only if it does not return there either it counts as a failure of the
// property: the calls under test are total functions. With VERIF_JOURNAL the running cases are also kept on disk, so that after an
// abort the driver can find out which of them is to blame.
trait Running: Send {
    fn json(&self) -> serde_json::Value;
}
impl<C: Serialize + Send> Running for C {
    fn json(&self) -> serde_json::Value {
        serde_json::to_value(self).unwrap()
    }
}
static TICKS: AtomicU64 = AtomicU64::new(0);
static PART: Mutex<String> = Mutex::new(String::new());
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);
struct Slot {
    number: usize,
    journal: Option<PathBuf>,
    now: Mutex<Option<(u64, Box<dyn Running>)>>,
}
thread_local! {
    static SLOT: Arc<Slot> = {
        let mut all = SLOTS.lock().unwrap();
        let number = all.len();
        let s = Arc::new(Slot { number, journal: std::env::var("VERIF_JOURNAL").ok().map(PathBuf::from), now: Mutex::new(None) });
        all.push(s.clone());
        s
    };
}
impl Slot {
    fn file(&self) -> Option<PathBuf> {
        self.journal.as_ref().map(|d| d.join(format!("{}.json", self.number)))
    }
    fn start<C: Serialize + Clone + Send + 'static>(&self, c: &C) {
        if let Some(f) = self.file() {
            let v = serde_json::json!({"part": *PART.lock().unwrap(), "case": c});
            std::fs::write(f, v.to_string()).ok();
        }
        *self.now.lock().unwrap() = Some((TICKS.load(Ordering::Relaxed), Box::new(c.clone())));
    }
    fn end(&self) {
        *self.now.lock().unwrap() = None;
        if let Some(f) = self.file() {
            std::fs::remove_file(f).ok();
        }
    }
}
fn watch(id: String, variant: String, out: PathBuf, seed: u64) {
    let limit: u64 = std::env::var("VERIF_CASE_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(180);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let t = TICKS.fetch_add(1, Ordering::Relaxed) + 1;
        for s in SLOTS.lock().unwrap().iter() {
            let g = s.now.lock().unwrap();
            let Some((t0, c)) = g.as_ref() else { continue };
            if t - t0 > limit {
                let part = PART.lock().unwrap().clone();
                let path = out.join("replay").join(format!("{id}-{variant}-hang.json"));
                let msg = format!("does not return within {limit} s");
                let v = serde_json::json!({"property": id, "variant": variant, "part": part, "message": msg, "case": c.json(), "seed": seed});
                std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
                println!("{part} [{variant}]: {msg}");
                println!("hanging case: {}", path.display());
                std::process::exit(5);
            }
        }
    });
}

fn run_shard<C>(seed: u64, cases: u64, strategy: BoxedStrategy<C>, check: &(impl Fn(&C) -> Verdict + Sync)) -> (Tally, Option<(String, C)>, Option<String>)
where
    C: Serialize + std::fmt::Debug + Clone + Send + 'static,
{
    let config = Config {
        cases: cases as u32,
        failure_persistence: None,
        rng_seed: RngSeed::Fixed(seed),
        max_shrink_iters: 3000,
        max_shrink_time: 0,
        ..Config::default()
    };
    let tally = Mutex::new(Tally::default());
    let failed = AtomicBool::new(false);
    let herr: Mutex<Option<String>> = Mutex::new(None);
    let shrink_deadline: Mutex<Option<std::time::Instant>> = Mutex::new(None);
    let mut runner = TestRunner::new(config);
    let res = runner.run(&strategy.prop_map(|c| c), |c| {
        if failed.load(Ordering::Relaxed) {
            // Bound shrinking: afterwards every candidate counts as passing, keeping the best so far.
            let d = *shrink_deadline.lock().unwrap();
            if d.map_or(false, |d| std::time::Instant::now() > d) {
                return Ok(());
            }
        }
        match guarded(check, &c) {
            Ok(Ok(info)) => {
                if !failed.load(Ordering::Relaxed) {
                    tally.lock().unwrap().add(&c, &info);
                }
                Ok(())
            }
            Ok(Err(m)) => {
                if !failed.swap(true, Ordering::Relaxed) {
                    *shrink_deadline.lock().unwrap() = Some(std::time::Instant::now() + std::time::Duration::from_secs(45));
                }
                Err(TestCaseError::fail(m))
            }
            Err(e) => {
                failed.store(true, Ordering::Relaxed);
                herr.lock().unwrap().get_or_insert(e.clone());
                Err(TestCaseError::fail(e))
            }
        }
    });
    let tally = tally.into_inner().unwrap();
    if let Some(e) = herr.into_inner().unwrap() {
        return (tally, None, Some(e));
    }
    match res {
        Ok(()) => (tally, None, None),
        Err(TestError::Fail(reason, c)) => (tally, Some((reason.message().to_string(), c)), None),
        Err(TestError::Abort(r)) => (tally, None, Some(format!("generation aborted: {}", r.message()))),
    }
}

/// Shrink helper: small vector of values is easier to read in messages.
pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 400 {
        format!("{}...", &s[..400])
    } else {
        s
    }
}
