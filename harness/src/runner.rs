//! The search engine: generates cases with proptest strategies, runs them against the
//! property's oracle on 8 threads, shrinks failures, records evidence and replays.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub type Res = Result<(), String>;

/// Number of independent generator streams per sub-check.  Fixed, so that a run is a function
/// of the seed and not of the machine.
const SHARDS: usize = 16;
const THREADS: usize = 8;
const MAX_SHRINK_ITERS: usize = 1500;
const MAX_SHRINK_TIME: Duration = Duration::from_secs(40);
/// A case that takes longer than this (they take milliseconds) hangs.
const HANG: Duration = Duration::from_secs(100);
/// Default limit of elementary steps (sector and map-entry accesses) of one case.
pub const CASE_STEPS: u64 = 15_000_000;

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("panic: {} at {}", msg, loc));
            }
        });
    }));
}

/// Run a closure, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            cbm::verif::set_step_budget(None);
            cbm::verif::set_write_observer(None);
            Err(PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".to_string()))
        }
    }
}

/// What a single case reports about itself.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

pub struct Failure {
    pub sub: String,
    pub message: String,
    pub case: Value,
    pub origin: String,
}

pub enum Mode {
    Check,
    Replay { sub: String, case: Value },
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub mode: Mode,
    pub only: Option<String>,
    pub corpus: PathBuf,
    pub journal: Option<PathBuf>,
    pub failure: Option<Failure>,
    pub replayed: Option<Res>,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub samples: Vec<Value>,
    pub classes: BTreeMap<String, Value>,
    pub rules: Vec<String>,
    pub corpus_cases: u64,
    pub exhaustive: Vec<String>,
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Ctx {
    pub fn new(id: &str, seed: u64, thorough: bool, mode: Mode) -> Ctx {
        Ctx {
            id: id.to_string(),
            seed,
            thorough,
            scale: std::env::var("VERIF_SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1.0),
            mode,
            only: std::env::var("VERIF_SUB").ok(),
            corpus: root().join("corpus").join(id),
            journal: std::env::var("HARNESS_JOURNAL").ok().map(PathBuf::from),
            failure: None,
            replayed: None,
            evaluations: 0,
            distinct_nontrivial: 0,
            samples: vec![],
            classes: BTreeMap::new(),
            rules: vec![],
            corpus_cases: 0,
            exhaustive: vec![],
        }
    }

    /// Scale a quick-tier case count to the tier.
    fn count(&self, quick: usize, thorough_factor: usize) -> usize {
        let n = if self.thorough {
            quick * thorough_factor
        } else {
            quick
        };
        ((n as f64 * self.scale) as usize).max(SHARDS)
    }

    fn run_one<C>(case: &C, test: &(dyn Fn(&C, &mut Obs) -> Res + Sync), obs: &mut Obs) -> Res {
        cbm::verif::set_write_observer(None);
        cbm::verif::set_step_budget(Some(CASE_STEPS));
        let r = guard(|| test(case, obs));
        cbm::verif::set_step_budget(None);
        cbm::verif::set_write_observer(None);
        match r {
            Ok(r) => r,
            Err(e) => Err(e),
        }
    }

    /// Run a sub-check: `cases` generated cases (quick tier) of `strategy`, decided by `test`.
    /// `rule` states when a case counts as non-trivial.
    pub fn sub<C>(
        &mut self,
        name: &str,
        cases: usize,
        rule: &str,
        strategy: &(dyn Fn() -> BoxedStrategy<C> + Sync),
        test: &(dyn Fn(&C, &mut Obs) -> Res + Sync),
    ) where
        C: Serialize + DeserializeOwned + std::fmt::Debug + Send,
    {
        if self.failure.is_some() {
            return;
        }
        if let Mode::Replay { ref sub, ref case } = self.mode {
            if sub == name {
                let res = match serde_json::from_value::<C>(case.clone()) {
                    Ok(c) => Self::run_one(&c, test, &mut Obs::default()),
                    Err(e) => {
                        eprintln!("cannot decode case: {}", e);
                        std::process::exit(3);
                    }
                };
                self.replayed = Some(res);
            }
            return;
        }
        if let Some(ref only) = self.only {
            if only != name {
                return;
            }
        }
        let start = Instant::now();
        self.rules.push(format!("[{}] {}", name, rule));

        // Saved regression cases first.
        let mut corpus: Vec<PathBuf> = std::fs::read_dir(&self.corpus)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        corpus.sort();
        for path in corpus {
            let v: Value = match std::fs::read(&path)
                .ok()
                .and_then(|b| serde_json::from_slice(&b).ok())
            {
                Some(v) => v,
                None => continue,
            };
            if v["sub"] != json!(name) {
                continue;
            }
            match serde_json::from_value::<C>(v["case"].clone()) {
                Ok(c) => {
                    self.corpus_cases += 1;
                    self.evaluations += 1;
                    if let Some(ref j) = self.journal {
                        let _ = write_replay(&j.join("corpus.json"), &self.id, name, "crash", &v["case"]);
                    }
                    let r = {
                        let _watch = Watch::new(&self.id, self.seed, self.thorough, name, v["case"].clone());
                        Self::run_one(&c, test, &mut Obs::default())
                    };
                    if let Err(m) = r {
                        self.failure = Some(Failure {
                            sub: name.to_string(),
                            message: m,
                            case: v["case"].clone(),
                            origin: format!("regression case {}", path.display()),
                        });
                        return;
                    }
                }
                Err(e) => {
                    eprintln!("{}: cannot decode regression case: {}", path.display(), e);
                    std::process::exit(3);
                }
            }
        }

        let factor: usize = std::env::var("VERIF_THOROUGH_FACTOR")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(16);
        let total = self.count(cases, factor);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let stats = Mutex::new(Stats::default());
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let (id, seed, journal, thorough) = (&self.id, self.seed, &self.journal, self.thorough);
        // What each thread is working on: start time and address of the case.
        let slots: Vec<Mutex<Option<(Instant, usize)>>> =
            (0..THREADS).map(|_| Mutex::new(None)).collect();
        let slots = &slots;
        let done = AtomicUsize::new(0);
        let (next, stop, stats, failure, done) = (&next, &stop, &stats, &failure, &done);

        std::thread::scope(|scope| {
            scope.spawn(move || {
                while done.load(Ordering::SeqCst) < THREADS {
                    std::thread::sleep(Duration::from_millis(5));
                    for s in slots {
                        let s = s.lock().unwrap();
                        if let Some((t, p)) = *s {
                            if t.elapsed() > HANG {
                                // The thread clears its slot (under this lock) before it
                                // drops or changes the case, so the case is still there.
                                let case = unsafe { &*(p as *const C) };
                                let v = serde_json::to_value(case).unwrap_or(Value::Null);
                                crate::report_hang(id, seed, thorough, name, &v, HANG);
                            }
                        }
                    }
                }
            });
            for thread in 0..THREADS {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || loop {
                        let watched = |case: &C, obs: &mut Obs| -> Res {
                            *slots[thread].lock().unwrap() =
                                Some((Instant::now(), case as *const C as usize));
                            let r = Self::run_one(case, test, obs);
                            *slots[thread].lock().unwrap() = None;
                            r
                        };
                        let shard = next.fetch_add(1, Ordering::SeqCst);
                        if shard >= SHARDS || stop.load(Ordering::Relaxed) {
                            done.fetch_add(1, Ordering::SeqCst);
                            break;
                        }
                        let n = total / SHARDS + usize::from(shard < total % SHARDS);
                        let mut s = seed
                            ^ hash_str(&format!("{}/{}/{}", id, name, shard));
                        let mut key = [0u8; 32];
                        for c in key.chunks_mut(8) {
                            c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
                        }
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &key);
                        let mut runner = TestRunner::new_with_rng(
                            Config {
                                failure_persistence: None,
                                ..Config::default()
                            },
                            rng,
                        );
                        let strat = strategy();
                        let mut local = Stats::default();
                        for i in 0..n {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut tree = match strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    eprintln!("generator failed: {}", e);
                                    std::process::exit(3);
                                }
                            };
                            let case = tree.current();
                            if let Some(j) = journal {
                                let v = serde_json::to_value(&case).unwrap();
                                let p = j.join(format!("{}-{}.json", name, shard));
                                let _ = write_replay(&p, id, name, "crash", &v);
                            }
                            let mut obs = Obs::default();
                            local.evaluations += 1;
                            let r = watched(&case, &mut obs);
                            obs.labels.sort_unstable();
                            obs.labels.dedup();
                            for l in &obs.labels {
                                *local.labels.entry(l).or_insert(0) += 1;
                            }
                            if obs.nontrivial {
                                let text = serde_json::to_string(&case).unwrap();
                                local.distinct.insert(hash_str(&text));
                                if shard == 0 && i >= 3 && local.samples.len() < 2 && text.len() < 4000 {
                                    local.samples.push(json!({
                                        "sub": name, "case": serde_json::to_value(&case).unwrap(),
                                        "labels": obs.labels,
                                    }));
                                }
                            }
                            if let Err(message) = r {
                                if stop.swap(true, Ordering::SeqCst) {
                                    break; // another shard was first
                                }
                                let (case, message) = shrink(&mut *tree, case, message, &watched);
                                *failure.lock().unwrap() = Some(Failure {
                                    sub: name.to_string(),
                                    message,
                                    case: serde_json::to_value(&case).unwrap(),
                                    origin: format!("seed {} shard {} case {}", seed, shard, i),
                                });
                                break;
                            }
                        }
                        let mut all = stats.lock().unwrap();
                        all.evaluations += local.evaluations;
                        all.distinct.extend(local.distinct);
                        for (k, v) in local.labels {
                            *all.labels.entry(k).or_insert(0) += v;
                        }
                        all.samples.extend(local.samples);
                    })
                    .unwrap();
            }
        });

        let stats = std::mem::take(&mut *stats.lock().unwrap());
        self.evaluations += stats.evaluations;
        self.distinct_nontrivial += stats.distinct.len() as u64;
        self.samples.extend(stats.samples);
        let wall = start.elapsed().as_secs_f64();
        self.classes.insert(
            name.to_string(),
            json!({
                "evaluations": stats.evaluations,
                "distinct_nontrivial": stats.distinct.len(),
                "labels": stats.labels,
                "wall_s": (wall * 100.0).round() / 100.0,
            }),
        );
        self.failure = failure.lock().unwrap().take();
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!(
                "  {}/{}: {} cases, {} distinct non-trivial, {:.1}s {:?}",
                self.id,
                name,
                stats.evaluations,
                stats.distinct.len(),
                wall,
                stats.labels
            );
        }
    }

    /// A finite space enumerated completely.  `test` gets an index below `n`.
    pub fn exhaustive(
        &mut self,
        name: &str,
        n: usize,
        rule: &str,
        test: &(dyn Fn(&usize, &mut Obs) -> Res + Sync),
    ) {
        if self.failure.is_some() {
            return;
        }
        if let Mode::Replay { ref sub, ref case } = self.mode {
            if sub == name {
                let i = case.as_u64().unwrap_or(0) as usize;
                self.replayed = Some(Self::run_one(&i, test, &mut Obs::default()));
            }
            return;
        }
        if let Some(ref only) = self.only {
            if only != name {
                return;
            }
        }
        let start = Instant::now();
        self.rules.push(format!("[{}] {}", name, rule));
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
        let nontrivial = AtomicUsize::new(0);
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let journal = &self.journal;
        let (id, seed, thorough) = (&self.id, self.seed, self.thorough);
        std::thread::scope(|scope| {
            for t in 0..THREADS {
                let (next, stop, labels, nontrivial, failure) =
                    (&next, &stop, &labels, &nontrivial, &failure);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                      let watch = Watch::new(id, seed, thorough, name, Value::Null);
                      loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        watch.restart(json!(i));
                        if let Some(j) = journal {
                            let p = j.join(format!("{}-{}.json", name, t));
                            let _ = write_replay(&p, id, name, "crash", &json!(i));
                        }
                        let mut obs = Obs::default();
                        let r = Self::run_one(&i, test, &mut obs);
                        {
                            let mut l = labels.lock().unwrap();
                            obs.labels.sort_unstable();
                            obs.labels.dedup();
                            for x in obs.labels {
                                *l.entry(x).or_insert(0) += 1;
                            }
                        }
                        if obs.nontrivial {
                            nontrivial.fetch_add(1, Ordering::Relaxed);
                        }
                        if let Err(message) = r {
                            if !stop.swap(true, Ordering::SeqCst) {
                                *failure.lock().unwrap() = Some(Failure {
                                    sub: name.to_string(),
                                    message,
                                    case: json!(i),
                                    origin: "enumeration".to_string(),
                                });
                            }
                        }
                      }
                    })
                    .unwrap();
            }
        });
        self.evaluations += n as u64;
        let nt = nontrivial.into_inner() as u64;
        self.distinct_nontrivial += nt;
        self.classes.insert(
            name.to_string(),
            json!({"evaluations": n, "distinct_nontrivial": nt, "labels": labels.into_inner().unwrap(),
                "exhaustive": true, "wall_s": (start.elapsed().as_secs_f64()*100.0).round()/100.0}),
        );
        self.exhaustive.push(name.to_string());
        self.failure = failure.into_inner().unwrap();
    }
}

/// Reports a hang when it is neither dropped nor restarted in time.
struct Watch(std::sync::Arc<Mutex<Option<(Instant, Value)>>>);

impl Watch {
    fn new(id: &str, seed: u64, thorough: bool, name: &str, case: Value) -> Watch {
        let slot = std::sync::Arc::new(Mutex::new(Some((Instant::now(), case))));
        let (s, id, name) = (slot.clone(), id.to_string(), name.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(5));
            match *s.lock().unwrap() {
                None => break,
                Some((t, ref case)) if t.elapsed() > HANG => {
                    crate::report_hang(&id, seed, thorough, &name, case, HANG)
                }
                _ => {}
            }
        });
        Watch(slot)
    }
    fn restart(&self, case: Value) {
        *self.0.lock().unwrap() = Some((Instant::now(), case));
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        *self.0.lock().unwrap() = None;
    }
}

fn shrink<C>(
    tree: &mut dyn ValueTree<Value = C>,
    first: C,
    first_message: String,
    run: &dyn Fn(&C, &mut Obs) -> Res,
) -> (C, String)
where
    C: std::fmt::Debug,
{
    let start = Instant::now();
    let mut best = (first, first_message);
    let mut iters = 0;
    if !tree.simplify() {
        return best;
    }
    loop {
        iters += 1;
        if iters > MAX_SHRINK_ITERS || start.elapsed() > MAX_SHRINK_TIME {
            break;
        }
        let case = tree.current();
        match run(&case, &mut Obs::default()) {
            Err(m) => {
                best = (case, m);
                if !tree.simplify() {
                    break;
                }
            }
            Ok(()) => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    best
}

pub fn write_replay(
    path: &Path,
    id: &str,
    sub: &str,
    message: &str,
    case: &Value,
) -> std::io::Result<()> {
    let v = json!({"property": id, "sub": sub, "message": message, "case": case});
    std::fs::write(path, serde_json::to_vec_pretty(&v)?)
}

pub fn file_tag(f: &Failure) -> String {
    format!("{:08x}", hash_str(&f.case.to_string()) as u32)
}

/// Where replays, evidence and corpus live: /verif, unless the harness is tried out elsewhere.
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
