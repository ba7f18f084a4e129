//! The property runner: seeded proptest campaigns over several threads, counters, replay files.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// What one case exercised: whether it counts as non-trivial, and its classes.
#[derive(Default, Clone, Debug)]
pub struct Info { pub nontrivial: bool, pub labels: Vec<String> }
impl Info {
    pub fn new(nontrivial: bool) -> Self { Info { nontrivial, labels: vec![] } }
    pub fn label(mut self, l: impl Into<String>) -> Self { self.labels.push(l.into()); self }
    pub fn label_if(self, c: bool, l: &str) -> Self { if c { self.label(l) } else { self } }
}
pub type Fail = String;
pub type Res = Result<Info, Fail>;
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } }; }

pub struct Ctx {
    pub check: String, pub thorough: bool, pub seed: u64, pub threads: usize,
    replay: Option<(String, Value)>,
    out: String,
    evaluations: u64, distinct: u64,
    samples: Vec<Value>, labels: BTreeMap<String, BTreeMap<String, u64>>, rules: Vec<String>,
    violations: Vec<Value>, known: Vec<Value>, runs: Vec<Value>, notes: Vec<String>,
    pub replay_hit: bool,
    /// Leave the running case in a file, for campaigns whose cases might kill the process.
    pub risky: bool,
}
thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

impl Ctx {
    pub fn from_args() -> Ctx {
        let mut a = std::env::args().skip(1);
        let (mut check, mut tier, mut seed, mut out, mut replay) = (String::new(), "quick".to_string(), 1u64, String::from("/dev/stdout"), None);
        while let Some(k) = a.next() {
            let mut v = || a.next().unwrap_or_default();
            match k.as_str() {
                "--check" => check = v(),
                "--tier" => tier = v(),
                "--seed" => seed = v().parse().unwrap_or(1),
                "--out" => out = v(),
                "--replay" => {
                    let t = std::fs::read_to_string(v()).expect("replay file");
                    let j: Value = serde_json::from_str(&t).expect("replay JSON");
                    replay = Some((j["run"].as_str().expect("run").to_string(), j["case"].clone()));
                }
                _ => {}
            }
        }
        std::panic::set_hook(Box::new(|i| {
            let m = format!("{}", i);
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(m));
        }));
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        Ctx { check, thorough: tier == "thorough", seed, threads, replay, out, evaluations: 0, distinct: 0, samples: vec![], labels: BTreeMap::new(),
            rules: vec![], violations: vec![], known: vec![], runs: vec![], notes: vec![], replay_hit: false, risky: false }
    }
    /// Cases of a campaign. The quick tier has room for three times the basic number, except where the cases are big.
    pub fn n(&self, quick: u32, thorough: u32) -> u32 { if self.thorough { thorough } else if self.check == "P38" { quick } else { quick.saturating_mul(3).min(thorough.max(quick)) } }
    pub fn rule(&mut self, s: &str) { self.rules.push(s.to_string()); }
    pub fn note(&mut self, s: impl Into<String>) { self.notes.push(s.into()); }

    /// A campaign of `cases` generated cases against `oracle`, spread over all cores.
    /// The verdict is a pure function of the code, the seed and the campaign's name.
    pub fn run<C, S, O>(&mut self, name: &str, cases: u32, strat: S, oracle: O)
    where C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
          S: Fn() -> BoxedStrategy<C> + Sync, O: Fn(&C) -> Res + Sync
    { let t = self.threads; self.run_t(name, cases, t, strat, oracle) }

    pub fn run_t<C, S, O>(&mut self, name: &str, cases: u32, threads: usize, strat: S, oracle: O)
    where C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
          S: Fn() -> BoxedStrategy<C> + Sync, O: Fn(&C) -> Res + Sync
    {
        if let Some((rn, case)) = self.replay.clone() {
            if rn != name { return; }
            self.replay_hit = true;
            let c: C = serde_json::from_value(case.clone()).expect("replay case does not fit this campaign");
            match guarded(&oracle, &c) {
                Ok(_) => println!("replay of {}: the property holds", name),
                Err(m) => { println!("replay of {}: {}", name, m); self.violations.push(json!({"run": name, "message": m, "case": case})); }
            }
            return;
        }
        let t0 = std::time::Instant::now();
        let threads = threads.min(cases.max(1) as usize).max(1);
        struct Shared { evals: u64, set: HashSet<u64>, nontriv: u64, labels: BTreeMap<String, u64>, samples: Vec<Value>, fails: Vec<(String, Value)> }
        let shared = Mutex::new(Shared { evals: 0, set: HashSet::new(), nontriv: 0, labels: BTreeMap::new(), samples: vec![], fails: vec![] });
        let stop = AtomicBool::new(false);
        let watch = Watch::start(name, &self.out, threads, self.risky);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (shared, strat, oracle, stop, watch) = (&shared, &strat, &oracle, &stop, &watch);
                let quota = cases / threads as u32 + if (t as u32) < cases % threads as u32 { 1 } else { 0 };
                let seed = self.seed;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (seed, name, t as u64).hash(&mut h);
                    let mut s = [0u8; 32];
                    for k in 0..4u64 { let mut h2 = h.clone(); k.hash(&mut h2); s[8 * k as usize..][..8].copy_from_slice(&h2.finish().to_le_bytes()); }
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &s);
                    let cfg = Config { cases: quota, failure_persistence: None, max_shrink_iters: 3000, max_shrink_time: 45_000, max_global_rejects: 1 << 20, verbose: 0, ..Config::default() };
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let failed = std::cell::Cell::new(false);
                    let st = strat();
                    let r = runner.run(&st, |c: C| {
                        // once another thread failed there is no need to go on
                        if !failed.get() && stop.load(Ordering::Relaxed) { return Ok(()); }
                        watch.enter(t, &c);
                        let r = guarded(oracle, &c);
                        watch.leave(t);
                        let mut g = shared.lock().unwrap();
                        if !failed.get() { g.evals += 1; }
                        match r {
                            Ok(i) => {
                                if !failed.get() {
                                    for l in &i.labels { *g.labels.entry(l.clone()).or_default() += 1; }
                                    if i.nontrivial {
                                        g.nontriv += 1;
                                        let v = serde_json::to_vec(&c).unwrap_or_default();
                                        let mut h = std::collections::hash_map::DefaultHasher::new();
                                        v.hash(&mut h);
                                        g.set.insert(h.finish());
                                        if g.samples.len() < 3 && v.len() < 3000 { if let Ok(j) = serde_json::from_slice(&v) { g.samples.push(j); } }
                                    }
                                }
                                Ok(())
                            }
                            Err(m) => { failed.set(true); stop.store(true, Ordering::Relaxed); Err(TestCaseError::fail(m)) }
                        }
                    });
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(why, c)) => { shared.lock().unwrap().fails.push((why.to_string(), serde_json::to_value(&c).unwrap_or(Value::Null))); }
                        Err(TestError::Abort(why)) => { eprintln!("campaign {} aborted: {}", name, why); std::process::exit(2); }
                    }
                }).expect("thread");
            }
        });
        watch.end();
        let g = shared.into_inner().unwrap();
        self.evaluations += g.evals;
        self.distinct += g.set.len() as u64;
        for s in g.samples.into_iter().take(2) { self.samples.push(json!({"run": name, "case": s})); }
        self.labels.insert(name.into(), g.labels);
        self.runs.push(json!({"run": name, "evaluations": g.evals, "nontrivial": g.nontriv, "distinct_nontrivial": g.set.len(), "seconds": t0.elapsed().as_secs_f64()}));
        if let Some((m, c)) = g.fails.into_iter().min_by_key(|(_, c)| c.to_string().len()) {
            println!("FAILED {}: {}", name, m.chars().take(2000).collect::<String>());
            self.violations.push(json!({"run": name, "message": m, "case": c}));
        }
    }
    /// One fixed probe of a recorded defect. `f` returns a description while the defect is there.
    pub fn probe(&mut self, key: &str, f: impl FnOnce() -> Option<String>) {
        if let Some((rn, _)) = &self.replay { if rn != key { return; } self.replay_hit = true; }
        self.evaluations += 1;
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Some(format!("panic: {}", take_panic())));
        if let Some(m) = r { self.known.push(json!({"key": key, "message": m})); }
    }
    pub fn finish(self) -> ! {
        if self.replay.is_some() { std::process::exit(if !self.replay_hit { 3 } else if self.violations.is_empty() && self.known.is_empty() { 0 } else { 1 }); }
        let mut m = Map::new();
        m.insert("evaluations".into(), json!(self.evaluations));
        m.insert("distinct_nontrivial".into(), json!(self.distinct));
        m.insert("rules".into(), json!(self.rules));
        m.insert("samples".into(), json!(self.samples));
        m.insert("labels".into(), json!(self.labels));
        m.insert("runs".into(), json!(self.runs));
        m.insert("notes".into(), json!(self.notes));
        m.insert("violations".into(), json!(self.violations));
        m.insert("known".into(), json!(self.known));
        std::fs::write(&self.out, serde_json::to_string_pretty(&Value::Object(m)).unwrap()).expect("result file");
        std::process::exit(0)
    }
}
fn take_panic() -> String { LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()) }
fn guarded<C>(oracle: &impl Fn(&C) -> Res, c: &C) -> Res {
    match catch_unwind(AssertUnwindSafe(|| oracle(c))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", take_panic())),
    }
}
/// Call code under test that must not panic; a panic becomes an error message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{} panicked: {}", what, take_panic()))
}
/// Call code under test where a panic counts like an error result.
pub fn panics_as_none<T>(f: impl FnOnce() -> Option<T>) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok().flatten() }

/// Reports a case that burns CPU without end (90 s of CPU time on a small input) or that kills
/// the process, by leaving the running case in a file beside the result.
struct Watch { cur: Arc<Vec<Mutex<Option<(String, libc::pthread_t, f64)>>>>, done: Arc<AtomicU64>, files: Option<(String, String)> }
impl Watch {
    fn start(name: &str, out: &str, threads: usize, risky: bool) -> Watch {
        let cur: Arc<Vec<_>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
        let done = Arc::new(AtomicU64::new(0));
        let files = if risky { Some((out.to_string(), name.to_string())) } else { None };
        let (c, d, name, out) = (cur.clone(), done.clone(), name.to_string(), out.to_string());
        std::thread::spawn(move || {
            while d.load(Ordering::Relaxed) == 0 {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for m in c.iter() {
                    let m: &Mutex<Option<(String, libc::pthread_t, f64)>> = m;
                    if let Some((case, th, start)) = &*m.lock().unwrap() {
                        if cpu(*th) - *start > 90.0 {
                            let j = json!({"violations": [{"run": name, "message": "the call does not terminate (90 s of CPU time used)", "case": serde_json::from_str::<Value>(case).unwrap_or(Value::Null)}]});
                            let _ = std::fs::write(format!("{}.hang", out), j.to_string());
                            std::process::exit(7);
                        }
                    }
                }
            }
        });
        Watch { cur, done, files }
    }
    fn enter<C: Serialize>(&self, t: usize, c: &C) {
        let th = unsafe { libc::pthread_self() };
        let text = serde_json::to_string(c).unwrap_or_default();
        if let Some((out, name)) = &self.files { let _ = std::fs::write(format!("{}.cur.{}", out, t), format!("{{\"run\":{},\"case\":{}}}", json!(name), text)); }
        *self.cur[t].lock().unwrap() = Some((text, th, cpu(th)));
    }
    fn leave(&self, t: usize) {
        *self.cur[t].lock().unwrap() = None;
        if let Some((out, _)) = &self.files { let _ = std::fs::write(format!("{}.cur.{}", out, t), ""); }
    }
    fn end(&self) { self.done.store(1, Ordering::Relaxed); }
}
fn cpu(t: libc::pthread_t) -> f64 {
    unsafe {
        let mut id: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(t, &mut id) != 0 { return 0.0; }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(id, &mut ts) != 0 { return 0.0; }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}
