//! Drives generated cases through a property: seeding, parallelism, counting,
//! shrinking, replay files and the evidence file.

use crate::gen::Lcg;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// What one evaluated case was.
#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn when(self, c: bool, l: &str) -> Self {
        if c { self.label(l) } else { self }
    }
}
pub type Outcome = Result<Info, String>;

#[derive(Default)]
struct FacetStats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    rule: String,
}

impl FacetStats {
    fn count<V: Serialize>(&mut self, v: &V, out: &Outcome) {
        self.evaluations += 1;
        if let Ok(i) = out {
            for k in &i.labels {
                *self.labels.entry(k.clone()).or_default() += 1;
            }
            if i.nontrivial {
                self.nontrivial += 1;
                let js = serde_json::to_value(v).unwrap();
                self.distinct.insert(hash(&js.to_string()));
                if self.samples.len() < 3 {
                    self.samples.push(json!({"case": short(js), "labels": i.labels}));
                }
            }
        }
    }
}

pub struct Violation {
    pub facet: String,
    pub message: String,
    pub case: Value,
}

pub enum Purpose {
    Explore,
    Replay { facet: String, case: Value },
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub only: Option<String>,
    purpose: Purpose,
    stats: Mutex<BTreeMap<String, FacetStats>>,
    violations: Mutex<Vec<Violation>>,
    replayed: AtomicBool,
    notes: Mutex<Vec<String>>,
    started: Instant,
}

pub const THREADS: usize = 8;
/// Factor on the quick tier's numbers of cases.
pub const QUICK: f64 = 0.6;

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What each thread is working on, so that a hang or a crash of the whole
/// process still leaves a case to replay.
pub mod slots {
    use super::*;
    pub struct Slot {
        pub since: Instant,
        pub case: Value,
    }
    pub static SLOTS: [Mutex<Option<Slot>>; THREADS] = [const { Mutex::new(None) }; THREADS];

    pub fn enter<V: Serialize>(t: usize, id: &str, facet: &str, v: &V) {
        let case = json!({"property": id, "facet": facet, "case": v});
        if let Ok(dir) = std::env::var("VH_SLOTS") {
            let _ = std::fs::write(format!("{dir}/{t}.json"), case.to_string());
        }
        *SLOTS[t].lock().unwrap() = Some(Slot { since: Instant::now(), case });
    }
    pub fn leave(t: usize) {
        *SLOTS[t].lock().unwrap() = None;
        if let Ok(dir) = std::env::var("VH_SLOTS") {
            let _ = std::fs::remove_file(format!("{dir}/{t}.json"));
        }
    }
    /// A case that has been running for longer than any case should.
    pub fn stuck(limit: std::time::Duration) -> Option<Value> {
        SLOTS.iter().find_map(|s| {
            s.lock().unwrap().as_ref().filter(|s| s.since.elapsed() > limit).map(|s| s.case.clone())
        })
    }
}

/// A panic that escapes a check fails it.
fn checked<V>(check: &(impl Fn(&V) -> Outcome + ?Sized), v: &V) -> Outcome {
    crate::sut::guarded(|| check(v)).unwrap_or_else(|p| Err(format!("panic: {p}")))
}

pub fn write_replay(mut case: Value, message: &str) -> PathBuf {
    let dir = root().join("evidence/replay");
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{}-{}.json", case["property"].as_str().unwrap(), case["facet"].as_str().unwrap()));
    case["message"] = json!(message);
    std::fs::write(&p, serde_json::to_string_pretty(&case).unwrap()).unwrap();
    p
}
/// The evidence of a run that a crash or hang of the code under test cut short.
pub fn write_aborted_evidence(id: &str, seed: u64, thorough: bool, why: &str) {
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was cut short by the recorded case", "samples": [why]},
        "wall_s": 0.0,
        "violations": 1,
    });
    let _ = std::fs::write(root().join(format!("evidence/{id}.json")), serde_json::to_string_pretty(&ev).unwrap());
}
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()))
}

impl Ctx {
    pub fn new(id: &str, seed: u64, thorough: bool, purpose: Purpose) -> Self {
        let scale = std::env::var("VH_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
        Ctx {
            id: id.into(),
            seed,
            thorough,
            scale,
            only: std::env::var("VH_FACET").ok(),
            purpose,
            stats: Default::default(),
            violations: Default::default(),
            replayed: AtomicBool::new(false),
            notes: Default::default(),
            started: Instant::now(),
        }
    }

    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    /// `quick` cases in the quick tier, `deep` in the thorough one.
    pub fn facet<S, V>(
        &self,
        name: &str,
        rule: &str,
        quick: u32,
        deep: u32,
        strategy: impl Fn() -> S + Sync,
        check: impl Fn(&V) -> Outcome + Sync,
    ) where
        S: Strategy<Value = V>,
        V: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send,
    {
        if self.replay(name, &check) || self.skip(name) {
            return;
        }
        let total = if self.thorough { deep as f64 } else { quick as f64 * QUICK } * self.scale;
        let total = total.ceil() as u32;
        let t0 = Instant::now();
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(usize, Violation)>> = Mutex::new(vec![]);
        let local: Mutex<FacetStats> = Mutex::new(FacetStats { rule: rule.into(), ..Default::default() });
        std::thread::scope(|sc| {
            for t in 0..THREADS {
                let cases = total / THREADS as u32 + u32::from((t as u32) < total % THREADS as u32);
                if cases == 0 {
                    continue;
                }
                let (stop, found, local, strategy, check) = (&stop, &found, &local, &strategy, &check);
                let id = &self.id;
                let seed = self.seed;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut g = Lcg::new(seed ^ fnv(&format!("{id}/{name}/{t}")));
                        let mut bytes = [0u8; 32];
                        for c in bytes.chunks_mut(8) {
                            c.copy_from_slice(&g.next().to_le_bytes());
                        }
                        let config = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: if std::env::var_os("VH_NOSHRINK").is_some() { 0 } else { 400 },
                            max_shrink_time: 30_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
                        let failing = std::cell::Cell::new(false);
                        let s = strategy();
                        let r = runner.run(&s, |v| {
                            if stop.load(Ordering::SeqCst) && !failing.get() {
                                return Ok(());
                            }
                            slots::enter(t, id, name, &v);
                            let out = checked(check, &v);
                            slots::leave(t);
                            if !failing.get() {
                                local.lock().unwrap().count(&v, &out);
                            }
                            match out {
                                Ok(_) => Ok(()),
                                Err(m) => {
                                    failing.set(true);
                                    stop.store(true, Ordering::SeqCst);
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        match r {
                            Ok(()) => {}
                            Err(TestError::Fail(_, v)) => {
                                let m = checked(check, &v).err().unwrap_or_else(|| "did not fail again".into());
                                found.lock().unwrap().push((
                                    t,
                                    Violation { facet: name.into(), message: m, case: serde_json::to_value(&v).unwrap() },
                                ));
                            }
                            Err(TestError::Abort(why)) => {
                                eprintln!("facet {name}: generation aborted: {why}");
                                std::process::exit(3);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        self.conclude(name, t0, local.into_inner().unwrap(), found.into_inner().unwrap());
    }

    /// A fixed list of cases, all of which run in every tier.
    pub fn each<V>(&self, name: &str, rule: &str, cases: Vec<V>, check: impl Fn(&V) -> Outcome + Sync)
    where
        V: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + Sync,
    {
        if self.replay(name, &check) || self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let found: Mutex<Vec<(usize, Violation)>> = Mutex::new(vec![]);
        let local: Mutex<FacetStats> = Mutex::new(FacetStats { rule: rule.into(), ..Default::default() });
        std::thread::scope(|sc| {
            for t in 0..THREADS {
                let (next, found, local, cases, check, id) = (&next, &found, &local, &cases, &check, &self.id);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        let Some(v) = cases.get(i) else { return };
                        slots::enter(t, id, name, v);
                        let out = checked(check, v);
                        slots::leave(t);
                        local.lock().unwrap().count(v, &out);
                        if let Err(m) = out {
                            let v = Violation { facet: name.into(), message: m, case: serde_json::to_value(v).unwrap() };
                            found.lock().unwrap().push((i, v));
                        }
                    })
                    .unwrap();
            }
        });
        self.conclude(name, t0, local.into_inner().unwrap(), found.into_inner().unwrap());
    }

    fn skip(&self, name: &str) -> bool {
        self.only.as_deref().is_some_and(|o| o != name) || !self.violations.lock().unwrap().is_empty()
    }

    fn replay<V: DeserializeOwned>(&self, name: &str, check: impl Fn(&V) -> Outcome) -> bool {
        let Purpose::Replay { facet, case } = &self.purpose else { return false };
        if facet == name {
            self.replayed.store(true, Ordering::SeqCst);
            let v: V = serde_json::from_value(case.clone()).expect("replay case does not parse");
            if let Err(m) = checked(&check, &v) {
                self.violations.lock().unwrap().push(Violation { facet: name.into(), message: m, case: case.clone() });
            }
        }
        true
    }

    fn conclude(&self, name: &str, t0: Instant, local: FacetStats, mut found: Vec<(usize, Violation)>) {
        found.sort_by_key(|f| f.0);
        eprintln!(
            "  {}/{name}: {} cases, {} non-trivial, {:.1}s{}",
            self.id,
            local.evaluations,
            local.nontrivial,
            t0.elapsed().as_secs_f64(),
            if found.is_empty() { "" } else { "  FAILED" }
        );
        if std::env::var("VH_LABELS").is_ok() {
            eprintln!("      {:?}", local.labels);
        }
        self.stats.lock().unwrap().insert(name.into(), local);
        if let Some((_, v)) = found.into_iter().next() {
            self.violations.lock().unwrap().push(v);
        }
    }

    /// Writes evidence and replay files, prints the verdict, returns the exit code.
    pub fn finish(self, level: &str, assumptions: &[&str]) -> i32 {
        let verif = root();
        let vio = self.violations.into_inner().unwrap();
        if let Purpose::Replay { facet, .. } = &self.purpose {
            if !self.replayed.load(Ordering::SeqCst) {
                eprintln!("replay: no facet {facet} in {}", self.id);
                return 3;
            }
            for v in &vio {
                println!("replay: {}/{} still fails: {}", self.id, v.facet, v.message);
            }
            return if vio.is_empty() { 0 } else { 1 };
        }
        let stats = self.stats.into_inner().unwrap();
        let evaluations: u64 = stats.values().map(|s| s.evaluations).sum();
        let distinct: usize = stats.values().map(|s| s.distinct.len()).sum();
        let mut samples = vec![];
        let mut facets = serde_json::Map::new();
        let mut rules = vec![];
        for (n, s) in &stats {
            for x in s.samples.iter().take(2) {
                samples.push(json!({"facet": n, "case": x["case"], "labels": x["labels"]}));
            }
            rules.push(format!("{n}: {}", s.rule));
            facets.insert(
                n.clone(),
                json!({"evaluations": s.evaluations, "nontrivial": s.nontrivial, "distinct_nontrivial": s.distinct.len(), "labels": s.labels}),
            );
        }
        let notes = self.notes.into_inner().unwrap();
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": distinct,
                "rule": rules.join(" | "),
                "samples": samples,
                "facets": facets,
                "notes": notes,
            },
            "assumptions": assumptions,
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": vio.len(),
        });
        let dir = verif.join("evidence");
        std::fs::create_dir_all(dir.join("replay")).unwrap();
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        for v in &vio {
            let p = write_replay(json!({"property": self.id, "facet": v.facet, "case": v.case}), &v.message);
            println!("{}/{}: {}", self.id, v.facet, v.message);
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        for n in notes {
            println!("note: {n}");
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {:.1}s, {}",
            self.id,
            evaluations,
            distinct,
            self.started.elapsed().as_secs_f64(),
            if vio.is_empty() { "held".to_string() } else { format!("{} violation(s)", vio.len()) }
        );
        i32::from(!vio.is_empty())
    }
}

/// Long arrays in a sample are cut so that the evidence file stays readable.
fn short(v: Value) -> Value {
    match v {
        Value::Array(a) if a.len() > 40 => {
            let n = a.len();
            let mut a: Vec<Value> = a.into_iter().take(12).map(short).collect();
            a.push(json!(format!("... {n} in all")));
            Value::Array(a)
        }
        Value::Array(a) => Value::Array(a.into_iter().map(short).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, short(v))).collect()),
        v => v,
    }
}
