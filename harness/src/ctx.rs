//! Bookkeeping shared by all checks: counting, violations, evidence.
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub label: String,
    pub detail: String,
}

/// One property's run.
pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    /// Re-run only the case with this label.
    pub only: Option<String>,
    pub start: Instant,
    pub evaluations: u64,
    seen: HashSet<u64>,
    pub nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    class_samples: BTreeMap<String, String>,
    pub violations: Vec<Violation>,
    pub violation_count: u64,
    pub states: Option<u64>,
    pub transitions: Option<u64>,
    pub traces: Option<u64>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    /// Faults are what is enumerated.
    pub fault: bool,
    pub extra: serde_json::Map<String, Json>,
}

const MAX_KEPT: usize = 25;

/// The cases being evaluated, where the watchdog (and, after a crash, the parent) can see them.
pub struct Current {
    cases: Mutex<BTreeMap<usize, (Instant, String)>>,
    path: OnceLock<String>,
}

pub static CURRENT: Current = Current {
    cases: Mutex::new(BTreeMap::new()),
    path: OnceLock::new(),
};

/// How many threads evaluate cases where their order does not matter.
pub const WORKERS: usize = 8;

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static FILE: std::cell::RefCell<Option<std::fs::File>> = const { std::cell::RefCell::new(None) };
}

impl Current {
    /// Also write the cases to files of this name.
    pub fn to_file(&self, path: &str) {
        let _ = self.path.set(path.into());
    }
    fn begin(&self, label: &str) {
        let slot = SLOT.get();
        if let Some(p) = self.path.get() {
            FILE.with_borrow_mut(|f| {
                if f.is_none() {
                    *f = std::fs::File::create(format!("{p}.{slot}")).ok();
                }
                if let Some(f) = f {
                    use std::os::unix::fs::FileExt;
                    let mut b = (label.len() as u64).to_le_bytes().to_vec();
                    b.extend_from_slice(label.as_bytes());
                    let _ = f.write_all_at(&b, 0);
                }
            });
        }
        self.cases.lock().unwrap().insert(slot, (Instant::now(), label.to_string()));
    }
    fn end(&self) {
        self.cases.lock().unwrap().remove(&SLOT.get());
    }
    /// A case that has been running for longer than this.
    pub fn stuck(&self, seconds: u64) -> Option<String> {
        let g = self.cases.lock().unwrap();
        g.values().find(|(start, _)| start.elapsed().as_secs() > seconds).map(|(_, l)| l.clone())
    }
    /// What `to_file` left.
    pub fn read(path: &str) -> Vec<String> {
        (0..=WORKERS)
            .filter_map(|n| {
                let f = format!("{path}.{n}");
                let b = std::fs::read(&f).ok()?;
                let _ = std::fs::remove_file(&f);
                let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
                Some(String::from_utf8_lossy(b.get(8..8 + n)?).into_owned())
            })
            .collect()
    }
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A textual form of a panic's payload.
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn evaluate(label: &str, f: impl FnOnce() -> Result<String, String>) -> Result<String, String> {
    CURRENT.begin(label);
    let result = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", panic_text(e))),
    };
    CURRENT.end();
    result
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, only: Option<String>) -> Self {
        Ctx {
            id: id.into(),
            tier,
            seed,
            only,
            start: Instant::now(),
            evaluations: 0,
            seen: HashSet::new(),
            nontrivial: 0,
            classes: BTreeMap::new(),
            class_samples: BTreeMap::new(),
            violations: vec![],
            violation_count: 0,
            states: None,
            transitions: None,
            traces: None,
            rule: String::new(),
            assumptions: vec![],
            exhaustive: true,
            fault: false,
            extra: Default::default(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Pick a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    /// Evaluate one case. `f` returns the class of outcome that was observed (for the coverage
    /// figures) or what is wrong. A panic in `f` is a violation too.
    pub fn case(&mut self, label: impl Into<String>, f: impl FnOnce() -> Result<String, String>) {
        let label = label.into();
        if let Some(only) = &self.only {
            if *only != label {
                return;
            }
        }
        let result = evaluate(&label, f);
        self.count(label, result);
    }

    /// Evaluate many cases, several at a time; otherwise as `case`.
    pub fn cases<I: Send + Sync>(&mut self, cases: Vec<(String, I)>, f: impl Fn(&I) -> Result<String, String> + Sync) {
        let cases: Vec<(String, I)> = match &self.only {
            Some(only) => cases.into_iter().filter(|(l, _)| l == only).collect(),
            None => cases,
        };
        let next = std::sync::atomic::AtomicUsize::new(0);
        let results: Vec<OnceLock<Result<String, String>>> = cases.iter().map(|_| OnceLock::new()).collect();
        std::thread::scope(|scope| {
            for slot in 1..=WORKERS {
                let (next, results, cases, f) = (&next, &results, &cases, &f);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(scope, move || {
                        SLOT.set(slot);
                        loop {
                            let n = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            let Some((label, input)) = cases.get(n) else { break };
                            let _ = results[n].set(evaluate(label, || f(input)));
                        }
                    })
                    .unwrap();
            }
        });
        for ((label, _), r) in cases.into_iter().zip(results) {
            self.count(label, r.into_inner().expect("every case is evaluated"));
        }
    }

    fn count(&mut self, label: String, result: Result<String, String>) {
        self.evaluations += 1;
        let fresh = self.seen.insert(hash64(&label));
        match result {
            Ok(class) => {
                if fresh && class != "trivial" {
                    self.nontrivial += 1;
                }
                if !self.class_samples.contains_key(&class) {
                    let mut l = label.clone();
                    if l.len() > 300 {
                        let mut n = 300;
                        while !l.is_char_boundary(n) {
                            n -= 1;
                        }
                        l.truncate(n);
                        l.push('…');
                    }
                    self.class_samples.insert(class.clone(), l);
                }
                *self.classes.entry(class).or_default() += 1;
            }
            Err(detail) => {
                self.violation(label, detail);
            }
        }
    }

    pub fn violation(&mut self, label: String, detail: String) {
        self.violation_count += 1;
        if self.violations.len() < MAX_KEPT {
            self.violations.push(Violation { label, detail });
        }
    }

    /// Add to the model-checking counters.
    pub fn explored(&mut self, states: u64, transitions: u64, traces: u64) {
        *self.states.get_or_insert(0) += states;
        *self.transitions.get_or_insert(0) += transitions;
        *self.traces.get_or_insert(0) += traces;
    }

    pub fn level(&self) -> &'static str {
        if self.states.is_some() {
            "model_checking"
        } else if self.fault {
            "fault_enumeration"
        } else {
            "exploration"
        }
    }

    pub fn evidence(&self) -> Json {
        let samples: Vec<Json> = self
            .class_samples
            .iter()
            .take(40)
            .map(|(c, l)| json!({"case": l, "observed": c, "cases_in_class": self.classes[c]}))
            .collect();
        let mut coverage = serde_json::Map::new();
        if self.states.is_some() {
            coverage.insert("states".into(), json!(self.states));
            coverage.insert("transitions".into(), json!(self.transitions));
            coverage.insert("traces_validated_against_impl".into(), json!(self.traces));
        }
        coverage.insert("evaluations".into(), json!(self.evaluations));
        coverage.insert("distinct_nontrivial".into(), json!(self.nontrivial));
        coverage.insert("rule".into(), json!(self.rule));
        coverage.insert("distinct_outcome_classes".into(), json!(self.classes.len()));
        coverage.insert("samples".into(), json!(samples));
        coverage.insert("exhaustive".into(), json!(self.exhaustive));
        for (k, v) in &self.extra {
            coverage.insert(k.clone(), v.clone());
        }
        json!({
            "property": self.id,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": self.level(),
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violation_count,
        })
    }
}

/// Run a future that waits for nothing but what other threads are about to finish.
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::task::{Context, Poll, Waker};
    use std::time::{Duration, Instant};
    static STUCK: AtomicUsize = AtomicUsize::new(0);
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    let patience = if STUCK.load(Ordering::Relaxed) < 2 { 30.0 } else { 0.2 };
    let start = Instant::now();
    while start.elapsed() < Duration::from_secs_f64(patience) {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    STUCK.fetch_add(1, Ordering::Relaxed);
    panic!("a future that has nothing to wait for never completed")
}
