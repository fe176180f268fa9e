//! C14: all schedules of concurrent verifier and store operations.
use super::hist::{status_json, uuid, World};
use crate::ctx::{now, Ctx};
use crate::sched::{self, block_on, Body, Execution};
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse};
use openid4vp::verifier::session::{MemoryStore, Outcome, SessionStore, Status};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Op {
    Build(u8),
    Retrieve(u8),
    Poll(u8),
    Succeed(u8),
    Fail(u8),
    /// A verification whose validator reports an error; one with another success.
    Err(u8),
    Other(u8),
    /// A verification whose validator itself asks for the session's status.
    Nosy(u8),
    Remove(u8),
}

impl Op {
    fn name(self) -> String {
        format!("{self:?}")
    }
}

fn digest(jwt: &str) -> String {
    format!("request-{:016x}", crate::ctx::hash64(jwt))
}

/// What an operation returned.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ret {
    Done,
    Failed,
    Status(String),
    Jwt(String),
}

/// id -> (jwt, status); the request of a session built later is not known beforehand.
type Model = BTreeMap<u8, (Option<String>, String)>;

fn done_status(op: Op) -> String {
    status_json(&Status::Complete(outcome(op)))
}

fn outcome(op: Op) -> Outcome {
    match op {
        Op::Fail(i) => Outcome::Failure {
            reason: format!("failure {i}"),
        },
        Op::Err(i) => Outcome::Error { cause: format!("error {i}") },
        Op::Other(i) => Outcome::Success { info: json!({"other": i}) },
        Op::Nosy(i) => Outcome::Success { info: json!(["nosy", i]) },
        Op::Succeed(i) => Outcome::Success { info: json!(["info", i]) },
        _ => unreachable!(),
    }
}

/// Could `op` return `ret` in state `m`, and what is the state then?
fn apply(m: &Model, op: Op, ret: &Ret) -> Option<Model> {
    let mut n = m.clone();
    match op {
        Op::Build(i) => {
            if *ret != Ret::Done {
                return None;
            }
            n.insert(i, (None, status_json(&Status::SentRequestByReference)));
        }
        Op::Retrieve(i) => match (n.get_mut(&i), ret) {
            (Some(e), Ret::Jwt(j)) => {
                if e.0.as_ref().is_some_and(|w| w != j) {
                    return None;
                }
                if e.1 == status_json(&Status::SentRequestByReference) {
                    e.1 = status_json(&Status::SentRequest);
                }
            }
            (None, Ret::Failed) => {}
            _ => return None,
        },
        Op::Poll(i) => match (n.get(&i), ret) {
            (Some(e), Ret::Status(s)) if e.1 == *s => {}
            (None, Ret::Failed) => {}
            _ => return None,
        },
        Op::Succeed(i) | Op::Fail(i) | Op::Err(i) | Op::Other(i) | Op::Nosy(i) => match (n.get_mut(&i), ret) {
            (Some(e), Ret::Done) => e.1 = done_status(op),
            (None, Ret::Failed) => {}
            _ => return None,
        },
        Op::Remove(i) => match (n.remove(&i), ret) {
            (Some(_), Ret::Done) => {}
            (None, Ret::Failed) => {}
            _ => return None,
        },
    }
    Some(n)
}

#[derive(Clone, Debug)]
struct Event {
    op: Op,
    start: u64,
    end: u64,
    ret: Ret,
}

/// Is there an order of the events, consistent with their real-time order, in which each returns
/// what it returned, ending in `last`?
fn linearizable(m: &Model, events: &[Event], used: u64, last: &BTreeMap<u8, Option<String>>) -> bool {
    if used.count_ones() as usize == events.len() {
        return last
            .iter()
            .all(|(i, s)| m.get(i).map(|e| &e.1) == s.as_ref());
    }
    for (k, e) in events.iter().enumerate() {
        if used & (1 << k) != 0 {
            continue;
        }
        // everything that ended before e started must come first
        if events
            .iter()
            .enumerate()
            .any(|(j, f)| used & (1 << j) == 0 && j != k && f.end < e.start)
        {
            continue;
        }
        if let Some(n) = apply(m, e.op, &e.ret) {
            if linearizable(&n, events, used | (1 << k), last) {
                return true;
            }
        }
    }
    false
}

fn perform(w: &World, op: Op) -> Ret {
    let unit = |r: Result<(), String>| if r.is_ok() { Ret::Done } else { Ret::Failed };
    match op {
        Op::Build(i) => unit(w.build(true, i)),
        Op::Retrieve(i) => match block_on(w.by_reference.retrieve_authorization_request(uuid(i))) {
            Ok(j) => Ret::Jwt(digest(&j)),
            Err(_) => Ret::Failed,
        },
        Op::Poll(i) => match block_on(w.by_reference.poll_status(uuid(i))) {
            Ok(s) => Ret::Status(status_json(&s)),
            Err(_) => Ret::Failed,
        },
        Op::Succeed(i) | Op::Fail(i) | Op::Err(i) | Op::Other(i) | Op::Nosy(i) => {
            let resp = AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: "r".into() });
            let v = w.by_reference.clone();
            unit(
                block_on(w.by_reference.verify_response(uuid(i), resp, move |_, _| {
                    Box::pin(async move {
                        sched::step("validator");
                        if matches!(op, Op::Nosy(_)) {
                            let _ = v.poll_status(uuid(i)).await;
                        }
                        outcome(op)
                    })
                }))
                .map_err(|e| e.to_string()),
            )
        }
        Op::Remove(i) => {
            sched::step("remove");
            unit(block_on(w.store.remove_session(uuid(i))).map_err(|e| e.to_string()))
        }
    }
}

/// Run one schedule of a scenario and judge it.
fn run(threads: &[Vec<Op>], by_reference: bool, prefix: &[usize]) -> Result<Execution, (String, Execution)> {
    let w = Arc::new(World::new(vec![]));
    // A: shared session; B: another one, for interference.
    for i in 0..2 {
        w.build(by_reference, i).expect("the initial sessions");
    }
    let mut model = Model::new();
    for i in 0..2 {
        let s = now(w.store.inner.get_session(uuid(i))).expect("the initial session");
        model.insert(i, (Some(digest(&s.authorization_request_jwt)), status_json(&s.status)));
    }
    let events: Arc<Mutex<Vec<Event>>> = Default::default();
    let bodies: Vec<Body> = threads
        .iter()
        .map(|ops| {
            let (ops, w, events) = (ops.clone(), w.clone(), events.clone());
            let b: Body = Box::new(move || {
                for (n, op) in ops.into_iter().enumerate() {
                    if n > 0 {
                        sched::step("next operation");
                    }
                    let start = sched::stamp();
                    let ret = perform(&w, op);
                    let end = sched::stamp();
                    events.lock().unwrap().push(Event { op, start, end, ret });
                }
            });
            b
        })
        .collect();
    let x = sched::execute(prefix, bodies);
    if x.deadlock {
        return Err(("the threads deadlock".into(), x));
    }
    if x.livelock {
        return Err(("some thread never completes although every thread gets its turns".into(), x));
    }
    if let Some(p) = x.panics.first() {
        return Err((p.clone(), x));
    }
    let events = events.lock().unwrap().clone();
    // the final state, read after all threads ended
    let mut last = BTreeMap::new();
    for i in 0..8u8 {
        let s = now(w.store.inner.get_session(uuid(i))).ok().map(|s| status_json(&s.status));
        last.insert(i, s);
    }
    // Each session on its own: operations on different sessions are independent.
    if !linearizable(&model, &events, 0, &last) {
        let mut e = events.clone();
        e.sort_by_key(|e| e.start);
        let text: Vec<String> = e
            .iter()
            .map(|e| format!("[{}..{}] {:?} -> {:?}", e.start, e.end, e.op, e.ret))
            .collect();
        let last: Vec<String> = last
            .iter()
            .filter_map(|(i, s)| s.as_ref().map(|s| format!("{i}: {s}")))
            .collect();
        return Err((
            format!(
                "no sequential order explains: {}; final sessions {}",
                text.join(", "),
                last.join(", ")
            ),
            x,
        ));
    }
    Ok(x)
}

// -------------------------------------------------------- the store on its own

#[derive(Clone, Copy, Debug, PartialEq)]
enum SOp {
    Update(u8),
    Get,
    Remove,
    Initiate(u8),
}

fn store_run(threads: &[Vec<SOp>], prefix: &[usize]) -> Result<Execution, (String, Execution)> {
    let w = World::new(vec![]);
    w.build(true, 0).expect("initial session");
    let base = now(w.store.inner.get_session(uuid(0))).unwrap();
    let store: MemoryStore = w.store.inner.clone();
    type Ev = (SOp, u64, u64, Result<Option<String>, ()>);
    let events: Arc<Mutex<Vec<Ev>>> = Default::default();
    let bodies: Vec<Body> = threads
        .iter()
        .map(|ops| {
            // Every thread has its own clone.
            let (ops, store, events, base) = (ops.clone(), store.clone(), events.clone(), base.clone());
            let b: Body = Box::new(move || {
                for op in ops {
                    sched::step("next operation");
                    let start = sched::stamp();
                    let st = |n: u8| match n {
                        0 => Status::SentRequest,
                        1 => Status::ReceivedResponse,
                        7 => Status::Complete(Outcome::Error { cause: n.to_string() }),
                        8 => Status::Complete(Outcome::Success { info: json!(n) }),
                        _ => Status::Complete(Outcome::Failure { reason: n.to_string() }),
                    };
                    let r = match op {
                        SOp::Update(n) => block_on(store.update_status(uuid(0), st(n))).map(|_| None),
                        SOp::Get => block_on(store.get_session(uuid(0))).map(|s| Some(status_json(&s.status))),
                        SOp::Remove => block_on(store.remove_session(uuid(0))).map(|_| None),
                        SOp::Initiate(n) => {
                            let mut s = base.clone();
                            s.status = st(n);
                            block_on(store.initiate(s)).map(|_| None)
                        }
                    };
                    let end = sched::stamp();
                    events.lock().unwrap().push((op, start, end, r.map_err(|_| ())));
                }
            });
            b
        })
        .collect();
    let x = sched::execute(prefix, bodies);
    if x.deadlock || x.livelock {
        return Err(("the threads deadlock".into(), x));
    }
    if let Some(p) = x.panics.first() {
        return Err((p.clone(), x));
    }
    let events = events.lock().unwrap().clone();
    let last = now(store.get_session(uuid(0))).ok().map(|s| status_json(&s.status));
    fn st(n: u8) -> String {
        status_json(&match n {
            0 => Status::SentRequest,
            1 => Status::ReceivedResponse,
            7 => Status::Complete(Outcome::Error { cause: n.to_string() }),
            8 => Status::Complete(Outcome::Success { info: json!(n) }),
            _ => Status::Complete(Outcome::Failure { reason: n.to_string() }),
        })
    }
    fn lin(m: Option<String>, ev: &[Ev], used: u64, last: &Option<String>) -> bool {
        if used.count_ones() as usize == ev.len() {
            return m == *last;
        }
        for (k, e) in ev.iter().enumerate() {
            if used & (1 << k) != 0
                || ev.iter().enumerate().any(|(j, f)| used & (1 << j) == 0 && j != k && f.2 < e.1)
            {
                continue;
            }
            let next = match (&m, e.0, &e.3) {
                (Some(s), SOp::Update(n), Ok(_)) => {
                    if s.contains("Complete") && !st(n).contains("Complete") {
                        Some(s.clone())
                    } else {
                        Some(st(n))
                    }
                }
                (None, SOp::Update(_), Err(())) => None,
                (Some(s), SOp::Get, Ok(Some(g))) if s == g => Some(s.clone()),
                (None, SOp::Get, Err(())) => None,
                (Some(_), SOp::Remove, Ok(_)) => None,
                (None, SOp::Remove, Err(())) => None,
                (_, SOp::Initiate(n), Ok(_)) => Some(st(n)),
                _ => continue,
            };
            if lin(next, ev, used | (1 << k), last) {
                return true;
            }
        }
        false
    }
    if !lin(Some(status_json(&base.status)), &events, 0, &last) {
        return Err((format!("no sequential order explains {events:?}, final {last:?}"), x));
    }
    Ok(x)
}

// -------------------------------------------------------- exploration

#[derive(Clone, Debug)]
enum Scenario {
    Verifier(Vec<Vec<Op>>, bool),
    Store(Vec<Vec<SOp>>),
}

impl Scenario {
    fn label(&self) -> String {
        match self {
            Scenario::Verifier(t, r) => format!(
                "{}: {}",
                if *r { "by reference" } else { "by value" },
                t.iter()
                    .map(|ops| ops.iter().map(|o| o.name()).collect::<Vec<_>>().join(";"))
                    .collect::<Vec<_>>()
                    .join(" || ")
            ),
            Scenario::Store(t) => format!("store: {t:?}"),
        }
    }
    fn run(&self, prefix: &[usize]) -> Result<Execution, (String, Execution)> {
        match self {
            Scenario::Verifier(t, r) => run(t, *r, prefix),
            Scenario::Store(t) => store_run(t, prefix),
        }
    }
}

pub fn c14(c: &mut Ctx) {
    c.rule = "a scenario is 2-4 threads of 1-3 operations; every schedule of its scheduling points (before and after each lock acquisition inside the store, store calls, between operations, validator steps, waiting) within the preemption bound is executed on the real Verifier and MemoryStore, and its results and final state must be explained by some sequential order consistent with real time (brute force over all orders). Non-trivial: the scenario has at least two schedules.".into();
    c.assumptions.push("memory accesses between scheduling points are not preempted: the store's data is only reached under its lock (safe Rust), so lock operations and store calls are the only places where the order of threads can matter".into());
    c.assumptions.push("tokio's Mutex and RwLock are replaced by wrappers around the real ones that call the scheduler (shim/tokio)".into());
    let mut scenarios: Vec<(Scenario, usize)> = vec![];
    let menu = [Op::Retrieve(0), Op::Poll(0), Op::Succeed(0), Op::Fail(0), Op::Remove(0)];
    let bound = c.pick(2, 4);
    // two threads, one operation each: all pairs, with a generous bound
    let wide: Vec<Op> = menu
        .iter()
        .copied()
        .chain([Op::Nosy(0), Op::Err(0), Op::Other(0), Op::Build(2), Op::Retrieve(1), Op::Succeed(1), Op::Remove(1), Op::Retrieve(2), Op::Poll(2)])
        .collect();
    for (i, a) in wide.iter().enumerate() {
        for b in &wide[i..] {
            if matches!((a, b), (Op::Build(_), Op::Build(_))) {
                scenarios.push((Scenario::Verifier(vec![vec![*a], vec![Op::Build(3)]], true), c.pick(3, 6)));
                continue;
            }
            for r in [true, false] {
                scenarios.push((Scenario::Verifier(vec![vec![*a], vec![*b]], r), c.pick(3, 6)));
            }
        }
    }
    // two threads, two operations and one or two
    let seqs: Vec<Vec<Op>> = menu.iter().flat_map(|a| menu.iter().map(move |b| vec![*a, *b])).collect();
    for (i, a) in seqs.iter().enumerate() {
        for b in menu {
            scenarios.push((Scenario::Verifier(vec![a.clone(), vec![b]], true), bound));
        }
        for b in &seqs[i..] {
            scenarios.push((Scenario::Verifier(vec![a.clone(), b.clone()], true), c.pick(2, 3)));
        }
    }
    // three threads, one operation each
    for (i, a) in menu.iter().enumerate() {
        for (j, b) in menu.iter().enumerate().skip(i) {
            for d in &menu[j..] {
                scenarios.push((
                    Scenario::Verifier(vec![vec![*a], vec![*b], vec![*d]], true),
                    c.pick(2, 3),
                ));
            }
        }
    }
    // four threads, one operation each; three operations and one
    for (i, a) in menu.iter().enumerate() {
        for (j, b) in menu.iter().enumerate().skip(i) {
            for (k, d) in menu.iter().enumerate().skip(j) {
                for e in &menu[k..] {
                    scenarios.push((Scenario::Verifier(vec![vec![*a], vec![*b], vec![*d], vec![*e]], true), c.pick(1, 2)));
                }
            }
        }
    }
    for s in &seqs {
        for a in menu {
            for b in menu {
                scenarios.push((Scenario::Verifier(vec![[s.clone(), vec![a]].concat(), vec![b]], true), c.pick(1, 3)));
            }
        }
    }
    // three threads on several sessions
    for t in [
        vec![vec![Op::Build(2)], vec![Op::Build(3)], vec![Op::Retrieve(0), Op::Retrieve(1)]],
        vec![vec![Op::Build(2), Op::Retrieve(2)], vec![Op::Succeed(0)], vec![Op::Fail(1)]],
        vec![vec![Op::Succeed(0), Op::Poll(1)], vec![Op::Succeed(1), Op::Poll(0)]],
        vec![vec![Op::Retrieve(0), Op::Succeed(0)], vec![Op::Retrieve(1), Op::Fail(1)]],
        vec![vec![Op::Nosy(0)], vec![Op::Nosy(1)], vec![Op::Retrieve(0)]],
        vec![vec![Op::Build(2), Op::Succeed(2), Op::Poll(2)], vec![Op::Build(3), Op::Remove(3)]],
    ] {
        scenarios.push((Scenario::Verifier(t, true), c.pick(2, 3)));
    }
    // the store itself
    let smenu = [SOp::Update(0), SOp::Update(1), SOp::Update(5), SOp::Get, SOp::Remove, SOp::Initiate(1), SOp::Initiate(6)];
    for (i, a) in smenu.iter().enumerate() {
        for (j, b) in smenu.iter().enumerate().skip(i) {
            scenarios.push((Scenario::Store(vec![vec![*a, *b], vec![*b]]), c.pick(2, 4)));
            for d in &smenu[j..] {
                scenarios.push((Scenario::Store(vec![vec![*a], vec![*b], vec![*d]]), c.pick(2, 3)));
                scenarios.push((Scenario::Store(vec![vec![*a, *d], vec![*b, *d]]), c.pick(2, 3)));
            }
        }
    }
    for e in [SOp::Update(7), SOp::Update(8), SOp::Initiate(7), SOp::Initiate(8)] {
        for a in smenu.iter().chain([&e]) {
            for t in [vec![vec![e], vec![*a]], vec![vec![e, *a], vec![*a]], vec![vec![*a, e], vec![*a]], vec![vec![e], vec![*a], vec![SOp::Update(0)]]] {
                scenarios.push((Scenario::Store(t), c.pick(2, 3)));
            }
        }
    }
    for e in [Op::Err(0), Op::Other(0), Op::Nosy(0)] {
        for a in menu {
            for t in [vec![vec![Op::Retrieve(0)], vec![e], vec![a]], vec![vec![Op::Retrieve(0), a], vec![e]], vec![vec![e, a], vec![Op::Retrieve(0)]]] {
                scenarios.push((Scenario::Verifier(t, true), c.pick(2, 3)));
            }
        }
    }
    // Replay of one schedule: "<scenario> @ [choices]"
    if let Some(only) = c.only.clone() {
        if let Some((scenario, choices)) = only.rsplit_once(" @ ") {
            let choices: Vec<usize> = serde_json::from_str(choices).expect("a schedule");
            let s = scenarios
                .iter()
                .find(|(s, _)| s.label() == scenario)
                .expect("a known scenario");
            c.case(only.clone(), || match s.0.run(&choices) {
                Ok(_) => Ok("explained by a sequential order".into()),
                Err((e, _)) => Err(e),
            });
            return;
        }
    }
    type Found = (sched::Report, Option<(Vec<usize>, String)>);
    let results: Mutex<BTreeMap<usize, Result<Found, String>>> = Default::default();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let max = c.pick(60_000, 3_000_000);
    // On a machine this slow (or code with that many more scheduling points), what is left is
    // explored with at most one preemption, so that the check still answers.
    let late = std::time::Duration::from_secs(c.pick(420, 5 * 3600));
    let start = c.start;
    let reduced: Mutex<BTreeMap<usize, usize>> = Default::default();
    std::thread::scope(|scope| {
        for _ in 0..workers {
            scope.spawn(|| loop {
                let n = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some((s, bound)) = scenarios.get(n) else { break };
                let mut bound = *bound;
                if start.elapsed() > late && bound > 1 {
                    bound = 1;
                    reduced.lock().unwrap().insert(n, bound);
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let (report, bad) = sched::explore(bound, max, |prefix| {
                        s.run(prefix).map_err(|(e, x)| (e, x.schedule()))
                    });
                    (report, bad.map(|(_, (e, schedule))| (schedule, e)))
                }));
                let r = r.map_err(crate::ctx::panic_text);
                results.lock().unwrap().insert(n, r);
            });
        }
    });
    let results = results.into_inner().unwrap();
    let reduced = reduced.into_inner().unwrap();
    if !reduced.is_empty() {
        c.exhaustive = false;
        c.extra.insert("scenarios_explored_with_a_reduced_bound".into(), json!(reduced.len()));
    }
    let (mut executions, mut steps, mut visited, mut points) = (0, 0, 0, 0);
    for (n, (s, bound)) in scenarios.iter().enumerate() {
        let label = s.label();
        let bound = reduced.get(&n).unwrap_or(bound);
        match &results[&n] {
            Err(e) => c.violation(label, format!("{}{e}", sched::ENGINE)),
            Ok((report, bad)) => {
                executions += report.executions;
                steps += report.steps;
                visited += report.points;
                points = points.max(report.max_points);
                if !report.complete {
                    c.exhaustive = false;
                }
                match bad {
                    None => c.case(format!("{label} (preemption bound {bound})"), || {
                        if report.executions < 2 {
                            return Ok("trivial".into());
                        }
                        Ok(format!(
                            "explained by a sequential order ({} schedules)",
                            match report.executions {
                                0..=9 => "<10",
                                10..=99 => "10-99",
                                100..=999 => "100-999",
                                1000..=9999 => "1000-9999",
                                _ => "10000+",
                            }
                        ))
                    }),
                    Some((schedule, e)) => {
                        c.evaluations += 1;
                        c.violation(format!("{label} @ {}", json!(schedule)), e.clone())
                    }
                }
            }
        }
    }
    c.explored(visited, steps, executions);
    c.extra.insert("schedules".into(), json!(executions));
    c.extra.insert("scenarios".into(), json!(scenarios.len()));
    c.extra.insert("most_choice_points_in_one_schedule".into(), json!(points));
}
