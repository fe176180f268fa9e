//! C13, C15, C28: sessions, their store and their statuses.
use crate::ctx::{now, Ctx};
use crate::env::*;
use openid4vp::core::response::parameters::{State, VpToken, VpTokenItem};
use openid4vp::core::response::{
    AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
};
use openid4vp::verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status};
use openid4vp::verifier::Verifier;
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use uuid::Uuid;

pub fn uuid(n: u8) -> Uuid {
    Uuid::from_bytes([n; 16])
}

pub fn status_json(s: &Status) -> String {
    serde_json::to_string(s).unwrap()
}

fn success(n: u8) -> Status {
    Status::Complete(Outcome::Success { info: json!({ "n": n }) })
}
fn failure(n: u8) -> Status {
    Status::Complete(Outcome::Failure {
        reason: format!("failure {n}"),
    })
}
fn error(n: u8) -> Status {
    Status::Complete(Outcome::Error {
        cause: format!("error {n}"),
    })
}

fn dcql(id: &str) -> openid4vp::core::dcql_query::DcqlQuery {
    serde_json::from_value(json!({"credentials": [{"id": id, "format": "mso_mdoc", "meta": {}}]}))
        .unwrap()
}

/// A session's observable content.
fn view(s: &Session) -> (String, Json) {
    (
        status_json(&s.status),
        json!({
            "uuid": s.uuid,
            "jwt": s.authorization_request_jwt,
            "object": serde_json::to_value(&s.authorization_request_object).unwrap(),
            "dcql": serde_json::to_value(&s.dcql_query).unwrap(),
        }),
    )
}

/// All sequences of `depth` operations, as cases made by `case`. Returns how many.
fn sequences<I: Send + Sync>(
    c: &mut Ctx,
    ops: usize,
    depth: usize,
    case: impl Fn(&[usize]) -> (String, I),
    f: impl Fn(&I) -> Result<String, String> + Sync,
) -> u64 {
    let mut n = 0u64;
    let mut idx = vec![0usize; depth];
    let mut waiting = vec![];
    loop {
        n += 1;
        waiting.push(case(&idx));
        let mut k = depth;
        while k > 0 {
            k -= 1;
            idx[k] += 1;
            if idx[k] < ops {
                break;
            }
            idx[k] = 0;
        }
        let done = idx.iter().all(|i| *i == 0);
        if done || waiting.len() == 50_000 {
            c.cases(std::mem::take(&mut waiting), &f);
        }
        if done {
            return n;
        }
    }
}

// ---------------------------------------------------------------- C15

fn stored(id: u8, content: u8, status: Status) -> Session {
    Session {
        uuid: uuid(id),
        status,
        authorization_request_jwt: format!("jwt-{id}-{content}"),
        authorization_request_object: request_object(json!({
            "client_id": format!("c:{content}"), "response_type": "vp_token", "nonce": format!("n{content}"),
            "response_mode": "dc_api",
        }))
        .unwrap(),
        dcql_query: dcql(&format!("q{content}")),
    }
}

#[derive(Clone, Debug)]
enum SOp {
    Initiate(u8, u8, Status),
    Update(u8, Status),
    Get(u8),
    Remove(u8),
}

impl SOp {
    fn name(&self) -> String {
        match self {
            SOp::Initiate(i, c, s) => format!("initiate({i},content{c},{})", status_json(s)),
            SOp::Update(i, s) => format!("update({i},{})", status_json(s)),
            SOp::Get(i) => format!("get({i})"),
            SOp::Remove(i) => format!("remove({i})"),
        }
    }
}

/// The model: what each id maps to.
type SModel = BTreeMap<u8, (u8, String)>;

fn complete(s: &str) -> bool {
    s.contains("Complete")
}

/// Apply to the model: does it succeed, and what is the next state?
fn s_apply(m: &SModel, op: &SOp) -> (bool, SModel) {
    let mut n = m.clone();
    match op {
        SOp::Initiate(i, c, s) => {
            n.insert(*i, (*c, status_json(s)));
            (true, n)
        }
        SOp::Update(i, s) => match n.get_mut(i) {
            Some(e) => {
                let s = status_json(s);
                if !complete(&e.1) || complete(&s) {
                    e.1 = s;
                }
                (true, n)
            }
            None => (false, n),
        },
        SOp::Get(i) => (n.contains_key(i), n),
        SOp::Remove(i) => (n.remove(i).is_some(), n),
    }
}

fn s_observe(stores: &[MemoryStore], m: &SModel) -> Result<(), String> {
    for (k, s) in stores.iter().enumerate() {
        for i in 0..3u8 {
            let got = now(s.get_session(uuid(i)));
            match (got, m.get(&i)) {
                (Ok(g), Some((c, st))) => {
                    let (gs, gv) = view(&g);
                    let (_, want) = view(&stored(i, *c, Status::SentRequest));
                    if gs != *st || gv != want {
                        return Err(format!(
                            "through clone {k}: session {i} reads as {gs} {gv}, expected {st} {want}"
                        ));
                    }
                }
                (Err(_), None) => {}
                (Ok(g), None) => {
                    return Err(format!(
                        "through clone {k}: session {i} is there ({:?}) but must not be",
                        g.status
                    ))
                }
                (Err(e), Some(_)) => {
                    return Err(format!("through clone {k}: session {i} cannot be read: {e:#}"))
                }
            }
        }
    }
    Ok(())
}

fn s_run(path: &[(usize, SOp)], observe_all: bool) -> Result<SModel, String> {
    let a = MemoryStore::default();
    let b = a.clone();
    let stores = [a, b];
    let mut m = SModel::new();
    for (n, (k, op)) in path.iter().enumerate() {
        let (want_ok, next) = s_apply(&m, op);
        let s = &stores[*k];
        let got = match op.clone() {
            SOp::Initiate(i, c, st) => now(s.initiate(stored(i, c, st))).map_err(|e| e.to_string()),
            SOp::Update(i, st) => now(s.update_status(uuid(i), st)).map_err(|e| e.to_string()),
            SOp::Get(i) => now(s.get_session(uuid(i)))
                .map(|_| ())
                .map_err(|e| e.to_string()),
            SOp::Remove(i) => now(s.remove_session(uuid(i))).map_err(|e| e.to_string()),
        };
        if got.is_ok() != want_ok {
            return Err(format!(
                "step {n}, {}: returned {got:?}, expected {}",
                op.name(),
                if want_ok { "success" } else { "an error" }
            ));
        }
        m = next;
        if observe_all || n + 1 == path.len() {
            s_observe(&stores, &m).map_err(|e| format!("after step {n}, {}: {e}", op.name()))?;
        }
    }
    Ok(m)
}

pub fn c15(c: &mut Ctx) {
    c.rule = "model: a map id -> (session, status). (1) every state of the model reachable over 2 ids x 2 session contents x 8 statuses, by breadth-first search, and from a shortest path to each of them every operation, replayed on the real store with all ids read through two clones afterwards; (2) every operation sequence up to the depth bound, observed after every step; (3) up to 20,000 (140,000) sessions at once; (4) one session updated 2,000 times. A case is non-trivial if it performs at least one operation.".into();
    c.assumptions.push("session contents other than the enumerated ones are not inspected by the store (it is generic in them)".into());
    let statuses = [
        Status::SentRequestByReference,
        Status::SentRequest,
        Status::ReceivedResponse,
        success(1),
        success(2),
        failure(1),
        failure(2),
    ];
    let mut ops: Vec<SOp> = vec![];
    for i in 0..2 {
        for k in 0..2 {
            ops.push(SOp::Initiate(i, k, statuses[k as usize].clone()));
        }
        ops.push(SOp::Initiate(i, 0, success(3)));
        for s in &statuses {
            ops.push(SOp::Update(i, s.clone()));
        }
        ops.push(SOp::Remove(i));
        ops.push(SOp::Get(i));
    }
    // (1) explicit-state search of the model, every transition replayed on the implementation
    let mut seen: BTreeSet<SModel> = BTreeSet::new();
    let mut queue: VecDeque<Vec<(usize, SOp)>> = VecDeque::new();
    seen.insert(SModel::new());
    queue.push_back(vec![]);
    let mut transitions = 0;
    while let Some(path) = queue.pop_front() {
        for op in &ops {
            for k in 0..2 {
                let mut p = path.clone();
                p.push((k, op.clone()));
                let label = format!(
                    "states: {}",
                    p.iter()
                        .map(|(k, o)| format!("{}@{k}", o.name()))
                        .collect::<Vec<_>>()
                        .join("; ")
                );
                transitions += 1;
                let mut reached = None;
                c.case(label, || {
                    let m = s_run(&p, false)?;
                    let class = format!("{} sessions after {}", m.len(), op.name().split('(').next().unwrap());
                    reached = Some(m);
                    Ok(class)
                });
                if let Some(m) = reached {
                    if seen.insert(m) {
                        queue.push_back(p);
                    }
                }
            }
        }
    }
    c.explored(seen.len() as u64, transitions, transitions);
    // (2) all sequences
    let short: Vec<SOp> = ops
        .iter()
        .filter(|o| !matches!(o, SOp::Get(_)))
        .cloned()
        .collect();
    let depth = c.pick(4, 5);
    let names: Vec<String> = short.iter().map(SOp::name).collect();
    let n = sequences(
        c,
        short.len(),
        depth,
        |idx| {
            let mut label = "sequence:".to_string();
            let path = idx.iter().enumerate().map(|(i, &o)| {
                let k = (i + o) % 2;
                label += &format!(" {}@{k};", names[o]);
                (k, short[o].clone())
            }).collect::<Vec<_>>();
            (label, path)
        },
        |path| s_run(path, true).map(|m| format!("{} sessions at the end", m.len())),
    );
    c.explored(0, n * depth as u64, n);
    c.extra.insert("sequence_depth".into(), json!(depth));
    // (3) many sessions at once
    for many in [10usize, 100, 1_000, 5_000, c.pick(20_000, 140_000)] {
        c.case(format!("{many} sessions"), || {
            let id = |n: usize| Uuid::from_u128((n as u128) << 64 | (n as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15));
            let s = MemoryStore::default();
            let mut want: BTreeMap<usize, (u8, String)> = BTreeMap::new();
            let check = |want: &BTreeMap<usize, (u8, String)>, when: &str| -> Result<(), String> {
                for n in 0..many {
                    let got = now(s.get_session(id(n))).ok().map(|g| {
                        let c = g.authorization_request_jwt.bytes().last().unwrap() - b'0';
                        (c, status_json(&g.status))
                    });
                    if got.as_ref() != want.get(&n) {
                        return Err(format!("{when}: session {n} of {many} reads as {got:?}, expected {:?}", want.get(&n)));
                    }
                }
                Ok(())
            };
            for n in 0..many {
                let c = (n % 2) as u8;
                now(s.initiate(Session { uuid: id(n), ..stored(0, c, Status::SentRequest) })).map_err(|e| e.to_string())?;
                want.insert(n, (c, status_json(&Status::SentRequest)));
            }
            check(&want, "after initiating all")?;
            for n in (0..many).filter(|n| n % 3 == 0) {
                now(s.update_status(id(n), success((n % 7) as u8))).map_err(|e| e.to_string())?;
                want.get_mut(&n).unwrap().1 = status_json(&success((n % 7) as u8));
            }
            check(&want, "after updating every third")?;
            for n in (0..many).filter(|n| n % 5 == 0) {
                now(s.remove_session(id(n))).map_err(|e| e.to_string())?;
                want.remove(&n);
            }
            check(&want, "after removing every fifth")?;
            for n in (0..many).rev().filter(|n| n % 10 == 0) {
                now(s.initiate(Session { uuid: id(n), ..stored(0, 3, Status::SentRequestByReference) })).map_err(|e| e.to_string())?;
                want.insert(n, (3, status_json(&Status::SentRequestByReference)));
            }
            check(&want, "after initiating every tenth again")?;
            // every status, and then more sessions
            let kinds = [Status::SentRequestByReference, Status::SentRequest, Status::ReceivedResponse, error(1), failure(2), success(3)];
            for n in (0..many).filter(|n| n % 5 != 0 && n % 3 != 0) {
                let status = &kinds[n % kinds.len()];
                now(s.update_status(id(n), status.clone())).map_err(|e| e.to_string())?;
                want.get_mut(&n).unwrap().1 = status_json(status);
            }
            check(&want, "after updating all to every status")?;
            for n in (0..many).filter(|n| n % 5 == 0) {
                let status = &kinds[(n / 5) % kinds.len()];
                now(s.initiate(Session { uuid: id(n), ..stored(0, 4, status.clone()) })).map_err(|e| e.to_string())?;
                want.insert(n, (4, status_json(status)));
            }
            check(&want, "after initiating every fifth again, with every status")?;
            Ok("many sessions".into())
        });
    }
    // (4) one session, updated and replaced many times
    c.case("one session many times", || {
        let s = MemoryStore::default();
        for n in 0..2_000usize {
            let c = (n % 9) as u8;
            now(s.initiate(stored(0, c, Status::SentRequest))).map_err(|e| e.to_string())?;
            for st in [Status::ReceivedResponse, Status::SentRequest, success((n % 200) as u8), failure((n % 200) as u8)] {
                now(s.update_status(uuid(0), st.clone())).map_err(|e| e.to_string())?;
                let got = now(s.get_session(uuid(0))).map_err(|e| e.to_string())?;
                if status_json(&got.status) != status_json(&st) || got.authorization_request_jwt != format!("jwt-0-{c}") {
                    return Err(format!("round {n}: reads as {:?}, expected {st:?}", got.status));
                }
            }
            if n % 2 == 0 {
                now(s.remove_session(uuid(0))).map_err(|e| e.to_string())?;
            }
        }
        Ok("one session many times".into())
    });
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug)]
enum HOp {
    /// By reference?, session
    Build(bool, u8),
    Retrieve(u8),
    /// session, outcome, kind of response
    Verify(u8, Status),
    /// The application notes that it received the response.
    Received(u8),
    Remove(u8),
}

impl HOp {
    fn name(&self) -> String {
        match self {
            HOp::Build(r, i) => format!("build-{}({i})", if *r { "by-reference" } else { "by-value" }),
            HOp::Retrieve(i) => format!("retrieve({i})"),
            HOp::Verify(i, s) => format!("verify({i},{})", status_json(s)),
            HOp::Received(i) => format!("received({i})"),
            HOp::Remove(i) => format!("remove({i})"),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            HOp::Build(..) => "build",
            HOp::Retrieve(_) => "retrieve",
            HOp::Verify(..) => "verify",
            HOp::Received(_) => "received",
            HOp::Remove(_) => "remove",
        }
    }
}

/// id -> (built by reference, how often that id was built before, status)
type HModel = BTreeMap<u8, (bool, String)>;

fn h_apply(m: &HModel, op: &HOp) -> (bool, HModel) {
    let mut n = m.clone();
    let ok = match op {
        HOp::Build(r, i) => {
            let s = if *r { Status::SentRequestByReference } else { Status::SentRequest };
            n.insert(*i, (*r, status_json(&s)));
            true
        }
        HOp::Retrieve(i) => match n.get_mut(i) {
            Some(e) => {
                if e.1 == status_json(&Status::SentRequestByReference) {
                    e.1 = status_json(&Status::SentRequest);
                }
                true
            }
            None => false,
        },
        HOp::Verify(i, s) => match n.get_mut(i) {
            Some(e) => {
                e.1 = status_json(s);
                true
            }
            None => false,
        },
        HOp::Received(i) => match n.get_mut(i) {
            Some(e) => {
                if !complete(&e.1) {
                    e.1 = status_json(&Status::ReceivedResponse);
                }
                true
            }
            None => false,
        },
        HOp::Remove(i) => n.remove(i).is_some(),
    };
    (ok, n)
}

pub struct World {
    pub store: Arc<EnvStore<MemoryStore>>,
    pub by_value: Verifier,
    pub by_reference: Verifier,
}

impl World {
    pub fn new(fail: Vec<usize>) -> World {
        World::saying(fail, STORE_SAYS[0])
    }
    pub fn saying(fail: Vec<usize>, says: &'static str) -> World {
        let mut store = EnvStore::new(MemoryStore::default());
        store.fail = fail;
        store.says = says;
        let store = Arc::new(store);
        let b = || {
            Verifier::builder()
                .with_client(Arc::new(PlainClient::new("redirect_uri", "https://v.example/cb")))
                .with_session_store(store.clone())
                .with_submission_endpoint("https://v.example/submit".parse().unwrap())
        };
        World {
            by_value: now(b().by_value().build()).unwrap(),
            by_reference: now(b().by_reference("https://v.example/request".parse().unwrap()).build()).unwrap(),
            store,
        }
    }
    pub fn build(&self, by_reference: bool, i: u8) -> Result<(), String> {
        use openid4vp::core::authorization_request::parameters::*;
        let v = if by_reference { &self.by_reference } else { &self.by_value };
        crate::sched::block_on(
            v.build_authorization_request()
                .with_dcql_query(dcql(&format!("q{i}")))
                .with_request_parameter(ResponseType::VpToken)
                .with_request_parameter(ResponseMode::DirectPost)
                .with_request_parameter(Nonce::from(format!("nonce-{i}-{by_reference}")))
                .build_with_session_id(
                    uuid(i),
                    metadata(json!({"client_id_prefixes_supported": ["redirect_uri"]})),
                ),
        )
        .map(|_| ())
        .map_err(|e| format!("{e:#}"))
    }
}

fn response(i: u8, jwt: bool) -> AuthorizationResponse {
    if jwt {
        AuthorizationResponse::Jwt(JwtAuthorizationResponse {
            response: format!("response-{i}"),
        })
    } else {
        AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse {
            vp_token: VpToken::with_credential(
                format!("q{i}"),
                vec![VpTokenItem::String(format!("presentation-{i}"))],
            ),
            state: Some(State(format!("state-{i}"))),
        })
    }
}

fn h_run(path: &[HOp], seen_states: Option<&mut Vec<HModel>>) -> Result<(HModel, String), String> {
    let w = World::new(vec![]);
    let mut m = HModel::new();
    // What each session was built as.
    let mut built: BTreeMap<u8, Json> = BTreeMap::new();
    let mut class = String::new();
    let mut states = vec![];
    for (n, op) in path.iter().enumerate() {
        let at = |e: String| format!("step {n}, {}: {e}", op.name());
        let (want_ok, next) = h_apply(&m, op);
        let ok = match op {
            HOp::Build(r, i) => {
                let r = w.build(*r, *i);
                if r.is_ok() {
                    let s = now(w.store.inner.get_session(uuid(*i))).map_err(|e| at(e.to_string()))?;
                    built.insert(*i, view(&s).1);
                }
                r.is_ok()
            }
            HOp::Retrieve(i) => {
                // either verifier serves the request
                let v = if n % 2 == 0 { &w.by_reference } else { &w.by_value };
                match now(v.retrieve_authorization_request(uuid(*i))) {
                    Ok(jwt) => {
                        if want_ok && built[i]["jwt"] != json!(jwt) {
                            return Err(at(format!(
                                "returned {jwt}, built as {}",
                                built[i]["jwt"]
                            )));
                        }
                        true
                    }
                    Err(_) => false,
                }
            }
            HOp::Verify(i, s) => {
                let calls: Arc<Mutex<Vec<(Json, String)>>> = Default::default();
                let rec = calls.clone();
                let resp = response(*i, n % 2 == 1);
                let want_resp = serde_json::to_string(&resp).unwrap();
                let Status::Complete(outcome) = s.clone() else { unreachable!() };
                let r = now(w.by_value.verify_response(uuid(*i), resp, move |s, r| {
                    rec.lock()
                        .unwrap()
                        .push((view(&s).1, serde_json::to_string(&r).unwrap()));
                    Box::pin(async move { outcome })
                }));
                let calls = calls.lock().unwrap().clone();
                if r.is_ok() {
                    if calls.len() != 1 {
                        return Err(at(format!("the validator ran {} times", calls.len())));
                    }
                    if want_ok && (calls[0].0 != built[i] || calls[0].1 != want_resp) {
                        return Err(at(format!(
                            "the validator got session {} and response {}, expected {} and {want_resp}",
                            calls[0].0, calls[0].1, built[i]
                        )));
                    }
                } else if !want_ok && !calls.is_empty() {
                    return Err(at("the validator ran for a session that is not there".into()));
                }
                r.is_ok()
            }
            HOp::Received(i) => {
                now(w.store.inner.update_status(uuid(*i), Status::ReceivedResponse)).is_ok()
            }
            HOp::Remove(i) => now(w.store.inner.remove_session(uuid(*i))).is_ok(),
        };
        if ok != want_ok {
            return Err(at(format!(
                "{}, expected {}",
                if ok { "succeeded" } else { "failed" },
                if want_ok { "success" } else { "an error" }
            )));
        }
        m = next;
        states.push(m.clone());
        for i in 0..3u8 {
            for v in [&w.by_value, &w.by_reference] {
                let got = now(v.poll_status(uuid(i))).ok().map(|s| status_json(&s));
                let want = m.get(&i).map(|e| e.1.clone());
                if got != want {
                    return Err(at(format!("session {i} then polls as {got:?}, expected {want:?}")));
                }
            }
            if let (Ok(s), Some(b)) = (now(w.store.inner.get_session(uuid(i))), built.get(&i)) {
                if m.contains_key(&i) && view(&s).1 != *b {
                    return Err(at(format!("session {i} is now {}, built as {b}", view(&s).1)));
                }
            }
        }
        class = format!("{} {}", op.kind(), if ok { "done" } else { "refused" });
    }
    if let Some(s) = seen_states {
        *s = states;
    }
    Ok((m, class))
}

pub fn c13(c: &mut Ctx) {
    c.rule = "model: id -> status, with the lifecycle's transition rules. (1) breadth-first search of all model states over 2 sessions (by value and by reference) and all outcomes, every transition replayed on the real Verifier and MemoryStore; (2) every operation sequence up to the depth bound, polling all sessions (and one that never existed) through two verifiers after every step; (3) 250 sessions through their lives; (4) a store failure at every store call of every operation and of every sequence of operations on one session up to a depth; (5) every outcome text of a menu, alone and after another outcome; (6) every sequence of operations up to a depth performed while a response is being validated. Non-trivial: at least one operation is performed.".into();
    let mut ops = vec![];
    for i in 0..2u8 {
        ops.push(HOp::Build(false, i));
        ops.push(HOp::Build(true, i));
        ops.push(HOp::Retrieve(i));
        ops.push(HOp::Verify(i, success(i)));
        ops.push(HOp::Verify(i, failure(i)));
        ops.push(HOp::Verify(i, error(i)));
        // the same kinds of outcome, saying something else
        ops.push(HOp::Verify(i, success(i + 2)));
        ops.push(HOp::Verify(i, failure(i + 2)));
        ops.push(HOp::Received(i));
        ops.push(HOp::Remove(i));
    }
    let label = |kind: &str, p: &[HOp]| {
        format!("{kind}: {}", p.iter().map(|o| o.name()).collect::<Vec<_>>().join("; "))
    };
    let mut seen: BTreeSet<HModel> = BTreeSet::new();
    let mut queue: VecDeque<Vec<HOp>> = VecDeque::new();
    seen.insert(HModel::new());
    queue.push_back(vec![]);
    let mut transitions = 0;
    while let Some(path) = queue.pop_front() {
        for op in &ops {
            let mut p = path.clone();
            p.push(op.clone());
            transitions += 1;
            // The model alone decides what is reachable.
            let mut m = HModel::new();
            for o in &p {
                m = h_apply(&m, o).1;
            }
            c.case(label("states", &p), || h_run(&p, None).map(|(_, class)| class));
            if seen.insert(m) {
                queue.push_back(p);
            }
        }
    }
    c.explored(seen.len() as u64, transitions, transitions);
    // (2)
    let depth = c.pick(4, 5);
    let n = sequences(c, ops.len(), depth, |idx| {
        let path: Vec<HOp> = idx.iter().map(|&o| ops[o].clone()).collect();
        (label("sequence", &path), path)
    }, |path| h_run(path, None).map(|(_, class)| class));
    c.explored(0, n * depth as u64, n);
    c.extra.insert("sequence_depth".into(), json!(depth));
    // (3) many sessions, and many operations on one
    c.case("250 sessions through their lives", || {
        let w = World::new(vec![]);
        let n = 250u8;
        let mut jwts = vec![];
        for i in 0..n {
            w.build(i % 2 == 0, i)?;
            jwts.push(now(w.store.inner.get_session(uuid(i))).map_err(|e| e.to_string())?.authorization_request_jwt);
        }
        let poll = |i: u8| now(w.by_value.poll_status(uuid(i))).map(|s| status_json(&s)).map_err(|e| e.to_string());
        for i in 0..n {
            let want = if i % 2 == 0 { Status::SentRequestByReference } else { Status::SentRequest };
            if poll(i)? != status_json(&want) {
                return Err(format!("session {i} polls as {}", poll(i)?));
            }
        }
        for i in (0..n).rev() {
            for _ in 0..3 {
                let t = now(w.by_reference.retrieve_authorization_request(uuid(i))).map_err(|e| e.to_string())?;
                if t != jwts[i as usize] {
                    return Err(format!("session {i} gives another request"));
                }
            }
        }
        for i in 0..n {
            if poll(i)? != status_json(&Status::SentRequest) {
                return Err(format!("session {i} then polls as {}", poll(i)?));
            }
        }
        let outcome = |i: u8| match i % 3 {
            0 => success(i),
            1 => failure(i),
            _ => error(i),
        };
        for i in 0..n {
            let Status::Complete(o) = outcome(i) else { unreachable!() };
            now(w.by_value.verify_response(uuid(i), response(i, i % 4 == 0), move |_, _| Box::pin(async move { o }))).map_err(|e| e.to_string())?;
        }
        for round in 0..3 {
            for i in 0..n {
                if poll(i)? != status_json(&outcome(i)) {
                    return Err(format!("round {round}: session {i} polls as {}, expected {:?}", poll(i)?, outcome(i)));
                }
                let _ = now(w.by_reference.retrieve_authorization_request(uuid(i))).map_err(|e| e.to_string())?;
            }
            w.build(round % 2 == 0, n + round)?;
        }
        Ok("many sessions".into())
    });
    c.case("one session, many responses", || {
        let w = World::new(vec![]);
        w.build(true, 0)?;
        for i in 0..250u8 {
            let Status::Complete(o) = success(i) else { unreachable!() };
            now(w.by_value.verify_response(uuid(0), response(0, false), move |_, _| Box::pin(async move { o }))).map_err(|e| e.to_string())?;
            let got = now(w.by_value.poll_status(uuid(0))).map_err(|e| e.to_string())?;
            if status_json(&got) != status_json(&success(i)) {
                return Err(format!("response {i}: polls as {got:?}"));
            }
        }
        Ok("many responses".into())
    });
    faults_and_outcomes(c);
    meanwhile(c, &ops);
    // (4) store faults
    for r in [false, true] {
        for op in ["poll", "retrieve", "verify"] {
            for (fault, says) in (0..3usize).flat_map(|f| STORE_SAYS.map(|s| (f, s))) {
                c.case(format!("store fault: by reference {r}, {op}, store call {fault} fails: {says}"), || {
                    let w = World::saying(vec![1 + fault], says);
                    w.build(r, 0)?;
                    let before = status_json(&now(w.store.inner.get_session(uuid(0))).unwrap().status);
                    let ok = match op {
                        "poll" => now(w.by_value.poll_status(uuid(0))).is_ok(),
                        "retrieve" => now(w.by_value.retrieve_authorization_request(uuid(0))).is_ok(),
                        _ => now(w.by_value.verify_response(uuid(0), response(0, false), |_, _| {
                            Box::pin(async { Outcome::Success { info: json!({"n": 0}) } })
                        }))
                        .is_ok(),
                    };
                    let calls = w.store.log.lock().unwrap().len() - 1;
                    let failed = calls > fault;
                    if failed && ok {
                        return Err("the store failed but the operation reports success".into());
                    }
                    if !failed && !ok {
                        return Err("the operation failed although the store did not".into());
                    }
                    let after = status_json(&now(w.store.inner.get_session(uuid(0))).unwrap().status);
                    if op == "poll" && before != after {
                        return Err(format!("polling changed the status from {before} to {after}"));
                    }
                    Ok(format!("{op} {}", if failed { "reports the store's failure" } else { "not affected" }))
                });
            }
        }
    }
}

/// Things that happen while a response is validated.
fn meanwhile(c: &mut Ctx, ops: &[HOp]) {
    let mut inputs = vec![];
    let starts: Vec<Vec<HOp>> = vec![
        vec![HOp::Build(false, 0)],
        vec![HOp::Build(true, 0)],
        vec![HOp::Build(true, 0), HOp::Build(false, 1)],
        vec![HOp::Build(false, 0), HOp::Verify(0, success(1))],
    ];
    for start in starts {
        for outcome in [success(5), failure(5), error(5)] {
            let mut seqs: Vec<Vec<HOp>> = vec![vec![]];
            let mut last = seqs.clone();
            for _ in 0..c.pick(2, 3) {
                last = last.iter().flat_map(|s| ops.iter().map(move |o| { let mut s = s.clone(); s.push(o.clone()); s })).collect();
                seqs.extend(last.clone());
            }
            for s in seqs {
                let names = |l: &[HOp]| l.iter().map(|o| o.name()).collect::<Vec<_>>().join("; ");
                inputs.push((format!("after {}, while validating to {}: {}", names(&start), status_json(&outcome), names(&s)), (start.clone(), outcome.clone(), s)));
            }
        }
    }
    fn perform(w: &World, op: &HOp) -> bool {
        match op {
            HOp::Build(r, i) => w.build(*r, *i).is_ok(),
            HOp::Retrieve(i) => now(w.by_reference.retrieve_authorization_request(uuid(*i))).is_ok(),
            HOp::Verify(i, s) => {
                let Status::Complete(o) = s.clone() else { unreachable!() };
                now(w.by_value.verify_response(uuid(*i), response(*i, false), move |_, _| Box::pin(async move { o }))).is_ok()
            }
            HOp::Received(i) => now(w.store.inner.update_status(uuid(*i), Status::ReceivedResponse)).is_ok(),
            HOp::Remove(i) => now(w.store.inner.remove_session(uuid(*i))).is_ok(),
        }
    }
    c.cases(inputs, |(start, outcome, during)| {
        let w = World::new(vec![]);
        let mut m = HModel::new();
        for op in start {
            perform(&w, op);
            m = h_apply(&m, op).1;
        }
        let wrong: Mutex<Option<String>> = Mutex::new(None);
        let Status::Complete(o) = outcome.clone() else { unreachable!() };
        let got = now(w.by_value.verify_response(uuid(0), response(0, true), |_, _| {
            for op in during {
                let (ok, next) = h_apply(&m, op);
                m = next;
                if perform(&w, op) != ok {
                    *wrong.lock().unwrap() = Some(format!("{} {}", op.name(), if ok { "failed" } else { "succeeded" }));
                }
            }
            Box::pin(async move { o })
        }));
        if let Some(e) = wrong.into_inner().unwrap() {
            return Err(e);
        }
        let (ok, m) = h_apply(&m, &HOp::Verify(0, outcome.clone()));
        if got.is_ok() != ok {
            return Err(match got {
                Ok(()) => "reports success although the session is gone".into(),
                Err(e) => format!("fails: {e:#}"),
            });
        }
        for i in 0..3u8 {
            let polled = now(w.by_value.poll_status(uuid(i))).ok().map(|s| status_json(&s));
            let want = m.get(&i).map(|e| e.1.clone());
            if polled != want {
                return Err(format!("session {i} then polls as {polled:?}, expected {want:?}"));
            }
        }
        Ok(format!("{} meanwhile", if ok { "recorded" } else { "gone" }))
    });
}

/// Store faults within longer histories, and outcomes that say anything.
fn faults_and_outcomes(c: &mut Ctx) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op {
        Poll,
        Retrieve,
        Success,
        Failure,
        Error,
        Received,
    }
    let all = [Op::Poll, Op::Retrieve, Op::Success, Op::Failure, Op::Error, Op::Received];
    for (depth, by_reference) in (1..=c.pick(3, 5)).flat_map(|d| [(d, false), (d, true)]) {
        sequences(c, all.len(), depth, |idx| {
            let ops: Vec<Op> = idx.iter().map(|i| all[*i]).collect();
            (format!("every store fault: by reference {by_reference}, {ops:?}"), ops)
        }, |ops| {
            let mut fault = 0;
            loop {
                let w = World::new(vec![1 + fault]);
                w.build(by_reference, 0)?;
                let stage = |s: &Status| match s {
                    Status::SentRequestByReference => 0,
                    Status::SentRequest => 1,
                    Status::ReceivedResponse => 2,
                    Status::Complete(_) => 3,
                };
                for (n, op) in ops.iter().enumerate() {
                    let at = |e: &str| format!("store call {fault} fails, step {n}, {op:?}: {e}");
                    let before = now(w.store.inner.get_session(uuid(0))).map_err(|e| e.to_string())?.status;
                    let calls = w.store.log.lock().unwrap().len();
                    let complete = |s: Status| {
                        let Status::Complete(o) = s else { unreachable!() };
                        now(w.by_value.verify_response(uuid(0), response(0, false), move |_, _| Box::pin(async move { o }))).is_ok()
                    };
                    let mut polled = None;
                    let ok = match op {
                        Op::Poll => {
                            polled = now(w.by_reference.poll_status(uuid(0))).ok();
                            polled.is_some()
                        }
                        Op::Retrieve => now(w.by_reference.retrieve_authorization_request(uuid(0))).is_ok(),
                        Op::Success => complete(success(n as u8)),
                        Op::Failure => complete(failure(n as u8)),
                        Op::Error => complete(error(n as u8)),
                        Op::Received => now(w.store.inner.update_status(uuid(0), Status::ReceivedResponse)).is_ok(),
                    };
                    let failed = (calls..w.store.log.lock().unwrap().len()).contains(&(1 + fault));
                    if failed && ok {
                        return Err(at("the store failed but the operation reports success"));
                    }
                    if !failed && !ok {
                        return Err(at("it failed although the store did not"));
                    }
                    let after = now(w.store.inner.get_session(uuid(0))).map_err(|e| e.to_string())?.status;
                    if stage(&after) < stage(&before) {
                        return Err(at(&format!("the status went from {before:?} to {after:?}")));
                    }
                    let want = match op {
                        Op::Success => Some(success(n as u8)),
                        Op::Failure => Some(failure(n as u8)),
                        Op::Error => Some(error(n as u8)),
                        Op::Poll => Some(before.clone()),
                        _ => None,
                    };
                    if ok && want.is_some_and(|w| status_json(&w) != status_json(&after)) {
                        return Err(at(&format!("the status is {after:?}")));
                    }
                    if polled.is_some_and(|p| status_json(&p) != status_json(&before)) {
                        return Err(at(&format!("polled something else than {before:?}")));
                    }
                }
                if w.store.log.lock().unwrap().len() <= 1 + fault {
                    break;
                }
                fault += 1;
            }
            Ok(format!("{fault} faults"))
        });
    }
    // Outcomes that say anything.
    let mut outcomes: Vec<(String, Status)> = vec![];
    for t in texts_menu(c.pick(1, 2)) {
        let short = format!("{:?}×{}", t.chars().take(20).collect::<String>(), t.len());
        outcomes.push((format!("error {short}"), Status::Complete(Outcome::Error { cause: t.clone() })));
        outcomes.push((format!("failure {short}"), Status::Complete(Outcome::Failure { reason: t.clone() })));
        outcomes.push((format!("success {short}"), Status::Complete(Outcome::Success { info: json!(t) })));
        outcomes.push((format!("success with {short}"), Status::Complete(Outcome::Success { info: json!({t.clone(): [t]}) })));
    }
    for i in [Json::Null, json!(true), json!(false), json!(0), json!(-1), json!(1.5), json!([]), json!({}), json!([[]]), json!({"a": null}), json!(vec![1; 5000])] {
        outcomes.push((format!("success {}", i.to_string().chars().take(30).collect::<String>()), Status::Complete(Outcome::Success { info: i })));
    }
    let firsts: Vec<Option<Status>> = vec![None, Some(success(1)), Some(failure(1)), Some(error(1)), Some(Status::Complete(Outcome::Error { cause: "".into() })), Some(Status::Complete(Outcome::Failure { reason: "".into() })), Some(Status::Complete(Outcome::Success { info: Json::Null }))];
    let mut inputs = vec![];
    for (name, o) in outcomes {
        for (n, first) in firsts.iter().enumerate() {
            for by_reference in [false, true] {
                inputs.push((format!("outcome {name} after {n}, by reference {by_reference}"), (by_reference, first.clone(), o.clone())));
            }
        }
    }
    c.cases(inputs, |(by_reference, first, o)| {
        let w = World::new(vec![]);
        w.build(*by_reference, 0)?;
        w.build(*by_reference, 1)?;
        let other = now(w.by_value.poll_status(uuid(1))).map_err(|e| e.to_string())?;
        for s in first.iter().chain([o]) {
            let Status::Complete(outcome) = s.clone() else { unreachable!() };
            now(w.by_value.verify_response(uuid(0), response(0, true), move |_, _| Box::pin(async move { outcome }))).map_err(|e| format!("{e:#}"))?;
            for round in 0..2 {
                let got = now(w.by_value.poll_status(uuid(0))).map_err(|e| format!("polling: {e:#}"))?;
                if status_json(&got) != status_json(s) {
                    return Err(format!("round {round}: polls as {got:?}, not {s:?}"));
                }
                now(w.by_reference.retrieve_authorization_request(uuid(0))).map_err(|e| format!("retrieving: {e:#}"))?;
            }
        }
        if status_json(&now(w.by_value.poll_status(uuid(1))).map_err(|e| e.to_string())?) != status_json(&other) {
            return Err("another session changed".into());
        }
        Ok("outcome".into())
    });
}

// ---------------------------------------------------------------- C28

pub fn c28(c: &mut Ctx) {
    c.rule = "every value, pair and triple over a menu of all statuses and outcomes with varied texts and JSON; non-trivial: the compared values are distinct entries of the menu, or the value carries text or JSON".into();
    let texts = strings(&["a", "\"", "\\", "\n", "é", "\u{0}", "{"], 2);
    let infos = vec![
        Json::Null,
        json!(true),
        json!(0),
        json!(-1),
        json!(1.5),
        json!(u64::MAX),
        json!(""),
        json!("Complete"),
        json!([]),
        json!([1, [2, null]]),
        json!({}),
        json!({"a": {"b": [1, "x"]}, "": null}),
        json!({"Success": {"info": 1}}),
    ];
    // (rank, status)
    let mut menu: Vec<(u8, Status)> = vec![
        (0, Status::SentRequestByReference),
        (1, Status::SentRequest),
        (2, Status::ReceivedResponse),
    ];
    for t in &texts {
        menu.push((3, Status::Complete(Outcome::Error { cause: t.clone() })));
        menu.push((4, Status::Complete(Outcome::Failure { reason: t.clone() })));
        menu.push((5, Status::Complete(Outcome::Success { info: json!(t) })));
    }
    for i in &infos {
        menu.push((5, Status::Complete(Outcome::Success { info: i.clone() })));
    }
    for n in [63usize, 64, 255, 256, 1000, 4096, 5000, 70_000] {
        let t = format!("{}{n}", "e\u{301}".repeat(n / 3));
        menu.push((3, Status::Complete(Outcome::Error { cause: t.clone() })));
        menu.push((4, Status::Complete(Outcome::Failure { reason: t.clone() })));
        menu.push((5, Status::Complete(Outcome::Success { info: json!(t) })));
        menu.push((5, Status::Complete(Outcome::Success { info: json!((0..n.min(2000)).map(|i| (format!("k{i}"), json!(i))).collect::<serde_json::Map<_, _>>()) })));
        let mut deep = json!(n);
        for _ in 0..n.min(100) {
            deep = json!([deep]);
        }
        menu.push((5, Status::Complete(Outcome::Success { info: deep })));
    }
    for (_, s) in &menu {
        c.case(format!("round trip {s:?}"), || {
            let text = serde_json::to_string(s).map_err(|e| e.to_string())?;
            let back: Status = serde_json::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
            if format!("{back:?}") != format!("{s:?}") {
                return Err(format!("{text} reads back as {back:?}"));
            }
            let v = serde_json::to_value(s).map_err(|e| e.to_string())?;
            let back: Status = serde_json::from_value(v).map_err(|e| e.to_string())?;
            if format!("{back:?}") != format!("{s:?}") {
                return Err(format!("as a JSON value reads back as {back:?}"));
            }
            // what a frontend reads
            let form = match s {
                Status::SentRequestByReference => json!("SentRequestByReference"),
                Status::SentRequest => json!("SentRequest"),
                Status::ReceivedResponse => json!("ReceivedResponse"),
                Status::Complete(Outcome::Error { cause }) => json!({"Complete": {"Error": {"cause": cause}}}),
                Status::Complete(Outcome::Failure { reason }) => json!({"Complete": {"Failure": {"reason": reason}}}),
                Status::Complete(Outcome::Success { info }) => json!({"Complete": {"Success": {"info": info}}}),
            };
            let v = serde_json::to_value(s).map_err(|e| e.to_string())?;
            if v != form {
                return Err(format!("written as {v}, should be {form}"));
            }
            Ok("round trip".into())
        });
    }
    let mut by_text: BTreeMap<String, String> = BTreeMap::new();
    let distinct: BTreeSet<String> = menu.iter().map(|(_, s)| format!("{s:?}")).collect();
    for (_, s) in &menu {
        by_text.insert(serde_json::to_string(s).unwrap_or_default(), format!("{s:?}"));
    }
    c.case("different statuses have different JSON", || {
        if by_text.len() == distinct.len() {
            Ok("injective".into())
        } else {
            Err(format!("{} statuses share {} JSON texts", distinct.len(), by_text.len()))
        }
    });
    // order
    let brief = |s: &Status| {
        let t = format!("{s:?}");
        if t.len() < 200 { t } else { format!("{}... ({} bytes)", t.chars().take(60).collect::<String>(), t.len()) }
    };
    let some: Vec<&(u8, Status)> = menu.iter().collect();
    for (ra, a) in &some {
        for (rb, b) in &some {
            c.case(format!("order {} / {}", brief(a), brief(b)), || {
                use std::cmp::Ordering;
                let want = ra.cmp(rb);
                let got = a.partial_cmp(b);
                // Within one kind of outcome nothing is said about the order, except that it is
                // consistent with equality.
                let eq = a == b;
                if want != Ordering::Equal {
                    if got != Some(want) || eq {
                        return Err(format!("compares as {got:?} (equal: {eq}), expected {want:?}"));
                    }
                } else {
                    if eq != (got == Some(Ordering::Equal)) {
                        return Err(format!("compares as {got:?} but equality says {eq}"));
                    }
                    if format!("{a:?}") == format!("{b:?}") && !eq {
                        return Err("a status is not equal to itself".into());
                    }
                }
                if (a < b) != (got == Some(Ordering::Less))
                    || (a > b) != (got == Some(Ordering::Greater))
                    || (a <= b) != matches!(got, Some(Ordering::Less | Ordering::Equal))
                    || (a >= b) != matches!(got, Some(Ordering::Greater | Ordering::Equal))
                    || (a != b) == eq
                    || b.partial_cmp(a) != got.map(Ordering::reverse)
                {
                    return Err("the comparison operators contradict each other".into());
                }
                if let (Status::Complete(x), Status::Complete(y)) = (a, b) {
                    if x.partial_cmp(y) != got || (x == y) != eq {
                        return Err("outcomes and the statuses that hold them compare differently".into());
                    }
                }
                Ok(format!("{got:?}"))
            });
        }
    }
    // transitivity over a smaller menu
    let step = c.pick(9, 3);
    let few: Vec<&Status> = menu.iter().enumerate().filter(|(i, (r, s))| {
        let json = matches!(s, Status::Complete(Outcome::Success { info }) if !info.is_string());
        *r < 3 || i % step == 0 || (json && format!("{s:?}").len() < 200)
    }).map(|(_, (_, s))| s).collect();
    for a in &few {
        for b in &few {
            for d in &few {
                c.case(format!("transitive {} / {} / {}", brief(a), brief(b), brief(d)), || {
                    if a <= b && b <= d && !(a <= d) {
                        return Err("<= is not transitive".into());
                    }
                    if a < b && b < d && !(a < d) {
                        return Err("< is not transitive".into());
                    }
                    if a == b && b == d && a != d {
                        return Err("== is not transitive".into());
                    }
                    Ok("transitive".into())
                });
            }
        }
    }
}
