//! C22: whole protocol runs, between real verifiers and a real wallet over a modelled network.
use super::crypto::{ssi_jwk_of, verifying_wallet, OneKeys};
use super::hist::{status_json, uuid};
use super::wallet::form;
use crate::ctx::{now, Ctx};
use crate::env::*;
use openid4vp::core::authorization_request::parameters::*;
use openid4vp::core::authorization_request::{AuthorizationRequest, AuthorizationRequestObject, RequestIndirection};
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use openid4vp::core::response::*;
use openid4vp::verifier::client::{Client, DIDClient, X509HashClient, X509SanDnsClient};
use openid4vp::verifier::session::{MemoryStore, Outcome, Status};
use openid4vp::verifier::Verifier;
use openid4vp::wallet::Wallet;
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use url::Url;
use uuid::Uuid;

const KINDS: [&str; 3] = ["x509_san_dns", "x509_hash", "decentralized_identifier"];
const MODES: [&str; 4] = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];

fn spec(n: u8) -> CertSpec {
    CertSpec::new(n, &[San::Dns(if n == 1 { "v1.example" } else { "v2.example" })])
}

fn vm(n: u8) -> String {
    format!("did:example:v{n}#key")
}

fn resolver() -> OneKeys {
    OneKeys(vec![(vm(1), ssi_jwk_of(1)), (vm(2), ssi_jwk_of(2))])
}

fn client(kind: &str, n: u8) -> (Arc<dyn Client + Send + Sync>, String) {
    match kind {
        "x509_san_dns" => (Arc::new(X509SanDnsClient::new(vec![spec(n).cert()], signer(n)).unwrap()), format!("x509_san_dns:v{n}.example")),
        "x509_hash" => (Arc::new(X509HashClient::new(vec![spec(n).cert()], signer(n)).unwrap()), format!("x509_hash:{}", b64u(sha256(&spec(n).to_der())))),
        _ => (Arc::new(now(DIDClient::new(vm(n), signer(n), &resolver())).unwrap()), format!("decentralized_identifier:did:example:v{n}")),
    }
}

/// The protected header the verifier's tokens have.
fn header(kind: &str, n: u8) -> Json {
    match kind {
        "decentralized_identifier" => json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": vm(n)}),
        _ => json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [spec(n).x5c()]}),
    }
}

/// One verifier with its store and what its HTTP endpoints do.
struct Party {
    n: u8,
    id: String,
    by_value: Verifier,
    by_reference: Verifier,
    /// The responses its validator was given, with the session's id and nonce.
    validated: Arc<Mutex<Vec<(Uuid, String, Json)>>>,
}

impl Party {
    fn new(kind: &str, n: u8) -> Party {
        let (client, id) = client(kind, n);
        let store = Arc::new(MemoryStore::default());
        let b = || {
            Verifier::builder()
                .with_client(client.clone())
                .with_session_store(store.clone())
                .with_submission_endpoint(format!("https://v{n}.example/submit").parse().unwrap())
        };
        Party {
            n,
            by_value: now(b().by_value().build()).unwrap(),
            by_reference: now(b().by_reference(format!("https://v{n}.example/request").parse().unwrap()).build()).unwrap(),
            validated: Default::default(),
            id,
        }
    }

    fn receive(&self, id: Uuid, r: AuthorizationResponse) -> Result<(), String> {
        let log = self.validated.clone();
        now(self.by_value.verify_response(id, r, move |s, r| {
            let j = serde_json::to_value(&r).unwrap();
            log.lock().unwrap().push((s.uuid, s.authorization_request_object.nonce().to_string(), j.clone()));
            Box::pin(async move { Outcome::Success { info: j } })
        }))
        .map_err(|e| format!("{e:#}"))
    }

    /// The verifier's web server.
    fn serve(&self, path: &str, method: &str, body: &[u8]) -> Answer {
        let no = |t: &str| Answer::Reply(404, t.as_bytes().to_vec());
        let Some((what, id)) = path.trim_start_matches('/').split_once('/') else { return no("path") };
        let Ok(id) = id.parse::<Uuid>() else { return no("id") };
        match (method, what) {
            ("GET", "request") => match now(self.by_reference.retrieve_authorization_request(id)) {
                Ok(t) => Answer::Reply(200, t.into_bytes()),
                Err(e) => no(&format!("{e:#}")),
            },
            ("POST", "submit") => match AuthorizationResponse::from_x_www_form_urlencoded(body).map_err(|e| format!("{e:#}")).and_then(|r| self.receive(id, r)) {
                Ok(()) => Answer::Reply(200, json!({"redirect_uri": format!("https://v{}.example/done/{id}", self.n)}).to_string().into_bytes()),
                Err(e) => no(&e),
            },
            _ => no("endpoint"),
        }
    }
}

fn network(parties: &[Arc<Party>]) -> Net {
    let parties = parties.to_vec();
    Net::new(move |r| {
        let host = r.uri().host().unwrap_or("").to_string();
        match parties.iter().find(|p| format!("v{}.example", p.n) == host) {
            Some(p) => p.serve(r.uri().path(), r.method().as_str(), r.body()),
            None => Answer::Fault,
        }
    })
}

fn wallet_metadata() -> openid4vp::core::metadata::WalletMetadata {
    metadata(json!({
        "client_id_prefixes_supported": KINDS,
        "request_object_signing_alg_values_supported": ["ES256"],
        "authorization_encryption_alg_values_supported": ["ECDH-ES"],
        "authorization_encryption_enc_values_supported": ["A128GCM"],
    }))
}

fn query(tag: &str) -> Json {
    json!({"credentials": [{"id": format!("cred-{tag}"), "format": "dc+sd-jwt", "meta": {"vct_values": [tag]}}]})
}

fn client_metadata(tag: &str) -> Json {
    let mut k = public_jwk(9);
    k["use"] = json!("enc");
    k["alg"] = json!("ECDH-ES");
    k["kid"] = json!(format!("enc-{tag}"));
    json!({"jwks": {"keys": [k]}, "vp_formats_supported": {"dc+sd-jwt": {}}})
}

/// One presentation flow.
#[derive(Clone, Debug, PartialEq)]
struct Flow {
    party: usize,
    session: u8,
    mode: &'static str,
    by_reference: bool,
    /// Part of every text of the request and the response.
    text: String,
}

impl Flow {
    fn new(party: usize, session: u8, mode: &'static str, by_reference: bool) -> Flow {
        Flow { party, session, mode, by_reference, text: String::new() }
    }
    fn tag(&self) -> String {
        format!("p{}s{}{}", self.party, self.session, self.text)
    }
    fn build(&self, parties: &[Arc<Party>]) -> Result<Url, String> {
        let p = &parties[self.party];
        let v = if self.by_reference { &p.by_reference } else { &p.by_value };
        let mode = match self.mode {
            "direct_post" => ResponseMode::DirectPost,
            "direct_post.jwt" => ResponseMode::DirectPostJwt,
            "dc_api" => ResponseMode::DcApi,
            _ => ResponseMode::DcApiJwt,
        };
        let cm: ClientMetadata = client_metadata(&self.tag()).try_into().map_err(|e| format!("{e:#}"))?;
        now(v
            .build_authorization_request()
            .with_dcql_query(serde_json::from_value(query(&self.tag())).unwrap())
            .with_request_parameter(ResponseType::VpToken)
            .with_request_parameter(mode)
            .with_request_parameter(Nonce::from(format!("nonce-{}", self.tag())))
            .with_request_parameter(State(format!("state-{}", self.tag())))
            .with_request_parameter(cm)
            .build_with_session_id(uuid(self.session), wallet_metadata()))
        .map_err(|e| format!("not built: {e:#}"))
    }
    fn expected(&self, parties: &[Arc<Party>]) -> Json {
        let mut o = json!({
            "client_id": parties[self.party].id,
            "dcql_query": query(&self.tag()),
            "response_type": "vp_token",
            "response_mode": self.mode,
            "nonce": format!("nonce-{}", self.tag()),
            "state": format!("state-{}", self.tag()),
            "client_metadata": client_metadata(&self.tag()),
        });
        if self.mode.starts_with("direct_post") {
            o["response_uri"] = json!(format!("https://v{}.example/submit/{}", parties[self.party].n, uuid(self.session)));
        }
        o
    }
    /// What the wallet answers to this request, and its JSON.
    fn response(tag: &str, mode: &str) -> (AuthorizationResponse, Json) {
        let r = if mode.ends_with(".jwt") {
            AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: format!("jwe+for.{tag}=&") })
        } else {
            let mut t = VpToken::new();
            t.insert(format!("cred-{tag}"), vec![VpTokenItem::String(format!("vp+{tag}~&=")), VpTokenItem::JsonObject(json!({"vp": tag}).as_object().unwrap().clone())]);
            AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::with_state(t, State(format!("state-{tag}"))))
        };
        let j = serde_json::to_value(&r).unwrap();
        (r, j)
    }
    fn label(&self) -> String {
        format!("{}/{}/{}", self.tag(), self.mode, if self.by_reference { "reference" } else { "value" })
    }
}

/// The four steps of a flow.
const STEPS: u8 = 4;

struct World {
    parties: Vec<Arc<Party>>,
    net: Net,
    wallet: TestWallet,
    urls: HashMap<usize, Url>,
    objects: HashMap<usize, AuthorizationRequestObject>,
}

impl World {
    fn new(kinds: &[&str]) -> World {
        let parties: Vec<Arc<Party>> = kinds.iter().enumerate().map(|(i, k)| Arc::new(Party::new(k, i as u8 + 1))).collect();
        let net = network(&parties);
        World { wallet: verifying_wallet(wallet_metadata(), net.clone(), resolver()), net, parties, urls: HashMap::new(), objects: HashMap::new() }
    }

    fn step(&mut self, i: usize, f: &Flow, at: u8) -> Result<(), String> {
        match at {
            0 => {
                let u = f.build(&self.parties)?;
                self.urls.insert(i, u);
            }
            1 => {
                let o = now(self.wallet.validate_request(self.urls[&i].clone())).map_err(|e| format!("the wallet refuses an honest request: {e:#}"))?;
                let j = serde_json::to_value(&o).unwrap();
                if j != f.expected(&self.parties) {
                    return Err(format!("the wallet sees {j}, the verifier asked {}", f.expected(&self.parties)));
                }
                if o.nonce().to_string() != format!("nonce-{}", f.tag()) || o.client_id().map(|c| c.0.clone()) != Some(self.parties[f.party].id.clone()) {
                    return Err("the wallet's view of nonce or client differs".into());
                }
                self.objects.insert(i, o);
            }
            2 => {
                let (r, _) = Flow::response(&f.tag(), f.mode);
                let before = self.net.calls();
                let redirect = now(self.wallet.submit_response(self.objects[&i].clone(), r)).map_err(|e| format!("submission failed: {e:#}"))?;
                let id = uuid(f.session);
                if f.mode.starts_with("direct_post") {
                    let want = format!("https://v{}.example/done/{id}", self.parties[f.party].n);
                    if redirect.as_ref().map(|u| u.to_string()) != Some(want) {
                        return Err(format!("redirected to {redirect:?}"));
                    }
                } else {
                    if redirect.is_some() || self.net.calls() != before {
                        return Err("a Digital Credentials API response was sent somewhere".into());
                    }
                    // The browser hands it to the verifier.
                    let (r, _) = Flow::response(&f.tag(), f.mode);
                    self.parties[f.party].receive(id, r)?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// Compare every session of every party with the flows' progress.
    fn observe(&self, flows: &[Flow], progress: &[u8]) -> Result<(), String> {
        for (pi, p) in self.parties.iter().enumerate() {
            let mut want_validated: Vec<(Uuid, String, Json)> = vec![];
            for s in 0..4u8.max(flows.len() as u8 + 1) {
                let got = now(p.by_value.poll_status(uuid(s))).ok().map(|s| status_json(&s));
                let flow = flows.iter().position(|f| f.party == pi && f.session == s);
                let want = flow.and_then(|i| {
                    let f = &flows[i];
                    Some(match progress[i] {
                        0 => return None,
                        1 if f.by_reference => Status::SentRequestByReference,
                        1 | 2 => Status::SentRequest,
                        _ => {
                            let (_, j) = Flow::response(&f.tag(), f.mode);
                            want_validated.push((uuid(s), format!("nonce-{}", f.tag()), j.clone()));
                            Status::Complete(Outcome::Success { info: j })
                        }
                    })
                });
                let want = want.map(|w| status_json(&w));
                if got != want {
                    return Err(format!("party {pi} session {s}: polls as {got:?}, should be {want:?}"));
                }
            }
            let mut got = p.validated.lock().unwrap().clone();
            let key = |x: &(Uuid, String, Json)| format!("{x:?}");
            got.sort_by_key(key);
            want_validated.sort_by_key(key);
            if got != want_validated {
                return Err(format!("party {pi}: its validator got {got:?}, should be {want_validated:?}"));
            }
        }
        Ok(())
    }
}

fn interleavings(n: usize, steps: u8) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<u8>, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(path.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                path.push(i);
                go(left, path, out);
                path.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![steps; n], &mut vec![], &mut out);
    out
}

/// One order of the steps of some flows.
struct Order {
    kinds: Vec<&'static str>,
    flows: Vec<Flow>,
    order: Vec<usize>,
}

impl Order {
    fn label(&self, what: &str) -> String {
        let f: Vec<String> = self.flows.iter().map(|f| f.label()).collect();
        let o: String = self.order.iter().map(|i| i.to_string()).collect();
        format!("{}{what} {} order {o}", self.kinds.join("+"), f.join(" "))
    }
    /// The model's states on the way.
    fn states(&self, states: &mut HashSet<(String, Vec<u8>)>) {
        let names: String = self.label("").rsplit_once(" order ").unwrap().0.into();
        let mut progress = vec![0u8; self.flows.len()];
        states.insert((names.clone(), progress.clone()));
        for i in &self.order {
            progress[*i] += 1;
            states.insert((names.clone(), progress.clone()));
        }
    }
    fn run(&self) -> Result<String, String> {
        let flows = &self.flows;
        let mut w = World::new(&self.kinds);
        let mut progress = vec![0u8; flows.len()];
        for (n, i) in self.order.iter().enumerate() {
            let f = &flows[*i];
            w.step(*i, f, progress[*i]).map_err(|e| format!("step {n} ({} at {}): {e}", f.label(), progress[*i]))?;
            progress[*i] += 1;
            w.observe(flows, &progress).map_err(|e| format!("after step {n} ({} at {}): {e}", f.label(), progress[*i] - 1))?;
        }
        Ok(format!("{} flows complete", flows.len()))
    }
}

// ---------------------------------------------------------------- the attacker

/// A token the attacker can put in the wallet's way, and who made it if it is a genuine one.
#[derive(Clone)]
struct Forgery {
    name: String,
    token: String,
    /// The party and session of a token a verifier signed.
    genuine: Option<(usize, u8)>,
    /// Accepting it is allowed only as what its signer (this party) says in its own name.
    own: Option<usize>,
}

fn forgeries(kinds: &[&str], w: &World, tokens: &[(usize, u8, String)]) -> Vec<Forgery> {
    let mut out: Vec<Forgery> = tokens.iter().map(|(p, s, t)| Forgery { name: format!("token p{p}s{s}"), token: t.clone(), genuine: Some((*p, *s)), own: None }).collect();
    let mut add = |name: String, token: String, own: Option<usize>| out.push(Forgery { name, token, genuine: None, own });
    let parts = |t: &str| -> Vec<String> { t.split('.').map(String::from).collect() };
    // Every mix of the parts of two tokens.
    for (i, a) in tokens.iter().enumerate() {
        for (j, b) in tokens.iter().enumerate() {
            if i == j {
                continue;
            }
            let (x, y) = (parts(&a.2), parts(&b.2));
            for m in 1..7u8 {
                let pick = |n: usize| if m & (1 << n) != 0 { y[n].clone() } else { x[n].clone() };
                let t = format!("{}.{}.{}", pick(0), pick(1), pick(2));
                if tokens.iter().any(|k| k.2 == t) {
                    continue;
                }
                add(format!("mix {m:03b} of p{}s{} and p{}s{}", a.0, a.1, b.0, b.1), t, None);
            }
        }
    }
    for (p, s, t) in tokens {
        let x = parts(t);
        let body: Json = serde_json::from_slice(&unb64u(&x[1]).unwrap()).unwrap();
        let head: Json = serde_json::from_slice(&unb64u(&x[0]).unwrap()).unwrap();
        // The body altered, the signature kept.
        for (k, v) in [("response_uri", json!("https://evil.example/")), ("nonce", json!("evil")), ("client_id", json!(w.parties[1 - p].id)), ("state", json!("evil")), ("dcql_query", query("evil")), ("response_mode", json!("dc_api"))] {
            let mut b = body.clone();
            b[k] = v;
            add(format!("p{p}s{s} with another {k}"), format!("{}.{}.{}", x[0], b64u(b.to_string()), x[2]), None);
            // The same, signed by the other party, with the header of either.
            let other = (1 - p) as u8 + 1;
            let is_own = k == "client_id";
            add(format!("p{p}s{s} with another {k}, signed by the other party, p{p}'s header"), jwt(&head, &b, &key(other)), None);
            add(format!("p{p}s{s} with another {k}, signed by the other party"), jwt(&header(kinds[1 - p], other), &b, &key(other)), is_own.then_some(1 - p));
            add(format!("p{p}s{s} with another {k}, signed by nobody known"), jwt(&head, &b, &key(7)), None);
            let mut none = head.clone();
            none["alg"] = json!("none");
            add(format!("p{p}s{s} with another {k}, unsigned"), format!("{}.{}.", b64u(none.to_string()), b64u(b.to_string())), None);
            add(format!("p{p}s{s} with another {k}, unsigned, signature kept"), format!("{}.{}.{}", b64u(none.to_string()), b64u(b.to_string()), x[2]), None);
            let mut both = head.clone();
            for (k, v) in header(kinds[1 - p], other).as_object().unwrap() {
                both.as_object_mut().unwrap().entry(k.clone()).or_insert(v.clone());
            }
            if kinds[0] != kinds[1] && !is_own {
                add(format!("p{p}s{s} with another {k}, both headers, signed by the other party"), jwt(&both, &b, &key(other)), None);
            }
        }
        add(format!("p{p}s{s} without signature"), format!("{}.{}.", x[0], x[1]), None);
        add(format!("p{p}s{s} of two parts"), format!("{}.{}", x[0], x[1]), None);
        add(format!("p{p}s{s}'s parts, then another"), format!("{t}.{}", x[2]), None);
    }
    add("nothing".into(), String::new(), None);
    add("garbage".into(), "<html>".into(), None);
    out
}

pub fn c22(c: &mut Ctx) {
    c.rule = "Explicit-state exploration of the protocol, directly on the code: two (thorough: also three) flows of four steps each (build, wallet validates, wallet responds, poll) at one or two verifiers, for every pair of client kinds, response modes and ways of passing, in every interleaving, comparing every session of every verifier after each step; then every combination of the URL's client_id, way of passing and token out of what an attacker can assemble from the verifiers' messages and the other verifier's key; then one flow for every choice and every pair of choices (quick: for two of the ways and modes) of what the two sides can be configured with (identity, endpoints, wallet lists, request, response, outcome; also fresh session ids and tokens without URL). States are (configuration, progress of each flow), transitions the steps, traces the interleavings replayed. Non-trivial: a distinct interleaving or attack.".into();
    c.assumptions = vec![
        "the attacker does not hold a certificate for the other verifier's name (wallets without trusted roots take any)".into(),
        "encrypted responses are opaque texts here (their making is C23's)".into(),
        "ECDSA cannot be forged; P-256 verification is the p256 crate's".into(),
    ];
    let mut states = HashSet::new();
    let mut orders: Vec<(String, Order)> = vec![];
    let two = interleavings(2, STEPS);
    for k1 in KINDS {
        for k2 in KINDS {
            for (m1, m2, same) in [
                ("direct_post", "direct_post", true),
                ("direct_post", "direct_post", false),
                ("direct_post", "direct_post.jwt", true),
                ("direct_post.jwt", "direct_post.jwt", false),
                ("direct_post", "dc_api", true),
                ("direct_post.jwt", "dc_api.jwt", false),
                ("dc_api", "dc_api.jwt", true),
            ] {
                for refs in 0..4u8 {
                    if same && k1 != k2 {
                        continue;
                    }
                    // Both flows use the same session id when they are at different verifiers.
                    let flows = vec![
                        Flow::new(0, 1, m1, refs & 1 == 1),
                        Flow::new(if same { 0 } else { 1 }, if same { 2 } else { 1 }, m2, refs & 2 == 2),
                    ];
                    for o in &two {
                        let o = Order { kinds: vec![k1, k2], flows: flows.clone(), order: o.clone() };
                        orders.push((o.label(""), o));
                    }
                }
            }
        }
    }
    // (the last step only polls, as is done after every step)
    let three = interleavings(3, c.pick(STEPS - 1, STEPS));
    for (ki, k) in KINDS.iter().enumerate() {
        let k2 = KINDS[(ki + 1) % 3];
        let flows = vec![
            Flow::new(0, 1, "direct_post", true),
            Flow::new(0, 2, "direct_post.jwt", false),
            Flow::new(1, 1, "direct_post", true),
        ];
        for o in &three {
            let o = Order { kinds: vec![*k, k2], flows: flows.clone(), order: o.clone() };
            orders.push((o.label(" three flows"), o));
        }
    }
    let traces = orders.len() as u64;
    let mut transitions = orders.iter().map(|o| o.1.order.len() as u64).sum::<u64>();
    orders.iter().for_each(|o| o.1.states(&mut states));
    c.cases(orders, |o| o.run());
    // Attacks.
    for k1 in KINDS {
        for k2 in KINDS {
            let kinds = [k1, k2];
            for mode in if c.quick() { &MODES[..2] } else { &MODES[..] } {
                let flows: Vec<Flow> = (0..4).map(|i| Flow::new(i / 2, (i % 2) as u8, mode, true)).collect();
                let mut w = World::new(&kinds);
                for (i, f) in flows.iter().enumerate() {
                    w.step(i, f, 0).expect("building");
                }
                let tokens: Vec<(usize, u8, String)> = flows.iter().map(|f| (f.party, f.session, now(w.parties[f.party].by_value.retrieve_authorization_request(uuid(f.session))).unwrap())).collect();
                let ids = [Some(w.parties[0].id.clone()), Some(w.parties[1].id.clone()), None, Some("evil".to_string()), Some(String::new()), Some("redirect_uri:https://evil.example/".to_string())];
                let mut attacks = vec![];
                for fg in forgeries(&kinds, &w, &tokens) {
                    let fg = Arc::new(fg);
                    for id in &ids {
                        for way in ["value", "answer"] {
                            attacks.push((format!("{k1}+{k2} {mode} client_id={id:?} {way}: {}", fg.name), (fg.clone(), id.clone(), way)));
                        }
                    }
                }
                transitions += attacks.len() as u64;
                // The two verifiers are shared by the cases, which run side by side.
                let turn = Arc::new(std::sync::Mutex::new(()));
                c.cases(attacks, |(fg, id, way)| {
                                let mut q: Vec<(&str, &str)> = vec![];
                                if let Some(id) = id {
                                    q.push(("client_id", id));
                                }
                                let real = {
                                    let (real, turn) = (w.net.answer.clone(), turn.clone());
                                    move |r: &_| {
                                        let _turn = turn.lock().unwrap_or_else(|e| e.into_inner());
                                        real(r)
                                    }
                                };
                                let net = if *way == "value" {
                                    q.push(("request", &fg.token));
                                    Net::new(move |r| real(r))
                                } else {
                                    q.push(("request_uri", "https://v1.example/request/00000000-0000-0000-0000-000000000001"));
                                    let t = fg.token.clone();
                                    Net::new(move |r| if r.method() == "GET" { Answer::Reply(200, t.clone().into_bytes()) } else { real(r) })
                                };
                                let wallet = verifying_wallet(wallet_metadata(), net.clone(), resolver());
                                let url: Url = format!("openid4vp:?{}", serde_urlencoded::to_string(&q).unwrap()).parse().unwrap();
                                let body = jwt_parts(&fg.token).ok().map(|p| p.1);
                                let signer = fg.genuine.map(|g| g.0).or(fg.own);
                                match now(wallet.validate_request(url)) {
                                    Err(e) => {
                                        let right_id = |p: usize| match id {
                                            Some(id) => *id == w.parties[p].id,
                                            None => true,
                                        };
                                        if signer.is_some_and(right_id) {
                                            return Err(format!("refused, though it is what that client signed: {e:#}"));
                                        }
                                        Ok("attack refused".into())
                                    }
                                    Ok(o) => {
                                        let Some(p) = signer else { return Err("accepted, though no verifier signed it".into()) };
                                        let j = serde_json::to_value(&o).unwrap();
                                        if Some(&j) != body.as_ref() {
                                            return Err(format!("processed as {j}"));
                                        }
                                        if o.client_id().map(|c| c.0.as_str()) != Some(w.parties[p].id.as_str()) {
                                            return Err("accepted in another client's name".into());
                                        }
                                        if id.as_ref().is_some_and(|id| *id != w.parties[p].id) {
                                            return Err("accepted under another client_id than the URL's".into());
                                        }
                                        // What the wallet now answers reaches that client's session, if anything.
                                        if let Some((p, s)) = fg.genuine {
                                            if mode.starts_with("direct_post") {
                                                let (r, want) = Flow::response(&format!("p{p}s{s}"), mode);
                                                let before = net.calls();
                                                now(wallet.submit_response(o, r)).map_err(|e| format!("submission failed: {e:#}"))?;
                                                let calls = net.log.lock().unwrap();
                                                let last = calls.last().unwrap();
                                                if calls.len() != before + 1 || last.uri().to_string() != format!("https://v{}.example/submit/{}", p + 1, uuid(s)) {
                                                    return Err(format!("the response went to {}", last.uri()));
                                                }
                                                let f = form(last.body())?;
                                                let f: BTreeMap<String, Json> = f.into_iter().map(|(k, v)| { let j = if k == "vp_token" { serde_json::from_str(&v).unwrap_or(json!(v)) } else { json!(v) }; (k, j) }).collect();
                                                if json!(f) != want {
                                                    return Err(format!("the response sent is {f:?}"));
                                                }
                                            }
                                            Ok("a genuine request processed as signed".into())
                                        } else {
                                            Ok("the other verifier's own words, in its own name".into())
                                        }
                                    }
                                }
                });
            }
        }
    }
    // Any text in what is asked and answered; long ones.
    let mut texts = texts_menu(1);
    texts.extend([100usize, 257, 1025, 5000, 70_000].map(|n| "\u{e9}+%&=".repeat(n / 6)));
    let mut one = vec![];
    for t in texts {
        for k in KINDS {
            for mode in MODES {
                for by_reference in [false, true] {
                    let f = Flow { text: t.clone(), ..Flow::new(0, 1, mode, by_reference) };
                    let name = if t.len() > 60 { format!("{} bytes", t.len()) } else { format!("{t:?}") };
                    one.push((format!("{k} {mode} by reference {by_reference}, texts with {name}"), Order { kinds: vec![k, k], flows: vec![f], order: vec![0; STEPS as usize] }));
                }
            }
        }
    }
    c.cases(one, |o| o.run().map(|_| "any text".into()));
    // Many sessions at two verifiers, in several orders.
    let many = c.pick(40usize, 200);
    let mut orders = vec![];
    for k in KINDS {
        for mix in 0..4usize {
            let flows: Vec<Flow> = (0..many).map(|i| Flow::new((i / 2 + mix) % 2, i as u8, MODES[(i + mix) % 4], (i + i / 4) % 2 == 0)).collect();
            let n = flows.len();
            let order: Vec<usize> = match mix {
                // one after the other; step by step; step by step and back; in growing overlaps
                0 => (0..n).flat_map(|i| [i; STEPS as usize]).collect(),
                1 => (0..STEPS as usize).flat_map(|_| 0..n).collect(),
                2 => (0..STEPS as usize).flat_map(|s| (0..n).map(move |i| if s % 2 == 0 { i } else { n - 1 - i })).collect(),
                _ => (0..n + 3).flat_map(|i| (0..STEPS as usize).filter_map(move |s| (i >= s && i - s < n).then(|| i - s))).collect(),
            };
            orders.push((format!("{k}, {n} flows, order {mix}"), Order { kinds: vec![k, k], flows, order }));
        }
    }
    transitions += orders.iter().map(|o| o.1.order.len() as u64).sum::<u64>();
    c.cases(orders, |o| o.run().map(|_| "many flows".into()));
    // Everything the two sides can be configured with.
    let all: Vec<(String, Setup)> = setups(c.quick()).into_iter().map(|s| (s.label(), s)).collect();
    transitions += 3 * all.len() as u64;
    all.iter().for_each(|(l, _)| (0..4).for_each(|p| drop(states.insert((l.clone(), vec![p])))));
    c.cases(all, |s| s.run());
    c.explored(states.len() as u64, transitions, traces);
}

// ---------------------------------------------------------------- configurations

/// One choice for everything the two sides can be configured with; 0 is the usual one.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Setup {
    kind: usize,
    way: usize,
    mode: usize,
    /// identity, submission endpoint, reference endpoint, wallet endpoint, wallet lists, request, response, outcome
    more: [usize; 8],
}

const WAYS: [&str; 5] = ["value", "reference", "value, fresh id", "reference, fresh id", "token only"];
const MORE: [(&str, usize); 8] = [("identity", 4), ("submission", 5), ("reference", 4), ("endpoint", 6), ("lists", 5), ("request", 7), ("response", 6), ("outcome", 4)];

impl Setup {
    fn label(&self) -> String {
        let more: Vec<String> = MORE.iter().zip(self.more).filter(|(_, v)| *v > 0).map(|((n, _), v)| format!("{n} {v}")).collect();
        format!("{} {} by {} with {}", KINDS[self.kind], MODES[self.mode], WAYS[self.way], if more.is_empty() { "the usual".into() } else { more.join(", ") })
    }

    fn client(&self) -> (Arc<dyn Client + Send + Sync>, String, OneKeys) {
        let i = self.more[0];
        let vm = ["did:example:v1#key", "did:web:v1.example%3A8443:users:1#key-1", "did:key:zDn1#zDn1", "did:example:V1?versionId=2#K/1"][i];
        let sans: &[San] = match i {
            0 => &[San::Dns("v1.example")],
            1 => &[San::Dns("v1.example"), San::Dns("other.example"), San::Uri("https://v1.example")],
            2 => &[San::Uri("https://other.example"), San::Dns("v1.example"), San::Dns("v2.example")],
            _ => &[San::Dns("*.V1.example"), San::Ip([127, 0, 0, 1])],
        };
        let leaf = CertSpec::new(1, sans);
        let chain: Vec<_> = std::iter::once(leaf.cert()).chain((0..i).map(|n| CertSpec::new(20 + n as u8, &[San::Dns("ca.example")]).cert())).collect();
        let keys = OneKeys(vec![("did:example:v2#key".into(), ssi_jwk_of(2)), (vm.into(), ssi_jwk_of(1))]);
        match KINDS[self.kind] {
            "x509_san_dns" => (Arc::new(X509SanDnsClient::new(chain, signer(1)).unwrap()), format!("x509_san_dns:{}", leaf.dns()[0]), keys),
            "x509_hash" => (Arc::new(X509HashClient::new(chain, signer(1)).unwrap()), format!("x509_hash:{}", b64u(sha256(&leaf.to_der()))), keys),
            _ => (Arc::new(now(DIDClient::new(vm.into(), signer(1), &keys)).unwrap()), format!("decentralized_identifier:{}", vm.split('#').next().unwrap()), keys),
        }
    }

    fn submission(&self) -> &'static str {
        ["https://v1.example/submit", "https://v1.example:8443/a/b%20c/submit?tenant=1&x=%2F", "http://localhost", "https://xn--bcher-kva.example/p/q+r", "https://v1.example/submit?id=00000000-0000-0000-0000-000000000001"][self.more[1]]
    }
    fn reference(&self) -> &'static str {
        ["https://v1.example/request", "https://v1.example:8443/a/b%20c?tenant=1&x=%2F", "http://localhost", "https://v1.example/submit"][self.more[2]]
    }
    fn endpoint(&self) -> &'static str {
        ["openid4vp:", "openid4vp://", "https://wallet.example/authorize", "https://wallet.example:8443/a/b%20c/", "haip://authorize", "mdoc-openid4vp://present/now"][self.more[3]]
    }
    fn metadata(&self) -> openid4vp::core::metadata::WalletMetadata {
        let (kinds, algs, encs) = match self.more[4] {
            0 => (json!(KINDS), json!(["ES256"]), true),
            1 => (json!(["redirect_uri", "decentralized_identifier", "x509_hash", "x509_san_dns"]), json!(["EdDSA", "ES384", "ES256"]), false),
            2 => (json!([KINDS[self.kind]]), json!(["ES256", "none"]), true),
            3 => (json!([KINDS[self.kind], KINDS[self.kind]]), json!(["ES256", "ES256"]), false),
            _ => (json!(["pre-registered", KINDS[self.kind], "x", ""]), json!(["ES256", "ES256K"]), true),
        };
        let mut m = json!({"authorization_endpoint": self.endpoint(), "client_id_prefixes_supported": kinds, "request_object_signing_alg_values_supported": algs});
        if encs {
            m["authorization_encryption_alg_values_supported"] = json!(["RSA-OAEP", "ECDH-ES"]);
            m["authorization_encryption_enc_values_supported"] = json!(["A256GCM", "A128GCM"]);
        }
        metadata(m)
    }

    /// The verifier's defaults, what this request sets, and the query.
    fn asked(&self) -> (Vec<(&'static str, Json)>, Vec<(&'static str, Json)>, Json) {
        let mut defaults = vec![];
        let mut own = vec![
            ("response_type", json!("vp_token")),
            ("response_mode", json!(MODES[self.mode])),
            ("nonce", json!("n-1")),
            ("state", json!("s-1")),
            ("client_metadata", client_metadata("c")),
        ];
        let mut q = query("c");
        match self.more[5] {
            1 => own.retain(|p| p.0 != "state"),
            2 => own[0].1 = json!("vp_token id_token"),
            3 => {
                defaults = vec![("nonce", json!("default")), ("aud", json!("https://self-issued.me/v2")), ("state", json!("default")), ("client_metadata", json!({"vp_formats_supported": {}})), own.remove(1), own.remove(0)];
            }
            4 => {
                own.extend([("aud", json!("a")), ("x_custom", json!({"a": [1, null, 2.5, "\u{e9}", {"b": true}], "": ""})), ("expected_origins", json!(["https://a.example", ""]))]);
                q = json!({
                    "credentials": [
                        {"id": "b", "format": "mso_mdoc", "meta": {"doctype_value": "org.iso.18013.5.1.mDL"}, "multiple": true, "require_cryptographic_holder_binding": false,
                         "claims": [{"id": "x", "path": ["org.iso.18013.5.1", "age"], "intent_to_retain": true, "values": [18, true, "y"]}, {"id": "y", "path": ["a", null, 3, "b"]}],
                         "claim_sets": [["x"], ["y", "x"]], "trusted_authorities": [{"type": "aki", "values": ["z", "a"]}]},
                        {"id": "a", "format": "ldp_vc", "meta": {}}
                    ],
                    "credential_sets": [{"options": [["b"], ["a", "b"]], "required": false}, {"options": [["a"]]}],
                });
            }
            5 => {
                let k = |n: u8, more: Json| {
                    let mut k = public_jwk(n);
                    for (n, v) in more.as_object().unwrap() {
                        k[n] = v.clone();
                    }
                    k
                };
                own[4].1 = json!({"jwks": {"keys": [k(5, json!({"use": "sig", "alg": "ES256"})), k(6, json!({"use": "enc", "alg": "ECDH-ES+A128KW", "kid": "2"})), k(9, json!({"use": "enc", "alg": "ECDH-ES", "kid": "1"}))]},
                    "encrypted_response_enc_values_supported": ["A256GCM", "A192GCM"], "vp_formats_supported": {"mso_mdoc": {"issuerauth_alg_values": [-7]}}, "client_name": "V"});
            }
            6 => {
                own[2].1 = json!("n".repeat(300));
                own.extend([("x_custom", json!("x".repeat(9000)))]);
            }
            _ => {}
        }
        (defaults, own, q)
    }

    fn response(&self) -> (AuthorizationResponse, Json) {
        let i = self.more[6];
        if MODES[self.mode].ends_with(".jwt") {
            let t = ["h..iv.c.t".to_string(), "a".repeat(20_000), "h.+/=&%".into(), String::new(), "{\"vp_token\":{}}".into(), "\u{e9} \n".into()][i].clone();
            return (AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: t.clone() }), json!({ "response": t }));
        }
        let token = match i {
            0 | 1 | 2 => json!({"cred-c": ["vp"]}),
            3 => json!({"b": ["1", "0", "1"], "a": [{"vp": 1}, "x"], "": []}),
            4 => json!({}),
            _ => json!({"cred-c": [{"n": [1, -2, 2.5, null, true, {"\u{e9}": "\"\\\n&=+%"}], "big": 18446744073709551615u64}, "{\"a\":1}", "null", ""]}),
        };
        let mut t = VpToken::new();
        for (id, items) in token.as_object().unwrap() {
            t.insert(id.clone(), items.as_array().unwrap().iter().map(|v| match v {
                Json::String(s) => VpTokenItem::String(s.clone()),
                o => VpTokenItem::JsonObject(o.as_object().unwrap().clone()),
            }).collect());
        }
        let state = match i {
            1 => None,
            2 => Some(""),
            _ => Some("s-1"),
        };
        let mut want = json!({ "vp_token": token });
        if let Some(s) = state {
            want["state"] = json!(s);
        }
        (AuthorizationResponse::Unencoded(match state {
            None => UnencodedAuthorizationResponse::new(t),
            Some(s) => UnencodedAuthorizationResponse::with_state(t, State(s.into())),
        }), want)
    }

    fn outcome(&self) -> Outcome {
        match self.more[7] {
            0 => Outcome::Success { info: json!({"ok": [1]}) },
            1 => Outcome::Success { info: Json::Null },
            2 => Outcome::Failure { reason: "not \u{e9}nough".into() },
            _ => Outcome::Error { cause: "broken".into() },
        }
    }

    fn run(&self) -> Result<String, String> {
        let (client, id, keys) = self.client();
        let (defaults, own, q) = self.asked();
        let store = Arc::new(MemoryStore::default());
        let mut b = Verifier::builder().with_client(client).with_session_store(store).with_submission_endpoint(self.submission().parse().unwrap());
        let by_reference = self.way % 2 == 1;
        if by_reference {
            b = b.by_reference(self.reference().parse().unwrap());
        }
        for (k, v) in &defaults {
            b = super::build::with_default(b, k, v.clone());
        }
        let v = now(b.build()).map_err(|e| format!("no verifier: {e:#}"))?;
        // Another session of the same verifier, which must not be affected.
        let bystander = uuid(77);
        let start = || {
            let mut r = v.build_authorization_request().with_dcql_query(serde_json::from_value(q.clone()).unwrap());
            for (k, val) in &own {
                r = super::build::with_own(r, k, val.clone());
            }
            r
        };
        now(start().build_with_session_id(bystander, self.metadata())).map_err(|e| format!("not built: {e:#}"))?;
        let before = now(v.poll_status(bystander)).map_err(|e| format!("{e:#}"))?;
        let (session, url, token) = match self.way {
            0 | 1 => (uuid(5), Some(now(start().build_with_session_id(uuid(5), self.metadata())).map_err(|e| format!("not built: {e:#}"))?), None),
            2 | 3 => {
                let (s, u) = now(start().build(self.metadata())).map_err(|e| format!("not built: {e:#}"))?;
                (s, Some(u), None)
            }
            _ => {
                let (s, t) = now(start().build_dc_api()).map_err(|e| format!("not built: {e:#}"))?;
                (s, None, Some(t))
            }
        };
        let mut want = json!({});
        for (k, v) in defaults.iter().chain(&own) {
            want[*k] = v.clone();
        }
        want["client_id"] = json!(id);
        want["dcql_query"] = q.clone();
        let submit_at = super::build::extended(self.submission(), session);
        let direct = MODES[self.mode].starts_with("direct_post");
        if direct {
            want["response_uri"] = json!(submit_at);
        }
        // The network: the two endpoints of the verifier, and nothing else.
        let fetch_at = super::build::extended(self.reference(), session);
        let seen = Arc::new(Mutex::new(vec![]));
        let receive = {
            let (v, seen, outcome) = (v.clone(), seen.clone(), self.outcome());
            move |r: AuthorizationResponse| {
                let (seen, outcome) = (seen.clone(), outcome.clone());
                now(v.verify_response(session, r, move |s, r| {
                    seen.lock().unwrap().push((s.uuid, serde_json::to_value(&s.authorization_request_object).unwrap(), serde_json::to_value(&r).unwrap()));
                    Box::pin(async move { outcome })
                }))
                .map_err(|e| format!("{e:#}"))
            }
        };
        let net = {
            let (v, receive, submit_at) = (v.clone(), receive.clone(), submit_at.clone());
            Net::new(move |r| {
                let uri = r.uri().to_string();
                if r.method() == "GET" && uri == fetch_at {
                    match now(v.retrieve_authorization_request(session)) {
                        Ok(t) => Answer::Reply(200, t.into_bytes()),
                        Err(e) => Answer::Reply(500, format!("{e:#}").into_bytes()),
                    }
                } else if r.method() == "POST" && uri == submit_at {
                    match AuthorizationResponse::from_x_www_form_urlencoded(r.body()).map_err(|e| format!("{e:#}")).and_then(|r| receive(r)) {
                        Ok(()) => Answer::Reply(200, br#"{"redirect_uri":"https://v1.example/done?code=1#x"}"#.to_vec()),
                        Err(e) => Answer::Reply(400, e.into_bytes()),
                    }
                } else {
                    Answer::Fault
                }
            })
        };
        let wallet = verifying_wallet(self.metadata(), net.clone(), keys);
        let status = |at: &str, want: Status| -> Result<(), String> {
            let got = now(v.poll_status(session)).map_err(|e| format!("{at}: {e:#}"))?;
            if status_json(&got) != status_json(&want) {
                return Err(format!("{at} the session polls as {got:?}, should be {want:?}"));
            }
            let got = now(v.poll_status(bystander)).map_err(|e| format!("{at}: {e:#}"))?;
            if status_json(&got) != status_json(&before) {
                return Err(format!("{at} another session polls as {got:?}, was {before:?}"));
            }
            Ok(())
        };
        status("once built,", if by_reference && url.is_some() { Status::SentRequestByReference } else { Status::SentRequest })?;
        let o = match (url, token) {
            (Some(u), _) => now(wallet.validate_request(u)),
            (_, Some(t)) => now(AuthorizationRequest { client_id: None, request_indirection: RequestIndirection::ByValue { request: t } }.validate(&wallet)),
            _ => unreachable!(),
        }
        .map_err(|e| format!("the wallet refuses an honest request: {e:#}"))?;
        let got = serde_json::to_value(&o).unwrap();
        if got != want {
            return Err(format!("the wallet sees {got}, the verifier asked {want}"));
        }
        if o.client_id().map(|c| c.0.as_str()) != Some(id.as_str()) || String::from(o.response_mode().clone()) != MODES[self.mode] || Some(o.nonce().as_str()) != want["nonce"].as_str() || String::from(o.response_type().clone()) != want["response_type"].as_str().unwrap() {
            return Err("the wallet's view of client, mode, type or nonce differs".into());
        }
        if o.dcql_query().and_then(|q| q.ok()).map(|q| serde_json::to_value(q).unwrap()) != Some(q) {
            return Err("the wallet's view of the query differs".into());
        }
        status("once validated,", Status::SentRequest)?;
        let (r, want_response) = self.response();
        let calls = net.calls();
        let redirect = now(wallet.submit_response(o, r.clone())).map_err(|e| format!("submission failed: {e:#}"))?;
        if direct {
            if redirect.map(|u| u.to_string()).as_deref() != Some("https://v1.example/done?code=1#x") || net.calls() != calls + 1 {
                return Err("not redirected as the verifier said, or not one submission".into());
            }
        } else {
            if redirect.is_some() || net.calls() != calls {
                return Err("a Digital Credentials API response was sent somewhere".into());
            }
            receive(r)?;
        }
        let seen = seen.lock().unwrap().clone();
        if seen != vec![(session, want, want_response.clone())] {
            return Err(format!("the validator got {seen:?}, should be session {session} and {want_response}"));
        }
        status("in the end,", Status::Complete(self.outcome()))?;
        Ok("configuration".into())
    }
}

/// Every kind, way and mode, with every choice that differs from the usual, and every pair of such
/// choices (quick: those of the two first ways and modes).
fn setups(quick: bool) -> Vec<Setup> {
    let mut out = vec![];
    for kind in 0..KINDS.len() {
        for way in 0..WAYS.len() {
            for mode in 0..MODES.len() {
                let usual = Setup { kind, way, mode, more: [0; 8] };
                out.push(usual);
                for a in 0..8 {
                    for x in 1..MORE[a].1 {
                        let mut s = usual;
                        s.more[a] = x;
                        out.push(s);
                        if quick && (way > 1 || mode > 1) {
                            continue;
                        }
                        for b in a + 1..8 {
                            for y in 1..MORE[b].1 {
                                let mut s = s;
                                s.more[b] = y;
                                out.push(s);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
