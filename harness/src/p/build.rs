//! C12, C27: what building a request yields and leaves behind.
use super::hist::{status_json, uuid};
use crate::ctx::{now, Ctx};
use crate::env::*;
use anyhow::{bail, Result as AResult};
use async_trait::async_trait;
use openid4vp::core::authorization_request::parameters::{ClientId, ClientIdScheme};
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::TypedParameter;
use openid4vp::verifier::client::{Client, DIDClient, X509HashClient, X509SanDnsClient};
use openid4vp::verifier::request_builder::RequestBuilder;
use openid4vp::verifier::session::{MemoryStore, SessionStore, Status};
use openid4vp::verifier::{Verifier, VerifierBuilder};
use serde_json::{json, Map, Value as Json};
use std::collections::HashSet;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use url::Url;
use uuid::Uuid;

macro_rules! raw_parameters {
    ($($name:ident $key:literal),*) => {
        $(
            /// The parameter of that name, with any value.
            #[derive(Clone, Debug)]
            pub struct $name(pub Json);
            impl TryFrom<Json> for $name {
                type Error = anyhow::Error;
                fn try_from(v: Json) -> AResult<Self> {
                    Ok($name(v))
                }
            }
            impl From<$name> for Json {
                fn from(v: $name) -> Json {
                    v.0
                }
            }
            impl TypedParameter for $name {
                const KEY: &'static str = $key;
            }
        )*
        pub fn with_default(b: VerifierBuilder, key: &str, v: Json) -> VerifierBuilder {
            match key {
                $($key => b.with_default_request_parameter($name(v)),)*
                _ => unreachable!("{key}"),
            }
        }
        pub fn with_own<'a>(b: RequestBuilder<'a>, key: &str, v: Json) -> RequestBuilder<'a> {
            match key {
                $($key => b.with_request_parameter($name(v)),)*
                _ => unreachable!("{key}"),
            }
        }
    };
}
raw_parameters!(
    RawNonce "nonce", RawState "state", RawAud "aud", RawType "response_type", RawMode "response_mode",
    RawMetadata "client_metadata", RawCustom "x_custom", RawClientId "client_id", RawQuery "dcql_query",
    RawResponseUri "response_uri", RawRedirectUri "redirect_uri", RawOrigins "expected_origins"
);

fn dcql(id: &str) -> (DcqlQuery, Json) {
    let j = json!({"credentials": [{"id": id, "format": "mso_mdoc", "meta": {"doctype_value": "x"}}]});
    (serde_json::from_value(j.clone()).unwrap(), j)
}

/// The endpoint with the id as one more path segment.
pub fn extended(base: &str, id: Uuid) -> String {
    let (path, rest) = match base.find(|c| c == '?' || c == '#') {
        Some(i) => base.split_at(i),
        None => (base, ""),
    };
    let sep = if path.ends_with('/') { "" } else { "/" };
    format!("{path}{sep}{id}{rest}")
}

type Params = Vec<(&'static str, Json)>;

#[derive(Clone, Debug)]
struct Plan {
    defaults: Params,
    own: Params,
    query: &'static str,
}

impl Plan {
    fn expected(&self, client_id: &str, submission: &str, id: Uuid) -> Map<String, Json> {
        let mut m = Map::new();
        for (k, v) in self.defaults.iter().chain(&self.own) {
            m.insert(k.to_string(), v.clone());
        }
        m.insert("client_id".into(), json!(client_id));
        m.insert("dcql_query".into(), dcql(self.query).1);
        if m["response_mode"].as_str().unwrap().starts_with("direct_post") {
            m.insert("response_uri".into(), json!(extended(submission, id)));
        }
        m
    }
    fn start<'a>(&self, v: &'a Verifier) -> RequestBuilder<'a> {
        let mut b = v.build_authorization_request().with_dcql_query(dcql(self.query).0);
        for (k, val) in &self.own {
            b = with_own(b, k, val.clone());
        }
        b
    }
}

fn verifier(
    client: Arc<dyn Client + Send + Sync>,
    store: Arc<dyn SessionStore + Send + Sync>,
    defaults: &Params,
    at: Option<&str>,
    submission: &str,
) -> Verifier {
    let mut b = Verifier::builder()
        .with_client(client)
        .with_session_store(store)
        .with_submission_endpoint(submission.parse().unwrap());
    b = match at {
        Some(at) => b.by_reference(at.parse().unwrap()),
        None => b.by_value(),
    };
    for (k, v) in defaults {
        b = with_default(b, k, v.clone());
    }
    now(b.build()).unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Build,
    WithId(u8),
    DcApi,
}

/// Build and compare URL, signed object, stored session and retrieved request.
fn build_and_check(
    v: &Verifier,
    store: &MemoryStore,
    plan: &Plan,
    client_id: &str,
    at: Option<&str>,
    submission: &str,
    endpoint: &str,
    how: How,
    taken: &mut HashSet<Uuid>,
) -> Result<(String, Uuid, String), String> {
    let md = metadata(json!({
        "authorization_endpoint": endpoint,
        "client_id_prefixes_supported": ["other", "pre-registered", client_id.split(':').next().unwrap()],
    }));
    let b = plan.start(v);
    let (id, url, direct_jwt) = match how {
        How::Build => {
            let (id, url) = now(b.build(md)).map_err(|e| format!("not built: {e:#}"))?;
            (id, Some(url), None)
        }
        How::WithId(n) => {
            let url = now(b.build_with_session_id(uuid(n), md)).map_err(|e| format!("not built: {e:#}"))?;
            (uuid(n), Some(url), None)
        }
        How::DcApi => {
            let (id, jwt) = now(b.build_dc_api()).map_err(|e| format!("not built: {e:#}"))?;
            (id, None, Some(jwt))
        }
    };
    if !taken.insert(id) && !matches!(how, How::WithId(_)) {
        return Err(format!("the session id {id} was used before"));
    }
    let session = now(store.get_session(id)).map_err(|e| format!("no session: {e:#}"))?;
    if session.uuid != id {
        return Err(format!("the stored session says its id is {}", session.uuid));
    }
    let want = Json::Object(plan.expected(client_id, submission, id));
    let (_, body, _) = jwt_parts(&session.authorization_request_jwt)?;
    if body != want {
        return Err(format!("the signed object is {body}\n expected {want}"));
    }
    let stored = serde_json::to_value(&session.authorization_request_object).unwrap();
    if stored != want {
        return Err(format!("the stored object is {stored}\n expected {want}"));
    }
    let query = serde_json::to_value(&session.dcql_query).unwrap();
    if query != dcql(plan.query).1 {
        return Err(format!("the stored query is {query}"));
    }
    let want_status = if how != How::DcApi && at.is_some() {
        Status::SentRequestByReference
    } else {
        Status::SentRequest
    };
    if status_json(&session.status) != status_json(&want_status) {
        return Err(format!("stored as {:?}", session.status));
    }
    if let Some(jwt) = direct_jwt {
        if jwt != session.authorization_request_jwt {
            return Err("the returned request is not the stored one".into());
        }
        return Ok(("built for the DC API".into(), id, session.authorization_request_jwt));
    }
    let url = url.unwrap();
    let ep: Url = endpoint.parse().unwrap();
    if url.scheme() != ep.scheme() || url.authority() != ep.authority() || url.path() != ep.path() {
        return Err(format!("the URL is {url}"));
    }
    let q = super::wallet::form(url.query().unwrap_or("").as_bytes())?;
    if q.get("client_id").map(String::as_str) != Some(client_id) || q.len() != 2 {
        return Err(format!("the URL carries {q:?}"));
    }
    match at {
        None => {
            if q.get("request") != Some(&session.authorization_request_jwt) {
                return Err(format!("the URL carries {q:?}"));
            }
        }
        Some(at) => {
            if q.get("request_uri").map(String::as_str) != Some(extended(at, id).as_str()) {
                return Err(format!("the URL carries {q:?}"));
            }
        }
    }
    Ok((format!("built, by reference={}", at.is_some()), id, session.authorization_request_jwt))
}

fn check_retrieval(v: &Verifier, id: Uuid, jwt: &str) -> Result<(), String> {
    let got = now(v.retrieve_authorization_request(id)).map_err(|e| format!("not retrievable: {e:#}"))?;
    if got != jwt {
        return Err("another request was retrieved".into());
    }
    Ok(())
}

pub fn c12(c: &mut Ctx) {
    c.rule = "Every choice, per parameter, of whether it is set as a default, for the request, for both or twice (among them client_id, response_uri and dcql_query, which the verifier itself determines) x response mode x way of passing x how it is built; endpoints of a list; every kind of client; every ordered pair of requests with different parameters on one verifier. Non-trivial: a distinct combination that is built.".into();
    c.assumptions = vec![
        "submission and request endpoints without trailing slash (other than the root)".into(),
        "parameter values are representatives".into(),
    ];
    let plain = || -> Arc<dyn Client + Send + Sync> { Arc::new(PlainClient::new("redirect_uri", "https://v.example/cb?a=b&c=d")) };
    let plain_id = "redirect_uri:https://v.example/cb?a=b&c=d";
    let sub = "https://v.example/submit";
    let at = "https://v.example/request";
    let mut taken = HashSet::new();
    // Where the value comes from: 0 nowhere, 1 default, 2 own, 3 both, 4 own twice, 5 default twice
    let place = |plan: &mut Plan, key: &'static str, a: Json, b: Json, where_: u8| match where_ {
        0 => {}
        1 => plan.defaults.push((key, a)),
        2 => plan.own.push((key, b)),
        3 => {
            plan.defaults.push((key, a));
            plan.own.push((key, b));
        }
        4 => {
            plan.own.push((key, a));
            plan.own.push((key, b));
        }
        _ => {
            plan.defaults.push((key, a));
            plan.defaults.push((key, b));
        }
    };
    let modes = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];
    let other_mode = |m: &str| if m.starts_with("dc") { "direct_post" } else { "dc_api" };
    let own_places: &[u8] = c.pick(&[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5]);
    let fixed: &[u8] = c.pick(&[1, 3], &[1, 2, 3, 4, 5]);
    for mode in modes {
        for &pm in &[1u8, 2, 3] {
            for &pn in fixed {
                for &ps in own_places {
                    for &px in &[0u8, 1, 2, 3, 4, 5] {
                        for &pc in &[0u8, 1, 2] {
                            for &pq in &[0u8, 1, 2] {
                                for &pr in &[0u8, 1, 2] {
                                    // A response_uri does not go with the DC API.
                                    if pr > 0 && mode.starts_with("dc") {
                                        continue;
                                    }
                                    let mut plan = Plan { defaults: vec![], own: vec![], query: "q" };
                                    place(&mut plan, "response_mode", json!(if pm == 3 { other_mode(mode) } else { mode }), json!(mode), pm);
                                    place(&mut plan, "response_type", json!("vp_token"), json!("vp_token id_token"), pn);
                                    place(&mut plan, "nonce", json!("default nonce"), json!("own é nonce"), pn);
                                    place(&mut plan, "state", json!("default state"), json!(""), ps);
                                    place(&mut plan, "client_metadata", json!({"vp_formats_supported": {"mso_mdoc": {}}, "x": [1, {"y": null}]}), json!({}), ps);
                                    place(&mut plan, "x_custom", json!({"a": 1}), json!(["b"]), px);
                                    place(&mut plan, "aud", json!("https://self-issued.me/v2"), json!("https://other.example"), px);
                                    place(&mut plan, "client_id", json!("x509_san_dns:evil"), json!("evil"), pc);
                                    place(&mut plan, "dcql_query", dcql("evil").1, dcql("evil2").1, pq);
                                    place(&mut plan, "response_uri", json!("https://evil.example/"), json!("https://evil.example/2"), pr);
                                    for by_ref in [false, true] {
                                        for how in [How::Build, How::WithId(7), How::DcApi] {
                                            if how == How::DcApi && by_ref {
                                                continue;
                                            }
                                            let label = format!("{mode} places {pm}{pn}{ps}{px}{pc}{pq}{pr} by_ref={by_ref} {how:?}");
                                            c.case(label, || {
                                                let store = MemoryStore::default();
                                                let at = by_ref.then_some(at);
                                                let v = verifier(plain(), Arc::new(store.clone()), &plan.defaults, at, sub);
                                                let (class, id, jwt) = build_and_check(&v, &store, &plan, plain_id, at, sub, "openid4vp:", how, &mut taken)?;
                                                check_retrieval(&v, id, &jwt)?;
                                                Ok(format!("{class}, {mode}"))
                                            });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    // Each parameter set several times, in each of the two places.
    for key in ["response_type", "nonce", "response_mode", "state", "aud", "x_custom", "client_metadata", "expected_origins"] {
        let values: Vec<Json> = match key {
            "response_mode" => ["dc_api", "direct_post", "direct_post.jwt"].map(|s| json!(s)).to_vec(),
            "client_metadata" => vec![json!({"a": 1}), json!({"b": 2}), json!({})],
            "x_custom" => vec![json!(null), json!({"a": null, "b": []}), json!(false), json!(0), json!({}), json!([])],
            "expected_origins" => vec![json!(["https://a.example"]), json!([]), json!(["https://b.example", "https://a.example"])],
            _ => ["first", "second", ""].map(|s| json!(s)).to_vec(),
        };
        let n = values.len();
        for dseq in 0..(n + 1).pow(if n > 3 { 2 } else { 3 }) {
            for oseq in 0..(n + 1).pow(2) {
                let pick = |mut x: usize, len: usize| -> Vec<Json> {
                    let mut out = vec![];
                    for _ in 0..len {
                        if x % (n + 1) > 0 {
                            out.push(values[x % (n + 1) - 1].clone());
                        }
                        x /= n + 1;
                    }
                    out
                };
                let (d, o) = (pick(dseq, 3), pick(oseq, 2));
                if d.is_empty() && o.is_empty() && ["response_type", "nonce", "response_mode"].contains(&key) {
                    continue;
                }
                let mut plan = Plan { defaults: vec![], own: vec![], query: "q" };
                for (k, v) in [("response_type", json!("vp_token")), ("nonce", json!("n")), ("response_mode", json!("direct_post"))] {
                    if k != key {
                        plan.defaults.push((k, v));
                    }
                }
                plan.defaults.extend(d.iter().map(|v| (key, v.clone())));
                plan.own.extend(o.iter().map(|v| (key, v.clone())));
                c.case(format!("{key} defaults {d:?} own {o:?}"), || {
                    let store = MemoryStore::default();
                    let v = verifier(plain(), Arc::new(store.clone()), &plan.defaults, None, sub);
                    let (class, id, jwt) = build_and_check(&v, &store, &plan, plain_id, None, sub, "openid4vp:", How::Build, &mut taken)?;
                    check_retrieval(&v, id, &jwt)?;
                    Ok(format!("{class}, several times"))
                });
            }
        }
    }

    // Endpoints.
    let base_plan = |mode: &str| Plan {
        defaults: vec![("response_type", json!("vp_token"))],
        own: vec![("response_mode", json!(mode)), ("nonce", json!("n"))],
        query: "q",
    };
    let urls = [
        "https://v.example/",
        "https://v.example/submit",
        "https://v.example/a/b/c",
        "http://v.example:8080/x",
        "https://v.example/%C3%A9/a%20b",
        "https://v.example/s?tenant=1&x=%26",
        "https://[::1]/s",
        "https://user@v.example/s",
    ];
    let endpoints = ["openid4vp:", "openid4vp://", "openid4vp://authorize", "haip://", "mdoc-openid4vp://", "https://w.example/auth", "https://w.example:8443/", "https://w.example/a/b?keep=1", "https://w.example/a#f"];
    for mode in modes {
        for s in urls {
            for a in [None].into_iter().chain(urls.into_iter().map(Some)) {
                for e in endpoints {
                    for how in [How::Build, How::WithId(1), How::WithId(0xff), How::DcApi] {
                        if how == How::DcApi && (a.is_some() || e != endpoints[0]) {
                            continue;
                        }
                        c.case(format!("{mode} submission={s} at={a:?} endpoint={e} {how:?}"), || {
                            let store = MemoryStore::default();
                            let plan = base_plan(mode);
                            let v = verifier(plain(), Arc::new(store.clone()), &plan.defaults, a, s);
                            let (class, id, jwt) = build_and_check(&v, &store, &plan, plain_id, a, s, e, how, &mut taken)?;
                            check_retrieval(&v, id, &jwt)?;
                            Ok(class)
                        });
                    }
                }
            }
        }
    }

    // Any URL to submit to, to be asked at and of a wallet.
    for u in http_urls(!c.quick()).into_iter().map(|u| Url::parse(&u).unwrap().to_string()) {
        for how in [How::Build, How::DcApi] {
            for at in [None, Some(u.as_str())] {
                if how == How::DcApi && at.is_some() {
                    continue;
                }
                c.case(format!("all at {} by_ref={} {how:?}", &u[..u.len().min(80)], at.is_some()), || {
                    let store = MemoryStore::default();
                    let plan = base_plan("direct_post");
                    let v = verifier(plain(), Arc::new(store.clone()), &plan.defaults, at, &u);
                    let (_, id, jwt) = build_and_check(&v, &store, &plan, plain_id, at, &u, if how == How::DcApi { endpoints[0] } else { &u }, how, &mut taken)?;
                    check_retrieval(&v, id, &jwt)?;
                    Ok("any URL".into())
                });
            }
        }
    }

    // Every kind of client.
    let mut clients: Vec<(String, Arc<dyn Client + Send + Sync>)> = vec![];
    for p in super::wallet::PREFIXES {
        for rest in ["v.example", "", "a:b:c", "é &=?#%"] {
            clients.push((format!("{p}:{rest}"), Arc::new(PlainClient::new(p, rest))));
        }
    }
    let spec = CertSpec::new(1, &[San::Dns("v.example")]);
    let san = X509SanDnsClient::new(vec![spec.cert()], signer(1)).unwrap();
    clients.push((san.id().0.clone(), Arc::new(san)));
    let hash = X509HashClient::new(vec![spec.cert()], signer(1)).unwrap();
    clients.push((hash.id().0.clone(), Arc::new(hash)));
    let vm = "did:web:v.example#key-1".to_string();
    let resolver = super::crypto::OneKeys(vec![(vm.clone(), super::crypto::ssi_jwk_of(1))]);
    let did = now(DIDClient::new(vm, signer(1), &resolver)).unwrap();
    clients.push((did.id().0.clone(), Arc::new(did)));
    for (id, client) in &clients {
        for mode in modes {
            for by_ref in [false, true] {
                for how in [How::Build, How::WithId(3), How::DcApi] {
                    if how == How::DcApi && by_ref {
                        continue;
                    }
                    c.case(format!("client {id} {mode} by_ref={by_ref} {how:?}"), || {
                        let store = MemoryStore::default();
                        let plan = base_plan(mode);
                        let at = by_ref.then_some(at);
                        let v = verifier(client.clone(), Arc::new(store.clone()), &plan.defaults, at, sub);
                        let (class, sid, jwt) = build_and_check(&v, &store, &plan, id, at, sub, "openid4vp:", how, &mut taken)?;
                        check_retrieval(&v, sid, &jwt)?;
                        Ok(class)
                    });
                }
            }
        }
    }

    // Any text in a client identifier.
    for t in texts_menu(c.pick(1, 2)).into_iter().chain([" v.example", "v.example ", " ", "\t", "\n", "redirect_uri:", "x509_san_dns:x509_san_dns:", "V.Example"].map(String::from)) {
        for p in ["redirect_uri", "x509_san_dns", "pre-registered"] {
            if p == "pre-registered" && t.contains(':') {
                continue;
            }
            for by_ref in [false, true] {
                let mut client = PlainClient::new(p, &t);
                if p == "pre-registered" {
                    client.id.0 = t.clone(); // such identifiers are without a prefix
                }
                let id = client.id.0.clone();
                let short = format!("{:?}×{}", t.chars().take(20).collect::<String>(), t.len());
                c.case(format!("client {p} {short} by_ref={by_ref}"), || {
                    let store = MemoryStore::default();
                    let plan = base_plan("direct_post");
                    let at = by_ref.then_some(at);
                    let v = verifier(Arc::new(client), Arc::new(store.clone()), &plan.defaults, at, sub);
                    let (_, sid, jwt) = build_and_check(&v, &store, &plan, &id, at, sub, "openid4vp:", How::Build, &mut taken)?;
                    check_retrieval(&v, sid, &jwt)?;
                    Ok("any client".into())
                });
            }
        }
    }

    // The verifier as configured, in any order of the settings: of each one the last counts.
    {
        let settings = ["by reference 1", "by reference 2", "by value", "submission 1", "submission 2", "client 1", "client 2", "store 1", "store 2", "nonce 1", "nonce 2"];
        let ats = ["https://v.example/request", "https://other.example/r?t=1"];
        let subs = ["https://v.example/submit", "https://other.example/s?t=1"];
        let depth = c.pick(3, 4);
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut last = seqs.clone();
        for _ in 0..depth {
            last = last.iter().flat_map(|s| (0..settings.len()).map(move |m| { let mut s = s.clone(); s.push(m); s })).collect();
            seqs.extend(last.iter().cloned());
        }
        for s in seqs {
            for rebuilt in [false, true] {
                c.case(format!("settings {:?} from a clone={rebuilt}", s.iter().map(|i| settings[*i]).collect::<Vec<_>>()), || {
                    let stores = [MemoryStore::default(), MemoryStore::default()];
                    let ids = ["redirect_uri:https://v.example/1", "redirect_uri:https://v.example/2"];
                    let (mut r, mut e, mut k, mut d, mut n) = (None, 0, 0, 0, None);
                    let client = |i: usize| -> Arc<dyn Client + Send + Sync> { Arc::new(PlainClient::new("redirect_uri", ids[i].strip_prefix("redirect_uri:").unwrap())) };
                    let mut b = Verifier::builder()
                        .with_client(client(0))
                        .with_session_store(Arc::new(stores[0].clone()))
                        .with_submission_endpoint(subs[0].parse().unwrap());
                    b = with_default(b, "response_type", json!("vp_token"));
                    for i in &s {
                        if rebuilt {
                            // what is set on a copy stays there
                            let other = b.clone().by_reference("https://copy.example/".parse().unwrap()).with_submission_endpoint("https://copy.example/".parse().unwrap()).with_client(Arc::new(PlainClient::new("redirect_uri", "copy")));
                            with_default(other, "nonce", json!("copy"));
                        }
                        b = match i {
                            0 | 1 => { r = Some(ats[*i]); b.by_reference(ats[*i].parse().unwrap()) }
                            2 => { r = None; b.by_value() }
                            3 | 4 => { e = i - 3; b.with_submission_endpoint(subs[e].parse().unwrap()) }
                            5 | 6 => { k = i - 5; b.with_client(client(k)) }
                            7 | 8 => { d = i - 7; b.with_session_store(Arc::new(stores[d].clone())) }
                            _ => { n = Some(format!("nonce {i}")); with_default(b, "nonce", json!(n)) }
                        };
                    }
                    let v = now(b.build()).map_err(|e| format!("not built: {e:#}"))?;
                    let mut plan = Plan { defaults: vec![("response_type", json!("vp_token"))], own: vec![("response_mode", json!("direct_post"))], query: "q" };
                    match n {
                        Some(n) => plan.defaults.push(("nonce", json!(n))),
                        None => plan.own.push(("nonce", json!("own"))),
                    }
                    let (_, id, jwt) = build_and_check(&v, &stores[d], &plan, ids[k], r, subs[e], "openid4vp:", How::Build, &mut taken)?;
                    if now(stores[1 - d].get_session(id)).is_ok() {
                        return Err("the session is in the other store, too".into());
                    }
                    check_retrieval(&v, id, &jwt)?;
                    Ok(format!("settings, by reference={}", r.is_some()))
                });
            }
        }
        // The same for what is set for one request.
        let settings = ["query 1", "query 2", "nonce 1", "nonce 2", "state 1", "state 2", "direct_post", "dc_api"];
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut last = seqs.clone();
        for _ in 0..c.pick(4, 5) {
            last = last.iter().flat_map(|s| (0..settings.len()).map(move |m| { let mut s = s.clone(); s.push(m); s })).collect();
            seqs.extend(last.iter().cloned());
        }
        let defaults: Params = vec![("response_type", json!("vp_token")), ("nonce", json!("default")), ("response_mode", json!("direct_post.jwt"))];
        let store = MemoryStore::default();
        let v = verifier(plain(), Arc::new(store.clone()), &defaults, None, sub);
        let md = metadata(json!({"authorization_endpoint": "openid4vp:", "client_id_prefixes_supported": ["redirect_uri"]}));
        for s in seqs {
            c.case(format!("set for the request {:?}", s.iter().map(|i| settings[*i]).collect::<Vec<_>>()), || {
                let mut plan = Plan { defaults: defaults.clone(), own: vec![], query: "" };
                let mut b = v.build_authorization_request();
                for i in &s {
                    match i {
                        0 | 1 => {
                            plan.query = ["first", "second"][*i];
                            b = b.with_dcql_query(dcql(plan.query).0);
                        }
                        _ => {
                            let (k, x) = match i {
                                2 | 3 => ("nonce", json!(format!("nonce {i}"))),
                                4 | 5 => ("state", json!(format!("state {i}"))),
                                _ => ("response_mode", json!(settings[*i])),
                            };
                            plan.own.push((k, x.clone()));
                            b = with_own(b, k, x);
                        }
                    }
                }
                let built = now(b.build_with_session_id(uuid(9), md.clone()));
                if plan.query.is_empty() {
                    return match built {
                        Ok(u) => Err(format!("built without a query: {u}")),
                        Err(_) => Ok("no query".into()),
                    };
                }
                built.map_err(|e| format!("not built: {e:#}"))?;
                let session = now(store.get_session(uuid(9))).map_err(|e| format!("no session: {e:#}"))?;
                let want = Json::Object(plan.expected(plain_id, sub, uuid(9)));
                let (_, body, _) = jwt_parts(&session.authorization_request_jwt)?;
                let stored = serde_json::to_value(&session.authorization_request_object).unwrap();
                let query = serde_json::to_value(&session.dcql_query).unwrap();
                if body != want || stored != want || query != dcql(plan.query).1 {
                    return Err(format!("signed {body}\nstored {stored}\nquery {query}\nexpected {want}"));
                }
                Ok("settings of the request".into())
            });
        }
    }

    // Requests on one verifier do not mix, in any order.
    let plans: Vec<Plan> = vec![
        Plan { defaults: vec![], own: vec![("nonce", json!("n1")), ("response_mode", json!("direct_post")), ("state", json!("s1"))], query: "q1" },
        Plan { defaults: vec![], own: vec![("nonce", json!("n2")), ("response_mode", json!("direct_post.jwt")), ("x_custom", json!(2))], query: "q2" },
        Plan { defaults: vec![], own: vec![("response_mode", json!("dc_api")), ("expected_origins", json!(["https://v.example"]))], query: "q3" },
        Plan { defaults: vec![], own: vec![("nonce", json!("n4")), ("response_mode", json!("dc_api.jwt")), ("aud", json!("a4"))], query: "q4" },
        Plan { defaults: vec![], own: vec![("state", json!("")), ("client_metadata", json!({"k": 5}))], query: "q5" },
    ];
    let depth = c.pick(3, 4);
    let n = plans.len();
    for code in 0..n.pow(depth) {
        let mut seq = vec![];
        let mut x = code;
        for _ in 0..depth {
            seq.push(x % n);
            x /= n;
        }
        for by_ref in [false, true] {
            for clone in [false, true] {
                c.case(format!("sequence {seq:?} by_ref={by_ref} on a clone={clone}"), || {
                    let defaults: Params = vec![("response_type", json!("vp_token")), ("nonce", json!("nd")), ("response_mode", json!("direct_post")), ("state", json!("sd"))];
                    let store = MemoryStore::default();
                    let at = by_ref.then_some(at);
                    let v = verifier(plain(), Arc::new(store.clone()), &defaults, at, sub);
                    let v2 = v.clone();
                    let mut done: Vec<(Uuid, String, Plan)> = vec![];
                    for (step, i) in seq.iter().enumerate() {
                        let mut plan = plans[*i].clone();
                        plan.defaults = defaults.clone();
                        let on = if clone && step % 2 == 1 { &v2 } else { &v };
                        let how = if step % 2 == 0 { How::Build } else { How::WithId(step as u8) };
                        let (_, id, jwt) = build_and_check(on, &store, &plan, plain_id, at, sub, "openid4vp:", how, &mut taken)
                            .map_err(|e| format!("step {step}: {e}"))?;
                        done.push((id, jwt, plan));
                    }
                    for (id, jwt, plan) in &done {
                        let s = now(store.get_session(*id)).map_err(|e| format!("{e:#}"))?;
                        if s.authorization_request_jwt != *jwt {
                            return Err("an earlier session changed".into());
                        }
                        let want = Json::Object(plan.expected(plain_id, sub, *id));
                        if serde_json::to_value(&s.authorization_request_object).unwrap() != want {
                            return Err("an earlier session's object changed".into());
                        }
                        check_retrieval(&v2, *id, jwt)?;
                    }
                    Ok("sequence".into())
                });
            }
        }
    }
    // Many requests on one verifier, and requests with much in them.
    for by_ref in [false, true] {
        for n in c.pick(vec![150usize], vec![150, 1500]) {
            c.case(format!("{n} requests on one verifier by_ref={by_ref}"), || {
                let defaults: Params = vec![("response_type", json!("vp_token")), ("response_mode", json!("direct_post"))];
                let store = MemoryStore::default();
                let at = by_ref.then_some(at);
                let v = verifier(plain(), Arc::new(store.clone()), &defaults, at, sub);
                let mut done = vec![];
                for i in 0..n {
                    let plan = Plan {
                        defaults: defaults.clone(),
                        own: match i % 3 {
                            0 => vec![("nonce", json!(format!("n{i}"))), ("state", json!(format!("s{i}")))],
                            1 => vec![("nonce", json!(format!("n{i}"))), ("response_mode", json!("direct_post.jwt"))],
                            _ => vec![("nonce", json!(format!("n{i}"))), ("x_custom", json!(i))],
                        },
                        query: ["q1", "q2", "q3", "q4"][i % 4],
                    };
                    let (_, id, jwt) = build_and_check(&v, &store, &plan, plain_id, at, sub, "openid4vp:", How::Build, &mut taken)
                        .map_err(|e| format!("request {i}: {e}"))?;
                    done.push((id, jwt, plan));
                }
                for (i, (id, jwt, plan)) in done.iter().enumerate() {
                    let s = now(store.get_session(*id)).map_err(|e| format!("{e:#}"))?;
                    let want = Json::Object(plan.expected(plain_id, sub, *id));
                    if s.authorization_request_jwt != *jwt || serde_json::to_value(&s.authorization_request_object).unwrap() != want {
                        return Err(format!("the session of request {i} changed"));
                    }
                    check_retrieval(&v, *id, jwt)?;
                }
                Ok("many requests".into())
            });
        }
        for n in [10usize, 100, 1000, 70_000] {
            for whose in ["default", "own"] {
                c.case(format!("{whose} texts of {n} by_ref={by_ref}"), || {
                    let store = MemoryStore::default();
                    let at = by_ref.then_some(at);
                    let long = "\u{e9}&".repeat(n);
                    let mut plan = Plan { defaults: vec![("response_type", json!("vp_token"))], own: vec![("response_mode", json!("direct_post"))], query: "q" };
                    let to = if whose == "default" { &mut plan.defaults } else { &mut plan.own };
                    to.extend([("nonce", json!(long)), ("state", json!(format!("{long}s"))), ("x_custom", json!(vec![1; n])), ("client_metadata", json!({"long": long}))]);
                    let v = verifier(plain(), Arc::new(store.clone()), &plan.defaults, at, sub);
                    let (_, id, jwt) = build_and_check(&v, &store, &plan, plain_id, at, sub, "openid4vp:", How::Build, &mut taken)?;
                    check_retrieval(&v, id, &jwt)?;
                    Ok("long texts".into())
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C27

/// Waits once.
struct Once(bool);
impl std::future::Future for Once {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}

/// A client that may fail and may keep its caller waiting.
#[derive(Debug)]
struct TestClient {
    inner: PlainClient,
    fails: bool,
    waits: bool,
}

#[async_trait]
impl Client for TestClient {
    fn id(&self) -> &ClientId {
        self.inner.id()
    }
    fn prefix(&self) -> ClientIdScheme {
        self.inner.prefix()
    }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> AResult<String> {
        if self.waits {
            Once(false).await;
        }
        if self.fails {
            bail!("cannot sign")
        }
        self.inner.generate_request_object_jwt(body).await
    }
}

/// A store that keeps its caller waiting before and after.
#[derive(Debug)]
struct SlowStore(Arc<EnvStore<MemoryStore>>);

#[async_trait]
impl SessionStore for SlowStore {
    async fn initiate(&self, s: openid4vp::verifier::session::Session) -> AResult<()> {
        Once(false).await;
        self.0.initiate(s).await?;
        Once(false).await;
        Ok(())
    }
    async fn update_status(&self, u: Uuid, s: Status) -> AResult<()> {
        self.0.update_status(u, s).await
    }
    async fn get_session(&self, u: Uuid) -> AResult<openid4vp::verifier::session::Session> {
        self.0.get_session(u).await
    }
    async fn remove_session(&self, u: Uuid) -> AResult<()> {
        self.0.remove_session(u).await
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    NoQuery,
    NoType,
    BadType(u8),
    NoMode,
    BadMode(u8),
    UnsupportedMode(u8),
    NoNonce,
    BadNonce(u8),
    Unlisted(u8),
    BadList(u8),
    BadSubmission(u8),
    BadReference(u8),
    ClientFails,
    SignerFails(u8),
    StoreRefuses(u8),
    RedirectUri,
    NoEndpoint,
}

const FAULTS: [Fault; 52] = [
    Fault::NoQuery,
    Fault::NoType,
    Fault::BadType(0), Fault::BadType(1), Fault::BadType(2), Fault::BadType(3), Fault::BadType(4),
    Fault::NoMode,
    Fault::BadMode(0), Fault::BadMode(1), Fault::BadMode(2), Fault::BadMode(3), Fault::BadMode(4),
    Fault::UnsupportedMode(0), Fault::UnsupportedMode(1), Fault::UnsupportedMode(2), Fault::UnsupportedMode(3), Fault::UnsupportedMode(4),
    Fault::NoNonce,
    Fault::BadNonce(0), Fault::BadNonce(1), Fault::BadNonce(2), Fault::BadNonce(3), Fault::BadNonce(4),
    Fault::Unlisted(0), Fault::Unlisted(1), Fault::Unlisted(2), Fault::Unlisted(3),
    Fault::BadList(0), Fault::BadList(1), Fault::BadList(2), Fault::BadList(3),
    Fault::BadSubmission(0), Fault::BadSubmission(1),
    Fault::BadReference(0), Fault::BadReference(1),
    Fault::ClientFails,
    Fault::SignerFails(0), Fault::SignerFails(1), Fault::SignerFails(2),
    Fault::StoreRefuses(0), Fault::StoreRefuses(1), Fault::StoreRefuses(2), Fault::StoreRefuses(3), Fault::StoreRefuses(4), Fault::StoreRefuses(5), Fault::StoreRefuses(6), Fault::StoreRefuses(7), Fault::StoreRefuses(8),
    Fault::RedirectUri,
    Fault::NoEndpoint,
    Fault::UnsupportedMode(5),
];

fn odd(n: u8) -> Json {
    [json!(null), json!(7), json!(["vp_token"]), json!({"a": "direct_post"}), json!(true)][n as usize].clone()
}

fn run_build(faults: &[Fault], mode: &str, by_ref: bool, how: How, seen: &mut HashSet<Uuid>) -> Result<String, String> {
    let has = |f: Fault| faults.contains(&f);
    let direct = mode.starts_with("direct_post");
    let mut store = EnvStore::new(MemoryStore::default());
    let refuses = faults.iter().find_map(|f| if let Fault::StoreRefuses(n) = f { Some(*n) } else { None });
    if let Some(n) = refuses {
        store.says = STORE_SAYS[n as usize];
        store.fail = vec![1];
    }
    let store = Arc::new(store);
    // A session that is there already.
    let other = {
        let plan = Plan { defaults: vec![], own: vec![("response_type", json!("vp_token")), ("response_mode", json!("dc_api")), ("nonce", json!("other"))], query: "other" };
        let v = verifier(Arc::new(PlainClient::new("redirect_uri", "x")), store.clone(), &vec![], None, "https://v.example/s");
        now(plan.start(&v).build_with_session_id(uuid(0xee), metadata(json!({"client_id_prefixes_supported": ["redirect_uri"]}))))
            .map_err(|e| format!("{e:#}"))?;
        now(store.inner.get_session(uuid(0xee))).map_err(|e| format!("{e:#}"))?
    };
    let mut submission: Url = "https://v.example/submit".parse().unwrap();
    let mut at: Url = "https://v.example/request".parse().unwrap();
    let mut effective = false;
    for f in faults {
        match f {
            Fault::BadSubmission(n) => {
                submission = ["mailto:a@v.example", "urn:submit"][*n as usize].parse().unwrap();
                effective |= direct;
            }
            Fault::BadReference(n) => {
                at = ["mailto:a@v.example", "data:,x"][*n as usize].parse().unwrap();
                effective |= by_ref;
            }
            Fault::Unlisted(_) | Fault::BadList(_) | Fault::NoEndpoint => effective |= how != How::DcApi,
            Fault::RedirectUri => effective = true,
            _ => effective = true,
        }
    }
    let signer_faults: Vec<u8> = faults.iter().filter_map(|f| if let Fault::SignerFails(n) = f { Some(*n) } else { None }).collect();
    let spec = CertSpec::new(1, &[San::Dns("v.example")]);
    let bad_signer = || {
        Arc::new(FaultySigner { inner: signer(1), alg_fails: true, jwk_fails: false, alg: None })
    };
    let (client, prefix): (Arc<dyn Client + Send + Sync>, &str) = match signer_faults.first() {
        Some(0) => (Arc::new(X509SanDnsClient::new(vec![spec.cert()], bad_signer()).unwrap()), "x509_san_dns"),
        Some(1) => (Arc::new(X509HashClient::new(vec![spec.cert()], bad_signer()).unwrap()), "x509_hash"),
        Some(_) => {
            let vm = "did:web:v.example#key-1".to_string();
            let resolver = super::crypto::OneKeys(vec![(vm.clone(), super::crypto::ssi_jwk_of(1))]);
            (Arc::new(now(DIDClient::new(vm, bad_signer(), &resolver)).map_err(|e| format!("{e:#}"))?), "decentralized_identifier")
        }
        None => (
            Arc::new(TestClient { inner: PlainClient::new("redirect_uri", "https://v.example/cb"), fails: has(Fault::ClientFails), waits: false }),
            "redirect_uri",
        ),
    };
    let mut b = Verifier::builder()
        .with_client(client)
        .with_session_store(store.clone())
        .with_submission_endpoint(submission);
    b = if by_ref { b.by_reference(at) } else { b.by_value() };
    let v = now(b.build()).map_err(|e| format!("{e:#}"))?;
    let mut rb = v.build_authorization_request();
    if !has(Fault::NoQuery) {
        rb = rb.with_dcql_query(dcql("q").0);
    }
    if !has(Fault::NoType) {
        let val = faults.iter().find_map(|f| if let Fault::BadType(n) = f { Some(odd(*n)) } else { None }).unwrap_or(json!("vp_token"));
        rb = with_own(rb, "response_type", val);
    }
    if !has(Fault::NoMode) {
        let val = faults
            .iter()
            .find_map(|f| match f {
                Fault::BadMode(n) => Some(odd(*n)),
                Fault::UnsupportedMode(n) => Some(json!(["fragment", "", "DIRECT_POST", "direct_post.jwe", "dc_api.jwt ", "query"][*n as usize])),
                _ => None,
            })
            .unwrap_or(json!(mode));
        rb = with_own(rb, "response_mode", val);
    }
    if !has(Fault::NoNonce) {
        let val = faults.iter().find_map(|f| if let Fault::BadNonce(n) = f { Some(odd(*n)) } else { None }).unwrap_or(json!("n"));
        rb = with_own(rb, "nonce", val);
    }
    if has(Fault::RedirectUri) {
        rb = with_own(rb, "redirect_uri", json!("https://v.example/cb"));
    }
    let mut extra = json!({"client_id_prefixes_supported": ["other", prefix]});
    for f in faults {
        match f {
            Fault::Unlisted(0) => extra = json!({}),
            Fault::Unlisted(1) => extra = json!({"client_id_prefixes_supported": []}),
            Fault::Unlisted(2) => extra = json!({"client_id_prefixes_supported": ["x509_san_uri", "REDIRECT_URI", format!("{prefix}:")]}),
            Fault::Unlisted(_) => extra = json!({"client_id_prefixes_supported": ["pre-registered", "other"]}),
            Fault::BadList(n) => {
                let bad = [json!(prefix), json!(null), json!([prefix, 1]), json!({"a": prefix})];
                extra = json!({"client_id_prefixes_supported": bad[*n as usize]});
            }
            _ => {}
        }
    }
    let mut md: WalletMetadata = metadata(extra);
    if has(Fault::NoEndpoint) {
        let _ = md.remove::<openid4vp::core::metadata::parameters::wallet::AuthorizationEndpoint>();
    }
    let got: Result<(Uuid, String), _> = match how {
        How::Build => now(rb.build(md)).map(|(u, s)| (u, s.to_string())),
        How::WithId(n) => now(rb.build_with_session_id(uuid(n), md)).map(|s| (uuid(n), s.to_string())),
        How::DcApi => now(rb.build_dc_api()),
    };
    let log: Vec<StoreOp> = store.log.lock().unwrap()[1..].to_vec();
    // The other session is as it was.
    let again = now(store.inner.get_session(uuid(0xee))).map_err(|e| format!("the other session is gone: {e:#}"))?;
    if again.authorization_request_jwt != other.authorization_request_jwt || status_json(&again.status) != status_json(&other.status) {
        return Err("the other session changed".into());
    }
    match got {
        Err(e) => {
            if !effective {
                return Err(format!("failed: {e:#}"));
            }
            let refused_by_store = refuses.is_some();
            for op in &log {
                match op {
                    StoreOp::Initiate(u) if !refused_by_store || now(store.inner.get_session(*u)).is_ok() => {
                        return Err(format!("failed ({e:#}), but left the session {u} behind"));
                    }
                    StoreOp::Update(_) | StoreOp::Remove(_) => return Err(format!("failed after {log:?}")),
                    _ => {}
                }
            }
            if let How::WithId(n) = how {
                if now(store.inner.get_session(uuid(n))).is_ok() {
                    return Err("failed but the session is there".into());
                }
            }
            Ok(format!("{} fault(s), nothing left", faults.len()))
        }
        Ok((id, _)) => {
            if effective {
                return Err("succeeded".into());
            }
            if log.iter().filter(|o| matches!(o, StoreOp::Initiate(_))).count() != 1 || !log.contains(&StoreOp::Initiate(id)) {
                return Err(format!("succeeded with the store calls {log:?}"));
            }
            let s = now(store.inner.get_session(id)).map_err(|e| format!("the session is not stored: {e:#}"))?;
            if s.uuid != id {
                return Err("stored under another id".into());
            }
            if how == How::Build || how == How::DcApi {
                if !seen.insert(id) {
                    return Err("the generated id is not fresh".into());
                }
            }
            Ok(format!("built, {} harmless fault(s)", faults.len()))
        }
    }
}

/// Print `n` ids of sessions built from a fresh start.
pub fn print_ids(n: usize) {
    let plan = Plan { defaults: vec![], own: vec![("response_type", json!("vp_token")), ("response_mode", json!("dc_api")), ("nonce", json!("n"))], query: "q" };
    let v = verifier(Arc::new(PlainClient::new("redirect_uri", "x")), Arc::new(MemoryStore::default()), &vec![], None, "https://v.example/s");
    for i in 0..n {
        let id = if i % 2 == 0 {
            now(plan.start(&v).build(metadata(json!({"client_id_prefixes_supported": ["redirect_uri"]})))).unwrap().0
        } else {
            now(plan.start(&v).build_dc_api()).unwrap().0
        };
        println!("{id}");
    }
}

pub fn c27(c: &mut Ctx) {
    c.rule = "Every single fault of a list and every pair (thorough: every triple) of faults x response mode x way of passing x how it is built; dropping the build at every point where it waits; ids given by the caller; repeated generated ids. Non-trivial: a distinct combination.".into();
    c.assumptions = vec![
        "freshness of generated ids is checked among the ids of the run and of six other processes".into(),
        "the store's operations are atomic".into(),
    ];
    c.fault = true;
    // A verifier is made of three things, none of which it can do without.
    for set in 0u8..8 {
        for with_more in [false, true] {
            c.case(format!("a verifier of {set:#05b}, more settings={with_more}"), || {
                let mut b = Verifier::builder();
                if with_more {
                    b = b.by_reference("https://v.example/r".parse().unwrap()).with_default_request_parameter(openid4vp::core::authorization_request::parameters::Nonce::from("n"));
                }
                if set & 1 != 0 {
                    b = b.with_client(Arc::new(PlainClient::new("redirect_uri", "x")));
                }
                if set & 2 != 0 {
                    b = b.with_session_store(Arc::new(MemoryStore::default()));
                }
                if set & 4 != 0 {
                    b = b.with_submission_endpoint("https://v.example/s".parse().unwrap());
                }
                match (now(b.build()).is_ok(), set == 7) {
                    (true, true) => Ok("verifier made".into()),
                    (false, false) => Ok("verifier refused".into()),
                    (true, false) => Err("made all the same".into()),
                    (false, true) => Err("refused".into()),
                }
            });
        }
    }
    let mut seen = HashSet::new();
    let modes = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];
    let mut sets: Vec<Vec<Fault>> = vec![vec![]];
    sets.extend(FAULTS.iter().map(|f| vec![*f]));
    for (i, f) in FAULTS.iter().enumerate() {
        for (j, g) in FAULTS.iter().enumerate().skip(i + 1) {
            if std::mem::discriminant(f) == std::mem::discriminant(g) {
                continue;
            }
            if matches!(f, Fault::StoreRefuses(n) if *n > 2) || matches!(g, Fault::StoreRefuses(n) if *n > 2) {
                continue;
            }
            sets.push(vec![*f, *g]);
            if !c.quick() {
                for h in FAULTS.iter().skip(j + 1) {
                    if std::mem::discriminant(h) != std::mem::discriminant(g) && std::mem::discriminant(h) != std::mem::discriminant(f) {
                        sets.push(vec![*f, *g, *h]);
                    }
                }
            }
        }
    }
    for set in &sets {
        for mode in modes {
            for by_ref in [false, true] {
                for how in [How::Build, How::WithId(1), How::DcApi] {
                    if how == How::DcApi && by_ref {
                        continue;
                    }
                    if set.len() > 2 && (how == How::Build || mode.ends_with(".jwt")) {
                        continue;
                    }
                    c.case(format!("faults {set:?} {mode} by_ref={by_ref} {how:?}"), || run_build(set, mode, by_ref, how, &mut seen));
                }
            }
        }
    }
    // Ids given by the caller.
    let mut ids = vec![Uuid::nil(), Uuid::max(), Uuid::from_u128(1), Uuid::from_u128(1 << 127)];
    for bit in 0..128 {
        ids.push(Uuid::from_u128(1u128 << bit));
    }
    for id in ids {
        for by_ref in [false, true] {
            c.case(format!("session id {id} by_ref={by_ref}"), || {
                let store = Arc::new(EnvStore::new(MemoryStore::default()));
                let plan = Plan { defaults: vec![], own: vec![("response_type", json!("vp_token")), ("response_mode", json!("direct_post")), ("nonce", json!("n"))], query: "q" };
                let v = verifier(Arc::new(PlainClient::new("redirect_uri", "x")), store.clone(), &vec![], by_ref.then_some("https://v.example/r"), "https://v.example/s");
                now(plan.start(&v).build_with_session_id(id, metadata(json!({"client_id_prefixes_supported": ["redirect_uri"]}))))
                    .map_err(|e| format!("{e:#}"))?;
                let log = store.log.lock().unwrap().clone();
                if log.iter().filter(|o| matches!(o, StoreOp::Initiate(_))).collect::<Vec<_>>() != vec![&StoreOp::Initiate(id)] {
                    return Err(format!("{log:?}"));
                }
                let s = now(store.inner.get_session(id)).map_err(|e| format!("{e:#}"))?;
                if s.uuid != id || s.authorization_request_object.return_uri().path() != format!("/s/{id}") {
                    return Err(format!("{s:?}"));
                }
                Ok("given id".into())
            });
        }
    }
    // Generated ids.
    let c_ids = c.pick(4000, 200_000);
    c.case("generated ids", || {
        let store = MemoryStore::default();
        let plan = Plan { defaults: vec![], own: vec![("response_type", json!("vp_token")), ("response_mode", json!("dc_api")), ("nonce", json!("n"))], query: "q" };
        let v = verifier(Arc::new(PlainClient::new("redirect_uri", "x")), Arc::new(store), &vec![], None, "https://v.example/s");
        for i in 0..c_ids {
            let id = if i % 2 == 0 {
                now(plan.start(&v).build(metadata(json!({"client_id_prefixes_supported": ["redirect_uri"]})))).map_err(|e| format!("{e:#}"))?.0
            } else {
                now(plan.start(&v).build_dc_api()).map_err(|e| format!("{e:#}"))?.0
            };
            if !seen.insert(id) {
                return Err(format!("{id} again"));
            }
        }
        Ok("generated ids".into())
    });
    // Of several processes, each started the same way.
    c.case("ids generated by other processes", || {
        let me = std::env::current_exe().map_err(|e| e.to_string())?;
        for n in 0..6 {
            let out = std::process::Command::new(&me).env("VP_IDS", "2400").output().map_err(|e| e.to_string())?;
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let ids: Vec<Uuid> = text.lines().filter_map(|l| l.parse().ok()).collect();
            if !out.status.success() || ids.len() != 2400 {
                return Err(format!("process {n} made {} ids ({})", ids.len(), out.status));
            }
            for id in ids {
                if !seen.insert(id) {
                    return Err(format!("process {n}: {id} again"));
                }
            }
        }
        Ok("generated ids of several processes".into())
    });
    // Dropped while it waits.
    for mode in modes {
        for by_ref in [false, true] {
            for how in [How::WithId(1), How::DcApi] {
                for client_fails in [false, true] {
                    for refuse in [false, true] {
                        for polls in 0..8 {
                            c.case(format!("dropped after {polls} polls, {mode} by_ref={by_ref} {how:?} client fails={client_fails} store refuses={refuse}"), || {
                                let mut inner = EnvStore::new(MemoryStore::default());
                                if refuse {
                                    inner.fail = vec![0];
                                }
                                let inner = Arc::new(inner);
                                let v = verifier(
                                    Arc::new(TestClient { inner: PlainClient::new("redirect_uri", "x"), fails: client_fails, waits: true }),
                                    Arc::new(SlowStore(inner.clone())),
                                    &vec![],
                                    by_ref.then_some("https://v.example/r"),
                                    "https://v.example/s",
                                );
                                let plan = Plan { defaults: vec![], own: vec![("response_type", json!("vp_token")), ("response_mode", json!(mode)), ("nonce", json!("n"))], query: "q" };
                                let md = metadata(json!({"client_id_prefixes_supported": ["redirect_uri"]}));
                                let rb = plan.start(&v);
                                let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = AResult<()>>>> = match how {
                                    How::DcApi => Box::pin(async move { rb.build_dc_api().await.map(|_| ()) }),
                                    _ => Box::pin(async move { rb.build_with_session_id(uuid(1), md).await.map(|_| ()) }),
                                };
                                let mut done = None;
                                for _ in 0..polls {
                                    if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                                        done = Some(r);
                                        break;
                                    }
                                }
                                drop(f);
                                let log = inner.log.lock().unwrap().clone();
                                let ids: Vec<Uuid> = log.iter().filter_map(|o| if let StoreOp::Initiate(u) = o { Some(*u) } else { None }).collect();
                                if ids.len() > 1 || log.iter().any(|o| matches!(o, StoreOp::Update(_) | StoreOp::Remove(_))) {
                                    return Err(format!("{log:?}"));
                                }
                                let stored = ids.first().map(|u| now(inner.inner.get_session(*u)).is_ok()).unwrap_or(false);
                                if how == How::WithId(1) && ids.iter().any(|u| *u != uuid(1)) {
                                    return Err(format!("{log:?}"));
                                }
                                match done {
                                    Some(Ok(())) if stored && !client_fails && !refuse => Ok("finished".into()),
                                    Some(Ok(())) => Err(format!("succeeded, stored={stored}")),
                                    Some(Err(_)) if !stored && (client_fails || refuse) => Ok("failed, nothing left".into()),
                                    Some(Err(e)) => Err(format!("failed ({e:#}), stored={stored}")),
                                    None if stored => {
                                        // Whole or not at all.
                                        let s = now(inner.inner.get_session(ids[0])).map_err(|e| format!("{e:#}"))?;
                                        let (_, body, _) = jwt_parts(&s.authorization_request_jwt)?;
                                        if client_fails || refuse || body["nonce"] != "n" {
                                            return Err("half a session is stored".into());
                                        }
                                        Ok("dropped after storing".into())
                                    }
                                    None => Ok("dropped, nothing left".into()),
                                }
                            });
                        }
                    }
                }
            }
        }
    }
}
