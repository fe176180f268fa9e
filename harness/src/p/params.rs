//! C07, C19, C20, C21, C29: request objects, typed parameters, metadata, non-empty lists, nonces.
use crate::ctx::{now, Ctx};
use crate::env::*;
use openid4vp::core::authorization_request::parameters::*;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::credential_format::{ClaimFormatDesignation, ClaimFormatMap, ClaimFormatPayload};
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::core::metadata::parameters::verifier::*;
use openid4vp::core::metadata::parameters::wallet::*;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::{ParsingErrorContext, TypedParameter, UntypedObject};
use openid4vp::core::response::parameters::{IdToken, VpToken};
use openid4vp::utils::NonEmptyVec;
use rand::RngCore;
use serde_json::{json, Map, Value as Json};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;
use url::Url;

// ---------------------------------------------------------------- C07

pub fn c07(c: &mut Ctx) {
    c.rule = "Every combination of a list of values (absent, right, wrong type, wrong text) for response_type, nonce, client_id, response_mode, response_uri and redirect_uri, with and without other parameters, through every way of making the object. Non-trivial: a distinct combination.".into();
    c.assumptions = vec!["the address of a request in a dc_api mode is left open".into()];
    let mut todo: Vec<(String, Json)> = vec![];
    let texts = |ok: &[&str]| -> Vec<Option<Json>> {
        let mut v: Vec<Option<Json>> = vec![None];
        v.extend(ok.iter().map(|s| Some(json!(s))));
        v.push(Some(json!(1)));
        v.push(Some(json!(null)));
        v
    };
    let mut types = texts(&["vp_token", "vp_token id_token", "code", ""]);
    types.push(Some(json!(["vp_token"])));
    let mut nonces = texts(&["n-0S6_WzA2Mj", "", "é\" &\n"]);
    nonces.push(Some(json!({"n": 1})));
    let ids = texts(&["abc", "x509_san_dns:v.example", "", ":", "a:b:c", "redirect_uri:"]);
    let mut modes = texts(&["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", "", "fragment", "DIRECT_POST", "direct_post.jwt ", "dc_api.jwe"]);
    modes.push(Some(json!(["direct_post"])));
    let uris = texts(&["https://v.example/submit/1?a=b#c", "x:y", "https://v.example", "", "v.example", "https://", "/submit"]);
    let redirects = texts(&["https://v.example/cb", "not a URL"]);
    let extras = [
        json!({}),
        json!({"state": "s", "x": [1, {"y": null}], "client_metadata": 7, "dcql_query": "odd", "Nonce": "other", "response_uri_": 1}),
    ];
    for t in &types {
        for n in &nonces {
            for id in &ids {
                for m in &modes {
                    for u in &uris {
                        for r in &redirects {
                            for (xi, x) in extras.iter().enumerate() {
                                if c.quick() && xi == 1 && (r.is_some() && id.is_some()) {
                                    continue;
                                }
                                let mut o = x.as_object().unwrap().clone();
                                for (k, v) in [("response_type", t), ("nonce", n), ("client_id", id), ("response_mode", m), ("response_uri", u), ("redirect_uri", r)] {
                                    if let Some(v) = v {
                                        o.insert(k.into(), v.clone());
                                    }
                                }
                                let o = Json::Object(o);
                                todo.push((o.to_string(), o));
                            }
                        }
                    }
                }
            }
        }
    }
    // One value at a time: every near miss of a mode or type, and every text.
    for mode in [None, Some("direct_post"), Some("direct_post.jwt"), Some("dc_api"), Some("dc_api.jwt")] {
        let mut base = json!({"response_type": "vp_token", "nonce": "n-0S6_WzA2Mj", "client_id": "x509_san_dns:v.example", "state": "s"});
        if let Some(m) = mode {
            base["response_mode"] = json!(m);
        }
        if !mode.unwrap_or("direct_post").starts_with("dc") {
            base["response_uri"] = json!("https://v.example/submit/1");
        }
        let mut changes: Vec<(&str, String)> = vec![];
        for m in near_misses(mode.unwrap_or("direct_post")) {
            changes.push(("response_mode", m));
        }
        for m in ["query", "form_post", "form_post.jwt", "query.jwt", "jwt", "fragment.jwt", "post", "direct_post.jwt.jwt", "dc_api.jwt.jwt", "w3c_dc_api", "w3c_dc_api.jwt"] {
            changes.push(("response_mode", m.into()));
        }
        for t in near_misses("vp_token").into_iter().chain(near_misses("vp_token id_token")).chain(["id_token".into(), "id_token vp_token".into(), "code id_token".into(), "vp_token code".into()]) {
            changes.push(("response_type", t));
        }
        let full = matches!(mode, Some("direct_post") | Some("dc_api"));
        let hostile = texts_menu(c.pick(if full { 2 } else { 1 }, 2));
        for t in &hostile {
            for k in ["nonce", "client_id", "response_type", "state", "scope"] {
                changes.push((k, t.clone()));
            }
            changes.push(("client_id", format!("x509_san_dns:{t}")));
            changes.push(("response_uri", format!("https://v.example/{t}")));
        }
        for p in http_urls(false) {
            changes.push(("response_uri", p.clone()));
            changes.push(("redirect_uri", p));
        }
        for p in near_misses("https://v.example/s?a=b#c") {
            changes.push(("response_uri", p));
        }
        for p in near_misses("x509_san_dns:v.example") {
            changes.push(("client_id", p));
        }
        for (k, v) in changes {
            let mut o = base.clone();
            o[k] = json!(v);
            todo.push((o.to_string(), o));
        }
        // the name of a parameter, nearly
        for k in ["response_type", "nonce", "client_id", "response_mode", "response_uri", "redirect_uri"] {
            for n in near_misses(k) {
                let v = base.get(k).cloned().unwrap_or(json!("https://v.example/x"));
                let mut o = base.clone();
                o[n.as_str()] = v.clone();
                todo.push((o.to_string(), o.clone()));
                o.as_object_mut().unwrap().remove(k);
                todo.push((o.to_string(), o));
            }
        }
        // one parameter saying what another one says
        let names = ["response_type", "nonce", "client_id", "response_mode", "response_uri", "redirect_uri", "state", "scope", "aud", "iss", "client_id_scheme", "request_uri"];
        for a in names {
            for b in names {
                for v in ["https://v.example/submit/1", "redirect_uri:https://v.example/submit/1", "x509_san_dns:v.example", "vp_token", "n-0S6_WzA2Mj", "direct_post", "dc_api", "direct_post.jwt"] {
                    let mut o = base.clone();
                    o[a] = json!(v);
                    o[b] = json!(v);
                    todo.push((o.to_string(), o.clone()));
                    if let Some(id) = v.strip_prefix("redirect_uri:") {
                        o[b] = json!(id);
                        todo.push((o.to_string(), o));
                    }
                }
            }
        }
        for n in near_misses("https://v.example/submit/1") {
            let mut o = base.clone();
            o["redirect_uri"] = json!(n);
            todo.push((o.to_string(), o.clone()));
            o["client_id"] = json!("redirect_uri:https://v.example/submit/1");
            todo.push((o.to_string(), o));
        }
        // every JSON value in every place
        for k in ["response_type", "nonce", "client_id", "response_mode", "response_uri", "redirect_uri", "state", "client_metadata", "dcql_query", "scope", "aud", "iss", "exp", "transaction_data", "expected_origins", "request_uri", "request"] {
            for v in [json!(null), json!(true), json!(false), json!(0), json!(-1), json!(1.5), json!(u64::MAX), json!(""), json!("https://v.example/"), json!([]), json!(["direct_post"]), json!([null]), json!({}), json!({"vp_token": 1})] {
                let mut o = base.clone();
                o[k] = v;
                todo.push((o.to_string(), o));
            }
        }
    }
    // Long texts, and many other parameters.
    for mode in ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"] {
        let mut base = json!({"response_type": "vp_token", "nonce": "n-0S6_WzA2Mj", "client_id": "x509_san_dns:v.example", "response_mode": mode});
        if mode.starts_with("direct") {
            base["response_uri"] = json!("https://v.example/submit/1");
        }
        for n in [31usize, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1000, 2047, 2048, 4096, 65_536, 200_000] {
            for ch in ["x", "\u{e9}"] {
                let long = ch.repeat(n);
                for k in ["nonce", "client_id", "response_type", "state", "response_mode", "x_long"] {
                    let mut o = base.clone();
                    o[k] = json!(long);
                    todo.push((format!("{mode}: {k} of {n} {ch}"), o));
                }
                for k in ["client_id", "response_uri"] {
                    let mut o = base.clone();
                    o[k] = json!(format!("https://v.example/{}", "x".repeat(n)));
                    todo.push((format!("{mode}: {k}, a URL of {n} {ch}"), o));
                }
                let mut o = base.clone();
                o["client_id"] = json!(format!("{long}:{long}"));
                todo.push((format!("{mode}: a client_id with a prefix of {n} {ch}"), o));
            }
        }
        for n in [1usize, 2, 7, 8, 15, 16, 31, 32, 33, 64, 100, 256, 1000, 3000] {
            // names before, between and after those of the request
            for name in ["a", "nonce", "n", "response_", "z"] {
                let mut o = base.clone();
                for i in 0..n {
                    o[format!("{name}{i}")] = json!({"i": i});
                }
                todo.push((format!("{mode}: {n} others called {name}…"), o.clone()));
                o.as_object_mut().unwrap().remove("nonce");
                todo.push((format!("{mode}: {n} others called {name}… and no nonce"), o));
            }
        }
        // deep values
        for n in [10usize, 50, 100] {
            let mut v = json!(1);
            for _ in 0..n {
                v = json!([{"a": v}]);
            }
            let mut o = base.clone();
            o["deep"] = v;
            // the text form has the JSON parser's own limit
            if n <= 50 {
                todo.push((format!("{mode}: a value {n} deep"), o));
            }
        }
    }
    c.cases(todo, c07_judge);
}

/// Accepted or refused, and reported, as the parameters say.
fn c07_judge(o: &Json) -> Result<String, String> {
    let field = |k: &str| o.get(k).cloned();
    let (t, n, id, m, u, r) = (field("response_type"), field("nonce"), field("client_id"), field("response_mode"), field("response_uri"), field("redirect_uri"));
    let (t, n, id, m, u, r) = (&t, &n, &id, &m, &u, &r);
    let url = |v: &Option<Json>| v.as_ref().and_then(|v| v.as_str()).and_then(|s| Url::parse(s).ok());
    let text = |v: &Option<Json>| v.as_ref().and_then(|v| v.as_str()).map(str::to_string);
    let mode = match m {
        None => Some("direct_post".to_string()),
        m => text(m).filter(|s| ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"].contains(&s.as_str())),
    };
    let addresses = match mode.as_deref() {
        Some("direct_post") | Some("direct_post.jwt") => url(u).is_some() && r.is_none(),
        Some(_) => u.is_none() && r.is_none(),
        None => false,
    };
    let want = text(t).is_some() && text(n).is_some() && (id.is_none() || text(id).is_some()) && addresses;
    let a: Result<AuthorizationRequestObject, String> = serde_json::from_value(o.clone()).map_err(|e| e.to_string());
    let b: Result<AuthorizationRequestObject, String> = object(o.clone()).try_into().map_err(|e: anyhow::Error| format!("{e:#}"));
    let d: Result<AuthorizationRequestObject, String> = serde_json::from_str(&o.to_string()).map_err(|e| e.to_string());
    for (how, got) in [("from JSON", a), ("from an object", b), ("from text", d)] {
        match got {
            Ok(_) if !want => return Err(format!("accepted {how}")),
            Err(e) if want => return Err(format!("refused {how}: {e}")),
            Err(_) => continue,
            Ok(g) => {
                if g.client_id().map(|c| c.0.clone()) != text(id) {
                    return Err(format!("client_id {:?}", g.client_id()));
                }
                let prefix = text(id).and_then(|i| i.find(':').map(|n| i[..n].to_string()));
                if g.client_id_scheme().map(|c| c.0.clone()) != prefix {
                    return Err(format!("prefix {:?}", g.client_id_scheme()));
                }
                if g.client_id().and_then(|c| c.resolve_prefix()).map(|p| p.0) != prefix {
                    return Err("resolve_prefix disagrees".into());
                }
                if Some(g.response_mode().to_string()) != mode || Some(String::from(g.response_mode().clone())) != mode {
                    return Err(format!("response_mode {:?}", g.response_mode()));
                }
                if g.response_mode().is_jarm().ok() != mode.as_ref().map(|m| m.ends_with(".jwt")) {
                    return Err("is_jarm".into());
                }
                if Some(String::from(g.response_type().clone())) != text(t) {
                    return Err(format!("response_type {:?}", g.response_type()));
                }
                let idt = match text(t).as_deref() {
                    Some("vp_token") => Some(false),
                    Some("vp_token id_token") => Some(true),
                    _ => None,
                };
                if g.is_id_token_requested() != idt {
                    return Err(format!("is_id_token_requested {:?}", g.is_id_token_requested()));
                }
                if Some(g.nonce().to_string()) != text(n) || Some(g.nonce().as_str()) != text(n).as_deref() {
                    return Err(format!("nonce {:?}", g.nonce()));
                }
                if mode.as_deref().unwrap().starts_with("direct") && Some(g.return_uri()) != url(u).as_ref() {
                    return Err(format!("return_uri {}", g.return_uri()));
                }
                if serde_json::to_value(&g).unwrap() != *o || Json::from(UntypedObject::from(g.clone())) != *o {
                    return Err(format!("became {}", serde_json::to_value(&g).unwrap()));
                }
            }
        }
    }
    Ok(if want { format!("accepted {}", mode.unwrap()) } else { "refused".into() })
}

// ---------------------------------------------------------------- C19

fn to_json<T: TypedParameter>(t: T) -> Result<Json, String> {
    t.try_into().map_err(|_| "does not convert to JSON".to_string())
}

/// One typed parameter: right values survive, wrong ones are errors, wherever they stand.
/// What the specification calls a parameter.
fn wire_name(name: &str) -> &'static str {
    match name {
        "ClientId" => "client_id",
        "ClientMetadata" => "client_metadata",
        "Nonce" => "nonce",
        "Audience" => "aud",
        "RedirectUri" => "redirect_uri",
        "ResponseUri" => "response_uri",
        "ResponseMode" => "response_mode",
        "ResponseType" => "response_type",
        "State" => "state",
        "ExpectedOrigins" => "expected_origins",
        "TransactionData" => "transaction_data",
        "VerifierInfo" => "verifier_info",
        "RequestUriMethod" => "request_uri_method",
        "VpFormats" => "vp_formats_supported",
        "JWKs" => "jwks",
        "EncryptedResponseEncValuesSupported" => "encrypted_response_enc_values_supported",
        "Issuer" => "issuer",
        "AuthorizationEndpoint" => "authorization_endpoint",
        "ResponseTypesSupported" => "response_types_supported",
        "ClientIdPrefixesSupported" => "client_id_prefixes_supported",
        "RequestObjectSigningAlgValuesSupported" => "request_object_signing_alg_values_supported",
        "VpFormatsSupported" => "vp_formats_supported",
        "AuthorizationEncryptionAlgValuesSupported" => "authorization_encryption_alg_values_supported",
        "AuthorizationEncryptionEncValuesSupported" => "authorization_encryption_enc_values_supported",
        "IdToken" => "id_token",
        "VpToken" => "vp_token",
        "DcqlQuery" => "dcql_query",
        "Anything" => "x_anything",
        _ => panic!("{name}"),
    }
}

/// A parameter of the application's own, of any value.
#[derive(Clone, Debug)]
struct Anything(Json);

impl TypedParameter for Anything {
    const KEY: &'static str = "x_anything";
}

impl TryFrom<Json> for Anything {
    type Error = anyhow::Error;
    fn try_from(v: Json) -> anyhow::Result<Self> {
        Ok(Anything(v))
    }
}

impl From<Anything> for Json {
    fn from(a: Anything) -> Json {
        a.0
    }
}

fn typed<T: TypedParameter>(c: &mut Ctx, name: &str, good: &[Json], bad: &[Json]) {
    c.case(format!("the name of {name}"), || {
        let wire = wire_name(name);
        let mut j = json!({"other": 1});
        j[wire] = good[0].clone();
        let read = object(j.clone()).get::<T>().ok_or("not found under its name")?.map_err(|e| format!("{e:#}"))?;
        let mut o = object(json!({"other": 1}));
        o.insert(read);
        if Json::from(o.clone()) != j {
            return Err(format!("written as {}, should be {j}", Json::from(o)));
        }
        Ok("name".into())
    });
    for v in good {
        c.case(format!("{name} ({}) {v}", T::KEY), || {
            let t = T::try_from(v.clone()).map_err(|e| format!("refused: {e:#}"))?;
            let back = to_json(t.clone())?;
            if back != *v {
                return Err(format!("became {back}"));
            }
            let again = T::try_from(back).map_err(|e| format!("its own JSON is refused: {e:#}"))?;
            if format!("{again:?}") != format!("{t:?}") && to_json(again.clone())? != *v {
                return Err(format!("{again:?} vs {t:?}"));
            }
            let mut o = object(json!({"before": 1, "zafter": [2]}));
            if o.get::<T>().is_some() {
                return Err("there before it is inserted".into());
            }
            if Option::<anyhow::Result<T>>::None.parsing_error().is_ok() {
                return Err("absent is no error".into());
            }
            if o.insert(t.clone()).is_some() {
                return Err("the first insertion returns something".into());
            }
            let mut want = json!({"before": 1, "zafter": [2]});
            want[T::KEY] = v.clone();
            if Json::from(o.clone()) != want {
                return Err(format!("inserted: {}", Json::from(o)));
            }
            let got = to_json(o.get::<T>().parsing_error().map_err(|e| format!("{e:#}"))?)?;
            if got != *v {
                return Err(format!("read back {got}"));
            }
            let before = o.insert(t).ok_or("nothing was there")?.map_err(|e| format!("{e:#}"))?;
            if to_json(before)? != *v {
                return Err("insertion returns another value".into());
            }
            let removed = o.remove::<T>().ok_or("nothing removed")?.map_err(|e| format!("{e:#}"))?;
            if to_json(removed)? != *v || o.get::<T>().is_some() || o.remove::<T>().is_some() {
                return Err("removal".into());
            }
            if Json::from(o.clone()) != json!({"before": 1, "zafter": [2]}) {
                return Err(format!("removed: {}", Json::from(o)));
            }
            Ok(format!("good {name}"))
        });
    }
    for v in bad {
        c.case(format!("{name} ({}) wrong {v}", T::KEY), || {
            if let Ok(t) = T::try_from(v.clone()) {
                return Err(format!("accepted as {t:?}"));
            }
            let mut j = json!({"other": "x"});
            j[T::KEY] = v.clone();
            let mut o = object(j.clone());
            match o.get::<T>() {
                None => return Err("read as absent".into()),
                Some(Ok(t)) => return Err(format!("read as {t:?}")),
                Some(Err(_)) => {}
            }
            if o.get::<T>().parsing_error().is_ok() {
                return Err("no parsing error".into());
            }
            if Json::from(o.clone()) != j {
                return Err("changed by reading".into());
            }
            match o.remove::<T>() {
                None => return Err("removed as absent".into()),
                Some(Ok(t)) => return Err(format!("removed as {t:?}")),
                Some(Err(_)) => {}
            }
            if Json::from(o) != json!({"other": "x"}) {
                return Err("removal".into());
            }
            // Replacing a wrong value reports it and stores the new one.
            if let Some(g) = good.first() {
                let mut o = object(j);
                match o.insert(T::try_from(g.clone()).map_err(|e| format!("{e:#}"))?) {
                    Some(Err(_)) => {}
                    x => return Err(format!("replacing it returns {x:?}")),
                }
                if to_json(o.get::<T>().ok_or("lost")?.map_err(|e| format!("{e:#}"))?)? != *g {
                    return Err("not replaced".into());
                }
            }
            Ok(format!("wrong {name}"))
        });
    }
}

fn with_default<T: TypedParameter + Default>(c: &mut Ctx, name: &str, default: Json, good: &[Json], bad: &[Json]) {
    typed::<T>(c, name, good, bad);
    c.case(format!("{name} default"), || {
        let got = to_json(object(json!({"x": 1})).get_or_default::<T>().map_err(|e| format!("{e:#}"))?)?;
        if got != default || to_json(T::default())? != default {
            return Err(format!("{got}"));
        }
        Ok("default".into())
    });
    for v in good {
        c.case(format!("{name} or default {v}"), || {
            let mut j = json!({});
            j[T::KEY] = v.clone();
            let got = to_json(object(j).get_or_default::<T>().map_err(|e| format!("{e:#}"))?)?;
            if got != *v {
                return Err(format!("{got}"));
            }
            Ok("not the default".into())
        });
    }
    for v in bad {
        c.case(format!("{name} or default, wrong {v}"), || {
            let mut j = json!({});
            j[T::KEY] = v.clone();
            match object(j).get_or_default::<T>() {
                Ok(t) => Err(format!("{t:?}")),
                Err(_) => Ok("wrong is not the default".into()),
            }
        });
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum POp {
    /// (parameter, value)
    Insert(u8, u8),
    Remove(u8),
    Get(u8),
}

const PKEYS: [&str; 4] = ["nonce", "state", "response_mode", "transaction_data"];

fn pvalue(k: u8, v: u8) -> Json {
    match k {
        0 => [json!("a"), json!("")][v as usize].clone(),
        1 => [json!("a"), json!("b")][v as usize].clone(),
        2 => [json!("dc_api"), json!("direct_post")][v as usize].clone(),
        _ => [json!(["x", "x"]), json!([])][v as usize].clone(),
    }
}

fn p_apply(o: &mut UntypedObject, op: POp) -> Result<Option<Result<Json, ()>>, String> {
    fn one<T: TypedParameter>(o: &mut UntypedObject, op: POp) -> Result<Option<Result<Json, ()>>, String> {
        let r = match op {
            POp::Insert(k, v) => o.insert(T::try_from(pvalue(k, v)).map_err(|e| format!("{e:#}"))?),
            POp::Remove(_) => o.remove::<T>(),
            POp::Get(_) => o.get::<T>(),
        };
        Ok(match r {
            None => None,
            Some(Ok(t)) => Some(Ok(to_json(t)?)),
            Some(Err(_)) => Some(Err(())),
        })
    }
    let (POp::Insert(k, _) | POp::Remove(k) | POp::Get(k)) = op;
    match k {
        0 => one::<Nonce>(o, op),
        1 => one::<State>(o, op),
        2 => one::<ResponseMode>(o, op),
        _ => one::<TransactionData>(o, op),
    }
}

pub fn c19(c: &mut Ctx) {
    c.rule = "Per parameter type, right and wrong JSON values; and every state of an object over four parameters (absent, two right values, a wrong one) with every operation from it, reached by replaying the operations on the real object, and every operation sequence up to a depth. Non-trivial: a distinct value or sequence.".into();
    c.assumptions = vec!["values are representatives".into()];
    let strings_bad = [json!(null), json!(1), json!(true), json!(["x"]), json!({"x": 1})];
    let mut strings_good = vec![json!("x"), json!(""), json!("é \"&=\n"), json!("a:b")];
    strings_good.extend(texts_menu(c.pick(2, 3)).into_iter().map(Json::String));
    let strings_good = &strings_good[..];
    typed::<ClientId>(c, "ClientId", strings_good, &strings_bad);
    typed::<Anything>(c, "Anything", &[json!(null), json!(false), json!(true), json!(0), json!(-1), json!(1.5), json!(u64::MAX), json!(""), json!("null"), json!([]), json!([null]), json!({}), json!({"": null}), json!({"x_anything": 1})], &[]);
    typed::<Nonce>(c, "Nonce", strings_good, &strings_bad);
    typed::<Audience>(c, "Audience", strings_good, &strings_bad);
    typed::<State>(c, "State", strings_good, &strings_bad);
    typed::<Issuer>(c, "Issuer", strings_good, &strings_bad);
    typed::<IdToken>(c, "IdToken", strings_good, &strings_bad);
    let urls_good = [json!("https://v.example/"), json!("https://v.example/a?b=c#d"), json!("openid4vp:"), json!("openid4vp://x"), json!("https://v.example:8443/%C3%A9")];
    let mut urls_bad = strings_bad.to_vec();
    urls_bad.extend([json!(""), json!("v.example"), json!("/x"), json!("https://"), json!("https://a b/")]);
    typed::<RedirectUri>(c, "RedirectUri", &urls_good, &urls_bad);
    typed::<ResponseUri>(c, "ResponseUri", &urls_good, &urls_bad);
    typed::<AuthorizationEndpoint>(c, "AuthorizationEndpoint", &urls_good, &urls_bad);
    with_default::<ResponseMode>(c, "ResponseMode", json!("direct_post"), &["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", "fragment"].iter().flat_map(|m| near_misses(m).into_iter().chain([m.to_string()])).map(Json::String).collect::<Vec<_>>(), &strings_bad);
    typed::<ResponseType>(c, "ResponseType", &near_misses("vp_token id_token").into_iter().chain(near_misses("vp_token")).chain(["vp_token".into(), "vp_token id_token".into()]).map(Json::String).collect::<Vec<_>>(), &strings_bad);
    let mut method_bad = strings_bad.to_vec();
    method_bad.extend([json!("GET"), json!("Post"), json!(""), json!("put")]);
    method_bad.extend(near_misses("get").into_iter().chain(near_misses("post")).map(Json::String));
    with_default::<RequestUriMethod>(c, "RequestUriMethod", json!("get"), &[json!("get"), json!("post")], &method_bad);
    let lists_good = [json!([]), json!(["x"]), json!(["x", "x", ""]), json!(["b", "a"])];
    let lists_bad = [json!(null), json!("x"), json!(1), json!({}), json!([1]), json!(["x", null]), json!([["x"]])];
    typed::<ExpectedOrigins>(c, "ExpectedOrigins", &lists_good, &lists_bad);
    typed::<TransactionData>(c, "TransactionData", &lists_good, &lists_bad);
    typed::<AuthorizationEncryptionAlgValuesSupported>(c, "AuthorizationEncryptionAlgValuesSupported", &lists_good, &lists_bad);
    typed::<AuthorizationEncryptionEncValuesSupported>(c, "AuthorizationEncryptionEncValuesSupported", &lists_good, &lists_bad);
    typed::<ResponseTypesSupported>(c, "ResponseTypesSupported", &[json!([]), json!(["vp_token"]), json!(["x", "vp_token id_token", "vp_token"])], &lists_bad);
    with_default::<RequestObjectSigningAlgValuesSupported>(c, "RequestObjectSigningAlgValuesSupported", json!([]), &lists_good, &lists_bad);
    with_default::<EncryptedResponseEncValuesSupported>(c, "EncryptedResponseEncValuesSupported", json!(["A128GCM"]), &lists_good, &lists_bad);
    with_default::<ClientIdPrefixesSupported>(c, "ClientIdPrefixesSupported", json!(["pre-registered"]), &lists_good, &lists_bad);
    typed::<VerifierInfo>(c, "VerifierInfo", &[json!([]), json!([{"format": "jwt", "data": "x"}, 1, null]), json!(["x"])], &[json!(null), json!("x"), json!({}), json!(1)]);
    let not_objects = [json!(null), json!("x"), json!(1), json!([]), json!([{}]), json!(true)];
    typed::<ClientMetadata>(c, "ClientMetadata", &[json!({}), json!({"jwks": 1, "x": {"y": [null]}})], &not_objects);
    typed::<JWKs>(c, "JWKs", &[json!({"keys": []}), json!({"keys": [{"kty": "EC", "x": 1}, {}]})], &[json!(null), json!([]), json!({}), json!({"keys": {}}), json!({"keys": [1]}), json!({"keys": null}), json!("x")]);
    let formats_good = [json!({}), json!({"mso_mdoc": {}, "jwt_vc_json": {"alg_values": ["ES256"]}, "ldp_vc": {"proof_type_values": []}, "x": {"alg_values": [1]}, "y": null})];
    typed::<VpFormats>(c, "VpFormats", &formats_good, &not_objects);
    with_default::<VpFormatsSupported>(c, "VpFormatsSupported", json!({}), &formats_good, &not_objects);
    with_default::<VpToken>(c, "VpToken", json!({}), &[json!({}), json!({"a": ["x", {"y": 1}], "": []})], &[json!(null), json!("x"), json!([]), json!({"a": "x"}), json!({"a": [1]}), json!({"a": [["x"]]})]);
    typed::<DcqlQuery>(c, "DcqlQuery", &[json!({"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {}}]})], &[json!(null), json!({}), json!({"credentials": []}), json!("x"), json!([])]);

    // The other ways to and from text.
    let mut texts: Vec<String> = strings_good.iter().map(|s| s.as_str().unwrap().to_string()).collect();
    texts.extend(["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", "vp_token", "vp_token id_token", "A", "NoNcE", " x ", "Direct_Post"].map(String::from));
    for t in &texts {
        c.case(format!("conversions of {t:?}"), || {
            fn serde_round<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, t: &str) -> Result<(), String> {
                let j = serde_json::to_value(v).map_err(|e| e.to_string())?;
                let back: T = serde_json::from_value(json!(t)).map_err(|e| e.to_string())?;
                if j != json!(t) || serde_json::to_value(&back).map_err(|e| e.to_string())? != j {
                    return Err(format!("written as {j}"));
                }
                Ok(())
            }
            for n in [Nonce::from(t.as_str()), Nonce::from(t.clone())] {
                if *n != *t || n.to_string() != *t || format!("{n}") != *t || Json::from(n.clone()) != json!(t) {
                    return Err(format!("the nonce is {n:?}"));
                }
                serde_round(&n, t)?;
            }
            serde_round(&State(t.clone()), t)?;
            let mode = ResponseMode::from(t.clone());
            let known = match t.as_str() {
                "direct_post" => Some((ResponseMode::DirectPost, false)),
                "direct_post.jwt" => Some((ResponseMode::DirectPostJwt, true)),
                "dc_api" => Some((ResponseMode::DcApi, false)),
                "dc_api.jwt" => Some((ResponseMode::DcApiJwt, true)),
                _ => None,
            };
            if mode != known.clone().map(|k| k.0).unwrap_or(ResponseMode::Unsupported(t.clone())) || mode.is_jarm().ok() != known.map(|k| k.1) {
                return Err(format!("the mode is {mode:?}, jarm {:?}", mode.is_jarm()));
            }
            if mode.to_string() != *t || String::from(mode.clone()) != *t {
                return Err(format!("the mode is written as {mode}"));
            }
            serde_round(&mode, t)?;
            let kind = ResponseType::from(t.clone());
            let want = match t.as_str() {
                "vp_token" => ResponseType::VpToken,
                "vp_token id_token" => ResponseType::VpTokenIdToken,
                _ => ResponseType::Unsupported(t.clone()),
            };
            if kind != want || String::from(kind.clone()) != *t {
                return Err(format!("the type is {kind:?}"));
            }
            serde_round(&kind, t)?;
            let scheme = ClientIdScheme::try_from(json!(t)).map_err(|e| format!("{e:#}"))?;
            if scheme.0 != *t || *scheme != **t || Json::from(scheme.clone()) != json!(t) {
                return Err(format!("the scheme is {scheme:?}"));
            }
            Ok("conversions".into())
        });
    }
    // Accessors of request objects and client metadata: a wrong value is an error, not a default.
    let base = json!({"response_type": "vp_token", "nonce": "n", "response_mode": "dc_api"});
    for (what, v, ok) in [
        ("none", None, None),
        ("good", Some(json!({"jwks": {"keys": [{"kty": "EC"}]}, "vp_formats_supported": {"mso_mdoc": {}}, "encrypted_response_enc_values_supported": ["A256GCM"]})), Some(true)),
        ("bare", Some(json!({})), Some(true)),
        ("wrong members", Some(json!({"jwks": 1, "vp_formats_supported": [], "encrypted_response_enc_values_supported": "A128GCM"})), Some(true)),
        ("wrong", Some(json!("x")), Some(false)),
        ("null", Some(json!(null)), Some(false)),
    ] {
        c.case(format!("client_metadata {what}"), || {
            let mut j = base.clone();
            if let Some(v) = &v {
                j["client_metadata"] = v.clone();
            }
            let a = request_object(j.clone()).map_err(|e| format!("{e:#}"))?;
            let direct = a.client_metadata();
            let resolved = ClientMetadata::resolve(&a);
            if direct.is_ok() != (ok == Some(true)) || resolved.is_ok() != (ok != Some(false)) {
                return Err(format!("{direct:?} {resolved:?}"));
            }
            if a.vp_formats().is_ok() != (what == "good") {
                return Err(format!("{:?}", a.vp_formats()));
            }
            let Ok(m) = resolved else { return Ok("wrong metadata".into()) };
            let want = v.clone().unwrap_or(json!({}));
            if to_json(m.clone())? != want {
                return Err(format!("{m:?}"));
            }
            match (what, m.jwks()) {
                ("good", Some(Ok(_))) | ("none" | "bare", None) | ("wrong members", Some(Err(_))) => {}
                (_, x) => return Err(format!("jwks {x:?}")),
            }
            match (what, m.encrypted_response_enc_values_supported()) {
                ("good", Ok(e)) if e.0 == ["A256GCM"] => {}
                ("none" | "bare", Ok(e)) if e.0 == ["A128GCM"] => {}
                ("wrong members", Err(_)) => {}
                (_, x) => return Err(format!("enc {x:?}")),
            }
            if m.vp_formats().is_ok() != (what == "good") {
                return Err("vp_formats".into());
            }
            Ok("metadata accessors".into())
        });
    }
    for (v, want) in [(None, None), (Some(json!("s")), Some(true)), (Some(json!("")), Some(true)), (Some(json!(1)), Some(false)), (Some(json!(null)), Some(false))] {
        c.case(format!("state {v:?}"), || {
            let mut j = base.clone();
            if let Some(v) = &v {
                j["state"] = v.clone();
            }
            let a = request_object(j).map_err(|e| format!("{e:#}"))?;
            match (a.state(), want) {
                (None, None) | (Some(Err(_)), Some(false)) => Ok("state".into()),
                (Some(Ok(s)), Some(true)) if json!(s.0) == v.clone().unwrap() => Ok("state".into()),
                (x, _) => Err(format!("{x:?}")),
            }
        });
    }
    for (v, want) in [(None, None), (Some(json!({"credentials": [{"id": "a", "format": "x", "meta": {}}]})), Some(true)), (Some(json!({"credentials": []})), Some(false)), (Some(json!(null)), Some(false)), (Some(json!("x")), Some(false))] {
        c.case(format!("dcql_query {v:?}"), || {
            let mut j = base.clone();
            if let Some(v) = &v {
                j["dcql_query"] = v.clone();
            }
            let a = request_object(j).map_err(|e| format!("{e:#}"))?;
            match (a.dcql_query(), want) {
                (None, None) | (Some(Err(_)), Some(false)) => Ok("dcql_query".into()),
                (Some(Ok(q)), Some(true)) if serde_json::to_value(&q).unwrap() == v.clone().unwrap() => Ok("dcql_query".into()),
                (x, _) => Err(format!("{x:?}")),
            }
        });
    }

    // Among many other parameters, wherever they stand.
    for n in [0usize, 1, 2, 10, 31, 32, 33, 100, 257, 1000] {
        for name in ["a", "n", "s", "state", "x", "z", "_"] {
            c.case(format!("among {n} parameters called {name}…"), || {
                let mut j = json!({});
                for i in 0..n {
                    j[format!("{name}{i}")] = json!([i]);
                }
                let mut o = object(j.clone());
                for round in 0..3u8 {
                    for op in [POp::Get(0), POp::Insert(0, 0), POp::Insert(1, 1), POp::Insert(2, 0), POp::Insert(3, 1), POp::Get(3), POp::Remove(2), POp::Get(2), POp::Insert(1, 0), POp::Get(1), POp::Remove(0), POp::Remove(1), POp::Remove(3), POp::Remove(3)] {
                        let (POp::Insert(k, _) | POp::Remove(k) | POp::Get(k)) = op;
                        let key = PKEYS[k as usize];
                        let before = j.get(key).cloned();
                        let got = p_apply(&mut o, op)?;
                        if got != before.map(Ok) {
                            return Err(format!("round {round}: {op:?} returned {got:?}"));
                        }
                        match op {
                            POp::Insert(k, v) => j[key] = pvalue(k, v),
                            POp::Remove(_) => {
                                j.as_object_mut().unwrap().remove(key);
                            }
                            POp::Get(_) => {}
                        }
                        if Json::from(o.clone()) != j {
                            return Err(format!("round {round}: after {op:?} it is {}", Json::from(o)));
                        }
                    }
                }
                Ok("among many".into())
            });
        }
    }
    for n in [100usize, 255, 256, 1000, 65_536] {
        c.case(format!("long values, {n}"), || {
            let long = "x\u{e9}".repeat(n);
            let mut o = object(json!({}));
            o.insert(Nonce::from(long.clone()));
            o.insert(State(format!("{long}s")));
            o.insert(TransactionData(vec![long.clone(); 20]));
            let want = json!({"nonce": long, "state": format!("{long}s"), "transaction_data": vec![long.clone(); 20]});
            if Json::from(o.clone()) != want {
                return Err("changed".into());
            }
            if o.get::<State>().ok_or("absent")?.map_err(|e| e.to_string())?.0 != format!("{long}s") {
                return Err("read as something else".into());
            }
            Ok("long".into())
        });
    }

    // Histories. The model is the JSON object; wrong values are there from the start.
    let bad = |k: usize| if k == 3 { json!("wrong") } else { json!(7) };
    let mut ops: Vec<POp> = vec![];
    for k in 0..4u8 {
        ops.extend([POp::Insert(k, 0), POp::Insert(k, 1), POp::Remove(k), POp::Get(k)]);
    }
    let readable = |k: u8, v: &Json| -> Result<Json, ()> {
        match k {
            3 => if v.is_array() { Ok(v.clone()) } else { Err(()) },
            _ => if v.is_string() { Ok(v.clone()) } else { Err(()) },
        }
    };
    let model = |m: &mut Map<String, Json>, op: POp| -> Option<Result<Json, ()>> {
        let (POp::Insert(k, _) | POp::Remove(k) | POp::Get(k)) = op;
        let key = PKEYS[k as usize];
        let before = m.get(key).cloned();
        match op {
            POp::Insert(k, v) => {
                m.insert(key.into(), pvalue(k, v));
            }
            POp::Remove(_) => {
                m.remove(key);
            }
            POp::Get(_) => {}
        }
        before.map(|b| readable(k, &b))
    };
    let mut states: BTreeSet<String> = BTreeSet::new();
    let (mut transitions, mut traces) = (0u64, 0u64);
    for mask in 0..16usize {
        let mut init = Map::new();
        init.insert("client_id".into(), json!("fixed"));
        for k in 0..4 {
            if mask >> k & 1 == 1 {
                init.insert(PKEYS[k].into(), bad(k));
            }
        }
        // Breadth first over the states reachable from here.
        let mut queue: VecDeque<(Map<String, Json>, Vec<POp>)> = VecDeque::new();
        let mut seen: BTreeSet<String> = BTreeSet::new();
        seen.insert(Json::Object(init.clone()).to_string());
        queue.push_back((init.clone(), vec![]));
        let max = c.pick(4, 6);
        while let Some((m, path)) = queue.pop_front() {
            states.insert(Json::Object(m.clone()).to_string());
            if path.len() >= max {
                continue;
            }
            for op in &ops {
                let mut m2 = m.clone();
                let want = model(&mut m2, *op);
                let mut p2 = path.clone();
                p2.push(*op);
                transitions += 1;
                traces += 1;
                c.case(format!("from {mask:04b}: {p2:?}"), || {
                    let mut o = object(Json::Object(init.clone()));
                    let copy = o.clone();
                    for op in &path {
                        let _ = p_apply(&mut o, *op)?;
                    }
                    let got = p_apply(&mut o, *op)?;
                    if got != want {
                        return Err(format!("returned {got:?}, expected {want:?}"));
                    }
                    if Json::from(o.clone()) != Json::Object(m2.clone()) {
                        return Err(format!("is now {}, expected {}", Json::from(o), Json::Object(m2.clone())));
                    }
                    for k in 0..4u8 {
                        let r = p_apply(&mut o, POp::Get(k))?;
                        let w = m2.get(PKEYS[k as usize]).map(|v| readable(k, v));
                        if r != w {
                            return Err(format!("{} reads as {r:?}, expected {w:?}", PKEYS[k as usize]));
                        }
                    }
                    if Json::from(copy) != Json::Object(init.clone()) {
                        return Err("a copy changed with it".into());
                    }
                    Ok(match op { POp::Insert(..) => "insert", POp::Remove(_) => "remove", POp::Get(_) => "get" }.into())
                });
                if seen.insert(Json::Object(m2.clone()).to_string()) {
                    queue.push_back((m2, p2));
                }
            }
        }
    }
    // Every sequence, without merging equal states, on request objects and metadata as well.
    let depth = c.pick(3, 4);
    let n = ops.len();
    for code in 0..n.pow(depth) {
        let mut x = code;
        let seq: Vec<POp> = (0..depth).map(|_| { let o = ops[x % n]; x /= n; o }).collect();
        traces += 1;
        c.case(format!("sequence {seq:?}"), || {
            let init = json!({"response_type": "vp_token", "nonce": "n", "response_mode": "dc_api", "authorization_endpoint": "openid4vp:", "vp_formats_supported": {}});
            let mut plain = object(init.clone());
            let mut aro = request_object(init.clone()).map_err(|e| format!("{e:#}"))?;
            let mut md: WalletMetadata = serde_json::from_value(init.clone()).map_err(|e| e.to_string())?;
            let mut m = init.as_object().unwrap().clone();
            for (i, op) in seq.iter().enumerate() {
                let want = model(&mut m, *op);
                for (what, got) in [("object", p_apply(&mut plain, *op)?), ("request", p_apply(&mut aro, *op)?), ("metadata", p_apply(&mut md, *op)?)] {
                    if got != want {
                        return Err(format!("step {i} on the {what}: {got:?}, expected {want:?}"));
                    }
                }
                for (what, got) in [("object", Json::from(plain.clone())), ("request", serde_json::to_value(&aro).unwrap()), ("metadata", serde_json::to_value(&md).unwrap())] {
                    if got != Json::Object(m.clone()) {
                        return Err(format!("step {i}: the {what} is {got}"));
                    }
                }
            }
            Ok("sequence".into())
        });
    }
    c.explored(states.len() as u64, transitions, traces);
}

// ---------------------------------------------------------------- C20

fn algorithm(name: &str) -> ssi_jwk::Algorithm {
    serde_json::from_value(json!(name)).unwrap()
}

#[derive(Clone, Debug, PartialEq)]
enum MOp {
    Alg(&'static str),
    Prefixes(Vec<&'static str>),
    SetFormat(&'static str, Json),
    RemoveFormat(&'static str),
    InsertOther(&'static str),
}

pub fn c20(c: &mut Ctx) {
    c.rule = "Every combination of values (right, wrong, absent) of authorization_endpoint, vp_formats_supported and the two lists, through every way of making metadata; from each made value every sequence of additions and edits up to a depth, the JSON model being compared after each step. Non-trivial: a distinct combination or sequence.".into();
    c.assumptions = vec![
        "after edits of the supported formats, only the accessor and the JSON are compared, not the parameter view".into(),
    ];
    let endpoints: Vec<Option<Json>> = vec![Some(json!("openid4vp:")), Some(json!("https://w.example/auth?x=1")), Some(json!("haip://")), None, Some(json!("")), Some(json!("w.example")), Some(json!(1)), Some(json!(null)), Some(json!(["openid4vp:"]))];
    let formats: Vec<Option<Json>> = vec![
        Some(json!({})),
        Some(json!({"mso_mdoc": {}})),
        Some(json!({"jwt_vc_json": {"alg_values": ["ES256", "ES256"]}, "ldp_vc": {"proof_type_values": ["x"]}, "dc+sd-jwt": {"sd-jwt_alg_values": ["ES256"]}, "é": null})),
        None,
        Some(json!("x")),
        Some(json!([])),
        Some(json!(null)),
        Some(json!(1)),
    ];
    let lists: Vec<Option<Json>> = vec![None, Some(json!([])), Some(json!(["ES256"])), Some(json!(["b", "a", "b"])), Some(json!("ES256")), Some(json!([1])), Some(json!(null))];
    let extra = [json!({}), json!({"issuer": "https://self-issued.me/v2", "x": {"y": [1, null]}, "response_types_supported": ["vp_token"]})];
    let good_list = |l: &Option<Json>| -> Option<Vec<String>> { l.as_ref().and_then(|l| serde_json::from_value(l.clone()).ok()) };
    let mut made: Vec<Json> = vec![];
    for e in &endpoints {
        for f in &formats {
            for a in &lists {
                for p in &lists {
                    for x in &extra {
                        let mut j = x.clone();
                        for (k, v) in [("authorization_endpoint", e), ("vp_formats_supported", f), ("request_object_signing_alg_values_supported", a), ("client_id_prefixes_supported", p)] {
                            if let Some(v) = v {
                                j[k] = v.clone();
                            }
                        }
                        let e_ok = e.as_ref().and_then(|e| e.as_str()).map(|s| Url::parse(s).is_ok()).unwrap_or(false);
                        let f_ok = f.as_ref().map(|f| f.is_object()).unwrap_or(false);
                        if e_ok && f_ok {
                            made.push(j.clone());
                        }
                        c.case(format!("made from {j}"), || {
                            let a1: Result<WalletMetadata, String> = serde_json::from_value(j.clone()).map_err(|e| e.to_string());
                            let a2: Result<WalletMetadata, String> = object(j.clone()).try_into().map_err(|e: anyhow::Error| format!("{e:#}"));
                            for got in [a1, a2] {
                                match got {
                                    Err(_) if !(e_ok && f_ok) => {}
                                    Err(e) => return Err(format!("refused: {e}")),
                                    Ok(_) if !(e_ok && f_ok) => return Err("made".into()),
                                    Ok(m) => agree(&m, &j, true)?,
                                }
                            }
                            if e_ok && f_ok {
                                // Made from parts, whatever the rest says about them.
                                let ep = AuthorizationEndpoint(Url::parse(j["authorization_endpoint"].as_str().unwrap()).unwrap());
                                let vf = VpFormatsSupported(serde_json::from_value(j["vp_formats_supported"].clone()).unwrap());
                                for other in 0..3 {
                                    let mut rest = j.clone();
                                    match other {
                                        0 => {
                                            rest.as_object_mut().unwrap().remove("authorization_endpoint");
                                            rest.as_object_mut().unwrap().remove("vp_formats_supported");
                                        }
                                        1 => {
                                            rest["authorization_endpoint"] = json!("https://other.example/");
                                            rest["vp_formats_supported"] = json!({"other": {}});
                                        }
                                        _ => {
                                            rest["authorization_endpoint"] = json!(7);
                                            rest["vp_formats_supported"] = json!("odd");
                                        }
                                    }
                                    let m = WalletMetadata::new(ep.clone(), vf.clone(), Some(object(rest)));
                                    agree(&m, &j, true)?;
                                }
                                if *x == json!({}) && a.is_none() && p.is_none() {
                                    agree(&WalletMetadata::new(ep, vf, None), &j, true)?;
                                }
                            }
                            Ok(if e_ok && f_ok { "made".into() } else { "refused".into() })
                        });
                    }
                }
            }
        }
    }
    c.case("openid4vp: static", || {
        let m = WalletMetadata::openid4vp_scheme_static();
        agree(&m, &json!({"authorization_endpoint": "openid4vp:", "response_types_supported": ["vp_token"], "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}}, "request_object_signing_alg_values_supported": ["ES256"]}), true)?;
        Ok("static".into())
    });
    for (name, alg) in ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "EdDSA", "ES256", "ES384", "ES256K", "none"].map(|n| (n, algorithm(n))) {
        c.case(format!("add algorithm {name}"), || {
            let mut m = metadata(json!({"request_object_signing_alg_values_supported": ["first"]}));
            m.add_request_object_signing_alg_values_supported(alg).map_err(|e| format!("{e:#}"))?;
            agree(&m, &json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {}, "request_object_signing_alg_values_supported": ["first", name]}), true)?;
            Ok("every algorithm".into())
        });
    }
    // Any text as a prefix.
    for t in texts_menu(c.pick(1, 2)).into_iter().chain(near_misses("x509_san_dns:")).chain(["x509_san_dns:", "x:y", "a,b", "pre-registered", "*", "X509_SAN_DNS"].map(String::from)) {
        c.case(format!("add prefix {t:?}"), || {
            let mut m = metadata(json!({"client_id_prefixes_supported": ["first"]}));
            m.add_client_id_prefixes_supported(&[ClientIdScheme(t.clone()), ClientIdScheme("last".into()), ClientIdScheme(t.clone())]).map_err(|e| format!("{e:#}"))?;
            agree(&m, &json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {}, "client_id_prefixes_supported": ["first", t, "last", t]}), true)?;
            Ok("any prefix".into())
        });
    }
    // Many additions, one by one and all at once, after lists of every length.
    for n in [1usize, 2, 7, 8, 9, 16, 17, 32, 50, 100, 256] {
        for given in [None, Some(0usize), Some(1), Some(n)] {
            c.case(format!("{n} additions to {given:?} entries"), || {
                let mut j = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"mso_mdoc": {}}, "issuer": "me"});
                if let Some(g) = given {
                    j["request_object_signing_alg_values_supported"] = (0..g).map(|i| json!(format!("A{i}"))).collect();
                    j["client_id_prefixes_supported"] = (0..g).map(|i| json!(format!("p{i}"))).collect();
                }
                let mut one: WalletMetadata = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
                let mut all = one.clone();
                let mut algs: Vec<Json> = j.get("request_object_signing_alg_values_supported").and_then(|l| l.as_array().cloned()).unwrap_or_default();
                let mut ps: Vec<Json> = j.get("client_id_prefixes_supported").and_then(|l| l.as_array().cloned()).unwrap_or(vec![json!("pre-registered")]);
                for i in 0..n {
                    let a = ["ES256", "EdDSA", "ES384"][i % 3];
                    one.add_request_object_signing_alg_values_supported(algorithm(a)).map_err(|e| format!("{e:#}"))?;
                    all.add_request_object_signing_alg_values_supported(algorithm(a)).map_err(|e| format!("{e:#}"))?;
                    one.add_client_id_prefixes_supported(&[ClientIdScheme(format!("q{}", i % 5))]).map_err(|e| format!("{e:#}"))?;
                    algs.push(json!(a));
                    ps.push(json!(format!("q{}", i % 5)));
                    j["request_object_signing_alg_values_supported"] = json!(algs);
                    j["client_id_prefixes_supported"] = json!(ps);
                    agree(&one, &j, true).map_err(|e| format!("after {} additions: {e}", i + 1))?;
                }
                all.add_client_id_prefixes_supported(&(0..n).map(|i| ClientIdScheme(format!("q{}", i % 5))).collect::<Vec<_>>()).map_err(|e| format!("{e:#}"))?;
                agree(&all, &j, true)?;
                Ok("many additions".into())
            });
        }
    }
    // Sequences.
    let ops: Vec<MOp> = vec![
        MOp::Alg("ES256"),
        MOp::Alg("EdDSA"),
        MOp::Prefixes(vec![]),
        MOp::Prefixes(vec!["x509_hash"]),
        MOp::Prefixes(vec!["redirect_uri", "x509_hash"]),
        MOp::SetFormat("mso_mdoc", json!({"x": 1})),
        MOp::SetFormat("jwt_vc_json", json!({"alg_values": ["EdDSA"]})),
        MOp::RemoveFormat("mso_mdoc"),
        MOp::InsertOther("changed"),
    ];
    let depth = c.pick(3usize, 4usize);
    let (mut states, mut transitions, mut traces) = (BTreeSet::new(), 0u64, 0u64);
    let starts: Vec<Json> = made.iter().enumerate().filter(|(i, _)| !c.quick() || i % 7 == 0).map(|(_, j)| j.clone()).collect();
    for start in &starts {
        let n = ops.len();
        let d = if c.quick() { 2 } else { depth };
        for code in 0..n.pow(d as u32) {
            let mut x = code;
            let seq: Vec<MOp> = (0..d).map(|_| { let o = ops[x % n].clone(); x /= n; o }).collect();
            run_metadata(c, start, &seq, &good_list, &mut states, &mut transitions);
            traces += 1;
        }
    }
    // Deeper from a few.
    for start in [made[0].clone(), made[made.len() / 2].clone(), made[made.len() - 1].clone()] {
        let n = ops.len();
        let d = depth + 1;
        for code in 0..n.pow(d as u32) {
            let mut x = code;
            let seq: Vec<MOp> = (0..d).map(|_| { let o = ops[x % n].clone(); x /= n; o }).collect();
            run_metadata(c, &start, &seq, &good_list, &mut states, &mut transitions);
            traces += 1;
        }
    }
    c.explored(states.len() as u64, transitions, traces);
}

fn run_metadata(c: &mut Ctx, start: &Json, seq: &[MOp], good_list: &dyn Fn(&Option<Json>) -> Option<Vec<String>>, states: &mut BTreeSet<u64>, transitions: &mut u64) {
    let mut visited = vec![];
    c.case(format!("{start} then {seq:?}"), || {
        let mut m: WalletMetadata = serde_json::from_value(start.clone()).map_err(|e| e.to_string())?;
        let mut model = start.clone();
        let mut view = true;
        let mut failed = false;
        for (i, op) in seq.iter().enumerate() {
            let add = |model: &mut Json, key: &str, default: &[&str], new: &[&str]| -> bool {
                let now_ = model.get(key).cloned();
                let list = match &now_ {
                    None => Some(default.iter().map(|s| s.to_string()).collect()),
                    l => good_list(l),
                };
                match list {
                    Some(mut l) => {
                        l.extend(new.iter().map(|s| s.to_string()));
                        model[key] = json!(l);
                        true
                    }
                    None => false,
                }
            };
            let (got, want) = match op {
                MOp::Alg(a) => (
                    m.add_request_object_signing_alg_values_supported(algorithm(a)).is_ok(),
                    add(&mut model, "request_object_signing_alg_values_supported", &[], &[a]),
                ),
                MOp::Prefixes(p) => (
                    m.add_client_id_prefixes_supported(&p.iter().map(|s| ClientIdScheme(s.to_string())).collect::<Vec<_>>()).is_ok(),
                    add(&mut model, "client_id_prefixes_supported", &["pre-registered"], p),
                ),
                MOp::SetFormat(k, v) => {
                    let p: ClaimFormatPayload = serde_json::from_value(v.clone()).unwrap();
                    m.vp_formats_supported_mut().0.insert(ClaimFormatDesignation::from(*k), p);
                    model["vp_formats_supported"][*k] = v.clone();
                    view = false;
                    (true, true)
                }
                MOp::RemoveFormat(k) => {
                    m.vp_formats_supported_mut().0.remove(&ClaimFormatDesignation::from(*k));
                    model["vp_formats_supported"].as_object_mut().unwrap().remove(*k);
                    view = false;
                    (true, true)
                }
                MOp::InsertOther(s) => {
                    m.insert(Issuer(s.to_string()));
                    model["issuer"] = json!(s);
                    (true, true)
                }
            };
            if got != want {
                return Err(format!("step {i}: ok={got}, expected {want}"));
            }
            failed |= !want;
            visited.push(crate::ctx::hash64(&model.to_string()));
            agree(&m, &model, view).map_err(|e| format!("step {i}: {e}"))?;
            agree(&m.clone(), &model, view).map_err(|e| format!("step {i}, cloned: {e}"))?;
        }
        Ok(format!("sequence, with a refusal={failed}"))
    });
    *transitions += seq.len() as u64;
    states.extend(visited);
}

/// Accessors, parameter view and JSON say what the model says.
fn agree(m: &WalletMetadata, want: &Json, view: bool) -> Result<(), String> {
    let j = serde_json::to_value(m).map_err(|e| e.to_string())?;
    if j != *want {
        return Err(format!("its JSON is {j}, expected {want}"));
    }
    let o = Json::from(UntypedObject::from(m.clone()));
    if o != *want {
        return Err(format!("as an object it is {o}"));
    }
    let url = Url::parse(want["authorization_endpoint"].as_str().unwrap()).unwrap();
    if m.authorization_endpoint().0 != url {
        return Err(format!("its endpoint is {}", m.authorization_endpoint().0));
    }
    let f = serde_json::to_value(&m.vp_formats_supported().0).unwrap();
    if f != want["vp_formats_supported"] {
        return Err(format!("its formats are {f}"));
    }
    for name in ["mso_mdoc", "jwt_vc_json", "ldp_vc", "dc+sd-jwt", "é", "x"] {
        let has = want["vp_formats_supported"].get(name).is_some();
        if m.vp_formats_supported().is_claim_format_supported(&name.into()) != has {
            return Err(format!("{name} supported={}", !has));
        }
    }
    if m.get::<AuthorizationEndpoint>().and_then(|r| r.ok()).map(|e| e.0) != Some(url) {
        return Err("the endpoint parameter".into());
    }
    if view {
        let v: Json = m.get::<VpFormatsSupported>().parsing_error().map_err(|e| format!("{e:#}"))?.try_into().map_err(|e: anyhow::Error| format!("{e:#}"))?;
        if v != want["vp_formats_supported"] {
            return Err(format!("the formats parameter is {v}"));
        }
    }
    // The lists, through the parameter view.
    let lists = [
        ("request_object_signing_alg_values_supported", m.get::<RequestObjectSigningAlgValuesSupported>().map(|r| r.ok().map(|l| l.0))),
        ("client_id_prefixes_supported", m.get::<ClientIdPrefixesSupported>().map(|r| r.ok().map(|l| l.0.into_iter().map(|p| p.0).collect()))),
    ];
    for (k, got) in lists {
        let w: Option<Option<Vec<String>>> = want.get(k).map(|v| serde_json::from_value(v.clone()).ok());
        if got != w {
            return Err(format!("{k} reads as {got:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn views<T: Clone + PartialEq + Debug + serde::Serialize + serde::de::DeserializeOwned>(v: &NonEmptyVec<T>, want: &[T]) -> Result<(), String> {
    let slice: &[T] = v;
    let by_ref: Vec<T> = v.into_iter().cloned().collect();
    let owned: Vec<T> = v.clone().into_iter().collect();
    let as_ref: &[T] = v.as_ref();
    for (what, got) in [
        ("deref", slice.to_vec()),
        ("as_ref", as_ref.to_vec()),
        ("iteration", by_ref),
        ("owned iteration", owned),
        ("into_inner", v.clone().into_inner()),
        ("Vec::from", Vec::from(v.clone())),
        ("iter()", v.iter().cloned().collect()),
    ] {
        if got.is_empty() {
            return Err(format!("{what} shows an empty list"));
        }
        if got != want {
            return Err(format!("{what} shows {got:?}, expected {want:?}"));
        }
    }
    if v.len() != want.len() || v.first() != want.first() || v.last() != want.last() || v.is_empty() {
        return Err("len, first or last".into());
    }
    let j = serde_json::to_value(v).map_err(|e| e.to_string())?;
    if j != serde_json::to_value(want).unwrap() {
        return Err(format!("its JSON is {j}"));
    }
    if v.clone() != *v {
        return Err("differs from its clone".into());
    }
    Ok(())
}

/// The same elements in a vector that once held more.
fn roomy<T: Clone>(l: &[T]) -> Vec<T> {
    let mut v: Vec<T> = Vec::with_capacity(l.len() + 9);
    for _ in 0..2 {
        v.extend_from_slice(l);
    }
    v.truncate(l.len());
    v
}

fn c21_for<T: Clone + PartialEq + Debug + Default + serde::Serialize + serde::de::DeserializeOwned>(c: &mut Ctx, name: &str, alphabet: &[T], n: usize, pushes: usize) {
    // All lists up to n.
    let mut lists: Vec<Vec<T>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = lists.len();
        for i in from..to {
            for a in alphabet {
                let mut l = lists[i].clone();
                l.push(a.clone());
                lists.push(l);
            }
        }
        from = to;
    }
    let tails: Vec<Vec<T>> = lists.iter().filter(|l| l.len() <= pushes).cloned().collect();
    for l in &lists {
        let j = serde_json::to_value(l).unwrap();
        let made: Vec<(&str, Option<NonEmptyVec<T>>)> = vec![
            ("maybe_new", NonEmptyVec::maybe_new(l.clone())),
            ("try_from", NonEmptyVec::try_from(l.clone()).ok()),
            ("JSON", serde_json::from_value(j.clone()).ok()),
            ("JSON text", serde_json::from_str(&j.to_string()).ok()),
            ("new and push", l.first().map(|f| {
                let mut v = NonEmptyVec::new(f.clone());
                for x in &l[1..] {
                    v.push(x.clone());
                }
                v
            })),
            ("clone", NonEmptyVec::maybe_new(l.clone()).map(|v| v.clone())),
            ("maybe_new of a roomy list", NonEmptyVec::maybe_new(roomy(l))),
            ("try_from a roomy list", NonEmptyVec::try_from(roomy(l)).ok()),
        ];
        for other in lists.iter().filter(|o| !o.is_empty() && !l.is_empty() && o.len() + l.len() <= 6) {
            c.case(format!("{name} {l:?} and {other:?}"), || {
                let (Some(a), Some(b)) = (NonEmptyVec::maybe_new(l.clone()), NonEmptyVec::maybe_new(other.clone())) else { return Err("refused".into()) };
                if (a == b) != (l == other) || (a != b) != (l != other) || (b == a) != (l == other) {
                    return Err(format!("equal: {}", a == b));
                }
                Ok(format!("equal: {}", a == b))
            });
        }
        for (how, v) in made {
            c.case(format!("{name} {l:?} by {how}"), || {
                match v {
                    None if l.is_empty() => Ok("empty refused".into()),
                    None => Err("refused".into()),
                    Some(v) if l.is_empty() => Err(format!("made from nothing: {v:?}")),
                    Some(v) => {
                        views(&v, l)?;
                        for t in &tails {
                            let mut w = v.clone();
                            let mut want = l.clone();
                            for x in t {
                                w.push(x.clone());
                                want.push(x.clone());
                                views(&w, &want)?;
                            }
                            views(&v, l)?;
                        }
                        Ok("made".into())
                    }
                }
            });
        }
    }
    c.case(format!("{name} default"), || {
        let mut v = NonEmptyVec::<T>::default();
        if v.is_empty() || v.iter().next().is_none() || v.clone().into_inner().is_empty() {
            return Err("the default is empty".into());
        }
        let before: Vec<T> = v.to_vec();
        views(&v, &before)?;
        v.push(alphabet[0].clone());
        let mut want = before;
        want.push(alphabet[0].clone());
        views(&v, &want)?;
        let o: Option<NonEmptyVec<T>> = Default::default();
        if o.is_some() {
            return Err("?".into());
        }
        let m: HashMap<u8, NonEmptyVec<T>> = HashMap::new();
        let d = m.get(&0).cloned().unwrap_or_default();
        if d.is_empty() {
            return Err("unwrap_or_default is empty".into());
        }
        Ok("default".into())
    });
}

pub fn c21(c: &mut Ctx) {
    c.rule = "Every list up to a length over a two-value alphabet, for three element types, by every constructor, followed by every sequence of pushes up to a length; JSON that is no list. Non-trivial: a distinct list and constructor.".into();
    let n = c.pick(5, 7);
    let p = c.pick(2, 3);
    c21_for::<u8>(c, "u8", &[0, 255], n, p);
    c21_for::<String>(c, "String", &["".into(), "é".into()], n, p);
    c21_for::<Vec<String>>(c, "Vec<String>", &[vec![], vec!["a".into()]], n, p);
    c21_for::<Json>(c, "JSON", &[json!(null), json!([])], n, p);
    c21_for::<()>(c, "()", &[()], c.pick(9, 40), p);
    c21_for::<Option<u8>>(c, "Option<u8>", &[None, Some(0)], n, p);
    c21_for::<bool>(c, "bool", &[false, true], n, p);
    // Long lists, grown one by one or made at once.
    for n in (1..=c.pick(70usize, 300)).chain([127, 128, 129, 255, 256, 257, 1000, 1025]) {
        c.case(format!("a list of {n}"), || {
            let want: Vec<String> = (0..n).map(|i| format!("{i}")).collect();
            let j = json!(want);
            let mut grown = NonEmptyVec::new(want[0].clone());
            for x in &want[1..] {
                grown.push(x.clone());
            }
            for (how, v) in [
                ("pushes", Some(grown)),
                ("maybe_new", NonEmptyVec::maybe_new(want.clone())),
                ("try_from", NonEmptyVec::try_from(want.clone()).ok()),
                ("JSON", serde_json::from_value(j.clone()).ok()),
                ("JSON text", serde_json::from_str(&j.to_string()).ok()),
                ("roomy", NonEmptyVec::maybe_new(roomy(&want))),
            ] {
                let mut v = v.ok_or(format!("refused by {how}"))?;
                views(&v, &want).map_err(|e| format!("{how}: {e}"))?;
                let mut more = want.clone();
                for i in 0..3 {
                    v.push(format!("more {i}"));
                    more.push(format!("more {i}"));
                    views(&v, &more).map_err(|e| format!("{how}, pushed: {e}"))?;
                }
            }
            Ok("long".into())
        });
    }
    for j in [json!(null), json!(1), json!("x"), json!({}), json!({"0": 1}), json!([[]]), json!([null]), json!(["x"]), json!([1, "x"]), json!([256]), json!([-1]), json!([1.5])] {
        c.case(format!("u8 JSON {j}"), || match serde_json::from_value::<NonEmptyVec<u8>>(j.clone()) {
            Ok(v) => Err(format!("{v:?}")),
            Err(_) => Ok("not a list of bytes".into()),
        });
    }
    // Inside other types.
    for j in [json!([]), json!([[]]), json!([[1], []]), json!([[], [1]])] {
        c.case(format!("nested {j}"), || match serde_json::from_value::<NonEmptyVec<NonEmptyVec<u8>>>(j.clone()) {
            Ok(v) => Err(format!("{v:?}")),
            Err(_) => Ok("nested empty refused".into()),
        });
    }
    c.case("nested default", || {
        let v = NonEmptyVec::<NonEmptyVec<u8>>::default();
        if v.is_empty() || v[0].is_empty() {
            return Err("empty".into());
        }
        Ok("default".into())
    });
    c.case("optional", || {
        let v: Option<NonEmptyVec<u8>> = serde_json::from_value(json!(null)).map_err(|e| e.to_string())?;
        if v.is_some() || serde_json::from_value::<Option<NonEmptyVec<u8>>>(json!([])).is_ok() {
            return Err("optional".into());
        }
        Ok("optional".into())
    });
}

// ---------------------------------------------------------------- C29

/// A random source that yields what it is told and then an equidistributed tail.
#[derive(Clone)]
struct Stream {
    given: Vec<u32>,
    at: usize,
    tail: u32,
    used: u64,
}

impl Stream {
    fn new(given: Vec<u32>) -> Self {
        Stream { given, at: 0, tail: 12345, used: 0 }
    }
}

impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        self.used += 1;
        if self.at < self.given.len() {
            self.at += 1;
            return self.given[self.at - 1];
        }
        self.tail = self.tail.wrapping_mul(1664525).wrapping_add(1013904223);
        self.tail
    }
    fn next_u64(&mut self) -> u64 {
        let lo = self.next_u32() as u64;
        let hi = self.next_u32() as u64;
        hi << 32 | lo
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// 2^16 values whose upper and whose lower halves each run through all 2^16 values.
fn grid() -> Vec<u32> {
    (0..1u32 << 16)
        .map(|i| {
            let hi = i.wrapping_mul(40503) & 0xffff;
            let lo = (hi.reverse_bits() >> 16).wrapping_mul(25173) & 0xffff;
            hi << 16 | lo
        })
        .collect()
}

fn nonce(s: &mut Stream, n: usize) -> String {
    Nonce::random(s, n).to_string()
}

fn shape(s: &str, n: usize) -> Result<(), String> {
    if s.chars().count() != n || s.len() != n {
        return Err(format!("{} characters instead of {n}", s.chars().count()));
    }
    match s.chars().find(|c| !c.is_ascii_alphanumeric()) {
        Some(c) => Err(format!("contains {c:?}")),
        None => Ok(()),
    }
}

pub fn c29(c: &mut Ctx) {
    c.rule = "Every length of a range; the full cycle of 2^16 grid values of the random source, whose character counts are compared; for every two positions of an eight-character nonce every pair of 64 source values (thorough: 256 for two-character nonces), all pairs of characters having to occur; the source replayed. Non-trivial: a distinct source stream.".into();
    c.assumptions = vec![
        "the source of randomness is enumerated on a grid, so a bias below a few per cent is not seen".into(),
        "a nonce consumes at least one source value per character".into(),
    ];
    let max = c.pick(300, 2000);
    for n in (0..=max).chain([4096, 10_000]) {
        for seed in 0..4u32 {
            c.case(format!("length {n}, source {seed}"), || {
                let mut s = Stream::new(vec![]);
                s.tail = seed.wrapping_mul(0x9E3779B9);
                let mut s2 = s.clone();
                let a = nonce(&mut s, n);
                shape(&a, n)?;
                if a != nonce(&mut s2, n) {
                    return Err("the same source gave another nonce".into());
                }
                if n > 20 {
                    let b = nonce(&mut s, n);
                    if a == b {
                        return Err("the same nonce again".into());
                    }
                }
                Ok("length".into())
            });
        }
    }
    // Constant and extreme sources. (A source that is constant at a rejected value never ends.)
    for v in (0..64u32).map(|i| i << 26) {
        c.case(format!("source starts with {v:#x}"), || {
            let a = nonce(&mut Stream::new(vec![v; 16]), 16);
            shape(&a, 16)?;
            Ok("constant start".into())
        });
    }
    // Uniformity over one full cycle: as many characters as the cycle yields.
    let g = grid();
    for rot in [0usize, 1, 777, 40000] {
        c.case(format!("full cycle from {rot}"), || {
            let mut cyc = g.clone();
            cyc.rotate_left(rot);
            // Draw one character at a time until the cycle is used up.
            let mut s = Stream::new(cyc);
            let mut count: BTreeMap<char, u64> = BTreeMap::new();
            let mut total = 0u64;
            while s.at < s.given.len() {
                let t = nonce(&mut s, 1);
                shape(&t, 1)?;
                *count.entry(t.chars().next().unwrap()).or_default() += 1;
                total += 1;
            }
            uniform(&count, total)?;
            Ok("uniform, one at a time".into())
        });
        c.case(format!("full cycle from {rot}, in one nonce"), || {
            let mut cyc = g.clone();
            cyc.rotate_left(rot);
            let t = nonce(&mut Stream::new(cyc), 60_000);
            shape(&t, 60_000)?;
            let mut count: BTreeMap<char, u64> = BTreeMap::new();
            for ch in t.chars() {
                *count.entry(ch).or_default() += 1;
            }
            uniform(&count, 60_000)?;
            Ok("uniform, in one".into())
        });
    }
    // Each position on its own: the other positions are fixed.
    let len = 8;
    // A character may take several source values: all of its values are set alike.
    let fixed = |i: usize| (i as u32 * 7 + 3) << 26;
    let per = |n: usize| {
        let mut s = Stream::new(vec![fixed(0); n * 8]);
        nonce(&mut s, n);
        (s.used as usize).div_ceil(n).max(1)
    };
    let k = per(len);
    let base: Vec<u32> = (0..len).flat_map(|i| vec![fixed(i); k]).collect();
    for i in 0..len {
        for j in i + 1..len {
            c.case(format!("positions {i} and {j} of {len}"), || {
                let mut pairs: BTreeMap<(char, char), u64> = BTreeMap::new();
                let steps = 64u32;
                for a in 0..steps {
                    for b in 0..steps {
                        let mut given = base.clone();
                        given[k * i..k * i + k].fill(a << 26);
                        given[k * j..k * j + k].fill(b << 26);
                        let t: Vec<char> = nonce(&mut Stream::new(given), len).chars().collect();
                        *pairs.entry((t[i], t[j])).or_default() += 1;
                    }
                }
                if pairs.len() != 62 * 62 {
                    return Err(format!("only {} of {} pairs of characters occur", pairs.len(), 62 * 62));
                }
                let top = pairs.values().max().unwrap();
                if *top > 160 {
                    return Err(format!("one pair occurs {top} times"));
                }
                Ok("all pairs".into())
            });
        }
    }
    let steps: u32 = c.pick(128, 512);
    let k = per(2);
    c.case(format!("two characters, {steps} x {steps}"), || {
        let sh = 32 - steps.trailing_zeros();
        let mut pairs: BTreeMap<(char, char), u64> = BTreeMap::new();
        for a in 0..steps {
            for b in 0..steps {
                let t: Vec<char> = nonce(&mut Stream::new([vec![a << sh; k], vec![b << sh; k]].concat()), 2).chars().collect();
                *pairs.entry((t[0], t[1])).or_default() += 1;
            }
        }
        if pairs.len() != 62 * 62 {
            return Err(format!("only {} pairs of characters occur", pairs.len()));
        }
        Ok("all pairs".into())
    });
    // And through a request.
    for n in [0usize, 1, 16, 32, 128] {
        for via in [super::wallet::Via::Value, super::wallet::Via::Reference, super::wallet::Via::Query, super::wallet::Via::Object] {
            c.case(format!("a request with a nonce of {n}, {via:?}"), || {
                let v = Nonce::random(&mut Stream::new(vec![]), n);
                let text = v.to_string();
                let mut o = object(json!({"response_type": "vp_token", "response_mode": "direct_post", "response_uri": "https://v.example/s", "client_id": "abc"}));
                o.insert(v);
                let body = Json::from(o);
                let jwt = super::wallet::token(r#"{"alg":"ES256","typ":"oauth-authz-req+jwt"}"#, &body.to_string());
                let w = TestWallet::new(metadata(json!({})), super::wallet::serving(super::wallet::REQUEST_URI, &jwt), true);
                let got = super::wallet::validate(&w, via, Some("abc"), &body, &jwt)?;
                if got.nonce().as_str() != text || body["nonce"] != json!(text) {
                    return Err(format!("{} became {}", text, got.nonce()));
                }
                Ok("through a request".into())
            });
        }
    }
    let _ = now(async {});
}

fn uniform(count: &BTreeMap<char, u64>, total: u64) -> Result<(), String> {
    if count.len() != 62 {
        return Err(format!("only {} of 62 characters occur", count.len()));
    }
    let mean = total as f64 / 62.0;
    for (ch, n) in count {
        if (*n as f64 - mean).abs() > mean * 0.08 {
            return Err(format!("{ch:?} occurs {n} times in {total}, {mean:.0} expected"));
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: ClaimFormatMap) {}
