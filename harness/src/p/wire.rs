//! C09, C11: the wire forms of authorization requests and responses.
use crate::ctx::Ctx;
use crate::env::*;
use crate::p::wallet::form;
use openid4vp::core::authorization_request::parameters::State;
use openid4vp::core::authorization_request::{AuthorizationRequest, RequestIndirection};
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use openid4vp::core::response::*;
use serde_json::{json, Map, Value as Json};
use std::collections::{BTreeMap, HashMap};
use url::Url;

/// The authority and path of a URL's text.
fn place(u: &str) -> (String, String, String) {
    let (scheme, rest) = u.split_once(':').unwrap();
    let end = rest.find(['?', '#']).unwrap_or(rest.len());
    let rest = &rest[..end];
    let (authority, path) = match rest.strip_prefix("//") {
        Some(r) => match r.find('/') {
            Some(i) => (&r[..i], &r[i..]),
            None => (r, ""),
        },
        None => ("", rest),
    };
    (scheme.into(), authority.into(), path.into())
}

/// Every byte escaped.
fn escaped(s: &str, upper: bool) -> String {
    s.bytes().map(|b| if upper { format!("%{b:02X}") } else { format!("%{b:02x}") }).collect()
}

#[derive(Clone)]
enum Content {
    Value(String),
    Reference(String),
    Direct(Vec<(String, String)>),
}

impl Content {
    fn params(&self) -> Vec<(String, String)> {
        match self {
            Content::Value(s) => vec![("request".into(), s.clone())],
            Content::Reference(u) => vec![("request_uri".into(), u.clone())],
            Content::Direct(p) => p.clone(),
        }
    }
    fn label(&self) -> String {
        match self {
            Content::Value(s) => format!("by value {s:?}"),
            Content::Reference(u) => format!("by reference {u:?}"),
            Content::Direct(p) => format!("plain {p:?}"),
        }
    }
    fn indirection(&self) -> RequestIndirection {
        match self {
            Content::Value(s) => RequestIndirection::ByValue { request: s.clone() },
            Content::Reference(u) => RequestIndirection::ByReference { request_uri: u.parse().unwrap() },
            Content::Direct(p) => {
                let m: Map<String, Json> = p.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
                RequestIndirection::Direct(object(Json::Object(m)))
            }
        }
    }
    fn same(&self, r: &RequestIndirection) -> Result<(), String> {
        let ok = match (self, r) {
            (Content::Value(s), RequestIndirection::ByValue { request }) => s == request,
            (Content::Reference(u), RequestIndirection::ByReference { request_uri }) => Url::parse(u).unwrap() == *request_uri && request_uri.as_str() == Url::parse(u).unwrap().as_str(),
            (Content::Direct(p), RequestIndirection::Direct(o)) => {
                let want: BTreeMap<String, Json> = p.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
                let got: BTreeMap<String, Json> = serde_json::to_value(o).unwrap().as_object().unwrap().clone().into_iter().collect();
                want == got
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("parsed as {r:?}"))
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Content::Value(_) => "by value",
            Content::Reference(_) => "by reference",
            Content::Direct(_) => "plain",
        }
    }
}

fn one_url(id: &Option<String>, content: &Content, endpoint: &Url) -> Result<String, String> {
    let r = AuthorizationRequest { client_id: id.clone(), request_indirection: content.indirection() };
    let url = r.clone().to_url(endpoint.clone()).map_err(|e| format!("to_url failed: {e:#}"))?;
    if place(url.as_str()) != place(endpoint.as_str()) {
        return Err(format!("the URL {url} is elsewhere than the endpoint"));
    }
    let query = url.query().ok_or("the URL has no query")?.to_string();
    let got = form(query.as_bytes())?;
    let mut want: BTreeMap<String, String> = content.params().into_iter().collect();
    if let Content::Reference(u) = content {
        want.insert("request_uri".into(), Url::parse(u).unwrap().to_string());
    }
    if let Some(id) = id {
        want.insert("client_id".into(), id.clone());
    }
    if got != want {
        return Err(format!("the URL's query says {got:?}, should be {want:?}"));
    }
    let reparsed: Url = url.as_str().parse().map_err(|e| format!("its URL does not parse: {e}"))?;
    // The same parameters in another order and another escaping.
    let pairs: Vec<(String, String)> = want.into_iter().collect();
    let forwards: Vec<String> = pairs.iter().map(|(k, v)| format!("{}={}", escaped(k, true), escaped(v, true))).collect();
    let backwards: Vec<String> = pairs.iter().rev().map(|(k, v)| format!("{}={}", escaped(k, false), escaped(v, false))).collect();
    for (how, back) in [
        ("from_url", AuthorizationRequest::from_url(url.clone(), endpoint)),
        ("from_url of the URL's text", AuthorizationRequest::from_url(reparsed, endpoint)),
        ("from_query_params", AuthorizationRequest::from_query_params(&query)),
        ("from_query_params, all escaped", AuthorizationRequest::from_query_params(&forwards.join("&"))),
        ("from_query_params, reordered", AuthorizationRequest::from_query_params(&backwards.join("&"))),
    ] {
        let back = back.map_err(|e| format!("{how} refuses {url}: {e:#}"))?;
        if back.client_id != *id {
            return Err(format!("{how}: client_id {:?} became {:?}", id, back.client_id));
        }
        content.same(&back.request_indirection).map_err(|e| format!("{how}: {e}"))?;
    }
    Ok(format!("{}{}", content.kind(), if id.is_some() { "" } else { ", no client_id" }))
}

pub fn c09(c: &mut Ctx) {
    c.rule = "Every text over an alphabet of characters with a meaning in URLs and forms, up to a length, as client_id, signed request, parameter name and parameter value, on every endpoint of a list; every pair of endpoint and URL out of a list for the refusals. Non-trivial: a distinct request and endpoint.".into();
    c.assumptions = vec![
        "plain parameters are texts and are not named request, request_uri or client_id".into(),
        "URL syntax (the url crate) is trusted".into(),
        "whether the scheme of a parsed URL is checked is left open".into(),
    ];
    let endpoints: Vec<Url> = ["openid4vp://", "openid4vp:", "haip://authorize", "https://w.example/authorize", "https://u:p@w.example:8443/a/b/", "https://w.example/a%20b?own=1&client_id=evil&request=evil#frag", "mdoc-openid4vp:/x/y"]
        .iter().map(|s| s.parse().unwrap()).collect();
    let alphabet = ["a", "&", "=", "+", "%", " ", "#", "?", "é", "\u{0}", "/", ";", "%41", "\"", "[", "~", "𝄞", "\r\n", "."];
    let texts = strings(&alphabet, c.pick(2, 3));
    let few = ["", "abc", "x509_san_dns:v.example", "a&client_id=b", "&request=e", "%26+é", "redirect_uri:https://v.example/a?b=c&d#e"];
    let long = "x".repeat(5000);
    let ids: Vec<Option<String>> = std::iter::once(None).chain(few.iter().map(|s| Some(s.to_string()))).collect();
    let urls = ["https://v.example/request/1", "https://v.example/?a=b&c=d%26e+f#g", "https://u:p@v.example:1/é", "did:x:y", "data:,a&request=b", "https://v.example/%F0%9D%84%9E?%"];
    let id = Some("x509_san_dns:v.example".to_string());
    for (ei, e) in endpoints.iter().enumerate() {
        let mut run = |id: &Option<String>, content: &Content| {
            c.case(format!("{} client_id={id:?} endpoint#{ei}", content.label()), || one_url(id, content, e));
        };
        for t in &texts {
            run(&id, &Content::Value(t.clone()));
            run(&Some(t.clone()), &Content::Value("h.b.s".into()));
            run(&Some(t.clone()), &Content::Reference(urls[0].into()));
            run(&Some(t.clone()), &Content::Direct(vec![("nonce".into(), t.clone())]));
            run(&id, &Content::Direct(vec![(t.clone(), "v".into()), ("nonce".into(), t.clone())]));
            run(&None, &Content::Direct(vec![(t.clone(), t.clone())]));
            run(&id, &Content::Reference(format!("https://v.example/?x={}", escaped(t, true))));
        }
        for i in &ids {
            for u in &urls {
                run(i, &Content::Reference(u.to_string()));
            }
            for a in few {
                run(i, &Content::Value(a.into()));
                for b in few {
                    run(i, &Content::Direct(vec![("state".into(), a.into()), ("nonce".into(), b.into()), ("request_uri_method".into(), "post".into()), ("dcql_query".into(), json!({"credentials": [a]}).to_string())]));
                }
            }
            run(i, &Content::Direct(vec![]));
            run(i, &Content::Value(long.clone()));
            run(i, &Content::Direct(vec![("dcql_query".into(), long.clone()), (long.clone(), "".into())]));
        }
    }
    // Every URL of a list, to the request and as the endpoint.
    for u in http_urls(!c.quick()) {
        let content = Content::Reference(u.clone());
        c.case(format!("{} client_id={id:?}", content.label()), || one_url(&id, &content, &endpoints[0]));
        let e: Url = u.parse().unwrap();
        c.case(format!("endpoint {}", &u[..u.len().min(80)]), || one_url(&id, &Content::Value("h.b.s".into()), &e));
    }
    // Every text of a list, one place at a time.
    for t in texts_menu(c.pick(1, 2)) {
        for (ei, e) in [&endpoints[0], &endpoints[3]].into_iter().enumerate() {
            for (i, content) in [
                (id.clone(), Content::Value(t.clone())),
                (Some(t.clone()), Content::Value("h.b.s".into())),
                (Some(t.clone()), Content::Direct(vec![("nonce".into(), "n".into())])),
                (id.clone(), Content::Direct(vec![("state".into(), t.clone()), ("nonce".into(), "n".into())])),
            ] {
                let (short, long) = (t.chars().take(30).collect::<String>(), t.len());
                c.case(format!("text {short:?}×{long} {} client_id={} endpoint {ei}", content.kind(), i.as_ref() == Some(&t)), || one_url(&i, &content, e));
            }
        }
    }
    // Every text of at most two ASCII characters, in each place, and the same unescaped.
    let pairs: Vec<(String, String)> = ascii_pairs().into_iter().map(|t| (format!("ASCII {t:?}"), t)).collect();
    let (e0, e3) = (endpoints[0].clone(), endpoints[3].clone());
    c.cases(pairs.clone(), |t| {
        one_url(&Some(t.clone()), &Content::Value(t.clone()), &e0)?;
        one_url(&Some(format!("x{t}")), &Content::Direct(vec![("state".into(), t.clone()), (format!("p{t}"), format!("{t}y"))]), &e3)?;
        Ok("every pair".into())
    });
    c.cases(pairs.into_iter().map(|(l, t)| (format!("{l}, not escaped"), t)).collect(), |t| {
        if t.chars().any(|x| x.is_ascii_control() || " &+%#".contains(x)) {
            return Ok("has to be escaped".into());
        }
        for (q, want) in [
            (format!("client_id={t}&request={t}"), Content::Value(t.clone())),
            (format!("nonce=a{t}b&client_id={t}&state={t}"), Content::Direct(vec![("nonce".into(), format!("a{t}b")), ("state".into(), t.clone())])),
            (format!("client_id={t}&request_uri=https://v.example/r?a{}", t), Content::Reference(format!("https://v.example/r?a{}", t))),
        ] {
            let mut got = vec![("from_query_params", AuthorizationRequest::from_query_params(&q))];
            for e in [&e0, &e3] {
                let text = format!("{e}?{q}");
                let url: Url = text.parse().map_err(|e| format!("{text}: {e}"))?;
                got.push(("from_url", AuthorizationRequest::from_url(url, e)));
            }
            for (how, got) in got {
                let got = got.map_err(|e| format!("{how} refuses {q}: {e:#}"))?;
                if got.client_id.as_deref() != Some(t.as_str()) {
                    return Err(format!("{how} of {q}: client_id {:?}", got.client_id));
                }
                want.same(&got.request_indirection).map_err(|e| format!("{how} of {q}: {e}"))?;
            }
        }
        Ok("not escaped".into())
    });
    // Much in one URL.
    for n in [2usize, 9, 10, 16, 17, 32, 33, 64, 65, 100, 257, 1000, 1025, 5000] {
        for (what, content) in [
            ("parameters", Content::Direct((0..n).map(|i| (format!("p{i}"), format!("v&{i}"))).collect())),
            ("parameters with long values", Content::Direct((0..n.min(200)).map(|i| (format!("p{i}"), format!("{i} é").repeat(n))).collect())),
            ("characters by value", Content::Value("h.b+/=".repeat(n))),
            ("characters by reference", Content::Reference(format!("https://v.example/{}?{}", "p/".repeat(n), "q=%26&".repeat(n)))),
            ("characters of a name", Content::Direct(vec![("n é".repeat(n), "v".into()), ("n".into(), "w".into())])),
        ] {
            for i in [Some("x509_san_dns:v.example".to_string()), Some("é:&".repeat(n)), None] {
                for (ei, e) in [&endpoints[0], &endpoints[5]].into_iter().enumerate() {
                    c.case(format!("{n} {what}, client_id of {:?}, endpoint {ei}", i.as_ref().map(|i| i.len())), || one_url(&i, &content, e));
                }
            }
        }
    }
    // Long endpoints: every place where the URL may differ from it.
    for n in [10usize, 60, 300] {
        let base = format!("https://{}.example/{}", "w".repeat(n.min(60)), "abcdefghij/".repeat(n / 10));
        let endpoint: Url = base.parse().unwrap();
        for at in 0..base.len() {
            let mut t: Vec<u8> = base.clone().into_bytes();
            t[at] = if t[at] == b'z' { b'y' } else { b'z' };
            let t = String::from_utf8(t).unwrap();
            let Ok(url) = Url::parse(&format!("{t}?client_id=c&request=h.b.s")) else { continue };
            c.case(format!("an endpoint of {} characters, another one at {at}", base.len()), || {
                let got = AuthorizationRequest::from_url(url.clone(), &endpoint);
                let ((us, ua, up), (es, ea, ep)) = (place(url.as_str()), place(endpoint.as_str()));
                match got {
                    Ok(r) if ua != ea || up != ep => Err(format!("parsed, as {r:?}")),
                    Err(e) if us == es && ua == ea && up == ep => Err(format!("refused: {e:#}")),
                    Ok(_) => Ok("parsed".into()),
                    Err(_) => Ok("refused".into()),
                }
            });
        }
    }
    // Where a request may come from: every near miss of an endpoint.
    for b in ["https://w.example:8443/authorize/x", "openid4vp://authorize", "openid4vp:"] {
        let endpoint: Url = b.parse().unwrap();
        for n in near_misses(b) {
            let Ok(url) = Url::parse(&format!("{n}?client_id=c&request=h.b.s")) else { continue };
            if url.query() != Some("client_id=c&request=h.b.s") {
                continue;
            }
            c.case(format!("near miss {n:?} at {b}"), || {
                let got = AuthorizationRequest::from_url(url.clone(), &endpoint);
                let (us, ua, up) = place(url.as_str());
                let (es, ea, ep) = place(endpoint.as_str());
                match got {
                    Ok(r) if ua != ea || up != ep => Err(format!("parsed, as {r:?}")),
                    Err(e) if us == es && ua == ea && up == ep => Err(format!("refused: {e:#}")),
                    Ok(_) => Ok("parsed".into()),
                    Err(_) => Ok("refused".into()),
                }
            });
        }
    }
    let bases = ["https://w.example/authorize", "https://w.example/authorize/", "https://w.example/Authorize", "https://w.example/", "https://w.example:444/authorize", "https://u@w.example/authorize", "https://u:p@w.example/authorize", "https://w.example.evil/authorize", "https://evil/authorize", "https://w.example/a/authorize", "https://w.example/authoriz", "https://w-example/authorize", "openid4vp://", "openid4vp://authorize", "openid4vp://w.example/authorize", "openid4vp://w.example", "openid4vp:", "openid4vp:x", "openid4vp:/authorize", "openid4vp:///", "https://W.Example:443/authorize", "https://w.example/authorize%2F", "https://w.example/%61uthorize", "https://w.example/x/../authorize"];
    let queries = ["?client_id=c&request=h.b.s", "?request=h.b.s&client_id=c#frag", "?", "", "#client_id=c&request=h.b.s", "?nonce=n"];
    for b in &bases {
        for e in &bases {
            for q in &queries {
                c.case(format!("{b}{q} at {e}"), || {
                    let endpoint: Url = e.parse().unwrap();
                    let url: Url = format!("{b}{q}").parse().unwrap();
                    let got = AuthorizationRequest::from_url(url.clone(), &endpoint);
                    let (us, ua, up) = place(url.as_str());
                    let (es, ea, ep) = place(endpoint.as_str());
                    if !q.starts_with('?') || ua != ea || up != ep {
                        return match got {
                            Ok(r) => Err(format!("parsed, as {r:?}")),
                            Err(_) => Ok("refused".into()),
                        };
                    }
                    if us != es {
                        return Ok("another scheme: left open".into());
                    }
                    let got = got.map_err(|e| format!("refused: {e:#}"))?;
                    let (want_id, want) = match *q {
                        "?" => (None, Content::Direct(vec![])),
                        "?nonce=n" => (None, Content::Direct(vec![("nonce".into(), "n".into())])),
                        _ => (Some("c".to_string()), Content::Value("h.b.s".into())),
                    };
                    if got.client_id != want_id {
                        return Err(format!("client_id {:?}", got.client_id));
                    }
                    want.same(&got.request_indirection)?;
                    Ok("parsed".into())
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C11

type Presentations = Vec<(String, Vec<Json>)>;

fn item(v: &Json) -> VpTokenItem {
    match v {
        Json::String(s) => VpTokenItem::String(s.clone()),
        Json::Object(o) => VpTokenItem::JsonObject(o.clone()),
        _ => unreachable!(),
    }
}

fn item_json(i: &VpTokenItem) -> Json {
    match i {
        VpTokenItem::String(s) => json!(s),
        VpTokenItem::JsonObject(o) => Json::Object(o.clone()),
    }
}

fn token_view(t: &VpToken) -> BTreeMap<String, Vec<Json>> {
    t.iter().map(|(k, v)| (k.clone(), v.iter().map(item_json).collect())).collect()
}

fn one_plain(p: &Presentations, state: &Option<String>, seen: &mut HashMap<BTreeMap<String, String>, String>, label: &str) -> Result<String, String> {
    let mut token = VpToken::new();
    for (k, v) in p {
        token.insert(k.clone(), v.iter().map(item).collect());
    }
    let want: BTreeMap<String, Vec<Json>> = p.iter().cloned().collect();
    if token_view(&token) != want || token.len() != want.len() || token.is_empty() != want.is_empty() {
        return Err("the token does not hold what was put in".into());
    }
    let r = match state {
        Some(s) => UnencodedAuthorizationResponse::with_state(token, State(s.clone())),
        None => UnencodedAuthorizationResponse::new(token),
    };
    if r.state().map(|s| s.0.clone()) != *state {
        return Err(format!("the state is {:?}", r.state()));
    }
    let as_json = serde_json::to_value(&r).map_err(|e| e.to_string())?;
    // The vp_token as a JSON value and as a member of an object.
    let j = Json::from(r.vp_token().clone());
    if j != json!(want) {
        return Err(format!("the vp_token's JSON is {j}"));
    }
    let back = VpToken::try_from(j).map_err(|e| format!("its own JSON is refused: {e:#}"))?;
    let mut o = object(json!({"other": 1}));
    o.insert(r.vp_token().clone());
    let got: VpToken = o.get().ok_or("it is not in the object it was put into")?.map_err(|e| format!("in an object: {e:#}"))?;
    if token_view(&back) != want || token_view(&got) != want {
        return Err(format!("the vp_token's JSON came back as {back:?}, {got:?}"));
    }
    let text = r.into_x_www_form_urlencoded().map_err(|e| format!("{e:#}"))?;
    let fields = form(text.as_bytes())?;
    let mut names: Vec<&str> = fields.keys().map(|s| s.as_str()).collect();
    names.sort();
    let want_names: Vec<&str> = if state.is_some() { vec!["state", "vp_token"] } else { vec!["vp_token"] };
    if names != want_names || fields.get("state") != state.as_ref() {
        return Err(format!("encoded as {fields:?}"));
    }
    let j: Json = serde_json::from_str(&fields["vp_token"]).map_err(|e| format!("vp_token is no JSON: {e}"))?;
    if j != json!(want) {
        return Err(format!("vp_token says {j}"));
    }
    if !text.is_ascii() {
        return Err(format!("the form is not ASCII: {text}"));
    }
    let mut key = fields.clone();
    key.insert("vp_token".into(), json!(want).to_string());
    if let Some(l) = seen.insert(key, label.into()) {
        if l != label {
            return Err(format!("encoded like {l}"));
        }
    }
    // The JSON form.
    let mut j = json!({"vp_token": want});
    if let Some(s) = state {
        j["state"] = json!(s);
    }
    if as_json != j {
        return Err(format!("its JSON is {as_json}"));
    }
    let back: [(&str, Result<UnencodedAuthorizationResponse, String>); 2] = [
        ("JSON", serde_json::from_str(&as_json.to_string()).map_err(|e| e.to_string())),
        ("an object", object(as_json.clone()).try_into().map_err(|e: anyhow::Error| format!("{e:#}"))),
    ];
    for (how, u) in back {
        let u = u.map_err(|e| format!("refused as {how}: {e}"))?;
        if token_view(u.vp_token()) != want || u.state().map(|s| s.0.clone()) != *state {
            return Err(format!("came back from {how} as {u:?}"));
        }
    }
    match AuthorizationResponse::from_x_www_form_urlencoded(text.as_bytes()).map_err(|e| format!("its own encoding is refused: {e:#}"))? {
        AuthorizationResponse::Unencoded(u) => {
            // A response of either kind has the JSON form of its kind.
            let whole = serde_json::to_value(AuthorizationResponse::Unencoded(u.clone())).map_err(|e| e.to_string())?;
            if whole != j {
                return Err(format!("as a response its JSON is {whole}"));
            }
            match serde_json::from_str(&whole.to_string()).map_err(|e| format!("as a response its own JSON is refused: {e}"))? {
                AuthorizationResponse::Unencoded(b) if token_view(b.vp_token()) == want && b.state().map(|s| s.0.clone()) == *state => {}
                b => return Err(format!("as a response its JSON came back as {b:?}")),
            }
            if token_view(u.vp_token()) != want {
                return Err(format!("came back with {:?}", token_view(u.vp_token())));
            }
            for (k, v) in p.iter().rev().take(1) {
                if u.vp_token().get(k).map(|v| v.iter().map(item_json).collect::<Vec<_>>()) != Some(v.clone()) {
                    return Err(format!("get({k:?}) gives {:?}", u.vp_token().get(k)));
                }
            }
            if u.state().map(|s| s.0.clone()) != *state {
                return Err(format!("came back with the state {:?}", u.state()));
            }
            Ok(format!("plain, {} ids, state {}", want.len(), match state.as_deref() { None => "absent", Some("") => "empty", _ => "given" }))
        }
        AuthorizationResponse::Jwt(_) => Err("came back as an encrypted response".into()),
    }
}

pub fn c11(c: &mut Ctx) {
    c.rule = "Every text over an alphabet of characters with a meaning in forms and JSON, up to a length, as state, credential id, presentation and encrypted response; every vp_token of up to two ids with up to two (thorough: three) presentations out of a list; every malformed form of a list, and every proper prefix of a well-formed vp_token. Non-trivial: a distinct response or form.".into();
    c.assumptions = vec![
        "JSON numbers are ones that serde_json itself reads and writes exactly".into(),
        "forms that name a parameter twice, name both kinds or other parameters are left open".into(),
    ];
    let alphabet = ["a", "&", "=", "+", "%", " ", "\"", "\\", "{", "}", "é", "\u{0}", "\n", "%41", "𝄞", ",", "null"];
    let texts = strings(&alphabet, c.pick(2, 3));
    let states: Vec<Option<String>> = vec![None, Some("".into()), Some("af0ifjsldkj".into()), Some("a&vp_token={}&response=x".into()), Some("null".into()), Some("é+ %".into())];
    let mut seen = HashMap::new();
    for t in &texts {
        for (n, p) in [
            vec![("cred".to_string(), vec![json!("vp")])],
            vec![(t.clone(), vec![json!("vp")])],
            vec![("cred".to_string(), vec![json!(t), json!({t.clone(): t, "a": [t, null, 1]})])],
        ].into_iter().enumerate() {
            for (si, s) in [Some(t.clone()), None, Some("".into())].into_iter().enumerate() {
                if n == 0 && si > 0 {
                    continue;
                }
                let label = format!("plain {p:?} state={s:?}");
                c.case(label.clone(), || one_plain(&p, &s, &mut seen, &label));
            }
        }
        c.case(format!("encrypted {t:?}"), || {
            let r = JwtAuthorizationResponse { response: t.clone() };
            let whole = serde_json::to_value(AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: t.clone() })).map_err(|e| e.to_string())?;
            if whole != json!({"response": t}) {
                return Err(format!("as a response its JSON is {whole}"));
            }
            match serde_json::from_str(&whole.to_string()).map_err(|e| format!("as a response its own JSON is refused: {e}"))? {
                AuthorizationResponse::Jwt(b) if b.response == *t => {}
                b => return Err(format!("as a response its JSON came back as {b:?}")),
            }
            let text = r.into_x_www_form_urlencoded().map_err(|e| format!("{e:#}"))?;
            let fields = form(text.as_bytes())?;
            if fields != BTreeMap::from([("response".to_string(), t.clone())]) {
                return Err(format!("encoded as {fields:?}"));
            }
            match AuthorizationResponse::from_x_www_form_urlencoded(text.as_bytes()) {
                Ok(AuthorizationResponse::Jwt(j)) if j.response == *t => Ok("encrypted".into()),
                o => Err(format!("came back as {o:?}")),
            }
        });
    }
    for t in texts_menu(c.pick(1, 2)) {
        let short = format!("{:?}×{}", t.chars().take(20).collect::<String>(), t.len());
        for (n, (p, s)) in [
            (vec![("cred".to_string(), vec![json!("vp")])], Some(t.clone())),
            (vec![(t.clone(), vec![json!("vp")])], None),
            (vec![("cred".to_string(), vec![json!(t), json!("x")])], None),
            (vec![("cred".to_string(), vec![json!({"a": t})])], Some("s".into())),
            (vec![("cred".to_string(), vec![json!({t.clone(): 1})])], Some("s".into())),
        ].into_iter().enumerate() {
            let label = format!("text {short} in place {n}");
            c.case(label.clone(), || one_plain(&p, &s, &mut HashMap::new(), &label));
        }
        c.case(format!("text {short} encrypted"), || {
            let text = JwtAuthorizationResponse { response: t.clone() }.into_x_www_form_urlencoded().map_err(|e| format!("{e:#}"))?;
            match AuthorizationResponse::from_x_www_form_urlencoded(text.as_bytes()) {
                Ok(AuthorizationResponse::Jwt(j)) if j.response == *t => Ok("encrypted".into()),
                o => Err(format!("came back as {o:?}")),
            }
        });
    }
    let pairs: Vec<(String, String)> = ascii_pairs().into_iter().map(|t| (format!("ASCII {t:?}"), t)).collect();
    c.cases(pairs, |t| {
        one_plain(&vec![(t.clone(), vec![json!(t), json!({t.clone(): t})]), (format!("x{t}"), vec![json!(format!("{t}y"))])], &Some(t.clone()), &mut HashMap::new(), "")?;
        let text = JwtAuthorizationResponse { response: t.clone() }.into_x_www_form_urlencoded().map_err(|e| format!("{e:#}"))?;
        match AuthorizationResponse::from_x_www_form_urlencoded(text.as_bytes()) {
            Ok(AuthorizationResponse::Jwt(j)) if j.response == *t => Ok("every pair".into()),
            o => Err(format!("came back as {o:?}")),
        }
    });
    let items = [
        json!("eyJ.a.b~c~"),
        json!(""),
        json!("{\"a\":1}"),
        json!({}),
        json!({"@context": ["https://www.w3.org/ns/credentials/v2"], "type": ["VerifiablePresentation"], "n": [1, -2, 1.5, 18446744073709551615u64, true, null, {"x": {"y": "é\u{1f}"}}]}),
        json!("x".repeat(70000)),
    ];
    let mut lists: Vec<Vec<Json>> = vec![vec![]];
    let mut last = lists.clone();
    for _ in 0..c.pick(2, 3) {
        last = last.iter().flat_map(|l| items[..5].iter().map(|i| { let mut l = l.clone(); l.push(i.clone()); l })).collect();
        lists.extend(last.iter().cloned());
    }
    lists.push(vec![items[5].clone()]);
    let mut tokens: Vec<Presentations> = vec![vec![]];
    for a in &lists {
        tokens.push(vec![("id".into(), a.clone())]);
        for b in &lists {
            if c.quick() && a.len() + b.len() > 3 {
                continue;
            }
            tokens.push(vec![("id".into(), a.clone()), ("ID".into(), b.clone())]);
        }
    }
    tokens.push((0..40).map(|n| (format!("id{n}"), vec![json!(format!("vp{n}")), json!({"n": n})])).collect());
    for t in &tokens {
        for s in &states {
            let short: Vec<String> = t.iter().map(|(k, v)| format!("{k}={}", v.iter().map(|v| { let s = v.to_string(); if s.len() > 300 { format!("long×{}", s.len()) } else { s } }).collect::<Vec<_>>().join(","))).collect();
            let label = format!("token {short:?} state={s:?}");
            c.case(label.clone(), || one_plain(t, s, &mut seen, &label));
        }
    }
    // Many ids, many presentations, large ones.
    for n in [3usize, 9, 10, 16, 17, 32, 33, 64, 100, 257, 1000, 3000] {
        for (what, p) in [
            ("ids", (0..n).map(|i| (format!("id{i}"), vec![json!(format!("vp{i}"))])).collect::<Presentations>()),
            ("ids in reverse", (0..n).rev().map(|i| (format!("id{i:05}"), vec![json!(format!("vp{i}")), json!({"n": i})])).collect()),
            ("presentations", vec![("id".to_string(), (0..n).map(|i| if i % 3 == 0 { json!({"n": i, "a": "é"}) } else { json!(format!("vp{}", n - i)) }).collect())]),
            ("equal presentations", vec![("id".to_string(), vec![json!("vp"); n]), ("other".to_string(), vec![json!({"a": 1}); n])]),
            ("characters", vec![("id é".repeat(n), vec![json!("vp&\"".repeat(n)), json!({"k".repeat(n): "\\".repeat(n)})])]),
            ("members", vec![("id".to_string(), vec![Json::Object((0..n).map(|i| (format!("m{i}"), json!([i, null]))).collect())])]),
        ] {
            for s in [None, Some("s".to_string()), Some("%&é".repeat(n))] {
                let label = format!("{n} {what}, state of {:?}", s.as_ref().map(|s| s.len()));
                c.case(label.clone(), || one_plain(&p, &s, &mut HashMap::new(), &label));
            }
        }
    }
    // Presentations of the credential library's types keep their JSON.
    let v1 = json!({"@context": ["https://www.w3.org/2018/credentials/v1", {"x": "https://x.example/"}], "id": "urn:p", "type": ["VerifiablePresentation", "x"], "holder": "did:ex:a", "extra": {"é": [1, null, "\""]},
        "verifiableCredential": [{"@context": ["https://www.w3.org/2018/credentials/v1"], "type": ["VerifiableCredential"], "issuer": "did:ex:i", "credentialSubject": [{"id": "did:ex:s", "n": 1.5}], "issuanceDate": "2024-01-01T00:00:00Z"}]});
    let v2 = json!({"@context": ["https://www.w3.org/ns/credentials/v2"], "id": "urn:p", "type": ["VerifiablePresentation"], "holder": "did:ex:a", "extra": {"é": [1, null, "\""]},
        "verifiableCredential": [{"@context": ["https://www.w3.org/ns/credentials/v2"], "type": ["VerifiableCredential"], "issuer": {"id": "did:ex:i", "name": "é"}, "credentialSubject": [{"id": "did:ex:s", "n": [1]}]}]});
    fn kept<T: serde::de::DeserializeOwned + serde::Serialize + Into<VpTokenItem>>(name: &str, j: &Json) -> Result<String, String> {
        let p: T = serde_json::from_value(j.clone()).map_err(|e| format!("{name}: the library does not read it: {e}"))?;
        let own = serde_json::to_value(&p).map_err(|e| e.to_string())?;
        let item: VpTokenItem = p.into();
        let mut seen = HashMap::new();
        if item_json(&item) != own {
            return Err(format!("as a presentation it is {}", item_json(&item)));
        }
        one_plain(&vec![("id".into(), vec![own])], &None, &mut seen, name)?;
        Ok("library presentation".into())
    }
    for drop in ["", "id", "holder", "extra", "verifiableCredential"] {
        let without = |j: &Json| {
            let mut j = j.clone();
            j.as_object_mut().unwrap().remove(drop);
            j
        };
        c.case(format!("v1 presentation without {drop:?}"), || kept::<ssi_claims::vc::v1::syntax::JsonPresentation>("v1", &without(&v1)));
        c.case(format!("v2 presentation without {drop:?}"), || kept::<ssi_claims::vc::v2::syntax::JsonPresentation>("v2", &without(&v2)));
        c.case(format!("any presentation (1) without {drop:?}"), || kept::<ssi_claims::vc::syntax::AnyJsonPresentation>("any 1", &without(&v1)));
        c.case(format!("v2 presentation of specialized credentials without {drop:?}"), || {
            kept::<ssi_claims::vc::v2::syntax::JsonPresentation<ssi_claims::vc::v2::SpecializedJsonCredential<json_syntax::Object>>>("v2 specialized", &without(&v2))
        });
        for (n, base) in [&v1, &v2].into_iter().enumerate() {
            for proofs in [json!({"type": "DataIntegrityProof", "cryptosuite": "ecdsa-rdfc-2019", "created": "2024-01-01T00:00:00Z", "verificationMethod": "did:ex:a#é", "proofPurpose": "authentication", "challenge": "n\"", "domain": "d", "proofValue": "z58DAdFfa9"})] {
                let mut j = without(base);
                j["proof"] = proofs;
                c.case(format!("data integrity presentation ({n}) without {drop:?}"), || kept::<ssi_claims::data_integrity::DataIntegrity<ssi_claims::vc::syntax::AnyJsonPresentation, ssi_claims::data_integrity::AnySuite>>("data integrity", &j));
                c.case(format!("any data integrity object ({n}) without {drop:?}"), || kept::<ssi_claims::data_integrity::AnyDataIntegrity>("any data integrity", &j));
            }
        }
        c.case(format!("any presentation (2) without {drop:?}"), || kept::<ssi_claims::vc::syntax::AnyJsonPresentation>("any 2", &without(&v2)));
    }
    c.case("a text", || match VpTokenItem::from("é\"".to_string()) {
        VpTokenItem::String(s) if s == "é\"" => Ok("library presentation".into()),
        x => Err(format!("{x:?}")),
    });
    // Forms that are no response.
    let mut bad: Vec<String> = ["", "{}", "[]", "\"x\"", "null", "1", "x", "{\"a\":1}", "{\"a\":\"x\"}", "{\"a\":null}", "{\"a\":{}}", "{\"a\":[1]}", "{\"a\":[null]}", "{\"a\":[[\"x\"]]}", "{\"a\":[true]}", "{\"a\":[\"x\",1]}", "{\"a\":[\"x\"],\"b\":\"y\"}", "{\"a\":[\"x\"]}}", "{\"a\":[\"x\"]} x", "[{\"a\":[\"x\"]}]", "{a:[\"x\"]}", "{'a':['x']}"]
        .iter().map(|s| s.to_string()).collect();
    let good = json!({"cred": ["vp", {"k": ["v", 1.5, null]}], "é": []}).to_string();
    for i in 0..good.len() {
        if good.is_char_boundary(i) {
            bad.push(good[..i].into());
        }
    }
    let refused = |f: &str| match AuthorizationResponse::from_x_www_form_urlencoded(f.as_bytes()) {
        Ok(r) => Err(format!("parsed as {r:?}")),
        Err(_) => Ok("refused".to_string()),
    };
    for b in &bad {
        if b == "{}" {
            continue;
        }
        for state in ["", "&state=s", "&state="] {
            c.case(format!("form vp_token={b}{state}"), || refused(&format!("vp_token={}{state}", escaped(b, true))));
            c.case(format!("form {state} first, vp_token={b}"), || refused(&format!("{}vp_token={}", if state.is_empty() { String::new() } else { format!("{}&", &state[1..]) }, escaped(b, true))));
        }
    }
    // Every character at every place of a vp_token: read as what it says if it is well-formed JSON
    // of the right shape, and refused if not.
    let mut edited = vec![];
    for (n, base) in [r#"{"cred":["vp",{"k":1}]}"#.to_string(), r#"{"a":[]}"#.into(), "{}".into(), r#"{"a":["x"],"b":["y","z"]}"#.into()].into_iter().enumerate() {
        for x in (0..=127u8).map(char::from).chain(['é', '\u{feff}', '\u{a0}', '\u{2028}', '\u{1f600}']) {
            for at in 0..=base.len() {
                for del in [0, 1] {
                    if at + del <= base.len() {
                        let t = format!("{}{x}{}", &base[..at], &base[at + del..]);
                        edited.push((format!("vp_token {n} with {x:?} at {at} for {del}"), t));
                    }
                }
            }
        }
    }
    c.cases(edited, |t| {
        let want: Option<BTreeMap<String, Vec<Json>>> = serde_json::from_str(t).ok().filter(|m: &BTreeMap<String, Vec<Json>>| m.values().flatten().all(|v| v.is_string() || v.is_object()));
        let got = AuthorizationResponse::from_x_www_form_urlencoded(format!("state=s&vp_token={}", escaped(t, true)).as_bytes());
        match (want, got) {
            (None, Err(_)) => Ok("refused".into()),
            (Some(w), Ok(AuthorizationResponse::Unencoded(u))) if token_view(u.vp_token()) == w && u.state().map(|s| s.0.as_str()) == Some("s") => Ok("read".into()),
            (w, g) => Err(format!("{t:?} says {w:?}, parsed as {g:?}")),
        }
    });
    for f in ["", "&", "=", "state=x", "state=", "vp_token", "Vp_token={}", "vp_tokens={}", "Response=x", "vp%5Ftoken_={}", "presentation_submission={}", "id_token=x", "error=access_denied&state=s", "{\"vp_token\":{}}", "{\"response\":\"x\"}"] {
        c.case(format!("form {f:?}"), || refused(f));
    }
    for (name, value) in [("vp_token", r#"{"a":["x"]}"#), ("response", "x")] {
        for n in near_misses(name) {
            if n == "response" || n == "vp_token" {
                continue;
            }
            c.case(format!("form with {n:?}"), || refused(&format!("{}={}&state=s", escaped(&n, true), escaped(value, true))));
        }
    }
    for (n, bytes) in [&[0xffu8][..], b"\xff=\xff", b"vp_token=\xff", b"state=\xff"].into_iter().enumerate() {
        c.case(format!("form of bytes#{n}"), || match AuthorizationResponse::from_x_www_form_urlencoded(bytes) {
            Ok(r) => Err(format!("parsed as {r:?}")),
            Err(_) => Ok("refused".into()),
        });
    }
}
