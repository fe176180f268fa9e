//! C01, C05, C06, C08, C10: what a wallet does with a request and with its response.
use crate::ctx::{now, Ctx};
use crate::env::*;
use openid4vp::core::authorization_request::{
    AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
};
use openid4vp::core::response::parameters::{State, VpToken, VpTokenItem};
use openid4vp::core::response::{
    AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
};
use openid4vp::wallet::Wallet;
use serde_json::{json, Value as Json};
use std::collections::BTreeMap;
use url::Url;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Value,
    Reference,
    /// Parameters in the URL (strings only).
    Query,
    /// Parameters as a JSON object.
    Object,
}

pub const REQUEST_URI: &str = "https://v.example/request/1";

fn typ_header() -> Json {
    json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"})
}

/// A token whose signature is not looked at.
pub fn token(header: &str, body: &str) -> String {
    format!("{}.{}.{}", b64u(header), b64u(body), b64u("signature"))
}

/// Have the wallet validate the request `body`, passed in this way.
pub fn validate<W: Wallet>(
    wallet: &W,
    via: Via,
    outer: Option<&str>,
    body: &Json,
    jwt: &str,
) -> Result<AuthorizationRequestObject, String> {
    let mut q: Vec<(String, String)> = vec![];
    match via {
        Via::Object => {
            let mut rest = body.clone();
            rest.as_object_mut().unwrap().remove("client_id");
            let r = AuthorizationRequest {
                client_id: outer.map(str::to_string),
                request_indirection: RequestIndirection::Direct(object(rest)),
            };
            return now(r.validate(wallet)).map_err(|e| format!("{e:#}"));
        }
        Via::Value => q.push(("request".into(), jwt.into())),
        Via::Reference => q.push(("request_uri".into(), REQUEST_URI.into())),
        Via::Query => {
            for (k, v) in body.as_object().unwrap() {
                if k != "client_id" {
                    q.push((k.clone(), v.as_str().unwrap().to_string()));
                }
            }
        }
    }
    if let Some(o) = outer {
        q.push(("client_id".into(), o.into()));
    }
    let url: Url = format!("openid4vp:?{}", serde_urlencoded::to_string(&q).unwrap())
        .parse()
        .unwrap();
    now(wallet.validate_request(url)).map_err(|e| format!("{e:#}"))
}

/// A network that only knows one document.
pub fn serving(url: &'static str, jwt: &str) -> Net {
    let jwt = jwt.as_bytes().to_vec();
    Net::new(move |r| {
        if r.uri().to_string() == url {
            Answer::Reply(200, jwt.clone())
        } else {
            Answer::Reply(404, b"no".to_vec())
        }
    })
}

fn request(client_id: Option<&str>, mode: &str) -> Json {
    let mut b = json!({
        "response_type": "vp_token",
        "response_mode": mode,
        "nonce": "n-0S6_WzA2Mj",
        "state": "a:b c",
    });
    if mode.starts_with("direct_post") {
        b["response_uri"] = json!("https://v.example/submit/1");
    }
    if let Some(c) = client_id {
        b["client_id"] = json!(c);
    }
    b
}

fn prefix_of(id: &str) -> Option<&str> {
    id.find(':').map(|i| &id[..i])
}

/// The callbacks that may be consulted for a prefix.
fn callbacks_for(prefix: Option<&str>) -> Vec<&'static str> {
    match prefix {
        None => vec!["preregistered"],
        Some("decentralized_identifier") => vec!["decentralized_identifier"],
        Some("openid_federation") => vec!["openid_federation"],
        Some("redirect_uri") => vec!["redirect_uri"],
        Some("verifier_attestation") => vec!["verifier_attestation"],
        Some("x509_san_dns") => vec!["x509_san_dns"],
        Some("x509_hash") => vec!["x509_hash"],
        Some("origin") => vec![],
        Some("pre-registered") => vec!["other", "preregistered"],
        Some(_) => vec!["other"],
    }
}

pub const PREFIXES: [&str; 8] = [
    "decentralized_identifier",
    "openid_federation",
    "redirect_uri",
    "verifier_attestation",
    "x509_san_dns",
    "x509_hash",
    "pre-registered",
    "origin",
];

// ---------------------------------------------------------------- C01

pub fn c01(c: &mut Ctx) {
    c.rule = "Every combination of client_id (each known prefix, near misses of it, nested prefixes, unknown, empty, none), list of supported prefixes (none, empty, every single one, every pair, all, malformed), way of passing the request, response mode, whether the outer client_id is given, and whether the callback accepts; a recording wallet. Non-trivial: a distinct combination.".into();
    c.assumptions = vec![
        "client_ids are drawn from a list of representative texts".into(),
        "what a wallet does with a request without prefix when its list is malformed is left open".into(),
    ];
    let mut ids: Vec<Option<String>> = vec![None, Some("".into()), Some("abc".into())];
    let mut names: Vec<&str> = PREFIXES.to_vec();
    names.extend(["https", "web-origin", "did", "x509_san_uri", ""]);
    for p in PREFIXES {
        ids.push(Some(format!("{p}:v.example")));
        ids.push(Some(format!("{p}:")));
        ids.push(Some(p.to_string()));
    }
    for s in [
        ":x",
        "https://v.example",
        "did:web:v.example",
        "x509_san_dns:x509_hash:a",
        "x509_hash:redirect_uri:a:b",
        "redirect_uri:https://v.example:8443/cb",
        "decentralized_identifier:did:jwk:abc#0",
        "v.example:x509_san_dns",
        "X509_SAN_DNS:a",
        " x509_san_dns:a",
        "x509_san_dns :a",
        "x509_san_dn:a",
        "x509_san_dnss:a",
        "web-origin:https://v.example",
        "x509_san_uri:a",
        "origin:",
        "ORIGIN:a",
        "prérequis:é",
        "a:b:c:d",
    ] {
        ids.push(Some(s.into()));
    }
    let mut lists: Vec<Option<Json>> = vec![None, Some(json!([]))];
    for p in &names {
        lists.push(Some(json!([p])));
    }
    for (i, p) in names.iter().enumerate() {
        for q in names.iter().skip(i + 1) {
            if !c.quick() || (i + names.iter().position(|x| x == q).unwrap()) % 3 == 0 {
                lists.push(Some(json!([p, q])));
                lists.push(Some(json!([q, p])));
            }
        }
    }
    lists.push(Some(json!(names)));
    // Listing an id itself, or text around a prefix, lists nothing.
    lists.push(Some(json!(["x509_san_dns:v.example", "x509_hash:", "X509_HASH", "x509"])));
    for any in ["*", "all", "any", ".*", "x509_*", "%", "?", "unknown", "other", "null", "true"] {
        lists.push(Some(json!([any])));
    }
    for bad in [
        json!("x509_san_dns"),
        json!(null),
        json!({"x509_san_dns": true}),
        json!(["x509_san_dns", 1]),
        json!([["x509_san_dns"]]),
        json!(7),
    ] {
        lists.push(Some(bad));
    }
    let four = ["direct_post", "dc_api", "direct_post.jwt", "dc_api.jwt"];
    for (n, list) in lists.iter().enumerate() {
        for id in &ids {
            for (k, mode) in four.iter().enumerate() {
                if k > 0 && c.quick() && n % 8 != k {
                    continue;
                }
                c01_cases(c, list, id, mode, &[Via::Value, Via::Reference, Via::Query, Via::Object]);
            }
        }
    }
    // Long and unusual texts behind a prefix, long prefixes, and prefixes late in a long list.
    let mut tails: Vec<String> = strings(&[":", "x", "#", "\u{e9}"], c.pick(2, 3));
    tails.extend([31usize, 32, 63, 64, 127, 128, 255, 256, 1000, 70_000].map(|n| "x".repeat(n)));
    for p in ["x509_san_dns", "decentralized_identifier", "origin", "unheard_of", "https"] {
        for t in &tails {
            for l in [json!([p]), json!(names)] {
                c01_cases(c, &Some(l), &Some(format!("{p}:{t}")), "direct_post", &[Via::Value, Via::Object]);
            }
        }
    }
    for n in [32usize, 64, 128, 255, 256, 1000] {
        let long = "p".repeat(n);
        for l in [json!([long]), json!([&long[1..]]), json!([format!("{long}p")]), json!([format!("{}q", &long[1..])])] {
            c01_cases(c, &Some(l), &Some(format!("{long}:x")), "direct_post", &[Via::Value]);
        }
    }
    for n in [1usize, 2, 8, 9, 16, 17, 50, 300] {
        for at in [0, 1, n / 2, n - 1, n] {
            for p in ["x509_hash", "redirect_uri", "unheard_of"] {
                let l: Vec<String> = (0..n).map(|i| if i == at { p.into() } else { format!("p{i}") }).collect();
                c01_cases(c, &Some(json!(l)), &Some(format!("{p}:x")), "direct_post", &[Via::Value]);
            }
        }
    }
    // A parameter of earlier drafts, or of this name, says nothing about the prefix.
    for key in ["client_id_scheme", "client_id_prefix", "prefix", "client_id_prefixes_supported", "iss", "aud"] {
        for says in PREFIXES.iter().copied().chain(["https", "did", "x509_san_uri"]) {
            for id in [None, Some("abc".to_string()), Some("x509_hash:a".into()), Some("https://v.example".into()), Some("origin:a".into())] {
                let mut body = request(id.as_deref(), "direct_post");
                body[key] = json!(says);
                c01_body(c, &Some(json!(names)), &id, "direct_post", &[Via::Value, Via::Object], body);
            }
        }
    }
    // The callback gets what was received, blanks included, or nothing is accepted.
    for (before, after) in [("", "\n"), ("", "\r\n"), ("", " "), (" ", ""), ("\n", "\n"), ("\u{feff}", ""), ("", "\0"), ("", "\u{a0}"), ("\"", "\""), ("", "="), ("", "#"), ("Bearer ", "")] {
        let body = request(Some("x509_san_dns:v.example"), "direct_post");
        let md = metadata(json!({"client_id_prefixes_supported": ["x509_san_dns"]}));
        let jwt = format!("{before}{}{after}", token(&typ_header().to_string(), &body.to_string()));
        for via in [Via::Value, Via::Reference] {
            c.case(format!("received {before:?}…{after:?} {via:?}"), || {
                let w = TestWallet::new(md.clone(), serving(REQUEST_URI, &jwt), true);
                let got = validate(&w, via, None, &body, &jwt);
                match (got, w.calls()) {
                    (Err(_), calls) if calls.is_empty() => Ok("refused as it is".into()),
                    (_, calls) if calls.len() != 1 || calls[0].jwt.as_deref() != Some(jwt.as_str()) => Err(format!("the callback got {calls:?}")),
                    _ => Ok("passed on as it is".into()),
                }
            });
        }
    }
    // Near misses of every prefix, of the client_id against the list and the other way round.
    for p in PREFIXES {
        let mut lists: Vec<Option<Json>> = vec![Some(json!([p])), Some(json!(names))];
        for n in near_misses(p) {
            let id = Some(format!("{n}:v.example"));
            for l in &lists {
                c01_cases(c, l, &id, "direct_post", &[Via::Value]);
            }
            let only = Some(json!([n]));
            c01_cases(c, &only, &id, "direct_post", &[Via::Value]);
            c01_cases(c, &only, &Some(format!("{p}:v.example")), "direct_post", &[Via::Value]);
        }
        // the listed prefix in different places of a long list
        lists.clear();
        for at in 0..PREFIXES.len() {
            let mut l: Vec<&str> = PREFIXES.iter().copied().filter(|x| *x != p).collect();
            l.insert(at, p);
            lists.push(Some(json!(l)));
            l.remove(at);
            lists.push(Some(json!(l)));
        }
        for l in &lists {
            for id in [format!("{p}:v.example"), p.to_string()] {
                c01_cases(c, l, &Some(id), "direct_post", &[Via::Value, Via::Object]);
            }
        }
    }
}

fn c01_cases(c: &mut Ctx, list: &Option<Json>, id: &Option<String>, mode: &str, vias: &[Via]) {
    c01_body(c, list, id, mode, vias, request(id.as_deref(), mode));
}

fn c01_body(c: &mut Ctx, list: &Option<Json>, id: &Option<String>, mode: &str, vias: &[Via], mut body: Json) {
    let mut extra = json!({});
    if let Some(l) = list {
        extra["client_id_prefixes_supported"] = l.clone();
    }
    let md = metadata(extra);
    let listed: Option<Vec<String>> = match list {
        None => Some(vec!["pre-registered".into()]),
        Some(l) => serde_json::from_value(l.clone()).ok(),
    };
    if mode.ends_with(".jwt") {
        body["client_metadata"] = json!({"vp_formats_supported": {}, "jwks": {"keys": [
            {"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "use": "enc", "alg": "ECDH-ES"}]}});
    }
    let jwt = token(&typ_header().to_string(), &body.to_string());
    for via in vias.iter().copied() {
        if via == Via::Query && mode.ends_with(".jwt") {
            continue;
        }
        let direct = matches!(via, Via::Query | Via::Object);
        for with_outer in [true, false] {
            if direct && id.is_some() && !with_outer {
                continue;
            }
            let outer = if with_outer { id.as_deref() } else { None };
            for accept in [true, false] {
                let label = format!(
                    "client_id={id:?} listed={} {mode} {via:?} outer={with_outer} callback accepts={accept}{}",
                    list.as_ref().map(|l| l.to_string()).unwrap_or("(none)".into()),
                    c01_also(&body)
                );
                c.case(label, || {
                    let w = TestWallet::new(md.clone(), serving(REQUEST_URI, &jwt), accept);
                    let got = validate(&w, via, outer, &body, &jwt);
                    let bare = BareWallet {
                        metadata: md.clone(),
                        net: serving(REQUEST_URI, &jwt),
                    };
                    if let Ok(r) = validate(&bare, via, outer, &body, &jwt) {
                        return Err(format!("a wallet without callbacks accepted it: {r:?}"));
                    }
                    let calls = w.calls();
                    let prefix = id.as_deref().and_then(prefix_of);
                    let open = prefix.is_none() && listed.is_none();
                    let ok = match (&listed, prefix) {
                        (_, None) => true,
                        (None, _) => false,
                        (Some(_), Some("origin")) => false,
                        (Some(l), Some(p)) => l.iter().any(|x| x == p),
                    };
                    if !ok || (open && calls.is_empty()) {
                        if got.is_ok() {
                            return Err(format!("accepted, consulting {calls:?}"));
                        }
                        if !calls.is_empty() {
                            return Err(format!("consulted {calls:?}"));
                        }
                        return Ok(format!("refused outright, {}", prefix.is_some()));
                    }
                    if calls.len() != 1 {
                        return Err(format!("{} callbacks consulted: {calls:?}, result {:?}", calls.len(), got.err()));
                    }
                    let call = &calls[0];
                    if !callbacks_for(prefix).contains(&call.method) {
                        return Err(format!("consulted {:?}", call.method));
                    }
                    if call.method == "other" && call.prefix.as_deref() != prefix {
                        return Err(format!("the catch-all was told the prefix {:?}", call.prefix));
                    }
                    let want_jwt = if direct { None } else { Some(jwt.clone()) };
                    if call.jwt != want_jwt {
                        return Err(format!("the callback got the signed request {:?}", call.jwt));
                    }
                    if call.request != body {
                        return Err(format!("the callback got the request {}", call.request));
                    }
                    match (got, accept) {
                        (Ok(r), true) => {
                            let r = serde_json::to_value(&r).unwrap();
                            if r != body {
                                return Err(format!("returned {r}"));
                            }
                            Ok(format!("accepted by {}", call.method))
                        }
                        (Ok(_), false) => Err("accepted although the callback refused".into()),
                        (Err(e), true) => Err(format!("refused although the callback accepted: {e}")),
                        (Err(_), false) => Ok(format!("refused by {}", call.method)),
                    }
                });
            }
        }
    }
}

/// The members besides the usual ones.
fn c01_also(body: &Json) -> String {
    let known = ["client_id", "response_type", "response_mode", "nonce", "state", "response_uri", "client_metadata"];
    body.as_object()
        .unwrap()
        .iter()
        .filter(|(k, _)| !known.contains(&k.as_str()))
        .map(|(k, v)| format!(", {k}={v}"))
        .collect()
}

// ---------------------------------------------------------------- C05

const TYP: &str = "oauth-authz-req+jwt";

pub fn c05(c: &mut Ctx) {
    c.rule = "Every header of a list (the right typ; every text one edit away from it; every prefix and suffix of it; other JSON types; none; headers that do not decode) x by value / by reference x outer client_id (none, redirect_uri:…, near misses of that, others). Non-trivial: a distinct combination.".into();
    c.assumptions = vec!["a header with typ twice is left open".into()];
    // (what, header text before base64url or the literal first part, is the typ right, decodes)
    enum H {
        Json(Json),
        Text(String),
        Raw(String),
    }
    let mut headers: Vec<(String, H, bool, bool)> = vec![];
    let mut typs: Vec<Json> = vec![json!(TYP)];
    typs.extend(near_misses(TYP).into_iter().map(Json::String));
    for s in [
        "JWT", "jwt", "", "JOSE", "application/oauth-authz-req+jwt", "OAUTH-AUTHZ-REQ+JWT",
        "at+jwt", "kb+jwt", "oauth-authz-req", "oauth-authz-req+sd-jwt", "*", "oauth-authz-req+jwt,JWT",
        "dc+sd-jwt", "entity-statement+jwt", "oauth-authz-req+jwt;v=1", "none",
    ] {
        typs.push(json!(s));
    }
    typs.extend([
        json!(null), json!(1), json!(true), json!(false), json!([TYP]), json!([]), json!({}),
        json!({"typ": TYP}), json!(1.5),
    ]);
    for t in typs {
        let right = t == json!(TYP);
        let mut h = json!({"alg": "ES256"});
        h["typ"] = t.clone();
        headers.push((format!("typ={t}"), H::Json(h), right, true));
    }
    headers.push(("no typ".into(), H::Json(json!({"alg": "ES256"})), false, true));
    for (n, other) in [("cty", TYP), ("Typ", TYP), ("TYP", TYP), ("type", TYP), ("typ ", TYP)] {
        let mut h = json!({"alg": "ES256"});
        h[n] = json!(other);
        headers.push((format!("{n} instead of typ"), H::Json(h), false, true));
        let mut h = typ_header();
        h[n] = json!("JWT");
        headers.push((format!("{n} besides typ"), H::Json(h), true, true));
    }
    headers.push(("right, with x5c and kid".into(), H::Json(json!({"alg":"ES256","typ":TYP,"kid":"k","x5c":["AA=="]})), true, true));
    // typ at each place among many members, and a right typ only inside of another member
    for n in [1usize, 3, 10, 40] {
        for at in 0..=n {
            for (typ, right) in [(Some(TYP), true), (Some("JWT"), false), (None, false)] {
                let mut m: Vec<String> = (0..n).map(|i| format!("\"m{i}\":{{\"typ\":\"{TYP}\"}}")).collect();
                if let Some(t) = typ {
                    m.insert(at, format!("\"typ\":\"{t}\""));
                }
                m.push("\"alg\":\"ES256\"".into());
                headers.push((format!("typ {typ:?} at {at} of {n} other members"), H::Text(format!("{{{}}}", m.join(","))), right, true));
            }
        }
    }
    for n in [1000usize, 100_000] {
        for (typ, right) in [(TYP, true), ("JWT", false)] {
            headers.push((format!("typ {typ} after a member of {n} bytes"), H::Text(format!("{{\"alg\":\"ES256\",\"kid\":\"{}\",\"typ\":\"{typ}\"}}", "k".repeat(n))), right, true));
        }
    }
    for (n, t) in [
        ("not JSON", "typ=oauth-authz-req+jwt".to_string()),
        ("empty", "".into()),
        ("an array", format!("[{{\"alg\":\"ES256\",\"typ\":\"{TYP}\"}}]")),
        ("a string", format!("\"{TYP}\"")),
        ("null", "null".into()),
        ("cut", format!("{{\"alg\":\"ES256\",\"typ\":\"{TYP}\"")),
        ("followed by more", format!("{{\"alg\":\"ES256\",\"typ\":\"{TYP}\"}}x")),
    ] {
        headers.push((n.to_string(), H::Text(t), false, false));
    }
    headers.push(("not base64url".into(), H::Raw("e30*".into()), false, false));
    headers.push(("the header in clear".into(), H::Raw(format!("{{\"alg\":\"ES256\",\"typ\":\"{TYP}\"}}")), false, false));
    headers.push(("bytes that are not UTF-8".into(), H::Raw(b64u([0xff, 0xfe, 0x7b])), false, false));
    let outers: Vec<Option<&str>> = vec![
        None,
        Some("redirect_uri:https://v.example/cb"),
        Some("redirect_uri:"),
        Some("redirect_uri"),
        Some("redirect_uris:https://v.example/cb"),
        Some(" redirect_uri:https://v.example/cb"),
        Some("Redirect_uri:https://v.example/cb"),
        Some("x509_san_dns:v.example"),
        Some("x509_san_dns:redirect_uri:v.example"),
        Some("abc"),
        Some("other:x"),
    ];
    let mut listed: Vec<String> = ["redirect_uri", "redirect_uris", " redirect_uri", "Redirect_uri", "x509_san_dns", "other", "pre-registered"]
        .map(String::from).to_vec();
    let near: Vec<String> = near_misses("redirect_uri:").iter().map(|n| format!("{n}https://v.example/cb")).collect();
    listed.extend(near.iter().filter_map(|n| prefix_of(n)).map(String::from));
    let md = metadata(json!({"client_id_prefixes_supported": listed}));
    let inners_when_none = ["x509_san_dns:v.example", "redirect_uri:https://v.example/cb", "abc"];
    for outer in &outers {
        let inners: Vec<&str> = match outer {
            Some(o) => vec![*o],
            None => inners_when_none.to_vec(),
        };
        for inner in inners {
            let body = request(Some(inner), "direct_post");
            for (name, h, right, decodes) in &headers {
                let first = match h {
                    H::Json(j) => b64u(j.to_string()),
                    H::Text(t) => b64u(t),
                    H::Raw(r) => r.clone(),
                };
                let jwt = format!("{first}.{}.{}", b64u(body.to_string()), b64u("signature"));
                for via in [Via::Value, Via::Reference] {
                    c.case(format!("{name} outer={outer:?} inner={inner} {via:?}"), || {
                        let w = TestWallet::new(md.clone(), serving(REQUEST_URI, &jwt), true);
                        let got = validate(&w, via, *outer, &body, &jwt);
                        let calls = w.calls();
                        let exempt = outer.map(|o| o.starts_with("redirect_uri:")).unwrap_or(false);
                        // The token library itself may insist on a textual typ.
                        if exempt && matches!(h, H::Json(j) if !(j["typ"].is_string() || j["typ"].is_null())) {
                            return Ok("left open".into());
                        }
                        if *decodes && (*right || exempt) {
                            return match got {
                                Ok(_) if calls.len() == 1 => {
                                    Ok(format!("accepted, exempt={exempt}"))
                                }
                                Ok(_) => Err(format!("accepted after {} callbacks", calls.len())),
                                Err(e) => Err(format!("refused: {e}")),
                            };
                        }
                        if got.is_ok() {
                            return Err("processed".into());
                        }
                        if !calls.is_empty() {
                            return Err(format!("refused only after {calls:?} was consulted"));
                        }
                        Ok(format!("refused, decodes={decodes}"))
                    });
                }
            }
        }
    }
    c05_outers(c, &near, &md);
    // Any text in another member, and the header written otherwise.
    let id = "x509_san_dns:v.example";
    let body = request(Some(id), "direct_post");
    let mut spellings: Vec<(String, String, String, bool)> = vec![];
    for typ in [TYP, "JWT"] {
        let base = json!({"alg": "ES256", "typ": typ, "kid": "k"});
        for t in thrice() {
            let mut h = base.clone();
            h["x"] = json!(t);
            spellings.push((format!("{typ}, a header with {t:?}"), h.to_string(), body.to_string(), typ == TYP));
            let mut b = body.clone();
            b["state"] = json!(t);
            spellings.push((format!("{typ}, a body with {t:?}"), base.to_string(), b.to_string(), typ == TYP));
        }
        for (n, h) in spelled(&base) {
            for (m, b) in spelled(&body) {
                spellings.push((format!("{typ}, a header {n}, a body {m}"), h.clone(), b, typ == TYP));
            }
        }
    }
    for (name, h, b, right) in spellings {
        let jwt = token(&h, &b);
        for via in [Via::Value, Via::Reference] {
            c.case(format!("{name} {via:?}"), || {
                let w = TestWallet::new(md.clone(), serving(REQUEST_URI, &jwt), true);
                let got = validate(&w, via, Some(id), &body, &jwt);
                match got {
                    Ok(_) if right && w.calls().len() == 1 => Ok("accepted, any spelling".into()),
                    Ok(_) => Err(format!("processed after {} callbacks", w.calls().len())),
                    Err(e) if right => Err(format!("refused: {e}")),
                    Err(_) if w.calls().is_empty() => Ok("refused, any spelling".into()),
                    Err(_) => Err("refused only after a callback was consulted".into()),
                }
            });
        }
    }
}

/// Outer client_ids that resemble redirect_uri:… are not exempt.
fn c05_outers(c: &mut Ctx, near: &[String], md: &openid4vp::core::metadata::WalletMetadata) {
    for outer in near {
        let body = request(Some(outer), "direct_post");
        for (name, h, right) in [("JWT", json!({"alg": "ES256", "typ": "JWT"}), false), ("none", json!({"alg": "ES256"}), false), ("right", typ_header(), true)] {
            let jwt = token(&h.to_string(), &body.to_string());
            for via in [Via::Value, Via::Reference] {
                c.case(format!("typ {name} outer={outer:?} {via:?}"), || {
                    let w = TestWallet::new(md.clone(), serving(REQUEST_URI, &jwt), true);
                    let got = validate(&w, via, Some(outer), &body, &jwt);
                    let exempt = outer.starts_with("redirect_uri:");
                    match got {
                        Ok(_) if right || exempt => Ok(format!("accepted, exempt={exempt}")),
                        Ok(_) => Err("processed".into()),
                        Err(e) if right => Err(format!("refused: {e}")),
                        Err(_) if exempt => Err("refused".into()),
                        Err(_) if w.calls().is_empty() => Ok("refused, near miss".into()),
                        Err(_) => Err("refused only after a callback was consulted".into()),
                    }
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C06

fn without_fragment(u: &str) -> &str {
    u.split('#').next().unwrap()
}

pub fn c06(c: &mut Ctx) {
    c.rule = "Request URLs of a list x answers of the network (fault, every status 100..=999, bodies that are a signed request, cut at every byte, not UTF-8 at every byte, not a signed request); every pair of outer and inner client_id of a list x every way of passing the request. Non-trivial: a distinct combination.".into();
    c.assumptions = vec![
        "the fragment of a request URL is not compared".into(),
        "when only one of outer and inner client_id is present, acceptance is left open".into(),
        "custom schemes that HTTP cannot express may be refused without traffic".into(),
    ];
    let ids = ["x509_san_dns:v.example", "abc", "redirect_uri:https://v.example/cb", "", "abd", "x509_san_dns:V.example", "x509_san_dns:v.example ", "x509_hash:v.example"];
    let md = metadata(json!({"client_id_prefixes_supported":
        ["redirect_uri", "x509_san_dns", "x509_hash", "pre-registered"]}));
    let body = request(Some(ids[0]), "direct_post");
    let jwt = token(&typ_header().to_string(), &body.to_string());

    // Where it goes.
    let urls = [
        "https://v.example/request/1",
        "http://v.example/request/1",
        "https://v.example/",
        "https://v.example",
        "https://v.example:8443/request/1",
        "http://127.0.0.1:80/x",
        "https://[::1]:8443/r",
        "https://v.example/r?id=1",
        "https://v.example/r?id=1&x=%20y&x=z+w&e=",
        "https://v.example/r?",
        "https://v.example/r?a=b?c=d",
        "https://v.example/a//b/",
        "https://v.example/a%2Fb/%C3%A9",
        "https://v.example/é/ü?q=ñ",
        "https://v.example/r#frag",
        "https://v.example/r?a=1#frag?b=2",
        "https://V.Example/Case/PATH",
        "https://v.example/a;p=1/b,c/~d/!$&'()*",
        "https://xn--mnchen-3ya.example/r",
        "https://münchen.example/r",
        "https://v.example/request/00000000-0000-0000-0000-000000000001",
        "https://client_id.example/request?client_id=other",
        "https://v.example/./a/../b",
    ];
    let composed = http_urls(!c.quick());
    for u in urls.into_iter().chain(composed.iter().map(String::as_str)) {
        for via_query in [true, false] {
            c.case(format!("GET {u} parsed from a URL={via_query}"), || {
                let parsed: Url = u.parse().unwrap();
                let net = {
                    let jwt = jwt.clone();
                    Net::new(move |_| Answer::Reply(200, jwt.clone().into_bytes()))
                };
                let w = TestWallet::new(md.clone(), net, true);
                let got = if via_query {
                    let q = serde_urlencoded::to_string([("client_id", ids[0]), ("request_uri", u)]).unwrap();
                    now(w.validate_request(format!("openid4vp:?{q}").parse().unwrap()))
                } else {
                    now(AuthorizationRequest {
                        client_id: Some(ids[0].into()),
                        request_indirection: RequestIndirection::ByReference { request_uri: parsed.clone() },
                    }
                    .validate(&w))
                };
                let log = w.net.log.lock().unwrap();
                if log.len() != 1 {
                    return Err(format!("{} HTTP requests, {:?}", log.len(), got.err()));
                }
                let r = &log[0];
                if r.method() != "GET" || !r.body().is_empty() {
                    return Err(format!("a {} with {} bytes", r.method(), r.body().len()));
                }
                let asked = r.uri().to_string();
                if without_fragment(&asked) != without_fragment(parsed.as_str()) {
                    return Err(format!("asked {asked}"));
                }
                let got = got.map_err(|e| format!("refused: {e:#}"))?;
                if serde_json::to_value(&got).unwrap() != body {
                    return Err("another request came out".into());
                }
                if w.calls().len() != 1 || w.calls()[0].jwt.as_deref() != Some(jwt.as_str()) {
                    return Err(format!("consulted {:?}", w.calls()));
                }
                Ok("fetched and used".into())
            });
        }
    }
    // Schemes HTTP has no business with: fail, or ask exactly there.
    for u in ["ftp://v.example/r", "file:///etc/passwd", "data:,x", "openid4vp:r", "mailto:a@b", "urn:uuid:1"] {
        c.case(format!("GET {u}"), || {
            let net = Net::new(move |_| Answer::Fault);
            let w = TestWallet::new(md.clone(), net, true);
            let got = now(AuthorizationRequest {
                client_id: Some(ids[0].into()),
                request_indirection: RequestIndirection::ByReference { request_uri: u.parse().unwrap() },
            }
            .validate(&w));
            if got.is_ok() || !w.calls().is_empty() {
                return Err("processed".into());
            }
            let log = w.net.log.lock().unwrap();
            for r in log.iter() {
                if r.uri().to_string() != u {
                    return Err(format!("asked {}", r.uri()));
                }
            }
            Ok(format!("refused after {} requests", log.len()))
        });
    }

    // What comes back.
    let mut answers: Vec<(String, Answer, bool)> = vec![("fault".into(), Answer::Fault, false)];
    for status in 100..=999u16 {
        answers.push((
            format!("status {status}"),
            Answer::Reply(status, jwt.clone().into_bytes()),
            (200..300).contains(&status),
        ));
    }
    for status in [200u16, 201, 299, 404] {
        for cut in 0..jwt.len() {
            if status != 200 && cut % 17 != 0 {
                continue;
            }
            let b = jwt.as_bytes()[..cut].to_vec();
            // A prefix that still is a signed request (only its signature is shorter) is one.
            let text = String::from_utf8(b.clone()).unwrap();
            let still = jwt_parts_ok(&text);
            if still && status != 404 {
                continue;
            }
            answers.push((format!("status {status}, cut after {cut}"), Answer::Reply(status, b), false));
        }
        for at in 0..=jwt.len() {
            for bad in [0xffu8, 0xc3, 0x80] {
                if status != 200 && at % 17 != 0 {
                    continue;
                }
                let mut b = jwt.as_bytes().to_vec();
                b.insert(at, bad);
                answers.push((format!("status {status}, byte {bad:#x} at {at}"), Answer::Reply(status, b), false));
            }
        }
        for (n, t) in [
            ("JSON", body.to_string()),
            ("a JSON string", format!("\"{jwt}\"")),
            ("four parts", format!("{jwt}.x")),
            ("dots", "..".into()),
            ("empty", "".into()),
            ("HTML", "<html>".into()),
            ("a body that is no object", format!("{}.{}.{}", b64u(typ_header().to_string()), b64u("[]"), b64u("s"))),
            ("a body that is no request", format!("{}.{}.{}", b64u(typ_header().to_string()), b64u("{}"), b64u("s"))),
            ("a body that is not base64url", format!("{}.{}.{}", b64u(typ_header().to_string()), "*", b64u("s"))),
            ("the URL of a request", REQUEST_URI.into()),
            ("a byte order mark first", format!("\u{feff}{jwt}")),
            ("a blank first", format!(" {jwt}")),
            ("a line break first", format!("\n{jwt}")),
            ("a form", format!("request={jwt}")),
            ("a JSON object around it", json!({"request": jwt}).to_string()),
            ("two of them", format!("{jwt}\n{jwt}")),
            ("five parts", format!("{jwt}.x.y")),
            ("two parts", jwt.rsplit_once('.').unwrap().0.to_string()),
        ] {
            answers.push((format!("status {status}, {n}"), Answer::Reply(status, t.into_bytes()), false));
        }
    }
    for status in [200u16, 201, 204, 206, 301, 302, 303, 307, 308, 404, 503] {
        for (n, h) in [
            ("Location", vec![("location", "https://v.example/elsewhere")]),
            ("Content-Type of a request", vec![("content-type", "application/oauth-authz-req+jwt")]),
            ("Retry-After", vec![("retry-after", "0")]),
            ("Refresh", vec![("refresh", "0; url=https://evil.example/"), ("link", "<https://evil.example/>; rel=alternate")]),
        ] {
            answers.push((format!("status {status} with {n}"), Answer::With(status, h, jwt.clone().into_bytes()), (200..300).contains(&status)));
        }
    }
    for (name, a, ok) in answers {
        c.case(format!("answer: {name}"), || {
            let a = a.clone();
            let w = TestWallet::new(md.clone(), Net::new(move |_| a.clone()), true);
            let got = validate(&w, Via::Reference, Some(ids[0]), &body, &jwt);
            if w.net.calls() != 1 {
                return Err(format!("{} HTTP requests", w.net.calls()));
            }
            match (got, ok) {
                (Ok(_), true) if w.calls().len() == 1 => Ok("accepted".into()),
                (Ok(_), true) => Err("accepted without its callback".into()),
                (Err(e), true) => Err(format!("refused: {e}")),
                (Ok(_), false) => Err("accepted".into()),
                (Err(_), false) if w.calls().is_empty() => Ok("refused".into()),
                (Err(_), false) => Err("refused, but only after a callback was consulted".into()),
            }
        });
    }

    // Who says they are asking: every near miss of an id against it.
    for base in ["x509_san_dns:v.example", "abc", "redirect_uri:https://v.example/cb"] {
        let mut near = near_misses(base);
        near.extend([base.replace("v.example", "v%2Eexample"), base.replace(':', "%3A"), format!("{base}#x"), format!("{base}/"), format!("x509_san_dns:{base}")]);
        near.retain(|n| n != base);
        for (n, x) in near.iter().enumerate() {
            for (outer, inner) in [(x.as_str(), base), (base, x.as_str())] {
                let body = request(Some(inner), "direct_post");
                let jwt = token(&typ_header().to_string(), &body.to_string());
                let all = metadata(json!({"client_id_prefixes_supported":
                    ["redirect_uri", "x509_san_dns", "x509_hash", "pre-registered", prefix_of(x).unwrap_or("pre-registered")]}));
                for via in [Via::Value, Via::Reference] {
                    if c.quick() && via == Via::Reference && n % 4 != 0 {
                        continue;
                    }
                    c.case(format!("near miss outer={outer:?} inner={inner:?} {via:?}"), || {
                        let w = TestWallet::new(all.clone(), serving(REQUEST_URI, &jwt), true);
                        match validate(&w, via, Some(outer), &body, &jwt) {
                            Ok(_) => Err("accepted".into()),
                            Err(_) => Ok("different ids refused".into()),
                        }
                    });
                }
            }
        }
    }
    // Large requests.
    for n in [1000usize, 65_535, 65_536, 1_000_000, 5_000_000] {
        for (what, extra) in [("one long text", json!("x".repeat(n))), ("a list", (0..n / 10).collect::<Vec<_>>().into()), ("many members", (0..n / 100).map(|i| (format!("m{i}"), json!(i))).collect::<serde_json::Map<_, _>>().into())] {
            let mut body = request(Some(ids[0]), "direct_post");
            body["extra"] = extra;
            let jwt = token(&typ_header().to_string(), &body.to_string());
            for via in [Via::Reference, Via::Value, Via::Object] {
                if via == Via::Value && n > 1_000_000 {
                    continue;
                }
                c.case(format!("a request of about {n} bytes, {what}, {via:?}"), || {
                    let w = TestWallet::new(md.clone(), serving(REQUEST_URI, &jwt), true);
                    let got = validate(&w, via, Some(ids[0]), &body, &jwt).map_err(|e| format!("refused: {e}"))?;
                    if serde_json::to_value(&got).unwrap() != body {
                        return Err("another request came out".into());
                    }
                    if w.net.calls() != (via == Via::Reference) as usize {
                        return Err(format!("{} HTTP requests", w.net.calls()));
                    }
                    Ok("large".into())
                });
            }
        }
    }
    // One wallet, one request after another: each is fetched anew and answered by what comes
    // back this time.
    let bodies: Vec<Json> = (0..2).map(|n| {
        let mut b = request(Some(ids[0]), "direct_post");
        b["nonce"] = json!(format!("nonce {n}"));
        b
    }).collect();
    let jwts: Vec<String> = bodies.iter().map(|b| token(&typ_header().to_string(), &b.to_string())).collect();
    // (request_uri, answer: 0 or 1 a request, 2 a refusal, 3 a fault, 4 something else)
    let moves: Vec<(usize, usize)> = (0..2).flat_map(|u| (0..5).map(move |a| (u, a))).collect();
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..c.pick(3, 4) {
        seqs = seqs.iter().flat_map(|s| moves.iter().map(move |m| { let mut s = s.clone(); s.push(*m); s })).collect();
        all.extend(seqs.clone());
    }
    for s in all {
        c.case(format!("one after another {s:?}"), || {
            let turn = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let net = {
                let (turn, s, jwts) = (turn.clone(), s.clone(), jwts.clone());
                Net::new(move |_| match s[turn.load(std::sync::atomic::Ordering::SeqCst)].1 {
                    2 => Answer::Reply(404, jwts[0].clone().into_bytes()),
                    3 => Answer::Fault,
                    4 => Answer::Reply(200, b"no request".to_vec()),
                    n => Answer::Reply(200, jwts[n].clone().into_bytes()),
                })
            };
            let w = TestWallet::new(md.clone(), net, true);
            let mut consulted = 0;
            for (n, (u, a)) in s.iter().enumerate() {
                turn.store(n, std::sync::atomic::Ordering::SeqCst);
                let uri = ["https://v.example/r/1", "https://v.example/r/2"][*u];
                let q = serde_urlencoded::to_string([("client_id", ids[0]), ("request_uri", uri)]).unwrap();
                let got = now(w.validate_request(format!("openid4vp:?{q}").parse().unwrap()));
                if w.net.calls() != n + 1 || w.net.log.lock().unwrap()[n].uri().to_string() != uri {
                    return Err(format!("request {n}: {} HTTP requests in all", w.net.calls()));
                }
                match got {
                    Ok(r) if *a < 2 && serde_json::to_value(&r).unwrap() == bodies[*a] => {
                        consulted += 1;
                        if w.calls().last().and_then(|c| c.jwt.clone()).as_deref() != Some(jwts[*a].as_str()) {
                            return Err(format!("request {n}: another signed request was consulted"));
                        }
                    }
                    Ok(_) => return Err(format!("request {n}: something else came out")),
                    Err(e) if *a < 2 => return Err(format!("request {n}: refused: {e:#}")),
                    Err(_) => {}
                }
                if w.calls().len() != consulted {
                    return Err(format!("request {n}: {} callbacks", w.calls().len()));
                }
            }
            Ok("fetched each time".into())
        });
    }
    // What else is in the URL does not matter for a request that is passed in signed form.
    for extra in [("state", "other"), ("nonce", "other"), ("response_type", "code"), ("scope", "openid"), ("response_uri", "https://evil.example/"), ("response_mode", "dc_api"), ("request_uri_method", "get"), ("redirect_uri", "https://evil.example/"), ("client_metadata", "{}")] {
        for via in [Via::Value, Via::Reference] {
            for first in [true, false] {
                c.case(format!("{extra:?} besides the request, first={first}, {via:?}"), || {
                    let w = TestWallet::new(md.clone(), serving(REQUEST_URI, &jwt), true);
                    let mut q = vec![("client_id", ids[0])];
                    match via {
                        Via::Value => q.push(("request", &jwt)),
                        _ => q.push(("request_uri", REQUEST_URI)),
                    }
                    q.insert(if first { 0 } else { q.len() }, extra);
                    let q = serde_urlencoded::to_string(&q).unwrap();
                    match now(w.validate_request(format!("openid4vp:?{q}").parse().unwrap())) {
                        Ok(r) if serde_json::to_value(&r).unwrap() != body => Err(format!("turned into {}", serde_json::to_value(&r).unwrap())),
                        Ok(_) if w.calls().len() != 1 || w.calls()[0].jwt.as_deref() != Some(jwt.as_str()) => Err(format!("consulted {:?}", w.calls())),
                        Ok(_) if w.net.calls() != (via == Via::Reference) as usize => Err(format!("{} HTTP requests", w.net.calls())),
                        Ok(_) => Ok("the signed request counts".into()),
                        Err(_) => Ok("refused".into()),
                    }
                });
            }
        }
    }
    // Who says they are asking.
    let mut options: Vec<Option<&str>> = vec![None];
    options.extend(ids.iter().copied().map(Some));
    for outer in &options {
        for inner in &options {
            let body = request(*inner, "direct_post");
            let jwt = token(&typ_header().to_string(), &body.to_string());
            for via in [Via::Value, Via::Reference] {
                c.case(format!("outer={outer:?} inner={inner:?} {via:?}"), || {
                    let w = TestWallet::new(md.clone(), serving(REQUEST_URI, &jwt), true);
                    let got = validate(&w, via, *outer, &body, &jwt);
                    if w.net.calls() != (via == Via::Reference) as usize {
                        return Err(format!("{} HTTP requests", w.net.calls()));
                    }
                    match (outer, inner) {
                        (Some(o), Some(i)) if o != i => match got {
                            Ok(_) => Err("accepted".into()),
                            Err(_) => Ok("different ids refused".into()),
                        },
                        (Some(_), Some(_)) | (None, _) => match got {
                            Ok(r) if serde_json::to_value(&r).unwrap() == body => Ok("accepted".into()),
                            Ok(r) => Err(format!("turned into {}", serde_json::to_value(&r).unwrap())),
                            Err(e) => Err(format!("refused: {e}")),
                        },
                        (Some(_), None) => Ok("left open".into()),
                    }
                });
            }
        }
        for via in [Via::Query, Via::Object] {
            let body = request(*outer, "direct_post");
            c.case(format!("plain outer={outer:?} {via:?}"), || {
                let w = TestWallet::new(md.clone(), Net::dead(), true);
                let got = validate(&w, via, *outer, &body, "").map_err(|e| format!("refused: {e}"))?;
                if w.net.calls() != 0 {
                    return Err("HTTP traffic".into());
                }
                if got.client_id().map(|x| x.0.clone()) != outer.map(str::to_string) {
                    return Err(format!("client_id {:?}", got.client_id()));
                }
                if serde_json::to_value(&got).unwrap() != body {
                    return Err("another request came out".into());
                }
                if w.calls().len() != 1 || w.calls()[0].jwt.is_some() {
                    return Err(format!("consulted {:?}", w.calls()));
                }
                Ok("plain parameters".into())
            });
        }
        // A client_id among the parameters does not stand against the outer one.
        if let Some(o) = outer {
            c.case(format!("plain outer={o:?} with a client_id inside"), || {
                let w = TestWallet::new(md.clone(), Net::dead(), true);
                let body = request(Some("abc2"), "direct_post");
                let got = now(AuthorizationRequest {
                    client_id: Some(o.to_string()),
                    request_indirection: RequestIndirection::Direct(object(body)),
                }
                .validate(&w));
                match got {
                    Ok(r) if r.client_id().map(|x| x.0.as_str()) == Some(*o) => Ok("outer wins".into()),
                    Ok(r) => Err(format!("client_id {:?}", r.client_id())),
                    Err(_) => Ok("refused".into()),
                }
            });
            for inner in &options {
                c.case(format!("plain outer={o:?} resolved with {inner:?} inside"), || {
                    let net = Net::dead();
                    let got = now(AuthorizationRequest {
                        client_id: Some(o.to_string()),
                        request_indirection: RequestIndirection::Direct(object(request(*inner, "direct_post"))),
                    }
                    .resolve_request(&net));
                    if net.calls() != 0 {
                        return Err("HTTP traffic".into());
                    }
                    match got {
                        Ok((_, Some(_))) => Err("there is a signed request".into()),
                        Ok((r, None)) if r.client_id().map(|x| x.0.as_str()) == Some(*o) && serde_json::to_value(&r).unwrap() == request(Some(o), "direct_post") => Ok("outer wins".into()),
                        Ok((r, None)) => Err(format!("resolved to {r:?}")),
                        Err(e) if inner.is_none() || *inner == Some(*o) => Err(format!("refused: {e:#}")),
                        Err(_) => Ok("refused".into()),
                    }
                });
            }
        }
    }
}

fn jwt_parts_ok(t: &str) -> bool {
    let p: Vec<&str> = t.split('.').collect();
    p.len() == 3
}

// ---------------------------------------------------------------- C08

pub fn c08(c: &mut Ctx) {
    c.rule = "Response mode x jwks (none, malformed, every list of up to two (thorough: three) keys with every combination of use and alg) x the verifier's enc values x the wallet's alg list x the wallet's enc list. Non-trivial: a distinct combination.".into();
    c.assumptions = vec![
        "requests that do not name a response mode are left open".into(),
        "for unencrypted modes malformed metadata other than jwks is left open; so is a malformed key besides a good one".into(),
    ];
    let mut keys: Vec<(Json, Option<String>, bool)> = vec![];
    for u in [None, Some(json!("enc")), Some(json!("sig")), Some(json!("ENC")), Some(json!(7))] {
        for a in [None, Some(json!("ECDH-ES")), Some(json!("RSA-OAEP-256")), Some(json!("ecdh-es")), Some(json!(7))] {
            if u == Some(json!("ENC")) && a.is_none() {
                continue;
            }
            let mut k = json!({"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"});
            let odd = u == Some(json!(7)) || a == Some(json!(7));
            if let Some(u) = &u {
                k["use"] = u.clone();
            }
            if let Some(a) = &a {
                k["alg"] = a.clone();
            }
            let usable = (u == Some(json!("enc"))).then(|| a.as_ref().and_then(|a| a.as_str()).map(str::to_string)).flatten();
            keys.push((k, usable, odd));
        }
    }
    // (jwks, algs of usable keys, has odd keys); None: no jwks; Err: malformed
    type K = (Option<Json>, Result<(Vec<String>, bool), ()>);
    let mut jwks: Vec<K> = vec![(None, Err(()))];
    for bad in [json!("x"), json!({}), json!({"keys": "x"}), json!({"keys": [1]}), json!(null), json!([]), json!({"keys": null}), json!({"keys": {"use":"enc","alg":"ECDH-ES"}})] {
        jwks.push((Some(bad), Err(())));
    }
    jwks.push((Some(json!({"keys": []})), Ok((vec![], false))));
    let mut lists: Vec<Vec<usize>> = (0..keys.len()).map(|i| vec![i]).collect();
    for i in 0..keys.len() {
        for j in 0..keys.len() {
            if c.quick() && (keys[i].2 || keys[j].2) {
                continue;
            }
            lists.push(vec![i, j]);
            if !c.quick() {
                for k in 0..keys.len() {
                    if keys[i].2 || keys[j].2 || keys[k].2 {
                        continue;
                    }
                    lists.push(vec![i, j, k]);
                }
            }
        }
    }
    for l in lists {
        let ks: Vec<Json> = l.iter().map(|i| keys[*i].0.clone()).collect();
        let algs: Vec<String> = l.iter().filter_map(|i| keys[*i].1.clone()).collect();
        let odd = l.iter().any(|i| keys[*i].2);
        jwks.push((Some(json!({"keys": ks})), Ok((algs, odd))));
    }
    let texts = |v: &Option<Json>| -> Result<Option<Vec<String>>, ()> {
        match v {
            None => Ok(None),
            Some(v) => serde_json::from_value(v.clone()).map(Some).map_err(|_| ()),
        }
    };
    let encs: Vec<Option<Json>> = vec![
        None,
        Some(json!([])),
        Some(json!(["A128GCM"])),
        Some(json!(["A256GCM"])),
        Some(json!(["A256GCM", "A128GCM"])),
        Some(json!(["a128gcm"])),
        Some(json!("A128GCM")),
        Some(json!(["A128GCM", 1])),
        Some(json!(null)),
    ];
    let wallet_algs: Vec<Option<Json>> = vec![
        None,
        Some(json!([])),
        Some(json!(["ECDH-ES"])),
        Some(json!(["RSA-OAEP-256"])),
        Some(json!(["RSA-OAEP-256", "ECDH-ES"])),
        Some(json!("ECDH-ES")),
        Some(json!(["ECDH-ES", null])),
    ];
    let wallet_encs: Vec<Option<Json>> = vec![
        None,
        Some(json!([])),
        Some(json!(["A128GCM"])),
        Some(json!(["A256GCM"])),
        Some(json!(["A192GCM", "A256GCM", "A128GCM"])),
        Some(json!("A128GCM")),
        Some(json!({"A128GCM": 1})),
    ];
    let id = "x509_san_dns:v.example";
    for wa in &wallet_algs {
        for we in &wallet_encs {
            let mut extra = json!({"client_id_prefixes_supported": ["x509_san_dns"]});
            if let Some(w) = wa {
                extra["authorization_encryption_alg_values_supported"] = w.clone();
            }
            if let Some(w) = we {
                extra["authorization_encryption_enc_values_supported"] = w.clone();
            }
            let md = metadata(extra);
            let wallet = TestWallet::new(md, Net::dead(), true);
            for (ki, (jw, what)) in jwks.iter().enumerate() {
                for (ei, enc) in encs.iter().enumerate() {
                    for mode in ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"] {
                        let jarm = mode.ends_with(".jwt");
                        // Unencrypted modes do not look at any of it: every fourth list of two
                        // is enough in the quick tier.
                        if c.quick() && !jarm && ki > 40 && ki % 16 != 0 {
                            continue;
                        }
                        for no_md in [false, true] {
                            if no_md && (jw.is_some() || enc.is_some()) {
                                continue;
                            }
                            let via = if (ki + ei) % 5 == 0 { Via::Value } else { Via::Object };
                            let label = format!("{mode} jwks={} enc={enc:?} wallet alg={wa:?} enc={we:?} client_metadata={} {via:?}",
                                jw.as_ref().map(|j| j.to_string()).unwrap_or("(none)".into()), !no_md);
                            c.case(label, || {
                                let mut body = request(Some(id), mode);
                                if !no_md {
                                    let mut m = json!({"vp_formats_supported": {}});
                                    if let Some(j) = jw {
                                        m["jwks"] = j.clone();
                                    }
                                    if let Some(e) = enc {
                                        m["encrypted_response_enc_values_supported"] = e.clone();
                                    }
                                    body["client_metadata"] = m;
                                }
                                let jwt = token(&typ_header().to_string(), &body.to_string());
                                wallet.calls.lock().unwrap().clear();
                                let got = validate(&wallet, via, Some(id), &body, &jwt);
                                let calls = wallet.calls().len();
                                let (wa_t, we_t, enc_t) = (texts(wa), texts(we), texts(enc));
                                // Some(true): accept, Some(false): refuse, None: open
                                let want = if !jarm {
                                    if wa_t.is_err() || we_t.is_err() || enc_t.is_err() { None } else { Some(true) }
                                } else {
                                    match what {
                                        Err(()) => Some(false),
                                        Ok((algs, odd)) => {
                                            let a = match &wa_t {
                                                Err(()) => false,
                                                Ok(None) => !algs.is_empty(),
                                                Ok(Some(l)) => algs.iter().any(|x| l.contains(x)),
                                            };
                                            let e = match (&we_t, &enc_t) {
                                                (Err(()), _) => Some(false),
                                                (Ok(None), Err(())) => None,
                                                (Ok(None), Ok(_)) => Some(true),
                                                (Ok(Some(_)), Err(())) => Some(false),
                                                (Ok(Some(l)), Ok(v)) => {
                                                    let v = v.clone().unwrap_or(vec!["A128GCM".into()]);
                                                    Some(v.iter().any(|x| l.contains(x)))
                                                }
                                            };
                                            match (a, e) {
                                                (false, _) | (_, Some(false)) => Some(false),
                                                (true, None) => None,
                                                (true, Some(true)) if *odd => None,
                                                (true, Some(true)) => Some(true),
                                            }
                                        }
                                    }
                                };
                                match (got, want) {
                                    (Ok(_), Some(true)) => Ok(format!("accepted, encrypted={jarm}")),
                                    (Err(e), Some(true)) => Err(format!("refused: {e}")),
                                    (Ok(_), Some(false)) => Err("accepted".into()),
                                    (Err(_), Some(false)) => Ok(format!("refused before a callback={}", calls == 0)),
                                    (_, None) => Ok("left open".into()),
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    // Long lists: the one that fits at each place.
    for n in c.pick(vec![2usize, 3, 5, 9, 17, 33, 100], (2..60).chain([100, 500]).collect()) {
        let places: Vec<Option<usize>> = if n > 40 && c.quick() { vec![None, Some(0), Some(n / 2), Some(n - 1)] } else { (0..n).map(Some).chain([None]).collect() };
        for at in places {
            for what in ["key", "key alg", "enc", "wallet alg", "wallet enc"] {
                for mode in ["direct_post.jwt", "dc_api.jwt"] {
                    c.case(format!("{mode} the {what} that fits at {at:?} of {n}"), || {
                        let one = |i: usize, fits: &str, other: &str| if Some(i) == at { fits.to_string() } else { format!("{other}{i}") };
                        let k = |u: &str, a: &str| json!({"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "use": u, "alg": a});
                        let many = |f: &dyn Fn(usize) -> Json| -> Json { (0..n).map(f).collect() };
                        let keys = match what {
                            "key" => many(&|i| if Some(i) == at { k("enc", "ECDH-ES") } else { k("sig", "ECDH-ES") }),
                            "key alg" => many(&|i| k("enc", &one(i, "ECDH-ES", "ALG"))),
                            _ => json!([k("enc", "ECDH-ES")]),
                        };
                        let encs = if what == "enc" { many(&|i| json!(one(i, "A128GCM", "ENC"))) } else { json!(["A128GCM"]) };
                        let wa = if what == "wallet alg" { many(&|i| json!(one(i, "ECDH-ES", "X"))) } else { json!(["ECDH-ES"]) };
                        let we = if what == "wallet enc" { many(&|i| json!(one(i, "A128GCM", "X"))) } else { json!(["A128GCM"]) };
                        let mut body = request(Some(id), mode);
                        body["client_metadata"] = json!({"vp_formats_supported": {}, "jwks": {"keys": keys}, "encrypted_response_enc_values_supported": encs});
                        let w = TestWallet::new(metadata(json!({"client_id_prefixes_supported": ["x509_san_dns"],
                            "authorization_encryption_alg_values_supported": wa, "authorization_encryption_enc_values_supported": we})), Net::dead(), true);
                        match (validate(&w, Via::Object, Some(id), &body, ""), at.is_some()) {
                            (Ok(_), true) => Ok("accepted, long list".into()),
                            (Err(_), false) => Ok("refused, long list".into()),
                            (Ok(_), false) => Err("accepted".into()),
                            (Err(e), true) => Err(format!("refused: {e}")),
                        }
                    });
                }
            }
        }
    }
    // Names that are nearly the right ones, and keys of other types.
    let mut odd: Vec<(String, Json, Option<Json>, Option<Json>, Option<Json>, bool)> = vec![];
    let k = |u: &str, a: &str| json!({"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "use": u, "alg": a});
    for n in near_misses("enc") {
        odd.push((format!("use {n:?}"), k(&n, "ECDH-ES"), None, None, None, false));
    }
    let mut algs = near_misses("ECDH-ES");
    algs.extend(["ECDH-ES+A128KW", "ECDH-ES+A256KW", "RSA-OAEP", "dir"].map(String::from));
    for n in algs {
        odd.push((format!("alg {n:?}, the wallet lists ECDH-ES"), k("enc", &n), None, Some(json!(["ECDH-ES"])), None, false));
        odd.push((format!("alg ECDH-ES, the wallet lists {n:?}"), k("enc", "ECDH-ES"), None, Some(json!([n])), None, false));
        odd.push((format!("alg {n:?}, listed"), k("enc", &n), None, Some(json!(["x", n])), None, true));
        odd.push((format!("alg {n:?}, no list"), k("enc", &n), None, None, None, true));
    }
    let mut encs = near_misses("A128GCM");
    encs.extend(["A256GCM", "A192GCM", "A128CBC-HS256"].map(String::from));
    for n in encs {
        let key = k("enc", "ECDH-ES");
        odd.push((format!("enc {n:?}, the wallet lists A128GCM"), key.clone(), Some(json!([n])), None, Some(json!(["A128GCM"])), false));
        odd.push((format!("enc A128GCM, the wallet lists {n:?}"), key.clone(), Some(json!(["A128GCM"])), None, Some(json!([n])), false));
        odd.push((format!("no enc, the wallet lists {n:?}"), key.clone(), None, None, Some(json!([n])), false));
        odd.push((format!("enc {n:?}, listed"), key.clone(), Some(json!(["x", n])), None, Some(json!(["y", n])), true));
        odd.push((format!("enc {n:?}, no list"), key.clone(), Some(json!([n])), None, None, true));
    }
    for kty in [json!({"kty": "RSA", "n": "AA", "e": "AQAB"}), json!({"kty": "OKP", "crv": "X25519", "x": "AA"}), json!({"kty": "EC", "crv": "P-384", "x": "AA", "y": "AA"})] {
        let mut key = kty.clone();
        key["use"] = json!("enc");
        key["alg"] = json!("ECDH-ES");
        odd.push((format!("{kty}"), key.clone(), None, Some(json!(["ECDH-ES"])), None, true));
        key["kid"] = json!("1");
        odd.push((format!("{kty} with a kid"), key, None, Some(json!(["ECDH-ES"])), None, true));
    }
    for (name, key, enc, wa, we, want) in &odd {
        for mode in ["direct_post.jwt", "dc_api.jwt", "direct_post", "dc_api"] {
            for second in [false, true] {
                c.case(format!("{mode} {name} after another key={second}"), || {
                    let mut extra = json!({"client_id_prefixes_supported": ["x509_san_dns"]});
                    if let Some(w) = wa {
                        extra["authorization_encryption_alg_values_supported"] = w.clone();
                    }
                    if let Some(w) = we {
                        extra["authorization_encryption_enc_values_supported"] = w.clone();
                    }
                    let mut body = request(Some(id), mode);
                    let sig = json!({"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "use": "sig", "alg": "ES256"});
                    let keys = if second { json!([sig, key]) } else { json!([key]) };
                    body["client_metadata"] = json!({"vp_formats_supported": {}, "jwks": {"keys": keys}});
                    if let Some(e) = enc {
                        body["client_metadata"]["encrypted_response_enc_values_supported"] = e.clone();
                    }
                    let w = TestWallet::new(metadata(extra), Net::dead(), true);
                    let want = *want || !mode.ends_with(".jwt");
                    match validate(&w, Via::Object, Some(id), &body, "") {
                        Ok(_) if want => Ok("accepted, near miss".into()),
                        Ok(_) => Err("accepted".into()),
                        Err(e) if want => Err(format!("refused: {e}")),
                        Err(_) => Ok("refused, near miss".into()),
                    }
                });
            }
        }
    }
    // client_metadata that is no object.
    for mode in ["direct_post.jwt", "dc_api.jwt"] {
        for bad in [json!("x"), json!(null), json!([]), json!(1)] {
            c.case(format!("{mode} client_metadata={bad}"), || {
                let mut body = request(Some(id), mode);
                body["client_metadata"] = bad.clone();
                let w = TestWallet::new(metadata(json!({"client_id_prefixes_supported": ["x509_san_dns"]})), Net::dead(), true);
                match validate(&w, Via::Object, Some(id), &body, "") {
                    Ok(_) => Err("accepted".into()),
                    Err(_) => Ok("refused: no client_metadata".into()),
                }
            });
        }
    }
}

// ---------------------------------------------------------------- C10

/// A form, decoded here.
pub fn form(bytes: &[u8]) -> Result<BTreeMap<String, String>, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    let mut out = BTreeMap::new();
    if text.is_empty() {
        return Ok(out);
    }
    let dec = |s: &str| -> Result<String, String> {
        let b = s.as_bytes();
        let mut o = vec![];
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'+' => o.push(b' '),
                b'%' => {
                    let h = b.get(i + 1..i + 3).ok_or("cut escape")?;
                    let h = std::str::from_utf8(h).map_err(|e| e.to_string())?;
                    o.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                    i += 2;
                }
                x => o.push(x),
            }
            i += 1;
        }
        String::from_utf8(o).map_err(|e| e.to_string())
    };
    for p in text.split('&') {
        let (k, v) = p.split_once('=').ok_or("no '='")?;
        if out.insert(dec(k)?, dec(v)?).is_some() {
            return Err(format!("{k} twice"));
        }
    }
    Ok(out)
}

pub fn c10(c: &mut Ctx) {
    c.rule = "Response mode x kind of response x response_uri x answer of the network (fault, every status 100..=999, bodies: blank, without and with redirect_uri, invalid, not JSON, not UTF-8, cut at every byte); and every content of the response of a list with one good answer. Non-trivial: a distinct combination.".into();
    c.assumptions = vec![
        "a redirect_uri that is not a string, or a body that is JSON but not an object, may give no redirect or an error".into(),
        "fragments of the response_uri are not compared".into(),
    ];
    let md = metadata(json!({}));
    let uris = [
        "https://v.example/submit/1",
        "http://v.example:8080/s?session=1&x=%26",
        "https://v.example/",
        "https://v.example/a//b/%20c",
        "https://v.example/é?q=ü",
        "https://[::1]/s",
        "https://v.example/s#f",
    ];
    let texts: Vec<String> = {
        let mut t: Vec<String> = ["", "abc", "eyJ.e30.c2ln", "a&b=c", "a+b c%20", "{\"x\":1}", "é\u{1F600}", "\n\r\t", "=", "&", "%", "state=x", "\"\\"]
            .iter()
            .map(|s| s.to_string())
            .collect();
        t.extend(strings(&["a", "&", "=", "+", "%", " ", "é", "\"", "\\"], c.pick(2, 3)));
        t.sort();
        t.dedup();
        t
    };
    let object_item = |s: &str| {
        let Json::Object(m) = json!({"@context": ["x", s], "n": 1, "z": {"s": s}, "a": null}) else { unreachable!() };
        VpTokenItem::JsonObject(m)
    };
    // (name, response, fields expected)
    let mut responses: Vec<(String, AuthorizationResponse, BTreeMap<&'static str, Json>)> = vec![];
    for t in &texts {
        responses.push((
            format!("encrypted {t:?}"),
            AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: t.clone() }),
            [("response", json!(t))].into(),
        ));
        for (with_state, state) in [(false, None), (true, Some(t.clone())), (true, Some(String::new()))] {
            let mut vp = VpToken::with_credential(t.clone(), vec![VpTokenItem::String(t.clone()), object_item(t), VpTokenItem::String("second".into())]);
            vp.insert("other id", vec![]);
            let want = serde_json::to_value(&vp.0).unwrap();
            let r = match &state {
                None => UnencodedAuthorizationResponse::new(vp),
                Some(s) => UnencodedAuthorizationResponse::with_state(vp, State(s.clone())),
            };
            let mut f: BTreeMap<&'static str, Json> = [("vp_token", want)].into();
            if let Some(s) = &state {
                f.insert("state", json!(s));
            }
            responses.push((format!("plain {t:?} state={with_state} {state:?}"), AuthorizationResponse::Unencoded(r), f));
        }
    }
    #[derive(Clone, PartialEq, Debug)]
    enum Want {
        None,
        Url(String),
        Error,
        NoneOrError,
    }
    let mut answers: Vec<(String, Answer, Want)> = vec![("fault".into(), Answer::Fault, Want::Error)];
    let redirect = "https://v.example/done?x=1#y";
    let good = json!({"redirect_uri": redirect}).to_string();
    for status in 100..=999u16 {
        let ok = (200..300).contains(&status);
        answers.push((format!("status {status}"), Answer::Reply(status, good.clone().into_bytes()), if ok { Want::Url(redirect.into()) } else { Want::Error }));
        answers.push((format!("status {status}, no body"), Answer::Reply(status, vec![]), if ok { Want::None } else { Want::Error }));
    }
    let ok = |n: &str, b: &[u8], w: Want| (n.to_string(), Answer::Reply(200, b.to_vec()), w);
    for s in strings(&[" ", "\n", "\r", "\t"], 3) {
        answers.push(ok(&format!("blank {s:?}"), s.as_bytes(), Want::None));
    }
    answers.push(ok("empty object", b"{}", Want::None));
    answers.push(ok("blanks around", b" {} \n", Want::None));
    answers.push(ok("other members", br#"{"status":"ok","redirect":"https://x.example/","Redirect_uri":"https://x.example"}"#, Want::None));
    for k in near_misses("redirect_uri").into_iter().chain(["redirectUri", "redirect_url", "redirect", "location", "uri", "url", "response_uri", "Redirect_Uri", "REDIRECT_URI", "redirect-uri", "next"].map(String::from)) {
        if k != "redirect_uri" {
            answers.push(ok(&format!("member {k:?}"), json!({k.as_str(): redirect}).to_string().as_bytes(), Want::None));
        }
    }
    answers.push(ok("nested", br#"{"data":{"redirect_uri":"https://x.example/"}}"#, Want::None));
    for u in [
        "https://v.example/", "https://v.example/cb?response_code=091535f699ea575c7937fa5f0f454aee", "https://v.example/cb#response_code=1",
        "myapp://callback?x=1", "myapp:cb", "http://127.0.0.1:1/x", "https://v.example/é?ü=ñ", "https://v.example/a%20b",
    ] {
        answers.push(ok(&format!("redirect {u}"), json!({"redirect_uri": u}).to_string().as_bytes(), Want::Url(Url::parse(u).unwrap().to_string())));
        answers.push(ok(&format!("redirect {u} with more"), json!({"a": 1, "redirect_uri": u, "z": {"redirect_uri": "https://no.example"}}).to_string().as_bytes(), Want::Url(Url::parse(u).unwrap().to_string())));
        answers.push(("created".to_string() + u, Answer::Reply(201, json!({"redirect_uri": u}).to_string().into_bytes()), Want::Url(Url::parse(u).unwrap().to_string())));
    }
    for u in ["", "x", "/relative", "https://", "https:// v", "https://a b/", "//v.example/x", "https://[::1", "https://v.example:99999/"] {
        answers.push(ok(&format!("invalid redirect {u:?}"), json!({"redirect_uri": u}).to_string().as_bytes(), Want::Error));
    }
    for v in [json!(null), json!(1), json!(true), json!(["https://v.example/"]), json!({"redirect_uri": "https://v.example/"})] {
        answers.push(ok(&format!("redirect_uri {v}"), json!({"redirect_uri": v}).to_string().as_bytes(), Want::NoneOrError));
    }
    for v in ["null", "[]", "1", "\"https://v.example/\"", "true", "[{\"redirect_uri\":\"https://v.example/\"}]"] {
        answers.push(ok(&format!("JSON {v}"), v.as_bytes(), Want::NoneOrError));
    }
    for v in ["ok", "<html></html>", "redirect_uri=https://v.example/", "{", "{}x", "{'redirect_uri':'https://v.example/'}", "\u{feff}{}"] {
        answers.push(ok(&format!("not JSON {v:?}"), v.as_bytes(), Want::Error));
    }
    for cut in 1..good.len() {
        answers.push(ok(&format!("cut after {cut}"), &good.as_bytes()[..cut], Want::Error));
    }
    for at in 0..=good.len() {
        let mut b = good.as_bytes().to_vec();
        b.insert(at, 0xff);
        answers.push(ok(&format!("not UTF-8 at {at}"), &b, Want::Error));
    }
    answers.push(ok("not UTF-8 at all", &[0xff, 0xfe], Want::Error));

    let modes = ["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];
    let run = |c: &mut Ctx, mode: &str, uri: &str, r: &(String, AuthorizationResponse, BTreeMap<&'static str, Json>), a: &(String, Answer, Want)| {
        c.case(format!("{mode} {uri} {} answer: {}", r.0, a.0), || {
            let mut body = request(Some("x509_san_dns:v.example"), mode);
            if mode.starts_with("direct_post") {
                body["response_uri"] = json!(uri);
            }
            let req = request_object(body).map_err(|e| format!("{e:#}"))?;
            let answer = a.1.clone();
            let w = TestWallet::new(md.clone(), Net::new(move |_| answer.clone()), true);
            let got = now(w.submit_response(req, r.1.clone()));
            let log = w.net.log.lock().unwrap();
            let encrypted = matches!(r.1, AuthorizationResponse::Jwt(_));
            if mode.starts_with("dc_api") {
                if !log.is_empty() {
                    return Err(format!("sent {:?}", log[0]));
                }
                return match got {
                    Ok(None) => Ok("nothing sent".into()),
                    Ok(Some(u)) => Err(format!("redirect to {u}")),
                    Err(_) if encrypted != mode.ends_with(".jwt") => Ok("nothing sent, wrong kind refused".into()),
                    Err(e) => Err(format!("refused: {e:#}")),
                };
            }
            if encrypted != mode.ends_with(".jwt") {
                if !log.is_empty() {
                    return Err(format!("a response of the wrong kind was sent: {:?}", log[0]));
                }
                return match got {
                    Ok(_) => Err("a response of the wrong kind was accepted".into()),
                    Err(_) => Ok("wrong kind refused".into()),
                };
            }
            if log.len() != 1 {
                return Err(format!("{} HTTP requests; {:?}", log.len(), got.err()));
            }
            let q = &log[0];
            let want_uri = Url::parse(uri).unwrap();
            if q.method() != "POST" || without_fragment(&q.uri().to_string()) != without_fragment(want_uri.as_str()) {
                return Err(format!("{} {}", q.method(), q.uri()));
            }
            let types: Vec<_> = q.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap_or("?").to_string()).collect();
            if types.len() != 1 || types[0].split(';').next().unwrap().trim() != "application/x-www-form-urlencoded" {
                return Err(format!("content type {types:?}"));
            }
            let f = form(q.body())?;
            if f.keys().map(String::as_str).collect::<Vec<_>>() != r.2.keys().copied().collect::<Vec<_>>() {
                return Err(format!("sent {f:?}"));
            }
            for (k, v) in &r.2 {
                let sent = &f[*k];
                let same = if *k == "vp_token" {
                    serde_json::from_str::<Json>(sent).ok().as_ref() == Some(v)
                } else {
                    v == sent
                };
                if !same {
                    return Err(format!("sent {k}={sent}"));
                }
            }
            let got = got.map(|o| o.map(|u| u.to_string()));
            match (&a.2, got) {
                (Want::None, Ok(None)) => Ok("sent, no redirect".into()),
                (Want::Url(u), Ok(Some(g))) if *u == g => Ok("sent, redirect".into()),
                (Want::Error, Err(_)) => Ok("sent, error".into()),
                (Want::NoneOrError, Ok(None)) | (Want::NoneOrError, Err(_)) => Ok("sent, no usable redirect".into()),
                (w, g) => Err(format!("expected {w:?}, got {g:?}")),
            }
        });
    };
    // Any response_uri, with each kind of answer.
    {
        let composed = http_urls(!c.quick());
        let done = ok("redirect", json!({"redirect_uri": redirect}).to_string().as_bytes(), Want::Url(redirect.into()));
        let failed = ("fault".to_string(), Answer::Fault, Want::Error);
        let plain = responses.iter().find(|r| matches!(r.1, AuthorizationResponse::Unencoded(_))).unwrap().clone();
        let encrypted = responses.iter().find(|r| matches!(r.1, AuthorizationResponse::Jwt(_))).unwrap().clone();
        for u in &composed {
            run(c, "direct_post", u, &plain, &done);
            run(c, "direct_post.jwt", u, &encrypted, &done);
            run(c, "direct_post", u, &plain, &failed);
            // and any URL to go on to
            let on = ok(&format!("redirect to {}", &u[..u.len().min(80)]), json!({"redirect_uri": u}).to_string().as_bytes(), Want::Url(Url::parse(u).unwrap().to_string()));
            run(c, "direct_post", uris[0], &plain, &on);
        }
    }
    // Redirects and faults announced in headers change nothing.
    for status in [200u16, 201, 204, 301, 302, 303, 307, 308, 401, 429, 503] {
        for (n, h) in [
            ("Location", vec![("location", "https://elsewhere.example/")]),
            ("Retry-After", vec![("retry-after", "0")]),
            ("text/html", vec![("content-type", "text/html")]),
            ("Content-Length: 0", vec![("content-length", "0")]),
        ] {
            let w = if (200..300).contains(&status) { Want::Url(redirect.into()) } else { Want::Error };
            answers.push((format!("status {status} with {n}"), Answer::With(status, h, good.clone().into_bytes()), w));
        }
    }
    // Long answers.
    for n in [100usize, 2000, 65_536, 1_000_000] {
        let long = format!("https://v.example/done?x={}", "y".repeat(n));
        answers.push(ok(&format!("redirect of {n}"), json!({"redirect_uri": long}).to_string().as_bytes(), Want::Url(long)));
        answers.push(ok(&format!("{n} blanks"), " ".repeat(n).as_bytes(), Want::None));
        answers.push(ok(&format!("redirect after {n} blanks"), format!("{}{good}", " ".repeat(n)).as_bytes(), Want::Url(redirect.into())));
        answers.push(ok(&format!("redirect before {n} blanks"), format!("{good}{}", " ".repeat(n)).as_bytes(), Want::Url(redirect.into())));
        answers.push(ok(&format!("redirect after {n} other members"), json!({"aa": vec![1; n], "redirect_uri": redirect}).to_string().as_bytes(), Want::Url(redirect.into())));
        answers.push(ok(&format!("{n} letters"), "x".repeat(n).as_bytes(), Want::Error));
    }
    // Long contents.
    let mut large: Vec<(String, AuthorizationResponse, BTreeMap<&'static str, Json>)> = vec![];
    for n in [100usize, 2000, 65_536, 1_000_000] {
        let t = "e\u{e9}&".repeat(n / 4);
        large.push((format!("encrypted, {n}"), AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: t.clone() }), [("response", json!(t))].into()));
        let mut vp = VpToken::with_credential("id", vec![VpTokenItem::String(t.clone()); 3]);
        for i in 0..n.min(300) {
            vp.insert(format!("id {i}"), (0..i % 7).map(|j| VpTokenItem::String(format!("{i} {j}"))).collect());
        }
        let want = serde_json::to_value(&vp.0).unwrap();
        large.push((format!("plain, {n}"), AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::with_state(vp, State(t.clone()))), [("vp_token", want), ("state", json!(t))].into()));
    }
    let good_answer = ("good".to_string(), Answer::Reply(200, good.clone().into_bytes()), Want::Url(redirect.into()));
    for mode in modes {
        for uri in uris {
            for r in &responses {
                if c.quick() && uri != uris[0] && r.0.len() > 14 {
                    continue;
                }
                run(c, mode, uri, r, &good_answer);
            }
        }
        for r in [&responses[0], &responses[1], &responses[2]] {
            for a in &answers {
                run(c, mode, uris[0], r, a);
            }
        }
        for r in &large {
            run(c, mode, uris[0], r, &good_answer);
        }
        for n in [500usize, 5000, 60_000] {
            let uri = format!("https://v.example/{}?q={}", "p/".repeat(n / 4), "q".repeat(n / 2));
            run(c, mode, &uri, &responses[0], &good_answer);
            run(c, mode, &uri, &responses[1], &good_answer);
        }
    }
    // One wallet, one submission after another: each is sent, whatever became of those before.
    let moves: Vec<(usize, usize)> = (0..2).flat_map(|u| (0..4).map(move |a| (u, a))).collect();
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..c.pick(3, 4) {
        seqs = seqs.iter().flat_map(|s| moves.iter().map(move |m| { let mut s = s.clone(); s.push(*m); s })).collect();
        all.extend(seqs.clone());
    }
    for s in all {
        for encrypted in [false, true] {
            c.case(format!("one after another {s:?} encrypted={encrypted}"), || {
                let turn = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
                let net = {
                    let (turn, s) = (turn.clone(), s.clone());
                    Net::new(move |_| {
                        let n = turn.load(std::sync::atomic::Ordering::SeqCst);
                        match s[n].1 {
                            0 => Answer::Reply(200, json!({"redirect_uri": format!("https://v.example/{n}")}).to_string().into_bytes()),
                            1 => Answer::Reply(200, vec![]),
                            2 => Answer::Reply(500, vec![]),
                            _ => Answer::Fault,
                        }
                    })
                };
                let w = TestWallet::new(md.clone(), net, true);
                for (n, (u, a)) in s.iter().enumerate() {
                    turn.store(n, std::sync::atomic::Ordering::SeqCst);
                    let mut body = request(Some("x509_san_dns:v.example"), if encrypted { "direct_post.jwt" } else { "direct_post" });
                    let uri = format!("https://v.example/submit/{u}");
                    body["response_uri"] = json!(uri);
                    let req = request_object(body).map_err(|e| format!("{e:#}"))?;
                    let (r, field) = if encrypted {
                        (AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: format!("r{u}") }), "response")
                    } else {
                        (AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::with_credential(format!("r{u}"), vec![]))), "vp_token")
                    };
                    let got = now(w.submit_response(req, r));
                    let log = w.net.log.lock().unwrap();
                    if log.len() != n + 1 || log[n].uri().to_string() != uri {
                        return Err(format!("submission {n}: {} HTTP requests in all", log.len()));
                    }
                    let sent = form(log[n].body())?;
                    if sent.len() != 1 || !sent.get(field).is_some_and(|x| x.contains(&format!("r{u}"))) {
                        return Err(format!("submission {n}: sent {sent:?}"));
                    }
                    let ok = match (&got, a) {
                        (Ok(Some(x)), 0) => x.as_str() == format!("https://v.example/{n}"),
                        (Ok(None), 1) | (Err(_), 2 | 3) => true,
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("submission {n} gave {got:?}"));
                    }
                }
                Ok("submitted each time".into())
            });
        }
    }
}
