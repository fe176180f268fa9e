//! C02, C03, C04: verification of signed requests. C30: making the clients that sign them.
use crate::ctx::{hash64, now, Ctx};
use crate::env::*;
use openid4vp::core::authorization_request::parameters::ClientIdScheme;
use openid4vp::core::authorization_request::verification::verifier::P256Verifier;
use openid4vp::core::authorization_request::verification::{did, x509_hash, x509_san};
use openid4vp::core::authorization_request::{AuthorizationRequest, AuthorizationRequestObject, RequestIndirection};
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::verifier::client::{Client, DIDClient, X509HashClient, X509SanDnsClient};
use openid4vp::verifier::request_signer::{P256Signer, RequestSigner};
use openid4vp::wallet::Wallet;
use p256::ecdsa::signature::Verifier as _;
use serde_json::{json, Value as Json};
use std::collections::HashMap;
use std::sync::Arc;

/// Signed tokens are made once.
#[derive(Default)]
struct Tokens(HashMap<u64, String>);

impl Tokens {
    fn get(&mut self, header: &Json, body: &Json, k: u8) -> String {
        let id = hash64(&format!("{header} {body} {k}"));
        self.0
            .entry(id)
            .or_insert_with(|| jwt(header, body, &key(k)))
            .clone()
    }
}

fn body(client_id: Option<&str>) -> Json {
    let mut b = json!({
        "response_type": "vp_token",
        "response_mode": "direct_post",
        "response_uri": "https://v.example/submit/1",
        "nonce": "n-0S6_WzA2Mj",
        "state": "s",
    });
    if let Some(c) = client_id {
        b["client_id"] = json!(c);
    }
    b
}

fn with(mut header: Json, name: &str, v: &Option<Json>) -> Json {
    if let Some(v) = v {
        header[name] = v.clone();
    }
    header
}

/// What the wallet lists as signing algorithms.
fn alg_lists() -> Vec<Option<Json>> {
    vec![
        Some(json!(["ES256"])),
        None,
        Some(json!([])),
        Some(json!(["ES384"])),
        Some(json!(["ES384", "ES256"])),
        Some(json!(["none", "es256", "ES256K", "ES384", "xnone"])),
        Some(json!(["none", "es256", "ES256K", "ES384", "xnone", "ES256"])),
        Some(json!("ES256")),
        Some(json!([5])),
    ]
}

fn algs() -> Vec<Option<Json>> {
    vec![
        Some(json!("ES256")),
        None,
        Some(json!("ES384")),
        Some(json!("none")),
        Some(json!("es256")),
        Some(json!("ES256K")),
        Some(json!("")),
        Some(json!(5)),
        Some(json!(["ES256"])),
    ]
}

fn lists(list: &Option<Json>, alg: &Option<Json>) -> bool {
    match (list, alg) {
        (Some(Json::Array(l)), Some(a)) => {
            a.is_string() && l.contains(a) && l.iter().all(Json::is_string)
        }
        _ => false,
    }
}

fn wallet_md(list: &Option<Json>) -> WalletMetadata {
    let mut m = json!({"client_id_prefixes_supported": ["x509_san_dns", "x509_hash", "decentralized_identifier"]});
    if let Some(l) = list {
        m["request_object_signing_alg_values_supported"] = l.clone();
    }
    metadata(m)
}

/// Judge a result against what is expected; None: not specified.
fn judge(got: Result<(), String>, want: Option<bool>) -> Result<String, String> {
    match (got, want) {
        (Ok(()), Some(false)) => Err("accepted, but must be refused".into()),
        (Err(e), Some(true)) => Err(format!("refused ({e}), but must be accepted")),
        (Ok(()), _) => Ok("accepted".into()),
        (Err(e), _) => {
            let e = e.split([':', '(', '\'']).next().unwrap_or("").trim().to_string();
            Ok(format!("refused: {}", e.chars().take(60).collect::<String>()))
        }
    }
}

type Validate = fn(&WalletMetadata, &AuthorizationRequestObject, String) -> Result<(), String>;

fn san(m: &WalletMetadata, o: &AuthorizationRequestObject, j: String) -> Result<(), String> {
    x509_san::validate::<P256Verifier>(m, o, j, None).map_err(|e| format!("{e:#}"))
}
fn hash(m: &WalletMetadata, o: &AuthorizationRequestObject, j: String) -> Result<(), String> {
    x509_hash::validate::<P256Verifier>(m, o, j, None).map_err(|e| format!("{e:#}"))
}

/// A wallet that verifies signed requests with the library's own functions.
pub fn verifying_wallet(m: WalletMetadata, net: Net, resolver: OneKeys) -> TestWallet {
    let md = m.clone();
    TestWallet::judging(m, net, move |call, object| {
        let jwt = call.jwt.clone().ok_or_else(|| anyhow::anyhow!("not signed"))?;
        match call.method {
            "x509_san_dns" => x509_san::validate::<P256Verifier>(&md, object, jwt, None),
            "x509_hash" => x509_hash::validate::<P256Verifier>(&md, object, jwt, None),
            "decentralized_identifier" => {
                now(did::verify_with_resolver(&md, object, jwt, None, resolver.clone()))
            }
            other => anyhow::bail!("no verification for {other}"),
        }
    })
}

/// Resolves several verification methods.
#[derive(Clone, Debug, Default)]
pub struct OneKeys(pub Vec<(String, ssi_jwk::JWK)>);

impl ssi_jwk::JWKResolver for OneKeys {
    async fn fetch_public_jwk(
        &self,
        key_id: Option<&str>,
    ) -> Result<std::borrow::Cow<'_, ssi_jwk::JWK>, ssi_claims::ProofValidationError> {
        self.0
            .iter()
            .find(|(vm, _)| vm == key_id.unwrap_or("(none)"))
            .map(|(_, k)| std::borrow::Cow::Borrowed(k))
            .ok_or(ssi_claims::ProofValidationError::UnknownKey)
    }
}

pub fn ssi_jwk_of(n: u8) -> ssi_jwk::JWK {
    serde_json::from_value(public_jwk(n)).unwrap()
}

fn jwk_with(n: u8, more: Json) -> ssi_jwk::JWK {
    let mut j = public_jwk(n);
    for (k, v) in more.as_object().unwrap() {
        j[k] = v.clone();
    }
    serde_json::from_value(j).unwrap()
}

/// The replacement characters for single-character changes.
fn replacements(ch: char, quick: bool) -> Vec<char> {
    let menu: &[char] = if quick {
        &['A', 'b', '9', '_', '.', '=']
    } else {
        &['A', 'B', 'Q', 'g', 'w', 'z', '0', '5', '9', '_', '-', '.', '=', '+', '/', ' ', '\u{e9}']
    };
    let mut out: Vec<char> = menu.iter().copied().filter(|c| *c != ch).collect();
    // what other alphabets write for it, and the other case
    let alike = match ch {
        '-' => '+',
        '_' => '/',
        ch if ch.is_ascii_lowercase() => ch.to_ascii_uppercase(),
        ch => ch.to_ascii_lowercase(),
    };
    if alike != ch && !out.contains(&alike) {
        out.push(alike);
    }
    // the neighbours in the base64url alphabet: the smallest change of the decoded bytes
    let abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    if let Some(p) = abc.find(ch) {
        for q in [p ^ 1, p ^ 32] {
            let n = abc.as_bytes()[q] as char;
            if !out.contains(&n) {
                out.push(n);
            }
        }
    }
    out
}

/// A request body for this client whose token has every kind of character of base64url in each of
/// its parts.
fn telling_body(tokens: &mut Tokens, header: &Json, id: &str) -> (Json, String) {
    (0..)
        .find_map(|i| {
            let mut b = body(Some(id));
            b["state"] = json!(format!(">>>???{i}"));
            let t = tokens.get(header, &b, 1);
            let all = t.rsplit('.').take(2).all(|p| p.contains('-') && p.contains('_'));
            all.then_some((b, t))
        })
        .unwrap()
}

/// Every single-character change (and every truncation) of an accepted token is refused, directly
/// and by a wallet that receives it in a URL.
fn tamper(
    c: &mut Ctx,
    name: &str,
    token: &str,
    client_id: &str,
    object: &AuthorizationRequestObject,
    m: &WalletMetadata,
    resolver: OneKeys,
    direct: impl Fn(&AuthorizationRequestObject, String) -> Result<(), String>,
) {
    let wallet = verifying_wallet(m.clone(), Net::dead(), resolver);
    let whole = |t: &str| -> Result<(), String> {
        let url = AuthorizationRequest {
            client_id: Some(client_id.to_string()),
            request_indirection: RequestIndirection::ByValue { request: t.to_string() },
        }
        .to_url("openid4vp:".parse().unwrap())
        .map_err(|e| e.to_string())?;
        now(wallet.validate_request(url)).map(|_| ()).map_err(|e| format!("{e:#}"))
    };
    c.case(format!("{name}: untouched"), || {
        judge(direct(object, token.to_string()), Some(true))?;
        judge(whole(token), Some(true))
    });
    let chars: Vec<char> = token.chars().collect();
    let quick = c.quick();
    let signature_at = token.rfind('.').unwrap();
    for i in 0..chars.len() {
        let all: Vec<char> = if i > signature_at {
            (0u8..128).map(char::from).chain(['é', '\u{ff0d}']).filter(|r| *r != chars[i]).collect()
        } else {
            replacements(chars[i], quick)
        };
        for r in all {
            let mut t = chars.clone();
            t[i] = r;
            let t: String = t.into_iter().collect();
            c.case(format!("{name}: character {i} '{}' -> '{r}'", chars[i]), || {
                judge(direct(object, t.clone()), Some(false))?;
                judge(whole(&t), Some(false)).map(|s| format!("changed token {s}"))
            });
        }
        // truncated before i, and without i
        let cut: String = chars[..i].iter().collect();
        let without: String = chars[..i].iter().chain(&chars[i + 1..]).collect();
        for (what, t) in [("cut before", cut), ("without", without)] {
            c.case(format!("{name}: {what} character {i}"), || {
                judge(direct(object, t.clone()), Some(false))?;
                judge(whole(&t), Some(false)).map(|s| format!("shortened token {s}"))
            });
        }
    }
    // a character more, anywhere
    let edges: Vec<usize> = chars.iter().enumerate().filter(|(_, ch)| **ch == '.').flat_map(|(i, _)| [i, i + 1]).chain([0, chars.len()]).collect();
    for i in 0..=chars.len() {
        let menu: &[char] = if edges.contains(&i) || !quick {
            &[' ', '\n', '\t', '\r', '=', 'A', '_', '.', '+', '/', '"', '\u{0}', '\u{a0}']
        } else {
            &[' ', '\n', '=', 'A']
        };
        for ins in menu {
            let mut t = chars.clone();
            t.insert(i, *ins);
            let t: String = t.into_iter().collect();
            c.case(format!("{name}: {ins:?} inserted at {i}"), || {
                judge(direct(object, t.clone()), Some(false))?;
                judge(whole(&t), Some(false)).map(|s| format!("lengthened token {s}"))
            });
        }
    }
    for t in [
        format!("{token}.{}", b64u("x")),
        format!("{token}="),
        format!(".{token}"),
        format!("{token}A"),
        format!("{token}AAAA"),
    ] {
        c.case(format!("{name}: extended {t}"), || {
            judge(direct(object, t.clone()), Some(false))?;
            judge(whole(&t), Some(false)).map(|s| format!("extended token {s}"))
        });
    }
    // parts exchanged with those of another token by the same key
    let parts: Vec<&str> = token.split('.').collect();
    let other = jwt(
        &serde_json::from_slice(&unb64u(parts[0]).unwrap()).unwrap(),
        &json!({"client_id": client_id, "response_type": "vp_token", "response_mode": "dc_api", "nonce": "other"}),
        &key(1),
    );
    let o: Vec<&str> = other.split('.').collect();
    for (what, t) in [
        ("another's signature", format!("{}.{}.{}", parts[0], parts[1], o[2])),
        ("another's body", format!("{}.{}.{}", parts[0], o[1], parts[2])),
        ("no signature", format!("{}.{}.", parts[0], parts[1])),
        ("an all-zero signature", format!("{}.{}.{}", parts[0], parts[1], b64u([0u8; 64]))),
        ("an all-one signature", format!("{}.{}.{}", parts[0], parts[1], b64u([0xffu8; 64]))),
    ] {
        c.case(format!("{name}: {what}"), || {
            judge(direct(object, t.clone()), Some(false))?;
            judge(whole(&t), Some(false)).map(|s| format!("recombined token {s}"))
        });
    }
}

/// The parts C02 and C03 share: algorithm x list x chain x signing key.
fn x509_matrix(
    c: &mut Ctx,
    tokens: &mut Tokens,
    validate: Validate,
    a: &CertSpec,
    b: &CertSpec,
    id_of: &dyn Fn(&CertSpec) -> String,
) {
    let garbage = json!("AAAA");
    let odd = CertSpec { odd_key: true, ..a.clone() };
    let chain_of = |cs: &[&CertSpec]| -> Json { cs.iter().map(|c| json!(c.x5c())).collect() };
    // name, header value, which certificate is the leaf
    let chains: Vec<(&str, Option<Json>, Option<CertSpec>)> = vec![
        ("[A]", Some(chain_of(&[a])), Some(a.clone())),
        ("[A,B]", Some(chain_of(&[a, b])), Some(a.clone())),
        ("[B,A]", Some(chain_of(&[b, a])), Some(b.clone())),
        ("[A,A]", Some(chain_of(&[a, a])), Some(a.clone())),
        ("[A,B,A]", Some(chain_of(&[a, b, a])), Some(a.clone())),
        ("[A,garbage]", Some(json!([a.x5c(), "AAAA"])), Some(a.clone())),
        ("[garbage,A]", Some(json!(["AAAA", a.x5c()])), None),
        ("[A,5]", Some(json!([a.x5c(), 5])), Some(a.clone())),
        ("[5,A]", Some(json!([5, a.x5c()])), None),
        ("[[A]]", Some(json!([[a.x5c()]])), None),
        ("[]", Some(json!([])), None),
        ("A", Some(json!(a.x5c())), None),
        ("{0:A}", Some(json!({"0": a.x5c()})), None),
        ("[\"\"]", Some(json!([""])), None),
        ("[garbage]", Some(json!([garbage])), None),
        ("[odd key]", Some(json!([odd.x5c()])), Some(odd.clone())),
        ("null", Some(Json::Null), None),
        ("absent", None, None),
    ];
    for list in alg_lists() {
        let m = wallet_md(&list);
        for alg in algs() {
            for (chain_name, chain, leaf) in &chains {
                for named in [a, b] {
                    let client_id = id_of(named);
                    let object = request_object(body(Some(&client_id))).unwrap();
                    for k in [a.key, b.key, 9] {
                        let header = with(
                            with(json!({"typ": "oauth-authz-req+jwt"}), "alg", &alg),
                            "x5c",
                            chain,
                        );
                        let t = tokens.get(&header, &body(Some(&client_id)), k);
                        let want = lists(&list, &alg)
                            && alg == Some(json!("ES256"))
                            && leaf.as_ref().is_some_and(|l| {
                                !l.odd_key && id_of(l) == client_id && l.key == k
                            });
                        c.case(
                            format!(
                                "alg {} list {} chain {chain_name} client {client_id} signed by {k}",
                                json!(alg),
                                json!(list)
                            ),
                            || judge(validate(&m, &object, t), Some(want)),
                        );
                    }
                }
            }
        }
    }
}

/// First entries of a chain that are not the base64 of anything, though the certificate's is in them.
fn not_base64(c: &mut Ctx, tokens: &mut Tokens, validate: Validate, a: &CertSpec, id: &str) {
    let x = a.x5c();
    let bare = x.trim_end_matches('=').to_string();
    let mid = bare.len() / 2 / 4 * 4;
    let mut entries: Vec<String> = vec![];
    for sep in (0..=127u8).map(char::from).filter(|x| !x.is_ascii_alphanumeric() && !"+/=".contains(*x)).map(String::from).chain(["é".into(), "\u{0}\u{0}".into(), "\r\n".into()]) {
        entries.push(format!("{bare}{sep}"));
        entries.push(format!("{x}{sep}"));
        entries.push(format!("{x}{sep}AAAA"));
        entries.push(format!("{x}{sep}{x}"));
        entries.push(format!("{sep}{x}"));
        entries.push(format!("AAAA{sep}{x}"));
        entries.push(format!("{}{sep}{}", &bare[..mid], &bare[mid..]));
    }
    entries.push(format!("{bare}=A"));
    entries.push(format!("{bare}=AAAA"));
    entries.push(format!("{bare}=={bare}"));
    entries.push(format!("={bare}"));
    entries.push(format!("{}={}", &bare[..mid], &bare[mid..]));
    entries.push(format!("-----BEGIN CERTIFICATE-----\n{x}\n-----END CERTIFICATE-----"));
    let good = wallet_md(&Some(json!(["ES256"])));
    for e in entries {
        for chain in [json!([e]), json!([e, x])] {
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": chain});
            let t = tokens.get(&header, &body(Some(id)), a.key);
            let object = request_object(body(Some(id))).unwrap();
            let short = format!("{:?} .. {:?}", e.chars().take(8).collect::<String>(), e.chars().skip(bare.len().saturating_sub(4)).take(20).collect::<String>());
            c.case(format!("an x5c entry that is not base64: {short}, {} of them", chain.as_array().unwrap().len()), || judge(validate(&good, &object, t), Some(false)));
        }
    }
}

/// Header and body members that must not matter, longer lists, larger bodies, signatures over
/// something else, and histories: for a kind of signed request whose proper header is `header`
/// and whose client is `id`; `run` verifies a token for an object under a metadata.
fn beyond(
    c: &mut Ctx,
    tokens: &mut Tokens,
    id: &str,
    header: &Json,
    run: &dyn Fn(&WalletMetadata, &AuthorizationRequestObject, String) -> Result<(), String>,
    with_roots: Option<&dyn Fn(&WalletMetadata, &AuthorizationRequestObject, String, &[x509_cert::Certificate]) -> Result<(), String>>,
) {
    let good = wallet_md(&Some(json!(["ES256"])));
    let object = request_object(body(Some(id))).unwrap();
    let other = CertSpec::new(2, &[San::Dns("a.example")]);
    // members of the header that are not the key: they neither help the wrong key nor hurt the right one
    let members: Vec<(&str, Json)> = vec![
        ("jwk", public_jwk(2)),
        ("jwk", public_jwk(1)),
        ("jwks", json!({"keys": [public_jwk(2)]})),
        ("jku", json!("https://evil.example/jwks")),
        ("x5u", json!("https://evil.example/x5c")),
        ("x5t", json!(b64u([1u8; 20]))),
        ("x5t#S256", json!(b64u(sha256(&other.to_der())))),
        ("kid", json!("did:ex:b#k")),
        ("kid", json!("2")),
        ("x5c", json!([other.x5c()])),
        ("cty", json!("json")),
        ("iss", json!(id)),
        ("client_id", json!(id)),
        ("trust_chain", json!(["x"])),
        ("verifier_attestation", json!("x")),
        ("\u{e9}", json!({"a": [1, null]})),
        ("long", json!("x".repeat(100_000))),
    ];
    for (name, value) in &members {
        if header.get(*name).is_some() {
            continue;
        }
        for k in [1, 2] {
            let mut h = header.clone();
            h[*name] = value.clone();
            let t = tokens.get(&h, &body(Some(id)), k);
            let text: String = value.to_string().chars().take(40).collect();
            c.case(format!("header with {name} {text}, signed by {k}"), || judge(run(&good, &object, t), Some(k == 1)));
        }
    }
    // members of the body
    for (name, value) in [
        ("exp", json!(1)),
        ("exp", json!("soon")),
        ("nbf", json!(99_999_999_999u64)),
        ("iat", json!(0)),
        ("iss", json!("someone else")),
        ("aud", json!("https://self-issued.me/v2")),
        ("aud", json!(["x"])),
        ("jwk", public_jwk(2)),
        ("cnf", json!({"jwk": public_jwk(2)})),
        ("sub", json!(id)),
        ("kid", json!("2")),
        ("alg", json!("none")),
        ("long", json!("\u{e9}".repeat(50_000))),
        ("many", (0..2000).collect()),
    ] {
        for k in [1, 2] {
            let mut b = body(Some(id));
            b[name] = value.clone();
            let t = tokens.get(header, &b, k);
            let text: String = value.to_string().chars().take(40).collect();
            let o = request_object(b).unwrap();
            c.case(format!("body with {name} {text}, signed by {k}"), || judge(run(&good, &o, t), Some(k == 1)));
        }
    }
    // any text in another member, in the header and in the body
    for t in thrice() {
        for k in [1, 2] {
            let mut h = header.clone();
            h["x"] = json!(t);
            let token = tokens.get(&h, &body(Some(id)), k);
            c.case(format!("header with {t:?}, signed by {k}"), || judge(run(&good, &object, token), Some(k == 1)));
            let mut b = body(Some(id));
            b["state"] = json!(t);
            let token = tokens.get(header, &b, k);
            let o = request_object(b).unwrap();
            c.case(format!("body with {t:?}, signed by {k}"), || judge(run(&good, &o, token), Some(k == 1)));
        }
    }
    // Roots of trust neither make up for the wrong key or client nor for a leaf that is itself trusted.
    if let Some(with_roots) = with_roots {
        let leaf = unb64(header["x5c"][0].as_str().unwrap());
        let leaf: x509_cert::Certificate = x509_cert::der::Decode::from_der(&leaf).unwrap();
        let sets: Vec<(&str, Vec<x509_cert::Certificate>)> = vec![
            ("none", vec![]),
            ("the leaf", vec![leaf.clone()]),
            ("another", vec![other.cert()]),
            ("another and the leaf", vec![other.cert(), leaf.clone()]),
        ];
        let evil = format!("{id}x");
        for (name, roots) in &sets {
            for k in [1, 2] {
                for client in [id, evil.as_str()] {
                    for list in ["ES256", "ES384"] {
                        let t = tokens.get(header, &body(Some(client)), k);
                        let o = request_object(body(Some(client))).unwrap();
                        let m = wallet_md(&Some(json!([list])));
                        let right = k == 1 && client == id && list == "ES256";
                        // whether a leaf is accepted that none of the roots vouches for is left open
                        let want = if right && !name.contains("the leaf") { None } else { Some(right) };
                        c.case(format!("trusted: {name}; signed by {k} for {client}, listed {list}"), || judge(with_roots(&m, &o, t, roots), want));
                    }
                }
            }
        }
    }
    // the same header and body, written otherwise
    for (how, h) in spelled(header) {
        for (how_b, b) in spelled(&body(Some(id))) {
            for k in [1, 2] {
                let token = jwt_text(&h, &b, &key(k));
                c.case(format!("header {how}, body {how_b}, signed by {k}"), || judge(run(&good, &object, token), Some(k == 1)));
            }
        }
    }
    // the listed algorithms: every position in a long list, and not in it
    for n in [1usize, 2, 3, 5, 8, 20, 60] {
        for at in (0..n).map(Some).chain([None]) {
            let l: Vec<String> = (0..n).map(|i| if Some(i) == at { "ES256".into() } else { format!("ALG{i}") }).collect();
            let m = wallet_md(&Some(json!(l)));
            let t = tokens.get(header, &body(Some(id)), 1);
            c.case(format!("ES256 at {at:?} of {n} listed algorithms"), || judge(run(&m, &object, t), Some(at.is_some())));
        }
    }
    // signatures of another form or over something else
    let t = tokens.get(header, &body(Some(id)), 1);
    let parts: Vec<&str> = t.split('.').collect();
    let (h, b) = (parts[0], parts[1]);
    let sign = |m: &[u8]| -> p256::ecdsa::Signature {
        use p256::ecdsa::signature::Signer as _;
        key(1).sign(m)
    };
    let whole = format!("{h}.{b}");
    let sig = unb64u(parts[2]).unwrap();
    let mut forms: Vec<(String, Vec<u8>)> = vec![
        ("in DER".into(), sign(whole.as_bytes()).to_der().as_bytes().to_vec()),
        ("of the header".into(), sign(h.as_bytes()).to_vec()),
        ("of the body".into(), sign(b.as_bytes()).to_vec()),
        ("of the header and a dot".into(), sign(format!("{h}.").as_bytes()).to_vec()),
        ("of a dot and the body".into(), sign(format!(".{b}").as_bytes()).to_vec()),
        ("of both without the dot".into(), sign(format!("{h}{b}").as_bytes()).to_vec()),
        ("of both and a dot".into(), sign(format!("{h}.{b}.").as_bytes()).to_vec()),
        ("of the decoded body".into(), sign(&unb64u(b).unwrap()).to_vec()),
        ("of the decoded parts".into(), sign(&[unb64u(h).unwrap(), b".".to_vec(), unb64u(b).unwrap()].concat()).to_vec()),
        ("of the hash".into(), sign(&sha256(whole.as_bytes())).to_vec()),
        ("of nothing".into(), sign(b"").to_vec()),
        ("of the client_id".into(), sign(id.as_bytes()).to_vec()),
        ("with its halves exchanged".into(), [&sig[32..], &sig[..32]].concat()),
        ("reversed".into(), sig.iter().rev().copied().collect()),
        ("twice".into(), [&sig[..], &sig[..]].concat()),
        ("with r = 0".into(), [&[0u8; 32][..], &sig[32..]].concat()),
        ("with s = 0".into(), [&sig[..32], &[0u8; 32][..]].concat()),
        ("as text".into(), parts[2].as_bytes().to_vec()),
        ("in hexadecimal".into(), sig.iter().flat_map(|x| format!("{x:02x}").into_bytes()).collect()),
        ("after a zero".into(), [&[0u8][..], &sig[..]].concat()),
        ("before a zero".into(), [&sig[..], &[0u8][..]].concat()),
    ];
    for n in 0..sig.len() {
        forms.push((format!("cut to {n} bytes"), sig[..n].to_vec()));
        let mut s = sig.clone();
        s[n] ^= 1 << (n % 8);
        forms.push((format!("with a bit of byte {n} changed"), s));
    }
    for (what, s) in forms {
        let t = format!("{h}.{b}.{}", b64u(&s));
        c.case(format!("a signature {what}"), || judge(run(&good, &object, t), Some(false)));
    }
    // histories: what was verified before does not matter
    let evil = body(Some("x509_san_dns:evil.example"));
    let moves: Vec<(&str, String, AuthorizationRequestObject, WalletMetadata, bool)> = vec![
        ("good", tokens.get(header, &body(Some(id)), 1), request_object(body(Some(id))).unwrap(), good.clone(), true),
        ("other key", tokens.get(header, &body(Some(id)), 2), request_object(body(Some(id))).unwrap(), good.clone(), false),
        ("other signature", format!("{h}.{b}.{}", b64u([7u8; 64])), request_object(body(Some(id))).unwrap(), good.clone(), false),
        ("other client", tokens.get(header, &evil, 1), request_object(evil.clone()).unwrap(), good.clone(), false),
        ("not listed", tokens.get(header, &body(Some(id)), 1), request_object(body(Some(id))).unwrap(), wallet_md(&Some(json!(["ES384"]))), false),
        ("other body", {
            let mut x = body(Some(id));
            x["nonce"] = json!("another");
            tokens.get(header, &x, 1)
        }, {
            let mut x = body(Some(id));
            x["nonce"] = json!("another");
            request_object(x).unwrap()
        }, good.clone(), true),
    ];
    let depth = c.pick(3, 4);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..moves.len()).map(move |m| { let mut s = s.clone(); s.push(m); s })).collect();
    }
    for s in seqs {
        c.case(format!("one after another: {}", s.iter().map(|m| moves[*m].0).collect::<Vec<_>>().join(", ")), || {
            for (n, i) in s.iter().enumerate() {
                let (what, t, o, m, want) = &moves[*i];
                judge(run(m, o, t.clone()), Some(*want)).map_err(|e| format!("{what} at {n}: {e}"))?;
            }
            Ok("history".into())
        });
    }
}

pub fn c02(c: &mut Ctx) {
    c.rule = "the product of alg header, wallet algorithm list, certificate chain, client_id and signing key; the product of SAN list, client_id and signing key; every single-character substitution and truncation of accepted tokens, directly and through Wallet::validate_request. Non-trivial: every case (each runs the real verification).".into();
    c.assumptions.push("P-256/SHA-256 as provided by the p256 crate; the malleated (high-s) twin of a signature is not tried".into());
    c.assumptions.push("a client_id without the prefix, or with another prefix, is not specified when called directly".into());
    let mut tokens = Tokens::default();
    let a = CertSpec::new(1, &[San::Dns("a.example")]);
    let b = CertSpec::new(2, &[San::Dns("b.example")]);
    x509_matrix(c, &mut tokens, san, &a, &b, &|s| format!("x509_san_dns:{}", s.dns()[0]));
    not_base64(c, &mut tokens, san, &a, "x509_san_dns:a.example");
    // SAN lists
    let lists_of_sans: Vec<Vec<San>> = vec![
        vec![],
        vec![San::Dns("a.example")],
        vec![San::Dns("b.example")],
        vec![San::Dns("A.example")],
        vec![San::Dns("*.example")],
        vec![San::Dns("*")],
        vec![San::Dns("example")],
        vec![San::Dns("a.example.b.example")],
        vec![San::Dns("aa.example")],
        vec![San::Dns("")],
        vec![San::Dns("a.example.")],
        vec![San::Dns(" a.example")],
        vec![San::Dns("x.a.example")],
        vec![San::Uri("a.example")],
        vec![San::Uri("https://a.example")],
        vec![San::Email("a.example")],
        vec![San::Ip([1, 2, 3, 4])],
        vec![San::Dns("b.example"), San::Dns("a.example")],
        vec![San::Dns("a.example"), San::Dns("b.example")],
        vec![San::Uri("https://a.example"), San::Dns("a.example")],
        vec![San::Uri("a.example"), San::Dns("b.example")],
        vec![San::Ip([1, 2, 3, 4]), San::Email("a@a.example"), San::Dns("c.example"), San::Dns("a.example")],
    ];
    let names = [
        "a.example", "b.example", "A.example", "*.example", "x.example", "x.a.example", "example", "", "a", "a.exampl",
        "a.example.", " a.example", "https://a.example", "a.example.b.example", "1.2.3.4", "leaf",
        "x509_san_dns:a.example", "a.example:443",
    ];
    let good = wallet_md(&Some(json!(["ES256"])));
    for sans in &lists_of_sans {
        for critical in [false, true] {
            for cn in ["leaf", "a.example"] {
                let spec = CertSpec { critical, cn, ..CertSpec::new(1, sans) };
                let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [spec.x5c()]});
                for n in names {
                    for unprefixed in [false, true] {
                        let client_id = if unprefixed { n.to_string() } else { format!("x509_san_dns:{n}") };
                        if unprefixed && (critical || cn != "leaf") {
                            continue;
                        }
                        let k = 1;
                        let t = tokens.get(&header, &body(Some(&client_id)), k);
                        let object = request_object(body(Some(&client_id))).unwrap();
                        let matches = spec.dns().contains(&n);
                        // Without the prefix: at least never for a name that is not there.
                        let want = if unprefixed {
                            if matches || n.starts_with("x509_san_dns:") { None } else { Some(false) }
                        } else {
                            Some(matches)
                        };
                        c.case(
                            format!("SAN {sans:?} critical {critical} cn {cn} client {client_id}"),
                            || judge(san(&good, &object, t), want),
                        );
                    }
                }
            }
        }
    }
    // every near miss of a name, in the certificate and in the client_id
    let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [a.x5c()]});
    for n in near_misses("a.example") {
        let id = format!("x509_san_dns:{n}");
        let t = tokens.get(&header, &body(Some(&id)), 1);
        let object = request_object(body(Some(&id))).unwrap();
        c.case(format!("a.example is asked for as {n:?}"), || judge(san(&good, &object, t), Some(false)));
        if !n.is_ascii() {
            continue;
        }
        let spec = CertSpec::new(1, &[San::Dns(Box::leak(n.clone().into_boxed_str()))]);
        let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [spec.x5c()]});
        let id = "x509_san_dns:a.example";
        let t = tokens.get(&header, &body(Some(id)), 1);
        let object = request_object(body(Some(id))).unwrap();
        c.case(format!("{n:?} is asked for as a.example"), || judge(san(&good, &object, t), Some(false)));
    }
    // the algorithm and the listed ones, near misses of each other
    for n in near_misses("ES256") {
        for (alg, list) in [(n.as_str(), "ES256"), ("ES256", n.as_str()), (n.as_str(), n.as_str())] {
            let header = json!({"alg": alg, "typ": "oauth-authz-req+jwt", "x5c": [a.x5c()]});
            let id = "x509_san_dns:a.example";
            let t = tokens.get(&header, &body(Some(id)), 1);
            let object = request_object(body(Some(id))).unwrap();
            let m = wallet_md(&Some(json!([list])));
            c.case(format!("algorithm {alg:?}, listed is {list:?}"), || judge(san(&m, &object, t), Some(false)));
        }
    }
    // long chains and long lists of names
    for n in c.pick(vec![2usize, 4, 7, 12], (1..30).collect()) {
        for at in 0..n {
            let mut chain: Vec<CertSpec> = (0..n).map(|i| CertSpec { serial: 40 + i as u8, ..CertSpec::new(2, &[San::Dns("b.example")]) }).collect();
            chain[at] = a.clone();
            let x5c: Json = chain.iter().map(|s| json!(s.x5c())).collect();
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": x5c});
            for k in [1, 2] {
                for id in ["x509_san_dns:a.example", "x509_san_dns:b.example"] {
                    let t = tokens.get(&header, &body(Some(id)), k);
                    let object = request_object(body(Some(id))).unwrap();
                    let want = (at == 0) == (k == 1) && (at == 0) == id.ends_with("a.example");
                    c.case(format!("A at {at} of {n} certificates, {id}, signed by {k}"), || judge(san(&good, &object, t), Some(want)));
                }
            }
            let names: Vec<San> = (0..n)
                .map(|i| San::Dns(if i == at { "a.example" } else { Box::leak(format!("n{i}.example").into_boxed_str()) }))
                .collect();
            let spec = CertSpec::new(1, &names);
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [spec.x5c()]});
            for (asked, want) in [("a.example".to_string(), true), (format!("n{at}.example"), false), (format!("n{n}.example"), false), (format!("n{}.example", (at + 1) % n), n > 1)] {
                let id = format!("x509_san_dns:{asked}");
                let t = tokens.get(&header, &body(Some(&id)), 1);
                let object = request_object(body(Some(&id))).unwrap();
                c.case(format!("a.example at {at} of {n} names, asked for {asked}"), || judge(san(&good, &object, t), Some(want)));
            }
        }
    }
    for n in [1usize, 31, 32, 63, 64, 127, 128, 200, 253, 254, 255, 256, 300, 1000] {
        let long: &'static str = Box::leak(format!("{}.example", "a".repeat(n)).into_boxed_str());
        let spec = CertSpec::new(1, &[San::Dns(long)]);
        let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [spec.x5c()]});
        for (asked, want) in [(long.to_string(), true), (format!("{long}x"), false), (long[1..].to_string(), false), (long[..long.len() - 1].to_string(), false), (format!("{}b.example", "a".repeat(n - 1)), false)] {
            let id = format!("x509_san_dns:{asked}");
            let t = tokens.get(&header, &body(Some(&id)), 1);
            let object = request_object(body(Some(&id))).unwrap();
            c.case(format!("a name of {} characters, asked for {asked}", long.len()), || judge(san(&good, &object, t), Some(want)));
        }
    }
    beyond(c, &mut tokens, "x509_san_dns:a.example", &json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [a.x5c()]}), &san, Some(&|m, o, j, r| x509_san::validate::<P256Verifier>(m, o, j, Some(r)).map_err(|e| format!("{e:#}"))));
    // no client_id at all
    let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [a.x5c()]});
    let t = tokens.get(&header, &body(None), 1);
    c.case("no client_id", || {
        judge(san(&good, &request_object(body(None)).unwrap(), t), Some(false))
    });
    for (name, header) in [
        ("plain", json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [a.x5c()], "y": ">>>???"})),
        ("with a chain", json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [a.x5c(), b.x5c()]})),
    ] {
        if name != "plain" && c.quick() {
            continue;
        }
        let id = "x509_san_dns:a.example";
        let (b, t) = telling_body(&mut tokens, &header, id);
        let object = request_object(b).unwrap();
        let m = good.clone();
        tamper(c, &format!("tamper {name}"), &t, id, &object, &good, OneKeys::default(), |o, t| san(&m, o, t));
    }
}

pub fn c03(c: &mut Ctx) {
    c.rule = "the product of alg header, wallet algorithm list, certificate chain, client_id and signing key; all near-misses of the hash; every single-character substitution of the hash and of accepted tokens, directly and through Wallet::validate_request. Non-trivial: every case (each runs the real verification).".into();
    c.assumptions.push("P-256/SHA-256 as provided by the p256 crate; the malleated (high-s) twin of a signature is not tried. The expected hash is computed by the harness's own SHA-256".into());
    let mut tokens = Tokens::default();
    let a = CertSpec::new(1, &[San::Dns("a.example")]);
    let b = CertSpec::new(2, &[San::Dns("b.example")]);
    let id_of = |s: &CertSpec| format!("x509_hash:{}", b64u(sha256(&s.to_der())));
    x509_matrix(c, &mut tokens, hash, &a, &b, &id_of);
    not_base64(c, &mut tokens, hash, &a, &id_of(&a));
    let good = wallet_md(&Some(json!(["ES256"])));
    let mut near: Vec<String> = vec![];
    for k in 1..6u8 {
        // certificates of the same key that differ in their serial number or subject
        let spec = CertSpec { serial: 50 + k, ..CertSpec::new(1, &[]) };
        near.push(b64u(sha256(&spec.to_der())));
    }
    let der = a.to_der();
    let h = b64u(sha256(&der));
    near.push(String::new());
    near.push("x509_hash:".into());
    near.push(format!("{h}="));
    near.push(format!("={h}"));
    near.push(format!("{h} "));
    near.push(h.to_lowercase());
    near.push(h.to_uppercase());
    near.push(format!("x509_hash:{h}"));
    near.push(format!("{h}{h}"));
    near.push(b64u(sha256(h.as_bytes())));
    near.push(b64u(sha256(a.x5c().as_bytes())));
    near.push(b64u(&der));
    near.push(sha256(&der).iter().map(|x| format!("{x:02x}")).collect());
    near.push(b64u(&sha256(&der)[..16]));
    near.push("a.example".into());
    let chars: Vec<char> = h.chars().collect();
    for i in 0..chars.len() {
        for r in replacements(chars[i], c.quick()) {
            let mut x = chars.clone();
            x[i] = r;
            near.push(x.into_iter().collect());
        }
        near.push(chars[..i].iter().collect());
    }
    let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [a.x5c()]});
    for n in near {
        if n == h {
            continue;
        }
        for id in [format!("x509_hash:{n}"), n.clone()] {
            // x509_hash:<hash> itself without a further prefix is the accepted form
            if id == format!("x509_hash:{h}") {
                continue;
            }
            let t = tokens.get(&header, &body(Some(&id)), 1);
            let object = request_object(body(Some(&id))).unwrap();
            c.case(format!("near miss {id}"), || judge(hash(&good, &object, t), Some(false)));
        }
    }
    for n in near_misses("ES256") {
        for (alg, list) in [(n.as_str(), "ES256"), ("ES256", n.as_str()), (n.as_str(), n.as_str())] {
            let header = json!({"alg": alg, "typ": "oauth-authz-req+jwt", "x5c": [a.x5c()]});
            let id = id_of(&a);
            let t = tokens.get(&header, &body(Some(&id)), 1);
            let object = request_object(body(Some(&id))).unwrap();
            let m = wallet_md(&Some(json!([list])));
            c.case(format!("algorithm {alg:?}, listed is {list:?}"), || judge(hash(&m, &object, t), Some(false)));
        }
    }
    // a range of certificates: each is accepted under its own hash only
    let specs: Vec<CertSpec> = (0..c.pick(8u8, 20))
        .map(|n| CertSpec { serial: n + 1, critical: n % 2 == 0, ..CertSpec::new(1 + n % 3, &[San::Dns("a.example")]) })
        .collect();
    for x in &specs {
        for y in &specs {
            let id = id_of(y);
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [x.x5c()]});
            let t = tokens.get(&header, &body(Some(&id)), x.key);
            let object = request_object(body(Some(&id))).unwrap();
            c.case(format!("certificate {} under the hash of {}", x.serial, y.serial), || {
                judge(hash(&good, &object, t), Some(x.serial == y.serial))
            });
        }
        // the same bytes written otherwise: not the client_id
        let h = b64u(sha256(&x.to_der()));
        let standard = h.replace('-', "+").replace('_', "/");
        let mut forms = vec![standard.clone(), format!("{standard}="), format!("{h}="), h.replace('_', "/"), h.replace('-', "+"), h.replace('-', "%2D"), h.replace('_', "%5F"), h.replace('-', "_"), h.replace('_', "-"), h.to_lowercase()];
        forms.retain(|f| *f != h);
        forms.sort();
        forms.dedup();
        for f in forms {
            let id = format!("x509_hash:{f}");
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [x.x5c()]});
            let t = tokens.get(&header, &body(Some(&id)), x.key);
            let object = request_object(body(Some(&id))).unwrap();
            c.case(format!("certificate {} under {f}", x.serial), || judge(hash(&good, &object, t), Some(false)));
        }
    }
    for n in c.pick(vec![2usize, 4, 7, 12], (1..30).collect()) {
        for at in 0..n {
            let mut chain: Vec<CertSpec> = (0..n).map(|i| CertSpec { serial: 40 + i as u8, ..CertSpec::new(2, &[]) }).collect();
            chain[at] = a.clone();
            let x5c: Json = chain.iter().map(|s| json!(s.x5c())).collect();
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": x5c});
            for k in [1, 2] {
                for asked in [0, at, n - 1] {
                    let id = id_of(&chain[asked]);
                    let t = tokens.get(&header, &body(Some(&id)), k);
                    let object = request_object(body(Some(&id))).unwrap();
                    let want = asked == 0 && k == chain[0].key;
                    c.case(format!("A at {at} of {n} certificates, the hash of {asked}, signed by {k}"), || judge(hash(&good, &object, t), Some(want)));
                }
            }
        }
    }
    beyond(c, &mut tokens, &id_of(&a), &header, &hash, Some(&|m, o, j, r| x509_hash::validate::<P256Verifier>(m, o, j, Some(r)).map_err(|e| format!("{e:#}"))));
    let t = tokens.get(&header, &body(None), 1);
    c.case("no client_id", || {
        judge(hash(&good, &request_object(body(None)).unwrap(), t), Some(false))
    });
    let id = id_of(&a);
    let mut header = header;
    header["y"] = json!(">>>???");
    let (b, t) = telling_body(&mut tokens, &header, &id);
    let object = request_object(b).unwrap();
    let m = good.clone();
    tamper(c, "tamper", &t, &id, &object, &good, OneKeys::default(), |o, t| hash(&m, o, t));
}

/// Keys of the kinds a DID can have besides P-256: their names, two of each, with the private parts.
fn other_keys() -> Vec<(&'static str, ssi_jwk::JWK, ssi_jwk::JWK)> {
    let all: Json = serde_json::from_str(include_str!("../keys.json")).unwrap();
    let get = |n: String| serde_json::from_value(all[n].clone()).unwrap();
    [("EdDSA", "EdDSA"), ("ES256K", "ES256K"), ("RS256", "RS256"), ("PS256", "RS256")].map(|(alg, kind)| (alg, get(format!("{kind}1")), get(format!("{kind}2")))).into()
}

fn signed_with(alg: &str, k: &ssi_jwk::JWK, header: &Json, body: &Json) -> String {
    let payload = format!("{}.{}", b64u(header.to_string()), b64u(body.to_string()));
    let a: ssi_jwk::Algorithm = serde_json::from_value(json!(alg)).unwrap();
    let sig = ssi_claims::jws::sign_bytes(a, payload.as_bytes(), k).unwrap_or_else(|e| panic!("signing with {alg}: {e}"));
    format!("{payload}.{}", b64u(sig))
}

/// DID requests signed with other algorithms than ES256: the same conditions.
fn other_algorithms(c: &mut Ctx) {
    let id = "decentralized_identifier:did:ex:a";
    let b = body(Some(id));
    let object = request_object(b.clone()).unwrap();
    let keys = other_keys();
    let mut publics: Vec<(String, ssi_jwk::JWK)> = vec![("P-256".into(), ssi_jwk_of(1))];
    for (alg, k1, k2) in &keys {
        publics.push((format!("{alg} 1"), k1.to_public()));
        publics.push((format!("{alg} 2"), k2.to_public()));
    }
    let header = |alg: &str| json!({"alg": alg, "typ": "oauth-authz-req+jwt", "kid": "did:ex:a#k"});
    let verify = |list: &Json, t: String, trusted: Option<&[String]>, r: OneKeys| -> Result<(), String> {
        let m = wallet_md(&Some(list.clone()));
        now(did::verify_with_resolver(&m, &object, t, trusted, r)).map_err(|e| format!("{e:#}"))
    };
    let knows = |k: &ssi_jwk::JWK| OneKeys(vec![("did:ex:a#k".into(), k.clone())]);
    let names: Vec<&str> = keys.iter().map(|k| k.0).chain(["ES256", "ES384", "ES512", "RS512", "HS256", "none"]).collect();
    for (alg, k1, _) in &keys {
        // as which algorithm it is announced x what the wallet lists x which key the DID has
        for announced in &names {
            let t = signed_with(alg, k1, &header(announced), &b);
            for list in [json!([alg]), json!(["ES256", alg]), json!([announced]), json!(["ES256"]), json!([]), json!(names)] {
                for (who, k) in &publics {
                    let listed = list.as_array().unwrap().contains(&json!(announced));
                    let right = serde_json::to_value(k).unwrap() == serde_json::to_value(k1.to_public()).unwrap();
                    // (the ssi crate takes an Ed25519 signature whatever the header calls it)
                    let want = if !listed { Some(false) } else if *announced == "none" || (right && announced != alg) { None } else { Some(right) };
                    c.case(format!("signed with {alg}, announced as {announced}, wallet lists {list}, the DID's key is {who}"), || judge(verify(&list, t.clone(), None, knows(k)), want));
                }
            }
        }
        let list = json!(["ES256", alg]);
        let t = signed_with(alg, k1, &header(alg), &b);
        let public = k1.to_public();
        // the other conditions
        for (trusted, want) in [(vec![], false), (vec!["did:ex:b"], false), (vec!["did:ex:b", "did:ex:a"], true)] {
            let trusted: Vec<String> = trusted.into_iter().map(String::from).collect();
            c.case(format!("signed with {alg}, trusting {trusted:?}"), || judge(verify(&list, t.clone(), Some(&trusted), knows(&public)), Some(want)));
        }
        c.case(format!("signed with {alg}, the DID does not resolve"), || judge(verify(&list, t.clone(), None, OneKeys(vec![])), Some(false)));
        for kid in [json!("did:ex:b#k"), json!("did:ex:a"), json!("did:ex:a?x#k"), json!(null)] {
            let mut h = header(alg);
            h["kid"] = kid.clone();
            let t = signed_with(alg, k1, &h, &b);
            let r = OneKeys(["did:ex:b#k", "did:ex:a", "did:ex:a?x#k", "did:ex:a#k"].map(|n| (n.to_string(), public.clone())).into());
            c.case(format!("signed with {alg}, key id {kid}"), || judge(verify(&list, t.clone(), None, r.clone()), Some(false)));
        }
        // every single-character change
        let chars: Vec<char> = t.chars().collect();
        let mut changed = vec![];
        for i in 0..chars.len() {
            let menu = replacements(chars[i], c.quick());
            let n = menu.len();
            for r in if c.quick() { &menu[n.saturating_sub(2)..] } else { &menu[..] } {
                let mut t = chars.clone();
                t[i] = *r;
                changed.push((format!("signed with {alg}, character {i} '{}' -> '{r}'", chars[i]), t.into_iter().collect::<String>()));
            }
            changed.push((format!("signed with {alg}, cut before {i}"), chars[..i].iter().collect()));
        }
        let parts: Vec<&str> = t.split('.').collect();
        let other = signed_with(alg, k1, &header(alg), &json!({"client_id": id, "nonce": "other"}));
        let o: Vec<&str> = other.split('.').collect();
        changed.push((format!("signed with {alg}, another's signature"), format!("{}.{}.{}", parts[0], parts[1], o[2])));
        changed.push((format!("signed with {alg}, another's body"), format!("{}.{}.{}", parts[0], o[1], parts[2])));
        for n in [0usize, 32, 63, 64, 65, 256] {
            changed.push((format!("signed with {alg}, {n} zeroes for a signature"), format!("{}.{}.{}", parts[0], parts[1], b64u(vec![0u8; n]))));
        }
        let wallet = verifying_wallet(wallet_md(&Some(list.clone())), Net::dead(), knows(&public));
        let whole = |t: &str| -> Result<(), String> {
            let r = AuthorizationRequest { client_id: Some(id.to_string()), request_indirection: RequestIndirection::ByValue { request: t.to_string() } };
            now(r.validate(&wallet)).map(|_| ()).map_err(|e| format!("{e:#}"))
        };
        c.case(format!("signed with {alg}, untouched, in a wallet"), || judge(whole(&t), Some(true)));
        c.cases(changed, |t| {
            judge(verify(&list, t.clone(), None, knows(&public)), Some(false))?;
            judge(whole(t), Some(false)).map(|s| format!("changed {alg} token {s}"))
        });
    }
}

pub fn c04(c: &mut Ctx) {
    c.rule = "the product of alg header x wallet algorithm list x key id; the product of key id x client_id x trusted list x resolver answer x signing key; every single-character substitution and truncation of an accepted token, directly and through Wallet::validate_request; for EdDSA, ES256K, RS256 and PS256 the product of announced algorithm x list x key, and every changed position. Non-trivial: every case (each runs the real verification).".into();
    c.assumptions.push("what the algorithm 'none' is good for in a wallet that lists it is not specified; a client_id without the prefix is not specified; the high-s twin of a signature is not tried; a right signature that is announced as of another listed algorithm is not specified".into());
    let mut tokens = Tokens::default();
    let kids: Vec<Option<Json>> = vec![
        Some(json!("did:ex:a#k")),
        None,
        Some(json!(5)),
        Some(json!("did:ex:a")),
        Some(json!("did:ex:b#k")),
        Some(json!("did:ex:a#other")),
        Some(json!("did:ex:a#")),
        Some(json!("did:ex:aa#k")),
        Some(json!("did:ex:A#k")),
        Some(json!("did:ex:a/x#k")),
        Some(json!("did:ex:a?x#k")),
        Some(json!("#k")),
        Some(json!("")),
        Some(json!("did:ex:b#did:ex:a#k")),
        Some(json!("decentralized_identifier:did:ex:a#k")),
    ];
    let clients: Vec<Option<&str>> = vec![
        Some("decentralized_identifier:did:ex:a"),
        None,
        Some("decentralized_identifier:did:ex:b"),
        Some("decentralized_identifier:did:ex:a#k"),
        Some("decentralized_identifier:did:ex:aa"),
        Some("decentralized_identifier:"),
        Some("decentralized_identifier:did:ex:b#did:ex:a"),
        Some("decentralized_identifier:decentralized_identifier:did:ex:a"),
    ];
    let trusted: Vec<Option<Vec<String>>> = vec![
        None,
        Some(vec![]),
        Some(vec!["did:ex:a".into()]),
        Some(vec!["did:ex:b".into()]),
        Some(vec!["did:ex:b".into(), "did:ex:a".into()]),
        Some(vec!["did:ex:".into(), "did:ex:aa".into(), "did:ex:a#k".into(), "".into(), "did:ex:A".into()]),
        Some(vec!["decentralized_identifier:did:ex:a".into(), "*".into(), "did:ex:*".into(), "did:*".into(), "did:ex".into(), "a".into(), "did:ex:a/".into(), "did:ex:a,did:ex:b".into()]),
    ];
    // everything close to the right verification method, with the right key
    let around = |first: &[(&str, u8)]| -> Vec<(String, ssi_jwk::JWK)> {
        let mut r: Vec<_> = first.iter().map(|(vm, k)| (vm.to_string(), ssi_jwk_of(*k))).collect();
        let near = near_misses("did:ex:a#k").into_iter().chain(["did:ex:a", "#k", "k", "", "(none)", "did:ex:a#other", "did:ex:b#k", "did:ex:b"].map(String::from));
        r.extend(near.filter(|vm| vm != "did:ex:a#k").map(|vm| (vm, ssi_jwk_of(1))));
        r
    };
    // resolver: which verification methods it knows, and with which key
    let resolvers: Vec<(&str, OneKeys)> = vec![
        ("right key", OneKeys(vec![("did:ex:a#k".into(), ssi_jwk_of(1))])),
        ("other key", OneKeys(vec![("did:ex:a#k".into(), ssi_jwk_of(2))])),
        ("failing", OneKeys(vec![])),
        ("other key, naming its algorithm", OneKeys(vec![("did:ex:a#k".into(), jwk_with(2, json!({"alg": "ES256"})))])),
        ("other key, naming another algorithm", OneKeys(vec![("did:ex:a#k".into(), jwk_with(2, json!({"alg": "ES384"})))])),
        ("other key, naming no algorithm", OneKeys(vec![("did:ex:a#k".into(), jwk_with(2, json!({"alg": "none"})))])),
        ("other key, for encryption", OneKeys(vec![("did:ex:a#k".into(), jwk_with(2, json!({"use": "enc"})))])),
        ("other key, with a key id", OneKeys(vec![("did:ex:a#k".into(), jwk_with(2, json!({"kid": "did:ex:a#k", "use": "sig"})))])),
        ("right key, with a key id", OneKeys(vec![("did:ex:a#k".into(), jwk_with(1, json!({"kid": "did:ex:a#k", "use": "sig"})))])),
        ("right key, naming another algorithm", OneKeys(vec![("did:ex:a#k".into(), jwk_with(1, json!({"alg": "ES384"})))])),
        ("everything but the right one", OneKeys(around(&[]))),
        ("other key, and everything but the right one", OneKeys(around(&[("did:ex:a#k", 2)]))),
        ("all kids", OneKeys(kids.iter().flatten().filter_map(|k| k.as_str().map(|k| (k.to_string(), ssi_jwk_of(1)))).collect())),
    ];
    let expect = |list: &Option<Json>, alg: &Option<Json>, kid: &Option<Json>, client: Option<&str>, trusted: &Option<Vec<String>>, resolver: &OneKeys, k: u8| -> Option<bool> {
        if !lists(list, alg) {
            return Some(false);
        }
        if *alg == Some(json!("none")) {
            return None;
        }
        let Some(Json::String(kid)) = kid else { return Some(false) };
        let Some((did, _)) = kid.split_once('#') else { return Some(false) };
        let Some(client) = client.and_then(|c| c.strip_prefix("decentralized_identifier:")) else { return Some(false) };
        if did != client {
            return Some(false);
        }
        if let Some(t) = trusted {
            if !t.iter().any(|x| x == did) {
                return Some(false);
            }
        }
        let Some((_, found)) = resolver.0.iter().find(|(vm, _)| vm == kid) else { return Some(false) };
        let Json::Object(found) = serde_json::to_value(found).unwrap() else { return None };
        let key = public_jwk(k);
        let signs = ["kty", "crv", "x", "y"].iter().all(|m| found.get(*m) == key.get(m));
        if *alg != Some(json!("ES256")) || !signs {
            return Some(false);
        }
        // a key that names another use or algorithm may be refused
        if found.len() > 4 { None } else { Some(true) }
    };
    let run = |c: &mut Ctx, tokens: &mut Tokens, list: &Option<Json>, alg: &Option<Json>, kid: &Option<Json>, client: Option<&str>, trusted: &Option<Vec<String>>, resolver: &(&str, OneKeys), k: u8| {
        let m = wallet_md(list);
        let header = with(with(json!({"typ": "oauth-authz-req+jwt"}), "alg", alg), "kid", kid);
        let t = tokens.get(&header, &body(client), k);
        let want = expect(list, alg, kid, client, trusted, &resolver.1, k);
        c.case(
            format!(
                "alg {} list {} kid {} client {client:?} trusted {trusted:?} resolver {} signed by {k}",
                json!(alg), json!(list), json!(kid), resolver.0
            ),
            || {
                let object = request_object(body(client)).map_err(|e| e.to_string())?;
                judge(
                    now(did::verify_with_resolver(&m, &object, t, trusted.as_deref(), resolver.1.clone()))
                        .map_err(|e| format!("{e:#}")),
                    want,
                )
            },
        );
    };
    let mut more = algs();
    more.push(Some(json!("xnone")));
    for list in alg_lists() {
        for alg in &more {
            for kid in &kids {
                for (client, k) in [(clients[0], 1), (clients[2], 1), (clients[0], 2)] {
                    run(c, &mut tokens, &list, alg, kid, client, &None, &resolvers[0], k);
                }
            }
        }
    }
    let list = Some(json!(["ES256"]));
    let alg = Some(json!("ES256"));
    for kid in &kids {
        for client in &clients {
            for t in &trusted {
                for r in &resolvers {
                    for k in [1, 2] {
                        run(c, &mut tokens, &list, &alg, kid, *client, t, r, k);
                    }
                }
            }
        }
    }
    let good = wallet_md(&list);
    let id = "decentralized_identifier:did:ex:a";
    let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": "did:ex:a#k", "y": ">>>???"});
    let (b, t) = telling_body(&mut tokens, &header, id);
    let object = request_object(b).unwrap();
    let m = good.clone();
    let r = resolvers[0].1.clone();
    tamper(c, "tamper", &t, id, &object, &good, r.clone(), |o, t| {
        now(did::verify_with_resolver(&m, o, t, None, r.clone())).map_err(|e| format!("{e:#}"))
    });
    // every near miss of the DID, in each place that names it
    for n in near_misses("did:ex:a") {
        let this = json!("did:ex:a#k");
        let id = "decentralized_identifier:did:ex:a";
        let known = ("this", OneKeys(vec![("did:ex:a#k".into(), ssi_jwk_of(1)), (format!("{n}#k"), ssi_jwk_of(1))]));
        run(c, &mut tokens, &list, &alg, &Some(this.clone()), Some(&format!("decentralized_identifier:{n}")), &None, &known, 1);
        run(c, &mut tokens, &list, &alg, &Some(this.clone()), Some(id), &Some(vec![n.clone()]), &known, 1);
        if !n.contains('#') {
            run(c, &mut tokens, &list, &alg, &Some(json!(format!("{n}#k"))), Some(id), &None, &known, 1);
            run(c, &mut tokens, &list, &alg, &Some(json!(format!("{n}#k"))), Some(id), &Some(vec!["did:ex:a".into()]), &known, 1);
            run(c, &mut tokens, &list, &alg, &Some(json!(format!("{n}#k"))), Some(&format!("decentralized_identifier:{n}")), &Some(vec!["did:ex:a".into()]), &known, 1);
        }
    }
    for n in near_misses("ES256") {
        for (alg, listed) in [(n.as_str(), "ES256"), ("ES256", n.as_str()), (n.as_str(), n.as_str())] {
            for k in [1, 2] {
                run(c, &mut tokens, &Some(json!([listed])), &Some(json!(alg)), &Some(json!("did:ex:a#k")), Some(id), &None, &resolvers[0], k);
            }
        }
    }
    // the verification method is resolved under its very name
    let mut frags = near_misses("k");
    frags.extend(["", "/", "k/", "k#", "k#k", "#k", "k?x", "key-1", "did:ex:a#k", "K", "%6B", "k%20", "k=", "0"].map(String::from));
    for f in frags {
        let kid = format!("did:ex:a#{f}");
        if kid == "did:ex:a#k" {
            continue;
        }
        for (what, known) in [
            ("knows this one", vec![(kid.clone(), 1)]),
            ("knows the other one", vec![("did:ex:a#k".to_string(), 1)]),
            ("knows both, this one right", vec![("did:ex:a#k".to_string(), 2), (kid.clone(), 1)]),
            ("knows both, the other one right", vec![("did:ex:a#k".to_string(), 1), (kid.clone(), 2)]),
        ] {
            let r = (what, OneKeys(known.into_iter().map(|(vm, k)| (vm, ssi_jwk_of(k))).collect()));
            run(c, &mut tokens, &list, &alg, &Some(json!(kid)), Some(id), &None, &r, 1);
        }
    }
    // long lists of trusted DIDs
    for n in [1usize, 2, 5, 9, 20, 100] {
        for at in (0..n).map(Some).chain([None]) {
            let l: Vec<String> = (0..n).map(|i| if Some(i) == at { "did:ex:a".into() } else { format!("did:ex:a{i}") }).collect();
            run(c, &mut tokens, &list, &alg, &Some(json!("did:ex:a#k")), Some(id), &Some(l), &resolvers[0], 1);
        }
    }
    // long DIDs
    for n in [32usize, 64, 100, 255, 256, 257, 1000, 5000] {
        let d = format!("did:ex:{}", "a".repeat(n));
        for e in [d.clone(), format!("{d}a"), d[..d.len() - 1].to_string(), format!("{}b", &d[..d.len() - 1])] {
            let kid = format!("{d}#k");
            let resolver = ("this", OneKeys(vec![(kid.clone(), ssi_jwk_of(1)), (format!("{e}#k"), ssi_jwk_of(1))]));
            run(c, &mut tokens, &list, &alg, &Some(json!(kid)), Some(&format!("decentralized_identifier:{e}")), &None, &resolver, 1);
            run(c, &mut tokens, &list, &alg, &Some(json!(kid)), Some(&format!("decentralized_identifier:{d}")), &Some(vec![e.clone()]), &resolver, 1);
        }
    }
    {
        let r = OneKeys(vec![("did:ex:a#k".into(), ssi_jwk_of(1))]);
        for t in [None, Some(vec!["did:ex:a".to_string()])] {
            beyond(c, &mut tokens, id, &json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": "did:ex:a#k"}), &|m, o, j| {
                now(did::verify_with_resolver(m, o, j, t.as_deref(), r.clone())).map_err(|e| format!("{e:#}"))
            }, None);
            if c.quick() {
                break;
            }
        }
    }
    for n in near_misses("none") {
        for listed in [json!([n]), json!([n, "none"]), json!(["none"])] {
            for k in [1, 2] {
                run(c, &mut tokens, &Some(listed.clone()), &Some(json!(n)), &Some(json!("did:ex:a#k")), Some(id), &None, &resolvers[0], k);
            }
        }
    }
    // the method of a DID makes no difference
    for method in ["ex", "jwk", "key", "web", "ebsi", "ion", "peer", "pkh", "tz", "ethr", "sov", "cheqd", "indy", "dns", "test", "example", "self", "", "JWK", "x509", "webvh"] {
        for rest in ["a", "v.example:u", "zDnaerx9CtbPJ1q36T5Ln5wYt3MQYeGRG5ehnPAmxcf5mDZpv", "eyJrdHkiOiJFQyIsImNydiI6IlAtMjU2In0"] {
            let d = format!("did:{method}:{rest}");
            for fragment in ["k", "0", "key-1", rest, ""] {
                let kid = format!("{d}#{fragment}");
                let client = format!("decentralized_identifier:{d}");
                let other = format!("did:{method}:other");
                let around: Vec<(&str, OneKeys)> = vec![
                    ("right key", OneKeys(vec![(kid.clone(), ssi_jwk_of(1))])),
                    ("other key", OneKeys(vec![(kid.clone(), ssi_jwk_of(2))])),
                    ("failing", OneKeys(vec![])),
                ];
                for r in &around {
                    for trusted in [None, Some(vec![]), Some(vec![d.clone()]), Some(vec![other.clone()]), Some(vec![format!("did:{method}:")]), Some(vec![other.clone(), d.clone()])] {
                        run(c, &mut tokens, &list, &alg, &Some(json!(kid)), Some(&client), &trusted, r, 1);
                        if fragment == "k" {
                            run(c, &mut tokens, &list, &alg, &Some(json!(kid)), Some(&format!("decentralized_identifier:{other}")), &trusted, r, 1);
                            run(c, &mut tokens, &list, &Some(json!("none")), &Some(json!(kid)), Some(&client), &trusted, r, 1);
                            run(c, &mut tokens, &list, &Some(json!("EdDSA")), &Some(json!(kid)), Some(&client), &trusted, r, 1);
                        }
                    }
                }
            }
        }
    }
    other_algorithms(c);
    // DIDs as such: the DID of the client must be the whole of the key id before '#'
    let dids = strings(&["a", ":", "%", "-"], c.pick(3, 4));
    for d in &dids {
        for e in [d.clone(), format!("{d}a"), format!("a{d}")] {
            let kid = format!("did:{d}#k");
            let client = format!("decentralized_identifier:did:{e}");
            let resolver = ("this", OneKeys(vec![(kid.clone(), ssi_jwk_of(1))]));
            run(c, &mut tokens, &list, &alg, &Some(json!(kid)), Some(&client), &None, &resolver, 1);
        }
    }
}

// ---------------------------------------------------------------- C30

fn signed_by(n: u8, token: &str) -> Result<(), String> {
    let (_, _, sig) = jwt_parts(token)?;
    let payload = &token[..token.rfind('.').unwrap()];
    let sig = p256::ecdsa::Signature::from_slice(&sig).map_err(|e| e.to_string())?;
    key(n)
        .verifying_key()
        .verify(payload.as_bytes(), &sig)
        .map_err(|e| format!("signature: {e}"))
}

fn check_token(
    client: &dyn Client,
    k: u8,
    object: &AuthorizationRequestObject,
    alg: &str,
    extra: (&str, Json),
) -> Result<(), String> {
    let t = now(client.generate_request_object_jwt(object)).map_err(|e| format!("{e:#}"))?;
    let (h, b, _) = jwt_parts(&t)?;
    if h["alg"] != json!(alg) || h["typ"] != json!("oauth-authz-req+jwt") || h[extra.0] != extra.1 {
        return Err(format!("the header is {h}"));
    }
    if b != serde_json::to_value(object).unwrap() {
        return Err(format!("the body is {b}"));
    }
    signed_by(k, &t)
}

fn bodies() -> Vec<Json> {
    let mut out = vec![];
    for id in ["x:y", "plain", "", "\u{e9}\u{1f600}"] {
        for mode in ["direct_post", "dc_api", "direct_post.jwt", "dc_api.jwt"] {
            let mut b = json!({"client_id": id, "response_type": "vp_token", "nonce": "n/+ \"", "response_mode": mode,
                "dcql_query": {"credentials": [{"id": "a", "format": "mso_mdoc", "meta": {"\u{e9}": [1, null]}}]}});
            if mode.starts_with("direct") {
                b["response_uri"] = json!("https://v.example/a?b=c&d");
            }
            out.push(b);
        }
    }
    for n in [100usize, 257, 1025, 5000, 70_000] {
        let t = "\u{e9}t".repeat(n / 3);
        let mut b = json!({"client_id": format!("x:{t}"), "response_type": "vp_token", "nonce": t, "response_mode": "direct_post", "response_uri": format!("https://v.example/{}", "r".repeat(n)),
            "dcql_query": {"credentials": (0..n.min(100)).map(|i| json!({"id": format!("a{i}"), "format": "mso_mdoc", "meta": {"m": i}})).collect::<Vec<_>>()}});
        for i in 0..n.min(300) {
            b[format!("extra{i}")] = json!({"i": i, "t": [null, format!("x{i}")]});
        }
        out.push(b);
    }
    out
}

pub fn c30(c: &mut Ctx) {
    let many = c.pick(150, 1500);
    c.rule = "all verification methods x resolver answers x signers over menus for the DID client; all chains of 0-3 certificates over a certificate menu x signers for the x509 clients; all request bodies of a menu signed by each kind of client. Non-trivial: every case (each makes a client).".into();
    c.assumptions.push("a resolved key that equals the signer's but carries further members is not specified; verification methods with several '#' are not specified".into());
    let methods = ["did:ex:a#k", "did:ex:a", "", "did:ex:a#", "did:ex:b#k", "did:key:z6Mk#z6Mk", "did:web:a.example%3A80:x#1"];
    for vm in methods {
        for answer in ["right", "other", "none", "other with kid", "other with alg", "other with use", "other with all", "half"] {
            for key_fault in [false, true] {
                for alg_fault in [false, true] {
                    for alg in [None, Some("ES384".to_string())] {
                        let label = format!("did {vm} resolver {answer} signer jwk fails {key_fault} alg fails {alg_fault} alg {alg:?}");
                        c.case(label, || {
                            let signer = FaultySigner {
                                inner: signer(1),
                                alg_fails: alg_fault,
                                jwk_fails: key_fault,
                                alg: alg.clone(),
                            };
                            let resolver = OneKey {
                                vm: vm.to_string(),
                                jwk: match answer {
                                    "right" => Some(ssi_jwk_of(1)),
                                    "other" => Some(ssi_jwk_of(2)),
                                    "other with kid" => Some(jwk_with(2, json!({"kid": vm}))),
                                    "other with alg" => Some(jwk_with(2, json!({"alg": "ES256"}))),
                                    "other with use" => Some(jwk_with(2, json!({"use": "sig", "key_ops": ["verify"]}))),
                                    "other with all" => Some(jwk_with(2, json!({"kid": vm, "alg": "ES256", "use": "sig"}))),
                                    // the same x, the other y
                                    "half" => Some(jwk_with(1, json!({"y": public_jwk(2)["y"]}))),
                                    _ => None,
                                },
                            };
                            let want = vm.contains('#') && answer == "right" && !key_fault;
                            match (now(DIDClient::new(vm.to_string(), Arc::new(signer), resolver)), want) {
                                (Err(_), false) => Ok("no client".into()),
                                (Err(e), true) => Err(format!("no client: {e:#}")),
                                (Ok(_), false) => Err("a client is made".into()),
                                (Ok(cl), true) => {
                                    let did = vm.split('#').next().unwrap();
                                    if cl.id().0 != format!("decentralized_identifier:{did}")
                                        || cl.prefix() != ClientIdScheme("decentralized_identifier".into())
                                    {
                                        return Err(format!("identified as {:?}", cl.id()));
                                    }
                                    let o = request_object(bodies()[0].clone()).map_err(|e| e.to_string())?;
                                    if alg_fault {
                                        return match now(cl.generate_request_object_jwt(&o)) {
                                            Err(_) => Ok("no algorithm, no token".into()),
                                            Ok(t) => Err(format!("signed without an algorithm: {t}")),
                                        };
                                    }
                                    check_token(&cl, 1, &o, alg.as_deref().unwrap_or("ES256"), ("kid", json!(vm)))?;
                                    Ok("did client".into())
                                }
                            }
                        });
                    }
                }
            }
        }
    }
    let menu: Vec<CertSpec> = vec![
        CertSpec::new(1, &[San::Dns("a.example")]),
        CertSpec::new(2, &[San::Dns("b.example"), San::Dns("c.example")]),
        CertSpec::new(3, &[]),
        CertSpec::new(4, &[San::Uri("https://u.example"), San::Email("e@e.example"), San::Dns("d.example")]),
        CertSpec::new(5, &[San::Uri("https://u.example"), San::Ip([9, 9, 9, 9])]),
        CertSpec { critical: true, cn: "other.example", ..CertSpec::new(6, &[San::Dns("*.wild.example")]) },
    ];
    let mut chains: Vec<Vec<usize>> = vec![vec![]];
    let max = c.pick(3, 4);
    let mut from = 0;
    for _ in 0..max {
        let to = chains.len();
        for i in from..to {
            for m in 0..menu.len() {
                let mut x = chains[i].clone();
                x.push(m);
                chains.push(x);
            }
        }
        from = to;
    }
    for n in [5usize, 8, 10, 11, 16, 17, 33] {
        // long ones: all different in turn, all the same
        chains.push((0..n).map(|i| i % menu.len()).collect());
        chains.push((0..n).map(|i| (n - i) % menu.len()).collect());
        chains.push(vec![0; n]);
    }
    for chain in &chains {
        let specs: Vec<CertSpec> = chain.iter().map(|i| menu[*i].clone()).collect();
        let x5c: Json = specs.iter().map(|s| json!(s.x5c())).collect();
        for kind in ["x509_san_dns", "x509_hash"] {
            for alg_fault in [false, true] {
                c.case(format!("{kind} chain {chain:?} alg fails {alg_fault}"), || {
                    let k = specs.first().map(|s| s.key).unwrap_or(1);
                    let signer = Arc::new(FaultySigner { inner: signer(k), alg_fails: alg_fault, jwk_fails: false, alg: None });
                    let certs = specs.iter().map(|s| s.cert()).collect::<Vec<_>>();
                    let want: Option<String> = specs.first().and_then(|s| match kind {
                        "x509_san_dns" => s.dns().first().map(|d| d.to_string()),
                        _ => Some(b64u(sha256(&s.to_der()))),
                    });
                    let made: Result<Box<dyn Client>, String> = match kind {
                        "x509_san_dns" => X509SanDnsClient::new(certs, signer).map(|c| Box::new(c) as Box<dyn Client>).map_err(|e| format!("{e:#}")),
                        _ => X509HashClient::new(certs, signer).map(|c| Box::new(c) as Box<dyn Client>).map_err(|e| format!("{e:#}")),
                    };
                    match (made, want) {
                        (Err(_), None) => Ok("no client".into()),
                        (Err(e), Some(_)) => Err(format!("no client: {e}")),
                        (Ok(cl), None) => Err(format!("a client {:?} is made", cl.id())),
                        (Ok(cl), Some(w)) => {
                            if cl.id().0 != format!("{kind}:{w}") || cl.prefix() != ClientIdScheme(kind.into()) {
                                return Err(format!("identified as {:?} {:?}, expected {kind}:{w}", cl.id(), cl.prefix()));
                            }
                            let o = request_object(bodies()[1].clone()).map_err(|e| e.to_string())?;
                            if alg_fault {
                                return match now(cl.generate_request_object_jwt(&o)) {
                                    Err(_) => Ok("no algorithm, no token".into()),
                                    Ok(t) => Err(format!("signed without an algorithm: {t}")),
                                };
                            }
                            check_token(cl.as_ref(), k, &o, "ES256", ("x5c", x5c.clone()))?;
                            Ok(format!("{kind} client"))
                        }
                    }
                });
            }
        }
    }
    let mut said = bodies();
    for t in texts_menu(c.pick(1, 2)) {
        let mut b = bodies()[1].clone();
        b["nonce"] = json!(t);
        b["state"] = json!(format!("{t}."));
        b[format!("x{t}")] = json!([t]);
        said.push(b);
    }
    // every character
    for from in (0u32..0x110).step_by(8).chain([0x2000, 0x2028, 0xd7f8, 0xe000, 0xfef8, 0xfff0, 0x1f600, 0x10fff8]) {
        let t: String = (from..from + 8).filter_map(char::from_u32).collect();
        let mut b = bodies()[1].clone();
        b["nonce"] = json!(t);
        b["client_metadata"] = json!({"client_name": t});
        said.push(b);
    }
    for (n, b) in said.into_iter().enumerate() {
        for kind in ["did", "x509_san_dns", "x509_hash"] {
            c.case(format!("{kind} signs body {n} {b}"), || {
                let o = request_object(b.clone()).map_err(|e| e.to_string())?;
                let spec = &menu[0];
                let s: Arc<P256Signer> = signer(1);
                match kind {
                    "did" => {
                        let r = OneKey { vm: "did:ex:a#k".into(), jwk: Some(ssi_jwk_of(1)) };
                        let cl = now(DIDClient::new("did:ex:a#k".into(), s, r)).map_err(|e| e.to_string())?;
                        check_token(&cl, 1, &o, "ES256", ("kid", json!("did:ex:a#k")))?;
                    }
                    "x509_san_dns" => {
                        let cl = X509SanDnsClient::new(vec![spec.cert()], s).map_err(|e| e.to_string())?;
                        check_token(&cl, 1, &o, "ES256", ("x5c", json!([spec.x5c()])))?;
                    }
                    _ => {
                        let cl = X509HashClient::new(vec![spec.cert()], s).map_err(|e| e.to_string())?;
                        check_token(&cl, 1, &o, "ES256", ("x5c", json!([spec.x5c()])))?;
                    }
                }
                Ok("signed body".into())
            });
        }
    }
    // any name, any DID, any algorithm
    let names: Vec<String> = texts_menu(1).into_iter().chain(near_misses("a.example")).chain(["A.Example", "EXAMPLE", "xn--mnchen-3ya.example", "1.2.3.4", "localhost", "a_b.example", "*"].map(String::from)).filter(|n| n.is_ascii() && !n.is_empty() && n.len() < 2000).collect();
    c.cases(names.into_iter().map(|n| (format!("the name {n:?}"), n)).collect(), |n| {
            for sans in [vec![San::Dns(Box::leak(n.clone().into_boxed_str()))], vec![San::Email("e@e.example"), San::Dns(Box::leak(n.clone().into_boxed_str())), San::Dns("a.example")]] {
                let spec = CertSpec::new(1, &sans);
                let cl = X509SanDnsClient::new(vec![spec.cert()], signer(1)).map_err(|e| format!("no client: {e:#}"))?;
                if cl.id().0 != format!("x509_san_dns:{n}") {
                    return Err(format!("identified as {:?}", cl.id()));
                }
                let o = request_object(bodies()[1].clone()).map_err(|e| e.to_string())?;
                check_token(&cl, 1, &o, "ES256", ("x5c", json!([spec.x5c()])))?;
            }
            Ok("any name".into())
    });
    let dids: Vec<String> = near_misses("did:ex:a").into_iter().chain(texts_menu(1).into_iter().map(|t| format!("did:ex:{t}"))).chain(["did:jwk:e30", "did:key:zDna", "did:web:v.example%3A80:u", "DID:EX:A"].map(String::from)).filter(|d| !d.contains('#')).collect();
    let mut methods = vec![];
    for d in &dids {
        let (short, long) = (d.chars().take(40).collect::<String>(), d.len());
        for fragment in ["k", "key-1", "did:ex:other", "é ?"] {
            if fragment == "k" || long <= 12 {
                methods.push((format!("the DID {short:?}×{long} with {fragment}"), (d.clone(), fragment)));
            }
        }
    }
    c.cases(methods, |(d, fragment)| {
        let vm = format!("{d}#{fragment}");
        let make = |key| now(DIDClient::new(vm.clone(), signer(1), OneKey { vm: vm.clone(), jwk: key }));
        let cl = make(Some(ssi_jwk_of(1))).map_err(|e| format!("no client: {e:#}"))?;
        if cl.id().0 != format!("decentralized_identifier:{d}") {
            return Err(format!("identified as {:?}", cl.id()));
        }
        for key in [Some(ssi_jwk_of(2)), None] {
            if make(key).is_ok() {
                return Err("a client for another key, or none".into());
            }
        }
        let o = request_object(bodies()[0].clone()).map_err(|e| e.to_string())?;
        check_token(&cl, 1, &o, "ES256", ("kid", json!(vm)))?;
        Ok("any DID".into())
    });
    let algs: Vec<(String, String)> = texts_menu(1).into_iter().chain(near_misses("ES256")).chain(["ES384", "EdDSA", "none", "RS256", "ES256K"].map(String::from))
        .map(|a| (format!("the signer's algorithm {:?}×{}", a.chars().take(40).collect::<String>(), a.len()), a)).collect();
    c.cases(algs, |alg| {
        let make = || Arc::new(FaultySigner { inner: signer(1), alg_fails: false, jwk_fails: false, alg: Some(alg.clone()) });
        let o = request_object(bodies()[0].clone()).map_err(|e| e.to_string())?;
        let spec = &menu[0];
        let x = ("x5c", json!([spec.x5c()]));
        check_token(&X509SanDnsClient::new(vec![spec.cert()], make()).map_err(|e| e.to_string())?, 1, &o, alg, x.clone())?;
        check_token(&X509HashClient::new(vec![spec.cert()], make()).map_err(|e| e.to_string())?, 1, &o, alg, x)?;
        let r = OneKey { vm: "did:ex:a#k".into(), jwk: Some(ssi_jwk_of(1)) };
        check_token(&now(DIDClient::new("did:ex:a#k".into(), make(), r)).map_err(|e| e.to_string())?, 1, &o, alg, ("kid", json!("did:ex:a#k")))?;
        Ok("any algorithm".into())
    });
    // long names, many names
    for n in [2usize, 8, 9, 17, 40, 100] {
        for (what, sans) in [
            ("names", (0..n).map(|i| San::Dns(Box::leak(format!("n{i}.example").into_boxed_str()))).collect::<Vec<San>>()),
            ("others before a name", (0..n).map(|i| San::Email(Box::leak(format!("e{i}@e.example").into_boxed_str()))).chain([San::Dns("last.example")]).collect()),
            ("others", (0..n).map(|i| San::Uri(Box::leak(format!("https://u{i}.example").into_boxed_str()))).collect()),
            ("a long name", vec![San::Dns(Box::leak(format!("{}example", "abcdefgh.".repeat(n)).into_boxed_str()))]),
        ] {
            let spec = CertSpec::new(1, &sans);
            c.case(format!("certificate with {n} {what}"), || {
                let want = spec.dns().first().map(|d| d.to_string());
                match (X509SanDnsClient::new(vec![spec.cert()], signer(1)), want) {
                    (Err(_), None) => {}
                    (Err(e), Some(_)) => return Err(format!("no client: {e:#}")),
                    (Ok(cl), None) => return Err(format!("a client {:?} is made", cl.id())),
                    (Ok(cl), Some(w)) if cl.id().0 == format!("x509_san_dns:{w}") => {}
                    (Ok(cl), Some(w)) => return Err(format!("identified as {:?}, expected {w}", cl.id())),
                }
                let cl = X509HashClient::new(vec![spec.cert()], signer(1)).map_err(|e| format!("{e:#}"))?;
                if cl.id().0 != format!("x509_hash:{}", b64u(sha256(&spec.to_der()))) {
                    return Err(format!("identified as {:?}", cl.id()));
                }
                Ok("long certificates".into())
            });
        }
        c.case(format!("a DID of {n} parts"), || {
            let did = format!("did:ex{}", ":part".repeat(n));
            let vm = format!("{did}#{}", "k".repeat(n));
            let cl = now(DIDClient::new(vm.clone(), signer(1), OneKey { vm: vm.clone(), jwk: Some(ssi_jwk_of(1)) })).map_err(|e| e.to_string())?;
            if cl.id().0 != format!("decentralized_identifier:{did}") {
                return Err(format!("identified as {:?}", cl.id()));
            }
            let o = request_object(bodies()[0].clone()).map_err(|e| e.to_string())?;
            check_token(&cl, 1, &o, "ES256", ("kid", json!(vm)))?;
            Ok("long DIDs".into())
        });
    }
    // one client, many requests
    for kind in ["did", "x509_san_dns", "x509_hash"] {
        c.case(format!("one {kind} client signs many requests"), || {
            let spec = &menu[0];
            let s: Arc<P256Signer> = signer(1);
            let (cl, extra): (Box<dyn Client>, _) = match kind {
                "did" => {
                    let r = OneKey { vm: "did:ex:a#k".into(), jwk: Some(ssi_jwk_of(1)) };
                    (Box::new(now(DIDClient::new("did:ex:a#k".into(), s, r)).map_err(|e| e.to_string())?), ("kid", json!("did:ex:a#k")))
                }
                "x509_san_dns" => (Box::new(X509SanDnsClient::new(vec![spec.cert()], s).map_err(|e| e.to_string())?), ("x5c", json!([spec.x5c()]))),
                _ => (Box::new(X509HashClient::new(vec![spec.cert()], s).map_err(|e| e.to_string())?), ("x5c", json!([spec.x5c()]))),
            };
            let id = cl.id().0.clone();
            for i in 0..many {
                let mut b = bodies()[i % 16].clone();
                b["nonce"] = json!(format!("n{}", i / 3));
                let o = request_object(b).map_err(|e| e.to_string())?;
                check_token(cl.as_ref(), 1, &o, "ES256", extra.clone()).map_err(|e| format!("request {i}: {e}"))?;
                if cl.id().0 != id {
                    return Err(format!("request {i}: identified as {:?}", cl.id()));
                }
            }
            Ok("many requests".into())
        });
    }
    // the bundled signer
    for k in 1..c.pick(20u8, 120) {
        c.case(format!("bundled signer with key {k}"), || {
            let s = signer(k);
            let jwk = serde_json::to_value(RequestSigner::jwk(s.as_ref()).map_err(|e| e.to_string())?).unwrap();
            if jwk.get("d").is_some() {
                return Err("its public key carries the private part".into());
            }
            let want = public_jwk(k);
            for m in ["kty", "crv", "x", "y"] {
                if jwk[m] != want[m] {
                    return Err(format!("its public key is {jwk}, expected {want}"));
                }
            }
            if RequestSigner::alg(s.as_ref()).map_err(|e| e.to_string())? != "ES256" {
                return Err("its algorithm is not ES256".into());
            }
            let long = vec![b'l'; 100_000];
            for payload in [&b""[..], b"a", b"header.body", &long[..64], &long[..4097], &long] {
                for sig in [now(RequestSigner::sign(s.as_ref(), payload)), now(s.try_sign(payload)).map_err(|e| e.to_string())?] {
                    let sig = p256::ecdsa::Signature::from_slice(&sig).map_err(|e| e.to_string())?;
                    key(k).verifying_key().verify(payload, &sig).map_err(|e| e.to_string())?;
                }
            }
            // and as the signer of another library
            use ssi_claims::jws::JwsSigner as Other;
            let info = now(Other::fetch_info(s.as_ref())).map_err(|e| e.to_string())?;
            if info.algorithm != ssi_jwk::Algorithm::ES256 || info.key_id.is_some() {
                return Err(format!("signs with {:?} as {:?}", info.algorithm, info.key_id));
            }
            for payload in [&b""[..], b"header.body", &long[..4097]] {
                let sig = now(Other::sign_bytes(s.as_ref(), payload)).map_err(|e| e.to_string())?;
                let sig = p256::ecdsa::Signature::from_slice(&sig).map_err(|e| e.to_string())?;
                key(k).verifying_key().verify(payload, &sig).map_err(|e| e.to_string())?;
            }
            Ok("signer".into())
        });
    }
}
