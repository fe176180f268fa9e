//! C26: untrusted input is answered, whatever it is.
use super::crypto::{ssi_jwk_of, verifying_wallet, OneKeys};
use super::wallet::{serving, token, REQUEST_URI};
use crate::ctx::{now, Ctx};
use crate::env::*;
use openid4vp::core::authorization_request::parameters::*;
use openid4vp::core::authorization_request::verification::did;
use openid4vp::core::authorization_request::{
    AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
};
use openid4vp::core::credential_format::{ClaimFormatDesignation, ClaimFormatMap, ClaimFormatPayload};
use openid4vp::core::dcql_query::DcqlQuery;
use openid4vp::core::iso_18013_7::{
    compute_jwk_thumbprint, get_encryption_jwk_thumbprint, DcApiHandover, Handover, SessionTranscript,
};
use openid4vp::core::metadata::parameters::verifier::*;
use openid4vp::core::metadata::parameters::wallet::*;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::{TypedParameter, UntypedObject};
use openid4vp::core::response::parameters::{IdToken, VpToken};
use openid4vp::core::response::{AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse};
use openid4vp::utils::NonEmptyVec;
use openid4vp::verifier::session::{Outcome, Status};
use openid4vp::wallet::Wallet;
use serde_json::{json, Value as Json};
use std::collections::HashSet;
use url::Url;

const VM: &str = "did:web:v.example#0";

fn cert() -> CertSpec {
    CertSpec::new(1, &[San::Dns("v.example")])
}

fn hash_id() -> String {
    format!("x509_hash:{}", b64u(sha256(&cert().to_der())))
}

fn the_metadata() -> WalletMetadata {
    metadata(json!({
        "client_id_prefixes_supported": ["x509_san_dns", "x509_hash", "decentralized_identifier", "redirect_uri", "pre-registered", "verifier_attestation", "openid_federation"],
        "request_object_signing_alg_values_supported": ["ES256", "none"],
        "authorization_encryption_alg_values_supported": ["ECDH-ES"],
        "authorization_encryption_enc_values_supported": ["A128GCM", "A256GCM"],
    }))
}

fn wallet(net: Net) -> TestWallet {
    verifying_wallet(the_metadata(), net, OneKeys(vec![(VM.into(), ssi_jwk_of(1))]))
}

/// Everything one can ask of a request.
fn look(r: &AuthorizationRequestObject) {
    let _ = (r.client_id(), r.client_id_scheme(), r.response_mode().is_jarm(), r.response_type(), r.return_uri(), r.nonce());
    let _ = (r.is_id_token_requested(), r.state().map(|s| s.is_ok()));
    if let Some(Ok(q)) = r.dcql_query() {
        ask(&q);
    }
    if let Ok(m) = r.client_metadata() {
        let _ = (m.jwks().map(|j| j.is_ok()), m.vp_formats().is_ok(), m.encrypted_response_enc_values_supported().is_ok());
        let _ = m.0.get::<VpFormats>().map(|f| f.map(|f| Json::try_from(f).is_ok()));
    }
    let _ = (r.vp_formats().is_ok(), ClientMetadata::resolve(r).is_ok());
    let t = get_encryption_jwk_thumbprint(r);
    let id = r.client_id().map(|c| c.0.clone()).unwrap_or_default();
    let nonce = r.nonce().to_string();
    for t in [None, t.as_ref().map(|t| &t[..])] {
        let h = Handover::new(&id, &nonce, t, r.return_uri().as_str());
        let _ = h.and_then(|h| SessionTranscript::new(h).to_cbor_bytes());
        let _ = DcApiHandover::new(&id, &nonce, t).and_then(|h| SessionTranscript::new(h).to_cbor_bytes());
    }
    let _ = serde_json::to_string(r);
    let _ = format!("{r:?}");
    let _ = AuthorizationRequestObject::try_from(UntypedObject::from(r.clone())).is_ok();
}

fn ask(q: &DcqlQuery) {
    for cq in q.credentials() {
        let _ = (cq.id(), cq.format().to_string(), cq.meta(), cq.multiple(), cq.require_cryptographic_holder_binding());
        for cl in cq.claims().iter().flat_map(|c| c.iter()) {
            let _ = (cl.id(), cl.path(), cl.values(), cl.namespace(), cl.element_identifier(), cl.claim_name(), cl.intent_to_retain());
        }
        let _ = (cq.claim_sets(), cq.trusted_authorities());
    }
    for s in q.credential_sets().iter().flat_map(|s| s.iter()) {
        let _ = (s.options(), s.is_required());
    }
    let _ = serde_json::to_string(q);
    let _ = format!("{q:?}");
    let _ = Json::from(q.clone());
}

fn validated(w: &TestWallet, r: AuthorizationRequest) -> bool {
    match now(r.validate(w)) {
        Ok(o) => {
            look(&o);
            // and answer it
            let jwt = AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: "a.b.c.d.e".into() });
            let plain = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()));
            let a = now(w.submit_response(o.clone(), jwt));
            let b = now(w.submit_response(o, plain));
            let _ = format!("{a:?}{b:?}");
            true
        }
        Err(e) => {
            let _ = format!("{e:#} {e:?}");
            false
        }
    }
}

/// Where untrusted input goes in.
#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Url,
    Query,
    /// The text is the `request` parameter.
    Token,
    /// The bytes are what the request_uri gives.
    Fetched,
    /// The JSON is the body of a well-formed token.
    Body,
    /// The JSON is the header of a token.
    Header,
    /// The JSON is the set of plain parameters.
    Object,
    Form,
    /// The bytes answer a submitted response.
    Answer,
    Dcql,
    Metadata,
    Handover,
    Jwk,
    Typed,
    ClientId,
    /// What the request_uri gives with a status that is no success.
    NotFetched,
    /// What a refused response is answered with.
    Refused,
    /// The JSON text of the vp_token in a form.
    Tokens,
    /// Two client identifiers, one line each: of the parameters and of the request object.
    Ids,
    /// The DID in both the kid and the client identifier.
    Did,
    /// The bytes of the first certificate of the chain.
    Cert,
}

/// Give `input` to `t`. Whether it was taken for something.
fn feed(t: T, input: &[u8]) -> bool {
    let text = std::str::from_utf8(input).ok();
    let parsed = || -> Option<Json> { serde_json::from_slice(input).ok() };
    match t {
        T::Url => {
            let Some(url) = text.and_then(|t| Url::parse(t).ok()) else { return false };
            let mut some = false;
            for e in ["openid4vp:", "https://w.example/authorize?x=1"] {
                let e: Url = e.parse().unwrap();
                if let Ok(r) = AuthorizationRequest::from_url(url.clone(), &e) {
                    some = true;
                    let _ = r.clone().to_url(e).map(|u| u.to_string());
                    validated(&wallet(Net::dead()), r);
                }
            }
            let _ = now(wallet(Net::dead()).validate_request(url)).is_ok();
            some
        }
        T::Query => {
            let Some(text) = text else { return false };
            match AuthorizationRequest::from_query_params(text) {
                Ok(r) => {
                    let _ = r.clone().to_url("https://w.example/a".parse().unwrap());
                    let net = || Net::new(|_| Answer::Reply(200, b"x.y.z".to_vec()));
                    validated(&wallet(net()), r.clone());
                    validated(&TestWallet::new(the_metadata(), net(), true), r)
                }
                Err(_) => false,
            }
        }
        T::Token => {
            let Some(text) = text else { return false };
            let mut some = false;
            for id in ["x509_san_dns:v.example".to_string(), hash_id(), "decentralized_identifier:did:web:v.example".into()] {
                some |= validated(
                    &wallet(Net::dead()),
                    AuthorizationRequest {
                        client_id: Some(id),
                        request_indirection: RequestIndirection::ByValue { request: text.into() },
                    },
                );
            }
            some |= validated(
                &wallet(Net::dead()),
                AuthorizationRequest {
                    client_id: None,
                    request_indirection: RequestIndirection::ByValue { request: text.into() },
                },
            );
            some
        }
        T::Fetched => {
            let bytes = input.to_vec();
            validated(
                &wallet(Net::new(move |_| Answer::Reply(200, bytes.clone()))),
                AuthorizationRequest {
                    client_id: None,
                    request_indirection: RequestIndirection::ByReference {
                        request_uri: REQUEST_URI.parse().unwrap(),
                    },
                },
            )
        }
        T::Body => {
            let Some(text) = text else { return false };
            let header = |alg: &str| json!({"alg": alg, "typ": "oauth-authz-req+jwt", "x5c": [cert().x5c()], "kid": VM}).to_string();
            let mut some = feed(T::Fetched, jwt_text(&header("ES256"), text, &key(1)).as_bytes());
            some |= feed(T::Fetched, token(&header("none"), text).as_bytes());
            some
        }
        T::Header => {
            let Some(text) = text else { return false };
            let mut some = false;
            for id in ["x509_san_dns:v.example".to_string(), hash_id(), "decentralized_identifier:did:web:v.example".into()] {
                let body = json!({"client_id": id, "response_type": "vp_token", "response_mode": "direct_post", "nonce": "n", "response_uri": "https://v.example/r"});
                some |= feed(T::Fetched, jwt_text(text, &body.to_string(), &key(1)).as_bytes());
            }
            some
        }
        T::Object => {
            let Ok(o) = serde_json::from_slice::<UntypedObject>(input) else { return false };
            let mut some = false;
            for id in [None, Some("redirect_uri:https://v.example/r")] {
                some |= validated(
                    &TestWallet::new(the_metadata(), Net::new(|_| Answer::Reply(200, vec![])), true),
                    AuthorizationRequest {
                        client_id: id.map(Into::into),
                        request_indirection: RequestIndirection::Direct(o.clone()),
                    },
                );
            }
            if let Ok(o) = AuthorizationRequestObject::try_from(o) {
                look(&o);
                some = true;
            }
            if let Ok(o) = serde_json::from_slice::<AuthorizationRequestObject>(input) {
                look(&o);
            }
            some
        }
        T::Form => match AuthorizationResponse::from_x_www_form_urlencoded(input) {
            Ok(r) => {
                let _ = format!("{r:?}");
                match r {
                    AuthorizationResponse::Unencoded(u) => {
                        let _ = (u.vp_token().len(), u.state().is_some());
                        let _ = u.into_x_www_form_urlencoded().is_ok();
                    }
                    AuthorizationResponse::Jwt(j) => {
                        let _ = j.into_x_www_form_urlencoded().is_ok();
                    }
                }
                true
            }
            Err(_) => false,
        },
        T::Answer => {
            let bytes = input.to_vec();
            let w = wallet(Net::new(move |_| Answer::Reply(200, bytes.clone())));
            let o = request_object(json!({"client_id": "x", "response_type": "vp_token", "response_mode": "direct_post", "nonce": "n", "response_uri": "https://v.example/r"})).unwrap();
            let plain = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()));
            now(w.submit_response(o, plain)).is_ok()
        }
        T::Dcql => {
            let mut some = false;
            if let Ok(q) = serde_json::from_slice::<DcqlQuery>(input) {
                ask(&q);
                some = true;
            }
            if let Some(Ok(q)) = parsed().map(DcqlQuery::try_from) {
                ask(&q);
            }
            some
        }
        T::Metadata => {
            let mut some = false;
            if let Ok(mut m) = serde_json::from_slice::<WalletMetadata>(input) {
                some = true;
                let _ = (m.authorization_endpoint(), m.vp_formats_supported());
                let _ = m.vp_formats_supported().is_claim_format_supported(&ClaimFormatDesignation::MsoMDoc);
                let w = TestWallet::new(m.clone(), Net::dead(), true);
                let url: Url = "openid4vp:?client_id=x509_san_dns:v.example&request=x".parse().unwrap();
                let _ = now(w.validate_request(url)).is_ok();
                let mut body = json!({"client_id": "x509_san_dns:v.example", "response_type": "vp_token", "response_mode": "direct_post.jwt", "nonce": "n", "response_uri": "https://v.example/r"});
                let mut k = public_jwk(1);
                k["alg"] = json!("ECDH-ES");
                k["use"] = json!("enc");
                body["client_metadata"] = json!({"jwks": {"keys": [k]}});
                let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [cert().x5c()]});
                validated(
                    &verifying_wallet(m.clone(), Net::dead(), OneKeys::default()),
                    AuthorizationRequest {
                        client_id: None,
                        request_indirection: RequestIndirection::ByValue { request: jwt(&header, &body, &key(1)) },
                    },
                );
                let _ = m.add_request_object_signing_alg_values_supported(ssi_jwk::Algorithm::ES384);
                let _ = m.add_client_id_prefixes_supported(&[ClientIdScheme("x509_hash".into())]);
                let _ = serde_json::to_string(&m);
                let _ = UntypedObject::from(m);
            }
            some
        }
        T::Handover => {
            let mut some = false;
            if let Ok(h) = ciborium::from_reader::<Handover, _>(input) {
                let _ = (h.handover_info_hash().len(), h.to_cbor_bytes().is_ok());
                some = true;
            }
            if let Ok(h) = ciborium::from_reader::<DcApiHandover, _>(input) {
                let _ = (h.handover_info_hash().len(), h.to_cbor_bytes().is_ok());
                some = true;
            }
            if let Ok(t) = ciborium::from_reader::<SessionTranscript<Handover>, _>(input) {
                let _ = t.to_cbor_bytes().is_ok();
                some = true;
            }
            if let Ok(t) = ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(input) {
                let _ = t.to_cbor_bytes().is_ok();
                some = true;
            }
            some
        }
        T::Jwk => {
            let Some(j) = parsed() else { return false };
            if let Ok(r) = request_object(json!({"client_id": "x", "response_type": "vp_token", "response_mode": "direct_post.jwt", "nonce": "n", "response_uri": "https://v.example/r", "client_metadata": {"jwks": {"keys": [j]}}})) {
                look(&r);
                validated(
                    &TestWallet::new(the_metadata(), Net::dead(), true),
                    AuthorizationRequest { client_id: Some("x".into()), request_indirection: RequestIndirection::Direct(r.into()) },
                );
            }
            compute_jwk_thumbprint(&j).is_ok()
        }
        T::Typed => {
            let Some(j) = parsed() else { return false };
            fn one<P: TypedParameter + std::fmt::Debug + Clone>(j: &Json) -> bool {
                let mut o = object(json!({P::KEY: j}));
                let some = match o.get::<P>() {
                    Some(Ok(p)) => {
                        let _ = format!("{p:?}");
                        let _ = o.insert(p).map(|r| r.is_ok());
                        true
                    }
                    _ => false,
                };
                let _ = o.remove::<P>().map(|r| r.is_ok());
                some
            }
            let mut some = false;
            macro_rules! all {
                ($($t:ty),* $(,)?) => { $(some |= one::<$t>(&j);)* };
            }
            all!(
                ClientId, ClientMetadata, Nonce, Audience, RedirectUri, ResponseUri, ResponseMode, ResponseType, State,
                ExpectedOrigins, TransactionData, VerifierInfo, RequestUriMethod, Issuer, AuthorizationEndpoint,
                ResponseTypesSupported, ClientIdPrefixesSupported, RequestObjectSigningAlgValuesSupported,
                AuthorizationEncryptionAlgValuesSupported, AuthorizationEncryptionEncValuesSupported, JWKs,
                EncryptedResponseEncValuesSupported, DcqlQuery, IdToken, VpToken, VpFormats, VpFormatsSupported,
            );
            if let Ok(s) = serde_json::from_slice::<Status>(input) {
                let _ = (serde_json::to_string(&s), s.clone() < s);
                some = true;
            }
            if let Ok(o) = serde_json::from_slice::<Outcome>(input) {
                let _ = (serde_json::to_string(&o), o.clone() < o);
                some = true;
            }
            let _ = serde_json::from_slice::<ClaimFormatDesignation>(input).map(|d| String::from(d));
            if let Ok(m) = serde_json::from_slice::<ClaimFormatMap>(input) {
                let v = VpFormats(m.clone());
                for f in m.keys() {
                    let _ = v.supports_security_method(f, &"ES256".to_string());
                }
                some = true;
            }
            if let Ok(mut p) = serde_json::from_slice::<ClaimFormatPayload>(input) {
                p.add_alg("ES256".into());
                p.add_proof_type("x".into());
                some = true;
            }
            let _ = serde_json::from_slice::<NonEmptyVec<Json>>(input).map(|v| v.len());
            some
        }
        T::ClientId => {
            let Some(text) = text else { return false };
            let id = ClientId(text.into());
            let _ = id.resolve_prefix();
            let body = json!({"client_id": text, "response_type": "vp_token", "response_mode": "direct_post", "nonce": "n", "response_uri": "https://v.example/r"});
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [cert().x5c()], "kid": VM});
            let t = jwt(&header, &body, &key(1));
            let mut some = false;
            for (net, r) in [
                (Net::dead(), RequestIndirection::ByValue { request: t.clone() }),
                (serving(REQUEST_URI, &t), RequestIndirection::ByReference { request_uri: REQUEST_URI.parse().unwrap() }),
                (Net::dead(), RequestIndirection::Direct(object(body))),
            ] {
                some |= validated(&wallet(net), AuthorizationRequest { client_id: Some(text.into()), request_indirection: r });
            }
            some
        }
        T::NotFetched => {
            for status in [202u16, 302, 400, 404, 500] {
                let bytes = input.to_vec();
                validated(
                    &wallet(Net::new(move |_| Answer::Reply(status, bytes.clone()))),
                    AuthorizationRequest {
                        client_id: Some("x".into()),
                        request_indirection: RequestIndirection::ByReference { request_uri: REQUEST_URI.parse().unwrap() },
                    },
                );
            }
            false
        }
        T::Refused => {
            for status in [204u16, 302, 400, 404, 500] {
                for mode in ["direct_post", "direct_post.jwt"] {
                    let bytes = input.to_vec();
                    let w = wallet(Net::new(move |_| Answer::Reply(status, bytes.clone())));
                    let o = request_object(json!({"client_id": "x", "response_type": "vp_token", "response_mode": mode, "nonce": "n", "response_uri": "https://v.example/r"})).unwrap();
                    let a = if mode == "direct_post" {
                        AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::new()))
                    } else {
                        AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: "a.b.c.d.e".into() })
                    };
                    let r = now(w.submit_response(o, a));
                    let _ = format!("{r:?}");
                }
            }
            false
        }
        T::Tokens => {
            let encoded = |state: Option<&str>| {
                let mut f = url::form_urlencoded::Serializer::new(String::new());
                let all: String = input.iter().map(|b| *b as char).collect();
                f.append_pair("vp_token", text.unwrap_or(&all));
                if let Some(s) = state {
                    f.append_pair("state", s);
                }
                f.finish()
            };
            let a = feed(T::Form, encoded(None).as_bytes());
            let b = feed(T::Form, encoded(text).as_bytes());
            if let Some(j) = parsed() {
                let _ = serde_json::from_value::<AuthorizationResponse>(json!({"vp_token": j, "state": text})).is_ok();
            }
            a | b
        }
        T::Ids => {
            let Some((outer, inner)) = text.and_then(|t| t.split_once('\n')) else { return false };
            let body = json!({"client_id": inner, "response_type": "vp_token", "response_mode": "direct_post", "nonce": "n", "response_uri": "https://v.example/r"});
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [cert().x5c()], "kid": VM});
            let t = jwt(&header, &body, &key(1));
            let mut some = false;
            for (net, r) in [
                (Net::dead(), RequestIndirection::ByValue { request: t.clone() }),
                (serving(REQUEST_URI, &t), RequestIndirection::ByReference { request_uri: REQUEST_URI.parse().unwrap() }),
                (Net::dead(), RequestIndirection::Direct(object(body))),
            ] {
                let r = AuthorizationRequest { client_id: Some(outer.into()), request_indirection: r };
                some |= validated(&TestWallet::new(the_metadata(), net.clone(), true), r.clone());
                some |= validated(&wallet(net), r);
            }
            some
        }
        T::Did => {
            let Some(did) = text else { return false };
            let vm = format!("{did}#0");
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": vm});
            let mut some = false;
            for prefix in ["decentralized_identifier:", ""] {
                let body = json!({"client_id": format!("{prefix}{did}"), "response_type": "vp_token", "response_mode": "direct_post", "nonce": "n", "response_uri": "https://v.example/r"});
                let t = jwt(&header, &body, &key(1));
                let Ok(o) = request_object(body) else { continue };
                for trusted in [None, Some(vec![]), Some(vec!["did:web:other".to_string()]), Some(vec![did.to_string()])] {
                    for keys in [vec![], vec![(vm.clone(), ssi_jwk_of(1))], vec![(vm.clone(), ssi_jwk_of(2))]] {
                        let r = now(did::verify_with_resolver(&the_metadata(), &o, t.clone(), trusted.as_deref(), OneKeys(keys)));
                        let _ = format!("{r:?}");
                        some |= r.is_ok();
                    }
                }
            }
            some
        }
        T::Cert => {
            use base64::prelude::*;
            let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [BASE64_STANDARD.encode(input), CertSpec::new(2, &[]).x5c()]});
            let mut some = false;
            for id in ["x509_san_dns:v.example".to_string(), format!("x509_hash:{}", b64u(sha256(input)))] {
                let body = json!({"client_id": id, "response_type": "vp_token", "response_mode": "direct_post", "nonce": "n", "response_uri": "https://v.example/r"});
                some |= feed(T::Fetched, jwt(&header, &body, &key(1)).as_bytes());
            }
            if let Ok(x) = <x509_cert::Certificate as x509_cert::der::Decode>::from_der(input) {
                let made = openid4vp::verifier::client::X509SanDnsClient::new(vec![x.clone()], signer(1));
                let _ = made.map(|c| openid4vp::verifier::client::Client::id(&c).0.len());
                let _ = openid4vp::verifier::client::X509HashClient::new(vec![x], signer(1)).map(|c| openid4vp::verifier::client::Client::id(&c).0.len());
            }
            some
        }
    }
}

/// Every path in a document.
fn paths(v: &Json, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    let mut go = |k: String, x: &Json| {
        at.push(k);
        paths(x, at, out);
        at.pop();
    };
    match v {
        Json::Object(m) => m.iter().for_each(|(k, x)| go(k.clone(), x)),
        Json::Array(a) => a.iter().enumerate().for_each(|(i, x)| go(i.to_string(), x)),
        _ => {}
    }
}

fn at<'a>(v: &'a mut Json, path: &[String]) -> Option<&'a mut Json> {
    path.iter().try_fold(v, |v, k| match v {
        Json::Object(m) => m.get_mut(k),
        Json::Array(a) => k.parse::<usize>().ok().and_then(|i| a.get_mut(i)),
        _ => None,
    })
}

fn without(v: &mut Json, path: &[String]) {
    let Some((last, before)) = path.split_last() else { return };
    match at(v, before) {
        Some(Json::Object(m)) => {
            m.remove(last);
        }
        Some(Json::Array(a)) => {
            let i: usize = last.parse().unwrap();
            if i < a.len() {
                a.remove(i);
            }
        }
        _ => {}
    }
}

/// What a member is replaced by.
fn values() -> Vec<Json> {
    vec![
        json!(null),
        json!(true),
        json!(0),
        json!(-1),
        json!(1.5),
        json!(u64::MAX),
        json!(1e300),
        json!(""),
        json!("a"),
        json!(":"),
        json!("#"),
        json!("."),
        json!("\u{0}"),
        json!("é\u{1F600}"),
        json!("\u{7f}\u{80}"),
        json!("https://"),
        json!("https://v.example"),
        json!("data:text/plain,x"),
        json!("mailto:x"),
        json!("ES256"),
        json!("none"),
        json!("direct_post.jwt"),
        json!("dc_api"),
        json!("AAAA"),
        json!("x".repeat(300)),
        json!([]),
        json!([[]]),
        json!([""]),
        json!([null]),
        json!([1]),
        json!(["a", "a"]),
        json!([{}]),
        json!({}),
        json!({"": ""}),
        json!({"a": {"a": []}}),
        json!({"keys": []}),
        json!({"$serde_json::private::Number": "1"}),
    ]
}

/// A text with characters of several bytes at every position: alone, after each beginning of the
/// text, and before it. (Cutting a text at a byte that is not the beginning of a character panics.)
fn wide(text: &str) -> Vec<String> {
    let mut out = vec![];
    for lead in ["", "a"] {
        for n in [1, 2, 3, 4, 8, 40] {
            out.push(format!("{lead}{}", "é".repeat(n)));
            out.push(format!("{lead}{}a", "é".repeat(n)));
        }
        out.push(format!("{lead}{}", "\u{1F600}".repeat(20)));
        out.push(format!("{lead}é{text}"));
        out.push(format!("{text}{lead}{}", "é".repeat(20)));
    }
    if text.len() < 60 {
        for (i, _) in text.char_indices() {
            out.push(format!("{}\u{20ac}{}", &text[..i], &text[i..]));
            out.push(format!("{}éé", &text[..i]));
            out.push(text.chars().enumerate().map(|(j, c)| if i == j { 'é' } else { c }).collect());
        }
    }
    out
}

/// The documents that are altered.
fn documents() -> Vec<(T, &'static str, Json)> {
    let mut k = public_jwk(1);
    k["alg"] = json!("ECDH-ES");
    k["use"] = json!("enc");
    k["kid"] = json!("1");
    let dcql = json!({
        "credentials": [{
            "id": "a", "format": "mso_mdoc", "multiple": true, "require_cryptographic_holder_binding": false,
            "meta": {"doctype_value": "org.iso.18013.5.1.mDL"},
            "trusted_authorities": [{"type": "aki", "values": ["s9tIpPmhxdiuNkHMEWNpYim8S8Y"]}],
            "claims": [{"id": "x", "path": ["org.iso.18013.5.1", "family_name"], "intent_to_retain": true}, {"path": ["a", 0, null], "values": ["b", 1, true]}],
            "claim_sets": [["x"], []],
        }],
        "credential_sets": [{"options": [["a"], []], "required": false, "purpose": "p"}],
    });
    let body = |id: &str| {
        json!({
            "client_id": id, "response_type": "vp_token", "response_mode": "direct_post.jwt", "nonce": "n", "state": "s",
            "response_uri": "https://v.example/r", "aud": "https://self-issued.me/v2", "dcql_query": dcql,
            "client_metadata": {
                "jwks": {"keys": [k]},
                "encrypted_response_enc_values_supported": ["A128GCM"],
                "vp_formats_supported": {"mso_mdoc": {"alg": ["ES256"]}, "ldp_vp": {"proof_type": ["x"]}},
            },
            "expected_origins": ["https://v.example"],
            "transaction_data": ["eyJ0eXBlIjoieCJ9"],
            "verifier_info": [{"format": "jwt", "data": "x"}],
        })
    };
    vec![
        (T::Body, "body san", body("x509_san_dns:v.example")),
        (T::Body, "body hash", body(&hash_id())),
        (T::Body, "body did", body("decentralized_identifier:did:web:v.example")),
        (T::Header, "header", json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [cert().x5c(), CertSpec::new(2, &[]).x5c()], "kid": VM})),
        (T::Object, "parameters", {
            let mut b = body("x");
            b.as_object_mut().unwrap().remove("client_id");
            b
        }),
        (T::Object, "parameters with client_id", body("x509_san_dns:v.example")),
        (T::Dcql, "query", dcql),
        (T::Metadata, "wallet metadata", json!({
            "issuer": "https://w.example", "authorization_endpoint": "openid4vp:", "response_types_supported": ["vp_token"],
            "vp_formats_supported": {"mso_mdoc": {"alg": ["ES256"]}, "jwt_vp_json": {"alg_values_supported": ["ES256"]}, "other": {"x": 1}},
            "client_id_prefixes_supported": ["x509_san_dns"], "request_object_signing_alg_values_supported": ["ES256"],
            "authorization_encryption_alg_values_supported": ["ECDH-ES"], "authorization_encryption_enc_values_supported": ["A128GCM"],
        })),
        (T::Jwk, "key", k.clone()),
        (T::Jwk, "RSA key", json!({"kty": "RSA", "n": "AQAB", "e": "AQAB", "alg": "RSA-OAEP", "use": "enc"})),
        (T::Typed, "status", serde_json::to_value(Status::Complete(Outcome::Success { info: json!({"a": 1}) })).unwrap()),
        (T::Typed, "failure", serde_json::to_value(Status::Complete(Outcome::Failure { reason: "x".into() })).unwrap()),
        (T::Typed, "formats", json!({"mso_mdoc": {"alg": ["ES256"]}, "ldp_vp": {"proof_type": ["x"]}})),
        (T::Typed, "jwks", json!({"keys": [k]})),
        (T::Typed, "verifier info", json!([{"format": "jwt", "data": "x", "credential_ids": ["a"]}])),
        (T::Typed, "vp_token", json!({"a": ["x", {"b": 1}]})),
        (T::Typed, "client metadata", json!({"vp_formats_supported": {}, "jwks": {"keys": [k]}})),
        (T::Answer, "answer", json!({"redirect_uri": "https://v.example/done"})),
    ]
}

/// Texts and bytes that are cut and altered at every byte.
fn samples() -> Vec<(T, &'static str, Vec<u8>)> {
    let mut out: Vec<(T, &'static str, Vec<u8>)> = vec![];
    let body = |id: &str| json!({"client_id": id, "response_type": "vp_token", "response_mode": "direct_post", "nonce": "n", "response_uri": "https://v.example/r"});
    let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": [cert().x5c()], "kid": VM});
    let san = jwt(&header, &body("x509_san_dns:v.example"), &key(1));
    let small = |h: Json, id: &str| jwt(&h, &body(id), &key(1)).into_bytes();
    out.push((T::Url, "URL by value", b"openid4vp:?client_id=x509_san_dns%3Av.example&request=e30.e30.e30".to_vec()));
    out.push((T::Url, "URL by reference", b"https://w.example/authorize?client_id=a%C3%A9&request_uri=https%3A%2F%2Fv.example%2Fr".to_vec()));
    out.push((T::Query, "plain query", b"client_id=redirect_uri%3Ahttps%3A%2F%2Fv.example%2Fr&response_type=vp_token&response_mode=direct_post&nonce=n&response_uri=https%3A%2F%2Fv.example%2Fr&state=%7B%22a%22%3A1%7D".to_vec()));
    out.push((T::Token, "DID token", small(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "kid": VM}), "decentralized_identifier:did:web:v.example")));
    out.push((T::Fetched, "fetched x509_san_dns token", san.clone().into_bytes()));
    out.push((T::Fetched, "fetched x509_hash token", jwt(&header, &body(&hash_id()), &key(1)).into_bytes()));
    out.push((T::Form, "encrypted form", b"response=a.b.c.d.e".to_vec()));
    out.push((T::Form, "plain form", b"vp_token=%7B%22id%22%3A%5B%22a%22%2C%7B%22b%22%3A%5B1%5D%7D%5D%7D&state=s".to_vec()));
    out.push((T::Tokens, "tokens", "{\"é\": [\"€\", {\"b\": [1, null]}], \"b\": [\"\u{1F600}\"]}".into()));
    out.push((T::Tokens, "tokens on several lines", "{\n  \"é\": [\n    \"€\",\n    {\"b\": 1}\n  ]\n}\n".into()));
    out.push((T::Answer, "wide answer", "{\n \"é\": \"€\",\n \"redirect_uri\": \"https://v.example/é\"\n}".into()));
    out.push((T::Dcql, "wide query", "{\n \"é\": \"€\",\n \"credentials\": [{\"id\": \"a\", \"é\": 1,\n \"format\": \"mso_mdoc\"}]\n}".into()));
    out.push((T::Typed, "wide value", "{\n \"é\": \"€\",\n \"keys\": [{\"kty\": \"é\"}]\n}".into()));
    out.push((T::Did, "DID", b"did:web:v.example".to_vec()));
    out.push((T::Cert, "certificate", cert().to_der()));
    out.push((T::Cert, "certificate without names", CertSpec::new(1, &[]).to_der()));
    out.push((T::Answer, "answer", br#"{"redirect_uri": "https://v.example/done"}"#.to_vec()));
    let h = Handover::new("x509_san_dns:v.example", "n", Some(&[1; 32]), "https://v.example/r").unwrap();
    let d = DcApiHandover::new("https://v.example", "n", None).unwrap();
    out.push((T::Handover, "handover", h.to_cbor_bytes().unwrap()));
    out.push((T::Handover, "dc_api handover", d.to_cbor_bytes().unwrap()));
    out.push((T::Handover, "transcript", SessionTranscript::new(h).to_cbor_bytes().unwrap()));
    out.push((T::Handover, "dc_api transcript", SessionTranscript::new(d).to_cbor_bytes().unwrap()));
    for (t, n, d) in documents() {
        if matches!(t, T::Dcql | T::Metadata | T::Jwk | T::Typed) {
            out.push((t, n, d.to_string().into_bytes()));
        }
    }
    out
}

fn show(b: &[u8]) -> String {
    if b.len() < 2000 {
        return b.escape_ascii().to_string();
    }
    format!("{}... ({} bytes, {})", b[..200].escape_ascii(), b.len(), b64u(sha256(b)))
}

/// Long texts of characters of several bytes, with every alignment from either end.
fn long_wide(n: usize) -> Vec<String> {
    let mut out = vec![];
    for ch in ["é", "\u{20ac}", "\u{1F600}"] {
        for lead in 0..ch.len() {
            for trail in (0..ch.len()).filter(|t| n > 2000 || lead == 0 || *t == 0) {
                out.push("a".repeat(lead) + &ch.repeat(n / ch.len()) + &"b".repeat(trail));
            }
        }
    }
    out
}

/// Members that the standards know, and that the documents do not have.
fn registered(what: &str) -> Vec<&'static str> {
    if what.starts_with("body") || what.starts_with("parameters") {
        vec![
            "iss", "sub", "exp", "iat", "nbf", "jti", "scope", "redirect_uri", "wallet_nonce", "request", "request_uri", "request_uri_method",
            "client_id_scheme", "client_metadata_uri", "presentation_definition", "presentation_definition_uri", "id_token_type", "prompt", "max_age",
            "display", "ui_locales", "acr_values", "code_challenge", "registration", "verifier_attestations", "origin", "error", "", "é",
        ]
    } else if what == "header" {
        vec![
            "cty", "crit", "jku", "jwk", "x5u", "x5t", "x5t#S256", "b64", "iat", "exp", "nbf", "iss", "sub", "aud", "zip", "enc", "epk", "apu", "apv", "iv",
            "tag", "p2s", "p2c", "url", "nonce", "trust_chain", "jwt", "client_id", "", "é",
        ]
    } else if what.contains("key") || what == "jwks" {
        vec!["key_ops", "x5c", "x5t", "x5t#S256", "x5u", "d", "p", "q", "dp", "dq", "qi", "k", "ext", "oth", "n", "e", "enc", "exp", "iat", "", "é"]
    } else if what.contains("metadata") {
        vec![
            "jwks", "jwks_uri", "client_name", "logo_uri", "presentation_definition_uri_supported", "client_id_schemes_supported", "response_modes_supported",
            "vp_formats", "authorization_signed_response_alg", "authorization_encrypted_response_alg", "authorization_encrypted_response_enc",
            "require_signed_request_object", "subject_syntax_types_supported", "scopes_supported", "id_token_types_supported", "redirect_uris", "", "é",
        ]
    } else if what == "query" {
        vec!["id", "format", "claims", "meta", "values", "purpose", "namespace", "claim_name", "limit_disclosure", "vct_values", "required", "", "é"]
    } else {
        vec!["", "a", "é", "error", "reason", "info", "state", "id_token", "vp_token", "presentation_submission", "response", "iss", "expires_in"]
    }
}

pub fn c26(c: &mut Ctx) {
    c.rule = "For every place where untrusted input goes in: every text over an alphabet of structure-significant characters up to a length; every JSON value of a list, and every document with one (thorough: two) of its members, at any depth, replaced by each of them, removed or doubled, or (a text) with characters of several bytes at every position; every cut of valid inputs and every byte of them replaced, inserted or deleted; JSON and CBOR nested up to 100,000 deep. A case is answered if the call returns; what is parsed is then also used (every accessor, answering the request); logging is on. Non-trivial: a distinct input.".into();
    c.assumptions = vec!["inputs are fed to the functions of this library; certificates within a chain are altered only as bytes of the header".into()];
    let mut seen: HashSet<(u8, Vec<u8>)> = HashSet::new();
    let mut waiting: Vec<(String, (T, Vec<u8>))> = vec![];
    let flush = |c: &mut Ctx, waiting: &mut Vec<(String, (T, Vec<u8>))>| {
        c.cases(std::mem::take(waiting), |(t, input)| Ok(format!("{t:?} {}", if feed(*t, input) { "taken" } else { "refused" })))
    };
    let mut run = |c: &mut Ctx, t: T, input: Vec<u8>| {
        if !seen.insert((t as u8, input.clone())) {
            return;
        }
        waiting.push((format!("{t:?} {}", show(&input)), (t, input)));
        if waiting.len() == 20_000 {
            flush(c, &mut waiting);
        }
    };
    let all = [T::Url, T::Query, T::Token, T::Fetched, T::Body, T::Header, T::Object, T::Form, T::Answer, T::Dcql, T::Metadata, T::Handover, T::Jwk, T::Typed, T::ClientId, T::NotFetched, T::Refused, T::Tokens, T::Did, T::Cert];
    // Short texts.
    let n = c.pick(3usize, 5);
    for (t, alphabet, n) in [
        (T::Query, vec!["a", "=", "&", "%", "+", "request", "request_uri", "client_id", ":", "é", "%00", "%FF"], n),
        (T::Form, vec!["response", "vp_token", "state", "=", "&", "%", "%7B%7D", "{", "}", "\"", "%FF"], n),
        (T::Token, vec![".", "e30", "a", "=", "é", "W10", "bnVsbA", " ", ""], n + 1),
        (T::Fetched, vec![".", "e30", "W10", "\n"], n + 1),
        (T::ClientId, vec![":", "#", "x509_san_dns", "x509_hash", "decentralized_identifier", "did:web:v.example", "redirect_uri", "origin", "é", "."], n.min(3)),
        (T::Url, vec!["openid4vp:", "https://w.example/authorize", "?", "&", "request=", "request_uri=", "client_id=", "#", "//", "a", "%"], n),
        (T::Answer, vec!["{", "}", "\"redirect_uri\"", ":", "\"\"", "[", "]", "null", " ", "\u{feff}"], n + 1),
        (T::Dcql, vec!["{", "}", "[", "]", "\"credentials\"", ":", ",", "\"\"", "null", "1"], n + 1),
        (T::Jwk, vec!["{", "}", "\"kty\"", ":", ",", "\"EC\"", "\"RSA\"", "null"], n + 1),
        (T::Typed, vec!["{", "}", "[", "]", "\"a\"", ":", ",", "\"\"", "null", "1", "-", "\"vp_token\""], n),
        (T::Metadata, vec!["{", "}", "[", "]", "\"vp_formats_supported\"", ":", ",", "\"\""], n),
        (T::Body, vec!["{", "}", "[", "]", "\"client_id\"", ":", ",", "\"\"", "null"], n.min(3)),
        (T::Header, vec!["{", "}", "[", "]", "\"alg\"", ":", ",", "\"\"", "null"], n.min(3)),
        (T::Object, vec!["{", "}", "\"nonce\"", ":", ",", "\"\"", "null"], n),
    ] {
        for s in strings(&alphabet, n) {
            run(c, t, s.into_bytes());
        }
    }
    let cbor: &[u8] = &[0x00, 0x20, 0x40, 0x41, 0x58, 0x5b, 0x60, 0x61, 0x78, 0x80, 0x81, 0x82, 0x83, 0x84, 0x9b, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xd8, 0xf6, 0xf7, 0xf9, 0xfb, 0xff, 0x18];
    let depth = c.pick(3, 4);
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..depth {
        level = level.iter().flat_map(|p| cbor.iter().map(move |b| { let mut p = p.clone(); p.push(*b); p })).collect();
        for b in &level {
            run(c, T::Handover, b.clone());
        }
    }
    // Lengths that promise more than there is.
    for head in [0x5bu8, 0x7b, 0x9b, 0xbb] {
        for len in [1u64, 255, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 63, u64::MAX] {
            for lead in [&[][..], &[0x82], &[0x83, 0xf6, 0xf6], &[0x83, 0xf6, 0xf6, 0x82], &[0x82, 0x71]] {
                let mut b = lead.to_vec();
                b.push(head);
                b.extend(len.to_be_bytes());
                run(c, T::Handover, b);
            }
        }
    }
    // Any JSON value anywhere.
    let values = values();
    for t in [T::Body, T::Header, T::Object, T::Dcql, T::Metadata, T::Jwk, T::Typed, T::Answer] {
        for v in &values {
            run(c, t, v.to_string().into_bytes());
        }
    }
    for (t, name, doc) in documents() {
        let mut ps = vec![];
        paths(&doc, &mut vec![], &mut ps);
        let mut altered: Vec<Json> = vec![doc.clone()];
        for p in &ps {
            for v in &values {
                let mut d = doc.clone();
                *at(&mut d, p).unwrap() = v.clone();
                altered.push(d);
            }
            if let Some(text) = at(&mut doc.clone(), p).unwrap().as_str() {
                for x in wide(text) {
                    let mut d = doc.clone();
                    *at(&mut d, p).unwrap() = json!(x);
                    altered.push(d);
                }
            }
            if at(&mut doc.clone(), p).unwrap().is_string() {
                let own = at(&mut doc.clone(), p).unwrap().as_str().unwrap().to_string();
                for x in long_wide(c.pick(1500, 5000)) {
                    for x in [x.clone(), own.clone() + &x] {
                        let mut d = doc.clone();
                        *at(&mut d, p).unwrap() = json!(x);
                        altered.push(d);
                    }
                }
            }
            if at(&mut doc.clone(), p).unwrap().is_object() {
                for m in registered(name) {
                    for v in &values {
                        let mut d = doc.clone();
                        let o = at(&mut d, p).unwrap();
                        if o.get(m).is_none() {
                            o[m] = v.clone();
                            altered.push(d);
                        }
                    }
                }
            }
            let mut d = doc.clone();
            without(&mut d, p);
            altered.push(d);
            let mut d = doc.clone();
            let x = at(&mut d, p).unwrap();
            *x = json!([x.clone(), x.clone()]);
            altered.push(d);
        }
        if !c.quick() {
            // Pairs of members, a shorter list of values.
            let few: Vec<&Json> = values.iter().filter(|v| [json!(null), json!(0), json!(""), json!("é\u{1F600}"), json!([]), json!([null]), json!({})].contains(v)).collect();
            for (i, p) in ps.iter().enumerate() {
                for q in &ps[i + 1..] {
                    if q.starts_with(p) {
                        continue;
                    }
                    for v in &few {
                        for w in &few {
                            let mut d = doc.clone();
                            *at(&mut d, p).unwrap() = (*v).clone();
                            *at(&mut d, q).unwrap() = (*w).clone();
                            altered.push(d);
                        }
                    }
                }
            }
        }
        for d in altered {
            run(c, t, d.to_string().into_bytes());
        }
    }
    // Long texts, and texts of several lines.
    let mut texts = long_wide(5000);
    texts.extend(["é\nè\n€", "{\n \"é\": [\n  \"€\", è\n ]\n}", "[\n\"é€\"", "\r\n\r\n", "é\u{2028}x"].map(String::from));
    for t in all {
        for x in &texts {
            run(c, t, x.clone().into_bytes());
            run(c, t, format!("\"{x}\"").into_bytes());
            run(c, t, format!("{{\"{x}\": [\"{x}\", }}").into_bytes());
            run(c, t, format!("{{\n\"{x}\":\n[\"{x}\", x]\n}}").into_bytes());
        }
    }
    // Client identifiers that differ in one character, whatever its bytes.
    let ids: Vec<String> = ["x509_san_dns:v.example", "", "x", "decentralized_identifier:did:web:v.example", "redirect_uri:https://v.example/"]
        .iter()
        .flat_map(|base| ["", "é", "è", "€", "₭", "\u{1F600}", "\u{1F601}", "a", "éé", "aé", "ée", "\u{e9}\u{301}"].map(|x| format!("{base}{x}")))
        .chain(long_wide(600).into_iter().step_by(5))
        .collect();
    for a in &ids {
        for b in &ids {
            run(c, T::Ids, format!("{a}\n{b}").into_bytes());
        }
    }
    // DIDs.
    for m in ["did:web:v.example", "did:jwk:", "did:key:z", "did:", "", "#", "did:web:v.example#1"] {
        for x in wide(m).into_iter().chain(values.iter().filter_map(|v| v.as_str().map(|v| format!("{m}{v}")))).chain(long_wide(600).into_iter().map(|x| format!("{m}{x}"))) {
            run(c, T::Did, x.into_bytes());
        }
    }
    // Cuts and single-byte changes.
    let quick: &[u8] = &[0, b'"', b'.', b'%', b'&', b'{', b'[', 0x80, 0xff];
    let every: Vec<u8> = (0..=255).collect();
    for (t, _, s) in samples() {
        // The long tokens get the short list of bytes in both tiers.
        let bytes = if c.quick() || s.len() > 400 { quick } else { &every[..] };
        for i in 0..=s.len() {
            run(c, t, s[..i].to_vec());
            run(c, t, s[i..].to_vec());
            if i < s.len() {
                let mut d = s.clone();
                d.remove(i);
                run(c, t, d);
            }
            for b in bytes {
                if i < s.len() {
                    let mut d = s.clone();
                    d[i] = *b;
                    run(c, t, d);
                }
                let mut d = s.clone();
                d.insert(i, *b);
                run(c, t, d);
            }
            for wide in ["é", "%C3%A9", "\u{20ac}", "\n"] {
                let mut d = s.clone();
                d.splice(i..i, wide.bytes());
                run(c, t, d);
            }
        }
    }
    flush(c, &mut waiting);
    // Depth and length.
    for t in all {
        for n in [10usize, 126, 127, 128, 129, 1000, 100_000] {
            for (open, close) in [("[", "]"), ("{\"credentials\":", "}"), ("{\"a\":", "}")] {
                let d = open.repeat(n) + "1" + &close.repeat(n);
                c.case(format!("{t:?}: {open} {n} deep"), || {
                    feed(t, d.as_bytes());
                    feed(t, open.repeat(n).as_bytes());
                    Ok(format!("{t:?} nested"))
                });
            }
            c.case(format!("{t:?}: {n} times the same"), || {
                for x in ["a", ".", "=", "&", ":", "%", "\u{1F600}", "\"", "a=b&"] {
                    feed(t, x.repeat(n).as_bytes());
                }
                Ok(format!("{t:?} long"))
            });
        }
    }
    for n in [10usize, 127, 255, 256, 257, 1000, 100_000] {
        c.case(format!("CBOR {n} deep"), || {
            for b in [0x81u8, 0x82, 0xa1, 0xc0, 0x9f, 0xbf, 0xd8] {
                feed(T::Handover, &vec![b; n]);
                let mut d = vec![0x83, 0xf6, 0xf6];
                d.extend(vec![b; n]);
                feed(T::Handover, &d);
            }
            Ok("CBOR nested".into())
        });
    }
}
