//! The environment the checks close the system with: keys, certificates, signed tokens, wallets,
//! HTTP clients and stores that record what they are asked and answer what they are told.
use anyhow::{bail, Error, Result};
use async_trait::async_trait;
use base64::prelude::*;
use http::{Request, Response};
use openid4vp::core::authorization_request::verification::RequestVerifier;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::UntypedObject;
use openid4vp::core::util::AsyncHttpClient;
use openid4vp::verifier::client::Client;
use openid4vp::verifier::request_signer::{P256Signer, RequestSigner};
use openid4vp::verifier::session::{Session, SessionStore, Status};
use openid4vp::wallet::Wallet;
use p256::ecdsa::{signature::Signer, Signature, SigningKey};
use serde_json::{json, Value as Json};
use std::sync::{Arc, Mutex};
use uuid::Uuid;

pub fn b64u(bytes: impl AsRef<[u8]>) -> String {
    BASE64_URL_SAFE_NO_PAD.encode(bytes)
}

pub fn unb64(s: &str) -> Vec<u8> {
    BASE64_STANDARD.decode(s).unwrap()
}

pub fn unb64u(s: &str) -> Result<Vec<u8>, String> {
    BASE64_URL_SAFE_NO_PAD
        .decode(s)
        .map_err(|e| format!("not base64url: {e}: {s}"))
}

pub fn key(n: u8) -> SigningKey {
    let mut k = [0x11u8; 32];
    k[31] = n;
    SigningKey::from_slice(&k).unwrap()
}

pub fn signer(n: u8) -> Arc<P256Signer> {
    Arc::new(P256Signer::new(key(n)).unwrap())
}

pub fn public_jwk(n: u8) -> Json {
    let pk: p256::PublicKey = key(n).verifying_key().into();
    serde_json::from_str(&pk.to_jwk_string()).unwrap()
}

pub fn sign_es256(k: &SigningKey, payload: &[u8]) -> Vec<u8> {
    let s: Signature = k.sign(payload);
    s.to_vec()
}

/// header.body.signature, the header and body being given as JSON.
pub fn jwt(header: &Json, body: &Json, k: &SigningKey) -> String {
    jwt_text(&header.to_string(), &body.to_string(), k)
}

pub fn jwt_text(header: &str, body: &str, k: &SigningKey) -> String {
    let hb = format!("{}.{}", b64u(header), b64u(body));
    let sig = sign_es256(k, hb.as_bytes());
    format!("{hb}.{}", b64u(sig))
}

/// The JSON of the header and body of a signed token.
pub fn jwt_parts(t: &str) -> Result<(Json, Json, Vec<u8>), String> {
    let p: Vec<&str> = t.split('.').collect();
    if p.len() != 3 {
        return Err(format!("not a three-part token: {t}"));
    }
    let j = |s: &str| -> Result<Json, String> {
        serde_json::from_slice(&unb64u(s)?).map_err(|e| e.to_string())
    };
    Ok((j(p[0])?, j(p[1])?, unb64u(p[2])?))
}

// ---------------------------------------------------------------- certificates

fn der(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut out = vec![tag];
    let n = content.len();
    if n < 0x80 {
        out.push(n as u8);
    } else if n < 0x100 {
        out.extend([0x81, n as u8]);
    } else {
        out.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    out.extend_from_slice(content);
    out
}

fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    der(0x30, &parts.concat())
}

/// A subject alternative name.
#[derive(Clone, Debug, PartialEq)]
pub enum San {
    Dns(&'static str),
    Uri(&'static str),
    Email(&'static str),
    Ip([u8; 4]),
}

#[derive(Clone, Debug)]
pub struct CertSpec {
    pub key: u8,
    pub serial: u8,
    /// One entry per subjectAltName extension (normally none or one).
    pub sans: Vec<Vec<San>>,
    pub critical: bool,
    /// An SPKI that is not a P-256 key.
    pub odd_key: bool,
    /// The subject's common name.
    pub cn: &'static str,
}

impl CertSpec {
    pub fn new(key: u8, sans: &[San]) -> Self {
        CertSpec {
            key,
            serial: key + 1,
            sans: if sans.is_empty() { vec![] } else { vec![sans.to_vec()] },
            critical: false,
            odd_key: false,
            cn: "leaf",
        }
    }

    /// DNS names in order.
    pub fn dns(&self) -> Vec<&'static str> {
        self.sans
            .iter()
            .flatten()
            .filter_map(|s| match s {
                San::Dns(d) => Some(*d),
                _ => None,
            })
            .collect()
    }

    pub fn to_der(&self) -> Vec<u8> {
        let ecdsa_sha256 = seq(&[der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2])]);
        let name = |s: &str| {
            seq(&[der(
                0x31,
                &seq(&[der(6, &[0x55, 4, 3]), der(0x0c, s.as_bytes())]),
            )])
        };
        let validity = seq(&[der(0x17, b"240101000000Z"), der(0x17, b"440101000000Z")]);
        let spki = if self.odd_key {
            // Ed25519
            let mut bits = vec![0u8];
            bits.extend([self.key; 32]);
            seq(&[seq(&[der(6, &[0x2b, 0x65, 0x70])]), der(3, &bits)])
        } else {
            let point = key(self.key).verifying_key().to_encoded_point(false);
            let mut bits = vec![0u8];
            bits.extend_from_slice(point.as_bytes());
            seq(&[
                seq(&[
                    der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]),
                    der(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]),
                ]),
                der(3, &bits),
            ])
        };
        let mut exts: Vec<Vec<u8>> = vec![];
        for sans in &self.sans {
            let names: Vec<Vec<u8>> = sans
                .iter()
                .map(|s| match s {
                    San::Dns(d) => der(0x82, d.as_bytes()),
                    San::Uri(u) => der(0x86, u.as_bytes()),
                    San::Email(e) => der(0x81, e.as_bytes()),
                    San::Ip(ip) => der(0x87, ip),
                })
                .collect();
            let mut ext = vec![der(6, &[0x55, 0x1d, 0x11])];
            if self.critical {
                ext.push(der(1, &[0xff]));
            }
            ext.push(der(4, &seq(&names)));
            exts.push(seq(&ext));
        }
        let mut tbs = vec![
            der(0xa0, &der(2, &[2])),
            der(2, &[self.serial]),
            ecdsa_sha256.clone(),
            name("issuer"),
            validity,
            name(self.cn),
            spki,
        ];
        if !exts.is_empty() {
            tbs.push(der(0xa3, &seq(&exts)));
        }
        let tbs = seq(&tbs);
        let sig = [vec![0u8], vec![0x30, 6, 2, 1, 1, 2, 1, 1]].concat();
        seq(&[tbs, ecdsa_sha256, der(3, &sig)])
    }

    pub fn cert(&self) -> x509_cert::Certificate {
        use x509_cert::der::Decode;
        x509_cert::Certificate::from_der(&self.to_der()).unwrap()
    }

    /// As it stands in an x5c header.
    pub fn x5c(&self) -> String {
        BASE64_STANDARD.encode(self.to_der())
    }
}

/// SHA-256, independently of the crate the code under test uses.
pub fn sha256(data: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4,
        0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe,
        0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f,
        0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7,
        0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc,
        0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b,
        0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116,
        0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
        0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7,
        0xc67178f2,
    ];
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19,
    ];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((data.len() as u64) * 8).to_be_bytes());
    for chunk in m.chunks(64) {
        let mut w = [0u32; 64];
        for (i, c) in chunk.chunks(4).enumerate() {
            w[i] = u32::from_be_bytes(c.try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16]
                .wrapping_add(s0)
                .wrapping_add(w[i - 7])
                .wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(K[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [
                t1.wrapping_add(t2),
                v[0],
                v[1],
                v[2],
                v[3].wrapping_add(t1),
                v[4],
                v[5],
                v[6],
            ];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for (i, x) in h.iter().enumerate() {
        out[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

// ---------------------------------------------------------------- objects

pub fn object(v: Json) -> UntypedObject {
    serde_json::from_value(v).expect("an object")
}

pub fn request_object(v: Json) -> Result<AuthorizationRequestObject> {
    Ok(serde_json::from_value(v)?)
}

/// Wallet metadata with this endpoint, these extra members.
pub fn metadata(extra: Json) -> WalletMetadata {
    let mut m = json!({
        "authorization_endpoint": "openid4vp:",
        "vp_formats_supported": {},
    });
    for (k, v) in extra.as_object().unwrap() {
        m[k] = v.clone();
    }
    serde_json::from_value(m).expect("wallet metadata")
}

// ---------------------------------------------------------------- HTTP

/// What the network answers.
#[derive(Clone, Debug)]
pub enum Answer {
    Reply(u16, Vec<u8>),
    /// With headers.
    With(u16, Vec<(&'static str, &'static str)>, Vec<u8>),
    Fault,
}

pub type Responder = Arc<dyn Fn(&Request<Vec<u8>>) -> Answer + Send + Sync>;

#[derive(Clone)]
pub struct Net {
    pub log: Arc<Mutex<Vec<Request<Vec<u8>>>>>,
    pub answer: Responder,
}

impl Net {
    pub fn new(answer: impl Fn(&Request<Vec<u8>>) -> Answer + Send + Sync + 'static) -> Self {
        Net {
            log: Default::default(),
            answer: Arc::new(answer),
        }
    }
    /// A network that is not there.
    pub fn dead() -> Self {
        Net::new(|_| Answer::Fault)
    }
    pub fn calls(&self) -> usize {
        self.log.lock().unwrap().len()
    }
}

fn copy(r: &Request<Vec<u8>>) -> Request<Vec<u8>> {
    let mut b = Request::builder().method(r.method()).uri(r.uri());
    for (k, v) in r.headers() {
        b = b.header(k, v);
    }
    b.body(r.body().clone()).unwrap()
}

#[async_trait]
impl AsyncHttpClient for Net {
    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        self.log.lock().unwrap().push(copy(&request));
        match (self.answer)(&request) {
            Answer::Reply(status, body) => Ok(Response::builder().status(status).body(body)?),
            Answer::With(status, headers, body) => {
                let mut b = Response::builder().status(status);
                for (k, v) in headers {
                    b = b.header(k, v);
                }
                Ok(b.body(body)?)
            }
            Answer::Fault => bail!("the network is not there"),
        }
    }
}

// ---------------------------------------------------------------- wallets

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub method: &'static str,
    /// The prefix given to the catch-all callback.
    pub prefix: Option<String>,
    pub jwt: Option<String>,
    /// The decoded request.
    pub request: Json,
}

pub type Judge = Arc<dyn Fn(&Call, &AuthorizationRequestObject) -> Result<()> + Send + Sync>;

/// A wallet that records which callback is consulted and answers as told.
#[derive(Clone)]
pub struct TestWallet {
    pub metadata: WalletMetadata,
    pub net: Net,
    pub calls: Arc<Mutex<Vec<Call>>>,
    pub judge: Judge,
}

impl TestWallet {
    pub fn new(metadata: WalletMetadata, net: Net, accept: bool) -> Self {
        Self::judging(metadata, net, move |_, _| {
            if accept {
                Ok(())
            } else {
                bail!("refused by the callback")
            }
        })
    }
    pub fn judging(
        metadata: WalletMetadata,
        net: Net,
        judge: impl Fn(&Call, &AuthorizationRequestObject) -> Result<()> + Send + Sync + 'static,
    ) -> Self {
        TestWallet {
            metadata,
            net,
            calls: Default::default(),
            judge: Arc::new(judge),
        }
    }
    fn consult(
        &self,
        method: &'static str,
        prefix: Option<&str>,
        request: &AuthorizationRequestObject,
        jwt: Option<String>,
    ) -> Result<()> {
        let call = Call {
            method,
            prefix: prefix.map(str::to_string),
            jwt,
            request: serde_json::to_value(request).unwrap(),
        };
        self.calls.lock().unwrap().push(call.clone());
        (self.judge)(&call, request)
    }
    pub fn calls(&self) -> Vec<Call> {
        self.calls.lock().unwrap().clone()
    }
}

macro_rules! callbacks {
    ($($name:ident),*) => {
        #[async_trait]
        impl RequestVerifier for TestWallet {
            $(async fn $name(
                &self,
                decoded_request: &AuthorizationRequestObject,
                request_jwt: Option<String>,
            ) -> Result<(), Error> {
                self.consult(stringify!($name), None, decoded_request, request_jwt)
            })*
            async fn other(
                &self,
                prefix: &str,
                decoded_request: &AuthorizationRequestObject,
                request_jwt: Option<String>,
            ) -> Result<(), Error> {
                self.consult("other", Some(prefix), decoded_request, request_jwt)
            }
        }
    };
}
callbacks!(
    decentralized_identifier,
    openid_federation,
    preregistered,
    redirect_uri,
    verifier_attestation,
    x509_san_dns,
    x509_hash
);

#[async_trait]
impl Wallet for TestWallet {
    type HttpClient = Net;
    fn metadata(&self) -> &WalletMetadata {
        &self.metadata
    }
    fn http_client(&self) -> &Net {
        &self.net
    }
}

/// A wallet that implements no callback at all.
pub struct BareWallet {
    pub metadata: WalletMetadata,
    pub net: Net,
}

impl RequestVerifier for BareWallet {}

#[async_trait]
impl Wallet for BareWallet {
    type HttpClient = Net;
    fn metadata(&self) -> &WalletMetadata {
        &self.metadata
    }
    fn http_client(&self) -> &Net {
        &self.net
    }
}

// ---------------------------------------------------------------- verifier side

/// A client that does not sign at all: for checks that are not about signatures.
#[derive(Debug, Clone)]
pub struct PlainClient {
    pub id: openid4vp::core::authorization_request::parameters::ClientId,
    pub prefix: String,
}

impl PlainClient {
    pub fn new(prefix: &str, rest: &str) -> Self {
        PlainClient {
            id: openid4vp::core::authorization_request::parameters::ClientId(format!(
                "{prefix}:{rest}"
            )),
            prefix: prefix.into(),
        }
    }
}

#[async_trait]
impl Client for PlainClient {
    fn id(&self) -> &openid4vp::core::authorization_request::parameters::ClientId {
        &self.id
    }
    fn prefix(&self) -> openid4vp::core::authorization_request::parameters::ClientIdScheme {
        openid4vp::core::authorization_request::parameters::ClientIdScheme(self.prefix.clone())
    }
    async fn generate_request_object_jwt(
        &self,
        body: &AuthorizationRequestObject,
    ) -> Result<String> {
        let header = json!({"alg": "ES256", "typ": "oauth-authz-req+jwt"});
        Ok(format!(
            "{}.{}.{}",
            b64u(header.to_string()),
            b64u(serde_json::to_vec(body)?),
            b64u("signature")
        ))
    }
}

/// Resolves one verification method to one key, or fails.
#[derive(Debug, Clone)]
pub struct OneKey {
    pub vm: String,
    pub jwk: Option<ssi_jwk::JWK>,
}

impl ssi_jwk::JWKResolver for OneKey {
    async fn fetch_public_jwk(
        &self,
        key_id: Option<&str>,
    ) -> Result<std::borrow::Cow<'_, ssi_jwk::JWK>, ssi_claims::ProofValidationError> {
        if key_id == Some(self.vm.as_str()) {
            if let Some(jwk) = &self.jwk {
                return Ok(std::borrow::Cow::Borrowed(jwk));
            }
        }
        Err(ssi_claims::ProofValidationError::UnknownKey)
    }
}

/// A signer with injectable faults.
#[derive(Debug)]
pub struct FaultySigner {
    pub inner: Arc<P256Signer>,
    pub alg_fails: bool,
    pub jwk_fails: bool,
    pub alg: Option<String>,
}

#[async_trait]
impl RequestSigner for FaultySigner {
    type Error = Error;
    fn alg(&self) -> Result<String, Error> {
        if self.alg_fails {
            bail!("no algorithm")
        }
        match &self.alg {
            Some(a) => Ok(a.clone()),
            None => self.inner.alg(),
        }
    }
    fn jwk(&self) -> Result<ssi_jwk::JWK, Error> {
        if self.jwk_fails {
            bail!("no key")
        }
        Ok(self.inner.jwk().clone())
    }
    async fn sign(&self, payload: &[u8]) -> Vec<u8> {
        crate::sched::step("signer.sign");
        RequestSigner::sign(self.inner.as_ref(), payload).await
    }
}

/// One call of a session store.
#[derive(Debug, Clone, PartialEq)]
pub enum StoreOp {
    Initiate(Uuid),
    Update(Uuid),
    Get(Uuid),
    Remove(Uuid),
}

/// A store in front of another one: records calls, fails the ones it is told to, and is a
/// scheduling point before and after each call.
#[derive(Debug)]
pub struct EnvStore<S> {
    pub inner: S,
    pub log: Mutex<Vec<StoreOp>>,
    /// Numbers of the calls (counted from 0) that fail without effect.
    pub fail: Vec<usize>,
    /// What it then says.
    pub says: &'static str,
}

/// What a store may say when it fails.
pub const STORE_SAYS: [&str; 9] = [
    "the store is not available",
    "session not found",
    "session already exists",
    "not found",
    "conflict: duplicate key",
    "timed out",
    "the session is already complete",
    "no rows in result set",
    "",
];

impl<S> EnvStore<S> {
    pub fn new(inner: S) -> Self {
        EnvStore {
            inner,
            log: Default::default(),
            fail: vec![],
            says: STORE_SAYS[0],
        }
    }
    fn enter(&self, op: StoreOp) -> Result<()> {
        let n = {
            let mut log = self.log.lock().unwrap();
            log.push(op);
            log.len() - 1
        };
        if self.fail.contains(&n) {
            bail!(self.says)
        }
        Ok(())
    }
}

#[async_trait]
impl<S: SessionStore + Send + Sync> SessionStore for EnvStore<S> {
    async fn initiate(&self, session: Session) -> Result<()> {
        crate::sched::step("store.initiate");
        self.enter(StoreOp::Initiate(session.uuid))?;
        self.inner.initiate(session).await
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        crate::sched::step("store.update_status");
        self.enter(StoreOp::Update(uuid))?;
        self.inner.update_status(uuid, status).await
    }
    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        crate::sched::step("store.get_session");
        self.enter(StoreOp::Get(uuid))?;
        self.inner.get_session(uuid).await
    }
    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        crate::sched::step("store.remove_session");
        self.enter(StoreOp::Remove(uuid))?;
        self.inner.remove_session(uuid).await
    }
}

/// All strings over `alphabet` of length 0..=n, shortest first.
pub fn strings(alphabet: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = out.len();
        for i in from..to {
            for a in alphabet {
                let s = format!("{}{}", out[i], a);
                out.push(s);
            }
        }
        from = to;
    }
    out
}

/// Every text one edit away from this one, its prefixes and suffixes, its words exchanged, and its
/// case changed; never the text itself.
pub fn near_misses(s: &str) -> Vec<String> {
    let chars: Vec<char> = s.chars().collect();
    let mut out: Vec<String> = vec![];
    for i in 0..=chars.len() {
        for ins in ['a', '+', ' ', 'J', '.', ':', '_', '\u{0}'] {
            let mut t = chars.clone();
            t.insert(i, ins);
            out.push(t.iter().collect());
        }
        if i < chars.len() {
            let mut t = chars.clone();
            t.remove(i);
            out.push(t.iter().collect());
            for rep in ['x', '-', ' '] {
                let mut t = chars.clone();
                t[i] = rep;
                out.push(t.iter().collect());
            }
            let mut t = chars.clone();
            t[i] = t[i].to_ascii_uppercase();
            out.push(t.iter().collect());
            let mut t = chars.clone();
            t[i] = t[i].to_ascii_lowercase();
            out.push(t.iter().collect());
            if i + 1 < chars.len() {
                let mut t = chars.clone();
                t.swap(i, i + 1);
                out.push(t.iter().collect());
            }
            out.push(chars[..i].iter().collect());
            out.push(chars[i..].iter().collect());
        }
    }
    for sep in [' ', '.', '_', '-', ':', '/', '+', '#'] {
        if let Some((l, r)) = s.split_once(sep) {
            out.push(format!("{r}{sep}{l}"));
            out.push(format!("{l}{sep}{sep}{r}"));
            out.push(format!("{l}{sep}{l}"));
            out.push(format!("{r}{sep}{r}"));
            out.push(format!("{l}{sep}x{sep}{r}"));
        }
        let words: Vec<&str> = s.split(sep).collect();
        if words.len() > 2 {
            for i in 0..words.len() {
                let mut w = words.clone();
                w.remove(i);
                out.push(w.join(&sep.to_string()));
            }
        }
        let other: String = s.chars().map(|c| if c == sep { '~' } else { c }).collect();
        out.push(other);
        out.push(s.chars().filter(|c| *c != sep).collect());
        for to in [' ', '.', '_', '-'] {
            out.push(s.chars().map(|c| if c == sep { to } else { c }).collect());
        }
    }
    out.push(s.to_uppercase());
    out.push(s.to_lowercase());
    out.push(format!("{s}{s}"));
    for around in ["\n", "\t", "\r\n", "\u{a0}", "\"", "/", "=", "%20"] {
        out.push(format!("{s}{around}"));
        out.push(format!("{around}{s}"));
    }
    for x in (0..=127u8).filter(|x| !x.is_ascii_alphanumeric()).map(char::from) {
        out.push(format!("{s}{x}"));
        out.push(format!("{x}{s}"));
        out.push(format!("{s}{x}x"));
        out.push(format!("x{x}{s}"));
    }
    out.retain(|x| x != s);
    out.sort();
    out.dedup();
    out
}

/// Every text of at most two ASCII characters, and each one character between two letters.
pub fn ascii_pairs() -> Vec<String> {
    let one: Vec<char> = (0..=127u8).map(char::from).collect();
    let mut out = vec![String::new()];
    for a in &one {
        out.push(a.to_string());
        out.push(format!("x{a}y"));
        for b in &one {
            out.push(format!("{a}{b}"));
        }
    }
    out
}

/// Texts a careless conversion would change: every short one over an alphabet of special
/// characters, with and without letters around it, and ones at the length boundaries of CBOR.
/// Every ASCII character and some others, three times in a row, so that each comes at every place
/// of a group of base64.
pub fn thrice() -> Vec<String> {
    let mut out: Vec<String> = (0u8..128).map(|b| (b as char).to_string().repeat(3)).collect();
    out.extend(["é", "ÿ", "\u{3ff}", "\u{7ff}", "\u{fff}", "\u{ffff}", "\u{feff}", "\u{1f600}", "\u{10ffff}", "\u{2028}"].map(|s| s.repeat(3)));
    out
}

/// The same JSON object, written otherwise.
pub fn spelled(j: &Json) -> Vec<(&'static str, String)> {
    let t = j.to_string();
    let escaped: String = t
        .char_indices()
        .map(|(i, ch)| {
            // a letter inside a text (the object holds no literals other than texts and lists of them)
            if ch.is_ascii_lowercase() && i % 5 == 0 { format!("\\u{:04x}", ch as u32) } else { ch.to_string() }
        })
        .collect();
    let mut reversed: Vec<_> = j.as_object().unwrap().iter().collect();
    reversed.reverse();
    let reversed = format!("{{{}}}", reversed.iter().map(|(k, v)| format!("{}:{v}", json!(k))).collect::<Vec<_>>().join(","));
    vec![
        ("indented", serde_json::to_string_pretty(j).unwrap()),
        ("with blanks around", format!(" \r\n\t{t}\n ")),
        ("with escapes", escaped),
        ("the other way around", reversed),
    ]
}

/// Every combination of a scheme, a host, a port, a path and a query of HTTP URLs.
pub fn http_urls(full: bool) -> Vec<String> {
    let long_host = format!("{}.example", "h".repeat(63));
    let hosts = ["v.example", "localhost", "127.0.0.1", "[::1]", "10.0.0.1", "192.168.1.1", "169.254.169.254", "0.0.0.0", "8.8.8.8", "[2001:db8::1]", "v.example.", "intranet", "v.local", "sub.localhost", "a.b.c.d.e.example", "xn--mnchen-3ya.example", "u@v.example", "u:p@v.example", "example.com", "www.v.example", "V.EXAMPLE", "v_x.example", "1.example", &long_host];
    let ports = ["", ":80", ":443", ":8443", ":8080", ":1", ":65535"];
    let long = format!("/{}", "p".repeat(3000));
    let paths = ["/", "/a", "/a/b/c", "/a%2Fb", "/.well-known/x", "/a;b=1", "/request_uri", "/a//b", "/A", "/a.jwt", "/a%20b", "/~a", "/a:b@c", &long];
    let queries = ["", "?", "?a=1", "?client_id=x&request=y", "?a=%26&b=+", "?a=1&a=2", "?https://v.example/"];
    let mut out = vec![];
    for s in ["http", "https"] {
        for (hi, h) in hosts.iter().enumerate() {
            for (oi, o) in ports.iter().enumerate() {
                for (pi, p) in paths.iter().enumerate() {
                    for (qi, q) in queries.iter().enumerate() {
                        // pairwise unless everything is asked for
                        let plain = [hi, oi, pi, qi].iter().filter(|i| **i == 0).count();
                        if full || plain >= 2 {
                            out.push(format!("{s}://{h}{o}{p}{q}"));
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn texts_menu(n: usize) -> Vec<String> {
    let abc = ["a", "A", "/", " ", "%", "+", "&", "=", "#", "?", ":", ".", "_", "-", "~", "\"", "\\", "\n", "\r", "\t", "\u{0}", "\u{7f}", "é", "e\u{301}", "ß", "\u{1f600}", "\u{200b}", "\u{feff}", "0", "<", "$", "{", "[", ",", ";", "'", "@"];
    let mut out: Vec<String> = vec![];
    for s in strings(&abc[..], n.min(2)) {
        out.push(format!("x{s}y"));
        out.push(format!("{s}x"));
        out.push(format!("x{s}"));
        out.push(s);
    }
    if n > 2 {
        out.extend(strings(&abc[..12], 3));
    }
    for a in abc {
        out.push(format!("{a}{a}"));
        out.push(format!("x{a}{a}y"));
    }
    out.extend(["\r\n", "\n\r", "x\r\ny", "x\n\ry"].map(String::from));
    for len in [22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536] {
        out.push("k".repeat(len));
    }
    out.extend(["null", "true", "1", "1.0", "-1", "undefined", "None", "[]", "{}", "%00", "%2F", "%25", "&amp;", "..", "https://v.example", "https://v.example/", "HTTPS://V.EXAMPLE", "origin:https://v.example", "00000000-0000-0000-0000-000000000000"].map(String::from));
    out.sort();
    out.dedup();
    out
}
