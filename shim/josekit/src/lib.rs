//! A stand-in for josekit, which is a git dependency that is not available offline. It has the
//! part of its API that JWE responses can need, checks what josekit checks, and instead of
//! encrypting writes the header, the recipient's key and the claims in a five-part token of
//! readable parts, so that a check can see what was handed to the library.
use serde_json::{Map, Value};
use std::fmt;

#[derive(Debug)]
pub enum JoseError {
    InvalidJwkFormat(String),
    InvalidKeyFormat(String),
    InvalidClaim(String),
    InvalidJweFormat(String),
    UnsupportedEncryption(String),
}

impl fmt::Display for JoseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for JoseError {}

type Result<T> = std::result::Result<T, JoseError>;

pub mod jwk {
    use super::*;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Jwk {
        pub(crate) map: Map<String, Value>,
    }

    const TEXT: [&str; 5] = ["kty", "use", "alg", "kid", "crv"];

    impl Jwk {
        pub fn new(key_type: &str) -> Self {
            let mut map = Map::new();
            map.insert("kty".into(), key_type.into());
            Jwk { map }
        }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Result<Self> {
            let map = map.into();
            if !map.contains_key("kty") {
                return Err(JoseError::InvalidJwkFormat("kty is missing".into()));
            }
            for k in TEXT {
                if map.get(k).is_some_and(|v| !v.is_string()) {
                    return Err(JoseError::InvalidJwkFormat(format!("{k} is no string")));
                }
            }
            Ok(Jwk { map })
        }
        pub fn from_bytes(input: impl AsRef<[u8]>) -> Result<Self> {
            let map: Map<String, Value> = serde_json::from_slice(input.as_ref())
                .map_err(|e| JoseError::InvalidJwkFormat(e.to_string()))?;
            Self::from_map(map)
        }
        pub fn parameter(&self, k: &str) -> Option<&Value> {
            self.map.get(k)
        }
        pub fn set_parameter(&mut self, k: &str, v: Option<Value>) -> Result<()> {
            let mut map = self.map.clone();
            match v {
                Some(v) => map.insert(k.into(), v),
                None => map.remove(k),
            };
            *self = Self::from_map(map)?;
            Ok(())
        }
        fn text(&self, k: &str) -> Option<&str> {
            self.map.get(k).and_then(|v| v.as_str())
        }
        pub fn key_type(&self) -> &str {
            self.text("kty").unwrap_or_default()
        }
        pub fn key_id(&self) -> Option<&str> {
            self.text("kid")
        }
        pub fn key_use(&self) -> Option<&str> {
            self.text("use")
        }
        pub fn algorithm(&self) -> Option<&str> {
            self.text("alg")
        }
        pub fn curve(&self) -> Option<&str> {
            self.text("crv")
        }
        pub fn set_key_id(&mut self, v: impl Into<String>) {
            self.map.insert("kid".into(), v.into().into());
        }
        pub fn set_key_use(&mut self, v: impl Into<String>) {
            self.map.insert("use".into(), v.into().into());
        }
        pub fn set_algorithm(&mut self, v: impl Into<String>) {
            self.map.insert("alg".into(), v.into().into());
        }
        pub fn as_ref(&self) -> &Map<String, Value> {
            &self.map
        }
        pub fn into_map(self) -> Map<String, Value> {
            self.map
        }
    }

    impl fmt::Display for Jwk {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&Value::Object(self.map.clone()).to_string())
        }
    }
    impl AsRef<Map<String, Value>> for Jwk {
        fn as_ref(&self) -> &Map<String, Value> {
            &self.map
        }
    }
    impl From<Jwk> for Map<String, Value> {
        fn from(j: Jwk) -> Self {
            j.map
        }
    }
    impl Serialize for Jwk {
        fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
            self.map.serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for Jwk {
        fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
            Self::from_map(Map::<String, Value>::deserialize(d)?).map_err(serde::de::Error::custom)
        }
    }
}

pub mod jwt {
    use super::*;
    use base64::prelude::*;

    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct JwtPayload {
        claims: Map<String, Value>,
    }

    impl JwtPayload {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Result<Self> {
            let mut p = Self::new();
            for (k, v) in map.into() {
                p.set_claim(&k, Some(v))?;
            }
            Ok(p)
        }
        pub fn claim(&self, k: &str) -> Option<&Value> {
            self.claims.get(k)
        }
        pub fn claims_set(&self) -> &Map<String, Value> {
            &self.claims
        }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<()> {
            let Some(v) = v else {
                self.claims.remove(k);
                return Ok(());
            };
            let good = match k {
                "iss" | "sub" | "jti" => v.is_string(),
                "aud" => v.is_string() || v.is_array(),
                "exp" | "nbf" | "iat" => v.is_number(),
                _ => true,
            };
            if !good {
                return Err(JoseError::InvalidClaim(k.into()));
            }
            self.claims.insert(k.into(), v);
            Ok(())
        }
    }

    pub fn encode_with_encrypter(
        payload: &JwtPayload,
        header: &jwe::JweHeader,
        encrypter: &dyn jwe::JweEncrypter,
    ) -> Result<String> {
        let text = Value::Object(payload.claims.clone()).to_string();
        jwe::serialize_compact(text.as_bytes(), header, encrypter)
    }

    pub(crate) fn b64(x: impl AsRef<[u8]>) -> String {
        BASE64_URL_SAFE_NO_PAD.encode(x)
    }
}

pub mod jwe {
    use super::*;

    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct JweHeader {
        claims: Map<String, Value>,
    }

    impl JweHeader {
        pub fn new() -> Self {
            Self::default()
        }
        fn put(&mut self, k: &str, v: impl Into<Value>) {
            self.claims.insert(k.into(), v.into());
        }
        pub fn set_token_type(&mut self, v: impl Into<String>) {
            self.put("typ", v.into());
        }
        pub fn set_content_type(&mut self, v: impl Into<String>) {
            self.put("cty", v.into());
        }
        pub fn set_algorithm(&mut self, v: impl Into<String>) {
            self.put("alg", v.into());
        }
        pub fn set_content_encryption(&mut self, v: impl Into<String>) {
            self.put("enc", v.into());
        }
        pub fn set_key_id(&mut self, v: impl Into<String>) {
            self.put("kid", v.into());
        }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<()> {
            match v {
                Some(v) => self.put(k, v),
                None => {
                    self.claims.remove(k);
                }
            }
            Ok(())
        }
        pub fn claim(&self, k: &str) -> Option<&Value> {
            self.claims.get(k)
        }
        pub fn claims_set(&self) -> &Map<String, Value> {
            &self.claims
        }
        pub fn key_id(&self) -> Option<&str> {
            self.claims.get("kid").and_then(|v| v.as_str())
        }
        pub fn content_encryption(&self) -> Option<&str> {
            self.claims.get("enc").and_then(|v| v.as_str())
        }
        pub fn algorithm(&self) -> Option<&str> {
            self.claims.get("alg").and_then(|v| v.as_str())
        }
    }

    pub trait JweEncrypter {
        fn algorithm_name(&self) -> &str;
        fn key_id(&self) -> Option<&str>;
        fn recipient(&self) -> &jwk::Jwk;
    }

    const ENC: [&str; 6] = [
        "A128CBC-HS256",
        "A192CBC-HS384",
        "A256CBC-HS512",
        "A128GCM",
        "A192GCM",
        "A256GCM",
    ];

    pub fn serialize_compact(
        payload: &[u8],
        header: &JweHeader,
        encrypter: &dyn JweEncrypter,
    ) -> Result<String> {
        let enc = header
            .content_encryption()
            .ok_or_else(|| JoseError::InvalidJweFormat("enc is missing".into()))?;
        if !ENC.contains(&enc) {
            return Err(JoseError::UnsupportedEncryption(enc.into()));
        }
        let mut header = header.clone();
        header.set_algorithm(encrypter.algorithm_name());
        if let Some(kid) = encrypter.key_id() {
            header.set_key_id(kid);
        }
        Ok(format!(
            "{}..{}.{}.{}",
            jwt::b64(Value::Object(header.claims).to_string()),
            jwt::b64(encrypter.recipient().to_string()),
            jwt::b64(payload),
            jwt::b64("tag")
        ))
    }

    pub mod alg {
        pub mod ecdh_es {
            use super::super::super::*;
            use std::marker::PhantomData;

            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum EcdhEsJweAlgorithm {
                EcdhEs,
                EcdhEsA128kw,
                EcdhEsA192kw,
                EcdhEsA256kw,
            }

            #[derive(Debug, Clone)]
            pub struct EcdhEsJweEncrypter<C> {
                name: String,
                jwk: jwk::Jwk,
                key_id: Option<String>,
                curve: PhantomData<C>,
            }

            impl EcdhEsJweAlgorithm {
                pub fn name(&self) -> &str {
                    match self {
                        Self::EcdhEs => "ECDH-ES",
                        Self::EcdhEsA128kw => "ECDH-ES+A128KW",
                        Self::EcdhEsA192kw => "ECDH-ES+A192KW",
                        Self::EcdhEsA256kw => "ECDH-ES+A256KW",
                    }
                }
                pub fn encrypter_from_jwk<C>(&self, jwk: &jwk::Jwk) -> Result<EcdhEsJweEncrypter<C>> {
                    let bad = |s: &str| Err(JoseError::InvalidKeyFormat(s.into()));
                    if jwk.key_type() != "EC" {
                        return bad("kty must be EC");
                    }
                    if jwk.key_use().is_some_and(|u| u != "enc") {
                        return bad("use must be enc");
                    }
                    if jwk.algorithm().is_some_and(|a| a != self.name()) {
                        return bad("alg is another");
                    }
                    let point = serde_json::json!({
                        "kty": "EC",
                        "crv": jwk.parameter("crv"),
                        "x": jwk.parameter("x"),
                        "y": jwk.parameter("y"),
                    });
                    if p256::PublicKey::from_jwk_str(&point.to_string()).is_err() {
                        return bad("not a P-256 key");
                    }
                    Ok(EcdhEsJweEncrypter {
                        name: self.name().into(),
                        jwk: jwk.clone(),
                        key_id: jwk.key_id().map(Into::into),
                        curve: PhantomData,
                    })
                }
            }

            impl<C> EcdhEsJweEncrypter<C> {
                pub fn set_key_id(&mut self, v: impl Into<String>) {
                    self.key_id = Some(v.into());
                }
                pub fn remove_key_id(&mut self) {
                    self.key_id = None;
                }
            }

            impl<C> jwe::JweEncrypter for EcdhEsJweEncrypter<C> {
                fn algorithm_name(&self) -> &str {
                    &self.name
                }
                fn key_id(&self) -> Option<&str> {
                    self.key_id.as_deref()
                }
                fn recipient(&self) -> &jwk::Jwk {
                    &self.jwk
                }
            }
        }
    }

    pub use alg::ecdh_es::EcdhEsJweAlgorithm;
    pub use EcdhEsJweAlgorithm::{
        EcdhEs as ECDH_ES, EcdhEsA128kw as ECDH_ES_A128KW, EcdhEsA192kw as ECDH_ES_A192KW,
        EcdhEsA256kw as ECDH_ES_A256KW,
    };
}
