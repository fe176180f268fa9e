From 145d5678d8c21e6034d76d8eecbb9a870461ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 1/7] fix: wait for the in-memory session store's lock instead
 of failing when it is held

---
 src/verifier/session.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index a069450..af4e0b2 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -46,13 +46,13 @@ pub struct MemoryStore {
 #[async_trait]
 impl SessionStore for MemoryStore {
     async fn initiate(&self, session: Session) -> Result<()> {
-        self.store.try_lock()?.insert(session.uuid, session);
+        self.store.lock().await.insert(session.uuid, session);
 
         Ok(())
     }
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
-        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {
+        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
             session.status = status;
             return Ok(());
         }
@@ -60,7 +60,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn get_session(&self, uuid: Uuid) -> Result<Session> {
-        if let Some(session) = self.store.try_lock()?.get(&uuid) {
+        if let Some(session) = self.store.lock().await.get(&uuid) {
             return Ok(session.clone());
         }
 
@@ -68,7 +68,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn remove_session(&self, uuid: Uuid) -> Result<()> {
-        if self.store.try_lock()?.remove(&uuid).is_some() {
+        if self.store.lock().await.remove(&uuid).is_some() {
             return Ok(());
         }
 
-- 
2.43.0


From 6bcea37bb016af158d24745e4328739952ef13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 2/7] fix: a late status update no longer overwrites the
 outcome of a completed session

---
 src/verifier/session.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index af4e0b2..37a42ad 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -53,7 +53,13 @@ impl SessionStore for MemoryStore {
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
         if let Some(session) = self.store.lock().await.get_mut(&uuid) {
-            session.status = status;
+            // A retrieval that read the session before its response was verified must not undo the
+            // outcome: a completed session can only be completed again.
+            if !matches!(session.status, Status::Complete(_))
+                || matches!(status, Status::Complete(_))
+            {
+                session.status = status;
+            }
             return Ok(());
         }
         bail!("session not found")
-- 
2.43.0


From 6f1c3c842b4c36f98d190f930c13d088c69e0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 3/7] fix: the default NonEmptyVec is no longer empty

---
 src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2e34d0d..4a26feb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,7 +2,7 @@ use anyhow::{bail, Error};
 use serde::{Deserialize, Serialize};
 use std::ops::Deref;
 
-#[derive(Debug, Clone, Default, Deserialize, PartialEq, Eq)]
+#[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 #[serde(try_from = "Vec<T>")]
 pub struct NonEmptyVec<T>(Vec<T>);
 
@@ -24,6 +24,12 @@ impl<T> NonEmptyVec<T> {
     }
 }
 
+impl<T: Default> Default for NonEmptyVec<T> {
+    fn default() -> Self {
+        Self::new(T::default())
+    }
+}
+
 impl<T> TryFrom<Vec<T>> for NonEmptyVec<T> {
     type Error = Error;
 
-- 
2.43.0


From 77c9ca1978ff8bbf808ac6f76750b5752cfe25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 4/7] fix: constructing an x509 client without certificates is
 an error, not a panic

---
 src/verifier/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index f97b3f6..55e4664 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -88,7 +88,9 @@ impl X509SanDnsClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c
+            .first()
+            .context("at least one certificate is required")?;
         let id = if let Some(san) = leaf
             .tbs_certificate
             .filter::<SubjectAltName>()
@@ -138,7 +140,9 @@ impl X509HashClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c
+            .first()
+            .context("at least one certificate is required")?;
         let leaf_der = leaf
             .to_der()
             .context("failed to DER-encode leaf certificate")?;
-- 
2.43.0


From a170bbed3e8edc42bf025ce58a71c9edc8147acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:46 +0000
Subject: [PATCH 5/7] fix: the handover's key thumbprint is that of the key
 responses are encrypted to

---
 src/core/iso_18013_7/mod.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index 964fa52..efb29da 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -390,19 +390,35 @@ pub fn get_encryption_jwk_thumbprint(
         .ok()
         .and_then(|meta| meta.jwks().parsing_error().ok())
         .and_then(|jwks| {
-            jwks.keys.iter().find_map(|key_map| {
-                let jwk_json = serde_json::Value::Object(key_map.clone());
-                let is_enc = key_map
+            let is_enc = |key_map: &serde_json::Map<String, serde_json::Value>| {
+                key_map
                     .get("use")
                     .and_then(|v| v.as_str())
                     .map(|u| u == "enc")
-                    .unwrap_or(true);
-                if is_enc {
-                    compute_jwk_thumbprint(&jwk_json).ok()
-                } else {
-                    None
-                }
-            })
+                    .unwrap_or(true)
+            };
+            let is_str = |key_map: &serde_json::Map<String, serde_json::Value>,
+                          member: &str,
+                          value: &str| {
+                key_map.get(member).and_then(|v| v.as_str()) == Some(value)
+            };
+            let thumbprint = |key_map: &serde_json::Map<String, serde_json::Value>| {
+                compute_jwk_thumbprint(&serde_json::Value::Object(key_map.clone())).ok()
+            };
+            // The key the response is going to be encrypted to, see `jwe::find_encryption_jwk`.
+            let response_key = jwks.keys.iter().find(|key_map| {
+                is_enc(key_map)
+                    && is_str(key_map, "alg", "ECDH-ES")
+                    && is_str(key_map, "crv", "P-256")
+            });
+            match response_key {
+                Some(key_map) => thumbprint(key_map),
+                None => jwks
+                    .keys
+                    .iter()
+                    .filter(|key_map| is_enc(key_map))
+                    .find_map(thumbprint),
+            }
         })
 }
 
-- 
2.43.0


From ec96b682beb1f1332bfcc2095314f121384ae569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:46 +0000
Subject: [PATCH 6/7] fix: only the algorithm 'none' itself bypasses the
 signature check of DID requests

---
 src/core/authorization_request/verification/did.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/authorization_request/verification/did.rs b/src/core/authorization_request/verification/did.rs
index f901785..9616fdd 100644
--- a/src/core/authorization_request/verification/did.rs
+++ b/src/core/authorization_request/verification/did.rs
@@ -45,7 +45,7 @@ pub async fn verify_with_resolver(
     // so that trust is preserved when receiving unencoded requests
     // NOTE: This requires that `Algorithm::None` is permitted in the wallet metadata
     // Otherwise, this function will error in the previous assertion.
-    if alg.contains("none") {
+    if alg == "none" {
         return Ok(());
     }
 
-- 
2.43.0


From ed121ff297dddaf7d6dbcdf2d82a230a30a16338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:34 +0000
Subject: [PATCH 7/7] fix: a handover or session transcript with surplus
 elements is refused

---
 src/core/iso_18013_7/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index efb29da..1efe891 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -127,6 +127,10 @@ impl<'de> Deserialize<'de> for Handover {
                     .next_element()?
                     .ok_or_else(|| serde::de::Error::invalid_length(1, &self))?;
 
+                if seq.next_element::<serde::de::IgnoredAny>()?.is_some() {
+                    return Err(serde::de::Error::invalid_length(3, &self));
+                }
+
                 Ok(Handover {
                     handover_info_hash: handover_info_hash.into_vec(),
                 })
@@ -246,6 +250,10 @@ impl<'de> Deserialize<'de> for DcApiHandover {
                     .next_element()?
                     .ok_or_else(|| serde::de::Error::invalid_length(1, &self))?;
 
+                if seq.next_element::<serde::de::IgnoredAny>()?.is_some() {
+                    return Err(serde::de::Error::invalid_length(3, &self));
+                }
+
                 Ok(DcApiHandover {
                     handover_info_hash: handover_info_hash.into_vec(),
                 })
@@ -352,6 +360,10 @@ impl<'de, H: Deserialize<'de>> Deserialize<'de> for SessionTranscript<H> {
                     .next_element()?
                     .ok_or_else(|| serde::de::Error::invalid_length(2, &self))?;
 
+                if seq.next_element::<serde::de::IgnoredAny>()?.is_some() {
+                    return Err(serde::de::Error::invalid_length(4, &self));
+                }
+
                 Ok(SessionTranscript { handover })
             }
         }
-- 
2.43.0

