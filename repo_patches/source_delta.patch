From 9d9569d6e17502fc5604b36186b3965f5862978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 1/8] fix: NonEmptyVec::default() is not empty

---
 src/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2e34d0d..f03c804 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,10 +2,17 @@ use anyhow::{bail, Error};
 use serde::{Deserialize, Serialize};
 use std::ops::Deref;
 
-#[derive(Debug, Clone, Default, Deserialize, PartialEq, Eq)]
+#[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 #[serde(try_from = "Vec<T>")]
 pub struct NonEmptyVec<T>(Vec<T>);
 
+impl<T: Default> Default for NonEmptyVec<T> {
+    /// A single default element: an empty list would not be a `NonEmptyVec`.
+    fn default() -> Self {
+        Self::new(T::default())
+    }
+}
+
 impl<T> NonEmptyVec<T> {
     pub fn new(t: T) -> Self {
         Self(vec![t])
-- 
2.43.0


From 91e7b279c93c4078057e24a356d99b294c498354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:30 +0000
Subject: [PATCH 2/8] fix: a number is not accepted as a presentation in a
 vp_token

---
 src/core/response/parameters.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/response/parameters.rs b/src/core/response/parameters.rs
index f0c6eea..90220cc 100644
--- a/src/core/response/parameters.rs
+++ b/src/core/response/parameters.rs
@@ -1,7 +1,7 @@
 pub use crate::core::authorization_request::parameters::State;
 use crate::core::object::TypedParameter;
 
-use anyhow::Error;
+use anyhow::{bail, Error};
 use serde::{Deserialize, Serialize};
 use serde_json::Value as Json;
 use ssi::{
@@ -127,12 +127,26 @@ impl From<VpToken> for Json {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
-#[serde(untagged)]
+#[serde(untagged, try_from = "Json")]
 pub enum VpTokenItem {
     String(String),
     JsonObject(serde_json::Map<String, serde_json::Value>),
 }
 
+// Not left to `untagged`: with serde_json's `arbitrary_precision` (enabled by ssi) it would take
+// a number for a JSON object.
+impl TryFrom<Json> for VpTokenItem {
+    type Error = Error;
+
+    fn try_from(value: Json) -> Result<Self, Self::Error> {
+        match value {
+            Json::String(s) => Ok(Self::String(s)),
+            Json::Object(o) => Ok(Self::JsonObject(o)),
+            _ => bail!("a presentation in a vp_token must be a string or an object"),
+        }
+    }
+}
+
 impl From<String> for VpTokenItem {
     fn from(value: String) -> Self {
         Self::String(value)
-- 
2.43.0


From 33731b48771dc10e7de32bece0f7de99533f78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 3/8] fix: a handover or session transcript with extra elements
 is not decoded

---
 src/core/iso_18013_7/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index 964fa52..5d665ec 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -127,6 +127,10 @@ impl<'de> Deserialize<'de> for Handover {
                     .next_element()?
                     .ok_or_else(|| serde::de::Error::invalid_length(1, &self))?;
 
+                if seq.next_element::<serde::de::IgnoredAny>()?.is_some() {
+                    return Err(serde::de::Error::invalid_length(3, &self));
+                }
+
                 Ok(Handover {
                     handover_info_hash: handover_info_hash.into_vec(),
                 })
@@ -246,6 +250,10 @@ impl<'de> Deserialize<'de> for DcApiHandover {
                     .next_element()?
                     .ok_or_else(|| serde::de::Error::invalid_length(1, &self))?;
 
+                if seq.next_element::<serde::de::IgnoredAny>()?.is_some() {
+                    return Err(serde::de::Error::invalid_length(3, &self));
+                }
+
                 Ok(DcApiHandover {
                     handover_info_hash: handover_info_hash.into_vec(),
                 })
@@ -352,6 +360,10 @@ impl<'de, H: Deserialize<'de>> Deserialize<'de> for SessionTranscript<H> {
                     .next_element()?
                     .ok_or_else(|| serde::de::Error::invalid_length(2, &self))?;
 
+                if seq.next_element::<serde::de::IgnoredAny>()?.is_some() {
+                    return Err(serde::de::Error::invalid_length(4, &self));
+                }
+
                 Ok(SessionTranscript { handover })
             }
         }
-- 
2.43.0


From e1aeedbcf70c01244136656752000fee6eb457c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 4/8] fix: the transcript thumbprint is that of the key the
 response is encrypted to

---
 src/core/iso_18013_7/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index 5d665ec..a495bcc 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -404,11 +404,12 @@ pub fn get_encryption_jwk_thumbprint(
         .and_then(|jwks| {
             jwks.keys.iter().find_map(|key_map| {
                 let jwk_json = serde_json::Value::Object(key_map.clone());
-                let is_enc = key_map
-                    .get("use")
-                    .and_then(|v| v.as_str())
-                    .map(|u| u == "enc")
-                    .unwrap_or(true);
+                let member = |name: &str| key_map.get(name).and_then(|v| v.as_str());
+                // The key selected must be the one the response gets encrypted to: see
+                // `find_encryption_jwk`.
+                let is_enc = member("alg") == Some("ECDH-ES")
+                    && member("crv") == Some("P-256")
+                    && member("use").map_or(true, |u| u == "enc");
                 if is_enc {
                     compute_jwk_thumbprint(&jwk_json).ok()
                 } else {
-- 
2.43.0


From 18efda50fbfa6181debd9dc4103e664ed7c6e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 5/8] fix: a request object is not handed out when signing it
 failed

---
 src/verifier/client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index f97b3f6..8ed154d 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -1,6 +1,6 @@
 use std::{fmt::Debug, sync::Arc};
 
-use anyhow::{bail, Context as _, Result};
+use anyhow::{anyhow, bail, Context as _, Result};
 use async_trait::async_trait;
 use base64::prelude::*;
 use serde_json::{json, Value as Json};
@@ -247,7 +247,7 @@ impl Client for X509HashClient {
     }
 }
 
-async fn make_jwt<S: RequestSigner + ?Sized>(
+async fn make_jwt<S: RequestSigner + Sync + ?Sized>(
     header: Json,
     body: &AuthorizationRequestObject,
     signer: &S,
@@ -256,7 +256,10 @@ async fn make_jwt<S: RequestSigner + ?Sized>(
         serde_json::to_vec(&header).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
     let body_b64 = serde_json::to_vec(body).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
     let payload = [header_b64.as_bytes(), b".", body_b64.as_bytes()].concat();
-    let signature = signer.sign(&payload).await;
+    let signature = signer
+        .try_sign(&payload)
+        .await
+        .map_err(|e| anyhow!("failed to sign the request object: {e}"))?;
     let signature_b64 = BASE64_URL_SAFE_NO_PAD.encode(signature);
     Ok(format!("{header_b64}.{body_b64}.{signature_b64}"))
 }
-- 
2.43.0


From 8bbf7ca8a9f1e240dab3625978713b259e982b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 6/8] fix: a late status update does not take a session back

---
 src/verifier/session.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index a069450..fc7ea96 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -53,7 +53,10 @@ impl SessionStore for MemoryStore {
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
         if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {
-            session.status = status;
+            // A late update must not take the session back to an earlier stage.
+            if matches!(status, Status::Complete(_)) || session.status <= status {
+                session.status = status;
+            }
             return Ok(());
         }
         bail!("session not found")
-- 
2.43.0


From d2cac6c3d2373c1e3f81706e6f8d8274bd37e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:48 +0000
Subject: [PATCH 7/8] fix: the memory store does not fail under contention

---
 src/verifier/session.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index fc7ea96..feba3e2 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -46,13 +46,13 @@ pub struct MemoryStore {
 #[async_trait]
 impl SessionStore for MemoryStore {
     async fn initiate(&self, session: Session) -> Result<()> {
-        self.store.try_lock()?.insert(session.uuid, session);
+        self.store.lock().await.insert(session.uuid, session);
 
         Ok(())
     }
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
-        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {
+        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
             // A late update must not take the session back to an earlier stage.
             if matches!(status, Status::Complete(_)) || session.status <= status {
                 session.status = status;
@@ -63,7 +63,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn get_session(&self, uuid: Uuid) -> Result<Session> {
-        if let Some(session) = self.store.try_lock()?.get(&uuid) {
+        if let Some(session) = self.store.lock().await.get(&uuid) {
             return Ok(session.clone());
         }
 
@@ -71,7 +71,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn remove_session(&self, uuid: Uuid) -> Result<()> {
-        if self.store.try_lock()?.remove(&uuid).is_some() {
+        if self.store.lock().await.remove(&uuid).is_some() {
             return Ok(());
         }
 
-- 
2.43.0


From aa6af7ce23ed71dd449be015cbf80525dcd746aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:14 +0000
Subject: [PATCH 8/8] fix: an empty certificate chain is refused, not a panic

---
 src/verifier/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index 8ed154d..f786e16 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -88,7 +88,7 @@ impl X509SanDnsClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c.first().context("x5c certificate chain is empty")?;
         let id = if let Some(san) = leaf
             .tbs_certificate
             .filter::<SubjectAltName>()
@@ -138,7 +138,7 @@ impl X509HashClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c.first().context("x5c certificate chain is empty")?;
         let leaf_der = leaf
             .to_der()
             .context("failed to DER-encode leaf certificate")?;
-- 
2.43.0

