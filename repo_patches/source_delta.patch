From b839a6efea37e4910da235a20f7aeafedd7d3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 01/13] fix: report truncated JSON as Malformed, not
 InvalidState

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 27d5f02..b2294de 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -168,7 +168,7 @@ impl<T> ToResult<T> for bs58::encode::Result<T> {
 impl From<serde_json::Error> for Error {
     fn from(err: serde_json::Error) -> Self {
         match err.classify() {
-            Category::Io | Category::Eof => Error::msg(ErrorKind::InvalidState, err.to_string()),
+            Category::Io => Error::msg(ErrorKind::InvalidState, err.to_string()),
             _ => Error::msg(ErrorKind::Malformed, err.to_string()),
         }
     }
-- 
2.43.0


From 7bc6bfe0704e7d7fd92295082f57e070c7c8c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 02/13] fix: reject too short Ed25519 secret material instead
 of panicking

---
 src/utils/did.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 72045b1..05cfb9d 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -366,6 +366,12 @@ impl AsKnownKeyPair for Secret {
                     .to_didcomm("Wrong base58 value in secret material")?;
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Wrong length of ed25519 secret material",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
@@ -456,6 +462,12 @@ impl AsKnownKeyPair for Secret {
                 }
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Wrong length of ed25519 secret material",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
-- 
2.43.0


From 7674221d6dd7e2f614244b35c5c79fc88c901bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 03/13] fix: do not panic in wrap_in_forward without routing
 keys

---
 src/protocols/routing/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/protocols/routing/mod.rs b/src/protocols/routing/mod.rs
index 7137c6b..f2b19ef 100644
--- a/src/protocols/routing/mod.rs
+++ b/src/protocols/routing/mod.rs
@@ -247,8 +247,7 @@ pub async fn wrap_in_forward<'dr>(
 ) -> Result<String> {
     let mut tos = routing_keys.clone();
 
-    let mut nexts = tos.clone();
-    nexts.remove(0);
+    let mut nexts = tos.iter().skip(1).cloned().collect::<Vec<_>>();
     nexts.push(to.to_owned());
 
     tos.reverse();
-- 
2.43.0


From a76a475996130b60aae1c99d9c76f43dd54a9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 04/13] fix: recognise DIDCommSecretNotFound errors thrown from
 JavaScript

---
 wasm/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/src/error.rs b/wasm/src/error.rs
index 6453dcf..5e963f6 100644
--- a/wasm/src/error.rs
+++ b/wasm/src/error.rs
@@ -56,6 +56,7 @@ impl<T> FromJsResult<T> for Result<T, JsValue> {
                     Some("DIDCommNoCompatibleCrypto") => _ErrorKind::NoCompatibleCrypto,
                     Some("DIDCommUnsupported") => _ErrorKind::Unsupported,
                     Some("DIDCommIllegalArgument") => _ErrorKind::IllegalArgument,
+                    Some("DIDCommSecretNotFound") => _ErrorKind::SecretNotFound,
                     _ => _ErrorKind::InvalidState,
                 };
 
-- 
2.43.0


From df886c38bc5dce4799ff88c859129d3b80dbaf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 05/13] fix: reject overlong multicodec prefixes of multibase
 keys

---
 src/utils/did.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 05cfb9d..90c49b4 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -516,6 +516,11 @@ impl Codec {
 }
 
 fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
+    // A prefix takes at most 5 bytes, the reader overflows on longer ones
+    if value.iter().take(5).all(|byte| byte & 0x80 != 0) {
+        Err(err_msg(ErrorKind::Malformed, "Wrong multicodec prefix"))?
+    }
+
     let mut val: Cursor<Vec<u8>> = Cursor::new(value.clone());
     let prefix_int = val
         .read_unsigned_varint_32()
@@ -527,7 +532,11 @@ fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
         .write_unsigned_varint_32(prefix_int)
         .kind(ErrorKind::InvalidState, "Cannot write varint")?;
 
-    return Ok((codec, value.split_at(prefix.into_inner().len()).1));
+    let key = value
+        .strip_prefix(prefix.into_inner().as_slice())
+        .ok_or_else(|| err_msg(ErrorKind::Malformed, "Wrong multicodec prefix"))?;
+
+    return Ok((codec, key));
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3532a5b51a3a81f39e97278d133ce2172c89e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 06/13] fix: keep the kind of DID resolver errors when
 unpacking authcrypt

---
 src/message/unpack/authcrypt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/unpack/authcrypt.rs b/src/message/unpack/authcrypt.rs
index 9d6bd1b..4074e6e 100644
--- a/src/message/unpack/authcrypt.rs
+++ b/src/message/unpack/authcrypt.rs
@@ -11,7 +11,7 @@ use crate::jwe::envelope::JWE;
 use crate::{
     algorithms::AuthCryptAlg,
     did::DIDResolver,
-    error::{err_msg, ErrorKind, Result, ResultExt},
+    error::{err_msg, ErrorKind, Result, ResultContext, ResultExt},
     jwe,
     secrets::SecretsResolver,
     utils::{
@@ -63,7 +63,7 @@ pub(crate) async fn _try_unpack_authcrypt<'dr, 'sr>(
     let from_ddoc = did_resolver
         .resolve(from_did)
         .await
-        .kind(ErrorKind::InvalidState, "Unable resolve sender did")?
+        .context("Unable resolve sender did")?
         .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;
 
     let from_kid = from_ddoc
-- 
2.43.0


From 6da2d3eb96b0e6318ebd7f6b6fae8ed14611822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 07/13] fix: keep error kinds reported by uniffi resolver
 callbacks

---
 uniffi/src/did/did_resolver_adapter.rs         | 4 ++--
 uniffi/src/secrets/secrets_resolver_adapter.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/uniffi/src/did/did_resolver_adapter.rs b/uniffi/src/did/did_resolver_adapter.rs
index ae23846..2ac6667 100644
--- a/uniffi/src/did/did_resolver_adapter.rs
+++ b/uniffi/src/did/did_resolver_adapter.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use didcomm_core::{
     did::{DIDDoc, DIDResolver as _DIDResolver},
-    error::{ErrorKind, Result, ResultExt},
+    error::{Result, ResultContext},
 };
 
 use async_trait::async_trait;
@@ -29,7 +29,7 @@ impl _DIDResolver for DIDResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not resolve DID Doc")?;
+            .context("can not resolve DID Doc")?;
         Ok(res)
     }
 }
diff --git a/uniffi/src/secrets/secrets_resolver_adapter.rs b/uniffi/src/secrets/secrets_resolver_adapter.rs
index 03a38c5..05b4fe8 100644
--- a/uniffi/src/secrets/secrets_resolver_adapter.rs
+++ b/uniffi/src/secrets/secrets_resolver_adapter.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_trait::async_trait;
-use didcomm_core::error::{ErrorKind, Result, ResultExt};
+use didcomm_core::error::{Result, ResultContext};
 use didcomm_core::secrets::{Secret, SecretsResolver as _SecretsResolver};
 
 use crate::secrets_resolver::{OnFindSecretsResult, OnGetSecretResult};
@@ -29,7 +29,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
         Ok(res)
     }
 
@@ -42,7 +42,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
 
         Ok(secret_ids
             .iter()
-- 
2.43.0


From eb470226229a219b754176ebd03c167d4d2ba248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 08/13] fix: a from_prior is accepted only when issued by the
 DID whose key signed it

---
 src/message/from_prior/unpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/from_prior/unpack.rs b/src/message/from_prior/unpack.rs
index 8d80fdc..9990bec 100644
--- a/src/message/from_prior/unpack.rs
+++ b/src/message/from_prior/unpack.rs
@@ -135,6 +135,13 @@ impl FromPrior {
         let from_prior: FromPrior = serde_json::from_str(&payload)
             .kind(ErrorKind::Malformed, "Unable to parse from_prior")?;
 
+        if from_prior.iss != did {
+            Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior `iss` is not the DID of the issuer key",
+            ))?
+        }
+
         Ok((from_prior, kid.into()))
     }
 }
-- 
2.43.0


From 35d4c0eba6c057c2c2e26512b15c41d67d8f09b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 09/13] fix: declare a service's routing keys by the name that
 is read (routingKeys)

---
 wasm/src/did/did_doc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/did/did_doc.rs b/wasm/src/did/did_doc.rs
index e140534..0f8c97c 100644
--- a/wasm/src/did/did_doc.rs
+++ b/wasm/src/did/did_doc.rs
@@ -88,6 +88,6 @@ const DIDCOMM_MESSAGING_SERVICE_TS: &'static str = r#"
 type DIDCommMessagingService = {
     uri: string,
     accept?: Array<string>,
-    routing_keys: Array<string>,
+    routingKeys: Array<string>,
 }
 "#;
-- 
2.43.0


From b678f373f60916cc4b669f82e99a55556c16c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 10/13] fix: declare forward_headers as the object of headers
 that is read

---
 wasm/src/message/pack_encrypted.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/message/pack_encrypted.rs b/wasm/src/message/pack_encrypted.rs
index 5bfde02..c58cc1c 100644
--- a/wasm/src/message/pack_encrypted.rs
+++ b/wasm/src/message/pack_encrypted.rs
@@ -153,7 +153,7 @@ type PackEncryptedOptions = {
      * if forward is enabled these optional headers can be passed to the wrapping `Forward` messages.
      * If forward is disabled this property will be ignored.
      */
-    forward_headers?: Array<[string, string]>,
+    forward_headers?: Record<string, any>,
 
     /**
      * Identifier (DID URL) of messaging service (https://identity.foundation/didcomm-messaging/spec/#did-document-service-endpoint).
-- 
2.43.0


From dde0c19cfbe4ef53365863a8326e5b7cf65dea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 11/13] fix: declare sign_from optional, as it is absent from
 unsigned messages

---
 wasm/src/message/unpack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/message/unpack.rs b/wasm/src/message/unpack.rs
index dcd5331..ce9bd49 100644
--- a/wasm/src/message/unpack.rs
+++ b/wasm/src/message/unpack.rs
@@ -163,7 +163,7 @@ type UnpackMetadata = {
     /**
      * Key ID used for signature if the plaintext has been signed.
      */
-    sign_from: string,
+    sign_from?: string,
 
     /**
      * Key ID used for from_prior header signature if from_prior header is present
-- 
2.43.0


From 3220c7db91b406cb289a8bc8c54cd42d956a86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 12/13] fix: declare the plain data that try_parse_forward
 returns

---
 wasm/src/message/protocols/routing/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/src/message/protocols/routing/mod.rs b/wasm/src/message/protocols/routing/mod.rs
index f7823a7..f4b10de 100644
--- a/wasm/src/message/protocols/routing/mod.rs
+++ b/wasm/src/message/protocols/routing/mod.rs
@@ -102,7 +102,7 @@ extern "C" {
 #[wasm_bindgen(typescript_custom_section)]
 const IPARSED_FORWARD_TS: &'static str = r#"
 type IParsedForward = {
-    msg: Message,
+    msg: IMessage,
     next: string,
     forwarded_msg: any
 }
@@ -150,6 +150,6 @@ interface Message {
      * 
      * @returns a parsed message or null
      */
-    try_parse_forward(): ParsedForward;
+    try_parse_forward(): IParsedForward | null;
 }
 "#;
-- 
2.43.0


From adb0e21099290fb732afcaebc84f1df4deb8cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:38 +0000
Subject: [PATCH 13/13] fix: declare all claims of from_prior

---
 wasm/src/message/from_prior/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/wasm/src/message/from_prior/mod.rs b/wasm/src/message/from_prior/mod.rs
index 802370b..a348f7e 100644
--- a/wasm/src/message/from_prior/mod.rs
+++ b/wasm/src/message/from_prior/mod.rs
@@ -72,5 +72,25 @@ type IFromPrior = {
      * Datetime of the DID rotation
      */
     iat?: number,
+
+    /**
+     * audience of the JWT
+     */
+    aud?: string,
+
+    /**
+     * expiration time of the JWT
+     */
+    exp?: number,
+
+    /**
+     * time before which the JWT is not valid
+     */
+    nbf?: number,
+
+    /**
+     * unique identifier of the JWT
+     */
+    jti?: string,
 }
 "#;
-- 
2.43.0

