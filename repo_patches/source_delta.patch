From b1a6cb8cdd0cd9e0903cecd981d7a444c3647536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 01/25] fix: sip-auth: advance nonce replay state only after
 the response digest matches

---
 crates/sip-auth/src/lib.rs | 56 +++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 7ac0788..e78e744 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -627,6 +627,19 @@ impl NonceManager {
         }
     }
 
+    /// Like [`Self::verify_with_nc`], but leaves the nonce state untouched.
+    fn accepts_nc(&self, value: &str, nc: u32, method: &Method, uri: &str, body: &[u8]) -> bool {
+        // Evaluate on a copy so the map entry only changes on a real commit.
+        let copy = self.nonces.get(value).map(|entry| entry.value().clone());
+        match copy {
+            Some(mut nonce) => {
+                nonce.is_valid()
+                    && nonce.validate_nc_with_request(nc, method, uri, body, self.max_request_age)
+            }
+            None => false,
+        }
+    }
+
     /// Basic verification without nonce-count tracking (for backwards compatibility).
     /// Use verify_with_nc() for proper replay protection.
     pub fn verify(&self, value: &str) -> bool {
@@ -808,6 +821,7 @@ struct DigestParams {
     nonce: SmolStr,
     uri: SmolStr,
     response: SmolStr,
+    nc: Option<u32>,
     nc_raw: Option<SmolStr>,
     cnonce: Option<SmolStr>,
     qop: Option<Qop>,
@@ -986,7 +1000,7 @@ impl<S> DigestAuthenticator<S> {
             return Ok(None);
         }
 
-        let _validated_nc = if let Some(nc_str) = nc {
+        let validated_nc = if let Some(nc_str) = nc {
             let nc_value = u32::from_str_radix(nc_str.as_str(), 16)
                 .map_err(|_| anyhow!("invalid nc format"))?;
 
@@ -1003,7 +1017,10 @@ impl<S> DigestAuthenticator<S> {
                 return Ok(None);
             }
 
-            if !self.nonce_manager.verify_with_nc(
+            // Check only: the nonce state is advanced by `commit_nonce` once the
+            // response digest has been verified, so an unauthenticated request
+            // cannot consume a nonce-count or lock out the legitimate client.
+            if !self.nonce_manager.accepts_nc(
                 nonce,
                 nc_value,
                 request.method(),
@@ -1028,11 +1045,28 @@ impl<S> DigestAuthenticator<S> {
             nonce: nonce.clone(),
             uri: uri.clone(),
             response: response.clone(),
+            nc: validated_nc,
             nc_raw: nc.cloned(),
             cnonce: cnonce.cloned(),
             qop,
         }))
     }
+
+    /// Records the nonce-count of a request whose digest has been verified.
+    /// Returns false when the nonce has expired or the nonce-count was consumed
+    /// by another request in the meantime.
+    fn commit_nonce(&self, params: &DigestParams, request: &Request) -> bool {
+        match params.nc {
+            Some(nc) => self.nonce_manager.verify_with_nc(
+                params.nonce.as_str(),
+                nc,
+                request.method(),
+                request.uri().as_str(),
+                request.body(),
+            ),
+            None => self.nonce_manager.verify(params.nonce.as_str()),
+        }
+    }
 }
 
 impl<S> DigestAuthenticator<S> {
@@ -1362,10 +1396,11 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        if !constant_time_eq(response_calc.as_bytes(), params.response.as_bytes()) {
+            return Ok(false);
+        }
+
+        Ok(self.commit_nonce(&params, request))
     }
 
     fn credentials_for(&self, _method: &Method, _uri: &str) -> Option<Credentials> {
@@ -1425,10 +1460,11 @@ impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        if !constant_time_eq(response_calc.as_bytes(), params.response.as_bytes()) {
+            return Ok(false);
+        }
+
+        Ok(self.commit_nonce(&params, request))
     }
 }
 
-- 
2.43.0


From 5839e63c8b2691b90dfb5591c25477876f85fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 02/25] fix: sip-auth: reject a nonce count of zero, which
 escaped replay tracking

---
 crates/sip-auth/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index e78e744..abc7cee 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -484,6 +484,11 @@ impl Nonce {
         body: &[u8],
         max_request_age: Duration,
     ) -> bool {
+        // The first use of a nonce carries nc=00000001 (RFC 7616 §3.4). A zero
+        // count would never advance `last_nc` and could be replayed forever.
+        if nc == 0 {
+            return false;
+        }
         // Reject requests that are significantly delayed (potential replay attack)
         if self.last_nc > 0 && self.last_used.elapsed() > max_request_age {
             // If this isn't the first request (last_nc > 0) and it's been too long
-- 
2.43.0


From fec468a8bfcf1dba7789fe57b28d5b13cf6e4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 03/25] fix: sip-auth: copy every Via of the request into a
 challenge

---
 crates/sip-auth/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index abc7cee..a0f723e 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1162,7 +1162,7 @@ impl<S> DigestAuthenticator<S> {
     pub fn challenge_stale(&self, request: &Request) -> Result<Response> {
         let mut headers = self.build_challenge_with_stale(true);
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1346,7 +1346,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         let mut headers = self.build_challenge();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
-- 
2.43.0


From 2b64c3c82cd917cff020f5a067c570c6efdf34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 04/25] fix: sip-auth: evict at least one nonce when the nonce
 store is full

---
 crates/sip-auth/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index a0f723e..cdcb5a2 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -601,7 +601,8 @@ impl NonceManager {
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                self.remove_oldest(self.max_nonces / 10); // Remove 10% of capacity
+                // Remove 10% of capacity, and at least one so that small limits hold
+                self.remove_oldest((self.max_nonces / 10).max(1));
             }
         }
 
-- 
2.43.0


From c9ae1a9141f002dc625eba76960142a7937e963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 05/25] fix: sip-auth: zeroize the client's plaintext HA1 input
 after hashing

---
 crates/sip-auth/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index cdcb5a2..1a523ca 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1832,8 +1832,9 @@ impl DigestClient {
             .map(char::from)
             .collect();
 
-        let ha1_input = format!("{}:{}:{}", self.username, realm, self.password);
+        let mut ha1_input = format!("{}:{}:{}", self.username, realm, self.password);
         let base_ha1 = Self::hash(&algorithm, ha1_input.as_bytes());
+        ha1_input.zeroize();
         // RFC 7616 §3.4.2: for `-sess` algorithms, rebind HA1 to this
         // handshake by hashing it together with the nonce and cnonce.
         // For non-sess variants base_ha1 is used verbatim.
@@ -1941,8 +1942,9 @@ impl DigestClient {
             .as_ref()
             .ok_or_else(|| anyhow!("Authentication-Info missing nc"))?;
 
-        let ha1_input = format!("{}:{}:{}", self.username, realm, self.password);
+        let mut ha1_input = format!("{}:{}:{}", self.username, realm, self.password);
         let base_ha1 = Self::hash(&algorithm, ha1_input.as_bytes());
+        ha1_input.zeroize();
         let ha1 = if algorithm.is_sess() {
             let sess_input = format!("{}:{}:{}", base_ha1, nonce, cnonce);
             Self::hash(&algorithm, sess_input.as_bytes())
-- 
2.43.0


From 4977e5f9ac1c7dcc87b835143148b0ffb6b237d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 06/25] fix: sip-registrar: copy every Via of the request into
 responses

---
 crates/sip-registrar/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 34f7be2..ac3302e 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1395,7 +1395,7 @@ impl<S, A> BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1629,7 +1629,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
             let mut headers = Headers::new();
 
-            if let Some(via) = request.headers().get("Via") {
+            for via in request.headers().get_all("Via") {
                 headers.push(SmolStr::new("Via"), via)?;
             }
             if let Some(from) = request.headers().get("From") {
@@ -1782,7 +1782,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
         let mut headers = Headers::new();
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1981,7 +1981,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             let mut headers = Headers::new();
 
             // RFC 3261: Copy required headers from request to response
-            if let Some(via) = request.headers().get("Via") {
+            for via in request.headers().get_all("Via") {
                 headers.push(SmolStr::new("Via"), via)?;
             }
             if let Some(from) = request.headers().get("From") {
@@ -2146,7 +2146,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
-- 
2.43.0


From 3b02976d7121bee392d60b6c53b454609f1f333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 07/25] fix: sip-registrar: rate-limited async REGISTER with an
 oversized To header no longer panics

---
 crates/sip-registrar/src/lib.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index ac3302e..08e94dc 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1486,13 +1486,11 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                 if let Some(key) = key_fn(request) {
                     if !limiter.check_rate_limit(key.as_str()) {
                         warn!(key = %key, "REGISTER rate limit exceeded");
-                        return Ok(self
-                            .build_error_response(
-                                request,
-                                503,
-                                "Service Unavailable - Rate Limit Exceeded",
-                            )
-                            .expect("valid request"));
+                        return self.build_error_response(
+                            request,
+                            503,
+                            "Service Unavailable - Rate Limit Exceeded",
+                        );
                     }
                 }
             } else {
-- 
2.43.0


From 672400a48a767176cf14a09752a3d6e4f038458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 08/25] fix: sip-auth: do not report a username when
 Authorization and Proxy-Authorization disagree

---
 crates/sip-auth/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 1a523ca..a8b62e6 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -733,12 +733,18 @@ impl Default for NonceManager {
 /// This is useful for AOR-to-identity authorization (verifying the authenticated user
 /// has permission to register for the requested AOR).
 pub fn extract_auth_username(headers: &Headers) -> Option<SmolStr> {
-    // Try Authorization first, then Proxy-Authorization
-    let auth_header = headers
-        .get_smol("Authorization")
-        .or_else(|| headers.get_smol("Proxy-Authorization"))?;
+    let origin = digest_username(headers, "Authorization");
+    let proxy = digest_username(headers, "Proxy-Authorization");
+    // Only one of the two headers is verified against the credentials. When they
+    // name different users, the identity that was verified is not known here.
+    if origin.is_some() && proxy.is_some() && origin != proxy {
+        return None;
+    }
+    origin.or(proxy)
+}
 
-    let parsed = parse_authorization_header(auth_header)?;
+fn digest_username(headers: &Headers, name: &str) -> Option<SmolStr> {
+    let parsed = parse_authorization_header(headers.get_smol(name)?)?;
     if !parsed.scheme().eq_ignore_ascii_case("Digest") {
         return None;
     }
-- 
2.43.0


From c1509cd25a6c2286bf2ddc82ecafea8493e7d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 09/25] fix: sip-registrar: wildcard removal respects the CSeq
 order of the stored bindings

---
 crates/sip-registrar/src/lib.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 08e94dc..4a33f3f 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1622,6 +1622,18 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     "Bad Request - Wildcard Contact requires Expires: 0",
                 );
             }
+            // RFC 3261 10.3 step 6: a stale request must not remove a newer binding.
+            let existing = self.store.lookup(&aor).await?;
+            if existing
+                .iter()
+                .any(|b| b.call_id == call_id && cseq <= b.cseq)
+            {
+                return self.build_error_response(
+                    request,
+                    400,
+                    "Bad Request - CSeq out of order",
+                );
+            }
             self.store.remove_all(&aor).await?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
@@ -1973,6 +1985,18 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 );
             }
             // Remove all bindings for this AOR
+            // RFC 3261 10.3 step 6: a stale request must not remove a newer binding.
+            let existing = self.store.lookup(&aor)?;
+            if existing
+                .iter()
+                .any(|b| b.call_id == call_id && cseq <= b.cseq)
+            {
+                return self.build_error_response(
+                    request,
+                    400,
+                    "Bad Request - CSeq out of order",
+                );
+            }
             self.store.remove_all(&aor)?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
-- 
2.43.0


From ecdae9b23ea685228f70f098581361cde0825f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 10/25] fix: extract_tag no longer panics on multi-byte input
 or reads URI parameters as the tag

---
 crates/sip-dialog/src/lib.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6bf4d69..2eb28ce 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1213,16 +1213,38 @@ fn validate_subscription_cseq(cseq: u32) -> Result<(), SubscriptionError> {
 /// Returns `None` if the header carries no tag (e.g. the To header of an
 /// out-of-dialog request). Matching is case-insensitive per RFC 3261 §7.3.1.
 pub fn extract_tag(value: &SmolStr) -> Option<SmolStr> {
-    value.split(';').find_map(|segment| {
+    header_params(value).split(';').find_map(|segment| {
         let trimmed = segment.trim();
-        if trimmed.len() >= 4 && trimmed[..4].eq_ignore_ascii_case("tag=") {
-            Some(SmolStr::new(&trimmed[4..]))
-        } else {
-            None
+        match trimmed.get(..4) {
+            Some(name) if name.eq_ignore_ascii_case("tag=") => Some(SmolStr::new(&trimmed[4..])),
+            _ => None,
         }
     })
 }
 
+/// Returns the part of a From/To value that can hold header parameters: what
+/// follows the `<...>` of a name-addr (parameters of the URI and text in a quoted
+/// display name are not header parameters), or the whole value of an addr-spec.
+fn header_params(value: &str) -> &str {
+    let mut in_quotes = false;
+    let mut escaped = false;
+    for (idx, ch) in value.char_indices() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' if in_quotes => escaped = true,
+            '"' => in_quotes = !in_quotes,
+            '<' if !in_quotes => {
+                return value[idx..]
+                    .split_once('>')
+                    .map(|(_, params)| params)
+                    .unwrap_or_default();
+            }
+            _ => {}
+        }
+    }
+    value
+}
+
 /// Builds a dialog route set from Record-Route headers.
 ///
 /// Direction matters (RFC 3261 §12.1.1 / §12.1.2): each proxy inserts
-- 
2.43.0


From 60638096f298ce47a0e6251f0eac22bf1879bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 11/25] fix: event package validation no longer panics on
 multi-byte parameters

---
 crates/sip-dialog/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 2eb28ce..1ed870b 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1141,7 +1141,10 @@ fn validate_event_package(event: &str) -> Result<(), SubscriptionError> {
     }
     for param in parts {
         let trimmed = param.trim();
-        if trimmed.len() >= 3 && trimmed[..3].eq_ignore_ascii_case("id=") {
+        if trimmed
+            .get(..3)
+            .is_some_and(|name| name.eq_ignore_ascii_case("id="))
+        {
             let id = trimmed[3..].trim().trim_matches('"');
             if id.len() > MAX_EVENT_ID_LENGTH {
                 return Err(SubscriptionError::EventTooLong {
-- 
2.43.0


From 0fca063b19db498daf74d6478a0fb4167143f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 12/25] fix: session interval validation no longer truncates to
 32 bits

---
 crates/sip-dialog/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 1ed870b..cda6c1f 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1089,7 +1089,7 @@ fn validate_cseq_increment(prev: u32, new: u32) -> Result<(), DialogError> {
 
 /// Validates session expires duration is within bounds.
 fn validate_session_expires(duration: Duration) -> Result<(), DialogError> {
-    let secs = duration.as_secs() as u32;
+    let secs = u32::try_from(duration.as_secs()).unwrap_or(u32::MAX);
     if secs < MIN_SESSION_EXPIRES {
         return Err(DialogError::SessionExpiresTooSmall {
             min: MIN_SESSION_EXPIRES,
-- 
2.43.0


From 10e139667fecfa972b2a376636a4c5eebee2fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 13/25] fix: subscription CSeq no longer overflows

---
 crates/sip-dialog/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index cda6c1f..2ddd535 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1658,7 +1658,7 @@ impl Subscription {
 
     /// Returns the next local CSeq number and increments it.
     pub fn next_local_cseq(&mut self) -> u32 {
-        self.local_cseq += 1;
+        self.local_cseq = self.local_cseq.saturating_add(1);
         self.local_cseq
     }
 
-- 
2.43.0


From 5652dc95e76fe980bb3391344ddbf5ace24870d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 14/25] fix: a terminated subscription stays terminated

---
 crates/sip-dialog/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 2ddd535..eeaf7b8 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1664,7 +1664,10 @@ impl Subscription {
 
     /// Updates the subscription state.
     pub fn update_state(&mut self, new_state: SubscriptionState) {
-        self.state = new_state;
+        // Terminated is final: a late NOTIFY must not revive the subscription.
+        if self.state != SubscriptionState::Terminated {
+            self.state = new_state;
+        }
     }
 
     /// Updates the expiration time.
-- 
2.43.0


From 57cc815c8157ac19337fb09d06303dfcb2955b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 15/25] fix: dialogs and subscriptions can be updated when the
 manager is full

---
 crates/sip-dialog/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index eeaf7b8..eeeece3 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -728,7 +728,7 @@ impl DialogManager {
         // MAX_EARLY_DIALOGS_PER_CALL_ID be exceeded under load).
         let _guard = self.insert_lock.lock();
 
-        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS {
+        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS && !self.dialogs.contains_key(&dialog.id) {
             return Err(DialogError::TooManyDialogs {
                 max: MAX_CONFIRMED_DIALOGS,
             });
@@ -1703,7 +1703,9 @@ impl SubscriptionManager {
         // breached by concurrent callers (previously `len()` and `insert()`
         // were separate operations).
         let _guard = self.insert_lock.lock();
-        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS {
+        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS
+            && !self.subscriptions.contains_key(&subscription.id)
+        {
             return Err(SubscriptionError::TooManySubscriptions {
                 max: MAX_SUBSCRIPTIONS,
             });
-- 
2.43.0


From 6d46931a9b98f6eaa281a2b212162a687c81e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 16/25] fix: the dialog store lists a dialog once per Call-ID

---
 crates/sip-dialog/src/storage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index fa383a9..f775715 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -62,7 +62,10 @@ impl DialogStore for InMemoryDialogStore {
         let dialog_id = dialog.id.clone();
         self.inner.insert(dialog.id.clone(), dialog);
         // Update secondary index
-        self.by_call_id.entry(call_id).or_default().push(dialog_id);
+        let mut ids = self.by_call_id.entry(call_id).or_default();
+        if !ids.contains(&dialog_id) {
+            ids.push(dialog_id);
+        }
     }
 
     async fn remove(&self, id: &DialogId) {
-- 
2.43.0


From 7b3c4fc27c84130824300a90d27cd68b567a7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 17/25] fix: the dialog store index keeps dialogs stored while
 another is removed

---
 crates/sip-dialog/src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index f775715..7043e9c 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -75,7 +75,9 @@ impl DialogStore for InMemoryDialogStore {
             ids.retain(|did| did != id);
             if ids.is_empty() {
                 drop(ids);
-                self.by_call_id.remove(&id.call_id);
+                // Another task may have indexed a dialog since the guard was dropped.
+                self.by_call_id
+                    .remove_if(&id.call_id, |_, ids| ids.is_empty());
             }
         }
     }
-- 
2.43.0


From bb50b5bd9a7d9e28b893957cc7d5dca76d78f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 18/25] fix: an expired session timer does not untrack its
 replacement

---
 crates/sip-dialog/src/session_timer_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index f614998..5d6d7b6 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -168,8 +168,8 @@ impl SessionTimerManager {
                     // Session expired - emit expiration event
                     let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
 
-                    // Remove task from tracking
-                    tasks_ref.remove(&dialog_id_clone);
+                    // Remove task from tracking, unless a newer timer replaced it meanwhile
+                    tasks_ref.remove_if(&dialog_id_clone, |_, task| task.expiry_time == expiry_time);
                 }
                 _ = cancel_rx.recv() => {
                     // Timer cancelled (dialog refreshed or terminated)
-- 
2.43.0


From d91362540908870e1632fa73033c289bffedb00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 19/25] fix: refresher parameter is matched case-insensitively

---
 crates/sip-dialog/src/session_timer_manager.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index 5d6d7b6..8a85f89 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -390,10 +390,7 @@ pub fn negotiate_session_expires(
 /// `true` if we are the refresher, `false` otherwise
 pub fn determine_refresher_role(refresher_param: Option<&str>, is_uac: bool) -> bool {
     match refresher_param {
-        Some("uac") => is_uac,
-        Some("uas") => !is_uac,
-        Some("UAC") => is_uac, // Case insensitive
-        Some("UAS") => !is_uac,
+        Some(param) if param.eq_ignore_ascii_case("uas") => !is_uac,
         _ => is_uac, // Default: UAC is refresher if not specified
     }
 }
-- 
2.43.0


From 6bcf1975d0c15316b00a60f7b2ccb9efc6a73144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 20/25] fix: rate limiter refills at most max_requests tokens
 per window

The refill interval was rounded down, so e.g. 700 requests per second
came back at 1000 per second.
---
 crates/sip-ratelimit/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 08a6bee..bf99213 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -193,9 +193,9 @@ impl RateLimitConfig {
             });
         }
 
-        // Calculate refill interval: distribute tokens evenly across window
-        let interval = (window_secs * 1000) / max_requests as u64;
-        let refill_interval_ms = if interval == 0 { 1 } else { interval };
+        // Calculate refill interval: distribute tokens evenly across window,
+        // rounding up so that no more than max_requests come back per window
+        let refill_interval_ms = (window_secs * 1000).div_ceil(max_requests as u64);
 
         Ok(Self {
             max_requests,
-- 
2.43.0


From 09229f3edb018be3aed0061885eed4915dc31136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 21/25] fix: answer direction is what both the offer and we
 allow

The offer's direction was reversed into our view and then matched against
ours as if it were the peer's: a sendonly offer to a recvonly endpoint failed,
a recvonly offer to a recvonly endpoint was answered sendonly, and an inactive
offer could not be answered at all (RFC 3264 6.1).
---
 crates/sip-sdp/src/negotiate.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 9f225cd..f0e19a8 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -120,6 +120,19 @@ impl Direction {
     }
 }
 
+impl Direction {
+    /// Limit this direction to what `other` (seen from the same side) also
+    /// allows: we send only if both do, and receive only if both do
+    fn restrict(self, other: &Direction) -> Direction {
+        match (self, other) {
+            (Direction::SendRecv, d) => *d,
+            (d, Direction::SendRecv) => d,
+            (d1, d2) if d1 == *d2 => d1,
+            _ => Direction::Inactive,
+        }
+    }
+}
+
 /// Negotiates an SDP answer from an offer
 ///
 /// Implements RFC 3264 offer/answer model:
@@ -253,7 +266,7 @@ fn negotiate_media(
     let local_dir = extract_direction(&local_media.attributes).unwrap_or(Direction::SendRecv);
 
     // Negotiate direction from answerer's perspective
-    let answer_dir = offer_dir.reverse().negotiate(&local_dir)?;
+    let answer_dir = offer_dir.reverse().restrict(&local_dir);
 
     // Build answer media
     let mut answer_media = base_answer_media(offer_media, local_media.port);
-- 
2.43.0


From 7802ece61a458aa9619955a29d9b1992cbe74fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 22/25] fix: SDP o= and b= fields no longer swallow the
 following lines

The username, session id, session version and bandwidth type were read up
to the next space or colon without regard to line ends, so a short o= or
b= line captured the text of the lines after it.
---
 crates/sip-sdp/src/parse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 52ec09f..04b4b1b 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -196,9 +196,9 @@ fn parse_o_line(input: &str) -> IResult<&str, Origin> {
         tag("o="),
         map(
             tuple((
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
+                terminated(take_till(|c| c == ' ' || c == '\r' || c == '\n'), space1),
+                terminated(take_till(|c| c == ' ' || c == '\r' || c == '\n'), space1),
+                terminated(take_till(|c| c == ' ' || c == '\r' || c == '\n'), space1),
                 terminated(parse_nettype, space1),
                 terminated(parse_addrtype, space1),
                 take_till(|c| c == '\r' || c == '\n'),
@@ -290,7 +290,7 @@ fn parse_b_line(input: &str) -> IResult<&str, Bandwidth> {
         tag("b="),
         map(
             tuple((
-                take_till(|c| c == ':'),
+                take_till(|c| c == ':' || c == '\r' || c == '\n'),
                 preceded(char(':'), map_res(digit1, |s: &str| s.parse::<u32>())),
             )),
             |(bw_type, bandwidth)| Bandwidth {
-- 
2.43.0


From 781d8910d8cc68b5572926fd444706aa22f07dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 23/25] fix: SDP media protocols are matched as whole tokens

RTP/AVPF, UDP/TLS/RTP/SAVP, TCP/MSRP and every other protocol that starts
with the name of a known one failed to parse, because the known name was
matched as a prefix.
---
 crates/sip-sdp/src/parse.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 04b4b1b..699dbae 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -482,23 +482,19 @@ fn parse_port(input: &str) -> IResult<&str, (u16, Option<u16>)> {
 
 /// Parse protocol: RTP/AVP, RTP/SAVP, RTP/SAVPF, UDP/TLS/RTP/SAVPF, TCP/TLS/RTP/SAVPF, UDP, TCP, etc.
 fn parse_protocol(input: &str) -> IResult<&str, Protocol> {
-    alt((
-        // WebRTC protocols (longest first to avoid partial matches)
-        map(tag("UDP/TLS/RTP/SAVPF"), |_| Protocol::UdpTlsRtpSavpf),
-        map(tag("TCP/TLS/RTP/SAVPF"), |_| Protocol::TcpTlsRtpSavpf),
-        map(tag("RTP/SAVPF"), |_| Protocol::RtpSavpf),
-        // Traditional RTP protocols
-        map(tag("RTP/SAVP"), |_| Protocol::RtpSavp),
-        map(tag("RTP/AVP"), |_| Protocol::RtpAvp),
-        // Basic protocols
-        map(tag("UDP"), |_| Protocol::Udp),
-        map(tag("TCP"), |_| Protocol::Tcp),
-        // Fallback for unknown protocols
-        map(
-            take_till(|c| c == ' ' || c == '\r' || c == '\n'),
-            |s: &str| Protocol::Other(SmolStr::new(s)),
-        ),
-    ))(input)
+    map(
+        take_till(|c| c == ' ' || c == '\r' || c == '\n'),
+        |name: &str| match name {
+            "UDP/TLS/RTP/SAVPF" => Protocol::UdpTlsRtpSavpf,
+            "TCP/TLS/RTP/SAVPF" => Protocol::TcpTlsRtpSavpf,
+            "RTP/SAVPF" => Protocol::RtpSavpf,
+            "RTP/SAVP" => Protocol::RtpSavp,
+            "RTP/AVP" => Protocol::RtpAvp,
+            "UDP" => Protocol::Udp,
+            "TCP" => Protocol::Tcp,
+            other => Protocol::Other(SmolStr::new(other)),
+        },
+    )(input)
 }
 
 /// Parse network type: IN (Internet)
-- 
2.43.0


From 384e6c73ba7c9ff7892bc5d18c83afa1fad37cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 24/25] fix: query the NAPTR replacement as the SRV name

---
 crates/sip-dns/src/lib.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 244105f..bb8f018 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -482,15 +482,17 @@ impl SipResolver {
         let mut all_targets = Vec::new();
         if let Some(records) = naptr_records {
             for record in records {
-                let lookup_host = record
-                    .replacement
-                    .as_ref()
-                    .map(|replacement| replacement.as_str())
-                    .unwrap_or(host);
-                if let Ok(targets) = self
-                    .lookup_srv(lookup_host, record.transport, uri.is_sips())
-                    .await
-                {
+                // RFC 3263 §4.1: the replacement field is the complete name to
+                // query for SRV records; it already carries the service and
+                // protocol labels.
+                let lookup = match record.replacement {
+                    Some(srv_name) => self.lookup_srv_name(&srv_name, record.transport).await,
+                    None => {
+                        self.lookup_srv(host, record.transport, uri.is_sips())
+                            .await
+                    }
+                };
+                if let Ok(targets) = lookup {
                     all_targets.extend(targets);
                 }
             }
@@ -652,10 +654,18 @@ impl SipResolver {
         let service = transport.as_service_str(sips);
         let proto = transport.as_proto_str();
         let srv_name = format!("{}._{}.{}", service, proto, host);
+        self.lookup_srv_name(&srv_name, transport).await
+    }
 
+    /// Performs SRV lookup of a complete SRV owner name.
+    async fn lookup_srv_name(
+        &self,
+        srv_name: &str,
+        transport: Transport,
+    ) -> Result<Vec<DnsTarget>> {
         let lookup = tokio::time::timeout(
             self.query_timeout,
-            self.resolver.srv_lookup(srv_name.clone()),
+            self.resolver.srv_lookup(srv_name.to_string()),
         )
         .await
         .map_err(|_| {
-- 
2.43.0


From bf058422dbb800ab3e59a9e131534ec464d296b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:45 +0000
Subject: [PATCH 25/25] fix: the default port of a TLS transport is 5061

---
 crates/sip-dns/src/lib.rs | 43 ++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index bb8f018..1fd5451 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -412,6 +412,16 @@ impl SipResolver {
         }
     }
 
+    /// Returns the default port for a transport (RFC 3261 §19.1.2): 5061 when
+    /// it runs over TLS on TCP or SCTP, 5060 otherwise.
+    fn default_port(sips: bool, transport: Transport) -> u16 {
+        if sips || matches!(transport, Transport::Tls | Transport::TlsSctp) {
+            5061
+        } else {
+            5060
+        }
+    }
+
     /// Returns the transport parameter from the URI, if present.
     fn transport_param(uri: &SipUri) -> Option<Transport> {
         let transport_param = uri.params().get(&SmolStr::new("transport"))?;
@@ -439,14 +449,11 @@ impl SipResolver {
 
         // RFC 3263 §4: If numeric IP, use directly
         if Self::is_numeric_ip(host) {
+            let transport = Self::default_transport(uri);
             let port = uri
                 .port()
-                .unwrap_or(if uri.is_sips() { 5061 } else { 5060 });
-            return enforce_target_limit(vec![DnsTarget::unchecked_new(
-                host,
-                port,
-                Self::default_transport(uri),
-            )]);
+                .unwrap_or(Self::default_port(uri.is_sips(), transport));
+            return enforce_target_limit(vec![DnsTarget::unchecked_new(host, port, transport)]);
         }
 
         // RFC 3263 §4: If explicit port, skip SRV, do A/AAAA
@@ -487,10 +494,7 @@ impl SipResolver {
                 // protocol labels.
                 let lookup = match record.replacement {
                     Some(srv_name) => self.lookup_srv_name(&srv_name, record.transport).await,
-                    None => {
-                        self.lookup_srv(host, record.transport, uri.is_sips())
-                            .await
-                    }
+                    None => self.lookup_srv(host, record.transport, uri.is_sips()).await,
                 };
                 if let Ok(targets) = lookup {
                     all_targets.extend(targets);
@@ -508,18 +512,15 @@ impl SipResolver {
         // RFC 3263 §4.3: Fallback to A/AAAA if no SRV records. This is
         // the Twilio Secure Trunking path (hostname URI, no SRV).
         if all_targets.is_empty() {
-            let default_port = if uri.is_sips() { 5061 } else { 5060 };
+            let transport = Self::default_transport(uri);
+            let default_port = Self::default_port(uri.is_sips(), transport);
             let ips = self.lookup_a_aaaa(host).await?;
             for ip in ips {
                 all_targets.push(
-                    DnsTarget::unchecked_new(
-                        ip.to_string(),
-                        default_port,
-                        Self::default_transport(uri),
-                    )
-                    // Preserve the original hostname for TLS SNI / cert
-                    // verification (RFC 5922 §4) — `host` is now the IP.
-                    .with_tls_name(host),
+                    DnsTarget::unchecked_new(ip.to_string(), default_port, transport)
+                        // Preserve the original hostname for TLS SNI / cert
+                        // verification (RFC 5922 §4) — `host` is now the IP.
+                        .with_tls_name(host),
                 );
             }
         }
@@ -1212,8 +1213,8 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
             match server {
                 DhcpSipServer::Ipv4(addr) => {
                     // Use IPv4 address directly
-                    let port = if uri.is_sips() { 5061 } else { 5060 };
                     let transport = SipResolver::default_transport(uri);
+                    let port = SipResolver::default_port(uri.is_sips(), transport);
                     all_targets.push(DnsTarget::unchecked_new(addr.to_string(), port, transport));
                 }
                 DhcpSipServer::Domain(domain) => {
@@ -1300,8 +1301,8 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                 for server in servers {
                     match server {
                         DhcpSipServer::Ipv4(addr) => {
-                            let port = if uri.is_sips() { 5061 } else { 5060 };
                             let transport = SipResolver::default_transport(uri);
+                            let port = SipResolver::default_port(uri.is_sips(), transport);
                             all_targets.push(DnsTarget::unchecked_new(
                                 addr.to_string(),
                                 port,
-- 
2.43.0

