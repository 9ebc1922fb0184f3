From 1a62bbeb28b4f43cba778580a249b798790c781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 1/8] fix: percent-encode query string components completely in
 the signed URL

Space, '%', '/', non-ASCII and other reserved characters in query parameter
names, values and X-Goog-Credential were left unencoded (or encoded by an ad
hoc replacement), so the URL was invalid or carried another parameter.
---
 src/private/canonical_request.rs | 20 +++++++++++++++++++-
 src/private/signed_url.rs        |  4 +---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2bad0e7..a6f2512 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,12 +66,30 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode(&k), percent_encode(&v)))
+        .map(|(k, v)| format!("{}={}", uri_encode(&k, false), uri_encode(&v, false)))
         .collect::<Vec<String>>();
     query_pairs.sort();
     query_pairs.join("&")
 }
 
+/// Percent-encodes every byte except the unreserved characters of RFC 3986
+/// (and `/` if `keep_slash` is true).
+pub(crate) fn uri_encode(s: &str, keep_slash: bool) -> String {
+    use std::fmt::Write as _;
+    s.bytes().fold(String::new(), |mut encoded, b| {
+        match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                encoded.push(char::from(b));
+            }
+            b'/' if keep_slash => encoded.push('/'),
+            _ => {
+                let _ = write!(encoded, "%{b:02X}");
+            }
+        }
+        encoded
+    })
+}
+
 // ?=!#$&'()*+,:;@[]"
 pub(crate) fn percent_encode(s: &str) -> String {
     let mut encoded = String::new();
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 7289079..62121cd 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -95,9 +95,7 @@ fn add_signed_url_required_query_string_parameters(
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
-            format!("{authorizer}/{credential_scope}")
-                .replace('/', "%2F")
-                .as_str(),
+            format!("{authorizer}/{credential_scope}").as_str(),
         )
         .append_pair("X-Goog-Date", x_goog_date.to_string().as_str())
         .append_pair("X-Goog-Expires", expiration.to_string().as_str())
-- 
2.43.0


From 3f90df8f8fb49fbaa4e484658d8ae11c1eec4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 2/8] fix: sort the canonical query string by parameter name

Sorting the joined name=value strings puts 'a-b' and 'a0' before 'a'.
---
 src/private/canonical_request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index a6f2512..2b207e7 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,10 +66,15 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", uri_encode(&k, false), uri_encode(&v, false)))
-        .collect::<Vec<String>>();
+        .map(|(k, v)| (uri_encode(&k, false), uri_encode(&v, false)))
+        .collect::<Vec<(String, String)>>();
+    // sort by name (not by `name=value`), and then by value
     query_pairs.sort();
-    query_pairs.join("&")
+    query_pairs
+        .into_iter()
+        .map(|(k, v)| format!("{k}={v}"))
+        .collect::<Vec<String>>()
+        .join("&")
 }
 
 /// Percent-encodes every byte except the unreserved characters of RFC 3986
-- 
2.43.0


From 153bf355ccbc40471b4fdffd08fe0b8d2915f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 3/8] fix: trim and fold whitespace in canonical header values

Leading and trailing whitespace is not part of an HTTP header value and the
canonical request requires folding whitespace to be a single space.
---
 src/private/canonical_request.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2b207e7..b04396d 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -30,9 +30,13 @@ impl CanonicalRequest {
                     .entry(name.to_string().to_ascii_lowercase())
                     .or_insert_with(Vec::new)
                     .push(
+                        // trim and fold whitespaces
                         value
                             .to_str()
-                            .map_err(Error::HeaderValueContainsInvalidCharacter)?,
+                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                            .split_ascii_whitespace()
+                            .collect::<Vec<&str>>()
+                            .join(" "),
                     );
             }
             canonical_headers
-- 
2.43.0


From f49c56e52c349bb5000848b27ca8e5334b46ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 4/8] fix: percent-encode bucket and object names in the signed
 URL

Names were pasted into a URL and normalized by the URL parser: '?' and '#' cut
the object name, '%' sequences were taken as encoded, '\\' became '/', and
'..' segments escaped from the bucket, so another resource was signed.
---
 src/private.rs            |  2 +-
 src/private/signed_url.rs | 18 +++++++++++++-----
 src/signed_url.rs         | 30 ++++++++++++++----------------
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/private.rs b/src/private.rs
index 69a29e7..891ac30 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -17,7 +17,7 @@ pub mod utils;
 
 pub(crate) use self::active_datetime::ActiveDatetime;
 pub(crate) use self::bound_token::BoundToken;
-pub(crate) use self::canonical_request::{canonical_query_string, CanonicalRequest};
+pub(crate) use self::canonical_request::{canonical_query_string, uri_encode, CanonicalRequest};
 pub(crate) use self::credential_scope::CredentialScope;
 pub(crate) use self::date::Date;
 pub(crate) use self::expiration::Expiration;
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 62121cd..5f73f4b 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -90,8 +90,11 @@ fn add_signed_url_required_query_string_parameters(
         return Err(Error::HostHeaderNotFound);
     }
     let authorizer = service_account_client_email;
-    let mut url1 = url::Url::parse(request.uri().to_string().as_str()).expect("uri to be valid");
-    url1.query_pairs_mut()
+    // The path must not be parsed (and normalized) as a URL: an object name may
+    // contain `.` and `..` segments.
+    let mut query =
+        form_urlencoded::Serializer::new(request.uri().query().unwrap_or("").to_string());
+    query
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
@@ -110,9 +113,14 @@ fn add_signed_url_required_query_string_parameters(
                 .collect::<Vec<String>>()
                 .join(";")
                 .as_str(),
-        )
-        .finish();
-    *request.uri_mut() = http::Uri::try_from(url1.to_string()).expect("url to be valid");
+        );
+    let mut parts = request.uri().clone().into_parts();
+    parts.path_and_query = Some(
+        format!("{}?{}", request.uri().path(), query.finish())
+            .parse()
+            .expect("path and query to be valid"),
+    );
+    *request.uri_mut() = http::Uri::from_parts(parts).expect("uri to be valid");
     Ok(())
 }
 
diff --git a/src/signed_url.rs b/src/signed_url.rs
index da8f44d..b75b53b 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -2,8 +2,8 @@ use std::{str::FromStr as _, time::SystemTime};
 
 use crate::{
     private::{
-        utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
-        Location, RequestType, Service, SignedUrl,
+        uri_encode, utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration,
+        HttpVerb, Location, RequestType, Service, SignedUrl,
     },
     SigningKey,
 };
@@ -29,8 +29,6 @@ enum ErrorKind {
     #[error(transparent)]
     InvalidHeaderValue(http::header::InvalidHeaderValue),
     #[error(transparent)]
-    InvalidQueryParameters(#[from] url::ParseError),
-    #[error(transparent)]
     Location(crate::private::location::Error),
     #[error("now out of range")]
     Now,
@@ -78,23 +76,23 @@ pub async fn build_signed_url(
     .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
 
     let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
-    let mut url = url::Url::parse(
-        format!(
-            // TODO: escape bucket_name and object_name
-            "https://storage.googleapis.com/{bucket_name}/{object_name}",
+    let query = form_urlencoded::Serializer::new(String::new())
+        .extend_pairs(
+            query_parameters
+                .iter()
+                .map(|(k, v)| (k.as_str(), v.as_str())),
         )
-        .as_str(),
-    )
-    .map_err(ErrorKind::InvalidQueryParameters)?;
-    url.query_pairs_mut().extend_pairs(
-        query_parameters
-            .iter()
-            .map(|(k, v)| (k.as_str(), v.as_str())),
+        .finish();
+    let uri = format!(
+        "https://storage.googleapis.com/{}/{}?{}",
+        uri_encode(&bucket_name, false),
+        uri_encode(&object_name, true),
+        query
     );
     let mut request = http::Request::builder()
         .header("Host", "storage.googleapis.com")
         .method(http::Method::from(http_method))
-        .uri(url.to_string())
+        .uri(uri)
         .body(())
         .map_err(ErrorKind::HttpRequest)?;
     request.headers_mut().extend(
-- 
2.43.0


From bab097403edbd7335f08fa0076bd7e5752cd3627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 5/8] fix: return an error instead of panicking if the signed
 URL is too long

---
 src/private/signed_url.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 5f73f4b..c9428e5 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -15,6 +15,10 @@ pub(crate) enum Error {
     CanonicalRequest(crate::private::canonical_request::Error),
     #[error("host header not found")]
     HostHeaderNotFound,
+    #[error(transparent)]
+    InvalidUri(http::uri::InvalidUri),
+    #[error(transparent)]
+    InvalidUriParts(http::uri::InvalidUriParts),
     #[error("signing error: {0}")]
     Signing(crate::private::signing_key_inner::Error),
 }
@@ -118,9 +122,9 @@ fn add_signed_url_required_query_string_parameters(
     parts.path_and_query = Some(
         format!("{}?{}", request.uri().path(), query.finish())
             .parse()
-            .expect("path and query to be valid"),
+            .map_err(Error::InvalidUri)?,
     );
-    *request.uri_mut() = http::Uri::from_parts(parts).expect("uri to be valid");
+    *request.uri_mut() = http::Uri::from_parts(parts).map_err(Error::InvalidUriParts)?;
     Ok(())
 }
 
-- 
2.43.0


From d00ee501479c139067b23dbd26a758de16ffc02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 6/8] fix: return an error instead of panicking on unsupported
 signing keys

build_signed_url with an HMAC key, and a service account key with
use_sign_blob, reached todo!().
---
 src/private/signing_key_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 42a3b4c..db2d1e8 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -8,12 +8,16 @@ pub(crate) enum Error {
     BoundTokenMustUseSignBlob,
     #[error("bound token signing error: {0}")]
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
+    #[error("hmac is not supported yet")]
+    HmacNotSupported,
     #[error("service account private key pem parsing error: {0}")]
     ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
     #[error("service account private key pkcs8 parsing error: {0}")]
     ServiceAccountPrivateKeyPkcs8Parsing(ring::error::KeyRejected),
     #[error("service account signing error: {0}")]
     ServiceAccountSigning(ring::error::Unspecified),
+    #[error("service account use_sign_blob is not supported yet")]
+    ServiceAccountUseSignBlobNotSupported,
 }
 
 #[derive(Clone)]
@@ -58,10 +62,10 @@ impl SigningKeyInner {
                     Err(Error::BoundTokenMustUseSignBlob)
                 }
             }
-            SigningKeyInner::Hmac { .. } => todo!(),
+            SigningKeyInner::Hmac { .. } => Err(Error::HmacNotSupported),
             SigningKeyInner::ServiceAccount { private_key, .. } => {
                 if use_sign_blob {
-                    todo!()
+                    Err(Error::ServiceAccountUseSignBlobNotSupported)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
                         .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
-- 
2.43.0


From a26df124adc63fc8b7c66b61df500f78986ad3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 7/8] fix: return an error instead of panicking on an
 out-of-range expires_in

---
 src/private/bound_token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 1c4c0bc..75000ac 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -44,6 +44,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestErrorResponse(#[source] reqwest::Error),
     #[error("bound token / token request / execute error: {0}")]
     TokenRequestExecute(#[source] reqwest::Error),
+    #[error("bound token / token request / invalid expires_in error: {0}")]
+    TokenRequestInvalidExpiresIn(u64),
     #[error("bound token / token request / invalid token_type error: {0}")]
     TokenRequestInvalidTokenType(String),
     #[error("bound token / token request / status error: {0} {1}")]
@@ -163,7 +165,11 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now() + Duration::from_secs(access_token.expires_in);
+                let expires = SystemTime::now()
+                    .checked_add(Duration::from_secs(access_token.expires_in))
+                    .ok_or(BoundTokenError::TokenRequestInvalidExpiresIn(
+                        access_token.expires_in,
+                    ))?;
                 *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                 (email, access_token.access_token)
             }
-- 
2.43.0


From 5e6a40355b7230265e31ebaaf18731974e2668db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 8/8] fix: return an error instead of panicking on too many
 headers

---
 src/signed_url.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index b75b53b..1e2fb0c 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -95,20 +95,15 @@ pub async fn build_signed_url(
         .uri(uri)
         .body(())
         .map_err(ErrorKind::HttpRequest)?;
-    request.headers_mut().extend(
-        headers
-            .iter()
-            .map(
-                |(k, v)| -> Result<(http::header::HeaderName, http::header::HeaderValue), Error> {
-                    let key = http::header::HeaderName::from_bytes(k.as_bytes())
-                        .map_err(ErrorKind::InvalidHeaderName)?;
-                    let value = http::header::HeaderValue::from_str(v)
-                        .map_err(ErrorKind::InvalidHeaderValue)?;
-                    Ok((key, value))
-                },
-            )
-            .collect::<Result<Vec<_>, Error>>()?,
-    );
+    for (k, v) in &headers {
+        let key = http::header::HeaderName::from_bytes(k.as_bytes())
+            .map_err(ErrorKind::InvalidHeaderName)?;
+        let value = http::header::HeaderValue::from_str(v).map_err(ErrorKind::InvalidHeaderValue)?;
+        request
+            .headers_mut()
+            .try_append(key, value)
+            .map_err(|e| ErrorKind::HttpRequest(http::Error::from(e)))?;
+    }
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
         Location::try_from(region.as_str()).map_err(ErrorKind::Location)?,
-- 
2.43.0

