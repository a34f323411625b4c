From 3ece91169d53f65d7bc8eb0c8c6034c3164902c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 01/31] fix: give ScramCachedPassword a constructor

The struct is #[non_exhaustive], so without one no callback outside of the
crate could ever satisfy a request for cached keys.
---
 src/mechanisms/scram/properties.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mechanisms/scram/properties.rs b/src/mechanisms/scram/properties.rs
index 64320d8..740c554 100644
--- a/src/mechanisms/scram/properties.rs
+++ b/src/mechanisms/scram/properties.rs
@@ -64,6 +64,15 @@ pub struct ScramCachedPassword<'a> {
     pub client_key: &'a [u8],
     pub server_key: &'a [u8],
 }
+impl<'a> ScramCachedPassword<'a> {
+    #[must_use]
+    pub const fn new(client_key: &'a [u8], server_key: &'a [u8]) -> Self {
+        Self {
+            client_key,
+            server_key,
+        }
+    }
+}
 impl<'a> Property<'a> for ScramCachedPassword<'static> {
     type Value = ScramCachedPassword<'a>;
 }
-- 
2.43.0


From 88e4b63e671d15d21038bc180936c7f3ff093d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 02/31] fix: build_context compiles on current Rust

Newer compilers reject the pointer cast that extends the lifetime bound of the
trait object; transmute the reference instead, which keeps its lifetime.
---
 src/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 038895b..4c196ec 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -118,7 +118,9 @@ impl<'a> Demand<'a> {
 }
 
 pub fn build_context<'a, 'b>(provider: &'a (dyn Provider<'b> + 'a)) -> &'a Context<'b> {
-    unsafe { &*(provider as *const dyn Provider as *const Context) }
+    // SAFETY: `Context` is a `repr(transparent)` wrapper around `dyn Provider`; both are wide
+    // references with the same vtable and the reference keeps the lifetime of the original.
+    unsafe { core::mem::transmute::<&'a (dyn Provider<'b> + 'a), &'a Context<'b>>(provider) }
 }
 
 #[repr(transparent)]
-- 
2.43.0


From 0f327dca685a56a2770afd2ec64780dc26981d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 03/31] fix: SCRAM parsers do not panic on short attributes

Attributes shorter than two bytes made the slice indexing panic, so any peer
could abort the process; an authorization identity without its 'a=' name was
accepted with its first two bytes cut off.
---
 src/mechanisms/scram/parser.rs | 82 ++++++++++++++--------------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 229ce63..ab6d5b6 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -179,6 +179,18 @@ pub enum ParseError {
     BadNonce,
 }
 
+/// Return the value of a `name=value` attribute
+fn attribute<'scram>(part: &'scram [u8], name: &[u8; 2]) -> Result<&'scram [u8], ParseError> {
+    part.strip_prefix(name).ok_or_else(|| unexpected(part))
+}
+
+const fn unexpected(part: &[u8]) -> ParseError {
+    match part {
+        [first, ..] => ParseError::InvalidAttribute(*first),
+        [] => ParseError::MissingAttributes,
+    }
+}
+
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub enum GS2CBindFlag<'scram> {
     SupportedNotUsed,
@@ -257,26 +269,20 @@ impl<'scram> ClientFirstMessage<'scram> {
         let authzid = if authzid.is_empty() {
             None
         } else {
-            Some(core::str::from_utf8(&authzid[2..]).map_err(ParseError::BadUtf8)?)
+            let authzid = attribute(authzid, b"a=")?;
+            Some(core::str::from_utf8(authzid).map_err(ParseError::BadUtf8)?)
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let username = if &next[0..2] == b"n=" {
-            core::str::from_utf8(&next[2..]).map_err(ParseError::BadUtf8)?
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let username =
+            core::str::from_utf8(attribute(next, b"n=")?).map_err(ParseError::BadUtf8)?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
         if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
         }
@@ -373,32 +379,20 @@ impl<'scram> ServerFirst<'scram> {
         if next.len() < 2 {
             return Err(ParseError::MissingAttributes);
         }
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let salt = if &next[0..2] == b"s=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let salt = attribute(next, b"s=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let iteration_count = if &next[0..2] == b"i=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let iteration_count = attribute(next, b"i=")?;
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(unexpected(next));
         }
 
         Ok(Self {
@@ -445,32 +439,24 @@ impl<'scram> ClientFinal<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let channel_binding = if &next[0..2] == b"c=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let channel_binding = attribute(next, b"c=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
 
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
             let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-            if &next[0..2] == b"p=" {
-                break &next[2..];
-            } else if &next[0..2] == b"m=" {
+            if let Some(proof) = next.strip_prefix(b"p=") {
+                break proof;
+            } else if next.starts_with(b"m=") {
                 return Err(ParseError::UnknownMandatoryExtensions);
             };
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(unexpected(next));
         }
 
         Ok(Self {
@@ -552,15 +538,15 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
-        if &input[0..2] == b"v=" {
-            Ok(Self::Verifier(&input[2..]))
-        } else if &input[0..2] == b"e=" {
+        if let Some(verifier) = input.strip_prefix(b"v=") {
+            Ok(Self::Verifier(verifier))
+        } else if let Some(error) = input.strip_prefix(b"e=") {
             use ServerErrorValue::{
                 ChannelBindingNotSupported, ChannelBindingsDontMatch, ExtensionsNotSupported,
                 InvalidEncoding, InvalidProof, InvalidUsernameEncoding, NoResources, OtherError,
                 ServerDoesSupportChannelBinding, UnknownUser, UnsupportedChannelBindingType,
             };
-            let e = match &input[2..] {
+            let e = match error {
                 b"invalid-encoding" => InvalidEncoding,
                 b"extensions-not-supported" => ExtensionsNotSupported,
                 b"invalid-proof" => InvalidProof,
@@ -575,7 +561,7 @@ impl<'scram> ServerFinal<'scram> {
             };
             Ok(Self::Error(e))
         } else {
-            Err(ParseError::InvalidAttribute(input[0]))
+            Err(unexpected(input))
         }
     }
 
-- 
2.43.0


From 61c82eface23f8621e6dde680fc23f7692e67d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 04/31] fix: SCRAM server unescapes user name and authorization
 identity

The server looked up and validated the transmitted form, so names containing
',' or '=' could never log in and an authorization identity reached the
validation callback escaped. SaslName::unescape itself looped forever on any
escape and panicked on a truncated one.
---
 src/mechanisms/scram/parser.rs | 43 +++++++++++++++++-----------------
 src/mechanisms/scram/server.rs | 25 ++++++++++++++++----
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index ab6d5b6..7fbf596 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -116,7 +116,6 @@ impl<'a> SaslName<'a> {
         }
     }
 
-    #[allow(unused)]
     /// Convert a SCRAM-side string into the representation expected by Rust
     ///
     /// This will clone the given string if characters need unescaping
@@ -129,29 +128,29 @@ impl<'a> SaslName<'a> {
             return Err(SaslNameError::InvalidChar(*c));
         }
 
-        if let Some(bad) = input.iter().position(|b| matches!(b, b'=')) {
-            let mut out = String::with_capacity(input.len());
-            let good = core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
-            out.push_str(good);
-            let mut input = &input[bad..];
-
-            while let Some(bad) = input.iter().position(|b| matches!(b, b'=')) {
-                let good =
-                    core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
-                out.push_str(good);
-                let c = match &input[bad + 1..bad + 3] {
-                    b"2C" => ',',
-                    b"3D" => '=',
-                    _ => return Err(SaslNameError::InvalidEscape),
-                };
-                out.push(c);
-                input = &input[bad..];
-            }
+        let input = core::str::from_utf8(input)?;
+        let mut parts = input.split('=');
+        // `split` always returns at least one part
+        let good = parts.next().unwrap_or_default();
+        if good.len() == input.len() {
+            return Ok(Cow::Borrowed(input));
+        }
 
-            Ok(out.into())
-        } else {
-            Ok(Cow::Borrowed(core::str::from_utf8(input)?))
+        let mut out = String::with_capacity(input.len());
+        out.push_str(good);
+        for part in parts {
+            let (c, good) = if let Some(good) = part.strip_prefix("2C") {
+                (',', good)
+            } else if let Some(good) = part.strip_prefix("3D") {
+                ('=', good)
+            } else {
+                return Err(SaslNameError::InvalidEscape);
+            };
+            out.push(c);
+            out.push_str(good);
         }
+
+        Ok(out.into())
     }
 }
 
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 1d0c5b0..555a2cf 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -5,7 +5,8 @@ use crate::error::{MechanismError, MechanismErrorKind, SessionError};
 use crate::mechanism::Authentication;
 use crate::mechanisms::scram::client::{ProtocolError, SCRAMError};
 use crate::mechanisms::scram::parser::{
-    ClientFinal, ClientFirstMessage, GS2CBindFlag, ServerErrorValue, ServerFinal, ServerFirst,
+    ClientFinal, ClientFirstMessage, GS2CBindFlag, SaslName, ServerErrorValue, ServerFinal,
+    ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
 use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
@@ -140,9 +141,17 @@ impl<const N: usize> WaitingClientFirst<N> {
         // TODO: Only store this if we're a -PLUS
         let mut gs2_header = client_first.build_gs2_header_vec();
 
-        // FIXME: Escape Username from SCRAM format to whatever
+        // The AuthMessage and the gs2 header use the names as transmitted, everybody else the
+        // unescaped ones.
+        let username = SaslName::unescape(authid.as_bytes())?;
+        let authzid = authzid
+            .map(|authzid| SaslName::unescape(authzid.as_bytes()))
+            .transpose()?;
         // TODO: This must at this stage provide so much more info <.<
-        let provider = Prov { authid, authzid };
+        let provider = Prov {
+            authid: &username,
+            authzid: authzid.as_deref(),
+        };
 
         match cbflag {
             // TODO: check if this is a protocol downgrade
@@ -204,7 +213,8 @@ impl<const N: usize> WaitingClientFirst<N> {
                 server_nonce,
                 gs2_header,
                 authid.to_string(),
-                authzid.map(ToString::to_string),
+                username.to_string(),
+                authzid.as_ref().map(ToString::to_string),
                 salt,
                 iterations,
                 stored_key,
@@ -236,6 +246,8 @@ struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
+    // username as transmitted, i.e. escaped
+    escaped_username: String,
     username: String,
     authzid: Option<String>,
     salt: String,
@@ -251,6 +263,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         client_nonce: Vec<u8>,
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
+        escaped_username: String,
         username: String,
         authzid: Option<String>,
         salt: String,
@@ -263,6 +276,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                 client_nonce,
                 server_nonce,
                 gs2_header,
+                escaped_username,
                 username,
                 authzid,
                 salt,
@@ -294,6 +308,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
             client_nonce,
             server_nonce,
             gs2_header,
+            escaped_username,
             username,
             authzid,
             salt,
@@ -323,7 +338,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     compute_signatures::<D>(
                         &stored_key,
                         &server_key,
-                        &username,
+                        &escaped_username,
                         &client_nonce,
                         &server_nonce,
                         salt.as_bytes(),
-- 
2.43.0


From bc9aab609a10279a73dd245014e88f6cc35f1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 05/31] fix: SCRAM server rejects a proof of the wrong length

A proof that was cut short was filled up with zero bytes, so a truncated proof
was accepted whenever the missing bytes were zero.
---
 src/mechanisms/scram/client.rs | 2 ++
 src/mechanisms/scram/server.rs | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 6521a64..3c43d72 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -500,6 +500,8 @@ pub enum ProtocolError {
     IterationCountZero,
     #[error("base64 decoding of data failed")]
     Base64Decode,
+    #[error("proof has the wrong length")]
+    ProofLength,
 }
 
 #[derive(Debug, Eq, PartialEq, Copy, Clone, Error)]
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 555a2cf..3d058e0 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -328,9 +328,12 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     && proof.len() <= (<SimpleHmac<D> as OutputSizeUser>::output_size() * 4 / 3) + 3
                 {
                     let mut proof_decoded = DOutput::<D>::default();
-                    base64::engine::general_purpose::STANDARD
+                    let proof_len = base64::engine::general_purpose::STANDARD
                         .decode_slice(proof, &mut proof_decoded)
                         .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;
+                    if proof_len != proof_decoded.len() {
+                        return Err(SCRAMError::Protocol(ProtocolError::ProofLength).into());
+                    }
 
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
-- 
2.43.0


From fa31d5af69dd3515f47827269a4d677850a3e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 06/31] fix: SCRAM proofs cover the messages as received

The server rebuilt the AuthMessage from the attributes it knows, so extensions
were not covered: an attacker could add or remove them unnoticed while an honest
client that uses one could not log in.
---
 src/mechanisms/scram/server.rs | 40 +++++++++++++++++++---------------
 src/mechanisms/scram/tools.rs  | 13 +++++++++++
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 3d058e0..3e61a94 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -9,7 +9,7 @@ use crate::mechanisms::scram::parser::{
     ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
-use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
+use crate::mechanisms::scram::tools::{generate_nonce, sign_auth_message, DOutput};
 use crate::property::{AuthId, AuthzId};
 use crate::session::{MechanismData, MessageSent, State};
 use crate::vectored_io::VectoredWriter;
@@ -128,7 +128,7 @@ impl<const N: usize> WaitingClientFirst<N> {
         written: &mut usize,
     ) -> Result<WaitingClientFinal<D, N>, SessionError> {
         // Step 1: (try to) parse the client message received.
-        let client_first @ ClientFirstMessage {
+        let parsed @ ClientFirstMessage {
             cbflag,
             authzid, // FIXME: Save authzid
             username: authid,
@@ -139,7 +139,9 @@ impl<const N: usize> WaitingClientFirst<N> {
         // client-first-message-bare + "," + server-first-message + "," + client-final-message-without-proof
 
         // TODO: Only store this if we're a -PLUS
-        let mut gs2_header = client_first.build_gs2_header_vec();
+        let mut gs2_header = parsed.build_gs2_header_vec();
+        // Everything after the gs2 header, including extensions, is covered by the proof.
+        let client_first_bare = client_first[gs2_header.len()..].to_vec();
 
         // The AuthMessage and the gs2 header use the names as transmitted, everybody else the
         // unescaped ones.
@@ -212,7 +214,7 @@ impl<const N: usize> WaitingClientFirst<N> {
                 client_nonce.into(),
                 server_nonce,
                 gs2_header,
-                authid.to_string(),
+                client_first_bare,
                 username.to_string(),
                 authzid.as_ref().map(ToString::to_string),
                 salt,
@@ -246,8 +248,7 @@ struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
-    // username as transmitted, i.e. escaped
-    escaped_username: String,
+    client_first_bare: Vec<u8>,
     username: String,
     authzid: Option<String>,
     salt: String,
@@ -263,7 +264,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         client_nonce: Vec<u8>,
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
-        escaped_username: String,
+        client_first_bare: Vec<u8>,
         username: String,
         authzid: Option<String>,
         salt: String,
@@ -276,7 +277,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                 client_nonce,
                 server_nonce,
                 gs2_header,
-                escaped_username,
+                client_first_bare,
                 username,
                 authzid,
                 salt,
@@ -308,7 +309,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
             client_nonce,
             server_nonce,
             gs2_header,
-            escaped_username,
+            client_first_bare,
             username,
             authzid,
             salt,
@@ -338,18 +339,23 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
 
-                    compute_signatures::<D>(
-                        &stored_key,
-                        &server_key,
-                        &escaped_username,
+                    // Use the messages as they were received so that extensions, which are ignored
+                    // otherwise, are covered by the proof too.
+                    let without_proof = client_final.len() - b",p=".len() - proof.len();
+                    let auth_message = [
+                        &client_first_bare[..],
+                        b",r=",
                         &client_nonce,
                         &server_nonce,
+                        b",s=",
                         salt.as_bytes(),
+                        b",i=",
                         iterations.as_bytes(),
-                        channel_binding,
-                        &mut client_signature,
-                        &mut server_signature,
-                    );
+                        b",",
+                        &client_final[..without_proof],
+                    ];
+                    sign_auth_message::<D>(&stored_key, &auth_message, &mut client_signature);
+                    sign_auth_message::<D>(&server_key, &auth_message, &mut server_signature);
 
                     // Calculate the client_key by XORing the provided proof with the
                     // calculated client signature
diff --git a/src/mechanisms/scram/tools.rs b/src/mechanisms/scram/tools.rs
index 79c31ba..d694f55 100644
--- a/src/mechanisms/scram/tools.rs
+++ b/src/mechanisms/scram/tools.rs
@@ -78,6 +78,19 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .finalize_into(server_signature);
 }
 
+/// Sign an AuthMessage given in parts, exactly as the messages were transmitted
+pub(super) fn sign_auth_message<D: Digest + BlockSizeUser + FixedOutput>(
+    key: &[u8],
+    auth_message: &[&[u8]],
+    signature: &mut DOutput<D>,
+) {
+    let mut hmac = <SimpleHmac<D>>::new_from_slice(key).expect("HMAC can work with any key size");
+    for part in auth_message {
+        Mac::update(&mut hmac, part);
+    }
+    hmac.finalize_into(signature);
+}
+
 #[allow(clippy::missing_panics_doc)]
 #[must_use]
 pub fn derive_keys<D>(password: &[u8]) -> (DOutput<D>, DOutput<D>)
-- 
2.43.0


From 71f2d4fffe485dbf0d51c2550c4c90268eec7c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 07/31] fix: SCRAM client only accepts decimal iteration counts

A sign in front of the number was silently accepted.
---
 src/mechanisms/scram/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 3c43d72..771c029 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -283,6 +283,10 @@ where
             return Err(SCRAMError::Protocol(ProtocolError::InvalidNonce).into());
         }
 
+        // `u32::from_str` would accept a leading '+'
+        if !iteration_count.iter().all(u8::is_ascii_digit) {
+            return Err(SCRAMError::Protocol(ProtocolError::IterationCountFormat).into());
+        }
         let iterations: u32 = core::str::from_utf8(iteration_count)
             .map_err(|e| SCRAMError::ParseError(super::parser::ParseError::BadUtf8(e)))?
             .parse()
-- 
2.43.0


From 18812442ddcb248af995fd42a4d272c98dfaaf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 08/31] fix: SCRAM -PLUS servers require channel binding

---
 src/mechanisms/scram/server.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 3e61a94..f4254b3 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -66,6 +66,8 @@ enum CBSupport {
     No,
     /// Server *does* support CB
     Yes,
+    /// A `-PLUS` mechanism was selected, so CB must be used
+    Required,
 }
 
 pub struct ScramServer<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
@@ -84,7 +86,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> ScramServer<D, N>
     }
 
     pub const fn new_plus() -> Self {
-        let plus = CBSupport::Yes;
+        let plus = CBSupport::Required;
         Self {
             state: Some(ScramServerState::WaitingClientFirst(ScramState::new(plus))),
         }
@@ -158,13 +160,19 @@ impl<const N: usize> WaitingClientFirst<N> {
         match cbflag {
             // TODO: check if this is a protocol downgrade
             GS2CBindFlag::SupportedNotUsed => {
-                if self.plus == CBSupport::Yes {
+                if self.plus != CBSupport::No {
+                    return Err(SessionError::MechanismError(Box::new(
+                        ScramServerError::ChannelBindingsNotUsed,
+                    )));
+                }
+            }
+            GS2CBindFlag::NotSupported => {
+                if self.plus == CBSupport::Required {
                     return Err(SessionError::MechanismError(Box::new(
                         ScramServerError::ChannelBindingsNotUsed,
                     )));
                 }
             }
-            GS2CBindFlag::NotSupported => {}
             GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                 gs2_header.extend_from_slice(cbdata);
                 Ok(())
-- 
2.43.0


From 431fb2a4e3e68f24e049528a56fe9b12ead592e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 09/31] fix: only select SCRAM mechanisms that were offered

---
 src/mechanisms/scram/mechinfo.rs | 51 ++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/mechanisms/scram/mechinfo.rs b/src/mechanisms/scram/mechinfo.rs
index 0e0ca1d..d319013 100644
--- a/src/mechanisms/scram/mechinfo.rs
+++ b/src/mechanisms/scram/mechinfo.rs
@@ -54,7 +54,9 @@ mod scram_sha1 {
         No,
         /// Only SCRAM-SHA1 but not -PLUS found
         Bare,
-        /// SCRAM-SHA1-PLUS found.
+        /// Only SCRAM-SHA1-PLUS but not SCRAM-SHA1 found
+        PlusOnly,
+        /// Both SCRAM-SHA1 and SCRAM-SHA1-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector1 {
@@ -62,18 +64,23 @@ mod scram_sha1 {
             if *mechname == *SCRAM_SHA1.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA1_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA1),
+                Self::No | Self::PlusOnly => None,
+                Self::Bare | Self::Plus => Some(&SCRAM_SHA1),
             }
         }
 
@@ -81,7 +88,7 @@ mod scram_sha1 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha1Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha1Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -159,7 +166,9 @@ mod scram_sha256 {
         No,
         /// Only SCRAM-SHA256 but not -PLUS found
         Bare,
-        /// SCRAM-SHA256-PLUS found.
+        /// Only SCRAM-SHA256-PLUS but not SCRAM-SHA256 found
+        PlusOnly,
+        /// Both SCRAM-SHA256 and SCRAM-SHA256-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector256 {
@@ -167,18 +176,23 @@ mod scram_sha256 {
             if *mechname == *SCRAM_SHA256.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA256_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA256),
+                Self::No | Self::PlusOnly => None,
+                Self::Bare | Self::Plus => Some(&SCRAM_SHA256),
             }
         }
 
@@ -186,7 +200,7 @@ mod scram_sha256 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha256Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -264,7 +278,9 @@ mod scram_sha512 {
         No,
         /// Only SCRAM-SHA512 but not -PLUS found
         Bare,
-        /// SCRAM-SHA512-PLUS found.
+        /// Only SCRAM-SHA512-PLUS but not SCRAM-SHA512 found
+        PlusOnly,
+        /// Both SCRAM-SHA512 and SCRAM-SHA512-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector512 {
@@ -272,18 +288,23 @@ mod scram_sha512 {
             if *mechname == *SCRAM_SHA512.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA512),
+                Self::No | Self::PlusOnly => None,
+                Self::Bare | Self::Plus => Some(&SCRAM_SHA512),
             }
         }
 
@@ -291,7 +312,7 @@ mod scram_sha512 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha512Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha512Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
-- 
2.43.0


From 7d897dee72c711c9a69dc6c9989582c584d43b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 10/31] fix: step64 writes the complete encoded message

---
 src/session.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e730042..05e5521 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -230,17 +230,21 @@ mod provider {
             input: Option<&[u8]>,
             writer: &mut impl Write,
         ) -> Result<State, SessionError> {
-            use base64::write::EncoderWriter;
-            let mut writer64 =
-                EncoderWriter::new(writer, &base64::engine::general_purpose::STANDARD);
+            // A mechanism writes its message in several parts, while the encoded message can only
+            // be completed when all of it is known.
+            let mut output = Vec::new();
 
             let state = if let Some(input) = input {
                 let input =
                     base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;
-                self.step(Some(&input[..]), &mut writer64)
+                self.step(Some(&input[..]), &mut output)
             } else {
-                self.step(None, &mut writer64)
+                self.step(None, &mut output)
             }?;
+
+            let encoded =
+                base64::Engine::encode(&base64::engine::general_purpose::STANDARD, output);
+            writer.write_all(encoded.as_bytes())?;
             Ok(state)
         }
     }
-- 
2.43.0


From 7fef2d74570ecf769f3489d8ae27d6941a47ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 11/31] fix: vectored writes report truncation and retry
 interrupted calls

---
 src/vectored_io.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/vectored_io.rs b/src/vectored_io.rs
index 0793039..ba216e4 100644
--- a/src/vectored_io.rs
+++ b/src/vectored_io.rs
@@ -54,17 +54,23 @@ impl<'io, const N: usize> VectoredWriter<'io, N> {
         let mut bufs: [IoSlice; N] = self.data.map(IoSlice::new);
 
         let mut written = 0;
-        while {
-            let len = self.write_vectored_inner(&mut bufs, &mut writer)?;
-            // Check the corner case that Ok(0) was returned because the underlying writer is
-            // exhausted.
-            if len == 0 {
+        while self.skip < N {
+            // There is nothing left to write if all remaining buffers are empty.
+            if self.data[self.skip..].iter().all(|buf| buf.is_empty()) {
                 return Ok(written);
             }
 
+            let len = match self.write_vectored_inner(&mut bufs, &mut writer) {
+                Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
+                result => result?,
+            };
+            // The underlying writer is exhausted but there is still data left.
+            if len == 0 {
+                return Err(io::Error::from(io::ErrorKind::WriteZero));
+            }
+
             written += len;
-            self.skip < N
-        } {}
+        }
 
         Ok(written)
     }
-- 
2.43.0


From 5be5330834327a3d77b8849508e7bea2b92d7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 12/31] fix: later values for a satisfied request are ignored

---
 src/callback.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/callback.rs b/src/callback.rs
index 87297a0..7a9545a 100644
--- a/src/callback.rs
+++ b/src/callback.rs
@@ -216,6 +216,8 @@ impl CallbackError {
 
 pub(crate) trait CallbackRequest<Answer: ?Sized> {
     fn satisfy(&mut self, answer: &Answer) -> Result<(), SessionError>;
+    /// Returns true if no value is wanted anymore because a previous one was used
+    fn is_satisfied(&self) -> bool;
 }
 
 enum ClosureCRState<F, G> {
@@ -255,12 +257,20 @@ where
     F: FnOnce(&<P as Property<'_>>::Value) -> Result<G, SessionError>,
 {
     fn satisfy(&mut self, answer: &<P as Property<'_>>::Value) -> Result<(), SessionError> {
-        if let Some(ClosureCRState::Open(closure)) = self.closure.take() {
-            let reply = closure(answer)?;
-            self.closure = Some(ClosureCRState::Satisfied(reply));
+        match self.closure.take() {
+            Some(ClosureCRState::Open(closure)) => {
+                let reply = closure(answer)?;
+                self.closure = Some(ClosureCRState::Satisfied(reply));
+            }
+            // Only the first value is ever used
+            satisfied => self.closure = satisfied,
         }
         Ok(())
     }
+
+    fn is_satisfied(&self) -> bool {
+        !matches!(self.closure, Some(ClosureCRState::Open(_)))
+    }
 }
 
 #[repr(transparent)]
@@ -417,11 +427,12 @@ impl<'a> Request<'a> {
         answer: &<P as Property<'_>>::Value,
     ) -> Result<&mut Self, SessionError> {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            mech.satisfy(answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+            if !mech.is_satisfied() {
+                mech.satisfy(answer)?;
+                return Err(CallbackError::early_return().into());
+            }
         }
+        Ok(self)
     }
 
     /// Satisfy a 'Satisfiable' request using the provided closure.
@@ -494,12 +505,13 @@ impl<'a> Request<'a> {
         F: FnOnce() -> Result<P::Value, SessionError>,
     {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            let answer = closure()?;
-            mech.satisfy(&answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+            if !mech.is_satisfied() {
+                let answer = closure()?;
+                mech.satisfy(&answer)?;
+                return Err(CallbackError::early_return().into());
+            }
         }
+        Ok(self)
     }
 }
 
-- 
2.43.0


From d34ebc031e4d10a816b8e62de9e0ad32a34296ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 13/31] fix: SCRAM sessions stay usable after a step without
 input

---
 src/mechanisms/scram/client.rs | 5 +++++
 src/mechanisms/scram/server.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 771c029..e276056 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -475,6 +475,11 @@ where
 
                 Ok(State::Running)
             }
+            // Keep the state so that the step can be repeated once there is data.
+            Some(state @ (ClientFirst(_) | ServerFirst(_))) if input.is_none() => {
+                self.state = Some(state);
+                Err(SessionError::InputDataRequired)
+            }
             Some(ClientFirst(state)) => {
                 let server_first = input.ok_or(SessionError::InputDataRequired)?;
 
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index f4254b3..efedef8 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -463,6 +463,11 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
     ) -> Result<State, SessionError> {
         use ScramServerState::{Finished, WaitingClientFinal, WaitingClientFirst};
         match self.state.take() {
+            // Keep the state so that the step can be repeated once there is data.
+            Some(state @ (WaitingClientFirst(_) | WaitingClientFinal(_))) if input.is_none() => {
+                self.state = Some(state);
+                Err(SessionError::InputDataRequired)
+            }
             Some(WaitingClientFirst(state)) => {
                 let client_first = input.ok_or(SessionError::InputDataRequired)?;
 
-- 
2.43.0


From 4c3220c632bebc80f286aac962ff270835a24c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 14/31] fix: SCRAM client rejects cached keys of the wrong
 length

---
 src/mechanisms/scram/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index e276056..9c3a404 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -314,6 +314,10 @@ where
                  client_key,
                  server_key,
              }| {
+                let len = <D as Digest>::output_size();
+                if client_key.len() != len || server_key.len() != len {
+                    return Err(SCRAMError::CachedKeyLength.into());
+                }
                 Ok((
                     DOutput::<D>::clone_from_slice(client_key),
                     DOutput::<D>::clone_from_slice(server_key),
@@ -525,12 +529,14 @@ pub enum SCRAMError {
     ),
     #[error("SCRAM outcome error: {0}")]
     ServerError(ServerErrorValue),
+    #[error("cached keys have the wrong length for this mechanism")]
+    CachedKeyLength,
 }
 
 impl MechanismError for SCRAMError {
     fn kind(&self) -> MechanismErrorKind {
         match self {
-            Self::Protocol(_) => MechanismErrorKind::Protocol,
+            Self::Protocol(_) | Self::CachedKeyLength => MechanismErrorKind::Protocol,
             Self::ParseError(_) => MechanismErrorKind::Parse,
             Self::ServerError(_) => MechanismErrorKind::Outcome,
         }
-- 
2.43.0


From eb00c6ae7c0c17890a4e22a457f03c5c1100345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 15/31] fix: OAUTHBEARER escapes the authorization identity

---
 src/mechanisms/oauthbearer/client.rs |  3 ++-
 src/mechanisms/oauthbearer/parser.rs | 36 ++++++++++++++++++++++++++--
 src/mechanisms/oauthbearer/server.rs |  2 +-
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a43662f..a2251a2 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -1,6 +1,7 @@
 use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
+use crate::mechanisms::oauthbearer::parser::escape_authzid;
 use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
@@ -37,7 +38,7 @@ impl Authentication for OAuthBearer {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
                     writer.write_all(b"a=")?;
-                    writer.write_all(authzid.as_bytes())?;
+                    writer.write_all(escape_authzid(authzid).as_bytes())?;
                     Ok(())
                 })?;
                 writer.write_all(b",")?;
diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 86adcde..f1c94eb 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -1,3 +1,4 @@
+use alloc::borrow::Cow;
 use alloc::str::Utf8Error;
 use thiserror::Error;
 
@@ -23,8 +24,39 @@ pub enum ParseError {
     ),
 }
 
+/// Escape an authorization identity for use in the gs2-header
+pub fn escape_authzid(authzid: &str) -> String {
+    // The order matters, a comma is escaped using an equals sign.
+    authzid.replace('=', "=3D").replace(',', "=2C")
+}
+
+fn unescape_authzid(input: &[u8]) -> Result<Cow<'_, str>, ParseError> {
+    let input = core::str::from_utf8(input)?;
+    let mut parts = input.split('=');
+    // `split` always returns at least one part
+    let first = parts.next().unwrap_or_default();
+    if first.len() == input.len() {
+        return Ok(Cow::Borrowed(input));
+    }
+
+    let mut out = String::with_capacity(input.len());
+    out.push_str(first);
+    for part in parts {
+        let (c, rest) = if let Some(rest) = part.strip_prefix("2C") {
+            (',', rest)
+        } else if let Some(rest) = part.strip_prefix("3D") {
+            ('=', rest)
+        } else {
+            return Err(ParseError::InvalidGs2);
+        };
+        out.push(c);
+        out.push_str(rest);
+    }
+    Ok(Cow::Owned(out))
+}
+
 pub struct OAuthBearerMsg<'a> {
-    pub authzid: Option<&'a str>,
+    pub authzid: Option<Cow<'a, str>>,
     pub token: &'a str,
     pub fields: Vec<(&'a str, &'a str)>,
 }
@@ -45,7 +77,7 @@ impl<'a> OAuthBearerMsg<'a> {
             let authzid = if gs2_authzid.is_empty() {
                 None
             } else if let Some(rem) = gs2_authzid.strip_prefix(b"a=") {
-                Some(core::str::from_utf8(rem)?)
+                Some(unescape_authzid(rem)?)
             } else {
                 return Err(ParseError::InvalidGs2);
             };
diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 077e5b1..5d228d1 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -57,7 +57,7 @@ impl Authentication for OAuthBearer {
                 } = OAuthBearerMsg::parse(input).map_err(Error::Parse)?;
 
                 let prov = Prov {
-                    authzid,
+                    authzid: authzid.as_deref(),
                     token,
                     kvpairs: fields.as_slice(),
                 };
-- 
2.43.0


From 240d3f5365e49b9fb1eeb0a578bf1e16eb341e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 16/31] fix: OAUTHBEARER server follows the message grammar

---
 src/mechanisms/oauthbearer/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index f1c94eb..ad78a88 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -73,6 +73,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 return Err(ParseError::ChannelBindings);
             }
             let gs2_authzid = gs2iter.next().ok_or(ParseError::InvalidGs2)?;
+            // The header ends with a comma that is followed by the first separator.
+            if gs2iter.next() != Some(b"") || gs2iter.next().is_some() {
+                return Err(ParseError::InvalidGs2);
+            }
 
             let authzid = if gs2_authzid.is_empty() {
                 None
@@ -87,12 +91,16 @@ impl<'a> OAuthBearerMsg<'a> {
 
             for kv in it {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
+                    if token.is_some() {
+                        return Err(ParseError::InvalidKVPair);
+                    }
                     token = Some(core::str::from_utf8(t)?);
                 } else {
-                    let mut kviter = kv.split(|b| matches!(b, b'='));
+                    // Only the key can't contain an equals sign
+                    let mut kviter = kv.splitn(2, |b| matches!(b, b'='));
                     let key = kviter.next().ok_or(ParseError::InvalidKVPair)?;
                     let val = kviter.next().ok_or(ParseError::InvalidKVPair)?;
-                    if kviter.next().is_some() {
+                    if key.is_empty() {
                         return Err(ParseError::InvalidKVPair);
                     }
                     let key = core::str::from_utf8(key)?;
-- 
2.43.0


From 504204cd30cf2a86d0c06510f6bc8500ab89264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 17/31] fix: OAUTHBEARER server separates the token from its
 scheme

---
 src/mechanisms/oauthbearer/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index ad78a88..38f9669 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -94,6 +94,11 @@ impl<'a> OAuthBearerMsg<'a> {
                     if token.is_some() {
                         return Err(ParseError::InvalidKVPair);
                     }
+                    // The value is an `Authorization` header, i.e. a scheme and the actual token
+                    let t = match t.get(..7) {
+                        Some(scheme) if scheme.eq_ignore_ascii_case(b"Bearer ") => &t[7..],
+                        _ => t,
+                    };
                     token = Some(core::str::from_utf8(t)?);
                 } else {
                     // Only the key can't contain an equals sign
-- 
2.43.0


From 462cb344c955a0ffb2a9ddd34c8461d402649ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 18/31] fix: OAUTHBEARER client accepts escaped error messages

---
 src/mechanisms/oauthbearer/client.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a2251a2..f79a6dd 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -2,11 +2,12 @@ use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
 use crate::mechanisms::oauthbearer::parser::escape_authzid;
-use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
+use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerError, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
 use crate::vectored_io::VectoredWriter;
 use alloc::io::Write;
+use serde::Deserialize;
 
 #[derive(Debug, Default, Clone)]
 pub struct OAuthBearer {
@@ -26,6 +27,18 @@ impl Default for OAuthBearerState {
     }
 }
 
+#[derive(Deserialize)]
+/// [`OAuthBearerError`] as sent by the server
+///
+/// The strings have to be owned because those containing escape sequences can't be borrowed.
+struct ServerError {
+    status: String,
+    #[serde(default)]
+    scope: Option<String>,
+    #[serde(default, rename = "openid-configuration")]
+    openid_config: Option<String>,
+}
+
 impl Authentication for OAuthBearer {
     fn step(
         &mut self,
@@ -77,7 +90,12 @@ impl Authentication for OAuthBearer {
                     return Ok(State::Finished(MessageSent::No));
                 }
 
-                let error = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error: ServerError = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error = OAuthBearerError::new(
+                    &error.status,
+                    error.scope.as_deref(),
+                    error.openid_config.as_deref(),
+                );
 
                 // If the user callback *doesn't*, we must error, so '?' is correct.
                 session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
-- 
2.43.0


From 838b731924bc0cde8680c6d3e195a45d85c61908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 19/31] fix: OAuth clients reject values containing field
 separators

---
 src/mechanisms/oauthbearer/client.rs     | 14 ++++++++++++++
 src/mechanisms/oauthbearer/properties.rs |  2 ++
 src/mechanisms/xoauth2/client.rs         | 12 ++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index f79a6dd..e9e1a48 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -50,6 +50,9 @@ impl Authentication for OAuthBearer {
             OAuthBearerState::Initial => {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
+                    if authzid.contains('\x01') {
+                        return Err(Error::InvalidProperty("authzid").into());
+                    }
                     writer.write_all(b"a=")?;
                     writer.write_all(escape_authzid(authzid).as_bytes())?;
                     Ok(())
@@ -58,6 +61,14 @@ impl Authentication for OAuthBearer {
 
                 session.maybe_need_with::<OAuthBearerKV, _, _>(&EmptyProvider, |kvpairs| {
                     for (k, v) in kvpairs {
+                        // `auth` is reserved for the token
+                        if k.is_empty()
+                            || *k == "auth"
+                            || k.contains(['\x01', '='])
+                            || v.contains('\x01')
+                        {
+                            return Err(Error::InvalidProperty("key/value pair").into());
+                        }
                         let data = [b"\x01", k.as_bytes(), b"=", v.as_bytes()];
                         let mut vecw = VectoredWriter::new(data);
                         vecw.write_all_vectored(&mut *writer)?;
@@ -66,6 +77,9 @@ impl Authentication for OAuthBearer {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    if token.contains('\x01') {
+                        return Err(Error::InvalidProperty("token").into());
+                    }
                     let data = [b"\x01auth=Bearer ", token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
diff --git a/src/mechanisms/oauthbearer/properties.rs b/src/mechanisms/oauthbearer/properties.rs
index 4fd0dc0..0c6bd8d 100644
--- a/src/mechanisms/oauthbearer/properties.rs
+++ b/src/mechanisms/oauthbearer/properties.rs
@@ -18,6 +18,8 @@ pub enum Error {
         #[from]
         serde_json::Error,
     ),
+    #[error("{0} can not be represented in a message")]
+    InvalidProperty(&'static str),
 }
 
 impl MechanismError for Error {
diff --git a/src/mechanisms/xoauth2/client.rs b/src/mechanisms/xoauth2/client.rs
index f336228..c1c0bf0 100644
--- a/src/mechanisms/xoauth2/client.rs
+++ b/src/mechanisms/xoauth2/client.rs
@@ -35,6 +35,8 @@ enum Error {
         #[source]
         core::str::Utf8Error,
     ),
+    #[error("{0} contains a field separator")]
+    ContainsSeparator(&'static str),
 }
 impl MechanismError for Error {
     fn kind(&self) -> MechanismErrorKind {
@@ -52,6 +54,11 @@ impl Authentication for XOAuth2 {
         match self.state {
             XOAuth2State::Initial => {
                 session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
+                    if authid.contains('\x01') {
+                        return Err(SessionError::MechanismError(Box::new(
+                            Error::ContainsSeparator("username"),
+                        )));
+                    }
                     let data = [b"user=", authid.as_bytes(), b"\x01auth=Bearer "];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(&mut *writer)?;
@@ -59,6 +66,11 @@ impl Authentication for XOAuth2 {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    if token.contains('\x01') {
+                        return Err(SessionError::MechanismError(Box::new(
+                            Error::ContainsSeparator("bearer token"),
+                        )));
+                    }
                     let data = [token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
-- 
2.43.0


From eef9bfe3fbca599799d7721afa0a561534ada87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 20/31] fix: EXTERNAL server rejects NUL characters

---
 src/mechanisms/external/server.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/external/server.rs b/src/mechanisms/external/server.rs
index e930c7c..a7fbd1a 100644
--- a/src/mechanisms/external/server.rs
+++ b/src/mechanisms/external/server.rs
@@ -8,8 +8,12 @@ use core2::io::Write;
 use thiserror::Error;
 
 #[derive(Debug, Eq, PartialEq, Copy, Clone, Error)]
-#[error("the given external token is invalid UTF-8")]
-pub struct ParseError(#[source] Utf8Error);
+pub enum ParseError {
+    #[error("the given external token is invalid UTF-8")]
+    BadUtf8(#[source] Utf8Error),
+    #[error("the given external token contains a NUL character")]
+    ContainsNull,
+}
 impl MechanismError for ParseError {
     fn kind(&self) -> MechanismErrorKind {
         MechanismErrorKind::Parse
@@ -27,7 +31,10 @@ impl Authentication for External {
         _writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         let input = input.unwrap_or(&[]);
-        let authzid = core::str::from_utf8(input).map_err(ParseError)?;
+        let authzid = core::str::from_utf8(input).map_err(ParseError::BadUtf8)?;
+        if authzid.contains('\0') {
+            return Err(ParseError::ContainsNull.into());
+        }
         session.validate(&ThisProvider::<AuthzId>::with(authzid))?;
         Ok(State::Finished(MessageSent::No))
     }
-- 
2.43.0


From 153038f93eb869a10864fe0608def84ef211994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 21/31] fix: XOAUTH2 server refuses to send an empty error

---
 src/mechanisms/xoauth2/server.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mechanisms/xoauth2/server.rs b/src/mechanisms/xoauth2/server.rs
index 69c0b89..3b06fe3 100644
--- a/src/mechanisms/xoauth2/server.rs
+++ b/src/mechanisms/xoauth2/server.rs
@@ -34,6 +34,9 @@ enum Error {
 
     #[error("input is of an invalid format")]
     InvalidFormat,
+
+    #[error("the error response is empty")]
+    EmptyError,
 }
 impl MechanismError for Error {
     fn kind(&self) -> MechanismErrorKind {
@@ -97,6 +100,10 @@ impl Authentication for XOAuth2 {
                 // if the mechanism has one step or three depends on if the token is valid or not.
                 let state = session.need_with::<XOAuth2Validate, _, _>(&prov, |result| {
                     if let Err(error) = result {
+                        // The client would read an empty message as success
+                        if error.is_empty() {
+                            return Err(SessionError::MechanismError(Box::new(Error::EmptyError)));
+                        }
                         writer.write_all(error.as_bytes())?;
                         self.state = XOAuth2State::Errored;
                         Ok(State::Running)
-- 
2.43.0


From 5f86abe8cb085373b38f11f78995e1eeabd91803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 22/31] fix: OAUTHBEARER authorization identities can't contain
 NUL

---
 src/mechanisms/oauthbearer/client.rs | 2 +-
 src/mechanisms/oauthbearer/parser.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index e9e1a48..91d787f 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -50,7 +50,7 @@ impl Authentication for OAuthBearer {
             OAuthBearerState::Initial => {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
-                    if authzid.contains('\x01') {
+                    if authzid.contains(['\0', '\x01']) {
                         return Err(Error::InvalidProperty("authzid").into());
                     }
                     writer.write_all(b"a=")?;
diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 38f9669..7c65b7a 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -32,6 +32,9 @@ pub fn escape_authzid(authzid: &str) -> String {
 
 fn unescape_authzid(input: &[u8]) -> Result<Cow<'_, str>, ParseError> {
     let input = core::str::from_utf8(input)?;
+    if input.contains('\0') {
+        return Err(ParseError::InvalidGs2);
+    }
     let mut parts = input.split('=');
     // `split` always returns at least one part
     let first = parts.next().unwrap_or_default();
-- 
2.43.0


From 004ef1b4ff1fdadb537271ba49fc3ccfe9b0ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 23/31] fix: SCRAM nonces and salts do not repeat in forked
 processes

---
 src/mechanisms/scram/client.rs | 3 ++-
 src/mechanisms/scram/server.rs | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 9c3a404..3c2b777 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -472,7 +472,8 @@ where
         use ScramClientState::{ClientFirst, Initial, ServerFirst};
         match self.state.take() {
             Some(Initial(state)) => {
-                let mut rng = rand::thread_rng();
+                // Not `thread_rng()`: that buffers output, which processes forked from this one share.
+                let mut rng = rand::rngs::OsRng;
                 let mut written = 0;
                 let new_state = state.step(&mut rng, session, writer, &mut written)?;
                 self.state = Some(ClientFirst(new_state));
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index efedef8..8be577a 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -20,7 +20,7 @@ use digest::crypto_common::BlockSizeUser;
 use digest::generic_array::GenericArray;
 use digest::{Digest, FixedOutput, OutputSizeUser};
 use hmac::SimpleHmac;
-use rand::{thread_rng, Rng, RngCore};
+use rand::Rng;
 use thiserror::Error;
 
 #[allow(dead_code)]
@@ -232,7 +232,7 @@ impl<const N: usize> WaitingClientFirst<N> {
             ))
         } else {
             let mut salt = [0u8; DEFAULT_SALT_LEN];
-            thread_rng().fill_bytes(&mut salt);
+            rng.fill_bytes(&mut salt);
             let salt = base64::engine::general_purpose::STANDARD.encode(salt);
 
             let msg = ServerFirst::new(
@@ -471,7 +471,8 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
             Some(WaitingClientFirst(state)) => {
                 let client_first = input.ok_or(SessionError::InputDataRequired)?;
 
-                let mut rng = rand::thread_rng();
+                // Not `thread_rng()`: that buffers output, which processes forked from this one share.
+                let mut rng = rand::rngs::OsRng;
                 let mut written = 0;
                 let new_state =
                     state.step(&mut rng, session, client_first, writer, &mut written)?;
-- 
2.43.0


From acf63216312d21c6842579b736a6dd6d1bcb980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 24/31] fix: GSSAPI server continues contexts that need several
 tokens

---
 src/mechanisms/gssapi/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index c663a0b..1574565 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -91,6 +91,8 @@ impl Authentication for Gssapi {
                     }
 
                     self.state = GssapiState::Installed(ctx, acceptable);
+                } else {
+                    self.state = GssapiState::Pending(ctx);
                 }
                 // If an auth exchange token was produced we need to do another loop, otherwise we
                 // immediately produce the supported security layer token.
-- 
2.43.0


From e823f40eacdbc9263ab199c2b3c207dd44f32d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 25/31] fix: GSSAPI server only installs a layer it offered

---
 src/mechanisms/gssapi/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 1574565..8a67bb5 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -127,8 +127,9 @@ impl Authentication for Gssapi {
                 let selected =
                     SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;
 
-                // If the client selected a layer we don't support or accept, error.
-                if !selected.intersects(supported) {
+                // If the client did not select exactly one layer or one that we don't support or
+                // accept, error.
+                if selected.bits().count_ones() != 1 || !supported.contains(selected) {
                     Err(Error::BadFinalToken)?;
                 }
 
-- 
2.43.0


From 62685ec8d98b7e86676af0e742b8b19ff6d2fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 26/31] fix: GSSAPI client only selects layers its context
 provides

---
 src/mechanisms/gssapi/client.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 8483fd5..3671164 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -92,7 +92,7 @@ impl Authentication for Gssapi {
                 }
 
                 // Request acceptable security layers from the client.
-                let acceptable = session
+                let mut acceptable = session
                     .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
                         let flags = ctx.flags().map_err(Error::Gss)?;
                         // If acceptable contains `NO_SECURITY_LAYER` or is empty, which we treat as
@@ -123,6 +123,15 @@ impl Authentication for Gssapi {
                     })?
                     .unwrap_or_default();
 
+                // A layer which the context can't provide must not be negotiated.
+                let flags = ctx.flags().map_err(Error::Gss)?;
+                if !flags.contains(CtxFlags::GSS_C_CONF_FLAG) {
+                    acceptable.remove(SecurityLayer::CONFIDENTIALITY);
+                }
+                if !flags.contains(CtxFlags::GSS_C_INTEG_FLAG) {
+                    acceptable.remove(SecurityLayer::INTEGRITY);
+                }
+
                 self.state = GssapiState::Last(ctx, acceptable);
                 Ok(State::Running)
             }
-- 
2.43.0


From 965decb8e17f7b4440e567d9f2a90345bdd0dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 27/31] fix: GSSAPI sessions stay usable after a step without
 data

---
 src/mechanisms/gssapi/client.rs | 21 +++++++++++++++------
 src/mechanisms/gssapi/server.rs | 10 ++++++++--
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 3671164..ee69a5e 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -18,7 +18,8 @@ pub struct Gssapi {
 
 enum GssapiState {
     Initial,
-    Pending(ClientCtx),
+    /// The flag is set as long as the context has not produced its first token
+    Pending(ClientCtx, bool),
     Last(ClientCtx, SecurityLayer),
     Completed(Option<(ClientCtx, bool)>),
     Errored,
@@ -69,25 +70,30 @@ impl Authentication for Gssapi {
                 let cred = Cred::acquire(None, None, CredUsage::Initiate, Some(&krb5))
                     .map_err(Error::Gss)?;
 
-                self.state = GssapiState::Pending(ClientCtx::new(
+                let ctx = ClientCtx::new(
                     Some(cred),
                     target,
                     // Allow all flags. Setting them does not mean the final context will provide
                     // them, so this should not be an issue.
                     CtxFlags::all(),
                     Some(&GSS_MECH_KRB5),
-                ));
+                );
+                self.state = GssapiState::Pending(ctx, true);
 
                 self.step(session, input, writer)
             }
-            GssapiState::Pending(mut ctx) => {
+            GssapiState::Pending(mut ctx, first) => {
+                if input.is_none() && !first {
+                    self.state = GssapiState::Pending(ctx, first);
+                    return Err(SessionError::InputDataRequired);
+                }
                 if let Some(token) = ctx.step(input, None).map_err(Error::Gss)? {
                     if !token.is_empty() {
                         writer.write_all(&token)?;
                     }
                 }
                 if !ctx.is_complete() {
-                    self.state = GssapiState::Pending(ctx);
+                    self.state = GssapiState::Pending(ctx, false);
                     return Ok(State::Running);
                 }
 
@@ -136,7 +142,10 @@ impl Authentication for Gssapi {
                 Ok(State::Running)
             }
             GssapiState::Last(mut ctx, acceptable) => {
-                let input = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(input) = input else {
+                    self.state = GssapiState::Last(ctx, acceptable);
+                    return Err(SessionError::InputDataRequired);
+                };
                 let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
                 if unwrapped.len() != 4 {
                     Err(Error::BadFinalToken)?;
diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 8a67bb5..d470cf2 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -64,7 +64,10 @@ impl Authentication for Gssapi {
                 self.step(session, input, writer)
             }
             GssapiState::Pending(mut ctx) => {
-                let input = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(input) = input else {
+                    self.state = GssapiState::Pending(ctx);
+                    return Err(SessionError::InputDataRequired);
+                };
                 let token = ctx.step(input).map_err(Error::Gss)?;
                 if ctx.is_complete() {
                     // Query the user for acceptable security layers
@@ -119,7 +122,10 @@ impl Authentication for Gssapi {
                 Ok(State::Running)
             }
             GssapiState::Final(mut ctx, supported) => {
-                let input = input.ok_or(SessionError::InputDataRequired)?;
+                let Some(input) = input else {
+                    self.state = GssapiState::Final(ctx, supported);
+                    return Err(SessionError::InputDataRequired);
+                };
                 let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
                 if unwrapped.len() != 4 {
                     Err(Error::BadFinalToken)?;
-- 
2.43.0


From b38f2e4aafc6ec327d50402e864daab0c7502c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 28/31] fix: GSSAPI server has the authenticated client
 validated

---
 src/mechanisms/gssapi/server.rs | 10 +++++++++-
 src/mechanisms/mod.rs           |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index d470cf2..8dc5b51 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -1,8 +1,9 @@
-use crate::context::EmptyProvider;
+use crate::context::{EmptyProvider, ThisProvider};
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
 use crate::mechanisms::gssapi::properties::{Error, GssSecurityLayer, SecurityLayer};
 use crate::prelude::State::Finished;
+use crate::property::AuthId;
 use crate::session::MessageSent;
 use alloc::mem;
 use core::fmt;
@@ -139,6 +140,13 @@ impl Authentication for Gssapi {
                     Err(Error::BadFinalToken)?;
                 }
 
+                let name = ctx
+                    .source_name()
+                    .and_then(|name| name.display_name())
+                    .map_err(Error::Gss)?;
+                let authid = core::str::from_utf8(&name).map_err(|_| Error::BadContext)?;
+                session.validate(&ThisProvider::<AuthId>::with(authid))?;
+
                 let wrap_state = if selected.contains(SecurityLayer::CONFIDENTIALITY) {
                     Some((ctx, true))
                 } else if selected.contains(SecurityLayer::INTEGRITY) {
diff --git a/src/mechanisms/mod.rs b/src/mechanisms/mod.rs
index a0e1850..0beb34e 100644
--- a/src/mechanisms/mod.rs
+++ b/src/mechanisms/mod.rs
@@ -208,6 +208,10 @@ pub mod gssapi {
     //! # Server
     //!
     //! Requests the property [`GssSecurityLayer`](properties::GssSecurityLayer) using a 'satisfiable' callback.
+    //!
+    //! Calls [`SessionCallback::validate`] with [`AuthId`] set to the name of the authenticated client.
+    //!
+    //! [`SessionCallback::validate`]: crate::callback::SessionCallback::validate
     #[cfg(doc)]
     use crate::property::*;
 
-- 
2.43.0


From ef7cd85ac7b64f999f47448d0fa2e244d335aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 29/31] fix: OAUTHBEARER server reports a failing writer as an
 I/O error

---
 src/mechanisms/oauthbearer/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 5d228d1..70ac3d3 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -64,7 +64,8 @@ impl Authentication for OAuthBearer {
 
                 let state = session.need_with::<OAuthBearerValidate, _, _>(&prov, |result| {
                     if let Err(error) = result {
-                        serde_json::to_writer(writer, error).map_err(Error::Serde)?;
+                        let message = serde_json::to_vec(error).map_err(Error::Serde)?;
+                        writer.write_all(&message)?;
                         self.state = OAuthBearerState::Errored;
                         Ok(State::Running)
                     } else {
-- 
2.43.0


From 642bec33f21e9ab86c33185823d835c0839b057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:04 +0000
Subject: [PATCH 30/31] fix: refuse SCRAM nonces that are empty or not
 printable

RFC 5802 defines a nonce as one or more printable characters other than a comma. A server accepted an
empty client nonce and a client any bytes in the nonce of the server's first message.
---
 src/mechanisms/scram/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 7fbf596..c7c5772 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -183,6 +183,14 @@ fn attribute<'scram>(part: &'scram [u8], name: &[u8; 2]) -> Result<&'scram [u8],
     part.strip_prefix(name).ok_or_else(|| unexpected(part))
 }
 
+/// A nonce consists of at least one printable character
+fn check_nonce(nonce: &[u8]) -> Result<(), ParseError> {
+    if nonce.is_empty() || !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
+        return Err(ParseError::BadNonce);
+    }
+    Ok(())
+}
+
 const fn unexpected(part: &[u8]) -> ParseError {
     match part {
         [first, ..] => ParseError::InvalidAttribute(*first),
@@ -282,9 +290,7 @@ impl<'scram> ClientFirstMessage<'scram> {
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
         let nonce = attribute(next, b"r=")?;
-        if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
-            return Err(ParseError::BadNonce);
-        }
+        check_nonce(nonce)?;
 
         Ok(Self {
             cbflag,
@@ -383,6 +389,7 @@ impl<'scram> ServerFirst<'scram> {
         }
 
         let nonce = attribute(next, b"r=")?;
+        check_nonce(nonce)?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
         let salt = attribute(next, b"s=")?;
-- 
2.43.0


From eedbbaea9dfc60ce9ec8d1140ff78dd09762fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 31/31] fix: refuse reserved extensions anywhere in a SCRAM
 client's first message

RFC 5802 has the presence of the attribute "m=" fail the authentication. The server only looked for it
in front of the username.
---
 src/mechanisms/scram/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index c7c5772..cd133f6 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -292,6 +292,10 @@ impl<'scram> ClientFirstMessage<'scram> {
         let nonce = attribute(next, b"r=")?;
         check_nonce(nonce)?;
 
+        if partiter.any(|extension| extension.starts_with(b"m=")) {
+            return Err(ParseError::UnknownMandatoryExtensions);
+        }
+
         Ok(Self {
             cbflag,
             authzid,
-- 
2.43.0

