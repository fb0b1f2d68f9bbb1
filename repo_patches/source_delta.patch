From 74807b98d487989ff88fe1641f22476062bf435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 01/37] hook: let spdmlib compile under Kani (cfg(kani) only)

---
 spdmlib/src/error.rs | 6 ++++++
 spdmlib/src/lib.rs   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/spdmlib/src/error.rs b/spdmlib/src/error.rs
index 3f61e93..57660ae 100644
--- a/spdmlib/src/error.rs
+++ b/spdmlib/src/error.rs
@@ -376,6 +376,12 @@ impl FromResidual<SpdmStatus> for SpdmStatus {
     }
 }
 
+// Newer compilers (the one Kani brings) want `Residual` for a `Try::Residual`.
+#[cfg(kani)]
+impl core::ops::Residual<()> for SpdmStatus {
+    type TryType = SpdmStatus;
+}
+
 impl Try for SpdmStatus {
     type Output = ();
 
diff --git a/spdmlib/src/lib.rs b/spdmlib/src/lib.rs
index 19f2d33..3643353 100644
--- a/spdmlib/src/lib.rs
+++ b/spdmlib/src/lib.rs
@@ -6,6 +6,7 @@
 #![cfg_attr(not(feature = "std"), no_std)]
 #![feature(stmt_expr_attributes)]
 #![feature(try_trait_v2)]
+#![cfg_attr(kani, feature(try_trait_v2_residual))]
 
 #[macro_use]
 extern crate log;
-- 
2.43.0


From 255edd9d2d659c17415c0a9219e5e2d6f3f46bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 02/37] fix: PCI-DOE encap_app/decap_app refuse a buffer that
 is too small

They indexed the destination with the source length and panicked.
---
 pcidoe_transport/src/header.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index b247322..311edd7 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -5,7 +5,10 @@
 use codec::enum_builder;
 use codec::{Codec, Reader, Writer};
 use spdmlib::common::SpdmTransportEncap;
-use spdmlib::error::{SpdmResult, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_FAIL};
+use spdmlib::error::{
+    SpdmResult, SPDM_STATUS_DECAP_APP_FAIL, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_APP_FAIL,
+    SPDM_STATUS_ENCAP_FAIL,
+};
 
 enum_builder! {
     @U16
@@ -149,6 +152,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &mut [u8],
         _is_app_message: bool,
     ) -> SpdmResult<usize> {
+        if app_buffer.len() < spdm_buffer.len() {
+            return Err(SPDM_STATUS_ENCAP_APP_FAIL);
+        }
         app_buffer[0..spdm_buffer.len()].copy_from_slice(spdm_buffer);
         Ok(spdm_buffer.len())
     }
@@ -158,6 +164,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &[u8],
         spdm_buffer: &mut [u8],
     ) -> SpdmResult<(usize, bool)> {
+        if spdm_buffer.len() < app_buffer.len() {
+            return Err(SPDM_STATUS_DECAP_APP_FAIL);
+        }
         spdm_buffer[0..app_buffer.len()].copy_from_slice(app_buffer);
         Ok((app_buffer.len(), false))
     }
-- 
2.43.0


From fb2ad9f50792b6033325f8d76b021b8ffde52884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 03/37] fix: SPDM_STATUS_INVALID_PARAMETER carries its own
 status code

It carried INVALID_STATE_LOCAL, so the two statuses were the same value.
---
 spdmlib/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/error.rs b/spdmlib/src/error.rs
index 57660ae..fdd005c 100644
--- a/spdmlib/src/error.rs
+++ b/spdmlib/src/error.rs
@@ -421,7 +421,7 @@ pub const SPDM_STATUS_SUCCESS: SpdmStatus =
 /* The function input parameter is invalid. */
 pub const SPDM_STATUS_INVALID_PARAMETER: SpdmStatus = spdm_return_status!(
     StatusSeverity::ERROR,
-    StatusCode::CORE(StatusCodeCore::INVALID_STATE_LOCAL)
+    StatusCode::CORE(StatusCodeCore::INVALID_PARAMETER)
 );
 
 /* Unable to complete operation due to unsupported capabilities by either the caller, the peer,
-- 
2.43.0


From 358eca34a8890ca691110a38f1945175bc5005d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 04/37] fix: a status with source 0 and a non-zero code is not
 SUCCESS

SpdmStatus::from_u32 dropped the code, so the value did not round-trip.
---
 spdmlib/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/error.rs b/spdmlib/src/error.rs
index fdd005c..15d070e 100644
--- a/spdmlib/src/error.rs
+++ b/spdmlib/src/error.rs
@@ -270,7 +270,7 @@ impl TryFrom<u24> for StatusCode {
         let source: u8 = ((value.get() & 0xFF_00_00) >> 16) as u8;
         let code: u16 = (value.get() & 0x00_00_FF_FF) as u16;
         match source {
-            0 => Ok(StatusCode::SUCCESS),
+            0 if code == 0 => Ok(StatusCode::SUCCESS),
             1 => Ok(StatusCode::CORE(StatusCodeCore::try_from(code)?)),
             2 => Ok(StatusCode::CRYPTO(StatusCodeCrypto::try_from(code)?)),
             3 => Ok(StatusCode::CERT_PARSE(StatusCodeCertParse::try_from(code)?)),
-- 
2.43.0


From 8cb9fa0f7cad4c3cef599f3332dfe681c1de4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 05/37] fix: SHA3-384 and SHA3-512 are valid measurement hash
 algorithms

VALID_MASK listed SHA3-256 three times, so decoding dropped the other two.
---
 spdmlib/src/protocol/algo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 600c976..e1a07cc 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -118,8 +118,8 @@ bitflags! {
             | Self::TPM_ALG_SHA_384.bits
             | Self::TPM_ALG_SHA_512.bits
             | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
+            | Self::TPM_ALG_SHA3_384.bits
+            | Self::TPM_ALG_SHA3_512.bits
             | Self::TPM_ALG_SM3.bits;
     }
 }
-- 
2.43.0


From a7220c198830c5ca3865cef0e0c1063193932654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 06/37] fix: a session's sequence number never wraps around to
 a used one

---
 spdmlib/src/common/session.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 31665d1..b0dbe09 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -807,7 +807,7 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    Self::advance(&mut self.handshake_secret.request_direction);
                     r
                 } else {
                     let r = self.encode_msg(
@@ -815,7 +815,7 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    Self::advance(&mut self.handshake_secret.response_direction);
                     r
                 }
             }
@@ -826,7 +826,7 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    Self::advance(&mut self.application_secret.request_direction);
                     r
                 } else {
                     let r = self.encode_msg(
@@ -834,7 +834,7 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    Self::advance(&mut self.application_secret.response_direction);
                     r
                 }
             }
@@ -857,7 +857,7 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    Self::advance(&mut self.handshake_secret.request_direction);
                     r
                 } else {
                     let r = self.decode_msg(
@@ -865,7 +865,7 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    Self::advance(&mut self.handshake_secret.response_direction);
                     r
                 }
             }
@@ -876,7 +876,7 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    Self::advance(&mut self.application_secret.request_direction);
                     r
                 } else {
                     let r = self.decode_msg(
@@ -884,7 +884,7 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    Self::advance(&mut self.application_secret.response_direction);
                     r
                 }
             }
@@ -892,6 +892,11 @@ impl SpdmSession {
         }
     }
 
+    // The last sequence number is never used: it must not wrap around to a used one.
+    fn advance(secret_param: &mut SpdmSessionSecretParam) {
+        secret_param.sequence_number = secret_param.sequence_number.saturating_add(1);
+    }
+
     fn encode_msg(
         &self,
         app_buffer: &[u8],
-- 
2.43.0


From 8f4fe74537e3b264eb1ca1eef07dfc7367642f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 07/37] fix: securing or opening a message refuses a buffer
 that is too small

---
 spdmlib/src/common/session.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index b0dbe09..b6e177a 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -910,6 +910,14 @@ impl SpdmSession {
         let cipher_text_size = app_buffer.len() + 2;
         let tag_size = aead_algo.get_tag_size() as usize;
 
+        if cipher_text_size > config::SENDER_BUFFER_SIZE
+            || cipher_text_size + tag_size > u16::MAX as usize
+            || secured_buffer.len()
+                < 6 + transport_param.sequence_number_count as usize + cipher_text_size + tag_size
+        {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
+
         let mut aad_buffer = [0u8; 6 + 8];
         let mut writer = Writer::init(&mut aad_buffer);
         let app_length = app_buffer.len() as u16;
@@ -1022,6 +1030,9 @@ impl SpdmSession {
         }
 
         let cipher_text_size = length as usize - tag_size;
+        if cipher_text_size > config::RECEIVER_BUFFER_SIZE {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
 
         let mut plain_text_buf = [0; config::RECEIVER_BUFFER_SIZE];
 
@@ -1053,6 +1064,10 @@ impl SpdmSession {
             return Err(SPDM_STATUS_DECODE_AEAD_FAIL);
         }
 
+        if app_length > app_buffer.len() {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
+
         app_buffer[..app_length].copy_from_slice(&plain_text_buf[2..(app_length + 2)]);
         Ok(app_length)
     }
-- 
2.43.0


From a6702c55044adaf1db241ee7eec8c20a0967477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:59 +0000
Subject: [PATCH 08/37] fix: setting up or tearing down a session also resets
 its certificate slot

---
 spdmlib/src/common/session.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index b6e177a..281b9f4 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -184,6 +184,7 @@ impl SpdmSession {
         self.transport_param = SpdmSessionTransportParam::default();
         self.runtime_info = SpdmSessionRuntimeInfo::default();
         self.key_schedule = SpdmKeySchedule::default();
+        self.slot_id = 0;
         self.heartbeat_period = 0;
         self.secure_spdm_version_sel = DMTF_SECURE_SPDM_VERSION_11;
         self.mut_auth_requested = SpdmKeyExchangeMutAuthAttributes::empty();
-- 
2.43.0


From e8d1203af111184d2c067dde986a6b6bee43e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:34 +0000
Subject: [PATCH 09/37] fix: an authenticated connection is a state of its own,
 after certificate retrieval

---
 spdmlib/src/common/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 0202a98..d584467 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -42,7 +42,7 @@ enum_builder! {
         SpdmConnectionAfterCertificate => 0x5,
         // After CHALLENGE/CHALLENGE_AUTH,
         // and ENCAP CHALLENGE/CHALLENGE_AUTH if MUT_AUTH is enabled.
-        SpdmConnectionAuthenticated => 0x5
+        SpdmConnectionAuthenticated => 0x6
     }
 }
 impl Default for SpdmConnectionState {
-- 
2.43.0


From ebf95283bbaea44d0df8b8f8c30e14e132b51c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 10/37] fix: a failing application handler is an error, not a
 panic

---
 spdmlib/src/responder/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 357fdab..7815c52 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -369,7 +369,7 @@ impl<'a> ResponderContext<'a> {
         debug!("dispatching secured app message\n");
 
         let (rsp_app_buffer, size) =
-            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data).unwrap();
+            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
     }
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
-- 
2.43.0


From 3b842f0cb4ac182df2fa0efad2f5bccac88224ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 11/37] fix: application data is handled only in an established
 session

---
 spdmlib/src/responder/context.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 7815c52..16e2e00 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -368,6 +368,13 @@ impl<'a> ResponderContext<'a> {
     ) -> SpdmResult {
         debug!("dispatching secured app message\n");
 
+        let session = self.common.get_immutable_session_via_id(session_id);
+        if session.map(|session| session.get_session_state())
+            != Some(SpdmSessionState::SpdmSessionEstablished)
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let (rsp_app_buffer, size) =
             dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
-- 
2.43.0


From f62c346dd2b4f50da588572982be72c26073ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 12/37] fix: sending application data never changes the state
 of a session

---
 spdmlib/src/responder/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 16e2e00..42cb2a0 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -117,7 +117,7 @@ impl<'a> ResponderContext<'a> {
             is_app_message,
         )?;
         let result = self.common.device_io.send(&transport_buffer[..used]);
-        if result.is_ok() {
+        if result.is_ok() && !is_app_message {
             let opcode = send_buffer[1];
             // change state after message is sent.
             if opcode == SpdmRequestResponseCode::SpdmResponseEndSessionAck.get_u8() {
-- 
2.43.0


From b3e8bc46279a8105ece7f55614ed9e5ee50d2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 13/37] fix: a response that fails half way is replaced by the
 ERROR, not sent along with it

---
 codec/src/codec.rs                       | 5 +++++
 spdmlib/src/responder/challenge_rsp.rs   | 2 +-
 spdmlib/src/responder/error_rsp.rs       | 2 ++
 spdmlib/src/responder/measurement_rsp.rs | 2 +-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec.rs b/codec/src/codec.rs
index 46ebe51..81546bc 100644
--- a/codec/src/codec.rs
+++ b/codec/src/codec.rs
@@ -98,6 +98,11 @@ impl<'a> Writer<'a> {
         &self.buf[..self.offs]
     }
 
+    /// Discards everything written so far.
+    pub fn clear(&mut self) {
+        self.offs = 0;
+    }
+
     pub fn mut_used_slice(&mut self) -> &mut [u8] {
         &mut self.buf[..self.offs]
     }
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 5974d33..1272d4b 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -172,7 +172,7 @@ impl<'a> ResponderContext<'a> {
 
         let signature = self.generate_challenge_auth_signature();
         if signature.is_err() {
-            self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
         let signature = signature.unwrap();
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a8c3f76..844a4e4 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -27,6 +27,8 @@ impl<'a> ResponderContext<'a> {
                 ),
             }),
         };
+        // an error response replaces whatever was written of another response
+        writer.clear();
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index f4d53e7..390f827 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -230,7 +230,7 @@ impl<'a> ResponderContext<'a> {
 
             let signature = self.generate_measurement_signature(session_id);
             if signature.is_err() {
-                self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
             let signature = signature.unwrap();
-- 
2.43.0


From da8b833bfa5ce9ea7c8ea2c51a5d2a88815904a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 14/37] fix: GET_CAPABILITIES selects only a version that was
 offered

---
 spdmlib/src/responder/capability_rsp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/responder/capability_rsp.rs b/spdmlib/src/responder/capability_rsp.rs
index 1f0ba40..5caaed4 100644
--- a/spdmlib/src/responder/capability_rsp.rs
+++ b/spdmlib/src/responder/capability_rsp.rs
@@ -35,6 +35,10 @@ impl<'a> ResponderContext<'a> {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+            if !self.common.config_info.spdm_version.contains(&version) {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorVersionMismatch, 0, writer);
+                return;
+            }
             self.common.negotiate_info.spdm_version_sel = version;
         } else {
             error!("!!! get_capabilities : fail !!!\n");
-- 
2.43.0


From e8dac338dc0a0cb45501a1e3dd90453c90e3b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 15/37] fix: DIGESTS holds the digest of every provisioned slot

---
 spdmlib/src/responder/digest_rsp.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index b1b7ef2..00333b0 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -110,6 +110,8 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        // the digests are the last fields of the message, in slot order
+        let mut offset = writer.used() - slot_mask.count_ones() as usize * digest_size as usize;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
             if self.common.provision_info.my_cert_chain[slot_id].is_some() {
                 let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
@@ -122,9 +124,9 @@ impl<'a> ResponderContext<'a> {
                 .unwrap();
 
                 // patch the message before send
-                let used = writer.used();
-                writer.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
+                let end = offset + cert_chain_hash.data_size as usize;
+                writer.mut_used_slice()[offset..end].copy_from_slice(cert_chain_hash.as_ref());
+                offset = end;
             }
         }
 
-- 
2.43.0


From b7f2e0857dbb9db5a202d3b6e60405a3a276b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 16/37] fix: encapsulated requests that are not allowed get
 only the ERROR

---
 spdmlib/src/responder/encap_rsp.rs | 31 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4b8044e..5106613 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -26,11 +26,12 @@ impl<'a> ResponderContext<'a> {
         let mut encapsulated_request = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encapsulated_request);
 
-        self.encap_check_version_cap_state(
+        if self.encap_check_version_cap_state(
             SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
             &mut writer,
-        );
-        self.write_encap_request_response(bytes, &mut writer);
+        ) {
+            self.write_encap_request_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -81,11 +82,12 @@ impl<'a> ResponderContext<'a> {
         let mut encap_response_ack = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encap_response_ack);
 
-        self.encap_check_version_cap_state(
+        if self.encap_check_version_cap_state(
             SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
             &mut writer,
-        );
-        self.write_encap_response_ack_response(bytes, &mut writer);
+        ) {
+            self.write_encap_response_ack_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -119,14 +121,21 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
-    fn encap_check_version_cap_state(&mut self, request_response_code: u8, writer: &mut Writer) {
+    /// Whether encapsulated requests are allowed; if not, an error response is written.
+    fn encap_check_version_cap_state(
+        &mut self,
+        request_response_code: u8,
+        writer: &mut Writer,
+    ) -> bool {
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             < SpdmVersion::SpdmVersion11.get_u8()
         {
-            self.send_spdm_error(
+            self.write_spdm_error(
                 SpdmErrorCode::SpdmErrorUnsupportedRequest,
                 request_response_code,
-            )
+                writer,
+            );
+            return false;
         }
 
         if !self
@@ -145,14 +154,16 @@ impl<'a> ResponderContext<'a> {
                 request_response_code,
                 writer,
             );
-            return;
+            return false;
         }
 
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return false;
         }
+        true
     }
 
     fn process_encapsulated_response(
-- 
2.43.0


From c48caff79d403719a83f72469f37d63239b5aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 17/37] fix: ALGORITHMS never selects what an earlier, failed
 negotiation offered

---
 spdmlib/src/responder/algorithm_rsp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 3e2a62c..f264cf9 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -52,6 +52,11 @@ impl<'a> ResponderContext<'a> {
                 negotiate_algorithms.measurement_specification;
             self.common.negotiate_info.base_hash_sel = negotiate_algorithms.base_hash_algo;
             self.common.negotiate_info.base_asym_sel = negotiate_algorithms.base_asym_algo;
+            // nothing of an earlier, failed negotiation may be selected
+            self.common.negotiate_info.dhe_sel = SpdmDheAlgo::empty();
+            self.common.negotiate_info.aead_sel = SpdmAeadAlgo::empty();
+            self.common.negotiate_info.req_asym_sel = SpdmReqAsymAlgo::empty();
+            self.common.negotiate_info.key_schedule_sel = SpdmKeyScheduleAlgo::empty();
             for alg in negotiate_algorithms
                 .alg_struct
                 .iter()
-- 
2.43.0


From 696a28230e090565ebd810d59e4d2e6a8ea97d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 18/37] fix: the certificate chain is rebuilt when another hash
 algorithm is negotiated

---
 spdmlib/src/common/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index d584467..9e8c042 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -241,9 +241,8 @@ impl<'a> SpdmContext<'a> {
 
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.provision_info.my_cert_chain[slot_id].is_none()
-                && self.provision_info.my_cert_chain_data[slot_id].is_some()
-            {
+            // built anew for each negotiation: it holds the root hash under the negotiated algorithm
+            if self.provision_info.my_cert_chain_data[slot_id].is_some() {
                 let cert_chain = self.provision_info.my_cert_chain_data[slot_id]
                     .as_ref()
                     .unwrap();
-- 
2.43.0


From f46b1a5285ed487e543d8f3237a8bcc24602845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 19/37] fix: a failing hash or certificate provider is an error
 of the responder, not a panic

---
 spdmlib/src/common/mod.rs              |  3 +--
 spdmlib/src/responder/challenge_rsp.rs | 10 +++++++---
 spdmlib/src/responder/digest_rsp.rs    | 10 +++++++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 9e8c042..78188b9 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -250,8 +250,7 @@ impl<'a> SpdmContext<'a> {
                     crypto::cert_operation::get_cert_from_cert_chain(
                         &cert_chain.data[..(cert_chain.data_size as usize)],
                         0,
-                    )
-                    .unwrap();
+                    )?;
                 let root_cert = &cert_chain.data[root_cert_begin..root_cert_end];
                 if let Some(root_hash) =
                     crypto::hash::hash_all(self.negotiate_info.base_hash_sel, root_cert)
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 1272d4b..28e7679 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -111,11 +111,15 @@ impl<'a> ResponderContext<'a> {
         let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
             .as_ref()
             .unwrap();
-        let cert_chain_hash = crypto::hash::hash_all(
+        let cert_chain_hash = if let Some(cert_chain_hash) = crypto::hash::hash_all(
             self.common.negotiate_info.base_hash_sel,
             my_cert_chain.as_ref(),
-        )
-        .unwrap();
+        ) {
+            cert_chain_hash
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        };
 
         let mut nonce = [0u8; SPDM_NONCE_SIZE];
         let res = crypto::rand::get_random(&mut nonce);
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index 00333b0..ed1bde9 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -117,11 +117,15 @@ impl<'a> ResponderContext<'a> {
                 let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
                     .as_ref()
                     .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
+                let cert_chain_hash = if let Some(cert_chain_hash) = crypto::hash::hash_all(
                     self.common.negotiate_info.base_hash_sel,
                     my_cert_chain.as_ref(),
-                )
-                .unwrap();
+                ) {
+                    cert_chain_hash
+                } else {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                };
 
                 // patch the message before send
                 let end = offset + cert_chain_hash.data_size as usize;
-- 
2.43.0


From a39fdf2b96524ba9606bc091c9790b6923abc02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 20/37] fix: a failing measurement provider is an error of the
 responder, not a panic

---
 spdmlib/src/responder/measurement_rsp.rs | 30 +++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 390f827..ef216d3 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -117,14 +117,18 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        let real_measurement_block_count = secret::measurement::measurement_collection(
-            spdm_version_sel,
-            measurement_specification_sel,
-            measurement_hash_sel,
-            SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
-        )
-        .unwrap()
-        .number_of_blocks;
+        let real_measurement_block_count = if let Some(record) =
+            secret::measurement::measurement_collection(
+                spdm_version_sel,
+                measurement_specification_sel,
+                measurement_hash_sel,
+                SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
+            ) {
+            record.number_of_blocks
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        };
 
         let number_of_measurement: u8 = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
@@ -144,7 +148,6 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
             )
-            .unwrap()
         } else if let SpdmMeasurementOperation::Unknown(index) =
             get_measurements.measurement_operation
         {
@@ -158,9 +161,14 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 index as usize,
             )
-            .unwrap()
         } else {
-            SpdmMeasurementRecordStructure::default()
+            Some(SpdmMeasurementRecordStructure::default())
+        };
+        let measurement_record = if let Some(measurement_record) = measurement_record {
+            measurement_record
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         };
 
         let content_changed = if runtime_content_change_support
-- 
2.43.0


From c9fff32858676c5f2bd1ad7797e4d9bfa33d04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 21/37] fix: a device with a single measurement reports a total
 of one

---
 spdmlib/src/message/measurement.rs       | 12 ++++--------
 spdmlib/src/responder/measurement_rsp.rs |  7 +++----
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 01a5e03..432b910 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -149,14 +149,10 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         //When Param2 in the requested measurement operation is 0 , this
         //parameter shall return the total number of measurement indices on
         //the device. Otherwise, this field is reserved.
-        if self.number_of_measurement == 1 {
-            cnt += 0_u8.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        } else {
-            cnt += self
-                .number_of_measurement
-                .encode(bytes)
-                .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        }
+        cnt += self
+            .number_of_measurement
+            .encode(bytes)
+            .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
         if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
             && context.runtime_info.need_measurement_signature
         {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index ef216d3..15ca860 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -130,14 +130,13 @@ impl<'a> ResponderContext<'a> {
             return;
         };
 
+        // Reserved unless the total number of measurement indices is queried.
         let number_of_measurement: u8 = if get_measurements.measurement_operation
-            == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-            || get_measurements.measurement_operation
-                == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
+            == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
         {
             real_measurement_block_count
         } else {
-            1
+            0
         };
         let measurement_record = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-- 
2.43.0


From a7762da282d15ea8accca4aa1459dd6b49f1c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 22/37] fix: a refused GET_MEASUREMENTS leaves no trace in the
 transcript

---
 spdmlib/src/responder/measurement_rsp.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 15ca860..befea29 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -108,15 +108,6 @@ impl<'a> ResponderContext<'a> {
         let content_changed = self.common.runtime_info.content_changed;
         let base_asym_sel = self.common.negotiate_info.base_asym_sel;
 
-        if self
-            .common
-            .append_message_m(session_id, &bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         let real_measurement_block_count = if let Some(record) =
             secret::measurement::measurement_collection(
                 spdm_version_sel,
@@ -218,6 +209,15 @@ impl<'a> ResponderContext<'a> {
         }
         let used = writer.used();
 
+        if self
+            .common
+            .append_message_m(session_id, &bytes[..reader.used()])
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+
         // generat signature
         if get_measurements
             .measurement_attributes
-- 
2.43.0


From 4e8b82c29fc2346b5b7c801a3b468de6ff4fdc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:43 +0000
Subject: [PATCH 23/37] fix: KEY_EXCHANGE_RSP carries its signature when the
 handshake is in the clear

---
 spdmlib/src/responder/key_exchange_rsp.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 66321b5..be9877e 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -410,11 +410,10 @@ impl<'a> ResponderContext<'a> {
             }
 
             // patch the message before send
-            writer.mut_used_slice()
-                [(used - base_hash_size - base_asym_size)..(used - base_hash_size)]
-                .copy_from_slice(signature.as_ref());
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
         }
+        writer.mut_used_slice()[temp_used..(temp_used + base_asym_size)]
+            .copy_from_slice(signature.as_ref());
 
         let heartbeat_period = self.common.config_info.heartbeat_period;
         let session = self.common.get_session_via_id(session_id).unwrap();
-- 
2.43.0


From 375d82c2831c56a3d43a1a3758a8f57db0412cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:43 +0000
Subject: [PATCH 24/37] fix: the PSK context of a responder is random, not zero

---
 spdmlib/src/responder/psk_exchange_rsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 06a49d5..51c6414 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -170,7 +170,7 @@ impl<'a> ResponderContext<'a> {
             MAX_SPDM_PSK_CONTEXT_SIZE as u16
         };
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-        if psk_without_context {
+        if !psk_without_context {
             let res = crypto::rand::get_random(&mut psk_context);
             if res.is_err() {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-- 
2.43.0


From f19aa3dce91d8745850b7ea34819386cf9d41af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:43 +0000
Subject: [PATCH 25/37] fix: a refused session request is answered with the
 ERROR, a failing provider never panics

---
 spdmlib/src/responder/finish_rsp.rs       | 13 +++++++++----
 spdmlib/src/responder/key_exchange_rsp.rs | 21 ++++++++++++++++-----
 spdmlib/src/responder/psk_exchange_rsp.rs | 22 +++++++++++++++++-----
 spdmlib/src/responder/psk_finish_rsp.rs   | 11 ++++++++---
 4 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 2412a7a..8fa537a 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -32,12 +32,13 @@ impl<'a> ResponderContext<'a> {
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_finish_response(session_id, bytes, &mut writer)?;
-        if in_clear_text {
+        let res = self.write_spdm_finish_response(session_id, bytes, &mut writer);
+        let sent = if in_clear_text {
             self.send_message(writer.used_slice())
         } else {
             self.send_secured_message(session_id, writer.used_slice(), false)
-        }
+        };
+        res.and(sent)
     }
 
     // Return true on success, false otherwise.
@@ -292,7 +293,11 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        let res = session.generate_data_secret(spdm_version_sel, &th2);
+        if res.is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+        }
+        res
     }
 
     #[cfg(not(feature = "hashed-transcript-data"))]
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index be9877e..cf4a0fa 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,8 +25,9 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_key_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let res = self.write_spdm_key_exchange_response(bytes, &mut writer);
+        let sent = self.send_message(writer.used_slice());
+        res.and(sent)
     }
 
     pub fn write_spdm_key_exchange_response(
@@ -180,8 +181,12 @@ impl<'a> ResponderContext<'a> {
             .runtime_info
             .set_local_used_cert_chain_slot_id(key_exchange_req.slot_id);
 
-        let (exchange, key_exchange_context) =
-            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel).unwrap();
+        let key_pair = crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel);
+        if key_pair.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        let (exchange, key_exchange_context) = key_pair.unwrap();
 
         debug!("!!! exchange data : {:02x?}\n", exchange);
 
@@ -369,7 +374,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         if !in_clear_text {
             let session = self
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 51c6414..4cdace1 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,8 +25,9 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let res = self.write_spdm_psk_exchange_response(bytes, &mut writer);
+        let sent = self.send_message(writer.used_slice());
+        res.and(sent)
     }
 
     pub fn write_spdm_psk_exchange_response(
@@ -285,7 +286,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         let session = self
             .common
@@ -346,9 +353,14 @@ impl<'a> ResponderContext<'a> {
             debug!("!!! th2 : {:02x?}\n", th2.as_ref());
             let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
             let session = self.common.get_session_via_id(session_id).unwrap();
-            session
+            if session
                 .generate_data_secret(spdm_version_sel, &th2)
-                .unwrap();
+                .is_err()
+            {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return Err(SPDM_STATUS_CRYPTO_ERROR);
+            }
+            let session = self.common.get_session_via_id(session_id).unwrap();
             session.set_session_state(
                 crate::common::session::SpdmSessionState::SpdmSessionEstablished,
             );
diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index 5134fa2..c600de2 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -15,8 +15,9 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_finish(&mut self, session_id: u32, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_finish_response(session_id, bytes, &mut writer)?;
-        self.send_secured_message(session_id, writer.used_slice(), false)
+        let res = self.write_spdm_psk_finish_response(session_id, bytes, &mut writer);
+        let sent = self.send_secured_message(session_id, writer.used_slice(), false);
+        res.and(sent)
     }
 
     // Return true on success, false otherwise
@@ -166,6 +167,10 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        let res = session.generate_data_secret(spdm_version_sel, &th2);
+        if res.is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+        }
+        res
     }
 }
-- 
2.43.0


From 63ce806a4f8fc93688f7f3f276d9eec337443456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:43 +0000
Subject: [PATCH 26/37] fix: a session that was refused while being set up
 frees its slot

---
 spdmlib/src/responder/key_exchange_rsp.rs | 18 ++++++++++++++++++
 spdmlib/src/responder/psk_exchange_rsp.rs | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index cf4a0fa..13d03a3 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -34,6 +34,23 @@ impl<'a> ResponderContext<'a> {
         &mut self,
         bytes: &[u8],
         writer: &mut Writer,
+    ) -> SpdmResult {
+        let mut new_session_id = None;
+        let res = self.write_key_exchange_response(bytes, writer, &mut new_session_id);
+        // a session that did not come about does not occupy a slot
+        if let (true, Some(session_id)) = (res.is_err(), new_session_id) {
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+        res
+    }
+
+    fn write_key_exchange_response(
+        &mut self,
+        bytes: &[u8],
+        writer: &mut Writer,
+        new_session_id: &mut Option<u32>,
     ) -> SpdmResult {
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
@@ -242,6 +259,7 @@ impl<'a> ResponderContext<'a> {
         let session = session.unwrap();
         let session_id = ((rsp_session_id as u32) << 16) + key_exchange_req.req_session_id as u32;
         session.setup(session_id).unwrap();
+        *new_session_id = Some(session_id);
         session.set_use_psk(false);
         session.set_slot_id(slot_id as u8);
         session.set_crypto_param(hash_algo, dhe_algo, aead_algo, key_schedule_algo);
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 4cdace1..c3baf82 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -34,6 +34,23 @@ impl<'a> ResponderContext<'a> {
         &mut self,
         bytes: &[u8],
         writer: &mut Writer,
+    ) -> SpdmResult {
+        let mut new_session_id = None;
+        let res = self.write_psk_exchange_response(bytes, writer, &mut new_session_id);
+        // a session that did not come about does not occupy a slot
+        if let (true, Some(session_id)) = (res.is_err(), new_session_id) {
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+        res
+    }
+
+    fn write_psk_exchange_response(
+        &mut self,
+        bytes: &[u8],
+        writer: &mut Writer,
+        new_session_id: &mut Option<u32>,
     ) -> SpdmResult {
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionNegotiated.get_u8()
@@ -208,6 +225,7 @@ impl<'a> ResponderContext<'a> {
         let session_id =
             ((rsp_session_id as u32) << 16) + psk_exchange_req.unwrap().req_session_id as u32;
         session.setup(session_id).unwrap();
+        *new_session_id = Some(session_id);
         session.set_use_psk(true);
 
         session.set_crypto_param(hash_algo, dhe_algo, aead_algo, key_schedule_algo);
-- 
2.43.0


From 49d72fb1394d96e02b0203c935d69db46106f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:16 +0000
Subject: [PATCH 27/37] fix: a key update whose new keys could not be derived
 is refused and changes no keys

---
 spdmlib/src/responder/key_update_rsp.rs | 34 +++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/spdmlib/src/responder/key_update_rsp.rs b/spdmlib/src/responder/key_update_rsp.rs
index b088047..9f64bb9 100644
--- a/spdmlib/src/responder/key_update_rsp.rs
+++ b/spdmlib/src/responder/key_update_rsp.rs
@@ -50,22 +50,46 @@ impl<'a> ResponderContext<'a> {
 
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        match key_update_req.key_update_operation {
+        let res = match key_update_req.key_update_operation {
             SpdmKeyUpdateOperation::SpdmUpdateSingleKey => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, false);
+                let res = session.create_data_secret_update(spdm_version_sel, true, false);
+                if res.is_err() {
+                    let _ =
+                        session.activate_data_secret_update(spdm_version_sel, true, false, false);
+                }
+                res
             }
             SpdmKeyUpdateOperation::SpdmUpdateAllKeys => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, true);
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, true, true);
+                let mut res = session.create_data_secret_update(spdm_version_sel, true, false);
+                if res.is_ok() {
+                    res = session.create_data_secret_update(spdm_version_sel, false, true);
+                    if res.is_err() {
+                        let _ = session
+                            .activate_data_secret_update(spdm_version_sel, false, true, false);
+                    }
+                }
+                // the keys of both directions change, or none
+                let _ = session.activate_data_secret_update(
+                    spdm_version_sel,
+                    true,
+                    res.is_ok(),
+                    res.is_ok(),
+                );
+                res
             }
             SpdmKeyUpdateOperation::SpdmVerifyNewKey => {
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, false, true);
+                session.activate_data_secret_update(spdm_version_sel, true, false, true)
             }
             _ => {
                 error!("!!! key_update req : fail !!!\n");
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+        };
+        if res.is_err() {
+            error!("!!! key_update fail !!!\n");
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         }
 
         info!("send spdm key_update rsp\n");
-- 
2.43.0


From c13c98ed98a32a57f960815bf2e3cf292edb58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:16 +0000
Subject: [PATCH 28/37] fix: a vendor defined message whose length exceeds what
 is kept of it is refused

---
 spdmlib/src/message/vendor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index be9fd74..1bcef3d 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -103,6 +103,9 @@ impl Codec for VendorDefinedReqPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedReqPayloadStruct> {
         let req_length = u16::read(r)?;
+        if req_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_req_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_req_payload
             .iter_mut()
@@ -139,6 +142,9 @@ impl Codec for VendorDefinedRspPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedRspPayloadStruct> {
         let rsp_length = u16::read(r)?;
+        if rsp_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_rsp_payload
             .iter_mut()
-- 
2.43.0


From e70dfc08f038d9a56f84c79bcdc922edc9738918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 29/37] fix: a vendor defined request to a device with no
 handler for it is refused, the device does not panic

---
 spdmlib/src/message/vendor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index 1bcef3d..cf819b6 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -7,6 +7,7 @@ use crate::common::spdm_codec::SpdmCodec;
 use crate::config;
 use crate::error::{
     SpdmResult, SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_STATE_LOCAL,
+    SPDM_STATUS_UNSUPPORTED_CAP,
 };
 use codec::{enum_builder, Codec, Reader, Writer};
 
@@ -267,7 +268,7 @@ static VENDOR_DEFNIED: OnceCell<VendorDefinedStruct> = OnceCell::uninit();
 
 static VENDOR_DEFNIED_DEFAULT: VendorDefinedStruct = VendorDefinedStruct {
     vendor_defined_request_handler: |_vendor_defined_req_payload_struct: &VendorDefinedReqPayloadStruct|
-     -> SpdmResult<VendorDefinedRspPayloadStruct> { log::info!("not implement vendor defined struct!!!\n"); unimplemented!() },
+     -> SpdmResult<VendorDefinedRspPayloadStruct> { log::info!("not implement vendor defined struct!!!\n"); Err(SPDM_STATUS_UNSUPPORTED_CAP) },
 };
 
 pub fn register_vendor_defined_struct(context: VendorDefinedStruct) -> bool {
-- 
2.43.0


From 866cdeb4dd9daa82440def5e1b6a9b315f8dc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:49 +0000
Subject: [PATCH 30/37] fix: the DMTF specification id of opaque data is the
 one DSP0277 defines

---
 spdmlib/src/common/opaque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e15ad78..c3a6e9d 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -17,7 +17,7 @@ pub const MAX_SPDM_OPAQUE_SIZE: usize = 1024;
 pub const MAX_SECURE_SPDM_VERSION_COUNT: usize = 0x02;
 pub const MAX_OPAQUE_LIST_ELEMENTS_COUNT: usize = 3;
 
-pub const DMTF_SPEC_ID: u32 = 0x444D546;
+pub const DMTF_SPEC_ID: u32 = 0x444D5446;
 pub const DMTF_OPAQUE_VERSION: u8 = 0x01;
 pub const SM_DATA_VERSION: u8 = 0x01;
 pub const DMTF_ID: u8 = 0x00;
-- 
2.43.0


From 772602453c0cb1c0de09890460cd521c62ce92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:21 +0000
Subject: [PATCH 31/37] fix: a requester selects only a version the responder
 listed

The whole array was sorted, unused entries (1.0) included, before the first
entries were taken: a responder that lists one unsupported version below 1.0
got 1.0 selected, which it never offered.
---
 spdmlib/src/requester/get_version_req.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index c8a9b6e..cb370f5 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -56,14 +56,14 @@ impl<'a> RequesterContext<'a> {
                             mut versions,
                         } = version;
 
+                        // only the entries the peer sent, the rest of the array is filler
+                        let versions = &mut versions[..version_number_entry_count as usize];
                         versions
                             .sort_unstable_by(|a, b| b.version.get_u8().cmp(&a.version.get_u8()));
 
                         self.common.negotiate_info.spdm_version_sel = SpdmVersion::Unknown(0);
 
-                        for spdm_version_struct in
-                            versions.iter().take(version_number_entry_count as usize)
-                        {
+                        for spdm_version_struct in versions.iter() {
                             if self
                                 .common
                                 .config_info
-- 
2.43.0


From 55c31fb11783b82267194154e4ce28594da8915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:29 +0000
Subject: [PATCH 32/37] fix: a requester accepts only algorithms it offered

The selections of ALGORITHMS were stored without comparing them with the
offer, so a responder could pick a digest or signature algorithm the
requester's configuration excludes.
---
 .../src/requester/negotiate_algorithms_req.rs | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index dafdf9a..65ab09c 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -90,6 +90,36 @@ impl<'a> RequesterContext<'a> {
                         if let Some(algorithms) = algorithms {
                             debug!("!!! algorithms : {:02x?}\n", algorithms);
 
+                            // only what this requester offered can be selected
+                            let config = &self.common.config_info;
+                            let offered = config
+                                .measurement_specification
+                                .contains(algorithms.measurement_specification_sel)
+                                && config
+                                    .opaque_support
+                                    .contains(algorithms.other_params_selection)
+                                && config.base_asym_algo.contains(algorithms.base_asym_sel)
+                                && config.base_hash_algo.contains(algorithms.base_hash_sel)
+                                && algorithms
+                                    .alg_struct
+                                    .iter()
+                                    .take(algorithms.alg_struct_count as usize)
+                                    .all(|alg| match &alg.alg_supported {
+                                        SpdmAlg::SpdmAlgoDhe(v) => config.dhe_algo.contains(*v),
+                                        SpdmAlg::SpdmAlgoAead(v) => config.aead_algo.contains(*v),
+                                        SpdmAlg::SpdmAlgoReqAsym(v) => {
+                                            config.req_asym_algo.contains(*v)
+                                        }
+                                        SpdmAlg::SpdmAlgoKeySchedule(v) => {
+                                            config.key_schedule_algo.contains(*v)
+                                        }
+                                        SpdmAlg::SpdmAlgoUnknown(_v) => true,
+                                    });
+                            if !offered {
+                                error!("!!! algorithms : not offered !!!\n");
+                                return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                            }
+
                             self.common.negotiate_info.measurement_specification_sel =
                                 algorithms.measurement_specification_sel;
 
-- 
2.43.0


From 7d33541aa1bdb7dcdf017e9d8f7c2d7442c21997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:03 +0000
Subject: [PATCH 33/37] fix: a certificate portion that brings nothing while
 more remains is refused

---
 spdmlib/src/requester/get_certificate_req.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 5e46537..c03d637 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -117,6 +117,12 @@ impl<'a> RequesterContext<'a> {
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
+                            // A portion that brings nothing while more remains would be
+                            // asked for again and again.
+                            if certificate.portion_length == 0 && certificate.remainder_length != 0
+                            {
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
                             if total_size != 0
                                 && total_size
                                     != offset
-- 
2.43.0


From 5d9b61d1ef4a248f41a870c2b78b18fa5daa9a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:48 +0000
Subject: [PATCH 34/37] fix: a digest measurement is refused when no
 measurement hash was negotiated

SpdmMeasurementHashAlgo::get_size panics on an empty selection, so a
responder could end the requester with a digest in its MEASUREMENTS.
---
 spdmlib/src/common/spdm_codec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index dad3de4..eb7ed38 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -249,8 +249,9 @@ impl SpdmCodec for SpdmDmtfMeasurementStructure {
 
         let measurement_hash_algo = context.negotiate_info.measurement_hash_sel;
         if representation == SpdmDmtfMeasurementRepresentation::SpdmDmtfMeasurementDigest
-            && (value_size != measurement_hash_algo.get_size()
-                || measurement_hash_algo == SpdmMeasurementHashAlgo::RAW_BIT_STREAM)
+            && (measurement_hash_algo.is_empty()
+                || measurement_hash_algo == SpdmMeasurementHashAlgo::RAW_BIT_STREAM
+                || value_size != measurement_hash_algo.get_size())
         {
             return None;
         }
-- 
2.43.0


From e2ce27d2a2a1023ea95bf94c43865225df42c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:00 +0000
Subject: [PATCH 35/37] fix: a requester releases the session whose set-up
 failed

KEY_EXCHANGE_RSP and PSK_EXCHANGE_RSP that failed after the session was
allocated (signature, transcript, keys) left it allocated, so a few forged
responses exhausted all sessions.
---
 spdmlib/src/requester/context.rs          | 20 ++++++++++++++++++--
 spdmlib/src/requester/key_exchange_req.rs |  8 ++++++--
 spdmlib/src/requester/psk_exchange_req.rs |  8 ++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e73026d..d176e52 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -35,6 +35,16 @@ impl<'a> RequesterContext<'a> {
         self.send_receive_spdm_algorithm()
     }
 
+    /// Release the session an exchange that failed has set up, if it came that far.
+    pub(crate) fn release_session(&mut self, req_session_id: u16) {
+        for session in self.common.session.iter_mut() {
+            let session_id = session.get_session_id();
+            if session_id as u16 == req_session_id {
+                let _ = session.teardown(session_id);
+            }
+        }
+    }
+
     pub fn start_session(
         &mut self,
         use_psk: bool,
@@ -47,10 +57,16 @@ impl<'a> RequesterContext<'a> {
             #[cfg(not(feature = "mut-auth"))]
             let req_slot_id: Option<u8> = None;
             #[cfg(feature = "mut-auth")]
-            self.session_based_mutual_authenticate(session_id)?;
+            if let Err(status) = self.session_based_mutual_authenticate(session_id) {
+                self.release_session(session_id as u16);
+                return Err(status);
+            }
             #[cfg(feature = "mut-auth")]
             let req_slot_id = Some(self.common.runtime_info.get_local_used_cert_chain_slot_id());
-            self.send_receive_spdm_finish(req_slot_id, session_id)?;
+            if let Err(status) = self.send_receive_spdm_finish(req_slot_id, session_id) {
+                self.release_session(session_id as u16);
+                return Err(status);
+            }
             Ok(session_id)
         } else {
             let session_id =
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1eaf9bd..83ea5ea 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -54,14 +54,18 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_key_exhcange_response(
+        let result = self.handle_spdm_key_exhcange_response(
             req_session_id,
             slot_id,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
             measurement_summary_hash_type,
             key_exchange_context,
-        )
+        );
+        if result.is_err() {
+            self.release_session(req_session_id);
+        }
+        result
     }
 
     pub fn encode_spdm_key_exchange(
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 7886632..db6d3c2 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -48,13 +48,17 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_psk_exchange_response(
+        let result = self.handle_spdm_psk_exchange_response(
             half_session_id,
             measurement_summary_hash_type,
             &psk_hint,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
-        )
+        );
+        if result.is_err() {
+            self.release_session(half_session_id);
+        }
+        result
     }
 
     pub fn encode_spdm_psk_exchange(
-- 
2.43.0


From 1bd40e41a9775e2c5c0b940bc2d77b825290a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:59 +0000
Subject: [PATCH 36/37] fix: a FINISH_RSP of another version than negotiated is
 refused

Every other response is checked against the negotiated version; this one was
accepted whatever version its header named.
---
 spdmlib/src/requester/finish_req.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1c50b3b..4c8ba62 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -208,6 +208,11 @@ impl<'a> RequesterContext<'a> {
 
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header)
+                if message_header.version != self.common.negotiate_info.spdm_version_sel =>
+            {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseFinishRsp => {
                     let finish_rsp =
-- 
2.43.0


From 95e51322c517b9cda399dae76cd2c43cac8c78cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:59 +0000
Subject: [PATCH 37/37] fix: a requester checks its own FINISH signature by its
 own chain

The chain was cut at the size of the peer's chain in that slot, which need not
exist, and a signature that did not verify was a panic.
---
 spdmlib/src/requester/finish_req.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 4c8ba62..453c28e 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -395,24 +395,21 @@ impl<'a> RequesterContext<'a> {
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
-        let peer_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
-        let peer_cert = &self.common.provision_info.my_cert_chain[peer_slot_id as usize]
+        let local_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
+        let local_cert_chain = self.common.provision_info.my_cert_chain[local_slot_id as usize]
             .as_ref()
-            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
+            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
+        let local_cert = &local_cert_chain.data[(4usize
+            + self.common.negotiate_info.base_hash_sel.get_size() as usize)
+            ..(local_cert_chain.data_size as usize)];
 
         crate::crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
             self.common.negotiate_info.base_asym_sel,
-            peer_cert,
+            local_cert,
             transcript_sign.as_ref(),
             &signature,
-        )
-        .unwrap();
+        )?;
 
         Ok(signature)
     }
-- 
2.43.0

