From 8a64eee48aa5f3b5bf9579dc6f7d2295c78e0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 01/53] hook: satisfy newer Try bound under cfg(kani)

---
 spdmlib/src/error.rs | 6 ++++++
 spdmlib/src/lib.rs   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/spdmlib/src/error.rs b/spdmlib/src/error.rs
index 3f61e93..bb16a56 100644
--- a/spdmlib/src/error.rs
+++ b/spdmlib/src/error.rs
@@ -616,3 +616,9 @@ pub const SPDM_STATUS_LOW_ENTROPY: SpdmStatus = spdm_return_status!(
 );
 
 pub type SpdmResult<T = ()> = core::result::Result<T, SpdmStatus>;
+
+// The compiler behind the Kani verifier is newer than the pinned one and asks for this bound.
+#[cfg(kani)]
+impl core::ops::Residual<()> for SpdmStatus {
+    type TryType = SpdmStatus;
+}
diff --git a/spdmlib/src/lib.rs b/spdmlib/src/lib.rs
index 19f2d33..3643353 100644
--- a/spdmlib/src/lib.rs
+++ b/spdmlib/src/lib.rs
@@ -6,6 +6,7 @@
 #![cfg_attr(not(feature = "std"), no_std)]
 #![feature(stmt_expr_attributes)]
 #![feature(try_trait_v2)]
+#![cfg_attr(kani, feature(try_trait_v2_residual))]
 
 #[macro_use]
 extern crate log;
-- 
2.43.0


From 07dbbd5b425c754d46e740cd9c88276ccc9155a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 02/53] Revert "hook: satisfy newer Try bound under cfg(kani)"

This reverts commit 8a64eee48aa5f3b5bf9579dc6f7d2295c78e0a76.
---
 spdmlib/src/error.rs | 6 ------
 spdmlib/src/lib.rs   | 1 -
 2 files changed, 7 deletions(-)

diff --git a/spdmlib/src/error.rs b/spdmlib/src/error.rs
index bb16a56..3f61e93 100644
--- a/spdmlib/src/error.rs
+++ b/spdmlib/src/error.rs
@@ -616,9 +616,3 @@ pub const SPDM_STATUS_LOW_ENTROPY: SpdmStatus = spdm_return_status!(
 );
 
 pub type SpdmResult<T = ()> = core::result::Result<T, SpdmStatus>;
-
-// The compiler behind the Kani verifier is newer than the pinned one and asks for this bound.
-#[cfg(kani)]
-impl core::ops::Residual<()> for SpdmStatus {
-    type TryType = SpdmStatus;
-}
diff --git a/spdmlib/src/lib.rs b/spdmlib/src/lib.rs
index 3643353..19f2d33 100644
--- a/spdmlib/src/lib.rs
+++ b/spdmlib/src/lib.rs
@@ -6,7 +6,6 @@
 #![cfg_attr(not(feature = "std"), no_std)]
 #![feature(stmt_expr_attributes)]
 #![feature(try_trait_v2)]
-#![cfg_attr(kani, feature(try_trait_v2_residual))]
 
 #[macro_use]
 extern crate log;
-- 
2.43.0


From f26f9c5153e6c7d752e631dcc93cfa11ea0df2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 03/53] fix: refuse GET_CAPABILITIES with a version that was
 not advertised

---
 spdmlib/src/responder/capability_rsp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/responder/capability_rsp.rs b/spdmlib/src/responder/capability_rsp.rs
index 1f0ba40..5caaed4 100644
--- a/spdmlib/src/responder/capability_rsp.rs
+++ b/spdmlib/src/responder/capability_rsp.rs
@@ -35,6 +35,10 @@ impl<'a> ResponderContext<'a> {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+            if !self.common.config_info.spdm_version.contains(&version) {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorVersionMismatch, 0, writer);
+                return;
+            }
             self.common.negotiate_info.spdm_version_sel = version;
         } else {
             error!("!!! get_capabilities : fail !!!\n");
-- 
2.43.0


From 96fa8fb4b7e323dc7c6b6327ab9e464a1b4d7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 04/53] fix: rebuild the certificate chains for the hash
 algorithm negotiated now

---
 spdmlib/src/common/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 0202a98..aa08ca8 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -241,9 +241,8 @@ impl<'a> SpdmContext<'a> {
 
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.provision_info.my_cert_chain[slot_id].is_none()
-                && self.provision_info.my_cert_chain_data[slot_id].is_some()
-            {
+            // the root certificate hash depends on the negotiated hash algorithm
+            if self.provision_info.my_cert_chain_data[slot_id].is_some() {
                 let cert_chain = self.provision_info.my_cert_chain_data[slot_id]
                     .as_ref()
                     .unwrap();
-- 
2.43.0


From d23296a4e3df854841114be40ec49a529595c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 05/53] fix: tolerate opaque formats the code does not know in
 NEGOTIATE_ALGORITHMS

---
 spdmlib/src/common/opaque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e15ad78..d4b194b 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -618,7 +618,7 @@ impl Codec for SpdmOpaqueSupport {
     fn read(r: &mut Reader) -> Option<SpdmOpaqueSupport> {
         let bits = u8::read(r)?;
 
-        SpdmOpaqueSupport::from_bits(bits)
+        SpdmOpaqueSupport::from_bits(bits & SpdmOpaqueSupport::VALID_MASK.bits)
     }
 }
 
-- 
2.43.0


From cb8e73575b9b07a63f9e7a5360fa86a60f4d877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 06/53] fix: SHA3-384 and SHA3-512 are valid measurement hash
 algorithms

---
 spdmlib/src/protocol/algo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 600c976..e1a07cc 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -118,8 +118,8 @@ bitflags! {
             | Self::TPM_ALG_SHA_384.bits
             | Self::TPM_ALG_SHA_512.bits
             | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
+            | Self::TPM_ALG_SHA3_384.bits
+            | Self::TPM_ALG_SHA3_512.bits
             | Self::TPM_ALG_SM3.bits;
     }
 }
-- 
2.43.0


From c5fee9185723afc04c7f7c6a7dde64218f7a1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 07/53] fix: refuse records after the last sequence number and
 data that does not fit

---
 spdmlib/src/common/session.rs | 66 ++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 31665d1..e99ad65 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -807,7 +807,11 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    self.handshake_secret.request_direction.sequence_number = self
+                        .handshake_secret
+                        .request_direction
+                        .sequence_number
+                        .saturating_add(1);
                     r
                 } else {
                     let r = self.encode_msg(
@@ -815,7 +819,11 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    self.handshake_secret.response_direction.sequence_number = self
+                        .handshake_secret
+                        .response_direction
+                        .sequence_number
+                        .saturating_add(1);
                     r
                 }
             }
@@ -826,7 +834,11 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    self.application_secret.request_direction.sequence_number = self
+                        .application_secret
+                        .request_direction
+                        .sequence_number
+                        .saturating_add(1);
                     r
                 } else {
                     let r = self.encode_msg(
@@ -834,7 +846,11 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    self.application_secret.response_direction.sequence_number = self
+                        .application_secret
+                        .response_direction
+                        .sequence_number
+                        .saturating_add(1);
                     r
                 }
             }
@@ -857,7 +873,11 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    self.handshake_secret.request_direction.sequence_number = self
+                        .handshake_secret
+                        .request_direction
+                        .sequence_number
+                        .saturating_add(1);
                     r
                 } else {
                     let r = self.decode_msg(
@@ -865,7 +885,11 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    self.handshake_secret.response_direction.sequence_number = self
+                        .handshake_secret
+                        .response_direction
+                        .sequence_number
+                        .saturating_add(1);
                     r
                 }
             }
@@ -876,7 +900,11 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    self.application_secret.request_direction.sequence_number = self
+                        .application_secret
+                        .request_direction
+                        .sequence_number
+                        .saturating_add(1);
                     r
                 } else {
                     let r = self.decode_msg(
@@ -884,7 +912,11 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    self.application_secret.response_direction.sequence_number = self
+                        .application_secret
+                        .response_direction
+                        .sequence_number
+                        .saturating_add(1);
                     r
                 }
             }
@@ -907,13 +939,21 @@ impl SpdmSession {
 
         let mut aad_buffer = [0u8; 6 + 8];
         let mut writer = Writer::init(&mut aad_buffer);
-        let app_length = app_buffer.len() as u16;
-        let length = cipher_text_size as u16 + tag_size as u16;
 
         if secret_param.sequence_number == 0xFFFFFFFFFFFFFFFFu64 {
             return Err(SPDM_STATUS_SEQUENCE_NUMBER_OVERFLOW);
         }
 
+        let aad_size = 6 + transport_param.sequence_number_count as usize;
+        if cipher_text_size > config::SENDER_BUFFER_SIZE
+            || cipher_text_size + tag_size > u16::MAX as usize
+            || aad_size + cipher_text_size + tag_size > secured_buffer.len()
+        {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
+        let app_length = app_buffer.len() as u16;
+        let length = (cipher_text_size + tag_size) as u16;
+
         session_id
             .encode(&mut writer)
             .map_err(|_| SPDM_STATUS_BUFFER_TOO_SMALL)?;
@@ -928,8 +968,7 @@ impl SpdmSession {
         length
             .encode(&mut writer)
             .map_err(|_| SPDM_STATUS_BUFFER_TOO_SMALL)?;
-        let aad_size = writer.used();
-        assert_eq!(aad_size, 6 + transport_param.sequence_number_count as usize);
+        assert_eq!(aad_size, writer.used());
 
         let mut plain_text_buf = [0; config::SENDER_BUFFER_SIZE];
         let mut writer = Writer::init(&mut plain_text_buf);
@@ -1047,6 +1086,9 @@ impl SpdmSession {
         if ret_plain_text_size < app_length + 2 {
             return Err(SPDM_STATUS_DECODE_AEAD_FAIL);
         }
+        if app_buffer.len() < app_length {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
 
         app_buffer[..app_length].copy_from_slice(&plain_text_buf[2..(app_length + 2)]);
         Ok(app_length)
-- 
2.43.0


From be915430c71f0c0b3b3c6fc0fc6751451f3dfc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 08/53] fix: responder answers KEY_UPDATE with ERROR and keeps
 its keys when a new key cannot be derived

---
 spdmlib/src/common/session.rs           | 13 ++++++++-----
 spdmlib/src/responder/key_update_rsp.rs | 20 ++++++++++++++++++--
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index e99ad65..76540d9 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -582,6 +582,14 @@ impl SpdmSession {
         let hash_algo = self.crypto_param.base_hash_algo;
         let aead_algo = self.crypto_param.aead_algo;
 
+        // save all secrets first, so that a failure below can be undone
+        if update_responder {
+            self.application_secret_backup.response_data_secret =
+                self.application_secret.response_data_secret.clone();
+            self.application_secret_backup.response_direction =
+                self.application_secret.response_direction.clone();
+        }
+
         if update_requester {
             self.application_secret_backup.request_data_secret =
                 self.application_secret.request_data_secret.clone();
@@ -632,11 +640,6 @@ impl SpdmSession {
         }
 
         if update_responder {
-            self.application_secret_backup.response_data_secret =
-                self.application_secret.response_data_secret.clone();
-            self.application_secret_backup.response_direction =
-                self.application_secret.response_direction.clone();
-
             self.application_secret.response_data_secret = if let Some(us) =
                 self.key_schedule.derive_update_secret(
                     spdm_version,
diff --git a/spdmlib/src/responder/key_update_rsp.rs b/spdmlib/src/responder/key_update_rsp.rs
index b088047..30009b8 100644
--- a/spdmlib/src/responder/key_update_rsp.rs
+++ b/spdmlib/src/responder/key_update_rsp.rs
@@ -52,10 +52,26 @@ impl<'a> ResponderContext<'a> {
         let session = self.common.get_session_via_id(session_id).unwrap();
         match key_update_req.key_update_operation {
             SpdmKeyUpdateOperation::SpdmUpdateSingleKey => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, false);
+                if session
+                    .create_data_secret_update(spdm_version_sel, true, false)
+                    .is_err()
+                {
+                    let _ =
+                        session.activate_data_secret_update(spdm_version_sel, true, false, false);
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                }
             }
             SpdmKeyUpdateOperation::SpdmUpdateAllKeys => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, true);
+                if session
+                    .create_data_secret_update(spdm_version_sel, true, true)
+                    .is_err()
+                {
+                    let _ =
+                        session.activate_data_secret_update(spdm_version_sel, true, true, false);
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                }
                 let _ = session.activate_data_secret_update(spdm_version_sel, true, true, true);
             }
             SpdmKeyUpdateOperation::SpdmVerifyNewKey => {
-- 
2.43.0


From a4db4ad12089d0d4d4bc94c4df67ae34c18c1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 09/53] fix: requester keeps the old keys when KEY_UPDATE is
 not acknowledged

---
 spdmlib/src/requester/key_update_req.rs | 35 +++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 9777323..234faa7 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -37,16 +37,35 @@ impl<'a> RequesterContext<'a> {
         let update_requester = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateSingleKey
             || key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
         let update_responder = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
-        session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)?;
-        let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-
-        self.handle_spdm_key_update_op_response(
-            session_id,
+        let mut result = session.create_data_secret_update(
+            spdm_version_sel,
             update_requester,
             update_responder,
-            &receive_buffer[..used],
-        )
+        );
+        if result.is_ok() {
+            let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
+            result = match self.receive_secured_message(session_id, &mut receive_buffer, false) {
+                Ok(used) => self.handle_spdm_key_update_op_response(
+                    session_id,
+                    update_requester,
+                    update_responder,
+                    &receive_buffer[..used],
+                ),
+                Err(e) => Err(e),
+            };
+        }
+        if result.is_err() {
+            // not acknowledged, the old keys stay in use
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                session.activate_data_secret_update(
+                    spdm_version_sel,
+                    update_requester,
+                    update_responder,
+                    false,
+                )?;
+            }
+        }
+        result
     }
 
     pub fn encode_spdm_key_update_op(
-- 
2.43.0


From 732ea0043b1e5e05e0a846e581f17274d73793b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 10/53] fix: an ERROR replaces a response that could not be
 completed instead of following it

---
 codec/src/codec.rs                       | 5 +++++
 spdmlib/src/responder/challenge_rsp.rs   | 2 +-
 spdmlib/src/responder/error_rsp.rs       | 2 ++
 spdmlib/src/responder/measurement_rsp.rs | 2 +-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec.rs b/codec/src/codec.rs
index 46ebe51..abca261 100644
--- a/codec/src/codec.rs
+++ b/codec/src/codec.rs
@@ -101,6 +101,11 @@ impl<'a> Writer<'a> {
     pub fn mut_used_slice(&mut self) -> &mut [u8] {
         &mut self.buf[..self.offs]
     }
+
+    /// Discards everything written so far.
+    pub fn clear(&mut self) {
+        self.offs = 0;
+    }
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 5974d33..1272d4b 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -172,7 +172,7 @@ impl<'a> ResponderContext<'a> {
 
         let signature = self.generate_challenge_auth_signature();
         if signature.is_err() {
-            self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
         let signature = signature.unwrap();
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a8c3f76..c61639e 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -27,6 +27,8 @@ impl<'a> ResponderContext<'a> {
                 ),
             }),
         };
+        // the error replaces whatever has been written of another response
+        writer.clear();
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index f4d53e7..390f827 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -230,7 +230,7 @@ impl<'a> ResponderContext<'a> {
 
             let signature = self.generate_measurement_signature(session_id);
             if signature.is_err() {
-                self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
             let signature = signature.unwrap();
-- 
2.43.0


From 3b43a03ab6be3af4a2bec65985704a64348d9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 11/53] fix: answer a failed session setup with its ERROR and
 free the session slot

---
 spdmlib/src/responder/context.rs          | 13 +++++++++++++
 spdmlib/src/responder/finish_rsp.rs       | 13 +++++++++----
 spdmlib/src/responder/key_exchange_rsp.rs | 14 +++++++++++---
 spdmlib/src/responder/psk_exchange_rsp.rs | 21 +++++++++++++++------
 spdmlib/src/responder/psk_finish_rsp.rs   | 11 ++++++++---
 5 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 357fdab..968cd28 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -4,6 +4,7 @@
 
 use super::app_message_handler::dispatch_secured_app_message_cb;
 use crate::common::SpdmConnectionState;
+use crate::common::INVALID_SESSION_ID;
 use crate::common::{session::SpdmSessionState, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
 use crate::error::{SpdmResult, SPDM_STATUS_UNSUPPORTED_CAP};
@@ -32,6 +33,18 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
+    /// Frees the session slots taken since `sessions` was read, when an exchange fails half way.
+    pub(crate) fn release_new_sessions(
+        &mut self,
+        sessions: &[(u32, SpdmSessionState); config::MAX_SPDM_SESSION_COUNT],
+    ) {
+        for (session, (session_id, _)) in self.common.session.iter_mut().zip(sessions) {
+            if *session_id == INVALID_SESSION_ID && session.get_session_id() != INVALID_SESSION_ID {
+                session.set_default();
+            }
+        }
+    }
+
     pub fn send_message(&mut self, send_buffer: &[u8]) -> SpdmResult {
         if self.common.negotiate_info.req_data_transfer_size_sel != 0
             && (send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize)
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 2412a7a..3a5e97f 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -32,12 +32,13 @@ impl<'a> ResponderContext<'a> {
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_finish_response(session_id, bytes, &mut writer)?;
+        let result = self.write_spdm_finish_response(session_id, bytes, &mut writer);
         if in_clear_text {
-            self.send_message(writer.used_slice())
+            self.send_message(writer.used_slice())?;
         } else {
-            self.send_secured_message(session_id, writer.used_slice(), false)
+            self.send_secured_message(session_id, writer.used_slice(), false)?;
         }
+        result
     }
 
     // Return true on success, false otherwise.
@@ -292,7 +293,11 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        if let Err(e) = session.generate_data_secret(spdm_version_sel, &th2) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(e);
+        }
+        Ok(())
     }
 
     #[cfg(not(feature = "hashed-transcript-data"))]
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 66321b5..6b99767 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,8 +25,13 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_key_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let sessions = self.common.get_session_status();
+        let result = self.write_spdm_key_exchange_response(bytes, &mut writer);
+        if result.is_err() {
+            self.release_new_sessions(&sessions);
+        }
+        self.send_message(writer.used_slice())?;
+        result
     }
 
     pub fn write_spdm_key_exchange_response(
@@ -369,7 +374,10 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if let Err(e) = session.generate_handshake_secret(spdm_version_sel, &th1) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(e);
+        }
 
         if !in_clear_text {
             let session = self
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 06a49d5..4bf0276 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,8 +25,13 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let sessions = self.common.get_session_status();
+        let result = self.write_spdm_psk_exchange_response(bytes, &mut writer);
+        if result.is_err() {
+            self.release_new_sessions(&sessions);
+        }
+        self.send_message(writer.used_slice())?;
+        result
     }
 
     pub fn write_spdm_psk_exchange_response(
@@ -285,7 +290,10 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if let Err(e) = session.generate_handshake_secret(spdm_version_sel, &th1) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(e);
+        }
 
         let session = self
             .common
@@ -346,9 +354,10 @@ impl<'a> ResponderContext<'a> {
             debug!("!!! th2 : {:02x?}\n", th2.as_ref());
             let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
             let session = self.common.get_session_via_id(session_id).unwrap();
-            session
-                .generate_data_secret(spdm_version_sel, &th2)
-                .unwrap();
+            if let Err(e) = session.generate_data_secret(spdm_version_sel, &th2) {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return Err(e);
+            }
             session.set_session_state(
                 crate::common::session::SpdmSessionState::SpdmSessionEstablished,
             );
diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index 5134fa2..7b26f89 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -15,8 +15,9 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_finish(&mut self, session_id: u32, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_finish_response(session_id, bytes, &mut writer)?;
-        self.send_secured_message(session_id, writer.used_slice(), false)
+        let result = self.write_spdm_psk_finish_response(session_id, bytes, &mut writer);
+        self.send_secured_message(session_id, writer.used_slice(), false)?;
+        result
     }
 
     // Return true on success, false otherwise
@@ -166,6 +167,10 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        if let Err(e) = session.generate_data_secret(spdm_version_sel, &th2) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(e);
+        }
+        Ok(())
     }
 }
-- 
2.43.0


From 12b2c36955cba19fe9afb07ebf7d12885fdee5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 12/53] fix: KEY_EXCHANGE_RSP carries its signature when the
 handshake is in the clear

---
 spdmlib/src/responder/key_exchange_rsp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 6b99767..c8f4c93 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -422,6 +422,10 @@ impl<'a> ResponderContext<'a> {
                 [(used - base_hash_size - base_asym_size)..(used - base_hash_size)]
                 .copy_from_slice(signature.as_ref());
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
+        } else {
+            // without verify_data the signature ends the message
+            writer.mut_used_slice()[(used - base_asym_size)..used]
+                .copy_from_slice(signature.as_ref());
         }
 
         let heartbeat_period = self.common.config_info.heartbeat_period;
-- 
2.43.0


From 7a7144c10809dd74cbf8bb9200a61bf14e878ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 13/53] fix: PSK_EXCHANGE_RSP context is random when there is
 one

---
 spdmlib/src/responder/psk_exchange_rsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 4bf0276..e5849ed 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -175,7 +175,7 @@ impl<'a> ResponderContext<'a> {
             MAX_SPDM_PSK_CONTEXT_SIZE as u16
         };
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-        if psk_without_context {
+        if !psk_without_context {
             let res = crypto::rand::get_random(&mut psk_context);
             if res.is_err() {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-- 
2.43.0


From 36a58f9b64bfc6ffc642bcdd88a40623aef3dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 14/53] fix: DIGESTS carries the digest of every provisioned
 slot

---
 spdmlib/src/responder/digest_rsp.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index b1b7ef2..6ebe247 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -110,6 +110,8 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        // one digest per provisioned slot, in slot order, at the end of the message
+        let mut digest_offset = writer.used() - slot_mask.count_ones() as usize * digest_size as usize;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
             if self.common.provision_info.my_cert_chain[slot_id].is_some() {
                 let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
@@ -118,13 +120,18 @@ impl<'a> ResponderContext<'a> {
                 let cert_chain_hash = crypto::hash::hash_all(
                     self.common.negotiate_info.base_hash_sel,
                     my_cert_chain.as_ref(),
-                )
-                .unwrap();
+                );
+                let cert_chain_hash = if let Some(hash) = cert_chain_hash {
+                    hash
+                } else {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                };
 
                 // patch the message before send
-                let used = writer.used();
-                writer.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
+                writer.mut_used_slice()[digest_offset..digest_offset + digest_size as usize]
                     .copy_from_slice(cert_chain_hash.as_ref());
+                digest_offset += digest_size as usize;
             }
         }
 
-- 
2.43.0


From 6cd03d8e7c3e2fad9e2004655c1bc96af596cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 15/53] fix: responder takes application data only in
 established sessions and never as a message

---
 spdmlib/src/responder/context.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 968cd28..cbc7549 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -130,7 +130,8 @@ impl<'a> ResponderContext<'a> {
             is_app_message,
         )?;
         let result = self.common.device_io.send(&transport_buffer[..used]);
-        if result.is_ok() {
+        // application data has no opcode
+        if result.is_ok() && !is_app_message {
             let opcode = send_buffer[1];
             // change state after message is sent.
             if opcode == SpdmRequestResponseCode::SpdmResponseEndSessionAck.get_u8() {
@@ -381,8 +382,15 @@ impl<'a> ResponderContext<'a> {
     ) -> SpdmResult {
         debug!("dispatching secured app message\n");
 
+        // application data belongs to the application phase only
+        match self.common.get_immutable_session_via_id(session_id) {
+            Some(session)
+                if session.get_session_state() == SpdmSessionState::SpdmSessionEstablished => {}
+            _ => return Err(SPDM_STATUS_UNSUPPORTED_CAP),
+        }
+
         let (rsp_app_buffer, size) =
-            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data).unwrap();
+            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
     }
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
-- 
2.43.0


From e46ff2256b61533ce18b20aeb411554bd2723c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 16/53] fix: responder answers ERROR instead of panicking when
 a digest, key pair or measurement is not to be had

---
 spdmlib/src/responder/challenge_rsp.rs    |  9 +++++++--
 spdmlib/src/responder/key_exchange_rsp.rs |  8 ++++++--
 spdmlib/src/responder/measurement_rsp.rs  | 22 +++++++++++++++-------
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 1272d4b..ddfaeab 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -114,8 +114,13 @@ impl<'a> ResponderContext<'a> {
         let cert_chain_hash = crypto::hash::hash_all(
             self.common.negotiate_info.base_hash_sel,
             my_cert_chain.as_ref(),
-        )
-        .unwrap();
+        );
+        let cert_chain_hash = if let Some(hash) = cert_chain_hash {
+            hash
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        };
 
         let mut nonce = [0u8; SPDM_NONCE_SIZE];
         let res = crypto::rand::get_random(&mut nonce);
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index c8f4c93..590f9b5 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -185,8 +185,12 @@ impl<'a> ResponderContext<'a> {
             .runtime_info
             .set_local_used_cert_chain_slot_id(key_exchange_req.slot_id);
 
-        let (exchange, key_exchange_context) =
-            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel).unwrap();
+        let key_pair = crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel);
+        if key_pair.is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        let (exchange, key_exchange_context) = key_pair.unwrap();
 
         debug!("!!! exchange data : {:02x?}\n", exchange);
 
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 390f827..5a45332 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -117,14 +117,18 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        let real_measurement_block_count = secret::measurement::measurement_collection(
+        let total_number = secret::measurement::measurement_collection(
             spdm_version_sel,
             measurement_specification_sel,
             measurement_hash_sel,
             SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
-        )
-        .unwrap()
-        .number_of_blocks;
+        );
+        let real_measurement_block_count = if let Some(record) = total_number {
+            record.number_of_blocks
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        };
 
         let number_of_measurement: u8 = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
@@ -144,7 +148,6 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
             )
-            .unwrap()
         } else if let SpdmMeasurementOperation::Unknown(index) =
             get_measurements.measurement_operation
         {
@@ -158,9 +161,14 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 index as usize,
             )
-            .unwrap()
         } else {
-            SpdmMeasurementRecordStructure::default()
+            Some(SpdmMeasurementRecordStructure::default())
+        };
+        let measurement_record = if let Some(record) = measurement_record {
+            record
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         };
 
         let content_changed = if runtime_content_change_support
-- 
2.43.0


From 4d5b82625c407f932d012c2cb90bdffbde83dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 17/53] fix: MEASUREMENTS reports the total number also when it
 is one

---
 spdmlib/src/message/measurement.rs       | 12 ++++--------
 spdmlib/src/responder/measurement_rsp.rs |  7 +++----
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 01a5e03..432b910 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -149,14 +149,10 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         //When Param2 in the requested measurement operation is 0 , this
         //parameter shall return the total number of measurement indices on
         //the device. Otherwise, this field is reserved.
-        if self.number_of_measurement == 1 {
-            cnt += 0_u8.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        } else {
-            cnt += self
-                .number_of_measurement
-                .encode(bytes)
-                .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        }
+        cnt += self
+            .number_of_measurement
+            .encode(bytes)
+            .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
         if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
             && context.runtime_info.need_measurement_signature
         {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 5a45332..6efd5d7 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -130,14 +130,13 @@ impl<'a> ResponderContext<'a> {
             return;
         };
 
+        // the total number, if it was asked for; reserved otherwise
         let number_of_measurement: u8 = if get_measurements.measurement_operation
-            == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-            || get_measurements.measurement_operation
-                == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
+            == SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber
         {
             real_measurement_block_count
         } else {
-            1
+            0
         };
         let measurement_record = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-- 
2.43.0


From a931d61900d5c815e5a22b69ee7e0afbf65717bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 18/53] fix: a refused GET_CERTIFICATE or GET_MEASUREMENTS does
 not enter the transcript

---
 spdmlib/src/responder/certificate_rsp.rs | 28 ++++++++++++------------
 spdmlib/src/responder/measurement_rsp.rs | 18 +++++++--------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index 29217bc..108678c 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -65,20 +65,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let get_certificate = get_certificate.unwrap();
         let slot_id = get_certificate.slot_id as usize;
         if slot_id >= SPDM_MAX_SLOT_NUMBER {
@@ -136,6 +122,20 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        match session_id {
+            None => {
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .is_err()
+                {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                }
+            }
+            Some(_session_id) => {}
+        }
+
         match session_id {
             None => {
                 if self.common.append_message_b(writer.used_slice()).is_err() {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 6efd5d7..64e2843 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -108,15 +108,6 @@ impl<'a> ResponderContext<'a> {
         let content_changed = self.common.runtime_info.content_changed;
         let base_asym_sel = self.common.negotiate_info.base_asym_sel;
 
-        if self
-            .common
-            .append_message_m(session_id, &bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         let total_number = secret::measurement::measurement_collection(
             spdm_version_sel,
             measurement_specification_sel,
@@ -185,6 +176,15 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        if self
+            .common
+            .append_message_m(session_id, &bytes[..reader.used()])
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+
         info!("send spdm measurement\n");
 
         let response = SpdmMessage {
-- 
2.43.0


From 730771aca2c22074a408775dff7bfdb21aff1195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 19/53] fix: the authenticated state differs from the one after
 GET_CERTIFICATE

---
 spdmlib/src/common/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index aa08ca8..43859a6 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -42,7 +42,7 @@ enum_builder! {
         SpdmConnectionAfterCertificate => 0x5,
         // After CHALLENGE/CHALLENGE_AUTH,
         // and ENCAP CHALLENGE/CHALLENGE_AUTH if MUT_AUTH is enabled.
-        SpdmConnectionAuthenticated => 0x5
+        SpdmConnectionAuthenticated => 0x6
     }
 }
 impl Default for SpdmConnectionState {
-- 
2.43.0


From a8bc95bb5d3c24018a82fa265602aae24af1391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 20/53] fix: refuse requests that depend on an algorithm
 negotiation left unselected

---
 spdmlib/src/responder/context.rs | 41 ++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index cbc7549..4304095 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -238,6 +238,31 @@ impl<'a> ResponderContext<'a> {
         Ok((used, secured_message))
     }
 
+    /// Whether negotiation left an algorithm unselected without which the request cannot be served.
+    fn lacks_algorithm(&self, request: SpdmRequestResponseCode) -> bool {
+        let connection_state = self.common.runtime_info.get_connection_state().get_u8();
+        if connection_state < SpdmConnectionState::SpdmConnectionNegotiated.get_u8() {
+            // the requests concerned are refused as unexpected
+            return false;
+        }
+        let selected = &self.common.negotiate_info;
+        let hash = selected.base_hash_sel.is_empty();
+        let asym = selected.base_asym_sel.is_empty();
+        let aead = selected.aead_sel.is_empty();
+        let schedule = selected.key_schedule_sel.is_empty();
+        match request {
+            SpdmRequestResponseCode::SpdmRequestGetDigests
+            | SpdmRequestResponseCode::SpdmRequestGetCertificate => hash,
+            SpdmRequestResponseCode::SpdmRequestChallenge
+            | SpdmRequestResponseCode::SpdmRequestGetMeasurements => hash || asym,
+            SpdmRequestResponseCode::SpdmRequestKeyExchange => {
+                hash || asym || aead || schedule || selected.dhe_sel.is_empty()
+            }
+            SpdmRequestResponseCode::SpdmRequestPskExchange => hash || aead || schedule,
+            _ => false,
+        }
+    }
+
     fn dispatch_secured_message(&mut self, session_id: u32, bytes: &[u8]) -> SpdmResult {
         let mut reader = Reader::init(bytes);
 
@@ -317,6 +342,15 @@ impl<'a> ResponderContext<'a> {
             }
             SpdmSessionState::SpdmSessionEstablished => {
                 match SpdmMessageHeader::read(&mut reader) {
+                    Some(message_header)
+                        if self.lacks_algorithm(message_header.request_response_code) =>
+                    {
+                        self.handle_error_request(
+                            SpdmErrorCode::SpdmErrorUnsupportedRequest,
+                            Some(session_id),
+                            bytes,
+                        )
+                    }
                     Some(message_header) => match message_header.request_response_code {
                         SpdmRequestResponseCode::SpdmRequestGetDigests => {
                             self.handle_spdm_digest(bytes, Some(session_id))
@@ -396,6 +430,13 @@ impl<'a> ResponderContext<'a> {
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut reader = Reader::init(bytes);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header) if self.lacks_algorithm(message_header.request_response_code) => {
+                self.handle_error_request(
+                    SpdmErrorCode::SpdmErrorUnsupportedRequest,
+                    None,
+                    bytes,
+                )
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmRequestGetVersion => self.handle_spdm_version(bytes),
                 SpdmRequestResponseCode::SpdmRequestGetCapabilities => {
-- 
2.43.0


From 663e3ccc1a30bb504679a8ded51340997a153215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 21/53] fix: DMTF registry id of opaque data

---
 spdmlib/src/common/opaque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index d4b194b..e8eaefd 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -17,7 +17,7 @@ pub const MAX_SPDM_OPAQUE_SIZE: usize = 1024;
 pub const MAX_SECURE_SPDM_VERSION_COUNT: usize = 0x02;
 pub const MAX_OPAQUE_LIST_ELEMENTS_COUNT: usize = 3;
 
-pub const DMTF_SPEC_ID: u32 = 0x444D546;
+pub const DMTF_SPEC_ID: u32 = 0x444D5446;
 pub const DMTF_OPAQUE_VERSION: u8 = 0x01;
 pub const SM_DATA_VERSION: u8 = 0x01;
 pub const DMTF_ID: u8 = 0x00;
-- 
2.43.0


From e79c789b26767ba831c02c50fd8e43c7e1d4b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 22/53] fix: reject vendor-defined payload lengths beyond the
 payload buffer

---
 spdmlib/src/message/vendor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index be9fd74..1bcef3d 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -103,6 +103,9 @@ impl Codec for VendorDefinedReqPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedReqPayloadStruct> {
         let req_length = u16::read(r)?;
+        if req_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_req_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_req_payload
             .iter_mut()
@@ -139,6 +142,9 @@ impl Codec for VendorDefinedRspPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedRspPayloadStruct> {
         let rsp_length = u16::read(r)?;
+        if rsp_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_rsp_payload
             .iter_mut()
-- 
2.43.0


From 1fd6fbc7879eac87a2c99baf05df009f488de4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 23/53] fix: reject certificate portions longer than the
 portion buffer

---
 spdmlib/src/message/certificate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spdmlib/src/message/certificate.rs b/spdmlib/src/message/certificate.rs
index f52a6f1..91d845f 100644
--- a/spdmlib/src/message/certificate.rs
+++ b/spdmlib/src/message/certificate.rs
@@ -108,6 +108,9 @@ impl SpdmCodec for SpdmCertificateResponsePayload {
         let slot_id = u8::read(r)?; // param1
         u8::read(r)?; // param2
         let portion_length = u16::read(r)?;
+        if portion_length as usize > MAX_SPDM_CERT_PORTION_LEN {
+            return None;
+        }
         let remainder_length = u16::read(r)?;
         let mut response = SpdmCertificateResponsePayload {
             slot_id,
-- 
2.43.0


From 9d7a5c1b08558b9aa087b30d0a44307073654362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 24/53] fix: refuse FINISH of a PSK session before decoding it

---
 spdmlib/src/responder/finish_rsp.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 3a5e97f..2ff3cc7 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -65,6 +65,18 @@ impl<'a> ResponderContext<'a> {
             Some(session_id),
         );
 
+        // a PSK session is finished by PSK_FINISH, and the signature algorithm that the
+        // size of a FINISH request depends on might not have been negotiated.
+        if self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .unwrap()
+            .get_use_psk()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+        }
+
         let finish_req = SpdmFinishRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(finish_req) = &finish_req {
             debug!("!!! finish req : {:02x?}\n", finish_req);
@@ -132,13 +144,6 @@ impl<'a> ResponderContext<'a> {
         let base_hash_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
 
         {
-            let session = self.common.get_session_via_id(session_id).unwrap();
-
-            if session.get_use_psk() {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-            }
-
             let session = self
                 .common
                 .get_immutable_session_via_id(session_id)
-- 
2.43.0


From 518178b77a6d791bcf4717ed4ef7caf3eecea670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 25/53] fix: answer a refused encapsulated request once, in the
 session

---
 spdmlib/src/responder/encap_rsp.rs | 48 ++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4b8044e..f4221e7 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -9,7 +9,8 @@ use crate::{
     config,
     error::{
         SpdmResult, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_MSG_FIELD,
-        SPDM_STATUS_INVALID_MSG_SIZE, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_UNSUPPORTED_CAP,
+        SPDM_STATUS_INVALID_MSG_SIZE, SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_NOT_READY_PEER,
+        SPDM_STATUS_UNSUPPORTED_CAP,
     },
     message::{
         SpdmDeliverEncapsulatedResponsePayload, SpdmEncapsulatedRequestPayload,
@@ -26,11 +27,15 @@ impl<'a> ResponderContext<'a> {
         let mut encapsulated_request = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encapsulated_request);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
-            &mut writer,
-        );
-        self.write_encap_request_response(bytes, &mut writer);
+        if self
+            .encap_check_version_cap_state(
+                SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
+                &mut writer,
+            )
+            .is_ok()
+        {
+            self.write_encap_request_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -81,11 +86,15 @@ impl<'a> ResponderContext<'a> {
         let mut encap_response_ack = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encap_response_ack);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
-            &mut writer,
-        );
-        self.write_encap_response_ack_response(bytes, &mut writer);
+        if self
+            .encap_check_version_cap_state(
+                SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse.get_u8(),
+                &mut writer,
+            )
+            .is_ok()
+        {
+            self.write_encap_response_ack_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -119,14 +128,20 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
-    fn encap_check_version_cap_state(&mut self, request_response_code: u8, writer: &mut Writer) {
+    fn encap_check_version_cap_state(
+        &mut self,
+        request_response_code: u8,
+        writer: &mut Writer,
+    ) -> SpdmResult {
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             < SpdmVersion::SpdmVersion11.get_u8()
         {
-            self.send_spdm_error(
+            self.write_spdm_error(
                 SpdmErrorCode::SpdmErrorUnsupportedRequest,
                 request_response_code,
-            )
+                writer,
+            );
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
         }
 
         if !self
@@ -145,14 +160,17 @@ impl<'a> ResponderContext<'a> {
                 request_response_code,
                 writer,
             );
-            return;
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
         }
 
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
+
+        Ok(())
     }
 
     fn process_encapsulated_response(
-- 
2.43.0


From a6bce4a744d375d96a1521fbc47b9f42e141815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 26/53] fix: select a version only among those the responder
 listed

---
 spdmlib/src/requester/get_version_req.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index c8a9b6e..598ad77 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -56,7 +56,7 @@ impl<'a> RequesterContext<'a> {
                             mut versions,
                         } = version;
 
-                        versions
+                        versions[..version_number_entry_count as usize]
                             .sort_unstable_by(|a, b| b.version.get_u8().cmp(&a.version.get_u8()));
 
                         self.common.negotiate_info.spdm_version_sel = SpdmVersion::Unknown(0);
-- 
2.43.0


From bbf8f2d0f5c3bf9b10b011e25df1401aa8f44606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 27/53] fix: require version 1.0 of a VERSION response

---
 spdmlib/src/requester/get_version_req.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index 598ad77..a73bc91 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -45,6 +45,10 @@ impl<'a> RequesterContext<'a> {
         match SpdmMessageHeader::read(&mut reader) {
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseVersion => {
+                    // DSP0274: a VERSION response always carries version 1.0
+                    if message_header.version != SpdmVersion::SpdmVersion10 {
+                        return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                    }
                     let version =
                         SpdmVersionResponsePayload::spdm_read(&mut self.common, &mut reader);
                     let used = reader.used();
-- 
2.43.0


From b0f17da7790bfbf05fe6a9f203a02029deb67563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 28/53] fix: GET_VERSION drops what the requester holds of an
 earlier connection

---
 spdmlib/src/requester/get_version_req.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index a73bc91..dd3e96d 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -11,8 +11,8 @@ use crate::requester::*;
 
 impl<'a> RequesterContext<'a> {
     pub fn send_receive_spdm_version(&mut self) -> SpdmResult {
-        self.common
-            .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestGetVersion, None);
+        // GET_VERSION starts over: nothing of an earlier connection remains valid.
+        self.common.reset_context();
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let send_used = self.encode_spdm_version(&mut send_buffer)?;
-- 
2.43.0


From c1d5a1eafa2f38e2a1798d140b05e588c53f6203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 29/53] fix: refuse ALGORITHMS that select what was not offered

---
 .../src/requester/negotiate_algorithms_req.rs | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index dafdf9a..27e301a 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -90,6 +90,44 @@ impl<'a> RequesterContext<'a> {
                         if let Some(algorithms) = algorithms {
                             debug!("!!! algorithms : {:02x?}\n", algorithms);
 
+                            // the responder may select only from what has been offered
+                            let config_info = &self.common.config_info;
+                            if !config_info
+                                .measurement_specification
+                                .contains(algorithms.measurement_specification_sel)
+                                || !config_info
+                                    .opaque_support
+                                    .contains(algorithms.other_params_selection)
+                                || !config_info
+                                    .base_asym_algo
+                                    .contains(algorithms.base_asym_sel)
+                                || !config_info
+                                    .base_hash_algo
+                                    .contains(algorithms.base_hash_sel)
+                            {
+                                return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                            }
+                            for alg in algorithms
+                                .alg_struct
+                                .iter()
+                                .take(algorithms.alg_struct_count as usize)
+                            {
+                                let offered = match &alg.alg_supported {
+                                    SpdmAlg::SpdmAlgoDhe(v) => config_info.dhe_algo.contains(*v),
+                                    SpdmAlg::SpdmAlgoAead(v) => config_info.aead_algo.contains(*v),
+                                    SpdmAlg::SpdmAlgoReqAsym(v) => {
+                                        config_info.req_asym_algo.contains(*v)
+                                    }
+                                    SpdmAlg::SpdmAlgoKeySchedule(v) => {
+                                        config_info.key_schedule_algo.contains(*v)
+                                    }
+                                    SpdmAlg::SpdmAlgoUnknown(_v) => true,
+                                };
+                                if !offered {
+                                    return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                                }
+                            }
+
                             self.common.negotiate_info.measurement_specification_sel =
                                 algorithms.measurement_specification_sel;
 
-- 
2.43.0


From bbc4732c7780bb879016422401eaf090f2fc990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 30/53] fix: accept CHALLENGE_AUTH only for the slot and chain
 asked for

---
 spdmlib/src/requester/challenge_req.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 7ac271e..ea534d0 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -104,6 +104,24 @@ impl<'a> RequesterContext<'a> {
                         if let Some(challenge_auth) = challenge_auth {
                             debug!("!!! challenge_auth : {:02x?}\n", challenge_auth);
 
+                            // the answer has to be for the slot, and the certificate chain, asked for
+                            if challenge_auth.slot_id != slot_id {
+                                error!("slot id mismatch in challenge_auth\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
+                            let cert_chain_hash = crypto::hash::hash_all(
+                                self.common.negotiate_info.base_hash_sel,
+                                self.common.peer_info.peer_cert_chain[slot_id as usize]
+                                    .as_ref()
+                                    .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
+                                    .as_ref(),
+                            )
+                            .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+                            if challenge_auth.cert_chain_hash.as_ref() != cert_chain_hash.as_ref() {
+                                error!("cert chain hash mismatch in challenge_auth\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
+
                             // verify signature
                             let base_asym_size =
                                 self.common.negotiate_info.base_asym_sel.get_size() as usize;
-- 
2.43.0


From 39879c5869ed19f9f7451482bed45da644a1cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 31/53] fix: refuse MEASUREMENTS of another slot, digests
 without a measurement hash

---
 spdmlib/src/common/spdm_codec.rs              |  5 +++--
 spdmlib/src/requester/get_measurements_req.rs | 10 ++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index dad3de4..adefd83 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -249,8 +249,9 @@ impl SpdmCodec for SpdmDmtfMeasurementStructure {
 
         let measurement_hash_algo = context.negotiate_info.measurement_hash_sel;
         if representation == SpdmDmtfMeasurementRepresentation::SpdmDmtfMeasurementDigest
-            && (value_size != measurement_hash_algo.get_size()
-                || measurement_hash_algo == SpdmMeasurementHashAlgo::RAW_BIT_STREAM)
+            && (!measurement_hash_algo.is_valid_one_select()
+                || measurement_hash_algo == SpdmMeasurementHashAlgo::RAW_BIT_STREAM
+                || value_size != measurement_hash_algo.get_size())
         {
             return None;
         }
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 63b384b..617dc1c 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -130,6 +130,16 @@ impl<'a> RequesterContext<'a> {
                         if let Some(measurements) = measurements {
                             debug!("!!! measurements : {:02x?}\n", measurements);
 
+                            // the slot that signs has to be the one asked for
+                            if self.common.runtime_info.need_measurement_signature
+                                && self.common.negotiate_info.spdm_version_sel.get_u8()
+                                    >= SpdmVersion::SpdmVersion11.get_u8()
+                                && measurements.slot_id != slot_id
+                            {
+                                error!("slot id mismatch in measurements\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
+
                             if self.common.negotiate_info.spdm_version_sel.get_u8()
                                 >= SpdmVersion::SpdmVersion12.get_u8()
                             {
-- 
2.43.0


From 8367c85434d1c84a4d22f78ecef8d434f87539db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 32/53] fix: free the requester's session when the exchange
 that sets it up fails

---
 spdmlib/src/common/mod.rs                 | 10 ++++++++++
 spdmlib/src/requester/key_exchange_req.rs |  8 ++++++--
 spdmlib/src/requester/psk_exchange_req.rs |  8 ++++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 43859a6..2de198f 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -239,6 +239,16 @@ impl<'a> SpdmContext<'a> {
         Err(SPDM_STATUS_SESSION_NUMBER_EXCEED)
     }
 
+    /// Free the session which a failed exchange of the requester was about to set up.
+    pub fn teardown_session_of_requester(&mut self, req_session_id: u16) {
+        for session in self.session.iter_mut() {
+            let session_id = session.get_session_id();
+            if session_id != INVALID_SESSION_ID && session_id as u16 == req_session_id {
+                let _ = session.teardown(session_id);
+            }
+        }
+    }
+
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
             // the root certificate hash depends on the negotiated hash algorithm
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1eaf9bd..1c3f6a9 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -54,14 +54,18 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_key_exhcange_response(
+        let res = self.handle_spdm_key_exhcange_response(
             req_session_id,
             slot_id,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
             measurement_summary_hash_type,
             key_exchange_context,
-        )
+        );
+        if res.is_err() {
+            self.common.teardown_session_of_requester(req_session_id);
+        }
+        res
     }
 
     pub fn encode_spdm_key_exchange(
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 7886632..522558a 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -48,13 +48,17 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_psk_exchange_response(
+        let res = self.handle_spdm_psk_exchange_response(
             half_session_id,
             measurement_summary_hash_type,
             &psk_hint,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
-        )
+        );
+        if res.is_err() {
+            self.common.teardown_session_of_requester(half_session_id);
+        }
+        res
     }
 
     pub fn encode_spdm_psk_exchange(
-- 
2.43.0


From 987ee935453229074492ec6333299ab5be751b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 33/53] fix: check the version of FINISH_RSP

---
 spdmlib/src/requester/finish_req.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1c50b3b..4c8ba62 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -208,6 +208,11 @@ impl<'a> RequesterContext<'a> {
 
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header)
+                if message_header.version != self.common.negotiate_info.spdm_version_sel =>
+            {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseFinishRsp => {
                     let finish_rsp =
-- 
2.43.0


From b345659dcbcadff6857f434d2353390d91fe33d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 34/53] fix: finish sessions without PSK_FINISH or mutual
 authentication when not needed

---
 spdmlib/src/requester/context.rs             | 45 ++++++++++++++++----
 spdmlib/src/requester/mutual_authenticate.rs | 13 +++---
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e73026d..c2dec26 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
+use crate::common::session::SpdmSessionState;
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
@@ -44,22 +45,48 @@ impl<'a> RequesterContext<'a> {
         if !use_psk {
             let session_id =
                 self.send_receive_spdm_key_exchange(slot_id, measurement_summary_hash_type)?;
-            #[cfg(not(feature = "mut-auth"))]
-            let req_slot_id: Option<u8> = None;
-            #[cfg(feature = "mut-auth")]
-            self.session_based_mutual_authenticate(session_id)?;
-            #[cfg(feature = "mut-auth")]
-            let req_slot_id = Some(self.common.runtime_info.get_local_used_cert_chain_slot_id());
-            self.send_receive_spdm_finish(req_slot_id, session_id)?;
-            Ok(session_id)
+            self.finish_session(session_id)
         } else {
             let session_id =
                 self.send_receive_spdm_psk_exchange(measurement_summary_hash_type, None)?;
-            self.send_receive_spdm_psk_finish(session_id)?;
+            let established = self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map(|session| session.get_session_state())
+                == Some(SpdmSessionState::SpdmSessionEstablished);
+            if !established {
+                self.send_receive_spdm_psk_finish(session_id)?;
+            }
             Ok(session_id)
         }
     }
 
+    // A session which cannot be finished does not stay behind in its handshake.
+    fn finish_session(&mut self, session_id: u32) -> SpdmResult<u32> {
+        let res = self.authenticate_and_finish(session_id);
+        if let Err(e) = res {
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+            return Err(e);
+        }
+        Ok(session_id)
+    }
+
+    fn authenticate_and_finish(&mut self, session_id: u32) -> SpdmResult {
+        #[cfg(not(feature = "mut-auth"))]
+        let req_slot_id: Option<u8> = None;
+        #[cfg(feature = "mut-auth")]
+        self.session_based_mutual_authenticate(session_id)?;
+        #[cfg(feature = "mut-auth")]
+        let req_slot_id = self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .filter(|session| !session.get_mut_auth_requested().is_empty())
+            .map(|_| self.common.runtime_info.get_local_used_cert_chain_slot_id());
+        self.send_receive_spdm_finish(req_slot_id, session_id)
+    }
+
     pub fn end_session(&mut self, session_id: u32) -> SpdmResult {
         self.send_receive_spdm_end_session(session_id)
     }
diff --git a/spdmlib/src/requester/mutual_authenticate.rs b/spdmlib/src/requester/mutual_authenticate.rs
index d237bcf..c2f3795 100644
--- a/spdmlib/src/requester/mutual_authenticate.rs
+++ b/spdmlib/src/requester/mutual_authenticate.rs
@@ -11,14 +11,17 @@ use super::RequesterContext;
 
 impl<'a> RequesterContext<'a> {
     pub fn session_based_mutual_authenticate(&mut self, session_id: u32) -> SpdmResult<()> {
-        self.common.construct_my_cert_chain()?;
-
-        let spdm_session = self
+        let mut_auth_requested = self
             .common
             .get_session_via_id(session_id)
-            .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
+            .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?
+            .get_mut_auth_requested();
+        if mut_auth_requested.is_empty() {
+            return Ok(());
+        }
+
+        self.common.construct_my_cert_chain()?;
 
-        let mut_auth_requested = spdm_session.get_mut_auth_requested();
         match mut_auth_requested {
             SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ => Ok(()),
             SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_ENCAP_REQUEST
-- 
2.43.0


From 8ea063ba53a9b32bdf55df8c533a748d97d7220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 35/53] fix: verify the FINISH signature with the requester's
 own chain

---
 spdmlib/src/requester/finish_req.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 4c8ba62..1b04816 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -395,24 +395,21 @@ impl<'a> RequesterContext<'a> {
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
-        let peer_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
-        let peer_cert = &self.common.provision_info.my_cert_chain[peer_slot_id as usize]
+        let my_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
+        let my_cert_chain = self.common.provision_info.my_cert_chain[my_slot_id as usize]
             .as_ref()
-            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
+            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
+        let my_cert = &my_cert_chain.data[(4usize
+            + self.common.negotiate_info.base_hash_sel.get_size() as usize)
+            ..(my_cert_chain.data_size as usize)];
 
         crate::crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
             self.common.negotiate_info.base_asym_sel,
-            peer_cert,
+            my_cert,
             transcript_sign.as_ref(),
             &signature,
-        )
-        .unwrap();
+        )?;
 
         Ok(signature)
     }
-- 
2.43.0


From 49b3b557cc766418ec0cad37deb0222be8511cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 36/53] fix: refuse a mutual authentication slot beyond the
 last

---
 spdmlib/src/requester/key_exchange_req.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1c3f6a9..6b64fa5 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -241,9 +241,10 @@ impl<'a> RequesterContext<'a> {
                                 {
                                     return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                                 }
-                                if key_exchange_rsp.mut_auth_req
+                                if key_exchange_rsp.req_slot_id & 0xf >= SPDM_MAX_SLOT_NUMBER as u8
+                                    || (key_exchange_rsp.mut_auth_req
                                     == SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_ENCAP_REQUEST
-                                    && key_exchange_rsp.req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8
+                                    && key_exchange_rsp.req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8)
                                 {
                                     return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                                 }
-- 
2.43.0


From 307032a58f00d54ec659db65a7602cd9be4bd1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 37/53] fix: refuse a malformed own certificate chain instead
 of panicking

---
 spdmlib/src/common/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 2de198f..b033070 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -260,8 +260,7 @@ impl<'a> SpdmContext<'a> {
                     crypto::cert_operation::get_cert_from_cert_chain(
                         &cert_chain.data[..(cert_chain.data_size as usize)],
                         0,
-                    )
-                    .unwrap();
+                    )?;
                 let root_cert = &cert_chain.data[root_cert_begin..root_cert_end];
                 if let Some(root_hash) =
                     crypto::hash::hash_all(self.negotiate_info.base_hash_sel, root_cert)
-- 
2.43.0


From 66082e1d5b8c7a1d6fa26098368b8c9ef426017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 38/53] fix: request mutual authentication only when both sides
 support it

---
 spdmlib/src/responder/key_exchange_rsp.rs | 24 ++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 590f9b5..a0f0442 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -231,6 +231,25 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        #[cfg(feature = "mut-auth")]
+        let mut_auth_req = if self
+            .common
+            .negotiate_info
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::MUT_AUTH_CAP)
+            && self
+                .common
+                .negotiate_info
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::MUT_AUTH_CAP)
+        {
+            SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS
+        } else {
+            SpdmKeyExchangeMutAuthAttributes::empty()
+        };
+        #[cfg(not(feature = "mut-auth"))]
+        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::empty();
+
         let session = self.common.get_next_avaiable_session();
         if session.is_none() {
             error!("!!! too many sessions : fail !!!\n");
@@ -238,11 +257,6 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
 
-        #[cfg(feature = "mut-auth")]
-        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS;
-        #[cfg(not(feature = "mut-auth"))]
-        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::empty();
-
         let session = session.unwrap();
         let session_id = ((rsp_session_id as u32) << 16) + key_exchange_req.req_session_id as u32;
         session.setup(session_id).unwrap();
-- 
2.43.0


From 4b027661a9d64bc384e9992b7a9b382c5e545839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 39/53] fix: hand out every own digest to an encapsulated
 request, no panic without a hash

---
 spdmlib/src/requester/encap_digest.rs | 45 ++++++++++++++++-----------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/spdmlib/src/requester/encap_digest.rs b/spdmlib/src/requester/encap_digest.rs
index 0a2c5b5..e4066d0 100644
--- a/spdmlib/src/requester/encap_digest.rs
+++ b/spdmlib/src/requester/encap_digest.rs
@@ -18,6 +18,7 @@ use crate::{
 };
 extern crate alloc;
 use alloc::boxed::Box;
+use alloc::vec::Vec;
 
 use super::RequesterContext;
 
@@ -71,10 +72,27 @@ impl<'a> RequesterContext<'a> {
             return;
         }
 
+        let digest_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
         let mut slot_mask = 0u8;
+        let mut digests = Vec::new();
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
+            if let Some(my_cert_chain) = &self.common.provision_info.my_cert_chain[slot_id] {
+                let cert_chain_hash = crypto::hash::hash_all(
+                    self.common.negotiate_info.base_hash_sel,
+                    my_cert_chain.as_ref(),
+                );
+                let cert_chain_hash = if let Some(hash) = cert_chain_hash {
+                    hash
+                } else {
+                    self.encode_encap_error_response(
+                        SpdmErrorCode::SpdmErrorUnspecified,
+                        0,
+                        encap_response,
+                    );
+                    return;
+                };
                 slot_mask |= (1 << slot_id) as u8;
+                digests.push(cert_chain_hash);
             }
         }
 
@@ -87,7 +105,7 @@ impl<'a> RequesterContext<'a> {
                 slot_mask,
                 digests: gen_array_clone(
                     SpdmDigestStruct {
-                        data_size: self.common.negotiate_info.base_hash_sel.get_size(),
+                        data_size: digest_size as u16,
                         data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
                     },
                     SPDM_MAX_SLOT_NUMBER,
@@ -107,22 +125,13 @@ impl<'a> RequesterContext<'a> {
             return;
         }
 
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                )
-                .unwrap();
-
-                // patch the message before send
-                let used = encap_response.used();
-                encap_response.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-            }
+        // one digest per provisioned slot, in slot order, at the end of the message
+        let mut digest_offset = encap_response.used() - digests.len() * digest_size;
+        for cert_chain_hash in digests.iter() {
+            // patch the message before send
+            encap_response.mut_used_slice()[digest_offset..digest_offset + digest_size]
+                .copy_from_slice(cert_chain_hash.as_ref());
+            digest_offset += digest_size;
         }
         debug!("!!! encap get_digests : complete\n");
     }
-- 
2.43.0


From 713b80db801b989320da316efcf66e71529139e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 40/53] fix: refuse encapsulated acknowledgements of unknown
 type, mind what was received

---
 spdmlib/src/requester/encap_req.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 3e5c64d..885b2f3 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -16,7 +16,7 @@ use crate::{
         SpdmEncapsulatedResponseAckPayload, SpdmEncapsulatedResponseAckPayloadType, SpdmErrorCode,
         SpdmGetDigestsRequestPayload, SpdmGetEncapsulatedRequestPayload,
         SpdmKeyExchangeMutAuthAttributes, SpdmMessage, SpdmMessageHeader, SpdmMessagePayload,
-        SpdmRequestResponseCode, ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE,
+        SpdmRequestResponseCode,
     },
     protocol::{
         SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion, SPDM_MAX_SLOT_NUMBER,
@@ -99,8 +99,8 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let _ = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -117,14 +117,14 @@ impl<'a> RequesterContext<'a> {
         self.process_encapsulated_request(
             session_id,
             encapsulated_request.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )
     }
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -140,7 +140,7 @@ impl<'a> RequesterContext<'a> {
 
         match ack_header.payload_type {
             SpdmEncapsulatedResponseAckPayloadType::Absent => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE {
+                if size == reader.used() {
                     return Ok(false);
                 } else {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
@@ -148,7 +148,7 @@ impl<'a> RequesterContext<'a> {
             }
             SpdmEncapsulatedResponseAckPayloadType::Present => {}
             SpdmEncapsulatedResponseAckPayloadType::ReqSlotNumber => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE + 1 {
+                if size == reader.used() + 1 {
                     let req_slot_id = u8::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
                     if req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8 {
                         return Err(SPDM_STATUS_INVALID_MSG_FIELD);
@@ -161,13 +161,13 @@ impl<'a> RequesterContext<'a> {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
                 }
             }
-            _ => {}
+            _ => return Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
 
         self.process_encapsulated_request(
             session_id,
             ack_header.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )?;
 
         Ok(true)
-- 
2.43.0


From a53b8ed5a33fd4c6d653809f07e16161314a73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 41/53] fix: refuse empty certificate portions with a
 remainder, they never end

---
 spdmlib/src/requester/get_certificate_req.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 5e46537..4abdd03 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -125,6 +125,11 @@ impl<'a> RequesterContext<'a> {
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
+                            // a portion that is empty makes no progress
+                            if certificate.portion_length == 0 && certificate.remainder_length != 0
+                            {
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
                             if certificate.slot_id != slot_id {
                                 error!("slot id is not match between requester and responder!\n");
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-- 
2.43.0


From 9381715a6877608b6662327be7a289b68bc4f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 42/53] fix: keep the certificate format check within its data

---
 spdmlib/src/crypto/x509v3.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/crypto/x509v3.rs b/spdmlib/src/crypto/x509v3.rs
index e1521af..d890874 100644
--- a/spdmlib/src/crypto/x509v3.rs
+++ b/spdmlib/src/crypto/x509v3.rs
@@ -68,6 +68,10 @@ fn check_cert_format(cert: &[u8], base_asym_algo: SpdmBaseAsymAlgo) -> SpdmResul
 
     let (body_size, bytes_consumed) = check_length(&cert[c_walker..])?;
     c_walker += bytes_consumed;
+    if body_size > len - c_walker {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+    let cert = &cert[..c_walker + body_size];
 
     if len == c_walker + body_size {
         c_walker += check_tbs_certificate(&cert[c_walker..], base_asym_algo, true)?;
@@ -102,9 +106,10 @@ fn check_tbs_certificate(
 
     let length_before_tbs = t_walker;
 
-    if len < t_walker + tbs_length {
+    if tbs_length > len - t_walker {
         return Err(SPDM_STATUS_VERIF_FAIL);
     }
+    let data = &data[..t_walker + tbs_length];
 
     // version         [0]  EXPLICIT Version DEFAULT v1,
     let bytes_consumed = check_version(&data[t_walker..])?;
@@ -119,11 +124,15 @@ fn check_tbs_certificate(
     t_walker += 1;
     let (signature_id_length, bytes_consumed) = check_length(&data[t_walker..])?;
     t_walker += bytes_consumed;
+    if signature_id_length > data.len() - t_walker {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+    let signature_id = &data[t_walker..t_walker + signature_id_length];
 
     if is_leaf_cert {
-        check_object_identifier(&data[t_walker..], get_oid_by_base_asym_algo(base_asym_algo))?;
+        check_object_identifier(signature_id, get_oid_by_base_asym_algo(base_asym_algo))?;
     } else {
-        check_object_identifier(&data[t_walker..], None)?;
+        check_object_identifier(signature_id, None)?;
     }
     t_walker += signature_id_length;
     // issuer               Name,
@@ -159,11 +168,15 @@ fn check_signature_algorithm(
     s_walker += 1;
     let (signature_id_length, bytes_consumed) = check_length(&data[s_walker..])?;
     s_walker += bytes_consumed;
+    if signature_id_length > data.len() - s_walker {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+    let signature_id = &data[s_walker..s_walker + signature_id_length];
 
     if is_leaf_cert {
-        check_object_identifier(&data[s_walker..], get_oid_by_base_asym_algo(base_asym_algo))?;
+        check_object_identifier(signature_id, get_oid_by_base_asym_algo(base_asym_algo))?;
     } else {
-        check_object_identifier(&data[s_walker..], None)?;
+        check_object_identifier(signature_id, None)?;
     }
 
     Ok(s_walker + signature_id_length)
@@ -194,7 +207,7 @@ fn check_length(data: &[u8]) -> SpdmResult<(usize, usize)> {
         Ok((data[0] as usize, 1))
     } else {
         let length_count = data[0] - ASN1_LENGTH_MULTI_OCTET_MASK;
-        if len < (length_count as usize + 1) || length_count == 0 {
+        if len < (length_count as usize + 1) || length_count == 0 || length_count > 8 {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             let mut length = [0u8; 8];
@@ -263,7 +276,7 @@ fn check_and_skip_common_sequence(data: &[u8]) -> SpdmResult<usize> {
         Err(SPDM_STATUS_VERIF_FAIL)
     } else {
         let (payload_length, bytes_consumed) = check_length(&data[1..])?;
-        if len < 1 + bytes_consumed + payload_length {
+        if payload_length > len - 1 - bytes_consumed {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             Ok(1 + bytes_consumed + payload_length)
@@ -277,7 +290,7 @@ fn check_and_skip_common_tag(data: &[u8]) -> SpdmResult<usize> {
         Err(SPDM_STATUS_VERIF_FAIL)
     } else {
         let (payload_length, bytes_consumed) = check_length(&data[1..])?;
-        if len < 1 + bytes_consumed + payload_length {
+        if payload_length > len - 1 - bytes_consumed {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             Ok(1 + bytes_consumed + payload_length)
-- 
2.43.0


From f087b2659f11c3e4086f26e4e59a886e479cc309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 43/53] fix: no overflow for a large cryptographic timeout
 exponent

---
 spdmlib/src/requester/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index c2dec26..c766cd0 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -133,7 +133,9 @@ impl<'a> RequesterContext<'a> {
         info!("receive_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            1usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32 + 1)
+                .unwrap_or(usize::MAX)
         } else {
             ST1
         };
@@ -157,7 +159,9 @@ impl<'a> RequesterContext<'a> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            1usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32 + 1)
+                .unwrap_or(usize::MAX)
         } else {
             ST1
         };
-- 
2.43.0


From 84ebe833e3fa3e7916dff1f681330c5a012465d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 44/53] fix: a vendor request does not discard the connection

---
 spdmlib/src/requester/vendor_req.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index b75e36b..acaaa28 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -21,9 +21,6 @@ impl<'a> RequesterContext<'a> {
             session_id,
         );
 
-        // clear cache data
-        self.common.reset_context();
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let request = SpdmMessage {
-- 
2.43.0


From c7f42c054c5a91711bcf600bf1b25385f42faef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 45/53] fix: refuse digests, signatures and exchange data when
 no algorithm is selected

---
 spdmlib/src/common/spdm_codec.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index adefd83..74678d8 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -46,6 +46,9 @@ impl SpdmCodec for SpdmDigestStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmDigestStruct> {
+        if !context.negotiate_info.base_hash_sel.is_valid_one_select() {
+            return None;
+        }
         let data_size = context.get_hash_size();
         let mut data = Box::new([0u8; SPDM_MAX_HASH_SIZE]);
         for d in data.iter_mut().take(data_size as usize) {
@@ -68,6 +71,9 @@ impl SpdmCodec for SpdmSignatureStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmSignatureStruct> {
+        if !context.negotiate_info.base_asym_sel.is_valid_one_select() {
+            return None;
+        }
         let data_size = context.get_asym_key_size();
         let mut data = [0u8; SPDM_MAX_ASYM_KEY_SIZE];
         for d in data.iter_mut().take(data_size as usize) {
@@ -169,6 +175,9 @@ impl SpdmCodec for SpdmDheExchangeStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmDheExchangeStruct> {
+        if !context.negotiate_info.dhe_sel.is_valid_one_select() {
+            return None;
+        }
         let data_size = context.get_dhe_key_size();
         let mut data = [0u8; SPDM_MAX_DHE_KEY_SIZE];
         for d in data.iter_mut().take(data_size as usize) {
-- 
2.43.0


From c7d3647b5827a380c2af873bf329a2600cc6d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 46/53] fix: no session keys without a selected AEAD cipher
 suite

---
 spdmlib/src/common/key_schedule.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index ff8bf48..6df47cf 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -206,6 +206,9 @@ impl SpdmKeySchedule {
         aead_algo: SpdmAeadAlgo,
         key: &SpdmMajorSecret,
     ) -> Option<(SpdmAeadKeyStruct, SpdmAeadIvStruct)> {
+        if !aead_algo.is_valid_one_select() {
+            return None;
+        }
         let buffer = &mut [0; MAX_BIN_CONCAT_BUF_SIZE];
         let bin_str5 = self.binconcat(
             aead_algo.get_key_size(),
-- 
2.43.0


From f025f2282b5bb21f78b419ff2bcea32a9e870581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 47/53] fix: refuse a mutual authentication FINISH that cannot
 be signed

---
 spdmlib/src/requester/finish_req.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1b04816..fee5e9e 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -119,7 +119,19 @@ impl<'a> RequesterContext<'a> {
             .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
         if !session.get_mut_auth_requested().is_empty() {
             finish_request_attributes = SpdmFinishRequestAttributes::SIGNATURE_INCLUDED;
-            signature.data_size = self.common.negotiate_info.req_asym_sel.get_size();
+            // the signature is encoded with the size of the base asymmetric algorithm
+            let req_asym_sel = self.common.negotiate_info.req_asym_sel;
+            if !req_asym_sel.is_valid_one_select()
+                || !self
+                    .common
+                    .negotiate_info
+                    .base_asym_sel
+                    .is_valid_one_select()
+                || req_asym_sel.get_size() != self.common.get_asym_key_size()
+            {
+                return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+            }
+            signature.data_size = req_asym_sel.get_size();
             is_mut_auth = true;
         }
 
-- 
2.43.0


From 6cd8a176eca18c8bb46560a5d74e8b56386b0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 48/53] fix: PSK_EXCHANGE needs a negotiated hash

---
 spdmlib/src/requester/psk_exchange_req.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 522558a..2518945 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -6,6 +6,7 @@ use config::MAX_SPDM_PSK_CONTEXT_SIZE;
 
 use crate::crypto;
 use crate::error::SPDM_STATUS_BUFFER_FULL;
+use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
 use crate::error::SPDM_STATUS_UNSUPPORTED_CAP;
 use crate::error::{
     SpdmResult, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
@@ -68,6 +69,15 @@ impl<'a> RequesterContext<'a> {
         psk_hint: &SpdmPskHintStruct,
         buf: &mut [u8],
     ) -> SpdmResult<usize> {
+        if !self
+            .common
+            .negotiate_info
+            .base_hash_sel
+            .is_valid_one_select()
+        {
+            return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
+        }
+
         let mut writer = Writer::init(buf);
 
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-- 
2.43.0


From 167400628286a2c193a4b626cfdc052e5afcb5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 49/53] fix: a PCI DOE application message that does not fit is
 an error

---
 pcidoe_transport/src/header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index b247322..e6572f2 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -149,6 +149,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &mut [u8],
         _is_app_message: bool,
     ) -> SpdmResult<usize> {
+        if app_buffer.len() < spdm_buffer.len() {
+            return Err(SPDM_STATUS_ENCAP_FAIL);
+        }
         app_buffer[0..spdm_buffer.len()].copy_from_slice(spdm_buffer);
         Ok(spdm_buffer.len())
     }
@@ -158,6 +161,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &[u8],
         spdm_buffer: &mut [u8],
     ) -> SpdmResult<(usize, bool)> {
+        if spdm_buffer.len() < app_buffer.len() {
+            return Err(SPDM_STATUS_DECAP_FAIL);
+        }
         spdm_buffer[0..app_buffer.len()].copy_from_slice(app_buffer);
         Ok((app_buffer.len(), false))
     }
-- 
2.43.0


From cfcc62998f0d1b82c76cbb760a7e313bd8af31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 50/53] fix: a new encapsulated authentication starts with an
 empty chain

GET_ENCAPSULATED_REQUEST during a transfer asked for the digests again, but kept the
portions received so far: the next certificate request asked for the middle of the chain.
---
 spdmlib/src/responder/encap_rsp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index f4221e7..fb70b21 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -72,6 +72,10 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        // the flow starts over, so nothing of a chain left unfinished before counts
+        self.common.encap_context.encap_cert_size = 0;
+        self.common.peer_info.peer_cert_chain_temp = None;
+
         if self.encode_encap_request_get_digest(writer).is_err() {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidResponseCode, 0, writer);
             return;
-- 
2.43.0


From 5e2d3540666f57e5d07f2b8d1867e778ce4ebacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 51/53] fix: a PSK handshake is not affected by handshakes in
 the clear

HANDSHAKE_IN_THE_CLEAR concerns KEY_EXCHANGE and FINISH. When both sides had it, the
responder refused every message of a PSK handshake.
---
 spdmlib/src/responder/context.rs    | 4 +++-
 spdmlib/src/responder/finish_rsp.rs | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 4304095..d932861 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -284,7 +284,8 @@ impl<'a> ResponderContext<'a> {
                         .negotiate_info
                         .rsp_capabilities_sel
                         .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
-                if in_clear_text {
+                // the PSK handshake is never in the clear
+                if in_clear_text && !session.get_use_psk() {
                     return Err(SPDM_STATUS_UNSUPPORTED_CAP);
                 }
 
@@ -486,6 +487,7 @@ impl<'a> ResponderContext<'a> {
                             {
                                 if session.get_session_state()
                                     == SpdmSessionState::SpdmSessionHandshaking
+                                    && !session.get_use_psk()
                                 {
                                     return self.handle_spdm_finish(session_id, bytes);
                                 }
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 2ff3cc7..d3584cb 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -27,7 +27,11 @@ impl<'a> ResponderContext<'a> {
                 .common
                 .negotiate_info
                 .rsp_capabilities_sel
-                .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
+                .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP)
+            && !self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map_or(false, |session| session.get_use_psk());
         info!("in_clear_text {:?}\n", in_clear_text);
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-- 
2.43.0


From 965112b804ec4730e0ce865c5b8e9722722150eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 52/53] fix: the requester signs FINISH with the algorithm
 selected for it

Both sides used the responder's algorithm, and its signature size, whatever had been
negotiated as ReqBaseAsymAlg.
---
 spdmlib/src/common/mod.rs           |  9 +++++++++
 spdmlib/src/message/finish.rs       | 28 +++++++++++++++++++++++++---
 spdmlib/src/requester/finish_req.rs | 16 ++++------------
 spdmlib/src/responder/finish_rsp.rs |  4 ++--
 4 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index b033070..d758c01 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -170,6 +170,15 @@ impl<'a> SpdmContext<'a> {
     pub fn get_asym_key_size(&self) -> u16 {
         self.negotiate_info.base_asym_sel.get_size()
     }
+    /// The algorithm of the requester's signatures. It falls back to that of the responder's.
+    pub fn get_req_asym_algo(&self) -> SpdmBaseAsymAlgo {
+        let req_asym_sel = self.negotiate_info.req_asym_sel;
+        if req_asym_sel.is_empty() {
+            self.negotiate_info.base_asym_sel
+        } else {
+            SpdmBaseAsymAlgo::from_bits_truncate(req_asym_sel.bits() as u32)
+        }
+    }
     pub fn get_dhe_key_size(&self) -> u16 {
         self.negotiate_info.dhe_sel.get_size()
     }
diff --git a/spdmlib/src/message/finish.rs b/spdmlib/src/message/finish.rs
index 5f72bd6..9a917e8 100644
--- a/spdmlib/src/message/finish.rs
+++ b/spdmlib/src/message/finish.rs
@@ -4,7 +4,7 @@
 
 use crate::common;
 use crate::common::spdm_codec::SpdmCodec;
-use crate::error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL};
+use crate::error::{SpdmStatus, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_PARAMETER};
 use crate::protocol::{
     SpdmDigestStruct, SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmSignatureStruct,
 };
@@ -37,6 +37,16 @@ pub struct SpdmFinishRequestPayload {
     pub verify_data: SpdmDigestStruct,
 }
 
+// The size of a requester's signature, 0 if no algorithm is selected.
+fn signature_size(context: &common::SpdmContext) -> u16 {
+    let algo = context.get_req_asym_algo();
+    if algo.is_valid_one_select() {
+        algo.get_size()
+    } else {
+        0
+    }
+}
+
 impl SpdmCodec for SpdmFinishRequestPayload {
     fn spdm_encode(
         &self,
@@ -56,7 +66,13 @@ impl SpdmCodec for SpdmFinishRequestPayload {
             .finish_request_attributes
             .contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED)
         {
-            cnt += self.signature.spdm_encode(context, bytes)?;
+            // the requester signs with the algorithm selected for it
+            if self.signature.data_size != signature_size(context) {
+                return Err(SPDM_STATUS_INVALID_PARAMETER);
+            }
+            for d in self.signature.as_ref() {
+                cnt += d.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
+            }
         }
         cnt += self.verify_data.spdm_encode(context, bytes)?;
         Ok(cnt)
@@ -70,7 +86,13 @@ impl SpdmCodec for SpdmFinishRequestPayload {
         let req_slot_id = u8::read(r)?; // param2
         let mut signature = SpdmSignatureStruct::default();
         if finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED) {
-            signature = SpdmSignatureStruct::spdm_read(context, r)?;
+            signature.data_size = signature_size(context);
+            if signature.data_size == 0 {
+                return None;
+            }
+            for d in signature.data[..signature.data_size as usize].iter_mut() {
+                *d = u8::read(r)?;
+            }
         }
         let verify_data = SpdmDigestStruct::spdm_read(context, r)?;
 
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index fee5e9e..9179752 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -119,16 +119,8 @@ impl<'a> RequesterContext<'a> {
             .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
         if !session.get_mut_auth_requested().is_empty() {
             finish_request_attributes = SpdmFinishRequestAttributes::SIGNATURE_INCLUDED;
-            // the signature is encoded with the size of the base asymmetric algorithm
             let req_asym_sel = self.common.negotiate_info.req_asym_sel;
-            if !req_asym_sel.is_valid_one_select()
-                || !self
-                    .common
-                    .negotiate_info
-                    .base_asym_sel
-                    .is_valid_one_select()
-                || req_asym_sel.get_size() != self.common.get_asym_key_size()
-            {
+            if !req_asym_sel.is_valid_one_select() {
                 return Err(SPDM_STATUS_UNSUPPORTED_CAP);
             }
             signature.data_size = req_asym_sel.get_size();
@@ -360,7 +352,7 @@ impl<'a> RequesterContext<'a> {
 
         crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             transcript_sign.as_ref(),
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)
@@ -402,7 +394,7 @@ impl<'a> RequesterContext<'a> {
 
         let signature = crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             transcript_sign.as_ref(),
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
@@ -417,7 +409,7 @@ impl<'a> RequesterContext<'a> {
 
         crate::crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             my_cert,
             transcript_sign.as_ref(),
             &signature,
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index d3584cb..1bebe70 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -349,7 +349,7 @@ impl<'a> ResponderContext<'a> {
 
         crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             peer_cert,
             transcript_sign.as_ref(),
             signature,
@@ -400,7 +400,7 @@ impl<'a> ResponderContext<'a> {
 
         let res = crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_algo(),
             peer_cert,
             transcript_hash_sign.as_ref(),
             signature,
-- 
2.43.0


From 7805cce956dc9561550e9b6b8a37773a0420fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:46 +0000
Subject: [PATCH 53/53] fix: FINISH transcripts use the responder's slot of the
 session

---
 spdmlib/src/requester/finish_req.rs       | 13 ++++---------
 spdmlib/src/requester/key_exchange_req.rs |  1 +
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 9179752..2df6509 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -90,11 +90,7 @@ impl<'a> RequesterContext<'a> {
             return Err(res.err().unwrap());
         }
         let receive_used = res.unwrap();
-        let res = self.handle_spdm_finish_response(
-            session_id,
-            req_slot_id,
-            &receive_buffer[..receive_used],
-        );
+        let res = self.handle_spdm_finish_response(session_id, &receive_buffer[..receive_used]);
         if res.is_err() {
             if let Some(session) = self.common.get_session_via_id(session_id) {
                 let _ = session.teardown(session_id);
@@ -172,7 +168,7 @@ impl<'a> RequesterContext<'a> {
 
         let transcript_hash =
             self.common
-                .calc_req_transcript_hash(false, req_slot_id, is_mut_auth, session)?;
+                .calc_req_transcript_hash(false, session.get_slot_id(), is_mut_auth, session)?;
 
         let session = self.common.get_session_via_id(session_id).unwrap();
 
@@ -189,7 +185,6 @@ impl<'a> RequesterContext<'a> {
     pub fn handle_spdm_finish_response(
         &mut self,
         session_id: u32,
-        req_slot_id: u8,
         receive_buffer: &[u8],
     ) -> SpdmResult {
         let in_clear_text = self
@@ -244,7 +239,7 @@ impl<'a> RequesterContext<'a> {
 
                             let transcript_hash = self.common.calc_req_transcript_hash(
                                 false,
-                                req_slot_id,
+                                session.get_slot_id(),
                                 is_mut_auth,
                                 session,
                             )?;
@@ -283,7 +278,7 @@ impl<'a> RequesterContext<'a> {
                         // generate the data secret
                         let th2 = self.common.calc_req_transcript_hash(
                             false,
-                            req_slot_id,
+                            session.get_slot_id(),
                             is_mut_auth,
                             session,
                         )?;
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 6b64fa5..7b7f75e 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -261,6 +261,7 @@ impl<'a> RequesterContext<'a> {
                             session.setup(session_id)?;
 
                             session.set_use_psk(false);
+                            session.set_slot_id(slot_id);
                             session.set_mut_auth_requested(key_exchange_rsp.mut_auth_req);
 
                             session.set_crypto_param(
-- 
2.43.0

