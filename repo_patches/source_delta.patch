From a7d80697d3768ce9628a00ae288bc42a4b8c856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 01/47] fix: advance a record sequence number only when the
 record was processed

A rejected (forged, replayed, truncated) record advanced the receive sequence
number of the session, so that one injected record desynchronised the session,
and at the last sequence number the unconditional increment overflowed.
---
 spdmlib/src/common/session.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 31665d1..39c8893 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -807,7 +807,9 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.handshake_secret.request_direction.sequence_number += 1;
+                    }
                     r
                 } else {
                     let r = self.encode_msg(
@@ -815,7 +817,9 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.handshake_secret.response_direction.sequence_number += 1;
+                    }
                     r
                 }
             }
@@ -826,7 +830,9 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.application_secret.request_direction.sequence_number += 1;
+                    }
                     r
                 } else {
                     let r = self.encode_msg(
@@ -834,7 +840,9 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.application_secret.response_direction.sequence_number += 1;
+                    }
                     r
                 }
             }
@@ -857,7 +865,9 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.handshake_secret.request_direction.sequence_number += 1;
+                    }
                     r
                 } else {
                     let r = self.decode_msg(
@@ -865,7 +875,9 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.handshake_secret.response_direction.sequence_number += 1;
+                    }
                     r
                 }
             }
@@ -876,7 +888,9 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.application_secret.request_direction.sequence_number += 1;
+                    }
                     r
                 } else {
                     let r = self.decode_msg(
@@ -884,7 +898,9 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    if r.is_ok() {
+                        self.application_secret.response_direction.sequence_number += 1;
+                    }
                     r
                 }
             }
-- 
2.43.0


From a1c0b4b16d51fe4becb21ad11a76aa82613fcf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 02/47] fix: do not interpret application data as SPDM
 responses when sending

send_secured_message looked at the second byte of what it had sent also for
application messages, so an application answer could tear down or establish
its session (and an answer of less than two bytes panicked).
---
 spdmlib/src/responder/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 357fdab..c9452db 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -117,7 +117,8 @@ impl<'a> ResponderContext<'a> {
             is_app_message,
         )?;
         let result = self.common.device_io.send(&transport_buffer[..used]);
-        if result.is_ok() {
+        // application data is opaque, it never changes the session state.
+        if result.is_ok() && !is_app_message {
             let opcode = send_buffer[1];
             // change state after message is sent.
             if opcode == SpdmRequestResponseCode::SpdmResponseEndSessionAck.get_u8() {
-- 
2.43.0


From f2ad610163b332ad2f7ba93e34a0266c1a26165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 03/47] fix: dispatch application messages only in an
 established session

Application data was handed to the application handler also in a session that
was still handshaking, and an error from the handler panicked the responder.
---
 spdmlib/src/responder/context.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index c9452db..a0fddef 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -6,7 +6,7 @@ use super::app_message_handler::dispatch_secured_app_message_cb;
 use crate::common::SpdmConnectionState;
 use crate::common::{session::SpdmSessionState, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
-use crate::error::{SpdmResult, SPDM_STATUS_UNSUPPORTED_CAP};
+use crate::error::{SpdmResult, SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_UNSUPPORTED_CAP};
 use crate::message::*;
 use crate::protocol::{SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags};
 use codec::{Codec, Reader, Writer};
@@ -369,8 +369,17 @@ impl<'a> ResponderContext<'a> {
     ) -> SpdmResult {
         debug!("dispatching secured app message\n");
 
+        let session = self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
+        if session.get_session_state() != SpdmSessionState::SpdmSessionEstablished {
+            error!("application message in a session that is not established\n");
+            return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
+        }
+
         let (rsp_app_buffer, size) =
-            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data).unwrap();
+            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
     }
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
-- 
2.43.0


From 0b8acfb613f6f17c2b6484384840bd2ad31506b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 04/47] fix: a failed session set-up leaves no session behind

Error paths after the session slot was taken (random source, signature,
transcript hash, key schedule, oversized or unsent response) left a half-made
session that occupied its slot until the next GET_VERSION; key generation
failures panicked.
---
 spdmlib/src/common/mod.rs                 | 13 ++++++++++++
 spdmlib/src/responder/context.rs          | 14 ++++++------
 spdmlib/src/responder/key_exchange_rsp.rs | 26 ++++++++++++++++++++---
 spdmlib/src/responder/psk_exchange_rsp.rs | 22 ++++++++++++++-----
 4 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 0202a98..922de94 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -226,6 +226,19 @@ impl<'a> SpdmContext<'a> {
         status
     }
 
+    /// Releases every session that did not exist yet when `status` was taken.
+    pub fn discard_sessions_since(
+        &mut self,
+        status: &[(u32, SpdmSessionState); config::MAX_SPDM_SESSION_COUNT],
+    ) {
+        for session in self.session.iter_mut() {
+            let session_id = session.get_session_id();
+            if session_id != INVALID_SESSION_ID && !status.iter().any(|s| s.0 == session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+    }
+
     pub fn get_next_half_session_id(&self, is_requester: bool) -> SpdmResult<u16> {
         let shift = if is_requester { 0 } else { 16 };
 
diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index a0fddef..6414b8d 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -32,10 +32,13 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
+    pub fn is_response_too_large(&self, size: usize) -> bool {
+        self.common.negotiate_info.req_data_transfer_size_sel != 0
+            && size > self.common.negotiate_info.req_data_transfer_size_sel as usize
+    }
+
     pub fn send_message(&mut self, send_buffer: &[u8]) -> SpdmResult {
-        if self.common.negotiate_info.req_data_transfer_size_sel != 0
-            && (send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize)
-        {
+        if self.is_response_too_large(send_buffer.len()) {
             let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
             let mut writer = Writer::init(&mut err_buffer);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
@@ -98,10 +101,7 @@ impl<'a> ResponderContext<'a> {
         send_buffer: &[u8],
         is_app_message: bool,
     ) -> SpdmResult {
-        if !is_app_message
-            && self.common.negotiate_info.req_data_transfer_size_sel != 0
-            && send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize
-        {
+        if !is_app_message && self.is_response_too_large(send_buffer.len()) {
             let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
             let mut writer = Writer::init(&mut err_buffer);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 66321b5..47533f3 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,8 +25,22 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_key_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+
+        // a session comes into being only together with its response.
+        let sessions = self.common.get_session_status();
+        let result = self.write_spdm_key_exchange_response(bytes, &mut writer);
+        if result.is_err() {
+            self.common.discard_sessions_since(&sessions);
+            return result;
+        }
+        if self.is_response_too_large(writer.used()) {
+            self.common.discard_sessions_since(&sessions);
+        }
+        let result = self.send_message(writer.used_slice());
+        if result.is_err() {
+            self.common.discard_sessions_since(&sessions);
+        }
+        result
     }
 
     pub fn write_spdm_key_exchange_response(
@@ -181,7 +195,13 @@ impl<'a> ResponderContext<'a> {
             .set_local_used_cert_chain_slot_id(key_exchange_req.slot_id);
 
         let (exchange, key_exchange_context) =
-            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel).unwrap();
+            match crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel) {
+                Some(key_pair) => key_pair,
+                None => {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return Err(SPDM_STATUS_CRYPTO_ERROR);
+                }
+            };
 
         debug!("!!! exchange data : {:02x?}\n", exchange);
 
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 06a49d5..4ece2d8 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,8 +25,22 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+
+        // a session comes into being only together with its response.
+        let sessions = self.common.get_session_status();
+        let result = self.write_spdm_psk_exchange_response(bytes, &mut writer);
+        if result.is_err() {
+            self.common.discard_sessions_since(&sessions);
+            return result;
+        }
+        if self.is_response_too_large(writer.used()) {
+            self.common.discard_sessions_since(&sessions);
+        }
+        let result = self.send_message(writer.used_slice());
+        if result.is_err() {
+            self.common.discard_sessions_since(&sessions);
+        }
+        result
     }
 
     pub fn write_spdm_psk_exchange_response(
@@ -346,9 +360,7 @@ impl<'a> ResponderContext<'a> {
             debug!("!!! th2 : {:02x?}\n", th2.as_ref());
             let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
             let session = self.common.get_session_via_id(session_id).unwrap();
-            session
-                .generate_data_secret(spdm_version_sel, &th2)
-                .unwrap();
+            session.generate_data_secret(spdm_version_sel, &th2)?;
             session.set_session_state(
                 crate::common::session::SpdmSessionState::SpdmSessionEstablished,
             );
-- 
2.43.0


From 089854e63f73fc4d4f022ffc520aca4c0210fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 05/47] fix: an error response replaces a partially built
 response

Handlers that failed after encoding their response (for instance when the
signature could not be made) appended the ERROR to it, so that an unsigned
success response was sent and the connection state advanced.
---
 codec/src/codec.rs                 | 5 +++++
 spdmlib/src/responder/error_rsp.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/codec/src/codec.rs b/codec/src/codec.rs
index 46ebe51..f14c3bd 100644
--- a/codec/src/codec.rs
+++ b/codec/src/codec.rs
@@ -101,6 +101,11 @@ impl<'a> Writer<'a> {
     pub fn mut_used_slice(&mut self) -> &mut [u8] {
         &mut self.buf[..self.offs]
     }
+
+    /// Forgets everything written so far.
+    pub fn clear(&mut self) {
+        self.offs = 0;
+    }
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a8c3f76..4bb5283 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -14,6 +14,8 @@ impl<'a> ResponderContext<'a> {
         error_data: u8,
         writer: &mut Writer,
     ) {
+        // the error replaces whatever was built of the response so far.
+        writer.clear();
         let error = SpdmMessage {
             header: SpdmMessageHeader {
                 version: self.common.negotiate_info.spdm_version_sel,
-- 
2.43.0


From ae713c6f96f3b47d2e6dc96cedaaa6031a6a944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 06/47] fix: randomise the PSK context when the responder
 provides one

The condition was inverted: the context sent was all zeros, and random bytes
were drawn only when no context is sent.
---
 spdmlib/src/responder/psk_exchange_rsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 4ece2d8..ff50f32 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -184,7 +184,7 @@ impl<'a> ResponderContext<'a> {
             MAX_SPDM_PSK_CONTEXT_SIZE as u16
         };
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-        if psk_without_context {
+        if !psk_without_context {
             let res = crypto::rand::get_random(&mut psk_context);
             if res.is_err() {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-- 
2.43.0


From bd505c975061766df26288a59d3b8b11956c2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 07/47] fix: fill in the digest of every provisioned slot in
 DIGESTS

Only the last digest field was patched, so with several provisioned slots the
other digests were sent as 0xff filler; a hash failure panicked.
---
 spdmlib/src/responder/digest_rsp.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index b1b7ef2..96dae3a 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -110,21 +110,23 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        // patch the message before send, one digest per provisioned slot, in slot order
+        let mut offset = writer.used() - slot_mask.count_ones() as usize * digest_size as usize;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
+            if let Some(my_cert_chain) = &self.common.provision_info.my_cert_chain[slot_id] {
+                let cert_chain_hash = if let Some(hash) = crypto::hash::hash_all(
                     self.common.negotiate_info.base_hash_sel,
                     my_cert_chain.as_ref(),
-                )
-                .unwrap();
+                ) {
+                    hash
+                } else {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                };
 
-                // patch the message before send
-                let used = writer.used();
-                writer.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
+                let end = offset + cert_chain_hash.data_size as usize;
+                writer.mut_used_slice()[offset..end].copy_from_slice(cert_chain_hash.as_ref());
+                offset = end;
             }
         }
 
-- 
2.43.0


From 91e567fa4a5e26c6fcafc3ede21b3c7fa207db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 08/47] fix: sign KEY_EXCHANGE_RSP also when the handshake is
 in the clear

The signature was patched into the response together with the verify data only,
so in-the-clear handshakes were sent with a filler signature.
---
 spdmlib/src/responder/key_exchange_rsp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 47533f3..9a487c3 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -434,6 +434,10 @@ impl<'a> ResponderContext<'a> {
                 [(used - base_hash_size - base_asym_size)..(used - base_hash_size)]
                 .copy_from_slice(signature.as_ref());
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
+        } else {
+            // without verify_data the signature is the last field
+            writer.mut_used_slice()[(used - base_asym_size)..used]
+                .copy_from_slice(signature.as_ref());
         }
 
         let heartbeat_period = self.common.config_info.heartbeat_period;
-- 
2.43.0


From 59861844c5a1ff1f11d4b90f76d3adf8bae24610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 09/47] fix: refuse encapsulated requests that fail the
 capability or state check

The ERROR for missing encapsulation capabilities or a wrong connection state
was written, but the request was processed all the same and its output was
appended; before SPDM 1.1 the ERROR was sent outside the session.
---
 spdmlib/src/responder/encap_rsp.rs | 47 ++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4b8044e..1a36bd0 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -9,7 +9,8 @@ use crate::{
     config,
     error::{
         SpdmResult, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_INVALID_MSG_FIELD,
-        SPDM_STATUS_INVALID_MSG_SIZE, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_UNSUPPORTED_CAP,
+        SPDM_STATUS_INVALID_MSG_SIZE, SPDM_STATUS_INVALID_STATE_PEER, SPDM_STATUS_NOT_READY_PEER,
+        SPDM_STATUS_UNSUPPORTED_CAP,
     },
     message::{
         SpdmDeliverEncapsulatedResponsePayload, SpdmEncapsulatedRequestPayload,
@@ -26,11 +27,15 @@ impl<'a> ResponderContext<'a> {
         let mut encapsulated_request = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encapsulated_request);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
-            &mut writer,
-        );
-        self.write_encap_request_response(bytes, &mut writer);
+        if self
+            .encap_check_version_cap_state(
+                SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
+                &mut writer,
+            )
+            .is_ok()
+        {
+            self.write_encap_request_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -81,11 +86,15 @@ impl<'a> ResponderContext<'a> {
         let mut encap_response_ack = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encap_response_ack);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
-            &mut writer,
-        );
-        self.write_encap_response_ack_response(bytes, &mut writer);
+        if self
+            .encap_check_version_cap_state(
+                SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse.get_u8(),
+                &mut writer,
+            )
+            .is_ok()
+        {
+            self.write_encap_response_ack_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -119,14 +128,20 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
-    fn encap_check_version_cap_state(&mut self, request_response_code: u8, writer: &mut Writer) {
+    fn encap_check_version_cap_state(
+        &mut self,
+        request_response_code: u8,
+        writer: &mut Writer,
+    ) -> SpdmResult {
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             < SpdmVersion::SpdmVersion11.get_u8()
         {
-            self.send_spdm_error(
+            self.write_spdm_error(
                 SpdmErrorCode::SpdmErrorUnsupportedRequest,
                 request_response_code,
-            )
+                writer,
+            );
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
         }
 
         if !self
@@ -145,14 +160,16 @@ impl<'a> ResponderContext<'a> {
                 request_response_code,
                 writer,
             );
-            return;
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
         }
 
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_STATE_PEER);
         }
+        Ok(())
     }
 
     fn process_encapsulated_response(
-- 
2.43.0


From 97818884a1ed9c4b4ac1a1356c7363cb4c8c378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 10/47] fix: rebuild the certificate chain header for the
 negotiated hash

The chain built for the first negotiation was kept, so after renegotiation with
another hash algorithm digests, certificates and signatures used a chain whose
root hash belongs to the previous algorithm.
---
 spdmlib/src/common/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 922de94..e2ea434 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -254,9 +254,8 @@ impl<'a> SpdmContext<'a> {
 
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.provision_info.my_cert_chain[slot_id].is_none()
-                && self.provision_info.my_cert_chain_data[slot_id].is_some()
-            {
+            // the root hash depends on the hash algorithm of this negotiation
+            if self.provision_info.my_cert_chain_data[slot_id].is_some() {
                 let cert_chain = self.provision_info.my_cert_chain_data[slot_id]
                     .as_ref()
                     .unwrap();
@@ -265,7 +264,7 @@ impl<'a> SpdmContext<'a> {
                         &cert_chain.data[..(cert_chain.data_size as usize)],
                         0,
                     )
-                    .unwrap();
+                    .map_err(|_| SPDM_STATUS_CRYPTO_ERROR)?;
                 let root_cert = &cert_chain.data[root_cert_begin..root_cert_end];
                 if let Some(root_hash) =
                     crypto::hash::hash_all(self.negotiate_info.base_hash_sel, root_cert)
-- 
2.43.0


From 139c46efe59a9777b24aebab2fcc71bb50ff2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 11/47] fix: refused capability and algorithm requests leave no
 trace

GET_CAPABILITIES selected its header version before it was validated, also one
that is not offered, and both requests left their bytes in message_a (and their
parameters negotiated) when they were refused or their response was not sent,
so that later signatures and keys covered messages that were not part of the
negotiation.
---
 spdmlib/src/common/mod.rs               |  2 +-
 spdmlib/src/responder/algorithm_rsp.rs  | 13 ++++++++++++-
 spdmlib/src/responder/capability_rsp.rs | 17 ++++++++++++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index e2ea434..48758f9 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -1070,7 +1070,7 @@ pub struct SpdmConfigInfo {
     pub secure_spdm_version: [u8; MAX_SECURE_SPDM_VERSION_COUNT], // used by responder only
 }
 
-#[derive(Debug, Default)]
+#[derive(Debug, Default, Clone)]
 pub struct SpdmNegotiateInfo {
     pub spdm_version_sel: SpdmVersion,
     pub req_capabilities_sel: SpdmRequestCapabilityFlags,
diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 3e2a62c..b19c1d4 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -13,8 +13,19 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_algorithm(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
+
+        // a request that is not answered with success leaves no trace
+        let message_a = self.common.runtime_info.message_a.clone();
+        let negotiate_info = self.common.negotiate_info.clone();
         self.write_spdm_algorithm(bytes, &mut writer);
-        self.send_message(writer.used_slice())
+        let result = self.send_message(writer.used_slice());
+        if self.common.runtime_info.get_connection_state()
+            != SpdmConnectionState::SpdmConnectionNegotiated
+        {
+            self.common.runtime_info.message_a = message_a;
+            self.common.negotiate_info = negotiate_info;
+        }
+        result
     }
 
     pub fn write_spdm_algorithm(&mut self, bytes: &[u8], writer: &mut Writer) {
diff --git a/spdmlib/src/responder/capability_rsp.rs b/spdmlib/src/responder/capability_rsp.rs
index 1f0ba40..c09b8d0 100644
--- a/spdmlib/src/responder/capability_rsp.rs
+++ b/spdmlib/src/responder/capability_rsp.rs
@@ -13,8 +13,19 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_capability(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
+
+        // a request that is not answered with success leaves no trace
+        let message_a = self.common.runtime_info.message_a.clone();
+        let negotiate_info = self.common.negotiate_info.clone();
         self.write_spdm_capability_response(bytes, &mut writer);
-        self.send_message(writer.used_slice())
+        let result = self.send_message(writer.used_slice());
+        if self.common.runtime_info.get_connection_state()
+            != SpdmConnectionState::SpdmConnectionAfterCapabilities
+        {
+            self.common.runtime_info.message_a = message_a;
+            self.common.negotiate_info = negotiate_info;
+        }
+        result
     }
 
     pub fn write_spdm_capability_response(&mut self, bytes: &[u8], writer: &mut Writer) {
@@ -35,6 +46,10 @@ impl<'a> ResponderContext<'a> {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+            if !self.common.config_info.spdm_version.contains(&version) {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorVersionMismatch, 0, writer);
+                return;
+            }
             self.common.negotiate_info.spdm_version_sel = version;
         } else {
             error!("!!! get_capabilities : fail !!!\n");
-- 
2.43.0


From ebd65b5745a95fd461041959c831198632515758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 12/47] fix: measurements that are not answered with success
 stay out of the transcript

A refused or oversized GET_MEASUREMENTS left its bytes in message_m; a
signature failure sent an ERROR outside the session followed by the unsigned
response, and a failing measurement callback panicked.
---
 spdmlib/src/responder/measurement_rsp.rs | 55 ++++++++++++++++--------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index f4d53e7..a98f8f3 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -108,23 +108,18 @@ impl<'a> ResponderContext<'a> {
         let content_changed = self.common.runtime_info.content_changed;
         let base_asym_sel = self.common.negotiate_info.base_asym_sel;
 
-        if self
-            .common
-            .append_message_m(session_id, &bytes[..reader.used()])
-            .is_err()
-        {
+        let real_measurement_block_count = if let Some(measurements) =
+            secret::measurement::measurement_collection(
+                spdm_version_sel,
+                measurement_specification_sel,
+                measurement_hash_sel,
+                SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
+            ) {
+            measurements.number_of_blocks
+        } else {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
-        }
-
-        let real_measurement_block_count = secret::measurement::measurement_collection(
-            spdm_version_sel,
-            measurement_specification_sel,
-            measurement_hash_sel,
-            SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
-        )
-        .unwrap()
-        .number_of_blocks;
+        };
 
         let number_of_measurement: u8 = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
@@ -144,7 +139,6 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
             )
-            .unwrap()
         } else if let SpdmMeasurementOperation::Unknown(index) =
             get_measurements.measurement_operation
         {
@@ -158,9 +152,14 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 index as usize,
             )
-            .unwrap()
         } else {
-            SpdmMeasurementRecordStructure::default()
+            Some(SpdmMeasurementRecordStructure::default())
+        };
+        let measurement_record = if let Some(measurement_record) = measurement_record {
+            measurement_record
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         };
 
         let content_changed = if runtime_content_change_support
@@ -211,6 +210,21 @@ impl<'a> ResponderContext<'a> {
         }
         let used = writer.used();
 
+        if self.is_response_too_large(used) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
+
+        if self
+            .common
+            .append_message_m(session_id, &bytes[..reader.used()])
+            .is_err()
+        {
+            self.common.reset_message_m(session_id);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+
         // generat signature
         if get_measurements
             .measurement_attributes
@@ -224,13 +238,15 @@ impl<'a> ResponderContext<'a> {
                 .append_message_m(session_id, &writer.used_slice()[..temp_used])
                 .is_err()
             {
+                self.common.reset_message_m(session_id);
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
 
             let signature = self.generate_measurement_signature(session_id);
             if signature.is_err() {
-                self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+                self.common.reset_message_m(session_id);
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
             let signature = signature.unwrap();
@@ -244,6 +260,7 @@ impl<'a> ResponderContext<'a> {
             .append_message_m(session_id, writer.used_slice())
             .is_err()
         {
+            self.common.reset_message_m(session_id);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
         }
     }
-- 
2.43.0


From fbc86fa3fd3852f3f8e942cd135ceece0941196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 13/47] fix: a failed CHALLENGE leaves nothing in the
 transcript

The request of a failed challenge stayed in message_c, and a signature failure
sent an ERROR followed by the unsigned CHALLENGE_AUTH; a hash failure panicked.
---
 spdmlib/src/responder/challenge_rsp.rs | 36 ++++++++++++++++----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 5974d33..adf7692 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -99,23 +99,18 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        if self
-            .common
-            .append_message_c(&bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
             .as_ref()
             .unwrap();
-        let cert_chain_hash = crypto::hash::hash_all(
+        let cert_chain_hash = if let Some(hash) = crypto::hash::hash_all(
             self.common.negotiate_info.base_hash_sel,
             my_cert_chain.as_ref(),
-        )
-        .unwrap();
+        ) {
+            hash
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        };
 
         let mut nonce = [0u8; SPDM_NONCE_SIZE];
         let res = crypto::rand::get_random(&mut nonce);
@@ -161,18 +156,31 @@ impl<'a> ResponderContext<'a> {
         let base_asym_size = self.common.negotiate_info.base_asym_sel.get_size() as usize;
         let temp_used = used - base_asym_size;
 
+        if self.is_response_too_large(used) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
+
         if self
             .common
-            .append_message_c(&writer.used_slice()[..temp_used])
+            .append_message_c(&bytes[..reader.used()])
             .is_err()
+            || self
+                .common
+                .append_message_c(&writer.used_slice()[..temp_used])
+                .is_err()
         {
+            self.common.reset_message_b();
+            self.common.reset_message_c();
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
 
         let signature = self.generate_challenge_auth_signature();
         if signature.is_err() {
-            self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+            self.common.reset_message_b();
+            self.common.reset_message_c();
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
         let signature = signature.unwrap();
-- 
2.43.0


From 02dd3f18fc3758f61783b0f00acbabf9691e183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 14/47] fix: refused GET_CERTIFICATE and GET_DIGESTS leave no
 trace, and serve every slot

A request for an offset beyond the chain was refused but kept in message_b, and
certificates of provisioned slots other than 0 could not be retrieved.
---
 spdmlib/src/responder/certificate_rsp.rs | 31 +++++++++---------------
 spdmlib/src/responder/digest_rsp.rs      | 27 +++++++++------------
 2 files changed, 24 insertions(+), 34 deletions(-)

diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index 29217bc..4af8d51 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -55,30 +55,12 @@ impl<'a> ResponderContext<'a> {
             SpdmGetCertificateRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(get_certificate) = &get_certificate {
             debug!("!!! get_certificate : {:02x?}\n", get_certificate);
-            if get_certificate.slot_id != 0 {
-                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
-                return;
-            }
         } else {
             error!("!!! get_certificate : fail !!!\n");
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let get_certificate = get_certificate.unwrap();
         let slot_id = get_certificate.slot_id as usize;
         if slot_id >= SPDM_MAX_SLOT_NUMBER {
@@ -136,9 +118,20 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        if self.is_response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
+
         match session_id {
             None => {
-                if self.common.append_message_b(writer.used_slice()).is_err() {
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .is_err()
+                    || self.common.append_message_b(writer.used_slice()).is_err()
+                {
+                    self.common.reset_message_b();
                     self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 }
             }
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index 96dae3a..1853110 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -64,20 +64,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let digest_size = self.common.negotiate_info.base_hash_sel.get_size();
 
         let mut slot_mask = 0u8;
@@ -130,9 +116,20 @@ impl<'a> ResponderContext<'a> {
             }
         }
 
+        if self.is_response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, writer);
+            return;
+        }
+
         match session_id {
             None => {
-                if self.common.append_message_b(writer.used_slice()).is_err() {
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .is_err()
+                    || self.common.append_message_b(writer.used_slice()).is_err()
+                {
+                    self.common.reset_message_b();
                     self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 }
             }
-- 
2.43.0


From 062c40497d391591a8abf550a75ce370cef54e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 15/47] fix: a failed key update derivation changes nothing and
 is reported

---
 spdmlib/src/common/session.rs           | 137 ++++++++++--------------
 spdmlib/src/responder/key_update_rsp.rs |  16 ++-
 2 files changed, 68 insertions(+), 85 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 39c8893..f14698c 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -582,101 +582,72 @@ impl SpdmSession {
         let hash_algo = self.crypto_param.base_hash_algo;
         let aead_algo = self.crypto_param.aead_algo;
 
-        if update_requester {
+        // nothing changes unless everything could be derived
+        let request_update = if update_requester {
+            let secret = self
+                .key_schedule
+                .derive_update_secret(
+                    spdm_version,
+                    hash_algo,
+                    &self.application_secret.request_data_secret,
+                )
+                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+            let (encryption_key, salt) = self
+                .key_schedule
+                .derive_aead_key_iv(
+                    spdm_version,
+                    hash_algo,
+                    aead_algo,
+                    &SpdmMajorSecret::SpdmDirectionDataSecret(&secret),
+                )
+                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+            Some((secret, encryption_key, salt))
+        } else {
+            None
+        };
+        let response_update = if update_responder {
+            let secret = self
+                .key_schedule
+                .derive_update_secret(
+                    spdm_version,
+                    hash_algo,
+                    &self.application_secret.response_data_secret,
+                )
+                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+            let (encryption_key, salt) = self
+                .key_schedule
+                .derive_aead_key_iv(
+                    spdm_version,
+                    hash_algo,
+                    aead_algo,
+                    &SpdmMajorSecret::SpdmDirectionDataSecret(&secret),
+                )
+                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+            Some((secret, encryption_key, salt))
+        } else {
+            None
+        };
+
+        if let Some((secret, encryption_key, salt)) = request_update {
             self.application_secret_backup.request_data_secret =
                 self.application_secret.request_data_secret.clone();
             self.application_secret_backup.request_direction =
                 self.application_secret.request_direction.clone();
 
-            self.application_secret.request_data_secret = if let Some(us) =
-                self.key_schedule.derive_update_secret(
-                    spdm_version,
-                    hash_algo,
-                    &self.application_secret.request_data_secret,
-                ) {
-                us
-            } else {
-                return Err(SPDM_STATUS_CRYPTO_ERROR);
-            };
-            debug!(
-                "!!! request_data_secret !!!: {:02x?}\n",
-                self.application_secret.request_data_secret.as_ref()
-            );
-
-            let res = if let Some(aki) = self.key_schedule.derive_aead_key_iv(
-                spdm_version,
-                hash_algo,
-                aead_algo,
-                &SpdmMajorSecret::SpdmDirectionDataSecret(
-                    &self.application_secret.request_data_secret,
-                ),
-            ) {
-                aki
-            } else {
-                return Err(SPDM_STATUS_CRYPTO_ERROR);
-            };
-            self.application_secret.request_direction.encryption_key = res.0;
-            self.application_secret.request_direction.salt = res.1;
-            debug!(
-                "!!! request_direction.encryption_key !!!: {:02x?}\n",
-                self.application_secret
-                    .request_direction
-                    .encryption_key
-                    .as_ref()
-            );
-            debug!(
-                "!!! request_direction.salt !!!: {:02x?}\n",
-                self.application_secret.request_direction.salt.as_ref()
-            );
+            self.application_secret.request_data_secret = secret;
+            self.application_secret.request_direction.encryption_key = encryption_key;
+            self.application_secret.request_direction.salt = salt;
             self.application_secret.request_direction.sequence_number = 0;
         }
-
-        if update_responder {
+        if let Some((secret, encryption_key, salt)) = response_update {
             self.application_secret_backup.response_data_secret =
                 self.application_secret.response_data_secret.clone();
             self.application_secret_backup.response_direction =
                 self.application_secret.response_direction.clone();
 
-            self.application_secret.response_data_secret = if let Some(us) =
-                self.key_schedule.derive_update_secret(
-                    spdm_version,
-                    hash_algo,
-                    &self.application_secret.response_data_secret,
-                ) {
-                us
-            } else {
-                return Err(SPDM_STATUS_CRYPTO_ERROR);
-            };
-            debug!(
-                "!!! response_data_secret !!!: {:02x?}\n",
-                self.application_secret.response_data_secret.as_ref()
-            );
-
-            let res = if let Some(aki) = self.key_schedule.derive_aead_key_iv(
-                spdm_version,
-                hash_algo,
-                aead_algo,
-                &SpdmMajorSecret::SpdmDirectionDataSecret(
-                    &self.application_secret.response_data_secret,
-                ),
-            ) {
-                aki
-            } else {
-                return Err(SPDM_STATUS_CRYPTO_ERROR);
-            };
-            self.application_secret.response_direction.encryption_key = res.0;
-            self.application_secret.response_direction.salt = res.1;
-            debug!(
-                "!!! response_direction.encryption_key !!!: {:02x?}\n",
-                self.application_secret
-                    .response_direction
-                    .encryption_key
-                    .as_ref()
-            );
-            debug!(
-                "!!! response_direction.salt !!!: {:02x?}\n",
-                self.application_secret.response_direction.salt.as_ref()
-            );
+            self.application_secret.response_data_secret = secret;
+            self.application_secret.response_direction.encryption_key = encryption_key;
+            self.application_secret.response_direction.salt = salt;
             self.application_secret.response_direction.sequence_number = 0;
         }
         Ok(())
diff --git a/spdmlib/src/responder/key_update_rsp.rs b/spdmlib/src/responder/key_update_rsp.rs
index b088047..026fe17 100644
--- a/spdmlib/src/responder/key_update_rsp.rs
+++ b/spdmlib/src/responder/key_update_rsp.rs
@@ -52,10 +52,22 @@ impl<'a> ResponderContext<'a> {
         let session = self.common.get_session_via_id(session_id).unwrap();
         match key_update_req.key_update_operation {
             SpdmKeyUpdateOperation::SpdmUpdateSingleKey => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, false);
+                if session
+                    .create_data_secret_update(spdm_version_sel, true, false)
+                    .is_err()
+                {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                }
             }
             SpdmKeyUpdateOperation::SpdmUpdateAllKeys => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, true);
+                if session
+                    .create_data_secret_update(spdm_version_sel, true, true)
+                    .is_err()
+                {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                }
                 let _ = session.activate_data_secret_update(spdm_version_sel, true, true, true);
             }
             SpdmKeyUpdateOperation::SpdmVerifyNewKey => {
-- 
2.43.0


From 318a9c3498fd28687d41b0844183aa4fdc1dd7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 16/47] fix: a vendor-defined length beyond the payload buffer
 is malformed

---
 spdmlib/src/message/vendor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index be9fd74..1bcef3d 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -103,6 +103,9 @@ impl Codec for VendorDefinedReqPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedReqPayloadStruct> {
         let req_length = u16::read(r)?;
+        if req_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_req_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_req_payload
             .iter_mut()
@@ -139,6 +142,9 @@ impl Codec for VendorDefinedRspPayloadStruct {
 
     fn read(r: &mut Reader) -> Option<VendorDefinedRspPayloadStruct> {
         let rsp_length = u16::read(r)?;
+        if rsp_length as usize > MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE {
+            return None;
+        }
         let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
         for d in vendor_defined_rsp_payload
             .iter_mut()
-- 
2.43.0


From e12a5841ffbde28e52fb4adeca0a3866ed677c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 17/47] fix: CHALLENGE_AUTH reports the provisioned slots

---
 spdmlib/src/responder/challenge_rsp.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index adf7692..992549f 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -119,6 +119,19 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        let mut slot_mask = 0u8;
+        for (id, cert_chain) in self
+            .common
+            .provision_info
+            .my_cert_chain
+            .iter()
+            .enumerate()
+        {
+            if cert_chain.is_some() {
+                slot_mask |= 1 << id;
+            }
+        }
+
         info!("send spdm challenge_auth\n");
 
         let response = SpdmMessage {
@@ -129,7 +142,7 @@ impl<'a> ResponderContext<'a> {
             payload: SpdmMessagePayload::SpdmChallengeAuthResponse(
                 SpdmChallengeAuthResponsePayload {
                     slot_id: slot_id as u8,
-                    slot_mask: 0x1,
+                    slot_mask,
                     challenge_auth_attribute: SpdmChallengeAuthAttribute::empty(),
                     cert_chain_hash,
                     nonce: SpdmNonceStruct { data: nonce },
-- 
2.43.0


From 2b97b5ecb80b16df3c43f3069b433357ade4ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 18/47] fix: report a total of one measurement as one

---
 spdmlib/src/message/measurement.rs       | 12 ++++--------
 spdmlib/src/responder/measurement_rsp.rs |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 01a5e03..432b910 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -149,14 +149,10 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         //When Param2 in the requested measurement operation is 0 , this
         //parameter shall return the total number of measurement indices on
         //the device. Otherwise, this field is reserved.
-        if self.number_of_measurement == 1 {
-            cnt += 0_u8.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        } else {
-            cnt += self
-                .number_of_measurement
-                .encode(bytes)
-                .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        }
+        cnt += self
+            .number_of_measurement
+            .encode(bytes)
+            .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
         if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
             && context.runtime_info.need_measurement_signature
         {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index a98f8f3..3b4d5f5 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -128,7 +128,7 @@ impl<'a> ResponderContext<'a> {
         {
             real_measurement_block_count
         } else {
-            1
+            0 // reserved
         };
         let measurement_record = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-- 
2.43.0


From 512a80616a0c18a15dd78ef2820343aa2abc546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 19/47] fix: a measurement response that could not be sent
 leaves no transcript

---
 spdmlib/src/responder/measurement_rsp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 3b4d5f5..e59784f 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -28,10 +28,15 @@ impl<'a> ResponderContext<'a> {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         self.write_spdm_measurement_response(session_id, bytes, &mut writer);
-        match session_id {
+        let result = match session_id {
             None => self.send_message(writer.used_slice()),
             Some(session_id) => self.send_secured_message(session_id, writer.used_slice(), false),
+        };
+        if result.is_err() {
+            // the requester did not get these measurements
+            self.common.reset_message_m(session_id);
         }
+        result
     }
 
     pub fn write_spdm_measurement_response(
-- 
2.43.0


From 7493b2df4998e1a160df108a3e6a63cb1f4cc419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 20/47] fix: keep a transcript context only once it has been
 seeded

When hashing message_a into a fresh transcript failed, the unseeded context
stayed behind, and later signatures covered a transcript without message_a.
---
 spdmlib/src/common/mod.rs | 45 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 48758f9..b03ba19 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -313,16 +313,14 @@ impl<'a> SpdmContext<'a> {
         #[cfg(feature = "hashed-transcript-data")]
         {
             if self.runtime_info.digest_context_m1m2.is_none() {
-                self.runtime_info.digest_context_m1m2 =
-                    crypto::hash::hash_ctx_init(self.negotiate_info.base_hash_sel);
-                if self.runtime_info.digest_context_m1m2.is_none() {
-                    return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
-                }
-
+                let mut digest_context =
+                    crypto::hash::hash_ctx_init(self.negotiate_info.base_hash_sel)
+                        .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
                 crypto::hash::hash_ctx_update(
-                    self.runtime_info.digest_context_m1m2.as_mut().unwrap(),
+                    &mut digest_context,
                     self.runtime_info.message_a.as_ref(),
                 )?;
+                self.runtime_info.digest_context_m1m2 = Some(digest_context);
             }
 
             crypto::hash::hash_ctx_update(
@@ -357,16 +355,14 @@ impl<'a> SpdmContext<'a> {
         #[cfg(feature = "hashed-transcript-data")]
         {
             if self.runtime_info.digest_context_m1m2.is_none() {
-                self.runtime_info.digest_context_m1m2 =
-                    crypto::hash::hash_ctx_init(self.negotiate_info.base_hash_sel);
-                if self.runtime_info.digest_context_m1m2.is_none() {
-                    return Err(SPDM_STATUS_CRYPTO_ERROR);
-                }
-
+                let mut digest_context =
+                    crypto::hash::hash_ctx_init(self.negotiate_info.base_hash_sel)
+                        .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
                 crypto::hash::hash_ctx_update(
-                    self.runtime_info.digest_context_m1m2.as_mut().unwrap(),
+                    &mut digest_context,
                     self.runtime_info.message_a.as_ref(),
                 )?;
+                self.runtime_info.digest_context_m1m2 = Some(digest_context);
             }
 
             crypto::hash::hash_ctx_update(
@@ -425,18 +421,16 @@ impl<'a> SpdmContext<'a> {
                         return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
                     };
                     if session.runtime_info.digest_context_l1l2.is_none() {
-                        session.runtime_info.digest_context_l1l2 =
-                            crypto::hash::hash_ctx_init(base_hash_sel);
-                        if session.runtime_info.digest_context_l1l2.is_none() {
-                            return Err(SPDM_STATUS_CRYPTO_ERROR);
-                        }
+                        let mut digest_context = crypto::hash::hash_ctx_init(base_hash_sel)
+                            .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
                         if spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8() {
                             crypto::hash::hash_ctx_update(
-                                session.runtime_info.digest_context_l1l2.as_mut().unwrap(),
+                                &mut digest_context,
                                 message_a.as_ref(),
                             )?;
                         }
+                        session.runtime_info.digest_context_l1l2 = Some(digest_context);
                     }
 
                     crypto::hash::hash_ctx_update(
@@ -446,20 +440,19 @@ impl<'a> SpdmContext<'a> {
                 }
                 None => {
                     if self.runtime_info.digest_context_l1l2.is_none() {
-                        self.runtime_info.digest_context_l1l2 =
-                            crypto::hash::hash_ctx_init(self.negotiate_info.base_hash_sel);
-                        if self.runtime_info.digest_context_l1l2.is_none() {
-                            return Err(SPDM_STATUS_CRYPTO_ERROR);
-                        }
+                        let mut digest_context =
+                            crypto::hash::hash_ctx_init(self.negotiate_info.base_hash_sel)
+                                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
                         if self.negotiate_info.spdm_version_sel.get_u8()
                             >= SpdmVersion::SpdmVersion12.get_u8()
                         {
                             crypto::hash::hash_ctx_update(
-                                self.runtime_info.digest_context_l1l2.as_mut().unwrap(),
+                                &mut digest_context,
                                 self.runtime_info.message_a.as_ref(),
                             )?;
                         }
+                        self.runtime_info.digest_context_l1l2 = Some(digest_context);
                     }
 
                     crypto::hash::hash_ctx_update(
-- 
2.43.0


From e0c40e0f14895b69ba909c6e7c7eac1b102d3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 21/47] fix: refuse requests that need an algorithm that was
 not negotiated

GET_MEASUREMENTS, CHALLENGE, KEY_EXCHANGE, PSK_EXCHANGE and FINISH panicked when
the negotiation had left the signature, DHE or AEAD algorithm unselected.
---
 spdmlib/src/common/spdm_codec.rs          | 6 ++++++
 spdmlib/src/responder/challenge_rsp.rs    | 5 +++++
 spdmlib/src/responder/key_exchange_rsp.rs | 8 ++++++++
 spdmlib/src/responder/measurement_rsp.rs  | 7 ++++++-
 spdmlib/src/responder/psk_exchange_rsp.rs | 5 +++++
 5 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index dad3de4..baa3d6a 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -68,6 +68,9 @@ impl SpdmCodec for SpdmSignatureStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmSignatureStruct> {
+        if context.negotiate_info.base_asym_sel.is_empty() {
+            return None;
+        }
         let data_size = context.get_asym_key_size();
         let mut data = [0u8; SPDM_MAX_ASYM_KEY_SIZE];
         for d in data.iter_mut().take(data_size as usize) {
@@ -169,6 +172,9 @@ impl SpdmCodec for SpdmDheExchangeStruct {
         Ok(self.data_size as usize)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmDheExchangeStruct> {
+        if context.negotiate_info.dhe_sel.is_empty() {
+            return None;
+        }
         let data_size = context.get_dhe_key_size();
         let mut data = [0u8; SPDM_MAX_DHE_KEY_SIZE];
         for d in data.iter_mut().take(data_size as usize) {
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 992549f..42a1f0b 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -47,6 +47,11 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        if self.common.negotiate_info.base_asym_sel.is_empty() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+            return;
+        }
+
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestChallenge, None);
 
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 9a487c3..a758b90 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -70,6 +70,14 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        if self.common.negotiate_info.base_asym_sel.is_empty()
+            || self.common.negotiate_info.dhe_sel.is_empty()
+            || self.common.negotiate_info.aead_sel.is_empty()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_STATE_PEER);
+        }
+
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestKeyExchange, None);
 
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index e59784f..88b68b2 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -80,7 +80,7 @@ impl<'a> ResponderContext<'a> {
         let get_measurements = get_measurements.unwrap();
         let slot_id = get_measurements.slot_id as usize;
 
-        let signature_size = self.common.negotiate_info.base_asym_sel.get_size();
+        let mut signature_size = 0;
 
         if get_measurements
             .measurement_attributes
@@ -96,6 +96,11 @@ impl<'a> ResponderContext<'a> {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+            if self.common.negotiate_info.base_asym_sel.is_empty() {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+                return;
+            }
+            signature_size = self.common.negotiate_info.base_asym_sel.get_size();
         } else {
             self.common.runtime_info.need_measurement_signature = false;
 
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index ff50f32..4a5761b 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -70,6 +70,11 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        if self.common.negotiate_info.aead_sel.is_empty() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_STATE_PEER);
+        }
+
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestPskExchange, None);
 
-- 
2.43.0


From a5cced1e0d82957b9d025a830f35da5d8746c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 22/47] fix: the DMTF specification id of SPDM 1.1 opaque data

The constant lacked a digit, so no secured message version list was recognised
below SPDM 1.2 and none was selected.
---
 spdmlib/src/common/opaque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e15ad78..3d1aa8f 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -17,7 +17,7 @@ pub const MAX_SPDM_OPAQUE_SIZE: usize = 1024;
 pub const MAX_SECURE_SPDM_VERSION_COUNT: usize = 0x02;
 pub const MAX_OPAQUE_LIST_ELEMENTS_COUNT: usize = 3;
 
-pub const DMTF_SPEC_ID: u32 = 0x444D546;
+pub const DMTF_SPEC_ID: u32 = 0x444D_5446;
 pub const DMTF_OPAQUE_VERSION: u8 = 0x01;
 pub const SM_DATA_VERSION: u8 = 0x01;
 pub const DMTF_ID: u8 = 0x00;
-- 
2.43.0


From 8cb139a78eefbec31bdc3446af3e0c2865faaca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 23/47] fix: running out of hash contexts fails the operation
 instead of panicking

---
 spdmlib/src/crypto/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/crypto/mod.rs b/spdmlib/src/crypto/mod.rs
index 2bdccb9..d014506 100644
--- a/spdmlib/src/crypto/mod.rs
+++ b/spdmlib/src/crypto/mod.rs
@@ -72,7 +72,9 @@ pub mod hash {
 
         impl Clone for SpdmHashCtx {
             fn clone(&self) -> Self {
-                hash_ctx_dup(self).expect("Out of resource")
+                // without a context left the copy holds no context (handle 0),
+                // so that whatever is done with it fails
+                hash_ctx_dup(self).unwrap_or_default()
             }
         }
 
-- 
2.43.0


From 106a3848da39a95491442b71b3a1439809f5ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 24/47] fix: certificate retrieval ends when the peer makes no
 progress

---
 spdmlib/src/requester/get_certificate_req.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 5e46537..1ea0a1f 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -104,6 +104,12 @@ impl<'a> RequesterContext<'a> {
                         if let Some(certificate) = certificate {
                             debug!("!!! certificate : {:02x?}\n", certificate);
 
+                            if certificate.portion_length == 0
+                                && certificate.remainder_length != 0
+                            {
+                                // no progress: such a peer could keep us here forever
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
                             if certificate.portion_length > length
                                 || certificate.portion_length
                                     > config::MAX_SPDM_CERT_CHAIN_DATA_SIZE as u16 - offset
@@ -199,9 +205,16 @@ impl<'a> RequesterContext<'a> {
 
         self.common.peer_info.peer_cert_chain_temp = Some(SpdmCertChainBuffer::default());
         while length != 0 {
-            let (portion_length, remainder_length) = self.send_receive_spdm_certificate_partial(
-                session_id, slot_id, total_size, offset, length,
-            )?;
+            let (portion_length, remainder_length) = match self
+                .send_receive_spdm_certificate_partial(
+                    session_id, slot_id, total_size, offset, length,
+                ) {
+                Ok(portion) => portion,
+                Err(e) => {
+                    self.common.peer_info.peer_cert_chain_temp = None;
+                    return Err(e);
+                }
+            };
             if total_size == 0 {
                 total_size = portion_length + remainder_length;
             }
-- 
2.43.0


From 52054759dd4dee4c0a922895b4105f7e50bb57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 25/47] fix: a new version exchange drops the requester's
 previous connection

---
 spdmlib/src/requester/get_version_req.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index c8a9b6e..7eea214 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -59,7 +59,7 @@ impl<'a> RequesterContext<'a> {
                         versions
                             .sort_unstable_by(|a, b| b.version.get_u8().cmp(&a.version.get_u8()));
 
-                        self.common.negotiate_info.spdm_version_sel = SpdmVersion::Unknown(0);
+                        let mut spdm_version_sel = SpdmVersion::Unknown(0);
 
                         for spdm_version_struct in
                             versions.iter().take(version_number_entry_count as usize)
@@ -70,13 +70,15 @@ impl<'a> RequesterContext<'a> {
                                 .spdm_version
                                 .contains(&spdm_version_struct.version)
                             {
-                                self.common.negotiate_info.spdm_version_sel =
-                                    spdm_version_struct.version;
+                                spdm_version_sel = spdm_version_struct.version;
                                 break;
                             }
                         }
 
-                        match self.common.negotiate_info.spdm_version_sel {
+                        // the responder has dropped the previous connection
+                        self.common.reset_context();
+
+                        match spdm_version_sel {
                             SpdmVersion::Unknown(_) => {
                                 debug!(
                                     "Version negotiation failed! with given version list: {:?}",
@@ -85,15 +87,10 @@ impl<'a> RequesterContext<'a> {
                                 return Err(SPDM_STATUS_NEGOTIATION_FAIL);
                             }
                             _ => {
-                                debug!(
-                                    "Version negotiated: {:?}",
-                                    self.common.negotiate_info.spdm_version_sel
-                                );
+                                debug!("Version negotiated: {:?}", spdm_version_sel);
                             }
                         }
-
-                        // clear cache data
-                        self.common.reset_runtime_info();
+                        self.common.negotiate_info.spdm_version_sel = spdm_version_sel;
 
                         self.common.append_message_a(send_buffer)?;
                         self.common.append_message_a(&receive_buffer[..used])?;
-- 
2.43.0


From da049f535b5ba9a18cbfde914ae47e6691312579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 26/47] fix: a vendor defined request no longer drops the
 requester's connection

---
 spdmlib/src/requester/vendor_req.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index b75e36b..acaaa28 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -21,9 +21,6 @@ impl<'a> RequesterContext<'a> {
             session_id,
         );
 
-        // clear cache data
-        self.common.reset_context();
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let request = SpdmMessage {
-- 
2.43.0


From 166679bf2a413cf271d3863bfc6ac8872a520f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 27/47] fix: the requester checks the version of VERSION and
 FINISH_RSP headers

---
 spdmlib/src/requester/finish_req.rs                |  3 +++
 spdmlib/src/requester/get_version_req.rs           |  3 +++
 spdmlib/src/requester/handle_error_response_req.rs | 12 ++++++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1c50b3b..6c47a09 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -210,6 +210,9 @@ impl<'a> RequesterContext<'a> {
         match SpdmMessageHeader::read(&mut reader) {
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseFinishRsp => {
+                    if message_header.version != self.common.negotiate_info.spdm_version_sel {
+                        return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                    }
                     let finish_rsp =
                         SpdmFinishResponsePayload::spdm_read(&mut self.common, &mut reader);
                     let receive_used = reader.used();
diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index 7eea214..e50f67c 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -45,6 +45,9 @@ impl<'a> RequesterContext<'a> {
         match SpdmMessageHeader::read(&mut reader) {
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseVersion => {
+                    if message_header.version != SpdmVersion::SpdmVersion10 {
+                        return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                    }
                     let version =
                         SpdmVersionResponsePayload::spdm_read(&mut self.common, &mut reader);
                     let used = reader.used();
diff --git a/spdmlib/src/requester/handle_error_response_req.rs b/spdmlib/src/requester/handle_error_response_req.rs
index 560eea4..e728ddb 100644
--- a/spdmlib/src/requester/handle_error_response_req.rs
+++ b/spdmlib/src/requester/handle_error_response_req.rs
@@ -10,6 +10,7 @@ use crate::error::{
     SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_SESSION_MSG_ERROR,
 };
 use crate::message::*;
+use crate::protocol::SpdmVersion;
 use crate::requester::RequesterContext;
 
 impl<'a> RequesterContext<'a> {
@@ -43,7 +44,7 @@ impl<'a> RequesterContext<'a> {
         &mut self,
         session_id: Option<u32>,
         response: &[u8],
-        _original_request_code: SpdmRequestResponseCode,
+        original_request_code: SpdmRequestResponseCode,
         _expected_response_code: SpdmRequestResponseCode,
     ) -> SpdmResult {
         let mut spdm_message_header_reader = Reader::init(response);
@@ -55,7 +56,14 @@ impl<'a> RequesterContext<'a> {
             };
         let header_size = spdm_message_header_reader.used();
 
-        if spdm_message_header.version != self.common.negotiate_info.spdm_version_sel {
+        // a version exchange always travels with version 1.0
+        let version_sel =
+            if original_request_code == SpdmRequestResponseCode::SpdmRequestGetVersion {
+                SpdmVersion::SpdmVersion10
+            } else {
+                self.common.negotiate_info.spdm_version_sel
+            };
+        if spdm_message_header.version != version_sel {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
-- 
2.43.0


From 19bf3beabae057db62777261d380ed7ff57ee969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 28/47] fix: a session that has to be resynchronized is
 released by the requester

---
 spdmlib/src/requester/handle_error_response_req.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/handle_error_response_req.rs b/spdmlib/src/requester/handle_error_response_req.rs
index e728ddb..b6507f5 100644
--- a/spdmlib/src/requester/handle_error_response_req.rs
+++ b/spdmlib/src/requester/handle_error_response_req.rs
@@ -4,7 +4,6 @@
 
 use codec::{Codec, Reader};
 
-use crate::common::session::SpdmSessionState;
 use crate::error::{
     SpdmResult, SPDM_STATUS_BUSY_PEER, SPDM_STATUS_ERROR_PEER, SPDM_STATUS_INVALID_MSG_FIELD,
     SPDM_STATUS_INVALID_PARAMETER, SPDM_STATUS_NOT_READY_PEER, SPDM_STATUS_SESSION_MSG_ERROR,
@@ -32,7 +31,7 @@ impl<'a> RequesterContext<'a> {
                 } else {
                     return Err(SPDM_STATUS_INVALID_PARAMETER);
                 };
-                session.set_session_state(SpdmSessionState::SpdmSessionNotStarted);
+                let _ = session.teardown(sid);
             }
             Err(SPDM_STATUS_INVALID_PARAMETER)
         } else {
-- 
2.43.0


From d4c35de61140389ad5ee3f1b2fcc3a46a3ad840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 29/47] fix: a failed key or PSK exchange leaves no session on
 the requester

---
 spdmlib/src/requester/key_exchange_req.rs | 10 ++++++++--
 spdmlib/src/requester/psk_exchange_req.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1eaf9bd..9dac307 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -54,14 +54,20 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_key_exhcange_response(
+        let session_status = self.common.get_session_status();
+        let result = self.handle_spdm_key_exhcange_response(
             req_session_id,
             slot_id,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
             measurement_summary_hash_type,
             key_exchange_context,
-        )
+        );
+        if result.is_err() {
+            // a failed exchange leaves no session behind
+            self.common.discard_sessions_since(&session_status);
+        }
+        result
     }
 
     pub fn encode_spdm_key_exchange(
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 7886632..f84e092 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -48,13 +48,19 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_psk_exchange_response(
+        let session_status = self.common.get_session_status();
+        let result = self.handle_spdm_psk_exchange_response(
             half_session_id,
             measurement_summary_hash_type,
             &psk_hint,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
-        )
+        );
+        if result.is_err() {
+            // a failed exchange leaves no session behind
+            self.common.discard_sessions_since(&session_status);
+        }
+        result
     }
 
     pub fn encode_spdm_psk_exchange(
-- 
2.43.0


From d49ffaf614ef8b121fa107e287440174c5d960da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 30/47] fix: the FINISH signature is checked against the
 requester's own chain, without panicking

---
 spdmlib/src/requester/finish_req.rs       | 19 ++++++++-----------
 spdmlib/src/requester/key_exchange_req.rs | 12 +++++-------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 6c47a09..c14d024 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -393,24 +393,21 @@ impl<'a> RequesterContext<'a> {
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
-        let peer_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
-        let peer_cert = &self.common.provision_info.my_cert_chain[peer_slot_id as usize]
+        let local_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
+        let local_cert_chain = self.common.provision_info.my_cert_chain[local_slot_id as usize]
             .as_ref()
-            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
+            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
+        let local_cert_chain_data = &local_cert_chain.data[(4usize
+            + self.common.negotiate_info.base_hash_sel.get_size() as usize)
+            ..(local_cert_chain.data_size as usize)];
 
         crate::crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
             self.common.negotiate_info.base_asym_sel,
-            peer_cert,
+            local_cert_chain_data,
             transcript_sign.as_ref(),
             &signature,
-        )
-        .unwrap();
+        )?;
 
         Ok(signature)
     }
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 9dac307..b864aef 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -243,15 +243,13 @@ impl<'a> RequesterContext<'a> {
                                 {
                                     return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                                 }
-                                if key_exchange_rsp.mut_auth_req
-                                    == SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_ENCAP_REQUEST
-                                    && key_exchange_rsp.req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8
-                                {
+                                let req_slot_id = key_exchange_rsp.req_slot_id & 0xf;
+                                if req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8 {
                                     return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                                 }
-                                self.common.runtime_info.set_local_used_cert_chain_slot_id(
-                                    key_exchange_rsp.req_slot_id & 0xf,
-                                );
+                                self.common
+                                    .runtime_info
+                                    .set_local_used_cert_chain_slot_id(req_slot_id);
                             }
 
                             let session = self
-- 
2.43.0


From 6fe5dc6f3106a30aad4f09607a284e37b8b8d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 31/47] fix: starting a session follows what the responder
 asked for and leaves nothing behind on failure

---
 spdmlib/src/requester/context.rs | 47 ++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e73026d..5e12869 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
+use crate::common::session::SpdmSessionState;
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
@@ -44,22 +45,50 @@ impl<'a> RequesterContext<'a> {
         if !use_psk {
             let session_id =
                 self.send_receive_spdm_key_exchange(slot_id, measurement_summary_hash_type)?;
-            #[cfg(not(feature = "mut-auth"))]
-            let req_slot_id: Option<u8> = None;
-            #[cfg(feature = "mut-auth")]
-            self.session_based_mutual_authenticate(session_id)?;
-            #[cfg(feature = "mut-auth")]
-            let req_slot_id = Some(self.common.runtime_info.get_local_used_cert_chain_slot_id());
-            self.send_receive_spdm_finish(req_slot_id, session_id)?;
-            Ok(session_id)
+            let result = self.finish_session(session_id);
+            if result.is_err() {
+                // a failed handshake leaves no session behind
+                if let Some(session) = self.common.get_session_via_id(session_id) {
+                    let _ = session.teardown(session_id);
+                }
+            }
+            result.map(|_| session_id)
         } else {
             let session_id =
                 self.send_receive_spdm_psk_exchange(measurement_summary_hash_type, None)?;
-            self.send_receive_spdm_psk_finish(session_id)?;
+            let established = self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map(|session| session.get_session_state())
+                == Some(SpdmSessionState::SpdmSessionEstablished);
+            if !established {
+                self.send_receive_spdm_psk_finish(session_id)?;
+            }
             Ok(session_id)
         }
     }
 
+    fn finish_session(&mut self, session_id: u32) -> SpdmResult {
+        #[cfg(not(feature = "mut-auth"))]
+        let req_slot_id: Option<u8> = None;
+        #[cfg(feature = "mut-auth")]
+        let req_slot_id = {
+            let mut_auth_requested = self
+                .common
+                .get_immutable_session_via_id(session_id)
+                .map_or(false, |session| {
+                    !session.get_mut_auth_requested().is_empty()
+                });
+            if mut_auth_requested {
+                self.session_based_mutual_authenticate(session_id)?;
+                Some(self.common.runtime_info.get_local_used_cert_chain_slot_id())
+            } else {
+                None
+            }
+        };
+        self.send_receive_spdm_finish(req_slot_id, session_id)
+    }
+
     pub fn end_session(&mut self, session_id: u32) -> SpdmResult {
         self.send_receive_spdm_end_session(session_id)
     }
-- 
2.43.0


From 007263091df57b7950cc0bfe3d159c89ce3e73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 32/47] fix: a large crypto timeout exponent does not overflow

---
 spdmlib/src/requester/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 5e12869..8e70689 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -135,7 +135,9 @@ impl<'a> RequesterContext<'a> {
         info!("receive_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            1usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32 + 1)
+                .unwrap_or(usize::MAX)
         } else {
             ST1
         };
@@ -159,7 +161,9 @@ impl<'a> RequesterContext<'a> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            1usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32 + 1)
+                .unwrap_or(usize::MAX)
         } else {
             ST1
         };
-- 
2.43.0


From f50df2e5881d23e6c2c76662f8225a5f911f2c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 33/47] fix: encapsulated digests carry the digest of every
 provisioned slot

---
 spdmlib/src/requester/encap_digest.rs | 52 ++++++++++++++-------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/spdmlib/src/requester/encap_digest.rs b/spdmlib/src/requester/encap_digest.rs
index 0a2c5b5..5c564b2 100644
--- a/spdmlib/src/requester/encap_digest.rs
+++ b/spdmlib/src/requester/encap_digest.rs
@@ -78,6 +78,32 @@ impl<'a> RequesterContext<'a> {
             }
         }
 
+        let mut digests = gen_array_clone(
+            SpdmDigestStruct {
+                data_size: self.common.negotiate_info.base_hash_sel.get_size(),
+                data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
+            },
+            SPDM_MAX_SLOT_NUMBER,
+        );
+        // the digests follow each other in the order of their slots
+        let mut slot_count = 0usize;
+        for my_cert_chain in self.common.provision_info.my_cert_chain.iter().flatten() {
+            if let Some(cert_chain_hash) = crypto::hash::hash_all(
+                self.common.negotiate_info.base_hash_sel,
+                my_cert_chain.as_ref(),
+            ) {
+                digests[slot_count] = cert_chain_hash;
+                slot_count += 1;
+            } else {
+                self.encode_encap_error_response(
+                    SpdmErrorCode::SpdmErrorUnspecified,
+                    0,
+                    encap_response,
+                );
+                return;
+            }
+        }
+
         let response = SpdmMessage {
             header: SpdmMessageHeader {
                 version: self.common.negotiate_info.spdm_version_sel,
@@ -85,13 +111,7 @@ impl<'a> RequesterContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmDigestsResponse(SpdmDigestsResponsePayload {
                 slot_mask,
-                digests: gen_array_clone(
-                    SpdmDigestStruct {
-                        data_size: self.common.negotiate_info.base_hash_sel.get_size(),
-                        data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
-                    },
-                    SPDM_MAX_SLOT_NUMBER,
-                ),
+                digests,
             }),
         };
 
@@ -106,24 +126,6 @@ impl<'a> RequesterContext<'a> {
             );
             return;
         }
-
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                )
-                .unwrap();
-
-                // patch the message before send
-                let used = encap_response.used();
-                encap_response.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-            }
-        }
         debug!("!!! encap get_digests : complete\n");
     }
 }
-- 
2.43.0


From 8fcc4d6450e12219693344d994cebf2a64994522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 34/47] fix: the requester does not read past the end of
 encapsulated messages

---
 spdmlib/src/requester/encap_req.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 3e5c64d..6e759ca 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -99,8 +99,8 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let _ = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -117,14 +117,14 @@ impl<'a> RequesterContext<'a> {
         self.process_encapsulated_request(
             session_id,
             encapsulated_request.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )
     }
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -161,13 +161,13 @@ impl<'a> RequesterContext<'a> {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
                 }
             }
-            _ => {}
+            _ => return Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
 
         self.process_encapsulated_request(
             session_id,
             ack_header.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )?;
 
         Ok(true)
-- 
2.43.0


From d4f0e0ee0c56a214016c465f6b8b504ece06c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 35/47] fix: the requester refuses a secured message version it
 did not offer

---
 spdmlib/src/requester/key_exchange_req.rs | 10 +++++++++-
 spdmlib/src/requester/psk_exchange_req.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index b864aef..3322635 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -5,6 +5,7 @@
 extern crate alloc;
 use alloc::boxed::Box;
 
+use crate::common::opaque::{DMTF_SECURE_SPDM_VERSION_10, DMTF_SECURE_SPDM_VERSION_11};
 use crate::common::session::SpdmSession;
 use crate::error::SPDM_STATUS_BUFFER_FULL;
 use crate::error::SPDM_STATUS_CRYPTO_ERROR;
@@ -208,7 +209,14 @@ impl<'a> RequesterContext<'a> {
                                     .opaque
                                     .req_get_dmtf_secure_spdm_version_selection(&mut self.common)
                             {
-                                secured_message_version.get_secure_spdm_version()
+                                let version = secured_message_version.get_secure_spdm_version();
+                                // only a version of the offered list can be selected
+                                if version != DMTF_SECURE_SPDM_VERSION_10
+                                    && version != DMTF_SECURE_SPDM_VERSION_11
+                                {
+                                    return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                                }
+                                version
                             } else {
                                 0
                             };
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index f84e092..d6b3e73 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -4,6 +4,7 @@
 
 use config::MAX_SPDM_PSK_CONTEXT_SIZE;
 
+use crate::common::opaque::{DMTF_SECURE_SPDM_VERSION_10, DMTF_SECURE_SPDM_VERSION_11};
 use crate::crypto;
 use crate::error::SPDM_STATUS_BUFFER_FULL;
 use crate::error::SPDM_STATUS_UNSUPPORTED_CAP;
@@ -172,7 +173,14 @@ impl<'a> RequesterContext<'a> {
                                     .opaque
                                     .req_get_dmtf_secure_spdm_version_selection(&mut self.common)
                             {
-                                secured_message_version.get_secure_spdm_version()
+                                let version = secured_message_version.get_secure_spdm_version();
+                                // only a version of the offered list can be selected
+                                if version != DMTF_SECURE_SPDM_VERSION_10
+                                    && version != DMTF_SECURE_SPDM_VERSION_11
+                                {
+                                    return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                                }
+                                version
                             } else {
                                 0
                             };
-- 
2.43.0


From 9e4b09415538c69463105981b8d1150148534f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 36/47] fix: the requester checks the slot of CHALLENGE_AUTH
 and drops an incomplete transcript

---
 spdmlib/src/requester/challenge_req.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 7ac271e..836be6a 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -104,13 +104,25 @@ impl<'a> RequesterContext<'a> {
                         if let Some(challenge_auth) = challenge_auth {
                             debug!("!!! challenge_auth : {:02x?}\n", challenge_auth);
 
+                            if challenge_auth.slot_id != slot_id {
+                                error!("slot id is not match between requester and responder!\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
+
                             // verify signature
                             let base_asym_size =
                                 self.common.negotiate_info.base_asym_sel.get_size() as usize;
                             let temp_used = used - base_asym_size;
 
-                            self.common.append_message_c(send_buffer)?;
-                            self.common.append_message_c(&receive_buffer[..temp_used])?;
+                            let result =
+                                self.common.append_message_c(send_buffer).and_then(|_| {
+                                    self.common.append_message_c(&receive_buffer[..temp_used])
+                                });
+                            if result.is_err() {
+                                self.common.reset_message_b();
+                                self.common.reset_message_c();
+                                return result;
+                            }
 
                             if self
                                 .verify_challenge_auth_signature(slot_id, &challenge_auth.signature)
-- 
2.43.0


From 1b0d0f4a12ed27b1c43040ec2ea5bf17111fb06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 37/47] fix: the requester refuses algorithms it did not offer

---
 .../src/requester/negotiate_algorithms_req.rs | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index dafdf9a..13e98ef 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -90,6 +90,37 @@ impl<'a> RequesterContext<'a> {
                         if let Some(algorithms) = algorithms {
                             debug!("!!! algorithms : {:02x?}\n", algorithms);
 
+                            // nothing may be selected that was not offered
+                            let config_info = &self.common.config_info;
+                            let mut offered = config_info
+                                .measurement_specification
+                                .contains(algorithms.measurement_specification_sel)
+                                && config_info
+                                    .opaque_support
+                                    .contains(algorithms.other_params_selection)
+                                && config_info.base_hash_algo.contains(algorithms.base_hash_sel)
+                                && config_info.base_asym_algo.contains(algorithms.base_asym_sel);
+                            for alg in algorithms
+                                .alg_struct
+                                .iter()
+                                .take(algorithms.alg_struct_count as usize)
+                            {
+                                offered &= match &alg.alg_supported {
+                                    SpdmAlg::SpdmAlgoDhe(v) => config_info.dhe_algo.contains(*v),
+                                    SpdmAlg::SpdmAlgoAead(v) => config_info.aead_algo.contains(*v),
+                                    SpdmAlg::SpdmAlgoReqAsym(v) => {
+                                        config_info.req_asym_algo.contains(*v)
+                                    }
+                                    SpdmAlg::SpdmAlgoKeySchedule(v) => {
+                                        config_info.key_schedule_algo.contains(*v)
+                                    }
+                                    SpdmAlg::SpdmAlgoUnknown(_v) => true,
+                                };
+                            }
+                            if !offered {
+                                return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                            }
+
                             self.common.negotiate_info.measurement_specification_sel =
                                 algorithms.measurement_specification_sel;
 
-- 
2.43.0


From 1e73f6f8bfefd490ea58baa49630f862944ff76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 38/47] fix: application data is not taken for an SPDM response

---
 spdmlib/src/common/mod.rs                     | 18 ++++++++---
 spdmlib/src/requester/context.rs              | 32 +++++++++++++++++--
 spdmlib/src/requester/encap_req.rs            |  4 +--
 spdmlib/src/requester/end_session_req.rs      |  2 +-
 spdmlib/src/requester/finish_req.rs           |  2 +-
 spdmlib/src/requester/get_certificate_req.rs  |  2 +-
 spdmlib/src/requester/get_digests_req.rs      |  2 +-
 spdmlib/src/requester/get_measurements_req.rs |  2 +-
 spdmlib/src/requester/heartbeat_req.rs        |  2 +-
 spdmlib/src/requester/key_update_req.rs       |  2 +-
 spdmlib/src/requester/psk_finish_req.rs       |  2 +-
 spdmlib/src/requester/vendor_req.rs           |  2 +-
 12 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index b03ba19..fb9f7c0 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -1011,6 +1011,17 @@ impl<'a> SpdmContext<'a> {
         transport_buffer: &[u8],
         receive_buffer: &mut [u8],
     ) -> SpdmResult<usize> {
+        self.decode_secured_message_with_type(session_id, transport_buffer, receive_buffer)
+            .map(|used| used.0)
+    }
+
+    /// Also tells whether the record carries application data.
+    pub fn decode_secured_message_with_type(
+        &mut self,
+        session_id: u32,
+        transport_buffer: &[u8],
+        receive_buffer: &mut [u8],
+    ) -> SpdmResult<(usize, bool)> {
         let mut encoded_receive_buffer = [0u8; config::RECEIVER_BUFFER_SIZE];
         let (used, secured_message) = self
             .transport_encap
@@ -1031,11 +1042,8 @@ impl<'a> SpdmContext<'a> {
             false,
         )?;
 
-        let used = self
-            .transport_encap
-            .decap_app(&app_buffer[0..decode_size], receive_buffer)?;
-
-        Ok(used.0)
+        self.transport_encap
+            .decap_app(&app_buffer[0..decode_size], receive_buffer)
     }
 }
 
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 8e70689..bd1fc4a 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -158,6 +158,31 @@ impl<'a> RequesterContext<'a> {
         receive_buffer: &mut [u8],
         crypto_request: bool,
     ) -> SpdmResult<usize> {
+        self.receive_secured_message_with_type(session_id, receive_buffer, crypto_request)
+            .map(|used| used.0)
+    }
+
+    /// Receives an SPDM message in a session. Application data is not one.
+    pub(crate) fn receive_secured_spdm_message(
+        &mut self,
+        session_id: u32,
+        receive_buffer: &mut [u8],
+        crypto_request: bool,
+    ) -> SpdmResult<usize> {
+        let (used, is_app_message) =
+            self.receive_secured_message_with_type(session_id, receive_buffer, crypto_request)?;
+        if is_app_message {
+            return Err(SPDM_STATUS_RECEIVE_FAIL);
+        }
+        Ok(used)
+    }
+
+    fn receive_secured_message_with_type(
+        &mut self,
+        session_id: u32,
+        receive_buffer: &mut [u8],
+        crypto_request: bool,
+    ) -> SpdmResult<(usize, bool)> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
@@ -176,7 +201,10 @@ impl<'a> RequesterContext<'a> {
             .receive(&mut transport_buffer, timeout)
             .map_err(|_| SPDM_STATUS_RECEIVE_FAIL)?;
 
-        self.common
-            .decode_secured_message(session_id, &transport_buffer[..used], receive_buffer)
+        self.common.decode_secured_message_with_type(
+            session_id,
+            &transport_buffer[..used],
+            receive_buffer,
+        )
     }
 }
diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 6e759ca..44543e0 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -99,7 +99,7 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
@@ -123,7 +123,7 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
diff --git a/spdmlib/src/requester/end_session_req.rs b/spdmlib/src/requester/end_session_req.rs
index 6260369..1594e4f 100644
--- a/spdmlib/src/requester/end_session_req.rs
+++ b/spdmlib/src/requester/end_session_req.rs
@@ -23,7 +23,7 @@ impl<'a> RequesterContext<'a> {
         self.send_secured_message(session_id, &send_buffer[..used], false)?;
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_end_session_response(session_id, &receive_buffer[..used])
     }
 
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index c14d024..c7fbc0d 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -79,7 +79,7 @@ impl<'a> RequesterContext<'a> {
         let res = if in_clear_text {
             self.receive_message(&mut receive_buffer, false)
         } else {
-            self.receive_secured_message(session_id, &mut receive_buffer, false)
+            self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)
         };
         if res.is_err() {
             let _ = self
diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 1ea0a1f..4a33db8 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -37,7 +37,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
diff --git a/spdmlib/src/requester/get_digests_req.rs b/spdmlib/src/requester/get_digests_req.rs
index f890666..cfd791b 100644
--- a/spdmlib/src/requester/get_digests_req.rs
+++ b/spdmlib/src/requester/get_digests_req.rs
@@ -29,7 +29,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 63b384b..263c3db 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -53,7 +53,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, true)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, true)?
             }
             None => self.receive_message(&mut receive_buffer, true)?,
         };
diff --git a/spdmlib/src/requester/heartbeat_req.rs b/spdmlib/src/requester/heartbeat_req.rs
index 33eef0e..5504103 100644
--- a/spdmlib/src/requester/heartbeat_req.rs
+++ b/spdmlib/src/requester/heartbeat_req.rs
@@ -21,7 +21,7 @@ impl<'a> RequesterContext<'a> {
 
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_heartbeat_response(session_id, &receive_buffer[..used])
     }
 
diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 9777323..d718df3 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -39,7 +39,7 @@ impl<'a> RequesterContext<'a> {
         let update_responder = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
         session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)?;
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
 
         self.handle_spdm_key_update_op_response(
             session_id,
diff --git a/spdmlib/src/requester/psk_finish_req.rs b/spdmlib/src/requester/psk_finish_req.rs
index a33051e..acb69f5 100644
--- a/spdmlib/src/requester/psk_finish_req.rs
+++ b/spdmlib/src/requester/psk_finish_req.rs
@@ -47,7 +47,7 @@ impl<'a> RequesterContext<'a> {
         }
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let res = self.receive_secured_message(session_id, &mut receive_buffer, false);
+        let res = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false);
         if res.is_err() {
             let _ = self
                 .common
diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index acaaa28..9147318 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -51,7 +51,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
-- 
2.43.0


From 46cbce628fb070876b72b819e42e90dad8723f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 39/47] fix: record keys have the size the negotiated AEAD
 needs

---
 spdmlib/src/common/key_schedule.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index ff8bf48..3c1bcca 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -221,7 +221,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -229,7 +229,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
         };
         let encrypt_key = SpdmAeadKeyStruct::from_spdm_hkdf_okm(okm)?;
@@ -248,7 +248,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -256,7 +256,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
         };
         let iv = SpdmAeadIvStruct::from_spdm_hkdf_okm(okm)?;
-- 
2.43.0


From 189d05a924c87124baa19a0ddb18c87e99f65132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 40/47] fix: VERSION entries are not mixed up with unused table
 entries

The requester sorted the whole table of versions, so a listed value below
1.0 was replaced by the padding and 1.0 was selected although the responder
had not listed it.
---
 spdmlib/src/requester/get_version_req.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index e50f67c..beae5ae 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -59,7 +59,8 @@ impl<'a> RequesterContext<'a> {
                             mut versions,
                         } = version;
 
-                        versions
+                        // only the entries the responder listed, not the padding
+                        versions[..version_number_entry_count as usize]
                             .sort_unstable_by(|a, b| b.version.get_u8().cmp(&a.version.get_u8()));
 
                         let mut spdm_version_sel = SpdmVersion::Unknown(0);
-- 
2.43.0


From 9b9b173d620ae8e6b5ecc25e4035d6581c64bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 41/47] fix: PCI DOE application messages that do not fit are
 refused

encap_app and decap_app copied into a buffer that may be smaller, so a
secured message of a peer that is longer than an SPDM message panicked.
---
 pcidoe_transport/src/header.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index b247322..311edd7 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -5,7 +5,10 @@
 use codec::enum_builder;
 use codec::{Codec, Reader, Writer};
 use spdmlib::common::SpdmTransportEncap;
-use spdmlib::error::{SpdmResult, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_FAIL};
+use spdmlib::error::{
+    SpdmResult, SPDM_STATUS_DECAP_APP_FAIL, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_APP_FAIL,
+    SPDM_STATUS_ENCAP_FAIL,
+};
 
 enum_builder! {
     @U16
@@ -149,6 +152,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &mut [u8],
         _is_app_message: bool,
     ) -> SpdmResult<usize> {
+        if app_buffer.len() < spdm_buffer.len() {
+            return Err(SPDM_STATUS_ENCAP_APP_FAIL);
+        }
         app_buffer[0..spdm_buffer.len()].copy_from_slice(spdm_buffer);
         Ok(spdm_buffer.len())
     }
@@ -158,6 +164,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &[u8],
         spdm_buffer: &mut [u8],
     ) -> SpdmResult<(usize, bool)> {
+        if spdm_buffer.len() < app_buffer.len() {
+            return Err(SPDM_STATUS_DECAP_APP_FAIL);
+        }
         spdm_buffer[0..app_buffer.len()].copy_from_slice(app_buffer);
         Ok((app_buffer.len(), false))
     }
-- 
2.43.0


From 2449e05f149813cf14d3d6923f2c583f008b463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 42/47] fix: a PCI DOE data object that is too long is refused
 instead of panicking

---
 pcidoe_transport/src/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index 311edd7..ef0d3eb 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -51,9 +51,9 @@ impl Codec for PciDoeMessageHeader {
         cnt += self.vendor_id.encode(bytes)?;
         cnt += self.data_object_type.encode(bytes)?;
         cnt += 0u8.encode(bytes)?;
-        let mut length = (self.payload_length + 8) >> 2;
+        let mut length = self.payload_length.checked_add(8).ok_or(codec::EncodeErr)? >> 2;
         if length > 0x40000 {
-            panic!();
+            return Err(codec::EncodeErr);
         }
         if length == 0x40000 {
             length = 0;
-- 
2.43.0


From b117732b65bc3f6e05ef18445bf55be19289376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 43/47] fix: malformed certificate lengths are refused instead
 of panicking

---
 spdmlib/src/crypto/x509v3.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/spdmlib/src/crypto/x509v3.rs b/spdmlib/src/crypto/x509v3.rs
index e1521af..c8eb83f 100644
--- a/spdmlib/src/crypto/x509v3.rs
+++ b/spdmlib/src/crypto/x509v3.rs
@@ -69,6 +69,10 @@ fn check_cert_format(cert: &[u8], base_asym_algo: SpdmBaseAsymAlgo) -> SpdmResul
     let (body_size, bytes_consumed) = check_length(&cert[c_walker..])?;
     c_walker += bytes_consumed;
 
+    if len - c_walker < body_size {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
+
     if len == c_walker + body_size {
         c_walker += check_tbs_certificate(&cert[c_walker..], base_asym_algo, true)?;
         c_walker += check_signature_algorithm(&cert[c_walker..], base_asym_algo, true)?;
@@ -102,7 +106,7 @@ fn check_tbs_certificate(
 
     let length_before_tbs = t_walker;
 
-    if len < t_walker + tbs_length {
+    if len - t_walker < tbs_length {
         return Err(SPDM_STATUS_VERIF_FAIL);
     }
 
@@ -125,6 +129,9 @@ fn check_tbs_certificate(
     } else {
         check_object_identifier(&data[t_walker..], None)?;
     }
+    if len - t_walker < signature_id_length {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
     t_walker += signature_id_length;
     // issuer               Name,
     let bytes_consumed = check_name(&data[t_walker..])?;
@@ -154,6 +161,7 @@ fn check_signature_algorithm(
     is_leaf_cert: bool,
 ) -> SpdmResult<usize> {
     let mut s_walker = 0usize;
+    let len = data.len();
     // signature            AlgorithmIdentifier,
     check_tag_is_sequence(&data[s_walker..])?;
     s_walker += 1;
@@ -165,6 +173,9 @@ fn check_signature_algorithm(
     } else {
         check_object_identifier(&data[s_walker..], None)?;
     }
+    if len - s_walker < signature_id_length {
+        return Err(SPDM_STATUS_VERIF_FAIL);
+    }
 
     Ok(s_walker + signature_id_length)
 }
@@ -194,10 +205,13 @@ fn check_length(data: &[u8]) -> SpdmResult<(usize, usize)> {
         Ok((data[0] as usize, 1))
     } else {
         let length_count = data[0] - ASN1_LENGTH_MULTI_OCTET_MASK;
-        if len < (length_count as usize + 1) || length_count == 0 {
+        let mut length = [0u8; core::mem::size_of::<usize>()];
+        if len < (length_count as usize + 1)
+            || length_count == 0
+            || length_count as usize > length.len()
+        {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
-            let mut length = [0u8; 8];
             for (i, b) in data[1..length_count as usize + 1].iter().rev().enumerate() {
                 length[i] = *b;
             }
@@ -263,7 +277,7 @@ fn check_and_skip_common_sequence(data: &[u8]) -> SpdmResult<usize> {
         Err(SPDM_STATUS_VERIF_FAIL)
     } else {
         let (payload_length, bytes_consumed) = check_length(&data[1..])?;
-        if len < 1 + bytes_consumed + payload_length {
+        if len - 1 - bytes_consumed < payload_length {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             Ok(1 + bytes_consumed + payload_length)
@@ -277,7 +291,7 @@ fn check_and_skip_common_tag(data: &[u8]) -> SpdmResult<usize> {
         Err(SPDM_STATUS_VERIF_FAIL)
     } else {
         let (payload_length, bytes_consumed) = check_length(&data[1..])?;
-        if len < 1 + bytes_consumed + payload_length {
+        if len - 1 - bytes_consumed < payload_length {
             Err(SPDM_STATUS_VERIF_FAIL)
         } else {
             Ok(1 + bytes_consumed + payload_length)
-- 
2.43.0


From d211155cc3f020d494197cbb54c3215ef9a7e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 44/47] fix: PSK_FINISH is accepted when the handshake may be
 in the clear

---
 spdmlib/src/responder/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 6414b8d..bacd752 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -246,7 +246,8 @@ impl<'a> ResponderContext<'a> {
                         .negotiate_info
                         .rsp_capabilities_sel
                         .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
-                if in_clear_text {
+                // only the handshake of KEY_EXCHANGE can be in the clear
+                if in_clear_text && !session.get_use_psk() {
                     return Err(SPDM_STATUS_UNSUPPORTED_CAP);
                 }
 
-- 
2.43.0


From 716430fdac43e515b5686f35e6a23652e3661e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:35 +0000
Subject: [PATCH 45/47] fix: both sides keep the same transcript for CHALLENGE
 after an authentication

A connection after a certificate was taken for an authenticated one, and the
requester never knew it was authenticated.
---
 spdmlib/src/common/mod.rs              | 2 +-
 spdmlib/src/requester/challenge_req.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index fb9f7c0..33b6ced 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -42,7 +42,7 @@ enum_builder! {
         SpdmConnectionAfterCertificate => 0x5,
         // After CHALLENGE/CHALLENGE_AUTH,
         // and ENCAP CHALLENGE/CHALLENGE_AUTH if MUT_AUTH is enabled.
-        SpdmConnectionAuthenticated => 0x5
+        SpdmConnectionAuthenticated => 0x6
     }
 }
 impl Default for SpdmConnectionState {
diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 836be6a..d4f35c6 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: BSD-2-Clause-Patent
 
+use crate::common::SpdmConnectionState;
 use crate::crypto;
 #[cfg(feature = "hashed-transcript-data")]
 use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
@@ -135,6 +136,9 @@ impl<'a> RequesterContext<'a> {
                             } else {
                                 self.common.reset_message_b();
                                 self.common.reset_message_c();
+                                self.common.runtime_info.set_connection_state(
+                                    SpdmConnectionState::SpdmConnectionAuthenticated,
+                                );
                                 info!("verify_challenge_auth_signature pass");
                             }
 
-- 
2.43.0


From 5a84d4c64cdbedc6ee4a3b4a57168b57bf40cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:55 +0000
Subject: [PATCH 46/47] fix: mutual authentication is requested only when both
 sides support it

---
 spdmlib/src/responder/key_exchange_rsp.rs | 25 ++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index a758b90..f35666a 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -250,6 +250,26 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
 
+        // mutual authentication is only requested when both sides support it
+        #[cfg(feature = "mut-auth")]
+        let mut_auth_req = if self
+            .common
+            .negotiate_info
+            .req_capabilities_sel
+            .contains(SpdmRequestCapabilityFlags::MUT_AUTH_CAP)
+            && self
+                .common
+                .negotiate_info
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::MUT_AUTH_CAP)
+        {
+            SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS
+        } else {
+            SpdmKeyExchangeMutAuthAttributes::empty()
+        };
+        #[cfg(not(feature = "mut-auth"))]
+        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::empty();
+
         let session = self.common.get_next_avaiable_session();
         if session.is_none() {
             error!("!!! too many sessions : fail !!!\n");
@@ -257,11 +277,6 @@ impl<'a> ResponderContext<'a> {
             return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
         }
 
-        #[cfg(feature = "mut-auth")]
-        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::MUT_AUTH_REQ_WITH_GET_DIGESTS;
-        #[cfg(not(feature = "mut-auth"))]
-        let mut_auth_req = SpdmKeyExchangeMutAuthAttributes::empty();
-
         let session = session.unwrap();
         let session_id = ((rsp_session_id as u32) << 16) + key_exchange_req.req_session_id as u32;
         session.setup(session_id).unwrap();
-- 
2.43.0


From 5ba97cf6a9d9937bcd7389964d1d1bb3bc13a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:01 +0000
Subject: [PATCH 47/47] fix: the requester sends and takes application data in
 established sessions only

---
 spdmlib/src/requester/context.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index bd1fc4a..ee97ff6 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -6,7 +6,9 @@ use crate::common::session::SpdmSessionState;
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
-use crate::error::{SpdmResult, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL};
+use crate::error::{
+    SpdmResult, SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL,
+};
 use crate::protocol::*;
 
 pub struct RequesterContext<'a> {
@@ -116,6 +118,9 @@ impl<'a> RequesterContext<'a> {
         {
             return Err(SPDM_STATUS_SEND_FAIL);
         }
+        if is_app_message && !self.is_session_established(session_id) {
+            return Err(SPDM_STATUS_INVALID_STATE_LOCAL);
+        }
         let mut transport_buffer = [0u8; config::SENDER_BUFFER_SIZE];
         let used = self.common.encode_secured_message(
             session_id,
@@ -158,8 +163,21 @@ impl<'a> RequesterContext<'a> {
         receive_buffer: &mut [u8],
         crypto_request: bool,
     ) -> SpdmResult<usize> {
-        self.receive_secured_message_with_type(session_id, receive_buffer, crypto_request)
-            .map(|used| used.0)
+        let (used, is_app_message) =
+            self.receive_secured_message_with_type(session_id, receive_buffer, crypto_request)?;
+        if is_app_message && !self.is_session_established(session_id) {
+            return Err(SPDM_STATUS_RECEIVE_FAIL);
+        }
+        Ok(used)
+    }
+
+    /// Application data belongs into established sessions only.
+    fn is_session_established(&self, session_id: u32) -> bool {
+        self.common
+            .get_immutable_session_via_id(session_id)
+            .map_or(false, |session| {
+                session.get_session_state() == SpdmSessionState::SpdmSessionEstablished
+            })
     }
 
     /// Receives an SPDM message in a session. Application data is not one.
-- 
2.43.0

