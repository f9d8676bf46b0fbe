From d282c89db9d2cdd0bd829c741c75c058d3f2f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 01/32] fix: keep old ratchet keys when an out-of-order frame
 arrives

try_advance_ratchet() used wrapping_sub to see whether a frame is far ahead of
the frame of the last ratchet step. For a late frame of an older ratchet the
difference wraps, so the old secret was replaced by the newer one and the next
late frame could not be decrypted although its key was within the limits.
---
 src/rust/src/core/crypto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/core/crypto.rs b/src/rust/src/core/crypto.rs
index 04a1ae8..9cc5743 100644
--- a/src/rust/src/core/crypto.rs
+++ b/src/rust/src/core/crypto.rs
@@ -160,7 +160,7 @@ impl ReceiverState {
             cur = cur.wrapping_add(1);
         }
         let sender_state = SenderState::new(ratchet_counter_goal, secret);
-        if frame_counter.wrapping_sub(self.ratchet_frame) > MAX_OOO_FRAMES {
+        if frame_counter.saturating_sub(self.ratchet_frame) > MAX_OOO_FRAMES {
             Self {
                 sender_state,
                 ratchet_frame: frame_counter,
-- 
2.43.0


From ccfa389eb2ea06dd7344e0f114879e21b55b17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 02/32] fix: stop the threads of a call that is dropped without
 being terminated

---
 src/rust/src/core/call_fsm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/src/core/call_fsm.rs b/src/rust/src/core/call_fsm.rs
index de8ff57..5a42540 100644
--- a/src/rust/src/core/call_fsm.rs
+++ b/src/rust/src/core/call_fsm.rs
@@ -217,6 +217,10 @@ where
 {
     fn drop(&mut self) {
         debug!("Dropping CallStateMachine:");
+        // A call that is dropped without ever being terminated (such as a rejected one) must not
+        // leave its threads behind.
+        self.worker_thread.stopper().stop_all_without_joining();
+        self.notify_thread.stopper().stop_all_without_joining();
     }
 }
 
-- 
2.43.0


From 896cbd77cdaefb351cc92fc0411cbc6596c36db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 03/32] fix: notify the application that a call concluded even
 if its last two references are dropped at once

---
 src/rust/src/core/call.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index fa505a1..b6a2de4 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -10,7 +10,7 @@ use std::{
     fmt,
     sync::{
         Arc, Condvar, Mutex, MutexGuard,
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicBool, AtomicUsize, Ordering},
         mpsc::SyncSender,
     },
     thread,
@@ -115,6 +115,9 @@ where
     call_summary: DirectCallSummary,
     /// Registry for accessing large, pre-loaded assets
     asset_registry: AssetRegistry,
+    /// Number of `Call` objects sharing this state. Each object gives up its own count when it is
+    /// dropped, so exactly one of them notices being the last.
+    live_refs: Arc<AtomicUsize>,
 }
 
 impl<T> fmt::Display for Call<T>
@@ -151,7 +154,7 @@ where
     T: Platform,
 {
     fn drop(&mut self) {
-        if self.ref_count() == 1 {
+        if self.live_refs.fetch_sub(1, Ordering::AcqRel) == 1 {
             info!("Call: Dropping last reference: {}", self.call_id);
 
             // This is the last call reference, so let the application
@@ -176,6 +179,7 @@ where
     T: Platform,
 {
     fn clone(&self) -> Self {
+        self.live_refs.fetch_add(1, Ordering::Relaxed);
         Self {
             call_manager: Arc::clone(&self.call_manager),
             call_id: self.call_id,
@@ -198,6 +202,7 @@ where
             forking: Arc::clone(&self.forking),
             call_summary: self.call_summary.clone(),
             asset_registry: self.asset_registry.clone(),
+            live_refs: Arc::clone(&self.live_refs),
         }
     }
 }
@@ -245,6 +250,7 @@ where
             forking: Arc::new(CallMutex::new(None, "forking")),
             call_summary: DirectCallSummary::default(),
             asset_registry,
+            live_refs: Arc::new(AtomicUsize::new(1)),
         };
 
         Ok(call)
-- 
2.43.0


From 61d06f032c15a0494ed02700dbe56f5702bdf0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 04/32] fix: close a connection that could not be set up

---
 src/rust/src/core/call.rs       | 57 ++++++++++++++++++++-------------
 src/rust/src/core/connection.rs | 14 ++++++++
 src/rust/src/native.rs          |  5 +--
 3 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index b6a2de4..1ddc54e 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -34,6 +34,7 @@ use crate::{
         connection::{Connection, ConnectionObserverEvent, ConnectionType},
         platform::Platform,
         signaling,
+        util::try_scoped,
     },
     error::RingRtcError,
     webrtc::{
@@ -613,21 +614,28 @@ where
                         call_config,
                         audio_levels_interval,
                     )?;
-                    let answer = connection
-                        .start_incoming(pending_call.received, pending_call.ice_candidates)?;
-                    self.call_summary.on_call_event(&CallEvent::SendingAnswer);
-                    call_manager.send_answer(
-                        self.clone(),
-                        connection.clone(),
-                        signaling::SendAnswer {
-                            receiver_device_id: remote_device_id,
-                            answer,
-                        },
-                    )?;
-
-                    // Attach the stats consumer to this connection
-                    connection
-                        .set_stats_snapshot_consumer(self.call_summary.as_stats_consumer())?;
+                    let result = try_scoped(|| {
+                        let answer = connection
+                            .start_incoming(pending_call.received, pending_call.ice_candidates)?;
+                        self.call_summary.on_call_event(&CallEvent::SendingAnswer);
+                        call_manager.send_answer(
+                            self.clone(),
+                            connection.clone(),
+                            signaling::SendAnswer {
+                                receiver_device_id: remote_device_id,
+                                answer,
+                            },
+                        )?;
+
+                        // Attach the stats consumer to this connection
+                        connection
+                            .set_stats_snapshot_consumer(self.call_summary.as_stats_consumer())
+                    });
+                    if let Err(e) = result {
+                        // The call doesn't know about the connection yet.
+                        connection.abort();
+                        return Err(e);
+                    }
 
                     let mut connection_map = self.connection_map.lock()?;
                     connection_map.insert(remote_device_id, connection);
@@ -651,8 +659,9 @@ where
                     call_config,
                     audio_levels_interval,
                 )?;
-                let (local_secret, ice_gatherer, offer) =
-                    parent_connection.start_outgoing_parent(self.media_type)?;
+                let (local_secret, ice_gatherer, offer) = parent_connection
+                    .start_outgoing_parent(self.media_type)
+                    .inspect_err(|_| parent_connection.abort())?;
 
                 // Keep around so that it's not closed until all the connections are closed.
                 *(self.forking.lock()?) = Some(ForkingState {
@@ -702,12 +711,14 @@ where
                     call_config.clone(),
                     audio_levels_interval,
                 )?;
-                child_connection.start_outgoing_child(
-                    &forking.local_secret,
-                    &forking.ice_gatherer,
-                    &forking.offer,
-                    &received,
-                )?;
+                child_connection
+                    .start_outgoing_child(
+                        &forking.local_secret,
+                        &forking.ice_gatherer,
+                        &forking.offer,
+                        &received,
+                    )
+                    .inspect_err(|_| child_connection.abort())?;
                 e.insert(child_connection);
                 return Ok(());
             }
diff --git a/src/rust/src/core/connection.rs b/src/rust/src/core/connection.rs
index 4e62611..dc497ee 100644
--- a/src/rust/src/core/connection.rs
+++ b/src/rust/src/core/connection.rs
@@ -1760,6 +1760,20 @@ where
         }
     }
 
+    /// Terminate a Connection that could not be set up, whether or not its FSM was started.
+    ///
+    /// Without this, the Connection would keep itself (and its call) alive forever.
+    pub fn abort(&mut self) {
+        let result = if self.fsm_receiver.is_some() {
+            self.start_fsm().and_then(|()| self.terminate())
+        } else {
+            self.terminate()
+        };
+        if let Err(e) = result {
+            error!("Failed to abort connection {}: {}", self.connection_id, e);
+        }
+    }
+
     /// Bottom half of `close()`
     ///
     /// Waits for the FSM shutdown condition variable to signal that
diff --git a/src/rust/src/native.rs b/src/rust/src/native.rs
index 6855608..b7e0f1c 100644
--- a/src/rust/src/native.rs
+++ b/src/rust/src/native.rs
@@ -441,7 +441,7 @@ impl Platform for NativePlatform {
 
         let context = call.call_context()?;
         // Like AndroidPlatform::create_connection
-        let connection = Connection::new(
+        let mut connection = Connection::new(
             call.clone(),
             remote_device_id,
             connection_type,
@@ -470,7 +470,8 @@ impl Platform for NativePlatform {
             &context.ice_servers,
             context.outgoing_audio_track.clone(),
             Some(context.outgoing_video_track.clone()),
-        )?;
+        );
+        let pc = pc.inspect_err(|_| connection.abort())?;
 
         connection.set_peer_connection(pc)?;
         Ok(connection)
-- 
2.43.0


From 56e3ec2376627a30df667cbc111f2cfe90a14de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 05/32] fix: a call that cannot be created does not end the
 call already active with the same peer

---
 src/rust/src/core/call_manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4426a4f..54ae4f3 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2147,6 +2147,7 @@ where
     ) {
         info!("internal_create_api_error(): error: {}", error);
         if let Ok(active_call) = self.active_call()
+            && active_call.call_id() == call_id
             && self.remote_peer_equals_active(&active_call, remote_peer)
         {
             // The task managed to create the active call and then
-- 
2.43.0


From 78e2820309e563c4ab86e3957a50b16feb346b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:05 +0000
Subject: [PATCH 06/32] fix: end each call once, and never another call in its
 place

---
 src/rust/src/core/call.rs         |   9 +++
 src/rust/src/core/call_manager.rs | 112 +++++++++++++++++++-----------
 2 files changed, 80 insertions(+), 41 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 1ddc54e..5b462dc 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -102,6 +102,8 @@ where
     connection_map: Arc<CallMutex<HashMap<DeviceId, Connection<T>>>>,
     /// Condition variable used at termination to quiesce and synchronize the FSM.
     terminate_condvar: Arc<(Mutex<bool>, Condvar)>,
+    /// Whether or not the call has been ended (but maybe isn't terminated yet).
+    ending: Arc<AtomicBool>,
     /// Whether or not an offer has been sent via messaging for this call.
     did_send_offer: Arc<AtomicBool>,
     /// Whether or not the application has already been notified of ApplicationEvent::RemoteRinging.
@@ -196,6 +198,7 @@ where
             timeout_stopper: self.timeout_stopper.clone(),
             connection_map: Arc::clone(&self.connection_map),
             terminate_condvar: Arc::clone(&self.terminate_condvar),
+            ending: Arc::clone(&self.ending),
             did_send_offer: Arc::clone(&self.did_send_offer),
             did_notify_application_of_remote_ringing: Arc::clone(
                 &self.did_notify_application_of_remote_ringing,
@@ -246,6 +249,7 @@ where
             timeout_stopper: Stopper::new(),
             connection_map: Arc::new(CallMutex::new(HashMap::new(), "connection_map")),
             terminate_condvar: Arc::new((Mutex::new(false), Condvar::new())),
+            ending: Arc::new(AtomicBool::new(false)),
             did_send_offer: Arc::new(AtomicBool::new(false)),
             did_notify_application_of_remote_ringing: Arc::new(AtomicBool::new(false)),
             forking: Arc::new(CallMutex::new(None, "forking")),
@@ -404,6 +408,11 @@ where
         }
     }
 
+    /// Notes that the call is being ended. Returns false if it already was.
+    pub fn start_ending(&self) -> bool {
+        !self.ending.swap(true, Ordering::AcqRel)
+    }
+
     /// Return the strong reference count on the state `Arc<Mutex<>>`.
     fn ref_count(&self) -> usize {
         Arc::strong_count(&self.state)
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 54ae4f3..25532ce 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1015,6 +1015,21 @@ where
         self.wait_worker_sync(condvar)
     }
 
+    /// Makes the given call inactive, so that another call can begin.
+    ///
+    /// Returns false, and changes nothing, if it isn't (or no longer) the active call: calls can
+    /// be ended by several threads at once.
+    fn deactivate_call(&mut self, call_id: CallId) -> Result<bool> {
+        let mut busy = self.busy.lock()?;
+        let mut active_call_id = self.active_call_id.lock()?;
+        if *active_call_id != Some(call_id) {
+            return Ok(false);
+        }
+        *active_call_id = None;
+        *busy = false;
+        Ok(true)
+    }
+
     /// Clears the active call_id
     fn clear_active_call(&mut self) -> Result<()> {
         let _ = self.active_call_id.lock()?.take();
@@ -1094,6 +1109,11 @@ where
 
         info!("terminate_call(): call_id: {}", call_id);
 
+        if !call.start_ending() {
+            info!("terminate_call(): skipping, already ended");
+            return Ok(());
+        }
+
         self.trim_messages(call_id)?;
 
         if let Some(reason) = reason {
@@ -1135,19 +1155,20 @@ where
         })
     }
 
-    /// Terminates the active call.
-    fn terminate_active_call(&mut self, send_hangup: bool, reason: CallEndReason) -> Result<()> {
+    /// Terminates the given call, if it is still active.
+    fn terminate_active_call(
+        &mut self,
+        call: Call<T>,
+        send_hangup: bool,
+        reason: CallEndReason,
+    ) -> Result<()> {
         info!("terminate_active_call():");
 
-        if !self.call_active()? {
-            info!("terminate_active_call(): skipping, no active call");
+        if !self.deactivate_call(call.call_id())? {
+            info!("terminate_active_call(): skipping, no longer active");
             return Ok(());
         }
 
-        let call = self.active_call()?;
-        self.clear_active_call()?;
-        self.release_busy()?;
-
         let hangup = if send_hangup {
             Some(signaling::Hangup::Normal)
         } else {
@@ -1230,8 +1251,10 @@ where
         hangup: Option<signaling::Hangup>,
         reason: CallEndReason,
     ) -> Result<()> {
-        self.clear_active_call()?;
-        self.release_busy()?;
+        if !self.deactivate_call(active_call.call_id())? {
+            info!("handle_terminate_active_call(): skipping, no longer active");
+            return Ok(());
+        }
         self.terminate_call(active_call, hangup, Some(reason))
     }
 
@@ -1323,8 +1346,10 @@ where
                         "handle_message_send_failure(): id: {}, terminating active call",
                         call_id
                     );
+                    let send_hangup = call.should_send_hangup_on_failure();
                     let _ = self.terminate_active_call(
-                        call.should_send_hangup_on_failure(),
+                        call,
+                        send_hangup,
                         CallEndReason::SignalingFailure,
                     );
                 }
@@ -2462,14 +2487,16 @@ where
     ) -> Result<()> {
         info!("remote_hangup(): call_id: {}", call_id);
 
-        if self.call_is_active(call_id)? {
-            match end_reason_override {
-                Some(end_reason) => self.terminate_active_call(false, end_reason),
-                None => self.terminate_active_call(false, CallEndReason::RemoteHangup),
+        match self.active_call() {
+            Ok(call) if call.call_id() == call_id => self.terminate_active_call(
+                call,
+                false,
+                end_reason_override.unwrap_or(CallEndReason::RemoteHangup),
+            ),
+            _ => {
+                info!("remote_hangup(): ignoring for inactive call");
+                Ok(())
             }
-        } else {
-            info!("remote_hangup(): ignoring for inactive call");
-            Ok(())
         }
     }
 
@@ -2510,11 +2537,14 @@ where
     pub(super) fn timeout(&mut self, call_id: CallId) -> Result<()> {
         info!("timeout(): call_id: {}", call_id);
 
-        if self.call_is_active(call_id)? {
-            self.terminate_active_call(true, CallEndReason::Timeout)
-        } else {
-            info!("timeout(): ignoring for inactive call");
-            Ok(())
+        match self.active_call() {
+            Ok(call) if call.call_id() == call_id => {
+                self.terminate_active_call(call, true, CallEndReason::Timeout)
+            }
+            _ => {
+                info!("timeout(): ignoring for inactive call");
+                Ok(())
+            }
         }
     }
 
@@ -2522,15 +2552,15 @@ where
     pub(super) fn connection_failure(&mut self, call_id: CallId) -> Result<()> {
         info!("connection_failure(): call_id: {}", call_id);
 
-        if self.call_is_active(call_id)? {
-            let call = self.active_call()?;
-            self.terminate_active_call(
-                call.should_send_hangup_on_failure(),
-                CallEndReason::ConnectionFailure,
-            )
-        } else {
-            info!("connection_failure(): ignoring for inactive call");
-            Ok(())
+        match self.active_call() {
+            Ok(call) if call.call_id() == call_id => {
+                let send_hangup = call.should_send_hangup_on_failure();
+                self.terminate_active_call(call, send_hangup, CallEndReason::ConnectionFailure)
+            }
+            _ => {
+                info!("connection_failure(): ignoring for inactive call");
+                Ok(())
+            }
         }
     }
 
@@ -2541,15 +2571,15 @@ where
     pub(super) fn internal_error(&mut self, call_id: CallId, error: anyhow::Error) -> Result<()> {
         info!("internal_error(): call_id: {}, error: {}", call_id, error);
 
-        if self.call_is_active(call_id)? {
-            let call = self.active_call()?;
-            self.terminate_active_call(
-                call.should_send_hangup_on_failure(),
-                CallEndReason::InternalFailure,
-            )
-        } else {
-            info!("internal_error(): ignoring for inactive call");
-            Ok(())
+        match self.active_call() {
+            Ok(call) if call.call_id() == call_id => {
+                let send_hangup = call.should_send_hangup_on_failure();
+                self.terminate_active_call(call, send_hangup, CallEndReason::InternalFailure)
+            }
+            _ => {
+                info!("internal_error(): ignoring for inactive call");
+                Ok(())
+            }
         }
     }
 
-- 
2.43.0


From b570491621b2a06aefb371a44b0c1b12275dfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 07/32] fix: a candidate from a device without a connection
 does not end the call

---
 src/rust/src/core/call.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 5b462dc..0a08879 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -760,17 +760,13 @@ where
             match connection_map.get_mut(&sender_device_id) {
                 Some(connection) => connection.inject_received_ice(received.ice),
                 None => {
-                    if self.state()? == CallState::ConnectedAndAccepted
-                        || self.state()? == CallState::ReconnectingAfterAccepted
-                    {
-                        // This can happen when call forking is enabled.
-                        info!(
-                            "received_ice from device {} when already accepted, so ignore",
-                            sender_device_id
-                        );
-                        return Ok(());
-                    }
-                    Err(RingRtcError::ConnectionNotFound(sender_device_id).into())
+                    // This can happen when call forking is enabled: another device accepted, or
+                    // the connection to this one failed. Don't give up on the other devices.
+                    info!(
+                        "received_ice from device {} without a connection, so ignore",
+                        sender_device_id
+                    );
+                    Ok(())
                 }
             }
         }
-- 
2.43.0


From 805ff44e242b6acd2074b2a57c2e6ee85ae6d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 08/32] fix: handle incoming media before the events that
 follow it

---
 src/rust/src/core/connection_fsm.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/rust/src/core/connection_fsm.rs b/src/rust/src/core/connection_fsm.rs
index 93b7c1e..7260ce1 100644
--- a/src/rust/src/core/connection_fsm.rs
+++ b/src/rust/src/core/connection_fsm.rs
@@ -937,17 +937,17 @@ where
         stream: MediaStream,
     ) -> Result<()> {
         if state.connecting_or_connected() {
-            self.worker_spawn(move || {
-                let result = try_scoped(|| {
-                    if connection.terminating()? {
-                        return Ok(());
-                    }
-                    connection.handle_received_incoming_media(stream)
-                });
-                if let Err(err) = result {
-                    connection.inject_internal_error(err, "Adding media stream failed");
+            // Don't leave this to the worker thread: the media has to be there before anybody
+            // learns from a later event that the call was accepted.
+            let result = try_scoped(|| {
+                if connection.terminating()? {
+                    return Ok(());
                 }
+                connection.handle_received_incoming_media(stream)
             });
+            if let Err(err) = result {
+                connection.inject_internal_error(err, "Adding media stream failed");
+            }
         } else {
             self.unexpected_state(state, "ReceivedIncomingMedia");
         }
-- 
2.43.0


From 9370c5a89a23e79e5871c6125cbe103bfb94011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 09/32] fix: an offer is either followed by a hangup or not
 sent when its call ends

---
 src/rust/src/core/call.rs         | 40 +++++++++++++++++++++++--------
 src/rust/src/core/call_manager.rs |  7 +++---
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 0a08879..3c894e7 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -68,6 +68,15 @@ where
     offer: signaling::Offer,
 }
 
+/// What has become of the offer of an outgoing call.
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+enum OfferState {
+    NotSent,
+    Sent,
+    /// The call ended before the offer was sent.
+    NotWanted,
+}
+
 /// Represents the set of connections between a local client and
 /// 1-to-many remote peer devices for the same call recipient.
 pub struct Call<T>
@@ -104,8 +113,10 @@ where
     terminate_condvar: Arc<(Mutex<bool>, Condvar)>,
     /// Whether or not the call has been ended (but maybe isn't terminated yet).
     ending: Arc<AtomicBool>,
-    /// Whether or not an offer has been sent via messaging for this call.
-    did_send_offer: Arc<AtomicBool>,
+    /// Whether or not an offer has been sent via messaging for this call. Held while it is sent,
+    /// so that ending the call at the same time either follows the offer with a hangup or
+    /// prevents it from being sent.
+    offer_state: Arc<CallMutex<OfferState>>,
     /// Whether or not the application has already been notified of ApplicationEvent::RemoteRinging.
     /// It's a little ugly, but we need to handle the case where we get ConnectionState::ConnectedBeforeAccepted
     /// before a ConnectionState::ConnectingAfterAccepted and not notify the application twice.
@@ -199,7 +210,7 @@ where
             connection_map: Arc::clone(&self.connection_map),
             terminate_condvar: Arc::clone(&self.terminate_condvar),
             ending: Arc::clone(&self.ending),
-            did_send_offer: Arc::clone(&self.did_send_offer),
+            offer_state: Arc::clone(&self.offer_state),
             did_notify_application_of_remote_ringing: Arc::clone(
                 &self.did_notify_application_of_remote_ringing,
             ),
@@ -250,7 +261,7 @@ where
             connection_map: Arc::new(CallMutex::new(HashMap::new(), "connection_map")),
             terminate_condvar: Arc::new((Mutex::new(false), Condvar::new())),
             ending: Arc::new(AtomicBool::new(false)),
-            did_send_offer: Arc::new(AtomicBool::new(false)),
+            offer_state: Arc::new(CallMutex::new(OfferState::NotSent, "offer_state")),
             did_notify_application_of_remote_ringing: Arc::new(AtomicBool::new(false)),
             forking: Arc::new(CallMutex::new(None, "forking")),
             call_summary: DirectCallSummary::default(),
@@ -680,10 +691,15 @@ where
                     offer: offer.clone(),
                 });
 
+                let mut offer_state = self.offer_state.lock()?;
+                if *offer_state == OfferState::NotWanted {
+                    info!("proceed(): call was ended, not sending an offer");
+                    return Ok(());
+                }
                 self.call_summary.on_call_event(&CallEvent::SendingOffer);
                 call_manager.send_offer(self.clone(), parent_connection, offer)?;
                 // If we don't do this, then hangups won't be sent.
-                self.did_send_offer.store(true, Ordering::Release);
+                *offer_state = OfferState::Sent;
             }
         }
         Ok(())
@@ -772,14 +788,18 @@ where
         }
     }
 
-    /// Return true if a hangup should be sent to the remote peer.
-    pub fn should_send_hangup(&self) -> bool {
+    /// Return true if a hangup should be sent to the remote peer now that the call is ending.
+    pub fn should_send_hangup(&self) -> Result<bool> {
         match self.direction {
-            CallDirection::Incoming => true,
+            CallDirection::Incoming => Ok(true),
             CallDirection::Outgoing => {
                 // If the call is outgoing, only send a hangup message if an
-                // offer was actually sent out.
-                self.did_send_offer.load(Ordering::Acquire)
+                // offer was actually sent out. If not, it must not be sent anymore.
+                let mut offer_state = self.offer_state.lock()?;
+                if *offer_state == OfferState::NotSent {
+                    *offer_state = OfferState::NotWanted;
+                }
+                Ok(*offer_state == OfferState::Sent)
             }
         }
     }
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 25532ce..ec366c0 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1132,10 +1132,11 @@ where
         let mut call_manager = self.clone();
         self.worker_spawn(move || {
             let err = try_scoped(|| {
+                // If we want to send a hangup message, be sure that
+                // the call actually should send one.
+                let should_send_hangup = call.should_send_hangup()?;
                 if let Some(hangup) = hangup {
-                    // If we want to send a hangup message, be sure that
-                    // the call actually should send one.
-                    if call.should_send_hangup() {
+                    if should_send_hangup {
                         call.send_hangup_via_signaling_to_all(hangup)?;
                     }
                 }
-- 
2.43.0


From e007445b43a32d0a3a6bd2a1cda8ad8100ba1d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:27 +0000
Subject: [PATCH 10/32] fix: notify the application of a call's events in
 order, and of none after its end

---
 src/rust/src/core/call.rs         | 15 +++++++++++++--
 src/rust/src/core/call_fsm.rs     | 17 +++++------------
 src/rust/src/core/call_manager.rs | 20 ++++++++++++++++----
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 3c894e7..94a025a 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -424,6 +424,11 @@ where
         !self.ending.swap(true, Ordering::AcqRel)
     }
 
+    /// Returns `true` if the call is being ended, or has been.
+    pub fn is_ending(&self) -> bool {
+        self.ending.load(Ordering::Acquire)
+    }
+
     /// Return the strong reference count on the state `Arc<Mutex<>>`.
     fn ref_count(&self) -> usize {
         Arc::strong_count(&self.state)
@@ -446,7 +451,13 @@ where
         let call_manager = self.call_manager()?;
         let remote_peer = self.remote_peer()?;
 
-        call_manager.start_call(&remote_peer, self.call_id, self.direction, self.media_type)
+        call_manager.start_call(
+            &remote_peer,
+            self.call_id,
+            self.direction,
+            self.media_type,
+            || self.is_ending(),
+        )
     }
 
     /// Enable media flowing through the active connection and notify the application.
@@ -488,7 +499,7 @@ where
         let call_manager = self.call_manager()?;
         let remote_peer = self.remote_peer()?;
 
-        call_manager.notify_application(&remote_peer, self.call_id, event)
+        call_manager.notify_application(&remote_peer, self.call_id, event, || self.is_ending())
     }
 
     /// Notify application of a change to the network route.
diff --git a/src/rust/src/core/call_fsm.rs b/src/rust/src/core/call_fsm.rs
index 5a42540..fc5bc68 100644
--- a/src/rust/src/core/call_fsm.rs
+++ b/src/rust/src/core/call_fsm.rs
@@ -421,18 +421,11 @@ where
         }
     }
 
-    fn notify_application(&mut self, mut call: Call<T>, event: ApplicationEvent) {
-        self.notify_spawn(move || {
-            let result = try_scoped(|| {
-                if call.terminating()? {
-                    Ok(())
-                } else {
-                    call.notify_application(event)
-                }
-            });
-            if let Err(err) = result {
-                call.inject_internal_error(err, "Notify Application failed");
-            }
+    /// Notifies the application of an event on the worker thread, so that it can't be overtaken by
+    /// the notification that the call was accepted, which comes from there.
+    fn notify_application(&mut self, call: Call<T>, event: ApplicationEvent) {
+        self.schedule_work_until_terminating(call, "Notify Application failed", move |call| {
+            call.notify_application(event)
         });
     }
 
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index ec366c0..db032e9 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1528,10 +1528,10 @@ where
 
         match incoming_call_action {
             IncomingCallAction::Ignore(app_event) => {
-                self.notify_application(&remote_peer, incoming_call_id, app_event)?;
+                self.notify_application(&remote_peer, incoming_call_id, app_event, || false)?;
             }
             IncomingCallAction::RejectAsBusy(app_event) => {
-                self.notify_application(&remote_peer, incoming_call_id, app_event)?;
+                self.notify_application(&remote_peer, incoming_call_id, app_event, || false)?;
                 self.send_busy(incoming_call)?;
             }
             IncomingCallAction::Start => {
@@ -2341,13 +2341,15 @@ where
     // Module level public functions start here
     ////////////////////////////////////////////////////////////////////////
 
-    /// Inform the application that a call should be started.
+    /// Inform the application that a call should be started, unless it is ending: the
+    /// application must not hear of a call after it was told that it ended.
     pub(super) fn start_call(
         &self,
         remote_peer: &<T as Platform>::AppRemotePeer,
         call_id: CallId,
         direction: CallDirection,
         call_media_type: CallMediaType,
+        is_ending: impl FnOnce() -> bool,
     ) -> Result<()> {
         ringbench!(
             RingBench::Cm,
@@ -2356,6 +2358,10 @@ where
         );
 
         let platform = self.platform.lock()?;
+        // This is only reliable with the platform locked; see terminate_call.
+        if is_ending() {
+            return Ok(());
+        }
         platform.on_start_call(remote_peer, call_id, direction, call_media_type)
     }
 
@@ -2376,16 +2382,22 @@ where
         platform.on_call_ended(remote_peer, call_id, reason, summary)
     }
 
-    /// Notify application of an event.
+    /// Notify application of an event, unless the call is ending: the application must not
+    /// hear of a call after it was told that it ended.
     pub(super) fn notify_application(
         &self,
         remote_peer: &<T as Platform>::AppRemotePeer,
         call_id: CallId,
         event: ApplicationEvent,
+        is_ending: impl FnOnce() -> bool,
     ) -> Result<()> {
         ringbench!(RingBench::Cm, RingBench::App, format!("event({})", event));
 
         let platform = self.platform.lock()?;
+        // This is only reliable with the platform locked; see terminate_call.
+        if is_ending() {
+            return Ok(());
+        }
         platform.on_event(remote_peer, call_id, event)
     }
 
-- 
2.43.0


From 3ec7455d0116cc7ad8d2770db925b75721c4c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 11/32] fix: do not send candidates for an offer that was not
 sent

---
 src/rust/src/core/call.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 94a025a..01c2020 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -564,6 +564,12 @@ where
             _ => {
                 let mut call_manager = self.call_manager()?;
 
+                // Checked after proceed() has let go of the call manager: if the call ended before
+                // then, the offer wasn't sent.
+                if self.is_ending() {
+                    info!("send_buffered_local_ice_candidates(): ignoring, call is ending");
+                    return Ok(());
+                }
                 call_manager.send_buffered_local_ice_candidates(self.clone(), connection, broadcast)
             }
         }
-- 
2.43.0


From c8f5438e88c2cb9eb5e3762b45b6f910308f111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:17 +0000
Subject: [PATCH 12/32] fix: do not lock webrtc and the bandwidth controller in
 opposite orders

---
 src/rust/src/core/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/connection.rs b/src/rust/src/core/connection.rs
index dc497ee..c2d09ca 100644
--- a/src/rust/src/core/connection.rs
+++ b/src/rust/src/core/connection.rs
@@ -1011,11 +1011,14 @@ where
 
     /// Update the current network route.
     pub fn set_network_route(&self, network_route: NetworkRoute) -> Result<()> {
+        // This locks the bandwidth controller, which must not happen while webrtc is locked.
+        // See apply_bandwidth_controller.
+        let old_network_route = self.network_route();
         if let Ok(mut webrtc) = self
             .webrtc
             .lock()
             .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
-            && let Ok(old_network_route) = self.network_route()
+            && let Ok(old_network_route) = old_network_route
             && (old_network_route.local_relayed != network_route.local_relayed
                 || old_network_route.remote_relayed != network_route.remote_relayed
                 || old_network_route.local_relay_protocol != network_route.local_relay_protocol)
-- 
2.43.0


From a1cf17c61cdd38acbad9bd6c931836c137be3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 13/32] fix: do not send the answer of a call after its hangup

---
 src/rust/src/core/call.rs | 63 +++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 01c2020..b50b75f 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -68,12 +68,12 @@ where
     offer: signaling::Offer,
 }
 
-/// What has become of the offer of an outgoing call.
+/// What has become of the offer of an outgoing call, or the answer of an incoming one.
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
-enum OfferState {
+enum OfferOrAnswerState {
     NotSent,
     Sent,
-    /// The call ended before the offer was sent.
+    /// The call ended before the offer or answer was sent.
     NotWanted,
 }
 
@@ -113,10 +113,10 @@ where
     terminate_condvar: Arc<(Mutex<bool>, Condvar)>,
     /// Whether or not the call has been ended (but maybe isn't terminated yet).
     ending: Arc<AtomicBool>,
-    /// Whether or not an offer has been sent via messaging for this call. Held while it is sent,
-    /// so that ending the call at the same time either follows the offer with a hangup or
+    /// Whether or not an offer or answer has been sent via messaging for this call. Held while it
+    /// is sent, so that ending the call at the same time either follows it with a hangup or
     /// prevents it from being sent.
-    offer_state: Arc<CallMutex<OfferState>>,
+    offer_or_answer_state: Arc<CallMutex<OfferOrAnswerState>>,
     /// Whether or not the application has already been notified of ApplicationEvent::RemoteRinging.
     /// It's a little ugly, but we need to handle the case where we get ConnectionState::ConnectedBeforeAccepted
     /// before a ConnectionState::ConnectingAfterAccepted and not notify the application twice.
@@ -210,7 +210,7 @@ where
             connection_map: Arc::clone(&self.connection_map),
             terminate_condvar: Arc::clone(&self.terminate_condvar),
             ending: Arc::clone(&self.ending),
-            offer_state: Arc::clone(&self.offer_state),
+            offer_or_answer_state: Arc::clone(&self.offer_or_answer_state),
             did_notify_application_of_remote_ringing: Arc::clone(
                 &self.did_notify_application_of_remote_ringing,
             ),
@@ -261,7 +261,10 @@ where
             connection_map: Arc::new(CallMutex::new(HashMap::new(), "connection_map")),
             terminate_condvar: Arc::new((Mutex::new(false), Condvar::new())),
             ending: Arc::new(AtomicBool::new(false)),
-            offer_state: Arc::new(CallMutex::new(OfferState::NotSent, "offer_state")),
+            offer_or_answer_state: Arc::new(CallMutex::new(
+                OfferOrAnswerState::NotSent,
+                "offer_or_answer_state",
+            )),
             did_notify_application_of_remote_ringing: Arc::new(AtomicBool::new(false)),
             forking: Arc::new(CallMutex::new(None, "forking")),
             call_summary: DirectCallSummary::default(),
@@ -654,15 +657,22 @@ where
                     let result = try_scoped(|| {
                         let answer = connection
                             .start_incoming(pending_call.received, pending_call.ice_candidates)?;
-                        self.call_summary.on_call_event(&CallEvent::SendingAnswer);
-                        call_manager.send_answer(
-                            self.clone(),
-                            connection.clone(),
-                            signaling::SendAnswer {
-                                receiver_device_id: remote_device_id,
-                                answer,
-                            },
-                        )?;
+
+                        let mut answer_state = self.offer_or_answer_state.lock()?;
+                        if *answer_state == OfferOrAnswerState::NotWanted {
+                            info!("proceed(): call was ended, not sending an answer");
+                        } else {
+                            self.call_summary.on_call_event(&CallEvent::SendingAnswer);
+                            call_manager.send_answer(
+                                self.clone(),
+                                connection.clone(),
+                                signaling::SendAnswer {
+                                    receiver_device_id: remote_device_id,
+                                    answer,
+                                },
+                            )?;
+                            *answer_state = OfferOrAnswerState::Sent;
+                        }
 
                         // Attach the stats consumer to this connection
                         connection
@@ -708,15 +718,15 @@ where
                     offer: offer.clone(),
                 });
 
-                let mut offer_state = self.offer_state.lock()?;
-                if *offer_state == OfferState::NotWanted {
+                let mut offer_state = self.offer_or_answer_state.lock()?;
+                if *offer_state == OfferOrAnswerState::NotWanted {
                     info!("proceed(): call was ended, not sending an offer");
                     return Ok(());
                 }
                 self.call_summary.on_call_event(&CallEvent::SendingOffer);
                 call_manager.send_offer(self.clone(), parent_connection, offer)?;
                 // If we don't do this, then hangups won't be sent.
-                *offer_state = OfferState::Sent;
+                *offer_state = OfferOrAnswerState::Sent;
             }
         }
         Ok(())
@@ -807,16 +817,17 @@ where
 
     /// Return true if a hangup should be sent to the remote peer now that the call is ending.
     pub fn should_send_hangup(&self) -> Result<bool> {
+        let mut offer_or_answer_state = self.offer_or_answer_state.lock()?;
+        if *offer_or_answer_state == OfferOrAnswerState::NotSent {
+            // From now on, it must not be sent anymore.
+            *offer_or_answer_state = OfferOrAnswerState::NotWanted;
+        }
         match self.direction {
             CallDirection::Incoming => Ok(true),
             CallDirection::Outgoing => {
                 // If the call is outgoing, only send a hangup message if an
-                // offer was actually sent out. If not, it must not be sent anymore.
-                let mut offer_state = self.offer_state.lock()?;
-                if *offer_state == OfferState::NotSent {
-                    *offer_state = OfferState::NotWanted;
-                }
-                Ok(*offer_state == OfferState::Sent)
+                // offer was actually sent out.
+                Ok(*offer_or_answer_state == OfferOrAnswerState::Sent)
             }
         }
     }
-- 
2.43.0


From 006adc7052c7a3194aed2fa0bed5cbd21cc3416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 14/32] fix: a group call joined again while it is ending is
 left before it ends

---
 src/rust/src/core/group_call.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 6bf9ee5..96f04f4 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2750,6 +2750,11 @@ impl Client {
                 // the peer connection and cleaning up.
                 let actor = state.actor.clone();
                 actor.send_delayed(CLIENT_END_DELAY, move |state| {
+                    if !matches!(state.join_state, JoinState::NotJoined(_)) {
+                        // The client joined again during the delay, so it has to leave again,
+                        // in particular to no longer count as busy.
+                        Self::leave_inner(state);
+                    }
                     state.peer_connection.close();
                     Self::set_connection_state_and_notify_observer(
                         state,
-- 
2.43.0


From fa2825b5661ac0bf010c5cbbbc25262c8dadf359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 15/32] fix: handle every reliable SFU message that becomes
 ready

---
 src/rust/src/core/group_call.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 96f04f4..a780b0d 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -4426,7 +4426,6 @@ impl Client {
                                         error!("Failed to decode content buffer in SfuToDevice: {:?}", err);
                                     }
                                 }
-                                return;
                             } else {
                                 Self::handle_sfu_to_device_inner(
                                     &state.actor,
-- 
2.43.0


From 044b3bf934c06d7ad000a4d2c5bad0583cd65df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 16/32] fix: answer a playout delay request with its own
 measurement, not a late earlier one

---
 src/rust/src/webrtc/audio_device_module.rs | 29 ++++++++--------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 1c3154b..d170c43 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -104,7 +104,7 @@ enum Event {
     WarmupRecording,
     SetInputProcessing(bool),
     StopRecording,
-    PlayoutDelay,
+    PlayoutDelay(mpsc::Sender<anyhow::Result<u16>>),
     Terminate,
     RegisterAudioObserver(Box<dyn AudioDeviceObserver>),
 }
@@ -129,7 +129,7 @@ impl Display for Event {
                 Event::WarmupRecording => "WarmupRecording",
                 Event::SetInputProcessing(_) => "SetInputProcessing",
                 Event::StopRecording => "StopRecording",
-                Event::PlayoutDelay => "PlayoutDelay",
+                Event::PlayoutDelay(_) => "PlayoutDelay",
                 Event::Terminate => "Terminate",
                 Event::RegisterAudioObserver(_) => "RegisterAudioObserver",
             }
@@ -684,11 +684,7 @@ impl Worker {
         }
     }
 
-    fn work(
-        &mut self,
-        receiver: mpsc::Receiver<Event>,
-        playout_delay_sender: mpsc::Sender<anyhow::Result<u16>>,
-    ) {
+    fn work(&mut self, receiver: mpsc::Receiver<Event>) {
         for received in receiver {
             let log_str = received.to_string();
             if let Err(e) = match received {
@@ -753,8 +749,8 @@ impl Worker {
                     self.set_input_processing_enabled(voice_processing_enabled)
                 }
                 Event::StopRecording => self.stop_recording(),
-                Event::PlayoutDelay => {
-                    if let Err(e) = playout_delay_sender.send(self.playout_delay()) {
+                Event::PlayoutDelay(reply_sender) => {
+                    if let Err(e) = reply_sender.send(self.playout_delay()) {
                         Err(anyhow!("Failed to send playout delay: {}", e))
                     } else {
                         Ok(())
@@ -856,7 +852,6 @@ impl Worker {
         started_signal: mpsc::Sender<Option<String>>,
         receiver: mpsc::Receiver<Event>,
         sender: mpsc::Sender<Event>,
-        playout_delay_sender: mpsc::Sender<anyhow::Result<u16>>,
         input_device_names: Arc<Mutex<Vec<Option<AudioDevice>>>>,
         output_device_names: Arc<Mutex<Vec<Option<AudioDevice>>>>,
     ) -> JoinHandle<()> {
@@ -953,7 +948,7 @@ impl Worker {
                 );
             }
 
-            worker.work(receiver, playout_delay_sender);
+            worker.work(receiver);
         })
     }
 }
@@ -980,7 +975,6 @@ pub struct AudioDeviceModule {
     // This is only an option so that we can `take` out of it.
     cubeb_worker: Option<JoinHandle<()>>,
     mpsc_sender: mpsc::Sender<Event>,
-    playout_delay_receiver: mpsc::Receiver<anyhow::Result<u16>>,
 }
 
 impl Drop for AudioDeviceModule {
@@ -1135,12 +1129,10 @@ impl AudioDeviceModule {
         let output_device_names = Arc::new(Mutex::new(Vec::new()));
         let (sender, receiver) = mpsc::channel();
         let (started_sender, started_receiver) = mpsc::channel();
-        let (playout_delay_sender, playout_delay_receiver) = mpsc::channel();
         let cubeb_worker = Worker::spawn(
             started_sender,
             receiver,
             sender.clone(),
-            playout_delay_sender,
             input_device_names.clone(),
             output_device_names.clone(),
         );
@@ -1166,7 +1158,6 @@ impl AudioDeviceModule {
             has_recording_device: false,
             cubeb_worker: Some(cubeb_worker),
             mpsc_sender: sender,
-            playout_delay_receiver,
         })
     }
 
@@ -1585,13 +1576,15 @@ impl AudioDeviceModule {
     }
 
     pub fn playout_delay(&self, delay_ms: webrtc::ptr::Borrowed<u16>) -> i32 {
-        if let Err(e) = self.mpsc_sender.send(Event::PlayoutDelay) {
+        // Each request gets its own reply channel, so that a reply which comes after the timeout below
+        // isn't mistaken for the reply to a later request.
+        let (reply_sender, reply_receiver) = mpsc::channel();
+        if let Err(e) = self.mpsc_sender.send(Event::PlayoutDelay(reply_sender)) {
             error!("Failed to request PlayoutDelay: {}", e);
             return -1;
         }
         // If we wait more than 50ms the delay probably won't be helpful anymore anyway.
-        match self
-            .playout_delay_receiver
+        match reply_receiver
             .recv_timeout(Duration::from_millis(50))
             .context("timed out trying to recv")
             .flatten()
-- 
2.43.0


From 9f0730065c5ae4689c374e1f3ba92ac39bee7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 17/32] fix: leave warmup mode when the recording stream could
 not be started

---
 src/rust/src/webrtc/audio_device_module.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index d170c43..f23143e 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -613,9 +613,12 @@ impl Worker {
         }
         if let Some(input_stream) = &self.input_stream {
             if let Err(e) = input_stream.start() {
+                // Nothing is running, so this is not the warmup mode from which to continue later.
+                self.send_to_webrtc.store(true, Ordering::SeqCst);
                 bail!("Failed to start recording: {}", e);
             }
         } else {
+            self.send_to_webrtc.store(true, Ordering::SeqCst);
             bail!(
                 "Cannot start recording without an input stream -- did you forget init_recording?"
             );
-- 
2.43.0


From 7846dba37fd99e49cbd93eacf7e9f5da7d9dfc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 18/32] fix: drop an audio stream which fails to stop, instead
 of leaving it running

---
 src/rust/src/webrtc/audio_device_module.rs | 26 +++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index f23143e..7eb8a96 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -440,12 +440,12 @@ impl Worker {
 
     fn stop_playout(&mut self) -> anyhow::Result<()> {
         self.should_play = false;
-        if let Some(output_stream) = &self.output_stream {
-            if let Err(e) = output_stream.stop() {
-                bail!("Failed to stop playout: {}", e);
-            }
-            // Drop the stream so that it isn't reused on future calls.
-            self.output_stream = None;
+        // Drop the stream, even if it failed to stop, so that it isn't reused on future calls and no
+        // longer plays.
+        if let Some(output_stream) = self.output_stream.take()
+            && let Err(e) = output_stream.stop()
+        {
+            warn!("Failed to stop playout: {}", e);
         }
         Ok(())
     }
@@ -628,15 +628,15 @@ impl Worker {
 
     fn stop_recording(&mut self) -> anyhow::Result<()> {
         self.should_record = false;
-        if let Some(input_stream) = &self.input_stream {
-            let res = input_stream.stop();
+        if let Some(input_stream) = self.input_stream.take() {
+            if let Err(e) = input_stream.stop() {
+                warn!("Failed to stop recording: {}", e);
+            }
+            // Drop the stream, even if it failed to stop, so that it isn't reused on future calls and
+            // no longer records.
+            drop(input_stream);
             // Reset **after** we stop recording to avoid sending data to webrtc incorrectly
             self.send_to_webrtc.store(true, Ordering::SeqCst);
-            if let Err(e) = res {
-                bail!("Failed to stop recording: {}", e);
-            }
-            // Drop the stream so that it isn't reused on future calls.
-            self.input_stream = None;
         }
         Ok(())
     }
-- 
2.43.0


From 20097239705cc9eb41c1ad4e2706931750f9de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 19/32] fix: resume playout and recording on a newly selected
 device after a device failed

---
 src/rust/src/webrtc/audio_device_module.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 7eb8a96..3a2a459 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -166,6 +166,8 @@ struct Worker {
     send_to_webrtc: Arc<AtomicBool>,
     should_play: bool,
     should_record: bool,
+    // Whether that recording is for WebRTC, as opposed to a warmup.
+    should_send_to_webrtc: bool,
 }
 
 impl Worker {
@@ -458,7 +460,10 @@ impl Worker {
             self.stop_playout()?;
         }
         self.playout_device = Some(id);
-        if was_initialized {
+        // Playout is still wanted, even if it cannot be resumed with this device.
+        self.should_play = was_playing;
+        // There may be no stream because an earlier device failed (or there was none).
+        if was_initialized || was_playing {
             self.init_playout()?;
         }
         if was_playing {
@@ -606,6 +611,7 @@ impl Worker {
 
     fn start_recording(&mut self, send_to_webrtc: bool) -> anyhow::Result<()> {
         self.should_record = true;
+        self.should_send_to_webrtc = send_to_webrtc;
         let was_sending = self.send_to_webrtc.swap(send_to_webrtc, Ordering::SeqCst);
         if !was_sending {
             // We were warming up; all we need to do is start sending to webrtc (or continue warmup).
@@ -645,16 +651,18 @@ impl Worker {
     fn update_recording_device(&mut self, id: DeviceId) -> anyhow::Result<()> {
         let was_initialized = self.input_stream.is_some();
         let was_playing = self.should_record;
-        let was_sending_webrtc = self.send_to_webrtc.load(Ordering::SeqCst);
         if was_initialized {
             self.stop_recording()?;
         }
         self.recording_device = Some(id);
-        if was_initialized {
+        // Recording is still wanted, even if it cannot be resumed with this device.
+        self.should_record = was_playing;
+        // There may be no stream because an earlier device failed (or there was none).
+        if was_initialized || was_playing {
             self.init_recording()?;
         }
         if was_playing {
-            self.start_recording(was_sending_webrtc)?;
+            self.start_recording(self.should_send_to_webrtc)?;
         }
         Ok(())
     }
@@ -913,6 +921,7 @@ impl Worker {
                 send_to_webrtc: Arc::new(AtomicBool::new(true)),
                 should_play: false,
                 should_record: false,
+                should_send_to_webrtc: true,
             };
             if let Err(e) = worker.register_device_collection_changed(DeviceType::Input) {
                 error!("Failed to register input device callback: {}", e);
-- 
2.43.0


From fd4fa9f7b1a582efd8f49e34095e5d6546543818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 20/32] fix: truncate a long device name at a character
 boundary instead of failing

---
 src/rust/src/webrtc/audio_device_module_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 65a45eb..2ede665 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -227,7 +227,11 @@ pub fn copy_and_truncate_string(
     dest_size: usize,
 ) -> anyhow::Result<()> {
     // Leave room for the nul terminator.
-    let size = std::cmp::min(src.len(), dest_size - 1);
+    let mut size = std::cmp::min(src.len(), dest_size - 1);
+    // Don't cut a character in half.
+    while !src.is_char_boundary(size) {
+        size -= 1;
+    }
     let c_str = CString::new(src.get(0..size).ok_or(anyhow!("couldn't get substring"))?)?;
     let c_str_bytes = c_str.as_bytes_with_nul();
     // Safety: dest has at least |dest_size| bytes allocated, and we won't
-- 
2.43.0


From e4062efb1af6ecd9487bafceb387c6b625fd3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 21/32] fix: let a device without its own ID be selected by the
 ID reported for it

---
 src/rust/src/webrtc/audio_device_module.rs    | 12 ++-------
 .../src/webrtc/audio_device_module_utils.rs   | 27 +++++++++++++++----
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 3a2a459..eab2d75 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -712,11 +712,7 @@ impl Worker {
                     }
                 }
                 Event::SetPlayoutDeviceById(ref id) => {
-                    if let Some(d) = self.output_device_cache.iter().find(|d| {
-                        d.device_id
-                            .as_ref()
-                            .is_some_and(|actual_id| actual_id == id)
-                    }) {
+                    if let Some(d) = self.output_device_cache.find_by_unique_id(id) {
                         self.update_playout_device(d.devid)
                     } else {
                         Err(anyhow!(
@@ -737,11 +733,7 @@ impl Worker {
                     }
                 }
                 Event::SetRecordingDeviceById(ref id) => {
-                    if let Some(d) = self.input_device_cache.iter().find(|d| {
-                        d.device_id
-                            .as_ref()
-                            .is_some_and(|actual_id| actual_id == id)
-                    }) {
+                    if let Some(d) = self.input_device_cache.find_by_unique_id(id) {
                         self.update_recording_device(d.devid)
                     } else {
                         Err(anyhow!(
diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 2ede665..54945f7 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -173,6 +173,27 @@ impl DeviceCollectionWrapper {
         }
     }
 
+    /// The ID reported for |info|, when it is the device at |idx|.
+    fn unique_id(info: &MinimalDeviceInfo, idx: usize) -> String {
+        // For devices missing unique_id, populate them with name + index
+        info.device_id
+            .clone()
+            .unwrap_or_else(|| format!("{}-{}", info.friendly_name, idx))
+    }
+
+    /// Find a device by the ID that |extract_names| reports for it.
+    pub fn find_by_unique_id(&self, id: &str) -> Option<&MinimalDeviceInfo> {
+        self.iter()
+            .find(|d| d.device_id.as_deref() == Some(id))
+            .or_else(|| {
+                // On Windows, the two default devices are not part of the count.
+                (0..self.count() + 2).find_map(|i| {
+                    self.get(i)
+                        .filter(|info| Self::unique_id(info, i) == id)
+                })
+            })
+    }
+
     /// Extract all names and IDs, **including repetitions** for the default device(s)!
     pub fn extract_names(&self) -> Vec<Option<AudioDevice>> {
         // On mac and windows, this is relatively simple -- we get the count and then get each reported
@@ -207,11 +228,7 @@ impl DeviceCollectionWrapper {
                 }
             }
             names.push(Some(AudioDevice {
-                // For devices missing unique_id, populate them with name + index
-                unique_id: info
-                    .device_id
-                    .clone()
-                    .unwrap_or_else(|| format!("{}-{}", info.friendly_name, i)),
+                unique_id: Self::unique_id(info, i),
                 name: name_copy,
                 i18n_key: "".to_string(),
             }));
-- 
2.43.0


From 2eeb9c338bc49b9cf3dbdd6b4b03b695681fbe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 22/32] fix: update the list of audio devices before the app is
 told of it

---
 src/rust/src/webrtc/audio_device_module.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index eab2d75..6c13b0d 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -201,9 +201,6 @@ impl Worker {
 
         match device_type {
             DeviceType::Input => {
-                if let Some(ado) = &self.audio_device_observer {
-                    ado.input_changed(names.clone());
-                }
                 if let Some(id) = self.recording_device
                     && !collection.iter().any(|device| device.devid == id)
                 {
@@ -213,12 +210,13 @@ impl Worker {
                     self.recording_device = None;
                 }
                 self.input_device_cache = collection;
-                *self.input_device_names.lock().unwrap() = names;
-            }
-            DeviceType::Output => {
+                *self.input_device_names.lock().unwrap() = names.clone();
+                // Only notify once the new devices can be queried and selected.
                 if let Some(ado) = &self.audio_device_observer {
-                    ado.output_changed(names.clone());
+                    ado.input_changed(names);
                 }
+            }
+            DeviceType::Output => {
                 if let Some(id) = self.playout_device
                     && !collection.iter().any(|device| device.devid == id)
                 {
@@ -228,7 +226,11 @@ impl Worker {
                     self.playout_device = None;
                 }
                 self.output_device_cache = collection;
-                *self.output_device_names.lock().unwrap() = names;
+                *self.output_device_names.lock().unwrap() = names.clone();
+                // Only notify once the new devices can be queried and selected.
+                if let Some(ado) = &self.audio_device_observer {
+                    ado.output_changed(names);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From ce4687265223d4e0dd976caf9588702502233416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 23/32] fix: redact a name in cubeb's log even if another
 redacted name is a part of it

---
 src/rust/src/webrtc/audio_device_module_utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 54945f7..e61af63 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -298,8 +298,13 @@ pub fn redact_by_regex(re: &Regex, s: &str) -> Option<String> {
             re.replace(s, |caps: &regex::Captures| {
                 let mut out = s.to_string();
                 // Skip group 0 (the entire match)
-                for group in caps.iter().skip(1).flatten() {
-                    out = out.replace(group.as_str(), &redact_for_logging(group.as_str()));
+                let mut groups: Vec<&str> =
+                    caps.iter().skip(1).flatten().map(|g| g.as_str()).collect();
+                // Longest first: redacting a group which is part of another one would keep the other
+                // one from being found.
+                groups.sort_by_key(|group| std::cmp::Reverse(group.len()));
+                for group in groups {
+                    out = out.replace(group, &redact_for_logging(group));
                 }
                 out
             })
-- 
2.43.0


From eb2fed910956ed66bdf526a3baae862b8e47dcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 24/32] fix: redact device names in cubeb log lines which cubeb
 cut off

---
 src/rust/src/webrtc/audio_device_module.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 6c13b0d..325e19a 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -1059,7 +1059,8 @@ fn log_c_str(s: &CStr) {
     // These patterns describe the places friendly_name, device_id, and group_id are logged,
     // for the backends where those are potentially sensitive.
     //
-    // The capture groups will be redacted.
+    // The capture groups will be redacted. As cubeb cuts off long lines, each pattern's last alternative
+    // covers lines without their expected end.
     //
     // Note that there's another one that isn't here: cubeb.c logs something like:
     //   LOG("DeviceID: \"%s\"%s\n"
@@ -1069,17 +1070,17 @@ fn log_c_str(s: &CStr) {
     lazy_static! {
         static ref REDACTION_RES: Vec<Regex> = vec![
             // cubeb_wasapi.cpp: wasapi_find_bt_handsfree_output_device
-            Regex::new(r"Found matching device for (.*): (.*)").unwrap(),
+            Regex::new(r"Found matching device for (?:(.*): (.*)|(.*))").unwrap(),
             // cubeb_wasapi.cpp: wasapi_collection_notification_client::OnDefaultDeviceChanged
-            Regex::new(r"collection: Audio device default changed, id = (.*)\.").unwrap(),
+            Regex::new(r"collection: Audio device default changed, id = (.*)").unwrap(),
             // cubeb_wasapi.cpp: wasapi_collection_notification_client::OnDeviceStateChanged
-            Regex::new(r"collection: Audio device state changed, id = (.*), state = .*\.").unwrap(),
+            Regex::new(r"collection: Audio device state changed, id = (?:(.*), state = .*\.|(.*))").unwrap(),
             // cubeb_wasapi.cpp: wasapi_endpoint_notification_client::OnDefaultDeviceChanged
-            Regex::new(r"endpoint: Audio device default changed flow=.* role=.* new_device_id=(.*)\.").unwrap(),
+            Regex::new(r"endpoint: Audio device default changed flow=.* role=.* new_device_id=(.*)").unwrap(),
             // cubeb-coreaudio-rs src/backend/mod.rs audiounit_get_devices_of_type
-            Regex::new(r"Device \d+ \((.*)\) has \d+.*channels").unwrap(),
+            Regex::new(r"Device \d+ \((?:(.*)\) has \d+.*channels|(.*))").unwrap(),
             // cubeb-coreaudio-rs src/backend/mod.rs should_block_vpio_for_device_pair
-            Regex::new(r#".* uid="(.*)", model_uid="(.*)", transport_type=.*, source=.*, source_name="(.*)", name="(.*)", manufacturer=".*""#).unwrap(),
+            Regex::new(r#".* uid="(?:(.*)", model_uid="(.*)", transport_type=.*, source=.*, source_name="(.*)", name="(.*)", manufacturer=".*"|(.*))"#).unwrap(),
         ];
     }
     if PAUSE_LOGGING.load(Ordering::SeqCst) {
-- 
2.43.0


From e95740a73f458164f231631c098eb65e214adb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 25/32] fix: report the jitter of received video in
 milliseconds, not its growth in seconds

---
 src/rust/src/webrtc/stats_observer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 63f0207..932ce42 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -704,7 +704,6 @@ impl VideoReceiverStatsSnapshot {
         let key_frames_decoded_delta = delta!(curr_stats, prev_stats, key_frames_decoded);
         let bytes_received_delta = delta!(curr_stats, prev_stats, bytes_received);
         let total_decode_time_delta = delta!(curr_stats, prev_stats, total_decode_time);
-        let jitter = delta!(curr_stats, prev_stats, jitter);
         let freeze_count = delta!(curr_stats, prev_stats, freeze_count);
 
         let packets_per_second =
@@ -718,6 +717,8 @@ impl VideoReceiverStatsSnapshot {
             * total_decode_time_delta
                 .naive_checked_div(frames_decoded_delta as f64)
                 .unwrap_or(0.0);
+        // Like for audio receivers, a current value and not an accumulated one.
+        let jitter = 1000.0 * curr_stats.jitter;
 
         let decoder_implementation = if !curr_stats.raw_decoder_implementation.is_null() {
             Some(unsafe {
-- 
2.43.0


From e45efbe3c34b657ab9d87dcbd9d6b1f477b94e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 26/32] fix: no negative or infinite rates when no time passed
 between two stats reports

---
 src/rust/src/webrtc/stats_observer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 932ce42..c596c22 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -712,7 +712,9 @@ impl VideoReceiverStatsSnapshot {
         let packets_lost_pct =
             compute_packets_lost_pct(packets_lost, packets_received_delta + packets_lost);
         let bitrate = compute_bitrate(bytes_received_delta, seconds_elapsed);
-        let framerate = frames_decoded_delta as f32 / seconds_elapsed;
+        let framerate = (frames_decoded_delta as f32)
+            .naive_checked_div(seconds_elapsed)
+            .unwrap_or(0.0);
         let decode_time_per_frame = 1000.0
             * total_decode_time_delta
                 .naive_checked_div(frames_decoded_delta as f64)
@@ -962,6 +964,9 @@ impl StatsObserver {
         } else {
             self.stats_initial_offset.as_secs() as f32
         };
+        // The timestamps follow the wall clock, which can be set back. There are no
+        // meaningful rates for such a report.
+        let seconds_elapsed = seconds_elapsed.max(0.0);
 
         let stats = &mut self.stats;
         let mut stats_report_json = stats.report_json.lock().unwrap();
-- 
2.43.0


From 01f45296a27a337a2c6cdb352c1f3a9ded41bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 27/32] fix: keep the call's part of the telemetry when it fits
 without stats sets

---
 src/rust/src/core/call_summary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/src/core/call_summary.rs b/src/rust/src/core/call_summary.rs
index b29e64c..3669988 100644
--- a/src/rust/src/core/call_summary.rs
+++ b/src/rust/src/core/call_summary.rs
@@ -571,6 +571,10 @@ impl CallTelemetry {
             self.stats_sets.remove(0);
         }
 
+        if self.encoded_len() <= MAX_TELEMETRY_ENCODED_SIZE {
+            return Ok(stats_set_count);
+        }
+
         self.group_call_summary = None;
         self.direct_call_summary = None;
 
-- 
2.43.0


From c279f32ef64e073de8102fb1b290490f2b61e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 28/32] fix: count a call that ends on a relay as relayed

---
 src/rust/src/core/call_summary.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_summary.rs b/src/rust/src/core/call_summary.rs
index 3669988..41278de 100644
--- a/src/rust/src/core/call_summary.rs
+++ b/src/rust/src/core/call_summary.rs
@@ -1058,7 +1058,12 @@ impl DirectCallSummaryInner {
 
         let call_length_ms: u128 =
             (Into::<u64>::into(end_time) - Into::<u64>::into(start_time)).into();
-        let relayed_time_ms = self.relayed_time_this_call.as_millis();
+        // Count the time since the last switch to a relay, too, if the call is still on one.
+        let relayed_time_now = match self.last_relay_start_time {
+            Some(last) if self.relayed => last.elapsed(),
+            _ => Duration::ZERO,
+        };
+        let relayed_time_ms = (self.relayed_time_this_call + relayed_time_now).as_millis();
         let relayed = (relayed_time_ms > call_length_ms / MIN_RELAYED_FRACTION)
             || (relayed_time_ms > 0
                 && call_length_ms <= MIN_CALL_TIME_IGNORE_RELAY_FRACTION.as_millis());
-- 
2.43.0


From 3f96e08d81cb5585994e46f2074818f3bd4827bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 29/32] fix: summarize at most MAX_STREAM_SUMMARIES streams

---
 src/rust/src/core/call_summary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust/src/core/call_summary.rs b/src/rust/src/core/call_summary.rs
index 41278de..cb3e83a 100644
--- a/src/rust/src/core/call_summary.rs
+++ b/src/rust/src/core/call_summary.rs
@@ -297,7 +297,7 @@ impl StreamSummaries {
     where
         F: FnMut(&mut StreamSummary),
     {
-        if self.audio_recv_stream_summaries.len() <= MAX_STREAM_SUMMARIES {
+        if self.audio_recv_stream_summaries.len() < MAX_STREAM_SUMMARIES {
             let summary = self.audio_recv_stream_summaries.entry(ssrc).or_default();
             func(summary);
         } else if let Some(summary) = self.audio_recv_stream_summaries.get_mut(&ssrc) {
@@ -309,7 +309,7 @@ impl StreamSummaries {
     where
         F: FnMut(&mut StreamSummary),
     {
-        if self.audio_send_stream_summaries.len() <= MAX_STREAM_SUMMARIES {
+        if self.audio_send_stream_summaries.len() < MAX_STREAM_SUMMARIES {
             let summary = self.audio_send_stream_summaries.entry(ssrc).or_default();
             func(summary);
         } else if let Some(summary) = self.audio_send_stream_summaries.get_mut(&ssrc) {
@@ -321,7 +321,7 @@ impl StreamSummaries {
     where
         F: FnMut(&mut StreamSummary),
     {
-        if self.video_recv_stream_summaries.len() <= MAX_STREAM_SUMMARIES {
+        if self.video_recv_stream_summaries.len() < MAX_STREAM_SUMMARIES {
             let summary = self.video_recv_stream_summaries.entry(ssrc).or_default();
             func(summary);
         } else if let Some(summary) = self.video_recv_stream_summaries.get_mut(&ssrc) {
@@ -333,7 +333,7 @@ impl StreamSummaries {
     where
         F: FnMut(&mut StreamSummary),
     {
-        if self.video_send_stream_summaries.len() <= MAX_STREAM_SUMMARIES {
+        if self.video_send_stream_summaries.len() < MAX_STREAM_SUMMARIES {
             let summary = self.video_send_stream_summaries.entry(ssrc).or_default();
             func(summary);
         } else if let Some(summary) = self.video_send_stream_summaries.get_mut(&ssrc) {
-- 
2.43.0


From dc19a248fab243eb63e01195b2f3ec0f78fcbbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 30/32] fix: a call never ends before it starts in its summary,
 even if the clock is set back

---
 src/rust/src/core/call_summary.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_summary.rs b/src/rust/src/core/call_summary.rs
index cb3e83a..27c9ee6 100644
--- a/src/rust/src/core/call_summary.rs
+++ b/src/rust/src/core/call_summary.rs
@@ -80,7 +80,7 @@ const DEFAULT_MAX_STATS_SETS: usize = 30;
 
 /// A timestamp is represented as the number of milliseconds since January 1,
 /// 1970 0:0:0 UTC.
-#[derive(Debug, Default, Clone, Copy)]
+#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 pub struct Timestamp(u64);
 
 impl From<Timestamp> for u64 {
@@ -1055,6 +1055,8 @@ impl DirectCallSummaryInner {
             warn!("Failed to create end timestamp: {:?}", now);
             Timestamp(0)
         });
+        // The wall clock can be set back during a call, but no call ends before it starts.
+        let end_time = end_time.max(start_time).max(connect_time.unwrap_or_default());
 
         let call_length_ms: u128 =
             (Into::<u64>::into(end_time) - Into::<u64>::into(start_time)).into();
@@ -1347,6 +1349,8 @@ impl GroupCallSummaryInner {
             warn!("Failed to create end timestamp: {:?}", now);
             Timestamp(0)
         });
+        // The wall clock can be set back during a call, but no call ends before it starts.
+        let end_time = end_time.max(start_time).max(connect_time.unwrap_or_default());
 
         let mut telemetry = CallTelemetry {
             version: CALL_TELEMETRY_VERSION,
-- 
2.43.0


From 9c63e324ba4f7b5bbc201070155b1e4c2c8978ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 31/32] fix: a call link's far-off expiration from the server
 no longer panics

---
 src/rust/src/lite/call_links.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/lite/call_links.rs b/src/rust/src/lite/call_links.rs
index b407280..0a7151d 100644
--- a/src/rust/src/lite/call_links.rs
+++ b/src/rust/src/lite/call_links.rs
@@ -73,6 +73,19 @@ impl<'a> TryFrom<&'a sfu_to_device::peek_info::CallLinkState> for CallLinkRespon
     }
 }
 
+// 9999-12-31T23:59:59Z, which every platform can represent.
+const MAX_EXPIRATION_UNIX_TIMESTAMP: u64 = 253_402_300_799;
+
+/// The timestamp comes from the server, so it may be later than what `SystemTime` can represent.
+fn expiration_from_unix_timestamp(timestamp: u64) -> SystemTime {
+    SystemTime::UNIX_EPOCH
+        .checked_add(Duration::from_secs(timestamp))
+        .unwrap_or_else(|| {
+            warn!("expiration of call link is too far in the future");
+            SystemTime::UNIX_EPOCH + Duration::from_secs(MAX_EXPIRATION_UNIX_TIMESTAMP)
+        })
+}
+
 #[derive(Clone, Debug, PartialEq)]
 pub struct CallLinkState {
     pub name: String,
@@ -102,8 +115,7 @@ impl CallLinkState {
             root_key: *root_key,
             restrictions: deserialized.restrictions,
             revoked: deserialized.revoked,
-            expiration: SystemTime::UNIX_EPOCH
-                + Duration::from_secs(deserialized.expiration_unix_timestamp),
+            expiration: expiration_from_unix_timestamp(deserialized.expiration_unix_timestamp),
         }
     }
 }
-- 
2.43.0


From e6d13d285e80fc828b205eb72de953221b84d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 32/32] fix: video that resumes at its old resolution no longer
 stays pending forever

---
 src/rust/src/core/group_call.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index a780b0d..f539264 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -3269,6 +3269,11 @@ impl Client {
 
             let added_demux_ids: HashSet<DemuxId> =
                 new_demux_ids.difference(&old_demux_ids).copied().collect();
+            for demux_id in &added_demux_ids {
+                state
+                    .peer_connection_observer_impl
+                    .forget_last_height(*demux_id);
+            }
 
             let demux_ids_changed = old_demux_ids != new_demux_ids;
             // If demux IDs changed, let the PeerConnection know that related SSRCs changed as well
@@ -4765,6 +4770,9 @@ impl Client {
 
                     if !is_forwarding {
                         remote_device.client_decoded_height = None;
+                        state
+                            .peer_connection_observer_impl
+                            .forget_last_height(remote_device.demux_id);
                     }
 
                     remote_device.recalculate_higher_resolution_pending();
@@ -4795,6 +4803,9 @@ impl Client {
                     if remote_device.heartbeat_state != heartbeat_state {
                         if heartbeat_state.video_muted == Some(true) {
                             remote_device.client_decoded_height = None;
+                            state
+                                .peer_connection_observer_impl
+                                .forget_last_height(demux_id);
                             remote_device.recalculate_higher_resolution_pending();
                         }
 
@@ -5048,6 +5059,15 @@ impl PeerConnectionObserverImpl {
     fn initialize(&mut self, client: Client) {
         self.client = Some(client);
     }
+
+    // Must be called whenever client_decoded_height does not (or no longer does) reflect the last
+    // height, so that the next frame updates client_decoded_height even if its height is the same.
+    fn forget_last_height(&self, demux_id: DemuxId) {
+        self.last_height_by_demux_id
+            .lock()
+            .unwrap()
+            .remove(&demux_id);
+    }
 }
 
 impl PeerConnectionObserverTrait for PeerConnectionObserverImpl {
@@ -5209,6 +5229,11 @@ impl PeerConnectionObserverTrait for PeerConnectionObserverImpl {
                 client.actor.send(move |state| {
                     if let Some(remote_device) = state.remote_devices.find_by_demux_id_mut(demux_id)
                     {
+                        if remote_device.heartbeat_state.video_muted == Some(true) {
+                            state
+                                .peer_connection_observer_impl
+                                .forget_last_height(demux_id);
+                        }
                         // The height needs to be checked again because last_height_by_demux_id
                         // doesn't account for video mute or forwarding state.
                         if remote_device.client_decoded_height != Some(height)
@@ -5231,6 +5256,10 @@ impl PeerConnectionObserverTrait for PeerConnectionObserverImpl {
                                 );
                             }
                         }
+                    } else {
+                        state
+                            .peer_connection_observer_impl
+                            .forget_last_height(demux_id);
                     }
                 });
             }
-- 
2.43.0

