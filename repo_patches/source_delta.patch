From 863bdecdf5464a73d60c4006f7b3b8019f329c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 01/31] fix: stop an actor that is registered after its stopper
 has been stopped

---
 src/rust/src/common/actor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rust/src/common/actor.rs b/src/rust/src/common/actor.rs
index 2c81906..710ba6e 100644
--- a/src/rust/src/common/actor.rs
+++ b/src/rust/src/common/actor.rs
@@ -239,6 +239,12 @@ impl Stopper {
             .actors
             .lock()
             .map_err(|_| RingRtcError::RegisterActor)?;
+        if self.has_been_stopped() {
+            // The other actors have already been stopped (the flag is set before the lock is
+            // taken), so nobody will stop this one later.
+            actor.stop(&stopped);
+            return Ok(());
+        }
         actors.push(StoppableActorHandle {
             actor,
             stopped,
-- 
2.43.0


From 73736311d95f6583336e589a67ecee974e8976ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 02/31] fix: keep the old ratchet secret when an out of order
 frame arrives

---
 src/rust/src/core/crypto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/core/crypto.rs b/src/rust/src/core/crypto.rs
index 04a1ae8..9cc5743 100644
--- a/src/rust/src/core/crypto.rs
+++ b/src/rust/src/core/crypto.rs
@@ -160,7 +160,7 @@ impl ReceiverState {
             cur = cur.wrapping_add(1);
         }
         let sender_state = SenderState::new(ratchet_counter_goal, secret);
-        if frame_counter.wrapping_sub(self.ratchet_frame) > MAX_OOO_FRAMES {
+        if frame_counter.saturating_sub(self.ratchet_frame) > MAX_OOO_FRAMES {
             Self {
                 sender_state,
                 ratchet_frame: frame_counter,
-- 
2.43.0


From fb49cd9992fbaae673b7e5c960530adafed63a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 03/31] fix: order assets by semantic version rather than by
 its text

---
 src/rust/src/core/assets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/assets.rs b/src/rust/src/core/assets.rs
index 929df2d..ec6558e 100644
--- a/src/rust/src/core/assets.rs
+++ b/src/rust/src/core/assets.rs
@@ -67,12 +67,13 @@ impl Asset {
 
 impl Ord for Asset {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        match self.metadata.cmp(&other.metadata) {
+        // The metadata has the version as a string, which orders 0.0.10 before 0.0.9.
+        match self.version.cmp(&other.version) {
             core::cmp::Ordering::Equal => {}
             ord => return ord,
         }
 
-        self.version.cmp(&other.version)
+        self.metadata.cmp(&other.metadata)
     }
 }
 
-- 
2.43.0


From 9018ca9593c75250e0556ddd1a9f6e35439ed287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 04/31] fix: reject a call link root key with trailing
 characters

---
 src/rust/src/lite/call_links/base16.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links/base16.rs b/src/rust/src/lite/call_links/base16.rs
index 7656be7..94b865b 100644
--- a/src/rust/src/lite/call_links/base16.rs
+++ b/src/rust/src/lite/call_links/base16.rs
@@ -129,7 +129,11 @@ impl ConsonantBase16<'_> {
                 }
                 count_until_separator = match chunk_size_iter.next() {
                     Some(chunk_size) => chunk_size,
-                    None => break,
+                    // Nothing may follow the last chunk.
+                    None => {
+                        let position = string.len() - (bytes.len() + 1);
+                        return Err(DecodeError::UnexpectedSeparator(position));
+                    }
                 };
                 continue;
             }
-- 
2.43.0


From 83a20ac091932e5f6401ef6cafa95033fd526d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 05/31] fix: don't panic on a call link expiration that
 overflows SystemTime

---
 src/rust/src/lite/call_links.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links.rs b/src/rust/src/lite/call_links.rs
index b407280..04ec3a2 100644
--- a/src/rust/src/lite/call_links.rs
+++ b/src/rust/src/lite/call_links.rs
@@ -82,6 +82,9 @@ pub struct CallLinkState {
     pub root_key: CallLinkRootKey,
 }
 
+/// Stands for expirations that can't be expressed; 9999-12-31T23:59:59Z.
+const MAX_EXPIRATION: Duration = Duration::from_secs(253_402_300_799);
+
 impl CallLinkState {
     pub fn from_serialized(deserialized: CallLinkResponse<'_>, root_key: &CallLinkRootKey) -> Self {
         let name = if deserialized.encrypted_name.is_empty() {
@@ -102,8 +105,10 @@ impl CallLinkState {
             root_key: *root_key,
             restrictions: deserialized.restrictions,
             revoked: deserialized.revoked,
+            // The server chooses the timestamp, which may be more than a SystemTime can express.
             expiration: SystemTime::UNIX_EPOCH
-                + Duration::from_secs(deserialized.expiration_unix_timestamp),
+                .checked_add(Duration::from_secs(deserialized.expiration_unix_timestamp))
+                .unwrap_or(SystemTime::UNIX_EPOCH + MAX_EXPIRATION),
         }
     }
 }
-- 
2.43.0


From 9d3f386547dc1247dfad284e6120f287b4a8ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 06/31] fix: end the threads of a call that was never started

A call that is refused as busy or ignored because of glare is dropped
without being terminated. Its state machine ended with it, but not the
two actors that belong to the state machine: an actor's stopper holds
the actor, so dropping them does not stop them, and each refused offer
left two threads behind.
---
 src/rust/src/core/call_fsm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rust/src/core/call_fsm.rs b/src/rust/src/core/call_fsm.rs
index de8ff57..42cbe74 100644
--- a/src/rust/src/core/call_fsm.rs
+++ b/src/rust/src/core/call_fsm.rs
@@ -249,6 +249,11 @@ where
                 error!("Handling event failed: {}", e);
             }
         }
+
+        // A call that was never started is dropped without being terminated,
+        // and its threads must not outlive it.
+        self.drain_worker_thread();
+        self.drain_notify_thread();
     }
 
     /// Synchronize a thread with the main FSM thread.
-- 
2.43.0


From 0f5d53d918ee5c23486db73b1b7c3991a0c08a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 07/31] fix: leave the call in progress alone when another one
 is refused

A call to a peer that is already in a call with us failed as busy, and
the error handler took the call in progress for the one it had just
failed to create: it ended that call, and the application never heard
about the one it had asked for.
---
 src/rust/src/core/call_manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4426a4f..54ae4f3 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2147,6 +2147,7 @@ where
     ) {
         info!("internal_create_api_error(): error: {}", error);
         if let Ok(active_call) = self.active_call()
+            && active_call.call_id() == call_id
             && self.remote_peer_equals_active(&active_call, remote_peer)
         {
             // The task managed to create the active call and then
-- 
2.43.0


From 11ebd99041c23fcbc3bd8d9f26b5beda472c46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:59 +0000
Subject: [PATCH 08/31] fix: terminate a call only once

A call stayed in the call map until its termination, queued on the
worker, had run. A message send failure or a reset handled before that
found it there and terminated it again, and the application was told
two or three times that the call had ended.
---
 src/rust/src/core/call_manager.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 54ae4f3..10515e7 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1029,20 +1029,6 @@ where
         Ok(())
     }
 
-    /// Terminates Call and optionally notifies application of the reason why.
-    /// Also removes/drops it from the map.
-    fn terminate_and_drop_call(&mut self, call_id: CallId) -> Result<()> {
-        info!("terminate_and_drop_call(): call_id: {}", call_id);
-
-        let mut call = match self.call_by_call_id.lock()?.remove(&call_id) {
-            Some(v) => v,
-            None => return Err(RingRtcError::CallIdNotFound(call_id).into()),
-        };
-
-        // blocks while call FSM terminates
-        call.terminate()
-    }
-
     /// Sends a hangup message to a remote_peer via the application.
     pub(super) fn send_hangup(
         &mut self,
@@ -1094,6 +1080,13 @@ where
 
         info!("terminate_call(): call_id: {}", call_id);
 
+        // A call leaves the map as soon as its termination begins, so that
+        // nothing that finds it there terminates it a second time.
+        if self.call_by_call_id.lock()?.remove(&call_id).is_none() {
+            info!("terminate_call(): skipping, already terminating");
+            return Ok(());
+        }
+
         self.trim_messages(call_id)?;
 
         if let Some(reason) = reason {
@@ -1109,7 +1102,7 @@ where
             call.inject_send_hangup_via_rtp_data_to_all(hangup)?;
         }
 
-        let mut call_manager = self.clone();
+        let call_manager = self.clone();
         self.worker_spawn(move || {
             let err = try_scoped(|| {
                 if let Some(hangup) = hangup {
@@ -1119,7 +1112,9 @@ where
                         call.send_hangup_via_signaling_to_all(hangup)?;
                     }
                 }
-                call_manager.terminate_and_drop_call(call_id)
+
+                // blocks while call FSM terminates
+                call.terminate()
             });
             if let Err(err) = err {
                 error!("Conclude call failed: {}", err);
-- 
2.43.0


From 7fd2a2a2ae9a8d4ad4fad57e7c423303698e4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 09/31] fix: answer busy rather than nothing to a second offer
 of the same peer

While an incoming call waits for the application to proceed, it has no active
device, and a further offer of that peer went through the glare tie-break. When
that kept the first call, the second was dropped without a word, as if its
caller had an offer of ours to yield to, and went on ringing until it timed out.
---
 src/rust/src/core/call_manager.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 10515e7..bd4e3cf 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2101,7 +2101,16 @@ where
                     }
                 } else {
                     info!("Glare, not yet connected so no active device");
-                    glare_tiebreaker()
+                    match glare_tiebreaker() {
+                        // The other call was offered to us too, so the peer has no call of ours to
+                        // yield to. Tell it that we won't answer.
+                        ReceivedOfferCollision::GlareWinner
+                            if active_call.direction() == CallDirection::Incoming =>
+                        {
+                            ReceivedOfferCollision::Busy
+                        }
+                        collision => collision,
+                    }
                 }
             } else {
                 info!("Active call exists, sending busy for received offer");
-- 
2.43.0


From 96985f89b7c8f5a89de208bd67a6798878311a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 10/31] fix: notice video that resumes with the same height as
 before

---
 src/rust/src/core/group_call.rs | 34 +++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 6bf9ee5..46d8003 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -3265,6 +3265,13 @@ impl Client {
             let added_demux_ids: HashSet<DemuxId> =
                 new_demux_ids.difference(&old_demux_ids).copied().collect();
 
+            // Whatever was decoded for an earlier device with the same demux ID doesn't count.
+            for demux_id in &added_demux_ids {
+                state
+                    .peer_connection_observer_impl
+                    .forget_last_height(*demux_id);
+            }
+
             let demux_ids_changed = old_demux_ids != new_demux_ids;
             // If demux IDs changed, let the PeerConnection know that related SSRCs changed as well
             if demux_ids_changed {
@@ -4761,6 +4768,9 @@ impl Client {
 
                     if !is_forwarding {
                         remote_device.client_decoded_height = None;
+                        state
+                            .peer_connection_observer_impl
+                            .forget_last_height(remote_device.demux_id);
                     }
 
                     remote_device.recalculate_higher_resolution_pending();
@@ -4791,6 +4801,9 @@ impl Client {
                     if remote_device.heartbeat_state != heartbeat_state {
                         if heartbeat_state.video_muted == Some(true) {
                             remote_device.client_decoded_height = None;
+                            state
+                                .peer_connection_observer_impl
+                                .forget_last_height(demux_id);
                             remote_device.recalculate_higher_resolution_pending();
                         }
 
@@ -5044,6 +5057,15 @@ impl PeerConnectionObserverImpl {
     fn initialize(&mut self, client: Client) {
         self.client = Some(client);
     }
+
+    // To be called whenever the decoded height of a device is reset (or a new one isn't recorded).
+    // Otherwise, video that resumes with the same height as before would go unnoticed.
+    fn forget_last_height(&self, demux_id: DemuxId) {
+        self.last_height_by_demux_id
+            .lock()
+            .unwrap()
+            .remove(&demux_id);
+    }
 }
 
 impl PeerConnectionObserverTrait for PeerConnectionObserverImpl {
@@ -5205,12 +5227,16 @@ impl PeerConnectionObserverTrait for PeerConnectionObserverImpl {
                 client.actor.send(move |state| {
                     if let Some(remote_device) = state.remote_devices.find_by_demux_id_mut(demux_id)
                     {
+                        // Workaround for a race where a frame is received after video muting
+                        if remote_device.heartbeat_state.video_muted == Some(true) {
+                            state
+                                .peer_connection_observer_impl
+                                .forget_last_height(demux_id);
+                            return;
+                        }
                         // The height needs to be checked again because last_height_by_demux_id
                         // doesn't account for video mute or forwarding state.
-                        if remote_device.client_decoded_height != Some(height)
-                        // Workaround for a race where a frame is received after video muting
-                        && remote_device.heartbeat_state.video_muted != Some(true)
-                        {
+                        if remote_device.client_decoded_height != Some(height) {
                             remote_device.client_decoded_height = Some(height);
 
                             let was_higher_resolution_pending =
-- 
2.43.0


From 1cf91b93c36e41c43f412c712bbebe958fc5c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 11/31] fix: process every reliable message that becomes ready,
 not only up to the first with content

---
 src/rust/src/core/group_call.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 46d8003..5f882c5 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -4428,7 +4428,6 @@ impl Client {
                                         error!("Failed to decode content buffer in SfuToDevice: {:?}", err);
                                     }
                                 }
-                                return;
                             } else {
                                 Self::handle_sfu_to_device_inner(
                                     &state.actor,
-- 
2.43.0


From 1903ff37dee8f0b74a3795af52a9a37d69e491a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 12/31] fix: leave again before a group call closes if it was
 joined while it was ending

---
 src/rust/src/core/group_call.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 5f882c5..8764d47 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2750,6 +2750,10 @@ impl Client {
                 // the peer connection and cleaning up.
                 let actor = state.actor.clone();
                 actor.send_delayed(CLIENT_END_DELAY, move |state| {
+                    // The app might have called join() during the delay.
+                    if !matches!(state.join_state, JoinState::NotJoined(_)) {
+                        Self::leave_inner(state);
+                    }
                     state.peer_connection.close();
                     Self::set_connection_state_and_notify_observer(
                         state,
-- 
2.43.0


From a37c2b54c5db28bc81b9fb280ff323a7502c3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 13/31] fix: don't ring for a group call after leaving it, nor
 cancel its ring twice

---
 src/rust/src/core/group_call.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 8764d47..f8b039a 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2052,6 +2052,9 @@ impl Client {
             }
         }
 
+        // Neither cancel the ring again nor ring for a call we are no longer in.
+        state.outgoing_ring_state = OutgoingRingState::Unknown;
+
         Self::release_busy(state);
         Self::set_join_state_and_notify_observer(state, JoinState::NotJoined(None));
         state.next_heartbeat_time = None;
-- 
2.43.0


From 2f220fd27bad23aa9499843ea0215364ee32bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 14/31] fix: keep a call findable while it is being terminated

Terminating a call only once need not take it out of the call map at
once: CallManager::synchronize() also waits for the calls it finds there.
---
 src/rust/src/core/call.rs         | 10 ++++++++++
 src/rust/src/core/call_manager.rs | 24 +++++++++++++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index fa505a1..ada535c 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -103,6 +103,9 @@ where
     terminate_condvar: Arc<(Mutex<bool>, Condvar)>,
     /// Whether or not an offer has been sent via messaging for this call.
     did_send_offer: Arc<AtomicBool>,
+    /// Whether or not the termination of this call has begun. Until it is over, the call can still
+    /// be found, but must not be terminated again.
+    did_begin_termination: Arc<AtomicBool>,
     /// Whether or not the application has already been notified of ApplicationEvent::RemoteRinging.
     /// It's a little ugly, but we need to handle the case where we get ConnectionState::ConnectedBeforeAccepted
     /// before a ConnectionState::ConnectingAfterAccepted and not notify the application twice.
@@ -192,6 +195,7 @@ where
             connection_map: Arc::clone(&self.connection_map),
             terminate_condvar: Arc::clone(&self.terminate_condvar),
             did_send_offer: Arc::clone(&self.did_send_offer),
+            did_begin_termination: Arc::clone(&self.did_begin_termination),
             did_notify_application_of_remote_ringing: Arc::clone(
                 &self.did_notify_application_of_remote_ringing,
             ),
@@ -241,6 +245,7 @@ where
             connection_map: Arc::new(CallMutex::new(HashMap::new(), "connection_map")),
             terminate_condvar: Arc::new((Mutex::new(false), Condvar::new())),
             did_send_offer: Arc::new(AtomicBool::new(false)),
+            did_begin_termination: Arc::new(AtomicBool::new(false)),
             did_notify_application_of_remote_ringing: Arc::new(AtomicBool::new(false)),
             forking: Arc::new(CallMutex::new(None, "forking")),
             call_summary: DirectCallSummary::default(),
@@ -975,6 +980,11 @@ where
         Ok(())
     }
 
+    /// Returns whether the termination of this call had not begun yet, and notes that it has now.
+    pub fn begin_termination(&self) -> bool {
+        !self.did_begin_termination.swap(true, Ordering::AcqRel)
+    }
+
     /// Terminate this Call.
     ///
     /// Notify the internal FSM to terminate.
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index bd4e3cf..502c7d5 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1029,6 +1029,20 @@ where
         Ok(())
     }
 
+    /// Terminates Call and optionally notifies application of the reason why.
+    /// Also removes/drops it from the map.
+    fn terminate_and_drop_call(&mut self, call_id: CallId) -> Result<()> {
+        info!("terminate_and_drop_call(): call_id: {}", call_id);
+
+        let mut call = match self.call_by_call_id.lock()?.remove(&call_id) {
+            Some(v) => v,
+            None => return Err(RingRtcError::CallIdNotFound(call_id).into()),
+        };
+
+        // blocks while call FSM terminates
+        call.terminate()
+    }
+
     /// Sends a hangup message to a remote_peer via the application.
     pub(super) fn send_hangup(
         &mut self,
@@ -1080,9 +1094,7 @@ where
 
         info!("terminate_call(): call_id: {}", call_id);
 
-        // A call leaves the map as soon as its termination begins, so that
-        // nothing that finds it there terminates it a second time.
-        if self.call_by_call_id.lock()?.remove(&call_id).is_none() {
+        if !call.begin_termination() {
             info!("terminate_call(): skipping, already terminating");
             return Ok(());
         }
@@ -1102,7 +1114,7 @@ where
             call.inject_send_hangup_via_rtp_data_to_all(hangup)?;
         }
 
-        let call_manager = self.clone();
+        let mut call_manager = self.clone();
         self.worker_spawn(move || {
             let err = try_scoped(|| {
                 if let Some(hangup) = hangup {
@@ -1112,9 +1124,7 @@ where
                         call.send_hangup_via_signaling_to_all(hangup)?;
                     }
                 }
-
-                // blocks while call FSM terminates
-                call.terminate()
+                call_manager.terminate_and_drop_call(call_id)
             });
             if let Err(err) = err {
                 error!("Conclude call failed: {}", err);
-- 
2.43.0


From 99daa40548f760c35f0bd446e9fb0cc1f728dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 15/31] fix: don't turn media on for screen sharing when not in
 the group call

set_sharing_screen set the send rates, and with them turned outgoing media,
recording and playout on, even before joining or after leaving the call.
---
 src/rust/src/core/group_call.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index f8b039a..bc7f58e 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2300,8 +2300,13 @@ impl Client {
                     err
                 );
             }
-            let send_rates = Self::compute_send_rates(state.remote_devices.len(), sharing_screen);
-            Self::set_send_rates_inner(state, send_rates);
+            // Changing the send rates also turns the media on or off, which is only for a call
+            // that has been joined. Otherwise they're set when it is joined.
+            if let JoinState::Joined(_) = state.join_state {
+                let send_rates =
+                    Self::compute_send_rates(state.remote_devices.len(), sharing_screen);
+                Self::set_send_rates_inner(state, send_rates);
+            }
         });
     }
 
-- 
2.43.0


From 0eb2c76433690562e2be9c9de9d45a36ba8f4a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 16/31] fix: set_network_route took the connection's locks in
 the opposite order (deadlock with a data mode change)

---
 src/rust/src/core/connection.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rust/src/core/connection.rs b/src/rust/src/core/connection.rs
index 4e62611..729406e 100644
--- a/src/rust/src/core/connection.rs
+++ b/src/rust/src/core/connection.rs
@@ -1011,14 +1011,16 @@ where
 
     /// Update the current network route.
     pub fn set_network_route(&self, network_route: NetworkRoute) -> Result<()> {
-        if let Ok(mut webrtc) = self
-            .webrtc
-            .lock()
-            .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
-            && let Ok(old_network_route) = self.network_route()
+        // Read the old route before locking webrtc: update_bandwidth_controller takes the
+        // locks in the order of (bandwidth_controller, webrtc).
+        if let Ok(old_network_route) = self.network_route()
             && (old_network_route.local_relayed != network_route.local_relayed
                 || old_network_route.remote_relayed != network_route.remote_relayed
                 || old_network_route.local_relay_protocol != network_route.local_relay_protocol)
+            && let Ok(mut webrtc) = self
+                .webrtc
+                .lock()
+                .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
         {
             if let Some(observer) = webrtc.stats_observer.as_mut() {
                 observer.set_network_route(network_route);
-- 
2.43.0


From 00c9de04bc081adf8ca763fb07319dc3c7b44c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 17/31] fix: a hangup for the peer's connection was dropped
 when the call ended first

Local hangups are sent over RTP data by the worker threads of the call and
of its connections, and terminating stops these with work still queued.
---
 src/rust/src/core/call_fsm.rs       | 7 ++-----
 src/rust/src/core/connection_fsm.rs | 9 ++++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/rust/src/core/call_fsm.rs b/src/rust/src/core/call_fsm.rs
index 42cbe74..616bebe 100644
--- a/src/rust/src/core/call_fsm.rs
+++ b/src/rust/src/core/call_fsm.rs
@@ -704,11 +704,8 @@ where
     ) -> Result<()> {
         info!("handle_send_hangup_via_rtp_data_to_all():");
         if state.can_send_hangup_via_rtp() {
-            self.schedule_work_even_when_terminating(
-                call,
-                "Send hangup request failed",
-                move |call| call.send_hangup_via_rtp_data_to_all(hangup),
-            );
+            // Not on the worker thread: terminating stops it with work still queued.
+            call.send_hangup_via_rtp_data_to_all(hangup)?;
         } else {
             self.unexpected_state(state, "LocalHangup")
         }
diff --git a/src/rust/src/core/connection_fsm.rs b/src/rust/src/core/connection_fsm.rs
index 93b7c1e..1359b01 100644
--- a/src/rust/src/core/connection_fsm.rs
+++ b/src/rust/src/core/connection_fsm.rs
@@ -708,11 +708,10 @@ where
         hangup: signaling::Hangup,
     ) -> Result<()> {
         if state.can_send_hangup_via_rtp() {
-            self.worker_spawn(move || {
-                if let Err(err) = connection.send_hangup_via_rtp_data(hangup) {
-                    connection.inject_internal_error(err, "Sending Hangup failed");
-                }
-            });
+            // Not on the worker thread: terminating stops it with work still queued.
+            if let Err(err) = connection.send_hangup_via_rtp_data(hangup) {
+                connection.inject_internal_error(err, "Sending Hangup failed");
+            }
         } else {
             self.unexpected_state(state, "SendHangupViaRtpData");
         }
-- 
2.43.0


From 773b8bc069121818b05e79134e419c90d4a9d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 18/31] fix: devices kept ringing when an accepted call ended
 right away

The signaling hangup for the devices that did not accept was queued on a
worker that is stopped when the call ends, and what ends an accepted call
does not tell them either.
---
 src/rust/src/core/call_fsm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rust/src/core/call_fsm.rs b/src/rust/src/core/call_fsm.rs
index 616bebe..38811ef 100644
--- a/src/rust/src/core/call_fsm.rs
+++ b/src/rust/src/core/call_fsm.rs
@@ -344,14 +344,18 @@ where
         call.set_active_device_id(accepted_remote_device_id)?;
         call.start_call_summary_stats_collection()?;
 
+        // Not on the worker thread: if the call ends right away, the other devices still have to
+        // stop ringing, and what ends it may rely on them having been told.
         let hangup = signaling::Hangup::AcceptedOnAnotherDevice(accepted_remote_device_id);
-        call.send_hangup_via_rtp_data_to_all_except(hangup, accepted_remote_device_id)?;
+        call.send_hangup_via_rtp_data_and_signaling_to_all_except(
+            hangup,
+            accepted_remote_device_id,
+        )?;
 
         self.schedule_work_until_terminating(
             call,
-            "terminate_and_send_hangups_to_all_except_accepted failed",
+            "terminate_connections_except_accepted failed",
             move |call| {
-                call.send_hangup_via_signaling_to_all(hangup)?;
                 // This blocks.
                 call.terminate_connections_except_accepted(accepted_remote_device_id)?;
                 Ok(())
-- 
2.43.0


From 4756d9aa4d40157594f0f8dfffcea6dd24b47fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 19/31] fix: a busy from another device ended an accepted call

---
 src/rust/src/core/call_manager.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 502c7d5..c25bbfb 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1750,6 +1750,14 @@ where
             .compare_remotes(&active_remote_peer, &remote_peer)
             .unwrap_or(false)
         {
+            // If already connected to device A, ignore busy messages from device B.
+            if let Ok(active_device_id) = active_call.active_device_id()
+                && sender_device_id != active_device_id
+            {
+                info!("handle_received_busy(): Ignoring busy from a device we aren't connected with");
+                return Ok(());
+            }
+
             // Invoke hangup_other for the call, which will inject hangup/busy
             // to all connections, if any.
             let hangup = signaling::Hangup::BusyOnAnotherDevice(sender_device_id);
-- 
2.43.0


From b2eb97344416f331c37df73d7049f370687e5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 20/31] fix: simulated links can have a constant delay

---
 src/rust/src/simnet/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/simnet/router.rs b/src/rust/src/simnet/router.rs
index 087a34b..b6f0ec0 100644
--- a/src/rust/src/simnet/router.rs
+++ b/src/rust/src/simnet/router.rs
@@ -199,7 +199,7 @@ impl Link {
         //     config.delay_std_dev.as_secs_f64(),
         // );
         let delay_distribution = distributions::Uniform::from(
-            (config.delay_min.as_millis() as u64)..(config.delay_max.as_millis() as u64),
+            (config.delay_min.as_millis() as u64)..=(config.delay_max.as_millis() as u64),
         );
         let leaky_bucket = LeakyBucket::start(config.clone(), receiver, stopper.clone())?;
         Ok(Self {
-- 
2.43.0


From c09a5bb18b919c0083ec04ede868f15b16df101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 21/31] fix: a clone of an ICE server refers to its own URLs,
 not to the original's

---
 .../src/webrtc/peer_connection_factory.rs     | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/peer_connection_factory.rs b/src/rust/src/webrtc/peer_connection_factory.rs
index 1187d80..716b324 100644
--- a/src/rust/src/webrtc/peer_connection_factory.rs
+++ b/src/rust/src/webrtc/peer_connection_factory.rs
@@ -52,7 +52,7 @@ pub enum RffiPeerConnectionKind {
     GroupCall,
 }
 
-#[derive(Clone, Debug, Default)]
+#[derive(Debug, Default)]
 pub struct IceServer {
     username: CString,
     password: CString,
@@ -63,6 +63,24 @@ pub struct IceServer {
     url_ptrs: Vec<webrtc::ptr::Borrowed<c_char>>,
 }
 
+// Not derived because the pointers have to refer to the clone's own strings.
+impl Clone for IceServer {
+    fn clone(&self) -> Self {
+        let urls = self._urls.clone();
+        let url_ptrs = urls
+            .iter()
+            .map(|s| webrtc::ptr::Borrowed::from_ptr(s.as_ptr()))
+            .collect();
+        Self {
+            username: self.username.clone(),
+            password: self.password.clone(),
+            hostname: self.hostname.clone(),
+            _urls: urls,
+            url_ptrs,
+        }
+    }
+}
+
 unsafe impl Send for IceServer {}
 unsafe impl Sync for IceServer {}
 
-- 
2.43.0


From a97f92f5585bcea3fd6e1d31908812b44d7e8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 22/31] fix: the frame rate received was not a number when no
 time had passed

---
 src/rust/src/webrtc/stats_observer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 63f0207..725c565 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -713,7 +713,9 @@ impl VideoReceiverStatsSnapshot {
         let packets_lost_pct =
             compute_packets_lost_pct(packets_lost, packets_received_delta + packets_lost);
         let bitrate = compute_bitrate(bytes_received_delta, seconds_elapsed);
-        let framerate = frames_decoded_delta as f32 / seconds_elapsed;
+        let framerate = (frames_decoded_delta as f32)
+            .naive_checked_div(seconds_elapsed)
+            .unwrap_or(0.0);
         let decode_time_per_frame = 1000.0
             * total_decode_time_delta
                 .naive_checked_div(frames_decoded_delta as f64)
-- 
2.43.0


From 96f68388d1d3849b30c9f2675787edb81b6270f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 23/31] fix: received video's jitter was the change of it, in
 seconds shown as milliseconds

---
 src/rust/src/webrtc/stats_observer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 725c565..868497a 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -704,7 +704,7 @@ impl VideoReceiverStatsSnapshot {
         let key_frames_decoded_delta = delta!(curr_stats, prev_stats, key_frames_decoded);
         let bytes_received_delta = delta!(curr_stats, prev_stats, bytes_received);
         let total_decode_time_delta = delta!(curr_stats, prev_stats, total_decode_time);
-        let jitter = delta!(curr_stats, prev_stats, jitter);
+        let jitter = 1000.0 * curr_stats.jitter;
         let freeze_count = delta!(curr_stats, prev_stats, freeze_count);
 
         let packets_per_second =
-- 
2.43.0


From b6f90fb948f41049391a47c01b7bff589acb52f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 24/31] fix: the send delay per packet was divided by the
 frames

---
 src/rust/src/webrtc/stats_observer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 868497a..f9275ad 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -575,7 +575,7 @@ impl VideoSenderStatsSnapshot {
                 .unwrap_or(0.0);
         let send_delay_per_packet = 1000.0
             * total_packets_send_delay_delta
-                .naive_checked_div(frames_encoded_delta as f64)
+                .naive_checked_div(packets_sent_delta as f64)
                 .unwrap_or(0.0);
         let remote_packets_lost_pct =
             compute_packets_lost_pct(packets_lost_delta.max(0) as u32, packets_sent_delta);
-- 
2.43.0


From 9e7721a17936d6649148bdb4300801265cfb8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 25/31] fix: devices with long names outside ASCII could not be
 named to WebRTC

When byte 127 of a name (or id) was inside a character, copying it failed,
and with it the whole query. Cut before that character instead.
---
 src/rust/src/webrtc/audio_device_module_utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 65a45eb..78bd3a9 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -226,8 +226,11 @@ pub fn copy_and_truncate_string(
     mut dest: webrtc::ptr::Borrowed<c_uchar>,
     dest_size: usize,
 ) -> anyhow::Result<()> {
-    // Leave room for the nul terminator.
-    let size = std::cmp::min(src.len(), dest_size - 1);
+    // Leave room for the nul terminator, and don't split a character.
+    let mut size = std::cmp::min(src.len(), dest_size - 1);
+    while !src.is_char_boundary(size) {
+        size -= 1;
+    }
     let c_str = CString::new(src.get(0..size).ok_or(anyhow!("couldn't get substring"))?)?;
     let c_str_bytes = c_str.as_bytes_with_nul();
     // Safety: dest has at least |dest_size| bytes allocated, and we won't
-- 
2.43.0


From 4296c8eee49fc6f8613db6f6d5fd2f6199d9be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 26/31] fix: choosing a device that has no id of its own was
 ignored

Such a device is listed with an id made from its name and index, which
set_*_device_by_id accepted, but the worker looked for it only among the
devices' own ids.
---
 src/rust/src/webrtc/audio_device_module.rs    | 12 ++-------
 .../src/webrtc/audio_device_module_utils.rs   | 27 +++++++++++++++----
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 1c3154b..7c62c2b 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -705,11 +705,7 @@ impl Worker {
                     }
                 }
                 Event::SetPlayoutDeviceById(ref id) => {
-                    if let Some(d) = self.output_device_cache.iter().find(|d| {
-                        d.device_id
-                            .as_ref()
-                            .is_some_and(|actual_id| actual_id == id)
-                    }) {
+                    if let Some(d) = self.output_device_cache.get_by_unique_id(id) {
                         self.update_playout_device(d.devid)
                     } else {
                         Err(anyhow!(
@@ -730,11 +726,7 @@ impl Worker {
                     }
                 }
                 Event::SetRecordingDeviceById(ref id) => {
-                    if let Some(d) = self.input_device_cache.iter().find(|d| {
-                        d.device_id
-                            .as_ref()
-                            .is_some_and(|actual_id| actual_id == id)
-                    }) {
+                    if let Some(d) = self.input_device_cache.get_by_unique_id(id) {
                         self.update_recording_device(d.devid)
                     } else {
                         Err(anyhow!(
diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 78bd3a9..22ddc80 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -173,6 +173,27 @@ impl DeviceCollectionWrapper {
         }
     }
 
+    /// The ID that |extract_names| reports for the device at |idx|.
+    fn unique_id(info: &MinimalDeviceInfo, idx: usize) -> String {
+        // For devices missing unique_id, populate them with name + index
+        info.device_id
+            .clone()
+            .unwrap_or_else(|| format!("{}-{}", info.friendly_name, idx))
+    }
+
+    /// Find the device that |extract_names| reports with the given |unique_id|.
+    pub fn get_by_unique_id(&self, unique_id: &str) -> Option<&MinimalDeviceInfo> {
+        #[cfg(not(target_os = "windows"))]
+        let count = self.count();
+        #[cfg(target_os = "windows")]
+        let count = self.count() + 2;
+
+        (0..count).find_map(|i| {
+            self.get(i)
+                .filter(|info| Self::unique_id(info, i) == unique_id)
+        })
+    }
+
     /// Extract all names and IDs, **including repetitions** for the default device(s)!
     pub fn extract_names(&self) -> Vec<Option<AudioDevice>> {
         // On mac and windows, this is relatively simple -- we get the count and then get each reported
@@ -207,11 +228,7 @@ impl DeviceCollectionWrapper {
                 }
             }
             names.push(Some(AudioDevice {
-                // For devices missing unique_id, populate them with name + index
-                unique_id: info
-                    .device_id
-                    .clone()
-                    .unwrap_or_else(|| format!("{}-{}", info.friendly_name, i)),
+                unique_id: Self::unique_id(info, i),
                 name: name_copy,
                 i18n_key: "".to_string(),
             }));
-- 
2.43.0


From a4969ccb29a21a36f908fd427693134f0b3fa07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 27/31] fix: after one late answer, every playout delay was
 that of the previous request

---
 src/rust/src/webrtc/audio_device_module.rs | 29 ++++++++--------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 7c62c2b..4c0ff95 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -104,7 +104,7 @@ enum Event {
     WarmupRecording,
     SetInputProcessing(bool),
     StopRecording,
-    PlayoutDelay,
+    PlayoutDelay(mpsc::Sender<anyhow::Result<u16>>),
     Terminate,
     RegisterAudioObserver(Box<dyn AudioDeviceObserver>),
 }
@@ -129,7 +129,7 @@ impl Display for Event {
                 Event::WarmupRecording => "WarmupRecording",
                 Event::SetInputProcessing(_) => "SetInputProcessing",
                 Event::StopRecording => "StopRecording",
-                Event::PlayoutDelay => "PlayoutDelay",
+                Event::PlayoutDelay(_) => "PlayoutDelay",
                 Event::Terminate => "Terminate",
                 Event::RegisterAudioObserver(_) => "RegisterAudioObserver",
             }
@@ -684,11 +684,7 @@ impl Worker {
         }
     }
 
-    fn work(
-        &mut self,
-        receiver: mpsc::Receiver<Event>,
-        playout_delay_sender: mpsc::Sender<anyhow::Result<u16>>,
-    ) {
+    fn work(&mut self, receiver: mpsc::Receiver<Event>) {
         for received in receiver {
             let log_str = received.to_string();
             if let Err(e) = match received {
@@ -745,8 +741,8 @@ impl Worker {
                     self.set_input_processing_enabled(voice_processing_enabled)
                 }
                 Event::StopRecording => self.stop_recording(),
-                Event::PlayoutDelay => {
-                    if let Err(e) = playout_delay_sender.send(self.playout_delay()) {
+                Event::PlayoutDelay(sender) => {
+                    if let Err(e) = sender.send(self.playout_delay()) {
                         Err(anyhow!("Failed to send playout delay: {}", e))
                     } else {
                         Ok(())
@@ -848,7 +844,6 @@ impl Worker {
         started_signal: mpsc::Sender<Option<String>>,
         receiver: mpsc::Receiver<Event>,
         sender: mpsc::Sender<Event>,
-        playout_delay_sender: mpsc::Sender<anyhow::Result<u16>>,
         input_device_names: Arc<Mutex<Vec<Option<AudioDevice>>>>,
         output_device_names: Arc<Mutex<Vec<Option<AudioDevice>>>>,
     ) -> JoinHandle<()> {
@@ -945,7 +940,7 @@ impl Worker {
                 );
             }
 
-            worker.work(receiver, playout_delay_sender);
+            worker.work(receiver);
         })
     }
 }
@@ -972,7 +967,6 @@ pub struct AudioDeviceModule {
     // This is only an option so that we can `take` out of it.
     cubeb_worker: Option<JoinHandle<()>>,
     mpsc_sender: mpsc::Sender<Event>,
-    playout_delay_receiver: mpsc::Receiver<anyhow::Result<u16>>,
 }
 
 impl Drop for AudioDeviceModule {
@@ -1127,12 +1121,10 @@ impl AudioDeviceModule {
         let output_device_names = Arc::new(Mutex::new(Vec::new()));
         let (sender, receiver) = mpsc::channel();
         let (started_sender, started_receiver) = mpsc::channel();
-        let (playout_delay_sender, playout_delay_receiver) = mpsc::channel();
         let cubeb_worker = Worker::spawn(
             started_sender,
             receiver,
             sender.clone(),
-            playout_delay_sender,
             input_device_names.clone(),
             output_device_names.clone(),
         );
@@ -1158,7 +1150,6 @@ impl AudioDeviceModule {
             has_recording_device: false,
             cubeb_worker: Some(cubeb_worker),
             mpsc_sender: sender,
-            playout_delay_receiver,
         })
     }
 
@@ -1577,13 +1568,15 @@ impl AudioDeviceModule {
     }
 
     pub fn playout_delay(&self, delay_ms: webrtc::ptr::Borrowed<u16>) -> i32 {
-        if let Err(e) = self.mpsc_sender.send(Event::PlayoutDelay) {
+        // Each request has its own channel, so that the response to one that timed out isn't
+        // mistaken for the response to a later one.
+        let (sender, receiver) = mpsc::channel();
+        if let Err(e) = self.mpsc_sender.send(Event::PlayoutDelay(sender)) {
             error!("Failed to request PlayoutDelay: {}", e);
             return -1;
         }
         // If we wait more than 50ms the delay probably won't be helpful anymore anyway.
-        match self
-            .playout_delay_receiver
+        match receiver
             .recv_timeout(Duration::from_millis(50))
             .context("timed out trying to recv")
             .flatten()
-- 
2.43.0


From b20844c6ded3e3caaa43008944f40cc86905d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 28/31] fix: an audio device module was leaked when the field
 trials were invalid

---
 src/rust/src/webrtc/peer_connection_factory.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/webrtc/peer_connection_factory.rs b/src/rust/src/webrtc/peer_connection_factory.rs
index 716b324..826f325 100644
--- a/src/rust/src/webrtc/peer_connection_factory.rs
+++ b/src/rust/src/webrtc/peer_connection_factory.rs
@@ -315,10 +315,11 @@ impl PeerConnectionFactory {
     ) -> Result<Self> {
         debug!("PeerConnectionFactory::new()");
 
-        let audio_config_rffi = audio_config.rffi(audio_device_observer)?;
-
+        // Do this first: from here on, only WebRTC will release the audio device module.
         let field_trials_cstr = CString::new(field_trials_string)?;
 
+        let audio_config_rffi = audio_config.rffi(audio_device_observer)?;
+
         let rffi = unsafe {
             webrtc::Arc::from_owned(pcf::Rust_createPeerConnectionFactory(
                 webrtc::ptr::Borrowed::from_ptr(&audio_config_rffi.rffi),
-- 
2.43.0


From 8cb676d9f8ac300075351d61c31f0324f08cf9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 29/31] fix: redacting a line repeated parts of it, and could
 show the end of a name

---
 .../src/webrtc/audio_device_module_utils.rs   | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 22ddc80..cb03e72 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -292,21 +292,17 @@ pub fn redact_for_logging(s: &str) -> String {
 /// Redact all capturing groups (except group 0) with |redact_for_logging|
 /// if the regex matches. Otherwise, return None.
 pub fn redact_by_regex(re: &Regex, s: &str) -> Option<String> {
-    if re.is_match(s) {
-        Some(
-            re.replace(s, |caps: &regex::Captures| {
-                let mut out = s.to_string();
-                // Skip group 0 (the entire match)
-                for group in caps.iter().skip(1).flatten() {
-                    out = out.replace(group.as_str(), &redact_for_logging(group.as_str()));
-                }
-                out
-            })
-            .to_string(),
-        )
-    } else {
-        None
+    let caps = re.captures(s)?;
+    let mut out = String::new();
+    let mut end = 0;
+    // Skip group 0 (the entire match)
+    for group in caps.iter().skip(1).flatten() {
+        out.push_str(&s[end..group.start()]);
+        out.push_str(&redact_for_logging(group.as_str()));
+        end = group.end();
     }
+    out.push_str(&s[end..]);
+    Some(out)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8e5e57a28e7a692bed324c5173b506d2eae7dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 30/31] fix: a line that cubeb truncated was logged with the
 names of devices in it

---
 src/rust/src/webrtc/audio_device_module.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 4c0ff95..ac61f37 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -1057,15 +1057,21 @@ fn log_c_str(s: &CStr) {
             // cubeb_wasapi.cpp: wasapi_find_bt_handsfree_output_device
             Regex::new(r"Found matching device for (.*): (.*)").unwrap(),
             // cubeb_wasapi.cpp: wasapi_collection_notification_client::OnDefaultDeviceChanged
-            Regex::new(r"collection: Audio device default changed, id = (.*)\.").unwrap(),
+            Regex::new(r"collection: Audio device default changed, id = (.*)\.$").unwrap(),
             // cubeb_wasapi.cpp: wasapi_collection_notification_client::OnDeviceStateChanged
-            Regex::new(r"collection: Audio device state changed, id = (.*), state = .*\.").unwrap(),
+            Regex::new(r"collection: Audio device state changed, id = (.*), state = .*\.$").unwrap(),
             // cubeb_wasapi.cpp: wasapi_endpoint_notification_client::OnDefaultDeviceChanged
-            Regex::new(r"endpoint: Audio device default changed flow=.* role=.* new_device_id=(.*)\.").unwrap(),
+            Regex::new(r"endpoint: Audio device default changed flow=.* role=.* new_device_id=(.*)\.$").unwrap(),
             // cubeb-coreaudio-rs src/backend/mod.rs audiounit_get_devices_of_type
             Regex::new(r"Device \d+ \((.*)\) has \d+.*channels").unwrap(),
             // cubeb-coreaudio-rs src/backend/mod.rs should_block_vpio_for_device_pair
             Regex::new(r#".* uid="(.*)", model_uid="(.*)", transport_type=.*, source=.*, source_name="(.*)", name="(.*)", manufacturer=".*""#).unwrap(),
+            // The same lines again, in case cubeb truncated them.
+            Regex::new(r"Found matching device for (.*)").unwrap(),
+            Regex::new(r"collection: Audio device (?:default|state) changed, id = (.*)").unwrap(),
+            Regex::new(r"endpoint: Audio device default changed flow=.* role=.* new_device_id=(.*)").unwrap(),
+            Regex::new(r"Device \d+ \((.*)").unwrap(),
+            Regex::new(r#".* uid="(.*)"#).unwrap(),
         ];
     }
     if PAUSE_LOGGING.load(Ordering::SeqCst) {
-- 
2.43.0


From 09352e8abb863bd0124ba755151c2e1de7697ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 31/31] fix: a video track given to a new peer connection was
 released before WebRTC could take it

---
 src/rust/src/webrtc/peer_connection_factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/src/webrtc/peer_connection_factory.rs b/src/rust/src/webrtc/peer_connection_factory.rs
index 826f325..9b848ed 100644
--- a/src/rust/src/webrtc/peer_connection_factory.rs
+++ b/src/rust/src/webrtc/peer_connection_factory.rs
@@ -413,6 +413,7 @@ impl PeerConnectionFactory {
                 webrtc::ptr::Borrowed::from_ptr(&rffi_ice_servers),
                 outgoing_audio_track.rffi().as_borrowed(),
                 outgoing_video_track
+                    .as_ref()
                     .map_or_else(webrtc::ptr::BorrowedRc::null, |outgoing_video_track| {
                         outgoing_video_track.rffi().as_borrowed()
                     }),
-- 
2.43.0

