From c40ba672921ddd1c09434ff3963167836342b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:32 +0000
Subject: [PATCH 01/12] fix: keep sending after a full send buffer drains

A full send buffer made the connection skip the outbound message channel. When the
socket then took everything in the same poll, nothing was left to wake the task, and
messages already in the channel stalled until unrelated activity.
---
 protosocket-connection/src/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 36e817c..775695e 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -532,6 +532,7 @@ where
     }
 
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
+        let send_was_full = self.room_in_send_buffer() == 0;
         loop {
             break if !self.send_buffer.is_empty() {
                 // the write half of the stream is only considered for readiness when there is something to write.
@@ -571,6 +572,11 @@ where
                 log::trace!("nothing to send");
             };
         }
+        if send_was_full && 0 < self.room_in_send_buffer() {
+            // A full send buffer keeps the task from looking at the outbound message channel, so it
+            // is not registered for wakes from it. Now that there is room, look at it again.
+            context.waker().wake_by_ref();
+        }
         None
     }
 }
-- 
2.43.0


From d3e633dfcabde5d9f22c81b413bb770fe8683fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:51 +0000
Subject: [PATCH 02/12] fix: keep reading after rotating a full receive buffer

When the receive buffer is full the task is not registered for read readiness. If the
first thing decoded from it is an incomplete message, rotating made room for the rest,
but nothing woke the task to read it.
---
 protosocket-connection/src/connection.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 775695e..00818ed 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -488,17 +488,20 @@ where
             return None;
         }
         let start_len = self.inbound_messages.len();
+        let receive_was_full = self.max_buffer_length <= self.receive_buffer_slice_end;
         match self.read_inbound_messages_into_read_queue() {
             ReadBufferState::WaitingForMore => {
                 log::trace!("read queue is still open");
                 let new_len = self.inbound_messages.len();
-                if start_len != new_len {
+                let receive_has_room = self.receive_buffer_slice_end < self.max_buffer_length;
+                if start_len != new_len || (receive_was_full && receive_has_room) {
                     // If you don't wake here, then when the read side gets full, you won't be registered for network
                     // activity wakes.
                     // You can skip this wake when you are deserializing a large message, because that is waiting
                     // for more inbound data to arrive. You are only WaitingForMore when you're mid-message,
                     // and if you've just got the one message you can wait for the network.
-                    // There's no deserializer progress to report if you didn't deserialize anything.
+                    // There's no deserializer progress to report if you didn't deserialize anything,
+                    // unless the receive buffer was full and has just been rotated to make room.
                     context.waker().wake_by_ref();
                 }
             }
-- 
2.43.0


From 371ecb25e4406711cf549e2f36b9b9747e2a2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:12 +0000
Subject: [PATCH 03/12] fix: make room for a message that is being skipped

A skip reaching past the end of a full receive buffer waited for bytes that were never
read. Treat it like an incomplete message: rotate the buffer to make room, or disconnect
when the skip is longer than the buffer can be.
---
 protosocket-connection/src/connection.rs | 38 ++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 00818ed..27d4387 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -209,21 +209,7 @@ where
                         if self.max_buffer_length
                             < self.receive_buffer_slice_end + next_message_size
                         {
-                            let length =
-                                self.receive_buffer_slice_end - self.receive_buffer_start_offset;
-                            log::debug!(
-                                "rotating {}b of buffer to make room for next message {}b",
-                                length,
-                                next_message_size
-                            );
-                            self.receive_buffer_swap.clear();
-                            self.receive_buffer_swap.extend_from_slice(
-                                &self.receive_buffer[self.receive_buffer_start_offset
-                                    ..self.receive_buffer_slice_end],
-                            );
-                            std::mem::swap(&mut self.receive_buffer, &mut self.receive_buffer_swap);
-                            self.receive_buffer_start_offset = 0;
-                            self.receive_buffer_slice_end = length;
+                            self.rotate_receive_buffer(next_message_size);
                         }
                         log::debug!("waiting for the next message of length {next_message_size}");
                         break ReadBufferState::WaitingForMore;
@@ -236,7 +222,14 @@ where
                         if self.receive_buffer_slice_end - self.receive_buffer_start_offset
                             < distance
                         {
+                            if self.max_buffer_length < distance {
+                                log::error!("tried to skip message that is too long. Resetting connection - max: {}, requested: {}", self.max_buffer_length, distance);
+                                return ReadBufferState::Disconnected;
+                            }
                             log::trace!("cannot skip yet, need to read more. Skipping: {distance}, remaining:{}", self.receive_buffer_slice_end - self.receive_buffer_start_offset);
+                            if self.max_buffer_length < self.receive_buffer_slice_end + distance {
+                                self.rotate_receive_buffer(distance);
+                            }
                             break ReadBufferState::WaitingForMore;
                         }
                         log::debug!("skipping message of length {distance}");
@@ -255,6 +248,21 @@ where
         state
     }
 
+    /// discard the consumed bytes at the front of the receive buffer
+    fn rotate_receive_buffer(&mut self, next_message_size: usize) {
+        let length = self.receive_buffer_slice_end - self.receive_buffer_start_offset;
+        log::debug!(
+            "rotating {length}b of buffer to make room for next message {next_message_size}b"
+        );
+        self.receive_buffer_swap.clear();
+        self.receive_buffer_swap.extend_from_slice(
+            &self.receive_buffer[self.receive_buffer_start_offset..self.receive_buffer_slice_end],
+        );
+        std::mem::swap(&mut self.receive_buffer, &mut self.receive_buffer_swap);
+        self.receive_buffer_start_offset = 0;
+        self.receive_buffer_slice_end = length;
+    }
+
     /// read from the TcpStream
     fn read_from_stream(&mut self) -> ReadBufferState {
         match self
-- 
2.43.0


From 755e2740a4ed5334a17f8da154a9cf46918cfd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:14 +0000
Subject: [PATCH 04/12] fix: disconnect when an incomplete message already
 fills the receive buffer

A deserializer's size hint need not count its framing (prost's does not), so a message just
above the limit passed the size check and then waited forever for bytes that there was no
room to read.
---
 protosocket-connection/src/connection.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 27d4387..76d622a 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -202,12 +202,16 @@ where
                 }
                 Err(e) => match e {
                     DeserializeError::IncompleteBuffer { next_message_size } => {
-                        if self.max_buffer_length < next_message_size {
+                        let partial_length =
+                            self.receive_buffer_slice_end - self.receive_buffer_start_offset;
+                        if self.max_buffer_length < next_message_size
+                            || self.max_buffer_length <= partial_length
+                        {
                             log::error!("tried to receive message that is too long. Resetting connection - max: {}, requested: {}", self.max_buffer_length, next_message_size);
                             return ReadBufferState::Disconnected;
                         }
                         if self.max_buffer_length
-                            < self.receive_buffer_slice_end + next_message_size
+                            < self.receive_buffer_slice_end + next_message_size.max(1)
                         {
                             self.rotate_receive_buffer(next_message_size);
                         }
-- 
2.43.0


From 040121c2d6ad36ed4785b28d356b6bae0fb9d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:32 +0000
Subject: [PATCH 05/12] fix: deliver messages received together with the end of
 the stream

When the peer's last messages and its end of stream were read in the same poll, the
connection ended without handing those messages to the reactor.
---
 protosocket-connection/src/connection.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 76d622a..94105fd 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -473,6 +473,7 @@ where
                             }
                             ReadBufferState::Disconnected => {
                                 log::info!("read connection closed");
+                                self.react_to_remaining_messages();
                                 return Some(Poll::Ready(()));
                             }
                             ReadBufferState::Error(e) => {
@@ -546,6 +547,19 @@ where
         None
     }
 
+    /// deliver the complete messages that were received ahead of the end of the stream
+    fn react_to_remaining_messages(&mut self) {
+        while self.receive_buffer_start_offset < self.receive_buffer_slice_end {
+            let state = self.read_inbound_messages_into_read_queue();
+            if self.inbound_messages.is_empty() || self.poll_react().is_some() {
+                break;
+            }
+            if !matches!(state, ReadBufferState::PartiallyConsumed) {
+                break;
+            }
+        }
+    }
+
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
         let send_was_full = self.room_in_send_buffer() == 0;
         loop {
-- 
2.43.0


From 5557e17007e34f9694307f254a43a043500fd1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:47 +0000
Subject: [PATCH 06/12] fix: send what is already serialized before ending a
 closed connection

When every sender of the outbound message channel was dropped, the connection ended at once
and discarded the serialized messages that the socket had not taken yet.
---
 protosocket-connection/src/connection.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 94105fd..d454bc6 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -26,6 +26,7 @@ pub struct Connection<Bindings: ConnectionBindings> {
     address: std::net::SocketAddr,
     outbound_messages: mpsc::Receiver<<Bindings::Serializer as Serializer>::Message>,
     outbound_message_buffer: Vec<<Bindings::Serializer as Serializer>::Message>,
+    outbound_closed: bool,
     inbound_messages: Vec<<Bindings::Deserializer as Deserializer>::Message>,
     serializer_buffers: Vec<Vec<u8>>,
     send_buffer: VecDeque<Vec<u8>>,
@@ -89,10 +90,14 @@ impl<Bindings: ConnectionBindings> Future for Connection<Bindings> {
         }
 
         // Step 5: Send outbound messages if the stream is ready for writing
-        if let Some(early_out) = self.poll_outbound(context) {
+        if let Some(early_out) = self.as_mut().poll_outbound(context) {
             return early_out;
         }
 
+        if self.outbound_closed && self.send_buffer.is_empty() {
+            return Poll::Ready(());
+        }
+
         Poll::Pending
     }
 }
@@ -139,6 +144,7 @@ where
             address,
             outbound_messages,
             outbound_message_buffer: Vec::new(),
+            outbound_closed: false,
             inbound_messages: Vec::with_capacity(max_queued_send_messages),
             send_buffer: Default::default(),
             serializer_buffers: Vec::from_iter((0..1).map(|_| Vec::new())),
@@ -334,7 +340,12 @@ where
                                 None => {
                                     assert_eq!(0, count);
                                     log::info!("outbound message channel was closed");
-                                    return Poll::Ready(());
+                                    if self.send_buffer.is_empty() {
+                                        return Poll::Ready(());
+                                    }
+                                    // end only after what is serialized has been sent
+                                    self.outbound_closed = true;
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From f7f389e7d13cf7ded5bf7e0775cc7bd00914d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:17 +0000
Subject: [PATCH 07/12] fix: reject impossible length delimiters in the prost
 codec

- A delimiter that no further byte can complete was reported as incomplete forever.
- The largest delimiters overflowed the size computation.
- The size reported for an incomplete message did not include its delimiter, and assumed
  that the delimiter was minimally encoded.
---
 protosocket-prost/src/prost_serializer.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index b03236a..d341614 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -2,6 +2,9 @@ use std::marker::PhantomData;
 
 use protosocket::{DeserializeError, Deserializer, Serializer};
 
+/// A length delimiter is a varint, and a varint is at most 10 bytes long.
+const MAXIMUM_DELIMITER_LENGTH: usize = 10;
+
 /// A stateless implementation of protosocket's `Serializer` and `Deserializer`
 /// traits using `prost` for encoding and decoding protocol buffers messages.
 #[derive(Default, Debug)]
@@ -38,19 +41,23 @@ where
         &mut self,
         mut buffer: impl bytes::Buf,
     ) -> std::result::Result<(usize, Self::Message), DeserializeError> {
-        match prost::decode_length_delimiter(buffer.chunk()) {
+        let mut delimiter = buffer.chunk();
+        match prost::decode_length_delimiter(&mut delimiter) {
             Ok(message_length) => {
-                if buffer.remaining() < message_length + prost::length_delimiter_len(message_length)
-                {
-                    return Err(DeserializeError::IncompleteBuffer {
-                        next_message_size: message_length,
-                    });
+                let delimiter_length = buffer.chunk().len() - delimiter.len();
+                let next_message_size = message_length.saturating_add(delimiter_length);
+                if buffer.remaining() < next_message_size {
+                    return Err(DeserializeError::IncompleteBuffer { next_message_size });
                 }
             }
             Err(e) => {
+                if MAXIMUM_DELIMITER_LENGTH <= buffer.chunk().len() {
+                    log::warn!("invalid length delimiter {e:?}");
+                    return Err(DeserializeError::InvalidBuffer);
+                }
                 log::trace!("can't read a length delimiter {e:?}");
                 return Err(DeserializeError::IncompleteBuffer {
-                    next_message_size: 10,
+                    next_message_size: MAXIMUM_DELIMITER_LENGTH,
                 });
             }
         };
-- 
2.43.0


From 9edc8852738833a1e19d44ff126f2f4998228a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:19 +0000
Subject: [PATCH 08/12] fix: keep messagepack decoding within the declared
 message length

A declared length near u32::MAX overflowed, and a message body that was longer or shorter
than its declared length consumed part of the next message or left a part of itself behind,
so that the rest of the stream was misread.
---
 protosocket-messagepack/src/lib.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/protosocket-messagepack/src/lib.rs b/protosocket-messagepack/src/lib.rs
index c5ad82d..b19cbf4 100644
--- a/protosocket-messagepack/src/lib.rs
+++ b/protosocket-messagepack/src/lib.rs
@@ -92,23 +92,25 @@ where
                 length
             }
         };
-        if start_remaining < (length + 5) as usize {
+        let frame_length = length as usize + 5;
+        if start_remaining < frame_length {
             return Err(protosocket::DeserializeError::IncompleteBuffer {
-                next_message_size: (length + 5) as usize,
+                next_message_size: frame_length,
             });
         }
         self.state = State::Waiting;
 
-        rmp_serde::decode::from_read(&mut reader)
-            .map_err(|e| {
-                log::error!("decode error length {length}: {e:?}");
-                protosocket::DeserializeError::InvalidBuffer
-            })
-            .map(|message| {
-                let buffer = reader.into_inner();
-                let length = start_remaining - buffer.remaining();
-                log::debug!("decoded {length}: {message:?}");
-                (length, message)
-            })
+        // the message is exactly the declared length: it can't use the bytes of the next one
+        let mut body = reader.take(length as u64);
+        let message = rmp_serde::decode::from_read(&mut body).map_err(|e| {
+            log::error!("decode error length {length}: {e:?}");
+            protosocket::DeserializeError::InvalidBuffer
+        })?;
+        if body.limit() != 0 {
+            log::error!("decode error length {length}: {}b too long", body.limit());
+            return Err(protosocket::DeserializeError::InvalidBuffer);
+        }
+        log::debug!("decoded {frame_length}: {message:?}");
+        Ok((frame_length, message))
     }
 }
-- 
2.43.0


From 454001f197038ffdeef6111fc46df167f4d0795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:44 +0000
Subject: [PATCH 09/12] fix: fail calls that were never picked up when the
 connection is lost

---
 .../src/client/reactor/completion_reactor.rs          |  2 ++
 .../src/client/reactor/completion_registry.rs         | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index febe6d5..a38de25 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -71,6 +71,8 @@ where
     fn drop(&mut self) {
         self.is_alive
             .store(false, std::sync::atomic::Ordering::Release);
+        // The clients share the submissions, so these would not be dropped along with the registry.
+        self.rpc_registry.abandon_submissions();
     }
 }
 
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 0764724..e157753 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -64,6 +64,17 @@ where
         }
     }
 
+    /// Drops the completions that were registered but not picked up yet, so nobody waits for them
+    pub fn abandon_submissions(&mut self) {
+        let submissions = std::mem::take(
+            &mut *self
+                .in_flight_submission
+                .lock()
+                .expect("brief internal mutex must work"),
+        );
+        drop(submissions);
+    }
+
     pub fn deregister(&mut self, message_id: u64) {
         self.in_flight.remove(&message_id);
     }
-- 
2.43.0


From 8331c3889b1a189696fe0fdbe99e9962e3777755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:46 +0000
Subject: [PATCH 10/12] fix: do not deregister a reused message id when a
 finished completion is dropped

---
 .../src/client/reactor/completion_registry.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index e157753..35a966e 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -113,12 +113,13 @@ where
     Outbound: Message,
 {
     fn drop(&mut self) {
-        self.in_flight_submission
-            .lock()
-            .expect("brief internal mutex must work")
-            // This doesn't result in a prompt wake of the reactor
-            .insert(self.message_id, CompletionState::Done);
+        // A closed rpc is not registered any more, and its id may be in use by another rpc.
         if !self.closed {
+            self.in_flight_submission
+                .lock()
+                .expect("brief internal mutex must work")
+                // This doesn't result in a prompt wake of the reactor
+                .insert(self.message_id, CompletionState::Done);
             if let Err(e) = self
                 .raw_submission_queue
                 .try_send(Outbound::cancelled(self.message_id))
-- 
2.43.0


From 2f6da556012419c5096e125b05d3d9a199216531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:47 +0000
Subject: [PATCH 11/12] fix: do not abort a newer rpc that reuses the id of a
 cancelled one

---
 protosocket-rpc/src/server/connection_server.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/protosocket-rpc/src/server/connection_server.rs b/protosocket-rpc/src/server/connection_server.rs
index 2238136..f58449e 100644
--- a/protosocket-rpc/src/server/connection_server.rs
+++ b/protosocket-rpc/src/server/connection_server.rs
@@ -151,16 +151,11 @@ where
                         Some((id, AbortableState::Abort)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
                             log::debug!("{id} unary rpc abort");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.abort();
-                            }
                         }
                         Some((id, AbortableState::Aborted)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
+                            // Its handle is already removed. A handle under this id now belongs to a newer rpc.
                             log::debug!("{id} unary rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
@@ -245,15 +240,10 @@ where
                         Some((id, AbortableState::Abort)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
                             log::debug!("{id} streaming rpc abort");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.abort();
-                            }
                         }
                         Some((id, AbortableState::Aborted)) => {
+                            // Its handle is already removed. A handle under this id now belongs to a newer rpc.
                             log::debug!("{id} streaming rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
-- 
2.43.0


From 30b9e5b6ca4c7995fd37e9fa827d65ec55ac2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:44 +0000
Subject: [PATCH 12/12] fix: a connection that cannot be configured does not
 end the server

---
 protosocket-rpc/src/server/socket_server.rs | 5 ++++-
 protosocket-server/src/connection_server.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/protosocket-rpc/src/server/socket_server.rs b/protosocket-rpc/src/server/socket_server.rs
index 3819a83..2400269 100644
--- a/protosocket-rpc/src/server/socket_server.rs
+++ b/protosocket-rpc/src/server/socket_server.rs
@@ -70,7 +70,10 @@ where
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            // this is about one connection - do not stop serving the others
+                            log::warn!("failed to set nodelay for {address}: {e:?}");
+                        }
                         let (submitter, inbound_messages) = RpcSubmitter::new();
                         let (outbound_messages, outbound_messages_receiver) =
                             mpsc::channel(self.max_queued_outbound_messages);
diff --git a/protosocket-server/src/connection_server.rs b/protosocket-server/src/connection_server.rs
index 9eaed3c..92113ec 100644
--- a/protosocket-server/src/connection_server.rs
+++ b/protosocket-server/src/connection_server.rs
@@ -96,7 +96,10 @@ impl<Connector: ServerConnector> Future for ProtosocketServer<Connector> {
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            // this is about one connection - do not stop serving the others
+                            log::warn!("failed to set nodelay for {address}: {e:?}");
+                        }
                         let (outbound_submission_queue, outbound_messages) =
                             mpsc::channel(self.max_queued_outbound_messages);
                         let reactor = self
-- 
2.43.0

