From 290c6fe35d4d4df24f12ab33f0fd0acf1b5c25ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 01/30] verif hook: build a Connection over any byte stream
 (cfg verif_hooks)

---
 cdn-proto/src/connection/protocols/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index b53b1e6..6c0cd79 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -306,6 +306,22 @@ impl Connection {
     }
 }
 
+/// A verification hook, compiled only with `--cfg verif_hooks`: builds a connection over
+/// any byte stream, so that a simulated network can stand in for the real protocols.
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+impl Connection {
+    pub fn verif_from_stream<
+        S: tokio::io::AsyncRead + tokio::io::AsyncWrite + Unpin + Send + 'static,
+    >(
+        stream: S,
+        limiter: Limiter,
+    ) -> Self {
+        let (reader, writer) = tokio::io::split(stream);
+        Self::from_streams(writer, reader, limiter)
+    }
+}
+
 /// Read a length-delimited (serialized) message from a stream.
 /// Has a bounds check for if the message is too big
 async fn read_length_delimited<R: AsyncReadExt + Unpin + Send>(
-- 
2.43.0


From 4fa9b5af220a725aed8fb30bf9a86639efa1b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 02/30] fix: resolve versioned map conflicts by value, so that
 all brokers agree on a user's broker

With equal versions a map kept or replaced its entry depending on the identity of whoever sent the update, not of
whoever holds the user: a third broker that heard of two concurrent logins kept the wrong one for ever, and a
tombstone of the old broker could beat the user's new connection.
---
 cdn-broker/src/connections/broadcast/mod.rs |  2 +-
 cdn-broker/src/connections/versioned_map.rs | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cdn-broker/src/connections/broadcast/mod.rs b/cdn-broker/src/connections/broadcast/mod.rs
index 863208a..db98880 100644
--- a/cdn-broker/src/connections/broadcast/mod.rs
+++ b/cdn-broker/src/connections/broadcast/mod.rs
@@ -16,7 +16,7 @@ use rkyv::{Archive, Deserialize, Serialize};
 
 use super::versioned_map::VersionedMap;
 
-#[derive(Debug, Eq, PartialEq, Serialize, Deserialize, Archive, Clone)]
+#[derive(Debug, Eq, PartialEq, PartialOrd, Serialize, Deserialize, Archive, Clone)]
 #[archive(check_bytes)]
 pub enum SubscriptionStatus {
     Subscribed,
diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index 4649d1c..b57a53c 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -53,7 +53,7 @@ pub struct VersionedMap<K: Eq + Hash + Debug, V: Debug, C> {
 
 impl<
         K: PartialEq + Eq + Hash + Clone + Debug,
-        V: Clone + PartialEq + Debug,
+        V: Clone + PartialEq + PartialOrd + Debug,
         C: Clone + PartialOrd,
     > VersionedMap<K, V, C>
 {
@@ -193,8 +193,8 @@ impl<
         }
     }
 
-    /// Merge the changes from two `VersionedMap`s, keeping only the newest changes. On a conflict,
-    /// uses the `conflict_identity` to figure out who should get the value.
+    /// Merge the changes from two `VersionedMap`s, keeping only the newest changes. On a conflict
+    /// (two values of the same version), the bigger value wins.
     ///
     /// Returns a vector of `(K, Option<V>)` pairs that represent the changes that were made.
     /// TODO: `Rc` or `Arc` the cloned values?
@@ -226,10 +226,12 @@ impl<
                         changes.push((remote_key, remote_value.value));
                     }
 
-                    // If the remote value is equal to our value,
+                    // If the remote version is equal to our version,
                     Ordering::Equal => {
-                        // The value with the bigger conflict identity wins
-                        if remote.conflict_identity > self.conflict_identity {
+                        // The bigger value wins, and any value wins over a tombstone. We can't use the identity
+                        // of whoever sent us the value for this: it may not be theirs, and everyone needs to
+                        // arrive at the same result no matter who they heard of it from and in which order.
+                        if remote_value.value > local_value.value {
                             // If there is some value,
                             // TODO: duplicate code here and above. macro it?
                             if remote_value.value.is_some() {
-- 
2.43.0


From f438ca453d9baeea3625e6e11a79071eeb28f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 03/30] fix: a user sync never disconnects a user whose new
 broker is us

A restarted broker starts at version 1 again. If a user logged back in before the links to the other brokers were
up, their (newer) memory of that user being connected to us disconnected it.
---
 cdn-broker/src/connections/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 6499a99..5c64238 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -156,7 +156,13 @@ impl Connections {
         let users_to_remove = self.direct_map.merge(map);
 
         // We should remove the users that are different, if they exist locally.
-        for (user, _new_broker) in users_to_remove {
+        for (user, new_broker) in users_to_remove {
+            // If we are being told that a user we have is connected to us, there is nothing to remove (others may
+            // remember a newer version of that than we do, e.g. from before we were restarted).
+            if new_broker.as_ref() == Some(&self.identity) && self.users.contains_key(&user) {
+                continue;
+            }
+
             self.remove_user(user, "user connected elsewhere");
         }
     }
-- 
2.43.0


From 6031e13bf5464250de90e974e63e8b2557e78643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 04/30] fix: a peer that stops reading is shed once a write to
 it times out, flushes time out too, and queued messages are released

---
 cdn-proto/src/connection/protocols/mod.rs | 39 +++++++++++++++++------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 6c0cd79..2ed6197 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -152,24 +152,31 @@ impl Connection {
                 |size| (bounded(size), bounded(size)),
             );
 
+        // If the peer stops reading, the caller needs to find out while it is receiving
+        let weak_send_to_caller = send_to_caller.downgrade();
+
         // Spawn the task that receives from the caller and sends to the stream
         let sender_task = tokio::spawn(async move {
             // While we can successfully receive messages from the caller,
             while let Ok(message) = receive_from_caller.recv().await {
                 match message {
                     BytesOrSoftClose::Bytes(message) => {
-                        // Write the message to the stream
+                        // Write the message to the stream (and flush it)
                         if let Err(err) = write_length_delimited(&mut writer, message).await {
                             warn!("failed to write message to stream: {:?}", err);
-                            receive_from_caller.close();
-                            return;
-                        };
 
-                        // Flush the writer
-                        // Is a no-op for everything but TCP+TLS
-                        if let Err(err) = writer.flush().await {
-                            warn!("failed to flush writer: {:?}", err);
+                            // Release the messages that can no longer be sent
                             receive_from_caller.close();
+                            while receive_from_caller.try_recv().is_ok() {}
+
+                            // If the peer stopped reading, fail the receiving end too. Otherwise
+                            // we would keep the connection until the next message to it. If the
+                            // connection broke, the receiving end finds out on its own.
+                            if matches!(err, Error::Time(_)) {
+                                if let Some(send_to_caller) = weak_send_to_caller.upgrade() {
+                                    send_to_caller.close();
+                                }
+                            }
                             return;
                         };
                     }
@@ -382,7 +389,7 @@ async fn write_length_delimited<W: AsyncWriteExt + Unpin + Send>(
     bail!(
         bail!(
             timeout(Duration::from_secs(5), stream.write_u32(message_len)).await,
-            Connection,
+            Time,
             "timed out trying to send message length"
         ),
         Connection,
@@ -393,13 +400,25 @@ async fn write_length_delimited<W: AsyncWriteExt + Unpin + Send>(
     bail!(
         bail!(
             timeout(Duration::from_secs(5), stream.write_all(&message)).await,
-            Connection,
+            Time,
             "timed out trying to send message"
         ),
         Connection,
         "failed to send message"
     );
 
+    // Flush the writer
+    // Is a no-op for everything but TCP+TLS
+    bail!(
+        bail!(
+            timeout(Duration::from_secs(5), stream.flush()).await,
+            Time,
+            "timed out trying to flush message"
+        ),
+        Connection,
+        "failed to flush message"
+    );
+
     // Increment the number of bytes we've sent by this amount, if available
     #[cfg(feature = "metrics")]
     if let Some(bytes_sent) = metrics::BYTES_SENT.as_ref() {
-- 
2.43.0


From a7c307b48699b22214e576e3f2febc24a7126842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 05/30] fix: a handshake timestamp ahead of our clock no longer
 overflows

---
 cdn-proto/src/connection/auth/broker.rs  | 2 +-
 cdn-proto/src/connection/auth/marshal.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/connection/auth/broker.rs b/cdn-proto/src/connection/auth/broker.rs
index c75839c..8e956fa 100644
--- a/cdn-proto/src/connection/auth/broker.rs
+++ b/cdn-proto/src/connection/auth/broker.rs
@@ -278,7 +278,7 @@ impl<R: RunDef> BrokerAuth<R> {
         };
 
         // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        if timestamp.as_secs().abs_diff(auth_message.timestamp) > 5 {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 418ea3c..088625f 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -78,7 +78,7 @@ impl<R: RunDef> MarshalAuth<R> {
         };
 
         // Make sure the timestamp is within 5 seconds
-        if timestamp.as_secs() - auth_message.timestamp > 5 {
+        if timestamp.as_secs().abs_diff(auth_message.timestamp) > 5 {
             fail_verification_with_message!(connection, "timestamp is too old");
         }
 
-- 
2.43.0


From 6f199d9085a6f7d779f41f8fd970e155b62f110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 06/30] fix: the marshal issues permits for the canonical form
 of the user's key

---
 cdn-proto/src/connection/auth/marshal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdn-proto/src/connection/auth/marshal.rs b/cdn-proto/src/connection/auth/marshal.rs
index 088625f..c892f21 100644
--- a/cdn-proto/src/connection/auth/marshal.rs
+++ b/cdn-proto/src/connection/auth/marshal.rs
@@ -123,7 +123,7 @@ impl<R: RunDef> MarshalAuth<R> {
                 #[cfg(not(feature = "global-permits"))]
                 &broker_with_least_connections,
                 Duration::from_secs(30),
-                auth_message.public_key,
+                public_key.clone(),
             )
             .await
         {
-- 
2.43.0


From e861b326b0a6c90fa8d5fe58dd02e04ce1f6b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 07/30] fix: brokers deliver the failure response before
 dropping a refused connection

---
 cdn-broker/src/tasks/broker/handler.rs | 28 +++++++++++++++++---------
 cdn-broker/src/tasks/user/handler.rs   | 17 +++++++++++-----
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index 9302490..fe43e9c 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -38,16 +38,26 @@ impl<Def: RunDef> Inner<Def> {
 
         // Give us 5 seconds to authenticate with the broker
         let broker_identifier = match timeout(Duration::from_secs(5), async {
-            if is_outbound {
-                // If we reached out to the other broker first, authenticate first.
-                let broker_endpoint = authenticate_with_broker!(connection, self);
-                verify_broker!(connection, self);
-                broker_endpoint
-            } else {
-                // If the other broker reached out to us first, authenticate second.
-                verify_broker!(connection, self);
-                authenticate_with_broker!(connection, self)
+            let result = async {
+                if is_outbound {
+                    // If we reached out to the other broker first, authenticate first.
+                    let broker_endpoint = authenticate_with_broker!(connection, self);
+                    verify_broker!(connection, self);
+                    broker_endpoint
+                } else {
+                    // If the other broker reached out to us first, authenticate second.
+                    verify_broker!(connection, self);
+                    authenticate_with_broker!(connection, self)
+                }
             }
+            .await;
+
+            // If we failed, let the response reach the other broker before we drop the connection
+            if result.is_err() {
+                let _ = connection.soft_close().await;
+            }
+
+            result
         })
         .await
         {
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index d43463c..9e821f2 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -26,15 +26,22 @@ impl<Def: RunDef> Inner<Def> {
     pub async fn handle_user_connection(self: Arc<Self>, connection: Connection) {
         // Verify (authenticate) the connection. Needs to happen within 5 seconds
         // TODO: make this stateless (e.g. separate subscribe message on connect)
-        let Ok(Ok((public_key, mut topics))) = timeout(
-            Duration::from_secs(5),
-            BrokerAuth::<Def>::verify_user(
+        let Ok(Ok((public_key, mut topics))) = timeout(Duration::from_secs(5), async {
+            let result = BrokerAuth::<Def>::verify_user(
                 &connection,
                 #[cfg(not(feature = "global-permits"))]
                 &self.identity,
                 &mut self.discovery_client.clone(),
-            ),
-        )
+            )
+            .await;
+
+            // If we failed, let the response reach the user before we drop the connection
+            if result.is_err() {
+                let _ = connection.soft_close().await;
+            }
+
+            result
+        })
         .await
         else {
             return;
-- 
2.43.0


From 73fa44df4559ae1da73c4d20c946e4cafff70613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 08/30] fix: a hanging whitelist check no longer stops the
 eviction of users for good

---
 cdn-broker/src/tasks/broker/whitelist.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/whitelist.rs b/cdn-broker/src/tasks/broker/whitelist.rs
index 4fe1437..3aad46d 100644
--- a/cdn-broker/src/tasks/broker/whitelist.rs
+++ b/cdn-broker/src/tasks/broker/whitelist.rs
@@ -9,7 +9,7 @@
 use std::{sync::Arc, time::Duration};
 
 use cdn_proto::{def::RunDef, discovery::DiscoveryClient};
-use tokio::time::sleep;
+use tokio::time::{sleep, timeout};
 
 use crate::Inner;
 
@@ -29,11 +29,15 @@ impl<Def: RunDef> Inner<Def> {
 
             // Make sure each user is still whitelisted
             for user in users {
-                if !discovery_client
-                    .check_whitelist(&user)
-                    .await
-                    .unwrap_or(true)
-                {
+                // Make sure each user is still whitelisted (if the check fails or hangs, assume so)
+                let whitelisted = timeout(
+                    Duration::from_secs(5),
+                    discovery_client.check_whitelist(&user),
+                )
+                .await
+                .map_or(true, |result| result.unwrap_or(true));
+
+                if !whitelisted {
                     // Kick the user off the network if they are not
                     self.connections
                         .write()
-- 
2.43.0


From 7c2bac0ace8111badccf8b3d56ae71e113bc2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 09/30] fix: the heartbeat task no longer spins while the other
 brokers cannot be looked up

---
 cdn-broker/src/tasks/broker/heartbeat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/heartbeat.rs b/cdn-broker/src/tasks/broker/heartbeat.rs
index e7a8f5f..184668f 100644
--- a/cdn-broker/src/tasks/broker/heartbeat.rs
+++ b/cdn-broker/src/tasks/broker/heartbeat.rs
@@ -49,18 +49,18 @@ impl<Def: RunDef> Inner<Def> {
                 }
             }
 
-            // Attempt to get all other brokers
+            // Attempt to get all other brokers. If we fail to, there are none to connect to for now
             let other_brokers =
                 match timeout(Duration::from_secs(5), discovery_client.get_other_brokers()).await {
                     Ok(Ok(brokers)) => brokers,
                     Ok(Err(err)) => {
                         error!("failed to get other brokers: {}", err);
-                        continue;
+                        HashSet::new()
                     }
                     Err(_) => {
                         // This is an important error
                         error!("timed out trying to get other brokers");
-                        continue;
+                        HashSet::new()
                     }
                 };
 
-- 
2.43.0


From 5528c4043599520800753051224960eaf8e1fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 10/30] fix: failing to accept one connection no longer stops a
 broker or marshal

---
 cdn-broker/src/tasks/broker/listener.rs | 10 ++++++----
 cdn-broker/src/tasks/user/listener.rs   | 10 ++++++----
 cdn-marshal/src/lib.rs                  | 21 +++++++++++++--------
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/listener.rs b/cdn-broker/src/tasks/broker/listener.rs
index 3e3f333..fc90f79 100644
--- a/cdn-broker/src/tasks/broker/listener.rs
+++ b/cdn-broker/src/tasks/broker/listener.rs
@@ -6,13 +6,13 @@
 
 //! The broker listener task listens and handles connections from new brokers.
 
-use std::sync::Arc;
+use std::{sync::Arc, time::Duration};
 
 use cdn_proto::{
     connection::protocols::{Listener as _, UnfinalizedConnection},
     def::{Listener, RunDef},
 };
-use tokio::spawn;
+use tokio::{spawn, time::sleep};
 use tracing::error;
 
 use crate::Inner;
@@ -21,12 +21,14 @@ impl<Def: RunDef> Inner<Def> {
     /// Runs the broker listener task in a loop.
     pub async fn run_broker_listener_task(self: Arc<Self>, listener: Listener<Def::Broker>) {
         loop {
-            // Accept an unfinalized connection. If we fail, print the error and keep going.
+            // Accept an unfinalized connection. If we fail, print the error and keep going
+            // (after a pause, as the error may persist for a while).
             let unfinalized_connection = match listener.accept().await {
                 Ok(connection) => connection,
                 Err(err) => {
                     error!("failed to accept connection: {}", err);
-                    return;
+                    sleep(Duration::from_millis(100)).await;
+                    continue;
                 }
             };
 
diff --git a/cdn-broker/src/tasks/user/listener.rs b/cdn-broker/src/tasks/user/listener.rs
index 5f2e8f3..02f458e 100644
--- a/cdn-broker/src/tasks/user/listener.rs
+++ b/cdn-broker/src/tasks/user/listener.rs
@@ -6,13 +6,13 @@
 
 //! The user listener tasks listens and deals with user connections.
 
-use std::sync::Arc;
+use std::{sync::Arc, time::Duration};
 
 use cdn_proto::{
     connection::protocols::{Listener as _, UnfinalizedConnection},
     def::{Listener, RunDef},
 };
-use tokio::spawn;
+use tokio::{spawn, time::sleep};
 use tracing::error;
 
 use crate::Inner;
@@ -21,12 +21,14 @@ impl<Def: RunDef> Inner<Def> {
     // We run the user listener task in a loop, accepting and handling new connections as needed.
     pub async fn run_user_listener_task(self: Arc<Self>, listener: Listener<Def::User>) {
         loop {
-            // Accept an unfinalized connection. If we fail, print the error and keep going.
+            // Accept an unfinalized connection. If we fail, print the error and keep going
+            // (after a pause, as the error may persist for a while).
             let unfinalized_connection = match listener.accept().await {
                 Ok(connection) => connection,
                 Err(err) => {
                     error!("failed to accept connection: {}", err);
-                    return;
+                    sleep(Duration::from_millis(100)).await;
+                    continue;
                 }
             };
 
diff --git a/cdn-marshal/src/lib.rs b/cdn-marshal/src/lib.rs
index 3de9628..5a99964 100644
--- a/cdn-marshal/src/lib.rs
+++ b/cdn-marshal/src/lib.rs
@@ -14,6 +14,7 @@
 use std::{
     net::{SocketAddr, ToSocketAddrs},
     sync::Arc,
+    time::Duration,
 };
 
 mod handlers;
@@ -31,8 +32,8 @@ use cdn_proto::{
     metrics as proto_metrics,
     util::AbortOnDropHandle,
 };
-use tokio::spawn;
-use tracing::info;
+use tokio::{spawn, time::sleep};
+use tracing::{error, info};
 
 /// The `Marshal's` configuration (with a Builder), to help with usability.
 /// We need this to construct a `Marshal`
@@ -156,12 +157,16 @@ impl<R: RunDef> Marshal<R> {
 
         // Listen for connections forever
         loop {
-            // Accept an unfinalized connection. If we fail, print the error and keep going.
-            let unfinalized_connection = bail!(
-                self.listener.accept().await,
-                Connection,
-                "failed to accept connection"
-            );
+            // Accept an unfinalized connection. If we fail, print the error and keep going
+            // (after a pause, as the error may persist for a while).
+            let unfinalized_connection = match self.listener.accept().await {
+                Ok(connection) => connection,
+                Err(err) => {
+                    error!("failed to accept connection: {}", err);
+                    sleep(Duration::from_millis(100)).await;
+                    continue;
+                }
+            };
 
             // Create a task to handle the connection
             let discovery_client = self.discovery_client.clone();
-- 
2.43.0


From 5b7e486ccb41cb27787472e68052d699e28c44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 11/30] fix: (un)subscribing does not wait for a stalled
 reconnection

---
 cdn-client/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index c379b7b..0dcfb90 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -108,14 +108,13 @@ impl<C: ConnectionDef> ClientRef<C> {
             "failed to connect to broker"
         );
 
+        // Copy the topics we are to be subscribed to. We can't hold the lock while authenticating, as that
+        // would block calls to `(un)subscribe`. They can't succeed before we are connected.
+        let subscribed_topics = self.subscribed_topics.read().await.clone();
+
         // Authenticate the connection to the broker
         bail!(
-            UserAuth::<C>::authenticate_with_broker(
-                &connection,
-                permit,
-                self.subscribed_topics.read().await.clone()
-            )
-            .await,
+            UserAuth::<C>::authenticate_with_broker(&connection, permit, subscribed_topics).await,
             Authentication,
             "failed to authenticate to broker"
         );
-- 
2.43.0


From 3d755bca6bbfee3ca302042e04dac3f614c4aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 12/30] fix: waiting for initialization fails if the client is
 closed meanwhile

---
 cdn-client/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 0dcfb90..83ea55e 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -330,8 +330,12 @@ impl<C: ConnectionDef> Client<C> {
             return Ok(());
         }
 
-        // Otherwise, wait to acquire the connecting guard
-        let _ = self.connecting_guard.acquire().await;
+        // Otherwise, wait to acquire the connecting guard. This fails if we are closed while waiting
+        bail!(
+            self.connecting_guard.acquire().await,
+            Connection,
+            "client has been manually closed"
+        );
 
         Ok(())
     }
-- 
2.43.0


From 1cc2692aec5053a65882d8503516118d30c87761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 13/30] fix: closing a client ends the operations in progress
 on its connection

---
 cdn-client/src/lib.rs                     |  6 ++--
 cdn-proto/src/connection/protocols/mod.rs | 37 ++++++++++++++++++-----
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 83ea55e..b019a3a 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -474,8 +474,10 @@ impl<C: ConnectionDef> Client<C> {
             reconnection_task.abort();
         }
 
-        // Take the connection
-        self.connection.write().await.take();
+        // Take the connection and close it. Operations in progress may still hold on to it
+        if let Some(connection) = self.connection.write().await.take() {
+            connection.close();
+        }
     }
 
     /// Returns whether or not the client has been manually closed
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 2ed6197..ada6022 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -102,8 +102,9 @@ pub struct ConnectionRef {
     tasks: Arc<Vec<AbortHandle>>,
 }
 
-impl Drop for ConnectionRef {
-    fn drop(&mut self) {
+impl ConnectionRef {
+    /// Close the connection, no matter how many references there are to it
+    fn close(&self) {
         // Close the channels
         self.sender.close();
         self.receiver.close();
@@ -115,6 +116,23 @@ impl Drop for ConnectionRef {
     }
 }
 
+impl Drop for ConnectionRef {
+    fn drop(&mut self) {
+        self.close();
+    }
+}
+
+/// The messages a caller wants to be sent. When the sending task ends, however it does,
+/// those that can no longer be sent are released (which fails pending soft closes).
+struct OutgoingMessages(Receiver<BytesOrSoftClose>);
+
+impl Drop for OutgoingMessages {
+    fn drop(&mut self) {
+        self.0.close();
+        while self.0.try_recv().is_ok() {}
+    }
+}
+
 /// Implement a soft close for all types that implement `SoftClose`.
 /// This allows us to soft close a connection, allowing all messages to be sent
 /// before closing.
@@ -155,20 +173,19 @@ impl Connection {
         // If the peer stops reading, the caller needs to find out while it is receiving
         let weak_send_to_caller = send_to_caller.downgrade();
 
+        // If the sending task ends, release the messages that can no longer be sent
+        let receive_from_caller = OutgoingMessages(receive_from_caller);
+
         // Spawn the task that receives from the caller and sends to the stream
         let sender_task = tokio::spawn(async move {
             // While we can successfully receive messages from the caller,
-            while let Ok(message) = receive_from_caller.recv().await {
+            while let Ok(message) = receive_from_caller.0.recv().await {
                 match message {
                     BytesOrSoftClose::Bytes(message) => {
                         // Write the message to the stream (and flush it)
                         if let Err(err) = write_length_delimited(&mut writer, message).await {
                             warn!("failed to write message to stream: {:?}", err);
 
-                            // Release the messages that can no longer be sent
-                            receive_from_caller.close();
-                            while receive_from_caller.try_recv().is_ok() {}
-
                             // If the peer stopped reading, fail the receiving end too. Otherwise
                             // we would keep the connection until the next message to it. If the
                             // connection broke, the receiving end finds out on its own.
@@ -223,6 +240,12 @@ impl Connection {
         }))
     }
 
+    /// Close the connection without waiting for messages to be sent. Operations that are
+    /// in progress on any clone of it will fail.
+    pub fn close(&self) {
+        self.0.close();
+    }
+
     /// Send an (unserialized) message over the stream.
     ///
     /// # Errors
-- 
2.43.0


From f4286b8b8214ade5344773f5c9d224481f30790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 14/30] fix: an operation that fails on a client's connection
 ends the others on it

---
 cdn-client/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index b019a3a..c003232 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -146,10 +146,13 @@ pub struct Config<C: ConnectionDef> {
 // Disconnects the current connection if an error was passed in and we're
 // not already reconnecting.
 macro_rules! disconnect_on_error {
-    ($self:expr, $res: expr) => {
+    ($self:expr, $connection:expr, $res: expr) => {
         match $res {
             Ok(t) => Ok(t),
             Err(e) => {
+                // Close the connection, so that nobody else keeps waiting on it after we took it
+                $connection.close();
+
                 // If we are not currently reconnecting, take the current connection
                 if $self.connecting_guard.available_permits() > 0 {
                     // If we ran into an error, take the current connection.
@@ -296,7 +299,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.send_message(message).await)
+        disconnect_on_error!(self, connection, connection.send_message(message).await)
     }
 
     /// Receives a message from the underlying fallible connection. Reconnection logic is here,
@@ -310,7 +313,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.get_connection().await?;
 
         // Receive a message
-        disconnect_on_error!(self, connection.recv_message().await)
+        disconnect_on_error!(self, connection, connection.recv_message().await)
     }
 
     /// Returns only when the connection is fully initialized
@@ -456,7 +459,7 @@ impl<C: ConnectionDef> Client<C> {
         let connection = self.try_get_connection()?;
 
         // Soft close the connection
-        disconnect_on_error!(self, connection.soft_close().await)
+        disconnect_on_error!(self, connection, connection.soft_close().await)
     }
 
     /// Shut down the client, closing the connection and aborting all tasks.
-- 
2.43.0


From 0083207440554f5cd754204658caa4956eaa7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 15/30] fix: (un)subscribing to nothing new does not cost a
 client its connection

---
 cdn-client/src/lib.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index c003232..0756556 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -390,22 +390,21 @@ impl<C: ConnectionDef> Client<C> {
         // Lock subscriptions here so we maintain parity during a reconnection
         let mut subscribed_guard = self.subscribed_topics.write().await;
 
-        // Calculate the real topics to send based on whatever's already in the set
-        let topics_to_send: Vec<Topic> = topics
-            .into_iter()
-            .filter(|topic| !subscribed_guard.contains(topic))
-            .collect();
+        // There is nothing to send. The server would disconnect us for an empty list
+        if topics.is_empty() {
+            self.try_get_connection()?;
+            return Ok(());
+        }
 
-        // Send the topics
+        // Send the topics, including the ones that change nothing. Without those, the list could be empty
         bail!(
-            self.send_message(Message::Subscribe(topics_to_send.clone()))
-                .await,
+            self.send_message(Message::Subscribe(topics.clone())).await,
             Connection,
             "failed to send subscription message"
         );
 
         // Add the topics to the list if successful
-        for topic in topics_to_send {
+        for topic in topics {
             subscribed_guard.insert(topic);
         }
 
@@ -424,22 +423,21 @@ impl<C: ConnectionDef> Client<C> {
         // Lock subscriptions here so we maintain parity during a reconnection
         let mut subscribed_guard = self.subscribed_topics.write().await;
 
-        // Calculate the real topics to send based on whatever's already in the set
-        let topics_to_send: Vec<Topic> = topics
-            .into_iter()
-            .filter(|topic| subscribed_guard.contains(topic))
-            .collect();
+        // There is nothing to send. The server would disconnect us for an empty list
+        if topics.is_empty() {
+            self.try_get_connection()?;
+            return Ok(());
+        }
 
-        // Send the topics
+        // Send the topics, including the ones that change nothing. Without those, the list could be empty
         bail!(
-            self.send_message(Message::Unsubscribe(topics_to_send.clone()))
-                .await,
+            self.send_message(Message::Unsubscribe(topics.clone())).await,
             Connection,
             "failed to send unsubscription message"
         );
 
         // Add the topics to the list if successful
-        for topic in topics_to_send {
+        for topic in topics {
             subscribed_guard.remove(&topic);
         }
 
-- 
2.43.0


From 2e059f11df234ddbd4f1276884f7703e655f7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 16/30] fix: a reconnection that starts while the client is
 being closed is aborted

---
 cdn-client/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 0756556..757d3ff 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -239,8 +239,15 @@ impl<C: ConnectionDef> Client<C> {
                         drop(permit);
                     }));
 
-                    // Update the reconnection task
-                    *self.reconnection_task.lock() = Some(reconnection_task);
+                    // Update the reconnection task. If we were closed in the meantime, nobody else
+                    // would abort it (we do by dropping it).
+                    let mut reconnection_task_guard = self.reconnection_task.lock();
+                    if self.connecting_guard.is_closed() {
+                        return Err(Error::Connection(
+                            "client has been manually closed".to_string(),
+                        ));
+                    }
+                    *reconnection_task_guard = Some(reconnection_task);
                 }
                 Err(TryAcquireError::Closed) => {
                     // The client has been manually closed
-- 
2.43.0


From 1167689a12d883e5232f8f2f17071eecb0bf6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 17/30] fix: the embedded whitelist is set atomically, whatever
 its size and contents

---
 cdn-proto/src/discovery/embedded.rs | 53 ++++++++++++++++-------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 3303cdf..238090f 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -12,7 +12,7 @@ use std::{
 
 use async_trait::async_trait;
 use rand::{rngs::StdRng, RngCore, SeedableRng};
-use sqlx::{query, query_as, sqlite::SqliteConnectOptions, QueryBuilder, Row, SqlitePool};
+use sqlx::{query, query_as, sqlite::SqliteConnectOptions, Row, SqlitePool};
 
 use super::{BrokerIdentifier, DiscoveryClient};
 use crate::{
@@ -323,32 +323,39 @@ impl DiscoveryClient for Embedded {
     /// # Errors
     /// - If the connection fails
     async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
-        // Create a query builder to atomically set the whitelist
-        let mut query_builder = QueryBuilder::new(
-            "
-        DROP TABLE IF EXISTS whitelist;     
-
-        CREATE TABLE IF NOT EXISTS whitelist (
-            user_public_key BYTEA PRIMARY KEY NOT NULL
-        );
-
-        INSERT INTO whitelist (user_public_key) ",
+        // Use a transaction, so that the whitelist is set either completely or not at all
+        let mut transaction = bail!(
+            self.pool.begin().await,
+            File,
+            "failed to begin setting whitelist"
         );
 
-        // Push each value into `user_public_key`
-        query_builder.push_values(users, |mut b, user_public_key| {
-            b.push_bind(user_public_key.deref().clone());
-        });
+        // Create the whitelist if it does not exist, otherwise delete the current one
+        for statement in [
+            "CREATE TABLE IF NOT EXISTS whitelist (user_public_key BYTEA PRIMARY KEY NOT NULL);",
+            "DELETE FROM whitelist;",
+        ] {
+            bail!(
+                query(statement).execute(&mut *transaction).await,
+                File,
+                "failed to delete old whitelist"
+            );
+        }
 
-        // Build the query
-        let query = query_builder.build();
+        // Insert each user
+        for user_public_key in users {
+            bail!(
+                query("INSERT OR IGNORE INTO whitelist (user_public_key) VALUES (?);")
+                    .bind(user_public_key.deref().clone())
+                    .execute(&mut *transaction)
+                    .await,
+                File,
+                "failed to set whitelist"
+            );
+        }
 
-        // Execute the query
-        bail!(
-            query.execute(&self.pool).await,
-            File,
-            "failed to set whitelist"
-        );
+        // Commit the transaction
+        bail!(transaction.commit().await, File, "failed to set whitelist");
 
         Ok(())
     }
-- 
2.43.0


From 4918aed41bf366e6525f1a173eab7753d2aa8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 18/30] fix: an empty whitelist in Redis lets nobody in

---
 cdn-proto/src/discovery/redis.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 6518f8d..44d1c1b 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -285,6 +285,9 @@ impl DiscoveryClient for Redis {
                 .arg(user.as_ref());
         }
 
+        // Remember that the whitelist is set, even if nobody is on it
+        pipeline.cmd("SET").arg(&["whitelist/initialized", "true"]);
+
         bail!(
             pipeline
                 .query_async::<()>(&mut self.underlying_connection)
@@ -301,10 +304,10 @@ impl DiscoveryClient for Redis {
     /// # Errors
     /// - If the connection fails
     async fn check_whitelist(&mut self, user: &UserPublicKey) -> Result<bool> {
-        // If the set does not exist, return true. The whitelist is not yet initialized
+        // If the set does not exist and was not set to be empty, return true. The whitelist is not yet initialized
         if !bail!(
-            redis::cmd("SCARD")
-                .arg("whitelist")
+            redis::cmd("EXISTS")
+                .arg(&["whitelist", "whitelist/initialized"])
                 .query_async(&mut self.underlying_connection)
                 .await,
             Connection,
-- 
2.43.0


From b286a1ee03d7f6ce4cc0bfe0cf722783a9e90140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 19/30] fix: a broker whose registration just expired does not
 make the marshal fail

---
 cdn-proto/src/discovery/redis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 44d1c1b..6622ba4 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -140,7 +140,7 @@ impl DiscoveryClient for Redis {
 
         for broker in brokers {
             // Get the number of connections the broker has
-            let num_connections: u64 = bail!(
+            let num_connections: Option<u64> = bail!(
                 redis::cmd("GET")
                     .arg(format!("{broker}/num_connections"))
                     .query_async(&mut self.underlying_connection)
@@ -149,6 +149,11 @@ impl DiscoveryClient for Redis {
                 "failed to connect to Redis"
             );
 
+            // The broker's registration has just expired, skip it
+            let Some(num_connections) = num_connections else {
+                continue;
+            };
+
             // Get the number of permits the broker has
             let num_permits: u64 = bail!(
                 redis::cmd("SCARD")
-- 
2.43.0


From 42cbd63bc098113cbc575d90696d295d6eb33a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 20/30] fix: permits outstanding in Redis count as connections

---
 cdn-proto/src/discovery/redis.rs | 47 ++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 6622ba4..991fc2c 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -221,18 +221,33 @@ impl DiscoveryClient for Redis {
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("SET");
+        let mut pipeline = redis::pipe();
+        pipeline.atomic().cmd("SET");
         #[cfg(not(feature = "global-permits"))]
         // Per-broker permit
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        pipeline.arg(&[format!("{for_broker}/permits/{permit}")]);
         #[cfg(feature = "global-permits")]
         // Global permit
-        cmd.arg(&[format!("permits/{permit}")]);
+        pipeline.arg(&[format!("permits/{permit}")]);
+        pipeline
+            .arg(public_key)
+            .arg(&["EX", &expiry.as_secs().to_string()]);
+
+        // Add it to the broker's outstanding permits, which count as connections
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SADD")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .cmd("EXPIREMEMBER")
+            .arg(&[
+                format!("{for_broker}/permits"),
+                permit.to_string(),
+                expiry.as_secs().to_string(),
+            ]);
 
         // Issue the permit
         bail!(
-            cmd.arg(public_key)
-                .arg(&["EX", &expiry.as_secs().to_string()])
+            pipeline
                 .query_async::<()>(&mut self.underlying_connection)
                 .await,
             Connection,
@@ -255,18 +270,28 @@ impl DiscoveryClient for Redis {
     ) -> Result<Option<Vec<u8>>> {
         // Remove this permit verifying it exists for either one broker or
         // all brokers (with the `global-permits` feature enabled)
-        let mut cmd = redis::cmd("GETDEL");
+        let mut pipeline = redis::pipe();
+        pipeline.atomic().cmd("GETDEL");
         #[cfg(not(feature = "global-permits"))]
-        cmd.arg(&[format!("{for_broker}/permits/{permit}")]);
+        pipeline.arg(&[format!("{for_broker}/permits/{permit}")]);
         #[cfg(feature = "global-permits")]
-        cmd.arg(&[format!("permits/{permit}")]);
+        pipeline.arg(&[format!("permits/{permit}")]);
+
+        // Remove it from the broker's outstanding permits
+        #[cfg(not(feature = "global-permits"))]
+        pipeline
+            .cmd("SREM")
+            .arg(&[format!("{for_broker}/permits"), permit.to_string()])
+            .ignore();
 
         // Remove the permit
-        Ok(bail!(
-            cmd.query_async(&mut self.underlying_connection).await,
+        let (public_key,) = bail!(
+            pipeline.query_async(&mut self.underlying_connection).await,
             Connection,
             "failed to connect to Redis"
-        ))
+        );
+
+        Ok(public_key)
     }
 
     /// Atomically set the list of whitelisted users
-- 
2.43.0


From de6a0cc53a65d68118636cb60f81ef40e23cbb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 21/30] fix: the values that mean failure and success are not
 issued as permits

---
 cdn-proto/src/discovery/embedded.rs | 8 +++++++-
 cdn-proto/src/discovery/redis.rs    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/discovery/embedded.rs b/cdn-proto/src/discovery/embedded.rs
index 238090f..ec282e2 100644
--- a/cdn-proto/src/discovery/embedded.rs
+++ b/cdn-proto/src/discovery/embedded.rs
@@ -236,7 +236,13 @@ impl DiscoveryClient for Embedded {
     ) -> Result<u64> {
         // Create random permit number
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u32();
+        let mut rng = StdRng::from_entropy();
+        let mut permit = rng.next_u32();
+
+        // These values mean failure and success in the responses to authentication
+        while permit <= 1 {
+            permit = rng.next_u32();
+        }
 
         #[cfg(not(feature = "global-permits"))]
         let broker = for_broker.to_string();
diff --git a/cdn-proto/src/discovery/redis.rs b/cdn-proto/src/discovery/redis.rs
index 991fc2c..431b111 100644
--- a/cdn-proto/src/discovery/redis.rs
+++ b/cdn-proto/src/discovery/redis.rs
@@ -217,7 +217,13 @@ impl DiscoveryClient for Redis {
     ) -> Result<u64> {
         // Create random permit number
         // TODO: figure out if it makes sense to initialize this somewhere else
-        let permit = StdRng::from_entropy().next_u64();
+        let mut rng = StdRng::from_entropy();
+        let mut permit = rng.next_u64();
+
+        // These values mean failure and success in the responses to authentication
+        while permit <= 1 {
+            permit = rng.next_u64();
+        }
 
         // Issue this permit for either one broker or all brokers (if we have
         // the `global-permits` feature enabled)
-- 
2.43.0


From 466bded18e63d5a05e8bad5171c8c642977a9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 22/30] fix: a message larger than the memory pool fails its
 connection

---
 cdn-proto/src/connection/limiter/mod.rs   |  8 ++++++++
 cdn-proto/src/connection/limiter/pool.rs  | 20 +++++++++++++++++---
 cdn-proto/src/connection/protocols/mod.rs |  8 ++++++++
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/cdn-proto/src/connection/limiter/mod.rs b/cdn-proto/src/connection/limiter/mod.rs
index 81c2a26..91c1072 100644
--- a/cdn-proto/src/connection/limiter/mod.rs
+++ b/cdn-proto/src/connection/limiter/mod.rs
@@ -48,6 +48,14 @@ impl Limiter {
         }
     }
 
+    /// Whether a message of `num_bytes` bytes can ever be allocated. This is not the case if
+    /// it is larger than the global memory pool.
+    pub fn can_allocate_message_bytes(&self, num_bytes: u32) -> bool {
+        self.global_memory_pool
+            .as_ref()
+            .map_or(true, |pool| pool.can_fit(num_bytes))
+    }
+
     /// Allocate a permit for a message of `num_bytes` bytes.
     /// If the global memory pool is not set, this will return `None`.
     ///
diff --git a/cdn-proto/src/connection/limiter/pool.rs b/cdn-proto/src/connection/limiter/pool.rs
index 9abe2d0..57a1fe5 100644
--- a/cdn-proto/src/connection/limiter/pool.rs
+++ b/cdn-proto/src/connection/limiter/pool.rs
@@ -25,12 +25,21 @@ use crate::connection::metrics;
 /// A global memory arena that tracks but does not allocate memory.
 /// Allows for asynchronous capping of memory usage.
 #[derive(Clone)]
-pub struct MemoryPool(Arc<Semaphore>);
+pub struct MemoryPool {
+    /// The bytes that are currently available
+    available: Arc<Semaphore>,
+
+    /// The number of bytes the pool was created with
+    size: usize,
+}
 
 impl MemoryPool {
     /// Create a new `MemoryPool` from the number of bytes to
     pub fn new(n: usize) -> Self {
-        Self(Arc::from(Semaphore::const_new(n)))
+        Self {
+            available: Arc::from(Semaphore::const_new(n)),
+            size: n,
+        }
     }
 }
 
@@ -52,6 +61,11 @@ impl Drop for AllocationPermit {
 }
 
 impl MemoryPool {
+    /// Whether `n` bytes can ever be allocated from this pool
+    pub fn can_fit(&self, n: u32) -> bool {
+        usize::try_from(n).is_ok_and(|n| n <= self.size)
+    }
+
     /// Asynchronously allocate `n` bytes from the global pool, waiting
     /// if there are no more available
     ///
@@ -59,7 +73,7 @@ impl MemoryPool {
     /// If the semaphore is dropped
     pub async fn alloc(&self, n: u32) -> Result<AllocationPermit> {
         // Acquire many permits to the underlying semaphore
-        let permit = self.0.clone().acquire_many_owned(n).await?;
+        let permit = self.available.clone().acquire_many_owned(n).await?;
 
         #[cfg(feature = "metrics")]
         return Ok(AllocationPermit(permit, Instant::now()));
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index ada6022..140af48 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -370,6 +370,14 @@ async fn read_length_delimited<R: AsyncReadExt + Unpin + Send>(
         return Err(Error::Connection("message was too large".to_string()));
     }
 
+    // Make sure the message can fit in the memory pool. Otherwise, we would be waiting for memory
+    // that never becomes available, and so would everybody behind us
+    if !limiter.can_allocate_message_bytes(message_size) {
+        return Err(Error::Connection(
+            "message was larger than the memory pool".to_string(),
+        ));
+    }
+
     // Acquire the allocation if necessary
     let permit = limiter.allocate_message_bytes(message_size).await;
 
-- 
2.43.0


From 949c340cbfdc42e9985823db919dbbe2d35cf0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 23/30] fix: Memory connections made at the same time get each
 other's halves

---
 cdn-proto/src/connection/protocols/memory.rs | 64 +++++++++-----------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/memory.rs b/cdn-proto/src/connection/protocols/memory.rs
index ab05ddf..01209a3 100644
--- a/cdn-proto/src/connection/protocols/memory.rs
+++ b/cdn-proto/src/connection/protocols/memory.rs
@@ -25,11 +25,13 @@ use crate::{
     error::{Error, Result},
 };
 
-type ChannelExchange = (Sender<DuplexStream>, Receiver<DuplexStream>);
+/// The two halves of a connection as its accepting side sees them:
+/// what it sends to, and what it receives from.
+type ConnectionHalves = (DuplexStream, DuplexStream);
 
 /// A global list of listeners that are initialized later. This is to help
 /// connections find listeners.
-static LISTENERS: OnceLock<RwLock<HashMap<String, ChannelExchange>>> = OnceLock::new();
+static LISTENERS: OnceLock<RwLock<HashMap<String, Sender<ConnectionHalves>>>> = OnceLock::new();
 
 #[derive(Clone, PartialEq, Eq)]
 /// The `Memory` protocol. Runs everything through channels for local testing purposes.
@@ -51,28 +53,26 @@ impl Protocol for Memory {
     ) -> Result<Connection> {
         // If the peer is not listening, return an error
         // Get or initialize the channels as a static value
-        let listeners = LISTENERS.get_or_init(RwLock::default).read().await;
-        let Some((channel_exchange_sender, channel_exchange_receiver)) =
-            listeners.get(remote_endpoint)
+        let Some(connection_sender) = LISTENERS
+            .get_or_init(RwLock::default)
+            .read()
+            .await
+            .get(remote_endpoint)
+            .cloned()
         else {
             return Err(Error::Connection(
                 "failed to connect to remote: connection refused".to_string(),
             ));
         };
 
-        // Create a duplex stream to send and receive bytes
+        // Create the duplex streams to send and receive bytes
         let (send_to_us, receive_from_them) = duplex(8192);
+        let (send_to_them, receive_from_us) = duplex(8192);
 
-        // Send our channel to them
+        // Send them both of their halves at once, so that they cannot be
+        // mixed up with those of someone connecting at the same time
         bail!(
-            channel_exchange_sender.send(send_to_us).await,
-            Connection,
-            "failed to connect to remote endpoint"
-        );
-
-        // Receive their channel
-        let send_to_them = bail!(
-            channel_exchange_receiver.recv().await,
+            connection_sender.send((send_to_us, receive_from_us)).await,
             Connection,
             "failed to connect to remote endpoint"
         );
@@ -94,19 +94,17 @@ impl Protocol for Memory {
         _certificate: CertificateDer<'static>,
         _key: PrivateKeyDer<'static>,
     ) -> Result<Self::Listener> {
-        // Create our channels
+        // Create our channel
         let (send_to_us, receive_from_them) = unbounded();
-        let (send_to_them, receive_from_us) = unbounded();
 
         // Add to our listeners
         let mut listeners = LISTENERS.get_or_init(RwLock::default).write().await;
-        listeners.insert(bind_endpoint.to_string(), (send_to_us, receive_from_us));
+        listeners.insert(bind_endpoint.to_string(), send_to_us);
 
         // Return our listener as a u64 bind endpoint
         Ok(MemoryListener {
             bind_endpoint: bind_endpoint.to_string(),
             receive_new_connection: receive_from_them,
-            send_to_new_connection: send_to_them,
         })
     }
 }
@@ -134,40 +132,28 @@ impl UnfinalizedConnection for UnfinalizedMemoryConnection {
 /// so we can remove on drop.
 pub struct MemoryListener {
     bind_endpoint: String,
-    receive_new_connection: Receiver<DuplexStream>,
-    send_to_new_connection: Sender<DuplexStream>,
+    receive_new_connection: Receiver<ConnectionHalves>,
 }
 
 #[async_trait]
 impl Listener<UnfinalizedMemoryConnection> for MemoryListener {
     /// Accept an unfinalized connection from the listener. Just
-    /// receives from our channel and performs channel exchange
-    /// with the connector.
+    /// receives the connector's halves from our channel.
     ///
     /// # Errors
     /// - If we fail to accept a connection from the listener.
     async fn accept(&self) -> Result<UnfinalizedMemoryConnection> {
-        // Accept a channel from the sender
-        let bytes_sender = bail!(
+        // Accept the halves of the connection from the connector
+        let (send_stream, receive_stream) = bail!(
             self.receive_new_connection.recv().await,
             Connection,
             "failed to accept remote connection"
         );
 
-        // Create our bytes sender
-        let (send_bytes_to_us, bytes_receiver) = duplex(8192);
-
-        // Send the remote connection our channel
-        bail!(
-            self.send_to_new_connection.send(send_bytes_to_us).await,
-            Connection,
-            "failed to finalize connection"
-        );
-
         // Return our unfinalized connection
         Ok(UnfinalizedMemoryConnection {
-            send_stream: bytes_sender,
-            receive_stream: bytes_receiver,
+            send_stream,
+            receive_stream,
         })
     }
 }
@@ -175,6 +161,10 @@ impl Listener<UnfinalizedMemoryConnection> for MemoryListener {
 /// On `Drop`, we want to remove ourself from the map of listeners.
 impl Drop for MemoryListener {
     fn drop(&mut self) {
+        // Nobody will accept the connections that are still waiting
+        self.receive_new_connection.close();
+        while self.receive_new_connection.try_recv().is_ok() {}
+
         // Clone the bind endpoint so we can use it
         let bind_endpoint = self.bind_endpoint.clone();
 
-- 
2.43.0


From b8d80ba57ae5750081032bdeb0f8626496550726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 24/30] fix: a soft close over QUIC that was not acknowledged
 succeeds

---
 cdn-proto/src/connection/protocols/mod.rs  | 10 ++++++++--
 cdn-proto/src/connection/protocols/quic.rs | 13 +++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 140af48..08ba2a5 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -138,7 +138,9 @@ impl Drop for OutgoingMessages {
 /// before closing.
 #[async_trait]
 trait SoftClose {
-    async fn soft_close(&mut self) {}
+    async fn soft_close(&mut self) -> Result<()> {
+        Ok(())
+    }
 }
 
 impl Connection {
@@ -199,7 +201,11 @@ impl Connection {
                     }
                     BytesOrSoftClose::SoftClose(result_sender) => {
                         // Soft close the writer, allowing it to finish sending
-                        writer.soft_close().await;
+                        if let Err(err) = writer.soft_close().await {
+                            // This fails the soft close, as the sender is dropped
+                            warn!("failed to soft close stream: {:?}", err);
+                            continue;
+                        }
 
                         // Acknowledge that we've processed up to this point
                         let _ = result_sender.send(());
diff --git a/cdn-proto/src/connection/protocols/quic.rs b/cdn-proto/src/connection/protocols/quic.rs
index d5e0756..e12dfee 100644
--- a/cdn-proto/src/connection/protocols/quic.rs
+++ b/cdn-proto/src/connection/protocols/quic.rs
@@ -269,10 +269,19 @@ async fn accept_bi(
 impl SoftClose for SendStream {
     /// Soft close the stream by shutting down the write side and waiting for the
     /// read side to close (with a timeout of 3 seconds).
-    async fn soft_close(&mut self) {
+    ///
+    /// # Errors
+    /// - If the remote did not acknowledge everything in time
+    async fn soft_close(&mut self) -> Result<()> {
         if self.finish().is_ok() {
-            let _ = timeout(Duration::from_secs(3), self.stopped()).await;
+            let _ = bail!(
+                timeout(Duration::from_secs(3), self.stopped()).await,
+                Time,
+                "timed out waiting for the remote to receive everything"
+            );
         }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 55e50b963c6d8d9be99381fd39b78572b509a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 25/30] fix: serializing a message that is too large to be sent
 panics

---
 cdn-proto/src/message.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/cdn-proto/src/message.rs b/cdn-proto/src/message.rs
index 80474c3..fe110d8 100644
--- a/cdn-proto/src/message.rs
+++ b/cdn-proto/src/message.rs
@@ -20,6 +20,7 @@ use crate::{
         self, authenticate_response, authenticate_with_key, authenticate_with_permit, broadcast,
         direct,
     },
+    MAX_MESSAGE_SIZE,
 };
 
 /// A type alias for a `Topic` to disambiguate it from `Vec<u8>`
@@ -33,6 +34,15 @@ macro_rules! serialize {
     };
 }
 
+/// Errors if a message of this size is too large to be sent.
+fn check_size(size: usize) -> Result<()> {
+    if size > MAX_MESSAGE_SIZE as usize {
+        return Err(Error::Serialize("message was too large".to_string()));
+    }
+
+    Ok(())
+}
+
 macro_rules! checked_to_u32 {
     ($from: expr) => {
         bail!(u32::try_from($from), Deserialize, "failed to try from u32")
@@ -109,11 +119,15 @@ impl Message {
     /// byte array of the serialized message, or an error if there was one.
     ///
     /// # Errors
-    /// Errors if the downstream serialization fails.
+    /// - If the downstream serialization fails
+    /// - If the message is too large to be sent
     ///
     /// # Panics
     /// If we can't cast from a usize to a u32
     pub fn serialize(&self) -> Result<Vec<u8>> {
+        // Cap'n Proto panics on fields that are too large, so check this first
+        check_size(self.content_size())?;
+
         // Create a new root message, our message base
         let mut default_message = capnp::message::Builder::new_default();
         let mut root: messages_capnp::message::Builder = default_message.init_root();
@@ -200,7 +214,27 @@ impl Message {
             }
         }
 
-        Ok(write_message_segments_to_words(&default_message))
+        let serialized = write_message_segments_to_words(&default_message);
+
+        // With the framing it can be larger than the fields are
+        check_size(serialized.len())?;
+
+        Ok(serialized)
+    }
+
+    /// The size (in bytes) of the fields that are of variable size.
+    fn content_size(&self) -> usize {
+        match self {
+            Self::AuthenticateWithKey(message) => {
+                message.public_key.len() + message.signature.len()
+            }
+            Self::AuthenticateWithPermit(_) => 0,
+            Self::AuthenticateResponse(message) => message.context.len(),
+            Self::Broadcast(message) => message.topics.len() + message.message.len(),
+            Self::Direct(message) => message.recipient.len() + message.message.len(),
+            Self::Subscribe(topics) | Self::Unsubscribe(topics) => topics.len(),
+            Self::UserSync(sync) | Self::TopicSync(sync) => sync.len(),
+        }
     }
 
     /// `deserialize` is used to deserialize a message. It returns a
-- 
2.43.0


From b729cf1bf339f9d36ceae5787d9f7a96617593dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 26/30] fix: a connection's messages are handled before the
 connection is registered

The receive loop of a user or broker was spawned before the connection was
added, so its first messages (or its failure) could be handled first: a
subscription was then overwritten, a reply not sent, or the session left
registered although its connection had failed.
---
 cdn-broker/src/tasks/broker/handler.rs | 18 ++++++++++--------
 cdn-broker/src/tasks/user/handler.rs   | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index fe43e9c..ff0fdd1 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -77,8 +77,8 @@ impl<Def: RunDef> Inner<Def> {
         let connection_ = connection.clone();
         let broker_identifier_ = broker_identifier.clone();
 
-        // Start the receiving end of the broker
-        let receive_handle = spawn(async move {
+        // The receiving end of the broker
+        let receive_loop = async move {
             // If we error, come back to the callback so we can remove the connection from the list.
             if let Err(err) = self_
                 .broker_receive_loop(&broker_identifier_, connection_)
@@ -96,13 +96,15 @@ impl<Def: RunDef> Inner<Def> {
                     .write()
                     .remove_broker(&broker_identifier_, "failed to receive message");
             };
-        })
-        .abort_handle();
+        };
 
-        // Add to our list of connections, removing the old one if it exists
-        self.connections
-            .write()
-            .add_broker(broker_identifier.clone(), connection, receive_handle);
+        // Add to our list of connections, removing the old one if it exists. We start the receiving end under the
+        // lock, so that it cannot handle a message from (or remove) a broker that is yet to be added
+        {
+            let mut connections = self.connections.write();
+            let receive_handle = spawn(receive_loop).abort_handle();
+            connections.add_broker(broker_identifier.clone(), connection, receive_handle);
+        }
 
         // Send a full topic sync
         if let Err(err) = self.full_topic_sync(&broker_identifier).await {
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index 9e821f2..4fc83be 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -62,8 +62,8 @@ impl<Def: RunDef> Inner<Def> {
         let public_key_ = public_key.clone();
         let connection_ = connection.clone();
 
-        // Spawn the user receive loop
-        let receive_handle = spawn(async move {
+        // The user receive loop
+        let receive_loop = async move {
             // If we error, come back to the callback so we can remove the connection from the list.
             if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
                 warn!(id = user_identifier, error = err.to_string(), "user error");
@@ -74,13 +74,15 @@ impl<Def: RunDef> Inner<Def> {
                     .write()
                     .remove_user(public_key_, "failed to receive message");
             };
-        })
-        .abort_handle();
+        };
 
-        // Add our user and remove the old one if it exists
-        self.connections
-            .write()
-            .add_user(&public_key, connection, &topics, receive_handle);
+        // Add our user and remove the old one if it exists. We start the receive loop under the lock, so that
+        // it cannot handle a message from (or remove) a user that is yet to be added
+        {
+            let mut connections = self.connections.write();
+            let receive_handle = spawn(receive_loop).abort_handle();
+            connections.add_user(&public_key, connection, &topics, receive_handle);
+        }
 
         // If we have `strong-consistency` enabled,
         #[cfg(feature = "strong-consistency")]
-- 
2.43.0


From b8fb2d0d790002013bff479b1570a278213b8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 27/30] fix: a superseded connection's failure removes the one
 that replaced it

A receive loop that was already past its abort, or a send to the old
connection, removed the user or broker by its key even if a newer connection
had taken its place, and changed the newer one's subscriptions. Only act on
the connection that is concerned.
---
 cdn-broker/src/connections/mod.rs         | 46 +++++++++++++++++++++++
 cdn-broker/src/tasks/broker/handler.rs    | 22 ++++++-----
 cdn-broker/src/tasks/broker/sender.rs     |  9 +++--
 cdn-broker/src/tasks/user/handler.rs      | 31 +++++++++------
 cdn-broker/src/tasks/user/sender.rs       |  8 ++--
 cdn-proto/src/connection/protocols/mod.rs |  5 +++
 6 files changed, 92 insertions(+), 29 deletions(-)

diff --git a/cdn-broker/src/connections/mod.rs b/cdn-broker/src/connections/mod.rs
index 5c64238..3969b1b 100644
--- a/cdn-broker/src/connections/mod.rs
+++ b/cdn-broker/src/connections/mod.rs
@@ -356,6 +356,52 @@ impl Connections {
             .remove_if_equals(user_public_key, self.identity.clone());
     }
 
+    /// Whether this is the connection we have with a broker (and not one it replaced).
+    pub fn is_connection_of_broker(
+        &self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+    ) -> bool {
+        self.brokers
+            .get(broker_identifier)
+            .is_some_and(|broker| broker.connection.is_same_as(connection))
+    }
+
+    /// Whether this is the connection we have with a user (and not one it replaced).
+    pub fn is_connection_of_user(
+        &self,
+        user_public_key: &UserPublicKey,
+        connection: &Connection,
+    ) -> bool {
+        self.users
+            .get(user_public_key)
+            .is_some_and(|(current, _)| current.is_same_as(connection))
+    }
+
+    /// Remove a broker because of a connection with it, unless there is a newer one.
+    pub fn remove_broker_of_connection(
+        &mut self,
+        broker_identifier: &BrokerIdentifier,
+        connection: &Connection,
+        reason: &str,
+    ) {
+        if self.is_connection_of_broker(broker_identifier, connection) {
+            self.remove_broker(broker_identifier, reason);
+        }
+    }
+
+    /// Remove a user because of a connection with it, unless there is a newer one.
+    pub fn remove_user_of_connection(
+        &mut self,
+        user_public_key: UserPublicKey,
+        connection: &Connection,
+        reason: &str,
+    ) {
+        if self.is_connection_of_user(&user_public_key, connection) {
+            self.remove_user(user_public_key, reason);
+        }
+    }
+
     /// Locally subscribe a broker to some topics.
     pub fn subscribe_broker_to(
         &mut self,
diff --git a/cdn-broker/src/tasks/broker/handler.rs b/cdn-broker/src/tasks/broker/handler.rs
index ff0fdd1..54acb99 100644
--- a/cdn-broker/src/tasks/broker/handler.rs
+++ b/cdn-broker/src/tasks/broker/handler.rs
@@ -81,7 +81,7 @@ impl<Def: RunDef> Inner<Def> {
         let receive_loop = async move {
             // If we error, come back to the callback so we can remove the connection from the list.
             if let Err(err) = self_
-                .broker_receive_loop(&broker_identifier_, connection_)
+                .broker_receive_loop(&broker_identifier_, &connection_)
                 .await
             {
                 error!(
@@ -91,10 +91,11 @@ impl<Def: RunDef> Inner<Def> {
                 );
 
                 // Remove the broker from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to receive message");
+                self_.connections.write().remove_broker_of_connection(
+                    &broker_identifier_,
+                    &connection_,
+                    "failed to receive message",
+                );
             };
         };
 
@@ -133,7 +134,7 @@ impl<Def: RunDef> Inner<Def> {
     pub async fn broker_receive_loop(
         self: &Arc<Self>,
         broker_identifier: &BrokerIdentifier,
-        connection: Connection,
+        connection: &Connection,
     ) -> Result<()> {
         // Clone the hook and set its identifier
         let mut local_message_hook = self.broker_message_hook.clone();
@@ -193,10 +194,11 @@ impl<Def: RunDef> Inner<Def> {
                         "failed to deserialize topic sync message"
                     );
 
-                    // Apply the topic sync
-                    self.connections
-                        .write()
-                        .apply_topic_sync(broker_identifier, topic_sync);
+                    // Apply the topic sync, unless there is a newer connection by now
+                    let mut connections = self.connections.write();
+                    if connections.is_connection_of_broker(broker_identifier, connection) {
+                        connections.apply_topic_sync(broker_identifier, topic_sync);
+                    }
                 }
 
                 // Do nothing if we receive an unexpected message
diff --git a/cdn-broker/src/tasks/broker/sender.rs b/cdn-broker/src/tasks/broker/sender.rs
index bbb7de8..ed3988c 100644
--- a/cdn-broker/src/tasks/broker/sender.rs
+++ b/cdn-broker/src/tasks/broker/sender.rs
@@ -36,10 +36,11 @@ impl<Def: RunDef> Inner<Def> {
                 error!("failed to send message to broker: {:?}", e);
 
                 // Remove the broker if we failed to send the message
-                self_
-                    .connections
-                    .write()
-                    .remove_broker(&broker_identifier_, "failed to send message");
+                self_.connections.write().remove_broker_of_connection(
+                    &broker_identifier_,
+                    &connection,
+                    "failed to send message",
+                );
             }
         }
     }
diff --git a/cdn-broker/src/tasks/user/handler.rs b/cdn-broker/src/tasks/user/handler.rs
index 4fc83be..92fe2d0 100644
--- a/cdn-broker/src/tasks/user/handler.rs
+++ b/cdn-broker/src/tasks/user/handler.rs
@@ -65,14 +65,15 @@ impl<Def: RunDef> Inner<Def> {
         // The user receive loop
         let receive_loop = async move {
             // If we error, come back to the callback so we can remove the connection from the list.
-            if let Err(err) = self_.user_receive_loop(&public_key_, connection_).await {
+            if let Err(err) = self_.user_receive_loop(&public_key_, &connection_).await {
                 warn!(id = user_identifier, error = err.to_string(), "user error");
 
                 // Remove the user from the map
-                self_
-                    .connections
-                    .write()
-                    .remove_user(public_key_, "failed to receive message");
+                self_.connections.write().remove_user_of_connection(
+                    public_key_,
+                    &connection_,
+                    "failed to receive message",
+                );
             };
         };
 
@@ -104,7 +105,7 @@ impl<Def: RunDef> Inner<Def> {
     pub async fn user_receive_loop(
         self: &Arc<Self>,
         public_key: &UserPublicKey,
-        connection: Connection,
+        connection: &Connection,
     ) -> Result<()> {
         // Clone the hook
         let mut local_message_hook = self.user_message_hook.clone();
@@ -151,9 +152,12 @@ impl<Def: RunDef> Inner<Def> {
                     Def::Topic::prune(&mut subscribe)?;
 
                     // TODO: add handle functions for this to make it easier to read
-                    self.connections
-                        .write()
-                        .subscribe_user_to(public_key, subscribe);
+                    let mut connections = self.connections.write();
+
+                    // The subscriptions may already be those of a newer connection
+                    if connections.is_connection_of_user(public_key, connection) {
+                        connections.subscribe_user_to(public_key, subscribe);
+                    }
                 }
 
                 // Unsubscribe messages from users will just update the state locally
@@ -161,9 +165,12 @@ impl<Def: RunDef> Inner<Def> {
                     // Prune the topics
                     Def::Topic::prune(&mut unsubscribe)?;
 
-                    self.connections
-                        .write()
-                        .unsubscribe_user_from(public_key, &unsubscribe);
+                    let mut connections = self.connections.write();
+
+                    // The subscriptions may already be those of a newer connection
+                    if connections.is_connection_of_user(public_key, connection) {
+                        connections.unsubscribe_user_from(public_key, &unsubscribe);
+                    }
                 }
 
                 _ => return Err(Error::Connection("invalid message received".to_string())),
diff --git a/cdn-broker/src/tasks/user/sender.rs b/cdn-broker/src/tasks/user/sender.rs
index c701f38..28aca27 100644
--- a/cdn-broker/src/tasks/user/sender.rs
+++ b/cdn-broker/src/tasks/user/sender.rs
@@ -24,9 +24,11 @@ impl<Def: RunDef> Inner<Def> {
                 error!("failed to send message to user: {:?}", e);
 
                 // Remove the broker if we failed to send the message
-                self.connections
-                    .write()
-                    .remove_user(user.clone(), "failed to send message");
+                self.connections.write().remove_user_of_connection(
+                    user.clone(),
+                    &connection,
+                    "failed to send message",
+                );
             }
         }
     }
diff --git a/cdn-proto/src/connection/protocols/mod.rs b/cdn-proto/src/connection/protocols/mod.rs
index 08ba2a5..092dbd8 100644
--- a/cdn-proto/src/connection/protocols/mod.rs
+++ b/cdn-proto/src/connection/protocols/mod.rs
@@ -246,6 +246,11 @@ impl Connection {
         }))
     }
 
+    /// Whether the other is a clone of this connection
+    pub fn is_same_as(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.0, &other.0)
+    }
+
     /// Close the connection without waiting for messages to be sent. Operations that are
     /// in progress on any clone of it will fail.
     pub fn close(&self) {
-- 
2.43.0


From 7d875bba8505693d76edfc8805aaca87df471ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 28/30] fix: an error of a connection that was replaced
 disconnects the client from its new one

---
 cdn-client/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cdn-client/src/lib.rs b/cdn-client/src/lib.rs
index 757d3ff..e23cdf0 100644
--- a/cdn-client/src/lib.rs
+++ b/cdn-client/src/lib.rs
@@ -155,9 +155,15 @@ macro_rules! disconnect_on_error {
 
                 // If we are not currently reconnecting, take the current connection
                 if $self.connecting_guard.available_permits() > 0 {
-                    // If we ran into an error, take the current connection.
+                    // If we ran into an error, take the current connection, unless it was replaced already.
                     // This will only start reconnecting if we try to receive or send another message.
-                    $self.connection.write().await.take();
+                    let mut current = $self.connection.write().await;
+                    if current
+                        .as_ref()
+                        .is_some_and(|current| current.is_same_as(&$connection))
+                    {
+                        current.take();
+                    }
                 }
 
                 Err(e)
-- 
2.43.0


From 98a429ecb6352573b983e6ff2625fdadbc4527c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 29/30] fix: a QUIC handshake that is never finished is waited
 for much longer than 5 seconds

---
 cdn-proto/src/connection/protocols/quic.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cdn-proto/src/connection/protocols/quic.rs b/cdn-proto/src/connection/protocols/quic.rs
index e12dfee..0f4cec3 100644
--- a/cdn-proto/src/connection/protocols/quic.rs
+++ b/cdn-proto/src/connection/protocols/quic.rs
@@ -171,7 +171,15 @@ impl UnfinalizedConnection for UnfinalizedQuicConnection {
     /// If we to finalize our connection.
     async fn finalize(self, limiter: Limiter) -> Result<Connection> {
         // Await on the `Connecting` to obtain `Connection`
-        let connection = bail!(self.0.await, Connection, "failed to finalize connection");
+        let connection = bail!(
+            bail!(
+                timeout(Duration::from_secs(5), self.0).await,
+                Connection,
+                "timed out attempting quic handshake"
+            ),
+            Connection,
+            "failed to finalize connection"
+        );
 
         // Accept an incoming bidirectional stream
         let (sender, receiver) = bail!(
-- 
2.43.0


From c36ccb27a2cdd3ed1630736a3b54c1ec9e10ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 30/30] fix: a user's entry does not start again with an old
 version after it was removed

---
 cdn-broker/src/connections/versioned_map.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cdn-broker/src/connections/versioned_map.rs b/cdn-broker/src/connections/versioned_map.rs
index b57a53c..d48549d 100644
--- a/cdn-broker/src/connections/versioned_map.rs
+++ b/cdn-broker/src/connections/versioned_map.rs
@@ -13,6 +13,7 @@ use std::{
     collections::{hash_map::Entry, HashMap, HashSet},
     fmt::Debug,
     hash::Hash,
+    time::{SystemTime, UNIX_EPOCH},
 };
 
 use derivative::Derivative;
@@ -100,9 +101,10 @@ impl<
 
             // If there isn't already an entry,
             Entry::Vacant(entry) => {
-                // Insert it with a version of `1`.
+                // Insert it with the current time as its version. There may have been one that we no longer
+                // remember (we drop removed values), and others may still have older versions of it.
                 entry.insert(VersionedValue {
-                    version: 1,
+                    version: current_time_micros(),
                     value: v,
                 });
             }
@@ -271,6 +273,16 @@ impl<
     }
 }
 
+/// The number of microseconds since the UNIX epoch. Far greater than the number of times that
+/// any value has been modified.
+fn current_time_micros() -> u64 {
+    SystemTime::now()
+        .duration_since(UNIX_EPOCH)
+        .ok()
+        .and_then(|time| u64::try_from(time.as_micros()).ok())
+        .unwrap_or(1)
+}
+
 #[cfg(test)]
 pub mod tests {
     use super::VersionedMap;
-- 
2.43.0

