From cff995b67edef77dae981094d20528fd3befead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 01/30] fix: treat end of stream as a disconnect instead of
 reading forever

---
 server-lib/src/clients/mqttclient.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0795860..caab21c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -61,7 +61,9 @@ impl MqttClient {
                     }
                     self.tcp_reader
                         .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
-                    self.tcp_reader.read_buf(&mut self.bytes).await?;
+                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
+                        return Err(ServerError::Misc("Client disconnected".to_owned()));
+                    }
                 }
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From c4b9155a039438ae303496746a786df4cb73c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 02/30] fix: a retain-as-published subscription must not panic
 the dispatcher

RETAIN publishes are refused, so the flag needs no further handling.
---
 server-lib/src/dispatcher.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b067667..6cf321a 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -111,9 +111,6 @@ impl Dispatcher {
             if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
-            if info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
-                unimplemented!();
-            }
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
-- 
2.43.0


From 457ac070b5de7f5ec445d7713be3c3e2b4331d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 03/30] fix: do not panic on dispatcher queues smaller than one
 packet

---
 server-lib/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index ec2711a..093e415 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -32,7 +32,8 @@ pub struct MqttServer {
 impl MqttServer {
     #[instrument(name = "MqttServer::new", skip(cfg))]
     pub async fn new(cfg: MqttServerConfig) -> Result<Self, ServerError> {
-        let queue_len = cfg.dispatcher_queue_size / size_of::<PacketInfo>();
+        // a bounded channel needs room for at least one packet
+        let queue_len = (cfg.dispatcher_queue_size / size_of::<PacketInfo>()).max(1);
         let (incoming_tx, incoming_rx) = channel(queue_len);
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
-- 
2.43.0


From 2ab2edd8a8b64a637e03465402171921bd1ed339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 04/30] fix: tie packets, subscriptions and the client table to
 one session

---
 server-lib/src/clients/client.rs       |  8 +++
 server-lib/src/clients/clientworker.rs |  6 +-
 server-lib/src/clients/mod.rs          | 41 ++++++++----
 server-lib/src/dispatcher.rs           | 91 +++++++++++++-------------
 server-lib/src/lib.rs                  | 11 +++-
 server-lib/src/packetinfo.rs           |  4 +-
 6 files changed, 94 insertions(+), 67 deletions(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index d4fcf3c..42adccf 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -41,6 +41,14 @@ impl Client {
         }
     }
 
+    /// true when both handles belong to the same connection, clients that reconnect
+    /// keep their id but start a new session
+    pub(crate) fn same_session(&self, other: &Client) -> bool {
+        Arc::ptr_eq(&self.killme, &other.killme)
+    }
+    pub(crate) fn clientid(&self) -> &Arc<str> {
+        &self.clientid
+    }
     pub fn encrypted(&self) -> bool {
         self.encrypted
     }
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b517346..a68ade4 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -55,7 +55,7 @@ impl ClientWorker {
             p = self.conn.recv() => {
                 let packet = p?;
                 let p = PacketInfo {
-                    senderid: self.internals.clientid.clone(),
+                    sender: self.internals.clone(),
                     packet,
                 };
                 self.incoming.send(p).await.
@@ -80,7 +80,7 @@ impl ClientWorker {
         }
     }
     #[instrument(name = "ClientWorker::run", skip_all)]
-    pub(super) async fn run(mut self) -> Arc<str> {
+    pub(super) async fn run(mut self) -> Client {
         let shutdown = self.internals.shutdown.clone();
         let killme = self.internals.killme.clone();
         tokio::select! {
@@ -88,7 +88,7 @@ impl ClientWorker {
             _ = shutdown.notified() => (),
             _ = self.listen_forever() => (),
         }
-        self.internals.clientid
+        self.internals
     }
 
     pub(super) fn internals(&self) -> &Client {
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index cdb5e84..1a96ea1 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -4,7 +4,9 @@ mod mqttclient;
 #[cfg(feature = "noise")]
 mod noiseclient;
 
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, topics::TopicsTable,
+};
 pub use client::Client;
 use clientworker::ClientWorker;
 use futures::{stream::FuturesUnordered, StreamExt};
@@ -28,7 +30,8 @@ pub struct ClientManager {
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
-    workers: FuturesUnordered<JoinHandle<Arc<str>>>,
+    workers: FuturesUnordered<JoinHandle<Client>>,
+    topics: Arc<TopicsTable>,
 }
 
 impl ClientManager {
@@ -37,6 +40,7 @@ impl ClientManager {
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
         shutdown: Arc<Notify>,
         rx: UnboundedReceiver<ClientWorker>,
+        topics: Arc<TopicsTable>,
     ) -> Self {
         ClientManager {
             rx,
@@ -44,6 +48,7 @@ impl ClientManager {
             cfg,
             shutdown,
             workers: FuturesUnordered::new(),
+            topics,
         }
     }
     #[instrument(name = "ClientManager::start", skip_all)]
@@ -52,6 +57,7 @@ impl ClientManager {
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
         shutdown: Arc<Notify>,
         incoming: Sender<PacketInfo>,
+        topics: Arc<TopicsTable>,
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
         let (tx, rx) = unbounded_channel();
 
@@ -81,7 +87,7 @@ impl ClientManager {
             workers.push(handle)
         }
 
-        let man = ClientManager::new(cfg, clients, shutdown, rx);
+        let man = ClientManager::new(cfg, clients, shutdown, rx, topics);
         workers.push(man.start_processing().await);
         Ok(workers)
     }
@@ -95,23 +101,32 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        self.clients
-            .write()
-            .await
-            .insert(client.clientid.clone(), client.clone());
+        // the lock is held until the previous session is cleaned up, so that the dispatcher never
+        // observes the new session along with the subscriptions of the old one
+        let mut clients = self.clients.write().await;
+        if let Some(old) = clients.insert(client.clientid.clone(), client.clone()) {
+            old.killme();
+            self.topics.unsubscribe_all(client.clientid.clone()).await;
+        }
+        drop(clients);
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
     }
-    async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
-        //TODO we don't remove the worker information from the topic file system yet
-        match maybe_id {
+    async fn process_retiring_worker(&mut self, maybe_client: Option<Result<Client, JoinError>>) {
+        match maybe_client {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
                 e
             ),
-            Some(Ok(id)) => {
-                self.clients.write().await.remove(&id);
+            Some(Ok(client)) => {
+                let mut clients = self.clients.write().await;
+                let id = &client.clientid;
+                // the id may already belong to a newer session
+                if clients.get(id).map_or(false, |c| c.same_session(&client)) {
+                    clients.remove(id);
+                    self.topics.unsubscribe_all(id.clone()).await;
+                }
             }
             None => (),
         };
@@ -132,7 +147,7 @@ impl ClientManager {
                 w = self.rx.recv() => if !self.process_new_worker(w).await {
                     break;
                 },
-                clientid = self.workers.next() => self.process_retiring_worker(clientid).await,
+                client = self.workers.next() => self.process_retiring_worker(client).await,
             };
         }
     }
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 6cf321a..e4d1005 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -38,33 +38,28 @@ impl Dispatcher {
             incoming,
         }
     }
-    async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
+    async fn unimplemented(&self, client: &Client) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
-        let clients = self.clients.read().await;
-        let c = clients.get(client).unwrap();
-        if c.send(disconnect).is_err() {
-            error!(clientid = client, "Internal Error: tx closed");
+        if client.send(disconnect).is_err() {
+            trace!(
+                clientid = client.clientid().as_ref(),
+                "client shutdown: tx closed"
+            );
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
 
     #[instrument(skip_all)]
-    async fn process_publish(&mut self, client: &str, publish: Publish) -> Result<(), ServerError> {
+    async fn process_publish(
+        &self,
+        clients: &HashMap<Arc<str>, Client>,
+        client: &Client,
+        publish: Publish,
+    ) -> Result<(), ServerError> {
         trace!("Processing a publish packet");
         #[cfg(feature = "noise")]
-        let strict_encryption = {
-            let clients = self.clients.read().await;
-            match clients.get(client) {
-                Some(c) => c.encrypted() && self.cfg.channel_permeability == Permeability::Strict,
-                None => {
-                    warn!(
-                        clientid = client,
-                        "Client Prematurely shutdown before its publish request could be processed"
-                    );
-                    return Ok(());
-                }
-            }
-        };
+        let strict_encryption =
+            client.encrypted() && self.cfg.channel_permeability == Permeability::Strict;
         match publish.qos() {
             QoS::QoS0 => (),
             QoS::QoS1 => return self.unimplemented(client).await,
@@ -105,10 +100,9 @@ impl Dispatcher {
             }
         }
         let resp = response.build();
-        let clients = self.clients.read().await;
 
         for (target, info) in self.topics.get_all_subscribed(topic).await {
-            if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
+            if &target == client.clientid() && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
             if let Some(c) = clients.get(&target) {
@@ -130,18 +124,17 @@ impl Dispatcher {
     }
 
     #[instrument(skip_all)]
-    async fn process_subscribe(
-        &mut self,
-        client: &Arc<str>,
-        sub: Subscribe,
-    ) -> Result<(), ServerError> {
+    async fn process_subscribe(&self, client: &Client, sub: Subscribe) -> Result<(), ServerError> {
         trace!("Processing a subscribe packet");
         let ident = sub.packet_identifier();
         for (k, _) in sub.props_iter() {
             match k {
                 Property::SubscriptionIdentifier => return self.unimplemented(client).await,
                 Property::UserProperty => {
-                    warn!(clientid = client.as_ref(), "Received unknown user property")
+                    warn!(
+                        clientid = client.clientid().as_ref(),
+                        "Received unknown user property"
+                    )
                 }
                 _ => error!(
                     "Internal Error: {:?} should not be part of publish packet",
@@ -174,7 +167,7 @@ impl Dispatcher {
                 flags |= SubscriptionFlags::RETAIN_AS_PUBLISHED;
             }
             self.topics
-                .subscribe(client.clone(), topic.clone(), qos, flags)
+                .subscribe(client.clientid().clone(), topic.clone(), qos, flags)
                 .await;
             match qos {
                 QoS::QoS0 => suback.add_reason_code(SubAckReasonCode::GrantedQoS0),
@@ -183,23 +176,31 @@ impl Dispatcher {
             }
         }
 
-        let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client) {
-            if c.send(suback.build()).is_err() {
-                error!(clientid = client.as_ref(), "Internal Error: tx closed");
-            }
+        if client.send(suback.build()).is_err() {
+            trace!(
+                clientid = client.clientid().as_ref(),
+                "client shutdown: tx closed"
+            );
         }
         Ok(())
     }
-    async fn process_packet(
-        &mut self,
-        client: Arc<str>,
-        packet: Packet,
-    ) -> Result<(), ServerError> {
+    async fn process_packet(&self, client: &Client, packet: Packet) -> Result<(), ServerError> {
+        // this lock keeps the session of the sender in place until its packet is processed
+        let clients = self.clients.read().await;
+        match clients.get(client.clientid()) {
+            Some(c) if c.same_session(client) => (),
+            _ => {
+                warn!(
+                    clientid = client.clientid().as_ref(),
+                    "Client Prematurely shutdown before its packet could be processed"
+                );
+                return Ok(());
+            }
+        }
         match packet {
-            Packet::Publish(publish) => self.process_publish(&client, publish).await,
-            Packet::Subscribe(sub) => self.process_subscribe(&client, sub).await,
-            _ => self.unimplemented(&client).await,
+            Packet::Publish(publish) => self.process_publish(&clients, client, publish).await,
+            Packet::Subscribe(sub) => self.process_subscribe(client, sub).await,
+            _ => self.unimplemented(client).await,
         }
     }
     async fn process_forever(mut self) {
@@ -211,11 +212,9 @@ impl Dispatcher {
                     break;
                 }
             };
-            if let Err(e) = self
-                .process_packet(packetinfo.senderid.clone(), packetinfo.packet)
-                .await
-            {
-                error!(clientid = &*packetinfo.senderid, "{:?}", e);
+            let client = packetinfo.sender;
+            if let Err(e) = self.process_packet(&client, packetinfo.packet).await {
+                error!(clientid = client.clientid().as_ref(), "{:?}", e);
             }
         }
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 093e415..6155a5c 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -38,10 +38,15 @@ impl MqttServer {
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
         let clients = Arc::new(RwLock::new(HashMap::new()));
-        let mut workers =
-            ClientManager::start(cfg.clone(), clients.clone(), shutdown.clone(), incoming_tx)
-                .await?;
         let topics = Arc::new(TopicsTable::new());
+        let mut workers = ClientManager::start(
+            cfg.clone(),
+            clients.clone(),
+            shutdown.clone(),
+            incoming_tx,
+            topics.clone(),
+        )
+        .await?;
         let dispatcher = Dispatcher::new(
             topics.clone(),
             cfg.clone(),
diff --git a/server-lib/src/packetinfo.rs b/server-lib/src/packetinfo.rs
index 6c7f51a..d880e39 100644
--- a/server-lib/src/packetinfo.rs
+++ b/server-lib/src/packetinfo.rs
@@ -1,7 +1,7 @@
+use crate::clients::Client;
 use apiformes_packet::prelude::Packet;
-use std::sync::Arc;
 
 pub struct PacketInfo {
-    pub senderid: Arc<str>,
+    pub sender: Client,
     pub packet: Packet,
 }
-- 
2.43.0


From f3fe347a5c001d4b4a115eabe28a559712ddb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 05/30] fix: make the shutdown signal reach every task

---
 server-lib/src/clients/clientworker.rs |  2 +-
 server-lib/src/clients/mod.rs          |  2 +-
 server-lib/src/clients/mqttclient.rs   |  7 +++++--
 server-lib/src/clients/noiseclient.rs  | 12 +++++++++---
 server-lib/src/dispatcher.rs           |  2 +-
 server-lib/src/lib.rs                  |  2 ++
 6 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index a68ade4..716c17b 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -85,7 +85,7 @@ impl ClientWorker {
         let killme = self.internals.killme.clone();
         tokio::select! {
             _ = killme.notified() => (),
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => (),
         }
         self.internals
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 1a96ea1..656de86 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -154,7 +154,7 @@ impl ClientManager {
     async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => ()
         };
         while self.workers.next().await.is_some() {
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index caab21c..87ef0bb 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -125,7 +125,7 @@ impl MqttListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -165,7 +165,10 @@ async fn _connect_client(
     let keep_alive = client.cfg().keep_alive as u64;
 
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        }
         v = client.connect() => v.into(),
         _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 5c74520..1238304 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -124,7 +124,7 @@ impl NoiseListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -176,7 +176,10 @@ async fn _connect_client(
         .unwrap();
 
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        }
         v = handshake(&mut stream, &mut responder) => v.into(),
         _ = sleep(Duration::new(keep_alive * 3, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
@@ -202,7 +205,10 @@ async fn _connect_client(
         incoming,
     );
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        }
         v = client.connect() => v.into(),
         _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index e4d1005..224b14b 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -222,7 +222,7 @@ impl Dispatcher {
     async fn run(self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => (),
         }
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 6155a5c..d6970ae 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -67,6 +67,8 @@ impl MqttServer {
     #[instrument(name = "MqttServer::shutdown", skip(self))]
     pub async fn shutdown(self) {
         // TODO keep track of https://github.com/tokio-rs/tokio/issues/3903
+        // every task waiting for the shutdown notifies the next one, that way none of them is
+        // missed, including the ones that start to wait later on
         self.shutdown.notify_one();
         for worker in self.workers {
             if let Err(e) = worker.await {
-- 
2.43.0


From a8a1f9d3942a01d9e08f1f8c54c6069f5a622a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 06/30] fix: do not go on with a connection when the server is
 shutting down

---
 server-lib/src/clients/mqttclient.rs  |  5 ++++-
 server-lib/src/clients/noiseclient.rs | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 87ef0bb..5dfdbce 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -175,7 +175,10 @@ async fn _connect_client(
     let saddr = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr,
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 1238304..816ef84 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -186,7 +186,10 @@ async fn _connect_client(
     let saddr_str = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
@@ -214,7 +217,10 @@ async fn _connect_client(
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
-- 
2.43.0


From 5e9d3ca582780ffdd0ac3de76af90dfd2745e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 07/30] fix: read boolean properties as booleans

---
 packet/src/props.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 0c5ba87..338a288 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -400,10 +400,9 @@ enum MqttPropValueInner {
 pub struct MqttPropValue(MqttPropValueInner);
 impl MqttPropValue {
     pub fn into_bool(&self) -> Option<bool> {
-        if let MqttPropValueInner::Byte(i) = &self.0 {
-            Some(i.inner() == 1)
-        } else {
-            None
+        match &self.0 {
+            MqttPropValueInner::Bool(i) | MqttPropValueInner::Byte(i) => Some(i.inner() == 1),
+            _ => None,
         }
     }
     pub fn into_u8(&self) -> Option<u8> {
-- 
2.43.0


From 2c7c3890089f60dfeeabb42c0f921313a3f0e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 08/30] fix: do not panic on a user property in connect

---
 server-lib/src/clients/clientworker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 716c17b..1079338 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -158,7 +158,7 @@ impl ClientWorker {
                 }
                 Property::UserProperty => warn!(
                     "Client is using strange property in connect packet {:?}",
-                    v.into_str_pair().unwrap()
+                    v.into_str()
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-- 
2.43.0


From 3df19cb1db84f3574db2eb7f906a8ab81453549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 09/30] fix: respect the maximum packet size of clients

---
 server-lib/src/cfg.rs                  |  3 +++
 server-lib/src/clients/clientworker.rs | 35 +++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 493e12e..eb77004 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -5,3 +5,6 @@ pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
 #[cfg(feature = "noise")]
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
+/// a noise message is at most 65535 bytes, 16 of them are the authentication tag
+#[cfg(feature = "noise")]
+pub const MAX_NOISE_PAYLOAD: usize = 65535 - 16;
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 1079338..9e31b7b 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -32,6 +32,14 @@ impl Connection {
             Connection::Noise(n) => n.send(p).await,
         }
     }
+    /// the biggest packet that the transport can carry
+    fn max_send_size(&self) -> usize {
+        match self {
+            Connection::Mqtt(_) => usize::MAX,
+            #[cfg(feature = "noise")]
+            Connection::Noise(_) => MAX_NOISE_PAYLOAD,
+        }
+    }
     pub fn is_encrypted(&self) -> bool {
         match self {
             Connection::Mqtt(_) => false,
@@ -50,6 +58,27 @@ pub(super) struct ClientWorker {
 }
 
 impl ClientWorker {
+    /// Packets above the maximum size that the client accepts are never sent. A publish is dropped
+    /// as if it was delivered, nothing else can be dropped without the client noticing.
+    async fn send(&mut self, packet: &Packet) -> Result<(), ServerError> {
+        let limit = self
+            .conn
+            .max_send_size()
+            .min(self.internals.max_packet_size as usize);
+        if packet.frame_len() <= limit {
+            return self.conn.send(packet).await;
+        }
+        match packet {
+            Packet::Publish(_) => {
+                warn!(
+                    clientid = &*self.internals.clientid,
+                    "Dropping a publish packet which is too big for the client"
+                );
+                Ok(())
+            }
+            _ => Err(ServerError::MaxPacketSizeExceeded),
+        }
+    }
     async fn listen(&mut self) -> Result<(), ServerError> {
         tokio::select! {
             p = self.conn.recv() => {
@@ -63,7 +92,7 @@ impl ClientWorker {
             }
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
-                self.conn.send(&packet).await?;
+                self.send(&packet).await?;
             }
         }
         Ok(())
@@ -116,7 +145,7 @@ impl ClientWorker {
     async fn unimplemented(&mut self) -> Result<(), ServerError> {
         let mut connack = ConnAck::new();
         connack.set_reason_code(ConnAckReasonCode::ImplementationSpecificError);
-        self.conn.send(&connack.build()).await?;
+        self.send(&connack.build()).await?;
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
     #[instrument(name = "ClientWorker::process_connect", skip_all)]
@@ -241,7 +270,7 @@ impl ClientWorker {
                 MqttPropValue::new_u16(self.cfg.keep_alive),
             )
             .unwrap();
-        self.conn.send(&connack.build()).await
+        self.send(&connack.build()).await
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From 71494ef276d3619eaaeafb70085264b1bcbd1295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 10/30] fix: do not parse past the end of a decrypted noise
 message

---
 server-lib/src/clients/noiseclient.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 816ef84..76b18bc 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -52,7 +52,8 @@ impl NoiseClient {
             .ok_or_else(|| ServerError::Misc("Client disconnected".to_owned()))??;
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
-        self.crypto.read_message(&frame[..], &mut message)?;
+        let size = self.crypto.read_message(&frame[..], &mut message)?;
+        message.truncate(size);
 
         let mut buf: &[u8] = message.as_ref();
         match Packet::from_bytes(&mut buf) {
-- 
2.43.0


From d86482069ea42c2a35d9d0b655e599246e696591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 11/30] fix: enforce the maximum packet size on encrypted
 connections

---
 server-lib/src/clients/noiseclient.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 76b18bc..3c0f730 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -23,6 +23,7 @@ pub struct NoiseClient {
     stream: Framed<TcpStream, LengthDelimitedCodec>,
     saddr: SocketAddr,
     crypto: TransportState,
+    max_packet_size: u32,
 }
 
 impl fmt::Debug for NoiseClient {
@@ -36,11 +37,13 @@ impl NoiseClient {
         stream: Framed<TcpStream, LengthDelimitedCodec>,
         saddr: SocketAddr,
         crypto: TransportState,
+        max_packet_size: u32,
     ) -> Self {
         NoiseClient {
             stream,
             saddr,
             crypto,
+            max_packet_size,
         }
     }
     pub async fn recv(&mut self) -> Result<Packet, ServerError> {
@@ -54,6 +57,9 @@ impl NoiseClient {
         let mut message = vec![0; frame.remaining()];
         let size = self.crypto.read_message(&frame[..], &mut message)?;
         message.truncate(size);
+        if size > self.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
 
         let mut buf: &[u8] = message.as_ref();
         match Packet::from_bytes(&mut buf) {
@@ -201,7 +207,7 @@ async fn _connect_client(
     }
     let transport = responder.into_transport_mode().unwrap();
 
-    let nc = NoiseClient::new(stream, saddr, transport);
+    let nc = NoiseClient::new(stream, saddr, transport, cfg.max_packet_size);
     let mut client = ClientWorker::new(
         Connection::Noise(Box::new(nc)),
         cfg,
-- 
2.43.0


From 639cb103d35a54713a4580240c2a9c779a5329e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 12/30] fix: close the connection after sending disconnect

---
 server-lib/src/clients/clientworker.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 9e31b7b..790de46 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -93,6 +93,9 @@ impl ClientWorker {
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
                 self.send(&packet).await?;
+                if let Packet::Disconnect(_) = packet {
+                    return Err(ServerError::Misc("disconnected by the server".to_owned()));
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 45a3bf16bb2e96e3455b837e6cdab72f9c899d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 13/30] fix: do not overflow the stack on topics with many
 levels

---
 server-lib/src/topics.rs | 90 +++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 38 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 3c0f25c..e8c0ae8 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -1,5 +1,4 @@
 use apiformes_packet::prelude::*;
-use async_recursion::async_recursion;
 use bitflags::bitflags;
 use futures::future::BoxFuture;
 use std::collections::{hash_map::Entry, HashMap, HashSet};
@@ -49,7 +48,7 @@ struct BlockInner {
     subscribers: RwLock<HashMap<ClientId, SubscriptionInfo>>,
     // the `+` wild card is stored in here
     // TODO lazy static the `+` subtopic
-    sub_blocks: HashMap<SubTopic, Block>,
+    sub_blocks: HashMap<SubTopic, Arc<Block>>,
 }
 
 impl Default for BlockInner {
@@ -138,54 +137,57 @@ impl Block {
         self.inner.write().await
     }
 
-    #[async_recursion]
+    // topics may have tens of thousands of levels, so neither of these functions is recursive
     async fn visit<'a, S>(
-        &self,
-        mut sections: S,
+        self: &Arc<Self>,
+        sections: S,
         create: bool,
-        run: impl FnOnce(&Block, bool) -> BoxFuture<()> + Send + 'async_recursion,
+        run: impl FnOnce(&Block, bool) -> BoxFuture<()> + Send,
     ) where
         S: Iterator<Item = &'a str> + Send,
     {
-        let x = sections.next();
-        trace!("Visiting {:?}", x);
-        match x {
-            Some("#") => run(self, true).await,
-            None => run(self, false).await,
-            Some(section) => {
-                if create {
-                    self.create_if_not_existing(section).await;
-                }
-                let raii = self.read().await;
-                if let Some(sub_block) = raii.sub_blocks.get(section) {
-                    sub_block.visit(sections, create, run).await;
-                }
+        let mut block = self.clone();
+        for section in sections {
+            trace!("Visiting {:?}", section);
+            if section == "#" {
+                return run(&block, true).await;
+            }
+            if create {
+                block.create_if_not_existing(section).await;
+            }
+            let sub_block = block.read().await.sub_blocks.get(section).cloned();
+            match sub_block {
+                Some(sub_block) => block = sub_block,
+                None => return,
             }
         }
+        run(&block, false).await
     }
 
-    #[async_recursion]
     async fn collect_subs<'a, S>(
-        &self,
+        self: &Arc<Self>,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
-        mut sections: S,
+        sections: S,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
-        let raii = self.read().await;
-        raii.collect_hash_wildcard(subs).await;
-        if let Some(section) = sections.next() {
-            // somewhere in the middle
-            trace!("in collect_subs, section = `{}`", section);
-            if let Some(sub_block) = raii.sub_blocks.get("+") {
-                sub_block.collect_subs(subs, sections.clone()).await;
-            }
-            if let Some(sub_block) = raii.sub_blocks.get(section) {
-                sub_block.collect_subs(subs, sections).await;
+        let mut pending = vec![(self.clone(), sections)];
+        while let Some((block, mut sections)) = pending.pop() {
+            let raii = block.read().await;
+            raii.collect_hash_wildcard(subs).await;
+            if let Some(section) = sections.next() {
+                // somewhere in the middle
+                trace!("in collect_subs, section = `{}`", section);
+                if let Some(sub_block) = raii.sub_blocks.get("+") {
+                    pending.push((sub_block.clone(), sections.clone()));
+                }
+                if let Some(sub_block) = raii.sub_blocks.get(section) {
+                    pending.push((sub_block.clone(), sections));
+                }
+            } else {
+                // reached the end
+                raii.collect_subscribers(subs).await;
             }
-        } else {
-            // reached the end
-            raii.collect_subscribers(subs).await;
         }
     }
 
@@ -194,7 +196,7 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Block::new();
+            let block = Arc::new(Block::new());
             self.write()
                 .await
                 .sub_blocks
@@ -203,13 +205,25 @@ impl Block {
     }
 }
 
+impl Drop for Block {
+    fn drop(&mut self) {
+        // dropping the blocks one inside the other would need a stack as deep as the topics
+        let mut pending: Vec<_> = self.inner.get_mut().sub_blocks.drain().collect();
+        while let Some((_, block)) = pending.pop() {
+            if let Ok(mut block) = Arc::try_unwrap(block) {
+                pending.extend(block.inner.get_mut().sub_blocks.drain());
+            }
+        }
+    }
+}
+
 /// There is important invariant to maintain here, the one and only use of
 /// `reverse_index` is when client disconnects and we want to remove all his
 /// subscriptions, we need to guarantee that for all entries in `reverse_index`
 /// there must always be equivalent entry in `topics`. As such, when we insert
 /// we insert into `topics` first but removal is done in reverse order
 pub struct TopicsTable {
-    root_block: Block,
+    root_block: Arc<Block>,
     reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,
     //TODO we can have slab allocator for Block here
     // and another slab allocator for subscription info
@@ -229,7 +243,7 @@ impl Default for TopicsTable {
 impl TopicsTable {
     pub fn new() -> Self {
         TopicsTable {
-            root_block: Block::new(),
+            root_block: Arc::new(Block::new()),
             reverse_index: RwLock::new(HashMap::new()),
         }
     }
-- 
2.43.0


From de8a3088d275fd8c6e70720b29ffab4caf4baf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 14/30] fix: do not replace a topic block created by a
 concurrent subscription

---
 server-lib/src/topics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index e8c0ae8..8bdfbea 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -196,11 +196,12 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Arc::new(Block::new());
+            // somebody else may have created it by the time we get the lock
             self.write()
                 .await
                 .sub_blocks
-                .insert(Arc::from(subtopic), block);
+                .entry(Arc::from(subtopic))
+                .or_insert_with(|| Arc::new(Block::new()));
         }
     }
 }
-- 
2.43.0


From cf3240a8cf4bb9d89d7f6ca72b8e678b6d967ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 15/30] fix: combine the options of overlapping subscriptions

---
 server-lib/src/topics.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 8bdfbea..07e0ad1 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -25,6 +25,14 @@ impl SubscriptionInfo {
     fn new(qos: QoS, flags: SubscriptionFlags) -> Self {
         SubscriptionInfo { qos, flags }
     }
+    /// a client with overlapping subscriptions gets the message once, with the maximum qos, and
+    /// that message is held back as local only if none of its subscriptions wants it
+    fn merge(&mut self, other: &SubscriptionInfo) {
+        if self.qos < other.qos {
+            self.qos = other.qos;
+        }
+        self.flags &= other.flags;
+    }
 }
 
 /// This Block structure is designed to have minimal concurrency overhead,
@@ -88,9 +96,7 @@ impl BlockInner {
                     e.insert(info.clone());
                 }
                 Entry::Occupied(mut e) => {
-                    if e.get().qos < info.qos {
-                        e.insert(info.clone());
-                    }
+                    e.get_mut().merge(info);
                 }
             }
         }
@@ -107,9 +113,7 @@ impl BlockInner {
                     e.insert(info.clone());
                 }
                 Entry::Occupied(mut e) => {
-                    if e.get().qos < info.qos {
-                        e.insert(info.clone());
-                    }
+                    e.get_mut().merge(info);
                 }
             }
         }
-- 
2.43.0


From 56c7ba264be2e0df5904f3919e2a9e18c3342b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 16/30] fix: leading wildcards must not match topics that start
 with $

---
 server-lib/src/topics.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 07e0ad1..504e305 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -172,21 +172,27 @@ impl Block {
         self: &Arc<Self>,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
         sections: S,
+        match_wildcards: bool,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
-        let mut pending = vec![(self.clone(), sections)];
-        while let Some((block, mut sections)) = pending.pop() {
+        // `match_wildcards` is only about the wildcards at this very level
+        let mut pending = vec![(self.clone(), sections, match_wildcards)];
+        while let Some((block, mut sections, match_wildcards)) = pending.pop() {
             let raii = block.read().await;
-            raii.collect_hash_wildcard(subs).await;
+            if match_wildcards {
+                raii.collect_hash_wildcard(subs).await;
+            }
             if let Some(section) = sections.next() {
                 // somewhere in the middle
                 trace!("in collect_subs, section = `{}`", section);
-                if let Some(sub_block) = raii.sub_blocks.get("+") {
-                    pending.push((sub_block.clone(), sections.clone()));
+                if match_wildcards {
+                    if let Some(sub_block) = raii.sub_blocks.get("+") {
+                        pending.push((sub_block.clone(), sections.clone(), true));
+                    }
                 }
                 if let Some(sub_block) = raii.sub_blocks.get(section) {
-                    pending.push((sub_block.clone(), sections));
+                    pending.push((sub_block.clone(), sections, true));
                 }
             } else {
                 // reached the end
@@ -371,7 +377,11 @@ impl TopicsTable {
             "collected_sections {:?}",
             sections.clone().collect::<Vec<_>>()
         );
-        self.root_block.collect_subs(&mut subs, sections).await;
+        // filters that start with a wildcard must not match topics that start with $
+        let match_wildcards = !topic.starts_with('$');
+        self.root_block
+            .collect_subs(&mut subs, sections, match_wildcards)
+            .await;
         subs
     }
 }
-- 
2.43.0


From 944a3cc907666057e3babe3c816a3e42e9d04df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 17/30] fix: do not return from unsubscribe before the
 subscription is gone

---
 server-lib/src/topics.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 504e305..e9cd39d 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -332,7 +332,13 @@ impl TopicsTable {
         self.topics_add(clientid.clone(), &topic, qos, flags).await;
         self.reverse_index_add(clientid, topic).await;
     }
-    async fn reverse_index_remove(&self, clientid: &str, topic: &str) {
+    // returns the lock so that nobody is told that the subscription is gone while it is still
+    // being removed from `topics`
+    async fn reverse_index_remove(
+        &self,
+        clientid: &str,
+        topic: &str,
+    ) -> RwLockWriteGuard<'_, HashMap<ClientId, HashSet<SubTopic>>> {
         let mut raii = self.reverse_index.write().await;
         let mut cleanup = false;
         if let Some(set) = raii.get_mut(clientid) {
@@ -342,6 +348,7 @@ impl TopicsTable {
         if cleanup {
             raii.remove(clientid);
         }
+        raii
     }
     //TODO replace Arc<str> with &str
     async fn topic_remove(&self, clientid: Arc<str>, topic: &str) {
@@ -357,14 +364,16 @@ impl TopicsTable {
         .await
     }
     pub async fn unsubscribe(&self, clientid: Arc<str>, topic: &str) {
-        self.reverse_index_remove(&clientid, topic).await;
+        let _raii = self.reverse_index_remove(&clientid, topic).await;
         self.topic_remove(clientid, topic).await;
     }
     pub async fn reverse_index_remove_all(&self, clientid: &str) -> Option<HashSet<SubTopic>> {
         self.reverse_index.write().await.remove(clientid)
     }
     pub async fn unsubscribe_all(&self, clientid: Arc<str>) {
-        if let Some(topics) = self.reverse_index_remove_all(&clientid).await {
+        // the lock is held to the end for the same reason as in reverse_index_remove
+        let mut raii = self.reverse_index.write().await;
+        if let Some(topics) = raii.remove(&clientid) {
             for topic in topics {
                 self.topic_remove(clientid.clone(), &topic).await
             }
-- 
2.43.0


From 1749da34a4d5fb7deb0184ad5ea7801e32cd4050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 18/30] fix: do not leave a listener behind when the server
 fails to start

---
 server-lib/src/clients/mod.rs | 54 ++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 656de86..22c80d7 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -14,7 +14,7 @@ pub use mqttclient::MqttListener;
 #[cfg(feature = "noise")]
 pub use noiseclient::NoiseListener;
 use std::collections::HashMap;
-use std::{net::SocketAddr, sync::Arc};
+use std::sync::Arc;
 use tokio::{
     net::TcpListener,
     sync::{
@@ -61,29 +61,39 @@ impl ClientManager {
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
         let (tx, rx) = unbounded_channel();
 
+        // bind everything before starting anything, otherwise failing to bind one of the addresses
+        // leaves a listener behind which nobody can stop
+        let mqtt_listener = match cfg.mqtt_socketaddr {
+            Some(saddr) => Some(TcpListener::bind(&saddr).await?),
+            None => None,
+        };
+        #[cfg(feature = "noise")]
+        let noise_listener = match cfg.noise_socketaddr {
+            Some(saddr) => Some(TcpListener::bind(&saddr).await?),
+            None => None,
+        };
+
         let mut workers = Vec::new();
-        if let Some(saddr) = cfg.mqtt_socketaddr {
+        if let Some(listener) = mqtt_listener {
             let handle = ClientManager::incomming_mqtt_listener(
-                &saddr,
+                listener,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming.clone(),
-            )
-            .await?;
+            );
             workers.push(handle)
         }
 
         #[cfg(feature = "noise")]
-        if let Some(saddr) = cfg.noise_socketaddr {
+        if let Some(listener) = noise_listener {
             let handle = ClientManager::incomming_noise_listener(
-                &saddr,
+                listener,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming,
-            )
-            .await?;
+            );
             workers.push(handle)
         }
 
@@ -165,44 +175,42 @@ impl ClientManager {
         info!("Starting clients manager");
         tokio::spawn(async move { self.run().await })
     }
-    async fn incomming_mqtt_listener(
-        saddr: &SocketAddr,
+    fn incomming_mqtt_listener(
+        listener: TcpListener,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
-            SocketAddr = &*format!("{}", saddr),
+            SocketAddr = &*format!("{:?}", listener.local_addr()),
             "Starting listener for incoming unencrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             MqttListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 
     #[cfg(feature = "noise")]
-    async fn incomming_noise_listener(
-        saddr: &SocketAddr,
+    fn incomming_noise_listener(
+        listener: TcpListener,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
-            SocketAddr = &*format!("{}", saddr),
+            SocketAddr = &*format!("{:?}", listener.local_addr()),
             "Starting listener for incoming encrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             NoiseListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 }
-- 
2.43.0


From 249a652a624b3b5efe2dac5354a6a6abf17bc05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 19/30] fix: reject overlong variable byte integers

---
 packet/src/data.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index d6ecbcc..b436f9f 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -245,13 +245,17 @@ impl MqttDeserialize for MqttVariableBytesInt {
             remaining -= 1;
             let encoded_byte = buf.get_u8() as u32;
             value += (encoded_byte & 127) << multiplier;
-            if multiplier > 21 {
+            // the value must use as few bytes as possible
+            if encoded_byte == 0 && multiplier > 0 {
                 return Err(DataParseError::BadMqttVariableBytesInt);
             }
-            multiplier += 7;
             if encoded_byte & 0x80 == 0 {
                 break;
             }
+            multiplier += 7;
+            if multiplier > 21 {
+                return Err(DataParseError::BadMqttVariableBytesInt);
+            }
         }
         Ok(MqttVariableBytesInt { i: value })
     }
-- 
2.43.0


From 19c34857a9f3fd0676d0b0e32cb52b8437a18e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 20/30] fix: read strings that span over multiple chunks

---
 packet/src/data.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index b436f9f..7f92ff4 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -165,12 +165,10 @@ impl MqttDeserialize for MqttUtf8String {
                 available: buf.remaining(),
             });
         }
-        let b = buf.take(len);
-        let bytes = b.chunk();
-        let s = std::str::from_utf8(bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
-        let ret = MqttUtf8String::new(Arc::from(s));
-        buf.advance(len);
-        ret
+        // the string may span over multiple chunks
+        let bytes = buf.copy_to_bytes(len);
+        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
+        MqttUtf8String::new(Arc::from(s))
     }
 }
 
-- 
2.43.0


From ce54917e89c1fbdb49dd59a45afd560e371e408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 21/30] fix: decode packets within the limits of their frame

---
 packet/src/packet.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/packet/src/packet.rs b/packet/src/packet.rs
index f17cb04..d1270a8 100644
--- a/packet/src/packet.rs
+++ b/packet/src/packet.rs
@@ -1,8 +1,9 @@
 use super::{
-    auth::Auth, connack::ConnAck, connect::Connect, data::MqttOneBytesInt, disconnect::Disconnect,
-    error::DataParseError, helpers::bits_u8, packet_type::PacketType, parsable::*, ping::Ping,
-    puback::PubAck, pubcomp::PubComp, publish::Publish, pubrec::PubRec, pubrel::PubRel,
-    suback::SubAck, subscribe::Subscribe, unsuback::UnsubAck, unsubscribe::Unsubscribe,
+    auth::Auth, connack::ConnAck, connect::Connect, data::MqttOneBytesInt,
+    data::MqttVariableBytesInt, disconnect::Disconnect, error::DataParseError, helpers::bits_u8,
+    packet_type::PacketType, parsable::*, ping::Ping, puback::PubAck, pubcomp::PubComp,
+    publish::Publish, pubrec::PubRec, pubrel::PubRel, suback::SubAck, subscribe::Subscribe,
+    unsuback::UnsubAck, unsubscribe::Unsubscribe,
 };
 use bytes::{Buf, BufMut};
 
@@ -170,6 +171,33 @@ impl MqttDeserialize for Packet {
         }
         let byte1 = buf.get_u8();
         let packet_type = PacketType::parse(byte1)?;
+        let length = MqttVariableBytesInt::deserialize(buf)?;
+        let needed = length.inner() as usize;
+        if buf.remaining() < needed {
+            return Err(DataParseError::InsufficientBuffer {
+                needed,
+                available: buf.remaining(),
+            });
+        }
+        // the length is part of every packet
+        let mut header = Vec::with_capacity(length.size());
+        length.serialize(&mut header);
+        let mut frame = (&header[..]).chain(buf.take(needed));
+        // all the packet is here, so running out of bytes, or not using all of them, is an error
+        // which can't be solved by waiting for more
+        match Packet::deserialize_frame(byte1, packet_type, &mut frame) {
+            Ok(_) if frame.has_remaining() => Err(DataParseError::BadPacketType),
+            Err(DataParseError::InsufficientBuffer { .. }) => Err(DataParseError::BadPacketType),
+            res => res,
+        }
+    }
+}
+impl Packet {
+    fn deserialize_frame<T: Buf>(
+        byte1: u8,
+        packet_type: PacketType,
+        buf: &mut T,
+    ) -> Result<Self, DataParseError> {
         match packet_type {
             PacketType::Reserved => Err(DataParseError::BadPacketType),
             PacketType::Connect => Ok(Packet::Connect(Connect::deserialize(buf)?)),
-- 
2.43.0


From 8629f1e4fed1f63b43ff7822fe00e80e1ff1f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 22/30] fix: remove the parts of the topics table that serve
 nobody anymore

Every filter that was ever subscribed to left its levels behind, so that a
long-lived broker grew with each new filter until it ran out of memory.
---
 server-lib/src/topics.rs | 45 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index e9cd39d..582c4de 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -201,6 +201,42 @@ impl Block {
         }
     }
 
+    async fn is_empty(&self) -> bool {
+        let raii = self.read().await;
+        raii.sub_blocks.is_empty()
+            && raii.subscribers.read().await.is_empty()
+            && raii.hash_wildcard.read().await.is_empty()
+    }
+
+    // removes the blocks on the way to this topic that serve nobody anymore, nobody may be adding
+    // blocks or subscribers meanwhile
+    async fn prune<'a, S>(self: &Arc<Self>, sections: S)
+    where
+        S: Iterator<Item = &'a str> + Send,
+    {
+        let mut block = self.clone();
+        let mut path = Vec::new();
+        for section in sections {
+            if section == "#" {
+                break;
+            }
+            let sub_block = block.read().await.sub_blocks.get(section).cloned();
+            match sub_block {
+                Some(sub_block) => {
+                    path.push((std::mem::replace(&mut block, sub_block), section));
+                }
+                None => break,
+            }
+        }
+        while let Some((parent, section)) = path.pop() {
+            if !block.is_empty().await {
+                break;
+            }
+            parent.write().await.sub_blocks.remove(section);
+            block = parent;
+        }
+    }
+
     async fn contains_subtopic(&self, subtopic: &str) -> bool {
         self.read().await.sub_blocks.contains_key(subtopic)
     }
@@ -236,6 +272,9 @@ impl Drop for Block {
 pub struct TopicsTable {
     root_block: Arc<Block>,
     reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,
+    // held for writing while empty blocks are removed, as whoever adds a subscription must not find
+    // itself in a block that is not part of the tree anymore
+    growing: RwLock<()>,
     //TODO we can have slab allocator for Block here
     // and another slab allocator for subscription info
     // but first to make sure that this is not just
@@ -256,6 +295,7 @@ impl TopicsTable {
         TopicsTable {
             root_block: Arc::new(Block::new()),
             reverse_index: RwLock::new(HashMap::new()),
+            growing: RwLock::new(()),
         }
     }
     fn topic_to_subtopics<'a>(&self, topic: &'a str) -> impl Iterator<Item = &'a str> + Clone {
@@ -292,6 +332,7 @@ impl TopicsTable {
         qos: QoS,
         flags: SubscriptionFlags,
     ) {
+        let _raii = self.growing.read().await;
         self.visit(topic, true, |block: &Block, is_hash: bool| {
             Box::pin(async move {
                 if is_hash {
@@ -361,7 +402,9 @@ impl TopicsTable {
                 }
             })
         })
-        .await
+        .await;
+        let _raii = self.growing.write().await;
+        self.root_block.prune(self.topic_to_subtopics(topic)).await;
     }
     pub async fn unsubscribe(&self, clientid: Arc<str>, topic: &str) {
         let _raii = self.reverse_index_remove(&clientid, topic).await;
-- 
2.43.0


From 1b114e07658d477fe48efe132d5abf1ed659f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 23/30] fix: a refused user name or password leaves the CONNECT
 as it was

The flag was set before the value was validated, so a CONNECT whose caller went
on after the error was encoded with the flag and without the field.
---
 packet/src/connect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index ee5ce91..6da27e0 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -212,16 +212,16 @@ impl Connect {
         self.username.as_ref().map(|s| s.inner())
     }
     pub fn set_username(&mut self, username: Arc<str>) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::USERNAME;
         self.username = Some(MqttUtf8String::new(username)?);
+        self.flags |= ConnectFlags::USERNAME;
         Ok(())
     }
     pub fn password(&self) -> Option<&Bytes> {
         self.password.as_ref().map(|p| p.inner())
     }
     pub fn set_password<T: Buf>(&mut self, password: T) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::PASSWORD;
         self.password = Some(MqttBinaryData::new(password)?);
+        self.flags |= ConnectFlags::PASSWORD;
         Ok(())
     }
     pub fn keep_alive(&self) -> u16 {
-- 
2.43.0


From 16c439007bf62e7b990c2e83b64f8cd49079549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 24/30] fix: a PUBLISH set back to QoS 0 drops its packet
 identifier

It was kept and encoded, so that the receiver read it as the properties.
---
 packet/src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/publish.rs b/packet/src/publish.rs
index 81516e6..69b03f1 100644
--- a/packet/src/publish.rs
+++ b/packet/src/publish.rs
@@ -124,6 +124,10 @@ impl Publish {
     pub fn set_qos(&mut self, qos: QoS) {
         self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;
         self.flags |= qos.into();
+        // there is no packet identifier in a PUBLISH with QoS 0
+        if self.qos() == QoS::QoS0 {
+            self.packet_identifier = None;
+        }
     }
     pub fn qos(&self) -> QoS {
         // why unwrap is justified here,
-- 
2.43.0


From e0d56ce0256a1cc824494b0e4214718aba39f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 25/30] fix: a refused insert leaves the property list as it
 was

A second value for a property that may be there once was refused after it had
replaced the first.
---
 packet/src/props.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 338a288..c41eed0 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -56,6 +56,10 @@ impl Properties {
         if value.prop_type() != prop_type {
             return Err(DataParseError::BadProperty);
         }
+        // refuse before anything is changed
+        if !multiple && self.props.contains_key(&key) {
+            return Err(DataParseError::BadProperty);
+        }
         self.valid &= filter;
         match self.unchecked_insert(key, value, multiple) {
             Some(_) => Err(DataParseError::BadProperty),
-- 
2.43.0


From 0e85b45b8ab8a996ad6892c80a6131d6e66bef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 26/30] fix: the benchmark client ends when the broker closes
 the connection

---
 bm/src/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bm/src/client.rs b/bm/src/client.rs
index 859fd2f..3134878 100644
--- a/bm/src/client.rs
+++ b/bm/src/client.rs
@@ -1,7 +1,7 @@
 use apiformes_packet::prelude::*;
 use bytes::{Buf, BytesMut};
 use std::io::Cursor;
-use std::io::Result;
+use std::io::{ErrorKind, Result};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::net::{TcpStream, ToSocketAddrs};
 
@@ -30,7 +30,11 @@ impl Client {
                 Err(DataParseError::InsufficientBuffer {
                     needed: _,
                     available: _,
-                }) => self.stream.read_buf(&mut self.recv_bytes).await?,
+                }) => {
+                    if self.stream.read_buf(&mut self.recv_bytes).await? == 0 {
+                        return Err(ErrorKind::UnexpectedEof.into());
+                    }
+                }
                 Err(e) => panic!("{:?}", e),
             };
         }
-- 
2.43.0


From 673fade2fc38dfabcad3ef0160513b33539916a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 27/30] fix: the mean arrival rate is a mean over the
 subscribers

---
 bm/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm/src/main.rs b/bm/src/main.rs
index 18834cc..237e0e3 100644
--- a/bm/src/main.rs
+++ b/bm/src/main.rs
@@ -194,7 +194,7 @@ async fn main() {
                     .as_micros() as f64
         })
         .sum::<f64>()
-        / cfg.n_pubs as f64
+        / cfg.n_subs as f64
         * 1000000.0; //because we are doing measurements in micrseconds
 
     let mut aggregate: Vec<_> = subs
-- 
2.43.0


From bf5987afc11373f2acea0bd784c795f27cd205ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 28/30] fix: a benchmark in which nothing is received ends
 without a panic

---
 bm/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm/src/main.rs b/bm/src/main.rs
index 237e0e3..60655cd 100644
--- a/bm/src/main.rs
+++ b/bm/src/main.rs
@@ -211,6 +211,10 @@ async fn main() {
         "Mean arrival rate = {:.2} packets/second/subscriber",
         arrival_rate
     );
+    if aggregate.is_empty() {
+        // without subscribers, publishers or messages there are no trips
+        return;
+    }
     println!("Minimum trip time: {:?}", aggregate[0]);
     println!("Maximum trip time: {:?}", aggregate[aggregate.len() - 1]);
     println!(
-- 
2.43.0


From ed2620818af5fe27ab6cd8651119ae20e6d12b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 29/30] fix: listeners do not spin while accepting connections
 fails

---
 server-lib/src/cfg.rs                 | 4 ++++
 server-lib/src/clients/mqttclient.rs  | 6 +++++-
 server-lib/src/clients/noiseclient.rs | 7 ++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index eb77004..3dfbc42 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -1,8 +1,12 @@
+use std::time::Duration;
+
 pub const MAX_QOS: u8 = 0;
 pub const TOPIC_ALIAS_MAX: u16 = 0;
 pub const WILDCARD_SUB: bool = false;
 pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
+/// how long a listener waits after a failure to accept a connection
+pub const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(50);
 #[cfg(feature = "noise")]
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
 /// a noise message is at most 65535 bytes, 16 of them are the authentication tag
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 5dfdbce..e9ac69f 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -1,5 +1,7 @@
 use super::clientworker::{ClientWorker, Connection};
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    cfg::ACCEPT_RETRY_DELAY, config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo,
+};
 use apiformes_packet::prelude::*;
 use bytes::{Buf, BytesMut};
 use std::io::Cursor;
@@ -118,6 +120,8 @@ impl MqttListener {
         loop {
             if let Err(e) = self.listen().await {
                 error!("Error listening to new connections, {:?}", e);
+                // The failure may last (e.g. when out of file descriptors)
+                sleep(ACCEPT_RETRY_DELAY).await;
             }
         }
     }
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 3c0f730..bf13056 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -1,6 +1,9 @@
 use super::clientworker::{ClientWorker, Connection};
 use crate::{
-    cfg::NOISE_PATTERN, config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo,
+    cfg::{ACCEPT_RETRY_DELAY, NOISE_PATTERN},
+    config::MqttServerConfig,
+    error::ServerError,
+    packetinfo::PacketInfo,
 };
 use apiformes_packet::prelude::*;
 use bytes::{Buf, Bytes, BytesMut};
@@ -124,6 +127,8 @@ impl NoiseListener {
         loop {
             if let Err(e) = self.listen().await {
                 error!("Error listening to new connections, {:?}", e);
+                // The failure may last (e.g. when out of file descriptors)
+                sleep(ACCEPT_RETRY_DELAY).await;
             }
         }
     }
-- 
2.43.0


From 3832f5c3aa9ae545c2e059ba59980dfb759147d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 30/30] fix: an encrypted frame above the size of a noise
 message is refused as soon as its length is known

---
 server-lib/src/cfg.rs                 | 4 +++-
 server-lib/src/clients/noiseclient.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 3dfbc42..604a10d 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -11,4 +11,6 @@ pub const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(50);
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
 /// a noise message is at most 65535 bytes, 16 of them are the authentication tag
 #[cfg(feature = "noise")]
-pub const MAX_NOISE_PAYLOAD: usize = 65535 - 16;
+pub const MAX_NOISE_MESSAGE: usize = 65535;
+#[cfg(feature = "noise")]
+pub const MAX_NOISE_PAYLOAD: usize = MAX_NOISE_MESSAGE - 16;
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index bf13056..a4277a6 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -1,6 +1,6 @@
 use super::clientworker::{ClientWorker, Connection};
 use crate::{
-    cfg::{ACCEPT_RETRY_DELAY, NOISE_PATTERN},
+    cfg::{ACCEPT_RETRY_DELAY, MAX_NOISE_MESSAGE, NOISE_PATTERN},
     config::MqttServerConfig,
     error::ServerError,
     packetinfo::PacketInfo,
@@ -180,7 +180,11 @@ async fn _connect_client(
     incoming: Sender<PacketInfo>,
 ) {
     let keep_alive = cfg.keep_alive as u64;
-    let mut stream = Framed::new(stream, LengthDelimitedCodec::new());
+    // Room for a whole frame is made as soon as its length is known
+    let codec = LengthDelimitedCodec::builder()
+        .max_frame_length(MAX_NOISE_MESSAGE)
+        .new_codec();
+    let mut stream = Framed::new(stream, codec);
 
     let mut responder = snow::Builder::new(NOISE_PATTERN.parse().unwrap())
         .local_private_key(&cfg.private_key[..])
-- 
2.43.0

