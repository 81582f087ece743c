From 5b74836dcffd4c12fc1e33179ee57e06b9642082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 01/41] fix: reject peer messages whose length prefix doesn't
 fit their fields

---
 src/peers/connection/message.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index 2682213..d035059 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -108,6 +108,12 @@ impl Message {
         } else {
             let id = buf[ID_IDX];
             debug!(id);
+
+            if !Self::is_valid_payload_len(id, len - BYTES_IN_LEN_PREFIX) {
+                warn!("message with id {id} can't be {len} bytes long");
+                return None;
+            }
+
             match id {
                 CHOKE_ID => Message::Choke,
                 UNCHOKE_ID => Message::Unchoke,
@@ -143,6 +149,25 @@ impl Message {
         Some(message)
     }
 
+    // the length prefix is under remote peer's control. It must be enough for every field of the message.
+    fn is_valid_payload_len(id: u8, len: usize) -> bool {
+        let expected_len = match id {
+            CHOKE_ID => CHOKE_LEN,
+            UNCHOKE_ID => UNCHOKE_LEN,
+            INTERESTED_ID => INTERESTED_LEN,
+            NOT_INTERESTED_ID => NOT_INTERESTED_LEN,
+            HAVE_ID => HAVE_LEN,
+            REQUEST_ID => REQUEST_LEN,
+            CANCEL_ID => CANCEL_LEN,
+            PORT_ID => PORT_LEN,
+            PIECE_ID => return len >= PIECE_LEN as usize,
+            BITFIELD_ID => return len >= BITFIELD_LEN as usize,
+            _ => return true,
+        };
+
+        len == expected_len as usize
+    }
+
     pub fn into_bytes(self) -> Vec<u8> {
         bincode::DefaultOptions::new()
             .with_big_endian()
-- 
2.43.0


From ad5cc44bab5326d159d0a3d94cb74a056dc19740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 02/41] fix: end peer receive loop when the peer closes or
 announces an oversized message

---
 src/peers/connection/connection_manager.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 1db4517..b2c0d32 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -13,7 +13,7 @@ use tokio::select;
 use tokio::sync::mpsc;
 use tokio::time::{interval, Duration};
 use tracing::log::trace;
-use tracing::{error, instrument, warn};
+use tracing::{debug, error, instrument, warn};
 
 pub const BLOCK_SIZE: usize = 1 << 14;
 pub const DESCRIPTIVE_DATA_SIZE: usize = 1 << 7;
@@ -107,6 +107,10 @@ async fn manager_receiver(
 
     loop {
         data_len += match stream.read(&mut buf[data_start + data_len..]).await {
+            Ok(0) => {
+                debug!("connection was closed by the peer");
+                return;
+            }
             Ok(len) => len,
             Err(e) => {
                 error!(?e);
@@ -117,6 +121,11 @@ async fn manager_receiver(
         while data_len >= BYTES_IN_LEN_PREFIX {
             let message_len = Message::len(&buf[data_start..]) + BYTES_IN_LEN_PREFIX;
 
+            if message_len > buf.len() {
+                error!("message of {message_len} bytes is too large");
+                return;
+            }
+
             if message_len <= data_len {
                 let Some(message) = Message::from_buf(&buf) else {
                     error!("message_len <= data_len but buf can't be deserialize into message");
-- 
2.43.0


From e8f0629006105955c094f75a42b166296bf61b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 03/41] fix: skip only the unsupported peer message instead of
 everything that is buffered

---
 src/peers/connection/connection_manager.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index b2c0d32..28a4e11 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -127,12 +127,7 @@ async fn manager_receiver(
             }
 
             if message_len <= data_len {
-                let Some(message) = Message::from_buf(&buf) else {
-                    error!("message_len <= data_len but buf can't be deserialize into message");
-                    data_start = 0;
-                    data_len = 0;
-                    break;
-                };
+                let message = Message::from_buf(&buf);
 
                 data_start += message_len;
                 data_len -= message_len;
@@ -143,6 +138,11 @@ async fn manager_receiver(
 
                 data_start = 0;
 
+                let Some(message) = message else {
+                    error!("message_len <= data_len but buf can't be deserialize into message");
+                    continue;
+                };
+
                 handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
             } else {
                 break;
-- 
2.43.0


From c6c96fc03e8561bbb175510b4dbc21f340f84569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 04/41] fix: read the whole handshake even if it arrives in
 multiple segments

---
 src/peers/connection/handshake.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index b9e8ef8..703849d 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,5 +1,5 @@
 use crate::data_structures::ID;
-use anyhow::{anyhow, bail, Result};
+use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -20,14 +20,10 @@ pub async fn initiate_handshake(
     stream.write_all(handshake.as_ref()).await?;
 
     let mut buf = [0_u8; HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL];
-    let received_byte_cnt = stream.read(&mut buf).await?;
+    stream.read_exact(&mut buf).await?;
 
-    if received_byte_cnt != HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL {
-        Err(anyhow!("can't connect to peer"))
-    } else {
-        Handshake::check_validity(buf.as_ref())?;
-        Ok(stream)
-    }
+    Handshake::check_validity(buf.as_ref())?;
+    Ok(stream)
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 2bede861abdc00101332c4b233c41c411a7e10be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 05/41] fix: refuse peers whose handshake is for a different
 torrent

---
 src/peers/connection/handshake.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index 703849d..380410c 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -8,6 +8,8 @@ use tokio::net::TcpStream;
 const PSTRLEN: u8 = 19;
 const PSTR: &[u8] = b"BitTorrent protocol";
 const HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL: usize = 68;
+const INFO_HASH_START: usize = 28;
+const PEER_ID_START: usize = 48;
 
 pub async fn initiate_handshake(
     sock_addr: &SocketAddrV4,
@@ -23,6 +25,11 @@ pub async fn initiate_handshake(
     stream.read_exact(&mut buf).await?;
 
     Handshake::check_validity(buf.as_ref())?;
+
+    if buf[INFO_HASH_START..PEER_ID_START] != *info_hash.as_byte_ref() {
+        bail!("peer serves a different torrent");
+    }
+
     Ok(stream)
 }
 
-- 
2.43.0


From 10d483869a79c9f8b617d94a2f1fbc3cdab428ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 06/41] fix: don't let a pending handshake hold up the shutdown

---
 src/peers/connection/connection_manager.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 28a4e11..062871b 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -56,7 +56,14 @@ async fn manage_tcp(
     send_rx: mpsc::Receiver<Message>,
     mut shutdown_rx: shutdown::Receiver,
 ) {
-    let Ok(mut stream) = initiate_handshake(&peer.into(), &info_hash, &own_peer_id).await else {
+    let peer_addr = peer.into();
+
+    let stream = select! {
+        _ = shutdown_rx.recv() => return,
+        stream = initiate_handshake(&peer_addr, &info_hash, &own_peer_id) => stream,
+    };
+
+    let Ok(mut stream) = stream else {
         // I can ignore it because if rec is dead, there's not much to do other than shutting down
         let _ = peer_handler
             .send(ConnectionMessage {
-- 
2.43.0


From 9e79918d1f8dc4a0532a8f7cbcd78550bb0f1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 07/41] fix: report the end of an established peer connection

---
 src/peers/connection/connection_manager.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 062871b..567d949 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -77,10 +77,17 @@ async fn manage_tcp(
     let (read_stream, write_stream) = split(&mut stream);
 
     select! {
-        _ = shutdown_rx.recv() => {},
+        _ = shutdown_rx.recv() => return,
         _ = manager_sender(write_stream, send_rx) => {},
-        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, peer_handler) => {},
+        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, &peer_handler) => {},
     };
+
+    let _ = peer_handler
+        .send(ConnectionMessage {
+            peer,
+            message: ConMessageType::Disconnected,
+        })
+        .await;
 }
 
 async fn manager_sender(
@@ -106,7 +113,7 @@ async fn manager_receiver(
     mut stream: ReadHalf<&mut TcpStream>,
     piece_handler: mpsc::Sender<Piece>,
     dht_handler: mpsc::Sender<SocketAddrV4>,
-    peer_handler: mpsc::Sender<ConnectionMessage>,
+    peer_handler: &mpsc::Sender<ConnectionMessage>,
 ) {
     let mut buf = vec![0u8; MAX_MESSAGE_BYTES];
     let mut data_start = 0;
@@ -150,7 +157,7 @@ async fn manager_receiver(
                     continue;
                 };
 
-                handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
+                handle_message(peer, message, &piece_handler, &dht_handler, peer_handler).await;
             } else {
                 break;
             }
-- 
2.43.0


From 6f0b8aa80aa6ed9f345a37e09554580e6817eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 08/41] fix: return an error for ids of a wrong length instead
 of panicking

---
 src/data_structures/id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index dec4e36..9b7f72d 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -185,7 +185,8 @@ impl<'de> Deserialize<'de> for ID {
             where
                 E: serde::de::Error,
             {
-                Ok(v.try_into().unwrap())
+                v.try_into()
+                    .map_err(|_| serde::de::Error::invalid_length(v.len(), &self))
             }
         }
         Ok(ID(deserializer.deserialize_byte_buf(Visitor {})?))
-- 
2.43.0


From 13def8712234e592aa4a8ef89143019cb4178d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 09/41] fix: ids that share their first set bit aren't equal

---
 src/data_structures/id.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index 9b7f72d..dc8cc9d 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -220,7 +220,6 @@ impl Ord for ID {
     fn cmp(&self, other: &Self) -> Ordering {
         for (self_bit, other_bit) in self.bit_iter().zip(other.bit_iter()) {
             match (self_bit, other_bit) {
-                (true, true) => return Ordering::Equal,
                 (true, false) => return Ordering::Greater,
                 (false, true) => return Ordering::Less,
                 _ => (),
-- 
2.43.0


From f75fb923933762082f117ab146f7ac9414def24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 10/41] fix: decode only received bytes of a datagram

---
 src/dht/connection/connection_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 4359b83..cf2b0f4 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -57,8 +57,8 @@ impl ConnectionManager {
         loop {
             select! {
                 res = self.sock.recv_from(&mut buf) => {
-                    let (_ , from) = res.ok()?;
-                    self.handle_received_message(from, &buf).await;
+                    let (len, from) = res.ok()?;
+                    self.handle_received_message(from, &buf[..len]).await;
                 },
                 send_command = self.send_to_remote.recv() => {
                     self.send(send_command?).await;
-- 
2.43.0


From e813db9aa996be968adff1bef97637bbecdfd258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 11/41] fix: don't let slow or dropped dht tasks block or kill
 the udp manager

---
 src/dht/connection/connection_manager.rs | 35 ++++++++++--------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index cf2b0f4..0ef70d8 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -150,27 +150,25 @@ impl ConnectionManager {
             }
             Arguments::FindNode { target, .. } => {
                 self.query_listener
-                    .send(FromConQuery::FindNode {
+                    .try_send(FromConQuery::FindNode {
                         target,
                         query_id: QueryId {
                             target: from,
                             transaction_id,
                         },
                     })
-                    .await
-                    .unwrap();
+                    .unwrap_or_else(|e| warn!(?e));
             }
             Arguments::GetPeers { info_hash, .. } => {
                 self.query_listener
-                    .send(FromConQuery::GetPeers {
+                    .try_send(FromConQuery::GetPeers {
                         info_hash,
                         query_id: QueryId {
                             target: from,
                             transaction_id,
                         },
                     })
-                    .await
-                    .unwrap();
+                    .unwrap_or_else(|e| warn!(?e));
             }
             Arguments::AnnouncePeer {
                 info_hash,
@@ -183,12 +181,11 @@ impl ConnectionManager {
                     peer_addr.set_port(port);
 
                     self.query_listener
-                        .send(FromConQuery::NewPeer {
+                        .try_send(FromConQuery::NewPeer {
                             new_peer: Peer::new(peer_addr),
                             info_hash,
                         })
-                        .await
-                        .unwrap();
+                        .unwrap_or_else(|e| warn!(?e));
 
                     let resp = ToCon::Resp {
                         query_id: QueryId {
@@ -224,15 +221,13 @@ impl ConnectionManager {
         match response {
             Response::Ping { id } => {
                 querying_task_channel
-                    .send(FromConResp::Touch { id, from })
-                    .await
-                    .unwrap();
+                    .try_send(FromConResp::Touch { id, from })
+                    .unwrap_or_else(|e| warn!(?e));
             }
             Response::FindNode { nodes, id } => {
                 querying_task_channel
-                    .send(FromConResp::NewNodes { nodes, from, id })
-                    .await
-                    .unwrap();
+                    .try_send(FromConResp::NewNodes { nodes, from, id })
+                    .unwrap_or_else(|e| warn!(?e));
             }
             Response::GetPeers {
                 values_or_nodes,
@@ -240,19 +235,17 @@ impl ConnectionManager {
                 ..
             } => {
                 querying_task_channel
-                    .send(FromConResp::GetPeers {
+                    .try_send(FromConResp::GetPeers {
                         from,
                         token,
                         v_or_n: values_or_nodes,
                     })
-                    .await
-                    .unwrap();
+                    .unwrap_or_else(|e| warn!(?e));
             }
             Response::AnnouncePeer { id } => {
                 querying_task_channel
-                    .send(FromConResp::Touch { id, from })
-                    .await
-                    .unwrap();
+                    .try_send(FromConResp::Touch { id, from })
+                    .unwrap_or_else(|e| warn!(?e));
             }
         }
     }
-- 
2.43.0


From 356b92ef5349437999defc81d455049d86111137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 12/41] fix: accept the response to announce_peer, it's decoded
 as one to ping

---
 src/dht/connection/pending.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dht/connection/pending.rs b/src/dht/connection/pending.rs
index 2053f7f..bee4e51 100644
--- a/src/dht/connection/pending.rs
+++ b/src/dht/connection/pending.rs
@@ -27,7 +27,7 @@ impl PendingRequests {
     pub fn get(&mut self, tid: &SerializableBuf, response_type: RequestType) -> Option<Requester> {
         let (requested_type, _) = self.0.get(tid)?;
 
-        if *requested_type == response_type {
+        if requested_type.is_answered_by(&response_type) {
             self.0.remove(tid).map(|(_, requester)| requester)
         } else {
             None
@@ -39,6 +39,14 @@ impl PendingRequests {
     }
 }
 
+impl RequestType {
+    // responses to ping and announce_peer have the same fields, decoder can't tell one from another
+    fn is_answered_by(&self, response_type: &Self) -> bool {
+        self == response_type
+            || (*self == RequestType::AnnouncePeer && *response_type == RequestType::Ping)
+    }
+}
+
 impl From<&Message> for RequestType {
     fn from(item: &Message) -> Self {
         let Message::Query{arguments, ..} = item else{
-- 
2.43.0


From 9ae557175313c01c039674f636cf166c1f84424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 13/41] fix: flush the routing table before shutdown drops the
 file

---
 src/dht/routing_table/table.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 29ea2c1..5529e21 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -60,6 +60,7 @@ impl RoutingTable {
         let mut file = File::create(path).await.unwrap();
 
         file.write_all(&encoded).await.unwrap();
+        file.flush().await.unwrap();
     }
 
     pub fn own_id(&self) -> &ID {
-- 
2.43.0


From 84671eef2a5d5588d7506ab5612a5e6e90038c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 14/41] fix: don't trust the cached routing table without
 checking it

---
 src/dht/routing_table/table.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 5529e21..e64fd08 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -2,7 +2,7 @@ use super::bucket::Bucket;
 use super::{Node, K_NODE_PER_BUCKET};
 use crate::data_structures::{ID, ID_BIT_COUNT};
 use crate::dht::krpc_message::Nodes;
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use serde::{Deserialize, Serialize};
 use std::net::SocketAddrV4;
 use tokio::fs::{DirBuilder, File};
@@ -42,7 +42,13 @@ impl RoutingTable {
         let mut file = File::open(path).await?;
         file.read_to_end(&mut buf).await?;
 
-        Ok(bincode::deserialize(&buf)?)
+        let table: Self = bincode::deserialize(&buf)?;
+
+        if !table.is_well_formed() {
+            bail!("cached routing table is malformed");
+        }
+
+        Ok(table)
     }
 
     pub async fn store(&self) {
@@ -63,6 +69,27 @@ impl RoutingTable {
         file.flush().await.unwrap();
     }
 
+    // every bucket covers ids that share exactly depth-1 bits with own id, except the last one that covers the rest
+    fn is_well_formed(&self) -> bool {
+        let Some(last_idx) = self.data.len().checked_sub(1) else {
+            return false;
+        };
+
+        last_idx <= ID_BIT_COUNT
+            && self.data.iter().enumerate().all(|(idx, bucket)| {
+                let depth_is_valid = if idx == last_idx {
+                    bucket.depth() == idx
+                } else {
+                    bucket.depth() == idx + 1
+                };
+
+                depth_is_valid
+                    && bucket
+                        .iter_nodes()
+                        .all(|node| self.find_bucket_idx_by_id(&node.id) == idx)
+            })
+    }
+
     pub fn own_id(&self) -> &ID {
         &self.own_id
     }
-- 
2.43.0


From 3f09fab84d63d371139bb0db67519b177a517c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 15/41] fix: own bucket of the deepest table needs a refresh
 when it isn't full

---
 src/dht/routing_table/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index e64fd08..2cbe964 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -139,7 +139,7 @@ impl RoutingTable {
             });
 
         let last = self.data.last().and_then(|last_bucket| {
-            (self.data.len() <= ID_BIT_COUNT || last_bucket.is_full()).then_some(self.own_id)
+            (self.data.len() <= ID_BIT_COUNT || !last_bucket.is_full()).then_some(self.own_id)
         });
 
         from_non_own_buckets.chain(last.into_iter())
-- 
2.43.0


From 363430430f934f979a4da66c83075db78643a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 16/41] fix: don't restart the interval each time select! drops
 its tick

---
 src/capped_growing_interval.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/capped_growing_interval.rs b/src/capped_growing_interval.rs
index 3ec3e89..7c175ea 100644
--- a/src/capped_growing_interval.rs
+++ b/src/capped_growing_interval.rs
@@ -1,8 +1,9 @@
 use std::time::Duration;
-use tokio::time::sleep;
+use tokio::time::{sleep_until, Instant};
 pub struct CappedGrowingInterval {
     growth_formula: fn(f64) -> f64,
     iter_count: usize,
+    deadline: Option<Instant>,
     max: f64,
 }
 
@@ -11,6 +12,7 @@ impl CappedGrowingInterval {
         Self {
             growth_formula,
             iter_count: 0,
+            deadline: None,
             max,
         }
     }
@@ -21,7 +23,13 @@ impl CappedGrowingInterval {
             .min_by(|a, b| a.partial_cmp(b).unwrap())
             .unwrap();
 
-        sleep(Duration::from_secs_f64(sleep_duration)).await;
+        // this future gets dropped and recreated by select!, waiting mustn't start over every time
+        let deadline = *self
+            .deadline
+            .get_or_insert_with(|| Instant::now() + Duration::from_secs_f64(sleep_duration));
+
+        sleep_until(deadline).await;
+        self.deadline = None;
 
         self.iter_count += 1;
     }
-- 
2.43.0


From e94cb49fcda99913885d8ea8233d771e226542a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 17/41] fix: rediscovering a known peer mustn't reset its
 status

---
 src/peers/active_peers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index 12228a6..aa3078c 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -31,7 +31,11 @@ impl Peers {
     }
 
     pub fn insert(&self, peer: Peer) {
-        self.data.lock().unwrap().insert(peer, Status::Unknown);
+        self.data
+            .lock()
+            .unwrap()
+            .entry(peer)
+            .or_insert(Status::Unknown);
     }
 
     // TODO this name is bad. `peers.serve(info_hash)` is clear but only seeing it here is laughably bad.
@@ -135,7 +139,9 @@ where
     fn extend<T: IntoIterator<Item = P>>(&mut self, iter: T) {
         let mut data = self.data.lock().unwrap();
 
-        data.extend(iter.into_iter().map(|peer| (peer.into(), Status::Unknown)));
+        for peer in iter {
+            data.entry(peer.into()).or_insert(Status::Unknown);
+        }
     }
 }
 
-- 
2.43.0


From b61fe01664a3f17d14f8c26a8ed85b101271f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 18/41] fix: listing good peers mustn't mark them as active

---
 src/peers/active_peers.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index aa3078c..a2f7f6a 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -62,9 +62,17 @@ impl Peers {
             Status::ChokedForTooLong,
         ];
 
-        let mut data = self.data.lock().unwrap();
-
-        let peers = self.activate_peers_in_locked_data(&mut data, limit, &status_priority_order);
+        let data = self.data.lock().unwrap();
+
+        let peers: Vec<Peer> = status_priority_order
+            .iter()
+            .flat_map(|cur_status| {
+                data.iter()
+                    .filter(move |(_, status)| discriminant(*status) == discriminant(cur_status))
+            })
+            .map(|(peer, _)| peer.to_owned())
+            .take(limit)
+            .collect();
 
         if peers.is_empty() {
             None
-- 
2.43.0


From 60985c91818617f61b44681a1d7934cfc06ab8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 19/41] fix: don't free piece hashes with a layout they weren't
 allocated with

---
 src/transcoding/metainfo.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 9b7fa6b..f824a78 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -376,7 +376,7 @@ impl FromBencode for File {
     }
 }
 
-fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
+fn deserialize_pieces_field(raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
     if raw.is_empty() || raw.len() % ID_LEN > 0 {
         return Err(bendy::decoding::Error::missing_field(format!(
             "Info::pieces must be 20-byte SHA1 hash values but it has len={}",
@@ -384,13 +384,14 @@ fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding
         )));
     }
 
-    let piece_hashes = unsafe {
-        let length = raw.len() / ID_LEN;
-        let capacity = raw.capacity() / ID_LEN;
-        let ptr = raw.as_mut_ptr() as *mut ID;
-        std::mem::forget(raw);
-        Vec::from_raw_parts(ptr, length, capacity)
-    };
+    let piece_hashes = raw
+        .chunks_exact(ID_LEN)
+        .map(|hash| {
+            let mut id = [0; ID_LEN];
+            id.copy_from_slice(hash);
+            ID::new(id)
+        })
+        .collect();
 
     Ok(piece_hashes)
 }
-- 
2.43.0


From 1adc19cbb11dd90fadb712c063654223cc5f947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 20/41] fix: refuse torrents whose pieces don't match the size
 of their content

---
 src/transcoding/metainfo.rs | 42 +++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index f824a78..211fde6 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -46,6 +46,17 @@ pub enum TrackerAddr {
     Udp(String),
 }
 
+#[derive(Debug)]
+struct InvalidField(&'static str);
+
+impl fmt::Display for InvalidField {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        write!(f, "value of {} is invalid", self.0)
+    }
+}
+
+impl std::error::Error for InvalidField {}
+
 impl Torrent {
     pub fn from_buf(buf: &[u8]) -> Result<Self> {
         Ok(Self::from_bencode(buf)?)
@@ -234,6 +245,25 @@ impl Info {
             Mode::Multi { files } => files.iter().map(|file| file.length).sum(),
         }
     }
+
+    fn pieces_cover_files(&self) -> bool {
+        let length = match &self.mode {
+            Mode::Single { length } => Some(*length),
+            Mode::Multi { files } => files
+                .iter()
+                .try_fold(0u64, |sum, file| sum.checked_add(file.length)),
+        };
+
+        let Some(length) = length.filter(|length| *length > 0) else {
+            return false;
+        };
+
+        let Some(rounded_up) = length.checked_add(self.piece_length) else {
+            return false;
+        };
+
+        self.piece_length > 0 && self.pieces.len() as u64 == (rounded_up - 1) / self.piece_length
+    }
 }
 
 impl TrackerAddr {
@@ -340,12 +370,20 @@ impl FromBencode for Info {
             }
         }
 
-        Ok(Info {
+        let info = Info {
             piece_length: ok_or_missing_field!(piece_length)?,
             pieces: ok_or_missing_field!(pieces)?,
             name: ok_or_missing_field!(name)?,
             mode: ok_or_missing_field!(mode, "length or files")?,
-        })
+        };
+
+        if !info.pieces_cover_files() {
+            return Err(bendy::decoding::Error::malformed_content(InvalidField(
+                "piece length",
+            )));
+        }
+
+        Ok(info)
     }
 }
 
-- 
2.43.0


From 8f17bd6b202eae84129c028c3699769aca82777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 21/41] fix: refuse torrents with names that lead out of the
 download directory

---
 src/transcoding/metainfo.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 211fde6..599c480 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -377,6 +377,12 @@ impl FromBencode for Info {
             mode: ok_or_missing_field!(mode, "length or files")?,
         };
 
+        if !is_plain_file_name(&info.name) {
+            return Err(bendy::decoding::Error::malformed_content(InvalidField(
+                "name",
+            )));
+        }
+
         if !info.pieces_cover_files() {
             return Err(bendy::decoding::Error::malformed_content(InvalidField(
                 "piece length",
@@ -407,13 +413,26 @@ impl FromBencode for File {
             }
         }
 
+        let path: Vec<String> = ok_or_missing_field!(path)?;
+
+        if path.is_empty() || !path.iter().all(|name| is_plain_file_name(name)) {
+            return Err(bendy::decoding::Error::malformed_content(InvalidField(
+                "path",
+            )));
+        }
+
         Ok(File {
-            path: ok_or_missing_field!(path)?,
+            path,
             length: ok_or_missing_field!(length)?,
         })
     }
 }
 
+// metainfo comes from an untrusted source, its names mustn't lead out of the directory of the torrent
+fn is_plain_file_name(name: &str) -> bool {
+    !name.is_empty() && name != "." && name != ".." && !name.contains(['/', '\\', '\0'])
+}
+
 fn deserialize_pieces_field(raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
     if raw.is_empty() || raw.len() % ID_LEN > 0 {
         return Err(bendy::decoding::Error::missing_field(format!(
-- 
2.43.0


From 509cf2cb7c8fc63981887cca301c2e1f920ed13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 22/41] fix: write the last piece of a file even if it's a full
 one

---
 src/fs/single_file_rw.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 782fc41..b9c6184 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -85,7 +85,8 @@ impl SingleFileRw {
         let file = self.files.get_write(&self.torrent_name).await?;
         file.seek(SeekFrom::Start(start as u64)).await?;
 
-        let mut remaining_bytes = (self.info.length() % self.info.piece_length) as usize;
+        // it's a full piece when length is a multiple of piece_length
+        let mut remaining_bytes = self.info.length() as usize - start;
         let mut block_iter = piece.data.iter();
 
         while remaining_bytes > 0 {
@@ -96,7 +97,7 @@ impl SingleFileRw {
                     "last piece (idx={}) has less data ({} blocks) than expected ({} bytes)",
                     piece.idx,
                     piece.data.len(),
-                    self.info.length() % self.info.piece_length
+                    self.info.length() as usize - start
                 );
             };
 
-- 
2.43.0


From a4e3adaae467b99ca1dca2e67f9b7076325eec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 23/41] fix: writing a piece that contains an empty file

---
 src/fs/multi_file_rw.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index ed46083..e648e7b 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -101,6 +101,11 @@ async fn write_file_chunk_from_multi_file_piece(
     file.seek(SeekFrom::Start(start_within_file as u64)).await?;
 
     let length = end_within_piece - start_within_piece;
+
+    if length == 0 {
+        return Ok(()); // empty file exists as soon as it's opened, there's nothing to write
+    }
+
     let start_within_block = start_within_piece % BLOCK_SIZE;
     let end_within_block = if end_within_piece % BLOCK_SIZE == 0 {
         BLOCK_SIZE // 0 means full block because it ends at BLOCK_SIZE
-- 
2.43.0


From 9088c780fd7900694824500a2fa34dbcab8e5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 24/41] fix: writing an out of bounds piece isn't a success

---
 src/fs/multi_file_rw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index e648e7b..0e59d4c 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -70,6 +70,10 @@ impl Fs for MultiFileRw {
             files, file_infos, ..
         } = self;
 
+        if piece.idx >= self.info.pieces.len() {
+            bail!("piece {} is out of bounds", piece.idx)
+        }
+
         let piece_start = piece.idx * self.info.piece_length as usize;
         let piece_end = (piece.idx + 1) * self.info.piece_length as usize;
 
-- 
2.43.0


From 096423ef254a780013dde4073f7eee94297e7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 25/41] fix: report a piece as written only after its data is
 handed to the OS

---
 src/fs/multi_file_rw.rs  | 2 ++
 src/fs/single_file_rw.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 0e59d4c..2da22ea 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -139,6 +139,8 @@ async fn write_file_chunk_from_multi_file_piece(
         }
     }
 
+    file.flush().await?;
+
     Ok(())
 }
 
diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index b9c6184..8659a82 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -76,6 +76,8 @@ impl SingleFileRw {
             file.write_all(&block).await?;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 
@@ -106,6 +108,8 @@ impl SingleFileRw {
             remaining_bytes -= bytes_to_write;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 6e82c4165ac92d935a46db56bf1293c9bd12a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 26/41] fix: announce to trackers whose url already has a query

---
 src/tracker/announce.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index 74e4e62..99e5f0d 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -25,7 +25,12 @@ impl Announce {
     pub fn as_url(&self) -> String {
         let mut s = self.tracker_url.clone();
 
-        s.push_str("?info_hash=");
+        s.push(if self.tracker_url.contains('?') {
+            '&'
+        } else {
+            '?'
+        });
+        s.push_str("info_hash=");
         s.push_str(urlencoding::encode_binary(self.info_hash.as_byte_ref()).as_ref());
 
         s.push_str("&peer_id=");
-- 
2.43.0


From 76caeeb45c7d7cf0fef9ed7f86142f1168095009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 27/41] fix: urlencode tracker id

---
 src/tracker/announce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index 99e5f0d..ae64153 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -67,7 +67,7 @@ impl Announce {
 
         if let Some(tracker_id) = &self.tracker_id {
             s.push_str("&trackerid=");
-            s.push_str(tracker_id);
+            s.push_str(urlencoding::encode(tracker_id).as_ref());
         }
 
         s
-- 
2.43.0


From 8c9aeb300da6fb8d17d8fb1f1fa1d97190a9fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 28/41] fix: don't flood a tracker that responds with a zero
 interval

---
 src/tracker/tracker_manager.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 6ad9e8c..05eb29b 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -14,6 +14,7 @@ use tracing::{instrument, trace, warn};
 
 const TIMEOUT_SECS: u64 = 1 << 7;
 const RETRY_SECS: u64 = 1 << 6;
+const MIN_INTERVAL_SECS: u64 = 1 << 4;
 
 pub fn spawn_tracker_managers(
     torrent: &Torrent,
@@ -97,7 +98,7 @@ async fn manage_http_tracker(
                 let _ = send_request(&announce.as_url()).await;
                 break;
             },
-            _ = sleep(Duration::from_secs(response.interval)) => {
+            _ = sleep(Duration::from_secs(response.interval.max(MIN_INTERVAL_SECS))) => {
                 announce.event = None;
             }
             downloaded = announce_event_message.recv() => {
-- 
2.43.0


From 94097bed83b1badef2b4ad1b179a1e1d2de4954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 29/41] fix: last block of a piece is a full one when piece
 length is a multiple of block size

---
 src/peers/connection/pending_pieces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 996df3a..32a5c67 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -201,7 +201,7 @@ impl PendingPieces {
         let last_block_in_piece = block_idx + 1 == self.blocks_per_piece;
 
         let block_size = if last_block_in_piece {
-            self.piece_length % BLOCK_SIZE
+            self.piece_length - block_idx * BLOCK_SIZE
         } else {
             BLOCK_SIZE
         };
-- 
2.43.0


From 62761c6f89e8f18a734ebbe1affd8665b316910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 30/41] fix: count each downloaded block of a piece only once

---
 src/peers/connection/pending_pieces.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 32a5c67..172c0e7 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -32,7 +32,6 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
-    pending: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -108,9 +107,12 @@ impl PendingPieces {
 
         let block = &mut piece.data[block_idx];
 
+        if block.is_downloaded() {
+            return AddBlockRes::Added; // expired request might have been repeated by another peer
+        }
+
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
-        piece.pending -= 1;
 
         if self.blocks_per_piece == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
@@ -228,7 +230,6 @@ impl Piece {
         let data = vec![Block::default(); piece_count];
 
         Self {
-            pending: 0,
             downloaded: 0,
             data,
         }
@@ -246,6 +247,10 @@ impl Block {
         std::mem::discriminant(self) == std::mem::discriminant(v)
     }
 
+    fn is_downloaded(&self) -> bool {
+        matches!(self, Self::Downloaded(_))
+    }
+
     fn is_expired_pending(&self) -> bool {
         let Self::Pending(description) = self else {
             return false;
-- 
2.43.0


From 6f2021dc515116291e8db74465724c01477cde85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 31/41] fix: panic on the first request because copies of
 pending pieces have no owner

---
 src/peers/connection/downloader.rs     | 2 ++
 src/peers/connection/pending_pieces.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 3a7c391..04b0fa2 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -81,6 +81,8 @@ async fn manage_piece_downloader(
     mut unchoke_waiter: UnchokeWaiter,
     mut shutdown_rx: shutdown::Receiver,
 ) {
+    pending_pieces.set_owner_peer(peer);
+
     let mut current_pieces = HashMap::new();
     let mut current_blocks = Vec::with_capacity(ACTIVE_BLOCKS_PER_PEER);
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 172c0e7..4992a5b 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -148,6 +148,11 @@ impl PendingPieces {
             |block: &Block| block.is_expired_pending(),
         ];
 
+        let Some(owner) = self.copy_owner else {
+            error!("blocks can't be taken without an owner");
+            return;
+        };
+
         let mut data = self.data.lock().unwrap();
 
         let now = Instant::now();
@@ -157,7 +162,7 @@ impl PendingPieces {
                 Self::filtered_iter_over_blocks(&pieces, &mut data, filter)
             {
                 *block = Block::Pending(PendingBlockDesc {
-                    target: self.copy_owner.unwrap(), // TODO wtf is this? NO!
+                    target: owner,
                     time_sent: now,
                 });
 
-- 
2.43.0


From bf740b15d514ee671dd0347ed9a3c6b680db6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 32/41] fix: don't request more blocks than the buffer of
 active blocks can hold

---
 src/peers/connection/pending_pieces.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 4992a5b..0e39f7e 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -158,8 +158,10 @@ impl PendingPieces {
         let now = Instant::now();
 
         for filter in filters {
+            let free_slots = block_buf.capacity() - block_buf.len();
+
             for (block, block_address) in
-                Self::filtered_iter_over_blocks(&pieces, &mut data, filter)
+                Self::filtered_iter_over_blocks(&pieces, &mut data, filter).take(free_slots)
             {
                 *block = Block::Pending(PendingBlockDesc {
                     target: owner,
@@ -168,10 +170,6 @@ impl PendingPieces {
 
                 block_buf.push(block_address);
             }
-
-            if block_buf.capacity() == block_buf.len() {
-                break;
-            }
         }
     }
 
-- 
2.43.0


From a05f93a262f064f381e75811f9b4092a1d99c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 33/41] fix: piece downloader panics when its connection is
 closed

---
 src/peers/connection/downloader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 04b0fa2..7bdbfc3 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -92,7 +92,11 @@ async fn manage_piece_downloader(
         select! {
             _ = shutdown_rx.recv() => { return },
             block = downloaded_block_rx.recv() => {
-                foo(peer, block.unwrap(), &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
+                let Some(block) = block else {
+                    return; // connection is closed
+                };
+
+                foo(peer, block, &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
             },
             command = new_piece_rx.recv() => {
                 match command{
@@ -100,7 +104,7 @@ async fn manage_piece_downloader(
                         PeerManagerCommand::StartPiece((piece_hash, piece_idx)) => {current_pieces.insert(piece_idx, piece_hash);},
                         PeerManagerCommand::StopPiece(piece_idx) => {current_pieces.remove(&piece_idx);},
                     },
-                    None => todo!(),
+                    None => return,
                 }
             },
         };
-- 
2.43.0


From 78e1455df89727d56fcf0d8be5f85a668c978738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 34/41] fix: panic on every downloaded block but the last

---
 src/peers/connection/downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 7bdbfc3..0c16266 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -158,7 +158,7 @@ async fn foo(
     let mut removed_block_addr = current_blocks.remove(idx);
 
     match pending_pieces.add_block_data(piece_idx, block_idx, block.block.into_vec().into()) {
-        AddBlockRes::Added => todo!(),
+        AddBlockRes::Added => (),
         AddBlockRes::Failed => {
             removed_block_addr.status = BlockStatus::Queued;
             current_blocks.push(removed_block_addr);
-- 
2.43.0


From 2fbefb70a4ad4e9b7c0d14afece2fa5984cb4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 35/41] fix: match downloaded blocks with requested ones by
 their piece too

---
 src/peers/connection/downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 0c16266..a8b8851 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -152,7 +152,7 @@ async fn foo(
 
     let block_idx = block.begin as usize / BLOCK_SIZE;
 
-    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) else {
+    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.piece_idx == piece_idx && block_addr.block_idx == block_idx ) else {
             bail!("current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) == None");
         };
     let mut removed_block_addr = current_blocks.remove(idx);
-- 
2.43.0


From 47db617511bb5bd02fdaefada7ee93e74f354542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 36/41] fix: choking status was never sent because its future
 was dropped

---
 src/peers/connection/connection_handle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index a96dbbc..794c9a7 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -50,11 +50,11 @@ struct ChokeLocker {
 
 impl ChokeLocker {
     fn choke(&self) {
-        self.tx.send(ChokingStatus::Choke);
+        let _ = self.tx.try_send(ChokingStatus::Choke);
     }
 
     fn unchoke(&self) {
-        self.tx.send(ChokingStatus::Unchoke);
+        let _ = self.tx.try_send(ChokingStatus::Unchoke);
     }
 }
 
-- 
2.43.0


From 9d20866bf2b988fc5db7fabb1f6c9e81d3647cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 37/41] fix: peer that claims to have a nonexistent piece
 panics the torrent manager

---
 src/torrent_manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index d1b20e7..606623a 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -283,6 +283,11 @@ impl TorrentManager {
                     .and_modify(|peer_info| peer_info.interested = false);
             }
             ConMessageType::Have(piece_idx) => {
+                if piece_idx as usize >= self.frequency_map.len() {
+                    warn!("peer {peer:?} can't have a nonexistent piece {piece_idx}");
+                    return;
+                }
+
                 if let Occupied(mut peer_info) = self.active_peers.entry(peer) {
                     let old_have = peer_info.get_mut().haves.change(piece_idx as usize, true);
                     if !old_have {
-- 
2.43.0


From 22fd1424fbc02e29a963ed26139cb4a44352241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 38/41] fix: request or cancel message of a peer panics the
 torrent manager

---
 src/torrent_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 606623a..d1498a5 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -298,9 +298,9 @@ impl TorrentManager {
             ConMessageType::Bitfield(bitfield) => {
                 self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
             }
-            ConMessageType::Request(_) => todo!(),
+            ConMessageType::Request(_) => (), // every peer is choked, requests of choked peers are dropped
             ConMessageType::FinishedPiece(_) => todo!(),
-            ConMessageType::Cancel(_) => todo!(),
+            ConMessageType::Cancel(_) => (), // there are no accepted requests to cancel
         }
     }
 
-- 
2.43.0


From cdaa2f7bd380c8905cf59984034c24306318ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 39/41] fix: finished piece panics the torrent manager instead
 of being stored

---
 src/torrent_manager.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index d1498a5..32f51c5 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -1,8 +1,9 @@
 use crate::data_structures::{Bitmap, ID};
-use crate::fs::FS;
+use crate::fs::{Fs, FS};
 use crate::peers::active_peers::{Peers, Status as PeerStatus};
 use crate::peers::connection::connection_handle::Connection;
 use crate::peers::connection::connection_manager::{ConMessageType, ConnectionMessage};
+use crate::peers::connection::pending_pieces::FinishedPiece;
 use crate::peers::peer::Peer;
 use crate::transcoding::metainfo::Torrent;
 use crate::{shutdown, tracker};
@@ -119,7 +120,7 @@ impl TorrentManager {
 
         loop {
             select! {
-                msg = self.connection.recv() => { self.handle_command_tmp(msg) },
+                msg = self.connection.recv() => { self.handle_command_tmp(msg).await },
                 _ = interval.tick() => {
                     self.refresh_peer_list();
                     self.start_downloading_new_pieces().await;
@@ -253,7 +254,7 @@ impl TorrentManager {
         Some(peer)
     }
 
-    fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
+    async fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
         let ConnectionMessage { message, peer } = con_msg;
 
         match message {
@@ -299,11 +300,33 @@ impl TorrentManager {
                 self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
             }
             ConMessageType::Request(_) => (), // every peer is choked, requests of choked peers are dropped
-            ConMessageType::FinishedPiece(_) => todo!(),
+            ConMessageType::FinishedPiece(piece) => self.store_finished_piece(piece).await,
             ConMessageType::Cancel(_) => (), // there are no accepted requests to cancel
         }
     }
 
+    async fn store_finished_piece(&mut self, piece: FinishedPiece) {
+        let piece_idx = piece.idx;
+
+        if piece_idx >= self.local_data.len() {
+            warn!("nonexistent piece {piece_idx} can't be finished");
+            return;
+        }
+
+        match self.fs.write_piece(piece).await {
+            Ok(_) => {
+                self.local_data.change(piece_idx, true);
+            }
+            Err(e) => error!(?e),
+        }
+
+        self.active_pieces.change(piece_idx, false);
+
+        for peer_info in self.active_peers.values_mut() {
+            peer_info.working.change(piece_idx, false);
+        }
+    }
+
     fn mark_peer_as_inactive(&mut self, peer: Peer, status: PeerStatus) {
         if let Some(peer_info) = self.active_peers.remove(&peer) {
             self.inactive_peers.push((peer, status));
-- 
2.43.0


From 94005a84ca7b4e0e817d5bd6d4d95dc1f61521b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 40/41] fix: forget connections that have ended, peer can't be
 connected again otherwise

---
 src/torrent_manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 32f51c5..61767d2 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -328,6 +328,8 @@ impl TorrentManager {
     }
 
     fn mark_peer_as_inactive(&mut self, peer: Peer, status: PeerStatus) {
+        self.connection.disconnect(&peer);
+
         if let Some(peer_info) = self.active_peers.remove(&peer) {
             self.inactive_peers.push((peer, status));
 
-- 
2.43.0


From f7cfc0106004239ab599c46985166d9acc3455cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 41/41] fix: pieces of disconnected peers stay active forever

---
 src/torrent_manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 61767d2..0b8c0c6 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -333,6 +333,12 @@ impl TorrentManager {
         if let Some(peer_info) = self.active_peers.remove(&peer) {
             self.inactive_peers.push((peer, status));
 
+            for (piece_idx, working) in peer_info.working.iter().enumerate() {
+                if working && !self.active_peers.values().any(|p| p.working.get(piece_idx)) {
+                    self.active_pieces.change(piece_idx, false);
+                }
+            }
+
             self.frequency_map
                 .iter_mut()
                 .zip(peer_info.haves.iter())
-- 
2.43.0

