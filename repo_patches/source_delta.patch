From 766de4aeec91527fbf388d5755f0e5bd6703549a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 01/47] fix: refuse PROXY v2 headers with unspecified family or
 protocol instead of panicking

---
 akasa-core/src/server/proxy.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/akasa-core/src/server/proxy.rs b/akasa-core/src/server/proxy.rs
index f204723..af1e013 100644
--- a/akasa-core/src/server/proxy.rs
+++ b/akasa-core/src/server/proxy.rs
@@ -123,8 +123,6 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let address_family = match byte_14th & LEFT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
         0x10 => AddressFamily::IPv4,
         0x20 => AddressFamily::IPv6,
         0x30 => AddressFamily::Unix,
@@ -151,8 +149,6 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let protocol = match byte_14th & RIGHT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
         0x01 => Protocol::Stream,
         0x02 => Protocol::Datagram,
         _ => {
-- 
2.43.0


From bd0c07620f03c5fe9f4b7b8bd6a24998ef726d1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 02/47] fix: SCRAM client must escape ',' and '=' in user names
 and authorization identities

---
 akasa-core/src/protocols/scram/client.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 2cd6cad..855896b 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -42,7 +42,7 @@ impl<'a> ScramClient<'a> {
         rng: &mut R,
     ) -> Self {
         let gs2header: Cow<'static, str> = match authzid {
-            Some(az) => format!("n,a={},", az).into(),
+            Some(az) => format!("n,a={},", escape_saslname(az)).into(),
             None => "n,,".into(),
         };
         let nonce: String = Uniform::try_from(33..125)
@@ -74,12 +74,7 @@ impl<'a> ScramClient<'a> {
             }
         };
 
-        let escaped: Cow<'a, str> = if authcid.chars().any(|c| c == ',' || c == '=') {
-            authcid.into()
-        } else {
-            authcid.replace(',', "=2C").replace('=', "=3D").into()
-        };
-        let client_first_bare = format!("n={},r={}", escaped, nonce);
+        let client_first_bare = format!("n={},r={}", escape_saslname(authcid), nonce);
         let client_first = format!("{}{}", gs2header, client_first_bare);
 
         *self = ScramClient::WaitingForServerFirst {
@@ -149,6 +144,11 @@ impl<'a> ScramClient<'a> {
     }
 }
 
+/// Escape a name as `saslname`, the '=' must be handled first.
+fn escape_saslname(name: &str) -> String {
+    name.replace('=', "=3D").replace(',', "=2C")
+}
+
 fn parse_server_first(data: &str) -> Result<(&str, Vec<u8>, NonZeroU32), Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::Nonce)));
-- 
2.43.0


From 0c1e999aee052f27ac27b6876df372a3855b0055 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 03/47] fix: SCRAM client must not panic on a server-final
 message starting with a multi-byte character

---
 akasa-core/src/protocols/scram/client.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 855896b..4c9fe67 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -177,14 +177,11 @@ fn parse_server_first(data: &str) -> Result<(&str, Vec<u8>, NonZeroU32), Error>
 }
 
 fn parse_server_final(data: &str) -> Result<Vec<u8>, Error> {
-    if data.len() < 2 {
-        return Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError)));
-    }
-    match &data[..2] {
-        "v=" => STANDARD
+    match data.as_bytes().get(..2) {
+        Some(b"v=") => STANDARD
             .decode(&data.as_bytes()[2..])
             .map_err(|_| Error::Protocol(Kind::InvalidField(Field::VerifyOrError))),
-        "e=" => Err(Error::Authentication(data[2..].to_string())),
+        Some(b"e=") => Err(Error::Authentication(data[2..].to_string())),
         _ => Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError))),
     }
 }
-- 
2.43.0


From 3b67be8835db0b57bd055346c3a30d1f91d0a155 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 04/47] fix: SCRAM server must verify the proof over the
 client-first message as received

The reconstructed message assumed the 'n' flag and no extensions, so that
clients sending the accepted 'y' flag could never authenticate.
---
 akasa-core/src/protocols/scram/server.rs | 43 +++++++++++++-----------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index f2ce68d..881448b 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -1,5 +1,3 @@
-use std::borrow::Cow;
-
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD;
 use rand::Rng;
@@ -25,11 +23,13 @@ pub enum ScramServer {
         authcid: String,
         authzid: Option<String>,
         client_nonce: String,
+        gs2header: String,
+        client_first_bare: String,
     },
     WaitingForClientFinal {
         hashed_password: Vec<u8>,
         nonce: String,
-        gs2header: Cow<'static, str>,
+        gs2header: String,
         client_first_bare: String,
         server_first: String,
         authcid: String,
@@ -53,12 +53,15 @@ impl ScramServer {
             _ => return Err(Error::Protocol(Kind::InvalidField(Field::ChannelBinding))),
         }
 
-        let authzid = match parts.next() {
+        let authzid_part = parts.next();
+        let authzid = match authzid_part {
             Some("") => None,
             Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
             None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
         };
+        // The proof covers the message as the client sent it.
+        let gs2header_len = token.len() + authzid_part.map_or(0, str::len) + 2;
 
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
@@ -67,6 +70,8 @@ impl ScramServer {
             authcid,
             authzid,
             client_nonce,
+            gs2header: data.get(..gs2header_len).unwrap_or(data).to_owned(),
+            client_first_bare: data.get(gs2header_len..).unwrap_or("").to_owned(),
         };
         Ok(())
     }
@@ -94,17 +99,20 @@ impl ScramServer {
         iterations: u16,
         rng: &mut R,
     ) -> Result<String, Error> {
-        let (authcid, authzid, client_nonce) = match std::mem::replace(self, ScramServer::Done) {
-            ScramServer::WaitingForPassword {
-                authcid,
-                authzid,
-                client_nonce,
-            } => (authcid, authzid, client_nonce),
-            other => {
-                *self = other;
-                return Err(Error::InvalidState);
-            }
-        };
+        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =
+            match std::mem::replace(self, ScramServer::Done) {
+                ScramServer::WaitingForPassword {
+                    authcid,
+                    authzid,
+                    client_nonce,
+                    gs2header,
+                    client_first_bare,
+                } => (authcid, authzid, client_nonce, gs2header, client_first_bare),
+                other => {
+                    *self = other;
+                    return Err(Error::InvalidState);
+                }
+            };
 
         let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);
         nonce.push_str(&client_nonce);
@@ -116,11 +124,6 @@ impl ScramServer {
                 .take(NONCE_LENGTH),
         );
 
-        let gs2header: Cow<'static, str> = match &authzid {
-            Some(az) => format!("n,a={},", az).into(),
-            None => "n,,".into(),
-        };
-        let client_first_bare = format!("n={},r={}", authcid, client_nonce);
         let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);
 
         *self = ScramServer::WaitingForClientFinal {
-- 
2.43.0


From 52de4c06942a73bff29c3f9ba21a9dab080cbb49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 05/47] fix: SCRAM server must decode escaped user names and
 authorization identities

---
 akasa-core/src/protocols/scram/server.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index 881448b..484e54d 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -56,7 +56,9 @@ impl ScramServer {
         let authzid_part = parts.next();
         let authzid = match authzid_part {
             Some("") => None,
-            Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
+            Some(p) if p.as_bytes().starts_with(b"a=") => {
+                Some(unescape_saslname(&p[2..], Field::Authzid)?)
+            }
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
             None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
         };
@@ -64,6 +66,7 @@ impl ScramServer {
         let gs2header_len = token.len() + authzid_part.map_or(0, str::len) + 2;
 
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
+        let authcid = unescape_saslname(&authcid, Field::Authcid)?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
         *self = ScramServer::WaitingForPassword {
@@ -223,6 +226,24 @@ fn next_field(
     }
 }
 
+/// Decode the `=2C` and `=3D` escapes of a `saslname`.
+fn unescape_saslname(name: &str, field: Field) -> Result<String, Error> {
+    let mut parts = name.split('=');
+    let mut decoded = parts.next().unwrap_or("").to_owned();
+    for part in parts {
+        let (c, rest) = if let Some(rest) = part.strip_prefix("2C") {
+            (',', rest)
+        } else if let Some(rest) = part.strip_prefix("3D") {
+            ('=', rest)
+        } else {
+            return Err(Error::Protocol(Kind::InvalidField(field)));
+        };
+        decoded.push(c);
+        decoded.push_str(rest);
+    }
+    Ok(decoded)
+}
+
 fn parse_field<'a>(
     parts: &mut impl Iterator<Item = &'a str>,
     field: Field,
-- 
2.43.0


From e7501098a5fce2cd994f1431977605badd54a8e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:34 +0000
Subject: [PATCH 06/47] fix: removing the last member of a shared group must
 not leave a stale index

---
 akasa-core/src/protocols/mqtt/route.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/route.rs b/akasa-core/src/protocols/mqtt/route.rs
index 5d722dc..5bccd91 100644
--- a/akasa-core/src/protocols/mqtt/route.rs
+++ b/akasa-core/src/protocols/mqtt/route.rs
@@ -272,7 +272,9 @@ impl SharedClients {
             } else {
                 let last_client_id = self.items.last().expect("shared items").0;
                 self.items.swap_remove(idx);
-                self.index.insert(last_client_id, idx);
+                if last_client_id != *item_key {
+                    self.index.insert(last_client_id, idx);
+                }
                 if self.items.capacity() >= 16 && self.items.capacity() >= (self.items.len() << 2) {
                     self.items.shrink_to(self.items.len() << 1);
                 }
-- 
2.43.0


From 463b527e0de4990e021697d34b201d6a4bf17675 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 07/47] fix: publishing must not panic when a matched filter is
 unsubscribed concurrently

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index ffe2cd3..2b59028 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -195,7 +195,10 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
     let mut senders = Vec::with_capacity(matches.len());
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            // the last subscription of this filter was removed concurrently
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4001400..aa98946 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -350,7 +350,10 @@ pub(crate) fn send_publish(
         Vec::with_capacity(matched_len);
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            // the last subscription of this filter was removed concurrently
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             if *client_id == session.client_id {
                 if let Some(sub) = session.subscribes.get(subscribe_filter) {
-- 
2.43.0


From f4fe82d116d54520faa582c8481d6d422cc86d9e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 08/47] fix: a QoS 2 publish is a redelivery only if its
 identifier is still in use

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 4 +++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 2b59028..ed7d575 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -47,6 +47,7 @@ topic name : {}
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -65,13 +66,14 @@ topic name : {}
                 );
                 return Err(io::ErrorKind::InvalidData.into());
             }
+            redelivered = true;
         } else {
             // FIXME: check qos2_pids limit
             session.qos2_pids.insert(pid, current_hash);
         }
     }
 
-    if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         send_publish(
             session,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index aa98946..4d8d1cb 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -118,6 +118,7 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -147,6 +148,7 @@ topic name : {}
                 );
                 return Err(err_pkt);
             }
+            redelivered = true;
         } else if session.qos2_pids.len() >= global.config.max_inflight_server as usize {
             let err_pkt = build_error_disconnect(
                 session,
@@ -160,7 +162,7 @@ topic name : {}
         }
     }
 
-    let matched_len = if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    let matched_len = if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         let properties = &mut packet.properties;
         properties.topic_alias = None;
-- 
2.43.0


From 808c991beeea3eb8f1c42f1bfb9335203d0b356a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 09/47] fix: resolve the topic alias before identifying a QoS 2
 redelivery and measuring the message

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4d8d1cb..9958b93 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -118,6 +118,11 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    // Topic alias is only valid for current connection, and a packet may be
+    // re-delivered by another connection.
+    packet.topic_name = topic_name;
+    packet.properties.topic_alias = None;
+
     let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
@@ -164,16 +169,14 @@ topic name : {}
 
     let matched_len = if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
-        let properties = &mut packet.properties;
-        properties.topic_alias = None;
         send_publish(
             session,
             SendPublish {
                 qos: packet.qos_pid.qos(),
                 retain: packet.retain,
-                topic_name: &topic_name,
+                topic_name: &packet.topic_name,
                 payload: &packet.payload,
-                properties,
+                properties: &packet.properties,
                 encode_len,
             },
             global,
-- 
2.43.0


From 711fa84b1a4f37284cef0dbad77a48fc6f48062d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 10/47] fix: a PUBREC with an error code ends the delivery
 instead of being released

---
 akasa-core/src/protocols/mqtt/v5/message.rs        |  4 +++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 13 +++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 4b0f540..e20affd 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -475,7 +475,9 @@ impl OnlineSession for Session {
                 }
             }
             Packet::Puback(pkt) => handle_puback(self, pkt),
-            Packet::Pubrec(pkt) => write_packets.push_back(handle_pubrec(self, pkt).into()),
+            Packet::Pubrec(pkt) => {
+                write_packets.extend(handle_pubrec(self, pkt).map(WritePacket::Packet))
+            }
             Packet::Pubrel(pkt) => write_packets.push_back(handle_pubrel(self, pkt).into()),
             Packet::Pubcomp(pkt) => handle_pubcomp(self, pkt),
             Packet::Subscribe(pkt) => {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 9958b93..2575557 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -226,23 +226,28 @@ pub(crate) fn handle_puback(session: &mut Session, packet: Puback) {
 }
 
 #[inline]
-pub(crate) fn handle_pubrec(session: &mut Session, packet: Pubrec) -> Packet {
+pub(crate) fn handle_pubrec(session: &mut Session, packet: Pubrec) -> Option<Packet> {
     log::debug!(
         "{} received a pubrec  packet: id={}",
         session.client_id,
         packet.pid.value()
     );
+    if packet.reason_code as u8 >= 0x80 {
+        // The client refused the message, so there is nothing to release.
+        let _matched = session.pending_packets.complete(packet.pid, QoS::Level1);
+        return None;
+    }
     let reason_code = if session.pending_packets.pubrec(packet.pid) {
         PubrelReasonCode::Success
     } else {
         PubrelReasonCode::PacketIdentifierNotFound
     };
-    Pubrel {
+    let rv_packet = Pubrel {
         pid: packet.pid,
         reason_code,
         properties: PubrelProperties::default(),
-    }
-    .into()
+    };
+    Some(rv_packet.into())
 }
 
 #[inline]
-- 
2.43.0


From 0c09ddb8a842d0fa3bd19a9e6dc9adea20156279 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 11/47] fix: a repeated PUBREC is answered with a successful
 PUBREL

---
 akasa-core/src/protocols/mqtt/pending.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index e6bff72..71f7167 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -60,7 +60,12 @@ impl<P: Debug> PendingPackets<P> {
                         return true;
                     }
                 }
-                PendingPacketStatus::Pubrec { .. } => {}
+                PendingPacketStatus::Pubrec { pid, .. } => {
+                    // repeated PUBREC
+                    if *pid == target_pid {
+                        return true;
+                    }
+                }
                 PendingPacketStatus::Complete => {}
             }
         }
-- 
2.43.0


From 1231ca2940521941f1a08b556781909dd2f2ae42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 12/47] fix: a packet completed out of order must free its
 place in the inflight window

---
 akasa-core/src/protocols/mqtt/pending.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index 71f7167..927311f 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -96,13 +96,13 @@ impl<P: Debug> PendingPackets<P> {
     }
 
     pub fn clean_complete(&mut self) {
-        let mut changed = false;
-        while let Some(PendingPacketStatus::Complete) = self.packets.front() {
-            self.packets.pop_front();
-            changed = true;
-        }
+        let old_len = self.packets.len();
+        // A packet may complete before the packets in front of it, it must not
+        // occupy the inflight window any longer.
+        self.packets
+            .retain(|status| !matches!(status, PendingPacketStatus::Complete));
         // shrink the queue to save memory
-        if changed {
+        if self.packets.len() < old_len {
             if self.packets.capacity() >= 16 && self.packets.capacity() >= (self.packets.len() << 2)
             {
                 self.packets.shrink_to(self.packets.len() << 1);
@@ -140,6 +140,15 @@ impl<P: Debug> PendingPackets<P> {
         next_idx.map(|idx| (idx, self.packets.get_mut(idx).expect("packet")))
     }
 
+    /// If the packet identifier is used by a packet in the queue
+    pub fn contains(&self, target_pid: Pid) -> bool {
+        self.packets.iter().any(|status| match status {
+            PendingPacketStatus::New { pid, .. } => *pid == target_pid,
+            PendingPacketStatus::Pubrec { pid, .. } => *pid == target_pid,
+            PendingPacketStatus::Complete => false,
+        })
+    }
+
     pub fn len(&self) -> usize {
         self.packets.len()
     }
-- 
2.43.0


From c61066135dfa20bc0cfb5f1a4621e9e38a36c021 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 13/47] fix: never assign a packet identifier that is still in
 use

---
 akasa-core/src/protocols/mqtt/v3/session.rs | 6 ++++++
 akasa-core/src/protocols/mqtt/v5/session.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index f929877..092a17c 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -89,6 +89,12 @@ impl Session {
     }
 
     pub(crate) fn incr_server_packet_id(&mut self) -> Pid {
+        // Skip the packet identifiers still in use
+        while self.pending_packets.contains(self.server_packet_id)
+            && self.pending_packets.len() < u16::MAX as usize
+        {
+            self.server_packet_id += 1;
+        }
         let old_value = self.server_packet_id;
         self.server_packet_id += 1;
         old_value
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 41005cd..0d9ac8a 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -143,6 +143,12 @@ impl Session {
     }
 
     pub(crate) fn incr_server_packet_id(&mut self) -> Pid {
+        // Skip the packet identifiers still in use
+        while self.pending_packets.contains(self.server_packet_id)
+            && self.pending_packets.len() < u16::MAX as usize
+        {
+            self.server_packet_id += 1;
+        }
         let old_value = self.server_packet_id;
         self.server_packet_id += 1;
         old_value
-- 
2.43.0


From e848fb3a52a6deec930ca9b0850b7c94ac7c8bd7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 14/47] fix: expired messages must not stop the delivery of the
 messages behind them

---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d379405..4469775 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -150,6 +150,14 @@ pub(super) fn get_or_assign_server_topic_alias(
 
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
+    let mut packets = Vec::new();
+    // Expired packets leave room in the inflight window for the packets behind them
+    while collect_pendings(session, &mut packets) {}
+    packets
+}
+
+/// Collect the packets ready to send, return if there are packets removed because of expired
+fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
     let topic_alias_max = session.topic_alias_max;
     let (pending_packets, aliases_by_topic, aliases_by_alias, tick) = (
         &mut session.pending_packets,
@@ -159,7 +167,6 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     );
 
     pending_packets.clean_complete();
-    let mut packets = Vec::new();
     let mut expired_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = pending_packets.get_ready_packet(start_idx) {
@@ -237,7 +244,7 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     if !expired_packets.is_empty() {
         pending_packets.clean_complete();
     }
-    packets
+    !expired_packets.is_empty()
 }
 
 #[inline]
-- 
2.43.0


From 4192b8105ee03725b56be73d21c4d77437468499 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 15/47] fix: messages published by v3 clients must reach shared
 subscriptions

---
 .../src/protocols/mqtt/v3/packet/publish.rs   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index ed7d575..84c6a0f 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -7,10 +7,12 @@ use std::sync::Arc;
 use ahash::AHasher;
 use bytes::Bytes;
 use mqtt_proto::{
-    Encodable, Pid, QoS, QosPid, TopicFilter, TopicName, total_len,
+    Encodable, Pid, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
     v3::{Packet, Publish},
 };
+use rand::RngExt;
 
+use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
@@ -204,6 +206,22 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
+        for (group_name, shared_clients) in &content.groups {
+            let (client_id, subscribe_qos) = match global.config.shared_subscription_mode {
+                SharedSubscriptionMode::Random => {
+                    shared_clients.get_by_number(rand::rng().random())
+                }
+                SharedSubscriptionMode::HashClientId => {
+                    shared_clients.get_by_hash(&session.client_identifier)
+                }
+                SharedSubscriptionMode::HashTopicName => shared_clients.get_by_hash(msg.topic_name),
+            };
+            let full_filter = TopicFilter::try_from(
+                format!("{SHARED_PREFIX}{group_name}/{subscribe_filter}").as_str(),
+            )
+            .expect("full topic filter");
+            senders.push((client_id, full_filter, subscribe_qos));
+        }
     }
 
     session.broadcast_packets_cnt += senders.len();
-- 
2.43.0


From 84a22c166eba500eeefd5f953975131003ad5d76 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 16/47] fix: a v3 subscriber must not lose a message because
 only one of its filters was unsubscribed

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 25f49f4..fa9d480 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -627,6 +627,10 @@ fn handle_normal(
                 session.client_id,
                 sender
             );
+            // some of the filters may already be unsubscribed
+            let subscribe_filter = subscribe_filters
+                .iter()
+                .find(|filter| session.subscribes.contains_key(*filter))?;
             recv_publish(
                 session,
                 RecvPublish {
@@ -634,7 +638,7 @@ fn handle_normal(
                     qos,
                     retain,
                     payload,
-                    subscribe_filter: subscribe_filters.first()?,
+                    subscribe_filter,
                     subscribe_qos,
                 },
             )
-- 
2.43.0


From 2e876d577c756bc232f32feba8da14adce70a26a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:22 +0000
Subject: [PATCH 17/47] fix: a refused or failed take-over must not leak the
 online count or hang the new connection

---
 akasa-core/src/state.rs | 157 ++++++++++++++++++++++++----------------
 1 file changed, 94 insertions(+), 63 deletions(-)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 4ca668e..4e24acf 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -116,9 +116,11 @@ impl GlobalState {
     // When clean_session=0 and client disconnected
     pub fn offline_client(&self, client_id: ClientId) {
         let _guard = self.next_client_id.lock();
-        assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
-        if let Some(mut pair) = self.client_id_map.get_mut(&client_id) {
+        if let Some(mut pair) = self.client_id_map.get_mut(&client_id)
+            && pair.value().1
+        {
             pair.value_mut().1 = false;
+            assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
         }
     }
 
@@ -140,80 +142,109 @@ impl GlobalState {
     }
 
     // Client connected
-    // TODO: error handling
     pub async fn add_client(
         &self,
         client_identifier: &str,
         protocol: Protocol,
     ) -> io::Result<AddClientReceipt> {
-        let control_sender = {
-            let mut next_client_id = self.next_client_id.lock();
-            self.online_clients.fetch_add(1, Ordering::AcqRel);
-            let client_id_opt: Option<ClientId> = self
-                .client_identifier_map
-                .get(client_identifier)
-                .map(|pair| *pair.value());
-            if let Some(old_id) = client_id_opt {
-                if let Some(mut pair) = self.client_id_map.get_mut(&old_id) {
-                    pair.value_mut().1 = true;
+        loop {
+            let (old_id, control_sender) = {
+                let mut next_client_id = self.next_client_id.lock();
+                let client_id_opt: Option<ClientId> = self
+                    .client_identifier_map
+                    .get(client_identifier)
+                    .map(|pair| *pair.value());
+                if let Some(old_id) = client_id_opt {
+                    (old_id, self.get_client_control_sender(&old_id).unwrap())
+                } else {
+                    let client_id = *next_client_id;
+                    self.online_clients.fetch_add(1, Ordering::AcqRel);
+                    self.client_id_map
+                        .insert(client_id, (client_identifier.to_string(), true));
+                    self.client_identifier_map
+                        .insert(client_identifier.to_string(), client_id);
+                    // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
+                    //   Suggestion: Add QoS0 message to pending queue
+                    let (control_sender, control_receiver) = bounded(1);
+                    let (normal_sender, normal_receiver) = bounded(8);
+                    let sender = ClientSender {
+                        normal: normal_sender,
+                        control: control_sender,
+                    };
+                    self.clients.insert(client_id, sender);
+                    next_client_id.0 += 1;
+                    return Ok(AddClientReceipt::New {
+                        client_id,
+                        receiver: ClientReceiver {
+                            control: control_receiver,
+                            normal: normal_receiver,
+                        },
+                    });
                 }
-                self.get_client_control_sender(&old_id).unwrap()
-            } else {
-                let client_id = *next_client_id;
-                self.client_id_map
-                    .insert(client_id, (client_identifier.to_string(), true));
-                self.client_identifier_map
-                    .insert(client_identifier.to_string(), client_id);
-                // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
-                //   Suggestion: Add QoS0 message to pending queue
-                let (control_sender, control_receiver) = bounded(1);
-                let (normal_sender, normal_receiver) = bounded(8);
-                let sender = ClientSender {
-                    normal: normal_sender,
-                    control: control_sender,
-                };
-                self.clients.insert(client_id, sender);
-                next_client_id.0 += 1;
-                return Ok(AddClientReceipt::New {
-                    client_id,
-                    receiver: ClientReceiver {
-                        control: control_receiver,
-                        normal: normal_receiver,
-                    },
-                });
-            }
-        };
+            };
 
-        if protocol < Protocol::V500 {
-            let (sender, receiver) = bounded(1);
-            if let Err(err) = control_sender
-                .send_async(ControlMessage::OnlineV3 { sender })
+            let receipt = if protocol < Protocol::V500 {
+                let (sender, receiver) = bounded(1);
+                request_session(
+                    control_sender,
+                    ControlMessage::OnlineV3 { sender },
+                    receiver,
+                )
                 .await
-            {
-                log::warn!("send online control message error: {:?}", err);
-                return Err(io::Error::from(io::ErrorKind::InvalidData));
-            }
-            let session_state = receiver.recv_async().await.map_err(|err| {
-                log::warn!("receive session state error: {:?}", err);
-                io::Error::from(io::ErrorKind::InvalidData)
-            })?;
-            Ok(AddClientReceipt::PresentV3(session_state))
-        } else {
-            let (sender, receiver) = bounded(1);
-            if let Err(err) = control_sender
-                .send_async(ControlMessage::OnlineV5 { sender })
+                .map(AddClientReceipt::PresentV3)
+            } else {
+                let (sender, receiver) = bounded(1);
+                request_session(
+                    control_sender,
+                    ControlMessage::OnlineV5 { sender },
+                    receiver,
+                )
                 .await
-            {
-                log::warn!("send online control message error: {:?}", err);
+                .map(AddClientReceipt::PresentV5)
+            };
+            if let Some(receipt) = receipt {
+                self.online_client(old_id);
+                return Ok(receipt);
+            }
+            if self.clients.contains_key(&old_id) {
+                log::warn!("take over the session of {} refused", old_id);
                 return Err(io::Error::from(io::ErrorKind::InvalidData));
             }
-            let session_state = receiver.recv_async().await.map_err(|err| {
-                log::warn!("receive session state error: {:?}", err);
-                io::Error::from(io::ErrorKind::InvalidData)
-            })?;
-            Ok(AddClientReceipt::PresentV5(session_state))
+            // The old session just finished, so the client identifier is free now.
         }
     }
+
+    // The session of an existing client been taken over
+    fn online_client(&self, client_id: ClientId) {
+        let _guard = self.next_client_id.lock();
+        if let Some(mut pair) = self.client_id_map.get_mut(&client_id)
+            && !pair.value().1
+        {
+            pair.value_mut().1 = true;
+            self.online_clients.fetch_add(1, Ordering::AcqRel);
+        }
+    }
+}
+
+/// Ask the loop of the old session to hand over its state, return None if it
+/// refused or already finished.
+async fn request_session<T>(
+    control_sender: Sender<ControlMessage>,
+    msg: ControlMessage,
+    state_receiver: Receiver<T>,
+) -> Option<T> {
+    if let Err(err) = control_sender.send_async(msg).await {
+        log::info!("send online control message error: {:?}", err);
+        return None;
+    }
+    // The message stay in the channel as long as there are senders, if the
+    // session finished without handle it we must not wait for ourself.
+    drop(control_sender);
+    state_receiver
+        .recv_async()
+        .await
+        .inspect_err(|err| log::info!("receive session state error: {:?}", err))
+        .ok()
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From b6058f07b72123743014ea8afa929a98171b0bca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 18/47] fix: a discarded session must leave no subscription,
 message or accepted publish behind

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 10 +++++++++-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 12e2c00..1afb256 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -116,7 +116,9 @@ clean session : {}
         AddClientReceipt::PresentV3(old_state) => {
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
-            *receiver = Some(old_state.receiver);
+            // Messages already accepted from the old connection must still be delivered.
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_session && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
@@ -133,8 +135,14 @@ clean session : {}
                     old_state.protocol,
                     session.clean_session,
                 );
+                // The client id is reused, so nothing of the old session may stay reachable.
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, old_state.client_id);
+                }
+                while old_state.receiver.normal.try_recv().is_ok() {}
                 session_present = false;
             }
+            *receiver = Some(old_state.receiver);
         }
         // not allowed, so this is dead branch.
         AddClientReceipt::PresentV5(_) => unreachable!(),
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index dc0e52d..dd8388b 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -230,7 +230,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
         AddClientReceipt::PresentV5(old_state) => {
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
-            *receiver = Some(old_state.receiver);
+            // Messages already accepted from the old connection must still be delivered.
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_start && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
@@ -247,8 +249,14 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                     old_state.protocol,
                     session.clean_start,
                 );
+                // The client id is reused, so nothing of the old session may stay reachable.
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, old_state.client_id);
+                }
+                while old_state.receiver.normal.try_recv().is_ok() {}
                 session_present = false;
             }
+            *receiver = Some(old_state.receiver);
         }
         AddClientReceipt::New {
             client_id,
-- 
2.43.0


From f346e07735e06c2dbc5d93659842e6af0bc3551a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 19/47] fix: the will of a connection that is taken over must
 be published

---
 akasa-core/src/protocols/mqtt/v3/message.rs     |  6 +++++-
 akasa-core/src/protocols/mqtt/v3/mod.rs         |  1 +
 .../src/protocols/mqtt/v3/packet/connect.rs     | 12 +++++++++++-
 akasa-core/src/protocols/mqtt/v3/packet/mod.rs  |  2 +-
 akasa-core/src/protocols/mqtt/v3/session.rs     |  2 ++
 akasa-core/src/protocols/mqtt/v5/message.rs     |  3 ++-
 akasa-core/src/protocols/mqtt/v5/mod.rs         |  1 +
 .../src/protocols/mqtt/v5/packet/connect.rs     | 17 ++++++++++++++++-
 akasa-core/src/protocols/mqtt/v5/packet/mod.rs  |  2 +-
 akasa-core/src/protocols/mqtt/v5/session.rs     |  2 ++
 10 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index fa9d480..57394ea 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -238,6 +238,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            last_will: self.last_will.take(),
 
             server_packet_id: self.server_packet_id,
             pending_packets,
@@ -505,7 +506,10 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
 }
 
 #[inline]
-async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+pub(super) async fn handle_will(
+    session: &mut Session,
+    global: &Arc<GlobalState>,
+) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         let encode_len = {
             let qos_pid = match last_will.qos {
diff --git a/akasa-core/src/protocols/mqtt/v3/mod.rs b/akasa-core/src/protocols/mqtt/v3/mod.rs
index ddd8b73..3384009 100644
--- a/akasa-core/src/protocols/mqtt/v3/mod.rs
+++ b/akasa-core/src/protocols/mqtt/v3/mod.rs
@@ -4,6 +4,7 @@ mod session;
 pub mod packet;
 
 pub use message::handle_connection;
+use message::handle_will;
 pub use session::{PubPacket, Session, SessionState};
 
 use super::{BroadcastPackets, PendingPackets};
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 1afb256..32d3b07 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -1,4 +1,5 @@
 use std::io;
+use std::mem;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -11,8 +12,8 @@ use tokio::io::AsyncWrite;
 use crate::protocols::mqtt::{check_password, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
-use super::Session;
 use super::common::write_packet;
+use super::{Session, handle_will};
 
 pub(crate) async fn handle_connect<T: AsyncWrite + Unpin>(
     session: &mut Session,
@@ -143,6 +144,15 @@ clean session : {}
                 session_present = false;
             }
             *receiver = Some(old_state.receiver);
+            // The network connection of the old session is closed without a
+            // normal disconnect, so its will is published.
+            if old_state.last_will.is_some() {
+                let last_will = mem::replace(&mut session.last_will, old_state.last_will);
+                if handle_will(session, global).await.is_err() {
+                    log::warn!("send will failed (packet too large)");
+                }
+                session.last_will = last_will;
+            }
         }
         // not allowed, so this is dead branch.
         AddClientReceipt::PresentV5(_) => unreachable!(),
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/mod.rs b/akasa-core/src/protocols/mqtt/v3/packet/mod.rs
index a13fc3a..fa4a19b 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/mod.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/mod.rs
@@ -4,4 +4,4 @@ pub(crate) mod connect;
 pub(crate) mod publish;
 pub(crate) mod subscribe;
 
-use super::{PubPacket, Session};
+use super::{PubPacket, Session, handle_will};
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index 092a17c..ef05fc8 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -43,6 +43,8 @@ pub struct SessionState {
     pub client_id: ClientId,
     pub protocol: Protocol,
     pub receiver: ClientReceiver,
+    // The will message not published yet
+    pub last_will: Option<LastWill>,
 
     // For record packet id send from server to client
     pub server_packet_id: Pid,
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index e20affd..f7a1d57 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -362,6 +362,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            last_will: self.last_will.take(),
 
             server_packet_id: self.server_packet_id,
             pending_packets,
@@ -894,7 +895,7 @@ fn handle_normal(
 
 // TODO: change to broadcast_will
 #[inline]
-fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+pub(super) fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         log::debug!("[{}] send will", session.client_id);
         let properties = last_will.properties;
diff --git a/akasa-core/src/protocols/mqtt/v5/mod.rs b/akasa-core/src/protocols/mqtt/v5/mod.rs
index 54f7cb0..772c0d3 100644
--- a/akasa-core/src/protocols/mqtt/v5/mod.rs
+++ b/akasa-core/src/protocols/mqtt/v5/mod.rs
@@ -4,6 +4,7 @@ mod session;
 pub mod packet;
 
 pub use message::handle_connection;
+use message::send_will;
 pub use session::{PubPacket, ScramStage, Session, SessionState, SubscriptionData};
 
 use super::{BroadcastPackets, PendingPackets};
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index dd8388b..cebad66 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -1,4 +1,5 @@
 use std::io;
+use std::mem;
 use std::sync::Arc;
 use std::time::Instant;
 
@@ -19,7 +20,7 @@ use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 use super::common::{build_error_connack, build_error_disconnect, write_packet};
 use crate::protocols::scram::AuthenticationStatus;
 
-use super::{ScramStage, Session};
+use super::{ScramStage, Session, send_will};
 
 pub(crate) async fn handle_connect<T: AsyncWrite + Unpin>(
     session: &mut Session,
@@ -257,6 +258,20 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                 session_present = false;
             }
             *receiver = Some(old_state.receiver);
+            // The network connection of the old session is closed without a
+            // normal disconnect, so its will is published unless delayed.
+            let will_delayed = old_state
+                .last_will
+                .as_ref()
+                .and_then(|will| will.properties.delay_interval)
+                .is_some_and(|delay| delay > 0);
+            if old_state.last_will.is_some() && !(session_present && will_delayed) {
+                let last_will = mem::replace(&mut session.last_will, old_state.last_will);
+                if send_will(session, global).is_err() {
+                    log::warn!("send will failed (packet too large)");
+                }
+                session.last_will = last_will;
+            }
         }
         AddClientReceipt::New {
             client_id,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/mod.rs b/akasa-core/src/protocols/mqtt/v5/packet/mod.rs
index c91bb00..2823c97 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/mod.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/mod.rs
@@ -4,4 +4,4 @@ pub(crate) mod connect;
 pub(crate) mod publish;
 pub(crate) mod subscribe;
 
-use super::{PubPacket, ScramStage, Session, SubscriptionData};
+use super::{PubPacket, ScramStage, Session, SubscriptionData, send_will};
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 0d9ac8a..82371d4 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -78,6 +78,8 @@ pub struct SessionState {
     pub client_id: ClientId,
     pub receiver: ClientReceiver,
     pub protocol: Protocol,
+    // The will message not published yet
+    pub last_will: Option<LastWill>,
 
     // For record packet id send from server to client
     pub server_packet_id: Pid,
-- 
2.43.0


From e3e68376b95106212ab6861ec892a5dd286d9740 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 20/47] fix: DISCONNECT with will message must publish the will

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index f7a1d57..177c158 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -311,10 +311,8 @@ async fn handle_online<
         session.client_disconnected,
         session.server_disconnected,
     );
-    // FIXME: check all place depend on session.disconnected
-    if !session.client_disconnected {
-        handle_will(&mut session, global).await?;
-    }
+    // [MQTT-3.1.2-10] only a normal DISCONNECT removes the will (see handle_disconnect)
+    handle_will(&mut session, global).await?;
     broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
-- 
2.43.0


From 5bbac53f1134b6293a47cb77addacca8b247455a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 21/47] fix: v3 subscriptions with a lower QoS must still get
 the retained messages

---
 .../src/protocols/mqtt/v3/packet/subscribe.rs | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7e0bbae..6cd25d6 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,19 +42,17 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
-            if msg.qos <= granted_qos
-                && let Some((final_qos, packet_opt)) = recv_publish(
-                    session,
-                    RecvPublish {
-                        topic_name: &msg.topic_name,
-                        qos: msg.qos,
-                        retain: true,
-                        payload: &msg.payload,
-                        subscribe_filter: filter,
-                        subscribe_qos: granted_qos,
-                    },
-                )
-            {
+            if let Some((final_qos, packet_opt)) = recv_publish(
+                session,
+                RecvPublish {
+                    topic_name: &msg.topic_name,
+                    qos: msg.qos,
+                    retain: true,
+                    payload: &msg.payload,
+                    subscribe_filter: filter,
+                    subscribe_qos: granted_qos,
+                },
+            ) {
                 if let Some(packet) = packet_opt {
                     rv_packets.push(packet);
                 }
-- 
2.43.0


From 54edbec5c3bb0df9bbc48296e29fe4f25627388d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 22/47] fix: v3 subscribers must not get the retain flag on
 live messages

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 57394ea..d73a570 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -593,7 +593,7 @@ fn handle_normal(
         NormalMessage::PublishV3 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
@@ -609,7 +609,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9] this is not because of a new subscription
+                    retain: false,
                     payload,
                     subscribe_filter,
                     subscribe_qos,
@@ -619,7 +620,7 @@ fn handle_normal(
         NormalMessage::PublishV5 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
@@ -640,7 +641,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9] this is not because of a new subscription
+                    retain: false,
                     payload,
                     subscribe_filter,
                     subscribe_qos,
-- 
2.43.0


From f4d433c63fc7810392119cdfc7b4d308d9a4628d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 23/47] fix: nothing is retained when retain is not available

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 1 +
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 84c6a0f..3baf764 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -166,6 +166,7 @@ pub(crate) struct RecvPublish<'a> {
 // Received a publish message from client or will, then publish the message to matched clients
 pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc<GlobalState>) {
     if msg.retain
+        && global.config.retain_available
         && let Some(old_content) = if msg.payload.is_empty() {
             log::debug!("retain message removed");
             global.retain_table.remove(msg.topic_name)
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 2575557..97380ec 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -322,6 +322,7 @@ pub(crate) fn send_publish(
     global: &Arc<GlobalState>,
 ) -> usize {
     if msg.retain
+        && global.config.retain_available
         && let Some(old_content) = if msg.payload.is_empty() {
             log::debug!("retain message removed");
             global.retain_table.remove(msg.topic_name)
-- 
2.43.0


From cee16d2cbe7fb31b2b8fa90df2e0ec8129dbf9a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 24/47] fix: a publish above the announced maximum QoS is
 refused

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 97380ec..69ba665 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -64,6 +64,17 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    if packet.qos_pid.qos() > global.config.max_allowed_qos() {
+        // [MQTT-3.2.2-11]
+        log::info!("publish qos not supported: {:?}", packet.qos_pid);
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::QoSNotSupported,
+            "qos not supported",
+        );
+        return Err(err_pkt);
+    }
+
     let properties = &mut packet.properties;
     let mut topic_name = packet.topic_name.clone();
     if let Some(alias) = properties.topic_alias {
-- 
2.43.0


From c395776bd871933af6cf692f51e9f83c27d68b85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 25/47] fix: expired retained messages must not be sent, and
 others only with the rest of their lifetime

---
 akasa-core/src/protocols/mqtt/retain.rs       | 23 +++++++++++++++++++
 .../src/protocols/mqtt/v3/packet/subscribe.rs |  3 +++
 .../src/protocols/mqtt/v5/packet/subscribe.rs |  5 +++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/retain.rs b/akasa-core/src/protocols/mqtt/retain.rs
index 185a798..aef1579 100644
--- a/akasa-core/src/protocols/mqtt/retain.rs
+++ b/akasa-core/src/protocols/mqtt/retain.rs
@@ -8,6 +8,7 @@ use mqtt_proto::{
 };
 use parking_lot::RwLock;
 
+use super::get_unix_ts;
 use super::route::split_topic;
 
 #[derive(Debug, Default)]
@@ -30,6 +31,8 @@ pub struct RetainContent {
     pub payload: Bytes,
     pub properties: Option<PublishProperties>,
     pub encode_len: usize,
+    // when the message expires (unix timestamp)
+    expire_at: Option<u64>,
 }
 
 impl RetainTable {
@@ -166,6 +169,10 @@ impl RetainContent {
         properties: Option<PublishProperties>,
         encode_len: usize,
     ) -> RetainContent {
+        let expire_at = properties
+            .as_ref()
+            .and_then(|properties| properties.message_expiry_interval)
+            .map(|interval| get_unix_ts() + interval as u64);
         RetainContent {
             client_identifier,
             qos,
@@ -173,8 +180,24 @@ impl RetainContent {
             payload,
             properties,
             encode_len,
+            expire_at,
         }
     }
+
+    pub fn is_expired(&self) -> bool {
+        self.expire_at
+            .is_some_and(|expire_at| get_unix_ts() >= expire_at)
+    }
+
+    /// The properties to send with the message, including what is left of the expiry interval
+    pub fn current_properties(&self) -> Option<PublishProperties> {
+        let mut properties = self.properties.clone()?;
+        if let Some(expire_at) = self.expire_at {
+            properties.message_expiry_interval =
+                Some(expire_at.saturating_sub(get_unix_ts()) as u32);
+        }
+        Some(properties)
+    }
 }
 
 #[cfg(test)]
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 6cd25d6..bbb786e 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,6 +42,9 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
+            if msg.is_expired() {
+                continue;
+            }
             if let Some((final_qos, packet_opt)) = recv_publish(
                 session,
                 RecvPublish {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index cc6956d..26c37c5 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -87,6 +87,9 @@ packet id : {}
                         if sub_opts.no_local && msg.client_identifier == session.client_identifier {
                             continue;
                         }
+                        if msg.is_expired() {
+                            continue;
+                        }
                         let encode_len = if msg.properties.is_none() {
                             // one byte for property length
                             msg.encode_len + 1
@@ -103,7 +106,7 @@ packet id : {}
                                 payload: &msg.payload,
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
-                                properties: msg.properties.as_ref(),
+                                properties: msg.current_properties().as_ref(),
                                 encode_len,
                             },
                         ) {
-- 
2.43.0


From dedeeb2edb6c3325a0da00936a300067c6e07fa8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 26/47] fix: whatever fails after the client is known, its
 session must be finished properly

---
 akasa-core/src/protocols/mqtt/online_loop.rs  |   5 +-
 akasa-core/src/protocols/mqtt/v3/message.rs   | 110 ++++++++-----
 .../src/protocols/mqtt/v3/packet/connect.rs   |   6 +-
 akasa-core/src/protocols/mqtt/v5/message.rs   | 152 +++++++++++-------
 .../src/protocols/mqtt/v5/packet/connect.rs   |  36 +++--
 5 files changed, 191 insertions(+), 118 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2268279..9657474 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -73,6 +73,9 @@ where
         taken_over: &'a mut bool,
         packet_state: GenericPollPacketState<H>,
     ) -> Self {
+        // The packets waiting for this connection, see also: `too_much_write_data`
+        let mut write_packets = VecDeque::with_capacity(16);
+        session.after_handle_packet(&mut write_packets);
         OnlineLoop {
             session,
             global,
@@ -86,7 +89,7 @@ where
             read_unfinish: false,
             normal_stream_unfinish: false,
             write_packets_max: 16,
-            write_packets: VecDeque::with_capacity(16),
+            write_packets,
             session_state_sender: None,
             hook_fut: None,
             draining: None,
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index d73a570..4b93483 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -28,7 +28,7 @@ use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, Normal
 use super::{
     Session, SessionState,
     packet::{
-        common::{after_handle_packet, handle_pendings, write_packet},
+        common::{after_handle_packet, handle_pendings},
         connect::{handle_connect, handle_disconnect},
         publish::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
@@ -94,28 +94,28 @@ pub async fn handle_connection<
     Ok(())
 }
 
+/// Handle the connection until the client is connected (or refused)
 #[allow(clippy::too_many_arguments)]
-async fn handle_online<
+async fn open_session<
     T: AsyncRead + AsyncWrite + Unpin,
     H: Hook + Clone + Send + Sync + 'static,
 >(
-    mut conn: T,
+    session: &mut Session,
+    receiver: &mut Option<ClientReceiver>,
+    conn: &mut T,
     peer: SocketAddr,
     _header: Header,
     protocol: Protocol,
     timeout_receiver: Receiver<()>,
     hook_handler: &H,
     global: &Arc<GlobalState>,
-) -> io::Result<Option<(Session, ClientReceiver)>> {
-    let mut session = Session::new(&global.config, peer);
-    let mut receiver = None;
-
+) -> io::Result<()> {
     let timeout = async {
         log::info!("connection timeout: {}", peer);
         let _ = timeout_receiver.recv_async().await;
         Err(Error::IoError(IoErrorKind::TimedOut))
     };
-    let packet = match Connect::decode_stream_with_protocol(&mut conn, protocol)
+    let packet = match Connect::decode_stream_with_protocol(conn, protocol)
         .or(timeout)
         .await
     {
@@ -132,8 +132,7 @@ async fn handle_online<
         before_connect_hook(peer, &packet, hook_handler, global).await?;
     }
 
-    let session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
+    let session_present = handle_connect(session, receiver, packet, conn, global).await?;
 
     if !session.connected {
         log::info!("{} not connected", session.peer);
@@ -142,36 +141,73 @@ async fn handle_online<
 
     // Run after connect hook
     if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
-
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
+        after_connect_hook(session, session_present, hook_handler, global).await?;
     }
+    Ok(())
+}
 
-    let receiver = receiver.expect("receiver");
-    log::info!(
-        "{} connected, total {} clients ({} online) ",
-        session.peer,
-        global.clients_count(),
-        global.online_clients_count(),
-    );
+#[allow(clippy::too_many_arguments)]
+async fn handle_online<
+    T: AsyncRead + AsyncWrite + Unpin,
+    H: Hook + Clone + Send + Sync + 'static,
+>(
+    mut conn: T,
+    peer: SocketAddr,
+    header: Header,
+    protocol: Protocol,
+    timeout_receiver: Receiver<()>,
+    hook_handler: &H,
+    global: &Arc<GlobalState>,
+) -> io::Result<Option<(Session, ClientReceiver)>> {
+    let mut session = Session::new(&global.config, peer);
+    let mut receiver = None;
 
-    let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
+    let opened = open_session(
         &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
+        &mut receiver,
         &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+        peer,
+        header,
+        protocol,
+        timeout_receiver,
+        hook_handler,
+        global,
+    )
+    .await;
+    let Some(receiver) = receiver else {
+        // refused before there is a session
+        return opened.map(|()| None);
+    };
+    let mut taken_over = false;
+    // From here on the client is known, so whatever happens its session must be finished properly.
+    let io_error = match opened {
+        Ok(()) => {
+            log::info!(
+                "{} connected, total {} clients ({} online) ",
+                session.peer,
+                global.clients_count(),
+                global.online_clients_count(),
+            );
+            OnlineLoop::new(
+                &mut session,
+                global,
+                hook_handler,
+                &receiver,
+                receiver.control.stream(),
+                receiver.normal.stream(),
+                &mut conn,
+                &mut taken_over,
+                PollPacketState::default(),
+            )
+            .await
+        }
+        Err(err) => Some(err),
+    };
+    if global.config.hook.enable_after_disconnect
+        && let Err(err) =
+            after_disconnect_hook(&mut session, taken_over, hook_handler, global).await
+    {
+        log::warn!("{} after disconnect hook error: {}", peer, err);
     }
     if taken_over {
         return Ok(None);
@@ -180,7 +216,9 @@ async fn handle_online<
     // FIXME: check all place depend on session.disconnected
     if !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        handle_will(&mut session, global).await?;
+        if handle_will(&mut session, global).await.is_err() {
+            log::warn!("send will failed (packet too large)");
+        }
     }
     for (target_id, info) in session.broadcast_packets.drain() {
         for msg in info.msgs {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 32d3b07..b988cc6 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -166,8 +166,6 @@ clean session : {}
         }
     }
 
-    // FIXME: early return after add_client will cause memory leak
-
     start_keep_alive_timer(
         session.keep_alive,
         session.client_id,
@@ -177,10 +175,10 @@ clean session : {}
 
     log::debug!("Socket {} assgined to: {}", session.peer, session.client_id);
 
-    let rv_packet = Connack::new(session_present, return_code);
-    write_packet(session.client_id, conn, &rv_packet.into()).await?;
     session.connected = true;
     session.connected_time = Some(Instant::now());
+    let rv_packet = Connack::new(session_present, return_code);
+    write_packet(session.client_id, conn, &rv_packet.into()).await?;
     Ok(session_present)
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 177c158..71176da 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -118,28 +118,28 @@ pub async fn handle_connection<
     Ok(())
 }
 
+/// Handle the connection until the client is connected (or refused)
 #[allow(clippy::too_many_arguments)]
-async fn handle_online<
+async fn open_session<
     T: AsyncRead + AsyncWrite + Unpin,
     H: Hook + Clone + Send + Sync + 'static,
 >(
-    mut conn: T,
+    session: &mut Session,
+    receiver: &mut Option<ClientReceiver>,
+    conn: &mut T,
     peer: SocketAddr,
     header: Header,
     protocol: Protocol,
     timeout_receiver: Receiver<()>,
     hook_handler: &H,
     global: &Arc<GlobalState>,
-) -> io::Result<Option<(Session, ClientReceiver)>> {
-    let mut session = Session::new(&global.config, peer);
-    let mut receiver = None;
-
+) -> io::Result<()> {
     let timeout = async {
         let _ = timeout_receiver.recv_async().await;
         log::info!("timeout when decode connect packet: {}", peer);
         Err(Error::IoError(IoErrorKind::TimedOut).into())
     };
-    let packet = match Connect::decode_stream_with_protocol(&mut conn, header, protocol)
+    let packet = match Connect::decode_stream_with_protocol(conn, header, protocol)
         .or(timeout)
         .await
     {
@@ -149,22 +149,22 @@ async fn handle_online<
                 ErrorV5::Common(Error::IoError(kind)) => Err(Error::IoError(kind).into()),
                 ErrorV5::Common(err) => {
                     let err_pkt = build_error_connack(
-                        &mut session,
+                        session,
                         false,
                         ConnectReasonCode::MalformedPacket,
                         err.to_string(),
                     );
-                    write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                    write_packet(session.client_id, conn, &err_pkt).await?;
                     Err(io::ErrorKind::InvalidData.into())
                 }
                 err => {
                     let err_pkt = build_error_connack(
-                        &mut session,
+                        session,
                         false,
                         ConnectReasonCode::MalformedPacket,
                         err.to_string(),
                     );
-                    write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                    write_packet(session.client_id, conn, &err_pkt).await?;
                     Err(io::ErrorKind::InvalidData.into())
                 }
             };
@@ -173,11 +173,10 @@ async fn handle_online<
 
     // Run before connect hook
     if global.config.hook.enable_before_connect {
-        before_connect_hook(&mut session, &mut conn, peer, &packet, hook_handler, global).await?;
+        before_connect_hook(session, conn, peer, &packet, hook_handler, global).await?;
     }
 
-    let mut session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
+    let mut session_present = handle_connect(session, receiver, packet, conn, global).await?;
 
     // * Scram challenge only need 1 round.
     // * Kerberos challenge need 2 rounds.
@@ -186,28 +185,28 @@ async fn handle_online<
         round_quota -= 1;
 
         let packet = async {
-            match Packet::decode_async(&mut conn).await {
+            match Packet::decode_async(conn).await {
                 Ok(packet) => Ok(packet),
                 Err(err) => match err {
                     ErrorV5::Common(Error::IoError(kind)) => Err(Error::IoError(kind).into()),
                     ErrorV5::Common(err) => {
                         let err_pkt = build_error_connack(
-                            &mut session,
+                            session,
                             false,
                             ConnectReasonCode::MalformedPacket,
                             err.to_string(),
                         );
-                        write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                        write_packet(session.client_id, conn, &err_pkt).await?;
                         Err(io::ErrorKind::InvalidData.into())
                     }
                     err => {
                         let err_pkt = build_error_connack(
-                            &mut session,
+                            session,
                             false,
                             ConnectReasonCode::MalformedPacket,
                             err.to_string(),
                         );
-                        write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                        write_packet(session.client_id, conn, &err_pkt).await?;
                         Err(io::ErrorKind::InvalidData.into())
                     }
                 },
@@ -224,22 +223,16 @@ async fn handle_online<
             _ => {
                 log::info!("Not connected, only AUTH packet is allowed");
                 let err_pkt =
-                    build_error_connack(&mut session, false, ConnectReasonCode::ProtocolError, "");
-                write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                return Ok(None);
+                    build_error_connack(session, false, ConnectReasonCode::ProtocolError, "");
+                write_packet(session.client_id, conn, &err_pkt).await?;
+                return Ok(());
             }
         };
 
-        match handle_auth(&mut session, auth, global) {
+        match handle_auth(session, auth, global) {
             Ok((AuthReasonCode::Success, server_final)) => {
-                session_present = session_connect(
-                    &mut session,
-                    &mut receiver,
-                    Some(server_final),
-                    &mut conn,
-                    global,
-                )
-                .await?;
+                session_present =
+                    session_connect(session, receiver, Some(server_final), conn, global).await?;
             }
             Ok((AuthReasonCode::ContinueAuthentication, server_first)) => {
                 let auth_method = session.auth_method.as_ref().expect("auth method");
@@ -252,12 +245,12 @@ async fn handle_online<
                         user_properties: Vec::new(),
                     },
                 };
-                write_packet(session.client_id, &mut conn, &rv_packet.into()).await?;
+                write_packet(session.client_id, conn, &rv_packet.into()).await?;
             }
             Ok((AuthReasonCode::ReAuthentication, _)) => unreachable!(),
             Err(err_pkt) => {
-                write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                return Ok(None);
+                write_packet(session.client_id, conn, &err_pkt).await?;
+                return Ok(());
             }
         }
     }
@@ -270,36 +263,73 @@ async fn handle_online<
 
     // Run after connect hook
     if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
-
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
+        after_connect_hook(session, session_present, hook_handler, global).await?;
     }
+    Ok(())
+}
 
-    let receiver = receiver.expect("receiver");
-    log::info!(
-        "{} connected, total {} clients ({} online) ",
-        session.peer,
-        global.clients_count(),
-        global.online_clients_count(),
-    );
+#[allow(clippy::too_many_arguments)]
+async fn handle_online<
+    T: AsyncRead + AsyncWrite + Unpin,
+    H: Hook + Clone + Send + Sync + 'static,
+>(
+    mut conn: T,
+    peer: SocketAddr,
+    header: Header,
+    protocol: Protocol,
+    timeout_receiver: Receiver<()>,
+    hook_handler: &H,
+    global: &Arc<GlobalState>,
+) -> io::Result<Option<(Session, ClientReceiver)>> {
+    let mut session = Session::new(&global.config, peer);
+    let mut receiver = None;
 
-    let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
+    let opened = open_session(
         &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
+        &mut receiver,
         &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+        peer,
+        header,
+        protocol,
+        timeout_receiver,
+        hook_handler,
+        global,
+    )
+    .await;
+    let Some(receiver) = receiver else {
+        // refused before there is a session
+        return opened.map(|()| None);
+    };
+    let mut taken_over = false;
+    // From here on the client is known, so whatever happens its session must be finished properly.
+    let io_error = match opened {
+        Ok(()) => {
+            log::info!(
+                "{} connected, total {} clients ({} online) ",
+                session.peer,
+                global.clients_count(),
+                global.online_clients_count(),
+            );
+            OnlineLoop::new(
+                &mut session,
+                global,
+                hook_handler,
+                &receiver,
+                receiver.control.stream(),
+                receiver.normal.stream(),
+                &mut conn,
+                &mut taken_over,
+                PollPacketState::default(),
+            )
+            .await
+        }
+        Err(err) => Some(err),
+    };
+    if global.config.hook.enable_after_disconnect
+        && let Err(err) =
+            after_disconnect_hook(&mut session, taken_over, hook_handler, global).await
+    {
+        log::warn!("{} after disconnect hook error: {}", peer, err);
     }
     if taken_over {
         return Ok(None);
@@ -312,7 +342,9 @@ async fn handle_online<
         session.server_disconnected,
     );
     // [MQTT-3.1.2-10] only a normal DISCONNECT removes the will (see handle_disconnect)
-    handle_will(&mut session, global).await?;
+    if handle_will(&mut session, global).await.is_err() {
+        log::warn!("send will failed (packet too large)");
+    }
     broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index cebad66..addc3aa 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -221,6 +221,22 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     conn: &mut T,
     global: &Arc<GlobalState>,
 ) -> io::Result<bool> {
+    // Refuse before the client is added, so there is nothing to clean up.
+    if let Some(will) = session.last_will.as_ref() {
+        let reason_code = if will.retain && !global.config.retain_available {
+            ConnectReasonCode::RetainNotSupported
+        } else if will.qos > global.config.max_allowed_qos() {
+            ConnectReasonCode::QoSNotSupported
+        } else {
+            ConnectReasonCode::Success
+        };
+        if reason_code != ConnectReasonCode::Success {
+            let err_pkt = build_error_connack(session, false, reason_code, "");
+            write_packet(session.client_id, conn, &err_pkt).await?;
+            return Ok(false);
+        }
+    }
+
     let mut session_present = false;
     match global
         .add_client(&session.client_identifier, session.protocol)
@@ -342,28 +358,14 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     }
     // * TODO ServerReference
 
-    let reason_code = if let Some(will) = session.last_will.as_ref() {
-        if will.retain && !global.config.retain_available {
-            ConnectReasonCode::RetainNotSupported
-        } else if will.qos > global.config.max_allowed_qos() {
-            ConnectReasonCode::QoSNotSupported
-        } else {
-            ConnectReasonCode::Success
-        }
-    } else {
-        ConnectReasonCode::Success
-    };
+    session.connected = true;
+    session.connected_time = Some(Instant::now());
     let rv_packet = Connack {
         session_present,
-        reason_code,
+        reason_code: ConnectReasonCode::Success,
         properties: connack_properties,
     };
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
-
-    if reason_code == ConnectReasonCode::Success {
-        session.connected = true;
-        session.connected_time = Some(Instant::now());
-    }
     Ok(session_present)
 }
 
-- 
2.43.0


From 3e22d77a0bb3cc708f4ba5a0108b8a5dc9403ff5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 27/47] fix: a session not asked to be kept is not resumed by a
 take-over

The session of a clean session (v3.x) or with a zero session expiry
interval (v5) ends when its network connection is closed, also when the
connection is closed because the client connected again.
---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 ++-
 akasa-core/src/protocols/mqtt/v3/session.rs        | 2 ++
 akasa-core/src/protocols/mqtt/v5/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 ++-
 akasa-core/src/protocols/mqtt/v5/session.rs        | 2 ++
 6 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 4b93483..4daa885 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -276,6 +276,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            kept: !self.clean_session,
             last_will: self.last_will.take(),
 
             server_packet_id: self.server_packet_id,
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index b988cc6..a4f6dab 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -121,7 +121,8 @@ clean session : {}
             session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
             session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_session && session.protocol == old_state.protocol {
+            // A session nobody asked to keep ended with its network connection.
+            if !session.clean_session && old_state.kept && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
                 session.pending_packets = old_state.pending_packets;
                 session.pending_packets.reset_last_sent();
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index ef05fc8..d08b6f3 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -43,6 +43,8 @@ pub struct SessionState {
     pub client_id: ClientId,
     pub protocol: Protocol,
     pub receiver: ClientReceiver,
+    // The client asked to keep the session after its network connection closed
+    pub kept: bool,
     // The will message not published yet
     pub last_will: Option<LastWill>,
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 71176da..def685f 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -392,6 +392,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            kept: self.session_expiry_interval > 0,
             last_will: self.last_will.take(),
 
             server_packet_id: self.server_packet_id,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index addc3aa..160c37a 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -251,7 +251,8 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
             session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_start && session.protocol == old_state.protocol {
+            // A session nobody asked to keep ended with its network connection.
+            if !session.clean_start && old_state.kept && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
                 session.pending_packets = old_state.pending_packets;
                 session.pending_packets.reset_last_sent();
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 82371d4..502cd43 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -78,6 +78,8 @@ pub struct SessionState {
     pub client_id: ClientId,
     pub receiver: ClientReceiver,
     pub protocol: Protocol,
+    // The client asked to keep the session after its network connection closed
+    pub kept: bool,
     // The will message not published yet
     pub last_will: Option<LastWill>,
 
-- 
2.43.0


From 3c753375edba14bc2fb09b5f30eaef950764628e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 28/47] fix: deliver what a closed connection published without
 blocking its session

At the end of a connection its messages waiting for other clients were
sent one by one, without looking at the own channels: the message in
flight got lost, two sessions ending together (or one subscribed to its
own messages) could wait for each other for ever, and a client could not
connect again as long as one of its subscribers was slow.
---
 akasa-core/src/protocols/mqtt/mod.rs         |   1 +
 akasa-core/src/protocols/mqtt/online_loop.rs | 219 +++++++++++--------
 akasa-core/src/protocols/mqtt/v3/message.rs  |  41 ++--
 akasa-core/src/protocols/mqtt/v5/message.rs  |  55 ++---
 4 files changed, 160 insertions(+), 156 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/mod.rs b/akasa-core/src/protocols/mqtt/mod.rs
index 22b4e30..84bbc6f 100644
--- a/akasa-core/src/protocols/mqtt/mod.rs
+++ b/akasa-core/src/protocols/mqtt/mod.rs
@@ -12,6 +12,7 @@ pub(crate) use common::start_keep_alive_timer;
 pub(crate) use pending::get_unix_ts;
 
 pub use auth::{MIN_SALT_LEN, check_password, dump_passwords, hash_password, load_passwords};
+pub(crate) use online_loop::flush_broadcast;
 pub use online_loop::{BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, WritePacket};
 pub use pending::{PendingPacketStatus, PendingPackets};
 pub use retain::{RetainContent, RetainTable};
diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 9657474..270f256 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -1,6 +1,6 @@
 use std::collections::VecDeque;
 use std::fmt::Debug;
-use std::future::Future;
+use std::future::{Future, poll_fn};
 use std::io;
 use std::mem::MaybeUninit;
 use std::pin::Pin;
@@ -468,103 +468,9 @@ where
             session.broadcast_packets_cnt(),
             session.broadcast_packets().len(),
         );
-        let old_cnt: usize = session
-            .broadcast_packets()
-            .values()
-            .map(|info| info.msgs.len())
-            .sum();
-        let mut consume_cnt = 0;
-        session.broadcast_packets().retain(|client_id, info| {
-            log::trace!(
-                "[{}] handling broadcast: flushed={}, msgs={:?}",
-                current_client_id,
-                info.flushed,
-                info.msgs
-            );
-            // `info.flushed` is for msgs is empty
-            if !info.flushed && info.msgs.is_empty() {
-                return match Pin::new(&mut info.sink).poll_flush(cx) {
-                    Poll::Ready(Ok(())) => {
-                        log::trace!(
-                            "[{}] broadcast to [{}] flush success",
-                            current_client_id,
-                            client_id,
-                        );
-                        false
-                    }
-                    Poll::Ready(Err(_)) => {
-                        consume_cnt += info.msgs.len();
-                        false
-                    }
-                    Poll::Pending => {
-                        log::trace!(
-                            "[{}] broadcast to [{}] retry not flushed",
-                            current_client_id,
-                            client_id,
-                        );
-                        true
-                    }
-                };
-            }
-            while let Some(msg) = info.msgs.pop_front() {
-                consume_cnt += 1;
-                match Pin::new(&mut info.sink).poll_ready(cx) {
-                    Poll::Ready(Ok(())) => {}
-                    Poll::Ready(Err(_)) => {
-                        // channel disconnected
-                        consume_cnt += info.msgs.len();
-                        return false;
-                    }
-                    Poll::Pending => {
-                        // channel is full
-                        consume_cnt -= 1;
-                        info.msgs.push_front(msg);
-                        pendings.broadcast = true;
-                        log::trace!("target client channel is pending: [{}]", client_id);
-                        return true;
-                    }
-                }
-                log::trace!(
-                    "[{}] broadcast to [{}] {:?}",
-                    current_client_id,
-                    client_id,
-                    msg
-                );
-                if Pin::new(&mut info.sink)
-                    .start_send((current_client_id, msg))
-                    .is_err()
-                {
-                    log::trace!("send publish to disconnected client: {}", client_id);
-                    consume_cnt += info.msgs.len();
-                    return false;
-                }
-            }
-            match Pin::new(&mut info.sink).poll_flush(cx) {
-                Poll::Ready(_) => false,
-                Poll::Pending => {
-                    log::trace!(
-                        "[{}] broadcast to [{}] not flushed",
-                        current_client_id,
-                        client_id,
-                    );
-                    info.flushed = false;
-                    true
-                }
-            }
-        });
-        let new_cnt: usize = session
-            .broadcast_packets()
-            .values()
-            .map(|info| info.msgs.len())
-            .sum();
-        // TODO: make this as debug assert when ready
-        assert_eq!(
-            new_cnt + consume_cnt,
-            old_cnt,
-            "new:{new_cnt} + consume:{consume_cnt} != old:{old_cnt}",
-        );
+        let (consume_cnt, broadcast_pending) = poll_broadcast(*session, cx);
+        pendings.broadcast = broadcast_pending;
         let have_broadcast = consume_cnt > 0;
-        session.consume_broadcast(consume_cnt);
 
         // FIXME: handle extension request here
 
@@ -685,6 +591,125 @@ where
     }
 }
 
+/// Send the packets waiting for other clients as far as those can take them.
+/// Returns how many were taken, and if some client can not take more for now.
+fn poll_broadcast<S: OnlineSession + ?Sized>(
+    session: &mut S,
+    cx: &mut Context<'_>,
+) -> (usize, bool) {
+    let current_client_id = session.client_id();
+    let old_cnt: usize = session
+        .broadcast_packets()
+        .values()
+        .map(|info| info.msgs.len())
+        .sum();
+    let (mut consume_cnt, mut pending) = (0, false);
+    session.broadcast_packets().retain(|client_id, info| {
+        log::trace!(
+            "[{}] handling broadcast: flushed={}, msgs={:?}",
+            current_client_id,
+            info.flushed,
+            info.msgs
+        );
+        // `info.flushed` is for msgs is empty
+        if !info.flushed && info.msgs.is_empty() {
+            return match Pin::new(&mut info.sink).poll_flush(cx) {
+                Poll::Ready(Ok(())) => {
+                    log::trace!(
+                        "[{}] broadcast to [{}] flush success",
+                        current_client_id,
+                        client_id,
+                    );
+                    false
+                }
+                Poll::Ready(Err(_)) => {
+                    consume_cnt += info.msgs.len();
+                    false
+                }
+                Poll::Pending => {
+                    log::trace!(
+                        "[{}] broadcast to [{}] retry not flushed",
+                        current_client_id,
+                        client_id,
+                    );
+                    true
+                }
+            };
+        }
+        while let Some(msg) = info.msgs.pop_front() {
+            consume_cnt += 1;
+            match Pin::new(&mut info.sink).poll_ready(cx) {
+                Poll::Ready(Ok(())) => {}
+                Poll::Ready(Err(_)) => {
+                    // channel disconnected
+                    consume_cnt += info.msgs.len();
+                    return false;
+                }
+                Poll::Pending => {
+                    // channel is full
+                    consume_cnt -= 1;
+                    info.msgs.push_front(msg);
+                    pending = true;
+                    log::trace!("target client channel is pending: [{}]", client_id);
+                    return true;
+                }
+            }
+            log::trace!(
+                "[{}] broadcast to [{}] {:?}",
+                current_client_id,
+                client_id,
+                msg
+            );
+            if Pin::new(&mut info.sink)
+                .start_send((current_client_id, msg))
+                .is_err()
+            {
+                log::trace!("send publish to disconnected client: {}", client_id);
+                consume_cnt += info.msgs.len();
+                return false;
+            }
+        }
+        match Pin::new(&mut info.sink).poll_flush(cx) {
+            Poll::Ready(_) => false,
+            Poll::Pending => {
+                log::trace!(
+                    "[{}] broadcast to [{}] not flushed",
+                    current_client_id,
+                    client_id,
+                );
+                info.flushed = false;
+                true
+            }
+        }
+    });
+    let new_cnt: usize = session
+        .broadcast_packets()
+        .values()
+        .map(|info| info.msgs.len())
+        .sum();
+    // TODO: make this as debug assert when ready
+    assert_eq!(
+        new_cnt + consume_cnt,
+        old_cnt,
+        "new:{new_cnt} + consume:{consume_cnt} != old:{old_cnt}",
+    );
+    session.consume_broadcast(consume_cnt);
+    (consume_cnt, pending)
+}
+
+/// Send all packets waiting for other clients.
+pub(crate) async fn flush_broadcast<S: OnlineSession>(session: &mut S) {
+    poll_fn(|cx| {
+        poll_broadcast(session, cx);
+        if session.broadcast_packets().is_empty() {
+            Poll::Ready(())
+        } else {
+            Poll::Pending
+        }
+    })
+    .await
+}
+
 fn too_much_write_data<P>(
     write_packets: &VecDeque<WritePacket<P>>,
     write_packets_max: usize,
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 4daa885..c563bf5 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -22,6 +22,7 @@ use crate::hook::{
 };
 use crate::protocols::mqtt::{
     BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, PendingPackets, WritePacket,
+    flush_broadcast,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
@@ -220,32 +221,16 @@ async fn handle_online<
             log::warn!("send will failed (packet too large)");
         }
     }
-    for (target_id, info) in session.broadcast_packets.drain() {
-        for msg in info.msgs {
-            if let Err(err) = info
-                .sink
-                .sender()
-                .send_async((session.client_id, msg))
-                .await
-            {
-                log::warn!(
-                    "[{}] handle will, send broadcast message to {} failed: {:?}",
-                    session.client_id,
-                    target_id,
-                    err
-                )
-            }
-        }
-    }
+    drop(conn);
+    // become a offline client, but session keep updating
+    global.offline_client(session.client_id);
+    session.connected = false;
     if session.clean_session {
-        global.remove_client(session.client_id, session.subscribes.keys());
+        handle_offline(session, receiver, Arc::clone(global)).await;
         if let Some(err) = io_error {
             return Err(err);
         }
     } else {
-        // become a offline client, but session keep updating
-        global.offline_client(session.client_id);
-        session.connected = false;
         return Ok(Some((session, receiver)));
     }
 
@@ -501,8 +486,16 @@ impl OnlineSession for Session {
 
 async fn handle_offline(mut session: Session, receiver: ClientReceiver, global: Arc<GlobalState>) {
     let mut taken_over = false;
-    loop {
+    let ended = session.clean_session;
+    if ended {
+        // Only the messages already accepted are left to be delivered.
+        for filter in session.subscribes.keys() {
+            global.route_table.unsubscribe(filter, session.client_id);
+        }
+    }
+    while !ended || !session.broadcast_packets.is_empty() {
         tokio::select! {
+            _ = flush_broadcast(&mut session), if !session.broadcast_packets.is_empty() => {}
             result = receiver.control.recv_async() => match result {
                 Ok(msg) => {
                     let (stop, sender_opt) = handle_control(&mut session, msg, true);
@@ -510,7 +503,7 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
                         while let Ok((sender_id, normal_msg)) = receiver.normal.try_recv() {
                             let _ = handle_normal(&mut session, sender_id, normal_msg);
                         }
-                        let old_state = session.build_state(receiver);
+                        let old_state = session.build_state(receiver.clone());
                         if let Err(err) = sender.send_async(old_state).await {
                             log::warn!("offline send session state failed: {err:?}");
                         } else {
@@ -540,6 +533,8 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
     }
     if !taken_over {
         global.remove_client(session.client_id, session.subscribes.keys());
+        drop(receiver);
+        flush_broadcast(&mut session).await;
     }
     log::debug!("offline client finished: {:?}", session.client_id());
 }
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index def685f..001fdb3 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -25,6 +25,7 @@ use crate::hook::{
 };
 use crate::protocols::mqtt::{
     BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, PendingPackets, WritePacket,
+    flush_broadcast,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
@@ -345,17 +346,17 @@ async fn handle_online<
     if handle_will(&mut session, global).await.is_err() {
         log::warn!("send will failed (packet too large)");
     }
-    broadcast_packets(&mut session).await;
+    drop(conn);
+    // become a offline client, but session keep updating
+    global.offline_client(session.client_id);
+    session.connected = false;
+    session.connection_closed_time = Some(Instant::now());
     if session.session_expiry_interval == 0 {
-        global.remove_client(session.client_id, session.subscribes.keys());
+        handle_offline(session, receiver, Arc::clone(global)).await;
         if let Some(err) = io_error {
             return Err(err);
         }
     } else {
-        // become a offline client, but session keep updating
-        global.offline_client(session.client_id);
-        session.connected = false;
-        session.connection_closed_time = Some(Instant::now());
         return Ok(Some((session, receiver)));
     }
 
@@ -691,13 +692,21 @@ impl OnlineSession for Session {
 
 async fn handle_offline(mut session: Session, receiver: ClientReceiver, global: Arc<GlobalState>) {
     let mut taken_over = false;
-    loop {
+    let ended = session.session_expiry_interval == 0;
+    if ended {
+        // Only the messages already accepted are left to be delivered.
+        for filter in session.subscribes.keys() {
+            global.route_table.unsubscribe(filter, session.client_id);
+        }
+    }
+    while !ended || !session.broadcast_packets.is_empty() {
         tokio::select! {
+            _ = flush_broadcast(&mut session), if !session.broadcast_packets.is_empty() => {}
             result = receiver.control.recv_async() => match result {
                 Ok(msg) => {
                     let (stop, sender_opt) = handle_control(&mut session, msg, &global, true);
                     if let Some(sender) = sender_opt {
-                        let old_state = session.build_state(receiver);
+                        let old_state = session.build_state(receiver.clone());
                         if let Err(err) = sender.send_async(old_state).await {
                             log::warn!("offline send session state failed: {err:?}");
                         } else {
@@ -705,8 +714,6 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
                         }
                         break;
                     }
-                    // Because send_will is not a async_function
-                    broadcast_packets(&mut session).await;
                     if stop {
                         break;
                     }
@@ -729,6 +736,8 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
     }
     if !taken_over {
         global.remove_client(session.client_id, session.subscribes.keys());
+        drop(receiver);
+        flush_broadcast(&mut session).await;
     }
     log::debug!("offline client finished: {:?}", session.client_id());
 }
@@ -974,32 +983,6 @@ pub(super) fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io:
     Ok(())
 }
 
-async fn broadcast_packets(session: &mut Session) {
-    for (target_id, info) in session.broadcast_packets.drain() {
-        for msg in info.msgs {
-            log::debug!(
-                "[{}] broadcast to [{}], {:?}",
-                session.client_id,
-                target_id,
-                msg
-            );
-            if let Err(err) = info
-                .sink
-                .sender()
-                .send_async((session.client_id, msg))
-                .await
-            {
-                log::warn!(
-                    "[{}] handle will, send broadcast message to {} failed: {:?}",
-                    session.client_id,
-                    target_id,
-                    err
-                )
-            }
-        }
-    }
-}
-
 async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
     session: &mut Session,
     conn: &mut T,
-- 
2.43.0


From 996d7dabe2f3f76a8970fe41c204e6e3bdc93174 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 29/47] fix: the after_connect hook follows its own
 configuration

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 2 +-
 akasa-core/src/protocols/mqtt/v5/message.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index c563bf5..7b0a04f 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -141,7 +141,7 @@ async fn open_session<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
     Ok(())
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 001fdb3..0c28bdd 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -263,7 +263,7 @@ async fn open_session<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
     Ok(())
-- 
2.43.0


From 3dd5615fd2306105eb1e513abf58d0ca2fab7729 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 30/47] fix: only a message not sent yet expires

After a reconnect a message already sent must be sent again ([MQTT-4.4.0-1],
[MQTT-4.3.3-7]), otherwise its packet identifier is reused while the
client still holds it.
---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index 4469775..582ebdd 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -184,7 +184,7 @@ fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
                 let mut message_expiry_interval = None;
                 if let Some(value) = packet.properties.message_expiry_interval {
                     let passed_secs = now_ts - *added_at;
-                    if *last_sent == 0 && passed_secs >= value as u64 {
+                    if !*dup && passed_secs >= value as u64 {
                         expired_packets.push(*pid);
                         continue;
                     }
-- 
2.43.0


From ae7ca3134d11dd8df8bdfa70ddfdb02bccf6192c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 31/47] fix: survive the system clock being set back

---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index 582ebdd..d33dca5 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -183,7 +183,7 @@ fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
                 let now_ts = get_unix_ts();
                 let mut message_expiry_interval = None;
                 if let Some(value) = packet.properties.message_expiry_interval {
-                    let passed_secs = now_ts - *added_at;
+                    let passed_secs = now_ts.saturating_sub(*added_at);
                     if !*dup && passed_secs >= value as u64 {
                         expired_packets.push(*pid);
                         continue;
-- 
2.43.0


From 89f836f2c7721e8f961172062494a9c01631d7d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:23 +0000
Subject: [PATCH 32/47] fix: the keep alive timer of a closed connection does
 not kick the next one

---
 akasa-core/src/protocols/mqtt/common.rs | 29 +++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index b1dc7e7..406d309 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -1,7 +1,8 @@
 use std::io;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::{Duration, Instant};
 
+use flume::TrySendError;
 use parking_lot::RwLock;
 
 use crate::state::{ClientId, ControlMessage, GlobalState};
@@ -16,16 +17,17 @@ pub(crate) fn start_keep_alive_timer(
     if keep_alive > 0 {
         let half_interval = Duration::from_millis(keep_alive as u64 * 500);
         log::debug!("{} keep alive: {:?}", client_id, half_interval * 2);
-        let last_packet_time = Arc::clone(last_packet_time);
+        // The timer must not outlive the connection, or it kicks the next one
+        let last_packet_time = Arc::downgrade(last_packet_time);
         let global = Arc::clone(global);
         let action_gen = move || {
             // Need clone twice: https://stackoverflow.com/a/68462908/1274372
-            let last_packet_time = Arc::clone(&last_packet_time);
+            let last_packet_time = Weak::clone(&last_packet_time);
             let global = Arc::clone(&global);
             async move {
                 {
-                    let last_packet_time = last_packet_time.read();
-                    if last_packet_time.elapsed() <= half_interval * 3 {
+                    let last_packet_time = last_packet_time.upgrade()?;
+                    if last_packet_time.read().elapsed() <= half_interval * 3 {
                         return Some(half_interval);
                     }
                 }
@@ -34,12 +36,17 @@ pub(crate) fn start_keep_alive_timer(
                     let msg = ControlMessage::Kick {
                         reason: "timeout".to_owned(),
                     };
-                    if let Err(err) = sender.send_async(msg).await {
-                        log::warn!(
-                            "send timeout kick message to {:?} error: {:?}",
-                            client_id,
-                            err
-                        );
+                    match sender.try_send(msg) {
+                        Ok(()) => {}
+                        // The connection may be just handed over, check again later
+                        Err(TrySendError::Full(_)) => return Some(half_interval),
+                        Err(err) => {
+                            log::warn!(
+                                "send timeout kick message to {:?} error: {:?}",
+                                client_id,
+                                err
+                            );
+                        }
                     }
                 }
                 None
-- 
2.43.0


From a893230ec1049ce677addc430da16065cf2b459a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:23 +0000
Subject: [PATCH 33/47] fix: keep the SCRAM identity of an authenticated client

---
 .../src/protocols/mqtt/v5/packet/connect.rs   | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 160c37a..7d1b8d5 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -479,6 +479,20 @@ pub(crate) fn handle_auth(
                 ));
             };
 
+            // no longer known by the machine when it is finished
+            let authcid = session
+                .scram_stage
+                .machine
+                .authcid()
+                .unwrap_or("")
+                .to_owned();
+            let authzid = session
+                .scram_stage
+                .machine
+                .authzid()
+                .and_then(|az| az)
+                .map(str::to_owned);
+
             let (status, server_final) = match session
                 .scram_stage
                 .machine
@@ -523,18 +537,6 @@ pub(crate) fn handle_auth(
                 return Err(err_pkt);
             }
 
-            let authcid = session
-                .scram_stage
-                .machine
-                .authcid()
-                .unwrap_or("")
-                .to_owned();
-            let authzid = session
-                .scram_stage
-                .machine
-                .authzid()
-                .and_then(|az| az)
-                .map(str::to_owned);
             session.authorizing = false;
             session.scram_stage.time = Some(Instant::now());
             session.scram_auth_result = Some((authcid, authzid));
-- 
2.43.0


From 37a45f9aa8ceaaa0a1a07792adc1fb623836c49f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 34/47] fix: the WebSocket handshake is subject to the connect
 timeout

---
 akasa-core/src/server/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 8d959a4..6b5ed88 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -135,7 +135,14 @@ pub async fn handle_accept<
             }
             Ok(resp)
         };
-        let stream = match accept_hdr_async(tls_wrapper, handler).await {
+        let accepted = async { Some(accept_hdr_async(tls_wrapper, handler).await) }
+            .or(async {
+                let _ = timeout_receiver.recv_async().await;
+                log::info!("timeout when accept websocket: {}", peer);
+                None
+            })
+            .await;
+        let stream = match accepted.ok_or(io::ErrorKind::TimedOut)? {
             Ok(stream) => stream,
             Err(err) => {
                 log::warn!("Accept websocket connection error: {:?}", err);
-- 
2.43.0


From 5472444d67554a08895937daf78ca1f2778dd691 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 35/47] fix: the session expiry interval of a DISCONNECT is
 limited like the one of a CONNECT

---
 akasa-core/src/protocols/mqtt/v5/message.rs        |  2 +-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 0c28bdd..d7f764a 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -482,7 +482,7 @@ impl OnlineSession for Session {
 
         match packet {
             Packet::Disconnect(pkt) => {
-                if let Err(err_pkt) = handle_disconnect(self, pkt) {
+                if let Err(err_pkt) = handle_disconnect(self, pkt, global) {
                     // FIXME: must ensure error packet finally written to client in several seconds.
                     write_packets.push_back(err_pkt.into());
                 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 7d1b8d5..4d49b14 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::io;
 use std::mem;
 use std::sync::Arc;
@@ -372,7 +373,11 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
 
 #[inline]
 #[allow(clippy::result_large_err)]
-pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Result<(), Packet> {
+pub(crate) fn handle_disconnect(
+    session: &mut Session,
+    packet: Disconnect,
+    global: &Arc<GlobalState>,
+) -> Result<(), Packet> {
     log::debug!("{} received a disconnect packet", session.client_id);
     if let Some(value) = packet.properties.session_expiry_interval {
         if session.session_expiry_interval == 0 && value > 0 {
@@ -382,7 +387,8 @@ pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Re
                 "SessionExpiryInterval is 0 in CONNECT",
             ));
         }
-        session.session_expiry_interval = value;
+        session.session_expiry_interval =
+            cmp::min(value, global.config.max_session_expiry_interval);
     }
 
     // * no UserProperty
-- 
2.43.0


From f6465a7c9556cc273d820d1b69b5188be73bb6af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 36/47] fix: a partial write or a pending flush does not stall
 the connection

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 270f256..9fd8762 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -45,6 +45,7 @@ where
 
     read_unfinish: bool,
     normal_stream_unfinish: bool,
+    flush_unfinish: bool,
 
     packet_state: GenericPollPacketState<H>,
     hook_fut: Option<Pin<Box<dyn Future<Output = HookResponse> + Send + 'static>>>,
@@ -88,6 +89,7 @@ where
             packet_state,
             read_unfinish: false,
             normal_stream_unfinish: false,
+            flush_unfinish: false,
             write_packets_max: 16,
             write_packets,
             session_state_sender: None,
@@ -135,6 +137,7 @@ where
             conn,
             read_unfinish,
             normal_stream_unfinish,
+            flush_unfinish,
             packet_state,
             session_state_sender,
             hook_fut,
@@ -431,9 +434,10 @@ where
                     have_write = true;
                     data_idx += size;
                     if data_idx < data_all.len() {
+                        // Continue until pending, otherwise nothing wakes up this task
+                        // when the rest can be written.
                         write_packets
                             .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
-                        break;
                     }
                 }
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
@@ -452,9 +456,10 @@ where
         {
             write_packets.shrink_to(*write_packets_max);
         }
-        if have_write && !pendings.write {
+        *flush_unfinish |= have_write;
+        if *flush_unfinish && !pendings.write {
             match Pin::new(&mut *conn).poll_flush(cx) {
-                Poll::Ready(Ok(())) => {}
+                Poll::Ready(Ok(())) => *flush_unfinish = false,
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
                 Poll::Pending => {}
             }
-- 
2.43.0


From 6ab776e01e9b4c3c2338878b309b16af2aef9bbd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 37/47] fix: measure the packet the client receives against its
 maximum packet size

The size of the packet of the publisher says little about it: subscription
identifiers and topic aliases are added, other aliases are removed.
---
 akasa-core/src/protocols/mqtt/v5/message.rs   |  7 +-
 .../src/protocols/mqtt/v5/packet/common.rs    | 85 +++++++++++++------
 .../src/protocols/mqtt/v5/packet/publish.rs   | 39 +++------
 .../src/protocols/mqtt/v5/packet/subscribe.rs |  7 --
 4 files changed, 74 insertions(+), 64 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index d7f764a..97c62f7 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -850,7 +850,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v3 publish message from {}",
@@ -871,8 +871,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Lookup(subscribe_filter),
                         subscribe_qos,
                         properties: None,
-                        // one byte is for property length
-                        encode_len: encode_len + 1,
                     },
                 )
             } else {
@@ -887,7 +885,7 @@ fn handle_normal(
             ref subscribe_filters,
             subscribe_qos,
             ref properties,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v5 publish message from {}, msg: {:?}",
@@ -925,7 +923,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Precomputed(subscription_ids),
                         subscribe_qos,
                         properties: Some(properties),
-                        encode_len,
                     },
                 )
             }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d33dca5..af1681b 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -151,14 +151,50 @@ pub(super) fn get_or_assign_server_topic_alias(
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     let mut packets = Vec::new();
-    // Expired packets leave room in the inflight window for the packets behind them
+    // Dropped packets leave room in the inflight window for the packets behind them
     while collect_pendings(session, &mut packets) {}
     packets
 }
 
-/// Collect the packets ready to send, return if there are packets removed because of expired
+/// If the client accepts a packet of this size
+pub(super) fn fits_packet_size(publish: &Publish, max_packet_size: u32) -> bool {
+    Packet::Publish(publish.clone())
+        .encode_len()
+        .is_ok_and(|len| len <= max_packet_size as usize)
+}
+
+/// Send the publish packet with a topic alias, unless it gets too large by that.
+pub(super) fn use_server_topic_alias(
+    topic_alias_max: u16,
+    aliases_by_topic: &mut HashMap<TopicName, u16>,
+    aliases_by_alias: &mut HashMap<u16, (TopicName, u64)>,
+    tick: &mut u64,
+    max_packet_size: u32,
+    publish: &mut Publish,
+) {
+    publish.properties.topic_alias = Some(topic_alias_max);
+    if !fits_packet_size(publish, max_packet_size) {
+        publish.properties.topic_alias = None;
+        return;
+    }
+    let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
+        topic_alias_max,
+        aliases_by_topic,
+        aliases_by_alias,
+        tick,
+        &publish.topic_name,
+    );
+    publish.properties.topic_alias = Some(alias);
+    if !is_new_mapping {
+        publish.topic_name = empty_topic_name().clone();
+    }
+}
+
+/// Collect the packets ready to send, return if there are packets removed because
+/// they are expired or too large for the client
 fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
     let topic_alias_max = session.topic_alias_max;
+    let max_packet_size = session.max_packet_size;
     let (pending_packets, aliases_by_topic, aliases_by_alias, tick) = (
         &mut session.pending_packets,
         &mut session.server_topic_aliases_by_topic,
@@ -167,7 +203,7 @@ fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
     );
 
     pending_packets.clean_complete();
-    let mut expired_packets = Vec::new();
+    let mut dropped_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = pending_packets.get_ready_packet(start_idx) {
         start_idx = idx + 1;
@@ -185,7 +221,7 @@ fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
                 if let Some(value) = packet.properties.message_expiry_interval {
                     let passed_secs = now_ts.saturating_sub(*added_at);
                     if !*dup && passed_secs >= value as u64 {
-                        expired_packets.push(*pid);
+                        dropped_packets.push(*pid);
                         continue;
                     }
                     message_expiry_interval = Some(value.saturating_sub(passed_secs as u32));
@@ -196,31 +232,30 @@ fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
                     QoS::Level2 => QosPid::Level2(*pid),
                 };
                 let mut properties = packet.properties.clone();
-                let mut topic_name = packet.topic_name.clone();
                 properties.message_expiry_interval = message_expiry_interval;
+                let mut rv_packet = Publish {
+                    dup: *dup,
+                    retain: packet.retain,
+                    qos_pid,
+                    topic_name: packet.topic_name.clone(),
+                    payload: packet.payload.clone(),
+                    properties,
+                };
+                // [MQTT-3.1.2-25] behave as if the packet is sent
+                if !fits_packet_size(&rv_packet, max_packet_size) {
+                    dropped_packets.push(*pid);
+                    continue;
+                }
                 if !*dup && topic_alias_max > 0 {
-                    let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
+                    use_server_topic_alias(
                         topic_alias_max,
                         aliases_by_topic,
                         aliases_by_alias,
                         tick,
-                        &topic_name,
+                        max_packet_size,
+                        &mut rv_packet,
                     );
-                    if alias > 0 {
-                        properties.topic_alias = Some(alias);
-                        if !is_new_mapping {
-                            topic_name = empty_topic_name().clone();
-                        }
-                    }
                 }
-                let rv_packet = Publish {
-                    dup: *dup,
-                    retain: packet.retain,
-                    qos_pid,
-                    topic_name,
-                    payload: packet.payload.clone(),
-                    properties,
-                };
                 *dup = true;
                 *last_sent = now_ts;
                 packets.push(rv_packet.into());
@@ -237,14 +272,14 @@ fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
             PendingPacketStatus::Complete => unreachable!(),
         }
     }
-    for pid in &expired_packets {
-        // If the QoS2 message exipred, it's MUST also treated as QoS1 message
+    for pid in &dropped_packets {
+        // If the QoS2 message dropped, it's MUST also treated as QoS1 message
         pending_packets.complete(*pid, QoS::Level1);
     }
-    if !expired_packets.is_empty() {
+    if !dropped_packets.is_empty() {
         pending_packets.clean_complete();
     }
-    !expired_packets.is_empty()
+    !dropped_packets.is_empty()
 }
 
 #[inline]
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 69ba665..a25399b 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -19,7 +19,7 @@ use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
-use super::common::{build_error_disconnect, empty_topic_name, get_or_assign_server_topic_alias};
+use super::common::{build_error_disconnect, fits_packet_size, use_server_topic_alias};
 use super::{PubPacket, Session};
 
 #[inline]
@@ -312,7 +312,6 @@ pub(crate) struct RecvPublish<'a> {
     pub subscription_ids: SubscriptionIds<'a>,
     // [MQTTv5.0-3.8.4] keyword: downgraded
     pub subscribe_qos: QoS,
-    pub encode_len: usize,
 }
 
 #[derive(Debug)]
@@ -478,9 +477,6 @@ pub(crate) fn recv_publish(
 
     let final_qos = cmp::min(msg.qos, msg.subscribe_qos);
     if final_qos != QoS::Level0 {
-        if msg.encode_len > session.max_packet_size as usize {
-            return None;
-        }
         let pid = session.incr_server_packet_id();
         session.pending_packets.clean_complete();
         // TODO: proper handle this error
@@ -496,38 +492,27 @@ pub(crate) fn recv_publish(
         );
         Some((final_qos, None))
     } else if !session.client_disconnected && !session.server_disconnected {
-        let encode_len = if msg.qos > QoS::Level0 {
-            msg.encode_len - 2
-        } else {
-            msg.encode_len
+        let mut rv_packet = Publish {
+            dup: false,
+            qos_pid: QosPid::Level0,
+            retain: msg.retain,
+            topic_name: msg.topic_name.clone(),
+            payload: msg.payload.clone(),
+            properties,
         };
-        if encode_len > session.max_packet_size as usize {
+        if !fits_packet_size(&rv_packet, session.max_packet_size) {
             return None;
         }
-        let mut topic_name = msg.topic_name.clone();
         if session.topic_alias_max > 0 {
-            let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
+            use_server_topic_alias(
                 session.topic_alias_max,
                 &mut session.server_topic_aliases_by_topic,
                 &mut session.server_topic_aliases_by_alias,
                 &mut session.server_alias_tick,
-                &topic_name,
+                session.max_packet_size,
+                &mut rv_packet,
             );
-            if alias > 0 {
-                properties.topic_alias = Some(alias);
-                if !is_new_mapping {
-                    topic_name = empty_topic_name().clone();
-                }
-            }
         }
-        let rv_packet = Publish {
-            dup: false,
-            qos_pid: QosPid::Level0,
-            retain: msg.retain,
-            topic_name,
-            payload: msg.payload.clone(),
-            properties,
-        };
         Some((final_qos, Some(rv_packet.into())))
     } else {
         None
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index 26c37c5..ca55f61 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -90,12 +90,6 @@ packet id : {}
                         if msg.is_expired() {
                             continue;
                         }
-                        let encode_len = if msg.properties.is_none() {
-                            // one byte for property length
-                            msg.encode_len + 1
-                        } else {
-                            msg.encode_len
-                        };
                         let retain = sub_opts.retain_as_published;
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
@@ -107,7 +101,6 @@ packet id : {}
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
                                 properties: msg.current_properties().as_ref(),
-                                encode_len,
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From 87779682e440a94cc4199dbfaa2a5f813a01c702 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:23 +0000
Subject: [PATCH 38/47] fix: answer a repeated PUBREL of a v3 client

A v3 client which lost the PUBCOMP with its connection repeats the PUBREL after
it reconnects. The broker, which had already released the identifier, closed the
connection instead of answering with PUBCOMP, so the client could never finish
the exchange.
---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 2 +-
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 7b0a04f..916bff4 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -337,7 +337,7 @@ impl OnlineSession for Session {
             }
             Packet::Puback(pid) => handle_puback(self, pid),
             Packet::Pubrec(pid) => write_packets.push_back(handle_pubrec(self, pid).into()),
-            Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid)?.into()),
+            Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid).into()),
             Packet::Pubcomp(pid) => handle_pubcomp(self, pid),
             Packet::Subscribe(pkt) => {
                 if global.config.hook.enable_subscribe {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 3baf764..5f1807f 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -119,17 +119,17 @@ pub(crate) fn handle_pubrec(session: &mut Session, pid: Pid) -> Packet {
 }
 
 #[inline]
-pub(crate) fn handle_pubrel(session: &mut Session, pid: Pid) -> io::Result<Packet> {
+pub(crate) fn handle_pubrel(session: &mut Session, pid: Pid) -> Packet {
     log::debug!(
         "{} received a pubrel  packet: id={}",
         session.client_id,
         pid.value()
     );
     if session.qos2_pids.remove(&pid).is_none() {
-        log::warn!("packet identifier not found: {}", pid.value());
-        return Err(io::ErrorKind::InvalidData.into());
+        // The PUBCOMP was lost, the client repeats the PUBREL after reconnect.
+        log::info!("packet identifier not found: {}", pid.value());
     }
-    Ok(Packet::Pubcomp(pid))
+    Packet::Pubcomp(pid)
 }
 
 #[inline]
-- 
2.43.0


From 0368fe908bdea9b00b2ddb195242cb4085e238d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 39/47] fix: flush what the handshake writes

---
 akasa-core/src/protocols/mqtt/v3/packet/common.rs | 3 ++-
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index 4329f8d..5831213 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -5,7 +5,7 @@ use mqtt_proto::{
     QoS, QosPid,
     v3::{Packet, Publish},
 };
-use tokio::io::AsyncWrite;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 
 use crate::protocols::mqtt::{PendingPacketStatus, get_unix_ts};
 use crate::state::ClientId;
@@ -67,6 +67,7 @@ pub(crate) async fn write_packet<T: AsyncWrite + Unpin>(
 ) -> io::Result<()> {
     log::debug!("write to {}: {:?}", client_id, packet);
     packet.encode_async(conn).await?;
+    conn.flush().await?;
     log::debug!("write to {}: {:?} FINISHED!!!", client_id, packet);
     Ok(())
 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index af1681b..a6e0145 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -11,7 +11,7 @@ use mqtt_proto::{
         DisconnectReasonCode, ErrorV5, Packet, Publish, Pubrel, PubrelProperties, PubrelReasonCode,
     },
 };
-use tokio::io::AsyncWrite;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 
 use crate::protocols::mqtt::{PendingPacketStatus, get_unix_ts};
 use crate::state::ClientId;
@@ -293,5 +293,5 @@ pub(crate) async fn write_packet<T: AsyncWrite + Unpin>(
         ErrorV5::Common(err) => io::Error::from(err),
         _ => io::ErrorKind::InvalidData.into(),
     })?;
-    Ok(())
+    conn.flush().await
 }
-- 
2.43.0


From 9e6a3a2658e06f42b283310ffa04e8821fc8f2e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 40/47] fix: refuse a request whose acknowledgement exceeds the
 client's maximum packet size

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 97c62f7..b0c56b1 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -10,7 +10,7 @@ use flume::{Receiver, Sender};
 use futures_lite::FutureExt;
 use hashbrown::HashMap;
 use mqtt_proto::{
-    Error, IoErrorKind, Pid, Protocol, QoS, QosPid,
+    Error, IoErrorKind, Pid, Protocol, QoS, QosPid, total_len,
     v5::{
         Auth, AuthProperties, AuthReasonCode, Connect, ConnectReasonCode, DisconnectReasonCode,
         ErrorV5, Header, Packet, PollPacketState, Publish, PublishProperties, RetainHandling,
@@ -479,6 +479,25 @@ impl OnlineSession for Session {
             write_packets.push_back(err_pkt.into());
             return Ok(None);
         }
+        // The client also limits the packets it receives, refuse a request whose
+        // acknowledgement (packet id, no properties, reason codes) would be too large.
+        let reason_codes = match &packet {
+            Packet::Subscribe(pkt) => pkt.topics.len(),
+            Packet::Unsubscribe(pkt) => pkt.topics.len(),
+            _ => 0,
+        };
+        if reason_codes > 0
+            && total_len(3 + reason_codes).is_ok_and(|len| len > self.max_packet_size as usize)
+        {
+            log::debug!("too many topic filters: {}", reason_codes);
+            let err_pkt = build_error_disconnect(
+                self,
+                DisconnectReasonCode::PacketTooLarge,
+                "Acknowledgement too large",
+            );
+            write_packets.push_back(err_pkt.into());
+            return Ok(None);
+        }
 
         match packet {
             Packet::Disconnect(pkt) => {
-- 
2.43.0


From d1d9ecae2b762dfbbb230f92b8069d7c5ff613e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 41/47] fix: reject a stored password hash of the wrong length

A truncated pbkdf2 hash was compared over its own length only, so the entry
accepted passwords that were never stored.
---
 akasa-core/src/protocols/mqtt/auth.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/auth.rs b/akasa-core/src/protocols/mqtt/auth.rs
index 28b74b5..9870137 100644
--- a/akasa-core/src/protocols/mqtt/auth.rs
+++ b/akasa-core/src/protocols/mqtt/auth.rs
@@ -58,10 +58,11 @@ pub fn load_passwords<R: Read>(input: R) -> io::Result<DashMap<String, AuthPassw
                 }
             }
         };
-        let parse_hashed_password = |s: &str| -> io::Result<Vec<u8>> {
+        let parse_hashed_password = |s: &str, len: usize| -> io::Result<Vec<u8>> {
             match STANDARD_NO_PAD.decode(s) {
-                Ok(pass) => Ok(pass),
-                Err(_err) => {
+                // A truncated hash would accept other passwords too.
+                Ok(pass) if pass.len() == len => Ok(pass),
+                _ => {
                     log::error!("invalid hashed password (line#{}): {}", line_num, line);
                     Err(io::ErrorKind::InvalidData.into())
                 }
@@ -96,6 +97,10 @@ pub fn load_passwords<R: Read>(input: R) -> io::Result<DashMap<String, AuthPassw
                     return Err(io::ErrorKind::InvalidData.into());
                 }
             };
+            let hash_len = match hash_algorithm {
+                HashAlgorithm::Sha256 | HashAlgorithm::Sha256Pkbdf2 { .. } => SHA256_OUTPUT_LEN,
+                HashAlgorithm::Sha512 | HashAlgorithm::Sha512Pkbdf2 { .. } => SHA512_OUTPUT_LEN,
+            };
             let (salt, hashed_password) = match hash_algorithm {
                 HashAlgorithm::Sha256 | HashAlgorithm::Sha512 => {
                     if passwd_parts.len() != 3 {
@@ -103,7 +108,7 @@ pub fn load_passwords<R: Read>(input: R) -> io::Result<DashMap<String, AuthPassw
                         return Err(io::ErrorKind::InvalidData.into());
                     }
                     let salt = parse_salt(passwd_parts[1])?;
-                    let hashed_password = parse_hashed_password(passwd_parts[2])?;
+                    let hashed_password = parse_hashed_password(passwd_parts[2], hash_len)?;
                     (salt, hashed_password)
                 }
                 HashAlgorithm::Sha256Pkbdf2 { .. } | HashAlgorithm::Sha512Pkbdf2 { .. } => {
@@ -112,7 +117,7 @@ pub fn load_passwords<R: Read>(input: R) -> io::Result<DashMap<String, AuthPassw
                         return Err(io::ErrorKind::InvalidData.into());
                     }
                     let salt = parse_salt(passwd_parts[2])?;
-                    let hashed_password = parse_hashed_password(passwd_parts[3])?;
+                    let hashed_password = parse_hashed_password(passwd_parts[3], hash_len)?;
                     (salt, hashed_password)
                 }
             };
-- 
2.43.0


From babf39fa817d1752307945affc48e1b2f4eaf763 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 42/47] fix: keep user names intact in the password file

Leading spaces were lost on reading, and a line break in a name made the file
unreadable or gave other entries. The file is only replaced once its whole
content is known to be writable.
---
 akasa-core/src/protocols/mqtt/auth.rs |  8 +++++++-
 akasa/src/main.rs                     | 10 ++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/auth.rs b/akasa-core/src/protocols/mqtt/auth.rs
index 9870137..86636f8 100644
--- a/akasa-core/src/protocols/mqtt/auth.rs
+++ b/akasa-core/src/protocols/mqtt/auth.rs
@@ -17,7 +17,8 @@ pub fn load_passwords<R: Read>(input: R) -> io::Result<DashMap<String, AuthPassw
     let passwords = DashMap::new();
     for (line_num, line_result) in reader.lines().enumerate() {
         let line = line_result?;
-        let text = line.trim();
+        // leading spaces belong to the user name
+        let text = line.trim_end();
         let parse_iterations = |s: &str| -> io::Result<NonZeroU32> {
             match s.parse() {
                 Ok(raw) => {
@@ -139,6 +140,11 @@ pub fn dump_passwords<W: Write>(
     output: W,
     passwords: &DashMap<String, AuthPassword>,
 ) -> io::Result<()> {
+    // one line per user
+    if passwords.iter().any(|item| item.key().contains('\n')) {
+        log::error!("a user name can not contain a line break");
+        return Err(io::ErrorKind::InvalidInput.into());
+    }
     let mut writer = BufWriter::new(output);
     for item in passwords.iter() {
         let username = item.key();
diff --git a/akasa/src/main.rs b/akasa/src/main.rs
index 6c52a1b..b6fdd7f 100644
--- a/akasa/src/main.rs
+++ b/akasa/src/main.rs
@@ -176,15 +176,17 @@ fn main() -> anyhow::Result<()> {
                     salt,
                 },
             );
-            let file = fs::File::create(&path)?;
-            dump_passwords(&file, &auth_passwords)?;
+            let mut content = Vec::new();
+            dump_passwords(&mut content, &auth_passwords)?;
+            fs::write(&path, content)?;
             println!("add/update user={username} to {path:?}");
         }
         Commands::RemovePassword { path, username } => {
             let auth_passwords = load_passwords(&fs::File::open(&path)?)?;
             if auth_passwords.remove(&username).is_some() {
-                let file = fs::File::create(&path)?;
-                dump_passwords(&file, &auth_passwords)?;
+                let mut content = Vec::new();
+                dump_passwords(&mut content, &auth_passwords)?;
+                fs::write(&path, content)?;
                 println!("removed user={username} from {path:?}");
             } else {
                 println!("user={username} not found");
-- 
2.43.0


From 4f0246bd5b2e2a5ed099c31d0e887f3b806b21ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 43/47] fix: tell v3 clients why a hook refused the connection

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 916bff4..ac8f09f 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -10,7 +10,7 @@ use hashbrown::HashMap;
 use mqtt_proto::{
     Error, IoErrorKind, Pid, Protocol, QoS, QosPid,
     v3::{
-        Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
+        Connack, Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
         SubscribeReturnCode, Unsubscribe,
     },
 };
@@ -29,7 +29,7 @@ use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, Normal
 use super::{
     Session, SessionState,
     packet::{
-        common::{after_handle_packet, handle_pendings},
+        common::{after_handle_packet, handle_pendings, write_packet},
         connect::{handle_connect, handle_disconnect},
         publish::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
@@ -130,7 +130,7 @@ async fn open_session<
 
     // Run before connect hook
     if global.config.hook.enable_before_connect {
-        before_connect_hook(peer, &packet, hook_handler, global).await?;
+        before_connect_hook(session, conn, peer, &packet, hook_handler, global).await?;
     }
 
     let session_present = handle_connect(session, receiver, packet, conn, global).await?;
@@ -686,7 +686,9 @@ fn handle_normal(
     }
 }
 
-async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
+async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
+    session: &mut Session,
+    conn: &mut T,
     peer: SocketAddr,
     packet: &Connect,
     hook_handler: &H,
@@ -701,6 +703,8 @@ async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
         _ => panic!("invalid response"),
     };
     if code != ConnectReturnCode::Accepted {
+        let rv_packet = Connack::new(false, code);
+        write_packet(session.client_id, conn, &rv_packet.into()).await?;
         return Err(io::ErrorKind::InvalidData.into());
     }
     Ok(())
-- 
2.43.0


From 839c9ecb4c2697b56d8cc653a998179bbdb84cda Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 44/47] fix: subscribe action of a v3 session no longer fetches
 retained messages

---
 akasa-core/src/hook.rs                               | 2 +-
 akasa-core/src/protocols/mqtt/v3/message.rs          | 4 ++--
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs | 6 +++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/hook.rs b/akasa-core/src/hook.rs
index 9eca654..10497de 100644
--- a/akasa-core/src/hook.rs
+++ b/akasa-core/src/hook.rs
@@ -722,7 +722,7 @@ pub async fn handle_request<H: Hook + Send + Sync>(
                 .await;
             let receipt = match result {
                 Ok(HookSubscribeCode::Success) => {
-                    match v3_handle_subscribe(session, &subscribe, &global) {
+                    match v3_handle_subscribe(session, &subscribe, true, &global) {
                         Ok(packets) => {
                             let mut codes = Vec::new();
                             for packet in packets {
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index ac8f09f..9540f0d 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -350,7 +350,7 @@ impl OnlineSession for Session {
                     };
                     return Ok(Some(hook_request));
                 } else {
-                    let retain_packets = handle_subscribe(self, &pkt, global)?;
+                    let retain_packets = handle_subscribe(self, &pkt, true, global)?;
                     write_packets.extend(retain_packets.into_iter().map(WritePacket::Packet));
                 }
             }
@@ -425,7 +425,7 @@ impl OnlineSession for Session {
             }
             HookAction::Subscribe(SubscribeAction(topics)) => {
                 let subscribe = Subscribe::new(Pid::default(), topics.clone());
-                match handle_subscribe(self, &subscribe, global) {
+                match handle_subscribe(self, &subscribe, false, global) {
                     Ok(packets) => match &packets[0] {
                         Packet::Suback(suback) => {
                             for reason_code in &suback.topics {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index bbb786e..dd864b3 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -17,6 +17,7 @@ use super::publish::{RecvPublish, recv_publish};
 pub(crate) fn handle_subscribe(
     session: &mut Session,
     packet: &Subscribe,
+    send_retain: bool,
     global: &Arc<GlobalState>,
 ) -> io::Result<Vec<Packet>> {
     log::debug!(
@@ -40,6 +41,10 @@ packet id : {}
             .route_table
             .subscribe(filter, session.client_id, granted_qos);
 
+        return_codes.push(granted_qos.into());
+        if !send_retain {
+            continue;
+        }
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
             if msg.is_expired() {
@@ -67,7 +72,6 @@ packet id : {}
         if process_pendings {
             rv_packets.extend(handle_pendings(session));
         }
-        return_codes.push(granted_qos.into());
     }
     rv_packets.push(Suback::new(packet.pid, return_codes).into());
     Ok(rv_packets)
-- 
2.43.0


From 2ec7a8e25bca24d4bcfadf43a418bb32883c40b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 45/47] fix: keep the properties of a publish action returned
 for a v3 session

---
 akasa-core/src/protocols/mqtt/v3/message.rs   | 14 +++++++-
 .../src/protocols/mqtt/v3/packet/publish.rs   | 35 ++++++++++++++-----
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 9540f0d..6c7f267 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -13,6 +13,7 @@ use mqtt_proto::{
         Connack, Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
         SubscribeReturnCode, Unsubscribe,
     },
+    v5::PublishProperties,
 };
 use tokio::io::{AsyncRead, AsyncWrite};
 
@@ -391,8 +392,17 @@ impl OnlineSession for Session {
                 qos,
                 topic_name,
                 payload,
-                ..
+                payload_is_utf8,
+                message_expiry_interval,
+                content_type,
             }) => {
+                // For the v5.x subscribers
+                let properties = PublishProperties {
+                    payload_is_utf8,
+                    message_expiry_interval,
+                    content_type,
+                    ..Default::default()
+                };
                 let encode_len = {
                     let qos_pid = match qos {
                         QoS::Level0 => QosPid::Level0,
@@ -418,6 +428,7 @@ impl OnlineSession for Session {
                         retain,
                         topic_name: &topic_name,
                         payload: &payload,
+                        properties: Some(&properties),
                         encode_len,
                     },
                     global,
@@ -569,6 +580,7 @@ pub(super) async fn handle_will(
                 retain: last_will.retain,
                 qos: last_will.qos,
                 payload: &last_will.message,
+                properties: None,
                 encode_len,
             },
             global,
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 5f1807f..5876c02 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -9,6 +9,7 @@ use bytes::Bytes;
 use mqtt_proto::{
     Encodable, Pid, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
     v3::{Packet, Publish},
+    v5::PublishProperties,
 };
 use rand::RngExt;
 
@@ -84,6 +85,7 @@ topic name : {}
                 retain: packet.retain,
                 qos: packet.qos_pid.qos(),
                 payload: &packet.payload,
+                properties: None,
                 encode_len,
             },
             global,
@@ -151,6 +153,8 @@ pub(crate) struct SendPublish<'a> {
     pub retain: bool,
     pub qos: QoS,
     pub payload: &'a Bytes,
+    // None for v3 publish packet
+    pub properties: Option<&'a PublishProperties>,
     pub encode_len: usize,
 }
 
@@ -176,7 +180,7 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
                 msg.qos,
                 msg.topic_name.clone(),
                 msg.payload.clone(),
-                None,
+                msg.properties.cloned(),
                 msg.encode_len,
             ));
             log::debug!("retain message inserted");
@@ -227,14 +231,27 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
 
     session.broadcast_packets_cnt += senders.len();
     for (receiver_client_id, subscribe_filter, subscribe_qos) in senders {
-        let publish = NormalMessage::PublishV3 {
-            retain: msg.retain,
-            qos: msg.qos,
-            topic_name: msg.topic_name.clone(),
-            payload: msg.payload.clone(),
-            subscribe_filter,
-            subscribe_qos,
-            encode_len: msg.encode_len,
+        let publish = if let Some(properties) = msg.properties {
+            NormalMessage::PublishV5 {
+                retain: msg.retain,
+                qos: msg.qos,
+                topic_name: msg.topic_name.clone(),
+                payload: msg.payload.clone(),
+                subscribe_filters: vec![subscribe_filter],
+                subscribe_qos,
+                properties: properties.clone(),
+                encode_len: msg.encode_len,
+            }
+        } else {
+            NormalMessage::PublishV3 {
+                retain: msg.retain,
+                qos: msg.qos,
+                topic_name: msg.topic_name.clone(),
+                payload: msg.payload.clone(),
+                subscribe_filter,
+                subscribe_qos,
+                encode_len: msg.encode_len,
+            }
         };
         if !session.broadcast_packets.contains_key(&receiver_client_id)
             && let Some(sender) = global.get_client_normal_sender(&receiver_client_id)
-- 
2.43.0


From 5d11b339b1790ffcbe81d72a1368157b2ab4960a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 46/47] fix: count a packet as heard before the hooks deal with
 it

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 3 +++
 akasa-core/src/protocols/mqtt/v5/message.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 6c7f267..91541bb 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -3,6 +3,7 @@ use std::io;
 use std::mem::{self, MaybeUninit};
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Instant;
 
 use flume::{Receiver, Sender};
 use futures_lite::FutureExt;
@@ -312,6 +313,8 @@ impl OnlineSession for Session {
         write_packets: &mut VecDeque<WritePacket<Self::Packet>>,
         global: &Arc<GlobalState>,
     ) -> Result<Option<HookRequest>, Option<io::Error>> {
+        // The hooks may take their time, the client has been heard all the same
+        *self.last_packet_time.write() = Instant::now();
         if encode_len > global.config.max_packet_size_server as usize {
             log::debug!(
                 "packet too large, size={}, max={}",
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index b0c56b1..e1dac78 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -465,6 +465,8 @@ impl OnlineSession for Session {
         write_packets: &mut VecDeque<WritePacket<Self::Packet>>,
         global: &Arc<GlobalState>,
     ) -> Result<Option<HookRequest>, Option<io::Error>> {
+        // The hooks may take their time, the client has been heard all the same
+        *self.last_packet_time.write() = Instant::now();
         if encode_len > global.config.max_packet_size_server as usize {
             log::debug!(
                 "packet too large, size={}, max={}",
-- 
2.43.0


From 54caf228ba534c4e02f90b3c24ade97b3a8fa5fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 47/47] fix: flush a WebSocket pong that could not be written
 at once

---
 akasa-core/src/server/mod.rs | 38 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 6b5ed88..cf2676a 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -154,6 +154,7 @@ pub async fn handle_accept<
             read_data: Bytes::new(),
             read_data_idx: 0,
             pending_pong: None,
+            pong_unflushed: false,
             closed: false,
         }
     } else {
@@ -356,6 +357,7 @@ enum WebSocketWrapper<S> {
         read_data: Bytes,
         read_data_idx: usize,
         pending_pong: Option<Bytes>,
+        pong_unflushed: bool,
         closed: bool,
     },
 }
@@ -363,10 +365,11 @@ enum WebSocketWrapper<S> {
 fn ws_send_pong<S: AsyncRead + AsyncWrite + Unpin>(
     stream: &mut WebSocketStream<TlsWrapper<S>>,
     pong: &mut Option<Bytes>,
+    unflushed: &mut bool,
     cx: &mut Context<'_>,
 ) -> io::Result<()> {
+    let mut sink = Pin::new(stream);
     if let Some(data) = pong.take() {
-        let mut sink = Pin::new(stream);
         match sink.as_mut().poll_ready(cx) {
             Poll::Ready(Ok(_)) => {
                 sink.as_mut()
@@ -375,21 +378,24 @@ fn ws_send_pong<S: AsyncRead + AsyncWrite + Unpin>(
                         log::debug!("WebSocket send pong error: {:?}", err);
                         io::Error::from(io::ErrorKind::BrokenPipe)
                     })?;
-                let _ignore = sink.as_mut().poll_flush(cx).map_err(|err| {
-                    log::debug!("WebSocket flush pong error: {:?}", err);
-                    io::Error::from(io::ErrorKind::BrokenPipe)
-                })?;
-                Ok(())
+                *unflushed = true;
             }
-            Poll::Pending => {
-                *pong = Some(data);
-                Ok(())
+            Poll::Pending => *pong = Some(data),
+            Poll::Ready(Err(_)) => return Err(Into::into(io::ErrorKind::BrokenPipe)),
+        }
+    }
+    if *unflushed {
+        // Nobody else flushes it when there is nothing more to write
+        match sink.as_mut().poll_flush(cx) {
+            Poll::Ready(Ok(())) => *unflushed = false,
+            Poll::Ready(Err(err)) => {
+                log::debug!("WebSocket flush pong error: {:?}", err);
+                return Err(io::Error::from(io::ErrorKind::BrokenPipe));
             }
-            Poll::Ready(Err(_)) => Err(Into::into(io::ErrorKind::BrokenPipe)),
+            Poll::Pending => {}
         }
-    } else {
-        Ok(())
     }
+    Ok(())
 }
 
 impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
@@ -405,6 +411,7 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
                 read_data,
                 read_data_idx,
                 pending_pong,
+                pong_unflushed,
                 closed,
             } => {
                 fn copy_data(buf: &mut ReadBuf, data: &[u8], data_idx: &mut usize) -> usize {
@@ -414,7 +421,7 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
                     amt
                 }
                 if !*closed {
-                    ws_send_pong(stream, pending_pong, cx)?;
+                    ws_send_pong(stream, pending_pong, pong_unflushed, cx)?;
                 }
                 if *read_data_idx < read_data.len() {
                     copy_data(buf, read_data, read_data_idx);
@@ -435,7 +442,7 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
                             Message::Close(_) => return Poll::Ready(Ok(())),
                             Message::Ping(data) => {
                                 *pending_pong = Some(data);
-                                ws_send_pong(stream, pending_pong, cx)?;
+                                ws_send_pong(stream, pending_pong, pong_unflushed, cx)?;
                             }
                             Message::Pong(_) => {
                                 log::debug!("WebSocket pong message not allowed!");
@@ -474,11 +481,12 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncWrite for WebSocketWrapper<S> {
             WebSocketWrapper::WebSocket {
                 stream,
                 pending_pong,
+                pong_unflushed,
                 closed,
                 ..
             } => {
                 if !*closed {
-                    ws_send_pong(stream, pending_pong, cx)?;
+                    ws_send_pong(stream, pending_pong, pong_unflushed, cx)?;
                 }
                 match Pin::new(&mut *stream).poll_ready(cx) {
                     Poll::Ready(Ok(())) => {}
-- 
2.43.0

