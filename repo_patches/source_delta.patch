From 720d373cb750e83c3f1dd39337e9bf9e9eed1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 01/21] hook: expose codec and packet id allocator under --cfg
 ruq_verif

---
 src/lib.rs         |   5 ++
 src/verif_hooks.rs | 142 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 147 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 74fc3b7..2283027 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,6 +307,11 @@ mod mqtt_codec;
 mod pktids;
 mod protocol;
 
+#[allow(unexpected_cfgs)]
+#[cfg(ruq_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
+
 #[cfg(test)]
 mod tests {
     use crate::protocol::FromMqttBytes;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..32f6a8c
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,142 @@
+//! Entry points for the out-of-tree verification harness. Compiled only with `--cfg ruq_verif`.
+//!
+//! Nothing here changes behaviour: every function forwards to the crate's own code. Crate-private
+//! values cross this boundary as bytes, integers and `Debug` text.
+
+use std::io::Error as IOError;
+
+use bytes::BytesMut;
+use tokio_util::codec::{Decoder, Encoder};
+
+use crate::mqtt_codec::MqttCodec;
+use crate::pktids::PktIds;
+use crate::protocol::publish::Payload;
+use crate::protocol::{self, FromMqttBytes, Packet, PktId, ToMqttBytes, VBI};
+use crate::{Property, QoS};
+
+/// Client-originated packets the event loop is able to send.
+#[derive(Debug, Clone)]
+pub enum Out {
+    Connect {
+        client_id: String,
+        keep_alive: u16,
+    },
+    Publish {
+        topic: String,
+        payload: Result<String, Vec<u8>>,
+        retain: bool,
+        properties: Vec<Property>,
+        qos: QoS,
+        pktid: u16,
+    },
+    Puback {
+        pktid: u16,
+    },
+    PingReq,
+    Subscribe {
+        topic: String,
+        pktid: u16,
+        qos: QoS,
+    },
+    Unsubscribe {
+        topics: Vec<String>,
+        pktid: u16,
+    },
+    Disconnect,
+}
+
+fn id(id: u16) -> PktId {
+    PktId::new(id).expect("packet id must not be zero")
+}
+
+fn packet(out: Out) -> Packet {
+    match out {
+        Out::Connect {
+            client_id,
+            keep_alive,
+        } => {
+            let mut pkt = protocol::Connect::new(&client_id);
+            pkt.keep_alive(keep_alive);
+            Packet::Connect(pkt)
+        }
+        Out::Publish {
+            topic,
+            payload,
+            retain,
+            properties,
+            qos,
+            pktid,
+        } => {
+            let payload = match payload {
+                Ok(s) => Payload::String(s),
+                Err(b) => Payload::Bytes(b),
+            };
+            Packet::Publish(match qos {
+                QoS::AtMostOnce => {
+                    protocol::Publish::at_most_once(topic, payload, retain, properties)
+                }
+                QoS::AtLeastOnce => {
+                    protocol::Publish::at_least_once(topic, payload, retain, properties, id(pktid))
+                }
+                QoS::ExactlyOnce => {
+                    protocol::Publish::exactly_once(topic, payload, retain, properties, id(pktid))
+                }
+            })
+        }
+        Out::Puback { pktid } => Packet::PubAck(protocol::Puback::new(id(pktid))),
+        Out::PingReq => Packet::PingReq(protocol::PingReq::new()),
+        Out::Subscribe { topic, pktid, qos } => {
+            Packet::Subscribe(protocol::Subscribe::new(&topic, id(pktid), qos))
+        }
+        Out::Unsubscribe { topics, pktid } => {
+            Packet::Unsubscribe(protocol::Unsubscribe::new(topics, id(pktid)))
+        }
+        Out::Disconnect => Packet::Disconnect(protocol::Disconnect::new()),
+    }
+}
+
+/// Run the codec's encoder on one packet, appending to `dst`.
+pub fn encode(out: Out, dst: &mut BytesMut) -> Result<(), IOError> {
+    MqttCodec::new().encode(packet(out), dst)
+}
+
+/// Run the codec's decoder once; a decoded packet is returned as its `Debug` text.
+pub fn decode(src: &mut BytesMut) -> Result<Option<String>, IOError> {
+    MqttCodec::new()
+        .decode(src)
+        .map(|pkt| pkt.map(|pkt| format!("{:?}", pkt)))
+}
+
+pub fn vbi_encode(value: u32) -> Vec<u8> {
+    VBI::from(value).convert_to_mqtt()
+}
+
+/// `Ok(Some((value, bytes consumed)))`, `Ok(None)` when more bytes are needed.
+pub fn vbi_decode(bytes: &[u8]) -> Result<Option<(u32, usize)>, String> {
+    match VBI::convert_from_mqtt(bytes) {
+        Ok((vbi, consumed)) => Ok(Some((vbi.into(), consumed))),
+        Err(protocol::ConvertError::NotEnoughBytes) => Ok(None),
+        Err(e) => Err(e.into()),
+    }
+}
+
+/// The packet identifier allocator.
+pub struct Ids(PktIds);
+
+impl Ids {
+    pub fn new() -> Self {
+        Self(PktIds::new())
+    }
+
+    pub fn new_with_max(max: u16) -> Self {
+        Self(PktIds::new_with_max(id(max)))
+    }
+
+    pub fn next_id(&mut self) -> Option<u16> {
+        self.0.next_id().map(PktId::get)
+    }
+
+    pub fn return_id(&mut self, pktid: u16) {
+        self.0.return_id(id(pktid))
+    }
+}
-- 
2.43.0


From da17f1882dd57296f18372a5c369e6f1a292e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 02/21] fix: reject an overlong variable byte integer before
 computing with it

A fifth length byte overflowed the multiplication and panicked.
---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 913ec90..c7ef1e9 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -278,7 +278,6 @@ impl FromMqttBytes for VBI {
             match bytes.get(idx) {
                 None => return Err(ConvertError::NotEnoughBytes),
                 Some(byte) => {
-                    value += (byte & 127) as u32 * multiplier;
                     if multiplier > 128 * 128 * 128 {
                         return Err(format!(
                             "Invalid VariableByteInteger exceeds 4 bytes, bytes = {:?}",
@@ -286,6 +285,7 @@ impl FromMqttBytes for VBI {
                         )
                         .into());
                     }
+                    value += (byte & 127) as u32 * multiplier;
                     multiplier *= 128;
                     idx += 1;
 
-- 
2.43.0


From 6387d80287d6aa105a8ab82ee95b15827f94fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 03/21] fix: count all five bytes of a message expiry interval
 property

The last byte of the interval was read again as the next property.
---
 src/protocol/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index cad6c47..f362765 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -68,7 +68,7 @@ impl FromMqttBytes for Property {
                         })
                     })
                     .map(|slice| u32::from_be_bytes(slice))?;
-                Ok((MessageExpiryInterval(interval), 4))
+                Ok((MessageExpiryInterval(interval), 5))
             }
             Some(0x08) => {
                 let (s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;
-- 
2.43.0


From bb09efedd7835d684cce2702a279a9119dd71244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 04/21] fix: report truncated packet fields as errors instead
 of panicking

A property length, property value or reason code that runs past the end of
the packet indexed out of bounds.
---
 src/protocol/connack.rs    | 14 +++++++++++---
 src/protocol/disconnect.rs |  4 +++-
 src/protocol/mod.rs        |  5 ++++-
 src/protocol/properties.rs |  9 +++++++--
 src/protocol/suback.rs     |  9 +++++++--
 src/protocol/unsuback.rs   |  9 +++++++--
 6 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/protocol/connack.rs b/src/protocol/connack.rs
index 0a73890..ddeac72 100644
--- a/src/protocol/connack.rs
+++ b/src/protocol/connack.rs
@@ -108,10 +108,16 @@ impl FromMqttBytes for Connack {
             return Err(ConvertError::NotEnoughBytes);
         }
 
-        let flags: ConnackFlags = bytes[bytes_read].try_into()?;
+        let flags: ConnackFlags = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
-        let reason: ConnackReason = bytes[bytes_read].try_into()?;
+        let reason: ConnackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let (properties, props_bytes_read) =
@@ -221,7 +227,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = ConnackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index 4cae4b4..b1fa2c3 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -277,7 +277,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = DisconnectProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index c7ef1e9..292d4ca 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -405,7 +405,10 @@ impl FromMqttBytes for Vec<u8> {
             })
             .map(|slice| u16::from_be_bytes(slice))? as usize;
         if len > 0 {
-            let v = bytes[2..(2 + len)].to_owned();
+            let v = bytes
+                .get(2..(2 + len))
+                .ok_or(ConvertError::NotEnoughBytes)?
+                .to_owned();
             Ok((v, len + 2))
         } else {
             Ok((vec![], 2))
diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index f362765..f68b926 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -57,7 +57,10 @@ impl ToMqttBytes for Property {
 impl FromMqttBytes for Property {
     fn convert_from_mqtt(bytes: &[u8]) -> Result<(Self, usize), ConvertError> {
         match bytes.get(0) {
-            Some(0x01) => Ok((PayloadFormatId(bytes[1]), 2)),
+            Some(0x01) => {
+                let format = bytes.get(1).ok_or(ConvertError::NotEnoughBytes)?;
+                Ok((PayloadFormatId(*format), 2))
+            }
             Some(0x02) => {
                 let interval = bytes
                     .get(1..5)
@@ -113,7 +116,9 @@ impl FromMqttBytes for Vec<Property> {
         if bytelen == 0 {
             Ok((vec![], bytes_consumed))
         } else {
-            let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+            let mut bytes = bytes
+                .get(bytes_consumed..(bytes_consumed + bytelen))
+                .ok_or(ConvertError::NotEnoughBytes)?;
             let mut properties = vec![];
             while bytes.len() > 0 {
                 let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/suback.rs b/src/protocol/suback.rs
index 77c1711..e6b27df 100644
--- a/src/protocol/suback.rs
+++ b/src/protocol/suback.rs
@@ -34,7 +34,10 @@ impl FromMqttBytes for Suback {
             Vec::<properties::SubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: SubackReason = bytes[bytes_read].try_into()?;
+        let reason: SubackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -163,7 +166,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/unsuback.rs b/src/protocol/unsuback.rs
index c70a86a..5d53e2e 100644
--- a/src/protocol/unsuback.rs
+++ b/src/protocol/unsuback.rs
@@ -34,7 +34,10 @@ impl FromMqttBytes for Unsuback {
             Vec::<properties::UnsubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: UnsubackReason = bytes[bytes_read].try_into()?;
+        let reason: UnsubackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -153,7 +156,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = UnsubackProperty::convert_from_mqtt(bytes)?;
-- 
2.43.0


From 627d92b0313a9cea187ad597a5e45911c100d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 05/21] fix: return an error for packet types the client cannot
 handle

Such a packet from the server panicked the event loop.
---
 src/protocol/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 292d4ca..43ecb9e 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -54,7 +54,10 @@ pub fn parse_pkt(data: &[u8]) -> Result<Option<Packet>, std::io::Error> {
         }
         ty => {
             info!("Received msg type = {:?}", ty);
-            unimplemented!("This is not impl");
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                format!("Unsupported packet type = {:?}", ty),
+            ));
         }
     };
 
-- 
2.43.0


From 998b4c35dfb8de70542fc99c63a348f2982ed795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 06/21] fix: encode PUBACK packets

The event loop acknowledges every QoS 1 message, and the encoder panicked.
---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 43ecb9e..52f36a8 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -111,13 +111,13 @@ impl ToMqttBytes for Packet {
         match self {
             Self::Connect(p) => p.convert_to_mqtt(),
             Self::Publish(p) => p.convert_to_mqtt(),
+            Self::PubAck(p) => p.convert_to_mqtt(),
             Self::PingReq(p) => p.convert_to_mqtt(),
             Self::Subscribe(p) => p.convert_to_mqtt(),
             Self::Unsubscribe(p) => p.convert_to_mqtt(),
             Self::Disconnect(p) => p.convert_to_mqtt(),
             Self::PingResp(_) => unimplemented!("Client never sends this"),
             Self::Connack(_) => unimplemented!("Client never sends this"),
-            Self::PubAck(_) => unimplemented!("Client never sends this"),
             Self::SubAck(_) => unimplemented!("Client never sends this"),
             Self::UnsubAck(_) => unimplemented!("Client never sends this"),
         }
-- 
2.43.0


From de502922710ef5678fbbc050c04d6e66ab580f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 07/21] fix: parse every property of a PUBACK packet

One byte too many was skipped after each property, so a second property was
misread, and a property length past the end of the packet was accepted.
---
 src/protocol/puback.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/protocol/puback.rs b/src/protocol/puback.rs
index 6699e8d..2ddc18d 100644
--- a/src/protocol/puback.rs
+++ b/src/protocol/puback.rs
@@ -166,20 +166,22 @@ mod properties {
             if bytelen == 0 {
                 Ok((Default::default(), bytes_consumed))
             } else {
-                let mut bytes = bytes.get(bytes_consumed..(bytes_consumed + bytelen));
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
 
                 let mut properties: PubackProperties = Default::default();
 
-                while let Some(slice) = bytes {
-                    let bytes_read = match slice.get(0) {
+                while bytes.len() > 0 {
+                    let bytes_read = match bytes.get(0) {
                         Some(0x1F) => {
-                            let (s, property_bytes_read) = String::convert_from_mqtt(&slice[1..])?;
+                            let (s, property_bytes_read) = String::convert_from_mqtt(&bytes[1..])?;
                             properties.reason_string = Some(s);
                             property_bytes_read + 1
                         }
                         Some(0x26) => {
-                            let (k, pbr1) = String::convert_from_mqtt(&slice[1..])?;
-                            let (v, pbr2) = String::convert_from_mqtt(&slice[(pbr1 + 1)..])?;
+                            let (k, pbr1) = String::convert_from_mqtt(&bytes[1..])?;
+                            let (v, pbr2) = String::convert_from_mqtt(&bytes[(pbr1 + 1)..])?;
                             properties.user_properties.push((k, v));
                             pbr1 + pbr2 + 1
                         }
@@ -193,7 +195,7 @@ mod properties {
                             return Err(ConvertError::NotEnoughBytes);
                         }
                     };
-                    bytes = slice.get((bytes_read + 1)..);
+                    bytes = &bytes[bytes_read..];
                 }
 
                 Ok((properties, bytes_consumed + bytelen))
-- 
2.43.0


From 79bd72540391f9e34698bda6e521165230757db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 08/21] fix: write the property length of a PUBACK and an id
 per user property

---
 src/protocol/puback.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/protocol/puback.rs b/src/protocol/puback.rs
index 2ddc18d..93fb1b9 100644
--- a/src/protocol/puback.rs
+++ b/src/protocol/puback.rs
@@ -148,15 +148,15 @@ mod properties {
                 buf.extend_from_slice(&s.convert_to_mqtt());
             }
 
-            if self.user_properties.len() > 0 {
-                buf.push(0x26);
-            }
             for (k, v) in &self.user_properties {
+                buf.push(0x26);
                 buf.extend_from_slice(&k.convert_to_mqtt());
                 buf.extend_from_slice(&v.convert_to_mqtt());
             }
 
-            buf
+            let mut header = VBI(buf.len() as u32).convert_to_mqtt();
+            header.extend_from_slice(&buf);
+            header
         }
     }
 
-- 
2.43.0


From 99acd5f39fc862cc734aa616f2f8c9d890734494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 09/21] fix: write the reason code of a DISCONNECT

The property length stood in its place.
---
 src/protocol/disconnect.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index b1fa2c3..7f2b7bf 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -144,6 +144,8 @@ impl ToMqttBytes for Disconnect {
         let mut header: Vec<u8> = vec![0b1110_0000];
         let mut buf = vec![];
 
+        buf.push(self.reason.into());
+
         buf.extend_from_slice(&self.properties.as_slice().convert_to_mqtt());
 
         // empty payload
-- 
2.43.0


From 6271b3c6e5c503dbf2f962e7fb7887d40474a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 10/21] fix: do not overflow when every packet id is in use

Taking the last id of the range, 65535, computed the bound 65536 and panicked.
---
 src/pktids.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/pktids.rs b/src/pktids.rs
index 87b03cf..a4b7585 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -48,23 +48,14 @@ impl PktIds {
             } => {
                 let start = *range.start();
                 let end = *range.end();
-                let mut pktid = Some(start);
+                let pktid = Some(start);
                 let mut new_node = None;
 
                 if start >= end {
-                    // this range is exhausted
-                    if let Some(Node::Vacant) = self.ranges.get(*next) {
-                        // if we have no next nodes and all pktids are in use
-                        // just set this node's range as exhausted
-                        *range = (start + 1)..=end;
-                        if start != end {
-                            pktid = None;
-                        }
-                    } else {
-                        // if we have next node - set this node as vacant and start using next node
-                        new_node = Some(Node::Vacant);
-                        self.start = *next;
-                    }
+                    // this range is exhausted, set this node as vacant and start using next node
+                    // (it is the vacant node 0 if all pktids are in use)
+                    new_node = Some(Node::Vacant);
+                    self.start = *next;
                 } else {
                     *range = (start + 1)..=end;
                 }
-- 
2.43.0


From e98b5d0b93fa11b3a003fcc7e1915054fd79f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 11/21] fix: ignore a returned packet id that is not in use

An unsolicited or repeated ack put the id into the list twice, after which it
was handed out to two requests, or overflowed the upper bound.
---
 src/pktids.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pktids.rs b/src/pktids.rs
index a4b7585..ba4b789 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -82,7 +82,10 @@ impl PktIds {
         let mut prev_idx = None;
         let mut next_idx = self.start;
         while let Some(Node::Taken { range, next }) = self.ranges.get(next_idx) {
-            if *range.start() > id {
+            if *range.start() <= id && id <= *range.end() {
+                // the id is not in use, e.g. the server acked it twice
+                return;
+            } else if *range.start() > id {
                 break;
             } else {
                 prev_idx = Some(next_idx);
-- 
2.43.0


From 1096ec4d559153e25ba9b3c2c0eba83a9b2ca0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 12/21] fix: stop when the server closes the connection before
 sending CONNACK

The event loop polled the ended stream again and again, and never finished.
---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2283027..88d3459 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -127,9 +127,13 @@ async fn poll(
 
     mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
 
-    let pkt = loop {
-        if let Some(pkt) = mqtt_read.next().await {
-            break pkt?;
+    let pkt = match mqtt_read.next().await {
+        Some(pkt) => pkt?,
+        None => {
+            return Err(IOError::new(
+                ErrorKind::UnexpectedEof,
+                "Connection closed before connack",
+            ));
         }
     };
     match pkt {
-- 
2.43.0


From fed0836a358d393369ec99ec7cc60ccca7a94245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 13/21] fix: do not start a session the server refused

A CONNACK with a failure reason code was treated like a successful one, and the
event loop ended with Ok when the server then closed the connection.
---
 src/lib.rs          | 12 ++++++++++--
 src/protocol/mod.rs |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88d3459..3f7d898 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,7 @@ use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
 
-use crate::protocol::{DisconnectReason, PktId, Publish};
+use crate::protocol::{ConnackReason, DisconnectReason, PktId, Publish};
 
 pub use crate::client::{Client, Notification, PublishBuilder};
 pub use crate::protocol::Property;
@@ -139,7 +139,7 @@ async fn poll(
     match pkt {
         protocol::Packet::Connack(p) => {
             info!("Received connack: {:?}", p);
-            // TODO: pkt must be a connack with ConnackReason::Success
+            let reason = p.reason();
             match sender.send(Notification::ConnAck(p)).await {
                 Ok(()) => {}
                 Err(e) => {
@@ -147,6 +147,14 @@ async fn poll(
                     // probably send disconnect without acking any incoming messages?
                 }
             }
+
+            match reason {
+                ConnackReason::Success => {}
+                reason => {
+                    let e = format!("Connection refused: {:?}", reason);
+                    return Err(IOError::new(ErrorKind::ConnectionRefused, e));
+                }
+            }
         }
         _ => {
             error!("Expected connack, received: {:?}", pkt);
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 52f36a8..6110075 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -3,7 +3,7 @@ use std::{
     num::NonZeroU16,
 };
 
-pub use connack::Connack;
+pub use connack::{Connack, ConnackReason};
 pub use connect::Connect;
 pub use disconnect::{Disconnect, DisconnectReason};
 pub use pingreq::PingReq;
-- 
2.43.0


From 2fabfec7b4a7fe937f9da6331858b946f2af3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 14/21] fix: do not poll the command channel after every client
 is dropped

The closed channel is always ready, so the event loop spun on it without
yielding to the runtime.
---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3f7d898..cd47d64 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,6 +167,7 @@ async fn poll(
         Duration::from_secs(8),
     );
     let mut pingresp_received = None;
+    let mut commands_closed = false;
 
     let mut pktids = pktids::PktIds::new();
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
@@ -247,7 +248,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next() => {
+            cmd = commands_rx.next(), if !commands_closed => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -294,7 +295,10 @@ async fn poll(
                             return Ok(());
                         }
                     }
-                    None => {}
+                    None => {
+                        // every client is dropped, the channel must not be polled again
+                        commands_closed = true;
+                    }
                 }
             }
         }
-- 
2.43.0


From e5edaa26f8d46d61bb6b0b6b2c0c22bbeebdc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 15/21] fix: end with an error when every packet id is in use

The event loop panicked in todo!().
---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cd47d64..f43a64b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -263,13 +263,13 @@ async fn poll(
                                             queue.push_back((pktid, Box::new(pkt.clone())));
                                             pkt
                                         }
-                                        None => todo!(),
+                                        None => return Err(no_free_pktid()),
                                     }
                                 }
                                 QoS::ExactlyOnce => {
                                     match pktids.next_id() {
                                         Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),
-                                        None => todo!(),
+                                        None => return Err(no_free_pktid()),
                                     }
                                 }
                             };
@@ -278,14 +278,14 @@ async fn poll(
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
-                                None => todo!(),
+                                None => return Err(no_free_pktid()),
                             };
                             mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
-                                None => todo!(),
+                                None => return Err(no_free_pktid()),
                             };
                             mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
                         }
@@ -305,6 +305,10 @@ async fn poll(
     }
 }
 
+fn no_free_pktid() -> IOError {
+    IOError::new(ErrorKind::Other, "All packet ids are in use")
+}
+
 pub(crate) enum Command {
     Publish {
         topic: String,
-- 
2.43.0


From 2d61ea54a46ba76779c2f0b6b1116d903f452245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 16/21] fix: end with an error when the server sends a QoS 2
 message

The event loop panicked in todo!().
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f43a64b..62ce4c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,7 +227,11 @@ async fn poll(
                                         mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                     }
                                     QoS::ExactlyOnce => {
-                                        todo!("Send pubrec");
+                                        // TODO: send pubrec
+                                        return Err(IOError::new(
+                                            ErrorKind::InvalidData,
+                                            "QoS 2 messages are not supported",
+                                        ));
                                     }
                                 }
 
-- 
2.43.0


From d9b9b14dd25bf7e9905953fa06de7fdbf2a456c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 17/21] fix: free a packet id on PUBACK only if it belongs to
 an unacked publish

A stray PUBACK freed the id of a pending subscribe, which was then handed out
again.
---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62ce4c5..20008c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -213,11 +213,10 @@ async fn poll(
                             protocol::Packet::PubAck(m) => {
                                 if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid()) {
                                     queue.remove(idx);
+                                    pktids.return_id(m.pktid());
                                 } else {
                                     warn!("Failed to find message to ack in the queue");
                                 }
-
-                                pktids.return_id(m.pktid());
                             }
                             protocol::Packet::Publish(m) => {
                                 match m.qos() {
-- 
2.43.0


From 0263e71403db9709730afa765d0de758b43e052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 18/21] fix: refuse topics and properties longer than their
 length prefix can tell

The length was cut to 16 bits, and the server read the rest of the string as
something else.
---
 src/client.rs              | 26 ++++++++++++++++++++++----
 src/protocol/properties.rs | 12 ++++++++++++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6307cba..0719123 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -58,6 +58,7 @@ impl Client {
     }
 
     pub fn subscribe(&mut self, topic: &str, qos: QoS) -> Result<(), Error> {
+        check_len(topic)?;
         self.tx
             .try_send(Command::Subscribe(topic.to_owned(), qos))
             .with_context(|| "Subscribe chan send failed")
@@ -65,11 +66,12 @@ impl Client {
 
     pub fn publish(&mut self, publish_builder: PublishBuilder) -> Result<(), Error> {
         self.tx
-            .try_send(publish_builder.build())
+            .try_send(publish_builder.build()?)
             .with_context(|| "Publish chan send failed")
     }
 
     pub fn unsubscribe(&mut self, topic: &str) -> Result<(), Error> {
+        check_len(topic)?;
         self.tx
             .try_send(Command::Unsubscribe(vec![topic.to_owned()]))
             .with_context(|| "Unsubscribe chan send failed")
@@ -122,13 +124,29 @@ impl PublishBuilder {
         self
     }
 
-    fn build(self) -> Command {
-        Command::Publish {
+    fn build(self) -> Result<Command, Error> {
+        check_len(&self.topic)?;
+        for property in &self.properties {
+            if !property.fits_len_prefix() {
+                return Err(Error::msg("Property is longer than 65535 bytes"));
+            }
+        }
+
+        Ok(Command::Publish {
             topic: self.topic,
             payload: self.payload,
             properties: self.properties,
             qos: self.qos.unwrap_or(QoS::AtMostOnce),
             retain: self.retain.unwrap_or(false),
-        }
+        })
     }
 }
+
+// Strings are sent with their length in two bytes before them
+fn check_len(topic: &str) -> Result<(), Error> {
+    if topic.len() > u16::MAX as usize {
+        return Err(Error::msg("Topic is longer than 65535 bytes"));
+    }
+
+    Ok(())
+}
diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index f68b926..1a9e3f1 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -27,6 +27,18 @@ impl Property {
             UserProperty(_, _) => 0x26,
         }
     }
+
+    // Strings and binary data are sent with their length in two bytes before them
+    pub(crate) fn fits_len_prefix(&self) -> bool {
+        let max = u16::MAX as usize;
+        match self {
+            PayloadFormatId(_) => true,
+            MessageExpiryInterval(_) => true,
+            ResponseTopic(s) => s.len() <= max,
+            CorrelationData(b) => b.len() <= max,
+            UserProperty(k, v) => k.len() <= max && v.len() <= max,
+        }
+    }
 }
 
 impl ToMqttBytes for Property {
-- 
2.43.0


From 93a03735ad49e4e9b0277124b5943e5683db9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 19/21] fix: do not send packets longer than the protocol
 allows

Their length takes five bytes, which the server cannot parse.
---
 src/mqtt_codec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqtt_codec.rs b/src/mqtt_codec.rs
index 11a45c9..2bd180a 100644
--- a/src/mqtt_codec.rs
+++ b/src/mqtt_codec.rs
@@ -70,6 +70,12 @@ impl Encoder<Packet> for MqttCodec {
 
     fn encode(&mut self, item: Packet, dst: &mut BytesMut) -> Result<(), Self::Error> {
         let data = item.convert_to_mqtt();
+        if data.len() > 1 + 4 + MAX as usize {
+            return Err(Self::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("Packet of {} bytes exceeds maximum: {}", data.len(), MAX),
+            ));
+        }
         dst.extend_from_slice(&data);
         Ok(())
     }
-- 
2.43.0


From a24c48ccf0823d07eb2f3489353526d950f7700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 20/21] fix: give the server a whole period to answer a ping
 sent late

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 20008c8..62ad900 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -183,6 +183,11 @@ async fn poll(
                 let pkt = protocol::PingReq::new();
                 mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
                 pingresp_received = Some(false);
+                // the server gets a whole period to answer, even if this tick came late
+                ping = tokio::time::interval_at(
+                    Instant::now() + Duration::from_secs(8),
+                    Duration::from_secs(8),
+                );
             }
             req = mqtt_read.next() => {
                 info!("Incoming req: {:?}", req);
-- 
2.43.0


From 80132447825e4dfaf4cdb40f531f0e7d15c2ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 21/21] fix: check the property length of a short DISCONNECT

---
 src/protocol/disconnect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index 7f2b7bf..7e65a52 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -178,7 +178,7 @@ impl FromMqttBytes for Disconnect {
             reason
         };
 
-        let properties = if remaining_len < 4 {
+        let properties = if remaining_len < 2 {
             vec![]
         } else {
             let (properties, props_bytes_read) =
-- 
2.43.0

