From edabe773469f3f231ba5b14a094b5e55f99b04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 01/31] fix: v3.1.1 UNSUBACK remaining length follows the
 packet id width

---
 src/mqtt/packet/v3_1_1/unsuback.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 70ca4b3..1daa686 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -467,7 +467,8 @@ where
         self.validate()?;
 
         let packet_id_buf = self.packet_id_buf.unwrap();
-        let remaining_length = VariableByteInteger::from_u32(2).unwrap(); // packet_id(2)
+        let remaining_length =
+            VariableByteInteger::from_u32(packet_id_buf.as_ref().len() as u32).unwrap();
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback.as_u8()],
-- 
2.43.0


From c6d727c08751708ece80455a4c729d460e21c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 02/31] fix: packet parsers reject packet id 0 and invalid
 PUBLISH topic names

---
 src/mqtt/packet/v3_1_1/publish.rs     |  6 ++++++
 src/mqtt/packet/v3_1_1/suback.rs      |  3 +++
 src/mqtt/packet/v3_1_1/subscribe.rs   |  3 +++
 src/mqtt/packet/v3_1_1/unsuback.rs    |  3 +++
 src/mqtt/packet/v3_1_1/unsubscribe.rs |  3 +++
 src/mqtt/packet/v5_0/publish.rs       | 14 ++++++++++++++
 src/mqtt/packet/v5_0/suback.rs        |  3 +++
 src/mqtt/packet/v5_0/subscribe.rs     |  3 +++
 src/mqtt/packet/v5_0/unsuback.rs      |  3 +++
 src/mqtt/packet/v5_0/unsubscribe.rs   |  3 +++
 10 files changed, 44 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index e8075aa..8bd4576 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -628,6 +628,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.is_empty() || topic_name.contains('#') || topic_name.contains('+') {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
@@ -644,6 +647,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index 2ce652b..bb81490 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -322,6 +322,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index f9049ff..a440d7f 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -316,6 +316,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 1daa686..61690e1 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -349,6 +349,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index 1898c15..ee52a45 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -331,6 +331,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 6d38a21..65b972d 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -967,6 +967,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.contains('#') || topic_name.contains('+') {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
@@ -983,6 +986,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
@@ -999,6 +1005,14 @@ where
             (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
         };
 
+        if topic_name.is_empty()
+            && !props
+                .iter()
+                .any(|prop| matches!(prop, Property::TopicAlias(_)))
+        {
+            return Err(MqttError::TopicAliasInvalid);
+        }
+
         let payload_len = data_arc.len() - cursor;
         let payload = if payload_len > 0 {
             ArcPayload::new(data_arc.clone(), cursor, payload_len)
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 1367aa0..528e3d2 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -366,6 +366,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index ae98c80..99d71cc 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -336,6 +336,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c63e7ee..c4ac22b 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -361,6 +361,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 178f354..20b1f5e 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -347,6 +347,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
-- 
2.43.0


From 10903019d6963212f72cd5457260d63c4ef369b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 03/31] fix: a v5.0 SUBSCRIBE carries at most one Subscription
 Identifier

---
 src/mqtt/packet/v5_0/subscribe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 99d71cc..1baddd7 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -870,12 +870,16 @@ where
 /// // This would be valid for SUBSCRIBE packets
 /// ```
 fn validate_subscribe_properties(props: &Properties) -> Result<(), MqttError> {
+    let mut count_subscription_identifier = 0;
     for prop in props {
         match prop {
-            Property::SubscriptionIdentifier(_) => {}
+            Property::SubscriptionIdentifier(_) => count_subscription_identifier += 1,
             Property::UserProperty(_) => {}
             _ => return Err(MqttError::ProtocolError),
         }
     }
+    if count_subscription_identifier > 1 {
+        return Err(MqttError::ProtocolError);
+    }
     Ok(())
 }
-- 
2.43.0


From dfcfcb4e58f95aff89546ffa897c9b0b39dfaa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 04/31] fix: reject non-minimal variable byte integers in
 properties

---
 src/mqtt/packet/property.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/property.rs b/src/mqtt/packet/property.rs
index 0ed0945..88d4847 100644
--- a/src/mqtt/packet/property.rs
+++ b/src/mqtt/packet/property.rs
@@ -1425,6 +1425,9 @@ macro_rules! mqtt_property_variable_integer {
             pub fn parse(bytes: &[u8]) -> Result<(Self, usize), MqttError> {
                 match VariableByteInteger::decode_stream(bytes) {
                     DecodeResult::Ok(vbi, len) => {
+                        if len != vbi.size() {
+                            return Err(MqttError::MalformedPacket);
+                        }
                         if let Some(validator) = $validator {
                             validator(vbi.to_u32())?;
                         }
@@ -2436,7 +2439,7 @@ impl PropertiesParse for Properties {
         }
 
         let (prop_len, consumed) = match VariableByteInteger::decode_stream(data) {
-            DecodeResult::Ok(vbi, cons) => (vbi, cons),
+            DecodeResult::Ok(vbi, cons) if cons == vbi.size() => (vbi, cons),
             _ => return Err(MqttError::MalformedPacket),
         };
 
-- 
2.43.0


From 9a96e78963cabad6eca5c4c6e5dbd33956adc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 05/31] fix: v5.0 CONNACK parser rejects reserved acknowledge
 flags

---
 src/mqtt/packet/v5_0/connack.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 63fe40b..d4f135d 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -410,7 +410,9 @@ impl Connack {
         }
         let flags = data[cursor];
         cursor += 1;
-        let _session = (flags & 0x01) != 0;
+        if (flags & 0xFE) != 0 {
+            return Err(MqttError::MalformedPacket);
+        }
         let code = data[cursor];
         cursor += 1;
         let _reason = ConnectReasonCode::try_from(code).map_err(|_| MqttError::MalformedPacket)?;
-- 
2.43.0


From 3a036b7ed701d94352b3cdec2964c4455b117301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 06/31] fix: CONNECT parsers and builders keep the will flags
 consistent

---
 src/mqtt/packet/v3_1_1/connect.rs |  9 +++++++++
 src/mqtt/packet/v5_0/connect.rs   | 13 +++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 3bb1dc2..f250aa7 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -560,6 +560,14 @@ impl Connect {
         let connect_flags_buf = [connect_flags];
         cursor += 1;
 
+        // Reserved bit, Will QoS 3, Will QoS/Retain without Will flag
+        if (connect_flags & 0b0000_0001) != 0
+            || (connect_flags & 0b0001_1000) == 0b0001_1000
+            || ((connect_flags & 0b0000_0100) == 0 && (connect_flags & 0b0011_1000) != 0)
+        {
+            return Err(MqttError::MalformedPacket);
+        }
+
         // Keep Alive
         if data.len() < cursor + 2 {
             return Err(MqttError::MalformedPacket);
@@ -788,6 +796,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Clear Will QoS and Will Retain
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 7a27792..ed1a0bb 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -590,6 +590,14 @@ impl Connect {
         let connect_flags_buf = [connect_flags];
         cursor += 1;
 
+        // Reserved bit, Will QoS 3, Will QoS/Retain without Will flag
+        if (connect_flags & 0b0000_0001) != 0
+            || (connect_flags & 0b0001_1000) == 0b0001_1000
+            || ((connect_flags & 0b0000_0100) == 0 && (connect_flags & 0b0011_1000) != 0)
+        {
+            return Err(MqttError::MalformedPacket);
+        }
+
         // Keep Alive
         if data.len() < cursor + 2 {
             return Err(MqttError::MalformedPacket);
@@ -836,6 +844,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Clear Will QoS and Will Retain
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
@@ -1001,6 +1010,10 @@ impl ConnectBuilder {
         }
 
         if let Some(ref will_props) = self.will_props {
+            // Will properties are only encoded together with a will message
+            if !will_flag && !will_props.is_empty() {
+                return Err(MqttError::MalformedPacket);
+            }
             validate_will_properties(will_props)?;
         }
 
-- 
2.43.0


From 7cf594546b0921d3cddff75aaa7407b63c9b6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 07/31] fix: value allocator answers for out-of-range and
 already free values

---
 src/mqtt/common/value_allocator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 7c22238..70cf9e7 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -117,6 +117,9 @@ where
 
     pub fn deallocate(&mut self, value: T) {
         assert!(self.lowest <= value && value <= self.highest);
+        if !self.is_used(value) {
+            return;
+        }
 
         let right = self
             .pool
@@ -167,7 +170,9 @@ where
     }
 
     pub fn is_used(&self, value: T) -> bool {
-        !self.pool.iter().any(|iv| iv.contains(value))
+        self.lowest <= value
+            && value <= self.highest
+            && !self.pool.iter().any(|iv| iv.contains(value))
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 44932f3db49858cb7b6066f4b27adcd823e4b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 08/31] fix: a CONNECT announcing Topic Alias Maximum 0
 disables sending aliases

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 75f227e..0584d00 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2615,7 +2615,7 @@ where
                     self.clear_store_related();
                 }
                 packet.props().iter().for_each(|prop| match prop {
-                    Property::TopicAliasMaximum(p) => {
+                    Property::TopicAliasMaximum(p) if p.val() != 0 => {
                         self.topic_alias_send = Some(TopicAliasSend::new(p.val()));
                     }
                     Property::ReceiveMaximum(p) => {
-- 
2.43.0


From 679c77de548bc5e1a906fce6dbd703999ecf99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 09/31] fix: closing the transport discards connection scoped
 state

---
 src/mqtt/connection/core.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 0584d00..3561957 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -731,10 +731,22 @@ where
         // Set status to disconnected
         self.status = ConnectionStatus::Disconnected;
 
+        // Discard a partially received packet
+        self.packet_builder.reset();
+
         // Clear topic alias management
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
 
+        // Clear flow control and keep alive values negotiated on this connection
+        self.publish_send_max = None;
+        self.publish_recv_max = None;
+        self.publish_send_count = 0;
+        self.publish_recv.clear();
+        self.pingreq_keep_alive_ms = 0;
+        self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
+
         // Release packet IDs for SUBACK
         for packet_id in self.pid_suback.drain() {
             if self.pid_man.is_used_id(packet_id) {
@@ -1226,6 +1238,7 @@ where
         self.is_client = is_client;
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
     }
 
     fn clear_store_related(&mut self) {
-- 
2.43.0


From c1ca1773585407992ab195d60ef06b9dbf225527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 10/31] fix: a new session forgets the handled QoS 2 packet ids

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 3561957..87bb7b1 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1247,6 +1247,7 @@ where
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
         self.store.clear();
+        self.qos2_publish_handled.clear();
     }
 
     /// Send all stored packets for retransmission
-- 
2.43.0


From b2689852baf4e0848b770977089e2bb7dbc9b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 11/31] fix: a CONNACK on an established connection is a
 protocol error

---
 src/mqtt/connection/core.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 87bb7b1..a122f4e 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2679,6 +2679,12 @@ where
 
         match v3_1_1::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
+                if self.status == ConnectionStatus::Connected
+                    || (self.status == ConnectionStatus::Connecting && !self.is_client)
+                {
+                    Self::handle_v3_1_1_error(MqttError::ProtocolError, &mut events);
+                    return events;
+                }
                 if packet.return_code() == ConnectReturnCode::Accepted {
                     self.status = ConnectionStatus::Connected;
                     if packet.session_present() {
@@ -2707,6 +2713,16 @@ where
 
         match v5_0::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
+                if self.status == ConnectionStatus::Connected
+                    || (self.status == ConnectionStatus::Connecting && !self.is_client)
+                {
+                    if self.status == ConnectionStatus::Connected {
+                        self.handle_v5_0_error(MqttError::ProtocolError, &mut events);
+                    } else {
+                        events.push(GenericEvent::NotifyError(MqttError::ProtocolError));
+                    }
+                    return events;
+                }
                 if packet.reason_code() == ConnectReasonCode::Success {
                     self.status = ConnectionStatus::Connected;
 
-- 
2.43.0


From 08c1dcf5f4985908310ac671eb0fefeac5645376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 12/31] fix: every refused packet that carries a packet id
 releases it

---
 src/mqtt/connection/core.rs | 46 ++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index a122f4e..5abd7f2 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -396,7 +396,8 @@ where
 
         // Return error if versions don't match
         if self.protocol_version != packet_version {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            let packet_id = Self::packet_id_to_release(&packet);
+            return self.refuse_send(MqttError::VersionMismatch, packet_id);
         }
 
         match packet {
@@ -447,28 +448,28 @@ where
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Subscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V3_1_1Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             // SUBACK/UNSUBACK - Server/Any can send
@@ -1580,7 +1581,7 @@ where
         mut packet: v5_0::GenericPublish<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, packet.packet_id());
         }
 
         let mut events = Vec::new();
@@ -1987,7 +1988,7 @@ where
         packet: v5_0::GenericSubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
@@ -2093,7 +2094,7 @@ where
         packet: v5_0::GenericUnsubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
@@ -2336,6 +2337,35 @@ where
         }
     }
 
+    /// Packet ID that belongs to the sender of the packet and is released when the packet is refused
+    fn packet_id_to_release(packet: &GenericPacket<PacketIdType>) -> Option<PacketIdType> {
+        match packet {
+            GenericPacket::V3_1_1Publish(p) => p.packet_id(),
+            GenericPacket::V5_0Publish(p) => p.packet_id(),
+            GenericPacket::V3_1_1Subscribe(p) => Some(p.packet_id()),
+            GenericPacket::V5_0Subscribe(p) => Some(p.packet_id()),
+            GenericPacket::V3_1_1Unsubscribe(p) => Some(p.packet_id()),
+            GenericPacket::V5_0Unsubscribe(p) => Some(p.packet_id()),
+            _ => None,
+        }
+    }
+
+    /// Report the refused packet and release the packet ID if it is in use
+    fn refuse_send(
+        &mut self,
+        error: MqttError,
+        packet_id: Option<PacketIdType>,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        let mut events = vec![GenericEvent::NotifyError(error)];
+        if let Some(packet_id) = packet_id {
+            if self.pid_man.is_used_id(packet_id) {
+                self.pid_man.release_id(packet_id);
+                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+            }
+        }
+        events
+    }
+
     fn validate_maximum_packet_size_send(&self, size: usize) -> bool {
         if size > self.maximum_packet_size_send as usize {
             error!("packet size over maximum_packet_size for sending");
-- 
2.43.0


From b9923905e52ece9f4420d42b49d0647c4cc377d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 13/31] fix: checked_send releases the packet id on a version
 mismatch

---
 src/mqtt/connection/core.rs            |  2 +-
 src/mqtt/connection/sendable.rs        |  8 +++++-
 src/mqtt/connection/sendable_helper.rs | 36 +++++++++++++++-----------
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 5abd7f2..86c68eb 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2351,7 +2351,7 @@ where
     }
 
     /// Report the refused packet and release the packet ID if it is in use
-    fn refuse_send(
+    pub(crate) fn refuse_send(
         &mut self,
         error: MqttError,
         packet_id: Option<PacketIdType>,
diff --git a/src/mqtt/connection/sendable.rs b/src/mqtt/connection/sendable.rs
index 921c635..0bf08ca 100644
--- a/src/mqtt/connection/sendable.rs
+++ b/src/mqtt/connection/sendable.rs
@@ -63,6 +63,11 @@ where
     Role: RoleType,
     PacketIdType: IsPacketId,
 {
+    /// Packet ID that is released when sending the packet is refused
+    fn packet_id_to_release(&self) -> Option<PacketIdType> {
+        None
+    }
+
     // v3.1.1 methods
     fn send_connect_v3_1_1(
         self,
@@ -287,7 +292,8 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         // Version check first
         if !T::check(&connection.get_protocol_version()) {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            let packet_id = self.packet_id_to_release();
+            return connection.refuse_send(MqttError::VersionMismatch, packet_id);
         }
 
         trace!("Static dispatch sent: {}", self);
diff --git a/src/mqtt/connection/sendable_helper.rs b/src/mqtt/connection/sendable_helper.rs
index 8b12e83..5672e11 100644
--- a/src/mqtt/connection/sendable_helper.rs
+++ b/src/mqtt/connection/sendable_helper.rs
@@ -29,11 +29,17 @@ use crate::mqtt::packet::{v3_1_1, v5_0};
 use alloc::vec::Vec;
 
 macro_rules! impl_sendable_helper {
-    ($role:ty, $packet_type:ty, $method:ident, $process_method:ident) => {
+    ($role:ty, $packet_type:ty, $method:ident, $process_method:ident $(, $packet_id:ident)?) => {
         impl<PacketIdType> SendableHelper<$role, PacketIdType> for $packet_type
         where
             PacketIdType: IsPacketId,
         {
+            $(
+                fn packet_id_to_release(&self) -> Option<PacketIdType> {
+                    self.$packet_id().into()
+                }
+            )?
+
             fn $method(
                 self,
                 connection: &mut GenericConnection<$role, PacketIdType>,
@@ -50,8 +56,8 @@ mod unformatted {
     // Client
     impl_sendable_helper!(role::Client, v3_1_1::Connect,                           send_connect_v3_1_1,         process_send_v3_1_1_connect);
     impl_sendable_helper!(role::Client, v5_0::Connect,                             send_connect_v5_0,           process_send_v5_0_connect);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Client, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, packet_id);
+    impl_sendable_helper!(role::Client, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, packet_id);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Client, v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -60,10 +66,10 @@ mod unformatted {
     impl_sendable_helper!(role::Client, v5_0::GenericPubrel<PacketIdType>,         send_pubrel_v5_0,            process_send_v5_0_pubrel);
     impl_sendable_helper!(role::Client, v3_1_1::GenericPubcomp<PacketIdType>,      send_pubcomp_v3_1_1,         process_send_v3_1_1_pubcomp);
     impl_sendable_helper!(role::Client, v5_0::GenericPubcomp<PacketIdType>,        send_pubcomp_v5_0,           process_send_v5_0_pubcomp);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe);
-    impl_sendable_helper!(role::Client, v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe);
-    impl_sendable_helper!(role::Client, v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe);
-    impl_sendable_helper!(role::Client, v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe, packet_id);
+    impl_sendable_helper!(role::Client, v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe, packet_id);
+    impl_sendable_helper!(role::Client, v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe, packet_id);
+    impl_sendable_helper!(role::Client, v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe, packet_id);
     impl_sendable_helper!(role::Client, v3_1_1::Pingreq,                           send_pingreq_v3_1_1,         process_send_v3_1_1_pingreq);
     impl_sendable_helper!(role::Client, v5_0::Pingreq,                             send_pingreq_v5_0,           process_send_v5_0_pingreq);
     impl_sendable_helper!(role::Client, v3_1_1::Disconnect,                        send_disconnect_v3_1_1,      process_send_v3_1_1_disconnect);
@@ -73,8 +79,8 @@ mod unformatted {
     // Server
     impl_sendable_helper!(role::Server, v3_1_1::Connack,                           send_connack_v3_1_1,         process_send_v3_1_1_connack);
     impl_sendable_helper!(role::Server, v5_0::Connack,                             send_connack_v5_0,           process_send_v5_0_connack);
-    impl_sendable_helper!(role::Server, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Server, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Server, v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, packet_id);
+    impl_sendable_helper!(role::Server, v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, packet_id);
     impl_sendable_helper!(role::Server, v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Server, v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Server, v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -98,8 +104,8 @@ mod unformatted {
     impl_sendable_helper!(role::Any,    v5_0::Connect,                             send_connect_v5_0,           process_send_v5_0_connect);
     impl_sendable_helper!(role::Any,    v3_1_1::Connack,                           send_connack_v3_1_1,         process_send_v3_1_1_connack);
     impl_sendable_helper!(role::Any,    v5_0::Connack,                             send_connack_v5_0,           process_send_v5_0_connack);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish);
-    impl_sendable_helper!(role::Any,    v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericPublish<PacketIdType>,      send_publish_v3_1_1,         process_send_v3_1_1_publish, packet_id);
+    impl_sendable_helper!(role::Any,    v5_0::GenericPublish<PacketIdType>,        send_publish_v5_0,           process_send_v5_0_publish, packet_id);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPuback<PacketIdType>,       send_puback_v3_1_1,          process_send_v3_1_1_puback);
     impl_sendable_helper!(role::Any,    v5_0::GenericPuback<PacketIdType>,         send_puback_v5_0,            process_send_v5_0_puback);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPubrec<PacketIdType>,       send_pubrec_v3_1_1,          process_send_v3_1_1_pubrec);
@@ -108,12 +114,12 @@ mod unformatted {
     impl_sendable_helper!(role::Any,    v5_0::GenericPubrel<PacketIdType>,         send_pubrel_v5_0,            process_send_v5_0_pubrel);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericPubcomp<PacketIdType>,      send_pubcomp_v3_1_1,         process_send_v3_1_1_pubcomp);
     impl_sendable_helper!(role::Any,    v5_0::GenericPubcomp<PacketIdType>,        send_pubcomp_v5_0,           process_send_v5_0_pubcomp);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe);
-    impl_sendable_helper!(role::Any,    v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericSubscribe<PacketIdType>,    send_subscribe_v3_1_1,       process_send_v3_1_1_subscribe, packet_id);
+    impl_sendable_helper!(role::Any,    v5_0::GenericSubscribe<PacketIdType>,      send_subscribe_v5_0,         process_send_v5_0_subscribe, packet_id);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericSuback<PacketIdType>,       send_suback_v3_1_1,          process_send_v3_1_1_suback);
     impl_sendable_helper!(role::Any,    v5_0::GenericSuback<PacketIdType>,         send_suback_v5_0,            process_send_v5_0_suback);
-    impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe);
-    impl_sendable_helper!(role::Any,    v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe);
+    impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsubscribe<PacketIdType>,  send_unsubscribe_v3_1_1,     process_send_v3_1_1_unsubscribe, packet_id);
+    impl_sendable_helper!(role::Any,    v5_0::GenericUnsubscribe<PacketIdType>,    send_unsubscribe_v5_0,       process_send_v5_0_unsubscribe, packet_id);
     impl_sendable_helper!(role::Any,    v3_1_1::GenericUnsuback<PacketIdType>,     send_unsuback_v3_1_1,        process_send_v3_1_1_unsuback);
     impl_sendable_helper!(role::Any,    v5_0::GenericUnsuback<PacketIdType>,       send_unsuback_v5_0,          process_send_v5_0_unsuback);
     impl_sendable_helper!(role::Any,    v3_1_1::Pingreq,                           send_pingreq_v3_1_1,         process_send_v3_1_1_pingreq);
-- 
2.43.0


From 84b28aaa94a9e3a483afdbda936b0e8a050af967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 14/31] fix: a QoS>0 PUBLISH accepted while not connected is
 always stored

---
 src/mqtt/connection/core.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 86c68eb..e040272 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -793,6 +793,11 @@ where
             }
         }
 
+        // Messages published offline from now on are stored
+        if self.offline_publish {
+            self.need_store = true;
+        }
+
         // Cancel all timers
         self.cancel_timers(&mut events);
 
@@ -1529,10 +1534,7 @@ where
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             // Register packet ID for QoS 1 or 2
             let packet_id = packet.packet_id().unwrap();
-            if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
-            {
+            if self.status != ConnectionStatus::Connected && !self.need_store {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
                 if self.pid_man.is_used_id(packet_id) {
                     self.pid_man.release_id(packet_id);
@@ -1547,9 +1549,7 @@ where
                 ));
                 return events;
             }
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.need_store {
                 let store_packet = packet.clone().set_dup(true);
                 self.store.add(store_packet.try_into().unwrap()).unwrap();
             } else {
@@ -1589,10 +1589,7 @@ where
         let mut topic_alias_validated = false;
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             let packet_id = packet.packet_id().unwrap();
-            if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
-            {
+            if self.status != ConnectionStatus::Connected && !self.need_store {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
                 if self.pid_man.is_used_id(packet_id) {
                     self.pid_man.release_id(packet_id);
@@ -1610,9 +1607,7 @@ where
                 return events;
             }
 
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.need_store {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
                     // Topic name is empty, must validate topic alias
-- 
2.43.0


From 8122beb82fe440dda18570aa1b4469d68f852372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 15/31] fix: the store of a non-persistent session ends with
 the connection

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index e040272..58d8dfb 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -767,6 +767,7 @@ where
         // If not storing session state, clear QoS2 states and release publish-related packet IDs
         if !self.need_store {
             self.qos2_publish_handled.clear();
+            self.store.clear();
 
             // Release packet IDs for PUBACK
             for packet_id in self.pid_puback.drain() {
-- 
2.43.0


From f58980ec84bcf80c3283bbe6c6fe9a46c9bba1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 16/31] fix: a PUBREC with a success reason code other than
 0x00 continues the exchange

---
 src/mqtt/connection/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 58d8dfb..b4c7263 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -61,7 +61,7 @@ use crate::mqtt::packet::ResponsePacket;
 use crate::mqtt::packet::{Property, TopicAliasRecv, TopicAliasSend};
 use crate::mqtt::prelude::GenericPacketTrait;
 use crate::mqtt::result_code::{
-    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError, PubrecReasonCode,
+    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError,
 };
 
 /// MQTT protocol maximum packet size limit
@@ -3159,7 +3159,7 @@ where
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
-                    if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                    if !reason_code.is_some_and(|rc| rc.is_failure()) {
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
-- 
2.43.0


From 4126e378ae205752775d81fbc75ffd48e391c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 17/31] fix: flow control counts exactly the exchanges of this
 connection

---
 src/mqtt/connection/core.rs | 51 +++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index b4c7263..c31d4fa 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -176,6 +176,9 @@ where
     // Current count of PUBLISH packets being sent
     publish_send_count: u16,
 
+    // Set of PUBLISH packets being sent on this connection (for flow control)
+    publish_send: HashSet<PacketIdType>,
+
     // Set of received PUBLISH packets (for flow control)
     publish_recv: HashSet<PacketIdType>,
 
@@ -273,6 +276,7 @@ where
             publish_send_max: None,
             publish_recv_max: None,
             publish_send_count: 0,
+            publish_send: HashSet::default(),
             publish_recv: HashSet::default(),
             maximum_packet_size_send: MQTT_PACKET_SIZE_NO_LIMIT,
             maximum_packet_size_recv: MQTT_PACKET_SIZE_NO_LIMIT,
@@ -743,6 +747,7 @@ where
         self.publish_send_max = None;
         self.publish_recv_max = None;
         self.publish_send_count = 0;
+        self.publish_send.clear();
         self.publish_recv.clear();
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
@@ -1163,10 +1168,8 @@ where
             self.pid_puback.remove(&packet_id);
             self.pid_pubrec.remove(&packet_id);
 
-            // For V5.0, decrement publish send count if flow control is enabled
-            if self.publish_send_max.is_some() && self.publish_send_count > 0 {
-                self.publish_send_count -= 1;
-            }
+            // The exchange no longer counts for flow control
+            self.publish_send_end(packet_id);
 
             // Release the packet ID if it's managed
             if self.pid_man.is_used_id(packet_id) {
@@ -1236,6 +1239,7 @@ where
         self.publish_send_max = None;
         self.publish_recv_max = None;
         self.publish_send_count = 0;
+        self.publish_send.clear();
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
         self.publish_recv.clear();
@@ -1258,6 +1262,21 @@ where
     }
 
     /// Send all stored packets for retransmission
+    /// The exchange counts for the Receive Maximum of the peer until it is completed
+    fn publish_send_begin(&mut self, packet_id: PacketIdType) {
+        self.publish_send.insert(packet_id);
+        self.update_publish_send_count();
+    }
+
+    fn publish_send_end(&mut self, packet_id: PacketIdType) {
+        self.publish_send.remove(&packet_id);
+        self.update_publish_send_count();
+    }
+
+    fn update_publish_send_count(&mut self) {
+        self.publish_send_count = u16::try_from(self.publish_send.len()).unwrap_or(u16::MAX);
+    }
+
     fn send_stored(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
         self.store.for_each(|packet| {
@@ -1267,12 +1286,14 @@ where
                 events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                 return false; // Remove from store
             }
+            self.publish_send.insert(packet.packet_id());
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.clone().into(),
                 release_packet_id_if_send_error: None,
             });
             true // Keep in store
         });
+        self.update_publish_send_count();
 
         events
     }
@@ -1719,9 +1740,11 @@ where
         }
 
         // Check receive_maximum for sending (QoS 1 and 2 packets)
-        if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
+        if self.status == ConnectionStatus::Connected
+            && (packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce)
+        {
             if let Some(max) = self.publish_send_max {
-                if self.publish_send_count == max {
+                if self.publish_send_count >= max {
                     events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
                     if let Some(packet_id) = packet_id_opt {
                         if self.pid_man.is_used_id(packet_id) {
@@ -1734,7 +1757,9 @@ where
                     }
                     return events;
                 }
-                self.publish_send_count += 1;
+            }
+            if let Some(packet_id) = packet_id_opt {
+                self.publish_send_begin(packet_id);
             }
         }
 
@@ -3098,9 +3123,7 @@ where
                         self.pid_man.release_id(packet_id);
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
-                    if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
-                    }
+                    self.publish_send_end(packet_id);
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
@@ -3172,9 +3195,7 @@ where
                             self.pid_man.release_id(packet_id);
                             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                         }
-                        if self.publish_send_max.is_some() {
-                            self.publish_send_count -= 1;
-                        }
+                        self.publish_send_end(packet_id);
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
@@ -3302,9 +3323,7 @@ where
                         self.pid_man.release_id(packet_id);
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
-                    if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
-                    }
+                    self.publish_send_end(packet_id);
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
-- 
2.43.0


From 75df79f741216e9aeed7c639a9cb57c91caddf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 18/31] fix: a PUBREL queued while not connected is tracked and
 arms no timer

---
 src/mqtt/connection/core.rs  | 35 ++++++++++++++++++++++++++---------
 src/mqtt/connection/store.rs | 20 ++++++++++++++++++++
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index c31d4fa..fa5c5d6 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1573,7 +1573,10 @@ where
             }
             if self.need_store {
                 let store_packet = packet.clone().set_dup(true);
-                self.store.add(store_packet.try_into().unwrap()).unwrap();
+                if let Err(e) = self.store.add(store_packet.try_into().unwrap()) {
+                    events.push(GenericEvent::NotifyError(e));
+                    return events;
+                }
             } else {
                 release_packet_id_if_send_error = Some(packet_id);
             }
@@ -1648,11 +1651,17 @@ where
                         .remove_topic_alias_add_topic(topic_opt.unwrap())
                         .unwrap()
                         .set_dup(true);
-                    self.store.add(store_packet.try_into().unwrap()).unwrap();
+                    if let Err(e) = self.store.add(store_packet.try_into().unwrap()) {
+                        events.push(GenericEvent::NotifyError(e));
+                        return events;
+                    }
                 } else {
                     // Topic name is not empty, remove topic alias if present
                     let store_packet = packet.clone().remove_topic_alias().set_dup(true);
-                    self.store.add(store_packet.try_into().unwrap()).unwrap();
+                    if let Err(e) = self.store.add(store_packet.try_into().unwrap()) {
+                        events.push(GenericEvent::NotifyError(e));
+                        return events;
+                    }
                 }
             } else {
                 release_packet_id_if_send_error = Some(packet_id);
@@ -1880,17 +1889,21 @@ where
             return events;
         }
         if self.need_store {
-            self.store.add(packet.clone().try_into().unwrap()).unwrap();
+            let store_packet = packet.clone().try_into().unwrap();
+            if let Err(e) = self.store.add_pubrel(store_packet) {
+                events.push(GenericEvent::NotifyError(e));
+                return events;
+            }
         }
 
+        self.pid_pubcomp.insert(packet_id);
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
@@ -1916,17 +1929,21 @@ where
             return events;
         }
         if self.need_store {
-            self.store.add(packet.clone().try_into().unwrap()).unwrap();
+            let store_packet = packet.clone().try_into().unwrap();
+            if let Err(e) = self.store.add_pubrel(store_packet) {
+                events.push(GenericEvent::NotifyError(e));
+                return events;
+            }
         }
 
+        self.pid_pubcomp.insert(packet_id);
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
diff --git a/src/mqtt/connection/store.rs b/src/mqtt/connection/store.rs
index afb0106..683563f 100644
--- a/src/mqtt/connection/store.rs
+++ b/src/mqtt/connection/store.rs
@@ -54,6 +54,26 @@ impl<PacketIdType: IsPacketId> GenericStore<PacketIdType> {
         Ok(())
     }
 
+    /// Adds a PUBREL packet to the store, replacing the PUBREL stored for its packet ID if any.
+    ///
+    /// # Returns
+    ///
+    /// * `Ok(())` if the packet was successfully added
+    /// * `Err(MqttError::PacketIdentifierConflict)` if a PUBLISH with that packet ID is stored
+    pub fn add_pubrel(
+        &mut self,
+        packet: GenericStorePacket<PacketIdType>,
+    ) -> Result<(), MqttError> {
+        let id = packet.packet_id();
+        if let Some(stored) = self.map.get(&id) {
+            if stored.response_packet() != packet.response_packet() {
+                return Err(MqttError::PacketIdentifierConflict);
+            }
+        }
+        self.map.insert(id, packet);
+        Ok(())
+    }
+
     /// Erase a packet by its response type and packet id.
     /// Returns true if removed, false otherwise.
     pub fn erase(&mut self, response: ResponsePacket, packet_id: PacketIdType) -> bool {
-- 
2.43.0


From af52e00aeebe47ec9e83a47cc63c7aa803cdfebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 19/31] fix: an exchange between PUBREC and PUBREL stays part
 of the session

---
 src/mqtt/connection/core.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index fa5c5d6..bb8e7f5 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -151,6 +151,8 @@ where
     pid_puback: HashSet<PacketIdType>,
     pid_pubrec: HashSet<PacketIdType>,
     pid_pubcomp: HashSet<PacketIdType>,
+    // PUBREC has been received, PUBREL is not sent yet
+    pid_pubrel: HashSet<PacketIdType>,
 
     need_store: bool,
     // Store for retransmission packets
@@ -264,6 +266,7 @@ where
             pid_puback: HashSet::default(),
             pid_pubrec: HashSet::default(),
             pid_pubcomp: HashSet::default(),
+            pid_pubrel: HashSet::default(),
             need_store: false,
             store: GenericStore::new(),
             offline_publish: false,
@@ -790,6 +793,14 @@ where
                 }
             }
 
+            // Release packet IDs for PUBREL
+            for packet_id in self.pid_pubrel.drain() {
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
+            }
+
             // Release packet IDs for PUBCOMP
             for packet_id in self.pid_pubcomp.drain() {
                 if self.pid_man.is_used_id(packet_id) {
@@ -1257,6 +1268,7 @@ where
         self.pid_puback.clear();
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
+        self.pid_pubrel.clear();
         self.store.clear();
         self.qos2_publish_handled.clear();
     }
@@ -1287,6 +1299,9 @@ where
                 return false; // Remove from store
             }
             self.publish_send.insert(packet.packet_id());
+            if self.pid_pubrel.remove(&packet.packet_id()) {
+                self.pid_pubcomp.insert(packet.packet_id());
+            }
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.clone().into(),
                 release_packet_id_if_send_error: None,
@@ -1896,6 +1911,7 @@ where
             }
         }
 
+        self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
         if self.status == ConnectionStatus::Connected {
             events.push(GenericEvent::RequestSendPacket {
@@ -1936,6 +1952,7 @@ where
             }
         }
 
+        self.pid_pubrel.remove(&packet_id);
         self.pid_pubcomp.insert(packet_id);
         if self.status == ConnectionStatus::Connected {
             events.push(GenericEvent::RequestSendPacket {
@@ -3166,6 +3183,15 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
+                    self.pid_pubrel.insert(packet_id);
+                    if self.need_store {
+                        // Keep the exchange in the session until PUBCOMP is received
+                        let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
+                            .packet_id(packet_id)
+                            .build()
+                            .unwrap();
+                        let _ = self.store.add_pubrel(pubrel.try_into().unwrap());
+                    }
                     if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                         let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
                             .packet_id(packet_id)
@@ -3200,6 +3226,15 @@ where
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
                     if !reason_code.is_some_and(|rc| rc.is_failure()) {
+                        self.pid_pubrel.insert(packet_id);
+                        if self.need_store {
+                            // Keep the exchange in the session until PUBCOMP is received
+                            let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
+                                .packet_id(packet_id)
+                                .build()
+                                .unwrap();
+                            let _ = self.store.add_pubrel(pubrel.try_into().unwrap());
+                        }
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
-- 
2.43.0


From cd30c5accb1baa0611c090a7f44e7de608d29261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 20/31] fix: enabling offline publish on a connection does not
 turn its session persistent

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index bb8e7f5..cea60ff 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -889,7 +889,7 @@ where
     /// * `enable` - Whether to enable offline publishing
     pub fn set_offline_publish(&mut self, enable: bool) {
         self.offline_publish = enable;
-        if self.offline_publish {
+        if self.offline_publish && self.status == ConnectionStatus::Disconnected {
             self.need_store = true;
         }
     }
-- 
2.43.0


From 7ad18ea74217e66d6263259cc511fd030138368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 21/31] fix: give up the connection even when DISCONNECT
 exceeds the peer's packet size

---
 src/mqtt/connection/core.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index cea60ff..00dfceb 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -678,7 +678,7 @@ where
                                 .reason_code(DisconnectReasonCode::KeepAliveTimeout)
                                 .build()
                             {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
+                                events.extend(self.disconnect_v5_0(disconnect));
                             }
                         }
                     }
@@ -703,7 +703,7 @@ where
                                 .reason_code(DisconnectReasonCode::KeepAliveTimeout)
                                 .build()
                             {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
+                                events.extend(self.disconnect_v5_0(disconnect));
                             }
                         }
                     }
@@ -2467,7 +2467,7 @@ where
                 .build()
                 .unwrap();
             // Send disconnect packet directly without generic constraints
-            events.extend(self.process_send_v5_0_disconnect(disconnect_packet));
+            events.extend(self.disconnect_v5_0(disconnect_packet));
             events.push(GenericEvent::NotifyError(MqttError::PacketTooLarge));
             return events;
         }
@@ -3740,10 +3740,27 @@ where
             .reason_code(e.into())
             .build()
             .unwrap();
-        events.extend(self.process_send_v5_0_disconnect(disconnect));
+        events.extend(self.disconnect_v5_0(disconnect));
         events.push(GenericEvent::NotifyError(e));
     }
 
+    /// Give up the connection.
+    /// If DISCONNECT exceeds the maximum packet size of the peer, the transport is closed without it.
+    fn disconnect_v5_0(&mut self, packet: v5_0::Disconnect) -> Vec<GenericEvent<PacketIdType>> {
+        if self.status != ConnectionStatus::Connected
+            || self.validate_maximum_packet_size_send(packet.size())
+        {
+            return self.process_send_v5_0_disconnect(packet);
+        }
+
+        let mut events = Vec::new();
+        self.status = ConnectionStatus::Disconnected;
+        self.cancel_timers(&mut events);
+        events.push(GenericEvent::RequestClose);
+
+        events
+    }
+
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
         if self.pingreq_recv_timeout_ms != 0 {
-- 
2.43.0


From 3c40d5c60a229b421a541fa068cde70ca217a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 22/31] fix: an oversize stored packet dropped on resume ends
 its exchange; resending re-arms the PINGREQ timer

---
 src/mqtt/connection/core.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 00dfceb..16ad7f6 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1294,8 +1294,14 @@ where
         self.store.for_each(|packet| {
             if packet.size() > self.maximum_packet_size_send as usize {
                 let packet_id = packet.packet_id();
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                self.pid_puback.remove(&packet_id);
+                self.pid_pubrec.remove(&packet_id);
+                self.pid_pubrel.remove(&packet_id);
+                self.pid_pubcomp.remove(&packet_id);
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
                 return false; // Remove from store
             }
             self.publish_send.insert(packet.packet_id());
@@ -1309,6 +1315,9 @@ where
             true // Keep in store
         });
         self.update_publish_send_count();
+        if !self.publish_send.is_empty() {
+            self.send_post_process(&mut events);
+        }
 
         events
     }
-- 
2.43.0


From c252e650acc5399a484a02cd39127908daee91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 23/31] fix: stored packets are resent exactly when the session
 is present

---
 src/mqtt/connection/core.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 16ad7f6..2b019ff 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1477,6 +1477,7 @@ where
         }
         let mut events = Vec::new();
         let rc = packet.return_code();
+        let session_present = packet.session_present();
         events.push(GenericEvent::RequestSendPacket {
             packet: packet.into(),
             release_packet_id_if_send_error: None,
@@ -1489,7 +1490,11 @@ where
         }
 
         self.status = ConnectionStatus::Connected;
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
@@ -1509,6 +1514,7 @@ where
 
         let mut events = Vec::new();
         let rc = packet.reason_code();
+        let session_present = packet.session_present();
         if rc == ConnectReasonCode::Success {
             // Process properties
             for prop in packet.props() {
@@ -1564,7 +1570,11 @@ where
 
         self.status = ConnectionStatus::Connected;
 
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
@@ -2820,6 +2830,8 @@ where
                 if packet.reason_code() == ConnectReasonCode::Success {
                     self.status = ConnectionStatus::Connected;
 
+                    let mut session_expires = false;
+
                     // Process properties
                     for prop in packet.props() {
                         match prop {
@@ -2858,12 +2870,8 @@ where
                                 }
                             }
                             Property::SessionExpiryInterval(val) => {
-                                if val.val() == 0 {
-                                    self.need_store = false;
-                                    self.clear_store_related();
-                                } else {
-                                    self.need_store = true;
-                                }
+                                session_expires = val.val() == 0;
+                                self.need_store = !session_expires;
                             }
                             _ => {
                                 // Ignore other properties
@@ -2873,6 +2881,10 @@ where
 
                     if packet.session_present() {
                         events.extend(self.send_stored());
+                        if session_expires {
+                            // The exchanges go on, but the session ends with this connection
+                            self.store.clear();
+                        }
                     } else {
                         self.clear_store_related();
                     }
-- 
2.43.0


From 085a4ddc01f3df05cb9697ea3eff7b64b40231dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 24/31] fix: the Session Expiry Interval in a sent CONNACK
 overrides the requested one

---
 src/mqtt/connection/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 2b019ff..aaf2cb3 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1532,6 +1532,9 @@ where
                         debug_assert!(val.val() != 0, "MaximumPacketSize must not be 0");
                         self.maximum_packet_size_recv = val.val();
                     }
+                    Property::SessionExpiryInterval(val) => {
+                        self.need_store = val.val() != 0;
+                    }
                     Property::ServerKeepAlive(val) => {
                         let val = val.val();
                         if val == 0 {
-- 
2.43.0


From a2d23496ebb1e48962b12dc6776eb8e86d30af72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 25/31] fix: no timer is armed while disconnected or by a
 server for PINGREQ

---
 src/mqtt/connection/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index aaf2cb3..dd805bd 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -854,7 +854,7 @@ where
                     self.pingreq_send_set = false;
                     events.push(GenericEvent::RequestTimerCancel(TimerKind::PingreqSend));
                 }
-            } else if self.status == ConnectionStatus::Connected {
+            } else if self.is_client && self.status == ConnectionStatus::Connected {
                 self.pingreq_send_set = true;
                 events.push(GenericEvent::RequestTimerReset {
                     kind: TimerKind::PingreqSend,
@@ -3787,7 +3787,7 @@ where
 
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
-        if self.pingreq_recv_timeout_ms != 0 {
+        if self.pingreq_recv_timeout_ms != 0 && self.status != ConnectionStatus::Disconnected {
             self.pingreq_recv_set = true;
             events.push(GenericEvent::RequestTimerReset {
                 kind: TimerKind::PingreqRecv,
-- 
2.43.0


From e1c3a7ed995a34f7c650cb885bc97f2f5f941f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 26/31] fix: only an accepted PUBLISH is marked as outstanding
 or handled

---
 src/mqtt/connection/core.rs | 57 +++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index dd805bd..2e6668d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2943,8 +2943,9 @@ where
                                 let packet_id = packet.packet_id().unwrap();
                                 let already_handled = !self.qos2_publish_handled.insert(packet_id);
 
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
+                                if already_handled
+                                    || (self.status == ConnectionStatus::Connected
+                                        && self.auto_pub_response)
                                 {
                                     let pubrec = v3_1_1::GenericPubrec::builder()
                                         .packet_id(packet_id)
@@ -2987,27 +2988,30 @@ where
                         let mut puback_send = false;
                         let mut pubrec_send = false;
 
-                        let mut check_receive_maximum =
-                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
-                                if let Some(max) = self.publish_recv_max {
-                                    if self.publish_recv.len() >= max as usize {
-                                        self.handle_v5_0_error(
-                                            MqttError::ReceiveMaximumExceeded,
-                                            events,
-                                        );
-                                        return false;
-                                    }
+                        let mut check_receive_maximum = |packet_id: PacketIdType,
+                                                         events: &mut Vec<
+                            GenericEvent<PacketIdType>,
+                        >| {
+                            if let Some(max) = self.publish_recv_max {
+                                if !self.publish_recv.contains(&packet_id)
+                                    && self.publish_recv.len() >= max as usize
+                                {
+                                    self.handle_v5_0_error(
+                                        MqttError::ReceiveMaximumExceeded,
+                                        events,
+                                    );
+                                    return false;
                                 }
-                                true
-                            };
+                            }
+                            true
+                        };
 
                         match packet.qos() {
                             Qos::AtLeastOnce => {
                                 let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
+                                if !check_receive_maximum(packet_id, &mut events) {
                                     return events;
                                 }
-                                self.publish_recv.insert(packet_id);
                                 if self.auto_pub_response
                                     && self.status == ConnectionStatus::Connected
                                 {
@@ -3016,16 +3020,13 @@ where
                             }
                             Qos::ExactlyOnce => {
                                 let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
+                                if !check_receive_maximum(packet_id, &mut events) {
                                     return events;
                                 }
-                                self.publish_recv.insert(packet_id);
-
-                                if !self.qos2_publish_handled.insert(packet_id) {
-                                    already_handled = true;
-                                }
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
+                                already_handled = self.qos2_publish_handled.contains(&packet_id);
+                                if already_handled
+                                    || (self.status == ConnectionStatus::Connected
+                                        && self.auto_pub_response)
                                 {
                                     pubrec_send = true;
                                 }
@@ -3096,6 +3097,14 @@ where
                             }
                         }
 
+                        // The packet is accepted
+                        if let Some(packet_id) = packet.packet_id() {
+                            self.publish_recv.insert(packet_id);
+                            if packet.qos() == Qos::ExactlyOnce {
+                                self.qos2_publish_handled.insert(packet_id);
+                            }
+                        }
+
                         // Send response packets
                         if puback_send {
                             let puback = v5_0::GenericPuback::builder()
-- 
2.43.0


From 04d7fe1d668e85ce6c462f2522ec0550fd7bba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 27/31] fix: a skipped packet in restore_packets leaves no
 trace

---
 src/mqtt/connection/core.rs | 56 +++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 2e6668d..4f9d947 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1045,23 +1045,21 @@ where
         for packet in packets {
             match &packet {
                 GenericStorePacket::V3_1_1Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
+                    if p.qos() == Qos::AtMostOnce {
+                        // QoS 0 shouldn't be in store, but handle gracefully
+                        warn!("QoS 0 packet found in store, skipping");
+                        continue;
                     }
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
+                    let qos = p.qos();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Add to appropriate QoS tracking set
+                        if qos == Qos::ExactlyOnce {
+                            self.pid_pubrec.insert(packet_id);
+                        } else {
+                            self.pid_puback.insert(packet_id);
+                        }
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1070,23 +1068,21 @@ where
                     }
                 }
                 GenericStorePacket::V5_0Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
+                    if p.qos() == Qos::AtMostOnce {
+                        // QoS 0 shouldn't be in store, but handle gracefully
+                        warn!("QoS 0 packet found in store, skipping");
+                        continue;
                     }
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
+                    let qos = p.qos();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Add to appropriate QoS tracking set
+                        if qos == Qos::ExactlyOnce {
+                            self.pid_pubrec.insert(packet_id);
+                        } else {
+                            self.pid_puback.insert(packet_id);
+                        }
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1095,11 +1091,11 @@ where
                     }
                 }
                 GenericStorePacket::V3_1_1Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Pubrel packets expect PUBCOMP response
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1108,11 +1104,11 @@ where
                     }
                 }
                 GenericStorePacket::V5_0Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Pubrel packets expect PUBCOMP response
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
-- 
2.43.0


From 19e259b737cdbe802514a06d3bd9f792a8b144b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:50 +0000
Subject: [PATCH 28/31] fix: a topic alias is bound only by a PUBLISH that is
 sent

---
 src/mqtt/connection/core.rs | 46 +++++++++++++++----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 4f9d947..9c7d7e8 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1665,6 +1665,15 @@ where
                 return events;
             }
 
+            // Check receive_maximum for sending (QoS 1 and 2 packets)
+            if self.status == ConnectionStatus::Connected
+                && self
+                    .publish_send_max
+                    .is_some_and(|max| self.publish_send_count >= max)
+            {
+                return self.refuse_send(MqttError::ReceiveMaximumExceeded, Some(packet_id));
+            }
+
             if self.need_store {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
@@ -1729,12 +1738,14 @@ where
         } else if let Some(ta) = ta_opt {
             // Topic alias is provided
             if self.validate_topic_alias_range(ta) {
-                trace!(
-                    "topic alias: {} - {} is registered.",
-                    packet.topic_name(),
-                    ta
-                );
-                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
+                if self.status != ConnectionStatus::Connected {
+                    // The packet is only stored, so the alias is not bound
+                } else if let Some(ref mut topic_alias_send) = self.topic_alias_send {
+                    trace!(
+                        "topic alias: {} - {} is registered.",
+                        packet.topic_name(),
+                        ta
+                    );
                     topic_alias_send.insert_or_update(packet.topic_name(), ta);
                 }
             } else {
@@ -1781,31 +1792,10 @@ where
             }
         }
 
-        // Check receive_maximum for sending (QoS 1 and 2 packets)
-        if self.status == ConnectionStatus::Connected
-            && (packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce)
-        {
-            if let Some(max) = self.publish_send_max {
-                if self.publish_send_count >= max {
-                    events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
-                    if let Some(packet_id) = packet_id_opt {
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            self.store.erase_publish(packet_id);
-                            self.pid_puback.remove(&packet_id);
-                            self.pid_pubrec.remove(&packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                    }
-                    return events;
-                }
-            }
+        if self.status == ConnectionStatus::Connected {
             if let Some(packet_id) = packet_id_opt {
                 self.publish_send_begin(packet_id);
             }
-        }
-
-        if self.status == ConnectionStatus::Connected {
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error,
-- 
2.43.0


From d72e0be3fc9ff780badf909ac6c2fbce8320ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:17 +0000
Subject: [PATCH 29/31] fix: automatic topic aliases never exceed the peer's
 packet size

---
 src/mqtt/connection/core.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9c7d7e8..f4d0a89 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1763,6 +1763,8 @@ where
             }
         } else if self.status == ConnectionStatus::Connected {
             // process auto applying TopicAlias if the option is enabled
+            // the alias is not applied if the packet would get too large for the peer
+            let max_size = self.maximum_packet_size_send as usize;
             if self.auto_map_topic_alias_send {
                 if let Some(ref mut topic_alias_send) = self.topic_alias_send {
                     if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
@@ -1771,11 +1773,17 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if aliased.size() <= max_size {
+                            packet = aliased;
+                        }
                     } else {
                         let lru_ta = topic_alias_send.get_lru_alias();
-                        topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
-                        packet = packet.add_topic_alias(lru_ta);
+                        let aliased = packet.clone().add_topic_alias(lru_ta);
+                        if aliased.size() <= max_size {
+                            topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
+                            packet = aliased;
+                        }
                     }
                 }
             } else if self.auto_replace_topic_alias_send {
@@ -1786,7 +1794,10 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let aliased = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if aliased.size() <= max_size {
+                            packet = aliased;
+                        }
                     }
                 }
             }
-- 
2.43.0


From deee9204413b3b443e536f3bd18c2eaa7a27f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 30/31] fix: a restored session outlives a transport lost
 before it is resumed

---
 src/mqtt/connection/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f4d0a89..98fb924 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1030,6 +1030,10 @@ where
     ///
     /// * `pids` - A `HashSet` containing packet IDs of previously handled QoS 2 PUBLISH packets
     pub fn restore_qos2_publish_handled(&mut self, pids: HashSet<PacketIdType>) {
+        if self.status == ConnectionStatus::Disconnected && !pids.is_empty() {
+            // A restored session outlives a transport lost before it is resumed
+            self.need_store = true;
+        }
         self.qos2_publish_handled = pids;
     }
 
@@ -1118,6 +1122,10 @@ where
                 }
             }
         }
+        if self.status == ConnectionStatus::Disconnected && !self.store.get_stored().is_empty() {
+            // A restored session outlives a transport lost before it is resumed
+            self.need_store = true;
+        }
     }
 
     /// Get stored packets for persistence
-- 
2.43.0


From 30c85d51023cd57c7d3b6de81731419553a2d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 31/31] fix: a packet beyond the largest Remaining Length is
 refused instead of a panic

---
 src/mqtt/connection/core.rs              | 15 ++++++++---
 src/mqtt/packet/v3_1_1/publish.rs        |  6 +++--
 src/mqtt/packet/v3_1_1/suback.rs         |  6 +++--
 src/mqtt/packet/v3_1_1/subscribe.rs      |  6 +++--
 src/mqtt/packet/v3_1_1/unsubscribe.rs    |  6 +++--
 src/mqtt/packet/v5_0/auth.rs             | 11 +++++---
 src/mqtt/packet/v5_0/connack.rs          | 12 ++++++---
 src/mqtt/packet/v5_0/connect.rs          | 18 ++++++++-----
 src/mqtt/packet/v5_0/disconnect.rs       | 11 +++++---
 src/mqtt/packet/v5_0/puback.rs           | 12 ++++++---
 src/mqtt/packet/v5_0/pubcomp.rs          | 11 +++++---
 src/mqtt/packet/v5_0/publish.rs          | 33 +++++++++++++++---------
 src/mqtt/packet/v5_0/pubrec.rs           | 11 +++++---
 src/mqtt/packet/v5_0/pubrel.rs           | 11 +++++---
 src/mqtt/packet/v5_0/suback.rs           | 12 ++++++---
 src/mqtt/packet/v5_0/subscribe.rs        | 12 ++++++---
 src/mqtt/packet/v5_0/unsuback.rs         | 12 ++++++---
 src/mqtt/packet/v5_0/unsubscribe.rs      | 12 ++++++---
 src/mqtt/packet/variable_byte_integer.rs |  5 ++++
 19 files changed, 148 insertions(+), 74 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 98fb924..f2e62d4 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1696,11 +1696,14 @@ where
                         return events;
                     }
                     topic_alias_validated = true;
-                    let store_packet = packet
+                    let store_packet = match packet
                         .clone()
                         .remove_topic_alias_add_topic(topic_opt.unwrap())
-                        .unwrap()
-                        .set_dup(true);
+                    {
+                        Ok(store_packet) => store_packet.set_dup(true),
+                        // It could not be retransmitted with its topic name
+                        Err(e) => return self.refuse_send(e, Some(packet_id)),
+                    };
                     if let Err(e) = self.store.add(store_packet.try_into().unwrap()) {
                         events.push(GenericEvent::NotifyError(e));
                         return events;
@@ -1773,7 +1776,11 @@ where
             // process auto applying TopicAlias if the option is enabled
             // the alias is not applied if the packet would get too large for the peer
             let max_size = self.maximum_packet_size_send as usize;
-            if self.auto_map_topic_alias_send {
+            // the alias adds up to four bytes
+            let aliasable = packet.size() + 4 < MQTT_PACKET_SIZE_NO_LIMIT as usize;
+            if !aliasable {
+                trace!("topic alias: the packet is too large.");
+            } else if self.auto_map_topic_alias_send {
                 if let Some(ref mut topic_alias_send) = self.topic_alias_send {
                     if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
                         trace!(
diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 8bd4576..f2c8ae3 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -671,7 +671,8 @@ where
 
         let publish = GenericPublish {
             fixed_header: [fixed_header_byte],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(remaining_size)
+                .ok_or(MqttError::PacketTooLarge)?,
             topic_name_buf: topic_name,
             packet_id_buf,
             payload_buf: payload,
@@ -1070,7 +1071,8 @@ where
             remaining += mem::size_of::<PacketIdType>();
         }
         remaining += payload.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericPublish {
             fixed_header,
diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index bb81490..2b2694e 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -341,7 +341,8 @@ where
         }
 
         let remaining_size = buffer_size + return_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining_size).ok_or(MqttError::PacketTooLarge)?;
 
         let suback = GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
@@ -625,7 +626,8 @@ where
         let return_codes_size = return_codes_buf.len();
 
         let remaining = packet_id_size + return_codes_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index a440d7f..a5c8390 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -334,7 +334,8 @@ where
         }
 
         let remaining_size = buffer_size + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining_size).ok_or(MqttError::PacketTooLarge)?;
 
         let subscribe = GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
@@ -557,7 +558,8 @@ where
         let entries_size = entries.iter().map(|e| e.size()).sum::<usize>();
 
         let remaining = packet_id_size + entries_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index ee52a45..1e7e781 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -349,7 +349,8 @@ where
         }
 
         let remaining_size = buffer_size + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining_size).ok_or(MqttError::PacketTooLarge)?;
 
         let unsubscribe = GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
@@ -600,7 +601,8 @@ where
         let entries_size = entries.iter().map(|e| e.size()).sum::<usize>();
 
         let remaining = packet_id_size + entries_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
diff --git a/src/mqtt/packet/v5_0/auth.rs b/src/mqtt/packet/v5_0/auth.rs
index 295762c..88c42d9 100644
--- a/src/mqtt/packet/v5_0/auth.rs
+++ b/src/mqtt/packet/v5_0/auth.rs
@@ -350,7 +350,8 @@ impl Auth {
         let (property_length, props) = if reason_code_buf.is_some() && cursor < data.len() {
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len =
+                VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -369,7 +370,8 @@ impl Auth {
 
         let auth = Auth {
             fixed_header: [FixedHeader::Auth.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(remaining_size)
+                .ok_or(MqttError::PacketTooLarge)?,
             reason_code_buf,
             property_length,
             props,
@@ -506,7 +508,7 @@ impl AuthBuilder {
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?)
         } else {
             None
         };
@@ -520,7 +522,8 @@ impl AuthBuilder {
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(Auth {
             fixed_header: [FixedHeader::Auth.as_u8()],
diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index d4f135d..9e3f200 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -421,11 +421,13 @@ impl Connack {
         let (props, consumed) = Properties::parse(&data[cursor..])?;
         cursor += consumed;
         validate_connack_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len =
+            VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
         let connack = Connack {
             fixed_header: [FixedHeader::Connack.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(cursor)
+                .ok_or(MqttError::PacketTooLarge)?,
             ack_flags: [flags],
             reason_code_buf: [code],
             property_length: prop_len,
@@ -596,11 +598,13 @@ impl ConnackBuilder {
         let reason_code_buf = self.reason_code_buf.unwrap_or([0]);
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size: usize = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?;
 
         // remaining length: ack_flags(1) + reason(1) + prop_length_size + props_size
         let remaining = 1 + 1 + property_length.size() + props_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(Connack {
             fixed_header: [FixedHeader::Connack.as_u8()],
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index ed1a0bb..0d8fe0f 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -609,7 +609,8 @@ impl Connect {
         let (props, consumed) = Properties::parse(&data[cursor..])?;
         cursor += consumed;
         validate_connect_properties(&props)?;
-        let property_length = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
         // Client Identifier
         let (client_id_buf, consumed) =
@@ -629,7 +630,8 @@ impl Connect {
             cursor += consumed;
             validate_will_properties(&w_props)?;
             will_props = w_props;
-            will_property_length = VariableByteInteger::from_u32(will_props.size() as u32).unwrap();
+            will_property_length = VariableByteInteger::from_usize(will_props.size())
+                .ok_or(MqttError::PacketTooLarge)?;
 
             // Will Topic
             let (w_topic, consumed) = MqttString::decode(&data[cursor..])?;
@@ -669,7 +671,8 @@ impl Connect {
 
         let connect = Connect {
             fixed_header: [FixedHeader::Connect as u8],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(cursor)
+                .ok_or(MqttError::PacketTooLarge)?,
             protocol_name,
             protocol_version_buf,
             connect_flags_buf,
@@ -1061,13 +1064,15 @@ impl ConnectBuilder {
         let connect_flags = connect_flags_buf[0];
         let keep_alive_buf = self.keep_alive_buf.unwrap_or([0, 0]);
         let props = self.props.unwrap_or_else(Properties::new);
-        let property_length = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
         let client_id_buf = self.client_id_buf.unwrap_or_default();
 
         let will_flag = (connect_flags & 0b0000_0100) != 0;
         let will_props = self.will_props.unwrap_or_else(Properties::new);
-        let will_property_length = VariableByteInteger::from_u32(will_props.size() as u32).unwrap();
+        let will_property_length =
+            VariableByteInteger::from_usize(will_props.size()).ok_or(MqttError::PacketTooLarge)?;
         let will_topic_buf = self.will_topic_buf.unwrap_or_default();
         let will_payload_buf = self.will_payload_buf.unwrap_or_default();
 
@@ -1097,7 +1102,8 @@ impl ConnectBuilder {
             remaining += password_buf.size(); // password
         }
 
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(Connect {
             fixed_header: [FixedHeader::Connect as u8],
diff --git a/src/mqtt/packet/v5_0/disconnect.rs b/src/mqtt/packet/v5_0/disconnect.rs
index 5b1c870..69c9fbc 100644
--- a/src/mqtt/packet/v5_0/disconnect.rs
+++ b/src/mqtt/packet/v5_0/disconnect.rs
@@ -409,7 +409,8 @@ impl Disconnect {
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_disconnect_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len =
+                VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -422,7 +423,8 @@ impl Disconnect {
 
         let disconnect = Disconnect {
             fixed_header: [FixedHeader::Disconnect.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(remaining_size)
+                .ok_or(MqttError::PacketTooLarge)?,
             reason_code_buf,
             property_length,
             props,
@@ -554,7 +556,7 @@ impl DisconnectBuilder {
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?)
         } else {
             None
         };
@@ -568,7 +570,8 @@ impl DisconnectBuilder {
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(Disconnect {
             fixed_header: [FixedHeader::Disconnect.as_u8()],
diff --git a/src/mqtt/packet/v5_0/puback.rs b/src/mqtt/packet/v5_0/puback.rs
index 05cf5e3..8b3ddb9 100644
--- a/src/mqtt/packet/v5_0/puback.rs
+++ b/src/mqtt/packet/v5_0/puback.rs
@@ -442,7 +442,8 @@ where
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_puback_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len =
+                VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
             (prop_len, Some(props))
         } else {
@@ -460,7 +461,8 @@ where
 
         let puback = GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(remaining_size)
+                .ok_or(MqttError::PacketTooLarge)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
@@ -634,7 +636,8 @@ where
         let reason_code_buf = self.reason_code_buf.flatten();
         let props = self.props.flatten();
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?;
 
         let mut remaining = mem::size_of::<PacketIdType>();
         // add reason code if present
@@ -645,7 +648,8 @@ where
         if props.is_some() {
             remaining += property_length.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
diff --git a/src/mqtt/packet/v5_0/pubcomp.rs b/src/mqtt/packet/v5_0/pubcomp.rs
index cd77e35..f6032de 100644
--- a/src/mqtt/packet/v5_0/pubcomp.rs
+++ b/src/mqtt/packet/v5_0/pubcomp.rs
@@ -450,7 +450,8 @@ where
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_pubcomp_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len =
+                VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -464,7 +465,8 @@ where
 
         let pubcomp = GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(remaining_size)
+                .ok_or(MqttError::PacketTooLarge)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
@@ -617,7 +619,7 @@ where
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?)
         } else {
             None
         };
@@ -631,7 +633,8 @@ where
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 65b972d..6a2f8e3 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -543,7 +543,7 @@ where
             .retain(|prop| !matches!(prop, crate::mqtt::packet::Property::TopicAlias(_)));
 
         // Recalculate property_length and remaining_length
-        self.recalculate_lengths();
+        self.recalculate_lengths()?;
 
         Ok(self)
     }
@@ -581,7 +581,7 @@ where
             .retain(|prop| !matches!(prop, crate::mqtt::packet::Property::TopicAlias(_)));
 
         // Recalculate property_length and remaining_length
-        self.recalculate_lengths();
+        self.recalculate_lengths().unwrap();
         self
     }
 
@@ -643,7 +643,7 @@ where
         self.topic_name_extracted = true;
 
         // Recalculate remaining_length (property_length stays the same)
-        self.recalculate_lengths();
+        self.recalculate_lengths()?;
 
         Ok(self)
     }
@@ -738,7 +738,7 @@ where
         self.props.push(topic_alias_property);
 
         // Recalculate lengths
-        self.recalculate_lengths();
+        self.recalculate_lengths().unwrap();
 
         self
     }
@@ -752,10 +752,11 @@ where
     /// The method calculates:
     /// - Property length based on the current properties
     /// - Remaining length including topic name, packet ID (if QoS > 0), properties, and payload
-    fn recalculate_lengths(&mut self) {
+    fn recalculate_lengths(&mut self) -> Result<(), MqttError> {
         // Calculate property length
         let props_size: usize = self.props.size();
-        self.property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?;
 
         // Calculate remaining length
         let mut remaining_size = self.topic_name_buf.size();
@@ -769,13 +770,17 @@ where
         }
 
         // Add property length size
-        remaining_size += self.property_length.size();
+        remaining_size += property_length.size();
         remaining_size += props_size;
 
         // Add payload size
         remaining_size += self.payload_buf.len();
 
-        self.remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        self.remaining_length =
+            VariableByteInteger::from_usize(remaining_size).ok_or(MqttError::PacketTooLarge)?;
+        self.property_length = property_length;
+
+        Ok(())
     }
 
     /// Returns the total size of the PUBLISH packet in bytes
@@ -999,7 +1004,8 @@ where
             let (props, consumed) = Properties::parse(&data_arc[cursor..])?;
             cursor += consumed;
             validate_publish_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len =
+                VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
             (prop_len, props)
         } else {
             (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
@@ -1030,7 +1036,8 @@ where
 
         let publish = GenericPublish {
             fixed_header: [fixed_header_byte],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(remaining_size)
+                .ok_or(MqttError::PacketTooLarge)?,
             topic_name_buf: topic_name,
             packet_id_buf,
             property_length,
@@ -1395,7 +1402,8 @@ where
         let packet_id_buf = self.packet_id_buf.flatten();
         let props = self.props.unwrap_or(Properties::new());
         let props_size: usize = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?;
         let payload = self.payload_buf.unwrap_or_else(ArcPayload::default);
 
         let mut remaining = topic_name_buf.size();
@@ -1404,7 +1412,8 @@ where
         }
         remaining += property_length.size() + props_size;
         remaining += payload.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericPublish {
             fixed_header,
diff --git a/src/mqtt/packet/v5_0/pubrec.rs b/src/mqtt/packet/v5_0/pubrec.rs
index 41ac1d4..60a3f84 100644
--- a/src/mqtt/packet/v5_0/pubrec.rs
+++ b/src/mqtt/packet/v5_0/pubrec.rs
@@ -492,7 +492,8 @@ where
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_pubrec_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len =
+                VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -506,7 +507,8 @@ where
 
         let pubrec = GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(remaining_size)
+                .ok_or(MqttError::PacketTooLarge)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
@@ -711,7 +713,7 @@ where
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?)
         } else {
             None
         };
@@ -725,7 +727,8 @@ where
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
diff --git a/src/mqtt/packet/v5_0/pubrel.rs b/src/mqtt/packet/v5_0/pubrel.rs
index dbdd32c..db88900 100644
--- a/src/mqtt/packet/v5_0/pubrel.rs
+++ b/src/mqtt/packet/v5_0/pubrel.rs
@@ -459,7 +459,8 @@ where
             let (props, consumed) = Properties::parse(&data[cursor..])?;
             cursor += consumed;
             validate_pubrel_properties(&props)?;
-            let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+            let prop_len =
+                VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
             (Some(prop_len), Some(props))
         } else {
@@ -473,7 +474,8 @@ where
 
         let pubrel = GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_usize(remaining_size)
+                .ok_or(MqttError::PacketTooLarge)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
@@ -640,7 +642,7 @@ where
         let props_size: usize = props.as_ref().map_or(0, |p| p.size());
         // property_length only if properties are present
         let property_length = if props.is_some() {
-            Some(VariableByteInteger::from_u32(props_size as u32).unwrap())
+            Some(VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?)
         } else {
             None
         };
@@ -654,7 +656,8 @@ where
         if let Some(ref pl) = property_length {
             remaining += pl.size() + props_size;
         }
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 528e3d2..e91a966 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -375,7 +375,8 @@ where
         let (props, property_length) = Properties::parse(&data[cursor..])?;
         cursor += property_length;
         validate_suback_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len =
+            VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
         let mut reason_codes_buf = Vec::new();
         while cursor < data.len() {
@@ -390,7 +391,8 @@ where
         }
 
         let remaining_size = buffer_size + property_length + reason_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining_size).ok_or(MqttError::PacketTooLarge)?;
 
         let suback = GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
@@ -690,14 +692,16 @@ where
 
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?;
 
         let packet_id_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
         let prop_len_size = property_length.size();
         let reason_codes_size = reason_codes_buf.len();
 
         let remaining = packet_id_size + prop_len_size + props_size + reason_codes_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 1baddd7..82120bd 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -345,7 +345,8 @@ where
         let (props, property_length) = Properties::parse(&data[cursor..])?;
         cursor += property_length;
         validate_subscribe_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len =
+            VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
         let mut entries = Vec::new();
         while cursor < data.len() {
@@ -365,7 +366,8 @@ where
 
         let remaining_size =
             buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining_size).ok_or(MqttError::PacketTooLarge)?;
 
         let subscribe = GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
@@ -634,14 +636,16 @@ where
 
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?;
 
         let packet_id_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
         let prop_len_size = property_length.size();
         let entries_size = entries.iter().map(|e| e.size()).sum::<usize>();
 
         let remaining = packet_id_size + prop_len_size + props_size + entries_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c4ac22b..65ef03d 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -370,7 +370,8 @@ where
         let (props, property_length) = Properties::parse(&data[cursor..])?;
         cursor += property_length;
         validate_unsuback_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len =
+            VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
         let mut reason_codes_buf = Vec::new();
         while cursor < data.len() {
@@ -385,7 +386,8 @@ where
         }
 
         let remaining_size = buffer_size + property_length + reason_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining_size).ok_or(MqttError::PacketTooLarge)?;
 
         let unsuback = GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
@@ -679,14 +681,16 @@ where
 
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?;
 
         let packet_id_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
         let prop_len_size = property_length.size();
         let reason_codes_size = reason_codes_buf.len();
 
         let remaining = packet_id_size + prop_len_size + props_size + reason_codes_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 20b1f5e..1471093 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -356,7 +356,8 @@ where
         let (props, property_length) = Properties::parse(&data[cursor..])?;
         cursor += property_length;
         validate_unsubscribe_properties(&props)?;
-        let prop_len = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        let prop_len =
+            VariableByteInteger::from_usize(props.size()).ok_or(MqttError::PacketTooLarge)?;
 
         let mut entries = Vec::new();
         while cursor < data.len() {
@@ -376,7 +377,8 @@ where
 
         let remaining_size =
             buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining_size).ok_or(MqttError::PacketTooLarge)?;
 
         let unsubscribe = GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
@@ -673,14 +675,16 @@ where
         let entries = self.entry_bufs.unwrap_or_default();
         let props = self.props.unwrap_or_else(Properties::new);
         let props_size = props.size();
-        let property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        let property_length =
+            VariableByteInteger::from_usize(props_size).ok_or(MqttError::PacketTooLarge)?;
 
         let packet_id_size = mem::size_of::<<PacketIdType as IsPacketId>::Buffer>();
         let prop_len_size = property_length.size();
         let entries_size = entries.iter().map(|e| e.size()).sum::<usize>();
 
         let remaining = packet_id_size + prop_len_size + props_size + entries_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
+        let remaining_length =
+            VariableByteInteger::from_usize(remaining).ok_or(MqttError::PacketTooLarge)?;
 
         Ok(GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
diff --git a/src/mqtt/packet/variable_byte_integer.rs b/src/mqtt/packet/variable_byte_integer.rs
index 5f29816..c7260fe 100644
--- a/src/mqtt/packet/variable_byte_integer.rs
+++ b/src/mqtt/packet/variable_byte_integer.rs
@@ -58,6 +58,11 @@ impl VariableByteInteger {
         Some(Self { encoded: buf })
     }
 
+    /// Encode a length into 1-4 bytes, return `None` if too large.
+    pub(crate) fn from_usize(value: usize) -> Option<Self> {
+        u32::try_from(value).ok().and_then(Self::from_u32)
+    }
+
     /// Decode back to `u32`.
     pub fn to_u32(&self) -> u32 {
         let mut multiplier = 1u32;
-- 
2.43.0

