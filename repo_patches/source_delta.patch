From 9cc3c63a4b4ef1985489f4f86af5cad3c6cbfd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:01 +0000
Subject: [PATCH 01/34] fix: drop datagrams that cannot be routed instead of
 panicking in accept

A malformed datagram, or one for an unknown connection, made
recv_new_initial_datagram unwrap an error: any remote host could make accept
panic.
---
 src/routing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/routing.rs b/src/routing.rs
index 92f0617..e89e9a5 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -104,7 +104,10 @@ impl InternalQuicSocket {
             if ret_datagram {
                 return Ok(datagram);
             } else {
-                self.route_datagram(datagram).unwrap();
+                // datagrams that cannot be routed are dropped
+                if let Err(x) = self.route_datagram(datagram) {
+                    eprintln!("{:?}", x);
+                }
             }
         }
     }
-- 
2.43.0


From c943884e8f38a006b99eec4b4e69eccd8b9b5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:01 +0000
Subject: [PATCH 02/34] fix: receive datagrams larger than 4096 bytes without
 truncating them

recv_from discards what does not fit in the buffer, so a larger datagram was
routed with its tail cut off.
---
 src/routing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index e89e9a5..94e4722 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -59,8 +59,8 @@ impl InternalQuicSocket {
     }
     fn recv_datagram(&self) -> std::io::Result<InternalDatagram> {
         let socket = self.socket.lock().unwrap();
-        // TODO investigate proper buffer size
-        let mut buff = [0u8; 4096];
+        // large enough for any udp payload, a shorter buffer would truncate the datagram
+        let mut buff = [0u8; 65536];
         let (amt, addr) = socket.recv_from(&mut buff)?;
         // to_vec used for length safety for allocated obj
         let data = buff[..amt].to_vec();
-- 
2.43.0


From 4f532d1b1eee8e6d1fffd49ce0f714b9d52303fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:01 +0000
Subject: [PATCH 03/34] fix: return an error for a malformed packet header
 instead of panicking

Trailing bytes after a packet, or a truncated header, made decode_next_packet
panic.
---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 8e0aeb6..4bcf179 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -773,7 +773,7 @@ where
     T: Iterator<Item = error::Result<u8>> + Clone,
 {
     let mut header_stream = stream.clone();
-    let header = next_header_from_stream(&mut header_stream).unwrap();
+    let header = next_header_from_stream(&mut header_stream)?;
     match header {
         PacketHeader::Short(_) => {
             let res = PacketOneRtt::from_stream(stream, connection)?;
-- 
2.43.0


From 11187b5ad6d94121f1c0dd54427f20b47f507b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:01 +0000
Subject: [PATCH 04/34] fix: reject packets whose length does not cover the
 packet number

The subtraction underflowed, which panics in debug builds.
---
 src/packet.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 4bcf179..ae580f1 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -34,6 +34,14 @@ fn xor_pn_protection(pn_bytes: &mut [u8], mask: &[u8; 5]) -> error::Result<()> {
     }
 }
 
+/// Length of the protected payload of a long header packet, whose length field also
+/// covers the packet number
+fn protected_payload_length(length: u64, packet_number_length: usize) -> error::Result<usize> {
+    (length as usize)
+        .checked_sub(packet_number_length)
+        .ok_or(Error::InternalError("packet length too small"))
+}
+
 impl LongPacketHeader {
     const HEADER_BITS: u8 = 0xc0;
     pub fn from_connection(connection: &Connection, header_byte: u8) -> error::Result<Self> {
@@ -268,8 +276,10 @@ impl PacketInitial {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let protected_frame_data = var_bytes_from_stream(
+            stream,
+            protected_payload_length(length, packet_number_length)?,
+        )?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -368,8 +378,10 @@ impl PacketZeroRtt {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let protected_frame_data = var_bytes_from_stream(
+            stream,
+            protected_payload_length(length, packet_number_length)?,
+        )?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -449,8 +461,10 @@ impl PacketHandshake {
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let protected_frame_data = var_bytes_from_stream(
+            stream,
+            protected_payload_length(length, packet_number_length)?,
+        )?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
-- 
2.43.0


From 3c3c98807789f634da4d3968c8c6b011cdd29f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:01 +0000
Subject: [PATCH 05/34] fix: reject protected payloads shorter than the
 authentication tag

Slicing off the tag of a shorter payload panicked.
---
 src/quictls/cipher_suite.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quictls/cipher_suite.rs b/src/quictls/cipher_suite.rs
index d8cb9b4..0c6bfdf 100644
--- a/src/quictls/cipher_suite.rs
+++ b/src/quictls/cipher_suite.rs
@@ -151,6 +151,9 @@ fn internal_decrypt_aes_128_gcm(
     associated_data: &[u8],
     payload: &[u8],
 ) -> error::Result<Vec<u8>> {
+    if payload.len() < AES_128_GCM_TAG_LEN {
+        return Err(Error::InternalError("payload too short for aes_128_gcm tag"));
+    }
     let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
     let cipher_text = &payload[..(payload.len() - 16)];
     decrypt_aead(
-- 
2.43.0


From b1db383a941e9beb73a0cdedf3ba33a6b0fdd392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:01 +0000
Subject: [PATCH 06/34] fix: reject retry packets with an error instead of
 panicking

Decoding a datagram with a retry packet reached a todo!().
---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index ae580f1..e2971f5 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -544,7 +544,7 @@ impl PacketRetry {
         T: Iterator<Item = error::Result<u8>>,
     {
         // TODO implement this after retry packet integrity implemented
-        todo!();
+        Err(Error::InternalError("retry packets are not supported"))
         // let version = u32::from_datagram(stream)?;
         // let destination_connection_id_length = u8::from_datagram(stream)?;
         // if destination_connection_id_length > 20 {
-- 
2.43.0


From 3d5f062412f9738f985d73cf556042e5c5f9dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:12 +0000
Subject: [PATCH 07/34] fix: decode packets whose packet number is shorter than
 4 bytes

All four bytes of the longest packet number were consumed before the payload
was read, and handshake packets reconstructed their number from all four, so
any packet with a shorter packet number failed to decrypt.
---
 src/packet.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index e2971f5..1d137d9 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -266,14 +266,14 @@ impl PacketInitial {
         let (token_length, token_length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
         let token = var_bytes_from_stream(stream, token_length as usize)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
+        // sample is located as if the packet number had the largest potential length
         let mut offset_stream = stream.clone();
+        var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
-        xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
-        let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
+        let mut packet_number_bytes = var_bytes_from_stream(stream, packet_number_length)?;
+        xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data = var_bytes_from_stream(
@@ -369,13 +369,14 @@ impl PacketZeroRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
+        // sample is located as if the packet number had the largest potential length
         let mut offset_stream = stream.clone();
+        var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
-        xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
-        let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
+        let mut packet_number_bytes = var_bytes_from_stream(stream, packet_number_length)?;
+        xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data = var_bytes_from_stream(
@@ -451,14 +452,15 @@ impl PacketHandshake {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes = var_bytes_from_stream(stream, 4)?;
+        // sample is located as if the packet number had the largest potential length
         let mut offset_stream = stream.clone();
+        var_bytes_from_stream(&mut offset_stream, 4)?;
         // assumes packet is encoded by the remote
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        let mut packet_number_bytes = var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
-        let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data = var_bytes_from_stream(
@@ -469,7 +471,7 @@ impl PacketHandshake {
         let associated_data = [
             &header.to_bytes()[..],
             &length_bytes[..],
-            &packet_number_vec[..],
+            &packet_number_bytes[..],
         ]
         .concat();
         let frame_data = connection.decrypt_remote_payload(
@@ -481,7 +483,7 @@ impl PacketHandshake {
         let packet_payload = deserialize_frames(&mut utils::make_result_stream(&frame_data[..]))?;
         Ok(Self {
             header,
-            packet_number_bytes: packet_number_vec,
+            packet_number_bytes,
             packet_number,
             packet_payload,
         })
@@ -690,14 +692,14 @@ impl PacketOneRtt {
     {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = ShortPacketHeader::from_stream(stream, header_byte)?;
-        // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
+        // sample is located as if the packet number had the largest potential length
         let mut offset_stream = stream.clone();
+        var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
-        xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
-        let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
+        let mut packet_number_bytes = var_bytes_from_stream(stream, packet_number_length)?;
+        xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data = utils::all_bytes_from_stream(stream)?;
-- 
2.43.0


From 7f05b523020b869a412ca953a6bda1ea077d3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:46 +0000
Subject: [PATCH 08/34] fix: use enough bytes to send a packet number

RFC 9000 section 17.1 requires more than twice the distance to the largest
acknowledged packet number to be representable; the missing bit made the
receiver reconstruct another number for half of all distances.
---
 src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index 060251d..26db03c 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -48,7 +48,8 @@ fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
                 ));
             }
             let diff = pn - x;
-            let bit_len = diff.floor_log2()?;
+            // twice the distance must be representable, hence the additional bit
+            let bit_len = diff.floor_log2()? + 1;
             let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };
             Ok(pn.to_be_bytes()[(8 - byte_len)..].to_vec())
         }
-- 
2.43.0


From 0c340baa7ba6578e93bcee71cbfdc928acd08cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 09/34] fix: reconstruct packet numbers as in RFC 9000 appendix
 A.3

Once a packet number had been acknowledged the reconstruction compared with
the wrong half of it and shifted by bytes instead of bits, so every following
packet got a wrong number.
---
 src/connection.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 26db03c..d0d8911 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -204,15 +204,18 @@ impl Connection {
         let mut tp_pn_bytes = [0u8; 4];
         tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
         let tp_pn = u32::from_be_bytes(tp_pn_bytes);
-        // TODO handle overflow
         let rv = if let Some(x) = largest_ack {
-            let mut la_bytes = [0u8; 4];
-            la_bytes.clone_from_slice(&x.to_be_bytes()[..4]);
-            let tp_la = u32::from_be_bytes(la_bytes);
-            if tp_pn > tp_la {
-                ((x >> pn_length) << pn_length) + u64::from(tp_pn)
+            // closest value to the next expected packet number (rfc9000 appendix A.3)
+            let expected_pn = x + 1;
+            let window = 1u64 << (pn_length * 8);
+            let half_window = window / 2;
+            let candidate_pn = (expected_pn & !(window - 1)) | u64::from(tp_pn);
+            if candidate_pn + half_window <= expected_pn && candidate_pn < (1 << 62) - window {
+                candidate_pn + window
+            } else if candidate_pn > expected_pn + half_window && candidate_pn >= window {
+                candidate_pn - window
             } else {
-                (((x >> pn_length) + 1) << pn_length) + u64::from(tp_pn)
+                candidate_pn
             }
         } else {
             u64::from(tp_pn)
-- 
2.43.0


From f1bd2599a3a6e9c72f83c8dbb9cb289f7b975eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 10/34] fix: pad packets that are too short for header
 protection

With a packet number of fewer than 4 bytes a payload of a few bytes (a ping,
say) left too little to sample, and serialization failed. RFC 9001 section
5.4.2 requires such packets to be padded.
---
 src/packet.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 1d137d9..dd8fcde 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -312,8 +312,12 @@ impl PacketInitial {
     /// Note: connection used to construct this packet should be the same as sent to this
     /// The only reason it is not stored is due to connection being behind a lock
     fn serialize(&self, connection: &Connection) -> error::Result<Vec<u8>> {
-        let payload_bytes = serialize_frames(&self.packet_payload[..], false)?;
+        let mut payload_bytes = serialize_frames(&self.packet_payload[..], false)?;
         let pn_length = self.header.packet_number_length()?;
+        // padding frames make up for a payload too short for the header protection sample
+        if payload_bytes.len() + pn_length < 4 {
+            payload_bytes.resize(4 - pn_length, 0x00);
+        }
         let length = (connection
             .get_local_protected_payload_len(Self::PN_SPACE, payload_bytes.len())?
             + pn_length) as u64;
@@ -495,8 +499,12 @@ impl PacketHandshake {
     /// Note: connection used to construct this packet should be the same as sent to this
     /// The only reason it is not stored is due to connection being behind a lock
     fn serialize(&self, connection: &Connection) -> error::Result<Vec<u8>> {
-        let payload_bytes = serialize_frames(&self.packet_payload[..], false)?;
+        let mut payload_bytes = serialize_frames(&self.packet_payload[..], false)?;
         let pn_length = self.header.packet_number_length()?;
+        // padding frames make up for a payload too short for the header protection sample
+        if payload_bytes.len() + pn_length < 4 {
+            payload_bytes.resize(4 - pn_length, 0x00);
+        }
         let length = (connection
             .get_local_protected_payload_len(Self::PN_SPACE, payload_bytes.len())?
             + pn_length) as u64;
-- 
2.43.0


From 7d101998e836cfe5e8f3b49242fd44fee371c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 11/34] fix: honour the offset and length bits of stream frames

Comparing the masked bits with 1 is never true, so offset and length were read
as stream data and the frames that follow were swallowed.
---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 360cfaf..063d18c 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -298,8 +298,8 @@ impl FrameStream {
     where
         T: Iterator<Item = error::Result<u8>>,
     {
-        let has_offset = type_byte & 0x04 == 1;
-        let has_length = type_byte & 0x02 == 1;
+        let has_offset = type_byte & 0x04 != 0;
+        let has_length = type_byte & 0x02 != 0;
         let is_fin = type_byte & 0x01 == 1;
         let stream_id = var_int_from_stream(datagram)?;
         let offset = if has_offset {
-- 
2.43.0


From 40238eae0d1a250e937bbab099c45dfc74bd5ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 12/34] fix: read only the length of a crypto frame, not its
 offset as well

A crypto frame with a non-zero offset swallowed the frames that follow it, or
failed to decode.
---
 src/frame.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 063d18c..705f0e7 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -222,8 +222,7 @@ impl FrameCrypto {
     {
         let offset = var_int_from_stream(datagram)?;
         let length = var_int_from_stream(datagram)?;
-        let total_size = (length + offset) as usize;
-        let crypto_data = var_bytes_from_stream(datagram, total_size)?;
+        let crypto_data = var_bytes_from_stream(datagram, length as usize)?;
         Ok(Self {
             offset,
             length,
-- 
2.43.0


From b54e3c6f264d4684eeaa91606c0403a7bca0579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:49 +0000
Subject: [PATCH 13/34] fix: reject unknown frame types above 0xff

They were truncated to their low byte and decoded as another frame.
---
 src/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 705f0e7..511b66c 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -797,8 +797,9 @@ pub fn deserialize_frame<T>(datagram: &mut T) -> error::Result<Frame>
 where
     T: Iterator<Item = error::Result<u8>>,
 {
-    let type_byte = var_int_from_stream(datagram)?;
-    let type_byte = (type_byte & (1 << 8) - 1) as u8;
+    let frame_type = var_int_from_stream(datagram)?;
+    let type_byte =
+        u8::try_from(frame_type).map_err(|_| Error::InternalError("Invalid type byte"))?;
     match type_byte {
         0x00 => Ok(Frame::Padding),
         0x01 => Ok(Frame::Ping),
-- 
2.43.0


From c3a2958a164ebd88ed752bc05eeadf4ff733d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:19 +0000
Subject: [PATCH 14/34] fix: decode each packet of a datagram independently

One packet that could not be decrypted (0-RTT without keys, say) discarded the
whole datagram. RFC 9000 section 12.2 requires the remaining packets to be
processed.
---
 src/packet.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index dd8fcde..cbe2a20 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -829,15 +829,50 @@ where
     }
 }
 
+/// Advances past a packet without decoding it, this is only possible for packets
+/// with a length field
+fn skip_next_packet<T>(stream: &mut T) -> error::Result<()>
+where
+    T: Iterator<Item = error::Result<u8>>,
+{
+    match next_header_from_stream(stream)?.get_packet_type() {
+        PacketType::Initial => {
+            let token_length = utils::var_int_from_stream(stream)?;
+            var_bytes_from_stream(stream, token_length as usize)?;
+        }
+        PacketType::ZeroRtt | PacketType::Handshake => {}
+        _ => return Err(Error::InternalError("packet has no length")),
+    }
+    let length = utils::var_int_from_stream(stream)?;
+    var_bytes_from_stream(stream, length as usize)?;
+    Ok(())
+}
+
+/// Decodes all packets of a datagram, packets that fail to decode are skipped
+/// as long as there is another packet that does not
 pub fn decode_packets<T>(stream: &mut T, connection: &Connection) -> error::Result<Vec<Packet>>
 where
     T: Iterator<Item = error::Result<u8>> + Clone,
 {
     let mut rv = Vec::<Packet>::new();
+    let mut first_error = None;
     while !stream.clone().next().is_none() {
-        rv.push(decode_next_packet(stream, connection)?);
+        let mut rest = stream.clone();
+        match decode_next_packet(stream, connection) {
+            Ok(x) => rv.push(x),
+            Err(x) => {
+                first_error.get_or_insert(x);
+                if skip_next_packet(&mut rest).is_err() {
+                    break;
+                }
+                *stream = rest;
+            }
+        }
+    }
+    match first_error {
+        Some(x) if rv.is_empty() => Err(x),
+        _ => Ok(rv),
     }
-    Ok(rv)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 52f65096cb781aa38d61adb496dfd71a31bee33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:31 +0000
Subject: [PATCH 15/34] fix: let sockets and streams be shared between threads

The channel receiver in the connection table made QuicSocket and QuicStream
neither Send nor Sync, although all their state is behind locks for that
purpose: a stream could not be moved out of the accepting thread.
---
 src/routing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 94e4722..59888dd 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -17,7 +17,8 @@ pub(crate) struct InternalDatagram {
 
 #[derive(Debug)]
 pub(crate) struct InternalQuicStream {
-    receiver: Receiver<InternalDatagram>,
+    // a receiver cannot be shared between threads unless behind a lock
+    receiver: Mutex<Receiver<InternalDatagram>>,
     sender: Sender<InternalDatagram>,
     // connection behind a lock although teeeeeechnically not needed
     // as the implementation should only ever let a single thread access
@@ -36,7 +37,7 @@ impl InternalQuicStream {
     pub fn from_connection(connection: Connection) -> Self {
         let (sender, receiver) = channel::<InternalDatagram>();
         Self {
-            receiver,
+            receiver: Mutex::new(receiver),
             sender,
             connection: RwLock::new(connection),
         }
-- 
2.43.0


From 290a336a0b95446edc4c5852193775ab7fd70fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:32 +0000
Subject: [PATCH 16/34] fix: return the accepted connection from accept

accept registered the connection and then panicked in a todo!(), so that no
stream was ever handed out and the connection could never be dropped.
---
 src/routing.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 59888dd..ad28d4a 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -185,9 +185,7 @@ impl InternalQuicSocket {
                 }
             }
         }();
-        let _connection_ref = self.streams.read().unwrap().get(&rv).unwrap();
-        todo!();
-        // Ok(rv)
+        Ok(rv)
     }
 
     pub fn set_log_traffic(&mut self, log_traffic_flag: bool) {
-- 
2.43.0


From 32981caf6542cf39ee110e5977339643ba209499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:05 +0000
Subject: [PATCH 17/34] fix: compare the length of connection ids when routing

A longer or shorter destination connection id with the same numeric value
(leading zeros) was taken for the id of an open connection: its datagrams went
to that connection, and an initial packet for it did not open its own.
---
 src/routing.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index ad28d4a..e7ae7b2 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -44,6 +44,18 @@ impl InternalQuicStream {
     }
 }
 
+/// Finds the stream that a packet is addressed to, issued connection ids are always
+/// 8 bytes long
+fn find_stream<'a>(
+    streams: &'a HashMap<U160, InternalQuicStream>,
+    header: &PacketHeader,
+) -> Option<&'a InternalQuicStream> {
+    if header.get_destination_id_length() != 8 {
+        return None;
+    }
+    streams.get(&header.get_destination_id())
+}
+
 impl InternalQuicSocket {
     pub fn bind<A>(addresses: A) -> std::io::Result<Self>
     where
@@ -83,13 +95,9 @@ impl InternalQuicSocket {
                             PacketHeader::Long(ref x) => x.packet_type(),
                             PacketHeader::Short(ref x) => x.packet_type(),
                         };
-                        let dcid = match x {
-                            PacketHeader::Long(ref x) => x.destination_connection_id,
-                            PacketHeader::Short(ref x) => x.destination_connection_id,
-                        };
                         match packet_type {
                             PacketType::Initial => {
-                                !self.streams.read().unwrap().contains_key(&dcid)
+                                find_stream(&self.streams.read().unwrap(), &x).is_none()
                             }
                             // TODO ZeroRtt packets should be buffered from here
                             _ => false,
@@ -118,11 +126,7 @@ impl InternalQuicSocket {
             .iter()
             .map(|x| -> error::Result<u8> { Ok(x.clone()) });
         let route_header = next_header_from_stream(&mut stream)?;
-        let connection_id = match route_header {
-            PacketHeader::Short(ref x) => x.destination_connection_id,
-            PacketHeader::Long(ref x) => x.destination_connection_id,
-        };
-        match self.streams.read().unwrap().get(&connection_id) {
+        match find_stream(&self.streams.read().unwrap(), &route_header) {
             Some(x) => x
                 .sender
                 .send(datagram)
@@ -139,8 +143,7 @@ impl InternalQuicSocket {
         let header = next_header_from_stream(&mut header_stream)?;
         let rv = {
             let streams_map = self.streams.read().unwrap();
-            let route_stream = streams_map
-                .get(&header.get_destination_id())
+            let route_stream = find_stream(&streams_map, &header)
                 .ok_or(Error::InternalError("connection not found"))?;
             let connection = route_stream.connection.read().unwrap();
             decode_packets(&mut stream, &connection)
-- 
2.43.0


From a15ae94609e1539996462798fc5b9ef8141bec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:06 +0000
Subject: [PATCH 18/34] fix: keep the datagram that opens a connection

accept dropped it after reading its header, losing the client's first flight.
---
 src/routing.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index e7ae7b2..b3cdb92 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -163,9 +163,9 @@ impl InternalQuicSocket {
 
     pub fn accept(&self) -> std::io::Result<U160> {
         let initial_datagram = self.recv_new_initial_datagram()?;
-        let mut stream = utils::make_result_stream(&initial_datagram.data);
         // TODO handle errors below properly
-        let header = next_header_from_stream(&mut stream).unwrap();
+        let header =
+            next_header_from_stream(&mut utils::make_result_stream(&initial_datagram.data)).unwrap();
         let connection = Connection::new(
             true,
             version::Version::V1,
@@ -174,6 +174,8 @@ impl InternalQuicSocket {
         )
         .unwrap();
         let stream = InternalQuicStream::from_connection(connection);
+        // the datagram belongs to the connection it opens, the receiver is held by stream
+        stream.sender.send(initial_datagram).unwrap();
         let rv = || -> U160 {
             loop {
                 let src_id = quictls::utils::get_connection_id();
-- 
2.43.0


From 3188ff3bbea6c8dcefa09db71f30288a6bf1893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:31 +0000
Subject: [PATCH 19/34] fix: open a single connection for copies of an initial
 packet

Connections were only looked up by the id issued to them, which the client
does not know yet: a duplicated or retransmitted initial packet opened another
connection every time. Look them up by the id the client chose as well, and
once more when inserting as another thread may have received a copy.
---
 src/routing.rs | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index b3cdb92..1ab5121 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -24,6 +24,8 @@ pub(crate) struct InternalQuicStream {
     // as the implementation should only ever let a single thread access
     // connection
     connection: RwLock<Connection>,
+    // id chosen by the client for its first packets, and its length
+    initial_id: (U160, u8),
 }
 
 #[derive(Debug)]
@@ -36,24 +38,33 @@ pub(crate) struct InternalQuicSocket {
 impl InternalQuicStream {
     pub fn from_connection(connection: Connection) -> Self {
         let (sender, receiver) = channel::<InternalDatagram>();
+        let initial_id = connection.get_dcid();
         Self {
             receiver: Mutex::new(receiver),
             sender,
             connection: RwLock::new(connection),
+            initial_id,
         }
     }
 }
 
 /// Finds the stream that a packet is addressed to, issued connection ids are always
-/// 8 bytes long
+/// 8 bytes long, until it learns this id a client uses the one it opened the connection with
 fn find_stream<'a>(
     streams: &'a HashMap<U160, InternalQuicStream>,
     header: &PacketHeader,
 ) -> Option<&'a InternalQuicStream> {
-    if header.get_destination_id_length() != 8 {
-        return None;
+    let id = header.get_destination_id();
+    let id_length = header.get_destination_id_length();
+    if id_length == 8 && streams.contains_key(&id) {
+        return streams.get(&id);
+    }
+    match header.get_packet_type() {
+        PacketType::Initial | PacketType::ZeroRtt => streams
+            .values()
+            .find(|x| x.initial_id == (id, id_length)),
+        _ => None,
     }
-    streams.get(&header.get_destination_id())
 }
 
 impl InternalQuicSocket {
@@ -162,6 +173,16 @@ impl InternalQuicSocket {
     }
 
     pub fn accept(&self) -> std::io::Result<U160> {
+        loop {
+            if let Some(x) = self.accept_datagram()? {
+                return Ok(x);
+            }
+        }
+    }
+
+    /// Receives an initial datagram and opens its connection, returns None if another
+    /// thread has opened it with a copy of the datagram in the meantime
+    fn accept_datagram(&self) -> std::io::Result<Option<U160>> {
         let initial_datagram = self.recv_new_initial_datagram()?;
         // TODO handle errors below properly
         let header =
@@ -174,18 +195,25 @@ impl InternalQuicSocket {
         )
         .unwrap();
         let stream = InternalQuicStream::from_connection(connection);
-        // the datagram belongs to the connection it opens, the receiver is held by stream
-        stream.sender.send(initial_datagram).unwrap();
-        let rv = || -> U160 {
+        let rv = || -> Option<U160> {
             loop {
                 let src_id = quictls::utils::get_connection_id();
                 let key = U160::from(src_id);
                 {
                     let mut streams = self.streams.write().unwrap();
-                    if !streams.contains_key(&key) {
+                    if let Some(x) = find_stream(&streams, &header) {
+                        x.sender.send(initial_datagram).unwrap();
+                        return None;
+                    }
+                    // ids chosen by clients are not issued either, they would be ambiguous
+                    if !streams.contains_key(&key)
+                        && streams.values().all(|x| x.initial_id != (key, 8u8))
+                    {
+                        // the datagram belongs to the connection it opens
+                        stream.sender.send(initial_datagram).unwrap();
                         stream.connection.write().unwrap().set_scid(key, 8usize);
                         streams.insert(key.clone(), stream);
-                        return key;
+                        return Some(key);
                     }
                 }
             }
-- 
2.43.0


From 85eda7c77d7803d4631794fc5a52cc046cfb888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:23 +0000
Subject: [PATCH 20/34] sim: add simulation hooks behind cfg(quic_sea_sim)

Off by default. They put the udp socket, locks, channels and random source
behind a runtime supplied by a simulator, and let it drive and observe packet
building and decoding and the connection table.
---
 src/connection.rs    |  33 +++++
 src/interface.rs     |  14 ++
 src/lib.rs           |   3 +
 src/packet.rs        | 101 ++++++++++++++
 src/quictls/mod.rs   |   7 +-
 src/quictls/utils.rs |   3 +
 src/routing.rs       |  63 ++++++++-
 src/sim/access.rs    | 279 +++++++++++++++++++++++++++++++++++++
 src/sim/mod.rs       |  82 +++++++++++
 src/sim/net.rs       |  72 ++++++++++
 src/sim/sync.rs      | 323 +++++++++++++++++++++++++++++++++++++++++++
 11 files changed, 976 insertions(+), 4 deletions(-)
 create mode 100644 src/sim/access.rs
 create mode 100644 src/sim/mod.rs
 create mode 100644 src/sim/net.rs
 create mode 100644 src/sim/sync.rs

diff --git a/src/connection.rs b/src/connection.rs
index d0d8911..e4f6ad1 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -250,3 +250,36 @@ impl Connection {
         self.version.get_version_field_val()
     }
 }
+
+#[cfg(quic_sea_sim)]
+impl Connection {
+    fn sim_pn_info(&mut self, space: crate::sim::access::Space) -> &mut PacketNumberSpaceInfo {
+        use crate::sim::access::Space;
+        self.borrow_mut_pn_info(match space {
+            Space::Initial => PacketNumberSpace::Initial,
+            Space::Handshake => PacketNumberSpace::Handshake,
+            Space::Application => PacketNumberSpace::Application,
+        })
+    }
+    pub fn sim_install_secrets(
+        &mut self,
+        space: crate::sim::access::Space,
+        local: &[u8],
+        remote: &[u8],
+    ) {
+        let info = self.sim_pn_info(space);
+        info.local_tls_secrets = Some(quictls::sim_secrets(local));
+        info.remote_tls_secrets = Some(quictls::sim_secrets(remote));
+    }
+    pub fn sim_note_acked(&mut self, space: crate::sim::access::Space, pn: u64) {
+        let info = self.sim_pn_info(space);
+        info.largest_local_ack = info.largest_local_ack.max(Some(pn));
+    }
+    pub fn sim_note_received(&mut self, space: crate::sim::access::Space, pn: u64) {
+        let info = self.sim_pn_info(space);
+        info.largest_remote_ack = info.largest_remote_ack.max(Some(pn));
+    }
+    pub fn sim_set_last_pn(&mut self, space: crate::sim::access::Space, pn: u64) {
+        self.sim_pn_info(space).next_pn = pn;
+    }
+}
diff --git a/src/interface.rs b/src/interface.rs
index ee73893..0643056 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -48,3 +48,17 @@ impl QuicSocket {
     }
     pub fn set_log_traffic(&self, _log_traffic_flag: bool) {}
 }
+
+#[cfg(quic_sea_sim)]
+impl QuicSocket {
+    pub(crate) fn sim_internal(&self) -> Arc<InternalQuicSocket> {
+        self.socket.clone()
+    }
+}
+
+#[cfg(quic_sea_sim)]
+impl QuicStream {
+    pub(crate) fn sim_connection_id(&self) -> U160 {
+        self.connection_id
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 206771c..aeb377e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 mod connection;
 mod error;
 mod frame;
@@ -6,6 +7,8 @@ mod interface;
 mod packet;
 mod quictls;
 mod routing;
+#[cfg(quic_sea_sim)]
+pub mod sim;
 mod tests;
 mod transport_parameters;
 mod utils;
diff --git a/src/packet.rs b/src/packet.rs
index cbe2a20..3a2c9b2 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -875,6 +875,107 @@ where
     }
 }
 
+#[cfg(quic_sea_sim)]
+pub fn sim_new_initial(
+    frames: Vec<Frame>,
+    token: Option<Vec<u8>>,
+    connection: &mut Connection,
+) -> error::Result<Packet> {
+    Ok(Packet::Initial(PacketInitial::new(frames, token, connection)?))
+}
+
+#[cfg(quic_sea_sim)]
+pub fn sim_new_handshake(
+    frames: Vec<Frame>,
+    connection: &mut Connection,
+) -> error::Result<Packet> {
+    Ok(Packet::Handshake(PacketHandshake::new(frames, connection)?))
+}
+
+#[cfg(quic_sea_sim)]
+pub fn sim_serialize(packet: &Packet, connection: &Connection) -> error::Result<Vec<u8>> {
+    match packet {
+        Packet::Initial(x) => x.serialize(connection),
+        Packet::Handshake(x) => x.serialize(connection),
+        _ => Err(Error::InternalError("packet cannot be serialized")),
+    }
+}
+
+#[cfg(quic_sea_sim)]
+pub fn sim_view(packet: &Packet) -> crate::sim::access::PacketView {
+    use crate::sim::access::{view_frames, Kind, PacketView};
+    fn long(kind: Kind, x: &LongPacketHeader) -> PacketView {
+        let dcid_length = x.destination_connection_id_length as usize;
+        let scid_length = x.source_connection_id_length as usize;
+        let (dcid, scid) = match x.version_negotiation {
+            Some(ref x) => (
+                x.destination_connection_id.clone(),
+                x.source_connection_id.clone(),
+            ),
+            None => (
+                x.destination_connection_id.to_var_bytes(dcid_length),
+                x.source_connection_id.to_var_bytes(scid_length),
+            ),
+        };
+        PacketView {
+            kind,
+            version: x.version,
+            dcid,
+            scid,
+            token: vec![],
+            packet_number: 0,
+            frames: vec![],
+            supported_versions: vec![],
+        }
+    }
+    match packet {
+        Packet::VersionNegotiation(x) => PacketView {
+            supported_versions: x.supported_versions.clone(),
+            ..long(Kind::VersionNegotiation, &x.header)
+        },
+        Packet::Initial(x) => PacketView {
+            token: x.token.clone(),
+            packet_number: x.packet_number,
+            frames: view_frames(&x.packet_payload),
+            ..long(Kind::Initial, &x.header)
+        },
+        Packet::ZeroRtt(x) => PacketView {
+            packet_number: x.packet_number,
+            frames: view_frames(&x.packet_payload),
+            ..long(Kind::ZeroRtt, &x.header)
+        },
+        Packet::Handshake(x) => PacketView {
+            packet_number: x.packet_number,
+            frames: view_frames(&x.packet_payload),
+            ..long(Kind::Handshake, &x.header)
+        },
+        Packet::Retry(x) => PacketView {
+            kind: Kind::Retry,
+            version: x.version,
+            dcid: x
+                .destination_connection_id
+                .to_var_bytes(x.destination_connection_id_length as usize),
+            scid: x
+                .source_connection_id
+                .to_var_bytes(x.source_connection_id_length as usize),
+            token: x.retry_token.clone(),
+            packet_number: 0,
+            frames: vec![],
+            supported_versions: vec![],
+        },
+        Packet::OneRtt(x) => PacketView {
+            kind: Kind::OneRtt,
+            version: 0,
+            dcid: x.header.destination_connection_id.to_var_bytes(8),
+            scid: vec![],
+            token: vec![],
+            packet_number: x.packet_number,
+            frames: view_frames(&x.packet_payload),
+            supported_versions: vec![],
+        },
+    }
+}
+
 #[cfg(test)]
 mod test {
     use crate::connection::Connection;
diff --git a/src/quictls/mod.rs b/src/quictls/mod.rs
index 3fd1d88..a2b19e3 100644
--- a/src/quictls/mod.rs
+++ b/src/quictls/mod.rs
@@ -1,4 +1,9 @@
 mod cipher_suite;
 mod secrets;
 pub mod utils;
-pub use secrets::Secrets;
\ No newline at end of file
+pub use secrets::Secrets;
+
+#[cfg(quic_sea_sim)]
+pub fn sim_secrets(secret: &[u8]) -> Secrets {
+    Secrets::from_secret(&cipher_suite::TLS13_AES_128_GCM_SHA256, secret).unwrap()
+}
diff --git a/src/quictls/utils.rs b/src/quictls/utils.rs
index ec02c80..cd4d340 100644
--- a/src/quictls/utils.rs
+++ b/src/quictls/utils.rs
@@ -1,3 +1,6 @@
+#[cfg(quic_sea_sim)]
+use crate::sim::rand_bytes;
+#[cfg(not(quic_sea_sim))]
 use openssl::rand::rand_bytes;
 
 pub fn get_connection_id() -> u64 {
diff --git a/src/routing.rs b/src/routing.rs
index 1ab5121..b16a99d 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -5,9 +5,21 @@ use crate::quictls;
 use crate::utils::{self, U160};
 use crate::version;
 use std::collections::HashMap;
-use std::net::{SocketAddr, ToSocketAddrs, UdpSocket};
-use std::sync::mpsc::{channel, Receiver, Sender};
-use std::sync::{Mutex, RwLock};
+use std::net::{SocketAddr, ToSocketAddrs};
+
+#[cfg(not(quic_sea_sim))]
+use std::{
+    net::UdpSocket,
+    sync::mpsc::{channel, Receiver, Sender},
+    sync::{Mutex, RwLock},
+};
+
+#[cfg(quic_sea_sim)]
+use crate::sim::{
+    net::UdpSocket,
+    sync::mpsc::{channel, Receiver, Sender},
+    sync::{Mutex, RwLock},
+};
 
 #[derive(Debug)]
 pub(crate) struct InternalDatagram {
@@ -231,3 +243,48 @@ impl InternalQuicSocket {
         self.streams.write().unwrap().remove(&cid);
     }
 }
+
+#[cfg(quic_sea_sim)]
+impl InternalQuicSocket {
+    pub fn sim_open_ids(&self) -> Vec<[u8; 20]> {
+        let streams = self.streams.read().unwrap();
+        let mut rv = streams.keys().map(|x| x.to_bytes()).collect::<Vec<_>>();
+        rv.sort();
+        rv
+    }
+    pub fn sim_take_datagram(&self, id: U160) -> Option<(Vec<u8>, SocketAddr)> {
+        let streams = self.streams.read().unwrap();
+        let rv = streams.get(&id)?.receiver.lock().unwrap().try_recv().ok();
+        rv.map(|x| (x.data, x.addr))
+    }
+    pub fn sim_decode(
+        &self,
+        data: &[u8],
+        addr: SocketAddr,
+    ) -> error::Result<Vec<crate::sim::access::PacketView>> {
+        let data = data.to_vec();
+        let packets = self.packets_from_datagram(&InternalDatagram { data, addr })?;
+        Ok(packets.iter().map(crate::packet::sim_view).collect())
+    }
+    pub fn sim_with_connection<R>(
+        &self,
+        id: U160,
+        f: impl FnOnce(&mut Connection) -> R,
+    ) -> Option<R> {
+        let streams = self.streams.read().unwrap();
+        let rv = f(&mut streams.get(&id)?.connection.write().unwrap());
+        Some(rv)
+    }
+    pub fn sim_with_shared_connection<R>(
+        &self,
+        id: U160,
+        f: impl FnOnce(&Connection) -> R,
+    ) -> Option<R> {
+        let streams = self.streams.read().unwrap();
+        let rv = f(&streams.get(&id)?.connection.read().unwrap());
+        Some(rv)
+    }
+    pub fn sim_set_log_traffic(&self, flag: bool) {
+        *self.log_traffic.write().unwrap() = flag;
+    }
+}
diff --git a/src/sim/access.rs b/src/sim/access.rs
new file mode 100644
index 0000000..d9375a1
--- /dev/null
+++ b/src/sim/access.rs
@@ -0,0 +1,279 @@
+//! What the simulator drives and observes of otherwise private parts
+use crate::connection::Connection;
+use crate::error;
+use crate::frame::{self, Frame};
+use crate::interface::{QuicSocket, QuicStream};
+use crate::packet;
+use crate::routing::InternalQuicSocket;
+use crate::utils::{self, U160};
+use crate::version::Version;
+use std::net::SocketAddr;
+use std::sync::Arc;
+
+pub type Outcome<T> = Result<T, String>;
+
+fn describe<T>(x: error::Result<T>) -> Outcome<T> {
+    x.map_err(|x| format!("{:?}", x))
+}
+
+fn id_from_bytes(bytes: &[u8]) -> U160 {
+    utils::var_u160_from_stream(&mut utils::make_result_stream(bytes), bytes.len() as u8).unwrap()
+}
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
+pub enum Space {
+    Initial,
+    Handshake,
+    Application,
+}
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
+pub enum Kind {
+    VersionNegotiation,
+    Initial,
+    ZeroRtt,
+    Handshake,
+    Retry,
+    OneRtt,
+}
+
+/// A decoded packet, frames are as serialized by this crate
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct PacketView {
+    pub kind: Kind,
+    pub version: u32,
+    pub dcid: Vec<u8>,
+    pub scid: Vec<u8>,
+    pub token: Vec<u8>,
+    pub packet_number: u64,
+    pub frames: Vec<Vec<u8>>,
+    pub supported_versions: Vec<u32>,
+}
+
+pub(crate) fn view_frames(frames: &[Frame]) -> Vec<Vec<u8>> {
+    frames
+        .chunks(1)
+        .map(|x| frame::serialize_frames(x, false).unwrap_or_default())
+        .collect()
+}
+
+/// A frame to send, made with the constructors of this crate
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub enum FrameSpec {
+    Padding,
+    Ping,
+    ResetStream(u64, u64, u64),
+    StopSending(u64, u64),
+    Crypto(Vec<u8>),
+    NewToken(Vec<u8>),
+    Stream(u64, Vec<u8>, bool),
+    MaxData(u64),
+    MaxStreamData(u64, u64),
+    MaxStreams(u64, bool),
+    DataBlocked(u64),
+    StreamDataBlocked(u64, u64),
+    StreamsBlocked(u64, bool),
+    NewConnectionId(u64, u64, [u8; 8], u128),
+    RetireConnectionId(u64),
+    PathChallenge(u64),
+    PathResponse(u64),
+    Close(u64, u64, Vec<u8>),
+    CloseApplication(u64, Vec<u8>),
+    HandshakeDone,
+    /// decoded from these bytes, for frames that have no constructor
+    Wire(Vec<u8>),
+}
+
+fn make_frame(spec: &FrameSpec) -> error::Result<Frame> {
+    Ok(match spec.clone() {
+        FrameSpec::Padding => Frame::Padding,
+        FrameSpec::Ping => Frame::Ping,
+        FrameSpec::ResetStream(a, b, c) => {
+            Frame::ResetStream(frame::FrameResetStream::new(a, b, c))
+        }
+        FrameSpec::StopSending(a, b) => Frame::StopSending(frame::FrameStopSending::new(a, b)),
+        FrameSpec::Crypto(a) => Frame::Crypto(frame::FrameCrypto::new(a)),
+        FrameSpec::NewToken(a) => Frame::NewToken(frame::FrameNewToken::new(a)),
+        FrameSpec::Stream(a, b, c) => Frame::Stream(frame::FrameStream::new(a, b, c)),
+        FrameSpec::MaxData(a) => Frame::MaxData(frame::FrameMaxData::new(a)),
+        FrameSpec::MaxStreamData(a, b) => {
+            Frame::MaxStreamData(frame::FrameMaxStreamData::new(a, b))
+        }
+        FrameSpec::MaxStreams(a, b) => Frame::MaxStreams(frame::FrameMaxStreams::new(a, b)),
+        FrameSpec::DataBlocked(a) => Frame::DataBlocked(frame::FrameDataBlocked::new(a)),
+        FrameSpec::StreamDataBlocked(a, b) => {
+            Frame::StreamDataBlocked(frame::FrameStreamDataBlocked::new(a, b))
+        }
+        FrameSpec::StreamsBlocked(a, b) => {
+            Frame::StreamsBlocked(frame::FrameStreamsBlocked::new(a, b))
+        }
+        FrameSpec::NewConnectionId(a, b, c, d) => Frame::NewConnectionId(
+            frame::FrameNewConnectionId::new(a, b, U160::from(u64::from_be_bytes(c)), d),
+        ),
+        FrameSpec::RetireConnectionId(a) => {
+            Frame::RetireConnectionId(frame::FrameRetireConnectionId::new(a))
+        }
+        FrameSpec::PathChallenge(a) => Frame::PathChallenge(frame::FramePathChallenge::new(a)),
+        FrameSpec::PathResponse(a) => Frame::PathResponse(frame::FramePathResponse::new(a)),
+        FrameSpec::Close(a, b, c) => {
+            Frame::ConnectionClose(frame::FrameConnectionClose::new_error(a, b, c))
+        }
+        FrameSpec::CloseApplication(a, b) => {
+            Frame::ConnectionClose(frame::FrameConnectionClose::new_application_error(a, b))
+        }
+        FrameSpec::HandshakeDone => Frame::HandshakeDone,
+        FrameSpec::Wire(x) => frame::deserialize_frame(&mut utils::make_result_stream(&x))?,
+    })
+}
+
+fn make_frames(specs: &[FrameSpec]) -> Outcome<Vec<Frame>> {
+    let mut rv = Vec::new();
+    for x in specs {
+        rv.push(describe(make_frame(x))?);
+    }
+    Ok(rv)
+}
+
+/// Serializes frames on their own, `is_end` if nothing follows them in the packet
+pub fn serialize_frames(specs: &[FrameSpec], is_end: bool) -> Outcome<Vec<u8>> {
+    describe(frame::serialize_frames(&make_frames(specs)?, is_end))
+}
+
+/// One end of a connection
+pub struct Endpoint {
+    connection: Connection,
+}
+
+impl Endpoint {
+    pub fn new(is_server: bool, dcid: &[u8]) -> Outcome<Self> {
+        Ok(Self {
+            connection: describe(Connection::new(
+                is_server,
+                Version::V1,
+                id_from_bytes(dcid),
+                dcid.len(),
+            ))?,
+        })
+    }
+    pub fn set_scid(&mut self, scid: &[u8]) {
+        self.connection.set_scid(id_from_bytes(scid), scid.len());
+    }
+    pub fn install_secrets(&mut self, space: Space, local: &[u8], remote: &[u8]) {
+        self.connection.sim_install_secrets(space, local, remote);
+    }
+    /// the peer has acknowledged packet `pn` sent by this end
+    pub fn note_acked(&mut self, space: Space, pn: u64) {
+        self.connection.sim_note_acked(space, pn);
+    }
+    /// this end has received packet `pn` of the peer
+    pub fn note_received(&mut self, space: Space, pn: u64) {
+        self.connection.sim_note_received(space, pn);
+    }
+    /// makes `pn` the last packet number used
+    pub fn set_last_pn(&mut self, space: Space, pn: u64) {
+        self.connection.sim_set_last_pn(space, pn);
+    }
+    /// builds and protects an initial packet
+    pub fn build_initial(
+        &mut self,
+        frames: &[FrameSpec],
+        token: Option<Vec<u8>>,
+    ) -> Outcome<Vec<u8>> {
+        let frames = make_frames(frames)?;
+        let packet = describe(packet::sim_new_initial(frames, token, &mut self.connection))?;
+        describe(packet::sim_serialize(&packet, &self.connection))
+    }
+    /// builds and protects a handshake packet
+    pub fn build_handshake(&mut self, frames: &[FrameSpec]) -> Outcome<Vec<u8>> {
+        let frames = make_frames(frames)?;
+        let packet = describe(packet::sim_new_handshake(frames, &mut self.connection))?;
+        describe(packet::sim_serialize(&packet, &self.connection))
+    }
+    /// decodes all packets of a datagram
+    pub fn decode(&self, datagram: &[u8]) -> Outcome<Vec<PacketView>> {
+        let mut stream = utils::make_result_stream(datagram);
+        let packets = describe(packet::decode_packets(&mut stream, &self.connection))?;
+        Ok(packets.iter().map(packet::sim_view).collect())
+    }
+}
+
+/// The inside of a socket
+#[derive(Clone)]
+pub struct Probe {
+    socket: Arc<InternalQuicSocket>,
+}
+
+impl Probe {
+    pub fn new(socket: &QuicSocket) -> Self {
+        Self {
+            socket: socket.sim_internal(),
+        }
+    }
+    /// ids issued to the connections that are open, in ascending order
+    pub fn open_ids(&self) -> Vec<[u8; 20]> {
+        self.socket.sim_open_ids()
+    }
+    /// ids (source and destination with their lengths) a connection puts in its packets
+    pub fn connection_ids(&self, id: [u8; 20]) -> Option<(Vec<u8>, Vec<u8>)> {
+        self.socket.sim_with_connection(id_from_bytes(&id), |x| {
+            let (scid, scid_length) = x.get_scid().unwrap();
+            let (dcid, dcid_length) = x.get_dcid();
+            (
+                scid.to_var_bytes(scid_length as usize),
+                dcid.to_var_bytes(dcid_length as usize),
+            )
+        })
+    }
+    /// takes the next datagram from the inbound queue of a connection
+    pub fn take_datagram(&self, id: [u8; 20]) -> Option<(Vec<u8>, SocketAddr)> {
+        self.socket.sim_take_datagram(id_from_bytes(&id))
+    }
+    /// decodes a datagram taken from the inbound queue of a connection
+    pub fn decode(&self, data: &[u8], addr: SocketAddr) -> Outcome<Vec<PacketView>> {
+        describe(self.socket.sim_decode(data, addr))
+    }
+    /// builds an initial or handshake packet on an open connection, as separate steps
+    /// under the lock of the connection
+    pub fn build(
+        &self,
+        id: [u8; 20],
+        space: Space,
+        frames: &[FrameSpec],
+    ) -> Option<Outcome<Vec<u8>>> {
+        let frames = match make_frames(frames) {
+            Ok(x) => x,
+            Err(x) => return Some(Err(x)),
+        };
+        let id = id_from_bytes(&id);
+        let packet = self.socket.sim_with_connection(id, |x| match space {
+            Space::Initial => packet::sim_new_initial(frames, None, x),
+            _ => packet::sim_new_handshake(frames, x),
+        })?;
+        match packet {
+            Ok(packet) => self
+                .socket
+                .sim_with_shared_connection(id, |x| describe(packet::sim_serialize(&packet, x))),
+            Err(x) => Some(describe(Err(x))),
+        }
+    }
+    pub fn install_secrets(&self, id: [u8; 20], space: Space, local: &[u8], remote: &[u8]) -> bool {
+        self.socket
+            .sim_with_connection(id_from_bytes(&id), |x| {
+                x.sim_install_secrets(space, local, remote)
+            })
+            .is_some()
+    }
+    pub fn note_acked(&self, id: [u8; 20], space: Space, pn: u64) -> bool {
+        self.socket
+            .sim_with_connection(id_from_bytes(&id), |x| x.sim_note_acked(space, pn))
+            .is_some()
+    }
+    pub fn set_log_traffic(&self, flag: bool) {
+        self.socket.sim_set_log_traffic(flag);
+    }
+}
+
+/// The id issued to the connection of a stream
+pub fn stream_id(stream: &QuicStream) -> [u8; 20] {
+    stream.sim_connection_id().to_bytes()
+}
diff --git a/src/sim/mod.rs b/src/sim/mod.rs
new file mode 100644
index 0000000..d3a9f7c
--- /dev/null
+++ b/src/sim/mod.rs
@@ -0,0 +1,82 @@
+//! Simulation hooks, only compiled with `--cfg quic_sea_sim` and never part of a
+//! normal build.
+//!
+//! Every source of nondeterminism of this crate (thread scheduling at locks and
+//! channels, the udp socket and random bytes) is replaced by a stand-in that asks a
+//! [Runtime] supplied by the simulator, and [access] gives the simulator what it needs
+//! to drive and observe otherwise private parts.
+pub mod access;
+pub mod net;
+pub mod sync;
+
+use std::cell::RefCell;
+use std::io;
+use std::net::SocketAddr;
+use std::sync::Arc;
+
+/// The simulator, as seen by the code under simulation
+pub trait Runtime {
+    /// any other thread may run here
+    fn yield_point(&self, what: &'static str);
+    /// suspends the calling thread until `key` is signalled, may wake spuriously
+    fn block(&self, key: usize, what: &'static str);
+    /// wakes the threads that are blocked on `key`
+    fn signal(&self, key: usize);
+    /// whether a waiting writer keeps new readers out of a read-write lock
+    fn prefers_writers(&self) -> bool;
+    fn bind(&self, addr: SocketAddr) -> io::Result<u64>;
+    fn close(&self, socket: u64);
+    fn recv_from(
+        &self,
+        socket: u64,
+        buff: &mut [u8],
+        peek: bool,
+        nonblocking: bool,
+    ) -> io::Result<(usize, SocketAddr)>;
+    fn send_to(&self, socket: u64, data: &[u8], addr: SocketAddr) -> io::Result<usize>;
+    fn rand_bytes(&self, buff: &mut [u8]);
+}
+
+thread_local! {
+    static RUNTIME: RefCell<Option<Arc<dyn Runtime>>> = RefCell::new(None);
+}
+
+/// Sets the runtime of the calling thread, without one the stand-ins for locks and
+/// channels behave like those of the standard library
+pub fn set_runtime(runtime: Option<Arc<dyn Runtime>>) {
+    RUNTIME.with(|x| *x.borrow_mut() = runtime);
+}
+
+pub(crate) fn runtime() -> Option<Arc<dyn Runtime>> {
+    RUNTIME.try_with(|x| x.borrow().clone()).ok().flatten()
+}
+
+pub(crate) fn yield_point(what: &'static str) {
+    if let Some(x) = runtime() {
+        x.yield_point(what);
+    }
+}
+
+pub(crate) fn block(key: usize, what: &'static str) {
+    match runtime() {
+        Some(x) => x.block(key, what),
+        None => std::thread::yield_now(),
+    }
+}
+
+pub(crate) fn signal(key: usize) {
+    if let Some(x) = runtime() {
+        x.signal(key);
+    }
+}
+
+/// Stand-in for `openssl::rand::rand_bytes`
+pub(crate) fn rand_bytes(buff: &mut [u8]) -> Result<(), openssl::error::ErrorStack> {
+    match runtime() {
+        Some(x) => {
+            x.rand_bytes(buff);
+            Ok(())
+        }
+        None => openssl::rand::rand_bytes(buff),
+    }
+}
diff --git a/src/sim/net.rs b/src/sim/net.rs
new file mode 100644
index 0000000..ff2ec8e
--- /dev/null
+++ b/src/sim/net.rs
@@ -0,0 +1,72 @@
+//! Stand-in for the part of `std::net` that has effects
+use super::{runtime, Runtime};
+use std::io;
+use std::net::{SocketAddr, ToSocketAddrs};
+use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::Arc;
+use std::time::Duration;
+
+#[derive(Debug)]
+pub struct UdpSocket {
+    id: u64,
+    addr: SocketAddr,
+    nonblocking: AtomicBool,
+}
+
+fn need_runtime() -> Arc<dyn Runtime> {
+    runtime().expect("simulated socket used outside of the simulation")
+}
+
+impl UdpSocket {
+    pub fn bind<A: ToSocketAddrs>(addresses: A) -> io::Result<Self> {
+        let mut error = io::Error::from(io::ErrorKind::InvalidInput);
+        for addr in addresses.to_socket_addrs()? {
+            match need_runtime().bind(addr) {
+                Ok(id) => {
+                    return Ok(Self {
+                        id,
+                        addr,
+                        nonblocking: AtomicBool::new(false),
+                    })
+                }
+                Err(x) => error = x,
+            }
+        }
+        Err(error)
+    }
+    fn recv(&self, buff: &mut [u8], peek: bool) -> io::Result<(usize, SocketAddr)> {
+        let nonblocking = self.nonblocking.load(Ordering::SeqCst);
+        need_runtime().recv_from(self.id, buff, peek, nonblocking)
+    }
+    pub fn recv_from(&self, buff: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+        self.recv(buff, false)
+    }
+    pub fn peek_from(&self, buff: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
+        self.recv(buff, true)
+    }
+    pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addresses: A) -> io::Result<usize> {
+        match addresses.to_socket_addrs()?.next() {
+            Some(addr) => need_runtime().send_to(self.id, data, addr),
+            None => Err(io::Error::from(io::ErrorKind::InvalidInput)),
+        }
+    }
+    pub fn local_addr(&self) -> io::Result<SocketAddr> {
+        Ok(self.addr)
+    }
+    pub fn set_nonblocking(&self, nonblocking: bool) -> io::Result<()> {
+        self.nonblocking.store(nonblocking, Ordering::SeqCst);
+        Ok(())
+    }
+    pub fn set_read_timeout(&self, timeout: Option<Duration>) -> io::Result<()> {
+        // a receive with a timeout may find nothing whenever nothing is there
+        self.set_nonblocking(timeout.is_some())
+    }
+}
+
+impl Drop for UdpSocket {
+    fn drop(&mut self) {
+        if let Some(x) = runtime() {
+            x.close(self.id);
+        }
+    }
+}
diff --git a/src/sim/sync.rs b/src/sim/sync.rs
new file mode 100644
index 0000000..4f9750c
--- /dev/null
+++ b/src/sim/sync.rs
@@ -0,0 +1,323 @@
+//! Stand-ins for the locks and channels of `std::sync`
+//!
+//! They wrap the real ones, which are only ever tried and never waited for: waiting is
+//! left to the simulator.
+use super::{block, runtime, signal, yield_point};
+use std::fmt;
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::{self as real, LockResult, PoisonError, TryLockError, TryLockResult};
+
+fn key_of<T: ?Sized>(x: &T) -> usize {
+    x as *const T as *const u8 as usize
+}
+
+macro_rules! guard {
+    ($name:ident, $real:ident $(, $mutable:ident)?) => {
+        pub struct $name<'a, T> {
+            inner: Option<real::$real<'a, T>>,
+            key: usize,
+        }
+        impl<'a, T> Deref for $name<'a, T> {
+            type Target = T;
+            fn deref(&self) -> &T {
+                self.inner.as_ref().unwrap()
+            }
+        }
+        $(impl<'a, T> DerefMut for $name<'a, T> {
+            fn deref_mut(&mut self) -> &mut T {
+                let $mutable = self.inner.as_mut().unwrap();
+                $mutable
+            }
+        })?
+        impl<'a, T: fmt::Debug> fmt::Debug for $name<'a, T> {
+            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+                (**self).fmt(f)
+            }
+        }
+        impl<'a, T> Drop for $name<'a, T> {
+            fn drop(&mut self) {
+                drop(self.inner.take());
+                signal(self.key);
+            }
+        }
+    };
+}
+
+guard!(MutexGuard, MutexGuard, x);
+guard!(RwLockReadGuard, RwLockReadGuard);
+guard!(RwLockWriteGuard, RwLockWriteGuard, x);
+
+macro_rules! try_real {
+    ($attempt:expr, $guard:ident, $key:expr) => {
+        match $attempt {
+            Ok(x) => Ok($guard {
+                inner: Some(x),
+                key: $key,
+            }),
+            Err(TryLockError::Poisoned(x)) => {
+                Err(TryLockError::Poisoned(PoisonError::new($guard {
+                    inner: Some(x.into_inner()),
+                    key: $key,
+                })))
+            }
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    };
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T> {
+    inner: real::Mutex<T>,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Self {
+            inner: real::Mutex::new(value),
+        }
+    }
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        yield_point("mutex try_lock");
+        try_real!(self.inner.try_lock(), MutexGuard, key_of(self))
+    }
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        yield_point("mutex lock");
+        loop {
+            match try_real!(self.inner.try_lock(), MutexGuard, key_of(self)) {
+                Ok(x) => return Ok(x),
+                Err(TryLockError::Poisoned(x)) => return Err(x),
+                Err(TryLockError::WouldBlock) => block(key_of(self), "mutex lock"),
+            }
+        }
+    }
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct RwLock<T> {
+    inner: real::RwLock<T>,
+    waiting_writers: AtomicUsize,
+}
+
+impl<T> RwLock<T> {
+    pub fn new(value: T) -> Self {
+        Self {
+            inner: real::RwLock::new(value),
+            waiting_writers: AtomicUsize::new(0),
+        }
+    }
+    fn attempt_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+        let writers_first = runtime().map_or(false, |x| x.prefers_writers());
+        if writers_first && self.waiting_writers.load(Ordering::SeqCst) > 0 {
+            return Err(TryLockError::WouldBlock);
+        }
+        try_real!(self.inner.try_read(), RwLockReadGuard, key_of(self))
+    }
+    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+        yield_point("rwlock try_read");
+        self.attempt_read()
+    }
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        yield_point("rwlock read");
+        loop {
+            match self.attempt_read() {
+                Ok(x) => return Ok(x),
+                Err(TryLockError::Poisoned(x)) => return Err(x),
+                Err(TryLockError::WouldBlock) => block(key_of(self), "rwlock read"),
+            }
+        }
+    }
+    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+        yield_point("rwlock try_write");
+        try_real!(self.inner.try_write(), RwLockWriteGuard, key_of(self))
+    }
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        yield_point("rwlock write");
+        self.waiting_writers.fetch_add(1, Ordering::SeqCst);
+        let rv = loop {
+            match try_real!(self.inner.try_write(), RwLockWriteGuard, key_of(self)) {
+                Ok(x) => break Ok(x),
+                Err(TryLockError::Poisoned(x)) => break Err(x),
+                Err(TryLockError::WouldBlock) => block(key_of(self), "rwlock write"),
+            }
+        };
+        self.waiting_writers.fetch_sub(1, Ordering::SeqCst);
+        rv
+    }
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
+
+pub mod mpsc {
+    use super::super::{block, signal, yield_point};
+    use super::key_of;
+    use std::sync::mpsc as real;
+    pub use std::sync::mpsc::{
+        RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
+    };
+    use std::sync::Arc;
+    use std::time::Duration;
+
+    // identifies a channel for blocking and signalling
+    #[derive(Debug, Clone)]
+    struct Key(Arc<u8>);
+
+    impl Key {
+        fn get(&self) -> usize {
+            key_of(&*self.0)
+        }
+    }
+
+    // declared after the real sender, and thus dropped once that is gone
+    #[derive(Debug)]
+    struct SignalOnDrop(Key);
+
+    impl Drop for SignalOnDrop {
+        fn drop(&mut self) {
+            signal(self.0.get());
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct Sender<T> {
+        inner: real::Sender<T>,
+        key: SignalOnDrop,
+    }
+
+    #[derive(Debug)]
+    pub struct SyncSender<T> {
+        inner: real::SyncSender<T>,
+        key: SignalOnDrop,
+    }
+
+    #[derive(Debug)]
+    pub struct Receiver<T> {
+        inner: real::Receiver<T>,
+        key: SignalOnDrop,
+    }
+
+    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
+        let (sender, receiver) = real::channel();
+        let key = Key(Arc::new(0));
+        (
+            Sender {
+                inner: sender,
+                key: SignalOnDrop(key.clone()),
+            },
+            Receiver {
+                inner: receiver,
+                key: SignalOnDrop(key),
+            },
+        )
+    }
+
+    pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
+        let (sender, receiver) = real::sync_channel(bound);
+        let key = Key(Arc::new(0));
+        (
+            SyncSender {
+                inner: sender,
+                key: SignalOnDrop(key.clone()),
+            },
+            Receiver {
+                inner: receiver,
+                key: SignalOnDrop(key),
+            },
+        )
+    }
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            Self {
+                inner: self.inner.clone(),
+                key: SignalOnDrop(self.key.0.clone()),
+            }
+        }
+    }
+
+    impl<T> Clone for SyncSender<T> {
+        fn clone(&self) -> Self {
+            Self {
+                inner: self.inner.clone(),
+                key: SignalOnDrop(self.key.0.clone()),
+            }
+        }
+    }
+
+    impl<T> Sender<T> {
+        pub fn send(&self, value: T) -> Result<(), SendError<T>> {
+            yield_point("channel send");
+            let rv = self.inner.send(value);
+            signal(self.key.0.get());
+            rv
+        }
+    }
+
+    impl<T> SyncSender<T> {
+        pub fn try_send(&self, value: T) -> Result<(), TrySendError<T>> {
+            yield_point("channel try_send");
+            let rv = self.inner.try_send(value);
+            signal(self.key.0.get());
+            rv
+        }
+        pub fn send(&self, value: T) -> Result<(), SendError<T>> {
+            let mut value = value;
+            loop {
+                match self.try_send(value) {
+                    Ok(()) => return Ok(()),
+                    Err(TrySendError::Disconnected(x)) => return Err(SendError(x)),
+                    Err(TrySendError::Full(x)) => value = x,
+                }
+                block(self.key.0.get(), "channel send");
+            }
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            yield_point("channel try_recv");
+            let rv = self.inner.try_recv();
+            signal(self.key.0.get());
+            rv
+        }
+        pub fn recv(&self) -> Result<T, RecvError> {
+            loop {
+                match self.try_recv() {
+                    Ok(x) => return Ok(x),
+                    Err(TryRecvError::Disconnected) => return Err(RecvError),
+                    Err(TryRecvError::Empty) => block(self.key.0.get(), "channel recv"),
+                }
+            }
+        }
+        pub fn recv_timeout(&self, _timeout: Duration) -> Result<T, RecvTimeoutError> {
+            // a timeout may pass whenever nothing is there
+            match self.try_recv() {
+                Ok(x) => Ok(x),
+                Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
+                Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
+            }
+        }
+        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
+            std::iter::from_fn(move || self.try_recv().ok())
+        }
+        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
+            std::iter::from_fn(move || self.recv().ok())
+        }
+    }
+}
-- 
2.43.0


From 839c06f3106a9c90673b8761ad235427b26b1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:44 +0000
Subject: [PATCH 21/34] sim: let others run while a lock is held, wait on
 channels without losing wakeups

---
 src/sim/sync.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/sim/sync.rs b/src/sim/sync.rs
index 4f9750c..df4fdf3 100644
--- a/src/sim/sync.rs
+++ b/src/sim/sync.rs
@@ -12,6 +12,12 @@ fn key_of<T: ?Sized>(x: &T) -> usize {
     x as *const T as *const u8 as usize
 }
 
+// others may run while a lock is held
+fn held<G>(guard: G) -> G {
+    yield_point("lock held");
+    guard
+}
+
 macro_rules! guard {
     ($name:ident, $real:ident $(, $mutable:ident)?) => {
         pub struct $name<'a, T> {
@@ -79,13 +85,13 @@ impl<T> Mutex<T> {
     }
     pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
         yield_point("mutex try_lock");
-        try_real!(self.inner.try_lock(), MutexGuard, key_of(self))
+        try_real!(self.inner.try_lock(), MutexGuard, key_of(self)).map(held)
     }
     pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
         yield_point("mutex lock");
         loop {
             match try_real!(self.inner.try_lock(), MutexGuard, key_of(self)) {
-                Ok(x) => return Ok(x),
+                Ok(x) => return Ok(held(x)),
                 Err(TryLockError::Poisoned(x)) => return Err(x),
                 Err(TryLockError::WouldBlock) => block(key_of(self), "mutex lock"),
             }
@@ -124,13 +130,13 @@ impl<T> RwLock<T> {
     }
     pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
         yield_point("rwlock try_read");
-        self.attempt_read()
+        self.attempt_read().map(held)
     }
     pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
         yield_point("rwlock read");
         loop {
             match self.attempt_read() {
-                Ok(x) => return Ok(x),
+                Ok(x) => return Ok(held(x)),
                 Err(TryLockError::Poisoned(x)) => return Err(x),
                 Err(TryLockError::WouldBlock) => block(key_of(self), "rwlock read"),
             }
@@ -138,7 +144,7 @@ impl<T> RwLock<T> {
     }
     pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
         yield_point("rwlock try_write");
-        try_real!(self.inner.try_write(), RwLockWriteGuard, key_of(self))
+        try_real!(self.inner.try_write(), RwLockWriteGuard, key_of(self)).map(held)
     }
     pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
         yield_point("rwlock write");
@@ -151,7 +157,7 @@ impl<T> RwLock<T> {
             }
         };
         self.waiting_writers.fetch_sub(1, Ordering::SeqCst);
-        rv
+        rv.map(held)
     }
     pub fn is_poisoned(&self) -> bool {
         self.inner.is_poisoned()
@@ -277,10 +283,15 @@ pub mod mpsc {
             rv
         }
         pub fn send(&self, value: T) -> Result<(), SendError<T>> {
+            yield_point("channel send");
             let mut value = value;
             loop {
-                match self.try_send(value) {
-                    Ok(()) => return Ok(()),
+                // nothing may run between finding the channel full and waiting
+                match self.inner.try_send(value) {
+                    Ok(()) => {
+                        signal(self.key.0.get());
+                        return Ok(());
+                    }
                     Err(TrySendError::Disconnected(x)) => return Err(SendError(x)),
                     Err(TrySendError::Full(x)) => value = x,
                 }
@@ -297,9 +308,14 @@ pub mod mpsc {
             rv
         }
         pub fn recv(&self) -> Result<T, RecvError> {
+            yield_point("channel recv");
             loop {
-                match self.try_recv() {
-                    Ok(x) => return Ok(x),
+                // nothing may run between finding the channel empty and waiting
+                match self.inner.try_recv() {
+                    Ok(x) => {
+                        signal(self.key.0.get());
+                        return Ok(x);
+                    }
                     Err(TryRecvError::Disconnected) => return Err(RecvError),
                     Err(TryRecvError::Empty) => block(self.key.0.get(), "channel recv"),
                 }
-- 
2.43.0


From 2e1c2cc0866c0c602d95ce429ba72f0774321984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:26 +0000
Subject: [PATCH 22/34] sim: stand in for std by name

The stand-ins are found under the names of std and openssl, wherever code uses
them, and cover condition variables, atomics and sleeping too.
---
 src/connection.rs    |   3 +
 src/interface.rs     |   2 +
 src/packet.rs        |   3 +
 src/quictls/utils.rs |   3 +-
 src/routing.rs       |  20 +---
 src/sim/mod.rs       |  22 +++--
 src/sim/net.rs       |  34 +++++--
 src/sim/standard.rs  |  39 ++++++++
 src/sim/sync.rs      | 214 +++++++++++++++++++++++++++++++++++++++++--
 9 files changed, 296 insertions(+), 44 deletions(-)
 create mode 100644 src/sim/standard.rs

diff --git a/src/connection.rs b/src/connection.rs
index e4f6ad1..0ddc376 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -1,5 +1,8 @@
 use crate::error::{self, Error};
 use crate::quictls;
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use crate::utils::prelude::*;
 use crate::version;
 
diff --git a/src/interface.rs b/src/interface.rs
index 0643056..8a39c7f 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -1,4 +1,6 @@
 use crate::routing::InternalQuicSocket;
+#[cfg(quic_sea_sim)]
+use crate::sim::standard as std;
 use crate::utils::U160;
 use std::net::ToSocketAddrs;
 use std::sync::Arc;
diff --git a/src/packet.rs b/src/packet.rs
index 3a2c9b2..f4cd33b 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -1,6 +1,9 @@
 use crate::connection::{Connection, PacketNumberSpace};
 use crate::error::{self, Error};
 use crate::frame::{deserialize_frames, serialize_frames, Frame};
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use crate::utils::{self, prelude::*, var_bytes_from_stream, var_u160_from_stream};
 
 const VERSION_NEGOTIATION_VERSION_VALUE: u32 = 0;
diff --git a/src/quictls/utils.rs b/src/quictls/utils.rs
index cd4d340..5f518d4 100644
--- a/src/quictls/utils.rs
+++ b/src/quictls/utils.rs
@@ -1,6 +1,5 @@
 #[cfg(quic_sea_sim)]
-use crate::sim::rand_bytes;
-#[cfg(not(quic_sea_sim))]
+use crate::sim::openssl;
 use openssl::rand::rand_bytes;
 
 pub fn get_connection_id() -> u64 {
diff --git a/src/routing.rs b/src/routing.rs
index b16a99d..d2a5e32 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -2,24 +2,14 @@ use crate::connection::Connection;
 use crate::error::{self, Error};
 use crate::packet::{decode_packets, next_header_from_stream, Packet, PacketHeader, PacketType};
 use crate::quictls;
+#[cfg(quic_sea_sim)]
+use crate::sim::standard as std;
 use crate::utils::{self, U160};
 use crate::version;
 use std::collections::HashMap;
-use std::net::{SocketAddr, ToSocketAddrs};
-
-#[cfg(not(quic_sea_sim))]
-use std::{
-    net::UdpSocket,
-    sync::mpsc::{channel, Receiver, Sender},
-    sync::{Mutex, RwLock},
-};
-
-#[cfg(quic_sea_sim)]
-use crate::sim::{
-    net::UdpSocket,
-    sync::mpsc::{channel, Receiver, Sender},
-    sync::{Mutex, RwLock},
-};
+use std::net::{SocketAddr, ToSocketAddrs, UdpSocket};
+use std::sync::mpsc::{channel, Receiver, Sender};
+use std::sync::{Mutex, RwLock};
 
 #[derive(Debug)]
 pub(crate) struct InternalDatagram {
diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index d3a9f7c..f5a4932 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -7,6 +7,7 @@
 //! to drive and observe otherwise private parts.
 pub mod access;
 pub mod net;
+pub mod standard;
 pub mod sync;
 
 use std::cell::RefCell;
@@ -70,13 +71,20 @@ pub(crate) fn signal(key: usize) {
     }
 }
 
-/// Stand-in for `openssl::rand::rand_bytes`
-pub(crate) fn rand_bytes(buff: &mut [u8]) -> Result<(), openssl::error::ErrorStack> {
-    match runtime() {
-        Some(x) => {
-            x.rand_bytes(buff);
-            Ok(())
+/// Stand-in for the crate of this name
+pub(crate) mod openssl {
+    pub use ::openssl::*;
+    pub mod rand {
+        use crate::sim::runtime;
+        pub fn rand_bytes(buff: &mut [u8]) -> Result<(), ::openssl::error::ErrorStack> {
+            match runtime() {
+                Some(x) => {
+                    x.rand_bytes(buff);
+                    Ok(())
+                }
+                None => ::openssl::rand::rand_bytes(buff),
+            }
         }
-        None => openssl::rand::rand_bytes(buff),
+        pub use self::rand_bytes as rand_priv_bytes;
     }
 }
diff --git a/src/sim/net.rs b/src/sim/net.rs
index ff2ec8e..07995a3 100644
--- a/src/sim/net.rs
+++ b/src/sim/net.rs
@@ -7,12 +7,17 @@ use std::sync::Arc;
 use std::time::Duration;
 
 #[derive(Debug)]
-pub struct UdpSocket {
+struct Inner {
     id: u64,
     addr: SocketAddr,
     nonblocking: AtomicBool,
 }
 
+#[derive(Debug)]
+pub struct UdpSocket {
+    inner: Arc<Inner>,
+}
+
 fn need_runtime() -> Arc<dyn Runtime> {
     runtime().expect("simulated socket used outside of the simulation")
 }
@@ -23,11 +28,13 @@ impl UdpSocket {
         for addr in addresses.to_socket_addrs()? {
             match need_runtime().bind(addr) {
                 Ok(id) => {
-                    return Ok(Self {
+                    let nonblocking = AtomicBool::new(false);
+                    let inner = Arc::new(Inner {
                         id,
                         addr,
-                        nonblocking: AtomicBool::new(false),
-                    })
+                        nonblocking,
+                    });
+                    return Ok(Self { inner });
                 }
                 Err(x) => error = x,
             }
@@ -35,8 +42,8 @@ impl UdpSocket {
         Err(error)
     }
     fn recv(&self, buff: &mut [u8], peek: bool) -> io::Result<(usize, SocketAddr)> {
-        let nonblocking = self.nonblocking.load(Ordering::SeqCst);
-        need_runtime().recv_from(self.id, buff, peek, nonblocking)
+        let nonblocking = self.inner.nonblocking.load(Ordering::SeqCst);
+        need_runtime().recv_from(self.inner.id, buff, peek, nonblocking)
     }
     pub fn recv_from(&self, buff: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
         self.recv(buff, false)
@@ -46,15 +53,22 @@ impl UdpSocket {
     }
     pub fn send_to<A: ToSocketAddrs>(&self, data: &[u8], addresses: A) -> io::Result<usize> {
         match addresses.to_socket_addrs()?.next() {
-            Some(addr) => need_runtime().send_to(self.id, data, addr),
+            Some(addr) => need_runtime().send_to(self.inner.id, data, addr),
             None => Err(io::Error::from(io::ErrorKind::InvalidInput)),
         }
     }
     pub fn local_addr(&self) -> io::Result<SocketAddr> {
-        Ok(self.addr)
+        Ok(self.inner.addr)
+    }
+    pub fn try_clone(&self) -> io::Result<Self> {
+        let inner = self.inner.clone();
+        Ok(Self { inner })
+    }
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        Ok(None)
     }
     pub fn set_nonblocking(&self, nonblocking: bool) -> io::Result<()> {
-        self.nonblocking.store(nonblocking, Ordering::SeqCst);
+        self.inner.nonblocking.store(nonblocking, Ordering::SeqCst);
         Ok(())
     }
     pub fn set_read_timeout(&self, timeout: Option<Duration>) -> io::Result<()> {
@@ -63,7 +77,7 @@ impl UdpSocket {
     }
 }
 
-impl Drop for UdpSocket {
+impl Drop for Inner {
     fn drop(&mut self) {
         if let Some(x) = runtime() {
             x.close(self.id);
diff --git a/src/sim/standard.rs b/src/sim/standard.rs
new file mode 100644
index 0000000..45ced0f
--- /dev/null
+++ b/src/sim/standard.rs
@@ -0,0 +1,39 @@
+//! Stand-in for `std`: all of it, with the parts that have effects replaced
+#![allow(unused_imports)]
+pub use ::std::*;
+
+pub mod net {
+    pub use crate::sim::net::UdpSocket;
+    pub use ::std::net::*;
+}
+
+pub mod sync {
+    pub use crate::sim::sync::{
+        Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult,
+    };
+    pub use ::std::sync::*;
+    pub mod mpsc {
+        pub use crate::sim::sync::mpsc::*;
+    }
+    pub mod atomic {
+        pub use crate::sim::sync::atomic::*;
+        pub use ::std::sync::atomic::*;
+    }
+}
+
+pub mod thread {
+    use crate::sim::{runtime, yield_point};
+    pub use ::std::thread::*;
+    use ::std::time::Duration;
+
+    /// others may run for any time
+    pub fn sleep(duration: Duration) {
+        match runtime() {
+            Some(x) => x.yield_point("sleep"),
+            None => ::std::thread::sleep(duration),
+        }
+    }
+    pub fn yield_now() {
+        yield_point("yield");
+    }
+}
diff --git a/src/sim/sync.rs b/src/sim/sync.rs
index df4fdf3..e78079e 100644
--- a/src/sim/sync.rs
+++ b/src/sim/sync.rs
@@ -1,4 +1,4 @@
-//! Stand-ins for the locks and channels of `std::sync`
+//! Stand-ins for the locks, channels and atomics of `std::sync`
 //!
 //! They wrap the real ones, which are only ever tried and never waited for: waiting is
 //! left to the simulator.
@@ -50,21 +50,51 @@ macro_rules! guard {
     };
 }
 
-guard!(MutexGuard, MutexGuard, x);
+pub struct MutexGuard<'a, T> {
+    inner: Option<real::MutexGuard<'a, T>>,
+    mutex: &'a Mutex<T>,
+}
+
+impl<'a, T> Deref for MutexGuard<'a, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.inner.as_ref().unwrap()
+    }
+}
+
+impl<'a, T> DerefMut for MutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.inner.as_mut().unwrap()
+    }
+}
+
+impl<'a, T: fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        (**self).fmt(f)
+    }
+}
+
+impl<'a, T> Drop for MutexGuard<'a, T> {
+    fn drop(&mut self) {
+        drop(self.inner.take());
+        signal(key_of(self.mutex));
+    }
+}
+
 guard!(RwLockReadGuard, RwLockReadGuard);
 guard!(RwLockWriteGuard, RwLockWriteGuard, x);
 
 macro_rules! try_real {
-    ($attempt:expr, $guard:ident, $key:expr) => {
+    ($attempt:expr, $guard:ident, $field:ident: $value:expr) => {
         match $attempt {
             Ok(x) => Ok($guard {
                 inner: Some(x),
-                key: $key,
+                $field: $value,
             }),
             Err(TryLockError::Poisoned(x)) => {
                 Err(TryLockError::Poisoned(PoisonError::new($guard {
                     inner: Some(x.into_inner()),
-                    key: $key,
+                    $field: $value,
                 })))
             }
             Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
@@ -85,12 +115,12 @@ impl<T> Mutex<T> {
     }
     pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
         yield_point("mutex try_lock");
-        try_real!(self.inner.try_lock(), MutexGuard, key_of(self)).map(held)
+        try_real!(self.inner.try_lock(), MutexGuard, mutex: self).map(held)
     }
     pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
         yield_point("mutex lock");
         loop {
-            match try_real!(self.inner.try_lock(), MutexGuard, key_of(self)) {
+            match try_real!(self.inner.try_lock(), MutexGuard, mutex: self) {
                 Ok(x) => return Ok(held(x)),
                 Err(TryLockError::Poisoned(x)) => return Err(x),
                 Err(TryLockError::WouldBlock) => block(key_of(self), "mutex lock"),
@@ -100,6 +130,9 @@ impl<T> Mutex<T> {
     pub fn is_poisoned(&self) -> bool {
         self.inner.is_poisoned()
     }
+    pub fn clear_poison(&self) {
+        self.inner.clear_poison()
+    }
     pub fn get_mut(&mut self) -> LockResult<&mut T> {
         self.inner.get_mut()
     }
@@ -126,7 +159,7 @@ impl<T> RwLock<T> {
         if writers_first && self.waiting_writers.load(Ordering::SeqCst) > 0 {
             return Err(TryLockError::WouldBlock);
         }
-        try_real!(self.inner.try_read(), RwLockReadGuard, key_of(self))
+        try_real!(self.inner.try_read(), RwLockReadGuard, key: key_of(self))
     }
     pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
         yield_point("rwlock try_read");
@@ -144,13 +177,13 @@ impl<T> RwLock<T> {
     }
     pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
         yield_point("rwlock try_write");
-        try_real!(self.inner.try_write(), RwLockWriteGuard, key_of(self)).map(held)
+        try_real!(self.inner.try_write(), RwLockWriteGuard, key: key_of(self)).map(held)
     }
     pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
         yield_point("rwlock write");
         self.waiting_writers.fetch_add(1, Ordering::SeqCst);
         let rv = loop {
-            match try_real!(self.inner.try_write(), RwLockWriteGuard, key_of(self)) {
+            match try_real!(self.inner.try_write(), RwLockWriteGuard, key: key_of(self)) {
                 Ok(x) => break Ok(x),
                 Err(TryLockError::Poisoned(x)) => break Err(x),
                 Err(TryLockError::WouldBlock) => block(key_of(self), "rwlock write"),
@@ -162,6 +195,9 @@ impl<T> RwLock<T> {
     pub fn is_poisoned(&self) -> bool {
         self.inner.is_poisoned()
     }
+    pub fn clear_poison(&self) {
+        self.inner.clear_poison()
+    }
     pub fn get_mut(&mut self) -> LockResult<&mut T> {
         self.inner.get_mut()
     }
@@ -170,6 +206,164 @@ impl<T> RwLock<T> {
     }
 }
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub struct WaitTimeoutResult(bool);
+
+impl WaitTimeoutResult {
+    pub fn timed_out(&self) -> bool {
+        self.0
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct Condvar {
+    notified: AtomicUsize,
+}
+
+impl Condvar {
+    pub const fn new() -> Self {
+        Self {
+            notified: AtomicUsize::new(0),
+        }
+    }
+    // may wake all
+    pub fn notify_one(&self) {
+        self.notify_all();
+    }
+    pub fn notify_all(&self) {
+        self.notified.fetch_add(1, Ordering::SeqCst);
+        signal(key_of(self));
+    }
+    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
+        let seen = self.notified.load(Ordering::SeqCst);
+        let mutex = guard.mutex;
+        drop(guard);
+        while self.notified.load(Ordering::SeqCst) == seen {
+            block(key_of(self), "condition");
+        }
+        mutex.lock()
+    }
+    pub fn wait_while<'a, T, F>(
+        &self,
+        guard: MutexGuard<'a, T>,
+        mut condition: F,
+    ) -> LockResult<MutexGuard<'a, T>>
+    where
+        F: FnMut(&mut T) -> bool,
+    {
+        let mut guard = guard;
+        while condition(&mut *guard) {
+            guard = self.wait(guard)?;
+        }
+        Ok(guard)
+    }
+    // a timeout may pass at any time
+    pub fn wait_timeout<'a, T>(
+        &self,
+        guard: MutexGuard<'a, T>,
+        _timeout: std::time::Duration,
+    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
+        let seen = self.notified.load(Ordering::SeqCst);
+        let mutex = guard.mutex;
+        drop(guard);
+        yield_point("condition");
+        let late = self.notified.load(Ordering::SeqCst) == seen;
+        match mutex.lock() {
+            Ok(x) => Ok((x, WaitTimeoutResult(late))),
+            Err(x) => Err(PoisonError::new((x.into_inner(), WaitTimeoutResult(late)))),
+        }
+    }
+}
+
+pub mod atomic {
+    use super::super::yield_point;
+    use std::sync::atomic::{self as real, Ordering};
+
+    macro_rules! atomic {
+        ($name:ident, $value:ty $(, $arithmetic:ident)*) => {
+            #[derive(Debug, Default)]
+            pub struct $name(real::$name);
+            impl $name {
+                pub const fn new(value: $value) -> Self {
+                    Self(real::$name::new(value))
+                }
+                pub fn load(&self, order: Ordering) -> $value {
+                    yield_point("atomic load");
+                    self.0.load(order)
+                }
+                pub fn store(&self, value: $value, order: Ordering) {
+                    yield_point("atomic store");
+                    self.0.store(value, order)
+                }
+                pub fn swap(&self, value: $value, order: Ordering) -> $value {
+                    yield_point("atomic swap");
+                    self.0.swap(value, order)
+                }
+                pub fn compare_exchange(
+                    &self,
+                    current: $value,
+                    new: $value,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$value, $value> {
+                    yield_point("atomic compare");
+                    self.0.compare_exchange(current, new, success, failure)
+                }
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $value,
+                    new: $value,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$value, $value> {
+                    self.compare_exchange(current, new, success, failure)
+                }
+                pub fn fetch_update<F>(
+                    &self,
+                    set: Ordering,
+                    fetch: Ordering,
+                    f: F,
+                ) -> Result<$value, $value>
+                where
+                    F: FnMut($value) -> Option<$value>,
+                {
+                    yield_point("atomic update");
+                    self.0.fetch_update(set, fetch, f)
+                }
+                pub fn get_mut(&mut self) -> &mut $value {
+                    self.0.get_mut()
+                }
+                pub fn into_inner(self) -> $value {
+                    self.0.into_inner()
+                }
+                $(pub fn $arithmetic(&self, value: $value, order: Ordering) -> $value {
+                    yield_point("atomic update");
+                    self.0.$arithmetic(value, order)
+                })*
+            }
+        };
+    }
+    macro_rules! integer {
+        ($($name:ident, $value:ty;)*) => {
+            $(atomic!(
+                $name, $value, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max,
+                fetch_min
+            );)*
+        };
+    }
+    atomic!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor);
+    integer!(
+        AtomicU8, u8;
+        AtomicU16, u16;
+        AtomicU32, u32;
+        AtomicU64, u64;
+        AtomicUsize, usize;
+        AtomicI32, i32;
+        AtomicI64, i64;
+        AtomicIsize, isize;
+    );
+}
+
 pub mod mpsc {
     use super::super::{block, signal, yield_point};
     use super::key_of;
-- 
2.43.0


From 5d04de2f5b6a11d5f692107c5c8e56f70f605724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:12 +0000
Subject: [PATCH 23/34] sim: hooks that do not depend on the kind of lock;
 toggle logging through the real call

---
 src/routing.rs    | 32 ++++++++++++++++----------------
 src/sim/access.rs |  4 +++-
 src/sim/sync.rs   | 24 ++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index d2a5e32..17681fe 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -234,18 +234,23 @@ impl InternalQuicSocket {
     }
 }
 
+#[cfg(quic_sea_sim)]
+use crate::sim::sync::AnyLock;
+
 #[cfg(quic_sea_sim)]
 impl InternalQuicSocket {
     pub fn sim_open_ids(&self) -> Vec<[u8; 20]> {
-        let streams = self.streams.read().unwrap();
-        let mut rv = streams.keys().map(|x| x.to_bytes()).collect::<Vec<_>>();
-        rv.sort();
-        rv
+        self.streams.with(|streams| {
+            let mut rv = streams.keys().map(|x| x.to_bytes()).collect::<Vec<_>>();
+            rv.sort();
+            rv
+        })
     }
     pub fn sim_take_datagram(&self, id: U160) -> Option<(Vec<u8>, SocketAddr)> {
-        let streams = self.streams.read().unwrap();
-        let rv = streams.get(&id)?.receiver.lock().unwrap().try_recv().ok();
-        rv.map(|x| (x.data, x.addr))
+        self.streams.with(|streams| {
+            let rv = streams.get(&id)?.receiver.with(|x| x.try_recv().ok());
+            rv.map(|x| (x.data, x.addr))
+        })
     }
     pub fn sim_decode(
         &self,
@@ -261,20 +266,15 @@ impl InternalQuicSocket {
         id: U160,
         f: impl FnOnce(&mut Connection) -> R,
     ) -> Option<R> {
-        let streams = self.streams.read().unwrap();
-        let rv = f(&mut streams.get(&id)?.connection.write().unwrap());
-        Some(rv)
+        self.streams
+            .with(|streams| Some(streams.get(&id)?.connection.with_mut(f)))
     }
     pub fn sim_with_shared_connection<R>(
         &self,
         id: U160,
         f: impl FnOnce(&Connection) -> R,
     ) -> Option<R> {
-        let streams = self.streams.read().unwrap();
-        let rv = f(&streams.get(&id)?.connection.read().unwrap());
-        Some(rv)
-    }
-    pub fn sim_set_log_traffic(&self, flag: bool) {
-        *self.log_traffic.write().unwrap() = flag;
+        self.streams
+            .with(|streams| Some(streams.get(&id)?.connection.with(f)))
     }
 }
diff --git a/src/sim/access.rs b/src/sim/access.rs
index d9375a1..fe8a490 100644
--- a/src/sim/access.rs
+++ b/src/sim/access.rs
@@ -269,7 +269,9 @@ impl Probe {
             .is_some()
     }
     pub fn set_log_traffic(&self, flag: bool) {
-        self.socket.sim_set_log_traffic(flag);
+        // the simulator runs one thread at a time, exclusive access is not otherwise to be had
+        let socket = Arc::as_ptr(&self.socket) as *mut InternalQuicSocket;
+        unsafe { (*socket).set_log_traffic(flag) };
     }
 }
 
diff --git a/src/sim/sync.rs b/src/sim/sync.rs
index e78079e..d027f85 100644
--- a/src/sim/sync.rs
+++ b/src/sim/sync.rs
@@ -531,3 +531,27 @@ pub mod mpsc {
         }
     }
 }
+
+/// Either kind of lock, for hooks that do not care which
+pub trait AnyLock<T> {
+    fn with<R>(&self, f: impl FnOnce(&T) -> R) -> R;
+    fn with_mut<R>(&self, f: impl FnOnce(&mut T) -> R) -> R;
+}
+
+impl<T> AnyLock<T> for Mutex<T> {
+    fn with<R>(&self, f: impl FnOnce(&T) -> R) -> R {
+        f(&self.lock().unwrap())
+    }
+    fn with_mut<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
+        f(&mut self.lock().unwrap())
+    }
+}
+
+impl<T> AnyLock<T> for RwLock<T> {
+    fn with<R>(&self, f: impl FnOnce(&T) -> R) -> R {
+        f(&self.read().unwrap())
+    }
+    fn with_mut<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
+        f(&mut self.write().unwrap())
+    }
+}
-- 
2.43.0


From 59c17720bacbbe2bce59c4499a55af3336e37f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:42 +0000
Subject: [PATCH 24/34] sim: name the stand-ins for atomics

---
 src/sim/standard.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sim/standard.rs b/src/sim/standard.rs
index 45ced0f..bdb8939 100644
--- a/src/sim/standard.rs
+++ b/src/sim/standard.rs
@@ -16,7 +16,10 @@ pub mod sync {
         pub use crate::sim::sync::mpsc::*;
     }
     pub mod atomic {
-        pub use crate::sim::sync::atomic::*;
+        pub use crate::sim::sync::atomic::{
+            AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicU16, AtomicU32, AtomicU64,
+            AtomicU8, AtomicUsize,
+        };
         pub use ::std::sync::atomic::*;
     }
 }
-- 
2.43.0


From b3b417dafca743478032423d98876a7ab02b7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:08 +0000
Subject: [PATCH 25/34] sim: simulated clocks; stand in for std in every file

---
 src/frame.rs                |   3 ++
 src/quictls/cipher_suite.rs |   3 ++
 src/quictls/secrets.rs      |   3 ++
 src/quictls/utils.rs        |   3 ++
 src/sim/mod.rs              |   6 +++
 src/sim/standard.rs         |   5 ++
 src/sim/sync.rs             |   4 +-
 src/sim/time.rs             | 102 ++++++++++++++++++++++++++++++++++++
 src/transport_parameters.rs |   3 ++
 src/utils.rs                |   3 ++
 src/version.rs              |   3 ++
 11 files changed, 136 insertions(+), 2 deletions(-)
 create mode 100644 src/sim/time.rs

diff --git a/src/frame.rs b/src/frame.rs
index 511b66c..78a96e2 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -1,5 +1,8 @@
 use crate::error;
 use crate::error::Error;
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use crate::utils::prelude::*;
 use crate::utils::{
     self, all_bytes_from_stream, var_bytes_from_stream, var_int_from_stream, var_u160_from_stream,
diff --git a/src/quictls/cipher_suite.rs b/src/quictls/cipher_suite.rs
index 0c6bfdf..00cc842 100644
--- a/src/quictls/cipher_suite.rs
+++ b/src/quictls/cipher_suite.rs
@@ -1,4 +1,7 @@
 use crate::error::{self, Error};
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use hkdf::Hkdf;
 use openssl::symm::{decrypt_aead, encrypt, encrypt_aead, Cipher};
 use sha2::Sha256;
diff --git a/src/quictls/secrets.rs b/src/quictls/secrets.rs
index 20ea898..dfb9173 100644
--- a/src/quictls/secrets.rs
+++ b/src/quictls/secrets.rs
@@ -1,6 +1,9 @@
 use crate::utils;
 use super::cipher_suite::{self, QuicTlsCipherSuite};
 use crate::error;
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use crate::version::Version;
 
 const SERVER_INITIAL_SECRET_LABEL: &'static [u8; 9] = b"server in";
diff --git a/src/quictls/utils.rs b/src/quictls/utils.rs
index 5f518d4..d8ac4d9 100644
--- a/src/quictls/utils.rs
+++ b/src/quictls/utils.rs
@@ -1,5 +1,8 @@
 #[cfg(quic_sea_sim)]
 use crate::sim::openssl;
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use openssl::rand::rand_bytes;
 
 pub fn get_connection_id() -> u64 {
diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index f5a4932..8b0504c 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -9,11 +9,13 @@ pub mod access;
 pub mod net;
 pub mod standard;
 pub mod sync;
+pub mod time;
 
 use std::cell::RefCell;
 use std::io;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 
 /// The simulator, as seen by the code under simulation
 pub trait Runtime {
@@ -36,6 +38,10 @@ pub trait Runtime {
     ) -> io::Result<(usize, SocketAddr)>;
     fn send_to(&self, socket: u64, data: &[u8], addr: SocketAddr) -> io::Result<usize>;
     fn rand_bytes(&self, buff: &mut [u8]);
+    /// time since some point in the past, never goes back
+    fn monotonic_time(&self) -> Duration;
+    /// time since the epoch, according to a clock that may be set
+    fn wall_time(&self) -> Duration;
 }
 
 thread_local! {
diff --git a/src/sim/standard.rs b/src/sim/standard.rs
index bdb8939..ffe69e4 100644
--- a/src/sim/standard.rs
+++ b/src/sim/standard.rs
@@ -40,3 +40,8 @@ pub mod thread {
         yield_point("yield");
     }
 }
+
+pub mod time {
+    pub use crate::sim::time::{Instant, SystemTime, SystemTimeError, UNIX_EPOCH};
+    pub use ::std::time::*;
+}
diff --git a/src/sim/sync.rs b/src/sim/sync.rs
index d027f85..5ed8048 100644
--- a/src/sim/sync.rs
+++ b/src/sim/sync.rs
@@ -108,7 +108,7 @@ pub struct Mutex<T> {
 }
 
 impl<T> Mutex<T> {
-    pub fn new(value: T) -> Self {
+    pub const fn new(value: T) -> Self {
         Self {
             inner: real::Mutex::new(value),
         }
@@ -148,7 +148,7 @@ pub struct RwLock<T> {
 }
 
 impl<T> RwLock<T> {
-    pub fn new(value: T) -> Self {
+    pub const fn new(value: T) -> Self {
         Self {
             inner: real::RwLock::new(value),
             waiting_writers: AtomicUsize::new(0),
diff --git a/src/sim/time.rs b/src/sim/time.rs
new file mode 100644
index 0000000..be2efcd
--- /dev/null
+++ b/src/sim/time.rs
@@ -0,0 +1,102 @@
+//! Stand-in for the clocks of `std::time`
+use super::runtime;
+use std::ops::{Add, AddAssign, Sub, SubAssign};
+use std::time::Duration;
+
+macro_rules! clock {
+    ($name:ident, $now:ident) => {
+        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
+        pub struct $name(Duration);
+        impl $name {
+            pub fn now() -> Self {
+                Self(runtime().map_or(Duration::from_secs(1 << 32), |x| x.$now()))
+            }
+            pub fn checked_add(&self, duration: Duration) -> Option<Self> {
+                self.0.checked_add(duration).map(Self)
+            }
+            pub fn checked_sub(&self, duration: Duration) -> Option<Self> {
+                self.0.checked_sub(duration).map(Self)
+            }
+        }
+        impl Add<Duration> for $name {
+            type Output = Self;
+            fn add(self, duration: Duration) -> Self {
+                Self(self.0 + duration)
+            }
+        }
+        impl Sub<Duration> for $name {
+            type Output = Self;
+            fn sub(self, duration: Duration) -> Self {
+                Self(self.0 - duration)
+            }
+        }
+        impl AddAssign<Duration> for $name {
+            fn add_assign(&mut self, duration: Duration) {
+                self.0 += duration;
+            }
+        }
+        impl SubAssign<Duration> for $name {
+            fn sub_assign(&mut self, duration: Duration) {
+                self.0 -= duration;
+            }
+        }
+    };
+}
+
+clock!(Instant, monotonic_time);
+clock!(SystemTime, wall_time);
+
+impl Instant {
+    pub fn elapsed(&self) -> Duration {
+        Self::now().duration_since(*self)
+    }
+    pub fn duration_since(&self, earlier: Self) -> Duration {
+        self.0.saturating_sub(earlier.0)
+    }
+    pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+        self.duration_since(earlier)
+    }
+    pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+        self.0.checked_sub(earlier.0)
+    }
+}
+
+impl Sub<Instant> for Instant {
+    type Output = Duration;
+    fn sub(self, earlier: Instant) -> Duration {
+        self.duration_since(earlier)
+    }
+}
+
+/// the clock was set back by this much
+#[derive(Debug, Clone)]
+pub struct SystemTimeError(Duration);
+
+impl SystemTimeError {
+    pub fn duration(&self) -> Duration {
+        self.0
+    }
+}
+
+impl std::fmt::Display for SystemTimeError {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        write!(f, "second time provided was later than self")
+    }
+}
+
+impl std::error::Error for SystemTimeError {}
+
+impl SystemTime {
+    pub const UNIX_EPOCH: Self = Self(Duration::ZERO);
+    pub fn duration_since(&self, earlier: Self) -> Result<Duration, SystemTimeError> {
+        match self.0.checked_sub(earlier.0) {
+            Some(x) => Ok(x),
+            None => Err(SystemTimeError(earlier.0 - self.0)),
+        }
+    }
+    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
+        Self::now().duration_since(*self)
+    }
+}
+
+pub const UNIX_EPOCH: SystemTime = SystemTime::UNIX_EPOCH;
diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 92941a0..f550da6 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -1,4 +1,7 @@
 use crate::error;
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use crate::utils;
 use std::net::{Ipv4Addr, Ipv6Addr};
 
diff --git a/src/utils.rs b/src/utils.rs
index 922da40..d053c65 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,8 @@
 use crate::error;
 use crate::error::Error;
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use std::alloc::{self, Layout};
 use std::io::{self, Write};
 
diff --git a/src/version.rs b/src/version.rs
index 738e955..1b175cb 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -1,3 +1,6 @@
+#[cfg(quic_sea_sim)]
+#[allow(unused_imports)]
+use crate::sim::standard as std;
 use hex_literal::hex;
 
 pub const KDF_INITIAL_SALT_V1: &'static [u8; 20] =
-- 
2.43.0


From 209778a7064c27294dd142e36bcccf5ebd7855a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:19 +0000
Subject: [PATCH 26/34] sim: clocks are optional for a simulator

---
 src/sim/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index 8b0504c..1310268 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -39,9 +39,13 @@ pub trait Runtime {
     fn send_to(&self, socket: u64, data: &[u8], addr: SocketAddr) -> io::Result<usize>;
     fn rand_bytes(&self, buff: &mut [u8]);
     /// time since some point in the past, never goes back
-    fn monotonic_time(&self) -> Duration;
+    fn monotonic_time(&self) -> Duration {
+        Duration::from_secs(3600)
+    }
     /// time since the epoch, according to a clock that may be set
-    fn wall_time(&self) -> Duration;
+    fn wall_time(&self) -> Duration {
+        Duration::from_secs(1_700_000_000)
+    }
 }
 
 thread_local! {
-- 
2.43.0


From db47dc12a286e4431a6f2c6e99ab627096362969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:28 +0000
Subject: [PATCH 27/34] sim: simulated standard output and error

---
 src/lib.rs          |  6 ++-
 src/sim/mod.rs      |  6 +++
 src/sim/output.rs   | 96 +++++++++++++++++++++++++++++++++++++++++++++
 src/sim/standard.rs |  5 +++
 4 files changed, 111 insertions(+), 2 deletions(-)
 create mode 100644 src/sim/output.rs

diff --git a/src/lib.rs b/src/lib.rs
index aeb377e..58505b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,9 @@
 #![allow(dead_code)]
 #![allow(unexpected_cfgs)]
+#[cfg(quic_sea_sim)]
+#[macro_use]
+pub mod sim;
+
 mod connection;
 mod error;
 mod frame;
@@ -7,8 +11,6 @@ mod interface;
 mod packet;
 mod quictls;
 mod routing;
-#[cfg(quic_sea_sim)]
-pub mod sim;
 mod tests;
 mod transport_parameters;
 mod utils;
diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index 1310268..928971d 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -5,6 +5,8 @@
 //! channels, the udp socket and random bytes) is replaced by a stand-in that asks a
 //! [Runtime] supplied by the simulator, and [access] gives the simulator what it needs
 //! to drive and observe otherwise private parts.
+#[macro_use]
+pub mod output;
 pub mod access;
 pub mod net;
 pub mod standard;
@@ -38,6 +40,10 @@ pub trait Runtime {
     ) -> io::Result<(usize, SocketAddr)>;
     fn send_to(&self, socket: u64, data: &[u8], addr: SocketAddr) -> io::Result<usize>;
     fn rand_bytes(&self, buff: &mut [u8]);
+    /// whether text can be written to standard output (1) or standard error (2)
+    fn output(&self, _stream: u8) -> io::Result<()> {
+        Ok(())
+    }
     /// time since some point in the past, never goes back
     fn monotonic_time(&self) -> Duration {
         Duration::from_secs(3600)
diff --git a/src/sim/output.rs b/src/sim/output.rs
new file mode 100644
index 0000000..262d423
--- /dev/null
+++ b/src/sim/output.rs
@@ -0,0 +1,96 @@
+//! Stand-ins for standard output and standard error
+use super::runtime;
+use std::fmt;
+use std::io;
+
+fn attempt(stream: u8) -> Option<io::Result<()>> {
+    runtime().map(|x| x.output(stream))
+}
+
+// formats as if for output, without keeping the text
+struct Sink;
+
+impl fmt::Write for Sink {
+    fn write_str(&mut self, _text: &str) -> fmt::Result {
+        Ok(())
+    }
+}
+
+/// What the printing macros do, which includes to panic if the text cannot be written
+pub fn print(stream: u8, text: fmt::Arguments, line: bool) {
+    match attempt(stream) {
+        Some(result) => {
+            let _ = fmt::write(&mut Sink, text);
+            if let Err(x) = result {
+                panic!("failed printing to stream {}: {}", stream, x);
+            }
+        }
+        None => {
+            let end = if line { "\n" } else { "" };
+            if stream == 1 {
+                ::std::print!("{}{}", text, end);
+            } else {
+                ::std::eprint!("{}{}", text, end);
+            }
+        }
+    }
+}
+
+macro_rules! print {
+    ($($x:tt)*) => { $crate::sim::output::print(1, format_args!($($x)*), false) };
+}
+
+macro_rules! println {
+    () => { $crate::sim::output::print(1, format_args!(""), true) };
+    ($($x:tt)*) => { $crate::sim::output::print(1, format_args!($($x)*), true) };
+}
+
+macro_rules! eprint {
+    ($($x:tt)*) => { $crate::sim::output::print(2, format_args!($($x)*), false) };
+}
+
+macro_rules! eprintln {
+    () => { $crate::sim::output::print(2, format_args!(""), true) };
+    ($($x:tt)*) => { $crate::sim::output::print(2, format_args!($($x)*), true) };
+}
+
+macro_rules! stream {
+    ($name:ident, $function:ident, $number:expr) => {
+        #[derive(Debug)]
+        pub struct $name;
+        pub fn $function() -> $name {
+            $name
+        }
+        impl $name {
+            pub fn lock(&self) -> $name {
+                $name
+            }
+        }
+        impl io::Write for $name {
+            fn write(&mut self, data: &[u8]) -> io::Result<usize> {
+                match attempt($number) {
+                    Some(x) => x.map(|_| data.len()),
+                    None => io::Write::write(&mut io::$function(), data),
+                }
+            }
+            fn write_fmt(&mut self, text: fmt::Arguments) -> io::Result<()> {
+                match attempt($number) {
+                    Some(x) => {
+                        let _ = fmt::write(&mut Sink, text);
+                        x
+                    }
+                    None => io::Write::write_fmt(&mut io::$function(), text),
+                }
+            }
+            fn flush(&mut self) -> io::Result<()> {
+                match attempt($number) {
+                    Some(x) => x,
+                    None => io::Write::flush(&mut io::$function()),
+                }
+            }
+        }
+    };
+}
+
+stream!(Stdout, stdout, 1);
+stream!(Stderr, stderr, 2);
diff --git a/src/sim/standard.rs b/src/sim/standard.rs
index ffe69e4..7a46541 100644
--- a/src/sim/standard.rs
+++ b/src/sim/standard.rs
@@ -2,6 +2,11 @@
 #![allow(unused_imports)]
 pub use ::std::*;
 
+pub mod io {
+    pub use crate::sim::output::{stderr, stdout, Stderr, Stdout};
+    pub use ::std::io::*;
+}
+
 pub mod net {
     pub use crate::sim::net::UdpSocket;
     pub use ::std::net::*;
-- 
2.43.0


From 901dbac495494937c132f96894bac03caef2672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:00 +0000
Subject: [PATCH 28/34] fix: do not panic when output cannot be written

---
 src/routing.rs | 10 ++++++----
 src/utils.rs   |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 17681fe..b2c4c8b 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -7,6 +7,7 @@ use crate::sim::standard as std;
 use crate::utils::{self, U160};
 use crate::version;
 use std::collections::HashMap;
+use std::io::{self, Write};
 use std::net::{SocketAddr, ToSocketAddrs, UdpSocket};
 use std::sync::mpsc::{channel, Receiver, Sender};
 use std::sync::{Mutex, RwLock};
@@ -93,7 +94,8 @@ impl InternalQuicSocket {
         if *self.log_traffic.read().unwrap() {
             let mut stream = utils::make_result_stream(&data);
             let header = next_header_from_stream(&mut stream);
-            println!("{:?}", header);
+            // output that cannot be written must not take the endpoint down
+            let _ = writeln!(io::stdout(), "{:?}", header);
         }
         Ok(InternalDatagram { data, addr })
     }
@@ -118,7 +120,7 @@ impl InternalQuicSocket {
                     }
                     Err(x) => {
                         // TODO implement proper error handling
-                        eprintln!("{:?}", x);
+                        let _ = writeln!(io::stderr(), "{:?}", x);
                         false
                     }
                 }
@@ -128,7 +130,7 @@ impl InternalQuicSocket {
             } else {
                 // datagrams that cannot be routed are dropped
                 if let Err(x) = self.route_datagram(datagram) {
-                    eprintln!("{:?}", x);
+                    let _ = writeln!(io::stderr(), "{:?}", x);
                 }
             }
         }
@@ -162,7 +164,7 @@ impl InternalQuicSocket {
             decode_packets(&mut stream, &connection)
         }?;
         if *self.log_traffic.read().unwrap() {
-            println!("{:?}", rv);
+            let _ = writeln!(io::stdout(), "{:?}", rv);
         }
         Ok(rv)
     }
diff --git a/src/utils.rs b/src/utils.rs
index d053c65..17f4af3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -437,8 +437,9 @@ where
             .next()
             .unwrap_or(Err(Error::InternalError("not enough bytes for var_bytes")));
         if tp.is_err() {
-            println!("failed at: {}", i);
-            io::stdout().flush().unwrap();
+            // output that cannot be written must not take the endpoint down
+            let _ = writeln!(io::stdout(), "failed at: {}", i);
+            let _ = io::stdout().flush();
         }
         rv.push(tp?);
     }
-- 
2.43.0


From 438c064c1570d8549e98d21983f2e46d8dbde925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:37 +0000
Subject: [PATCH 29/34] fix: traffic logging can be turned on

---
 src/interface.rs | 4 +++-
 src/routing.rs   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interface.rs b/src/interface.rs
index 8a39c7f..042097e 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -48,7 +48,9 @@ impl QuicSocket {
             socket: self.socket.clone(),
         })
     }
-    pub fn set_log_traffic(&self, _log_traffic_flag: bool) {}
+    pub fn set_log_traffic(&self, log_traffic_flag: bool) {
+        self.socket.set_log_traffic(log_traffic_flag);
+    }
 }
 
 #[cfg(quic_sea_sim)]
diff --git a/src/routing.rs b/src/routing.rs
index b2c4c8b..818ef71 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -225,7 +225,7 @@ impl InternalQuicSocket {
         Ok(rv)
     }
 
-    pub fn set_log_traffic(&mut self, log_traffic_flag: bool) {
+    pub fn set_log_traffic(&self, log_traffic_flag: bool) {
         let mut flag = self.log_traffic.write().unwrap();
         *flag = log_traffic_flag;
     }
-- 
2.43.0


From 7fd9ce224e44a74afe6136f9c91fe4accc0d06b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:37 +0000
Subject: [PATCH 30/34] sim: flushing output is not writing it

---
 src/sim/mod.rs    | 4 ++++
 src/sim/output.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index 928971d..5d231b7 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -44,6 +44,10 @@ pub trait Runtime {
     fn output(&self, _stream: u8) -> io::Result<()> {
         Ok(())
     }
+    /// whether what was written there can be passed on
+    fn flush(&self, stream: u8) -> io::Result<()> {
+        self.output(stream)
+    }
     /// time since some point in the past, never goes back
     fn monotonic_time(&self) -> Duration {
         Duration::from_secs(3600)
diff --git a/src/sim/output.rs b/src/sim/output.rs
index 262d423..e4476fe 100644
--- a/src/sim/output.rs
+++ b/src/sim/output.rs
@@ -83,8 +83,8 @@ macro_rules! stream {
                 }
             }
             fn flush(&mut self) -> io::Result<()> {
-                match attempt($number) {
-                    Some(x) => x,
+                match runtime() {
+                    Some(x) => x.flush($number),
                     None => io::Write::flush(&mut io::$function()),
                 }
             }
-- 
2.43.0


From 2ea5b9766fe05114ae1048ba7ba0f22c96d910c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:41 +0000
Subject: [PATCH 31/34] sim: a hash of the text that is written

---
 src/sim/mod.rs    |  2 ++
 src/sim/output.rs | 45 +++++++++++++++++++++++++++++++++++++++------
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index 5d231b7..cde997f 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -44,6 +44,8 @@ pub trait Runtime {
     fn output(&self, _stream: u8) -> io::Result<()> {
         Ok(())
     }
+    /// a hash of text written there, whether that was possible or not
+    fn wrote(&self, _stream: u8, _text: u64) {}
     /// whether what was written there can be passed on
     fn flush(&self, stream: u8) -> io::Result<()> {
         self.output(stream)
diff --git a/src/sim/output.rs b/src/sim/output.rs
index e4476fe..3222a52 100644
--- a/src/sim/output.rs
+++ b/src/sim/output.rs
@@ -7,20 +7,50 @@ fn attempt(stream: u8) -> Option<io::Result<()>> {
     runtime().map(|x| x.output(stream))
 }
 
-// formats as if for output, without keeping the text
-struct Sink;
+// formats as if for output, keeping a hash (FNV-1a) of the text only
+struct Sink(u64);
+
+impl Sink {
+    fn new() -> Self {
+        Sink(0xcbf2_9ce4_8422_2325)
+    }
+    fn add(&mut self, data: &[u8]) {
+        for x in data {
+            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
+        }
+    }
+}
 
 impl fmt::Write for Sink {
-    fn write_str(&mut self, _text: &str) -> fmt::Result {
+    fn write_str(&mut self, text: &str) -> fmt::Result {
+        self.add(text.as_bytes());
         Ok(())
     }
 }
 
+fn note(stream: u8, text: &Sink) {
+    if let Some(x) = runtime() {
+        x.wrote(stream, text.0);
+    }
+}
+
+fn note_text(stream: u8, text: fmt::Arguments) {
+    let mut sink = Sink::new();
+    let _ = fmt::write(&mut sink, text);
+    note(stream, &sink);
+}
+
+fn note_bytes(stream: u8, data: &[u8]) {
+    let mut sink = Sink::new();
+    sink.add(data);
+    note(stream, &sink);
+}
+
 /// What the printing macros do, which includes to panic if the text cannot be written
 pub fn print(stream: u8, text: fmt::Arguments, line: bool) {
     match attempt(stream) {
         Some(result) => {
-            let _ = fmt::write(&mut Sink, text);
+            note_text(stream, text);
             if let Err(x) = result {
                 panic!("failed printing to stream {}: {}", stream, x);
             }
@@ -69,14 +99,17 @@ macro_rules! stream {
         impl io::Write for $name {
             fn write(&mut self, data: &[u8]) -> io::Result<usize> {
                 match attempt($number) {
-                    Some(x) => x.map(|_| data.len()),
+                    Some(x) => {
+                        note_bytes($number, data);
+                        x.map(|_| data.len())
+                    }
                     None => io::Write::write(&mut io::$function(), data),
                 }
             }
             fn write_fmt(&mut self, text: fmt::Arguments) -> io::Result<()> {
                 match attempt($number) {
                     Some(x) => {
-                        let _ = fmt::write(&mut Sink, text);
+                        note_text($number, text);
                         x
                     }
                     None => io::Write::write_fmt(&mut io::$function(), text),
-- 
2.43.0


From 3ce1328dac58014b43e37ebc4149a8cff58f0fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:05 +0000
Subject: [PATCH 32/34] fix: accept reports a failing random source instead of
 panicking

---
 src/quictls/utils.rs |  7 ++++---
 src/routing.rs       | 10 +++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/quictls/utils.rs b/src/quictls/utils.rs
index d8ac4d9..eb0e773 100644
--- a/src/quictls/utils.rs
+++ b/src/quictls/utils.rs
@@ -3,10 +3,11 @@ use crate::sim::openssl;
 #[cfg(quic_sea_sim)]
 #[allow(unused_imports)]
 use crate::sim::standard as std;
+use openssl::error::ErrorStack;
 use openssl::rand::rand_bytes;
 
-pub fn get_connection_id() -> u64 {
+pub fn get_connection_id() -> Result<u64, ErrorStack> {
     let mut buff = [0u8; 8];
-    rand_bytes(&mut buff).unwrap();
-    u64::from_be_bytes(buff)
+    rand_bytes(&mut buff)?;
+    Ok(u64::from_be_bytes(buff))
 }
\ No newline at end of file
diff --git a/src/routing.rs b/src/routing.rs
index 818ef71..8604e3a 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -199,15 +199,15 @@ impl InternalQuicSocket {
         )
         .unwrap();
         let stream = InternalQuicStream::from_connection(connection);
-        let rv = || -> Option<U160> {
+        let rv = || -> std::io::Result<Option<U160>> {
             loop {
-                let src_id = quictls::utils::get_connection_id();
+                let src_id = quictls::utils::get_connection_id()?;
                 let key = U160::from(src_id);
                 {
                     let mut streams = self.streams.write().unwrap();
                     if let Some(x) = find_stream(&streams, &header) {
                         x.sender.send(initial_datagram).unwrap();
-                        return None;
+                        return Ok(None);
                     }
                     // ids chosen by clients are not issued either, they would be ambiguous
                     if !streams.contains_key(&key)
@@ -217,12 +217,12 @@ impl InternalQuicSocket {
                         stream.sender.send(initial_datagram).unwrap();
                         stream.connection.write().unwrap().set_scid(key, 8usize);
                         streams.insert(key.clone(), stream);
-                        return Some(key);
+                        return Ok(Some(key));
                     }
                 }
             }
         }();
-        Ok(rv)
+        rv
     }
 
     pub fn set_log_traffic(&self, log_traffic_flag: bool) {
-- 
2.43.0


From 1680d6830e562de350d2410252114a94d403fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:05 +0000
Subject: [PATCH 33/34] sim: a random source that fails

---
 src/sim/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index cde997f..04738dc 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -40,6 +40,10 @@ pub trait Runtime {
     ) -> io::Result<(usize, SocketAddr)>;
     fn send_to(&self, socket: u64, data: &[u8], addr: SocketAddr) -> io::Result<usize>;
     fn rand_bytes(&self, buff: &mut [u8]);
+    /// whether random bytes cannot be had this time
+    fn rand_fails(&self) -> bool {
+        false
+    }
     /// whether text can be written to standard output (1) or standard error (2)
     fn output(&self, _stream: u8) -> io::Result<()> {
         Ok(())
@@ -100,6 +104,7 @@ pub(crate) mod openssl {
         use crate::sim::runtime;
         pub fn rand_bytes(buff: &mut [u8]) -> Result<(), ::openssl::error::ErrorStack> {
             match runtime() {
+                Some(x) if x.rand_fails() => Err(::openssl::error::ErrorStack::get()),
                 Some(x) => {
                     x.rand_bytes(buff);
                     Ok(())
-- 
2.43.0


From 05050a83bb28ab4b0719e71ecf3118d73ffdaf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:57 +0000
Subject: [PATCH 34/34] sim: threads started by the library

---
 src/sim/mod.rs      |   4 ++
 src/sim/standard.rs | 112 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 116 insertions(+)

diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index 04738dc..c04f746 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -27,6 +27,10 @@ pub trait Runtime {
     fn block(&self, key: usize, what: &'static str);
     /// wakes the threads that are blocked on `key`
     fn signal(&self, key: usize);
+    /// starts a thread
+    fn spawn(&self, f: Box<dyn FnOnce() + Send>) {
+        std::thread::spawn(f);
+    }
     /// whether a waiting writer keeps new readers out of a read-write lock
     fn prefers_writers(&self) -> bool;
     fn bind(&self, addr: SocketAddr) -> io::Result<u64>;
diff --git a/src/sim/standard.rs b/src/sim/standard.rs
index 7a46541..e4ed8c0 100644
--- a/src/sim/standard.rs
+++ b/src/sim/standard.rs
@@ -32,6 +32,10 @@ pub mod sync {
 pub mod thread {
     use crate::sim::{runtime, yield_point};
     pub use ::std::thread::*;
+    use ::std::any::Any;
+    use ::std::io;
+    use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
+    use ::std::sync::{Arc, Mutex};
     use ::std::time::Duration;
 
     /// others may run for any time
@@ -44,6 +48,114 @@ pub mod thread {
     pub fn yield_now() {
         yield_point("yield");
     }
+    /// may return without a reason
+    pub fn park() {
+        match runtime() {
+            Some(x) => x.yield_point("park"),
+            None => ::std::thread::park(),
+        }
+    }
+    pub fn park_timeout(duration: Duration) {
+        match runtime() {
+            Some(x) => x.yield_point("park"),
+            None => ::std::thread::park_timeout(duration),
+        }
+    }
+
+    type Slot<T> = Arc<Mutex<Option<::std::thread::Result<T>>>>;
+
+    enum Kind<T> {
+        Real(::std::thread::JoinHandle<T>),
+        Simulated { slot: Slot<T>, thread: Thread },
+    }
+
+    pub struct JoinHandle<T>(Kind<T>);
+
+    impl<T> JoinHandle<T> {
+        pub fn join(self) -> ::std::thread::Result<T> {
+            match self.0 {
+                Kind::Real(x) => x.join(),
+                Kind::Simulated { slot, .. } => loop {
+                    if let Some(x) = slot.lock().unwrap().take() {
+                        return x;
+                    }
+                    match runtime() {
+                        Some(x) => x.block(Arc::as_ptr(&slot) as *const () as usize, "join"),
+                        None => ::std::thread::yield_now(),
+                    }
+                },
+            }
+        }
+        pub fn is_finished(&self) -> bool {
+            match &self.0 {
+                Kind::Real(x) => x.is_finished(),
+                Kind::Simulated { slot, .. } => {
+                    yield_point("is_finished");
+                    slot.lock().unwrap().is_some()
+                }
+            }
+        }
+        pub fn thread(&self) -> &Thread {
+            match &self.0 {
+                Kind::Real(x) => x.thread(),
+                Kind::Simulated { thread, .. } => thread,
+            }
+        }
+    }
+
+    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
+    where
+        F: FnOnce() -> T + Send + 'static,
+        T: Send + 'static,
+    {
+        Builder::new().spawn(f).expect("failed to spawn thread")
+    }
+
+    #[derive(Debug)]
+    pub struct Builder(::std::thread::Builder);
+
+    impl Builder {
+        pub fn new() -> Self {
+            Self(::std::thread::Builder::new())
+        }
+        pub fn name(self, name: String) -> Self {
+            Self(self.0.name(name))
+        }
+        pub fn stack_size(self, size: usize) -> Self {
+            Self(self.0.stack_size(size))
+        }
+        pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
+        where
+            F: FnOnce() -> T + Send + 'static,
+            T: Send + 'static,
+        {
+            let Some(rt) = runtime() else {
+                return Ok(JoinHandle(Kind::Real(self.0.spawn(f)?)));
+            };
+            let slot: Slot<T> = Arc::new(Mutex::new(None));
+            let result = slot.clone();
+            rt.spawn(Box::new(move || {
+                let r = catch_unwind(AssertUnwindSafe(f));
+                let panic: Option<Box<dyn Any + Send>> = match r {
+                    Ok(x) => {
+                        *result.lock().unwrap() = Some(Ok(x));
+                        None
+                    }
+                    Err(x) => Some(x),
+                };
+                if let Some(rt) = runtime() {
+                    rt.signal(Arc::as_ptr(&result) as *const () as usize);
+                }
+                if let Some(x) = panic {
+                    resume_unwind(x);
+                }
+            }));
+            Ok(JoinHandle(Kind::Simulated {
+                slot,
+                thread: ::std::thread::current(),
+            }))
+        }
+    }
 }
 
 pub mod time {
-- 
2.43.0

