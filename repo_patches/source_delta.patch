From cf96e0d7d8ea8bb7fc043196b03bea9988799310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 01/25] fix: ChaCha20 left a full last block unencrypted

---
 anothertls/src/crypto/chacha20/cipher.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index 007c158..893c1d9 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -91,15 +91,12 @@ impl ChaCha20 {
     pub fn encrypt(input: &[u8], key: &[u8], iv: &[u8], counter: usize) -> Option<Vec<u8>> {
         let mut output = input.to_vec();
         let chacha20 = ChaCha20Block::init(key, iv, 0);
-        let blocks_len = (input.len() as f32 / 64.0).ceil() as usize;
+        let blocks_len = (input.len() + 63) / 64;
         for j in 0..blocks_len {
             let mut current_block = chacha20.clone()?;
             current_block.set_counter((counter + j) as u32);
             let key_stream = current_block.get_block();
-            let mut count = key_stream.len();
-            if (j * 64) + 64 >= input.len() {
-                count = input.len() % 64;
-            }
+            let count = key_stream.len().min(input.len() - j * 64);
             for i in 0..count {
                 output[j * 64 + i] ^= key_stream[i];
             }
-- 
2.43.0


From a28847a857658cff5ae7ab9e7ac626b947275d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:10 +0000
Subject: [PATCH 02/25] fix: alert codes of decode_error, decrypt_error and
 bad_record_mac

---
 anothertls/src/net/alert.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index a190ec7..bb7e9cb 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -30,8 +30,8 @@ pub enum TlsError {
     IllegalParameter = 47,
     UnknownCa = 48,
     AccessDenied = 49,
-    DecryptError = 50,
-    DecodeError = 51,
+    DecodeError = 50,
+    DecryptError = 51,
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
@@ -49,6 +49,7 @@ impl TlsError {
         match code {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
+            20 => TlsError::BadRecordMac,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -58,8 +59,8 @@ impl TlsError {
             47 => TlsError::IllegalParameter,
             48 => TlsError::UnknownCa,
             49 => TlsError::AccessDenied,
-            50 => TlsError::DecryptError,
-            51 => TlsError::DecodeError,
+            50 => TlsError::DecodeError,
+            51 => TlsError::DecryptError,
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
@@ -78,6 +79,7 @@ impl TlsError {
         match self {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
+            TlsError::BadRecordMac => 20,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
@@ -87,8 +89,8 @@ impl TlsError {
             TlsError::IllegalParameter => 47,
             TlsError::UnknownCa => 48,
             TlsError::AccessDenied => 49,
-            TlsError::DecryptError => 50,
-            TlsError::DecodeError => 51,
+            TlsError::DecodeError => 50,
+            TlsError::DecryptError => 51,
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
-- 
2.43.0


From 7b5663c475f994f44c60d3c4d0d5cae5dcd0463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 03/25] fix: HMAC-SHA384 hashed keys longer than 64 instead of
 128 bytes

---
 anothertls/src/hash/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/hash/hmac.rs b/anothertls/src/hash/hmac.rs
index a88ea8d..1304f07 100644
--- a/anothertls/src/hash/hmac.rs
+++ b/anothertls/src/hash/hmac.rs
@@ -38,7 +38,7 @@ impl<'a> Hmac<'a> {
 
         let hashed_key;
 
-        let key = if self.key.len() > 64 {
+        let key = if self.key.len() > size {
             hashed_key = match self.hash {
                 HashType::SHA256 => sha256(self.key),
                 HashType::SHA384 => sha384(self.key),
-- 
2.43.0


From 64839acd21680802ce990428266d2699e1f1aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 04/25] fix: truncated records and handshake messages panicked

---
 anothertls/src/net/handshake/mod.rs | 3 +++
 anothertls/src/net/record.rs        | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index a36218d..cc40cdc 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -63,6 +63,9 @@ impl<'a> Handshake<'a> {
         };
 
         let len = (((buf[1] as u32) << 16) | ((buf[2] as u32) << 8) | buf[3] as u32) as usize;
+        if buf.len() < len + 4 {
+            return Err(TlsError::DecodeError);
+        }
         Ok(Handshake {
             handshake_type,
             fraqment: &buf[4..(len + 4)],
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index a4c9736..e8c3fab 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -85,7 +85,7 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
-        if buf.len() < (2 + len) {
+        if buf.len() < (5 + len) {
             return Err(TlsError::DecodeError);
         }
         let consumed = 5 + len;
@@ -205,6 +205,9 @@ impl RecordPayloadProtection {
             &mut self.handshake_keys
         };
 
+        if record.fraqment.len() < 16 {
+            return Err(TlsError::DecodeError);
+        }
         let ciphertext = &record.fraqment.as_ref()[..record.fraqment.len() - 16]; // 1 = Inner ContentType
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
-- 
2.43.0


From 920dd1fc653c8359e085c90b57bfc1fa539fb86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:35 +0000
Subject: [PATCH 05/25] fix: numbers with leading zero bytes were encoded
 left-aligned

---
 anothertls/src/crypto/ellipticcurve/curve.rs | 4 +++-
 anothertls/src/utils/bytes.rs                | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/curve.rs b/anothertls/src/crypto/ellipticcurve/curve.rs
index 3f1bd22..ae54039 100644
--- a/anothertls/src/crypto/ellipticcurve/curve.rs
+++ b/anothertls/src/crypto/ellipticcurve/curve.rs
@@ -49,7 +49,9 @@ impl Curve {
             b: ibig!(1),
             n: ibig!(_1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed base 16),
             g: Point {
-                x: ibig!(9),
+                // u-coordinates are kept as the big-endian value of their wire
+                // encoding, which is little-endian
+                x: ibig!(9) << 248,
                 y: ibig!(_20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9 base 16),
             },
         }
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 3a56cb9..afc63c6 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -33,13 +33,20 @@ pub fn ibig_to_vec(num: IBig, order: ByteOrder) -> Vec<u8> {
     }
 }
 pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
+    let big_endian = order == ByteOrder::Big;
     let b = ibig_to_vec(num, order);
     let mut c = [0; 32];
+    // numbers with leading zero bytes are shorter than 32 bytes
+    let offset = if big_endian && b.len() < 32 {
+        32 - b.len()
+    } else {
+        0
+    };
     for (i, d) in b.iter().enumerate() {
         if i >= 32 {
             break;
         }
-        c[i] = *d;
+        c[offset + i] = *d;
     }
     c
 }
-- 
2.43.0


From 229fcd4e26ecf4a2343430d3996df282142ecb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:38 +0000
Subject: [PATCH 06/25] fix: records were framed by read sizes and received
 data was lost

---
 anothertls/src/net/client/connection.rs | 40 ++--------------
 anothertls/src/net/server/connection.rs | 12 ++---
 anothertls/src/net/stream.rs            | 63 +++++++++++++++----------
 3 files changed, 44 insertions(+), 71 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 6109c45..36d3783 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -102,44 +102,10 @@ impl<'a> ClientHandshake<'a> {
         self.send_client_hello()?;
         log::debug!("<-- ClientHello");
 
-        let mut defragmented = Vec::with_capacity(2048);
-        let mut rxbuf = [0; 2048];
-
         while self.state != ClientHsState::Ready {
-            let n = self.stream.tcp_read(&mut rxbuf)?;
-
-            if n == 0 {
-                log::error!("Got empty tcp");
-                return Err(TlsError::BrokenPipe);
-            }
-
-            let mut offset = 0;
-
-            if !defragmented.is_empty() {
-                defragmented.extend_from_slice(&rxbuf[..n]);
-            }
-
-            while offset < n || !defragmented.is_empty() {
-                let record_buf = if defragmented.is_empty() {
-                    &rxbuf[offset..n]
-                } else {
-                    &defragmented[offset..]
-                };
-
-                if let Ok((consumed, record)) = Record::from_raw(record_buf) {
-                    self.handle_handshake_record(record)?;
-                    offset += consumed;
-                    if offset == defragmented.len() {
-                        defragmented.clear();
-                        break;
-                    }
-                } else {
-                    if defragmented.is_empty() {
-                        defragmented.extend_from_slice(&rxbuf[offset..n]);
-                    }
-                    break;
-                }
-            }
+            let raw = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&raw)?;
+            self.handle_handshake_record(record)?;
 
             // send server handshake records to the client
             self.stream.flush()?;
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 119853c..647729a 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -106,16 +106,10 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn do_handshake(&mut self) -> Result<(), TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
         while self.state != ServerHsState::Ready {
-            let n = self.stream.tcp_read(&mut rx_buf)?;
-            let mut consumed_total = 0;
-            while consumed_total < n {
-                let (consumed, record) = Record::from_raw(&rx_buf[consumed_total..n])?;
-                consumed_total += consumed;
-                self.handle_handshake_record(record)?;
-            }
+            let raw = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&raw)?;
+            self.handle_handshake_record(record)?;
             // send server handshake records to the client
             self.stream.flush()?;
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1e126f7..e1ca65c 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -15,6 +15,10 @@ pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
     buffer: Vec<u8>,
+    /// Bytes received, but not yet taken as a record
+    rx_buffer: Vec<u8>,
+    /// Application data received, but not yet read by the caller
+    rx_data: Vec<u8>,
 }
 
 impl TlsStream {
@@ -23,6 +27,8 @@ impl TlsStream {
             stream,
             protection: None,
             buffer: Vec::with_capacity(2048),
+            rx_buffer: Vec::with_capacity(4096),
+            rx_data: vec![],
         }
     }
 
@@ -74,6 +80,24 @@ impl TlsStream {
         }
     }
 
+    /// Read exactly one TLS record (header and payload). Bytes received behind
+    /// this record are kept for the next call.
+    pub fn read_record(&mut self) -> Result<Vec<u8>, TlsError> {
+        let mut rx_buf: [u8; 4096] = [0; 4096];
+
+        loop {
+            if self.rx_buffer.len() >= 5 {
+                let len = 5 + (((self.rx_buffer[3] as usize) << 8) | self.rx_buffer[4] as usize);
+                if self.rx_buffer.len() >= len {
+                    let rest = self.rx_buffer.split_off(len);
+                    return Ok(std::mem::replace(&mut self.rx_buffer, rest));
+                }
+            }
+            let n = self.tcp_read(&mut rx_buf)?;
+            self.rx_buffer.extend_from_slice(&rx_buf[..n]);
+        }
+    }
+
     /// Write an TLS Alert message
     pub fn write_alert(&mut self, err: TlsError) -> Result<(), TlsError> {
         let data = vec![AlertLevel::get_from_error(err) as u8, err.as_u8()];
@@ -95,39 +119,28 @@ impl TlsStream {
 
     /// Read from the TLS stream.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
+        while self.rx_data.is_empty() {
+            let raw = self.read_record()?;
+            let (_consumed, record) = Record::from_raw(&raw)?;
 
-        let n = self.tcp_read(&mut rx_buf)?;
+            log::debug!("--> EncryptedData");
 
-        let (_consumed, mut record) = Record::from_raw(&rx_buf[..n])?;
-
-        log::debug!("--> EncryptedData");
-
-        if record.len != record.fraqment.len() {
-            // create internal buffer to store the decrypted TLS packages
-            todo!("Problem, when multiple TLS packages in one TCP package");
-        }
-
-        if let Some(protection) = self.protection.as_mut() {
-            let (typ, data) = protection.decrypt(record)?;
-            record = Record::new(typ, Value::Owned(data));
-            if record.content_type != RecordType::ApplicationData {
+            let (typ, data) = match self.protection.as_mut() {
+                Some(protection) => protection.decrypt(record)?,
+                None => return Err(TlsError::UnexpectedMessage),
+            };
+            if typ != RecordType::ApplicationData {
                 log::error!("Not yet implemented: Handle handshake messages");
                 return Err(TlsError::UnexpectedMessage);
             }
-        } else if record.content_type != RecordType::Handshake {
-            return Err(TlsError::UnexpectedMessage);
+            self.rx_data = data;
         }
 
-        if record.len > buf.len() {
-            todo!("Handle records bigger than the buf.len()");
-        }
-
-        for (i, b) in record.fraqment.as_ref().iter().enumerate() {
-            buf[i] = *b;
-        }
+        let n = std::cmp::min(buf.len(), self.rx_data.len());
+        buf[..n].copy_from_slice(&self.rx_data[..n]);
+        self.rx_data.drain(..n);
 
-        Ok(record.fraqment.len())
+        Ok(n)
     }
 
     /// Write to the TLS stream.
-- 
2.43.0


From 42e487066a1abbc6ca308b15022641605a1469a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 07/25] fix: alerts overtook buffered records and ClientHello
 was written partially

---
 anothertls/src/net/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index e1ca65c..accdb67 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -66,8 +66,8 @@ impl TlsStream {
 
     /// Write directly to the TCP socket
     pub fn tcp_write(&mut self, buf: &[u8]) -> Result<usize, TlsError> {
-        match self.stream.write(buf) {
-            Ok(n) => Ok(n),
+        match self.stream.write_all(buf) {
+            Ok(_) => Ok(buf.len()),
             Err(_) => Err(TlsError::BrokenPipe),
         }
     }
@@ -100,6 +100,9 @@ impl TlsStream {
 
     /// Write an TLS Alert message
     pub fn write_alert(&mut self, err: TlsError) -> Result<(), TlsError> {
+        // buffered records are older than this one
+        self.flush()?;
+
         let data = vec![AlertLevel::get_from_error(err) as u8, err.as_u8()];
 
         let record = Record::new(RecordType::Alert, Value::Owned(data));
-- 
2.43.0


From 9f96af89c9e976ef7b26c3a9ab0b9b6e576f6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:47 +0000
Subject: [PATCH 08/25] fix: records longer than 2^14 bytes were sent with a
 wrapped length

---
 anothertls/src/net/stream.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index accdb67..ea6cb94 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -11,6 +11,9 @@ use core::result::Result;
 use std::io::{Read, Write};
 use std::net::TcpStream;
 
+/// The length of a record's fragment MUST NOT exceed 2^14 bytes
+const MAX_FRAGMENT_LEN: usize = 1 << 14;
+
 pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
@@ -36,6 +39,10 @@ impl TlsStream {
     /// This is useful in the handshake process, where multiple
     /// TLS records are send to the client.
     pub fn write_record(&mut self, typ: RecordType, data: &[u8]) -> Result<(), TlsError> {
+        if data.len() > MAX_FRAGMENT_LEN {
+            return Err(TlsError::InternalError);
+        }
+
         let record = Record::new(typ, Value::Ref(data));
 
         if let Some(protect) = self.protection.as_mut() {
@@ -154,13 +161,15 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
-        let record = Record::new(RecordType::ApplicationData, Value::Ref(src));
-        let record = self.protection.as_mut().unwrap().encrypt(record)?;
+        for chunk in src.chunks(MAX_FRAGMENT_LEN) {
+            let record = Record::new(RecordType::ApplicationData, Value::Ref(chunk));
+            let record = self.protection.as_mut().unwrap().encrypt(record)?;
 
-        log::debug!("<-- EncryptedData");
-        if self.stream.write_all(&record).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
+            log::debug!("<-- EncryptedData");
+            if self.stream.write_all(&record).is_err() {
+                return Err(TlsError::BrokenPipe);
+            };
+        }
 
         Ok(())
     }
-- 
2.43.0


From f002808860f0ebc1a05fd7a4f414989a43b20831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:43 +0000
Subject: [PATCH 09/25] fix: handshake continued unprotected when the keys
 could not be derived

---
 anothertls/src/net/client/connection.rs | 3 +++
 anothertls/src/net/server/connection.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 36d3783..4f533ec 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -250,6 +250,9 @@ impl<'a> ClientHandshake<'a> {
             }
         }
 
+        if protection.is_none() {
+            return Err(TlsError::InternalError);
+        }
         self.stream.set_protection(protection);
         self.tshash = Some(tshash);
 
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 647729a..3a64705 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -208,6 +208,9 @@ impl<'a> ServerHandshake<'a> {
             }
         }
 
+        if protection.is_none() {
+            return Err(TlsError::InternalError);
+        }
         self.stream.set_protection(protection);
 
         // -- EncryptedExtensions --
-- 
2.43.0


From b95c01ffbb766e432f23aef29c8e3836e0fccb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 10/25] fix: handshake messages were skipped, or hashed with
 bytes behind them

---
 anothertls/src/net/client/connection.rs | 17 ++++---
 anothertls/src/net/server/connection.rs | 59 +++++++++++++------------
 2 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 4f533ec..3e54b12 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -212,7 +212,9 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_server_hello(&mut self, record: Record) -> Result<(), TlsError> {
         let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
 
-        if handshake.handshake_type != HandshakeType::ServerHello {
+        if handshake.handshake_type != HandshakeType::ServerHello
+            || handshake.as_bytes().len() != record.fraqment.len()
+        {
             return Err(TlsError::UnexpectedMessage);
         }
 
@@ -223,7 +225,7 @@ impl<'a> ClientHandshake<'a> {
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
 
         log::debug!("--> ServerHello");
-        tshash.update(record.fraqment.as_ref());
+        tshash.update(handshake.as_bytes());
 
         let key_share_entry = match server_hello.get_public_key_share() {
             Some(kse) => kse,
@@ -283,7 +285,9 @@ impl<'a> ClientHandshake<'a> {
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest {
+                    if handshake.handshake_type == HandshakeType::CertificateRequest
+                        && self.state == ClientHsState::ClientCertificateRequest
+                    {
                         log::debug!("--> CertificateRequest");
                         self.certificate_request = Some(handshake.fraqment.to_vec());
                         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
@@ -298,7 +302,7 @@ impl<'a> ClientHandshake<'a> {
                 ClientHsState::Finished | ClientHsState::FinishWithError(_) => {
                     self.handle_server_finish(handshake)?
                 }
-                _ => (),
+                _ => return Err(TlsError::UnexpectedMessage),
             }
         }
         Ok(())
@@ -410,9 +414,8 @@ impl<'a> ClientHandshake<'a> {
     }
     pub fn handle_server_finish(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Finished {
-            if let ClientHsState::FinishWithError(_) = self.state {
-                // When error in Certificate, then CertificateVerify will follow
-                return Ok(());
+            if let ClientHsState::FinishWithError(err) = self.state {
+                return Err(err);
             }
             return Err(TlsError::UnexpectedMessage);
         }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 3a64705..473143a 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -155,7 +155,9 @@ impl<'a> ServerHandshake<'a> {
     fn handle_client_hello(&mut self, record: Record) -> Result<(), TlsError> {
         let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
 
-        if handshake.handshake_type != HandshakeType::ClientHello {
+        if handshake.handshake_type != HandshakeType::ClientHello
+            || handshake.as_bytes().len() != record.fraqment.len()
+        {
             return Err(TlsError::UnexpectedMessage);
         }
 
@@ -167,7 +169,7 @@ impl<'a> ServerHandshake<'a> {
 
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
         // Add ClientHello
-        tshash.update(record.fraqment.as_ref());
+        tshash.update(handshake.as_bytes());
 
         // -- ServerHello --
         let handshake_raw =
@@ -307,22 +309,27 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        match self.state {
-            ServerHsState::ClientCertificate => self.handle_client_certificate(record)?,
-            ServerHsState::ClientCertificateVerify => {
-                self.handle_client_certificate_verify(record)?
-            }
-            ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
-                self.handle_client_finish(record)?
+        let mut consumed = 0;
+
+        while consumed < record.fraqment.len() {
+            let handshake = Handshake::from_raw(&record.fraqment.as_ref()[consumed..])?;
+            consumed += handshake.as_bytes().len();
+
+            match self.state {
+                ServerHsState::ClientCertificate => self.handle_client_certificate(handshake)?,
+                ServerHsState::ClientCertificateVerify => {
+                    self.handle_client_certificate_verify(handshake)?
+                }
+                ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
+                    self.handle_client_finish(handshake)?
+                }
+                _ => return Err(TlsError::UnexpectedMessage),
             }
-            _ => (),
         }
         Ok(())
     }
 
-    pub fn handle_client_certificate(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_certificate(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Certificate
             || self.config.client_cert_ca.is_none()
         {
@@ -331,10 +338,7 @@ impl<'a> ServerHandshake<'a> {
 
         self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
 
-        self.tshash
-            .as_mut()
-            .unwrap()
-            .update(record.fraqment.as_ref());
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         log::debug!("--> ClientCertificate");
 
@@ -380,9 +384,10 @@ impl<'a> ServerHandshake<'a> {
         Ok(())
     }
 
-    pub fn handle_client_certificate_verify(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_certificate_verify(
+        &mut self,
+        handshake: Handshake,
+    ) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::CertificateVerify
             || self.client_cert.is_none()
         {
@@ -425,19 +430,17 @@ impl<'a> ServerHandshake<'a> {
             return Ok(());
         }
 
-        self.tshash
-            .as_mut()
-            .unwrap()
-            .update(record.fraqment.as_ref());
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         self.state = ServerHsState::ClientFinished;
         Ok(())
     }
-    pub fn handle_client_finish(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_finish(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Finished {
-            if let ServerHsState::FinishWithError(_) = self.state {
+            if let ServerHsState::FinishWithError(err) = self.state {
+                if handshake.handshake_type != HandshakeType::CertificateVerify {
+                    return Err(err);
+                }
                 // When error in Certificate, then CertificateVerify will follow
                 self.tshash.as_mut().unwrap().update(handshake.as_bytes());
                 return Ok(());
-- 
2.43.0


From c055cc9ddcd2a1392e825cb7a7c7db34aae3eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 11/25] fix: degenerate key shares were accepted

---
 anothertls/src/net/key_schedule.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 8c5d5c7..898dd64 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -135,6 +135,10 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
+        if key_share_entry.opaque.len() != 32 {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let client_public_key = bytes::to_ibig_be(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
@@ -144,6 +148,11 @@ impl KeySchedule {
         let shared_secret = math::multiply(&client_public_key, server_private_key, curve);
         let shared_secret = bytes::ibig_to_32bytes(shared_secret.x, bytes::ByteOrder::Big);
 
+        // RFC 8446, 7.4.2: abort if it is the all-zero value
+        if shared_secret == [0; 32] {
+            return Err(TlsError::IllegalParameter);
+        }
+
         match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {
             Some(keys) => Ok(keys),
             None => Err(TlsError::HandshakeFailure),
-- 
2.43.0


From 9db93fb8d63d4b43c9519996e1f096bddf8f4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 12/25] fix: empty client certificate list was malformed

---
 anothertls/src/net/client/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 3e54b12..a4ccaf3 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -489,8 +489,8 @@ impl<'a> ClientHandshake<'a> {
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
         } else {
-            log::fixme!("Check if this works");
-            response.extend_from_slice(&[0x00, 0x00, 0x00, 0x02, 0x00, 0x00]);
+            // empty certificate_list
+            response.extend_from_slice(&[0x00, 0x00, 0x00]);
         }
 
         let handshake_raw = Handshake::to_bytes(HandshakeType::Certificate, response);
-- 
2.43.0


From 11f50d24322cb10ee52d660c8a3e51be6501023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 13/25] fix: unknown alert codes were reported as decode_error

---
 anothertls/src/net/alert.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index bb7e9cb..0a1e759 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -69,8 +69,7 @@ impl TlsError {
             116 => TlsError::CertificateRequired,
             250 => TlsError::NotOfficial,
             253 => TlsError::NotOfficial, // GotAlert has an associated value that we can't match here
-            254 => TlsError::BrokenPipe,
-            _ => TlsError::DecodeError,
+            _ => TlsError::NotOfficial,
         }
     }
 
-- 
2.43.0


From ea74b034d77e6453a82247bb164f0983a5c0fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 14/25] fix: truncated hellos and extensions panicked

---
 anothertls/src/net/client/client_hello.rs     | 18 +++++++----
 .../src/net/extensions/certificate_request.rs | 12 ++++---
 anothertls/src/net/extensions/client.rs       | 32 ++++++++++---------
 anothertls/src/net/extensions/key_share.rs    |  8 ++---
 anothertls/src/net/extensions/server.rs       | 26 ++++++++-------
 anothertls/src/net/extensions/server_name.rs  |  6 ++--
 .../src/net/extensions/signature_algorithm.rs |  2 +-
 .../src/net/extensions/supported_versions.rs  |  6 ++--
 anothertls/src/net/server/server_hello.rs     | 16 ++++++----
 anothertls/src/utils/bytes.rs                 |  8 +++++
 10 files changed, 78 insertions(+), 56 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index ddb9232..9a46cdb 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -4,6 +4,7 @@
  */
 #![allow(non_camel_case_types)]
 
+use crate::utils::bytes;
 use crate::{
     crypto::CipherSuite,
     net::{
@@ -83,18 +84,21 @@ impl<'a> ClientHello<'a> {
         }
 
         let random = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
+        if session_id_length > 32 {
+            return Err(TlsError::DecodeError);
+        }
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            consumed += session_id_length;
+            legacy_session_id_echo = Some(bytes::take(buf, 35, session_id_length)?);
         }
 
         // Cipher Suites
-        let cipher_suites_len = ((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16);
-        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len as usize) {
+        let cipher_suites_len = bytes::to_u16(bytes::take(buf, consumed, 2)?);
+        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + 2 + cipher_suites_len as usize) {
             return Err(TlsError::IllegalParameter);
         }
         consumed += 2;
@@ -114,11 +118,11 @@ impl<'a> ClientHello<'a> {
         // TLS 1.3 no longer allows compression
         consumed += 2;
 
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
+        let extensions_len = bytes::to_u16(bytes::take(buf, consumed, 2)?) as usize;
         consumed += 2;
 
         let extensions =
-            ClientExtension::from_client_hello(&buf[consumed..(consumed + extensions_len)])?;
+            ClientExtension::from_client_hello(bytes::take(buf, consumed, extensions_len)?)?;
 
         Ok(ClientHello {
             random,
diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 4d67eaa..040bb55 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -29,23 +29,27 @@ impl CertificateRequestExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let extension_type = bytes::to_u16(bytes::take(buf, consumed, 2)?);
             let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
+            let size = bytes::to_u16(bytes::take(buf, consumed + 2, 2)?) as usize;
             consumed += 4;
             if extension_type.is_none() {
                 consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
+            let body = bytes::take(buf, consumed, size)?;
 
             let extension = match extension_type {
                 ExtensionType::SignatureAlgorithms => {
                     CertificateRequestExtension::SignatureAlgorithms(
-                        SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                        SignatureAlgorithms::client_parse(body)?,
                     )
                 }
-                _ => continue,
+                _ => {
+                    consumed += size;
+                    continue;
+                }
             };
             consumed += size;
             extensions.push(extension);
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index f1362a5..fbcd43c 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -38,30 +38,32 @@ impl ClientExtension {
         let mut extensions = ClientExtensions::new();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let extension_type = bytes::to_u16(bytes::take(buf, consumed, 2)?);
             let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
+            let size = bytes::to_u16(bytes::take(buf, consumed + 2, 2)?) as usize;
             consumed += 4;
             if extension_type.is_none() {
                 consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
+            let body = bytes::take(buf, consumed, size)?;
 
             let extension = match extension_type {
-                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ClientExtension::SupportedVersion(
-                    SupportedVersions::server_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ClientExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::server_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SupportedGroups => continue,
+                ExtensionType::ServerName => {
+                    ClientExtension::ServerName(ServerName::server_parse(body)?)
+                }
+                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(body)?),
+                ExtensionType::SupportedVersions => {
+                    ClientExtension::SupportedVersion(SupportedVersions::server_parse(body)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ClientExtension::SignatureAlgorithms(SignatureAlgorithms::server_parse(body)?)
+                }
+                ExtensionType::SupportedGroups => {
+                    consumed += size;
+                    continue;
+                }
             };
             consumed += size;
             extensions.push(extension);
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index b7ec5ab..3d96dfa 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -20,17 +20,17 @@ impl KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
     fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
-        let group = bytes::to_u16(buf);
+        let group = bytes::to_u16(bytes::take(buf, 0, 2)?);
         let group = match NamedGroup::new(group) {
             Some(x) => x,
             None => return Err(TlsError::IllegalParameter),
         };
-        let public_key_len = bytes::to_u16(&buf[2..]);
+        let public_key_len = bytes::to_u16(bytes::take(buf, 2, 2)?);
         Ok((
             4 + public_key_len as usize,
             KeyShareEntry {
                 group,
-                opaque: (buf[4..(public_key_len + 4) as usize]).to_vec(),
+                opaque: bytes::take(buf, 4, public_key_len as usize)?.to_vec(),
             },
         ))
     }
@@ -60,7 +60,7 @@ impl KeyShare {
         let mut len = 0;
         let mut consumed = 0;
         if !is_client {
-            len = bytes::to_u16(buf) as usize;
+            len = bytes::to_u16(bytes::take(buf, 0, 2)?) as usize;
             consumed += 2;
         }
         loop {
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index dab9dca..6ef52e3 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -36,27 +36,29 @@ impl ServerExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let extension_type = bytes::to_u16(bytes::take(buf, consumed, 2)?);
             let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
+            let size = bytes::to_u16(bytes::take(buf, consumed + 2, 2)?) as usize;
             consumed += 4;
             if extension_type.is_none() {
                 consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
+            let body = bytes::take(buf, consumed, size)?;
 
             let extension = match extension_type {
-                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ServerExtension::SupportedVersions(
-                    SupportedVersions::client_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ServerExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::client_parse(&buf[consumed..])?,
-                ), // ExtensionType::SupportedGroups => continue, // TODO
-                _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
+                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(body)?),
+                ExtensionType::SupportedVersions => {
+                    ServerExtension::SupportedVersions(SupportedVersions::client_parse(body)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ServerExtension::SignatureAlgorithms(SignatureAlgorithms::client_parse(body)?)
+                } // ExtensionType::SupportedGroups => continue, // TODO
+                _ => {
+                    consumed += size;
+                    continue;
+                } // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
             consumed += size;
             extensions.push(extension);
diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 6b524aa..1a63691 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -45,15 +45,15 @@ impl Extension for ServerName {
         let mut consumed = 2;
         let mut server_name = String::new();
         if server_name_list_len > 0 {
-            let name_type = buf[consumed];
+            let name_type = bytes::take(buf, consumed, 1)?[0];
             consumed += 1;
             if name_type != 0 {
                 return Err(TlsError::DecodeError);
             }
-            let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
+            let server_name_len = bytes::to_u16(bytes::take(buf, consumed, 2)?) as usize;
             consumed += 2;
             server_name =
-                match String::from_utf8(buf[consumed..server_name_len + consumed].to_vec()) {
+                match String::from_utf8(bytes::take(buf, consumed, server_name_len)?.to_vec()) {
                     Ok(a) => a,
                     Err(_) => return Err(TlsError::DecodeError),
                 };
diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index eb8a90d..f1bbe6f 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -100,7 +100,7 @@ impl Extension for SignatureAlgorithms {
         let mut out = vec![];
         if len % 2 == 0 {
             for i in (2..len).step_by(2) {
-                let tes = bytes::to_u16(&buf[i..(i + 2)]);
+                let tes = bytes::to_u16(bytes::take(buf, i, 2)?);
                 out.push(SignatureScheme::new(tes)?);
             }
         }
diff --git a/anothertls/src/net/extensions/supported_versions.rs b/anothertls/src/net/extensions/supported_versions.rs
index 8ce7fd1..8c72142 100644
--- a/anothertls/src/net/extensions/supported_versions.rs
+++ b/anothertls/src/net/extensions/supported_versions.rs
@@ -34,10 +34,10 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        let len = buf[0] as usize;
+        let len = bytes::take(buf, 0, 1)?[0] as usize;
         if len % 2 == 0 {
             for i in (1..len + 1).step_by(2) {
-                if bytes::to_u16(&buf[i..(i + 2)]) == 0x0304 {
+                if bytes::to_u16(bytes::take(buf, i, 2)?) == 0x0304 {
                     return Ok(SupportedVersions::new(true));
                 }
             }
@@ -48,7 +48,7 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        if bytes::to_u16(&buf[0..2]) == 0x0304 {
+        if bytes::to_u16(bytes::take(buf, 0, 2)?) == 0x0304 {
             return Ok(SupportedVersions::new(true));
         }
         Ok(SupportedVersions::new(false))
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 581e7c4..b7cb06f 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -37,25 +37,27 @@ impl<'a> ServerHello<'a> {
         }
 
         let random: [u8; 32] = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
+        if session_id_length > 32 {
+            return Err(TlsError::DecodeError);
+        }
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            consumed += session_id_length;
+            legacy_session_id_echo = Some(bytes::take(buf, 35, session_id_length)?);
         }
 
-        let cipher_suite =
-            CipherSuite::new(((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16))?;
+        let cipher_suite = CipherSuite::new(bytes::to_u16(bytes::take(buf, consumed, 2)?))?;
 
         consumed += 3; // CipherSuite + Compression Method
 
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
+        let extensions_len = bytes::to_u16(bytes::take(buf, consumed, 2)?) as usize;
         consumed += 2;
 
         let extensions =
-            ServerExtensions::from_server_hello(&buf[consumed..(consumed + extensions_len)])?;
+            ServerExtensions::from_server_hello(bytes::take(buf, consumed, extensions_len)?)?;
 
         let mut tls13_is_supported = false;
         for ext in extensions.as_vec().iter() {
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index afc63c6..3cd21f6 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -3,6 +3,7 @@
  *
  */
 
+use crate::net::alert::TlsError;
 use ibig::{ibig, IBig};
 
 pub fn to_ibig_le(bytes: &[u8]) -> IBig {
@@ -91,6 +92,13 @@ pub fn str_to_u16(s: &str) -> u16 {
 //     }
 //     res
 // }
+/// The `len` bytes of a received message behind its first `start` bytes
+pub fn take(buf: &[u8], start: usize, len: usize) -> Result<&[u8], TlsError> {
+    if buf.len() < start || buf.len() - start < len {
+        return Err(TlsError::DecodeError);
+    }
+    Ok(&buf[start..start + len])
+}
 pub fn to_u16(buf: &[u8]) -> u16 {
     if buf.is_empty() {
         return 0;
-- 
2.43.0


From 0cb69f2e492c74b0de330654a5180b5823133fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 15/25] fix: hellos without TLS 1.3 or signature schemes were
 accepted, unknown groups rejected

---
 anothertls/src/net/client/client_hello.rs     |  8 ++--
 anothertls/src/net/extensions/key_share.rs    | 42 ++++++++-----------
 anothertls/src/net/extensions/shared.rs       |  4 +-
 .../src/net/extensions/signature_algorithm.rs |  7 +++-
 anothertls/src/net/server/server_hello.rs     | 16 +++++--
 5 files changed, 42 insertions(+), 35 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index 9a46cdb..061175b 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -9,7 +9,7 @@ use crate::{
     crypto::CipherSuite,
     net::{
         alert::TlsError,
-        extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
+        extensions::{ClientExtension, ClientExtensions, KeyShareEntry, NamedGroup},
     },
     utils::log,
 };
@@ -135,8 +135,10 @@ impl<'a> ClientHello<'a> {
     pub fn get_public_key_share(&self) -> Option<&KeyShareEntry> {
         for ext in self.extensions.as_vec().iter() {
             if let ClientExtension::KeyShare(key_share) = ext {
-                if !key_share.0.is_empty() {
-                    return Some(&key_share.0[0]);
+                // the group selected by ServerHello::from_client_hello
+                let share = key_share.0.iter().find(|k| k.group == NamedGroup::X25519);
+                if share.is_some() {
+                    return share;
                 }
             }
         }
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index 3d96dfa..d0c4f12 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -19,19 +19,14 @@ impl KeyShareEntry {
     pub fn new(group: NamedGroup, opaque: Vec<u8>) -> KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
-    fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
+    /// The entry is None when its group is unknown
+    fn parse(buf: &[u8]) -> Result<(usize, Option<KeyShareEntry>), TlsError> {
         let group = bytes::to_u16(bytes::take(buf, 0, 2)?);
-        let group = match NamedGroup::new(group) {
-            Some(x) => x,
-            None => return Err(TlsError::IllegalParameter),
-        };
-        let public_key_len = bytes::to_u16(bytes::take(buf, 2, 2)?);
+        let public_key_len = bytes::to_u16(bytes::take(buf, 2, 2)?) as usize;
+        let opaque = bytes::take(buf, 4, public_key_len)?;
         Ok((
-            4 + public_key_len as usize,
-            KeyShareEntry {
-                group,
-                opaque: bytes::take(buf, 4, public_key_len as usize)?.to_vec(),
-            },
+            4 + public_key_len,
+            NamedGroup::new(group).map(|group| KeyShareEntry::new(group, opaque.to_vec())),
         ))
     }
     fn as_bytes(&self) -> Vec<u8> {
@@ -57,23 +52,22 @@ impl KeyShare {
     }
     fn parse(buf: &[u8], is_client: bool) -> Result<Self, TlsError> {
         let mut entries = vec![];
-        let mut len = 0;
-        let mut consumed = 0;
-        if !is_client {
-            len = bytes::to_u16(bytes::take(buf, 0, 2)?) as usize;
-            consumed += 2;
+        if is_client {
+            // the server selects exactly one group
+            match KeyShareEntry::parse(buf)? {
+                (_, Some(entry)) => entries.push(entry),
+                (_, None) => return Err(TlsError::IllegalParameter),
+            }
+            return Ok(KeyShare(entries));
         }
-        loop {
+        let len = bytes::to_u16(bytes::take(buf, 0, 2)?) as usize;
+        let mut consumed = 2;
+        while consumed < len + 2 {
             let (used, entry) = KeyShareEntry::parse(&buf[consumed..])?;
-            if used <= 7 {
-                break;
+            if let Some(entry) = entry {
+                entries.push(entry);
             }
-            entries.push(entry);
             consumed += used;
-            // len is for server 0, so it should always break here
-            if consumed >= len {
-                break;
-            }
         }
         Ok(KeyShare(entries))
     }
diff --git a/anothertls/src/net/extensions/shared.rs b/anothertls/src/net/extensions/shared.rs
index dc1e7fd..9e2e283 100644
--- a/anothertls/src/net/extensions/shared.rs
+++ b/anothertls/src/net/extensions/shared.rs
@@ -92,11 +92,11 @@ impl ExtensionType {
         Some(match val {
             0x00 => ExtensionType::ServerName,
             // 0x0b => ExtensionType::ECPointFormats,
-            // 0x0a => ExtensionType::SupportedGroups,
+            0x0a => ExtensionType::SupportedGroups,
             // 0x23 => ExtensionType::SessionTicket,
             // 0x16 => ExtensionType::EncryptThenMac,
             // 0x17 => ExtensionType::ExtendedMasterSecret,
-            // 0x0d => ExtensionType::SignatureAlgorithms,
+            0x0d => ExtensionType::SignatureAlgorithms,
             0x2b => ExtensionType::SupportedVersions,
             // 0x2d => ExtensionType::PSKKeyExchangeMode,
             0x33 => ExtensionType::KeyShare,
diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index f1bbe6f..f1943bd 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -99,9 +99,12 @@ impl Extension for SignatureAlgorithms {
         let len = bytes::to_u16(buf) as usize;
         let mut out = vec![];
         if len % 2 == 0 {
-            for i in (2..len).step_by(2) {
+            for i in (2..len + 2).step_by(2) {
                 let tes = bytes::to_u16(bytes::take(buf, i, 2)?);
-                out.push(SignatureScheme::new(tes)?);
+                // ignore unknown schemes
+                if let Ok(scheme) = SignatureScheme::new(tes) {
+                    out.push(scheme);
+                }
             }
         }
         Ok(SignatureAlgorithms(out))
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index b7cb06f..10644b7 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -88,6 +88,8 @@ impl<'a> ServerHello<'a> {
         let mut extensions = ServerExtensions::new();
         let mut private_key = None;
         let mut named_group = None;
+        let mut tls13_is_supported = false;
+        let mut signature_scheme_is_supported = false;
 
         let random: [u8; 32] = rng.bytes(32).try_into().unwrap();
 
@@ -105,6 +107,7 @@ impl<'a> ServerHello<'a> {
                     if !version.is_tls13_supported() {
                         return Err(TlsError::InsufficientSecurity);
                     }
+                    tls13_is_supported = true;
                 }
                 ClientExtension::KeyShare(key_share) => {
                     for key in key_share.0.iter() {
@@ -124,10 +127,6 @@ impl<'a> ServerHello<'a> {
                                 named_group = Some(NamedGroup::X25519);
                                 break;
                             }
-                            NamedGroup::Secp256r1 => {
-                                todo!("Add support for secp256 key exchange");
-                                // named_group = Some(NamedGroup::Secp256r1);
-                            }
                             _ => {}
                         }
                     }
@@ -150,11 +149,20 @@ impl<'a> ServerHello<'a> {
                     if !supported {
                         return Err(TlsError::InsufficientSecurity);
                     }
+                    signature_scheme_is_supported = true;
                 }
                 ClientExtension::SupportedGroups(_sg) => (),
             }
         }
 
+        if !tls13_is_supported {
+            return Err(TlsError::ProtocolVersion);
+        }
+
+        if !signature_scheme_is_supported {
+            return Err(TlsError::MissingExtension);
+        }
+
         if named_group.is_none() {
             log::error!("No supported group -> Hello Retry Request");
             return Err(TlsError::InsufficientSecurity);
-- 
2.43.0


From 368ca62b28c303f7d83144ea160536f9eaf2b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 16/25] fix: malformed certificates and signatures panicked

---
 anothertls/src/utils/der.rs  | 17 +++++++++++++----
 anothertls/src/utils/x509.rs | 36 +++++++++++++++++++++---------------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index a1083f3..e4b49f0 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -74,28 +74,37 @@ impl DerType {
 }
 
 pub fn der_parse(consumed: &mut usize, data: &[u8]) -> Result<(usize, EncodedForm), ParseError> {
+    if *consumed >= data.len() {
+        return Err(ParseError::DerParseLen);
+    }
     let der_type = match DerType::from_u8(data[*consumed]) {
         Some(a) => a,
         None => return Err(ParseError::DerParseType),
     };
     *consumed += 1;
-    let size = get_len(data, consumed);
-    if size > data.len() {
+    let size = get_len(data, consumed)?;
+    if size > data.len() - *consumed {
         return Err(ParseError::DerParseLen);
     }
     Ok((size, der_type))
 }
 
-fn get_len(len: &[u8], consumed: &mut usize) -> usize {
+fn get_len(len: &[u8], consumed: &mut usize) -> Result<usize, ParseError> {
     let size;
+    if *consumed >= len.len() {
+        return Err(ParseError::DerParseLen);
+    }
     if len[*consumed] >> 7 & 1 == 1 {
         let consume_len = len[*consumed] & 0x7F;
         *consumed += 1;
+        if consume_len as usize > len.len() - *consumed {
+            return Err(ParseError::DerParseLen);
+        }
         size = bytes::to_u128_be_fill(&len[*consumed..*consumed + consume_len as usize]) as usize;
         *consumed += consume_len as usize;
     } else {
         size = len[*consumed] as usize;
         *consumed += 1;
     }
-    size
+    Ok(size)
 }
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index fca8476..95514cc 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -46,7 +46,7 @@ pub struct UtcTime {
 
 impl UtcTime {
     fn from_utc_timestamp(t: &str) -> Option<UtcTime> {
-        if t.len() < 12 {
+        if t.len() < 12 || !t.is_ascii() {
             return None;
         }
         let (mut year, month, day, hour, minute, second) = (
@@ -62,6 +62,9 @@ impl UtcTime {
         } else {
             year += 1900;
         }
+        if year < 1970 || !(1..=12).contains(&month) || !(1..=31).contains(&day) {
+            return None;
+        }
         Some(UtcTime {
             year,
             month,
@@ -199,7 +202,9 @@ impl SubjectPublicKeyInfoBuilder {
         }
         Ok(SubjectPublicKeyInfo {
             algorithm: self.algorithm.unwrap(),
-            subject_public_key: self.subject_public_key.unwrap(),
+            subject_public_key: self
+                .subject_public_key
+                .ok_or(ParseError::SubjectPublicKeyInfo)?,
         })
     }
 }
@@ -389,8 +394,9 @@ impl X509 {
             .subject_public_key
             .as_slice();
 
-        if pubkey[0] != 0x4 {
-            todo!("Handle compressed points");
+        // TODO: Handle compressed points
+        if pubkey.len() < 65 || pubkey[0] != 0x4 {
+            return None;
         }
 
         let x = bytes::to_ibig_be(&pubkey[1..33]);
@@ -427,7 +433,7 @@ impl X509Builder {
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
             tbs_certificate_size: self.tbs_certificate_size,
-            signature_algorithm: self.signature_algorithm.unwrap(),
+            signature_algorithm: self.signature_algorithm.ok_or(ParseError::Algorithms)?,
             signature,
         })
     }
@@ -484,6 +490,9 @@ fn parse(
             DerType::ContextSpecific(tag) => {
                 match tag {
                     0x00 => {
+                        if size < 2 {
+                            return Err(ParseError::Version);
+                        }
                         res.tbs_certificate.version = Some(Version::parse(&body[2..])?);
                     }
                     0x03 => log::fixme!("TODO: certificate extenstions"),
@@ -496,7 +505,8 @@ fn parse(
                 // *consumed += size;
             }
             _ => {
-                todo!("cons={cons:?}");
+                log::error!("not yet implemented: cons={cons:?}");
+                return Err(ParseError::NotYetImplemented);
             }
         },
         EncodedForm::Primitive(prim) => match prim {
@@ -553,7 +563,7 @@ fn parse(
                     }
                     *consumed += size;
                 }
-                _ => todo!("ObjectIdentifier {state:?}"),
+                _ => return Err(ParseError::NotYetImplemented),
             },
             DerType::PrintableString | DerType::UTF8String => {
                 let string = match String::from_utf8(body.to_vec()) {
@@ -567,10 +577,6 @@ fn parse(
                 }
                 *consumed += size;
             }
-            DerType::OctetString => {
-                *consumed += size;
-                todo!("GOT OctetString");
-            }
             DerType::UTCTime => {
                 let timestamp = match String::from_utf8(body.to_vec()) {
                     Ok(e) => e,
@@ -588,6 +594,9 @@ fn parse(
                 *consumed += size;
             }
             DerType::BitString => {
+                if size < 2 {
+                    return Err(ParseError::DerParseLen);
+                }
                 if data[*consumed + 1] == 0x30 {
                     *consumed += 1;
                     let size_should = size + *consumed - 1;
@@ -597,7 +606,7 @@ fn parse(
                 } else {
                     let number_of_unused_bits = data[*consumed];
                     if number_of_unused_bits != 0 {
-                        todo!("Number of unused bits is not 0");
+                        return Err(ParseError::NotYetImplemented);
                     }
 
                     if res
@@ -613,9 +622,6 @@ fn parse(
                     *consumed += size;
                 }
             }
-            DerType::Null => {
-                todo!("Null");
-            }
             _ => {
                 log::error!("not yet implemented: prim={prim:?}");
                 return Err(ParseError::NotYetImplemented);
-- 
2.43.0


From 72636094438446c913caf4cc1bfbb9c8bd4a83fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 17/25] fix: certificates without a validity period were
 accepted

---
 anothertls/src/utils/x509.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 95514cc..99d6ede 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -121,6 +121,10 @@ impl Validity {
             .expect("Time went backwards");
         let current = since_the_epoch.as_secs();
 
+        if self.not_before.is_none() || self.not_after.is_none() {
+            return false;
+        }
+
         if let Some(not_before) = self.not_before.as_ref() {
             if current < not_before.get_unix_timestamp() {
                 return false;
-- 
2.43.0


From 1b2f13e8205ec221e0a15d3d3ac2c5d32f5a3a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 18/25] fix: CA signature was checked over the wrong bytes of
 short certificates

---
 anothertls/src/net/handshake/certificate.rs | 3 ++-
 anothertls/src/utils/x509.rs                | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0b2c8e3..f916725 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -188,7 +188,8 @@ impl Certificate {
             None => return Err(TlsError::DecryptError),
         };
 
-        let context = &other.raw[4..4 + other_x509.tbs_certificate_size];
+        let start = other_x509.tbs_certificate_start;
+        let context = &other.raw[start..start + other_x509.tbs_certificate_size];
 
         let hash = sha256(context);
 
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 99d6ede..f54e2d8 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -357,6 +357,7 @@ impl Default for TBSCertificateBuilder {
 
 pub struct X509 {
     pub tbs_certificate: TBSCertificate,
+    pub tbs_certificate_start: usize,
     pub tbs_certificate_size: usize,
     pub signature_algorithm: Algorithms,
     pub signature: Option<Signature>,
@@ -411,6 +412,7 @@ impl X509 {
 }
 pub struct X509Builder {
     tbs_certificate: TBSCertificateBuilder,
+    tbs_certificate_start: usize,
     tbs_certificate_size: usize,
     signature_algorithm: Option<Algorithms>,
     signature: (Option<IBig>, Option<IBig>),
@@ -419,6 +421,7 @@ impl X509Builder {
     fn new() -> X509Builder {
         X509Builder {
             tbs_certificate: TBSCertificateBuilder::new(),
+            tbs_certificate_start: 0,
             tbs_certificate_size: 0,
             signature_algorithm: None,
             signature: (None, None),
@@ -436,6 +439,7 @@ impl X509Builder {
 
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
+            tbs_certificate_start: self.tbs_certificate_start,
             tbs_certificate_size: self.tbs_certificate_size,
             signature_algorithm: self.signature_algorithm.ok_or(ParseError::Algorithms)?,
             signature,
@@ -475,6 +479,7 @@ fn parse(
     data: &[u8],
     consumed: &mut usize,
 ) -> Result<(), ParseError> {
+    let start = *consumed;
     let (size, der) = der_parse(consumed, data)?;
     let body = &data[*consumed..*consumed + size];
 
@@ -484,7 +489,9 @@ fn parse(
                 if res.tbs_certificate_size == 0 {
                     res.tbs_certificate_size = 1; // Size of tbs_certificate + signature_algorithm + signature
                 } else if res.tbs_certificate_size == 1 {
-                    res.tbs_certificate_size = size + 4;
+                    // header and content, as received
+                    res.tbs_certificate_start = start;
+                    res.tbs_certificate_size = *consumed - start + size;
                 }
                 let size_should = size + *consumed;
                 while size_should > *consumed {
-- 
2.43.0


From ffc6a9f511ffd8a5fe0dd675c30f7dcf5bfbde64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 19/25] fix: deeply nested certificates exhausted the stack

---
 anothertls/src/utils/x509.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index f54e2d8..5d450a8 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -367,7 +367,7 @@ impl X509 {
         let mut res = X509Builder::new();
         let mut consumed = 0;
         log::debug!("Start parsing X509 certificate");
-        parse(&mut res, ParsingState::Init, data, &mut consumed)?;
+        parse(&mut res, ParsingState::Init, data, &mut consumed, 0)?;
         res.build()
     }
     pub fn get_public_key(&self) -> Option<PublicKey> {
@@ -473,12 +473,19 @@ impl Version {
         Err(ParseError::Version)
     }
 }
+/// Certificates nest far less, this only limits the recursion
+const MAX_DEPTH: usize = 32;
+
 fn parse(
     res: &mut X509Builder,
     state: ParsingState,
     data: &[u8],
     consumed: &mut usize,
+    depth: usize,
 ) -> Result<(), ParseError> {
+    if depth > MAX_DEPTH {
+        return Err(ParseError::DerParseLen);
+    }
     let start = *consumed;
     let (size, der) = der_parse(consumed, data)?;
     let body = &data[*consumed..*consumed + size];
@@ -495,7 +502,7 @@ fn parse(
                 }
                 let size_should = size + *consumed;
                 while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed)?;
+                    parse(res, state.clone(), data, consumed, depth + 1)?;
                 }
             }
             DerType::ContextSpecific(tag) => {
@@ -512,7 +519,7 @@ fn parse(
                 *consumed += size;
             }
             DerType::Set => {
-                parse(res, ParsingState::InSet, data, consumed)?;
+                parse(res, ParsingState::InSet, data, consumed, depth + 1)?;
                 // *consumed += size;
             }
             _ => {
@@ -612,7 +619,7 @@ fn parse(
                     *consumed += 1;
                     let size_should = size + *consumed - 1;
                     while size_should > *consumed {
-                        parse(res, ParsingState::InBitString, data, consumed)?;
+                        parse(res, ParsingState::InBitString, data, consumed, depth + 1)?;
                     }
                 } else {
                     let number_of_unused_bits = data[*consumed];
-- 
2.43.0


From 0eafab7036731f6e0528a45d494f8493061419c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 20/25] fix: validity dates behind February of leap years were
 a day off

---
 anothertls/src/utils/x509.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 5d450a8..f78db3f 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -83,6 +83,9 @@ impl UtcTime {
         let mut days = (year - 1970) * 365 + leap_years;
         days += days_since_year_start[(self.month - 1) as usize];
         days += (self.day - 1) as u64;
+        if self.month > 2 && year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) {
+            days += 1;
+        }
 
         let mut res = 0;
         res += days * 86400;
-- 
2.43.0


From b04e5b5975674183a403c92a23b33665e24a9819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 21/25] fix: truncated handshake messages and alerts panicked

---
 anothertls/src/net/client/connection.rs     | 23 +++++++++++----------
 anothertls/src/net/handshake/certificate.rs | 10 ++++-----
 anothertls/src/net/server/connection.rs     | 17 ++++++++-------
 3 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index a4ccaf3..912cc90 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -181,7 +181,7 @@ impl<'a> ClientHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
+                let alert_code = bytes::take(record.fraqment.as_ref(), 1, 1)?[0];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ClientHsState::Ready {
@@ -271,7 +271,8 @@ impl<'a> ClientHandshake<'a> {
 
         if record.content_type != RecordType::Handshake {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                let alert_code = bytes::take(record.fraqment.as_ref(), 1, 1)?[0];
+                return Err(TlsError::GotAlert(alert_code));
             }
             return Err(TlsError::UnexpectedMessage);
         }
@@ -339,7 +340,7 @@ impl<'a> ClientHandshake<'a> {
 
         // Get last certificate, which is testet
         // against the CAs installed on the systems
-        let mut cert = certs.pop().unwrap();
+        let mut cert = certs.pop().ok_or(TlsError::DecodeError)?;
         log::error!("Validate server certificate with system!!!");
         // if self
         //     .config
@@ -374,9 +375,10 @@ impl<'a> ClientHandshake<'a> {
 
         log::debug!("--> ServerCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
+        let algo = SignatureScheme::new(bytes::to_u16(bytes::take(handshake.fraqment, 0, 2)?))?;
 
         let mut consumed = 4; // algo and len
+        let sign_len = bytes::to_u16(bytes::take(handshake.fraqment, 2, 2)?) as usize;
         match algo {
             SignatureScheme::ecdsa_secp256r1_sha256 => {
                 let (signature, size) = match Signature::from_der(&handshake.fraqment[consumed..]) {
@@ -398,12 +400,11 @@ impl<'a> ClientHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for server cert not implemented yet"),
+            _ => return Err(TlsError::IllegalParameter),
         }
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
         if sign_len != consumed - 4 {
             self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
             return Ok(());
@@ -472,19 +473,19 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
         let request = self.certificate_request.as_ref().unwrap();
 
-        let mut response: Vec<u8> = vec![request[0]];
-        let context_len = request[0] as usize;
+        let context_len = bytes::take(request, 0, 1)?[0] as usize;
+        let mut response: Vec<u8> = vec![context_len as u8];
 
         let mut consumed = 1;
         if context_len > 0 {
-            response.extend_from_slice(&request[1..context_len + 1]);
+            response.extend_from_slice(bytes::take(request, 1, context_len)?);
             consumed += context_len;
         }
 
-        let ext_len = bytes::to_u16(&request[consumed..]) as usize;
+        let ext_len = bytes::to_u16(bytes::take(request, consumed, 2)?) as usize;
         consumed += 2;
         let _extensions =
-            CertificateRequestExtensions::from_request(&request[consumed..consumed + ext_len]);
+            CertificateRequestExtensions::from_request(bytes::take(request, consumed, ext_len)?);
 
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index f916725..ddb900e 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -51,11 +51,11 @@ impl Certificate {
 
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
         let mut consumed = 1;
-        let cert_request_context_len = buf[0] as usize;
+        let cert_request_context_len = bytes::take(buf, 0, 1)?[0] as usize;
 
         consumed += cert_request_context_len;
 
-        let certs_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
+        let certs_len = bytes::to_u128_be_fill(bytes::take(buf, consumed, 3)?) as usize;
         consumed += 3;
 
         if certs_len == 0 {
@@ -69,11 +69,11 @@ impl Certificate {
 
         #[allow(clippy::never_loop)]
         while certs_len > (consumed - prev_len) {
-            let cert_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
+            let cert_len = bytes::to_u128_be_fill(bytes::take(buf, consumed, 3)?) as usize;
             consumed += 3;
-            let cert = Certificate::from_raw_x509(buf[consumed..consumed + cert_len].to_vec())?;
+            let cert = Certificate::from_raw_x509(bytes::take(buf, consumed, cert_len)?.to_vec())?;
             consumed += cert_len;
-            let cert_ext_len = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let cert_ext_len = bytes::to_u16(bytes::take(buf, consumed, 2)?);
             consumed += 2;
             if cert_ext_len > 0 {
                 log::error!("Certificate has Extensions");
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 473143a..2ca2e84 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -126,7 +126,7 @@ impl<'a> ServerHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
+                let alert_code = bytes::take(record.fraqment.as_ref(), 1, 1)?[0];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ServerHsState::Ready {
@@ -304,7 +304,8 @@ impl<'a> ServerHandshake<'a> {
             || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
         {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                let alert_code = bytes::take(record.fraqment.as_ref(), 1, 1)?[0];
+                return Err(TlsError::GotAlert(alert_code));
             }
             return Err(TlsError::UnexpectedMessage);
         }
@@ -342,8 +343,8 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificate");
 
-        let cert_request_context_len = handshake.fraqment[0] as usize;
-        let cert_request_context = &handshake.fraqment[1..cert_request_context_len + 1];
+        let cert_request_context_len = bytes::take(handshake.fraqment, 0, 1)?[0] as usize;
+        let cert_request_context = bytes::take(handshake.fraqment, 1, cert_request_context_len)?;
 
         if cert_request_context != self.certificate_request_context.as_ref().unwrap() {
             return Err(TlsError::HandshakeFailure);
@@ -357,7 +358,7 @@ impl<'a> ServerHandshake<'a> {
             }
         };
 
-        let cert = certs.pop().unwrap();
+        let cert = certs.pop().ok_or(TlsError::DecodeError)?;
 
         // Validate client cert against the CA
         if self
@@ -396,9 +397,10 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
+        let algo = SignatureScheme::new(bytes::to_u16(bytes::take(handshake.fraqment, 0, 2)?))?;
 
         let mut consumed = 4; // algo and len
+        let sign_len = bytes::to_u16(bytes::take(handshake.fraqment, 2, 2)?) as usize;
 
         match algo {
             SignatureScheme::ecdsa_secp256r1_sha256 => {
@@ -421,10 +423,9 @@ impl<'a> ServerHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
+            _ => return Err(TlsError::IllegalParameter),
         }
 
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
         if sign_len != consumed - 4 {
             self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
             return Ok(());
-- 
2.43.0


From 8c2895289608ec1822f23a5b9d0f5824e7eb630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 22/25] fix: encode ECDSA signatures as minimal DER integers

---
 anothertls/src/crypto/ellipticcurve/signature.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index e903fc5..74aface 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -60,8 +60,9 @@ impl Signature {
 
     pub fn to_der(&self) -> Vec<u8> {
         // https://www.rfc-editor.org/rfc/rfc3279#page-7
-        let s = bytes::ibig_to_32bytes(self.s.clone(), bytes::ByteOrder::Big);
-        let r = bytes::ibig_to_32bytes(self.r.clone(), bytes::ByteOrder::Big);
+        // DER demands the shortest encoding of an integer
+        let s = bytes::ibig_to_vec(self.s.clone(), bytes::ByteOrder::Big);
+        let r = bytes::ibig_to_vec(self.r.clone(), bytes::ByteOrder::Big);
 
         let integer_type = 0x02;
         let sequence_type = 0x30;
@@ -70,7 +71,7 @@ impl Signature {
 
         der.push(integer_type);
         der.push(r.len() as u8);
-        if r[0] >> 7 == 1 {
+        if r.first().map_or(true, |b| b >> 7 == 1) {
             *der.last_mut().unwrap() += 1;
             der.push(00);
         }
@@ -78,7 +79,7 @@ impl Signature {
 
         der.push(integer_type);
         der.push(s.len() as u8);
-        if s[0] >> 7 == 1 {
+        if s.first().map_or(true, |b| b >> 7 == 1) {
             *der.last_mut().unwrap() += 1;
             der.push(00);
         }
-- 
2.43.0


From 3a708462af17d9c5bfc546ac65c68ada6196dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 23/25] fix: check that the client certificate has a key before
 it is sent

---
 anothertls/src/net/client/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 912cc90..a80a38b 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -471,6 +471,12 @@ impl<'a> ClientHandshake<'a> {
     }
 
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
+        if self.config.client_cert.is_some() && self.config.client_key.is_none() {
+            // without the key, the certificate can't be proven
+            log::error!("No client key provided");
+            return Err(TlsError::HandshakeFailure);
+        }
+
         let request = self.certificate_request.as_ref().unwrap();
 
         let context_len = bytes::take(request, 0, 1)?[0] as usize;
-- 
2.43.0


From 83cc926800655844cf064c8dfe9584722999ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 24/25] fix: take the fields of a certificate only from its
 signed part

---
 anothertls/src/utils/x509.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index f78db3f..a4540e6 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -493,6 +493,20 @@ fn parse(
     let (size, der) = der_parse(consumed, data)?;
     let body = &data[*consumed..*consumed + size];
 
+    // Only the first element of a certificate is signed. The fields of the tbs
+    // certificate must come from there, the others are for the signature.
+    let is_signed = res.tbs_certificate_size > 1
+        && start < res.tbs_certificate_start + res.tbs_certificate_size;
+    if !is_signed {
+        match der {
+            EncodedForm::Constructed(DerType::Sequence) => (),
+            EncodedForm::Primitive(
+                DerType::ObjectIdentifier | DerType::BitString | DerType::Integer,
+            ) if res.tbs_certificate_size > 1 => (),
+            _ => return Err(ParseError::TBSBuilder),
+        }
+    }
+
     match der {
         EncodedForm::Constructed(cons) => match cons {
             DerType::Sequence => {
@@ -505,7 +519,13 @@ fn parse(
                 }
                 let size_should = size + *consumed;
                 while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed, depth + 1)?;
+                    parse(
+                        res,
+                        state.clone(),
+                        &data[..size_should],
+                        consumed,
+                        depth + 1,
+                    )?;
                 }
             }
             DerType::ContextSpecific(tag) => {
@@ -534,8 +554,8 @@ fn parse(
             DerType::Integer => {
                 let int = bytes::to_ibig_be(body);
                 *consumed += size;
-                if res.tbs_certificate.serial_number.is_none() {
-                    res.tbs_certificate.serial_number = Some(int);
+                if is_signed {
+                    res.tbs_certificate.serial_number.get_or_insert(int);
                 } else if res.signature.0.is_none() {
                     res.signature.0 = Some(int);
                 } else {
@@ -553,7 +573,11 @@ fn parse(
                 }
                 ParsingState::Init => {
                     let oji = parse_object_identifier(body)?;
-                    if res.tbs_certificate.signature.is_none() {
+                    if !is_signed {
+                        if res.signature_algorithm.is_none() {
+                            res.signature_algorithm = Some(Algorithms::new(&oji)?);
+                        }
+                    } else if res.tbs_certificate.signature.is_none() {
                         res.tbs_certificate.signature =
                             Some(AlgorithmIdentifier::new(Algorithms::new(&oji)?));
                     } else if res
@@ -579,8 +603,6 @@ fn parse(
                             .as_mut()
                             .unwrap()
                             .parameters = Some(oji);
-                    } else if res.signature_algorithm.is_none() {
-                        res.signature_algorithm = Some(Algorithms::new(&oji)?);
                     }
                     *consumed += size;
                 }
@@ -626,7 +648,7 @@ fn parse(
                     }
                 } else {
                     let number_of_unused_bits = data[*consumed];
-                    if number_of_unused_bits != 0 {
+                    if number_of_unused_bits != 0 || !is_signed {
                         return Err(ParseError::NotYetImplemented);
                     }
 
-- 
2.43.0


From 37c52f4bdfb7df6d0836589f293704226ccb437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 25/25] fix: one length in front of all client key shares

---
 anothertls/src/net/extensions/key_share.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index d0c4f12..bd4abf2 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -96,16 +96,24 @@ impl Extension for KeyShare {
         out
     }
     fn client_as_bytes(&self) -> Vec<u8> {
-        let mut out = vec![0x00, ExtensionType::KeyShare as u8, 0x00, 0x00];
+        let mut out = vec![
+            0x00,
+            ExtensionType::KeyShare as u8,
+            0x00,
+            0x00,
+            // Length of the client shares
+            0x00,
+            0x00,
+        ];
         for ext in self.0.iter() {
-            let mut raw = ext.as_bytes();
-            let len = raw.len();
-            out.extend_from_slice(&[(len >> 8) as u8, len as u8]);
-            out.append(&mut raw);
+            out.append(&mut ext.as_bytes());
         }
         let len = out.len() - 4;
         out[2] = (len >> 8) as u8;
         out[3] = len as u8;
+        let shares_len = len - 2;
+        out[4] = (shares_len >> 8) as u8;
+        out[5] = shares_len as u8;
         out
     }
 }
-- 
2.43.0

