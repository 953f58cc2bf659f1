From 2f660d0b5ae727f7053fe43b099a377a472bef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 01/42] fix: return an error when the server's greeting is an
 error packet or malformed

connect() unwrapped the parse result of the greeting, so a server refusing
the connection (too many connections, blocked host, unknown plugin) panicked
the client. Errors sent before the handshake carry no SQL state.
---
 src/connection/init.rs        | 12 +++++++++---
 src/connection/packets/err.rs | 11 +++--------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a023413..4e87ca0 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -4,8 +4,9 @@ use {
         Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
-        packets::{HandshakePacket, HandshakeResponse},
-        ConnectionOptionsTrait, Error, Serialize, StreamRequirements,
+        bitflags::CapabilityFlags,
+        packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
 };
@@ -53,7 +54,12 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
-        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(()).unwrap();
+        if packet.first() == Some(&0xFF) {
+            // the server refused the connection (too many connections, host blocked, ...)
+            let err = ErrPacket::deserialize(&mut ParseBuf(&packet), CapabilityFlags::PROTOCOL_41)?;
+            return Err(err.into());
+        }
+        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
             .parse_server_version()
diff --git a/src/connection/packets/err.rs b/src/connection/packets/err.rs
index b02ce63..e773f8a 100644
--- a/src/connection/packets/err.rs
+++ b/src/connection/packets/err.rs
@@ -83,14 +83,9 @@ impl Deserialize<'_> for ErrorPacket {
         buf: &mut crate::connection::ParseBuf<'_>,
         (code, protocol_41): Self::Ctx,
     ) -> Result<Self, ProtocolError> {
-        let state = if protocol_41 {
-            if buf.checked_eat_u8()? != b'#' {
-                return Err(ProtocolError::invalid_packet(
-                    buf.0.to_vec(),
-                    "Err",
-                    "missing state",
-                ));
-            }
+        // The state is missing if the error is sent before the server knows our capabilities.
+        let state = if protocol_41 && buf.0.first() == Some(&b'#') {
+            buf.skip(1);
             let state = unsafe { *(buf.checked_eat(5)? as *const _ as *const [u8; 5]) };
             std::str::from_utf8(&state)?;
             Some(state)
-- 
2.43.0


From 34ee6cd483e4e36bfe340b6bc11d271028e7c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 02/42] fix: handle authentication data of 128 bytes or more in
 the greeting

The length was converted to i8, which overflowed.
---
 src/connection/packets/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index ec8253c..04c8f9a 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -44,7 +44,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         let capabilities = CapabilityFlags::try_from(capabilities_bits_1 | capabilities_bits_2)?;
 
         if capabilities.contains(CapabilityFlags::SECURE_CONNECTION) {
-            let len = i8::max(13, auth_plugin_data_len as i8 - 8) as usize;
+            let len = u8::max(13, auth_plugin_data_len.saturating_sub(8)) as usize;
             nonce.extend_from_slice(buf.checked_eat(len)?);
         }
 
-- 
2.43.0


From a8bfe7a09a6c565393101647c8691305fd029259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 03/42] fix: do not slice server versions inside of a character

Character positions were used as byte positions, which panicked or cut the
version at the wrong place if it contained non-ASCII characters.
---
 src/connection/packets/handshake.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 04c8f9a..6ea84d4 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -85,10 +85,10 @@ impl<'a> HandshakePacket<'a> {
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.chars().position(|x| !x.is_alphanumeric()) {
-                Some(pos) => {
+            match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
+                Some((pos, separator)) => {
                     let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + 1..];
+                    *string = &string[pos + separator.len_utf8()..];
                     value
                 }
                 None => {
-- 
2.43.0


From 2a6cdc8c18c7b8d2700e20e8fbdd28fc66d50d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 04/42] fix: detect MariaDB servers that send the 5.5.5-
 version prefix

They were reported as version 5.5.5 of MySQL.
---
 src/connection/packets/handshake.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 6ea84d4..05359be 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -84,6 +84,12 @@ impl<'a> HandshakePacket<'a> {
 
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
+        // MariaDB prefixes its version for compatibility with old replication clients.
+        if let Some(version) = server_version.strip_prefix("5.5.5-") {
+            if version.contains("MariaDB") {
+                server_version = version;
+            }
+        }
         fn eat_int(string: &mut &str) -> Option<u16> {
             match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
                 Some((pos, separator)) => {
-- 
2.43.0


From e436090906842a746e1bd9ea81c964a1afbe2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 05/42] fix: read end-of-result packets correctly

The 0xFE header was not skipped, so status, warnings and message were read
from the wrong offsets. Servers without DEPRECATE_EOF use another layout and
also send an EOF packet after column definitions, which was taken for the end
of the rows.
---
 src/connection/packets/ok.rs         | 32 ++++++++++++++++++++++------
 src/connection/prepared_statement.rs |  9 ++++++--
 src/connection/query.rs              | 15 +++++++++++++
 src/connection/result_set.rs         | 10 +++++++--
 4 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 087b086..513ad6e 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -2,7 +2,6 @@ use crate::{
     bitflags::{CapabilityFlags, StatusFlags},
     connection::ParseBuf,
     error::ProtocolError,
-    pool::PoolItem,
 };
 
 #[derive(Debug)]
@@ -78,11 +77,21 @@ impl OkPacket {
         })
     }
 
-    pub fn read_eof(
-        packet: PoolItem<'_, Vec<u8>>,
+    /// Reads the packet that terminates a list of column definitions or rows.
+    pub fn read_terminator(
+        packet: &[u8],
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
-        let mut buf = ParseBuf(&packet);
+        if capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            Self::read_eof(packet, capabilities)
+        } else {
+            Self::read_old_eof(packet, capabilities)
+        }
+    }
+
+    pub fn read_eof(packet: &[u8], capabilities: CapabilityFlags) -> Result<Self, ProtocolError> {
+        let mut buf = ParseBuf(packet);
+        Self::eat_eof_header(&mut buf)?;
         // We need to skip affected_rows and insert_id here
         // because valid content of EOF packet includes
         // packet marker, server status and warning count only.
@@ -116,10 +125,11 @@ impl OkPacket {
     }
 
     pub fn read_old_eof(
-        packet: PoolItem<'_, Vec<u8>>,
+        packet: &[u8],
         _capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
-        let mut buf = ParseBuf(&packet);
+        let mut buf = ParseBuf(packet);
+        Self::eat_eof_header(&mut buf)?;
         // We assume that CLIENT_PROTOCOL_41 was set
         let warnings = buf.checked_eat_u16()?;
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
@@ -133,4 +143,14 @@ impl OkPacket {
             session_state_info: None,
         })
     }
+
+    fn eat_eof_header(buf: &mut ParseBuf<'_>) -> Result<(), ProtocolError> {
+        if buf.checked_eat_u8()? != 0xFE {
+            return Err(ProtocolError::unexpected_packet(
+                buf.0.to_vec(),
+                Some("Eof Packet"),
+            ));
+        }
+        Ok(())
+    }
 }
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index ef018c7..10194e2 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -55,8 +55,13 @@ impl Connection {
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
 
-        for _ in 0..(stmt.params_len as usize + stmt.columns_len as usize) {
-            self.read_packet().await?;
+        for count in [stmt.params_len, stmt.columns_len] {
+            for _ in 0..count {
+                self.read_packet().await?;
+            }
+            if count != 0 {
+                self.read_column_defs_end().await?;
+            }
         }
 
         Ok(PreparedStatement {
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 92fb477..97ff235 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -4,6 +4,7 @@ use {
         Command, Connection, ParseBuf, ResultSet, BUFFER_POOL,
     },
     crate::{
+        bitflags::CapabilityFlags,
         model::FromQueryResult,
         packets::{ColumnDef, OkPacket},
         types::Value,
@@ -45,9 +46,23 @@ impl Connection {
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
             columns.push(def.try_into()?);
         }
+        self.read_column_defs_end().await?;
         Ok(columns)
     }
 
+    /// Without `DEPRECATE_EOF` column definitions are followed by an EOF packet.
+    pub(super) async fn read_column_defs_end(&mut self) -> Result<(), Error> {
+        if !self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            let packet = self.read_packet().await?;
+            OkPacket::read_terminator(&packet, self.data.capabilities)?;
+        }
+        Ok(())
+    }
+
     pub(super) async fn read_settings(&mut self) -> Result<(), Error> {
         if self.options.max_allowed_packet().is_none() {
             let mut res = self
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 76951a4..bd5c3ce 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -79,7 +79,10 @@ where
             packet[0] == 0xFE && packet.len() < 8
         };
         if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
+            self.ok_packet = Some(OkPacket::read_terminator(
+                &packet,
+                self.conn.data.capabilities,
+            )?);
             self.conn.pending_result = false;
             Ok(None)
         } else {
@@ -161,7 +164,10 @@ impl Connection {
                 };
                 if is_last_result_set_packet {
                     self.pending_result = false;
-                    return Ok(Some(OkPacket::read_eof(packet, self.data.capabilities)?));
+                    return Ok(Some(OkPacket::read_terminator(
+                        &packet,
+                        self.data.capabilities,
+                    )?));
                 }
             }
         } else {
-- 
2.43.0


From d0371cb9972de8c9c7e23095b56db080338ab994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 06/42] fix: handle error packets between rows

An error packet in place of a row was parsed as a row, and draining an unread
result waited forever for a terminator that never came. Empty packets caused
an index panic.
---
 src/connection/io.rs         |  13 +++-
 src/connection/query.rs      |   3 +-
 src/connection/result_set.rs | 113 +++++++++++++++++------------------
 3 files changed, 66 insertions(+), 63 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 986ab5b..0bfabd1 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -145,11 +145,20 @@ impl Connection {
     }
 
     pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
-        self.cleanup().await?;
-        self.seq_id = 0;
+        self.start_command().await?;
         self.write_struct(cmd).await
     }
 
+    pub(super) async fn start_command(&mut self) -> Result<(), Error> {
+        match self.cleanup().await {
+            // An error that ends an abandoned result doesn't belong to the new command
+            Ok(_) | Err(Error::Server(_)) => {}
+            Err(err) => return Err(err),
+        }
+        self.seq_id = 0;
+        Ok(())
+    }
+
     pub(crate) async fn decode_response(
         &mut self,
         packet: &[u8],
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 97ff235..69d4a3b 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -34,8 +34,7 @@ impl Connection {
         let body: &mut Vec<u8> = buf.as_mut();
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
-        self.cleanup().await?;
-        self.seq_id = 0;
+        self.start_command().await?;
         self.write_packet(&buf).await
     }
 
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index bd5c3ce..9b95a7e 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -5,8 +5,10 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
+        pool::PoolItem,
         Deserialize, Error, ParseBuf,
     },
     std::marker::PhantomData,
@@ -64,30 +66,18 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() {
+        if self.ok_packet.is_some() || !self.conn.pending_result {
             return Ok(None);
         }
-        let packet = self.conn.read_packet().await?;
-        let is_last_result_set_packet = if self
-            .conn
-            .data
-            .capabilities
-            .contains(CapabilityFlags::DEPRECATE_EOF)
-        {
-            packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-        } else {
-            packet[0] == 0xFE && packet.len() < 8
-        };
-        if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_terminator(
-                &packet,
-                self.conn.data.capabilities,
-            )?);
-            self.conn.pending_result = false;
-            Ok(None)
-        } else {
-            let mut row = P::read_result_set_row(&packet, &self.columns)?;
-            Ok(Some(R::from_mapping_and_row(&self.mapping, &mut row)?))
+        match self.conn.read_row_packet().await? {
+            RowPacket::Row(packet) => {
+                let mut row = P::read_result_set_row(&packet, &self.columns)?;
+                Ok(Some(R::from_mapping_and_row(&self.mapping, &mut row)?))
+            }
+            RowPacket::End(ok_packet) => {
+                self.ok_packet = Some(ok_packet);
+                Ok(None)
+            }
         }
     }
 
@@ -100,9 +90,9 @@ where
     }
 
     pub async fn one(&mut self) -> Result<Option<R>, Error> {
-        let res = self.next().await;
+        let res = self.next().await?;
         while self.next().await?.is_some() {}
-        res
+        Ok(res)
     }
 
     pub fn columns(&self) -> &[Column] {
@@ -125,53 +115,58 @@ where
         (self.columns, self.mapping)
     }
 
-    pub async fn finish(mut self) -> Result<OkPacket, Error> {
-        match self.ok_packet {
-            Some(x) => Ok(x),
-            None => {
-                while self.next().await?.is_some() {}
-                // Safety: `self.next()` only returns `None` if ok packet was read
-                Ok(self.ok_packet.unwrap())
-            }
-        }
+    pub async fn finish(self) -> Result<OkPacket, Error> {
+        self.finish_into_inner().await.map(|(x, _, _)| x)
     }
 
     pub async fn finish_into_inner(mut self) -> Result<(OkPacket, Vec<Column>, R::Mapping), Error> {
+        while self.next().await?.is_some() {}
         match self.ok_packet {
             Some(x) => Ok((x, self.columns, self.mapping)),
-            None => {
-                while self.next().await?.is_some() {}
-                // Safety: `self.next() only returns `None` if ok packet was read
-                Ok((self.ok_packet.unwrap(), self.columns, self.mapping))
-            }
+            // The result ended with an error that was already returned
+            None => Err(ProtocolError::OutOfSync.into()),
         }
     }
 }
 
+enum RowPacket {
+    Row(PoolItem<'static, Vec<u8>>),
+    End(OkPacket),
+}
+
 impl Connection {
+    /// Reads the next packet of the pending result.
+    async fn read_row_packet(&mut self) -> Result<RowPacket, Error> {
+        let packet = self.read_packet().await?;
+        let capabilities = self.data.capabilities;
+        let max_terminator_len = if capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            MAX_PAYLOAD_LEN
+        } else {
+            8
+        };
+        match packet.first() {
+            Some(0xFE) if packet.len() < max_terminator_len => {
+                self.pending_result = false;
+                Ok(RowPacket::End(OkPacket::read_terminator(
+                    &packet,
+                    capabilities,
+                )?))
+            }
+            Some(0xFF) => {
+                self.pending_result = false;
+                Err(ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?.into())
+            }
+            Some(_) => Ok(RowPacket::Row(packet)),
+            None => Err(ProtocolError::eof().into()),
+        }
+    }
+
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
-        if self.pending_result {
-            loop {
-                let packet = self.read_packet().await?;
-                let is_last_result_set_packet = if self
-                    .data
-                    .capabilities
-                    .contains(CapabilityFlags::DEPRECATE_EOF)
-                {
-                    packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-                } else {
-                    packet[0] == 0xFE && packet.len() < 8
-                };
-                if is_last_result_set_packet {
-                    self.pending_result = false;
-                    return Ok(Some(OkPacket::read_terminator(
-                        &packet,
-                        self.data.capabilities,
-                    )?));
-                }
+        while self.pending_result {
+            if let RowPacket::End(ok_packet) = self.read_row_packet().await? {
+                return Ok(Some(ok_packet));
             }
-        } else {
-            Ok(None)
         }
+        Ok(None)
     }
 }
-- 
2.43.0


From 4f0ddb40074917ae450b490b1fa0e74040bf6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 07/42] fix: drain additional results of a command

We announce PS_MULTI_RESULTS, but after the first result of a statement that
returns several, the following ones were taken for the response to the next
command.
---
 src/connection/init.rs       |  4 +-
 src/connection/io.rs         |  6 ++-
 src/connection/mod.rs        | 12 ++++-
 src/connection/result_set.rs | 92 ++++++++++++++++++++++++------------
 4 files changed, 81 insertions(+), 33 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 4e87ca0..bfd09f6 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -1,7 +1,7 @@
 use {
     super::{
         types::AuthPlugin, Command, Connection, ConnectionData, ConnectionOptions, ParseBuf,
-        Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
+        Pending, Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
         bitflags::CapabilityFlags,
@@ -22,7 +22,7 @@ impl Connection {
             seq_id,
             data,
             options,
-            pending_result: false,
+            pending: Pending::Nothing,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index 0bfabd1..1d36636 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -181,6 +181,10 @@ impl Connection {
 
     pub(crate) async fn read_response(&mut self) -> Result<Result<OkPacket, ErrPacket>, Error> {
         let packet = self.read_packet().await?;
-        self.decode_response(&packet).await
+        let res = self.decode_response(&packet).await?;
+        if let Ok(ok_packet) = &res {
+            self.set_pending_after(ok_packet);
+        }
+        Ok(res)
     }
 }
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 318a9ee..b8a91d6 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -52,7 +52,17 @@ pub struct Connection {
     seq_id: u8,
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
-    pending_result: bool,
+    pending: Pending,
+}
+
+/// What the server still has to send for the last command.
+#[derive(Clone, Copy, Eq, PartialEq, Debug)]
+enum Pending {
+    Nothing,
+    /// Remaining rows of a result set
+    Rows,
+    /// Another result
+    Result,
 }
 
 impl Connection {
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 9b95a7e..11dbeca 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -1,10 +1,10 @@
 use {
     super::{
         types::{Column, Protocol},
-        Connection, MAX_PAYLOAD_LEN,
+        Connection, Pending, MAX_PAYLOAD_LEN,
     },
     crate::{
-        bitflags::CapabilityFlags,
+        bitflags::{CapabilityFlags, StatusFlags},
         error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
@@ -32,25 +32,13 @@ where
     R: FromQueryResult,
 {
     pub(super) async fn read(conn: &'a mut Connection) -> Result<Self, Error> {
-        let packet = conn.read_packet().await?;
-        match packet.first() {
-            Some(0x00) => {
+        match conn.read_result().await? {
+            QueryResult::Ok(ok_packet) => {
                 let mut res = ResultSet::new(Vec::new(), conn);
-                res.ok_packet = Some(res.conn.decode_response(&packet).await??);
+                res.ok_packet = Some(ok_packet);
                 Ok(res)
             }
-            Some(0xFB) => unimplemented!("local infile"),
-            Some(0xFF) => Err(ErrPacket::deserialize(
-                &mut ParseBuf(&packet),
-                conn.data().capabilities(),
-            )?
-            .into()),
-            _ => {
-                conn.pending_result = true;
-                let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
-                let columns = conn.read_column_defs(columns_len as usize).await?;
-                Ok(ResultSet::new(columns, conn))
-            }
+            QueryResult::Columns(columns) => Ok(ResultSet::new(columns, conn)),
         }
     }
 
@@ -66,7 +54,7 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() || !self.conn.pending_result {
+        if self.ok_packet.is_some() || self.conn.pending != Pending::Rows {
             return Ok(None);
         }
         match self.conn.read_row_packet().await? {
@@ -129,12 +117,49 @@ where
     }
 }
 
+enum QueryResult {
+    Ok(OkPacket),
+    Columns(Vec<Column>),
+}
+
 enum RowPacket {
     Row(PoolItem<'static, Vec<u8>>),
     End(OkPacket),
 }
 
 impl Connection {
+    /// Reads the response to a query up to its rows.
+    async fn read_result(&mut self) -> Result<QueryResult, Error> {
+        let packet = self.read_packet().await?;
+        match packet.first() {
+            Some(0x00 | 0xFF) => {
+                self.pending = Pending::Nothing;
+                let ok_packet = self.decode_response(&packet).await??;
+                self.set_pending_after(&ok_packet);
+                Ok(QueryResult::Ok(ok_packet))
+            }
+            Some(0xFB) => unimplemented!("local infile"),
+            _ => {
+                self.pending = Pending::Rows;
+                let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
+                let columns = self.read_column_defs(columns_len as usize).await?;
+                Ok(QueryResult::Columns(columns))
+            }
+        }
+    }
+
+    /// A result may be followed by another one.
+    pub(super) fn set_pending_after(&mut self, ok_packet: &OkPacket) {
+        self.pending = if ok_packet
+            .status()
+            .contains(StatusFlags::MORE_RESULTS_EXISTS)
+        {
+            Pending::Result
+        } else {
+            Pending::Nothing
+        };
+    }
+
     /// Reads the next packet of the pending result.
     async fn read_row_packet(&mut self) -> Result<RowPacket, Error> {
         let packet = self.read_packet().await?;
@@ -146,14 +171,13 @@ impl Connection {
         };
         match packet.first() {
             Some(0xFE) if packet.len() < max_terminator_len => {
-                self.pending_result = false;
-                Ok(RowPacket::End(OkPacket::read_terminator(
-                    &packet,
-                    capabilities,
-                )?))
+                self.pending = Pending::Nothing;
+                let ok_packet = OkPacket::read_terminator(&packet, capabilities)?;
+                self.set_pending_after(&ok_packet);
+                Ok(RowPacket::End(ok_packet))
             }
             Some(0xFF) => {
-                self.pending_result = false;
+                self.pending = Pending::Nothing;
                 Err(ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?.into())
             }
             Some(_) => Ok(RowPacket::Row(packet)),
@@ -162,11 +186,21 @@ impl Connection {
     }
 
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
-        while self.pending_result {
-            if let RowPacket::End(ok_packet) = self.read_row_packet().await? {
-                return Ok(Some(ok_packet));
+        let mut last_ok_packet = None;
+        loop {
+            match self.pending {
+                Pending::Nothing => return Ok(last_ok_packet),
+                Pending::Rows => {
+                    if let RowPacket::End(ok_packet) = self.read_row_packet().await? {
+                        last_ok_packet = Some(ok_packet);
+                    }
+                }
+                Pending::Result => {
+                    if let QueryResult::Ok(ok_packet) = self.read_result().await? {
+                        last_ok_packet = Some(ok_packet);
+                    }
+                }
             }
         }
-        Ok(None)
     }
 }
-- 
2.43.0


From c66625ff049c3ba3878e30cba47a0cf4c221bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 08/42] fix: refuse to use a connection whose last exchange was
 not completed

---
 src/connection/io.rs                 | 42 ++++++++++++++++++++++------
 src/connection/mod.rs                |  3 ++
 src/connection/prepared_statement.rs |  9 +++---
 src/connection/result_set.rs         | 30 ++++++++++++--------
 4 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 1d36636..8c672ae 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -1,7 +1,7 @@
 use {
     super::{
         packets::{ErrPacket, OkPacket},
-        Connection, ParseBuf, Serialize, BUFFER_POOL, MAX_PAYLOAD_LEN,
+        Connection, ParseBuf, Pending, Serialize, BUFFER_POOL, MAX_PAYLOAD_LEN,
     },
     crate::{
         error::ProtocolError,
@@ -29,12 +29,12 @@ impl Connection {
         for (i, value) in params.enumerate() {
             if let Value::Bytes(bytes) = value.value() {
                 if bytes.is_empty() {
-                    self.write_command(&StmtSendLongData::new(statement_id, i as u16, &[]))
+                    self.send_long_data_chunk(statement_id, i as u16, &[])
                         .await?;
                 } else {
                     let chunks = bytes.chunks(MAX_PAYLOAD_LEN - 6);
                     for chunk in chunks {
-                        self.write_command(&StmtSendLongData::new(statement_id, i as u16, chunk))
+                        self.send_long_data_chunk(statement_id, i as u16, chunk)
                             .await?;
                     }
                 }
@@ -43,6 +43,19 @@ impl Connection {
         Ok(())
     }
 
+    async fn send_long_data_chunk(
+        &mut self,
+        statement_id: u32,
+        param: u16,
+        chunk: &[u8],
+    ) -> Result<(), Error> {
+        self.write_command(&StmtSendLongData::new(statement_id, param, chunk))
+            .await?;
+        // There is no response to this command
+        self.pending = Pending::Nothing;
+        Ok(())
+    }
+
     async fn read_chunk_to_buf(
         stream: &mut dyn StreamRequirements,
         dst: &mut Vec<u8>,
@@ -156,12 +169,27 @@ impl Connection {
             Err(err) => return Err(err),
         }
         self.seq_id = 0;
+        // The response has to be read completely before the next command
+        self.pending = Pending::Unknown;
         Ok(())
     }
 
-    pub(crate) async fn decode_response(
+    /// Decodes an OK or error packet, which ends the response.
+    pub(super) fn finish_response(
         &mut self,
         packet: &[u8],
+    ) -> Result<Result<OkPacket, ErrPacket>, Error> {
+        let res = self.decode_response(packet)?;
+        match &res {
+            Ok(ok_packet) => self.set_pending_after(ok_packet),
+            Err(_) => self.pending = Pending::Nothing,
+        }
+        Ok(res)
+    }
+
+    pub(crate) fn decode_response(
+        &self,
+        packet: &[u8],
     ) -> Result<Result<OkPacket, ErrPacket>, Error> {
         let capabilities = self.data().capabilities();
         if packet.is_empty() {
@@ -181,10 +209,6 @@ impl Connection {
 
     pub(crate) async fn read_response(&mut self) -> Result<Result<OkPacket, ErrPacket>, Error> {
         let packet = self.read_packet().await?;
-        let res = self.decode_response(&packet).await?;
-        if let Ok(ok_packet) = &res {
-            self.set_pending_after(ok_packet);
-        }
-        Ok(res)
+        self.finish_response(&packet)
     }
 }
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index b8a91d6..d5b5243 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -63,6 +63,9 @@ enum Pending {
     Rows,
     /// Another result
     Result,
+    /// An exchange was not completed (error, timeout, dropped future), so it's not known where
+    /// the next response starts.
+    Unknown,
 }
 
 impl Connection {
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index 10194e2..22586af 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -1,5 +1,5 @@
 use {
-    super::{types::BinaryProtocol, Command, Connection, ParseBuf, ResultSet},
+    super::{types::BinaryProtocol, Command, Connection, ParseBuf, Pending, ResultSet},
     crate::{
         error::{ProtocolError, RuntimeError},
         model::FromQueryResult,
@@ -48,9 +48,9 @@ impl Connection {
         let stmt = match packet.first() {
             Some(0x00) => Stmt::deserialize(&mut ParseBuf(&packet), ())?,
             Some(0xFF) => {
-                return Err(
-                    ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into(),
-                )
+                let err = ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?;
+                self.pending = Pending::Nothing;
+                return Err(err.into());
             }
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
@@ -64,6 +64,7 @@ impl Connection {
             }
         }
 
+        self.pending = Pending::Nothing;
         Ok(PreparedStatement {
             id: stmt.id,
             conn: self,
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 11dbeca..18a3b76 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -54,8 +54,10 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() || self.conn.pending != Pending::Rows {
-            return Ok(None);
+        match self.conn.pending {
+            Pending::Rows if self.ok_packet.is_none() => {}
+            Pending::Unknown => return Err(ProtocolError::OutOfSync.into()),
+            _ => return Ok(None),
         }
         match self.conn.read_row_packet().await? {
             RowPacket::Row(packet) => {
@@ -130,19 +132,18 @@ enum RowPacket {
 impl Connection {
     /// Reads the response to a query up to its rows.
     async fn read_result(&mut self) -> Result<QueryResult, Error> {
+        self.pending = Pending::Unknown;
         let packet = self.read_packet().await?;
         match packet.first() {
-            Some(0x00 | 0xFF) => {
-                self.pending = Pending::Nothing;
-                let ok_packet = self.decode_response(&packet).await??;
-                self.set_pending_after(&ok_packet);
-                Ok(QueryResult::Ok(ok_packet))
-            }
+            Some(0x00 | 0xFF) => self
+                .finish_response(&packet)?
+                .map(QueryResult::Ok)
+                .map_err(Into::into),
             Some(0xFB) => unimplemented!("local infile"),
             _ => {
-                self.pending = Pending::Rows;
                 let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
                 let columns = self.read_column_defs(columns_len as usize).await?;
+                self.pending = Pending::Rows;
                 Ok(QueryResult::Columns(columns))
             }
         }
@@ -162,6 +163,7 @@ impl Connection {
 
     /// Reads the next packet of the pending result.
     async fn read_row_packet(&mut self) -> Result<RowPacket, Error> {
+        self.pending = Pending::Unknown;
         let packet = self.read_packet().await?;
         let capabilities = self.data.capabilities;
         let max_terminator_len = if capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
@@ -171,16 +173,19 @@ impl Connection {
         };
         match packet.first() {
             Some(0xFE) if packet.len() < max_terminator_len => {
-                self.pending = Pending::Nothing;
                 let ok_packet = OkPacket::read_terminator(&packet, capabilities)?;
                 self.set_pending_after(&ok_packet);
                 Ok(RowPacket::End(ok_packet))
             }
             Some(0xFF) => {
+                let err = ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?;
                 self.pending = Pending::Nothing;
-                Err(ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?.into())
+                Err(err.into())
+            }
+            Some(_) => {
+                self.pending = Pending::Rows;
+                Ok(RowPacket::Row(packet))
             }
-            Some(_) => Ok(RowPacket::Row(packet)),
             None => Err(ProtocolError::eof().into()),
         }
     }
@@ -190,6 +195,7 @@ impl Connection {
         loop {
             match self.pending {
                 Pending::Nothing => return Ok(last_ok_packet),
+                Pending::Unknown => return Err(ProtocolError::OutOfSync.into()),
                 Pending::Rows => {
                     if let RowPacket::End(ok_packet) = self.read_row_packet().await? {
                         last_ok_packet = Some(ok_packet);
-- 
2.43.0


From 3a9d52c4d7dd6b4a6d0f2a259eb1c4ed077ba44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 09/42] fix: flush the stream after writing a packet

---
 src/connection/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 8c672ae..ad4175b 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -148,6 +148,8 @@ impl Connection {
             .await??;
             self.seq_id = self.seq_id.wrapping_add(1);
         }
+
+        Timeout::new(self.stream.flush(), self.data.sleep, self.options.timeout()).await??;
         Ok(())
     }
 
-- 
2.43.0


From d8d43d5e0f06be972e3260caaa1fbd9206a73866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 10/42] fix: return an error if the server requests a local
 file

---
 src/connection/result_set.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 18a3b76..ca29eaa 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -139,7 +139,12 @@ impl Connection {
                 .finish_response(&packet)?
                 .map(QueryResult::Ok)
                 .map_err(Into::into),
-            Some(0xFB) => unimplemented!("local infile"),
+            // `LOCAL_FILES` is not requested
+            Some(0xFB) => Err(ProtocolError::unexpected_packet(
+                Vec::clone(&packet),
+                Some("OK, error or columns"),
+            )
+            .into()),
             _ => {
                 let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
                 let columns = self.read_column_defs(columns_len as usize).await?;
-- 
2.43.0


From ed476b1c616d0288d3096e5fb5b7234d39d04c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 11/42] fix: return an error for values of unsupported column
 types

---
 src/types/value/bin.rs  | 4 ++--
 src/types/value/text.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index 89d8461..e9a483c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::ProtocolError,
+        error::{InvalidFlags, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -249,7 +249,7 @@ impl Value {
             ColumnType::Timestamp | ColumnType::Datetime => Self::deserialize_datetime(buf),
             ColumnType::Time => Self::deserialize_time(buf),
             ColumnType::Null => Ok(Self::Null),
-            x => unimplemented!("Unsupported column type {:?}", x),
+            x => Err(InvalidFlags::ColumnType(x as u8).into()),
         }
     }
 }
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7b52306..c0aac13 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{ParseError, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         ParseBuf,
     },
     std::{
@@ -379,7 +379,7 @@ impl Value {
                     }
                     ColumnType::Date => Self::deserialize_date_text(bytes),
                     ColumnType::Time => Self::deserialize_time_text(bytes),
-                    x => unimplemented!("Unsupported column type {:?}", x),
+                    x => Err(InvalidFlags::ColumnType(x as u8).into()),
                 }
             }
         }
-- 
2.43.0


From c6e7859abf47516e3ae1f16c52ffba068be57b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 12/42] fix: do not allocate memory for announced columns

---
 src/connection/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/query.rs b/src/connection/query.rs
index 69d4a3b..25ba2fe 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -39,7 +39,8 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::with_capacity(count);
+        // The count is not trustworthy enough to allocate memory for it
+        let mut columns: Vec<Column> = Vec::new();
         for _ in 0..count {
             let packet = self.read_packet().await?;
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-- 
2.43.0


From c95bf47a7d317b39373a42f95a37faf388566182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 13/42] fix: return an error for malformed fractions of times

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index c0aac13..87a7076 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -215,11 +215,11 @@ impl Value {
         let seconds: u8 =
             btoi::btou(&value[first_colon + 4..first_colon + 6]).map_err(|_| invalid_value())?;
         let mut microseconds: u32 = 0;
-        if value.len() > first_colon + 6 + 1 {
-            if value[first_colon + 6] != b'.' {
+        if value.len() > first_colon + 6 {
+            let buf = &value[first_colon + 6 + 1..];
+            if value[first_colon + 6] != b'.' || buf.is_empty() || buf.len() > 6 {
                 return Err(invalid_value().into());
             }
-            let buf = &value[first_colon + 6 + 1..];
             microseconds = btoi::btou(buf).map_err(|_| invalid_value())?;
             microseconds *= 10u32.pow(6 - buf.len() as u32);
         }
-- 
2.43.0


From 1d3922c5076313715eff03c64c086b9bb976076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 14/42] fix: return an error instead of dividing by an empty
 nonce

---
 src/connection/auth.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 3ee6c11..b8b024d 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -102,6 +102,14 @@ impl Connection {
                                 }
                             }
                         };
+                        if self.data.nonce.is_empty() {
+                            return Err(ProtocolError::invalid_packet(
+                                Vec::new(),
+                                "Auth switch",
+                                "empty nonce",
+                            )
+                            .into());
+                        }
                         for (i, byte) in pass.iter_mut().enumerate() {
                             *byte ^= self.data.nonce[i % self.data.nonce.len()];
                         }
-- 
2.43.0


From 30af58e59186242a1111076dc07c617ad9c5bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 15/42] fix: read long blobs in text results

---
 src/types/value/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 87a7076..92d07e4 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -367,6 +367,7 @@ impl Value {
                     | ColumnType::Blob
                     | ColumnType::TinyBlob
                     | ColumnType::MediumBlob
+                    | ColumnType::LongBlob
                     | ColumnType::Set
                     | ColumnType::Enum
                     | ColumnType::Decimal
-- 
2.43.0


From c7d7450932ecc8cb7349911c1ec7b77012ae2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 16/42] fix: round up the size of RSA moduli

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 4c86d67..23b9629 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -127,7 +127,7 @@ impl PublicKey {
     }
 
     pub fn num_octets(&self) -> usize {
-        (self.modulus().bits() as usize + 6) >> 3
+        (self.modulus().bits() as usize + 7) >> 3
     }
 
     pub fn modulus(&self) -> &BigUint {
-- 
2.43.0


From 2ec9b6333e3dc1c38543db36a1dd75529fb8e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 17/42] fix: check the response that follows a fast
 authentication

---
 src/connection/auth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index b8b024d..864b935 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -60,7 +60,7 @@ impl Connection {
             Some(0x01) => match packet.get(1) {
                 Some(0x03) => {
                     // auth ok
-                    self.read_packet().await?;
+                    self.read_response().await??;
                     Ok(())
                 }
                 Some(0x04) => {
-- 
2.43.0


From 904b0b9177c002d96ae54881eb542017940d7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 18/42] fix: read column definitions with strings of more than
 250 bytes

---
 src/connection/packets/column_def.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connection/packets/column_def.rs b/src/connection/packets/column_def.rs
index 26846b5..01fa44a 100644
--- a/src/connection/packets/column_def.rs
+++ b/src/connection/packets/column_def.rs
@@ -23,17 +23,17 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
     type Ctx = ();
 
     fn deserialize(buf: &mut ParseBuf<'de>, _ctx: Self::Ctx) -> Result<Self, ProtocolError> {
-        if buf.checked_eat_u8_slice()? != b"def" {
+        if buf.checked_eat_lenenc_slice()? != b"def" {
             return Err(ProtocolError::unexpected_packet(
                 buf.0.to_vec(),
                 Some("Column Definition"),
             ));
         }
-        let db = buf.checked_eat_u8_str()?;
-        let table = buf.checked_eat_u8_str()?;
-        let org_table = buf.checked_eat_u8_str()?;
-        let name = buf.checked_eat_u8_str()?;
-        let org_name = buf.checked_eat_u8_str()?;
+        let db = buf.checked_eat_lenenc_str()?;
+        let table = buf.checked_eat_lenenc_str()?;
+        let org_table = buf.checked_eat_lenenc_str()?;
+        let name = buf.checked_eat_lenenc_str()?;
+        let org_name = buf.checked_eat_lenenc_str()?;
         buf.check_len(13)?;
         if buf.eat_u8() != 12 {
             return Err(ProtocolError::eof());
-- 
2.43.0


From 70377a350cdf89279ee665bedfb4b887f030cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 19/42] fix: keep the sign of durations shorter than a second

---
 src/types/value/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 8033391..857a5e9 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -172,7 +172,7 @@ impl From<Duration> for Value {
         let days = hours / 24;
 
         Value::Time(
-            value.num_seconds() < 0,
+            value < Duration::zero(),
             days as u32,
             (hours % 24) as u8,
             (minutes % 60) as u8,
-- 
2.43.0


From d0b203a2ab064a8c06ef9bae03d9af896a5ea29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 20/42] fix: return an error for malformed public keys

---
 src/utils/crypt.rs | 67 +++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 23b9629..8234374 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -17,55 +17,51 @@ mod der {
         num::BigUint,
     };
 
+    fn eat<'a>(der: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+        if der.len() < len {
+            return Err(Error::InvalidPem);
+        }
+        let (head, tail) = der.split_at(len);
+        *der = tail;
+        Ok(head)
+    }
+
     fn eat_len(der: &mut &[u8]) -> Result<usize, Error> {
-        if der[0] & 0x80 == 0x80 {
+        let first = eat(der, 1)?[0];
+        if first & 0x80 == 0x80 {
             const BITS: usize = (usize::BITS / 8) as usize;
-            let len = (der[0] & (!0x80)) as usize;
+            let len = (first & (!0x80)) as usize;
             if len > BITS {
                 return Err(Error::InvalidPem);
             }
             let mut bytes = [0u8; BITS];
-            bytes[BITS - len..].copy_from_slice(&der[1..=len]);
-            *der = &der[len + 1..];
+            bytes[BITS - len..].copy_from_slice(eat(der, len)?);
             Ok(usize::from_be_bytes(bytes))
         } else {
-            let len = der[0] as usize;
-            *der = &der[1..];
-            Ok(len)
+            Ok(first as usize)
         }
     }
 
-    fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
-        if der[0] != 0x02 {
+    fn eat_tagged<'a>(der: &mut &'a [u8], tag: u8) -> Result<&'a [u8], Error> {
+        if eat(der, 1)?[0] != tag {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let uint = BigUint::from_bytes_be(&der[..len]);
-        *der = &der[len..];
-        Ok(uint)
+        eat(der, len)
+    }
+
+    fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
+        let bytes = eat_tagged(der, 0x02)?;
+        Ok(BigUint::from_bytes_be(bytes))
     }
 
     fn eat_sequence<'a>(der: &mut &'a [u8]) -> Result<&'a [u8], Error> {
-        if der[0] != 0x30 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
-        let len = eat_len(der)?;
-        let sequence = &der[..len];
-        *der = &der[len..];
-        Ok(sequence)
+        eat_tagged(der, 0x30)
     }
 
     fn eat_bit_string<'a>(der: &mut &'a [u8]) -> Result<(u8, &'a [u8]), Error> {
-        if der[0] != 0x03 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
-        let len = eat_len(der)?;
-        let unused_bits = der[0];
-        let bit_string = &der[1..len];
-        *der = &der[len..];
+        let mut bit_string = eat_tagged(der, 0x03)?;
+        let unused_bits = eat(&mut bit_string, 1)?[0];
         Ok((unused_bits, bit_string))
     }
 
@@ -98,10 +94,15 @@ mod der {
                 .cloned()
                 .collect();
 
-            let (body, is_pkcs_1) = if pem.starts_with(PKCS1.0) && pem.ends_with(PKCS1.1) {
-                (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
-            } else if pem.starts_with(PKCS8.0) && pem.ends_with(PKCS8.1) {
-                (&pem[PKCS8.0.len()..pem.len() - PKCS8.1.len()], false)
+            let strip = |(begin, end): (&[u8], &[u8])| {
+                let body = pem.strip_prefix(begin)?.strip_suffix(end)?;
+                Some(body.to_vec())
+            };
+
+            let (body, is_pkcs_1) = if let Some(body) = strip(PKCS1) {
+                (body, true)
+            } else if let Some(body) = strip(PKCS8) {
+                (body, false)
             } else {
                 return Err(Error::InvalidPem);
             };
-- 
2.43.0


From dba8e338de1c7886d22502ed57ed711a110fcf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:41 +0000
Subject: [PATCH 21/42] fix: do not panic on hex strings shorter than their
 prefix

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index aeff5f2..0d8d59d 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -18,7 +18,7 @@ impl Hex {
 
     pub fn try_from_hex<T: AsRef<[u8]>>(data: T) -> Result<Self, hex::FromHexError> {
         let mut data: &[u8] = data.as_ref();
-        if data[..2] == *b"0x" || data[..2] == *b"0X" {
+        if data.starts_with(b"0x") || data.starts_with(b"0X") {
             data = &data[2..];
         }
         hex::decode(data).map(Self)
-- 
2.43.0


From 8a335a48c6f2cfcde4ee52de60d0475b27ad544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 22/42] fix: deserialize hex from strings that cannot be
 borrowed

---
 src/types/hex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index 0d8d59d..3c93aeb 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -74,8 +74,8 @@ impl<'de> serde::Deserialize<'de> for Hex {
     where
         D: serde::Deserializer<'de>,
     {
-        let hex = <&str as serde::Deserialize>::deserialize(deserializer)?;
-        <Hex as std::str::FromStr>::from_str(hex).map_err(<D::Error as serde::de::Error>::custom)
+        let hex = <String as serde::Deserialize>::deserialize(deserializer)?;
+        <Hex as std::str::FromStr>::from_str(&hex).map_err(<D::Error as serde::de::Error>::custom)
     }
 }
 
-- 
2.43.0


From 80ad915b339088cc8da36d8623f5865744006c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 23/42] fix: display empty bytes as a valid literal

---
 src/types/value/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 92d07e4..dad8174 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -165,6 +165,8 @@ impl fmt::Display for Value {
             Value::ULong(x) => x.fmt(f),
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
+            // `0x` alone is an identifier
+            Value::Bytes(x) if x.is_empty() => f.write_str("X''"),
             Value::Bytes(x) => {
                 f.write_str("0x")?;
                 hex::encode(x).fmt(f)
-- 
2.43.0


From d826772fed3fe9e42bb8f94416e788b9dc41d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 24/42] fix: display very large and very small floats with an
 exponent

---
 src/types/value/text.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index dad8174..fec1c5a 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -163,7 +163,14 @@ impl fmt::Display for Value {
             Value::UShort(x) => x.fmt(f),
             Value::UInt(x) => x.fmt(f),
             Value::ULong(x) => x.fmt(f),
+            // Literals without exponent are decimals, which are limited to 65 digits
+            Value::Float(x) if *x != 0.0 && !(1e-5..1e16).contains(&x.abs()) => {
+                fmt::LowerExp::fmt(x, f)
+            }
             Value::Float(x) => x.fmt(f),
+            Value::Double(x) if *x != 0.0 && !(1e-5..1e16).contains(&x.abs()) => {
+                fmt::LowerExp::fmt(x, f)
+            }
             Value::Double(x) => x.fmt(f),
             // `0x` alone is an identifier
             Value::Bytes(x) if x.is_empty() => f.write_str("X''"),
-- 
2.43.0


From cae9c1f7741d09aaa7ecc0737f0caafe3ee29c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:48 +0000
Subject: [PATCH 25/42] fix: display times of any number of days

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index fec1c5a..f8f2e15 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -142,7 +142,7 @@ impl fmt::Display for Value {
         }
         fn format_time(
             f: &mut fmt::Formatter<'_>,
-            hours: &u32,
+            hours: &u64,
             minutes: &u8,
             seconds: &u8,
             microseconds: &u32,
@@ -190,7 +190,7 @@ impl fmt::Display for Value {
                 }
                 format_time(
                     f,
-                    &(*days * 24 + *hours as u32),
+                    &(*days as u64 * 24 + *hours as u64),
                     minutes,
                     seconds,
                     microseconds,
@@ -201,7 +201,7 @@ impl fmt::Display for Value {
                 write!(f, "\"")?;
                 format_date(f, year, month, day)?;
                 write!(f, " ")?;
-                format_time(f, &(*hour as u32), minute, second, microsecond)?;
+                format_time(f, &(*hour as u64), minute, second, microsecond)?;
                 write!(f, "\"")
             }
         }
-- 
2.43.0


From c4f658fbf5e9c77801cc4358a56697ee9a9741bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 26/42] fix: remove the space of identifiers that consist of
 whitespace only

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index f8f2e15..b6c5349 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -89,15 +89,15 @@ impl fmt::Display for IdentifierEscape<'_> {
             ('\u{0001}'..='\u{FFFF}').contains(&char)
         }
 
-        let mut last_char = 0;
+        let mut len = 0;
         for (i, char) in self.0.chars().enumerate() {
             if !char.is_whitespace() && char_valid(char) {
-                last_char = i;
+                len = i + 1;
             }
         }
 
         for (i, char) in self.0.chars().enumerate() {
-            if i <= last_char && char_valid(char) {
+            if i < len && char_valid(char) {
                 if char == '`' {
                     f.write_char('`')?;
                 }
-- 
2.43.0


From 949353b1c9436d8d7ee37b787f0f88fa68d881fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 27/42] fix: accept messages up to the length that OAEP allows

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 8234374..b9e05b8 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -214,7 +214,7 @@ impl<R: Rng + CryptoRng> OaepPadding<R> {
     /// ```
     pub fn pad(&mut self, data: &[u8], n: usize) -> Result<Vec<u8>, Error> {
         let seed_len = Self::HASH_LEN;
-        if n < 1 + seed_len + Self::HASH_LEN + 2 + 1 + data.len() {
+        if n < 1 + seed_len + Self::HASH_LEN + 1 + data.len() {
             return Err(Error::MessageTooLong);
         }
 
-- 
2.43.0


From 8cc5666e83b7bceb0fb9ce70875e5fbe08d9fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 28/42] fix: wake the tasks that wait for an item of the pool

---
 src/pool/async_pool.rs | 71 +++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 36 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 458dd43..97d0e97 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -21,6 +21,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N
     fn put(&self, value: T) {
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
+        self.wake();
     }
 }
 
@@ -33,6 +34,17 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             wakers: SegQueue::new(),
         }
     }
+
+    /// Wakes everyone who waits for an item.
+    ///
+    /// It is not enough to wake one of them, as that one may have lost interest.
+    fn wake(&self) {
+        for _ in 0..self.wakers.len() {
+            if let Some(waker) = self.wakers.pop() {
+                waker.wake();
+            }
+        }
+    }
 }
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<T, C, N> {
@@ -40,7 +52,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
         Box::pin(PoolTake {
             pool: self,
             add: None,
-            waker_added: false,
         })
     }
 }
@@ -50,7 +61,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
-    waker_added: bool,
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
@@ -64,6 +74,24 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
             })
         })
     }
+
+    /// Takes an item or starts to create one, returns `None` if neither is possible.
+    fn poll_take(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
+        let pool = self.pool;
+        if let Some(item) = pool.pool.pop() {
+            return Some(Poll::Ready(Ok(PoolItem {
+                item: ManuallyDrop::new(item),
+                pool,
+            })));
+        }
+        pool.items
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| {
+                (x < N).then_some(x + 1)
+            })
+            .ok()?;
+        self.add = Some(Box::pin(T::new(&pool.ctx)));
+        self.poll_add(cx)
+    }
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C, N> {
@@ -71,43 +99,14 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
 
     fn poll(self: std::pin::Pin<&mut Self>, cx: &mut task::Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
-        let pool = this.pool;
         if let Some(res) = this.poll_add(cx) {
             return res;
         }
-        match pool.pool.pop() {
-            Some(item) => Poll::Ready(Ok(PoolItem {
-                item: ManuallyDrop::new(item),
-                pool,
-            })),
-            None => {
-                let item_count = pool.items.load(Ordering::Relaxed);
-                if item_count < N {
-                    if pool
-                        .items
-                        .compare_exchange(
-                            item_count,
-                            item_count + 1,
-                            Ordering::Relaxed,
-                            Ordering::Relaxed,
-                        )
-                        .is_ok()
-                    {
-                        this.add = Some(Box::pin(T::new(&pool.ctx)));
-                        if let Some(res) = this.poll_add(cx) {
-                            return res;
-                        }
-                    } else {
-                        cx.waker().wake_by_ref();
-                    }
-                } else if !this.waker_added {
-                    this.waker_added = true;
-                    pool.wakers.push(cx.waker().clone());
-                    // wake for the rare case that an item was added after we tried to get one but before we registered the waker
-                    cx.waker().wake_by_ref();
-                }
-                Poll::Pending
-            }
+        if let Some(res) = this.poll_take(cx) {
+            return res;
         }
+        this.pool.wakers.push(cx.waker().clone());
+        // an item may have been added after we tried to get one but before we registered the waker
+        this.poll_take(cx).unwrap_or(Poll::Pending)
     }
 }
-- 
2.43.0


From aaf3daa4b653056f851190367b784b776a546a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 29/42] fix: free the slot of an item whose creation failed or
 was cancelled

---
 src/pool/async_pool.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 97d0e97..c765f8e 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -35,6 +35,12 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
         }
     }
 
+    /// Makes room for another item.
+    fn release_slot(&self) {
+        self.items.fetch_sub(1, Ordering::SeqCst);
+        self.wake();
+    }
+
     /// Wakes everyone who waits for an item.
     ///
     /// It is not enough to wake one of them, as that one may have lost interest.
@@ -65,14 +71,18 @@ pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
     fn poll_add(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
-        self.add.as_mut().map(|add| {
-            add.as_mut().poll(cx).map(|res| {
-                res.map(|item| PoolItem {
-                    item: ManuallyDrop::new(item),
-                    pool: self.pool,
-                })
-            })
-        })
+        let res = match self.add.as_mut()?.as_mut().poll(cx) {
+            Poll::Ready(res) => res,
+            Poll::Pending => return Some(Poll::Pending),
+        };
+        self.add = None;
+        if res.is_err() {
+            self.pool.release_slot();
+        }
+        Some(Poll::Ready(res.map(|item| PoolItem {
+            item: ManuallyDrop::new(item),
+            pool: self.pool,
+        })))
     }
 
     /// Takes an item or starts to create one, returns `None` if neither is possible.
@@ -110,3 +120,11 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
         this.poll_take(cx).unwrap_or(Poll::Pending)
     }
 }
+
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for PoolTake<'_, T, C, N> {
+    fn drop(&mut self) {
+        if self.add.take().is_some() {
+            self.pool.release_slot();
+        }
+    }
+}
-- 
2.43.0


From c8f04a995c6d56c850231d30595866a94419080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 30/42] fix: do not put unusable connections back into the pool

---
 src/connection/mod.rs  |  4 ++++
 src/pool/async_pool.rs | 11 ++++++++---
 src/pool/mod.rs        |  5 +++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index d5b5243..3ee76db 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -118,6 +118,10 @@ impl<T: Stream> AsyncPoolContent<T> for Connection {
     ) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Self, Self::Error>> + 'a>> {
         Box::pin(Self::connect(Arc::clone(ctx)))
     }
+
+    fn is_usable(&self) -> bool {
+        self.pending != Pending::Unknown
+    }
 }
 
 #[cfg(feature = "tcpstream")]
diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index c765f8e..bcc9396 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -19,9 +19,14 @@ pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N> {
     fn put(&self, value: T) {
-        // As we won't create too many items, the pool won't be full
-        let _ = self.pool.push(value);
-        self.wake();
+        if value.is_usable() {
+            // As we won't create too many items, the pool won't be full
+            let _ = self.pool.push(value);
+            self.wake();
+        } else {
+            drop(value);
+            self.release_slot();
+        }
     }
 }
 
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 69048a8..0fac8d8 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -21,6 +21,11 @@ pub trait AsyncPoolContent<T>: AsyncPoolContentError + Sized + 'static {
     type Ctx: fmt::Debug;
     fn new<'a>(ctx: &'a Self::Ctx)
         -> Pin<Box<dyn Future<Output = Result<Self, Self::Error>> + 'a>>;
+
+    /// Items that are not usable any more when they are put back will be replaced by new ones.
+    fn is_usable(&self) -> bool {
+        true
+    }
 }
 
 pub trait AsyncPoolContentError: 'static {
-- 
2.43.0


From ddf132053f5cb96f66d704b4e892b1e6c626d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 31/42] fix: do not mix up fields of models whose references
 are named like tables

---
 macros/src/lib.rs              |  4 ++--
 src/model/from_query_result.rs | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf4aa48..0522fd9 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -147,9 +147,9 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             set_child_mapping = quote! {
                 #set_child_mapping
                 #maybe_else if table == #name {
-                    self.#ident.set_mapping(column, "", index);
+                    mysql_connector::model::FromQueryResultMapping::set_mapping_inner(&mut self.#ident, column, "", index);
                 } else if table.starts_with(#name_with_point) {
-                    self.#ident.set_mapping(column, &table[#len..], index);
+                    mysql_connector::model::FromQueryResultMapping::set_mapping_inner(&mut self.#ident, column, &table[#len..], index);
                 }
             };
         }
diff --git a/src/model/from_query_result.rs b/src/model/from_query_result.rs
index 36dea75..c5168b2 100644
--- a/src/model/from_query_result.rs
+++ b/src/model/from_query_result.rs
@@ -4,13 +4,15 @@ pub trait FromQueryResultMapping<ModelData: super::ModelData>: Default {
     fn set_mapping_inner(&mut self, column: &Column, table: &str, index: usize);
 
     fn set_mapping(&mut self, column: &Column, table: &str, index: usize) {
-        self.set_mapping_inner(
-            column,
+        let table = if table == ModelData::TABLE {
+            // a column of this model, even if it has a reference of the same name
+            ""
+        } else {
             table
                 .strip_prefix(ModelData::TABLE_WITH_POINT)
-                .unwrap_or(table),
-            index,
-        )
+                .unwrap_or(table)
+        };
+        self.set_mapping_inner(column, table, index)
     }
 
     fn from_columns(columns: &[Column]) -> Self {
-- 
2.43.0


From 7d3319b7852fe2c5b20cd3986f1b07480dfad553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 32/42] fix: use the names of raw identifiers without prefix as
 columns

---
 macros/src/lib.rs   | 74 ++++++++++++++++++++++++++++-----------------
 macros/src/parse.rs | 13 ++++++--
 2 files changed, 57 insertions(+), 30 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0522fd9..bd59248 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -8,7 +8,7 @@ use {
     proc_macro2::Span,
     quote::{format_ident, quote},
     std::fmt,
-    syn::{parse_macro_input, DeriveInput, Ident, LitStr, Type},
+    syn::{ext::IdentExt, parse_macro_input, DeriveInput, Ident, LitStr, Type},
 };
 
 struct Error(Option<syn::Error>);
@@ -88,6 +88,10 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
         .filter(TypeComplexity::simple_ref)
         .map(|x| &x.ident)
         .collect();
+    let simple_field_columns = fields
+        .iter()
+        .filter(TypeComplexity::simple_ref)
+        .map(NamedField::column);
     let mut struct_field_names = Vec::new();
     let mut set_struct_fields = proc_macro2::TokenStream::new();
     for field in &fields {
@@ -126,20 +130,13 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
     let set_mapping = {
         let mut set_child_mapping = proc_macro2::TokenStream::new();
 
-        for (
-            i,
-            NamedField {
-                complexity: _,
-                //vis: _,
-                ident,
-                ty: _,
-            },
-        ) in fields
+        for (i, field) in fields
             .iter()
             .filter(TypeComplexity::complex_ref)
             .enumerate()
         {
-            let name = ident.to_string();
+            let ident = &field.ident;
+            let name = field.column();
             let name_with_point = name.clone() + ".";
             let len = name_with_point.as_bytes().len();
             let maybe_else = if i == 0 { None } else { Some(quote!(else)) };
@@ -156,7 +153,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
 
         let set_own_mapping = quote! {
             *match column.org_name() {
-                #(stringify!(#simple_field_names) => &mut self.#simple_field_names,)*
+                #(#simple_field_columns => &mut self.#simple_field_names,)*
                 #(stringify!(#struct_field_names) => &mut self.#struct_field_names,)*
                 _ => return,
             } = Some(index);
@@ -217,7 +214,16 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
     let primary = match attr_span {
         Some(span) => match attrs.get("primary") {
             Some(primary) => match attrs.get("auto_increment") {
-                Some(ai) => Some((format_ident!("{primary}"), ai == "true")),
+                Some(ai) => {
+                    let ident = match fields
+                        .iter()
+                        .find(|x| x.ident == primary || x.column() == *primary)
+                    {
+                        Some(field) => field.ident.clone(),
+                        None => format_ident!("{primary}"),
+                    };
+                    Some((ident, ai == "true"))
+                }
                 None => {
                     error.add(
                         span,
@@ -261,6 +267,14 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
         .filter(TypeComplexity::simple_ref)
         .map(|x| &x.ident)
         .collect();
+    let simple_field_columns = fields
+        .iter()
+        .filter(TypeComplexity::simple_ref)
+        .map(NamedField::column);
+    let complex_field_columns = fields
+        .iter()
+        .filter(TypeComplexity::complex_ref)
+        .map(NamedField::column);
     let (simple_field_names_without_primary, set_primary) = primary
         .as_ref()
         .and_then(|(primary, auto_increment)| {
@@ -330,9 +344,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             impl mysql_connector::model::ActiveModel<#ident> for #model_ident {
                 async fn into_values(self, conn: &mut mysql_connector::Connection) -> Result<Vec<mysql_connector::model::NamedValue>, mysql_connector::error::Error> {
                     let mut values = Vec::new();
-                    #(self.#simple_field_names.insert_named_value(&mut values, stringify!(#simple_field_names))?;)*
+                    #(self.#simple_field_names.insert_named_value(&mut values, #simple_field_columns)?;)*
                     #insert_struct_fields
-                    #(self.#complex_field_names.insert_named_value(&mut values, stringify!(#complex_field_names), conn).await?;)*
+                    #(self.#complex_field_names.insert_named_value(&mut values, #complex_field_columns, conn).await?;)*
                     Ok(values)
                 }
 
@@ -372,21 +386,23 @@ pub fn derive_into_query(input: TokenStream) -> TokenStream {
     let mut simple_field_names: Vec<LitStr> = fields
         .iter()
         .filter(TypeComplexity::simple_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| LitStr::new(&x.column(), x.ident.span()))
         .collect();
     for field in &fields {
         if let TypeComplexity::Struct(r#struct) = &field.complexity {
-            let mapping_names = r#struct
-                .fields
-                .iter()
-                .map(|x| LitStr::new(&format!("{}_{}", field.ident, x.1), field.ident.span()));
+            let mapping_names = r#struct.fields.iter().map(|x| {
+                LitStr::new(
+                    &format!("{}_{}", field.column(), x.1.unraw()),
+                    field.ident.span(),
+                )
+            });
             simple_field_names.extend(mapping_names);
         }
     }
     let complex_field_names: &Vec<LitStr> = &fields
         .iter()
         .filter(TypeComplexity::complex_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| LitStr::new(&x.column(), x.ident.span()))
         .collect();
     let complex_field_types: &Vec<&Type> = &fields
         .iter()
@@ -419,12 +435,15 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     let (attr_span, attrs, types) = parse_attr(&mut error, input.ident.span(), &input.attrs);
     let fields = parse_fields(&mut error, input.ident.span(), &input.data, &types);
 
-    let mut primary_type = None;
+    let mut primary_field = None;
     let mut auto_increment = false;
     if let Some(span) = attr_span {
         match attrs.get("primary") {
-            Some(primary) => match fields.iter().find(|field| field.ident == primary) {
-                Some(field) => primary_type = Some(&field.ty),
+            Some(primary) => match fields
+                .iter()
+                .find(|field| field.ident == primary || field.column() == *primary)
+            {
+                Some(field) => primary_field = Some(field),
                 None => error.add(span, "primary not found in struct"),
             },
             None => error.add(
@@ -445,9 +464,10 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
         return error.into_compile_error().into();
     }
 
-    let primary = attrs.get("primary").unwrap();
-    let primary_type = primary_type.unwrap();
-    let primary_ident = Ident::new(primary, Span::call_site());
+    let primary_field = primary_field.unwrap();
+    let primary = primary_field.column();
+    let primary_type = &primary_field.ty;
+    let primary_ident = &primary_field.ident;
     let ident = &input.ident;
 
     quote! {
diff --git a/macros/src/parse.rs b/macros/src/parse.rs
index a0d70c6..d83cda1 100644
--- a/macros/src/parse.rs
+++ b/macros/src/parse.rs
@@ -3,9 +3,9 @@ use {
     proc_macro2::Span,
     std::collections::HashMap,
     syn::{
-        punctuated::Punctuated, spanned::Spanned, token, Attribute, Data, Expr, ExprLit,
-        GenericArgument, Ident, Lit, Member, MetaNameValue, Path, PathArguments, PathSegment,
-        Token, Type, TypePath,
+        ext::IdentExt, punctuated::Punctuated, spanned::Spanned, token, Attribute, Data, Expr,
+        ExprLit, GenericArgument, Ident, Lit, Member, MetaNameValue, Path, PathArguments,
+        PathSegment, Token, Type, TypePath,
     },
 };
 
@@ -16,6 +16,13 @@ pub struct NamedField {
     pub ty: Type,
 }
 
+impl NamedField {
+    /// Name of the column, which does not include the `r#` of raw identifiers.
+    pub fn column(&self) -> String {
+        self.ident.unraw().to_string()
+    }
+}
+
 pub fn parse_fields(
     error: &mut Error,
     span: Span,
-- 
2.43.0


From e4f4b53a1d1be6c71b6cca472b8d153192229181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 33/42] fix: remember what was migrated only after it was
 recorded

---
 src/migrator/migrator_inner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 4e855ac..5a4ce4a 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -108,12 +108,12 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
                         }
                     }
                 }
@@ -132,8 +132,8 @@ impl<'a> Migrator<'a> {
                         migration.name(),
                     ) {
                         migration.down(self.pool).await?;
-                        applied.swap_remove(index);
                         self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        applied.swap_remove(index);
                     }
                 }
             }
@@ -154,8 +154,8 @@ impl<'a> Migrator<'a> {
                     Self::get_applied(&mut self.applied, &migration_list.version, migration.name())
                 {
                     migration.down(self.pool).await?;
-                    applied.swap_remove(index);
                     self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    applied.swap_remove(index);
                     return Ok(true);
                 }
             }
-- 
2.43.0


From aa571896915cc918a7c1b18c4efa55ec2476fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:10 +0000
Subject: [PATCH 34/42] fix: allow to record a migration again if the response
 got lost

---
 src/migrator/migrator_inner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 5a4ce4a..908aca1 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -108,7 +108,7 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\") on duplicate key update `name` = `name`", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
-- 
2.43.0


From 9605eff3820ec622714b8d07a7ad0523adf64be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 35/42] fix: escape the names of migrations

---
 src/migrator/migrator_inner.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 908aca1..4ceda0e 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -1,7 +1,10 @@
 use {
     super::{MigrationList, Version},
     crate::{
-        error::Error, migrator::model::MigrationModel, pool::AsyncPoolTrait, types::Value,
+        error::Error,
+        migrator::model::MigrationModel,
+        pool::AsyncPoolTrait,
+        types::{StringEscape, Value},
         Connection,
     },
     std::collections::HashMap,
@@ -108,7 +111,7 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\") on duplicate key update `name` = `name`", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {}) on duplicate key update `name` = `name`", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
@@ -132,7 +135,7 @@ impl<'a> Migrator<'a> {
                         migration.name(),
                     ) {
                         migration.down(self.pool).await?;
-                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         applied.swap_remove(index);
                     }
                 }
@@ -154,7 +157,7 @@ impl<'a> Migrator<'a> {
                     Self::get_applied(&mut self.applied, &migration_list.version, migration.name())
                 {
                     migration.down(self.pool).await?;
-                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     applied.swap_remove(index);
                     return Ok(true);
                 }
-- 
2.43.0


From 62a6e9a6910260242f9538509cb8e124bf16c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:52 +0000
Subject: [PATCH 36/42] model checking hook: export OaepPadding with --cfg
 mysql_connector_mc="crypt"

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c4996d0..3f80605 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![cfg_attr(doc, feature(doc_cfg))]
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]
 
 pub mod connection;
 pub mod error;
@@ -15,6 +16,10 @@ pub use {connection::*, error::Error, migrator::*, mysql_connector_macros as mac
 #[cfg_attr(doc, doc(cfg(feature = "caching-sha2-password")))]
 pub use utils::crypt::PublicKey;
 
+/// For model checking only.
+#[cfg(all(feature = "caching-sha2-password", mysql_connector_mc = "crypt"))]
+pub use utils::crypt::OaepPadding;
+
 #[cfg(feature = "tcpstream")]
 #[cfg_attr(doc, doc(cfg(feature = "tcpstream")))]
 pub use tokio::net::TcpStream;
-- 
2.43.0


From 05affea796c71c7a3393a21a9d6e36649f36f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:57 +0000
Subject: [PATCH 37/42] fix: recognize the version of MariaDB Enterprise

---
 src/connection/packets/handshake.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 05359be..e92724f 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -110,7 +110,8 @@ impl<'a> HandshakePacket<'a> {
             eat_int(&mut server_version)?,
             eat_int(&mut server_version)?,
         );
-        Some((version, server_version.starts_with("MariaDB")))
+        // MariaDB Enterprise has a release number in between: `10.6.9-5-MariaDB-enterprise`
+        Some((version, server_version.contains("MariaDB")))
     }
 
     pub fn connection_id(&self) -> u32 {
-- 
2.43.0


From 6bf48cd92840523f0749f93993214bf07e87be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 38/42] fix: columns of structs in raw identifier fields when
 inserting

---
 macros/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index bd59248..44212c0 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -246,16 +246,17 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
         if let TypeComplexity::Struct(r#struct) = &field.complexity {
             let ident = &field.ident;
             let idents = r#struct.fields.iter().map(|(x, _)| x);
+            let column = field.column();
             let names = r#struct
                 .fields
                 .iter()
-                .map(|(_, x)| format_ident!("{ident}_{x}"));
+                .map(|(_, x)| format!("{column}_{}", x.unraw()));
             insert_struct_fields = quote! {
                 #insert_struct_fields
                 match self.#ident {
                     mysql_connector::model::ActiveValue::Unset =>(),
                     mysql_connector::model::ActiveValue::Set(value) => {
-                        #(values.push(mysql_connector::model::NamedValue(stringify!(#names), value.#idents.try_into().map_err(Into::<mysql_connector::error::SerializeError>::into)?));)*
+                        #(values.push(mysql_connector::model::NamedValue(#names, value.#idents.try_into().map_err(Into::<mysql_connector::error::SerializeError>::into)?));)*
                     }
                 }
             };
-- 
2.43.0


From c2326188240f022dc34ba84654aecfe7c97f73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 39/42] hook: shared operations of the pools through a
 scheduler under cfg(mysql_connector_mc)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3f80605..46fe2a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,10 @@
 #![doc = include_str!("../README.md")]
 #![allow(unexpected_cfgs)]
 
+/// For model checking only: what threads share goes through a scheduler.
+#[cfg(mysql_connector_mc = "pool")]
+extern crate crossbeam as std;
+
 pub mod connection;
 pub mod error;
 mod migrator;
-- 
2.43.0


From 242191e73caf0e0ea26ee852553e3030422f0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:39 +0000
Subject: [PATCH 40/42] fix: drop what is left in vectors returned to a pool

---
 src/pool/sync_pool.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pool/sync_pool.rs b/src/pool/sync_pool.rs
index baa3d0a..e142ca8 100644
--- a/src/pool/sync_pool.rs
+++ b/src/pool/sync_pool.rs
@@ -54,9 +54,7 @@ impl<T> SyncPoolContent for Vec<T> {
     }
 
     fn reset(&mut self, ctx: &Self::Ctx) {
-        unsafe {
-            self.set_len(0);
-        }
+        self.clear();
         self.shrink_to(ctx.size_cap);
     }
 }
-- 
2.43.0


From acc657f3981eca45a1d19c08425980349accc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:40 +0000
Subject: [PATCH 41/42] fix: ignore unknown plugins of the handshake if a
 plugin is configured

---
 src/connection/init.rs              |  6 +++++-
 src/connection/packets/handshake.rs | 15 +++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index bfd09f6..d5fcfaf 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -64,7 +64,11 @@ impl Connection {
         let (version, is_mariadb) = handshake
             .parse_server_version()
             .unwrap_or(((0, 0, 0), false));
-        let auth_plugin = handshake.auth_plugin().unwrap_or(AuthPlugin::Native);
+        let auth_plugin = match (handshake.auth_plugin(), options.auth_plugin()) {
+            // the plugin of the handshake is ignored
+            (Err(_), Some(plugin)) => plugin,
+            (plugin, _) => plugin?.unwrap_or(AuthPlugin::Native),
+        };
 
         Ok(ConnectionData {
             id: handshake.connection_id(),
diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index e92724f..4423225 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -18,7 +18,8 @@ pub struct HandshakePacket<'a> {
     status_flags: StatusFlags,
     auth_plugin_data_len: u8,
     nonce: Vec<u8>,
-    auth_plugin: Option<AuthPlugin>,
+    /// The name if the plugin is unknown
+    auth_plugin: Result<Option<AuthPlugin>, String>,
 }
 
 impl<'de> Deserialize<'de> for HandshakePacket<'de> {
@@ -53,9 +54,13 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         nonce.resize(20, 0);
 
         let auth_plugin = if capabilities.contains(CapabilityFlags::PLUGIN_AUTH) {
-            Some(AuthPlugin::from_bytes(buf.eat_all())?)
+            match AuthPlugin::from_bytes(buf.eat_all()) {
+                Ok(plugin) => Ok(Some(plugin)),
+                Err(ProtocolError::UnknownAuthPlugin(name)) => Err(name),
+                Err(err) => return Err(err),
+            }
         } else {
-            None
+            Ok(None)
         };
 
         Ok(Self {
@@ -138,7 +143,9 @@ impl<'a> HandshakePacket<'a> {
         self.status_flags
     }
 
-    pub fn auth_plugin(&self) -> Option<AuthPlugin> {
+    pub fn auth_plugin(&self) -> Result<Option<AuthPlugin>, ProtocolError> {
         self.auth_plugin
+            .clone()
+            .map_err(ProtocolError::UnknownAuthPlugin)
     }
 }
-- 
2.43.0


From 1c2b6b402598314a70dfdd0ac327526de92bb8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:38 +0000
Subject: [PATCH 42/42] fix: close the previous statement before preparing
 another one

---
 src/connection/init.rs               |  1 +
 src/connection/mod.rs                |  2 ++
 src/connection/packets/stmt_close.rs |  1 -
 src/connection/prepared_statement.rs | 15 ++++++++++++++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index d5fcfaf..9cab46a 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -23,6 +23,7 @@ impl Connection {
             data,
             options,
             pending: Pending::Nothing,
+            stmt_id: None,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 3ee76db..6dc7c44 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -53,6 +53,8 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending: Pending,
+    /// The last prepared statement, which is still open on the server
+    stmt_id: Option<u32>,
 }
 
 /// What the server still has to send for the last command.
diff --git a/src/connection/packets/stmt_close.rs b/src/connection/packets/stmt_close.rs
index 5b2556e..100be62 100644
--- a/src/connection/packets/stmt_close.rs
+++ b/src/connection/packets/stmt_close.rs
@@ -6,7 +6,6 @@ pub struct StmtClose {
 }
 
 impl StmtClose {
-    #[allow(dead_code)]
     pub fn new(stmt_id: u32) -> Self {
         Self { stmt_id }
     }
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index 22586af..c3c8e20 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         error::{ProtocolError, RuntimeError},
         model::FromQueryResult,
-        packets::{ErrPacket, OkPacket, Stmt, StmtExecuteRequest},
+        packets::{ErrPacket, OkPacket, Stmt, StmtClose, StmtExecuteRequest},
         types::SimpleValue,
         Deserialize, Error,
     },
@@ -43,6 +43,7 @@ impl<'a> PreparedStatement<'a> {
 
 impl Connection {
     pub async fn prepare_statement(&mut self, stmt: &str) -> Result<PreparedStatement, Error> {
+        self.close_statement().await?;
         self.execute_command(Command::StmtPrepare, stmt).await?;
         let packet = self.read_packet().await?;
         let stmt = match packet.first() {
@@ -65,6 +66,7 @@ impl Connection {
         }
 
         self.pending = Pending::Nothing;
+        self.stmt_id = Some(stmt.id);
         Ok(PreparedStatement {
             id: stmt.id,
             conn: self,
@@ -72,6 +74,17 @@ impl Connection {
         })
     }
 
+    /// A `PreparedStatement` borrows the connection, so nobody has the previous one anymore.
+    async fn close_statement(&mut self) -> Result<(), Error> {
+        if let Some(id) = self.stmt_id {
+            self.write_command(&StmtClose::new(id)).await?;
+            // There is no response to this command
+            self.pending = Pending::Nothing;
+            self.stmt_id = None;
+        }
+        Ok(())
+    }
+
     async fn query_prepared_statement_unchecked<V: SimpleValue, R: FromQueryResult>(
         &mut self,
         id: u32,
-- 
2.43.0

