From 43099bd247f6b2beec375d2cc82437d5bc785a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 01/35] fix: skip the header byte of the packet that closes a
 result set

read_eof parsed the 0xFE marker as part of affected_rows, so status flags,
warnings and message were read from the wrong offsets. Without
DEPRECATE_EOF the packet is an old EOF packet, which has another layout.
---
 src/connection/packets/ok.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 087b086..da3e683 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -82,7 +82,12 @@ impl OkPacket {
         packet: PoolItem<'_, Vec<u8>>,
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
+        if !capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            return Self::read_old_eof(packet, capabilities);
+        }
+
         let mut buf = ParseBuf(&packet);
+        buf.skip(1);
         // We need to skip affected_rows and insert_id here
         // because valid content of EOF packet includes
         // packet marker, server status and warning count only.
@@ -120,6 +125,7 @@ impl OkPacket {
         _capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        buf.skip(1);
         // We assume that CLIENT_PROTOCOL_41 was set
         let warnings = buf.checked_eat_u16()?;
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
-- 
2.43.0


From 8e93c817a3141118fec7ba12bf771e9365234117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 02/35] fix: keep the sign of durations between -1s and 0s

---
 src/types/value/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 8033391..857a5e9 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -172,7 +172,7 @@ impl From<Duration> for Value {
         let days = hours / 24;
 
         Value::Time(
-            value.num_seconds() < 0,
+            value < Duration::zero(),
             days as u32,
             (hours % 24) as u8,
             (minutes % 60) as u8,
-- 
2.43.0


From 7257f8a7d4ef41668a7d533ab4c7fc0afbd82c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 03/35] fix: do not panic on hex texts shorter than the prefix

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index aeff5f2..0d8d59d 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -18,7 +18,7 @@ impl Hex {
 
     pub fn try_from_hex<T: AsRef<[u8]>>(data: T) -> Result<Self, hex::FromHexError> {
         let mut data: &[u8] = data.as_ref();
-        if data[..2] == *b"0x" || data[..2] == *b"0X" {
+        if data.starts_with(b"0x") || data.starts_with(b"0X") {
             data = &data[2..];
         }
         hex::decode(data).map(Self)
-- 
2.43.0


From 1594f38872f35fb49685db569c56e079dff87aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 04/35] fix: remove all whitespace from identifiers that
 consist of whitespace only

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7b52306..e2df709 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -89,15 +89,15 @@ impl fmt::Display for IdentifierEscape<'_> {
             ('\u{0001}'..='\u{FFFF}').contains(&char)
         }
 
-        let mut last_char = 0;
+        let mut len = 0;
         for (i, char) in self.0.chars().enumerate() {
             if !char.is_whitespace() && char_valid(char) {
-                last_char = i;
+                len = i + 1;
             }
         }
 
         for (i, char) in self.0.chars().enumerate() {
-            if i <= last_char && char_valid(char) {
+            if i < len && char_valid(char) {
                 if char == '`' {
                     f.write_char('`')?;
                 }
-- 
2.43.0


From 598c0cf88b07141e26aca66b9f8bea8f806d4a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 05/35] fix: do not overflow when displaying times with many
 days

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index e2df709..b500544 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -142,7 +142,7 @@ impl fmt::Display for Value {
         }
         fn format_time(
             f: &mut fmt::Formatter<'_>,
-            hours: &u32,
+            hours: &u64,
             minutes: &u8,
             seconds: &u8,
             microseconds: &u32,
@@ -181,7 +181,7 @@ impl fmt::Display for Value {
                 }
                 format_time(
                     f,
-                    &(*days * 24 + *hours as u32),
+                    &(*days as u64 * 24 + *hours as u64),
                     minutes,
                     seconds,
                     microseconds,
@@ -192,7 +192,7 @@ impl fmt::Display for Value {
                 write!(f, "\"")?;
                 format_date(f, year, month, day)?;
                 write!(f, " ")?;
-                format_time(f, &(*hour as u32), minute, second, microsecond)?;
+                format_time(f, &(*hour as u64), minute, second, microsecond)?;
                 write!(f, "\"")
             }
         }
-- 
2.43.0


From 398d4b6aa8bfa0fcfd8e6210a1f4b351e1420816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 06/35] fix: reject malformed times in text rows

More than six fraction digits underflowed, a single trailing character and
any date/time separator were ignored, and a datetime hour above 23 was
reduced modulo 24.
---
 src/types/value/text.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index b500544..bb33c9a 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -215,11 +215,11 @@ impl Value {
         let seconds: u8 =
             btoi::btou(&value[first_colon + 4..first_colon + 6]).map_err(|_| invalid_value())?;
         let mut microseconds: u32 = 0;
-        if value.len() > first_colon + 6 + 1 {
-            if value[first_colon + 6] != b'.' {
+        if value.len() > first_colon + 6 {
+            let buf = &value[first_colon + 6 + 1..];
+            if value[first_colon + 6] != b'.' || buf.len() > 6 {
                 return Err(invalid_value().into());
             }
-            let buf = &value[first_colon + 6 + 1..];
             microseconds = btoi::btou(buf).map_err(|_| invalid_value())?;
             microseconds *= 10u32.pow(6 - buf.len() as u32);
         }
@@ -273,12 +273,15 @@ impl Value {
         // possible range for datetime: 1000-01-01 00:00:00 to 9999-12-31 23:59:59
         // possible range for timestamp: 1970-01-01 00:00:01 to 2038-01-19 03:14:07
 
-        if value.len() < 19 {
+        if value.len() < 19 || value[10] != b' ' {
             return Err(ParseError::InvalidValue(ValueType::Date, value.to_vec()).into());
         }
         let (year, month, day) = Self::deserialize_date_text_inner(&value[0..10])?;
-        let (_, hour, minute, second, microsecond) =
+        let (days, hour, minute, second, microsecond) =
             Self::deserialize_time_text_inner(&value[11..])?;
+        if days != 0 {
+            return Err(ParseError::InvalidValue(ValueType::Datetime, value.to_vec()).into());
+        }
         Ok(Self::Datetime(
             year,
             month,
-- 
2.43.0


From 1fa7a2671f46722490e927eeb42f125557676d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 07/35] fix: return an error instead of panicking on
 unsupported server data

---
 src/connection/result_set.rs | 7 ++++++-
 src/types/value/bin.rs       | 4 ++--
 src/types/value/text.rs      | 5 +++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 76951a4..1edf426 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -5,6 +5,7 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
         Deserialize, Error, ParseBuf,
@@ -37,7 +38,11 @@ where
                 res.ok_packet = Some(res.conn.decode_response(&packet).await??);
                 Ok(res)
             }
-            Some(0xFB) => unimplemented!("local infile"),
+            Some(0xFB) => Err(ProtocolError::unexpected_packet(
+                packet.to_vec(),
+                Some("Result set (local infile is not supported)"),
+            )
+            .into()),
             Some(0xFF) => Err(ErrPacket::deserialize(
                 &mut ParseBuf(&packet),
                 conn.data().capabilities(),
diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index 89d8461..e9a483c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::ProtocolError,
+        error::{InvalidFlags, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -249,7 +249,7 @@ impl Value {
             ColumnType::Timestamp | ColumnType::Datetime => Self::deserialize_datetime(buf),
             ColumnType::Time => Self::deserialize_time(buf),
             ColumnType::Null => Ok(Self::Null),
-            x => unimplemented!("Unsupported column type {:?}", x),
+            x => Err(InvalidFlags::ColumnType(x as u8).into()),
         }
     }
 }
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index bb33c9a..2a1a72c 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{ParseError, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         ParseBuf,
     },
     std::{
@@ -370,6 +370,7 @@ impl Value {
                     | ColumnType::Blob
                     | ColumnType::TinyBlob
                     | ColumnType::MediumBlob
+                    | ColumnType::LongBlob
                     | ColumnType::Set
                     | ColumnType::Enum
                     | ColumnType::Decimal
@@ -382,7 +383,7 @@ impl Value {
                     }
                     ColumnType::Date => Self::deserialize_date_text(bytes),
                     ColumnType::Time => Self::deserialize_time_text(bytes),
-                    x => unimplemented!("Unsupported column type {:?}", x),
+                    x => Err(InvalidFlags::ColumnType(x as u8).into()),
                 }
             }
         }
-- 
2.43.0


From ab53ec874877fec40fdd990986c47ba416fed4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 08/35] fix: report the serialized length of zero dates

---
 src/types/value/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index e9a483c..802753c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -25,7 +25,7 @@ impl Value {
             Self::Float(_) => 4,
             Self::Double(_) => 8,
             Self::Bytes(x) => lenenc_slice_len(x),
-            Self::Date(0, 0, 0) | Self::Datetime(0, 0, 0, 0, 0, 0, 0) => 1,
+            Self::Datetime(0, 0, 0, 0, 0, 0, 0) => 1,
             Self::Date(_, _, _) | Self::Datetime(_, _, _, 0, 0, 0, 0) => 5,
             Self::Datetime(_, _, _, _, _, _, 0) => 8,
             Self::Datetime(_, _, _, _, _, _, _) => 12,
-- 
2.43.0


From f1100c4bd73c747f91cab255a54092a25153c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 09/35] fix: read column definition strings as length-encoded
 strings

Names of 251 bytes and more have a longer length prefix.
---
 src/connection/packets/column_def.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connection/packets/column_def.rs b/src/connection/packets/column_def.rs
index 26846b5..01fa44a 100644
--- a/src/connection/packets/column_def.rs
+++ b/src/connection/packets/column_def.rs
@@ -23,17 +23,17 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
     type Ctx = ();
 
     fn deserialize(buf: &mut ParseBuf<'de>, _ctx: Self::Ctx) -> Result<Self, ProtocolError> {
-        if buf.checked_eat_u8_slice()? != b"def" {
+        if buf.checked_eat_lenenc_slice()? != b"def" {
             return Err(ProtocolError::unexpected_packet(
                 buf.0.to_vec(),
                 Some("Column Definition"),
             ));
         }
-        let db = buf.checked_eat_u8_str()?;
-        let table = buf.checked_eat_u8_str()?;
-        let org_table = buf.checked_eat_u8_str()?;
-        let name = buf.checked_eat_u8_str()?;
-        let org_name = buf.checked_eat_u8_str()?;
+        let db = buf.checked_eat_lenenc_str()?;
+        let table = buf.checked_eat_lenenc_str()?;
+        let org_table = buf.checked_eat_lenenc_str()?;
+        let name = buf.checked_eat_lenenc_str()?;
+        let org_name = buf.checked_eat_lenenc_str()?;
         buf.check_len(13)?;
         if buf.eat_u8() != 12 {
             return Err(ProtocolError::eof());
-- 
2.43.0


From 69cb83bdd94abd433e47be56c7ba8d82f390ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 10/35] fix: do not allocate memory for columns before the
 server sent them

The column count is sent by the server and may be up to 2^64-1.
---
 src/connection/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/query.rs b/src/connection/query.rs
index 92fb477..ece3360 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -39,7 +39,7 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::with_capacity(count);
+        let mut columns: Vec<Column> = Vec::new();
         for _ in 0..count {
             let packet = self.read_packet().await?;
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-- 
2.43.0


From 962ea144e1879082df7006a9389684bdde6acc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 11/35] fix: do not overflow on long auth plugin data in the
 handshake

---
 src/connection/packets/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index ec8253c..04c8f9a 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -44,7 +44,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         let capabilities = CapabilityFlags::try_from(capabilities_bits_1 | capabilities_bits_2)?;
 
         if capabilities.contains(CapabilityFlags::SECURE_CONNECTION) {
-            let len = i8::max(13, auth_plugin_data_len as i8 - 8) as usize;
+            let len = u8::max(13, auth_plugin_data_len.saturating_sub(8)) as usize;
             nonce.extend_from_slice(buf.checked_eat(len)?);
         }
 
-- 
2.43.0


From 5d60b4efdf4174d21e067615874864e024c01281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 12/35] fix: do not panic on server versions with multi-byte
 characters

---
 src/connection/packets/handshake.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 04c8f9a..3adc489 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -85,10 +85,10 @@ impl<'a> HandshakePacket<'a> {
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.chars().position(|x| !x.is_alphanumeric()) {
-                Some(pos) => {
+            match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
+                Some((pos, x)) => {
                     let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + 1..];
+                    *string = &string[pos + x.len_utf8()..];
                     value
                 }
                 None => {
-- 
2.43.0


From e07ef0b476473552a328a112def82b8de4b6bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 13/35] fix: recognize MariaDB servers that prepend a
 replication version

---
 src/connection/packets/handshake.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 3adc489..52a8cc3 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -83,7 +83,11 @@ impl<'a> HandshakePacket<'a> {
     }
 
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
-        let mut server_version = self.server_version;
+        // MariaDB 10 prepends the version MySQL replication expects to its own version
+        let mut server_version = match self.server_version.strip_prefix("5.5.5-") {
+            Some(version) if version.contains("MariaDB") => version,
+            _ => self.server_version,
+        };
         fn eat_int(string: &mut &str) -> Option<u16> {
             match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
                 Some((pos, x)) => {
-- 
2.43.0


From 2b8d54cc8ce9bf6f2f2bc12afe16c03f94ab6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 14/35] fix: return an error instead of panicking on a
 malformed handshake

---
 src/connection/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a023413..6816984 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -53,7 +53,7 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
-        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(()).unwrap();
+        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
             .parse_server_version()
-- 
2.43.0


From 8dc814a3eee4bf7a4ab3e8deff085d70cd868995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 15/35] fix: report the server's error if it refuses the
 connection

---
 src/connection/init.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 6816984..f20e9d1 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -4,8 +4,9 @@ use {
         Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
-        packets::{HandshakePacket, HandshakeResponse},
-        ConnectionOptionsTrait, Error, Serialize, StreamRequirements,
+        bitflags::CapabilityFlags,
+        packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
 };
@@ -53,6 +54,14 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
+        if packet.first() == Some(&0xFF) {
+            // No capabilities are negotiated yet, so the state is only present in some versions
+            let capabilities = match packet.get(3) {
+                Some(b'#') => CapabilityFlags::PROTOCOL_41,
+                _ => CapabilityFlags::empty(),
+            };
+            return Err(ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?.into());
+        }
         let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
-- 
2.43.0


From da56faf45323987fdf644f812daa003a7ae064fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 16/35] fix: do not announce PLUGIN_AUTH to servers that do not
 support it

---
 src/connection/init.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index f20e9d1..3e60768 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -99,7 +99,10 @@ impl Connection {
             self.data.version,
             self.options.user().as_bytes(),
             self.options.db_name().map(|x| x.as_bytes()),
-            Some(auth_plugin),
+            self.data
+                .capabilities
+                .contains(CapabilityFlags::PLUGIN_AUTH)
+                .then_some(auth_plugin),
             self.data.capabilities,
             Default::default(),
             self.data.max_allowed_packet as u32,
-- 
2.43.0


From d79ea50b2a67ef8e0f4ef24ae3b983f3709a453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 17/35] fix: do not truncate large packet limits in the
 handshake response

---
 src/connection/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 3e60768..ae8d7ef 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -105,7 +105,7 @@ impl Connection {
                 .then_some(auth_plugin),
             self.data.capabilities,
             Default::default(),
-            self.data.max_allowed_packet as u32,
+            self.data.max_allowed_packet.min(u32::MAX as usize) as u32,
         );
 
         let mut buf = BUFFER_POOL.get();
-- 
2.43.0


From 119cccd040724261805dd0d7573e3da51cf92d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 18/35] fix: check the packet that follows fast authentication

A server that refuses the login after a successful fast authentication
(missing database, locked account) sends an error there.
---
 src/connection/auth.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 3ee6c11..88e2b84 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -59,9 +59,12 @@ impl Connection {
             }
             Some(0x01) => match packet.get(1) {
                 Some(0x03) => {
-                    // auth ok
-                    self.read_packet().await?;
-                    Ok(())
+                    // auth ok, followed by the result of the login
+                    let packet = self.read_packet().await?;
+                    self.decode_response(&packet)
+                        .await?
+                        .map(|_| ())
+                        .map_err(Into::into)
                 }
                 Some(0x04) => {
                     let mut pass = super::BUFFER_POOL.get();
-- 
2.43.0


From 11dda2bfdfa5b860398aa85f06eec72f70d48cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 19/35] fix: do not divide by zero if an auth switch request
 has no nonce

---
 src/connection/auth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 88e2b84..64ba0df 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -105,8 +105,8 @@ impl Connection {
                                 }
                             }
                         };
-                        for (i, byte) in pass.iter_mut().enumerate() {
-                            *byte ^= self.data.nonce[i % self.data.nonce.len()];
+                        for (byte, nonce) in pass.iter_mut().zip(self.data.nonce.iter().cycle()) {
+                            *byte ^= nonce;
                         }
                         let padding = OaepPadding::new(rand::rngs::StdRng::from_entropy());
                         let encrypted_pass = server_key
-- 
2.43.0


From 98b3b5e32fe90dd1336918ee727a4a0de00eae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 20/35] fix: terminate the clear password in the handshake
 response

Only the answer to an auth switch request contained the zero byte that
mysql_clear_password requires.
---
 src/connection/types/auth_plugin.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/connection/types/auth_plugin.rs b/src/connection/types/auth_plugin.rs
index 1373919..d88aa23 100644
--- a/src/connection/types/auth_plugin.rs
+++ b/src/connection/types/auth_plugin.rs
@@ -91,7 +91,9 @@ impl AuthPlugin {
                 if !options.allow_cleartext_password() {
                     return Err(RuntimeError::InsecureAuth.into());
                 }
-                Some(AuthPluginData::Clear(pass.as_bytes().to_vec()))
+                let mut data = pass.as_bytes().to_vec();
+                data.push(0);
+                Some(AuthPluginData::Clear(data))
             }
             AuthPlugin::Native => {
                 crate::utils::scramble_native(nonce, pass.as_bytes()).map(AuthPluginData::Native)
@@ -108,7 +110,7 @@ impl AuthPlugin {
 pub enum AuthPluginData {
     /// Auth data for `mysql_old_password` plugin.
     Old([u8; 8]),
-    /// Clear password for `mysql_clear_password` plugin.
+    /// Null-terminated clear password for `mysql_clear_password` plugin.
     Clear(Vec<u8>),
     /// Auth data for `mysql_native_password` plugin.
     Native([u8; 20]),
@@ -136,10 +138,7 @@ impl Serialize for AuthPluginData {
                 buf.put_slice(x);
                 buf.push(0);
             }
-            Self::Clear(x) => {
-                buf.put_slice(x);
-                buf.push(0);
-            }
+            Self::Clear(x) => buf.put_slice(x),
             Self::Native(x) => buf.put_slice(x),
             Self::Sha2(x) => buf.put_slice(x),
         }
-- 
2.43.0


From 0a7ed7274d43023bd814fad4cfa07f603d08d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 21/35] fix: round the key size up to whole octets

For a modulus of 8k+1 bits the encrypted block could be longer than
num_octets, which underflowed.
---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 4c86d67..23b9629 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -127,7 +127,7 @@ impl PublicKey {
     }
 
     pub fn num_octets(&self) -> usize {
-        (self.modulus().bits() as usize + 6) >> 3
+        (self.modulus().bits() as usize + 7) >> 3
     }
 
     pub fn modulus(&self) -> &BigUint {
-- 
2.43.0


From fc21c432158cfd8d6830fd502db0fc435c6a09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 22/35] fix: allow the longest message RFC 8017 allows for OAEP

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 23b9629..f753cea 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -213,7 +213,7 @@ impl<R: Rng + CryptoRng> OaepPadding<R> {
     /// ```
     pub fn pad(&mut self, data: &[u8], n: usize) -> Result<Vec<u8>, Error> {
         let seed_len = Self::HASH_LEN;
-        if n < 1 + seed_len + Self::HASH_LEN + 2 + 1 + data.len() {
+        if n < 2 * Self::HASH_LEN + 2 + data.len() {
             return Err(Error::MessageTooLong);
         }
 
-- 
2.43.0


From 1b8a8e1df6111cc0085889da21486946a9a093a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 23/35] fix: do not panic on truncated public keys

---
 src/utils/crypt.rs | 61 +++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index f753cea..6cc5e23 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -17,56 +17,57 @@ mod der {
         num::BigUint,
     };
 
+    fn eat<'a>(der: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+        if len > der.len() {
+            return Err(Error::InvalidPem);
+        }
+        let (left, right) = der.split_at(len);
+        *der = right;
+        Ok(left)
+    }
+
+    fn eat_tag(der: &mut &[u8], tag: u8) -> Result<(), Error> {
+        match eat(der, 1)? {
+            [x] if *x == tag => Ok(()),
+            _ => Err(Error::InvalidPem),
+        }
+    }
+
     fn eat_len(der: &mut &[u8]) -> Result<usize, Error> {
-        if der[0] & 0x80 == 0x80 {
+        let first = eat(der, 1)?[0];
+        if first & 0x80 == 0x80 {
             const BITS: usize = (usize::BITS / 8) as usize;
-            let len = (der[0] & (!0x80)) as usize;
-            if len > BITS {
+            let len = (first & (!0x80)) as usize;
+            if len == 0 || len > BITS {
                 return Err(Error::InvalidPem);
             }
             let mut bytes = [0u8; BITS];
-            bytes[BITS - len..].copy_from_slice(&der[1..=len]);
-            *der = &der[len + 1..];
+            bytes[BITS - len..].copy_from_slice(eat(der, len)?);
             Ok(usize::from_be_bytes(bytes))
         } else {
-            let len = der[0] as usize;
-            *der = &der[1..];
-            Ok(len)
+            Ok(first as usize)
         }
     }
 
     fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
-        if der[0] != 0x02 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
+        eat_tag(der, 0x02)?;
         let len = eat_len(der)?;
-        let uint = BigUint::from_bytes_be(&der[..len]);
-        *der = &der[len..];
-        Ok(uint)
+        Ok(BigUint::from_bytes_be(eat(der, len)?))
     }
 
     fn eat_sequence<'a>(der: &mut &'a [u8]) -> Result<&'a [u8], Error> {
-        if der[0] != 0x30 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
+        eat_tag(der, 0x30)?;
         let len = eat_len(der)?;
-        let sequence = &der[..len];
-        *der = &der[len..];
-        Ok(sequence)
+        eat(der, len)
     }
 
     fn eat_bit_string<'a>(der: &mut &'a [u8]) -> Result<(u8, &'a [u8]), Error> {
-        if der[0] != 0x03 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
+        eat_tag(der, 0x03)?;
         let len = eat_len(der)?;
-        let unused_bits = der[0];
-        let bit_string = &der[1..len];
-        *der = &der[len..];
-        Ok((unused_bits, bit_string))
+        match eat(der, len)? {
+            [unused_bits, bit_string @ ..] => Ok((*unused_bits, bit_string)),
+            [] => Err(Error::InvalidPem),
+        }
     }
 
     impl PublicKey {
-- 
2.43.0


From 7fb0ed2bfdfb9238c9e15089d910d28a35469311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 24/35] fix: do not panic if the PEM markers overlap

---
 src/utils/crypt.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 6cc5e23..e2c790f 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -99,10 +99,14 @@ mod der {
                 .cloned()
                 .collect();
 
-            let (body, is_pkcs_1) = if pem.starts_with(PKCS1.0) && pem.ends_with(PKCS1.1) {
-                (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
-            } else if pem.starts_with(PKCS8.0) && pem.ends_with(PKCS8.1) {
-                (&pem[PKCS8.0.len()..pem.len() - PKCS8.1.len()], false)
+            fn strip<'a>(pem: &'a [u8], markers: (&[u8], &[u8])) -> Option<&'a [u8]> {
+                pem.strip_prefix(markers.0)?.strip_suffix(markers.1)
+            }
+
+            let (body, is_pkcs_1) = if let Some(body) = strip(&pem, PKCS1) {
+                (body, true)
+            } else if let Some(body) = strip(&pem, PKCS8) {
+                (body, false)
             } else {
                 return Err(Error::InvalidPem);
             };
-- 
2.43.0


From 44cfdde66408b383c70185da7f9506e4e3ec489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 25/35] fix: escape migration names in the bookkeeping queries

---
 src/migrator/migrator_inner.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 4e855ac..1a334cb 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -1,7 +1,10 @@
 use {
     super::{MigrationList, Version},
     crate::{
-        error::Error, migrator::model::MigrationModel, pool::AsyncPoolTrait, types::Value,
+        error::Error,
+        migrator::model::MigrationModel,
+        pool::AsyncPoolTrait,
+        types::{StringEscape, Value},
         Connection,
     },
     std::collections::HashMap,
@@ -113,7 +116,7 @@ impl<'a> Migrator<'a> {
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -133,7 +136,7 @@ impl<'a> Migrator<'a> {
                     ) {
                         migration.down(self.pool).await?;
                         applied.swap_remove(index);
-                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     }
                 }
             }
@@ -155,7 +158,7 @@ impl<'a> Migrator<'a> {
                 {
                     migration.down(self.pool).await?;
                     applied.swap_remove(index);
-                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     return Ok(true);
                 }
             }
-- 
2.43.0


From af83f93a6160a6f5c14e4d5f6d24a28ed57a6991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 26/35] fix: end a result set if the server sends an error
 instead of a row

The error was decoded as a row, and the connection then waited for the rest
of the result set, which never came. Empty packets no longer panic.
---
 src/connection/result_set.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 1edf426..d58aac5 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -69,10 +69,20 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() {
+        // The result set exclusively borrows the connection, so the pending result is this one
+        if !self.conn.pending_result {
             return Ok(None);
         }
         let packet = self.conn.read_packet().await?;
+        match packet.first() {
+            Some(0xFF) => {
+                self.conn.pending_result = false;
+                let capabilities = self.conn.data.capabilities;
+                return Err(ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?.into());
+            }
+            None => return Err(ProtocolError::eof().into()),
+            _ => (),
+        }
         let is_last_result_set_packet = if self
             .conn
             .data
@@ -84,8 +94,8 @@ where
             packet[0] == 0xFE && packet.len() < 8
         };
         if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
             self.conn.pending_result = false;
+            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
             Ok(None)
         } else {
             let mut row = P::read_result_set_row(&packet, &self.columns)?;
@@ -132,8 +142,8 @@ where
             Some(x) => Ok(x),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next()` only returns `None` if ok packet was read
-                Ok(self.ok_packet.unwrap())
+                // There is no ok packet if the server ended the result set with an error
+                self.ok_packet.ok_or_else(|| ProtocolError::eof().into())
             }
         }
     }
@@ -143,8 +153,11 @@ where
             Some(x) => Ok((x, self.columns, self.mapping)),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next() only returns `None` if ok packet was read
-                Ok((self.ok_packet.unwrap(), self.columns, self.mapping))
+                // There is no ok packet if the server ended the result set with an error
+                match self.ok_packet {
+                    Some(x) => Ok((x, self.columns, self.mapping)),
+                    None => Err(ProtocolError::eof().into()),
+                }
             }
         }
     }
@@ -155,6 +168,15 @@ impl Connection {
         if self.pending_result {
             loop {
                 let packet = self.read_packet().await?;
+                match packet.first() {
+                    Some(0xFF) => {
+                        // The error belongs to the result that is skipped
+                        self.pending_result = false;
+                        return Ok(None);
+                    }
+                    None => return Err(ProtocolError::eof().into()),
+                    _ => (),
+                }
                 let is_last_result_set_packet = if self
                     .data
                     .capabilities
-- 
2.43.0


From 197f461be5b4178e66dbef63fb18c4f657ea936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 27/35] fix: read the EOF packets that follow column
 definitions

Servers without DEPRECATE_EOF send one after the definitions of columns and
statement parameters. An invalid column definition no longer makes the
following ones count as rows.
---
 src/connection/prepared_statement.rs |  9 +++++--
 src/connection/query.rs              | 36 ++++++++++++++++++++++++----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index ef018c7..fa395c3 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -55,8 +55,13 @@ impl Connection {
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
 
-        for _ in 0..(stmt.params_len as usize + stmt.columns_len as usize) {
-            self.read_packet().await?;
+        for len in [stmt.params_len, stmt.columns_len] {
+            for _ in 0..len {
+                self.read_packet().await?;
+            }
+            if len != 0 {
+                self.read_metadata_eof().await?;
+            }
         }
 
         Ok(PreparedStatement {
diff --git a/src/connection/query.rs b/src/connection/query.rs
index ece3360..5fceafa 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -4,6 +4,8 @@ use {
         Command, Connection, ParseBuf, ResultSet, BUFFER_POOL,
     },
     crate::{
+        bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::FromQueryResult,
         packets::{ColumnDef, OkPacket},
         types::Value,
@@ -39,13 +41,39 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::new();
+        let mut columns: Result<Vec<Column>, Error> = Ok(Vec::new());
         for _ in 0..count {
             let packet = self.read_packet().await?;
-            let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-            columns.push(def.try_into()?);
+            // All definitions have to be read, even if one of them is invalid
+            if let Ok(list) = &mut columns {
+                match Self::parse_column_def(&packet) {
+                    Ok(column) => list.push(column),
+                    Err(err) => columns = Err(err),
+                }
+            }
+        }
+        self.read_metadata_eof().await?;
+        columns
+    }
+
+    fn parse_column_def(packet: &[u8]) -> Result<Column, Error> {
+        let def = ColumnDef::deserialize(&mut ParseBuf(packet), ())?;
+        Ok(def.try_into()?)
+    }
+
+    /// Reads the packet that follows column definitions if `DEPRECATE_EOF` is not set.
+    pub(super) async fn read_metadata_eof(&mut self) -> Result<(), Error> {
+        if !self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            let packet = self.read_packet().await?;
+            if packet.first() != Some(&0xFE) {
+                return Err(ProtocolError::unexpected_packet(packet.to_vec(), Some("Eof")).into());
+            }
         }
-        Ok(columns)
+        Ok(())
     }
 
     pub(super) async fn read_settings(&mut self) -> Result<(), Error> {
-- 
2.43.0


From c334e67336b28d90ffc57e0e5c377ec1fb24700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 28/35] fix: skip the result set if a query without result was
 expected

Its packets were taken as the response to the following commands.
---
 src/connection/io.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 986ab5b..7f511fb 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -172,6 +172,15 @@ impl Connection {
 
     pub(crate) async fn read_response(&mut self) -> Result<Result<OkPacket, ErrPacket>, Error> {
         let packet = self.read_packet().await?;
-        self.decode_response(&packet).await
+        match packet.first() {
+            None | Some(0x00 | 0xFB | 0xFF) => self.decode_response(&packet).await,
+            Some(_) => {
+                // The rows of an unexpected result set are skipped before the next command
+                self.pending_result = true;
+                let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
+                self.read_column_defs(columns_len as usize).await?;
+                self.decode_response(&packet).await
+            }
+        }
     }
 }
-- 
2.43.0


From 3ee92e4b427d846a52d02e1d4979099d3e346a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 29/35] fix: wake tasks that wait for an item of an async pool

Returned items never woke anybody, a task registered its waker only once,
and the slot of an item whose creation failed or was cancelled was lost.
---
 src/pool/async_pool.rs | 126 +++++++++++++++++++++++++----------------
 1 file changed, 78 insertions(+), 48 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 458dd43..696f1db 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -1,11 +1,14 @@
 use {
     super::{AsyncPoolContent, AsyncPoolGetFuture, AsyncPoolTrait, PoolItem, PoolPut},
-    crossbeam::queue::{ArrayQueue, SegQueue},
+    crossbeam::queue::ArrayQueue,
     std::{
         future::Future,
         mem::ManuallyDrop,
         pin::Pin,
-        sync::atomic::{AtomicUsize, Ordering},
+        sync::{
+            atomic::{AtomicUsize, Ordering},
+            Mutex,
+        },
         task::{self, Poll, Waker},
     },
 };
@@ -14,13 +17,14 @@ pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
     ctx: T::Ctx,
     items: AtomicUsize,
     pool: ArrayQueue<T>,
-    wakers: SegQueue<Waker>,
+    wakers: Mutex<Vec<Waker>>,
 }
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N> {
     fn put(&self, value: T) {
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
+        self.wake_all();
     }
 }
 
@@ -30,7 +34,38 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             ctx,
             items: AtomicUsize::new(0),
             pool: ArrayQueue::new(N),
-            wakers: SegQueue::new(),
+            wakers: Mutex::new(Vec::new()),
+        }
+    }
+
+    /// Reserve a slot for a new item.
+    fn reserve(&self) -> bool {
+        self.items
+            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |items| {
+                (items < N).then_some(items + 1)
+            })
+            .is_ok()
+    }
+
+    /// Free the slot of an item that was not created.
+    fn release(&self) {
+        self.items.fetch_sub(1, Ordering::Relaxed);
+        self.wake_all();
+    }
+
+    fn register(&self, waker: &Waker) {
+        let mut wakers = self.wakers.lock().unwrap();
+        if !wakers.iter().any(|x| x.will_wake(waker)) {
+            wakers.push(waker.clone());
+        }
+    }
+
+    /// Wake all waiting tasks, as it's unknown which of them still exist.
+    /// Those that don't get an item will register again.
+    fn wake_all(&self) {
+        let wakers = std::mem::take(&mut *self.wakers.lock().unwrap());
+        for waker in wakers {
+            waker.wake();
         }
     }
 }
@@ -40,7 +75,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
         Box::pin(PoolTake {
             pool: self,
             add: None,
-            waker_added: false,
         })
     }
 }
@@ -50,19 +84,31 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
-    waker_added: bool,
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
     fn poll_add(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
-        self.add.as_mut().map(|add| {
-            add.as_mut().poll(cx).map(|res| {
-                res.map(|item| PoolItem {
-                    item: ManuallyDrop::new(item),
-                    pool: self.pool,
-                })
+        let res = self.add.as_mut()?.as_mut().poll(cx);
+        if res.is_ready() {
+            self.add = None;
+        }
+        if let Poll::Ready(Err(_)) = res {
+            self.pool.release();
+        }
+        Some(res.map(|res| {
+            res.map(|item| PoolItem {
+                item: ManuallyDrop::new(item),
+                pool: self.pool,
             })
-        })
+        }))
+    }
+}
+
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for PoolTake<'_, T, C, N> {
+    fn drop(&mut self) {
+        if self.add.take().is_some() {
+            self.pool.release();
+        }
     }
 }
 
@@ -72,41 +118,25 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
     fn poll(self: std::pin::Pin<&mut Self>, cx: &mut task::Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
         let pool = this.pool;
-        if let Some(res) = this.poll_add(cx) {
-            return res;
-        }
-        match pool.pool.pop() {
-            Some(item) => Poll::Ready(Ok(PoolItem {
-                item: ManuallyDrop::new(item),
-                pool,
-            })),
-            None => {
-                let item_count = pool.items.load(Ordering::Relaxed);
-                if item_count < N {
-                    if pool
-                        .items
-                        .compare_exchange(
-                            item_count,
-                            item_count + 1,
-                            Ordering::Relaxed,
-                            Ordering::Relaxed,
-                        )
-                        .is_ok()
-                    {
-                        this.add = Some(Box::pin(T::new(&pool.ctx)));
-                        if let Some(res) = this.poll_add(cx) {
-                            return res;
-                        }
-                    } else {
-                        cx.waker().wake_by_ref();
-                    }
-                } else if !this.waker_added {
-                    this.waker_added = true;
-                    pool.wakers.push(cx.waker().clone());
-                    // wake for the rare case that an item was added after we tried to get one but before we registered the waker
-                    cx.waker().wake_by_ref();
-                }
-                Poll::Pending
+        let mut registered = false;
+        loop {
+            if let Some(res) = this.poll_add(cx) {
+                return res;
+            }
+            if let Some(item) = pool.pool.pop() {
+                return Poll::Ready(Ok(PoolItem {
+                    item: ManuallyDrop::new(item),
+                    pool,
+                }));
+            }
+            if pool.reserve() {
+                this.add = Some(Box::pin(T::new(&pool.ctx)));
+            } else if registered {
+                return Poll::Pending;
+            } else {
+                // try again for the rare case that an item was added before the waker was registered
+                pool.register(cx.waker());
+                registered = true;
             }
         }
     }
-- 
2.43.0


From 6dfaf3bdf957b2ae4acc848b4042ef7cadb6fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:19 +0000
Subject: [PATCH 30/35] fix: write empty byte strings as X'' literals

---
 src/types/value/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 2a1a72c..06c8320 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -165,6 +165,8 @@ impl fmt::Display for Value {
             Value::ULong(x) => x.fmt(f),
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
+            // `0x` without digits would be read as an identifier
+            Value::Bytes(x) if x.is_empty() => f.write_str("X''"),
             Value::Bytes(x) => {
                 f.write_str("0x")?;
                 hex::encode(x).fmt(f)
-- 
2.43.0


From b967125e3201b04ea46b812ef6160998ee9efcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:14 +0000
Subject: [PATCH 31/35] fix: read models whose table has the name of a
 reference

---
 macros/src/lib.rs              |  4 ++--
 src/model/from_query_result.rs | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf4aa48..4c55e41 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -147,9 +147,9 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             set_child_mapping = quote! {
                 #set_child_mapping
                 #maybe_else if table == #name {
-                    self.#ident.set_mapping(column, "", index);
+                    self.#ident.set_mapping_inner(column, "", index);
                 } else if table.starts_with(#name_with_point) {
-                    self.#ident.set_mapping(column, &table[#len..], index);
+                    self.#ident.set_mapping_inner(column, &table[#len..], index);
                 }
             };
         }
diff --git a/src/model/from_query_result.rs b/src/model/from_query_result.rs
index 36dea75..ddbb5f1 100644
--- a/src/model/from_query_result.rs
+++ b/src/model/from_query_result.rs
@@ -4,13 +4,14 @@ pub trait FromQueryResultMapping<ModelData: super::ModelData>: Default {
     fn set_mapping_inner(&mut self, column: &Column, table: &str, index: usize);
 
     fn set_mapping(&mut self, column: &Column, table: &str, index: usize) {
-        self.set_mapping_inner(
-            column,
+        let table = if table == ModelData::TABLE {
+            ""
+        } else {
             table
                 .strip_prefix(ModelData::TABLE_WITH_POINT)
-                .unwrap_or(table),
-            index,
-        )
+                .unwrap_or(table)
+        };
+        self.set_mapping_inner(column, table, index)
     }
 
     fn from_columns(columns: &[Column]) -> Self {
-- 
2.43.0


From 9376c0adf533fffa87325ca6d24c9a431beec691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:33 +0000
Subject: [PATCH 32/35] fix: name columns of fields that are raw identifiers
 without r#

---
 macros/src/lib.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 4c55e41..2a05374 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -8,9 +8,14 @@ use {
     proc_macro2::Span,
     quote::{format_ident, quote},
     std::fmt,
-    syn::{parse_macro_input, DeriveInput, Ident, LitStr, Type},
+    syn::{ext::IdentExt, parse_macro_input, DeriveInput, Ident, LitStr, Type},
 };
 
+/// Names of the columns, which are those of the fields without `r#`
+fn column_names(fields: &[&Ident]) -> Vec<String> {
+    fields.iter().map(|x| x.unraw().to_string()).collect()
+}
+
 struct Error(Option<syn::Error>);
 
 impl Error {
@@ -139,7 +144,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             .filter(TypeComplexity::complex_ref)
             .enumerate()
         {
-            let name = ident.to_string();
+            let name = ident.unraw().to_string();
             let name_with_point = name.clone() + ".";
             let len = name_with_point.as_bytes().len();
             let maybe_else = if i == 0 { None } else { Some(quote!(else)) };
@@ -154,9 +159,10 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             };
         }
 
+        let simple_column_names = column_names(simple_field_names);
         let set_own_mapping = quote! {
             *match column.org_name() {
-                #(stringify!(#simple_field_names) => &mut self.#simple_field_names,)*
+                #(#simple_column_names => &mut self.#simple_field_names,)*
                 #(stringify!(#struct_field_names) => &mut self.#struct_field_names,)*
                 _ => return,
             } = Some(index);
@@ -243,7 +249,7 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             let names = r#struct
                 .fields
                 .iter()
-                .map(|(_, x)| format_ident!("{ident}_{x}"));
+                .map(|(_, x)| format_ident!("{}_{}", ident, x));
             insert_struct_fields = quote! {
                 #insert_struct_fields
                 match self.#ident {
@@ -315,6 +321,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
         .map(|x| &x.ty)
         .collect();
 
+    let simple_column_names = column_names(simple_field_names);
+    let complex_column_names = column_names(complex_field_names);
+
     let ident = &input.ident;
     let model_ident = format_ident!("{ident}ActiveModel");
 
@@ -330,9 +339,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             impl mysql_connector::model::ActiveModel<#ident> for #model_ident {
                 async fn into_values(self, conn: &mut mysql_connector::Connection) -> Result<Vec<mysql_connector::model::NamedValue>, mysql_connector::error::Error> {
                     let mut values = Vec::new();
-                    #(self.#simple_field_names.insert_named_value(&mut values, stringify!(#simple_field_names))?;)*
+                    #(self.#simple_field_names.insert_named_value(&mut values, #simple_column_names)?;)*
                     #insert_struct_fields
-                    #(self.#complex_field_names.insert_named_value(&mut values, stringify!(#complex_field_names), conn).await?;)*
+                    #(self.#complex_field_names.insert_named_value(&mut values, #complex_column_names, conn).await?;)*
                     Ok(values)
                 }
 
@@ -372,21 +381,23 @@ pub fn derive_into_query(input: TokenStream) -> TokenStream {
     let mut simple_field_names: Vec<LitStr> = fields
         .iter()
         .filter(TypeComplexity::simple_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| LitStr::new(&x.ident.unraw().to_string(), x.ident.span()))
         .collect();
     for field in &fields {
         if let TypeComplexity::Struct(r#struct) = &field.complexity {
-            let mapping_names = r#struct
-                .fields
-                .iter()
-                .map(|x| LitStr::new(&format!("{}_{}", field.ident, x.1), field.ident.span()));
+            let mapping_names = r#struct.fields.iter().map(|x| {
+                LitStr::new(
+                    &format_ident!("{}_{}", field.ident, x.1).to_string(),
+                    field.ident.span(),
+                )
+            });
             simple_field_names.extend(mapping_names);
         }
     }
     let complex_field_names: &Vec<LitStr> = &fields
         .iter()
         .filter(TypeComplexity::complex_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| LitStr::new(&x.ident.unraw().to_string(), x.ident.span()))
         .collect();
     let complex_field_types: &Vec<&Type> = &fields
         .iter()
-- 
2.43.0


From e04f92e741e06454cf0ff6fa5f794fc50a8f3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:58 +0000
Subject: [PATCH 33/35] fix: flush the stream after writing a packet

---
 src/connection/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 7f511fb..cdc2a0e 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -135,6 +135,8 @@ impl Connection {
             .await??;
             self.seq_id = self.seq_id.wrapping_add(1);
         }
+        // The stream may buffer what is written until it is flushed
+        Timeout::new(self.stream.flush(), self.data.sleep, self.options.timeout()).await??;
         Ok(())
     }
 
-- 
2.43.0


From 4d8b89b9d25a07a1470479dc25f98995dadc69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:13 +0000
Subject: [PATCH 34/35] fix: refuse calls on a connection whose exchange was
 interrupted

---
 src/connection/init.rs       |  1 +
 src/connection/io.rs         | 13 +++++++++++++
 src/connection/mod.rs        |  1 +
 src/connection/result_set.rs |  4 ++--
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index ae8d7ef..98a39b6 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -23,6 +23,7 @@ impl Connection {
             data,
             options,
             pending_result: false,
+            interrupted: false,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index cdc2a0e..7efc20a 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -91,7 +91,17 @@ impl Connection {
         }
     }
 
+    /// Reading or writing a packet can fail or be cancelled halfway. The position in the stream is
+    /// unknown from then on, so nothing more can be exchanged.
+    fn begin_io(&mut self) -> Result<(), ProtocolError> {
+        if std::mem::replace(&mut self.interrupted, true) {
+            return Err(ProtocolError::OutOfSync);
+        }
+        Ok(())
+    }
+
     pub(super) async fn read_packet<'b>(&mut self) -> Result<PoolItem<'b, Vec<u8>>, Error> {
+        self.begin_io()?;
         let mut decode_buf = BUFFER_POOL.get();
         Self::read_packet_to_buf(
             &mut self.stream,
@@ -101,10 +111,12 @@ impl Connection {
             self.options.timeout(),
         )
         .await?;
+        self.interrupted = false;
         Ok(decode_buf)
     }
 
     pub(super) async fn write_packet(&mut self, mut bytes: &[u8]) -> Result<(), Error> {
+        self.begin_io()?;
         let extra_packet = bytes.remaining() % MAX_PAYLOAD_LEN == 0;
 
         while bytes.has_remaining() {
@@ -137,6 +149,7 @@ impl Connection {
         }
         // The stream may buffer what is written until it is flushed
         Timeout::new(self.stream.flush(), self.data.sleep, self.options.timeout()).await??;
+        self.interrupted = false;
         Ok(())
     }
 
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 318a9ee..e0be458 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -53,6 +53,7 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending_result: bool,
+    interrupted: bool,
 }
 
 impl Connection {
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index d58aac5..7ee96b7 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -112,9 +112,9 @@ where
     }
 
     pub async fn one(&mut self) -> Result<Option<R>, Error> {
-        let res = self.next().await;
+        let res = self.next().await?;
         while self.next().await?.is_some() {}
-        res
+        Ok(res)
     }
 
     pub fn columns(&self) -> &[Column] {
-- 
2.43.0


From 13caa882b44eb6184153e758aa3431f169a64bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:14 +0000
Subject: [PATCH 35/35] fix: pools replace connections whose exchange was
 interrupted

---
 src/connection/mod.rs  | 4 ++++
 src/pool/async_pool.rs | 6 +++++-
 src/pool/mod.rs        | 5 +++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index e0be458..ec86f5f 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -106,6 +106,10 @@ impl<T: Stream> AsyncPoolContent<T> for Connection {
     ) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Self, Self::Error>> + 'a>> {
         Box::pin(Self::connect(Arc::clone(ctx)))
     }
+
+    fn is_reusable(&self) -> bool {
+        !self.interrupted
+    }
 }
 
 #[cfg(feature = "tcpstream")]
diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 696f1db..de24e4b 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -22,6 +22,10 @@ pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N> {
     fn put(&self, value: T) {
+        if !value.is_reusable() {
+            drop(value);
+            return self.release();
+        }
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
         self.wake_all();
@@ -47,7 +51,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             .is_ok()
     }
 
-    /// Free the slot of an item that was not created.
+    /// Free the slot of an item that was not created or can't be used any more.
     fn release(&self) {
         self.items.fetch_sub(1, Ordering::Relaxed);
         self.wake_all();
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 69048a8..94f8b93 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -21,6 +21,11 @@ pub trait AsyncPoolContent<T>: AsyncPoolContentError + Sized + 'static {
     type Ctx: fmt::Debug;
     fn new<'a>(ctx: &'a Self::Ctx)
         -> Pin<Box<dyn Future<Output = Result<Self, Self::Error>> + 'a>>;
+
+    /// Whether a returned item can be handed out again. It is replaced by a new one otherwise.
+    fn is_reusable(&self) -> bool {
+        true
+    }
 }
 
 pub trait AsyncPoolContentError: 'static {
-- 
2.43.0

