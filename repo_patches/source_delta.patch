From baca1a69ca517ada1a35086c3e61fb5c00e05439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 01/28] fix: write every byte of a database or key file to the
 sink

save() used Write::write and ignored how much the sink accepted, so a sink
that takes partial writes got a silently truncated file reported as saved.
---
 src/format/kdb2_writer.rs | 16 ++++++++--------
 src/format/kf_writer.rs   |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 2953fc2..56ddbc4 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -71,35 +71,35 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     kdb2_xml_writer::write(&mut xml, db, &hash, &stream_key)?;
 
     let mut payload = Vec::new();
-    payload.write(&stream_start_bytes.0)?;
+    payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
     write_block(&mut payload, 0, &compressed)?;
     write_block_final(&mut payload, 1)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
-    writer.write(&encrypted)?;
+    writer.write_all(&encrypted)?;
 
     Ok(())
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&sha256::hash(&[data]))?;
+    writer.write_all(&sha256::hash(&[data]))?;
     writer.write_u32::<LittleEndian>(data.len() as u32)?;
-    writer.write(data)?;
+    writer.write_all(data)?;
     Ok(())
 }
 
 fn write_block_final<W: Write>(writer: &mut W, id: u32) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&kdb2::FINAL_BLOCK_HASH)?;
+    writer.write_all(&kdb2::FINAL_BLOCK_HASH)?;
     writer.write_u32::<LittleEndian>(0)?;
     Ok(())
 }
 
 fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
-    writer.write(bytes)?;
+    writer.write_all(bytes)?;
     Ok(())
 }
 
@@ -173,12 +173,12 @@ fn write_protected_stream_key<W: Write>(writer: &mut W, key: &ProtectedStreamKey
 }
 
 fn write_sig_1<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::DB_SIGNATURE)?;
+    writer.write_all(&common::DB_SIGNATURE)?;
     Ok(())
 }
 
 fn write_sig_2<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::KDB2_SIGNATURE)?;
+    writer.write_all(&common::KDB2_SIGNATURE)?;
     Ok(())
 }
 
diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 51ec05d..7386e42 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -23,13 +23,13 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
-    writer.write(key.key.unsecure())?;
+    writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let hex = hex::encode(key.key.unsecure());
-    writer.write(&hex.into_bytes())?;
+    writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
-- 
2.43.0


From fb7de491052b88de4d46a16d730d00d82f992f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 02/28] fix: log only the bytes the sink accepted

LogWriter logged the whole buffer even when the write was partial or failed,
so the header hash stored in the file did not match the header written.
---
 src/io/log_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/log_writer.rs b/src/io/log_writer.rs
index d6c3440..0925cfa 100644
--- a/src/io/log_writer.rs
+++ b/src/io/log_writer.rs
@@ -47,11 +47,11 @@ impl<W> Log for LogWriter<W> {
 
 impl<W: Write> Write for LogWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let result = self.inner.write(buf);
+        let written = self.inner.write(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(buf);
+            self.log_data.extend_from_slice(&buf[..written]);
         }
-        result
+        Ok(written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From bfd2c728bca6eb5a48b3952c85c0e91a4f200ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 03/28] fix: read fixed size fields completely

open() used Read::read and ignored how much was read, so a reader delivering
short reads made a good file fail to open and a truncated file read as zeros.
---
 src/format/kdb2_reader.rs | 6 +++---
 src/types/database.rs     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 1977442..6e658b7 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -346,19 +346,19 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
     let mut data = [0; 16];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
     let mut data = [0; 32];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
     let mut data = vec![0; *size];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
diff --git a/src/types/database.rs b/src/types/database.rs
index cf720c4..1f2756d 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -438,12 +438,12 @@ impl Database {
         let mut reader = LogReader::new(reader);
         let mut buffer = [0u8; 4];
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer != common::DB_SIGNATURE {
             return Err(Error::InvalidDbSignature(buffer));
         }
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer == common::KDB1_SIGNATURE {
             return Err(Error::UnhandledDbType(buffer));
         } else if buffer == common::KDB2_SIGNATURE {
-- 
2.43.0


From a34c3b42b0390e7ade908742454d724e6755c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 04/28] fix: log only the bytes the reader delivered

LogReader logged the whole buffer even when the read was short or failed, so
the header hash of a good file did not match.
---
 src/io/log_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/log_reader.rs b/src/io/log_reader.rs
index c219110..be4c04a 100644
--- a/src/io/log_reader.rs
+++ b/src/io/log_reader.rs
@@ -47,11 +47,11 @@ impl<R> Log for LogReader<R> {
 
 impl<R: Read> Read for LogReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        let result = self.inner.read(buf);
+        let count = self.inner.read(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(&buf);
+            self.log_data.extend_from_slice(&buf[..count]);
         }
-        result
+        Ok(count)
     }
 }
 
-- 
2.43.0


From cf5b7af42f36a2e79490f8b13692fedce5d24d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 05/28] fix: reject a payload too short to hold the start bytes

A file cut off right after its header made open() panic.
---
 src/format/kdb2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 6e658b7..dc2535b 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -127,7 +127,7 @@ where
     let encrypted = read_enc_payload(reader)?;
     let payload = aes256::decrypt(&master_key, &master_iv, &encrypted)?;
 
-    if payload[0..32] != stream_start_bytes.0 {
+    if payload.len() < 32 || payload[0..32] != stream_start_bytes.0 {
         return Err(Error::InvalidKey);
     }
 
-- 
2.43.0


From b04c58bd5070fd5a16c95926c7ce82ec4f5b420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 06/28] fix: do not allocate a block on the word of its size
 field

The size of a block was allocated and zeroed before any of its data was seen,
so a few hostile bytes made open() use up to 4 GB of memory.
---
 src/format/kdb2_reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index dc2535b..75cc6bd 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -35,7 +35,7 @@ use crate::types::TransformedKey;
 use crate::types::Version;
 use crate::types::XmlData;
 use byteorder::{LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 
 /// Attempts to read the database content from the reader.
 pub fn read<R>(reader: &mut R, composite_key: &CompositeKey) -> Result<(MetaData, XmlData)>
@@ -357,9 +357,13 @@ fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
-    let mut data = vec![0; *size];
-    reader.read_exact(&mut data)?;
-    Ok(data)
+    let mut data = Vec::new();
+    reader.take(*size as u64).read_to_end(&mut data)?;
+    if data.len() == *size {
+        Ok(data)
+    } else {
+        Err(Error::Io(io::Error::from(io::ErrorKind::UnexpectedEof)))
+    }
 }
 
 fn get_header<T>(header: Option<T>, header_id: u8) -> Result<T> {
-- 
2.43.0


From 7498c12678067d5ad05e3633001be6f5c2a99bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 07/28] fix: decompress the blocks of a payload as one stream

The payload is compressed first and then split into hashed blocks, so only the
first block of a file with several blocks starts with a GZip header. Such files
(KeePass writes them for content over 1 MiB) could not be opened.
---
 src/format/kdb2_reader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 75cc6bd..5fca2a3 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -312,13 +312,13 @@ fn read_version<R: Read>(reader: &mut R) -> Result<Version> {
 
 fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>> {
     let mut reader = Cursor::new(payload);
-    let mut xml = Vec::new();
+    let mut data = Vec::new();
 
     for block_id in 0..u32::max_value() {
         let id = reader.read_u32::<LittleEndian>()?;
         let hash = read_bytes_32(&mut reader)?;
         let size = reader.read_u32::<LittleEndian>()? as usize;
-        let raw_data = read_bytes_size(&mut reader, &size)?;
+        let mut raw_data = read_bytes_size(&mut reader, &size)?;
 
         if id != block_id {
             return Err(Error::InvalidBlockId(id));
@@ -337,11 +337,10 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
             return Err(Error::InvalidBlockHash);
         }
 
-        let mut block_data = decompress(compression, &raw_data)?;
-        xml.append(&mut block_data);
+        data.append(&mut raw_data);
     }
 
-    Ok(xml)
+    decompress(compression, &data)
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From 3edef90bdd8a517fcf211ab46018c431c4ecc638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 08/28] fix: read present but empty elements as empty values

An empty custom data key or value, custom icon, string key or binary key was
read as missing, so a database containing one could be saved but not opened
again, and an association with an empty part was dropped.
---
 src/format/kdb2_xml_reader.rs | 10 +++++-----
 src/format/xml.rs             | 10 ++--------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index a57b0ee..b7dd34b 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -286,10 +286,10 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_string_opt(reader)?;
+                    value = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -351,7 +351,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
-                    data = xml::read_binary_opt(reader)?;
+                    data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
@@ -615,10 +615,10 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
-                    keystroke = xml::read_string_opt(reader)?;
+                    keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
-                    window = xml::read_string_opt(reader)?;
+                    window = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
diff --git a/src/format/xml.rs b/src/format/xml.rs
index eef0494..4c047b7 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -41,10 +41,7 @@ pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
 
 /// Attempts to read an optional binary key.
 pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<BinaryKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(BinaryKey(string))),
-        None => Ok(None),
-    }
+    Ok(Some(BinaryKey(read_string(reader)?)))
 }
 
 /// Attempts to read optional binary data.
@@ -216,10 +213,7 @@ pub fn read_string<R: Read>(reader: &mut EventReader<R>) -> Result<String> {
 
 /// Attempts to read an optional string key
 pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<StringKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(StringKey::from_string(&string))),
-        None => Ok(None),
-    }
+    Ok(Some(StringKey::from_string(&read_string(reader)?)))
 }
 
 /// Attempts to read an optional string.
-- 
2.43.0


From c1d1963ffe4131154fd2add771f8f29849c80366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 09/28] fix: save the custom icon of a group

Group::custom_icon_uuid was read but never written, so saving lost it.
---
 src/format/kdb2_xml_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 7666e5f..abb5c7f 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -211,6 +211,7 @@ fn write_group_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
+    xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
     xml::write_string_tag(
         writer,
         kdb2::DEFAULT_AUTO_TYPE_SEQUENCE_TAG,
-- 
2.43.0


From 8924d2e02e29a11b6104b5e4f11b4415593c79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 10/28] fix: keep strings that consist of white space

A name, string value or other text of only white space was read as empty.
---
 src/format/xml.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 4c047b7..dedf664 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -46,7 +46,7 @@ pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
 
 /// Attempts to read optional binary data.
 pub fn read_binary_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Vec<u8>>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match general_purpose::STANDARD.decode(&string) {
             Ok(bin) => Ok(Some(bin)),
             Err(err) => read_err(reader, format!("Base64 {}", err)),
@@ -96,7 +96,7 @@ pub fn read_bool<R: Read>(reader: &mut EventReader<R>) -> Result<bool> {
 
 /// Attempts to read an optional boolean.
 pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.to_lowercase().as_str() {
             "false" => Ok(Some(false)),
             "null" => Ok(None),
@@ -109,7 +109,7 @@ pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool
 
 /// Attempts to read an optional color.
 pub fn read_color_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Color>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match Color::from_hex_string(&string) {
             Ok(color) => Ok(Some(color)),
             Err(err) => read_err(reader, format!("Color {}", err)),
@@ -130,7 +130,7 @@ pub fn read_custom_icon_uuid_opt<R: Read>(
 
 /// Attempts to read a date and time.
 pub fn read_datetime<R: Read>(reader: &mut EventReader<R>) -> Result<DateTime<Utc>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.parse::<DateTime<Utc>>() {
             Ok(datetime) => Ok(datetime),
             Err(err) => read_err(reader, format!("DateTime {}", err)),
@@ -172,7 +172,7 @@ pub fn read_i32<R: Read>(reader: &mut EventReader<R>) -> Result<i32> {
 
 /// Attempts to read an optional i32.
 pub fn read_i32_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<i32>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.parse::<i32>() {
             Ok(num) => Ok(Some(num)),
             Err(err) => read_err(reader, format!("Number {}", err)),
@@ -221,6 +221,7 @@ pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<St
     let event = reader.next()?;
     match event {
         reader::XmlEvent::Characters(val) => Ok(Some(val)),
+        reader::XmlEvent::Whitespace(val) => Ok(Some(val)),
         reader::XmlEvent::EndElement { .. } => Ok(None),
         _ => {
             let _: Result<Option<String>> =
@@ -261,6 +262,12 @@ pub fn read_string_value_opt<R: Read>(
     }
 }
 
+/// Attempts to read an optional string in which white space alone has no meaning.
+fn read_token_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
+    let string = read_string_opt(reader)?;
+    Ok(string.filter(|string| !string.trim().is_empty()))
+}
+
 /// Attempts to read a UUID.
 pub fn read_uuid<R: Read>(reader: &mut EventReader<R>) -> Result<Uuid> {
     match read_uuid_opt(reader)? {
-- 
2.43.0


From b036ba55caa8c3a5d95e063fd774296e9072437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 11/28] fix: refuse to save characters that XML cannot carry

Control characters and U+FFFE/U+FFFF were written as they are, which produced
a file that was reported as saved but could not be opened again.
---
 src/format/kdb2_xml_writer.rs |  2 ++
 src/format/xml.rs             | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index abb5c7f..4202e02 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -104,6 +104,7 @@ fn write_binary_section<W: Write>(
             xml::write_end_tag(writer)?;
         }
         BinaryValue::Ref(ref binary_id) => {
+            xml::check_chars(&binary_id.0)?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Ref", binary_id.0.as_str());
             writer.write(tag)?;
@@ -119,6 +120,7 @@ fn write_binaries_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::BINARIES_TAG)?;
     for (id, data) in binaries {
+        xml::check_chars(&id.0)?;
         let tag = XmlEvent::start_element(kdb2::BINARY_TAG);
         let tag = tag.attr("ID", id.0.as_str());
         let tag = tag.attr("Compressed", "True");
diff --git a/src/format/xml.rs b/src/format/xml.rs
index dedf664..afc2152 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -139,6 +139,21 @@ pub fn read_datetime<R: Read>(reader: &mut EventReader<R>) -> Result<DateTime<Ut
     }
 }
 
+/// Checks that the string contains only characters that are allowed in XML.
+pub fn check_chars(value: &str) -> Result<()> {
+    let is_allowed = |c: char| match c {
+        '\t' | '\n' | '\r' => true,
+        '\u{fffe}' | '\u{ffff}' => false,
+        _ => c >= ' ',
+    };
+
+    if value.chars().all(is_allowed) {
+        Ok(())
+    } else {
+        Err(Error::XmlError(String::from("Character not allowed in XML")))
+    }
+}
+
 /// Creates a new read error result.
 pub fn read_err<S, R, X>(reader: &mut EventReader<R>, msg: S) -> Result<X>
 where
@@ -394,6 +409,7 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
+    check_chars(value)?;
     writer.write(value.as_str())?;
     Ok(())
 }
-- 
2.43.0


From c74731c9da769d4f5e7bb1c81c6c1cc8df818eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 12/28] fix: refuse to save a comment that does not fit in its
 header

The length of a comment over 65535 bytes was truncated, which produced a file
that was reported as saved but could not be opened again.
---
 src/format/kdb2_writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 56ddbc4..01cc294 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -18,6 +18,7 @@ use crate::io::Log;
 use crate::types::Comment;
 use crate::types::Compression;
 use crate::types::Database;
+use crate::types::Error;
 use crate::types::HeaderHash;
 use crate::types::MasterCipher;
 use crate::types::MasterIV;
@@ -33,7 +34,7 @@ use crate::types::TransformSeed;
 use crate::types::TransformedKey;
 use crate::types::Version;
 use byteorder::{LittleEndian, WriteBytesExt};
-use std::io::Write;
+use std::io::{self, Write};
 
 /// Attempts to write the database content to the writer.
 pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
@@ -106,6 +107,10 @@ fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
 fn write_comment<W: Write>(writer: &mut W, opt: &Option<Comment>) -> Result<()> {
     match *opt {
         Some(ref comment) => {
+            if comment.0.len() > u16::MAX as usize {
+                let msg = "Comment does not fit in its header";
+                return Err(Error::Io(io::Error::new(io::ErrorKind::InvalidInput, msg)));
+            }
             write_header_id(writer, kdb2::COMMENT_HID)?;
             write_header_size(writer, comment.0.len() as u16)?;
             write_bytes(writer, &comment.0)?;
-- 
2.43.0


From f6df0ad377230b99bbd15e4609fae66cd0e0e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 13/28] fix: refuse to save a protected string that is not
 UTF-8

Such a string was written, but the resulting file could not be opened again.
---
 src/format/kdb2_xml_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 4202e02..d8a6026 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -21,6 +21,7 @@ use crate::types::CustomIconsMap;
 use crate::types::Database;
 use crate::types::Entry;
 use crate::types::EntryState;
+use crate::types::Error;
 use crate::types::Group;
 use crate::types::HeaderHash;
 use crate::types::Result;
@@ -344,6 +345,9 @@ fn write_string_section<W: Write>(
             xml::write_string_tag(writer, kdb2::VALUE_TAG, string)?;
         }
         StringValue::Protected(ref sec) => {
+            if std::str::from_utf8(sec.unsecure()).is_err() {
+                return Err(Error::XmlError(String::from("Protected string is not UTF-8")));
+            }
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-- 
2.43.0


From 51cb93b1aff6d80e213c91cb8f3eca937909b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 14/28] fix: do not panic on a color with non-ASCII characters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Color::from_hex_string counts characters but slices bytes, so opening a file
with a color like #1é2345 panicked.
---
 src/types/color.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 652ee3f..337ac1e 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -139,23 +139,23 @@ impl error::Error for ColorError {
 }
 
 fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[5..7], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidBlueValue),
+    match hex_str.get(5..7).map(|part| u8::from_str_radix(part, 16)) {
+        Some(Ok(val)) => Ok(val),
+        _ => Err(ColorError::InvalidBlueValue),
     }
 }
 
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[3..5], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidGreenValue),
+    match hex_str.get(3..5).map(|part| u8::from_str_radix(part, 16)) {
+        Some(Ok(val)) => Ok(val),
+        _ => Err(ColorError::InvalidGreenValue),
     }
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[1..3], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidRedValue),
+    match hex_str.get(1..3).map(|part| u8::from_str_radix(part, 16)) {
+        Some(Ok(val)) => Ok(val),
+        _ => Err(ColorError::InvalidRedValue),
     }
 }
 
-- 
2.43.0


From 2ea1ea57d322eea44b94492b6d27317a8e72395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 15/28] fix: decipher protected binaries in the meta section

The Protected attribute of a binary was ignored, so its content was wrong and
so was every protected value after it, because the stream was out of step.
---
 src/format/kdb2_xml_reader.rs | 20 +++++++++++++++-----
 src/format/xml.rs             |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index b7dd34b..41eb2ef 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -70,7 +70,7 @@ fn read_kee_pass_file<R: Read>(
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
-                    read_meta(reader, data)?;
+                    read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
@@ -91,13 +91,17 @@ fn read_kee_pass_file<R: Read>(
     Ok(())
 }
 
-fn read_meta<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_meta<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
-                    data.binaries = read_binaries(reader)?;
+                    data.binaries = read_binaries(reader, cipher)?;
                 }
                 kdb2::COLOR_TAG => {
                     data.color = xml::read_color_opt(reader)?;
@@ -218,7 +222,10 @@ fn read_root<R: Read>(
     Ok(())
 }
 
-fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
+fn read_binaries<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<BinariesMap> {
     let mut map = BinariesMap::new();
     loop {
         let event = reader.next()?;
@@ -229,7 +236,10 @@ fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
                     let compressed = get_compressed_attr_value(reader, &attributes)?;
-                    let bytes = if compressed {
+                    let protected = xml::get_protected_attr_value(reader, &attributes)?;
+                    let bytes = if protected {
+                        salsa20::decrypt(cipher, &xml::read_binary(reader)?)
+                    } else if compressed {
                         xml::read_gzip(reader)?
                     } else {
                         xml::read_binary(reader)?
diff --git a/src/format/xml.rs b/src/format/xml.rs
index afc2152..cf4d4a0 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -444,7 +444,8 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
-fn get_protected_attr_value<R: Read>(
+/// Attempts to get the value of the Protected attribute.
+pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<bool> {
-- 
2.43.0


From f20646af011b33c69cba75f33769a109e7e8b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 16/28] fix: keep string keys that differ from a standard key
 only in case

The names of strings are case-sensitive. A custom string named url or TITLE was
turned into the standard one on opening and replaced it if both were present.
---
 src/types/string_key.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/string_key.rs b/src/types/string_key.rs
index d0a083b..9554c29 100644
--- a/src/types/string_key.rs
+++ b/src/types/string_key.rs
@@ -44,12 +44,12 @@ impl StringKey {
     /// let other_key = StringKey::from_string("Foo");
     /// ```
     pub fn from_string(string: &str) -> StringKey {
-        match string.to_lowercase().as_str() {
-            "notes" => StringKey::Notes,
-            "password" => StringKey::Password,
-            "title" => StringKey::Title,
-            "url" => StringKey::Url,
-            "username" => StringKey::Username,
+        match string {
+            "Notes" => StringKey::Notes,
+            "Password" => StringKey::Password,
+            "Title" => StringKey::Title,
+            "URL" => StringKey::Url,
+            "UserName" => StringKey::Username,
             _ => StringKey::Other(String::from(string)),
         }
     }
-- 
2.43.0


From 1a7989be936d89df51198e28ff183a17ef3d684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 17/28] fix: refuse to save a standard string key spelled as
 other key

StringKey::Other("Title") and the like cannot be told from the standard key in
the file, so the string came back under another key or replaced one.
---
 src/format/kdb2_xml_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index d8a6026..dc90b6b 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -337,6 +337,10 @@ fn write_string_section<W: Write>(
     key: &StringKey,
     value: &StringValue,
 ) -> Result<()> {
+    if StringKey::from_string(&key.to_string()) != *key {
+        return Err(Error::XmlError(String::from("Standard string key used as other string key")));
+    }
+
     xml::write_start_tag(writer, kdb2::STRING_TAG)?;
     xml::write_string_tag(writer, kdb2::KEY_TAG, &key.to_string())?;
 
-- 
2.43.0


From b7b596a2c617d21d6b47a01f5aaafc02fad7bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 18/28] fix: refuse to save a binary or hex key file of the
 wrong length

Only keys of 32 bytes can be read back from these types of key files.
---
 src/format/kf_writer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 7386e42..6886488 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -9,7 +9,7 @@
 //! The writer for key files.
 
 use crate::format::{kf, xml};
-use crate::types::{KeyFile, KeyFileType, Result};
+use crate::types::{Error, KeyFile, KeyFileType, Result};
 use rust_xml::writer::{EmitterConfig, EventWriter};
 use std::io::Write;
 
@@ -22,12 +22,22 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     }
 }
 
+fn check_len(key: &KeyFile) -> Result<()> {
+    if key.key.unsecure().len() == kf::BINARY_KEY_FILE_LEN {
+        Ok(())
+    } else {
+        Err(Error::InvalidKeyFile)
+    }
+}
+
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
+    check_len(key)?;
     writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
+    check_len(key)?;
     let hex = hex::encode(key.key.unsecure());
     writer.write_all(&hex.into_bytes())?;
     Ok(())
-- 
2.43.0


From 306ffb4d52e241b94bf031331bc5d0d671d436bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 19/28] fix: read CDATA sections as text

The content of an element written as CDATA section was silently read as empty.
---
 src/format/kdb2_xml_reader.rs | 2 +-
 src/format/kf_reader.rs       | 2 +-
 src/format/xml.rs             | 8 +++++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 41eb2ef..82c58be 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -37,7 +37,7 @@ use std::io::Read;
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
     let mut data = XmlData::default();
-    let mut reader = EventReader::new(reader);
+    let mut reader = xml::new_reader(reader);
     let mut cipher = salsa20::new_cipher(stream_key);
     loop {
         let event = reader.next()?;
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 0819578..9eb00c4 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -45,7 +45,7 @@ fn read_hex(data: Vec<u8>) -> Result<KeyFile> {
 
 fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
     let mut opt_key: Option<SecStr> = None;
-    let mut reader = EventReader::new(reader);
+    let mut reader = xml::new_reader(reader);
     loop {
         let event = reader.next()?;
         match event {
diff --git a/src/format/xml.rs b/src/format/xml.rs
index cf4d4a0..93df1fe 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -28,9 +28,15 @@ use std::io::{Read, Write};
 use uuid::Uuid;
 use xml::attribute::OwnedAttribute;
 use xml::common::Position;
-use xml::reader::{self, EventReader};
+use xml::reader::{self, EventReader, ParserConfig};
 use xml::writer::{self, EventWriter};
 
+/// Creates a new XML reader.
+pub fn new_reader<R: Read>(reader: R) -> EventReader<R> {
+    let config = ParserConfig::new().cdata_to_characters(true);
+    EventReader::new_with_config(reader, config)
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
-- 
2.43.0


From c9ec0478bc4557e6f801565feefcb587baf4b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 20/28] fix: decompress attachments marked as compressed

---
 src/format/kdb2_xml_reader.rs | 15 +--------------
 src/format/xml.rs             | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 82c58be..60d8078 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -235,7 +235,7 @@ fn read_binaries<R: Read>(
             } => match name.local_name.as_str() {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
-                    let compressed = get_compressed_attr_value(reader, &attributes)?;
+                    let compressed = xml::get_compressed_attr_value(reader, &attributes)?;
                     let protected = xml::get_protected_attr_value(reader, &attributes)?;
                     let bytes = if protected {
                         salsa20::decrypt(cipher, &xml::read_binary(reader)?)
@@ -822,19 +822,6 @@ where
     Ok(())
 }
 
-fn get_compressed_attr_value<R: Read>(
-    reader: &mut EventReader<R>,
-    attrs: &Vec<OwnedAttribute>,
-) -> Result<bool> {
-    match xml::search_attr_value(attrs, "compressed") {
-        Some(val) => match val.to_lowercase().parse::<bool>() {
-            Ok(val) => Ok(val),
-            Err(_) => xml::read_err(reader, "Attribute Compressed invalid value"),
-        },
-        None => Ok(false),
-    }
-}
-
 fn get_id_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 93df1fe..36958d6 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -69,6 +69,7 @@ pub fn read_binary_value_opt<R: Read>(
 ) -> Result<Option<BinaryValue>> {
     let ref_value = search_attr_value(attrs, "ref");
     let protected = get_protected_attr_value(reader, attrs)?;
+    let compressed = get_compressed_attr_value(reader, attrs)?;
     match ref_value {
         Some(string) => Ok(Some(BinaryValue::Ref(BinaryId(string)))),
         None => match read_binary_opt(reader)? {
@@ -77,6 +78,8 @@ pub fn read_binary_value_opt<R: Read>(
                     let pbytes = salsa20::decrypt(cipher, &bytes);
                     let secstr = SecStr::new(pbytes);
                     Ok(Some(BinaryValue::Protected(secstr)))
+                } else if compressed {
+                    Ok(Some(BinaryValue::Plain(gzip::decode(&bytes)?)))
                 } else {
                     Ok(Some(BinaryValue::Plain(bytes)))
                 }
@@ -450,6 +453,20 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
+/// Returns whether the value is marked as compressed.
+pub fn get_compressed_attr_value<R: Read>(
+    reader: &mut EventReader<R>,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<bool> {
+    match search_attr_value(attrs, "compressed") {
+        Some(val) => match val.to_lowercase().parse::<bool>() {
+            Ok(val) => Ok(val),
+            Err(_) => read_err(reader, "Attribute Compressed invalid value"),
+        },
+        None => Ok(false),
+    }
+}
+
 /// Attempts to get the value of the Protected attribute.
 pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
-- 
2.43.0


From d900ce3dbec7b17f40536f205cace895d33e6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 21/28] fix: write carriage returns as character references

---
 src/format/xml.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 36958d6..1230597 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -419,7 +419,13 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
     check_chars(value)?;
-    writer.write(value.as_str())?;
+    for (index, part) in value.split('\r').enumerate() {
+        if index > 0 {
+            // A literal carriage return would be read as a line feed.
+            writer.inner_mut().write_all(b"&#xD;")?;
+        }
+        writer.write(part)?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From ec53f5892581555f9f02f9866d17060c0d25cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 22/28] fix: normalize line ends before parsing XML

---
 src/format/kdb2_reader.rs |  3 ++-
 src/format/xml.rs         | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 5fca2a3..609725c 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -10,6 +10,7 @@
 
 use super::kdb2;
 use super::kdb2_xml_reader;
+use super::xml;
 use crate::compression::gzip;
 use crate::crypto::aes256;
 use crate::crypto::sha256;
@@ -131,7 +132,7 @@ where
         return Err(Error::InvalidKey);
     }
 
-    let xml_bytes = read_xml_bytes(&compression, &payload[32..])?;
+    let xml_bytes = xml::normalize_line_ends(read_xml_bytes(&compression, &payload[32..])?);
     let xml_data = kdb2_xml_reader::read(&mut Cursor::new(xml_bytes), &stream_key)?;
     let meta_data = MetaData {
         comment: comment,
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 1230597..1d0f7b6 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -37,6 +37,25 @@ pub fn new_reader<R: Read>(reader: R) -> EventReader<R> {
     EventReader::new_with_config(reader, config)
 }
 
+/// Replaces every line end (CR LF or CR) with a line feed, as XML asks for before parsing.
+pub fn normalize_line_ends(data: Vec<u8>) -> Vec<u8> {
+    // UTF-16 text is left alone; its line ends are not single bytes.
+    if data.starts_with(&[0xfe, 0xff]) || data.starts_with(&[0xff, 0xfe]) {
+        return data;
+    }
+
+    let mut result = Vec::with_capacity(data.len());
+    let mut bytes = data.into_iter().peekable();
+    while let Some(byte) = bytes.next() {
+        if byte != b'\r' {
+            result.push(byte);
+        } else if bytes.peek() != Some(&b'\n') {
+            result.push(b'\n');
+        }
+    }
+    result
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
-- 
2.43.0


From d822aacf73f2631b36b921caef902d3d9d1424b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 23/28] fix: report oversized padding as an error instead of
 panicking

---
 src/crypto/aes256.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 6e6c541..c638b03 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -7,15 +7,18 @@
 // except according to those terms.
 
 use crate::rust_crypto::aes::{self, KeySize};
-use crate::rust_crypto::blockmodes::PkcsPadding;
+use crate::rust_crypto::blockmodes::{NoPadding, PkcsPadding};
 use crate::rust_crypto::buffer::{
     BufferResult, ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer,
 };
+use crate::rust_crypto::symmetriccipher::SymmetricCipherError;
 use crate::types::{MasterIV, MasterKey, Result};
 
+const BLOCK_SIZE: usize = 16;
+
 /// Decrypt the input using the key and initialization vector.
 pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
-    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
+    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, NoPadding);
     let mut output = Vec::new();
     let mut read_buffer = RefReadBuffer::new(input);
     let mut buffer = [0; 4096];
@@ -36,9 +39,27 @@ pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
         }
     }
 
+    strip_padding(&mut output)?;
     Ok(output)
 }
 
+/// Remove the PKCS padding. PkcsPadding itself doesn't check that the padding fits in a block and
+/// panics when it doesn't.
+fn strip_padding(output: &mut Vec<u8>) -> Result<()> {
+    if let Some(&last) = output.last() {
+        let size = last as usize;
+        if size == 0 || size > BLOCK_SIZE || size > output.len() {
+            return Err(SymmetricCipherError::InvalidPadding.into());
+        }
+        let length = output.len() - size;
+        if output[length..].iter().any(|&byte| byte != last) {
+            return Err(SymmetricCipherError::InvalidPadding.into());
+        }
+        output.truncate(length);
+    }
+    Ok(())
+}
+
 /// Encrypt the input using the key and initialization vector.
 pub fn encrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
     let mut cipher = aes::cbc_encryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
-- 
2.43.0


From 897870c9c1b5c6f142acced4f0373e8ec1001286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 24/28] fix: write booleans the way KeePass reads them

---
 src/format/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 1d0f7b6..37ac2cf 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -369,7 +369,9 @@ pub fn write_bool_opt_tag<W: Write>(
 
 /// Attempts to write a tag that contains boolean data.
 pub fn write_bool_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str, value: bool) -> Result<()> {
-    write_bool_opt_tag(writer, tag, &Some(value))
+    // Unlike an optional boolean, which KeePass writes in lower case, this one is capitalized.
+    let value = if value { "True" } else { "False" };
+    write_string_tag(writer, tag, &String::from(value))
 }
 
 /// Attempts to write a tag that contains an optional color.
-- 
2.43.0


From 5b6eca03530197ebb84f988c6adcf2d4c9386a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:35 +0000
Subject: [PATCH 25/28] fix: read text that comments, processing instructions
 or CDATA sections split

---
 src/format/xml.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 37ac2cf..e7d8f1a 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -261,18 +261,23 @@ pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
 
 /// Attempts to read an optional string.
 pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
-    let event = reader.next()?;
-    match event {
-        reader::XmlEvent::Characters(val) => Ok(Some(val)),
-        reader::XmlEvent::Whitespace(val) => Ok(Some(val)),
-        reader::XmlEvent::EndElement { .. } => Ok(None),
-        _ => {
-            let _: Result<Option<String>> =
-                read_err(reader, "No characters found").map_err(|err| {
-                    eprintln!("{}", err);
-                    err
-                });
-            Ok(None)
+    // Comments, processing instructions, and CDATA sections break text into pieces.
+    let mut text: Option<String> = None;
+    loop {
+        match reader.next()? {
+            reader::XmlEvent::Characters(val) | reader::XmlEvent::Whitespace(val) => {
+                text.get_or_insert_with(String::new).push_str(&val)
+            }
+            reader::XmlEvent::ProcessingInstruction { .. } => {}
+            reader::XmlEvent::EndElement { .. } => return Ok(text),
+            _ => {
+                let _: Result<Option<String>> =
+                    read_err(reader, "No characters found").map_err(|err| {
+                        eprintln!("{}", err);
+                        err
+                    });
+                return Ok(text);
+            }
         }
     }
 }
-- 
2.43.0


From f36d3209b6da7ec45bab74df2c3a4394ee792460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:35 +0000
Subject: [PATCH 26/28] fix: refuse colors whose components have a sign

---
 src/types/color.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 337ac1e..2355975 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -138,24 +138,33 @@ impl error::Error for ColorError {
     }
 }
 
+fn from_hex_byte(part: &str) -> Option<u8> {
+    // Numbers may have a sign, hexadecimal digits may not.
+    if part.bytes().all(|byte| byte.is_ascii_hexdigit()) {
+        u8::from_str_radix(part, 16).ok()
+    } else {
+        None
+    }
+}
+
 fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match hex_str.get(5..7).map(|part| u8::from_str_radix(part, 16)) {
-        Some(Ok(val)) => Ok(val),
-        _ => Err(ColorError::InvalidBlueValue),
+    match hex_str.get(5..7).and_then(from_hex_byte) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidBlueValue),
     }
 }
 
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match hex_str.get(3..5).map(|part| u8::from_str_radix(part, 16)) {
-        Some(Ok(val)) => Ok(val),
-        _ => Err(ColorError::InvalidGreenValue),
+    match hex_str.get(3..5).and_then(from_hex_byte) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidGreenValue),
     }
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match hex_str.get(1..3).map(|part| u8::from_str_radix(part, 16)) {
-        Some(Ok(val)) => Ok(val),
-        _ => Err(ColorError::InvalidRedValue),
+    match hex_str.get(1..3).and_then(from_hex_byte) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidRedValue),
     }
 }
 
-- 
2.43.0


From 113da567f77aaf7fde9055c314c9614001453ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:37 +0000
Subject: [PATCH 27/28] fix: refuse documents with more than one root element

---
 src/format/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index e7d8f1a..a446cbf 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -33,7 +33,9 @@ use xml::writer::{self, EventWriter};
 
 /// Creates a new XML reader.
 pub fn new_reader<R: Read>(reader: R) -> EventReader<R> {
-    let config = ParserConfig::new().cdata_to_characters(true);
+    let config = ParserConfig::new()
+        .cdata_to_characters(true)
+        .allow_multiple_root_elements(false);
     EventReader::new_with_config(reader, config)
 }
 
-- 
2.43.0


From cd44781c09fe91e299cc89b04bc3c74a81b31db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:39 +0000
Subject: [PATCH 28/28] fix: ignore white space inside base64 data

---
 src/format/xml.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index a446cbf..045c08c 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -74,10 +74,14 @@ pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
 /// Attempts to read optional binary data.
 pub fn read_binary_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Vec<u8>>> {
     match read_token_opt(reader)? {
-        Some(string) => match general_purpose::STANDARD.decode(&string) {
-            Ok(bin) => Ok(Some(bin)),
-            Err(err) => read_err(reader, format!("Base64 {}", err)),
-        },
+        Some(string) => {
+            // White space, such as line breaks, has no meaning in base64 data.
+            let string = string.split_ascii_whitespace().collect::<String>();
+            match general_purpose::STANDARD.decode(&string) {
+                Ok(bin) => Ok(Some(bin)),
+                Err(err) => read_err(reader, format!("Base64 {}", err)),
+            }
+        }
         None => Ok(None),
     }
 }
-- 
2.43.0

