From a5cd675cabeefc030ff8aa685d5ad5f99053ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 01/10] fix: LimitedReader::skip must not consume the source
 when the limit is exceeded

The default Reader::skip() consumed 512 byte chunks from the inner reader
before noticing that the request did not fit inside the limit.
---
 src/io/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 2c19e58..1445ff1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -293,4 +293,13 @@ impl<'a> Reader for LimitedReader<'a> {
         }
         ret
     }
+
+    fn skip(&mut self, count: usize) -> Result<()> {
+        self.can_read(count)?;
+        let ret = self.source.skip(count);
+        if ret.is_ok() {
+            self.available -= count;
+        }
+        ret
+    }
 }
-- 
2.43.0


From 096337c0bc6a021e2e36ac6501b2926360cab51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 02/10] fix: skip_u64() of seekable streams must not overflow
 the position

curr_pos + count overflowed for large counts: a panic with overflow checks,
a successful backward seek without them.
---
 src/io/std_io/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index f853b52..48d89b3 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -197,12 +197,12 @@ where
             if curr_pos == end_pos {
                 Err(ErrorKind::EndOfData)
             } else {
-                let new_pos = curr_pos + count;
-                if new_pos <= end_pos {
-                    self.seek(std::io::SeekFrom::Start(new_pos))?;
-                    Ok(())
-                } else {
-                    Err(ErrorKind::UnableToReadData)
+                match curr_pos.checked_add(count) {
+                    Some(new_pos) if new_pos <= end_pos => {
+                        self.seek(std::io::SeekFrom::Start(new_pos))?;
+                        Ok(())
+                    }
+                    _ => Err(ErrorKind::UnableToReadData),
                 }
             }
         }
-- 
2.43.0


From b4409089bc0366b2fe7976c8d0d0115afb54d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 03/10] fix: SizedSeek::available() must not underflow past the
 end of the data

---
 src/io/std_io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 48d89b3..4d50a7a 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -66,7 +66,7 @@ pub trait SizedSeek {
     fn offset(&mut self) -> Result<u64>;
     /// Returns the number of bytes available for reading.
     fn available(&mut self) -> Result<u64> {
-        Ok(self.len()? - self.offset()?)
+        Ok(self.len()?.saturating_sub(self.offset()?))
     }
 }
 
-- 
2.43.0


From 6b3e61b7ab7ead5a32990136b561da6bcc67de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 04/10] fix: WriteWriter must complete short and interrupted
 writes

std::io::Write::write() is allowed to write only part of the buffer or to be
interrupted; both made a valid sink fail after a partial output.
---
 src/io/std_io/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 4d50a7a..cb04bf5 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -143,17 +143,15 @@ impl<'a> WriteWriter<'a> {
 impl<'a> Writer for WriteWriter<'a> {
     fn write(&mut self, value: u8) -> Result<()> {
         let tmp: [u8; 1] = [value];
-        match self.dest.write(&tmp) {
-            Ok(1) => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
-            Err(e) => Err(ErrorKind::IOError(e)),
-        }
+        Writer::write_all(self, &tmp)
     }
 
     fn write_all(&mut self, buff: &[u8]) -> Result<()> {
-        match self.dest.write(&buff) {
-            Ok(n) if n == buff.len() => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
+        match self.dest.write_all(buff) {
+            Ok(()) => Ok(()),
+            Err(e) if e.kind() == std::io::ErrorKind::WriteZero => {
+                Err(ErrorKind::UnableToWriteData)
+            }
             Err(e) => Err(ErrorKind::IOError(e)),
         }
     }
-- 
2.43.0


From 82cbc68d19ef1ee3a334ff5dd67513cb288632bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 05/10] fix: BorrowedVecWriter::bytes_written() must not
 underflow after set_offset()

---
 src/io/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/array/mod.rs b/src/io/array/mod.rs
index dfb734f..9b21170 100644
--- a/src/io/array/mod.rs
+++ b/src/io/array/mod.rs
@@ -446,7 +446,7 @@ impl<'a> BorrowedVecWriter<'a> {
 
     /// Returns the number of bytes actually written.
     pub fn bytes_written(&self) -> usize {
-        self.offset - self.initial_offset
+        self.offset.saturating_sub(self.initial_offset)
     }
 }
 
-- 
2.43.0


From 821430a913a10239429743d7f4e0c2e753eced73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 06/10] fix: ILTag::size() must compute the value size only
 once

Calling value_size() twice per level made the cost of size(), serialize() and
to_bytes() exponential on the nesting depth of the tag.
---
 src/tags/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tags/mod.rs b/src/tags/mod.rs
index 58d116c..f81af03 100644
--- a/src/tags/mod.rs
+++ b/src/tags/mod.rs
@@ -197,10 +197,11 @@ pub trait ILTag: Any + Send + Sync {
     /// Returns the total size of the tag in bytes.
     fn size(&self) -> u64 {
         let mut size: u64 = encoded_size(self.id()) as u64;
+        let value_size = self.value_size();
         if !self.is_implicity() {
-            size += encoded_size(self.value_size()) as u64;
+            size += encoded_size(value_size) as u64;
         }
-        size + self.value_size()
+        size + value_size
     }
 
     /// Serializes the payload of this tag.
-- 
2.43.0


From 86920276e59a525af426ab18002a1eba0f9c3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 07/10] fix: do not reserve memory for a declared number of
 array elements

The element count of ILILIntArrayTag and ILTagArrayTag is only limited by the
declared value size, so a few corrupted bytes could reserve gigabytes.
---
 src/tags/standard/explicit/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tags/standard/explicit/mod.rs b/src/tags/standard/explicit/mod.rs
index ce92b0a..aeb09e6 100644
--- a/src/tags/standard/explicit/mod.rs
+++ b/src/tags/standard/explicit/mod.rs
@@ -534,7 +534,6 @@ impl ILTag for ILILIntArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.value.clear();
-        self.value.reserve(count as usize);
         for _i in 0..count {
             self.value.push(lreader.deserialize_ilint()?);
         }
@@ -686,7 +685,6 @@ impl ILTag for ILTagArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.inner.value.clear();
-        self.inner.value.reserve(count as usize);
         for _i in 0..count {
             self.inner.value.push(factory.deserialize(&mut lreader)?);
         }
-- 
2.43.0


From 2bed7c9c19619584dae0e12c368f634893b61b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 08/10] fix: RawTagScanner must reject tags whose end does not
 fit in an u64

The sum of the offset, header size and value size overflowed with a corrupted
value size.
---
 src/tags/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 2769d90..765fb53 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -227,7 +227,10 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
-        self.offset += header_size + value_size;
+        self.offset = header_size
+            .checked_add(value_size)
+            .and_then(|size| offset.checked_add(size))
+            .ok_or(ErrorKind::CorruptedData)?;
         self.reader.skip_u64(bytes_to_skip)?;
         Ok(Some(RawTagOffset {
             id,
-- 
2.43.0


From dd59a5bb15ae0dce81f1a25f849631a5fa3caa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 09/10] fix: RawTagScanner must report the header size actually
 present in the data

The header size was computed from the shortest encoding of the id and of the
value size, so every offset was wrong after an ILInt that is not the shortest.
---
 src/tags/raw/mod.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 765fb53..93a2d8a 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -41,7 +41,6 @@
 #[cfg(test)]
 mod tests;
 use crate::io::Reader;
-use crate::tags::serialization::*;
 use crate::tags::standard::constants::*;
 use crate::tags::{is_implicit_tag, ErrorKind, Result};
 
@@ -221,9 +220,9 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
 
     /// Returns the information about the next tag.
     pub fn next_tag(&mut self) -> Result<Option<RawTagOffset>> {
-        let id: u64 = self.reader.deserialize_ilint()?;
+        let (id, id_size) = self.extract_ilint()?;
         let size_info = self.extract_tag_size(id)?;
-        let header_size: u64 = crate::ilint::encoded_size(id) as u64 + size_info.0;
+        let header_size: u64 = id_size + size_info.0;
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
@@ -275,15 +274,28 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
                 }
             }
         } else {
-            let value_size = self.reader.deserialize_ilint()?;
-            (
-                crate::ilint::encoded_size(value_size) as u64,
-                value_size,
-                value_size,
-            )
+            let (value_size, size_size) = self.extract_ilint()?;
+            (size_size, value_size, value_size)
         })
     }
 
+    /// Extracts an ILInt from the reader.
+    ///
+    /// Returns (u64, u64) where:
+    /// - 0: The value of the ILInt;
+    /// - 1: Number of bytes actually used by its encoding. It may be larger
+    ///   than its `encoded_size()` if the encoding is not the shortest one;
+    fn extract_ilint(&mut self) -> Result<(u64, u64)> {
+        let mut buff: [u8; 9] = [0; 9];
+        buff[0] = self.reader.read()?;
+        let size = crate::ilint::decoded_size(buff[0]);
+        self.reader.read_all(&mut buff[1..size])?;
+        match crate::ilint::decode_from_bytes(&buff[..size]) {
+            Ok((value, _)) => Ok((value, size as u64)),
+            Err(_) => Err(ErrorKind::CorruptedData),
+        }
+    }
+
     /// Extracts the size of an implicit ILInt tag from the reader.
     ///
     /// Returns (u64, u64, u64) where:
-- 
2.43.0


From af917e7b34ffb5e16caa67916ae334351d137193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 10/10] fix: a failed skip of a seekable stream must not move
 it

skip_u64() left the stream at its end when less than the requested amount
of data was available.
---
 src/io/std_io/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index cb04bf5..0cd36fe 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -200,7 +200,11 @@ where
                         self.seek(std::io::SeekFrom::Start(new_pos))?;
                         Ok(())
                     }
-                    _ => Err(ErrorKind::UnableToReadData),
+                    _ => {
+                        // All-or-nothing: go back to where the skip started.
+                        self.seek(std::io::SeekFrom::Start(curr_pos))?;
+                        Err(ErrorKind::UnableToReadData)
+                    }
                 }
             }
         }
-- 
2.43.0

