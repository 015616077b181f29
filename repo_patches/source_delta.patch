From 282df3c23659ee5096cb3b3980314cf1f786fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 01/16] fix: header accessors return None on a message too
 short for its flags instead of panicking

---
 rapiddlt/src/dlt_v1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 68d285d..a2de903 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -345,7 +345,7 @@ impl<'bytes> DltEntry<'bytes> {
     #[inline(always)]
     pub fn ecu_id(&self) -> Option<u32> {
         if self.header.header_type.is_with_ecu_id() {
-            Some(U32::ref_from_prefix(&self.tail[..4])?.get())
+            Some(U32::ref_from_prefix(self.tail)?.get())
         } else {
             None
         }
@@ -385,7 +385,7 @@ impl<'bytes> DltEntry<'bytes> {
         if self.header.header_type.is_with_timestamp() {
             offset += 4;
         }
-        DltExtendedHeader::ref_from_prefix(&self.tail[offset..])
+        DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)
     }
 
     #[inline(always)]
@@ -401,7 +401,7 @@ impl<'bytes> DltEntry<'bytes> {
             offset += 4;
         }
         if self.header.header_type.is_extended_header() {
-            DltExtendedHeader::ref_from_prefix(&self.tail[offset..])?;
+            DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)?;
             offset += DltExtendedHeader::size();
         }
         if offset > self.tail.len() {
-- 
2.43.0


From 324a91db9fd299fb95a2304d3206d47b77f4b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 02/16] fix: the message type info mask covers the upper four
 bits of the message info

---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index a2de903..62e3621 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -204,7 +204,7 @@ pub enum DltControlMessageTypeInfo {
 enum DltMessageInfoMask {
     Verbose = 0x1,
     MessageType = 0x7 << 1,
-    MessageTypeInfo = 0x15 << 4,
+    MessageTypeInfo = 0xf << 4,
 }
 
 #[derive(AsBytes,FromBytes,FromZeroes)]
-- 
2.43.0


From a6f300498e31f3e3498db3989c6af5fff05fffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 03/16] fix: create_message_type encodes the message type, not
 a function address

---
 rapiddlt/src/dlt_v1.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 62e3621..7b3dc32 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -239,19 +239,19 @@ impl MessageType {
         }
         match typ {
             DltMessageType::DltTypeLog(mtin) => {
-                msin |= ((DltMessageType::DltTypeLog as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x0 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeAppTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeAppTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x1 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeNwTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeNwTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x2 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeControl(mtin) => {
-                msin |= ((DltMessageType::DltTypeControl as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x3 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
         }
-- 
2.43.0


From a601e9f98430e930dfb6025c75d5985615ba492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 04/16] fix: max_len of a storage entry includes the storage
 header

---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 7b3dc32..941cfa7 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -331,7 +331,7 @@ impl<'bytes> FromBytesReadableTrait<'bytes> for DltStorageEntry<'bytes> {
     }
 
     fn max_len() -> usize {
-        u16::MAX as usize
+        u16::MAX as usize + mem::size_of::<DltStorageHeader>()
     }
 }
 
-- 
2.43.0


From 77fd5776c2cd5e8d686534ed93232d56aef386c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 05/16] fix: marker search iterators iterate instead of
 recursing, and stay at their end

---
 matchit/src/searchable/searchit.rs | 49 +++++++++++++++---------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e543534..13524de 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -51,19 +51,21 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset + t.len();
-                Some((offset, t))
-            }
-            None => {
-                self.offset += T::marker().len();
-                if self.offset >= self.bytes.len() {
-                    return None
+        while self.offset < self.bytes.len() {
+            let candidate = match self.finder.find(&self.bytes[self.offset..]) {
+                Some(position) => self.offset + position,
+                None => {
+                    self.offset = self.bytes.len();
+                    break
                 }
-                self.next()
+            };
+            if let Some((_, t)) = T::try_read_valid_marker(&self.bytes[candidate..]) {
+                self.offset = candidate + t.len();
+                return Some((candidate, t))
             }
+            self.offset = candidate + T::marker().len();
         }
+        None
     }
 }
 
@@ -107,22 +109,19 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset;
-                Some((self.offset, t))
-            }
-            None => {
-                match self.offset.checked_sub(T::marker().len()) {
-                    Some(sub) => self.offset = sub,
-                    None => self.offset = usize::MAX,
-                };
-                if self.offset == usize::MAX {
-                    return None
-                }
-                self.next()
+        // usize::MAX marks the end of the search
+        if self.offset == usize::MAX {
+            return None
+        }
+        let mut end = self.offset.min(self.bytes.len());
+        while let Some(candidate) = self.finder.rfind(&self.bytes[..end]) {
+            if let Some((_, t)) = T::try_read_valid_marker(&self.bytes[candidate..]) {
+                self.offset = candidate;
+                return Some((candidate, t))
             }
+            end = candidate;
         }
+        self.offset = usize::MAX;
+        None
     }
 }
-
-- 
2.43.0


From 78978ae1193203b8b4133d6d85d4b43477addda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 06/16] fix: grep iterators end on empty matches, and captures
 advance to the end of their entry

---
 matchit/src/searchable/grepit.rs | 91 ++++++++++++++++----------------
 1 file changed, 45 insertions(+), 46 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a23914d..eac22b1 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -1,10 +1,22 @@
-use std::marker::PhantomData;
+use std::{marker::PhantomData, ops::Range};
 
 use regex::bytes::Regex;
 use crate::{TIterator, WithOffset};
 
 use super::{searchit::RevSearchIterator, SearchableMarkerTrait};
 
+/// Is the match part of the entry with ``len`` bytes at ``offset``?
+#[inline(always)]
+fn includes(offset: usize, len: usize, foundit: &Range<usize>) -> bool {
+    foundit.start < offset + len && foundit.end <= offset + len
+}
+
+/// Where to search for the next match (an empty match may not be found again).
+#[inline(always)]
+fn resume_after(foundit: &Range<usize>) -> usize {
+    if foundit.is_empty() { foundit.end + 1 } else { foundit.end }
+}
+
 #[derive(Debug)]
 pub struct GrepIterator<'bytes, T>
 {
@@ -32,28 +44,19 @@ impl<'bytes, T> GrepIterator<'bytes, T>
 {
     #[inline(always)]
     pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let foundit = self.finder.find_at(bytes, offset)?.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.search(bytes, foundit.end)
-                } else {
-                    Some((_off, val))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
+        let mut offset = offset;
+        while offset < bytes.len() {
+            let foundit = self.finder.find_at(bytes, offset)?.range();
+
+            if let Some((_off, val)) = self.iter.search(bytes, foundit.start) {
+                if includes(_off, val.len(), &foundit) {
+                    return Some((_off, val))
                 }
-                self.search(bytes, foundit.end)
-            },
+            }
+            // match not included
+            offset = resume_after(&foundit);
         }
-
+        None
     }
 }
 
@@ -101,30 +104,26 @@ where
 {
     #[inline(always)]
     pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let mut locs = self.finder.capture_locations();
-        let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
-
-        let foundit = captures.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.capture(bytes, foundit.end)
-                } else {
-                    Some((_off, locs.get(1)?))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
+        let (offset, _, captured) = self.capture_entry(bytes, offset)?;
+        Some((offset, captured))
+    }
+
+    /// Returns offset, entry and first capture group of the next match that is included in an entry.
+    fn capture_entry(&self, bytes: &'bytes [u8], offset: usize) -> Option<(usize, T, (usize, usize))> {
+        let mut offset = offset;
+        while offset < bytes.len() {
+            let mut locs = self.finder.capture_locations();
+            let foundit = self.finder.captures_read_at(&mut locs, bytes, offset)?.range();
+
+            if let (Some((_off, val)), Some(captured)) = (self.iter.search(bytes, foundit.start), locs.get(1)) {
+                if includes(_off, val.len(), &foundit) {
+                    return Some((_off, val, captured))
                 }
-                self.capture(bytes, foundit.end)
-            },
+            }
+            // match not included
+            offset = resume_after(&foundit);
         }
+        None
     }
 }
 
@@ -136,12 +135,12 @@ where
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        let (offset, val) = self.capture(self.bytes, self.offset)?;
+        let (offset, val, captured) = self.capture_entry(self.bytes, self.offset)?;
 
         // we need to go at the end of a DLT entry in order
         // not to emit the same DLT entry twice
-        self.offset = offset + val.1;
+        self.offset = offset + val.len();
 
-        Some((offset, val))
+        Some((offset, captured))
     }
 }
-- 
2.43.0


From 847aefb5ead181410927ad2167bb3a31e06509ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 07/16] fix: a container may end at the end of the buffer

---
 matchit/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 753bb5a..d1d7a20 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -76,7 +76,7 @@ where
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
-        if payload.0 >= bytes.len() || payload.1 >= bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
+        if payload.1 > bytes.len() || payload.0 >= payload.1 {
             return None
         }
         
-- 
2.43.0


From 87063b2fc99a743dd050dfa6edca5e4b4c1a57c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 08/16] fix: partitions lost the tail of the buffer behind a
 long message, and panicked or never ended for num of 0 or above the length

---
 matchit/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index d1d7a20..f4d0db0 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -114,15 +114,20 @@ where
 pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], num: usize) -> Vec<&'bytes [u8]> {
     let mut result: Vec<&[u8]> = vec![];
 
-    let size = bytes.len() / num;
+    let size = (bytes.len() / num.max(1)).max(1);
     let mut candidate = (0, size);
 
     let search = ContainedBySearch::<T>::new();
     loop {
         // out of bounds checks: canidates may not exceed ``bytes`` slice and
         if candidate.0 > bytes.len() || candidate.1 > bytes.len() {
+            // the remainder is the last partition
+            if candidate.0 < bytes.len() {
+                result.push(&bytes[candidate.0..]);
+            }
             break;
         }
+        let split = candidate.1;
         candidate.1 = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
             Some((container ,_)) => {
                 // in ~99 percent of the cases, candidate.1 points to a valid T.
@@ -137,7 +142,9 @@ pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [
         
         // candidate.1 may not point to a container that is part of another partition
         if candidate.0 >= candidate.1 {
-            break;
+            // the container spans over the whole partition: try the next possible split
+            candidate.1 = split + size;
+            continue;
         }
 
         // store result and check for the next candidate for a split
-- 
2.43.0


From 7947b497c9dab4bf2a164bcc85f0792be3bd6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 09/16] fix: grouping lost the item behind one that is not
 related to itself

---
 matchit/src/generator/groupby.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index f1fc265..841d7e8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -47,6 +47,7 @@ where
                     self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(Some((prev.clone(), prev.clone())))
                 } else {
+                    self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(None)
                 }
             },
-- 
2.43.0


From f9aa93c37efbd7b0f3ef87c32cea3c514db442ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:38 +0000
Subject: [PATCH 10/16] fix: read_file passed over a failing read and returned
 what was read so far

---
 rapiddlt/src/dltbuffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 7eac240..6e8ba1d 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -16,7 +16,7 @@ impl DltBuffer {
         let file = File::open(filename)?;
         let mut rdr = BufReader::new(file);
         let mut buf: Vec<u8> = vec![];
-        let _ = rdr.read_to_end(&mut buf);
+        rdr.read_to_end(&mut buf)?;
         Ok(DltBuffer::Read(buf))
     }
     pub fn len(&self) -> usize {
-- 
2.43.0


From 0a2d0566f27cd2e9f27047b3f366542cbb8b8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 11/16] fix: dd_dlt lost output on short writes and passed over
 failures to read and to flush

---
 dd_dlt/src/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index ec4950d..afc8fb6 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -27,7 +27,8 @@ fn main() -> Result<(), std::io::Error> {
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
             Ok(_) => (),
-            _ => {break;}
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {break;}
+            Err(e) => return Err(e),
         };
 
         // DltStorageHeader
@@ -47,15 +48,16 @@ fn main() -> Result<(), std::io::Error> {
                 appid.try_into().expect("app id incorrect")
         );
 
-        io::stdout().write(sh.as_bytes())?;
-        io::stdout().write(h.as_bytes())?;
+        io::stdout().write_all(sh.as_bytes())?;
+        io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write(U32::from(count * 100).as_bytes())?;
-        io::stdout().write(eh.as_bytes())?;
-        io::stdout().write(buf.as_bytes())?;
+        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(eh.as_bytes())?;
+        io::stdout().write_all(buf.as_bytes())?;
 
         count += 1;
     }
+    io::stdout().flush()?;
     eprintln!("wrote {} DLT messages with payload size={}b", count, payload_size);
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From 89c5a1e91662319620a9f1610fef1ac39d3783a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 12/16] fix: dd_dlt wrote messages of a wrong length for
 payloads above 65517 bytes, and without end for empty ones

---
 dd_dlt/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index afc8fb6..b221008 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -21,6 +21,12 @@ fn main() -> Result<(), std::io::Error> {
         Err(_) => panic!("wrong parameter"),
     };
 
+    // the length field counts the headers, too
+    let len = match payload_size.checked_add(4 + 10 + 4) {
+        Some(len) if payload_size > 0 => len,
+        _ => panic!("wrong parameter"),
+    };
+
     let mut buf = vec![0u8; payload_size as usize];
     let mut count = 0;
 
@@ -38,7 +44,6 @@ fn main() -> Result<(), std::io::Error> {
             (count % 100) as i32 * 10000,
             ecuid.try_into().expect("ecuid wrong"));
 
-        let len = 4 + 10 + 4 + payload_size;
         let htyp = DltHTyp::new(true, false, false, false, true, 0x1);
         let h = DltStandardHeader::new(htyp, count as u8, len);
         let eh = DltExtendedHeader::new(
-- 
2.43.0


From 6e89e46792bf669101d1b409a10a316173f8ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 13/16] fix: dd_dlt overflowed computing the timestamp of a
 message

---
 dd_dlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index b221008..60a6809 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -28,7 +28,7 @@ fn main() -> Result<(), std::io::Error> {
     };
 
     let mut buf = vec![0u8; payload_size as usize];
-    let mut count = 0;
+    let mut count: u64 = 0;
 
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
@@ -40,7 +40,7 @@ fn main() -> Result<(), std::io::Error> {
         // DltStorageHeader
         let sh = DltStorageHeader::new(
             [b'D',b'L',b'T', 0x1],
-            count / 100,
+            (count / 100) as u32,
             (count % 100) as i32 * 10000,
             ecuid.try_into().expect("ecuid wrong"));
 
@@ -56,7 +56,7 @@ fn main() -> Result<(), std::io::Error> {
         io::stdout().write_all(sh.as_bytes())?;
         io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(U32::from((count * 100) as u32).as_bytes())?;
         io::stdout().write_all(eh.as_bytes())?;
         io::stdout().write_all(buf.as_bytes())?;
 
-- 
2.43.0


From 87c30bca7561cfa44183d6d39e779c37cbec7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 14/16] fix: ripdlt panicked printing ECU ids that are not
 UTF-8

---
 ripdlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index edfe799..21703dc 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -321,19 +321,19 @@ fn main() {
         "split_lifecycles" =>{
             println!("Distribution of lifecycle durations:");
             for (k,v) in lifecycle_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in timestamp_splitit(mmap.as_slice()) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "par_split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in par_timestamp_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "histogram_timestamp" =>{
-- 
2.43.0


From fda70307b01649fbe421e8bdeebbe722fde46717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 15/16] fix: ripdlt panicked on messages too short for their
 flags

---
 ripdlt/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index 21703dc..952ed52 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -106,7 +106,7 @@ fn count_hello_world(mmap: &[u8]) -> usize {
 
     let it = dltit(mmap);
 
-    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().expect("needs to be a valid DLT")).next().is_some();
+    let predicate = |a: &DltStorageEntry<'_>| a.dlt.payload().is_some_and(|p| finder.find_iter(p).next().is_some());
     let result = it
         .filter(predicate)
         .count();
@@ -153,7 +153,7 @@ fn mstp_info_histogram(mmap: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType
     let it = dltit(mmap.as_slice());
 
     it
-        .filter(|dlt| dlt.dlt.header.header_type.is_extended_header())
+        .filter(|dlt| dlt.dlt.extended_header().is_some())
         .split(|dlt|  dlt.dlt.extended_header().unwrap().msin.info(), |_| Generator::count() )
 }
 
@@ -164,7 +164,7 @@ fn lifecycle_splitit(mmap: DltBuffer) -> BTreeMap<[u8;4],  (BTreeMap<u32, usize>
     let mapping = |r: &(DltStorageEntry<'_>,DltStorageEntry<'_>)| (r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap()) / 10000;
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .split(
             |a: &DltStorageEntry<'_>| a.storage_header.ecu,
             |_| Generator::fork(
@@ -227,7 +227,7 @@ fn lifecycle_histogram(mmap: DltBuffer) -> BTreeMap<usize, usize> {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| a.dlt.ecu_id() == b.dlt.ecu_id() && b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .map(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap())
     ;
@@ -265,7 +265,7 @@ fn lifecycle_iter(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
@@ -281,7 +281,7 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .tuple_windows()
         .filter( |(a,b) |(predicate)(a,b))
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
-- 
2.43.0


From be748d8ace1b5f81f03bb3afd51d63b65e784e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:33 +0000
Subject: [PATCH 16/16] fix: ripdlt's itertools variant counted pauses instead
 of lifecycles

---
 ripdlt/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index 952ed52..5e291b9 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -282,8 +282,8 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
 
     let result = it
         .filter(|e| e.dlt.timestamp().is_some())
-        .tuple_windows()
-        .filter( |(a,b) |(predicate)(a,b))
+        .map(|e| (e, e))
+        .coalesce(|r, next| if predicate(&r.1, &next.0) { Ok((r.0, next.1)) } else { Err((r, next)) })
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
     let r = result.count();
-- 
2.43.0

