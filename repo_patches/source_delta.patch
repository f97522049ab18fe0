From d59b300b8c593c8af0aa89f4323c556fc2b75921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 01/14] fix: deserialise () from its own serialised body when
 unknown fields are errors

`Serialize` writes a top-level (or delegated) unit as a tag-1 field holding an
empty struct, but deserialising it treated that field as unknown, so () and
e.g. Result<(), ()> could not be read back with ignore_unknown_fields = false.
---
 src/de.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6cee4ac..f1b69dc 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1377,7 +1377,55 @@ macro_rules! des_tuple {
     } }
 }
 
-des_tuple!();
+impl<R : Read, STYLE> Deserialize<R, STYLE> for () {
+    type Accum = Option<()>;
+
+    fn deserialize_body(context: &Context, stream: &mut stream::Stream<R>)
+                        -> Result<()> {
+        // As a body, the unit is serialised in the default way, i.e., as a
+        // single field with tag 1 holding the (empty) struct, so that field is
+        // not unknown even though there is nothing to extract from it.
+        let mut top = None;
+        while let Some(mut field) = stream.next_field().context(context)? {
+            if 1 == field.tag && !context.config.ignore_unknown_fields {
+                let subcontext = context.push("top", field.pos)?;
+                <() as Deserialize<R, STYLE>>::deserialize_field(
+                    &mut top, &subcontext, &mut field)?;
+            } else {
+                context.unknown_field(&field)?;
+                field.skip().context(context)?;
+            }
+        }
+        Ok(())
+    }
+
+    fn deserialize_field(accum: &mut Option<()>, context: &Context,
+                         field: &mut stream::Field<R>) -> Result<()> {
+        if accum.is_some() {
+            return Err(Error::FieldOccursTooManyTimes(
+                context.to_string(), 1));
+        }
+
+        *accum = Some(<() as Deserialize<R, STYLE>>::deserialize_element(
+            context, field)?);
+        Ok(())
+    }
+
+    fn deserialize_element(context: &Context, field: &mut stream::Field<R>)
+                           -> Result<()> {
+        let stream = field.value.to_struct().context(context)?;
+        while let Some(child) = stream.next_field().context(context)? {
+            context.unknown_field(&child)?;
+            child.skip().context(context)?;
+        }
+        Ok(())
+    }
+
+    fn finish(accum: Option<()>, context: &Context) -> Result<()> {
+        accum.ok_or_else(|| Error::RequiredFieldMissing(
+            context.to_string()))
+    }
+}
 des_tuple!(1: field_0: F0);
 des_tuple!(1: field_0: F0, 2: field_1: F1);
 des_tuple!(1: field_0: F0, 2: field_1: F1, 3: field_2: F2);
-- 
2.43.0


From cf5ee25e16297f49581c916ebe94ed8a77bc1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 02/14] fix: seeking a blob by i64::MIN overflows instead of
 being refused

---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 4aa2031..087a8fc 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1320,13 +1320,13 @@ impl<'d, R : Seek + 'd> Seek for Blob<'d, R> {
             },
             io::SeekFrom::End(off) => {
                 check!(off <= 0);
-                let off = (-off) as u64;
+                let off = (off as u64).wrapping_neg();
                 check!(off <= self.len);
                 self.start_pos() + (self.len - off)
             },
             io::SeekFrom::Current(off) => {
                 if off < 0 {
-                    let off = (-off) as u64;
+                    let off = (off as u64).wrapping_neg();
                     check!(off <= self.inner_pos());
                     self.stream_pos() - off
                 } else {
-- 
2.43.0


From f6cac7869b54e7b4376a0a6f948f597c8e57d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 03/14] fix: Context::collect(n) charges one element whatever n
 is

---
 src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index f1b69dc..f84ac55 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -327,7 +327,7 @@ impl<'a> Context<'a> {
         if self.config.max_collect - self.stats.collected.get() < n {
             Err(Error::MaxCollectExceeded(self.to_string()))
         } else {
-            self.stats.collected.set(self.stats.collected.get() + 1);
+            self.stats.collected.set(self.stats.collected.get() + n);
             Ok(())
         }
     }
-- 
2.43.0


From 5f5631be4f61b073ea5bc93a20fef1b00f0c5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 04/14] fix: limit accounting underflows under a context with
 tighter limits

---
 src/de.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index f84ac55..d3e5a94 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -324,7 +324,9 @@ impl<'a> Context<'a> {
     /// to `max_collect`, update the running collection count and return `Ok`.
     /// Otherwise, return an error.
     pub fn collect(&self, n: usize) -> Result<()> {
-        if self.config.max_collect - self.stats.collected.get() < n {
+        if self.stats.collected.get().checked_add(n)
+            .map_or(true, |total| total > self.config.max_collect)
+        {
             Err(Error::MaxCollectExceeded(self.to_string()))
         } else {
             self.stats.collected.set(self.stats.collected.get() + n);
@@ -336,7 +338,9 @@ impl<'a> Context<'a> {
     /// `max_blob`, update the running sum and return `Ok`. Otherwise, return
     /// an error.
     pub fn blob(&self, n: u64) -> Result<()> {
-        if ((self.config.max_blob - self.stats.total_blob.get()) as u64) < n {
+        if (self.stats.total_blob.get() as u64).checked_add(n)
+            .map_or(true, |total| total > self.config.max_blob as u64)
+        {
             Err(Error::MaxBlobExceeded(self.to_string()))
         } else {
             self.stats.total_blob.set(
-- 
2.43.0


From a235b7158cfdbcfcb18b8a0bfda6376b6210dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 05/14] fix: refuse invalid field tags in builds without debug
 assertions

The write functions are documented to panic on an invalid tag, but the check was
a debug_assert, so a release build silently wrote a different element.
---
 src/wire.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wire.rs b/src/wire.rs
index 39cee78..4c51787 100644
--- a/src/wire.rs
+++ b/src/wire.rs
@@ -107,7 +107,8 @@ impl From<ParsedDescriptor> for Descriptor {
     fn from(d: ParsedDescriptor) -> Self {
         Descriptor(match d {
             ParsedDescriptor::Pair(ty, tag) => {
-                debug_assert!(tag >= 1 && tag <= 63);
+                assert!(tag >= 1 && tag <= 63,
+                        "invalid fourleaf field tag {}", tag);
                 tag | (ty as u8)
             },
             ParsedDescriptor::Special(ty) => ty as u8
-- 
2.43.0


From edcdc4b9f104e72ec01115754147b8eac7009b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 06/14] fix: Blob::fill_buf performs IO past the end of the
 blob

At the end of the blob, read() returns 0 without touching the underlying
reader, but fill_buf() asked it for more data, and so could block or fail on
bytes that do not belong to the blob.
---
 src/stream.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 087a8fc..e4c4414 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1281,6 +1281,11 @@ impl<'d, R : Read + 'd> Read for Blob<'d, R> {
 impl<'d, R : BufRead + 'd> BufRead for Blob<'d, R> {
     fn fill_buf(&mut self) -> io::Result<&[u8]> {
         let avail = min(usize::MAX as u64, self.remaining()) as usize;
+        if 0 == avail {
+            // Don't touch bytes which don't belong to the blob
+            return Ok(&[]);
+        }
+
         let ret = self.stream.fill_buf_nb()?;
         Ok(&ret[..min(avail, ret.len())])
     }
-- 
2.43.0


From 6631b60f7c8b6ccae9f63c7a8f779c7999a80751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 07/14] fix: Blob::ext_slice does not consume the blob

It is documented to return the unconsumed bytes, consuming them, but left the
position alone, so that reading on returned the same bytes again. Consuming
needs `Read`, which every stream a blob can be read from provides.
---
 src/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index e4c4414..cc7b715 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1207,12 +1207,13 @@ impl<'d, R : 'd> Blob<'d, R> {
     /// Returns `Err` if the nominal length of the blob is larger than the
     /// underlying slice.
     pub fn ext_slice<'a>(&mut self) -> Result<&'a [u8]>
-    where R : AsExtBytes<'a> {
+    where R : Read + AsExtBytes<'a> {
         let buf = self.stream.inner.as_ext_bytes();
         let remaining = self.remaining();
         if remaining > (buf.len() as u64) {
             Err(Error::TruncatedBlob(remaining - (buf.len() as u64)))
         } else {
+            self.stream.skip_blob()?;
             Ok(&buf[..(remaining as usize)])
         }
     }
-- 
2.43.0


From 1daaa24c7d754b6fd7e5c812bfa042fea856836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 08/14] fix: slicing panics when the cursor is past the end of
 the buffer

Seeking a blob handle beyond the end of a truncated buffer is allowed (the blob's
declared length is what bounds it), but slice(), slice_mut() and ext_slice() then
panicked instead of returning TruncatedBlob.
---
 src/io.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index b2e0387..9cdeecb 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,6 +9,7 @@
 
 //! Specialised adapters for doing IO.
 
+use std::cmp::min;
 use std::io::{self, BufRead, Read, Seek, Write};
 
 /// A simple wrapper around `io::Cursor` which exposes `AsRef<[u8]>` and
@@ -56,16 +57,20 @@ impl<T : AsRef<[u8]>> Seek for TransparentCursor<T> {
 impl<T : AsRef<[u8]>> AsRef<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_ref(&self) -> &[u8] {
-        let pos = self.0.position() as usize;
-        &self.0.get_ref().as_ref()[pos..]
+        let buf = self.0.get_ref().as_ref();
+        // The cursor may have been moved past the end of the buffer
+        let pos = min(self.0.position(), buf.len() as u64) as usize;
+        &buf[pos..]
     }
 }
 
 impl<T : AsMut<[u8]>> AsMut<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_mut(&mut self) -> &mut [u8] {
-        let pos = self.0.position() as usize;
-        &mut self.0.get_mut().as_mut()[pos..]
+        let pos = self.0.position();
+        let buf = self.0.get_mut().as_mut();
+        let pos = min(pos, buf.len() as u64) as usize;
+        &mut buf[pos..]
     }
 }
 
@@ -84,7 +89,8 @@ impl<'a> AsExtBytes<'a> for &'a [u8] {
 impl<'a> AsExtBytes<'a> for io::Cursor<&'a [u8]> {
     fn as_ext_bytes(&mut self) -> &'a [u8] {
         let buf: &'a [u8] = *self.get_ref();
-        &buf[(self.position() as usize)..]
+        let pos = min(self.position(), buf.len() as u64) as usize;
+        &buf[pos..]
     }
 }
 
-- 
2.43.0


From 6a06b4beca9164f93a50dc6e7cd02f1b5896f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 09/14] fix: report blobs ending past u64::MAX as OverlongBlob

Error::OverlongBlob is documented for blobs which would be read or written to
an end position greater than u64::MAX, but unless the length alone was too large
an anonymous Error::Io was returned, indistinguishable from a failing device.
---
 src/stream.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index cc7b715..930e1a2 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -729,7 +729,9 @@ impl<R> Stream<R> {
     fn next_blob(&mut self) -> Result<Blob<R>>
     where R : Read {
         let len = wire::decode_u64(&mut self.track(false))?;
-        self.check_advance_pos(len)?;
+        if self.check_advance_pos(len).is_err() {
+            return Err(Error::OverlongBlob);
+        }
 
         self.blob_end = self.pos + len;
         self.commit = Some(Nd(Self::skip_blob));
@@ -840,11 +842,12 @@ impl<R> Stream<R> {
 
         self.commit()?;
 
-        if len > u64::MAX - OVERHEAD {
+        if len > u64::MAX - OVERHEAD ||
+            self.check_advance_pos(len + OVERHEAD).is_err()
+        {
             return Err(Error::OverlongBlob);
         }
 
-        self.check_advance_pos(len + OVERHEAD)?;
         self.write_desc(desc)?;
         wire::encode_u64(&mut self.track(false), len)?;
 
-- 
2.43.0


From 81ccb624fa4de9b018c931d57e576612365a3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 10/14] fix: starting a dynamic blob near u64::MAX underflows
 its length

With fewer than 11 bytes of position space left the nominal length underflowed:
a panic with overflow checks, otherwise a stray descriptor and an Error::Io. It is
now refused as an OverlongBlob before anything is written, like other blobs.
---
 src/stream.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 930e1a2..059bc80 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -901,6 +901,15 @@ impl<R> Stream<R> {
     fn write_desc_with_blob_dynamic(&mut self, desc: wire::ParsedDescriptor)
                                     -> Result<Blob<R>>
     where R : Write + Seek {
+        // 10 bytes length + 1 byte tag
+        const OVERHEAD: u64 = 11;
+
+        self.commit()?;
+
+        if self.check_advance_pos(OVERHEAD).is_err() {
+            return Err(Error::OverlongBlob);
+        }
+
         self.write_desc(desc)?;
         let len = u64::MAX - self.pos - 10;
         wire::encode_fixed_u64(&mut self.track(false), len)?;
-- 
2.43.0


From 5a989211dc1a78ccebabc996fc2ff7cf45d9a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 11/14] fix: skipping a truncated blob by seeking goes
 unnoticed

---
 src/stream.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 059bc80..e21943a 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -382,11 +382,22 @@ impl<R> Stream<R> {
                 Ok(first + second)
             }
         } else {
-            // Otherwise, try to seek directly.
+            // Otherwise, try to seek directly. Seeking past the end of the
+            // input generally succeeds, so the last byte is actually read to
+            // find out whether it exists.
             self.check_advance_pos(n)?;
-            if seek(&mut self.inner, io::SeekFrom::Current(n as i64)).is_ok() {
-                self.pos += n;
-                Ok(n)
+            let most = n as i64 - 1;
+            if seek(&mut self.inner, io::SeekFrom::Current(most)).is_ok() {
+                self.pos += n - 1;
+                if 1 == self.skip_by_discard(1)? {
+                    return Ok(n);
+                }
+
+                // The input ends somewhere in what was to be skipped. Go back
+                // and find out where.
+                seek(&mut self.inner, io::SeekFrom::Current(-most))?;
+                self.pos -= n - 1;
+                self.skip_by_discard(n)
             } else {
                 // If seeking failed (maybe the underlying file descriptor isn't
                 // actually seekable?), fall back to read+discard.
-- 
2.43.0


From 86f0171166bd885e94db55335c613b1bab1fac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 12/14] fix: Blob::read_fully returns partial data of a
 truncated blob

---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index e21943a..4624219 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1187,6 +1187,9 @@ impl<'d, R : 'd> Blob<'d, R> {
 
         let mut ret = Vec::new();
         self.read_to_end(&mut ret)?;
+        if self.remaining() > 0 {
+            return Err(Error::TruncatedBlob(self.remaining()));
+        }
         Ok(ret)
     }
 
-- 
2.43.0


From 97afe8c1af76d2279fa38ccd1477102bd1f1e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 13/14] fix: report a repeated field as occurring too many
 times, not too few

Types declared with fourleaf_retrofit! reported FieldOccursTooFewTimes when
their field occurred more than once.
---
 src/sugar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sugar.rs b/src/sugar.rs
index 2521a05..a5d3e7e 100644
--- a/src/sugar.rs
+++ b/src/sugar.rs
@@ -531,7 +531,7 @@ macro_rules! fourleaf_retrofit {
                              field: &mut $crate::stream::Field<R>)
                              -> $crate::de::Result<()> {
             if accum.is_some() {
-                return Err($crate::de::Error::FieldOccursTooFewTimes(
+                return Err($crate::de::Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }
 
-- 
2.43.0


From c373e2ca2baa32b359fbe215da8e0de43c3632e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:17 +0000
Subject: [PATCH 14/14] fix: skip_up looped forever at the end-of-document flag

---
 src/stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream.rs b/src/stream.rs
index 4624219..5907c3b 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -671,6 +671,7 @@ impl<R> Stream<R> {
                          -> Result<Element<R>>
     where R : Read {
         if self.eof {
+            self.struct_depth = 0;
             return Ok(Element::EndOfDoc);
         }
 
-- 
2.43.0

