From 223941659d2e7cdea702b5701d85e4a2498bbe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 01/15] fix: default datetime is 1980-01-01 instead of month 0,
 day 0

---
 src/structs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index 5cd147b..6713873 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -174,13 +174,23 @@ pub enum Compression {
     Store = 0,
 }
 
-#[derive(Copy, Clone, Debug, Default, PackedStruct, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PackedStruct, PartialEq, Eq)]
 #[packed_struct(endian = "lsb", size_bytes = "4")]
 pub struct DosDatetime {
     time: u16,
     date: u16,
 }
 
+impl Default for DosDatetime {
+    /// The default value is 1980-01-01T00:00:00, the lowest representable date.
+    fn default() -> Self {
+        DosDatetime {
+            time: 0,
+            date: 1 | (1 << 5),
+        }
+    }
+}
+
 impl DosDatetime {
     /// Constructs a new `DosDateTime`.
     /// Returns `None` if any value is out of range.
-- 
2.43.0


From 02e0b9672df0bbc2dde063eab01cfb2f3344cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 02/15] fix: datetime *_or_default setters fall back to the
 default, not to the earlier value

---
 src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e83c57a..50369b5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -155,7 +155,9 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`SystemTime`].
     pub fn datetime_system_or_default(&mut self, datetime: SystemTime) -> &mut Self {
-        self.datetime_system(datetime);
+        if self.datetime_system(datetime).is_none() {
+            self.datetime = None;
+        }
         self
     }
 
@@ -188,7 +190,7 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`NaiveDateTime`].
     pub fn datetime_or_default(&mut self, datetime: NaiveDateTime) -> &mut Self {
-        self.datetime_fields(
+        self.datetime_fields_or_default(
             datetime.year(),
             datetime.month(),
             datetime.day(),
-- 
2.43.0


From 94aa41e72a017d4ad293b63148c49bbc1f21a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 03/15] fix: converting an extreme SystemTime using a timezone
 doesn't panic

---
 src/builder.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 50369b5..6ccde4d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -523,12 +523,26 @@ fn system_timezone_converter<Tz>(
 where
     Tz: TimeZone + 'static,
 {
-    use chrono::{DateTime, Utc};
+    use chrono::DateTime;
 
     move |system_time| {
-        let naive = DateTime::<Utc>::from(system_time)
-            .with_timezone(&tz)
-            .naive_local();
+        // Times far outside of the range chrono can handle can't be converted, but these
+        // are also far out of the range representable in the zip file.
+        // The limits leave enough space for arbitrary timezone offset.
+        let utc = match system_time.duration_since(SystemTime::UNIX_EPOCH) {
+            Ok(after) => i64::try_from(after.as_secs()).ok(),
+            // Rounding down, to keep fractional seconds in the correct whole second
+            Err(e) => i64::try_from(e.duration().as_secs())
+                .ok()
+                .map(|secs| -secs - i64::from(e.duration().subsec_nanos() > 0)),
+        }
+        .and_then(|secs| DateTime::from_timestamp(secs, 0))
+        .filter(|utc| (1970..=2200).contains(&utc.year()));
+        let Some(utc) = utc else {
+            return (0, 0, 0, 0, 0, 0); // Not representable in the zip file
+        };
+
+        let naive = utc.with_timezone(&tz).naive_local();
         (
             naive.year(),
             naive.month(),
-- 
2.43.0


From 87e74565dfc9b3b0c43cef09620e7e5b996eecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 04/15] fix: Builder::size() accounts for changes made through
 get_entries_mut()

---
 src/builder.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6ccde4d..3f25f5a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -319,7 +319,8 @@ pub struct Builder<D: EntryData> {
     entries: IndexMap<String, BuilderEntry<D>>,
     time_converter: Option<TimeConverter>,
     /// Total size of the zip.
-    total_size: u64,
+    /// `None` means that the entries might have been modified and it has to be recalculated.
+    total_size: Option<u64>,
 }
 
 /// An error that can be encountered while adding entries to a [`Builder`].
@@ -374,7 +375,7 @@ impl<D: EntryData> Builder<D> {
         Builder {
             entries: IndexMap::new(),
             time_converter: None,
-            total_size: eocd_size(),
+            total_size: Some(eocd_size()),
         }
     }
 
@@ -396,6 +397,8 @@ impl<D: EntryData> Builder<D> {
             return Err(AddEntryError::TooLongEntryName { entry_name: name });
         }
         let headers_size = local_header_size(&name) + cd_header_size(&name);
+        let total_size = self.size();
+        self.total_size = Some(total_size);
 
         let map_vacant_entry = match self.entries.entry(name) {
             Entry::Vacant(e) => e,
@@ -409,9 +412,9 @@ impl<D: EntryData> Builder<D> {
         let data = data.into();
         self.total_size = match headers_size
             .checked_add(data.size())
-            .and_then(|s| s.checked_add(self.total_size))
+            .and_then(|s| s.checked_add(total_size))
         {
-            Some(size) => size,
+            Some(size) => Some(size),
             None => {
                 return Err(AddEntryError::TooLongZipFile {
                     entry_name: map_vacant_entry.into_key(),
@@ -428,13 +431,20 @@ impl<D: EntryData> Builder<D> {
     ///
     /// Returns the same value as `self.build().size()`.
     pub fn size(&self) -> u64 {
-        self.total_size
+        self.total_size.unwrap_or_else(|| {
+            self.entries
+                .iter()
+                .fold(eocd_size(), |size, (name, entry)| {
+                    size.saturating_add(local_header_size(name) + cd_header_size(name))
+                        .saturating_add(entry.data.size())
+                })
+        })
     }
 
     /// Finishes the build phase of the ZIP file and converts the builder into a [`Reader`].
     #[must_use]
     pub fn build(self) -> Reader<D> {
-        // All size calculations in this method add up to self.total_size, so they are guaranteed to not overflow.
+        // All size calculations in this method add up to self.size(), so they are guaranteed to not overflow.
         let mut offset: u64 = 0;
         let mut cd_size: u64 = 0;
         let entries = {
@@ -507,6 +517,7 @@ impl<D: EntryData> Builder<D> {
 
     /// Returns a mutable reference to all entries currently in the builder.
     pub fn get_entries_mut(&mut self) -> &mut IndexMap<String, BuilderEntry<D>> {
+        self.total_size = None;
         &mut self.entries
     }
 }
-- 
2.43.0


From e72b3cd1b0f28d9a5e0478c615f5563e9a70273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 05/15] fix: don't lose written bytes or position when waiting
 for entry CRC or when it fails

---
 src/reader.rs | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index b1f506e..5127e98 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -763,19 +763,6 @@ impl ReadState {
     ) -> Poll<std::io::Result<()>> {
         let initial_remaining = output.remaining();
 
-        macro_rules! zippity_ready {
-            ($expression:expr) => {
-                match $expression {
-                    Poll::Ready(Ok(x)) => x,
-                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
-                    Poll::Pending if output.remaining() == initial_remaining => {
-                        return Poll::Pending
-                    }
-                    _ => return Poll::Ready(Ok(())),
-                }
-            };
-        }
-
         while output.remaining() > 0 {
             if !self.staging_buffer.is_empty() {
                 self.read_from_staging(output);
@@ -793,6 +780,20 @@ impl ReadState {
                 continue;
             }
 
+            let needs_entry_access = match self.current_chunk {
+                Chunk::EntryData { .. } => true,
+                Chunk::DataDescriptor { entry_index } | Chunk::CDFileHeader { entry_index } => {
+                    entries[entry_index].crc32.is_none()
+                }
+                _ => false,
+            };
+            if needs_entry_access && output.remaining() != initial_remaining {
+                // We have already written something into the output -> interrupt this call, because
+                // we might need to return Pending or an error when accessing the entry
+                assert!(self.staging_buffer.is_empty());
+                break;
+            }
+
             let chunk_done = match &mut self.current_chunk {
                 Chunk::LocalHeader { entry_index } => {
                     let entry_index = *entry_index;
@@ -800,36 +801,30 @@ impl ReadState {
                 }
                 Chunk::EntryData { entry_index } => {
                     let entry_index = *entry_index;
-                    if output.remaining() != initial_remaining {
-                        // We have already written something into the output -> interrupt this call, because
-                        // we might need to return Pending when reading the file data
-                        assert!(self.staging_buffer.is_empty());
-                        break;
-                    }
-                    zippity_ready!(self.read_entry_data(
+                    ready!(self.read_entry_data(
                         &mut entries[entry_index],
                         pinned.as_mut(),
                         ctx,
                         output,
-                    ))
+                    ))?
                 }
                 Chunk::DataDescriptor { entry_index } => {
                     let entry_index = *entry_index;
-                    zippity_ready!(self.read_data_descriptor(
+                    ready!(self.read_data_descriptor(
                         &mut entries[entry_index],
                         pinned.as_mut(),
                         ctx,
                         output
-                    ))
+                    ))?
                 }
                 Chunk::CDFileHeader { entry_index } => {
                     let entry_index = *entry_index;
-                    zippity_ready!(self.read_cd_file_header(
+                    ready!(self.read_cd_file_header(
                         &mut entries[entry_index],
                         pinned.as_mut(),
                         ctx,
                         output
-                    ))
+                    ))?
                 }
                 Chunk::Eocd => self.read_eocd(sizes, entries, output),
                 Chunk::Finished => unreachable!(),
-- 
2.43.0


From 7a594f42a9049f0c3ea14f6af15a28ee9cf24702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 06/15] fix: reading again after failed entry open doesn't poll
 a completed future

---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5127e98..8a41dc6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -70,8 +70,14 @@ impl<D: EntryData> ReaderEntry<D> {
         }
 
         if let ReaderPinnedProj::ReaderFuture(ref mut reader_future) = pinned.as_mut().project() {
-            let reader = ready!(reader_future.as_mut().poll(ctx))?;
-            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader)));
+            match ready!(reader_future.as_mut().poll(ctx)) {
+                Ok(reader) => pinned.set(ReaderPinned::FileReader(CrcReader::new(reader))),
+                Err(e) => {
+                    // The future is already complete and must not be polled again
+                    pinned.set(ReaderPinned::Nothing);
+                    return Poll::Ready(Err(e));
+                }
+            }
         }
 
         match pinned.project() {
-- 
2.43.0


From 8d24682df3ba5e0371a6ca7305cc4963ffde05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 07/15] fix: failed seek in an entry is started again when
 retrying

---
 src/crc_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index f3b537b..c5a803a 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -77,8 +77,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     fn start_seek(self: Pin<&mut Self>, data: &D, pos: SeekFrom) -> Result<()> {
         let projected = self.project();
         *projected.did_seek = true;
+        projected.inner_reader.start_seek(data, pos)?;
         *projected.seek_in_progress = true;
-        projected.inner_reader.start_seek(data, pos)
+        Ok(())
     }
 
     fn poll_seek_complete(
@@ -87,9 +88,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
         cx: &mut Context<'_>,
     ) -> Poll<Result<u64>> {
         let projected = self.project();
-        let pos = ready!(projected.inner_reader.poll_seek_complete(data, cx))?;
+        let result = ready!(projected.inner_reader.poll_seek_complete(data, cx));
         *projected.seek_in_progress = false;
-        Poll::Ready(Ok(pos))
+        Poll::Ready(result)
     }
 }
 
-- 
2.43.0


From f74d0d1e7740b59202e251a8f46d8e91b3bbd04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 08/15] fix: entry size mismatch is reported again on repeated
 reads and doesn't leave a wrong CRC

---
 src/reader.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8a41dc6..8ddbec6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -594,6 +594,16 @@ impl ReadState {
         if output.remaining() == remaining_before_poll {
             // Nothing was output => we read everything in the file already
 
+            if self.chunk_processed_size != entry.size {
+                // The reader is kept at its end, so that reading again returns the error again
+                return Poll::Ready(Err(ReadError::SizeMismatch {
+                    entry_name: entry.name.clone(),
+                    expected_size: entry.size,
+                    actual_size: self.chunk_processed_size,
+                }
+                .into()));
+            }
+
             if let Some(actual_crc) = file_reader.get_crc32() {
                 if let Some(expected_crc) = entry.crc32
                     && expected_crc != actual_crc
@@ -610,16 +620,7 @@ impl ReadState {
 
             pinned.set(ReaderPinned::Nothing);
 
-            if self.chunk_processed_size == entry.size {
-                Poll::Ready(Ok(true)) // We're done with this state
-            } else {
-                Poll::Ready(Err(ReadError::SizeMismatch {
-                    entry_name: entry.name.clone(),
-                    expected_size: entry.size,
-                    actual_size: self.chunk_processed_size,
-                }
-                .into()))
-            }
+            Poll::Ready(Ok(true)) // We're done with this state
         } else {
             let written_chunk_size = remaining_before_poll - output.remaining();
             let buf_slice = output.filled();
-- 
2.43.0


From 2d3b2611ffe400553503fec108ec5253ace3de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 09/15] fix: data past the reported entry size is not written
 to the output

---
 src/reader.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 8ddbec6..78e0be9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -293,6 +293,7 @@ pub enum ReadError {
         /// The expected size of the entry.
         expected_size: u64,
         /// The actual size of the entry.
+        /// If the entry is larger than expected, this is only the amount of data read so far.
         actual_size: u64,
     },
     /// Entry was given a CRC value (in [`crate::BuilderEntry::crc32()`]) that does not match the computed one.
@@ -629,6 +630,18 @@ impl ReadState {
 
             self.chunk_processed_size += written_chunk_size as u64;
 
+            if self.chunk_processed_size > entry.size {
+                // Data past the reported size must not end up in the output
+                let filled_before_poll = output.filled().len() - written_chunk_size;
+                output.set_filled(filled_before_poll);
+                return Poll::Ready(Err(ReadError::SizeMismatch {
+                    entry_name: entry.name.clone(),
+                    expected_size: entry.size,
+                    actual_size: self.chunk_processed_size,
+                }
+                .into()));
+            }
+
             Poll::Ready(Ok(false))
         }
     }
-- 
2.43.0


From 85ada1968b9d55805f21ed7614e877b0ee3ca879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 10/15] fix: entry that can't be seeked to the requested
 position is an error, not a panic

---
 src/reader.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 78e0be9..55019fc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -583,7 +583,15 @@ impl ReadState {
                     ctx,
                     SeekFrom::Start(self.to_skip)
                 ))?;
-                assert!(pos_after_seek == self.to_skip);
+                if pos_after_seek != self.to_skip {
+                    // The reader can't seek past the actual end of the data
+                    return Poll::Ready(Err(ReadError::SizeMismatch {
+                        entry_name: entry.name.clone(),
+                        expected_size: entry.size,
+                        actual_size: pos_after_seek,
+                    }
+                    .into()));
+                }
                 self.chunk_processed_size += self.to_skip;
                 self.to_skip = 0;
             }
-- 
2.43.0


From 93569bbfb3f0c60193d391f1076fdd85d692bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 11/15] fix: seeking to a position past u64::MAX returns an
 error instead of panicking

---
 src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 55019fc..773c471 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -984,7 +984,10 @@ impl<D: EntryData> AsyncSeek for Reader<D> {
                     ReadError::SeekingBeforeStart,
                 ))
             } else {
-                core::panic!("Attempting to seek to a position that causes u64 overflow");
+                Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidInput,
+                    "Attempting to seek to a position that causes u64 overflow",
+                ))
             }
         };
         let pos = match position {
-- 
2.43.0


From 90982d1e996d945e63f2986f95b3c7858d625dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 12/15] fix: cloned BytesStream has a buffer to read into

---
 src/bytes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ea2bd7c..2a7bfb4 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -15,7 +15,7 @@ use crate::{Reader, entry_data::EntryData, reader::READ_SIZE};
 ///
 /// This is useful for streaming the output of the ZIP reader, for example,
 /// to a network socket or other byte-based sink.
-#[derive(Clone, Debug)]
+#[derive(Debug)]
 #[pin_project]
 pub struct BytesStream<D: EntryData> {
     #[pin]
@@ -23,6 +23,13 @@ pub struct BytesStream<D: EntryData> {
     buffer: BytesMut,
 }
 
+impl<D: EntryData + Clone> Clone for BytesStream<D> {
+    fn clone(&self) -> Self {
+        // The buffer is always empty between polls, but cloning it would not keep its capacity
+        BytesStream::new(self.reader.clone())
+    }
+}
+
 // TODO: Implement also std::async_iter::AsyncIterator, once it stablises
 impl<D: EntryData> Stream for BytesStream<D> {
     type Item = Result<Bytes>;
-- 
2.43.0


From 758ab108ae02fde6ea36c50b9803c2f524172b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 13/15] fix: wrong CRC given for an empty entry is reported

---
 src/reader.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 773c471..d870f8b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -86,6 +86,14 @@ impl<D: EntryData> ReaderEntry<D> {
         }
     }
 
+    /// Is [`Self::get_crc()`] able to return the CRC immediately (without waiting or an error)?
+    fn is_crc_ready(&self) -> bool {
+        match self.crc32 {
+            Some(crc) => self.size > 0 || crc == crc32fast::hash(&[]),
+            None => false,
+        }
+    }
+
     /// Get the CRC for this entry, possibly recomputing it from the file.
     /// Stores state in `self.crc32` and `pinned`,
     /// Calling this method repeatedly will either return the already computed CRC without changes.
@@ -96,16 +104,26 @@ impl<D: EntryData> ReaderEntry<D> {
         ctx: &mut Context<'_>,
         read_buffer: &mut Vec<u8>,
     ) -> Poll<Result<u32>> {
-        if let Some(crc) = self.crc32 {
-            return Poll::Ready(Ok(crc));
-        }
-
         if self.size == 0 {
             let crc = crc32fast::hash(&[]);
+            if let Some(expected_crc) = self.crc32
+                && expected_crc != crc
+            {
+                return Poll::Ready(Err(ReadError::Crc32Mismatch {
+                    entry_name: self.name.clone(),
+                    expected_crc,
+                    actual_crc: crc,
+                }
+                .into()));
+            }
             self.crc32 = Some(crc);
             return Poll::Ready(Ok(crc));
         }
 
+        if let Some(crc) = self.crc32 {
+            return Poll::Ready(Ok(crc));
+        }
+
         let mut file_reader = ready!(self.get_reader(pinned.as_mut(), ctx))?;
 
         let mut read_buffer = get_read_buf(read_buffer);
@@ -811,7 +829,7 @@ impl ReadState {
             let needs_entry_access = match self.current_chunk {
                 Chunk::EntryData { .. } => true,
                 Chunk::DataDescriptor { entry_index } | Chunk::CDFileHeader { entry_index } => {
-                    entries[entry_index].crc32.is_none()
+                    !entries[entry_index].is_crc_ready()
                 }
                 _ => false,
             };
-- 
2.43.0


From 523e02842ad508b393a2009b38988557896eaf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 14/15] fix: no endless loop when an entry turns out shorter
 than the part being skipped

---
 src/reader.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d870f8b..bf360a3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -591,8 +591,15 @@ impl ReadState {
 
                     if read_buffer.filled().is_empty() {
                         // This means that we've skipped over the whole file.
-                        // -> the reported size was wrong (and we will return an error later).
-                        break;
+                        // -> the reported size was wrong.
+                        // Continuing with another read here could get us Pending, coming back here
+                        // on the next call without ever making any progress.
+                        return Poll::Ready(Err(ReadError::SizeMismatch {
+                            entry_name: entry.name.clone(),
+                            expected_size: entry.size,
+                            actual_size: self.chunk_processed_size,
+                        }
+                        .into()));
                     }
                 }
             } else {
-- 
2.43.0


From f8856ae836d1aeb7686420c13e04ab924119fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:31 +0000
Subject: [PATCH 15/15] fix: no overflow when a source goes on past the end of
 a huge entry

---
 src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index bf360a3..3e69899 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -661,7 +661,10 @@ impl ReadState {
             let written_chunk = &buf_slice[(buf_slice.len() - written_chunk_size)..];
             assert!(written_chunk_size == written_chunk.len());
 
-            self.chunk_processed_size += written_chunk_size as u64;
+            // The source might go on far past the reported size
+            self.chunk_processed_size = self
+                .chunk_processed_size
+                .saturating_add(written_chunk_size as u64);
 
             if self.chunk_processed_size > entry.size {
                 // Data past the reported size must not end up in the output
-- 
2.43.0

