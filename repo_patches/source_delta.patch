From e21651c65809d2890ef52918728fa201ad4fe9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 01/29] fix: pair each source with the header chain of its own
 index

---
 src/driver/driver.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index ced20b7..4e21062 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -62,9 +62,12 @@ impl Driver {
 
     fn get_row_buffers(&mut self) -> CliResult<Vec<SourceRowBuffer>> {
         let mut row_buffers: Vec<SourceRowBuffer> = Vec::with_capacity(self.sources.len());
-        for i in 0..self.sources.len() {
+        for _ in 0..self.sources.len() {
             let source = self.sources.pop().unwrap();
-            row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
+            // source at index i feeds chain i
+            let chain_id = self.sources.len();
+            let row_buffer = SourceRowBuffer::new(source, chain_id, &self.timestamp_range)?;
+            row_buffers.push(row_buffer);
         }
         Ok(row_buffers)
     }
-- 
2.43.0


From b7cf97ffaaabb86ffea0160ec20197cb2b868660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 02/29] fix: source without any row in the time range ends its
 chain instead of panicking

---
 src/driver/driver.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 4e21062..f054332 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -67,7 +67,12 @@ impl Driver {
             // source at index i feeds chain i
             let chain_id = self.sources.len();
             let row_buffer = SourceRowBuffer::new(source, chain_id, &self.timestamp_range)?;
-            row_buffers.push(row_buffer);
+            if row_buffer.row().is_some() {
+                row_buffers.push(row_buffer);
+            } else {
+                // nothing to read from this source, not even a first row
+                self.flush(chain_id, 0)?;
+            }
         }
         Ok(row_buffers)
     }
-- 
2.43.0


From 771ff734c75309e23337bd50229ea40900e69192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 03/29] fix: size the DC null bitset by the number of columns

---
 src/util/dc_util.rs  | 2 +-
 src/write/dc_sink.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index 96258c3..ccd0a5c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -22,7 +22,7 @@ pub enum DisplayHint {
 }
 
 pub fn get_bitset_bytes(field_count: usize) -> usize {
-    1 + ((field_count - 1) / 8)
+    (field_count + 7) / 8
 }
 
 // map for field types
diff --git a/src/write/dc_sink.rs b/src/write/dc_sink.rs
index 04fdc09..9023fa6 100644
--- a/src/write/dc_sink.rs
+++ b/src/write/dc_sink.rs
@@ -128,7 +128,7 @@ impl DCSink {
 impl HeaderSink for DCSink {
     fn process_header(mut self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
         Self::write_header(&mut self, header)?;
-        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len() - 1);
+        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len());
         self.bitset_bytes = bitset_bytes;
         Ok(self.boxed())
     }
-- 
2.43.0


From 355684c63ac0a60a607ef412713abdd963f80d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 04/29] fix: report read errors and truncated rows in DC input
 instead of treating them as the end

---
 src/source/dc_source.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 5df54da..df2b195 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -95,10 +95,10 @@ impl<R: io::Read> DCSource<R> {
     }
 
     fn next_row(&mut self) -> CliResult<Option<Row>> {
-        match self.reader.read_u64::<BigEndian>() {
-            Ok(i) => self.current_row.timestamp = i,
-            Err(_e) => return Ok(None),
-        };
+        if self.reader.fill_buf()?.is_empty() {
+            return Ok(None);
+        }
+        self.current_row.timestamp = self.reader.read_u64::<BigEndian>()?;
 
         // bitset of null values
         let bitset_bytes = &mut self.bitset_bytes;
-- 
2.43.0


From c32e54c09ff9b5436432354e620c5b8bd605078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 05/29] fix: join the CSV header line with the configured
 delimiter, like the rows

---
 src/write/csv_sink.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 39253ee..08265de 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -36,17 +36,19 @@ impl CSVSink {
     fn write_csv_header(&mut self, header: &mut Header) -> CliResult<()> {
         let writer = &mut self.writer;
         let field_name = header.field_names().clone();
+        let delimiter = self.csv_output_config.delimiter();
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{},", self.csv_output_config.time_col_name())?;
+            write!(writer, "{}", self.csv_output_config.time_col_name())?;
+            first = false;
         }
         for name in field_name {
             if first {
                 write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, ",{}", name)?;
+                write!(writer, "{}{}", delimiter, name)?;
             }
         }
         write!(writer, "\n")?;
-- 
2.43.0


From 738d2414f87a4db2dd6db9765ae3035e5f5a38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 06/29] fix: report directory entries that cannot be read
 instead of skipping them

---
 src/transport/dir/file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transport/dir/file.rs b/src/transport/dir/file.rs
index 5aa1ee9..ddc68dc 100644
--- a/src/transport/dir/file.rs
+++ b/src/transport/dir/file.rs
@@ -18,8 +18,12 @@ impl DirTransport for DirFileTransport {
     fn read_dir(&self, path: &Path) -> CliResult<Box<dyn Iterator<Item = PathBuf>>> {
         match path.read_dir() {
             Ok(dir_entry_iter) => {
-                let path_iter = dir_entry_iter.filter_map(|entry| Some(entry.ok()?.path()));
-                Ok(Box::new(path_iter))
+                // an entry that can't be read is an error, not an entry that isn't there
+                let mut paths: Vec<PathBuf> = Vec::new();
+                for entry in dir_entry_iter {
+                    paths.push(entry?.path());
+                }
+                Ok(Box::new(paths.into_iter()))
             }
             Err(e) => Err(e.into()),
         }
-- 
2.43.0


From a725827478b4a586ed4f5825b4e58bdd1affc3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 07/29] fix: report a merge that did not get the headers of all
 its inputs instead of dropping their rows

---
 src/chopper/header_graph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 57e7964..b694861 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -56,6 +56,15 @@ impl HeaderGraph {
         for i in 0..header.len() {
             self = self.process_header_re(&mut data_graph, i, header.get_mut(i).unwrap())?;
         }
+
+        // a merge that is still waiting for headers would drop the rows it gets
+        for chain in &self.header_chains {
+            if let Some(HeaderNode::MergeHeaderSink(..)) = chain.nodes.get(0) {
+                return Err(Error::from(
+                    "HeaderGraph -- a merge did not get the headers of all its inputs",
+                ));
+            }
+        }
         Ok(data_graph)
     }
 
-- 
2.43.0


From 531e1f98821e127b46caec28b7de9b48c65bb5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 08/29] fix: check the header of a split that feeds a merge
 chain directly

---
 src/chopper/header_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index b694861..428cfd3 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -76,7 +76,7 @@ impl HeaderGraph {
     ) -> CliResult<Self> {
         let chain: &mut HeaderChain = self.header_chains.get_mut(chain_id).unwrap();
         // check the first node of the chain.
-        if let HeaderNode::MergeHeaderSink(..) = chain.get_mut_nodes().get_mut(0).unwrap() {
+        if let Some(HeaderNode::MergeHeaderSink(..)) = chain.get_mut_nodes().get_mut(0) {
             // if MergeHeaderSink, check/process the header without removing the chain
             // pass to match_remove_chain only when all the Merge headers are processed
             self.check_merge_header(data_graph, chain_id, header)
@@ -118,7 +118,7 @@ impl HeaderGraph {
                         ));
                     }
                     for i in shs.chain_ids() {
-                        self = self.match_remove_chain(data_graph, *i, &mut header.clone())?;
+                        self = self.process_header_re(data_graph, *i, &mut header.clone())?;
                         header_count_tracker.unprocessed_count -= 1;
                     }
                     data_node = DataNode::Split(shs.chain_ids().clone());
-- 
2.43.0


From 939655a3e453a3810b2e786f7fa51cc3592aac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 09/29] fix: drop the extra trailing columns of a later file of
 a directory input

---
 src/source/multi_file_source.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index a92bcc1..78d031c 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -182,8 +182,11 @@ impl Source for SerialMultiFileSource {
                                 for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {
                                     next_row.field_values.swap(ref_idx, new_idx);
                                 }
-                                next_row.field_values.truncate(self.swap_map.len());
                             }
+                            // columns that aren't common come after the common ones
+                            next_row
+                                .field_values
+                                .truncate(self.common_header.field_names().len());
                             return Ok(Some(next_row));
                         }
                     }
-- 
2.43.0


From c829055732321df7b3c4d4bd89b926ca854e7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 10/29] fix: count the sub-field headers when reading a zip
 entry's extra field

---
 src/decompress/zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2d0e916..e54663e 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -377,7 +377,7 @@ impl CentralDirHeader {
             }
             reader.seek(SeekFrom::Current(data_size - data_read))?;
 
-            total_bytes_read += data_size as u64;
+            total_bytes_read += 4 + data_size as u64; // '4' is for the header id and the size
         }
 
         Ok((uncompressed_size, compressed_size, local_header_offset))
-- 
2.43.0


From 3db24929ae656f0ef00fa62519f60f46597bb474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 11/29] fix: read all members of a gz input, not just the first

---
 src/decompress/decompress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index b081007..7bd75c0 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
@@ -116,7 +116,7 @@ pub fn decompress(
 }
 
 fn decompress_gz(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = GzDecoder::new(reader);
+    let decoder = MultiGzDecoder::new(reader);
     Ok(Box::new(decoder))
 }
 
-- 
2.43.0


From f345e07c4d9f7fd09380b93bfdff1decf56dd955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 12/29] fix: read all frames of a zst input, not just the first

---
 src/decompress/zst.rs | 49 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d6989a..081a229 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -22,6 +22,22 @@ impl<R: Read> ZstReader<R> {
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
+
+    /// goes on to the frame that follows the one just read, false if there is none
+    fn init_next_frame(&mut self) -> io::Result<bool> {
+        let mut first_byte = Vec::with_capacity(1);
+        self.inner.by_ref().take(1).read_to_end(&mut first_byte)?;
+        if first_byte.is_empty() {
+            return Ok(false);
+        }
+        match self
+            .decoder
+            .init(&mut first_byte.as_slice().chain(&mut self.inner))
+        {
+            Ok(()) => Ok(true),
+            Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+        }
+    }
 }
 
 impl<R: Read> Read for ZstReader<R> {
@@ -29,21 +45,30 @@ impl<R: Read> Read for ZstReader<R> {
     /// tries to fill the buf as much as possible by potentially decoding
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        while !self.decoder.is_finished() {
-            let bytes_available = self.decoder.can_collect();
-            if bytes_available >= buf.len() {
-                break;
+        loop {
+            while !self.decoder.is_finished() {
+                let bytes_available = self.decoder.can_collect();
+                if bytes_available >= buf.len() {
+                    break;
+                }
+
+                let additional_bytes_needed = buf.len() - bytes_available;
+                if let Err(e) = self.decoder.decode_blocks(
+                    &mut self.inner,
+                    BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
+                ) {
+                    return Err(io::Error::new(io::ErrorKind::Other, e));
+                }
             }
 
-            let additional_bytes_needed = buf.len() - bytes_available;
-            if let Err(e) = self.decoder.decode_blocks(
-                &mut self.inner,
-                BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
-            ) {
-                return Err(io::Error::new(io::ErrorKind::Other, e));
+            let bytes_read = self.decoder.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
             }
-        }
 
-        self.decoder.read(buf)
+            if !self.init_next_frame()? {
+                return Ok(0);
+            }
+        }
     }
 }
-- 
2.43.0


From dc8114bd95bb3c04f8ee36c6167d0a21592082eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 13/29] fix: report a zst input whose content does not match
 its checksum

---
 src/decompress/zst.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 081a229..51aea70 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -66,6 +66,14 @@ impl<R: Read> Read for ZstReader<R> {
                 return Ok(bytes_read);
             }
 
+            // all of this frame has been read
+            let checksum = self.decoder.get_checksum_from_data();
+            if checksum.is_some() && checksum != self.decoder.get_calculated_checksum() {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "zst checksum check failed",
+                ));
+            }
             if !self.init_next_frame()? {
                 return Ok(0);
             }
-- 
2.43.0


From 13f73988c8032f573357e10ee466ab72fa4a9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 14/29] fix: read all frames of an lz4 input, not just the
 first

---
 src/decompress/decompress.rs |  8 ++---
 src/decompress/lz4.rs        | 61 ++++++++++++++++++++++++++++++++++++
 src/decompress/mod.rs        |  1 +
 3 files changed, 66 insertions(+), 4 deletions(-)
 create mode 100644 src/decompress/lz4.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 7bd75c0..d0f4873 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -3,11 +3,11 @@ use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
 use flate2::read::MultiGzDecoder;
-use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
+use crate::decompress::lz4::Lz4FramesReader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -130,17 +130,17 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let frame_reader = match LZ4FrameReader::new(reader) {
+    let frame_reader = match Lz4FramesReader::new(reader) {
         Ok(frame_reader) => frame_reader,
         Err(e) => {
             return CliResult::Err(Error::Io(io::Error::new(io::ErrorKind::Other, e)));
         }
     };
-    Ok(Box::new(frame_reader.into_read()))
+    Ok(Box::new(frame_reader))
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = Lz4JBlockReader::new(reader, true, true);
+    let decoder = Lz4JBlockReader::new(reader, false, true);
     Ok(Box::new(decoder))
 }
 
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
new file mode 100644
index 0000000..62e39fa
--- /dev/null
+++ b/src/decompress/lz4.rs
@@ -0,0 +1,61 @@
+use lz_fear::framed::{DecompressionError, LZ4FrameIoReader, LZ4FrameReader};
+use std::cell::RefCell;
+use std::io::{self, Read};
+use std::rc::Rc;
+
+/// reads all of the lz4 frames, LZ4FrameReader stops at the end of the first one
+pub struct Lz4FramesReader<R: Read> {
+    inner: SharedReader<R>,
+    frame: LZ4FrameIoReader<'static, SharedReader<R>>,
+}
+
+impl<R: Read> Lz4FramesReader<R> {
+    pub fn new(reader: R) -> Result<Lz4FramesReader<R>, DecompressionError> {
+        let inner = SharedReader(Rc::new(RefCell::new((Vec::new(), reader))));
+        let frame = LZ4FrameReader::new(inner.clone())?.into_read();
+        Ok(Lz4FramesReader { inner, frame })
+    }
+}
+
+impl<R: Read> Read for Lz4FramesReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            let bytes_read = self.frame.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+            if self.inner.at_end()? {
+                return Ok(0);
+            }
+            self.frame = LZ4FrameReader::new(self.inner.clone())?.into_read();
+        }
+    }
+}
+
+/// the reader that frames are read from, preceded by the byte that was looked at to find its end
+struct SharedReader<R>(Rc<RefCell<(Vec<u8>, R)>>);
+
+impl<R: Read> SharedReader<R> {
+    fn at_end(&self) -> io::Result<bool> {
+        let (first, reader) = &mut *self.0.borrow_mut();
+        reader.by_ref().take(1).read_to_end(first)?;
+        Ok(first.is_empty())
+    }
+}
+
+impl<R> Clone for SharedReader<R> {
+    fn clone(&self) -> Self {
+        SharedReader(self.0.clone())
+    }
+}
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let (first, reader) = &mut *self.0.borrow_mut();
+        if !first.is_empty() && !buf.is_empty() {
+            buf[0] = first.remove(0);
+            return Ok(1);
+        }
+        reader.read(buf)
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index b7b7a1f..7de53f6 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,4 +1,5 @@
 mod crc32;
 pub mod decompress;
+mod lz4;
 pub mod zip;
 mod zst;
-- 
2.43.0


From f10553dc706202d630de9878cf24c95ad4a2fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 15/29] fix: open a path with the first transport that can open
 it, not the last

---
 src/transport/seekable/seekable_factory.rs   | 1 +
 src/transport/streaming/previewer_factory.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/transport/seekable/seekable_factory.rs b/src/transport/seekable/seekable_factory.rs
index c2d4999..8a567f8 100644
--- a/src/transport/seekable/seekable_factory.rs
+++ b/src/transport/seekable/seekable_factory.rs
@@ -25,6 +25,7 @@ impl SeekableTransportFactory {
                 false => continue,
                 true => reader = Some(factory.open(path)?),
             }
+            break;
         }
         Ok(match reader {
             None => None,
diff --git a/src/transport/streaming/previewer_factory.rs b/src/transport/streaming/previewer_factory.rs
index fc6452c..3221b55 100644
--- a/src/transport/streaming/previewer_factory.rs
+++ b/src/transport/streaming/previewer_factory.rs
@@ -25,6 +25,7 @@ impl PreviewerTransportFactory {
                 false => continue,
                 true => reader = Some(factory.open(path)?),
             }
+            break;
         }
         Ok(match reader {
             None => None,
-- 
2.43.0


From 0b9b62834ebf39a4842b170cba6259ab97feda67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 16/29] fix: ask the dc factory before the csv factory, which
 accepts any text

---
 src/input/input_factory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/input_factory.rs b/src/input/input_factory.rs
index 2a388ef..cb8d7b5 100644
--- a/src/input/input_factory.rs
+++ b/src/input/input_factory.rs
@@ -153,10 +153,11 @@ pub fn create_default_source_factories(
     csv_input_config: Option<CSVInputConfig>,
 ) -> Vec<Box<dyn SourceFactory>> {
     let mut source_factories: Vec<Box<dyn SourceFactory>> = Vec::new();
+    source_factories.push(Box::new(DCFactory));
+    // the csv factory accepts any text, so it has to be asked last
     if let Some(csv_input_config) = csv_input_config {
         source_factories.push(Box::new(CSVFactory::new(csv_input_config)));
     }
-    source_factories.push(Box::new(DCFactory));
     source_factories
 }
 
-- 
2.43.0


From 2fe3c733e24f0aa43815cf8802c5d86c9fcb7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 17/29] fix: csv input without rows made chopper panic

---
 src/source/csv_source.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 944b6a2..d453527 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -5,7 +5,7 @@ use csv::{self, Trim};
 use crate::chopper::chopper::Source;
 use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
-use crate::error::CliResult;
+use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
 use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
 use crate::util::csv_util;
@@ -60,7 +60,10 @@ impl CSVSource {
             .from_reader(reader);
 
         // get first row
-        let first_row: csv::StringRecord = reader.records().next().unwrap()?;
+        let first_row: csv::StringRecord = match reader.records().next() {
+            None => return Err(Error::from("CSVSource -- input has no rows")),
+            Some(r) => r?,
+        };
         let field_count = first_row.len();
 
         // get field names if available
-- 
2.43.0


From 340b96cd604cfaa37d0c4314a32e563c8dbdabeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 18/29] fix: short csv row kept the values of the row before
 it, long one panicked

---
 src/source/csv_source.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index d453527..63c790b 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -64,7 +64,6 @@ impl CSVSource {
             None => return Err(Error::from("CSVSource -- input has no rows")),
             Some(r) => r?,
         };
-        let field_count = first_row.len();
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -75,10 +74,11 @@ impl CSVSource {
             }
         } else {
             // if field name is not given, assign default name - "col_x"
-            for i in 0..field_count {
+            for i in 0..first_row.len() {
                 field_names.push(format!("col_{}", i));
             }
         }
+        let field_count = field_names.len();
 
         // initialize next_row
         let timestamp: Nanos = 0;
@@ -117,10 +117,22 @@ impl CSVSource {
     }
 
     fn update_row(&mut self, next_record: csv::StringRecord) -> CliResult<()> {
+        let field_count = self.next_row.field_values.len();
+        if next_record.len() > field_count {
+            return Err(Error::from(format!(
+                "CSVSource -- row has {} fields, but there are only {} columns",
+                next_record.len(),
+                field_count
+            )));
+        }
         for i in 0..next_record.len() {
             self.next_row.field_values[i] =
                 FieldValue::String(next_record.get(i).unwrap().to_string());
         }
+        // a row can be short, then it has no values in its last columns
+        for i in next_record.len()..field_count {
+            self.next_row.field_values[i] = FieldValue::None;
+        }
 
         self.next_row.timestamp = csv_timestamp::get_timestamp(
             &next_record,
-- 
2.43.0


From 1d7c30504a17a9c418f09f331b7e668b7ea48ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 19/29] fix: csv row without its timestamp column made chopper
 panic

---
 src/source/csv_timestamp.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 748517f..4877d1d 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -85,7 +85,7 @@ pub fn get_timestamp(
     timestamp_fmt: &TimestampFmt,
     timezone: &ChopperTz,
 ) -> CliResult<Nanos> {
-    let timestamp = get_timestamp_string(record, timestamp_col);
+    let timestamp = get_timestamp_string(record, timestamp_col)?;
 
     let timestamp = match timestamp_fmt {
         TimestampFmt::Units(units) => {
@@ -152,7 +152,7 @@ fn get_timestamp_fmt_from_user_spec(
     format: String,
     timezone: &ChopperTz,
 ) -> CliResult<TimestampFmt> {
-    let timestamp = get_timestamp_string(first_row, timestamp_col);
+    let timestamp = get_timestamp_string(first_row, timestamp_col)?;
 
     if let Ok(_) = DateTime::parse_from_str(&timestamp, &format) {
         Ok(TimestampFmt::DateTimeIncludesTz(format))
@@ -172,19 +172,33 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
-fn get_timestamp_string(record: &csv::StringRecord, timestamp_col: &TimestampCol) -> String {
-    match timestamp_col {
-        TimestampCol::Index(i) => record.get(*i).unwrap().to_string(),
+fn get_field(record: &csv::StringRecord, i: usize) -> CliResult<&str> {
+    record.get(i).ok_or_else(|| {
+        Error::from(format!(
+            "Cannot get timestamp from column {}, row has only {} fields.",
+            i,
+            record.len()
+        ))
+    })
+}
+
+fn get_timestamp_string(
+    record: &csv::StringRecord,
+    timestamp_col: &TimestampCol,
+) -> CliResult<String> {
+    let timestamp = match timestamp_col {
+        TimestampCol::Index(i) => get_field(record, *i)?.to_string(),
         TimestampCol::DateTimeIndex(d, t) => {
-            let date = record.get(*d).unwrap();
-            let time = record.get(*t).unwrap();
+            let date = get_field(record, *d)?;
+            let time = get_field(record, *t)?;
             let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
             timestamp.push_str(date);
             timestamp.push('#');
             timestamp.push_str(time);
             timestamp
         }
-    }
+    };
+    Ok(timestamp)
 }
 
 fn get_timestamp_col(
@@ -332,7 +346,7 @@ fn get_timestamp_fmt_auto_with_index(
         return Ok(TimestampFmt::Units(units));
     }
 
-    let timestamp = first_row.get(time_idx).unwrap();
+    let timestamp = get_field(first_row, time_idx)?;
 
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
@@ -387,8 +401,8 @@ fn get_timestamp_fmt_auto_with_datetimeindex(
     timezone: &ChopperTz,
     first_row: &csv::StringRecord,
 ) -> CliResult<TimestampFmt> {
-    let date = first_row.get(date_idx).unwrap();
-    let time = first_row.get(time_idx).unwrap();
+    let date = get_field(first_row, date_idx)?;
+    let time = get_field(first_row, time_idx)?;
 
     let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
     timestamp.push_str(date);
-- 
2.43.0


From cdf1e63743a26fa161c1bda05363162bd4c2184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 20/29] fix: timestamps that do not fit into nanoseconds since
 1970 wrapped around

---
 src/source/csv_timestamp.rs | 26 +++++++++++++-------------
 src/util/timestamp_util.rs  | 22 +++++++++++++++++++---
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 4877d1d..05754d2 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -5,6 +5,7 @@ use chrono::{DateTime, NaiveDate, NaiveDateTime};
 use crate::chopper::types::{Header, Nanos};
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::{DateColIdx, TimeColIdx, TimestampColConfig, TimestampFmtConfig};
+use crate::util::timestamp_util;
 use crate::util::tz::ChopperTz;
 
 // https://docs.rs/chrono/0.4/chrono/format/strftime/index.html
@@ -93,28 +94,27 @@ pub fn get_timestamp(
                 Ok(ts) => ts,
                 Err(err) => return Err(Error::Custom(err.to_string())),
             };
-            match units {
-                TimestampUnits::Seconds => timestamp * 1_000_000_000,
-                TimestampUnits::Millis => timestamp * 1_000_000,
-                TimestampUnits::Micros => timestamp * 1_000,
-                TimestampUnits::Nanos => timestamp,
-            }
+            let nanos = match units {
+                TimestampUnits::Seconds => timestamp.checked_mul(1_000_000_000),
+                TimestampUnits::Millis => timestamp.checked_mul(1_000_000),
+                TimestampUnits::Micros => timestamp.checked_mul(1_000),
+                TimestampUnits::Nanos => Some(timestamp),
+            };
+            nanos.ok_or_else(|| {
+                Error::from(format!("Timestamp {} is too far in the future.", timestamp))
+            })?
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-            DateTime::parse_from_str(&timestamp, format)?.timestamp_nanos() as u64
+            timestamp_util::to_nanos(&DateTime::parse_from_str(&timestamp, format)?)?
         }
         TimestampFmt::DateTimeNeedsExternalTz(format) => {
             let naive_date_time = NaiveDateTime::parse_from_str(&timestamp, format)?;
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            timestamp_util::to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
         TimestampFmt::DateNeedsExternalTz(format) => {
             let naive_date = NaiveDate::parse_from_str(&timestamp, format)?;
             let naive_date_time = naive_date.and_hms(0, 0, 0);
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            timestamp_util::to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
     };
     Ok(timestamp)
diff --git a/src/util/timestamp_util.rs b/src/util/timestamp_util.rs
index 5d63fe7..1567d7a 100644
--- a/src/util/timestamp_util.rs
+++ b/src/util/timestamp_util.rs
@@ -1,4 +1,6 @@
-use chrono::{DateTime, NaiveDateTime};
+use std::convert::TryFrom;
+
+use chrono::{DateTime, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::Nanos;
 use crate::error::{CliResult, Error};
@@ -34,6 +36,20 @@ fn create_datetime_range_formats() -> Vec<String> {
     formats
 }
 
+/// nanoseconds since epoch, which is an error for a date/time before 1970 or too far in the future
+pub fn to_nanos<T: TimeZone>(datetime: &DateTime<T>) -> CliResult<Nanos> {
+    Nanos::try_from(datetime.timestamp())
+        .ok()
+        .and_then(|secs| secs.checked_mul(1_000_000_000))
+        .and_then(|nanos| nanos.checked_add(Nanos::from(datetime.timestamp_subsec_nanos())))
+        .ok_or_else(|| {
+            Error::from(format!(
+                "Date/time {} UTC cannot be represented as a timestamp in nanoseconds",
+                datetime.naive_utc()
+            ))
+        })
+}
+
 pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> CliResult<Nanos> {
     let is_datetime_all_digits = datetime.chars().all(|c| c.is_ascii_digit());
     if is_datetime_all_digits {
@@ -74,14 +90,14 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     // try the formats that don't need external TZ first
     for format in &DATETIME_RANGE_FORMATS_WITH_TZ {
         if let Ok(dt) = DateTime::parse_from_str(&datetime, format) {
-            return Ok(dt.timestamp_nanos() as Nanos);
+            return to_nanos(&dt);
         };
     }
 
     // try available datetime formats that need external TZ
     for format in DATETIME_RANGE_FORMATS_NEED_TZ.iter() {
         if let Ok(ndt) = NaiveDateTime::parse_from_str(&datetime, &format) {
-            return Ok(timezone.from_local_datetime(&ndt)?.timestamp_nanos() as Nanos);
+            return to_nanos(&timezone.from_local_datetime(&ndt)?);
         }
     }
 
-- 
2.43.0


From 31ce0fd36f2777a9620fe6ff75b28a7075c91a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 21/29] fix: accept --print-time yes/no in any case, as the
 option declares

---
 src/chopper_cli.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index d28800a..a176c4c 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -214,7 +214,12 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
 
 fn parse_csv_output_config(matches: &ArgMatches, timezone: ChopperTz) -> CSVOutputConfig {
     let csv_out_delimiter = matches.value_of("csv_out_delimiter").unwrap();
-    let csv_out_print_time_col = match matches.value_of("csv_out_print_time_col").unwrap() {
+    let csv_out_print_time_col = match matches
+        .value_of("csv_out_print_time_col")
+        .unwrap()
+        .to_ascii_lowercase()
+        .as_str()
+    {
         "yes" => true,
         "no" => false,
         _ => unreachable!(),
-- 
2.43.0


From dd00d0d134ecff423944459477a51181f551cf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 22/29] fix: refuse --epoch together with --human, the
 conflicts named no option

---
 src/cli_app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 7db1f81..4c72024 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -91,7 +91,7 @@ impl CliApp {
                     .long("epoch")
                     .help("csv output only: time column has epoch timestamps")
                     .takes_value(false)
-                    .conflicts_with("human")
+                    .conflicts_with("csv_out_time_fmt_human")
             )
             .arg(
                 Arg::with_name("csv_out_time_fmt_human")
@@ -99,7 +99,7 @@ impl CliApp {
                     .long("human")
                     .help("csv output only: time column is human-readable; default")
                     .takes_value(false)
-                    .conflicts_with("epoch")
+                    .conflicts_with("csv_out_time_fmt_epoch")
             )
             .arg(
                 Arg::with_name("csv_out_time_col_units")
-- 
2.43.0


From 689ee0fcf264280236efffc6f859d8f268acaf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:08 +0000
Subject: [PATCH 23/29] fix: report an unknown time zone name as an error
 instead of panicking

---
 src/chopper_cli.rs |  2 +-
 src/util/tz.rs     | 20 ++++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index a176c4c..6495974 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -42,7 +42,7 @@ pub fn parse_cli_args(
         error::turn_on_backtrace()
     }
 
-    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map);
+    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map)?;
 
     let timestamp_range = TimestampRange::new(
         matches.value_of("begin"),
diff --git a/src/util/tz.rs b/src/util/tz.rs
index 129c0f9..f1a41df 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -16,9 +16,9 @@ impl ChopperTz {
     pub fn new_from_cli_arg(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> ChopperTz {
-        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map);
-        ChopperTz { timezone }
+    ) -> CliResult<ChopperTz> {
+        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map)?;
+        Ok(ChopperTz { timezone })
     }
 
     pub fn new_always_fails() -> ChopperTz {
@@ -28,23 +28,27 @@ impl ChopperTz {
     fn resolve_timezone(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> Option<Tz> {
+    ) -> CliResult<Option<Tz>> {
         let timezone_arg = match cli_timezone_arg {
             None => match env::var("CHOPPER_TZ") {
                 Ok(s) => Some(s),
                 Err(_) => None,
             },
             Some(s) => Some(s.to_owned()),
-        }?;
+        };
+        let timezone_arg = match timezone_arg {
+            None => return Ok(None),
+            Some(s) => s,
+        };
 
         let timezone: Tz = match timezone_map {
-            None => timezone_arg.parse().unwrap(),
+            None => timezone_arg.parse()?,
             Some(map) => match map.get(timezone_arg.as_str()) {
-                None => timezone_arg.parse().unwrap(),
+                None => timezone_arg.parse()?,
                 Some(s) => *s,
             },
         };
-        Some(timezone)
+        Ok(Some(timezone))
     }
 
     pub fn from_local_datetime(&self, local: &NaiveDateTime) -> CliResult<DateTime<Tz>> {
-- 
2.43.0


From 35335473c5bab9d0a155b544fe6ced6802f48419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 24/29] fix: refuse --csv-in-epoch together with date and time
 formats, it was ignored

---
 src/cli_app.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 4c72024..5cdb493 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -211,7 +211,7 @@ impl CliApp {
                 .takes_value(true)
                 .possible_values(&["s", "ms", "us", "ns"])
                 .value_name("arg")
-                .conflicts_with_all(&["csv_in_ts_col_date", "csv_in_ts_col_time", "csv_in_ts_fmt"])
+                .conflicts_with_all(&["csv_in_ts_col_date", "csv_in_ts_col_time", "csv_in_ts_fmt", "csv_in_ts_fmt_date", "csv_in_ts_fmt_time"])
             );
         app
     }
-- 
2.43.0


From bb7ba0306ab37106a137e4cf912f7bcfcf3526ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 25/29] fix: refuse a DC field name or type that is not UTF-8,
 it panicked

---
 src/util/dc_util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index ccd0a5c..bacc196 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -109,7 +109,8 @@ impl FieldDescriptor {
         for _i in 0..size as usize {
             string_bytes.push(rdr.read_u8()?);
         }
-        Ok(String::from_utf8(string_bytes).unwrap().to_string())
+        String::from_utf8(string_bytes)
+            .map_err(|e| Error::from(format!("DC text is not valid UTF-8: {}", e)))
     }
 }
 
-- 
2.43.0


From 5b6c2cd76a91e796288bc40a9e310937056ba8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 26/29] fix: refuse a DC file with an unknown field type, it
 panicked

---
 src/source/dc_source.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index df2b195..509097f 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -69,7 +69,12 @@ impl<R: io::Read> DCSource<R> {
             field_types.push(
                 map_field_string
                     .get(field_descriptor.get_type_string())
-                    .unwrap()
+                    .ok_or_else(|| {
+                        Error::from(format!(
+                            "DCReader -- unknown field type - {}",
+                            field_descriptor.get_type_string()
+                        ))
+                    })?
                     .clone(),
             );
             field_values.push(FieldValue::None);
-- 
2.43.0


From e4cd0ce250f80f79cdcecf8b9537ff6f4602ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 27/29] fix: refuse a DC string value that is not UTF-8, it
 panicked

---
 src/source/dc_source.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 509097f..22c5eed 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -174,7 +174,13 @@ impl<R: io::Read> DCSource<R> {
         let string = string.as_mut_slice();
         reader.read_exact(string)?;
 
-        Ok(str::from_utf8_mut(string).unwrap().to_string())
+        match str::from_utf8_mut(string) {
+            Ok(string) => Ok(string.to_string()),
+            Err(e) => Err(Error::from(format!(
+                "DCReader -- string is not valid UTF-8: {}",
+                e
+            ))),
+        }
     }
 }
 
-- 
2.43.0


From 4e107e0a269267c57a64d57804da9c514478c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 28/29] fix: do not allocate for the field count a DC file
 claims, it aborted on a damaged one

---
 src/source/dc_source.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 22c5eed..faed291 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -55,9 +55,10 @@ impl<R: io::Read> DCSource<R> {
         let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
 
         // field descriptor (header)
-        let mut field_names: Vec<String> = Vec::with_capacity(field_count);
-        let mut field_types: Vec<FieldType> = Vec::with_capacity(field_count);
-        let mut field_values: Vec<FieldValue> = Vec::with_capacity(field_count);
+        // no room is made for field_count of them, a damaged file may say anything
+        let mut field_names: Vec<String> = Vec::new();
+        let mut field_types: Vec<FieldType> = Vec::new();
+        let mut field_values: Vec<FieldValue> = Vec::new();
         for i in 0..field_count {
             let field_descriptor = dc_util::FieldDescriptor::new(&mut reader)?;
             let mut name = field_descriptor.get_name().to_string();
-- 
2.43.0


From 8fe26b3ec8247870b36cf489f0a51660ac5fc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:23 +0000
Subject: [PATCH 29/29] fix: only delimiters count as delimiters when the
 delimiter of a CSV file is guessed

Characters were cut down to a byte before they were compared with the possible
delimiters, so that letters such as U+0120 or U+012C were counted as spaces and
commas.
---
 src/util/csv_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index 581611f..c4f9af1 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -35,8 +35,8 @@ pub fn guess_delimiter(row: &str, possible_delimiters: &[u8]) -> u8 {
         counts.insert(*d, 0);
     }
 
-    for c in row.chars() {
-        counts.entry(c as u8).and_modify(|count| *count += 1);
+    for b in row.bytes() {
+        counts.entry(b).and_modify(|count| *count += 1);
     }
 
     let mut sorted = possible_delimiters.to_vec();
-- 
2.43.0

