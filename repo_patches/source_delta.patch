From a543dabbfb678acf740c6ee1f253f5cd13496743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 01/20] fix: do not read a metadata section from segments
 without one

A segment whose table of contents has no metadata flag was still parsed as
if metadata followed, so its raw data was interpreted as an object list.
---
 src/io/reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7d200b7..01e4159 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -46,14 +46,18 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        //todo handle no meta data mode.
-        let meta_data = self.read_meta()?;
+        // Without the flag there is no metadata section and the raw data follows immediately.
+        let meta_data = if toc.contains_meta_data {
+            Some(self.read_meta()?)
+        } else {
+            None
+        };
 
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data: Some(meta_data),
+            meta_data,
         })
     }
 }
-- 
2.43.0


From a13cfebf431f36d553778872b73dc8487ccf4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 02/20] fix: write metadata whenever the channel list or a
 format changes

The writer left the metadata out when the channels it was given were only a
prefix of the live list (or the reverse), and when a channel kept its place
but changed its type or length, so the raw data was attributed to the wrong
channels, types and counts.
---
 src/file/file_writer.rs | 11 ++++++++---
 src/index/writing.rs    | 15 ++++++---------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 05d9b4b..23ac36e 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -2,7 +2,7 @@ use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
 use crate::io::data_types::TdmsStorageType;
 use crate::io::writer::TdmsWriter;
-use crate::meta_data::{MetaData, ObjectMetaData, Segment, ToC};
+use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
@@ -79,7 +79,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         let object = ObjectMetaData {
             path: path.to_string(),
             properties,
-            raw_data_index: crate::meta_data::RawDataIndex::None,
+            raw_data_index: RawDataIndex::None,
         };
 
         let meta = MetaData {
@@ -129,7 +129,12 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
         let (matches_live, channels) = index.check_write_values(channels);
 
-        let meta = if matches_live {
+        // Even if the object list is unchanged we must describe any channel with a new format.
+        let formats_unchanged = channels
+            .iter()
+            .all(|(_, raw_index)| *raw_index == RawDataIndex::MatchPrevious);
+
+        let meta = if matches_live && formats_unchanged {
             None
         } else {
             let objects: Vec<ObjectMetaData> = channels
diff --git a/src/index/writing.rs b/src/index/writing.rs
index 4ad8ed3..03b409a 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -14,17 +14,14 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches = if !self.active_objects.is_empty() {
-            self.active_objects
+        // The live list only matches if it holds exactly these objects in this order.
+        let live_matches = !self.active_objects.is_empty()
+            && self.active_objects.len() == objects.len()
+            && self
+                .active_objects
                 .iter()
                 .zip(objects.iter())
-                .fold(true, |matches, (active, new)| {
-                    matches && active.path == new.0
-                })
-        } else {
-            //empty
-            false
-        };
+                .all(|(active, new)| active.path == new.0);
 
         let raw_data_formats = objects
             .into_iter()
-- 
2.43.0


From 5c6a88735b23509e8b0226591280106963d8722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 03/20] fix: use the true file size of timestamps and extended
 floats

Timestamps are 16 bytes and extended floats 10 bytes in the file, but block
sizes were calculated with 8 and 16 bytes (and the in memory size of the
value for writes), which corrupted segments holding those types.
---
 src/io/data_types/extended.rs | 3 +++
 src/io/data_types/mod.rs      | 8 ++++----
 src/raw_data/write.rs         | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index 33d11ef..cfb0826 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -33,6 +33,9 @@ impl TdmsStorageType for ExtendedRaw {
 
     const NATURAL_TYPE: DataType = DataType::ExtendedFloat;
 
+    // Smaller in the file than in memory.
+    const SIZE_BYTES: usize = EXT_SIZE;
+
     fn read_le(reader: &mut impl Read) -> StorageResult<Self> {
         let mut buffer = [0u8; U128_SIZE];
         reader.read_exact(&mut buffer[0..EXT_SIZE])?;
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index cf11837..7712e60 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -73,13 +73,13 @@ impl DataType {
             DataType::I64 | DataType::U64 => 8,
             DataType::SingleFloat => 4,
             DataType::DoubleFloat => 8,
-            DataType::ExtendedFloat => 16,
+            DataType::ExtendedFloat => 10,
             DataType::SingleFloatWithUnit => 4,
             DataType::DoubleFloatWithUnit => 8,
-            DataType::ExtendedFloatWithUnit => 16,
+            DataType::ExtendedFloatWithUnit => 10,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
-            DataType::Timestamp => 8,
+            DataType::Timestamp => 16,
             DataType::FixedPoint => 8,
             DataType::ComplexSingleFloat => 8,
             DataType::ComplexDoubleFloat => 16,
@@ -124,7 +124,7 @@ pub trait TdmsStorageType: Sized + 'static {
     const SUPPORTED_TYPES: &'static [DataType];
     /// The [`DataType`] that this storage type is naturally written as.
     const NATURAL_TYPE: DataType;
-    /// Size in bytes of the type.
+    /// Size in bytes of the type in the file.
     const SIZE_BYTES: usize = std::mem::size_of::<Self>();
     fn read_le(reader: &mut impl Read) -> StorageResult<Self>;
     fn read_be(reader: &mut impl Read) -> StorageResult<Self>;
diff --git a/src/raw_data/write.rs b/src/raw_data/write.rs
index 4650416..c6e5a54 100644
--- a/src/raw_data/write.rs
+++ b/src/raw_data/write.rs
@@ -33,7 +33,7 @@ impl<D: TdmsStorageType> WriteBlock for &[D] {
     }
 
     fn size(&self) -> usize {
-        std::mem::size_of_val(*self)
+        self.len() * D::SIZE_BYTES
     }
 }
 
-- 
2.43.0


From dddcbcec0f5ef0b5542bcacc4bc90c52dfb00103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 04/20] fix: refuse empty and string channel writes before
 writing anything

A write without values or with strings wrote a broken segment (and
registered its objects) before it failed or, for strings, did not fail.
---
 src/file/file_writer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 23ac36e..45a4d65 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -114,7 +114,15 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         values: &'b [D],
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
+        // Validate everything before we write any bytes.
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        if D::NATURAL_TYPE.size() == 0 {
+            // Variable length data can be written as properties but not as channel data.
+            return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
+        }
+        if values.is_empty() {
+            return Err(TdmsError::ZeroLengthDataBlock);
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
-- 
2.43.0


From b79468fd00f4b1c8088c6f813578968107e3d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 05/20] fix: read the size of string channels and skip their
 data as a whole

---
 src/meta_data.rs        | 30 ++++++++++++++++++++++++------
 src/raw_data/records.rs | 22 +++++++++++++++++++---
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index c6138c4..abcd553 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -286,10 +286,16 @@ impl TdmsMetaData for RawDataIndex {
                 let data_type: DataType = reader.read_meta()?;
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
+                // Variable length data also stores the size of its raw data.
+                let total_size_bytes = if data_type == DataType::TdmsString {
+                    Some(reader.read_value()?)
+                } else {
+                    None
+                };
                 let meta = RawDataMeta {
                     data_type,
                     number_of_values,
-                    total_size_bytes: None,
+                    total_size_bytes,
                 };
                 RawDataIndex::RawData(meta)
             }
@@ -303,12 +309,20 @@ impl TdmsMetaData for RawDataIndex {
             RawDataIndex::None => writer.write_value(&0xFFFF_FFFFu32)?,
             RawDataIndex::MatchPrevious => writer.write_value(&0u32)?,
             RawDataIndex::RawData(raw_meta) => {
-                //size: until we add string support it is 20 bytes.
-                writer.write_value(&20u32)?;
+                //size: 20 bytes, variable length data adds its total size.
+                let length: u32 = if raw_meta.total_size_bytes.is_some() {
+                    28
+                } else {
+                    20
+                };
+                writer.write_value(&length)?;
                 writer.write_meta(&raw_meta.data_type)?;
                 //array dim is alway 1 in TDMS v2.0.
                 writer.write_value(&1u32)?;
-                writer.write_value(&raw_meta.number_of_values)?
+                writer.write_value(&raw_meta.number_of_values)?;
+                if let Some(total_size) = &raw_meta.total_size_bytes {
+                    writer.write_value(total_size)?;
+                }
             }
         }
         Ok(())
@@ -318,8 +332,12 @@ impl TdmsMetaData for RawDataIndex {
         match self {
             RawDataIndex::None => std::mem::size_of::<u32>(),
             RawDataIndex::MatchPrevious => std::mem::size_of::<u32>(),
-            RawDataIndex::RawData(_raw_meta) => {
-                3 * std::mem::size_of::<u32>() + std::mem::size_of::<u64>()
+            RawDataIndex::RawData(raw_meta) => {
+                let total_size = match raw_meta.total_size_bytes {
+                    Some(_) => std::mem::size_of::<u64>(),
+                    None => 0,
+                };
+                3 * std::mem::size_of::<u32>() + std::mem::size_of::<u64>() + total_size
             }
         }
     }
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 913cd21..16ae558 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -4,7 +4,11 @@
 //! This is used to define a read pattern for a data segment and
 //! is used by the data readers to efficiently read the data.
 
-use crate::{error::TdmsError, io::data_types::TdmsStorageType, meta_data::RawDataMeta};
+use crate::{
+    error::TdmsError,
+    io::data_types::{DataType, TdmsStorageType},
+    meta_data::RawDataMeta,
+};
 
 /// An instruction on how to move through the record based on the read instructions.
 ///
@@ -129,9 +133,17 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
     fn build_base_record(channels: &[RawDataMeta]) -> Self {
         let mut plan = Vec::with_capacity(channels.len());
         for channel in channels {
+            // Variable length data can only be skipped as a whole.
+            let (length, size) = match channel.total_size_bytes {
+                Some(total_size) => (1, total_size as i64),
+                None => (
+                    channel.number_of_values as usize,
+                    channel.data_type.size() as i64,
+                ),
+            };
             plan.push(RecordEntry {
-                length: channel.number_of_values as usize,
-                plan: RecordEntryPlan::Skip(channel.data_type.size() as i64),
+                length,
+                plan: RecordEntryPlan::Skip(size),
             })
         }
         Self(plan)
@@ -162,6 +174,10 @@ fn validate_types_match<T: TdmsStorageType>(
                 T::NATURAL_TYPE,
             ));
         }
+        // The records hold fixed size values only.
+        if channels[*output_idx].data_type == DataType::TdmsString {
+            return Err(TdmsError::UnsupportedType(DataType::TdmsString));
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 96bea77a52d454408cbc4a534d06571b25c8576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 06/20] fix: leave objects without raw data out of the data
 block of their segment

---
 src/index/building.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/index/building.rs b/src/index/building.rs
index 01a8101..eebc8bc 100644
--- a/src/index/building.rs
+++ b/src/index/building.rs
@@ -73,7 +73,13 @@ impl super::Index {
         if let Some(meta_data) = &segment.meta_data {
             for obj in meta_data.objects.iter() {
                 match obj.raw_data_index {
-                    RawDataIndex::None => self.update_meta_object(obj)?,
+                    RawDataIndex::None => {
+                        // No data for this object in the raw data of this segment.
+                        if segment.toc.contains_raw_data {
+                            self.deactivate_object(&obj.path);
+                        }
+                        self.update_meta_object(obj)?
+                    }
                     _ => self.update_or_activate_data_object(obj)?,
                 }
             }
@@ -148,6 +154,11 @@ impl super::Index {
         self.active_objects.clear();
     }
 
+    /// Remove a single object from the active objects.
+    fn deactivate_object(&mut self, path: ObjectPath) {
+        self.active_objects.retain(|active| active.path != path);
+    }
+
     /// Activate Data Object
     ///
     /// Adds the object by path to the active objects. Creates it if it doesn't exist.
-- 
2.43.0


From 4ebd13ef1d6b68bcf204f4a80ac4eb6e218b9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 07/20] fix: skip and stop each channel on its own when reading
 a block

---
 src/raw_data/contigious_multi_channel_read.rs | 171 ++++++------------
 .../interleaved_multi_channel_read.rs         |  41 ++---
 src/raw_data/mod.rs                           |   3 +
 src/raw_data/records.rs                       |  21 ++-
 4 files changed, 94 insertions(+), 142 deletions(-)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index a724010..6688071 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -2,7 +2,7 @@
 //!
 //!
 
-use super::records::{RecordEntryPlan, RecordPlan};
+use super::records::{RecordEntryPlan, RecordPlan, skip_distance};
 use crate::io::reader::TdmsReader;
 use crate::{error::TdmsError, io::data_types::TdmsStorageType};
 use std::num::NonZeroU64;
@@ -57,135 +57,68 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         mut channels: RecordPlan<D>,
         start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
-
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate how many complete sub-blocks to skip and the remainder
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip = start_sample / sub_block_length;
-        let remainder_skip = start_sample % sub_block_length;
-
-        let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            if sub_block_idx < sub_blocks_to_skip {
-                // Skip entire sub-block by seeking past it
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else if sub_block_idx == sub_blocks_to_skip {
-                // First sub-block to read - apply remainder skip
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = remainder_skip;
-                    }
-                }
-                length += self.read_sub_block(&mut channels)?;
-            } else {
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = 0;
-                    }
-                }
-                // Subsequent sub-blocks - no skip
-                length += self.read_sub_block(&mut channels)?;
-            }
+        for channel_skip in channels.block_skips_mut() {
+            *channel_skip = start_sample;
         }
-
-        Ok(length)
+        self.read_skipping(channels)
     }
 
     /// Read the data from the block with per-channel skip amounts.
     ///
     /// For contiguous data, each channel can skip independently by seeking.
+    /// The skip amounts are in the order of the channels in the block.
     pub fn read_with_per_channel_skip<D: TdmsStorageType>(
         &mut self,
         mut channels: RecordPlan<D>,
         skip_amounts: &[u64],
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
+        for (channel_skip, skip) in channels.block_skips_mut().zip(skip_amounts) {
+            *channel_skip = *skip;
+        }
+        self.read_skipping(channels)
+    }
 
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
+    /// Read with the skip of every channel set in the plan.
+    fn read_skipping<D: TdmsStorageType>(
+        &mut self,
+        mut channels: RecordPlan<D>,
+    ) -> Result<usize, TdmsError> {
+        let sub_block_size = channels.block_size() as u64;
+        if sub_block_size == 0 {
+            // None of the channels has data in this block.
+            return Ok(0);
+        }
+        let total_sub_blocks = self.block_size.get() / sub_block_size;
 
-        // Calculate per-channel sub-blocks to skip and remainders
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip / sub_block_length)
-            .collect();
-        let remainder_skips: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip % sub_block_length)
-            .collect();
+        self.reader.to_file_position(self.block_start)?;
 
         let mut length = 0;
+        let mut sub_block_idx: u64 = 0;
 
-        for sub_block_idx in 0..total_sub_blocks {
-            // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().all(|&skip| sub_block_idx >= skip);
-
-            if !any_channel_reads {
-                // Skip entire sub-block
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else {
-                // Build skip amounts for this sub-block
-                let channel_skip_values =
-                    channels
-                        .read_instructions()
-                        .iter_mut()
-                        .filter_map(|instruction| {
-                            if let RecordEntryPlan::Read {
-                                block_skip: skip_first_samples,
-                                ..
-                            } = &mut instruction.plan
-                            {
-                                Some(skip_first_samples)
-                            } else {
-                                None
-                            }
-                        });
-                for ((blocks_to_skip, remainder_skip), sub_block_skip) in sub_blocks_to_skip
-                    .iter()
-                    .zip(remainder_skips.iter())
-                    .zip(channel_skip_values)
-                {
-                    *sub_block_skip = Self::calculate_skip_for_this_block(
-                        sub_block_idx,
-                        *blocks_to_skip,
-                        *remainder_skip,
-                    );
+        while let Some(sub_blocks_to_skip) = sub_blocks_to_skip(&channels) {
+            sub_block_idx = sub_block_idx.saturating_add(sub_blocks_to_skip);
+            if sub_block_idx >= total_sub_blocks {
+                break;
+            }
+            if sub_blocks_to_skip > 0 {
+                self.move_records(sub_blocks_to_skip, sub_block_size)?;
+                for channel in channels.read_instructions() {
+                    if let RecordEntryPlan::Read { block_skip, .. } = &mut channel.plan {
+                        let samples = sub_blocks_to_skip * channel.length as u64;
+                        *block_skip = block_skip.saturating_sub(samples);
+                    }
                 }
-                length += self.read_sub_block(&mut channels)?;
             }
+            length += self.read_sub_block(&mut channels)?;
+            sub_block_idx += 1;
         }
 
         Ok(length)
     }
 
-    fn calculate_skip_for_this_block(
-        sub_block_idx: u64,
-        blocks_to_skip: u64,
-        remainder_skip: u64,
-    ) -> u64 {
-        if sub_block_idx == blocks_to_skip {
-            // First sub-block to read for this channel - use remainder
-            remainder_skip
-        } else if sub_block_idx > blocks_to_skip {
-            // Subsequent sub-blocks - no skip
-            0
-        } else {
-            // Should not happen if any_channel_reads is correct
-            0
-        }
+    /// Move over a number of records without reading them.
+    fn move_records(&mut self, count: u64, size: u64) -> Result<(), TdmsError> {
+        self.reader.move_position(skip_distance(count, size)?)
     }
 
     fn read_sub_block<D: TdmsStorageType>(
@@ -204,18 +137,20 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
 
                     let samples_to_read = read_instruction.length.saturating_sub(skip);
 
+                    // What is not skipped here is skipped in the following sub-blocks.
+                    *skip_first_samples -= skip as u64;
+
                     // Skip samples by seeking
                     if skip > 0 {
-                        let skip_bytes = skip as i64 * D::SIZE_BYTES as i64;
-                        self.reader.move_position(skip_bytes)?;
+                        self.move_records(skip as u64, D::SIZE_BYTES as u64)?;
                     }
 
                     // Read the remaining samples
                     length = self.read_sequential_samples(output, samples_to_read)?;
                 }
                 RecordEntryPlan::Skip(bytes) => {
-                    let skip_bytes = *bytes * read_instruction.length as i64;
-                    self.reader.move_position(skip_bytes)?;
+                    let (count, size) = (read_instruction.length as u64, *bytes as u64);
+                    self.move_records(count, size)?;
                 }
             };
         }
@@ -237,13 +172,23 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         // Skip to end of unread samples.
         let unread_samples = samples_to_read - length;
         if unread_samples > 0 {
-            self.reader
-                .move_position(unread_samples as i64 * D::SIZE_BYTES as i64)?;
+            self.move_records(unread_samples as u64, D::SIZE_BYTES as u64)?;
         }
         Ok(length)
     }
 }
 
+/// The number of sub-blocks before the first one that a channel still needs.
+///
+/// None if every output is full.
+fn sub_blocks_to_skip<D: TdmsStorageType>(channels: &RecordPlan<'_, D>) -> Option<u64> {
+    channels
+        .pending_reads()
+        .filter(|(length, _)| *length > 0)
+        .map(|(length, block_skip)| block_skip / length as u64)
+        .min()
+}
+
 #[cfg(test)]
 mod tests {
     use crate::{io::data_types::DataType, io::reader::BigEndianReader, meta_data::RawDataMeta};
diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index e39e548..72c03d0 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -2,7 +2,7 @@
 //!
 //!
 
-use super::records::{RecordEntryPlan, RecordPlan};
+use super::records::{RecordEntryPlan, RecordPlan, skip_distance};
 use crate::io::reader::TdmsReader;
 use crate::{error::TdmsError, io::data_types::TdmsStorageType};
 use std::num::NonZeroU64;
@@ -46,27 +46,24 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
         mut channels: RecordPlan<D>,
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
-        let total_row_count = self.block_size.get() / channels.row_size() as u64;
+        let row_size = channels.row_size() as u64;
+        let total_row_count = self.block_size.get() / row_size;
 
-        // Find minimum skip (we can skip entire rows up to this point)
-        let min_skip = channels.block_skips().min().unwrap_or(0);
-
-        // Skip entire rows
-        if min_skip > 0 {
-            let skip_bytes = min_skip as i64 * channels.row_size() as i64;
-            self.reader.move_position(skip_bytes)?;
-        }
-
-        // Calculate the remaining skip per channel
-        for skip in channels.block_skips_mut() {
-            *skip = skip.saturating_sub(min_skip);
-        }
+        let mut samples_read = 0;
+        let mut row = 0;
 
-        // Read rows, discarding samples for channels that still need to skip
-        let rows_to_process = total_row_count.saturating_sub(min_skip);
+        // Go to the next row that any channel still needs, until all outputs are full.
+        while let Some(needed) = channels.pending_reads().map(|(_, skip)| skip).min() {
+            let next_row = needed.max(row);
+            if next_row >= total_row_count {
+                break;
+            }
+            if next_row > row {
+                self.reader
+                    .move_position(skip_distance(next_row - row, row_size)?)?;
+                row = next_row;
+            }
 
-        let mut samples_read = 0;
-        for row in 0..rows_to_process {
             let mut any_values_read = false;
             for read_instruction in channels.read_instructions().iter_mut() {
                 match &mut read_instruction.plan {
@@ -86,10 +83,10 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                     }
                 };
             }
-            if !any_values_read {
-                break;
+            if any_values_read {
+                samples_read += 1;
             }
-            samples_read += 1;
+            row += 1;
         }
 
         Ok(samples_read)
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index a437311..dc62cfe 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -323,6 +323,9 @@ impl DataBlock {
         reader: &mut (impl Read + Seek),
         channels_to_read: &'b mut [BlockReadChannelConfig<'b, D>],
     ) -> Result<usize, TdmsError> {
+        // The readers go through the channels in the order of the block.
+        channels_to_read.sort_by_key(|channel| channel.channel_index);
+
         // Extract skip amounts first (before mutable borrow)
         let skip_amounts: Vec<u64> = channels_to_read
             .iter()
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 16ae558..f5f40a3 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -74,14 +74,13 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         &mut self.0[..]
     }
 
-    /// Get the block skips per read channel in the read plan.
-    pub fn block_skips(&self) -> impl Iterator<Item = u64> + '_ {
-        self.0.iter().filter_map(|entry| {
-            if let RecordEntryPlan::Read { block_skip, .. } = &entry.plan {
-                Some(*block_skip)
-            } else {
-                None
+    /// Get the length and the block skip of each read channel whose output is not full yet.
+    pub fn pending_reads(&self) -> impl Iterator<Item = (usize, u64)> + '_ {
+        self.0.iter().filter_map(|entry| match &entry.plan {
+            RecordEntryPlan::Read { output, block_skip } if output.len() > 0 => {
+                Some((entry.length, *block_skip))
             }
+            _ => None,
         })
     }
 
@@ -163,6 +162,14 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
     fn compress_reads(&mut self) {}
 }
 
+/// The distance to move the reader to skip a number of records.
+pub fn skip_distance(count: u64, size: u64) -> Result<i64, TdmsError> {
+    count
+        .checked_mul(size)
+        .and_then(|bytes| i64::try_from(bytes).ok())
+        .ok_or(TdmsError::ChunkSizeOverflow)
+}
+
 fn validate_types_match<T: TdmsStorageType>(
     outputs: &[(usize, &mut [T])],
     channels: &[RawDataMeta],
-- 
2.43.0


From fa77f125d20ccb91cc6313d80ec3d9573f83f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 08/20] fix: check the address of a data block for overflow

---
 src/raw_data/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index dc62cfe..94c167f 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -143,7 +143,11 @@ impl DataBlock {
         }
 
         Ok(DataBlock {
-            start: segment.raw_data_offset + LEAD_IN_BYTES + segment_start,
+            start: segment
+                .raw_data_offset
+                .checked_add(LEAD_IN_BYTES)
+                .and_then(|offset| offset.checked_add(segment_start))
+                .ok_or(TdmsError::SegmentAddressOverflow)?,
             length,
             layout,
             channels: active_channels_meta,
-- 
2.43.0


From ceb1d3de7af9ae55d571127afe39c7a7ab8b3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 09/20] fix: count the samples read of each channel on its own

---
 src/file/channel_reader.rs | 77 ++++++++++++++++++++++++++------------
 src/raw_data/mod.rs        |  9 +++++
 2 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 60b9d93..5911a3c 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -38,6 +38,10 @@ impl ChannelProgress {
         self.samples_read >= self.samples_target
     }
 
+    fn remaining(&self) -> usize {
+        self.samples_target.saturating_sub(self.samples_read)
+    }
+
     fn add_samples(&mut self, samples: usize) {
         self.samples_read += samples;
     }
@@ -153,6 +157,10 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
             .collect();
 
         for location in plan {
+            if all_channels_complete(&channel_progress) {
+                break;
+            }
+
             // Check if any channel needs to skip at the start of this block
             let any_skip_needed = location
                 .channel_indexes
@@ -169,30 +177,45 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
                     )
                 })?;
 
+            // Channels can have different lengths so each has its own count for this block.
+            let sample_counts = location
+                .channel_indexes
+                .iter()
+                .zip(channel_progress.iter())
+                .map(|(plan, progress)| match plan {
+                    Some(plan) => {
+                        let available = block
+                            .channel_samples(plan.index)?
+                            .saturating_sub(plan.samples_to_skip);
+                        Ok(progress.remaining().min(available as usize))
+                    }
+                    None => Ok(0),
+                })
+                .collect::<Result<Vec<usize>, TdmsError>>()?;
+
+            // Nothing to do if what is left to read is in later blocks.
+            if sample_counts.iter().all(|count| *count == 0) {
+                continue;
+            }
+
             // Use fast path if no skip needed, slow path otherwise
-            let location_samples_read = if any_skip_needed {
-                let mut channels_with_skip =
-                    get_block_read_data_with_skip(&location, output, &channel_progress);
+            if any_skip_needed {
+                let mut channels_with_skip = get_block_read_data_with_skip(
+                    &location,
+                    output,
+                    &channel_progress,
+                    &sample_counts,
+                );
                 block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?
             } else {
                 let mut channels_to_read =
-                    get_block_read_data(&location, output, &channel_progress);
+                    get_block_read_data(&location, output, &channel_progress, &sample_counts);
                 block.read(&mut self.file, &mut channels_to_read)?
             };
 
             // Update progress
-            for (plan, progress) in location
-                .channel_indexes
-                .iter()
-                .zip(channel_progress.iter_mut())
-            {
-                if plan.is_some() {
-                    progress.add_samples(location_samples_read);
-                }
-            }
-
-            if all_channels_complete(&channel_progress) {
-                break;
+            for (count, progress) in sample_counts.iter().zip(channel_progress.iter_mut()) {
+                progress.add_samples(*count);
             }
         }
 
@@ -205,18 +228,22 @@ fn get_block_read_data<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    sample_counts: &[usize],
 ) -> Vec<(usize, &'o mut [D])> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(sample_counts.iter())
+        .filter_map(|(((plan, output), progress), count)| {
             match (plan, progress) {
-                // If we have hit our target, ignore this channel.
-                (Some(_), progress) if progress.is_complete() => None,
+                // If there is nothing to read here, ignore this channel.
+                (Some(_), _) if *count == 0 => None,
                 // More to read - include this channel.
-                (Some(plan), progress) => Some((plan.index, &mut output[progress.samples_read..])),
+                (Some(plan), progress) => {
+                    Some((plan.index, &mut output[progress.samples_read..][..*count]))
+                }
                 _ => None,
             }
         })
@@ -228,20 +255,22 @@ fn get_block_read_data_with_skip<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    sample_counts: &[usize],
 ) -> Vec<BlockReadChannelConfig<'b, D>> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(sample_counts.iter())
+        .filter_map(|(((plan, output), progress), count)| {
             match (plan, progress) {
-                // If we have hit our target, ignore this channel.
-                (Some(_), progress) if progress.is_complete() => None,
+                // If there is nothing to read here, ignore this channel.
+                (Some(_), _) if *count == 0 => None,
                 // More to read - include this channel with its skip amount.
                 (Some(plan), progress) => Some(BlockReadChannelConfig {
                     channel_index: plan.index,
-                    output: &mut output[progress.samples_read..],
+                    output: &mut output[progress.samples_read..][..*count],
                     samples_to_skip: plan.samples_to_skip,
                 }),
                 _ => None,
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index 94c167f..413908c 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -190,6 +190,15 @@ impl DataBlock {
         Ok(chunk_count)
     }
 
+    /// The number of samples of a channel in this block.
+    pub fn channel_samples(&self, channel_index: usize) -> Result<u64, TdmsError> {
+        let chunks = self.number_of_chunks()? as u64;
+        self.channels[channel_index]
+            .number_of_values
+            .checked_mul(chunks)
+            .ok_or(TdmsError::ChunkSizeOverflow)
+    }
+
     /// Read the data from the block for the channels specified into the output slices.
     ///
     /// We assume all channels in the block have the same length and so return the maximum
-- 
2.43.0


From ced7b9d700d30ebcb622c62b30c0c057c7feb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 10/20] fix: fill every buffer when a channel is requested
 repeatedly

---
 src/file/channel_reader.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 5911a3c..cf8eec6 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -137,9 +137,42 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
             .collect::<Result<Vec<&[DataLocation]>, TdmsError>>()?;
 
         let start_skips: Vec<u64> = vec![start; channels.len()];
-        let plan = read_plan(&channel_positions[..], &start_skips);
 
-        self.execute_read_plan(plan, output)
+        // A block is read into one output per channel so a repeated channel needs its own pass.
+        let passes: Vec<usize> = (0..channels.len())
+            .map(|index| {
+                let path = channels[index].as_ref().path();
+                let previous = channels[..index].iter();
+                previous.filter(|c| c.as_ref().path() == path).count()
+            })
+            .collect();
+        let pass_count = passes.iter().max().map_or(0, |last| last + 1);
+        let plans: Vec<Vec<BlockRead>> = (0..pass_count)
+            .map(|pass| {
+                let positions: Vec<&[DataLocation]> = channel_positions
+                    .iter()
+                    .zip(passes.iter())
+                    .map(|(positions, of)| if *of == pass { *positions } else { &[] })
+                    .collect();
+                read_plan(&positions, &start_skips)
+            })
+            .collect();
+
+        for (pass, plan) in plans.into_iter().enumerate() {
+            let mut pass_output: Vec<&mut [D]> = output
+                .iter_mut()
+                .zip(passes.iter())
+                .map(|(output, of)| {
+                    if *of == pass {
+                        &mut output[..]
+                    } else {
+                        &mut []
+                    }
+                })
+                .collect();
+            self.execute_read_plan(plan, &mut pass_output)?;
+        }
+        Ok(())
     }
 
     /// Execute a read plan, reading data from blocks into the output slices.
-- 
2.43.0


From c027be4faa55082e27c7f72fac39e84288505aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 11/20] fix: parse object paths by their quotes

---
 src/paths.rs | 66 ++++++++++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index f22f764..7bee492 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -33,28 +33,36 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
         return Ok((None, None));
     }
 
-    let mut parts = path
-        .split('/')
-        .skip(1)
-        .map(|p| parse_name(p).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string())));
-    let group = invert(parts.next())?;
-    let channel = invert(parts.next())?;
-
-    if parts.next().is_some() {
+    let invalid = || TdmsError::InvalidObjectPath(path.to_string());
+    let (group, rest) = parse_name(path).ok_or_else(invalid)?;
+    if rest.is_empty() {
+        return Ok((Some(group), None));
+    }
+
+    let (channel, rest) = parse_name(rest).ok_or_else(invalid)?;
+    if !rest.is_empty() {
         // There is more than one group or channel in the path.
-        return Err(TdmsError::InvalidObjectPath(path.to_string()));
+        return Err(invalid());
     }
 
-    Ok((group, channel))
+    Ok((Some(group), Some(channel)))
 }
 
-//expects name with quotes and removes the quotes.
-fn parse_name(name: &str) -> Option<&str> {
-    if !name.starts_with('\'') || !name.ends_with('\'') {
-        return None;
+/// Takes the first `/'name'` off the path. Returns the name without quotes and the rest of the path.
+///
+/// The name can contain any character. A single quote is only part of the name if it is doubled.
+fn parse_name(path: &str) -> Option<(&str, &str)> {
+    let quoted = path.strip_prefix("/'")?;
+    let mut from = 0;
+    loop {
+        let quote = from + quoted[from..].find('\'')?;
+        let rest = &quoted[quote + 1..];
+        if rest.starts_with('\'') {
+            from = quote + 2;
+        } else {
+            return Some((&quoted[..quote], rest));
+        }
     }
-
-    Some(&name[1..name.len() - 1])
 }
 
 /// Get the group name for the path, if one exists.
@@ -62,10 +70,6 @@ pub fn path_group_name(path: ObjectPath<'_>) -> Option<&str> {
     parse_path(path).ok()?.0
 }
 
-fn invert<T, E>(x: Option<Result<T, E>>) -> Result<Option<T>, E> {
-    x.map_or(Ok(None), |v| v.map(Some))
-}
-
 /// A path to a location in a tdms file.
 ///
 /// These will format the path correctly and turn it into a owned string
@@ -116,15 +120,9 @@ impl PropertyPath {
         self.0.as_ref()
     }
 
-    /// Get the levels of the path structure
-    fn path_levels(&self) -> impl Iterator<Item = &str> {
-        self.0.split('/').skip(1).filter_map(|value| {
-            if value.starts_with("'") && value.ends_with("'") {
-                Some(&value[1..value.len() - 1])
-            } else {
-                None
-            }
-        })
+    /// Get the group and channel name of the path.
+    fn names(&self) -> (Option<&str>, Option<&str>) {
+        parse_path(&self.0).unwrap_or_default()
     }
 
     /// Get the group name from the path, if there is one.
@@ -143,7 +141,7 @@ impl PropertyPath {
     /// assert_eq!(channel.group_name(), Some("group"));
     /// ```
     pub fn group_name(&self) -> Option<&str> {
-        self.path_levels().next()
+        self.names().0
     }
 
     /// Get the channel name from the path, if there is one.
@@ -160,15 +158,11 @@ impl PropertyPath {
     /// assert_eq!(channel.channel_name(), Some("channel"));
     /// ```
     pub fn channel_name(&self) -> Option<&str> {
-        self.path_levels().nth(1)
-    }
-
-    fn path_depth(&self) -> usize {
-        self.0.chars().filter(|c| *c == '/').count()
+        self.names().1
     }
 
     fn is_channel(&self) -> bool {
-        self.path_depth() == 2
+        self.names().1.is_some()
     }
 }
 
-- 
2.43.0


From 6822e8ca703c661dc0577ce35e6144ce65e64840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 12/20] fix: keep object paths as they are when parsing them

---
 src/paths.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index 7bee492..4d33ddb 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -182,13 +182,9 @@ impl<'a> TryFrom<ObjectPath<'a>> for PropertyPath {
     type Error = TdmsError;
 
     fn try_from(value: ObjectPath) -> Result<Self, Self::Error> {
-        let parsed = parse_path(value)?;
-        match parsed {
-            (None, None) => Ok(Self::file()),
-            (Some(group), None) => Ok(Self::group(group)),
-            (Some(group), Some(channel)) => Ok(Self::channel(group, channel)),
-            _ => unreachable!(),
-        }
+        parse_path(value)?;
+        // The path is escaped already.
+        Ok(Self(value.to_string()))
     }
 }
 
-- 
2.43.0


From 97b8e8127e87b5b64a8831345b27bccb6ad730bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 13/20] fix: list channels of the group only when its path
 starts another

---
 src/file/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 7f37a88..98a6bf5 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -148,7 +148,11 @@ impl<F: Read + Seek> TdmsFile<F> {
         group: &'b PropertyPath,
     ) -> impl Iterator<Item = ChannelPath> + 'c {
         let paths = self.index.paths_starting_with(group.path());
-        paths.filter_map(|path| ChannelPath::try_from(path).ok())
+        // A doubled quote in a name makes the path of one group the start of another.
+        let group_name = group.group_name();
+        paths
+            .filter(move |path| group_name.is_none() || path_group_name(path) == group_name)
+            .filter_map(|path| ChannelPath::try_from(path).ok())
     }
 }
 
-- 
2.43.0


From 5b3cbb8ed8de7eef34492c43f37fa37c81c6d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 14/20] fix: refuse to write behind an incomplete segment

---
 src/error.rs     | 4 ++++
 src/file/mod.rs  | 7 ++++++-
 src/index/mod.rs | 5 +++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4fa54fc..1fe4a02 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -67,6 +67,10 @@ pub enum TdmsError {
         "The calculated size for a data chunk is grater than 2^64 bytes. This isn't allowed and probably indicates a corrupt file."
     )]
     ChunkSizeOverflow,
+    #[error(
+        "The segments end at byte {0} but the file ends at byte {1}. Writing is not possible as the last segment is incomplete."
+    )]
+    IncompleteSegment(u64, u64),
     #[error("DAQmx Channels are not supported yet")]
     DaqmxChannelsNotSupported,
     #[cfg(feature = "chrono")]
diff --git a/src/file/mod.rs b/src/file/mod.rs
index 98a6bf5..97b0666 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -184,7 +184,12 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
         &mut self,
     ) -> Result<TdmsFileWriter<'_, F, LittleEndianWriter<&mut F>>, TdmsError> {
         //make sure we are at the end.
-        self.file.seek(SeekFrom::End(0))?;
+        let file_end = self.file.seek(SeekFrom::End(0))?;
+        // The new segments must follow the indexed ones. They can't be found after an incomplete one.
+        let segments_end = self.index.segments_end();
+        if file_end != segments_end {
+            return Err(TdmsError::IncompleteSegment(segments_end, file_end));
+        }
         Ok(TdmsFileWriter::new(
             &mut self.index,
             LittleEndianWriter::from_writer(&mut self.file),
diff --git a/src/index/mod.rs b/src/index/mod.rs
index e79241b..70830b3 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -126,6 +126,11 @@ impl Index {
         Self::default()
     }
 
+    /// The position in the file where the segments added so far end.
+    pub fn segments_end(&self) -> u64 {
+        self.next_segment_start
+    }
+
     /// Get all of the properties for the given object.
     ///
     /// Returns none if the object does not exist.
-- 
2.43.0


From 0c69cfdd5df4d10091a4ad3a079f9a6262a26151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 15/20] fix: write nothing after a segment that failed part way

---
 src/error.rs            |  2 ++
 src/file/file_writer.rs | 30 +++++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 1fe4a02..9083ea3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -71,6 +71,8 @@ pub enum TdmsError {
         "The segments end at byte {0} but the file ends at byte {1}. Writing is not possible as the last segment is incomplete."
     )]
     IncompleteSegment(u64, u64),
+    #[error("A previous write failed part way through a segment so nothing more can be written.")]
+    PreviousWriteFailed,
     #[error("DAQmx Channels are not supported yet")]
     DaqmxChannelsNotSupported,
     #[cfg(feature = "chrono")]
diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 45a4d65..1ce66ab 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -12,6 +12,8 @@ use std::num::NonZeroUsize;
 pub struct TdmsFileWriter<'a, F: Write + 'a, W: TdmsWriter<&'a mut F>> {
     index: &'a mut Index,
     writer: W,
+    /// Set while a segment is being written, so it stays set if that fails.
+    segment_incomplete: bool,
     _file: std::marker::PhantomData<F>,
 }
 
@@ -25,10 +27,19 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         Self {
             index,
             writer,
+            segment_incomplete: false,
             _file: std::marker::PhantomData,
         }
     }
 
+    /// Nothing can follow a partly written segment.
+    fn check_last_segment_complete(&self) -> Result<(), TdmsError> {
+        if self.segment_incomplete {
+            return Err(TdmsError::PreviousWriteFailed);
+        }
+        Ok(())
+    }
+
     /// Write the data to the given channels.
     ///
     /// If you provide multiple channels then it is assumed tha the values is a 2d array layout.
@@ -42,7 +53,15 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         values: &'b [D],
         layout: DataLayout,
     ) -> Result<(), TdmsError> {
-        let stream = DataStreamWriter::new(self.index, &mut self.writer, channels, values, layout)?;
+        self.check_last_segment_complete()?;
+        let stream = DataStreamWriter::new(
+            self.index,
+            &mut self.writer,
+            &mut self.segment_incomplete,
+            channels,
+            values,
+            layout,
+        )?;
         stream.end_stream()?;
         Ok(())
     }
@@ -70,6 +89,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
         path: &PropertyPath,
         properties: &[(&str, PropertyValue)],
     ) -> Result<(), TdmsError> {
+        self.check_last_segment_complete()?;
         let path = path.path();
         let properties = properties
             .iter()
@@ -86,15 +106,18 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
             objects: vec![object],
         };
 
+        self.segment_incomplete = true;
         let segment =
             self.writer
                 .write_segment(ToC::default(), Some(meta), Option::<&[u8]>::None)?;
         self.index.add_segment(segment)?;
+        self.segment_incomplete = false;
         Ok(())
     }
 
     /// Forces the file to sync to disk by calling the sync method on the writer.
     pub fn sync(&mut self) -> Result<(), TdmsError> {
+        self.check_last_segment_complete()?;
         self.writer.sync()
     }
 }
@@ -102,6 +125,7 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
 struct DataStreamWriter<'a, F: Write, W: TdmsWriter<F>> {
     index: &'a mut Index,
     writer: &'a mut W,
+    segment_incomplete: &'a mut bool,
     _file: std::marker::PhantomData<F>,
     segment: Segment,
 }
@@ -110,6 +134,7 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
     pub fn new<'b, C: AsRef<ChannelPath>, D: TdmsStorageType>(
         index: &'a mut Index,
         writer: &'a mut W,
+        segment_incomplete: &'a mut bool,
         channels: &'b [C],
         values: &'b [D],
         layout: DataLayout,
@@ -162,10 +187,12 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
             data_is_interleaved: layout == DataLayout::Interleaved,
             ..Default::default()
         };
+        *segment_incomplete = true;
         let segment = writer.write_segment(toc, meta, Some(raw_data))?;
         Ok(Self {
             index,
             writer,
+            segment_incomplete,
             _file: std::marker::PhantomData,
             segment,
         })
@@ -173,6 +200,7 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
     pub fn end_stream(self) -> Result<(), TdmsError> {
         self.index.add_segment(self.segment)?;
+        *self.segment_incomplete = false;
         Ok(())
     }
 }
-- 
2.43.0


From 73204ca69d99843c01f165b1e67db352d9d2ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 16/20] fix: do not overflow when adding up the length of a
 channel

---
 src/index/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 70830b3..38aaae8 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -177,7 +177,7 @@ impl Index {
                 .data_locations
                 .iter()
                 .map(|location| location.number_of_samples)
-                .sum()
+                .fold(0, u64::saturating_add)
         })
     }
 
-- 
2.43.0


From 06ccf44b563da3e7c508277c0d517d23a3ee2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 17/20] fix: report a failed seek to the next segment when
 opening a file

---
 src/file/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 97b0666..01cbd87 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -63,9 +63,7 @@ fn build_index(file: &mut (impl Read + Seek)) -> Result<Index, TdmsError> {
         match Segment::read(file) {
             Ok(segment) => {
                 let next_segment = index.add_segment(segment)?;
-                if file.seek(SeekFrom::Start(next_segment)).is_err() {
-                    break;
-                }
+                file.seek(SeekFrom::Start(next_segment))?;
             }
             Err(TdmsError::EndOfFile) => break,
             Err(e) => return Err(e),
-- 
2.43.0


From 9edc495cb4f93fb9e06d5b73819d211a3c6d8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 18/20] fix: refuse DAQmx channels whatever the header of their
 index

---
 src/meta_data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meta_data.rs b/src/meta_data.rs
index abcd553..ab5cc6e 100644
--- a/src/meta_data.rs
+++ b/src/meta_data.rs
@@ -284,6 +284,10 @@ impl TdmsMetaData for RawDataIndex {
             0x69130000..=0x6913FFFF => return Err(TdmsError::DaqmxChannelsNotSupported), //daqmx 2
             _ => {
                 let data_type: DataType = reader.read_meta()?;
+                // The scalers of a DAQmx index would follow, whatever its header.
+                if data_type == DataType::DAQmxRawData {
+                    return Err(TdmsError::DaqmxChannelsNotSupported);
+                }
                 let _array_dims: u32 = reader.read_value()?; //always 1.
                 let number_of_values: u64 = reader.read_value()?;
                 // Variable length data also stores the size of its raw data.
-- 
2.43.0


From de1e29f3515a3806b9a8935c5be7ba2866e95958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 19/20] fix: convert dates to and from timestamps exactly

Going through f64 dropped the fraction of any date before 1904 and the
nanoseconds of every other, refused fractions that round up to a whole
second and overflowed on the extreme seconds a file may hold.
---
 src/properties.rs | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index e67d479..e7c57fa 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -269,16 +269,43 @@ impl<'a> TryFrom<&'a PropertyValue> for &'a str {
 mod chrono_support {
     use super::*;
     use chrono::{DateTime, Utc};
+    use labview_interop::types::timestamp::{LVTimeError, UNIX_EPOCH_IN_LV_SECONDS_I64};
+
+    const NANOS_PER_SECOND: u128 = 1_000_000_000;
+
+    /// Convert using integers only. Every timestamp in the range of chrono
+    /// converts and any other, whatever was in the file, is an error.
+    fn lvtime_to_chrono(value: LVTime) -> Result<DateTime<Utc>, TdmsError> {
+        let (seconds, fractions) = value.to_parts();
+        let nanos = (u128::from(fractions) * NANOS_PER_SECOND) >> 64;
+        seconds
+            .checked_sub(UNIX_EPOCH_IN_LV_SECONDS_I64)
+            .and_then(|unix_seconds| DateTime::from_timestamp(unix_seconds, nanos as u32))
+            .ok_or(TdmsError::ChronoDateTimeConversionFailed(
+                LVTimeError::ChronoOutOfRange,
+            ))
+    }
+
+    /// Convert using integers only so that the nanoseconds survive, also
+    /// before 1904 where the seconds are negative.
+    fn chrono_to_lvtime(value: DateTime<Utc>) -> LVTime {
+        // a leap second has more than a second of nanoseconds.
+        let subsec = u128::from(value.timestamp_subsec_nanos());
+        let carry = (subsec / NANOS_PER_SECOND) as i64;
+        // rounded up, so rounding down on the way back gives the same value.
+        let fractions = ((subsec % NANOS_PER_SECOND) << 64).div_ceil(NANOS_PER_SECOND);
+        LVTime::from_parts(
+            value.timestamp() + carry + UNIX_EPOCH_IN_LV_SECONDS_I64,
+            fractions as u64,
+        )
+    }
 
     impl TryFrom<PropertyValue> for DateTime<Utc> {
         type Error = TdmsError;
 
         fn try_from(value: PropertyValue) -> Result<Self, Self::Error> {
             let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            lvtime_to_chrono(lvtime)
         }
     }
 
@@ -287,16 +314,13 @@ mod chrono_support {
 
         fn try_from(value: &'a PropertyValue) -> Result<Self, Self::Error> {
             let lvtime: LVTime = value.try_into()?;
-            let chrono_time: DateTime<Utc> = lvtime
-                .try_into()
-                .map_err(TdmsError::ChronoDateTimeConversionFailed)?;
-            Ok(chrono_time)
+            lvtime_to_chrono(lvtime)
         }
     }
 
     impl From<DateTime<Utc>> for PropertyValue {
         fn from(value: DateTime<Utc>) -> Self {
-            PropertyValue::Timestamp(value.into())
+            PropertyValue::Timestamp(chrono_to_lvtime(value))
         }
     }
 
-- 
2.43.0


From d83b084cc112dca4819f902d0a362b397c1d264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 20/20] fix: nothing can follow a segment that a panicking
 stream took in part during sync

A stream that panics inside sync may already have taken part of a segment.
A writer that goes on after that panic was caught would write behind the
torn segment and acknowledge data that can not be found again.
---
 src/file/file_writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 1ce66ab..440fa92 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -118,7 +118,11 @@ impl<'a, F: Write, W: TdmsWriter<&'a mut F>> TdmsFileWriter<'a, F, W> {
     /// Forces the file to sync to disk by calling the sync method on the writer.
     pub fn sync(&mut self) -> Result<(), TdmsError> {
         self.check_last_segment_complete()?;
-        self.writer.sync()
+        // A stream that panics here may have taken part of a segment already.
+        self.segment_incomplete = true;
+        let result = self.writer.sync();
+        self.segment_incomplete = false;
+        result
     }
 }
 
-- 
2.43.0

