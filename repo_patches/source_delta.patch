From 4a3152cdaf43074967ebd0635d1fe820adcd08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 01/14] hook: expose animation and vertex internals under
 cfg(ssbh_verif)

---
 ssbh_data/src/anim_data.rs | 19 +++++++++++++++++++
 ssbh_data/src/mesh_data.rs | 31 +++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 470f9a5..13d235c 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -61,6 +61,25 @@ use buffers::*;
 mod bitutils;
 mod compression;
 
+// Access to internals for external verification tooling.
+// This is never part of a normal build.
+#[cfg(ssbh_verif)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    pub use super::bitutils::*;
+    pub use super::buffers::*;
+    pub use super::compression::*;
+
+    pub fn write_track_values<W: std::io::Write + std::io::Seek>(
+        values: &super::TrackValues,
+        writer: &mut W,
+        compression: ssbh_lib::formats::anim::CompressionType,
+        compensate_scale: bool,
+    ) -> Result<(), super::error::Error> {
+        values.write(writer, compression, compensate_scale)
+    }
+}
+
 /// Data associated with an [Anim] file.
 /// Supported versions are 2.0 and 2.1.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index b749cce..58aaa1a 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -55,6 +55,37 @@ pub use vector_data::VectorData;
 mod mesh_attributes;
 use mesh_attributes::*;
 
+// Access to internals for external verification tooling.
+// This is never part of a normal build.
+#[cfg(ssbh_verif)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    pub use super::vector_data::*;
+    use binrw::{io::Seek, BinResult};
+    use ssbh_lib::formats::mesh::{AttributeDataTypeV10, AttributeDataTypeV8};
+    use std::io::Read;
+
+    pub fn read_vectors_v10<R: Read + Seek>(
+        reader: &mut R,
+        count: usize,
+        offset: u64,
+        stride: u64,
+        data_type: AttributeDataTypeV10,
+    ) -> BinResult<VectorData> {
+        VectorData::read(reader, count, offset, stride, data_type.into())
+    }
+
+    pub fn read_vectors_v8<R: Read + Seek>(
+        reader: &mut R,
+        count: usize,
+        offset: u64,
+        stride: u64,
+        data_type: AttributeDataTypeV8,
+    ) -> BinResult<VectorData> {
+        VectorData::read(reader, count, offset, stride, data_type.into())
+    }
+}
+
 // A union of data types across all mesh versions.
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub(crate) enum DataType {
-- 
2.43.0


From 6b4c28090ab74a354edab131c988db1c65f5fc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 02/14] fix: return an error when a compressed transform has no
 bit for the sign of w

---
 ssbh_data/src/anim_data/bitutils.rs    | 8 ++++++++
 ssbh_data/src/anim_data/compression.rs | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/bitutils.rs b/ssbh_data/src/anim_data/bitutils.rs
index 9dead58..1a7a611 100644
--- a/ssbh_data/src/anim_data/bitutils.rs
+++ b/ssbh_data/src/anim_data/bitutils.rs
@@ -20,6 +20,14 @@ impl BitReader {
         }
     }
 
+    /// Returns an error if fewer than `bit_count` bits are left.
+    pub fn check_remaining(&self, bit_count: usize) -> Result<(), BitReadError> {
+        if self.bits.len() - self.index < bit_count {
+            return Err(BitReadError::NotEnoughBits);
+        }
+        Ok(())
+    }
+
     pub fn read_u8(&mut self, bit_count: usize) -> Result<u8, BitReadError> {
         let value: u8 = self
             .bits
diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index a6356d0..1a5f314 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -369,7 +369,7 @@ fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
     // Solving for the missing w gives two expressions:
     // w = sqrt(1 - x^2 + y^2 + z^2), w = -sqrt(1 - x^2 + y^2 + z^2).
     // Thus, we need only need to store the sign bit to uniquely determine w.
-    // TODO: Possible to read past end of stream?
+    // The caller makes sure there is at least one bit left.
     let flip_w = reader.read_bit().unwrap();
 
     let w2 = 1.0 - (rotation.x * rotation.x + rotation.y * rotation.y + rotation.z * rotation.z);
@@ -461,6 +461,7 @@ impl CompressedData for UncompressedTransform {
         };
 
         let rotation_w = if args.has_rotation() {
+            reader.check_remaining(1)?;
             calculate_rotation_w(reader, rotation_xyz)
         } else {
             default.rotation.w
-- 
2.43.0


From 1083aef2275d6cd2ae6236f7fee383de699744e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 03/14] fix: return an error when a compressed pattern index
 overflows

---
 ssbh_data/src/anim_data/bitutils.rs    | 3 +++
 ssbh_data/src/anim_data/compression.rs | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/bitutils.rs b/ssbh_data/src/anim_data/bitutils.rs
index 1a7a611..6fcec37 100644
--- a/ssbh_data/src/anim_data/bitutils.rs
+++ b/ssbh_data/src/anim_data/bitutils.rs
@@ -10,6 +10,9 @@ pub struct BitReader {
 pub enum BitReadError {
     #[error("failed to read enough bits from reader.")]
     NotEnoughBits,
+
+    #[error("the compressed value is too large for its type.")]
+    ValueOutOfRange,
 }
 
 impl BitReader {
diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 1a5f314..48f5992 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -766,7 +766,10 @@ impl CompressedData for u32 {
         let value = if compression.bit_count == 0 {
             compression.min
         } else {
-            reader.read_u32(compression.bit_count as usize)? + compression.min
+            reader
+                .read_u32(compression.bit_count as usize)?
+                .checked_add(compression.min)
+                .ok_or(BitReadError::ValueOutOfRange)?
         };
         Ok(value)
     }
-- 
2.43.0


From e75071b51587d3bdd91234630f00acb2b96795cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 04/14] fix: use enough bits to compress pattern indices with a
 large range

---
 ssbh_data/src/anim_data/compression.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 48f5992..a04d277 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -789,12 +789,18 @@ impl CompressedData for u32 {
     fn get_args(_: &CompressedHeader<Self>) -> Self::CompressionArgs {}
 
     fn get_default_and_compression(values: &[Self], _: bool) -> (Self, Self::Compression) {
+        let min = values.iter().copied().min().unwrap_or(0);
+        let max = values.iter().copied().max().unwrap_or(0);
+
+        // Values need enough bits for the entire range to avoid being truncated.
+        // TODO: How should this work for u32?
+        let required_bit_count = (u32::BITS - (max - min).leading_zeros()) as u64;
         (
             0, // TODO: Better default?
             U32Compression {
-                min: values.iter().copied().min().unwrap_or(0),
-                max: values.iter().copied().max().unwrap_or(0),
-                bit_count: super::compression::DEFAULT_F32_BIT_COUNT, // TODO: How should this work for u32?
+                min,
+                max,
+                bit_count: DEFAULT_F32_BIT_COUNT.max(required_bit_count),
             },
         )
     }
-- 
2.43.0


From 4f62dbf4db09f3667aaacc87b3082a469ce5ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 05/14] fix: return an error for malformed buffers in version
 1.2 anims

---
 ssbh_data/src/anim_data.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 13d235c..78106c3 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -414,12 +414,11 @@ fn read_groups_v12(
     // Group by the track type.
     let mut tracks_by_type = HashMap::new();
 
-    // TODO: Avoid unwrap.
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers).unwrap();
+        let track_data = create_track_data_v12(track, buffers)?;
         tracks_by_type
             .entry(group_type)
             .or_insert(Vec::new())
@@ -490,7 +489,10 @@ fn create_track_data_v12(
             0x4308 => {
                 println!("{:?}", reader.read_le::<V12Test3>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 72 - 4);
+                println!(
+                    "Compressed: {:?} bytes",
+                    data.elements.len().saturating_sub(72 + 4)
+                );
             }
             0x4409 => {
                 let test = reader.read_le::<V12Test2>()?;
-- 
2.43.0


From e8d624ac92edbef7d6e4e350e30f86ad6f2ecb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 06/14] fix: return an error for malformed shader binaries
 instead of panicking

---
 ssbh_data/src/shdr_data.rs | 78 +++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 38ac8fb..1737295 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -36,38 +36,37 @@ pub struct MetaData {
 }
 
 impl MetaData {
-    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
+    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
+        Ok(Self {
             buffers: shader
                 .header
                 .buffer_entries
                 .0
                 .iter()
                 .map(|e| Buffer::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             uniforms: shader
                 .header
                 .uniforms
                 .0
                 .iter()
                 .map(|e| Uniform::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             inputs: shader
                 .header
                 .inputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             outputs: shader
                 .header
                 .outputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
-        }
+                .collect::<BinResult<_>>()?,
+        })
     }
 }
 
@@ -85,17 +84,16 @@ pub struct Buffer {
 }
 
 impl Buffer {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             used_size_in_bytes: e.used_size_in_bytes,
             uniform_count: e.uniform_entry_count,
             unk4: e.unk4,
             unk5: e.unk5,
             unk6: e.unk6,
             unk7: e.unk7,
-        }
+        })
     }
 }
 
@@ -111,15 +109,18 @@ pub struct Uniform {
 }
 
 impl Uniform {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &UniformEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             buffer_index: e.buffer_index,
             uniform_buffer_offset: e.uniform_buffer_offset,
             unk11: e.unk11,
-        }
+        })
     }
 }
 
@@ -133,13 +134,16 @@ pub struct Attribute {
 }
 
 impl Attribute {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &AttributeEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             location: e.location,
-        }
+        })
     }
 }
 
@@ -150,12 +154,12 @@ impl MetaData {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         let mut reader = Cursor::new(std::fs::read(path)?);
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(&mut reader, &shader))
+        Self::new(&mut reader, &shader).map_err(Into::into)
     }
 
     pub fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, Box<dyn std::error::Error>> {
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(reader, &shader))
+        Self::new(reader, &shader).map_err(Into::into)
     }
 }
 
@@ -374,14 +378,19 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    let mut bytes = vec![0u8; (s.length as usize).saturating_sub(1)];
-    reader.read_exact(&mut bytes)?;
+    // Don't trust the length until the bytes are known to exist.
+    let length = s.length.saturating_sub(1);
+    let mut bytes = Vec::new();
+    reader.take(length as u64).read_to_end(&mut bytes)?;
+    if bytes.len() < length as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
 
 impl TryFrom<Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: Shdr) -> Result<Self, Self::Error> {
         Self::try_from(&shdr)
@@ -389,11 +398,10 @@ impl TryFrom<Shdr> for ShdrData {
 }
 
 impl TryFrom<&Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: &Shdr) -> Result<Self, Self::Error> {
         // TODO: Rebuild Shdr from ShdrData?
-        // TODO: Avoid unwrap.
         Ok(Self {
             shaders: match shdr {
                 Shdr::V12 { shaders } => shaders
@@ -401,14 +409,14 @@ impl TryFrom<&Shdr> for ShdrData {
                     .iter()
                     .map(|s| {
                         let mut reader = Cursor::new(&s.shader_binary.elements);
-                        let shader: ShaderBinary = reader.read_le().unwrap();
-                        ShaderEntryData {
+                        let shader: ShaderBinary = reader.read_le()?;
+                        Ok(ShaderEntryData {
                             name: s.name.to_string_lossy(),
                             shader_stage: s.shader_stage,
-                            meta_data: MetaData::new(&mut reader, &shader),
-                        }
+                            meta_data: MetaData::new(&mut reader, &shader)?,
+                        })
                     })
-                    .collect(),
+                    .collect::<BinResult<_>>()?,
             },
         })
     }
-- 
2.43.0


From ef9180866368f4fed369294f13f7bc82b27f5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 07/14] fix: don't allocate the declared key count of version
 1.2 anims before reading it

---
 ssbh_data/src/anim_data.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 78106c3..7f155d0 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -36,7 +36,7 @@ for group in anim.groups {
 //! When converting to [Anim], compression is enabled for a track if compression would save space.
 //! This may produce differences with the original due to compression differences.
 //! These errors are small in practice but may cause gameplay differences such as online desyncs.
-use binrw::io::{Cursor, Seek, Write};
+use binrw::io::{Cursor, Read, Seek, Write};
 use binrw::{BinRead, BinReaderExt};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -832,12 +832,26 @@ struct V12Test2 {
     // TODO: Compressed data?
 }
 
+// Don't trust the count until the bytes are known to exist.
+fn read_bytes<R: Read + Seek>(
+    reader: &mut R,
+    _: binrw::Endian,
+    (count,): (u32,),
+) -> binrw::BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(count as u64).read_to_end(&mut bytes)?;
+    if bytes.len() < count as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 #[allow(dead_code)]
 #[derive(Debug, BinRead)]
 struct V12Test3 {
     frame_count: u32,
     unk1: f32,
-    #[br(count = frame_count, align_after = 4)] // align to float boundary
+    #[br(parse_with = read_bytes, args(frame_count), align_after = 4)] // align to float boundary
     unk2: Vec<u8>, // TODO: key frames?
     unk3: [Vector3; 3],
     // TODO: Compressed data?
-- 
2.43.0


From 0b18e5c53f42276ffade9898357c433e586d5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:49 +0000
Subject: [PATCH 08/14] fix: return an error for more bone influences than a
 mesh can store

---
 ssbh_data/src/mesh_data.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index 58aaa1a..7063578 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -154,6 +154,19 @@ pub mod error {
             minor_version: u16,
         },
 
+        /// A vertex is influenced by more bones than can be represented in a [Mesh](super::Mesh) file.
+        #[error(
+            "mesh {} has a vertex with {} bone influences, which exceeds the limit of {}",
+            mesh_object_name,
+            influence_count,
+            limit
+        )]
+        MaxInfluencesExceedsLimit {
+            mesh_object_name: String,
+            influence_count: usize,
+            limit: usize,
+        },
+
         /// Creating a [Mesh](super::Mesh) file for the given version is not supported.
         #[error(
             "creating a version {}.{} mesh is not supported",
@@ -811,12 +824,20 @@ fn create_rigging_buffers<W: Weight>(
     let mut rigging_buffers = Vec::new();
 
     for mesh_object in object_data {
+        let influence_count = calculate_max_influences(
+            &mesh_object.bone_influences,
+            mesh_object.vertex_indices.len(),
+        );
+
         // TODO: unk1 is sometimes set to 0 for singlebound mesh objects, which isn't currently preserved.
         let flags = RiggingFlags {
-            max_influences: calculate_max_influences(
-                &mesh_object.bone_influences,
-                mesh_object.vertex_indices.len(),
-            ) as u8,
+            max_influences: influence_count.try_into().map_err(|_| {
+                error::Error::MaxInfluencesExceedsLimit {
+                    mesh_object_name: mesh_object.name.clone(),
+                    influence_count,
+                    limit: u8::MAX as usize,
+                }
+            })?,
             unk1: 1,
         };
 
-- 
2.43.0


From e5619b39f0460ce3c8038a8ad9428d532a7f558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 09/14] fix: return an error for skels that can't be stored
 instead of writing different data

---
 ssbh_data/src/skel_data.rs | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index f86955c..f9fa26e 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -76,6 +76,10 @@ pub mod error {
             minor_version: u16,
         },
 
+        /// The index of a bone's parent exceeds the representable limit of a [Skel] file.
+        #[error("parent index {} exceeds the limit of {}", index, limit)]
+        ParentIndexExceedsLimit { index: usize, limit: usize },
+
         /// An error occurred while calculating a transformation matrix.
         #[error(transparent)]
         BoneTransform(#[from] BoneTransformError),
@@ -152,6 +156,13 @@ impl TryFrom<&SkelData> for Skel {
     type Error = error::Error;
 
     fn try_from(data: &SkelData) -> Result<Self, Self::Error> {
+        if (data.major_version, data.minor_version) != (1, 0) {
+            return Err(error::Error::UnsupportedVersion {
+                major_version: data.major_version,
+                minor_version: data.minor_version,
+            });
+        }
+
         let world_transforms = data
             .bones
             .iter()
@@ -163,20 +174,27 @@ impl TryFrom<&SkelData> for Skel {
                 .bones
                 .iter()
                 .enumerate()
-                .map(|(i, b)| SkelBoneEntry {
-                    name: b.name.clone().into(),
-                    index: i as u16,
-                    parent_index: match b.parent_index {
-                        Some(index) => index as i16,
-                        None => -1,
-                    },
-                    // TODO: Preserve or calculate flags?
-                    flags: SkelEntryFlags {
-                        unk1: 1,
-                        billboard_type: b.billboard_type,
-                    },
+                .map(|(i, b)| {
+                    Ok(SkelBoneEntry {
+                        name: b.name.clone().into(),
+                        index: i as u16,
+                        parent_index: match b.parent_index {
+                            Some(index) => index.try_into().map_err(|_| {
+                                error::Error::ParentIndexExceedsLimit {
+                                    index,
+                                    limit: i16::MAX as usize,
+                                }
+                            })?,
+                            None => -1,
+                        },
+                        // TODO: Preserve or calculate flags?
+                        flags: SkelEntryFlags {
+                            unk1: 1,
+                            billboard_type: b.billboard_type,
+                        },
+                    })
                 })
-                .collect(),
+                .collect::<Result<_, error::Error>>()?,
             world_transforms: world_transforms
                 .iter()
                 .map(Matrix4x4::from_cols_array)
-- 
2.43.0


From 5fe7c8ba7ffbacceb657d9c082bfbcecc259976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 10/14] fix: don't allocate the declared code length of a
 shader binary before reading it

---
 ssbh_data/src/shdr_data.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 1737295..7a58561 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -183,7 +183,7 @@ pub struct ShaderBinary {
     code_length: u32,
 
     // TODO: header size of 80 bytes (0x50)?
-    #[br(seek_before = SeekFrom::Start(2896), count = code_length)]
+    #[br(seek_before = SeekFrom::Start(2896), parse_with = read_bytes, args(code_length))]
     pub program_code: Vec<u8>,
     // float constants?
 }
@@ -370,22 +370,29 @@ pub enum DataType {
     Image2d = 103,
 }
 
-fn read_string<R: Read + Seek>(
+fn read_bytes<R: Read + Seek>(
     reader: &mut R,
-    header: &UnkHeader,
-    s: &EntryString,
-) -> BinResult<String> {
-    let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
-    reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
-
+    _endian: binrw::Endian,
+    (length,): (u32,),
+) -> BinResult<Vec<u8>> {
     // Don't trust the length until the bytes are known to exist.
-    let length = s.length.saturating_sub(1);
     let mut bytes = Vec::new();
     reader.take(length as u64).read_to_end(&mut bytes)?;
     if bytes.len() < length as usize {
         return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
     }
+    Ok(bytes)
+}
+
+fn read_string<R: Read + Seek>(
+    reader: &mut R,
+    header: &UnkHeader,
+    s: &EntryString,
+) -> BinResult<String> {
+    let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
+    reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
+    let bytes = read_bytes(reader, binrw::Endian::Little, (s.length.saturating_sub(1),))?;
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
 
-- 
2.43.0


From 3c98719f403277fae436100b3ccc4e12a26e224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 11/14] hook: expose mesh indices and weights under
 cfg(ssbh_verif)

---
 ssbh_data/src/mesh_data.rs | 48 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index 7063578..fa5629f 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -61,8 +61,12 @@ use mesh_attributes::*;
 #[allow(missing_docs)]
 pub mod verif_hooks {
     pub use super::vector_data::*;
+    use super::{error, DataType, VertexWeight};
     use binrw::{io::Seek, BinResult};
-    use ssbh_lib::formats::mesh::{AttributeDataTypeV10, AttributeDataTypeV8};
+    use ssbh_lib::formats::mesh::{
+        AttributeDataTypeV10, AttributeDataTypeV8, AttributeV10, DrawElementType, MeshObject,
+    };
+    use ssbh_lib::SsbhByteBuffer;
     use std::io::Read;
 
     pub fn read_vectors_v10<R: Read + Seek>(
@@ -84,6 +88,48 @@ pub mod verif_hooks {
     ) -> BinResult<VectorData> {
         VectorData::read(reader, count, offset, stride, data_type.into())
     }
+
+    /// Appends the indices to the buffer and returns their type.
+    pub fn write_indices(
+        indices: &[u32],
+        buffer: &mut std::io::Cursor<Vec<u8>>,
+    ) -> std::io::Result<DrawElementType> {
+        let indices = super::convert_indices(indices);
+        super::write_vertex_indices(&indices, buffer)?;
+        Ok(match indices {
+            super::VertexIndices::UnsignedInt(_) => DrawElementType::UnsignedInt,
+            super::VertexIndices::UnsignedShort(_) => DrawElementType::UnsignedShort,
+        })
+    }
+
+    pub fn read_indices(
+        buffer: &[u8],
+        mesh_object: &MeshObject<AttributeV10>,
+    ) -> BinResult<Vec<u32>> {
+        super::read_vertex_indices(buffer, mesh_object)
+    }
+
+    pub fn write_weights_v10(weights: &[VertexWeight]) -> Result<SsbhByteBuffer, error::Error> {
+        super::create_vertex_weights_v10(weights)
+    }
+
+    pub fn read_weights_v10(buffer: &SsbhByteBuffer) -> Vec<VertexWeight> {
+        super::Weight::to_weights(buffer)
+    }
+
+    pub fn offset_stride(
+        index: u64,
+        offset: u64,
+        mesh_object: &MeshObject<AttributeV10>,
+    ) -> Option<(u64, u64)> {
+        let attribute = super::MeshAttribute {
+            name: String::new(),
+            index,
+            offset,
+            data_type: DataType::Float2,
+        };
+        super::calculate_offset_stride(&attribute, mesh_object).ok()
+    }
 }
 
 // A union of data types across all mesh versions.
-- 
2.43.0


From ffe24fc79f85228c96bc1d9548e0f52a6db9881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:08 +0000
Subject: [PATCH 12/14] hook: expose bounding info under cfg(ssbh_verif)

---
 ssbh_data/src/mesh_data.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index fa5629f..4aaf688 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -64,7 +64,8 @@ pub mod verif_hooks {
     use super::{error, DataType, VertexWeight};
     use binrw::{io::Seek, BinResult};
     use ssbh_lib::formats::mesh::{
-        AttributeDataTypeV10, AttributeDataTypeV8, AttributeV10, DrawElementType, MeshObject,
+        AttributeDataTypeV10, AttributeDataTypeV8, AttributeV10, BoundingInfo, DrawElementType,
+        MeshObject,
     };
     use ssbh_lib::SsbhByteBuffer;
     use std::io::Read;
@@ -89,6 +90,10 @@ pub mod verif_hooks {
         VectorData::read(reader, count, offset, stride, data_type.into())
     }
 
+    pub fn bounding_info(positions: &VectorData) -> BoundingInfo {
+        super::calculate_bounding_info(&positions.to_glam_vec3a())
+    }
+
     /// Appends the indices to the buffer and returns their type.
     pub fn write_indices(
         indices: &[u32],
-- 
2.43.0


From 368b9c6d605da24d64534f683f4fe85d05a73b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 13/14] hook: expose shader entries under cfg(ssbh_verif)

---
 ssbh_data/src/shdr_data.rs | 70 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 7a58561..a6375aa 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -35,6 +35,76 @@ pub struct MetaData {
     pub outputs: Vec<Attribute>,
 }
 
+/// Access to private items for verification.
+#[cfg(ssbh_verif)]
+pub mod verif_hooks {
+    use super::*;
+    use binrw::Endian;
+
+    fn header(entry_offset: u32, string_section_relative_offset: u32) -> UnkHeader {
+        UnkHeader {
+            file_end_relative_offset: 0,
+            entry_offset,
+            unk1: 0,
+            buffer_count: 0,
+            buffer_entries: UnkPtr(Vec::new()),
+            uniform_count: 0,
+            uniforms: UnkPtr(Vec::new()),
+            input_count: 0,
+            inputs: UnkPtr(Vec::new()),
+            output_count: 0,
+            outputs: UnkPtr(Vec::new()),
+            unk3: 0,
+            unk4: 0,
+            unk5: 0,
+            unk6: 0,
+            unk7: 0,
+            string_info_end_relative_offset: 0,
+            string_section_length: 0,
+            string_section_relative_offset,
+        }
+    }
+
+    /// The buffer whose entry is at the current position.
+    pub fn buffer<R: Read + Seek>(
+        reader: &mut R,
+        entry_offset: u32,
+        strings: u32,
+    ) -> BinResult<Buffer> {
+        let e = BufferEntry::read_options(reader, Endian::Little, ())?;
+        Buffer::new(reader, &header(entry_offset, strings), &e)
+    }
+
+    /// The uniform whose entry is at the current position.
+    pub fn uniform<R: Read + Seek>(
+        reader: &mut R,
+        entry_offset: u32,
+        strings: u32,
+    ) -> BinResult<Uniform> {
+        let e = UniformEntry::read_options(reader, Endian::Little, ())?;
+        Uniform::new(reader, &header(entry_offset, strings), &e)
+    }
+
+    /// The attribute whose entry is at the current position.
+    pub fn attribute<R: Read + Seek>(
+        reader: &mut R,
+        entry_offset: u32,
+        strings: u32,
+    ) -> BinResult<Attribute> {
+        let e = AttributeEntry::read_options(reader, Endian::Little, ())?;
+        Attribute::new(reader, &header(entry_offset, strings), &e)
+    }
+
+    /// The size of an entry of each kind.
+    pub fn skip_entry<R: Read + Seek>(reader: &mut R, kind: u32) -> BinResult<()> {
+        match kind {
+            0 => BufferEntry::read_options(reader, Endian::Little, ()).map(|_| ()),
+            1 => UniformEntry::read_options(reader, Endian::Little, ()).map(|_| ()),
+            _ => AttributeEntry::read_options(reader, Endian::Little, ()).map(|_| ()),
+        }
+    }
+}
+
 impl MetaData {
     fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
         Ok(Self {
-- 
2.43.0


From 1f4eac10953c8ea5c3a03297a08442911c36a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:11 +0000
Subject: [PATCH 14/14] hook: expose mesh objects and rigging groups under
 cfg(ssbh_verif)

---
 ssbh_data/src/mesh_data.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index 4aaf688..a375c4f 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -60,12 +60,13 @@ use mesh_attributes::*;
 #[cfg(ssbh_verif)]
 #[allow(missing_docs)]
 pub mod verif_hooks {
+    pub use super::mesh_attributes::MeshAttributes;
     pub use super::vector_data::*;
-    use super::{error, DataType, VertexWeight};
+    use super::{error, DataType, MeshObjectData, VertexWeight};
     use binrw::{io::Seek, BinResult};
     use ssbh_lib::formats::mesh::{
         AttributeDataTypeV10, AttributeDataTypeV8, AttributeV10, BoundingInfo, DrawElementType,
-        MeshObject,
+        MeshObject, RiggingGroup,
     };
     use ssbh_lib::SsbhByteBuffer;
     use std::io::Read;
@@ -122,6 +123,26 @@ pub mod verif_hooks {
         super::Weight::to_weights(buffer)
     }
 
+    /// Appends the object to the buffers like the one with these attributes.
+    pub fn object_v10(
+        data: &MeshObjectData,
+        buffers: &mut [&mut std::io::Cursor<Vec<u8>>; 4],
+        vertex_buffer2_offset: &mut u64,
+        index_buffer: &mut std::io::Cursor<Vec<u8>>,
+        attributes: MeshAttributes<AttributeV10>,
+    ) -> Result<MeshObject<AttributeV10>, error::Error> {
+        let attributes = std::cell::Cell::new(Some(attributes));
+        super::create_mesh_object(data, buffers, vertex_buffer2_offset, index_buffer, |_| {
+            attributes.take().unwrap()
+        })
+    }
+
+    pub fn rigging_v10(
+        objects: &[MeshObjectData],
+    ) -> Result<Vec<RiggingGroup<SsbhByteBuffer>>, error::Error> {
+        super::create_rigging_buffers(objects)
+    }
+
     pub fn offset_stride(
         index: u64,
         offset: u64,
-- 
2.43.0

