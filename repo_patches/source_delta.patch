From b3a7a44d23eb579ce00836c4f3fa56050ea25b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 01/14] fix: write the magic attribute for tuple structs and
 enums

size_in_bytes already counted the magic bytes, so such types were written
shorter than their declared size without their magic.
---
 ssbh_write_derive/src/lib.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index 52fbcb5..23c93be 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -155,7 +155,9 @@ fn write_data_calculate_size_enum(
             }
         })
         .collect();
+    let write_magic = write_magic(write_options);
     let write_variants = quote! {
+        #write_magic
         match self {
             #(
                 #write_variants
@@ -221,9 +223,13 @@ fn write_data_calculate_size_unnamed(
 ) -> (TokenStream2, TokenStream2) {
     let add_fields = size_unnamed_fields(fields, true);
 
+    let write_magic = write_magic(write_options);
     let write_fields = write_unnamed_fields(fields, true);
     (
-        quote! { #(#write_fields)* },
+        quote! {
+            #write_magic
+            #(#write_fields)*
+        },
         generate_size_calculation(
             quote! {
                 size += ( #(#add_fields)+* );
@@ -240,12 +246,7 @@ fn write_data_calculate_size_named(
 ) -> (TokenStream2, TokenStream2) {
     let write_fields = write_named_fields(fields, true);
 
-    // TODO: This is shared with enums, unnamed fields, etc?
-    let write_magic = if let Some(magic) = &write_options.magic {
-        quote! { #magic.ssbh_write(writer, data_ptr)?; }
-    } else {
-        quote! {}
-    };
+    let write_magic = write_magic(write_options);
 
     let write_fields = quote! {
         #write_magic
@@ -350,6 +351,13 @@ fn generate_ssbh_write(
     expanded
 }
 
+fn write_magic(write_options: &WriteOptions) -> TokenStream2 {
+    match &write_options.magic {
+        Some(magic) => quote! { #magic.ssbh_write(writer, data_ptr)?; },
+        None => quote! {},
+    }
+}
+
 fn write_pad_after(write_options: &WriteOptions) -> TokenStream2 {
     match write_options.pad_after {
         Some(num_bytes) => quote! { writer.write_all(&[0u8; #num_bytes])?; },
-- 
2.43.0


From 2398b0605f5a10f32d50f59c8edf21d46e7ecbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 02/14] fix: return errors and keep a fixed group order when
 reading version 1.2 anims

---
 ssbh_data/src/anim_data.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 470f9a5..927c82f 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -50,7 +50,6 @@ use ssbh_lib::{
     SsbhArray, Vector3, Vector4, Version,
 };
 use ssbh_write::SsbhWrite;
-use std::collections::HashMap;
 use std::{
     convert::{TryFrom, TryInto},
     error::Error,
@@ -393,18 +392,19 @@ fn read_groups_v12(
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<Vec<GroupData>, error::Error> {
     // Group by the track type.
-    let mut tracks_by_type = HashMap::new();
+    // Use the order of the first track of each type, so that the result is deterministic.
+    let mut tracks_by_type: Vec<(GroupType, Vec<(String, TrackData)>)> = Vec::new();
 
-    // TODO: Avoid unwrap.
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers).unwrap();
-        tracks_by_type
-            .entry(group_type)
-            .or_insert(Vec::new())
-            .push((track.name.to_string_lossy(), track_data));
+        let track_data = create_track_data_v12(track, buffers)?;
+        let node = (track.name.to_string_lossy(), track_data);
+        match tracks_by_type.iter_mut().find(|(t, _)| *t == group_type) {
+            Some((_, nodes)) => nodes.push(node),
+            None => tracks_by_type.push((group_type, vec![node])),
+        }
     }
 
     // Use the grouping conventions for version 2.0+ anims.
@@ -466,18 +466,18 @@ fn create_track_data_v12(
             0x3409 => {
                 println!("{:?}", reader.read_le::<V12Test1>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 52 - 4);
+                println!("Compressed: {:?} bytes", data.elements.len().saturating_sub(52 + 4));
             }
             0x4308 => {
                 println!("{:?}", reader.read_le::<V12Test3>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 72 - 4);
+                println!("Compressed: {:?} bytes", data.elements.len().saturating_sub(72 + 4));
             }
             0x4409 => {
                 let test = reader.read_le::<V12Test2>()?;
                 println!("{test:?}");
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 64 - 4);
+                println!("Compressed: {:?} bytes", data.elements.len().saturating_sub(64 + 4));
             }
             x => println!("Unrecognized header: {x:?}"),
         }
-- 
2.43.0


From e97d1da437763d4906dbc05d6524d82eb376c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 03/14] fix: return an error when the rotation sign bit is
 missing

---
 ssbh_data/src/anim_data/bitutils.rs    | 4 ++++
 ssbh_data/src/anim_data/compression.rs | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/bitutils.rs b/ssbh_data/src/anim_data/bitutils.rs
index 9dead58..377134b 100644
--- a/ssbh_data/src/anim_data/bitutils.rs
+++ b/ssbh_data/src/anim_data/bitutils.rs
@@ -44,6 +44,10 @@ impl BitReader {
         Ok(value)
     }
 
+    pub fn has_remaining(&self) -> bool {
+        self.index < self.bits.len()
+    }
+
     pub fn read_bit(&mut self) -> Result<bool, BitReadError> {
         let value = self
             .bits
diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index a6356d0..1bbbfc3 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -369,7 +369,7 @@ fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
     // Solving for the missing w gives two expressions:
     // w = sqrt(1 - x^2 + y^2 + z^2), w = -sqrt(1 - x^2 + y^2 + z^2).
     // Thus, we need only need to store the sign bit to uniquely determine w.
-    // TODO: Possible to read past end of stream?
+    // This assumes the sign bit is present.
     let flip_w = reader.read_bit().unwrap();
 
     let w2 = 1.0 - (rotation.x * rotation.x + rotation.y * rotation.y + rotation.z * rotation.z);
@@ -461,6 +461,10 @@ impl CompressedData for UncompressedTransform {
         };
 
         let rotation_w = if args.has_rotation() {
+            // The sign bit is missing for truncated buffers.
+            if !reader.has_remaining() {
+                return Err(BitReadError::NotEnoughBits);
+            }
             calculate_rotation_w(reader, rotation_xyz)
         } else {
             default.rotation.w
-- 
2.43.0


From d7943f54b88da5bda876853a44caf2a901619f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 04/14] fix: avoid overflow when decompressing pattern indices

---
 ssbh_data/src/anim_data/compression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 1bbbfc3..26fbb64 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -769,7 +769,10 @@ impl CompressedData for u32 {
         let value = if compression.bit_count == 0 {
             compression.min
         } else {
-            reader.read_u32(compression.bit_count as usize)? + compression.min
+            // Stored offsets can exceed the range for malformed files.
+            reader
+                .read_u32(compression.bit_count as usize)?
+                .wrapping_add(compression.min)
         };
         Ok(value)
     }
-- 
2.43.0


From 91f8537dcb24460193beae7123c9128c10fe39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 05/14] fix: keep pattern indices that need more than 24 bits
 when compressing

---
 ssbh_data/src/anim_data/compression.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 26fbb64..9accd68 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -792,12 +792,20 @@ impl CompressedData for u32 {
     fn get_args(_: &CompressedHeader<Self>) -> Self::CompressionArgs {}
 
     fn get_default_and_compression(values: &[Self], _: bool) -> (Self, Self::Compression) {
+        let min = values.iter().copied().min().unwrap_or(0);
+        let max = values.iter().copied().max().unwrap_or(0);
+        // Use more bits for values that don't fit to avoid corrupting the values.
+        let bit_count = if max - min >= 1 << DEFAULT_F32_BIT_COUNT {
+            u32::BITS as u64
+        } else {
+            DEFAULT_F32_BIT_COUNT // TODO: How should this work for u32?
+        };
         (
             0, // TODO: Better default?
             U32Compression {
-                min: values.iter().copied().min().unwrap_or(0),
-                max: values.iter().copied().max().unwrap_or(0),
-                bit_count: super::compression::DEFAULT_F32_BIT_COUNT, // TODO: How should this work for u32?
+                min,
+                max,
+                bit_count,
             },
         )
     }
-- 
2.43.0


From f1563f80febd38302e3000d544575583623fba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 06/14] fix: avoid overflow for large value ranges when
 compressing floats

---
 ssbh_data/src/anim_data/compression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 9accd68..ad592bb 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -402,8 +402,8 @@ fn compress_f32(value: f32, min: f32, max: f32, bit_count: NonZeroU64) -> Compre
 
     // TODO: There could be large errors due to cancellations when the absolute difference of max and min is small.
     // This is likely rare in practice.
-    // TODO: Investigate if this works better with f64 as an intermediate representation.
-    let ratio = (value - min) / (max - min);
+    // Double precision avoids overflow for large ranges.
+    let ratio = ((value as f64 - min as f64) / (max as f64 - min as f64)) as f32;
     let compressed = ratio * scale as f32;
     // TODO: Should this truncate or round for best accuracy?
     compressed as CompressedBits
-- 
2.43.0


From 39b4cdc4fad1fc0eee661c7875462d968b99daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 07/14] fix: refuse skel versions that cannot be saved

---
 ssbh_data/src/skel_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index f86955c..7854af1 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -152,6 +152,13 @@ impl TryFrom<&SkelData> for Skel {
     type Error = error::Error;
 
     fn try_from(data: &SkelData) -> Result<Self, Self::Error> {
+        if (data.major_version, data.minor_version) != (1, 0) {
+            return Err(error::Error::UnsupportedVersion {
+                major_version: data.major_version,
+                minor_version: data.minor_version,
+            });
+        }
+
         let world_transforms = data
             .bones
             .iter()
-- 
2.43.0


From e79b7f70d65e692db7010d9a11b59689550ca50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 08/14] fix: return errors for malformed shader binaries

Reading names or the binary header of a malformed shader binary panicked or
allocated up to 4 GiB for a single name.
---
 ssbh_data/src/shdr_data.rs | 70 +++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 38ac8fb..64f8f3e 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -36,38 +36,37 @@ pub struct MetaData {
 }
 
 impl MetaData {
-    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
+    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
+        Ok(Self {
             buffers: shader
                 .header
                 .buffer_entries
                 .0
                 .iter()
                 .map(|e| Buffer::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<Result<_, _>>()?,
             uniforms: shader
                 .header
                 .uniforms
                 .0
                 .iter()
                 .map(|e| Uniform::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<Result<_, _>>()?,
             inputs: shader
                 .header
                 .inputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<Result<_, _>>()?,
             outputs: shader
                 .header
                 .outputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
-        }
+                .collect::<Result<_, _>>()?,
+        })
     }
 }
 
@@ -85,17 +84,16 @@ pub struct Buffer {
 }
 
 impl Buffer {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             used_size_in_bytes: e.used_size_in_bytes,
             uniform_count: e.uniform_entry_count,
             unk4: e.unk4,
             unk5: e.unk5,
             unk6: e.unk6,
             unk7: e.unk7,
-        }
+        })
     }
 }
 
@@ -111,15 +109,14 @@ pub struct Uniform {
 }
 
 impl Uniform {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             buffer_index: e.buffer_index,
             uniform_buffer_offset: e.uniform_buffer_offset,
             unk11: e.unk11,
-        }
+        })
     }
 }
 
@@ -133,13 +130,12 @@ pub struct Attribute {
 }
 
 impl Attribute {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             location: e.location,
-        }
+        })
     }
 }
 
@@ -150,12 +146,12 @@ impl MetaData {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         let mut reader = Cursor::new(std::fs::read(path)?);
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(&mut reader, &shader))
+        Ok(Self::new(&mut reader, &shader)?)
     }
 
     pub fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, Box<dyn std::error::Error>> {
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(reader, &shader))
+        Ok(Self::new(reader, &shader)?)
     }
 }
 
@@ -374,14 +370,19 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    let mut bytes = vec![0u8; (s.length as usize).saturating_sub(1)];
-    reader.read_exact(&mut bytes)?;
+    // Don't trust the length for the initial allocation.
+    let length = (s.length as u64).saturating_sub(1);
+    let mut bytes = Vec::new();
+    let bytes_read = reader.take(length).read_to_end(&mut bytes)?;
+    if bytes_read as u64 != length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
 
 impl TryFrom<Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: Shdr) -> Result<Self, Self::Error> {
         Self::try_from(&shdr)
@@ -389,11 +390,10 @@ impl TryFrom<Shdr> for ShdrData {
 }
 
 impl TryFrom<&Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: &Shdr) -> Result<Self, Self::Error> {
         // TODO: Rebuild Shdr from ShdrData?
-        // TODO: Avoid unwrap.
         Ok(Self {
             shaders: match shdr {
                 Shdr::V12 { shaders } => shaders
@@ -401,14 +401,14 @@ impl TryFrom<&Shdr> for ShdrData {
                     .iter()
                     .map(|s| {
                         let mut reader = Cursor::new(&s.shader_binary.elements);
-                        let shader: ShaderBinary = reader.read_le().unwrap();
-                        ShaderEntryData {
+                        let shader: ShaderBinary = reader.read_le()?;
+                        Ok(ShaderEntryData {
                             name: s.name.to_string_lossy(),
                             shader_stage: s.shader_stage,
-                            meta_data: MetaData::new(&mut reader, &shader),
-                        }
+                            meta_data: MetaData::new(&mut reader, &shader)?,
+                        })
                     })
-                    .collect(),
+                    .collect::<Result<_, Self::Error>>()?,
             },
         })
     }
-- 
2.43.0


From e35184757dbc06f3b74dafbfac03a17a7c8a704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 09/14] fix: don't allocate unchecked lengths for shader code
 and 1.2 anim buffers

A few corrupted bytes could request up to 4 GiB.
---
 ssbh_data/src/anim_data.rs |  2 +-
 ssbh_data/src/lib.rs       | 14 ++++++++++++++
 ssbh_data/src/shdr_data.rs | 11 ++++-------
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 927c82f..22464a5 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -816,7 +816,7 @@ struct V12Test2 {
 struct V12Test3 {
     frame_count: u32,
     unk1: f32,
-    #[br(count = frame_count, align_after = 4)] // align to float boundary
+    #[br(parse_with = crate::read_bytes, args(frame_count as u64), align_after = 4)] // align to float boundary
     unk2: Vec<u8>, // TODO: key frames?
     unk3: [Vector3; 3],
     // TODO: Compressed data?
diff --git a/ssbh_data/src/lib.rs b/ssbh_data/src/lib.rs
index 0cda803..250f0ac 100644
--- a/ssbh_data/src/lib.rs
+++ b/ssbh_data/src/lib.rs
@@ -97,6 +97,20 @@ pub mod prelude {
     pub use crate::SsbhData;
 }
 
+/// Reads exactly `count` bytes without trusting `count` for the initial allocation.
+fn read_bytes<R: Read + Seek>(
+    reader: &mut R,
+    _endian: binrw::Endian,
+    (count,): (u64,),
+) -> binrw::BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    let bytes_read = reader.take(count).read_to_end(&mut bytes)?;
+    if bytes_read as u64 != count {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 macro_rules! ssbh_data_impl {
     ($ssbh_data:ty, $ssbh_lib:ty, $error:ty) => {
         impl SsbhData for $ssbh_data {
diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 64f8f3e..75c43e0 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -8,6 +8,8 @@ use ssbh_lib::formats::shdr::{ShaderStage, Shdr};
 use std::convert::{TryFrom, TryInto};
 use std::io::Read;
 
+use crate::read_bytes;
+
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "arbitrary", derive(arbitrary::Arbitrary))]
 #[derive(Debug)]
@@ -175,7 +177,7 @@ pub struct ShaderBinary {
     code_length: u32,
 
     // TODO: header size of 80 bytes (0x50)?
-    #[br(seek_before = SeekFrom::Start(2896), count = code_length)]
+    #[br(seek_before = SeekFrom::Start(2896), parse_with = read_bytes, args(code_length as u64))]
     pub program_code: Vec<u8>,
     // float constants?
 }
@@ -370,13 +372,8 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    // Don't trust the length for the initial allocation.
     let length = (s.length as u64).saturating_sub(1);
-    let mut bytes = Vec::new();
-    let bytes_read = reader.take(length).read_to_end(&mut bytes)?;
-    if bytes_read as u64 != length {
-        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
-    }
+    let bytes = read_bytes(reader, binrw::Endian::Little, (length,))?;
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
-- 
2.43.0


From 811f9ff2f33647538370a1f0a920e7a14019d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 10/14] fix: end deserialized strings at the first null byte

Writing a string with null bytes created by deserializing gave a file that
reads back as another value.
---
 ssbh_lib/src/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 310d2e6..e2acb16 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -91,8 +91,8 @@ where
 {
     let string = String::deserialize(deserializer)?;
 
-    // TODO: This should check for null bytes?
-    Ok(string.as_bytes().to_vec())
+    // Strings are null terminated, so bytes after the first null byte can't be represented.
+    Ok(CString::<1>::from_bytes(string.as_bytes()).0)
 }
 
 #[cfg(feature = "arbitrary")]
-- 
2.43.0


From 838ee3c1cbd8a00b55d07991b62f84fcf7651fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 11/14] fix: don't wrap the max influences of mesh rigging
 groups past 255

---
 ssbh_data/src/mesh_data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index b749cce..997bf93 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -782,10 +782,12 @@ fn create_rigging_buffers<W: Weight>(
     for mesh_object in object_data {
         // TODO: unk1 is sometimes set to 0 for singlebound mesh objects, which isn't currently preserved.
         let flags = RiggingFlags {
+            // Avoid wrapping to a small count if the maximum doesn't fit in the field.
             max_influences: calculate_max_influences(
                 &mesh_object.bone_influences,
                 mesh_object.vertex_indices.len(),
-            ) as u8,
+            )
+            .min(u8::MAX as usize) as u8,
             unk1: 1,
         };
 
-- 
2.43.0


From 734779a8aaab4c6b47ac410bcede77f609051b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 12/14] fix: refuse skel parent indices that don't fit 16 bits

---
 ssbh_data/src/skel_data.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index 7854af1..0493f09 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -80,6 +80,10 @@ pub mod error {
         #[error(transparent)]
         BoneTransform(#[from] BoneTransformError),
 
+        /// The parent index can't be represented as the signed 16-bit integer used by [Skel].
+        #[error("parent index {0} exceeds the maximum supported value of {max}", max = i16::MAX)]
+        ParentIndexOutOfRange(usize),
+
         /// An error occurred while writing data to a buffer.
         #[error(transparent)]
         Io(#[from] std::io::Error),
@@ -170,20 +174,23 @@ impl TryFrom<&SkelData> for Skel {
                 .bones
                 .iter()
                 .enumerate()
-                .map(|(i, b)| SkelBoneEntry {
-                    name: b.name.clone().into(),
-                    index: i as u16,
-                    parent_index: match b.parent_index {
-                        Some(index) => index as i16,
-                        None => -1,
-                    },
-                    // TODO: Preserve or calculate flags?
-                    flags: SkelEntryFlags {
-                        unk1: 1,
-                        billboard_type: b.billboard_type,
-                    },
+                .map(|(i, b)| {
+                    Ok(SkelBoneEntry {
+                        name: b.name.clone().into(),
+                        index: i as u16,
+                        parent_index: match b.parent_index {
+                            Some(index) => i16::try_from(index)
+                                .map_err(|_| error::Error::ParentIndexOutOfRange(index))?,
+                            None => -1,
+                        },
+                        // TODO: Preserve or calculate flags?
+                        flags: SkelEntryFlags {
+                            unk1: 1,
+                            billboard_type: b.billboard_type,
+                        },
+                    })
                 })
-                .collect(),
+                .collect::<Result<_, error::Error>>()?,
             world_transforms: world_transforms
                 .iter()
                 .map(Matrix4x4::from_cols_array)
-- 
2.43.0


From e2c94a5d2e80c6af0655db7373c60d5b7a6ed8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 13/14] fix: refuse adj mesh object indices that don't fit 32
 bits

---
 ssbh_data/src/adj_data.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ssbh_data/src/adj_data.rs b/ssbh_data/src/adj_data.rs
index 446ff6b..4d8d436 100644
--- a/ssbh_data/src/adj_data.rs
+++ b/ssbh_data/src/adj_data.rs
@@ -138,14 +138,16 @@ impl TryFrom<&AdjData> for Adj {
                 .entries
                 .iter()
                 .scan(0, |offset, e| {
-                    let entry = AdjEntry {
-                        mesh_object_index: e.mesh_object_index as u32,
-                        index_buffer_offset: *offset as u32,
-                    };
+                    let entry =
+                        u32::try_from(e.mesh_object_index).map(|mesh_object_index| AdjEntry {
+                            mesh_object_index,
+                            index_buffer_offset: *offset as u32,
+                        });
                     *offset += e.vertex_adjacency.len() * std::mem::size_of::<i16>();
                     Some(entry)
                 })
-                .collect(),
+                .collect::<Result<_, _>>()
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))?,
             index_buffer: data
                 .entries
                 .iter()
-- 
2.43.0


From 976d6060b783baa518ad9951377e3ac52290f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 14/14] fix: use the documented nufxlb extension for nufx files

---
 ssbh_lib_json/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssbh_lib_json/src/main.rs b/ssbh_lib_json/src/main.rs
index 2a7b223..5ea4a72 100644
--- a/ssbh_lib_json/src/main.rs
+++ b/ssbh_lib_json/src/main.rs
@@ -68,7 +68,7 @@ fn read_json_write_data<P: AsRef<Path>>(input_path: P, output_path: Option<Strin
             Ssbh::Anim(_) => "nuanmb",
             Ssbh::Nlst(_) => "nulstb",
             Ssbh::Nrpd(_) => "nurpdb",
-            Ssbh::Nufx(_) => "nuflxb",
+            Ssbh::Nufx(_) => "nufxlb",
             Ssbh::Shdr(_) => "nushdb",
         });
 
-- 
2.43.0

