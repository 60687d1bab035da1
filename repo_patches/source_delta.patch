From b44c28da133cd69e17e27e78e5f665e229cc8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 01/19] fix: saving a mesh with an empty vertex array no longer
 panics

---
 src/vertices.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f97f85..bc39e29 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -34,12 +34,14 @@ pub fn save_tmf_vertices<W: Write>(
     writer: &mut W,
     shortest_edge: FloatType,
 ) -> std::io::Result<()> {
-    let mut min_x = vertices[0].0;
-    let mut max_x = vertices[0].0;
-    let mut min_y = vertices[0].1;
-    let mut max_y = vertices[0].1;
-    let mut min_z = vertices[0].2;
-    let mut max_z = vertices[0].2;
+    // An empty array has an empty bounding box
+    let first = vertices.first().copied().unwrap_or((0.0, 0.0, 0.0));
+    let mut min_x = first.0;
+    let mut max_x = first.0;
+    let mut min_y = first.1;
+    let mut max_y = first.1;
+    let mut min_z = first.2;
+    let mut max_z = first.2;
     writer.write_all(&(vertices.len() as u64).to_le_bytes())?;
     //Get min and max x,y,z coords
     for vertex in vertices {
-- 
2.43.0


From 0cf2029f1d3e2e925e9b675fd7584b1937da9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 02/19] fix: the bounding box of saved vertices mixed up the
 axes

---
 src/vertices.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index bc39e29..39bd00f 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -46,10 +46,10 @@ pub fn save_tmf_vertices<W: Write>(
     //Get min and max x,y,z coords
     for vertex in vertices {
         min_x = min_x.min(vertex.0);
-        max_x = max_y.max(vertex.1);
-        min_y = min_z.min(vertex.2);
-        max_y = max_x.max(vertex.0);
-        min_z = min_y.min(vertex.1);
+        max_x = max_x.max(vertex.0);
+        min_y = min_y.min(vertex.1);
+        max_y = max_y.max(vertex.1);
+        min_z = min_z.min(vertex.2);
         max_z = max_z.max(vertex.2);
     }
     writer.write_all(&(min_x as f64).to_le_bytes())?;
@@ -69,7 +69,7 @@ pub fn save_tmf_vertices<W: Write>(
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sy) * precision.0;
+    let inc_z = (shortest_edge / sz) * precision.0;
     //Calculate write precision
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-- 
2.43.0


From 2f6f03947c2f8a093ca60115ff9abaa9daf53f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 03/19] fix: quantised values are rounded, clamped and never
 shifted past their width

---
 src/custom_data.rs | 23 ++++++++++++-----------
 src/lib.rs         |  2 ++
 src/normals.rs     | 11 +++++------
 src/utilis.rs      |  5 +++++
 src/uv.rs          | 16 ++++++++--------
 src/vertices.rs    | 33 +++++++++++++++------------------
 6 files changed, 47 insertions(+), 43 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index ab95fe6..a6bd31e 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -1,6 +1,7 @@
 use crate::read_extension::ReadExt;
 use crate::tmf::SectionType;
-use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_SEG_SIZE};
+use crate::utilis::quantize;
+use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_PREC_BITS, MAX_SEG_SIZE};
 #[derive(Clone, Debug)]
 pub(crate) struct CustomDataSegment {
     name: Vec<u8>,
@@ -100,16 +101,15 @@ impl CustomData {
                 let span = max - min;
                 let prec = (span / prec).log2().ceil() as u8;
                 //Ensure precision is never 0(messes up the reader/writer);
-                let prec = prec.max(1);
-                let mul = ((1 << prec) - 1) as FloatType;
+                let prec_bits = prec.clamp(1, MAX_PREC_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&(min as f64).to_le_bytes())?;
                 target.write_all(&(max as f64).to_le_bytes())?;
-                target.write_all(&[prec])?;
-                let prec = UnalignedRWMode::precision_bits(prec);
+                target.write_all(&[prec_bits])?;
+                let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry = (((entry - min) / span) * mul) as u64;
+                    let entry = quantize((entry - min) / span, prec_bits);
                     writer.write_unaligned(prec, entry)?;
                 }
                 Ok(())
@@ -117,16 +117,17 @@ impl CustomData {
             Self::CustomColorRGBA(data, prec) => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
                 let prec_bits = (1.0 / prec.min(1.0)).log2().ceil() as u8;
-                let mul = ((1 << prec_bits) - 1) as FloatType;
+                //Ensure precision is never 0(messes up the reader/writer);
+                let prec_bits = prec_bits.clamp(1, MAX_PREC_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry_r = (entry.0 * mul) as u64;
-                    let entry_g = (entry.1 * mul) as u64;
-                    let entry_b = (entry.2 * mul) as u64;
-                    let entry_a = (entry.3 * mul) as u64;
+                    let entry_r = quantize(entry.0, prec_bits);
+                    let entry_g = quantize(entry.1, prec_bits);
+                    let entry_b = quantize(entry.2, prec_bits);
+                    let entry_a = quantize(entry.3, prec_bits);
                     writer.write_unaligned(prec, entry_r)?;
                     writer.write_unaligned(prec, entry_g)?;
                     writer.write_unaligned(prec, entry_b)?;
diff --git a/src/lib.rs b/src/lib.rs
index b8bff8e..46523d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,6 +59,8 @@ const MIN_TMF_MAJOR: u16 = 0;
 const MIN_TMF_MINOR: u16 = 2;
 pub(crate) const MAX_SEG_SIZE: usize = 0x80_00_00_00; //Standard
                                                       //pub(crate) const MAX_SEG_SIZE: usize = 2_00_00;// for fuzzing!
+/// Highest precision, in bits, at which quantised data can be saved(readers reject 64 bits and more).
+pub(crate) const MAX_PREC_BITS: u8 = 63;
 /// Index type used for representing triangle indices.
 #[cfg(not(any(feature = "long_indices", feature = "short_indices")))]
 pub type IndexType = u32;
diff --git a/src/normals.rs b/src/normals.rs
index 9282d50..3dcb1bb 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -1,6 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
-use crate::{FloatType, TMFImportError, Vector3, MAX_SEG_SIZE};
+use crate::{FloatType, TMFImportError, Vector3, MAX_PREC_BITS, MAX_SEG_SIZE};
 #[cfg(not(feature = "double_precision"))]
 use std::f32::consts::FRAC_PI_2;
 #[cfg(feature = "double_precision")]
@@ -22,7 +22,7 @@ impl NormalPrecisionMode {
     /// let dev_5_deg = NormalPrecisionMode::from_deg_dev(5.0);
     /// ```
     pub fn from_deg_dev(deg: FloatType) -> Self {
-        let prec = ((90.0 / deg).log2().ceil() as u8).max(1);
+        let prec = ((90.0 / deg).log2().ceil() as u8).clamp(1, MAX_PREC_BITS);
         Self(prec)
     }
     /// Creates NormalPrecisionMode from maximal allowed deviation angle in radians, for degrees use [`Self::from_deg_dev`]
@@ -34,7 +34,7 @@ impl NormalPrecisionMode {
     /// let dev_0_point_05_rad = NormalPrecisionMode::from_rad_dev(0.05);
     /// ```
     pub fn from_rad_dev(rad: FloatType) -> Self {
-        let prec = (FRAC_PI_2 / rad).log2().ceil() as u8;
+        let prec = ((FRAC_PI_2 / rad).log2().ceil() as u8).clamp(1, MAX_PREC_BITS);
         Self(prec)
     }
     pub(crate) fn bits(&self) -> u8 {
@@ -68,7 +68,6 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    let multiplier = ((1 << precision.0) - 1) as FloatType;
     //Calculate asine
     let xy = (normal.0.abs(), normal.1.abs());
     let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
@@ -77,8 +76,8 @@ pub(crate) fn normal_to_encoding(
 
     let asine = asine / (PI / 2.0);
     //
-    let asine = (asine * multiplier) as u64;
-    let z = (normal.2.abs() * multiplier) as u64;
+    let asine = quantize(asine, precision.0);
+    let z = quantize(normal.2.abs(), precision.0);
     let sx = normal.0 < 0.0;
     let sy = normal.1 < 0.0;
     let sz = normal.2 < 0.0;
diff --git a/src/utilis.rs b/src/utilis.rs
index 1afb596..174a7fc 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -43,6 +43,11 @@ pub(crate) fn fsin(mut x: fprec) -> fprec {
     let z = (k as fprec) * x;
     x - z
 }
+/// Converts a *value* in range from 0 to 1 to the nearest *bits*-bit unsigned integer. Values outside this range are clamped to it.
+pub(crate) fn quantize(value: FloatType, bits: u8) -> u64 {
+    let max = (1_u64 << bits) - 1;
+    ((value * (max as FloatType)).round() as u64).min(max)
+}
 pub(crate) fn magnitude(i: Vector3) -> FloatType {
     let xx = i.0 * i.0;
     let yy = i.1 * i.1;
diff --git a/src/uv.rs b/src/uv.rs
index 73b8db9..86a605c 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -1,7 +1,8 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::utilis::quantize;
 use crate::TMFImportError;
-use crate::MAX_SEG_SIZE;
+use crate::{MAX_PREC_BITS, MAX_SEG_SIZE};
 use crate::{FloatType, Vector2};
 use std::io::{Read, Write};
 /// Setting dictating how precisely the UV coordinates should be saved.
@@ -14,7 +15,7 @@ impl UvPrecisionMode {
     /// let mode = UvPrecisionMode::form_texture_resolution(1024.0,0.1);
     /// ```
     pub fn form_texture_resolution(resolution: f32, pixel_dev: f32) -> Self {
-        Self((resolution / pixel_dev).log2().ceil() as u8)
+        Self(((resolution / pixel_dev).log2().ceil() as u8).min(MAX_PREC_BITS))
     }
 }
 impl Default for UvPrecisionMode {
@@ -35,15 +36,14 @@ pub fn save_uvs<W: Write>(
     writer: &mut W,
     precision: UvPrecisionMode,
 ) -> std::io::Result<()> {
-    let precision = precision.0;
-    let multpiler = ((1 << precision) - 1) as FloatType;
-    writer.write_all(&[precision])?;
+    let bits = precision.0;
+    writer.write_all(&[bits])?;
     writer.write_all(&(uvs.len() as u64).to_le_bytes())?;
-    let precision = UnalignedRWMode::precision_bits(precision);
+    let precision = UnalignedRWMode::precision_bits(bits);
     let mut writer = UnalignedWriter::new(writer);
     for uv in uvs.iter() {
-        let x = (uv.0 * multpiler) as u64;
-        let y = (uv.1 * multpiler) as u64;
+        let x = quantize(uv.0, bits);
+        let y = quantize(uv.1, bits);
         writer.write_unaligned(precision, x)?;
         writer.write_unaligned(precision, y)?;
     }
diff --git a/src/vertices.rs b/src/vertices.rs
index 39bd00f..7726ce7 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -1,7 +1,8 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::utilis::quantize;
 use crate::TMFImportError;
-use crate::MAX_SEG_SIZE;
+use crate::{MAX_PREC_BITS, MAX_SEG_SIZE};
 use crate::{FloatType, IndexType, Vector3};
 use std::io::{Read, Write};
 #[derive(Clone, Copy, PartialEq)]
@@ -74,32 +75,28 @@ pub fn save_tmf_vertices<W: Write>(
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    //Ensure precision is never below 1
-    let prec_x = prec_x.max(1);
-    let prec_y = prec_y.max(1);
-    let prec_z = prec_z.max(1);
+    //Ensure precision is never below 1 and never above the maximum
+    let prec_x = prec_x.clamp(1, MAX_PREC_BITS);
+    let prec_y = prec_y.clamp(1, MAX_PREC_BITS);
+    let prec_z = prec_z.clamp(1, MAX_PREC_BITS);
     // Write precision info
     writer.write_all(&[prec_x])?;
     writer.write_all(&[prec_y])?;
     writer.write_all(&[prec_z])?;
-    // Calculate float save multiplier
-    let mul_x = ((1 << prec_x) - 1) as FloatType;
-    let mul_y = ((1 << prec_y) - 1) as FloatType;
-    let mul_z = ((1 << prec_z) - 1) as FloatType;
     // Create unaligned rw modes
-    let prec_x = UnalignedRWMode::precision_bits(prec_x);
-    let prec_y = UnalignedRWMode::precision_bits(prec_y);
-    let prec_z = UnalignedRWMode::precision_bits(prec_z);
+    let mode_x = UnalignedRWMode::precision_bits(prec_x);
+    let mode_y = UnalignedRWMode::precision_bits(prec_y);
+    let mode_z = UnalignedRWMode::precision_bits(prec_z);
     // Create writer
     let mut writer = UnalignedWriter::new(writer);
     for vertex in vertices {
-        let x = (((vertex.0 - min_x) / sx) * mul_x) as u64;
-        let y = (((vertex.1 - min_y) / sy) * mul_y) as u64;
-        let z = (((vertex.2 - min_z) / sz) * mul_z) as u64;
+        let x = quantize((vertex.0 - min_x) / sx, prec_x);
+        let y = quantize((vertex.1 - min_y) / sy, prec_y);
+        let z = quantize((vertex.2 - min_z) / sz, prec_z);
 
-        writer.write_unaligned(prec_x, x)?;
-        writer.write_unaligned(prec_y, y)?;
-        writer.write_unaligned(prec_z, z)?;
+        writer.write_unaligned(mode_x, x)?;
+        writer.write_unaligned(mode_y, y)?;
+        writer.write_unaligned(mode_z, z)?;
     }
     writer.flush()?;
     Ok(())
-- 
2.43.0


From 18576d546e1d10172dc0701ea1e07f2464448d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 04/19] fix: reading bit fields of 32, 64 and mixed widths

---
 src/unaligned_rw.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 05ff6a4..c49ac54 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -70,17 +70,20 @@ impl<R: Read> UnalignedReader<R> {
         mode1: UnalignedRWMode,
         mode2: UnalignedRWMode,
     ) -> Result<(u64, u64)> {
-        if mode1.0 + mode2.0 > u64::BITS as u8 {
+        if mode1.0.saturating_add(mode2.0) > u64::BITS as u8 {
             Ok((self.read_unaligned(mode1)?, self.read_unaligned(mode2)?))
         } else {
             let read_size = UnalignedRWMode(mode1.0 + mode2.0);
             let data = self.read_unaligned(read_size)?;
-            let r1 = data >> mode1.0;
-            let r2 = data << (u64::BITS as u8 - mode1.0) >> (u64::BITS as u8 - mode1.0);
+            let r1 = data.checked_shr(u32::from(mode2.0)).unwrap_or(0);
+            let r2 = data ^ r1.checked_shl(u32::from(mode2.0)).unwrap_or(0);
             Ok((r1, r2))
         }
     }
     pub fn read3_unaligned(&mut self, mode: UnalignedRWMode) -> Result<(u64, u64, u64)> {
+        if mode.0 == 0 {
+            return Ok((0, 0, 0));
+        }
         if mode.0 > (u64::BITS / 3) as u8 {
             let res_1_2 = self.read2_unaligned(mode)?;
             Ok((res_1_2.0, res_1_2.1, self.read_unaligned(mode)?))
@@ -96,7 +99,7 @@ impl<R: Read> UnalignedReader<R> {
     }
     /// Reads *mode.0* bits from self, keeping internal alignment
     pub fn read_unaligned(&mut self, mode: UnalignedRWMode) -> Result<u64> {
-        if mode.0 == 0 || mode.0 >= u64::BITS as u8 {
+        if mode.0 == 0 || mode.0 > u64::BITS as u8 {
             return Ok(0);
         };
         // Prepare result integer, in which read result is stored.
@@ -111,7 +114,8 @@ impl<R: Read> UnalignedReader<R> {
             // Get amount of bits to read in current iteration: either all bits left in current_byte, or all bits remaining to read, whichever lower
             let read_ammount = total_read.min(UNALIGNED_STORAGE_BITS - self.bits_read);
             // Move res by amount of bits bits_read in current iteration to prepare res for reading into in next iteration.
-            res <<= read_ammount;
+            // (all 64 bits may be read at once, in which case res is still empty).
+            res = res.checked_shl(u32::from(read_ammount)).unwrap_or(0);
             // Calculate offset of bits_read bits in current byte.
             let read_offset = UNALIGNED_STORAGE_BITS - read_ammount;
             // Read bits in current_byte at read_offset into res.
-- 
2.43.0


From 809ccffbdf59353807ec10a1bb852831f42778a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 05/19] fix: malformed index and colour segments are rejected
 instead of panicking

---
 src/custom_data.rs  |  6 ++++++
 src/tmf_importer.rs | 12 ++++++++----
 src/vertices.rs     | 18 +++++++++++++++---
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index a6bd31e..96a7761 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -250,7 +250,13 @@ impl CustomDataSegment {
             SectionType::CustomColorRGBASegment => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader};
                 let len = src.read_u64()?;
+                if len > MAX_SEG_SIZE as u64 {
+                    return Err(TMFImportError::SegmentTooLong);
+                }
                 let prec_bits = src.read_u8()?;
+                if prec_bits >= u64::BITS as u8 {
+                    return Err(TMFImportError::InvalidPrecision(prec_bits));
+                }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
                 let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 040f45f..144ecc8 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -3,6 +3,7 @@ use crate::tmf::CompressionType;
 use crate::tmf::{DecodedSegment, EncodedSegment, SectionType};
 use crate::unaligned_rw::UnalignedRWMode;
 use crate::unaligned_rw::UnalignedReader;
+use crate::vertices::offset_index;
 use crate::CustomDataSegment;
 use crate::IndexType;
 use crate::MAX_SEG_SIZE;
@@ -266,22 +267,25 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
+    if precision_bits > u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision_bits));
+    }
     data.reserve(length as usize);
     let buf = data.spare_capacity_mut();
     let precision = UnalignedRWMode::precision_bits(precision_bits);
     let mut reader = UnalignedReader::new(src);
     if precision_bits == 0 {
         use std::mem::MaybeUninit;
-        buf.fill(MaybeUninit::new(0));
+        buf.fill(MaybeUninit::new(offset_index(0, min)?));
     } else {
         for index in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write((i1 + min) as IndexType);
-            buf[index * 2 + 1].write((i2 + min) as IndexType);
+            buf[index * 2].write(offset_index(i1, min)?);
+            buf[index * 2 + 1].write(offset_index(i2, min)?);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write((i + min) as IndexType);
+            buf[(length - 1) as usize].write(offset_index(i, min)?);
         }
     }
     unsafe { data.set_len(length as usize) }
diff --git a/src/vertices.rs b/src/vertices.rs
index 7726ce7..a305e4d 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -192,6 +192,15 @@ pub fn save_triangles<W: Write>(
     }
     writer.flush()
 }
+/// Adds the minimal index of a segment to a saved index, rejecting sums which can't be indices.
+pub(crate) fn offset_index(index: u64, min: u64) -> std::io::Result<IndexType> {
+    index
+        .checked_add(min)
+        .and_then(|index| IndexType::try_from(index).ok())
+        .ok_or_else(|| {
+            std::io::Error::new(std::io::ErrorKind::InvalidData, "Index out of range")
+        })
+}
 pub(crate) fn read_triangles<R: Read>(
     reader: &mut R,
     ctx: &crate::tmf_importer::TMFImportContext,
@@ -202,16 +211,19 @@ pub(crate) fn read_triangles<R: Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
+    if precision > u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision));
+    }
     let mut res = Vec::with_capacity(length as usize);
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push((i1 + min) as IndexType);
-        res.push((i2 + min) as IndexType);
+        res.push(offset_index(i1, min)?);
+        res.push(offset_index(i2, min)?);
     }
     for _i in 0..length % 2 {
-        res.push((reader.read_unaligned(precision)? + min) as IndexType);
+        res.push(offset_index(reader.read_unaligned(precision)?, min)?);
     }
     Ok(res.into())
 }
-- 
2.43.0


From 24a1b102f8fe27455c8422b9dea3e3dda4686854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 06/19] fix: saving a mesh with a name too long for the format
 is an error

---
 src/tmf_exporter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0f59737..5769ba6 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -65,7 +65,13 @@ fn calc_shortest_edge(
 
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
     let bytes = s.as_bytes();
-    w.write_all(&(bytes.len() as u16).to_le_bytes())?;
+    let len = u16::try_from(bytes.len()).map_err(|_| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Mesh name is longer than 65535 bytes",
+        )
+    })?;
+    w.write_all(&len.to_le_bytes())?;
     w.write_all(bytes)
 }
 fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
-- 
2.43.0


From a8c74f4c21f86cd0a0f3631684be9bf0a7af25c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 07/19] fix: saving a mesh with too many segments for the
 format is an error

---
 src/tmf_exporter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 5769ba6..8255e53 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -111,7 +111,13 @@ async fn write_mesh<W: std::io::Write>(
         encoded.push(seg.encode(p_info, &ei));
     }
     let encoded = futures::future::join_all(encoded).await;
-    target.write_all(&(encoded.len() as u16).to_le_bytes())?;
+    let segment_count = u16::try_from(encoded.len()).map_err(|_| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Mesh has more than 65535 segments",
+        )
+    })?;
+    target.write_all(&segment_count.to_le_bytes())?;
     for seg in encoded {
         seg?.write(target)?;
     }
-- 
2.43.0


From c9e4bb7c468300c213b5e6233d0aeb68abd4c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 08/19] fix: the vertex split heuristic overflowed on large
 meshes and ignored depth

---
 src/tmf_exporter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 8255e53..deb5119 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -290,17 +290,17 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
         smallvec![triangles]
     }
 }
-fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u8 {
+fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u16 {
     let dx = span.end.0 - span.start.0;
     let dy = span.end.1 - span.start.1;
-    let _dz = span.end.2 - span.start.2;
+    let dz = span.end.2 - span.start.2;
     let inc_x = shortest_edge / dx;
     let inc_y = shortest_edge / dy;
-    let inc_z = shortest_edge / dy;
+    let inc_z = shortest_edge / dz;
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    prec_x + prec_y + prec_z
+    u16::from(prec_x) + u16::from(prec_y) + u16::from(prec_z)
 }
 fn expand_vertex_span(span: std::ops::Range<Vector3>, point: Vector3) -> std::ops::Range<Vector3> {
     let min = span.start;
-- 
2.43.0


From d660c5e229a0627df0bfc41641bbee65e28f69cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 09/19] fix: saving meshes with degenerate, incomplete or
 dangling faces no longer panics

---
 src/tmf_exporter.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index deb5119..0fe325f 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -36,21 +36,23 @@ fn calc_shortest_edge(
                 None => return 0.1,
             };
             let mut shortest_edge = FloatType::INFINITY;
+            // Edge length, or infinity for edges which have no length or no vertices.
+            let edge = |a: IndexType, b: IndexType| {
+                match (vertices.get(a as usize), vertices.get(b as usize)) {
+                    (Some(a), Some(b)) if a != b => distance(*a, *b),
+                    _ => FloatType::INFINITY,
+                }
+            };
             for i in 0..(vertex_triangles.len() / 3) {
-                let d1 = distance(
-                    vertices[vertex_triangles[i * 3] as usize],
-                    vertices[vertex_triangles[i * 3 + 1] as usize],
-                );
-                let d2 = distance(
-                    vertices[vertex_triangles[i * 3 + 1] as usize],
-                    vertices[vertex_triangles[i * 3 + 2] as usize],
-                );
-                let d3 = distance(
-                    vertices[vertex_triangles[i * 3 + 2] as usize],
-                    vertices[vertex_triangles[i * 3] as usize],
-                );
+                let d1 = edge(vertex_triangles[i * 3], vertex_triangles[i * 3 + 1]);
+                let d2 = edge(vertex_triangles[i * 3 + 1], vertex_triangles[i * 3 + 2]);
+                let d3 = edge(vertex_triangles[i * 3 + 2], vertex_triangles[i * 3]);
                 shortest_edge = shortest_edge.min(d1.min(d2.min(d3)));
             }
+            // No edge has a meaningful length, so this mesh is handled as mesh with no faces.
+            if !shortest_edge.is_finite() {
+                return 0.1;
+            }
             shortest_edge
         }
         // TODO: Calculate distance between closest points for point cloud
-- 
2.43.0


From 39384e0eec29364ffbe01dad8ed726947867540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 10/19] fix: custom data segments are saved in the order they
 were added

---
 src/tmf_exporter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0fe325f..fb49069 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -87,6 +87,8 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
             new_segments.push(segment);
         }
     }
+    // Segments were taken from the end: restore their order.
+    new_segments.reverse();
     new_segments.into()
 }
 async fn write_mesh<W: std::io::Write>(
-- 
2.43.0


From 35a28fab773d9e90e30c76bc9756306bed2fb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 11/19] fix: integrity check let an index equal to the array
 length and NaN normals through

---
 src/verify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index a68f0e8..bff0eed 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -61,7 +61,7 @@ impl std::fmt::Debug for TMFIntegrityStatus {
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
 fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
     for index in array {
-        if *index > length as IndexType {
+        if *index >= length as IndexType {
             return Some(*index);
         }
     }
@@ -128,7 +128,7 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(normals) => {
             for normal in normals {
-                if (1.0 - magnitude(*normal)).abs() > 0.001 {
+                if !((1.0 - magnitude(*normal)).abs() <= 0.001) {
                     return Err(TMFIntegrityStatus::NormalsNotNormalized);
                 }
             }
-- 
2.43.0


From bd9c76529ef9ff913b2a1ea3376bf9ec15a0ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 12/19] fix: integrity check never reported UVs outside the
 range

---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index bff0eed..19c5b8e 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -99,7 +99,7 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(uvs) => {
             for uv in uvs {
-                if uv.0 < 0.0 && uv.1 < 0.0 && uv.0 > 1.0 && uv.1 > 1.0 {
+                if !(0.0..=1.0).contains(&uv.0) || !(0.0..=1.0).contains(&uv.1) {
                     return Err(TMFIntegrityStatus::UVOutsideRange(uv.0, uv.1));
                 }
             }
-- 
2.43.0


From 266141d96407bf0de4c715456ebcf4e50c2f8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 13/19] fix: meshes exported to .obj after a point cloud
 referenced wrong vertices

---
 src/obj.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 665f30c..259beea 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -141,6 +141,14 @@ fn save_obj<W: Write>(
             }
         }
     }
+    let normal_count = match mesh.get_normals() {
+        Some(normals) => normals.len(),
+        None => 0,
+    };
+    let uv_count = match mesh.get_uvs() {
+        Some(uvs) => uvs.len(),
+        None => 0,
+    };
     // Check triangle arrays
     // Get the length of the vertex triangle array to use for later array size comparison
     let vert_triangle_len = match mesh.get_vertex_triangles() {
@@ -156,7 +164,11 @@ fn save_obj<W: Write>(
                     "If vertex triangles data is not present, uv triangle data must not be present either!",
                 ));
             }
-            return Ok((0, 0, 0));
+            return Ok((
+                vertex_count as IndexType,
+                uv_count as IndexType,
+                normal_count as IndexType,
+            ));
         }
     };
     // Ensure normal triangle array, if present, has the right length.
@@ -203,14 +215,6 @@ fn save_obj<W: Write>(
             write!(w, " ")?
         }
     }
-    let normal_count = match mesh.get_normals() {
-        Some(normals) => normals.len(),
-        None => 0,
-    };
-    let uv_count = match mesh.get_uvs() {
-        Some(uvs) => uvs.len(),
-        None => 0,
-    };
     // If no vertices present, then no vertex triangles SHOULD be present, so if they are present, it is an error.
     Ok((
         vertex_count as IndexType,
-- 
2.43.0


From 87ac2b6911c75364865c5d2b20f37a34a63a9b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 14/19] fix: triangulation picked a wrong neighbour for the
 first point of a polygon

---
 src/triangulation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triangulation.rs b/src/triangulation.rs
index bde76a0..d8a733d 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -37,7 +37,7 @@ fn calc_ear_val_at_index(
     vertices: &[Vector3],
 ) -> FloatType {
     let tri = (
-        index.wrapping_sub(1) % indices.len(),
+        (index + indices.len() - 1) % indices.len(),
         index,
         index.wrapping_add(1) % indices.len(),
     );
@@ -66,7 +66,7 @@ fn triangulate(
                 best_index = index;
             }
         }
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         let curr_index = best_index;
         let next_index = best_index.wrapping_add(1) % vertex_indices.len();
         
@@ -89,7 +89,7 @@ fn triangulate(
         ear_vals.remove(curr_index);
         
         let curr_index = curr_index % vertex_indices.len();
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         ear_vals[curr_index] = calc_ear_val_at_index(&vertex_indices, curr_index, &mi.vertices);
         ear_vals[prev_index] = calc_ear_val_at_index(&vertex_indices, prev_index, &mi.vertices);
         
-- 
2.43.0


From 837b18954787bdb3324a0f124f0cb8ad1d695875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 15/19] fix: triangulating a face with a dangling vertex index
 is an error

---
 src/model_importer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 7a3e8b3..c3ebce8 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -137,6 +137,12 @@ impl ModelImporter {
                 }
                 #[cfg(feature = "triangulation")]
                 {
+                    if vertex_indices
+                        .iter()
+                        .any(|index| *index as usize >= self.vertices.len())
+                    {
+                        return Err("Face index is outside the vertex array".to_owned());
+                    }
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
                     let normal_indices = SmallVec::from_slice(normal_indices);
                     let uv_indices = SmallVec::from_slice(uv_indices);
-- 
2.43.0


From 70ef4f8d5e2e071d7c53e5e7447b0bf5c0d253c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 16/19] fix: normalizing a zero length normal produced NaN

---
 src/utilis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 174a7fc..05bd031 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -59,7 +59,7 @@ pub(crate) fn normalize(i: Vector3) -> Vector3 {
     let yy = i.1 * i.1;
     let zz = i.2 * i.2;
     let mag = (xx + yy + zz).sqrt();
-    if mag.is_nan() {
+    if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
     } else {
         (i.0 / mag, i.1 / mag, i.2 / mag)
-- 
2.43.0


From 7fced22fd8322844fd28840b7649af23d14663fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 17/19] fix: meshes smaller than the minimal size were saved
 with a wrong scale

---
 src/vertices.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index a305e4d..52b4acc 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -64,9 +64,9 @@ pub fn save_tmf_vertices<W: Write>(
     let sy = max_y - min_y;
     let sz = max_z - min_z;
     // Ensure model size is not 0(prevents bugs)
-    let sx = sx.max(0.000_001);
-    let sy = sy.max(0.000_001);
-    let sz = sz.max(0.000_001);
+    let sx = if sx > 0.0 { sx } else { 0.000_001 };
+    let sy = if sy > 0.0 { sy } else { 0.000_001 };
+    let sz = if sz > 0.0 { sz } else { 0.000_001 };
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-- 
2.43.0


From 5e048063e1449f9760c7765f1457c3aa679511d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 18/19] fix: runs of blanks and tabs in .obj lines were misread

Two blanks between the corners of a face made it name other elements, and
lines with tabs were skipped or refused.
---
 src/obj.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 259beea..e7f6455 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -4,10 +4,12 @@ use std::io::{BufReader, BufWriter, Error, ErrorKind, Read, Result, Write};
 pub(crate) const SMALL_VEC_CAP: usize = 8;
 fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TMFMesh, String)>> {
     let line = line?;
-    // Split the line by white spaces and '/' sign used in triangles
-    let mut split = line.split(&[' ', '/']);
+    // Split the line by white spaces, of which any number may be between words
+    let mut words = line.split(&[' ', '\t']).filter(|word| !word.is_empty());
     // Get the beginning of the line
-    let beg = match_split(split.next())?;
+    let beg = words.next().unwrap_or("");
+    // Split the words by '/' sign used in triangles
+    let mut split = words.flat_map(|word| word.split(&['/']));
     match beg {
         "#" => (), //Ignoring comments
         "mtllib" => (),
@@ -18,7 +20,7 @@ fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TM
         "vt" => oi.push_uv(load_vec2(&mut split)?),
         "f" => load_face(&mut split, oi)?,
         "o" => {
-            let name = match_split(split.next())?.to_owned();
+            let name = split.next().unwrap_or("").to_owned();
             return Ok(oi.next_mesh(name));
         }
         _ => (), //Ignore invalid/unsuported lines.
@@ -61,8 +63,9 @@ fn match_split(split: Option<&str>) -> Result<&str> {
     }
 }
 use smallvec::SmallVec;
-use std::str::Split;
-fn load_indices(split: &mut Split<&[char; 2]>) -> Result<(IndexType, IndexType, IndexType)> {
+fn load_indices<'a>(
+    split: &mut impl Iterator<Item = &'a str>,
+) -> Result<(IndexType, IndexType, IndexType)> {
     let (i0, i1, i2) = (
         match_split(split.next())?,
         match_split(split.next())?,
@@ -79,7 +82,7 @@ fn load_indices(split: &mut Split<&[char; 2]>) -> Result<(IndexType, IndexType,
     }
 }
 ///IMPORTANT TODO: It seems likey that normals and uvs are spwapped in this function. Investigate and cleanup the confusion and refactor triangulation
-fn load_face(split: &mut Split<&[char; 2]>, oi: &mut ModelImporter) -> Result<()> {
+fn load_face<'a>(split: &mut impl Iterator<Item = &'a str>, oi: &mut ModelImporter) -> Result<()> {
     let mut vertex_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
     let mut uv_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
     let mut normal_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
@@ -93,7 +96,7 @@ fn load_face(split: &mut Split<&[char; 2]>, oi: &mut ModelImporter) -> Result<()
         Err(msg) => Err(Error::new(ErrorKind::Other, msg)),
     }
 }
-pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
+pub fn load_vec3<'a>(split: &mut impl Iterator<Item = &'a str>) -> Result<Vector3> {
     let (x, y, z) = (
         match_split(split.next())?,
         match_split(split.next())?,
@@ -105,7 +108,7 @@ pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
         parse_float_type(z)?,
     ))
 }
-pub fn load_vec2(split: &mut Split<&[char; 2]>) -> Result<Vector2> {
+pub fn load_vec2<'a>(split: &mut impl Iterator<Item = &'a str>) -> Result<Vector2> {
     let (x, y) = (match_split(split.next())?, match_split(split.next())?);
     Ok((parse_float_type(x)?, parse_float_type(y)?))
 }
-- 
2.43.0


From 35234bacc1fd09f462fc0dc4601fb255054c7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 19/19] fix: compressed segments of other kinds than indices
 were read as if uncompressed

---
 src/tmf.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tmf.rs b/src/tmf.rs
index 3029058..0da719a 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -408,6 +408,12 @@ impl DecodedSegment {
         ctx: &crate::tmf_importer::TMFImportContext,
     ) -> Result<Self, TMFImportError> {
         //println!("Decoding segment of type:{:?}!",seg.seg_type());
+        // Data of any kind which is compressed must not be taken for the uncompressed form.
+        if seg.seg_type != SectionType::Invalid && seg.compresion_type != CompressionType::None {
+            return Err(TMFImportError::UnsuportedCompressionType(
+                seg.compresion_type as u8,
+            ));
+        }
         match seg.seg_type {
             SectionType::Invalid => Ok(Self::Nothing),
             SectionType::VertexSegment => decode_vertex_seg(seg).await,
-- 
2.43.0

