From e8b0b72fb3076d7fd813707a237fb314f78db0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 01/86] fix: generic MSB unpacking of rows that start inside a
 byte

BitPump::consume_bits needs bits that are already buffered; skipping the bit
offset with it on a fresh pump corrupts the pump state.
---
 rawler/src/decompressors/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/packed.rs b/rawler/src/decompressors/packed.rs
index 53fcd7e..a68372a 100644
--- a/rawler/src/decompressors/packed.rs
+++ b/rawler/src/decompressors/packed.rs
@@ -182,7 +182,7 @@ fn unpack_generic_msb<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip
   let offset = skip_bits / 8;
   let bias = skip_bits % 8;
   let mut pump = BitPumpMSB::new(&src[offset..]);
-  pump.consume_bits(bias as u32);
+  pump.get_bits(bias as u32);
   for line in lines {
     for p in line {
       *p = pump.get_bits(bits) as u16;
-- 
2.43.0


From 71498164b070a9db94dc290718305a9838a6e168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:32 +0000
Subject: [PATCH 02/86] fix: inline storage of signed and float TIFF values

A negative SBYTE or SSHORT element was sign extended over the elements after
it, and a single FLOAT was converted to an integer.
---
 rawler/src/formats/tiff/value.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ec5e4c4..e39a15c 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -861,10 +861,10 @@ impl Value {
         Self::Short(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
         Self::Long(v) => Ok(v[0]),
         Self::SByte(v) => Ok(
-          (*v.get(0).unwrap_or(&0) as u32)
-            | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-            | ((*v.get(2).unwrap_or(&0) as u32) << 16)
-            | ((*v.get(3).unwrap_or(&0) as u32) << 24),
+          (*v.get(0).unwrap_or(&0) as u8 as u32)
+            | ((*v.get(1).unwrap_or(&0) as u8 as u32) << 8)
+            | ((*v.get(2).unwrap_or(&0) as u8 as u32) << 16)
+            | ((*v.get(3).unwrap_or(&0) as u8 as u32) << 24),
         ),
         Self::Undefined(v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
@@ -872,9 +872,9 @@ impl Value {
             | ((*v.get(2).unwrap_or(&0) as u32) << 16)
             | ((*v.get(3).unwrap_or(&0) as u32) << 24),
         ),
-        Self::SShort(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
+        Self::SShort(v) => Ok((v[0] as u16 as u32) | ((*v.get(1).unwrap_or(&0) as u16 as u32) << 16)),
         Self::SLong(v) => Ok(v[0] as u32),
-        Self::Float(v) => Ok(v[0] as u32),
+        Self::Float(v) => Ok(v[0].to_bits()),
         Self::Unknown(_, v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
             | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-- 
2.43.0


From 2921ba63adc2276d2e5701256bc03cf19d404a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 03/86] fix: read monochrome DNG files, which have no CFA
 pattern

---
 rawler/src/decoders/dng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 0003314..8c827a2 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -258,8 +258,9 @@ impl<'a> DngDecoder<'a> {
       None
     };
 
-    let linear = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 34892;
-    let cfa = if linear { CFA::default() } else { self.get_cfa(raw)? };
+    // Only CFA images carry a CFA pattern, linear and monochrome images don't.
+    let is_cfa = fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_usize(0) == 32803;
+    let cfa = if is_cfa { self.get_cfa(raw)? } else { CFA::default() };
     let color_matrix = self.get_color_matrix()?;
     let real_bps = if raw.has_entry(TiffCommonTag::Linearization) {
       // If DNG contains linearization table, output is always 16 bits
-- 
2.43.0


From 040b5344ce3c5036f2ea2acb8c364deb0e7649ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 04/86] fix: RowsPerStrip of uncompressed DNG images is a
 single value

---
 rawler/src/dng/writer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 1bbed0f..34bd605 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -652,7 +652,6 @@ where
 {
   let mut strip_offsets: Vec<u32> = Vec::new();
   let mut strip_sizes: Vec<u32> = Vec::new();
-  let mut strip_rows: Vec<u32> = Vec::new();
 
   let rows_per_strip = if rawimage.height > rawler_dng_multistrip_threshold().unwrap_or(100) {
     rawler_dng_rows_per_strip().unwrap_or(256)
@@ -666,7 +665,6 @@ where
         let offset = subframe.writer.dng.write_data_u16_le(strip)?;
         strip_offsets.push(offset);
         strip_sizes.push(std::mem::size_of_val(strip) as u32);
-        strip_rows.push((strip.len() / (rawimage.width * rawimage.cpp)) as u32);
       }
       subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![1_u16; rawimage.cpp]); // Unsigned Integer
       subframe.ifd_mut().add_tag(TiffCommonTag::BitsPerSample, &vec![16_u16; rawimage.cpp]);
@@ -676,7 +674,6 @@ where
         let offset = subframe.writer.dng.write_data_f32_le(strip)?;
         strip_offsets.push(offset);
         strip_sizes.push(std::mem::size_of_val(strip) as u32);
-        strip_rows.push((strip.len() / (rawimage.width * rawimage.cpp)) as u32);
       }
       subframe.ifd_mut().add_tag(TiffCommonTag::SampleFormat, &vec![3_u16; rawimage.cpp]); // IEEE Float
       subframe.ifd_mut().add_tag(TiffCommonTag::BitsPerSample, &vec![32_u16; rawimage.cpp]);
@@ -684,7 +681,7 @@ where
   };
   subframe.ifd_mut().add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
   subframe.ifd_mut().add_tag(TiffCommonTag::StripByteCounts, &strip_sizes);
-  subframe.ifd_mut().add_tag(TiffCommonTag::RowsPerStrip, &strip_rows);
+  subframe.ifd_mut().add_tag(TiffCommonTag::RowsPerStrip, rows_per_strip as u32);
 
   Ok(())
 }
-- 
2.43.0


From c88485a95649c6659633ee223ff2ef482de72e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:51 +0000
Subject: [PATCH 05/86] fix: CFA pattern of DNG files with an active area
 offset, for patterns larger than 2x2

---
 rawler/src/decoders/dng.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 8c827a2..e38863e 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -356,7 +356,8 @@ impl<'a> DngDecoder<'a> {
     if let Some(active_area) = self.get_active_area_borders(raw) {
       let top = active_area[0];
       let left = active_area[1];
-      Ok(cfa.shift(left % cfa.width, top % cfa.height))
+      // This is the inverse of shifting by (left, top).
+      Ok(cfa.shift(cfa.width - left % cfa.width, cfa.height - top % cfa.height))
     } else {
       Ok(cfa)
     }
-- 
2.43.0


From 66676d4070689934c774d16d21de91cbac8f8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:09 +0000
Subject: [PATCH 06/86] fix: black level pattern of DNG files with an active
 area offset

---
 rawler/src/decoders/dng.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index e38863e..98859e9 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -328,7 +328,14 @@ impl<'a> DngDecoder<'a> {
           log::warn!("File has BlackLevelRepeatDim tag but with invalid length: {}", value.len());
         }
       }
-      Ok(Some(BlackLevel::new(&levels, repeat.1, repeat.0, cpp)))
+      let blacklevel = BlackLevel::new(&levels, repeat.1, repeat.0, cpp);
+      // Like the CFA pattern, the black level pattern of a DNG is relative to ActiveArea,
+      // but we use (0, 0) as starting point.
+      if let Some([top, left, _, _]) = self.get_active_area_borders(raw) {
+        let (w, h) = (blacklevel.width.max(1), blacklevel.height.max(1));
+        return Ok(Some(blacklevel.shift(w - left % w, h - top % h)));
+      }
+      Ok(Some(blacklevel))
     } else {
       Ok(None)
     }
-- 
2.43.0


From 338155317baaa03712573dd714ef564c1fcb612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 07/86] fix: linearization table lookup wraps around at the
 ends of the range

---
 rawler/src/bits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index bf2a1de..9f68b82 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -219,7 +219,7 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 { table[i - 1] } else { center };
       let upper = if i < (table.len() - 1) { table[i + 1] } else { center };
-      let base = if center == 0 { 0 } else { center - ((upper - lower + 2) / 4) };
+      let base = if center == 0 { 0 } else { center.saturating_sub((upper - lower + 2) / 4) };
       let delta = upper - lower;
       tbl[i] = (center, base, delta);
     }
@@ -250,7 +250,7 @@ impl LookupTable {
     let delta = sdelta as u32;
     let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    pixel.min(u16::MAX as u32) as u16
   }
 }
 
-- 
2.43.0


From c171e76862cccd8631520024a4c6586ff0a57f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 08/86] fix: subnormal 32-bit floats in deflated DNG tiles
 decode to garbage

---
 rawler/src/bits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index 9f68b82..bf10b55 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -318,6 +318,10 @@ pub(crate) type Binary24 = BinaryN<24, 16, 7>;
 pub(crate) type Binary32 = BinaryN<32, 23, 8>;
 
 pub(crate) fn extend_binary_floating_point<NARROW: FloatingPointParameters, WIDE: FloatingPointParameters>(value: u32) -> u32 {
+  if NARROW::STORAGE_WIDTH == WIDE::STORAGE_WIDTH {
+    // Nothing to extend, subnormal numbers have no normalized representation here.
+    return value;
+  }
   let sign = (value >> NARROW::SIGN_BIT_POS) & 1;
   let narrow_exponent = (value >> NARROW::EXPONENT_POS) & ((1 << NARROW::EXPONENT_WIDTH) - 1);
   let narrow_fraction = value & ((1 << NARROW::FRACTION_WIDTH) - 1);
-- 
2.43.0


From 0616bb024c19bc4914ab6d954c5027a9e9fb3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 09/86] fix: accept strip and tile offsets and byte counts of
 type SHORT

---
 rawler/src/formats/tiff/ifd.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 5b5239a..3eafbdb 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -508,16 +508,8 @@ impl IFD {
     if !self.has_entry(TiffCommonTag::StripOffsets) {
       return Err(TiffError::General("IFD contains no strip data".into()));
     }
-    let offsets = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::StripOffsets) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for StripOffsets".to_string()));
-    };
-    let sizes = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::StripByteCounts) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for StripByteCounts".to_string()));
-    };
+    let offsets = self.offset_values(TiffCommonTag::StripOffsets)?;
+    let sizes = self.offset_values(TiffCommonTag::StripByteCounts)?;
 
     if offsets.len() != sizes.len() {
       return Err(TiffError::General(format!(
@@ -550,18 +542,19 @@ impl IFD {
     Ok((subviews, continous))
   }
 
+  /// Offsets and byte counts are either of type SHORT or LONG.
+  fn offset_values(&self, tag: TiffCommonTag) -> Result<Vec<u32>> {
+    match self.get_entry(tag).map(|entry| &entry.value) {
+      Some(Value::Long(data)) => Ok(data.clone()),
+      Some(Value::Short(data)) => Ok(data.iter().map(|v| *v as u32).collect()),
+      _ => Err(TiffError::General(format!("Invalid datatype for {:?}", tag))),
+    }
+  }
+
   pub fn tile_data<'a>(&self, rawsource: &'a RawSource) -> Result<Vec<&'a [u8]>> {
-    let offsets = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::TileOffsets) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for TileOffsets".to_string()));
-    };
+    let offsets = self.offset_values(TiffCommonTag::TileOffsets)?;
 
-    let byte_counts = if let Some(Entry { value: Value::Long(data), .. }) = self.get_entry(TiffCommonTag::TileByteCounts) {
-      data
-    } else {
-      return Err(TiffError::General("Invalid datatype for TileByteCounts".to_string()));
-    };
+    let byte_counts = self.offset_values(TiffCommonTag::TileByteCounts)?;
 
     let mut tile_slices = Vec::with_capacity(offsets.len());
     offsets.iter().zip(byte_counts.iter()).for_each(|(offset, size)| {
-- 
2.43.0


From 2f664fbbdaf98bdbed28a39f12b3770a765ecea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:40 +0000
Subject: [PATCH 10/86] fix: PPG demosaic of images narrower or lower than six
 pixels

---
 rawler/src/imgop/sensor/bayer/ppg.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rawler/src/imgop/sensor/bayer/ppg.rs b/rawler/src/imgop/sensor/bayer/ppg.rs
index 7fb0cf7..6fa9562 100644
--- a/rawler/src/imgop/sensor/bayer/ppg.rs
+++ b/rawler/src/imgop/sensor/bayer/ppg.rs
@@ -77,7 +77,7 @@ fn interpolate_borders(input: &mut RgbF32, shifted: &CFA) {
     while col < w {
       // Full process first 3 and last 3 rows, process only left and right 3 pixels for all other
       if col == 3 && row >= 3 && row < h - 3 {
-        col = w - 3 // go to right border
+        col = col.max(w.saturating_sub(3)) // go to right border, never back to the left
       }
       // Store the pixel sum and count for each RGB channel (R=0, G=1, B=2)
       let mut sum = [(0.0, 0_usize); 3];
@@ -117,8 +117,8 @@ fn interpolate_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let ch = shifted.color_at(row, col); // It's R or B
         let x = pixel[ch];
@@ -176,8 +176,8 @@ fn interpolate_rb_at_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) == CFA_COLOR_G {
         let h_ch = shifted.color_at(row, col + 1); // horizontal corresponding channel
         let v_ch = shifted.color_at(row + 1, col); // vertical corresponding channel
@@ -213,8 +213,8 @@ fn interpolate_rb_at_non_green(img: &mut RgbF32, shifted: &CFA) {
   // image. This is not possible in Rust without unsafe code.
   let dataptr = img.data_ptr();
 
-  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h - 6).for_each(|(row, buf)| {
-    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w - 6) {
+  img.pixels_mut().par_chunks_exact_mut(w).enumerate().skip(3).take(h.saturating_sub(6)).for_each(|(row, buf)| {
+    for (col, pixel) in buf.iter_mut().enumerate().skip(3).take(w.saturating_sub(6)) {
       if shifted.color_at(row, col) != CFA_COLOR_G {
         let x_ch = shifted.color_at(row, col); // current
         let y_ch = if x_ch == CFA_COLOR_R { CFA_COLOR_B } else { CFA_COLOR_R };
-- 
2.43.0


From bad65477e3235c813117f58b66c7f08852387b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:27 +0000
Subject: [PATCH 11/86] fix: report the number of bytes of a whole recovered
 original

---
 rawler/src/dng/original.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index 4e40ee5..c2ecd97 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -68,7 +68,7 @@ impl OriginalCompressed {
     for chunk in self.chunks.iter().map(ForkBlock::decompress) {
       let buf = chunk?;
       stream.write_all(&buf)?;
-      total = buf.len();
+      total += buf.len();
       ctx.consume(&buf);
     }
 
-- 
2.43.0


From 5ef3a48f00820df0d0be1b1f85d735efb349c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:58 +0000
Subject: [PATCH 12/86] fix: scale the last row and column of CFA images with
 odd dimensions

---
 rawler/src/imgop/raw.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/rawler/src/imgop/raw.rs b/rawler/src/imgop/raw.rs
index bc49b0c..1cdd649 100644
--- a/rawler/src/imgop/raw.rs
+++ b/rawler/src/imgop/raw.rs
@@ -175,17 +175,22 @@ pub fn correct_blacklevel_cfa(raw: &mut [f32], width: usize, _height: usize, bla
   let clip = |v: f32| {
     if v.is_sign_negative() { 0.0 } else { v }
   };
-  // Process two bayer lines at once.
-  raw.par_chunks_exact_mut(width * 2).for_each(|lines| {
-    // It's bayer data, so we have two lines for sure.
-    let (line0, line1) = lines.split_at_mut(width);
-    //line0.array_chunks_mut::<2>().zip(line1.array_chunks_mut::<2>()).for_each(|(a, b)| {
-    line0.chunks_exact_mut(2).zip(line1.chunks_exact_mut(2)).for_each(|(a, b)| {
-      a[0] = clip(a[0] - blacklevel[0]) / max[0];
-      a[1] = clip(a[1] - blacklevel[1]) / max[1];
-      b[0] = clip(b[0] - blacklevel[2]) / max[2];
-      b[1] = clip(b[1] - blacklevel[3]) / max[3];
+  let scale_line = |line: &mut [f32], ch: usize| {
+    let mut pairs = line.chunks_exact_mut(2);
+    pairs.by_ref().for_each(|p| {
+      p[0] = clip(p[0] - blacklevel[ch]) / max[ch];
+      p[1] = clip(p[1] - blacklevel[ch + 1]) / max[ch + 1];
     });
+    // Last column if the width is odd.
+    if let [p] = pairs.into_remainder() {
+      *p = clip(*p - blacklevel[ch]) / max[ch];
+    }
+  };
+  // Process two bayer lines at once. If the height is odd, the last one is alone.
+  raw.par_chunks_mut(width * 2).for_each(|lines| {
+    let (line0, line1) = lines.split_at_mut(width);
+    scale_line(line0, 0);
+    scale_line(line1, 2);
   });
 }
 
-- 
2.43.0


From 6f11a5caf8df19484f28f7decb10150fbea76d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:16 +0000
Subject: [PATCH 13/86] fix: apply black levels of monochrome images and of any
 pattern dimension

---
 rawler/src/imgop/raw.rs | 15 +++++++++++++++
 rawler/src/rawimage.rs  | 24 +++++++++++++++++++++---
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/rawler/src/imgop/raw.rs b/rawler/src/imgop/raw.rs
index 1cdd649..e0e6c1d 100644
--- a/rawler/src/imgop/raw.rs
+++ b/rawler/src/imgop/raw.rs
@@ -194,6 +194,21 @@ pub fn correct_blacklevel_cfa(raw: &mut [f32], width: usize, _height: usize, bla
   });
 }
 
+/// Correct data by a blacklevel pattern of any dimension and whitelevels per channel.
+///
+/// If there are less levels than channels, the last one is used for the remaining channels.
+pub(crate) fn correct_blacklevel_repeat(raw: &mut [f32], width: usize, cpp: usize, blacklevel: &BlackLevel, whitelevel: &[f32]) {
+  let black = blacklevel.as_vec();
+  raw.par_chunks_mut(width * cpp).enumerate().for_each(|(row, line)| {
+    for (i, p) in line.iter_mut().enumerate() {
+      let (col, ch) = (i / cpp, i % cpp);
+      let b = black[((row % blacklevel.height) * blacklevel.width + col % blacklevel.width) * blacklevel.cpp + ch.min(blacklevel.cpp - 1)];
+      let w = whitelevel[ch.min(whitelevel.len() - 1)];
+      *p = (*p - b).max(0.0) / (w - b);
+    }
+  });
+}
+
 #[multiversion(targets("x86_64+avx+avx2", "x86+sse", "aarch64+neon"))]
 pub(crate) fn map_3ch_to_rgb(src: &Color2D<f32, 3>, wb_coeff: &[f32; 4], xyz2cam: [[f32; 3]; 4]) -> RgbF32 {
   let rgb2cam = normalize(multiply(&xyz2cam, &SRGB_TO_XYZ_D65));
diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 510f2e7..41bb1ee 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -9,7 +9,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::Result;
 use crate::cfa::PlaneColor;
-use crate::imgop::raw::{correct_blacklevel, correct_blacklevel_cfa};
+use crate::imgop::raw::{correct_blacklevel, correct_blacklevel_cfa, correct_blacklevel_repeat};
 use crate::imgop::sensor::SensorType;
 use crate::imgop::{convert_from_f32_scaled_u16, convert_to_f32_unscaled};
 use crate::pixarray::SubPixel;
@@ -519,7 +519,15 @@ impl RawImage {
   pub fn apply_scaling(&mut self) -> crate::Result<()> {
     let mut pixels = self.data.as_f32();
     match &self.photometric {
-      RawPhotometricInterpretation::BlackIsZero => todo!(),
+      // Black level pattern that is not handled by the specialized versions below.
+      _ if !self.has_simple_levels() => {
+        let white = match &self.photometric {
+          RawPhotometricInterpretation::Cfa(_) => vec![self.whitelevel.as_bayer_array()[0]; self.cpp],
+          _ => self.whitelevel.as_vec(),
+        };
+        correct_blacklevel_repeat(pixels.to_mut(), self.width, self.cpp, &self.blacklevel, &white);
+        self.data = RawImageData::Float(pixels.into_owned());
+      }
       RawPhotometricInterpretation::Cfa(_) => {
         correct_blacklevel_cfa(
           pixels.to_mut(),
@@ -530,7 +538,7 @@ impl RawImage {
         );
         self.data = RawImageData::Float(pixels.into_owned());
       }
-      RawPhotometricInterpretation::LinearRaw => {
+      RawPhotometricInterpretation::BlackIsZero | RawPhotometricInterpretation::LinearRaw => {
         correct_blacklevel(pixels.to_mut(), &self.blacklevel.as_vec(), &self.whitelevel.as_vec());
         self.data = RawImageData::Float(pixels.into_owned());
       }
@@ -540,6 +548,16 @@ impl RawImage {
     Ok(())
   }
 
+  /// True if there is one black level per channel, or a bayer pattern for CFA images.
+  fn has_simple_levels(&self) -> bool {
+    let level = &self.blacklevel;
+    let dim = (level.width, level.height);
+    match &self.photometric {
+      RawPhotometricInterpretation::Cfa(_) => level.sample_count() == 1 || (level.cpp == 1 && dim == (2, 2)),
+      _ => dim == (1, 1) && level.cpp == self.cpp && self.whitelevel.0.len() == self.cpp,
+    }
+  }
+
   pub fn develop_params(&self) -> Result<DevelopParams> {
     let mut xyz2cam: [[f32; 3]; 4] = [[0.0; 3]; 4];
     //let color_matrix = self.color_matrix.get(&Illuminant::D65).unwrap(); // TODO fixme
-- 
2.43.0


From 9275edc111e362d081cb61dccc7f18329c9ce5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:55 +0000
Subject: [PATCH 14/86] fix: default white level of floating point DNG images
 is 1.0

---
 rawler/src/decoders/dng.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 98859e9..6cab8d2 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -57,7 +57,12 @@ impl<'a> Decoder for DngDecoder<'a> {
     }
 
     let blacklevel = self.get_blacklevels(raw)?;
-    let whitelevel = self.get_whitelevels(raw)?.or(Some(WhiteLevel::new_bits(bits, cpp)));
+    let default_white = match SampleFormat::extract(raw)? {
+      // DNG defines 1.0 as default for floating point images.
+      Some(SampleFormat::IEEEFP) => WhiteLevel::new(vec![1; cpp]),
+      _ => WhiteLevel::new_bits(bits, cpp),
+    };
+    let whitelevel = self.get_whitelevels(raw)?.or(Some(default_white));
 
     let photometric = match fetch_tiff_tag!(raw, TiffCommonTag::PhotometricInt).force_u32(0) {
       1 => RawPhotometricInterpretation::BlackIsZero,
-- 
2.43.0


From 16d72a5fd9c84124f4fbc3b89d54e1ec6e607a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:48 +0000
Subject: [PATCH 15/86] fix: read lens make, model and specification from EXIF

---
 rawler/src/exif.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/exif.rs b/rawler/src/exif.rs
index 6e0e2ce..33bf15a 100644
--- a/rawler/src/exif.rs
+++ b/rawler/src/exif.rs
@@ -161,6 +161,9 @@ impl Exif {
           (ExifTag::OwnerName, Value::Ascii(data)) => self.owner_name = data.strings().get(0).map(trim),
           (ExifTag::SerialNumber, Value::Ascii(data)) => self.serial_number = data.strings().get(0).map(trim),
           (ExifTag::LensSerialNumber, Value::Ascii(data)) => self.lens_serial_number = data.strings().get(0).map(trim),
+          (ExifTag::LensSpecification, Value::Rational(data)) => self.lens_spec = data.clone().try_into().ok(),
+          (ExifTag::LensMake, Value::Ascii(data)) => self.lens_make = data.strings().get(0).map(trim),
+          (ExifTag::LensModel, Value::Ascii(data)) => self.lens_model = data.strings().get(0).map(trim),
           (ExifTag::UserComment, Value::Ascii(data)) => self.user_comment = data.strings().get(0).map(trim),
           //(ExifTag::MakerNotes, Value::Undefined(data)) => self.makernotes = Some(data.clone()),
           (tag, _value) => {
-- 
2.43.0


From 5a91af2d0124714a32ba146245fea6951131634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:48 +0000
Subject: [PATCH 16/86] fix: do not write an invalid orientation of 0 if the
 source has none

---
 rawler/src/dng/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rawler/src/dng/convert.rs b/rawler/src/dng/convert.rs
index 9cb0bb3..fdc0436 100644
--- a/rawler/src/dng/convert.rs
+++ b/rawler/src/dng/convert.rs
@@ -10,7 +10,7 @@ use std::{
 use image::DynamicImage;
 
 use crate::{
-  RawImage, RawImageData,
+  Orientation, RawImage, RawImageData,
   decoders::{Decoder, RawDecodeParams, RawPhotometricInterpretation, WellKnownIFD, WhiteLevel},
   dng::{DNG_VERSION_V1_4, PREVIEW_JPEG_QUALITY, original::OriginalCompressed, writer::DngWriter},
   formats::tiff::Entry,
@@ -190,7 +190,7 @@ where
   // Write metadata
   dng.load_base_tags(&rawimage)?;
   dng.load_metadata(&metadata)?;
-  if !dng.root_ifd().contains(ExifTag::Orientation) {
+  if !dng.root_ifd().contains(ExifTag::Orientation) && rawimage.orientation != Orientation::Unknown {
     dng.root_ifd_mut().add_tag(ExifTag::Orientation, rawimage.orientation.to_u16());
   }
 
-- 
2.43.0


From ff7f0d88191fb692df2ab6ff3fa34de33210e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:05 +0000
Subject: [PATCH 17/86] fix: conversion panics on metadata values without any
 element

---
 rawler/src/formats/tiff/writer.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rawler/src/formats/tiff/writer.rs b/rawler/src/formats/tiff/writer.rs
index 2d738a7..9efd40f 100644
--- a/rawler/src/formats/tiff/writer.rs
+++ b/rawler/src/formats/tiff/writer.rs
@@ -180,7 +180,7 @@ impl DirectoryWriter {
 
   pub fn copy<'a>(&mut self, iter: impl Iterator<Item = (&'a u16, &'a Value)>) {
     for entry in iter {
-      if !self.entries.contains_key(entry.0) {
+      if !self.entries.contains_key(entry.0) && entry.1.count() > 0 {
         self.add_untyped_tag(*entry.0, entry.1.clone());
       }
     }
@@ -395,8 +395,11 @@ where
   T: TiffTag,
   V: Into<Value> + Clone,
 {
-  if let Some(entry) = entry {
-    ifd.add_tag(tag, entry.clone());
+  if let Some(value) = entry.clone().map(Into::<Value>::into) {
+    // Values without any element can't be stored.
+    if value.count() > 0 {
+      ifd.add_value(tag, value);
+    }
   }
   Ok(())
 }
@@ -405,7 +408,9 @@ pub(crate) fn transfer_entry_undefined<T>(ifd: &mut DirectoryWriter, tag: T, ent
 where
   T: TiffTag,
 {
-  if let Some(entry) = entry {
+  if let Some(entry) = entry
+    && !entry.is_empty()
+  {
     ifd.add_tag_undefined(tag, entry.clone());
   }
   Ok(())
-- 
2.43.0


From 78868a4d8838c0314bcacdfbcc4b08b09283372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:50 +0000
Subject: [PATCH 18/86] fix: active area crop of images that need no demosaic

---
 rawler/src/imgop/develop.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 96d7e44..e310543 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -185,7 +185,11 @@ impl RawDevelop {
       _ => todo!(),
     };
 
-    if self.steps.contains(&ProcessingStep::Demosaic) {
+    // The demosaic step includes cropping to the active area.
+    let demosaic =
+      self.steps.contains(&ProcessingStep::Demosaic) && rawimage.cpp == 1 && matches!(rawimage.photometric, RawPhotometricInterpretation::Cfa(_));
+
+    if demosaic {
       intermediate = match &rawimage.photometric {
         RawPhotometricInterpretation::Cfa(config) => {
           if let Intermediate::Monochrome(pixels) = intermediate {
@@ -225,6 +229,14 @@ impl RawDevelop {
         }
         _ => intermediate,
       };
+    } else if self.steps.contains(&ProcessingStep::CropActiveArea)
+      && let Some(active_area) = rawimage.active_area
+    {
+      intermediate = match intermediate {
+        Intermediate::Monochrome(pixels) => Intermediate::Monochrome(pixels.crop(active_area)),
+        Intermediate::ThreeColor(pixels) => Intermediate::ThreeColor(pixels.crop(active_area)),
+        Intermediate::FourColor(pixels) => Intermediate::FourColor(pixels.crop(active_area)),
+      };
     }
 
     if self.steps.contains(&ProcessingStep::Calibrate) {
@@ -290,8 +302,8 @@ impl RawDevelop {
       log::debug!("Crop: {:?}", rawimage.crop_area);
       log::debug!("active_area: {:?}", rawimage.active_area);
       if let Some(mut crop) = rawimage.crop_area.or(rawimage.active_area) {
-        if self.steps.contains(&ProcessingStep::Demosaic) && self.steps.contains(&ProcessingStep::CropActiveArea) {
-          // If active area crop was already applied during demosaic, we need to
+        if self.steps.contains(&ProcessingStep::CropActiveArea) {
+          // If active area crop was already applied, we need to
           // adapt default crop to active area crop.
           if let Some(active_area) = &rawimage.active_area {
             crop = crop.adapt(active_area);
-- 
2.43.0


From 41ef862a05929d877cc7751929de99d757398da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:14 +0000
Subject: [PATCH 19/86] fix: direction of Bradford adaption of color matrices

A color matrix maps XYZ to camera space. To make it usable for XYZ values
under another illuminant, these values must be adapted to the illuminant of
the matrix first, not the other way round.
---
 rawler/src/imgop/chromatic_adaption.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/chromatic_adaption.rs b/rawler/src/imgop/chromatic_adaption.rs
index 79b71b5..148065d 100644
--- a/rawler/src/imgop/chromatic_adaption.rs
+++ b/rawler/src/imgop/chromatic_adaption.rs
@@ -75,8 +75,12 @@ pub fn bradford_adaption_matrix(src_illu: &Illuminant, dst_illu: &Illuminant) ->
   multiply(&multiply(&BRADFORD_ADAPTION_INVERSE, &diag), &BRADFORD_ADAPTION)
 }
 
+/// Adapt a XYZ to camera matrix made for `src_illu` to `dst_illu`.
+///
+/// The result takes XYZ values under `dst_illu`. These must be adapted to `src_illu`
+/// before `src_matrix` is applied.
 pub fn adapt_bradford(src_illu: &Illuminant, dst_illu: &Illuminant, src_matrix: &[[f32; 3]; 3]) -> [[f32; 3]; 3] {
-  let adaption = bradford_adaption_matrix(src_illu, dst_illu);
+  let adaption = bradford_adaption_matrix(dst_illu, src_illu);
   multiply(src_matrix, &adaption)
 }
 
-- 
2.43.0


From b2b044f5061799dfddc7834199d11d1abc9912d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:04 +0000
Subject: [PATCH 20/86] fix: deinterleaving of images with odd dimensions or
 several components

---
 rawler/src/decoders/mod.rs |  2 +-
 rawler/src/pixarray.rs     | 39 ++++++++++++++------------------------
 2 files changed, 15 insertions(+), 26 deletions(-)

diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index 8d576b4..55c2972 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -665,7 +665,7 @@ pub fn plain_image_from_ifd(ifd: &IFD, rawsource: &RawSource) -> Result<RawImage
         (1, 1) => {}
         (2, 2) => {
           // Make sure pixbuf is properly cropped (e.g. LJPEG padding)
-          pixbuf = deinterleave2x2(&pixbuf)?;
+          pixbuf = deinterleave2x2(&pixbuf, cpp)?;
         }
         _ => todo!(),
       }
diff --git a/rawler/src/pixarray.rs b/rawler/src/pixarray.rs
index 9f46fac..0efff99 100644
--- a/rawler/src/pixarray.rs
+++ b/rawler/src/pixarray.rs
@@ -232,42 +232,31 @@ where
 }
 
 #[multiversion(targets("x86_64+avx+avx2", "x86+sse", "aarch64+neon"))]
-pub(crate) fn deinterleave2x2<T>(pixbuf: &Pix2D<T>) -> std::result::Result<Pix2D<T>, String>
+pub(crate) fn deinterleave2x2<T>(pixbuf: &Pix2D<T>, cpp: usize) -> std::result::Result<Pix2D<T>, String>
 where
   T: SubPixel,
 {
   if pixbuf.initialized {
     let line_width = pixbuf.width;
 
-    let half_width = line_width / 2;
-    let line_distance = line_width;
-    let ch0 = &pixbuf[..];
-    let ch1 = &pixbuf[half_width..];
-    let ch2 = &pixbuf[pixbuf.len() / 2..];
-    let ch3 = &pixbuf[pixbuf.len() / 2 + half_width..];
+    // The first fields are larger if the dimension is odd.
+    let left_width = (line_width / cpp).div_ceil(2) * cpp;
+    let top_height = pixbuf.height.div_ceil(2);
 
     decompress_lines_fn(pixbuf.width, pixbuf.height, false, &|line, row| {
-      let src_row = row / 2;
-      let offset = src_row * line_distance;
-      let ch_a;
-      let ch_b;
-      if row & 1 == 0 {
-        // For even rows, we take top-left and top-right channel data.
-        ch_a = &ch0[offset..offset + half_width];
-        ch_b = &ch1[offset..offset + half_width];
-      } else {
-        // For odd rows, we take bottom-left and bottom-right channel data.
-        ch_a = &ch2[offset..offset + half_width];
-        ch_b = &ch3[offset..offset + half_width];
-      }
+      // For even rows, we take top-left and top-right channel data.
+      // For odd rows, we take bottom-left and bottom-right channel data.
+      let src_row = row / 2 + if row & 1 == 0 { 0 } else { top_height };
+      let (ch_a, ch_b) = pixbuf.row(src_row).split_at(left_width);
 
-      debug_assert_eq!(ch_a.len(), ch_b.len());
       debug_assert_eq!(ch_a.len() + ch_b.len(), line.len());
       debug_assert_eq!(line_width, line.len());
-      line.chunks_exact_mut(2).zip(ch_a.iter().zip(ch_b.iter())).for_each(|(dst, (a, b))| {
-        dst[0] = *a;
-        dst[1] = *b;
-      });
+      for (dst, src) in line.chunks_exact_mut(cpp).step_by(2).zip(ch_a.chunks_exact(cpp)) {
+        dst.copy_from_slice(src);
+      }
+      for (dst, src) in line.chunks_exact_mut(cpp).skip(1).step_by(2).zip(ch_b.chunks_exact(cpp)) {
+        dst.copy_from_slice(src);
+      }
       Ok(())
     })
   } else {
-- 
2.43.0


From 4e897221291f738f3a7b9f79a16b6de36c9e6cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:07 +0000
Subject: [PATCH 21/86] fix: colors of a remapped CFA are mapped twice outside
 of its first tile

---
 rawler/src/cfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/cfa.rs b/rawler/src/cfa.rs
index 1629410..cd2b794 100644
--- a/rawler/src/cfa.rs
+++ b/rawler/src/cfa.rs
@@ -156,7 +156,7 @@ impl CFA {
     let mut copy = self.clone();
     for row in 0..48 {
       for col in 0..48 {
-        copy.pattern[row][col] = op(row % self.height, col % self.width, copy.pattern[row % self.height][col % self.width]);
+        copy.pattern[row][col] = op(row % self.height, col % self.width, self.pattern[row][col]);
       }
     }
     copy
-- 
2.43.0


From e167533c5a7058201cd936e64d1f75db84ba0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:46 +0000
Subject: [PATCH 22/86] fix: Panasonic RW2 packet at the split of a block takes
 a byte of the next block

The 16 byte packet at 0x2000..0x2010 lies across the split point. A sample
that needs bits of both its bytes 7 and 8 was read from the position following
the block instead of the start of the block.
---
 rawler/src/decoders/rw2/v4decompressor.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rawler/src/decoders/rw2/v4decompressor.rs b/rawler/src/decoders/rw2/v4decompressor.rs
index 2d2e205..1841227 100644
--- a/rawler/src/decoders/rw2/v4decompressor.rs
+++ b/rawler/src/decoders/rw2/v4decompressor.rs
@@ -72,11 +72,16 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
       self.nbits += 0x4000 * 8;
       self.pos += 0x4000;
     }
-    let mut byte = ((self.nbits - num) >> 3) ^ 0x3ff0;
-    if self.split {
-      byte = (byte + 0x4000 - 0x2008) % 0x4000;
-    }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    let byte = (((self.nbits - num) >> 3) ^ 0x3ff0) as usize;
+    let block = &self.buffer[self.pos - 0x4000..];
+    let bits = if self.split {
+      // The block is stored rotated, so both bytes need to be mapped
+      let lo = (byte + 0x4000 - 0x2008) % 0x4000;
+      let hi = (byte + 1 + 0x4000 - 0x2008) % 0x4000;
+      u16::from_le_bytes([block[lo], block[hi]])
+    } else {
+      LEu16(block, byte)
+    } as u32;
     (bits >> ((self.nbits - num) & 7)) & (0x0ffffffffu32 >> (32 - num))
   }
 
-- 
2.43.0


From 92cf7690c2579873ed2d4414fd37b8efe0c697d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:31 +0000
Subject: [PATCH 23/86] fix: Panasonic V6 decodes dark samples as huge values

---
 rawler/src/decoders/rw2/v6decompressor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v6decompressor.rs b/rawler/src/decoders/rw2/v6decompressor.rs
index 5396b38..6d5efb2 100644
--- a/rawler/src/decoders/rw2/v6decompressor.rs
+++ b/rawler/src/decoders/rw2/v6decompressor.rs
@@ -137,7 +137,8 @@ pub(crate) fn decode_panasonic_v6(buf: &[u8], width: usize, height: usize, bps:
               epixel = nonzero[pix % 2];
             }
           }
-          let spix = (epixel as i32).wrapping_sub(0xf);
+          // Must be unsigned, values below 0xf have to fail the comparison
+          let spix = (epixel as u32).wrapping_sub(0xf);
           if spix <= spix_compare {
             out[pix] = (spix & spix_compare) as u16;
           } else {
-- 
2.43.0


From 9c78c3109edbfaad665317ac79dd1e5d17ce659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:31 +0000
Subject: [PATCH 24/86] fix: Panasonic V7 reads 14 bit samples from 12 bit
 files

---
 rawler/src/decoders/rw2/v7decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v7decompressor.rs b/rawler/src/decoders/rw2/v7decompressor.rs
index 0ec7d9f..d42774f 100644
--- a/rawler/src/decoders/rw2/v7decompressor.rs
+++ b/rawler/src/decoders/rw2/v7decompressor.rs
@@ -30,7 +30,7 @@ pub(crate) fn decode_panasonic_v7(buf: &[u8], width: usize, height: usize, bps:
         let start = block_id * pixels_per_block;
         let out = &mut out[start..start + pixels_per_block];
         let mut pump = BitPumpLSB::new(block);
-        out.iter_mut().for_each(|pixel| *pixel = pump.get_bits(14) as u16);
+        out.iter_mut().for_each(|pixel| *pixel = pump.get_bits(bps) as u16);
       }
       Ok(())
     }),
-- 
2.43.0


From 8d643f3ba0715ec3606c59e31b3a7d66327a6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:39 +0000
Subject: [PATCH 25/86] fix: Panasonic V8 strips are read past their end

---
 rawler/src/decoders/rw2/v8decompressor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/rw2/v8decompressor.rs b/rawler/src/decoders/rw2/v8decompressor.rs
index 8c2df1b..ac6eaf4 100644
--- a/rawler/src/decoders/rw2/v8decompressor.rs
+++ b/rawler/src/decoders/rw2/v8decompressor.rs
@@ -382,7 +382,7 @@ pub(crate) fn decode_panasonic_v8(rawfile: &RawSource, width: usize, height: usi
   let total_strip_count = (params.num_of_strips_h * params.num_of_strips_v) as usize;
   let mut bitstreams = Vec::with_capacity(total_strip_count);
   for strip_id in 0..total_strip_count {
-    bitstreams.push(rawfile.subview(params.strip_byte_offsets[strip_id] as u64, (params.strip_data_size[strip_id] as u64 + 7) / 8)?);
+    bitstreams.push(rawfile.subview_padded(params.strip_byte_offsets[strip_id] as u64, (params.strip_data_size[strip_id] as u64 + 7) / 8)?);
   }
 
   // Parallel decode multiple strips
-- 
2.43.0


From 25786f8283bac22ebc1e4abaf74c08ee0f902527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 26/86] fix: TIFF values larger than the file abort the process

---
 rawler/src/formats/tiff/entry.rs  | 5 +++++
 rawler/src/formats/tiff/reader.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 6d32e95..90c851d 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -105,6 +105,11 @@ impl Entry {
       return Err(TiffError::Overflow(format!("Offset {} is invalid for tag 0x{:X}", offset, tag)));
     }
 
+    // Don't allocate memory for values that can't be in this file.
+    if bytesize > 4 && bytesize as u64 > reader.stream_len()?.saturating_sub((base + offset) as u64) {
+      return Err(TiffError::Overflow(format!("Value of tag 0x{:X} exceeds the file", tag)));
+    }
+
     reader.goto(base + offset)?;
     let entry = match typ {
       TYPE_BYTE => {
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index dc6910c..78ad505 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -291,6 +291,14 @@ impl<'a, R: Read + Seek + 'a> EndianReader<'a, R> {
     Ok(self.inner.stream_position().map(|v| v as u32)?)
   }
 
+  /// Total length of the underlying stream, position is left unchanged.
+  pub fn stream_len(&mut self) -> Result<u64> {
+    let pos = self.inner.stream_position()?;
+    let len = self.inner.seek(SeekFrom::End(0))?;
+    self.inner.seek(SeekFrom::Start(pos))?;
+    Ok(len)
+  }
+
   // TODO: try_from?
 
   pub fn goto(&mut self, offset: u32) -> Result<()> {
-- 
2.43.0


From d18adcb8a6b30ffb13093e05f20d7fbfbfbc5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:52 +0000
Subject: [PATCH 27/86] fix: cyclic TIFF directory chains never end

---
 rawler/src/formats/tiff/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index 78ad505..dc91df8 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -182,6 +182,10 @@ pub trait TiffReader {
           break;
         }
       }
+      if chain.iter().any(|ifd| ifd.offset == next_ifd) {
+        log::warn!("TIFF: IFD chain is cyclic, ignoring next IFD offset {}", next_ifd);
+        break;
+      }
     }
 
     if chain.is_empty() {
-- 
2.43.0


From 80b27d25286a1d4dacf472ab02ffb6ef89417b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:52 +0000
Subject: [PATCH 28/86] fix: an unreadable last TIFF entry garbles the next
 directory offset

---
 rawler/src/formats/tiff/ifd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 3eafbdb..f04755e 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -187,6 +187,9 @@ impl IFD {
       }
     }
 
+    // The position is unspecified if the last entry was not readable.
+    reader.goto(next_pos)?;
+
     // Some TIFF writers skip the next ifd pointer
     // If we get an I/O error, we fallback to 0, signaling the end of IFD chains.
     let next_ifd = match reader.read_u32() {
-- 
2.43.0


From 64d3fd286e56c29ee4b7b90c2a4897436e0dc4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:52 +0000
Subject: [PATCH 29/86] fix: TIFF sub-directory pointers of type IFD are
 misread

---
 rawler/src/formats/tiff/entry.rs | 6 ++++--
 rawler/src/formats/tiff/ifd.rs   | 3 ---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 90c851d..1358e42 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -25,6 +25,7 @@ const TYPE_SLONG: u16 = 9;
 const TYPE_SRATIONAL: u16 = 10;
 const TYPE_FLOAT: u16 = 11;
 const TYPE_DOUBLE: u16 = 12;
+const TYPE_IFD: u16 = 13;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct Entry {
@@ -85,7 +86,7 @@ impl Entry {
     let count = reader.read_u32()?;
 
     // If we don't know the type assume byte data (undefined)
-    let compat_typ = if typ == 0 || typ > 12 { 7 } else { typ };
+    let compat_typ = if typ == 0 || typ > 13 { 7 } else { typ };
 
     let bytesize: usize = (count as usize) << DATASHIFTS[compat_typ as usize];
     let offset: u32 = if bytesize <= 4 {
@@ -139,7 +140,8 @@ impl Entry {
           embedded: Some(offset),
         }
       }
-      TYPE_LONG => {
+      // IFD type is identical to LONG
+      TYPE_LONG | TYPE_IFD => {
         let mut v = vec![0; count as usize];
         reader.read_u32_into(&mut v)?;
         Entry {
diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index f04755e..ab59fcb 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -153,9 +153,6 @@ impl IFD {
               Value::Long(offsets) => {
                 sub_ifd_offsets.insert(tag, offsets.clone());
               }
-              Value::Unknown(tag, offsets) => {
-                sub_ifd_offsets.insert(*tag, vec![offsets[0] as u32]);
-              }
               Value::Undefined(_) => {
                 if let Some(offset) = entry.offset() {
                   sub_ifd_offsets.insert(tag, vec![offset as u32]);
-- 
2.43.0


From 5ed3aaedbbcab946fee052c5ca061f9492738b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 30/86] fix: damaged CIFF heaps panic or recurse without bounds

---
 rawler/src/formats/ciff/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/rawler/src/formats/ciff/mod.rs b/rawler/src/formats/ciff/mod.rs
index cb61299..975be3a 100644
--- a/rawler/src/formats/ciff/mod.rs
+++ b/rawler/src/formats/ciff/mod.rs
@@ -45,28 +45,47 @@ pub fn is_ciff(file: &RawSource) -> bool {
   }
 }
 
+/// Upper limit of directory entries in a file
+const MAX_CIFF_ENTRIES: usize = 4096;
+
 impl CiffIFD {
   pub fn new_file(file: &RawSource) -> Result<CiffIFD, String> {
     let data = file.as_vec().map_err(|err| format!("Failed to read whole file: {:?}", err))?;
 
+    if data.len() < 14 {
+      return Err("CIFF: File is too short".to_string());
+    }
     CiffIFD::new(&data, LEu32(&data, 2) as usize, data.len(), 1)
   }
 
   pub fn new(buf: &[u8], start: usize, end: usize, depth: u32) -> Result<CiffIFD, String> {
+    let mut budget = MAX_CIFF_ENTRIES;
+    CiffIFD::parse(buf, start, end, depth, &mut budget)
+  }
+
+  fn parse(buf: &[u8], start: usize, end: usize, depth: u32, budget: &mut usize) -> Result<CiffIFD, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
+    if end < 4 || end > buf.len() {
+      return Err(format!("CIFF: Invalid heap end {}", end));
+    }
     let valuedata_size = LEu32(buf, end - 4) as usize;
+    if start + valuedata_size + 2 > buf.len() {
+      return Err(format!("CIFF: Directory offset {} is behind EOF", start + valuedata_size));
+    }
     let dircount = LEu16(buf, start + valuedata_size) as usize;
 
     for i in 0..dircount {
+      // Directories may refer to each other, so the nesting depth alone does not bound the work.
+      *budget = budget.checked_sub(1).ok_or_else(|| "CIFF: Too many directory entries".to_string())?;
       let entry_offset: usize = start + valuedata_size + 2 + i * 10;
       let e = CiffEntry::new(buf, start, entry_offset)?;
       if e.typ == 0x2800 || e.typ == 0x3000 {
         // SubIFDs
         if depth < 10 {
           // Avoid infinite looping IFDs
-          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset + e.bytesize, depth + 1);
+          let ifd = CiffIFD::parse(buf, e.data_offset, e.data_offset + e.bytesize, depth + 1, budget);
           match ifd {
             Ok(val) => {
               subifds.push(val);
@@ -100,6 +119,9 @@ impl CiffIFD {
 
 impl CiffEntry {
   pub fn new(buf: &[u8], value_data: usize, offset: usize) -> Result<CiffEntry, String> {
+    if offset + 10 > buf.len() {
+      return Err(format!("CIFF: Entry offset {} is behind EOF", offset));
+    }
     let p = LEu16(buf, offset);
     let tag = p & 0x3fff;
     let datalocation = (p & 0xc000) as usize;
@@ -112,7 +134,9 @@ impl CiffEntry {
       0x4000 => (8, offset + 2),
       val => return Err(format!("CIFF: Don't know about data location {:x}", val)),
     };
-    let data = &buf[data_offset..data_offset + bytesize];
+    let data = buf
+      .get(data_offset..data_offset + bytesize)
+      .ok_or_else(|| format!("CIFF: Value at offset {} is behind EOF", data_offset))?;
     let count = bytesize >> CiffEntry::element_shift(typ);
 
     Ok(CiffEntry {
-- 
2.43.0


From 86dbd099b1c8d65348960a6af227612d95407246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 31/86] fix: impossible image dimensions abort the process

---
 rawler/src/pixarray.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rawler/src/pixarray.rs b/rawler/src/pixarray.rs
index 0efff99..4d08163 100644
--- a/rawler/src/pixarray.rs
+++ b/rawler/src/pixarray.rs
@@ -49,6 +49,18 @@ pub struct Pix2D<T: SubPixel> {
 pub type PixU16 = Pix2D<u16>;
 pub type PixF32 = Pix2D<f32>;
 
+/// Number of pixels for a new image buffer.
+///
+/// Image dimensions are taken from untrusted input. A failing allocation aborts
+/// the whole process, so panic instead if the buffer is too large.
+fn alloc_len<T>(width: usize, height: usize) -> usize {
+  let len = width.checked_mul(height).expect("image dimension overflow");
+  if Vec::<T>::new().try_reserve_exact(len).is_err() {
+    panic!("Unable to allocate memory for image with dimension {}x{}", width, height);
+  }
+  len
+}
+
 impl<T> Pix2D<T>
 where
   T: SubPixel,
@@ -64,7 +76,7 @@ where
   }
 
   pub fn new(width: usize, height: usize) -> Self {
-    let data = vec![T::default(); width * height];
+    let data = vec![T::default(); alloc_len::<T>(width, height)];
     Self {
       data,
       width,
@@ -74,7 +86,7 @@ where
   }
 
   pub fn new_uninit(width: usize, height: usize) -> Self {
-    let data = Vec::with_capacity(width * height);
+    let data = Vec::with_capacity(alloc_len::<T>(width, height));
     Self {
       data,
       width,
@@ -361,12 +373,12 @@ where
   }
 
   pub fn new(width: usize, height: usize) -> Self {
-    let data = vec![<[T; N]>::default(); width * height];
+    let data = vec![<[T; N]>::default(); alloc_len::<[T; N]>(width, height)];
     Self { data, width, height }
   }
 
   pub fn new_with_default(width: usize, height: usize, default: T) -> Self {
-    let data = vec![[default; N]; width * height];
+    let data = vec![[default; N]; alloc_len::<[T; N]>(width, height)];
     Self { data, width, height }
   }
 
-- 
2.43.0


From 3a1f7cb8d7fa33d162e84e5a3e4fc127329a2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 32/86] fix: damaged embedded original allocates unlimited
 memory

---
 rawler/src/dng/original.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index c2ecd97..6d1ecfd 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -48,8 +48,10 @@ impl OriginalCompressed {
         let len = end
           .checked_sub(offset)
           .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "Offset underflow"))?;
-        let mut chunk = vec![0; len as usize];
-        stream.read_exact(&mut chunk)?;
+        let mut chunk = Vec::new();
+        if stream.take(len).read_to_end(&mut chunk)? as u64 != len {
+          return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "Original data is truncated"));
+        }
         chunks.push(ForkBlock::new(chunk));
         offset = end;
       }
@@ -187,7 +189,14 @@ impl ForkBlock {
   fn decompress(&self) -> io::Result<Vec<u8>> {
     let mut decoder = Decoder::new(self.chunk.as_slice()).map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
     let mut chunk = Vec::new();
-    decoder.read_to_end(&mut chunk).map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
+    decoder
+      .by_ref()
+      .take(COMPRESS_BLOCK_SIZE as u64 + 1)
+      .read_to_end(&mut chunk)
+      .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
+    if chunk.len() > COMPRESS_BLOCK_SIZE as usize {
+      return Err(io::Error::new(io::ErrorKind::InvalidData, "Original data block is too large"));
+    }
     Ok(chunk)
   }
 }
-- 
2.43.0


From 067c4249376701baa13bca9db1afe482846accc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 33/86] fix: impossible sizes of TIFF sub-buffers abort the
 process

---
 rawler/src/formats/tiff/ifd.rs | 7 +++++--
 rawler/src/formats/tiff/mod.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index ab59fcb..de42059 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -474,9 +474,12 @@ impl IFD {
 
   pub fn sub_buf<R: Read + Seek>(&self, reader: &mut R, offset: usize, len: usize) -> Result<Vec<u8>> {
     //&buf[self.start_offset+offset..self.start_offset+offset+len]
-    let mut buf = vec![0; len];
     reader.seek(SeekFrom::Start(self.base as u64 + offset as u64))?;
-    reader.read_exact(&mut buf)?;
+    // Length is untrusted, never allocate more than available.
+    let mut buf = Vec::new();
+    if reader.take(len as u64).read_to_end(&mut buf)? != len {
+      return Err(TiffError::Io(std::io::ErrorKind::UnexpectedEof.into()));
+    }
     Ok(buf)
   }
 
diff --git a/rawler/src/formats/tiff/mod.rs b/rawler/src/formats/tiff/mod.rs
index c52dadc..ae2dba1 100644
--- a/rawler/src/formats/tiff/mod.rs
+++ b/rawler/src/formats/tiff/mod.rs
@@ -290,8 +290,11 @@ pub struct DirReader {}
 
 fn read_from_file<R: Read + Seek>(file: &mut R, offset: u32, size: usize) -> Result<Vec<u8>> {
   file.seek(SeekFrom::Start(offset as u64))?;
-  let mut buf = vec![0; size];
-  file.read_exact(&mut buf)?;
+  // Size is untrusted, never allocate more than available.
+  let mut buf = Vec::new();
+  if file.take(size as u64).read_to_end(&mut buf)? != size {
+    return Err(TiffError::Io(std::io::ErrorKind::UnexpectedEof.into()));
+  }
   Ok(buf)
 }
 
-- 
2.43.0


From 85e520da16c7440dd6a7da8035b447f9529d27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 34/86] fix: identification of damaged files must not panic

---
 rawler/src/decoders/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rawler/src/decoders/mod.rs b/rawler/src/decoders/mod.rs
index 55c2972..b057b00 100644
--- a/rawler/src/decoders/mod.rs
+++ b/rawler/src/decoders/mod.rs
@@ -899,6 +899,13 @@ impl RawLoader {
 
   /// Returns a decoder for a given buffer
   pub fn get_decoder<'b>(&'b self, rawfile: &RawSource) -> Result<Box<dyn Decoder + 'b>> {
+    match panic::catch_unwind(AssertUnwindSafe(|| self.get_decoder_unsafe(rawfile))) {
+      Ok(val) => val,
+      Err(_) => Err(RawlerError::DecoderFailed(format!("Caught a panic while identifying the file.{}", BUG))),
+    }
+  }
+
+  fn get_decoder_unsafe<'b>(&'b self, rawfile: &RawSource) -> Result<Box<dyn Decoder + 'b>> {
     if mrw::is_mrw(rawfile) {
       let dec = Box::new(mrw::MrwDecoder::new(rawfile, self)?);
       return Ok(dec as Box<dyn Decoder>);
-- 
2.43.0


From 4c0bcee72230f8008160a570bc59c72ea900743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 35/86] fix: conversion of damaged files must not panic

---
 rawler/src/dng/convert.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/rawler/src/dng/convert.rs b/rawler/src/dng/convert.rs
index fdc0436..b060e17 100644
--- a/rawler/src/dng/convert.rs
+++ b/rawler/src/dng/convert.rs
@@ -1,6 +1,7 @@
 use std::{
   ffi::OsStr,
   io::{Cursor, Seek, Write},
+  panic::{self, AssertUnwindSafe},
   path::Path,
   sync::Arc,
   thread::JoinHandle,
@@ -10,8 +11,8 @@ use std::{
 use image::DynamicImage;
 
 use crate::{
-  Orientation, RawImage, RawImageData,
-  decoders::{Decoder, RawDecodeParams, RawPhotometricInterpretation, WellKnownIFD, WhiteLevel},
+  Orientation, RawImage, RawImageData, RawlerError,
+  decoders::{BUG, Decoder, RawDecodeParams, RawPhotometricInterpretation, WellKnownIFD, WhiteLevel},
   dng::{DNG_VERSION_V1_4, PREVIEW_JPEG_QUALITY, original::OriginalCompressed, writer::DngWriter},
   formats::tiff::Entry,
   imgop::{
@@ -117,6 +118,24 @@ fn internal_convert<W>(
   original_compress_thread: Option<JoinHandle<Result<OriginalCompressed, std::io::Error>>>,
   params: &ConvertParams,
 ) -> crate::Result<ConvertInfo>
+where
+  W: Write + Seek + Send,
+{
+  match panic::catch_unwind(AssertUnwindSafe(|| {
+    convert_unsafe(rawfile, dng, original_filename, original_compress_thread, params)
+  })) {
+    Ok(val) => val,
+    Err(_) => Err(RawlerError::DecoderFailed(format!("Caught a panic while converting.{}", BUG))),
+  }
+}
+
+fn convert_unsafe<W>(
+  rawfile: &RawSource,
+  dng: &mut W,
+  original_filename: impl AsRef<str>,
+  original_compress_thread: Option<JoinHandle<Result<OriginalCompressed, std::io::Error>>>,
+  params: &ConvertParams,
+) -> crate::Result<ConvertInfo>
 where
   W: Write + Seek + Send,
 {
-- 
2.43.0


From 882172587d13ae678cd78bfd8c3ffbcef92a187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 36/86] fix: a damaged EXIF segment of a JPEG file is read
 forever

---
 rawler/src/formats/jfif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index 05f8964..5079b9f 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -232,7 +232,7 @@ impl Jfif {
           Ok(app1) => Segment::APP1 { offset: pos, app1 },
           Err(err) => {
             log::warn!("Failed to read APP1 (EXIF) segement, maybe corrupt: {:?}", err);
-            continue;
+            Segment::Unknown { offset: pos, marker: symbol }
           }
         },
         0xFFDA => Segment::SOS {
-- 
2.43.0


From 7b9377281abd13820e6f577554235b324d3e4817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 37/86] fix: damaged BMFF boxes are read forever, abort the
 process or panic

---
 rawler/src/formats/bmff/co64.rs         |  2 +-
 rawler/src/formats/bmff/ext_cr3/cmt1.rs |  5 ++---
 rawler/src/formats/bmff/ext_cr3/cmt2.rs |  5 ++---
 rawler/src/formats/bmff/ext_cr3/cmt3.rs |  5 ++---
 rawler/src/formats/bmff/ext_cr3/cmt4.rs |  5 ++---
 rawler/src/formats/bmff/ext_cr3/cnop.rs |  5 ++---
 rawler/src/formats/bmff/ext_cr3/ctmd.rs |  8 +++++---
 rawler/src/formats/bmff/ext_cr3/iad1.rs |  4 ++--
 rawler/src/formats/bmff/ftyp.rs         |  2 +-
 rawler/src/formats/bmff/mdhd.rs         |  6 ++++--
 rawler/src/formats/bmff/mod.rs          | 13 +++++++++++++
 rawler/src/formats/bmff/mvhd.rs         |  6 ++++--
 rawler/src/formats/bmff/stsc.rs         |  6 ++++--
 rawler/src/formats/bmff/stsd.rs         | 10 +++++++---
 rawler/src/formats/bmff/stsz.rs         |  2 +-
 rawler/src/formats/bmff/stts.rs         |  2 +-
 16 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/rawler/src/formats/bmff/co64.rs b/rawler/src/formats/bmff/co64.rs
index 60a33c4..2e0aa52 100644
--- a/rawler/src/formats/bmff/co64.rs
+++ b/rawler/src/formats/bmff/co64.rs
@@ -25,7 +25,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Co64Box {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
     for _i in 0..entry_count {
       let chunk_offset = reader.read_u64::<BigEndian>()?;
       entries.push(chunk_offset);
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt1.rs b/rawler/src/formats/bmff/ext_cr3/cmt1.rs
index 4aa7c55..303dfd5 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt1.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt1.rs
@@ -3,7 +3,7 @@
 
 use crate::{formats::bmff::BmffError, formats::tiff::GenericTiffReader};
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_data};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -22,8 +22,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Cmt1Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
     let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_data(reader, data_len)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt2.rs b/rawler/src/formats/bmff/ext_cr3/cmt2.rs
index 398b535..4bb62a5 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt2.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt2.rs
@@ -3,7 +3,7 @@
 
 use crate::{formats::bmff::BmffError, formats::tiff::GenericTiffReader};
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_data};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -22,8 +22,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Cmt2Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
     let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_data(reader, data_len)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt3.rs b/rawler/src/formats/bmff/ext_cr3/cmt3.rs
index 66e7ff9..c3cbb58 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt3.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt3.rs
@@ -3,7 +3,7 @@
 
 use crate::{formats::bmff::BmffError, formats::tiff::GenericTiffReader};
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_data};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -22,8 +22,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Cmt3Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
     let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_data(reader, data_len)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cmt4.rs b/rawler/src/formats/bmff/ext_cr3/cmt4.rs
index 1afbf1a..62a4563 100644
--- a/rawler/src/formats/bmff/ext_cr3/cmt4.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cmt4.rs
@@ -3,7 +3,7 @@
 
 use crate::{formats::bmff::BmffError, formats::tiff::GenericTiffReader};
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_data};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -22,8 +22,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Cmt4Box {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
     let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_data(reader, data_len)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/cnop.rs b/rawler/src/formats/bmff/ext_cr3/cnop.rs
index efe0470..34d7a0b 100644
--- a/rawler/src/formats/bmff/ext_cr3/cnop.rs
+++ b/rawler/src/formats/bmff/ext_cr3/cnop.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: MIT
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_data};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -19,8 +19,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for CnopBox {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let current = reader.stream_position()?;
     let data_len = header.end_offset() - current;
-    let mut data = vec![0; data_len as usize];
-    reader.read_exact(&mut data)?;
+    let data = read_box_data(reader, data_len)?;
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/ctmd.rs b/rawler/src/formats/bmff/ext_cr3/ctmd.rs
index 7c87781..72c47b9 100644
--- a/rawler/src/formats/bmff/ext_cr3/ctmd.rs
+++ b/rawler/src/formats/bmff/ext_cr3/ctmd.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: MIT
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result};
+use super::super::{BmffError, BoxHeader, FourCC, ReadBox, Result};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -42,7 +42,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for CtmdBox {
     let data_ref_index = reader.read_u16::<BigEndian>()?;
     let rec_count = reader.read_u32::<BigEndian>()?;
 
-    let mut records = Vec::with_capacity(rec_count as usize);
+    let mut records = Vec::new();
 
     //let mut current = reader.seek(SeekFrom::Current(0))?;
 
@@ -59,7 +59,9 @@ impl<R: Read + Seek> ReadBox<&mut R> for CtmdBox {
       //current = reader.seek(SeekFrom::Current(0))?;
     }
 
-    assert!(reader.stream_position()? == header.end_offset());
+    if reader.stream_position()? != header.end_offset() {
+      return Err(BmffError::Parse("invalid CTMD box size".into()));
+    }
 
     reader.seek(SeekFrom::Start(header.end_offset()))?;
 
diff --git a/rawler/src/formats/bmff/ext_cr3/iad1.rs b/rawler/src/formats/bmff/ext_cr3/iad1.rs
index 9fb6dfe..b756400 100644
--- a/rawler/src/formats/bmff/ext_cr3/iad1.rs
+++ b/rawler/src/formats/bmff/ext_cr3/iad1.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: MIT
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::super::{BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
+use super::super::{BmffError, BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -103,7 +103,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for Iad1Box {
         active_area_bottom_offset: reader.read_u16::<BigEndian>()?,
       }),
       _ => {
-        panic!("Invalid iad1 type"); // TODO
+        return Err(BmffError::Parse(format!("Invalid iad1 type {}", image_type)));
       }
     };
 
diff --git a/rawler/src/formats/bmff/ftyp.rs b/rawler/src/formats/bmff/ftyp.rs
index c0d6543..c352af3 100644
--- a/rawler/src/formats/bmff/ftyp.rs
+++ b/rawler/src/formats/bmff/ftyp.rs
@@ -23,7 +23,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for FtypBox {
   fn read_box(reader: &mut R, header: BoxHeader) -> Result<Self> {
     let major = reader.read_u32::<BigEndian>()?;
     let minor = reader.read_u32::<BigEndian>()?;
-    if header.size % 4 != 0 {
+    if header.size % 4 != 0 || header.size < 16 {
       return Err(BmffError::Parse("invalid ftyp size".into()));
     }
     let brand_count = (header.size - 16) / 4; // header + major + minor
diff --git a/rawler/src/formats/bmff/mdhd.rs b/rawler/src/formats/bmff/mdhd.rs
index 33e1468..4b7a8cd 100644
--- a/rawler/src/formats/bmff/mdhd.rs
+++ b/rawler/src/formats/bmff/mdhd.rs
@@ -2,7 +2,7 @@
 // Copyright 2020 Alfred Gutierrez
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
+use super::{BmffError, BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -35,7 +35,9 @@ impl<R: Read + Seek> ReadBox<&mut R> for MdhdBox {
         reader.read_u64::<BigEndian>()?,
       )
     } else {
-      assert_eq!(version, 0);
+      if version != 0 {
+        return Err(BmffError::Parse(format!("unsupported mdhd version {}", version)));
+      }
       (
         reader.read_u32::<BigEndian>()? as u64,
         reader.read_u32::<BigEndian>()? as u64,
diff --git a/rawler/src/formats/bmff/mod.rs b/rawler/src/formats/bmff/mod.rs
index 4127787..4eecd2f 100644
--- a/rawler/src/formats/bmff/mod.rs
+++ b/rawler/src/formats/bmff/mod.rs
@@ -48,6 +48,15 @@ type BoxUuid = Uuid;
 
 pub const UUID_TYP: FourCC = FourCC::with(['u', 'u', 'i', 'd']);
 
+/// Read exactly `len` bytes, without allocating more than the reader provides
+pub fn read_box_data<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {
+  let mut data = Vec::new();
+  if reader.take(len).read_to_end(&mut data)? as u64 != len {
+    return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+  }
+  Ok(data)
+}
+
 pub fn read_box_header_ext<R: Read>(reader: &mut R) -> Result<(u8, u32)> {
   let version = reader.read_u8()?;
   let flags = reader.read_u24::<BigEndian>()?;
@@ -82,6 +91,10 @@ impl BoxHeader {
     }
 
     let current = reader.stream_position()?;
+    // The size covers the header itself, otherwise readers would never advance.
+    if size < current - start || start.checked_add(size).is_none() {
+      return Err(BmffError::Parse(format!("invalid box size {}", size)));
+    }
     Ok(BoxHeader {
       size,
       typ,
diff --git a/rawler/src/formats/bmff/mvhd.rs b/rawler/src/formats/bmff/mvhd.rs
index 1de61d5..f760bfb 100644
--- a/rawler/src/formats/bmff/mvhd.rs
+++ b/rawler/src/formats/bmff/mvhd.rs
@@ -2,7 +2,7 @@
 // Copyright 2020 Alfred Gutierrez
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::{BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
+use super::{BmffError, BoxHeader, FourCC, ReadBox, Result, read_box_header_ext};
 use byteorder::{BigEndian, ReadBytesExt};
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Seek, SeekFrom};
@@ -36,7 +36,9 @@ impl<R: Read + Seek> ReadBox<&mut R> for MvhdBox {
         reader.read_u64::<BigEndian>()?,
       )
     } else {
-      assert_eq!(version, 0);
+      if version != 0 {
+        return Err(BmffError::Parse(format!("unsupported mvhd version {}", version)));
+      }
       (
         reader.read_u32::<BigEndian>()? as u64,
         reader.read_u32::<BigEndian>()? as u64,
diff --git a/rawler/src/formats/bmff/stsc.rs b/rawler/src/formats/bmff/stsc.rs
index 47a66fc..dc56379 100644
--- a/rawler/src/formats/bmff/stsc.rs
+++ b/rawler/src/formats/bmff/stsc.rs
@@ -42,7 +42,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for StscBox {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
 
     // Reader for a single stsc entry
     let mut read_entry = || -> Result<StscEntry> {
@@ -62,7 +62,9 @@ impl<R: Read + Seek> ReadBox<&mut R> for StscBox {
       for _ in 1..entry_count {
         let mut entry = read_entry()?;
         // Now we know the chunk count to calc the amount of samples in holdback
-        entry.first_sample = holdback.first_sample + ((entry.first_chunk - holdback.first_sample) * holdback.samples_per_chunk);
+        entry.first_sample = holdback
+          .first_sample
+          .wrapping_add(entry.first_chunk.wrapping_sub(holdback.first_sample).wrapping_mul(holdback.samples_per_chunk));
         entries.push(holdback);
         holdback = entry;
       }
diff --git a/rawler/src/formats/bmff/stsd.rs b/rawler/src/formats/bmff/stsd.rs
index 209296a..c17465f 100644
--- a/rawler/src/formats/bmff/stsd.rs
+++ b/rawler/src/formats/bmff/stsd.rs
@@ -3,7 +3,7 @@
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
 use super::{
-  BoxHeader, FourCC, ReadBox, Result,
+  BmffError, BoxHeader, FourCC, ReadBox, Result,
   ext_cr3::{craw::CrawBox, ctmd::CtmdBox},
   read_box_header_ext,
   vendor::VendorBox,
@@ -48,11 +48,15 @@ impl<R: Read + Seek> ReadBox<&mut R> for StsdBox {
 
       match header.typ {
         CrawBox::TYP => {
-          assert_eq!(craw, None, "Found second CRAW box");
+          if craw.is_some() {
+            return Err(BmffError::Parse("Found second CRAW box".into()));
+          }
           craw = Some(CrawBox::read_box(&mut reader, header)?);
         }
         CtmdBox::TYP => {
-          assert_eq!(ctmd, None, "Found second CTMD box");
+          if ctmd.is_some() {
+            return Err(BmffError::Parse("Found second CTMD box".into()));
+          }
           ctmd = Some(CtmdBox::read_box(&mut reader, header)?);
         }
         // TODO: Multiple CRAW boxes can occour in CRM files?! BMFF Spec says the SampleBox is an array.
diff --git a/rawler/src/formats/bmff/stsz.rs b/rawler/src/formats/bmff/stsz.rs
index 82e191f..6476c6d 100644
--- a/rawler/src/formats/bmff/stsz.rs
+++ b/rawler/src/formats/bmff/stsz.rs
@@ -35,7 +35,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for StszBox {
 
     let sample_size = reader.read_u32::<BigEndian>()?;
     let sample_count = reader.read_u32::<BigEndian>()?;
-    let mut sample_sizes = Vec::with_capacity(sample_count as usize);
+    let mut sample_sizes = Vec::new();
     if sample_size == 0 {
       for _ in 0..sample_count {
         let sample_number = reader.read_u32::<BigEndian>()?;
diff --git a/rawler/src/formats/bmff/stts.rs b/rawler/src/formats/bmff/stts.rs
index c3bcbb8..9d6363a 100644
--- a/rawler/src/formats/bmff/stts.rs
+++ b/rawler/src/formats/bmff/stts.rs
@@ -30,7 +30,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for SttsBox {
     let (version, flags) = read_box_header_ext(reader)?;
 
     let entry_count = reader.read_u32::<BigEndian>()?;
-    let mut entries = Vec::with_capacity(entry_count as usize);
+    let mut entries = Vec::new();
     for _i in 0..entry_count {
       let entry = SttsEntry {
         sample_count: reader.read_u32::<BigEndian>()?,
-- 
2.43.0


From 6131a73cfde18c53483eb0f8c291159e80bb8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:34 +0000
Subject: [PATCH 38/86] fix: size of JFIF thumbnails and XMP packets overflows

---
 rawler/src/formats/jfif.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawler/src/formats/jfif.rs b/rawler/src/formats/jfif.rs
index 5079b9f..8c4f4a4 100644
--- a/rawler/src/formats/jfif.rs
+++ b/rawler/src/formats/jfif.rs
@@ -58,8 +58,8 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App0 {
         let ydensity = reader.read_u16::<BigEndian>()?;
         let xthumbnail = reader.read_u8()?;
         let ythumbnail = reader.read_u8()?;
-        let thumbnail = if xthumbnail * ythumbnail > 0 {
-          let mut data = vec![0; (3 * xthumbnail * ythumbnail) as usize];
+        let thumbnail = if xthumbnail > 0 && ythumbnail > 0 {
+          let mut data = vec![0; 3 * xthumbnail as usize * ythumbnail as usize];
           reader.read_exact(&mut data)?;
           Some(data)
         } else {
@@ -174,7 +174,7 @@ impl<R: Read + Seek> ReadSegment<&mut R> for App1 {
     }
 
     const APP1_XMP_MARKER: &str = concat!("http://ns.adobe.com/xap/1.0/", '\0');
-    if len as usize >= APP1_XMP_MARKER.len() {
+    if len as usize >= APP1_XMP_MARKER.len() + 2 {
       let mut xmp_str = [0; APP1_XMP_MARKER.len()];
       reader.read_exact(&mut xmp_str)?;
       if xmp_str == APP1_XMP_MARKER.as_bytes() {
-- 
2.43.0


From 69d33edcdda96c4b99a7f6f671f10982990c13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:34 +0000
Subject: [PATCH 39/86] fix: first sample of BMFF sample-to-chunk entries

---
 rawler/src/formats/bmff/stsc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/bmff/stsc.rs b/rawler/src/formats/bmff/stsc.rs
index dc56379..d23173c 100644
--- a/rawler/src/formats/bmff/stsc.rs
+++ b/rawler/src/formats/bmff/stsc.rs
@@ -64,7 +64,7 @@ impl<R: Read + Seek> ReadBox<&mut R> for StscBox {
         // Now we know the chunk count to calc the amount of samples in holdback
         entry.first_sample = holdback
           .first_sample
-          .wrapping_add(entry.first_chunk.wrapping_sub(holdback.first_sample).wrapping_mul(holdback.samples_per_chunk));
+          .wrapping_add(entry.first_chunk.wrapping_sub(holdback.first_chunk).wrapping_mul(holdback.samples_per_chunk));
         entries.push(holdback);
         holdback = entry;
       }
-- 
2.43.0


From c4922bbf5a03256b469c963d729ffca249de5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:46 +0000
Subject: [PATCH 40/86] fix: crop areas outside of the image abort the process

---
 rawler/src/imgop/mod.rs | 2 ++
 rawler/src/pixarray.rs  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rawler/src/imgop/mod.rs b/rawler/src/imgop/mod.rs
index c862d73..6fd218d 100644
--- a/rawler/src/imgop/mod.rs
+++ b/rawler/src/imgop/mod.rs
@@ -220,6 +220,8 @@ impl Rect {
 
 /// Crop image to specific area
 pub fn crop<T: Clone>(input: &[T], dim: Dim2, area: Rect) -> Vec<T> {
+  assert!(area.p.y.checked_add(area.d.h).is_some_and(|end| end <= dim.h));
+  assert!(area.p.x.checked_add(area.d.w).is_some_and(|end| end <= dim.w));
   let mut output = Vec::with_capacity(area.d.h * area.d.w);
   output.extend(
     input
diff --git a/rawler/src/pixarray.rs b/rawler/src/pixarray.rs
index 4d08163..7dd0565 100644
--- a/rawler/src/pixarray.rs
+++ b/rawler/src/pixarray.rs
@@ -475,9 +475,9 @@ where
   }
 
   pub fn crop(&self, area: Rect) -> Self {
+    assert!(area.p.y.checked_add(area.d.h).is_some_and(|end| end <= self.height));
+    assert!(area.p.x.checked_add(area.d.w).is_some_and(|end| end <= self.width));
     let mut output = Vec::with_capacity(area.d.h * area.d.w);
-    assert!(area.p.y + area.d.h <= self.height);
-    assert!(area.p.x + area.d.w <= self.width);
     output.extend(
       self
         .pixels()
-- 
2.43.0


From 38d548ff3a701100c6763437551e661fb0891c65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:18:07 +0000
Subject: [PATCH 41/86] fix: a conversion that fails at its end leaves an
 incomplete DNG behind

---
 bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs | 42 +++++++++++++++--------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
index 144b7b7..736a91e 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/raw2dng.rs
@@ -9,7 +9,7 @@ use log::debug;
 use rawler::{
   RawlerError,
   decoders::RawDecodeParams,
-  dng::convert::{ConvertParams, convert_raw_file},
+  dng::convert::{ConvertInfo, ConvertParams, convert_raw_file},
   rawsource::RawSource,
 };
 use std::{
@@ -67,6 +67,22 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
 }
 
 impl Raw2DngJob {
+  /// Write remaining data and apply file attributes
+  fn finish(&self, dng: BufWriter<File>, info: &ConvertInfo) -> Result<()> {
+    let file = dng
+      .into_inner()
+      .map_err(|e| AppError::General(format!("Can't access DNG inner file: {}", e.error())))?;
+    if self.params.keep_mtime {
+      let fallback = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
+      if let Some(ts) = info.last_modified.or(fallback) {
+        file.set_modified(ts)?;
+        let datetime: chrono::DateTime<Local> = ts.into();
+        log::debug!("Set mtime for DNG file to {}", datetime.format("%d/%m/%Y %T"));
+      }
+    }
+    Ok(())
+  }
+
   fn internal_exec(&self) -> Result<JobResult> {
     // File name for embedding
     let orig_filename = self
@@ -98,23 +114,19 @@ impl Raw2DngJob {
     let mut dng = BufWriter::new(file);
 
     match convert_raw_file(&self.input, &mut dng, &self.params) {
-      Ok(info) => {
-        let file = dng.into_inner().map_err(|e| AppError::General(format!("Can't access DNG inner file: {e}")))?;
-        if self.params.keep_mtime {
-          let fallback = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
-          if let Some(ts) = info.last_modified.or(fallback) {
-            file.set_modified(ts)?;
-            let datetime: chrono::DateTime<Local> = ts.into();
-            log::debug!("Set mtime for DNG file to {}", datetime.format("%d/%m/%Y %T"));
-          }
-        }
-        drop(file);
-        Ok(JobResult {
+      Ok(info) => match self.finish(dng, &info) {
+        Ok(()) => Ok(JobResult {
           job: self.clone(),
           duration: 0.0,
           error: None,
-        })
-      }
+        }),
+        Err(err) => {
+          if let Err(err) = remove_file(&self.output) {
+            log::error!("Failed to delete incomplete DNG file: {:?}", err);
+          }
+          Err(err)
+        }
+      },
       Err(err) => {
         match &err {
           RawlerError::Unsupported { .. } => {
-- 
2.43.0


From abc0f28c734b601cfaca75df2e47f26238a2da73 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:19:38 +0000
Subject: [PATCH 42/86] fix: convert --override replaces input files of the
 same run

---
 bin/dnglab/dnglab-lib/src/convert.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 6ba0e22..b9d1323 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -59,6 +59,14 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
     }
   }
 
+  // Never replace one of the inputs by the output of another one.
+  let inputs: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  for job in jobs.iter_mut() {
+    if job.output.canonicalize().is_ok_and(|output| inputs.contains(&output)) {
+      job.replace = false;
+    }
+  }
+
   let verbose = options.get_flag("verbose");
   let concurrency = resolve_concurrency(options.get_one::<usize>("jobs").copied().unwrap_or(0));
 
-- 
2.43.0


From 6d4c613ebd31d47fb6df00eab93364651ec5f6a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:19:39 +0000
Subject: [PATCH 43/86] fix: an input without a usable output location stops
 the conversion of all others

---
 bin/dnglab/dnglab-lib/src/convert.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index b9d1323..1c7f66a 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -38,6 +38,8 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
   // distinct source files that would otherwise produce the same DNG name
   // (e.g. FOO.CR3 and FOO.NEF -> FOO.dng / FOO_1.dng).
   let mut claimed: HashSet<PathBuf> = HashSet::new();
+  // Inputs for which no job could be set up
+  let mut rejected: Vec<(PathBuf, AppError)> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
@@ -54,7 +56,13 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        jobs.append(&mut generate_job(&entry, options, &mut claimed)?);
+        match generate_job(&entry, options, &mut claimed) {
+          Ok(mut batch) => jobs.append(&mut batch),
+          Err(err) => {
+            log::error!("Failed to process '{}': {}", entry.src.display(), err);
+            rejected.push((entry.src, err));
+          }
+        }
       }
     }
   }
@@ -85,9 +93,9 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
     results.append(&mut temp);
   }
 
-  let total = results.len();
+  let total = results.len() + rejected.len();
   let success = results.iter().filter(|j| j.error.is_none()).count();
-  let failure = results.iter().filter(|j| j.error.is_some()).count();
+  let failure = total - success;
 
   if failure == 0 {
     eprintln!("Converted {}/{} files", success, total,);
@@ -96,6 +104,9 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
     for failed in results.iter().filter(|j| j.error.is_some()) {
       eprintln!("   {}", failed.job.input.display());
     }
+    for (input, _) in rejected.iter() {
+      eprintln!("   {}", input.display());
+    }
   }
   eprintln!("Total time: {:.2}s", now.elapsed().as_secs_f32());
 
@@ -103,6 +114,8 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
   if let Some(Some(err)) = first_error {
     // In case of errors, return the first error in the queue
     Err(err)
+  } else if let Some((_, err)) = rejected.into_iter().next() {
+    Err(err)
   } else {
     Ok(())
   }
-- 
2.43.0


From 8df53c25c64d4e8fec94459d8f4a251f78c41b90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:20:12 +0000
Subject: [PATCH 44/86] fix: convert ignores the requested spelling of the file
 extension

---
 bin/dnglab/dnglab-lib/src/convert.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 1c7f66a..515e741 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -161,6 +161,13 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
     .to_string_lossy()
     .into_owned();
 
+  // Keep the spelling of the extension (e.g. FOO.DNG)
+  let extension = output
+    .extension()
+    .ok_or_else(|| AppError::General("Output path has no extension".into()))?
+    .to_string_lossy()
+    .into_owned();
+
   // Pick the lowest disambiguation suffix `k` such that every frame's output
   // path is free within this run's already-claimed outputs.
   // For multi-frame sources, all frame outputs must be checked together so
@@ -182,11 +189,12 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
     } else {
       format!("{}_{}", base_stem, k)
     };
-    output.with_file_name(format!("{}.dng", stem))
+    output.with_file_name(format!("{}.{}", stem, extension))
   };
 
   let collides = |path: &PathBuf| -> bool {
-    claimed.contains(path)
+    // Names must differ on file systems that ignore the case, too
+    claimed.contains(&path.with_extension("dng"))
     // If existing files should take into account...
     // if claimed.contains(path) {
     //   return true;
@@ -205,7 +213,7 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<Pat
 
   // Reserve these outputs so subsequent generate_job calls don't pick them.
   for p in &final_outputs {
-    claimed.insert(p.clone());
+    claimed.insert(p.with_extension("dng"));
   }
 
   // Ensure the parent directory exists once for the resolved outputs.
-- 
2.43.0


From 9fbd8ae5cc06e15c899c6894915208e6c1bede2c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:20:12 +0000
Subject: [PATCH 45/86] fix: a dangling link stops the processing of a whole
 directory

---
 bin/dnglab/dnglab-lib/src/filemap.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/filemap.rs b/bin/dnglab/dnglab-lib/src/filemap.rs
index 92786b6..d76b4d8 100644
--- a/bin/dnglab/dnglab-lib/src/filemap.rs
+++ b/bin/dnglab/dnglab-lib/src/filemap.rs
@@ -116,7 +116,17 @@ where
   let dir = read_dir(input)?;
   for entry in dir {
     let entry = entry?;
-    let in_md = fs::metadata(entry.path())?;
+    let in_md = match fs::metadata(entry.path()) {
+      Ok(md) => md,
+      Err(err) => {
+        // A broken link for example. Only this one entry is affected, processing reports it.
+        warn!("Unable to access {}: {}", entry.path().display(), err);
+        if filter(&entry.path()) {
+          result.push(entry.path());
+        }
+        continue;
+      }
+    };
     if in_md.is_file() {
       if filter(&entry.path()) {
         result.push(entry.path());
-- 
2.43.0


From 8a8af4be378f033c65c2eb2da3cda84c536d1bdb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:47:20 +0000
Subject: [PATCH 46/86] fix: names of embedded files lead extract out of the
 output directory

---
 bin/dnglab/dnglab-lib/src/extract.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 2e98566..8db82eb 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -9,7 +9,7 @@ use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 use crate::filemap::{FileMap, MapMode};
@@ -110,12 +110,19 @@ fn generate_job(entry: &FileMap, options: &ArgMatches, use_orig_filename: bool)
 
   let orig_filename = get_original_name(&file).ok_or(AppError::General("No embedded raw file found".into()))?;
 
+  // The name comes from the DNG and must not lead to another directory.
+  let file_name = || {
+    Path::new(&orig_filename)
+      .file_name()
+      .ok_or_else(|| AppError::General(format!("Invalid name of embedded raw file: '{}'", orig_filename)))
+  };
+
   let output = if entry.dest.is_dir() {
     let mut p = PathBuf::from(&entry.dest);
-    p.push(orig_filename);
+    p.push(file_name()?);
     p
   } else if use_orig_filename {
-    PathBuf::from(&entry.dest).with_file_name(orig_filename)
+    PathBuf::from(&entry.dest).with_file_name(file_name()?)
   } else {
     PathBuf::from(&entry.dest)
   };
-- 
2.43.0


From d716704bcc35dc8175f0fca89aef14658a82f77f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:47:21 +0000
Subject: [PATCH 47/86] fix: a DNG without embedded original stops the
 extraction of all others

---
 bin/dnglab/dnglab-lib/src/extract.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 8db82eb..7b0e92d 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -36,6 +36,8 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
   let recursive = options.get_flag("recursive");
 
   let mut jobs = Vec::new();
+  // Inputs for which no job could be set up
+  let mut rejected: Vec<(PathBuf, AppError)> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
@@ -54,8 +56,16 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
 
-      let tmp: Result<Vec<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
-      jobs.extend(tmp?.into_iter());
+      let tmp: Vec<Result<ExtractRawJob>> = list.par_iter().map(|entry| generate_job(entry, options, true)).collect();
+      for (entry, job) in list.into_iter().zip(tmp) {
+        match job {
+          Ok(job) => jobs.push(job),
+          Err(err) => {
+            log::error!("Failed to process '{}': {}", entry.src.display(), err);
+            rejected.push((entry.src, err));
+          }
+        }
+      }
     }
   }
 
@@ -76,9 +86,9 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
     results.append(&mut temp);
   }
 
-  let total = results.len();
+  let total = results.len() + rejected.len();
   let success = results.iter().filter(|j| j.error.is_none()).count();
-  let failure = results.iter().filter(|j| j.error.is_some()).count();
+  let failure = total - success;
 
   if failure == 0 {
     eprintln!("Extracted {}/{} files", success, total,);
@@ -87,6 +97,9 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
     for failed in results.iter().filter(|j| j.error.is_some()) {
       eprintln!("   {}", failed.job.input.display());
     }
+    for (input, _) in rejected.iter() {
+      eprintln!("   {}", input.display());
+    }
   }
   eprintln!("Total time: {:.2}s", now.elapsed().as_secs_f32());
 
@@ -94,6 +107,8 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
   if let Some(Some(err)) = first_error {
     // In case of errors, return the first error in the queue
     Err(err)
+  } else if let Some((_, err)) = rejected.into_iter().next() {
+    Err(err)
   } else {
     Ok(())
   }
@@ -148,7 +163,7 @@ fn get_original_name(file: &GenericTiffReader) -> Option<String> {
     ..
   }) = file.get_entry(DngTag::OriginalRawFileName)
   {
-    Some(orig_name.strings()[0].clone())
+    orig_name.strings().first().cloned()
   } else {
     None
   }
-- 
2.43.0


From ae19ee1b390376c7afd673c225ff34c4aef47568 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:47:22 +0000
Subject: [PATCH 48/86] fix: an extraction that fails at its end leaves an
 incomplete file behind

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index a4bcccf..7a95f98 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -74,14 +74,17 @@ impl ExtractRawJob {
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
         let mut stream = BufWriter::new(File::create(&self.output)?);
-        if let Err(err) = original.decompress(&mut stream, !self.skip_checks) {
-          drop(original);
+        let result = original
+          .decompress(&mut stream, !self.skip_checks)
+          .map_err(AppError::from)
+          .and_then(|_| stream.flush().map_err(AppError::from));
+        if let Err(err) = result {
+          drop(stream);
           if let Err(err) = remove_file(&self.output) {
             log::error!("Failed to delete original file after decompress error: {:?}", err);
           }
-          return Err(err.into());
+          return Err(err);
         }
-        stream.flush()?;
         Ok(JobResult {
           job: self.clone(),
           duration: 0.0, // TODO: fixme
-- 
2.43.0


From 1f96c80751d065eb397d46f6b6d8334e167d75c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 49/86] fix: recursive extraction into directories that do not
 exist yet

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index 7a95f98..5b35893 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -12,7 +12,7 @@ use rawler::{
 };
 use std::{
   fmt::Display,
-  fs::remove_file,
+  fs::{create_dir_all, remove_file},
   io::{BufReader, BufWriter, Cursor, Write},
 };
 use std::{fs::File, path::PathBuf, time::Instant};
@@ -73,6 +73,9 @@ impl ExtractRawJob {
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
+        if let Some(parent) = self.output.parent() {
+          create_dir_all(parent)?;
+        }
         let mut stream = BufWriter::new(File::create(&self.output)?);
         let result = original
           .decompress(&mut stream, !self.skip_checks)
-- 
2.43.0


From 704c50fe7acd3be55caf278a9a49c1f853608307 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 50/86] fix: extract --override replaces input files of the
 same run

---
 bin/dnglab/dnglab-lib/src/extract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index 7b0e92d..ef333de 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -7,6 +7,7 @@ use rawler::formats::tiff::reader::TiffReader;
 use rawler::formats::tiff::{Entry, GenericTiffReader, Value};
 use rawler::tags::DngTag;
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
+use std::collections::HashSet;
 use std::fs::File;
 use std::io::BufReader;
 use std::path::{Path, PathBuf};
@@ -69,6 +70,14 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
     }
   }
 
+  // Never replace one of the inputs by an extracted file.
+  let inputs: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  for job in jobs.iter_mut() {
+    if job.output.canonicalize().is_ok_and(|output| inputs.contains(&output)) {
+      job.replace = false;
+    }
+  }
+
   let verbose = options.get_flag("verbose");
 
   let mut results: Vec<JobResult> = Vec::new();
-- 
2.43.0


From 5277a016685843428275d1db3d6bb2ea55db672c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 51/86] fix: makedng removes existing files and inputs when it
 fails

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 69 ++++++++++++++++++----------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 57ba717..9d15c66 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -4,6 +4,7 @@
 use clap::ArgMatches;
 use clap::builder::{NonEmptyStringValueParser, TypedValueParser};
 
+use futures::FutureExt;
 use image::DynamicImage;
 use itertools::Itertools;
 use rawler::decoders::{RawDecodeParams, RawMetadata};
@@ -21,9 +22,10 @@ use rawler::imgop::{scale_double_to_u16, scale_u8_to_double, scale_u16_to_double
 use rawler::rawsource::RawSource;
 use rawler::tags::{DngTag, TiffCommonTag};
 use std::fs::{File, remove_file};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::num::ParseFloatError;
-use std::path::{Path, PathBuf};
+use std::panic::AssertUnwindSafe;
+use std::path::PathBuf;
 
 use std::str::FromStr;
 use std::time::Instant;
@@ -41,25 +43,11 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
     .get_one("OUTPUT")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("Output path is required".into()))?;
 
-  match makedng_internal(options, dest_path).await {
-    Ok(_) => Ok(()),
-    Err(err) => {
-      if let Err(err) = remove_file(dest_path) {
-        log::error!("Failed to delete DNG file after decompress error: {:?}", err);
-      }
-      Err(err)
-    }
-  }
-}
-
-/// Entry point for Clap sub command `makedng`
-pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::Result<()> {
-  let _now = Instant::now();
-
   let inputs: Vec<&PathBuf> = options
     .get_many("inputs")
     .ok_or_else(|| crate::AppError::InvalidCmdSwitch("inputs are required".into()))?
     .collect();
+
   let maps: Vec<&InputSourceUsageMap> = options.get_many("map").unwrap_or_default().collect();
   let max_used_map_input = maps.iter().map(|x| x.source).max().unwrap_or(0);
 
@@ -74,15 +62,48 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
   if dest_path.exists() && !options.get_flag("override") {
     return Err(crate::AppError::AlreadyExists(dest_path.to_owned()));
   }
+  if let Ok(dest) = dest_path.canonicalize() {
+    if inputs.iter().any(|input| input.canonicalize().is_ok_and(|input| input == dest)) {
+      return Err(crate::AppError::InvalidCmdSwitch(format!(
+        "Output '{}' must not be one of the input files",
+        dest_path.display()
+      )));
+    }
+  }
 
   let mut stream = BufWriter::new(File::create(dest_path)?);
 
+  let result = match AssertUnwindSafe(makedng_internal(options, &inputs, &maps, &mut stream)).catch_unwind().await {
+    Ok(result) => result.and_then(|_| Ok(stream.flush()?)),
+    Err(_) => Err(crate::AppError::General("Caught a panic while building the DNG".into())),
+  };
+
+  match result {
+    Ok(_) => {
+      println!("File saved to: {}", dest_path.display());
+      Ok(())
+    }
+    Err(err) => {
+      drop(stream);
+      // Only files created by this run are removed
+      if let Err(err) = remove_file(dest_path) {
+        log::error!("Failed to delete DNG file after error: {:?}", err);
+      }
+      Err(err)
+    }
+  }
+}
+
+/// Entry point for Clap sub command `makedng`
+pub async fn makedng_internal(options: &ArgMatches, inputs: &[&PathBuf], maps: &[&InputSourceUsageMap], stream: &mut BufWriter<File>) -> crate::Result<()> {
+  let _now = Instant::now();
+
   let backward_version = options
     .get_one::<DngVersion>("dng_backward_version")
     .unwrap_or(&DngVersion::V1_4)
     .as_dng_value();
 
-  let mut dng = DngWriter::new(&mut stream, backward_version)?;
+  let mut dng = DngWriter::new(stream, backward_version)?;
 
   if let Some(artist) = options.get_one::<String>("artist") {
     dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
@@ -104,7 +125,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     dng.root_ifd_mut().add_tag(DngTag::ColorimetricReference, colorimetric_reference.as_dng_value());
   }
 
-  if let Ok(raw_input) = get_input_path(&inputs, &maps, InputUsage::Raw) {
+  if let Ok(raw_input) = get_input_path(inputs, maps, InputUsage::Raw) {
     let rawfile = RawSource::new(raw_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       let rawimage = decoder.raw_image(&rawfile, &RawDecodeParams::default(), false)?;
@@ -160,7 +181,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No raw input file found");
   }
 
-  if let Ok(preview_input) = get_input_path(&inputs, &maps, InputUsage::Preview) {
+  if let Ok(preview_input) = get_input_path(inputs, maps, InputUsage::Preview) {
     let rawfile = RawSource::new(preview_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       if let Some(preview) = decoder.preview_image(&rawfile, &RawDecodeParams::default())? {
@@ -178,7 +199,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No preview input file found");
   }
 
-  if let Ok(thumbnail_input) = get_input_path(&inputs, &maps, InputUsage::Thumbnail) {
+  if let Ok(thumbnail_input) = get_input_path(inputs, maps, InputUsage::Thumbnail) {
     let rawfile = RawSource::new(thumbnail_input)?;
     if let Ok(decoder) = get_decoder(&rawfile) {
       if let Some(preview) = decoder.preview_image(&rawfile, &RawDecodeParams::default())? {
@@ -192,7 +213,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No thumbnail input file found");
   }
 
-  if let Ok(exif_input) = get_input_path(&inputs, &maps, InputUsage::Exif) {
+  if let Ok(exif_input) = get_input_path(inputs, maps, InputUsage::Exif) {
     let rawfile = RawSource::new(exif_input)?;
     // First, prefer JFIF decoder for preview files
     if is_jfif(&rawfile) || is_exif(&rawfile) {
@@ -210,7 +231,7 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
     eprintln!("No EXIF input file found");
   }
 
-  if let Ok(xmp_input) = get_input_path(&inputs, &maps, InputUsage::Xmp) {
+  if let Ok(xmp_input) = get_input_path(inputs, maps, InputUsage::Xmp) {
     let rawfile = RawSource::new(xmp_input)?;
 
     if is_jfif(&rawfile) || is_exif(&rawfile) {
@@ -269,8 +290,6 @@ pub async fn makedng_internal(options: &ArgMatches, dest_path: &Path) -> crate::
 
   dng.close()?;
 
-  println!("File saved to: {}", dest_path.display());
-
   Ok(())
 }
 
-- 
2.43.0


From 1e8f20c77a3aa69bd44c22488de89780d6a33405 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 52/86] fix: an input without a usable output location stops
 the processing of all others

---
 bin/dnglab/dnglab-lib/src/process_raw.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 2d786b4..7a89e56 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -33,6 +33,8 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 
   // List of jobs
   let mut jobs: Vec<Raw2Image> = Vec::new();
+  // Inputs for which no job could be set up
+  let mut rejected: Vec<(PathBuf, AppError)> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
@@ -49,7 +51,13 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        jobs.append(&mut generate_job(&entry, options)?);
+        match generate_job(&entry, options) {
+          Ok(mut batch) => jobs.append(&mut batch),
+          Err(err) => {
+            log::error!("Failed to process '{}': {}", entry.src.display(), err);
+            rejected.push((entry.src, err));
+          }
+        }
       }
     }
   }
@@ -71,9 +79,9 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
     results.append(&mut temp);
   }
 
-  let total = results.len();
+  let total = results.len() + rejected.len();
   let success = results.iter().filter(|j| j.error.is_none()).count();
-  let failure = results.iter().filter(|j| j.error.is_some()).count();
+  let failure = total - success;
 
   if failure == 0 {
     eprintln!("Processed {}/{} files", success, total,);
@@ -82,6 +90,9 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
     for failed in results.iter().filter(|j| j.error.is_some()) {
       eprintln!("   {}", failed.job.input.display());
     }
+    for (input, _) in rejected.iter() {
+      eprintln!("   {}", input.display());
+    }
   }
   eprintln!("Total time: {:.2}s", now.elapsed().as_secs_f32());
 
@@ -89,6 +100,8 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
   if let Some(Some(err)) = first_error {
     // In case of errors, return the first error in the queue
     Err(err)
+  } else if let Some((_, err)) = rejected.into_iter().next() {
+    Err(err)
   } else {
     Ok(())
   }
-- 
2.43.0


From 51444773a89c987ee2063cc14e023a01e977a152 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:48:39 +0000
Subject: [PATCH 53/86] fix: process-raw --override replaces input files of the
 same run

---
 bin/dnglab/dnglab-lib/src/process_raw.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 7a89e56..d45c8c6 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -5,6 +5,7 @@ use clap::ArgMatches;
 use futures::future::join_all;
 use rawler::decoders::supported_extensions;
 use rawler::imgop::develop::RawProcessingParams;
+use std::collections::HashSet;
 use std::fs::create_dir_all;
 use std::path::PathBuf;
 
@@ -62,6 +63,14 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
     }
   }
 
+  // Never replace one of the inputs by the output of another one.
+  let inputs: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  for job in jobs.iter_mut() {
+    if job.output.canonicalize().is_ok_and(|output| inputs.contains(&output)) {
+      job.replace = false;
+    }
+  }
+
   let verbose = options.get_flag("verbose");
 
   let mut results: Vec<JobResult> = Vec::new();
-- 
2.43.0


From 1a95fd7e4c023bcd9fae682d95d0cd141adc7989 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:48:40 +0000
Subject: [PATCH 54/86] fix: a failing process-raw leaves an incomplete image
 behind

---
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index fadcdef..be78c0a 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -68,6 +68,19 @@ pub(crate) fn copy_mtime_from_rawsource(rawfile: &RawSource, file: &File, fallba
 }
 
 impl Raw2Image {
+  /// Write remaining data and apply file attributes
+  fn finish(&self, image_file: BufWriter<File>) -> Result<()> {
+    let file = image_file
+      .into_inner()
+      .map_err(|e| AppError::General(format!("Can't access image inner file: {}", e.error())))?;
+    if self.params.keep_mtime {
+      let file_mtime = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
+      let rawfile = RawSource::new(&self.input)?;
+      copy_mtime_from_rawsource(&rawfile, &file, file_mtime, &self.params)?;
+    }
+    Ok(())
+  }
+
   fn internal_exec(&self) -> Result<JobResult> {
     if self.output.exists() && !self.replace {
       return Err(AppError::AlreadyExists(self.output.clone()));
@@ -84,22 +97,19 @@ impl Raw2Image {
     let mut image_file = BufWriter::new(File::create(&self.output)?);
 
     match process_raw_image(&self.input, &mut image_file, &self.params) {
-      Ok(_) => {
-        let file = image_file
-          .into_inner()
-          .map_err(|e| AppError::General(format!("Can't access image inner file: {e}")))?;
-        if self.params.keep_mtime {
-          let file_mtime = std::fs::metadata(&self.input).and_then(|md| md.modified()).ok();
-          let rawfile = RawSource::new(&self.input)?;
-          copy_mtime_from_rawsource(&rawfile, &file, file_mtime, &self.params)?;
-        }
-        drop(file);
-        Ok(JobResult {
+      Ok(_) => match self.finish(image_file) {
+        Ok(()) => Ok(JobResult {
           job: self.clone(),
           duration: 0.0,
           error: None,
-        })
-      }
+        }),
+        Err(err) => {
+          if let Err(err) = remove_file(&self.output) {
+            log::error!("Failed to delete incomplete output file: {:?}", err);
+          }
+          Err(err)
+        }
+      },
       Err(err) => {
         match &err {
           RawlerError::Unsupported { .. } => {
-- 
2.43.0


From baf26c8b6c1ca766783bef6663f479b9fc539234 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:49:02 +0000
Subject: [PATCH 55/86] fix: process-raw writes files of the same name into one
 output

---
 bin/dnglab/dnglab-lib/src/process_raw.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index d45c8c6..6c1b467 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -34,13 +34,15 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 
   // List of jobs
   let mut jobs: Vec<Raw2Image> = Vec::new();
+  // Output paths already assigned to a job in this run (see convert)
+  let mut claimed: HashSet<PathBuf> = HashSet::new();
   // Inputs for which no job could be set up
   let mut rejected: Vec<(PathBuf, AppError)> = Vec::new();
 
   match proc {
     // We have only one input file, so output must be a file, too.
     MapMode::File(sd) => {
-      jobs.append(&mut generate_job(&sd, options)?);
+      jobs.append(&mut generate_job(&sd, options, &mut claimed)?);
     }
     // Input is directory, to process all files
     MapMode::Dir(sd) => {
@@ -52,7 +54,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
         }
       })?;
       for entry in list {
-        match generate_job(&entry, options) {
+        match generate_job(&entry, options, &mut claimed) {
           Ok(mut batch) => jobs.append(&mut batch),
           Err(err) => {
             log::error!("Failed to process '{}': {}", entry.src.display(), err);
@@ -117,7 +119,7 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
 }
 
 /// Convert given raw file to dng file
-fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>> {
+fn generate_job(entry: &FileMap, options: &ArgMatches, claimed: &mut HashSet<PathBuf>) -> Result<Vec<Raw2Image>> {
   let (do_batch, index) = match options.get_one::<String>("index") {
     Some(index) => {
       if index.to_lowercase().eq("all") {
@@ -166,6 +168,19 @@ fn generate_job(entry: &FileMap, options: &ArgMatches) -> Result<Vec<Raw2Image>>
       output.set_file_name(format!("{}_{:04}.tif", file_name, i));
     }
 
+    // Distinct sources with the same name must not share one output.
+    let stem = String::from(
+      output
+        .file_stem()
+        .ok_or_else(|| anyhow::anyhow!("output path has no file stem"))?
+        .to_string_lossy(),
+    );
+    let mut suffix = 0;
+    while !claimed.insert(output.clone()) {
+      suffix += 1;
+      output.set_file_name(format!("{}_{}.tif", stem, suffix));
+    }
+
     match output.parent() {
       Some(parent) => {
         if !parent.exists() {
-- 
2.43.0


From a6e661115b36ed6fe98f9e1950681aee2b4b03e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:49:37 +0000
Subject: [PATCH 56/86] fix: processing of damaged files must not panic

---
 rawler/src/imgop/develop.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index e310543..3100cae 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -1,5 +1,6 @@
 use std::{
   io::{self, Seek, Write},
+  panic::{self, AssertUnwindSafe},
   path::Path,
 };
 
@@ -7,7 +8,7 @@ use image::{DynamicImage, ImageBuffer};
 
 use crate::{
   RawImage,
-  decoders::{RawDecodeParams, RawMetadata},
+  decoders::{BUG, RawDecodeParams, RawMetadata},
   dng::CropMode,
   formats::tiff::{DirectoryWriter, TiffWriter},
   imgop::{
@@ -54,6 +55,13 @@ impl Default for RawProcessingParams {
 }
 
 pub fn process_raw_image<W: Write + Seek + Send>(raw: &Path, image_file: &mut W, params: &RawProcessingParams) -> crate::Result<()> {
+  match panic::catch_unwind(AssertUnwindSafe(|| process_raw_unsafe(raw, image_file, params))) {
+    Ok(val) => val,
+    Err(_) => Err(crate::RawlerError::DecoderFailed(format!("Caught a panic while processing.{}", BUG))),
+  }
+}
+
+fn process_raw_unsafe<W: Write + Seek + Send>(raw: &Path, image_file: &mut W, params: &RawProcessingParams) -> crate::Result<()> {
   let rawfile = RawSource::new(raw)?;
   let decoder = crate::get_decoder(&rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
-- 
2.43.0


From 9a9d55e50e803c088c6d155d1865293a0c3d0e77 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 57/86] fix: process-raw ignores --artist and --crop

---
 rawler/src/imgop/develop.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index 3100cae..e56ae45 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -66,8 +66,18 @@ fn process_raw_unsafe<W: Write + Seek + Send>(raw: &Path, image_file: &mut W, pa
   let decoder = crate::get_decoder(&rawfile)?;
   let raw_params = RawDecodeParams { image_index: params.index };
   let rawimage = decoder.raw_image(&rawfile, &raw_params, false)?;
-  let metadata = decoder.raw_metadata(&rawfile, &raw_params)?;
-  let develop = RawDevelop::default();
+  let mut metadata = decoder.raw_metadata(&rawfile, &raw_params)?;
+  if params.artist.is_some() {
+    metadata.exif.artist = params.artist.clone();
+  }
+  let mut develop = RawDevelop::default();
+  match params.crop {
+    CropMode::Best => {}
+    CropMode::ActiveArea => develop.steps.retain(|step| *step != ProcessingStep::CropDefault),
+    CropMode::None => develop
+      .steps
+      .retain(|step| !matches!(step, ProcessingStep::CropDefault | ProcessingStep::CropActiveArea)),
+  }
   develop.develop(&rawimage, &metadata, image_file)?;
   Ok(())
 }
-- 
2.43.0


From ba60a1a0b2da50466ffca427645d556b7a4920ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:34 +0000
Subject: [PATCH 58/86] fix: failing extraction destroys what is in the
 output's place

---
 bin/dnglab/dnglab-lib/src/extract.rs         |  7 ++++++-
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs | 19 +++++++++----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/extract.rs b/bin/dnglab/dnglab-lib/src/extract.rs
index ef333de..a8b5745 100644
--- a/bin/dnglab/dnglab-lib/src/extract.rs
+++ b/bin/dnglab/dnglab-lib/src/extract.rs
@@ -71,7 +71,12 @@ pub async fn extract(options: &ArgMatches) -> crate::Result<()> {
   }
 
   // Never replace one of the inputs by an extracted file.
-  let inputs: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  let inputs: HashSet<PathBuf> = jobs
+    .iter()
+    .map(|job| &job.input)
+    .chain(rejected.iter().map(|(input, _)| input))
+    .filter_map(|input| input.canonicalize().ok())
+    .collect();
   for job in jobs.iter_mut() {
     if job.output.canonicalize().is_ok_and(|output| inputs.contains(&output)) {
       job.replace = false;
diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index 5b35893..be05d61 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -13,7 +13,7 @@ use rawler::{
 use std::{
   fmt::Display,
   fs::{create_dir_all, remove_file},
-  io::{BufReader, BufWriter, Cursor, Write},
+  io::{BufReader, Cursor, Write},
 };
 use std::{fs::File, path::PathBuf, time::Instant};
 
@@ -72,21 +72,20 @@ impl ExtractRawJob {
           .map(|entry| entry.value.get_data().as_slice())
           .and_then(|data| OriginalDigest::try_from(data).ok());
 
+        // The output is not touched until the data is known to be valid.
         let original = OriginalCompressed::new(&mut Cursor::new(val), digest)?;
+        let mut data = Vec::new();
+        original.decompress(&mut data, !self.skip_checks)?;
         if let Some(parent) = self.output.parent() {
           create_dir_all(parent)?;
         }
-        let mut stream = BufWriter::new(File::create(&self.output)?);
-        let result = original
-          .decompress(&mut stream, !self.skip_checks)
-          .map_err(AppError::from)
-          .and_then(|_| stream.flush().map_err(AppError::from));
-        if let Err(err) = result {
-          drop(stream);
+        let mut file = File::create(&self.output)?;
+        if let Err(err) = file.write_all(&data) {
+          drop(file);
           if let Err(err) = remove_file(&self.output) {
-            log::error!("Failed to delete original file after decompress error: {:?}", err);
+            log::error!("Failed to delete incomplete original file: {:?}", err);
           }
-          return Err(err);
+          return Err(err.into());
         }
         Ok(JobResult {
           job: self.clone(),
-- 
2.43.0


From 8672802f7683e65170e6084a636a91e564877259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 59/86] fix: developed TIFF stores compression and predictor
 with an invalid type

---
 rawler/src/imgop/develop.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/imgop/develop.rs b/rawler/src/imgop/develop.rs
index e56ae45..e332ff2 100644
--- a/rawler/src/imgop/develop.rs
+++ b/rawler/src/imgop/develop.rs
@@ -387,8 +387,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 1, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16]);
@@ -403,8 +403,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 3, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16, 16, 16]);
@@ -419,8 +419,8 @@ impl RawDevelop {
         let (strip_rows, strips) = tiff.write_strips_lzw(&data, 4, pixels.dim(), 0)?;
         let strip_offsets: Vec<u32> = strips.iter().map(|(offset, _)| *offset).collect();
         let strip_bytes: Vec<u32> = strips.iter().map(|(_, bytes)| *bytes).collect();
-        root_ifd.add_tag(TiffCommonTag::Compression, 5);
-        root_ifd.add_tag(TiffCommonTag::Predictor, 1);
+        root_ifd.add_tag(TiffCommonTag::Compression, 5_u16);
+        root_ifd.add_tag(TiffCommonTag::Predictor, 1_u16);
         root_ifd.add_tag(TiffCommonTag::StripOffsets, &strip_offsets);
         root_ifd.add_tag(TiffCommonTag::StripByteCounts, &strip_bytes);
         root_ifd.add_tag(TiffCommonTag::BitsPerSample, [16_u16, 16, 16, 16]); // Extra-channel, even if PhotometricInt is RGB!
-- 
2.43.0


From bd9fe9dbd5aa0a803a3fed42a0ac671ff5372bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 60/86] fix: XMP packet of DNG input is lost

---
 rawler/src/decoders/dng.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 6cab8d2..f056be2 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -201,6 +201,16 @@ impl<'a> Decoder for DngDecoder<'a> {
     })
   }
 
+  fn xpacket(&self, _file: &RawSource, _params: &RawDecodeParams) -> Result<Option<Vec<u8>>> {
+    match self.tiff.root_ifd().get_entry(TiffCommonTag::Xmp) {
+      Some(Entry {
+        value: Value::Byte(buf) | Value::Undefined(buf),
+        ..
+      }) if !buf.is_empty() => Ok(Some(buf.clone())),
+      _ => Ok(None),
+    }
+  }
+
   fn format_hint(&self) -> FormatHint {
     FormatHint::DNG
   }
-- 
2.43.0


From 632f8735f86592d08f93f15a32c6b236ebdf6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 61/86] fix: makedng --artist is replaced by the artist of the
 EXIF input

---
 bin/dnglab/dnglab-lib/src/makedng.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index 9d15c66..aa973cf 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -105,10 +105,6 @@ pub async fn makedng_internal(options: &ArgMatches, inputs: &[&PathBuf], maps: &
 
   let mut dng = DngWriter::new(stream, backward_version)?;
 
-  if let Some(artist) = options.get_one::<String>("artist") {
-    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
-  }
-
   if let Some(make) = options.get_one::<String>("make") {
     dng.root_ifd_mut().add_tag(TiffCommonTag::Make, make);
   }
@@ -248,6 +244,11 @@ pub async fn makedng_internal(options: &ArgMatches, inputs: &[&PathBuf], maps: &
     }
   }
 
+  // Takes precedence over the artist of the EXIF input
+  if let Some(artist) = options.get_one::<String>("artist") {
+    dng.root_ifd_mut().add_tag(TiffCommonTag::Artist, artist);
+  }
+
   if let Some(matrix) = options.get_one::<ColorMatrixArg>("matrix1") {
     let illuminant = options
       .get_one::<CalibrationIlluminantArg>("illuminant1")
-- 
2.43.0


From 66774ed5070738677bd324efede0e50c6dc4759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 62/86] fix: --override replaces inputs that could not be set
 up

---
 bin/dnglab/dnglab-lib/src/convert.rs     | 7 ++++++-
 bin/dnglab/dnglab-lib/src/process_raw.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/convert.rs b/bin/dnglab/dnglab-lib/src/convert.rs
index 515e741..a699057 100644
--- a/bin/dnglab/dnglab-lib/src/convert.rs
+++ b/bin/dnglab/dnglab-lib/src/convert.rs
@@ -68,7 +68,12 @@ pub async fn convert(options: &ArgMatches) -> crate::Result<()> {
   }
 
   // Never replace one of the inputs by the output of another one.
-  let inputs: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  let inputs: HashSet<PathBuf> = jobs
+    .iter()
+    .map(|job| &job.input)
+    .chain(rejected.iter().map(|(input, _)| input))
+    .filter_map(|input| input.canonicalize().ok())
+    .collect();
   for job in jobs.iter_mut() {
     if job.output.canonicalize().is_ok_and(|output| inputs.contains(&output)) {
       job.replace = false;
diff --git a/bin/dnglab/dnglab-lib/src/process_raw.rs b/bin/dnglab/dnglab-lib/src/process_raw.rs
index 6c1b467..4964693 100644
--- a/bin/dnglab/dnglab-lib/src/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/process_raw.rs
@@ -66,7 +66,12 @@ pub async fn process_raw(options: &ArgMatches) -> crate::Result<()> {
   }
 
   // Never replace one of the inputs by the output of another one.
-  let inputs: HashSet<PathBuf> = jobs.iter().filter_map(|job| job.input.canonicalize().ok()).collect();
+  let inputs: HashSet<PathBuf> = jobs
+    .iter()
+    .map(|job| &job.input)
+    .chain(rejected.iter().map(|(input, _)| input))
+    .filter_map(|input| input.canonicalize().ok())
+    .collect();
   for job in jobs.iter_mut() {
     if job.output.canonicalize().is_ok_and(|output| inputs.contains(&output)) {
       job.replace = false;
-- 
2.43.0


From bf7a6a84a53af48caf761f71fffcff663d799802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 63/86] fix: process-raw, extract and makedng write through
 links at the place of the output

---
 bin/dnglab/dnglab-lib/src/jobs/extractraw.rs  |  4 ++--
 bin/dnglab/dnglab-lib/src/jobs/mod.rs         | 21 ++++++++++++++++++-
 bin/dnglab/dnglab-lib/src/jobs/process_raw.rs |  4 ++--
 bin/dnglab/dnglab-lib/src/makedng.rs          |  3 ++-
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
index be05d61..503d128 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/extractraw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use log::debug;
@@ -79,7 +79,7 @@ impl ExtractRawJob {
         if let Some(parent) = self.output.parent() {
           create_dir_all(parent)?;
         }
-        let mut file = File::create(&self.output)?;
+        let mut file = create_output(&self.output, self.replace)?;
         if let Err(err) = file.write_all(&data) {
           drop(file);
           if let Err(err) = remove_file(&self.output) {
diff --git a/bin/dnglab/dnglab-lib/src/jobs/mod.rs b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
index d86a8f4..d5a2fcf 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/mod.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/mod.rs
@@ -1,8 +1,14 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
+use crate::{AppError, Result};
 use async_trait::async_trait;
-use std::fmt::Debug;
+use std::{
+  fmt::Debug,
+  fs::{File, OpenOptions, remove_file},
+  io::ErrorKind,
+  path::Path,
+};
 
 pub mod extractraw;
 pub mod process_raw;
@@ -15,3 +21,16 @@ pub trait Job: Clone + Debug + Send {
   /// Execute the job
   async fn execute(&self) -> Self::Output;
 }
+
+/// Create a new output file. An existing file is removed first if it may be replaced,
+/// so links are never followed.
+pub(crate) fn create_output(path: &Path, replace: bool) -> Result<File> {
+  if replace && path.symlink_metadata().is_ok() {
+    remove_file(path)?;
+  }
+  match OpenOptions::new().write(true).create_new(true).open(path) {
+    Ok(file) => Ok(file),
+    Err(err) if err.kind() == ErrorKind::AlreadyExists => Err(AppError::AlreadyExists(path.to_owned())),
+    Err(err) => Err(err.into()),
+  }
+}
diff --git a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
index be78c0a..43bdb03 100644
--- a/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
+++ b/bin/dnglab/dnglab-lib/src/jobs/process_raw.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: LGPL-2.1
 // Copyright 2026 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use super::Job;
+use super::{Job, create_output};
 use crate::{AppError, Result};
 use async_trait::async_trait;
 use chrono::Local;
@@ -94,7 +94,7 @@ impl Raw2Image {
       .to_string_lossy()
       .to_string();
 
-    let mut image_file = BufWriter::new(File::create(&self.output)?);
+    let mut image_file = BufWriter::new(create_output(&self.output, self.replace)?);
 
     match process_raw_image(&self.input, &mut image_file, &self.params) {
       Ok(_) => match self.finish(image_file) {
diff --git a/bin/dnglab/dnglab-lib/src/makedng.rs b/bin/dnglab/dnglab-lib/src/makedng.rs
index aa973cf..2bc4513 100644
--- a/bin/dnglab/dnglab-lib/src/makedng.rs
+++ b/bin/dnglab/dnglab-lib/src/makedng.rs
@@ -15,6 +15,7 @@ use rawler::formats::jfif::{Jfif, is_exif, is_jfif};
 use rawler::formats::tiff::{self, Rational, SRational};
 use rawler::imgop::gamma::{apply_gamma, invert_gamma};
 
+use crate::jobs::create_output;
 use rawler::get_decoder;
 use rawler::imgop::srgb::{srgb_apply_gamma, srgb_invert_gamma};
 use rawler::imgop::xyz::{self, Illuminant};
@@ -71,7 +72,7 @@ pub async fn makedng(options: &ArgMatches) -> crate::Result<()> {
     }
   }
 
-  let mut stream = BufWriter::new(File::create(dest_path)?);
+  let mut stream = BufWriter::new(create_output(dest_path, options.get_flag("override"))?);
 
   let result = match AssertUnwindSafe(makedng_internal(options, &inputs, &maps, &mut stream)).catch_unwind().await {
     Ok(result) => result.and_then(|_| Ok(stream.flush()?)),
-- 
2.43.0


From 507944b9dc63d225d3d1727efe76c4814dc25c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:22 +0000
Subject: [PATCH 64/86] fix: choice of the first color matrix of a DNG depended
 on hash order

---
 rawler/src/dng/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/writer.rs b/rawler/src/dng/writer.rs
index 34bd605..57dbe15 100644
--- a/rawler/src/dng/writer.rs
+++ b/rawler/src/dng/writer.rs
@@ -156,7 +156,7 @@ where
       self.writer.as_shot_neutral(wbcoeff_to_tiff_value(&rawimage));
       // Add matrix and illumninant
       let mut available_matrices = rawimage.color_matrix.clone();
-      if let Some(first_key) = available_matrices.keys().next().cloned() {
+      if let Some(first_key) = available_matrices.keys().min().cloned() {
         let first_matrix = available_matrices
           .remove_entry(&Illuminant::A)
           .or_else(|| available_matrices.remove_entry(&Illuminant::A))
-- 
2.43.0


From 6b02fcc3801026f7672c0244d2bd9151a39789bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:22 +0000
Subject: [PATCH 65/86] fix: develop_params() took a color matrix in hash order

---
 rawler/src/rawimage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 41bb1ee..2db1864 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -563,9 +563,9 @@ impl RawImage {
     //let color_matrix = self.color_matrix.get(&Illuminant::D65).unwrap(); // TODO fixme
     let color_matrix = self
       .color_matrix
-      .values()
-      .next()
-      .cloned()
+      .iter()
+      .min_by_key(|(illuminant, _)| **illuminant)
+      .map(|(_, matrix)| matrix.clone())
       .unwrap_or(vec![1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0]); // TODO: invalid
     assert_eq!(color_matrix.len() % 3, 0); // this is not so nice...
     let components = color_matrix.len() / 3;
-- 
2.43.0


From 6c4ab7745186c8c2127c2ca25751ef4101a01e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 66/86] fix: directories below an IFD were visited in hash
 order

---
 rawler/src/formats/tiff/ifd.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index de42059..0248c25 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -16,7 +16,7 @@ use byteorder::{LittleEndian, ReadBytesExt};
 use log::debug;
 use serde::{Deserialize, Serialize};
 use std::{
-  collections::{BTreeMap, HashMap},
+  collections::BTreeMap,
   io::{Read, Seek, SeekFrom},
 };
 
@@ -42,7 +42,7 @@ pub struct IFD {
   pub next_ifd: u32,
   pub entries: BTreeMap<u16, Entry>,
   pub endian: Endian,
-  pub sub: HashMap<u16, Vec<IFD>>,
+  pub sub: BTreeMap<u16, Vec<IFD>>,
   pub chain: Vec<IFD>,
 }
 
@@ -102,7 +102,7 @@ impl IFD {
 
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<IFD> {
     reader.seek(SeekFrom::Start((base + offset) as u64))?;
-    let mut sub_ifd_offsets = HashMap::new();
+    let mut sub_ifd_offsets = BTreeMap::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
 
@@ -115,7 +115,7 @@ impl IFD {
     }
 
     let mut entries = BTreeMap::new();
-    let mut sub = HashMap::new();
+    let mut sub = BTreeMap::new();
     let mut next_pos = reader.position()?;
     debug!("Parse entries");
     let mut consecutive_errors = 0;
@@ -328,7 +328,7 @@ impl IFD {
     }
   }
 
-  pub fn sub_ifds(&self) -> &HashMap<u16, Vec<IFD>> {
+  pub fn sub_ifds(&self) -> &BTreeMap<u16, Vec<IFD>> {
     &self.sub
   }
 
-- 
2.43.0


From 7b8899c85bf64251e68ac6568de20657b668d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 67/86] fix: a block size near 2^32 made the MRW reader loop
 forever

---
 rawler/src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decoders/mrw.rs b/rawler/src/decoders/mrw.rs
index 263d7b3..bd437c2 100644
--- a/rawler/src/decoders/mrw.rs
+++ b/rawler/src/decoders/mrw.rs
@@ -182,7 +182,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len + 8) as usize;
+      currpos += len as usize + 8;
     }
 
     let tiff_data = file.subview_until_eof(tiffpos as u64)?;
-- 
2.43.0


From 98247e4c15034299ed8410ca041b9b64fb6841a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 68/86] fix: FTP server refused nearly everything for a
 relative or symlinked root

---
 embedftp/src/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embedftp/src/server.rs b/embedftp/src/server.rs
index dea0999..4ab7bb7 100644
--- a/embedftp/src/server.rs
+++ b/embedftp/src/server.rs
@@ -25,6 +25,8 @@ where
   let port = config.server_port;
   let addr = SocketAddr::new(config.server_addr, port);
   let listener = TcpListener::bind(&addr).await?;
+  // Paths of clients are resolved by canonicalize(), so the root must be canonical, too.
+  let server_root = tokio::fs::canonicalize(server_root).await?;
 
   info!("Listening for clients on port {}...", port);
   loop {
-- 
2.43.0


From a91a517b798491c8f56b6bc802b97307147e9cbd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 69/86] fix: RMD / removed the root directory of the FTP server

---
 embedftp/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 7144235..488169a 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -296,7 +296,7 @@ where
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
     if let Ok(dir) = res {
-      if remove_dir_all(dir).await.is_ok() {
+      if dir != self.server_root && remove_dir_all(dir).await.is_ok() {
         self
           .send(Answer::new(ResultCode::RequestedFileActionOkay, "Folder successfully removed"))
           .await?;
-- 
2.43.0


From 8276fc0eeda4fbead138bcc4ab86c16073eb2f86 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 70/86] fix: STOR through a symbolic link wrote outside of the
 FTP server root

---
 embedftp/src/client.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 488169a..4b75a31 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -14,7 +14,7 @@ use std::net::{IpAddr, SocketAddr};
 use std::path::{Component, Path, PathBuf, StripPrefixError};
 use std::result;
 use std::sync::Arc;
-use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file};
+use tokio::fs::{File, canonicalize, create_dir, metadata, read_dir, remove_dir_all, remove_file, symlink_metadata};
 use tokio::io::AsyncWriteExt;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
@@ -266,6 +266,19 @@ where
     dir
   }
 
+  /// Like complete_path(), but the file itself may not exist yet.
+  async fn complete_new_file(&self, path: &Path) -> result::Result<PathBuf, io::Error> {
+    let (Some(parent), Some(filename)) = (path.parent(), path.file_name()) else {
+      return Err(io::ErrorKind::InvalidInput.into());
+    };
+    let file = self.complete_path(parent).await?.join(filename);
+    match symlink_metadata(&file).await {
+      // An existing entry may be a link which leads out of the root.
+      Ok(_) => self.complete_path(path).await,
+      Err(_) => Ok(file),
+    }
+  }
+
   async fn mkd(&mut self, path: PathBuf) -> Result<()> {
     let fullpath = self.cwd.join(&path);
     let parent = get_parent(fullpath.clone());
@@ -654,7 +667,7 @@ where
 
   /// Put file directly or delegate to a filter
   async fn put_file(&mut self, path: PathBuf, content: Arc<Vec<u8>>) -> Result<()> {
-    let path = PathBuf::from(&self.server_root).join(path.iter().skip(1).collect::<PathBuf>());
+    let path = self.complete_new_file(&path).await?;
     let handled = self.env.stor_file(&path, content.clone()).await?;
     if !handled {
       tokio::fs::write(&path, content.as_ref()).await?;
-- 
2.43.0


From 717b84cdd85af76ae794f669f61add6b7ecfd760 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 71/86] fix: STOR with a parent reference dropped the FTP
 session without a reply

---
 embedftp/src/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 4b75a31..d575ae2 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -640,7 +640,9 @@ where
     self.initiate_data_connection().await?;
     if self.data_reader.is_some() {
       if invalid_path(&path) {
-        return Err(Error::Io(io::ErrorKind::PermissionDenied.into()));
+        self.close_data_connection();
+        self.send(Answer::new(ResultCode::FileNameNotAllowed, "File name not allowed")).await?;
+        return Ok(());
       }
       let path = self.cwd.join(path);
       self
-- 
2.43.0


From 9e9630bd66a25a9e04fcd51464f19c10688729fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 72/86] fix: a malformed FTP command dropped the session
 without a reply

---
 embedftp/src/client.rs  | 4 ++++
 embedftp/src/codec.rs   | 4 ++--
 embedftp/src/command.rs | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index d575ae2..bd1d7d9 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -217,6 +217,10 @@ where
           .send(Answer::new(ResultCode::UnknownCommand, &format!("\"{}\": Not implemented", s)))
           .await?
       }
+      Command::Invalid(err) => {
+        warn!("Invalid command: {}", err);
+        self.send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid parameter or argument")).await?
+      }
       _ => {
         warn!("Please login first");
         // It means that the user tried to send a command while they weren't logged yet.
diff --git a/embedftp/src/codec.rs b/embedftp/src/codec.rs
index d173308..777ab81 100644
--- a/embedftp/src/codec.rs
+++ b/embedftp/src/codec.rs
@@ -3,7 +3,6 @@
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
 use crate::command::Command;
-use crate::error::Error;
 use crate::ftp::Answer;
 use bytes::BytesMut;
 use std::io::{self, Write};
@@ -20,7 +19,8 @@ impl Decoder for FtpCodec {
     if let Some(index) = find_crlf(buf) {
       let line = buf.split_to(index);
       let _ = buf.split_to(2); // Remove \r\n.
-      Command::new(line.to_vec()).map(Some).map_err(Error::to_io_error)
+      // A malformed command must not end the session, it's answered like any other command.
+      Ok(Some(Command::new(line.to_vec()).unwrap_or_else(|err| Command::Invalid(err.to_string()))))
     } else {
       Ok(None)
     }
diff --git a/embedftp/src/command.rs b/embedftp/src/command.rs
index 7d8c8f0..29844e8 100644
--- a/embedftp/src/command.rs
+++ b/embedftp/src/command.rs
@@ -30,6 +30,8 @@ pub enum Command {
   Type(TransferType),
   CdUp,
   Unknown(String),
+  /// A known command with missing or malformed arguments
+  Invalid(String),
   User(String),
 }
 
@@ -57,6 +59,7 @@ impl AsRef<str> for Command {
       Command::Rmd(_) => "RMD",
       Command::Dele(_) => "DELE",
       Command::NoOp => "NOOP",
+      Command::Invalid(_) => "INVL", // doesn't exist
       Command::Unknown(_) => "UNKN", // doesn't exist
     }
   }
-- 
2.43.0


From 213be1d11ff3477e3f86c8a2354dec919692cb72 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 73/86] fix: failed LIST, NLST and RETR got a second reply
 telling success or left the data connection open

---
 embedftp/src/client.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index bd1d7d9..4ef9403 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -388,6 +388,7 @@ where
               }
             }
             Err(_) => {
+              self.close_data_connection();
               self
                 .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
                 .await?;
@@ -400,6 +401,7 @@ where
         self.send_data(out).await?;
       } else {
         warn!("No such file or directory");
+        self.close_data_connection();
         self
           .send(Answer::new(ResultCode::InvalidParameterOrArgument, "No such file or directory"))
           .await?;
@@ -439,6 +441,7 @@ where
         let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
           Some(Ok(matches)) => matches,
           _ => {
+            self.close_data_connection();
             self
               .send(Answer::new(ResultCode::InvalidParameterOrArgument, "Invalid pattern specified"))
               .await?;
@@ -472,6 +475,7 @@ where
 
         self.send_data(out).await?;
       } else {
+        self.close_data_connection();
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
       }
     } else {
@@ -597,6 +601,7 @@ where
             Ok(file) => file,
             Err(e) => {
               error!("Failed to open file {:?}, {}", path, e);
+              self.close_data_connection();
               self
                 .send(Answer::new(
                   ResultCode::LocalErrorInProcessing,
@@ -613,6 +618,7 @@ where
           }
         } else {
           warn!("No path, not exist");
+          self.close_data_connection();
           self
             .send(Answer::new(
               ResultCode::LocalErrorInProcessing,
@@ -622,6 +628,7 @@ where
         }
       } else {
         warn!("No path");
+        self.close_data_connection();
         self
           .send(Answer::new(
             ResultCode::LocalErrorInProcessing,
-- 
2.43.0


From 6de86446a560eb6c5ebdf42d70744fadb436ee79 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 74/86] fix: an unreachable FTP data port was answered twice

---
 embedftp/src/client.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 4ef9403..d2ddda2 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -230,7 +230,8 @@ where
     Ok(())
   }
 
-  async fn initiate_data_connection(&mut self) -> Result<()> {
+  /// Returns false if the connection failed and the client already knows about it.
+  async fn initiate_data_connection(&mut self) -> Result<bool> {
     // only open when we are in active mode
     if let Some(port) = self.active_data_port {
       let mut addr = self.remote_addr;
@@ -240,14 +241,14 @@ where
         Err(e) => {
           error!("Connection failed to {}, {}", addr, e);
           self.send(Answer::new(ResultCode::CantOpenDataConnection, "Unable to connect")).await?;
-          return Ok(());
+          return Ok(false);
         }
       };
       let (r, w) = stream.into_split();
       self.data_writer = Some(w);
       self.data_reader = Some(r);
     }
-    Ok(())
+    Ok(true)
   }
 
   fn close_data_connection(&mut self) {
@@ -369,7 +370,9 @@ where
   }
 
   async fn list(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let path = self.cwd.join(path.unwrap_or_default());
       let directory = PathBuf::from(&path);
@@ -418,7 +421,9 @@ where
   }
 
   async fn nlst(&mut self, path: Option<PathBuf>) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_writer.is_some() {
       let cwd = self.cwd.clone();
       let res = self.complete_path(&cwd).await;
@@ -586,7 +591,9 @@ where
   }
 
   async fn retr(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     // TODO: check if multiple data connection can be opened at the same time.
     if self.data_writer.is_some() {
       let path = self.cwd.join(path);
@@ -648,7 +655,9 @@ where
   }
 
   async fn stor(&mut self, path: PathBuf) -> Result<()> {
-    self.initiate_data_connection().await?;
+    if !self.initiate_data_connection().await? {
+      return Ok(());
+    }
     if self.data_reader.is_some() {
       if invalid_path(&path) {
         self.close_data_connection();
-- 
2.43.0


From 384be2b6901d0fced7280fbf55c320429d7d17a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 75/86] fix: EPSV ALL and a repeated PASV or EPSV never got a
 final reply

---
 embedftp/src/client.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index d2ddda2..226aa9a 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -494,10 +494,7 @@ where
   }
 
   async fn pasv(&mut self) -> Result<()> {
-    if self.data_writer.is_some() {
-      self.send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Already listening...")).await?;
-      return Ok(());
-    }
+    self.close_data_connection();
     self.active_data_port = None;
     let port = 0; // auto configure port
     let mut addr = self.local_addr;
@@ -546,15 +543,12 @@ where
 
     if let Some(proto) = proto {
       if proto.to_uppercase().eq("ALL") {
-        self.data_writer = None;
-        return Ok(());
+        self.close_data_connection();
+        return self.send(Answer::new(ResultCode::Ok, "EPSV ALL accepted")).await;
       }
     }
 
-    if self.data_writer.is_some() {
-      self.send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Already listening...")).await?;
-      return Ok(());
-    }
+    self.close_data_connection();
 
     self.active_data_port = None;
 
-- 
2.43.0


From ad4310db85d7ca1ca5fb974fe111152ddd82cede Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 76/86] fix: CWD accepted the name of a file

---
 embedftp/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 226aa9a..76100ae 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -351,8 +351,9 @@ where
     let path = self.cwd.join(&directory);
     let res = self.complete_path(&path).await;
     if let Ok(dir) = res {
+      let is_dir = metadata(&dir).await.map(|m| m.is_dir()).unwrap_or(false);
       let res = self.strip_prefix(dir);
-      if let Ok(prefix) = res {
+      if let (true, Ok(prefix)) = (is_dir, res) {
         self.cwd = prefix.to_path_buf();
         prefix_slash(&mut self.cwd);
         self
-- 
2.43.0


From dca3b5efb3ba071f62e782be6e2fbb8000d7f109 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 77/86] fix: an aborted FTP transfer dropped the session
 without a reply

---
 embedftp/src/client.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 76100ae..94af2e9 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -256,6 +256,13 @@ where
     self.data_writer = None;
   }
 
+  /// A broken data connection ends the transfer, not the session
+  async fn transfer_aborted<E: std::fmt::Display>(&mut self, err: E) -> Result<()> {
+    warn!("Transfer aborted: {}", err);
+    self.close_data_connection();
+    self.send(Answer::new(ResultCode::ConnectionClosed, "Transfer aborted")).await
+  }
+
   async fn complete_path(&self, path: &Path) -> result::Result<PathBuf, io::Error> {
     let directory = self.server_root.join(if path.has_root() {
       path.iter().skip(1).clone().collect()
@@ -402,7 +409,9 @@ where
         } else {
           add_file_info(path, &mut out).await;
         }
-        self.send_data(out).await?;
+        if let Err(e) = self.send_data(out).await {
+          return self.transfer_aborted(e).await;
+        }
       } else {
         warn!("No such file or directory");
         self.close_data_connection();
@@ -479,7 +488,9 @@ where
           }
         }
 
-        self.send_data(out).await?;
+        if let Err(e) = self.send_data(out).await {
+          return self.transfer_aborted(e).await;
+        }
       } else {
         self.close_data_connection();
         self.send(Answer::new(ResultCode::FileNotFound, "No such file or directory")).await?;
@@ -614,7 +625,9 @@ where
             }
           };
           if let Some(writer) = &mut self.data_writer {
-            tokio::io::copy(&mut file, writer).await?;
+            if let Err(e) = tokio::io::copy(&mut file, writer).await {
+              return self.transfer_aborted(e).await;
+            }
           } else {
             return Err(Error::from("Trying to send data but no data connection is open."));
           }
@@ -663,7 +676,10 @@ where
       self
         .send(Answer::new(ResultCode::DataConnectionAlreadyOpen, "Starting to send file..."))
         .await?;
-      let data = self.receive_data().await?;
+      let data = match self.receive_data().await {
+        Ok(data) => data,
+        Err(e) => return self.transfer_aborted(e).await,
+      };
       info!("Received file: {:?}, {} bytes", path, data.len());
       self.close_data_connection();
       match self.put_file(path, Arc::new(data)).await {
-- 
2.43.0


From 8171e45774f7b70f7da807caaeedc7985a1e121a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 78/86] fix: NLST listed nothing in a directory with brackets
 in its name

---
 embedftp/src/client.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/embedftp/src/client.rs b/embedftp/src/client.rs
index 94af2e9..8a9602c 100644
--- a/embedftp/src/client.rs
+++ b/embedftp/src/client.rs
@@ -440,6 +440,8 @@ where
       if let Ok(cwd) = res {
         let mut out = vec![];
 
+        // Only the argument is a pattern, the name of the directory isn't.
+        let cwd_pattern = PathBuf::from(glob::Pattern::escape(&cwd.to_string_lossy()));
         let pattern = if let Some(p) = path {
           if p.is_absolute() {
             self
@@ -448,9 +450,9 @@ where
             self.close_data_connection();
             return Ok(());
           }
-          cwd.join(p)
+          cwd_pattern.join(p)
         } else {
-          cwd.join("*")
+          cwd_pattern.join("*")
         };
 
         let matches = match pattern.to_str().map(|s| glob(s).map_err(|_| Error::from("Invalid glob pattern"))) {
-- 
2.43.0


From b46a747055c253acb396fb2de5d3be2ff7d67488 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 79/86] fix: a failing conversion of an FTP upload left a
 broken DNG or destroyed an existing one

---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index 57e8864..f11cca1 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -8,7 +8,7 @@ use rawler::decoders::supported_extensions;
 use rawler::rawsource::RawSource;
 use std::ffi::OsStr;
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{Cursor, Write};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -38,18 +38,14 @@ impl FtpCallback for FtpState {
       let original_filename = path.file_name().and_then(OsStr::to_str).unwrap_or_default();
       let rawfile = RawSource::new_from_shared_vec(data).with_path(original_filename);
       let out_path = path.with_extension("dng");
-      let mut dng = BufWriter::new(File::create(out_path)?);
+      // Convert in memory, a failing conversion must neither leave an incomplete DNG nor destroy an existing one.
+      let mut dng = Cursor::new(Vec::new());
       let _info =
         convert_raw_source(&rawfile, &mut dng, original_filename, &state.params).map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
+      let mut file = File::create(out_path)?;
+      file.write_all(dng.get_ref())?;
       if state.params.keep_mtime {
-        if let Err(err) = copy_mtime_from_rawsource(
-          &rawfile,
-          &dng
-            .into_inner()
-            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("Can't access inner file: {e}")))?,
-          None,
-          &state.params,
-        ) {
+        if let Err(err) = copy_mtime_from_rawsource(&rawfile, &file, None, &state.params) {
           log::warn!("Failed to set mtime, continue anyway: {}", err);
         }
       }
-- 
2.43.0


From d20950fb2eb3431f2ccfaeebf26794710e7b74bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 80/86] fix: the converted DNG of an FTP upload was written
 through links out of the server root

---
 bin/dnglab/dnglab-lib/src/ftpconv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/dnglab/dnglab-lib/src/ftpconv.rs b/bin/dnglab/dnglab-lib/src/ftpconv.rs
index f11cca1..3bde27e 100644
--- a/bin/dnglab/dnglab-lib/src/ftpconv.rs
+++ b/bin/dnglab/dnglab-lib/src/ftpconv.rs
@@ -42,6 +42,10 @@ impl FtpCallback for FtpState {
       let mut dng = Cursor::new(Vec::new());
       let _info =
         convert_raw_source(&rawfile, &mut dng, original_filename, &state.params).map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
+      // Only the uploaded name is known to be inside of the server root, a link could lead out of it.
+      if std::fs::symlink_metadata(&out_path).is_ok_and(|m| m.is_symlink()) {
+        return Err(std::io::ErrorKind::PermissionDenied.into());
+      }
       let mut file = File::create(out_path)?;
       file.write_all(dng.get_ref())?;
       if state.params.keep_mtime {
-- 
2.43.0


From d5ad0830c79f9f4da0af26f2422fd962399d71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 81/86] fix: decode lossy JPEG strips and tiles of grayscale
 images

DNG allows baseline JPEG with PhotometricInterpretation BlackIsZero and 8 bit
samples, and plain_image_from_ifd() dispatches it to the JpegDecompressor,
which refused everything but RGB.
---
 rawler/src/decompressors/jpeg.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/rawler/src/decompressors/jpeg.rs b/rawler/src/decompressors/jpeg.rs
index f5237f1..4025126 100644
--- a/rawler/src/decompressors/jpeg.rs
+++ b/rawler/src/decompressors/jpeg.rs
@@ -1,4 +1,4 @@
-//! Lossy JPEG decompressor for 8-bit RGB image strips and tiles.
+//! Lossy JPEG decompressor for 8-bit RGB and grayscale image strips and tiles.
 
 use crate::decompressors::{Decompressor, LineIteratorMut};
 
@@ -14,25 +14,25 @@ impl JpegDecompressor {
 impl<'a> Decompressor<'a, u16> for JpegDecompressor {
   /// Decodes a lossy JPEG buffer into `u16` pixel lines.
   ///
-  /// The JPEG is decoded to an 8-bit RGB image; each `u8` sample is
-  /// zero-extended to `u16` without scaling. Only `ImageRgb8` output is
-  /// accepted; any other format returns `Err`.
+  /// The JPEG is decoded to an 8-bit RGB or grayscale image; each `u8` sample
+  /// is zero-extended to `u16` without scaling. Only `ImageRgb8` and
+  /// `ImageLuma8` output is accepted; any other format returns `Err`.
   ///
   /// # Errors
-  /// Returns `Err` if JPEG decoding fails or the decoded image is not RGB-8.
+  /// Returns `Err` if JPEG decoding fails or the decoded image is not RGB-8 or Luma-8.
   fn decompress(&self, src: &[u8], skip_rows: usize, lines: impl LineIteratorMut<'a, u16>, line_width: usize) -> std::result::Result<(), String> {
     let img = image::load_from_memory_with_format(src, image::ImageFormat::Jpeg).map_err(|err| format!("Lossy JPEG decompression failed: {:?}", err))?;
-    match img {
-      image::DynamicImage::ImageRgb8(image_buffer) => {
-        for (dst, src) in lines.zip(image_buffer.chunks_exact(line_width).skip(skip_rows)) {
-          for (dst, src) in dst.iter_mut().zip(src.iter()) {
-            *dst = *src as u16; // Only change storage format, you MUST NOT scale up!
-          }
-        }
-        Ok(())
+    let samples = match img {
+      image::DynamicImage::ImageRgb8(image_buffer) => image_buffer.into_raw(),
+      image::DynamicImage::ImageLuma8(image_buffer) => image_buffer.into_raw(),
+      _ => return Err(format!("JpegDecompressor: expected RGB-8 or Luma-8 image")),
+    };
+    for (dst, src) in lines.zip(samples.chunks_exact(line_width).skip(skip_rows)) {
+      for (dst, src) in dst.iter_mut().zip(src.iter()) {
+        *dst = *src as u16; // Only change storage format, you MUST NOT scale up!
       }
-      _ => Err(format!("JpegDecompressor: expected RGB-8 image")),
     }
+    Ok(())
   }
 
   fn can_skip_rows(&self) -> bool {
-- 
2.43.0


From bc6b917596cd49ceed16ffcc4c0cac8e3552a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 82/86] fix: analyze --srgb writes RGB samples for monochrome
 images

The PPM header announces three samples per pixel, but a monochrome image was
written with one.
---
 bin/dnglab/dnglab-lib/src/analyze.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bin/dnglab/dnglab-lib/src/analyze.rs b/bin/dnglab/dnglab-lib/src/analyze.rs
index 9b4ea7e..b7210e2 100644
--- a/bin/dnglab/dnglab-lib/src/analyze.rs
+++ b/bin/dnglab/dnglab-lib/src/analyze.rs
@@ -80,10 +80,9 @@ pub async fn analyze(options: &ArgMatches) -> crate::Result<()> {
     let rgb = full.into_rgb8();
     dump_rgb8_ppm8(rgb.width() as usize, rgb.height() as usize, rgb.as_flat_samples().samples)?;
   } else if options.get_flag("srgb") {
-    // TODO: only RGB output is supported
-    let image = raw_to_srgb(PathBuf::from(in_file), &RawDecodeParams::default())?;
-    let samples = image.as_flat_samples_u16().ok_or_else(|| anyhow::anyhow!("image is not u16 format"))?;
-    dump_ppm16(image.width() as usize, image.height() as usize, samples.samples)?;
+    // PPM is always RGB, other color types (e.g. monochrome) are converted
+    let image = raw_to_srgb(PathBuf::from(in_file), &RawDecodeParams::default())?.into_rgb16();
+    dump_ppm16(image.width() as usize, image.height() as usize, image.as_flat_samples().samples)?;
   }
   Ok(())
 }
-- 
2.43.0


From 226242b97d49305ab3cd36b83ada21cb5c582967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:43 +0000
Subject: [PATCH 83/86] fix: DNG masks, depth maps and enhanced images were
 decoded as the raw image

---
 rawler/src/decoders/dng.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index f056be2..94881c9 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -234,8 +234,10 @@ impl<'a> DngDecoder<'a> {
         !subsampled && (compression == 7 || compression == 8 || compression == 1 || compression == 0x884c || compression == 52546)
       })
       .collect::<Vec<&IFD>>();
-    if let Some(first) = ifds.first() {
-      Ok(first)
+    // The main image has type 0. Masks, depth maps and enhanced images have other types.
+    let is_main = |ifd: &&&IFD| ifd.get_entry(TiffCommonTag::NewSubFileType).map(|e| e.force_u32(0)).unwrap_or(0) == 0;
+    if let Some(raw) = ifds.iter().find(is_main).or_else(|| ifds.first()) {
+      Ok(raw)
     } else {
       Err(RawlerError::DecoderFailed(format!("TODO: Unsupported DNG compression")))
     }
-- 
2.43.0


From 7b3d4acbec0bd44e07f51177e26bdd9f09c2436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 84/86] fix: tiny mean black levels of masked areas panicked
 (no exact rational)

---
 rawler/src/formats/tiff/value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index e39a15c..47c0c48 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -238,6 +238,11 @@ impl From<f32> for Rational {
     }
     let ratio = num::rational::Ratio::from_float(value).expect("Failed to convert float");
     // TODO: This is a workaround, need to implement better routine
+    if ratio.denom().bits() > 32 {
+      // Too small to be exact, all such values are far below 1.0
+      const D: u32 = 1 << 31;
+      return Self::new((value as f64 * D as f64).round() as u32, D);
+    }
     Self::new(
       ratio.numer().try_into().expect("Rational numerator overflows u32"),
       ratio.denom().try_into().expect("Rational denominator overflows u32"),
-- 
2.43.0


From 03b4c272130e84f92b8719ac8a6c570cb548a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 85/86] fix: decoding a rotated Fuji file without pixels
 panicked in debug builds

---
 rawler/src/decoders/raf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/decoders/raf.rs b/rawler/src/decoders/raf.rs
index a51b467..a7cd292 100644
--- a/rawler/src/decoders/raf.rs
+++ b/rawler/src/decoders/raf.rs
@@ -369,7 +369,8 @@ impl<'a> Decoder for RafDecoder<'a> {
         (pix, None)
       } else {
         let alt_layout = self.get_alt_layout();
-        let (pix, t) = self.rotate_image(image.pixels(), &self.camera, alt_layout, width, height, dummy)?;
+        let src = if dummy { &[] } else { image.pixels() };
+        let (pix, t) = self.rotate_image(src, &self.camera, alt_layout, width, height, dummy)?;
         (pix, Some(t))
       };
 
-- 
2.43.0


From c69d5cabc31535c7d1558336ae5c519e285889ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 86/86] fix: mean black level of large masked areas lost
 precision

---
 rawler/src/rawimage.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rawler/src/rawimage.rs b/rawler/src/rawimage.rs
index 2db1864..aab3cdd 100644
--- a/rawler/src/rawimage.rs
+++ b/rawler/src/rawimage.rs
@@ -288,25 +288,25 @@ impl RawImage {
 
     #[derive(Clone, Copy)]
     struct Sample {
-      avg: f32,
+      sum: f64, // f32 is not precise enough for large areas
       count: usize,
     }
 
     if !blackareas.is_empty() {
-      let mut samples = vec![Sample { avg: 0.0, count: 0 }; x];
+      let mut samples = vec![Sample { sum: 0.0, count: 0 }; x];
 
       for area in blackareas {
         for row in area.p.y..area.p.y + area.d.h {
           for col in area.p.x..area.p.x + area.d.w {
             //let color = cfa.color_at(row, col);
             let color = (row % cfa.height) * cfa.width + (col % cfa.width);
-            samples[color].avg += image[row * width + col].as_f32();
+            samples[color].sum += image[row * width + col].as_f32() as f64;
             samples[color].count += 1;
           }
         }
       }
 
-      let blacklevels: Vec<f32> = samples.into_iter().map(|s| s.avg / s.count as f32).collect();
+      let blacklevels: Vec<f32> = samples.into_iter().map(|s| (s.sum / s.count as f64) as f32).collect();
 
       debug!("Calculated blacklevels: {:?}", blacklevels);
       // TODO: support other then RGGB levels
-- 
2.43.0

