From d13d60708b7629cafd58de58395e5db82b99b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 1/8] fix: reject header values that cannot be serialized

HeaderBuilder::build accepted zero layers/channels/chroma_scale, block_size 1
and metadata sizes that are not whole words; Header::encode underflowed or
silently truncated them, and a zero chroma_scale divided by zero.
---
 src/header/builder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 3474a31..9073e64 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -19,6 +19,16 @@ impl HeaderBuilder {
     pub fn build(self) -> Result<Header, HeaderErr> {
         let width = check_range(self.width, 0, 1 << 30, "Width")?;
         let height = check_range(self.height, 0, 1 << 30, "Height")?;
+        if self.layers == 0 || self.channels == 0 || self.chroma_scale == 0 {
+            return Err(HeaderErr::WrongValue(String::from(
+                "Layers, channels and chroma scale must not be zero",
+            )));
+        }
+        if self.metadata_size % 4 != 0 {
+            return Err(HeaderErr::WrongValue(String::from(
+                "Metadata size must be a multiple of 4",
+            )));
+        }
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
@@ -44,7 +54,7 @@ impl HeaderBuilder {
             is_signed: false,
             quality: check_range(self.quality, 0, 1025, "Quality")?,
             chroma_scale: self.chroma_scale,
-            block_size: check_range(self.block_size, 0, 31, "Block size")?,
+            block_size: check_range(self.block_size, 1, 31, "Block size")?,
             filter: self.filter,
             quantization: Quantization::Scalar,
             encoder: self.encoder,
-- 
2.43.0


From 8a30dd481c4ce08bc4a7ea251c13a436f4296b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 2/8] fix: report Overflow when no space is left for block data

A buffer that ended within the block size table of a level made
chunks_mut(0) panic instead of returning CompressError::Overflow.
---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 9d79712..f48b43b 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -174,6 +174,9 @@ fn compress_image_data(
         // make iterator over temporary blocks
         let blocks_buffer_free_space = blocks_buffer.len();
         let temp_block_size = blocks_buffer_free_space / block_count;
+        if temp_block_size == 0 {
+            return Err(CompressError::Overflow);
+        }
 
         let aux_data_chunks = Image::from_slice(aux_data, (width, height), channels * layers)
             .into_chunks_mut(bs, step);
-- 
2.43.0


From 42ed3e3a2431836db2fd643404e2e8dac4125127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 3/8] fix: validate color transform denominators

set_denominator checked the previous value instead of its argument, and
ColorTransformProgram::decode accepted denominators which become zero or
negative once truncated to i16, so detransform divided by zero.
---
 src/color_transform/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 3436e84..a633d2e 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -1,4 +1,4 @@
-use std::{cmp, io, u8};
+use std::{cmp, i16, io, u8};
 
 use num_traits::cast::NumCast;
 
@@ -56,7 +56,7 @@ impl ChannelTransformBuilder {
 
     pub fn set_denominator(&mut self, denominator: isize) -> &mut Self {
         assert!(
-            self.denominator > 0,
+            denominator > 0,
             "Denominator should be positive integer"
         );
         self.denominator = denominator;
@@ -228,7 +228,7 @@ impl ColorTransformProgram {
                 channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);
             }
             let denominator = signed_decode(&mut stream, 2)?;
-            if denominator == 0 {
+            if denominator <= 0 || denominator > i16::MAX as i32 {
                 return Err(DecompressError::Malformed);
             }
             channel_transform_builder.set_denominator(denominator as isize);
-- 
2.43.0


From b6ad9c1840bf8cf2fc3ab9227b1ff3bc1abff640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 4/8] fix: decode the same chroma flags that encode returned

encode assigns the flag of the last transform of a channel, decode only ever
set it, so blocks were decoded with different quality and code thresholds.
---
 src/color_transform/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index a633d2e..82db8e9 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -235,9 +235,9 @@ impl ColorTransformProgram {
 
             let channel_is_chroma = signed_decode(&mut stream, 2)?;
 
+            is_chroma[dest_channel] = channel_is_chroma != 0;
             if channel_is_chroma != 0 {
                 channel_transform_builder.set_chroma();
-                is_chroma[dest_channel] = true;
             }
 
             color_transform_program.add_channel_transform(channel_transform_builder.build());
-- 
2.43.0


From bf579ab0e30181589e4afa1d5b5ee6425cb460c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 5/8] fix: do not touch the output buffer in test mode

decompress_simple overwrote (and required) the output buffer even when only
a test decode was requested.
---
 src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb5ef14..da1bfae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,12 +61,14 @@ pub fn decompress_simple(
     let next_point_of_interest =
         decompress_aux_data(data, &header, &is_chroma, downsampling, test, &mut aux_data)?;
 
-    color_transform.detransform_and_to_interleaved(
-        &mut aux_data,
-        &header,
-        header.get_downsampled_channel_size(downsampling),
-        &mut buffer,
-    );
+    if !test {
+        color_transform.detransform_and_to_interleaved(
+            &mut aux_data,
+            &header,
+            header.get_downsampled_channel_size(downsampling),
+            &mut buffer,
+        );
+    }
 
     Ok(next_point_of_interest)
 }
-- 
2.43.0


From ef3ef29b79166c9bd32b8572bb3eaae63f6fb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 6/8] fix: validate buffer sizes before unchecked pixel access

An aux buffer smaller than the header dimensions, or a short is_chroma
slice, was read and written out of bounds in release builds.
---
 src/compress/mod.rs     | 12 ++++++++++++
 src/processing/image.rs |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index f48b43b..2e605ce 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -23,6 +23,12 @@ pub fn compress_aux_data(
     is_chroma: &[bool],
     mut buffer: &mut [u8],
 ) -> Result<usize, CompressError> {
+    if aux_data.len() < header.get_downsampled_image_size(0)
+        || is_chroma.len() < usize::from(header.layers) * usize::from(header.channels)
+    {
+        return Err(CompressError::Malformed);
+    }
+
     lift_and_quantize(&mut aux_data, &header, &is_chroma);
     compress_image_data(&mut aux_data, &header, &mut buffer, &is_chroma)
 }
@@ -262,6 +268,12 @@ pub fn decompress_image_data(
     test: bool,
     is_chroma: &[bool],
 ) -> Result<usize, DecompressError> {
+    if aux_data.len() < header.get_downsampled_image_size(downsampling)
+        || is_chroma.len() < usize::from(header.layers) * usize::from(header.channels)
+    {
+        return Err(DecompressError::TypeMismatch);
+    }
+
     let chroma_quality = header.get_chroma_quality();
 
     let width = header.width as usize;
diff --git a/src/processing/image.rs b/src/processing/image.rs
index 94c2cf4..bb495ae 100644
--- a/src/processing/image.rs
+++ b/src/processing/image.rs
@@ -12,6 +12,15 @@ pub struct Image<'a, T> {
 
 impl<'a, T> Image<'a, T> {
     pub fn from_slice(data: &'a mut [T], size: (usize, usize), channels: usize) -> Image<'a, T> {
+        let required_len = size
+            .0
+            .checked_mul(size.1)
+            .and_then(|channel_size| channel_size.checked_mul(channels));
+        assert!(
+            required_len.map_or(false, |len| data.len() >= len),
+            "Image data is smaller than its dimensions!"
+        );
+
         Image {
             data,
             size,
-- 
2.43.0


From 510ad372a84b51aa68134f8854a61e4c51a3f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 7/8] fix: reject ragged images in lifting

The vertical passes index every row by the width of another one without
bounds checks, so rows of different length were accessed out of bounds.
---
 src/lifting/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lifting/mod.rs b/src/lifting/mod.rs
index afa35db..1a9c01d 100644
--- a/src/lifting/mod.rs
+++ b/src/lifting/mod.rs
@@ -15,6 +15,8 @@ fn lift(
     horizontal_lift: unsafe fn(&mut [i16], usize),
     vertical_lift: unsafe fn(&mut [&mut [i16]], usize),
 ) {
+    assert_rectangular(image);
+
     let mut step = 1;
     let hint_do_parallel = get_hint_do_parallel(&image, config_factor);
 
@@ -41,6 +43,8 @@ fn unlift(
     horizontal_unlift: unsafe fn(&mut [i16], usize),
     vertical_unlift: unsafe fn(&mut [&mut [i16]], usize),
 ) {
+    assert_rectangular(image);
+
     let hint_do_parallel = get_hint_do_parallel(&image, config_factor);
 
     let mut step = 1;
@@ -65,6 +69,13 @@ fn unlift(
     }
 }
 
+fn assert_rectangular(image: &[&mut [i16]]) {
+    assert!(
+        image.iter().all(|row| row.len() == image[0].len()),
+        "All image rows must have the same length"
+    );
+}
+
 fn get_hint_do_parallel(image: &[&mut [i16]], config_factor: usize) -> bool {
     image.len() * image[0].len() > config_factor
 }
-- 
2.43.0


From 6d1c21dcb64c0044377bbc92552133b83c669271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 8/8] fix: split codes longer than 32 bits

put_bits cannot write 32 or more bits at a word boundary, so large values
(long zero runs, factors) were corrupted by unsigned_code with a high pot.
---
 src/encode/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index e494bde..51d957d 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -18,7 +18,9 @@ pub fn unsigned_code(x: u32, stream: &mut impl bits::BitsWriter, pot: u32) -> io
         unsigned_code(x - (12 << (pot)), stream, new_pot)?;
     } else {
         // encode x / 2^pot in unary followed by x % 2^pot in binary
-        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), y + 1 + pot)?;
+        // (in two parts, as a single code may not fit in 32 bits)
+        stream.put_bits(0, y)?;
+        stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), 1 + pot)?;
     }
 
     Ok(())
-- 
2.43.0

