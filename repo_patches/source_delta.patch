From 7db5b13bc1655cb32e0c01a277be50e20f7907d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 01/20] fix: return Overflow instead of panicking when the
 buffer has no room for the blocks of a level

chunks_mut(0) panicked when fewer bytes than blocks were left after the block size table.
---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 9d79712..f48b43b 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -174,6 +174,9 @@ fn compress_image_data(
         // make iterator over temporary blocks
         let blocks_buffer_free_space = blocks_buffer.len();
         let temp_block_size = blocks_buffer_free_space / block_count;
+        if temp_block_size == 0 {
+            return Err(CompressError::Overflow);
+        }
 
         let aux_data_chunks = Image::from_slice(aux_data, (width, height), channels * layers)
             .into_chunks_mut(bs, step);
-- 
2.43.0


From 9db2e28c5afc9855b80e13790161b2d9d7328faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 02/20] fix: reject header values that the file format cannot
 represent

A block size of 1 and zero layers, channels or chroma scale were accepted by
HeaderBuilder, underflowed in Header::encode (panic in debug builds, a corrupt
header in release builds) and a zero chroma scale also divided by zero.
---
 src/header/builder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 3474a31..ac4b963 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -22,6 +22,12 @@ impl HeaderBuilder {
         let bit_depth = 8;
         let channel_size = width as usize * height as usize;
 
+        if self.layers == 0 || self.channels == 0 || self.chroma_scale == 0 {
+            return Err(HeaderErr::WrongValue(String::from(
+                "Layers, channels and chroma scale must be positive",
+            )));
+        }
+
         let layer_size = channel_size
             .checked_mul(self.layers as usize)
             .ok_or_else(|| HeaderErr::WrongValue(String::from("layer size is too large")))?;
@@ -44,7 +50,7 @@ impl HeaderBuilder {
             is_signed: false,
             quality: check_range(self.quality, 0, 1025, "Quality")?,
             chroma_scale: self.chroma_scale,
-            block_size: check_range(self.block_size, 0, 31, "Block size")?,
+            block_size: check_range(self.block_size, 1, 31, "Block size")?,
             filter: self.filter,
             quantization: Quantization::Scalar,
             encoder: self.encoder,
-- 
2.43.0


From c263bc79d42bccd4700307a13e10c86718626f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 03/20] fix: reject color transform denominators that are not
 positive 16 bit values

The denominator is used as i16: a multiple of 65536 in a file divided by zero.
set_denominator checked the previous denominator and not the new one.
---
 src/color_transform/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index 3436e84..d3f2186 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -56,7 +56,7 @@ impl ChannelTransformBuilder {
 
     pub fn set_denominator(&mut self, denominator: isize) -> &mut Self {
         assert!(
-            self.denominator > 0,
+            denominator > 0,
             "Denominator should be positive integer"
         );
         self.denominator = denominator;
@@ -228,7 +228,7 @@ impl ColorTransformProgram {
                 channel_transform_builder.add_channel_factor(src_channel as usize, factor as isize);
             }
             let denominator = signed_decode(&mut stream, 2)?;
-            if denominator == 0 {
+            if denominator <= 0 || denominator > i16::MAX as i32 {
                 return Err(DecompressError::Malformed);
             }
             channel_transform_builder.set_denominator(denominator as isize);
-- 
2.43.0


From 0819efcb8fef7b9c61ce5e5ac54ecd79caa6da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 04/20] fix: let the last transform of a channel decide its
 chroma flag on decoding

The encoder already did: with two transforms for a channel both sides disagreed on its quality.
---
 src/color_transform/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index d3f2186..d564e96 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -237,8 +237,8 @@ impl ColorTransformProgram {
 
             if channel_is_chroma != 0 {
                 channel_transform_builder.set_chroma();
-                is_chroma[dest_channel] = true;
             }
+            is_chroma[dest_channel] = channel_is_chroma != 0;
 
             color_transform_program.add_channel_transform(channel_transform_builder.build());
         }
-- 
2.43.0


From bce8036e17031f4a3cb0ea8f6be2dea01bda6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 05/20] fix: do not overflow in the context statistics of large
 coefficients

Lossy high contrast images panicked in builds with overflow checks; the
reference implementation wraps.
---
 src/encode/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index e494bde..cb411c4 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -192,7 +192,7 @@ pub unsafe fn get_context(image: &ImageChunkMut<'_, i16>, x: i32, y: i32) -> (u3
 
     (
         (sum * 16 + count / 2) / count,
-        (sum2 * 16 + count / 2) / count,
+        (sum2.wrapping_mul(16) + count / 2) / count,
     )
 }
 
@@ -388,9 +388,9 @@ fn get_run_coder(context: (u32, u32), s: i32, q: i32, run_coder: u32, sum_sq: u3
             4
         } else if context.0 < 8 && context.1 < 4 {
             3
-        } else if 2 * sum_sq < 3 * context.1 + 48 {
+        } else if sum_sq.wrapping_mul(2) < 3 * context.1 + 48 {
             2
-        } else if 2 * sum_sq < 5 * context.1 + 32 {
+        } else if sum_sq.wrapping_mul(2) < 5 * context.1 + 32 {
             1
         } else {
             0
-- 
2.43.0


From 944b7c404a9cbe9efd87368efed4203f7c9c4b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 06/20] fix: divide color transform terms by 2, 4 and 8 like
 the reference implementation

The reference implementation shifts, which rounds negative sums down; rounding
them towards zero changed the colors of its files and produced files it decoded differently.
---
 src/color_transform/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/color_transform/mod.rs b/src/color_transform/mod.rs
index d564e96..75ea2dc 100644
--- a/src/color_transform/mod.rs
+++ b/src/color_transform/mod.rs
@@ -331,7 +331,7 @@ impl ColorTransformProgram {
 
             let layer = channel_layer(channel_transform.dest_channel, channels, channel_size);
             for i in 0..channel_size {
-                aux[dest_base + i] /= channel_transform.denominator as i16;
+                aux[dest_base + i] = divide(aux[dest_base + i], channel_transform.denominator);
                 aux[dest_base + i] += image[layer + i * channels_in_index].into() * boost;
             }
 
@@ -405,7 +405,7 @@ impl ColorTransformProgram {
             }
 
             for i in 0..channel_size {
-                transform_temp[i] /= channel_transform.denominator as i16;
+                transform_temp[i] = divide(transform_temp[i], channel_transform.denominator);
                 aux[dest_base + i] -= transform_temp[i];
             }
         }
@@ -538,6 +538,16 @@ fn get_layer(channel: usize, channels: usize, channel_size: usize) -> usize {
     (channel / channels) * channel_size * channels + channel % channels
 }
 
+// the format divides by 2, 4 and 8 with an arithmetic shift
+fn divide(value: i16, denominator: isize) -> i16 {
+    match denominator {
+        2 => value >> 1,
+        4 => value >> 2,
+        8 => value >> 3,
+        _ => value / denominator as i16,
+    }
+}
+
 fn cut_with_u8<T>(value: T) -> T
 where
     T: cmp::Ord + From<u8>,
-- 
2.43.0


From 78641f491ddc3976f3da1341e90b35d381382ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 07/20] fix: leave the output buffer alone when
 decompress_simple only tests the data

---
 src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb5ef14..da1bfae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,12 +61,14 @@ pub fn decompress_simple(
     let next_point_of_interest =
         decompress_aux_data(data, &header, &is_chroma, downsampling, test, &mut aux_data)?;
 
-    color_transform.detransform_and_to_interleaved(
-        &mut aux_data,
-        &header,
-        header.get_downsampled_channel_size(downsampling),
-        &mut buffer,
-    );
+    if !test {
+        color_transform.detransform_and_to_interleaved(
+            &mut aux_data,
+            &header,
+            header.get_downsampled_channel_size(downsampling),
+            &mut buffer,
+        );
+    }
 
     Ok(next_point_of_interest)
 }
-- 
2.43.0


From 0225143b83c2adf13deaa27218a88cc22ccdb85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 08/20] fix: return Malformed for image buffers smaller than
 the header says

compress_aux_data, decompress_aux_data and decompress_image_data accessed memory behind the buffer.
---
 src/compress/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index f48b43b..ddce0eb 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -23,6 +23,12 @@ pub fn compress_aux_data(
     is_chroma: &[bool],
     mut buffer: &mut [u8],
 ) -> Result<usize, CompressError> {
+    if aux_data.len() < header.get_image_size()
+        || is_chroma.len() < usize::from(header.layers) * usize::from(header.channels)
+    {
+        return Err(CompressError::Malformed);
+    }
+
     lift_and_quantize(&mut aux_data, &header, &is_chroma);
     compress_image_data(&mut aux_data, &header, &mut buffer, &is_chroma)
 }
@@ -269,6 +275,12 @@ pub fn decompress_image_data(
     let layers = usize::from(header.layers);
     let channels = usize::from(header.channels);
 
+    if aux_data.len() < header.get_downsampled_image_size(downsampling)
+        || is_chroma.len() < layers * channels
+    {
+        return Err(DecompressError::Malformed);
+    }
+
     let mut step = 1;
     while step * 2 < width || step * 2 < height {
         step *= 2;
-- 
2.43.0


From 68533f3c16a94807e53e81025f313713ae39e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 09/20] fix: decode downsampled Turbo images with the run coder
 the encoder used

The run coder depends on quality * step: the decoder multiplied with the step of
the downsampled image and lost synchronization with the stream.
---
 src/compress/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index ddce0eb..8060a84 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -379,6 +379,12 @@ pub fn decompress_image_data(
                     } else {
                         i32::from(header.quality)
                     };
+                    // the Turbo encoder chose its run coder by quality and full size step
+                    let quality = if header.encoder == header::Encoder::Turbo {
+                        quality << downsampling
+                    } else {
+                        quality
+                    };
                     decode(
                         aux_data_chunk,
                         &mut input_block_reader,
-- 
2.43.0


From 67d1d410d33cf882aeefde0eaa6f7cf447a708cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 10/20] fix: count the color program in the point of interest
 that decompress_simple returns

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index da1bfae..b3ab27d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,8 +54,10 @@ pub fn decompress_simple(
     test: bool,
     mut buffer: &mut [u8],
 ) -> Result<usize, DecompressError> {
+    let original_len = data.len();
     let mut is_chroma = vec![false; header.layers as usize * header.channels as usize];
     let color_transform = ColorTransformProgram::decode(&mut data, &mut is_chroma)?;
+    let service_len = original_len - data.len();
 
     let mut aux_data = vec![0i16; header.get_downsampled_image_size(downsampling)];
     let next_point_of_interest =
@@ -70,5 +72,9 @@ pub fn decompress_simple(
         );
     }
 
-    Ok(next_point_of_interest)
+    Ok(match next_point_of_interest {
+        0 => 0,
+        // relative to the data of the caller, which starts with the color transform program
+        payload_next_point_of_interest => service_len + payload_next_point_of_interest,
+    })
 }
-- 
2.43.0


From ea60f3a78d4477ef5bdd60b2eaf77136ce3be4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 11/20] fix: never report a point of interest that has already
 been reached

---
 src/compress/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 8060a84..16404d7 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -316,6 +316,9 @@ pub fn decompress_image_data(
         let (_, buffer_remainder) = buffer.split_at(decompressed_size);
 
         if buffer_remainder.len() <= block_sizes_storage_size {
+            // more than the sizes alone is needed to get any further
+            next_point_of_interest = next_point_of_interest
+                .max(decompressed_size + block_sizes_storage_size + mem::size_of::<u32>());
             break;
         }
 
-- 
2.43.0


From a3b43a5282009ab445e7400571e716306b56a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 12/20] fix: reject metadata sizes that the header cannot store

The header stores the metadata size in words, so any other size was accepted by
HeaderBuilder and silently rounded down when the header was written.
---
 src/header/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index ac4b963..8efca54 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -28,6 +28,13 @@ impl HeaderBuilder {
             )));
         }
 
+        // the file stores the metadata size in words
+        if self.metadata_size % 4 != 0 {
+            return Err(HeaderErr::WrongValue(String::from(
+                "Metadata size must be a multiple of 4",
+            )));
+        }
+
         let layer_size = channel_size
             .checked_mul(self.layers as usize)
             .ok_or_else(|| HeaderErr::WrongValue(String::from("layer size is too large")))?;
-- 
2.43.0


From 338f8206463996035be8a0a2090c8f620ed8dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 13/20] fix: test mode needs neither an image buffer nor chroma
 flags

They were not touched in test mode before they were checked.
---
 src/compress/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 16404d7..840aeef 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -275,8 +275,10 @@ pub fn decompress_image_data(
     let layers = usize::from(header.layers);
     let channels = usize::from(header.channels);
 
-    if aux_data.len() < header.get_downsampled_image_size(downsampling)
-        || is_chroma.len() < layers * channels
+    // nothing is written in test mode
+    if !test
+        && (aux_data.len() < header.get_downsampled_image_size(downsampling)
+            || is_chroma.len() < layers * channels)
     {
         return Err(DecompressError::Malformed);
     }
-- 
2.43.0


From 09dbcd47d14f1bc6efc94f7a22dbd344c582e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 14/20] fix: return Malformed for image buffers smaller than
 the header says in the simple API

compress_simple and decompress_simple panicked.
---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b3ab27d..e8fdf04 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -33,6 +33,10 @@ pub fn compress_simple(
     color_transform: &ColorTransformProgram,
     mut buffer: &mut [u8],
 ) -> Result<usize, CompressError> {
+    if image.len() < header.get_image_size() {
+        return Err(CompressError::Malformed);
+    }
+
     let original_len = buffer.len();
     header.encode(&mut buffer)?;
     let is_chroma = color_transform.encode(
@@ -54,6 +58,10 @@ pub fn decompress_simple(
     test: bool,
     mut buffer: &mut [u8],
 ) -> Result<usize, DecompressError> {
+    if !test && buffer.len() < header.get_downsampled_image_size(downsampling) {
+        return Err(DecompressError::Malformed);
+    }
+
     let original_len = data.len();
     let mut is_chroma = vec![false; header.layers as usize * header.channels as usize];
     let color_transform = ColorTransformProgram::decode(&mut data, &mut is_chroma)?;
-- 
2.43.0


From 808fa568f6971564edf1809168f5486ede4ba552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 15/20] fix: write codes of more than 31 bits in two parts

Numbers from 5592405 * 16 on could need 32 bits or more for their last
part, which put_bits does not take: they were written wrong.
---
 src/encode/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encode/mod.rs b/src/encode/mod.rs
index cb411c4..d152366 100644
--- a/src/encode/mod.rs
+++ b/src/encode/mod.rs
@@ -16,6 +16,10 @@ pub fn unsigned_code(x: u32, stream: &mut impl bits::BitsWriter, pot: u32) -> io
         stream.put_bits(0, 12)?; // escape to larger code
         let new_pot = if pot < 20 { pot + 4 } else { 24 };
         unsigned_code(x - (12 << (pot)), stream, new_pot)?;
+    } else if y + 1 + pot >= 32 {
+        // same as below, put_bits writes less than 32 bits at once
+        stream.put_bits(1, y + 1)?;
+        stream.put_bits(x & !(!0u32 << (pot)), pot)?;
     } else {
         // encode x / 2^pot in unary followed by x % 2^pot in binary
         stream.put_bits((1 << (pot)) | (x & !(!0u32 << (pot))), y + 1 + pot)?;
-- 
2.43.0


From 3752fb459ce0a33848044aeff04eaa53f881210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 16/20] fix: leave samples behind the last channel alone when
 there are more chroma flags than channels

The surplus was transformed like a channel, and with an incomplete last row
the unchecked accesses of the vertical lifting read behind that row.
---
 src/compress/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index 840aeef..ba4e1d5 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -61,6 +61,7 @@ fn aux_data_to_2d_channel<'a>(
 
     aux_data
         .chunks_mut(channel_size)
+        .take(usize::from(header.layers) * usize::from(header.channels))
         .map(move |chunk| {
             chunk
                 .chunks_mut(header.get_downsampled_width(downsampling))
-- 
2.43.0


From 43099511370895b34379ebc619e1c2f71f7f5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:49 +0000
Subject: [PATCH 17/20] fix: do not allocate an image in test mode

decompress_simple allocated the planes of the image that the header
describes before it looked at the data, in test mode too, where the caller
has no buffer of that size. A header of a few bytes ended the process.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e8fdf04..a7918ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -67,7 +67,12 @@ pub fn decompress_simple(
     let color_transform = ColorTransformProgram::decode(&mut data, &mut is_chroma)?;
     let service_len = original_len - data.len();
 
-    let mut aux_data = vec![0i16; header.get_downsampled_image_size(downsampling)];
+    // nothing is written in test mode, whatever size the header claims
+    let mut aux_data = if test {
+        Vec::new()
+    } else {
+        vec![0i16; header.get_downsampled_image_size(downsampling)]
+    };
     let next_point_of_interest =
         decompress_aux_data(data, &header, &is_chroma, downsampling, test, &mut aux_data)?;
 
-- 
2.43.0


From 1005952d46e1e1d5f25cfcc7c5a06696c5096147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:28 +0000
Subject: [PATCH 18/20] fix: take samples behind the image as leftover when
 compressing, as decompressing does

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a7918ce..148c84f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,6 +37,9 @@ pub fn compress_simple(
         return Err(CompressError::Malformed);
     }
 
+    // leftover of a larger buffer is not a part of the image
+    let image = &image[..header.get_image_size()];
+
     let original_len = buffer.len();
     header.encode(&mut buffer)?;
     let is_chroma = color_transform.encode(
-- 
2.43.0


From 4c0ecc20f67eb572a4c3f675ab44fef370cd8c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 19/20] fix: do not overflow when choosing the Turbo run coder
 of reduced vast images

---
 src/compress/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compress/mod.rs b/src/compress/mod.rs
index ba4e1d5..6adcbd3 100644
--- a/src/compress/mod.rs
+++ b/src/compress/mod.rs
@@ -385,9 +385,10 @@ pub fn decompress_image_data(
                     } else {
                         i32::from(header.quality)
                     };
-                    // the Turbo encoder chose its run coder by quality and full size step
+                    // the Turbo encoder chose its run coder by quality and full size step,
+                    // whose product only matters as long as it is less than 2048
                     let quality = if header.encoder == header::Encoder::Turbo {
-                        quality << downsampling
+                        (quality << downsampling.min(11)).min(2048)
                     } else {
                         quality
                     };
-- 
2.43.0


From 14adfc2984bac479a8d8b520dbcb4d0344424b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:06 +0000
Subject: [PATCH 20/20] fix: add the neighbours of linear lifting in 32 bits,
 as the reference does

---
 src/lifting/linear.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lifting/linear.rs b/src/lifting/linear.rs
index da486ed..af129ac 100644
--- a/src/lifting/linear.rs
+++ b/src/lifting/linear.rs
@@ -31,9 +31,9 @@ unsafe fn horizontal_lifting_base(
 ) {
     let mut x = step * step_multiplier;
     while x < column.len() - step {
-        let a = *column.get_unchecked_mut(x - step);
-        let b = *column.get_unchecked_mut(x + step);
-        *column.get_unchecked_mut(x) += (a + b) / (divider * 2);
+        let a = i32::from(*column.get_unchecked_mut(x - step));
+        let b = i32::from(*column.get_unchecked_mut(x + step));
+        *column.get_unchecked_mut(x) += ((a + b) / i32::from(divider * 2)) as i16;
         x += step * 2;
     }
 
@@ -74,7 +74,8 @@ unsafe fn vertical_lifting_base(
             c1
         };
 
-        *middle_value.get_unchecked_mut(x) += (c1 + c2) / divider;
+        *middle_value.get_unchecked_mut(x) +=
+            ((i32::from(c1) + i32::from(c2)) / i32::from(divider)) as i16;
 
         x += step;
     }
-- 
2.43.0

