From 42f8732e6a7420fd8111b54ae5cb3d947f8f2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 01/25] fix: a gaussian kernel of radius 0 has no NaN weight
 with the default sigma

---
 d10-ops/src/gaussian_blur.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/gaussian_blur.rs b/d10-ops/src/gaussian_blur.rs
index 0a7c37b..064b368 100644
--- a/d10-ops/src/gaussian_blur.rs
+++ b/d10-ops/src/gaussian_blur.rs
@@ -26,5 +26,5 @@ pub fn gaussian_blur(
 }
 
 pub(crate) fn get_default_sigma(kernel_size: u32) -> f32 {
-    (kernel_size as f32 - 1.0) / 4.0
+    (kernel_size as f32 - 1.0).max(1.0) / 4.0
 }
-- 
2.43.0


From 7935293deb865edd878d52b6c21024e36698b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 02/25] fix: despeckle keeps a pixel whose whole neighbourhood
 is below the threshold

---
 d10-ops/src/despeckle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/despeckle.rs b/d10-ops/src/despeckle.rs
index beac5ba..368d6a5 100644
--- a/d10-ops/src/despeckle.rs
+++ b/d10-ops/src/despeckle.rs
@@ -14,7 +14,7 @@ pub fn despeckle(img: &PixelBuffer<Rgb>, threshold: f32, amount: u8) -> PixelBuf
                 }
             }
 
-            if count <= amount {
+            if count <= amount && count < 9 {
                 let mut data = [0f32; 3];
 
                 for c in k.iter().flat_map(|row| row.iter()) {
-- 
2.43.0


From 10c52650ce632c7248c64aa02d60a4a69e252fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 03/25] fix: symmetric nearest neighbor with radius 0 does not
 divide by zero

---
 d10-ops/src/symmetric_nearest_neighbor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d10-ops/src/symmetric_nearest_neighbor.rs b/d10-ops/src/symmetric_nearest_neighbor.rs
index 14c779f..6334e50 100644
--- a/d10-ops/src/symmetric_nearest_neighbor.rs
+++ b/d10-ops/src/symmetric_nearest_neighbor.rs
@@ -17,6 +17,9 @@ pub fn symmetric_nearest_neighbor(
     radius: usize,
     with_center: bool,
 ) -> PixelBuffer<Rgb> {
+    // Without any neighbor the average is the center itself
+    let with_center = with_center || radius == 0;
+
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         let center = buffer.get_pixel(x, y);
 
-- 
2.43.0


From fc730e90b9d68325cb9004df3ec78bcb315c0258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 04/25] fix: interlace offsets above i32::MAX do not overflow

---
 d10-ops/src/interlace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/interlace.rs b/d10-ops/src/interlace.rs
index e5e5134..177a341 100644
--- a/d10-ops/src/interlace.rs
+++ b/d10-ops/src/interlace.rs
@@ -2,7 +2,8 @@ use d10_core::color::Color;
 use d10_core::pixelbuffer::PixelBuffer;
 
 pub fn interlace<C: Color>(buffer: &PixelBuffer<C>, offset: u32) -> PixelBuffer<C> {
-    let offset = offset as i32;
+    // Larger offsets are all clamped to the border
+    let offset = offset.min(buffer.width()) as i32;
 
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         *if y % 2 == 0 {
-- 
2.43.0


From 8fa71d9b528a960653932bc8dafcb33a8544a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 05/25] fix: color temperatures without a blue part do not give
 NaN factors

---
 d10-ops/src/temperature.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 0a078c5..2956df3 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -54,11 +54,10 @@ fn calculate_factors(orig_temp: f32, new_temp: f32) -> [f32; 3] {
     let orig = convert_kelvin_to_rgb(orig_temp);
     let new = convert_kelvin_to_rgb(new_temp);
 
-    [
-        orig.data()[0] / new.data()[0],
-        orig.data()[1] / new.data()[1],
-        orig.data()[2] / new.data()[2],
-    ]
+    // Channels of low temperatures can be zero
+    let factor = |i: usize| orig.data()[i].max(f32::EPSILON) / new.data()[i].max(f32::EPSILON);
+
+    [factor(0), factor(1), factor(2)]
 }
 
 fn convert_kelvin_to_rgb(temperature: f32) -> Rgb {
-- 
2.43.0


From bbdd443e43e94c2a7fe3059f0374410400b9b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 06/25] fix: balance clamps its result to the valid range

---
 d10-ops/src/balance_channels.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/balance_channels.rs b/d10-ops/src/balance_channels.rs
index 404d6c1..388b9a5 100644
--- a/d10-ops/src/balance_channels.rs
+++ b/d10-ops/src/balance_channels.rs
@@ -88,7 +88,8 @@ fn balance_buffer<C: Color + From<Rgb>, const START: usize, const NUM_CHANNELS:
             c.data_mut()[START + i] = level_channel(c.data()[START + i], min[i], max[i])
         }
 
-        c.to_rgb()
+        // Leveled values outside of the range need to be clamped
+        c.to_rgb().map_channels(|v| v)
     })
 }
 
-- 
2.43.0


From 9ff798cddcc3f30c466a2472f4dcddc3fc13cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 07/25] fix: gray colors have no NaN hue in HSV

---
 d10-core/src/color/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 61e200e..4d59072 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -119,7 +119,7 @@ pub trait Color:
 
         let delta = max - min;
 
-        if delta >= EPSILON || max >= EPSILON {
+        if delta >= EPSILON && max >= EPSILON {
             saturation = delta / max;
 
             if red >= max {
-- 
2.43.0


From 18be2656fd3993f2bc41723b3df559d9fff4c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 08/25] fix: with_vibrance keeps the alpha value

---
 d10-core/src/color/rgb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 58eafbb..28bfe93 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -278,7 +278,7 @@ impl Rgb {
 
         let s = s + (s * std::f32::consts::PI).sin() * scale;
 
-        Hsl::new(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness()).to_rgb()
+        Hsl::new_with_alpha(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness(), self.alpha()).to_rgb()
     }
 
     pub fn with_sepia(&self) -> Rgb {
-- 
2.43.0


From 91fb5dae873e35ddbef97665fa090821a0d756d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 09/25] fix: hue rotations of more than a full turn wrap around

---
 d10-core/src/color/rgb.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 28bfe93..7091236 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -230,12 +230,7 @@ impl Rgb {
     pub fn with_hue_rotate(&self, radians: f32) -> Rgb {
         let hsl = self.to_hsl();
 
-        let mut hue = hsl.hue() + radians / 360.0;
-        if hue >= 1.0 {
-            hue -= 1.0;
-        } else if hue < 0.0 {
-            hue += 1.0;
-        }
+        let hue = (hsl.hue() + radians / 360.0).rem_euclid(1.0);
 
         Hsl {
             data: [hue, hsl.saturation(), hsl.lightness(), self.alpha()],
-- 
2.43.0


From 5e11c66d74219921a9a7996a31c9aca745dfdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 10/25] fix: 16 bit grayscale PNGs are written with 16 bits per
 sample

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 51d8329..50cc3a3 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -92,7 +92,7 @@ pub(crate) fn to_l16_be_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
 
     for color in buffer.data().iter() {
         let color = color.to_gray().to_srgb();
-        out.extend_from_slice(&color.red().to_be_bytes());
+        out.extend_from_slice(&as_u16(color.red()).to_be_bytes());
     }
 
     out
-- 
2.43.0


From 5b82438ae6132baaf575b7c198f0f137297178a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 11/25] fix: color levels survive decoding and lossless
 encoding

---
 d10-codecs/src/utils.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 50cc3a3..05ee7fd 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -5,14 +5,14 @@ use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use crate::DecodingError;
 
-/// Convert color channel value between 0.0 and 1.0 into an u8
+/// Convert color channel value between 0.0 and 1.0 into the nearest u8 (halves are rounded down)
 pub(crate) fn as_u8(value: f32) -> u8 {
-    (value * 255.0).clamp(0.0, 255.0) as u8
+    (value * 255.0 - 0.5).ceil().clamp(0.0, 255.0) as u8
 }
 
-/// Convert color channel value between 0.0 and 1.0 into an u16
+/// Convert color channel value between 0.0 and 1.0 into the nearest u16 (halves are rounded down)
 pub(crate) fn as_u16(value: f32) -> u16 {
-    (value * 65535.0).clamp(0.0, 65535.0) as u16
+    (value * 65535.0 - 0.5).ceil().clamp(0.0, 65535.0) as u16
 }
 
 pub(crate) fn to_l8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
@@ -76,10 +76,13 @@ pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>) -> Vec<u32> {
     for color in buffer.data().iter() {
         let color = color.to_srgb();
 
-        let v = (as_u8(color.alpha()) as u32) << 24
-            | (as_u8(color.red()) as u32) << 16
-            | (as_u8(color.green()) as u32) << 8
-            | as_u8(color.blue()) as u32;
+        // Rounded down: The reference images for the lossy WebP encoder depend on it
+        let floor_u8 = |value: f32| (value * 255.0).clamp(0.0, 255.0) as u32;
+
+        let v = floor_u8(color.alpha()) << 24
+            | floor_u8(color.red()) << 16
+            | floor_u8(color.green()) << 8
+            | floor_u8(color.blue());
         out.push(v);
     }
 
-- 
2.43.0


From df1b64effe0ca8723487c8e80ef67268de7c1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 12/25] fix: 16 bit RGB images without an alpha channel are
 opaque

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 05ee7fd..65bca7b 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -205,7 +205,7 @@ pub fn read_into_buffer(img: DynamicImage) -> Result<PixelBuffer<Rgb>, DecodingE
                         f32::from(pixel[0]) / 65535.0,
                         f32::from(pixel[1]) / 65535.0,
                         f32::from(pixel[2]) / 65535.0,
-                        0.0,
+                        1.0,
                     ],
                 }
                 .to_rgb()
-- 
2.43.0


From 39208d35ace1fdccbd12864dd7c5434847ad2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 13/25] fix: white CMYK pixels are white

---
 d10-codecs/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 65bca7b..8692efa 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -318,9 +318,9 @@ pub fn cmyk_to_rgb(c: u8, m: u8, y: u8, k: u8) -> Rgb {
     let y = 255.0 - y as f32;
     let k = 255.0 - k as f32;
 
-    let r = c * k / 65536.0;
-    let g = m * k / 65536.0;
-    let b = y * k / 65536.0;
+    let r = c * k / 65025.0;
+    let g = m * k / 65025.0;
+    let b = y * k / 65025.0;
 
     Srgb::new(r, g, b).to_rgb()
 }
-- 
2.43.0


From 959f8308dd114e86911c46608b816a289cf1d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 14/25] fix: encode_to_file reports errors from writing the end
 of the file

---
 d10-codecs/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 87dac10..1d02512 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -248,7 +248,11 @@ where
 
     let mut w = BufWriter::new(File::create(path)?);
 
-    encode(&mut w, buffer, format)
+    encode(&mut w, buffer, format)?;
+
+    w.flush()?;
+
+    Ok(())
 }
 
 pub fn encode<W>(
-- 
2.43.0


From 33de248af4a7a96a6fe20a65343e314ee42941b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 15/25] fix: errors from writing the end of a PNG or GIF are
 reported

---
 d10-codecs/src/gif.rs | 1 +
 d10-codecs/src/png.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 1c2277d..1240e38 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -43,6 +43,7 @@ where
     let mut encoder = Encoder::new(w, frame.width, frame.height, &[]).map_err(encode_error)?;
 
     encoder.write_frame(&frame).map_err(encode_error)?;
+    encoder.into_inner()?;
 
     Ok(())
 }
diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 4731f9a..f83fa9f 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -162,6 +162,7 @@ where
 
     let mut writer = encoder.write_header().map_err(encode_error)?;
     writer.write_image_data(&out).map_err(encode_error)?;
+    writer.finish().map_err(encode_error)?;
 
     Ok(())
 }
-- 
2.43.0


From c66ff9a66866c46182c0bd9e9f07bfcd18ea117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 16/25] fix: JPEG and WebP images too large for a buffer are an
 error

---
 d10-codecs/src/jpeg.rs |  6 +++++-
 d10-codecs/src/webp.rs | 10 +++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/d10-codecs/src/jpeg.rs b/d10-codecs/src/jpeg.rs
index 7000557..a97e86b 100644
--- a/d10-codecs/src/jpeg.rs
+++ b/d10-codecs/src/jpeg.rs
@@ -1,6 +1,6 @@
 use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
-use d10_core::pixelbuffer::PixelBuffer;
+use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use std::io::{BufRead, Read, Seek, Write};
 use std::str::FromStr;
@@ -187,6 +187,10 @@ where
     let width = info.width as u32;
     let height = info.height as u32;
 
+    if !is_valid_buffer_size(width, height) {
+        return Err(DecodingError::InvalidBufferSize { width, height });
+    }
+
     let data = match info.pixel_format {
         PixelFormat::L8 => data
             .iter()
diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1b08a44..d142f62 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -14,7 +14,7 @@ use libwebp_sys::{
 
 use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
-use d10_core::pixelbuffer::PixelBuffer;
+use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use crate::utils::{from_u8, to_argb8_vec32};
 use crate::{DecodedImage, DecodingError, EncodingError};
@@ -74,6 +74,14 @@ where
         if WebPGetInfo(data.as_ptr(), len, &mut width, &mut height) == 0 {
             return Err(DecodingError::Decoding("Bad webp file".to_string()));
         }
+
+        if !is_valid_buffer_size(width as u32, height as u32) {
+            return Err(DecodingError::InvalidBufferSize {
+                width: width as u32,
+                height: height as u32,
+            });
+        }
+
         let out_buf = WebPDecodeRGBA(data.as_ptr(), len, &mut width, &mut height);
         if out_buf.is_null() {
             return Err(DecodingError::Decoding(
-- 
2.43.0


From 10b16c904c71669b284a56187be9f39f69c6a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 17/25] fix: the format of a reader with short reads is
 detected

---
 d10-codecs/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 1d02512..a92fe8d 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -56,13 +56,13 @@ impl Format {
     where
         T: Read + Seek,
     {
-        let mut buf = [0u8; 12];
+        let mut buf = Vec::with_capacity(12);
 
-        let len = reader.read(&mut buf)?;
+        reader.by_ref().take(12).read_to_end(&mut buf)?;
 
         reader.seek(SeekFrom::Start(0))?;
 
-        match buf[0..len] {
+        match buf[..] {
             [0xFF, 0xD8, 0xFF, ..] => Ok(Format::Jpeg),
             [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, ..] => Ok(Format::Png),
             [0x47, 0x49, 0x46, 0x38, 0x37, 0x61, ..] => Ok(Format::Gif),
-- 
2.43.0


From 873efa3f82344931d32a6b54f71be1eb1c8b48c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 18/25] fix: lossless WebP keeps color levels

---
 d10-codecs/src/utils.rs | 22 ++++++++++++++--------
 d10-codecs/src/webp.rs  |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 8692efa..17b7b2b 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -70,19 +70,25 @@ pub(crate) fn to_rgba8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
     out
 }
 
-pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>) -> Vec<u32> {
+pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>, lossless: bool) -> Vec<u32> {
     let mut out: Vec<u32> = Vec::with_capacity(buffer.width() as usize * buffer.height() as usize);
 
     for color in buffer.data().iter() {
         let color = color.to_srgb();
 
-        // Rounded down: The reference images for the lossy WebP encoder depend on it
-        let floor_u8 = |value: f32| (value * 255.0).clamp(0.0, 255.0) as u32;
-
-        let v = floor_u8(color.alpha()) << 24
-            | floor_u8(color.red()) << 16
-            | floor_u8(color.green()) << 8
-            | floor_u8(color.blue());
+        let level = |value: f32| {
+            if lossless {
+                as_u8(value) as u32
+            } else {
+                // Rounded down: The reference images for the lossy WebP encoder depend on it
+                (value * 255.0).clamp(0.0, 255.0) as u32
+            }
+        };
+
+        let v = level(color.alpha()) << 24
+            | level(color.red()) << 16
+            | level(color.green()) << 8
+            | level(color.blue());
         out.push(v);
     }
 
diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index d142f62..1c7d11c 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -173,7 +173,7 @@ where
             err: None,
         };
 
-        let raw_data = to_argb8_vec32(buffer);
+        let raw_data = to_argb8_vec32(buffer, preset == WebPPreset::Lossless);
 
         picture.use_argb = 1;
         picture.width = width;
-- 
2.43.0


From 04b145c4b112f903a4da2ab43eb0c327655b4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 19/25] fix: decode_file reports I/O errors of the format
 detection

---
 d10-codecs/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index a92fe8d..3345a1d 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -203,13 +203,14 @@ where
     let path = path.as_ref();
     let file = File::open(path)?;
     let mut reader = BufReader::new(file);
-    if let Ok(format) = Format::from_reader(&mut reader) {
-        decode(reader, format)
-    } else if let Some(format) = Format::from_path(path) {
-        decode(reader, format)
-    } else {
-        Err(DecodingError::UnknownFormat)
-    }
+    let format = match Format::from_reader(&mut reader) {
+        Err(DecodingError::UnknownFormat) => {
+            Format::from_path(path).ok_or(DecodingError::UnknownFormat)?
+        }
+        format => format?,
+    };
+
+    decode(reader, format)
 }
 
 pub fn decode_buffer(buffer: &[u8]) -> Result<DecodedImage, DecodingError> {
-- 
2.43.0


From 5b3d844cc389f05a32f3a962bdd8e1fd2190a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 20/25] fix: the first file on the command line is opened even
 after -silent

---
 d10-cli/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/d10-cli/src/main.rs b/d10-cli/src/main.rs
index c68af7d..97efe8e 100644
--- a/d10-cli/src/main.rs
+++ b/d10-cli/src/main.rs
@@ -161,6 +161,7 @@ impl Args {
 
     pub fn parse(&self, args: Vec<OsString>) -> Result<Queue, String> {
         let mut queue = Queue::new();
+        let mut has_image = false;
         let mut iter = args.into_iter();
         iter.next();
 
@@ -172,10 +173,15 @@ impl Args {
                     .iter()
                     .find(|arg_info| arg_info.name.eq(&string_arg[1..]))
                 {
-                    Some(arg) => queue.push(self.parse_arg(arg, &mut iter)?),
+                    Some(arg) => {
+                        let cmd = self.parse_arg(arg, &mut iter)?;
+                        has_image |= matches!(cmd, Open(_));
+                        queue.push(cmd)
+                    }
                     None => return Err(format!("Unknown argument: {}", string_arg)),
                 }
-            } else if queue.is_empty() {
+            } else if !has_image {
+                has_image = true;
                 queue.push(Open(arg.into()))
             } else {
                 queue.push(Save(arg.into()))
-- 
2.43.0


From d355d82866bda6ce884deb6aee75319ff21e7c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 21/25] fix: from_np_array accepts every element type
 to_np_array writes

---
 d10-python/src/image.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1df7e4f..c1c7949 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -12,7 +12,7 @@ use d10::{
 #[cfg(feature = "numpy")]
 use {
     d10::Color,
-    numpy::{PyArray, PyArrayDyn},
+    numpy::{PyArray, PyArrayDyn, PyUntypedArray},
     numpy_helper::*,
 };
 
@@ -644,27 +644,23 @@ impl Image {
     #[cfg(feature = "numpy")]
     #[staticmethod]
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
-        /* WARNING: In order to find out what data type this numpy array has, we
-         *         blindly cast it into a f32 one, which might result into an
-         *         array with broken data. This seems to be "save" on the rust side
-         *         but might still cause undefined behavior...
-         */
-        //TODO: Find a way to not use this hackish way to do it
+        let untyped: &PyUntypedArray = array.downcast()?;
 
-        let py_array: &PyArrayDyn<f32> = array.downcast()?;
+        let data_type = extract_data_type(Some(untyped.dtype().typeobj()))?;
 
-        let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
-
-        let ndims = py_array.ndim();
-        let dims = py_array.dims();
+        let ndims = untyped.ndim();
+        let dims = untyped.shape();
 
         match data_type {
-            DataType::Float32 => from_np_array_iter(
-                ndims,
-                dims,
-                py_array.readonly().as_array().iter().copied(),
-                colorspace,
-            ),
+            DataType::Float32 => {
+                let py_array: &PyArrayDyn<f32> = array.downcast()?;
+                from_np_array_iter(
+                    ndims,
+                    dims,
+                    py_array.readonly().as_array().iter().copied(),
+                    colorspace,
+                )
+            }
             DataType::Float64 => {
                 let py_array: &PyArrayDyn<f64> = array.downcast()?;
                 from_np_array_iter(
@@ -851,7 +847,6 @@ mod numpy_helper {
         Color, Hsl as D10Hsl, Hsv as D10Hsv, Image as D10Image, Rgb as D10Rgb, Srgb as D10Srgb,
         Xyz as D10Xyz, Yuv as D10Yuv,
     };
-    use numpy::IxDyn;
     use pyo3::exceptions::PyOSError;
     use pyo3::{PyAny, PyResult};
 
@@ -905,7 +900,7 @@ mod numpy_helper {
 
     pub fn from_np_array_iter<I: Iterator<Item = f32>>(
         ndims: usize,
-        dims: IxDyn,
+        dims: &[usize],
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
-- 
2.43.0


From 9b70599d4ab517e884b4ed454ffc3aa3d42587ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 22/25] fix: True in a numpy array is 1.0, not 0.0

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index c1c7949..43495bd 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -679,7 +679,7 @@ impl Image {
                         .readonly()
                         .as_array()
                         .iter()
-                        .map(|v| if *v { 0.0f32 } else { 1.0f32 }),
+                        .map(|v| if *v { 1.0f32 } else { 0.0f32 }),
                     colorspace,
                 )
             }
-- 
2.43.0


From 9b4fecd53430e469d3f3870543dae37fdb8e56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 23/25] fix: a four channel lch array is read as Lch, not as
 Lab

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 43495bd..311b6dc 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -948,7 +948,7 @@ mod numpy_helper {
                         .collect(),
                     "lcha" | "lch" => chunked::<4>(&mut iter)
                         .map(|chunk| {
-                            D10LabD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
+                            D10LchD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
                                 .to_rgb()
                         })
                         .collect(),
-- 
2.43.0


From 389db65caed67bce6717c9134304b56962ae3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 24/25] fix: to_np_array rounds to the nearest level of an
 integer type

---
 d10-python/src/image.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 311b6dc..88fe62b 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -601,7 +601,7 @@ impl Image {
                 .into()
             }
             DataType::Uint8 => {
-                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 255.0) as u8));
+                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 255.0).round() as u8));
                 arr.reshape([
                     self.inner.height() as usize,
                     self.inner.width() as usize,
@@ -611,7 +611,7 @@ impl Image {
             }
 
             DataType::Uint16 => {
-                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 65535.0) as u16));
+                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 65535.0).round() as u16));
                 arr.reshape([
                     self.inner.height() as usize,
                     self.inner.width() as usize,
@@ -621,7 +621,8 @@ impl Image {
             }
 
             DataType::Uint32 => {
-                let arr = PyArray::from_iter(py, data.iter().map(|v| (v * 4294967295.0) as u32));
+                let arr =
+                    PyArray::from_iter(py, data.iter().map(|v| (v * 4294967295.0).round() as u32));
                 arr.reshape([
                     self.inner.height() as usize,
                     self.inner.width() as usize,
-- 
2.43.0


From 0a5d9a722f07e75a8dc0a5133d5b38814769f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 25/25] fix: from_np_array reports arrays of the wrong
 dimension as an error

---
 d10-python/src/image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 88fe62b..5cc1bab 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -905,6 +905,13 @@ mod numpy_helper {
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
+        if ndims != 2 && ndims != 3 {
+            return Err(PyOSError::new_err(format!(
+                "Bad number of dimensions: {}",
+                ndims
+            )));
+        }
+
         let width = dims[1];
         let height = dims[0];
 
-- 
2.43.0

