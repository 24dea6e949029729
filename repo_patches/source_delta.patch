From 438800db2221faec912ec23f05db500f1b97c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:05 +0000
Subject: [PATCH 01/13] fix: report reader errors after trailing restart
 markers

---
 src/decoder.rs          | 2 +-
 src/decoder/lossless.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b8eb531..4f09c42 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1062,7 +1062,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
 
         if finished.iter().any(|&c| c) {
diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd00476..f1a74e7 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -178,7 +178,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
         Ok((marker, results))
     }
-- 
2.43.0


From b29f7a6d9a6b2831dc18ff9463688a1be62ac3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:27 +0000
Subject: [PATCH 02/13] fix: accept ICC profiles of 255 chunks

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4f09c42..4618d29 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -211,7 +211,7 @@ impl<R: Read> Decoder<R> {
     pub fn icc_profile(&self) -> Option<Vec<u8>> {
         let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
         let num_markers = self.icc_markers.len();
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check the validity of the markers
-- 
2.43.0


From 00d6d0d698e3ead01e08f01b7669cac0cbc412fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:36 +0000
Subject: [PATCH 03/13] fix: avoid u16 overflow in MCU positions of very large
 images

---
 src/decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4618d29..0188a21 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -908,12 +908,12 @@ impl<R: Read> Decoder<R> {
         };
 
         for mcu_y in 0..max_mcu_y {
-            if mcu_y * 8 >= frame.image_size.height {
+            if u32::from(mcu_y) * 8 >= u32::from(frame.image_size.height) {
                 break;
             }
 
             for mcu_x in 0..max_mcu_x {
-                if mcu_x * 8 >= frame.image_size.width {
+                if u32::from(mcu_x) * 8 >= u32::from(frame.image_size.width) {
                     break;
                 }
 
@@ -1022,7 +1022,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (mcu_y + 1) * 8 < frame.image_size.height
+                        && (u32::from(mcu_y) + 1) * 8 < u32::from(frame.image_size.height)
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
-- 
2.43.0


From 1af8a5857ca0c29f43578f983cc89d769cabf479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 04/13] fix: output one byte per sample for lossless precisions
 below 8

---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index f1a74e7..26a7fb2 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -250,7 +250,7 @@ pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec<Vec<u16>>) -> Res
 }
 
 fn convert_to_u8(frame: &FrameInfo, data: Vec<u16>) -> Vec<u8> {
-    if frame.precision == 8 {
+    if frame.precision <= 8 {
         data.iter().map(|x| *x as u8).collect()
     } else {
         // we output native endian, which is the standard for image-rs
-- 
2.43.0


From b87cf2d9834054cc64038e0d317e80b80da3d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:24 +0000
Subject: [PATCH 05/13] fix: do not report a scaled size for lossless images

---
 src/decoder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0188a21..11c5b9e 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -278,13 +278,18 @@ impl<R: Read> Decoder<R> {
     pub fn scale(&mut self, requested_width: u16, requested_height: u16) -> Result<(u16, u16)> {
         self.read_info()?;
         let frame = self.frame.as_mut().unwrap();
-        let idct_size = crate::idct::choose_idct_size(
-            frame.image_size,
-            Dimensions {
-                width: requested_width,
-                height: requested_height,
-            },
-        );
+        let idct_size = if frame.coding_process == CodingProcess::Lossless {
+            // Lossless images are not transformed and cannot be scaled.
+            8
+        } else {
+            crate::idct::choose_idct_size(
+                frame.image_size,
+                Dimensions {
+                    width: requested_width,
+                    height: requested_height,
+                },
+            )
+        };
         frame.update_idct_size(idct_size)?;
         Ok((frame.output_size.width, frame.output_size.height))
     }
-- 
2.43.0


From cf509b746a01a36b33063f8e69f25dd549997ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:29 +0000
Subject: [PATCH 06/13] fix: store lossless scans in the components they name

---
 src/decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 11c5b9e..02a22ea 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -419,9 +419,10 @@ impl<R: Read> Decoder<R> {
                     if frame.coding_process == CodingProcess::Lossless {
                         let (marker, data) = self.decode_scan_lossless(&frame, &scan)?;
 
-                        for (i, plane) in data
-                            .into_iter()
-                            .enumerate()
+                        for (&i, plane) in scan
+                            .component_indices
+                            .iter()
+                            .zip(data)
                             .filter(|(_, plane)| !plane.is_empty())
                         {
                             planes_u16[i] = plane;
-- 
2.43.0


From d51ad5dc4e452dac361a8898d814429524cf81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:40 +0000
Subject: [PATCH 07/13] fix: count two bytes per high precision sample against
 the buffer limit

---
 src/decoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 02a22ea..7905759 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -639,6 +639,8 @@ impl<R: Read> Decoder<R> {
             .len()
             .checked_mul(frame.output_size.width.into())
             .and_then(|m| m.checked_mul(frame.output_size.height.into()))
+            // Samples of more than 8 bits take two bytes
+            .and_then(|m| m.checked_mul(if frame.precision > 8 { 2 } else { 1 }))
             .map_or(true, |m| self.decoding_buffer_size_limit < m)
         {
             return Err(Error::Format(
-- 
2.43.0


From 4379be1a5de86654cbfe966eace7488077cdfff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 08/13] fix: interleave the samples when no color transform is
 applied

---
 src/decoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 7905759..2acbddd 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1482,11 +1482,9 @@ fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) {
 }
 
 fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) {
-    let mut output_iter = output.iter_mut();
-
-    for pixel in data {
-        for d in pixel {
-            *(output_iter.next().unwrap()) = *d;
+    for (x, pixel) in output.chunks_exact_mut(data.len()).enumerate() {
+        for (sample, component) in pixel.iter_mut().zip(data) {
+            *sample = component[x];
         }
     }
 }
-- 
2.43.0


From 595cd9cc69e033dc3bddb30baf4ad6d351b358da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:09 +0000
Subject: [PATCH 09/13] fix: point transforms not below the precision
 overflowed a shift with predictor Ra (decode_scan_lossless)

---
 src/decoder/lossless.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 26a7fb2..274f053 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -109,7 +109,11 @@ impl<R: Read> Decoder<R> {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
                 let diff = differences[i][0];
-                let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
+                let prediction = if frame.precision > scan.point_transform {
+                    1 << (frame.precision - scan.point_transform - 1) as i32
+                } else {
+                    0
+                };
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                 let result = result << scan.point_transform;
                 results[i][0] = result;
-- 
2.43.0


From b3b6c1cdb7bb72057484ac565f92fafce2c54b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:17 +0000
Subject: [PATCH 10/13] fix: lossless prediction did not start anew at restart
 intervals (decode_scan_lossless)

---
 src/decoder/lossless.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 274f053..cd1c554 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -105,15 +105,22 @@ impl<R: Read> Decoder<R> {
             }
         }
 
+        // Section H.1.1
+        // the prediction starts anew with every restart interval
+        let restart_interval = usize::from(self.restart_interval);
+        let is_restart =
+            |mcu: usize| restart_interval > 0 && mcu > 0 && mcu % restart_interval == 0;
+
         if scan.predictor_selection == Predictor::Ra {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
                 let diff = differences[i][0];
-                let prediction = if frame.precision > scan.point_transform {
+                let initial_prediction = if frame.precision > scan.point_transform {
                     1 << (frame.precision - scan.point_transform - 1) as i32
                 } else {
                     0
                 };
+                let prediction = initial_prediction;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                 let result = result << scan.point_transform;
                 results[i][0] = result;
@@ -122,7 +129,11 @@ impl<R: Read> Decoder<R> {
                 let mut previous = result;
                 for mcu_y in 1..height {
                     let diff = differences[i][mcu_y * width];
-                    let prediction = previous as i32;
+                    let prediction = if is_restart(mcu_y * width) {
+                        initial_prediction
+                    } else {
+                        previous as i32
+                    };
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                     let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
@@ -133,7 +144,11 @@ impl<R: Read> Decoder<R> {
                 for mcu_y in 0..height {
                     for mcu_x in 1..width {
                         let diff = differences[i][mcu_y * width + mcu_x];
-                        let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
+                        let prediction = if is_restart(mcu_y * width + mcu_x) {
+                            initial_prediction
+                        } else {
+                            results[i][mcu_y * width + mcu_x - 1] as i32
+                        };
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
@@ -141,8 +156,13 @@ impl<R: Read> Decoder<R> {
                 }
             }
         } else {
+            let mut first_line = 0;
             for mcu_y in 0..height {
                 for mcu_x in 0..width {
+                    let restart = is_restart(mcu_y * width + mcu_x);
+                    if restart {
+                        first_line = mcu_y;
+                    }
                     for (i, _component) in components.iter().enumerate() {
                         let diff = differences[i][mcu_y * width + mcu_x];
 
@@ -169,9 +189,8 @@ impl<R: Read> Decoder<R> {
                             scan.point_transform,
                             frame.precision,
                             mcu_x,
-                            mcu_y,
-                            self.restart_interval > 0
-                                && mcus_left_until_restart == self.restart_interval - 1,
+                            mcu_y - first_line,
+                            restart,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
-- 
2.43.0


From 49a5897ce042bd8a0892bcaa3b39cb2375ae021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:36 +0000
Subject: [PATCH 11/13] fix: read exactly the component's blocks in a
 non-interleaved scan

A non-interleaved scan holds ceil(ceil(X * Hi / Hmax) / 8) blocks per line
(sections A.1.1 and A.2.2). For components subsampled with 1 < Hi < Hmax
(or 1 < Vi < Vmax) the decoder also read the blocks that pad the component
to whole MCUs of an interleaved scan, and lost its place in the data.
---
 src/decoder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 2acbddd..569d637 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -905,13 +905,15 @@ impl<R: Read> Decoder<R> {
         };
 
         // This also affects how many MCU values we read from stream. If it's a non-interleaved stream,
-        // the MCUs will be exactly the block count.
+        // the MCUs will be exactly the block count of the component, without the blocks that pad
+        // it to whole MCUs of an interleaved stream (section A.2.2).
         let (max_mcu_x, max_mcu_y) = if is_interleaved {
             (frame.mcu_size.width, frame.mcu_size.height)
         } else {
+            let Component { size, dct_scale, .. } = components[0];
             (
-                components[0].block_size.width,
-                components[0].block_size.height,
+                ((size.width as usize + dct_scale - 1) / dct_scale) as u16,
+                ((size.height as usize + dct_scale - 1) / dct_scale) as u16,
             )
         };
 
@@ -1030,7 +1032,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (u32::from(mcu_y) + 1) * 8 < u32::from(frame.image_size.height)
+                        && mcu_y + 1 < max_mcu_y
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
-- 
2.43.0


From 72920c7003b18d2afd9a540c2827df9ba9376e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:51 +0000
Subject: [PATCH 12/13] fix: predict lossless samples from those before the
 point transform

Section H.1.2.1 predicts from the reconstructed samples at the reduced
precision; the point transform is undone for the output only. The decoder
predicted from the shifted samples, so every lossless image with a nonzero
point transform was decoded wrongly.
---
 src/decoder/lossless.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd1c554..9cd5ec5 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -122,7 +122,6 @@ impl<R: Read> Decoder<R> {
                 };
                 let prediction = initial_prediction;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                let result = result << scan.point_transform;
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
@@ -135,7 +134,6 @@ impl<R: Read> Decoder<R> {
                         previous as i32
                     };
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                    let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
                     previous = result;
                 }
@@ -150,7 +148,6 @@ impl<R: Read> Decoder<R> {
                             results[i][mcu_y * width + mcu_x - 1] as i32
                         };
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
@@ -193,12 +190,18 @@ impl<R: Read> Decoder<R> {
                             restart,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
+                        results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
             }
         }
 
+        // Section H.1.2.1, H.1.2.3
+        // the predictions are those of the samples before the point transform is undone
+        for sample in results.iter_mut().flatten() {
+            *sample <<= scan.point_transform;
+        }
+
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
             marker = Some(self.read_marker()?);
-- 
2.43.0


From a90dbcdc5053cea395adca4fe044c273196cc019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:51 +0000
Subject: [PATCH 13/13] fix: initial lossless prediction when one bit is left
 by the point transform

Section H.1.2.1: the prediction is 2^(P-Pt-1), which is 1 and not 0 for
P-Pt = 1 (predictors other than 1 used 0).
---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 9cd5ec5..1a875b2 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -225,7 +225,7 @@ fn predict(
 ) -> i32 {
     if (ix == 0 && iy == 0) || restart {
         // start of first line or restart
-        if input_precision > 1 + point_transform {
+        if input_precision > point_transform {
             1 << (input_precision - point_transform - 1)
         } else {
             0
-- 
2.43.0

