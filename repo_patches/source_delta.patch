From 8440b305c8e584721ef81c7ca9b66860da69bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 01/14] fix: reject an invalid final character in alphanumeric
 data instead of panicking

---
 src/decode/qr/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index 5643416..cff46ea 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -123,6 +123,13 @@ fn alphanumeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let chars = read_bits_u16(chomp, 6)?;
+
+            if chars > 44 {
+                return Err(QRError {
+                    msg: format!("Invalid character in alphanumeric data {}", chars),
+                });
+            }
+
             result.push(ALPHANUMERIC[chars as usize]);
 
             break;
-- 
2.43.0


From b9a12fb13dca8939cd4f44f65fc02f9aeac26aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 02/14] fix: reject numeric groups that do not fit their number
 of digits

---
 src/decode/qr/data.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index cff46ea..e72db72 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -46,6 +46,13 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
     while length > 0 {
         if length >= 3 {
             let digits = read_bits_u16(chomp, 10)?;
+
+            if digits > 999 {
+                return Err(QRError {
+                    msg: format!("Invalid digits in numeric data {}", digits),
+                });
+            }
+
             result.push_str(&format!("{:03}", digits));
 
             length -= 3;
@@ -54,6 +61,13 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 2 {
             let digits = read_bits_u16(chomp, 7)?;
+
+            if digits > 99 {
+                return Err(QRError {
+                    msg: format!("Invalid digits in numeric data {}", digits),
+                });
+            }
+
             result.push_str(&format!("{:02}", digits));
 
             break;
@@ -61,6 +75,13 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let digits = read_bits_u16(chomp, 4)?;
+
+            if digits > 9 {
+                return Err(QRError {
+                    msg: format!("Invalid digits in numeric data {}", digits),
+                });
+            }
+
             result.push_str(&format!("{:01}", digits));
 
             break;
-- 
2.43.0


From 24e0333bb5d841f1929c7535574351d4888ca711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 03/14] fix: refuse to chomp more than 16 bits into a u16

---
 src/util/chomp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index e31e9cf..1ca7c84 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -59,6 +59,10 @@ impl Chomp {
     /// Try to chomp `nr_bits` bits. If not enough bits are left, or requesting more than 16 bits the provided `err` will be returned
     /// If requesting fewer than 16 bits, the result will be in the least significant bits of the u16
     pub fn chomp_or_u16<E: Clone>(&mut self, nr_bits: u8, err: E) -> Result<u16, E> {
+        if nr_bits > 16 {
+            return Err(err);
+        }
+
         let mut bits = nr_bits;
 
         let mut result: u16 = 0;
-- 
2.43.0


From 49987c4468b6315df27454115868fafa1231a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 04/14] fix: count the bits chomped within a byte

---
 src/util/chomp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index 1ca7c84..70b687a 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -128,6 +128,7 @@ impl Chomp {
             let result = *byte >> (8 - nr_bits.0);
             *byte <<= nr_bits.0;
 
+            self.bits_left -= nr_bits;
             self.bits_left_in_byte -= nr_bits;
 
             Some(result)
-- 
2.43.0


From 17884bac350a9b16daa0f4ee06672b54050139b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 05/14] fix: zero divided by anything is zero in GF8 and GF4

---
 src/decode/qr/galois.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 208881e..b8a765a 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -46,6 +46,10 @@ impl Div<GF8> for GF8 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF8) -> GF8 {
+        if self.0 == 0 {
+            return GF8(0);
+        }
+
         let log_self = LOG8[self.0 as usize];
         let log_other = LOG8[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
@@ -98,6 +102,10 @@ impl Div<GF4> for GF4 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF4) -> GF4 {
+        if self.0 == 0 {
+            return GF4(0);
+        }
+
         let log_self = LOG4[self.0 as usize];
         let log_other = LOG4[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From 81894e5c21abe6d78a4514ff3f2dde98d819629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 06/14] fix: check every syndrome after correcting a block

---
 src/decode/qr/correct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 6d02755..b29c5a2 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -42,7 +42,9 @@ pub fn correct_with_error_count(
         block[block_info.total_per as usize - 1 - locs[i] as usize] ^= distance[i].0;
     }
 
-    if syndrome(&block, EXP8[0]) != GF8(0) {
+    let (all_fine, _) = calculate_syndromes(&block, block_info);
+
+    if !all_fine {
         return Err(QRError {
             msg: String::from("Error correcting did not fix corrupted data"),
         });
-- 
2.43.0


From 7b49b0b7a6ac114649fbef462e03c4eba2067d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 07/14] fix: check every syndrome of the format information

---
 src/decode/qr/format.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 4350edb..81a3dfc 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -64,29 +64,31 @@ fn format2(data: &QRData) -> Result<Vec<u8>, QRError> {
     correct(format2)
 }
 
-fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
+fn syndromes(format: &[u8]) -> (GF4, GF4, GF4) {
     let mut s1 = GF4(0);
+    let mut s3 = GF4(0);
+    let mut s5 = GF4(0);
 
     for i in 0..format.len() {
         s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
+        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
+        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
     }
 
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    (s1, s3, s5)
+}
+
+fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
+    let (s1, s3, s5) = syndromes(&format);
+
+    if s1 == GF4(0) && s3 == GF4(0) && s5 == GF4(0) {
+        // all syndromes == 0, no error detected
         return Ok(format);
     }
 
     let s2 = s1 * s1;
     let s4 = s2 * s2;
 
-    let mut s3 = GF4(0);
-    let mut s5 = GF4(0);
-
-    for i in 0..format.len() {
-        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
-        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
-    }
-
     let sigma1 = s1;
     let sigma2 = ((s5 + s4 * sigma1) - s2 * (s3 + s2 * sigma1)) / (s3 - s1 * s2);
     let sigma3 = s3 + s2 * sigma1 + s1 * sigma2;
@@ -108,14 +110,10 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
         format[len - error as usize - 1] ^= 1;
     }
 
-    s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
+    let (s1, s3, s5) = syndromes(&format);
 
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if s1 == GF4(0) && s3 == GF4(0) && s5 == GF4(0) {
+        // all syndromes == 0, all errors corrected
         return Ok(format);
     }
 
-- 
2.43.0


From 126b9e84ffbb78170bcf4978a57d72c80514631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 08/14] fix: correct an error in the last bit of the format
 information

---
 src/decode/qr/format.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 81a3dfc..b5ba9a0 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -95,13 +95,10 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
 
     let mut error_pos = vec![];
 
-    for i in 0..16 {
+    for i in 1..16 {
         let x = GF4(i);
         if sigma3 + sigma2 * x + sigma1 * x * x + x * x * x == GF4(0) {
-            let log = LOG4[i as usize];
-            if log != 0 {
-                error_pos.push(log);
-            }
+            error_pos.push(LOG4[i as usize]);
         }
     }
 
-- 
2.43.0


From ab8931633a13cc6a1a6cf65009248f8fa041461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 09/14] fix: prepare images narrower or lower than one block

---
 src/prepare/blockedmean.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 8100593..df83cf2 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -235,11 +235,8 @@ impl Iterator for BlockCoordRangeInclusive {
     }
 }
 
-fn range(start: BlockCoord, end: BlockCoord) -> BlockCoordRangeInclusive {
-    BlockCoordRangeInclusive {
-        current: start.0,
-        end: end.0 - 1,
-    }
+fn range(start: BlockCoord, end: BlockCoord) -> impl Iterator<Item = BlockCoord> {
+    (start.0..end.0).map(BlockCoord)
 }
 
 fn range_inc(start: BlockCoord, end: BlockCoord) -> BlockCoordRangeInclusive {
-- 
2.43.0


From c4018eec0126a4b9b42a6aba177f629b3dac47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 10/14] fix: report modules outside of the image as an error

---
 src/extract/qr/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 30fda7f..fff9197 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -57,6 +57,13 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
             for _ in 0..size {
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
+
+                if x >= prepared.width() || y >= prepared.height() {
+                    return Err(QRError {
+                        msg: format!("Module at {}, {} lies outside of the image", x, y),
+                    });
+                }
+
                 let pixel = prepared.get_pixel(x, y)[0];
 
                 #[cfg(feature = "debug-images")]
-- 
2.43.0


From 6193953a69bf4c52047b143f2c2e823e5fbc0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 11/14] fix: look for alignment patterns only inside of the
 image

---
 src/extract/qr/mod.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index fff9197..e50b183 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -338,50 +338,61 @@ fn is_alignment(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta, scale: f64
 
     for x in -2..2 {
         let twice_up = p - f64::from(x) * dx - 2.0 * dy;
-        if prepared.get_pixel(twice_up.x.round() as u32, twice_up.y.round() as u32)[0] == 255 {
+        if pixel_at(prepared, twice_up).map_or(true, |p| p == 255) {
             return false;
         }
 
         let twice_down = p - f64::from(x) * dx + 2.0 * dy;
-        if prepared.get_pixel(twice_down.x.round() as u32, twice_down.y.round() as u32)[0] == 255 {
+        if pixel_at(prepared, twice_down).map_or(true, |p| p == 255) {
             return false;
         }
     }
 
     for y in -1..1 {
         let twice_left = p - 2.0 * dx - f64::from(y) * dy;
-        if prepared.get_pixel(twice_left.x.round() as u32, twice_left.y.round() as u32)[0] == 255 {
+        if pixel_at(prepared, twice_left).map_or(true, |p| p == 255) {
             return false;
         }
 
         let twice_right = p + 2.0 * dx - f64::from(y) * dy;
-        if prepared.get_pixel(twice_right.x.round() as u32, twice_right.y.round() as u32)[0] == 255
-        {
+        if pixel_at(prepared, twice_right).map_or(true, |p| p == 255) {
             return false;
         }
 
         let left = p - dx - f64::from(y) * dy;
-        if prepared.get_pixel(left.x.round() as u32, left.y.round() as u32)[0] == 0 {
+        if pixel_at(prepared, left).map_or(true, |p| p == 0) {
             return false;
         }
 
         let right = p - dx + f64::from(y) * dy;
-        if prepared.get_pixel(right.x.round() as u32, right.y.round() as u32)[0] == 0 {
+        if pixel_at(prepared, right).map_or(true, |p| p == 0) {
             return false;
         }
     }
 
     let up = p - dy;
-    if prepared.get_pixel(up.x.round() as u32, up.y.round() as u32)[0] == 0 {
+    if pixel_at(prepared, up).map_or(true, |p| p == 0) {
         return false;
     }
 
     let down = p + dy;
-    if prepared.get_pixel(down.x.round() as u32, down.y.round() as u32)[0] == 0 {
+    if pixel_at(prepared, down).map_or(true, |p| p == 0) {
         return false;
     }
 
-    prepared.get_pixel(p.x.round() as u32, p.y.round() as u32)[0] == 0
+    pixel_at(prepared, p) == Some(0)
+}
+
+/// The pixel nearest to a point, if it lies inside of the image
+fn pixel_at(prepared: &GrayImage, p: Point) -> Option<u8> {
+    let x = p.x.round() as u32;
+    let y = p.y.round() as u32;
+
+    if x < prepared.width() && y < prepared.height() {
+        Some(prepared.get_pixel(x, y)[0])
+    } else {
+        None
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 5f779abf6840a4cfe0ef92b89cdc52b32f5ef2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 12/14] fix: refuse to extract unknown versions

---
 src/extract/qr/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index e50b183..d7eb683 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -35,6 +35,12 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
     fn extract(&self, prepared: &GrayImage, loc: QRLocation) -> Result<QRData, QRError> {
         debug!("LOC {:?}", loc);
 
+        if !(1..=40).contains(&loc.version) {
+            return Err(QRError {
+                msg: format!("Unknown version {}", loc.version),
+            });
+        }
+
         let size = 17 + loc.version * 4;
         let p = determine_perspective(prepared, loc.version, size, &loc)?;
 
-- 
2.43.0


From 022f7db6641cfe291775b99f808a3fa4a3ea2d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 13/14] fix: keep debug drawings inside of the image

---
 src/detect/linescan.rs | 2 +-
 src/extract/qr/mod.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 3c26e3b..be1c058 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -135,7 +135,7 @@ impl Detect<GrayImage> for LineScan {
                 let x_start = (loc.x - 3.5 * c.module_size).max(0.0_f64) as u32;
                 let x_end = min(img.dimensions().0, (loc.x + 3.5 * c.module_size) as u32);
                 let y_start = (loc.y - 3.5 * c.module_size).max(0.0_f64) as u32;
-                let y_end = min(img.dimensions().0, (loc.y + 3.5 * c.module_size) as u32);
+                let y_end = min(img.dimensions().1, (loc.y + 3.5 * c.module_size) as u32);
 
                 for x in x_start..x_end {
                     for y in y_start..y_end {
diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index d7eb683..82783b5 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -76,7 +76,7 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
                 {
                     if pixel == 0 {
                         for i in max(0, x.saturating_sub(2))..min(img.dimensions().0, x + 2) {
-                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().0, y + 2) {
+                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().1, y + 2) {
                                 img.put_pixel(i, j, Rgb([255, 0, 0]));
                             }
                         }
@@ -249,7 +249,7 @@ fn determine_perspective(
         );
         let y_start = max(0, (est_alignment.y - 2.5 * loc.module_size) as u32);
         let y_end = min(
-            img.dimensions().0,
+            img.dimensions().1,
             (est_alignment.y + 2.5 * loc.module_size) as u32,
         );
 
-- 
2.43.0


From 2af2d1299b68076f2b19de00744ec67d26689185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 14/14] fix: swap equations when a pivot is zero

---
 src/decode/qr/correct.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index b29c5a2..b7c9368 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -143,6 +143,13 @@ where
     }
 
     for i in 0..num_eq {
+        // the first coefficient has to be nonzero, swap with a later equation if needed
+        if eq[i][i] == zero {
+            if let Some(j) = (i + 1..num_eq).find(|j| eq[*j][i] != zero) {
+                eq.swap(i, j);
+            }
+        }
+
         // normalise equation
         for j in (i..num_coeff).rev() {
             // divide all coefficients by the first nonzero
-- 
2.43.0

