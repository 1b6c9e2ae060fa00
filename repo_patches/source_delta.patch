From c8b0d9a7404681d3b922a891f193a6d4a86a8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 01/10] fix: modulo-10 checksum overflowed a byte on long
 interleaved 2-of-5 data

---
 src/sym/helpers.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sym/helpers.rs b/src/sym/helpers.rs
index 677ef57..b333c8c 100644
--- a/src/sym/helpers.rs
+++ b/src/sym/helpers.rs
@@ -23,13 +23,14 @@ where
 
 /// Calculates the checksum digit using a modulo-10 weighting algorithm.
 pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
-    let mut odds = 0;
-    let mut evens = 0;
+    // Wide enough for the longest data: 256 nines weighted by 3 do not fit in a byte.
+    let mut odds: u32 = 0;
+    let mut evens: u32 = 0;
 
     for (i, d) in data.iter().enumerate() {
         match i % 2 {
-            1 => odds += *d,
-            _ => evens += *d,
+            1 => odds += u32::from(*d),
+            _ => evens += u32::from(*d),
         }
     }
 
@@ -43,6 +44,6 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
 
     match 10 - ((odds + evens) % 10) {
         10 => 0,
-        n => n,
+        n => n as u8,
     }
 }
-- 
2.43.0


From 2ba461d6da7985d0145d360c431122c2f7075f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 02/10] fix: Code128 check value overflowed on long data

---
 src/sym/code128.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index a1b0081..c890327 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -345,13 +345,15 @@ impl Code128 {
 
     /// Calculates the checksum index using a modulo-103 algorithm.
     fn checksum_value(&self) -> u8 {
-        let sum: i32 = self
+        let sum: u64 = self
             .0
             .iter()
-            .zip(0..self.0.len() as i32)
-            .fold(0, |t, (u, i)| t + (u.index() as i32 * cmp::max(1, i)));
+            .zip(0..self.0.len() as u64)
+            .fold(0, |t, (u, i)| {
+                (t + (u.index() as u64 * cmp::max(1, i))) % 103
+            });
 
-        (sum % 103) as u8
+        sum as u8
     }
 
     fn checksum_encoding(&self) -> Encoding {
-- 
2.43.0


From 441d8e3ee3fbb9a4911703375b7b1d03b038cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 03/10] fix: Code128 reordered data when FNC1 split a pair of
 set C digits

---
 src/sym/code128.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index c890327..cef9227 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -330,6 +330,8 @@ impl Code128 {
                         carry = None;
                     }
                 },
+                // A function character may not split a pair of digits.
+                _ if carry.is_some() => return Err(Error::Character),
                 _ => {
                     let u = char_set.lookup(&ch.to_string())?;
                     units.push(u);
-- 
2.43.0


From 9183808fb372e92dfcebec800f4ec443cbc1fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 04/10] fix: Code128 accepted a lone character-set marker,
 counting its bytes

---
 src/sym/code128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index cef9227..c6028e8 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -289,7 +289,7 @@ impl Code128 {
     /// Returns Result<Code128, Error> indicating parse success.
     pub fn new<T: AsRef<str>>(data: T) -> Result<Code128> {
         let data = data.as_ref();
-        if data.len() < 2 {
+        if data.chars().count() < 2 {
             return Err(Error::Length);
         }
 
-- 
2.43.0


From 59b5dc893cee16faa6f1b3f68086ff45eb670572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 05/10] fix: Code128 set B refused DEL, the last of its
 characters

---
 src/sym/code128.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index c6028e8..b26ec3b 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -276,6 +276,11 @@ impl CharacterSet {
 
     fn lookup(self, s: &str) -> Result<Unit> {
         let p = self.index()?;
+        // DEL (ASCII 127) is written as U+00F7 in the table of set B.
+        let s = match (self, s) {
+            (CharacterSet::B, "\u{007F}") => "\u{00F7}",
+            _ => s,
+        };
 
         match CHARS.iter().position(|&c| c.0[p] == s) {
             Some(i) => self.unit(i),
-- 
2.43.0


From 661ec41f0c8c7268a063bcf87a740cd62f7df836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 06/10] fix: SVG coordinates overflowed 32 bits with a large
 x-dimension

---
 src/generators/svg.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generators/svg.rs b/src/generators/svg.rs
index 344f2e0..6d19df6 100644
--- a/src/generators/svg.rs
+++ b/src/generators/svg.rs
@@ -144,7 +144,7 @@ impl SVG {
         self
     }
 
-    fn rect(&self, style: u8, offset: u32, width: u32) -> String {
+    fn rect(&self, style: u8, offset: u64, width: u64) -> String {
         let fill = match style {
             1 => self.foreground,
             _ => self.background,
@@ -169,12 +169,13 @@ impl SVG {
     /// error message.
     pub fn generate<T: AsRef<[u8]>>(&self, barcode: T) -> Result<String> {
         let barcode = barcode.as_ref();
-        let width = (barcode.len() as u32) * self.xdim;
+        let xdim = u64::from(self.xdim);
+        let width = barcode.len() as u64 * xdim;
         let rects: String = barcode
             .iter()
             .enumerate()
             .filter(|&(_, &n)| n == 1)
-            .map(|(i, &n)| self.rect(n, i as u32 * self.xdim, self.xdim))
+            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
             .collect();
 
         let xmlns = match &self.xmlns {
-- 
2.43.0


From aa2b5925e05107e692563fcc8b591b5b184e76cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 07/10] fix: SVG namespace was not escaped, giving malformed
 XML

---
 src/generators/svg.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generators/svg.rs b/src/generators/svg.rs
index 6d19df6..5ae82f9 100644
--- a/src/generators/svg.rs
+++ b/src/generators/svg.rs
@@ -88,6 +88,14 @@ impl ToHex for Color {
     }
 }
 
+// Escapes the characters which may not appear as such in a quoted XML attribute.
+fn escape_attribute(value: &str) -> String {
+    value
+        .replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('"', "&quot;")
+}
+
 /// The SVG barcode generator type.
 #[derive(Clone, Debug)]
 pub struct SVG {
@@ -179,7 +187,7 @@ impl SVG {
             .collect();
 
         let xmlns = match &self.xmlns {
-            Some(xmlns) => format!("xmlns=\"{xmlns}\" "),
+            Some(xmlns) => format!("xmlns=\"{}\" ", escape_attribute(xmlns)),
             None => "".to_string() 
         };
 
-- 
2.43.0


From 293295fe0f19b76fb588b85f963a10b7d8163c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 08/10] fix: image width overflowing 32 bits panicked or
 wrapped

---
 src/generators/image.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index b4e95d5..8ea1b2d 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -163,7 +163,7 @@ impl Image {
         };
 
         let mut bytes: Vec<u8> = vec![];
-        let img = self.place_pixels(&barcode);
+        let img = self.place_pixels(&barcode)?;
 
         match img.write_to(&mut Cursor::new(&mut bytes), format) {
             Ok(_) => Ok(bytes),
@@ -177,19 +177,22 @@ impl Image {
         self,
         barcode: T,
     ) -> Result<ImageBuffer<Rgba<u8>, Vec<u8>>> {
-        let img = self.place_pixels(&barcode);
+        let img = self.place_pixels(&barcode)?;
 
         Ok(img.to_rgba8())
     }
 
-    fn place_pixels<T: AsRef<[u8]>>(&self, barcode: T) -> DynamicImage {
+    fn place_pixels<T: AsRef<[u8]>>(&self, barcode: T) -> Result<DynamicImage> {
         let barcode = barcode.as_ref();
         let (xdim, height, rotation, bg, fg) = expand_image_variants!(
             *self,
             {height: h, xdim: x, rotation: r, background: b, foreground: f} => (x, h, r, b.to_rgba(), f.to_rgba()),
             GIF, PNG, WEBP, ImageBuffer
         );
-        let width = (barcode.len() as u32) * xdim;
+        let width = u32::try_from(barcode.len())
+            .ok()
+            .and_then(|modules| modules.checked_mul(xdim))
+            .ok_or(Error::Generate)?;
         let mut buffer = ImageBuffer::new(width, height);
 
         for y in 0..height {
@@ -204,12 +207,12 @@ impl Image {
 
         let img = ImageRgba8(buffer);
 
-        match rotation {
+        Ok(match rotation {
             Rotation::Ninety => img.rotate90(),
             Rotation::OneEighty => img.rotate180(),
             Rotation::TwoSeventy => img.rotate270(),
             _ => img,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 5bb6509204bbed309ce89ace150faaa4341f09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:27 +0000
Subject: [PATCH 09/10] fix: GIF without pixels was reported as generated
 though no file was encoded

---
 src/generators/image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index 8ea1b2d..6224305 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -165,6 +165,11 @@ impl Image {
         let mut bytes: Vec<u8> = vec![];
         let img = self.place_pixels(&barcode)?;
 
+        // A picture without pixels has no encoding.
+        if img.width() == 0 || img.height() == 0 {
+            return Err(Error::Generate);
+        }
+
         match img.write_to(&mut Cursor::new(&mut bytes), format) {
             Ok(_) => Ok(bytes),
             _ => Err(Error::Generate),
-- 
2.43.0


From 2a3e274db8f743dafe2160797349e140a53b0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 10/10] fix: data of 4 GiB or more passed the length check
 modulo 2^32

---
 src/sym.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sym.rs b/src/sym.rs
index f1d3efa..f759a6a 100644
--- a/src/sym.rs
+++ b/src/sym.rs
@@ -38,9 +38,9 @@ trait Parse {
     fn parse(data: &str) -> Result<&str, Error> {
         let valid_chars = Self::valid_chars();
         let valid_len = Self::valid_len();
-        let data_len = data.len() as u32;
+        let data_len = data.len();
 
-        if data_len < valid_len.start || data_len > valid_len.end {
+        if data_len < valid_len.start as usize || data_len > valid_len.end as usize {
             return Err(Error::Length);
         }
 
-- 
2.43.0

