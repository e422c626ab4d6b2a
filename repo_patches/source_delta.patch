From 2bdf195e99fa36fad38b6f4d8002d3f33a38936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:54 +0000
Subject: [PATCH 01/18] fix: TonalPalette::get_hct must not answer a fractional
 tone from the whole-tone cache

---
 src/palettes/tonal_palette.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 714d773..786d845 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -181,7 +181,13 @@ impl TonalPalette {
     /// If the palette is constructed from a hue and chroma (i.e. using [of] or
     /// [fromHct]), the result is generated from the given [hue] and [chroma].
     pub fn get_hct(&self, tone: f64) -> Hct {
-        let maybe_hct_int = self._cache.get(&(tone as i64));
+        // Cached colors exist for whole tones only; a fractional tone must not be
+        // truncated onto a cached neighbor.
+        let maybe_hct_int = if tone.fract() == 0.0 {
+            self._cache.get(&(tone as i64))
+        } else {
+            None
+        };
 
         match maybe_hct_int {
             Some(hct_int) => Hct::from_int(*hct_int),
-- 
2.43.0


From e104fac32d9ae6bd2efab1922a8039118fd7738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:59 +0000
Subject: [PATCH 02/18] fix: TemperatureCache covers hue 360, which rounding an
 input hue can reach

---
 src/temperature/temperature_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 152a039..9b09ef5 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -284,7 +284,7 @@ impl TemperatureCache {
             return self._hcts_by_hue.clone();
         }
         let mut hcts: Vec<Hct> = Vec::new();
-        for hue in 0..360 {
+        for hue in 0..=360 {
             let hue = hue as f64;
             let color_at_hue = Hct::from(hue, self.input.get_chroma(), self.input.get_tone());
             hcts.push(color_at_hue);
-- 
2.43.0


From 4dbe57abeba09d2076d62cf0f9c7944a2b082027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:42 +0000
Subject: [PATCH 03/18] fix: sanitize_degrees_double never returns 360 (tiny
 negative angles rounded up to it)

---
 src/utils/math_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/math_utils.rs b/src/utils/math_utils.rs
index c302bcc..496c33d 100644
--- a/src/utils/math_utils.rs
+++ b/src/utils/math_utils.rs
@@ -69,6 +69,10 @@ impl MathUtils {
         let mut degrees = degrees % 360.0;
         if degrees < 0.0 {
             degrees = degrees + 360.0;
+            // A tiny negative angle rounds up to the excluded end of the range.
+            if degrees >= 360.0 {
+                degrees = 0.0;
+            }
         }
         return degrees;
     }
-- 
2.43.0


From 818db2969a0e0d9bc64948ffb5ab1b6a1a228589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:48 +0000
Subject: [PATCH 04/18] fix: QuantizerCelebi gives the same answer every time
 it is run on the same pixels

---
 src/quantize/quantizer_celebi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_celebi.rs b/src/quantize/quantizer_celebi.rs
index f69a973..1b6cfe4 100644
--- a/src/quantize/quantizer_celebi.rs
+++ b/src/quantize/quantizer_celebi.rs
@@ -17,10 +17,14 @@ impl Quantizer for QuantizerCelebi {
             return_input_pixel_to_cluster_pixel.unwrap_or(false);
         let mut wu = QuantizerWu::new();
         let wu_result = wu.quantize(pixels, max_colors, None);
+        // A HashMap has no stable order, and the clustering depends on the order of
+        // its starting clusters.
+        let mut starting_clusters: Vec<i64> = wu_result.color_to_count.keys().cloned().collect();
+        starting_clusters.sort_unstable();
         let wsmeans_result = QuantizerWsmeans::quantize(
             pixels,
             max_colors,
-            Some(&wu_result.color_to_count.keys().cloned().collect()),
+            Some(&starting_clusters),
             Some(&PointProviderLab::new()),
             None,
             Some(return_input_pixel_to_cluster_pixel),
-- 
2.43.0


From 0be3f1a1eb4112bf5ec4870544056c54b169923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:54 +0000
Subject: [PATCH 05/18] fix: QuantizerWu reuses the slot of a box that could
 not be cut

---
 src/quantize/quantizer_wu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 4391115..b1873f1 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -149,7 +149,8 @@ impl QuantizerWu {
         let mut volume_variance: Vec<f64> = vec![0.0; max_color_count as usize];
         let mut next: i64 = 0;
         let mut generated_color_count: i64 = max_color_count;
-        for mut i in 1..max_color_count {
+        let mut i: i64 = 1;
+        while i < max_color_count {
             let one = next as usize;
             let two = i as usize;
             if self.cut(one, two) {
@@ -180,6 +181,7 @@ impl QuantizerWu {
                 generated_color_count = i + 1;
                 break;
             }
+            i += 1;
         }
 
         return CreateBoxesResult::new(max_color_count, generated_color_count);
-- 
2.43.0


From ae7e19dccec9460224762cc5f6e916fa910908f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:00 +0000
Subject: [PATCH 06/18] fix: QuantizerWu rounds the mean of a box instead of
 truncating it

---
 src/quantize/quantizer_wu.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index b1873f1..b1718ca 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -193,11 +193,14 @@ impl QuantizerWu {
             let cube = &self.cubes[i as usize];
             let weight: i64 = Self::volume(cube.clone(), self.weights.clone());
             if weight > 0 {
-                let r: i64 = ((Self::volume(cube.clone(), self.moments_r.clone()) / weight) as f64)
+                let r: i64 = (Self::volume(cube.clone(), self.moments_r.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let g: i64 = ((Self::volume(cube.clone(), self.moments_g.clone()) / weight) as f64)
+                let g: i64 = (Self::volume(cube.clone(), self.moments_g.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let b: i64 = ((Self::volume(cube.clone(), self.moments_b.clone()) / weight) as f64)
+                let b: i64 = (Self::volume(cube.clone(), self.moments_b.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
                 let color: i64 = ColorUtils::argb_from_rgb(r, g, b);
                 colors.push(color);
@@ -221,7 +224,7 @@ impl QuantizerWu {
 
         let hypotenuse = dr * dr + dg * dg + db * db;
         let volume_ = Self::volume(cube, self.weights.clone());
-        return xx - (hypotenuse / volume_) as f64;
+        return xx - hypotenuse as f64 / volume_ as f64;
     }
 
     pub fn cut(&mut self, one_index: usize, two_index: usize) -> bool {
-- 
2.43.0


From 4e6a77100e3cd5f0e681960dcc5b9b56a63f7e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:06 +0000
Subject: [PATCH 07/18] fix: QuantizerWu no longer overflows on images of
 several megapixels

---
 src/quantize/quantizer_wu.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index b1718ca..f855f57 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -222,9 +222,9 @@ impl QuantizerWu {
             + self.moments[Self::get_index(cube.r0, cube.g0, cube.b1) as usize]
             - self.moments[Self::get_index(cube.r0, cube.g0, cube.b0) as usize];
 
-        let hypotenuse = dr * dr + dg * dg + db * db;
+        let hypotenuse = Self::squared_length(dr, dg, db);
         let volume_ = Self::volume(cube, self.weights.clone());
-        return xx - hypotenuse as f64 / volume_ as f64;
+        return xx - hypotenuse / volume_ as f64;
     }
 
     pub fn cut(&mut self, one_index: usize, two_index: usize) -> bool {
@@ -346,8 +346,7 @@ impl QuantizerWu {
                 continue;
             }
 
-            let mut temp_numerator: f64 =
-                ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            let mut temp_numerator: f64 = Self::squared_length(half_r, half_g, half_b);
             let mut temp_denominator: f64 = half_w as f64;
             let mut temp: f64 = temp_numerator / temp_denominator;
 
@@ -358,7 +357,7 @@ impl QuantizerWu {
             if half_w == 0 {
                 continue;
             }
-            temp_numerator = ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            temp_numerator = Self::squared_length(half_r, half_g, half_b);
             temp_denominator = half_w as f64;
             temp += temp_numerator / temp_denominator;
 
@@ -370,6 +369,12 @@ impl QuantizerWu {
         return MaximizeResult::new(cut, max);
     }
 
+    // The squares of a large image's color sums do not fit in 64 bits.
+    fn squared_length(r: i64, g: i64, b: i64) -> f64 {
+        let (r, g, b) = (r as i128, g as i128, b as i128);
+        return (r * r + g * g + b * b) as f64;
+    }
+
     pub fn volume(cube: Box, moment: Vec<i64>) -> i64 {
         return moment[Self::get_index(cube.r1, cube.g1, cube.b1) as usize]
             - moment[Self::get_index(cube.r1, cube.g1, cube.b0) as usize]
-- 
2.43.0


From da7c5caa5e1a2134b1d09bf9a2a0d6ab38204b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:12 +0000
Subject: [PATCH 08/18] fix: TonalPalette::to_string names the constructor the
 palette was made with

---
 src/palettes/tonal_palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 786d845..2e2d90e 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -199,7 +199,7 @@ impl TonalPalette {
 impl ToString for TonalPalette {
     fn to_string(&self) -> String {
         let mut mutable_clone = self.clone();
-        if self._is_from_cache {
+        if !self._is_from_cache {
             return format!(
                 "TonalPalette.of({}, {})",
                 mutable_clone.hue, mutable_clone.chroma
-- 
2.43.0


From 600dc09cbdec7cf8ecdc689254cdfc7f20db22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 09/18] fix: QuantizerWsmeans looks cluster distances up by
 cluster, not by rank

Each row of the distance matrix was sorted, yet the pruning test indexes it by
cluster number, so it could skip the nearest cluster: an image of three colors
quantized to sixteen came back as two.
---
 src/quantize/quantizer_wsmeans.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/quantize/quantizer_wsmeans.rs b/src/quantize/quantizer_wsmeans.rs
index 16f8cdc..942910e 100644
--- a/src/quantize/quantizer_wsmeans.rs
+++ b/src/quantize/quantizer_wsmeans.rs
@@ -176,7 +176,6 @@ impl QuantizerWsmeans {
                     distance_to_index_matrix[i as usize][j as usize].distance = distance;
                     distance_to_index_matrix[i as usize][j as usize].index = j;
                 }
-                distance_to_index_matrix[i as usize].sort();
                 for j in 0..cluster_count {
                     index_matrix[i as usize][j as usize] =
                         distance_to_index_matrix[i as usize][j as usize].index;
-- 
2.43.0


From 42438429461c342d25af10eb79d1dbbeb7d47eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:02 +0000
Subject: [PATCH 10/18] fix: QuantizerWsmeans counts every pixel when two
 clusters share a color

The population of a cluster whose mean rounds to the color of an earlier cluster
was dropped, so counts did not add up to the number of pixels.
---
 src/quantize/quantizer_wsmeans.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wsmeans.rs b/src/quantize/quantizer_wsmeans.rs
index 942910e..b4eec88 100644
--- a/src/quantize/quantizer_wsmeans.rs
+++ b/src/quantize/quantizer_wsmeans.rs
@@ -261,7 +261,11 @@ impl QuantizerWsmeans {
 
             let possible_new_cluster =
                 point_provider.to_int(&clusters[i as usize].iter().map(|it| *it).collect());
-            if cluster_argbs.contains(&possible_new_cluster) {
+            if let Some(existing) = cluster_argbs
+                .iter()
+                .position(|argb| *argb == possible_new_cluster)
+            {
+                cluster_populations[existing] += count;
                 continue;
             }
 
-- 
2.43.0


From 8d4a733cc6df4a6bd1e2e8fba731c5aec1938a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:07 +0000
Subject: [PATCH 11/18] fix: Score ranks colors with equal scores in a stable
 order

---
 src/score/score.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/score/score.rs b/src/score/score.rs
index d0343d9..3a12f63 100644
--- a/src/score/score.rs
+++ b/src/score/score.rs
@@ -89,7 +89,11 @@ impl Score {
         let mut colors_hct: Vec<Hct> = Vec::new();
         let mut hue_population = [0; 360]; //List<int>.filled(360, 0);
         let mut population_sum = 0;
-        for (key, value) in colors_to_population {
+        // A HashMap has no stable order, and colors with equal scores keep the order
+        // they are visited in.
+        let mut entries: Vec<(&i64, &i64)> = colors_to_population.iter().collect();
+        entries.sort_unstable();
+        for (key, value) in entries {
             let argb = key;
             let population = value;
             let hct = Hct::from_int(*argb);
-- 
2.43.0


From 01c0e4316ca12f225269b1ec3f8b0b270710e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:12 +0000
Subject: [PATCH 12/18] fix: Score does not rank by NaN when no color has any
 population

---
 src/score/score.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/score/score.rs b/src/score/score.rs
index 3a12f63..e42b3a3 100644
--- a/src/score/score.rs
+++ b/src/score/score.rs
@@ -107,7 +107,11 @@ impl Score {
         let mut hue_excited_proportions = [0.0; 360];
         let mut hue: i64 = 0;
         while hue < 360 {
-            let proportion = (hue_population[hue as usize] as f64) / (population_sum as f64);
+            let proportion = if population_sum == 0 {
+                0.0
+            } else {
+                (hue_population[hue as usize] as f64) / (population_sum as f64)
+            };
             let mut i: i64 = hue - 14;
             while i < hue + 16 {
                 let neighbor_hue = MathUtils::sanitize_degrees_int(i);
-- 
2.43.0


From 1a56538f7f85b10aa6de66aa7647833734a3ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:35 +0000
Subject: [PATCH 13/18] fix: schemes and palettes that compare equal hash alike
 when a value is -0.0

---
 src/dynamiccolor/dynamic_scheme.rs | 3 ++-
 src/palettes/tonal_palette.rs      | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 621e006..1a03adc 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -76,7 +76,8 @@ impl Hash for DynamicScheme {
         self.source_color_hct.hash(state);
         self.variant.hash(state);
         self.is_dark.hash(state);
-        self.contrast_level.to_ne_bytes().hash(state);
+        // -0.0 equals 0.0, so the two must hash alike.
+        (self.contrast_level + 0.0).to_ne_bytes().hash(state);
         self.primary_palette.hash(state);
         self.secondary_palette.hash(state);
         self.tertiary_palette.hash(state);
diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 2e2d90e..ce5fb68 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -228,8 +228,9 @@ impl PartialEq for TonalPalette {
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
         if !self._is_from_cache {
-            self.hue.to_ne_bytes().hash(state);
-            self.chroma.to_ne_bytes().hash(state);
+            // -0.0 equals 0.0, so the two must hash alike.
+            (self.hue + 0.0).to_ne_bytes().hash(state);
+            (self.chroma + 0.0).to_ne_bytes().hash(state);
         } else {
             let list = self.clone().get_as_list();
             hash_vec_i64(&list, state);
-- 
2.43.0


From 24c19bbbf9504f1b195ae07a00a261365b919871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:10 +0000
Subject: [PATCH 14/18] fix: the gamut search orders nearly equal hues
 consistently

---
 src/hct/src/hct_solver.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hct/src/hct_solver.rs b/src/hct/src/hct_solver.rs
index f1be8d3..70968a1 100644
--- a/src/hct/src/hct_solver.rs
+++ b/src/hct/src/hct_solver.rs
@@ -349,9 +349,16 @@ impl HctSolver {
     }
 
     fn _are_in_cyclic_order(a: f64, b: f64, c: f64) -> bool {
-        let delta_ab = Self::_sanitize_radians(b - a);
-        let delta_ac = Self::_sanitize_radians(c - a);
-        return delta_ab < delta_ac;
+        // Compare the angles themselves: differences of nearly equal angles
+        // round inconsistently, and the search would leave its segment.
+        let a = Self::_sanitize_radians(a);
+        let b = Self::_sanitize_radians(b);
+        let c = Self::_sanitize_radians(c);
+        return if a <= c {
+            a <= b && b < c
+        } else {
+            a <= b || b < c
+        };
     }
 
     /// Solves the lerp equation.
-- 
2.43.0


From 72491718085d803034884baf8db30281d76b7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:37 +0000
Subject: [PATCH 15/18] fix: palettes that compare equal hash alike however
 they were made

---
 src/palettes/tonal_palette.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index ce5fb68..b5f08f8 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -227,14 +227,9 @@ impl PartialEq for TonalPalette {
 }
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if !self._is_from_cache {
-            // -0.0 equals 0.0, so the two must hash alike.
-            (self.hue + 0.0).to_ne_bytes().hash(state);
-            (self.chroma + 0.0).to_ne_bytes().hash(state);
-        } else {
-            let list = self.clone().get_as_list();
-            hash_vec_i64(&list, state);
-        }
+        // A palette made from hue and chroma equals one made from a list of its
+        // colors, so the two must hash alike: hash a color, which they share.
+        self.get_hct(40.0).to_int().hash(state);
     }
 }
 
@@ -253,9 +248,3 @@ impl ListEquality {
         }
     }
 }
-
-fn hash_vec_i64<H: Hasher>(vec: &Vec<i64>, state: &mut H) {
-    for element in vec {
-        element.hash(state);
-    }
-}
-- 
2.43.0


From 2208a37ea635a20ef5102d81ab8c35361ab22bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:44 +0000
Subject: [PATCH 16/18] fix: hex text with a sign is not a color

---
 src/utils/string_utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/string_utils.rs b/src/utils/string_utils.rs
index 2de1925..4dcf4e6 100644
--- a/src/utils/string_utils.rs
+++ b/src/utils/string_utils.rs
@@ -25,6 +25,11 @@ impl StringUtils {
     }
 
     pub fn argb_from_hex(hex: String) -> Option<i64> {
-        return i64::from_str_radix(hex.trim_start_matches("#"), 16).ok();
+        let digits = hex.trim_start_matches("#");
+        // from_str_radix accepts a sign, which is no hexadecimal digit.
+        if !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return None;
+        }
+        return i64::from_str_radix(digits, 16).ok();
     }
 }
-- 
2.43.0


From d2abd9dade5699b08b85747dc8cc0f8c8ab2f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:54 +0000
Subject: [PATCH 17/18] fix: a CAM16 hue a hair below zero is 0, not a panic or
 360

---
 src/hct/cam16.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/hct/cam16.rs b/src/hct/cam16.rs
index 6a48248..431c62f 100644
--- a/src/hct/cam16.rs
+++ b/src/hct/cam16.rs
@@ -162,15 +162,7 @@ impl Cam16 {
         // hue
         let atan2 = (b).atan2(a);
         let atan_degrees = atan2 * 180.0 / std::f64::consts::PI;
-        let hue: f64 = {
-            if atan_degrees < 0.0 {
-                atan_degrees + 360.0
-            } else if atan_degrees >= 360.0 {
-                atan_degrees - 360.0
-            } else {
-                atan_degrees
-            }
-        };
+        let hue = MathUtils::sanitize_degrees_double(atan_degrees);
 
         let hue_radians = hue * std::f64::consts::PI / 180.0;
         assert!(hue >= 0.0 && hue < 360.0, "hue was really $hue");
@@ -265,10 +257,7 @@ impl Cam16 {
         let m = (a * a + b * b).sqrt();
         let m = ((m * 0.0228).exp() - 1.0) / 0.0228;
         let c = m / viewing_conditions.f_lroot;
-        let mut h = (b.atan2(a)) * (180.0 / std::f64::consts::PI);
-        if h < 0.0 {
-            h += 360.0;
-        }
+        let h = MathUtils::sanitize_degrees_double(b.atan2(a) * (180.0 / std::f64::consts::PI));
         let j = jstar / (1.0 - (jstar - 100.0) * 0.007);
 
         return Self::from_jch_in_viewing_conditions(j, c, h, viewing_conditions);
-- 
2.43.0


From 485dbd5e7123d6afc906e749d853b4f94bef4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:52 +0000
Subject: [PATCH 18/18] fix: schemes whose palettes give different colors are
 not equal

---
 src/dynamiccolor/dynamic_scheme.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 1a03adc..ff61963 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -67,6 +67,13 @@ impl PartialEq for DynamicScheme {
             && self.neutral_palette == other.neutral_palette
             && self.neutral_variant_palette == other.neutral_variant_palette
             && self.error_palette == other.error_palette
+            // Palettes compare by their common tones if made from a list, but the
+            // colors of a scheme depend on the other tones and on key colors too.
+            && self
+                ._palettes()
+                .iter()
+                .zip(other._palettes())
+                .all(|(a, b)| a.hue == b.hue && a.chroma == b.chroma && a.key_color == b.key_color)
     }
 }
 impl Eq for DynamicScheme {}
@@ -114,6 +121,17 @@ impl DynamicScheme {
         }
     }
 
+    fn _palettes(&self) -> [&TonalPalette; 6] {
+        [
+            &self.primary_palette,
+            &self.secondary_palette,
+            &self.tertiary_palette,
+            &self.neutral_palette,
+            &self.neutral_variant_palette,
+            &self.error_palette,
+        ]
+    }
+
     pub fn get_rotated_hue(source_color: &Hct, hues: &Vec<f64>, rotations: &Vec<f64>) -> f64 {
         let source_hue = source_color.get_hue();
         assert!(hues.len() == rotations.len());
-- 
2.43.0

