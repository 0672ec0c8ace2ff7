From 3038ed20252adbce0b4fac30ce449756264f6bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 01/16] Add cfg(verif_hooks) re-export of private storage types
 for external verification

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 24ca05e..2a19250 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,3 +105,14 @@ mod util;
 
 pub use self::util::SipHasherBuilder;
 use self::util::{DoubleHasher, HashIter};
+
+/// Private types re-exported for external verification harnesses. Only compiled with
+/// `--cfg verif_hooks`.
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::bit_vec::BitVec;
+    pub use crate::bitstring_vec::BitstringVec;
+    pub use crate::util::{DoubleHasher, HashIter};
+}
-- 
2.43.0


From ebe7596a3f0cdf6140d595412d13b61f8e730bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 02/16] fix: QuotientFilter::remove deletes only the
 fingerprint of the removed item

Removing an item whose quotient has no run could delete an item of another run, and removing the
only item of a run left a stale occupied bit when no shifted slot followed.
---
 src/quotient.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6a598c8..af514d1 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -442,8 +442,8 @@ where
         let (quotient, remainder) =
             self.get_quotient_and_remainder(util::hash(&self.hash_builder, &item));
 
-        // empty slot
-        if self.slot_vec.get(quotient) & METADATA_MASK == 0 {
+        // no such run exists
+        if self.slot_vec.get(quotient) & OCCUPIED_MASK == 0 {
             return;
         }
 
@@ -481,6 +481,13 @@ where
         self.increment_index(&mut next_index);
         let mut next_slot = self.slot_vec.get(next_index);
 
+        // the removed item was the only item of its run if the next slot does not continue the run,
+        // so we can delete occupied bit of canonical position
+        if is_run_start && next_slot & CONTINUATION_MASK == 0 {
+            let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
+            self.slot_vec.set(quotient, canonical_slot);
+        }
+
         // continue until it is not shifted and not a continuation: the only cases are if it is an
         // item in its canonical position, or if the slot is empty
         while next_slot & CONTINUATION_MASK != 0 || next_slot & SHIFTED_MASK != 0 {
@@ -489,11 +496,6 @@ where
             // update number of runs since the entire run gets shifted to left
             if next_slot & CONTINUATION_MASK == 0 {
                 runs_count += 1;
-                // next slot is a new run, so we can delete occupied bit of canonical position
-                if is_run_start {
-                    let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
-                    self.slot_vec.set(quotient, canonical_slot);
-                }
             }
             // if first item is a start of a run, the next item must be a start of a run. The
             // next item is either already a start of a run or the new start of the removed
-- 
2.43.0


From a6ac37d31c6d8688cba1d3b5b6d777c72aa2b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 03/16] fix: reject QuotientFilter widths that do not fit in a
 slot

The sum of the widths was computed in u8 and overflowed, and remainders wider than 61 bits do not
fit in a 64-bit slot together with the metadata bits.
---
 src/quotient.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index af514d1..f370e74 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -78,8 +78,8 @@ impl<T> QuotientFilter<T> {
     ///
     /// # Panics
     ///
-    /// Panics if `quotient_bits` is 0, `remainder_bits` is 0, or if `quotient_bits +
-    /// remainder_bits` is greater than 64.
+    /// Panics if `quotient_bits` is 0, `remainder_bits` is 0, if `quotient_bits + remainder_bits` is
+    /// greater than 64, or if `remainder_bits` is greater than 61.
     ///
     /// # Examples
     ///
@@ -216,8 +216,8 @@ where
     ///
     /// # Panics
     ///
-    /// Panics if `quotient_bits` is 0, `remainder_bits` is 0, or if `quotient_bits +
-    /// remainder_bits` is greater than 64.
+    /// Panics if `quotient_bits` is 0, `remainder_bits` is 0, if `quotient_bits + remainder_bits` is
+    /// greater than 64, or if `remainder_bits` is greater than 61.
     ///
     /// # Examples
     ///
@@ -230,7 +230,8 @@ where
     pub fn with_hasher(quotient_bits: u8, remainder_bits: u8, hash_builder: B) -> Self {
         assert!(quotient_bits > 0);
         assert!(remainder_bits > 0);
-        assert!(quotient_bits + remainder_bits <= 64);
+        assert!(u32::from(quotient_bits) + u32::from(remainder_bits) <= 64);
+        assert!(u32::from(remainder_bits) + u32::from(METADATA_BITS) <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
         let slot_vec_len = u64::from(slot_bits) * (1u64 << quotient_bits);
         QuotientFilter {
-- 
2.43.0


From 5a7248e05b4cc0eb9b040cf534b69c1edb90fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 04/16] fix: CuckooFilter::capacity counts entries of the table

It reported how many entries fit in the allocated words, which exceeds the number of entries.
---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 9d3545a..002450b 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -649,7 +649,7 @@ where
     /// assert_eq!(filter.capacity(), 128);
     /// ```
     pub fn capacity(&self) -> usize {
-        self.fingerprint_vec.capacity()
+        self.fingerprint_vec.len()
     }
 
     /// Returns the length of each bucket in the cuckoo filter.
-- 
2.43.0


From 2056e8d9db493f9953887a50ff20e39af2af5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 05/16] fix: ShingleIterator yields nothing when there are too
 few tokens

The subtraction underflowed when the shingle size exceeded the number of tokens.
---
 src/similarity/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/similarity/mod.rs b/src/similarity/mod.rs
index 9976323..1e60902 100644
--- a/src/similarity/mod.rs
+++ b/src/similarity/mod.rs
@@ -65,7 +65,7 @@ where
     type Item = Vec<&'a T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index > self.tokens.len() - self.token_count {
+        if self.index + self.token_count > self.tokens.len() {
             return None;
         }
         self.index += 1;
-- 
2.43.0


From 80521984d78cbc030f1227459b5cc2b32fa53630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 06/16] fix: SimHash::report_similarities accepts fewer
 documents than the window

The subtraction underflowed when there were fewer documents than the window size.
---
 src/similarity/sim_hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/similarity/sim_hash.rs b/src/similarity/sim_hash.rs
index dff83fb..802dfe8 100644
--- a/src/similarity/sim_hash.rs
+++ b/src/similarity/sim_hash.rs
@@ -161,6 +161,8 @@ where
             .map(|(index, shingles)| (self.get_sim_hash(shingles), index))
             .collect();
 
+        // with fewer documents than the window, all documents lie within the same window
+        let window_size = cmp::min(window_size, sim_hashes.len());
         let mut similarities = HashSet::new();
 
         for _ in 0..64 {
-- 
2.43.0


From eb50f685613d74b13220d5455299d47828c855b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 07/16] fix: BitstringVec::pop zeroes the popped entry

A later push of zero took the stale bits for a value and decremented the occupied count.
---
 src/bitstring_vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bitstring_vec.rs b/src/bitstring_vec.rs
index 6ffd09e..c60c041 100644
--- a/src/bitstring_vec.rs
+++ b/src/bitstring_vec.rs
@@ -144,12 +144,11 @@ impl BitstringVec {
         assert!(!self.is_empty());
         let ret = self.get(self.len - 1);
         let len = self.len;
+        // zero the bits of the entry so that they are not taken for a value by a later `push`
+        self.set(len - 1, 0);
         let new_blocks_len = Self::get_block_count(self.bit_count, len - 1);
         self.blocks.truncate(new_blocks_len);
         self.len -= 1;
-        if ret != 0 {
-            self.occupied_len -= 1;
-        }
         ret
     }
 
-- 
2.43.0


From c2f22570abf628c53cd947d4de6c12a1a61088b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 08/16] fix: HyperLogLog raw estimate is alpha * m^2 / sum

The reciprocal was computed instead, so linear counting was always used and the count was infinite
once no register was zero.
---
 src/hyperloglog.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index eece6a9..4e4fd76 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -176,14 +176,12 @@ where
 
     fn get_estimate(&self) -> f64 {
         let len = self.registers.len() as f64;
-        1.0 / (self.alpha
-            * len
-            * len
-            * self
+        self.alpha * len * len
+            / self
                 .registers
                 .iter()
                 .map(|value| 1.0 / 2.0f64.powi(i32::from(*value)))
-                .sum::<f64>())
+                .sum::<f64>()
     }
 
     /// Returns the estimated number of distinct items in the `HyperLogLog<T>`.
@@ -209,7 +207,11 @@ where
                     .iter()
                     .map(|value| u64::from(*value == 0))
                     .sum::<u64>();
-                len * (len / zeros as f64).ln()
+                if zeros == 0 {
+                    x
+                } else {
+                    len * (len / zeros as f64).ln()
+                }
             }
             x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
             x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
-- 
2.43.0


From 4f322f007e4bf9c7c7b2b2601eddea95ca32daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 09/16] fix: reject CuckooFilter false positive probabilities
 that need more than 64 bits

A probability so small that the computed fingerprint is wider than 64 bits was not rejected and
corrupted the table; the other constructors already assert this.
---
 src/cuckoo/cuckoo_filter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 002450b..a99d094 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -322,6 +322,7 @@ where
         assert!(entries_per_index > 0);
         let power = 2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * entries_per_index as f64)));
         let fingerprint_bit_count = power.log2().ceil() as usize;
+        assert!(fingerprint_bit_count > 0 && fingerprint_bit_count <= 64);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
         CuckooFilter {
-- 
2.43.0


From a5bdbc494d4914211aea3031fad932dbe9fe9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 10/16] fix: BitVec::truncate keeps the count of ones exact

---
 src/bit_vec.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index ce7f1b8..da26e35 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -195,10 +195,8 @@ impl BitVec {
     }
 
     pub fn truncate(&mut self, len: usize) {
-        if len < self.len {
-            self.len = len;
-            self.blocks.truncate(Self::get_block_count(len));
-            self.clear_extra_bits();
+        while len < self.len {
+            self.pop();
         }
     }
 
-- 
2.43.0


From cffab8d5aab4c0cf432f3a82eee3be7806b76903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 11/16] fix: BitVec::flip_all leaves no stale bits behind the
 last bit

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index da26e35..8d77cd9 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -156,6 +156,7 @@ impl BitVec {
         for block in &mut self.blocks {
             *block = !*block;
         }
+        self.clear_extra_bits();
     }
 
     fn apply<F>(&mut self, other: &BitVec, mut op: F)
-- 
2.43.0


From 88abdc5a8b557a8c6bad2096fa45356539d2e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 12/16] fix: BitVec::clone_from copies the count of ones

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 8d77cd9..906eaef 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -291,6 +291,7 @@ impl Clone for BitVec {
     fn clone_from(&mut self, source: &Self) {
         self.len = source.len;
         self.blocks.clone_from(&source.blocks);
+        self.one_count = source.one_count;
     }
 }
 
-- 
2.43.0


From 1f3920ed78844ac19d479aed8c275cee310ed224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:37 +0000
Subject: [PATCH 13/16] fix: HyperLogLog allocates enough registers for the
 requested error

The standard error of 2^p registers is 1.04 / sqrt(2^p), so p is the binary,
not the natural, logarithm of (1.04 / error)^2. The limit on p moves from 16
to 24 so that every error probability accepted so far still is.
---
 src/hyperloglog.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 4e4fd76..04a59cc 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -77,7 +77,7 @@ where
     B: BuildHasher,
 {
     fn get_alpha(p: usize) -> f64 {
-        assert!((..=16).contains(&p));
+        assert!((..=24).contains(&p));
         match p {
             4 => 0.673,
             5 => 0.697,
@@ -102,7 +102,7 @@ where
     /// ```
     pub fn with_hasher(error_probability: f64, hash_builder: B) -> Self {
         assert!(0.0 < error_probability && error_probability < 1.0);
-        let p = (1.04 / error_probability).powi(2).ln().ceil() as usize;
+        let p = (1.04 / error_probability).powi(2).log2().ceil() as usize;
         let alpha = Self::get_alpha(p);
         let registers_len = 1 << p;
         HyperLogLog {
-- 
2.43.0


From 114ba85565935ab0dae2cd211fd7b3062de025d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:37 +0000
Subject: [PATCH 14/16] fix: HyperLogLog corrects large counts for 64-bit
 hashes

The correction for hash collisions used a hash space of 2^32, so counts above
2^32 / 3 were inflated and counts above 2^32 were NaN.
---
 src/hyperloglog.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 04a59cc..2a0180c 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -213,8 +213,8 @@ where
                     len * (len / zeros as f64).ln()
                 }
             }
-            x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
-            x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
+            x if x <= 1.0 / 3.0 * 2.0f64.powi(64) => x,
+            x => -(2.0f64.powi(64)) * (1.0 - x / 2.0f64.powi(64)).ln(),
         }
     }
 
-- 
2.43.0


From 8f882a7b2dab418405e96c7241bdae103cadecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:10 +0000
Subject: [PATCH 15/16] fix: QuotientFilter::from_fpp meets the probability
 when holding capacity items

---
 src/quotient.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index f370e74..ae25c81 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -269,7 +269,8 @@ where
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
-        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil() as u8;
+        // at most a fraction of `1 / 1.33` of the slots is used by `capacity` items
+        let remainder_bits = (1.0 / -1.33 / (1.0 - fpp).ln()).log2().ceil() as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From fa82a3d12921108abecd5be68b231518d0ac0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:34 +0000
Subject: [PATCH 16/16] fix: QuotientFilter::from_fpp accepts every fpp in (0,
 1)

---
 src/quotient.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index ae25c81..d68bdc0 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -268,9 +268,10 @@ where
     /// );
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
+        assert!(fpp > 0.0 && fpp < 1.0);
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
         // at most a fraction of `1 / 1.33` of the slots is used by `capacity` items
-        let remainder_bits = (1.0 / -1.33 / (1.0 - fpp).ln()).log2().ceil() as u8;
+        let remainder_bits = (1.0 / -1.33 / (-fpp).ln_1p()).log2().ceil().max(1.0) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0

