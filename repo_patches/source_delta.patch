From f29e82be8d2dc829de5ac6acdd4cc0f272613bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 01/23] fix: invert the HyperLogLog harmonic mean estimator

The raw estimate was 1 / (alpha * m^2 * sum) instead of alpha * m^2 / sum, so
the estimate was always below the linear counting threshold and len() became
infinite as soon as no register was empty. The large range correction assumed
32-bit hashes; with 64-bit hashes none is needed (it yielded NaN).
---
 src/hyperloglog.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index eece6a9..636f988 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -176,14 +176,12 @@ where
 
     fn get_estimate(&self) -> f64 {
         let len = self.registers.len() as f64;
-        1.0 / (self.alpha
-            * len
-            * len
-            * self
+        self.alpha * len * len
+            / self
                 .registers
                 .iter()
                 .map(|value| 1.0 / 2.0f64.powi(i32::from(*value)))
-                .sum::<f64>())
+                .sum::<f64>()
     }
 
     /// Returns the estimated number of distinct items in the `HyperLogLog<T>`.
@@ -202,17 +200,16 @@ where
     /// ```
     pub fn len(&self) -> f64 {
         let len = self.registers.len() as f64;
+        let zeros = self
+            .registers
+            .iter()
+            .map(|value| u64::from(*value == 0))
+            .sum::<u64>();
         match self.get_estimate() {
-            x if x <= 2.5 * len => {
-                let zeros = self
-                    .registers
-                    .iter()
-                    .map(|value| u64::from(*value == 0))
-                    .sum::<u64>();
-                len * (len / zeros as f64).ln()
-            }
-            x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
-            x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
+            // linear counting is only possible if there are empty registers
+            x if x <= 2.5 * len && zeros > 0 => len * (len / zeros as f64).ln(),
+            // no large range correction is needed for 64-bit hashes
+            x => x,
         }
     }
 
-- 
2.43.0


From e09d5c443f1a46df1fbf3990f0402bea7f6813c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 02/23] fix: size HyperLogLog registers with log2, not ln

The number of registers must satisfy 1.04 / sqrt(2^p) <= error_probability, so
p is a base 2 logarithm; with ln the structure missed the requested error by a
wide margin. The register limit is raised accordingly so that error
probabilities that were accepted before still are.
---
 src/hyperloglog.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 636f988..5ba99b3 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -77,7 +77,7 @@ where
     B: BuildHasher,
 {
     fn get_alpha(p: usize) -> f64 {
-        assert!((..=16).contains(&p));
+        assert!((..=30).contains(&p));
         match p {
             4 => 0.673,
             5 => 0.697,
@@ -102,7 +102,7 @@ where
     /// ```
     pub fn with_hasher(error_probability: f64, hash_builder: B) -> Self {
         assert!(0.0 < error_probability && error_probability < 1.0);
-        let p = (1.04 / error_probability).powi(2).ln().ceil() as usize;
+        let p = (1.04 / error_probability).powi(2).log2().ceil() as usize;
         let alpha = Self::get_alpha(p);
         let registers_len = 1 << p;
         HyperLogLog {
-- 
2.43.0


From 4791982f8034a64e58bc5157e6a2ac592674b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 03/23] fix: do not remove other items when removing an absent
 item from a QuotientFilter

remove() only checked that the canonical slot is not empty. If it is in use by
an item of another run, the quotient has no run of its own and the search found
a run of a different quotient, so an item with an equal remainder there was
deleted.
---
 src/quotient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6a598c8..e9a9645 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -442,8 +442,8 @@ where
         let (quotient, remainder) =
             self.get_quotient_and_remainder(util::hash(&self.hash_builder, &item));
 
-        // empty slot
-        if self.slot_vec.get(quotient) & METADATA_MASK == 0 {
+        // no such run exists
+        if self.slot_vec.get(quotient) & OCCUPIED_MASK == 0 {
             return;
         }
 
-- 
2.43.0


From 27a4f3b4d8a871234d34fde5da0eccc649b357a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 04/23] fix: clear the occupied bit of an emptied run at the
 end of a QuotientFilter cluster

When remove() deleted the only item of a run whose slot was shifted and was the
last of its cluster, the occupied bit of the run's canonical slot was left set,
which corrupted later lookups, insertions and removals in the cluster.
---
 src/quotient.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/quotient.rs b/src/quotient.rs
index e9a9645..9de1050 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -525,6 +525,13 @@ where
             next_slot = self.slot_vec.get(next_index);
         }
 
+        // the removed item was the last item of the cluster and the only item of its run, so we can
+        // delete occupied bit of canonical position
+        if is_run_start {
+            let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
+            self.slot_vec.set(quotient, canonical_slot);
+        }
+
         self.len -= 1;
     }
 
-- 
2.43.0


From ee2681d67293620e63a7fd2ae734aa35b3de3232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 05/23] fix: allocate one slot per quotient in QuotientFilter

The slot vector was given the size of the table in bits as its number of slots,
so the filter used (remainder_bits + 3) times the documented space.
---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 9de1050..b0ee322 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -232,7 +232,7 @@ where
         assert!(remainder_bits > 0);
         assert!(quotient_bits + remainder_bits <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
-        let slot_vec_len = u64::from(slot_bits) * (1u64 << quotient_bits);
+        let slot_vec_len = 1u64 << quotient_bits;
         QuotientFilter {
             quotient_bits,
             remainder_bits,
-- 
2.43.0


From fafbf5bfc40ca8f3614bd8ac8a140cccb6160582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 06/23] fix: check the QuotientFilter bit sum without u8
 overflow

The sum of quotient_bits and remainder_bits could wrap around in release
builds, so that invalid sizes were accepted and produced a corrupt filter.
---
 src/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index b0ee322..a7898bd 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -230,7 +230,7 @@ where
     pub fn with_hasher(quotient_bits: u8, remainder_bits: u8, hash_builder: B) -> Self {
         assert!(quotient_bits > 0);
         assert!(remainder_bits > 0);
-        assert!(quotient_bits + remainder_bits <= 64);
+        assert!(u16::from(quotient_bits) + u16::from(remainder_bits) <= 64);
         let slot_bits = remainder_bits + METADATA_BITS;
         let slot_vec_len = 1u64 << quotient_bits;
         QuotientFilter {
-- 
2.43.0


From 32c9e0cab89c511aced5cf7242f2d38baf8efadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 07/23] fix: size QuotientFilter::from_fpp for its ideal
 fullness

The remainder was sized for a filter that is half full, although the filter may
be up to 75% full at its capacity, so the false positive probability at capacity
could exceed fpp. Large fpp in the documented range (0, 1) made the remainder
empty and panicked.
---
 src/quotient.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index a7898bd..b9e6063 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -267,8 +267,11 @@ where
     /// );
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
+        assert!(capacity > 0);
+        assert!(0.0 < fpp && fpp < 1.0);
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
-        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil() as u8;
+        // solve `fpp = 1 - e^(-fullness / 2^remainder_bits)` at a fullness of 1 / 1.33
+        let remainder_bits = (1.0 / -1.33 / (-fpp).ln_1p()).log2().ceil().max(1.0) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From 86ab768c502a7ac6dd18b1577489444668abf90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 08/23] fix: report the number of slots as the capacity of a
 CuckooFilter

capacity() was derived from the allocation size of the backing vector, so it was
wrong whenever the slots do not fill a whole block and could change when the
filter was cloned or deserialized, which changed estimated_fpp() and the growth
of ScalableCuckooFilter.
---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 9d3545a..002450b 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -649,7 +649,7 @@ where
     /// assert_eq!(filter.capacity(), 128);
     /// ```
     pub fn capacity(&self) -> usize {
-        self.fingerprint_vec.capacity()
+        self.fingerprint_vec.len()
     }
 
     /// Returns the length of each bucket in the cuckoo filter.
-- 
2.43.0


From 9ea2aa59ddbab06301c39eb40f7ad05d865089da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 09/23] fix: yield no shingles when there are fewer tokens than
 the shingle size

ShingleIterator::next() computed tokens.len() - token_count, which underflowed.
---
 src/similarity/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/similarity/mod.rs b/src/similarity/mod.rs
index 9976323..1e60902 100644
--- a/src/similarity/mod.rs
+++ b/src/similarity/mod.rs
@@ -65,7 +65,7 @@ where
     type Item = Vec<&'a T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index > self.tokens.len() - self.token_count {
+        if self.index + self.token_count > self.tokens.len() {
             return None;
         }
         self.index += 1;
-- 
2.43.0


From 7ea815cbd7b8264c9700743db14ffbc0724d43ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 10/23] fix: report similarities of fewer inputs than the
 window size

SimHash::report_similarities() computed sim_hashes.len() - window_size, which
underflowed when there are fewer inputs than the window size.
---
 src/similarity/sim_hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/similarity/sim_hash.rs b/src/similarity/sim_hash.rs
index dff83fb..8d89bcb 100644
--- a/src/similarity/sim_hash.rs
+++ b/src/similarity/sim_hash.rs
@@ -161,6 +161,8 @@ where
             .map(|(index, shingles)| (self.get_sim_hash(shingles), index))
             .collect();
 
+        // all inputs are in the same window if there are fewer inputs than the window size
+        let window_size = cmp::min(window_size, sim_hashes.len());
         let mut similarities = HashSet::new();
 
         for _ in 0..64 {
-- 
2.43.0


From 5f10d21ac427f25528671156218aa2449922c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 11/23] fix: update the number of ones when a BitVec is
 truncated

truncate() kept the old count, so count_ones() was wrong and count_zeros() could
underflow.
---
 src/bit_vec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index ce7f1b8..7cc079a 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -199,6 +199,11 @@ impl BitVec {
             self.len = len;
             self.blocks.truncate(Self::get_block_count(len));
             self.clear_extra_bits();
+            self.one_count = self
+                .blocks
+                .iter()
+                .map(|block| block.count_ones() as usize)
+                .sum();
         }
     }
 
-- 
2.43.0


From c95420b205ffb933577165389282838ce4c7fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 12/23] fix: keep the unused bits of a BitVec clear in flip_all

flip_all() set the bits after the end of the last block, which a later push()
then counted as previously set, and which made equal vectors compare unequal.
---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 7cc079a..5daaf30 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -156,6 +156,7 @@ impl BitVec {
         for block in &mut self.blocks {
             *block = !*block;
         }
+        self.clear_extra_bits();
     }
 
     fn apply<F>(&mut self, other: &BitVec, mut op: F)
-- 
2.43.0


From 2afcc1bf4b04978b6a3184aa31f124988b2b5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 13/23] fix: copy the number of ones in BitVec::clone_from

The count of the overwritten vector was kept, so count_ones(), count_zeros() and
estimates based on them were wrong after clone_from().
---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index 5daaf30..32a08c5 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -297,6 +297,7 @@ impl Clone for BitVec {
 
     fn clone_from(&mut self, source: &Self) {
         self.len = source.len;
+        self.one_count = source.one_count;
         self.blocks.clone_from(&source.blocks);
     }
 }
-- 
2.43.0


From 6d0afc48c812bae31facdd664867ac9efe120527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 14/23] fix: clear the bits of a bitstring popped from a
 BitstringVec

pop() left the bits of the removed bitstring in the last block. A later push()
saw them as the previous value, so the number of occupied bitstrings could
underflow, and equal vectors compared unequal.
---
 src/bitstring_vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bitstring_vec.rs b/src/bitstring_vec.rs
index 6ffd09e..da54ed7 100644
--- a/src/bitstring_vec.rs
+++ b/src/bitstring_vec.rs
@@ -144,12 +144,11 @@ impl BitstringVec {
         assert!(!self.is_empty());
         let ret = self.get(self.len - 1);
         let len = self.len;
+        // clear the bits of the removed bitstring that stay in the last block
+        self.set(len - 1, 0);
         let new_blocks_len = Self::get_block_count(self.bit_count, len - 1);
         self.blocks.truncate(new_blocks_len);
         self.len -= 1;
-        if ret != 0 {
-            self.occupied_len -= 1;
-        }
         ret
     }
 
-- 
2.43.0


From 537bc04df502371c3b92b414d7139b45a9e966e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 15/23] fix: accept one bit fingerprints in
 CuckooFilter::from_parameters

The documentation only excludes a fingerprint bit count that is less than 1 or
greater than 64, but a bit count of 1 panicked.
---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 002450b..b1fdf57 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -268,7 +268,7 @@ where
     ) -> Self {
         assert!(
             item_count > 0
-                && fingerprint_bit_count > 1
+                && fingerprint_bit_count >= 1
                 && fingerprint_bit_count <= 64
                 && entries_per_index > 0
         );
-- 
2.43.0


From fae6acb3640b8d07429cd950c91305d874215ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 16/23] fix: size cuckoo fingerprints correctly for very small
 false positive probabilities

1 - fpp rounds to 1 for small fpp, so the fingerprint size became infinite and
the constructor panicked; a fingerprint of more than 64 bits cannot be stored.
ScalableCuckooFilter reaches such values by repeated tightening and panicked
when it grew.
---
 src/cuckoo/cuckoo_filter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index b1fdf57..ecb65e8 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -320,8 +320,11 @@ where
     ) -> Self {
         assert!(item_count > 0);
         assert!(entries_per_index > 0);
-        let power = 2.0 / (1.0 - (1.0 - fpp).powf(1.0 / (2.0 * entries_per_index as f64)));
-        let fingerprint_bit_count = power.log2().ceil() as usize;
+        // equivalent to `2 / (1 - (1 - fpp)^(1 / (2 * entries_per_index)))`, but does not lose all
+        // precision for small `fpp`
+        let power = -2.0 / ((-fpp).ln_1p() / (2.0 * entries_per_index as f64)).exp_m1();
+        // fingerprints are taken from 64-bit hashes
+        let fingerprint_bit_count = cmp::min(power.log2().ceil() as usize, 64);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
         CuckooFilter {
-- 
2.43.0


From 17f099a7dc4ef6ef2aa8217bac55214ce9af873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 17/23] fix: choose a usable number of entries per index for
 wide cuckoo fingerprints

from_fingerprint_bit_count() chose the largest number of entries per index that
meets fpp even if there are fewer items, which exhausts memory for about 40
bits; for 54 or more bits the logarithm lost all precision and the constructor
panicked although the probability is achievable.
---
 src/cuckoo/cuckoo_filter.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index ecb65e8..72a8b6b 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -375,9 +375,13 @@ where
         assert!(item_count > 0);
         assert!(fingerprint_bit_count > 1 && fingerprint_bit_count <= 64);
         let fingerprints_count = 2.0f64.powi(fingerprint_bit_count as i32);
-        let single_fpp = (fingerprints_count - 2.0) / (fingerprints_count - 1.0);
-        let entries_per_index = ((1.0 - fpp).log(single_fpp) / 2.0).floor() as usize;
-        assert!(entries_per_index > 0);
+        // equivalent to `(1 - fpp).log((fingerprints_count - 2) / (fingerprints_count - 1)) / 2`, but
+        // does not lose all precision for wide fingerprints
+        let max_entries_per_index =
+            ((-fpp).ln_1p() / (-1.0 / (fingerprints_count - 1.0)).ln_1p() / 2.0).floor() as usize;
+        assert!(max_entries_per_index > 0);
+        // more entries than items would only waste space
+        let entries_per_index = cmp::min(max_entries_per_index, item_count);
         let exact_bucket_len = (item_count + entries_per_index - 1) / entries_per_index;
         let bucket_len = exact_bucket_len.next_power_of_two();
         CuckooFilter {
-- 
2.43.0


From 37ec55a91e1db93ead6d0575843bc372f8e2ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 18/23] fix: bound the number of hash functions when fpp
 underflows in BloomFilter::from_fpp

ScalableBloomFilter multiplies fpp by the tightening ratio for every level. When
it underflows to 0, the item count became 0 and the number of hash functions
usize::MAX, so the next insertion did not terminate.
---
 src/bloom/bloom_filter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bloom/bloom_filter.rs b/src/bloom/bloom_filter.rs
index 066ff85..59ca7a0 100644
--- a/src/bloom/bloom_filter.rs
+++ b/src/bloom/bloom_filter.rs
@@ -3,6 +3,7 @@ use crate::{DoubleHasher, SipHasherBuilder};
 #[cfg(feature = "serde")]
 use serde_crate::{Deserialize, Serialize};
 use std::borrow::Borrow;
+use std::cmp;
 use std::hash::{BuildHasher, Hash};
 use std::marker::PhantomData;
 
@@ -188,6 +189,8 @@ where
     /// ```
     pub fn from_fpp_with_hashers(bit_count: usize, fpp: f64, hash_builders: [B; 2]) -> Self {
         let item_count = -(2f64.ln() * (bit_count as f64) / fpp.log2()).floor() as usize;
+        // an `fpp` that underflowed to 0 must not result in infinitely many hash functions
+        let item_count = cmp::max(item_count, 1);
         BloomFilter {
             bit_vec: BitVec::new(bit_count),
             hasher: DoubleHasher::with_hashers(hash_builders),
-- 
2.43.0


From 92ea288b033411e4a3e19367dd4e70acacad0468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 19/23] fix: terminate when a hash builder only produces
 all-zero cuckoo fingerprints

With such a hash builder (constant, or with zero low bits) every operation of a
CuckooFilter rehashed forever.
---
 src/cuckoo/cuckoo_filter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 72a8b6b..c69ac6f 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -11,6 +11,9 @@ use std::cmp;
 use std::hash::{BuildHasher, Hash};
 use std::marker::PhantomData;
 
+// maximum number of attempts to find a non-zero fingerprint
+const MAX_REHASHES: usize = 512;
+
 struct FingerprintAndIndexes {
     fingerprint: u64,
     index_1: usize,
@@ -413,11 +416,16 @@ where
         let mut fingerprint = h0 << trailing_zeros >> trailing_zeros;
 
         // rehash when fingerprint is all 0s
-        while fingerprint == 0 {
+        let mut rehash_count = 0;
+        while fingerprint == 0 && rehash_count < MAX_REHASHES {
             h0 = util::hash(&self.hash_builders[0], &h0.wrapping_add(1));
             fingerprint = h0 << trailing_zeros >> trailing_zeros;
+            rehash_count += 1;
         }
 
+        // the hash builder only produces such hashes
+        fingerprint = cmp::max(fingerprint, 1);
+
         let h1 = util::hash(&self.hash_builders[1], &item);
         let hashed_fingerprint = util::hash(&self.hash_builders[1], &fingerprint);
 
-- 
2.43.0


From a7b63f1318cca871dd915e33e713ae95031d08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 20/23] Re-export the internal containers under
 cfg(verif_hooks)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 24ca05e..0ecc9ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,3 +105,11 @@ mod util;
 
 pub use self::util::SipHasherBuilder;
 use self::util::{DoubleHasher, HashIter};
+
+/// Internal containers, re-exported for external verification harnesses only.
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    pub use crate::bit_vec::BitVec;
+    pub use crate::bitstring_vec::BitstringVec;
+}
-- 
2.43.0


From 68aa3dea69901a3e6868740f392fb0b3794ffbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 21/23] fix: count overflowed items in
 CuckooFilter::estimated_fpp

---
 src/cuckoo/cuckoo_filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index c69ac6f..52434be 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -770,7 +770,8 @@ where
     pub fn estimated_fpp(&self) -> f64 {
         let fingerprints_count = 2.0f64.powi(self.fingerprint_bit_count() as i32);
         let single_fpp = (fingerprints_count - 2.0) / (fingerprints_count - 1.0);
-        let occupied_len = self.fingerprint_vec.occupied_len();
+        // lookups also compare with the extra items
+        let occupied_len = self.fingerprint_vec.occupied_len() + self.extra_items.len();
         let occupied_ratio = occupied_len as f64 / self.capacity() as f64;
         1.0 - single_fpp.powf(2.0 * self.entries_per_index() as f64 * occupied_ratio)
     }
-- 
2.43.0


From 878c2018f375e97ac9b73b80e5d0d3ee46917fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 22/23] fix: count-min sketch hashes an item before counting it

A panic in the item's Hash left the total without the item, which the
count-mean and count-median-bias estimates then used forever.
---
 src/count_min_sketch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/count_min_sketch.rs b/src/count_min_sketch.rs
index 7787659..07ae0f3 100644
--- a/src/count_min_sketch.rs
+++ b/src/count_min_sketch.rs
@@ -237,8 +237,10 @@ where
         U: Borrow<V>,
         V: Hash + ?Sized,
     {
+        // hashing may panic, which must not leave a count without its item
+        let hashes = self.hasher.hash(item);
         self.items += value;
-        for (row, hash) in self.hasher.hash(item).take(self.rows).enumerate() {
+        for (row, hash) in hashes.take(self.rows).enumerate() {
             let offset = hash % self.cols as u64;
             self.grid[row * self.cols + offset as usize] += value;
         }
-- 
2.43.0


From 2b14c9f2a426d3485f218d89d6387037a58fc622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:41 +0000
Subject: [PATCH 23/23] fix: count-min sketch estimates sum rows and noise
 beyond 64 bits

The mean strategy summed the rows in 64 bits, and the median strategy took
differences in 64 bits: both overflow (a panic, or a wrong sign in release
builds) for counters whose estimate fits.
---
 src/count_min_sketch.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/count_min_sketch.rs b/src/count_min_sketch.rs
index 07ae0f3..00894bd 100644
--- a/src/count_min_sketch.rs
+++ b/src/count_min_sketch.rs
@@ -4,6 +4,7 @@ use crate::{DoubleHasher, HashIter, SipHasherBuilder};
 #[cfg(feature = "serde")]
 use serde_crate::{Deserialize, Serialize};
 use std::borrow::Borrow;
+use std::cmp;
 use std::hash::BuildHasher;
 use std::hash::Hash;
 use std::marker::PhantomData;
@@ -33,7 +34,8 @@ pub struct CountMeanStrategy;
 
 impl CountStrategy for CountMeanStrategy {
     fn get_estimate(_items: i64, rows: usize, _cols: usize, iter: ItemValueIter<'_>) -> i64 {
-        (iter.sum::<i64>() as f64 / rows as f64).round() as i64
+        // the sum of all rows may not fit in 64 bits although every counter and their mean do
+        (iter.map(i128::from).sum::<i128>() as f64 / rows as f64).round() as i64
     }
 }
 
@@ -46,12 +48,16 @@ pub struct CountMedianBiasStrategy;
 impl CountStrategy for CountMedianBiasStrategy {
     fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
         let min_count = CountMinStrategy::get_estimate(items, rows, cols, iter.clone());
-        let mut items_with_bias: Vec<i64> = iter
-            .map(|value| value - ((items - value) as f64 / (cols - 1) as f64).ceil() as i64)
+        // the noise and the differences may not fit in 64 bits although the estimate does
+        let mut items_with_bias: Vec<i128> = iter
+            .map(i128::from)
+            .map(|value| {
+                value - ((i128::from(items) - value) as f64 / (cols - 1) as f64).ceil() as i128
+            })
             .collect();
         items_with_bias.sort();
         let median_count = items_with_bias[(items_with_bias.len() - 1) / 2];
-        i64::min(min_count, median_count)
+        cmp::max(i64::MIN.into(), cmp::min(min_count.into(), median_count)) as i64
     }
 }
 
-- 
2.43.0

