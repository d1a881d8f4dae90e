From 2429023d3eb27b3c369f4142ff05f9fd3a7d351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:08 +0000
Subject: [PATCH 1/6] fix: export SelectSupport

The trait that provides select queries was private, so no code outside the
crate could call select at all.
---
 succinct_neo/src/rank_select/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/succinct_neo/src/rank_select/mod.rs b/succinct_neo/src/rank_select/mod.rs
index e5d5323..82ee5f2 100644
--- a/succinct_neo/src/rank_select/mod.rs
+++ b/succinct_neo/src/rank_select/mod.rs
@@ -1,5 +1,5 @@
 pub mod flat_popcount;
 mod traits;
 
-pub use traits::RankSupport;
+pub use traits::{RankSupport, SelectSupport};
 pub use flat_popcount::FlatPopcount;
-- 
2.43.0


From 2aec801212f3d6e4bf051763c65a182e84d8bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:07 +0000
Subject: [PATCH 2/6] fix: keep select inside the index

Asking for a one that does not exist (rank equal to the number of ones)
panicked or read past the end instead of returning None. Looking for a one in
the last block read one entry past the end of the block index.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index d82cff9..c42434d 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -249,18 +249,15 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
 
 impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
     fn select(&self, mut rank: usize) -> Option<usize> {
-        if rank > self.number_of_ones {
+        if rank >= self.number_of_ones {
             return None;
         }
         let mut l1_index = self.sampled_ones.get(rank >> 13);
-        // SAFETY: The data in sampled_ones should be correct, so this must work too
-        let mut l1 = unsafe { self.l1(l1_index) };
         // Find the l1 block that contains the 1 we need
-        while l1 <= rank && l1_index < self.l1_index.len() {
+        // SAFETY: The index of the next block is checked before it is accessed
+        while l1_index + 1 < self.l1_index.len() && unsafe { self.l1(l1_index + 1) } <= rank {
             l1_index += 1;
-            l1 = unsafe { self.l1(l1_index) };
         }
-        l1_index -= 1;
         rank -= unsafe { self.l1(l1_index) };
 
         // Find the correct l2 block inside the l1 block
-- 
2.43.0


From 3e9cc6d2a60d3295601cd52bf6b36aa0d2e3dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:07 +0000
Subject: [PATCH 3/6] fix: keep rank inside the bit vector

Ranking the whole vector read a word past its end when the length is a
multiple of 64. Any rank on an empty vector, and any index past the end, read
arbitrary memory; an index past the end is refused now.
---
 .../src/rank_select/flat_popcount/mod.rs         | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index c42434d..ef9319d 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -215,6 +215,12 @@ impl<'a, T> FlatPopcount<'a, T> {
 
 impl<T> RankSupport for FlatPopcount<'_, T> {
     fn rank<const TARGET: bool>(&self, index: usize) -> usize {
+        if index > self.len() {
+            panic!("index is {index} but length is {}", self.len())
+        }
+        if self.is_empty() {
+            return 0;
+        }
         let l1_index = index >> L1_BLOCK_SIZE_EXP;
         let l2_index = (index >> L2_BLOCK_SIZE_EXP) & 0b0111;
         // The index inside of the L2 block
@@ -233,10 +239,12 @@ impl<T> RankSupport for FlatPopcount<'_, T> {
             ones += unsafe { raw_backing.get_unchecked(word_start + i).count_ones() as usize };
         }
 
-        // Add the rest bits
-        unsafe {
-            ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
-                .count_ones() as usize
+        // Add the rest bits. If there are none, the next word might not exist
+        if rest_bits > 0 {
+            unsafe {
+                ones += (raw_backing.get_unchecked(word_start + full_remaining_words) & ((1 << rest_bits) - 1))
+                    .count_ones() as usize
+            }
         }
 
         if TARGET {
-- 
2.43.0


From 8be5d13cc59caf5721df4402c93d17a57cb67474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:07 +0000
Subject: [PATCH 4/6] fix: check the word index in select

The search strategy is supplied by the user. A strategy with a wrong answer
made select read outside the bit vector; it panics now.
---
 succinct_neo/src/rank_select/flat_popcount/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/succinct_neo/src/rank_select/flat_popcount/mod.rs b/succinct_neo/src/rank_select/flat_popcount/mod.rs
index ef9319d..cb77634 100644
--- a/succinct_neo/src/rank_select/flat_popcount/mod.rs
+++ b/succinct_neo/src/rank_select/flat_popcount/mod.rs
@@ -277,7 +277,7 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         let mut current_index = (l1_index << 6) + (l2_index << 3);
         let mut index_in_l2 = 0;
         loop {
-            let num_ones = unsafe { self.backing.raw().get_unchecked(current_index).count_ones() as usize};
+            let num_ones = self.backing.raw()[current_index].count_ones() as usize;
             if num_ones <= rank {
                 rank -= num_ones;
                 current_index += 1;
@@ -288,7 +288,7 @@ impl<Strat: SelectStrategy> SelectSupport<true> for FlatPopcount<'_, Strat> {
         }
 
         // Find the correct 1 inside the word
-        let word = unsafe { *self.backing.raw().get_unchecked(current_index) };
+        let word = self.backing.raw()[current_index];
         let mut index_in_word = 0;
         loop {
             let bit = unsafe { word.get_bit_unchecked(index_in_word) };
-- 
2.43.0


From fdd8a4b198901c3749e65d7969e571b4ceb0b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:07 +0000
Subject: [PATCH 5/6] fix: leave IntVec unchanged if growing fails

If the allocation failed while a value was pushed across a block border, the
lower bits of that value stayed in the last block and were mixed into the next
value pushed.
---
 succinct_neo/src/int_vec/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/succinct_neo/src/int_vec/mod.rs b/succinct_neo/src/int_vec/mod.rs
index 2d07b9e..0ba3bbe 100644
--- a/succinct_neo/src/int_vec/mod.rs
+++ b/succinct_neo/src/int_vec/mod.rs
@@ -68,9 +68,11 @@ impl IntVec {
             let fitting_bits = Self::block_width() - offset;
             let fitting_mask = (1 << fitting_bits) - 1;
             let mask = (1 << self.width) - 1;
-            *self.data.last_mut().unwrap() |= (v & fitting_mask) << offset;
             let hi = (v & mask) >> fitting_bits;
+            // Growing can fail, so it happens before anything is changed
             self.data.push(hi);
+            let lo_block = self.data.len() - 2;
+            self.data[lo_block] |= (v & fitting_mask) << offset;
             self.capacity = self.data.capacity() * Self::block_width() / self.width;
             self.size += 1;
             return;
-- 
2.43.0


From 051070a72814cf74fbf318475bf6945df240de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:07 +0000
Subject: [PATCH 6/6] fix: refuse slice bounds that overflow

With overflow checks off, a bound of usize::MAX wrapped around to zero, so
slicing with ..=usize::MAX returned an empty view instead of panicking.
---
 succinct_neo/src/bit_vec/slice/slicing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/succinct_neo/src/bit_vec/slice/slicing.rs b/succinct_neo/src/bit_vec/slice/slicing.rs
index eca194f..d4468e8 100644
--- a/succinct_neo/src/bit_vec/slice/slicing.rs
+++ b/succinct_neo/src/bit_vec/slice/slicing.rs
@@ -64,13 +64,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice(&self, r: impl RangeBounds<usize>) -> BitSlice<&Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound overflows"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound overflows"),
             Bound::Unbounded => self.len(),
         };
 
@@ -163,13 +163,13 @@ impl<Backing> BitSlice<Backing> {
     /// ```
     pub fn slice_mut(&mut self, r: impl RangeBounds<usize>) -> BitSlice<&mut Backing> {
         let start = match r.start_bound() {
-            Bound::Excluded(&s) => s + 1,
+            Bound::Excluded(&s) => s.checked_add(1).expect("left bound overflows"),
             Bound::Included(&s) => s,
             Bound::Unbounded => 0,
         };
         let end = match r.end_bound() {
             Bound::Excluded(&e) => e,
-            Bound::Included(&e) => e + 1,
+            Bound::Included(&e) => e.checked_add(1).expect("right bound overflows"),
             Bound::Unbounded => self.len(),
         };
 
-- 
2.43.0

