From b9bef605d6de72875fe50f7475cd47c7bfa85808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 1/5] fix: skip the median of ninthers selection on slices
 without a ninther

median_of_ninthers selects from the middle frac elements. Slices of 11
elements have frac = 0, so median_of_medians was called on an empty slice
and its assertion failed (index out of bounds without debug assertions).
The bulk and single selection reached this with 11 remaining elements.
---
 src/par/partition.rs | 5 ++++-
 src/partition.rs     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 5309cce..d015f66 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -303,7 +303,10 @@ fn median_of_ninthers<T, F: Fn(&T, &T) -> bool>(mut v: ArrayViewMut1<'_, T>, is_
 		b += 3;
 	}
 
-	median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	// There is no ninther (and hence nothing to select from) in slices of less than 12 elements.
+	if frac != 0 {
+		median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	}
 	partition(v, lo + pivot, is_less).0
 }
 
diff --git a/src/partition.rs b/src/partition.rs
index 5b9a689..907d279 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -267,7 +267,10 @@ fn median_of_ninthers<T, F: FnMut(&T, &T) -> bool>(
 		b += 3;
 	}
 
-	median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	// There is no ninther (and hence nothing to select from) in slices of less than 12 elements.
+	if frac != 0 {
+		median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	}
 	partition(v, lo + pivot, is_less).0
 }
 
-- 
2.43.0


From 2be46d0cce2b42d70e36ca8d6ca96efa0c570d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:31 +0000
Subject: [PATCH 2/5] fix: skip elements equal to the pivot in the
 deterministic selection fallback

median_of_medians partitions into elements smaller than the pivot and the
rest. With many elements equal to the pivot and the index among or above
them, each iteration removed only few elements, making the selection
quadratic although it is documented as O(n) worst case.
---
 src/par/partition.rs | 17 ++++++++++++++---
 src/partition.rs     | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index d015f66..b803f46 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -264,11 +264,22 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
-				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
+				// If there are few elements smaller than the pivot, there are many elements equal to
+				// it, all on its right side. Skip them as well or each iteration would make little
+				// progress (i.e., quadratic worst case running time).
+				let skip = if p < v.len() / 8 {
+					partition_equal(v.slice_mut(s![p..]), 0, is_less)
+				} else {
+					1
+				};
+				if k - p < skip {
+					return;
+				}
+				// Since `p < p + skip <= k < v.len()`, `p + skip` doesn't overflow and is
 				// a valid index into the slice.
-				let (_left, right) = v.split_at(Axis(0), p + 1);
+				let (_left, right) = v.split_at(Axis(0), p + skip);
 				v = right;
-				k -= p + 1;
+				k -= p + skip;
 			}
 		}
 	}
diff --git a/src/partition.rs b/src/partition.rs
index 907d279..fe2d998 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -225,11 +225,22 @@ fn median_of_medians<T, F: FnMut(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
-				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
+				// If there are few elements smaller than the pivot, there are many elements equal to
+				// it, all on its right side. Skip them as well or each iteration would make little
+				// progress (i.e., quadratic worst case running time).
+				let skip = if p < v.len() / 8 {
+					partition_equal(v.slice_mut(s![p..]), 0, is_less)
+				} else {
+					1
+				};
+				if k - p < skip {
+					return;
+				}
+				// Since `p < p + skip <= k < v.len()`, `p + skip` doesn't overflow and is
 				// a valid index into the slice.
-				let (_left, right) = v.split_at(Axis(0), p + 1);
+				let (_left, right) = v.split_at(Axis(0), p + skip);
 				v = right;
-				k -= p + 1;
+				k -= p + skip;
 			}
 		}
 	}
-- 
2.43.0


From 7349786d0c4b8577a3be2c76b9e11a565c35f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 3/5] fix: count imbalanced partitions of parallel calls in
 par_quick_sort

---
 src/par/quick_sort.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/par/quick_sort.rs b/src/par/quick_sort.rs
index 7f897a5..9e4e791 100644
--- a/src/par/quick_sort.rs
+++ b/src/par/quick_sort.rs
@@ -28,7 +28,7 @@ where
 	// Limit the number of imbalanced partitions to `floor(log2(len)) + 1`.
 	let limit = usize::BITS - v.len().leading_zeros();
 
-	recurse(v, &is_less, None, limit);
+	recurse(v, &is_less, None, limit, true);
 }
 
 /// Sorts `v` recursively.
@@ -37,11 +37,15 @@ where
 ///
 /// `limit` is the number of allowed imbalanced partitions before switching to `heap_sort`. If zero,
 /// this function will immediately switch to heapsort.
+///
+/// `was_balanced` is `true` if the last partitioning was reasonably balanced. It is passed on to
+/// parallel calls as otherwise none of their imbalanced partitions would count towards `limit`.
 fn recurse<'a, T, F>(
 	mut v: ArrayViewMut1<'a, T>,
 	is_less: &F,
 	mut pred: Option<&'a mut T>,
 	mut limit: u32,
+	mut was_balanced: bool,
 ) where
 	T: Send,
 	F: Fn(&T, &T) -> bool + Sync,
@@ -52,8 +56,6 @@ fn recurse<'a, T, F>(
 	// as possible but so that the overhead of Rayon's task scheduling is still negligible.
 	const MAX_SEQUENTIAL: usize = 2000;
 
-	// True if the last partitioning was reasonably balanced.
-	let mut was_balanced = true;
 	// True if the last partitioning didn't shuffle elements (the slice was already partitioned).
 	let mut was_partitioned = true;
 
@@ -124,18 +126,18 @@ fn recurse<'a, T, F>(
 			// calls and consume less stack space. Then just continue with the longer side (this is
 			// akin to tail recursion).
 			if left.len() < right.len() {
-				maybe_grow(|| recurse(left, is_less, pred, limit));
+				maybe_grow(|| recurse(left, is_less, pred, limit, true));
 				v = right;
 				pred = Some(pivot);
 			} else {
-				maybe_grow(|| recurse(right, is_less, Some(pivot), limit));
+				maybe_grow(|| recurse(right, is_less, Some(pivot), limit, true));
 				v = left;
 			}
 		} else {
 			// Sort the left and right half in parallel.
 			rayon::join(
-				|| maybe_grow(|| recurse(left, is_less, pred, limit)),
-				|| maybe_grow(|| recurse(right, is_less, Some(pivot), limit)),
+				|| maybe_grow(|| recurse(left, is_less, pred, limit, was_balanced)),
+				|| maybe_grow(|| recurse(right, is_less, Some(pivot), limit, was_balanced)),
 			);
 			break;
 		}
-- 
2.43.0


From e951ba9199d7459ff892342a7680599aee8163ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 4/5] fix: keep the capacity of RunVec when growing its buffer
 fails

---
 src/merge_sort.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/merge_sort.rs b/src/merge_sort.rs
index 519ad7b..fe9be88 100644
--- a/src/merge_sort.rs
+++ b/src/merge_sort.rs
@@ -399,8 +399,11 @@ pub fn merge_sort<T, CmpF, ElemAllocF, ElemDeallocF, RunAllocF, RunDeallocF>(
 				let old_capacity = self.capacity;
 				let old_buf_ptr = self.buf_ptr.as_ptr();
 
-				self.capacity *= 2;
-				self.buf_ptr = ptr::NonNull::new((self.run_alloc_fn)(self.capacity)).unwrap();
+				// The capacity must match the buffer in case the allocation fails and `self` is
+				// dropped while unwinding.
+				let new_capacity = old_capacity * 2;
+				self.buf_ptr = ptr::NonNull::new((self.run_alloc_fn)(new_capacity)).unwrap();
+				self.capacity = new_capacity;
 
 				// SAFETY: buf_ptr new and old were correctly allocated and old_buf_ptr has
 				// old_capacity valid elements.
-- 
2.43.0


From 2ec723004383401540dcf9177f1db6d96e85b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:52 +0000
Subject: [PATCH 5/5] hook (cfg(miri)): block pointers without
 slice_as_mut_ptr, which toolchains no longer have

---
 src/par/partition.rs | 4 ++--
 src/partition.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index b803f46..e0af150 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -604,7 +604,7 @@ where
 			// Trace `block_l` elements from the left side.
 			#[cfg(miri)]
 			{
-				start_l = MaybeUninit::slice_as_mut_ptr(&mut offsets_l);
+				start_l = offsets_l.as_mut_ptr().cast();
 			}
 			#[cfg(not(miri))]
 			{
@@ -637,7 +637,7 @@ where
 			// Trace `block_r` elements from the right side.
 			#[cfg(miri)]
 			{
-				start_r = MaybeUninit::slice_as_mut_ptr(&mut offsets_r);
+				start_r = offsets_r.as_mut_ptr().cast();
 			}
 			#[cfg(not(miri))]
 			{
diff --git a/src/partition.rs b/src/partition.rs
index fe2d998..457074f 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -578,7 +578,7 @@ where
 			// Trace `block_l` elements from the left side.
 			#[cfg(miri)]
 			{
-				start_l = MaybeUninit::slice_as_mut_ptr(&mut offsets_l);
+				start_l = offsets_l.as_mut_ptr().cast();
 			}
 			#[cfg(not(miri))]
 			{
@@ -611,7 +611,7 @@ where
 			// Trace `block_r` elements from the right side.
 			#[cfg(miri)]
 			{
-				start_r = MaybeUninit::slice_as_mut_ptr(&mut offsets_r);
+				start_r = offsets_r.as_mut_ptr().cast();
 			}
 			#[cfg(not(miri))]
 			{
-- 
2.43.0

