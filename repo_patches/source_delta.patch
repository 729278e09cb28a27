From 6d8e26db7a830ac1a1b9993b6a97b4e7489e380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 01/29] fix: write_array no longer writes past the end of the
 array

---
 crates/crabslab/src/slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b31d1c1..32acfbb 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -96,7 +96,9 @@ pub trait Slab {
         if array.len() > data.len() {
             return;
         }
-        let _ = self.write_indexed_slice(data, array.starting_index());
+        // Only write as many elements as the array holds, otherwise we'd clobber
+        // whatever comes after it.
+        let _ = self.write_indexed_slice(&data[..array.len()], array.starting_index());
     }
 }
 
-- 
2.43.0


From 1e8364240c5839928593873acf4c30c1a3d481dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 02/29] fix: writes that don't fit in the slab return the same
 index instead of panicking

This is what Slab::write_indexed and Slab::write_indexed_slice document, and it
mirrors the bounds check in Slab::read.
---
 crates/crabslab/src/slab.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index 32acfbb..e15c6ce 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -102,6 +102,11 @@ pub trait Slab {
     }
 }
 
+/// Returns whether `size` u32s starting at `index` fit in a slab of length `len`.
+fn fits(len: usize, index: usize, size: usize) -> bool {
+    size <= len && index <= len - size
+}
+
 impl Slab for [u32] {
     fn len(&self) -> usize {
         self.len()
@@ -112,10 +117,16 @@ impl Slab for [u32] {
     }
 
     fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
+        if !fits(self.len(), index, T::SLAB_SIZE) {
+            return index;
+        }
         t.write_slab(index, self)
     }
 
     fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
+        if !fits(self.len(), index, T::SLAB_SIZE * t.len()) {
+            return index;
+        }
         let mut index = index;
         for item in t {
             index = item.write_slab(index, self);
-- 
2.43.0


From 262ca6977fe121c9601402b90159249e6e824ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 03/29] fix: Vec<u32>::reserve_capacity reserves the requested
 capacity

Vec::reserve counts from the length, not from the capacity, so the capacity could
end up below the requested one, and a request below the current capacity underflowed.
---
 crates/crabslab/src/slab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index e15c6ce..60efae9 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -309,7 +309,7 @@ impl GrowableSlab for Vec<u32> {
     }
 
     fn reserve_capacity(&mut self, capacity: usize) {
-        Vec::reserve(self, capacity - self.capacity());
+        Vec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     fn increment_len(&mut self, n: usize) -> usize {
-- 
2.43.0


From 5be24549bb69525e9f4215d7aa693589263e76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 04/29] fix: sub_slab of an empty (null) array is an empty
 slice instead of a panic

---
 crates/crabslab/src/array.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/crabslab/src/array.rs b/crates/crabslab/src/array.rs
index b2fdc8b..7677e75 100644
--- a/crates/crabslab/src/array.rs
+++ b/crates/crabslab/src/array.rs
@@ -177,6 +177,10 @@ impl<T> Array<T> {
     where
         T: SlabItem,
     {
+        if self.is_empty() {
+            // The null array is empty, and its index is out of bounds
+            return &[];
+        }
         let arr = self.into_u32_array();
         &slab[arr.index as usize..(arr.index + arr.len) as usize]
     }
-- 
2.43.0


From 60f3a6c0d49e13c188878036ad63ad6b016c7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 05/29] fix: committing an empty array does not write out of
 bounds

---
 crates/craballoc/src/value.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index fd5e8ce..99d11c2 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -432,12 +432,18 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
                 elements,
             }
         };
+        // An empty array is null, so there is nowhere to write its update
+        let updates = if array.is_empty() {
+            vec![]
+        } else {
+            vec![update]
+        };
         let notifier_index = mngr.next_update_k();
         let g = GpuArray {
             notifier_index,
             notifier: mngr.notifier.0.clone(),
             array,
-            updates: Arc::new(Mutex::new(vec![update])),
+            updates: Arc::new(Mutex::new(updates)),
         };
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu_array(&g));
         g
-- 
2.43.0


From 3850627bf00ca9cabeb09df6e689836403ff4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 06/29] fix: GpuArray::set_item with an out of bounds index
 does not queue a null update

The queued update pointed at Id::NONE, which made the next commit panic.
---
 crates/craballoc/src/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 99d11c2..e6f35ee 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -467,6 +467,10 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
 
     pub fn set_item(&self, index: usize, value: &T) {
         let id = self.array.at(index);
+        if id.is_none() {
+            // The index is out of bounds, there's no item to update
+            return;
+        }
         let array = Array::<u32>::new(id.inner(), T::SLAB_SIZE as u32);
         let mut elements = vec![0u32; T::SLAB_SIZE];
         elements.write(0u32.into(), value);
-- 
2.43.0


From 0b2143891888a43f9d826c97a21ed64c45fe6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 07/29] fix: updating a value after its allocator has been
 dropped does not panic

---
 crates/craballoc/src/value.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index e6f35ee..8dee371 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -380,8 +380,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
                 es
             },
         }];
-        // UNWRAP: safe because it's unbounded
-        self.notify.try_send(self.notifier_index).unwrap();
+        // IGNORED: it's unbounded, so this only fails if the allocator has been dropped
+        let _ = self.notify.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
@@ -478,8 +478,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             .lock()
             .unwrap()
             .push(SlabUpdate { array, elements });
-        // UNWRAP: safe because it's unbounded
-        self.notifier.try_send(self.notifier_index).unwrap();
+        // IGNORED: it's unbounded, so this only fails if the allocator has been dropped
+        let _ = self.notifier.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
-- 
2.43.0


From 9abafc289e14998e5c10b5e2a1a1dcebec58709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 08/29] fix: allocating a zero sized item does not underflow
 when there are recycled ranges

---
 crates/craballoc/src/range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 0d83dfc..e9a5367 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -130,6 +130,10 @@ impl<R: IsRange> RangeManager<R> {
 impl RangeManager<Range> {
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
+        if count == 0 {
+            // A range cannot be empty
+            return None;
+        }
         let mut remove_index = usize::MAX;
         for (i, range) in self.ranges.iter_mut().enumerate() {
             // This is potentially a hot path, so use the `if` even
-- 
2.43.0


From ff7bec47edb4b7aa2128cf1a81d0ffbe697d8842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 09/29] fix: RangeManager::add_range merges everything the new
 range connects

A range that bridges two existing ranges was only merged with the first one, which
left recycled memory fragmented after a defrag and let an older overlapping update
overwrite a newer one.
---
 crates/craballoc/src/range.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index e9a5367..640b9f0 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -116,11 +116,17 @@ impl<R: IsRange> RangeManager<R> {
         self.ranges.is_empty()
     }
 
-    pub fn add_range(&mut self, input_range: R) {
-        for range in self.ranges.iter_mut() {
-            if range.should_merge_with(&input_range) {
+    pub fn add_range(&mut self, mut input_range: R) {
+        let mut i = 0;
+        while i < self.ranges.len() {
+            if self.ranges[i].should_merge_with(&input_range) {
+                // The union may in turn merge with ranges we've already passed, so start over
+                let mut range = self.ranges.remove(i);
                 range.union(input_range);
-                return;
+                input_range = range;
+                i = 0;
+            } else {
+                i += 1;
             }
         }
         self.ranges.push(input_range);
-- 
2.43.0


From 47c969c32c14bec30a9b6b416effd448f808ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 10/29] fix: a Range of one element is not empty

---
 crates/craballoc/src/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 640b9f0..f63100e 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -33,7 +33,7 @@ impl Range {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.last_index == self.first_index
+        self.len() == 0
     }
 
     pub fn intersects(&self, other: &Range) -> bool {
-- 
2.43.0


From 40c2bf9bb807015124258c9c51b390ee3a34a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 11/29] fix: concurrent allocations could leave the capacity
 smaller than the length

---
 crates/craballoc/src/slab.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4d09fb1..1c8dc0f 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -314,7 +314,9 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn allocate<T: SlabItem>(&self) -> Id<T> {
         // UNWRAP: we want to panic
-        let may_range = self.recycles.write().unwrap().remove(T::SLAB_SIZE as u32);
+        // Hold on to the lock until we're done, so growing the slab doesn't race with other threads
+        let mut recycles_guard = self.recycles.write().unwrap();
+        let may_range = recycles_guard.remove(T::SLAB_SIZE as u32);
         if let Some(range) = may_range {
             let id = Id::<T>::new(range.first_index);
             log::trace!(
@@ -339,11 +341,9 @@ impl<R: IsRuntime> SlabAllocator<R> {
         }
 
         // UNWRAP: we want to panic
-        let may_range = self
-            .recycles
-            .write()
-            .unwrap()
-            .remove((T::SLAB_SIZE * len) as u32);
+        // Hold on to the lock until we're done, so growing the slab doesn't race with other threads
+        let mut recycles_guard = self.recycles.write().unwrap();
+        let may_range = recycles_guard.remove((T::SLAB_SIZE * len) as u32);
         if let Some(range) = may_range {
             let array = Array::<T>::new(range.first_index, len as u32);
             log::trace!(
-- 
2.43.0


From 309082db46ca8e0aedc2a03e8dc635f400fa3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 12/29] fix: a concurrent commit could lose the initial value
 of a new update source

---
 crates/craballoc/src/slab.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 1c8dc0f..4340aab 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -303,9 +303,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn insert_update_source(&self, k: usize, source: WeakGpuRef) {
         log::trace!("slab insert_update_source {k}",);
-        let _ = self.notifier.0.try_send(k);
         // UNWRAP: panic on purpose
         self.update_sources.write().unwrap().insert(k, source);
+        // Notify only after the source is known, or a concurrent commit would drop the notification
+        let _ = self.notifier.0.try_send(k);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 5b09351365e0e939fb17edabd6653728a68f6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 13/29] fix: commit could discard updates queued by a
 concurrent get_updated_source_ids

---
 crates/craballoc/src/slab.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4340aab..b631629 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -449,9 +449,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// This also places recycled items into the recycle bin.
     fn drain_updated_sources(&self) -> RangeManager<SlabUpdate> {
-        let update_set = self.get_updated_source_ids();
+        self.get_updated_source_ids();
+        // Take the queue as it is now, as other threads may have added to it.
         // UNWRAP: panic on purpose
-        *self.update_queue.write().unwrap() = Default::default();
+        let update_set = std::mem::take(&mut *self.update_queue.write().unwrap());
         // Prepare all of our GPU buffer writes
         let mut writes = RangeManager::<SlabUpdate>::default();
         {
-- 
2.43.0


From 6cf2f1233226c3a7b1425960eb5355a9ee152a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 14/29] fix: serialize commits

Concurrent commits could write their updates out of order, leaving a stale value in the
buffer, and the loser of a race for the first commit found no buffer and panicked.
---
 crates/craballoc/src/slab.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index b631629..bb3f3c3 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock},
+    sync::{atomic::AtomicBool, Arc, Mutex, RwLock},
 };
 
 use crate::{
@@ -243,6 +243,8 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     update_queue: Arc<RwLock<FxHashSet<usize>>>,
     // Recycled memory ranges
     pub(crate) recycles: Arc<RwLock<RangeManager<Range>>>,
+    // Held for the duration of a commit
+    commit_lock: Arc<Mutex<()>>,
 }
 
 impl<R: IsRuntime> Clone for SlabAllocator<R> {
@@ -262,6 +264,7 @@ impl<R: IsRuntime> Clone for SlabAllocator<R> {
             update_sources: self.update_sources.clone(),
             update_queue: self.update_queue.clone(),
             recycles: self.recycles.clone(),
+            commit_lock: self.commit_lock.clone(),
         }
     }
 }
@@ -285,6 +288,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             update_sources: Default::default(),
             update_queue: Default::default(),
             recycles: Default::default(),
+            commit_lock: Default::default(),
             len: Default::default(),
             // Start with size 1, because some of `wgpu`'s validation depends on it.
             // See <https://github.com/gfx-rs/wgpu/issues/6414> for more info.
@@ -521,6 +525,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// Returns a [`SlabBuffer`] wrapping the internal buffer that is currently in use by the allocator.
     pub fn commit(&self) -> SlabBuffer<R::Buffer> {
+        // Only one commit at a time, otherwise older updates may overwrite newer ones.
+        let _commit_guard = self
+            .commit_lock
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner());
         let invocation_k = self
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
-- 
2.43.0


From db1d926e715b1d79f21f5a819196ab46db36a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 15/29] fix: commit could write updates past the end of the
 buffer

A value allocated by another thread between commit's check for expansion and its
draining of the updates was written to a buffer that was too small for it.
---
 crates/craballoc/src/slab.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index bb3f3c3..d5faac8 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -534,6 +534,8 @@ impl<R: IsRuntime> SlabAllocator<R> {
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
             + 1;
+        // Drain first: any update drained here was allocated before we check for expansion below
+        let writes = self.drain_updated_sources();
         let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
             self.invalidation_k
                 .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
@@ -542,7 +544,6 @@ impl<R: IsRuntime> SlabAllocator<R> {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
         };
-        let writes = self.drain_updated_sources();
         if !writes.is_empty() {
             self.runtime
                 .buffer_write(writes.ranges.into_iter(), &buffer);
-- 
2.43.0


From 8215e04e89aa57c78ddb7898ce74d8e02dd20fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 16/29] fix: update_if_invalid could return the outdated buffer
 during a concurrent commit

The buffer was marked as invalid before its replacement was available.
---
 crates/craballoc/src/slab.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index d5faac8..581186a 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -199,9 +199,11 @@ impl<T> SlabBuffer<T> {
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                guard.as_ref().unwrap().clone()
+                let updated_buffer = guard.as_ref().unwrap().clone();
+                // Invalidation requires the lock, so this can only be checked while holding it
+                debug_assert!(updated_buffer.is_valid());
+                updated_buffer
             };
-            debug_assert!(updated_buffer.is_valid());
             *self = updated_buffer;
             true
         } else {
@@ -404,13 +406,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
-    fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+    fn recreate_buffer(&self, invocation_k: usize) -> SlabBuffer<R::Buffer> {
         let new_buffer = self.runtime.buffer_create(
             self.capacity(),
             self.label.as_deref(),
             self.buffer_usages.clone(),
         );
         let mut guard = self.buffer.write().unwrap();
+        // Invalidate the old buffer while holding the lock, so whoever sees that their buffer is
+        // invalid also sees the new one.
+        self.invalidation_k
+            .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
         if let Some(old_buffer) = guard.take() {
             self.runtime
                 .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
@@ -537,9 +543,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
         // Drain first: any update drained here was allocated before we check for expansion below
         let writes = self.drain_updated_sources();
         let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
-            self.invalidation_k
-                .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-            self.recreate_buffer()
+            self.recreate_buffer(invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
-- 
2.43.0


From 15102ef782804b1599657b4ef375540c686ca8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 17/29] fix: a value dropped during a concurrent commit could
 leak its allocation

---
 crates/craballoc/src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 8dee371..880bd24 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -336,6 +336,9 @@ pub struct Gpu<T> {
 
 impl<T> Drop for Gpu<T> {
     fn drop(&mut self) {
+        // Release our reference first, or a concurrent commit may find it is still in use and
+        // never recycle the allocation.
+        self.update = Default::default();
         let _ = self.notify.try_send(self.notifier_index);
     }
 }
@@ -406,6 +409,9 @@ pub struct GpuArray<T> {
 
 impl<T> Drop for GpuArray<T> {
     fn drop(&mut self) {
+        // Release our reference first, or a concurrent commit may find it is still in use and
+        // never recycle the allocation.
+        self.updates = Default::default();
         let _ = self.notifier.try_send(self.notifier_index);
     }
 }
-- 
2.43.0


From 82e6efdc46dfb37ac3ea2603180e35bfc896fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 18/29] fix: the internal buffer was never freed

The buffer held by the slab referenced itself through source_slab_buffer, so it outlived
the slab and all of its users.
---
 crates/craballoc/src/slab.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 581186a..fd6c203 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, Mutex, RwLock},
+    sync::{atomic::AtomicBool, Arc, Mutex, RwLock, Weak},
 };
 
 use crate::{
@@ -53,8 +53,11 @@ pub struct SlabBuffer<T> {
     buffer_creation_k: usize,
     // The buffer created at `buffer_creation_k`
     buffer: Arc<T>,
-    // The buffer the source slab is currently working with
-    source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+    // The buffer the source slab is currently working with.
+    //
+    // This is weak because the source slab's buffer is itself a `SlabBuffer`, which would
+    // otherwise keep itself alive.
+    source_slab_buffer: Weak<RwLock<Option<SlabBuffer<T>>>>,
 }
 
 impl<T> Clone for SlabBuffer<T> {
@@ -82,7 +85,7 @@ impl<T> SlabBuffer<T> {
         invalidation_k: Arc<AtomicUsize>,
         invocation_k: Arc<AtomicUsize>,
         buffer: T,
-        source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+        source_slab_buffer: Weak<RwLock<Option<SlabBuffer<T>>>>,
     ) -> Self {
         SlabBuffer {
             buffer: buffer.into(),
@@ -195,10 +198,14 @@ impl<T> SlabBuffer<T> {
     /// ```
     pub fn update_if_invalid(&mut self) -> bool {
         if self.is_invalid() {
+            let Some(source_slab_buffer) = self.source_slab_buffer.upgrade() else {
+                // The slab has been dropped, there is no newer buffer
+                return false;
+            };
             // UNWRAP: Safe because it is an invariant of the system. Once the `SlabBuffer`
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
-                let guard = self.source_slab_buffer.read().unwrap();
+                let guard = source_slab_buffer.read().unwrap();
                 let updated_buffer = guard.as_ref().unwrap().clone();
                 // Invalidation requires the lock, so this can only be checked while holding it
                 debug_assert!(updated_buffer.is_valid());
@@ -425,7 +432,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             self.invalidation_k.clone(),
             self.invocation_k.clone(),
             new_buffer,
-            self.buffer.clone(),
+            Arc::downgrade(&self.buffer),
         );
         *guard = Some(slab_buffer.clone());
         slab_buffer
-- 
2.43.0


From 53b9bd7299fdf60592d1ebcd0cd6742dd933c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 19/29] fix: deriving SlabItem for a struct with raw identifier
 fields panicked

---
 crates/crabslab-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 4b37d1d..263800b 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -1,8 +1,8 @@
 //! Provides derive macros for `crabslab`.
 use quote::quote;
 use syn::{
-    spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed, FieldsUnnamed,
-    Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
+    ext::IdentExt, spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed,
+    FieldsUnnamed, Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
 };
 
 enum FieldName {
@@ -484,11 +484,11 @@ fn derive_from_slab_struct(
             ),
             FieldName::Ident(field) => (
                 Ident::new(
-                    &format!("OFFSET_OF_{}", field.to_string().to_uppercase()),
+                    &format!("OFFSET_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
                 Ident::new(
-                    &format!("SLAB_SIZE_OF_{}", field.to_string().to_uppercase()),
+                    &format!("SLAB_SIZE_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
             ),
-- 
2.43.0


From a0cde093de865364c7f547268c27ca78260284ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 20/29] fix: deriving field offsets of a generic struct did not
 compile

The offsets' impl was missing the SlabItem bounds of the SlabItem impl.
---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 263800b..36491b5 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -511,7 +511,7 @@ fn derive_from_slab_struct(
         quote! {
             #[automatically_derived]
             /// Offsets into the slab buffer for each field.
-            impl #impl_generics #name #ty_generics {
+            impl #impl_generics #name #ty_generics #where_clause {
                 #(#offsets)*
             }
         }
-- 
2.43.0


From 3156e51a1aca47f61268c222f08d6c429718e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 21/29] fix: deriving SlabItem for a struct without fields did
 not compile

---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 36491b5..63bb97b 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -524,7 +524,7 @@ fn derive_from_slab_struct(
         impl #impl_generics crabslab::SlabItem for #name #ty_generics #where_clause
         {
             const SLAB_SIZE: usize = {
-                #( <#field_tys as crabslab::SlabItem>::SLAB_SIZE )+*
+                0 #( + <#field_tys as crabslab::SlabItem>::SLAB_SIZE )*
             };
 
             fn read_slab(mut index: usize, slab: &[u32]) -> Self {
-- 
2.43.0


From b7319c497186773fac5fbd9f43d6968a96b27b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:43 +0000
Subject: [PATCH 22/29] fix: deriving SlabItem for enums with fields named like
 the derive's own variables

Variant fields named e.g. 'index' or 'slab' shadowed the variables of the generated code,
which then did not compile.
---
 crates/crabslab-derive/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 63bb97b..5d0f5a9 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -1,5 +1,5 @@
 //! Provides derive macros for `crabslab`.
-use quote::quote;
+use quote::{format_ident, quote};
 use syn::{
     ext::IdentExt, spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed,
     FieldsUnnamed, Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
@@ -257,9 +257,10 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             .iter()
             .map(|name| match name {
                 FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
+                FieldName::Ident(field) => format_ident!("__field_{}", field),
             })
             .collect::<Vec<_>>();
+        let field_idents = variant.variant.fields.iter().map(|field| &field.ident);
         let field_tys = &variant.fields.field_tys;
         let num_fields = field_names.len();
         let reads = field_names
@@ -289,7 +290,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 quote! {{
                     #(#reads)*
                      #name::#ident {
-                         #(#field_names),*
+                         #(#field_idents: #field_names),*
                      }
                 }}
             }
@@ -324,7 +325,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             .iter()
             .map(|name| match name {
                 FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
+                FieldName::Ident(field) => format_ident!("__field_{}", field),
             })
             .collect::<Vec<_>>();
         quote! {
@@ -343,15 +344,16 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 .iter()
                 .map(|name| match name {
                     FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                    FieldName::Ident(field) => field.clone(),
+                    FieldName::Ident(field) => format_ident!("__field_{}", field),
                 })
                 .collect::<Vec<_>>();
+            let field_idents = variant.variant.fields.iter().map(|field| &field.ident);
             let ident = &variant.variant.ident;
             let pat_match = match variant.variant.fields {
                 Fields::Named(_) => {
                     quote! {
                         #name::#ident {
-                            #(#field_names,)*
+                            #(#field_idents: #field_names,)*
                         }
                     }
                 }
-- 
2.43.0


From 2254b0c6ede91ad47108b635dd831f951d04d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 23/29] fix: deriving SlabItem for types with arrays of
 themselves did not compile

---
 crates/crabslab-derive/src/lib.rs | 82 +++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 5d0f5a9..2c379d2 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -1,8 +1,9 @@
 //! Provides derive macros for `crabslab`.
-use quote::{format_ident, quote};
+use proc_macro2::{TokenStream, TokenTree};
+use quote::{format_ident, quote, ToTokens};
 use syn::{
     ext::IdentExt, spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed,
-    FieldsUnnamed, Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
+    FieldsUnnamed, Generics, Ident, Index, Type, TypeTuple, WherePredicate,
 };
 
 enum FieldName {
@@ -225,6 +226,58 @@ pub fn derive_from_slab(input: proc_macro::TokenStream) -> proc_macro::TokenStre
     }
 }
 
+/// Adds a `SlabItem` bound on each of the field types.
+///
+/// Types that mention the type we're deriving for are left out, because requiring (for example)
+/// `Array<Self>: SlabItem` in order to implement `SlabItem` is a cycle. They are kept if they
+/// also mention a type parameter, which is what the bound is for.
+fn constrain_field_types(name: &Ident, generics: &mut Generics, tys: &[Type]) {
+    /// Removes each mention of the type we're deriving for, including its generic arguments.
+    fn remove_self(tokens: TokenStream, name: &Ident, found: &mut bool) -> TokenStream {
+        let mut output = TokenStream::new();
+        let mut tokens = tokens.into_iter().peekable();
+        let is =
+            |token: &TokenTree, c: char| matches!(token, TokenTree::Punct(p) if p.as_char() == c);
+        let mut is_start_of_path = true;
+        while let Some(token) = tokens.next() {
+            let is_path_separator = is(&token, ':');
+            match token {
+                TokenTree::Ident(ident)
+                    if is_start_of_path
+                        && (ident == "Self" || ident == *name)
+                        && !tokens.peek().is_some_and(|t| is(t, ':')) =>
+                {
+                    *found = true;
+                    let mut depth = 0;
+                    while let Some(token) = tokens.next_if(|t| depth > 0 || is(t, '<')) {
+                        depth += is(&token, '<') as i32 - is(&token, '>') as i32;
+                    }
+                }
+                TokenTree::Group(group) => output.extend(remove_self(group.stream(), name, found)),
+                token => output.extend([token]),
+            }
+            is_start_of_path = !is_path_separator;
+        }
+        output
+    }
+
+    let type_params = generics
+        .type_params()
+        .map(|param| param.ident.clone())
+        .collect::<Vec<_>>();
+    let where_clause = generics.make_where_clause();
+    for ty in tys.iter() {
+        let mut mentions_self = false;
+        let mut rest = remove_self(ty.to_token_stream(), name, &mut mentions_self).into_iter();
+        let mentions_param =
+            rest.any(|token| matches!(token, TokenTree::Ident(i) if type_params.contains(&i)));
+        if mentions_param || !mentions_self {
+            let where_predicate: WherePredicate = syn::parse_quote!(#ty : crabslab::SlabItem);
+            where_clause.predicates.push(where_predicate);
+        }
+    }
+}
+
 fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::TokenStream {
     let EnumParams {
         variants,
@@ -236,17 +289,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
         .flat_map(|v| v.fields.field_tys.clone())
         .collect::<Vec<_>>();
     let mut generics = input.generics;
-    {
-        fn constrain_system_data_types(clause: &mut WhereClause, tys: &[Type]) {
-            for ty in tys.iter() {
-                let where_predicate: WherePredicate = syn::parse_quote!(#ty : crabslab::SlabItem);
-                clause.predicates.push(where_predicate);
-            }
-        }
-
-        let where_clause = generics.make_where_clause();
-        constrain_system_data_types(where_clause, &field_tys)
-    }
+    constrain_field_types(name, &mut generics, &field_tys);
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
     let variant_reads = variants.iter().map(|variant| {
@@ -421,18 +464,7 @@ fn derive_from_slab_struct(
     let name = &input.ident;
     let is_struct_style = !matches!(field_names.first(), Some(FieldName::Index(_)));
     let mut generics = input.generics;
-    {
-        /// Adds a `CanFetch<'lt>` bound on each of the system data types.
-        fn constrain_system_data_types(clause: &mut WhereClause, tys: &[Type]) {
-            for ty in tys.iter() {
-                let where_predicate: WherePredicate = syn::parse_quote!(#ty : crabslab::SlabItem);
-                clause.predicates.push(where_predicate);
-            }
-        }
-
-        let where_clause = generics.make_where_clause();
-        constrain_system_data_types(where_clause, &field_tys)
-    }
+    constrain_field_types(name, &mut generics, &field_tys);
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     let read_field_names = field_names
         .iter()
-- 
2.43.0


From 1c5dbf03fd66c77d8491de265bee6dcacb0d5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 24/29] fix: deriving SlabItem for an enum with a variant named
 SLAB_SIZE did not compile

---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 2c379d2..5592f90 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -439,7 +439,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             }
 
             fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
-                let slab_size = Self::SLAB_SIZE;
+                let slab_size = <Self as crabslab::SlabItem>::SLAB_SIZE;
                 let original_index = index;
                 match self {
                     #(#write_variants_matches)*
-- 
2.43.0


From 02e7bfcbbc67eed6d711bf5e8cfe87ccb17a5763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 25/29] fix: WgpuRuntime::buffer_read of an empty range
 panicked

---
 crates/craballoc/src/runtime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 6e7a4b9..7c80a56 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -246,6 +246,10 @@ impl IsRuntime for WgpuRuntime {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let (start, _end, len) = crate::runtime::range_to_indices_and_len(buffer_len, range);
+        if len == 0 {
+            // `wgpu` can neither slice nor map an empty buffer
+            return Ok(vec![]);
+        }
         let byte_offset = start * std::mem::size_of::<u32>();
         let length = len * std::mem::size_of::<u32>();
         let output_buffer_size = length as u64;
-- 
2.43.0


From cd56675e3a5cf76b300dac9059ae084546cddc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 26/29] fix: SlabAllocator::read of everything ran over the
 buffer if values were allocated since the last commit

---
 crates/craballoc/src/slab/wgpu_slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab/wgpu_slab.rs b/crates/craballoc/src/slab/wgpu_slab.rs
index 8982657..695c30f 100644
--- a/crates/craballoc/src/slab/wgpu_slab.rs
+++ b/crates/craballoc/src/slab/wgpu_slab.rs
@@ -17,8 +17,10 @@ impl SlabAllocator<WgpuRuntime> {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let internal_buffer = self.get_buffer().context(NoInternalBufferSnafu)?;
+        // Values that were allocated since the last commit may lie beyond the end of the buffer
+        let buffer_len = internal_buffer.size() as usize / std::mem::size_of::<u32>();
         self.runtime
-            .buffer_read(&internal_buffer, self.len(), range)
+            .buffer_read(&internal_buffer, self.len().min(buffer_len), range)
             .await
     }
 
-- 
2.43.0


From c6a93da55eb910ed2f77ca2fea526bf97fbe5948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 27/29] fix: dropping the future of WgpuRuntime::buffer_read
 panicked when the buffer was mapped later

---
 crates/craballoc/src/runtime.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 7c80a56..a790627 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -283,7 +283,10 @@ impl IsRuntime for WgpuRuntime {
         let buffer_slice = output_buffer.slice(..);
         let (tx, rx) = async_channel::bounded(1);
         tracing::trace_span!("map_async").in_scope(|| {
-            buffer_slice.map_async(wgpu::MapMode::Read, move |res| tx.try_send(res).unwrap());
+            buffer_slice.map_async(wgpu::MapMode::Read, move |res| {
+                // Nobody is waiting for the result anymore if the future was dropped
+                let _ = tx.try_send(res);
+            });
         });
         tracing::trace_span!("poll").in_scope(|| {
             self.device.poll(wgpu::Maintain::wait_for(submission_index));
-- 
2.43.0


From ccedff76475f96ce68ec489257740728749d6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 28/29] fix: build craballoc without the wgpu feature

---
 crates/craballoc/src/runtime.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index a790627..d37346b 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -1,16 +1,17 @@
 //! The CPU side fo slab allocation.
 
-use std::{
-    future::Future,
-    ops::Deref,
-    sync::{Arc, Mutex},
-};
+use std::{future::Future, ops::Deref, sync::Mutex};
 
 use crabslab::Array;
-use snafu::ResultExt;
-use tracing::Instrument;
 
-use crate::slab::{AsyncRecvSnafu, AsyncSnafu, SlabAllocatorError};
+use crate::slab::SlabAllocatorError;
+#[cfg(feature = "wgpu")]
+use {
+    crate::slab::{AsyncRecvSnafu, AsyncSnafu},
+    snafu::ResultExt,
+    std::sync::Arc,
+    tracing::Instrument,
+};
 
 /// An update to a slab.
 ///
@@ -181,6 +182,7 @@ pub struct WgpuRuntime {
     pub queue: Arc<wgpu::Queue>,
 }
 
+#[cfg(feature = "wgpu")]
 impl AsRef<WgpuRuntime> for WgpuRuntime {
     fn as_ref(&self) -> &WgpuRuntime {
         self
-- 
2.43.0


From d18d070e2997b619df8cc88ae17446844777cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 29/29] fix: don't keep updates of an array whose allocator was
 dropped

---
 crates/craballoc/src/value.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 880bd24..0714d91 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -484,8 +484,11 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             .lock()
             .unwrap()
             .push(SlabUpdate { array, elements });
-        // IGNORED: it's unbounded, so this only fails if the allocator has been dropped
-        let _ = self.notifier.try_send(self.notifier_index);
+        // It's unbounded, so this only fails if the allocator has been dropped
+        if self.notifier.try_send(self.notifier_index).is_err() {
+            // Nobody will take the updates
+            self.updates.lock().unwrap().clear();
+        }
     }
 
     /// A unique identifier.
-- 
2.43.0

