From 92130346326fb4fb9f57ac463814398ffde201d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 01/10] fix: keep the future of HashIndex's
 OccupiedEntry::remove_and_async Send

---
 src/hash_index.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 93bcff7..31507c4 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1714,11 +1714,14 @@ where
     pub async fn remove_and_async(self) -> Option<OccupiedEntry<'h, K, V, H>> {
         let hashindex = self.hashindex;
         let mut entry_ptr = self.entry_ptr.clone();
-        let guard = Guard::new();
-        self.locked_bucket
-            .writer
-            .mark_removed(&mut entry_ptr, &guard);
-        self.locked_bucket.set_has_garbage(&guard);
+        {
+            // `Guard` is not `Send`, thus must not be held across an await point.
+            let guard = Guard::new();
+            self.locked_bucket
+                .writer
+                .mark_removed(&mut entry_ptr, &guard);
+            self.locked_bucket.set_has_garbage(&guard);
+        }
         if let Some(locked_bucket) = self
             .locked_bucket
             .next_async(hashindex, &mut entry_ptr)
-- 
2.43.0


From e68d853e4b9a74de3f75a11c296af89180f00508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 02/10] fix: do not read a bucket array that may have been
 reclaimed in for_each_reader_async

---
 src/hash_table.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index cd2794a..a8ba90f 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -520,14 +520,15 @@ where
         {
             // In case the method is repeating the routine, iterate over entries from the middle of
             // the array.
-            start_index = if prev_len == 0 || prev_len == current_array.len() {
+            let current_array_len = current_array.len();
+            start_index = if prev_len == 0 || prev_len == current_array_len {
                 start_index
             } else {
-                from_index_to_range(prev_len, current_array.len(), start_index).0
+                from_index_to_range(prev_len, current_array_len, start_index).0
             };
-            prev_len = current_array.len();
+            prev_len = current_array_len;
 
-            while start_index < current_array.len() {
+            while start_index < current_array_len {
                 if current_array.has_linked_array() {
                     self.incremental_rehash_async(current_array, &async_guard)
                         .await;
@@ -559,7 +560,7 @@ where
                 start_index += 1;
             }
 
-            if start_index == current_array.len() {
+            if start_index == current_array_len {
                 break;
             }
         }
-- 
2.43.0


From b1ad4828f2a2690d9d96fad109701b53a44d93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 03/10] fix: keep the old bucket array alive until
 incremental_rehash_async is done with it

---
 src/hash_table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index a8ba90f..4133b3c 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -1190,6 +1190,9 @@ where
                     debug_assert!(current_array.has_linked_array());
                 }
 
+                // Instantiate a guard while the old bucket array is pinned to ensure that the bucket
+                // arrays are not dropped.
+                async_guard.guard();
                 if Self::end_incremental_rehash(rehashing_guard.0, rehashing_guard.1, true) {
                     if let Some(bucket_array) = current_array
                         .linked_array_var()
-- 
2.43.0


From c2a3d5158577a453d89233533fb4dae6b1fc918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 04/10] fix: unlock the target buckets if relocate_bucket_async
 is dropped half way

---
 src/hash_table.rs | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index 4133b3c..a8d2f80 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -905,27 +905,10 @@ where
             return;
         }
 
-        // Lock the target buckets.
-        let (target_index, end_target_index) =
-            from_index_to_range(old_array.len(), current_array.len(), old_index);
-        for i in target_index..end_target_index {
-            let writer = unsafe {
-                Writer::lock_async(current_array.bucket(i), async_guard)
-                    .await
-                    .unwrap_unchecked()
-            };
-            forget(writer);
-        }
-
-        // It may seem inefficient to reevaluate the same values, but it is beneficial for reducing
-        // the `Future` size.
-        let Some(old_array) = current_array.linked_array(async_guard.guard()) else {
-            return;
-        };
-        let (target_index, end_target_index) =
-            from_index_to_range(old_array.len(), current_array.len(), old_index);
-        let unlock = ExitGuard::new(
-            (current_array, target_index, end_target_index),
+        // Lock the target buckets; those locked so far are unlocked if the `Future` is dropped.
+        let target_index = from_index_to_range(old_array.len(), current_array.len(), old_index).0;
+        let mut unlock = ExitGuard::new(
+            (current_array, target_index, target_index),
             |(current_array, target_index, end_target_index)| {
                 for i in target_index..end_target_index {
                     let writer = Writer::from_bucket(current_array.bucket(i));
@@ -934,7 +917,21 @@ where
             },
         );
 
-        self.relocate_bucket(unlock.0, unlock.1, old_array, old_index, &old_writer);
+        // It may seem inefficient to reevaluate the same values, but it is beneficial for reducing
+        // the `Future` size.
+        while let Some(old_array) = unlock.0.linked_array(async_guard.guard()) {
+            if unlock.2 == from_index_to_range(old_array.len(), unlock.0.len(), old_index).1 {
+                self.relocate_bucket(unlock.0, unlock.1, old_array, old_index, &old_writer);
+                break;
+            }
+            let writer = unsafe {
+                Writer::lock_async(unlock.0.bucket(unlock.2), async_guard)
+                    .await
+                    .unwrap_unchecked()
+            };
+            forget(writer);
+            unlock.2 += 1;
+        }
         drop(unlock);
 
         // Instantiate a guard while the lock is held to ensure that the bucket arrays are not
-- 
2.43.0


From bbde18fa2c23f9ec6ae05087338a9358dd618901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 05/10] fix: do not expose the internal resize flag through
 capacity_range

---
 src/hash_cache.rs | 2 +-
 src/hash_index.rs | 2 +-
 src/hash_map.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hash_cache.rs b/src/hash_cache.rs
index b2a085f..3e45c9b 100644
--- a/src/hash_cache.rs
+++ b/src/hash_cache.rs
@@ -1154,7 +1154,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 }
 
diff --git a/src/hash_index.rs b/src/hash_index.rs
index 31507c4..5d97d81 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1112,7 +1112,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
diff --git a/src/hash_map.rs b/src/hash_map.rs
index 494f7ee..4364c0a 100644
--- a/src/hash_map.rs
+++ b/src/hash_map.rs
@@ -1457,7 +1457,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
-- 
2.43.0


From e9738bd0e9022e257a5af9fdfa80e836016d284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 06/10] fix: make the fused iterators of HashIndex and
 TreeIndex actually fused

---
 src/hash_index.rs | 16 ++++++++++++++--
 src/tree_index.rs | 15 +++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 5d97d81..f5fa6d1 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -112,6 +112,7 @@ where
     index: usize,
     bucket: Option<&'h Bucket<K, V, (), INDEX>>,
     entry_ptr: EntryPtr<K, V, INDEX>,
+    exhausted: bool,
     guard: &'h Guard,
 }
 
@@ -1175,6 +1176,7 @@ where
             index: 0,
             bucket: None,
             entry_ptr: EntryPtr::null(),
+            exhausted: false,
             guard,
         }
     }
@@ -2100,11 +2102,18 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.exhausted {
+            return None;
+        }
+
         let mut array = if let Some(&array) = self.bucket_array.as_ref() {
             array
         } else {
             // Start scanning.
-            let current_array = self.hashindex.bucket_array(self.guard)?;
+            let Some(current_array) = self.hashindex.bucket_array(self.guard) else {
+                self.exhausted = true;
+                return None;
+            };
             let array = if let Some(old_array) = current_array.linked_array(self.guard) {
                 old_array
             } else {
@@ -2130,7 +2139,9 @@ where
             if self.index + 1 == array.len() {
                 // Move to a newer bucket array.
                 self.index = 0;
-                let current_array = self.hashindex.bucket_array(self.guard)?;
+                let Some(current_array) = self.hashindex.bucket_array(self.guard) else {
+                    break;
+                };
                 if self
                     .bucket_array
                     .as_ref()
@@ -2164,6 +2175,7 @@ where
                 self.bucket.replace(array.bucket(self.index));
             }
         }
+        self.exhausted = true;
         None
     }
 }
diff --git a/src/tree_index.rs b/src/tree_index.rs
index b0a40fe..4188c08 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -73,6 +73,7 @@ pub struct TreeIndex<K, V> {
 pub struct Iter<'t, 'g, K, V> {
     root: &'t AtomicShared<Node<K, V>>,
     leaf_scanner: Option<Scanner<'g, K, V>>,
+    exhausted: bool,
     guard: &'g Guard,
 }
 
@@ -83,6 +84,7 @@ pub struct Range<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> {
     bounds: R,
     check_lower_bound: bool,
     check_upper_bound: bool,
+    exhausted: bool,
     guard: &'g Guard,
     query: PhantomData<fn() -> Q>,
 }
@@ -872,6 +874,7 @@ impl<'t, 'g, K, V> Iter<'t, 'g, K, V> {
         Iter::<'t, 'g, K, V> {
             root,
             leaf_scanner: None,
+            exhausted: false,
             guard,
         }
     }
@@ -895,6 +898,10 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.exhausted {
+            return None;
+        }
+
         // Starts scanning.
         if self.leaf_scanner.is_none() {
             let root_ptr = self.root.load(Acquire, self.guard);
@@ -902,8 +909,6 @@ where
                 if let Some(scanner) = root_ref.min(self.guard) {
                     self.leaf_scanner.replace(scanner);
                 }
-            } else {
-                return None;
             }
         }
 
@@ -922,6 +927,7 @@ where
                 }
             }
         }
+        self.exhausted = true;
         None
     }
 }
@@ -948,6 +954,7 @@ impl<'t, 'g, K, V, Q: ?Sized, R: RangeBounds<Q>> Range<'t, 'g, K, V, Q, R> {
             bounds: range,
             check_lower_bound: true,
             check_upper_bound: false,
+            exhausted: false,
             guard,
             query: PhantomData,
         }
@@ -1055,6 +1062,9 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.exhausted {
+            return None;
+        }
         while let Some((k, v)) = self.next_unbounded() {
             if self.check_lower_bound {
                 match self.bounds.start_bound() {
@@ -1092,6 +1102,7 @@ where
             }
             return Some((k, v));
         }
+        self.exhausted = true;
         None
     }
 }
-- 
2.43.0


From cb682982728cacd390022927b21b455a6ce69742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 07/10] fix: give the capacity back if reserving it panics

---
 src/hash_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index a8d2f80..f5a3bec 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -105,12 +105,18 @@ where
                 Relaxed,
             ) {
                 Ok(_) => {
+                    // The capacity is not reserved if resizing the array fails with a panic.
+                    let rollback = ExitGuard::new((), |()| {
+                        self.minimum_capacity_var()
+                            .fetch_sub(additional_capacity, Relaxed);
+                    });
                     let guard = Guard::new();
                     if let Some(current_array) = self.bucket_array(&guard) {
                         if !current_array.has_linked_array() {
                             self.try_resize(current_array, 0, &guard);
                         }
                     }
+                    rollback.forget();
                     return additional_capacity;
                 }
                 Err(actual) => current_minimum_capacity = actual,
-- 
2.43.0


From 0803fe55a880a9129cc14902611cd61f0826cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 08/10] fix: keep entries below the range reachable in
 TreeIndex::remove_range

remove_range removed the key of the lower border node before moving the node to
the unbounded child.  In between, readers looking for a key that is smaller than
the range ended up in the old unbounded child and did not find it, and a key
inserted there was dropped along with that child.
---
 src/tree_index/internal_node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 86718f6..cacdcb5 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -515,9 +515,12 @@ where
             // recursively invoked on `upper_node`.
             debug_assert!(lower_border.is_some());
             if let Some((Some(key), lower_node)) = lower_border {
-                self.children.remove_if(key, &mut |_| true);
+                // The node has to be reachable as the unbounded child before its key is removed:
+                // otherwise, readers do not find the entries that are not in the range, and newly
+                // inserted ones are lost along with the old unbounded child.
                 self.unbounded_child
                     .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
+                self.children.remove_if(key, &mut |_| true);
                 lower_node.swap((None, Tag::None), Release);
             }
             if let Some(lower_node) = self.unbounded_child.load(Acquire, guard).as_ref() {
-- 
2.43.0


From f0294875e55e29b4803a3566e1b80e52bf80d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 09/10] fix: unlink the new leaves if splitting a leaf panics

If cloning or comparing a key panicked after the new leaves had been linked to
the full leaf, they stayed in the linked list, and iterators kept returning
their copies of entries that were removed later on.
---
 src/tree_index/leaf_node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 18cdda2..fce3d5b 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -805,7 +805,15 @@ where
 
         // Distribute entries to two leaves after make the target retired.
         let exit_guard = ExitGuard::new((), |()| {
+            // The new leaves may have been linked already: roll back the linked list state before
+            // the target can be updated, otherwise `Scanners` see obsolete copies of its entries.
+            for new_leaf in [&self.split_op.high_key_leaf, &self.split_op.low_key_leaf] {
+                if let Some(new_leaf) = new_leaf.load(Relaxed, guard).as_ref() {
+                    new_leaf.delete_self(Release);
+                }
+            }
             target.thaw();
+            target.unmark(Release);
             self.split_op.reset();
             self.lock.release_lock();
         });
-- 
2.43.0


From b600670bea7b59362d9c47e0ea81c89f20bb264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 10/10] fix: do not report a key as a duplicate when a leaf is
 thawed while its insertion is rolled back

---
 src/tree_index/leaf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index e5845ff..58ee86f 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -685,7 +685,11 @@ where
                     .compare_exchange(prev_metadata, final_metadata, AcqRel, Acquire)
             {
                 if Dimension::frozen(actual) || Dimension::retired(actual) {
-                    return self.rollback(free_slot_index);
+                    return match self.rollback(free_slot_index) {
+                        // The leaf was thawed in the meantime: the key has not been found in it.
+                        InsertResult::Duplicate(key, val) => InsertResult::Retry(key, val),
+                        result => result,
+                    };
                 }
                 prev_metadata = actual;
                 continue;
-- 
2.43.0

