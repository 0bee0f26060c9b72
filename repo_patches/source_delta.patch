From aa19a91792cc9daae6a901903199d854b7cc85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 01/13] fix: keep the initial capacity a valid table length

A map created with a capacity that is not a power of two panicked on an
assertion in Table::alloc once a resize shrank the table down to it.
---
 src/raw/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 79eb825..03fbf72 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -231,8 +231,12 @@ impl<K, V, S> HashMap<K, V, S> {
             };
         }
 
+        // Round the capacity up to a valid table length, as resizes may shrink the
+        // table to exactly the initial capacity.
+        let capacity = probe::entries_for(capacity);
+
         // Initialize the table and mark it as the root.
-        let mut table = Table::alloc(probe::entries_for(capacity));
+        let mut table = Table::alloc(capacity);
         *table.state_mut().status.get_mut() = State::PROMOTED;
 
         HashMap {
-- 
2.43.0


From 34a1c183387a7c61bb54c55ffb811618f5bbb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 02/13] fix: align entries to keep their pointer tag bits free

Entries of zero-sized or byte-aligned keys and values may be allocated at
addresses that overlap the tag bits, so a map of ZSTs lost its entry and
byte-aligned entries relied on the allocator over-aligning them.
---
 src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 03fbf72..9365e13 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -119,7 +119,10 @@ pub enum RawInsertResult<'g, K, V> {
 }
 
 // An entry in the hash-table.
-#[repr(C)]
+//
+// The low three bits of an entry pointer are used as tags, so entries must be
+// aligned to at least eight bytes whatever the alignment of the key and value.
+#[repr(C, align(8))]
 pub struct Entry<K, V> {
     /// The key for this entry.
     pub key: K,
-- 
2.43.0


From 7e2e95948c780a5f5edf59cd1a7b2c92ea0bfe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 03/13] fix: require Send keys to share a HashSet

A shared set can drop a key on another thread, exactly like a shared
HashMap, so Sync for HashSet needs K: Send as well as K: Sync.
---
 src/set.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/set.rs b/src/set.rs
index 367776f..ee71fed 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -21,8 +21,11 @@ pub struct HashSet<K, S = RandomState> {
 // Safety: We only ever hand out &K through shared references to the map,
 // so normal Send/Sync rules apply. We never expose owned or mutable references
 // to keys or values.
+//
+// However, we require `K: Send` to share a set, as keys may be removed and dropped
+// on a different thread than they were created on through shared access.
 unsafe impl<K: Send, S: Send> Send for HashSet<K, S> {}
-unsafe impl<K: Sync, S: Sync> Sync for HashSet<K, S> {}
+unsafe impl<K: Send + Sync, S: Sync> Sync for HashSet<K, S> {}
 
 /// A builder for a [`HashSet`].
 ///
-- 
2.43.0


From 3af7f443204c49b9160661fff2ae0861c03a4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 04/13] fix: wake writers parked on an aborted blocking copy

Writers wait for a blocking copy on the parker of the table being copied
to, but aborting the copy unparked the table being copied from, so they
were never woken up.
---
 src/raw/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 9365e13..f17e0de 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2073,8 +2073,8 @@ where
                         // Allocate the next table.
                         let allocated = self.get_or_alloc_next(None, next);
 
-                        // Wake anyone waiting for us to finish.
-                        let state = table.state();
+                        // Wake anyone waiting for the copy that we aborted.
+                        let state = next.state();
                         state.parker.unpark(&state.status);
 
                         // Retry in a new table.
-- 
2.43.0


From cc552990d296e74912c69a757499f5b5acf00a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 05/13] fix: free tables abandoned by an aborted blocking copy

When the table being copied to is too small, a blocking copy is aborted
and restarted in a new table. Only the old root was retired when the copy
completed, so the tables in between were leaked.
---
 src/raw/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index f17e0de..a10336b 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2487,6 +2487,9 @@ where
                     // that are unparked.
                     state.status.store(State::PROMOTED, Ordering::SeqCst);
 
+                    // The tables between the old table and the new root, if any.
+                    let mut aborted = table.next_table();
+
                     // Retire the old table.
                     //
                     // Safety: `table.raw` is a valid pointer to the table we just copied from.
@@ -2499,6 +2502,19 @@ where
                             drop_table(Table::from_raw(table), collector);
                         });
                     }
+
+                    // Retire any tables in between that were abandoned by an aborted copy.
+                    while let Some(table) = aborted.filter(|table| table.raw != next.raw) {
+                        aborted = table.next_table();
+
+                        // Safety: Aborted tables were only reachable through the table we just
+                        // copied from, and every entry they contain was also copied to the new root.
+                        unsafe {
+                            guard.defer_retire(table.raw, |table, collector| {
+                                drop_table(Table::from_raw(table), collector);
+                            });
+                        }
+                    }
                 }
 
                 // Wake up any writers waiting for the resize to complete.
-- 
2.43.0


From dc869e3b54857d84052f0cadbf3bc84c98384da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 06/13] fix: check for overflow in the table layout

A capacity whose table size overflows usize wrapped around and allocated
a block of the wrong size, aborting the process (or, on 32-bit targets,
writing past the end of the block) instead of panicking.
---
 src/raw/alloc.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 3c5792f..b89a6cd 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -211,11 +211,13 @@ impl<T> Table<T> {
 
     // Returns the non-zero layout for a table allocation.
     fn layout(len: usize) -> Layout {
-        let size = mem::size_of::<TableLayout<T>>()
-            + (mem::size_of::<u8>() * len) // Metadata table.
-            + (mem::size_of::<AtomicPtr<T>>() * len); // Entry pointers.
-                                                      //
-        Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).unwrap()
+        // Each entry needs a byte in the metadata table and an entry pointer.
+        let size = (mem::size_of::<u8>() + mem::size_of::<AtomicPtr<T>>())
+            .checked_mul(len)
+            .and_then(|size| size.checked_add(mem::size_of::<TableLayout<T>>()))
+            .expect("capacity overflow");
+
+        Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).expect("capacity overflow")
     }
 }
 
-- 
2.43.0


From 1e4189e8c9b69945817f4aa8b697ecbd6b268415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 07/13] fix: do not poison the map when a reservation overflows

A reserve call that panicked with a capacity overflow poisoned the
allocation lock of the current table, so every later resize panicked.
---
 src/raw/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index a10336b..f385811 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -6,7 +6,7 @@ pub(crate) mod utils;
 use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
-use std::sync::Mutex;
+use std::sync::{Mutex, PoisonError, TryLockError};
 use std::{hint, panic, ptr};
 
 use self::alloc::{RawTable, Table};
@@ -1915,8 +1915,11 @@ where
         // Unlike in `init`, we do not race here to prevent unnecessary allocator pressure.
         let _allocating = match state.allocating.try_lock() {
             Ok(lock) => lock,
+            // A previous allocation panicked, i.e. with a capacity overflow. There is no
+            // state to be left inconsistent, so we can try again.
+            Err(TryLockError::Poisoned(err)) => err.into_inner(),
             // Someone else is currently allocating.
-            Err(_) => {
+            Err(TryLockError::WouldBlock) => {
                 let mut spun = 0;
 
                 // Spin for a bit, waiting for the table to be initialized.
@@ -1934,7 +1937,8 @@ where
                 }
 
                 // Otherwise, we have to block.
-                state.allocating.lock().unwrap()
+                let lock = state.allocating.lock();
+                lock.unwrap_or_else(PoisonError::into_inner)
             }
         };
 
-- 
2.43.0


From 0dc42cd262918c82e98b67aff29e8056ba2f0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 08/13] fix: bound the capacity allocated for a deserializer's
 size hint

The size hint is part of the untrusted input for many formats, a huge one
panicked with a capacity overflow or aborted in the allocator.
---
 src/serde_impls.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serde_impls.rs b/src/serde_impls.rs
index d1a7d80..7ee9444 100644
--- a/src/serde_impls.rs
+++ b/src/serde_impls.rs
@@ -7,6 +7,12 @@ use std::marker::PhantomData;
 
 use crate::{Guard, HashMap, HashMapRef, HashSet, HashSetRef};
 
+// The size hint is controlled by the input, so it cannot be trusted for large allocations.
+fn cautious(size: usize) -> usize {
+    const MAX_CAPACITY: usize = 4096;
+    size.min(MAX_CAPACITY)
+}
+
 struct MapVisitor<K, V, S> {
     _marker: PhantomData<HashMap<K, V, S>>,
 }
@@ -79,7 +85,7 @@ where
         M: MapAccess<'de>,
     {
         let values = match access.size_hint() {
-            Some(size) => HashMap::with_capacity_and_hasher(size, S::default()),
+            Some(size) => HashMap::with_capacity_and_hasher(cautious(size), S::default()),
             None => HashMap::default(),
         };
 
@@ -162,7 +168,7 @@ where
         M: SeqAccess<'de>,
     {
         let values = match access.size_hint() {
-            Some(size) => HashSet::with_capacity_and_hasher(size, S::default()),
+            Some(size) => HashSet::with_capacity_and_hasher(cautious(size), S::default()),
             None => HashSet::default(),
         };
 
-- 
2.43.0


From 05a27eb371108022381c5f7f07cc941f66c2fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 09/13] fix: keep the stored key when inserting it into a set
 again

HashSet::insert replaced the stored key with the new one, although it is
documented not to update a value that is already present.
---
 src/set.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/set.rs b/src/set.rs
index ee71fed..6341b64 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -430,10 +430,10 @@ where
     /// ```
     #[inline]
     pub fn insert(&self, key: K, guard: &impl Guard) -> bool {
-        match self.raw.insert(key, (), true, self.raw.verify(guard)) {
+        match self.raw.insert(key, (), false, self.raw.verify(guard)) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Error { .. } => false,
+            InsertResult::Replaced(_) => unreachable!(),
         }
     }
 
@@ -776,10 +776,10 @@ where
     /// See [`HashSet::insert`] for details.
     #[inline]
     pub fn insert(&self, key: K) -> bool {
-        match self.set.raw.insert(key, (), true, &self.guard) {
+        match self.set.raw.insert(key, (), false, &self.guard) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Error { .. } => false,
+            InsertResult::Replaced(_) => unreachable!(),
         }
     }
 
-- 
2.43.0


From 8607aa3a9a04e376e66670c292c33dae4c947b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 10/13] fix: require Send keys and values for owned guards

---
 src/map.rs | 14 ++++++++++++--
 src/set.rs | 12 ++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index f149a25..89fe25f 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -328,7 +328,11 @@ impl<K, V, S> HashMap<K, V, S> {
     /// The returned reference manages a guard internally, preventing garbage collection
     /// for as long as it is held. See the [crate-level documentation](crate#usage) for details.
     #[inline]
-    pub fn pin_owned(&self) -> HashMapRef<'_, K, V, S, OwnedGuard<'_>> {
+    pub fn pin_owned(&self) -> HashMapRef<'_, K, V, S, OwnedGuard<'_>>
+    where
+        K: Send,
+        V: Send,
+    {
         HashMapRef {
             guard: self.raw.owned_guard(),
             map: self,
@@ -350,10 +354,16 @@ impl<K, V, S> HashMap<K, V, S> {
     /// `.await` points in work-stealing schedulers. This is especially useful
     /// for iterators.
     ///
+    /// Keys and values may be dropped on the thread that releases the guard, so they must be `Send`.
+    ///
     /// Note that holding on to a guard prevents garbage collection.
     /// See the [crate-level documentation](crate#usage) for details.
     #[inline]
-    pub fn owned_guard(&self) -> OwnedGuard<'_> {
+    pub fn owned_guard(&self) -> OwnedGuard<'_>
+    where
+        K: Send,
+        V: Send,
+    {
         self.raw.collector().enter_owned()
     }
 }
diff --git a/src/set.rs b/src/set.rs
index 6341b64..b901bd3 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -277,7 +277,10 @@ impl<K, S> HashSet<K, S> {
     /// The returned reference manages a guard internally, preventing garbage collection
     /// for as long as it is held. See the [crate-level documentation](crate#usage) for details.
     #[inline]
-    pub fn pin_owned(&self) -> HashSetRef<'_, K, S, OwnedGuard<'_>> {
+    pub fn pin_owned(&self) -> HashSetRef<'_, K, S, OwnedGuard<'_>>
+    where
+        K: Send,
+    {
         HashSetRef {
             guard: self.raw.owned_guard(),
             set: self,
@@ -299,10 +302,15 @@ impl<K, S> HashSet<K, S> {
     /// `.await` points in work-stealing schedulers. This is especially useful
     /// for iterators.
     ///
+    /// Keys may be dropped on the thread that releases the guard, so they must be `Send`.
+    ///
     /// Note that holding on to a guard prevents garbage collection.
     /// See the [crate-level documentation](crate#usage) for details.
     #[inline]
-    pub fn owned_guard(&self) -> OwnedGuard<'_> {
+    pub fn owned_guard(&self) -> OwnedGuard<'_>
+    where
+        K: Send,
+    {
         self.raw.collector().enter_owned()
     }
 }
-- 
2.43.0


From aae32a901ff8a131c33b8196961c23876c86c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:03 +0000
Subject: [PATCH 11/13] fix: complete incremental resizes whatever the chunk
 size

A chunk size of zero never claimed an entry, so operations that wait for a
resize to complete looped forever. A chunk size of half the address space
wrapped the claim counter around, so that entries could be copied twice.
---
 src/raw/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index f385811..40a50b1 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2215,6 +2215,10 @@ where
             return table;
         };
 
+        // Claim at least one entry at a time, or the copy would never complete, and at most
+        // the whole table, so that the claim counter cannot wrap around.
+        let chunk = chunk.clamp(1, table.len());
+
         loop {
             // The copy already completed.
             if self.try_promote(&table, &next, 0, guard) {
-- 
2.43.0


From f3aa43805d1b1f22162841ff0c0906dcb0a13ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:05 +0000
Subject: [PATCH 12/13] fix: reserve returned early while a resize in progress
 was shrinking the table

---
 src/raw/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 40a50b1..91a03cf 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1003,7 +1003,15 @@ where
             let capacity = probe::entries_for(self.count.sum().checked_add(additional).unwrap());
 
             // We have enough capacity.
-            if table.len() >= capacity {
+            //
+            // Note that a resize that is already in progress may be shrinking the table,
+            // so every table that the entries may end up in has to be large enough.
+            let mut last = Some(table);
+            while let Some(table) = last.filter(|table| table.len() >= capacity) {
+                last = table.next_table();
+            }
+
+            if last.is_none() {
                 return;
             }
 
-- 
2.43.0


From 90b256cacc72a8fd4ce641c3f16ce90a21c07074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:44 +0000
Subject: [PATCH 13/13] fix: grow a table without deleted entries that exceeded
 the probe limit, instead of rebuilding it for ever

---
 src/raw/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 91a03cf..75d9900 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1961,6 +1961,13 @@ where
         // a probabilistic counter to detect high-deletion workloads.
         let active_entries = self.len();
 
+        // Returns whether any entries were deleted from this table.
+        let has_tombstones = || {
+            // Safety: `i` is in bounds for the table length.
+            (0..current_capacity)
+                .any(|i| unsafe { table.meta(i) }.load(Ordering::Relaxed) == meta::TOMBSTONE)
+        };
+
         let next_capacity = match cfg!(papaya_stress) {
             // Never grow the table to stress the incremental resizing algorithm.
             true => current_capacity,
@@ -1968,6 +1975,12 @@ where
             // Double the table capacity if we are at least 50% full.
             false if active_entries >= (current_capacity >> 1) => current_capacity << 1,
 
+            // Also double the table capacity if there are no deleted entries to clean up.
+            //
+            // We exceeded the probe limit due to poor hash distribution, so copying the
+            // same entries to a table that is not larger would not make any progress.
+            false if !has_tombstones() => current_capacity << 1,
+
             // Halve the table if we are at most 12.5% full.
             //
             // This heuristic is intentionally pessimistic as unnecessarily shrinking
-- 
2.43.0

