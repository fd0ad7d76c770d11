From 63140d582c52d34c6b7ef37a9ff27cd9e07fa8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 01/11] fix: pair the hand-off of the wrapped iterator with an
 acquire load

The yielded counter is incremented with release semantics after the wrapped
iterator is used, but the next ticket holder read it with a relaxed load.
Hence, consecutive uses of the wrapped iterator were not ordered by
happens-before: a data race.
---
 src/iter/atomic_counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index fa0b710..5c7d984 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -27,7 +27,7 @@ impl AtomicCounter {
     /// Fetches and returns the current value of the counter.
     #[inline(always)]
     pub fn current(&self) -> usize {
-        self.current.load(Ordering::Relaxed)
+        self.current.load(Ordering::Acquire)
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
-- 
2.43.0


From 700ba716e95444add54bf1fd4d00ae3df42caaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 02/11] fix: saturate position counters rather than wrapping
 around

A chunk pull with a huge chunk size, repeated pulls past the end, or any pull
following skip_to_end of a wrapped iterator used to wrap the counter around
and revive already delivered positions. Index arithmetic saturates as well.
---
 src/iter/atomic_counter.rs     | 17 +++++++++++++++--
 src/iter/buffered/slice.rs     |  3 ++-
 src/iter/implementors/array.rs |  4 ++--
 src/iter/implementors/iter.rs  |  2 +-
 src/iter/implementors/slice.rs |  5 ++++-
 src/iter/implementors/vec.rs   |  7 +++++--
 6 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 5c7d984..cc86801 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -13,15 +13,28 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter, and adds `len` to it.
+    ///
+    /// The counter saturates at `usize::MAX` rather than wrapping around.
     #[inline(always)]
     pub fn fetch_and_add(&self, len: usize) -> usize {
-        self.current.fetch_add(len, Ordering::AcqRel)
+        let mut current = self.current.load(Ordering::Relaxed);
+        loop {
+            match self.current.compare_exchange_weak(
+                current,
+                current.saturating_add(len),
+                Ordering::AcqRel,
+                Ordering::Relaxed,
+            ) {
+                Ok(previous) => return previous,
+                Err(updated) => current = updated,
+            }
+        }
     }
 
     /// Fetches and returns the current value of the counter, and adds `1` to it.
     #[inline(always)]
     pub fn fetch_and_increment(&self) -> usize {
-        self.current.fetch_add(1, Ordering::AcqRel)
+        self.fetch_and_add(1)
     }
 
     /// Fetches and returns the current value of the counter.
diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 8bed6e8..859989b 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -32,7 +32,8 @@ where
         let slice = iter.as_slice();
         match begin_idx.cmp(&slice.len()) {
             Ordering::Less => {
-                let end_idx = (begin_idx + self.chunk_size)
+                let end_idx = begin_idx
+                    .saturating_add(self.chunk_size)
                     .min(slice.len())
                     .max(begin_idx);
                 let values = slice[begin_idx..end_idx].iter();
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 21a7a6d..f9b4b72 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -56,7 +56,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let array = &mut *self.array.get();
-        let end_idx = (begin_idx + len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
@@ -113,7 +113,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(N).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(N).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2ccf8cb..d187c44 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -137,7 +137,7 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-            let end_idx = begin_idx + n;
+            let end_idx = begin_idx.saturating_add(n);
             let buffer = (begin_idx..end_idx)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 523007c..039b02c 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -74,7 +74,10 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 333774b..f2c0bb1 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -56,7 +56,7 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let vec = &mut *self.vec.get();
-        let end_idx = (begin_idx + len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
@@ -109,7 +109,10 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
-- 
2.43.0


From 269f5a84a96420decd5efa371948e9f25fefd851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 03/11] fix: the end of a wrapped iterator is permanent

A pull following a short chunk, a short buffered chunk or skip_to_end could
hold the current ticket and call next on a wrapped iterator which already
reported its end, or deliver elements after skip_to_end. Completion is now
published before the ticket is handed off and checked by the ticket holder.
---
 src/iter/buffered/iter.rs     |  4 ++++
 src/iter/implementors/iter.rs | 30 ++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c7830f5..7de0b6d 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -50,6 +50,10 @@ where
             }
         }
 
+        if i < self.chunk_size() {
+            iter.complete();
+        }
+
         let older_count = iter.progress_yielded_counter(self.chunk_size());
         assert_eq!(older_count, begin_idx);
 
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index d187c44..7d8f6ab 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -62,6 +62,12 @@ where
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
     }
+
+    /// Marks that the end of the wrapped iterator is reached; it must be called before handing off the ticket.
+    #[inline(always)]
+    pub(crate) fn complete(&self) {
+        self.completed.store(true, atomic::Ordering::SeqCst);
+    }
 }
 
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
@@ -89,8 +95,13 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match begin_idx.cmp(&yielded_count) {
-                // begin_idx==yielded_count => it is our job to provide the items
-                Ordering::Equal => return Some(begin_idx),
+                // begin_idx==yielded_count => it is our job to provide the items, unless the end has been reached
+                Ordering::Equal => {
+                    return match self.completed.load(atomic::Ordering::SeqCst) {
+                        true => None,
+                        false => Some(begin_idx),
+                    }
+                }
 
                 Ordering::Less => return None,
 
@@ -108,15 +119,19 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
-                // item_idx==yielded_count => it is our job to provide the item
+                // item_idx==yielded_count => it is our job to provide the item, unless the end has been reached
                 Ordering::Equal => {
+                    if self.completed.load(atomic::Ordering::SeqCst) {
+                        return None;
+                    }
+
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
                         }
-                        false => self.completed.store(true, atomic::Ordering::SeqCst),
+                        false => self.complete(),
                     };
                     return next;
                 }
@@ -144,9 +159,12 @@ where
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
 
+            if buffer.len() < n {
+                self.complete();
+            }
+
             match buffer.len() {
                 0 => {
-                    self.completed.store(true, atomic::Ordering::SeqCst);
                     let older_count = self.progress_yielded_counter(n);
                     assert_eq!(older_count, begin_idx);
                     None
@@ -163,7 +181,7 @@ where
 
     fn early_exit(&self) {
         self.counter().store(usize::MAX);
-        self.completed.store(true, atomic::Ordering::SeqCst);
+        self.complete();
     }
 }
 
-- 
2.43.0


From 814def57da8e2d57034e527c1ee0a2099a665a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 04/11] fix: pulling a chunk of size zero does not complete a
 wrapped iterator

next_chunk(0) used to set the completed flag, and hence, ended the iteration.
---
 src/iter/implementors/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 7d8f6ab..14022f3 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -149,6 +149,10 @@ where
     }
 
     fn fetch_n(&self, n: usize) -> Option<NextChunk<T, impl ExactSizeIterator<Item = T>>> {
+        if n == 0 {
+            return None;
+        }
+
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-- 
2.43.0


From 4dd36e1688c4cfeb827d30d3c3edfb6aaa753781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 05/11] fix: a panicking wrapped iterator does not block the
 other threads

When next of the wrapped iterator unwound, the ticket was never handed off and
all other threads were waiting for it forever.
---
 src/iter/buffered/iter.rs     |  3 +++
 src/iter/implementors/iter.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 7de0b6d..bd03d72 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -35,6 +35,7 @@ where
         iter: &Self::ConIter,
         begin_idx: usize,
     ) -> Option<impl ExactSizeIterator<Item = T>> {
+        let guard = iter.complete_on_unwind();
         let core_iter = unsafe { iter.mut_iter() };
 
         let mut i = 0;
@@ -50,6 +51,8 @@ where
             }
         }
 
+        guard.disarm();
+
         if i < self.chunk_size() {
             iter.complete();
         }
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 14022f3..8f3e1c2 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -68,6 +68,30 @@ where
     pub(crate) fn complete(&self) {
         self.completed.store(true, atomic::Ordering::SeqCst);
     }
+
+    /// Creates a guard to be held while using the wrapped iterator.
+    /// If the wrapped iterator panics, its ticket will never be handed off; hence, the guard completes the iteration
+    /// in order to release the other threads waiting for their turns.
+    #[inline(always)]
+    pub(crate) fn complete_on_unwind(&self) -> CompleteOnUnwind<'_> {
+        CompleteOnUnwind(&self.completed)
+    }
+}
+
+/// Guard which marks the iteration as completed if it is dropped before being disarmed.
+pub(crate) struct CompleteOnUnwind<'a>(&'a AtomicBool);
+
+impl CompleteOnUnwind<'_> {
+    #[inline(always)]
+    pub(crate) fn disarm(self) {
+        std::mem::forget(self);
+    }
+}
+
+impl Drop for CompleteOnUnwind<'_> {
+    fn drop(&mut self) {
+        self.0.store(true, atomic::Ordering::SeqCst);
+    }
 }
 
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
@@ -126,7 +150,10 @@ where
                     }
 
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
+                    let guard = self.complete_on_unwind();
                     let next = unsafe { self.mut_iter() }.next();
+                    guard.disarm();
+
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
@@ -155,6 +182,7 @@ where
 
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
+            let guard = self.complete_on_unwind();
             let iter = unsafe { self.mut_iter() };
             let end_idx = begin_idx.saturating_add(n);
             let buffer = (begin_idx..end_idx)
@@ -162,6 +190,7 @@ where
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
+            guard.disarm();
 
             if buffer.len() < n {
                 self.complete();
-- 
2.43.0


From 46f939cf63f024eb1fc01e4dc3e2c26efc263b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 06/11] fix: buffer of a buffered iterator grows with the
 pulled elements

The buffer was allocated eagerly for the requested chunk size: creating a
buffered iterator with a huge chunk size panicked or exhausted the memory.
---
 src/iter/buffered/iter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index bd03d72..eeb998f 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -8,6 +8,7 @@ where
     T: Send + Sync,
     Iter: Iterator<Item = T>,
 {
+    chunk_size: usize,
     values: Vec<Option<T>>,
     phantom: PhantomData<Iter>,
 }
@@ -21,13 +22,14 @@ where
 
     fn new(chunk_size: usize) -> Self {
         Self {
-            values: (0..chunk_size).map(|_| None).collect(),
+            chunk_size,
+            values: Vec::new(),
             phantom: PhantomData,
         }
     }
 
     fn chunk_size(&self) -> usize {
-        self.values.len()
+        self.chunk_size
     }
 
     fn pull(
@@ -41,7 +43,10 @@ where
         let mut i = 0;
         loop {
             match core_iter.next() {
-                Some(x) => self.values[i] = Some(x),
+                Some(x) => match self.values.get_mut(i) {
+                    Some(slot) => *slot = Some(x),
+                    None => self.values.push(Some(x)),
+                },
                 None => break,
             }
 
-- 
2.43.0


From 0b19bccb848def9384cbbb64cb77c8156d1a61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 07/11] fix: exact size_hint of buffered chunks of wrapped
 iterators

The chunk is an ExactSizeIterator, but reported the default size_hint which
breaks its contract and any adaptor of the chunk relying on it.
---
 src/iter/buffered/iter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index eeb998f..041e926 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -103,6 +103,12 @@ impl<'a, T> Iterator for BufferedIter<'a, T> {
             None
         }
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.initial_len - self.current_idx;
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> ExactSizeIterator for BufferedIter<'a, T> {
-- 
2.43.0


From cc6dc90ea58af3e1d4cc36c3178de385afc2399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 08/11] fix: no overflows in ranges with bounds close to
 usize::MAX

Single and chunk pulls past the end, huge chunk sizes and into_seq_iter of an
exhausted range computed values beyond the end of the range, which overflow:
panic in debug builds, wrapped around values in release builds.
---
 src/iter/buffered/range.rs     | 4 +++-
 src/iter/implementors/range.rs | 9 ++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 8d6fee0..2bca5a5 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -41,7 +41,9 @@ where
         let begin_value = begin_idx + range.start.into();
         match begin_value.cmp(&range.end.into()) {
             Ordering::Less => {
-                let end_value = (begin_value + self.chunk_size).min(range.end.into());
+                let end_value = begin_value
+                    .saturating_add(self.chunk_size)
+                    .min(range.end.into());
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(values)
             }
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 6839d66..8535b91 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -105,9 +105,8 @@ where
     }
 
     fn get(&self, item_idx: usize) -> Option<Idx> {
-        let value = self.range.start + item_idx.into();
-        match value.cmp(&self.range.end) {
-            Ordering::Less => Some(value),
+        match item_idx.cmp(&self.initial_len()) {
+            Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
         }
     }
@@ -119,7 +118,7 @@ where
             .unwrap_or(self.initial_len());
         let begin_value = begin_idx + self.range.start.into();
         let end_value = match begin_value.cmp(&self.range.end.into()) {
-            Ordering::Less => (begin_value + n).min(self.range.end.into()),
+            Ordering::Less => begin_value.saturating_add(n).min(self.range.end.into()),
             _ => begin_value,
         };
         let end_idx: usize = end_value - self.range.start.into();
@@ -243,7 +242,7 @@ where
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
+        let current = self.counter().current().min(self.initial_len());
         (self.range.start + current.into())..self.range.end
     }
 
-- 
2.43.0


From 087490d235c09c1872fb8b4d112e923c03e2f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 09/11] fix: move elements out of consumed vectors and arrays
 soundly

Chunks and remainders were created by Vec::from_raw_parts over sub-ranges of
the live storage with zero capacity, which violates its documented
preconditions (abort in debug builds) and never released the buffer of the
consumed vector. Chunks are now iterators owning their elements in place,
remaining elements are moved to the front of the very vector (or to a new
vector for arrays), and concurrent exclusive references to the storage are
avoided.
---
 src/iter/implementors/array.rs       | 39 +++++++++-------
 src/iter/implementors/mod.rs         |  1 +
 src/iter/implementors/owned_chunk.rs | 68 ++++++++++++++++++++++++++++
 src/iter/implementors/vec.rs         | 42 ++++++++++-------
 4 files changed, 117 insertions(+), 33 deletions(-)
 create mode 100644 src/iter/implementors/owned_chunk.rs

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index f9b4b72..6e4df61 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -1,3 +1,4 @@
+use super::owned_chunk::OwnedChunk;
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
@@ -39,9 +40,12 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         }
     }
 
+    fn array_ptr(&self) -> *mut T {
+        self.array.get().cast()
+    }
+
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let array = &mut *self.array.get();
-        let src_ptr = array.as_mut_ptr().add(item_idx);
+        let src_ptr = self.array_ptr().add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
@@ -54,26 +58,28 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let array = &mut *self.array.get();
-        let end_idx = begin_idx.saturating_add(len).min(array.len());
+    ) -> OwnedChunk<'_, T> {
+        let end_idx = begin_idx.saturating_add(len).min(N);
         let len = end_idx - begin_idx;
 
-        let ptr = array.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        let ptr = self.array_ptr().add(begin_idx);
+        OwnedChunk::new(ptr, len)
     }
 
+    /// Moves out the elements on the right of the first `left_len` elements that are already taken.
+    ///
+    /// # Safety
+    ///
+    /// `self` must not be used, or dropped, after this call.
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
         debug_assert!(left_len <= N);
 
-        let man_array = &mut *self.array.get();
-        let mut array = ManuallyDrop::take(man_array);
-
-        let mut vec = Vec::from_raw_parts(array.as_mut_ptr(), N, 0);
-        let right_vec = vec.split_off(left_len);
+        let right_len = N - left_len;
+        let mut right_vec = Vec::with_capacity(right_len);
+        let dst_ptr: *mut T = right_vec.as_mut_ptr();
 
-        *man_array = ManuallyDrop::new(array);
+        dst_ptr.copy_from_nonoverlapping(self.array_ptr().add(left_len), right_len);
+        right_vec.set_len(right_len);
         right_vec
     }
 }
@@ -185,8 +191,9 @@ impl<const N: usize, T: Send + Sync> ConcurrentIter for ConIterOfArray<N, T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(N)) };
+        let this = ManuallyDrop::new(self);
+        let current = this.counter().current();
+        let remaining_vec = unsafe { this.split_off_right(current.min(N)) };
         remaining_vec.into_iter()
     }
 
diff --git a/src/iter/implementors/mod.rs b/src/iter/implementors/mod.rs
index c6dc775..52b9a1a 100644
--- a/src/iter/implementors/mod.rs
+++ b/src/iter/implementors/mod.rs
@@ -1,5 +1,6 @@
 pub mod array;
 pub mod iter;
+pub(crate) mod owned_chunk;
 pub mod range;
 pub mod slice;
 pub mod vec;
diff --git a/src/iter/implementors/owned_chunk.rs b/src/iter/implementors/owned_chunk.rs
new file mode 100644
index 0000000..1b255ec
--- /dev/null
+++ b/src/iter/implementors/owned_chunk.rs
@@ -0,0 +1,68 @@
+use std::marker::PhantomData;
+
+/// An iterator over a chunk of elements which are moved out of the storage of a consuming concurrent iterator.
+///
+/// Elements of the chunk which are not consumed are dropped together with the chunk; the storage itself is left untouched.
+pub(crate) struct OwnedChunk<'a, T> {
+    ptr: *mut T,
+    current_idx: usize,
+    len: usize,
+    phantom: PhantomData<(&'a (), T)>,
+}
+
+impl<'a, T> OwnedChunk<'a, T> {
+    /// Creates a chunk iterator owning the `len` elements starting at `ptr`.
+    ///
+    /// # Safety
+    ///
+    /// The elements must be initialized, must not be accessed through any other means afterwards, and the storage that
+    /// they live in must outlive `'a`.
+    pub(crate) unsafe fn new(ptr: *mut T, len: usize) -> Self {
+        Self {
+            ptr,
+            current_idx: 0,
+            len,
+            phantom: PhantomData,
+        }
+    }
+}
+
+impl<T> Iterator for OwnedChunk<'_, T> {
+    type Item = T;
+
+    #[inline]
+    fn next(&mut self) -> Option<Self::Item> {
+        match self.current_idx < self.len {
+            true => {
+                let idx = self.current_idx;
+                self.current_idx += 1;
+                // SAFETY: the element is owned by this chunk and will not be accessed again
+                Some(unsafe { self.ptr.add(idx).read() })
+            }
+            false => None,
+        }
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len - self.current_idx;
+        (len, Some(len))
+    }
+}
+
+impl<T> ExactSizeIterator for OwnedChunk<'_, T> {}
+
+impl<T> Drop for OwnedChunk<'_, T> {
+    fn drop(&mut self) {
+        let len = self.len - self.current_idx;
+        // SAFETY: remaining elements are owned by this chunk and will not be accessed again
+        unsafe {
+            let ptr = self.ptr.add(self.current_idx);
+            std::ptr::slice_from_raw_parts_mut(ptr, len).drop_in_place();
+        }
+    }
+}
+
+unsafe impl<T: Send> Send for OwnedChunk<'_, T> {}
+
+unsafe impl<T: Sync> Sync for OwnedChunk<'_, T> {}
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index f2c0bb1..26b9550 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -1,3 +1,4 @@
+use super::owned_chunk::OwnedChunk;
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
@@ -22,10 +23,8 @@ pub struct ConIterOfVec<T: Send + Sync> {
 
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= self.vec_len {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let current = self.counter().current().min(self.vec_len);
+        let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
     }
 }
 
@@ -40,8 +39,8 @@ impl<T: Send + Sync> ConIterOfVec<T> {
     }
 
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let vec = &mut *self.vec.get();
-        let src_ptr = vec.as_mut_ptr().add(item_idx);
+        let vec = &*self.vec.get();
+        let src_ptr = vec.as_ptr().add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
@@ -54,24 +53,32 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let vec = &mut *self.vec.get();
+    ) -> OwnedChunk<'_, T> {
+        let vec = &*self.vec.get();
         let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
-        let ptr = vec.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        let ptr = vec.as_ptr().add(begin_idx).cast_mut();
+        OwnedChunk::new(ptr, len)
     }
 
+    /// Takes out the vector, keeping only the elements on the right of the first `left_len` elements that are already taken.
+    ///
+    /// # Safety
+    ///
+    /// `self` must not be used, or dropped, after this call.
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
         debug_assert!(left_len <= self.vec_len);
 
         let man_vec = &mut *self.vec.get();
-        let mut left_vec: Vec<T> = ManuallyDrop::take(man_vec);
-        let right_vec = left_vec.split_off(left_len);
-        *man_vec = ManuallyDrop::new(left_vec);
-        right_vec
+        let mut vec: Vec<T> = ManuallyDrop::take(man_vec);
+        let right_len = self.vec_len - left_len;
+
+        vec.set_len(0);
+        let ptr = vec.as_mut_ptr();
+        ptr.copy_from(ptr.add(left_len), right_len);
+        vec.set_len(right_len);
+        vec
     }
 }
 
@@ -181,8 +188,9 @@ impl<T: Send + Sync> ConcurrentIter for ConIterOfVec<T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(self.vec_len)) };
+        let this = ManuallyDrop::new(self);
+        let current = this.counter().current();
+        let remaining_vec = unsafe { this.split_off_right(current.min(this.vec_len)) };
         remaining_vec.into_iter()
     }
 
-- 
2.43.0


From aed38e21c646da291b81dbed13a86b2ede674703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 10/11] fix: drop elements of consumed collections skipped by
 skip_to_end

Elements which were not yet pulled by the time skip_to_end is called on a
consuming iterator of a vector or an array were never dropped.
---
 src/iter/atomic_counter.rs     | 6 ++++++
 src/iter/implementors/array.rs | 6 +++++-
 src/iter/implementors/vec.rs   | 6 +++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index cc86801..d9502dc 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -43,6 +43,12 @@ impl AtomicCounter {
         self.current.load(Ordering::Acquire)
     }
 
+    /// Fetches and returns the current value of the counter, and replaces it with the given `new_value`.
+    #[inline(always)]
+    pub(crate) fn swap(&self, new_value: usize) -> usize {
+        self.current.swap(new_value, Ordering::SeqCst)
+    }
+
     /// Updates the value of the current value of the counter as the given `new_value`.
     #[inline(always)]
     pub fn store(&self, new_value: usize) {
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 6e4df61..1bc0dfc 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -131,7 +131,11 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(N)
+        let current = self.counter().swap(N);
+        if current < N {
+            // SAFETY: remaining elements are reserved by the swap, no other thread can access them
+            drop(unsafe { self.take_slice(current, N) });
+        }
     }
 }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 26b9550..e780210 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -131,7 +131,11 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.vec_len)
+        let current = self.counter().swap(self.vec_len);
+        if current < self.vec_len {
+            // SAFETY: remaining elements are reserved by the swap, no other thread can access them
+            drop(unsafe { self.take_slice(current, self.vec_len) });
+        }
     }
 }
 
-- 
2.43.0


From de5eeca3abee3af592d672a41248d40774d52a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 11/11] fix: low-level element access is not reachable from
 safe code

AtomicIter::get and BufferedChunk::pull hand out the element at any requested
index without a reservation, and AtomicCounter::store allows for rewinding the
position of an iterator: safe code could obtain two owners of one element.
Former two methods are unsafe now, the latter is crate private.
---
 src/iter/atomic_counter.rs                 |  2 +-
 src/iter/atomic_iter.rs                    | 10 ++++++++--
 src/iter/buffered/array.rs                 |  2 +-
 src/iter/buffered/buffered_chunk.rs        |  7 ++++++-
 src/iter/buffered/buffered_iter.rs         |  4 ++--
 src/iter/buffered/cloned_buffered_chunk.rs |  2 +-
 src/iter/buffered/copied_buffered_chunk.rs |  2 +-
 src/iter/buffered/iter.rs                  |  2 +-
 src/iter/buffered/range.rs                 |  2 +-
 src/iter/buffered/slice.rs                 |  2 +-
 src/iter/buffered/vec.rs                   |  2 +-
 src/iter/cloned.rs                         |  2 +-
 src/iter/copied.rs                         |  2 +-
 src/iter/implementors/array.rs             |  2 +-
 src/iter/implementors/iter.rs              |  2 +-
 src/iter/implementors/range.rs             |  2 +-
 src/iter/implementors/slice.rs             |  2 +-
 src/iter/implementors/vec.rs               |  2 +-
 18 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index d9502dc..3575b6e 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -51,7 +51,7 @@ impl AtomicCounter {
 
     /// Updates the value of the current value of the counter as the given `new_value`.
     #[inline(always)]
-    pub fn store(&self, new_value: usize) {
+    pub(crate) fn store(&self, new_value: usize) {
         self.current.store(new_value, Ordering::SeqCst)
     }
 }
diff --git a/src/iter/atomic_iter.rs b/src/iter/atomic_iter.rs
index 8ddef85..24fce3b 100644
--- a/src/iter/atomic_iter.rs
+++ b/src/iter/atomic_iter.rs
@@ -15,13 +15,19 @@ pub trait AtomicIter<T: Send + Sync>: Send + Sync {
     fn progress_and_get_begin_idx(&self, number_to_fetch: usize) -> Option<usize>;
 
     /// Returns the `item_idx`-th item that the iterator yields; returns None if the iterator completes before.
-    fn get(&self, item_idx: usize) -> Option<T>;
+    ///
+    /// # Safety
+    ///
+    /// The `item_idx` must be reserved by the caller through the atomic counter, and must be used only once:
+    /// consuming iterators move the element out.
+    unsafe fn get(&self, item_idx: usize) -> Option<T>;
 
     /// Returns the next item that the iterator yields; returns None if the iteration has completed.
     #[inline(always)]
     fn fetch_one(&self) -> Option<Next<T>> {
         let idx = self.counter().fetch_and_increment();
-        self.get(idx).map(|value| Next { idx, value })
+        // SAFETY: idx is uniquely reserved by the counter
+        unsafe { self.get(idx) }.map(|value| Next { idx, value })
     }
 
     /// Returns an iterator of the next `n` **consecutive items** that the iterator yields.
diff --git a/src/iter/buffered/array.rs b/src/iter/buffered/array.rs
index 0923147..6710ea4 100644
--- a/src/iter/buffered/array.rs
+++ b/src/iter/buffered/array.rs
@@ -24,7 +24,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/buffered_chunk.rs b/src/iter/buffered/buffered_chunk.rs
index 6b9f16b..19bd26b 100644
--- a/src/iter/buffered/buffered_chunk.rs
+++ b/src/iter/buffered/buffered_chunk.rs
@@ -7,7 +7,12 @@ pub trait BufferedChunk<T: Send + Sync> {
 
     fn chunk_size(&self) -> usize;
 
-    fn pull(
+    /// Pulls the chunk starting at `begin_idx` from the `iter`.
+    ///
+    /// # Safety
+    ///
+    /// The `begin_idx` must be obtained by reserving `chunk_size` elements of the `iter`, and must be used only once.
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/buffered_iter.rs b/src/iter/buffered/buffered_iter.rs
index 6dd2efa..b362032 100644
--- a/src/iter/buffered/buffered_iter.rs
+++ b/src/iter/buffered/buffered_iter.rs
@@ -35,8 +35,8 @@ where
         self.atomic_iter
             .progress_and_get_begin_idx(self.buffered_iter.chunk_size())
             .and_then(|begin_idx| {
-                self.buffered_iter
-                    .pull(self.atomic_iter, begin_idx)
+                // SAFETY: begin_idx is uniquely reserved by the counter
+                unsafe { self.buffered_iter.pull(self.atomic_iter, begin_idx) }
                     .map(|values| NextChunk { begin_idx, values })
             })
     }
diff --git a/src/iter/buffered/cloned_buffered_chunk.rs b/src/iter/buffered/cloned_buffered_chunk.rs
index 9bfefb3..ece99c2 100644
--- a/src/iter/buffered/cloned_buffered_chunk.rs
+++ b/src/iter/buffered/cloned_buffered_chunk.rs
@@ -29,7 +29,7 @@ where
         self.chunk.chunk_size()
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/copied_buffered_chunk.rs b/src/iter/buffered/copied_buffered_chunk.rs
index 2c05f41..f460d94 100644
--- a/src/iter/buffered/copied_buffered_chunk.rs
+++ b/src/iter/buffered/copied_buffered_chunk.rs
@@ -29,7 +29,7 @@ where
         self.chunk.chunk_size()
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 041e926..e6937c0 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -32,7 +32,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 2bca5a5..9780c31 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -32,7 +32,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 859989b..95660f6 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -24,7 +24,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/vec.rs b/src/iter/buffered/vec.rs
index 9857166..df33147 100644
--- a/src/iter/buffered/vec.rs
+++ b/src/iter/buffered/vec.rs
@@ -24,7 +24,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/cloned.rs b/src/iter/cloned.rs
index 4977889..73195c8 100644
--- a/src/iter/cloned.rs
+++ b/src/iter/cloned.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).cloned()
     }
 
diff --git a/src/iter/copied.rs b/src/iter/copied.rs
index 35f7841..95d0db5 100644
--- a/src/iter/copied.rs
+++ b/src/iter/copied.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).copied()
     }
 
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 1bc0dfc..71e0205 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -106,7 +106,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&N) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 8f3e1c2..199c898 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -139,7 +139,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 8535b91..3cfc9e9 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -104,7 +104,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<Idx> {
+    unsafe fn get(&self, item_idx: usize) -> Option<Idx> {
         match item_idx.cmp(&self.initial_len()) {
             Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 039b02c..22e41a6 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -65,7 +65,7 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<&'a T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<&'a T> {
         self.slice.get(item_idx)
     }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index e780210..5160e97 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -104,7 +104,7 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&self.vec_len) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
-- 
2.43.0

