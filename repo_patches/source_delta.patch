From ec66975adacc148073dc02b061cf0623c3ecd36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:52 +0000
Subject: [PATCH 01/13] fix: erase_all left the cache describing the flash
 contents from before the erase

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 37fb23a..3985b78 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,9 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
     ///
     /// This is just a thin helper function as it just calls the flash's erase function.
     pub async fn erase_all(&mut self) -> Result<(), Error<S::Error>> {
+        // Nothing the cache knows is true anymore once the erase starts
+        self.cache.invalidate_cache_state();
+
         self.flash
             .erase(self.flash_range.start, self.flash_range.end)
             .await
-- 
2.43.0


From 871dd776095f19146feb188ac12c6bf8fea7d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 02/13] fix: remove_item trusted a cache left dirty by a
 cancelled or failed operation

---
 src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 88a4bda..f7a1a19 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -630,6 +630,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     where
         S: MultiwriteNorFlash,
     {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         if let Some(key) = &search_key {
             self.inner.cache.notice_key_erased(key);
         } else {
-- 
2.43.0


From 3e532f8b953f72e26c888665be000e62fe556f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:43 +0000
Subject: [PATCH 03/13] fix: fetch_all_items trusted a cache left dirty by a
 cancelled or failed operation

---
 src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index f7a1a19..857b059 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -789,6 +789,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         // Get the first page index.
         // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-- 
2.43.0


From 61c7d64bd5251ce136b76748983fa5d936c26407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:53 +0000
Subject: [PATCH 04/13] fix: the map item iterator silently skipped a page when
 reading its state failed

---
 src/map.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 857b059..64b01fa 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1090,21 +1090,24 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
 
             // The current page is done, we need to find the next page
             // Find next page which is not open, update `self.current_iter`
+            // Only move on once the next page is known, so that an error here doesn't make us skip a page
+            let mut next_page_index = self.current_page_index;
             loop {
-                self.current_page_index = self.storage.inner.next_page(self.current_page_index);
+                next_page_index = self.storage.inner.next_page(next_page_index);
 
                 // We've looped back to the first page, which means all pages are checked, there's nothing left so we return None
-                if self.current_page_index == self.first_page {
+                if next_page_index == self.first_page {
                     return Ok(None);
                 }
 
                 match self
                     .storage
                     .inner
-                    .get_page_state_cached(self.current_page_index)
+                    .get_page_state_cached(next_page_index)
                     .await
                 {
                     Ok(PageState::Closed | PageState::PartialOpen) => {
+                        self.current_page_index = next_page_index;
                         self.current_iter = ItemIter::new(
                             calculate_page_address::<S>(
                                 self.storage.inner.flash_range.clone(),
@@ -1117,7 +1120,8 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
                         );
                         break;
                     }
-                    _ => continue,
+                    Ok(PageState::Open) | Err(Error::Corrupted { .. }) => continue,
+                    Err(e) => return Err(e),
                 }
             }
         };
-- 
2.43.0


From 2683a3e04cc3445bea34b6f204df9cd2cbe33b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:43 +0000
Subject: [PATCH 05/13] fix: iterating over items skipped an item when reading
 its data failed or was cancelled

---
 src/item.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 373ed90..48d1d18 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -587,11 +587,17 @@ impl ItemIter {
     ) -> Result<Option<(Item<'d>, u32)>, Error<S::Error>> {
         let mut data_buffer = Some(data_buffer);
         while let (Some(header), address) = self.header.next(flash).await? {
+            // Stay on this item until it has been read. If that fails (or is cancelled), the item can still be retried
+            let next_address = core::mem::replace(&mut self.header.current_address, address);
+
             let buffer = data_buffer.take().unwrap();
-            match header
+            let item = header
                 .read_item(flash, buffer, address, self.header.end_address)
-                .await?
-            {
+                .await?;
+
+            self.header.current_address = next_address;
+
+            match item {
                 MaybeItem::Corrupted(_, buffer) | MaybeItem::Erased(_, buffer) => {
                     data_buffer.replace(buffer);
                 }
-- 
2.43.0


From 2828379649c732a845968d76f2b0dc98e76d1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 06/13] fix: find_max_fit reported sizes that can't be pushed
 and failed on single page queues

---
 src/queue/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ac65308..bc7fb99 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -353,19 +353,27 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
         let current_page = self.find_youngest_page().await?;
 
+        // An item always needs room for its header and can't be longer than the length field can express
+        let max_fit = |free_space: u32| {
+            ItemHeader::available_data_bytes::<S>(free_space)
+                .map(|available| available.min(u32::from(u16::MAX)))
+        };
+
         // Check if we have space on the next page
         let next_page = self.inner.next_page(current_page);
         match self.inner.get_page_state_cached(next_page).await? {
             state @ PageState::Closed => {
                 if self.inner.is_page_empty(next_page, Some(state)).await? {
                     self.inner.cache.unmark_dirty();
-                    return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                    return Ok(max_fit(calculate_page_size::<S>() as u32));
                 }
             }
             PageState::Open => {
                 self.inner.cache.unmark_dirty();
-                return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                return Ok(max_fit(calculate_page_size::<S>() as u32));
             }
+            // There's only a single page, so the 'next' page is the current page
+            PageState::PartialOpen if next_page == current_page => {}
             PageState::PartialOpen => {
                 // This should never happen
                 return Err(Error::Corrupted {
@@ -398,9 +406,7 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         };
 
         self.inner.cache.unmark_dirty();
-        Ok(ItemHeader::available_data_bytes::<S>(
-            page_data_end_address - next_item_address,
-        ))
+        Ok(max_fit(page_data_end_address - next_item_address))
     }
 
     /// Calculate how much space is left free in the queue (in bytes).
-- 
2.43.0


From fbee85b11c2c82d8b4171ffb62d716c22fe2751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:36 +0000
Subject: [PATCH 07/13] fix: the buffered queues reported a too small buffer as
 an empty ring

---
 src/queue/buffered.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d203068..e078c2c 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -140,6 +140,14 @@ impl<const N: usize> RamRing<N> {
         Some(&buf[..len])
     }
 
+    /// Same as [`Self::peek_into`], but a `buf` that is too small is an error instead of `None`.
+    fn try_peek_into<'b, E>(&self, buf: &'b mut [u8]) -> Result<Option<&'b [u8]>, Error<E>> {
+        match self.oldest_len() {
+            Some(len) if buf.len() < len => Err(Error::BufferTooSmall(len)),
+            _ => Ok(self.peek_into(buf)),
+        }
+    }
+
     /// Discard the oldest item without copying it. Does nothing if the ring is empty.
     pub fn discard_oldest(&mut self) {
         if let Some(len) = self.oldest_len() {
@@ -250,7 +258,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some(data) = self.ram.peek_into(scratch) else {
+        let Some(data) = self.ram.try_peek_into(scratch)? else {
             return Ok(false);
         };
         let len = data.len();
@@ -287,7 +295,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
+        let len = self.ram.try_peek_into(data_buffer)?.map(|s| s.len());
         if let Some(len) = len {
             self.ram.discard_oldest();
             return Ok(Some(&mut data_buffer[..len]));
@@ -311,7 +319,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
+        let len = self.ram.try_peek_into(data_buffer)?.map(|s| s.len());
         if let Some(len) = len {
             return Ok(Some(&mut data_buffer[..len]));
         }
@@ -440,9 +448,11 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self
-            .ring
-            .lock(|r| r.borrow().peek_into(scratch).map(|s| s.len()));
+        let len = self.ring.lock(|r| {
+            r.borrow()
+                .try_peek_into(scratch)
+                .map(|s| s.map(|s| s.len()))
+        })?;
         let Some(len) = len else {
             return Ok(false);
         };
-- 
2.43.0


From 430f03a801b1cdf51ae205529fc8940ff7863153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:38 +0000
Subject: [PATCH 08/13] fix: draining the shared ring dropped an undrained item
 when an enqueue evicted the item being drained

---
 src/queue/buffered.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index e078c2c..61658ae 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -47,6 +47,8 @@ struct RamRing<const N: usize> {
     /// Total bytes occupied (length prefixes + data).
     used: usize,
     item_count: usize,
+    /// Wrapping count of all items ever discarded. Identifies which item is currently the oldest.
+    discard_count: usize,
 }
 
 impl<const N: usize> RamRing<N> {
@@ -58,6 +60,7 @@ impl<const N: usize> RamRing<N> {
             write_pos: 0,
             used: 0,
             item_count: 0,
+            discard_count: 0,
         }
     }
 
@@ -154,6 +157,7 @@ impl<const N: usize> RamRing<N> {
             self.read_pos = (self.read_pos + 2 + len) % N;
             self.used -= 2 + len;
             self.item_count -= 1;
+            self.discard_count = self.discard_count.wrapping_add(1);
         }
     }
 
@@ -448,16 +452,23 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self.ring.lock(|r| {
-            r.borrow()
-                .try_peek_into(scratch)
-                .map(|s| s.map(|s| s.len()))
+        let (len, discard_count) = self.ring.lock(|r| {
+            let ring = r.borrow();
+            ring.try_peek_into(scratch)
+                .map(|s| (s.map(|s| s.len()), ring.discard_count))
         })?;
         let Some(len) = len else {
             return Ok(false);
         };
         storage.push(&scratch[..len], allow_overwrite).await?;
-        self.ring.lock(|r| r.borrow_mut().discard_oldest());
+        self.ring.lock(|r| {
+            let mut ring = r.borrow_mut();
+            // The item we pushed may have been evicted by an enqueue while we were writing it.
+            // Then the oldest item is a newer one that hasn't been drained yet.
+            if ring.discard_count == discard_count {
+                ring.discard_oldest();
+            }
+        });
         Ok(true)
     }
 
-- 
2.43.0


From ec1236216b5815459cd3f225582f3ce25e63cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:46 +0000
Subject: [PATCH 09/13] fix: the fallible config constructors panicked on a
 reversed range

---
 src/map.rs       | 2 +-
 src/queue/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 64b01fa..c5d67f6 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -45,7 +45,7 @@ impl<S: NorFlash> MapConfig<S> {
             return Err(MapConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 2 pages are used
-        if flash_range.end - flash_range.start < S::ERASE_SIZE as u32 * 2 {
+        if flash_range.end.saturating_sub(flash_range.start) < S::ERASE_SIZE as u32 * 2 {
             return Err(MapConfigError::RangeTooSmall);
         }
 
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index bc7fb99..6cf0c80 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -39,7 +39,7 @@ impl<S: NorFlash> QueueConfig<S> {
             return Err(QueueConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 1 page is used
-        if flash_range.end - flash_range.start < (S::ERASE_SIZE as u32) {
+        if flash_range.end.saturating_sub(flash_range.start) < (S::ERASE_SIZE as u32) {
             return Err(QueueConfigError::RangeTooSmall);
         }
 
-- 
2.43.0


From 6e8f21f802617194c4b838785011416f898c3f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 10/13] fix: a too small buffer for a heapless String key was
 reported as an invalid format

---
 src/heapless_09_impl.rs | 2 +-
 src/heapless_impl.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heapless_09_impl.rs b/src/heapless_09_impl.rs
index 43d11d6..49490ec 100644
--- a/src/heapless_09_impl.rs
+++ b/src/heapless_09_impl.rs
@@ -77,7 +77,7 @@ impl<LenType: heapless_09::LenType, const CAP: usize> Key for String<CAP, LenTyp
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
diff --git a/src/heapless_impl.rs b/src/heapless_impl.rs
index d22d487..b5dcc4b 100644
--- a/src/heapless_impl.rs
+++ b/src/heapless_impl.rs
@@ -78,7 +78,7 @@ impl<const CAP: usize> Key for String<CAP> {
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
-- 
2.43.0


From 2554a7738cd0a6c969ec046239cc3f6595a3caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:57 +0000
Subject: [PATCH 11/13] fix: a failed or cancelled pop through the iterator
 could lead to the unpopped item being erased

---
 src/queue/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 6cf0c80..9772a13 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -857,11 +857,6 @@ impl<'d, S: NorFlash, CI: CacheImpl<()>> QueueIteratorEntry<'_, 'd, '_, S, CI> {
     {
         let (header, item_data_buffer) = self.item.header_and_data_owned();
 
-        // We're popping ourself, so if all previous but us were popped, then now all are popped again
-        if self.iter.previous_item_states == PreviousItemStates::AllButCurrentPopped {
-            self.iter.previous_item_states = PreviousItemStates::AllPopped;
-        }
-
         header
             .erase_data(
                 &mut self.iter.storage.inner.flash,
@@ -871,6 +866,11 @@ impl<'d, S: NorFlash, CI: CacheImpl<()>> QueueIteratorEntry<'_, 'd, '_, S, CI> {
             )
             .await?;
 
+        // We're popping ourself, so if all previous but us were popped, then now all are popped again
+        if self.iter.previous_item_states == PreviousItemStates::AllButCurrentPopped {
+            self.iter.previous_item_states = PreviousItemStates::AllPopped;
+        }
+
         self.iter.storage.inner.cache.unmark_dirty();
         Ok(item_data_buffer)
     }
-- 
2.43.0


From 4a6814f81404f37eef817a09ca1f3d4306cca63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:09 +0000
Subject: [PATCH 12/13] fix: errors of the flash were ignored while looking for
 pages to repair

---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3985b78..110bbc0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,11 +81,10 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
         // Loop through the pages and get their state. If one returns the corrupted error,
         // the page is likely half-erased. Fix for that is to re-erase again to hopefully finish the job.
         for page_index in self.get_pages(0) {
-            if matches!(
-                self.get_page_state(page_index).await,
-                Err(Error::Corrupted { .. })
-            ) {
-                self.open_page(page_index).await?;
+            match self.get_page_state(page_index).await {
+                Ok(_) => {}
+                Err(Error::Corrupted { .. }) => self.open_page(page_index).await?,
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From d909aa9036376b8a7b18078e556b6ff827542c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:00 +0000
Subject: [PATCH 13/13] fix: fetch_all_items returned corruption errors without
 trying to repair

---
 src/map.rs | 90 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 46 insertions(+), 44 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index c5d67f6..062799a 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -794,51 +794,8 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         }
 
         // Get the first page index.
-        // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-            function = {
-                match self
-                    .inner
-                    .find_first_page(0, PageState::PartialOpen)
-                    .await?
-                {
-                    Some(last_used_page) => {
-                        // The next page of the `PartialOpen` page is the first page
-                        Ok(self.inner.next_page(last_used_page))
-                    }
-                    None => {
-                        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
-                        // If the page one before that is closed, then that's the last used page.
-                        if let Some(first_open_page) =
-                            self.inner.find_first_page(0, PageState::Open).await?
-                        {
-                            let previous_page = self.inner.previous_page(first_open_page);
-                            if self
-                                .inner
-                                .get_page_state_cached(previous_page)
-                                .await?
-                                .is_closed()
-                            {
-                                // The previous page is closed, so the first_open_page is what we want
-                                Ok(first_open_page)
-                            } else {
-                                // The page before the open page is not closed, so it must be open.
-                                // This means that all pages are open and that we don't have any items yet.
-                                self.inner.cache.unmark_dirty();
-                                Ok(0)
-                            }
-                        } else {
-                            // There are no open pages, so everything must be closed.
-                            // Something is up and this should never happen.
-                            // To recover, we will just erase all the flash.
-                            Err(Error::Corrupted {
-                                #[cfg(feature = "_test")]
-                                backtrace: std::backtrace::Backtrace::capture(),
-                            })
-                        }
-                    }
-                }
-            },
+            function = self.find_first_used_page().await,
             repair = self.try_repair(data_buffer).await?
         )?;
 
@@ -856,6 +813,51 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         })
     }
 
+    /// The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
+    async fn find_first_used_page(&mut self) -> Result<usize, Error<S::Error>> {
+        match self
+            .inner
+            .find_first_page(0, PageState::PartialOpen)
+            .await?
+        {
+            Some(last_used_page) => {
+                // The next page of the `PartialOpen` page is the first page
+                Ok(self.inner.next_page(last_used_page))
+            }
+            None => {
+                // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
+                // If the page one before that is closed, then that's the last used page.
+                if let Some(first_open_page) =
+                    self.inner.find_first_page(0, PageState::Open).await?
+                {
+                    let previous_page = self.inner.previous_page(first_open_page);
+                    if self
+                        .inner
+                        .get_page_state_cached(previous_page)
+                        .await?
+                        .is_closed()
+                    {
+                        // The previous page is closed, so the first_open_page is what we want
+                        Ok(first_open_page)
+                    } else {
+                        // The page before the open page is not closed, so it must be open.
+                        // This means that all pages are open and that we don't have any items yet.
+                        self.inner.cache.unmark_dirty();
+                        Ok(0)
+                    }
+                } else {
+                    // There are no open pages, so everything must be closed.
+                    // Something is up and this should never happen.
+                    // To recover, we will just erase all the flash.
+                    Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    })
+                }
+            }
+        }
+    }
+
     async fn migrate_items(
         &mut self,
         data_buffer: &mut [u8],
-- 
2.43.0

