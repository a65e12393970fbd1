From 924b85be0c9a88184a37467cd64d85632cda70f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 01/37] fix: remove_from_queue of the only element corrupted
 the queue's indices

---
 src/queues.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 7575a72..02d1331 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -262,24 +262,28 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
+        let Some(mut queue_bytes) = self.get_raw(&full_queue_key)? else {
+            return Ok(None);
+        };
+        let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        if idx < queue.head_idx || idx >= queue.tail_idx {
+            return Ok(None);
+        }
+
         let Some(val) = self.remove_raw(&self.make_queue_item_key(queue_key, idx as u64))? else {
             return Ok(None);
         };
 
-        if let Some(mut queue_bytes) = self.get_raw(&full_queue_key)? {
-            let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
-            if queue.head_idx == idx {
-                queue.head_idx += 1;
-            }
-            if queue.tail_idx == idx + 1 {
-                queue.tail_idx -= 1;
-            }
-            queue.num_items -= 1;
-            if queue.is_empty() {
-                self.remove_raw(&full_queue_key)?;
-            } else {
-                self.set_raw(&full_queue_key, &queue_bytes)?;
-            }
+        if queue.head_idx == idx {
+            queue.head_idx += 1;
+        } else if queue.tail_idx == idx + 1 {
+            queue.tail_idx -= 1;
+        }
+        queue.num_items -= 1;
+        if queue.is_empty() {
+            self.remove_raw(&full_queue_key)?;
+        } else {
+            self.set_raw(&full_queue_key, &queue_bytes)?;
         }
 
         Ok(Some(val))
-- 
2.43.0


From 90c91b6ca34269126035f2abd38437ad12ac28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 02/37] fix: replace_in_list compared the expected value with
 the item's index instead of its value

---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 51eefc5..f49ae19 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,7 +163,7 @@ impl CandyStore {
                 }
                 InsertMode::Replace(expected_val) => {
                     if let Some(expected_val) = expected_val {
-                        if expected_val != &existing_val[existing_val.len() - size_of::<u64>()..] {
+                        if expected_val != &existing_val[..existing_val.len() - size_of::<u64>()] {
                             existing_val.truncate(existing_val.len() - size_of::<u64>());
                             return Ok(InsertToListStatus::WrongValue(existing_val));
                         }
-- 
2.43.0


From c0624311638d2bc14c47a3b50e05aa2d3adbb8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 03/37] fix: merging shards deadlocked on uneven trees and
 reloaded live shards from disk

---
 src/router.rs | 106 ++++++++++++++------------------------------------
 1 file changed, 29 insertions(+), 77 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f0e819c..3a5d3b8 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -393,67 +393,35 @@ impl ShardRouter {
         }
     }
 
-    fn _merge(
-        &self,
-        bottom: &ShardRouter,
-        top: &ShardRouter,
-        max_fill: usize,
-        shards_to_remove: &mut u32,
-    ) -> Result<Option<ShardRouter>> {
-        if *shards_to_remove == 0 {
-            return Ok(None);
-        }
-
-        let bottom_guard = bottom.node.write();
-        let top_guard = top.node.write();
+    // merges what's under `node` in place, so that the shards which are not merged remain as they are
+    fn merge_node(node: &mut ShardNode, max_fill: usize, shards_to_remove: &mut u32) -> Result<()> {
+        let ShardNode::Vertex(bottom, top) = &*node else {
+            return Ok(());
+        };
 
-        match (&*bottom_guard, &*top_guard) {
-            (ShardNode::Leaf(b), ShardNode::Leaf(t)) => {
-                if b.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if t.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if let Some(sh) = Shard::merge(b, t)? {
-                    *shards_to_remove = *shards_to_remove - 1;
-                    let span = sh.span.clone();
-                    Ok(Some(ShardRouter {
-                        config: self.config.clone(),
-                        node: RwLock::new(ShardNode::Leaf(sh)),
-                        span,
-                        stats: self.stats.clone(),
-                        threadpool: self.threadpool.clone(),
-                    }))
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Leaf(_), ShardNode::Vertex(b, t)) => {
-                if let Some(merged_top) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(bottom, &merged_top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b, t), ShardNode::Leaf(_)) => {
-                if let Some(merged_bottom) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(&merged_bottom, top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b1, t1), ShardNode::Vertex(b2, t2)) => {
-                let m1 = self._merge(b1, t1, max_fill, shards_to_remove)?;
-                let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
-                match (m1, m2) {
-                    (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
-                    (Some(m1), None) => self._merge(&m1, top, max_fill, shards_to_remove),
-                    (None, Some(m2)) => self._merge(bottom, &m2, max_fill, shards_to_remove),
-                    (None, None) => Ok(None),
+        let merged = {
+            let mut bottom_guard = bottom.node.write();
+            let mut top_guard = top.node.write();
+            Self::merge_node(&mut bottom_guard, max_fill, shards_to_remove)?;
+            Self::merge_node(&mut top_guard, max_fill, shards_to_remove)?;
+
+            match (&*bottom_guard, &*top_guard) {
+                (ShardNode::Leaf(b), ShardNode::Leaf(t))
+                    if *shards_to_remove > 0
+                        && b.get_stats()?.num_items() <= max_fill
+                        && t.get_stats()?.num_items() <= max_fill =>
+                {
+                    Shard::merge(b, t)?
                 }
+                _ => None,
             }
+        };
+
+        if let Some(sh) = merged {
+            *shards_to_remove -= 1;
+            *node = ShardNode::Leaf(sh);
         }
+        Ok(())
     }
 
     pub(crate) fn merge_small_shards(&self, max_fill_level: f32) -> Result<bool> {
@@ -473,27 +441,11 @@ impl ShardRouter {
         if starting_num_shards <= needed_shards {
             return Ok(false);
         }
-        let mut shards_to_remove = starting_num_shards - needed_shards;
-
-        {
-            let mut guard = self.node.write();
-
-            match &*guard {
-                ShardNode::Leaf(_) => None,
-                ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)?
-                }
-            };
-
-            *guard = Self::treeify(
-                Self::load(&self.config, &self.stats, &self.threadpool)?,
-                &self.stats,
-                &self.threadpool,
-            );
-        }
+        let max_to_remove = starting_num_shards - needed_shards;
+        let mut shards_to_remove = max_to_remove;
 
-        let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
+        Self::merge_node(&mut self.node.write(), max_fill, &mut shards_to_remove)?;
 
-        Ok(new_num_shards != starting_num_shards)
+        Ok(shards_to_remove != max_to_remove)
     }
 }
-- 
2.43.0


From 8d796de77c06da029eaff35f98a0d42db8764941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 04/37] fix: splitting or merging a shard whose compaction had
 failed lost the compacted rows

---
 src/shard.rs | 68 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 6859359..03bb55b 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -533,13 +533,49 @@ impl Shard {
         Ok(())
     }
 
-    pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
-        let mut handle_guard = self.compaction_handle.lock();
+    fn filename(&self) -> PathBuf {
+        self.config.dir_path.join(format!(
+            "shard_{:04x}-{:04x}",
+            self.span.start, self.span.end
+        ))
+    }
+
+    fn compact_filename(&self) -> PathBuf {
+        self.config.dir_path.join(format!(
+            "compact_{:04x}-{:04x}",
+            self.span.start, self.span.end
+        ))
+    }
+
+    // waits for a running compaction, if there is one, and completes it if it had failed in the middle: until
+    // that's done, the items of the shard are spread over two files
+    fn finish_compaction(
+        &self,
+        handle_guard: &mut Option<TPHandle>,
+    ) -> Result<RwLockWriteGuard<(MmapFile, Option<MmapFile>)>> {
         if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
+            // if it failed, it's retried below
+            _ = handle.wait();
+        }
+
+        let mut files_guard = self.files.write();
+        if let Some(ref target) = files_guard.1 {
+            Self::do_compaction(
+                &self.row_locks,
+                &files_guard.0,
+                target,
+                &self.stats,
+                &self.config,
+            )?;
+            std::fs::rename(self.compact_filename(), self.filename())?;
+            files_guard.0 = files_guard.1.take().unwrap();
         }
+        Ok(files_guard)
+    }
 
-        let files_guard = self.files.write();
+    pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
+        let mut handle_guard = self.compaction_handle.lock();
+        let files_guard = self.finish_compaction(&mut handle_guard)?;
 
         let mid = (self.span.start + self.span.end) / 2;
 
@@ -632,8 +668,10 @@ impl Shard {
     }
 
     pub(crate) fn merge(bottom: &Shard, top: &Shard) -> Result<Option<Shard>> {
-        let bottom_files = bottom.files.write();
-        let top_files = top.files.write();
+        let mut bottom_handle = bottom.compaction_handle.lock();
+        let bottom_files = bottom.finish_compaction(&mut bottom_handle)?;
+        let mut top_handle = top.compaction_handle.lock();
+        let top_files = top.finish_compaction(&mut top_handle)?;
 
         let tmp_filename = bottom.config.dir_path.join(format!(
             "merge_{:04x}-{:04x}",
@@ -930,14 +968,8 @@ impl Shard {
         assert!(files_guard.1.is_none());
 
         let t0 = Instant::now();
-        let src_filename = self.config.dir_path.join(format!(
-            "shard_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target_filename = self.config.dir_path.join(format!(
-            "compact_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
+        let src_filename = self.filename();
+        let target_filename = self.compact_filename();
         let target = MmapFile::create(&target_filename, &self.config)?;
         target.header().compacted_up_to.store(0, Ordering::Release);
         files_guard.1 = Some(target);
@@ -1074,7 +1106,13 @@ impl Shard {
     }
 
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
-        self.wait_for_compaction()?;
+        {
+            let mut handle_guard = self.compaction_handle.lock();
+            if handle_guard.is_some() || self.files.read().1.is_some() {
+                // failing to complete it doesn't make the numbers unavailable
+                _ = self.finish_compaction(&mut handle_guard);
+            }
+        }
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
         Ok(ShardStats {
-- 
2.43.0


From 6cc56e17930e11f64737d405067a13eeac1d90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 05/37] fix: splitting a shard of a single selector deleted it

---
 src/router.rs | 16 +++++++++++++++-
 src/shard.rs  | 12 ++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 3a5d3b8..6ceb440 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -4,7 +4,7 @@ use std::{ops::Range, sync::Arc};
 
 use crate::shard::{CompactionThreadPool, InsertMode, InsertStatus, Shard};
 use crate::stats::InternalStats;
-use crate::Result;
+use crate::{CandyError, Result};
 use crate::{hashing::PartedHash, store::InternalConfig};
 
 fn consolidate_ranges(mut ranges: Vec<Range<u32>>) -> (Vec<Range<u32>>, Vec<Range<u32>>) {
@@ -365,6 +365,20 @@ impl ShardRouter {
                         continue;
                     };
 
+                    if !sh.can_split() {
+                        // all that can be done is reclaiming the shard's wasted space
+                        sh.compact_now()?;
+                        let res = sh.insert(ph, full_key, val, mode)?;
+                        ensure!(
+                            !matches!(res, InsertStatus::SplitNeeded),
+                            CandyError::EntryCannotFitInShard(
+                                full_key.len() + val.len(),
+                                self.config.max_shard_size as usize
+                            )
+                        );
+                        return Ok(res);
+                    }
+
                     let (bottom, top) = sh.split()?;
 
                     *guard = ShardNode::Vertex(
diff --git a/src/shard.rs b/src/shard.rs
index 03bb55b..352ef90 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -573,6 +573,18 @@ impl Shard {
         Ok(files_guard)
     }
 
+    pub(crate) fn can_split(&self) -> bool {
+        self.span.end - self.span.start > 1
+    }
+
+    // compacts the shard and waits for it
+    pub(crate) fn compact_now(&self) -> Result<()> {
+        drop(self.finish_compaction(&mut self.compaction_handle.lock())?);
+        self.begin_compaction(0)?;
+        drop(self.finish_compaction(&mut self.compaction_handle.lock())?);
+        Ok(())
+    }
+
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
         let mut handle_guard = self.compaction_handle.lock();
         let files_guard = self.finish_compaction(&mut handle_guard)?;
-- 
2.43.0


From 9917e8843bb695d4b712a0bf31d354632e981290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 06/37] fix: a shard whose compaction had failed was never
 compacted or split again

---
 src/shard.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 352ef90..b8dc6a7 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -573,6 +573,14 @@ impl Shard {
         Ok(files_guard)
     }
 
+    // true if a compaction failed in the middle, and nothing will complete it
+    fn compaction_stalled(&self) -> bool {
+        let Some(handle_guard) = self.compaction_handle.try_lock() else {
+            return false;
+        };
+        handle_guard.as_ref().map_or(true, |handle| handle.finished())
+    }
+
     pub(crate) fn can_split(&self) -> bool {
         self.span.end - self.span.start > 1
     }
@@ -1043,6 +1051,13 @@ impl Shard {
                     {
                         return Ok(InsertStatus::SplitNeeded);
                     }
+                } else if file.header().write_offset.load(Ordering::Relaxed)
+                    + (full_key.len() + val.len()) as u64
+                    > self.config.max_shard_size as u64
+                    && self.compaction_stalled()
+                {
+                    // splitting completes the compaction
+                    return Ok(InsertStatus::SplitNeeded);
                 }
 
                 let status = self.try_replace(file, row_guard, row, ph, &full_key, val, mode)?;
-- 
2.43.0


From e61d356587d459a3989f35cf2d9241e5b45b25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 07/37] fix: flush did not sync the target file of a running
 compaction

---
 src/shard.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index b8dc6a7..9aa26a4 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -529,7 +529,12 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        self.files.read().0.file.sync_data()?;
+        let files_guard = self.files.read();
+        files_guard.0.file.sync_data()?;
+        if let Some(ref target) = files_guard.1 {
+            // rows that were already compacted live in the target file
+            target.file.sync_data()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 5d2d53fa7d5ab10a975608a4a703d13e910736d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 08/37] fix: resuming a compaction brought back items removed
 since it was interrupted

---
 src/shard.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9aa26a4..14f501d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -485,7 +485,23 @@ impl Shard {
         stats: &InternalStats,
         config: &InternalConfig,
     ) -> Result<()> {
-        let mut first_row = true;
+        // if we're resuming a compaction, drop what had already been copied of the row it was at, as the source
+        // row may have changed since then
+        let resume_row = target.header().compacted_up_to.load(Ordering::Acquire);
+        if resume_row < NUM_ROWS {
+            target.row_mut(resume_row).signatures.fill(INVALID_SIG);
+            let num_items: usize = (0..resume_row)
+                .map(|row_idx| {
+                    let sigs = &target.row(row_idx).signatures;
+                    sigs.iter().filter(|&&sig| sig != INVALID_SIG).count()
+                })
+                .sum();
+            target.header().num_inserts.store(
+                target.header().num_removals.load(Ordering::Relaxed) + num_items as u64,
+                Ordering::Relaxed,
+            );
+        }
+
         loop {
             let row_idx = target.header().compacted_up_to.load(Ordering::Acquire);
             if row_idx >= NUM_ROWS {
@@ -504,7 +520,7 @@ impl Shard {
                 let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;
 
                 assert!(
-                    first_row || target_row.signatures[target_col] == INVALID_SIG,
+                    target_row.signatures[target_col] == INVALID_SIG,
                     "row={row_idx} col={target_col} sig={}",
                     target_row.signatures[target_col]
                 );
@@ -521,7 +537,6 @@ impl Shard {
                 .header()
                 .compacted_up_to
                 .fetch_add(1, Ordering::Release);
-            first_row = false;
         }
 
         Ok(())
-- 
2.43.0


From eb2cf3046bd2bca8db03f2bb760505d8a1c396a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 09/37] fix: crashing in the middle of an insert left the item
 uncounted

---
 src/shard.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 14f501d..fac84fe 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -527,9 +527,9 @@ impl Shard {
                 let ph = PartedHash::new(&config.hash_seed, &k);
                 assert_eq!(ph.row_selector(), row_idx);
                 target_row.offsets_and_sizes[target_col] = target.write_kv(&stats, &k, &v)?;
+                target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                 std::sync::atomic::fence(Ordering::SeqCst);
                 target_row.signatures[target_col] = ph.signature();
-                target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                 target_col += 1;
             }
 
@@ -1094,12 +1094,13 @@ impl Shard {
 
                             // we don't want a reorder to happen here - first write the offset, then the signature
                             row.offsets_and_sizes[idx] = new_off;
+                            // the item must be counted before it can be removed, lest the counters go out of order
+                            file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                             std::sync::atomic::fence(Ordering::SeqCst);
                             row.signatures[idx] = ph.signature();
                             if had_collision {
                                 self.stats.num_collisions.fetch_add(1, Ordering::Relaxed);
                             }
-                            file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                             #[cfg(feature = "flush_aggregation")]
                             {
                                 drop(_guard);
-- 
2.43.0


From abde07c30edaeb258270ebfc871fe1660c7b8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 10/37] fix: stats of a shard that's being modified could
 underflow

---
 src/shard.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index fac84fe..a59b8a2 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1163,11 +1163,15 @@ impl Shard {
         }
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
+        // items are removed (and their space is wasted) only after they're inserted, so for the numbers to be
+        // consistent while the shard is being modified, they need to be read the other way around
+        let num_removals = hdr.num_removals.load(Ordering::SeqCst) as usize;
+        let wasted_bytes = hdr.wasted_bytes.load(Ordering::SeqCst) as usize;
         Ok(ShardStats {
-            write_offset: hdr.write_offset.load(Ordering::Relaxed) as usize,
-            wasted_bytes: hdr.wasted_bytes.load(Ordering::Relaxed) as usize,
-            num_inserts: hdr.num_inserts.load(Ordering::Relaxed) as usize,
-            num_removals: hdr.num_removals.load(Ordering::Relaxed) as usize,
+            write_offset: hdr.write_offset.load(Ordering::SeqCst) as usize,
+            wasted_bytes,
+            num_inserts: hdr.num_inserts.load(Ordering::SeqCst) as usize,
+            num_removals,
         })
     }
 }
-- 
2.43.0


From 6a6d231c6ddaf704c5bdf520afed5af843cce1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 11/37] fix: flush aggregation deadlocked with the beginning or
 the end of a compaction

---
 src/shard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index a59b8a2..0ac6b22 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -544,7 +544,8 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        let files_guard = self.files.read();
+        // recursive, as flush aggregation gets here with the files already locked (for reading)
+        let files_guard = self.files.read_recursive();
         files_guard.0.file.sync_data()?;
         if let Some(ref target) = files_guard.1 {
             // rows that were already compacted live in the target file
-- 
2.43.0


From bbaece2ef61100c6fb8fc98114d38d798483b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 12/37] fix: flush aggregation reported success after another
 thread's sync had failed

---
 src/shard.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 0ac6b22..0c97ea7 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -343,7 +343,7 @@ pub(crate) struct Shard {
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
     #[cfg(feature = "flush_aggregation")]
-    sync_agg_mutex: parking_lot::Mutex<()>,
+    sync_agg_mutex: parking_lot::Mutex<bool>, // true if the last sync failed
     #[cfg(feature = "flush_aggregation")]
     in_sync_agg_delay: std::sync::atomic::AtomicBool,
 }
@@ -444,7 +444,7 @@ impl Shard {
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
             #[cfg(feature = "flush_aggregation")]
-            sync_agg_mutex: parking_lot::Mutex::new(()),
+            sync_agg_mutex: parking_lot::Mutex::new(false),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
         })
@@ -472,7 +472,7 @@ impl Shard {
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
             #[cfg(feature = "flush_aggregation")]
-            sync_agg_mutex: parking_lot::Mutex::new(()),
+            sync_agg_mutex: parking_lot::Mutex::new(false),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
         })
@@ -895,24 +895,26 @@ impl Shard {
             return Ok(());
         };
 
-        let do_sync = || {
+        let do_sync = |failed: &mut bool| {
             self.in_sync_agg_delay.store(true, Ordering::SeqCst);
             std::thread::sleep(delay);
             self.in_sync_agg_delay.store(false, Ordering::SeqCst);
-            self.flush()
+            let res = self.flush();
+            *failed = res.is_err();
+            res
         };
 
-        if let Some(_guard) = self.sync_agg_mutex.try_lock() {
+        if let Some(mut guard) = self.sync_agg_mutex.try_lock() {
             // we're the first ones here. wait for the aggregation duration and sync the file
-            do_sync()?;
+            do_sync(&mut guard)?;
         } else {
             // another thread is currently sync'ing, we're waiting in line. if the holder of the lock is in the
             // sleep (aggregation) phase, we can just wait for it to finish and return -- the other thread will
-            // have sync'ed us by the time we got the lock. otherwise, we'll need to sync as well
+            // have sync'ed us by the time we got the lock. otherwise (or if it failed), we'll need to sync as well
             let was_in_delay = self.in_sync_agg_delay.load(Ordering::Relaxed);
-            let _guard = self.sync_agg_mutex.lock();
-            if !was_in_delay {
-                do_sync()?;
+            let mut guard = self.sync_agg_mutex.lock();
+            if !was_in_delay || *guard {
+                do_sync(&mut guard)?;
             }
         }
         Ok(())
-- 
2.43.0


From 43843dca282b1ecb049ea15b9285f29ed275d207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 13/37] fix: crashing while removing a list item left it out of
 the list but still in the store

---
 src/lists.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f49ae19..86f3950 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -437,6 +437,16 @@ impl CandyStore {
         );
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
+        // remove item. this has to come first, as whatever comes after it may not happen if we crash
+        self.remove_raw(&item_key)?;
+
+        // remove chain
+        self.remove_raw(bytes_of(&ChainKey {
+            list_ph,
+            idx: item_idx,
+            namespace: CHAIN_NAMESPACE,
+        }))?;
+
         // update list, if the item was the head/tail
         if let Some(list_bytes) = self.get_raw(&list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
@@ -457,16 +467,6 @@ impl CandyStore {
             }
         }
 
-        // remove chain
-        self.remove_raw(bytes_of(&ChainKey {
-            list_ph,
-            idx: item_idx,
-            namespace: CHAIN_NAMESPACE,
-        }))?;
-
-        // remove item
-        self.remove_raw(&item_key)?;
-
         Ok(Some(existing_val))
     }
 
@@ -638,12 +638,12 @@ impl CandyStore {
             let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                 continue;
             };
+            self.remove_raw(&full_key)?;
             self.remove_raw(bytes_of(&ChainKey {
                 list_ph,
                 idx,
                 namespace: CHAIN_NAMESPACE,
             }))?;
-            self.remove_raw(&full_key)?;
         }
         self.remove_raw(&list_key)?;
 
-- 
2.43.0


From 2805b8c5d53f3abcd912df5c7c5e1ba8f87e68fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 14/37] fix: popping from a list returned a stale value if the
 item was concurrently updated

---
 src/lists.rs | 56 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 86f3950..7075339 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -425,8 +425,17 @@ impl CandyStore {
         let (_, item_key) = self.make_item_key(list_ph, item_key);
 
         let _guard = self.lock_list(list_ph);
+        self._remove_from_list(list_ph, &list_key, &item_key)
+    }
 
-        let Some(mut existing_val) = self.get_raw(&item_key)? else {
+    // the list must be locked
+    fn _remove_from_list(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        item_key: &[u8],
+    ) -> Result<Option<Vec<u8>>> {
+        let Some(mut existing_val) = self.get_raw(item_key)? else {
             return Ok(None);
         };
 
@@ -438,7 +447,7 @@ impl CandyStore {
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
         // remove item. this has to come first, as whatever comes after it may not happen if we crash
-        self.remove_raw(&item_key)?;
+        self.remove_raw(item_key)?;
 
         // remove chain
         self.remove_raw(bytes_of(&ChainKey {
@@ -448,7 +457,7 @@ impl CandyStore {
         }))?;
 
         // update list, if the item was the head/tail
-        if let Some(list_bytes) = self.get_raw(&list_key)? {
+        if let Some(list_bytes) = self.get_raw(list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
 
             list.num_items -= 1;
@@ -461,15 +470,36 @@ impl CandyStore {
                 }
             }
             if list.is_empty() {
-                self.remove_raw(&list_key)?;
+                self.remove_raw(list_key)?;
             } else {
-                self.set_raw(&list_key, bytes_of(&list))?;
+                self.set_raw(list_key, bytes_of(&list))?;
             }
         }
 
         Ok(Some(existing_val))
     }
 
+    fn _pop_list(&self, list_key: Vec<u8>, fwd: bool) -> Result<Option<KVPair>> {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+
+        let Some(list_bytes) = self.get_raw(&list_key)? else {
+            return Ok(None);
+        };
+        let list = *from_bytes::<List>(&list_bytes);
+        let mut range = list.head_idx..list.tail_idx;
+        while let Some(idx) = if fwd { range.next() } else { range.next_back() } {
+            let Some((_, mut k, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
+                continue;
+            };
+            if let Some(v) = self._remove_from_list(list_ph, &list_key, &k)? {
+                k.truncate(k.len() - size_of::<PartedHash>() - ITEM_NAMESPACE.len());
+                return Ok(Some((k, v)));
+            }
+        }
+        Ok(None)
+    }
+
     fn get_from_list_at_index(
         &self,
         list_ph: PartedHash,
@@ -683,13 +713,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, true)
     }
 
     /// Removes and returns the last (tail) element of the list
@@ -699,13 +723,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, false)
     }
 
     /// Returns the estimated list length
-- 
2.43.0


From 8ac540c38f72be1a03545ba2cd85b6de17d0cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 15/37] fix: a push to a queue that failed in the middle
 changed the queue's length and range

---
 src/queues.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 02d1331..e146e74 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -115,20 +115,17 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
-        let status = self.get_or_create_raw(
-            &full_queue_key,
-            bytes_of(&Queue {
-                head_idx: Self::FIRST_QUEUE_IDX,
-                tail_idx: Self::FIRST_QUEUE_IDX + 1,
-                num_items: 1,
-            })
-            .to_owned(),
-        )?;
-
-        let item_idx = match status {
-            crate::GetOrCreateStatus::CreatedNew(_) => Self::FIRST_QUEUE_IDX,
-            crate::GetOrCreateStatus::ExistingValue(mut queue_bytes) => {
-                let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        let (queue, item_idx) = match self.get_raw(&full_queue_key)? {
+            None => (
+                Queue {
+                    head_idx: Self::FIRST_QUEUE_IDX,
+                    tail_idx: Self::FIRST_QUEUE_IDX + 1,
+                    num_items: 1,
+                },
+                Self::FIRST_QUEUE_IDX,
+            ),
+            Some(queue_bytes) => {
+                let mut queue = *from_bytes::<Queue>(&queue_bytes);
                 let item_idx = match pos {
                     QueuePos::Head => {
                         queue.head_idx -= 1;
@@ -141,12 +138,13 @@ impl CandyStore {
                     }
                 };
                 queue.num_items += 1;
-                self.set_raw(&full_queue_key, &queue_bytes)?;
-                item_idx
+                (queue, item_idx)
             }
         };
 
+        // it's the update of the queue that makes the item a part of it, so it comes last
         self.set_raw(&self.make_queue_item_key(queue_key, item_idx), val)?;
+        self.set_raw(&full_queue_key, bytes_of(&queue))?;
         Ok(item_idx as usize)
     }
 
-- 
2.43.0


From 3f5837d61fdb121bd9a4c37172c314e938ea3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 16/37] fix: extend_queue that failed in the middle left an
 empty queue behind

---
 src/queues.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index e146e74..f4014b3 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -334,19 +334,14 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
-        let mut queue_bytes = &mut self
-            .get_or_create_raw(
-                &full_queue_key,
-                bytes_of(&Queue {
-                    head_idx: Self::FIRST_QUEUE_IDX,
-                    tail_idx: Self::FIRST_QUEUE_IDX,
-                    num_items: 0,
-                })
-                .to_owned(),
-            )?
-            .value();
-
-        let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        let mut queue = match self.get_raw(&full_queue_key)? {
+            Some(queue_bytes) => *from_bytes::<Queue>(&queue_bytes),
+            None => Queue {
+                head_idx: Self::FIRST_QUEUE_IDX,
+                tail_idx: Self::FIRST_QUEUE_IDX,
+                num_items: 0,
+            },
+        };
 
         let first_idx = queue.tail_idx;
         for item in items {
@@ -359,7 +354,7 @@ impl CandyStore {
         }
 
         let indices = first_idx as usize..queue.tail_idx as usize;
-        self.set_raw(&full_queue_key, &queue_bytes)?;
+        self.set_raw(&full_queue_key, bytes_of(&queue))?;
 
         Ok(indices)
     }
-- 
2.43.0


From c23b3c05843686ddbb692bcd182a4d4b5370be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 17/37] fix: a rejected insertion to a list changed the list

---
 src/lists.rs |  6 ++++++
 src/store.rs | 30 ++++++++++++++++++------------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 7075339..0dbff52 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -186,6 +186,9 @@ impl CandyStore {
             return Ok(InsertToListStatus::DoesNotExist);
         }
 
+        // if the item is going to be rejected, it has to be before the list is modified
+        self.ensure_entry_size(&item_key, val.len() + size_of::<u64>())?;
+
         // get of create the list
         let res = self.get_or_create_raw(
             &list_key,
@@ -297,6 +300,9 @@ impl CandyStore {
         promote: bool,
     ) -> Result<SetStatus> {
         if promote {
+            let (list_ph, _) = self.make_list_key(list_key.clone());
+            let (_, full_item_key) = self.make_item_key(list_ph, item_key.clone());
+            self.ensure_entry_size(&full_item_key, val.len() + size_of::<u64>())?;
             self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
diff --git a/src/store.rs b/src/store.rs
index 74d9877..c8b99d5 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -331,30 +331,36 @@ impl CandyStore {
         self.remove_raw(&self.make_user_key(key))
     }
 
-    pub(crate) fn insert_internal(
-        &self,
-        full_key: &[u8],
-        val: &[u8],
-        mode: InsertMode,
-    ) -> Result<InsertStatus> {
-        let ph = PartedHash::new(&self.config.hash_seed, full_key);
-
+    pub(crate) fn ensure_entry_size(&self, full_key: &[u8], val_len: usize) -> Result<()> {
         ensure!(
             full_key.len() <= MAX_TOTAL_KEY_SIZE,
             CandyError::KeyTooLong(full_key.len())
         );
         ensure!(
-            val.len() <= MAX_TOTAL_VALUE_SIZE,
-            CandyError::ValueTooLong(val.len())
+            val_len <= MAX_TOTAL_VALUE_SIZE,
+            CandyError::ValueTooLong(val_len)
         );
 
-        if full_key.len() + val.len() > self.config.max_shard_size as usize {
+        if full_key.len() + val_len > self.config.max_shard_size as usize {
             return Err(anyhow!(CandyError::EntryCannotFitInShard(
-                full_key.len() + val.len(),
+                full_key.len() + val_len,
                 self.config.max_shard_size as usize
             )));
         }
 
+        Ok(())
+    }
+
+    pub(crate) fn insert_internal(
+        &self,
+        full_key: &[u8],
+        val: &[u8],
+        mode: InsertMode,
+    ) -> Result<InsertStatus> {
+        let ph = PartedHash::new(&self.config.hash_seed, full_key);
+
+        self.ensure_entry_size(full_key, val.len())?;
+
         self.root.insert(ph, full_key, val, mode)
     }
 
-- 
2.43.0


From 29f729c694a6f7e2bebaf804b8c5e87a31f8e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 18/37] fix: get_big of an empty value returned None

---
 src/queues.rs |  4 ++--
 src/store.rs  | 12 +++++-------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index f4014b3..174d0df 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -10,7 +10,7 @@ use bytemuck::{bytes_of, checked::from_bytes_mut, from_bytes, Pod, Zeroable};
 
 #[derive(Clone, Copy, Pod, Zeroable)]
 #[repr(C)]
-struct Queue {
+pub(crate) struct Queue {
     head_idx: u64, // inclusive
     tail_idx: u64, // exclusive
     num_items: u64,
@@ -306,7 +306,7 @@ impl CandyStore {
         Ok(true)
     }
 
-    fn fetch_queue(&self, queue_key: &[u8]) -> Result<Option<Queue>> {
+    pub(crate) fn fetch_queue(&self, queue_key: &[u8]) -> Result<Option<Queue>> {
         let queue_key = queue_key.as_ref();
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
diff --git a/src/store.rs b/src/store.rs
index c8b99d5..30a6cc2 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -543,18 +543,16 @@ impl CandyStore {
     /// Returns a big item, collecting all the underlying chunks into a single value that's returned to the
     /// caller.
     pub fn get_big(&self, key: &[u8]) -> Result<Option<Vec<u8>>> {
+        // note: an empty value has no chunks
+        if self.fetch_queue(key)?.is_none() {
+            return Ok(None);
+        }
         let mut val = vec![];
-        let mut exists = false;
         for res in self.iter_queue(key) {
             let (_, chunk) = res?;
-            exists = true;
             val.extend_from_slice(&chunk);
         }
-        if exists {
-            Ok(Some(val))
-        } else {
-            Ok(None)
-        }
+        Ok(Some(val))
     }
 
     /// Removes a big item by key. Returns true if the key had existed, false otherwise.
-- 
2.43.0


From 3b830c69a371a286f26a0db77250d9f4c585e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 19/37] fix: num_compaction_threads=0 hung the store on the
 first compaction

---
 src/shard.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 0c97ea7..2a2f05b 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -279,6 +279,8 @@ impl CompactionThreadPool {
         let (tx, rx) = crossbeam_channel::unbounded::<
             Option<(CompactionInfo, crossbeam_channel::Sender<Result<()>>)>,
         >();
+        // with no threads, whoever waits for a compaction would wait forever
+        let num_threads = num_threads.max(1);
         let mut threads = Vec::with_capacity(num_threads);
         for _ in 0..num_threads {
             let rx = rx.clone();
-- 
2.43.0


From ed1df1b83a38ff61c9875d15d6790bee8e706cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 20/37] fix: iterating over a typed deque panicked on values of
 another type

---
 src/typed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed.rs b/src/typed.rs
index c857692..3afd893 100644
--- a/src/typed.rs
+++ b/src/typed.rs
@@ -703,7 +703,7 @@ where
         let queue_key = CandyTypedList::<L, (), ()>::make_list_key(queue_key);
         self.store.iter_queue(&queue_key).map(|res| match res {
             Err(e) => Err(e),
-            Ok((idx, v)) => Ok((idx, from_bytes::<V>(&v).unwrap())),
+            Ok((idx, v)) => from_bytes::<V>(&v).map(|v| (idx, v)),
         })
     }
 
@@ -720,7 +720,7 @@ where
             .iter_queue_backwards(&queue_key)
             .map(|res| match res {
                 Err(e) => Err(e),
-                Ok((idx, v)) => Ok((idx, from_bytes::<V>(&v).unwrap())),
+                Ok((idx, v)) => from_bytes::<V>(&v).map(|v| (idx, v)),
             })
     }
 
-- 
2.43.0


From 996641a31f523f2b343e95da1eb22156c6891596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 21/37] fix: files that don't belong to the store failed its
 opening or got deleted

---
 src/router.rs | 51 +++++++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 6ceb440..cb662e7 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -50,6 +50,15 @@ fn test_consolidate_ranges() {
     );
 }
 
+// returns the kind and the span of a file that belongs to the store, or None if the file isn't one of ours
+fn parse_filename(filename: &str) -> Option<(&str, Range<u32>)> {
+    let (kind, span) = filename.split_once("_")?;
+    let (start, end) = span.split_once("-")?;
+    let start = u32::from_str_radix(start, 16).ok()?;
+    let end = u32::from_str_radix(end, 16).ok()?;
+    (format!("{kind}_{start:04x}-{end:04x}") == filename).then_some((kind, start..end))
+}
+
 enum ShardNode {
     Leaf(Shard),
     Vertex(Arc<ShardRouter>, Arc<ShardRouter>),
@@ -115,30 +124,21 @@ impl ShardRouter {
             if !filetype.is_file() {
                 continue;
             }
-            if filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-                || filename.starts_with("merge_")
-            {
-                std::fs::remove_file(entry.path())?;
-                continue;
-            } else if !filename.starts_with("shard_") {
-                continue;
-            }
-            let Some((_, span)) = filename.split_once("_") else {
-                continue;
-            };
-            let Some((start, end)) = span.split_once("-") else {
+            let Some((kind, span)) = parse_filename(filename) else {
                 continue;
             };
-            let start = u32::from_str_radix(start, 16).expect(filename);
-            let end = u32::from_str_radix(end, 16).expect(filename);
-
-            ensure!(
-                start < end && end <= Self::END_OF_SHARDS,
-                "Bad span for {filename}"
-            );
+            match kind {
+                "bottom" | "top" | "merge" => std::fs::remove_file(entry.path())?,
+                "shard" => {
+                    ensure!(
+                        span.start < span.end && span.end <= Self::END_OF_SHARDS,
+                        "Bad span for {filename}"
+                    );
 
-            found_shards.push(start..end);
+                    found_shards.push(span);
+                }
+                _ => {}
+            }
         }
 
         let (shards_to_keep, shards_to_remove) = consolidate_ranges(found_shards);
@@ -309,11 +309,10 @@ impl ShardRouter {
             if !filetype.is_file() {
                 continue;
             }
-            if filename.starts_with("shard_")
-                || filename.starts_with("compact_")
-                || filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-            {
+            let Some((kind, _)) = parse_filename(filename) else {
+                continue;
+            };
+            if matches!(kind, "shard" | "compact" | "bottom" | "top") {
                 std::fs::remove_file(entry.path())?;
             }
         }
-- 
2.43.0


From b06aa5e21183db770245032d45d5bee6d318c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 22/37] fix: crashing while clearing or creating a store of
 many shards made it unopenable

---
 src/router.rs | 70 ++++++++++++++++++++++++++++++++++++++++++++-------
 src/shard.rs  | 26 ++++++++++++++++---
 2 files changed, 84 insertions(+), 12 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index cb662e7..18f6717 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -94,7 +94,9 @@ impl ShardRouter {
     ) -> Result<Self> {
         let mut shards = Self::load(&config, &stats, &threadpool)?;
         if shards.is_empty() {
-            shards = Self::create_initial_shards(&config, &stats, &threadpool)?;
+            let cover = Self::create_cover(&config, &stats, &threadpool)?;
+            shards = Self::create_initial_shards(&config, &stats, &threadpool)?
+                .unwrap_or_else(|| vec![cover]);
         }
         let root = Self::treeify(shards, &stats, &threadpool);
         Ok(Self {
@@ -173,12 +175,31 @@ impl ShardRouter {
         Self::END_OF_SHARDS / Self::calc_step(num_items)
     }
 
+    // creates an empty shard that covers the whole range. it supersedes all other shards, so for as long as it
+    // exists, crashing while removing the other shards or creating them leaves us with an empty store
+    fn create_cover(
+        config: &Arc<InternalConfig>,
+        stats: &Arc<InternalStats>,
+        threadpool: &Arc<CompactionThreadPool>,
+    ) -> Result<Shard> {
+        Shard::create(
+            0..Self::END_OF_SHARDS,
+            config.clone(),
+            stats.clone(),
+            threadpool.clone(),
+        )
+    }
+
+    // replaces the cover by the initial shards, or returns None if the cover is the only shard that's needed
     fn create_initial_shards(
         config: &Arc<InternalConfig>,
         stats: &Arc<InternalStats>,
         threadpool: &Arc<CompactionThreadPool>,
-    ) -> Result<Vec<Shard>> {
+    ) -> Result<Option<Vec<Shard>>> {
         let step = Self::calc_step(config.expected_number_of_keys);
+        if step == Self::END_OF_SHARDS {
+            return Ok(None);
+        }
 
         let mut shards = vec![];
         let mut start = 0;
@@ -194,7 +215,12 @@ impl ShardRouter {
             start = end;
         }
 
-        Ok(shards)
+        std::fs::remove_file(
+            config
+                .dir_path
+                .join(format!("shard_{:04x}-{:04x}", 0, Self::END_OF_SHARDS)),
+        )?;
+        Ok(Some(shards))
     }
 
     fn from_shardnode(
@@ -297,6 +323,36 @@ impl ShardRouter {
     pub(crate) fn clear(&self) -> Result<()> {
         let mut guard = self.node.write();
 
+        // no compaction may be left running, or unfinished, as it would bring its shard back to life
+        match &*guard {
+            ShardNode::Leaf(sh) => sh.complete_compaction()?,
+            ShardNode::Vertex(bottom, top) => {
+                bottom.call_on_all_shards(|sh| sh.complete_compaction())?;
+                top.call_on_all_shards(|sh| sh.complete_compaction())?;
+            }
+        }
+        self.remove_files(|kind, _| kind == "compact")?;
+
+        *guard = ShardNode::Leaf(Self::create_cover(
+            &self.config,
+            &self.stats,
+            &self.threadpool,
+        )?);
+        self.remove_files(|kind, span| {
+            matches!(kind, "bottom" | "top" | "merge")
+                || (kind == "shard" && *span != (0..Self::END_OF_SHARDS))
+        })?;
+
+        if let Some(shards) =
+            Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?
+        {
+            *guard = Self::treeify(shards, &self.stats, &self.threadpool);
+        }
+
+        Ok(())
+    }
+
+    fn remove_files(&self, func: impl Fn(&str, &Range<u32>) -> bool) -> Result<()> {
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -309,17 +365,13 @@ impl ShardRouter {
             if !filetype.is_file() {
                 continue;
             }
-            let Some((kind, _)) = parse_filename(filename) else {
+            let Some((kind, span)) = parse_filename(filename) else {
                 continue;
             };
-            if matches!(kind, "shard" | "compact" | "bottom" | "top") {
+            if func(kind, &span) {
                 std::fs::remove_file(entry.path())?;
             }
         }
-
-        let shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
-        *guard = Self::treeify(shards, &self.stats, &self.threadpool);
-
         Ok(())
     }
 
diff --git a/src/shard.rs b/src/shard.rs
index 2a2f05b..2b910d3 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -452,6 +452,22 @@ impl Shard {
         })
     }
 
+    // creates an empty shard in place of the existing one, if there is one
+    pub(crate) fn create(
+        span: Range<u32>,
+        config: Arc<InternalConfig>,
+        stats: Arc<InternalStats>,
+        threadpool: Arc<CompactionThreadPool>,
+    ) -> Result<Self> {
+        let tmp_filename = config
+            .dir_path
+            .join(format!("merge_{:04x}-{:04x}", span.start, span.end));
+        let mmap_file = MmapFile::create(&tmp_filename, &config)?;
+        let shard = Self::new(span, mmap_file, config, stats, threadpool)?;
+        std::fs::rename(tmp_filename, shard.filename())?;
+        Ok(shard)
+    }
+
     fn new(
         span: Range<u32>,
         mmap_file: MmapFile,
@@ -604,16 +620,20 @@ impl Shard {
         handle_guard.as_ref().map_or(true, |handle| handle.finished())
     }
 
+    pub(crate) fn complete_compaction(&self) -> Result<()> {
+        self.finish_compaction(&mut self.compaction_handle.lock())?;
+        Ok(())
+    }
+
     pub(crate) fn can_split(&self) -> bool {
         self.span.end - self.span.start > 1
     }
 
     // compacts the shard and waits for it
     pub(crate) fn compact_now(&self) -> Result<()> {
-        drop(self.finish_compaction(&mut self.compaction_handle.lock())?);
+        self.complete_compaction()?;
         self.begin_compaction(0)?;
-        drop(self.finish_compaction(&mut self.compaction_handle.lock())?);
-        Ok(())
+        self.complete_compaction()
     }
 
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
-- 
2.43.0


From f3a25d329fdd77bb3efe427a115dceee20603e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 23/37] fix: failing to remove a merged shard's file lost later
 changes

---
 src/shard.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 2b910d3..b2258e3 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -804,8 +804,9 @@ impl Shard {
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
         std::fs::rename(tmp_filename, dst_filename)?;
-        std::fs::remove_file(bottom_filename)?;
-        std::fs::remove_file(top_filename)?;
+        // the combined shard has already superseded them, they'll be removed upon loading if this fails
+        _ = std::fs::remove_file(bottom_filename);
+        _ = std::fs::remove_file(top_filename);
 
         drop(combined_files);
 
-- 
2.43.0


From 12639cd6ea12650446dc106fe455426ba212cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 24/37] fix: the cookie of an exhausted iterator started from
 the beginning

---
 src/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 30a6cc2..5fb1c67 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -134,7 +134,7 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0xffff) << 32)
+        ((self.shard_selector as u64 & 0x1ffff) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -143,7 +143,7 @@ impl<'a> CandyStoreIterator<'a> {
     pub fn from_cookie(store: &'a CandyStore, cookie: u64, raw: bool) -> Self {
         Self {
             store,
-            shard_selector: ((cookie >> 32) & 0xffff) as u32,
+            shard_selector: ((cookie >> 32) & 0x1ffff) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
-- 
2.43.0


From b1f8ad3823836cb1572535f318dacf118c31a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 25/37] fix: iteration skipped entries moved by a concurrent
 compaction or split

---
 src/store.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 5fb1c67..064dbb5 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -2,6 +2,7 @@ use anyhow::{anyhow, bail, ensure};
 use fslock::LockFile;
 use parking_lot::Mutex;
 use std::{
+    collections::HashSet,
     path::{Path, PathBuf},
     sync::Arc,
 };
@@ -117,6 +118,7 @@ pub struct CandyStoreIterator<'a> {
     shard_selector: u32,
     row_idx: usize,
     entry_idx: usize,
+    row_keys: HashSet<Vec<u8>>, // what was already returned of the current row
     raw: bool,
 }
 
@@ -127,6 +129,7 @@ impl<'a> CandyStoreIterator<'a> {
             shard_selector: 0,
             row_idx: 0,
             entry_idx: 0,
+            row_keys: HashSet::new(),
             raw,
         }
     }
@@ -146,6 +149,7 @@ impl<'a> CandyStoreIterator<'a> {
             shard_selector: ((cookie >> 32) & 0x1ffff) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
+            row_keys: HashSet::new(),
             raw,
         }
     }
@@ -167,15 +171,23 @@ impl<'a> Iterator for CandyStoreIterator<'a> {
                         self.row_idx += 1;
                     }
 
-                    let Some((mut k, v)) = sh.read_at(row_idx, entry_idx)? else {
+                    if entry_idx == 0 {
+                        self.row_keys.clear();
+                    }
+
+                    // compacting, splitting and merging pack the entries of a row towards its beginning. going over
+                    // the row backwards, that can make us see an entry twice but it can't make us miss one
+                    let Some((mut k, v)) = sh.read_at(row_idx, ROW_WIDTH - 1 - entry_idx)? else {
                         continue;
                     };
-                    if self.raw {
-                        return Ok((sh.span.start, Some((k, v))));
-                    } else if k.ends_with(USER_NAMESPACE) {
+                    if (!self.raw && !k.ends_with(USER_NAMESPACE)) || self.row_keys.contains(&k) {
+                        continue;
+                    }
+                    self.row_keys.insert(k.clone());
+                    if !self.raw {
                         k.truncate(k.len() - USER_NAMESPACE.len());
-                        return Ok((sh.span.start, Some((k, v))));
                     }
+                    return Ok((sh.span.start, Some((k, v))));
                 }
 
                 self.entry_idx = 0;
-- 
2.43.0


From 627d71a7e859d4fb3ce5a3342fb4c0229b20ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 26/37] fix: iteration skipped the entries of a concurrently
 merged shard

---
 src/store.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index 064dbb5..7810dad 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -116,6 +116,7 @@ pub struct CandyStore {
 pub struct CandyStoreIterator<'a> {
     store: &'a CandyStore,
     shard_selector: u32,
+    shard_len: u32, // length of the shard's span when last seen, 0 if unknown
     row_idx: usize,
     entry_idx: usize,
     row_keys: HashSet<Vec<u8>>, // what was already returned of the current row
@@ -127,6 +128,7 @@ impl<'a> CandyStoreIterator<'a> {
         Self {
             store,
             shard_selector: 0,
+            shard_len: 0,
             row_idx: 0,
             entry_idx: 0,
             row_keys: HashSet::new(),
@@ -137,7 +139,9 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0x1ffff) << 32)
+        let shard_len_bits = u32::BITS - self.shard_len.leading_zeros();
+        ((shard_len_bits as u64) << 56)
+            | ((self.shard_selector as u64 & 0x1ffff) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -147,6 +151,7 @@ impl<'a> CandyStoreIterator<'a> {
         Self {
             store,
             shard_selector: ((cookie >> 32) & 0x1ffff) as u32,
+            shard_len: (1u32 << ((cookie >> 56) & 0x1f)) >> 1,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             row_keys: HashSet::new(),
@@ -161,6 +166,14 @@ impl<'a> Iterator for CandyStoreIterator<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         while self.shard_selector < ShardRouter::END_OF_SHARDS {
             let res = self.store.root.shared_op(self.shard_selector, |sh| {
+                let shard_len = sh.span.end - sh.span.start;
+                if self.shard_len != 0 && shard_len > self.shard_len {
+                    // the shard was merged with another one, whose rows we haven't seen
+                    self.row_idx = 0;
+                    self.entry_idx = 0;
+                }
+                self.shard_len = shard_len;
+
                 while self.row_idx < NUM_ROWS {
                     let row_idx = self.row_idx;
                     let entry_idx = self.entry_idx;
-- 
2.43.0


From 6c628e601a7632e6ed11dfaae4e71d4e57351b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 27/37] fix: clear in the middle of a list or queue operation
 left broken lists and queues

---
 src/store.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/store.rs b/src/store.rs
index 7810dad..8e2e3db 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -285,6 +285,13 @@ impl CandyStore {
 
     /// Clears the store (erasing all keys), and removing all shard files
     pub fn clear(&self) -> Result<()> {
+        // operations on lists and queues are made of many steps, we don't want to come in between
+        let _guards = self
+            .keyed_locks
+            .iter()
+            .map(|lock| lock.lock())
+            .collect::<Vec<_>>();
+
         self.root.clear()?;
         self.stats.clear();
 
-- 
2.43.0


From 319d9c73631379ae024589ea21eae4185d15e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 28/37] fix: an unfinished compaction was dropped when its file
 could not be opened

---
 src/shard.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index b2258e3..3277061 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -425,15 +425,22 @@ impl Shard {
         if truncate {
             _ = std::fs::remove_file(compacted_filename);
         } else {
-            if let Ok(compacted_file) = OpenOptions::new()
+            match OpenOptions::new()
                 .read(true)
                 .write(true)
                 .open(&compacted_filename)
             {
-                let target = MmapFile::new(compacted_file, config.mlock_headers)?;
-                Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
-                std::fs::rename(compacted_filename, filename)?;
-                mmap_file = target;
+                Ok(compacted_file) => {
+                    let target = MmapFile::new(compacted_file, config.mlock_headers)?;
+                    Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                    std::fs::rename(compacted_filename, filename)?;
+                    mmap_file = target;
+                }
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => {
+                    // no compaction was left unfinished
+                }
+                // part of the shard's items are in there
+                Err(e) => return Err(e.into()),
             }
         }
 
-- 
2.43.0


From ca01194eb4e3067bf2835d9812f2451c39705f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 29/37] fix: iteration skipped entries of a shard that was
 split and merged back meanwhile

---
 src/shard.rs |  2 +-
 src/store.rs | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 3277061..5aee38a 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -341,7 +341,7 @@ pub(crate) struct Shard {
     pub(crate) config: Arc<InternalConfig>,
     stats: Arc<InternalStats>,
     files: Arc<RwLock<(MmapFile, Option<MmapFile>)>>,
-    row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
+    pub(crate) row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
     #[cfg(feature = "flush_aggregation")]
diff --git a/src/store.rs b/src/store.rs
index 8e2e3db..f5e87f9 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -1,6 +1,6 @@
 use anyhow::{anyhow, bail, ensure};
 use fslock::LockFile;
-use parking_lot::Mutex;
+use parking_lot::{Mutex, RwLock};
 use std::{
     collections::HashSet,
     path::{Path, PathBuf},
@@ -117,6 +117,7 @@ pub struct CandyStoreIterator<'a> {
     store: &'a CandyStore,
     shard_selector: u32,
     shard_len: u32, // length of the shard's span when last seen, 0 if unknown
+    shard_locks: Option<Arc<[RwLock<()>; NUM_ROWS]>>, // tells whether it's still the same shard
     row_idx: usize,
     entry_idx: usize,
     row_keys: HashSet<Vec<u8>>, // what was already returned of the current row
@@ -129,6 +130,7 @@ impl<'a> CandyStoreIterator<'a> {
             store,
             shard_selector: 0,
             shard_len: 0,
+            shard_locks: None,
             row_idx: 0,
             entry_idx: 0,
             row_keys: HashSet::new(),
@@ -152,6 +154,7 @@ impl<'a> CandyStoreIterator<'a> {
             store,
             shard_selector: ((cookie >> 32) & 0x1ffff) as u32,
             shard_len: (1u32 << ((cookie >> 56) & 0x1f)) >> 1,
+            shard_locks: None,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             row_keys: HashSet::new(),
@@ -167,12 +170,24 @@ impl<'a> Iterator for CandyStoreIterator<'a> {
         while self.shard_selector < ShardRouter::END_OF_SHARDS {
             let res = self.store.root.shared_op(self.shard_selector, |sh| {
                 let shard_len = sh.span.end - sh.span.start;
+                let mut restarted_row = false;
                 if self.shard_len != 0 && shard_len > self.shard_len {
                     // the shard was merged with another one, whose rows we haven't seen
                     self.row_idx = 0;
                     self.entry_idx = 0;
+                } else if self.entry_idx > 0
+                    && self
+                        .shard_locks
+                        .as_ref()
+                        .is_some_and(|locks| !Arc::ptr_eq(locks, &sh.row_locks))
+                {
+                    // the shard was split, and maybe merged back, which reorders the entries of its rows. go over the
+                    // row again, skipping what was already returned of it
+                    self.entry_idx = 0;
+                    restarted_row = true;
                 }
                 self.shard_len = shard_len;
+                self.shard_locks = Some(sh.row_locks.clone());
 
                 while self.row_idx < NUM_ROWS {
                     let row_idx = self.row_idx;
@@ -184,7 +199,7 @@ impl<'a> Iterator for CandyStoreIterator<'a> {
                         self.row_idx += 1;
                     }
 
-                    if entry_idx == 0 {
+                    if entry_idx == 0 && !std::mem::take(&mut restarted_row) {
                         self.row_keys.clear();
                     }
 
-- 
2.43.0


From 72225b1b8b21d95546743ebad1a651bc1e4b6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 30/37] fix: set_big discarded the existing value when the new
 one was rejected

---
 src/queues.rs | 2 +-
 src/store.rs  | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/queues.rs b/src/queues.rs
index 174d0df..7c3caf9 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -104,7 +104,7 @@ impl CandyStore {
             full_queue_key,
         )
     }
-    fn make_queue_item_key(&self, queue_key: &[u8], idx: u64) -> Vec<u8> {
+    pub(crate) fn make_queue_item_key(&self, queue_key: &[u8], idx: u64) -> Vec<u8> {
         let mut item_key = queue_key.to_owned();
         item_key.extend_from_slice(bytes_of(&idx));
         item_key.extend_from_slice(QUEUE_ITEM_NAMESPACE);
diff --git a/src/store.rs b/src/store.rs
index f5e87f9..83d6585 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -582,6 +582,12 @@ impl CandyStore {
         key: &B1,
         val: &B2,
     ) -> Result<bool> {
+        // if the value is going to be rejected, it has to be before the existing one is discarded
+        self.ensure_entry_size(
+            &self.make_queue_item_key(key.as_ref(), 0),
+            val.as_ref().len().min(MAX_VALUE_SIZE),
+        )?;
+
         let existed = self.discard_queue(key)?;
         self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
         Ok(existed)
-- 
2.43.0


From 74292758746b61dcd4017468e943714c2c94addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 31/37] fix: an unfinished compaction of an unsupported version
 was accepted

---
 src/shard.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 5aee38a..7e79292 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -430,11 +430,19 @@ impl Shard {
                 .write(true)
                 .open(&compacted_filename)
             {
-                Ok(compacted_file) => {
-                    let target = MmapFile::new(compacted_file, config.mlock_headers)?;
-                    Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
-                    std::fs::rename(compacted_filename, filename)?;
-                    mmap_file = target;
+                Ok(mut compacted_file) => {
+                    if Self::is_supported_compaction(&mut compacted_file)? {
+                        let target = MmapFile::new(compacted_file, config.mlock_headers)?;
+                        Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                        std::fs::rename(compacted_filename, filename)?;
+                        mmap_file = target;
+                    } else if config.clear_on_unsupported_version {
+                        // without it, what the shard has is outdated
+                        mmap_file = MmapFile::create(&filename, &config)?;
+                        std::fs::remove_file(compacted_filename)?;
+                    } else {
+                        bail!("{compacted_filename:?} is of an unsupported version, or is corrupt");
+                    }
                 }
                 Err(e) if e.kind() == std::io::ErrorKind::NotFound => {
                     // no compaction was left unfinished
@@ -459,6 +467,21 @@ impl Shard {
         })
     }
 
+    fn is_supported_compaction(file: &mut File) -> Result<bool> {
+        let file_size = file.metadata()?.len();
+        if file_size == 0 {
+            // had just been created
+            return Ok(true);
+        }
+        let mut meta_header = MetaHeader::default();
+        let sz = file.read(bytes_of_mut(&mut meta_header))?;
+        // the magic and the version are zero until they're written
+        Ok(sz == size_of::<MetaHeader>()
+            && file_size >= HEADER_SIZE
+            && [SHARD_FILE_MAGIC, [0; 8]].contains(&meta_header.magic)
+            && [SHARD_FILE_VERSION, 0].contains(&meta_header.version))
+    }
+
     // creates an empty shard in place of the existing one, if there is one
     pub(crate) fn create(
         span: Range<u32>,
-- 
2.43.0


From 1627c1167efb2b59e27255bb02fc2faebda08688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:17 +0000
Subject: [PATCH 32/37] fix: the unfinished compaction of a shard that no
 longer exists was kept and later taken for another's

---
 src/router.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index 18f6717..546f899 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -114,6 +114,7 @@ impl ShardRouter {
         threadpool: &Arc<CompactionThreadPool>,
     ) -> Result<Vec<Shard>> {
         let mut found_shards = vec![];
+        let mut found_compactions = vec![];
         for res in std::fs::read_dir(&config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -139,6 +140,7 @@ impl ShardRouter {
 
                     found_shards.push(span);
                 }
+                "compact" => found_compactions.push((span, entry.path())),
                 _ => {}
             }
         }
@@ -151,6 +153,12 @@ impl ShardRouter {
                     .join(format!("shard_{:04x}-{:04x}", span.start, span.end)),
             )?;
         }
+        // a compaction whose shard is gone would be taken for the unfinished compaction of a future shard
+        for (span, path) in found_compactions {
+            if !shards_to_keep.contains(&span) {
+                std::fs::remove_file(path)?;
+            }
+        }
 
         let mut shards = vec![];
         for span in shards_to_keep {
-- 
2.43.0


From 6aa5eca486cf8beac1c97b117919919211d93dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 33/37] fix: sync files before they take the place of others,
 with flush aggregation

What the replaced files hold had already been flushed, and the calls that
wrote it have returned. A reboot right after a split, a compaction or a
merge lost it, or left a shard file without a header, which can't be
opened.
---
 src/shard.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 7e79292..6defd38 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -190,6 +190,19 @@ impl MmapFile {
         Self::new(file, config.mlock_headers)
     }
 
+    // must be called before the file takes the place of others, as their contents may have already been flushed
+    #[cfg(feature = "flush_aggregation")]
+    fn flush_if_aggregating(&self, config: &InternalConfig) -> Result<()> {
+        if config.flush_aggregation_delay.is_some() {
+            self.file.sync_data()?;
+        }
+        Ok(())
+    }
+    #[cfg(not(feature = "flush_aggregation"))]
+    fn flush_if_aggregating(&self, _config: &InternalConfig) -> Result<()> {
+        Ok(())
+    }
+
     #[inline(always)]
     fn header(&self) -> &ShardHeader {
         unsafe { &*(self.mmap.as_ptr() as *const ShardHeader) }
@@ -418,6 +431,9 @@ impl Shard {
         let row_locks: [RwLock<()>; NUM_ROWS] = row_locks.try_into().unwrap();
 
         let mut mmap_file = MmapFile::new(file, config.mlock_headers)?;
+        if file_size == 0 {
+            mmap_file.flush_if_aggregating(&config)?;
+        }
 
         let compacted_filename = config
             .dir_path
@@ -434,6 +450,7 @@ impl Shard {
                     if Self::is_supported_compaction(&mut compacted_file)? {
                         let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                         Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                        target.flush_if_aggregating(&config)?;
                         std::fs::rename(compacted_filename, filename)?;
                         mmap_file = target;
                     } else if config.clear_on_unsupported_version {
@@ -493,6 +510,7 @@ impl Shard {
             .dir_path
             .join(format!("merge_{:04x}-{:04x}", span.start, span.end));
         let mmap_file = MmapFile::create(&tmp_filename, &config)?;
+        mmap_file.flush_if_aggregating(&config)?;
         let shard = Self::new(span, mmap_file, config, stats, threadpool)?;
         std::fs::rename(tmp_filename, shard.filename())?;
         Ok(shard)
@@ -636,6 +654,7 @@ impl Shard {
                 &self.stats,
                 &self.config,
             )?;
+            target.flush_if_aggregating(&self.config)?;
             std::fs::rename(self.compact_filename(), self.filename())?;
             files_guard.0 = files_guard.1.take().unwrap();
         }
@@ -719,6 +738,9 @@ impl Shard {
             }
         }
 
+        bottom_file.flush_if_aggregating(&self.config)?;
+        top_file.flush_if_aggregating(&self.config)?;
+
         std::fs::rename(
             bottom_filename,
             self.config
@@ -833,6 +855,7 @@ impl Shard {
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
+        combined_files.0.flush_if_aggregating(&combined.config)?;
         std::fs::rename(tmp_filename, dst_filename)?;
         // the combined shard has already superseded them, they'll be removed upon loading if this fails
         _ = std::fs::remove_file(bottom_filename);
@@ -1091,6 +1114,7 @@ impl Shard {
 
         Self::do_compaction(&info.row_locks, src, target, &info.stats, &info.config)?;
 
+        target.flush_if_aggregating(&info.config)?;
         std::fs::rename(&info.target_filename, &info.src_filename)?;
 
         info.stats.report_compaction(
-- 
2.43.0


From 6b56d3cc844299069f93fff8c2bc0d71dd60f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:25 +0000
Subject: [PATCH 34/37] fix: peek at lists and queues while holding their lock

While elements are added and removed, peeking went over a range that no
longer was the collection's: it returned None although the list was never
empty, or an element that was not first (or last) at any time during the
call.
---
 src/lists.rs  | 27 +++++++++++++++++++--------
 src/queues.rs | 40 ++++++++++++++++++++++++----------------
 2 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 0dbff52..b4a7f05 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -506,6 +506,23 @@ impl CandyStore {
         Ok(None)
     }
 
+    fn _peek_list(&self, list_key: Vec<u8>, fwd: bool) -> Result<Option<KVPair>> {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+
+        let Some(list_bytes) = self.get_raw(&list_key)? else {
+            return Ok(None);
+        };
+        let list = *from_bytes::<List>(&list_bytes);
+        let mut range = list.head_idx..list.tail_idx;
+        while let Some(idx) = if fwd { range.next() } else { range.next_back() } {
+            if let Some((_, k, v)) = self.get_from_list_at_index(list_ph, idx, true)? {
+                return Ok(Some((k, v)));
+            }
+        }
+        Ok(None)
+    }
+
     fn get_from_list_at_index(
         &self,
         list_ph: PartedHash,
@@ -693,10 +710,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_head]
     pub fn owned_peek_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        let Some(kv) = self.owned_iter_list(list_key).next() else {
-            return Ok(None);
-        };
-        Ok(Some(kv?))
+        self._peek_list(list_key, true)
     }
 
     /// Returns the last (tail) element of the list
@@ -706,10 +720,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_peek_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key) {
-            return Ok(Some(kv?));
-        }
-        Ok(None)
+        self._peek_list(list_key, false)
     }
 
     /// Removes and returns the first (head) element of the list
diff --git a/src/queues.rs b/src/queues.rs
index 7c3caf9..a24f2cb 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -359,15 +359,32 @@ impl CandyStore {
         Ok(indices)
     }
 
+    fn _peek_queue(&self, queue_key: &[u8], pos: QueuePos) -> Result<Option<(usize, Vec<u8>)>> {
+        let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
+        let _guard = self.lock_list(queue_ph);
+
+        let Some(queue_bytes) = self.get_raw(&full_queue_key)? else {
+            return Ok(None);
+        };
+        let queue = *from_bytes::<Queue>(&queue_bytes);
+        let mut range = queue.head_idx..queue.tail_idx;
+        while let Some(idx) = match pos {
+            QueuePos::Head => range.next(),
+            QueuePos::Tail => range.next_back(),
+        } {
+            if let Some(v) = self.get_raw(&self.make_queue_item_key(queue_key, idx))? {
+                return Ok(Some((idx as usize, v)));
+            }
+        }
+        Ok(None)
+    }
+
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
     pub fn peek_queue_head_with_idx<B: AsRef<[u8]> + ?Sized>(
         &self,
         queue_key: &B,
     ) -> Result<Option<(usize, Vec<u8>)>> {
-        for res in self.iter_queue(queue_key) {
-            return Ok(Some(res?));
-        }
-        Ok(None)
+        self._peek_queue(queue_key.as_ref(), QueuePos::Head)
     }
 
     /// Returns (without removing) the head element of the queue, or None if the queue is empty
@@ -375,10 +392,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<Vec<u8>>> {
-        for res in self.iter_queue(queue_key) {
-            return Ok(Some(res?.1));
-        }
-        Ok(None)
+        Ok(self.peek_queue_head_with_idx(queue_key)?.map(|iv| iv.1))
     }
 
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
@@ -386,10 +400,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<(usize, Vec<u8>)>> {
-        for res in self.iter_queue_backwards(queue_key) {
-            return Ok(Some(res?));
-        }
-        Ok(None)
+        self._peek_queue(queue_key.as_ref(), QueuePos::Tail)
     }
 
     /// Returns (without removing) the tail element of the queue, or None if the queue is empty
@@ -397,10 +408,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<Vec<u8>>> {
-        for res in self.iter_queue_backwards(queue_key) {
-            return Ok(Some(res?.1));
-        }
-        Ok(None)
+        Ok(self.peek_queue_tail_with_idx(queue_key)?.map(|iv| iv.1))
     }
 
     /// Returns a forward iterator (head to tail) over the elements of the queue. If the queue does not exist,
-- 
2.43.0


From 36a33c03dd9ac5144adf60475b60e55769b4c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:08 +0000
Subject: [PATCH 35/37] fix: list and queue iterators promise more elements
 than there are

With holes in the collection, the lower bound of size_hint exceeded the
number of elements the iterator returned.
---
 src/lists.rs  | 3 ++-
 src/queues.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index b4a7f05..aecaf58 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -107,8 +107,9 @@ impl<'a> Iterator for ListIterator<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
+        // there may be holes in the range, and elements may be removed
         if let Some(ref range) = self.range {
-            range.size_hint()
+            (0, range.size_hint().1)
         } else {
             (0, None)
         }
diff --git a/src/queues.rs b/src/queues.rs
index a24f2cb..2285f8d 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -85,8 +85,9 @@ impl<'a> Iterator for QueueIterator<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
+        // there may be holes in the range, and elements may be removed
         if let Some(ref range) = self.range {
-            range.size_hint()
+            (0, range.size_hint().1)
         } else {
             (0, None)
         }
-- 
2.43.0


From e7a2be230e1ef679b554dd1fb4e6bb9aae90870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:33 +0000
Subject: [PATCH 36/37] fix: queue iterators return elements pushed after they
 were created

The documentation says they go over the indices that existed when they were
created, but the range was taken at the first step.
---
 src/queues.rs | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 2285f8d..93f7242 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -38,30 +38,23 @@ enum QueuePos {
 pub struct QueueIterator<'a> {
     store: &'a CandyStore,
     queue_key: Vec<u8>,
-    range: Option<Range<u64>>,
+    range: Result<Range<u64>>,
     fwd: bool,
 }
 
 impl<'a> Iterator for QueueIterator<'a> {
     type Item = Result<(usize, Vec<u8>)>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.range.is_none() {
-            match self.store.fetch_queue(&self.queue_key) {
-                Ok(queue) => match queue {
-                    Some(queue) => {
-                        self.range = Some(queue.head_idx..queue.tail_idx);
-                    }
-                    None => return None,
-                },
-                Err(e) => return Some(Err(e)),
-            }
+        if self.range.is_err() {
+            return std::mem::replace(&mut self.range, Ok(0..0)).err().map(Err);
         }
 
         loop {
+            let range = self.range.as_mut().unwrap();
             let idx = if self.fwd {
-                self.range.as_mut().unwrap().next()
+                range.next()
             } else {
-                self.range.as_mut().unwrap().next_back()
+                range.next_back()
             };
             let Some(idx) = idx else {
                 return None;
@@ -86,7 +79,7 @@ impl<'a> Iterator for QueueIterator<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         // there may be holes in the range, and elements may be removed
-        if let Some(ref range) = self.range {
+        if let Ok(ref range) = self.range {
             (0, range.size_hint().1)
         } else {
             (0, None)
@@ -412,18 +405,25 @@ impl CandyStore {
         Ok(self.peek_queue_tail_with_idx(queue_key)?.map(|iv| iv.1))
     }
 
+    fn _iter_queue<'a>(&'a self, queue_key: &[u8], fwd: bool) -> QueueIterator<'a> {
+        let range = self
+            .fetch_queue(queue_key)
+            .map(|queue| queue.map_or(0..0, |queue| queue.head_idx..queue.tail_idx));
+        QueueIterator {
+            store: &self,
+            queue_key: queue_key.to_owned(),
+            range,
+            fwd,
+        }
+    }
+
     /// Returns a forward iterator (head to tail) over the elements of the queue. If the queue does not exist,
     /// this is an empty iterator.
     ///
     /// Note: the iterator will go over the indices that existed when it was created -- new elements that are
     /// pushed afterwards will not be returned
     pub fn iter_queue<'a, B: AsRef<[u8]> + ?Sized>(&'a self, queue_key: &B) -> QueueIterator<'a> {
-        QueueIterator {
-            store: &self,
-            queue_key: queue_key.as_ref().to_owned(),
-            range: None,
-            fwd: true,
-        }
+        self._iter_queue(queue_key.as_ref(), true)
     }
 
     /// Returns a backward iterator (tail to head) over the elements of the queue. If the queue does not exist,
@@ -435,12 +435,7 @@ impl CandyStore {
         &'a self,
         queue_key: &B,
     ) -> QueueIterator<'a> {
-        QueueIterator {
-            store: &self,
-            queue_key: queue_key.as_ref().to_owned(),
-            range: None,
-            fwd: false,
-        }
+        self._iter_queue(queue_key.as_ref(), false)
     }
 
     /// Returns a the length of the given queue (number of elements in the queue) or 0 if the queue does not exist
-- 
2.43.0


From c3d0dd57948e69cd8650e0a8e22bc1dda1fa96f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:51 +0000
Subject: [PATCH 37/37] fix: setting a value that another thread hasn't flushed
 yet waits for it under flush aggregation

---
 src/shard.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 6defd38..204122b 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1039,11 +1039,12 @@ impl Shard {
                     .wasted_bytes
                     .fetch_add((k.len() + existing_val.len()) as u64, Ordering::Relaxed);
                 self.stats.num_updates.fetch_add(1, Ordering::Relaxed);
-                #[cfg(feature = "flush_aggregation")]
-                {
-                    drop(row_guard);
-                    self.flush_aggregation()?;
-                }
+            }
+            // even if it's unchanged, whoever wrote this value may not have flushed it yet
+            #[cfg(feature = "flush_aggregation")]
+            {
+                drop(row_guard);
+                self.flush_aggregation()?;
             }
             return Ok(TryReplaceStatus::KeyExistsReplaced(existing_val));
         }
-- 
2.43.0

