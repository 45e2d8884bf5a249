From 38e5d4fee55c229c4a90bd3f17e3235656254c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 01/13] fix: map handle over an empty or blob-stored map (panic
 on get, silent data loss on load)

---
 src/rt.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/rt.rs b/src/rt.rs
index bee9070..5bcf916 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -246,6 +246,11 @@ where
     /// 2. Iterating over each shard and deserializing its entries
     /// 3. Merging all entries into a single `HashMap`
     pub fn load(&self) -> Result<HashMap<K, V>> {
+        // A node without shards holds the whole map as a single blob.
+        if self.node.child_count() == 0 {
+            return self.node.decode();
+        }
+
         // 1. Read number of shards from container
         let container_payload = self.node.read_raw()?;
         let num_shards = if container_payload.len() >= 4 {
@@ -333,6 +338,11 @@ where
     /// - O(N/S) linear scan within shard (where S = number of shards)
     /// - SIMD-optimized hash comparison on supported platforms
     pub fn get(&self, key: &K) -> Result<Option<V>> {
+        // A node without shards holds the whole map as a single blob.
+        if self.node.child_count() == 0 {
+            return Ok(self.load()?.remove(key));
+        }
+
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
         if container_payload.len() < 4 {
@@ -345,6 +355,9 @@ where
                 .try_into()
                 .map_err(|_| crate::ParcodeError::Format("Failed to read num_shards".into()))?,
         );
+        if num_shards == 0 {
+            return Ok(None);
+        } // Empty
 
         // 2. Hash & Select Shard
         let target_hash = crate::map::hash_key(key);
@@ -450,6 +463,22 @@ where
     /// This returns a Lazy Mirror of the value, allowing access to its local fields
     /// without loading its heavy dependencies.
     pub fn get_lazy(&self, key: &K) -> Result<Option<V::Lazy>> {
+        // A node without shards holds the whole map as a single blob, whose values have no
+        // mirrors of their own.
+        if self.node.child_count() == 0 {
+            let payload = self.node.read_raw()?;
+            let (len, _): (u64, usize) =
+                bincode::serde::decode_from_slice(&payload, bincode::config::standard())
+                    .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
+            return if len == 0 {
+                Ok(None)
+            } else {
+                Err(crate::ParcodeError::Format(
+                    "Lazy lookup requires a hash-sharded map (#[parcode(map)])".into(),
+                ))
+            };
+        }
+
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
         if container_payload.len() < 4 {
@@ -462,6 +491,9 @@ where
                 .try_into()
                 .map_err(|_| crate::ParcodeError::Format("Failed to read num_shards".into()))?,
         );
+        if num_shards == 0 {
+            return Ok(None);
+        } // Empty
 
         // 2. Hash & Select Shard
         let target_hash = crate::map::hash_key(key);
-- 
2.43.0


From 5e85a61f21b99dcf16ff52e03bc79eeabbf8ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 02/13] fix: loading a blob-stored map shorter than four bytes
 returned an empty map

---
 src/reader.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7acd7ee..0decc25 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -531,11 +531,7 @@ where
 {
     fn from_node(node: &ChunkNode<'_>) -> Result<Self> {
         // Standard HashMap reconstruction logic (same as before)
-        let container_payload = node.read_raw()?;
-        if container_payload.len() < 4 {
-            return Ok(Self::new());
-        }
-
+        // No shards: the whole map is a single blob, however small.
         if node.child_count == 0 {
             return node.decode();
         }
-- 
2.43.0


From e7213a6db3fde5ef955405b76068e99ff85ebb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 03/13] fix: parallel writer failed on an unavailable
 compression algorithm instead of falling back

---
 src/executor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/executor.rs b/src/executor.rs
index 216d151..e9c077b 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -314,7 +314,12 @@ fn process_node<'scope, 'a, W>(
         config.compression_id
     };
 
-    let compressor = match ctx.registry.get(compression_id) {
+    // Fallback to None (ID 0) if requested algorithm unavailable
+    let compressor = match ctx
+        .registry
+        .get(compression_id)
+        .or_else(|_| ctx.registry.get(0))
+    {
         Ok(c) => c,
         Err(e) => {
             ctx.signal_error(e);
-- 
2.43.0


From 60e34756bec25eb39990a7e8353134a014ddce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 04/13] fix: field compression setting was dropped for an empty
 map

---
 src/visitor_impls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/visitor_impls.rs b/src/visitor_impls.rs
index 02eb58a..e11ae3e 100644
--- a/src/visitor_impls.rs
+++ b/src/visitor_impls.rs
@@ -328,8 +328,11 @@ where
             // If parent_id is Some, we are a chunkable child -> Create node and link.
             // (The macro only calls visit with Some if the field is chunkable).
 
-            let job = if total_items != 0 {
+            let job: Box<dyn SerializationJob<'a> + 'a> = if total_items != 0 {
                 self.create_job(config_override)
+            } else if let Some(cfg) = config_override {
+                let empty = Box::new(MapContainerJob { num_shards: 0 });
+                Box::new(crate::rt::ConfiguredJob::new(empty, cfg))
             } else {
                 Box::new(MapContainerJob { num_shards: 0 })
             };
-- 
2.43.0


From 4cd8245a93aa9fafb99691b35b1821b32e1c62ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 05/13] fix: chunk range arithmetic overflowed on damaged
 offsets and lengths

---
 src/reader.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0decc25..1d580d3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -781,13 +781,19 @@ impl ParcodeFile {
     /// * `offset`: Absolute byte offset in the file.
     /// * `length`: Total length of the chunk including metadata.
     fn get_chunk(&self, offset: u64, length: u64) -> Result<ChunkNode<'_>> {
-        if offset + length > self.file_size {
-            return Err(ParcodeError::Format(format!(
-                "Chunk out of bounds: {} + {}",
-                offset, length
-            )));
+        let end = match offset.checked_add(length) {
+            Some(end) if end <= self.file_size => end,
+            _ => {
+                return Err(ParcodeError::Format(format!(
+                    "Chunk out of bounds: {} + {}",
+                    offset, length
+                )));
+            }
+        };
+        if length == 0 {
+            return Err(ParcodeError::Format("Chunk too small for metadata".into()));
         }
-        let chunk_end = usize::try_from(offset + length)
+        let chunk_end = usize::try_from(end)
             .map_err(|_| ParcodeError::Format("Chunk end exceeds address space".into()))?;
 
         let meta_byte = self
-- 
2.43.0


From a6fd177bb221fea86346a54776a00dbc8f9f6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 06/13] fix: cyclic child references in a damaged file
 overflowed the stack

---
 src/reader.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 1d580d3..0e1f215 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1189,6 +1189,17 @@ impl<'a> ChunkNode<'a> {
             .ok_or_else(|| ParcodeError::Format("Child reference out of bounds".into()))?;
 
         let r = ChildRef::from_bytes(bytes)?;
+
+        // Children are always written before their parent. Refusing anything else keeps a
+        // damaged file from sending a recursive walk round in circles.
+        if r.offset
+            .checked_add(r.length)
+            .is_none_or(|end| end > self.offset)
+        {
+            return Err(ParcodeError::Format(
+                "Child chunk does not precede its parent".into(),
+            ));
+        }
         self.reader.get_chunk(r.offset, r.length)
     }
 
-- 
2.43.0


From 99fd8366ba45c58f9655e512c157d9c120443d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 07/13] fix: damaged shard tables and lengths aborted the
 process on allocation

---
 src/reader.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0e1f215..5f7028d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -374,7 +374,10 @@ pub trait ParcodeItem: Sized + Send + Sync + 'static {
             .map_err(|_| ParcodeError::Serialization("Vector length exceeds usize".into()))?;
 
         // Allocate uninit vec
-        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::with_capacity(count);
+        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::new();
+        uninit_vec
+            .try_reserve_exact(count)
+            .map_err(|_| ParcodeError::Format("Vector length exceeds available memory".into()))?;
         #[allow(unsafe_code)]
         unsafe {
             uninit_vec.set_len(count);
@@ -961,6 +964,11 @@ impl<'a> ChunkNode<'a> {
         for run in shard_runs {
             let items_per_shard = run.item_count as usize;
             for _ in 0..run.repeat {
+                if current_shard_idx >= self.child_count as usize {
+                    return Err(ParcodeError::Format(
+                        "RLE names more shards than the container has".into(),
+                    ));
+                }
                 if current_global_idx.checked_add(items_per_shard).is_none() {
                     return Err(ParcodeError::Format("Integer overflow in RLE".into()));
                 }
@@ -982,7 +990,10 @@ impl<'a> ChunkNode<'a> {
         }
 
         // 4. Allocate Uninitialized Buffer
-        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::with_capacity(total_items);
+        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::new();
+        result_buffer
+            .try_reserve_exact(total_items)
+            .map_err(|_| ParcodeError::Format("Item count exceeds available memory".into()))?;
         unsafe {
             result_buffer.set_len(total_items);
         }
-- 
2.43.0


From fb707d0648c27a0104d04588bcc2da9e508df5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 08/13] fix: index arithmetic overflowed on a damaged
 run-length table

---
 src/reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 5f7028d..394dcc8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1216,18 +1216,21 @@ impl<'a> ChunkNode<'a> {
 
     /// Maps a global item index to a specific (`shard_index`, `internal_index`).
     fn resolve_rle_index(&self, global_index: usize, runs: &[ShardRun]) -> Result<(usize, usize)> {
-        let mut current_base = 0;
+        let mut current_base: usize = 0;
         let mut shard_base = 0;
 
         for run in runs {
             let count = run.item_count as usize;
             let total_run = count * run.repeat as usize;
+            let run_end = current_base
+                .checked_add(total_run)
+                .ok_or_else(|| ParcodeError::Format("Integer overflow in RLE".into()))?;
 
-            if global_index < current_base + total_run {
+            if global_index < run_end {
                 let offset = global_index - current_base;
                 return Ok((shard_base + (offset / count), offset % count));
             }
-            current_base += total_run;
+            current_base = run_end;
             shard_base += run.repeat as usize;
         }
         Err(ParcodeError::Format("Index out of bounds".into()))
-- 
2.43.0


From abfd7e9fcb5e8e9f378668ecd52a7402a5c905af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 09/13] fix: lazy iterator underflowed when a damaged file's
 shards disagree with its totals

---
 src/rt.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/rt.rs b/src/rt.rs
index 5bcf916..1537b1a 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -684,8 +684,8 @@ where
             return Ok(true);
         }
 
-        // Current shard finished. Load next.
-        if let Some(shard_node) = self.shards.next() {
+        // Current shard finished. Load next (a damaged file may hold empty shards: skip them).
+        while let Some(shard_node) = self.shards.next() {
             // 1. Load Payload
             let payload = shard_node.read_raw()?;
 
@@ -703,11 +703,12 @@ where
             self.items_left_in_shard = len;
             self.current_payload = Some(payload);
             self.current_children = children.into_iter();
-
-            Ok(true)
-        } else {
-            Ok(false) // No more shards
+            if self.items_left_in_shard > 0 {
+                return Ok(true);
+            }
         }
+
+        Ok(false) // No more shards
     }
 }
 
@@ -722,7 +723,11 @@ where
         match self.ensure_shard_loaded() {
             Ok(true) => {}
             Ok(false) => return None, // End of iteration
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.items_yielded = self.total_items;
+                self.shards = Vec::new().into_iter();
+                return Some(Err(e));
+            }
         }
 
         // 2. Prepare Cursor at current position
@@ -742,11 +747,18 @@ where
         self.items_left_in_shard -= 1;
         self.items_yielded += 1;
 
+        // After an error the stream position is meaningless: end the iteration.
+        if result.is_err() {
+            self.items_left_in_shard = 0;
+            self.items_yielded = self.total_items;
+            self.shards = Vec::new().into_iter();
+        }
+
         Some(result)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.total_items - self.items_yielded;
+        let remaining = self.total_items.saturating_sub(self.items_yielded);
         (remaining, Some(remaining))
     }
 }
@@ -756,7 +768,7 @@ where
     T: ParcodeLazyRef<'a>,
 {
     fn len(&self) -> usize {
-        self.total_items - self.items_yielded
+        self.total_items.saturating_sub(self.items_yielded)
     }
 }
 
-- 
2.43.0


From 705e3cd8653794d50d2e7874ed77cf44aee13e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 10/13] fix: streaming iterator recursed per empty shard and
 never ended after an error

---
 src/reader.rs | 68 ++++++++++++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 394dcc8..b1b953c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1302,42 +1302,44 @@ impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
     type Item = Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_global_idx >= self.total_items {
-            return None;
-        }
-
-        // 1. Try to pull from current loaded shard
-        if let Some(item) = self.current_items_in_shard.next() {
-            self.current_global_idx += 1;
-            return Some(Ok(item));
-        }
+        while self.current_global_idx < self.total_items {
+            // 1. Try to pull from current loaded shard
+            if let Some(item) = self.current_items_in_shard.next() {
+                self.current_global_idx += 1;
+                return Some(Ok(item));
+            }
 
-        // 2. Buffer empty? Load next shard
-        if self.current_shard_idx >= self.container.child_count as usize {
-            return Some(Err(ParcodeError::Internal(
-                "Iterator mismatch: runs out of shards".into(),
-            )));
-        }
+            // 2. Buffer empty? Load next shard
+            if self.current_shard_idx >= self.container.child_count as usize {
+                self.total_items = self.current_global_idx; // Nothing more to yield after this
+                return Some(Err(ParcodeError::Internal(
+                    "Iterator mismatch: runs out of shards".into(),
+                )));
+            }
 
-        // Load logic
-        let next_shard_res = self
-            .container
-            .get_child_by_index(self.current_shard_idx)
-            .and_then(|node| {
-                let payload = node.read_raw()?;
-                let mut cursor = std::io::Cursor::new(payload.as_ref());
-                let children = node.children()?;
-                let mut child_iter = children.into_iter();
-                T::read_slice_from_shard(&mut cursor, &mut child_iter)
-            });
-
-        match next_shard_res {
-            Ok(items) => {
-                self.current_items_in_shard = items.into_iter();
-                self.current_shard_idx += 1;
-                self.next()
+            // Load logic
+            let next_shard_res = self
+                .container
+                .get_child_by_index(self.current_shard_idx)
+                .and_then(|node| {
+                    let payload = node.read_raw()?;
+                    let mut cursor = std::io::Cursor::new(payload.as_ref());
+                    let children = node.children()?;
+                    let mut child_iter = children.into_iter();
+                    T::read_slice_from_shard(&mut cursor, &mut child_iter)
+                });
+
+            match next_shard_res {
+                Ok(items) => {
+                    self.current_items_in_shard = items.into_iter();
+                    self.current_shard_idx += 1;
+                }
+                Err(e) => {
+                    self.total_items = self.current_global_idx; // Nothing more to yield
+                    return Some(Err(e));
+                }
             }
-            Err(e) => Some(Err(e)),
         }
+        None
     }
 }
-- 
2.43.0


From 1df49e47b9f5bb85cbb6aae8e46f6cffb135f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 11/13] fix: inspecting a damaged run-length table overflowed
 the shard count

---
 src/inspector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inspector.rs b/src/inspector.rs
index 784af44..482188b 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -141,7 +141,7 @@ impl ParcodeInspector {
                     let distribution = format!(
                         "Vec<{}> items across {} logical shards",
                         total_items,
-                        runs.iter().map(|r| r.repeat).sum::<u32>()
+                        runs.iter().map(|r| u64::from(r.repeat)).sum::<u64>()
                     );
                     return ("Vec Container".to_string(), Some(distribution));
                 }
-- 
2.43.0


From 6bd834994853b9b8044b3ef8e1dd457e41fa669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 12/13] fix: inspecting a damaged file with shared or deeply
 nested chunks never ended or overflowed the stack

---
 src/inspector.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/inspector.rs b/src/inspector.rs
index 482188b..2f9a849 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -8,11 +8,14 @@
 //! - **Optimization:** Verifying that your `#[parcode(chunkable)]` and `#[parcode(map)]` attributes are working as intended.
 //! - **Debugging:** visualizing the dependency graph of your serialized data.
 
-use crate::error::Result;
+use crate::error::{ParcodeError, Result};
 use crate::reader::{ChunkNode, ParcodeFile};
 use serde::{Deserialize, Serialize};
 use std::path::Path;
 
+/// Deepest chunk nesting an inspection follows before giving up with an error.
+const MAX_INSPECT_DEPTH: usize = 512;
+
 /// A structural report of a Parcode file.
 #[derive(Debug, Serialize)]
 pub struct DebugReport {
@@ -57,7 +60,9 @@ impl ParcodeInspector {
     /// Inspects an already open file.
     pub fn inspect_file(file: &ParcodeFile) -> Result<DebugReport> {
         let root = file.root_node()?;
-        let tree = Self::inspect_node(&root)?;
+        // In a well-formed file chunks do not overlap: all of them together fit in the file.
+        let mut bytes_left = file.file_size();
+        let tree = Self::inspect_node(&root, &mut bytes_left, 0)?;
 
         Ok(DebugReport {
             file_size: file.file_size(),
@@ -76,7 +81,14 @@ impl ParcodeInspector {
         Self::inspect_file(&file)
     }
 
-    fn inspect_node(node: &ChunkNode<'_>) -> Result<ChunkInfo> {
+    fn inspect_node(node: &ChunkNode<'_>, bytes_left: &mut u64, depth: usize) -> Result<ChunkInfo> {
+        if depth > MAX_INSPECT_DEPTH {
+            return Err(ParcodeError::Format("Chunks nested too deeply".into()));
+        }
+        *bytes_left = bytes_left
+            .checked_sub(node.length())
+            .ok_or_else(|| ParcodeError::Format("Chunks overlap".into()))?;
+
         let raw_meta = node.meta();
         let algo_id = raw_meta.compression_method();
         let algo_name = match algo_id {
@@ -91,7 +103,7 @@ impl ParcodeInspector {
         if node.child_count() > 0 {
             let children = node.children()?;
             for child in children {
-                children_info.push(Self::inspect_node(&child)?);
+                children_info.push(Self::inspect_node(&child, bytes_left, depth + 1)?);
             }
         }
 
-- 
2.43.0


From 9933da6cebc4407243f17a1e05fc2c5be6072795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 13/13] fix: shards missing from a damaged run-length table
 were silently dropped from the vector

---
 src/reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index b1b953c..a67b0e7 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -985,6 +985,13 @@ impl<'a> ChunkNode<'a> {
             )));
         }
 
+        if current_shard_idx != self.child_count as usize {
+            return Err(ParcodeError::Format(format!(
+                "Metadata mismatch: Container has {} shards, RLE={}",
+                self.child_count, current_shard_idx
+            )));
+        }
+
         if shard_jobs.is_empty() {
             return Ok(Vec::new());
         }
-- 
2.43.0

