From 9b81fc726951a400e11aaf88bf4f6ad024ecb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 01/25] fix: renaming or linking a name onto itself keeps the
 file

---
 stable-fs/src/fs.rs                        | 14 +++++++++++++-
 stable-fs/src/runtime/structure_helpers.rs |  9 ++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index dcd8d5c..4018092 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -872,7 +872,7 @@ impl FileSystem {
         let dst_dir = self.get_dir(new_fd)?;
 
         // create a new link
-        create_hard_link(
+        let link_created = create_hard_link(
             dst_dir.node,
             new_path,
             src_dir.node,
@@ -883,6 +883,18 @@ impl FileSystem {
             self.storage.as_mut(),
         )?;
 
+        if !link_created {
+            // both paths refer to the same file or directory, there is nothing to rename
+            let node = find_node(
+                src_dir.node,
+                old_path,
+                &mut self.names_cache,
+                self.storage.as_ref(),
+            )?;
+
+            return self.open_internal(node, FdStat::default(), OpenFlags::empty());
+        }
+
         // now unlink the older entry
         let (node, _metadata) = rm_dir_entry(
             src_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 61c0fdd..f77fbc1 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -106,7 +106,8 @@ pub fn find_node(
     }
 }
 
-// Create a hard link to an existing node
+// Create a hard link to an existing node.
+// Returns false if nothing had to be done, because both paths already refer to the same node.
 #[allow(clippy::too_many_arguments)]
 pub fn create_hard_link(
     parent_dir_node: Node,
@@ -117,13 +118,15 @@ pub fn create_hard_link(
     node_refcount: &BTreeMap<Node, usize>,
     names_cache: &mut FilenameCache,
     storage: &mut dyn Storage,
-) -> Result<(), Error> {
+) -> Result<bool, Error> {
     // Get the node and metadata, the node must exist in the source folder.
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
+        // the existing destination must not be deleted when it is the source itself
+        Ok(dst_node) if dst_node == src_node => return Ok(false),
         Ok(dst_node) => {
             let dst_meta = storage.get_metadata(dst_node)?;
 
@@ -177,7 +180,7 @@ pub fn create_hard_link(
         metadata.file_type,
     )?;
 
-    Ok(())
+    Ok(true)
 }
 
 pub fn create_dir_entry(
-- 
2.43.0


From 5bc85f8689a9eb5c9f87f5acdc4bfd2fcfe97a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 02/25] fix: a refused hard link to a directory has no effect

---
 stable-fs/src/runtime/structure_helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index f77fbc1..6841943 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -123,6 +123,11 @@ pub fn create_hard_link(
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
+    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
+    if !is_renaming && metadata.file_type == FileType::Directory {
+        return Err(Error::OperationNotPermitted);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         // the existing destination must not be deleted when it is the source itself
@@ -164,11 +169,6 @@ pub fn create_hard_link(
     //
     let (dir_node, leaf_name) = create_path(parent_dir_node, new_path, None, ctime, storage)?;
 
-    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
-    if !is_renaming && metadata.file_type == FileType::Directory {
-        return Err(Error::OperationNotPermitted);
-    }
-
     metadata.link_count += 1;
     storage.put_metadata(src_node, &metadata)?;
 
-- 
2.43.0


From e53ce393a61ab5128b28739b0e5f49ad53127d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 03/25] fix: a directory cannot be moved into itself

---
 stable-fs/src/runtime/structure_helpers.rs | 70 +++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 6841943..0cc592d 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -106,6 +106,53 @@ pub fn find_node(
     }
 }
 
+// Check if the directory is the given node or is located anywhere below it.
+fn is_same_or_below(root: Node, dir_node: Node, storage: &dyn Storage) -> Result<bool, Error> {
+    let mut pending = vec![root];
+
+    while let Some(node) = pending.pop() {
+        if node == dir_node {
+            return Ok(true);
+        }
+
+        let mut children = Vec::new();
+
+        storage.with_direntries(node, Some(0), &mut |_index, entry| {
+            children.push(entry.node);
+            true
+        });
+
+        for child in children {
+            if storage.get_metadata(child)?.file_type == FileType::Directory {
+                pending.push(child);
+            }
+        }
+    }
+
+    Ok(false)
+}
+
+// Find the deepest existing node on the given path.
+fn find_deepest_node(
+    parent_dir_node: Node,
+    path: &str,
+    storage: &dyn Storage,
+) -> Result<Node, Error> {
+    let (parts, _must_be_dir) = get_path_parts(path)?;
+
+    let mut cur_node = parent_dir_node;
+
+    for part in parts {
+        match find_entry_index(cur_node, part.as_bytes(), storage) {
+            Ok(index) => cur_node = storage.get_direntry(cur_node, index)?.node,
+            Err(Error::NoSuchFileOrDirectory) => break,
+            Err(err) => return Err(err),
+        }
+    }
+
+    Ok(cur_node)
+}
+
 // Create a hard link to an existing node.
 // Returns false if nothing had to be done, because both paths already refer to the same node.
 #[allow(clippy::too_many_arguments)]
@@ -128,8 +175,22 @@ pub fn create_hard_link(
         return Err(Error::OperationNotPermitted);
     }
 
+    // the starting directory has no name in the path that could be changed
+    if get_path_parts(src_path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
-        Err(Error::NoSuchFileOrDirectory) => {}
+        Err(Error::NoSuchFileOrDirectory) => {
+            // cannot move folder into itself
+            if metadata.file_type == FileType::Directory {
+                let dst_dir = find_deepest_node(parent_dir_node, new_path, storage)?;
+
+                if is_same_or_below(src_node, dst_dir, storage)? {
+                    return Err(Error::InvalidArgument);
+                }
+            }
+        }
         // the existing destination must not be deleted when it is the source itself
         Ok(dst_node) if dst_node == src_node => return Ok(false),
         Ok(dst_node) => {
@@ -145,6 +206,13 @@ pub fn create_hard_link(
                 return Err(Error::PermissionDenied);
             }
 
+            // cannot move folder into itself
+            if metadata.file_type == FileType::Directory
+                && is_same_or_below(src_node, dst_node, storage)?
+            {
+                return Err(Error::InvalidArgument);
+            }
+
             // cannot rename over an existing non-empty folder
             if dst_meta.file_type == FileType::Directory && dst_meta.size > 0 {
                 return Err(Error::DirectoryNotEmpty);
-- 
2.43.0


From 5d6d54a77a001cb31596a547f977b28466816260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 04/25] fix: an overwritten file releases its data and metadata

---
 stable-fs/src/runtime/structure_helpers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 0cc592d..68e3d09 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -219,7 +219,7 @@ pub fn create_hard_link(
             }
 
             // if the operation is allowed so far, try to delete the existing destination entry
-            rm_dir_entry(
+            let (_, removed_meta) = rm_dir_entry(
                 parent_dir_node,
                 new_path,
                 None,
@@ -228,6 +228,11 @@ pub fn create_hard_link(
                 names_cache,
                 storage,
             )?;
+
+            // that was the last link, release the file or directory
+            if removed_meta.link_count == 0 {
+                storage.rm_file(dst_node)?;
+            }
         }
         Err(err) => return Err(err),
     }
-- 
2.43.0


From 1c5b6338e4637ccd50dfe67b322ed4e270f09a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 05/25] fix: a refused rename of a mounted file has no effect

---
 stable-fs/src/runtime/structure_helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 68e3d09..02b4515 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -180,6 +180,11 @@ pub fn create_hard_link(
         return Err(Error::InvalidArgument);
     }
 
+    // the mounted file cannot lose its name
+    if is_renaming && storage.is_mounted(src_node) {
+        return Err(Error::TextFileBusy);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {
             // cannot move folder into itself
-- 
2.43.0


From 4b78bb1ccfaede3f757fb8f2df2fce145290d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 06/25] fix: a path with an invalid name is not created
 partially

---
 stable-fs/src/runtime/structure_helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 02b4515..8eb7fa8 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -322,6 +322,11 @@ pub fn create_path(
 ) -> Result<(Node, String), Error> {
     let (parts, _must_be_dir) = get_path_parts(path)?;
 
+    // do not create a part of the path, if any of its names is not valid
+    for part in parts.iter() {
+        FileName::new(part.as_bytes())?;
+    }
+
     let mut parent_node = parent_node;
     let mut cur_node = parent_node;
 
-- 
2.43.0


From 7457b8c75157dabd5b9ea4bbceccaf70421e0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 07/25] fix: opening after renumbering to a free number does
 not reuse a busy descriptor

---
 stable-fs/src/runtime/fd.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index 98762ec..e3548bf 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -82,12 +82,19 @@ impl FdTable {
 
     // Open a new file descriptor.
     pub fn open(&mut self, entry: FdEntry) -> Fd {
-        let fd = match self.free_fds.pop() {
-            Some(fd) => fd,
-            None => {
-                let fd = self.next_fd;
-                self.next_fd += 1;
-                fd
+        let fd = loop {
+            let fd = match self.free_fds.pop() {
+                Some(fd) => fd,
+                None => {
+                    let fd = self.next_fd;
+                    self.next_fd += 1;
+                    fd
+                }
+            };
+
+            // the number could be taken in the meantime by renumbering
+            if !self.table.contains_key(&fd) {
+                break fd;
             }
         };
 
-- 
2.43.0


From 292cb122615f6ff98d7cf76c2f171e6b105fe7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 08/25] fix: the root descriptor cannot be replaced by
 renumbering

---
 stable-fs/src/runtime/fd.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index e3548bf..bd167bb 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -110,6 +110,11 @@ impl FdTable {
             return Ok(());
         }
 
+        // the root descriptor cannot be renumbered
+        if src == ROOT_FD || dst == ROOT_FD {
+            return Err(Error::BadFileDescriptor);
+        }
+
         // cannot do renumbering between a file and a folder
         let src_entry: Option<&FdEntry> = self.table.get(&src);
         let dst_entry: Option<&FdEntry> = self.table.get(&dst);
-- 
2.43.0


From 0e5e753ef9a5a0ebe5cbd917b95eb66c398f407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 09/25] fix: renumbering a closed descriptor onto itself is an
 error

---
 stable-fs/src/runtime/fd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index bd167bb..bba7226 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -106,6 +106,10 @@ impl FdTable {
     // Copy a file descriptor to a new number, the source descriptor is closed in the process.
     // If the destination descriptor is busy, it is closed in the process.
     pub fn renumber(&mut self, src: Fd, dst: Fd) -> Result<(), Error> {
+        if !self.table.contains_key(&src) {
+            return Err(Error::BadFileDescriptor);
+        }
+
         if src == dst {
             return Ok(());
         }
-- 
2.43.0


From 0e0eb94b8cf9ff1c680c062b6c66e8d521a182a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 10/25] fix: seeking by the extreme values does not overflow

---
 stable-fs/src/runtime/file.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/stable-fs/src/runtime/file.rs b/stable-fs/src/runtime/file.rs
index d979d91..6d62b85 100644
--- a/stable-fs/src/runtime/file.rs
+++ b/stable-fs/src/runtime/file.rs
@@ -50,21 +50,17 @@ impl File {
                 delta as FileSize
             }
             Whence::CUR => {
-                let back = if delta < 0 {
-                    (-delta).try_into().map_err(|_| Error::InvalidArgument)?
-                } else {
-                    0
-                };
-                let fwd = if delta >= 0 { delta as FileSize } else { 0 };
-
-                if self.cursor < back {
-                    // seeking before zero position
-                    return Err(Error::InvalidArgument);
-                }
-                self.cursor + fwd - back
+                // seeking before zero position, or above the maximum possible position
+                self.cursor
+                    .checked_add_signed(delta)
+                    .ok_or(Error::InvalidArgument)?
             }
             Whence::END => {
-                let back: FileSize = (-delta).try_into().map_err(|_| Error::InvalidSeek)?;
+                if delta > 0 {
+                    return Err(Error::InvalidSeek);
+                }
+
+                let back: FileSize = delta.unsigned_abs();
                 if back > size {
                     return Err(Error::InvalidSeek);
                 }
-- 
2.43.0


From 9de6d728abbb9fefb4581dee945d51fa248d290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 11/25] fix: files cannot grow beyond the maximum supported
 size

---
 stable-fs/src/storage/stable.rs    | 13 ++++++++-----
 stable-fs/src/storage/transient.rs | 19 +++++++++++--------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f9ad4bf..9228675 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -608,9 +608,9 @@ impl<M: Memory> StableStorage<M> {
             }
         }
 
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        let max_size = new_meta.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+
+        if new_meta.size > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
@@ -907,9 +907,12 @@ impl<M: Memory> Storage for StableStorage<M> {
             return Ok(0);
         }
 
-        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
 
-        if offset + buf.len() as FileSize > max_size {
+        if offset.saturating_add(buf.len() as FileSize) > max_size {
             return Err(Error::FileTooLarge);
         }
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 313dbe0..6e25b77 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -18,7 +18,7 @@ use crate::{
 
 use super::types::{
     DUMMY_DOT_DOT_ENTRY, DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY, DUMMY_DOT_ENTRY_INDEX,
-    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX,
+    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX, MAX_FILE_SIZE,
 };
 
 // The root node ID.
@@ -105,9 +105,9 @@ impl TransientStorage {
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
-        {
+        let max_size = new_meta.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+
+        if new_meta.size > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
@@ -456,11 +456,14 @@ impl Storage for TransientStorage {
             return Ok(0);
         }
 
-        let end = offset + buf.len() as FileSize;
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
 
-        if let Some(max_size) = metadata.maximum_size_allowed
-            && end > max_size
-        {
+        let end = offset.saturating_add(buf.len() as FileSize);
+
+        if end > max_size {
             return Err(Error::FileTooLarge);
         }
 
-- 
2.43.0


From f66b694f0f634a61e6e346df0f8b46a12391c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 12/25] fix: the last chunks of the biggest possible file are
 accessible

---
 stable-fs/src/storage/chunk_iterator.rs | 4 +++-
 stable-fs/src/storage/ptr_cache.rs      | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/stable-fs/src/storage/chunk_iterator.rs b/stable-fs/src/storage/chunk_iterator.rs
index fb97569..a3f3d85 100644
--- a/stable-fs/src/storage/chunk_iterator.rs
+++ b/stable-fs/src/storage/chunk_iterator.rs
@@ -2,6 +2,7 @@ use crate::storage::FileSize;
 use crate::storage::Node;
 use crate::storage::types::FileChunkIndex;
 use crate::storage::types::FileChunkPtr;
+use crate::storage::types::MAX_FILE_CHUNK_COUNT;
 use ic_stable_structures;
 use ic_stable_structures::BTreeMap;
 use ic_stable_structures::Memory;
@@ -28,7 +29,8 @@ impl<'a, M: Memory> ChunkV2Iterator<'a, M> {
         v2_chunk_ptr: &'a mut BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) -> Self {
         let cur_index = (offset / chunk_size) as FileChunkIndex;
-        let last_index_excluded = (last_address / chunk_size + 1) as FileChunkIndex;
+        let last_index_excluded =
+            (last_address / chunk_size + 1).min(MAX_FILE_CHUNK_COUNT as FileSize) as FileChunkIndex;
 
         Self {
             node,
diff --git a/stable-fs/src/storage/ptr_cache.rs b/stable-fs/src/storage/ptr_cache.rs
index 87660d8..f768e72 100644
--- a/stable-fs/src/storage/ptr_cache.rs
+++ b/stable-fs/src/storage/ptr_cache.rs
@@ -48,8 +48,8 @@ impl PtrCache {
         to_index: FileChunkIndex,
         v2_chunk_ptr: &BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) {
-        let to_index = to_index.min(from_index + MAX_CACHE_CHUNKS);
-        let to_index = to_index.max(from_index + MIN_CACHE_CHUNKS);
+        let to_index = to_index.min(from_index.saturating_add(MAX_CACHE_CHUNKS));
+        let to_index = to_index.max(from_index.saturating_add(MIN_CACHE_CHUNKS));
         let to_index = to_index.min(MAX_FILE_CHUNK_COUNT);
 
         if from_index >= to_index {
-- 
2.43.0


From c72aa0f5fe895e42c0acd587ac14773f8e6ba574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 13/25] fix: shrinking a file keeps its last chunk and does not
 create new chunks

---
 stable-fs/src/storage/stable.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 9228675..1a0e709 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -644,9 +644,13 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk_v1(
                 node,
                 first_deletable_index - 1,
@@ -677,8 +681,14 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && self
+                .v2_filechunk
+                .v2_chunk_ptr
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_chunks_v2(node, new_size, &ZEROES[0..(chunk_size - offset as usize)])?;
         }
 
-- 
2.43.0


From 13059f1c2e980254f4171b512226d08ea1000400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 14/25] fix: shrinking a file on the transient storage discards
 its data above the new size

---
 stable-fs/src/storage/transient.rs | 37 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 6e25b77..a7a40b6 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -156,18 +156,31 @@ impl Storage for TransientStorage {
 
     // Update the metadata associated with the node.
     fn put_metadata(&mut self, node: Node, metadata: &Metadata) -> Result<(), Error> {
-        let meta_storage = if self.is_mounted(node) {
-            &mut self.mounted_meta
+        let is_mounted = self.is_mounted(node);
+
+        let meta_storage = if is_mounted {
+            &self.mounted_meta
         } else {
-            &mut self.metadata
+            &self.metadata
         };
 
-        if let Some(existing) = meta_storage.get(&node) {
-            Self::validate_metadata_update(Some(existing), metadata)?;
-        } else {
-            Self::validate_metadata_update(None, metadata)?;
+        let existing = meta_storage.get(&node);
+
+        Self::validate_metadata_update(existing, metadata)?;
+
+        // if the size was reduced, we need to delete the file chunks above the file size
+        let is_reduced = existing.is_some_and(|existing| metadata.size < existing.size);
+
+        if is_reduced && !is_mounted {
+            self.resize_file(node, metadata.size)?;
         }
 
+        let meta_storage = if is_mounted {
+            &mut self.mounted_meta
+        } else {
+            &mut self.metadata
+        };
+
         meta_storage.insert(node, metadata.clone());
 
         Ok(())
@@ -284,7 +297,7 @@ impl Storage for TransientStorage {
 
         let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
 
-        let range = (node, 0)..(node, MAX_FILE_CHUNK_COUNT);
+        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
 
         // delete v1 chunks
         let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
@@ -298,9 +311,13 @@ impl Storage for TransientStorage {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk(
                 node,
                 first_deletable_index - 1,
-- 
2.43.0


From a9ddf54fdb8c0dafca5be059e4e9d092e39931d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 15/25] fix: a failed mount does not leave the memory mounted

---
 stable-fs/src/storage/stable.rs    | 9 +++++++--
 stable-fs/src/storage/transient.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 1a0e709..41b6a10 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1025,9 +1025,14 @@ impl<M: Memory> Storage for StableStorage<M> {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        // do not leave the memory mounted, if the mount failed
+        if result.is_err() {
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index a7a40b6..b801793 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -375,9 +375,14 @@ impl Storage for TransientStorage {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        // do not leave the memory mounted, if the mount failed
+        if result.is_err() {
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
-- 
2.43.0


From 6b62a526f21eacf11ea0384acc5d76a5b63654c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 16/25] fix: storing a mounted file bigger than the limit of
 its host file does not fail halfway

---
 stable-fs/src/storage/stable.rs    | 9 +++++++--
 stable-fs/src/storage/transient.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 41b6a10..cc6491e 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1093,6 +1093,13 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // the host file takes over the size limit of the mounted file before it receives the data
+        if let Err(err) = self.put_metadata(node, &meta) {
+            self.active_mounts.insert(node, memory);
+
+            return Err(err);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
@@ -1116,8 +1123,6 @@ impl<M: Memory> Storage for StableStorage<M> {
             remainder -= to_read;
         }
 
-        self.put_metadata(node, &meta)?;
-
         self.mount_node(node, memory, MountedFileSizePolicy::PreviousOrZero)?;
 
         Ok(())
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index b801793..31fab84 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -443,6 +443,13 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // the host file takes over the size limit of the mounted file before it receives the data
+        if let Err(err) = self.put_metadata(node, &meta) {
+            self.active_mounts.insert(node, memory);
+
+            return Err(err);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
@@ -463,8 +470,6 @@ impl Storage for TransientStorage {
             remainder -= to_read;
         }
 
-        self.put_metadata(node, &meta)?;
-
         self.mount_node(node, memory, MountedFileSizePolicy::PreviousOrZero)?;
 
         Ok(())
-- 
2.43.0


From 3909a904b3d97956625ef3a3c09d5a2360d15694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 17/25] fix: links of a mounted file are counted on its host
 file

---
 stable-fs/src/storage/stable.rs    | 27 +++++++++++++++++++++++++++
 stable-fs/src/storage/transient.rs |  8 ++++++++
 2 files changed, 35 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index cc6491e..fdd1fea 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -767,6 +767,30 @@ impl<M: Memory> Storage for StableStorage<M> {
             &mut self.v2_filechunk,
         );
 
+        // the links belong to the host file, they must not be lost after unmounting
+        if is_mounted {
+            let host_rec = self.meta_provider.get_metadata(
+                node,
+                false,
+                &self.v2_filechunk.v2_chunk_ptr,
+                &self.v2_filechunk.v2_chunks,
+            );
+
+            if let Some((mut host_meta, host_meta_ptr)) = host_rec
+                && host_meta.link_count != metadata.link_count
+            {
+                host_meta.link_count = metadata.link_count;
+
+                self.meta_provider.put_metadata(
+                    node,
+                    false,
+                    &host_meta,
+                    host_meta_ptr,
+                    &mut self.v2_filechunk,
+                );
+            }
+        }
+
         Ok(())
     }
 
@@ -1014,7 +1038,10 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         let old_size = if let Ok(old_mounted_meta) = self.get_metadata(node) {
             let size = old_mounted_meta.size;
+            // the links could have changed since the memory was mounted the last time
+            let link_count = file_meta.link_count;
             file_meta = old_mounted_meta;
+            file_meta.link_count = link_count;
             Some(size)
         } else {
             None
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 31fab84..87df7ad 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -183,6 +183,11 @@ impl Storage for TransientStorage {
 
         meta_storage.insert(node, metadata.clone());
 
+        // the links belong to the host file, they must not be lost after unmounting
+        if is_mounted && let Some(host_meta) = self.metadata.get_mut(&node) {
+            host_meta.link_count = metadata.link_count;
+        }
+
         Ok(())
     }
 
@@ -364,7 +369,10 @@ impl Storage for TransientStorage {
 
         let old_size = if let Ok(old_mounted_meta) = self.get_metadata(node) {
             let size = old_mounted_meta.size;
+            // the links could have changed since the memory was mounted the last time
+            let link_count = file_meta.link_count;
             file_meta = old_mounted_meta;
+            file_meta.link_count = link_count;
             Some(size)
         } else {
             None
-- 
2.43.0


From e2476cd2ec7a376c024dee4b1516cba234577db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 18/25] fix: appending cursor of a truncated file starts at
 zero

---
 stable-fs/src/fs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 4018092..6981fea 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -641,10 +641,12 @@ impl FileSystem {
                     return Err(Error::OperationNotPermitted);
                 }
 
-                let file = File::new(node, stat, self.storage.as_mut())?;
+                let mut file = File::new(node, stat, self.storage.as_mut())?;
 
                 if flags.contains(OpenFlags::TRUNCATE) {
                     file.truncate(self.storage.as_mut())?;
+                    // the end of file has moved
+                    file.cursor = 0;
                 }
 
                 let fd = self.fd_table.open(FdEntry::File(file));
-- 
2.43.0


From 563d735aad334c198bec9b081481a30ed8830320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 19/25] fix: attributes of a descriptor renumbered to a
 standard stream number are those of its file

---
 stable-fs/src/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 6981fea..d1b644d 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -466,7 +466,8 @@ impl FileSystem {
     // Get the metadata for a given file descriptor
     pub fn metadata(&self, fd: Fd) -> Result<Metadata, Error> {
         // return fake metadata for the std channels, it is read-only
-        if fd <= STDERR_FD {
+        // (unless another descriptor was renumbered to the number of a std channel)
+        if fd <= STDERR_FD && self.fd_table.get(fd).is_none() {
             return Ok(Metadata {
                 node: u64::MAX, // return fake, unusable node here
                 file_type: FileType::RegularFile,
-- 
2.43.0


From a7037bbf142ba5bbc764da155f08de4f54f75777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 20/25] fix: transient storage refuses to change the type of an
 object, as the stable storage does

---
 stable-fs/src/storage/transient.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 87df7ad..5ee05bd 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -105,18 +105,24 @@ impl TransientStorage {
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
+        if let Some(old_meta) = old_meta {
+            // do not allow changing file type
+            if old_meta.file_type != new_meta.file_type {
+                return Err(Error::FunctionNotSupported);
+            }
+
+            // changing node is not allowed
+            if old_meta.node != new_meta.node {
+                return Err(Error::IllegalByteSequence);
+            }
+        }
+
         let max_size = new_meta.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
 
         if new_meta.size > max_size.min(MAX_FILE_SIZE) {
             return Err(Error::FileTooLarge);
         }
 
-        if let Some(old_meta) = old_meta
-            && old_meta.node != new_meta.node
-        {
-            return Err(Error::InvalidArgument);
-        }
-
         Ok(())
     }
 }
-- 
2.43.0


From e6e2a9e661134ed9c70ce2f7e61e7e32071fedaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 21/25] fix: setting outdated metadata does not break link
 counts and directories

---
 stable-fs/src/fs.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index d1b644d..65df77d 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -488,6 +488,22 @@ impl FileSystem {
     // Update metadata of a given file descriptor
     pub fn set_metadata(&mut self, fd: Fd, metadata: Metadata) -> Result<(), Error> {
         let node = self.get_node(fd)?;
+        let current = self.storage.get_metadata(node)?;
+
+        let mut metadata = metadata;
+
+        // the links, the directory entries and the place of the data are maintained
+        // by the file system, the given metadata can be outdated
+        metadata.link_count = current.link_count;
+        metadata.chunk_type = current.chunk_type;
+        metadata.first_dir_entry = current.first_dir_entry;
+        metadata.last_dir_entry = current.last_dir_entry;
+
+        if current.file_type == FileType::Directory {
+            metadata.size = current.size;
+            metadata.maximum_size_allowed = current.maximum_size_allowed;
+        }
+
         self.storage.put_metadata(node, &metadata)?;
 
         Ok(())
-- 
2.43.0


From ce265a529f2d9cea49954a9ef4392f0e1c1c31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 22/25] fix: reading V1 chunks close to the maximum file size
 does not lose data

---
 stable-fs/src/storage/stable.rs    | 5 +++--
 stable-fs/src/storage/transient.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index fdd1fea..f4984b7 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -436,8 +436,9 @@ impl<M: Memory> StableStorage<M> {
         buf: &mut [u8],
     ) -> Result<FileSize, Error> {
         let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
-        let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-            as FileChunkIndex;
+        // do not count chunks past the file end, their index might not fit its type
+        let read_end = (offset + buf.len() as FileSize).min(file_size);
+        let end_index = (read_end / FILE_CHUNK_SIZE_V1 as FileSize + 1) as FileChunkIndex;
 
         let mut chunk_offset = offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 5ee05bd..bf8b746 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -240,8 +240,9 @@ impl Storage for TransientStorage {
         } else {
             let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
 
-            let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-                as FileChunkIndex;
+            // do not count chunks past the file end, their index might not fit its type
+            let read_end = (offset + buf.len() as FileSize).min(file_size);
+            let end_index = (read_end / FILE_CHUNK_SIZE_V1 as FileSize + 1) as FileChunkIndex;
 
             let mut chunk_offset =
                 offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
-- 
2.43.0


From 47d6d804f73f02f906a2c457e17a93a59601a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 23/25] fix: a mount that exceeds the file size limit left its
 new host file behind

mount_memory_file created the host file before it found that the given
size cannot be mounted, and then failed. The size is now checked before
anything is created.
---
 stable-fs/src/fs.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 65df77d..1fcd989 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -12,7 +12,9 @@ use crate::{
     },
     storage::{
         Storage,
-        types::{DirEntry, DirEntryIndex, FileType, Metadata, MountedFileSizePolicy, Node},
+        types::{
+            DirEntry, DirEntryIndex, FileType, MAX_FILE_SIZE, Metadata, MountedFileSizePolicy, Node,
+        },
     },
 };
 
@@ -189,6 +191,13 @@ impl FileSystem {
     ) -> Result<(), Error> {
         let filename = filename.strip_prefix('/').unwrap_or(filename);
 
+        // do not create a host file, if the memory cannot be mounted on it
+        if policy.get_mounted_file_size(None, memory.size()) > MAX_FILE_SIZE
+            && let Err(Error::NoSuchFileOrDirectory) = self.open_metadata(self.root_fd, filename)
+        {
+            return Err(Error::FileTooLarge);
+        }
+
         // create a file for the mount
         let fd = self.open(
             self.root_fd,
-- 
2.43.0


From c1880011f6bce4b6c02ae82dda0e9833b4f36bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 24/25] fix: a listing resumed at a special entry goes on with
 the entries of the directory

---
 stable-fs/src/storage/stable.rs    | 6 ++++++
 stable-fs/src/storage/transient.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f4984b7..ea9057a 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -868,6 +868,12 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        // the special entries precede all the others
+        let initial_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index.min(max_index),
+        };
+
         for en in self
             .direntry
             .range((node, initial_index)..(node, max_index))
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index bf8b746..54c1d66 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -611,6 +611,12 @@ impl Storage for TransientStorage {
 
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        // the special entries precede all the others
+        let initial_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index.min(max_index),
+        };
+
         for ((_node, index), entry) in self
             .direntry
             .range((node, initial_index)..(node, max_index))
-- 
2.43.0


From 07ad449db49156375ce188237d86579a0d250afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 25/25] fix: a deep tree is removed without exhausting the
 stack

---
 stable-fs/src/fs.rs | 82 +++++++++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 22 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 1fcd989..bcde88c 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -817,45 +817,83 @@ impl FileSystem {
             return self.remove_file(parent, path);
         }
 
-        // Open the target directory. We use `OpenFlags::DIRECTORY` to ensure
-        //    the path is interpreted as a directory (or fail if it doesn't exist).
-        let dir_fd = self.open(parent, path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
+        // The directories being removed, from the outermost to the innermost one, with their names
+        // and the children left to remove (not a recursion, a deep tree must not exhaust the stack).
+        let mut pending = vec![self.start_removal(parent, path)?];
+        let mut result = Ok(());
 
-        let result = (|| {
-            // Find all directory children
-            let children = self.list_dir_internal(dir_fd, None)?;
+        while let Some((dir_fd, _name, children)) = pending.last_mut() {
+            let dir_fd = *dir_fd;
 
-            // For each child, figure out if it's a subdirectory or file and remove accordingly.
-            for (child_node, child_name) in children {
-                let child_meta = self.storage.get_metadata(child_node)?;
+            // stop with the first child that could not be removed
+            let next_child = if result.is_ok() {
+                children.next()
+            } else {
+                None
+            };
 
-                match child_meta.file_type {
-                    FileType::Directory => {
-                        // Recurse into the subdirectory.
-                        self.remove_recursive(dir_fd, &child_name)?;
+            // For each child, figure out if it's a subdirectory or file and remove accordingly.
+            if let Some((child_node, child_name)) = next_child {
+                let child_type = self
+                    .storage
+                    .get_metadata(child_node)
+                    .map(|meta| meta.file_type);
+
+                match child_type {
+                    Ok(FileType::Directory) => {
+                        // Descend into the subdirectory.
+                        match self.start_removal(dir_fd, &child_name) {
+                            Ok(removal) => pending.push(removal),
+                            Err(err) => result = Err(err),
+                        }
                     }
-                    FileType::RegularFile => {
+                    Ok(FileType::RegularFile) => {
                         // Remove the file.
-                        self.remove_file(dir_fd, &child_name)?;
+                        result = self.remove_file(dir_fd, &child_name);
                     }
-                    FileType::SymbolicLink => {
+                    Ok(FileType::SymbolicLink) => {
                         unimplemented!("Symbolic links are not supported yet");
                     }
+                    Err(err) => result = Err(err),
                 }
+
+                continue;
             }
 
-            Ok(())
-        })();
+            if let Some((dir_fd, name, _children)) = pending.pop() {
+                let parent_fd = pending.last().map_or(parent, |(fd, _, _)| *fd);
 
-        // close the folder itself before its deletion
-        self.close(dir_fd)?;
+                // close the folder itself before its deletion
+                self.close(dir_fd)?;
 
-        // Now that it is empty, remove the directory entry from its parent.
-        self.remove_dir(parent, path)?;
+                // Now that it is empty, remove the directory entry from its parent.
+                result = self.remove_dir(parent_fd, &name).and(result);
+            }
+        }
 
         result
     }
 
+    // Open a directory and find all its children, before they are removed.
+    #[allow(clippy::type_complexity)]
+    fn start_removal(
+        &mut self,
+        parent: Fd,
+        path: &str,
+    ) -> Result<(Fd, String, std::vec::IntoIter<(Node, String)>), Error> {
+        // Open the target directory. We use `OpenFlags::DIRECTORY` to ensure
+        //    the path is interpreted as a directory (or fail if it doesn't exist).
+        let dir_fd = self.open(parent, path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
+
+        match self.list_dir_internal(dir_fd, None) {
+            Ok(children) => Ok((dir_fd, path.to_string(), children.into_iter())),
+            Err(err) => {
+                self.close(dir_fd)?;
+                Err(err)
+            }
+        }
+    }
+
     // Create a hard link to an existing file.
     pub fn create_hard_link(
         &mut self,
-- 
2.43.0

