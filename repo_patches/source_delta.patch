From bb2483e1d4a2a1804c661b19c87de6cfb92bafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 1/7] fix: don't resolve right-biased anchors whose insertion
 is not integrated

`has_anchor` accepts an anchor at the very end of what has been integrated
from a replica. That's right for anchors biased to the left, but one biased to
the right is attached to the following character. Resolving it before that
character arrived panicked instead of returning `None`.
---
 src/replica.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/replica.rs b/src/replica.rs
index 2b93869..1148a93 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -929,7 +929,19 @@ impl Replica {
     /// ```
     #[inline]
     pub fn resolve_anchor(&self, anchor: Anchor) -> Option<Length> {
-        if self.has_anchor(anchor.inner()) {
+        // An anchor biased to the right is attached to the character following
+        // its offset, so having all the characters up to that offset is not
+        // enough.
+        let has_anchor = match anchor.bias() {
+            AnchorBias::Left => self.has_anchor(anchor.inner()),
+            AnchorBias::Right => {
+                anchor.is_end_of_document()
+                    || self.version_map.get(anchor.inner().replica_id())
+                        > anchor.inner().offset()
+            },
+        };
+
+        if has_anchor {
             Some(self.run_tree.resolve_anchor(anchor))
         } else {
             None
-- 
2.43.0


From 6db0bd4d03f9293462aa66938078201902d67d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 2/7] fix: ignore edits that are already in the backlog

Receiving an insertion or a deletion again while the first copy was still
waiting for its context panicked.
---
 src/backlog.rs | 44 ++++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index fad467c..e3696ac 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -27,14 +27,11 @@ impl Backlog {
         }
     }
 
-    /// Inserts a new [`Deletion`] into the backlog.
+    /// Inserts a new [`Deletion`] into the backlog, or does nothing if it has
+    /// already been backlogged.
     ///
     /// Runs in `O(n)` in the number of deletions already in the backlog, with
     /// a best-case of `O(log n)`.
-    ///
-    /// # Panics
-    ///
-    /// Panics if the deletion has already been backlogged.
     #[inline]
     pub fn insert_deletion(&mut self, deletion: Deletion) {
         self.deletions
@@ -43,14 +40,11 @@ impl Backlog {
             .insert(deletion);
     }
 
-    /// Inserts a new [`Insertion`] into the backlog.
+    /// Inserts a new [`Insertion`] into the backlog, or does nothing if it has
+    /// already been backlogged.
     ///
     /// Runs in `O(n)` in the number of insertions already in the backlog, with
     /// a best-case of `O(log n)`.
-    ///
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been backlogged.
     #[inline]
     pub fn insert_insertion(&mut self, insertion: Insertion) {
         self.insertions
@@ -97,17 +91,15 @@ impl InsertionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been inserted.
     #[inline]
     fn insert(&mut self, insertion: Insertion) {
-        let offset = self
+        let search = self
             .insertions
-            .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
-            .unwrap_err();
+            .binary_search_by(|probe| probe.start().cmp(&insertion.start()));
 
-        self.insertions.insert(offset, insertion);
+        if let Err(offset) = search {
+            self.insertions.insert(offset, insertion);
+        }
     }
 }
 
@@ -142,19 +134,15 @@ impl DeletionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the deletion has already inserted.
     #[inline]
     fn insert(&mut self, deletion: Deletion) {
-        let offset = self
-            .deletions
-            .binary_search_by(|probe| {
-                probe.deletion_ts().cmp(&deletion.deletion_ts())
-            })
-            .unwrap_err();
-
-        self.deletions.insert(offset, deletion);
+        let search = self.deletions.binary_search_by(|probe| {
+            probe.deletion_ts().cmp(&deletion.deletion_ts())
+        });
+
+        if let Err(offset) = search {
+            self.deletions.insert(offset, deletion);
+        }
     }
 }
 
-- 
2.43.0


From 441e3749a5360a540e7622c1ad10bc9efb283f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 3/7] fix: don't leave merged edits in the backlog

An edit that was waiting in the backlog, became ready, and was received again
before the backlog was drained got merged directly, but its first copy stayed
in the backlog. Draining then panicked (debug builds), or never released any
of the following edits of that replica (release builds).
---
 src/backlog.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 src/replica.rs |  2 ++
 2 files changed, 43 insertions(+)

diff --git a/src/backlog.rs b/src/backlog.rs
index e3696ac..a445a13 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -58,6 +58,25 @@ impl Backlog {
     pub fn new() -> Self {
         Self::default()
     }
+
+    /// Removes a [`Deletion`] that's about to be merged from the backlog, if
+    /// it was there.
+    #[inline]
+    pub fn remove_deletion(&mut self, deletion: &Deletion) {
+        if let Some(backlog) = self.deletions.get_mut(&deletion.deleted_by()) {
+            backlog.remove(deletion);
+        }
+    }
+
+    /// Removes an [`Insertion`] that's about to be merged from the backlog, if
+    /// it was there.
+    #[inline]
+    pub fn remove_insertion(&mut self, insertion: &Insertion) {
+        if let Some(backlog) = self.insertions.get_mut(&insertion.inserted_by())
+        {
+            backlog.remove(insertion);
+        }
+    }
 }
 
 /// Stores the backlogged [`Insertion`]s of a particular replica.
@@ -101,6 +120,17 @@ impl InsertionsBacklog {
             self.insertions.insert(offset, insertion);
         }
     }
+
+    /// The insertions of a replica are merged in order, so one that can be
+    /// merged can only be at the front.
+    #[inline]
+    fn remove(&mut self, insertion: &Insertion) {
+        if let Some(first) = self.insertions.front() {
+            if first.start() == insertion.start() {
+                self.insertions.pop_front();
+            }
+        }
+    }
 }
 
 /// Stores the backlogged [`Deletion`]s of a particular replica.
@@ -144,6 +174,17 @@ impl DeletionsBacklog {
             self.deletions.insert(offset, deletion);
         }
     }
+
+    /// The deletions of a replica are merged in order, so one that can be
+    /// merged can only be at the front.
+    #[inline]
+    fn remove(&mut self, deletion: &Deletion) {
+        if let Some(first) = self.deletions.front() {
+            if first.deletion_ts() == deletion.deletion_ts() {
+                self.deletions.pop_front();
+            }
+        }
+    }
 }
 
 /// An iterator over the backlogged deletions that are ready to be
diff --git a/src/replica.rs b/src/replica.rs
index 1148a93..efc05e5 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -715,6 +715,7 @@ impl Replica {
         if deletion.is_no_op() || self.has_merged_deletion(deletion) {
             Vec::new()
         } else if self.can_merge_deletion(deletion) {
+            self.backlog.remove_deletion(deletion);
             self.merge_unchecked_deletion(deletion)
         } else {
             self.backlog.insert_deletion(deletion.clone());
@@ -774,6 +775,7 @@ impl Replica {
         if insertion.is_no_op() || self.has_merged_insertion(insertion) {
             None
         } else if self.can_merge_insertion(insertion) {
+            self.backlog.remove_insertion(insertion);
             Some(self.merge_unchecked_insertion(insertion))
         } else {
             self.backlog.insert_insertion(insertion.clone());
-- 
2.43.0


From c9eec8aa524cc369cd9e0e00ab13cfe12c2714ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 4/7] fix: don't overflow on inclusive ranges that end at
 usize::MAX

`replica.deleted(..=usize::MAX)` overflowed while converting the bounds: with
overflow checks it panicked about arithmetic, without them the end wrapped to
0 and the deletion was silently a no-op.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8c3be08..9f74c9e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -112,12 +112,12 @@ where
 
     let start = match range.start_bound() {
         Bound::Included(&n) => n,
-        Bound::Excluded(&n) => n + 1,
+        Bound::Excluded(&n) => n.saturating_add(1),
         Bound::Unbounded => lo,
     };
 
     let end = match range.end_bound() {
-        Bound::Included(&n) => n + 1,
+        Bound::Included(&n) => n.saturating_add(1),
         Bound::Excluded(&n) => n,
         Bound::Unbounded => hi,
     };
-- 
2.43.0


From 88b05541d9b58d100713ffed4d5ad15da3f10fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 5/7] fix: refuse malformed edits instead of overflowing

Deserializing an Insertion or a Deletion whose start and length add up to
more than usize::MAX panicked (or wrapped around), and a sequence announcing
a huge length made the visitor allocate that much memory up front.
---
 src/deletion.rs | 5 ++++-
 src/encode.rs   | 3 ++-
 src/text.rs     | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/deletion.rs b/src/deletion.rs
index fe166e9..ccc0b82 100644
--- a/src/deletion.rs
+++ b/src/deletion.rs
@@ -277,9 +277,12 @@ mod encode {
                     let (run_ts, buf) = RunTs::decode(buf)?;
                     let (offset, buf) = Length::decode(buf)?;
                     let (length, buf) = Length::decode(buf)?;
+                    let end_offset = offset
+                        .checked_add(length)
+                        .ok_or(IntDecodeError::Overflow)?;
                     let start = InnerAnchor::new(replica_id, offset, run_ts);
                     let end =
-                        InnerAnchor::new(replica_id, offset + length, run_ts);
+                        InnerAnchor::new(replica_id, end_offset, run_ts);
                     Ok(((start, end), buf))
                 },
             }
diff --git a/src/encode.rs b/src/encode.rs
index 4cc71ed..a7d6693 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -181,7 +181,8 @@ mod serde {
                         where
                             A: ::serde::de::SeqAccess<'de>,
                         {
-                            let size = seq.size_hint().unwrap_or(0);
+                            // The hint comes from the (untrusted) input.
+                            let size = seq.size_hint().unwrap_or(0).min(4096);
                             let mut buf =
                                 ::alloc::vec::Vec::<u8>::with_capacity(size);
                             while let Some(byte) = seq.next_element()? {
diff --git a/src/text.rs b/src/text.rs
index 554cf42..6b2f4e6 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -140,7 +140,9 @@ mod encode {
             let (inserted_by, buf) = ReplicaId::decode(buf)?;
             let (start, buf) = usize::decode(buf)?;
             let (len, buf) = usize::decode(buf)?;
-            let text = Self { inserted_by, range: start..start + len };
+            let end =
+                start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+            let text = Self { inserted_by, range: start..end };
             Ok((text, buf))
         }
     }
-- 
2.43.0


From 9d53582222045e026d1cfba76f117a80c7923b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:55 +0000
Subject: [PATCH 6/7] fix: refuse malformed replica contents instead of
 panicking

Decoding a Replica whose checksum is right but whose contents are malformed
could panic (leaf index or number of children out of bounds, text lengths
overflowing) or abort by allocating as many leaves as the input asked for.
---
 src/backlog.rs  |  5 ++++-
 src/gtree.rs    | 13 ++++++++++++-
 src/run_tree.rs | 38 ++++++++++++++++++++++++++++++++------
 3 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index a445a13..1de28bf 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -490,9 +490,12 @@ pub(crate) mod encode {
                 let (run_ts, new_buf) = RunTs::decode(new_buf)?;
                 let (lamport_ts, new_buf) = LamportTs::decode(new_buf)?;
 
+                let end =
+                    start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+
                 let insertion = Insertion::new(
                     anchor,
-                    Text::new(replica_id, start..start + len),
+                    Text::new(replica_id, start..end),
                     lamport_ts,
                     run_ts,
                 );
diff --git a/src/gtree.rs b/src/gtree.rs
index 919eb20..a3febd7 100644
--- a/src/gtree.rs
+++ b/src/gtree.rs
@@ -3689,6 +3689,7 @@ pub(crate) mod encode {
     pub(crate) enum InodeDecodeError {
         Bool(BoolDecodeError),
         Int(IntDecodeError),
+        TooManyChildren(usize),
     }
 
     impl From<BoolDecodeError> for InodeDecodeError {
@@ -3710,6 +3711,13 @@ pub(crate) mod encode {
             let err: &dyn core::fmt::Display = match self {
                 Self::Bool(err) => err,
                 Self::Int(err) => err,
+                Self::TooManyChildren(num_children) => {
+                    return write!(
+                        f,
+                        "Inode couldn't be decoded: it has {num_children} \
+                         children",
+                    );
+                },
             };
 
             write!(f, "Inode couldn't be decoded: {err}")
@@ -3731,7 +3739,10 @@ pub(crate) mod encode {
             let (num_children, buf) = usize::decode(buf)?;
             let (has_leaves, mut buf) = bool::decode(buf)?;
             let mut children = [NodeIdx::dangling(); N];
-            for idx in &mut children[..num_children] {
+            let used_children = children
+                .get_mut(..num_children)
+                .ok_or(InodeDecodeError::TooManyChildren(num_children))?;
+            for idx in used_children {
                 let (node_idx, new_buf) = NodeIdx::decode(buf)?;
                 *idx = node_idx;
                 buf = new_buf;
diff --git a/src/run_tree.rs b/src/run_tree.rs
index e7ce43f..d4e3a8f 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -1185,6 +1185,8 @@ pub(crate) mod encode {
         Bool(BoolDecodeError),
         Inode(InodeDecodeError),
         Int(IntDecodeError),
+        InvalidLeaf(usize),
+        NotEnoughLeaves,
     }
 
     impl From<BoolDecodeError> for RunTreeDecodeError {
@@ -1215,6 +1217,17 @@ pub(crate) mod encode {
                 Self::Bool(err) => err,
                 Self::Inode(err) => err,
                 Self::Int(err) => err,
+                Self::InvalidLeaf(idx) => {
+                    return write!(
+                        f,
+                        "RunTree: couldn't be decoded: there's no leaf {idx}",
+                    );
+                },
+                Self::NotEnoughLeaves => {
+                    return f.write_str(
+                        "RunTree: couldn't be decoded: leaves are missing",
+                    );
+                },
             };
 
             write!(f, "RunTree: couldn't be decoded: {err}")
@@ -1248,6 +1261,11 @@ pub(crate) mod encode {
             let dummy_lnode =
                 Lnode::new(EditRun::dummy(), InodeIdx::dangling());
 
+            // Every leaf takes up at least one byte.
+            if num_leaves > buf.len() as u64 {
+                return Err(RunTreeDecodeError::NotEnoughLeaves);
+            }
+
             ctx.lnodes.resize(num_leaves as usize, dummy_lnode);
 
             for _ in 0..num_replicas {
@@ -1434,21 +1452,29 @@ pub(crate) mod encode {
             let (leaf_idx, buf) = LeafIdx::<EditRun>::decode(buf)?;
             let (parent_idx, buf) = InodeIdx::decode(buf)?;
 
-            ctx.fragments.append(Fragment::new(len, leaf_idx));
-
             let temporal_start = ctx.temporal_offset;
 
-            ctx.temporal_offset += len;
+            let temporal_end = temporal_start
+                .checked_add(len)
+                .ok_or(IntDecodeError::Overflow)?;
+
+            ctx.temporal_offset = temporal_end;
 
-            let temporal_end = ctx.temporal_offset;
+            ctx.fragments.append(Fragment::new(len, leaf_idx));
 
             let text = Text::new(ctx.replica_id, temporal_start..temporal_end);
 
             let edit_run =
                 EditRun::new(text, ctx.run_ts, lamport_ts, is_deleted);
 
-            ctx.lnodes[leaf_idx.into_usize()] =
-                Lnode::new(edit_run, parent_idx);
+            let leaf_idx = leaf_idx.into_usize();
+
+            let lnode = ctx
+                .lnodes
+                .get_mut(leaf_idx)
+                .ok_or(RunTreeDecodeError::InvalidLeaf(leaf_idx))?;
+
+            *lnode = Lnode::new(edit_run, parent_idx);
 
             Ok(((), buf))
         }
-- 
2.43.0


From 68aab3c11632a08005f63d2446ccf93581383633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 7/7] hook: cfg(cola_small_nodes) shrinks the tree nodes

Off by default. With --cfg cola_small_nodes the run tree and the fragment
lists use nodes of 4 children, so that short histories reach deep trees.
---
 src/run_indices.rs | 5 +++++
 src/run_tree.rs    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/run_indices.rs b/src/run_indices.rs
index 49b03c1..beb2a08 100644
--- a/src/run_indices.rs
+++ b/src/run_indices.rs
@@ -224,8 +224,13 @@ impl ReplicaIndices {
     }
 }
 
+#[cfg(not(cola_small_nodes))]
 const FRAGMENTS_INLINE: usize = 8;
 
+// Only used to check the code with smaller nodes.
+#[cfg(cola_small_nodes)]
+const FRAGMENTS_INLINE: usize = 4;
+
 pub(crate) type Fragments = fragments::Fragments<FRAGMENTS_INLINE>;
 
 mod fragments {
diff --git a/src/run_tree.rs b/src/run_tree.rs
index d4e3a8f..81e7f97 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -4,8 +4,13 @@ use core::ops;
 use crate::anchor::{Anchor as BiasedAnchor, InnerAnchor as Anchor};
 use crate::*;
 
+#[cfg(not(cola_small_nodes))]
 const RUN_TREE_ARITY: usize = 32;
 
+// Only used to check the code with smaller nodes.
+#[cfg(cola_small_nodes)]
+const RUN_TREE_ARITY: usize = 4;
+
 type Gtree = crate::Gtree<RUN_TREE_ARITY, EditRun>;
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0

