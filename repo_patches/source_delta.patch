From b09eac7d6e1e2ef9c466b7e54bcc4c55698bb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:13 +0000
Subject: [PATCH 01/16] fix: only return a value from get for the exact key

A leaf was returned for any key that was a prefix or an extension of the
leaf's key, and looking up a key that ends inside of an extension node
panicked.
---
 src/trie_ops.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7883e47..f35d728 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -311,6 +311,11 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+                // A key that ends inside of the extension can not be present.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
                 match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
@@ -320,7 +325,7 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 404d09bc9d52eafd57f00ab928ed8e92e46140b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:14 +0000
Subject: [PATCH 02/16] fix: split the extension when an inserted key ends
 inside of it

The value was stored at the end of the extension instead, that is, under a
different (longer) key than the one that was inserted.
---
 src/trie_ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index f35d728..a607654 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -402,7 +402,8 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            // The new key only continues into the child if it covers the whole extension.
+            if info.existing_postfix.is_empty() {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)
-- 
2.43.0


From 708b1129648953161982e2eda692e80b5a3d8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:47 +0000
Subject: [PATCH 03/16] fix: do not delete through an extension that the key
 does not cover

Deleting a key that ends inside of an extension deleted the value of the
branch below the extension, which belongs to a different key.
---
 src/trie_ops.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index a607654..49c7ea0 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -513,8 +513,9 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
-            ext_nibbles
-                .nibbles_are_identical_up_to_smallest_count(&curr_k)
+            // A key that ends inside of the extension can not be present.
+            (ext_nibbles.count <= curr_k.count
+                && ext_nibbles.nibbles_are_identical_up_to_smallest_count(&curr_k))
                 .then(|| {
                     curr_k.truncate_n_nibbles_front_mut(ext_nibbles.count);
                     delete_intern(child, curr_k).map(|(updated_child, value_deleted)| {
-- 
2.43.0


From 9938cbccf22a2debdc08622fb0fec7c12647b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:48 +0000
Subject: [PATCH 04/16] fix: keep the value of a branch when deleting one of
 its children

Collapsing a branch with a value dropped the value if two children were left
before the deletion, and panicked if only one was left.
---
 src/trie_ops.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 49c7ea0..4271bff 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -478,9 +478,11 @@ fn delete_intern<N: PartialTrie>(
                 |(updated_child, value_deleted)| {
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
-                    let updated_node = match node_is_empty(&updated_child)
-                        && get_num_non_empty_children(children) <= 2
-                    {
+                    // A value held by the branch itself also needs to be kept.
+                    let num_entries =
+                        get_num_non_empty_children(children) + (!value.is_empty()) as usize;
+
+                    let updated_node = match node_is_empty(&updated_child) && num_entries <= 2 {
                         false => {
                             // Branch stays.
                             let mut updated_children = children.clone();
@@ -488,6 +490,8 @@ fn delete_intern<N: PartialTrie>(
                                 try_collapse_if_extension(updated_child);
                             branch(updated_children, value.clone())
                         }
+                        // The value of the branch is all that is left.
+                        true if !value.is_empty() => leaf(Nibbles::default(), value.clone()),
                         true => {
                             let (child_nibble, non_empty_node) =
                                 get_other_non_empty_child_and_nibble_in_two_elem_branch(
-- 
2.43.0


From 0ac68f38795221e575bdc4510472222e17da0e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:48 +0000
Subject: [PATCH 05/16] fix: agree with Ethereum tries when deleting the value
 of a branch

Deleting a key that ends at a branch returned an empty value if the branch
holds none. A branch left with a single child was not collapsed, so the root
hash differed from the one of a trie that never contained the key.
---
 src/partial_trie.rs |  9 ++++-----
 src/trie_ops.rs     | 21 ++++++++++++++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index dca6df6..e4ab7b3 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -76,12 +76,11 @@ pub trait PartialTrie:
 
     /// Deletes a `Leaf` node or `Branch` value field if it exists.
     ///
-    /// To agree with Ethereum specs, deleting nodes does not result in the trie
-    /// removing nodes that are redundant after deletion. For example, a
-    /// `Branch` node that is completely empty after all of its children are
-    /// deleted is not pruned. Also note:
+    /// To agree with Ethereum specs, a `Branch` node that is left with a single
+    /// child or only its value after the deletion is collapsed. Also note:
     /// - Deleted leaves are replaced with `Empty` nodes.
-    /// - Deleted branch values are replaced with empty `Vec`s.
+    /// - Deleted branch values are replaced with empty `Vec`s (if the branch is
+    ///   not collapsed).
     ///
     /// # Panics
     /// If a `Hash` node is traversed, a panic will occur. Since `Hash` nodes
diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 4271bff..7f59691 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -468,7 +468,26 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return Some((branch(children.clone(), Vec::new()), value.clone()));
+                // No value is stored at this key.
+                if value.is_empty() {
+                    return None;
+                }
+
+                let updated_node = match get_num_non_empty_children(children) {
+                    1 => {
+                        // There is no child to skip here. Extension may be collapsed one level
+                        // above.
+                        let (child_nibble, non_empty_node) =
+                            get_other_non_empty_child_and_nibble_in_two_elem_branch(
+                                children,
+                                Nibble::MAX,
+                            );
+                        extension(Nibbles::from_nibble(child_nibble), non_empty_node.clone())
+                    }
+                    _ => branch(children.clone(), Vec::new()),
+                };
+
+                return Some((updated_node, value.clone()));
             }
 
             let nibble = curr_k.pop_next_nibble_front();
-- 
2.43.0


From ca75e90eab978de71b771ecc4e736bda88dd2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:28 +0000
Subject: [PATCH 06/16] fix: do not share the cached hash with clones of a
 modified trie

Clones of a HashedPartialTrie share the cell that caches the hash. After one of
them was modified and hashed, the others reported its hash as their own.
---
 src/partial_trie.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index e4ab7b3..57f2559 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -305,6 +305,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Drops the cached hash after the node has changed. Clones of a trie share
+    /// the cache (until one of them changes), so we can not reuse it here.
+    fn invalidate_hash(&mut self) {
+        self.hash = Arc::default();
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -321,7 +327,7 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
     {
         self.node.trie_insert(k, v);
-        self.set_hash(None);
+        self.invalidate_hash();
     }
 
     fn extend<K, V, I>(&mut self, nodes: I)
@@ -331,7 +337,7 @@ impl PartialTrie for HashedPartialTrie {
         I: IntoIterator<Item = (K, V)>,
     {
         self.node.trie_extend(nodes);
-        self.set_hash(None);
+        self.invalidate_hash();
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -346,7 +352,7 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
     {
         let res = self.node.trie_delete(k);
-        self.set_hash(None);
+        self.invalidate_hash();
 
         res
     }
-- 
2.43.0


From 35081609422ad39fd3b8a9354458fa367325b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:28 +0000
Subject: [PATCH 07/16] fix: drop the cached hash when a node is mutably
 dereferenced

Changing the node of a HashedPartialTrie through DerefMut left the hash of the
previous node in the cache.
---
 src/partial_trie.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 57f2559..038ef3b 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -401,6 +401,9 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The caller is able to change the node.
+        self.invalidate_hash();
+
         &mut self.node
     }
 }
-- 
2.43.0


From 50c858e95c054e497495c8afca88ae1a13f81b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:29 +0000
Subject: [PATCH 08/16] fix: reset all tracked nodes between the subsets of
 create_trie_subsets

Only the children of the root were reset, so a subset also contained nodes that
were only needed by the subsets created before it.
---
 src/trie_subsets.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index aa5f805..7ce0d24 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -330,14 +330,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => {
-            children.iter_mut().for_each(|c| c.info.reset())
-        }
-        TrackedNodeIntern::Extension(ref mut child) => child.info.reset(),
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From 4c2ee5402d1679be1cdb8f8e9aa1c2a7b9bad3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:29 +0000
Subject: [PATCH 09/16] fix: accept keys that end inside of an extension when
 creating subsets

Such a key does not exist in the trie, which is documented to not be an error,
but it caused a panic.
---
 src/trie_subsets.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 7ce0d24..e8bc36e 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -284,6 +284,12 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
+
+            // A key that ends inside of the extension does not exist in the trie.
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
+
             let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From dcc03373033230ddb927b5f8450cd0e387dbd6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:29 +0000
Subject: [PATCH 10/16] fix: size the buffer when converting a U128 or U512 to
 a trie value

The buffer was always 32 bytes long, which only fits a U256. The conversion of
the other types panicked.
---
 src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7f59691..71e5e95 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -56,10 +56,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From 43d92e3ca53bc458a477072384019c76644b915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:30 +0000
Subject: [PATCH 11/16] fix: return an error when decoding an empty hex prefix
 byte string

The flags were read without checking that there is a first byte, which
panicked.
---
 src/nibbles.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 730d924..77189e8 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -61,6 +61,9 @@ pub enum FromHexPrefixError {
 
     #[error("Tried to convert a hex prefix byte string into `Nibbles` that was longer than 64 bytes: (length: {0}, bytes: {1})")]
     TooLong(String, usize),
+
+    #[error("Tried to convert an empty hex prefix byte string into `Nibbles`")]
+    Empty,
 }
 
 #[derive(Debug, Error)]
@@ -649,6 +652,10 @@ impl Nibbles {
 
     /// Converts a hex prefix byte string ("AKA "compact") into `Nibbles`.
     pub fn from_hex_prefix_encoding(hex_prefix_bytes: &[u8]) -> Result<Self, FromHexPrefixError> {
+        if hex_prefix_bytes.is_empty() {
+            return Err(FromHexPrefixError::Empty);
+        }
+
         if hex_prefix_bytes.len() > 33 {
             return Err(FromHexPrefixError::TooLong(
                 hex::encode(hex_prefix_bytes),
-- 
2.43.0


From 72591f5fa0a524cde2363492797d6e76710ec8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:52 +0000
Subject: [PATCH 12/16] fix: drop the cached hash before extending a trie

If inserting one of the nodes panicked, the nodes before it were already part of
the trie, but the cached hash was still the one of the previous trie.
---
 src/partial_trie.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 038ef3b..f47b316 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -336,8 +336,9 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes);
+        // Some of the nodes are inserted even if inserting a later one panics.
         self.invalidate_hash();
+        self.node.trie_extend(nodes);
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
-- 
2.43.0


From 9f673ad355b05b2b748ef5d7584a982a5f8eda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:52 +0000
Subject: [PATCH 13/16] fix: report differing node types when diffing two tries

The comparison was inverted. Diffing two tries with differing node types
panicked, and nodes with the same type were never compared any further.
---
 src/debug_tools/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index b043d72..540ba05 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -297,7 +297,7 @@ fn find_latest_diff_point_between_tries_rec(
 
     // Note that differences in a node's `value` will be picked up by a hash
     // mismatch.
-    if (a_type, a_key_piece) == (b_type, b_key_piece) {
+    if (a_type, a_key_piece) != (b_type, b_key_piece) {
         depth_state.try_update_longest_divergence_key_node(state);
         DiffDetectionState::NodeTypesDiffer
     } else {
-- 
2.43.0


From 097891c53b6d037cd71e21eb3d046bf4ca4a7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:52 +0000
Subject: [PATCH 14/16] fix: report branches that only differ in their value
 when diffing tries

The state of the children of a branch was merged by keeping the least
significant one, and the hash check of the branch itself ran only if a
difference was already found.
---
 src/debug_tools/diff.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 540ba05..d5a8b87 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -62,13 +62,14 @@ enum DiffDetectionState {
 
 impl DiffDetectionState {
     fn pick_most_significant_state(&self, other: &Self) -> Self {
-        match self.get_int_repr() > other.get_int_repr() {
+        match self.get_int_repr() < other.get_int_repr() {
             false => *other,
             true => *self,
         }
     }
 
-    /// The integer representation also indicates the more "significant" state.
+    /// The integer representation also indicates the more "significant" state
+    /// (lower is more significant).
     fn get_int_repr(self) -> usize {
         self as usize
     }
@@ -340,10 +341,10 @@ fn find_latest_diff_point_between_tries_rec(
                     most_significant_diff_found,
                     DiffDetectionState::NoDiffDetected
                 ) {
-                    most_significant_diff_found
-                } else {
                     // Also run a hash check if we haven't picked anything up yet.
                     create_diff_detection_state_based_from_hash_and_gen_hashes(state, depth_state)
+                } else {
+                    most_significant_diff_found
                 }
             }
             (
-- 
2.43.0


From 32c14c11f5e8dffc7bcf5e00de52e5729063d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:40 +0000
Subject: [PATCH 15/16] fix: follow the queried key through extension nodes

The nibbles of an extension were not removed from the key, so a query continued
into the wrong child below every extension, and it never noticed a key that
differs from the nibbles of the extension.
---
 src/debug_tools/query.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index e75c2ed..49f793b 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -283,7 +283,15 @@ fn get_path_from_query_rec<T: PartialTrie>(
             get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
+            let curr_key_next_nibs =
+                get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
+
+            // The path ends here if the key does not continue into the child.
+            if *nibbles != curr_key_next_nibs {
+                return;
+            }
+
+            curr_key.pop_nibbles_front(curr_key_next_nibs.count);
             get_path_from_query_rec(child, curr_key, query_out);
         }
         Node::Leaf { nibbles, value: _ } => {
-- 
2.43.0


From 9b4705f1ba66ff3c3b1f0981a9a0d7503c268b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:41 +0000
Subject: [PATCH 16/16] fix: report correctly whether the queried key leads to
 a node

A query that ended in an empty slot of a branch, or in a leaf with an unrelated
key, could report that a node was found. A key that ends at a branch panicked.
---
 src/debug_tools/common.rs | 11 ++++++++---
 src/debug_tools/query.rs  | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/debug_tools/common.rs b/src/debug_tools/common.rs
index b63bba9..ea63f4e 100644
--- a/src/debug_tools/common.rs
+++ b/src/debug_tools/common.rs
@@ -11,6 +11,9 @@ pub(super) enum PathSegment {
     Empty,
     Hash,
     Branch(Nibble),
+
+    /// A branch that the key does not continue past.
+    BranchEnd,
     Extension(Nibbles),
     Leaf(Nibbles),
 }
@@ -21,6 +24,7 @@ impl Display for PathSegment {
             PathSegment::Empty => write!(f, "Empty"),
             PathSegment::Hash => write!(f, "Hash"),
             PathSegment::Branch(nib) => write!(f, "Branch({})", nib),
+            PathSegment::BranchEnd => write!(f, "Branch"),
             PathSegment::Extension(nibs) => write!(f, "Extension({})", nibs),
             PathSegment::Leaf(nibs) => write!(f, "Leaf({})", nibs),
         }
@@ -32,7 +36,7 @@ impl PathSegment {
         match self {
             PathSegment::Empty => TrieNodeType::Empty,
             PathSegment::Hash => TrieNodeType::Hash,
-            PathSegment::Branch(_) => TrieNodeType::Branch,
+            PathSegment::Branch(_) | PathSegment::BranchEnd => TrieNodeType::Branch,
             PathSegment::Extension(_) => TrieNodeType::Extension,
             PathSegment::Leaf(_) => TrieNodeType::Leaf,
         }
@@ -40,7 +44,7 @@ impl PathSegment {
 
     pub(super) fn get_key_piece_from_seg_if_present(&self) -> Option<Nibbles> {
         match self {
-            PathSegment::Empty | PathSegment::Hash => None,
+            PathSegment::Empty | PathSegment::Hash | PathSegment::BranchEnd => None,
             PathSegment::Branch(nib) => Some(Nibbles::from_nibble(*nib)),
             PathSegment::Extension(nibs) | PathSegment::Leaf(nibs) => Some(*nibs),
         }
@@ -54,6 +58,7 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
     match TrieNodeType::from(n) {
         TrieNodeType::Empty => PathSegment::Empty,
         TrieNodeType::Hash => PathSegment::Hash,
+        TrieNodeType::Branch if k_piece.is_empty() => PathSegment::BranchEnd,
         TrieNodeType::Branch => PathSegment::Branch(k_piece.get_nibble(0)),
         TrieNodeType::Extension => PathSegment::Extension(*k_piece),
         TrieNodeType::Leaf => PathSegment::Leaf(*k_piece),
@@ -73,7 +78,7 @@ pub(super) fn get_key_piece_from_node_pulling_from_key_for_branches<T: PartialTr
 ) -> Nibbles {
     match n {
         Node::Empty | Node::Hash(_) => Nibbles::default(),
-        Node::Branch { .. } => curr_key.get_next_nibbles(1),
+        Node::Branch { .. } => curr_key.get_next_nibbles(curr_key.count.min(1)),
         Node::Extension { nibbles, child: _ } | Node::Leaf { nibbles, value: _ } => *nibbles,
     }
 }
diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index 49f793b..fd9b5bd 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -276,11 +276,15 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
+        // There is no node at the key.
+        Node::Empty => return,
+        Node::Hash(_) => (),
+        // The key ends at this branch.
+        Node::Branch { .. } if curr_key.is_empty() => (),
         Node::Branch { children, value: _ } => {
             let nib = curr_key.pop_next_nibble_front();
 
-            get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
+            return get_path_from_query_rec(&children[nib as usize], curr_key, query_out);
         }
         Node::Extension { nibbles, child } => {
             let curr_key_next_nibs =
@@ -292,15 +296,17 @@ fn get_path_from_query_rec<T: PartialTrie>(
             }
 
             curr_key.pop_nibbles_front(curr_key_next_nibs.count);
-            get_path_from_query_rec(child, curr_key, query_out);
+            return get_path_from_query_rec(child, curr_key, query_out);
         }
         Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
                 get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
 
-            if *nibbles == curr_key_next_nibs {
-                curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+            if *nibbles != curr_key_next_nibs {
+                return;
             }
+
+            curr_key.pop_nibbles_front(curr_key_next_nibs.count);
         }
     }
 
-- 
2.43.0

