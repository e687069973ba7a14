From 34b9c06e044997d68f28ac925c49329530d7edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 01/16] verification hooks: expose private items under
 cfg(patriecia_verif)

---
 jmt/src/lib.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 pmt/src/lib.rs | 24 ++++++++++++++++++++++++
 2 files changed, 73 insertions(+)

diff --git a/jmt/src/lib.rs b/jmt/src/lib.rs
index a864c12..f44eb2d 100644
--- a/jmt/src/lib.rs
+++ b/jmt/src/lib.rs
@@ -341,3 +341,52 @@ where
         self.finalize().into()
     }
 }
+
+/// Access to private items for the verification harness; compiled only under
+/// `--cfg patriecia_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(patriecia_verif)]
+pub mod verif_hooks {
+    pub use crate::bytes32ext::Bytes32Ext;
+    pub use crate::node_type::{Child, Children, InternalNode, NodeType};
+    pub use crate::tree::ExclusionProof;
+    pub use crate::types::nibble::nibble_path::{skip_common_prefix, NibblePath};
+    pub use crate::types::nibble::Nibble;
+    pub use crate::types::proof::SparseMerkleLeafNode;
+
+    use crate::proof::{SparseMerkleProof, SparseMerkleRangeProof};
+    use crate::storage::NodeKey;
+    use crate::{KeyHash, SimpleHasher, ValueHash, Version};
+    use alloc::vec::Vec;
+
+    pub fn node_key(version: Version, path: NibblePath) -> NodeKey {
+        NodeKey::new(version, path)
+    }
+
+    pub fn node_key_path(node_key: &NodeKey) -> NibblePath {
+        node_key.nibble_path().clone()
+    }
+
+    pub fn nibble_ranges(kvs: &[(KeyHash, ValueHash)], depth: usize) -> Vec<(usize, usize)> {
+        crate::types::nibble::NibbleRangeIterator::new(kvs, depth).collect()
+    }
+
+    pub fn leaf(key_hash: KeyHash, value_hash: ValueHash) -> SparseMerkleLeafNode {
+        SparseMerkleLeafNode::new(key_hash, value_hash)
+    }
+
+    pub fn leaf_key(leaf: &SparseMerkleLeafNode) -> KeyHash {
+        leaf.key_hash()
+    }
+
+    pub fn proof<H: SimpleHasher>(
+        leaf: Option<SparseMerkleLeafNode>,
+        siblings: Vec<[u8; 32]>,
+    ) -> SparseMerkleProof<H> {
+        SparseMerkleProof::new(leaf, siblings)
+    }
+
+    pub fn range_proof(right_siblings: Vec<[u8; 32]>) -> SparseMerkleRangeProof {
+        SparseMerkleRangeProof::new(right_siblings)
+    }
+}
diff --git a/pmt/src/lib.rs b/pmt/src/lib.rs
index 8264d6f..73665c4 100644
--- a/pmt/src/lib.rs
+++ b/pmt/src/lib.rs
@@ -32,6 +32,30 @@ pub use jmt::{
 };
 pub use serde_hash::H256;
 
+/// Access to private items for the verification harness; compiled only under
+/// `--cfg patriecia_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(patriecia_verif)]
+pub mod verif_hooks {
+    use crate::nibbles::Nibbles;
+
+    pub fn from_raw(raw: &[u8], is_leaf: bool) -> Vec<u8> {
+        Nibbles::from_raw(raw, is_leaf).get_data().to_vec()
+    }
+
+    pub fn encode_raw(hex: &[u8]) -> (Vec<u8>, bool) {
+        Nibbles::from_hex(hex).encode_raw()
+    }
+
+    pub fn encode_compact(hex: &[u8]) -> Vec<u8> {
+        Nibbles::from_hex(hex).encode_compact()
+    }
+
+    pub fn from_compact(compact: &[u8]) -> Vec<u8> {
+        Nibbles::from_compact(compact).get_data().to_vec()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::{
-- 
2.43.0


From 915b4568e41377e3226330154b7a8e832bbe3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 02/16] fix: removing an absent key that ends at a branch
 reported a removal

The branch arm of delete_at returned true for a key whose path ends at a
branch without a value of its own.
---
 pmt/src/inner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 9ddb1c4..0760b45 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -528,8 +528,8 @@ where
                 let borrow_branch = branch.borrow_mut();
 
                 if partial.at(0) == 0x10 {
-                    borrow_branch.value = None;
-                    return Ok((Node::Branch(branch.clone()), true));
+                    let deleted = borrow_branch.value.take().is_some();
+                    return Ok((Node::Branch(branch.clone()), deleted));
                 }
 
                 let index = partial.at(0);
-- 
2.43.0


From 69a01a6a19f4d111b4b36c416e5b2948ad43aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 03/16] fix: removing a branch's own value left a non-canonical
 trie

The early return skipped degenerate(), so a branch left with a single child
was not collapsed and the root differed from that of a trie built without the
removed key.
---
 pmt/src/inner.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 0760b45..ce12c1f 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -529,18 +529,18 @@ where
 
                 if partial.at(0) == 0x10 {
                     let deleted = borrow_branch.value.take().is_some();
-                    return Ok((Node::Branch(branch.clone()), deleted));
-                }
+                    Ok((Node::Branch(branch.clone()), deleted))
+                } else {
+                    let index = partial.at(0);
+                    let child = &mut borrow_branch.children[index];
 
-                let index = partial.at(0);
-                let child = &mut borrow_branch.children[index];
+                    let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
+                    if deleted {
+                        *borrow_branch.children[index] = new_child;
+                    }
 
-                let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
-                if deleted {
-                    *borrow_branch.children[index] = new_child;
+                    Ok((Node::Branch(branch.clone()), deleted))
                 }
-
-                Ok((Node::Branch(branch.clone()), deleted))
             }
             Node::Extension(ext) => {
                 let borrow_ext = ext.borrow_mut();
-- 
2.43.0


From 4d19508f245ab3b18dfe93e8742cb4c32f47cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 04/16] fix: a removal of an absent key or a failed operation
 made the next commit drop live nodes

Nodes on the path were marked as passed even if the operation replaced none of
them, and the next commit on a light database deleted them.
---
 pmt/src/inner.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ce12c1f..41ae7b0 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -154,7 +154,13 @@ where
 
         let mut root = self.root.clone();
         let path = &Nibbles::from_raw(key, true);
+        let passing_keys = std::mem::take(&mut self.passing_keys);
         let result = self.insert_at(&mut root, path, 0, value.to_vec());
+        let passed = std::mem::replace(&mut self.passing_keys, passing_keys);
+        // a failed insertion replaces no node
+        if result.is_ok() {
+            self.passing_keys.extend(passed);
+        }
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -180,7 +186,13 @@ where
     fn remove(&mut self, key: Key) -> Result<bool> {
         let path = &Nibbles::from_raw(key, true);
 
+        let passing_keys = std::mem::take(&mut self.passing_keys);
         let result = self.delete_at(&mut self.root.clone(), path, 0);
+        let passed = std::mem::replace(&mut self.passing_keys, passing_keys);
+        // a removal that fails or finds no such key replaces no node
+        if let Ok((_, true)) = result {
+            self.passing_keys.extend(passed);
+        }
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
-- 
2.43.0


From f51572d4600534e7479df01bfac1a858df81d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 05/16] fix: committing an unchanged short root on a light
 database deleted it

A root node shorter than 32 bytes was written but not recorded as generated,
so it was removed again when it had also been passed, and commit panicked.
---
 pmt/src/inner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 41ae7b0..f8cce2f 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -294,6 +294,7 @@ where
             EncodedNode::Inline(encoded) => {
                 let hash = keccak(&encoded);
                 self.cache.insert(hash.as_bytes().to_vec(), encoded);
+                self.gen_keys.insert(hash.as_bytes().to_vec());
                 hash
             }
         };
-- 
2.43.0


From 4a70d214f3b8804f8fd9fff57ba2e8cf442d0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 06/16] fix: get_proof panicked on a trie opened with at_root

The unresolved root was pushed onto the path a second time and encode_raw has
no encoding for a hash node.
---
 pmt/src/inner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index f8cce2f..6cb929c 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -251,7 +251,8 @@ where
 
         let mut path = result?;
         match self.root {
-            Node::Empty => {}
+            // the path of a hash node already ends with the node it stands for
+            Node::Empty | Node::Hash(_) => {}
             _ => path.push(self.root.clone()),
         }
 
-- 
2.43.0


From a5924fc9aaeca3f73c21eba338fbbb4918512eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 07/16] fix: iterating a trie that holds the empty key panicked

Nibbles::is_leaf underflowed on an empty path, which is also reached through
encode_raw and encode_compact.
---
 pmt/src/nibbles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index 20dff17..f7d966b 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -56,7 +56,7 @@ impl Nibbles {
     }
 
     pub fn is_leaf(&self) -> bool {
-        self.hex_data[self.hex_data.len() - 1] == 16
+        self.hex_data.last() == Some(&16)
     }
 
     pub fn encode_compact(&self) -> Vec<u8> {
-- 
2.43.0


From 8821712c7f85a33663db5cf4b55b4e4a107e6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 08/16] fix: malformed proof nodes made verify_proof panic or
 overflow the stack

decode_node panicked on paths that are not compact encodings and recursed
without bound on nested nodes, on extensions with an empty prefix and on
entries holding only another hash. They are reported as invalid data.
---
 pmt/src/inner.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 6cb929c..7d2abf8 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -797,12 +797,21 @@ where
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
                 let key = r.at(0)?.data()?;
+                if !key.first().map_or(false, |flag| flag >> 4 <= 0x3) {
+                    return Err(TrieError::InvalidData(
+                        "node path is not compact encoded".to_string(),
+                    ));
+                }
                 let key = Nibbles::from_compact(key);
 
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
+                } else if key.is_empty() {
+                    Err(TrieError::InvalidData(
+                        "extension node has an empty prefix".to_string(),
+                    ))
                 } else {
-                    let n = self.decode_node(r.at(1)?.as_raw())?;
+                    let n = self.decode_child(r.at(1)?)?;
 
                     Ok(Node::from_extension(key, n))
                 }
@@ -811,8 +820,7 @@ where
                 let mut nodes: [Box<Node>; 16] = Default::default();
                 #[allow(clippy::needless_range_loop)]
                 for i in 0..nodes.len() {
-                    let rlp_data = r.at(i)?;
-                    let n = self.decode_node(rlp_data.as_raw())?;
+                    let n = self.decode_child(r.at(i)?)?;
                     *nodes[i] = n;
                 }
 
@@ -839,13 +847,31 @@ where
         }
     }
 
+    // Decodes a node embedded in its parent. Only nodes shorter than a hash are
+    // embedded, which also bounds how deep embedded nodes can nest.
+    fn decode_child(&self, r: Rlp) -> Result<Node> {
+        if r.is_list() && r.as_raw().len() >= HASHED_LENGTH {
+            return Err(TrieError::InvalidData(
+                "embedded node is not shorter than its hash".to_string(),
+            ));
+        }
+        self.decode_node(r.as_raw())
+    }
+
     pub(crate) fn recover_from_db(&self, key: H256) -> Result<Option<Node>> {
         let node = match self
             .db
             .get(key.as_bytes())
             .map_err(|e| TrieError::Database(e.to_string()))?
         {
-            Some(value) => Some(self.decode_node(&value)?),
+            Some(value) => match self.decode_node(&value)? {
+                Node::Hash(_) => {
+                    return Err(TrieError::InvalidData(
+                        "bytes stored for a node are only a hash".to_string(),
+                    ))
+                }
+                node => Some(node),
+            },
             None => None,
         };
         Ok(node)
-- 
2.43.0


From e5e70d5e04bf72af1f3d79479c50104ee0dbfd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 09/16] fix: exclusion and ICS23 absence proofs failed on trees
 with several versions

The neighbouring subtree was looked up at the queried version instead of the
version its node was written at.
---
 jmt/src/tree.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 728f87b..fd4a049 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -923,25 +923,25 @@ where
             node: &InternalNode,
             child_index: Nibble,
             extreme: Extreme,
-        ) -> Option<Nibble> {
+        ) -> Option<(Nibble, Version)> {
             match extreme {
                 // Rightmost left neighbor
                 Extreme::Left => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble < &child_index)
                     .max_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
                 // Leftmost right neighbor
                 Extreme::Right => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble > &child_index)
                     .min_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .map(|(nibble, child)| (nibble, child.version)),
             }
         }
 
         let mut parents = parents;
-        let mut neighbor: Option<Nibble> = None;
+        let mut neighbor: Option<(Nibble, Version)> = None;
         let mut path = to;
 
         while neighbor.is_none() {
@@ -956,13 +956,15 @@ where
                 continue;
             }
         }
-        path.push(neighbor.unwrap());
+        // the neighbor may have been written at an earlier version
+        let (neighbor_nibble, neighbor_version) = neighbor.unwrap();
+        path.push(neighbor_nibble);
 
         // nibble path will represent the left nibble path. this is currently at
         // the parent of the leaf for `key`
         Ok(Some(self.get_extreme_key_hash(
             version,
-            NodeKey::new(version, path.clone()),
+            NodeKey::new(neighbor_version, path.clone()),
             path.num_nibbles(),
             extreme.opposite(),
         )?))
-- 
2.43.0


From b1d1e2806e2bdff0783e93233814b9d057482eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 10/16] fix: verifying a range proof with more than 256
 siblings panicked

---
 jmt/src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 6f90e12..a14b086 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -269,6 +269,12 @@ impl SparseMerkleRangeProof {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From ecee2874f08e0985c68b72f86ec45358977df209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 11/16] fix: finishing a restoration before all accounts were
 supplied completed a wrong tree

---
 jmt/src/restore.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 67b024a..d571a17 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -9,7 +9,7 @@ use alloc::boxed::Box;
 use alloc::vec;
 use alloc::{sync::Arc, vec::Vec};
 
-use anyhow::{bail, ensure, Result};
+use anyhow::{bail, ensure, format_err, Result};
 use mirai_annotations::*;
 
 use crate::{
@@ -688,15 +688,33 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     let node_key = NodeKey::new_empty_path(self.version);
                     assert!(self.frozen_nodes.is_empty());
                     self.frozen_nodes.insert_node(node_key, node.into());
+                    self.ensure_expected_root()?;
                     self.store.write_node_batch(&self.frozen_nodes)?;
                     return Ok(());
                 }
             }
+
+            ensure!(num_children > 0, "No account has been restored yet.");
         }
 
         self.freeze(0);
+        self.ensure_expected_root()?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
+
+    /// Checks that the frozen root node is the root of the tree that was to be restored, i.e. that
+    /// no account is missing.
+    fn ensure_expected_root(&self) -> Result<()> {
+        let root_node = self
+            .frozen_nodes
+            .get_node(&NodeKey::new_empty_path(self.version))
+            .ok_or_else(|| format_err!("The root node has not been restored."))?;
+        ensure!(
+            root_node.hash() == self.expected_root_hash.0,
+            "Restored root does not match the expected root hash, some accounts are missing.",
+        );
+        Ok(())
+    }
 }
 
 /// The interface used with [`JellyfishMerkleRestore`], taken from the Diem `storage-interface` crate.
-- 
2.43.0


From 9b8e81548918b70d45b1fe3acab0b313082d5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 12/16] fix: resuming a restoration that had completed panicked

---
 jmt/src/restore.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index d571a17..ee61e01 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -249,6 +249,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The restoration process has already completed.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
-- 
2.43.0


From 1fb546c475ffa946479f61e254824400ac36484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 13/16] fix: committing a trie opened at an unknown root
 panicked

---
 pmt/src/inner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 7d2abf8..c01f63a 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -328,7 +328,12 @@ where
         self.passing_keys.clear();
         self.root = self
             .recover_from_db(root_hash)?
-            .expect("The root that was just created is missing");
+            .ok_or(TrieError::MissingTrieNode {
+                node_hash: root_hash,
+                traversed: None,
+                root_hash: Some(root_hash),
+                err_key: None,
+            })?;
 
         Ok(root_hash)
     }
-- 
2.43.0


From 70e4d38d6e22c35c3bccced20f49021194c7b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:54 +0000
Subject: [PATCH 14/16] fix: a no-op first version over a pre-genesis state
 left no root behind

---
 jmt/src/tree_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index b5bb97b..eed6fd5 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -281,7 +281,7 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        if root_node_key.version() != self.next_version
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-- 
2.43.0


From aee8fa1051b9dafb7e197f595e7cfa30f19b6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 15/16] fix: a refused write to the mock store leaves no part
 of the batch behind

---
 jmt/src/mock.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/jmt/src/mock.rs b/jmt/src/mock.rs
index aefa2c9..edfaaab 100644
--- a/jmt/src/mock.rs
+++ b/jmt/src/mock.rs
@@ -132,6 +132,15 @@ impl HasPreimage for MockTreeStore {
 impl TreeWriter for MockTreeStore {
     fn write_node_batch(&self, node_batch: &NodeBatch) -> Result<()> {
         let mut locked = self.data.write();
+        // Refuse the batch before any part of it is written.
+        for (version, key_hash) in node_batch.values().keys() {
+            if let Some((last_version, _)) = locked.value_history.get(key_hash).and_then(|h| h.last()) {
+                ensure!(
+                    *last_version <= crate::db::Version::from(version),
+                    "values must be pushed in order"
+                );
+            }
+        }
         for (node_key, node) in node_batch.nodes() {
             let replaced = locked.nodes.insert(node_key.clone(), node.clone());
             if !self.allow_overwrite {
@@ -191,13 +200,12 @@ impl MockTreeStore {
         let key_hash = leaf.key_hash();
         let version = node_key.version();
         let mut locked = self.data.write();
-        match locked.nodes.entry(node_key) {
-            Entry::Occupied(o) => bail!("Key {:?} exists.", o.key()),
-            Entry::Vacant(v) => {
-                v.insert(leaf.into());
-            }
+        if locked.nodes.contains_key(&node_key) {
+            bail!("Key {:?} exists.", node_key);
         }
-        put_value(&mut locked.value_history, version.into(), key_hash, Some(value))
+        put_value(&mut locked.value_history, version.into(), key_hash, Some(value))?;
+        locked.nodes.insert(node_key, leaf.into());
+        Ok(())
     }
 
     pub fn put_key_preimage<H: SimpleHasher>(&self, preimage: &Preimage) {
-- 
2.43.0


From c6171b1cbda7ccf8e84393127ec35f8c58a916a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:56 +0000
Subject: [PATCH 16/16] fix: a bad chunk or an early finish right after
 resuming a restoration panicked

---
 jmt/src/restore.rs | 53 +++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index ee61e01..57f89cd 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -90,7 +90,7 @@ impl InternalInfo {
         mut self,
         version: Version,
         leaf_count_migration: bool,
-    ) -> (NodeKey, InternalNode) {
+    ) -> Result<(NodeKey, InternalNode)> {
         let mut children = Children::new();
 
         // Calling `into_iter` on an array is equivalent to calling `iter`:
@@ -101,10 +101,10 @@ impl InternalInfo {
             }
         }
 
-        (
+        Ok((
             self.node_key,
-            InternalNode::new_migration(children, leaf_count_migration),
-        )
+            InternalNode::new_impl(children, leaf_count_migration)?,
+        ))
     }
 }
 
@@ -327,9 +327,9 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
-            self.frozen_nodes.insert_value(self.version, key, value);
 
-            self.add_one(key, value_hash);
+            self.add_one(key, value_hash)?;
+            self.frozen_nodes.insert_value(self.version, key, value);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -345,14 +345,17 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            ensure!(
+                i < self.partial_nodes.len(),
+                "The account belongs to a subtree that has already been restored.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
@@ -372,14 +375,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -395,6 +398,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -407,7 +412,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -460,7 +465,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -477,12 +482,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
         self.freeze_previous_leaf();
-        self.freeze_internal_nodes(num_remaining_partial_nodes);
+        self.freeze_internal_nodes(num_remaining_partial_nodes)
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -517,11 +524,16 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
     /// Freeze extra internal nodes. Only `num_remaining_nodes` partial internal nodes will be kept
     /// and the ones on the lower level will be frozen.
-    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) {
+    ///
+    /// Right after resuming from an interrupted restoration the lowest partial node may have just a
+    /// single leaf. If it is to be frozen as it is, some of the accounts are missing.
+    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) -> Result<()> {
         while self.partial_nodes.len() > num_remaining_nodes {
-            let last_node = self.partial_nodes.pop().expect("This node must exist.");
-            let (node_key, internal_node) =
-                last_node.into_internal_node(self.version, self.leaf_count_migration);
+            let last_node = self.partial_nodes.last().expect("This node must exist.");
+            let (node_key, internal_node) = last_node
+                .clone()
+                .into_internal_node(self.version, self.leaf_count_migration)?;
+            self.partial_nodes.pop();
             // Keep the hash of this node before moving it into `frozen_nodes`, so we can update
             // its parent later.
             let node_hash = internal_node.hash();
@@ -554,6 +566,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Verifies that all accounts that have been added so far (from the leftmost one to
@@ -690,7 +704,6 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             if num_children == 1 {
                 if let Some(node) = leaf {
                     let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
                     self.frozen_nodes.insert_node(node_key, node.into());
                     self.ensure_expected_root()?;
                     self.store.write_node_batch(&self.frozen_nodes)?;
@@ -701,7 +714,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             ensure!(num_children > 0, "No account has been restored yet.");
         }
 
-        self.freeze(0);
+        self.freeze(0)?;
         self.ensure_expected_root()?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
-- 
2.43.0

