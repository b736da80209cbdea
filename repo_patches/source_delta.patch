From 2002f65610e5ada9ca458c4d10b318f0f0edfb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 01/63] fix: descending iteration with an exclusive upper bound
 past the last key

Seeking to the bound exhausts the iterator when nothing at or after it exists
in the store, and moving an exhausted iterator back does nothing, so a
right-to-left Range, RangeTo or RangeAfterTo returned no results whenever the
subtree was the last one in key order. Fall back to the last key instead; the
charged cost (two seeks) is unchanged.
---
 grovedb-query/src/query_item/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 6525f2a..8523a09 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -690,7 +690,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek(start)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeInclusive(range_inclusive) => {
@@ -718,7 +718,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek_to_first()
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeToInclusive(RangeToInclusive { end }) => {
@@ -755,7 +755,7 @@ impl QueryItem {
                     }
                     ().wrap_with_cost(cost)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeAfterToInclusive(range_inclusive) => {
@@ -778,6 +778,24 @@ impl QueryItem {
         }
     }
 
+    /// Positions a storage iterator at the last key strictly less than `end`.
+    ///
+    /// Seeking to `end` leaves the iterator exhausted when no key greater than
+    /// or equal to `end` exists, and moving an exhausted iterator back is a
+    /// no-op, so in that case the wanted key is the last one.
+    #[cfg(feature = "blockchain")]
+    fn seek_before<I: RawIterator>(iter: &mut I, end: &[u8]) -> CostContext<()> {
+        iter.seek(end).flat_map(|_| {
+            // The check is not charged: whether the iterator is exhausted can
+            // depend on unrelated neighbouring data, the cost must not.
+            if iter.valid().unwrap() {
+                iter.prev()
+            } else {
+                iter.seek_to_last()
+            }
+        })
+    }
+
     /// Lexicographically compares two byte slices.
     pub fn compare(a: &[u8], b: &[u8]) -> cmp::Ordering {
         for (ai, bi) in a.iter().zip(b.iter()) {
-- 
2.43.0


From 50b24006f3de4731f93fc9448b006962e6e247a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 02/63] fix: query merge lost results selected through the base
 query's default subquery branch

Merging a branch in as a conditional subquery hid the default branch of the
query merged into, and an original conditional hit by several incoming items
was kept unsplit next to its parts.
---
 grovedb-query/src/merge.rs | 168 ++++++++++++++++++-------------------
 1 file changed, 82 insertions(+), 86 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index fbba226..456ac9b 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -118,6 +118,9 @@ impl SubqueryBranch {
                             Some(left_path_leftovers)
                         };
 
+                        merged_query
+                            .pin_default_subquery_branch_for(&[QueryItem::Key(first_key.clone())]);
+
                         merged_query.insert_key(first_key.clone());
                         // our subquery stays the same as we didn't change level
                         // add a conditional subquery for other
@@ -143,6 +146,9 @@ impl SubqueryBranch {
                         } else {
                             Some(right_path_leftovers)
                         };
+                        merged_query.pin_default_subquery_branch_for(&[QueryItem::Key(
+                            other_first.clone(),
+                        )]);
                         merged_query.insert_key(other_first.clone());
                         // our subquery stays the same as we didn't change level
                         // add a conditional subquery for other
@@ -175,6 +181,9 @@ impl SubqueryBranch {
 
                 let our_top_key = our_subquery_path.remove(0);
 
+                merged_subquery
+                    .pin_default_subquery_branch_for(&[QueryItem::Key(our_top_key.clone())]);
+
                 merged_subquery.insert_key(our_top_key.clone());
 
                 let maybe_our_subquery_path = if our_subquery_path.is_empty() {
@@ -211,6 +220,9 @@ impl SubqueryBranch {
 
                 let their_top_key = their_subquery_path.remove(0);
 
+                merged_subquery
+                    .pin_default_subquery_branch_for(&[QueryItem::Key(their_top_key.clone())]);
+
                 merged_subquery.insert_key(their_top_key.clone());
 
                 let maybe_their_subquery_path = if their_subquery_path.is_empty() {
@@ -454,6 +466,7 @@ impl Query {
             if add_parent_tree_on_subquery {
                 merged_query.add_parent_tree_on_subquery = true;
             }
+            merged_query.pin_default_subquery_branch_for(&items);
             // the searched for items are the union of all items
             merged_query.insert_items(items.clone());
 
@@ -506,6 +519,40 @@ impl Query {
         merged_query
     }
 
+    /// Turns the default subquery branch into conditional subquery branches for
+    /// the parts of our items that `items_merging_in` overlap, so that a branch
+    /// merged in for them is merged with the default one instead of hiding it.
+    fn pin_default_subquery_branch_for(&mut self, items_merging_in: &[QueryItem]) {
+        let branch = &self.default_subquery_branch;
+        if branch.subquery.is_none() && branch.subquery_path.is_none() {
+            return;
+        }
+        let branch = branch.clone();
+        let conditional = self.conditional_subquery_branches.get_or_insert_default();
+        for ours in &self.items {
+            for theirs in items_merging_in {
+                let mut overlaps: Vec<QueryItem> =
+                    ours.intersect(theirs).in_both.into_iter().collect();
+                for taken in conditional.keys() {
+                    overlaps = overlaps
+                        .iter()
+                        .flat_map(|overlap| {
+                            let intersection = overlap.intersect(taken);
+                            [intersection.ours_left, intersection.ours_right]
+                        })
+                        .flatten()
+                        .collect();
+                }
+                for overlap in overlaps {
+                    conditional.insert(overlap, branch.clone());
+                }
+            }
+        }
+        if conditional.is_empty() {
+            self.conditional_subquery_branches = None;
+        }
+    }
+
     /// Merges another query into this one, combining items and conditional
     /// subquery branches.
     pub fn merge_with(&mut self, other: Query) {
@@ -520,6 +567,7 @@ impl Query {
         if add_parent_tree_on_subquery {
             self.add_parent_tree_on_subquery = true;
         }
+        self.pin_default_subquery_branch_for(&items);
         self.insert_items(items.clone());
 
         // let intersection_result = QueryItem::intersect_many_ordered(&mut self.items,
@@ -604,103 +652,51 @@ impl Query {
             let mut sub_query_items_merging_in_vec = vec![query_item_merging_in];
             for (original_query_item, subquery_branch) in conditional_subquery_branches {
                 let mut new_query_items_merging_in_vec = vec![];
-                let mut hit = false;
-                for sub_query_item_merging_in in sub_query_items_merging_in_vec {
+                // The original query item can be hit by several of the items we are merging
+                // in, so it needs to be split along the way as well
+                let mut original_query_items = vec![original_query_item];
+                while let Some(sub_query_item_merging_in) = sub_query_items_merging_in_vec.pop() {
+                    let hit = original_query_items
+                        .iter()
+                        .enumerate()
+                        .find_map(|(index, item)| {
+                            let intersection = item.intersect(&sub_query_item_merging_in);
+                            intersection
+                                .in_both
+                                .is_some()
+                                .then_some((index, intersection))
+                        });
+                    let Some((index, intersection)) = hit else {
+                        // there was no overlap
+                        // keep it for the next original items
+                        new_query_items_merging_in_vec.push(sub_query_item_merging_in);
+                        continue;
+                    };
                     let QueryItemIntersectionResult {
                         in_both,
                         ours_left,
                         ours_right,
                         theirs_left,
                         theirs_right,
-                    } = original_query_item.intersect(&sub_query_item_merging_in);
+                    } = intersection;
+                    original_query_items.remove(index);
+                    // merge the overlapping subquery branches
                     if let Some(in_both) = in_both {
-                        if !hit {
-                            hit = true;
-                        }
-                        // merge the overlapping subquery branches
                         let merged_subquery_branch =
                             subquery_branch.merge(&subquery_branch_merging_in);
-                        merged_items.insert(in_both, merged_subquery_branch);
-
-                        match (ours_left, ours_right, theirs_left, theirs_right) {
-                            (None, None, None, None) => {}
-                            (Some(ours_left), None, None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                            }
-                            (None, Some(ours_right), None, None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (Some(ours_left), Some(ours_right), None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (None, None, Some(theirs_left), None) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), None, Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, None, None, Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), None, None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, None, Some(theirs_left), Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-
-                            (Some(ours_left), None, Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (
-                                Some(ours_left),
-                                Some(ours_right),
-                                Some(theirs_left),
-                                Some(theirs_right),
-                            ) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                        }
-                    } else {
-                        // there was no overlap
-                        // re-add to merged_items
-                        new_query_items_merging_in_vec.push(sub_query_item_merging_in);
+                        merged_items
+                            .entry(in_both)
+                            .or_insert(merged_subquery_branch);
                     }
+                    original_query_items.extend([ours_left, ours_right].into_iter().flatten());
+                    sub_query_items_merging_in_vec
+                        .extend([theirs_left, theirs_right].into_iter().flatten());
                 }
-                if !hit {
-                    merged_items.insert(original_query_item, subquery_branch.clone());
+                // what remains of the original query item keeps its own branch
+                for original_query_item in original_query_items {
+                    merged_items
+                        .entry(original_query_item)
+                        .or_insert_with(|| subquery_branch.clone());
                 }
                 sub_query_items_merging_in_vec = new_query_items_merging_in_vec;
             }
-- 
2.43.0


From 7355c34cf694f8664734d75f40f52613e88fa97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 03/63] fix: path query merge lost results selected through a
 default subquery branch

A path query rooted below the common path was merged in as a conditional
subquery that hid the default branch the other queries have for its key.
---
 grovedb/src/query/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 3fd9ecc..f82f297 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -239,17 +239,18 @@ impl PathQuery {
             let mut subquery_path =
                 subquery_path.ok_or(Error::CorruptedCodeExecution("subquery path must exist"))?;
             let key = subquery_path.remove(0); // must exist
-            merged_query.insert_item(QueryItem::Key(key.clone()));
             let rest_of_path = if subquery_path.is_empty() {
                 None
             } else {
                 Some(subquery_path)
             };
-            let subquery_branch = SubqueryBranch {
+            // merged as a query, as the queries of this level may have a default branch
+            let mut sub_path_query = Query::new_single_key(key);
+            sub_path_query.default_subquery_branch = SubqueryBranch {
                 subquery_path: rest_of_path,
                 subquery,
             };
-            merged_query.merge_conditional_boxed_subquery(QueryItem::Key(key), subquery_branch);
+            merged_query.merge_with(sub_path_query);
         }
 
         Ok(PathQuery::new_unsized(common_path, merged_query))
-- 
2.43.0


From 4ecef47ce39eaacd7439c57167aed246838a6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 04/63] fix: adding a basic removal to a sectioned one dropped
 the unidentified section

The section of the default identifier was taken out of the map and never put
back.
---
 costs/src/storage_cost/removal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ca5fed1..ac0f687 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -86,6 +86,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, s);
                         }
+                        map.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(map)
                 }
@@ -105,6 +106,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, r);
                         }
+                        smap.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(smap)
                 }
@@ -152,6 +154,7 @@ impl AddAssign for StorageRemovedBytes {
                         } else {
                             old_int_map.insert(UNKNOWN_EPOCH, *s);
                         }
+                        map.insert(default, old_int_map);
                     } else {
                         let mut new_map = IntMap::new();
                         new_map.insert(UNKNOWN_EPOCH, *s);
-- 
2.43.0


From cb3ff4f051bafbdf1cc541fcb3ffd8e6f2946d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 05/63] fix: paths with an empty relative part or base were not
 recognized as root

A builder made from no segments, or reduced to none, and the parent of a
single segment path reported not being empty or root. A parent path was also
displayed in reverse.
---
 path/src/subtree_path.rs         |  9 ++++-----
 path/src/subtree_path_builder.rs | 10 ++--------
 path/src/subtree_path_iter.rs    |  7 +------
 3 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/path/src/subtree_path.rs b/path/src/subtree_path.rs
index 8a31d61..dac0392 100644
--- a/path/src/subtree_path.rs
+++ b/path/src/subtree_path.rs
@@ -90,11 +90,10 @@ impl<B: AsRef<[u8]>> Display for SubtreePath<'_, B> {
                 write!(f, "{}", ascii_path)
             }
             SubtreePathInner::SubtreePathIter(iter) => {
-                let ascii_path = iter
-                    .clone()
-                    .map(bytes_to_hex_or_ascii)
-                    .collect::<Vec<_>>()
-                    .join("/");
+                // The iterator goes from the deepest segment up to the root
+                let mut segments = iter.clone().map(bytes_to_hex_or_ascii).collect::<Vec<_>>();
+                segments.reverse();
+                let ascii_path = segments.join("/");
                 write!(f, "{}", ascii_path)
             }
         }
diff --git a/path/src/subtree_path_builder.rs b/path/src/subtree_path_builder.rs
index c18ac36..642c04d 100644
--- a/path/src/subtree_path_builder.rs
+++ b/path/src/subtree_path_builder.rs
@@ -126,7 +126,7 @@ impl SubtreePathRelative<'_> {
     }
 
     pub fn is_empty(&self) -> bool {
-        matches!(self, SubtreePathRelative::Empty)
+        self.len() == 0
     }
 }
 
@@ -332,13 +332,7 @@ impl<'b, B: AsRef<[u8]>> SubtreePathBuilder<'b, B> {
     /// Returns `true` if the subtree path is empty, so it points to the root
     /// tree.
     pub fn is_root(&self) -> bool {
-        match self {
-            Self {
-                base,
-                relative: SubtreePathRelative::Empty,
-            } => base.is_root(),
-            _ => false,
-        }
+        self.relative.is_empty() && self.base.is_root()
     }
 }
 
diff --git a/path/src/subtree_path_iter.rs b/path/src/subtree_path_iter.rs
index f5e2aea..a5b63a4 100644
--- a/path/src/subtree_path_iter.rs
+++ b/path/src/subtree_path_iter.rs
@@ -77,12 +77,7 @@ impl<'b, B> SubtreePathIter<'b, B> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.next_subtree_path.is_none()
-            && match &self.current_iter {
-                CurrentSubtreePathIter::Single(_) => false,
-                CurrentSubtreePathIter::Slice(slice) => slice.len() == 0,
-                CurrentSubtreePathIter::OwnedBytes(bytes_iter) => bytes_iter.len() == 0,
-            }
+        self.len() == 0
     }
 }
 
-- 
2.43.0


From 9b68aa936e382cb1a333e0423f8848560faac3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 06/63] fix: decoding an element with a crafted length prefix
 allocated without bound

---
 grovedb-element/src/element/serialize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grovedb-element/src/element/serialize.rs b/grovedb-element/src/element/serialize.rs
index c0f85f3..c001e69 100644
--- a/grovedb-element/src/element/serialize.rs
+++ b/grovedb-element/src/element/serialize.rs
@@ -34,7 +34,11 @@ impl Element {
             "Element::deserialize",
             grove_version.grovedb_versions.element.deserialize
         );
-        let config = config::standard().with_big_endian().with_no_limit();
+        // Limit decode size so that crafted length prefixes cannot cause huge
+        // allocations (256 MiB is the limit used when decoding grovedb proofs).
+        let config = config::standard()
+            .with_big_endian()
+            .with_limit::<{ 256 * 1024 * 1024 }>();
         Ok(bincode::decode_from_slice(bytes, config)
             .map_err(|e| {
                 ElementError::CorruptedData(format!("unable to deserialize element {}", e))
-- 
2.43.0


From b28ee42a331a6f19fc6eb77c2c65e34f470cf0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 07/63] fix: debug output of a long string cut inside a
 multi-byte character panicked

---
 visualize/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/visualize/src/lib.rs b/visualize/src/lib.rs
index 0268ccf..52dd8e4 100644
--- a/visualize/src/lib.rs
+++ b/visualize/src/lib.rs
@@ -147,7 +147,12 @@ impl Visualize for [u8] {
         drawer.write(format!("[hex: {hex_repr}").as_bytes())?;
         if let Ok(str_repr) = str_repr {
             let str_part = if str_repr.len() > STR_LEN {
-                &str_repr[..=STR_LEN]
+                // Never cut through a multi-byte character
+                let mut end = STR_LEN + 1;
+                while !str_repr.is_char_boundary(end) {
+                    end -= 1;
+                }
+                &str_repr[..end]
             } else {
                 &str_repr
             };
-- 
2.43.0


From b5641a35dc2ecb0fab0482402c35d5299f0f391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 08/63] fix: query items could not be read back from the serde
 form they are written in

---
 grovedb-query/src/query_item/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 8523a09..f18d3f2 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -131,17 +131,28 @@ impl<'de> Deserialize<'de> for QueryItem {
         D: Deserializer<'de>,
     {
         #[derive(Deserialize)]
-        #[serde(field_identifier, rename_all = "snake_case")]
+        // The names `serialize` writes; snake case was accepted before
+        #[serde(field_identifier)]
         enum Field {
+            #[serde(alias = "key")]
             Key,
+            #[serde(alias = "range")]
             Range,
+            #[serde(alias = "range_inclusive")]
             RangeInclusive,
+            #[serde(alias = "range_full")]
             RangeFull,
+            #[serde(alias = "range_from")]
             RangeFrom,
+            #[serde(alias = "range_to")]
             RangeTo,
+            #[serde(alias = "range_to_inclusive")]
             RangeToInclusive,
+            #[serde(alias = "range_after")]
             RangeAfter,
+            #[serde(alias = "range_after_to")]
             RangeAfterTo,
+            #[serde(alias = "range_after_to_inclusive")]
             RangeAfterToInclusive,
         }
 
@@ -173,7 +184,10 @@ impl<'de> Deserialize<'de> for QueryItem {
                         let range_inclusive = variant_access.newtype_variant()?;
                         Ok(QueryItem::RangeInclusive(range_inclusive))
                     }
-                    Field::RangeFull => Ok(QueryItem::RangeFull(RangeFull)),
+                    Field::RangeFull => {
+                        variant_access.unit_variant()?;
+                        Ok(QueryItem::RangeFull(RangeFull))
+                    }
                     Field::RangeFrom => {
                         let range_from = variant_access.newtype_variant()?;
                         Ok(QueryItem::RangeFrom(range_from))
-- 
2.43.0


From b2bb467d27f113b92b5e3f63fda230ce70e28307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 09/63] fix: an MMR proof without its last peaks verified a
 leaf at a position it does not have

---
 grovedb-merkle-mountain-range/src/proof.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index e1d47e4..b96fd7b 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -276,21 +276,29 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     let peaks = get_peaks(mmr_size);
 
     let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len() + 1);
+    // whether the previous peak was taken from the proof (and so may stand for
+    // all the peaks from there on, bagged)
+    let mut previous_from_proof = false;
+    let mut missing_peak = false;
     for peak_pos in peaks {
         let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
         let peak_root = if leaves.len() == 1 && leaves[0].0 == peak_pos {
             // leaf is the peak
+            previous_from_proof = false;
             leaves.remove(0).1
         } else if leaves.is_empty() {
             // if empty, means the next proof is a peak root or rhs bagged root
             if let Some(peak_root) = proof_iter.next() {
+                previous_from_proof = true;
                 peak_root.clone()
             } else {
                 // means that either all right peaks are bagged, or proof is corrupted
                 // so we break loop and check no items left
+                missing_peak = !previous_from_proof;
                 break;
             }
         } else {
+            previous_from_proof = false;
             calculate_peak_root(leaves, peak_pos, &mut proof_iter)?
         };
         peaks_hashes.push(peak_root.clone());
@@ -301,6 +309,15 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
         return Err(Error::InvalidProof("unprocessed leaves remain".into()));
     }
 
+    // the bagged right peaks are always an item of the proof: without one, the
+    // peak would simply be left out of the root, and a leaf could be proven at a
+    // position it does not have
+    if missing_peak {
+        return Err(Error::InvalidProof(
+            "not enough proof items for all peaks".into(),
+        ));
+    }
+
     // check rhs peaks
     if let Some(rhs_peaks_hashes) = proof_iter.next() {
         peaks_hashes.push(rhs_peaks_hashes.clone());
-- 
2.43.0


From 551baad546bf1983c705b8b29ebff718892c19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 10/63] fix: verifying an MMR proof with a huge claimed size
 overflowed

---
 grovedb-merkle-mountain-range/src/proof.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index b96fd7b..0be8a68 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -361,6 +361,9 @@ pub(crate) fn take_while_vec<T, P: Fn(&T) -> bool>(v: &mut Vec<T>, p: P) -> Vec<
 /// Verified leaf entries: `(leaf_index, value_bytes)` pairs.
 pub type VerifiedLeaves = Vec<(u64, Vec<u8>)>;
 
+/// The number of leaves up to which leaf positions and sizes fit in a `u64`.
+const MAX_LEAF_COUNT: u64 = (1 << 63) - 1;
+
 /// A proof that specific leaves exist in an MMR tree.
 ///
 /// Contains the MMR size, the proved leaf values with their indices,
@@ -496,7 +499,7 @@ impl MmrTreeProof {
 
         // Validate leaf indices to prevent arithmetic overflow in
         // leaf_index_to_pos / leaf_index_to_mmr_size.
-        let leaf_count = mmr_size_to_leaf_count(self.mmr_size);
+        let leaf_count = mmr_size_to_leaf_count(self.mmr_size).min(MAX_LEAF_COUNT);
         for (idx, _) in &self.leaves {
             if *idx >= leaf_count {
                 return Err(Error::InvalidProof(format!(
@@ -569,7 +572,7 @@ impl MmrTreeProof {
 
         // Validate leaf indices to prevent arithmetic overflow in
         // leaf_index_to_pos / leaf_index_to_mmr_size.
-        let leaf_count = mmr_size_to_leaf_count(self.mmr_size);
+        let leaf_count = mmr_size_to_leaf_count(self.mmr_size).min(MAX_LEAF_COUNT);
         for (idx, _) in &self.leaves {
             if *idx >= leaf_count {
                 return Err(Error::InvalidProof(format!(
-- 
2.43.0


From ff16484e62e9cec54b5647a85a39471b4cd18221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 11/63] fix: inclusive ranges over an empty dense tree selected
 position 0

---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index f7afa34..7369a62 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -66,8 +66,7 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start..=clamped_end {
+                for p in start..end.saturating_add(1).min(count) {
                     positions.insert(p);
                 }
             }
@@ -90,8 +89,7 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             }
             QueryItem::RangeToInclusive(r) => {
                 let end = bytes_to_position(&r.end)?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in 0..=clamped_end {
+                for p in 0..end.saturating_add(1).min(count) {
                     positions.insert(p);
                 }
             }
-- 
2.43.0


From 39e6fe8ef91071a535aff520601b829f392a860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 12/63] fix: a dense tree proof of no positions did not verify

---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index 7369a62..f112814 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -206,6 +206,13 @@ impl DenseTreeProof {
         let mut node_value_hashes: Vec<(u16, [u8; 32])> = Vec::new();
         let mut node_hashes: Vec<(u16, [u8; 32])> = Vec::new();
 
+        // Nothing to prove: the root hash alone stands for the tree, so that
+        // the (empty) result can still be tied to it.
+        if expanded.is_empty() && count > 0 {
+            let hash = cost_return_on_error!(cost, tree.hash_position(0));
+            node_hashes.push((0, hash));
+        }
+
         for &pos in &expanded {
             // Get the value for this position
             let opt = cost_return_on_error!(cost, tree.get_value(pos));
-- 
2.43.0


From acba534c73dd963d187262c2cabe5deaa1d111c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 13/63] fix: a failed MMR commit lost the staged nodes

---
 grovedb-merkle-mountain-range/src/mmr_store.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/mmr_store.rs b/grovedb-merkle-mountain-range/src/mmr_store.rs
index 1aae775..8a89218 100644
--- a/grovedb-merkle-mountain-range/src/mmr_store.rs
+++ b/grovedb-merkle-mountain-range/src/mmr_store.rs
@@ -98,12 +98,18 @@ impl<Store: MMRStoreWriteOps> MMRBatch<Store> {
     /// Flush all buffered elements to the underlying store.
     pub(crate) fn commit(&mut self) -> CostResult<(), Error> {
         let mut cost = OperationCost::default();
-        for (pos, elems) in self.memory_batch.drain(..) {
-            let result = self.store.append(pos, elems).unwrap_add_cost(&mut cost);
+        // Keep the staged nodes until all of them are written, so that a failed
+        // commit can be retried (the positions written again are the same).
+        for (pos, elems) in self.memory_batch.iter() {
+            let result = self
+                .store
+                .append(*pos, elems.clone())
+                .unwrap_add_cost(&mut cost);
             if let Err(e) = result {
                 return Err(e).wrap_with_cost(cost);
             }
         }
+        self.memory_batch.clear();
         Ok(()).wrap_with_cost(cost)
     }
 }
-- 
2.43.0


From 4ac465b134d68ec5d5b2a47801677fece536386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 14/63] fix: limited merk proofs with a range bound at a result
 or past the limit did not verify

---
 merk/src/proofs/query/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/merk/src/proofs/query/mod.rs b/merk/src/proofs/query/mod.rs
index 22352d5..7c6bf1f 100644
--- a/merk/src/proofs/query/mod.rs
+++ b/merk/src/proofs/query/mod.rs
@@ -209,8 +209,14 @@ where
         // 6. The same logic applies to range queries. If we are searching for
         // items 1 to 4 it would not make sense to push this to the right of 6.
 
-        let (mut found_item, on_boundary_not_found, mut left_proof_items, mut right_proof_items) =
-            proof_query_items.process_key(&key);
+        let (
+            mut found_item,
+            mut on_boundary_not_found,
+            mut left_proof_items,
+            mut right_proof_items,
+        ) = proof_query_items.process_key(&key);
+        // a bound that one range excludes but another item includes is found
+        on_boundary_not_found &= !found_item;
 
         if let Some(current_limit) = proof_status.limit
             && current_limit == 0
@@ -257,6 +263,8 @@ where
                     left_proof_items = ProofItems::default();
                 }
                 found_item = false;
+                // no absence is proven past the limit
+                on_boundary_not_found = false;
             } else if found_item && !on_boundary_not_found {
                 // if limit is not zero, reserve a limit slot for the current node
                 // before generating proof for the right subtree
-- 
2.43.0


From fb4235bb59c64243fe8cb45491c64e80f200fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 15/63] fix: a conditional subquery that leads nowhere made
 proving fail

---
 grovedb/src/query/mod.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index f82f297..10a3949 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -618,14 +618,26 @@ impl HasSubquery<'_> {
     pub fn has_subquery_on_key(&self, key: &[u8]) -> bool {
         match self {
             HasSubquery::NoSubquery => false,
+            // The first branch that matches the key applies, and one that leads nowhere means
+            // that the element itself is queried
             HasSubquery::Conditionally(conditionally) => conditionally
-                .keys()
-                .any(|query_item| query_item.contains(key)),
+                .iter()
+                .find(|(query_item, _)| query_item.contains(key))
+                .is_some_and(|(_, branch)| leads_below(branch)),
             HasSubquery::Always => true,
         }
     }
 }
 
+/// Whether a subquery branch continues below the key it applies to.
+fn leads_below(branch: &SubqueryBranch) -> bool {
+    branch.subquery.is_some()
+        || branch
+            .subquery_path
+            .as_ref()
+            .is_some_and(|path| !path.is_empty())
+}
+
 /// This represents a query where the items might be borrowed, it is used to get
 /// subquery information
 
@@ -697,11 +709,20 @@ impl<'a> SinglePathSubquery<'a> {
     }
 
     pub fn from_query(query: &Query) -> SinglePathSubquery<'_> {
-        let has_subquery = if query.default_subquery_branch.subquery.is_some()
-            || query.default_subquery_branch.subquery_path.is_some()
-        {
-            HasSubquery::Always
-        } else if let Some(conditional) = query.conditional_subquery_branches.as_ref() {
+        let conditional = query.conditional_subquery_branches.as_ref();
+        let has_subquery = if leads_below(&query.default_subquery_branch) {
+            match conditional {
+                // A conditional branch that leads nowhere takes its keys out of the default branch
+                Some(conditional) if !conditional.values().all(leads_below) => {
+                    let mut branches = conditional.clone();
+                    branches
+                        .entry(QueryItem::RangeFull(..))
+                        .or_insert_with(|| query.default_subquery_branch.clone());
+                    HasSubquery::Conditionally(Cow::Owned(branches))
+                }
+                _ => HasSubquery::Always,
+            }
+        } else if let Some(conditional) = conditional {
             HasSubquery::Conditionally(Cow::Borrowed(conditional))
         } else {
             HasSubquery::NoSubquery
-- 
2.43.0


From ea07834b1460c0adf1e3cf3d541f03ca36d2a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 16/63] fix: proofs of a query over a key whose empty subtree
 gives nothing ignored the limit it uses

---
 grovedb/src/operations/proof/verify.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 64ea665..9646352 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -714,6 +714,16 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else {
+                        // Nothing comes out of this key (an empty tree whose
+                        // subtree is queried, or one left out of the results),
+                        // but the prover counts it towards the limit
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
@@ -1664,6 +1674,16 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else {
+                        // Nothing comes out of this key (an empty tree whose
+                        // subtree is queried, or one left out of the results),
+                        // but the prover counts it towards the limit
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From ded05a3aea15c30e263e25af7f0eb9214284ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 17/63] fix: proofs of a query into an empty bulk append tree
 did not verify

---
 grovedb/src/operations/proof/verify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 9646352..a2fd97c 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -985,6 +985,11 @@ impl GroveDb {
             }
         }
 
+        // A BulkAppendTree nothing was appended to is stored with the null hash
+        if element_total_count == 0 && matches!(element, Element::BulkAppendTree(..)) {
+            return Ok(NULL_HASH);
+        }
+
         // Return computed state_root as child Merk hash
         Ok(bulk_state_root)
     }
@@ -1238,7 +1243,7 @@ impl GroveDb {
             }
         }
 
-        if min_start == u64::MAX {
+        if items.is_empty() {
             return Err(Error::InvalidInput(
                 "No valid range items found in BulkAppendTree query",
             ));
-- 
2.43.0


From 3f85c131bc248353f7fd5592d674575157eb3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 18/63] fix: a reference in a provable count sum tree made its
 proof invalid

---
 grovedb/src/operations/proof/generate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 2f3c8cc..0068527 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -319,7 +319,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
@@ -1033,7 +1034,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
-- 
2.43.0


From b8063140de00d04425f2188065c89c2783c19203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 19/63] fix: the limit of a bulk append tree proof counted
 positions the query does not select

---
 grovedb/src/operations/proof/generate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 0068527..c2fd4f0 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1553,10 +1553,16 @@ impl GroveDb {
                 .map_err(|e| Error::CorruptedData(format!("{}", e)))
         );
 
-        // Update limit: count individual values in the queried range
+        // Update limit: count the queried positions, as the verifier does
         if let Some(limit) = overall_limit.as_mut() {
-            let count = (end.min(total_count) - start).min(u16::MAX as u64) as u16;
-            *limit = limit.saturating_sub(count);
+            let count = (start..end)
+                .filter(|position| {
+                    let key = position.to_be_bytes();
+                    sub_query.items.iter().any(|item| item.contains(&key))
+                })
+                .take(*limit as usize)
+                .count() as u16;
+            *limit -= count;
         }
 
         let proof_bytes = cost_return_on_error_no_add!(
-- 
2.43.0


From abd0b5e9a8f32ea18c2ea3a2e22a4371a9875789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 20/63] fix: a merk proof mixing operators of both directions
 could hide keys from the query

---
 merk/src/proofs/query/verify.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 8a53417..de380b3 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -151,7 +151,22 @@ impl QueryProofVerify for Query {
 
         let mut decoder = Decoder::new(bytes);
 
-        let root_wrapped = execute(decoder.by_ref(), true, |node| {
+        // Nodes are visited in key order only if all operators go the queried way
+        let directed_ops = decoder.by_ref().map(|op| {
+            let op = op?;
+            let inverted = matches!(
+                op,
+                Op::PushInverted(_) | Op::ParentInverted | Op::ChildInverted
+            );
+            if inverted == left_to_right {
+                return Err(Error::InvalidProofError(
+                    "Proof operator goes against the direction of the query".to_string(),
+                ));
+            }
+            Ok(op)
+        });
+
+        let root_wrapped = execute(directed_ops, true, |node| {
             let mut execute_node = |key: &Vec<u8>,
                                     value: Option<&Vec<u8>>,
                                     value_hash: CryptoHash,
-- 
2.43.0


From cf178ff24da3ebbbd680d1c8cad0c15bc989ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 21/63] fix: nodes attached below a hash node were not part of
 the proof's root hash

---
 merk/src/proofs/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index b733c68..327600a 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -127,6 +127,11 @@ impl Tree {
         }
 
         match &self.node {
+            // A hash stands for a whole subtree; what is attached below one must not go
+            // unnoticed, so that it is hashed like any other child
+            Node::Hash(hash) if self.left.is_some() || self.right.is_some() => {
+                compute_hash(self, *hash)
+            }
             Node::Hash(hash) => (*hash).wrap_with_cost(Default::default()),
             Node::KVHash(kv_hash) => compute_hash(self, *kv_hash),
             Node::KV(key, value) => kv_hash(key.as_slice(), value.as_slice())
-- 
2.43.0


From 5cdeed793f02d579d163095be499f0ebf3157dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 22/63] fix: a lower layer below a key whose subtree is not
 queried was not checked

---
 grovedb/src/operations/proof/verify.rs | 77 ++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index a2fd97c..444db3a 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -504,10 +504,27 @@ impl GroveDb {
                                 path.push(key);
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // Query targets the tree itself, not its contents
+                                    // Query targets the tree itself, not its contents: the
+                                    // lower layer only authenticates the element
+                                    let ProofBytes::Merk(lower_bytes) = &lower_layer.merk_proof
+                                    else {
+                                        return Err(Error::InvalidProof(
+                                            query.clone(),
+                                            "V1 proof has a lower layer the query does not require"
+                                                .to_string(),
+                                        ));
+                                    };
+                                    Self::verify_unqueried_lower_layer(
+                                        lower_bytes,
+                                        key,
+                                        value_bytes,
+                                        hash,
+                                        query,
+                                        options,
+                                    )?;
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
+                                            current_path.iter().map(|p| p.to_vec()).collect(),
                                             proved_key_value,
                                         );
                                     result.push(
@@ -748,6 +765,49 @@ impl GroveDb {
         Ok(root_hash)
     }
 
+    /// Checks a lower layer below a key whose subtree the query does not
+    /// select. It is not allowed in a succinct proof, and otherwise has to be
+    /// the layer the element is authenticated with.
+    fn verify_unqueried_lower_layer(
+        lower_bytes: &[u8],
+        key: &[u8],
+        value_bytes: &[u8],
+        expected_hash: &CryptoHash,
+        query: &PathQuery,
+        options: &VerifyOptions,
+    ) -> Result<(), Error> {
+        if options.verify_proof_succinctness {
+            return Err(Error::InvalidProof(
+                query.clone(),
+                format!(
+                    "Proof contains extra lower layer for key {} not required by query",
+                    hex::encode(key),
+                ),
+            ));
+        }
+        let mut decoder = Decoder::new(lower_bytes);
+        let lower_tree = execute(decoder.by_ref(), true, |_| Ok(()))
+            .unwrap()
+            .map_err(|e| Error::InvalidProof(query.clone(), format!("Invalid layer: {}", e)))?;
+        let combined_hash = combine_hash(
+            value_hash(value_bytes).value(),
+            lower_tree.hash().value(),
+        )
+        .value()
+        .to_owned();
+        if expected_hash != &combined_hash {
+            return Err(Error::InvalidProof(
+                query.clone(),
+                format!(
+                    "Mismatch in lower layer hash, expected {}, got {}",
+                    hex::encode(expected_hash),
+                    hex::encode(combined_hash)
+                ),
+            ));
+        }
+        Ok(())
+    }
+
     /// Verify an MMR lower layer proof and add results.
     /// Returns the computed MMR root hash, which the caller uses as the
     /// child hash for Merk authentication (`combine_hash(value_hash ||
@@ -1481,10 +1541,19 @@ impl GroveDb {
                                 path.push(key);
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // We are actually looking for the tree
+                                    // We are actually looking for the tree: the lower layer
+                                    // only authenticates the element
+                                    Self::verify_unqueried_lower_layer(
+                                        &lower_layer.merk_proof,
+                                        key,
+                                        value_bytes,
+                                        hash,
+                                        query,
+                                        options,
+                                    )?;
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
+                                            current_path.iter().map(|p| p.to_vec()).collect(),
                                             proved_key_value,
                                         );
                                     #[cfg(feature = "proof_debug")]
-- 
2.43.0


From 732ffa251690b5a866376fe2188c03f3d3740f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 23/63] fix: V1 verification accepted raw references and
 non-empty trees forged as empty

---
 grovedb/src/operations/proof/verify.rs | 68 +++++++++++++++-----------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 444db3a..03bf3ce 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -486,6 +486,44 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // References are proven with the element they lead to, so that a
+                    // raw one is an element whose bytes were swapped.
+                    if element.is_reference() {
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "V1 proof has an unresolved reference at key {}",
+                                hex::encode(key),
+                            ),
+                        ));
+                    }
+
+                    // For empty trees (no lower layer proof), whether they are in the
+                    // result set or not, verify that the value_hash matches
+                    // combine_hash(H(value), NULL_HASH). Without this
+                    // check, an attacker could swap tree types (e.g.
+                    // SumTree→Tree) in KVValueHash nodes without breaking
+                    // the merk proof, since the value bytes are not part of
+                    // the KVValueHash tree hash computation.
+                    if element.is_any_tree() && !element.is_non_empty_tree() {
+                        let expected_value_hash =
+                            combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
+                                .value()
+                                .to_owned();
+                        if hash != &expected_value_hash {
+                            return Err(Error::InvalidProof(
+                                query.clone(),
+                                format!(
+                                    "V1 empty tree value hash mismatch at key {}: \
+                                     expected {}, got {}",
+                                    hex::encode(key),
+                                    hex::encode(hash),
+                                    hex::encode(expected_value_hash)
+                                ),
+                            ));
+                        }
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         // MmrTree/BulkAppendTree have root_key=None (no child Merk data),
                         // so they match on (..) rather than (Some(_), ..)
@@ -662,34 +700,8 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "V1 empty tree value hash mismatch at key {}: \
-                                         expected {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
-                        // For non-empty Merk trees without a subquery (no
-                        // lower layer proof), the prover must use
+                        // For non-empty trees without a subquery (no lower
+                        // layer proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
                         // verifier can confirm combine_hash(H(value),
                         // child_hash) == value_hash. If child_hash_verified is
-- 
2.43.0


From 93e07443da660861af515be467bb4d5e96a273c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 24/63] fix: the limit of a V1 proof was charged for a path
 ending in an empty non-merk tree

---
 grovedb/src/operations/proof/generate.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index c2fd4f0..ff697e7 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1235,8 +1235,6 @@ impl GroveDb {
                                 let mut lower_path = path.clone();
                                 lower_path.push(key.as_slice());
 
-                                let previous_limit = *overall_limit;
-
                                 let layer_proof = cost_return_on_error!(
                                     &mut cost,
                                     self.prove_subqueries_v1(
@@ -1249,9 +1247,9 @@ impl GroveDb {
                                     )
                                 );
 
-                                if previous_limit != *overall_limit {
-                                    has_a_result_at_level |= true;
-                                }
+                                // A lower layer without a result used up the limit itself, or
+                                // ends in an empty non-merk tree that uses none
+                                has_a_result_at_level |= true;
                                 lower_layers.insert(key.clone(), layer_proof);
                             }
 
-- 
2.43.0


From 25c27771a14e2f035e3886cee3a9b83c442b2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 25/63] fix: V1 proofs did not bind the element of a non-merk
 tree queried as a whole

---
 grovedb/src/operations/proof/generate.rs | 34 +++++++-----------------
 grovedb/src/operations/proof/verify.rs   |  4 +--
 2 files changed, 10 insertions(+), 28 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index ff697e7..1405aac 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1253,28 +1253,7 @@ impl GroveDb {
                                 lower_layers.insert(key.clone(), layer_proof);
                             }
 
-                            // MmrTree/BulkAppendTree without subquery (query targets the tree
-                            // itself)
-                            Ok(Element::MmrTree(..))
-                            | Ok(Element::BulkAppendTree(..))
-                            | Ok(Element::DenseAppendOnlyFixedSizeTree(..))
-                                if !done_with_results =>
-                            {
-                                if let Some(limit) = overall_limit.as_mut() {
-                                    *limit -= 1;
-                                }
-                                has_a_result_at_level |= true;
-                            }
-
-                            Ok(Element::Tree(Some(_), _))
-                            | Ok(Element::SumTree(Some(_), ..))
-                            | Ok(Element::BigSumTree(Some(_), ..))
-                            | Ok(Element::CountTree(Some(_), ..))
-                            | Ok(Element::ProvableCountTree(Some(_), ..))
-                            | Ok(Element::CountSumTree(Some(_), ..))
-                            | Ok(Element::ProvableCountSumTree(Some(_), ..))
-                                if !done_with_results =>
-                            {
+                            Ok(ref element) if !done_with_results && element.is_non_empty_tree() => {
                                 // Non-empty tree without subquery: inject child
                                 // root hash for combine_hash verification
                                 let mut child_path = path.clone();
@@ -1288,8 +1267,14 @@ impl GroveDb {
                                         grove_version
                                     )
                                 );
-                                let child_root_hash =
+                                let child_merk_root_hash =
                                     child_merk.root_hash().unwrap_add_cost(&mut cost);
+                                let child_root_hash = self.compute_non_merk_child_hash(
+                                    element,
+                                    child_path.as_slice().into(),
+                                    &tx,
+                                    child_merk_root_hash,
+                                );
 
                                 let key_owned = key.to_owned();
                                 let value_owned = value.to_owned();
@@ -1319,7 +1304,7 @@ impl GroveDb {
                                 }
                                 has_a_result_at_level |= true;
                             }
-                            // Empty trees and CommitmentTree without subquery
+                            // Empty trees without subquery
                             Ok(Element::Tree(None, _))
                             | Ok(Element::SumTree(None, ..))
                             | Ok(Element::BigSumTree(None, ..))
@@ -1327,7 +1312,6 @@ impl GroveDb {
                             | Ok(Element::ProvableCountTree(None, ..))
                             | Ok(Element::CountSumTree(None, ..))
                             | Ok(Element::ProvableCountSumTree(None, ..))
-                            | Ok(Element::CommitmentTree(..))
                                 if !done_with_results =>
                             {
                                 if let Some(limit) = overall_limit.as_mut() {
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 03bf3ce..0c1e940 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -707,9 +707,7 @@ impl GroveDb {
                         // child_hash) == value_hash. If child_hash_verified is
                         // false, an attacker may have downgraded the node type
                         // to hide child hash verification.
-                        // Non-Merk trees (MmrTree, BulkAppendTree, etc.) are
-                        // excluded — they use different proof structures.
-                        if element.is_non_empty_merk_tree() && !proved_key_value.child_hash_verified
+                        if element.is_non_empty_tree() && !proved_key_value.child_hash_verified
                         {
                             return Err(Error::InvalidProof(
                                 query.clone(),
-- 
2.43.0


From a98fbde51c11b071effcc5e522ba74a171afd492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 26/63] fix: the hash of a branch query ignored the counts of
 provable count trees

---
 merk/src/merk/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/merk/src/merk/mod.rs b/merk/src/merk/mod.rs
index 3f86f37..1b73028 100644
--- a/merk/src/merk/mod.rs
+++ b/merk/src/merk/mod.rs
@@ -977,11 +977,16 @@ where
             fn get_hash_at_path<S: Fetch + Sized + Clone>(
                 walker: &mut RefWalker<'_, S>,
                 path: &[bool],
+                tree_type: TreeType,
                 grove_version: &GroveVersion,
                 cost: &mut OperationCost,
             ) -> Result<CryptoHash, Error> {
                 if path.is_empty() {
-                    return Ok(walker.tree().hash().unwrap_add_cost(cost));
+                    // Provable count trees include the count in the hash of a node
+                    return Ok(walker
+                        .tree()
+                        .hash_for_link(tree_type)
+                        .unwrap_add_cost(cost));
                 }
 
                 let go_left = path[0];
@@ -995,7 +1000,7 @@ where
 
                 match child_result {
                     Ok(Some(mut child)) => {
-                        get_hash_at_path(&mut child, &path[1..], grove_version, cost)
+                        get_hash_at_path(&mut child, &path[1..], tree_type, grove_version, cost)
                     }
                     Ok(None) => Err(Error::InternalError(
                         "inconsistent tree state during branch_query",
@@ -1005,7 +1010,13 @@ where
             }
 
             let branch_root_hash =
-                get_hash_at_path(&mut walker, &traversal_path, grove_version, &mut cost)?;
+                get_hash_at_path(
+                    &mut walker,
+                    &traversal_path,
+                    self.tree_type,
+                    grove_version,
+                    &mut cost,
+                )?;
 
             // Use traverse_and_build_chunk to generate proof at the target location
             // Note: We need to get a fresh walker since the previous one was consumed
-- 
2.43.0


From 99b1743a64c807228ba9de9802fe1d4c85d78040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 27/63] fix: trunk chunk verification ignored the minimum depth
 the proof was made with

---
 grovedb/src/operations/proof/verify.rs | 32 +++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 0c1e940..11878f8 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1,7 +1,8 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use grovedb_merk::{
-    calculate_chunk_depths, calculate_max_tree_depth_from_count,
+    calculate_chunk_depths, calculate_chunk_depths_with_minimum,
+    calculate_max_tree_depth_from_count,
     element::tree_type::ElementTreeTypeExtensions,
     proofs::{
         execute,
@@ -2077,6 +2078,7 @@ impl GroveDb {
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
         let mut count: Option<u64> = None;
+        let mut is_provable_count_tree = false;
         let mut grovedb_root_hash: Option<CryptoHash> = None;
 
         // Walk through each path segment, verifying layer proofs
@@ -2124,6 +2126,10 @@ impl GroveDb {
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
                             count = Self::extract_count_from_element(&element);
+                            is_provable_count_tree = matches!(
+                                element,
+                                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..)
+                            );
                         }
                     }
                     break;
@@ -2208,7 +2214,7 @@ impl GroveDb {
         }
 
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
+        let chunk_depths = Self::trunk_chunk_depths(tree_depth, query, is_provable_count_tree)
             .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
 
         // Now we're at the target layer - decode and execute the trunk proof
@@ -2326,6 +2332,7 @@ impl GroveDb {
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
         let mut count: Option<u64> = None;
+        let mut is_provable_count_tree = false;
         let mut grovedb_root_hash: CryptoHash = [0u8; 32];
 
         // Walk through each path segment, verifying layer proofs
@@ -2374,6 +2381,10 @@ impl GroveDb {
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
                             count = Self::extract_count_from_element(&element);
+                            is_provable_count_tree = matches!(
+                                element,
+                                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..)
+                            );
                         }
                     }
                     break;
@@ -2533,7 +2544,7 @@ impl GroveDb {
         // Non-empty tree: extract elements
         let target_tree = target_tree_opt.unwrap();
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
+        let chunk_depths = Self::trunk_chunk_depths(tree_depth, query, is_provable_count_tree)
             .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
 
         let max_depth = chunk_depths.first().copied().unwrap_or(0) as usize;
@@ -2559,6 +2570,21 @@ impl GroveDb {
         Ok((grovedb_root_hash, trunk_result))
     }
 
+    /// The chunk depths a trunk proof is generated with: the minimum depth only
+    /// applies to provable count trees.
+    fn trunk_chunk_depths(
+        tree_depth: u8,
+        query: &PathTrunkChunkQuery,
+        is_provable_count_tree: bool,
+    ) -> Result<Vec<u8>, grovedb_merk::error::Error> {
+        match query.min_depth {
+            Some(min_depth) if is_provable_count_tree => {
+                calculate_chunk_depths_with_minimum(tree_depth, query.max_depth, min_depth)
+            }
+            _ => calculate_chunk_depths(tree_depth, query.max_depth),
+        }
+    }
+
     /// Recursively extract elements and leaf keys from a proof tree.
     ///
     /// Elements are nodes with key-value data that can be deserialized.
-- 
2.43.0


From cb0965b7786f206bec26a3b1106c6f55b5b661c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 28/63] fix: chunk proof verification accepted an empty tree in
 place of any element

---
 grovedb/src/operations/proof/verify.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 11878f8..68f81e5 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -2662,10 +2662,13 @@ impl GroveDb {
                 let computed_vh = value_hash(&value).value().to_owned();
                 if computed_vh != *node_value_hash {
                     // For tree elements, value_hash = combine_hash(H(value),
-                    // child_root_hash). We can't decompose the combined hash,
-                    // but the hash chain verification already validates tree
-                    // elements through the merk proof structure.
-                    if !element.is_any_tree() {
+                    // child_root_hash). We can't decompose the combined hash
+                    // of a non-empty tree; an empty one has the null hash as
+                    // its child hash.
+                    let may_have_child_hash = element.is_non_empty_tree()
+                        || (element.is_any_tree()
+                            && combine_hash(&computed_vh, &NULL_HASH).value() == node_value_hash);
+                    if !may_have_child_hash {
                         return Err(Error::InvalidProof(
                             PathQuery::new_unsized(Vec::new(), Query::default()),
                             format!(
-- 
2.43.0


From f135a0c4cc2da5be8ace2ca4de439dcf4fcb735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 29/63] fix: chunk proof verification reported counts the node
 hash does not bind

---
 grovedb/src/operations/proof/verify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 68f81e5..36b6aa3 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -2724,12 +2724,17 @@ impl GroveDb {
             // should match this node's hash.
             let node_hash = tree.hash().unwrap();
 
-            // Extract count from TreeFeatureType if available
+            // Extract count from TreeFeatureType if available: only the counts of
+            // provable count trees are part of the node hash
             // Note: KVHashCount is not included as it never reaches this code path
             let count = match &tree.node {
                 Node::KVValueHashFeatureType(_, _, _, feature_type)
                 | Node::KVValueHashFeatureTypeWithChildHash(_, _, _, feature_type, _) => {
-                    feature_type.count()
+                    match feature_type {
+                        TreeFeatureType::ProvableCountedMerkNode(count)
+                        | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
+                        _ => None,
+                    }
                 }
                 Node::KVCount(_, _, count) => Some(*count),
                 Node::KVRefValueHashCount(_, _, _, count) => Some(*count),
-- 
2.43.0


From ed524c543ef3a71bbbcc9d27287542b0de2b682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 30/63] fix: chunk proofs of a count tree holding a reference
 did not verify

---
 grovedb/src/operations/proof/generate.rs | 73 +++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 1405aac..7d30fc0 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -10,6 +10,7 @@ use grovedb_costs::{
 };
 use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
 use grovedb_merk::{
+    element::ElementExt,
     proofs::{encode_into, query::QueryItem, Node, Op},
     tree::{combine_hash, value_hash},
     Merk, ProofWithoutEncodingResult, TreeFeatureType,
@@ -694,12 +695,16 @@ impl GroveDb {
         );
 
         // Perform the trunk query
-        let trunk_result = cost_return_on_error!(
+        let mut trunk_result = cost_return_on_error!(
             &mut cost,
             target_tree
                 .trunk_query(query.max_depth, query.min_depth, grove_version)
                 .map_err(Error::MerkError)
         );
+        cost_return_on_error!(
+            &mut cost,
+            self.bind_references_in_chunk(&mut trunk_result.proof, &query.path, grove_version)
+        );
 
         // Encode the trunk proof ops
         let mut trunk_proof_encoded = Vec::new();
@@ -782,12 +787,16 @@ impl GroveDb {
             )
         );
 
-        let trunk_result = cost_return_on_error!(
+        let mut trunk_result = cost_return_on_error!(
             &mut cost,
             target_tree
                 .trunk_query(query.max_depth, query.min_depth, grove_version)
                 .map_err(Error::MerkError)
         );
+        cost_return_on_error!(
+            &mut cost,
+            self.bind_references_in_chunk(&mut trunk_result.proof, &query.path, grove_version)
+        );
 
         let mut trunk_proof_encoded = Vec::new();
         encode_into(trunk_result.proof.iter(), &mut trunk_proof_encoded);
@@ -906,16 +915,74 @@ impl GroveDb {
         );
 
         // Perform the branch query - returns BranchQueryResult directly
-        let branch_result = cost_return_on_error!(
+        let mut branch_result = cost_return_on_error!(
             &mut cost,
             target_tree
                 .branch_query(&query.key, query.depth, grove_version)
                 .map_err(Error::MerkError)
         );
+        cost_return_on_error!(
+            &mut cost,
+            self.bind_references_in_chunk(&mut branch_result.proof, &query.path, grove_version)
+        );
 
         Ok(branch_result).wrap_with_cost(cost)
     }
 
+    /// The value hash of a reference combines the hash of its bytes with the
+    /// one of the element it leads to. The latter has to be part of a chunk
+    /// proof, or the verifier could not check the former.
+    fn bind_references_in_chunk(
+        &self,
+        ops: &mut [Op],
+        path: &[Vec<u8>],
+        grove_version: &GroveVersion,
+    ) -> CostResult<(), Error> {
+        let mut cost = OperationCost::default();
+
+        for op in ops.iter_mut() {
+            let (Op::Push(node) | Op::PushInverted(node)) = op else {
+                continue;
+            };
+            let (key, value, hash, feature_type) = match node {
+                Node::KVValueHash(key, value, hash) => {
+                    (key, value, hash, TreeFeatureType::BasicMerkNode)
+                }
+                Node::KVValueHashFeatureType(key, value, hash, feature_type) => {
+                    (key, value, hash, *feature_type)
+                }
+                _ => continue,
+            };
+            let Ok(Element::Reference(reference_path, ..)) =
+                Element::deserialize(value, grove_version)
+            else {
+                continue;
+            };
+            let absolute_path = cost_return_on_error_no_add!(
+                cost,
+                path_from_reference_path_type(reference_path, path, Some(key.as_slice()))
+                    .map_err(Error::from)
+            );
+            let referenced_element = cost_return_on_error!(
+                &mut cost,
+                self.follow_reference(absolute_path.as_slice().into(), true, None, grove_version)
+            );
+            let referenced_value_hash = cost_return_on_error_into!(
+                &mut cost,
+                referenced_element.value_hash(grove_version)
+            );
+            *node = Node::KVValueHashFeatureTypeWithChildHash(
+                key.to_owned(),
+                value.to_owned(),
+                *hash,
+                feature_type,
+                referenced_value_hash,
+            );
+        }
+
+        Ok(()).wrap_with_cost(cost)
+    }
+
     // ── V1 Proof Generation (MmrTree / BulkAppendTree support) ──────────
 
     /// V1: Generates a proof that supports MmrTree / BulkAppendTree elements.
-- 
2.43.0


From d93d821daebc29d4a859fe5bd4f8eab6e5aa661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 31/63] fix: bound the tree depth of the largest counts

Fibonacci numbers saturating at u64::MAX made a count of u64::MAX one level too
deep.
---
 merk/src/proofs/branch/depth.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/branch/depth.rs b/merk/src/proofs/branch/depth.rs
index 70e3325..7fdb2d9 100644
--- a/merk/src/proofs/branch/depth.rs
+++ b/merk/src/proofs/branch/depth.rs
@@ -52,7 +52,10 @@ pub fn calculate_max_tree_depth_from_count(count: u64) -> u8 {
 
     loop {
         // Calculate N(height+1) = F(height+3) - 1
-        let f_next = f_prev.saturating_add(f_curr);
+        let Some(f_next) = f_prev.checked_add(f_curr) else {
+            // More nodes than any count
+            return height;
+        };
         let next_min_nodes = f_next.saturating_sub(1);
 
         if next_min_nodes > count {
-- 
2.43.0


From 1194b935a86ca3aef16938cd3fc194ff6919dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 32/63] fix: terminal keys follow the branch a query takes for
 a key

Keys of conditional branches that the query does not select were listed, so that
absence proofs called existing keys absent; selected keys whose conditional branch
has no subquery were left out; and overlapping branches listed keys twice or
below the wrong branch.
---
 grovedb-query/src/query.rs | 180 ++++++++++++++-----------------------
 1 file changed, 67 insertions(+), 113 deletions(-)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index df79177..83db53e 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -372,9 +372,10 @@ impl Query {
         }
         let mut current_len = result.len();
         let mut added = 0;
-        let mut already_added_keys = HashSet::new();
+        let mut seen_keys = HashSet::new();
+        let mut keys = vec![];
         if let Some(conditional_subquery_branches) = &self.conditional_subquery_branches {
-            for (conditional_query_item, subquery_branch) in conditional_subquery_branches {
+            for conditional_query_item in conditional_subquery_branches.keys() {
                 // unbounded ranges can not be supported
                 if conditional_query_item.is_unbounded_range() {
                     return Err(Error::NotSupported(
@@ -382,66 +383,12 @@ impl Query {
                             .to_string(),
                     ));
                 }
-                let conditional_keys = conditional_query_item.keys()?;
-                for key in conditional_keys.into_iter() {
-                    if current_len > max_results {
-                        return Err(Error::RequestAmountExceeded(format!(
-                            "terminal keys limit exceeded for conditional subqueries, set max is \
-                             {max_results}, current length is {current_len}",
-                        )));
-                    }
-                    already_added_keys.insert(key.clone());
-                    let mut path = current_path.clone();
-                    if let Some(subquery_path) = &subquery_branch.subquery_path {
-                        if let Some(subquery) = &subquery_branch.subquery {
-                            // a subquery path with a subquery
-                            // push the key to the path
-                            path.push(key);
-                            // push the subquery path to the path
-                            path.extend(subquery_path.iter().cloned());
-                            // recurse onto the lower level
-                            let added_here = subquery.terminal_keys_inner(
-                                path,
-                                max_results,
-                                result,
-                                depth + 1,
-                            )?;
-                            added += added_here;
-                            current_len += added_here;
-                        } else {
-                            if current_len == max_results {
-                                return Err(Error::RequestAmountExceeded(format!(
-                                    "terminal keys limit exceeded when subquery path but no \
-                                     subquery, set max is {max_results}, current length is \
-                                     {current_len}",
-                                )));
-                            }
-                            // a subquery path but no subquery
-                            // split the subquery path and remove the last element
-                            // push the key to the path with the front elements,
-                            // and set the tail of the subquery path as the terminal key
-                            path.push(key);
-                            if let Some((last_key, front_keys)) = subquery_path.split_last() {
-                                path.extend(front_keys.iter().cloned());
-                                result.push((path, last_key.clone()));
-                            } else {
-                                return Err(Error::CorruptedCodeExecution(
-                                    "subquery_path set but doesn't contain any values",
-                                ));
-                            }
-
-                            added += 1;
-                            current_len += 1;
-                        }
-                    } else if let Some(subquery) = &subquery_branch.subquery {
-                        // a subquery without a subquery path
-                        // push the key to the path
-                        path.push(key);
-                        // recurse onto the lower level
-                        let added_here =
-                            subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
-                        added += added_here;
-                        current_len += added_here;
+                // a conditional branch only concerns keys that are queried
+                for key in conditional_query_item.keys()? {
+                    if self.items.iter().any(|item| item.contains(&key))
+                        && seen_keys.insert(key.clone())
+                    {
+                        keys.push(key);
                     }
                 }
             }
@@ -452,58 +399,34 @@ impl Query {
                     "terminal keys are not supported with unbounded ranges".to_string(),
                 ));
             }
-            let keys = item.keys()?;
-            for key in keys.into_iter() {
-                if already_added_keys.contains(&key) {
-                    // we already had this key in the conditional subqueries
-                    continue; // skip this key
+            for key in item.keys()? {
+                if seen_keys.insert(key.clone()) {
+                    keys.push(key);
                 }
-                if current_len > max_results {
-                    return Err(Error::RequestAmountExceeded(format!(
-                        "terminal keys limit exceeded for items, set max is {max_results}, \
-                         current len is {current_len}",
-                    )));
-                }
-                let mut path = current_path.clone();
-                if let Some(subquery_path) = &self.default_subquery_branch.subquery_path {
-                    if let Some(subquery) = &self.default_subquery_branch.subquery {
-                        // a subquery path with a subquery
-                        // push the key to the path
-                        path.push(key);
-                        // push the subquery path to the path
-                        path.extend(subquery_path.iter().cloned());
-                        // recurse onto the lower level
-                        let added_here =
-                            subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
-                        added += added_here;
-                        current_len += added_here;
-                    } else {
-                        if current_len == max_results {
-                            return Err(Error::RequestAmountExceeded(format!(
-                                "terminal keys limit exceeded when subquery path but no subquery, \
-                                 set max is {max_results}, current len is {current_len}",
-                            )));
-                        }
-                        // a subquery path but no subquery
-                        // split the subquery path and remove the last element
-                        // push the key to the path with the front elements,
-                        // and set the tail of the subquery path as the terminal key
-                        path.push(key);
-                        if let Some((last_key, front_keys)) = subquery_path.split_last() {
-                            path.extend(front_keys.iter().cloned());
-                            result.push((path, last_key.clone()));
-                        } else {
-                            return Err(Error::CorruptedCodeExecution(
-                                "subquery_path set but doesn't contain any values",
-                            ));
-                        }
-                        added += 1;
-                        current_len += 1;
-                    }
-                } else if let Some(subquery) = &self.default_subquery_branch.subquery {
-                    // a subquery without a subquery path
+            }
+        }
+        for key in keys {
+            if current_len > max_results {
+                return Err(Error::RequestAmountExceeded(format!(
+                    "terminal keys limit exceeded for items, set max is {max_results}, current \
+                     len is {current_len}",
+                )));
+            }
+            // the first conditional branch the key matches, or the default one
+            let subquery_branch = self
+                .conditional_subquery_branches
+                .iter()
+                .flatten()
+                .find(|(conditional_query_item, _)| conditional_query_item.contains(&key))
+                .map_or(&self.default_subquery_branch, |(_, branch)| branch);
+            let mut path = current_path.clone();
+            if let Some(subquery_path) = &subquery_branch.subquery_path {
+                if let Some(subquery) = &subquery_branch.subquery {
+                    // a subquery path with a subquery
                     // push the key to the path
                     path.push(key);
+                    // push the subquery path to the path
+                    path.extend(subquery_path.iter().cloned());
                     // recurse onto the lower level
                     let added_here =
                         subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
@@ -512,14 +435,45 @@ impl Query {
                 } else {
                     if current_len == max_results {
                         return Err(Error::RequestAmountExceeded(format!(
-                            "terminal keys limit exceeded without subquery or subquery path, set \
+                            "terminal keys limit exceeded when subquery path but no subquery, set \
                              max is {max_results}, current len is {current_len}",
                         )));
                     }
-                    result.push((path, key));
+                    // a subquery path but no subquery
+                    // split the subquery path and remove the last element
+                    // push the key to the path with the front elements,
+                    // and set the tail of the subquery path as the terminal key
+                    path.push(key);
+                    if let Some((last_key, front_keys)) = subquery_path.split_last() {
+                        path.extend(front_keys.iter().cloned());
+                        result.push((path, last_key.clone()));
+                    } else {
+                        return Err(Error::CorruptedCodeExecution(
+                            "subquery_path set but doesn't contain any values",
+                        ));
+                    }
                     added += 1;
                     current_len += 1;
                 }
+            } else if let Some(subquery) = &subquery_branch.subquery {
+                // a subquery without a subquery path
+                // push the key to the path
+                path.push(key);
+                // recurse onto the lower level
+                let added_here =
+                    subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
+                added += added_here;
+                current_len += added_here;
+            } else {
+                if current_len == max_results {
+                    return Err(Error::RequestAmountExceeded(format!(
+                        "terminal keys limit exceeded without subquery or subquery path, set max \
+                         is {max_results}, current len is {current_len}",
+                    )));
+                }
+                result.push((path, key));
+                added += 1;
+                current_len += 1;
             }
         }
         Ok(added)
-- 
2.43.0


From be7896b7c4b3679a5620d5bf0e795864874c69c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 33/63] fix: parent tree info is that of the queried tree

When the queried tree is empty or absent, the info of the tree above it was
returned; when results are trees, it was that of the last of them.
---
 grovedb/src/operations/proof/verify.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 36b6aa3..efd4b53 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -487,6 +487,12 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // The tree the path leads to, empty or not, is the parent of
+                    // what is queried
+                    if current_path.len() + 1 == query.path.len() {
+                        *last_parent_tree_type = element.tree_feature_type();
+                    }
+
                     // References are proven with the element they lead to, so that a
                     // raw one is an element whose bytes were swapped.
                     if element.is_reference() {
@@ -541,7 +547,6 @@ impl GroveDb {
                             | Element::BulkAppendTree(..)
                             | Element::DenseAppendOnlyFixedSizeTree(..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // Query targets the tree itself, not its contents: the
                                     // lower layer only authenticates the element
@@ -1536,6 +1541,12 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // The tree the path leads to, empty or not, is the parent of
+                    // what is queried
+                    if current_path.len() + 1 == query.path.len() {
+                        *last_parent_tree_type = element.tree_feature_type();
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         #[cfg(feature = "proof_debug")]
                         {
@@ -1550,7 +1561,6 @@ impl GroveDb {
                             | Element::ProvableCountTree(Some(_), ..)
                             | Element::ProvableCountSumTree(Some(_), ..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // We are actually looking for the tree: the lower layer
                                     // only authenticates the element
-- 
2.43.0


From 3426dd1107baa1f8b2796fc3d70f4d0ed7dd43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 34/63] fix: prove raw values in provable count trees with
 their count

---
 merk/src/proofs/query/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/mod.rs b/merk/src/proofs/query/mod.rs
index 7c6bf1f..7e879fa 100644
--- a/merk/src/proofs/query/mod.rs
+++ b/merk/src/proofs/query/mod.rs
@@ -343,7 +343,11 @@ where
             //   - Only GroveDB subtrees need KvValueHash for combined hash verification
             let proof_node_type = ElementType::from_serialized_value(self.tree().value_as_slice())
                 .map(|et| et.proof_node_type(parent_tree_type))
-                .unwrap_or(ProofNodeType::Kv); // Default to tamper-resistant for raw Merk
+                .unwrap_or(if is_provable_count_tree {
+                    ProofNodeType::KvCount
+                } else {
+                    ProofNodeType::Kv
+                }); // Default to tamper-resistant for raw Merk
 
             // Convert ProofNodeType to actual Node
             // Note: References use KvRefValueHash or KvRefValueHashCount, but at the merk
-- 
2.43.0


From 21dcabdd2c75fa0691a538383905e2a1afe494e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 35/63] fix: detect hidden nodes before the first entry of a
 proved map

---
 merk/src/proofs/query/map.rs | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/merk/src/proofs/query/map.rs b/merk/src/proofs/query/map.rs
index 610a823..e9610ef 100644
--- a/merk/src/proofs/query/map.rs
+++ b/merk/src/proofs/query/map.rs
@@ -154,26 +154,20 @@ impl Range<'_> {
     /// Returns an error if the proof does not properly prove the end of the
     /// range.
     fn check_end_bound(&self) -> Result<(), Error> {
-        let excluded_data = match self.prev_key {
-            // unbounded end, ensure proof has not excluded data at global right
-            // edge of tree
-            None => !self.map.right_edge,
-
-            // bounded end (inclusive or exclusive), ensure we had an exact
-            // match or next node is contiguous
-            Some(ref key) => {
-                // get neighboring node to the right (if any)
-                let range = (Bound::Excluded(key.to_vec()), Bound::<Vec<u8>>::Unbounded);
-                let maybe_end_node = self.map.entries.range(range).next();
+        // get neighboring node to the right (if any), which is the first node if
+        // the start is unbounded and there was no match
+        let range = match self.prev_key {
+            None => (Bound::Unbounded, Bound::<Vec<u8>>::Unbounded),
+            Some(ref key) => (Bound::Excluded(key.to_vec()), Bound::Unbounded),
+        };
+        let maybe_end_node = self.map.entries.range(range).next();
 
-                match maybe_end_node {
-                    // reached global right edge of tree
-                    None => !self.map.right_edge,
+        let excluded_data = match maybe_end_node {
+            // reached global right edge of tree
+            None => !self.map.right_edge,
 
-                    // got end node, must be contiguous
-                    Some((_, (contiguous, _))) => !contiguous,
-                }
-            }
+            // got end node, must be contiguous
+            Some((_, (contiguous, _))) => !contiguous,
         };
 
         if excluded_data {
-- 
2.43.0


From 7297bdf1289dd93bf379ce45971d99695e4af833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 36/63] fix: charge the hashing of referenced values in proof
 trees

---
 merk/src/proofs/tree.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index 327600a..2187ec3 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -191,6 +191,7 @@ impl Tree {
 
                 kv_digest_to_kv_hash(key.as_slice(), &combined_value_hash)
                     .flat_map(|kv_hash| compute_hash(self, kv_hash))
+                    .add_cost(cost)
             }
             Node::KVCount(key, value, count) => {
                 kv_hash(key.as_slice(), value.as_slice()).flat_map(|kv_hash| {
@@ -215,14 +216,16 @@ impl Tree {
                 let combined_value_hash = combine_hash(node_value_hash, &referenced_value_hash)
                     .unwrap_add_cost(&mut cost);
 
-                kv_digest_to_kv_hash(key.as_slice(), &combined_value_hash).flat_map(|kv_hash| {
-                    node_hash_with_count(
-                        &kv_hash,
-                        &self.child_hash(true),
-                        &self.child_hash(false),
-                        *count,
-                    )
-                })
+                kv_digest_to_kv_hash(key.as_slice(), &combined_value_hash)
+                    .flat_map(|kv_hash| {
+                        node_hash_with_count(
+                            &kv_hash,
+                            &self.child_hash(true),
+                            &self.child_hash(false),
+                            *count,
+                        )
+                    })
+                    .add_cost(cost)
             }
         }
     }
-- 
2.43.0


From 2ff5bf5aa2a39c06c59ba8f40821878786ec7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 37/63] fix: chunk index of an instruction in a tree of height
 0 or 1 panicked

---
 merk/src/proofs/chunk/util.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/merk/src/proofs/chunk/util.rs b/merk/src/proofs/chunk/util.rs
index 8f69012..a6ab3a2 100644
--- a/merk/src/proofs/chunk/util.rs
+++ b/merk/src/proofs/chunk/util.rs
@@ -216,7 +216,11 @@ pub fn chunk_index_from_traversal_instruction(
     let mut current_chunk_index = 1;
 
     let mut layer_heights = chunk_height_per_layer(height);
-    let last_layer_height = layer_heights.pop().expect("confirmed not empty");
+    let last_layer_height = layer_heights
+        .pop()
+        .ok_or(Error::ChunkingError(BadTraversalInstruction(
+            "traversal instruction should not address nodes of an empty tree",
+        )))?;
 
     // traversal instructions should only point to the root node of chunks (chunk
     // boundaries) the layer heights represent the height of each chunk layer
@@ -226,7 +230,7 @@ pub fn chunk_index_from_traversal_instruction(
     //      height 2 is represented by [left] or [right] len of 1
     // therefore last chunk root node is address with total_height -
     // last_chunk_height
-    if traversal_instruction.len() > height - last_layer_height {
+    if traversal_instruction.len() + last_layer_height > height {
         return Err(Error::ChunkingError(BadTraversalInstruction(
             "traversal instruction should not address nodes past the root of the last layer chunks",
         )));
-- 
2.43.0


From 6f43beb16ad0df0fc54eada478a5c11170b4db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 38/63] fix: decoding a chunk op allocated any length it was
 told

---
 merk/src/proofs/chunk/chunk_op.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/merk/src/proofs/chunk/chunk_op.rs b/merk/src/proofs/chunk/chunk_op.rs
index 674e43d..7ea26a0 100644
--- a/merk/src/proofs/chunk/chunk_op.rs
+++ b/merk/src/proofs/chunk/chunk_op.rs
@@ -94,20 +94,22 @@ impl Decode for ChunkOp {
 
         match marker[0] {
             0 => {
-                let length = input.read_varint()?;
-                let mut instruction_as_binary = vec![0_u8; length];
-                input.read_exact(&mut instruction_as_binary)?;
-
-                let instruction: Vec<bool> = instruction_as_binary
-                    .into_iter()
-                    .map(|v| v == 1_u8)
-                    .collect();
+                let length: usize = input.read_varint()?;
+
+                // the length is not to be trusted with an allocation
+                let mut instruction = vec![];
+                for _ in 0..length {
+                    let mut byte = [0_u8; 1];
+                    input.read_exact(&mut byte)?;
+                    instruction.push(byte[0] == 1_u8);
+                }
 
                 *self = ChunkOp::ChunkId(instruction);
             }
             1 => {
-                let ops_length = input.read_varint()?;
-                let mut chunk = Vec::with_capacity(ops_length);
+                let ops_length: usize = input.read_varint()?;
+                // the length is not to be trusted with an allocation
+                let mut chunk = vec![];
 
                 for _ in 0..ops_length {
                     let op = Decode::decode(&mut input)?;
-- 
2.43.0


From d73008e00f0c3bf58a2eb1e07e7913f02e6f7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 39/63] fix: chunks with some subtrees still hashed were
 refused as unbalanced

---
 merk/src/proofs/tree.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index 2187ec3..c53b7c6 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -404,6 +404,15 @@ impl Tree {
         }
     }
 
+    /// Returns whether a hash node stands for a part of the tree.
+    fn has_hash_node(&self) -> bool {
+        matches!(self.node, Node::Hash(_))
+            || [&self.left, &self.right]
+                .into_iter()
+                .flatten()
+                .any(|child| child.tree.has_hash_node())
+    }
+
     #[cfg(feature = "minimal")]
     pub(crate) fn aggregate_data(&self) -> Result<AggregateData, Error> {
         match &self.node {
@@ -695,9 +704,17 @@ where
 
     let tree = stack.pop().unwrap();
 
-    if tree.child_heights.0.max(tree.child_heights.1)
-        - tree.child_heights.0.min(tree.child_heights.1)
-        > 1
+    // The height of a tree with hash nodes is only a lower bound, as the subtrees
+    // these stand for may be of any height
+    let lower_child = if tree.child_heights.0 < tree.child_heights.1 {
+        &tree.left
+    } else {
+        &tree.right
+    };
+    if tree.child_heights.0.abs_diff(tree.child_heights.1) > 1
+        && !lower_child
+            .as_ref()
+            .is_some_and(|child| child.tree.has_hash_node())
     {
         return Err(Error::InvalidProofError(
             "Expected proof to result in a valid avl tree".to_string(),
-- 
2.43.0


From 326329f6f8ef98b12d7c3fb11fdaaf2b43e91473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 40/63] fix: chunks of a tree that is not full could not be
 walked in order

---
 merk/src/merk/chunks.rs        | 63 ++++++++++++++++++++--------------
 merk/src/proofs/chunk/chunk.rs | 28 +++++++++++++++
 2 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/merk/src/merk/chunks.rs b/merk/src/merk/chunks.rs
index f74fb00..6b2d5e7 100644
--- a/merk/src/merk/chunks.rs
+++ b/merk/src/merk/chunks.rs
@@ -15,7 +15,8 @@ use crate::{
                 chunk_height, chunk_index_from_traversal_instruction,
                 chunk_index_from_traversal_instruction_with_recovery,
                 generate_traversal_instruction, generate_traversal_instruction_as_vec_bytes,
-                number_of_chunks, vec_bytes_as_traversal_instruction,
+                number_of_chunks, number_of_chunks_under_chunk_id,
+                vec_bytes_as_traversal_instruction,
             },
         },
         Node, Op,
@@ -150,8 +151,6 @@ where
             )));
         }
 
-        self.index = index + 1;
-
         let chunk_height = chunk_height(self.height, index)?;
 
         let tree_type = self.merk.tree_type;
@@ -174,11 +173,36 @@ where
 
         // now we need to return the next index
         // how do we know if we should return some or none
-        if self.index > max_chunk_index {
-            Ok((chunk, None))
-        } else {
-            Ok((chunk, Some(self.index)))
+        let next_index = self.next_existing_chunk(index + 1, grove_version)?;
+        self.index = next_index.unwrap_or(max_chunk_index + 1);
+
+        Ok((chunk, next_index))
+    }
+
+    /// Returns the first chunk from the given index on that there is. Chunks
+    /// are numbered as in a full tree of this height, so when the tree has no
+    /// node where a chunk would start, that chunk and those below it are left
+    /// out.
+    fn next_existing_chunk(
+        &self,
+        mut index: usize,
+        grove_version: &GroveVersion,
+    ) -> Result<Option<usize>, Error> {
+        while index <= self.len() {
+            let traversal_instructions = generate_traversal_instruction(self.height, index)?;
+            let exists = self
+                .merk
+                .walk(|maybe_walker| match maybe_walker {
+                    Some(mut walker) => walker.has_node_at(&traversal_instructions, grove_version),
+                    None => Ok(false).wrap_with_cost(Default::default()),
+                })
+                .value?;
+            if exists {
+                return Ok(Some(index));
+            }
+            index += number_of_chunks_under_chunk_id(self.height, index)?;
         }
+        Ok(None)
     }
 
     /// Generate multichunk with chunk id
@@ -286,16 +310,11 @@ where
         limit: Option<usize>,
         grove_version: &GroveVersion,
     ) -> Result<SubtreeChunk, Error> {
-        let max_chunk_index = number_of_chunks(self.height);
-        let mut chunk_index = index;
-
         // we first get the chunk at the given index
-        // TODO: use the returned chunk index rather than tracking
-        let (chunk_ops, _) = self.chunk_with_index(chunk_index, grove_version)?;
+        let (chunk_ops, mut next_index) = self.chunk_with_index(index, grove_version)?;
         let mut chunk_byte_length = chunk_ops.encoding_length().map_err(|_e| {
             Error::ChunkingError(ChunkError::InternalError("can't get encoding length"))
         })?;
-        chunk_index += 1;
 
         let mut chunk = VecDeque::from(chunk_ops);
 
@@ -313,8 +332,11 @@ where
         while iteration_index < chunk.len() {
             // we only perform replacements on Hash nodes
             if matches!(chunk[iteration_index], Op::Push(Node::Hash(..))) {
-                // TODO: use the returned chunk index rather than tracking
-                let (replacement_chunk, _) = self.chunk_with_index(chunk_index, grove_version)?;
+                let chunk_index = next_index.ok_or(Error::ChunkingError(
+                    ChunkError::InternalError("no chunk left to replace a hash node"),
+                ))?;
+                let (replacement_chunk, following_index) =
+                    self.chunk_with_index(chunk_index, grove_version)?;
 
                 // calculate the new total
                 let new_total = replacement_chunk.encoding_length().map_err(|_e| {
@@ -326,11 +348,6 @@ where
                 if let Some(limit) = limit
                     && new_total > limit
                 {
-                    let next_index = match chunk_index > max_chunk_index {
-                        true => None,
-                        _ => Some(chunk_index),
-                    };
-
                     return Ok(SubtreeChunk::new(
                         chunk.into(),
                         next_index,
@@ -339,7 +356,7 @@ where
                 }
 
                 chunk_byte_length = new_total;
-                chunk_index += 1;
+                next_index = following_index;
 
                 chunk.remove(iteration_index);
                 for op in replacement_chunk.into_iter().rev() {
@@ -351,10 +368,6 @@ where
         }
 
         let remaining_limit = limit.map(|l| l - chunk_byte_length);
-        let next_index = match chunk_index > max_chunk_index {
-            true => None,
-            _ => Some(chunk_index),
-        };
 
         Ok(SubtreeChunk::new(chunk.into(), next_index, remaining_limit))
     }
diff --git a/merk/src/proofs/chunk/chunk.rs b/merk/src/proofs/chunk/chunk.rs
index d188eb3..9a636f3 100644
--- a/merk/src/proofs/chunk/chunk.rs
+++ b/merk/src/proofs/chunk/chunk.rs
@@ -218,6 +218,34 @@ where
             .add_cost(cost)
     }
 
+    /// Returns whether there is a node at the given traversal instruction
+    pub(crate) fn has_node_at(
+        &mut self,
+        instructions: &[bool],
+        grove_version: &GroveVersion,
+    ) -> CostResult<bool, Error> {
+        let mut cost = OperationCost::default();
+
+        let Some((side, rest)) = instructions.split_first() else {
+            return Ok(true).wrap_with_cost(cost);
+        };
+        if rest.is_empty() || self.tree().link(*side).is_none() {
+            return Ok(self.tree().link(*side).is_some()).wrap_with_cost(cost);
+        }
+        let maybe_child = cost_return_on_error!(
+            &mut cost,
+            self.walk(
+                *side,
+                None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
+                grove_version,
+            )
+        );
+        match maybe_child {
+            Some(mut child) => child.has_node_at(rest, grove_version).add_cost(cost),
+            None => Ok(false).wrap_with_cost(cost),
+        }
+    }
+
     /// Returns the smallest amount of tree ops, that can convince
     /// a verifier of the tree height
     /// the generated subtree is of this form
-- 
2.43.0


From dc5e4af1f7ce7b54b06025b63adff6f4128e2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 41/63] fix: restored trees lost sums and counts

---
 merk/src/merk/restore.rs | 185 ++++++++++++++++++++++++---------------
 merk/src/tree/mod.rs     |   5 ++
 2 files changed, 120 insertions(+), 70 deletions(-)

diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 576ef08..8ab6db5 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -31,10 +31,12 @@
 
 use std::collections::BTreeMap;
 
+use grovedb_element::Element;
 use grovedb_storage::{Batch, StorageContext};
 use grovedb_version::version::GroveVersion;
 
 use crate::{
+    element::tree_type::ElementTreeTypeExtensions,
     merk,
     merk::MerkSource,
     proofs::{
@@ -47,7 +49,9 @@ use crate::{
         tree::{execute, Child, Tree as ProofTree},
         Node, Op,
     },
-    tree::{combine_hash, kv::ValueDefinedCostType, value_hash, RefWalker, TreeNode},
+    tree::{
+        combine_hash, kv::ValueDefinedCostType, value_hash, AggregateData, RefWalker, TreeNode,
+    },
     tree_type::TreeType,
     CryptoHash, Error,
     Error::{CostsError, StorageError},
@@ -86,7 +90,7 @@ use crate::{
 /// 3. **Mandatory finalization.** Callers must invoke [`Restorer::finalize`]
 ///    to obtain the restored `Merk`. `finalize` runs `verify_height`
 ///    which performs a full recursive height audit, and if any
-///    discrepancy is found, `rewrite_heights` traverses the entire tree
+///    discrepancy is found, `rewrite_links` traverses the entire tree
 ///    bottom-up to compute correct heights from the actual structure.
 ///    After height correction, `finalize` additionally calls
 ///    `merk.verify()` to validate the full tree integrity before
@@ -100,6 +104,19 @@ pub struct Restorer<S> {
     parent_keys: BTreeMap<Vec<u8>, Vec<u8>>,
 }
 
+/// The feature type of a node by itself: chunk proofs leave it out, or give the
+/// aggregate of the subtree instead, but it follows from the element and the
+/// type of the tree. `None` for values that are no elements.
+fn own_feature_type(
+    tree_type: TreeType,
+    value: &[u8],
+    grove_version: &GroveVersion,
+) -> Option<TreeFeatureType> {
+    Element::deserialize(value, grove_version)
+        .ok()
+        .and_then(|element| element.get_feature_type(tree_type).ok())
+}
+
 impl<'db, S: StorageContext<'db>> Restorer<S> {
     /// Initializes a new chunk restorer with the expected root hash for the
     /// first chunk
@@ -162,7 +179,11 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         }
 
         // next up, we need to write the chunk and build the map again
-        let chunk_write_result = self.write_chunk(chunk_tree, &mut root_traversal_instruction);
+        let chunk_write_result = self.write_chunk(
+            chunk_tree,
+            &mut root_traversal_instruction,
+            grove_version,
+        );
         if chunk_write_result.is_ok() {
             // if we were able to successfully write the chunk, we can remove
             // the chunk expected root hash from our chunk id map
@@ -283,7 +304,9 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         &mut self,
         chunk_tree: ProofTree,
         traversal_instruction: &mut Vec<bool>,
+        grove_version: &GroveVersion,
     ) -> Result<Vec<Vec<u8>>, Error> {
+        let tree_type = self.merk.tree_type;
         // this contains all the elements we want to write to storage
         let mut batch = self.merk.storage.new_batch();
         let mut new_chunk_ids = Vec::new();
@@ -299,7 +322,8 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             *vh,
-                            *feature_type,
+                            own_feature_type(tree_type, value, grove_version)
+                                .unwrap_or(*feature_type),
                         )
                         .unwrap();
 
@@ -315,14 +339,15 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                         batch.put(key, &bytes, None, None).map_err(CostsError)
                     }
                     Node::KV(key, value) => {
-                        // Items in normal trees: value_hash = H(value),
-                        // feature_type = BasicMerkNode
+                        // Items: value_hash = H(value), the feature type follows
+                        // from the element and the type of the tree
                         let vh = value_hash(value.as_slice()).unwrap();
                         let mut tree = TreeNode::new_with_value_hash(
                             key.clone(),
                             value.clone(),
                             vh,
-                            TreeFeatureType::BasicMerkNode,
+                            own_feature_type(tree_type, value, grove_version)
+                                .unwrap_or(TreeFeatureType::BasicMerkNode),
                         )
                         .unwrap();
 
@@ -334,13 +359,14 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                     }
                     Node::KVValueHash(key, value, vh) => {
                         // Subtrees/references in normal trees: value_hash is
-                        // provided (may be a combined hash for subtrees),
-                        // feature_type = BasicMerkNode
+                        // provided (may be a combined hash for subtrees), the
+                        // feature type follows from the element and the tree
                         let mut tree = TreeNode::new_with_value_hash(
                             key.clone(),
                             value.clone(),
                             *vh,
-                            TreeFeatureType::BasicMerkNode,
+                            own_feature_type(tree_type, value, grove_version)
+                                .unwrap_or(TreeFeatureType::BasicMerkNode),
                         )
                         .unwrap();
 
@@ -351,14 +377,16 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                         batch.put(key, &bytes, None, None).map_err(CostsError)
                     }
                     Node::KVCount(key, value, count) => {
-                        // Items in ProvableCountTree: value_hash = H(value),
-                        // feature_type = ProvableCountedMerkNode(count)
+                        // Items in ProvableCountTree: value_hash = H(value).
+                        // The count of the proof node is that of the whole
+                        // subtree, not of this node alone
                         let vh = value_hash(value.as_slice()).unwrap();
                         let mut tree = TreeNode::new_with_value_hash(
                             key.clone(),
                             value.clone(),
                             vh,
-                            TreeFeatureType::ProvableCountedMerkNode(*count),
+                            own_feature_type(tree_type, value, grove_version)
+                                .unwrap_or(TreeFeatureType::ProvableCountedMerkNode(*count)),
                         )
                         .unwrap();
 
@@ -468,22 +496,25 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         Ok(())
     }
 
-    /// Recomputes all child heights bottom-up from the actual tree structure.
+    /// Recomputes all child heights and aggregates bottom-up from the actual
+    /// tree structure.
     ///
     /// Heights are not part of the cryptographic commitment (they do not
     /// affect the Merkle root hash), so a chunk producer could supply
     /// arbitrary height values. Additionally, during multi-chunk
     /// restoration, heights for chunk-boundary links are stored as
-    /// placeholders. This method walks the entire tree, computes true
-    /// heights from the leaves up, and rewrites every node with the
+    /// placeholders. Chunks do not carry the aggregates of most trees either.
+    /// This method walks the entire tree, computes true heights and
+    /// aggregates from the leaves up, and rewrites every node with the
     /// correct values. Called by `finalize()` when `verify_height` detects
-    /// a discrepancy.
-    fn rewrite_heights(&mut self, grove_version: &GroveVersion) -> Result<(), Error> {
-        fn rewrite_child_heights<'s, 'db, S: StorageContext<'db>>(
+    /// a discrepancy, and for all trees that aggregate.
+    fn rewrite_links(&mut self, grove_version: &GroveVersion) -> Result<(), Error> {
+        fn rewrite_child_links<'s, 'db, S: StorageContext<'db>>(
             mut walker: RefWalker<MerkSource<'s, S>>,
             batch: &mut <S as StorageContext<'db>>::Batch,
+            tree_type: TreeType,
             grove_version: &GroveVersion,
-        ) -> Result<(u8, u8), Error> {
+        ) -> Result<((u8, u8), AggregateData), Error> {
             let mut cloned_node = TreeNode::decode(
                 walker.tree().key().to_vec(),
                 walker.tree().encode().as_slice(),
@@ -491,47 +522,64 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 grove_version,
             )
             .map_err(|_| {
-                Error::CorruptedState("failed to decode tree node during height rewrite")
+                Error::CorruptedState("failed to decode tree node during link rewrite")
             })?;
 
-            let mut left_height = 0;
-            let mut right_height = 0;
-
-            if let Some(left_walker) = walker
-                .walk(
-                    LEFT,
-                    None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
-                    grove_version,
-                )
-                .value?
-            {
-                let left_child_heights = rewrite_child_heights(left_walker, batch, grove_version)?;
-                left_height = left_child_heights.0.max(left_child_heights.1) + 1;
-                *cloned_node
-                    .link_mut(LEFT)
-                    .ok_or(Error::CorruptedState(
-                        "expected left link to exist after walking left child",
-                    ))?
-                    .child_heights_mut() = left_child_heights;
+            let mut heights = [0, 0];
+            let mut child_count = 0u64;
+            let mut child_sum = 0i64;
+
+            for (height, side) in heights.iter_mut().zip([LEFT, RIGHT]) {
+                let Some(child) = walker
+                    .walk(
+                        side,
+                        None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
+                        grove_version,
+                    )
+                    .value?
+                else {
+                    continue;
+                };
+                let (child_child_heights, child_aggregate) =
+                    rewrite_child_links(child, batch, tree_type, grove_version)?;
+                *height = child_child_heights.0.max(child_child_heights.1) + 1;
+                if let AggregateData::ProvableCount(count) = child_aggregate {
+                    child_count = count.saturating_add(child_count);
+                }
+                if let AggregateData::ProvableCountAndSum(count, sum) = child_aggregate {
+                    child_count = count.saturating_add(child_count);
+                    child_sum = sum.saturating_add(child_sum);
+                }
+                let link = cloned_node.link_mut(side).ok_or(Error::CorruptedState(
+                    "expected link to exist after walking child",
+                ))?;
+                *link.child_heights_mut() = child_child_heights;
+                if let Link::Reference { aggregate_data, .. } = link {
+                    *aggregate_data = child_aggregate;
+                }
             }
 
-            if let Some(right_walker) = walker
-                .walk(
-                    RIGHT,
-                    None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
-                    grove_version,
-                )
-                .value?
-            {
-                let right_child_heights =
-                    rewrite_child_heights(right_walker, batch, grove_version)?;
-                right_height = right_child_heights.0.max(right_child_heights.1) + 1;
-                *cloned_node
-                    .link_mut(RIGHT)
-                    .ok_or(Error::CorruptedState(
-                        "expected right link to exist after walking right child",
-                    ))?
-                    .child_heights_mut() = right_child_heights;
+            // Values that are no elements come with the aggregate of the subtree
+            // in provable trees
+            if own_feature_type(tree_type, cloned_node.value_as_slice(), grove_version).is_none() {
+                let whole = Error::CorruptedState("aggregate is less than that of the children");
+                match cloned_node.feature_type() {
+                    TreeFeatureType::ProvableCountedMerkNode(count) => {
+                        cloned_node.set_feature_type(TreeFeatureType::ProvableCountedMerkNode(
+                            count.checked_sub(child_count).ok_or(whole)?,
+                        ));
+                    }
+                    TreeFeatureType::ProvableCountedSummedMerkNode(count, sum) => {
+                        cloned_node.set_feature_type(
+                            TreeFeatureType::ProvableCountedSummedMerkNode(
+                                count.checked_sub(child_count).ok_or(whole)?,
+                                sum.checked_sub(child_sum)
+                                    .ok_or(Error::Overflow("sum is overflowing"))?,
+                            ),
+                        );
+                    }
+                    _ => {}
+                }
             }
 
             let bytes = cloned_node.encode();
@@ -539,7 +587,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 .put(walker.tree().key(), &bytes, None, None)
                 .map_err(CostsError)?;
 
-            Ok((left_height, right_height))
+            Ok(((heights[0], heights[1]), cloned_node.aggregate_data()?))
         }
 
         let mut batch = self.merk.storage.new_batch();
@@ -548,11 +596,11 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 .tree
                 .take()
                 .ok_or(Error::ChunkRestoringError(ChunkError::InternalError(
-                    "tree is None in rewrite_heights",
+                    "tree is None in rewrite_links",
                 )))?;
         let walker = RefWalker::new(&mut tree, self.merk.source());
 
-        rewrite_child_heights(walker, &mut batch, grove_version)?;
+        rewrite_child_links(walker, &mut batch, self.merk.tree_type, grove_version)?;
 
         self.merk.tree.set(Some(tree));
 
@@ -609,9 +657,11 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
 
         // Heights written during chunk processing may be placeholders (see
         // write_chunk doc comment). Verify them here, and rewrite if needed.
-        if self.verify_height(grove_version).is_err() {
-            self.rewrite_heights(grove_version)?;
-            // update the root node after height rewrite
+        // Aggregates are only known now that the whole tree is there.
+        if self.merk.tree_type != TreeType::NormalTree || self.verify_height(grove_version).is_err()
+        {
+            self.rewrite_links(grove_version)?;
+            // update the root node after the rewrite
             self.merk
                 .load_base_root(
                     None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
@@ -620,17 +670,12 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 .value
                 .map_err(|_| {
                     Error::ChunkRestoringError(ChunkError::InternalError(
-                        "failed to reload base root after height rewrite",
+                        "failed to reload base root after link rewrite",
                     ))
                 })?;
         }
 
-        if !self
-            .merk
-            .verify(self.merk.tree_type != TreeType::NormalTree, grove_version)
-            .0
-            .is_empty()
-        {
+        if !self.merk.verify(false, grove_version).0.is_empty() {
             return Err(Error::ChunkRestoringError(ChunkError::InternalError(
                 "restored tree invalid",
             )));
diff --git a/merk/src/tree/mod.rs b/merk/src/tree/mod.rs
index 37e04e2..c964ab1 100644
--- a/merk/src/tree/mod.rs
+++ b/merk/src/tree/mod.rs
@@ -376,6 +376,11 @@ impl TreeNode {
         self.inner.kv.feature_type
     }
 
+    /// Replaces the feature type of this node.
+    pub(crate) fn set_feature_type(&mut self, feature_type: TreeFeatureType) {
+        self.inner.kv.feature_type = feature_type;
+    }
+
     /// Returns the root node's key as a slice.
     #[inline]
     pub fn key_as_ref(&self) -> &Vec<u8> {
-- 
2.43.0


From 7d0847880cb8165fb08247c9baf26d5c19dce08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 42/63] fix: chunks could replace the value of an item

---
 merk/src/merk/restore.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 8ab6db5..45545bc 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -31,7 +31,7 @@
 
 use std::collections::BTreeMap;
 
-use grovedb_element::Element;
+use grovedb_element::{Element, ElementType};
 use grovedb_storage::{Batch, StorageContext};
 use grovedb_version::version::GroveVersion;
 
@@ -242,6 +242,17 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         // build tree from ops
         // ensure only made of KV-like nodes and Hash nodes, and count them
         let tree = execute(chunk.clone().into_iter().map(Ok), false, |node| {
+            // values whose hash is theirs alone have to match the hash they come with
+            if let Node::KVValueHash(_, value, vh)
+            | Node::KVValueHashFeatureType(_, value, vh, _) = node
+                && ElementType::from_serialized_value(value)
+                    .is_ok_and(|element_type| element_type.has_simple_value_hash())
+                && value_hash(value).unwrap() != *vh
+            {
+                return Err(Error::ChunkRestoringError(ChunkError::InvalidChunkProof(
+                    "value doesn't match its value hash",
+                )));
+            }
             if matches!(
                 node,
                 Node::KVValueHashFeatureType(..)
-- 
2.43.0


From 718d34bed1cd71f011c7392c42b84366fb192593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 43/63] fix: state sync took empty data for subtrees that are
 not empty

---
 grovedb/src/replication/state_sync_session.rs | 43 ++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/grovedb/src/replication/state_sync_session.rs b/grovedb/src/replication/state_sync_session.rs
index 2e75a75..8134c3f 100644
--- a/grovedb/src/replication/state_sync_session.rs
+++ b/grovedb/src/replication/state_sync_session.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use grovedb_merk::{
-    tree::{kv::ValueDefinedCostType, value_hash},
+    tree::{combine_hash, hash::NULL_HASH, kv::ValueDefinedCostType, value_hash},
     tree_type::TreeType,
     CryptoHash, Restorer,
 };
@@ -55,9 +55,31 @@ struct SubtreeStateSyncInfo<'db> {
 
     /// Number of processed chunks in current prefix (Path digest)
     num_processed_chunks: usize,
+
+    /// Expected hash of the subtree: its root hash, combined with
+    /// `actual_value_hash` when there is a parent element
+    expected_hash: CryptoHash,
+
+    /// Hash of the serialized parent element, `None` for the root tree
+    actual_value_hash: Option<CryptoHash>,
 }
 
 impl SubtreeStateSyncInfo<'_> {
+    /// Whether the subtree is expected to have no elements at all.
+    fn is_expected_empty(&self) -> bool {
+        let empty_root_hash = match self.tree_type {
+            TreeType::CommitmentTree(_) => {
+                grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT
+            }
+            _ => NULL_HASH,
+        };
+        let expected_when_empty = match &self.actual_value_hash {
+            Some(actual_value_hash) => combine_hash(actual_value_hash, &empty_root_hash).unwrap(),
+            None => empty_root_hash,
+        };
+        self.expected_hash == expected_when_empty
+    }
+
     /// Applies a chunk using the given `SubtreeStateSyncInfo`.
     ///
     /// # Parameters
@@ -144,6 +166,8 @@ impl<'tx> SubtreeStateSyncInfo<'tx> {
             pending_chunks: Default::default(),
             current_path: vec![],
             num_processed_chunks: 0,
+            expected_hash: NULL_HASH,
+            actual_value_hash: None,
         }
     }
 }
@@ -353,6 +377,8 @@ impl<'db> MultiStateSyncSession<'db> {
             sync_info.root_key = root_key.clone();
             sync_info.tree_type = tree_type;
             sync_info.current_path = path.to_vec();
+            sync_info.expected_hash = hash;
+            sync_info.actual_value_hash = actual_hash;
             self.as_mut()
                 .current_prefixes()
                 .insert(chunk_prefix, sync_info);
@@ -532,13 +558,18 @@ impl<'db> MultiStateSyncSession<'db> {
                 let is_subtree_empty = subtree_state_sync.num_processed_chunks == 0;
                 if let Some(prefix_data) = current_prefixes.remove(&chunk_prefix) {
                     if is_subtree_empty {
-                        // For empty subtrees, verify the restorer's underlying merk has a
-                        // NULL root hash. A malicious peer that sends empty data for a
-                        // non-empty subtree will be caught here (and also at commit time
-                        // via H3 root hash verification).
+                        // For empty subtrees, verify that the parent committed to an empty
+                        // subtree. A malicious peer that sends empty data for a non-empty
+                        // subtree is caught here: the root hash at commit time is the one
+                        // of the root tree only and does not cover the data of subtrees.
+                        if !prefix_data.is_expected_empty() {
+                            return Err(Error::InternalError(
+                                "empty subtree has non-null root hash".to_string(),
+                            ));
+                        }
                         let merk = prefix_data.restorer.into_merk();
                         let merk_root = merk.root_hash().unwrap();
-                        if merk_root != grovedb_merk::tree::hash::NULL_HASH {
+                        if merk_root != NULL_HASH {
                             return Err(Error::InternalError(
                                 "empty subtree has non-null root hash".to_string(),
                             ));
-- 
2.43.0


From 48d256548e1333d81c1592fd2cc969e07f61a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 44/63] fix: an offset was ignored by some proof verifiers

---
 grovedb/src/operations/proof/verify.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index efd4b53..003ecff 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -178,6 +178,12 @@ impl GroveDb {
         ),
         Error,
     > {
+        // an offset that skips anything is not supported
+        if query.query.offset.is_some_and(|offset| offset > 0) {
+            return Err(Error::NotSupported(
+                "offsets in path queries are not supported for proofs".to_string(),
+            ));
+        }
         match proof {
             GroveDBProof::V0(proof_v0) => {
                 Self::verify_proof_v0_internal(proof_v0, query, options, grove_version)
@@ -281,6 +287,12 @@ impl GroveDb {
         options: VerifyOptions,
         grove_version: &GroveVersion,
     ) -> Result<(CryptoHash, Option<TreeFeatureType>, ProvedPathKeyValues), Error> {
+        // an offset that skips anything is not supported
+        if query.query.offset.is_some_and(|offset| offset > 0) {
+            return Err(Error::NotSupported(
+                "offsets in path queries are not supported for proofs".to_string(),
+            ));
+        }
         match proof {
             GroveDBProof::V0(proof_v0) => {
                 Self::verify_proof_raw_internal_v0(proof_v0, query, options, grove_version)
-- 
2.43.0


From 3c6087bd1ab9d7ce0eb653f14c4ccc18749c2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 45/63] fix: printing a proof that shows a value which is no
 element panicked

---
 grovedb/src/operations/proof/mod.rs  | 16 ++++++++--------
 grovedb/src/operations/proof/util.rs | 12 ++++++++++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/grovedb/src/operations/proof/mod.rs b/grovedb/src/operations/proof/mod.rs
index 1b9729f..224de7e 100644
--- a/grovedb/src/operations/proof/mod.rs
+++ b/grovedb/src/operations/proof/mod.rs
@@ -34,7 +34,7 @@ use grovedb_merkle_mountain_range::MmrTreeProof;
 use grovedb_version::version::GroveVersion;
 
 use crate::{
-    operations::proof::util::{element_hex_to_ascii, hex_to_ascii, ProvedPathKeyValues},
+    operations::proof::util::{hex_to_ascii, value_to_string, ProvedPathKeyValues},
     query_result_type::PathKeyOptionalElementTrio,
     Error, GroveDb, PathQuery,
 };
@@ -675,13 +675,13 @@ fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
             format!(
                 "KV({}, {})",
                 hex_to_ascii(key),
-                element_hex_to_ascii(value)?
+                value_to_string(value)
             )
         }
         Node::KVValueHash(key, value, value_hash) => format!(
             "KVValueHash({}, {}, HASH[{}])",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash)
         ),
         Node::KVDigest(key, value_hash) => format!(
@@ -698,20 +698,20 @@ fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
         Node::KVRefValueHash(key, value, value_hash) => format!(
             "KVRefValueHash({}, {}, HASH[{}])",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash)
         ),
         Node::KVValueHashFeatureType(key, value, value_hash, feature_type) => format!(
             "KVValueHashFeatureType({}, {}, HASH[{}], {:?})",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash),
             feature_type
         ),
         Node::KVCount(key, value, count) => format!(
             "KVCount({}, {}, {})",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             count
         ),
         Node::KVHashCount(kv_hash, count) => {
@@ -720,7 +720,7 @@ fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
         Node::KVRefValueHashCount(key, value, value_hash, count) => format!(
             "KVRefValueHashCount({}, {}, HASH[{}], {})",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash),
             count
         ),
@@ -733,7 +733,7 @@ fn node_to_string(node: &Node) -> Result<String, fmt::Error> {
         ) => format!(
             "KVValueHashFeatureTypeWithChildHash({}, {}, HASH[{}], {:?}, HASH[{}])",
             hex_to_ascii(key),
-            element_hex_to_ascii(value)?,
+            value_to_string(value),
             hex::encode(value_hash),
             feature_type,
             hex::encode(child_hash)
diff --git a/grovedb/src/operations/proof/util.rs b/grovedb/src/operations/proof/util.rs
index 260614b..fdb4be1 100644
--- a/grovedb/src/operations/proof/util.rs
+++ b/grovedb/src/operations/proof/util.rs
@@ -55,7 +55,9 @@ impl fmt::Display for ProvedPathKeyOptionalValue {
         writeln!(
             f,
             "  value: {},",
-            optional_element_hex_to_ascii(self.value.as_ref())?
+            self.value
+                .as_ref()
+                .map_or_else(|| "None".to_string(), |value| value_to_string(value))
         )?;
         writeln!(f, "  proof: {}", hex::encode(self.proof))?;
         write!(f, "}}")
@@ -93,7 +95,7 @@ impl fmt::Display for ProvedPathKeyValue {
         writeln!(
             f,
             "  value: {},",
-            element_hex_to_ascii(self.value.as_ref())?
+            value_to_string(self.value.as_ref())
         )?;
         writeln!(f, "  proof: {}", hex::encode(self.proof))?;
         write!(f, "}}")
@@ -238,6 +240,12 @@ pub fn element_hex_to_ascii(hex_value: &[u8]) -> Result<String, fmt::Error> {
     Ok(element.to_string())
 }
 
+/// Displays value bytes as the element they encode, or as bytes if they encode none.
+pub(crate) fn value_to_string(value: &[u8]) -> String {
+    element_hex_to_ascii(value)
+        .unwrap_or_else(|_| format!("<not an element: {}>", hex::encode(value)))
+}
+
 #[cfg(test)]
 mod tests {
     use grovedb_merk::proofs::query::ProvedKeyOptionalValue;
-- 
2.43.0


From 8ad877a696a61d2f62779beaac48fb4ddcdc6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 46/63] fix: printing a proof with an op that does not decode
 never ended

---
 grovedb/src/operations/proof/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grovedb/src/operations/proof/mod.rs b/grovedb/src/operations/proof/mod.rs
index 224de7e..b3cffbb 100644
--- a/grovedb/src/operations/proof/mod.rs
+++ b/grovedb/src/operations/proof/mod.rs
@@ -648,6 +648,8 @@ fn decode_merk_proof(proof: &[u8]) -> Result<String, fmt::Error> {
             }
             Err(e) => {
                 result.push_str(&format!("\n    {}: Error decoding op: {}", i, e));
+                // the decoder does not advance past an error
+                break;
             }
         }
     }
-- 
2.43.0


From 4da256c1c18685e3357f5152d4b50b4eba2f4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 47/63] fix: a tree that holds a filled MMR, bulk, dense or
 commitment tree could not be deleted

---
 grovedb/src/operations/auxiliary.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/auxiliary.rs b/grovedb/src/operations/auxiliary.rs
index 63512c5..4cf007b 100644
--- a/grovedb/src/operations/auxiliary.rs
+++ b/grovedb/src/operations/auxiliary.rs
@@ -186,7 +186,10 @@ impl GroveDb {
                 if value.is_any_tree() {
                     let mut sub_path = q.clone();
                     sub_path.push(key.to_vec());
-                    queue.push(sub_path.clone());
+                    // What non-Merk trees store are not elements
+                    if !value.uses_non_merk_data_storage() {
+                        queue.push(sub_path.clone());
+                    }
                     result.push(sub_path);
                 }
             }
-- 
2.43.0


From f81326c920af6650c6971c559f038d35d99af530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 48/63] fix: inserting an element into an MMR, bulk, dense or
 commitment tree lost it and broke the tree

---
 grovedb/src/operations/insert/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grovedb/src/operations/insert/mod.rs b/grovedb/src/operations/insert/mod.rs
index 97bceb6..92b243c 100644
--- a/grovedb/src/operations/insert/mod.rs
+++ b/grovedb/src/operations/insert/mod.rs
@@ -201,6 +201,16 @@ impl GroveDb {
                 grove_version
             )
         );
+        // What an MMR, bulk append, dense or commitment tree holds is no elements
+        if subtree_to_insert_into
+            .tree_type
+            .uses_non_merk_data_storage()
+        {
+            return Err(Error::InvalidPath(
+                "elements cannot be inserted into a non-Merk tree".to_owned(),
+            ))
+            .wrap_with_cost(cost);
+        }
         // if we don't allow a tree override then we should check
 
         if options.checks_for_override() {
-- 
2.43.0


From 33697b092413a39075ec5f3c32d7bfe45e3bfc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 49/63] fix: clearing an MMR, bulk, dense or commitment tree
 left its element as it was

---
 grovedb/src/operations/delete/mod.rs | 69 ++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 7ea2184..fc2f924 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -36,6 +36,11 @@ use grovedb_merk::element::{
     delete::ElementDeleteFromStorageExtensions, tree_type::ElementTreeTypeExtensions,
 };
 #[cfg(feature = "minimal")]
+use grovedb_merk::{
+    element::{get::ElementFetchFromStorageExtensions, insert::ElementInsertToStorageExtensions},
+    tree::NULL_HASH,
+};
+#[cfg(feature = "minimal")]
 use grovedb_merk::{proofs::Query, KVIterator, MaybeTree};
 #[cfg(feature = "minimal")]
 use grovedb_merk::{Error as MerkError, Merk, MerkOptions};
@@ -261,6 +266,70 @@ impl GroveDb {
                 })
             );
 
+            // The element in the parent tells how much the tree holds, and commits
+            // to it.
+            if let Some((parent_path, parent_key)) = subtree_path.derive_parent() {
+                let mut parent_merk = cost_return_on_error!(
+                    &mut cost,
+                    self.open_transactional_merk_at_path(
+                        parent_path.clone(),
+                        tx.as_ref(),
+                        Some(&batch),
+                        grove_version,
+                    )
+                );
+                let element = cost_return_on_error!(
+                    &mut cost,
+                    Element::get(&parent_merk, parent_key, true, grove_version)
+                        .map_err(Into::into)
+                );
+                let (cleared_element, state_root) = match element {
+                    Element::CommitmentTree(_, chunk_power, flags) => (
+                        Element::CommitmentTree(0, chunk_power, flags),
+                        grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                    ),
+                    Element::MmrTree(_, flags) => (Element::MmrTree(0, flags), NULL_HASH),
+                    Element::BulkAppendTree(_, chunk_power, flags) => {
+                        (Element::BulkAppendTree(0, chunk_power, flags), NULL_HASH)
+                    }
+                    Element::DenseAppendOnlyFixedSizeTree(_, height, flags) => (
+                        Element::DenseAppendOnlyFixedSizeTree(0, height, flags),
+                        NULL_HASH,
+                    ),
+                    _ => {
+                        return Err(Error::CorruptedData(
+                            "element of a non-Merk tree is of another kind".to_string(),
+                        ))
+                        .wrap_with_cost(cost)
+                    }
+                };
+                cost_return_on_error_into!(
+                    &mut cost,
+                    cleared_element.insert_subtree(
+                        &mut parent_merk,
+                        parent_key,
+                        state_root,
+                        None,
+                        grove_version,
+                    )
+                );
+                let mut merk_cache: HashMap<
+                    SubtreePath<B>,
+                    Merk<PrefixedRocksDbTransactionContext>,
+                > = HashMap::default();
+                merk_cache.insert(parent_path.clone(), parent_merk);
+                cost_return_on_error!(
+                    &mut cost,
+                    self.propagate_changes_with_transaction(
+                        merk_cache,
+                        parent_path,
+                        tx.as_ref(),
+                        &batch,
+                        grove_version,
+                    )
+                );
+            }
+
             cost_return_on_error!(
                 &mut cost,
                 self.db
-- 
2.43.0


From 84770af46fec88ff61e9f65463b4b875bff7bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 50/63] fix: deleting a non-empty tree opened the tree it is in
 as one of another kind

---
 grovedb/src/operations/delete/mod.rs | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index fc2f924..9cdd765 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -907,32 +907,11 @@ impl GroveDb {
                         );
                     }
                 }
-                // todo: verify why we need to open the same? merk again
-                let storage = self
-                    .db
-                    .get_transactional_storage_context(path.clone(), Some(batch), transaction)
-                    .unwrap_add_cost(&mut cost);
-
-                let mut merk_to_delete_tree_from = cost_return_on_error!(
-                    &mut cost,
-                    Merk::open_layered_with_root_key(
-                        storage,
-                        subtree_to_delete_from.root_key(),
-                        tree_type,
-                        Some(&Element::value_defined_cost_for_serialized_value),
-                        grove_version,
-                    )
-                    .map_err(|e| {
-                        Error::CorruptedData(format!(
-                            "cannot open a subtree with given root key: {e}"
-                        ))
-                    })
-                );
                 // We are deleting a tree, a tree uses 3 bytes
                 cost_return_on_error_into!(
                     &mut cost,
                     Element::delete_with_sectioned_removal_bytes(
-                        &mut merk_to_delete_tree_from,
+                        &mut subtree_to_delete_from,
                         key,
                         Some(options.as_merk_options()),
                         true,
@@ -945,7 +924,7 @@ impl GroveDb {
                     SubtreePath<B>,
                     Merk<PrefixedRocksDbTransactionContext>,
                 > = HashMap::default();
-                merk_cache.insert(path.clone(), merk_to_delete_tree_from);
+                merk_cache.insert(path.clone(), subtree_to_delete_from);
                 cost_return_on_error!(
                     &mut cost,
                     self.propagate_changes_with_batch_transaction(
-- 
2.43.0


From 8fe24827c0b5f3dac2a48535afc265106bab28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 51/63] fix: a batch could not give an item flags of another
 length than it had

---
 merk/src/tree/just_in_time_value_update.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/merk/src/tree/just_in_time_value_update.rs b/merk/src/tree/just_in_time_value_update.rs
index fd20267..0cb3950 100644
--- a/merk/src/tree/just_in_time_value_update.rs
+++ b/merk/src/tree/just_in_time_value_update.rs
@@ -71,6 +71,15 @@ impl TreeNode {
                     self.value_mut_ref(),
                 )?;
                 if !flags_changed {
+                    // The costs so far can be those of a value with other flags than the
+                    // ones it keeps.
+                    if self.value_encoding_length_with_parent_to_child_reference()
+                        != current_tree_plus_hook_size
+                    {
+                        storage_costs = self
+                            .kv_with_parent_hook_size_and_storage_cost(old_specialized_cost)?
+                            .1;
+                    }
                     break;
                 } else {
                     self.inner.kv.value_defined_cost = value_defined_cost;
-- 
2.43.0


From 870c87055ee0a025cb6948b650ffcda45777cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:32 +0000
Subject: [PATCH 52/63] fix: refreshing a reference in a batch did not count it
 in its tree

---
 grovedb/src/batch/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index f01baaf..04d70bc 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2087,7 +2087,10 @@ where
                         .wrap_with_cost(cost);
                     };
 
-                    let merk_feature_type = in_tree_type.empty_tree_feature_type();
+                    let merk_feature_type = cost_return_on_error_into_no_add!(
+                        cost,
+                        element.get_feature_type(in_tree_type)
+                    );
 
                     let path_reference = cost_return_on_error_into!(
                         &mut cost,
-- 
2.43.0


From e78ad1f2cb176147177a28d0ff550c67f5b95168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:41 +0000
Subject: [PATCH 53/63] fix: an operation that left a sum or count tree of the
 batch empty made it a plain tree

---
 grovedb/src/batch/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 04d70bc..92bbf1a 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2497,6 +2497,11 @@ impl GroveDb {
         let batch_apply_options = batch_apply_options.unwrap_or_default();
         let stop_level = batch_apply_options.batch_pause_height.unwrap_or_default() as u32;
 
+        let executing = matches!(
+            merk_tree_cache.get_batch_run_mode(),
+            BatchRunMode::Execute
+        );
+
         // We will update up the tree
         while let Some(ops_at_level) = ops_by_level_paths.remove(current_level) {
             for (path, ops_at_path) in ops_at_level.into_iter() {
@@ -2592,6 +2597,18 @@ impl GroveDb {
                                                     ))
                                                     .wrap_with_cost(cost);
                                                 }
+                                                // A tree that stays empty is inserted as it is:
+                                                // there is no aggregate data to tell its type
+                                                GroveOp::InsertOrReplace { element }
+                                                | GroveOp::InsertWithKnownToNotAlreadyExist {
+                                                    element,
+                                                }
+                                                | GroveOp::InsertIfNotExists { element, .. }
+                                                | GroveOp::Replace { element }
+                                                | GroveOp::Patch { element, .. }
+                                                    if calculated_root_key.is_none()
+                                                        && executing
+                                                        && element.is_any_tree() => {}
                                                 GroveOp::InsertOrReplace { element }
                                                 | GroveOp::InsertWithKnownToNotAlreadyExist {
                                                     element,
-- 
2.43.0


From bbc8dc0dc47a9928d16010fbac1463dd2661a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 54/63] fix: batches inserted below a tree, or referred to an
 element, that they were not to insert as it existed

---
 grovedb/src/batch/mod.rs | 124 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 124 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 92bbf1a..f9ec574 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -3241,6 +3241,106 @@ impl GroveDb {
         Ok(()).wrap_with_cost(cost)
     }
 
+    /// Decides the insertions that depend on what is there already and that
+    /// other operations of the batch build on: insertions of trees that have
+    /// operations below them, which are executed on a new tree, and skippable
+    /// ones in a batch with references, which take the values that
+    /// the batch inserts. Skipped insertions are left out of the operations.
+    fn decide_conditional_insertions(
+        &self,
+        ops: Vec<QualifiedGroveDbOp>,
+        batch_apply_options: Option<&BatchApplyOptions>,
+        tx: &Transaction,
+        storage_batch: &StorageBatch,
+        grove_version: &GroveVersion,
+    ) -> CostResult<Vec<QualifiedGroveDbOp>, Error> {
+        let mut cost = OperationCost::default();
+        let keep_elements =
+            batch_apply_options.is_some_and(|o| o.validate_insertion_does_not_override);
+        let keep_trees =
+            batch_apply_options.is_some_and(|o| o.validate_insertion_does_not_override_tree);
+        let is_conditional = |op: &GroveOp| matches!(op, GroveOp::InsertIfNotExists { .. });
+        if !keep_elements && !keep_trees && !ops.iter().any(|op| is_conditional(&op.op)) {
+            return Ok(ops).wrap_with_cost(cost);
+        }
+
+        let inserted = |op: &GroveOp| match op {
+            GroveOp::InsertWithKnownToNotAlreadyExist { element }
+            | GroveOp::InsertIfNotExists { element, .. }
+            | GroveOp::InsertOrReplace { element }
+            | GroveOp::Replace { element }
+            | GroveOp::Patch { element, .. } => Some((element.is_any_tree(), element.is_reference())),
+            _ => None,
+        };
+        let has_references = ops.iter().any(|op| {
+            matches!(op.op, GroveOp::RefreshReference { .. })
+                || matches!(inserted(&op.op), Some((_, true)))
+        });
+        let mut paths_with_ops: HashSet<Vec<Vec<u8>>> = HashSet::new();
+        for op in ops.iter() {
+            let path = op.path.to_path();
+            for len in 1..=path.len() {
+                paths_with_ops.insert(path[..len].to_vec());
+            }
+        }
+
+        let mut decided = Vec::with_capacity(ops.len());
+        for op in ops {
+            let (Some((is_tree, is_reference)), Some(key)) = (inserted(&op.op), op.key.as_ref()) else {
+                decided.push(op);
+                continue;
+            };
+            let path = op.path.to_path();
+            let qualified_path: Vec<Vec<u8>> = path
+                .iter()
+                .cloned()
+                .chain(std::iter::once(key.get_key_clone()))
+                .collect();
+            let skippable = matches!(
+                op.op,
+                GroveOp::InsertIfNotExists {
+                    error_if_exists: false,
+                    ..
+                }
+            );
+            let has_ops_below =
+                (is_tree || skippable) && paths_with_ops.contains(&qualified_path);
+            let depends = is_conditional(&op.op) || keep_elements || keep_trees;
+            if !(depends && has_ops_below || skippable && has_references) {
+                decided.push(op);
+                continue;
+            }
+            let storage = self
+                .db
+                .get_transactional_storage_context(path.as_slice().into(), Some(storage_batch), tx)
+                .unwrap_add_cost(&mut cost);
+            let existing = cost_return_on_error_into!(
+                &mut cost,
+                Element::get_optional_from_storage(&storage, key.as_slice(), grove_version)
+            );
+            let Some(existing) = existing else {
+                decided.push(op);
+                continue;
+            };
+            if keep_elements || is_conditional(&op.op) && !skippable {
+                return Err(Error::InvalidBatchOperation(
+                    "attempting to insert element that already exists",
+                ))
+                .wrap_with_cost(cost);
+            }
+            if keep_trees && !is_reference && existing.is_any_tree() {
+                return Err(Error::InvalidBatchOperation(
+                    "attempting to overwrite a tree",
+                ))
+                .wrap_with_cost(cost);
+            }
+            if !skippable {
+                decided.push(op);
+            }
+        }
+        Ok(decided).wrap_with_cost(cost)
+    }
+
     /// Applies batch on GroveDB
     pub fn apply_batch(
         &self,
@@ -3482,6 +3582,18 @@ impl GroveDb {
             self.preprocess_dense_tree_ops(ops, tx.as_ref(), &storage_batch, grove_version)
         );
 
+        // Decide the conditional insertions that other operations build on
+        let ops = cost_return_on_error!(
+            &mut cost,
+            self.decide_conditional_insertions(
+                ops,
+                batch_apply_options.as_ref(),
+                tx.as_ref(),
+                &storage_batch,
+                grove_version
+            )
+        );
+
         // Collect paths of subtrees being deleted, separated by type.
         //
         // Non-Merk trees (MmrTree, BulkAppendTree, DenseTree, CommitmentTree)
@@ -3849,6 +3961,18 @@ impl GroveDb {
             self.preprocess_dense_tree_ops(ops, tx.as_ref(), &storage_batch, grove_version)
         );
 
+        // Decide the conditional insertions that other operations build on
+        let ops = cost_return_on_error!(
+            &mut cost,
+            self.decide_conditional_insertions(
+                ops,
+                batch_apply_options.as_ref(),
+                tx.as_ref(),
+                &storage_batch,
+                grove_version
+            )
+        );
+
         // See comment in apply_batch_with_element_flags_update for why
         // deleted tree subtrees need explicit storage cleanup, and why
         // emptiness checks are needed (H2).
-- 
2.43.0


From 12087022e01e3905a16c3bd279d9c2a904d2b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 55/63] fix: a batch inserting an element into an MMR, bulk,
 dense or commitment tree lost it and broke the tree

---
 grovedb/src/batch/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index f9ec574..86f4eb4 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1789,6 +1789,18 @@ where
             };
             merk.tree_type
         };
+        // What an MMR, bulk append, dense or commitment tree holds is no elements
+        if in_tree_type.uses_non_merk_data_storage()
+            && matches!(
+                ops_by_qualified_paths.get(path),
+                None | Some(GroveOp::ReplaceNonMerkTreeRoot { .. })
+            )
+        {
+            return Err(Error::InvalidPath(
+                "elements cannot be inserted into a non-Merk tree".to_owned(),
+            ))
+            .wrap_with_cost(cost);
+        }
 
         let mut batch_operations: Vec<(Vec<u8>, Op)> = vec![];
         for (key_info, op) in ops_at_path_by_key.into_iter() {
-- 
2.43.0


From 676db1229c129a96503872a19e202898a4e0fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 56/63] fix: a batch inserted commitment trees over elements it
 was not to replace

---
 grovedb/src/batch/mod.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 86f4eb4..bba9442 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1944,6 +1944,7 @@ where
                         | Element::CountSumTree(..)
                         | Element::ProvableCountTree(..)
                         | Element::ProvableCountSumTree(..)
+                        | Element::CommitmentTree(..)
                         | Element::MmrTree(..)
                         | Element::BulkAppendTree(..)
                         | Element::DenseAppendOnlyFixedSizeTree(..) => {
@@ -1979,30 +1980,17 @@ where
                                     .get_feature_type(in_tree_type)
                                     .wrap_with_cost(OperationCost::default())
                             );
+                            // A commitment tree has a root also when it is empty
+                            let root_hash = if let Element::CommitmentTree(..) = &element {
+                                grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT
+                            } else {
+                                NULL_HASH
+                            };
                             cost_return_on_error_into!(
                                 &mut cost,
                                 element.insert_subtree_into_batch_operations(
                                     key_info.get_key_clone(),
-                                    NULL_HASH,
-                                    false,
-                                    &mut batch_operations,
-                                    merk_feature_type,
-                                    grove_version,
-                                )
-                            );
-                        }
-                        Element::CommitmentTree(..) => {
-                            let merk_feature_type = cost_return_on_error_into!(
-                                &mut cost,
-                                element
-                                    .get_feature_type(in_tree_type)
-                                    .wrap_with_cost(OperationCost::default())
-                            );
-                            cost_return_on_error_into!(
-                                &mut cost,
-                                element.insert_subtree_into_batch_operations(
-                                    key_info.get_key_clone(),
-                                    grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                                    root_hash,
                                     false,
                                     &mut batch_operations,
                                     merk_feature_type,
-- 
2.43.0


From 464eeea636f5d97b597b8ef73b14d40736a39550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 57/63] fix: a batch could insert a reference to an element of
 a tree it deletes

---
 grovedb/src/batch/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index bba9442..ac38c2d 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1696,6 +1696,17 @@ where
                 ))
                 .wrap_with_cost(cost),
             }
+        } else if (1..qualified_path.len()).any(|len| {
+            matches!(
+                ops_by_qualified_paths.get(&qualified_path[..len]),
+                Some(GroveOp::Delete | GroveOp::DeleteTree(..))
+            )
+        }) {
+            // A tree the element is in is deleted
+            Err(Error::InvalidBatchOperation(
+                "references can not point to something currently being deleted",
+            ))
+            .wrap_with_cost(cost)
         } else {
             self.process_reference(
                 qualified_path,
-- 
2.43.0


From a0d9c7fcd7e4641f2e1ff7f8b4be624ffd1db900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 58/63] fix: a batch bound a reference to a sum item with other
 flags than it stored

---
 .../batch/just_in_time_reference_update.rs    | 70 +++++++------------
 1 file changed, 25 insertions(+), 45 deletions(-)

diff --git a/grovedb/src/batch/just_in_time_reference_update.rs b/grovedb/src/batch/just_in_time_reference_update.rs
index 2ffff27..613ff7f 100644
--- a/grovedb/src/batch/just_in_time_reference_update.rs
+++ b/grovedb/src/batch/just_in_time_reference_update.rs
@@ -9,7 +9,8 @@ use grovedb_costs::{
     CostResult, CostsExt, OperationCost,
 };
 use grovedb_merk::{
-    tree::{kv::KV, value_hash, TreeNode},
+    element::costs::ElementCostExtensions,
+    tree::{value_hash, TreeNode},
     tree_type::TreeType,
     CryptoHash, Merk,
 };
@@ -46,30 +47,13 @@ where
         ) -> Result<(StorageRemovedBytes, StorageRemovedBytes), Error>,
     {
         let mut cost = OperationCost::default();
-        if old_element.is_sum_item() {
-            return if new_element.is_sum_item() {
-                let maybe_old_flags = old_element.get_flags_owned();
-                if maybe_old_flags.is_some() {
-                    let mut updated_new_element_with_old_flags = new_element.clone();
-                    updated_new_element_with_old_flags.set_flags(maybe_old_flags.clone());
-                    // There are no storage flags, we can just hash new element
-                    let new_serialized_bytes = cost_return_on_error_into_no_add!(
-                        cost,
-                        updated_new_element_with_old_flags.serialize(grove_version)
-                    );
-                    let val_hash = value_hash(&new_serialized_bytes).unwrap_add_cost(&mut cost);
-                    Ok(val_hash).wrap_with_cost(cost)
-                } else {
-                    let val_hash = value_hash(serialized).unwrap_add_cost(&mut cost);
-                    Ok(val_hash).wrap_with_cost(cost)
-                }
-            } else {
-                Err(Error::NotSupported(
-                    "going from a sum item to a not sum item is not supported".to_string(),
-                ))
-                .wrap_with_cost(cost)
-            };
-        } else if new_element.is_sum_item() {
+        if old_element.is_sum_item() && !new_element.is_sum_item() {
+            return Err(Error::NotSupported(
+                "going from a sum item to a not sum item is not supported".to_string(),
+            ))
+            .wrap_with_cost(cost);
+        }
+        if !old_element.is_sum_item() && new_element.is_sum_item() {
             return Err(Error::NotSupported(
                 "going from an item to a sum item is not supported".to_string(),
             ))
@@ -77,17 +61,22 @@ where
         }
         let mut maybe_old_flags = old_element.get_flags_owned();
 
-        let old_storage_cost = KV::node_value_byte_cost_size(
-            key.len() as u32,
-            old_serialized_element.len() as u32,
-            in_tree_type.inner_node_type(),
-        );
+        let storage_cost_of = |serialized: &[u8]| {
+            Element::specialized_costs_for_key_value(
+                key,
+                serialized,
+                in_tree_type.inner_node_type(),
+                grove_version,
+            )
+        };
+        let old_storage_cost =
+            cost_return_on_error_into_no_add!(cost, storage_cost_of(old_serialized_element));
 
         let original_new_element = new_element.clone();
 
         let mut serialization_to_use = Cow::Borrowed(serialized);
 
-        let mut new_storage_cost = if maybe_old_flags.is_some() {
+        let mut new_storage_cost = if maybe_old_flags.is_some() && !new_element.is_sum_item() {
             // we need to get the new storage_cost as if it had the same storage flags as
             // before
             let mut updated_new_element_with_old_flags = original_new_element.clone();
@@ -97,17 +86,9 @@ where
                 cost,
                 updated_new_element_with_old_flags.serialize(grove_version)
             );
-            KV::node_value_byte_cost_size(
-                key.len() as u32,
-                serialized_with_old_flags.len() as u32,
-                in_tree_type.inner_node_type(),
-            )
+            cost_return_on_error_into_no_add!(cost, storage_cost_of(&serialized_with_old_flags))
         } else {
-            KV::node_value_byte_cost_size(
-                key.len() as u32,
-                serialized.len() as u32,
-                in_tree_type.inner_node_type(),
-            )
+            cost_return_on_error_into_no_add!(cost, storage_cost_of(serialized))
         };
 
         let mut i = 0;
@@ -163,10 +144,9 @@ where
                     new_element_cloned.serialize(grove_version)
                 );
 
-                new_storage_cost = KV::node_value_byte_cost_size(
-                    key.len() as u32,
-                    new_serialized_bytes.len() as u32,
-                    in_tree_type.inner_node_type(),
+                new_storage_cost = cost_return_on_error_into_no_add!(
+                    cost,
+                    storage_cost_of(&new_serialized_bytes)
                 );
 
                 if serialization_to_use == new_serialized_bytes {
-- 
2.43.0


From b30c1df269224b2bb14b8ce5d24ab1f33cff15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:40 +0000
Subject: [PATCH 59/63] fix: a query with a limit of zero returned the result
 of its first item

The limit was looked at only after an item of the query had been read, and
reading a single key doesn't look at it either.
---
 grovedb/src/element/query.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/grovedb/src/element/query.rs b/grovedb/src/element/query.rs
index 1584abd..062b548 100644
--- a/grovedb/src/element/query.rs
+++ b/grovedb/src/element/query.rs
@@ -211,6 +211,9 @@ impl ElementQueryExtensions for Element {
 
         if sized_query.query.left_to_right {
             for item in sized_query.query.iter() {
+                if limit == Some(0) {
+                    break;
+                }
                 cost_return_on_error!(
                     &mut cost,
                     Self::query_item(
@@ -228,12 +231,12 @@ impl ElementQueryExtensions for Element {
                         grove_version,
                     )
                 );
-                if limit == Some(0) {
-                    break;
-                }
             }
         } else {
             for item in sized_query.query.rev_iter() {
+                if limit == Some(0) {
+                    break;
+                }
                 cost_return_on_error!(
                     &mut cost,
                     Self::query_item(
@@ -251,9 +254,6 @@ impl ElementQueryExtensions for Element {
                         grove_version,
                     )
                 );
-                if limit == Some(0) {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 45201812525ecd1708c6cbf8f93ffbe7c455bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:40 +0000
Subject: [PATCH 60/63] fix: a subtree whose results the offset skips used up
 the limit

It was taken for one without results, so a query with an offset could return
fewer results than there are.
---
 grovedb/src/element/query.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/element/query.rs b/grovedb/src/element/query.rs
index 062b548..2fc1aac 100644
--- a/grovedb/src/element/query.rs
+++ b/grovedb/src/element/query.rs
@@ -396,7 +396,10 @@ impl ElementQueryExtensions for Element {
                 );
 
                 if let Some(limit) = limit {
-                    if sub_elements.is_empty() && decrease_limit_on_range_with_no_sub_elements {
+                    if sub_elements.is_empty()
+                        && skipped == 0
+                        && decrease_limit_on_range_with_no_sub_elements
+                    {
                         // we should decrease by 1 in this case
                         *limit = limit.saturating_sub(1);
                     } else {
-- 
2.43.0


From b5641a893e5252141aab621f10395a5c0a103f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 61/63] fix: an item put over a tree or a sum item was charged
 as what it replaced

---
 merk/src/tree/kv.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/merk/src/tree/kv.rs b/merk/src/tree/kv.rs
index 7dfcde8..3f2973c 100644
--- a/merk/src/tree/kv.rs
+++ b/merk/src/tree/kv.rs
@@ -177,6 +177,8 @@ impl KV {
     #[inline]
     pub fn put_value_no_update_of_hashes(mut self, value: Vec<u8>) -> Self {
         self.value = value;
+        // the cost that was defined for the old value is not that of the new one
+        self.value_defined_cost = None;
         self
     }
 
@@ -217,12 +219,13 @@ impl KV {
     /// This is used when we want a fixed cost, for example in sum trees
     #[inline]
     pub fn put_value_with_fixed_cost_no_update_of_hashes(
-        mut self,
+        self,
         value: Vec<u8>,
         value_cost: ValueDefinedCostType,
     ) -> Self {
-        self.value_defined_cost = Some(value_cost);
-        self.put_value_no_update_of_hashes(value)
+        let mut kv = self.put_value_no_update_of_hashes(value);
+        kv.value_defined_cost = Some(value_cost);
+        kv
     }
 
     /// Returns the key as a slice.
-- 
2.43.0


From 9424a5b6d3865b9c92bc450cd1e825fe8bc5b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:59 +0000
Subject: [PATCH 62/63] fix: two errors of corrupted references read the same

---
 grovedb/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grovedb/src/error.rs b/grovedb/src/error.rs
index 534b7b0..ebe8603 100644
--- a/grovedb/src/error.rs
+++ b/grovedb/src/error.rs
@@ -54,7 +54,7 @@ pub enum Error {
     #[error("corrupted referenced path not found: {0}")]
     CorruptedReferencePathNotFound(String),
     /// The path's parent merk wasn't found
-    #[error("corrupted referenced path key not found: {0}")]
+    #[error("corrupted referenced path parent layer not found: {0}")]
     CorruptedReferencePathParentLayerNotFound(String),
 
     /// The invalid parent layer path represents a logical error from the client
-- 
2.43.0


From 6afa233a4113db39346cdfa6e0acffdefb1f2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:59 +0000
Subject: [PATCH 63/63] fix: an error of a cycle did not show its message

---
 grovedb/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grovedb/src/error.rs b/grovedb/src/error.rs
index ebe8603..8cca204 100644
--- a/grovedb/src/error.rs
+++ b/grovedb/src/error.rs
@@ -158,7 +158,7 @@ pub enum Error {
     /// Query error
     QueryError(grovedb_query::error::Error),
 
-    #[error("cyclic error")]
+    #[error("cyclic error: {0}")]
     /// Cyclic reference
     CyclicError(&'static str),
 
-- 
2.43.0

