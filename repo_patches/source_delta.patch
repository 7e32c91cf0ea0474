From c08dd65aae0896dffffe5fe7437c141e3776b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 1/4] fix: keep all leaves of a bulk loaded tree at the same
 depth

Sibling clusters can differ in size by one element, so that some fit into a
leaf level node while others need another level (e.g. 25 elements with the
default parameters). Later insertions then mixed leaves and parents in one
node and panicked with 'This is a bug in rstar.'
---
 .../bulk_load/bulk_load_sequential.rs         | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
index 3ea6789..912f5b7 100644
--- a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
+++ b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
@@ -38,7 +38,38 @@ where
         }],
         _params: Default::default(),
     };
-    ParentNode::new_parent(iterator.collect())
+    ParentNode::new_parent(equalize_heights(iterator.collect()))
+}
+
+/// Makes sure that all leaves below the given sibling nodes have the same depth.
+///
+/// Sibling clusters may differ slightly in size, so some of them may already fit into a single
+/// leaf level node while others require another level. Insertion relies on all leaves having the
+/// same depth, hence the shallower siblings are moved down by adding parents with a single child.
+fn equalize_heights<T: RTreeObject>(nodes: Vec<RTreeNode<T>>) -> Vec<RTreeNode<T>> {
+    let max_height = nodes.iter().map(height).max().unwrap_or(0);
+    nodes
+        .into_iter()
+        .map(|mut node| {
+            for _ in height(&node)..max_height {
+                node = RTreeNode::Parent(ParentNode::new_parent(vec![node]));
+            }
+            node
+        })
+        .collect()
+}
+
+/// Returns the height of a node whose leaves all have the same depth.
+fn height<T: RTreeObject>(mut node: &RTreeNode<T>) -> usize {
+    let mut height = 0;
+    while let RTreeNode::Parent(parent) = node {
+        height += 1;
+        match parent.children.first() {
+            Some(child) => node = child,
+            None => break,
+        }
+    }
+    height
 }
 
 /// Represents a partitioning task that still needs to be done.
-- 
2.43.0


From 1dc986d669b4107dcf28e9229a0c496b1ee6f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 2/4] fix: do not apply a removal function to the envelope of
 an empty tree

Draining within a distance from an empty tree of integer points overflowed
when calculating the distance to the empty envelope.
---
 rstar/src/algorithm/removal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/removal.rs b/rstar/src/algorithm/removal.rs
index bcbd058..cef1d8a 100644
--- a/rstar/src/algorithm/removal.rs
+++ b/rstar/src/algorithm/removal.rs
@@ -174,7 +174,11 @@ where
             let (node, idx, remove_count) = self.node_stack.last_mut()?;
 
             // Try to find a selected item to return.
-            if *idx > 0 || self.removal_function.should_unpack_parent(&node.envelope) {
+            // The envelope of an empty (root) node must not be passed to the removal function.
+            if *idx > 0
+                || !node.children.is_empty()
+                    && self.removal_function.should_unpack_parent(&node.envelope)
+            {
                 while *idx < node.children.len() {
                     match &mut node.children[*idx] {
                         RTreeNode::Parent(_) => {
-- 
2.43.0


From 3099e72c95882707420cbe46f611a9252a7a3faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:07 +0000
Subject: [PATCH 3/4] fix: avoid division by zero for lines of zero length

The distance to an integer line whose end points coincide panicked.
---
 rstar/src/primitives/line.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rstar/src/primitives/line.rs b/rstar/src/primitives/line.rs
index ea5f078..18f52f3 100644
--- a/rstar/src/primitives/line.rs
+++ b/rstar/src/primitives/line.rs
@@ -75,7 +75,12 @@ where
     fn project_point(&self, query_point: &P) -> P::Scalar {
         let (ref p1, ref p2) = (self.from.clone(), self.to.clone());
         let dir = p2.sub(p1);
-        query_point.sub(p1).dot(&dir) / dir.length_2()
+        let length_2 = dir.length_2();
+        if length_2.is_zero() {
+            // Both end points coincide
+            return length_2;
+        }
+        query_point.sub(p1).dot(&dir) / length_2
     }
 
     /// Returns the nearest point on this line relative to a given point.
-- 
2.43.0


From 4a4b577356c2087d0f56336f3eae349ac2903424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 4/4] fix: nearest neighbour must not be a farther element when
 rounding excludes the nearest

---
 rstar/src/algorithm/nearest_neighbor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rstar/src/algorithm/nearest_neighbor.rs b/rstar/src/algorithm/nearest_neighbor.rs
index 20283f5..55a229b 100644
--- a/rstar/src/algorithm/nearest_neighbor.rs
+++ b/rstar/src/algorithm/nearest_neighbor.rs
@@ -287,6 +287,11 @@ where
                 node: RTreeNode::Leaf(ref t),
                 distance,
             } => {
+                // Due to rounding issues, the elements within the minmax-distance
+                // may have been left out. Others must not be returned instead.
+                if distance > smallest_min_max {
+                    return None;
+                }
                 return Some((t, distance));
             }
         }
-- 
2.43.0

