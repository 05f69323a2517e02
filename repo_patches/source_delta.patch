From 95546eb7046889ce4f8f343fca716a525e1ce2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 01/37] fix: report the unknown port in link_ports when the
 second port does not exist

---
 src/portgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 65e8e0f..1336039 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -763,7 +763,7 @@ impl<PO: Unsigned> LinkMut for PortGraph<u32, u32, PO> {
         };
 
         let Some(meta_b) = self.port_meta_valid(port_b) else {
-            return Err(LinkError::UnknownPort { port: port_a });
+            return Err(LinkError::UnknownPort { port: port_b });
         };
 
         if meta_a.direction() == meta_b.direction() {
-- 
2.43.0


From f99a098df8a927c80ca2d4e9aefe98598fc14c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 02/37] fix: keep the free node list consistent in
 PortGraph::swap_nodes

---
 src/portgraph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 1336039..cf12736 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -616,6 +616,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
         let meta_a = self.node_meta[a.index()];
         let meta_b = self.node_meta[b.index()];
+        if let (NodeEntry::Free(_), NodeEntry::Free(_)) = (meta_a, meta_b) {
+            // Nothing to swap. The free list links must stay in place.
+            return;
+        }
         self.node_meta.swap(a.index(), b.index());
         // Update the node indices in the ports metadata.
         let mut update_ports = |new_node: NodeIndex, entry: NodeEntry| {
@@ -635,6 +639,9 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         let mut update_free_list = |new_node: NodeIndex, entry: FreeNodeEntry| {
             if let Some(prev) = entry.prev.to_option() {
                 self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into();
+            } else {
+                // The entry was the head of the free list.
+                self.node_free = new_node.into();
             }
             if let Some(next) = entry.next.to_option() {
                 self.node_meta[next.index()].free_entry_mut().unwrap().prev = new_node.into();
-- 
2.43.0


From c5889616ba4de0fc2703347bd4a23e0eeafb479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 03/37] fix: do not allocate a port slab when removing all
 ports of a node

---
 src/portgraph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index cf12736..ae7dbdf 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -558,7 +558,11 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // old slab.
         //
         // TODO: Fine-tune overallocation factor
-        let target_capacity = new_total.next_power_of_two();
+        let target_capacity = if new_total == 0 {
+            0
+        } else {
+            new_total.next_power_of_two()
+        };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
         // Move the port data.
-- 
2.43.0


From dada49aea2aafd3c75a51275df7047612cdd2e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 04/37] fix: clamp the port capacity to u16::MAX in
 PortGraph::set_num_ports

---
 src/portgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index ae7dbdf..4768e03 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -561,7 +561,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         let target_capacity = if new_total == 0 {
             0
         } else {
-            new_total.next_power_of_two()
+            new_total.next_power_of_two().min(u16::MAX as usize)
         };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
-- 
2.43.0


From 4b7a2c8fc5859d5723b6cd78fd604dacde1052cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 05/37] fix: check the port count limits of a node when adding
 and resizing it

---
 src/portgraph.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 4768e03..46bff55 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -126,6 +126,28 @@ impl<PO: Unsigned> PortGraph<u32, u32, PO> {
         }
     }
 
+    /// Checks that a node can hold the given number of ports.
+    ///
+    /// # Panics
+    ///
+    /// If a port offset cannot be represented by `PO`, or if the total number
+    /// of ports exceeds `u16::MAX`.
+    #[inline]
+    fn assert_port_counts(incoming: usize, outgoing: usize) {
+        assert!(
+            incoming <= PortOffset::<PO>::max_offset() && incoming <= NodeMeta::MAX_INCOMING,
+            "Incoming port count exceeds maximum."
+        );
+        assert!(
+            outgoing <= PortOffset::<PO>::max_offset() && outgoing <= NodeMeta::MAX_OUTGOING,
+            "Outgoing port count exceeds maximum."
+        );
+        assert!(
+            incoming + outgoing <= u16::MAX as usize,
+            "Total port count exceeds maximum."
+        );
+    }
+
     /// Allocates a slab of ports. Returns the index of the first port, and the
     /// number of ports in the slab.
     #[inline]
@@ -451,14 +473,7 @@ impl<PO: Unsigned> PortView for PortGraph<u32, u32, PO> {
 
 impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn add_node(&mut self, incoming: usize, outgoing: usize) -> NodeIndex {
-        assert!(
-            incoming <= PortOffset::<PO>::max_offset(),
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= PortOffset::<PO>::max_offset(),
-            "Outgoing port count exceeds maximum."
-        );
+        Self::assert_port_counts(incoming, outgoing);
 
         let node = self.alloc_node();
         let node_meta = self.alloc_ports(node, incoming, outgoing, 0);
@@ -516,14 +531,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
-        assert!(
-            incoming <= NodeMeta::MAX_INCOMING,
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= NodeMeta::MAX_OUTGOING,
-            "Outgoing port count exceeds maximum."
-        );
+        Self::assert_port_counts(incoming, outgoing);
 
         let new_total = incoming + outgoing;
 
-- 
2.43.0


From 010f6559157111e1b8c89f2189670da3ed172d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 06/37] fix: panic on out of range values in index and port
 offset constructors, as documented

---
 src/index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index ff3d9fc..812420d 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -456,8 +456,11 @@ impl Unsigned for usize {}
 
 impl<U: Unsigned> BitField<U> {
     /// Create a new bit field with the given index and bit flag.
+    ///
+    /// Panics if the index is greater than [`BitField::max_index`].
     #[inline(always)]
     fn new(index: usize, bit_flag: bool) -> Self {
+        assert!(index <= Self::max_index(), "index too large");
         let u = U::from_usize(index).expect("index too large");
         let ret = Self(u);
         if bit_flag {
@@ -511,6 +514,7 @@ impl<U: Unsigned> BitField<U> {
     #[allow(unused)]
     #[inline(always)]
     fn set_index(self, index: usize) -> Self {
+        assert!(index <= Self::max_index(), "index too large");
         let u = U::from_usize(index).expect("index too large");
         let msb = if self.is_none() {
             U::zero()
-- 
2.43.0


From 4719a26ca9fabdb76831a2c827f5cb72b1ddfbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 07/37] fix: return None from input and output for offsets
 beyond the representable range

---
 src/portgraph.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 46bff55..3c3cfe9 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -394,12 +394,14 @@ impl<PO: Unsigned> PortView for PortGraph<u32, u32, PO> {
 
     #[inline]
     fn input(&self, node: NodeIndex, offset: usize) -> Option<PortIndex> {
-        self.port_index(node, PortOffset::new_incoming(offset))
+        let mut ports = self.node_meta_valid(node)?.incoming_ports();
+        ports.nth(offset).map(PortIndex::new)
     }
 
     #[inline]
     fn output(&self, node: NodeIndex, offset: usize) -> Option<PortIndex> {
-        self.port_index(node, PortOffset::new_outgoing(offset))
+        let mut ports = self.node_meta_valid(node)?.outgoing_ports();
+        ports.nth(offset).map(PortIndex::new)
     }
 
     fn num_ports(&self, node: NodeIndex, direction: Direction) -> usize {
-- 
2.43.0


From 220c3837d632fc3ee9a993b8d09befe23ab25200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:36 +0000
Subject: [PATCH 08/37] fix: return a linked subport from
 MultiPortGraph::unlink_port on multiports

---
 src/multiportgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index f6e8468..53e4744 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -381,7 +381,7 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
-        let link = self.graph.links(copy_node, dir).next();
+        let link = self.graph.links(copy_node, dir.reverse()).next();
         let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
-- 
2.43.0


From bae404f6e30655e6b80d7c4e8f9e83e7804dac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:36 +0000
Subject: [PATCH 09/37] fix: return the public subport from
 MultiPortGraph::unlink_port when the other port has a copy node

---
 src/multiportgraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 53e4744..49d402b 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -320,7 +320,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
                 .expect("MultiPortGraph error: a port marked as multiport has no link.");
             self.remove_copy_node(port, link)
         } else {
-            self.graph.unlink_port(port).map(SubportIndex::new_unique)
+            let link = self.graph.unlink_port(port)?;
+            self.get_subport_from_index(link)
         }
     }
 }
-- 
2.43.0


From baff7d62828c3ea003fd1d2726f9740449f7da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:36 +0000
Subject: [PATCH 10/37] fix: leave the MultiPortGraph unchanged when link_ports
 fails

---
 src/multiportgraph.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 49d402b..db80d4f 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -306,6 +306,20 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
         port_a: PortIndex,
         port_b: PortIndex,
     ) -> Result<(SubportIndex, SubportIndex), LinkError<PO>> {
+        let Some(dir_a) = self.graph.port_direction(port_a) else {
+            return Err(LinkError::UnknownPort { port: port_a });
+        };
+        let Some(dir_b) = self.graph.port_direction(port_b) else {
+            return Err(LinkError::UnknownPort { port: port_b });
+        };
+        if dir_a == dir_b {
+            return Err(LinkError::IncompatibleDirections {
+                port_a,
+                port_b,
+                dir: dir_a,
+            });
+        }
+
         let (multiport_a, index_a) = self.get_free_multiport(port_a)?;
         let (multiport_b, index_b) = self.get_free_multiport(port_b)?;
         self.graph.link_ports(index_a, index_b)?;
-- 
2.43.0


From 0f13e7912fde38185902f0c94eddb5f3b9b4c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 11/37] fix: drop the copy nodes of removed ports in
 MultiPortGraph::set_num_ports without following their links

---
 src/multiportgraph.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index db80d4f..cb69116 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -227,7 +227,9 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
             match op {
                 PortOperation::Removed { old_link } => {
                     if *self.multiport.get(port) {
-                        dropped_ports.push((port, old_link.expect("Multiport node has no link")));
+                        // The index may be reused by a moved port.
+                        self.multiport.set(port, false);
+                        dropped_ports.push(old_link.expect("Multiport node has no link"));
                     }
                 }
                 PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
@@ -236,8 +238,8 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
         };
         self.graph
             .set_num_ports(node, incoming, outgoing, rekey_wrapper);
-        for (port, old_link) in dropped_ports {
-            self.remove_copy_node(port, old_link);
+        for old_link in dropped_ports {
+            self.drop_copy_node(old_link);
         }
     }
 
@@ -394,21 +396,30 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
     ) -> Option<SubportIndex> {
         let copy_node = self.graph.port_node(copy_port).unwrap();
         let dir = self.port_direction(copy_port).unwrap();
-        debug_assert!(self.copy_node.get(copy_node));
 
         let link = self.graph.links(copy_node, dir.reverse()).next();
         let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
 
+        self.multiport.set(main_node_port, false);
+        self.drop_copy_node(copy_port);
+
+        link
+    }
+
+    /// Remove an internal copy node from the graph, given its port connecting
+    /// it to the main node.
+    fn drop_copy_node(&mut self, copy_port: PortIndex) {
+        let copy_node = self.graph.port_node(copy_port).unwrap();
+        let dir = self.port_direction(copy_port).unwrap();
+        debug_assert!(self.copy_node.get(copy_node));
+
         let mut subports = self.graph._ports(copy_node, dir.reverse());
         self.multiport.set(copy_port, false);
-        self.multiport.set(main_node_port, false);
         self.copy_node.set(copy_node, false);
         self.graph.remove_node(copy_node);
         self.copy_node_count -= 1;
         self.subport_count -= subports.len();
         debug_assert!(subports.all(|port| !self.multiport.get(port.index())));
-
-        link
     }
 
     /// Returns a free multiport for the given port, along with its
-- 
2.43.0


From 9a4b81ce3c17ba2480436352dc7f598e831117cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:38 +0000
Subject: [PATCH 12/37] fix: reject attaching a leaf node to itself in
 Hierarchy

---
 src/hierarchy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 333ef9b..6690784 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -273,6 +273,10 @@ impl Hierarchy {
 
     /// Ensures that making `node` a child of `parent` would not introduce a cycle.
     fn cycle_check(&self, node: NodeIndex, mut parent: NodeIndex) -> bool {
+        if node == parent {
+            return false;
+        }
+
         // When `node` does not have any children it can't contain `parent`.
         if self.get(node).children[0].is_none() {
             debug_assert!(self.get(node).children[1].is_none());
-- 
2.43.0


From 329786bec55b105d76e4ec07b6eea8360ce99f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:38 +0000
Subject: [PATCH 13/37] fix: allow rekeying an attached node to its own index
 in Hierarchy

---
 src/hierarchy.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 6690784..1faec47 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -470,14 +470,14 @@ impl Hierarchy {
     ///
     /// # Panics
     ///
-    /// Panics if the index `new` is not a root without any children.
+    /// Panics if the index `new` is different from `old` and not a root without any children.
     pub fn rekey(&mut self, old: NodeIndex, new: NodeIndex) {
-        if self.get(new) != &NodeData::default() {
-            panic!("can not rekey into an occupied slot");
-        }
         if old == new {
             return;
         }
+        if self.get(new) != &NodeData::default() {
+            panic!("can not rekey into an occupied slot");
+        }
         let node_data = mem::take(self.get_mut(old));
 
         self.rekey_in_children(node_data, new);
-- 
2.43.0


From 1162e9d9ed1f74137d77e28d573a7604134935be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 14/37] fix: leave the default value of the map behind in
 UnmanagedDenseMap::rekey

---
 src/unmanaged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 23aeb87..3838784 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -164,7 +164,8 @@ where
         V: Default,
     {
         if old.into() < self.data.len() {
-            let val = mem::take(self.get_mut(old));
+            let default = self.default.clone();
+            let val = mem::replace(self.get_mut(old), default);
             let Some(new) = new else { return };
             if new.into() >= self.data.len() {
                 self.resize_for_get_mut(new.into() + 1);
@@ -173,7 +174,7 @@ where
         } else {
             let Some(new) = new else { return };
             if new.into() < self.data.len() {
-                self.data[new.into()] = Default::default();
+                self.data[new.into()] = self.default.clone();
             }
         }
     }
-- 
2.43.0


From 7edf709203858051d4677c63d6de315b5f95a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 15/37] fix: reserve the requested capacity in
 SecondaryMap::ensure_capacity of BitVec and HashSet

---
 src/secondary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secondary.rs b/src/secondary.rs
index 1de9404..4165e53 100644
--- a/src/secondary.rs
+++ b/src/secondary.rs
@@ -115,7 +115,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        BitVec::reserve(self, capacity.saturating_sub(self.capacity()));
+        BitVec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
@@ -268,7 +268,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        HashSet::reserve(self, capacity.saturating_sub(self.capacity()));
+        HashSet::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     #[inline]
-- 
2.43.0


From 46e2dab3faf0438365101628f73255e9b4614815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:33 +0000
Subject: [PATCH 16/37] fix: refuse to allocate ports whose indices are out of
 range

---
 src/portgraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 3c3cfe9..070cf9f 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -192,6 +192,8 @@ impl<PO: Unsigned> PortGraph<u32, u32, PO> {
                 debug_assert_eq!(self.port_meta.len(), self.port_link.len());
                 let old_len = self.port_meta.len();
                 let port = PortIndex::new(old_len);
+                // Panics if the indices of the new ports are not representable.
+                let _last_port: PortIndex = PortIndex::new(old_len + requested - 1);
                 let capacity = requested;
 
                 self.port_meta.reserve(requested);
-- 
2.43.0


From 0b1679287d6217e126245205dbcb518ca8bee17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:56 +0000
Subject: [PATCH 17/37] fix: count each link of a FilteredGraph once

---
 src/view/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index a5d4384..31aafb2 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -225,7 +225,7 @@ where
 
     fn link_count(&self) -> usize {
         self.nodes_iter()
-            .flat_map(|node| self.all_links(node))
+            .flat_map(|node| self.links(node, Direction::Outgoing))
             .count()
     }
 }
-- 
2.43.0


From 0d0e0fa386a810696b7de1d55a6be26f112f8234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:56 +0000
Subject: [PATCH 18/37] fix: hide links to filtered out nodes in
 FilteredGraph::subport_link

---
 src/view/filter.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index 31aafb2..9560d12 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -251,13 +251,7 @@ where
     }
 
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
-        if !(self.link_filter)(subport.into(), &self.context) {
-            return None;
-        }
         let to = self.graph.subport_link(subport)?;
-        if !(self.link_filter)(to.into(), &self.context) {
-            return None;
-        }
-        Some(to)
+        self.link_filter(&(subport, to)).then_some(to)
     }
 }
-- 
2.43.0


From 8bc5307ce1f32caff87afec3870c24be2d8bf5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:56 +0000
Subject: [PATCH 19/37] fix: report a FlatRegion without root and children as
 empty

---
 src/view/flat_region.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index b21f62e..98efa7f 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -129,8 +129,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        // The region root is always present
-        false
+        self.node_count() == 0
     }
 
     #[inline]
-- 
2.43.0


From d19700cc8cae110f3ee4aaff943b1c0ce82d0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:56 +0000
Subject: [PATCH 20/37] fix: follow all the links of multiports when collecting
 the nodes inside a boundary

---
 src/boundary.rs | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 92c04a6..0b456dd 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -305,20 +305,13 @@ impl Boundary {
         &self,
         graph: &'g impl LinkView,
     ) -> impl Iterator<Item = NodeIndex> + 'g {
-        // For every visited edge, we mark both ports as visited
-        let mut visited = BTreeSet::new();
+        // The edges at these ports must not be crossed
+        let boundary_ports: BTreeSet<PortIndex> = self.port_indices().collect();
 
         // The set of nodes to traverse
-        let mut nodes_to_process: BTreeSet<_> = self
-            .port_indices()
-            .map(|p| {
-                let this_node = graph.port_node(p).unwrap();
-                if let Some(other_port) = graph.port_link(p) {
-                    visited.insert(other_port.into());
-                }
-                visited.insert(p);
-                this_node
-            })
+        let mut nodes_to_process: BTreeSet<_> = boundary_ports
+            .iter()
+            .map(|&p| graph.port_node(p).unwrap())
             .collect();
 
         if nodes_to_process.is_empty() {
@@ -326,17 +319,19 @@ impl Boundary {
             nodes_to_process = graph.nodes_iter().collect();
         }
 
+        // All the nodes that have been added to `nodes_to_process`
+        let mut visited = nodes_to_process.clone();
+
         std::iter::successors(nodes_to_process.pop_first(), move |&node| {
-            // Traverse every unvisited edge in `node`
-            for p in graph.all_ports(node) {
-                if visited.insert(p) {
-                    // Visit it
-                    if let Some(other_port) = graph.port_link(p) {
-                        visited.insert(other_port.into());
-                        // Possibly a new node!
-                        let other_node = graph.port_node(other_port).unwrap();
-                        nodes_to_process.insert(other_node);
-                    }
+            // Traverse every edge in `node` that is not in the boundary
+            for (port, other_port) in graph.all_links(node) {
+                let other_port = other_port.into();
+                if boundary_ports.contains(&port.into()) || boundary_ports.contains(&other_port) {
+                    continue;
+                }
+                let other_node = graph.port_node(other_port).unwrap();
+                if visited.insert(other_node) {
+                    nodes_to_process.insert(other_node);
                 }
             }
             nodes_to_process.pop_first()
-- 
2.43.0


From 3b366b2ad887c4bc4001f47327b0d5c21328807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:56 +0000
Subject: [PATCH 21/37] fix: visit a node only after all links of its
 multiports in TopoSort

---
 src/algorithms/toposort.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index e2849f7..7c7e5f3 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -286,6 +286,15 @@ where
                 .map(|(_, next_port)| next_port.into())
                 .collect();
             for port in linked_ports {
+                // A multiport is only visited once all of its links have been traversed.
+                if !self
+                    .graph
+                    .port_links(port)
+                    .all(|(_, from)| *self.visited_ports.get(from.into()))
+                {
+                    continue;
+                }
+
                 let target = self.graph.port_node(port).unwrap();
 
                 if self.becomes_ready(target, port) {
-- 
2.43.0


From 2e987b21bca7fc9633e9a9089817105a3d0be610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:10 +0000
Subject: [PATCH 22/37] fix: ignore links crossing the boundary in
 Boundary::port_ordering

---
 src/boundary.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 0b456dd..0841de8 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -149,6 +149,14 @@ impl Boundary {
     pub fn port_ordering(&self, graph: &impl LinkView) -> PortOrdering {
         let boundary_ports: HashSet<PortIndex> =
             self.inputs.iter().chain(&self.outputs).copied().collect();
+        // The nodes linked to a node by edges that do not cross the boundary.
+        let inner_neighbours = |node: NodeIndex, direction: Direction| {
+            graph
+                .links(node, direction)
+                .map(|(p, other)| -> (PortIndex, PortIndex) { (p.into(), other.into()) })
+                .filter(|(p, other)| !boundary_ports.contains(p) && !boundary_ports.contains(other))
+                .map(|(_, other)| graph.port_node(other).unwrap())
+        };
 
         // Maps between the input/output ports in the boundary and the nodes they belong to.
         let mut input_nodes: BTreeMap<NodeIndex, Vec<PortIndex>> = BTreeMap::new();
@@ -221,7 +229,7 @@ impl Boundary {
                 input_nodes.remove(&node).into_iter().flatten().collect();
 
             // Add the reaching ports from the input neighbours.
-            for input_neigh in graph.input_neighbours(node) {
+            for input_neigh in inner_neighbours(node, Direction::Incoming) {
                 let (output_neighs, input_reaching) = reaching
                     .get_mut(&input_neigh)
                     .expect("Incoming neighbour not visited");
@@ -244,7 +252,7 @@ impl Boundary {
                 }
             }
 
-            let output_neighs = graph.output_neighbours(node).count();
+            let output_neighs = inner_neighbours(node, Direction::Outgoing).count();
             reaching.insert(node, (output_neighs, reaching_ports));
 
             // If we have explored all the nodes for the input or output ports,
-- 
2.43.0


From fed21dfe6917791d0184599dcf6c2bfae1242709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:44 +0000
Subject: [PATCH 23/37] fix: ignore unreachable predecessors when computing
 dominators

---
 src/algorithms/dominators.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index 796609c..c6fee8f 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -183,6 +183,10 @@ where
                             return None;
                         }
                         let pred_index = node_to_index[pred];
+                        if index_to_node[pred_index] != pred {
+                            // Not reachable from the entry node
+                            return None;
+                        }
                         if dominators[pred_index] == usize::MAX {
                             // No dominator yet
                             return None;
-- 
2.43.0


From 5ded52afa3bc82261d29d57265aa7c0bcc053026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:44 +0000
Subject: [PATCH 24/37] fix: treat the empty subgraph as convex in
 LineConvexChecker

---
 src/algorithms/convex/line_convex_checker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 04fb1f5..a17252b 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -207,11 +207,14 @@ impl<G: LinkView> LineConvexChecker<G> {
     /// In other words, check if there is a path in `self.graph()` from an end
     /// of one interval to the start of another.
     pub fn is_convex_by_intervals(&self, intervals: &LineIntervals) -> bool {
-        let max_start_pos = intervals
+        let Some(max_start_pos) = intervals
             .values()
             .map(|LineInterval { min, .. }| min)
             .max()
-            .unwrap();
+        else {
+            // The empty subgraph is convex
+            return true;
+        };
         let mut future_nodes = VecDeque::from_iter(intervals.iter().filter_map(
             |(line, LineInterval { max, .. })| {
                 let ind = self.find_index(line, max).expect("max not on line");
-- 
2.43.0


From 8dcbb77e7f49f51f59a1ee27dc5e5e09023ba9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:45 +0000
Subject: [PATCH 25/37] fix: consider all the links of multiports in
 ConvexChecker::is_convex

---
 src/algorithms/convex/line_convex_checker.rs | 2 +-
 src/algorithms/convex/topo_convex_checker.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index a17252b..f05803f 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -639,7 +639,7 @@ impl<G: LinkView> ConvexChecker for LineConvexChecker<G> {
     ) -> bool {
         let pre_outputs: BTreeSet<_> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p).map(|(_, to)| to.into()))
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
diff --git a/src/algorithms/convex/topo_convex_checker.rs b/src/algorithms/convex/topo_convex_checker.rs
index 883ebe8..c14774b 100644
--- a/src/algorithms/convex/topo_convex_checker.rs
+++ b/src/algorithms/convex/topo_convex_checker.rs
@@ -129,7 +129,7 @@ impl<G: LinkView> ConvexChecker for TopoConvexChecker<G> {
     ) -> bool {
         let pre_outputs: BTreeSet<_> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p).map(|(_, to)| to.into()))
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
-- 
2.43.0


From 3b282101a07f615cd3e5d8910ebf1c88c5e35cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:48 +0000
Subject: [PATCH 26/37] fix: keep the order valid when DynamicTopoSort moves
 nodes

---
 src/algorithms/dynamic.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 052c3a7..40dac37 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -151,13 +151,18 @@ impl DynamicTopoSort {
         }
         let lb = to_pos;
         let ub = from_pos;
-        let delta_f = self.cone(to, ub, graph, Direction::Outgoing);
-        let delta_b = self.cone(from, lb, graph, Direction::Incoming);
-        let mut new_pos = to_pos;
-        for w in delta_b.into_iter().chain(delta_f) {
+        let mut delta_f = self.cone(to, ub, graph, Direction::Outgoing);
+        let mut delta_b = self.cone(from, lb, graph, Direction::Incoming);
+        delta_f.sort_by_key(|n| self.node_to_pos[n]);
+        delta_b.sort_by_key(|n| self.node_to_pos[n]);
+        // Reuse the positions of the affected nodes, placing the ancestors of
+        // `from` before the descendants of `to`.
+        let affected: Vec<NodeIndex> = delta_b.into_iter().chain(delta_f).collect();
+        let mut positions: Vec<usize> = affected.iter().map(|n| self.node_to_pos[n]).collect();
+        positions.sort_unstable();
+        for (w, new_pos) in affected.into_iter().zip(positions) {
             self.order[new_pos] = w;
             self.node_to_pos.insert(w, new_pos);
-            new_pos += 1;
         }
     }
 
-- 
2.43.0


From e68cdc1794660daa20053c3f35945d7852d53674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:49 +0000
Subject: [PATCH 27/37] fix: check for cycles in the direction of the new link
 in DynamicTopoConvexChecker

---
 src/algorithms/dynamic.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 40dac37..002e729 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -394,17 +394,25 @@ impl<G: LinkMut> LinkMut for DynamicTopoConvexChecker<G> {
         from: PortIndex,
         to: PortIndex,
     ) -> Result<(G::LinkEndpoint, G::LinkEndpoint), LinkError<G::PortOffsetBase>> {
-        let from_node = self
+        let mut from_node = self
             .graph
             .port_node(from)
             .ok_or(LinkError::UnknownPort { port: from })?;
-        let to_node = self
+        let mut to_node = self
             .graph
             .port_node(to)
             .ok_or(LinkError::UnknownPort { port: to })?;
+        if self.graph.port_direction(from) == self.graph.port_direction(to) {
+            // Let the graph report the incompatible ports
+            return self.graph.link_ports(from, to);
+        }
+        if self.graph.port_direction(from) == Some(Direction::Incoming) {
+            // The ports may be given in either order
+            std::mem::swap(&mut from_node, &mut to_node);
+        }
         if self
             .topo_sort
-            .would_create_cycle(to_node, from_node, &self.graph)
+            .would_create_cycle(from_node, to_node, &self.graph)
         {
             panic!("Adding this edge would create a cycle");
         }
-- 
2.43.0


From 016f7fee4b6e1e6a603d7279e69ca02ad3c9581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:50 +0000
Subject: [PATCH 28/37] fix: keep the order of DynamicTopoConvexChecker in step
 with node removals and renumberings

---
 src/algorithms/dynamic.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 002e729..bb8d9c8 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -102,6 +102,18 @@ impl DynamicTopoSort {
         }
     }
 
+    /// Exchanges the positions of two nodes, either of which may be missing.
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        let pos_a = self.node_to_pos.remove(&a);
+        let pos_b = self.node_to_pos.remove(&b);
+        for (node, pos) in [(b, pos_a), (a, pos_b)] {
+            if let Some(pos) = pos {
+                self.order[pos] = node;
+                self.node_to_pos.insert(node, pos);
+            }
+        }
+    }
+
     /// Removes an edge and updates the topological order if necessary.
     pub fn disconnect_nodes<G: LinkView>(
         &mut self,
@@ -371,16 +383,32 @@ impl<G: PortMut> PortMut for DynamicTopoConvexChecker<G> {
 
     fn remove_node(&mut self, node: NodeIndex) {
         self.graph.remove_node(node);
-        self.topo_sort.remove_node(node).expect("Node not found");
+        // Removing a node that is not in the graph has no effect
+        let _ = self.topo_sort.remove_node(node);
+    }
+
+    fn clear(&mut self) {
+        self.graph.clear();
+        self.topo_sort = DynamicTopoSort::default();
+    }
+
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        self.graph.swap_nodes(a, b);
+        self.topo_sort.swap_nodes(a, b);
+    }
+
+    fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, mut rekey: F) {
+        let topo_sort = &mut self.topo_sort;
+        self.graph.compact_nodes(|old, new| {
+            topo_sort.swap_nodes(old, new);
+            rekey(old, new);
+        });
     }
 
     delegate! {
         to self.graph {
-            fn clear(&mut self);
             fn reserve(&mut self, nodes: usize, ports: usize);
             fn set_num_ports<F: FnMut(PortIndex, crate::portgraph::PortOperation)>(&mut self, node: NodeIndex, inputs: usize, outputs: usize, rekey: F);
-            fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex);
-            fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, rekey: F);
             fn compact_ports<F: FnMut(PortIndex, PortIndex)>(&mut self, rekey: F);
             fn shrink_to_fit(&mut self);
         }
-- 
2.43.0


From 3290105e678a7dfb649d48bb78d5743c790a0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:52 +0000
Subject: [PATCH 29/37] fix: detect exactly the paths that leave and reenter a
 subgraph in DynamicTopoConvexChecker

---
 src/algorithms/dynamic.rs | 139 +++++++-------------------------------
 1 file changed, 23 insertions(+), 116 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index bb8d9c8..1d7b7b2 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -4,7 +4,6 @@ use crate::{
     Direction, LinkError, LinkMut, LinkView, NodeIndex, PortIndex, PortMut, PortOffset, PortView,
 };
 use delegate::delegate;
-use std::cmp::{max, min};
 use std::collections::{HashMap, HashSet, VecDeque};
 use thiserror::Error;
 
@@ -233,72 +232,26 @@ impl DynamicTopoSort {
         &self.order
     }
 
+    /// Checks if there is a path that leaves `nodes` and comes back to it.
+    ///
+    /// Only nodes before `max_pos` in the order, the last position of a node in
+    /// `nodes`, may lead back to it.
     fn has_path_outside_subgraph<G: LinkView>(
         &self,
-        start: NodeIndex,
-        end: NodeIndex,
-        min_pos: usize,
         max_pos: usize,
         nodes: &HashSet<NodeIndex>,
         graph: &G,
     ) -> bool {
         let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back(start);
+        let mut queue: VecDeque<NodeIndex> = nodes.iter().copied().collect();
         while let Some(node) = queue.pop_front() {
-            if !nodes.contains(&node) && node != start {
-                return true;
-            }
-            if node == end {
-                continue;
-            }
-            if visited.insert(node) {
-                for n in graph.output_neighbours(node) {
-                    let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                    if n_pos >= min_pos && n_pos <= max_pos {
-                        queue.push_back(n);
+            for n in graph.output_neighbours(node) {
+                if nodes.contains(&n) {
+                    if !nodes.contains(&node) {
+                        return true;
                     }
-                }
-            }
-        }
-        false
-    }
-
-    /// Checks if `start` can reach any input within position bounds, going outside `nodes`.
-    fn can_reach_inputs<G: LinkView + PortView>(
-        &self,
-        start: NodeIndex,
-        min_pos: usize,
-        max_pos: usize,
-        nodes: &HashSet<NodeIndex>,
-        inputs: &[PortIndex],
-        graph: &G,
-    ) -> bool {
-        let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back((start, false));
-        while let Some((node, has_exited)) = queue.pop_front() {
-            if visited.contains(&node) {
-                continue;
-            }
-            visited.insert(node);
-            let pos = *self.node_to_pos.get(&node).unwrap_or(&usize::MAX);
-            if pos < min_pos || pos > max_pos {
-                continue;
-            }
-            let is_outside = !nodes.contains(&node) && node != start;
-            let current_exited = has_exited || is_outside;
-            if current_exited {
-                for &input in inputs {
-                    if graph.port_node(input) == Some(node) {
-                        return true; // Reached an input via a path that exited the subgraph
-                    }
-                }
-            }
-            for n in graph.input_neighbours(node) {
-                let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                if n_pos >= min_pos && n_pos <= max_pos {
-                    queue.push_back((n, current_exited));
+                } else if self.node_to_pos[&n] < max_pos && visited.insert(n) {
+                    queue.push_back(n);
                 }
             }
         }
@@ -491,66 +444,20 @@ where
                 return false;
             }
         }
-        if nodes.len() < 2 {
-            return true;
-        }
-        let inputs: Vec<PortIndex> = inputs.into_iter().collect();
-        let outputs: Vec<PortIndex> = outputs.into_iter().collect();
-        let mut min_pos = usize::MAX;
-        let mut max_pos = 0;
-
-        for &node in &nodes {
-            if let Some(&pos) = self.topo_sort.node_to_pos.get(&node) {
-                min_pos = min(min_pos, pos);
-                max_pos = max(max_pos, pos);
-            } else {
-                return false;
-            }
+        let linked_to_outputs: HashSet<PortIndex> = outputs
+            .into_iter()
+            .flat_map(|p| self.graph.port_links(p).map(|(_, to)| to.into()))
+            .collect();
+        if inputs.into_iter().any(|p| linked_to_outputs.contains(&p)) {
+            return false;
         }
-
-        if inputs.is_empty() && outputs.is_empty() {
-            for &start in &nodes {
-                for &end in &nodes {
-                    if start == end {
-                        continue;
-                    }
-                    let start_pos = *self.topo_sort.node_to_pos.get(&start).unwrap();
-                    let end_pos = *self.topo_sort.node_to_pos.get(&end).unwrap();
-                    if start_pos < end_pos
-                        && self.topo_sort.has_path_outside_subgraph(
-                            start,
-                            end,
-                            min_pos,
-                            max_pos,
-                            &nodes,
-                            &self.graph,
-                        )
-                    {
-                        return false;
-                    }
-                }
-            }
+        let positions = nodes.iter().map(|n| self.topo_sort.node_to_pos[n]);
+        let Some(max_pos) = positions.max() else {
             return true;
-        }
-
-        for &output in &outputs {
-            if let Some(output_node) = self.graph.port_node(output) {
-                if !nodes.contains(&output_node) {
-                    continue;
-                }
-                if self.topo_sort.can_reach_inputs(
-                    output_node,
-                    min_pos,
-                    max_pos,
-                    &nodes,
-                    &inputs,
-                    &self.graph,
-                ) {
-                    return false;
-                }
-            }
-        }
-        true
+        };
+        !self
+            .topo_sort
+            .has_path_outside_subgraph(max_pos, &nodes, &self.graph)
     }
 }
 
-- 
2.43.0


From 2008433e9bc40e570af0e67727384175340b71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:31 +0000
Subject: [PATCH 30/37] fix: treat the empty subgraph as convex in
 LineConvexChecker (formatting)

---
 src/algorithms/convex/line_convex_checker.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index f05803f..aa3913d 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -207,10 +207,7 @@ impl<G: LinkView> LineConvexChecker<G> {
     /// In other words, check if there is a path in `self.graph()` from an end
     /// of one interval to the start of another.
     pub fn is_convex_by_intervals(&self, intervals: &LineIntervals) -> bool {
-        let Some(max_start_pos) = intervals
-            .values()
-            .map(|LineInterval { min, .. }| min)
-            .max()
+        let Some(max_start_pos) = intervals.values().map(|LineInterval { min, .. }| min).max()
         else {
             // The empty subgraph is convex
             return true;
-- 
2.43.0


From afee646b36a99d6c2f72caf65f08f7ba1dd97b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:41 +0000
Subject: [PATCH 31/37] fix: report the first visit of a node in the petgraph
 VisitMap of BitVec

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 000c18c..39ced94 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -311,7 +311,7 @@ impl petgraph::visit::VisitMap<NodeIndex> for BitVec {
     fn visit(&mut self, a: NodeIndex) -> bool {
         let is_visited = self.is_visited(&a);
         <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
-        is_visited
+        !is_visited
     }
 
     fn is_visited(&self, a: &NodeIndex) -> bool {
-- 
2.43.0


From 2410f06a1e5094740cd2f22c02116c27d3357f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:16 +0000
Subject: [PATCH 32/37] fix: bound all the node indices in the petgraph
 NodeIndexable

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 39ced94..3fb8da1 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -76,7 +76,7 @@ macro_rules! impl_petgraph_traits {
 
         impl<$($args)*> petgraph::visit::NodeIndexable for $graph where $($where)* {
             fn node_bound(&self) -> usize {
-                PortView::node_count(self)
+                self.nodes_iter().map(|n| n.index() + 1).max().unwrap_or(0)
             }
 
             fn to_index(&self, ix: Self::NodeId) -> usize {
-- 
2.43.0


From f97f9bbef2c2637a6002fbdfde2b781b0fc2a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:46 +0000
Subject: [PATCH 33/37] fix: yield each edge once, from source to target, in
 the petgraph edge_references

---
 src/view/petgraph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 3fb8da1..96083f6 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -380,7 +380,11 @@ where
     pub fn new(graph: &'g G) -> Self {
         Self {
             graph,
-            ports: Box::new(graph.ports_iter()),
+            ports: Box::new(
+                graph
+                    .ports_iter()
+                    .filter(|&p| graph.port_direction(p) == Some(crate::Direction::Outgoing)),
+            ),
             links: None,
             count: graph.link_count(),
         }
@@ -396,6 +400,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         loop {
             if let Some((from, to)) = self.links.as_mut().and_then(|links| links.next()) {
+                self.count -= 1;
                 return Some(EdgeRef {
                     from_node: self.graph.port_node(from).unwrap(),
                     to_node: self.graph.port_node(to).unwrap(),
-- 
2.43.0


From 5667a355a498db5b9834001a933cbc79cad6d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:17 +0000
Subject: [PATCH 34/37] fix: orient the edges of a node from source to target
 in the petgraph adaptor

---
 src/view/petgraph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 96083f6..c7ec950 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -149,7 +149,7 @@ macro_rules! impl_petgraph_traits {
             type Edges = NodeEdgeRefs<'g, $graph>;
 
             fn edges(self, n: Self::NodeId) -> Self::Edges {
-                NodeEdgeRefs::new(self, n)
+                NodeEdgeRefs::new_directed(self, n, crate::Direction::Outgoing)
             }
         }
 
@@ -458,9 +458,13 @@ where
 
     /// Create a new iterator over the edges of a portgraph.
     pub fn new_directed(graph: &'g G, node: NodeIndex, dir: crate::Direction) -> Self {
+        let links = graph.links(node, dir).map(move |(from, to)| match dir {
+            crate::Direction::Incoming => (to, from),
+            crate::Direction::Outgoing => (from, to),
+        });
         Self {
             graph,
-            links: Box::new(graph.links(node, dir)),
+            links: Box::new(links),
         }
     }
 }
-- 
2.43.0


From 60466ce35768e8188fcba23320aa54f356431306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:47 +0000
Subject: [PATCH 35/37] fix: size the petgraph adjacency matrix after the node
 indices in use

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index c7ec950..b5708cd 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -190,7 +190,7 @@ macro_rules! impl_visit_dense {
             type AdjMatrix = (bitvec::vec::BitVec, usize);
 
             fn adjacency_matrix(&self) -> Self::AdjMatrix {
-                let row_size = self.node_capacity();
+                let row_size = petgraph::visit::NodeIndexable::node_bound(self);
                 let mut matrix = bitvec::bitvec![0; row_size * row_size];
                 for node in self.nodes_iter() {
                     for neighbour in self.output_neighbours(node) {
-- 
2.43.0


From e7b49ac9c4842c50ded604c90ed86b5a321faa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 36/37] fix: report only user nodes and ports in the
 MultiPortGraph callbacks

---
 src/multiportgraph.rs | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index cb69116..da21db6 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -2,6 +2,8 @@
 
 mod iter;
 
+use std::collections::{HashMap, HashSet};
+
 pub use self::iter::{
     Neighbours, NodeConnections, NodeLinks, NodeSubports, Nodes, PortLinks, Ports,
 };
@@ -222,17 +224,38 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
+        // The user's ports linked to the ports being removed, where a copy node
+        // lies in between.
+        let removed_ports = self
+            .graph
+            ._inputs(node)
+            .skip(incoming)
+            .chain(self.graph._outputs(node).skip(outgoing));
+        let mut public_links: HashMap<PortIndex, Option<PortIndex>> = removed_ports
+            .filter(|&port| {
+                let copy_node = self.get_copy_node(port);
+                copy_node.is_some_and(|copy_node| self.is_copy_node(copy_node))
+            })
+            .map(|port| {
+                let link = self.port_links(port).next();
+                (port, link.map(|(_, other)| other.port()))
+            })
+            .collect();
+
         let mut dropped_ports = Vec::new();
-        let rekey_wrapper = |port, op| {
-            match op {
+        let rekey_wrapper = |port, mut op| {
+            match &mut op {
                 PortOperation::Removed { old_link } => {
                     if *self.multiport.get(port) {
                         // The index may be reused by a moved port.
                         self.multiport.set(port, false);
                         dropped_ports.push(old_link.expect("Multiport node has no link"));
                     }
+                    if let Some(link) = public_links.remove(&port) {
+                        *old_link = link;
+                    }
                 }
-                PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
+                PortOperation::Moved { new_index } => self.multiport.swap(port, *new_index),
             }
             rekey(port, op);
         };
@@ -248,8 +271,11 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
         F: FnMut(NodeIndex, NodeIndex),
     {
         self.graph.compact_nodes(|node, new_node| {
+            let is_copy_node = *self.copy_node.get(node);
             self.copy_node.swap(node, new_node);
-            rekey(node, new_node);
+            if !is_copy_node {
+                rekey(node, new_node);
+            }
         });
     }
 
@@ -262,9 +288,13 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortIndex),
     {
+        // The user's ports. Those of the copy nodes are not reported.
+        let user_ports: HashSet<PortIndex> = self.ports_iter().collect();
         self.graph.compact_ports(|port, new_port| {
             self.multiport.swap(port, new_port);
-            rekey(port, new_port);
+            if user_ports.contains(&port) {
+                rekey(port, new_port);
+            }
         });
     }
 
-- 
2.43.0


From 675a18190d1dc99ee37f106e62e7fdbee8110810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:58 +0000
Subject: [PATCH 37/37] fix: keep the region root in the cache of a Region
 cloned while its cache is being written

Region::clone cannot read the cache while another thread updates it, and fell
back to an empty cache. is_descendant relies on the root being there: the clone
answered false for every proper descendant of the root.
---
 src/view/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view/region.rs b/src/view/region.rs
index bba40ba..209f54f 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -128,10 +128,10 @@ impl<G: PartialEq> PartialEq for Region<'_, G> {
 impl<G: Clone> Clone for Region<'_, G> {
     fn clone(&self) -> Self {
         // Clone the cache if it is not currently locked.
-        // Otherwise, create a new empty cache.
+        // Otherwise, create a new cache containing only the root.
         let is_descendant = match self.is_descendant.try_read() {
             Ok(cache) => cache.clone(),
-            Err(_) => HashMap::new(),
+            Err(_) => HashMap::from([(self.region_root, false)]),
         };
         Self {
             graph: self.graph.clone(),
-- 
2.43.0

