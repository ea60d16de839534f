From d4a53434939bd4ec98668f87be53d680cd6ae1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 01/16] fix: CartesianProduct::extend no longer repeats the
 factors already present

extend() pushed a current element for every factor, not only for the ones it
added, so after push() or an earlier extend() the slice of current elements had
stale entries and advance() paired elements with the wrong factors.
---
 gearley-utils/src/cartesian_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index c158437..cbae296 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -63,11 +63,11 @@ impl<'a, V> CartesianProduct<'a, V> {
     where
         I: Iterator<Item = &'a [V]>,
     {
+        let old_len = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
         unsafe {
-            // FIXME wrong range
             self.ptrs
-                .extend(self.ranges.iter().map(|factor| &*factor.start));
+                .extend(self.ranges[old_len..].iter().map(|factor| &*factor.start));
         }
     }
 
-- 
2.43.0


From c59cb4c2ca857d4c5133c6bd63c4581a0e977cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 02/16] fix: CartesianProduct no longer forms references past
 the end of a factor

Factor::advance made a reference to the element after the current one before
checking whether there was one, and stepped a pointer derived from a reference
to a single element: undefined behaviour on every wrap-around. With zero-sized
elements the pointer never moved, so only one combination was visited.
Keep the slice and a position instead.
---
 gearley-utils/src/cartesian_product.rs | 42 ++++++++------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/gearley-utils/src/cartesian_product.rs b/gearley-utils/src/cartesian_product.rs
index cbae296..f83acbc 100644
--- a/gearley-utils/src/cartesian_product.rs
+++ b/gearley-utils/src/cartesian_product.rs
@@ -1,33 +1,21 @@
-use std::marker::PhantomData;
-
 pub struct Factor<'a, V: 'a> {
-    start: *const V,
-    end: *const V,
-    marker: PhantomData<&'a V>,
+    slice: &'a [V],
+    pos: usize,
 }
 
 impl<'a, V> Factor<'a, V> {
     fn new(slice: &'a [V]) -> Self {
-        let start = slice.as_ptr();
-        unsafe {
-            Factor {
-                start,
-                end: start.offset(slice.len() as isize),
-                marker: PhantomData,
-            }
-        }
+        Factor { slice, pos: 0 }
     }
 
     fn advance(&mut self, ptr: &mut &'a V) -> bool {
-        unsafe {
-            *ptr = &*(*ptr as *const V).offset(1);
-            if *ptr as *const _ == self.end {
-                *ptr = &*self.start;
-                true
-            } else {
-                false
-            }
+        self.pos += 1;
+        let wrapped = self.pos == self.slice.len();
+        if wrapped {
+            self.pos = 0;
         }
+        *ptr = &self.slice[self.pos];
+        wrapped
     }
 }
 
@@ -52,10 +40,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     /// Multiplies the cartesian product by a slice.
     pub fn push(&mut self, slice: &'a [V]) {
         self.ranges.push(Factor::new(slice));
-        unsafe {
-            self.ptrs
-                .push(self.ranges.last().map(|factor| &*factor.start).unwrap());
-        }
+        self.ptrs
+            .push(self.ranges.last().map(|factor| &factor.slice[0]).unwrap());
     }
 
     /// Multiplies the cartesian product by an iterator.
@@ -65,10 +51,8 @@ impl<'a, V> CartesianProduct<'a, V> {
     {
         let old_len = self.ranges.len();
         self.ranges.extend(product.map(|slice| Factor::new(slice)));
-        unsafe {
-            self.ptrs
-                .extend(self.ranges[old_len..].iter().map(|factor| &*factor.start));
-        }
+        self.ptrs
+            .extend(self.ranges[old_len..].iter().map(|factor| &factor.slice[0]));
     }
 
     pub fn as_slice(&self) -> &[&'a V] {
-- 
2.43.0


From 7d18172097cae893f87fa2b0f0e878be87dda35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 03/16] fix: Recognizer::reset forgets the lookahead hint and
 old predictions

reset() kept a pending lookahead hint, which then filtered completions of the
next parse, and kept the old rows of the prediction matrix: prediction_pass()
adds to a row without clearing it, so the next parse predicted leftovers of
the previous one.
---
 gearley-recognizer/src/recognizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 41d9e4f..ef33dec 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -319,9 +319,12 @@ where
     pub fn reset(&mut self) {
         // Remove items.
         self.medial.clear();
+        self.leo.clear();
         self.complete.clear();
+        self.lookahead.clear_hint();
         // Earleme is now equal 0.
         // Reset predictions.
+        self.predicted.truncate(1);
         self.predicted[0].clear();
         self.predicted[0].predict(
             self.grammar.start_sym(),
-- 
2.43.0


From 796166477f10c9e8090d03a7038dfda81302bdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 04/16] fix: DefaultGrammar::events returns the prediction and
 medial columns

The first table is indexed by predicted symbols and the second by dots of
medial items, as in trace(); columns 1 and 2 made events() report the events
of unrelated dots and panic for symbols numbered above the rule count.
---
 gearley-default-grammar/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index c2696e4..5ecb62c 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -687,7 +687,7 @@ impl Grammar for DefaultGrammar {
 
     #[inline]
     fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) {
-        (&self.columns[1].events[..], &self.columns[2].events[..])
+        (&self.columns[0].events[..], &self.columns[1].events[..])
     }
 
     #[inline]
-- 
2.43.0


From c951e237d9f6027cdb1f05dece6aa63e0522c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 05/16] fix: compact bocage reads node fields without requiring
 alignment

bytemuck::from_bytes panics when the local byte array happens not to be
aligned for u32.
---
 compact-bocage/src/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compact-bocage/src/graph.rs b/compact-bocage/src/graph.rs
index fac9357..12f8452 100644
--- a/compact-bocage/src/graph.rs
+++ b/compact-bocage/src/graph.rs
@@ -1,4 +1,4 @@
-use bytemuck::{bytes_of, from_bytes};
+use bytemuck::bytes_of;
 use cfg_symbol::Symbol;
 use gearley_forest::node_handle::NodeHandle;
 
@@ -72,10 +72,10 @@ impl Graph {
         let mut left_slice = [0; 4];
         let mid = index + 1 + l_len as usize;
         left_slice[0..l_len as usize].copy_from_slice(&self.vect[index + 1..mid]);
-        let &left: &u32 = from_bytes(&left_slice[..]);
+        let left = u32::from_le_bytes(left_slice);
         let mut right_slice = [0; 4];
         right_slice[0..r_len as usize].copy_from_slice(&self.vect[mid..mid + r_len as usize]);
-        let &right: &u32 = from_bytes(&right_slice[..]);
+        let right = u32::from_le_bytes(right_slice);
         match discr {
             0 => Node::BeginSum,
             1 => Node::EndSum,
-- 
2.43.0


From 0aedf09f1b3cdefcbcf91caa2e41b41dcad8e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 06/16] fix: compact bocage evaluates empty input to the start
 symbol's nulling

evaluate() returned no result at all for a parse of empty input; the simple
bocage calls nulling() for the start symbol.
---
 compact-bocage/src/traverse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index bd5a100..d1fec7b 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -45,7 +45,11 @@ impl Bocage {
                     }
                     right_factor
                 }
-                _ => return vec![],
+                _ => {
+                    let mut start_results = vec![];
+                    eval.nulling(self.forest_info.start, &mut start_results);
+                    return start_results;
+                }
             },
             Node::BeginSum => match self.get(NodeHandle(root_node.0 + 1)) {
                 Node::Summand { factors, .. } => match self.get(factors) {
-- 
2.43.0


From ade3b82c4e06641965ec59309ccb3eba4f371dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 07/16] fix: compact bocage starts a sum at its first summand

CompleteGroup::push_summand and complete_sum are public and do not call
begin_sum, so completing a group by hand panicked in Bocage::sum.
---
 compact-bocage/src/bocage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compact-bocage/src/bocage.rs b/compact-bocage/src/bocage.rs
index a977cb0..748ccd7 100644
--- a/compact-bocage/src/bocage.rs
+++ b/compact-bocage/src/bocage.rs
@@ -150,6 +150,10 @@ impl Forest for Bocage {
 
     #[inline]
     fn push_summand(&mut self, item: Item<Self::NodeRef>) {
+        // `begin_sum` is not called when the sum is completed summand by summand.
+        if self.sum.is_none() {
+            self.begin_sum();
+        }
         self.graph.push(Node::Summand {
             action: item.dot,
             factors: item.node,
-- 
2.43.0


From 9a493bd337cae1c8f40c5e23c2aac0d6169eb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 08/16] fix: evaluating a bocage combines nested alternatives
 instead of mixing them up

Every alternative of an ambiguous node added its result to the children of the
nearest enclosing product, so a rule with an ambiguous child was evaluated
once, with too many arguments. Let every node give its list of alternatives,
and let rules multiply the alternatives of their factors. In the compact
bocage, summands no longer continue with whatever follows them, and nothing is
printed.
---
 compact-bocage/src/traverse.rs | 161 ++++++++++++++++++---------------
 simple-bocage/src/traverse.rs  | 140 +++++++++++++++-------------
 2 files changed, 167 insertions(+), 134 deletions(-)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index d1fec7b..4212c73 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -13,8 +13,44 @@ use crate::node::{Node, NULL_ACTION};
 struct WorkNode<'a> {
     node: NodeHandle,
     child: u32,
+    // For sums: the offset of the next summand.
+    next_summand: u32,
     parent: usize,
-    results: AVec<u32, &'a Bump>,
+    // Alternatives, each of which is a sequence of evaluated children.
+    results: AVec<AVec<u32, &'a Bump>, &'a Bump>,
+}
+
+impl<'a> WorkNode<'a> {
+    fn new(node: NodeHandle, parent: usize, alloc: &'a Bump) -> Self {
+        WorkNode {
+            node,
+            child: 0,
+            next_summand: 0,
+            parent,
+            results: AVec::new_in(alloc),
+        }
+    }
+
+    /// Adds alternatives to the ones that are already there.
+    fn add(&mut self, alternatives: AVec<AVec<u32, &'a Bump>, &'a Bump>) {
+        self.results.extend(alternatives);
+    }
+
+    /// Appends every alternative of the next child to every alternative of the previous children.
+    fn multiply(&mut self, alternatives: AVec<AVec<u32, &'a Bump>, &'a Bump>, alloc: &'a Bump) {
+        if self.results.is_empty() {
+            self.results = alternatives;
+            return;
+        }
+        let left = mem::replace(&mut self.results, AVec::new_in(alloc));
+        for left_alternative in &left {
+            for right_alternative in &alternatives {
+                let mut alternative = left_alternative.clone();
+                alternative.extend(right_alternative.iter().copied());
+                self.results.push(alternative);
+            }
+        }
+    }
 }
 
 impl Bocage {
@@ -79,18 +115,8 @@ impl Bocage {
         let alloc = Bump::new();
         let mut results: Vec<E::Elem> = vec![];
         let mut work_stack = vec![
-            WorkNode {
-                node: NULL_HANDLE,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
-            WorkNode {
-                node: root_node,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
+            WorkNode::new(NULL_HANDLE, 0, &alloc),
+            WorkNode::new(root_node, 0, &alloc),
         ];
 
         while work_stack.len() > 1 {
@@ -100,60 +126,46 @@ impl Bocage {
             if work.child == 0 {
                 node = self.postprocess_product_tree_node(node);
             }
-            match (node, work.child) {
+            let alternatives = match (node, work.child) {
                 (Node::BeginSum, _) => {
-                    work_stack.push(WorkNode {
-                        node: NodeHandle(work.node.0 + 1),
-                        child: 0,
-                        parent: work.parent,
-                        results: AVec::new_in(&alloc),
-                    });
-                }
-                (Node::EndSum, _) => {
-                    println!("END_SUM");
-                    // nothing to do
+                    let summand = work.node.0 + 1 + work.next_summand;
+                    if matches!(self.get(NodeHandle(summand)), Node::EndSum) {
+                        work.results
+                    } else {
+                        work.next_summand += self.graph.get_node_size(summand as usize);
+                        work_stack.push(work);
+                        let parent = work_stack.len() - 1;
+                        work_stack.push(WorkNode::new(NodeHandle(summand), parent, &alloc));
+                        continue;
+                    }
                 }
+                (Node::EndSum, _) => unreachable!(),
                 (Node::Rule { left_factor, .. }, 0) => {
                     work.child += 1;
-                    let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: left_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(left_factor, parent, &alloc));
+                    continue;
                 }
                 (Node::Rule { right_factor, .. }, 1) => {
                     work.child += 1;
-                    let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: right_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
-                }
-                (Node::Rule { .. }, _) => {
-                    // nothing to do
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(right_factor, parent, &alloc));
+                    continue;
                 }
+                (Node::Rule { .. }, _) => work.results,
                 (Node::Leaf { symbol, values }, _) => {
                     let result = eval.leaf(symbol, values);
                     results.push(result);
-                    work_stack[work.parent]
-                        .results
-                        .push(results.len() as u32 - 1);
+                    single(results.len() as u32 - 1, &alloc)
                 }
                 (Node::Product { factors, .. }, 0) | (Node::Summand { factors, .. }, 0) => {
                     work.child += 1;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: factors,
-                        child: 0,
-                        parent: work_stack.len() - 1,
-                        results: AVec::new_in(&alloc),
-                    });
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(factors, parent, &alloc));
+                    continue;
                 }
                 (Node::Product { action, .. }, _) | (Node::Summand { action, .. }, _) => {
                     let external_origin_opt = if action == NULL_ACTION {
@@ -163,42 +175,47 @@ impl Bocage {
                     };
                     match external_origin_opt {
                         Some(external_origin) if external_origin.id != !0 => {
-                            let result = eval.product(
-                                external_origin.id,
-                                work.results.iter().copied().map(|v| &results[v as usize]),
-                            );
-                            results.push(result);
-                            work_stack[work.parent]
-                                .results
-                                .push(results.len() as u32 - 1);
-                        }
-                        _ => {
-                            work_stack[work.parent].results.extend(work.results);
+                            let mut products = AVec::new_in(&alloc);
+                            for children in &work.results {
+                                let result = eval.product(
+                                    external_origin.id,
+                                    children.iter().copied().map(|v| &results[v as usize]),
+                                );
+                                results.push(result);
+                                products.extend(single(results.len() as u32 - 1, &alloc));
+                            }
+                            products
                         }
-                    }
-                    if matches!(node, Node::Summand { .. }) {
-                        println!("SUMMAND");
-                        let size = self.graph.get_node_size(work.node.0 as usize);
-                        work_stack.push(WorkNode {
-                            node: NodeHandle(work.node.0 + size),
-                            child: 0,
-                            parent: work.parent,
-                            results: AVec::new_in(&alloc),
-                        });
+                        _ => work.results,
                     }
                 }
                 (Node::NullingLeaf { symbol }, _) => {
                     let values = results.len() as u32;
                     eval.nulling(symbol, &mut results);
-                    work_stack[work.parent].results.push(values);
+                    single(values, &alloc)
                 }
+            };
+            let parent = &mut work_stack[work.parent];
+            if parent.node == NULL_HANDLE || parent.next_summand != 0 {
+                parent.add(alternatives);
+            } else {
+                parent.multiply(alternatives, &alloc);
             }
         }
         work_stack[0]
             .results
             .iter()
+            .flatten()
             .copied()
             .map(|v| mem::replace(&mut results[v as usize], Default::default()))
             .collect()
     }
 }
+
+fn single(result: u32, alloc: &Bump) -> AVec<AVec<u32, &Bump>, &Bump> {
+    let mut alternative = AVec::new_in(alloc);
+    alternative.push(result);
+    let mut alternatives = AVec::new_in(alloc);
+    alternatives.push(alternative);
+    alternatives
+}
diff --git a/simple-bocage/src/traverse.rs b/simple-bocage/src/traverse.rs
index 9def928..5973453 100644
--- a/simple-bocage/src/traverse.rs
+++ b/simple-bocage/src/traverse.rs
@@ -14,7 +14,40 @@ struct WorkNode<'a> {
     node: NodeHandle,
     child: u32,
     parent: usize,
-    results: AVec<u32, &'a Bump>,
+    // Alternatives, each of which is a sequence of evaluated children.
+    results: AVec<AVec<u32, &'a Bump>, &'a Bump>,
+}
+
+impl<'a> WorkNode<'a> {
+    fn new(node: NodeHandle, parent: usize, alloc: &'a Bump) -> Self {
+        WorkNode {
+            node,
+            child: 0,
+            parent,
+            results: AVec::new_in(alloc),
+        }
+    }
+
+    /// Adds alternatives to the ones that are already there.
+    fn add(&mut self, alternatives: AVec<AVec<u32, &'a Bump>, &'a Bump>) {
+        self.results.extend(alternatives);
+    }
+
+    /// Appends every alternative of the next child to every alternative of the previous children.
+    fn multiply(&mut self, alternatives: AVec<AVec<u32, &'a Bump>, &'a Bump>, alloc: &'a Bump) {
+        if self.results.is_empty() {
+            self.results = alternatives;
+            return;
+        }
+        let left = mem::replace(&mut self.results, AVec::new_in(alloc));
+        for left_alternative in &left {
+            for right_alternative in &alternatives {
+                let mut alternative = left_alternative.clone();
+                alternative.extend(right_alternative.iter().copied());
+                self.results.push(alternative);
+            }
+        }
+    }
 }
 
 impl Bocage {
@@ -49,18 +82,8 @@ impl Bocage {
         let alloc = Bump::new();
         let mut results: Vec<E::Elem> = vec![];
         let mut work_stack = vec![
-            WorkNode {
-                node: NULL_HANDLE,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
-            WorkNode {
-                node: root_node,
-                child: 0,
-                parent: 0,
-                results: AVec::new_in(&alloc),
-            },
+            WorkNode::new(NULL_HANDLE, 0, &alloc),
+            WorkNode::new(root_node, 0, &alloc),
         ];
 
         while work_stack.len() > 1 {
@@ -69,62 +92,40 @@ impl Bocage {
             if work.child == 0 {
                 self[work.node] = self.postprocess_product_tree_node(self[work.node]);
             }
-            match (self[work.node], work.child) {
+            let alternatives = match (self[work.node], work.child) {
                 (Node::Sum { count, .. }, n) if n < count => {
                     work.child += 1;
-                    let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: NodeHandle(node.0 + n + 1),
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(NodeHandle(node.0 + n + 1), parent, &alloc));
+                    continue;
                 }
                 (Node::Rule { left_factor, .. }, 0) => {
                     work.child += 1;
-                    let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: left_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(left_factor, parent, &alloc));
+                    continue;
                 }
                 (Node::Rule { right_factor, .. }, 1) => {
                     work.child += 1;
-                    let parent = work.parent;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: right_factor,
-                        child: 0,
-                        parent,
-                        results: AVec::new_in(&alloc),
-                    });
-                }
-                (Node::Rule { .. }, _) => {
-                    // nothing to do
-                }
-                (Node::Sum { .. }, _) => {
-                    // nothing to do
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(right_factor, parent, &alloc));
+                    continue;
                 }
+                (Node::Rule { .. }, _) | (Node::Sum { .. }, _) => work.results,
                 (Node::Leaf { symbol, values }, _) => {
                     let result = eval.leaf(symbol, values);
                     results.push(result);
-                    work_stack[work.parent]
-                        .results
-                        .push(results.len() as u32 - 1);
+                    single(results.len() as u32 - 1, &alloc)
                 }
                 (Node::Product { factors, .. }, 0) => {
                     work.child += 1;
                     work_stack.push(work);
-                    work_stack.push(WorkNode {
-                        node: factors,
-                        child: 0,
-                        parent: work_stack.len() - 1,
-                        results: AVec::new_in(&alloc),
-                    });
+                    let parent = work_stack.len() - 1;
+                    work_stack.push(WorkNode::new(factors, parent, &alloc));
+                    continue;
                 }
                 (Node::Product { action, .. }, _) => {
                     let external_origin_opt = if action == NULL_ACTION {
@@ -134,32 +135,47 @@ impl Bocage {
                     };
                     match external_origin_opt {
                         Some(external_origin) if external_origin.id != !0 => {
-                            let result = eval.product(
-                                external_origin.id,
-                                work.results.iter().copied().map(|v| &results[v as usize]),
-                            );
-                            results.push(result);
-                            work_stack[work.parent]
-                                .results
-                                .push(results.len() as u32 - 1);
-                        }
-                        _ => {
-                            work_stack[work.parent].results.extend(work.results);
+                            let mut products = AVec::new_in(&alloc);
+                            for children in &work.results {
+                                let result = eval.product(
+                                    external_origin.id,
+                                    children.iter().copied().map(|v| &results[v as usize]),
+                                );
+                                results.push(result);
+                                products.extend(single(results.len() as u32 - 1, &alloc));
+                            }
+                            products
                         }
+                        _ => work.results,
                     }
                 }
                 (Node::NullingLeaf { symbol }, _) => {
                     let values = results.len() as u32;
                     eval.nulling(symbol, &mut results);
-                    work_stack[work.parent].results.push(values);
+                    single(values, &alloc)
                 }
+            };
+            let parent = &mut work_stack[work.parent];
+            if parent.node == NULL_HANDLE || matches!(self[parent.node], Node::Sum { .. }) {
+                parent.add(alternatives);
+            } else {
+                parent.multiply(alternatives, &alloc);
             }
         }
         work_stack[0]
             .results
             .iter()
+            .flatten()
             .copied()
             .map(|v| mem::replace(&mut results[v as usize], Default::default()))
             .collect()
     }
 }
+
+fn single(result: u32, alloc: &Bump) -> AVec<AVec<u32, &Bump>, &Bump> {
+    let mut alternative = AVec::new_in(alloc);
+    alternative.push(result);
+    let mut alternatives = AVec::new_in(alloc);
+    alternatives.push(alternative);
+    alternatives
+}
-- 
2.43.0


From d4ae5fc99fc1048b605afb8ca6e5da766019e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 09/16] fix: number symbols so that unary completions come in
 order

Completed items are processed by decreasing rule number, so the left-hand side
of a unary rule has to be numbered before its right-hand side, also if there
is a generated symbol in between. remap_symbols() ordered both by their old
numbers instead, whichever was declared first, and let the closure run through
the artificial edges to generated symbols. The order was also not a total one,
as sorting requires. With a late left-hand side, a completion was processed
twice and alternatives were lost or repeated.
---
 gearley-default-grammar/src/lib.rs | 61 +++++++++++++-----------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 5ecb62c..154949c 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -1,6 +1,6 @@
 #![forbid(unsafe_code)]
 
-use std::{cmp, iter};
+use std::iter;
 
 use bit_matrix::row::BitSlice;
 use bit_matrix::BitMatrix;
@@ -233,49 +233,40 @@ impl DefaultGrammar {
         let gensyms = Self::find_gensyms(grammar);
         trace!("gensyms: {:?}", gensyms);
         let mut order = grammar.empty_matrix();
+        // A completion of `B` causes a completion of `A` at the same origin if there is
+        // a rule `A ::= B`, so `A < B`, and also if there is a gensym in between.
         for rule in grammar.rules() {
-            if rule.rhs.len() == 1 {
-                let left = rule.lhs.usize();
-                let right = rule.rhs[0].usize();
-                match left.cmp(&right) {
-                    cmp::Ordering::Less => {
-                        order.set(left, right, true);
-                    }
-                    cmp::Ordering::Greater => {
-                        order.set(right, left, true);
-                    }
-                    cmp::Ordering::Equal => {}
-                }
+            if rule.rhs.len() == 1 && rule.lhs != rule.rhs[0] {
+                order.set(rule.lhs.usize(), rule.rhs[0].usize(), true);
             }
         }
+        // the order above is not transitive.
+        // We modify it so that if `A < B` and `B < C` then `A < C`
+        order.transitive_closure();
         assert_eq!(grammar.wrapped_roots().len(), 1);
         let end_of_input = grammar.wrapped_roots().first().unwrap().end_of_input;
-        let mut not_gensyms = gensyms.clone();
-        not_gensyms.negate();
-        for not_gensym in not_gensyms.iter() {
-            // TODO fix argument order (????)
-            for (dst, src) in (&mut *order)[not_gensym.usize()]
-                .iter_blocks_mut()
-                .zip(gensyms.bit_vec().blocks())
-            {
-                *dst |= src;
+        // End of input is before all other symbols, and gensyms are after all other symbols.
+        let num_syms = grammar.num_syms();
+        let is_gensym: Vec<bool> = gensyms.bit_vec().iter().collect();
+        for left in 0..num_syms {
+            for right in 0..num_syms {
+                if left == right {
+                    continue;
+                }
+                if left == end_of_input.usize() || right == end_of_input.usize() {
+                    order.set(left, right, left == end_of_input.usize());
+                } else if is_gensym[left] != is_gensym[right] {
+                    order.set(left, right, is_gensym[right]);
+                }
             }
-            order.set(end_of_input.usize(), not_gensym.usize(), true);
         }
-        // the order above is not transitive.
-        // We modify it so that if `A < B` and `B < C` then `A < C`
-        order.transitive_closure();
         trace!("order_transitive_closure: {:?}", order);
+        // Sorting needs a total order: symbols with fewer symbols before them come first.
+        let rank: Vec<usize> = (0..num_syms)
+            .map(|right| (0..num_syms).filter(|&left| (*order)[(left, right)]).count())
+            .collect();
         let mut remap = Remap::new(grammar);
-        remap.reorder_symbols(|left, right| {
-            if order[(left, right)] {
-                cmp::Ordering::Less
-            } else if order[(right, left)] {
-                cmp::Ordering::Greater
-            } else {
-                cmp::Ordering::Equal
-            }
-        });
+        remap.reorder_symbols(|left, right| rank[left.usize()].cmp(&rank[right.usize()]));
         remap.remove_unused_symbols();
         remap.get_mapping()
     }
-- 
2.43.0


From 446f4bbe7434fbad695d6c2ebee0d81cb28e1525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 10/16] fix: expected_terminals lists the predicted terminals

It listed the symbol after the dot of every item in progress: nonterminals
too, repeatedly, without the terminals that these nonterminals begin with, and
no terminals at all at the start.
---
 gearley-recognizer/src/event.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gearley-recognizer/src/event.rs b/gearley-recognizer/src/event.rs
index bd477ee..fbb1778 100644
--- a/gearley-recognizer/src/event.rs
+++ b/gearley-recognizer/src/event.rs
@@ -35,8 +35,14 @@ where
     }
 
     pub fn expected_terminals(&self) -> impl Iterator<Item = Symbol> + use<'_, F, G, P> {
-        let rhs1 = self.grammar.rhs1();
-        self.medial_items()
-            .map(|item| rhs1[item.dot as usize].unwrap())
+        // Terminals are the symbols without rules.
+        let mut is_terminal = vec![true; self.grammar.num_syms()];
+        for dot in 0..self.grammar.num_rules() as u32 {
+            if let Some(entry) = is_terminal.get_mut(self.grammar.get_lhs(dot).usize()) {
+                *entry = false;
+            }
+        }
+        self.predicted_symbols()
+            .filter(move |sym| is_terminal[sym.usize()])
     }
 }
-- 
2.43.0


From e7367a27f3cd334d5a5b095b5856499544b9bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 11/16] fix: tokens without an internal number are parse
 errors, not panics

Symbols that are in no useful rule have no internal number, and to_internal()
panicked for symbols beyond the grammar's; parse() and parse_tokenizing()
unwrapped the number of the token and of the token after it.
---
 gearley-default-grammar/src/lib.rs |  6 +++++-
 gearley-utils/src/parse.rs         | 23 +++++++++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 154949c..75dc5d2 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -728,7 +728,11 @@ impl Grammar for DefaultGrammar {
         if self.sym_maps.to_internal.is_empty() {
             Some(symbol)
         } else {
-            self.sym_maps.to_internal[symbol.usize()]
+            self.sym_maps
+                .to_internal
+                .get(symbol.usize())
+                .copied()
+                .flatten()
         }
     }
 
diff --git a/gearley-utils/src/parse.rs b/gearley-utils/src/parse.rs
index b8951eb..1a6a6e3 100644
--- a/gearley-utils/src/parse.rs
+++ b/gearley-utils/src/parse.rs
@@ -77,15 +77,22 @@ where
         let mut iter = tokens.iter().enumerate().peekable();
         while let Some((i, &token)) = iter.next() {
             self.begin_earleme();
-            if let Some((_i, t)) = iter.peek() {
-                trace!("utils.lookahead_set_hint: {:?}", **t);
-                let s = self.grammar().to_internal(**t).unwrap();
+            // A token without an internal number cannot be in any sentence.
+            let Some(internal_token) = self.grammar().to_internal(token) else {
+                return Err(ParseError::Parse {
+                    msg: "failed to parse",
+                    tokens: vec![token],
+                    i,
+                });
+            };
+            if let Some(s) = iter.peek().and_then(|(_i, t)| self.grammar().to_internal(**t)) {
+                trace!("utils.lookahead_set_hint: {:?}", s);
                 self.lookahead().set_hint(s);
             } else {
                 trace!("utils.lookahead_clear_hint: None null");
                 self.lookahead().clear_hint();
             }
-            self.scan(self.grammar().to_internal(token).unwrap(), i as u32);
+            self.scan(internal_token, i as u32);
             if !self.end_earleme() {
                 return Err(ParseError::Parse {
                     msg: "failed to parse",
@@ -156,10 +163,10 @@ pub fn parse_tokenizing(
     for (i, ch) in input.chars().enumerate() {
         recognizer.begin_earleme();
         for &terminal in loaded.lexer_map.get(ch) {
-            recognizer.scan(
-                recognizer.grammar().to_internal(terminal).unwrap(),
-                ch as u32,
-            );
+            // A terminal without an internal number cannot be in any sentence.
+            if let Some(internal_terminal) = recognizer.grammar().to_internal(terminal) {
+                recognizer.scan(internal_terminal, ch as u32);
+            }
         }
         if !recognizer.end_earleme() {
             return Err(ParseError::Parse {
-- 
2.43.0


From a0b1e7706a415e5e04b9467c8c1bf75c56f32ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 12/16] fix: summands of an abandoned completion group are not
 counted in the next one

---
 gearley-recognizer/src/recognizer.rs | 2 +-
 simple-bocage/src/bocage.rs          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index ef33dec..90dee5a 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -659,6 +659,7 @@ where
     pub fn next_sum<'r>(&'r mut self) -> Option<CompleteGroup<'r, F, G, P>> {
         if let Some(ei) = self.heap_peek() {
             let lhs_sym = self.grammar.get_lhs(ei.dot);
+            self.forest.begin_sum();
             Some(CompleteGroup {
                 origin: ei.origin,
                 lhs_sym,
@@ -678,7 +679,6 @@ where
 {
     /// Completes all items.
     pub fn complete_entire_sum(&mut self) {
-        self.recognizer.forest.begin_sum();
         // For each item, include it in the completion.
         while let Some(item) = self.next_summand() {
             self.push_summand(item);
diff --git a/simple-bocage/src/bocage.rs b/simple-bocage/src/bocage.rs
index cd32548..8a2e713 100644
--- a/simple-bocage/src/bocage.rs
+++ b/simple-bocage/src/bocage.rs
@@ -113,7 +113,8 @@ impl Forest for Bocage {
 
     #[inline]
     fn begin_sum(&mut self) {
-        // nothing to do
+        // Forget the summands of a sum that was not completed.
+        self.summand_count = 0;
     }
 
     #[inline]
-- 
2.43.0


From e922a50d988948bd70329fecfcf324cd8ceb38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 13/16] fix: numbers of the example grammars are read from left
 to right, as they are evaluated

---
 gearley-example-grammars/src/ambiguous_math/mod.rs   | 2 +-
 gearley-example-grammars/src/precedenced_math/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gearley-example-grammars/src/ambiguous_math/mod.rs b/gearley-example-grammars/src/ambiguous_math/mod.rs
index a8bf976..ba86d2b 100644
--- a/gearley-example-grammars/src/ambiguous_math/mod.rs
+++ b/gearley-example-grammars/src/ambiguous_math/mod.rs
@@ -17,7 +17,7 @@ pub fn grammar() -> Cfg {
 
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(num).rhs([sym, num]).rhs([sym]);
+        bnf.rule(num).rhs([num, sym]).rhs([sym]);
     }
     bnf.set_roots([expr]);
     bnf
diff --git a/gearley-example-grammars/src/precedenced_math/mod.rs b/gearley-example-grammars/src/precedenced_math/mod.rs
index 1083043..8ef04f8 100644
--- a/gearley-example-grammars/src/precedenced_math/mod.rs
+++ b/gearley-example-grammars/src/precedenced_math/mod.rs
@@ -36,7 +36,7 @@ pub fn grammar() -> Cfg {
         .rhs([number]);
     for _ in 0..10 {
         let [sym] = bnf.sym();
-        bnf.rule(number).rhs([sym, number]).rhs(&[sym]);
+        bnf.rule(number).rhs([number, sym]).rhs(&[sym]);
     }
     bnf.set_roots([sum]);
     bnf
-- 
2.43.0


From 908f6f6ef96fabc74694cf19e03a50695e5d771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 14/16] fix: only a nullable start symbol makes the empty input
 a sentence

has_trivial_derivation was true if any symbol could be empty, so a new
recognizer reported a finished parse for every grammar with an empty rule.
---
 gearley-default-grammar/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gearley-default-grammar/src/lib.rs b/gearley-default-grammar/src/lib.rs
index 75dc5d2..280366e 100644
--- a/gearley-default-grammar/src/lib.rs
+++ b/gearley-default-grammar/src/lib.rs
@@ -581,7 +581,9 @@ impl DefaultGrammar {
     }
 
     fn populate_nulling(&mut self, nulling: &Cfg) {
-        self.has_trivial_derivation = !nulling.is_empty();
+        self.has_trivial_derivation = nulling
+            .rules()
+            .any(|rule| self.to_internal(rule.lhs) == Some(self.original_start_sym));
         let iter_nulling_intermediate = nulling
             .rules()
             .filter_map(|rule| {
-- 
2.43.0


From e9e29b58752ccd8ee31344f3cfea6860d027ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 15/16] fix: the finished node of the empty input has an
 internal symbol

finished_node handed the external number of the start symbol to the forest,
whose nodes of empty symbols are numbered internally.
---
 gearley-recognizer/src/recognizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gearley-recognizer/src/recognizer.rs b/gearley-recognizer/src/recognizer.rs
index 90dee5a..986720c 100644
--- a/gearley-recognizer/src/recognizer.rs
+++ b/gearley-recognizer/src/recognizer.rs
@@ -348,7 +348,9 @@ where
     /// Panics when the parse has not finished at the current location.
     pub fn finished_node(&self) -> Option<F::NodeRef> {
         if self.grammar.has_trivial_derivation() && self.earleme() == !0 {
-            Some(self.forest.nulling(self.grammar.externalized_start_sym()))
+            self.grammar
+                .to_internal(self.grammar.externalized_start_sym())
+                .map(|start_sym| self.forest.nulling(start_sym))
         } else {
             let has_dot_before_eof = |item: &&Item<_>| item.dot == self.grammar.dot_before_eof();
             let item_node = |item: &Item<_>| item.node;
-- 
2.43.0


From 1a9255507310f69c7d8cdf2675776e802990001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 16/16] fix: let compact forests evaluate the node of an empty
 symbol

Traversal from a node that stands for an empty symbol panicked.
---
 compact-bocage/src/traverse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compact-bocage/src/traverse.rs b/compact-bocage/src/traverse.rs
index 4212c73..c49b735 100644
--- a/compact-bocage/src/traverse.rs
+++ b/compact-bocage/src/traverse.rs
@@ -107,6 +107,7 @@ impl Bocage {
                 },
                 _ => panic!("not found"),
             },
+            Node::NullingLeaf { .. } => root_node,
             _ => panic!("not found"),
         };
 
-- 
2.43.0

