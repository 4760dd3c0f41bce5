From 10c29601125e341c6234689fadbbe2fa953ae94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 01/10] fix: depth-first leaves() part-way through a traversal
 dropped leaves below the old stack

---
 tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
index 3acbce6..6995f89 100644
--- a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
@@ -34,7 +34,8 @@ macro_rules! dfs_postorder_leaves_next {
                     if let Some(node) = next_iter.next() {
                         let (value, children) = node.$get_value_and_children();
                         self.item_stack.push(value);
-                        self.traversal_stack_top.push(children.into_iter())
+                        self.traversal_stack_top.push(children.into_iter());
+                        just_added = true;
                     } else {
                         self.traversal_stack_bottom.pop();
                     }
-- 
2.43.0


From b011b0c90f0b7c1fa952b42da73ec5cbe3e5788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 02/10] fix: map_path passed the previous node's (possibly
 dangling) path to its closure

---
 .../src/tree_collection_iterators/map_path.rs              | 5 ++---
 tree_iterators_rs/src/tree_iterators/map_path.rs           | 7 ++-----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
index 293eeaf..6fac816 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
@@ -37,9 +37,8 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = unsafe { &*(self.current_path() as *const [usize]) };
-        self.inner.next().map(|value| (self.f)(path, value))
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
diff --git a/tree_iterators_rs/src/tree_iterators/map_path.rs b/tree_iterators_rs/src/tree_iterators/map_path.rs
index 4c36137..b9bed17 100644
--- a/tree_iterators_rs/src/tree_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/map_path.rs
@@ -37,11 +37,8 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = self.current_path() as *const [usize];
-        self.inner
-            .next()
-            .map(|value| (self.f)(unsafe { &*path }, value))
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
-- 
2.43.0


From 3be6a0de5df913e49d89ceea3601daf915ddc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 03/10] fix: current_path after n-ary prune stages was not the
 node's path in the pruned tree

---
 .../src/tree_collection_iterators/prune.rs    | 32 +++++++------------
 .../tree_collection_iterators/prune_path.rs   | 32 +++++++------------
 tree_iterators_rs/src/tree_iterators/prune.rs | 32 +++++++------------
 .../src/tree_iterators/prune_path.rs          | 32 +++++++------------
 4 files changed, 44 insertions(+), 84 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune.rs b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
index 34f62d0..b3e5a64 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
@@ -43,32 +43,22 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
+            let inner_path = self.inner.current_path();
+            let inner_path_len = inner_path.len();
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            self.pruned_at_each_depth.resize(inner_path_len, 0);
+            self.current_path.resize(inner_path_len, 0);
+
+            // Our position amongst our siblings is the inner position minus the
+            // siblings we have pruned so far.
+            if let Some(inner_index) = inner_path.last() {
+                self.current_path[inner_path_len - 1] =
+                    inner_index.saturating_sub(self.pruned_at_each_depth[inner_path_len - 1]);
             }
 
             if (self.f)(&item) {
                 self.prune_current_subtree();
-                let current_depth = self.current_path().len();
-                if current_depth > 0 {
-                    let pruned_at_current_depth = &mut self.pruned_at_each_depth[current_depth - 1];
+                if let Some(pruned_at_current_depth) = self.pruned_at_each_depth.last_mut() {
                     *pruned_at_current_depth += 1;
                 }
                 continue;
diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
index d32eaa0..5e02519 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
@@ -48,32 +48,22 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
+            let inner_path = self.inner.current_path();
+            let inner_path_len = inner_path.len();
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            self.pruned_at_each_depth.resize(inner_path_len, 0);
+            self.current_path.resize(inner_path_len, 0);
+
+            // Our position amongst our siblings is the inner position minus the
+            // siblings we have pruned so far.
+            if let Some(inner_index) = inner_path.last() {
+                self.current_path[inner_path_len - 1] =
+                    inner_index.saturating_sub(self.pruned_at_each_depth[inner_path_len - 1]);
             }
 
             if (self.f)(self.inner.current_path(), &item) {
                 self.prune_current_subtree();
-                let current_depth = self.current_path().len();
-                if current_depth > 0 {
-                    let pruned_at_current_depth = &mut self.pruned_at_each_depth[current_depth - 1];
+                if let Some(pruned_at_current_depth) = self.pruned_at_each_depth.last_mut() {
                     *pruned_at_current_depth += 1;
                 }
                 continue;
diff --git a/tree_iterators_rs/src/tree_iterators/prune.rs b/tree_iterators_rs/src/tree_iterators/prune.rs
index 6af5b61..fb44d21 100644
--- a/tree_iterators_rs/src/tree_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune.rs
@@ -43,32 +43,22 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_path_len = self.inner.current_path().len();
-
-            if self.pruned_at_each_depth.len() < inner_path_len {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_path_len {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_path_len {
-                self.pruned_at_each_depth.truncate(inner_path_len);
-                self.current_path.truncate(inner_path_len);
+            let inner_path = self.inner.current_path();
+            let inner_path_len = inner_path.len();
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            self.pruned_at_each_depth.resize(inner_path_len, 0);
+            self.current_path.resize(inner_path_len, 0);
+
+            // Our position amongst our siblings is the inner position minus the
+            // siblings we have pruned so far.
+            if let Some(inner_index) = inner_path.last() {
+                self.current_path[inner_path_len - 1] =
+                    inner_index.saturating_sub(self.pruned_at_each_depth[inner_path_len - 1]);
             }
 
             if (self.f)(&item) {
                 self.prune_current_subtree();
-                let current_depth = self.current_depth();
-                if current_depth > 0 {
-                    let pruned_at_current_depth = &mut self.pruned_at_each_depth[current_depth - 1];
+                if let Some(pruned_at_current_depth) = self.pruned_at_each_depth.last_mut() {
                     *pruned_at_current_depth += 1;
                 }
                 continue;
diff --git a/tree_iterators_rs/src/tree_iterators/prune_path.rs b/tree_iterators_rs/src/tree_iterators/prune_path.rs
index 1d53054..3df7a9b 100644
--- a/tree_iterators_rs/src/tree_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune_path.rs
@@ -43,32 +43,22 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(item) = self.inner.next() {
-            let inner_depth = self.inner.current_depth();
-
-            if self.pruned_at_each_depth.len() < inner_depth {
-                // Technically, this only needs to be a single .push() call on each collection,
-                // but putting it in a loop will prevent panics if inner is implemented incorrectly.
-                loop {
-                    self.pruned_at_each_depth.push(0);
-                    self.current_path.push(0);
-                    if self.pruned_at_each_depth.len() == inner_depth {
-                        break;
-                    }
-                }
-            } else if self.pruned_at_each_depth.len() > inner_depth {
-                self.pruned_at_each_depth.truncate(inner_depth);
-                self.current_path.truncate(inner_depth);
+            let inner_path = self.inner.current_path();
+            let inner_path_len = inner_path.len();
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            self.pruned_at_each_depth.resize(inner_path_len, 0);
+            self.current_path.resize(inner_path_len, 0);
+
+            // Our position amongst our siblings is the inner position minus the
+            // siblings we have pruned so far.
+            if let Some(inner_index) = inner_path.last() {
+                self.current_path[inner_path_len - 1] =
+                    inner_index.saturating_sub(self.pruned_at_each_depth[inner_path_len - 1]);
             }
 
             if (self.f)(self.inner.current_path(), &item) {
                 self.prune_current_subtree();
-                let current_depth = self.current_depth();
-                if current_depth > 0 {
-                    let pruned_at_current_depth = &mut self.pruned_at_each_depth[current_depth - 1];
+                if let Some(pruned_at_current_depth) = self.pruned_at_each_depth.last_mut() {
                     *pruned_at_current_depth += 1;
                 }
                 continue;
-- 
2.43.0


From de1647f1079a01ebd2bc6dc4d3579d9dee82bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 04/10] fix: breadth-first ancestor/context traversals leaked
 parked values when dropped early

---
 tree_iterators_rs/src/bfs_iterators/mod.rs    | 24 ++++++++-----------
 .../ancestors_breadth_first/mod.rs            |  7 +++---
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 2ba830c..d942bd9 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -129,10 +129,8 @@ macro_rules! bfs_context_advance_iterator {
                 };
 
                 if let Some(mut value) = child {
-                    self.current_context
-                        .ancestors
-                        .push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    let ancestor = value.value.take().unwrap();
+                    self.current_context.ancestors.push(ancestor);
 
                     self.current_context.path.push(value.path_segment);
 
@@ -157,8 +155,7 @@ macro_rules! bfs_context_advance_iterator {
 
                 if self.current_context.ancestors.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value =
-                        core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap());
+                    target.value = self.current_context.ancestors.pop();
                     target.path_segment = self.current_context.path.pop().unwrap();
                 }
 
@@ -185,7 +182,7 @@ macro_rules! bfs_context_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap()),
+                value: self.current_context.ancestors.pop(),
                 path_segment: self.current_context.path.pop().unwrap(),
                 children: VecDeque::new(),
             }));
@@ -361,8 +358,7 @@ macro_rules! bfs_ancestors_advance_iterator {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack.push(value.value.take().unwrap());
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -383,7 +379,7 @@ macro_rules! bfs_ancestors_advance_iterator {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = self.item_stack.pop();
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -413,7 +409,7 @@ macro_rules! bfs_ancestors_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: self.item_stack.pop(),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
@@ -432,7 +428,7 @@ pub(crate) use get_mut_context;
 
 #[derive(Debug)]
 pub(crate) struct TreeNodeVecDeque<T> {
-    pub(crate) value: core::mem::MaybeUninit<T>,
+    pub(crate) value: Option<T>,
     pub(crate) path_segment: usize,
     pub(crate) children: alloc::collections::VecDeque<Option<Self>>,
 }
@@ -443,7 +439,7 @@ where
 {
     fn clone(&self) -> Self {
         Self {
-            value: core::mem::MaybeUninit::new(unsafe { self.value.assume_init_ref().clone() }),
+            value: self.value.clone(),
             path_segment: self.path_segment,
             children: self.children.clone(),
         }
@@ -453,7 +449,7 @@ where
 impl<T> Default for TreeNodeVecDeque<T> {
     fn default() -> Self {
         Self {
-            value: core::mem::MaybeUninit::uninit(),
+            value: None,
             path_segment: 0,
             children: alloc::collections::VecDeque::new(),
         }
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
index 668927b..401b297 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
@@ -22,8 +22,7 @@ macro_rules! bfs_next {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack.push(value.value.take().unwrap());
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -43,7 +42,7 @@ macro_rules! bfs_next {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = self.item_stack.pop();
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -70,7 +69,7 @@ macro_rules! bfs_next {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: self.item_stack.pop(),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
-- 
2.43.0


From f78f50aa6c4df6bbdc93a35fc3222ea88b33aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 05/10] fix: dropping a breadth-first ancestor/context
 traversal recursed once per tree level

---
 tree_iterators_rs/src/bfs_iterators/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index d942bd9..c3bfcb4 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -433,6 +433,19 @@ pub(crate) struct TreeNodeVecDeque<T> {
     pub(crate) children: alloc::collections::VecDeque<Option<Self>>,
 }
 
+impl<T> Drop for TreeNodeVecDeque<T> {
+    // The drop glue would recurse once per level of parked descendants, which
+    // overflows the stack on deep trees, so take the levels apart iteratively.
+    fn drop(&mut self) {
+        let mut pending = core::mem::take(&mut self.children);
+        while let Some(child) = pending.pop_front() {
+            if let Some(mut child) = child {
+                pending.append(&mut child.children);
+            }
+        }
+    }
+}
+
 impl<T> Clone for TreeNodeVecDeque<T>
 where
     T: Clone,
-- 
2.43.0


From 743dbfd22bea3f9aaf1ab14b1eecd92745f41047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 06/10] fix: attach_ancestors().leaves() part-way through a
 depth-first traversal reported wrong ancestors

---
 .../ancestors_depth_first/mod.rs              | 45 +++++++++----------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
index 1f79a09..6b023b4 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
@@ -11,45 +11,40 @@ macro_rules! streaming_leaves {
                 self.new_traversal_stack.push(children.into_iter());
                 self.item_stack.push(value);
                 pushed_another_iterator = true;
-            } else {
+            } else if self.item_stack.len()
+                > self.old_traversal_stack.len() + self.new_traversal_stack.len()
+            {
+                // the last item has already run out of children
                 self.item_stack.pop();
             }
 
             loop {
-                if let Some(new_stack_last) = self.new_traversal_stack.last_mut() {
-                    if let Some(node) = new_stack_last.next() {
-                        let (value, children) = node.$get_value_and_children();
-                        self.new_traversal_stack.push(children.into_iter());
-                        self.item_stack.push(value);
-                        pushed_another_iterator = true;
-                        continue;
-                    }
-                }
-
-                self.new_traversal_stack.pop();
-                if pushed_another_iterator {
+                let next = if let Some(new_stack_last) = self.new_traversal_stack.last_mut() {
+                    new_stack_last.next()
+                } else if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
+                    old_stack_last.next()
+                } else {
+                    self.item_stack.clear();
                     return;
+                };
+
+                if let Some(node) = next {
+                    let (value, children) = node.$get_value_and_children();
+                    self.new_traversal_stack.push(children.into_iter());
+                    self.item_stack.push(value);
+                    pushed_another_iterator = true;
+                    continue;
                 }
 
-                if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
-                    if let Some(node) = old_stack_last.next() {
-                        let (value, children) = node.$get_value_and_children();
-                        self.new_traversal_stack.push(children.into_iter());
-                        self.item_stack.push(value);
-                        pushed_another_iterator = true;
-                        continue;
-                    }
+                if self.new_traversal_stack.pop().is_none() {
+                    self.old_traversal_stack.pop();
                 }
 
-                self.old_traversal_stack.pop();
                 if pushed_another_iterator {
                     return;
                 }
 
                 self.item_stack.pop();
-                if self.item_stack.is_empty() {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From ff44953c40c1b708b1dff20bb87d53242b104d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 07/10] fix: in-order attach_ancestors().leaves() paired
 ancestors with the wrong right children

---
 .../src/dfs_inorder_iterators/borrow.rs            | 14 ++++++++++----
 .../src/dfs_inorder_iterators/mut_borrow.rs        | 14 ++++++++++----
 .../src/dfs_inorder_iterators/owned.rs             | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
index 3d91844..e77b4d7 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
@@ -148,15 +148,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            // not started yet (or already finished)
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            let mut rights = self.right_stack.into_iter();
+            // one iterator per ancestor, those that went right have used theirs up.
             old_traversal_stack = self
-                .right_stack
+                .status_stack
                 .into_iter()
-                .map(|opt| opt.into_iter())
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => rights.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
index e54cbdf..243cd70 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
@@ -152,15 +152,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            // not started yet (or already finished)
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            let mut rights = self.right_stack.into_iter();
+            // one iterator per ancestor, those that went right have used theirs up.
             old_traversal_stack = self
-                .right_stack
+                .status_stack
                 .into_iter()
-                .map(|opt| opt.into_iter())
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => rights.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
index 4757f64..b5e1656 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
@@ -148,15 +148,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.status_stack.is_empty() {
+            // not started yet (or already finished)
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            let mut rights = self.right_stack.into_iter();
+            // one iterator per ancestor, those that went right have used theirs up.
             old_traversal_stack = self
-                .right_stack
+                .status_stack
                 .into_iter()
-                .map(|opt| opt.into_iter())
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => rights.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
-- 
2.43.0


From d0780c7017a4ee48cbbb11ef872af3d282b6a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 08/10] fix: an exhausted forest iterator accepted
 attach_context

---
 tree_iterators_rs/src/collection_iterators.rs | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/tree_iterators_rs/src/collection_iterators.rs b/tree_iterators_rs/src/collection_iterators.rs
index 0fcba7a..1efdd7b 100644
--- a/tree_iterators_rs/src/collection_iterators.rs
+++ b/tree_iterators_rs/src/collection_iterators.rs
@@ -38,12 +38,10 @@ macro_rules! owned_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // When there are no more trees, hold on to the finished iterator
+                    // so that we still know the traversal has been started.
+                    let item = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(item));
                 }
             }
         }
@@ -453,12 +451,10 @@ macro_rules! mut_borrowed_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // When there are no more trees, hold on to the finished iterator
+                    // so that we still know the traversal has been started.
+                    let item = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(item));
                 }
             }
         }
@@ -677,12 +673,10 @@ macro_rules! borrowed_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // When there are no more trees, hold on to the finished iterator
+                    // so that we still know the traversal has been started.
+                    let item = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(item));
                 }
             }
         }
-- 
2.43.0


From 24bccf975d495d64c9260c035a7ba95ef03e51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 09/10] fix: do not poll a leaf root's exhausted children
 iterator again after BFS ancestors leaves()

---
 .../src/leaves_iterators/ancestors_breadth_first/mod.rs        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
index 401b297..3048b85 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
@@ -121,6 +121,9 @@ macro_rules! streaming_leaves {
                     }
                 } else if self.is_root {
                     self.is_root = false;
+                    // The root is a leaf. Its children iterator is exhausted,
+                    // so it must not be polled again.
+                    self.iterator_queue.pop_front();
                     return;
                 }
 
-- 
2.43.0


From 07cf7c9a268cb5dcec44c2c9c0ba94d3b716f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 10/10] fix: in-order context by mutable reference takes the
 right child back from the context

The right child was kept as a raw pointer while a mutable reference to it was
handed out in TreeContext::children, so a caller who took the reference out
held it while the traversal went on using the same subtree (use after free if
the caller dropped part of it), and children replaced or removed through the
context were visited or not visited contrary to the documentation.
---
 .../src/dfs_inorder_iterators/mut_borrow.rs   | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
index 243cd70..62f8654 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
@@ -199,7 +199,7 @@ pub struct MutBorrowedDFSInorderIteratorWithContext<'a, Node>
 where
     Node: MutBorrowedBinaryTreeNode<'a>,
 {
-    right_stack: Vec<Option<*mut Node>>,
+    root: Option<&'a mut Node>,
     current_context: TreeContext<Node::MutBorrowedValue, [Option<&'a mut Node>; 2]>,
     into_iterator_stack: Vec<[Option<*mut Node>; 2]>,
     status_stack: Vec<TraversalStatus>,
@@ -213,9 +213,6 @@ where
         root: &'a mut Node,
         path: Vec<usize>,
     ) -> MutBorrowedDFSInorderIteratorWithContext<'a, Node> {
-        let mut right_stack = Vec::new();
-        right_stack.push(Some(root as *mut Node));
-
         let context = TreeContext {
             path,
             ancestors: Vec::new(),
@@ -223,7 +220,7 @@ where
         };
 
         Self {
-            right_stack,
+            root: Some(root),
             current_context: context,
             into_iterator_stack: Vec::new(),
             status_stack: Vec::new(),
@@ -238,7 +235,7 @@ where
     type Item = TreeContext<Node::MutBorrowedValue, [Option<&'a mut Node>; 2]>;
 
     fn advance(&mut self) {
-        let mut current = None;
+        let mut current = self.root.take();
         while current.is_none() {
             if let Some(last_status) = self.status_stack.last_mut() {
                 match last_status {
@@ -260,13 +257,16 @@ where
                     }
                     TraversalStatus::ReturnedSelf => {
                         *last_status = TraversalStatus::WentRight;
+                        // The right child was handed out to the caller as part of the
+                        // context, so it must be taken back from there. The caller may
+                        // have kept it for themselves or put another node in its place.
+                        current = self
+                            .current_context
+                            .children
+                            .take()
+                            .and_then(|[_, right]| right);
                     }
                 }
-            }
-
-            if let Some(top_of_right_stack) = self.right_stack.pop() {
-                current = top_of_right_stack;
-                continue;
             } else {
                 self.current_context.ancestors.clear();
                 return;
@@ -274,11 +274,9 @@ where
         }
 
         while let Some(current_val) = current {
-            let (value, children) = unsafe { &mut *current_val }.get_value_and_children_binary_iter_mut();
+            let (value, children) = current_val.get_value_and_children_binary_iter_mut();
 
             let [left, right] = children.map(|child_opt| child_opt.map(|child| child as *mut Node));
-            self.right_stack
-                .push(right.clone());
             self.into_iterator_stack.push([left, right]);
 
             self.current_context.ancestors.push(value);
@@ -290,7 +288,7 @@ where
                 Some(TraversalStatus::WentRight) => self.current_context.path.push(1),
             }
             self.status_stack.push(TraversalStatus::WentLeft);
-            current = left;
+            current = left.map(|left| unsafe { &mut *left });
         }
 
         let status_stack_len = self.status_stack.len();
-- 
2.43.0

