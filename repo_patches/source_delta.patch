From 5498d825c2227f78dde1a7334c8a890c45981bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 1/7] fix: keep the root hash current after writes through lent
 references

Map::get_mut, OccupiedEntry::get_mut/into_mut (and the Entry methods built on
them) and RbTree::insert hand out a &mut V after the hashes on the path to it
were computed, so a write through it left the root hash and witnesses stale.
Remember the lent node and recompute its path before the hashes are next used.
---
 src/collections/map.rs |  2 +-
 src/rbtree.rs          | 79 +++++++++++++++++++++++++++++++++++-------
 src/rbtree/entry.rs    |  2 ++
 3 files changed, 70 insertions(+), 13 deletions(-)

diff --git a/src/collections/map.rs b/src/collections/map.rs
index e29a038..fe94888 100644
--- a/src/collections/map.rs
+++ b/src/collections/map.rs
@@ -86,7 +86,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Map<K, V> {
         K: Borrow<Q>,
         Q: Ord,
     {
-        self.inner.modify(key, |v| v)
+        self.inner.get_mut(key)
     }
 
     /// Return the value associated with the given key.
diff --git a/src/rbtree.rs b/src/rbtree.rs
index 2345d59..efc621e 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -6,6 +6,7 @@
 //! [crate::collections] module.
 
 use std::borrow::{Borrow, Cow};
+use std::cell::Cell;
 use std::cmp::Ordering;
 use std::cmp::Ordering::{Equal, Greater, Less};
 use std::fmt;
@@ -41,6 +42,7 @@ impl Color {
 impl<K: 'static + Label, V: AsHashTree + 'static> AsHashTree for RbTree<K, V> {
     #[inline]
     fn root_hash(&self) -> Hash {
+        self.refresh_lent();
         if self.root.is_null() {
             Empty.reconstruct()
         } else {
@@ -247,6 +249,10 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
 pub struct RbTree<K: 'static + Label, V: AsHashTree + 'static> {
     len: usize,
     root: *mut Node<K, V>,
+
+    /// The node whose value was last lent out as a `&mut V`, or null. The value may have
+    /// been changed since the hashes were computed, see [`Self::refresh_lent`].
+    lent: Cell<*mut Node<K, V>>,
 }
 
 impl<K: 'static + Label, V: AsHashTree + 'static> Drop for RbTree<K, V> {
@@ -269,6 +275,25 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         Self {
             len: 0,
             root: Node::null(),
+            lent: Cell::new(Node::null()),
+        }
+    }
+
+    /// Recompute the hashes on the path to the value that was last lent out. Everything
+    /// that uses the cached hashes, or changes the tree, has to call this first.
+    fn refresh_lent(&self) {
+        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(h: *mut Node<K, V>, key: &K) {
+            match key.cmp(&(*h).key) {
+                Equal => {}
+                Less => go((*h).left, key),
+                Greater => go((*h).right, key),
+            }
+            (*h).subtree_hash = Node::subtree_hash(h);
+        }
+
+        let lent = self.lent.replace(Node::null());
+        if !lent.is_null() {
+            unsafe { go(self.root, &(*lent).key) }
         }
     }
 
@@ -283,6 +308,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
     }
 
     pub fn entry(&mut self, key: K) -> entry::Entry<K, V> {
+        self.refresh_lent();
         let node = unsafe { self.get_node(&key) };
 
         if node.is_null() {
@@ -331,10 +357,14 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
     }
 
     #[inline]
-    unsafe fn get_node(&self, key: &K) -> *mut Node<K, V> {
+    unsafe fn get_node<Q: ?Sized>(&self, key: &Q) -> *mut Node<K, V>
+    where
+        K: Borrow<Q>,
+        Q: Ord,
+    {
         let mut root = self.root;
         while !root.is_null() {
-            match key.cmp(&(*root).key) {
+            match key.cmp((*root).key.borrow()) {
                 Equal => return root,
                 Less => root = (*root).left,
                 Greater => root = (*root).right,
@@ -343,6 +373,24 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         Node::null()
     }
 
+    /// Returns a mutable reference to the value corresponding to the specified key.
+    #[inline]
+    pub fn get_mut<Q: ?Sized>(&mut self, key: &Q) -> Option<&mut V>
+    where
+        K: Borrow<Q>,
+        Q: Ord,
+    {
+        self.refresh_lent();
+        unsafe {
+            let node = self.get_node(key);
+            if node.is_null() {
+                return None;
+            }
+            self.lent.set(node);
+            Some(&mut (*node).value)
+        }
+    }
+
     /// Updates the value corresponding to the specified key.
     #[inline]
     pub fn modify<'a, Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&'a mut V) -> T) -> Option<T>
@@ -381,6 +429,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                 }
             }
         }
+        self.refresh_lent();
         unsafe { go(self.root, key, f) }
     }
 
@@ -436,6 +485,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             res
         }
 
+        self.refresh_lent();
         unsafe { go(self.root, prefix, f).0 }
     }
 
@@ -475,6 +525,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         right: Option<KeyBound<'a, K>>,
         f: unsafe fn(*mut Node<K, V>) -> HashTree<'a>,
     ) -> HashTree<'a> {
+        self.refresh_lent();
         match (left, right) {
             (None, None) => unsafe { Node::full_witness_tree(self.root, f) },
             (Some(l), None) => self.witness_range_above(l, f),
@@ -870,59 +921,61 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                 }
             }
         }
+        self.refresh_lent();
         unsafe { go(self.root, key, f) }
     }
 
     /// Inserts a key-value entry into the map.
     #[inline]
     pub fn insert(&mut self, key: K, value: V) -> (Option<V>, &mut V) {
-        struct GoResult<'a, K, V> {
+        struct GoResult<K, V> {
             node: *mut Node<K, V>,
             old_value: Option<V>,
-            new_value_ref: &'a mut V,
+            target: *mut Node<K, V>,
         }
 
         unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(
             mut h: *mut Node<K, V>,
             k: K,
             mut v: V,
-        ) -> GoResult<'static, K, V> {
+        ) -> GoResult<K, V> {
             if h.is_null() {
                 let node = Node::new(k, v);
                 return GoResult {
                     node,
                     old_value: None,
-                    new_value_ref: &mut (*node).value,
+                    target: node,
                 };
             }
 
-            let (old_value, new_value_ref) = match k.cmp(&(*h).key) {
+            let (old_value, target) = match k.cmp(&(*h).key) {
                 Equal => {
                     std::mem::swap(&mut (*h).value, &mut v);
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (Some(v), &mut (*h).value)
+                    (Some(v), h)
                 }
                 Less => {
                     let res = go((*h).left, k, v);
                     (*h).left = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (res.old_value, res.new_value_ref)
+                    (res.old_value, res.target)
                 }
                 Greater => {
                     let res = go((*h).right, k, v);
                     (*h).right = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (res.old_value, res.new_value_ref)
+                    (res.old_value, res.target)
                 }
             };
 
             GoResult {
                 node: balance(h),
                 old_value,
-                new_value_ref,
+                target,
             }
         }
 
+        self.refresh_lent();
         unsafe {
             let mut result = go(self.root, key, value);
             (*result.node).color = Color::Black;
@@ -941,7 +994,8 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             }
 
             self.root = result.node;
-            (result.old_value, result.new_value_ref)
+            self.lent.set(result.target);
+            (result.old_value, &mut (*result.target).value)
         }
     }
 
@@ -1043,6 +1097,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             balance(h)
         }
 
+        self.refresh_lent();
         unsafe {
             self.get(key)?;
             if !is_red((*self.root).left) && !is_red((*self.root).right) {
diff --git a/src/rbtree/entry.rs b/src/rbtree/entry.rs
index 216f42c..3ec3bbc 100644
--- a/src/rbtree/entry.rs
+++ b/src/rbtree/entry.rs
@@ -63,6 +63,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`into_mut`]: OccupiedEntry::into_mut
     #[inline]
     pub fn get_mut(&mut self) -> &mut V {
+        self.map.lent.set(self.node);
         unsafe { &mut (*self.node).value }
     }
 
@@ -73,6 +74,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`get_mut`]: OccupiedEntry::get_mut
     #[inline]
     pub fn into_mut(self) -> &'a mut V {
+        self.map.lent.set(self.node);
         unsafe { &mut (*self.node).value }
     }
 
-- 
2.43.0


From b34a41457434806596dcc3d37ffe6c542acf6758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 2/7] fix: do not let modify closures leak the mutable
 reference

The closure of RbTree::modify and modify_max_with_prefix received a reference of
a caller-chosen lifetime, so it could return it: safe code could then change the
value after the hashes were computed, or keep it after the entry was removed.
---
 src/rbtree.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index efc621e..89a3eed 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -393,15 +393,15 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Updates the value corresponding to the specified key.
     #[inline]
-    pub fn modify<'a, Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&'a mut V) -> T) -> Option<T>
+    pub fn modify<Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&mut V) -> T) -> Option<T>
     where
         K: Borrow<Q>,
         Q: Ord,
     {
-        unsafe fn go<'a, K: 'static + Label, V: AsHashTree + 'static, T, Q: ?Sized>(
+        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static, T, Q: ?Sized>(
             mut h: *mut Node<K, V>,
             k: &Q,
-            f: impl FnOnce(&'a mut V) -> T,
+            f: impl FnOnce(&mut V) -> T,
         ) -> Option<T>
         where
             K: Borrow<Q>,
@@ -435,9 +435,9 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Modify the maximum node with the given prefix.
     pub fn modify_max_with_prefix<'a, P: ?Sized, T>(
-        &mut self,
+        &'a mut self,
         prefix: &P,
-        f: impl FnOnce(&'a K, &'a mut V) -> T,
+        f: impl FnOnce(&'a K, &mut V) -> T,
     ) -> Option<T>
     where
         K: Prefix<P>,
@@ -449,7 +449,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             V: AsHashTree + 'static,
             P: ?Sized,
             T,
-            F: FnOnce(&'a K, &'a mut V) -> T,
+            F: FnOnce(&'a K, &mut V) -> T,
         >(
             mut h: *mut Node<K, V>,
             prefix: &P,
-- 
2.43.0


From 53f48d8f572c7f852bb4c31bd408909925f0dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 3/7] fix: start prefix witnesses at the smallest key equal to
 the prefix

With composite keys several keys can compare equal to a prefix. lower_bound
returned whichever of them came first on the path from the root, so
keys_with_prefix could hide the smaller ones.
---
 src/rbtree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 89a3eed..41ed9b3 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -816,7 +816,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             let node_key = &(*n).key;
             match node_key.borrow().cmp(key) {
                 Less => go((*n).right, key).or(Some(KeyBound::Neighbor(node_key))),
-                Equal => Some(KeyBound::Exact(node_key)),
+                // Several keys can be equal to a prefix, find the smallest one of them.
+                Equal => match go((*n).left, key) {
+                    Some(KeyBound::Exact(k)) => Some(KeyBound::Exact(k)),
+                    _ => Some(KeyBound::Exact(node_key)),
+                },
                 Greater => go((*n).left, key),
             }
         }
-- 
2.43.0


From 79d67b5a13cbb0a315965f586ff67797498f5389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 4/7] fix: do not truncate page numbers in Paged::get and
 Paged::witness

A page number above u32::MAX was cut to 32 bits, so it returned (and proved) a
different page.
---
 src/collections/paged.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index c888db2..1990ee6 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -3,6 +3,7 @@ use crate::{AsHashTree, Hash, HashTree, Map, Seq};
 use candid::CandidType;
 use serde::{Deserialize, Serialize};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
 pub struct Paged<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> {
@@ -92,7 +93,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     }
 
     pub fn get(&self, key: &K, page: usize) -> Option<&Seq<V>> {
-        let page = page as u32;
+        let page = u32::try_from(page).ok()?;
         let key = (key, page);
         self.data.inner.get_with(|k| key.cmp(&(&k.key, k.page)))
     }
@@ -104,7 +105,8 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     {
         let key = PagedKey {
             key: key.clone(),
-            page: page as u32,
+            // A page that does not fit can not exist, and neither does the last page.
+            page: u32::try_from(page).unwrap_or(u32::MAX),
         };
         self.data.witness(&key)
     }
-- 
2.43.0


From 11b418131a1a633956dcc3e7758d0f287329fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 5/7] fix: close prefix witnesses off with the neighbour on the
 left

When several keys are equal to a prefix (composite keys) the smallest of them
does not bound the witness: keys in front of it were hidden in the same pruned
subtree as a key that would have the prefix, and with an inner tree root among
the equal keys the smaller ones were left out. Use the nearest smaller key, as
is done on the right; lower_bound is left as it was.
---
 src/rbtree.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 41ed9b3..3c27ef2 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -621,7 +621,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         P: Ord,
     {
         self.range_witness(
-            self.lower_bound(prefix),
+            self.left_prefix_neighbor(prefix),
             self.right_prefix_neighbor(prefix),
             Node::witness_tree,
         )
@@ -816,11 +816,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             let node_key = &(*n).key;
             match node_key.borrow().cmp(key) {
                 Less => go((*n).right, key).or(Some(KeyBound::Neighbor(node_key))),
-                // Several keys can be equal to a prefix, find the smallest one of them.
-                Equal => match go((*n).left, key) {
-                    Some(KeyBound::Exact(k)) => Some(KeyBound::Exact(k)),
-                    _ => Some(KeyBound::Exact(node_key)),
-                },
+                Equal => Some(KeyBound::Exact(node_key)),
                 Greater => go((*n).left, key),
             }
         }
@@ -853,6 +849,32 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         unsafe { go(self.root, key) }
     }
 
+    // Several keys can be equal to a prefix, so the neighbour is what closes the witness off.
+    fn left_prefix_neighbor<P: ?Sized>(&self, prefix: &P) -> Option<KeyBound<'_, K>>
+    where
+        K: Prefix<P>,
+        P: Ord,
+    {
+        unsafe fn go<'a, K: 'static + Label, V, P: ?Sized>(
+            n: *mut Node<K, V>,
+            prefix: &P,
+        ) -> Option<KeyBound<'a, K>>
+        where
+            K: Prefix<P>,
+            P: Ord,
+        {
+            if n.is_null() {
+                return None;
+            }
+            let node_key = &(*n).key;
+            match node_key.borrow().cmp(prefix) {
+                Less => go((*n).right, prefix).or(Some(KeyBound::Neighbor(node_key))),
+                Equal | Greater => go((*n).left, prefix),
+            }
+        }
+        unsafe { go(self.root, prefix) }
+    }
+
     fn right_prefix_neighbor<P: ?Sized>(&self, prefix: &P) -> Option<KeyBound<'_, K>>
     where
         K: Prefix<P>,
-- 
2.43.0


From 2fc0f214b9d7eb086dde20861665eaa26a45299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 6/7] fix: hash the items of an extended sequence as they are
 added

When the iterator, or the hash of an item, panicked in the middle of
Seq::extend, items were left in the sequence that its hash did not cover.
---
 src/collections/seq.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collections/seq.rs b/src/collections/seq.rs
index d7ce6f9..5c38b1c 100644
--- a/src/collections/seq.rs
+++ b/src/collections/seq.rs
@@ -195,18 +195,18 @@ impl<T: AsHashTree> Borrow<[T]> for Seq<T> {
 impl<'a, T: AsHashTree + Copy + 'a> Extend<&'a T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        for item in iter {
+            self.append(*item);
+        }
     }
 }
 
 impl<T: AsHashTree> Extend<T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        for item in iter {
+            self.append(item);
+        }
     }
 }
 
-- 
2.43.0


From 259d16f4aa106d81b1ad1bb66022a1fb487cd1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 7/7] fix: keep maps whole and their hashes right when the
 caller's code panics

A panic in a closure passed to modify or modify_max_with_prefix left a
changed value that the root hash did not account for. A panic in a
comparison, label or hash while nodes were rearranged left a broken tree,
in delete one with a node that had been freed already; the tree is now
taken out of the map in the meantime.
---
 src/rbtree.rs | 101 ++++++++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 57 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 3c27ef2..71dca06 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -291,12 +291,20 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             (*h).subtree_hash = Node::subtree_hash(h);
         }
 
-        let lent = self.lent.replace(Node::null());
+        let lent = self.lent.get();
         if !lent.is_null() {
             unsafe { go(self.root, &(*lent).key) }
+            self.lent.set(Node::null());
         }
     }
 
+    /// Take the nodes out of the map while they are rearranged: when a comparison, a label or
+    /// a hash panics in the middle of it, the map is left empty and not broken.
+    fn take_root(&mut self) -> *mut Node<K, V> {
+        self.len = 0;
+        std::mem::replace(&mut self.root, Node::null())
+    }
+
     #[inline]
     pub fn len(&self) -> usize {
         self.len
@@ -398,39 +406,9 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         K: Borrow<Q>,
         Q: Ord,
     {
-        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static, T, Q: ?Sized>(
-            mut h: *mut Node<K, V>,
-            k: &Q,
-            f: impl FnOnce(&mut V) -> T,
-        ) -> Option<T>
-        where
-            K: Borrow<Q>,
-            Q: Ord,
-        {
-            if h.is_null() {
-                return None;
-            }
-
-            match k.cmp((*h).key.borrow()) {
-                Equal => {
-                    let res = f(&mut (*h).value);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    Some(res)
-                }
-                Less => {
-                    let res = go((*h).left, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-                Greater => {
-                    let res = go((*h).right, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-            }
-        }
+        let res = f(self.get_mut(key)?);
         self.refresh_lent();
-        unsafe { go(self.root, key, f) }
+        Some(res)
     }
 
     /// Modify the maximum node with the given prefix.
@@ -454,6 +432,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             mut h: *mut Node<K, V>,
             prefix: &P,
             f: F,
+            lent: &Cell<*mut Node<K, V>>,
         ) -> (Option<T>, Option<F>)
         where
             K: Prefix<P>,
@@ -467,26 +446,27 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             let key_prefix = node_key.borrow();
 
             let res = match key_prefix.cmp(prefix) {
-                Greater | Equal if node_key.is_prefix(prefix) => match go((*h).right, prefix, f) {
-                    (None, Some(f)) => {
-                        let ret = f(node_key, &mut (*h).value);
-                        (Some(ret), None)
+                Greater | Equal if node_key.is_prefix(prefix) => {
+                    match go((*h).right, prefix, f, lent) {
+                        (None, Some(f)) => {
+                            lent.set(h);
+                            let ret = f(node_key, &mut (*h).value);
+                            (Some(ret), None)
+                        }
+                        ret => ret,
                     }
-                    ret => ret,
-                },
-                Greater => go((*h).left, prefix, f),
-                Less | Equal => go((*h).right, prefix, f),
+                }
+                Greater => go((*h).left, prefix, f, lent),
+                Less | Equal => go((*h).right, prefix, f, lent),
             };
 
-            if res.0.is_some() {
-                (*h).subtree_hash = Node::subtree_hash(h);
-            }
-
             res
         }
 
         self.refresh_lent();
-        unsafe { go(self.root, prefix, f).0 }
+        let res = unsafe { go(self.root, prefix, f, &self.lent).0 };
+        self.refresh_lent();
+        res
     }
 
     pub fn max_entry_with_prefix<P: ?Sized>(&self, prefix: &P) -> Option<(&K, &V)>
@@ -964,9 +944,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             mut h: *mut Node<K, V>,
             k: K,
             mut v: V,
+            map: &mut RbTree<K, V>,
         ) -> GoResult<K, V> {
             if h.is_null() {
                 let node = Node::new(k, v);
+                map.take_root();
                 return GoResult {
                     node,
                     old_value: None,
@@ -976,18 +958,19 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
             let (old_value, target) = match k.cmp(&(*h).key) {
                 Equal => {
+                    map.take_root();
                     std::mem::swap(&mut (*h).value, &mut v);
                     (*h).subtree_hash = Node::subtree_hash(h);
                     (Some(v), h)
                 }
                 Less => {
-                    let res = go((*h).left, k, v);
+                    let res = go((*h).left, k, v, map);
                     (*h).left = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
                     (res.old_value, res.target)
                 }
                 Greater => {
-                    let res = go((*h).right, k, v);
+                    let res = go((*h).right, k, v, map);
                     (*h).right = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
                     (res.old_value, res.target)
@@ -1003,7 +986,8 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
         self.refresh_lent();
         unsafe {
-            let mut result = go(self.root, key, value);
+            let len = self.len;
+            let mut result = go(self.root, key, value, self);
             (*result.node).color = Color::Black;
 
             #[cfg(test)]
@@ -1015,10 +999,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             #[cfg(test)]
             debug_assert!(!has_dangling_pointers(result.node));
 
-            if result.old_value.is_none() {
-                self.len += 1;
-            }
-
+            self.len = if result.old_value.is_none() {
+                len + 1
+            } else {
+                len
+            };
             self.root = result.node;
             self.lent.set(result.target);
             (result.old_value, &mut (*result.target).value)
@@ -1126,12 +1111,14 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         self.refresh_lent();
         unsafe {
             self.get(key)?;
-            if !is_red((*self.root).left) && !is_red((*self.root).right) {
-                (*self.root).color = Color::Red;
+            let len = self.len;
+            let root = self.take_root();
+            if !is_red((*root).left) && !is_red((*root).right) {
+                (*root).color = Color::Red;
             }
 
             let mut result = None;
-            self.root = go(self.root, &mut result, key);
+            self.root = go(root, &mut result, key);
             if !self.root.is_null() {
                 (*self.root).color = Color::Black;
             }
@@ -1145,7 +1132,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
             #[cfg(test)]
             debug_assert!(result.is_some());
-            self.len -= 1;
+            self.len = len - 1;
 
             debug_assert!(self.get(key).is_none());
             result
-- 
2.43.0

