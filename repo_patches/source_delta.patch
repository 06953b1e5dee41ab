From 1723250d4a84909818faf657d4c9b38aa3f4908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 1/7] fix: reject hash trie map degree one at construction

A map of degree one recursed without bound on its second insertion.
---
 src/map/hash_trie_map/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 4ded787..8798d95 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -750,6 +750,8 @@ where
         degree: u8,
     ) -> HashTrieMap<K, V, P, H> {
         assert!(degree.is_power_of_two(), "degree must be a power of two");
+        // With degree one a hash would never be consumed, so the trie would have no bounded height.
+        assert!(degree > 1, "degree must be greater than one");
         assert!(degree <= DEFAULT_DEGREE, "degree is too big");
 
         HashTrieMap {
-- 
2.43.0


From 70747098915b60cf7d08b704d2994307fdd88d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 2/7] fix: reject vector bits that do not fit in a word at
 construction

Such a vector panicked on the first push with overflow checks, and silently
lost elements without them.
---
 src/vector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 5a0d73b..a265675 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -294,6 +294,7 @@ where
     #[must_use]
     pub fn new_with_bits(bits: u8) -> Vector<T, P> {
         assert!(bits > 0, "number of bits for the vector must be positive");
+        assert!(u32::from(bits) < usize::BITS, "number of bits for the vector is too big");
 
         Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
     }
-- 
2.43.0


From 33afa2d0e9a25d27da48fae4f8faf0f952ea1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 3/7] fix: do not allocate for the upper size bound when
 collecting into a list

Collecting from an iterator with a huge upper bound (e.g. a take_while) panicked
with a capacity overflow.
---
 src/list/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1742738..2ad99c9 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -383,8 +383,9 @@ where
 {
     fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> List<T, P> {
         let iter = into_iter.into_iter();
-        let (min_size, max_size_hint) = iter.size_hint();
-        let mut vec: Vec<T> = Vec::with_capacity(max_size_hint.unwrap_or(min_size));
+        // The upper bound may be arbitrarily bigger than the actual number of elements.
+        let (min_size, _) = iter.size_hint();
+        let mut vec: Vec<T> = Vec::with_capacity(min_size);
 
         for e in iter {
             vec.push(e);
-- 
2.43.0


From cf2e6245267749bf1b5774f3841bb096ca20fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 4/7] fix: bound the preallocation when deserializing a list

A wrong size hint from the deserializer made it panic or abort.
---
 src/list/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 2ad99c9..a3885c7 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -471,6 +471,8 @@ pub mod serde {
     use core::fmt;
     use core::marker::PhantomData;
 
+    const MAX_PREALLOCATION: usize = 4096;
+
     impl<T, P> Serialize for List<T, P>
     where
         T: Serialize,
@@ -512,8 +514,9 @@ pub mod serde {
         where
             A: SeqAccess<'de>,
         {
+            // The hint can come from untrusted input, so we must not allocate an arbitrary amount.
             let mut vec: Vec<T> = if let Some(capacity) = seq.size_hint() {
-                Vec::with_capacity(capacity)
+                Vec::with_capacity(capacity.min(MAX_PREALLOCATION))
             } else {
                 Vec::new()
             };
-- 
2.43.0


From 0d8c2b06c0dca1801c69f078ea9ad840800e86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 5/7] fix: keep all colliding entries if a key comparison
 panics

The entries of a hash collision before the compared one were lost.
---
 src/map/hash_trie_map/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 8798d95..3d0a616 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -473,16 +473,16 @@ mod bucket_utils {
         list: &mut List<T, P>,
         predicate: F,
     ) -> Option<T> {
-        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());
+        // We find the needle before touching the list so that nothing is lost if `predicate` panics.
+        let needle: usize = list.iter().position(predicate)?;
+        let mut before_needle: Vec<T> = Vec::with_capacity(needle);
         let remaining: &mut List<T, P> = list;
         let mut removed = None;
 
-        while !remaining.is_empty() {
-            let e: T = remaining.first().unwrap().clone();
-
+        while let Some(e) = remaining.first().cloned() {
             remaining.drop_first_mut();
 
-            if predicate(&e) {
+            if before_needle.len() == needle {
                 removed = Some(e);
                 break;
             }
-- 
2.43.0


From e261fa644a2a3cc0f845d2bf304173824db423b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 6/7] fix: drop lists iteratively even when dropped
 concurrently

Two threads dropping lists that share a tail could end up dropping it
recursively, exhausting the stack.
---
 src/list/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index a3885c7..52f58fa 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -401,13 +401,15 @@ where
     }
 }
 
-// Drop the list iteratively to prevent stack overflow.
-impl<T, P> Drop for List<T, P>
+// Drop the list iteratively to prevent stack overflow.  This needs to be done by the node, and not by
+// the list, because if another thread drops a list that shares this node at the same time then
+// `try_unwrap()` can fail in both and the node is only dropped when the pointer itself is dropped.
+impl<T, P> Drop for Node<T, P>
 where
     P: SharedPointerKind,
 {
     fn drop(&mut self) {
-        let mut head = self.head.take();
+        let mut head = self.next.take();
         while let Some(node) = head {
             match SharedPointer::try_unwrap(node) {
                 Ok(mut node) => {
-- 
2.43.0


From deac7567abed4bbcd7857a1dc067e15783ffd27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 7/7] fix: debug-print lists iteratively

The derived implementation recursed once per node and exhausted the stack
with long lists.
---
 src/list/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 52f58fa..3203782 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -2,7 +2,7 @@ use alloc::vec::Vec;
 use archery::*;
 use core::borrow::Borrow;
 use core::cmp::Ordering;
-use core::fmt::Display;
+use core::fmt::{Debug, Display};
 use core::hash::{Hash, Hasher};
 use core::iter::FromIterator;
 
@@ -104,7 +104,6 @@ macro_rules! list_sync {
 ///
 /// This is your classic functional list with "cons" and "nil" nodes, with a little extra sauce to
 /// make some operations more efficient.
-#[derive(Debug)]
 pub struct List<T, P = RcK>
 where
     P: SharedPointerKind,
@@ -114,7 +113,6 @@ where
     length: usize,
 }
 
-#[derive(Debug)]
 struct Node<T, P>
 where
     P: SharedPointerKind,
@@ -365,6 +363,25 @@ where
     }
 }
 
+// Deriving this would make it recurse over the nodes, which overflows the stack with long lists.
+impl<T: Debug, P> Debug for List<T, P>
+where
+    P: SharedPointerKind,
+{
+    fn fmt(&self, fmt: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        fmt.debug_list().entries(self).finish()
+    }
+}
+
+impl<T: Debug, P> Debug for Node<T, P>
+where
+    P: SharedPointerKind,
+{
+    fn fmt(&self, fmt: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        fmt.debug_struct("Node").field("value", &self.value).finish_non_exhaustive()
+    }
+}
+
 impl<'a, T, P> IntoIterator for &'a List<T, P>
 where
     P: SharedPointerKind,
-- 
2.43.0

