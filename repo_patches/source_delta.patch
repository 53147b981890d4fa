From 50b6dc309cb57e2f83aba8d0c812fb273a3ac58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:13 +0000
Subject: [PATCH 1/4] fix: do not iterate over elements of empty expressions
 with non-empty inner or outer dimensions

---
 src/expr/iter.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 6b59c3e..282f7f0 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -19,16 +19,26 @@ impl<E: Expression> Iter<E> {
     pub(crate) fn new(expr: E) -> Self {
         let outer_rank = expr.rank().saturating_sub(expr.inner_rank());
 
+        // If there are no elements, neither inner nor outer dimensions must be iterated over.
+        let is_empty = expr.shape().with_dims(|dims| dims.contains(&0));
+
         let inner_index = 0;
-        let inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        let inner_limit = if is_empty {
+            0
+        } else {
+            expr.shape().with_dims(|dims| dims[outer_rank..].iter().product())
+        };
 
         let mut outer_index = Default::default();
         let mut outer_limit = Default::default();
 
         if outer_rank > 0 {
             outer_index = Dims::new(expr.rank());
-            outer_limit =
-                expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
+            outer_limit = if is_empty {
+                Dims::new(expr.rank())
+            } else {
+                expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"))
+            };
         }
 
         Self { expr, inner_index, inner_limit, outer_index, outer_limit }
-- 
2.43.0


From 6ed538f4ce5ffb46941deaa50c28dcf7ab816792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:13 +0000
Subject: [PATCH 2/4] fix: make array iterators fused and give zero remaining
 length after the last element

---
 src/expr/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 282f7f0..3ede255 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -67,7 +67,10 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        self.outer_index.as_mut().fill(0); // Ensure that following calls return false.
+        // Ensure that following calls return false, and that no elements remain.
+        self.outer_limit.as_mut().fill(0);
+        self.inner_index = 0;
+        self.inner_limit = 0;
 
         false
     }
-- 
2.43.0


From 33bb38e08eff5d0e78ea158cb6750820796ffb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:13 +0000
Subject: [PATCH 3/4] fix: include the outer dimensions in the offset of array
 lanes

---
 src/expr/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index e8bb131..ceb2eb2 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -439,7 +439,7 @@ macro_rules! impl_lanes {
             }
 
             unsafe fn get_unchecked(&mut self, index: usize) -> Self::Item {
-                let offset = self.mapping.inner_stride() * index as isize;
+                let offset = self.offset + self.mapping.inner_stride() * index as isize;
                 let mapping = self.axis.get(self.slice.mapping());
 
                 // If the view is empty, we must not offset the pointer.
-- 
2.43.0


From afb9b85dbb50334ec606ff312e9ae0363379b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:17 +0000
Subject: [PATCH 4/4] fix: allow dynamic rank in expressions and arrays created
 from a function

---
 src/expr/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index ceb2eb2..b9f5844 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -1,5 +1,6 @@
 use std::fmt::{Debug, Formatter, Result};
 
+use crate::dim::Dims;
 use crate::expr::expression::Expression;
 use crate::expr::iter::Iter;
 use crate::index::{Axis, Keep, Split};
@@ -350,7 +351,9 @@ impl<S: Shape, F> FromFn<S, F> {
     pub(crate) fn new(shape: S, f: F) -> Self {
         _ = shape.checked_len().expect("invalid length");
 
-        Self { shape, f, index: S::Dims::default() }
+        let index = S::Dims::new(shape.rank());
+
+        Self { shape, f, index }
     }
 }
 
-- 
2.43.0

