From a180aa03b4a1483c1029749739d8ccecbde618ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 1/3] fix: forward_by no longer wraps around on a huge offset

index + offset overflowed (a panic with overflow checks, otherwise a wrapped
index that moved backwards and was still reported as a successful step).
advance_by and forward_range_by already saturate; do the same here.
---
 src/container.rs | 2 +-
 src/indexing.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 2c54fb6..bf8efee 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -217,7 +217,7 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.len() {
             index.index = i;
             true
diff --git a/src/indexing.rs b/src/indexing.rs
index c701ab0..46b9283 100644
--- a/src/indexing.rs
+++ b/src/indexing.rs
@@ -265,7 +265,7 @@ impl<'id, P> Range<'id, P> {
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.end {
             index.index = i;
             true
-- 
2.43.0


From 1a5dfda9706f48381990841d061f31d8b18492d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 2/3] fix: scan_tail_ only accepts dereferenceable pointers

The resulting range always includes the element at the given pointer, so
an edge pointer (one past the end) produced a range reaching past the end
of the container. Require a NonEmpty pointer, like scan_from_rev does.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9a7168e..52b1972 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -306,7 +306,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
     ///
     /// Result always includes `index` in the range
     #[inline]
-    pub fn scan_tail_<P, F>(&self, index: PIndex<'id, T, P>, mut f: F) -> PRange<'id, T, P>
+    pub fn scan_tail_<F>(&self, index: PIndex<'id, T>, mut f: F) -> PRange<'id, T, NonEmpty>
         where F: FnMut(&T) -> bool
     {
         unsafe {
-- 
2.43.0


From 80910f0526858fa0632fbf546e55b88202a369ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 3/3] fix: split_container_at_pointer requires mutable storage

It hands out Container<&mut [T]>, but was available for containers of
shared slices, which allowed mutating through a shared reference.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 52b1972..0636126 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -377,7 +377,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
         }
     }
 }
-impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
+impl<'id, T, Array> Container<'id, Array> where Array: ContiguousMut<Item=T> {
     #[inline]
     pub fn split_container_at_pointer<P, F, Out>(&mut self, index: PIndex<'id, T, P>, f: F) -> Out
         //-> (PRange<'id, T>, PRange<'id, T, P>)
-- 
2.43.0

