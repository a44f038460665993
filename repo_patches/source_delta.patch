From 40d678353bd68ce194ef9d12e80bc3da8949058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 01/16] fix: atom panicked when its pattern ends inside a
 multi-byte character of the input

Splitting a text segment (or the remaining pattern) at the other's length
panics if that is not a character boundary. Such a position cannot be a match.
---
 crates/parcom-core/src/primitive/slice.rs   |  4 ++++
 crates/parcom-core/src/primitive/str.rs     |  4 ++++
 crates/parcom-core/src/sequence/segment.rs  | 10 ++++++++++
 crates/parcom-parsers/src/primitive/atom.rs | 11 ++++++++---
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index dac8954..e8bdc7f 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -52,6 +52,10 @@ impl<T> SequenceSegment for [T] {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         <[T]>::split_at(self, mid)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        <[T]>::split_at_checked(self, mid)
+    }
 }
 
 impl<'me, T: 'static> IntoMeasured for &'me [T] {
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d326b55..1751ae1 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -139,4 +139,8 @@ impl SequenceSegment for str {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         str::split_at(&self, mid.0)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        str::split_at_checked(self, mid.0)
+    }
 }
diff --git a/crates/parcom-core/src/sequence/segment.rs b/crates/parcom-core/src/sequence/segment.rs
index df41402..834a349 100644
--- a/crates/parcom-core/src/sequence/segment.rs
+++ b/crates/parcom-core/src/sequence/segment.rs
@@ -3,4 +3,14 @@ pub trait SequenceSegment {
 
     fn len(&self) -> Self::Length;
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self);
+    /// Same as [`split_at`](Self::split_at), but returns `None` if the segment cannot be split at `mid`.
+    ///
+    /// A segment which cannot be split at every position up to its length must override this.
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        if mid <= self.len() {
+            Some(self.split_at(mid))
+        } else {
+            None
+        }
+    }
 }
diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 020e87a..7d1a7a1 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -39,8 +39,10 @@ where
 
         while let Some(segment) = segments.next(remain.len()).await {
             if segment.len() >= remain.len() {
-                let s = segment.split_at(remain.len()).0;
-                let matched = s == remain;
+                let matched = match segment.split_at_checked(remain.len()) {
+                    Some((s, _)) => s == remain,
+                    None => false,
+                };
                 drop(segments);
                 return if matched {
                     done((), input.advance(remain.len()).await)
@@ -49,7 +51,10 @@ where
                 };
             }
 
-            let (p, r) = remain.split_at(segment.len());
+            let Some((p, r)) = remain.split_at_checked(segment.len()) else {
+                drop(segments);
+                return fail(Miss(()), input);
+            };
 
             if &*segment != p {
                 drop(segments);
-- 
2.43.0


From 2f83b6be05db9236ef8653d8bded31889b53c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 02/16] fix: atom advanced only by the last part of a pattern
 spanning segments

The input is advanced from where the match started, so the length to advance
by is that of the whole pattern, not of what was left for the last segment.
---
 crates/parcom-parsers/src/primitive/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 7d1a7a1..e71e359 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -45,7 +45,7 @@ where
                 };
                 drop(segments);
                 return if matched {
-                    done((), input.advance(remain.len()).await)
+                    done((), input.advance(self.pattern.pattern().len()).await)
                 } else {
                     fail(Miss(()), input)
                 };
-- 
2.43.0


From 83b35be90f1d9574a7a9a81185fe9f843afd73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 03/16] fix: atom with an empty pattern failed on an input
 without segments

An empty pattern matched a sequence that yields one empty segment, but not the
same input as a sequence that yields no segment at all.
---
 crates/parcom-parsers/src/primitive/atom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index e71e359..e202697 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -65,6 +65,12 @@ where
         }
 
         drop(segments);
+
+        // no segment was left to match an empty pattern against.
+        if remain.len() == Default::default() {
+            return done((), input);
+        }
+
         return fail((), input);
     }
 }
-- 
2.43.0


From c2ed0ddbf81ea9224f4037122858ffd2a8794b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 04/16] fix: advancing text past its end made a later rewind
 undefined

The empty rest was a literal which is not part of the text, so rewinding it
computed the offset between pointers of different allocations.
---
 crates/parcom-core/src/primitive/str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 1751ae1..07ef93f 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -19,7 +19,7 @@ impl<'a> Sequence for &'a str {
 
     fn advance(self, delta: BytesDelta) -> Self::Advance {
         let delta = delta.to_bytes();
-        let rest = self.get(delta..).unwrap_or("");
+        let rest = self.get(delta..).unwrap_or(&self[self.len()..]);
         std::future::ready(rest)
     }
 }
-- 
2.43.0


From e33be0d1fbc41d60859e781a5a7d6334fc52f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 05/16] fix: rewinding a slice of zero-sized items panicked

`offset_from` panics for zero-sized types (and is undefined for a sequence the
anchor does not belong to, which the check is there to detect).
---
 crates/parcom-core/src/primitive/slice.rs | 7 +++----
 crates/parcom-core/src/primitive/str.rs   | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index e8bdc7f..e57da52 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -31,10 +31,9 @@ impl<T> RewindSequence for &[T] {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        let range = anchor.me.as_ptr_range();
+        let ptr = self.as_ptr();
+        if range.start <= ptr && ptr <= range.end {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 07ef93f..e3f20d8 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -33,10 +33,9 @@ impl RewindSequence for &str {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        let range = anchor.me.as_bytes().as_ptr_range();
+        let ptr = self.as_ptr();
+        if range.start <= ptr && ptr <= range.end {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
-- 
2.43.0


From c5758a15a63175728065bd181af660ebcba553e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 06/16] fix: CRLF was not recognised after another CR

In "\\r\\r\\n" the second carriage return begins the line ending.
---
 crates/parcom-metrics/src/end_of_line.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 960dd61..3e2cf07 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -56,6 +56,9 @@ impl EndOfLine for CRLF {
                 _ => EndOfLineMatch::NotMatch,
             },
             CRLFState::CR => {
+                if c == '\r' {
+                    return EndOfLineMatch::PartialMatch;
+                }
                 self.state = CRLFState::Initial;
                 match c {
                     '\n' => EndOfLineMatch::Match,
-- 
2.43.0


From 2756472b9c0a627e29fcbc5d585508d3a319f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 07/16] fix: left associative operator of the highest
 precedence overflowed

`precedence() + 1` overflows for usize::MAX: a panic in debug builds, and the
wrong tree in release builds.
---
 crates/parcom-parsers/src/combinator/bin_expr.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-parsers/src/combinator/bin_expr.rs b/crates/parcom-parsers/src/combinator/bin_expr.rs
index 5e5f015..49b1f18 100644
--- a/crates/parcom-parsers/src/combinator/bin_expr.rs
+++ b/crates/parcom-parsers/src/combinator/bin_expr.rs
@@ -130,8 +130,7 @@ where
                     rhs = term;
                     break;
                 };
-                let prec = next_precedence(&last_op);
-                if op.precedence() >= prec {
+                if continues(&last_op, &op) {
                     // ひとつ前の演算子より優先度が高い．
                     stack.push((lhs, last_op));
                     stack.push((rhs, op));
@@ -151,10 +150,12 @@ where
         done((rhs, reason), rest)
     }
 }
-fn next_precedence<T: Operator>(op: &T) -> usize {
-    match op.associativity() {
-        Associativity::Left => op.precedence() + 1,
-        Associativity::Right => op.precedence(),
+
+/// whether `op` belongs to the right operand of `last_op`
+fn continues<T: Operator>(last_op: &T, op: &T) -> bool {
+    match last_op.associativity() {
+        Associativity::Left => op.precedence() > last_op.precedence(),
+        Associativity::Right => op.precedence() >= last_op.precedence(),
     }
 }
 
-- 
2.43.0


From 33db5cae3b1c9e15f8faa4c294b26e718052df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 08/16] fix: writer of the generic sequence shrank its capacity
 while writing

`capacity` is that of the whole buffer as seen by the writer, not what is left.
Pushing half of the requested items filled the writer and the others were
refused, and with an odd capacity items were written out of bounds.
---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 351fb59..d804f97 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -80,7 +80,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Error = E;
 
     fn capacity(&self) -> usize {
-        self.buf.capacity() - self.buf.len()
+        self.buf.capacity() - self.offset
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 70bd74a86b913dc63a0f288575df95aac5567367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 09/16] fix: cancelling a write into a fresh buffer lost loaded
 items

The items loaded before were moved out to be committed together with the
write; they have to be put back when it is cancelled.
---
 crates/parcom-sequences/src/generic/control.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index d804f97..b37c092 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -115,7 +115,11 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
-        self.buf.drain(self.offset..);
+        if self.to_append.is_empty() {
+            self.buf.truncate(self.offset);
+        } else {
+            *self.buf = self.to_append;
+        }
         Response::Cancel(err)
     }
 }
-- 
2.43.0


From 7b5547be30abd3e7869eb0678493965aa903473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 10/16] fix: small vector of zero-sized items allocated with a
 zero-sized layout

Allocating, reallocating or freeing with a zero-sized layout is undefined.
---
 crates/parcom-internals/src/shortvec.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 1a23c94..bdedb3f 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -33,7 +33,7 @@ impl<T, const N: usize> ShortVec<T, N> {
 
         if cap > N {
             let layout = Layout::array::<T>(cap).unwrap();
-            let ptr = unsafe { alloc::alloc(layout) as *mut T };
+            let ptr = unsafe { Self::alloc(layout) };
             let ptr = match NonNull::new(ptr) {
                 Some(v) => v,
                 None => alloc::handle_alloc_error(layout),
@@ -127,8 +127,12 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.is_heap() {
             let old_layout = Layout::array::<T>(self.cap).unwrap();
             let ptr = unsafe {
-                let ptr = self.data.heap.as_ptr() as *mut u8;
-                alloc::realloc(ptr, old_layout, layout.size()) as *mut T
+                let ptr = self.data.heap.as_ptr();
+                if layout.size() == 0 {
+                    ptr
+                } else {
+                    alloc::realloc(ptr as *mut u8, old_layout, layout.size()) as *mut T
+                }
             };
 
             let ptr = match NonNull::new(ptr) {
@@ -140,7 +144,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             self.data.heap = ptr;
         } else {
             let buf = unsafe {
-                let ptr = alloc::alloc(layout) as *mut T;
+                let ptr = Self::alloc(layout);
                 match NonNull::new(ptr) {
                     Some(v) => v,
                     None => alloc::handle_alloc_error(layout),
@@ -163,6 +167,15 @@ impl<T, const N: usize> ShortVec<T, N> {
         self.cap > N
     }
 
+    /// allocates unless `layout` is zero-sized, which `alloc::alloc` does not allow.
+    unsafe fn alloc(layout: Layout) -> *mut T {
+        if layout.size() == 0 {
+            NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc::alloc(layout) as *mut T }
+        }
+    }
+
     unsafe fn as_ptr_stack_unchecked(&self) -> *const T {
         unsafe { self.data.stack.as_ptr() as *const T }
     }
@@ -182,6 +195,9 @@ impl<T, const N: usize> Drop for ShortVec<T, N> {
 
         if self.is_heap() {
             let layout = Layout::array::<T>(self.cap).unwrap();
+            if layout.size() == 0 {
+                return;
+            }
             unsafe {
                 alloc::dealloc(ptr as *mut u8, layout);
             }
-- 
2.43.0


From 047e6c57e51e8967aab427f1682a3986c4776204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 11/16] fix: UTF-8 validator accepted up to three invalid
 trailing bytes

Bytes that cannot begin a character were held back as if the rest of the
character was still to come, and lost if nothing came.
---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 337c9bc..9c8f9e0 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -193,14 +193,14 @@ where
     fn advance(mut self) -> Response<S, C> {
         let buf = self.req.as_slice();
 
-        let valid_len = match std::str::from_utf8(buf) {
-            Ok(_) => buf.len(),
-            Err(e) => e.valid_up_to(),
+        let (valid_len, is_invalid) = match std::str::from_utf8(buf) {
+            Ok(_) => (buf.len(), false),
+            Err(e) => (e.valid_up_to(), e.error_len().is_some()),
         };
 
         let invalids = &buf[valid_len..];
 
-        let inner = if invalids.len() > 3 {
+        let inner = if is_invalid {
             let res = self.req.cancel(Utf8ValidationError::InvalidSequence);
             InnerResponse::Err { res }
         } else {
-- 
2.43.0


From 9766c74d42094091ebac638fcac4e4fd9e46a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 12/16] fix: UTF-8 validator dropped an incomplete character at
 the end of the source

---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 9c8f9e0..d604414 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -142,6 +142,15 @@ where
     }
 
     fn finish(self) -> Self::Result {
+        if self.buffered > 0 {
+            // the source ended inside a character.
+            let res = self.control.cancel(Utf8ValidationError::InvalidSequence);
+            return Response {
+                inner: InnerResponse::Err { res },
+                _phantom: PhantomData,
+            };
+        }
+
         let res = self.control.finish();
         Response {
             inner: InnerResponse::Finish { res },
-- 
2.43.0


From b24d6c9d24ffee5b111b396a506e843076ebfc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 13/16] hook: constructor of the generic sequence builder for
 verification, behind cfg(parcom_verif)

---
 crates/parcom-sequences/src/generic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index f927fc8..de44bfd 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod buffer;
 mod control;
 mod loader;
@@ -19,6 +21,16 @@ pub struct GenericSequenceBuilder<B: BufferStrategy> {
     strategy: Arc<B>,
 }
 
+#[cfg(parcom_verif)]
+impl<B: BufferStrategy> GenericSequenceBuilder<B> {
+    /// for verification harnesses only.
+    pub fn verif_new(strategy: B) -> Self {
+        Self {
+            strategy: Arc::new(strategy),
+        }
+    }
+}
+
 impl<B: BufferStrategy, S: SequenceSource> SequenceBuilder<S> for GenericSequenceBuilder<B> {
     type Length = <GenericSequenceBuffer<S::Item> as SequenceBuffer>::Length;
     type Segment = <GenericSequenceBuffer<S::Item> as SequenceBuffer>::Segment;
-- 
2.43.0


From 87a9883a66505b017af08e8345693df1ce4d33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 14/16] hook: let verification harnesses tell a DefaultSequence
 that its source goes on

---
 .../src/default_runner/sequence.rs              | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index bff0df4..58adb02 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod advance;
 mod segments;
 
@@ -36,6 +38,21 @@ where
     }
 }
 
+#[cfg(parcom_verif)]
+impl<S, B> DefaultSequence<S, B>
+where
+    S: SequenceSource,
+    B: SequenceBuilder<S>,
+{
+    /// for verification harnesses only: what is told when the source goes on, and whether it has ended.
+    pub fn verif_signals(&self) -> (Arc<Notify>, Arc<AtomicBool>) {
+        (
+            Arc::clone(&self.inner.append_signal),
+            Arc::clone(&self.inner.done_flag),
+        )
+    }
+}
+
 struct DefaultSequenceInner<S, B>
 where
     S: SequenceSource,
-- 
2.43.0


From fcdcc3333d6ecdafdcf7bec37a4916d185a60456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 15/16] fix: DefaultSequenceAdvance keeps what is left to
 consume while it waits

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index b2915aa..f8a0d69 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -59,6 +59,7 @@ where
             return Poll::Ready(DefaultSequence { inner: sequence });
         }
 
+        *this.remain = remain;
         cx.waker().wake_by_ref();
 
         Poll::Pending
-- 
2.43.0


From 856655cd4f6b03425c22ec7b112d8af5ed8ae574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 16/16] fix: the sequence futures look whether the source has
 ended before they look for its items

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 4 +++-
 .../parcom-runners/src/default_runner/sequence/segments.rs   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index f8a0d69..4f6f414 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -47,10 +47,12 @@ where
         };
         this.fut.set(OptionFuture::some(fut));
 
+        // `advance`のあとに読むと、その間に追加されたアイテムを見落として終了とみなしてしまうため、先に読む。
+        let done = sequence.done_flag.load(Ordering::SeqCst);
         let remain = std::mem::replace(this.remain, Default::default());
         let remain = sequence.buffer.advance(remain);
 
-        if &remain == this.remain || sequence.done_flag.load(Ordering::SeqCst) {
+        if &remain == this.remain || done {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
             // `this.remain == Default::default()`であるため、`remain == Default::default()`つまり`remain`が0になっている。
diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 10374a8..16b2f8d 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -91,13 +91,16 @@ where
         let fut = this.host.append_signal.wait();
         // `this.host.iter.next()`が`None`を返したあと、`this.host.append_signal.wait()`を呼ぶ前に次のセグメントが追加されたか終了した場合のため、(1)・(2)のチェックをする。
 
+        // (1)のあとに読むと、その間に追加されたセグメントを見落として終了とみなしてしまうため、先に読む。
+        let done = this.host.done_flag.load(Ordering::SeqCst);
+
         // (1): セグメントが末尾に追加されたか。
         if let Some(seg) = this.host.iter.next() {
             return Poll::Ready(Some(seg));
         }
 
         // (2): シーケンスが終了したか。
-        if this.host.done_flag.load(Ordering::SeqCst) {
+        if done {
             return Poll::Ready(None);
         }
 
-- 
2.43.0

