From e73346e1ce027d43b15f35385b0b5657f19834c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 01/18] fix: requests refused by the system allocator are not
 counted as allocations

---
 src/metrics_allocator/metrics_allocator.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index b18cbd8..0c5cbdf 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -267,20 +267,29 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
 /// the global allocator
 unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_, RING_BUFFER_SIZE> {
     unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_metrics(&layout);
-        self.system_allocator.alloc(layout)
+        let ptr = self.system_allocator.alloc(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
         self.compute_dealloc_metrics(&layout);
         self.system_allocator.dealloc(ptr, layout)
     }
     unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_zeroed_metrics(&layout);
-        self.system_allocator.alloc_zeroed(layout)
+        let ptr = self.system_allocator.alloc_zeroed(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_zeroed_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-        self.compute_realloc_metrics(&layout, new_size);
-        self.system_allocator.realloc(ptr, layout, new_size)
+        let new_ptr = self.system_allocator.realloc(ptr, layout, new_size);
+        if !new_ptr.is_null() {
+            self.compute_realloc_metrics(&layout, new_size);
+        }
+        new_ptr
     }
 }
 
-- 
2.43.0


From 418d65569886806afed8f990885978ca6fb90172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 02/18] fix: concurrent allocations no longer hide each other's
 memory usage peaks

---
 src/metrics_allocator/metrics_allocator.rs | 27 ++++++++++++----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 0c5cbdf..161334a 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -203,24 +203,24 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     fn compute_alloc_metrics(&self, layout: &Layout) {
         self.statistics.allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let current_used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed).wrapping_add(layout.size());
+        self.compute_min_and_max_used_memories(current_used_memory);
     }
 
     /// compute metrics for de-allocation
     fn compute_dealloc_metrics(&self, layout: &Layout) {
         self.statistics.deallocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.deallocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let current_used_memory = self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed).wrapping_sub(layout.size());
+        self.compute_min_and_max_used_memories(current_used_memory);
     }
 
     /// compute metrics for zeroed allocation
     fn compute_alloc_zeroed_metrics(&self, layout: &Layout) {
         self.statistics.zeroed_allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.zeroed_allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let current_used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed).wrapping_add(layout.size());
+        self.compute_min_and_max_used_memories(current_used_memory);
     }
 
     /// compute metrics for re-allocation
@@ -229,16 +229,19 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
         self.statistics.reallocated_originals_bytes.fetch_add(layout.size(), Ordering::Relaxed);
         self.statistics.reallocated_news_bytes.fetch_add(new_size, Ordering::Relaxed);
         if new_size > layout.size() {
-            self.statistics.current_used_memory.fetch_add(new_size-layout.size(), Ordering::Relaxed);
+            let increase = new_size - layout.size();
+            let current_used_memory = self.statistics.current_used_memory.fetch_add(increase, Ordering::Relaxed).wrapping_add(increase);
+            self.compute_min_and_max_used_memories(current_used_memory);
         } else if new_size < layout.size() {
-            self.statistics.current_used_memory.fetch_sub(layout.size()-new_size, Ordering::Relaxed);
+            let decrease = layout.size() - new_size;
+            let current_used_memory = self.statistics.current_used_memory.fetch_sub(decrease, Ordering::Relaxed).wrapping_sub(decrease);
+            self.compute_min_and_max_used_memories(current_used_memory);
         }
-        self.compute_min_and_max_used_memories();
     }
 
-    /// helper functions for metrics computation
-    fn compute_min_and_max_used_memories(&self) {
-        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+    /// helper functions for metrics computation -- to be called with the used memory right after the caller's own update,
+    /// or else extremes that lasted only until another thread's update would be lost
+    fn compute_min_and_max_used_memories(&self, current_used_memory: usize) {
         let mut min_used_memory = self.statistics.min_used_memory.load(Ordering::Relaxed);
         loop {
             if current_used_memory < min_used_memory {
-- 
2.43.0


From 31e6f063b0d4b23cfb73c3008866ce0a2bcf4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 03/18] fix: a ring buffer consumer that overflowed keeps
 reporting it

---
 src/metrics_allocator/ring_buffer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1b1784a..6adcd81 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -123,6 +123,16 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
+            // an overflown consumer must stay so -- therefore, `head` may not move
+            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                let reloaded_head = self.head.load(Ordering::Relaxed);
+                if reloaded_head != head {
+                    // not an overflow: another thread has already consumed the element at the outdated `head`
+                    head = reloaded_head;
+                    continue;
+                }
+                return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
+            }
             match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
-- 
2.43.0


From cb4320c89f1fa8e4dd7ba73c51e53c35ae55d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 04/18] fix: ring buffer consumers acquire the elements they
 read

---
 src/metrics_allocator/ring_buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 6adcd81..2f0cb03 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -47,7 +47,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            head: AtomicU32::new(self.published_tail.load(Ordering::Acquire)),
             ring_buffer: self,
         }
     }
@@ -115,7 +115,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     pub fn dequeue(&self) -> Result<Option<&Slot>, RingBufferOverflowError> {
         let mut head = self.head.load(Ordering::Relaxed);
         loop {
-            let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -170,7 +170,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
         let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
-- 
2.43.0


From 6ac18baa2a57b841f09cf181b8478ecb8202ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 05/18] fix: peeking while other threads dequeue neither panics
 nor reports a false overflow

---
 src/metrics_allocator/ring_buffer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 2f0cb03..c6b9486 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -133,7 +133,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 }
                 return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
             }
-            match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
+            match self.head.compare_exchange_weak(head, head + 1, Ordering::AcqRel, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
@@ -169,8 +169,17 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   }
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
-        let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+        // other threads might be dequeueing: `head` & `published_tail` must be a consistent pair
+        let mut head = self.head.load(Ordering::Acquire);
+        let mut published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+        loop {
+            let reloaded_head = self.head.load(Ordering::Acquire);
+            if reloaded_head == head {
+                break;
+            }
+            head = reloaded_head;
+            published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+        }
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
-- 
2.43.0


From e1c747287028e081dd8930bb1b6d4fd4c7e69011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 06/18] fix: ring buffers no longer stop working after 2^32
 elements

---
 src/metrics_allocator/ring_buffer.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index c6b9486..1ad29c9 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,9 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(test)]
+use std::sync::atomic::AtomicU32;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
@@ -19,9 +21,9 @@ use std::fmt::{Display, Formatter};
 /// See [self] for more info.
 pub struct RingBuffer<Slot, const RING_BUFFER_SIZE: usize> {
     /// if ahead of [published_tail], indicates new slots is being filled in, to soon be published
-    reserved_tail: AtomicU32,
+    reserved_tail: AtomicUsize,
     /// once the slot data is set in place, this counter increases to indicate a new element is ready to be consumed
-    published_tail: AtomicU32,
+    published_tail: AtomicUsize,
     /// the data
     buffer: MaybeUninit<[Slot; RING_BUFFER_SIZE]>,
 }
@@ -38,8 +40,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
     pub const fn new() -> Self {
         Self {
-            reserved_tail: AtomicU32::new(0),
-            published_tail: AtomicU32::new(0),
+            reserved_tail: AtomicUsize::new(0),
+            published_tail: AtomicUsize::new(0),
             buffer: MaybeUninit::uninit(),
         }
     }
@@ -47,7 +49,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Acquire)),
+            head: AtomicUsize::new(self.published_tail.load(Ordering::Acquire)),
             ring_buffer: self,
         }
     }
@@ -102,7 +104,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// If these 3 steps are not enough, you might consider using a non-zero-cost multiple consumers ring-buffer, a non-zero-copy one or even a
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
-    head: AtomicU32,
+    head: AtomicUsize,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
 }
 impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
@@ -124,7 +126,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 return Ok(None);
             }
             // an overflown consumer must stay so -- therefore, `head` may not move
-            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE {
                 let reloaded_head = self.head.load(Ordering::Relaxed);
                 if reloaded_head != head {
                     // not an overflow: another thread has already consumed the element at the outdated `head`
@@ -137,7 +139,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
-                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE {
                         return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
                     }
                     return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
@@ -184,7 +186,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
             Ok([&[],&[]])
-        } else if published_tail - head > RING_BUFFER_SIZE as u32 {
+        } else if published_tail - head > RING_BUFFER_SIZE {
             Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
         } else if head_index < published_tail_index {
             unsafe {
-- 
2.43.0


From 78e5444bb0f607bb81d090b56bc652c41b05a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 07/18] fix: using no resources at all is O(1), rather than
 worse than exponential

---
 src/low_level_analysis/low_level_analysis.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 9b7c051..1f0ac33 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -10,7 +10,10 @@ use super::{
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
-    if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
+    if u1 == u2 {
+        // includes the "no resource usage at all" case, for which there are no ratios to compute
+        BigOAlgorithmComplexity::O1
+    } else if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::O1
@@ -52,7 +55,10 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
-    if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
+    if u1 == u2 {
+        // includes the "no resource usage at all" case, for which there are no ratios to compute
+        BigOAlgorithmComplexity::O1
+    } else if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
         // sanity check
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
-- 
2.43.0


From fbb7e92a6bbef38c739c1674482878d7631e6417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 08/18] fix: sets with a single element no longer make every
 growth look better than O(log(n))

---
 src/low_level_analysis/low_level_analysis.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 1f0ac33..f4efeba 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -17,17 +17,17 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::O1
-    } else if ((u2 / u1) / ( n2.log2() / n1.log2() )) < 1.0 - PERCENT_TOLERANCE {
+    } else if ((u2 / u1) / ( log2(n2) / log2(n1) )) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetweenO1AndOLogN
-    } else if ( ((u2 / u1) / ( n2.log2() / n1.log2() )) - 1.0 ).abs() <= PERCENT_TOLERANCE {
+    } else if ( ((u2 / u1) / ( log2(n2) / log2(n1) )) - 1.0 ).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::OLogN
     } else if ((u2 / u1) / (n2 / n1)) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetweenOLogNAndON
     } else if ( ((u2 / u1) / (n2 / n1)) - 1.0 ).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::ON
-    } else if ((u2 / u1) / ( (n2*n2.log2()) / (n1*n1.log2()) )) < 1.0 - PERCENT_TOLERANCE {
+    } else if ((u2 / u1) / ( (n2*log2(n2)) / (n1*log2(n1)) )) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetweenONAndONLogN
-    } else if ( ((u2 / u1) / ( (n2*n2.log2()) / (n1*n1.log2()) )) - 1.0 ).abs() <= PERCENT_TOLERANCE {
+    } else if ( ((u2 / u1) / ( (n2*log2(n2)) / (n1*log2(n1)) )) - 1.0 ).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::ONLogN
     } else if ((u2 / u1) / (n2 / n1).powi(2)) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetweenONLogNAndON2
@@ -50,6 +50,12 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
     }
 }
 
+/// the logarithm used in the complexity formulas of this module, in which a single element counts as two
+/// -- otherwise, sets with 1 element would cause divisions by zero and any growth would be considered as "better than O(log(n))"
+fn log2(n: f64) -> f64 {
+    n.max(2.0).log2()
+}
+
 /// TODO 2022-06-30: fix the math here (and tests) to the same standards as the function above -- and also include the increased complexity levels
 /// Performs the Algorithm Complexity Analysis on an iterator algorithm that alters the elements it operates on as it runs.\
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
@@ -63,9 +69,9 @@ pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> Big
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::O1
-    } else if ((u2 / u1) / ( (n * 3.0).log2() / n.log2() )) < 1.0 {
+    } else if ((u2 / u1) / ( log2(n * 3.0) / log2(n) )) < 1.0 {
         BigOAlgorithmComplexity::BetweenO1AndOLogN
-    } else if ( ((u2 / u1) / ( (n * 3.0).log2() / n.log2() )) - 1.0 ).abs() < PERCENT_TOLERANCE {
+    } else if ( ((u2 / u1) / ( log2(n * 3.0) / log2(n) )) - 1.0 ).abs() < PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::OLogN
     } else if ( ((u2 / u1) / 3.0) - 1.0 ).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::ON
-- 
2.43.0


From 0d64245c352fafd2f32c04a78abd5baea5ac015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 09/18] fix: constant set analysis pairs each measurement with
 its own set size

---
 src/low_level_analysis/space_analysis.rs | 3 +++
 src/low_level_analysis/time_analysis.rs  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/low_level_analysis/space_analysis.rs b/src/low_level_analysis/space_analysis.rs
index 07e8a05..011e56f 100644
--- a/src/low_level_analysis/space_analysis.rs
+++ b/src/low_level_analysis/space_analysis.rs
@@ -45,6 +45,9 @@ pub fn analyse_space_complexity_for_constant_set_iterator_algorithm(passes_info:
     let n1 = std::cmp::min(passes_info.pass_1_set_size, passes_info.pass_2_set_size) as f64;
     let n2 = std::cmp::max(passes_info.pass_1_set_size, passes_info.pass_2_set_size) as f64;
 
+    // the measurements must follow their set sizes
+    let (s1, s2) = if passes_info.pass_1_set_size > passes_info.pass_2_set_size { (s2, s1) } else { (s1, s2) };
+
     analyse_complexity(s1, s2, n1, n2)
 }
 
diff --git a/src/low_level_analysis/time_analysis.rs b/src/low_level_analysis/time_analysis.rs
index 9c59581..866a54d 100644
--- a/src/low_level_analysis/time_analysis.rs
+++ b/src/low_level_analysis/time_analysis.rs
@@ -46,6 +46,9 @@ pub fn analyse_time_complexity_for_constant_set_iterator_algorithm(passes_info:
     let n1 = std::cmp::min(passes_info.pass_1_set_size, passes_info.pass_2_set_size) as f64;
     let n2 = std::cmp::max(passes_info.pass_1_set_size, passes_info.pass_2_set_size) as f64;
 
+    // the measurements must follow their set sizes
+    let (t1, t2) = if passes_info.pass_1_set_size > passes_info.pass_2_set_size { (t2, t1) } else { (t1, t2) };
+
     analyse_complexity(t1, t2, n1, n2)
 }
 
-- 
2.43.0


From e07d239e269271f45a4475ce8ee3f4eacd71ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 10/18] fix: memory reports no longer lose the sign of small
 variations on top of big memory usages

---
 src/low_level_analysis/types/types_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 5b6d52d..3408687 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -186,8 +186,7 @@ impl BigOSpacePassMeasurements {
     /// When `n` is 1.0, shows the absolute RAM usage;
     /// otherwise, `n` should be the number of elements and the output will represent the memory usage per element
     pub fn fmt_over_n(&self, n: u32) -> String {
-        let used_memory = (self.used_memory_after as f32 - self.used_memory_before as f32) / n as f32;
-        let sign = if used_memory > 0.0 {"+"} else if used_memory < 0.0 {"-"} else {""};
+        let sign = if self.used_memory_after > self.used_memory_before {"+"} else if self.used_memory_after < self.used_memory_before {"-"} else {""};
         let used_memory = std::cmp::max( self.max_used_memory    - self.used_memory_before,
                                               self.used_memory_before - self.min_used_memory ) as f32 / n as f32;
         let memory_unit = if used_memory.abs() > (1<<30) as f32 {"GiB"}                        else if used_memory.abs() > (1<<20) as f32 {"MiB"}                              else if used_memory.abs() > (1<<10) as f32 {"KiB"}                              else {"b"};
-- 
2.43.0


From fe75b8597ee3d1a0e7ab2e46a4771a66302ebb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 11/18] fix: CRUD tests always run, and retries never drop
 operations with few iterations

---
 src/runners/crud.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 2765e75..e313760 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -46,7 +46,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
         match attempt {
             0 => iterations_per_pass,
             _ => match (attempt-1) % 3 {
-                0 => iterations_per_pass / factor,
+                0 => (iterations_per_pass / factor).max(iterations_per_pass.min(1)),    // never drop an operation due to having few iterations
                 1 => iterations_per_pass - (iterations_per_pass / factor),
                 2 => iterations_per_pass + (iterations_per_pass / factor),
                 _ => panic!("fix this match")
@@ -55,6 +55,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
 
     }
 
+    // a test must be attempted at least once
+    let max_retry_attempts = max_retry_attempts.max(1);
+
     let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
-- 
2.43.0


From 34c4ac8913d6e01f7918d1726a299f5834ea4c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 12/18] fix: CRUD operations with no threads are skipped, as
 documented, instead of dividing by zero

---
 src/runners/crud.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index e313760..74e313d 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -258,7 +258,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
         ($pass_number: expr, $operation_name: literal, $suffix: expr, $passes_results: ident,
          $algorithm_closure: ident, $expected_time_complexity: ident, $expected_space_complexity: ident,
          $number_of_iterations_per_pass: expr, $number_of_threads: ident) => {
-            if $number_of_iterations_per_pass > 0 {
+            if $number_of_iterations_per_pass > 0 && $number_of_threads > 0 {
                 let (pass_result, pass_r) = run_iterator_pass_verbosely(&format!("{}: ", $operation_name.to_ascii_lowercase()), $suffix,
                                                                         &$algorithm_closure, &BigOIteratorAlgorithmType::SetResizing,
                                                                         calc_regular_cru_range($number_of_iterations_per_pass, $pass_number),
@@ -322,7 +322,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
          $passes_results: ident, $range_fn: ident, $last_pass_number: expr,
          $algorithm_closure: ident, $expected_time_complexity: ident, $expected_space_complexity: ident,
          $number_of_iterations_per_pass: expr, $number_of_threads: ident) => {
-            if $number_of_iterations_per_pass > 0 {
+            if $number_of_iterations_per_pass > 0 && $number_of_threads > 0 {
                 let (pass_result, pass_r) = run_iterator_pass_verbosely(&$result_prefix_closure($pass_number, $operation_name), $suffix,
                                                                         &$algorithm_closure, &BigOIteratorAlgorithmType::SetResizing,
                                                                         $range_fn($number_of_iterations_per_pass, $pass_number),
@@ -440,22 +440,22 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
         let warmup_start = Instant::now();
         _output("warming up [");
         io::stdout().flush().unwrap();
-        if create_iterations_per_pass > 0 {
+        if create_iterations_per_pass > 0 && create_threads > 0 {
             _output("C");
             let (_elapse, warmup_r) = run_iterator_pass(&create_fn, &BigOIteratorAlgorithmType::SetResizing, calc_warmup_cru_range(create_iterations_per_pass), create_threads);
             r ^= warmup_r;
         }
-        if read_iterations_per_pass > 0 {
+        if read_iterations_per_pass > 0 && read_threads > 0 {
             _output("R");
             let (_elapse, warmup_r) = run_iterator_pass(&read_fn, &BigOIteratorAlgorithmType::ConstantSet, calc_warmup_cru_range(read_iterations_per_pass), read_threads);
             r ^= warmup_r;
         }
-        if update_iterations_per_pass > 0 {
+        if update_iterations_per_pass > 0 && update_threads > 0 {
             _output("U");
             let (_elapse, warmup_r) = run_iterator_pass(&update_fn, &BigOIteratorAlgorithmType::ConstantSet, calc_warmup_cru_range(update_iterations_per_pass), update_threads);
             r ^= warmup_r;
         }
-        if delete_iterations_per_pass > 0 {
+        if delete_iterations_per_pass > 0 && delete_threads > 0 {
             _output("D");
             let (_elapse, warmup_r) = run_iterator_pass(&delete_fn, &BigOIteratorAlgorithmType::SetResizing, calc_warmup_d_range(delete_iterations_per_pass), delete_threads);
             r ^= warmup_r;
@@ -481,19 +481,19 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     _output("):\n\n");
 
     // output analysis reports
-    if create_iterations_per_pass > 0 {
-        _output(&format!("{}\n\n", create_analysis.as_ref().unwrap()));
+    if let Some(create_analysis) = &create_analysis {
+        _output(&format!("{}\n\n", create_analysis));
     }
-    if read_iterations_per_pass > 0 {
-        _output(&format!("{}\n\n", read_analysis.as_ref().unwrap()));
+    if let Some(read_analysis) = &read_analysis {
+        _output(&format!("{}\n\n", read_analysis));
     }
-    if update_iterations_per_pass > 0 {
-        _output(&format!("{}\n\n", update_analysis.as_ref().unwrap()));
+    if let Some(update_analysis) = &update_analysis {
+        _output(&format!("{}\n\n", update_analysis));
     }
 
     // delete passes (passes are applied in reverse order)
     let delete_analysis;
-    if delete_iterations_per_pass > 0 {
+    if delete_iterations_per_pass > 0 && delete_threads > 0 {
         _output("Delete Passes (");
         run_delete_pass!(1);
         delete_analysis = run_delete_pass!(0);
-- 
2.43.0


From 85aa1f70690334bc743d2c16f800e7a60f45d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 13/18] fix: warmup percentage calculation no longer overflows
 for many iterations

---
 src/runners/crud.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 74e313d..ce5547c 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -434,8 +434,9 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     if warmup_percentage > 0 {
 
         // warmup ranges
-        let calc_warmup_cru_range = |iterations_per_pass|  0 .. iterations_per_pass * warmup_percentage / 100;
-        let calc_warmup_d_range = |iterations_per_pass| iterations_per_pass * warmup_percentage / 100 .. 0;
+        let calc_warmup_iterations = |iterations_per_pass: u32| (iterations_per_pass as u64 * warmup_percentage as u64 / 100) as u32;
+        let calc_warmup_cru_range = |iterations_per_pass|  0 .. calc_warmup_iterations(iterations_per_pass);
+        let calc_warmup_d_range = |iterations_per_pass| calc_warmup_iterations(iterations_per_pass) .. 0;
 
         let warmup_start = Instant::now();
         _output("warming up [");
@@ -461,7 +462,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
             r ^= warmup_r;
         }
         _output("] ");
-        reset_fn(create_iterations_per_pass * warmup_percentage / 100);
+        reset_fn(calc_warmup_iterations(create_iterations_per_pass));
 
         let warmup_end = Instant::now();
         let warmup_elapsed = warmup_end.duration_since(warmup_start);
-- 
2.43.0


From 39f0628241263b015ee2f6e1fa581edd94b8fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 14/18] fix: iterator passes no longer leave elements behind
 nor fail on big ranges

---
 src/runners/common.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index d8a62d8..38e4d9c 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -121,17 +121,17 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
     crossbeam::scope(|scope| {
 
         // start all threads
-        let i32_range = range.end as i32 .. range.start as i32;
-        let chunk_size = (i32_range.end-i32_range.start)/threads as i32;
+        // splits the range as evenly as possible (without leaving any element behind) -- `n` being in [0..=threads]
+        let chunk_boundary = |n: u32| (range.end as i64 + (range.start as i64 - range.end as i64) * n as i64 / threads as i64) as u32;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
         let allocator_savepoint = features::ALLOC.save_point();
-        for n in 0..threads as i32 {
-            let chunked_range = i32_range.start+chunk_size*n..i32_range.start+chunk_size*(n+1);
-            thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range.start as u32 .. chunked_range.end as u32)) );
+        for n in 0..threads {
+            let chunked_range = chunk_boundary(n)..chunk_boundary(n+1);
+            thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range)) );
         }
 
         // wait for them all to finish
-        let mut r = range.start+1;
+        let mut r = range.start.wrapping_add(1);
         let mut elapsed_seconds_average = 0.0f64;
         for handler in thread_handlers {
             let joining_result = handler.join();
-- 
2.43.0


From 2084d2ee68979df5fb19c99770d0ddc7796c7024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 15/18] fix: total memory variation and auxiliary space no
 longer overflow in between their calculations

---
 src/low_level_analysis/types/types_impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 3408687..13a019a 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -148,14 +148,14 @@ impl BigOSpaceMeasurements {
     /// returns the resulting used memory, obtained from the space complexity analysis measurements --
     /// >0 if memory was allocated and <0 if memory was freed
     pub fn used_memory_delta(&self) -> isize {
-        self.pass_2_measurements.used_memory_after as isize - self.pass_2_measurements.used_memory_before as isize +
-            self.pass_1_measurements.used_memory_after as isize - self.pass_1_measurements.used_memory_before as isize
+        (self.pass_2_measurements.used_memory_after as isize - self.pass_2_measurements.used_memory_before as isize) +
+            (self.pass_1_measurements.used_memory_after as isize - self.pass_1_measurements.used_memory_before as isize)
     }
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
     pub fn used_auxiliary_space(&self) -> usize {
-        self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before) +
-            self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before)
+        (self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before)) +
+            (self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before))
     }
 }
 impl Display for BigOSpaceMeasurements {
-- 
2.43.0


From 48868d7fa4c02ef7f20485b9c9014cb89d4afbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 16/18] verif hooks: access to internals under --cfg
 big_o_verif

---
 src/lib.rs                                    |  5 ++++
 src/metrics_allocator/ring_buffer.rs          |  7 +++++
 .../measurements/presentable_measurements.rs  |  5 ++++
 src/verif_hooks.rs                            | 28 +++++++++++++++++++
 4 files changed, 45 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 6651f60..f641ee7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]    // `big_o_verif` -- see [verif_hooks]
 
 
 mod api;
@@ -9,6 +10,10 @@ pub mod metrics_allocator;
 mod features;
 pub(crate) mod utils;
 
+/// Gives external verification harnesses access to some internals -- only present when compiling with `--cfg big_o_verif`
+#[cfg(big_o_verif)]
+pub mod verif_hooks;
+
 // exported symbols
 pub use {
     features::{ALLOC, OUTPUT},
diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1ad29c9..fd3dca9 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -82,6 +82,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
         RING_BUFFER_SIZE
     }
 
+    /// as if `count` elements had already been enqueued
+    #[cfg(big_o_verif)]
+    pub fn verif_preset(&mut self, count: u64) {
+        *self.reserved_tail.get_mut() = count as _;
+        *self.published_tail.get_mut() = count as _;
+    }
+
 }
 
 
diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 2737e5a..a092c5a 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -178,6 +178,11 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
     }
 }
 
+#[cfg(big_o_verif)]
+pub fn verif_custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
+    custom_unit_per_second_measurement(value, custom_unit)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..b1c9c04
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,28 @@
+//! Access to internals, for external verification harnesses -- only compiled when `--cfg big_o_verif` is given
+
+use crate::low_level_analysis::types::BigOIteratorAlgorithmType;
+use crate::runners::common;
+use std::fmt::Debug;
+use std::future::Future;
+use std::ops::Range;
+
+pub use crate::runners::common::PassResult;
+pub use crate::utils::measurements::{measurer, presentable_measurements};
+
+pub fn run_iterator_pass<Algorithm: Fn(u32) -> u32 + Sync>
+                        (algorithm: &Algorithm, algorithm_type: &BigOIteratorAlgorithmType, range: Range<u32>, threads: u32)
+                        -> (PassResult, u32) {
+    common::run_iterator_pass(algorithm, algorithm_type, range, threads)
+}
+
+pub fn run_sync_pass(algorithm: impl FnMut() -> u32) -> (PassResult, u32) {
+    common::run_sync_pass(algorithm)
+}
+
+pub async fn run_async_pass<PassFn:  FnMut(Option<Data>) -> PassFut + Send + Sync,
+                            PassFut: Future<Output=Data> + Send,
+                            Data:    Send + Sync + Debug>
+                           (data: Option<Data>, pass_fn: PassFn)
+                           -> (PassResult, Data) {
+    common::run_async_pass(data, pass_fn).await
+}
-- 
2.43.0


From d7e4edb63245fc24f76c1dd5ba91fea5f356d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 17/18] verif hook: where the used memory is kept

---
 src/metrics_allocator/metrics_allocator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 161334a..1302553 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -199,6 +199,12 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
         })
     }
 
+    /// where the used memory is kept
+    #[cfg(big_o_verif)]
+    pub fn verif_current_used_memory(&self) -> *const u8 {
+        &self.statistics.current_used_memory as *const _ as *const u8
+    }
+
     /// compute metrics for allocation
     fn compute_alloc_metrics(&self, layout: &Layout) {
         self.statistics.allocations_count.fetch_add(1, Ordering::Relaxed);
-- 
2.43.0


From a2d62f614cb603d0c0bf9117abab350db5c7dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:38 +0000
Subject: [PATCH 18/18] fix: figures of a save point always include the memory
 in use then and now, even while other threads allocate

---
 src/metrics_allocator/metrics_allocator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 1302553..672b74e 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -183,6 +183,10 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
         // compute the current (min,max)
         min = min.min(self.statistics.min_used_memory.load(Ordering::Relaxed));
         max = max.max(self.statistics.max_used_memory.load(Ordering::Relaxed));
+        // what was in use then and what is now belong to the period as well -- another thread may be just about to account for it in (min,max)
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        min = min.min(save_point.metrics.current_used_memory).min(current_used_memory);
+        max = max.max(save_point.metrics.current_used_memory).max(current_used_memory);
         Ok(MetricsAllocatorStatistics::<usize> {
             allocations_count:           self.statistics.allocations_count          .load(Ordering::Relaxed) - save_point.metrics.allocations_count,
             deallocations_count:         self.statistics.deallocations_count        .load(Ordering::Relaxed) - save_point.metrics.deallocations_count,
@@ -193,7 +197,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
             zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed) - save_point.metrics.zeroed_allocated_bytes,
             reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed) - save_point.metrics.reallocated_originals_bytes,
             reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed) - save_point.metrics.reallocated_news_bytes,
-            current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+            current_used_memory,
             min_used_memory:             min,
             max_used_memory:             max,
         })
-- 
2.43.0

