From 83c2c0ab73c940686bba68bcd3a6e138d6dd3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:24 +0000
Subject: [PATCH 01/18] hooks: cfg(thingbuf_mc) routes synchronization
 primitives through a model-checking shim

---
 src/lib.rs           |  6 ++++++
 src/loom.rs          | 10 +++++++++-
 src/mpsc/blocking.rs |  6 +++++-
 src/util/mutex.rs    |  8 +++++++-
 src/util/panic.rs    |  7 ++++++-
 src/wait/queue.rs    |  9 +++++++++
 6 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 228ffe8..5c363fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,12 @@ use core::{cmp, fmt, mem::MaybeUninit, ops, ptr};
 mod macros;
 
 mod loom;
+// Model-checking shim: stands in for the platform's synchronization primitives
+// when built with `--cfg thingbuf_mc` (never enabled in normal builds).
+#[cfg(thingbuf_mc)]
+mod mc {
+    include!(env!("THINGBUF_MC_SHIM"));
+}
 pub mod mpsc;
 pub mod recycling;
 mod util;
diff --git a/src/loom.rs b/src/loom.rs
index 7b67828..bb637c9 100644
--- a/src/loom.rs
+++ b/src/loom.rs
@@ -200,7 +200,15 @@ mod inner {
     }
 }
 
-#[cfg(not(all(loom, test)))]
+#[cfg(all(thingbuf_mc, not(all(loom, test))))]
+mod inner {
+    #![allow(unused_imports)]
+    #[cfg(feature = "std")]
+    pub(crate) use crate::mc::thread;
+    pub(crate) use crate::mc::{alloc_track as alloc, atomic, cell, hint, sync, traceln};
+}
+
+#[cfg(not(any(thingbuf_mc, all(loom, test))))]
 mod inner {
     #![allow(dead_code)]
     pub(crate) mod sync {
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index cb6f037..1d41d5a 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -16,7 +16,11 @@ use crate::{
 };
 use core::{fmt, pin::Pin};
 use errors::*;
-use std::time::{Duration, Instant};
+#[cfg(thingbuf_mc)]
+use crate::mc::time::Instant;
+use std::time::Duration;
+#[cfg(not(thingbuf_mc))]
+use std::time::Instant;
 
 /// Returns a new synchronous multi-producer, single consumer (MPSC)
 /// channel with  the provided capacity.
diff --git a/src/util/mutex.rs b/src/util/mutex.rs
index 944a4ca..0ae9b78 100644
--- a/src/util/mutex.rs
+++ b/src/util/mutex.rs
@@ -5,7 +5,7 @@ pub(crate) use self::spin_impl::*;
 mod spin_impl;
 
 feature! {
-    #![all(feature = "std", not(all(loom, test)))]
+    #![all(feature = "std", not(all(loom, test)), not(thingbuf_mc))]
     #[allow(unused_imports)]
     pub(crate) use parking_lot::{Mutex, MutexGuard, const_mutex};
 }
@@ -15,3 +15,9 @@ feature! {
     mod loom_impl;
     pub(crate) use self::loom_impl::*;
 }
+
+feature! {
+    #![all(feature = "std", thingbuf_mc, not(all(loom, test)))]
+    #[allow(unused_imports)]
+    pub(crate) use crate::mc::mutex::{Mutex, MutexGuard, const_mutex};
+}
diff --git a/src/util/panic.rs b/src/util/panic.rs
index 0a51a08..2846cd4 100644
--- a/src/util/panic.rs
+++ b/src/util/panic.rs
@@ -1,7 +1,12 @@
 pub(crate) use self::inner::*;
 pub(crate) use core::panic::*;
 
-#[cfg(feature = "std")]
+#[cfg(all(feature = "std", thingbuf_mc))]
+mod inner {
+    pub(crate) use crate::mc::panic::*;
+}
+
+#[cfg(all(feature = "std", not(thingbuf_mc)))]
 mod inner {
     pub(crate) fn panicking() -> bool {
         std::thread::panicking()
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index f820a70..dd298ea 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -532,6 +532,15 @@ impl<T> Waiter<T> {
     }
 }
 
+// Tell the model checker that this node no longer exists, so that any later
+// access through a dangling link is detected.
+#[cfg(thingbuf_mc)]
+impl<T> Drop for Waiter<T> {
+    fn drop(&mut self) {
+        crate::mc::retire(self);
+    }
+}
+
 unsafe impl<T: Send> Send for Waiter<T> {}
 unsafe impl<T: Send> Sync for Waiter<T> {}
 
-- 
2.43.0


From 80ccf0d2f4ef1830c41dcbf2e7a1278c54bf0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:36 +0000
Subject: [PATCH 02/18] fix: is_closed() of TrySendError and SendTimeoutError
 tested the wrong variant

---
 src/mpsc/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/errors.rs b/src/mpsc/errors.rs
index a41df34..b4b127c 100644
--- a/src/mpsc/errors.rs
+++ b/src/mpsc/errors.rs
@@ -141,7 +141,7 @@ impl<T> SendTimeoutError<T> {
     /// [`send`]: super::blocking::Sender::send
     /// [`Receiver`]: super::blocking::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Timeout(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
@@ -208,7 +208,7 @@ impl<T> TrySendError<T> {
     /// [`send`]: super::Sender::send
     /// [`Receiver`]: super::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Full(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
-- 
2.43.0


From 7fc8ee5c33467836a7f2afa815724b398e2c630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:36 +0000
Subject: [PATCH 03/18] fix: Receiver::is_closed() was already true while one
 sender was still alive

---
 src/mpsc/async_impl.rs | 4 ++--
 src/mpsc/blocking.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 9f3431b..da198ed 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -579,7 +579,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1284,7 +1284,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 1d41d5a..e1063b2 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -877,7 +877,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1563,7 +1563,7 @@ impl<T, R> Receiver<T, R> {
     /// If this method returns `true`, no new messages will become available
     /// on this channel. Previously sent messages may still be available.
     pub fn is_closed(&self) -> bool {
-        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
     }
 }
 
-- 
2.43.0


From 97ad81472816b0683414654ba26a5826dcda35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:45 +0000
Subject: [PATCH 04/18] fix: WaitQueue::notify acted on a queue state read
 before taking the lock, losing wakeups

---
 src/wait/queue.rs | 77 ++++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index dd298ea..8d81c16 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -388,55 +388,64 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // Slow path: there are waiters in the queue, so we must acquire the
         // lock and wake one of them.
-        self.notify_slow(state)
+        self.notify_slow()
     }
 
     /// Slow path for `notify`: acquire the lock on the linked list, dequeue a
     /// waiter, and notify it.
     #[cold]
     #[inline(never)]
-    fn notify_slow(&self, state: usize) -> bool {
-        test_println!("WaitQueue::notify_slow(state: {})", state);
+    fn notify_slow(&self) -> bool {
+        test_println!("WaitQueue::notify_slow()");
 
         let mut list = self.list.lock();
-        match state {
-            EMPTY | WAKING => {
-                if let Err(actual) = self.state.compare_exchange(state, WAKING, SeqCst, SeqCst) {
-                    debug_assert!(actual == EMPTY || actual == WAKING);
-                    self.state.store(WAKING, SeqCst);
+        // Reload the queue's state, as it may have changed while we were
+        // waiting to lock the linked list: the last waiter may have been woken
+        // by someone else, or may have removed itself from the queue.
+        let mut state = self.state.load(Acquire);
+        loop {
+            match test_dbg!(state) {
+                // There are no waiters any more, so assign the notification to
+                // the queue.
+                EMPTY | WAKING => {
+                    match test_dbg!(self.state.compare_exchange(state, WAKING, SeqCst, SeqCst)) {
+                        Ok(_) => return false,
+                        Err(actual) => state = actual,
+                    }
                 }
-            }
-            WAITING => {
-                let waiter = list.dequeue(WAKING);
-                debug_assert!(
-                    waiter.is_some(),
-                    "if we were in the `WAITING` state, there must be a waiter in the queue!\nself={:#?}",
-                    self,
-                );
+                WAITING => {
+                    let waiter = list.dequeue(WAKING);
+                    debug_assert!(
+                        waiter.is_some(),
+                        "if we were in the `WAITING` state, there must be a waiter in the queue!\nself={:#?}",
+                        self,
+                    );
 
-                // If we popped the last node, transition back to the empty
-                // state.
-                if test_dbg!(list.is_empty()) {
-                    self.state.store(EMPTY, SeqCst);
-                }
+                    // If we popped the last node, transition back to the empty
+                    // state (unless the queue was closed in the meantime).
+                    if test_dbg!(list.is_empty()) {
+                        let _ = self.state.compare_exchange(WAITING, EMPTY, SeqCst, SeqCst);
+                    }
+
+                    // drop the lock
+                    drop(list);
 
-                // drop the lock
-                drop(list);
+                    // wake the waiter
+                    if let Some(waiter) = waiter {
+                        waiter.notify();
+                        return true;
+                    }
 
-                // wake the waiter
-                if let Some(waiter) = waiter {
-                    waiter.notify();
-                    return true;
+                    return false;
+                }
+                // The queue is closed: everyone who is still waiting is about
+                // to be woken.
+                _state => {
+                    debug_assert_eq!(_state, CLOSED, "notify_slow: unexpected state value");
+                    return false;
                 }
-            }
-            _weird => {
-                // huh, if `notify_slow` was called, we *probably* shouldn't be
-                // in the `closed` state...
-                #[cfg(debug_assertions)]
-                unreachable!("notify_slow: unexpected state value {:?}", _weird);
             }
         }
-        false
     }
 
     /// Close the queue, notifying all waiting tasks.
-- 
2.43.0


From 9966ce3976d2a07a926e0d10f000d205d07372cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:14 +0000
Subject: [PATCH 05/18] fix: a waiter was marked as woken before it was
 unlinked, so its owner could free it too early

---
 src/wait/queue.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 8d81c16..a4ae986 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -596,8 +596,6 @@ impl<T> List<T> {
         test_println!("List::dequeue({:?}) -> {:p}", new_state, last);
 
         let last = unsafe { last.as_mut() };
-        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
-        debug_assert_eq!(_prev_state, WAITING);
 
         let (prev, waiter) = last.with_node(self, |node| {
             node.next = None;
@@ -613,6 +611,11 @@ impl<T> List<T> {
 
         self.tail = prev;
 
+        // This must come last: as soon as the node's owner sees the new state,
+        // it may return and free the node, without taking the lock.
+        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
+        debug_assert_eq!(_prev_state, WAITING);
+
         waiter
     }
 
-- 
2.43.0


From ac41e5a47c057a1b1d1f1bdebd6848757f42f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:14 +0000
Subject: [PATCH 06/18] fix: WaitQueue::close called wakers while holding the
 list lock

---
 src/wait/queue.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index a4ae986..bfce03d 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -453,9 +453,18 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         test_println!("WaitQueue::close()");
 
         test_dbg!(self.state.swap(CLOSED, SeqCst));
-        let mut list = self.list.lock();
-        while !list.is_empty() {
-            if let Some(waiter) = list.dequeue(CLOSED) {
+        loop {
+            // Wake each waiter *after* releasing the lock: a waker may run (or
+            // drop) the woken task immediately, and that task may need the lock
+            // as well.
+            let waiter = {
+                let mut list = self.list.lock();
+                if list.is_empty() {
+                    break;
+                }
+                list.dequeue(CLOSED)
+            };
+            if let Some(waiter) = waiter {
                 waiter.notify();
             }
         }
-- 
2.43.0


From 2c1b888e690e4b820baedb5d328a700a1b89aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:14 +0000
Subject: [PATCH 07/18] fix: a panic in a waker's clone left the wait queue
 marked as non-empty

---
 src/wait/queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index bfce03d..6fb0bda 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -211,6 +211,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // still open. Therefore, it's time to actually push the waiter to
         // the queue...finally lol :)
 
+        // Clone the waiter before touching the queue: this may call into user
+        // code, which may panic.
+        let waiter = waiter.clone();
+
         // Grab the lock...
         let mut list = self.list.lock();
         // Reload the queue's state, as it may have changed while we were
@@ -270,7 +274,7 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // to Waiting, and add it to the queue.
 
         node.with_node(&mut *list, |node| {
-            let _prev = node.waiter.replace(waiter.clone());
+            let _prev = node.waiter.replace(waiter);
             debug_assert!(
                 _prev.is_none(),
                 "start_wait_slow: called with a node that already had a waiter!"
-- 
2.43.0


From 6a1d46e9fb802187d9d1988f34d66263c0aa23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:59 +0000
Subject: [PATCH 08/18] fix: dropping a send future that was already notified
 swallowed the wakeup

---
 src/mpsc/async_impl.rs |  2 +-
 src/wait/queue.rs      | 40 +++++++++++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index da198ed..a1a6f9b 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1495,7 +1495,7 @@ impl<T, R> PinnedDrop for SendRefFuture<'_, T, R> {
     fn drop(self: Pin<&mut Self>) {
         test_println!("SendRefFuture::drop({:p})", self);
         let this = self.project();
-        if test_dbg!(*this.state) == State::Waiting && test_dbg!(this.waiter.is_linked()) {
+        if test_dbg!(*this.state) == State::Waiting {
             this.waiter.remove(&this.core.tx_wait)
         }
     }
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 6fb0bda..af0f2ce 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -490,24 +490,42 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    /// Stop waiting, removing this node from the queue.
+    ///
+    /// If a notification has already been assigned to this node, it is passed
+    /// on to the next waiter (or back to the queue), so that it is not lost.
     #[inline(never)]
-    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) {
+    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>)
+    where
+        T: Unpin,
+    {
         test_println!("Waiter::remove({:p})", self);
         let mut list = q.list.lock();
-        unsafe {
-            // Safety: removing a node is unsafe even when the list is locked,
-            // because there's no way to guarantee that the node is part of
-            // *this* list. However, the potential callers of this method will
-            // never have access to any other linked lists, so we can just kind
-            // of assume that this is safe.
-            list.remove(self);
-        }
-        if test_dbg!(list.is_empty()) {
-            let _ = test_dbg!(q.state.compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
+        // The node may have been woken before we acquired the lock.
+        match test_dbg!(self.state.load(Acquire)) {
+            WAITING => {
+                unsafe {
+                    // Safety: removing a node is unsafe even when the list is locked,
+                    // because there's no way to guarantee that the node is part of
+                    // *this* list. However, the potential callers of this method will
+                    // never have access to any other linked lists, so we can just kind
+                    // of assume that this is safe.
+                    list.remove(self);
+                }
+                if test_dbg!(list.is_empty()) {
+                    let _ = test_dbg!(q.state.compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
+                }
+            }
+            WAKING => {
+                drop(list);
+                q.notify();
+            }
+            _ => {}
         }
     }
 
     #[inline]
+    #[cfg(test)]
     pub(crate) fn is_linked(&self) -> bool {
         test_dbg!(self.state.load(Acquire)) == WAITING
     }
-- 
2.43.0


From 0b2a835171305d41c7a6e1a4c990c711d5028933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:44 +0000
Subject: [PATCH 09/18] fix: blocking senders spun forever when the slot they
 were woken for was taken by someone else

---
 src/mpsc/blocking.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index e1063b2..603621e 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1690,7 +1690,9 @@ fn send_ref<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(Closed(())),
-                    _ => {}
+                    // Someone else took the slot. The notification has been
+                    // consumed, so we have to join the queue again.
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
@@ -1743,7 +1745,9 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
-                    _ => {}
+                    // Someone else took the slot. The notification has been
+                    // consumed, so we have to join the queue again.
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
-- 
2.43.0


From ab338da5f3581ee60836c038f5dc8ed58f343d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:44 +0000
Subject: [PATCH 10/18] fix: a timed-out blocking send left its stack-allocated
 waiter in the wait queue and could overrun its timeout

---
 src/mpsc/blocking.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 603621e..86d7415 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1752,11 +1752,17 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
             }
             WaitResult::Wait => {
                 unqueued = false;
-                thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
+                    // Leave the queue before the node goes out of scope.
+                    let node = unsafe {
+                        // Safety: as above.
+                        Pin::new_unchecked(&mut waiter)
+                    };
+                    node.remove(&core.tx_wait);
                     return Err(SendTimeoutError::Timeout(()));
                 }
+                thread::park_timeout(timeout - elapsed);
             }
         }
     }
-- 
2.43.0


From ee5d0dba8f0e1ef9a270c6352f1110fe98b2a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:44 +0000
Subject: [PATCH 11/18] fix: a timed blocking receive could overrun its timeout
 after an early wakeup

---
 src/mpsc/blocking.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 86d7415..744e99e 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1640,12 +1640,12 @@ fn recv_ref_timeout<'a, T>(
                     .ok_or(RecvTimeoutError::Closed);
             }
             Poll::Pending => {
-                test_println!("park_timeout ({:?})", thread::current());
-                thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     return Err(RecvTimeoutError::Timeout);
                 }
+                test_println!("park_timeout ({:?})", thread::current());
+                thread::park_timeout(timeout - elapsed);
             }
         }
     }
-- 
2.43.0


From b2e9b94eccef318353248c74c2746a4f77725870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:44 +0000
Subject: [PATCH 12/18] fix: handles dropped while unwinding did not close the
 channel, leaving the peer waiting forever

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c363fa..ac35c09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -173,7 +173,8 @@ impl Core {
 
     fn close(&self) -> bool {
         test_println!("Core::close");
-        if crate::util::panic::panicking() {
+        // Don't touch a model's state any more once a loom test has failed.
+        if cfg!(all(loom, test)) && crate::util::panic::panicking() {
             return false;
         }
         test_dbg!(self.tail.fetch_or(self.closed, SeqCst) & self.closed == 0)
-- 
2.43.0


From 8381df9022cb03185748f33e923af97a5d5ab093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:26 +0000
Subject: [PATCH 13/18] fix: push and pop hung while another push or pop
 reference to the slot in turn was alive

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ac35c09..c6b1351 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -278,6 +278,20 @@ impl Core {
                     return Err(TrySendError::Full(()));
                 }
 
+                // The slot has been claimed by a pop that has not completed
+                // yet. It may take arbitrarily long to do so.
+                if test_dbg!(backoff.done_spinning()) {
+                    return Err(TrySendError::Full(()));
+                }
+
+                backoff.spin();
+            } else if test_dbg!(state.wrapping_add(self.gen) == tail) {
+                // A push in the previous lap has not completed yet. It may take
+                // arbitrarily long to do so.
+                if test_dbg!(backoff.done_spinning()) {
+                    return Err(TrySendError::Full(()));
+                }
+
                 backoff.spin();
             } else {
                 backoff.spin_yield();
@@ -341,7 +355,9 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state == head) {
+            // Otherwise, the slot has not been pushed to in this lap (it may even
+            // still be in use by a pop in the previous lap).
+            if test_dbg!(state == head || state.wrapping_add(self.gen) == head + 1) {
                 // fake RMW op to placate loom. this should be equivalent to
                 // doing a relaxed load after a SeqCst fence (per Godbolt
                 // https://godbolt.org/z/zb15qfEa9), however, loom understands
-- 
2.43.0


From 6c608228466541df31e101200f276ab9b84fb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:16 +0000
Subject: [PATCH 14/18] fix: freed slots sharing one stored notification left a
 waiting sender stranded

---
 src/mpsc.rs            | 20 ++++++++++++++++++++
 src/mpsc/async_impl.rs |  6 ++++--
 src/mpsc/blocking.rs   |  4 ++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/mpsc.rs b/src/mpsc.rs
index a49d468..abc1456 100644
--- a/src/mpsc.rs
+++ b/src/mpsc.rs
@@ -363,6 +363,26 @@ where
         })
     }
 
+    /// Tries to send after having consumed a notification from the wait queue.
+    ///
+    /// If several slots became free while no sender was queued, the queue has
+    /// stored just one notification for all of them. So, pass it on to the next
+    /// waiting sender if there is capacity left.
+    fn try_send_ref_notified<'a, T, R>(
+        &'a self,
+        slots: &'a [Slot<T>],
+        recycle: &R,
+    ) -> Result<SendRefInner<'a, T, N>, TrySendError>
+    where
+        R: Recycle<T>,
+    {
+        let slot = self.try_send_ref(slots, recycle)?;
+        if test_dbg!(self.core.len() < self.core.capacity()) {
+            self.tx_wait.notify();
+        }
+        Ok(slot)
+    }
+
     fn try_send<T, R>(&self, slots: &[Slot<T>], val: T, recycle: &R) -> Result<(), TrySendError<T>>
     where
         R: Recycle<T>,
diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index a1a6f9b..3888e3d 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1461,7 +1461,9 @@ where
                             *this.state = State::Waiting;
                             return Poll::Pending;
                         }
-                        WaitResult::Notified => continue,
+                        WaitResult::Notified => {
+                            *this.state = State::Done;
+                        }
                     }
                 }
                 State::Waiting => {
@@ -1478,7 +1480,7 @@ where
                         }
                     }
                 }
-                State::Done => match this.core.try_send_ref(this.slots, *this.recycle) {
+                State::Done => match this.core.try_send_ref_notified(this.slots, *this.recycle) {
                     Ok(slot) => return Poll::Ready(Ok(SendRef(slot))),
                     Err(TrySendError::Closed(_)) => return Poll::Ready(Err(Closed(()))),
                     Err(_) => {
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 744e99e..fb77b1e 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1687,7 +1687,7 @@ fn send_ref<'a, T, R: Recycle<T>>(
             WaitResult::Closed => return Err(Closed(())),
             WaitResult::Notified => {
                 boff.spin_yield();
-                match core.try_send_ref(slots.as_ref(), recycle) {
+                match core.try_send_ref_notified(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(Closed(())),
                     // Someone else took the slot. The notification has been
@@ -1742,7 +1742,7 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
             WaitResult::Closed => return Err(SendTimeoutError::Closed(())),
             WaitResult::Notified => {
                 boff.spin_yield();
-                match core.try_send_ref(slots.as_ref(), recycle) {
+                match core.try_send_ref_notified(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
                     // Someone else took the slot. The notification has been
-- 
2.43.0


From dfd2ed36ffa36eaf2200ed4d2336a428efe981d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:07 +0000
Subject: [PATCH 15/18] fix: a static channel that was never turned into a
 static leaked its elements when dropped

---
 src/mpsc/async_impl.rs | 6 ++++++
 src/mpsc/blocking.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 3888e3d..866bb0a 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -756,6 +756,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..])
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index fb77b1e..f02c4e0 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -244,6 +244,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..])
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
-- 
2.43.0


From f4d20796c137d7320c962ca0eabac284507fa4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:47 +0000
Subject: [PATCH 16/18] fix: static queues and channels with no capacity
 accessed slots out of bounds

---
 src/mpsc/async_impl.rs | 1 +
 src/mpsc/blocking.rs   | 1 +
 src/static_thingbuf.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 866bb0a..f560124 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -705,6 +705,7 @@ feature! {
         /// [`split`]: StaticChannel::split
         #[must_use]
         pub const fn new() -> Self {
+            assert!(CAPACITY > 0);
             Self {
                 core: ChannelCore::new(CAPACITY),
                 slots: Slot::make_static_array::<CAPACITY>(),
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index f02c4e0..e584491 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -193,6 +193,7 @@ feature! {
         /// [`split`]: StaticChannel::split
         #[must_use]
         pub const fn new() -> Self {
+            assert!(CAPACITY > 0);
             Self {
                 core: ChannelCore::new(CAPACITY),
                 slots: Slot::make_static_array::<CAPACITY>(),
diff --git a/src/static_thingbuf.rs b/src/static_thingbuf.rs
index 2635bc6..5c7990d 100644
--- a/src/static_thingbuf.rs
+++ b/src/static_thingbuf.rs
@@ -220,6 +220,7 @@ impl<T, const CAP: usize, R> StaticThingBuf<T, CAP, R> {
     /// [recycling policy]: crate::recycling::Recycle
     #[must_use]
     pub const fn with_recycle(recycle: R) -> Self {
+        assert!(CAP > 0);
         StaticThingBuf {
             core: Core::new(CAP),
             recycle,
-- 
2.43.0


From 1e5d00e6522a8ff60533edf53670a0c2b180ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 17/18] fix: a panic in a recycling policy left the claimed
 slot locked, and an uninitialized element could be dropped

---
 src/lib.rs  | 40 ++++++++++++++++++++++++----------------
 src/mpsc.rs | 17 +++++++++++++----
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c6b1351..6b6b026 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -232,27 +232,30 @@ impl Core {
                         // Claim exclusive ownership over the slot
                         let ptr = slot.value.get_mut();
 
-                        // Initialize or recycle the element.
-                        unsafe {
-                            // Safety: we have just claimed exclusive ownership over
-                            // this slot.
-                            let ptr = ptr.deref();
-                            if gen == 0 {
-                                ptr.write(recycle.new_element());
-                                test_println!("-> initialized");
-                            } else {
-                                // Safety: if the generation is > 0, then the
-                                // slot has already been initialized.
-                                recycle.recycle(ptr.assume_init_mut());
-                                test_println!("-> recycled");
+                        // Initialize the element, if it is not initialized yet.
+                        if gen == 0 {
+                            unsafe {
+                                // Safety: we have just claimed exclusive ownership over
+                                // this slot.
+                                ptr.deref().write(recycle.new_element());
                             }
+                            test_println!("-> initialized");
                         }
 
-                        return Ok(Ref {
+                        let mut slot = Ref {
                             ptr,
                             new_state: tail + 1,
                             slot,
-                        });
+                        };
+
+                        // Otherwise, recycle it. If this panics, dropping the
+                        // `Ref` releases the slot.
+                        if gen != 0 {
+                            slot.with_mut(|value| recycle.recycle(value));
+                            test_println!("-> recycled");
+                        }
+
+                        return Ok(slot);
                     }
                     Err(actual) => {
                         // Someone else took this slot and advanced the tail
@@ -421,7 +424,12 @@ impl Core {
         let tail = self.tail.load(SeqCst);
         let (idx, gen) = self.idx_gen(tail);
         let num_initialized = if gen > 0 { self.capacity() } else { idx };
-        for slot in &mut slots[..num_initialized] {
+        for (idx, slot) in slots[..num_initialized].iter_mut().enumerate() {
+            // If initializing the slot's first element panicked, the slot was
+            // claimed but there is nothing in it, and it was never released.
+            if test_dbg!(slot.state.load(Acquire)) == idx {
+                continue;
+            }
             unsafe {
                 slot.value
                     .with_mut(|value| ptr::drop_in_place((*value).as_mut_ptr()));
diff --git a/src/mpsc.rs b/src/mpsc.rs
index abc1456..255dca0 100644
--- a/src/mpsc.rs
+++ b/src/mpsc.rs
@@ -357,10 +357,19 @@ where
     where
         R: Recycle<T>,
     {
-        self.core.push_ref(slots, recycle).map(|slot| SendRefInner {
-            _notify: NotifyRx(&self.rx_wait),
-            slot,
-        })
+        // If recycling the element panics, the slot is released, so the receiver
+        // has to be notified in that case, too.
+        let notify = NotifyRx(&self.rx_wait);
+        match self.core.push_ref(slots, recycle) {
+            Ok(slot) => Ok(SendRefInner {
+                _notify: notify,
+                slot,
+            }),
+            Err(e) => {
+                core::mem::forget(notify);
+                Err(e)
+            }
+        }
     }
 
     /// Tries to send after having consumed a notification from the wait queue.
-- 
2.43.0


From 361e2a25b615cbc388e33d29858c4aa4c87bcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 18/18] fix: drop a replaced waiter after releasing the wait
 queue's lock

When a pending send is polled with a new waker, the old one was dropped
while the list of waiters was locked. If that was the last reference to
the old task, and that task owned another pending send on the same
channel, dropping that send tried to lock the list again: a deadlock.
---
 src/wait/queue.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index af0f2ce..c320d62 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -351,17 +351,17 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // Okay, we were not woken and need to continue waiting. It may be
         // necessary to update the waiter with a new waiter (in practice, this
         // is only necessary in async).
-        node.with_node(&mut *list, |node| {
-            if let Some(ref mut waiter) = node.waiter {
-                if !waiter.same(my_waiter) {
-                    *waiter = my_waiter.clone();
-                }
-            } else {
-                // XXX(eliza): This branch should _probably_ never occur...
-                node.waiter = Some(my_waiter.clone());
-            }
+        let prev_waiter = node.with_node(&mut *list, |node| match node.waiter {
+            Some(ref waiter) if waiter.same(my_waiter) => None,
+            // XXX(eliza): the waiter should _probably_ always be `Some` here...
+            ref mut waiter => waiter.replace(my_waiter.clone()),
         });
 
+        // Drop the old waiter *after* releasing the lock: this may drop the
+        // task it would have woken, and that task may need the lock as well.
+        drop(list);
+        drop(prev_waiter);
+
         WaitResult::Wait
     }
 
-- 
2.43.0

