From 10132559fd68e3359fcc76e4ed01a180ee35b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 1/8] fix: make Ord for Address consistent with Eq and
 PartialOrd

Two Either addresses of the same actor, one strong and one weak, compared as
Equal under Ord although they are neither == nor Equal under PartialOrd.
---
 xtra/src/address.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtra/src/address.rs b/xtra/src/address.rs
index 11502ca..1a6407f 100644
--- a/xtra/src/address.rs
+++ b/xtra/src/address.rs
@@ -302,7 +302,10 @@ impl<A, Rc: RefCounter, Rc2: RefCounter> PartialOrd<Address<A, Rc2>> for Address
 
 impl<A, Rc: RefCounter> Ord for Address<A, Rc> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.inner_ptr().cmp(&other.0.inner_ptr())
+        match self.0.inner_ptr().cmp(&other.0.inner_ptr()) {
+            Ordering::Equal => self.0.is_strong().cmp(&other.0.is_strong()),
+            ord => ord,
+        }
     }
 }
 
-- 
2.43.0


From bd6c0bb33a460b60414d8304a0bb021f0f616623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 2/8] fix: let waiting senders of equal priority in by order of
 sending

max_by_key returns the last of several equal maxima, so the newest waiting
send was let into the mailbox first.
---
 xtra/src/chan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187d963..3fc3680 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -435,7 +435,7 @@ where
     let pos = queue
         .iter()
         .enumerate()
-        .max_by_key(|(_, handle)| handle.priority())?
+        .min_by_key(|(_, handle)| cmp::Reverse(handle.priority()))? // The first one, if tied
         .0;
 
     queue.remove(pos)
-- 
2.43.0


From fc4bba82aeb20439e4af4d86a9736d3217181441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 3/8] fix: handle messages of equal priority in order of
 sending

The docs of Address promise that the default priority mailbox preserves the
order of sending, but BinaryHeap does not keep equal elements in order. Give
each queued message a sequence number that breaks ties.
---
 xtra/src/chan.rs          | 21 +++++++++++++++++----
 xtra/src/chan/priority.rs | 12 +++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 3fc3680..2a68651 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -127,7 +127,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.unicast_queue.push(ByPriority(unfulfilled_msg));
+        inner.push_unicast(unfulfilled_msg);
 
         Ok(Ok(()))
     }
@@ -290,7 +290,7 @@ impl<A> Chan<A> {
         };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.unicast_queue.push(ByPriority(msg));
+            inner.push_unicast(msg);
         }
     }
 
@@ -310,6 +310,7 @@ struct Inner<A> {
     unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
+    next_seq: u64,
 }
 
 impl<A> Inner<A> {
@@ -322,6 +323,7 @@ impl<A> Inner<A> {
             unicast_queue: BinaryHeap::default(),
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
+            next_seq: 0,
         }
     }
 
@@ -330,7 +332,7 @@ impl<A> Inner<A> {
 
         if !self.is_unicast_full() {
             if let Some(msg) = self.try_take_waiting_unicast_message() {
-                self.unicast_queue.push(ByPriority(msg))
+                self.push_unicast(msg)
             }
         }
 
@@ -366,10 +368,21 @@ impl<A> Inner<A> {
         longest
     }
 
+    fn push_unicast(&mut self, m: MessageToOne<A>) {
+        let seq = self.next_seq();
+        self.unicast_queue.push(ByPriority(m, seq));
+    }
+
+    fn next_seq(&mut self) -> u64 {
+        self.next_seq += 1;
+        self.next_seq
+    }
+
     fn send_broadcast(&mut self, m: MessageToAll<A>) {
+        let seq = self.next_seq();
         self.broadcast_queues.retain(|queue| match queue.upgrade() {
             Some(q) => {
-                q.lock().push(ByPriority(m.clone()));
+                q.lock().push(ByPriority(m.clone(), seq));
                 true
             }
             None => false, // The corresponding receiver has been dropped - remove it
diff --git a/xtra/src/chan/priority.rs b/xtra/src/chan/priority.rs
index 1c01ee7..3a98be8 100644
--- a/xtra/src/chan/priority.rs
+++ b/xtra/src/chan/priority.rs
@@ -17,7 +17,10 @@ pub trait HasPriority {
 }
 
 /// A wrapper struct that allows comparison and ordering for anything thas has a priority, i.e. implements [`HasPriority`].
-pub struct ByPriority<T>(pub T);
+///
+/// The second field is a sequence number: of two values with equal priority, the one with the lower
+/// sequence number compares as greater, so that a heap yields them in order of insertion.
+pub struct ByPriority<T>(pub T, pub u64);
 
 impl<T> HasPriority for ByPriority<T>
 where
@@ -33,7 +36,7 @@ where
     T: HasPriority,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.0.priority().eq(&other.0.priority())
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -53,6 +56,9 @@ where
     T: HasPriority,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.priority().cmp(&other.0.priority())
+        self.0
+            .priority()
+            .cmp(&other.0.priority())
+            .then_with(|| other.1.cmp(&self.1))
     }
 }
-- 
2.43.0


From 986186a3638823aa78f004a6a382c882ead420c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 4/8] fix: do not accept a message after the last mailbox is
 gone

The connectivity check ran before the channel lock was taken. If the last
mailbox was dropped in between, the message was queued, or the sender
registered as waiting, after the shutdown had already cleared everything, and
the send never resolved.
---
 xtra/src/chan.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 2a68651..e2102ed 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -114,6 +114,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last receiver may have been dropped, and the queues cleared, since the check above.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         let unfulfilled_msg = if let Err(msg) = inner.try_fulfill_receiver(message) {
             msg
         } else {
@@ -146,6 +151,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last receiver may have been dropped, and the queues cleared, since the check above.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
             inner.waiting_send_to_all.push_back(handle);
-- 
2.43.0


From 180249799530422bcbd01afc860ae1615b17c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 5/8] fix: do not drop queued messages while holding the
 channel lock

When the last mailbox went away, queued messages were dropped under the channel
lock. Dropping a message which owns the last strong address takes that lock
again: deadlock. The same goes for messages of waiting senders.
---
 xtra/src/chan.rs                | 10 +++++++---
 xtra/src/chan/waiting_sender.rs | 14 +++++++++-----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index e2102ed..09a4f69 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -260,12 +260,16 @@ impl<A> Chan<A> {
         self.on_shutdown.notify(usize::MAX);
 
         // Let any outstanding messages drop
-        inner.unicast_queue.clear();
+        let unicast = mem::take(&mut inner.unicast_queue);
         inner.broadcast_queues.clear();
 
         // Close (and potentially wake) outstanding waiting senders
-        inner.waiting_send_to_one.clear();
-        inner.waiting_send_to_all.clear();
+        let waiting_to_one = mem::take(&mut inner.waiting_send_to_one);
+        let waiting_to_all = mem::take(&mut inner.waiting_send_to_all);
+
+        // Messages may own addresses of this very channel, whose destructors need the lock.
+        drop(inner);
+        drop((unicast, waiting_to_one, waiting_to_all));
     }
 
     pub fn disconnect_listener(&self) -> Option<EventListener> {
diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index eedd217..3422e48 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -50,16 +50,20 @@ impl<M> Drop for Handle<M> {
         if let Some(inner) = self.0.upgrade() {
             let mut this = inner.lock();
 
-            match &*this {
+            let message = match &*this {
                 Inner::Active { waker, .. } => {
                     if let Some(waker) = waker {
                         waker.wake_by_ref();
                     }
-                    *this = Inner::Closed;
+                    Some(mem::replace(&mut *this, Inner::Closed))
                 }
-                Inner::Delivered => {}
-                Inner::Closed => {}
-            }
+                Inner::Delivered => None,
+                Inner::Closed => None,
+            };
+
+            // Dropping the message runs foreign code, never do that under the lock.
+            drop(this);
+            drop(message);
         };
     }
 }
-- 
2.43.0


From b462c4ebe200a631ef50c7091fb3a5382a9f53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 6/8] fix: drop the message of a cancelled send in the sender

While the channel looked at the priority of a waiting send, under its lock, it
could become the last owner of the message of a send that was being cancelled,
and drop that message under the lock: deadlock if the message owns the last
strong address.
---
 xtra/src/chan/waiting_sender.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index 3422e48..38e8f52 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -20,6 +20,15 @@ impl<M> WaitingSender<M> {
     }
 }
 
+impl<M> Drop for WaitingSender<M> {
+    fn drop(&mut self) {
+        // The channel may hold a temporary reference while it looks at the priority of this message.
+        // Drop the message here, and not there: the channel holds its lock while it does that.
+        let message = mem::replace(&mut *self.0.lock(), Inner::Closed);
+        drop(message);
+    }
+}
+
 impl<M> Handle<M> {
     pub fn is_active(&self) -> bool {
         Weak::strong_count(&self.0) > 0
-- 
2.43.0


From 634f59e748da4b2c4d0cb305a5159364b85164c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 7/8] fix: do not lose a message sent to a receiver that is
 being cancelled

Cancelling looked for a message first and dropped the receiver later. A message
handed to it in between was accepted and then dropped. Do both under the
channel lock, under which messages are handed out.
---
 xtra/src/chan.rs        | 15 +++++++++++----
 xtra/src/recv_future.rs | 33 +++++++++++++++++----------------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 09a4f69..0ca6cb6 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -290,19 +290,26 @@ impl<A> Chan<A> {
         }
     }
 
-    /// Re-queue the given message.
+    /// Cancel the given waiting receiver, and re-queue the message it was already given, if any.
     ///
     /// Normally, messages are delivered from the inbox straight to the actor. It can however happen
-    /// that this process gets cancelled. In that case, this function can be used to re-queue the
-    /// given message so it does not get lost.
+    /// that this process gets cancelled. In that case, this function is used to re-queue the
+    /// message so it does not get lost. The lock is held until the receiver is gone: a message sent
+    /// to it in between would be lost.
     ///
     /// Note that the ordering of messages in the queues may be slightly off with this function.
-    pub fn requeue_message(&self, msg: MessageToOne<A>) {
+    pub fn cancel_receiver(&self, mut receiver: WaitingReceiver<A>) {
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
+        let msg = match receiver.cancel() {
+            Some(msg) => msg,
+            None => return drop(receiver),
+        };
+        drop(receiver);
+
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
             inner.push_unicast(msg);
         }
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 2438322..6eaea8e 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -79,7 +79,7 @@ enum Receiving<A> {
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
     broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
-    waiting_receiver: WaitingReceiver<A>,
+    waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
@@ -91,15 +91,19 @@ impl<A> Future for Waiting<A> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
 
-        let maybe_message = futures_util::ready!(this.waiting_receiver.poll(
-            this.channel
-                .as_mut()
-                .expect("to not be polled after completion"),
-            this.broadcast_mailbox
-                .as_mut()
-                .expect("to not be polled after completion"),
-            cx
-        ));
+        let maybe_message = futures_util::ready!(this
+            .waiting_receiver
+            .as_mut()
+            .expect("to not be polled after completion")
+            .poll(
+                this.channel
+                    .as_mut()
+                    .expect("to not be polled after completion"),
+                this.broadcast_mailbox
+                    .as_mut()
+                    .expect("to not be polled after completion"),
+                cx
+            ));
 
         let channel = this
             .channel
@@ -121,11 +125,8 @@ impl<A> Future for Waiting<A> {
 
 impl<A> Drop for Waiting<A> {
     fn drop(&mut self) {
-        if let Some(msg) = self.waiting_receiver.cancel() {
-            self.channel
-                .as_mut()
-                .expect("to not have message on drop but channel is gone")
-                .requeue_message(msg);
+        if let (Some(receiver), Some(channel)) = (self.waiting_receiver.take(), &self.channel) {
+            channel.cancel_receiver(receiver);
         }
     }
 }
@@ -153,7 +154,7 @@ impl<A> Future for Receiving<A> {
                         *this = Receiving::Waiting(Waiting {
                             channel: Some(channel),
                             broadcast_mailbox: Some(broadcast_mailbox),
-                            waiting_receiver: waiting,
+                            waiting_receiver: Some(waiting),
                         });
                     }
                 },
-- 
2.43.0


From f95507bfdf062dcaa7eddb151b3f30e47d2f041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 8/8] fix: let in all waiting broadcasts which fit

---
 xtra/src/chan.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 0ca6cb6..88528f8 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -368,9 +368,11 @@ impl<A> Inner<A> {
 
         self.broadcast_tail = self.longest_broadcast_queue();
 
-        if !self.is_broadcast_full() {
-            if let Some(m) = self.try_take_waiting_broadcast_message() {
-                self.send_broadcast(m)
+        // The tail can move by more than one if a mailbox which was lagging behind is gone.
+        while !self.is_broadcast_full() {
+            match self.try_take_waiting_broadcast_message() {
+                Some(m) => self.send_broadcast(m),
+                None => break,
             }
         }
 
-- 
2.43.0

