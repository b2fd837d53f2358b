From 2be3bd76fcf55b9f14e7978731c8222475b769ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 1/4] fix: set_at and set_after make an interval timer one-shot

The documentation says that both emit an event once, but the period of a
former interval was kept, so the timer kept firing.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f771098..cd89bfa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,8 +369,9 @@ impl Timer {
     pub fn set_at(&mut self, instant: Instant) {
         self.clear();
 
-        // Update the timeout.
+        // Update the timeout. The timer is one-shot from now on, even if it was an interval before.
         self.when = Some(instant);
+        self.period = Duration::MAX;
 
         if let Some((id, waker)) = self.id_and_waker.as_mut() {
             // Re-register the timer with the new timeout.
-- 
2.43.0


From 80d255f4306227ead93fe13d9b0943cd603c2934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 2/4] fix: a timer with nothing scheduled remembers the task
 that polled it

Setting a timer does not remove the waker of the task polling it, except
that a timer that would never fire did not keep the waker in the first
place, so setting it afterwards did not wake the task.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index cd89bfa..2ac31f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -514,6 +514,13 @@ impl Stream for Timer {
                     Some(_) => {}
                 }
             }
+        } else {
+            // Nothing is scheduled, but remember the task in case the timer is set later on. The ID
+            // is a placeholder: it is replaced when the timer gets registered in the reactor.
+            match &this.id_and_waker {
+                Some((_, w)) if w.will_wake(cx.waker()) => {}
+                _ => this.id_and_waker = Some((0, cx.waker().clone())),
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From a99bce84d0327642c2922a25d87b39922357327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 3/4] fix: a failed re-registration in react() loses neither
 wakers nor events

react() returned as soon as re-registering a source failed, dropping the
wakers it had already collected, skipping the remaining events, and leaving
the tasks still waiting on that source with no interest registered.
---
 src/reactor.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 474c62a..e9bffc1 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -310,6 +310,7 @@ impl ReactorLock<'_> {
             Ok(_) => {
                 // Iterate over sources in the event list.
                 let sources = self.reactor.sources.lock().unwrap();
+                let mut res = Ok(());
 
                 for ev in self.events.iter() {
                     // Check if there is a source in the table with this key.
@@ -337,12 +338,20 @@ impl ReactorLock<'_> {
                             };
 
                             // Register interest in this event.
-                            source.registration.modify(&self.reactor.poller, event)?;
+                            if let Err(err) =
+                                source.registration.modify(&self.reactor.poller, event)
+                            {
+                                // Nothing will be delivered to these tasks, so wake them up to
+                                // let them retry. Keep going so that no other event is lost.
+                                state[WRITE].drain_into(&mut wakers);
+                                state[READ].drain_into(&mut wakers);
+                                res = Err(err);
+                            }
                         }
                     }
                 }
 
-                Ok(())
+                res
             }
 
             // The syscall was interrupted.
-- 
2.43.0


From c63e221a01cc88a571213e65f54f2be20e057856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 4/4] fix: a failed registration of interest leaves no waker
 behind

When arming a direction failed, the waker stayed in the source, so later
polls assumed that the interest was registered and waited forever.
---
 src/reactor.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index e9bffc1..7831ab8 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -480,7 +480,12 @@ impl Source {
             };
 
             // Register interest in it.
-            self.registration.modify(&Reactor::get().poller, event)?;
+            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
+                // Forget the waker so that the next poll tries to register interest again.
+                state[dir].waker = None;
+                state[dir].ticks = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
@@ -656,11 +661,16 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             };
 
             // Indicate that we are interested in this event.
-            handle
+            if let Err(err) = handle
                 .borrow()
                 .source
                 .registration
-                .modify(&Reactor::get().poller, event)?;
+                .modify(&Reactor::get().poller, event)
+            {
+                // Forget the waker so that the next poll tries to register interest again.
+                state[*dir].wakers[i] = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
-- 
2.43.0

