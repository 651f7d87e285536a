From bc31e4e0d9261a60cd00f12692bb1f3d7299dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:49 +0000
Subject: [PATCH 01/41] fix: do not carry state over from a pooled coroutine

A coroutine taken from the pool kept the cancel flag, the last-started id
and the watched signals of its previous use.
---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 47dc2fe..edf3aa6 100644
--- a/neco.c
+++ b/neco.c
@@ -3855,6 +3855,14 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->coroutine = coroutine;
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
+    // The coroutine may have come from the pool. Nothing from its previous
+    // use is allowed to be carried over to the new coroutine.
+    co->lastid = 0;
+    co->canceled = false;
+    co->deadlined = false;
+    co->cleanup = NULL;
+    co->sigwatch = 0;
+    co->sigmask = 0;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
-- 
2.43.0


From 6c9e6132b0e09566e2c8213d5ee6ced1997314aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:26 +0000
Subject: [PATCH 02/41] fix: do not let a cancelation interrupt an exiting
 coroutine

A cancel that was pending, or that arrived while the clean-up handlers of a
terminating coroutine were running, ended those handlers part way through
and made the coroutine exit twice.
---
 neco.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neco.c b/neco.c
index edf3aa6..2247054 100644
--- a/neco.c
+++ b/neco.c
@@ -7724,6 +7724,12 @@ static void coexit(bool async) {
     // The current coroutine _must_ exit.
     struct coroutine *co = coself();
 
+    // The coroutine is already exiting. Discard a pending cancelation and
+    // block new ones, otherwise the clean-up handlers (and the code below)
+    // could be interrupted and terminated part way through.
+    co->canceled = false;
+    co->cancelstate = NECO_CANCEL_DISABLE;
+
     if (async) {
         // Run the cleanup stack
         while (co->cleanup) {
-- 
2.43.0


From 10c8611b6650e99d2ce6b4fbd54b572f406ec276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:48 +0000
Subject: [PATCH 03/41] fix: withdraw the signal watches of a coroutine that
 exits

The watch counts of a finished coroutine were never taken back, so a signal
nobody can wait for any more was swallowed for the life of the runtime.
---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 2247054..8044d28 100644
--- a/neco.c
+++ b/neco.c
@@ -7737,6 +7737,14 @@ static void coexit(bool async) {
         }
     }
 
+    // Stop watching for signals
+    for (int signo = 1; co->sigwatch != 0 && signo < 32; signo++) {
+        if (co->sigwatch & (UINT32_C(1) << signo)) {
+            co->sigwatch &= ~(UINT32_C(1) << signo);
+            rt->sigwatchers[signo]--;
+        }
+    }
+
     // Delete from map 
     comap_delete(&rt->all, co);
 
-- 
2.43.0


From 5795b3033c88f0b44a4a365903a3259e8c0041d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:43 +0000
Subject: [PATCH 04/41] fix: an operation completed by another coroutine has
 succeeded

When a message, lock, signal, or other event was handed to a paused coroutine
and the coroutine was then canceled or deadlined before it had a chance to
run, its operation returned NECO_CANCELED or NECO_TIMEDOUT. The message was
lost and the lock was never released.

A coroutine in neco_chan_select() also stayed in the list of coroutines to
resume after being canceled, and was spuriously resumed later.
---
 neco.c | 51 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/neco.c b/neco.c
index 8044d28..1a77d18 100644
--- a/neco.c
+++ b/neco.c
@@ -3336,6 +3336,7 @@ struct coroutine {
     int64_t starterid;            // identifer of the starter coroutine
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
+    bool handoff;                 // paused operation was completed by another
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -4067,6 +4068,8 @@ static void rt_sched_signal_step(void) {
                     // Assign the signal to its sigmask and resume
                     // the coroutine.
                     co->sigmask = (uint32_t)signo;
+                    remove_from_list(co);
+                    co->handoff = true;
                     rt->sigqueue[signo]--;
                     if (rt->sigqueue[signo] == 0) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
@@ -4170,9 +4173,9 @@ static void rt_sched_paused_step(void) {
     struct coroutine *co = colist_pop_front(&rt->resumers);
     while (co) {
         sco_resume(co->id);
-        rt->nresumers--;
         co = colist_pop_front(&rt->resumers);
     }
+    rt->nresumers = 0;
 
     // Calculate the minimum timeout for this step.
     int64_t timeout = MAX_TIMEOUT;
@@ -4498,6 +4501,7 @@ static struct coroutine *cofind(int64_t id) {
 static void copause(int64_t deadline) {
     struct coroutine *co = coself();
     // Cannot pause an already canceled or deadlined coroutine.
+    co->handoff = false;
     if (!co->canceled && !co->deadlined) {
         co->deadline = deadline;
         if (co->deadline < INT64_MAX) {
@@ -4623,6 +4627,20 @@ static int checkdl(struct coroutine *co, int64_t deadline) {
     return canceled ? NECO_CANCELED : deadlined ? NECO_TIMEDOUT : NECO_OK;
 }
 
+// checkpause is like checkdl but for an operation that other coroutines may
+// complete while this one is paused, such as by handing over a message or a
+// lock. An operation that was completed has succeeded, no matter if it was
+// also canceled or deadlined prior to the coroutine getting a chance to run.
+// In that case a cancelation is left pending for the next operation.
+static int checkpause(struct coroutine *co) {
+    if (co->handoff) {
+        co->handoff = false;
+        co->deadlined = false;
+        return NECO_OK;
+    }
+    return checkdl(co, INT64_MAX);
+}
+
 /// Get the identifier for the coroutine that started the current coroutine.
 ///
 /// ```
@@ -4793,7 +4811,7 @@ static int signal_wait_dl(int64_t deadline) {
     rt->nsigwaiters--;
     int signo = (int)co->sigmask;
     co->sigmask = 0;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkpause(co);
     return ret == NECO_OK ? signo : ret;
 }
 
@@ -5993,6 +6011,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
             recv->cmsg = cocase->data;
             *cocase->ok = true;
         }
+        recv->handoff = true;
         // Directly copy the message to the receiver's 'data' argument.
         if (chan->msgsize > 0) {
             memcpy(recv->cmsg, data, (size_t)chan->msgsize);
@@ -6031,7 +6050,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
@@ -6094,6 +6113,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             // Put the sender's message in the buffer and wake it up.
             send = colist_pop_front(&chan->queue);
             cbuf_push(chan, send->cmsg);
+            send->handoff = true;
         }
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
@@ -6112,6 +6132,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
         // A sender is currently waiting to send a message.
         // This message must be consumed immediately.
         struct coroutine *send = colist_pop_front(&chan->queue);
+        send->handoff = true;
         if (chan->msgsize) {
             memcpy(data, send->cmsg, (size_t)chan->msgsize);
         }
@@ -6143,7 +6164,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     remove_from_list(co);
     // The sender has already copied its message to 'data'.
     co->cmsg = NULL;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkpause(co);
     if (ret != NECO_OK) {
         return ret;
     }
@@ -6232,6 +6253,7 @@ static int chan_close(struct neco_chan *chan) {
             *cocase->ok = false;
         }
         recv->cclosed = true;
+        recv->handoff = true;
         sched_resume(recv);
     }
     chan->rclosed = true;
@@ -6305,7 +6327,9 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
     }
-    int ret = checkdl(co, INT64_MAX);
+    // The coroutine itself may still be scheduled, when canceled.
+    remove_from_list(co);
+    int ret = checkpause(co);
     return ret == NECO_OK ? *ret_idx : ret;
 }
 
@@ -7200,7 +7224,7 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
@@ -7270,6 +7294,7 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
     // Choose next coroutine to take the lock.
     while (1) {
         struct coroutine *co = colist_pop_front(&mu->queue);
+        co->handoff = true;
         // Schedule the coroutines to resume.
         sched_resume(co);
         if (co->rlocked) {
@@ -7423,10 +7448,12 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         struct coroutine *co = colist_pop_front(&wg->queue);
         if (colist_is_empty(&wg->queue)) {
             // Only one waiter. Do a quick switch.
+            co->handoff = true;
             sco_resume(co->id);
         } else {
             // Many waiters. Batch them together.
             do {
+                co->handoff = true;
                 sched_resume(co);
                 co = colist_pop_front(&wg->queue);  
             } while (co);
@@ -7465,7 +7492,7 @@ static int waitgroup_wait_dl(neco_waitgroup *waitgroup, int64_t deadline) {
     copause(deadline);
     rt->nwaitgroupers--;
     remove_from_list(co);
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 int neco_waitgroup_wait_dl(neco_waitgroup *waitgroup, int64_t deadline) {
@@ -7563,6 +7590,7 @@ static int cond_signal(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     if (co) {
+        co->handoff = true;
         sco_resume(co->id);
     }
     return NECO_OK;
@@ -7582,6 +7610,7 @@ static int cond_broadcast(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     while (co) {
+        co->handoff = true;
         sched_resume(co);
         co = colist_pop_front(&cvar->queue);
     }
@@ -7619,7 +7648,7 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
-    ret = checkdl(co, INT64_MAX);
+    ret = checkpause(co);
     // Must relock.
     while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
     return ret;
@@ -7760,6 +7789,7 @@ static void coexit(bool async) {
     // Notify all join waiters (if any)
     cowaiter = colist_pop_front(&co->joinlist);
     while (cowaiter) {
+        cowaiter->handoff = true;
         sched_resume(cowaiter);
         sched = true;
         cowaiter = colist_pop_front(&co->joinlist);
@@ -7892,7 +7922,7 @@ static int join_dl(int64_t id, int64_t deadline) {
     copause(deadline);
     remove_from_list(co);
     cotarg->njoinlist--;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_join() but with a deadline parameter. 
@@ -8670,7 +8700,7 @@ static int suspend_dl(int64_t deadline) {
     rt->nsuspended--;
     co->suspended = false;
 
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_suspend() but with a deadline parameter. 
@@ -8701,6 +8731,7 @@ static int resume(int64_t id) {
     if (!co->suspended) {
         return NECO_NOTSUSPENDED;
     }
+    co->handoff = true;
     sco_resume(co->id);
     return NECO_OK;
 }
-- 
2.43.0


From 813376f2e4cd4a225017091db5f829689a16e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:06 +0000
Subject: [PATCH 05/41] fix: close the receiving side when the last waiting
 sender gives up

A receiver on a closed channel waited forever when the last of the senders
that were waiting at the time of the close was canceled or timed out.
---
 neco.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 1a77d18..3569e2a 100644
--- a/neco.c
+++ b/neco.c
@@ -6050,7 +6050,15 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkpause(co);
+    int ret = checkpause(co);
+    if (ret != NECO_OK && chan->sclosed && chan->buflen == 0 &&
+        colist_is_empty(&chan->queue))
+    {
+        // The channel was closed while this sender was waiting and now there
+        // are no more messages. Close the receiving side too.
+        chan->rclosed = true;
+    }
+    return ret;
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
-- 
2.43.0


From 3bfa851eba50fa629ea929326d2a2b3706692bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:28 +0000
Subject: [PATCH 06/41] fix: wake the waiters when neco_waitgroup_add reaches
 zero

A negative delta that brought the counter to zero left the coroutines in
neco_waitgroup_wait() waiting forever.
---
 neco.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/neco.c b/neco.c
index 3569e2a..11f1baa 100644
--- a/neco.c
+++ b/neco.c
@@ -7421,6 +7421,26 @@ int neco_waitgroup_init(neco_waitgroup *waitgroup) {
     return ret;
 }
 
+// Wake up the waiters when the counter has reached zero.
+static void waitgroup_wake(struct neco_waitgroup *wg) {
+    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
+        struct coroutine *co = colist_pop_front(&wg->queue);
+        if (colist_is_empty(&wg->queue)) {
+            // Only one waiter. Do a quick switch.
+            co->handoff = true;
+            sco_resume(co->id);
+        } else {
+            // Many waiters. Batch them together.
+            do {
+                co->handoff = true;
+                sched_resume(co);
+                co = colist_pop_front(&wg->queue);  
+            } while (co);
+            yield_for_sched_resume();
+        }
+    }
+}
+
 static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     struct neco_waitgroup *wg = (void*)waitgroup;
     int ret = check_waitgroup(wg);
@@ -7432,6 +7452,9 @@ static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
         return NECO_NEGWAITGRP;
     }
     wg->count = waiters;
+    if (delta < 0) {
+        waitgroup_wake(wg);
+    }
     return NECO_OK;
 }
 
@@ -7452,22 +7475,7 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         return NECO_NEGWAITGRP;
     }
     wg->count--;
-    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
-        struct coroutine *co = colist_pop_front(&wg->queue);
-        if (colist_is_empty(&wg->queue)) {
-            // Only one waiter. Do a quick switch.
-            co->handoff = true;
-            sco_resume(co->id);
-        } else {
-            // Many waiters. Batch them together.
-            do {
-                co->handoff = true;
-                sched_resume(co);
-                co = colist_pop_front(&wg->queue);  
-            } while (co);
-            yield_for_sched_resume();
-        }
-    }
+    waitgroup_wake(wg);
     return NECO_OK;
 }
 
-- 
2.43.0


From 611bb8c36a7ea7baab5a62b922dd21c7174d6984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:25 +0000
Subject: [PATCH 07/41] fix: unlock and wait in a single step in neco_cond_wait

Unlocking a contended mutex yields. A neco_cond_signal() that took place
during that yield was missed because the coroutine was not waiting yet.
---
 neco.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/neco.c b/neco.c
index 11f1baa..bc90d29 100644
--- a/neco.c
+++ b/neco.c
@@ -7282,22 +7282,24 @@ int neco_mutex_rdlock(neco_mutex *mutex) {
     return neco_mutex_rdlock_dl(mutex, INT64_MAX);
 }
 
-static void mutex_fastunlock(struct neco_mutex *mu) {
+// Release the lock. Returns true if there are coroutines that took over the
+// lock and are now scheduled to resume.
+static bool mutex_release(struct neco_mutex *mu) {
     if (!mu->locked) {
-        return;
+        return false;
     }
     if (mu->rlocked > 0) {
         // This lock is currently being used by a reader.
         mu->rlocked--;
         if (mu->rlocked > 0) {
             // There are still more readers using this lock.
-            return;
+            return false;
         }
     }
     if (colist_is_empty(&mu->queue)) {
         // There are no more coroutines in the queue.
         mu->locked = false;
-        return;
+        return false;
     }
     // Choose next coroutine to take the lock.
     while (1) {
@@ -7316,7 +7318,13 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
         }
         break;
     }
-    yield_for_sched_resume();
+    return true;
+}
+
+static void mutex_fastunlock(struct neco_mutex *mu) {
+    if (mutex_release(mu)) {
+        yield_for_sched_resume();
+    }
 }
 
 static int mutex_unlock(neco_mutex *mutex) {
@@ -7656,9 +7664,9 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
         co->canceled = false;
         return NECO_CANCELED;
     }
-    mutex_fastunlock(mu);
-    // The coroutine was added to the deadliner queue. We can safely
-    // yield and wait to be woken at some point in the future.
+    // Unlock and begin waiting as a single step, without yielding in between,
+    // so that there's no chance for a signal to be missed.
+    mutex_release(mu);
     colist_push_back(&cvar->queue, co);
     rt->ncondwaiters++;
     copause(deadline);
-- 
2.43.0


From 6f1a3230dae2fe7440c33105a1d8060079b4f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 08/41] fix: a cancelation must not interrupt the relock in
 neco_cond_wait

A coroutine that was canceled while it was locking the mutex again lost the
cancelation or, for NECO_CANCEL_ASYNC, ran its clean-up handlers without
owning the mutex.
---
 neco.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index bc90d29..421e69f 100644
--- a/neco.c
+++ b/neco.c
@@ -7358,6 +7358,28 @@ static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     return ret;
 }
 
+// Lock the mutex, for the caller that must own the lock before continuing.
+// A cancelation does not interrupt and is left pending for a later operation.
+static void mutex_relock(struct coroutine *co, struct neco_mutex *mu) {
+    if (!mu->locked) {
+        mu->locked = true;
+        return;
+    }
+    bool canceled = co->canceled;
+    co->canceled = false;
+    colist_push_back(&mu->queue, co);
+    rt->nlocked++;
+    do {
+        copause(INT64_MAX);
+        canceled = canceled || co->canceled;
+        co->canceled = false;
+    } while (!co->handoff);
+    rt->nlocked--;
+    remove_from_list(co);
+    co->handoff = false;
+    co->canceled = canceled;
+}
+
 #ifdef NECO_TESTING
 // An optimistic lock routine for testing only
 int neco_mutex_fastlock(neco_mutex *mutex, int64_t deadline) {
@@ -7674,7 +7696,7 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     remove_from_list(co);
     ret = checkpause(co);
     // Must relock.
-    while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
+    mutex_relock(co, mu);
     return ret;
 }
 
-- 
2.43.0


From 8358655263ccb90bffbbd0d04931dbeb9e8dd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:53 +0000
Subject: [PATCH 09/41] fix: do not resume a coroutine while a worker is still
 using it

Canceling a coroutine that is waiting on neco_work(), or on a write that runs
in the background, resumed it prior to the work being done. The worker thread
was then left with pointers to a stack that was in use for something else.
---
 neco.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 421e69f..8964c0f 100644
--- a/neco.c
+++ b/neco.c
@@ -4210,6 +4210,7 @@ static void rt_sched_paused_step(void) {
             if (!co) {
                 break;
             }
+            co->handoff = true;
             sco_resume(co->id);
         }
     }
@@ -4519,6 +4520,20 @@ static void copause(int64_t deadline) {
     }
 }
 
+#ifndef NECO_NOWORKERS
+// pause the currently running coroutine until its background worker is done.
+// The worker may be using the stack of the coroutine. Thus this cannot be cut
+// short by a cancelation, which will be left pending for a later operation.
+static void copause_io(void) {
+    struct coroutine *co = coself();
+    co->handoff = false;
+    do {
+        sco_pause();
+    } while (!co->handoff);
+    co->handoff = false;
+}
+#endif
+
 static int sleep0(int64_t deadline) {
     struct coroutine *co = coself();
     rt->nsleepers++;
@@ -5096,7 +5111,7 @@ static ssize_t read1(int fd, void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, ioread, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            copause_io();
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -5258,7 +5273,7 @@ static ssize_t write3(int fd, const void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, iowrite, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            copause_io();
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -8830,7 +8845,7 @@ static int workfn(int64_t pin, void(*work)(void *udata), void *udata) {
     while (!worker_submit(rt->worker, pin, iowork, &info)) {
         sco_yield();
     }
-    sco_pause();
+    copause_io();
     rt->niowaiters--;
 #endif
     return NECO_OK;
-- 
2.43.0


From ea5c040881b305bfcffa2dcf784c81107e241e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:15 +0000
Subject: [PATCH 10/41] fix: detect a failed pthread_create in worker_submit

The pthread_create function returns an error number, never -1. A failure was
taken as success and the submitted work was never performed.
---
 deps/worker.c | 5 ++++-
 neco.c        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/deps/worker.c b/deps/worker.c
index 1697a89..286a9d4 100644
--- a/deps/worker.c
+++ b/deps/worker.c
@@ -197,7 +197,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // No thread. Take back the entry.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
diff --git a/neco.c b/neco.c
index 8964c0f..f26494b 100644
--- a/neco.c
+++ b/neco.c
@@ -2820,7 +2820,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // No thread. Take back the entry.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
-- 
2.43.0


From 639310e120cc1d1aa2c4baa342d4eceb1153b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 11/41] fix: wake the waiters of a descriptor that has only an
 error or hang up

Epoll reports EPOLLERR and EPOLLHUP on their own, such as for the write end
of a pipe whose reader is gone. Those events were dropped, and because of
EPOLLONESHOT they never came again.
---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index f26494b..5435643 100644
--- a/neco.c
+++ b/neco.c
@@ -4113,8 +4113,10 @@ static void rt_sched_event_step(int64_t timeout) {
     for (int i = 0; i < nevents; i++) {
 #if defined(NECO_POLL_EPOLL)
         int fd = evs[i].data.fd;
-        bool read = evs[i].events & EPOLLIN;
-        bool write = evs[i].events & EPOLLOUT;
+        // An error or a hang up is always reported, even when it's the only
+        // event. Both readers and writers need to know about it.
+        bool read = evs[i].events & (EPOLLIN | EPOLLERR | EPOLLHUP);
+        bool write = evs[i].events & (EPOLLOUT | EPOLLERR | EPOLLHUP);
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 63dfdaeaf44368d363ac4a5fa8884427cf842a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:28 +0000
Subject: [PATCH 12/41] fix: keep waiting for both directions of a file
 descriptor

A coroutine waiting to read and another waiting to write on the same file
descriptor share a oneshot event. When one direction became ready the event
was disarmed for both, and the other coroutine was never woken up.
---
 neco.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/neco.c b/neco.c
index 5435643..f9d3e2c 100644
--- a/neco.c
+++ b/neco.c
@@ -4117,6 +4117,19 @@ static void rt_sched_event_step(int64_t timeout) {
         // event. Both readers and writers need to know about it.
         bool read = evs[i].events & (EPOLLIN | EPOLLERR | EPOLLHUP);
         bool write = evs[i].events & (EPOLLOUT | EPOLLERR | EPOLLHUP);
+        enum evkind other = read ? EVWRITE : EVREAD;
+        if (read != write && evexists(fd, other)) {
+            // The oneshot event is now disarmed for both directions but only
+            // one is ready. Rearm for the coroutines waiting on the other.
+            struct epoll_event ev = { 0 };
+            ev.data.fd = fd;
+            ev.events = other == EVREAD ? EPOLLIN : EPOLLOUT;
+            ev.events |= EPOLLONESHOT;
+            if (epoll_ctl(rt->qfd, EPOLL_CTL_MOD, fd, &ev) == -1) {
+                read = true;
+                write = true;
+            }
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 003b0ca7c1cfaa44ff045fc4c764bb33cd1477a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:16 +0000
Subject: [PATCH 13/41] fix: report the bytes written by a write that is cut
 short

A write that was canceled or timed out after some of the data had already
been written returned -1. There was no way to tell how much had been written,
and neco_stream_flush() wrote the same bytes again.
---
 neco.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neco.c b/neco.c
index f9d3e2c..9138318 100644
--- a/neco.c
+++ b/neco.c
@@ -5323,6 +5323,13 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         int ret = checkdl(co, deadline);
         if (ret != NECO_OK) {
             errno = ret == NECO_CANCELED ? ECANCELED : ETIMEDOUT;
+            if (written > 0) {
+                // Same as for an error below, the caller must be notified
+                // about the amount of data written. Leave the cancelation
+                // pending for the next operation.
+                co->canceled = ret == NECO_CANCELED;
+                return written;
+            }
             return -1;
         }
         // size_t maxnbytes = CLAMP(nbytes, 0, 8096);
-- 
2.43.0


From 24ad0e5ad556ba92ce5954bc6e1260b212d9073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:39 +0000
Subject: [PATCH 14/41] fix: do not lose a cancelation in neco_stream_read_byte

The check for the fast-track path cleared the cancelation and then returned a
buffered byte without an error. It also left a stale neco_lasterr().
---
 neco.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 9138318..aaf3ad0 100644
--- a/neco.c
+++ b/neco.c
@@ -8269,12 +8269,13 @@ ssize_t neco_stream_buffered_read_size(neco_stream *stream) {
 int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
     unsigned char byte;
     if (rt && stream && stream->rtid == rt->id && stream->buffered && 
-        stream->rd.len > 0 && checkdl(coself(), deadline) == NECO_OK)
+        stream->rd.len > 0)
     {
         // fast-track read byte
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
         stream->rd.pos++;
         stream->rd.len--;
+        error_guard(NECO_OK);
     } else {
         ssize_t ret = neco_stream_read_dl(stream, &byte, 1, deadline);
         if (ret != 1) {
-- 
2.43.0


From 70aa7d20fd4dff511854213fef5fe4f2523061b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:45 +0000
Subject: [PATCH 15/41] fix: keep the selected message with the coroutine that
 selected it

Each channel had one slot for the message of a neco_chan_select(). When two
coroutines were selecting from the same channel, the second message replaced
the first before the first coroutine had called neco_chan_case().
---
 neco.c | 52 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/neco.c b/neco.c
index aaf3ad0..56cd033 100644
--- a/neco.c
+++ b/neco.c
@@ -3351,6 +3351,11 @@ struct coroutine {
     char *cmsg;                   // channel message data from sender
     bool cclosed;                 // channel closed by sender
 
+    struct neco_chan *selchan;    // channel of the last successful select
+    bool selok;                   // used for the select-case 'closed' result
+    char *selmsg;                 // message data for the select-case
+    size_t selcap;                // capacity of selmsg
+
     uint32_t sigwatch;            // coroutine is watching these signals (mask)
     uint32_t sigmask;             // coroutine wait mask and result
 
@@ -3781,6 +3786,9 @@ static void coroutine_free(struct coroutine *co) {
     if (co) {
         cofreeargs(co);
         costackfree(co);
+        if (co->selmsg) {
+            free0(co->selmsg);
+        }
         free0(co);
     }
 }
@@ -3865,6 +3873,7 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->canceled = false;
     co->deadlined = false;
     co->cleanup = NULL;
+    co->selchan = NULL;
     co->sigwatch = 0;
     co->sigmask = 0;
 
@@ -5787,13 +5796,12 @@ struct neco_chan {
     bool sclosed;         // sender closed
     bool rclosed;         // receiver closed
     bool qrecv;           // queue has all receivers, otherwise all senders
-    bool lok;             // used for the select-case 'closed' result
     struct colist queue;  // waiting coroutines. Either senders or receivers
     int msgsize;          // size of each message
     int bufcap;           // max number of messages in ring buffer
     int buflen;           // number of messages in ring buffer
     int bufpos;           // position of first message in ring buffer
-    char data[];          // message ring buffer + one extra entry for 'lmsg'
+    char data[];          // message ring buffer
 };
 
 // coselectcase pretends to be a coroutine for the purpose of multiplexing
@@ -6352,6 +6360,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
         {
             int ret = neco_chan_recv(cases[i].chan, cases[i].data);
             *cases[i].ok = ret == NECO_OK;
+            co->selchan = chan;
             return i;
         }
     }
@@ -6378,7 +6387,11 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     // The coroutine itself may still be scheduled, when canceled.
     remove_from_list(co);
     int ret = checkpause(co);
-    return ret == NECO_OK ? *ret_idx : ret;
+    if (ret == NECO_OK) {
+        co->selchan = cases[*ret_idx].chan;
+        ret = *ret_idx;
+    }
+    return ret;
 }
 
 static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans, 
@@ -6407,6 +6420,7 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
     }
     struct coroutine *co = coself();
     int ret_idx = -1;
+    size_t msgsize = 0;
 
     // Copy the select-case arguments into the array.
     for (int i = 0; i < ncases; i++) {
@@ -6418,13 +6432,33 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
             .idx = i,
             .ret_idx = &ret_idx,
             .co = co,
-            .data = chan ? cbufslot(chan, chan->bufcap) : 0,
-            .ok = chan ? &chan->lok : 0,
+            .ok = &co->selok,
         };
         cases[i].next = (struct coroutine*)&cases[i];
         cases[i].prev = (struct coroutine*)&cases[i];
+        if (chan && (size_t)chan->msgsize > msgsize) {
+            msgsize = (size_t)chan->msgsize;
+        }
+    }
+    // The message is stored with the coroutine until neco_chan_case(), because
+    // more than one coroutine may be selecting from the same channel.
+    co->selchan = NULL;
+    int ret = NECO_OK;
+    if (msgsize > co->selcap) {
+        char *selmsg = realloc0(co->selmsg, msgsize);
+        if (selmsg) {
+            co->selmsg = selmsg;
+            co->selcap = msgsize;
+        } else {
+            ret = NECO_NOMEM;
+        }
+    }
+    if (ret == NECO_OK) {
+        for (int i = 0; i < ncases; i++) {
+            cases[i].data = co->selmsg;
+        }
+        ret = chan_select(ncases, cases, &ret_idx, deadline, try);
     }
-    int ret = chan_select(ncases, cases, &ret_idx, deadline, try);
     if (must_free) {
         free0(cases);
     }
@@ -6524,11 +6558,13 @@ static int chan_case(struct neco_chan *chan, void *data) {
         return NECO_INVAL;
     } else if (!rt || chan->rtid != rt->id) {
         return NECO_PERM;
-    } else if (!chan->lok) {
+    }
+    struct coroutine *co = coself();
+    if (co->selchan != chan || !co->selok) {
         return NECO_CLOSED;
     }
     if (chan->msgsize) {
-        memcpy(data, cbufslot(chan, chan->bufcap), (size_t)chan->msgsize);
+        memcpy(data, co->selmsg, (size_t)chan->msgsize);
     }
     return NECO_OK;
 }
-- 
2.43.0


From 7863e62d33403967318961a08a6ed0ef05f117b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:07 +0000
Subject: [PATCH 16/41] fix: enabling cancelation must wake the waiting
 cancelers

A coroutine in neco_cancel() that waits for the target to enable cancelation
was only woken up when the target exited.
---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 56cd033..72a334e 100644
--- a/neco.c
+++ b/neco.c
@@ -7825,6 +7825,14 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
+    if (state == NECO_CANCEL_ENABLE) {
+        // Let the coroutines that are waiting to cancel this one try again.
+        struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
+        while (cowaiter) {
+            sched_resume(cowaiter);
+            cowaiter = colist_pop_front(&co->cancellist);
+        }
+    }
     return NECO_OK;
 }
 
-- 
2.43.0


From aa251cb8dc0e6e1cb3d76dda7a0c52b7c3906dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:17 +0000
Subject: [PATCH 17/41] fix: deliver every pending signal that has a waiter

The delivery stopped at the first pending signal. A watched signal that no
coroutine was waiting on right now held back all signals with a higher
number, even though there were coroutines waiting on those.
---
 neco.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neco.c b/neco.c
index 72a334e..00b7457 100644
--- a/neco.c
+++ b/neco.c
@@ -4092,7 +4092,6 @@ static void rt_sched_signal_step(void) {
                 co = next;
             }
         }
-        break;
     }
 }
 
-- 
2.43.0


From c594ba47ff09554ab473e91c123db3caab1e5547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:40 +0000
Subject: [PATCH 18/41] fix: do not crash on a signal to a thread that has no
 runtime

A background write to a broken pipe raises SIGPIPE on the worker thread. The
signal handler then used the thread-local runtime, which is null there.
---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 00b7457..3788100 100644
--- a/neco.c
+++ b/neco.c
@@ -3978,6 +3978,14 @@ void neco_reset_sigcrashed(void) {
 static void sighandler(int signo, siginfo_t *info, void *ptr) {
     (void)info; (void)ptr;
     must(signo > 0 && signo < 32);
+    if (!rt) {
+        // This thread does not have a runtime, such as a background worker.
+        // A broken pipe is reported to the writer through the EPIPE error.
+        if (signo != SIGPIPE) {
+            sigexitnow(signo);
+        }
+        return;
+    }
     if (rt->sigcrashed) {
         sigexitnow(rt->sigcrashed);
         return;
-- 
2.43.0


From 766bf544ba07638e55fdd3f9cf3e63ddf50b0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:14 +0000
Subject: [PATCH 19/41] fix: restore the previous signal stack when the runtime
 ends

The memory of the signal stack was freed while it was still installed for the
thread.
---
 neco.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 3788100..f814c84 100644
--- a/neco.c
+++ b/neco.c
@@ -3621,6 +3621,7 @@ struct runtime {
     int sigqueue[32];              // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
+    stack_t sigstackold;           // previous signal stack, for restoring
 #endif
     char *sigstack;                // stack for signals
     int sigcrashed;
@@ -4029,7 +4030,7 @@ static int rt_handle_signals(void) {
         .ss_size = NECO_SIGSTKSZ,
         .ss_flags = 0,
     };
-    must(sigaltstack(&ss, NULL) == 0);
+    must(sigaltstack(&ss, &rt->sigstackold) == 0);
 #endif
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
@@ -4054,6 +4055,9 @@ static void rt_restore_signal_handlers(void) {
         // Allocation failed during the initialization.
         return;
     }
+#if NECO_SIGSTKSZ > 0
+    must(sigaltstack(&rt->sigstackold, NULL) == 0);
+#endif
     free0(rt->sigstack);
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
-- 
2.43.0


From 45aa33f0a02f01ceeec3dcafcfe2e11b8bf130fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:19 +0000
Subject: [PATCH 20/41] fix: do not leak the result of a canceled
 neco_getaddrinfo

The coroutine yielded after it had taken the result from the lookup thread
and an async cancelation at that point lost the result. The yield could also
change the errno of a failed lookup.
---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index f814c84..b840840 100644
--- a/neco.c
+++ b/neco.c
@@ -6800,11 +6800,13 @@ static int getaddrinfo_dl(const char *node, const char *service,
     ret = EAI_SYSTEM;
     if (n != -1) {
         must(ready == 1 && n == sizeof(int));
+        // Yield prior to taking ownership of the result. An async cancelation
+        // may end the coroutine right here.
+        coyield();
         *res = args->res;
         args->res = NULL;
         ret = args->ret;
         errno = args->errnum;
-        coyield();
     }
     neco_cleanup_pop(1);
     return ret;
-- 
2.43.0


From 78dab460d5d77d5eeeab24e5d1356b8be8280040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:41 +0000
Subject: [PATCH 21/41] fix: a canceled neco_dial must not go on with the next
 address

The cancelation was lost and the dial could even succeed.
---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index b840840..9483e65 100644
--- a/neco.c
+++ b/neco.c
@@ -6978,7 +6978,9 @@ int neco_setnonblock(int fd, bool nonblock, bool *oldnonblock) {
 }
 
 static void cleanup_close_socket(void *arg) {
+    int perrno = errno;
     close(*(int*)arg);
+    errno = perrno;
 }
 
 static int dial_connect_dl(int domain, int type, int protocol, 
@@ -7020,7 +7022,7 @@ static int dial_tcp_dl(const char *addr, int tcp_vers, int64_t deadline) {
     do {
         fd = dial_connect_dl(ai->ai_family, ai->ai_socktype, ai->ai_protocol, 
             ai->ai_addr, ai->ai_addrlen, deadline);
-        if (fd != -1) {
+        if (fd != -1 || errno == ECANCELED) {
             break;
         }
         ai = ai->ai_next;
-- 
2.43.0


From fd2c9359f427c63117469fb2f41d498cded4966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:03 +0000
Subject: [PATCH 22/41] fix: keep waiting for a connect that is already in
 progress

After a wait that ended early, the second connect() returns EALREADY and the
neco_connect() failed while the connection was still being established. And
a connect that was interrupted is also in progress.
---
 neco.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neco.c b/neco.c
index 9483e65..6ca7ae6 100644
--- a/neco.c
+++ b/neco.c
@@ -5568,6 +5568,12 @@ static int connect_dl(int fd, const struct sockaddr *addr, socklen_t addrlen,
                 // EAGAIN. 
                 errno = ECONNREFUSED;
                 break;
+            case EALREADY:
+                if (!inprog) {
+                    break;
+                }
+                // Still in progress from a moment ago. Keep waiting.
+                // fall through
             case EINPROGRESS:
                 // EINPROGRESS means the connection is in progress and may
                 // take a while. We are allowed to add this file descriptor
@@ -5578,6 +5584,9 @@ static int connect_dl(int fd, const struct sockaddr *addr, socklen_t addrlen,
                 cowait(fd, EVWRITE, deadline);
                 continue;
             case EINTR:  // Interrupted. Just try again.
+                // The connection may still be established asynchronously.
+                inprog = true;
+                continue;
             case ENOMEM: // Mac OS can sometimes return ENOMEM (bug)
                 continue;
             }
-- 
2.43.0


From a5b56c4c76c5f00609a4afb777034c63c674e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:25 +0000
Subject: [PATCH 23/41] fix: close the stream when neco_stream_close is
 canceled

An async cancelation during the flush left the stream and its descriptor
open with nobody owning them.
---
 neco.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 6ca7ae6..3ef7dce 100644
--- a/neco.c
+++ b/neco.c
@@ -8486,6 +8486,14 @@ ssize_t neco_stream_buffered_write_size(neco_stream *stream) {
     return ret;
 }
 
+static void cleanup_stream(void *arg) {
+    neco_stream *stream = arg;
+    int perrno = errno;
+    close(stream->fd);
+    errno = perrno;
+    stream_release(stream);
+}
+
 static int stream_close_dl(neco_stream *stream, int64_t deadline) {
     if (!stream) {
         return NECO_INVAL;
@@ -8493,11 +8501,11 @@ static int stream_close_dl(neco_stream *stream, int64_t deadline) {
         return NECO_PERM;
     }
     int ret = NECO_OK;
+    neco_cleanup_push(cleanup_stream, stream);
     if (stream->buffered && (deadline < INT64_MAX || stream->wr.len > 0)) {
         ret = stream_flush_dl(stream, deadline);
     }
-    close(stream->fd);
-    stream_release(stream);
+    neco_cleanup_pop(1);
     return ret;
 }
 
-- 
2.43.0


From 68f0be49e4a9c504c04383d3f2cb2d0baa728a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:08 +0000
Subject: [PATCH 24/41] fix: set neco_lasterr for invalid mutex and generator
 arguments

---
 neco.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/neco.c b/neco.c
index 3ef7dce..8eb64b6 100644
--- a/neco.c
+++ b/neco.c
@@ -7301,10 +7301,9 @@ int neco_mutex_trylock(neco_mutex *mutex) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_trylock(co, mu, true, 0);
     }
-    ret = mutex_trylock(co, mu, true, 0);
     async_error_guard(ret);
     return ret;
 }
@@ -7313,10 +7312,9 @@ int neco_mutex_tryrdlock(neco_mutex *mutex) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_tryrdlock(co, mu, true, 0);
     }
-    ret = mutex_tryrdlock(co, mu, true, 0);
     async_error_guard(ret);
     return ret;
 }
@@ -7350,10 +7348,9 @@ int neco_mutex_lock_dl(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_lock_dl(co, mu, deadline);
     }
-    ret = mutex_lock_dl(co, mu, deadline);
     async_error_guard(ret);
     return ret;
 }
@@ -7366,10 +7363,9 @@ int neco_mutex_rdlock_dl(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_tryrdlock(co, mu, false, deadline);
     }
-    ret = mutex_tryrdlock(co, mu, false, deadline);
     if (ret == NECO_BUSY) {
         // Another coroutine is holding this lock.
         ret = finish_lock(co, mu, true, deadline);
@@ -8796,13 +8792,12 @@ int neco_gen_release(neco_gen *gen) {
 /// Same as neco_gen_yield() but with a deadline parameter.
 int neco_gen_yield_dl(void *data, int64_t deadline) {
     struct coroutine *co = coself();
-    if (!co) {
-        return NECO_PERM;
-    }
-    if (!co->gen) {
-        return NECO_NOTGENERATOR;
+    int ret = !co ? NECO_PERM : !co->gen ? NECO_NOTGENERATOR : NECO_OK;
+    if (ret == NECO_OK) {
+        return neco_chan_send_dl((void*)co->gen, data, deadline);
     }
-    return neco_chan_send_dl((void*)co->gen, data, deadline);
+    error_guard(ret);
+    return ret;
 }
 
 /// Send a value to the generator for the next iteration.
-- 
2.43.0


From 9d0ba8bb61c572a7b94e3b0238e49815fc0d1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:43 +0000
Subject: [PATCH 25/41] fix: do not lose count of written bytes on an async
 cancelation

---
 neco.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 8eb64b6..caafdd8 100644
--- a/neco.c
+++ b/neco.c
@@ -5357,7 +5357,13 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         ssize_t n = write3(fd, data, nbytes);
         if (n == -1) {
             if (errno == EINTR || errno == EAGAIN) {
-                cowait(fd, EVWRITE, deadline);
+                // An async cancelation is handled above, at the start of the
+                // loop. Exiting now would lose track of the written bytes.
+                ret = wait_dl(fd, EVWRITE, deadline);
+                if (ret != NECO_OK) {
+                    co->canceled |= ret == NECO_CANCELED;
+                    sco_yield();
+                }
             } else if (written == 0) {
                 return -1;
             } else {
@@ -5379,7 +5385,7 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         if (n >= 0) {
             // Some data was written but there's more yet. 
             // Avoiding starving the other coroutines.
-            coyield();
+            sco_yield();
         }
     }
     return written;
-- 
2.43.0


From 2bdd557c1fde27d59768ec30f4bf4d5e220fe8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:33 +0000
Subject: [PATCH 26/41] fix: a neco_cancel_dl deadline must not leak into the
 next operation

When the target coroutine exited in the same scheduler step in which the
deadline of the canceler was reached, neco_cancel_dl returned NECO_NOTFOUND
with the deadlined flag left set, and the next operation (even one with no
deadline) failed with NECO_TIMEDOUT, or a sleep ended early.
---
 neco.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neco.c b/neco.c
index caafdd8..374801d 100644
--- a/neco.c
+++ b/neco.c
@@ -4725,6 +4725,9 @@ static int cancel_dl(int64_t id, int64_t deadline) {
     while (1) {
         cotarg = cofind(id);
         if (!cotarg) {
+            // The target may have exited at the same time that the deadline
+            // was reached. Do not carry the deadline over to the next operation.
+            co->deadlined = false;
             return NECO_NOTFOUND;
         }
         int ret = checkdl(co, deadline);
-- 
2.43.0


From 9aadb1b6d551d5d67eef3af95f2ab4dbc32d239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 27/41] fix: let waiting readers in when the writer ahead of
 them gives up

A neco_mutex_lock that timed out or was canceled while the mutex was held by
readers left the readers queued behind it waiting, although only readers were
using the mutex and no writer was waiting anymore.
---
 neco.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/neco.c b/neco.c
index 374801d..65e477b 100644
--- a/neco.c
+++ b/neco.c
@@ -7339,6 +7339,16 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
+    if (!co->handoff && mu->rlocked > 0) {
+        // This coroutine gave up while the lock is being used by readers.
+        // Let in the readers that were only waiting for their turn behind it.
+        while (!colist_is_empty(&mu->queue) && mu->queue.head.next->rlocked) {
+            struct coroutine *reader = colist_pop_front(&mu->queue);
+            reader->handoff = true;
+            mu->rlocked++;
+            sched_resume(reader);
+        }
+    }
     return checkpause(co);
 }
 
-- 
2.43.0


From a046dc19017badd94911192ad492a12b1b81da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:28 +0000
Subject: [PATCH 28/41] fix: do not touch the target after waiting in
 neco_cancel_dl

The target may have exited, and its memory may be released, before the waiting
canceler gets to run. The counter that was updated there is not used.
---
 neco.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/neco.c b/neco.c
index 65e477b..602dfcd 100644
--- a/neco.c
+++ b/neco.c
@@ -3363,7 +3363,6 @@ struct coroutine {
     int cancelstate;              // cancelation state
     bool canceled;                // coroutine operation was cancelled
     struct colist cancellist;     // waiting coroutines
-    int ncancellist;              // number of waiting coroutines
 
     struct colist joinlist;       // waiting coroutines
     int njoinlist;                // number of waiting coroutines
@@ -4745,10 +4744,8 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         // Target coroutine is blocking their cancel state.
         // Wait for it to be released.
         colist_push_back(&cotarg->cancellist, co);
-        cotarg->ncancellist++;
         copause(deadline);
         remove_from_list(co);
-        cotarg->ncancellist--;
     }
 }
 
-- 
2.43.0


From 213b5bc6820a0b5080601def4d4254b942eb7e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 29/41] fix: do not lose a cancelation that cuts a stream
 operation short

---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 602dfcd..86d80e8 100644
--- a/neco.c
+++ b/neco.c
@@ -8305,6 +8305,10 @@ static ssize_t stream_readfull_dl(neco_stream *stream, void *data,
         if (n <= 0) {
             if (nread == 0) {
                 nread = n;
+            } else if (n < 0 && lasterr == NECO_CANCELED) {
+                // The caller is notified about the data read. Leave the
+                // cancelation pending for the next operation.
+                coself()->canceled = true;
             }
             return nread;
         } else {
@@ -8453,6 +8457,10 @@ static ssize_t stream_write_dl(neco_stream *stream, const void *data,
             if (ret != NECO_OK) {
                 if (nwritten == 0) {
                     nwritten = ret;
+                } else if (ret == NECO_CANCELED) {
+                    // The caller is notified about the data written. Leave
+                    // the cancelation pending for the next operation.
+                    coself()->canceled = true;
                 }
                 break;
             }
-- 
2.43.0


From 510c220848332d8fb0164b249df303793df711cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:50 +0000
Subject: [PATCH 30/41] fix: keep the error of neco_getaddrinfo for
 neco_gai_lasterr

---
 neco.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neco.c b/neco.c
index 86d80e8..833a748 100644
--- a/neco.c
+++ b/neco.c
@@ -6838,6 +6838,7 @@ int neco_getaddrinfo_dl(const char *node, const char *service,
     } else if (ret == EAI_SYSTEM) {
         err = NECO_ERROR;
     } else {
+        neco_gai_errno = ret;
         err = NECO_GAIERROR;
     }
     async_error_guard(err);
-- 
2.43.0


From 1712984db25528b249a2588aff262bf94b7aa1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:45 +0000
Subject: [PATCH 31/41] fix: neco_serve refuses a unix socket path that does
 not fit instead of truncating it

---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 833a748..d55da7c 100644
--- a/neco.c
+++ b/neco.c
@@ -7145,11 +7145,14 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
 #ifdef _WIN32
     return NECO_PERM;
 #else
+    struct sockaddr_un unaddr;
+    if (strlen(addr) > sizeof(unaddr.sun_path) - 1) {
+        return NECO_INVAL;
+    }
     int fd = socket0(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         return NECO_ERROR;
     }
-    struct sockaddr_un unaddr;
     memset(&unaddr, 0, sizeof(struct sockaddr_un));
     unaddr.sun_family = AF_UNIX;
     strncpy(unaddr.sun_path, addr, sizeof(unaddr.sun_path) - 1);
-- 
2.43.0


From 959c1d3cf20daf0a8f1b70036ec6a249edc81fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:10 +0000
Subject: [PATCH 32/41] fix: neco_pipe waits for its coroutine and releases its
 descriptor on failure

---
 neco.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index d55da7c..c68551a 100644
--- a/neco.c
+++ b/neco.c
@@ -7990,8 +7990,10 @@ static void co_pipe(int argc, void *argv[]) {
     int64_t secret = *(int64_t*)argv[1];
     int *fd_out = argv[2];
     int fd = neco_dial("unix", path);
-    neco_write(fd, &secret, 8);
     *fd_out = fd;
+    if (fd > 0) {
+        neco_write(fd, &secret, 8);
+    }
 }
 
 static int _pipe_(int pipefd[2]) {
@@ -8037,12 +8039,17 @@ static int _pipe_(int pipefd[2]) {
                 }
             }
         }
+        int perrno = errno;
         close(ln);
         unlink(path);
+        // The child uses the variables above, it must end before returning.
+        if (childid > 0) {
+            neco_join(childid);
+        }
+        errno = perrno;
     }
     int perrno = errno;
     if (ret == 0) {
-        neco_join(childid);
         pipefd[0] = fd0;
         pipefd[1] = fd1;
         fd0 = -1;
-- 
2.43.0


From ce1bb26626812e24e2a2e8e59df63b7b0f9dd93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:33 +0000
Subject: [PATCH 33/41] fix: neco_pipe tries another path when its path is
 taken

---
 neco.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index c68551a..2825481 100644
--- a/neco.c
+++ b/neco.c
@@ -8013,10 +8013,15 @@ static int _pipe_(int pipefd[2]) {
     int64_t secret;
     uint64_t tmpkey;
     neco_rand(&secret, 8, NECO_PRNG);
-    neco_rand(&tmpkey, 8, NECO_PRNG);
     char path[PATH_MAX];
-    snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
-    int ln = neco_serve("unix", path);
+    int ln;
+    int tries = 0;
+    do {
+        // Another thread or process may be using the same random sequence.
+        neco_rand(&tmpkey, 8, NECO_PRNG);
+        snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
+        ln = neco_serve("unix", path);
+    } while (ln == NECO_ERROR && errno == EADDRINUSE && ++tries < 1000);
     int64_t childid = 0;
     if (ln > 0) {
         // State a coroutine to connect to the listener.
-- 
2.43.0


From c213cc63ebcbbb8186aa3c0c0432bffa64529db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:20 +0000
Subject: [PATCH 34/41] fix: a pending cancel waits while cancelation is
 disabled

---
 neco.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 2825481..51dcb6d 100644
--- a/neco.c
+++ b/neco.c
@@ -3362,6 +3362,7 @@ struct coroutine {
     int canceltype;               // cancelation type
     int cancelstate;              // cancelation state
     bool canceled;                // coroutine operation was cancelled
+    bool cancelheld;              // canceled before cancelation was disabled
     struct colist cancellist;     // waiting coroutines
 
     struct colist joinlist;       // waiting coroutines
@@ -3871,6 +3872,7 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     // use is allowed to be carried over to the new coroutine.
     co->lastid = 0;
     co->canceled = false;
+    co->cancelheld = false;
     co->deadlined = false;
     co->cleanup = NULL;
     co->selchan = NULL;
@@ -7865,7 +7867,13 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
-    if (state == NECO_CANCEL_ENABLE) {
+    if (state == NECO_CANCEL_DISABLE) {
+        // Hold a pending cancelation until enabled again.
+        co->cancelheld |= co->canceled;
+        co->canceled = false;
+    } else {
+        co->canceled |= co->cancelheld;
+        co->cancelheld = false;
         // Let the coroutines that are waiting to cancel this one try again.
         struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
         while (cowaiter) {
@@ -7927,6 +7935,7 @@ static void coexit(bool async) {
     // block new ones, otherwise the clean-up handlers (and the code below)
     // could be interrupted and terminated part way through.
     co->canceled = false;
+    co->cancelheld = false;
     co->cancelstate = NECO_CANCEL_DISABLE;
 
     if (async) {
-- 
2.43.0


From 7f1032a7b6ed9f821311a0201115e1c643818829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:47 +0000
Subject: [PATCH 35/41] fix: a signal delivered to another thread is passed on
 to the main thread

---
 neco.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index 51dcb6d..9128bff 100644
--- a/neco.c
+++ b/neco.c
@@ -3940,6 +3940,9 @@ static const int TRAPPED_SIGNALS[] = {
     SIGILL, SIGFPE, SIGSEGV, SIGBUS, SIGTRAP
 };
 
+// The thread that handles the signals
+static pthread_t sigthread;
+
 static void sigallowhandler(int signo) {
     if (rt->sigwatchers[signo] == 0) {
         // No coroutines are watching for this signal. Without an interested 
@@ -3980,13 +3983,23 @@ void neco_reset_sigcrashed(void) {
 static void sighandler(int signo, siginfo_t *info, void *ptr) {
     (void)info; (void)ptr;
     must(signo > 0 && signo < 32);
-    if (!rt) {
-        // This thread does not have a runtime, such as a background worker.
-        // A broken pipe is reported to the writer through the EPIPE error.
-        if (signo != SIGPIPE) {
+    if (!rt || !rt->mainthread) {
+        // This is not the thread that handles the signals. It may be one 
+        // without a runtime, such as a background worker.
+        for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
+            if (signo == ALLOWED_SIGNALS[i]) {
+                // A broken pipe is reported to the writer through the EPIPE
+                // error. Everything else belongs to the main thread.
+                if (signo != SIGPIPE) {
+                    pthread_kill(sigthread, signo);
+                }
+                return;
+            }
+        }
+        if (!rt) {
             sigexitnow(signo);
+            return;
         }
-        return;
     }
     if (rt->sigcrashed) {
         sigexitnow(rt->sigcrashed);
@@ -4016,6 +4029,7 @@ static int rt_handle_signals(void) {
         // Only handle signals on the main thread.
         return NECO_OK;
     }
+    sigthread = pthread_self();
     static struct sigaction act = { 0 };
     sigemptyset(&act.sa_mask);
     act.sa_sigaction = &sighandler;
-- 
2.43.0


From a751c4b6e3f026a5c39b2e609da553aa30797bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:10 +0000
Subject: [PATCH 36/41] fix: a signal arriving while the same signal is
 dispatched is not lost

---
 neco.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/neco.c b/neco.c
index 9128bff..84c8bcd 100644
--- a/neco.c
+++ b/neco.c
@@ -3615,10 +3615,10 @@ struct runtime {
 
     struct colist sigwaiters;      // signal waiting coroutines
     size_t nsigwaiters;
-    uint32_t sigmask;              // signal mask from handler
+    _Atomic(uint32_t) sigmask;     // signal mask from handler
     int sigwatchers[32];           // signals being watched, reference counted
     bool mainthread;               // running on the main thread
-    int sigqueue[32];              // queue of signals waiting for delivery
+    atomic_int sigqueue[32];       // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
     stack_t sigstackold;           // previous signal stack, for restoring
@@ -4085,16 +4085,25 @@ static void rt_restore_signal_handlers(void) {
 #endif
 }
 
+// Take one signal from the queue. The sighandler() may interrupt this and add
+// the same signal again at any point.
+static void sigdequeue(int signo) {
+    rt->sigqueue[signo]--;
+    if (rt->sigqueue[signo] == 0) {
+        rt->sigmask &= ~(UINT32_C(1) << signo);
+        if (rt->sigqueue[signo] > 0) {
+            rt->sigmask |= (UINT32_C(1) << signo);
+        }
+    }
+}
+
 static void rt_sched_signal_step(void) {
     for (int signo = 0; signo < 32; signo++) {
         if (rt->sigqueue[signo] == 0) {
             continue;
         } else if (rt->sigwatchers[signo] == 0) {
             // The signal is no longer being watched.
-            rt->sigqueue[signo]--;
-            if (rt->sigqueue[signo] == 0) {
-                rt->sigmask &= ~(UINT32_C(1) << signo);
-            }
+            sigdequeue(signo);
             if (signo != SIGPIPE) {
                 sigexitnow(signo);
             }
@@ -4109,10 +4118,7 @@ static void rt_sched_signal_step(void) {
                     co->sigmask = (uint32_t)signo;
                     remove_from_list(co);
                     co->handoff = true;
-                    rt->sigqueue[signo]--;
-                    if (rt->sigqueue[signo] == 0) {
-                        rt->sigmask &= ~(UINT32_C(1) << signo);
-                    }
+                    sigdequeue(signo);
                     sco_resume(co->id);
                     next = (struct coroutine*)&rt->sigwaiters.tail;
                 }
-- 
2.43.0


From b4f3d210c8645f59008b68f37bb51441465228ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:22 +0000
Subject: [PATCH 37/41] fix: channel slots beyond 2 GB are addressed correctly

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 84c8bcd..7cbdb50 100644
--- a/neco.c
+++ b/neco.c
@@ -5870,7 +5870,7 @@ struct coselectcase {
 
 // returns the message slot
 static char *cbufslot(struct neco_chan *chan, int index) {
-    return chan->data + (chan->msgsize * index);
+    return chan->data + ((size_t)chan->msgsize * (size_t)index);
 }
 
 // push a message to the back by copying from data
-- 
2.43.0


From 76847241b39ff485074eb6bb2e5609a54b40821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:06 +0000
Subject: [PATCH 38/41] fix: a failed serve on a unix address leaves its socket
 file behind

---
 neco.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index 7cbdb50..35d87df 100644
--- a/neco.c
+++ b/neco.c
@@ -7182,12 +7182,15 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
         close(fd);
         return NECO_ERROR;
     }
-    if (listen0(fd, SOMAXCONN) == -1) {
-        close(fd);
-        return NECO_ERROR;
-    }
-    if (neco_setnonblock(fd, true, 0) == -1) {
+    if (listen0(fd, SOMAXCONN) == -1 || 
+        neco_setnonblock(fd, true, 0) == -1)
+    {
+        // Do not leave the socket file behind. The address could not be used
+        // again.
+        int perrno = errno;
+        unlink(addr);
         close(fd);
+        errno = perrno;
         return NECO_ERROR;
     }
     return fd;
-- 
2.43.0


From c3376c117910e8533bf0324041592d0d0449f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:13 +0000
Subject: [PATCH 39/41] fix: an event queue on descriptor 0 is not forgotten

---
 neco.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neco.c b/neco.c
index 35d87df..1a359c0 100644
--- a/neco.c
+++ b/neco.c
@@ -3642,7 +3642,7 @@ struct runtime {
     unsigned int burstcount;
 };
 
-#define RUNTIME_DEFAULTS (struct runtime) { 0 }
+#define RUNTIME_DEFAULTS (struct runtime) { .qfd = -1 }
 
 static __thread struct runtime *rt = NULL;
 
@@ -4310,13 +4310,13 @@ static void rt_sched_paused_step(void) {
 // Resource collection step
 static void rt_rc_step(void) {
     int64_t now = getnow();
-    if (rt->nevwaiters == 0 && rt->qfd > 0) {
+    if (rt->nevwaiters == 0 && rt->qfd >= 0) {
         if (now - rt->qfdcreated > NECO_MILLISECOND * 100) {
             // Close the event queue file descriptor if it's no longer needed.
             // When the queue goes unused for more than 100 ms it will
             // automatically be closed.
             close(rt->qfd);
-            rt->qfd = 0;
+            rt->qfd = -1;
         }
     }
     // Deal with coroutine pools.
@@ -4353,7 +4353,7 @@ static int rt_scheduler(void) {
         sco_resume(0);
     }
     // Cleanup extra resources
-    if (rt->qfd) {
+    if (rt->qfd >= 0) {
         close(rt->qfd);
     }
     struct coroutine *co = colist_pop_front(&rt->pool);
@@ -5013,7 +5013,7 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
 
     sco_yield();
 #else
-    if (rt->qfd == 0) {
+    if (rt->qfd == -1) {
         // The scheduler currently does not have an event queue for handling
         // file events. Create one now. This new queue will be shared for the 
         // entirety of the scheduler. It will be automatically freed when it's
@@ -5023,7 +5023,6 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
             // Error creating the event queue. This is usually due to a system
             // that is low on resources or is limiting the number of file
             // descriptors allowed by a program, e.g. ulimit. 
-            rt->qfd = 0;
             return -1;
         }
         // The queue was successfully created.
-- 
2.43.0


From 326a2c9129ae29eb33feed1ec4b2afd4246e254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:36 +0000
Subject: [PATCH 40/41] fix: a name lookup closes its pipe on descriptor 0

---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 1a359c0..6f76382 100644
--- a/neco.c
+++ b/neco.c
@@ -6650,10 +6650,10 @@ static void gai_args_free(struct getaddrinfo_args *args) {
         free0(args->node);
         free0(args->hints);
         freeaddrinfo(args->res);
-        if (args->fds[0]) {
+        if (args->fds[0] != -1) {
             must(close(args->fds[0]) == 0);
         }
-        if (args->fds[1]) {
+        if (args->fds[1] != -1) {
             must(close(args->fds[1]) == 0);
         }
 #ifdef __FreeBSD__
@@ -6673,6 +6673,8 @@ static struct getaddrinfo_args *gai_args_new(const char *node,
         return NULL;
     }
     memset(args, 0, sizeof(struct getaddrinfo_args));
+    args->fds[0] = -1;
+    args->fds[1] = -1;
     if (node) {
         size_t nnode = strlen(node);
         args->node = malloc0(nnode+1);
-- 
2.43.0


From d3bfc83d2d58e2eb6b1220487f7fa064657fb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:58 +0000
Subject: [PATCH 41/41] fix: a pipe using descriptor 0 works

---
 neco.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 6f76382..864159f 100644
--- a/neco.c
+++ b/neco.c
@@ -8024,7 +8024,7 @@ static void co_pipe(int argc, void *argv[]) {
     int *fd_out = argv[2];
     int fd = neco_dial("unix", path);
     *fd_out = fd;
-    if (fd > 0) {
+    if (fd >= 0) {
         neco_write(fd, &secret, 8);
     }
 }
@@ -8056,7 +8056,7 @@ static int _pipe_(int pipefd[2]) {
         ln = neco_serve("unix", path);
     } while (ln == NECO_ERROR && errno == EADDRINUSE && ++tries < 1000);
     int64_t childid = 0;
-    if (ln > 0) {
+    if (ln >= 0) {
         // State a coroutine to connect to the listener.
         int nret = neco_start(co_pipe, 3, path, &secret, &fd0);
         neco_errconv_to_sys(nret);
@@ -8065,7 +8065,7 @@ static int _pipe_(int pipefd[2]) {
             int64_t dl = neco_now() + NECO_SECOND * 5;
             fd1 = neco_accept_dl(ln, 0, 0, dl);
             neco_errconv_to_sys(fd1);
-            if (fd1 > 0) {
+            if (fd1 >= 0) {
                 // Other side of pipe is connected.
                 // Waiting for the handshake.
                 int64_t data;
-- 
2.43.0

