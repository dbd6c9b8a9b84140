From a1f021d829d23685a025f74dec8096d66f18ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:08 +0000
Subject: [PATCH 01/42] fix: pthread_mutex_timedlock on an uncontended robust
 normal mutex must record the owner

The mutex was only added to the caller's robust list (and its owner only
recorded) when the lock was contended, so a later pthread_mutex_unlock by
the owner failed with EPERM and the mutex stayed locked for ever.
---
 pthread_mutex_timedlock.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index 13372e3..ab526ab 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -253,16 +253,16 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                           break;
                         }
 	            }
-
-                  if (0 == result || EOWNERDEAD == result)
-                    {
-                      /*
-                       * Add mutex to the per-thread robust mutex currently-held list.
-                       * If the thread terminates, all mutexes in this list will be unlocked.
-                       */
-                      ptw32_robust_mutex_add(mutex, self);
-                    }
 	        }
+
+              if (0 == result || EOWNERDEAD == result)
+                {
+                  /*
+                   * Add mutex to the per-thread robust mutex currently-held list.
+                   * If the thread terminates, all mutexes in this list will be unlocked.
+                   */
+                  ptw32_robust_mutex_add(mutex, self);
+                }
             }
           else
             {
-- 
2.43.0


From c42eadd851c060d08823f25801cb3ee30cb066f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:06 +0000
Subject: [PATCH 02/42] fix: pthread_mutex_destroy must refuse a held robust
 recursive mutex

Robust kinds are stored in the negative range, so the recursion test never
matched and a robust recursive mutex still held by the caller was freed.
---
 pthread_mutex_destroy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index 82cc088..c506287 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -70,7 +70,11 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
        */
       if (0 == result || ENOTRECOVERABLE == result)
 	{
-	  if (mx->kind != PTHREAD_MUTEX_RECURSIVE || 1 == mx->recursive_count)
+	  /* Robust types use the negative range. */
+	  int kind = (mx->kind < 0) ? (-mx->kind - 1) : mx->kind;
+
+	  if (ENOTRECOVERABLE == result
+	      || kind != PTHREAD_MUTEX_RECURSIVE || 1 == mx->recursive_count)
 	    {
 	      /*
 	       * FIXME!!!
-- 
2.43.0


From 812ca0c0911c6db194e189a28d2e7ecf641cb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:37 +0000
Subject: [PATCH 03/42] fix: a robust mutex that became not recoverable could
 still be acquired

pthread_mutex_unlock set the not-recoverable state and then released the
lock index, so a thread which had tested the state just before acquired the
mutex with result 0. Keep the lock index set and always wake the waiters.
Also only give the mutex up at the final unlock of a recursive mutex.
---
 pthread_mutex_unlock.c | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 4ccfb41..7352f60 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -128,15 +128,24 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
            */
           if (pthread_equal (mx->ownerThread, self))
             {
-              PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
+              if (PTHREAD_MUTEX_RECURSIVE != kind || 0 == --mx->recursive_count)
+                {
+                  PTW32_INTERLOCKED_LONG state = PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
+                                                      (PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
                                                       (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
                                                       (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
-              if (PTHREAD_MUTEX_NORMAL == kind)
-                {
+
                   ptw32_robust_mutex_remove(mutex, NULL);
 
-                  if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                             (PTW32_INTERLOCKED_LONG) 0) < 0)
+                  /*
+                   * A mutex that has just become not recoverable keeps its
+                   * non-zero lock_idx, so that a thread which tested the state
+                   * before we changed it can't acquire the mutex any more.
+                   * All waiters must be woken (each one wakes the next).
+                   */
+                  if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT == state
+                      || (LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
+                                                                (PTW32_INTERLOCKED_LONG) 0) < 0)
                     {
                       /*
                        * Someone may be waiting on that mutex.
@@ -147,26 +156,6 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                         }
                     }
                 }
-              else
-                {
-                  if (kind != PTHREAD_MUTEX_RECURSIVE
-                      || 0 == --mx->recursive_count)
-                    {
-                      ptw32_robust_mutex_remove(mutex, NULL);
-
-                      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                                 (PTW32_INTERLOCKED_LONG) 0) < 0)
-                        {
-                          /*
-                           * Someone may be waiting on that mutex.
-                           */
-                          if (SetEvent (mx->event) == 0)
-                            {
-                              result = EINVAL;
-                            }
-                        }
-                    }
-                }
             }
           else
             {
-- 
2.43.0


From 6fb5daa1d7ebbee2495d55b7116e89d7d584f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:41 +0000
Subject: [PATCH 04/42] fix: a thread cancelled in sem_wait/sem_timedwait must
 not lose a post

The cancellation cleanup consumed a post granted to the cancelled thread,
so other waiters were never released (and a condition variable whose
internal gate semaphore was affected could block for ever). Pass the post
on. sem_wait's handler also dereferenced the semaphore object as if it
were a handle, skipping the accounting when its count was zero.
---
 sem_timedwait.c | 22 ++++++++++++++++------
 sem_wait.c      | 22 ++++++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/sem_timedwait.c b/sem_timedwait.c
index 5a7cbe2..582851f 100644
--- a/sem_timedwait.c
+++ b/sem_timedwait.c
@@ -70,15 +70,25 @@ ptw32_sem_timedwait_cleanup (void * args)
   /*
    * We either timed out or were cancelled.
    * If someone has posted between then and now we try to take the semaphore.
-   * Otherwise the semaphore count may be wrong after we
-   * return. In the case of a cancellation, it is as if we
-   * were cancelled just before we return (after taking the semaphore)
-   * which is ok.
+   * Otherwise the semaphore count may be wrong after we return.
+   * In the case of a cancellation (the wait has not returned a result) we
+   * will never use that post so it must go to the next waiter, if any.
    */
   if (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
     {
-      /* We got the semaphore on the second attempt */
-      *(a->resultPtr) = 0;
+      if (*(a->resultPtr) != 0)
+        {
+          /* We got the semaphore on the second attempt */
+          *(a->resultPtr) = 0;
+        }
+      else if (++s->value <= 0)
+        {
+#if defined(NEED_SEM)
+          (void) SetEvent(s->sem);
+#else
+          (void) ReleaseSemaphore(s->sem, 1, NULL);
+#endif /* NEED_SEM */
+        }
     }
   else
     {
diff --git a/sem_wait.c b/sem_wait.c
index 1fd9259..8f25eee 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -61,13 +61,23 @@ ptw32_sem_wait_cleanup(void * sem)
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
-   * If sema is destroyed do nothing, otherwise:-
-   * If the sema is posted between us being canceled and us locking
-   * the sema again above then we need to consume that post but cancel
-   * anyway. If we don't get the semaphore we indicate that we're no
-   * longer waiting.
+   * If the sema was posted to us between being cancelled and locking it
+   * above then we hold a post that we will never use. Pass it on to the
+   * next waiter, if any, otherwise it would be lost. If we don't get the
+   * semaphore we indicate that we're no longer waiting.
    */
-  if (*((sem_t *)sem) != NULL && !(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
+  if (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
+    {
+      if (++s->value <= 0)
+        {
+#if defined(NEED_SEM)
+          (void) SetEvent(s->sem);
+#else
+          (void) ReleaseSemaphore(s->sem, 1, NULL);
+#endif /* NEED_SEM */
+        }
+    }
+  else
     {
       ++s->value;
 #if defined(NEED_SEM)
-- 
2.43.0


From 7666151160b86beda50b739c42732100f1242e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:32 +0000
Subject: [PATCH 05/42] fix: sem_destroy must not report EBUSY for a thread
 leaving an operation

Destroying a semaphore (or, after a broadcast, a condition variable, whose
gate semaphore then leaked) while another thread is still inside the short
critical section of sem_post or sem_wait returned EBUSY although no thread
was blocked.
---
 sem_destroy.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/sem_destroy.c b/sem_destroy.c
index 99d0b35..d768289 100644
--- a/sem_destroy.c
+++ b/sem_destroy.c
@@ -91,26 +91,30 @@ sem_destroy (sem_t * sem)
       ptw32_mcs_local_node_t node;
       s = *sem;
 
-      if ((result = ptw32_mcs_lock_try_acquire(&s->lock, &node)) == 0)
+      /*
+       * Wait for any thread that is still leaving a semaphore operation
+       * rather than report the semaphore busy: only blocked threads make
+       * it busy.
+       */
+      ptw32_mcs_lock_acquire(&s->lock, &node);
+
+      if (s->value < 0)
         {
-          if (s->value < 0)
-            {
-              result = EBUSY;
-            }
-          else
+          result = EBUSY;
+        }
+      else
+        {
+          /*
+           * There are no threads currently blocked on this semaphore
+           * however there could be threads about to wait behind us.
+           * It is up to the application to ensure this is not the case.
+           */
+          if (!CloseHandle (s->sem))
             {
-              /*
-               * There are no threads currently blocked on this semaphore
-               * however there could be threads about to wait behind us.
-               * It is up to the application to ensure this is not the case.
-               */
-              if (!CloseHandle (s->sem))
-                {
-                  result = EINVAL;
-                }
+              result = EINVAL;
             }
-          ptw32_mcs_lock_release(&node);
         }
+      ptw32_mcs_lock_release(&node);
     }
 
   if (result != 0)
-- 
2.43.0


From 50471b6f993fa15bf4faecd5051912ddefaa3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:57 +0000
Subject: [PATCH 06/42] fix: unlocking a mutex must not touch it once another
 thread can destroy it

A contended unlock released the lock and then signalled mx->event. In
between another thread could acquire, release and legitimately destroy the
mutex (pthread_cond_destroy right after a broadcast does exactly that with
the internal mutex), so the event of a freed mutex was signalled. Count
such unlocks and let pthread_mutex_destroy wait for them.
---
 implement.h             |   2 +
 pthread_mutex_destroy.c |   9 ++++
 pthread_mutex_unlock.c  | 100 ++++++++++++++++++++++++----------------
 3 files changed, 70 insertions(+), 41 deletions(-)

diff --git a/implement.h b/implement.h
index 1a5d20d..0ad74b5 100644
--- a/implement.h
+++ b/implement.h
@@ -328,6 +328,8 @@ struct pthread_mutex_t_
 				   threads. */
   ptw32_robust_node_t*
                     robustNode; /* Extra state for robust mutexes  */
+  LONG unlocking;		/* Number of threads that have released the lock
+				   but have yet to notify waiters. */
 };
 
 enum ptw32_robust_state_t_
diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index c506287..cdef18f 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -89,6 +89,15 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
 
 	      if (0 == result)
 		{
+		  /*
+		   * A previous owner may still be about to notify waiters
+		   * (see ptw32_mutex_release()).
+		   */
+		  while (0 != *(volatile LONG *) &mx->unlocking)
+		    {
+		      Sleep (1);
+		    }
+
                   if (mx->robustNode != NULL)
                     {
                       free(mx->robustNode);
diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 7352f60..6dfbcee 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -45,6 +45,46 @@
 #include "implement.h"
 
 
+static int
+ptw32_mutex_release (pthread_mutex_t mx)
+/*
+ * Release the lock and wake a waiter, if there may be any. As soon as
+ * lock_idx is zero another thread can acquire, release and destroy the mutex,
+ * so the uncontended case must not touch it again and in the contended case
+ * pthread_mutex_destroy() waits until the waiter has been notified.
+ */
+{
+  int result = 0;
+  LONG idx;
+
+  idx = (LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+							(PTW32_INTERLOCKED_LONG)0,
+							(PTW32_INTERLOCKED_LONG)1);
+  if (idx < 0)
+    {
+      (void) PTW32_INTERLOCKED_INCREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->unlocking);
+
+      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+						  (PTW32_INTERLOCKED_LONG)0) < 0L)
+	{
+	  /* Someone may be waiting on that mutex */
+	  if (SetEvent (mx->event) == 0)
+	    {
+	      result = EINVAL;
+	    }
+	}
+
+      (void) PTW32_INTERLOCKED_DECREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->unlocking);
+    }
+  else if (idx == 0)
+    {
+      /* It wasn't locked */
+      result = EPERM;
+    }
+
+  return result;
+}
+
 int PTW32_CDECL
 pthread_mutex_unlock (pthread_mutex_t * mutex)
 {
@@ -68,27 +108,8 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
         {
           if (kind == PTHREAD_MUTEX_NORMAL)
 	    {
-	      LONG idx;
-
-	      idx = (LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
-							    (PTW32_INTERLOCKED_LONG)0);
-	      if (idx != 0)
-	        {
-	          if (idx < 0)
-		    {
-		      /*
-		       * Someone may be waiting on that mutex.
-		       */
-		      if (SetEvent (mx->event) == 0)
-		        {
-		          result = EINVAL;
-		        }
-		    }
-	        }
-	      else	/* [i_a] when unlocking an unlocked mutex, pthread_mutex_unlock() should always produce EPERM for any type of mutex -- see test mutex7.c */
-	        {
-	          result = EPERM;
-	        }
+	      /* [i_a] when unlocking an unlocked mutex, pthread_mutex_unlock() should always produce EPERM for any type of mutex -- see test mutex7.c */
+	      result = ptw32_mutex_release (mx);
 	    }
           else
 	    {
@@ -99,15 +120,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
 		    {
 		      mx->ownerThread.p = NULL;
 
-		      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
-							          (PTW32_INTERLOCKED_LONG)0) < 0L)
-		        {
-		          /* Someone may be waiting on that mutex */
-		          if (SetEvent (mx->event) == 0)
-			    {
-			      result = EINVAL;
-			    }
-		        }
+		      result = ptw32_mutex_release (mx);
 		    }
 	        }
 	      else
@@ -130,31 +143,36 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
             {
               if (PTHREAD_MUTEX_RECURSIVE != kind || 0 == --mx->recursive_count)
                 {
-                  PTW32_INTERLOCKED_LONG state = PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
+                  PTW32_INTERLOCKED_LONG state;
+
+                  (void) PTW32_INTERLOCKED_INCREMENT_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->unlocking);
+
+                  state = PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
                                                       (PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
                                                       (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
                                                       (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
 
                   ptw32_robust_mutex_remove(mutex, NULL);
 
-                  /*
-                   * A mutex that has just become not recoverable keeps its
-                   * non-zero lock_idx, so that a thread which tested the state
-                   * before we changed it can't acquire the mutex any more.
-                   * All waiters must be woken (each one wakes the next).
-                   */
-                  if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT == state
-                      || (LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                                (PTW32_INTERLOCKED_LONG) 0) < 0)
+                  if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT == state)
                     {
                       /*
-                       * Someone may be waiting on that mutex.
+                       * A mutex that has just become not recoverable keeps its
+                       * non-zero lock_idx, so that a thread which tested the state
+                       * before we changed it can't acquire the mutex any more.
+                       * All waiters must be woken (each one wakes the next).
                        */
                       if (SetEvent (mx->event) == 0)
                         {
                           result = EINVAL;
                         }
                     }
+                  else
+                    {
+                      result = ptw32_mutex_release (mx);
+                    }
+
+                  (void) PTW32_INTERLOCKED_DECREMENT_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->unlocking);
                 }
             }
           else
-- 
2.43.0


From 253f128ca918b1076d5b02de788be9b72e9f7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:17 +0000
Subject: [PATCH 07/42] fix: a condition wait that fails because the mutex is
 not owned must not lock it

pthread_cond_wait/timedwait returned EPERM but left the caller owning the
mutex (or blocked on its real owner).
---
 pthread_cond_wait.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pthread_cond_wait.c b/pthread_cond_wait.c
index 926ca7a..ca3a6ed 100644
--- a/pthread_cond_wait.c
+++ b/pthread_cond_wait.c
@@ -348,7 +348,8 @@ ptw32_cond_wait_cleanup (void *args)
    * XSH: Upon successful return, the mutex has been locked and is owned
    * by the calling thread.
    */
-  if ((result = pthread_mutex_lock (cleanup_args->mutexPtr)) != 0)
+  if (cleanup_args->mutexPtr != NULL
+      && (result = pthread_mutex_lock (cleanup_args->mutexPtr)) != 0)
     {
       *resultPtr = result;
     }
@@ -437,6 +438,11 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
 	  result = PTW32_GET_ERRNO();
 	}
     }
+  else
+    {
+      /* We didn't own the mutex so the cleanup handler must not lock it */
+      cleanup_args.mutexPtr = NULL;
+    }
 
   /*
    * Always cleanup
-- 
2.43.0


From 92b3de446be7ab27425036f83ce48284e246c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:21 +0000
Subject: [PATCH 08/42] fix: pthread_barrier_wait must not read the barrier
 after counting itself out

The last thread to leave may destroy and free the barrier.
---
 pthread_barrier_wait.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pthread_barrier_wait.c b/pthread_barrier_wait.c
index e2b313f..401c433 100644
--- a/pthread_barrier_wait.c
+++ b/pthread_barrier_wait.c
@@ -50,6 +50,7 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
 {
   int result;
   pthread_barrier_t b;
+  unsigned int height;
 
   ptw32_mcs_local_node_t node;
 
@@ -61,6 +62,7 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
   ptw32_mcs_lock_acquire(&(*barrier)->lock, &node);
 
   b = *barrier;
+  height = b->nInitialBarrierHeight;
   if (--b->nCurrentBarrierHeight == 0)
     {
       /*
@@ -94,8 +96,12 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
       result = ptw32_semwait (&(b->semBarrierBreeched));
     }
 
+  /*
+   * Once we have counted ourselves out the last thread to leave may destroy
+   * the barrier, so only that thread can still use b.
+   */
   if ((PTW32_INTERLOCKED_LONG)PTW32_INTERLOCKED_INCREMENT_LONG((PTW32_INTERLOCKED_LONGPTR)&b->nCurrentBarrierHeight)
-		  == (PTW32_INTERLOCKED_LONG)b->nInitialBarrierHeight)
+		  == (PTW32_INTERLOCKED_LONG)height)
     {
       /*
        * We are the last thread to cross this barrier
-- 
2.43.0


From 00b3a9986a4defff5d466c49c31fcb7d65f2db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 09/42] fix: detaching a thread that is exiting must not
 destroy it a second time

A thread in its cleanup handlers or key destructors was marked detached, so
that it destroyed itself, and was destroyed by pthread_detach as well.
---
 pthread_detach.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pthread_detach.c b/pthread_detach.c
index df19c64..e7faa63 100644
--- a/pthread_detach.c
+++ b/pthread_detach.c
@@ -111,10 +111,6 @@ pthread_detach (pthread_t thread)
       if (tp->state < PThreadStateLast)
         {
           tp->detachState = PTHREAD_CREATE_DETACHED;
-          if (tp->state == PThreadStateExiting)
-          {
-            destroyIt = PTW32_TRUE;
-          }
         }
       else if (tp->detachState != PTHREAD_CREATE_DETACHED)
         {
-- 
2.43.0


From e1c890efa7e48e1769f77aee8922000ae4f6cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 10/42] fix: threads created at the same time could get the
 same unique number

ptw32_threadSeqNumber was incremented without synchronisation.
---
 ptw32_new.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_new.c b/ptw32_new.c
index 1039c75..b0e8235 100644
--- a/ptw32_new.c
+++ b/ptw32_new.c
@@ -51,6 +51,7 @@ ptw32_new (void)
   pthread_t t;
   pthread_t nil = {NULL, 0};
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t node;
 
   /*
    * If there's a reusable pthread_t then use it.
@@ -77,7 +78,9 @@ ptw32_new (void)
     }
 
   /* Set default state. */
+  ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node);
   tp->seqNumber = ++ptw32_threadSeqNumber;
+  ptw32_mcs_lock_release(&node);
   tp->sched_priority = THREAD_PRIORITY_NORMAL;
   tp->detachState = PTHREAD_CREATE_JOINABLE;
   tp->cancelState = PTHREAD_CANCEL_ENABLE;
-- 
2.43.0


From 8621eaa2935f744f54475d822b5c69547d92bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:04 +0000
Subject: [PATCH 11/42] fix: a cancellation request made before a new thread
 starts must not be lost

The starting thread overwrote the pending state, so that pthread_testcancel
and pthread_delay_np(0) ignored the request.
---
 ptw32_threadStart.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index 45aadbf..43fee27 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -167,7 +167,11 @@ ptw32_threadStart (void *vthreadParms)
    * has the new handle.
    */
   ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
-  sp->state = PThreadStateRunning;
+  /* A cancellation request may already be pending. */
+  if (sp->state < PThreadStateRunning)
+    {
+      sp->state = PThreadStateRunning;
+    }
   ptw32_mcs_lock_release (&stateLock);
 
 #if defined(PTW32_CLEANUP_SEH)
-- 
2.43.0


From f38dba29f1fff2c2689b2aeb6b435ddbc33169d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:04 +0000
Subject: [PATCH 12/42] fix: a pending cancellation request must not disturb
 cleanup handlers and key destructors

A thread that exits or returns with a request pending (or racing with its exit)
kept being cancelable: cancellation points called by its cleanup handlers and
key destructors failed with EINVAL, or started a second cancellation.
---
 implement.h         |  2 ++
 ptw32_threadStart.c |  6 +++---
 ptw32_throw.c       | 21 ++++++++++++++++++++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/implement.h b/implement.h
index 0ad74b5..2329824 100644
--- a/implement.h
+++ b/implement.h
@@ -788,6 +788,8 @@ char *ptw32_strdup (const char *s);
  */
 #pragma warning(disable:4290)
 #endif
+void ptw32_threadExiting (ptw32_thread_t * sp);
+
 void ptw32_throw (DWORD exception)
 #if defined(__cplusplus)
 #if __cplusplus <= 201402L
diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index 43fee27..3759fed 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -184,7 +184,7 @@ ptw32_threadStart (void *vthreadParms)
            * Run the caller's routine;
            */
           status = sp->exitStatus = (*start) (arg);
-          sp->state = PThreadStateExiting;
+          ptw32_threadExiting (sp);
 
 #if defined(_UWIN)
           if (--pthread_count <= 0)
@@ -235,7 +235,7 @@ ptw32_threadStart (void *vthreadParms)
        * Run the caller's routine;
        */
       status = sp->exitStatus = (*start) (arg);
-      sp->state = PThreadStateExiting;
+      ptw32_threadExiting (sp);
     }
   else
     {
@@ -260,7 +260,7 @@ ptw32_threadStart (void *vthreadParms)
   try
   {
     status = sp->exitStatus = (*start) (arg);
-    sp->state = PThreadStateExiting;
+    ptw32_threadExiting (sp);
   }
   catch (ptw32_exception_cancel &)
   {
diff --git a/ptw32_throw.c b/ptw32_throw.c
index 2ae0339..6e606a7 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -49,6 +49,25 @@
 # include <setjmp.h>
 #endif
 
+/*
+ * ptw32_threadExiting
+ *
+ * The calling thread has begun to terminate. From here on it can not be
+ * cancelled anymore, so that its cleanup handlers and key destructors can use
+ * cancellation points normally, even if a cancellation request is pending.
+ */
+void
+ptw32_threadExiting (ptw32_thread_t * sp)
+{
+  ptw32_mcs_local_node_t stateLock;
+
+  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  sp->state = PThreadStateExiting;
+  sp->cancelState = PTHREAD_CANCEL_DISABLE;
+  ResetEvent (sp->cancelEvent);
+  ptw32_mcs_lock_release (&stateLock);
+}
+
 /*
  * ptw32_throw
  *
@@ -81,7 +100,7 @@ ptw32_throw (DWORD exception)
   ULONG_PTR exceptionInformation[3];
 #endif
   if( sp )
-    sp->state = PThreadStateExiting;
+    ptw32_threadExiting (sp);
 
   if (exception != PTW32_EPS_CANCEL && exception != PTW32_EPS_EXIT)
     {
-- 
2.43.0


From 76d1fa8a4645509b8900f6c756359108dc4c6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:18 +0000
Subject: [PATCH 13/42] fix: a cleanup handler run by pthread_cleanup_pop must
 not run again, nor terminate the program, when it is cancelled

pthread_cleanup_pop(1) executed the handler while it was still pushed: a
cancellation acted upon in the handler ran it a second time (C), or threw
out of a destructor (C++).
---
 cleanup.c |  8 ++++++--
 pthread.h | 10 +++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cleanup.c b/cleanup.c
index 4b20d5a..03585d5 100644
--- a/cleanup.c
+++ b/cleanup.c
@@ -89,6 +89,12 @@ ptw32_pop_cleanup (int execute)
 
   if (cleanup != NULL)
     {
+      /*
+       * Remove the handler first, so that it isn't run again if it is
+       * left by cancellation or pthread_exit.
+       */
+      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
+
       if (execute && (cleanup->routine != NULL))
 	{
 
@@ -96,8 +102,6 @@ ptw32_pop_cleanup (int execute)
 
 	}
 
-      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
-
     }
 
   return (cleanup);
diff --git a/pthread.h b/pthread.h
index d57a38d..3f7e767 100644
--- a/pthread.h
+++ b/pthread.h
@@ -711,7 +711,15 @@ struct ptw32_cleanup_t
 
           void execute( int exec )
             {
-              executeIt = exec;
+              /*
+               * Run the routine here and not in the destructor, which
+               * must not be left by the exception of a cancellation.
+               */
+              executeIt = 0;
+              if ( exec && ((void *) cleanUpRout != (void *) 0) )
+                {
+                  (void) (*cleanUpRout)( obj );
+                }
             }
         };
 
-- 
2.43.0


From 6a05cb5c37b87525762d04c0d3fa6d35ed26e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 14/42] fix: an asynchronous cancellation must not leave its
 target's state lock locked

A thread waiting for its own stateLock (in pthread_setcancelstate or
pthread_setcanceltype, which are async-cancel-safe) was redirected by the
holder, leaving its queue node behind: the lock was handed to nobody and the
thread could never terminate.
---
 implement.h              |  2 ++
 pthread_delay_np.c       |  2 +-
 pthread_setcancelstate.c |  2 +-
 pthread_setcanceltype.c  |  2 +-
 pthread_testcancel.c     |  2 +-
 ptw32_MCS_lock.c         | 16 ++++++++++++++++
 ptw32_throw.c            |  2 +-
 w32_CancelableWait.c     |  2 +-
 8 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/implement.h b/implement.h
index 2329824..07406f7 100644
--- a/implement.h
+++ b/implement.h
@@ -763,6 +763,8 @@ PTW32_BEGIN_C_DECLS
 
   int ptw32_mcs_lock_try_acquire (ptw32_mcs_lock_t * lock, ptw32_mcs_local_node_t * node);
 
+  void ptw32_mcs_lock_acquire_unqueued (ptw32_mcs_lock_t * lock, ptw32_mcs_local_node_t * node);
+
   void ptw32_mcs_lock_release (ptw32_mcs_local_node_t * node);
 
   void ptw32_mcs_node_transfer (ptw32_mcs_local_node_t * new_node, ptw32_mcs_local_node_t * old_node);
diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index ac094d6..60982b5 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -148,7 +148,7 @@ pthread_delay_np (struct timespec *interval)
 	  /*
 	   * Canceling!
 	   */
-	  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+	  ptw32_mcs_lock_acquire_unqueued (&sp->stateLock, &stateLock);
 	  if (sp->state < PThreadStateCanceling)
 	    {
 	      sp->state = PThreadStateCanceling;
diff --git a/pthread_setcancelstate.c b/pthread_setcancelstate.c
index 322026f..c317ca9 100644
--- a/pthread_setcancelstate.c
+++ b/pthread_setcancelstate.c
@@ -100,7 +100,7 @@ pthread_setcancelstate (int state, int *oldstate)
   /*
    * Lock for async-cancel safety.
    */
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  ptw32_mcs_lock_acquire_unqueued (&sp->stateLock, &stateLock);
 
   if (oldstate != NULL)
     {
diff --git a/pthread_setcanceltype.c b/pthread_setcanceltype.c
index bd15f7b..7f49bd5 100644
--- a/pthread_setcanceltype.c
+++ b/pthread_setcanceltype.c
@@ -101,7 +101,7 @@ pthread_setcanceltype (int type, int *oldtype)
   /*
    * Lock for async-cancel safety.
    */
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  ptw32_mcs_lock_acquire_unqueued (&sp->stateLock, &stateLock);
 
   if (oldtype != NULL)
     {
diff --git a/pthread_testcancel.c b/pthread_testcancel.c
index 90a2cc5..85c856f 100644
--- a/pthread_testcancel.c
+++ b/pthread_testcancel.c
@@ -94,7 +94,7 @@ pthread_testcancel (void)
       return;
     }
 
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  ptw32_mcs_lock_acquire_unqueued (&sp->stateLock, &stateLock);
 
   if (sp->cancelState != PTHREAD_CANCEL_DISABLE)
     {
diff --git a/ptw32_MCS_lock.c b/ptw32_MCS_lock.c
index dc13061..d3f75b8 100644
--- a/ptw32_MCS_lock.c
+++ b/ptw32_MCS_lock.c
@@ -263,6 +263,22 @@ ptw32_mcs_lock_try_acquire (ptw32_mcs_lock_t * lock, ptw32_mcs_local_node_t * no
                                  == (PTW32_INTERLOCKED_PVOID)0) ? 0 : EBUSY;
 }
 
+/*
+ * ptw32_mcs_lock_acquire_unqueued -- acquire an MCS lock without queueing
+ *
+ * For a thread that locks its own stateLock: while it waits it can be
+ * cancelled asynchronously by the holder of the lock, which would leave its
+ * node in the queue with nobody to pass the lock on.
+ */
+void
+ptw32_mcs_lock_acquire_unqueued (ptw32_mcs_lock_t * lock, ptw32_mcs_local_node_t * node)
+{
+  while (ptw32_mcs_lock_try_acquire (lock, node) != 0)
+    {
+      Sleep (0);
+    }
+}
+
 /*
  * ptw32_mcs_node_transfer -- move an MCS lock local node, usually from thread
  * space to, for example, global space so that another thread can release
diff --git a/ptw32_throw.c b/ptw32_throw.c
index 6e606a7..b692a37 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -61,7 +61,7 @@ ptw32_threadExiting (ptw32_thread_t * sp)
 {
   ptw32_mcs_local_node_t stateLock;
 
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  ptw32_mcs_lock_acquire_unqueued (&sp->stateLock, &stateLock);
   sp->state = PThreadStateExiting;
   sp->cancelState = PTHREAD_CANCEL_DISABLE;
   ResetEvent (sp->cancelEvent);
diff --git a/w32_CancelableWait.c b/w32_CancelableWait.c
index 16d23fa..4f12dcb 100644
--- a/w32_CancelableWait.c
+++ b/w32_CancelableWait.c
@@ -122,7 +122,7 @@ ptw32_cancelable_wait (HANDLE waitHandle, DWORD timeout)
 	   * Should handle POSIX and implicit POSIX threads.
 	   * Make sure we haven't been async-cancelled in the meantime.
 	   */
-	  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+	  ptw32_mcs_lock_acquire_unqueued (&sp->stateLock, &stateLock);
 	  if (sp->state < PThreadStateCanceling)
 	    {
 	      sp->state = PThreadStateCanceling;
-- 
2.43.0


From be5d9bbd0e2427f52e3e9c309a78eb1532000351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:19 +0000
Subject: [PATCH 15/42] fix: pthread_cancel must not use a thread struct that
 is being recycled

The target can be joined, or detach itself and end, between the validity
check and the use of its thread struct: the canceller hung in the release of
a wiped lock or cancelled a thread it was not asked to. Also, a target that
was found terminated stayed with its state lock locked.
---
 pthread_cancel.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pthread_cancel.c b/pthread_cancel.c
index 0e1a5cc..e04178d 100644
--- a/pthread_cancel.c
+++ b/pthread_cancel.c
@@ -110,6 +110,7 @@ pthread_cancel (pthread_t thread)
   int cancel_self;
   pthread_t self;
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t reuseLock;
   ptw32_mcs_local_node_t stateLock;
 
   /*
@@ -138,6 +139,18 @@ pthread_cancel (pthread_t thread)
 
   tp = (ptw32_thread_t *) thread.p;
 
+  /*
+   * The target can be joined or detached by another thread after the check
+   * above. Keep its thread struct from being recycled until we are done.
+   */
+  ptw32_mcs_lock_acquire (&ptw32_thread_reuse_lock, &reuseLock);
+
+  if (thread.x != tp->ptHandle.x || NULL == tp->threadH)
+    {
+      ptw32_mcs_lock_release (&reuseLock);
+      return ESRCH;
+    }
+
   /*
    * Lock for async-cancel safety.
    */
@@ -153,6 +166,7 @@ pthread_cancel (pthread_t thread)
 	  tp->cancelState = PTHREAD_CANCEL_DISABLE;
 
 	  ptw32_mcs_lock_release (&stateLock);
+	  ptw32_mcs_lock_release (&reuseLock);
 	  ptw32_throw (PTW32_EPS_CANCEL);
 
 	  /* Never reached */
@@ -177,6 +191,12 @@ pthread_cancel (pthread_t thread)
 	      ptw32_mcs_lock_release (&stateLock);
 	      ResumeThread (threadH);
 	    }
+	  else
+	    {
+	      ptw32_mcs_lock_release (&stateLock);
+	      ResumeThread (threadH);
+	      result = ESRCH;
+	    }
 	}
     }
   else
@@ -200,5 +220,7 @@ pthread_cancel (pthread_t thread)
       ptw32_mcs_lock_release (&stateLock);
     }
 
+  ptw32_mcs_lock_release (&reuseLock);
+
   return (result);
 }
-- 
2.43.0


From 7bf1bf01ebc8c825245149b21d150cb8418a010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 16/42] fix: sem_post_multiple must refuse a count that is not
 positive

---
 sem_post_multiple.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sem_post_multiple.c b/sem_post_multiple.c
index 1095971..fe3f861 100644
--- a/sem_post_multiple.c
+++ b/sem_post_multiple.c
@@ -88,6 +88,12 @@ sem_post_multiple (sem_t * sem, int count)
   long waiters;
   sem_t s = *sem;
 
+  if (count <= 0)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
   ptw32_mcs_lock_acquire(&s->lock, &node);
 
   if (s->value <= (SEM_VALUE_MAX - count))
-- 
2.43.0


From 3d74085d203a35ed82acce0c3ae4a50f8e9af6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 17/42] fix: ptw32_filetime_to_timespec must not truncate the
 seconds to int

From 2038 on the current time came out wrong (negative, or shifted by 2^32
seconds), so that every timed wait timed out at once or never.
---
 ptw32_timespec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptw32_timespec.c b/ptw32_timespec.c
index a1e3ac1..4119a0c 100644
--- a/ptw32_timespec.c
+++ b/ptw32_timespec.c
@@ -78,7 +78,7 @@ ptw32_filetime_to_timespec (const FILETIME * ft, struct timespec *ts)
       */
 {
   ts->tv_sec =
-    (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
+    (time_t) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
   ts->tv_nsec =
     (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET -
 	    ((uint64_t) ts->tv_sec * (uint64_t) 10000000UL)) * 100);
-- 
2.43.0


From 7b3cbcf87d272acad6290c0ae1cb5a051557bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 18/42] fix: ptw32_relmillisecs must not overflow for very late
 deadlines

A deadline more than 292 years after 1970 overflowed the 64-bit nanosecond
count: the timed wait timed out at once.
---
 ptw32_relmillisecs.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index 7123d7d..fb5a38a 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -76,8 +76,6 @@ ptw32_relmillisecs (const struct timespec * abstime)
    *
    * Assume all integers are unsigned, i.e. cannot test if less than 0.
    */
-  tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
-
   /* get current system time */
 
 # if defined(WINCE)
@@ -89,6 +87,18 @@ ptw32_relmillisecs (const struct timespec * abstime)
 
   ptw32_filetime_to_timespec(&ft, &currSysTime);
 
+  if ((int64_t)abstime->tv_sec > (int64_t)currSysTime.tv_sec + (int64_t)INFINITE / MILLISEC_PER_SEC + 1)
+    {
+      /* Timeouts must be finite (and the nanoseconds might not be representable) */
+      return INFINITE - 1;
+    }
+  if (abstime->tv_sec < 0)
+    {
+      /* The abstime given is in the past */
+      return 0;
+    }
+
+  tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
   tmpCurrNanoseconds = (int64_t)currSysTime.tv_nsec + ((int64_t)currSysTime.tv_sec * NANOSEC_PER_SEC);
 
   if (tmpAbsNanoseconds > tmpCurrNanoseconds)
-- 
2.43.0


From 20f5dd6bdb4cb22bfc3be73f98799e9c6fc548f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 19/42] fix: ptw32_relmillisecs must round the wait up

Rounding down to whole milliseconds let every timed wait time out up to one
millisecond before its deadline.
---
 ptw32_relmillisecs.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index fb5a38a..296fdf3 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -105,14 +105,15 @@ ptw32_relmillisecs (const struct timespec * abstime)
     {
       int64_t deltaNanoseconds = tmpAbsNanoseconds - tmpCurrNanoseconds;
 
-      if (deltaNanoseconds >= ((int64_t)INFINITE * NANOSEC_PER_MILLISEC))
+      if (deltaNanoseconds > ((int64_t)(INFINITE - 1) * NANOSEC_PER_MILLISEC))
          {
            /* Timeouts must be finite */
            milliseconds = INFINITE - 1;
          }
        else
          {
-           milliseconds = (DWORD)(deltaNanoseconds / NANOSEC_PER_MILLISEC);
+           /* Round up: a wait must not time out before abstime. */
+           milliseconds = (DWORD)((deltaNanoseconds + NANOSEC_PER_MILLISEC - 1) / NANOSEC_PER_MILLISEC);
          }
     }
   else
@@ -121,14 +122,6 @@ ptw32_relmillisecs (const struct timespec * abstime)
       milliseconds = 0;
     }
 
-  if (milliseconds == 0 && tmpAbsNanoseconds > tmpCurrNanoseconds) {
-     /*
-      * millisecond granularity was too small to represent the wait time.
-      * return the minimum time in milliseconds.
-      */
-     milliseconds = 1;
- }
-
   return milliseconds;
 }
 
-- 
2.43.0


From f3f3fbac3e14fcda71f7e0843f49bf2665aa69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 20/42] fix: pthread_delay_np must refuse intervals it cannot
 represent

Only intervals that came out negative in 32-bit milliseconds were refused;
others wrapped round and returned early (4294968 seconds took 704 ms).
---
 pthread_delay_np.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index 60982b5..2d51619 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -108,6 +108,12 @@ pthread_delay_np (struct timespec *interval)
       return (0);
     }
 
+  /* the wait time must be representable as a positive int */
+  if (interval->tv_sec < 0 || interval->tv_sec > 0x7FFFFFFFL / 1000L)
+    {
+      return EINVAL;
+    }
+
   /* convert secs to millisecs */
   secs_in_millisecs = (DWORD)interval->tv_sec * 1000L;
 
-- 
2.43.0


From e98db3c51ef2fb8e83864cb79675cf6e5bde7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 21/42] fix: a thread dying with a robust mutex must not touch
 it once another can destroy it

After marking the mutex inconsistent the exiting thread signalled mx->event,
although by then another thread could have recovered, released and destroyed
it. Let pthread_mutex_destroy wait, as it does for unlocks.
---
 pthread_win32_attach_detach_np.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pthread_win32_attach_detach_np.c b/pthread_win32_attach_detach_np.c
index d6d5023..935c00c 100644
--- a/pthread_win32_attach_detach_np.c
+++ b/pthread_win32_attach_detach_np.c
@@ -251,6 +251,11 @@ pthread_win32_thread_detach_np ()
             {
               pthread_mutex_t mx = sp->robustMxList->mx;
               ptw32_robust_mutex_remove(&mx, sp);
+              /*
+               * From here on another thread can acquire, release and destroy
+               * the mutex: pthread_mutex_destroy() has to wait for us.
+               */
+              (void) PTW32_INTERLOCKED_INCREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->unlocking);
               (void) PTW32_INTERLOCKED_EXCHANGE_LONG(
                        (PTW32_INTERLOCKED_LONGPTR)&mx->robustNode->stateInconsistent,
                        (PTW32_INTERLOCKED_LONG)-1);
@@ -260,6 +265,7 @@ pthread_win32_thread_detach_np ()
                * See pthread_mutex_lock.c.
                */
               SetEvent(mx->event);
+              (void) PTW32_INTERLOCKED_DECREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->unlocking);
             }
 
 
-- 
2.43.0


From 3c710027264790444fe440526a719c5a91c3cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 22/42] fix: the inheritor of a robust mutex must assume that
 there are waiters

Two wake-ups of the auto-reset event can be merged while two waiters are about
to wait. If the one that got it inherited the mutex, lock_idx still said that
nobody waits, and its unlock did not wake the other waiter.
---
 pthread_mutex_consistent.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pthread_mutex_consistent.c b/pthread_mutex_consistent.c
index b9c8221..839d78b 100755
--- a/pthread_mutex_consistent.c
+++ b/pthread_mutex_consistent.c
@@ -93,6 +93,14 @@ ptw32_robust_mutex_inherit(pthread_mutex_t * mutex)
             (PTW32_INTERLOCKED_LONG)-1 /* The terminating thread sets this */))
     {
       case -1L:
+          /*
+           * The caller owns the mutex now. Wake-ups made by the previous
+           * owners may have been merged into the one that brought us here,
+           * so make sure that our unlock notifies any other waiter.
+           */
+          (void) PTW32_INTERLOCKED_EXCHANGE_LONG(
+                   (PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+                   (PTW32_INTERLOCKED_LONG)-1);
           result = EOWNERDEAD;
           break;
       case (LONG)PTW32_ROBUST_NOTRECOVERABLE:
-- 
2.43.0


From 1c1161bb9d99f00c9ad98b6201b75b016ba763f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 23/42] fix: run the cleanup handlers of implicit threads that
 exit or are cancelled

A Win32 thread that uses the library and is cancelled, or calls pthread_exit,
ended without running its cleanup handlers in the C build, although
documented; cancelled in pthread_cond_wait it also left the condition variable
unusable.
---
 ptw32_throw.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ptw32_throw.c b/ptw32_throw.c
index b692a37..9616fad 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -133,6 +133,15 @@ ptw32_throw (DWORD exception)
         }
 #endif
 
+#if defined(PTW32_CLEANUP_C)
+
+      if (NULL != sp)
+        {
+          ptw32_pop_cleanup_all (1);
+        }
+
+#endif
+
 #if defined(PTW32_STATIC_LIB)
 
       pthread_win32_thread_detach_np ();
-- 
2.43.0


From 3ea94bc1fadc3e31ee570c80c57e7362c2602d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 24/42] fix: a thread's name must be released with the thread

---
 ptw32_threadDestroy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptw32_threadDestroy.c b/ptw32_threadDestroy.c
index 978df22..39212a5 100644
--- a/ptw32_threadDestroy.c
+++ b/ptw32_threadDestroy.c
@@ -60,6 +60,7 @@ ptw32_threadDestroy (pthread_t thread)
       HANDLE threadH = tp->threadH;
 #endif
       HANDLE cancelEvent = tp->cancelEvent;
+      char * name = tp->name;
 
       /*
        * Thread ID structs are never freed. They're NULLed and reused.
@@ -69,6 +70,11 @@ ptw32_threadDestroy (pthread_t thread)
       ptw32_threadReusePush (thread);
 
       /* Now work on the copies as the `tp` instance has already been nulled. */
+      if (name != NULL)
+	{
+	  free (name);
+	}
+
       if (cancelEvent != NULL)
 	{
 	  CloseHandle (cancelEvent);
-- 
2.43.0


From 8bf462abe6b98e86d21166396c48bc86eaa36be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 25/42] fix: pthread_attr_destroy must release the thread name
 of the attributes

---
 pthread_attr_destroy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pthread_attr_destroy.c b/pthread_attr_destroy.c
index e1a8b48..da81583 100644
--- a/pthread_attr_destroy.c
+++ b/pthread_attr_destroy.c
@@ -79,6 +79,12 @@ pthread_attr_destroy (pthread_attr_t * attr)
    * Set the attribute object to a specific invalid value.
    */
   (*attr)->valid = 0;
+
+  if ((*attr)->thrname != NULL)
+    {
+      free ((*attr)->thrname);
+    }
+
   free (*attr);
   *attr = NULL;
 
-- 
2.43.0


From ed44cdf96da1bdb577aad635bce3460a4a02d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 26/42] fix: pthread_getname_np must not fault for a thread
 that has no name

---
 pthread_getname_np.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index d5efeb6..c2df8d7 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -46,7 +46,8 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 {
   ptw32_mcs_local_node_t threadLock;
   ptw32_thread_t * tp;
-  char * s, * d;
+  const char * s;
+  char * d;
   int result;
 
   /*
@@ -64,7 +65,7 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
-  for (s = tp->name, d = name; *s && d < &name[len - 1]; *d++ = *s++)
+  for (s = (tp->name != NULL) ? tp->name : "", d = name; *s && d < &name[len - 1]; *d++ = *s++)
     {}
 
   *d = '\0';
-- 
2.43.0


From c9a75443d1bc33e2e6beff8971bc6c35bccbebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 27/42] fix: pthread_attr_getname_np must return the name

---
 pthread_attr_getname_np.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pthread_attr_getname_np.c b/pthread_attr_getname_np.c
index b707410..80c6ab3 100644
--- a/pthread_attr_getname_np.c
+++ b/pthread_attr_getname_np.c
@@ -45,16 +45,15 @@
 int
 pthread_attr_getname_np(pthread_attr_t * attr, char *name, int len)
 {
-  //strncpy_s(name, len - 1, (*attr)->thrname, len - 1);
-#if defined(_MSVCRT_)
-# pragma warning(suppress:4996)
-  strncpy(name, (*attr)->thrname, len - 1);
-  (*attr)->thrname[len - 1] = '\0';
-#else // _MSVCRT_
-  (void)attr;
-  (void)name;
-  (void)len;
-#endif // _MSVCRT_
+  const char * s;
+  char * d;
+
+  s = ((*attr)->thrname != NULL) ? (*attr)->thrname : "";
+
+  for (d = name; *s && d < &name[len - 1]; *d++ = *s++)
+    {}
+
+  *d = '\0';
 
   return 0;
 }
-- 
2.43.0


From 61119833bc562b5f1a1d830685f0f24476ea2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 28/42] fix: setting a thread's name must report ENOMEM instead
 of using a null name

---
 pthread_attr_setname_np.c | 8 ++++++++
 pthread_setname_np.c      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index 2ab34de..7a80b13 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -70,6 +70,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
@@ -88,6 +92,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
   char * oldname;
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index 25a0339..1e81b37 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -118,6 +118,10 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
@@ -167,6 +171,10 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
-- 
2.43.0


From 296ce8f8e3ecd607d09db18c96b7363594859cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 29/42] fix: CPU_SET, CPU_CLR and CPU_ISSET must ignore CPUs
 that the set cannot hold

---
 sched_setaffinity.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sched_setaffinity.c b/sched_setaffinity.c
index ccde22b..b62c3db 100644
--- a/sched_setaffinity.c
+++ b/sched_setaffinity.c
@@ -315,17 +315,20 @@ void _sched_affinitycpuzero (cpu_set_t *pset)
 
 void _sched_affinitycpuset (int cpu, cpu_set_t *pset)
 {
-	((_sched_cpu_set_vector_*)pset)->_cpuset |= ((size_t)1 << cpu);
+	if (cpu >= 0 && (size_t)cpu < CPU_SETSIZE)
+		((_sched_cpu_set_vector_*)pset)->_cpuset |= ((size_t)1 << cpu);
 }
 
 void _sched_affinitycpuclr (int cpu, cpu_set_t *pset)
 {
-	((_sched_cpu_set_vector_*)pset)->_cpuset &= ~((size_t)1 << cpu);
+	if (cpu >= 0 && (size_t)cpu < CPU_SETSIZE)
+		((_sched_cpu_set_vector_*)pset)->_cpuset &= ~((size_t)1 << cpu);
 }
 
 int _sched_affinitycpuisset (int cpu, const cpu_set_t *pset)
 {
-	return ((((_sched_cpu_set_vector_*)pset)->_cpuset &
+	return (cpu >= 0 && (size_t)cpu < CPU_SETSIZE
+			&& (((_sched_cpu_set_vector_*)pset)->_cpuset &
 			((size_t)1 << cpu)) != (size_t)0);
 }
 
-- 
2.43.0


From 82ceea779fd3041217bfe047128b3e7080eaf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 30/42] fix: pthread_rwlock_init must accept a default
 attributes object

---
 pthread_rwlock_init.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pthread_rwlock_init.c b/pthread_rwlock_init.c
index 6b12a34..0e46148 100644
--- a/pthread_rwlock_init.c
+++ b/pthread_rwlock_init.c
@@ -58,9 +58,10 @@ pthread_rwlock_init (pthread_rwlock_t * rwlock,
       return EINVAL;
     }
 
-  if (attr != NULL && *attr != NULL)
+  if (attr != NULL && *attr != NULL
+      && (*attr)->pshared == PTHREAD_PROCESS_SHARED)
     {
-      result = EINVAL;		/* Not supported */
+      result = ENOSYS;		/* Not supported */
       goto DONE;
     }
 
-- 
2.43.0


From 750a445cd674b5565088d304f4aa6ea563d34c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 31/42] fix: pthread_create must fail when it can not copy the
 thread's name

---
 create.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/create.c b/create.c
index 1e15a90..745998a 100644
--- a/create.c
+++ b/create.c
@@ -169,7 +169,13 @@ pthread_create (pthread_t * tid,
       tp->detachState = a->detachstate;
       priority = a->param.sched_priority;
       if (a->thrname != NULL)
-        tp->name = ptw32_strdup(a->thrname);
+        {
+          tp->name = ptw32_strdup(a->thrname);
+          if (tp->name == NULL)
+            {
+              goto FAIL0;
+            }
+        }
 
 #if (THREAD_PRIORITY_LOWEST > THREAD_PRIORITY_NORMAL)
       /* WinCE */
-- 
2.43.0


From 1a2f414d5b1fdfab09f15d787bbdba66b62ada30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 32/42] fix: pthread_mutex_init must not fault when it gets no
 memory

---
 pthread_mutex_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_mutex_init.c b/pthread_mutex_init.c
index 4fac214..8b4ce8d 100644
--- a/pthread_mutex_init.c
+++ b/pthread_mutex_init.c
@@ -139,7 +139,7 @@ pthread_mutex_init (pthread_mutex_t * mutex, const pthread_mutexattr_t * attr)
 	}
     }
 
-  if (0 != result)
+  if (0 != result && NULL != mx)
     {
       if (NULL != mx->robustNode)
 	{
-- 
2.43.0


From 88e88e840665e533d7c2a4ccd89c1903f47899bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 33/42] fix: a statically initialised object must stay usable
 when its first use finds no resources

---
 ptw32_cond_check_need_init.c     | 13 ++++++++++++-
 ptw32_mutex_check_need_init.c    | 16 +++++++++++++---
 ptw32_rwlock_check_need_init.c   | 13 ++++++++++++-
 ptw32_spinlock_check_need_init.c | 13 ++++++++++++-
 4 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/ptw32_cond_check_need_init.c b/ptw32_cond_check_need_init.c
index 616a891..4bf72dd 100644
--- a/ptw32_cond_check_need_init.c
+++ b/ptw32_cond_check_need_init.c
@@ -67,7 +67,18 @@ ptw32_cond_check_need_init (pthread_cond_t * cond)
    */
   if (*cond == PTHREAD_COND_INITIALIZER)
     {
-      result = pthread_cond_init (cond, NULL);
+      pthread_cond_t newcond = NULL;
+
+      /*
+       * If this fails the object is left as it was, so that it can be
+       * tried again when the resources have become available.
+       */
+      result = pthread_cond_init (&newcond, NULL);
+
+      if (0 == result)
+        {
+          *cond = newcond;
+        }
     }
   else if (*cond == NULL)
     {
diff --git a/ptw32_mutex_check_need_init.c b/ptw32_mutex_check_need_init.c
index 98744a5..181e6ba 100644
--- a/ptw32_mutex_check_need_init.c
+++ b/ptw32_mutex_check_need_init.c
@@ -57,6 +57,7 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
 {
   int result = 0;
   pthread_mutex_t mtx;
+  pthread_mutex_t newmtx = NULL;
   ptw32_mcs_local_node_t node;
 
   ptw32_mcs_lock_acquire(&ptw32_mutex_test_init_lock, &node);
@@ -73,15 +74,15 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
 
   if (mtx == PTHREAD_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, NULL);
+      result = pthread_mutex_init (&newmtx, NULL);
     }
   else if (mtx == PTHREAD_RECURSIVE_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_recursive_mutexattr);
+      result = pthread_mutex_init (&newmtx, &ptw32_recursive_mutexattr);
     }
   else if (mtx == PTHREAD_ERRORCHECK_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_errorcheck_mutexattr);
+      result = pthread_mutex_init (&newmtx, &ptw32_errorcheck_mutexattr);
     }
   else if (mtx == NULL)
     {
@@ -93,6 +94,15 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
       result = EINVAL;
     }
 
+  /*
+   * If the initialisation failed the mutex is left as it was, so that
+   * it can be tried again when the resources have become available.
+   */
+  if (newmtx != NULL)
+    {
+      *mutex = newmtx;
+    }
+
   ptw32_mcs_lock_release(&node);
 
   return (result);
diff --git a/ptw32_rwlock_check_need_init.c b/ptw32_rwlock_check_need_init.c
index 3d2c447..d5031c2 100644
--- a/ptw32_rwlock_check_need_init.c
+++ b/ptw32_rwlock_check_need_init.c
@@ -66,7 +66,18 @@ ptw32_rwlock_check_need_init (pthread_rwlock_t * rwlock)
    */
   if (*rwlock == PTHREAD_RWLOCK_INITIALIZER)
     {
-      result = pthread_rwlock_init (rwlock, NULL);
+      pthread_rwlock_t newrwlock = NULL;
+
+      /*
+       * If this fails the object is left as it was, so that it can be
+       * tried again when the resources have become available.
+       */
+      result = pthread_rwlock_init (&newrwlock, NULL);
+
+      if (0 == result)
+        {
+          *rwlock = newrwlock;
+        }
     }
   else if (*rwlock == NULL)
     {
diff --git a/ptw32_spinlock_check_need_init.c b/ptw32_spinlock_check_need_init.c
index 7a49b87..608df59 100644
--- a/ptw32_spinlock_check_need_init.c
+++ b/ptw32_spinlock_check_need_init.c
@@ -67,7 +67,18 @@ ptw32_spinlock_check_need_init (pthread_spinlock_t * lock)
    */
   if (*lock == PTHREAD_SPINLOCK_INITIALIZER)
     {
-      result = pthread_spin_init (lock, PTHREAD_PROCESS_PRIVATE);
+      pthread_spinlock_t newlock = NULL;
+
+      /*
+       * If this fails the object is left as it was, so that it can be
+       * tried again when the resources have become available.
+       */
+      result = pthread_spin_init (&newlock, PTHREAD_PROCESS_PRIVATE);
+
+      if (0 == result)
+        {
+          *lock = newlock;
+        }
     }
   else if (*lock == NULL)
     {
-- 
2.43.0


From 3d2c78163dffc2a812b9ef97e176817752af10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:27 +0000
Subject: [PATCH 34/42] fix: pthread_self must not fault in a system thread
 when there is no memory

---
 pthread_self.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pthread_self.c b/pthread_self.c
index c758b7a..1523b56 100644
--- a/pthread_self.c
+++ b/pthread_self.c
@@ -95,7 +95,11 @@ pthread_self (void)
       self = ptw32_new ();
       sp = (ptw32_thread_t *) self.p;
 
-      if (sp != NULL)
+      if (sp == NULL)
+        {
+          return nil;
+        }
+      else
         {
     	  /*
     	   * This is a non-POSIX thread which has chosen to call
-- 
2.43.0


From dd57569bce739ce7463708bd10dba3dd33acd942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 35/42] fix: a failed pthread_self must release its handles and
 not stay registered

---
 pthread_self.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pthread_self.c b/pthread_self.c
index 1523b56..160fe54 100644
--- a/pthread_self.c
+++ b/pthread_self.c
@@ -166,7 +166,10 @@ pthread_self (void)
     	       * because the new handle is not yet public.
     	       */
     	      sp->sched_priority = GetThreadPriority (sp->threadH);
-    	      pthread_setspecific (ptw32_selfThreadKey, (void *) sp);
+    	      if (!fail)
+    	        {
+    	          pthread_setspecific (ptw32_selfThreadKey, (void *) sp);
+    	        }
     	    }
         }
 
@@ -176,8 +179,7 @@ pthread_self (void)
     	   * Thread structs are never freed but are reused so if this
     	   * continues to fail at least we don't leak memory.
     	   */
-		  sp->threadH = 0;	// [i_a]
-    	  ptw32_threadReusePush (self);
+    	  ptw32_threadDestroy (self);
     	  /*
     	   * As this is a win32 thread calling us and we have failed,
     	   * return a value that makes sense to win32.
-- 
2.43.0


From 081e25d48f57e1ea63d33874211a2ebef6fd5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:02 +0000
Subject: [PATCH 36/42] fix: a missing thread identity must not be taken for
 the owner of a mutex

---
 pthread_mutex_lock.c      | 12 ++++++++++++
 pthread_mutex_timedlock.c | 12 ++++++++++++
 pthread_mutex_trylock.c   | 21 +++++++++++++++++++--
 pthread_mutex_unlock.c    |  5 +++--
 4 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/pthread_mutex_lock.c b/pthread_mutex_lock.c
index 847477c..4005cc2 100644
--- a/pthread_mutex_lock.c
+++ b/pthread_mutex_lock.c
@@ -104,6 +104,12 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
         {
           pthread_t self = pthread_self();
 
+          if (self.p == NULL)
+            {
+              /* No memory to identify the calling (system) thread */
+              return ENOMEM;
+            }
+
           if ((PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
                        (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
 		       (PTW32_INTERLOCKED_LONG) 1,
@@ -166,6 +172,12 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
         {
           pthread_t self = pthread_self();
 
+          if (self.p == NULL)
+            {
+              /* No memory to identify the calling (system) thread */
+              return ENOMEM;
+            }
+
           kind = -kind - 1; /* Convert to non-robust range */
     
           if (PTHREAD_MUTEX_NORMAL == kind)
diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index ab526ab..a74ec8f 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -167,6 +167,12 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
         {
           pthread_t self = pthread_self();
 
+          if (self.p == NULL)
+            {
+              /* No memory to identify the calling (system) thread */
+              return ENOMEM;
+            }
+
           if ((PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
                        (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
 		       (PTW32_INTERLOCKED_LONG) 1,
@@ -225,6 +231,12 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
         {
           pthread_t self = pthread_self();
 
+          if (self.p == NULL)
+            {
+              /* No memory to identify the calling (system) thread */
+              return ENOMEM;
+            }
+
           kind = -kind - 1; /* Convert to non-robust range */
 
           if (PTHREAD_MUTEX_NORMAL == kind)
diff --git a/pthread_mutex_trylock.c b/pthread_mutex_trylock.c
index f994fae..32d4cfa 100644
--- a/pthread_mutex_trylock.c
+++ b/pthread_mutex_trylock.c
@@ -79,7 +79,20 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
 
   if (kind >= 0)
     {
+      pthread_t self;
+
       /* Non-robust */
+      self.p = NULL;
+      if (kind != PTHREAD_MUTEX_NORMAL)
+        {
+          self = pthread_self ();
+          if (self.p == NULL)
+            {
+              /* No memory to identify the calling (system) thread */
+              return ENOMEM;
+            }
+        }
+
       if (0 == (PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG (
 		         (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
 		         (PTW32_INTERLOCKED_LONG) 1,
@@ -88,13 +101,13 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
           if (kind != PTHREAD_MUTEX_NORMAL)
 	    {
 	      mx->recursive_count = 1;
-	      mx->ownerThread = pthread_self ();
+	      mx->ownerThread = self;
 	    }
         }
       else
         {
           if (kind == PTHREAD_MUTEX_RECURSIVE &&
-	      pthread_equal (mx->ownerThread, pthread_self ()))
+	      pthread_equal (mx->ownerThread, self))
 	    {
 	      mx->recursive_count++;
 	    }
@@ -123,6 +136,10 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
         }
 
       self = pthread_self();
+      if (self.p == NULL)
+        {
+          return ENOMEM;
+        }
       kind = -kind - 1; /* Convert to non-robust range */
 
       if (0 == (PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG (
diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 6dfbcee..8e8ab43 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -113,7 +113,8 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
 	    }
           else
 	    {
-	      if (pthread_equal (mx->ownerThread, pthread_self()))
+	      if (mx->ownerThread.p != NULL
+		  && pthread_equal (mx->ownerThread, pthread_self()))
 	        {
 	          if (kind != PTHREAD_MUTEX_RECURSIVE
 		      || 0 == --mx->recursive_count)
@@ -139,7 +140,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
            * The thread must own the lock regardless of type if the mutex
            * is robust.
            */
-          if (pthread_equal (mx->ownerThread, self))
+          if (self.p != NULL && pthread_equal (mx->ownerThread, self))
             {
               if (PTHREAD_MUTEX_RECURSIVE != kind || 0 == --mx->recursive_count)
                 {
-- 
2.43.0


From efafb6d2d1c58e6f78379e3eefc9b9e8736792b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 37/42] fix: cleanup handlers must be registered although a
 system thread can get no identity

---
 pthread_setspecific.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pthread_setspecific.c b/pthread_setspecific.c
index cc0f64a..7dedb8f 100644
--- a/pthread_setspecific.c
+++ b/pthread_setspecific.c
@@ -83,8 +83,9 @@ pthread_setspecific (pthread_key_t key, const void *value)
        * thread if one wasn't explicitly created
        */
       self = pthread_self ();
-      if (self.p == NULL)
+      if (self.p == NULL && (key == NULL || key->destructor != NULL))
 	{
+	  /* Only a destructor needs the thread */
 	  return ENOENT;
 	}
     }
-- 
2.43.0


From b900dfd43db009cb1f62065d54a2540711c755f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 38/42] fix: process initialisation must fail when it can not
 get its keys

---
 ptw32_processInitialize.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_processInitialize.c b/ptw32_processInitialize.c
index b73206e..2b5f7dd 100644
--- a/ptw32_processInitialize.c
+++ b/ptw32_processInitialize.c
@@ -150,7 +150,10 @@ ptw32_processInitialize (void)
   if ((pthread_key_create (&ptw32_selfThreadKey, NULL) != 0) ||
       (pthread_key_create (&ptw32_cleanupKey, NULL) != 0))
     {
+      /* Let ptw32_processTerminate() release what we have got so far. */
+      ptw32_processInitialized = PTW32_TRUE;
       ptw32_processTerminate ();
+      return (PTW32_FALSE);
     }
   ptw32_processInitialized = PTW32_TRUE;
   return (ptw32_processInitialized);
-- 
2.43.0


From b6a2a6ba3b77f6abce2cdd2f57d0404172a5911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 39/42] fix: a queued lock must wait for its turn also when no
 event can be created

---
 ptw32_MCS_lock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ptw32_MCS_lock.c b/ptw32_MCS_lock.c
index d3f75b8..695b054 100644
--- a/ptw32_MCS_lock.c
+++ b/ptw32_MCS_lock.c
@@ -159,6 +159,16 @@ ptw32_mcs_flag_wait (HANDLE * flag)
 
           CloseHandle(e);
       }
+      else
+      {
+          /* no event to wait on. poll the flag instead. */
+          while ((PTW32_INTERLOCKED_SIZE)0 ==
+                   PTW32_INTERLOCKED_EXCHANGE_ADD_SIZE((PTW32_INTERLOCKED_SIZEPTR)flag,
+                                                       (PTW32_INTERLOCKED_SIZE)0))
+          {
+              Sleep(1);
+          }
+      }
     }
 }
 
-- 
2.43.0


From b907fef2a88b391d7f324e08d72fe9924c32c84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:10 +0000
Subject: [PATCH 40/42] fix: pthread_kill: set the exit status before the
 thread is terminated

---
 pthread_kill.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pthread_kill.c b/pthread_kill.c
index fd713d2..146f1d3 100644
--- a/pthread_kill.c
+++ b/pthread_kill.c
@@ -137,14 +137,15 @@ pthread_kill (pthread_t thread, int sig)
           {
               tp->state = PThreadStateLast;
               tp->cancelState = PTHREAD_CANCEL_DISABLE;
+
+              // Set exit to CANCELED (KILLED) when it hasn't been set already:
+              // once the thread has terminated it can be joined and recycled.
+              if (tp->exitStatus == NULL)
+                  tp->exitStatus = PTHREAD_CANCELED;
               ptw32_mcs_lock_release(&stateLock);
 
               result = TerminateThread(tp->threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
               result = (result != 0) ? 0 : EINVAL;
-
-              // Set exit to CANCELED (KILLED) when it hasn't been set already.
-              if (tp->exitStatus == NULL)
-                  tp->exitStatus = PTHREAD_CANCELED;
           }
           else
           {
-- 
2.43.0


From 8ce5dcb9de8748184e7d97d917cc94f274bbab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:39 +0000
Subject: [PATCH 41/42] fix: timedrdlock gives its read claim back with the
 counter it owns

When the 31-bit counter of readers is full and the lock that guards the
completed count cannot be had in time, the claim just made was undone by
adding to nCompletedSharedAccessCount without holding that lock, and only on
a timeout, which left nSharedAccessCount at INT_MAX: the next reader wrapped
it and a writer was let in beside readers.
---
 pthread_rwlock_timedrdlock.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pthread_rwlock_timedrdlock.c b/pthread_rwlock_timedrdlock.c
index 65b3756..0f87d47 100644
--- a/pthread_rwlock_timedrdlock.c
+++ b/pthread_rwlock_timedrdlock.c
@@ -93,10 +93,11 @@ pthread_rwlock_timedrdlock (pthread_rwlock_t * rwlock,
 	   pthread_mutex_timedlock (&(rwl->mtxSharedAccessCompleted),
 				    abstime)) != 0)
 	{
-	  if (result == ETIMEDOUT)
-	    {
-	      ++rwl->nCompletedSharedAccessCount;
-	    }
+	  /*
+	   * We hold mtxExclusiveAccess but not mtxSharedAccessCompleted, so
+	   * only nSharedAccessCount can be used to take our claim back.
+	   */
+	  --rwl->nSharedAccessCount;
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
 	}
-- 
2.43.0


From 7c05e5709a917cb73008670c2b100affec3ac928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:12 +0000
Subject: [PATCH 42/42] fix: pthread_mutex_unlock reports EINVAL for a mutex
 that was destroyed

---
 pthread_mutex_unlock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 8e8ab43..8c04edd 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -95,6 +95,11 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
   int kind;
   int result = 0;
 
+  if (mx == NULL)
+    {
+      return EINVAL;
+    }
+
   /*
    * If the thread calling us holds the mutex then there is no
    * race condition. If another thread holds the
-- 
2.43.0

