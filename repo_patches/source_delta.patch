From 7dda8dbf22a9cd48041131ec3ef672712168641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:38 +0000
Subject: [PATCH 01/84] libgst: add model checking hooks, guarded by
 GST_MODEL_CHECK

---
 libgst/interp-bc.inl | 13 +++++++++++++
 libgst/interp.c      |  9 +++++++++
 libgst/interp.h      |  7 +++++++
 libgst/oop.c         |  9 +++++++++
 libgst/oop.h         |  6 ++++++
 5 files changed, 44 insertions(+)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index 8819481..df41989 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -523,6 +523,13 @@ _gst_interpret (OOP processOOP)
 monitor_byte_codes:
   SET_EXCEPT_FLAG (false);
 
+#ifdef GST_MODEL_CHECK
+  /* The hook can queue asynchronous signals, or ask to reschedule.  */
+  if UNCOMMON (_gst_mc_step_hook && IS_NIL (switch_to_process)
+	       && _gst_mc_step_hook (async_queue_enabled))
+    active_process_yield ();
+#endif
+
   /* First, deal with any async signals.  */
   if (async_queue_enabled)
     empty_async_queue ();
@@ -575,6 +582,12 @@ monitor_byte_codes:
   if UNCOMMON (time_to_preempt)
     set_preemption_timer ();
 
+#ifdef GST_MODEL_CHECK
+  /* Come back here before the next bytecode.  */
+  if UNCOMMON (_gst_mc_step_hook)
+    SET_EXCEPT_FLAG (true);
+#endif
+
   FETCH_VEC (normal_byte_codes);
 
   /* Some more routines we need... */
diff --git a/libgst/interp.c b/libgst/interp.c
index ab67daf..6b94fa5 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -241,6 +241,10 @@ static int class_cache_prim;
 
 /* Queue for async (outside the interpreter) semaphore signals */
 static mst_Boolean async_queue_enabled = true;
+
+#ifdef GST_MODEL_CHECK
+int (*_gst_mc_step_hook) (mst_Boolean interruptible);
+#endif
 static async_queue_entry queued_async_signals_tail;
 static async_queue_entry *queued_async_signals = &queued_async_signals_tail;
 static async_queue_entry *queued_async_signals_sig = &queued_async_signals_tail;
@@ -792,6 +796,11 @@ alloc_stack_context (int size)
 {
   gst_method_context newContext;
 
+#ifdef GST_MODEL_CHECK
+  if UNCOMMON (_gst_mc_alloc_hook)
+    _gst_mc_alloc_hook ();
+#endif
+
   size = CTX_SIZE (size);
   for (;;)
     {
diff --git a/libgst/interp.h b/libgst/interp.h
index e286e47..3110d79 100644
--- a/libgst/interp.h
+++ b/libgst/interp.h
@@ -403,6 +403,13 @@ extern void _gst_init_interpreter (void)
 extern void _gst_empty_context_pool (void) 
   ATTRIBUTE_HIDDEN;
 
+#ifdef GST_MODEL_CHECK
+/* If not NULL, called before each bytecode unless a process switch is
+   already pending; INTERRUPTIBLE is false if the active process disabled
+   interrupts.  A nonzero result reschedules the active process.  */
+extern int (*_gst_mc_step_hook) (mst_Boolean interruptible);
+#endif
+
 /* Return whether there are pending asynchronous calls.  */
 extern mst_Boolean _gst_have_pending_async_calls (void)
   ATTRIBUTE_HIDDEN;
diff --git a/libgst/oop.c b/libgst/oop.c
index 71e837a..c8b1256 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -768,6 +768,10 @@ _gst_tenure_oop (OOP oop)
 }
 
 
+#ifdef GST_MODEL_CHECK
+void (*_gst_mc_alloc_hook) (void);
+#endif
+
 gst_object
 _gst_alloc_obj (size_t size,
 		OOP *p_oop)
@@ -777,6 +781,11 @@ _gst_alloc_obj (size_t size,
 
   size = ROUNDED_BYTES (size);
 
+#ifdef GST_MODEL_CHECK
+  if UNCOMMON (_gst_mc_alloc_hook)
+    _gst_mc_alloc_hook ();
+#endif
+
   /* We don't want to have allocPtr pointing to the wrong thing during
      GC, so we use a local var to hold its new value */
   newAllocPtr = _gst_mem.eden.allocPtr + BYTES_TO_SIZE (size);
diff --git a/libgst/oop.h b/libgst/oop.h
index 76a5977..111abc3 100644
--- a/libgst/oop.h
+++ b/libgst/oop.h
@@ -401,6 +401,12 @@ extern void _gst_inc_grow_registry (void)
 
    The pointer to the object data is returned, the OOP is
    stored in P_OOP.  */
+#ifdef GST_MODEL_CHECK
+/* If not NULL, called before each allocation of an object or of a
+   context, i.e. where a garbage collection can happen.  */
+extern void (*_gst_mc_alloc_hook) (void);
+#endif
+
 extern gst_object _gst_alloc_obj (size_t size,
 				  OOP *p_oop) 
   ATTRIBUTE_HIDDEN;
-- 
2.43.0


From 78558703943a8c14c6d864c7789544609a4d2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:22 +0000
Subject: [PATCH 02/84] libgst: let the model checking hook preempt a process

---
 libgst/interp-bc.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index df41989..ecb60a4 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -524,10 +524,14 @@ monitor_byte_codes:
   SET_EXCEPT_FLAG (false);
 
 #ifdef GST_MODEL_CHECK
-  /* The hook can queue asynchronous signals, or ask to reschedule.  */
+  /* The hook can queue asynchronous signals, or ask to act as if the active
+     process had been preempted by another which gave up the CPU since.  */
   if UNCOMMON (_gst_mc_step_hook && IS_NIL (switch_to_process)
 	       && _gst_mc_step_hook (async_queue_enabled))
-    active_process_yield ();
+    {
+      sleep_process (get_scheduled_process ());
+      ACTIVE_PROCESS_YIELD ();
+    }
 #endif
 
   /* First, deal with any async signals.  */
-- 
2.43.0


From db0de066b1f49cce9f6c6d4a80873263f39404a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:21 +0000
Subject: [PATCH 03/84] fix: do not let a terminating process be preempted
 while it has no context

Process>>primTerminate first cleared the context of the process, then took
it out of the scheduler's lists.  A process of higher priority becoming ready
in between left a process without a context in the list of ready processes,
and the VM crashed when it was picked again.
---
 kernel/Process.st | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 652b841..63c6663 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -157,8 +157,15 @@ can suspend themselves and resume themselves however they wish.'>
 
 	<category: 'basic'>
 	self removeToBeFinalized.
+
+	"A process without a context must not be found in a list of
+	 processes that are ready to run, so do not let the active process
+	 be preempted between the two steps.  If the receiver is the active
+	 process, #suspend does not return."
+	Processor disableInterrupts.
 	suspendedContext := nil.
-	self suspend
+	self suspend.
+	Processor enableInterrupts
     ]
 
     printOn: aStream [
-- 
2.43.0


From 6f743fad3d2c68c8baa69accaca4aa0e6f63a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:40 +0000
Subject: [PATCH 04/84] libgst: pass the next bytecode to the model checking
 hook

---
 libgst/interp-bc.inl | 2 +-
 libgst/interp.c      | 2 +-
 libgst/interp.h      | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index ecb60a4..4c2a5e4 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -527,7 +527,7 @@ monitor_byte_codes:
   /* The hook can queue asynchronous signals, or ask to act as if the active
      process had been preempted by another which gave up the CPU since.  */
   if UNCOMMON (_gst_mc_step_hook && IS_NIL (switch_to_process)
-	       && _gst_mc_step_hook (async_queue_enabled))
+	       && _gst_mc_step_hook (async_queue_enabled, ip))
     {
       sleep_process (get_scheduled_process ());
       ACTIVE_PROCESS_YIELD ();
diff --git a/libgst/interp.c b/libgst/interp.c
index 6b94fa5..b866417 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -243,7 +243,7 @@ static int class_cache_prim;
 static mst_Boolean async_queue_enabled = true;
 
 #ifdef GST_MODEL_CHECK
-int (*_gst_mc_step_hook) (mst_Boolean interruptible);
+int (*_gst_mc_step_hook) (mst_Boolean interruptible, const gst_uchar *next_ip);
 #endif
 static async_queue_entry queued_async_signals_tail;
 static async_queue_entry *queued_async_signals = &queued_async_signals_tail;
diff --git a/libgst/interp.h b/libgst/interp.h
index 3110d79..d448898 100644
--- a/libgst/interp.h
+++ b/libgst/interp.h
@@ -406,8 +406,10 @@ extern void _gst_empty_context_pool (void)
 #ifdef GST_MODEL_CHECK
 /* If not NULL, called before each bytecode unless a process switch is
    already pending; INTERRUPTIBLE is false if the active process disabled
-   interrupts.  A nonzero result reschedules the active process.  */
-extern int (*_gst_mc_step_hook) (mst_Boolean interruptible);
+   interrupts; NEXT_IP is where the bytecode is.  A nonzero result
+   reschedules the active process.  */
+extern int (*_gst_mc_step_hook) (mst_Boolean interruptible,
+				 const gst_uchar *next_ip);
 #endif
 
 /* Return whether there are pending asynchronous calls.  */
-- 
2.43.0


From b82b8c619f9503837aad94d88f49648048cba3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:52 +0000
Subject: [PATCH 05/84] fix: put a yielding process on the ready list for its
 current priority

A process that changed its own priority (in particular, any process just
started by fork or forkAt:, which starts at unpreemptedPriority) stays on the
ready list of its old priority until it is moved.  active_process_yield left
it there, so that it was later chosen in preference to higher priority
processes.
---
 libgst/interp.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index b866417..4987446 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1519,8 +1519,13 @@ active_process_yield (void)
   OOP activeProcess = get_active_process ();
   OOP newProcess = highest_priority_process();
 
-  if (is_process_ready (activeProcess))
-    sleep_process (activeProcess);	/* move to the end of the list */
+  /* Move it to the end of the list for its priority.  Note that a process
+     that changed its own priority may still be on the list for the old one,
+     so is_process_ready is not the right test.  */
+  if (!IS_NIL (activeProcess)
+      && !IS_NIL (((gst_process) OOP_TO_OBJ (activeProcess))->myList)
+      && !is_process_terminating (activeProcess))
+    sleep_process (activeProcess);
 
   activate_process (IS_NIL (newProcess) ? activeProcess : newProcess);
 }
-- 
2.43.0


From d74e1a9daf5afb41e4036a8d03fedef50e8225c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:52 +0000
Subject: [PATCH 06/84] fix: keep interrupts disabled across a process switch

The interrupts slot of a Process counts how many times interrupts were
disabled, so interrupts are enabled if it is zero or negative, not
positive.
---
 libgst/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index 4987446..7b47d03 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1330,7 +1330,7 @@ change_process_context (OOP newProcess)
       processor->activeProcess = newProcess;
       process = (gst_process) OOP_TO_OBJ (newProcess);
       enable_async_queue = IS_NIL (process->interrupts)
-		           || TO_INT (process->interrupts) >= 0;
+		           || TO_INT (process->interrupts) <= 0;
 
       resume_suspended_context (process->suspendedContext);
 
-- 
2.43.0


From b1c116dbf9d1fc956bb267b3c152921427bf95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:22 +0000
Subject: [PATCH 07/84] fix: Semaphore>>#waitAfterSignalling: must make the
 current process wait

If the signal resumed a process of the same priority, it was that process,
rather than the one which sent the message, that was put on the list of
processes waiting for the semaphore.
---
 libgst/prims.def | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 98b34e1..3d21015 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2908,13 +2908,17 @@ primitive VMpr_Semaphore_wait [succeed,check_interrupt]
 /* Semaphore waitAfterSignalling: aSemaphore */
 primitive VMpr_Semaphore_waitAfterSignalling [succeed,check_interrupt]
 {
-  OOP oop1, oop2;
+  OOP oop1, oop2, processOOP;
   _gst_primitives_executed++;
 
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
+  processOOP = get_active_process ();
   _gst_sync_signal (oop2, true);
-  _gst_sync_wait (oop1);
+
+  /* The signal can preempt the process that invoked us, which is the
+     one that has to wait.  */
+  sync_wait_process (oop1, processOOP);
   PRIM_SUCCEEDED;
 }
 
-- 
2.43.0


From d748430079d9463511227e5ba3cf5ec1e94d0cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:10 +0000
Subject: [PATCH 08/84] fix: do not lose a #resume sent right after #newProcess

The new process lowered its priority and then suspended itself; if it was
preempted in the middle, its creator could send #resume before it was
suspended, and the process never ran.
---
 kernel/Process.st | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 63c6663..e00c961 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -393,10 +393,14 @@ can suspend themselves and resume themselves however they wish.'>
 		 the test on activePriority!  This because here we may want to
 		 yield to the creator, while in #priority: we may want to yield
 		 to the process whose priority was changed."
-		priority := aPriority.
 		aBoolean
-		    ifTrue: [self suspend]
+		    ifTrue: [
+			"Do not lower the priority yet: if we were preempted
+			 before getting to #suspend, our creator could send
+			 #resume to us too early."
+			self suspend]
 		    ifFalse: [
+			priority := aPriority.
 			aPriority < activePriority ifTrue: [ Processor yield ] ].
 		aBlockClosure value]
 			on: SystemExceptions.ProcessBeingTerminated
@@ -417,7 +421,8 @@ can suspend themselves and resume themselves however they wish.'>
 	priority := Processor unpreemptedPriority.
 	self
 	    addToBeFinalized;
-	    resume
+	    resume.
+	aBoolean ifTrue: [priority := aPriority]
     ]
 
     isActive [
-- 
2.43.0


From 8a934be54073be8469cfd385ebe01086ef6d3261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:13 +0000
Subject: [PATCH 09/84] fix: close two races between Semaphore>>#critical: and
 process termination

The signal was lost if the process was terminated after getting it, but
between the return from #on:do: and the assignment of ownedSem; or if the
exception was not handled, because the process was already at the end of its
life, in which case #pass returned nil.
---
 kernel/Semaphore.st | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kernel/Semaphore.st b/kernel/Semaphore.st
index 5b2755c..faf4b78 100644
--- a/kernel/Semaphore.st
+++ b/kernel/Semaphore.st
@@ -67,9 +67,16 @@ I also provide some methods for implementing critical sections.'>
              is assigned.  Pushing self and sending #wait is atomic
              thanks to superoperators."
             c := #(nil).
-            ownedSem := [c := thisContext. self wait]
+            [c := thisContext. ownedSem := self wait]
                 on: ProcessBeingTerminated
-                do: [:ex | ownedSem := c at: 1. ex pass].
+                do: [:ex |
+                    ownedSem isNil ifTrue: [ownedSem := c at: 1].
+                    ex outer.
+
+                    "If we get here nobody handles the exception, because
+                     the process is already terminating.  Do not forget
+                     about the signal if we did get it."
+                    ownedSem == self ifFalse: [ownedSem := self wait]].
             ownedSem == self ifTrue: [aBlock value]]
 		ensure: [ownedSem == self ifTrue: [self signal]]
     ]
-- 
2.43.0


From 6b117967e28452bbca84b412b631dcf202744c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 10/84] fix: bounds check accesses to objects with no indexed
 instance variables

The unsigned subtraction in the bounds check wrapped around for an empty
object, so that any index was accepted; an index close to the largest
SmallInteger wrapped around as well.
---
 libgst/dict.inl | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 528f870..f4df05a 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -992,14 +992,12 @@ index_oop_spec (OOP oop,
       maxByte -= (oop->flags & EMPTY_BYTES);				\
 									\
     base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);		\
-    index = base + index * sizeof(type);				\
 									\
     /* Check that we're on bounds.  */					\
-    base += sizeof(type);						\
-    if UNCOMMON (index - base > maxByte - base)				\
+    if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
       return (NULL);							\
 									\
-    index -= sizeof(type);						\
+    index = base + (index - 1) * sizeof(type);				\
 									\
     /* Use a cast if unaligned accesses are supported, else memcpy.  */	\
     src = ((char *) object->data) + index;				\
@@ -1085,11 +1083,10 @@ index_oop_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (NULL);
 
+        index += base;
         return (object->data[index - 1]);
     }
 #undef DO_INDEX_OOP
@@ -1127,15 +1124,13 @@ index_oop_put_spec (OOP oop,
         if (sizeof (type) <= sizeof (PTR))				\
           maxByte -= (oop->flags & EMPTY_BYTES);			\
 									\
-          base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
-          index = base + index * sizeof(type);				\
+        base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
 									\
         /* Check that we're on bounds.  */				\
-        base += sizeof(type);						\
-        if UNCOMMON (index - base > maxByte - base)			\
+        if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
           return (false);						\
 									\
-        index -= sizeof(type);						\
+        index = base + (index - 1) * sizeof(type);			\
 									\
         /* Use a cast if unaligned accesses are ok, else memcpy.  */	\
         if (sizeof (type) <= sizeof (PTR))				\
@@ -1253,11 +1248,10 @@ index_oop_put_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (false);
 
+        index += base;
         object->data[index - 1] = value;
         return (true);
     }
-- 
2.43.0


From d20e0bdb55634746210a3f30c5a8b0cab74fa39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 11/84] fix: accept the whole range of 32-bit integers, read
 back signed shorts

---
 libgst/dict.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index f4df05a..e8d5040 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1027,7 +1027,7 @@ index_oop_spec (OOP oop,
       }
 
       case GST_ISP_SHORT: {
-        uint16_t i;
+        int16_t i;
         DO_INDEX_OOP (int16_t, i);
         return FROM_INT (i);
       }
@@ -1291,7 +1291,7 @@ is_c_int_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (true);
 #else
-    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) < INT_MAX);
+    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) <= INT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
@@ -1311,7 +1311,7 @@ is_c_uint_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (TO_INT (oop) >= 0);
 #else
-    return (TO_INT (oop) >= 0 && TO_INT (oop) < UINT_MAX);
+    return (TO_INT (oop) >= 0 && TO_INT (oop) <= UINT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-- 
2.43.0


From 3644f6996ab3d49edae428d123e88a0bba7e520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 12/84] fix: Interval>>#isEmpty for one element and
 Interval>>#reverse for none

---
 kernel/Interval.st | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 0631bb8..7fb7df5 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -135,7 +135,7 @@ members that my instance represents.'>
 	"Answer whether the receiver is empty."
 
 	<category: 'basic'>
-	^(step > 0) == (stop < start)
+	^step > 0 ifTrue: [stop < start] ifFalse: [start < stop]
     ]
 
     size [
@@ -151,6 +151,12 @@ members that my instance represents.'>
 	"Answer a copy of the receiver with all of its items reversed"
 
 	<category: 'basic'>
+	self isEmpty 
+	    ifTrue: 
+		[^Interval 
+		    from: stop
+		    to: start
+		    by: step negated].
 	^Interval 
 	    from: (self at: self size)
 	    to: (self at: 1)
-- 
2.43.0


From 6a05d2b132b22eb2e05976d169db038c7f52d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 13/84] fix: equal Intervals must have the same hash

---
 kernel/Interval.st | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 7fb7df5..499ef35 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -197,7 +197,10 @@ members that my instance represents.'>
 	"Answer an hash value for the receiver"
 
 	<category: 'testing'>
-	^(start + stop + stop) * step bitAnd: 1073741823
+	| last |
+	self isEmpty ifTrue: [^0].
+	last := self last.
+	^((start + last + last) * step) hash bitAnd: 1073741823
     ]
 
     copyFrom: startIndex to: stopIndex [
-- 
2.43.0


From 7e58ff86c332b8636fe2634161ec1803576c45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 14/84] fix: Interval>>#printOn: must print the last element,
 not the limit

---
 kernel/Interval.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 499ef35..798673f 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -241,10 +241,10 @@ members that my instance represents.'>
 		    print: start + step].
 	size > 2 
 	    ifTrue: 
-		[(self at: 3) = stop ifFalse: [aStream nextPutAll: ' ...'].
+		[size = 3 ifFalse: [aStream nextPutAll: ' ...'].
 		aStream
 		    space;
-		    print: stop].
+		    print: self last].
 	aStream nextPut: $)
     ]
 
-- 
2.43.0


From 2fc44f389f88f0010630809dddfa5c2d1e3c7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 15/84] fix: a copy of a Bag must not share its contents

---
 kernel/Bag.st | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kernel/Bag.st b/kernel/Bag.st
index 66a28f6..310cc8f 100644
--- a/kernel/Bag.st
+++ b/kernel/Bag.st
@@ -207,6 +207,14 @@ twice, then I will report that that element has been stored twice.'>
 	aStream nextPut: $)
     ]
 
+    postCopy [
+	"Private - Do not share the counts with the object being copied"
+
+	<category: 'private'>
+	super postCopy.
+	contents := contents copy
+    ]
+
     dictionaryClass [
 	<category: 'private'>
 	^LookupTable
-- 
2.43.0


From 7dea4f1a760e3fd0f3cb45ce54e801a5e75a1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 16/84] fix: equal floats of different classes must have the
 same hash

---
 kernel/Float.st | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kernel/Float.st b/kernel/Float.st
index 3714f08..47ef414 100644
--- a/kernel/Float.st
+++ b/kernel/Float.st
@@ -126,14 +126,18 @@ if the hardware supports it.'>
 	"Hack so that 2 hash = 2.0 hash"
 
 	<category: 'basic'>
+	| d |
 	self = self ifFalse: [
 	    SystemExceptions.InvalidValue
 		signalOn: self
 		reason: 'cannot put NaN in a hashed collection' ].
 
-	^self fractionPart = 0.0 
-	    ifTrue: [self asInteger hash]
-	    ifFalse: [self primHash]
+	"Equal floats of different classes, as well as Fractions, must have the
+	 same hash."
+	d := self fractionPart = 0.0 ifTrue: [self] ifFalse: [self asFloatD].
+	^d fractionPart = 0.0 
+	    ifTrue: [d asInteger hash]
+	    ifFalse: [d primHash]
     ]
 
     negated [
-- 
2.43.0


From 3d8c876914fc040c9d33685e786d9459918b618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:51 +0000
Subject: [PATCH 17/84] fix: equal DateTimes with different offsets must have
 the same hash

---
 kernel/AnsiDates.st | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/AnsiDates.st b/kernel/AnsiDates.st
index 9c72cdb..ac209ed 100644
--- a/kernel/AnsiDates.st
+++ b/kernel/AnsiDates.st
@@ -230,7 +230,8 @@ Date subclass: DateTime [
 	"Answer an hash value for the receievr"
 
 	<category: 'testing'>
-	^super hash * 37 + (self seconds - self offset seconds)
+	self offset asSeconds = 0 ifFalse: [^self asUTC hash].
+	^super hash * 37 + seconds
     ]
 
     + aDuration [
-- 
2.43.0


From 47894cc78ae13b6ab7fcb18d517042e1eca824b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 18/84] fix: read 9-byte LargePositiveIntegers into unsigned
 64-bit elements

---
 libgst/dict.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index e8d5040..9e2af44 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1457,12 +1457,15 @@ to_c_uint_64 (OOP oop)
 {
   gst_byte_array ba;
   uint64_t result, mask;
+  int size;
 
   if COMMON (IS_INT (oop))
     return (TO_INT (oop));
 
+  /* The ninth byte, if any, is zero.  */
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-  mask = (((uint64_t)2) << (NUM_INDEXABLE_FIELDS (oop) * 8 - 1)) - 1;
+  size = NUM_INDEXABLE_FIELDS (oop);
+  mask = (((uint64_t)2) << ((size > 8 ? 8 : size) * 8 - 1)) - 1;
   result = ((int64_t) (
 	   (((uint64_t) ba->bytes[3]) << 24) +
 	   (((uint64_t) ba->bytes[2]) << 16) +
-- 
2.43.0


From 3b2014858f903a832b82e1ce658de471c28877d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 19/84] fix: compile the literal for the smallest SmallInteger
 to a SmallInteger

---
 libgst/gst-parse.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/libgst/gst-parse.c b/libgst/gst-parse.c
index 5fd4f54..032c477 100644
--- a/libgst/gst-parse.c
+++ b/libgst/gst-parse.c
@@ -1719,6 +1719,24 @@ parse_variable_primary (gst_parser *p)
 }
 
 
+/* Answer whether BO, which was the result of negating a positive literal,
+   is actually in the range of a SmallInteger.  */
+static inline mst_Boolean
+is_smallest_int (byte_object bo)
+{
+  uintptr_t value = 0;
+  int i;
+
+  if (bo->class != _gst_large_negative_integer_class
+      || bo->size != sizeof (value))
+    return false;
+
+  for (i = bo->size; i--; )
+    value = (value << 8) | bo->body[i];
+
+  return value == (uintptr_t) MIN_ST_INT;
+}
+
 /* array_literal_elt: array_literal
    | byte_array_literal
    | literal
@@ -1792,7 +1810,10 @@ parse_literal (gst_parser *p, mst_Boolean array)
       break;
 
     case LARGE_INTEGER_LITERAL:
-      node = _gst_make_byte_object_constant (loc (p, 0), val(p, 0)->boval);
+      if (is_smallest_int (val(p, 0)->boval))
+	node = _gst_make_int_constant (loc (p, 0), MIN_ST_INT);
+      else
+	node = _gst_make_byte_object_constant (loc (p, 0), val(p, 0)->boval);
       break;
 
     case FLOATD_LITERAL:
-- 
2.43.0


From 9f342261987e8d19986fa1236f48cd794e39d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 20/84] fix: check ranges of block copies and searches without
 truncating indices

---
 libgst/prims.def | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 3d21015..9800bfb 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3311,7 +3311,7 @@ primitive VMpr_ArrayedCollection_equal [succeed,fail]
 primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 {
   OOP srcIndexOOP, srcOOP, targetOOP;
-  int srcIndex, srcLen, target;
+  intptr_t srcIndex, srcLen, target;
   gst_uchar *srcBase, *srcTarget;
   _gst_primitives_executed++;
 
@@ -3326,15 +3326,24 @@ primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
       if (srcSpec & (~0 << ISP_NUMFIXEDFIELDS))
 	goto bad;
 
-      /* Check compatibility.  */
+      /* Check compatibility.  An object that cannot be an element of the
+         receiver is never found.  */
       if (_gst_log2_sizes[srcSpec & ISP_SHAPE] != 0)
 	goto bad;
+      if (((srcSpec & ISP_INDEXEDVARS) == GST_ISP_CHARACTER)
+	  == IS_INT (targetOOP))
+	goto bad;
 
       target = IS_INT (targetOOP) ? TO_INT (targetOOP) : CHAR_OOP_VALUE (targetOOP);
+      if UNCOMMON ((srcSpec & ISP_INDEXEDVARS) == GST_ISP_SCHAR
+		   ? target < -128 || target > 127
+		   : target < 0 || target > 255)
+	goto bad;
+
       srcIndex = TO_INT (srcIndexOOP);
       srcLen = NUM_INDEXABLE_FIELDS (srcOOP) - srcIndex + 1;
 
-      if UNCOMMON (srcLen < 0)
+      if UNCOMMON (srcIndex <= 0 || srcLen < 0)
 	goto bad;
 
       srcBase = (gst_uchar *) OOP_TO_OBJ (srcOOP)->data;
@@ -3358,7 +3367,7 @@ primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
 {
   OOP srcIndexOOP, srcOOP, dstEndIndexOOP, dstStartIndexOOP, dstOOP;
-  int dstEndIndex, dstStartIndex, srcIndex, dstLen, srcLen, dstRangeLen;
+  intptr_t dstEndIndex, dstStartIndex, srcIndex, dstLen, srcLen, dstRangeLen;
   gst_uchar *dstBase, *srcBase;
   _gst_primitives_executed++;
 
@@ -3398,11 +3407,13 @@ primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
       dstOOP = STACKTOP ();
       dstLen = NUM_INDEXABLE_FIELDS (dstOOP);
       srcLen = NUM_INDEXABLE_FIELDS (srcOOP);
-      dstRangeLen = dstEndIndex - dstStartIndex + 1;
 
+      if UNCOMMON (dstEndIndex > dstLen || dstStartIndex <= 0)
+	goto bad;
+
+      dstRangeLen = dstEndIndex - dstStartIndex + 1;
       if UNCOMMON (dstRangeLen < 0
-		   || dstEndIndex > dstLen || dstStartIndex <= 0
-	           || srcIndex + dstRangeLen - 1 > srcLen
+	           || srcIndex > srcLen - dstRangeLen + 1
 		   || (srcIndex <= 0 && dstRangeLen > 0))
 	goto bad;
 
-- 
2.43.0


From 1071fca1aac78ce507028fa7ff954b0f61573875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 21/84] fix: convert 9-byte LargePositiveIntegers to C unsigned
 longs

---
 libgst/dict.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 9e2af44..f7c8556 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1487,12 +1487,15 @@ to_c_int_64 (OOP oop)
 {
   gst_byte_array ba;
   int64_t result, mask;
+  int size;
 
   if COMMON (IS_INT (oop))
     return (TO_INT (oop));
 
+  /* This is also used for unsigned values, whose ninth byte is zero.  */
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-  mask = (((uint64_t)2) << (NUM_INDEXABLE_FIELDS (oop) * 8 - 1)) - 1;
+  size = NUM_INDEXABLE_FIELDS (oop);
+  mask = (((uint64_t)2) << ((size > 8 ? 8 : size) * 8 - 1)) - 1;
   result = (ba->objClass == _gst_large_negative_integer_class) ? ~mask : 0;
   result |= ((int64_t) (
 	   (((uint64_t) ba->bytes[3]) << 24) +
-- 
2.43.0


From b0dee4e43fdadb22b979256ff3335704e336834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 22/84] fix: store unsigned ints of 2^31 and above through
 CObjects

---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 9800bfb..214bb9f 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5014,7 +5014,7 @@ primitive VMpr_CObject_atPut [succeed,fail]
 
 	case CDATA_INT:		/* int */
 	case CDATA_UINT:		/* uint */
-	  if (IS_C_INT (oop3))
+	  if (IS_C_INT (oop3) || is_c_uint_32 (oop3))
 	    {
 	      *(int *) addr = (int) TO_C_INT (oop3);
 	      PRIM_SUCCEEDED;
-- 
2.43.0


From 0afc63caa950da22c909f00c6a032a2d8834c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 23/84] fix: LargeInteger gcd: 0 must not be negative

---
 libgst/prims.def | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 214bb9f..e2cc583 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1338,7 +1338,10 @@ primitive VMpr_LargeInteger_gcd [uses_gmp]
       || (IS_OOP(oop1) && OOP_CLASS (oop1) == _gst_large_zero_integer_class)
       || (IS_OOP(oop2) && OOP_CLASS (oop2) == _gst_large_zero_integer_class))
     /* Return the non-zero number between a and b */
-    _gst_mpz_add (&c, &a, &b);
+    {
+      _gst_mpz_add (&c, &a, &b);
+      c.size = ABS (c.size);
+    }
   else
     _gst_mpz_gcd (&c, &a, &b);
 
-- 
2.43.0


From 36c8a4db3c70bec14728c63a8969d9ea06f862c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 24/84] fix: exact division of a LargeInteger by a negative
 number answers an Integer

---
 kernel/LargeInt.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index f8c5296..751450f 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -397,7 +397,7 @@ to speed them up a bit.'>
 	gcd := self gcd: aNumber.
 	gcd = self 
 	    ifTrue: [^Fraction numerator: 1 denominator: (aNumber divExact: gcd)].
-	gcd = aNumber ifTrue: [^self divExact: gcd].
+	gcd = aNumber abs ifTrue: [^self divExact: aNumber].
 	^Fraction numerator: (self divExact: gcd)
 	    denominator: (aNumber divExact: gcd)
     ]
-- 
2.43.0


From 07d1bacaa0fb7f6c71be0cc74d7a1a7f7dc1490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 25/84] fix: LargeInteger bitShift: with negative receivers and
 huge shift counts

---
 libgst/mpz.c     | 22 +++++++++++++++++++++-
 libgst/prims.def |  6 +++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/libgst/mpz.c b/libgst/mpz.c
index 769525f..f69b5aa 100644
--- a/libgst/mpz.c
+++ b/libgst/mpz.c
@@ -305,10 +305,18 @@ _gst_mpz_div_2exp (gst_mpz *w, const gst_mpz *u, unsigned cnt)
   mp_size_t usize = u->size;
   mp_size_t wsize;
   mp_size_t abs_usize = ABS (usize);
-  mp_size_t limb_cnt;
+  mp_size_t limb_cnt, i;
+  mp_limb_t lost = 0;
 
   limb_cnt = cnt / BITS_PER_MP_LIMB;
   wsize = abs_usize - limb_cnt;
+
+  /* See whether any bit that is shifted out is set.  */
+  for (i = 0; i < limb_cnt && i < abs_usize; i++)
+    lost |= u->d[i];
+  if (wsize > 0 && cnt % BITS_PER_MP_LIMB)
+    lost |= u->d[limb_cnt] << (BITS_PER_MP_LIMB - cnt % BITS_PER_MP_LIMB);
+
   if (wsize <= 0)
     wsize = 0;
   else
@@ -325,6 +333,18 @@ _gst_mpz_div_2exp (gst_mpz *w, const gst_mpz *u, unsigned cnt)
       wsize -= w->d[wsize - 1] == 0;
     }
 
+  if (usize < 0 && lost)
+    {
+      /* Round towards minus infinity.  */
+      if (w->alloc < wsize + 1)
+	gst_mpz_realloc (w, wsize + 1);
+
+      if (wsize == 0)
+	w->d[wsize++] = 1;
+      else if (mpn_add_1 (w->d, w->d, wsize, 1))
+	w->d[wsize++] = 1;
+    }
+
   w->size = (usize >= 0) ? wsize : -wsize;
 }
 
diff --git a/libgst/prims.def b/libgst/prims.def
index e2cc583..bbd08b7 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1171,7 +1171,7 @@ primitive VMpr_LargeInteger_bitInvert [uses_gmp]
 primitive VMpr_LargeInteger_bitShift [uses_gmp]
 {
 #ifdef HAVE_GMP
-  int n;
+  intptr_t n;
   gst_mpz a = { 0, 0, NULL };
   gst_mpz c = { 0, 0, NULL };
   OOP oop1, oop2, oop3;
@@ -1179,8 +1179,8 @@ primitive VMpr_LargeInteger_bitShift [uses_gmp]
   _gst_primitives_executed++;
   oop2 = POP_OOP ();
   oop1 = POP_OOP ();
-  if COMMON (IS_INT (oop2))
-    n = TO_INT (oop2);
+  if COMMON (IS_INT (oop2) && TO_INT (oop2) <= INT_MAX)
+    n = MAX (TO_INT (oop2), -INT_MAX);
   else
     {
       UNPOP (2);
-- 
2.43.0


From 4b00cd5a797522b6d30515e61f615ee0d3e62420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 26/84] fix: Integer>>ceilingLog: must round up

---
 kernel/Integer.st | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Integer.st b/kernel/Integer.st
index 54b9452..420ac8c 100644
--- a/kernel/Integer.st
+++ b/kernel/Integer.st
@@ -345,9 +345,9 @@ efficiency.'>
 		    ifTrue: [^self arithmeticError: 'base of a logarithm cannot be 1'].
 		^(self floorLog: radix reciprocal) negated].
 	radix isInteger ifFalse: [^(radix coerce: self) ceilingLog: radix].
-	me := self.
-	answer := 1.
-	[me > radix] whileTrue: 
+	me := self - 1.
+	answer := 0.
+	[me > 0] whileTrue: 
 		[me := me // radix.
 		answer := answer + 1].
 	^answer
-- 
2.43.0


From 7d1a5b2a9f04daa54f38ba55c2dc46b12eba0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 27/84] fix: LargeInteger raisedToInteger: 0 answers a
 SmallInteger

---
 kernel/LargeInt.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index 751450f..98c8a3c 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -624,6 +624,7 @@ to speed them up a bit.'>
 
 	<category: 'accessing'>
 	| nbit |
+	n = 0 ifTrue: [^1].
 	nbit := 1.
 	[(self bitAt: nbit) = 0] whileTrue: [nbit := nbit + 1].
 	nbit = 1 ifTrue: [^super raisedToInteger: n].
-- 
2.43.0


From fd003b23ae29e5b482fdf190ffe52136fcf51fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 28/84] fix: overflow when dividing the smallest SmallInteger
 by -1

---
 kernel/SmallInt.st | 12 +++++++++---
 libgst/prims.def   | 14 +++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/kernel/SmallInt.st b/kernel/SmallInt.st
index 2e1c575..a405dd4 100644
--- a/kernel/SmallInt.st
+++ b/kernel/SmallInt.st
@@ -297,7 +297,9 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	<category: 'built ins'>
 	<primitive: VMpr_SmallInteger_intDiv>
 	arg = 0 ifTrue: [^self zeroDivide].
-	^self retry: #// coercing: arg
+	^self generality == arg generality 
+	    ifFalse: [self retry: #// coercing: arg]
+	    ifTrue: [(LargeInteger fromInteger: self) // (LargeInteger fromInteger: arg)]
     ]
 
     divExact: arg [
@@ -310,7 +312,9 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	<primitive: VMpr_SmallInteger_quo>
 	self = 0 ifTrue: [^0].
 	arg = 0 ifTrue: [^self zeroDivide].
-	^self retry: #divExact: coercing: arg
+	^self generality == arg generality 
+	    ifFalse: [self retry: #divExact: coercing: arg]
+	    ifTrue: [(LargeInteger fromInteger: self) divExact: (LargeInteger fromInteger: arg)]
     ]
 
     quo: arg [
@@ -320,7 +324,9 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	<category: 'built ins'>
 	<primitive: VMpr_SmallInteger_quo>
 	arg = 0 ifTrue: [^self zeroDivide].
-	^self retry: #quo: coercing: arg
+	^self generality == arg generality 
+	    ifFalse: [self retry: #quo: coercing: arg]
+	    ifTrue: [(LargeInteger fromInteger: self) quo: (LargeInteger fromInteger: arg)]
     ]
 
     bitAnd: arg [
diff --git a/libgst/prims.def b/libgst/prims.def
index bbd08b7..043eec2 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -196,7 +196,7 @@ primitive VMpr_SmallInteger_divide [succeed,fail]
       iarg2 = TO_INT (oop2);
       result = iarg1 / iarg2;
       iarg2 *= result;
-      if COMMON (iarg1 == iarg2)
+      if COMMON (iarg1 == iarg2 && !INT_OVERFLOW (result))
 	{
 	  PUSH_INT (result);
 	  PRIM_SUCCEEDED;
@@ -251,11 +251,15 @@ primitive VMpr_SmallInteger_intDiv [succeed,fail]
 	  iarg2 = -iarg2;
 	}
       if (iarg1 < 0)		/* differing signs => use black magic */
-	PUSH_INT (-((iarg2 - 1 - iarg1) / iarg2));
+	iarg1 = -((iarg2 - 1 - iarg1) / iarg2);
       else
-	PUSH_INT (iarg1 / iarg2);
+	iarg1 = iarg1 / iarg2;
 
-      PRIM_SUCCEEDED;
+      if COMMON (!INT_OVERFLOW (iarg1))
+	{
+	  PUSH_INT (iarg1);
+	  PRIM_SUCCEEDED;
+	}
     }
   UNPOP (2);
   PRIM_FAILED;
@@ -276,7 +280,7 @@ primitive VMpr_SmallInteger_quo [succeed,fail]
       intptr_t iarg1, iarg2;
       iarg1 = TO_INT (oop1);
       iarg2 = TO_INT (oop2);
-      if COMMON (iarg2 != 0)
+      if COMMON (iarg2 != 0 && !INT_OVERFLOW (iarg1 / iarg2))
 	{
 	  PUSH_INT (iarg1 / iarg2);
 	  PRIM_SUCCEEDED;
-- 
2.43.0


From f29101769b987345b82dc01fc0422a63bbfd15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 29/84] fix: dividing a LargeInteger by itself answers an
 Integer

---
 kernel/LargeInt.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index 98c8a3c..e2f1ba6 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -395,9 +395,9 @@ to speed them up a bit.'>
 	aNumber generality = self generality 
 	    ifFalse: [^self retryDivisionCoercing: aNumber].
 	gcd := self gcd: aNumber.
+	gcd = aNumber abs ifTrue: [^self divExact: aNumber].
 	gcd = self 
 	    ifTrue: [^Fraction numerator: 1 denominator: (aNumber divExact: gcd)].
-	gcd = aNumber abs ifTrue: [^self divExact: aNumber].
 	^Fraction numerator: (self divExact: gcd)
 	    denominator: (aNumber divExact: gcd)
     ]
-- 
2.43.0


From 81f0b5556290bc8dedcfad2f0ad7faace7fd5c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 30/84] fix: exact division of LargeIntegers of opposite signs

---
 libgst/mpz.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libgst/mpz.c b/libgst/mpz.c
index f69b5aa..7c37287 100644
--- a/libgst/mpz.c
+++ b/libgst/mpz.c
@@ -412,6 +412,8 @@ _gst_mpz_tdiv_qr (gst_mpz *quot, gst_mpz *rem, const gst_mpz *num, const gst_mpz
   mpn_tdiv_qr (qp, rp, 0L, np, nsize, dp, dsize);
 
   qsize -=  qp[qsize - 1] == 0;
+  while (dsize > 0 && rp[dsize - 1] == 0)
+    dsize--;
 
   quot->size = sign_quotient >= 0 ? qsize : -qsize;
   rem->size = sign_remainder >= 0 ? dsize : -dsize;
-- 
2.43.0


From a6375eb07d8e0dc1724dd8443301c19b20399ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 31/84] fix: lowBit of the smallest SmallInteger

---
 kernel/SmallInt.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/SmallInt.st b/kernel/SmallInt.st
index a405dd4..c641257 100644
--- a/kernel/SmallInt.st
+++ b/kernel/SmallInt.st
@@ -101,8 +101,8 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	"The result is 1-based, but we start from 2 to compensate with the
 	 subtraction in the final line."
 	bit := 2.
-	(n bitAnd: 1073741823) = 0 
-	    ifTrue: 
+	[(n bitAnd: 1073741823) = 0] 
+	    whileTrue: 
 		[bit := bit + 30.
 		n := n bitShift: -30].
 	(n bitAnd: 65535) = 0 
-- 
2.43.0


From f144c0ecd64a292189eb8a5a91ceb0339d3ff0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 32/84] fix: coercing a LargeInteger to its own class truncated
 it

---
 kernel/LargeInt.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index e2f1ba6..43b06d4 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -129,6 +129,7 @@ to speed them up a bit.'>
 	<category: 'private'>
 	| bytes int |
 	anInteger isInteger ifFalse: [^anInteger].
+	anInteger isSmallInteger ifFalse: [^anInteger].
 	bytes := ByteArray new: CLongSize.
 	int := anInteger.
 	1 to: CLongSize
-- 
2.43.0


From 3e36782de56920ada9de1a161359bd7f7543622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 33/84] fix: even LargeIntegers raised to a negative power

---
 kernel/LargeInt.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index 43b06d4..2c2ec41 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -626,6 +626,7 @@ to speed them up a bit.'>
 	<category: 'accessing'>
 	| nbit |
 	n = 0 ifTrue: [^1].
+	n < 0 ifTrue: [^super raisedToInteger: n].
 	nbit := 1.
 	[(self bitAt: nbit) = 0] whileTrue: [nbit := nbit + 1].
 	nbit = 1 ifTrue: [^super raisedToInteger: n].
-- 
2.43.0


From 619984df374b2ceaab25138de4d66ac2b3a75180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 34/84] fix: comparing infinities of different Float classes

---
 kernel/Number.st | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/kernel/Number.st b/kernel/Number.st
index 552b435..cc56d5b 100644
--- a/kernel/Number.st
+++ b/kernel/Number.st
@@ -291,15 +291,27 @@ implicit type coercing code for binary operations.'>
 	 aNumber which has the lowest, and retry calling aSymbol (<, <=, >, >=)."
 
 	<category: 'retrying'>
-	| delta |
-	delta := self retryDifferenceCoercing: aNumber.
+	| selfGen aNumGen a b |
+	selfGen := self generality.
+	aNumGen := aNumber generality.
+	selfGen == aNumGen ifTrue: [^self retryError].
+
+	"Do not use the sign of the difference, because subtracting two equal
+	 infinities gives a NaN."
+	selfGen > aNumGen 
+	    ifTrue: 
+		[a := self.
+		b := self coerce: aNumber]
+	    ifFalse: 
+		[a := aNumber coerce: self.
+		b := aNumber].
 
 	"Avoids a #perform: which is usually more expensive -- all the comparisons
 	 below are inlined by both the compiler and the interpreter"
-	aSymbol == #< ifTrue: [^delta < delta zero].
-	aSymbol == #<= ifTrue: [^delta <= delta zero].
-	aSymbol == #>= ifTrue: [^delta >= delta zero].
-	aSymbol == #> ifTrue: [^delta > delta zero].
+	aSymbol == #< ifTrue: [^a < b].
+	aSymbol == #<= ifTrue: [^a <= b].
+	aSymbol == #>= ifTrue: [^a >= b].
+	aSymbol == #> ifTrue: [^a > b].
 	self error: 'bad relational operator'
     ]
 
-- 
2.43.0


From 83b741adf879d4cfb32db25541fa3bf6b7c7a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 35/84] fix: FloatQ floor and ceiling lost precision

---
 libgst/prims.def | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 043eec2..c1beb0f 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -4615,16 +4615,16 @@ primitive VMpr_Float_ceil_floor :
      prim_id VMpr_Float_floor [succeed,fail]
 {
   OOP oop1;
-  double farg1;
+  long double farg1;
   _gst_primitives_executed++;
 
   oop1 = STACKTOP ();
   if (IS_CLASS (oop1, _gst_floatd_class))
     farg1 = FLOATD_OOP_VALUE (oop1);
   else if (IS_CLASS (oop1, _gst_floate_class))
-    farg1 = (double) FLOATE_OOP_VALUE (oop1);
+    farg1 = (long double) FLOATE_OOP_VALUE (oop1);
   else if (IS_CLASS (oop1, _gst_floatq_class))
-    farg1 = (double) FLOATQ_OOP_VALUE (oop1);
+    farg1 = FLOATQ_OOP_VALUE (oop1);
   else
     PRIM_FAILED;
 
@@ -4633,10 +4633,10 @@ primitive VMpr_Float_ceil_floor :
       switch (id)
         {
         case prim_id (VMpr_Float_ceil):
-          SET_STACKTOP_INT ((intptr_t) ceil (farg1));
+          SET_STACKTOP_INT ((intptr_t) ceill (farg1));
           PRIM_SUCCEEDED;
         case prim_id (VMpr_Float_floor):
-          SET_STACKTOP_INT ((intptr_t) floor (farg1));
+          SET_STACKTOP_INT ((intptr_t) floorl (farg1));
           PRIM_SUCCEEDED;
         }
     }
-- 
2.43.0


From eec2ec0ae87a2cac143166b5e4c9e681a23c6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 36/84] fix: truncating 2^62 overflowed

---
 libgst/prims.def | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index c1beb0f..221ea91 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1542,7 +1542,7 @@ primitive VMpr_FloatD_truncated [succeed,fail]
   if COMMON (RECEIVER_IS_CLASS (oop1, _gst_floatd_class))
     {
       double oopValue = FLOATD_OOP_VALUE (oop1);
-      if COMMON (oopValue >= MIN_ST_INT && oopValue <= MAX_ST_INT)
+      if COMMON (oopValue >= MIN_ST_INT && oopValue < MAX_ST_INT)
 	{
 	  PUSH_INT (lrint (trunc (oopValue)));
 	  PRIM_SUCCEEDED;
@@ -1738,7 +1738,7 @@ primitive VMpr_FloatE_truncated [succeed,fail]
   if COMMON (RECEIVER_IS_CLASS (oop1, _gst_floate_class))
     {
       double oopValue = FLOATE_OOP_VALUE (oop1);
-      if COMMON (oopValue >= MIN_ST_INT && oopValue <= MAX_ST_INT)
+      if COMMON (oopValue >= MIN_ST_INT && oopValue < MAX_ST_INT)
 	{
 	  PUSH_INT (lrintf (truncf (oopValue)));
 	  PRIM_SUCCEEDED;
-- 
2.43.0


From 56934a49e3e3dd4984f63cc7c48f151048c866f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 37/84] fix: gradual underflow in Fraction>>asFloat:

---
 kernel/Fraction.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Fraction.st b/kernel/Fraction.st
index 7c97bbd..4e42d5a 100644
--- a/kernel/Fraction.st
+++ b/kernel/Fraction.st
@@ -434,8 +434,8 @@ fraction.'>
 
 	"check for gradual underflow, in which case we should use less bits"
 	floatExponent := exponent + hq.
-	floatExponent >= (characterization emin - 1) 
-	    ifFalse: [nBits := nBits + floatExponent - characterization emin + 1].
+	floatExponent >= characterization emin 
+	    ifFalse: [nBits := nBits + floatExponent - characterization emin].
 
 	"Use exactly nBits"
 	hq > nBits 
-- 
2.43.0


From d11ddad3a03066ceda1338f414ea432e2ba82afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 38/84] fix: LargeInteger arithmetic with a zero of another
 class

---
 kernel/LargeInt.st | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kernel/LargeInt.st b/kernel/LargeInt.st
index 2c2ec41..86863e1 100644
--- a/kernel/LargeInt.st
+++ b/kernel/LargeInt.st
@@ -378,9 +378,9 @@ to speed them up a bit.'>
 	<category: 'arithmetic'>
 	| result |
 	<primitive: VMpr_LargeInteger_times>
-	aNumber sign = 0 ifTrue: [^0].
 	aNumber generality = self generality 
 	    ifFalse: [^self retryMultiplicationCoercing: aNumber].
+	aNumber sign = 0 ifTrue: [^0].
 	result := self abs multiply: aNumber abs.
 	^self sign = aNumber sign ifTrue: [result] ifFalse: [result negated]
     ]
@@ -786,9 +786,9 @@ LargePositiveInteger'>
 
 	<category: 'reverting to LargePositiveInteger'>
 	<primitive: VMpr_LargeInteger_plus>
-	aNumber sign = 0 ifTrue: [^self].
 	aNumber generality = self generality 
 	    ifFalse: [^self retrySumCoercing: aNumber].
+	aNumber sign = 0 ifTrue: [^self].
 	^aNumber sign = -1 
 	    ifTrue: [(self largeNegated + aNumber largeNegated) negated]
 	    ifFalse: [(self largeNegated - aNumber) negated]
@@ -803,9 +803,9 @@ LargePositiveInteger'>
 
 	<category: 'reverting to LargePositiveInteger'>
 	<primitive: VMpr_LargeInteger_minus>
-	aNumber sign = 0 ifTrue: [^self].
 	aNumber generality = self generality 
 	    ifFalse: [^self retryDifferenceCoercing: aNumber].
+	aNumber sign = 0 ifTrue: [^self].
 	^aNumber sign = -1 
 	    ifTrue: [(self largeNegated - aNumber largeNegated) negated]
 	    ifFalse: [(self largeNegated + aNumber) negated]
@@ -915,10 +915,10 @@ precision arithmetic.'>
 	<category: 'arithmetic'>
 	| newBytes carry a b result |
 	<primitive: VMpr_LargeInteger_plus>
-	aNumber sign = 0 ifTrue: [^self].
-	aNumber sign = -1 ifTrue: [^self - aNumber negated].
 	aNumber generality = self generality 
 	    ifFalse: [^self retrySumCoercing: aNumber].
+	aNumber sign = 0 ifTrue: [^self].
+	aNumber sign = -1 ifTrue: [^self - aNumber negated].
 	newBytes := ByteArray new: (self size max: aNumber size) + 1.
 	carry := 0.
 	1 to: newBytes size - 1
@@ -941,10 +941,10 @@ precision arithmetic.'>
 	<category: 'arithmetic'>
 	| newBytes carry a b result |
 	<primitive: VMpr_LargeInteger_minus>
-	aNumber sign = 0 ifTrue: [^self].
-	aNumber sign = -1 ifTrue: [^self + aNumber negated].
 	aNumber generality = self generality 
 	    ifFalse: [^self retryDifferenceCoercing: aNumber].
+	aNumber sign = 0 ifTrue: [^self].
+	aNumber sign = -1 ifTrue: [^self + aNumber negated].
 	newBytes := ByteArray new: (self size max: aNumber size) + 1.
 	carry := 0.
 	1 to: newBytes size - 1
-- 
2.43.0


From eafc1237dff7c26c750d8a0c72ca10d6f5b35bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 39/84] fix: shortest printing of Floats did not always read
 back

---
 kernel/Float.st | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/kernel/Float.st b/kernel/Float.st
index 47ef414..e8c79de 100644
--- a/kernel/Float.st
+++ b/kernel/Float.st
@@ -499,7 +499,7 @@ if the hardware supports it.'>
 	"First, take care of the easy cases."
 
 	| me exponential small num sameUp sameDown weight prevWeight digit
-          eps precision digits digitStream exponent dotPrinted allNines adjust |
+          eps precision digits digitStream exponent dotPrinted adjust |
 	self isNaN 
 	    ifTrue: [^aStream nextPutAll: (whatToPrintArray at: 3) % {self class}].
 	self = self class infinity 
@@ -525,44 +525,41 @@ if the hardware supports it.'>
 	digits := 0.
 	weight := 10 raisedToInteger: exponent - 1.
 
-	"Smallest number such that me + eps ~= eps"
-	eps := 2 raisedToInteger: me exponent - me class precision + 1.
+	"Half the distance to the closest Float of the same class: anything
+	 that is closer than this to the receiver reads back as the receiver.
+	 The Floats below a power of two are twice as dense."
+	eps := 2 raisedToInteger: me exponent - me class precision.
+	num = (2 raisedToInteger: me exponent) ifTrue: [eps := eps / 2].
 
-	allNines := true.
         sameDown := true.
         sameUp := true.
 
         [digit := num // weight.
         num := num \\ weight.
-	allNines := allNines and: [digit = 9].
         sameDown := sameDown and: [num >= eps].
-        sameUp := sameUp and: [num < (weight - eps)].
+        sameUp := sameUp and: [num <= (weight - eps)].
 	digits := digits * 10 + digit.
 	prevWeight := weight.
 	weight := weight / 10.
 	sameDown or: [sameUp]] whileTrue.
 
-        "For large numbers, don't let round-to-even bite us."
-        eps isInteger ifTrue: [eps := eps / 2].
-
 	adjust := 0.
 
         "Round the last digit if it allows to save trailing digits while
          not changing the meaning."
-	(digit <= 5 and: [num + (digit * prevWeight) < (eps / 2)])
+	(digit <= 5 and: [num + (digit * prevWeight) < eps])
             ifTrue: [adjust := digit negated].
-	(digit > 5 and: [num + ((digit - 10) * prevWeight) > (eps / -2)])
+	(digit > 5 and: [num + ((digit - 10) * prevWeight) > eps negated])
             ifTrue: [adjust := 10 - digit].
 
          "... otherwise, try rounding it up if it is a better approximation."
 	(adjust = 0 and: [digit > 0]) ifTrue: [
             (num - prevWeight) abs < num ifTrue: [adjust := 1]].
 
-	digits := digits + adjust.
-	(adjust > 0 and: [allNines])
-            ifTrue: [allNines := false. exponent := exponent + 1].
-
-	digits := digits printString.
+	"Check if rounding up produced one more digit."
+	precision := digits printString size.
+	digits := (digits + adjust) printString.
+	digits size > precision ifTrue: [exponent := exponent + 1].
 
 	"Print the non-significant zeros."
 	dotPrinted := false.
-- 
2.43.0


From f4266394870148386fbd0708fc52921e745a5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 40/84] fix: an exception that was passed returned from the
 wrong #on:do:

---
 kernel/ExcHandling.st | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kernel/ExcHandling.st b/kernel/ExcHandling.st
index 5cc65dc..2d86d0c 100644
--- a/kernel/ExcHandling.st
+++ b/kernel/ExcHandling.st
@@ -368,7 +368,7 @@ handler with a lower priority.'>
 	signal := self copy.
 	signal isNested: true.
         signal instantiateNextHandlerFrom: self context.
-        ^signal activateHandler: true
+        ^signal activateHandler: signal context isNil
     ]
 
     pass [
@@ -378,11 +378,16 @@ handler with a lower priority.'>
 
 	<category: 'exception handling'>
 	<exceptionHandlingInternal: false>
-	| signal |
+	| signal result |
 	signal := self copy.
 	signal isNested: true.
         signal instantiateNextHandlerFrom: self context.
-        ^self return: (signal activateHandler: true)
+        result := signal activateHandler: signal context isNil.
+
+	"We get here if the enclosing action, or the default one, resumed."
+	self isResumable ifFalse: [^self return: result].
+	self resetHandler.
+	resumeBlock value: result
     ]
 
     resignalAsUnhandled: message [
-- 
2.43.0


From 45c1997cfbd19d0b1be85101cbc787c36b2e11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 41/84] fix: returning from a handler enabled again the
 handlers around it

---
 kernel/ExcHandling.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/ExcHandling.st b/kernel/ExcHandling.st
index 2d86d0c..3627bef 100644
--- a/kernel/ExcHandling.st
+++ b/kernel/ExcHandling.st
@@ -491,7 +491,7 @@ handler with a lower priority.'>
 	<category: 'exception handling'>
 	context isNil 
 	    ifTrue: [self resignalAsUnhandled: 'No exception handler effective - #return failed'].
-	self class resetAllHandlers.
+	self resetHandler.
 	context parentContext continue: nil
     ]
 
@@ -501,7 +501,7 @@ handler with a lower priority.'>
 	<category: 'exception handling'>
 	context isNil 
 	    ifTrue: [self resignalAsUnhandled: 'No exception handler effective - #return: failed'].
-	self class resetAllHandlers.
+	self resetHandler.
 	context parentContext continue: anObject
     ]
 
-- 
2.43.0


From 61beee92b4f7940b339d60e1db2ca2498570b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 42/84] fix: #retry and #retryUsing: unwind before executing
 the block again

The receiver of #on:do: was executed on top of the handler, so that the
unwind blocks of the first execution ran after the second one, and every
retry made the stack deeper.
---
 kernel/ExcHandling.st | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/kernel/ExcHandling.st b/kernel/ExcHandling.st
index 3627bef..8e95151 100644
--- a/kernel/ExcHandling.st
+++ b/kernel/ExcHandling.st
@@ -454,17 +454,17 @@ handler with a lower priority.'>
 	<category: 'exception handling'>
 	onDoBlock isNil 
 	    ifTrue: [self resignalAsUnhandled: 'No exception handler effective - #retry failed'].
-	self class resetAllHandlers.
-	self return: onDoBlock value
+	self restart: onDoBlock
     ]
 
     retryUsing: aBlock [
 	"Execute aBlock reinstating all handlers, and return its result from
-	 the #signal method."
+	 the #on:do: method."
 
 	<category: 'exception handling'>
-	self class resetAllHandlers.
-	self return: aBlock value
+	context isNil 
+	    ifTrue: [self resignalAsUnhandled: 'No exception handler effective - #retryUsing: failed'].
+	self restart: aBlock
     ]
 
     signalingContext [
@@ -525,6 +525,23 @@ handler with a lower priority.'>
 	context parentContext continue: result
     ]
 
+    restart: aBlock [
+	"Private - Unwind the stack down to the #on:do: context, and execute
+	 it again from the start with aBlock as the receiver.  Continuing
+	 the context stores into the top of the stack, which becomes a
+	 temporary that the method initializes."
+
+	<category: 'private'>
+	| onDoContext |
+	self class resetAllHandlers.
+	onDoContext := context.
+	onDoContext
+	    instVarNamed: #receiver put: aBlock;
+	    ip: 0;
+	    sp: onDoContext numArgs + onDoContext numTemps - 1.
+	onDoContext continue: nil
+    ]
+
     isNested: aBoolean [
 	"Set the receiver's isNested instance variable."
 
-- 
2.43.0


From 683ce828e06d661ebd46d5a0295af52965b862c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 43/84] fix: do not drop objects to be finalized when
 collections come in quick succession

mourn_objects reported an error and forgot the dead objects if the
finalization process had not yet taken those of the previous collection.
---
 libgst/oop.c | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index c8b1256..f52cbd7 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -1487,36 +1487,43 @@ void
 mourn_objects (void)
 {
   gst_object array;
-  long size;
+  OOP arrayOOP, pendingOOP;
+  long size, pending;
   gst_processor_scheduler processor;
 
   size = _gst_buffer_size () / sizeof (OOP);
   if (!size)
     return;
 
+  /* If the finalization process has not picked up the objects left by
+     an earlier collection yet, hand it both lots together.  */
   processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
-  if (!IS_NIL (processor->gcArray))
+  pendingOOP = processor->gcArray;
+  pending = IS_NIL (pendingOOP) ? 0 : NUM_WORDS (OOP_TO_OBJ (pendingOOP));
+
+  /* Copy the buffer into an Array */
+  array = new_instance_with (_gst_array_class, pending + size, &arrayOOP);
+  if (pending)
+    memcpy (array->data, OOP_TO_OBJ (pendingOOP)->data,
+	    pending * sizeof (OOP));
+  _gst_copy_buffer (array->data + pending);
+
+  processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
+  processor->gcArray = arrayOOP;
+  if (pending)
+    return;
+
+  if (!IS_NIL (processor->gcSemaphore))
     {
-      _gst_errorf ("Too many garbage collections, finalizers missed!");
-      _gst_errorf ("This is a bug, please report.");
+      static async_queue_entry e;
+      e.func = _gst_do_async_signal;
+      e.data = processor->gcSemaphore;
+      _gst_async_call_internal (&e);
     }
   else
     {
-      /* Copy the buffer into an Array */
-      array = new_instance_with (_gst_array_class, size, &processor->gcArray);
-      _gst_copy_buffer (array->data);
-      if (!IS_NIL (processor->gcSemaphore))
-        {
-          static async_queue_entry e;
-          e.func = _gst_do_async_signal;
-          e.data = processor->gcSemaphore;
-          _gst_async_call_internal (&e);
-        }
-      else
-	{
-	  _gst_errorf ("Running finalizers before initialization.");
-	  abort ();
-	}
+      _gst_errorf ("Running finalizers before initialization.");
+      abort ();
     }
 }
 
-- 
2.43.0


From 1eb9affd8a4b37930cf239ec4a1841afa7c69e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 44/84] fix: do not use stale object pointers in the compiler

Interning symbols and creating block closures can cause a collection that
moves the arrays of variable names and the CompiledBlock being read.
---
 libgst/comp.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index 8f94ce4..3a95f1c 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -697,8 +697,7 @@ _gst_compile_method (tree_node method,
   bc_vector bytecodes;
   int stack_depth;
   int i, argCount, tempCount;
-  OOP variablesOOP, debugInfo;
-  gst_object object;
+  OOP variablesOOP, symbolOOP, debugInfo;
   tree_node args;
   inc_ptr incPtr;
   gst_compiled_method compiledMethod;
@@ -839,7 +838,7 @@ _gst_compile_method (tree_node method,
       if (methodOOP != _gst_nil_oop) {
         INC_ADD_OOP (methodOOP);
 
-        object = new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
+        new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
         INC_ADD_OOP (variablesOOP);
 
         args = method->v_method.selectorExpr;
@@ -847,21 +846,24 @@ _gst_compile_method (tree_node method,
 
         if (args->nodeType == TREE_BINARY_EXPR)
           {
-            object->data[i] = _gst_intern_string (args->v_expr.expression->v_list.name);
+            symbolOOP = _gst_intern_string (args->v_expr.expression->v_list.name);
+            OOP_TO_OBJ (variablesOOP)->data[i] = symbolOOP;
             i += 1;
           }
         else
           {
             for (args = args->v_expr.expression; args != NULL; args = args->v_list.next)
               {
-                object->data[i] = _gst_intern_string (args->v_list.value->v_list.name);
+                symbolOOP = _gst_intern_string (args->v_list.value->v_list.name);
+                OOP_TO_OBJ (variablesOOP)->data[i] = symbolOOP;
                 i += 1;
               }
           }
 
         for (args = method->v_method.temporaries; args != NULL; args = args->v_list.next)
           {
-            object->data[i] = _gst_intern_string (args->v_list.name);
+            symbolOOP = _gst_intern_string (args->v_list.name);
+            OOP_TO_OBJ (variablesOOP)->data[i] = symbolOOP;
             i += 1;
           }
 
@@ -1111,11 +1113,11 @@ compile_block (tree_node blockExpr)
   int argCount, tempCount;
   int stack_depth;
   int i;
-  OOP variablesOOP;
+  mst_Boolean isClean;
+  OOP variablesOOP, symbolOOP;
   OOP debugInfo;
   OOP litOOP, blockOOP;
   gst_compiled_block block;
-  gst_object object;
   inc_ptr incPtr;
   tree_node args;
 
@@ -1154,16 +1156,18 @@ compile_block (tree_node blockExpr)
 			 blockByteCodes, stack_depth);
   INC_ADD_OOP (blockOOP);
 
-  object = new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
+  new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
   INC_ADD_OOP (variablesOOP);
 
   for (i = 0, args = blockExpr->v_block.arguments; args != NULL; args = args->v_list.next) {
-    object->data[i] = _gst_intern_string (args->v_list.name);
+    symbolOOP = _gst_intern_string (args->v_list.name);
+    OOP_TO_OBJ (variablesOOP)->data[i] = symbolOOP;
     i += 1;
   }
 
   for (args = blockExpr->v_block.temporaries; args != NULL; args = args->v_list.next) {
-    object->data[i] = _gst_intern_string (args->v_list.name);
+    symbolOOP = _gst_intern_string (args->v_list.name);
+    OOP_TO_OBJ (variablesOOP)->data[i] = symbolOOP;
     i += 1;
   }
 
@@ -1185,7 +1189,8 @@ compile_block (tree_node blockExpr)
 
   INCR_STACK_DEPTH ();
   block = (gst_compiled_block) OOP_TO_OBJ (blockOOP);
-  if (block->header.clean == 0)
+  isClean = block->header.clean == 0;
+  if (isClean)
     litOOP = make_clean_block_closure (blockOOP);
   else
     litOOP = blockOOP;
@@ -1193,7 +1198,7 @@ compile_block (tree_node blockExpr)
   INC_RESTORE_POINTER (incPtr);
 
   _gst_compile_byte (PUSH_LIT_CONSTANT, add_literal (litOOP));
-  if (block->header.clean != 0)
+  if (!isClean)
     _gst_compile_byte (MAKE_DIRTY_BLOCK, 0);
 }
 
-- 
2.43.0


From 5386207df6f43cedcfaf9eed6d26edacd114eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:41 +0000
Subject: [PATCH 45/84] fix: incremental sweep left unfinished when its last
 step ended exactly at the last object

_gst_incremental_gc_step did not call _gst_finished_incremental_gc if the
100th object freed by a step was the last one to be swept; from then on
live old objects were taken for free ones and overwritten.
---
 libgst/oop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index f52cbd7..deaf185 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -1369,7 +1369,9 @@ _gst_incremental_gc_step ()
   	  _gst_mem.num_free_oops++;
           if (oop == _gst_mem.last_allocated_oop)
             _gst_mem.last_allocated_oop--;
-	  if (++i == INCREMENTAL_SWEEP_STEP)
+
+	  /* If this was the last OOP, go and finish the sweep.  */
+	  if (++i == INCREMENTAL_SWEEP_STEP && oop - 1 > firstOOP)
 	    {
 	      _gst_mem.next_oop_to_sweep = oop - 1;
 	      return false;
-- 
2.43.0


From f7c408b00824671a7d7e16edc09f655d03b83f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 46/84] fix: MatchingRegexResults>>#toAt: 0 is the end of the
 match, not its start

---
 kernel/Regex.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Regex.st b/kernel/Regex.st
index 5bc1046..2338b48 100644
--- a/kernel/Regex.st
+++ b/kernel/Regex.st
@@ -353,7 +353,7 @@ RegexResults subclass: MatchingRegexResults [
     toAt: anIndex [
 	<category: 'accessing'>
 	| reg |
-	anIndex = 0 ifTrue: [^from].
+	anIndex = 0 ifTrue: [^to].
 	reg := registers at: anIndex.
 	^reg isNil ifTrue: [nil] ifFalse: [reg last]
     ]
-- 
2.43.0


From 46d96499a67f7b2ee5b66ab07771ba4dc65151a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 47/84] fix: String>>#copyFrom:to:replacingRegex:with: must
 copy what follows the match

---
 kernel/Regex.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Regex.st b/kernel/Regex.st
index 2338b48..85e1065 100644
--- a/kernel/Regex.st
+++ b/kernel/Regex.st
@@ -918,7 +918,7 @@ String extend [
 		    replaceFrom: beg - from + repl size + 1
 		    to: res size
 		    with: self
-		    startingAt: end - from + 2]
+		    startingAt: end + 1]
 	    ifTrue: [res := self copyFrom: from to: to].
 	^res
     ]
-- 
2.43.0


From 7fca46ab213eec009139f954fa3a2a69fe47a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 48/84] fix: String>>#occurrencesOfRegex: counted overlapping
 matches

---
 kernel/Regex.st | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/kernel/Regex.st b/kernel/Regex.st
index 85e1065..4d71fa5 100644
--- a/kernel/Regex.st
+++ b/kernel/Regex.st
@@ -697,19 +697,13 @@ String extend [
 	 the given range of index."
 
 	<category: 'regex'>
-	| res idx regex regs |
-	regex := pattern asRegex.
+	| res |
 	res := 0.
-	idx := from.
-	
-	[regs := self 
-		    searchRegexInternal: regex
-		    from: idx
-		    to: to.
-	regs notNil] 
-		whileTrue: 
-		    [idx := regs to max: regs from + 1.
-		    res := res + 1].
+	self 
+	    allOccurrencesOfRegex: pattern
+	    from: from
+	    to: to
+	    do: [:each | res := res + 1].
 	^res
     ]
 
-- 
2.43.0


From b8c2349564aa365ac5d0b491560b1d38daf6892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 49/84] fix: String>>#replacingAllRegex:with: failed for an
 empty match at the end

---
 kernel/Regex.st | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/kernel/Regex.st b/kernel/Regex.st
index 4d71fa5..148ee0f 100644
--- a/kernel/Regex.st
+++ b/kernel/Regex.st
@@ -838,43 +838,13 @@ String extend [
 	 in #%)."
 
 	<category: 'regex'>
-	| res idx regex beg end regs repl |
+	| regex |
 	regex := pattern asRegex.
-	regs := self 
-		    searchRegexInternal: regex
-		    from: 1
-		    to: self size.
-	regs isNil ifTrue: [^self].
-	res := WriteStream on: (String new: self size).
-	idx := 1.
-	repl := aStringOrBlock isString
-	    ifTrue: [ [ :regs | aStringOrBlock % regs ] ]
-	    ifFalse: [ aStringOrBlock ].
-	
-	[beg := regs from.
-	end := regs to.
-	res 
-	    next: beg - idx
-	    putAll: self
-	    startingAt: idx.
-	res nextPutAll: (repl value: regs).
-	idx := end + 1.
-	beg > end 
-	    ifTrue: 
-		[res nextPut: (self at: idx).
-		idx := idx + 1].
-	idx > self size ifTrue: [^res contents].
-	regs := self 
-		    searchRegexInternal: regex
-		    from: idx
-		    to: self size.
-	regs isNil] 
-		whileFalse.
-	res 
-	    next: self size - idx + 1
-	    putAll: self
-	    startingAt: idx.
-	^res contents
+	(self 
+	    searchRegexInternal: regex
+	    from: 1
+	    to: self size) isNil ifTrue: [^self].
+	^self copyReplacingAllRegex: regex with: aStringOrBlock
     ]
 
     copyFrom: from to: to replacingRegex: pattern with: aStringOrBlock [
-- 
2.43.0


From acdb9f5ae0c11e9995b93a335dd8edbc821f446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 50/84] fix: a regex that can match the empty string was not
 tried everywhere if it started with $

---
 lib-src/regex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib-src/regex.c b/lib-src/regex.c
index 05316ad..5086380 100644
--- a/lib-src/regex.c
+++ b/lib-src/regex.c
@@ -2662,7 +2662,8 @@ pre_compile_fastmap (bufp)
 	    fastmap[translate['\n']] = 1;
 	  else
 	    fastmap['\n'] = 1;
-	  bufp->can_be_null = 2;
+	  if (bufp->can_be_null == 0)
+	    bufp->can_be_null = 2;
 	  break;
 
 	case jump_n:
-- 
2.43.0


From f4a183d7d65bd5f702fe4094d868b5f21b643f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 51/84] fix: SortedCollection>>#occurrencesOf: missed the
 occurrences at the ends

---
 kernel/SortCollect.st | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/kernel/SortCollect.st b/kernel/SortCollect.st
index ef8a8bc..bbd9de3 100644
--- a/kernel/SortCollect.st
+++ b/kernel/SortCollect.st
@@ -293,20 +293,28 @@ above criteria -- actually any object which responds to #value:value:.'>
 	 count repetitions of 'anObject', if there are."
 
 	<category: 'searching'>
-	| upper lower max count |
+	| upper lower count element |
 	self beConsistent.
 	upper := self 
 		    binarySearch: anObject
 		    low: firstIndex
 		    high: lastIndex.
 	upper isNil ifTrue: [^0].
-	lower := upper - 1.
-	max := self size.
-	[lower > 1 and: [(self at: lower) = anObject]] 
-	    whileTrue: [lower := lower - 1].
-	[upper < max and: [(self at: upper) = anObject]] 
-	    whileTrue: [upper := upper + 1].
-	^upper - lower - 1
+	lower := upper.
+	count := 1.
+	
+	[lower > firstIndex and: 
+		[lower := lower - 1.
+		element := self basicAt: lower.
+		(self compare: anObject with: element) = 0]] 
+	    whileTrue: [anObject = element ifTrue: [count := count + 1]].
+	
+	[upper < lastIndex and: 
+		[upper := upper + 1.
+		element := self basicAt: upper.
+		(self compare: anObject with: element) = 0]] 
+	    whileTrue: [anObject = element ifTrue: [count := count + 1]].
+	^count
     ]
 
     copyEmpty: newSize [
-- 
2.43.0


From b39116e229aa8b31548bf2cf5369f78fa81a0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 52/84] fix: SortedCollection>>#last answered a stale object if
 the collection is empty

---
 kernel/SortCollect.st | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernel/SortCollect.st b/kernel/SortCollect.st
index bbd9de3..9dd9c9b 100644
--- a/kernel/SortCollect.st
+++ b/kernel/SortCollect.st
@@ -133,6 +133,8 @@ above criteria -- actually any object which responds to #value:value:.'>
 	"Answer the last item of the receiver"
 
 	<category: 'basic'>
+	lastIndex >= firstIndex 
+	    ifFalse: [^SystemExceptions.IndexOutOfRange signalOn: self withIndex: 0].
 	lastOrdered = lastIndex 
 	    ifFalse: [sorted ifTrue: [self merge] ifFalse: [self makeHeap]].
 	^sorted 
-- 
2.43.0


From 3e1b71a6031b724419d22957466543e9fcb2d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 53/84] fix: SortedCollection>>#removeLast followed by #add:
 left the collection unsorted

---
 kernel/SortCollect.st | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kernel/SortCollect.st b/kernel/SortCollect.st
index 9dd9c9b..8a4e75d 100644
--- a/kernel/SortCollect.st
+++ b/kernel/SortCollect.st
@@ -172,10 +172,17 @@ above criteria -- actually any object which responds to #value:value:.'>
 	 is empty"
 
 	<category: 'basic'>
+	| answer |
+	lastIndex >= firstIndex ifFalse: [^super removeLast].
 	lastOrdered = lastIndex 
 	    ifFalse: [sorted ifTrue: [self merge] ifFalse: [self makeHeap]].
 	sorted ifFalse: [self percolateDown].
-	^self basicRemoveLast
+	answer := self basicRemoveLast.
+	"Ensure the invariant that lastOrdered <= lastIndex; see
+	 #basicRemoveAtIndex:.  If the receiver was shrunk, lastOrdered
+	 says that its order is not known, and must be left alone."
+	lastOrdered > lastIndex ifTrue: [lastOrdered := lastIndex].
+	^answer
     ]
 
     sort [
-- 
2.43.0


From c9ae3746cc1c504a222f905176821371af31a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 54/84] fix: a push with extension bytes that is popped at once
 was only half removed

The peephole optimizer deleted the push and the pop but left the EXT_BYTE
that belongs to the push, so that it extended the next bytecode instead:
  [[n := n + 1. n < 3] whileTrue: [n]. t] value
with n a temporary of the outer context jumped into the void.
---
 libgst/opt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libgst/opt.c b/libgst/opt.c
index 32f01f6..cbc2bc1 100644
--- a/libgst/opt.c
+++ b/libgst/opt.c
@@ -812,6 +812,11 @@ optimize_basic_block (gst_uchar *from,
           if (bp < to - 2
 	      && bp[2] == POP_STACK_TOP)
 	    {
+	      /* The extension bytes that were already copied belong to the
+		 push, remove them too.  */
+	      while (opt > from && opt[-2] == EXT_BYTE)
+		opt -= 2;
+
 	      bp += 4;
 	      continue;
 	    }
-- 
2.43.0


From 48713d57f87f37da8fcc9e112a01ab3757b94c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 55/84] fix: loops whose jump is exactly 256 (or 65536) bytes
 long

#to:do: and #timesRepeat: used a two-byte jump for an offset of 256, that
needs an extension byte; the jump landed in the middle of the loop.
---
 libgst/comp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index 3a95f1c..42a5e0c 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -1596,12 +1596,12 @@ compile_times_repeat (tree_node expr)
   for (oldJumpAroundLen = finalJumpLen = 0; ; oldJumpAroundLen = jumpAroundLen)
     {
       finalJumpOfs = 6 + oldJumpAroundLen + jumpAroundOfs;
-      finalJumpLen = (finalJumpOfs + finalJumpLen > 65536 ? 6 :
-		      finalJumpOfs + finalJumpLen > 256 ? 4 : 2);
-      finalJumpLen = (finalJumpOfs + finalJumpLen > 65536 ? 6 :
-		      finalJumpOfs + finalJumpLen > 256 ? 4 : 2);
-      jumpAroundLen = (jumpAroundOfs + finalJumpLen > 65536 ? 6 :
-		       jumpAroundOfs + finalJumpLen > 256 ? 4 : 2);
+      finalJumpLen = (finalJumpOfs + finalJumpLen >= 65536 ? 6 :
+		      finalJumpOfs + finalJumpLen >= 256 ? 4 : 2);
+      finalJumpLen = (finalJumpOfs + finalJumpLen >= 65536 ? 6 :
+		      finalJumpOfs + finalJumpLen >= 256 ? 4 : 2);
+      jumpAroundLen = (jumpAroundOfs + finalJumpLen >= 65536 ? 6 :
+		       jumpAroundOfs + finalJumpLen >= 256 ? 4 : 2);
       if (jumpAroundLen == oldJumpAroundLen)
         break;
     }
@@ -1676,12 +1676,12 @@ compile_to_by_do (tree_node to,
   for (oldJumpAroundLen = jumpAroundLen = finalJumpLen = 0; ; oldJumpAroundLen = jumpAroundLen)
     {
       finalJumpOfs = jumpAroundOfs + jumpAroundLen + 2;
-      finalJumpLen = (finalJumpOfs + finalJumpLen > 65536 ? 6 :
-		      finalJumpOfs + finalJumpLen > 256 ? 4 : 2);
-      finalJumpLen = (finalJumpOfs + finalJumpLen > 65536 ? 6 :
-		      finalJumpOfs + finalJumpLen > 256 ? 4 : 2);
-      jumpAroundLen = (jumpAroundOfs + finalJumpLen > 65536 ? 6 :
-		       jumpAroundOfs + finalJumpLen > 256 ? 4 : 2);
+      finalJumpLen = (finalJumpOfs + finalJumpLen >= 65536 ? 6 :
+		      finalJumpOfs + finalJumpLen >= 256 ? 4 : 2);
+      finalJumpLen = (finalJumpOfs + finalJumpLen >= 65536 ? 6 :
+		      finalJumpOfs + finalJumpLen >= 256 ? 4 : 2);
+      jumpAroundLen = (jumpAroundOfs + finalJumpLen >= 65536 ? 6 :
+		       jumpAroundOfs + finalJumpLen >= 256 ? 4 : 2);
       if (jumpAroundLen == oldJumpAroundLen)
         break;
     }
-- 
2.43.0


From 366663dbbac87d2133200daba715cfc352b0d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 56/84] fix: reject methods and blocks that do not fit their
 header

More than 31 arguments, 63 (31 in a block) temporaries or 63*4 stack slots
overflowed the fields of the header without notice, and the VM aborted
when running the method.
---
 libgst/comp.c | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/libgst/comp.c b/libgst/comp.c
index 42a5e0c..40293a3 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -223,6 +223,12 @@ static OOP method_info_new (OOP class,
 			    OOP sourceCode,
 			    OOP categoryOOP);
 
+/* Give an error if the number of arguments or temporaries, or the stack
+   depth, cannot be represented in the header of a method or block.  */
+static void check_header_limits (int args, int max_args,
+				 int temps, int max_temps,
+				 int depth, int max_depth);
+
 /* This creates a CompiledBlock for the given BYTECODES.  The bytecodes
    are passed through the peephole optimizer and stored, the header is
    filled according to the given number of arguments ARGS and
@@ -819,6 +825,9 @@ _gst_compile_method (tree_node method,
 	}
 
       stack_depth = GET_STACK_DEPTH ();
+      check_header_limits (_gst_get_arg_count (), MAX_NUM_ARGS,
+			   _gst_get_temp_count (), MAX_NUM_TEMPS,
+			   stack_depth, (1 << MTH_DEPTH_BITS) - 1);
       bytecodes = _gst_get_bytecodes ();
 
       literalsOOP = get_literals_array ();
@@ -2287,6 +2296,29 @@ _gst_make_constant_oop (tree_node constExpr)
   return (_gst_nil_oop);
 }
 
+/* The header of a method or block has a limited number of bits for each
+   of these values.  Report an error if they do not fit.  */
+static void
+check_header_limits (int args, int max_args,
+		     int temps, int max_temps,
+		     int depth, int max_depth)
+{
+  /* This must match the rounding in _gst_make_new_method and
+     _gst_block_new.  */
+  depth = ((depth + (1 << DEPTH_SCALE) - 1) >> DEPTH_SCALE) + 1;
+
+  if (args > max_args)
+    _gst_errorf ("too many arguments");
+  else if (temps > max_temps)
+    _gst_errorf ("too many temporaries");
+  else if (depth > max_depth)
+    _gst_errorf ("expression too complex");
+  else
+    return;
+
+  EXIT_COMPILATION ();
+}
+
 OOP
 make_block (int args,
 	    int temps,
@@ -2302,6 +2334,11 @@ make_block (int args,
       _gst_print_bytecodes (bytecodes, _gst_compiler_state->literal_vec);
 #endif
     }
+  check_header_limits (args, (1 << BLK_ARGS_BITS) - 1,
+		       temps, (1 << BLK_TEMPS_BITS) - 1,
+		       stack_depth + args + temps,
+		       (1 << BLK_DEPTH_BITS) - 1);
+
   bytecodes = _gst_optimize_bytecodes (bytecodes);
 
   if (_gst_declare_tracing)
-- 
2.43.0


From 49bb55fe2e4f675657b2b5ab938ced0efbd27777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 57/84] fix: the compiler miscounted the stack depth of some
 constructs

#to:do: counted one slot too few for each level (six nested loops made the
VM abort with a stack overflow in the verifier) and one too many after the
loop; #and: and #or: did not count the duplicated receiver; both branches
of #ifTrue:ifFalse: were left on the stack, and so was the class pushed by
a send to super, so that a long method could exceed the maximum depth.
---
 libgst/comp.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index 40293a3..dde9003 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -1447,7 +1447,8 @@ compile_send (tree_node expr,
   else
     _gst_compile_byte (SEND_IMMEDIATE | super, bs->bytecode);
 
-  SUB_STACK_DEPTH (numArgs);
+  /* sends to super also pop the class.  */
+  SUB_STACK_DEPTH (numArgs + super);
 }
 
 void
@@ -1666,6 +1667,7 @@ compile_to_by_do (tree_node to,
   _gst_compile_byte (DUP_STACK_TOP, index);
   INCR_STACK_DEPTH ();
   _gst_compile_byte (PUSH_TEMPORARY_VARIABLE, index);
+  INCR_STACK_DEPTH ();
 
   if (by)
     {
@@ -1724,6 +1726,10 @@ compile_to_by_do (tree_node to,
 
   _gst_compile_byte (JUMP_BACK, finalJumpOfs + finalJumpLen);
 
+  /* the two operands of the comparison are not there anymore when
+     the loop exits.  */
+  SUB_STACK_DEPTH (2);
+
   /* delete the end from the stack */
   _gst_compile_byte (POP_STACK_TOP, 0);
   SUB_STACK_DEPTH (1);
@@ -1767,6 +1773,9 @@ compile_if_true_false_statement (OOP selector,
 
   compile_jump (_gst_bytecode_length (trueByteCodes), false);
   _gst_compile_and_free_bytecodes (trueByteCodes);
+
+  /* only one of the two values is left on the stack */
+  SUB_STACK_DEPTH (1);
   _gst_compile_and_free_bytecodes (falseByteCodes);
   return (true);
 }
@@ -1820,8 +1829,10 @@ compile_and_or_statement (OOP selector,
   blockLen = _gst_bytecode_length (blockByteCodes);
 
   _gst_compile_byte (DUP_STACK_TOP, 0);
+  INCR_STACK_DEPTH ();
   compile_jump (blockLen + 2, selector == _gst_or_symbol);
   _gst_compile_byte (POP_STACK_TOP, 0);
+  SUB_STACK_DEPTH (1);
   _gst_compile_and_free_bytecodes (blockByteCodes);
   return (true);
 }
-- 
2.43.0


From c5b46dbb18c062d7015b1c50fd801f8b7560d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 58/84] fix: negative radix literals just below the smallest
 SmallInteger

(uintptr_t) MIN_ST_INT is not the same as -MIN_ST_INT; 16r-4000000000000001
was not recognized as a LargeNegativeInteger and lost its high bits.
---
 libgst/lex.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libgst/lex.c b/libgst/lex.c
index c16409b..71a7cf7 100644
--- a/libgst/lex.c
+++ b/libgst/lex.c
@@ -962,8 +962,7 @@ scan_digits (int c,
 	  obstack_1grow (_gst_compilation_obstack, digit_to_int (c, base));
 	  if (result >
 	      (negative
-	       /* We want (uintptr_t) -MIN_ST_INT, but it's the same.  */
-	       ? (uintptr_t) MIN_ST_INT - value
+	       ? -(uintptr_t) MIN_ST_INT - value
 	       : (uintptr_t) MAX_ST_INT - value) / base)
 	    *largeInteger = true;
 	}
@@ -1013,8 +1012,7 @@ scan_fraction (int c,
 	  obstack_1grow (_gst_compilation_obstack, digit_to_int (c, base));
 	  if (intNum >
 	      (negative
-	       /* We want (uintptr_t) -MIN_ST_INT, but it's the same.  */
-	       ? (uintptr_t) MIN_ST_INT - value
+	       ? -(uintptr_t) MIN_ST_INT - value
 	       : (uintptr_t) MAX_ST_INT - value) / base)
 	    *largeInteger = true;
 	}
-- 
2.43.0


From 668b076695831b11e4b176bb42231b1b1e173c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 59/84] fix: floating-point literals were rounded more than
 once

The 160-bit number was rounded to a long double at each 16-bit digit, and
then again to a double or float: 1d126 was not the nearest double.
---
 libgst/lex.c  | 12 +++++++++++
 libgst/real.c | 60 +++++++++++++++++++++++++++++++++++++++++++++++++++
 libgst/real.h |  5 +++++
 3 files changed, 77 insertions(+)

diff --git a/libgst/lex.c b/libgst/lex.c
index 71a7cf7..1a6f8b1 100644
--- a/libgst/lex.c
+++ b/libgst/lex.c
@@ -921,6 +921,18 @@ scan_number (int c,
 	  else
 	    _gst_real_mul (&num, &r);
 	}
+      /* Round once, straight to the precision of the result.  */
+      switch (float_type) {
+	case FLOATE_LITERAL:
+	  _gst_real_round (&num, FLT_MANT_DIG, FLT_MIN_EXP - 1);
+	  break;
+	case FLOATD_LITERAL:
+	  _gst_real_round (&num, DBL_MANT_DIG, DBL_MIN_EXP - 1);
+	  break;
+	case FLOATQ_LITERAL:
+	  _gst_real_round (&num, LDBL_MANT_DIG, LDBL_MIN_EXP - 1);
+	  break;
+      }
       lvalp->fval = _gst_real_get_ld (&num);
       if (isNegative)
 	lvalp->fval = -lvalp->fval;
diff --git a/libgst/real.c b/libgst/real.c
index 461c579..cd351ae 100644
--- a/libgst/real.c
+++ b/libgst/real.c
@@ -516,6 +516,66 @@ _gst_real_inv (struct real *out, struct real *s)
 }
 
 
+void
+_gst_real_round (struct real *r, int bits, int min_exp)
+{
+  int place, shift, i;
+  mst_Boolean half, sticky, odd;
+
+  if (!r->sign)
+    return;
+
+  /* Denormal numbers have less precision.  */
+  if (r->exp < min_exp)
+    bits -= min_exp - r->exp;
+  if (bits >= NUM_SIG_BITS)
+    return;
+  if (bits < 0)
+    {
+      memset (r, 0, sizeof (struct real));
+      return;
+    }
+
+  /* Look for the first bit that is discarded.  */
+  place = (NUM_SIG_BITS - bits - 1) / SIG_ELEM_BITS;
+  shift = (NUM_SIG_BITS - bits - 1) % SIG_ELEM_BITS;
+  half = (r->sig[place] >> shift) & 1;
+  sticky = (r->sig[place] & ((1 << shift) - 1)) != 0;
+  for (i = 0; i < place; i++)
+    {
+      sticky |= r->sig[i] != 0;
+      r->sig[i] = 0;
+    }
+
+  /* Clear it and look at the bit before it.  */
+  r->sig[place] &= ~((1 << shift) | ((1 << shift) - 1));
+  if (++shift == SIG_ELEM_BITS)
+    {
+      shift = 0;
+      place++;
+    }
+
+  odd = place < SIGSZ && ((r->sig[place] >> shift) & 1);
+  if (half && (sticky || odd))
+    {
+      int carry = 1 << shift;
+      for (i = place; i < SIGSZ && carry; i++)
+	{
+	  carry += r->sig[i];
+	  r->sig[i] = carry;
+	  carry >>= SIG_ELEM_BITS;
+	}
+
+      if (carry)
+	{
+	  r->sig[SIGSZ - 1] = SIG_MSB;
+	  r->exp++;
+	}
+    }
+  else if (bits == 0)
+    memset (r, 0, sizeof (struct real));
+}
+
 long double
 _gst_real_get_ld (struct real *r)
 {
diff --git a/libgst/real.h b/libgst/real.h
index 588b658..a3b88d6 100644
--- a/libgst/real.h
+++ b/libgst/real.h
@@ -98,6 +98,11 @@ extern void _gst_real_div (struct real *out, struct real *r, struct real *s)
 extern void _gst_real_inv (struct real *out, struct real *r)
   ATTRIBUTE_HIDDEN;
 
+/* Round R to the nearest number with BITS significant bits (less if the
+   exponent of R is smaller than MIN_EXP); ties go to the even number.  */
+extern void _gst_real_round (struct real *r, int bits, int min_exp)
+  ATTRIBUTE_HIDDEN;
+
 /* Convert R to a long double and return it.  */
 extern long double _gst_real_get_ld (struct real *r)
   ATTRIBUTE_HIDDEN;
-- 
2.43.0


From d4958fafcdd0a461b58045d67c493e1665e1d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 60/84] fix: $' and $! inside evaluated strings, printing of
 the empty symbol

Behavior>>#extractEvalChunk: took the character after a dollar as the
delimiter of a string, comment or chunk; Symbol>>#isSimpleSymbol raised an
error for the empty symbol.
---
 kernel/Behavior.st | 2 ++
 kernel/Symbol.st   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/kernel/Behavior.st b/kernel/Behavior.st
index 415e62c..ab68a4a 100644
--- a/kernel/Behavior.st
+++ b/kernel/Behavior.st
@@ -1339,6 +1339,8 @@ method dictionary, and iterating over the class hierarchy.'>
 		[ch := aStream next.
 		ch = $! ifTrue: [^code contents].
 		code nextPut: ch.
+		(ch = $$ and: [aStream atEnd not]) 
+		    ifTrue: [code nextPut: aStream next].
 		ch = $" 
 		    ifTrue: 
 			[code
diff --git a/kernel/Symbol.st b/kernel/Symbol.st
index e9ae84c..a6296bf 100644
--- a/kernel/Symbol.st
+++ b/kernel/Symbol.st
@@ -335,6 +335,7 @@ representation are in fact the same instance.'>
 
 	<category: 'testing'>
 	| first |
+	self isEmpty ifTrue: [^false].
 	first := self at: 1.
 	first isLetter 
 	    ifFalse: 
-- 
2.43.0


From dd936675b82f59d1db35c1e343e2d5e00ad0b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:39 +0000
Subject: [PATCH 61/84] fix: ZlibWriteStream did not flush a buffer filled
 exactly

The pointer is past the size of the buffer then, so the next #nextPut: or
#next:putAll:startingAt: accessed the buffer out of bounds.
---
 packages/zlib/ZLibWriteStream.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zlib/ZLibWriteStream.st b/packages/zlib/ZLibWriteStream.st
index 9cdbcda..6a5aac1 100644
--- a/packages/zlib/ZLibWriteStream.st
+++ b/packages/zlib/ZLibWriteStream.st
@@ -137,7 +137,7 @@ that is used for communication with zlib in a WriteStream decorator.'>
 	 stream works on a ByteArray or String) to the deflation buffer."
 
 	<category: 'streaming'>
-	ptr = inBytes size ifTrue: [self flushBuffer].
+	ptr > inBytes size ifTrue: [self flushBuffer].
 	inBytes at: ptr put: aByte.
 	ptr := ptr + 1
     ]
@@ -148,7 +148,7 @@ that is used for communication with zlib in a WriteStream decorator.'>
 
 	<category: 'streaming'>
 	| written amount |
-	ptr = inBytes size ifTrue: [self flushBuffer].
+	ptr > inBytes size ifTrue: [self flushBuffer].
 	written := 0.
 	
 	[amount := inBytes size - ptr + 1 min: n - written.
-- 
2.43.0


From 29a8999ec629f77ff9b0b7d6898dddf10f2110e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:39 +0000
Subject: [PATCH 62/84] fix: input was lost if zlib could not consume any of it

An offset of zero in the input buffer was taken to mean that the buffer had
been consumed completely; this happens if the output buffer is smaller than
the gzip header.
---
 packages/zlib/zlib.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/zlib/zlib.c b/packages/zlib/zlib.c
index d249bab..362199e 100644
--- a/packages/zlib/zlib.c
+++ b/packages/zlib/zlib.c
@@ -147,7 +147,7 @@ zlib_wrapper (OOP oop, int flush, int inSize, int (*func) (z_stream *, int))
   /* If the buffer has leftover data, relocate next_in because the Smalltalk
      object might have moved.  Otherwise initialize it from inBytesOOP.  */
   if (zlib_obj->opaque)
-    zlib_obj->next_in = inBytes + (ptrdiff_t) zlib_obj->opaque; 
+    zlib_obj->next_in = inBytes + (ptrdiff_t) zlib_obj->opaque - 1;
   else
     {
       zlib_obj->next_in = inBytes;
@@ -165,14 +165,15 @@ zlib_wrapper (OOP oop, int flush, int inSize, int (*func) (z_stream *, int))
     }
 
   /* If the buffer has leftover data, clear the inBytes field of the object.
-     Otherwise store how many bytes were consumed in zs->opaque.  */
+     Otherwise store in zs->opaque how many bytes were consumed, plus one
+     because nothing might have been consumed.  */
   if (zlib_obj->avail_in == 0)
     {
       zs->inBytes = vmProxy->nilOOP;
       zlib_obj->opaque = NULL;
     }
   else
-    zlib_obj->opaque = (PTR) ((char *) zlib_obj->next_in - (char *) inBytes);
+    zlib_obj->opaque = (PTR) ((char *) zlib_obj->next_in - (char *) inBytes + 1);
 
   /* Return the number of bytes written to the output buffer, or -1 if the
      output is finished.  */
-- 
2.43.0


From 9c9e4467baf80f62f55bf7768720529598d1fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:48 +0000
Subject: [PATCH 63/84] fix: resetting and positioning of inflating streams

Resetting left the data already read in the input buffer, and positioning at
or beyond the end looped forever.
---
 packages/zlib/ZLibReadStream.st | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/zlib/ZLibReadStream.st b/packages/zlib/ZLibReadStream.st
index 71628cd..8129c7e 100644
--- a/packages/zlib/ZLibReadStream.st
+++ b/packages/zlib/ZLibReadStream.st
@@ -153,7 +153,10 @@ used for communication with zlib.'>
 		whileTrue.
 
 	"End of data, or zlib error encountered."
-	endPtr = -1 ifTrue: [self checkError]
+	endPtr = -1 
+	    ifTrue: 
+		[endPtr := 0.
+		self checkError]
     ]
 ]
 
@@ -296,7 +299,10 @@ deflated data.'>
 
 	<category: 'positioning'>
 	delta > anInteger ifTrue: [self reset].
-	[delta + endPtr < anInteger] whileTrue: [self fillBuffer].
+	[delta + endPtr < anInteger and: [zlibObject notNil]] 
+	    whileTrue: [self fillBuffer].
+	(anInteger between: delta and: delta + endPtr) 
+	    ifFalse: [^SystemExceptions.IndexOutOfRange signalOn: self withIndex: anInteger].
 	ptr := anInteger - delta
     ]
 
@@ -305,6 +311,7 @@ deflated data.'>
 
 	<category: 'positioning'>
 	self stream reset.
+	inBytes := nil.
 	self
 	    destroyZlibObject;
 	    initializeZlibObject.
-- 
2.43.0


From 8459c30bff8df9a4a5ba16f647ee8f9b834b2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 64/84] fix: inflating streams looped forever on data after the
 end

Z_STREAM_END without any output is the end of the stream, even if there is
input left; a stream that wants a preset dictionary is an error.
---
 packages/zlib/zlib.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/zlib/zlib.c b/packages/zlib/zlib.c
index 362199e..de867b3 100644
--- a/packages/zlib/zlib.c
+++ b/packages/zlib/zlib.c
@@ -163,6 +163,11 @@ zlib_wrapper (OOP oop, int flush, int inSize, int (*func) (z_stream *, int))
       zlib_obj->msg = NULL;
       ret = Z_OK;
     }
+  else if (ret == Z_NEED_DICT)
+    {
+      zlib_obj->msg = "need dictionary";
+      ret = Z_DATA_ERROR;
+    }
 
   /* If the buffer has leftover data, clear the inBytes field of the object.
      Otherwise store in zs->opaque how many bytes were consumed, plus one
@@ -179,6 +184,8 @@ zlib_wrapper (OOP oop, int flush, int inSize, int (*func) (z_stream *, int))
      output is finished.  */
   if (ret < 0)
     return -1;
+  else if (ret == Z_STREAM_END && outSize == zlib_obj->avail_out)
+    return -1;
   else if (flush == Z_FINISH && inSize == 0 && outSize == zlib_obj->avail_out)
     return -1;
   else
-- 
2.43.0


From 478bbf6abf692c0161e83718f11d0198f7def396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 65/84] fix: flush the method caches when the superclass of a
 class changes

Sends to the class and its subclasses kept running the methods that were
inherited from the old superclass.
---
 kernel/Behavior.st | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/Behavior.st b/kernel/Behavior.st
index ab68a4a..d6274c4 100644
--- a/kernel/Behavior.st
+++ b/kernel/Behavior.st
@@ -520,7 +520,8 @@ method dictionary, and iterating over the class hierarchy.'>
 	superClass := aClass.
 	instanceSpec isNil 
 	    ifTrue: 
-		[instanceSpec := aClass isNil ifTrue: [0] ifFalse: [aClass instanceSpec]]
+		[instanceSpec := aClass isNil ifTrue: [0] ifFalse: [aClass instanceSpec]].
+	Behavior flushCache
     ]
 
     addSubclass: aClass [
-- 
2.43.0


From 58319cdd0d0af5527cce4d7f305f6d7f82f89433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 66/84] fix: copying a method that has SmallInteger literals
 printed an error

---
 kernel/CompildMeth.st | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/CompildMeth.st b/kernel/CompildMeth.st
index e0be59d..7951a62 100644
--- a/kernel/CompildMeth.st
+++ b/kernel/CompildMeth.st
@@ -632,7 +632,8 @@ instances.'>
 	array do: 
 		[:each | 
 		each class == Array ifTrue: [self makeLiteralsReadOnly: each].
-		(each class isKindOf: LookupKey) ifFalse: [each makeReadOnly: true]].
+		(each isSmallInteger or: [each class isKindOf: LookupKey]) 
+		    ifFalse: [each makeReadOnly: true]].
     ]
 
     initialize [
-- 
2.43.0


From 658b435b0b3e04d95873698fc5f18cf9b52d0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 67/84] fix: float and long double results of C call-outs

---
 libgst/cint.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index fdb6ce3..20fcfda 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -1420,7 +1420,11 @@ c_to_smalltalk (cparam *result, OOP receiverOOP, OOP returnTypeOOP)
       break;
 
     case CDATA_FLOAT:
-      resultOOP = floate_new (result->u.doubleVal);
+      resultOOP = floate_new (result->u.floatVal);
+      break;
+
+    case CDATA_LONG_DOUBLE:
+      resultOOP = floatq_new (result->u.longDoubleVal);
       break;
 
     default:
-- 
2.43.0


From 7dff64452b5d26a41788b2048ac1716de36e2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 68/84] fix: integers and FloatQs lost precision when passed to
 C as floats

---
 libgst/cint.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 20fcfda..02fa0b1 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -1132,12 +1132,28 @@ smalltalk_to_c (OOP oop,
 	  cp->u.longVal = (unsigned short) TO_C_INT (oop);
 	  return &ffi_type_sint;
 
+	case CDATA_LONG_DOUBLE:
+	  if (!IS_C_LONGLONG (oop) && !IS_C_ULONGLONG (oop))
+	    break;
+	  cp->u.longDoubleVal = (IS_C_LONGLONG (oop)
+				 ? (long double) to_c_int_64 (oop)
+				 : (long double) to_c_uint_64 (oop));
+	  return &ffi_type_longdouble;
+
 	case CDATA_DOUBLE:
-          cp->u.doubleVal = (double) TO_C_LONG (oop);
+	  if (!IS_C_LONGLONG (oop) && !IS_C_ULONGLONG (oop))
+	    break;
+	  cp->u.doubleVal = (IS_C_LONGLONG (oop)
+			     ? (double) to_c_int_64 (oop)
+			     : (double) to_c_uint_64 (oop));
 	  return &ffi_type_double;
 
 	case CDATA_FLOAT:
-          cp->u.floatVal = (float) TO_C_LONG (oop);
+	  if (!IS_C_LONGLONG (oop) && !IS_C_ULONGLONG (oop))
+	    break;
+	  cp->u.floatVal = (IS_C_LONGLONG (oop)
+			    ? (float) to_c_int_64 (oop)
+			    : (float) to_c_uint_64 (oop));
 	  return &ffi_type_float;
 	}
     }
@@ -1209,7 +1225,7 @@ smalltalk_to_c (OOP oop,
       switch (cType)
 	{
 	case CDATA_LONG_DOUBLE:
-	  cp->u.longDoubleVal = _gst_oop_to_float (oop);
+	  cp->u.longDoubleVal = _gst_oop_to_long_double (oop);
 	  return &ffi_type_longdouble;
 
 	case CDATA_DOUBLE:
-- 
2.43.0


From 93a2350094f284c11a52263bbcf69c12aebda940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 69/84] fix: passing a SmallInteger for variadic arguments
 crashed

---
 libgst/cint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 02fa0b1..078fd90 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -861,7 +861,8 @@ _gst_invoke_croutine (OOP cFuncOOP,
 	case CDATA_VARIADIC:
 	case CDATA_VARIADIC_OOP:
 	  oop = args[si++];
-	  totalArgs += NUM_WORDS (OOP_TO_OBJ (oop));
+	  if (IS_OOP (oop))
+	    totalArgs += NUM_WORDS (OOP_TO_OBJ (oop));
 	  haveVariadic = true;
 	  break;
 
-- 
2.43.0


From 723cfd8e3fe7af2c4610c46aef7bdbebcf7990b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 70/84] fix: long double arguments and results of C callbacks

---
 libgst/cint.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 078fd90..ed077d2 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -1482,6 +1482,7 @@ closure_msg_send (ffi_cif* cif, void* result, void** args, void* userdata)
   OOP *argsOOP, *argTypes, resultOOP;
   cdata_type cType;
   cparam cp;
+  size_t resultSize;
 
   desc = (gst_c_callable) OOP_TO_OBJ (callbackOOP);
   numArgs = NUM_INDEXABLE_FIELDS (desc->argTypesOOP);
@@ -1489,7 +1490,11 @@ closure_msg_send (ffi_cif* cif, void* result, void** args, void* userdata)
 
   for (i = 0; i < numArgs; i++)
     {
-      memcpy (&cp.u, args[i], sizeof (ffi_arg));
+      size_t size = sizeof (ffi_arg);
+      if (size < cif->arg_types[i]->size)
+	size = cif->arg_types[i]->size;
+
+      memcpy (&cp.u, args[i], size);
       desc = (gst_c_callable) OOP_TO_OBJ (callbackOOP);
       argTypes = OOP_TO_OBJ (desc->argTypesOOP)->data;
       argsOOP[i] = c_to_smalltalk (&cp, _gst_nil_oop, argTypes[i]);
@@ -1500,10 +1505,14 @@ closure_msg_send (ffi_cif* cif, void* result, void** args, void* userdata)
 
   desc = (gst_c_callable) OOP_TO_OBJ (callbackOOP);
   cType = IS_OOP (desc->returnTypeOOP) ? CDATA_COBJECT : TO_INT (desc->returnTypeOOP);
+  resultSize = sizeof (ffi_arg);
+  if (resultSize < cif->rtype->size)
+    resultSize = cif->rtype->size;
+
   if (cType != CDATA_VOID && smalltalk_to_c (resultOOP, &cp, cType))
-    memcpy (result, &cp.u, sizeof (ffi_arg));
+    memcpy (result, &cp.u, resultSize);
   else
-    memset (result, 0, sizeof (ffi_arg));
+    memset (result, 0, resultSize);
 }
 
 void
-- 
2.43.0


From e51d869a432c7bde8c4758aba93c07842b3c521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:01 +0000
Subject: [PATCH 71/84] fix: heap overflow when a UnicodeString is passed to C

---
 libgst/dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 8b37f0f..8980133 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -2024,7 +2024,7 @@ _gst_to_wide_cstring (OOP stringOOP)
 
   string = (gst_unicode_string) OOP_TO_OBJ (stringOOP);
   len = oop_num_fields (stringOOP);
-  result = (wchar_t *) xmalloc (len + 1);
+  result = (wchar_t *) xmalloc ((len + 1) * sizeof (wchar_t));
   if (sizeof (wchar_t) == 4)
     memcpy (result, string->chars, len * sizeof (wchar_t));
   else
-- 
2.43.0


From 0baf2f2e2cf49d0184f5f47682ffb62a429c019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:03 +0000
Subject: [PATCH 72/84] fix: the size of a CUnion was that of its last field

---
 kernel/CStruct.st | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernel/CStruct.st b/kernel/CStruct.st
index 262ee99..29502de 100644
--- a/kernel/CStruct.st
+++ b/kernel/CStruct.st
@@ -130,11 +130,12 @@ CObject subclass: CCompound [
 	 together with the new field's alignment requirements."
 
 	<category: 'subclass creation'>
-	| offset maxAlignment inspStr |
+	| offset size maxAlignment inspStr |
 	(self declaration notEmpty and: [self declaration ~= array]) 
 	    ifTrue: [self error: 'cannot redefine CStruct/CUnion'].
 	declaration := array.
 	offset := startOffset.
+	size := self superclass sizeof.
 	maxAlignment := self superclass alignof.
 	inspStr := WriteStream on: (String new: 8).
 	inspStr
@@ -165,10 +166,11 @@ CObject subclass: CCompound [
 		    nl;
 		    nextPut: $].
 		self compile: str classified: 'accessing'.
-		offset := offset + type sizeof].
+		offset := offset + type sizeof.
+		size := size max: offset].
 	inspStr nextPut: $); nl; nextPut: $].
 	self compile: inspStr contents classified: 'debugging'.
-	self compileSize: offset align: maxAlignment
+	self compileSize: size align: maxAlignment
     ]
 
     CCompound class >> compileSize: size align: alignment [
-- 
2.43.0


From 00a8b6202224accce336afcc5499bd47a30b8b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 73/84] fix: a failed or interrupted snapshot destroyed the
 previous image

_gst_save_to_file unlinked the target before writing it.  Write to a
temporary file and rename it when it is complete, and look at the result
of close.
---
 libgst/save.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/libgst/save.c b/libgst/save.c
index be980a7..5ab0add 100644
--- a/libgst/save.c
+++ b/libgst/save.c
@@ -278,15 +278,20 @@ _gst_save_to_file (const char *fileName)
 {
   int imageFd;
   int save_errno;
+  char *tempName;
   mst_Boolean success;
 
   _gst_invoke_hook (GST_ABOUT_TO_SNAPSHOT);
   _gst_global_gc (0);
   _gst_finish_incremental_gc ();
 
+  /* Write to a temporary file, and put it in place only when it is complete,
+     so that a failed save does not destroy the previous image.  */
   success = false;
-  unlink (fileName);
-  imageFd = _gst_open_file (fileName, "w");
+  tempName = xmalloc (strlen (fileName) + 32);
+  sprintf (tempName, "%s.tmp%ld", fileName, (long) getpid ());
+  unlink (tempName);
+  imageFd = _gst_open_file (tempName, "w");
   if (imageFd >= 0)
     {
       if (setjmp(save_jmpbuf) == 0)
@@ -296,9 +301,22 @@ _gst_save_to_file (const char *fileName)
         }
 
       save_errno = errno;
-      close (imageFd);
-      if (!success)
+      if (close (imageFd) < 0 && success)
+        {
+          success = false;
+          save_errno = errno;
+        }
+#ifdef WIN32
+      if (success)
         unlink (fileName);
+#endif
+      if (success && rename (tempName, fileName) < 0)
+        {
+          success = false;
+          save_errno = errno;
+        }
+      if (!success)
+        unlink (tempName);
       if (myOOPTable)
         xfree (myOOPTable);
       myOOPTable = NULL;
@@ -306,6 +324,7 @@ _gst_save_to_file (const char *fileName)
   else
     save_errno = errno;
 
+  xfree (tempName);
   _gst_invoke_hook (GST_FINISHED_SNAPSHOT);
   errno = save_errno;
   return success;
-- 
2.43.0


From cbcc827cb3bc95ba874fe34e738053c7c101b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 74/84] fix: a truncated image file crashed the virtual machine

load_snapshot trusted the sizes in the header and OOP table.  Refuse an
image that does not hold all the objects of its OOP table.
---
 libgst/save.c | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/libgst/save.c b/libgst/save.c
index 5ab0add..b02c748 100644
--- a/libgst/save.c
+++ b/libgst/save.c
@@ -126,7 +126,7 @@ static int buf_pos;
 /* The size of the buffer.  */
 static int buf_size;
 
-/* The size of the input file (for buffered input only).  */
+/* The size of the input file.  */
 static off_t file_size;
 
 /* The current position in the file (for buffered input only).  */
@@ -197,7 +197,7 @@ static inline void fixup_byte_order (PTR buf,
 /* This function loads an OOP table made of OLDSLOTSUSED slots from
    the image file stored in the file whose descriptor is IMAGEFD.
    The fixup gets handled by load_normal_oops.  */
-static void load_oop_table (int imageFd);
+static mst_Boolean load_oop_table (int imageFd);
 
 /* This function loads OBJECTDATASIZE bytes of object data belonging
    to standard (i.e. non built-in OOPs) and fixes the endianness of
@@ -521,7 +521,8 @@ load_snapshot (int imageFd)
   num_used_oops = header.oopTableSize;
   _gst_mem.num_free_oops = header.num_free_oops;
 
-  load_oop_table (imageFd);
+  if (!load_oop_table (imageFd))
+    return false;
 
 #ifdef SNAPSHOT_TRACE
   printf ("After loading OOP table: %lld\n", file_pos + buf_pos);
@@ -558,6 +559,9 @@ mst_Boolean
 load_file_version (int imageFd,
 		   save_file_header * headerp)
 {
+  if (file_size < sizeof (save_file_header))
+    return (false);
+
   buffer_read (imageFd, headerp, sizeof (save_file_header));
   if (strcmp (headerp->signature, SIGNATURE))
     return (false);
@@ -591,18 +595,46 @@ load_file_version (int imageFd,
   if (headerp->version > VERSION_REQUIRED)
     return (false);
 
+  /* the same if the file ends before the end of the OOP table */
+  if (headerp->oopTableSize
+      > (file_size - sizeof (save_file_header)) / sizeof (struct oop_s))
+    return (false);
+
   return (true);
 }
 
-void
+mst_Boolean
 load_oop_table (int imageFd)
 {
+  OOP oop;
+  size_t i, left;
+
   /* Load in the valid OOP slots from previous dump.  The others are already
      initialized to free (0).  */
   buffer_read (imageFd, _gst_mem.ot, sizeof (struct oop_s) * num_used_oops);
   if UNCOMMON (wrong_endianness)
     fixup_byte_order (_gst_mem.ot,
 		      sizeof (struct oop_s) * num_used_oops / sizeof (PTR));
+
+  /* Refuse the image if it does not include the data of all the objects.  */
+  left = (file_size - sizeof (save_file_header)
+	  - sizeof (struct oop_s) * num_used_oops) / sizeof (PTR);
+  for (oop = _gst_mem.ot, i = num_used_oops; i--; oop++)
+    {
+      if (IS_OOP_FREE (oop))
+	continue;
+
+      if ((size_t) oop->object > left)
+	{
+	  /* Leave an empty table.  */
+	  memset (_gst_mem.ot, 0, sizeof (struct oop_s) * num_used_oops);
+	  return (false);
+	}
+
+      left -= (size_t) oop->object;
+    }
+
+  return (true);
 }
 
 
-- 
2.43.0


From b7e85981c3201d45cfa839d4ce3b00b3e773e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:44 +0000
Subject: [PATCH 75/84] fix: IdentitySet lost elements when it grew

Growing and removing used findElementIndex:, which looked at #hash,
while findIndex: looks at #identityHash.
---
 kernel/IdentitySet.st | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/kernel/IdentitySet.st b/kernel/IdentitySet.st
index 637e0ea..6e039b8 100644
--- a/kernel/IdentitySet.st
+++ b/kernel/IdentitySet.st
@@ -53,6 +53,22 @@ use the == operator to determine duplication of objects.'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size element |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject identityHash scramble bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(element := self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
-- 
2.43.0


From 2ef33fccc7c7861d97021152c4782124efbb0875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 76/84] fix: weak sets and dictionaries mixed hash and
 identityHash

The place of an element was computed with #hash when storing it and with
#identityHash when looking for it.
---
 kernel/WeakObjects.st | 52 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/kernel/WeakObjects.st b/kernel/WeakObjects.st
index 8342914..b8e0c7c 100644
--- a/kernel/WeakObjects.st
+++ b/kernel/WeakObjects.st
@@ -312,7 +312,7 @@ one of them, I swiftly remove all.'>
 	<category: 'private'>
 	| index size element |
 	"Sorry for the lack of readability, but I want speed... :-)"
-	index := (anObject identityHash scramble 
+	index := (anObject hash scramble 
 		    bitAnd: (size := self primSize) - 1) + 1.
 	
 	[((element := self primAt: index) isNil or: [element key = anObject]) 
@@ -566,6 +566,22 @@ encounter one of them, I swiftly remove all the garbage collected keys'>
 	^self includes: anObject
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size element |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject key identityHash scramble bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(element := self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
@@ -609,6 +625,22 @@ for the garbage collected keys'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size element |
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject key identityHash scramble bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(element := self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
@@ -652,6 +684,24 @@ for the garbage collected values'>
 	^anObject identityHash
     ]
 
+    findElementIndex: anObject [
+        "Tries to see where anObject can be placed as an indexed variable.
+	 As soon as nil is found, the index of that slot is answered.
+	 anObject also comes from an indexed variable."
+
+        <category: 'private methods'>
+        | index size element |
+        self beConsistent.
+
+        "Sorry for the lack of readability, but I want speed... :-)"
+        index := (anObject identityHash scramble bitAnd: (size := self primSize) - 1) + 1.
+   
+        [(element := self primAt: index) isNil
+            ifTrue: [^index].
+        index == size ifTrue: [index := 1] ifFalse: [index := index + 1]]
+                repeat
+    ]
+
     findIndex: anObject [
 	"Tries to see if anObject exists as an indexed variable. As soon as nil
 	 or anObject is found, the index of that slot is answered"
-- 
2.43.0


From 622bdd2d83187373640f7035c8d61b98673f6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 77/84] fix: WeakValueLookupTable>>rehash always failed

---
 kernel/WeakObjects.st | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kernel/WeakObjects.st b/kernel/WeakObjects.st
index b8e0c7c..72746d3 100644
--- a/kernel/WeakObjects.st
+++ b/kernel/WeakObjects.st
@@ -495,28 +495,28 @@ for the garbage collected values'>
 	"Rehash the receiver"
 
 	<category: 'rehashing'>
-	| key val |
-	key := Array new: self primSize.
-	val := Array new: values size.
+	| keys vals |
+	keys := Array new: self primSize.
+	vals := Array new: self primSize.
 	self resetTally.
 	1 to: self primSize
 	    do: 
 		[:i | 
 		"Find values that are nil and should not be"
 
-		(key := self primAt: i) notNil 
+		(self primAt: i) notNil 
 		    ifTrue: 
 			[(values isAlive: i) 
 			    ifTrue: 
-				[key at: i put: (self primAt: i).
-				val at: i put: (self valueAt: i)]].
+				[keys at: i put: (self primAt: i).
+				vals at: i put: (self valueAt: i)]].
 		self primAt: i put: nil.
 		self valueAt: i put: nil].
 	1 to: self primSize
 	    do: 
 		[:i | 
-		(key at: i) isNil 
-		    ifFalse: [self whileGrowingAt: (key at: i) put: (val at: i)]]
+		(keys at: i) isNil 
+		    ifFalse: [self whileGrowingAt: (keys at: i) put: (vals at: i)]]
     ]
 
     findElementIndex: anObject [
-- 
2.43.0


From 218da7742c85332687bdc1515a92bcfa3358d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 78/84] fix: equal WeakKeyIdentityDictionaries had different
 hashes

---
 kernel/WeakObjects.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/WeakObjects.st b/kernel/WeakObjects.st
index 72746d3..4fa0831 100644
--- a/kernel/WeakObjects.st
+++ b/kernel/WeakObjects.st
@@ -622,7 +622,7 @@ for the garbage collected keys'>
 	"Return an hash value for the item, anObject"
 
 	<category: 'private methods'>
-	^anObject identityHash
+	^anObject key identityHash
     ]
 
     findElementIndex: anObject [
-- 
2.43.0


From fce7e3f69cd2173f6f833d18a005c69a0180a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:37 +0000
Subject: [PATCH 79/84] fix: ephemerons were mourned while their key was
 reachable, or crashed

Whether the value of an ephemeron with a reachable key had been marked or
copied when the next ephemeron was looked at depended on their order, so
that the latter could be mourned though its key was alive.  Repeat until
no more keys are reached.  Also, a SmallInteger key crashed the marking
phase, and the class of the ephemeron was not copied.
---
 libgst/oop.c | 207 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 121 insertions(+), 86 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index deaf185..b342d4d 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -189,6 +189,9 @@ static inline void copy_oops (void);
    list.  (It also completes the special treatment of ephemeron objects).  */
 static void scan_grey_objects ();
 
+/* Scan the object in NODE, and what is copied because of it.  */
+static void scan_grey_object (grey_area_node *node);
+
 /* The treatment of grey pages is different from grey objects.  Since some
    new objects might not be tenured, grey pages might still hold some
    pointers to new objects.  For this reason, and to avoid the cost of
@@ -238,7 +241,10 @@ static inline void mourn_objects (void);
 
 /* Mark the ephemeron objects.  This is done after other objects
    are marked.  */
-static inline void mark_ephemeron_oops (void);
+static void mark_ephemeron_oops (void);
+
+/* Marks the fields of OOP, an ephemeron, including the key.  */
+static void mark_ephemeron_fields (OOP oop);
 
 /* Walks the instance variables of weak objects and zeroes out those that are
    not surviving the garbage collection.  Called by preare_for_sweep.  */
@@ -1636,7 +1642,10 @@ tenure_one_object ()
         _gst_mem.scan.queue_at = _gst_mem.tenuring_queue.minPtr;
 
       _gst_tenure_oop (oop);
-      add_grey_object (oop);
+
+      /* Ephemerons were added when they were copied.  */
+      if (!(oop->flags & F_EPHEMERON))
+	add_grey_object (oop);
     }
   else
     _gst_tenure_oop (oop);
@@ -1671,13 +1680,6 @@ add_grey_object (OOP oop)
   if (!numFields)
     return;
 
-  /* For ephemeron, skip the first field and the class.  */
-  if (oop->flags & F_EPHEMERON)
-    {
-      numFields -= &(obj->data[1]) - base;
-      base = &(obj->data[1]); 
-    }
-
   entry = (grey_area_node *) xmalloc (sizeof (grey_area_node));
   entry->base = base;
   entry->n = numFields;
@@ -1907,48 +1909,84 @@ void
 scan_grey_objects()
 {
   grey_area_node *node, *next;
-  OOP oop;
-  gst_object obj;
+  grey_area_list waiting;
+  mst_Boolean progress;
 
-  for (next = _gst_mem.grey_areas.head; (node = next); )
+  while (_gst_mem.grey_areas.head)
     {
-      oop = node->oop;
-      obj = OOP_TO_OBJ (oop);
-
-      if (oop->flags & F_EPHEMERON)
-	/* Objects might have moved, so update node->base.  */
-	node->base = (OOP *) &obj->data[1];
+      /* Scan the objects, except the ephemerons whose key was not reached
+	 yet.  Scanning might grey more areas.  */
+      progress = false;
+      waiting.head = waiting.tail = NULL;
+      while ((node = _gst_mem.grey_areas.head))
+	{
+	  _gst_mem.grey_areas.head = node->next;
+	  if (!node->next)
+	    _gst_mem.grey_areas.tail = NULL;
 
-#if defined(GC_DEBUG_OUTPUT)
-      printf ("Scanning grey range %p...%p (%p)\n", node->base, node->base + node->n, oop);
-#endif
+	  if ((node->oop->flags & F_EPHEMERON)
+	      && !IS_OOP_COPIED (OOP_TO_OBJ (node->oop)->data[0]))
+	    {
+	      node->next = NULL;
+	      if (waiting.tail)
+		waiting.tail->next = node;
+	      else
+		waiting.head = node;
+	      waiting.tail = node;
+	    }
+	  else
+	    {
+	      scan_grey_object (node);
+	      xfree (node);
+	      progress = true;
+	    }
+	}
 
-      _gst_copy_oop_range (node->base, node->base + node->n);
+      if (progress)
+	_gst_mem.grey_areas = waiting;
 
-      if (oop->flags & F_EPHEMERON)
-        {
-	  OOP key = obj->data[0];
+      else
+	{
+	  /* Nothing reaches these keys but ephemerons with an unreachable
+	     key.  Mourn them all, but keep what they refer to.  */
+	  for (node = waiting.head; node; node = node->next)
+	    _gst_add_buf_pointer (node->oop);
 
-	  /* Copy the key, mourn the object if it was not reachable.  */
-	  if (!IS_OOP_COPIED (key))
+	  for (next = waiting.head; (node = next); )
 	    {
-	      _gst_copy_an_oop (key);
-              _gst_add_buf_pointer (oop);
+	      next = node->next;
+	      scan_grey_object (node);
+	      xfree (node);
 	    }
 	}
+    }
+}
 
-      _gst_mem.grey_areas.head = next = node->next;
-      xfree (node);
-      if (!next)
-        _gst_mem.grey_areas.tail = NULL;
-
-      cheney_scan ();
+void
+scan_grey_object (grey_area_node *node)
+{
+  OOP *base = node->base;
+  int n = node->n;
 
-      /* The scan might have greyed more areas.  */
-      if (!next)
-        next = _gst_mem.grey_areas.head;
+  /* Ephemerons are not scanned together with the other objects, so they
+     might be moved while their fields are.  */
+  if (node->oop->flags & F_EPHEMERON)
+    {
+      gst_object obj = OOP_TO_OBJ (node->oop);
+      n = &(obj->data[NUM_OOPS (obj)]) - &(obj->objClass);
+      base = (OOP *) xmalloc (n * sizeof (OOP));
+      memcpy (base, &(obj->objClass), n * sizeof (OOP));
     }
 
+#if defined(GC_DEBUG_OUTPUT)
+  printf ("Scanning grey range %p...%p (%p)\n", base, base + n, node->oop);
+#endif
+
+  _gst_copy_oop_range (base, base + n);
+  if (base != node->base)
+    xfree (base);
+
+  cheney_scan ();
 }
 
 int
@@ -2122,62 +2160,59 @@ mark_oops (void)
 void
 mark_ephemeron_oops (void)
 {
-  OOP *pOOP, *pDeadOOP, *base;
-  int i, size;
-
-  /* Make a local copy of the buffer */
-  size = _gst_buffer_size ();
-  base = alloca (size);
-  _gst_copy_buffer (base);
-  _gst_reset_buffer ();
-  size /= sizeof (PTR);
-
-  /* First pass: distinguish objects whose key was reachable from
-     the outside by clearing their F_EPHEMERON bit.  */
-  for (pOOP = base, i = size; i--; pOOP++)
-    {
-      OOP oop = *pOOP;
-      gst_object obj = OOP_TO_OBJ(oop);
-      OOP key = obj->data[0];
-
-      if (key->flags & F_REACHABLE)
-        oop->flags &= ~F_EPHEMERON;
-
-      key->flags |= F_REACHABLE;
-    }
+  OOP *base, *deadOOPs = NULL;
+  size_t i, size, left, dead = 0;
 
-  for (pOOP = pDeadOOP = base, i = size; i--; )
+  /* The buffer holds the ephemerons whose fields have not been marked.  */
+  while ((size = _gst_buffer_size () / sizeof (OOP)))
     {
-      OOP oop = *pOOP++;
-      gst_object obj = OOP_TO_OBJ(oop);
-      OOP key = obj->data[0];
-      int num = NUM_OOPS(obj);
-      int j;
-
-      /* Find if the key is reachable from the objects (so that
-         we can mourn the ephemeron if this is not so).  */
-      key->flags &= ~F_REACHABLE;
-
-      for (j = 1; j < num; j++)
-        MAYBE_MARK_OOP (obj->data[j]);
+      base = (OOP *) xmalloc (size * sizeof (OOP));
+      _gst_copy_buffer (base);
+      _gst_reset_buffer ();
+
+      /* First pass: mark the fields of the objects whose key is reachable
+	 (marking adds other ephemerons to the buffer), and keep the others,
+	 because their key might be among what was marked.  */
+      for (left = i = 0; i < size; i++)
+	{
+	  OOP key = OOP_TO_OBJ (base[i])->data[0];
+	  if (IS_INT (key) || IS_OOP_MARKED (key))
+	    mark_ephemeron_fields (base[i]);
+	  else
+	    base[left++] = base[i];
+	}
 
-      /* Remember that above we cleared F_EPHEMERON if the key
-         is alive.  */
-      if (!IS_OOP_MARKED (key) && (oop->flags & F_EPHEMERON))
-        *pDeadOOP++ = oop;
+      if (left < size)
+	_gst_add_buf_data (base, left * sizeof (OOP));
 
-      /* Ok, now mark the key.  */
-      MAYBE_MARK_OOP (key);
+      else
+	{
+	  /* Nothing reaches the key of any of these objects but ephemerons
+	     with an unreachable key.  They will be mourned, together with
+	     the ones that are found while marking their fields.  */
+	  deadOOPs = (OOP *) xrealloc (deadOOPs, (dead + size) * sizeof (OOP));
+	  memcpy (deadOOPs + dead, base, size * sizeof (OOP));
+	  dead += size;
+	  for (i = 0; i < size; i++)
+	    mark_ephemeron_fields (base[i]);
+	}
 
-      /* Restore the flag in case it was cleared.  */
-      oop->flags |= F_EPHEMERON;
+      xfree (base);
     }
 
-  /* If more ephemerons were reachable from the object, go on...  */
-  if (_gst_buffer_size ())
-    mark_ephemeron_oops ();
+  _gst_add_buf_data (deadOOPs, dead * sizeof (OOP));
+  if (deadOOPs)
+    xfree (deadOOPs);
+}
+
+void
+mark_ephemeron_fields (OOP oop)
+{
+  gst_object obj = OOP_TO_OBJ (oop);
+  int i, num = NUM_OOPS (obj);
 
-  _gst_add_buf_data (base, (char *) pDeadOOP - (char *) base);
+  for (i = 0; i < num; i++)
+    MAYBE_MARK_OOP (obj->data[i]);
 }
 
 #define TAIL_MARK_OOP(newOOP) do { \
-- 
2.43.0


From 549c26709f51a290dbe7e975fa91da8dd66676d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:34 +0000
Subject: [PATCH 80/84] fix: weak key dictionaries kept their keys alive after
 growing or being copied

---
 kernel/WeakObjects.st | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/kernel/WeakObjects.st b/kernel/WeakObjects.st
index 4fa0831..088b755 100644
--- a/kernel/WeakObjects.st
+++ b/kernel/WeakObjects.st
@@ -373,6 +373,39 @@ for the garbage collected keys'>
 	self add: assoc.
 	^value
     ]
+
+    addWhileGrowing: anAssociation [
+	"Private - Add anAssociation's key and value to the receiver, which
+	 has room for them.  Only the ephemerons I create know that they
+	 belong to me, so add one of those instead of anAssociation."
+
+	<category: 'private methods'>
+	^super addWhileGrowing: ((HomedAssociation 
+	    key: anAssociation key
+	    value: anAssociation value
+	    environment: self)
+	    makeEphemeron;
+	    yourself)
+    ]
+
+    moveWhileGrowing: anAssociation [
+	"Private - Add to the receiver an association that belongs to the
+	 dictionary that is going to become the receiver."
+
+	<category: 'private methods'>
+	^super addWhileGrowing: anAssociation
+    ]
+
+    growBy: delta [
+	"Private - Grow the receiver by delta places.  The associations are
+	 moved, because they have to belong to the receiver."
+
+	<category: 'private methods'>
+	| newDictionary |
+	newDictionary := self copyEmpty: self capacity + delta.
+	self associationsDo: [:assoc | newDictionary moveWhileGrowing: assoc].
+	^self become: newDictionary
+    ]
 ]
 
 
-- 
2.43.0


From 91921cd521865cedbe0b506f4a9dd781657b0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:34 +0000
Subject: [PATCH 81/84] fix: equal objects were not all finalized

---
 kernel/Object.st | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/kernel/Object.st b/kernel/Object.st
index b5179ed..637f6eb 100644
--- a/kernel/Object.st
+++ b/kernel/Object.st
@@ -76,10 +76,10 @@ All classes in the system are subclasses of me.'>
     ]
 
     Object class >> finalizableObjects [
-	"Answer a set of finalizable objects."
+	"Answer a dictionary whose keys are the finalizable objects."
 
 	<category: 'initialization'>
-	FinalizableObjects isNil ifTrue: [FinalizableObjects := Set new].
+	FinalizableObjects isNil ifTrue: [FinalizableObjects := WeakKeyIdentityDictionary new].
 	^FinalizableObjects
     ]
 
@@ -357,12 +357,10 @@ All classes in the system are subclasses of me.'>
 	 collector finds out there are only weak references to it."
 
 	<category: 'finalization'>
-	self class finalSemaphore critical: [ self class finalizableObjects add: ((HomedAssociation 
-		    key: self
-		    value: nil
-		    environment: FinalizableObjects)
-		    makeEphemeron;
-		    yourself) ]
+	"Objects are told apart by identity, because equal objects must
+	 be finalized too."
+	self class finalSemaphore critical: [
+	    self class finalizableObjects at: self put: nil ]
     ]
 
     removeToBeFinalized [
@@ -370,11 +368,8 @@ All classes in the system are subclasses of me.'>
 	 when the garbage collector finds out there are only weak references to it."
 
 	<category: 'finalization'>
-	self class finalSemaphore critical: [ self class finalizableObjects remove: (HomedAssociation 
-		    key: self
-		    value: nil
-		    environment: self class finalizableObjects)
-	    ifAbsent: [] ]
+	self class finalSemaphore critical: [
+	    self class finalizableObjects removeKey: self ifAbsent: [] ]
     ]
 
     mourn [
-- 
2.43.0


From 7643ca51457bd0d580de1138aeb2e46a1c40f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:29 +0000
Subject: [PATCH 82/84] fix: an image that was read and not mapped crashed if
 it exceeded the old space limit

---
 libgst/save.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libgst/save.c b/libgst/save.c
index b02c748..513b072 100644
--- a/libgst/save.c
+++ b/libgst/save.c
@@ -657,6 +657,10 @@ load_normal_oops (int imageFd)
      mmap-ed area) and fix the byte order.  */
 
   _gst_mem.last_allocated_oop = &_gst_mem.ot[num_used_oops - 1];
+
+  /* The objects cannot be garbage collected while they are being loaded;
+     if they do not fit, memory has to grow.  */
+  _gst_gc_running++;
   PREFETCH_START (_gst_mem.ot, PREF_WRITE | PREF_NTA);
   for (oop = _gst_mem.ot, i = num_used_oops; i--; oop++)
     {
@@ -712,6 +716,7 @@ load_normal_oops (int imageFd)
       if (flags & F_WEAK)
 	_gst_make_oop_weak (oop);
     }
+  _gst_gc_running--;
 
   /* NUM_OOPS requires access to the instance spec in the class
      objects. So we start by fixing the endianness of NON-BYTE objects
-- 
2.43.0


From 14c93e69a6c10de199bca0920c65e4d854394ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:29 +0000
Subject: [PATCH 83/84] fix: an image with few free OOPs crashed when it was
 loaded

---
 libgst/save.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/save.c b/libgst/save.c
index 513b072..e135ce2 100644
--- a/libgst/save.c
+++ b/libgst/save.c
@@ -519,7 +519,10 @@ load_snapshot (int imageFd)
 
   ot_delta = (intptr_t) (_gst_mem.ot_base) - header.ot_base;
   num_used_oops = header.oopTableSize;
-  _gst_mem.num_free_oops = header.num_free_oops;
+  /* The header only counts the free OOPs among those that were saved; the
+     rest of the table is free as well.  */
+  _gst_mem.num_free_oops = _gst_mem.ot_size - num_used_oops
+    + header.num_free_oops;
 
   if (!load_oop_table (imageFd))
     return false;
-- 
2.43.0


From 0c431b9d528453068c90c19f186c5a698baf1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:34 +0000
Subject: [PATCH 84/84] fix: search a namespace's imports after the namespace
 itself

When a class is in the same namespace as its superclass, or in a
subspace of it, the namespaces which the two have in common are only
searched with the superclass.  add_namespace skipped them, but still
added the dictionaries that they import; a variable defined both in
such a namespace (or in the superclass's class pool) and in one of its
imports was hence found in the import first.
---
 libgst/sym.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libgst/sym.c b/libgst/sym.c
index 57f62e7..04743a6 100644
--- a/libgst/sym.c
+++ b/libgst/sym.c
@@ -677,8 +677,11 @@ add_namespace (OOP poolOOP, struct pointer_set_t *except, pool_list *p_end)
       if (!is_a_kind_of (OOP_CLASS (poolOOP), _gst_dictionary_class))
         return p_end;
 
-      if (!except || !pointer_set_contains (except, poolOOP))
-        p_end = add_pool (poolOOP, p_end);
+      /* EXCEPT includes all the superspaces of its members.  */
+      if (except && pointer_set_contains (except, poolOOP))
+        return p_end;
+
+      p_end = add_pool (poolOOP, p_end);
 
       /* Add imports and try to find a super-namespace */
       if (!is_a_kind_of (OOP_CLASS (poolOOP), _gst_abstract_namespace_class))
-- 
2.43.0

