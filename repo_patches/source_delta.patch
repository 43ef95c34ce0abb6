From 016a2f3b605c10ab6e32d5ce2664fce4b7208004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:26 +0000
Subject: [PATCH 01/27] fix: re-read the published ring state while waiting for
 the last push

A push that waits for the previous push to complete kept looking at the
ring state it had loaded once. When other writers moved the ring on, the
slot it was waiting for could be overwritten and the wait never ended.
---
 src/atomic_compat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5d6797c..3cb2377 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -244,11 +244,11 @@ union page_t {
       fail = false;                                                            \
     }                                                                          \
                                                                                \
+  /* give a chance to complete the last push if it is not ready yet */         \
+  complete:                                                                    \
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-  /* give a chance to complete the last push if it is not ready yet */         \
-  complete:                                                                    \
     buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
     DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
     if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
-- 
2.43.0


From 076f8c72e61f1db0dbe379c7b274c88f8e73d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 02/27] fix: mark a published push as ready with a flag instead
 of comparing events

A writer decided that the previous push was complete by comparing the event
in its slot with the event it published. Events that compare equal, or slots
changed by direct operations, made it start early or wait for ever.
---
 src/atomic_compat.h | 23 +++++++++++++++--------
 src/writer.h        |  2 ++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 3cb2377..57707ab 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -206,9 +206,9 @@ union page_t {
   struct __state {                                                             \
     size_t top;                                                                \
     size_t bottom;                                                             \
-    /* variables that can help to confirm that the last value is ready */      \
+    /* variables that confirm that the last value is ready */                  \
     size_t pos;                                                                \
-    event_t event;                                                             \
+    bool ready;                                                                \
   };                                                                           \
                                                                                \
   typedef struct __state state_t
@@ -224,7 +224,7 @@ union page_t {
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
-      .top = 0, .bottom = 0, .pos = 0, .event = event_t()};                    \
+      .top = 0, .bottom = 0, .pos = 0, .ready = true};                         \
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
@@ -233,10 +233,18 @@ union page_t {
   state_t state;                                                               \
   state_t *stateref = &state;
 
+/*
+ * A push publishes its state before it stores the event; the state becomes
+ * ready when the event is stored.
+ */
+#define ATOMIC_READY(s) __atomic_load_n(&(s)->ready, __ATOMIC_ACQUIRE)
+
+#define ATOMIC_PUSH_DONE()                                                     \
+  __atomic_store_n(&stateref->ready, true, __ATOMIC_RELEASE)
+
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
   page_t current_page_content, new_page_content;                               \
-  typename B::event_t evt;                                                     \
   do {                                                                         \
     if (fail) {                                                                \
       /* do a yield here */                                                    \
@@ -249,9 +257,8 @@ union page_t {
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-    buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
     DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
-    if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
+    if (!ATOMIC_READY((state_t *)current_page_content.stateref)) {             \
       /* do a yield here */                                                    \
       YIELD();                                                                 \
       goto complete;                                                           \
@@ -272,8 +279,8 @@ union page_t {
                                                                                \
     body;                                                                      \
                                                                                \
-    /* copy remaining state */                                                 \
-    stateref->event = event;                                                   \
+    /* the event is not stored yet */                                          \
+    stateref->ready = false;                                                   \
                                                                                \
     DEBUG_FRAME();                                                             \
   } while (                                                                    \
diff --git a/src/writer.h b/src/writer.h
index 3ad6ffa..0d70216 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -121,6 +121,7 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
   });
 
   buffer.write(event, top);
+  ATOMIC_PUSH_DONE();
 
 #endif
 
@@ -150,6 +151,7 @@ typename B::error_t RTML_writer<B>::push_all(typename B::event_t &event) {
   });
 
   buffer.write(event, top);
+  ATOMIC_PUSH_DONE();
 
 #endif
 
-- 
2.43.0


From b0b5d7efac468ebe5e7ba266b4e6d0d9245b6651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 03/27] fix: stage a push only in the writer's own state

A writer whose state was published staged its next push in the state shared
by all writers of the buffer. Two such writers staged over each other, and
over the published state, so events were lost and writers stuck.
---
 src/atomic_compat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 57707ab..b8dd37f 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -231,6 +231,7 @@ union page_t {
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
+  state_t state_spare;                                                         \
   state_t *stateref = &state;
 
 /*
@@ -265,8 +266,8 @@ union page_t {
     }                                                                          \
                                                                                \
     if (&state == (state_t *)current_page_content.stateref) {                  \
-      /* current state is in use; use buffer state */                          \
-      stateref = (state_t *)&buffer.state_global;                              \
+      /* current state is in use; use the spare one, never a shared one */     \
+      stateref = (state_t *)&state_spare;                                      \
     } else {                                                                   \
       /* use current state */                                                  \
       stateref = (state_t *)&state;                                            \
-- 
2.43.0


From f36fde9307ce13fa4aeab5abdb1dc328354b30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 04/27] fix: return consistent state snapshots that show only
 stored events

The state query read bottom, top and the time stamps from a state that its
writer could be re-using, and showed an event before it was stored.
---
 src/atomic_compat.h  | 30 +++++++++++++++++++++++++++---
 src/circularbuffer.h |  9 ++++++---
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index b8dd37f..ff327ce 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -53,6 +53,9 @@ typedef unsigned int uint32_t;
 #define ATOMIC(body)                                                           \
   { body }
 
+#define ATOMIC_SNAPSHOT(body)                                                  \
+  { body }
+
 #define _bottom() __bottom
 #define _top() __top
 
@@ -217,10 +220,31 @@ union page_t {
   ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->bottom
 #define _top() ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->top
 
+/*
+ * A consistent view of the published state: repeats the body until the page did
+ * not change meanwhile.
+ */
+#define ATOMIC_SNAPSHOT(body)                                                  \
+  page_t snapshot;                                                             \
+  do {                                                                         \
+    snapshot = (page_t)std::atomic_load(&page);                                \
+    body;                                                                      \
+  } while (snapshot.wide_uniqueid !=                                           \
+           ((page_t)std::atomic_load(&page)).wide_uniqueid)
+
+/*
+ * Hides an event that is published but not stored yet.
+ */
 #define ATOMIC_TRIPLE(b, t)                                                    \
-  state_t *s = ((state_t *)(((page_t)std::atomic_load(&page)).stateref));      \
-  b = s->bottom;                                                               \
-  t = s->top;
+  bool ready;                                                                  \
+  ATOMIC_SNAPSHOT({                                                            \
+    const state_t *s = (const state_t *)snapshot.stateref;                     \
+    b = __atomic_load_n(&s->bottom, __ATOMIC_ACQUIRE);                         \
+    t = __atomic_load_n(&s->top, __ATOMIC_ACQUIRE);                            \
+    ready = ATOMIC_READY(s);                                                   \
+  });                                                                          \
+  if (!ready)                                                                  \
+    t = (t == 0) ? size - 1 : t - 1;
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 636de15..8defb23 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -257,10 +257,13 @@ template <typename T, size_t N>
 typename RTML_buffer<T, N>::error_t
 RTML_buffer<T, N>::state(size_t &b, size_t &t, timespanw &ts,
                          timespanw &ts_t) const {
-  state(b, t);
+  // the time stamps belong to the same state as b and t
+  ATOMIC_SNAPSHOT({
+    state(b, t);
 
-  ts = array[b].getTime();
-  ts_t = array[t].getTime();
+    ts = array[b].getTime();
+    ts_t = array[t].getTime();
+  });
 
   DEBUGV3("timestamp=[0x%x,0x%x] b=0x%x t=0x%x\n", L(ts >> 32), L(ts), b, t);
 
-- 
2.43.0


From 20978acf12500c12fa15d676cd9bd7e098d8c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:25 +0000
Subject: [PATCH 05/27] fix: report reader gaps exactly and before any later
 event

The reader compared time stamps only in one direction and only for some
positions of the ring, so it reported gaps that did not exist, missed real
ones, resumed in the middle of the window, and delivered events that were
being overwritten.
---
 src/reader.h | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index f2320c6..e9faab1 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -173,12 +173,16 @@ RTML_reader<B>::pull(typename B::event_t &event) {
     // use last known timestamp (delta bigger than one may help to find the
     // right timestamp)
     if (buffer.read(event_next, bottom) == buffer.OK) {
-      timestamp = event_next.getTime();
+      // both reads are intact only if the event is still there afterwards
+      decrement_reader_bottom();
 
       if (gap())
         return READER_OVERFLOW;
-      else
-        return AVAILABLE;
+
+      increment_reader_bottom();
+      timestamp = event_next.getTime();
+
+      return AVAILABLE;
     } else {
       decrement_reader_bottom();
       return READ_ERROR;
@@ -223,38 +227,24 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
          "timestamp=%lu, (bottom,top)=(%u,%u)\n",
          t < b, b < t, t == b, b, t, ts, ts_t, timestamp, bottom, top);
 
-  if (t < b) {
-    DEBUGV("1-> t < b (with overlap)\n");
-    
+  if (t != b) {
+    DEBUGV("1-> t != b\n");
+
     if (gap() == GAP) {
       DEBUGV("gap!\n");
+      // reader is out of sync
       top = t;
       bottom = b;
       timestamp = ts;
-      return GAP;
+      return GAP; // HARD_SYNC
     }
-    
+
     // update top (no gap found)
     top = t;
     return NO_GAP; // SOFT_SYNC
 
-  } else if (b < t) {
-    DEBUGV("2-> b < t (without overlap)\n");
-    if (ts < timestamp && timestamp < ts_t) {
-      // update top (no gap found)
-      top = t;
-
-      return NO_GAP; // SOFT_SYNC
-    } else {
-      // reader is out of sync
-      top = t;
-      bottom = (b < bottom && b < t) ? bottom : b;
-      timestamp = (b < bottom && b < t) ? timestamp : ts;
-
-      return GAP; // HARD_SYNC
-    }
   } else {
-    DEBUGV("3-> b == t (initial case)\n");
+    DEBUGV("2-> b == t (initial case)\n");
     /*
      * This can be triggered in the begining to syncronize the reader for
      * the first time.
@@ -277,9 +267,16 @@ template <typename B>
 typename RTML_reader<B>::gap_error_t RTML_reader<B>::gap() const {
   typename B::event_t event;
 
+  size_t b, t;
+  buffer.state(b, t);
+
+  // an event outside of the window is already lost
+  if (b != t && !(b < t ? b <= bottom && bottom < t : bottom >= b || bottom < t))
+    return GAP;
+
   // detect a gap
   if (buffer.read(event, bottom) == buffer.OK) {
-    if (timestamp < event.getTime())
+    if (timestamp != event.getTime())
       return GAP;
   } else {
     // this case should not happen
-- 
2.43.0


From fa32ecbeec77313e289a4b06569da356b2e2005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 06/27] fix: give the ring state back to the buffer when a
 writer is destroyed

The state of the last push lives in the writer that made it, so after the
writer was destroyed the buffer went on using released memory.
---
 src/atomic_compat.h | 23 ++++++++++++++++++++++-
 src/writer.h        |  7 +++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index ff327ce..a7952fe 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -49,6 +49,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_TYPE()
 #define ATOMIC_PAGE()
 #define ATOMIC_PAGE_SWAP()
+#define ATOMIC_PAGE_RELEASE()
 
 #define ATOMIC(body)                                                           \
   { body }
@@ -250,7 +251,8 @@ union page_t {
   state_t state_global = {                                                     \
       .top = 0, .bottom = 0, .pos = 0, .ready = true};                         \
   std::atomic<page_t> page =                                                   \
-      ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
+      ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global});                   \
+  std::atomic_flag state_global_lock = ATOMIC_FLAG_INIT
 
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
@@ -258,6 +260,25 @@ union page_t {
   state_t state_spare;                                                         \
   state_t *stateref = &state;
 
+/*
+ * Gives the published state back to the buffer before the writer goes away. A
+ * push of another writer does the same, so there is nothing to repeat.
+ */
+#define ATOMIC_PAGE_RELEASE()                                                  \
+  while (buffer.state_global_lock.test_and_set()) {                            \
+    YIELD();                                                                   \
+  }                                                                            \
+  page_t current_page_content = (page_t)std::atomic_load(&buffer.page);        \
+  page_t new_page_content = current_page_content;                              \
+  if (&state == (state_t *)current_page_content.stateref ||                    \
+      &state_spare == (state_t *)current_page_content.stateref) {              \
+    buffer.state_global = *(state_t *)current_page_content.stateref;           \
+    stateref = (state_t *)&buffer.state_global;                                \
+    std::atomic_compare_exchange_strong(                                       \
+        &buffer.page, &current_page_content, (update(new_page_content)));      \
+  }                                                                            \
+  buffer.state_global_lock.clear();
+
 /*
  * A push publishes its state before it stores the event; the state becomes
  * ready when the event is stored.
diff --git a/src/writer.h b/src/writer.h
index 0d70216..ca55495 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -75,6 +75,11 @@ public:
    */
   RTML_writer(B &buffer);
 
+  /**
+   * Detaches the RTML_writer from the buffer, which has to be still alive.
+   */
+  ~RTML_writer();
+
   /**
    * push an event to the Buffer.
    *
@@ -95,6 +100,8 @@ RTML_writer<B>::RTML_writer(B &_buffer) : buffer(_buffer) {
   buffer.increment_writer();
 }
 
+template <typename B> RTML_writer<B>::~RTML_writer() { ATOMIC_PAGE_RELEASE(); }
+
 template <typename B>
 typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
 
-- 
2.43.0


From a69b0bbfecfba6ec0f4e52be96470759bb63c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 07/27] fix: copy the content of a buffer, not its published
 state

The copy was bytewise, so the destination went on using the state of the
source, or of a writer of the source.
---
 src/circularbuffer.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 8defb23..e8ce0e5 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -299,7 +299,16 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
-  MEMCPY(this, &rhs, sizeof(rhs));
+  // the content only; the published state may live in a writer of rhs
+  size_t b, t;
+  rhs.state(b, t);
+
+  for (size_t idx = 0; idx < size; idx++)
+    array[idx] = rhs.array[idx];
+
+  _bottom() = b;
+  _top() = t;
+
   return *this;
 }
 
-- 
2.43.0


From 772bc50356645bc0af8e7bff9084f6d8b7f1e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 08/27] fix: initialise the task status before its thread
 starts

The status was uninitialised when the thread was created, so a task could
start without being enabled, and it was set after pthread_create, which
could undo what the new thread had done.
---
 src/task_compat.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index f21fd2c..53244b5 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -110,8 +110,8 @@ struct task {
 
   task(char const *id, void *(*loop)(void *), const int prio,
        const int sch_policy, const useconds_t p, void *payload = NULL)
-      : tid(id), period(p), sched_policy(sch_policy), priority(prio), run(loop),
-        run_payload(payload) {}
+      : tid(id), period(p), sched_policy(sch_policy), priority(prio),
+        st(UNACTIVATE), run(loop), run_payload(payload) {}
 };
 
 #endif
@@ -168,15 +168,13 @@ struct task {
 
     DEBUGV_APPEND("\n");
 
-    st = UNACTIVATE;
-
     return 0;
   }
 
   task(char const *id, void *(*loop)(void *), const int prio,
        const int sch_policy, const useconds_t p, void *payload = NULL)
-      : tid(id), period(p), sched_policy(sch_policy), priority(prio), run(loop),
-        run_payload(payload) {
+      : tid(id), period(p), sched_policy(sch_policy), priority(prio),
+        st(UNACTIVATE), run(loop), run_payload(payload) {
     create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
-- 
2.43.0


From 8adb1692cae5ae21e7f0b988d6603d5b91818e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 09/27] fix: let a task that is disabled before it started end

The loop that waits for activation ignored ABORT, so join() after
disable() of a monitor that had not started yet never returned.
---
 src/task_compat.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task_compat.h b/src/task_compat.h
index 53244b5..f7b753d 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -194,6 +194,10 @@ struct task {
               ttask->st = RUNNING;
               break;
             }
+            if (ttask->st == ABORT) {
+              ttask->st = ABORTED;
+              return NULL;
+            }
             nanosleep((const struct timespec[]){{0, 100000L}}, NULL);
           }
 
-- 
2.43.0


From cab74ecd373c8da0917d5898e8d8b3646f6384b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 10/27] fix: do not lose a disable or restart a monitor on a
 late enable

The task overwrote a concurrent ABORT with RUNNING when it was activated,
and enable() overwrote RUNNING and ABORT with ACTIVATE, so a running
monitor no longer reported itself as running and a disabled one never
ended.
---
 src/periodicmonitor.h | 7 +++++--
 src/task_compat.h     | 9 +++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 7ece78e..83b0186 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,8 +143,11 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
-  if (_task.st != ACTIVATE)
-    _task.st = ACTIVATE;
+  // only a task that is waiting can be activated; one that is running goes on,
+  // and one that was disabled stays disabled
+  status expected = UNACTIVATE;
+  __atomic_compare_exchange_n(&_task.st, &expected, ACTIVATE, false,
+                              __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
 
   return P_OK;
 }
diff --git a/src/task_compat.h b/src/task_compat.h
index f7b753d..2e9333c 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -190,11 +190,12 @@ struct task {
 
           // trap to block task start
           for (;;) {
-            if (ttask->st == ACTIVATE) {
-              ttask->st = RUNNING;
+            status expected = ACTIVATE;
+            if (__atomic_compare_exchange_n(&ttask->st, &expected, RUNNING,
+                                            false, __ATOMIC_SEQ_CST,
+                                            __ATOMIC_SEQ_CST))
               break;
-            }
-            if (ttask->st == ABORT) {
+            if (expected == ABORT) {
               ttask->st = ABORTED;
               return NULL;
             }
-- 
2.43.0


From cfe4d40a57a64cc5e6f31c227e729b867735a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:26 +0000
Subject: [PATCH 11/27] fix: wait again after a spurious wake up

pthread_cond_timedwait may return before the release time. The task then
left its loop with the mutex locked and never ran again, while it still
reported itself as running.
---
 src/task_compat.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 2e9333c..4349a4c 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -240,11 +240,17 @@ struct task {
                            ttask->tid, L(tmp.tv_sec), tmp.tv_nsec);
             }
 
+            // a wake up before the release time (P_OK) is spurious, wait again
+            int wait_result;
             pthread_mutex_lock(&ttask->fmtx);
-            pcheck_print(
-                pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next),
-                ETIMEDOUT, break;);
+            do {
+              wait_result =
+                  pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next);
+            } while (wait_result == P_OK && ttask->st != ABORT);
             pthread_mutex_unlock(&ttask->fmtx);
+            if (wait_result != P_OK)
+              pcheck_print(wait_result, ETIMEDOUT, ttask->st = ABORTED;
+                           return NULL;);
 
             if (ttask->st == ABORT) {
               ttask->st = ABORTED;
-- 
2.43.0


From b8f66e821364c9350aac51600eedadd05bc3ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:15 +0000
Subject: [PATCH 12/27] fix: evaluate the call passed to the pcheck macros once

The macros expanded their argument up to three times, so a failing
pthread_create was tried again, and the retry could create a thread that
nobody knew of.
---
 src/task_compat.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 4349a4c..23e14fe 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -70,22 +70,31 @@
 #define P_OK 0
 
 #define pcheck(val)                                                            \
-  if (val != P_OK) {                                                           \
-    DEBUGV("Error: %d\n", val);                                                \
-    return val;                                                                \
+  {                                                                            \
+    int pcheck_result = (val);                                                 \
+    if (pcheck_result != P_OK) {                                               \
+      DEBUGV("Error: %d\n", pcheck_result);                                    \
+      return pcheck_result;                                                    \
+    }                                                                          \
   }
 
 #define pcheck_print(val, checkval, extra_action)                              \
-  if (val != checkval) {                                                       \
-    DEBUGV("Error: %d\n", val);                                                \
-    extra_action                                                               \
+  {                                                                            \
+    int pcheck_result = (val);                                                 \
+    if (pcheck_result != checkval) {                                           \
+      DEBUGV("Error: %d\n", pcheck_result);                                    \
+      extra_action                                                             \
+    }                                                                          \
   }
 
 #define pcheck_attr(val, attr)                                                 \
-  if (val != P_OK) {                                                           \
-    DEBUGV("Destroying ERROR:%d\n", val);                                      \
-    pthread_attr_destroy(attr);                                                \
-    return val;                                                                \
+  {                                                                            \
+    int pcheck_result = (val);                                                 \
+    if (pcheck_result != P_OK) {                                               \
+      DEBUGV("Destroying ERROR:%d\n", pcheck_result);                          \
+      pthread_attr_destroy(attr);                                              \
+      return pcheck_result;                                                    \
+    }                                                                          \
   }
 
 enum status { ACTIVATE, UNACTIVATE, RUNNING, DELAY, ABORT, ABORTED };
-- 
2.43.0


From 2d8814c36576d8ca9de3e1de30ab4f48479b37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 13/27] fix: report that the thread of a monitor could not be
 created

The result of create_task was dropped: enable() of a monitor without a
thread succeeded, and join() used a thread handle that was never set. The
mutex and the condition variable are now made before the thread, so that
their failure is reported the same way.
---
 src/periodicmonitor.h |  7 +++++++
 src/task_compat.h     | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 83b0186..388b835 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,6 +143,10 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
+  // there is nothing to activate if the thread could not be created
+  if (_task.created != P_OK)
+    return _task.created;
+
   // only a task that is waiting can be activated; one that is running goes on,
   // and one that was disabled stays disabled
   status expected = UNACTIVATE;
@@ -175,6 +179,9 @@ void RTML_monitor<name...>::setPeriod(const useconds_t &p) {
 
 template <char... name> int RTML_monitor<name...>::join() {
   void *ret = NULL;
+  if (_task.created != P_OK)
+    return 1;
+
   if (pthread_join(_task.thread, &ret))
     return 1;
 
diff --git a/src/task_compat.h b/src/task_compat.h
index 23e14fe..0cf338f 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -149,6 +149,9 @@ struct task {
 
   void *run_payload;
 
+  /** P_OK if the thread of the task exists, an error number otherwise. */
+  int created;
+
   int create_task(void *(*loop)(void *), const int pri, const int s_policy,
                   int stack_size = STACK_SIZE) {
     pthread_attr_t attribute = {0};
@@ -158,6 +161,10 @@ struct task {
            "sizeof(pthread_cond_t)=%d ",
            tid, sizeof(pthread_mutex_t), sizeof(pthread_cond_t));
 
+    // Mutex and conditional variables for pthread_cond_timedwait
+    pcheck(pthread_mutex_init(&fmtx, NULL));
+    pcheck(pthread_cond_init(&cond, NULL));
+
     pcheck(pthread_attr_init(&attribute));
 
     pcheck_attr(pthread_attr_setschedpolicy(&attribute, sched_policy),
@@ -173,7 +180,8 @@ struct task {
 
     pcheck_attr(pthread_create(&thread, &attribute, loop, this), &attribute);
 
-    pcheck(pthread_attr_destroy(&attribute));
+    // the thread exists, whatever this returns
+    pthread_attr_destroy(&attribute);
 
     DEBUGV_APPEND("\n");
 
@@ -184,19 +192,13 @@ struct task {
        const int sch_policy, const useconds_t p, void *payload = NULL)
       : tid(id), period(p), sched_policy(sch_policy), priority(prio),
         st(UNACTIVATE), run(loop), run_payload(payload) {
-    create_task(
+    created = create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
           struct timespec now = {0}, next = {0}, tmp = {0};
 
           DEBUGV("#Task(%s) is waiting ...\n", ttask->tid);
 
-          // Mutex and conditional variables for pthread_cond_timedwait
-          pcheck_print(pthread_mutex_init(&ttask->fmtx, NULL), P_OK,
-                       return NULL;);
-          pcheck_print(pthread_cond_init(&ttask->cond, NULL), P_OK,
-                       return NULL;);
-
           // trap to block task start
           for (;;) {
             status expected = ACTIVATE;
-- 
2.43.0


From a2124db4bbea26b31cb085af3fcd1088b69905fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:33 +0000
Subject: [PATCH 14/27] fix: read the previous event across the wrap-around of
 the ring

cursor is unsigned, so (cursor - 1) < 0 never held and the event before
slot 0 was not found.
---
 src/rmtld3/reader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 876dc9c..831925f 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -251,8 +251,8 @@ RMTLD3_reader<R, P>::read_previous(typename R::buffer_t::event_t &e) {
                 R::length());
   return ((consumed() > 0 &&
            cursor != R::bottom && // [TODO: check this: !(cursor == R::bottom)]
-           (R::buffer.read(e, ((cursor - 1) < 0) ? R::buffer.size - 1
-                                                 : cursor - 1)) ==
+           (R::buffer.read(e, (cursor == 0) ? R::buffer.size - 1
+                                             : cursor - 1)) ==
                R::buffer.OK))
              ? R::AVAILABLE
              : R::UNAVAILABLE;
-- 
2.43.0


From df6b4978375776771a24672e334e8e0257ad7910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:56 +0000
Subject: [PATCH 15/27] fix: set the cursor to the event that is active at the
 time

Searching backwards, set() stopped one event after the active one, and
from the position after the last event it compared with an event that is
not part of the trace. The in-between evaluation of until compensated for
the former, which was wrong when set() had searched forwards.
---
 src/rmtld3/formulas.h | 1 -
 src/rmtld3/reader.h   | 6 ++++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 66dde65..6f928ad 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -141,7 +141,6 @@ three_valued_type until_less(T &trace, timespan &t) {
 
           size_t store_cursor2 = trace.get_cursor();
           trace.set(t3);
-          trace.decrement_cursor();
           symbol = eval_b(trace, t3, symbol);
           trace.set_cursor(store_cursor2);
         };
diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 831925f..7bb662e 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -127,11 +127,17 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
 
   typename R::buffer_t::event_t e, ee;
 
+  // there is no event at the position after the last one
+  if (length() == 0)
+    decrement_cursor();
+
   while (read_previous(e) == R::AVAILABLE && read(ee) == R::AVAILABLE) {
 
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
     if (e.getTime() <= t && t < ee.getTime()) {
+      // the previous event is the one that is active at t
+      decrement_cursor();
       return R::AVAILABLE;
     }
 
-- 
2.43.0


From 21dfbd21f2ef5143ce0ceb9f3fd922f3605c6141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 16/27] fix: make the truth value macros usable inside other
 expressions

Their expansions and arguments were not parenthesised, so that, say,
b3_not(b3_or(x, y)) had the wrong value.
---
 src/rmtld3/rmtld3.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/rmtld3/rmtld3.h b/src/rmtld3/rmtld3.h
index 340175c..e876f40 100644
--- a/src/rmtld3/rmtld3.h
+++ b/src/rmtld3/rmtld3.h
@@ -45,32 +45,33 @@ inline duration mult_dur(const duration &lhs, const duration &rhs) {
 
 // type conversion from three_valued_type to four_valued_type
 #define b3_to_b4(b3)                                                           \
-  (b3 == T_TRUE) ? FV_TRUE : ((b3 == T_FALSE) ? FV_FALSE : FV_UNKNOWN)
+  (((b3) == T_TRUE) ? FV_TRUE : (((b3) == T_FALSE) ? FV_FALSE : FV_UNKNOWN))
 
 // convert four_valued_type into three_valued type
 #define b4_to_b3(b4)                                                           \
-  (b4 == FV_TRUE) ? T_TRUE : ((b4 == FV_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b4) == FV_TRUE) ? T_TRUE : (((b4) == FV_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** OR */
 #define b3_or(b31, b32)                                                        \
-  (b31 == T_TRUE || b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE && b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE || (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE && (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** AND */
 #define b3_and(b31, b32)                                                       \
-  (b31 == T_TRUE && b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE || b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE && (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE || (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** NOT */
 #define b3_not(b3)                                                             \
-  ((b3 == T_TRUE) ? T_FALSE : ((b3 == T_FALSE) ? T_TRUE : T_UNKNOWN))
+  (((b3) == T_TRUE) ? T_FALSE : (((b3) == T_FALSE) ? T_TRUE : T_UNKNOWN))
 
 /** Relation operator < */
 #define b3_lessthan(n1, n2)                                                    \
-  ((n1.second || n2.second) ? T_UNKNOWN                                        \
-                            : ((n1.first < n2.first) ? T_TRUE : T_FALSE))
+  (((n1).second || (n2).second)                                                \
+       ? T_UNKNOWN                                                             \
+       : (((n1).first < (n2).first) ? T_TRUE : T_FALSE))
 
 #define ASSERT_RMTLD3(l) assert(l)
 
-- 
2.43.0


From c59aab52ebc9d169f1f83bc151c5f5bbdb345071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:59 +0000
Subject: [PATCH 17/27] fix: since is unknown when the trace does not reach
 back far enough

A since whose window the trace does not cover was reported as false,
and one that was decided as false by a window without events at its
beginning as unknown. As for until, the verdict is only conclusive when
the trace covers the whole window.
---
 src/rmtld3/formulas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 6f928ad..1b30742 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -385,7 +385,7 @@ three_valued_type since_less(T &trace, timespan &t) {
                              // of the subformula
 
   return (eval_c.first == FV_SYMBOL)
-             ? ((eval_c.second < t - b) ? T_UNKNOWN : T_FALSE)
+             ? ((eval_c.second + b > t) ? T_UNKNOWN : T_FALSE)
              : b4_to_b3(eval_c.first);
 }
 
-- 
2.43.0


From 396ed7c878d0860590b2ef21195ba987a79571a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 18/27] fix: evaluate past-eventually(=) at the event active at
 t - b

The loop stopped before that event was evaluated, so the verdict was the
one of the event after it.
---
 src/rmtld3/formulas.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 1b30742..4ce486e 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -411,9 +411,6 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
     if (c_time == t) /* since semantics is strict and non-matching */
       continue;
 
-    if (t>=b && c_time <= t - b)
-      break;
-
     size_t c = trace.get_cursor();
     DEBUGV_RMTLD3("$compute phi\n");
     symbol = E::eval_phi1(trace, c_time);
@@ -422,6 +419,9 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
         c); // reset the cursor changes during the evaluation of the subformula
 
     trace.debug();
+
+    if (c_time + b <= t) /* this event is the one that is active at t - b */
+      break;
   } while (trace.decrement_cursor() == trace.AVAILABLE &&
            trace.read(event) == trace.AVAILABLE);
 
-- 
2.43.0


From fa87b3ff863cbda9526002fc83e574d66b7e5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 19/27] fix: eventually(=) is unknown while the trace may still
 change it

The last event of the trace is not known to be the one that is active at
t + b, so a formula that is decided there can still change its value.
---
 src/rmtld3/formulas.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 4ce486e..987de15 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -209,7 +209,8 @@ three_valued_type eventually_equal(T &trace, timespan &t) {
   trace.set_cursor(c_eventually); // reset the cursor changes during the
                                   // evaluation of the subformula
 
-  return symbol;
+  // a later event may still become the active one at t + b
+  return (c_time > b + t) ? symbol : T_UNKNOWN;
 }
 
 /**
-- 
2.43.0


From 815b6ab31dfc0e76e2f64efe0d6c407b391784ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:33 +0000
Subject: [PATCH 20/27] fix: unbounded eventually is never false

The trace always goes on, so a formula that did not hold so far may still
hold later.
---
 src/rmtld3/formulas.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 987de15..39b5714 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -245,8 +245,11 @@ three_valued_type eventually_less_unbounded(T &trace, timespan &t) {
     if (symbol != T_FALSE)
       break;
 
-    if (trace.pull(event) != trace.AVAILABLE)
+    if (trace.pull(event) != trace.AVAILABLE) {
+      // a later event may still satisfy the formula
+      symbol = T_UNKNOWN;
       break;
+    }
   };
 
   trace.set_cursor(c_eventually); // reset the cursor changes during the
-- 
2.43.0


From 424d13e427932aad2af9073a07b04232a4767bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 21/27] fix: check in-between only the times up to the next
 event

The times were compared with an event further away, so the formulas were
evaluated at later events first and even beyond t + b.
---
 src/rmtld3/formulas.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 39b5714..9ff0b60 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -121,7 +121,7 @@ three_valued_type until_less(T &trace, timespan &t) {
       constexpr const int v = std::is_void<S>::value;
       if (v == false) {
         size_t store_cursor = trace.get_cursor();
-        timespan t1, t2, t3 = c_time;
+        timespan t1, t2, t3 = c_time, t_next = c_time;
         typename T::buffer_t::event_t e1, e2;
         while (true) {
           trace.increment_cursor();
@@ -134,7 +134,12 @@ three_valued_type until_less(T &trace, timespan &t) {
           t2 = e2.getTime();
           t3 += (t2 - t1);
 
-          if (t3 >= t1)
+          // the first one is the event that follows c_time
+          if (t_next == c_time)
+            t_next = t1;
+
+          // only the times before the next event and before t + b
+          if (t3 >= t_next || t3 >= b + t)
             break;
 
           DEBUGV_RMTLD3("t1=%d t2=%d t3=%d\n", t1, t2, t3);
-- 
2.43.0


From b305fce95d5fa84745b109d29bfb439595c92d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 22/27] fix: count in the duration only what lies in the window

A window that started and ended between the same two events was counted
up to the second event and beyond, and the trace was read past the end.
---
 src/rmtld3/terms.h | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 9991fc8..808f607 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -56,30 +56,21 @@ duration duration_term(T &trace, timespan &t) {
     trace.read(event);
     auto c_time = event.getTime();
 
-    // find lower condition
-    if (c_time_prev <= t && t < c_time) {
-      acc.first = (c_time - t) * symbol.first;
-      acc.second = symbol.second;
+    // the part of the interval that lies in the window
+    if (t < c_time) {
+      auto lower = (c_time_prev < t) ? t : c_time_prev;
+      auto upper = (t + t_upper < c_time) ? t + t_upper : c_time;
 
-      DEBUGV_RMTLD3("dur lower(%ld)\n", c_time_prev);
-    }
-    // find upper condition
-    else if (c_time_prev <= t + t_upper && t + t_upper < c_time) {
-      acc.first += (t + t_upper - c_time_prev) * symbol.first;
+      acc.first += (upper - lower) * symbol.first;
       acc.second |= symbol.second;
 
-      DEBUGV_RMTLD3("dur upper(%ld)\n", c_time);
-
       DEBUGV_RMTLD3("duration=%ld unknown=%d (%d,%d)\n", acc.first, acc.second,
                     c_time_prev, c_time);
-      break;
     }
-    // in between
-    else {
 
-      acc.first += (c_time - c_time_prev) * symbol.first;
-      acc.second |= symbol.second;
-    }
+    // end of the window
+    if (t + t_upper < c_time)
+      break;
 
     symbol = indicator_function(trace, c_time);
 
-- 
2.43.0


From e4754a6542d24ae108baea7c383935ad0e870a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:21 +0000
Subject: [PATCH 23/27] fix: see the gap when a buffer of one event is being
 overwritten

---
 src/reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.h b/src/reader.h
index e9faab1..5b0c18b 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -271,7 +271,7 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::gap() const {
   buffer.state(b, t);
 
   // an event outside of the window is already lost
-  if (b != t && !(b < t ? b <= bottom && bottom < t : bottom >= b || bottom < t))
+  if (b <= t ? bottom < b || bottom >= t : bottom < b && bottom >= t)
     return GAP;
 
   // detect a gap
-- 
2.43.0


From 4bb52850878055db280ff188e350fd057a5167b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:34 +0000
Subject: [PATCH 24/27] fix: read the period only once for each release

---
 src/task_compat.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 0cf338f..af673b7 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -229,8 +229,11 @@ struct task {
 
             DEBUGV3_APPEND("period=%luus ", ttask->period);
 
-            // convert useconds_t to struct timespec
-            useconds_t2timespec(&ttask->period, &tmp);
+            // convert useconds_t to struct timespec; the period may be changed
+            // meanwhile, so it is read only once
+            const useconds_t period =
+                __atomic_load_n(&ttask->period, __ATOMIC_RELAXED);
+            useconds_t2timespec(&period, &tmp);
 
             DEBUGV3_APPEND("period=%lus.%luns ", L(tmp.tv_sec), tmp.tv_nsec);
             DEBUGV3_APPEND("old_next=%lus.%luns ", L(next.tv_sec),
-- 
2.43.0


From e1f82ac55545451e02531a00ae0172c2188f7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 25/27] fix: count writers that are attached concurrently, and
 more than 255

---
 src/circularbuffer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index e8ce0e5..27c3665 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -167,7 +167,13 @@ public:
    * Increment writer counter
    */
   void increment_writer() {
-    writer++;
+    // writers may be attached concurrently; stay at the maximum
+    uint8_t count = __atomic_load_n(&writer, __ATOMIC_RELAXED);
+    while (count < UINT8_MAX &&
+           !__atomic_compare_exchange_n(&writer, &count, (uint8_t)(count + 1),
+                                        false, __ATOMIC_SEQ_CST,
+                                        __ATOMIC_RELAXED))
+      ;
   }
 };
 
-- 
2.43.0


From f7a5cb9cbb37fa521e0389a04eb71a3f74341940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:50 +0000
Subject: [PATCH 26/27] fix: ARM NuttX: the timer is read within one
 millisecond of the system's count

---
 src/time_compat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/time_compat.h b/src/time_compat.h
index 71d8559..d2ba5b4 100644
--- a/src/time_compat.h
+++ b/src/time_compat.h
@@ -130,8 +130,12 @@ typedef uint32_t timespan;
 
 #define clockgettime()                                                         \
   ({                                                                           \
-    timespan ns = SysTick->VAL;                                                \
-    uint64_t ms = g_system_timer;                                              \
+    timespan ns;                                                               \
+    uint64_t ms;                                                               \
+    do {                                                                       \
+      ms = g_system_timer;                                                     \
+      ns = SysTick->VAL;                                                       \
+    } while (ms != g_system_timer);                                            \
     (ms * 1000000) + ((1000000. / SysTick->LOAD) * (SysTick->LOAD - ns));      \
   })
 
-- 
2.43.0


From f8a1a0da6bb97a1e01d75e9df63e68699c896b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:10 +0000
Subject: [PATCH 27/27] fix: ARM NuttX: a time does not leave the range of a
 time span on its way through a double

---
 src/time_compat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time_compat.h b/src/time_compat.h
index d2ba5b4..010510f 100644
--- a/src/time_compat.h
+++ b/src/time_compat.h
@@ -136,7 +136,8 @@ typedef uint32_t timespan;
       ms = g_system_timer;                                                     \
       ns = SysTick->VAL;                                                       \
     } while (ms != g_system_timer);                                            \
-    (ms * 1000000) + ((1000000. / SysTick->LOAD) * (SysTick->LOAD - ns));      \
+    (ms * 1000000) +                                                           \
+        (uint64_t)((1000000. / SysTick->LOAD) * (SysTick->LOAD - ns));         \
   })
 
 #elif defined(__FREERTOS__)
-- 
2.43.0

