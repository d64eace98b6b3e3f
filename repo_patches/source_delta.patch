From fcdbdd206c18c0209599ec2d142cafe8fdb796eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 01/23] fix: keep RTML_buffer::debug inside the array

The loop printed size + 2 = N + 3 slots of an array of N + 2.
---
 src/circularbuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 636de15..39d0257 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -284,7 +284,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
   DEBUGV3("[CONTENT]\n");
   DEBUGV3("----------\n");
-  for (unsigned int idx = 0; idx < size + 2; idx++) {
+  for (unsigned int idx = 0; idx < size; idx++) {
     if (idx % 2 == 0)
       DEBUGV3_APPEND("\n");
     array[idx].debug();
-- 
2.43.0


From 3e5dca258ba4b6a9aabdb897a0e53dbb381ed38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 02/23] fix: make the copy made by RTML_buffer::operator= own
 its state

The copied page still referenced the state of the source buffer (or of one
of its writers), so both buffers shared top and bottom from then on.
---
 src/atomic_compat.h  | 10 ++++++++++
 src/circularbuffer.h |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5d6797c..82ac10a 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -48,6 +48,7 @@ typedef unsigned int uint32_t;
  */
 #define ATOMIC_TYPE()
 #define ATOMIC_PAGE()
+#define ATOMIC_PAGE_OWN()
 #define ATOMIC_PAGE_SWAP()
 
 #define ATOMIC(body)                                                           \
@@ -228,6 +229,15 @@ union page_t {
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
+// take over the content of the current state into the state of the buffer
+#define ATOMIC_PAGE_OWN()                                                      \
+  {                                                                            \
+    page_t p = (page_t)std::atomic_load(&page);                                \
+    state_global = *((state_t *)p.stateref);                                   \
+    p.stateref = (NATIVE_POINTER_TYPE)&state_global;                           \
+    std::atomic_store(&page, p);                                               \
+  }
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 39d0257..ee2374d 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -297,6 +297,8 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
   MEMCPY(this, &rhs, sizeof(rhs));
+  // do not share the state of rhs
+  ATOMIC_PAGE_OWN();
   return *this;
 }
 
-- 
2.43.0


From 42b9b3b0a4c7f43fda2e2d4da465cb3f5f484986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 03/23] fix: read the buffer state as one snapshot

state() and length() could combine a bottom and a top of different pushes
when a writer reused the state record between the two reads.
---
 src/atomic_compat.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 82ac10a..5bde237 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -218,10 +218,17 @@ union page_t {
   ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->bottom
 #define _top() ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->top
 
+/* a writer may reuse the state while it is being read; read it again then */
 #define ATOMIC_TRIPLE(b, t)                                                    \
-  state_t *s = ((state_t *)(((page_t)std::atomic_load(&page)).stateref));      \
-  b = s->bottom;                                                               \
-  t = s->top;
+  page_t before, after = (page_t)std::atomic_load(&page);                      \
+  do {                                                                         \
+    before = after;                                                            \
+    state_t *s = (state_t *)before.stateref;                                   \
+    b = s->bottom;                                                             \
+    t = s->top;                                                                \
+    std::atomic_thread_fence(std::memory_order_acquire);                       \
+    after = (page_t)std::atomic_load(&page);                                   \
+  } while (before.wide_uniqueid != after.wide_uniqueid);
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
-- 
2.43.0


From 426e6fc9547d5c388f29f2f874d1169cff41f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 04/23] fix: give each writer two states of its own

Writers whose own state was current all prepared their next state in the
state of the buffer; a writer that had lost the race kept changing it after
another one had published it (lost and duplicated events, wrong length). A
writer waiting for the last push to complete also kept watching a state that
was no longer current, and never returned when it had been reused.
---
 src/atomic_compat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5bde237..a023959 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -248,6 +248,7 @@ union page_t {
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
+  state_t state_swap;                                                          \
   state_t *stateref = &state;
 
 #define ATOMIC_PUSH(body)                                                      \
@@ -261,11 +262,11 @@ union page_t {
       fail = false;                                                            \
     }                                                                          \
                                                                                \
+  /* give a chance to complete the last push if it is not ready yet */         \
+  complete:                                                                    \
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-  /* give a chance to complete the last push if it is not ready yet */         \
-  complete:                                                                    \
     buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
     DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
     if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
@@ -275,8 +276,10 @@ union page_t {
     }                                                                          \
                                                                                \
     if (&state == (state_t *)current_page_content.stateref) {                  \
-      /* current state is in use; use buffer state */                          \
-      stateref = (state_t *)&buffer.state_global;                              \
+      /* current state is in use; use the other state of this writer, since    \
+       * a state shared with the other writers could become the current one    \
+       * while it is being changed */                                          \
+      stateref = (state_t *)&state_swap;                                       \
     } else {                                                                   \
       /* use current state */                                                  \
       stateref = (state_t *)&state;                                            \
-- 
2.43.0


From 0efed27ae069318bc69605353ea058adc463a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:27 +0000
Subject: [PATCH 05/23] fix: a destroyed writer leaves its state in the buffer

The buffer kept using the top and bottom inside the last writer after that
writer was gone (as with the local writers of the monitor tests).
---
 src/atomic_compat.h | 15 +++++++++++++++
 src/writer.h        |  7 +++++++
 2 files changed, 22 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index a023959..e9bf357 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -50,6 +50,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_PAGE()
 #define ATOMIC_PAGE_OWN()
 #define ATOMIC_PAGE_SWAP()
+#define ATOMIC_PAGE_RELEASE()
 
 #define ATOMIC(body)                                                           \
   { body }
@@ -251,6 +252,20 @@ union page_t {
   state_t state_swap;                                                          \
   state_t *stateref = &state;
 
+// leave the current state in the buffer if it is one of this writer
+#define ATOMIC_PAGE_RELEASE()                                                  \
+  {                                                                            \
+    page_t current = (page_t)std::atomic_load(&buffer.page);                   \
+    page_t released = current;                                                 \
+    if (&state == (state_t *)current.stateref ||                               \
+        &state_swap == (state_t *)current.stateref) {                          \
+      buffer.state_global = *((state_t *)current.stateref);                    \
+      stateref = (state_t *)&buffer.state_global;                              \
+      std::atomic_compare_exchange_strong(&buffer.page, &current,              \
+                                          (update(released)));                 \
+    }                                                                          \
+  }
+
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
   page_t current_page_content, new_page_content;                               \
diff --git a/src/writer.h b/src/writer.h
index 3ad6ffa..1c0c589 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -75,6 +75,11 @@ public:
    */
   RTML_writer(B &buffer);
 
+  /**
+   * Leaves the state of the buffer in the buffer.
+   */
+  ~RTML_writer();
+
   /**
    * push an event to the Buffer.
    *
@@ -95,6 +100,8 @@ RTML_writer<B>::RTML_writer(B &_buffer) : buffer(_buffer) {
   buffer.increment_writer();
 }
 
+template <typename B> RTML_writer<B>::~RTML_writer() { ATOMIC_PAGE_RELEASE(); }
+
 template <typename B>
 typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
 
-- 
2.43.0


From 7e12ffc36423d60bcf290e9366f13bfb039ac00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 06/23] fix: detect reader gaps exactly

The reader compared its timestamp with slots that may not have been written
yet, reported gaps although nothing was lost (the simplemonitor example
aborted on it), missed laps when the bottom of the buffer was at slot 0, and
took timestamps of events still being written, which made pull deliver events
twice. The reader now remembers the event before its bottom, whose slot is
overwritten exactly when the event at its bottom is discarded; pull leaves the
reader unchanged on overflow.
---
 src/atomic_compat.h |   3 ++
 src/reader.h        | 129 ++++++++++++++++++--------------------------
 2 files changed, 54 insertions(+), 78 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index e9bf357..bd4755d 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -51,6 +51,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_PAGE_OWN()
 #define ATOMIC_PAGE_SWAP()
 #define ATOMIC_PAGE_RELEASE()
+#define ATOMIC_FENCE()
 
 #define ATOMIC(body)                                                           \
   { body }
@@ -266,6 +267,8 @@ union page_t {
     }                                                                          \
   }
 
+#define ATOMIC_FENCE() std::atomic_thread_fence(std::memory_order_acquire)
+
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
   page_t current_page_content, new_page_content;                               \
diff --git a/src/reader.h b/src/reader.h
index f2320c6..77d8097 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -49,7 +49,8 @@ protected:
   size_t bottom;
 
   /**
-   * The timestamp of the reader to detect gaps
+   * The timestamp of the reader to detect gaps; it is the timestamp of the slot
+   * before the bottom when the bottom has been set
    */
   timespanw timestamp;
 
@@ -84,6 +85,15 @@ protected:
     return bottom;
   };
 
+  /**
+   * Timestamp of the slot before the bottom of the reader
+   */
+  timespanw previous_timestamp() const {
+    typename B::event_t event;
+    buffer.read(event, bottom == 0 ? buffer.size - 1 : bottom - 1);
+    return event.getTime();
+  };
+
 public:
   typedef B buffer_t;
 
@@ -157,32 +167,28 @@ template <typename B>
 typename RTML_reader<B>::error_t
 RTML_reader<B>::pull(typename B::event_t &event) {
 
-  typename B::event_t event_next;
   const int delta = 1;
 
+  // the newest event is held back since its writer may not have stored it yet
   if (length() > delta) {
     // read in an atomic way
     if (buffer.read(event, bottom) != buffer.OK)
       return READ_ERROR;
 
+    ATOMIC_FENCE();
+
+    // the event could be overwritten before or during the read
+    if (gap())
+      return READER_OVERFLOW;
+
     // update local bottom
     increment_reader_bottom();
 
     DEBUGV3("pull-> length=%lu bottom=%lu top=%lu\n", length(), bottom, top);
 
-    // use last known timestamp (delta bigger than one may help to find the
-    // right timestamp)
-    if (buffer.read(event_next, bottom) == buffer.OK) {
-      timestamp = event_next.getTime();
-
-      if (gap())
-        return READER_OVERFLOW;
-      else
-        return AVAILABLE;
-    } else {
-      decrement_reader_bottom();
-      return READ_ERROR;
-    }
+    timestamp = event.getTime();
+
+    return AVAILABLE;
   }
 
   return UNAVAILABLE;
@@ -215,77 +221,44 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
    * overwritten without being read is identified as a gap for the reader.
    */
 
-  size_t b, t;
-  timespanw ts, ts_t;
-  buffer.state(b, t, ts, ts_t);
-
-  DEBUGV("sync: if_branch=(%d, %d, %d), (b,t)=(%u,%u) ts=%lu, ts_t=%lu, "
-         "timestamp=%lu, (bottom,top)=(%u,%u)\n",
-         t < b, b < t, t == b, b, t, ts, ts_t, timestamp, bottom, top);
-
-  if (t < b) {
-    DEBUGV("1-> t < b (with overlap)\n");
-    
-    if (gap() == GAP) {
-      DEBUGV("gap!\n");
-      top = t;
-      bottom = b;
-      timestamp = ts;
-      return GAP;
-    }
-    
+  size_t b, t, b_now;
+  buffer.state(b, t);
+
+  DEBUGV("sync: (b,t)=(%lu,%lu) timestamp=%lld, (bottom,top)=(%lu,%lu)\n", b, t,
+         (long long)timestamp, bottom, top);
+
+  if (gap() == NO_GAP) {
     // update top (no gap found)
     top = t;
     return NO_GAP; // SOFT_SYNC
-
-  } else if (b < t) {
-    DEBUGV("2-> b < t (without overlap)\n");
-    if (ts < timestamp && timestamp < ts_t) {
-      // update top (no gap found)
-      top = t;
-
-      return NO_GAP; // SOFT_SYNC
-    } else {
-      // reader is out of sync
-      top = t;
-      bottom = (b < bottom && b < t) ? bottom : b;
-      timestamp = (b < bottom && b < t) ? timestamp : ts;
-
-      return GAP; // HARD_SYNC
-    }
-  } else {
-    DEBUGV("3-> b == t (initial case)\n");
-    /*
-     * This can be triggered in the begining to syncronize the reader for
-     * the first time.
-     */
-    if (top == 0 && bottom == 0) {
-      top = t;
-      bottom = b;
-      timestamp = ts;
-
-      return GAP; // INIT SYNC
-    } else {
-      // this case should not happen anymore
-      DEBUGV_ERROR("## unknown gap ## t == b && !(top == 0 && bottom == 0)\n");
-      return UNKNOWN_GAP;
-    }
   }
+
+  DEBUGV("gap!\n");
+
+  // reader is out of sync; restart from the oldest event of the buffer
+  buffer.state(b_now, t);
+  do {
+    b = b_now;
+    bottom = b;
+    timestamp = previous_timestamp();
+    ATOMIC_FENCE();
+    buffer.state(b_now, t);
+  } while (b != b_now);
+
+  top = t;
+
+  return GAP; // HARD_SYNC
 }
 
 template <typename B>
 typename RTML_reader<B>::gap_error_t RTML_reader<B>::gap() const {
-  typename B::event_t event;
-
-  // detect a gap
-  if (buffer.read(event, bottom) == buffer.OK) {
-    if (timestamp < event.getTime())
-      return GAP;
-  } else {
-    // this case should not happen
-    DEBUGV("## unknown gap ## buffer read!\n");
-    return UNKNOWN_GAP;
-  }
+
+  /*
+   * The slot before the bottom keeps the last event that has been read (or
+   * skipped) until the event at the bottom is discarded by the next push.
+   */
+  if (previous_timestamp() != timestamp)
+    return GAP;
 
   return NO_GAP;
 }
-- 
2.43.0


From 2461ba30f1ac444d327b8cf3f6d3c71ad562a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 07/23] fix: read the previous event across the start of the
 ring

cursor - 1 is never negative, so at slot 0 the previous event was reported
unavailable and set() could not seek backwards over the wraparound.
---
 src/rmtld3/reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 876dc9c..1492f13 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -251,7 +251,7 @@ RMTLD3_reader<R, P>::read_previous(typename R::buffer_t::event_t &e) {
                 R::length());
   return ((consumed() > 0 &&
            cursor != R::bottom && // [TODO: check this: !(cursor == R::bottom)]
-           (R::buffer.read(e, ((cursor - 1) < 0) ? R::buffer.size - 1
+           (R::buffer.read(e, (cursor == 0) ? R::buffer.size - 1
                                                  : cursor - 1)) ==
                R::buffer.OK))
              ? R::AVAILABLE
-- 
2.43.0


From db1d9f7a7142046cbe04564964cff959e5d0687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 08/23] fix: leave the cursor on the event at t after a
 backward set

Seeking backwards stopped one event after the one in force at t, where no
formula can be evaluated at t; until_less compensated for it.
---
 src/rmtld3/formulas.h | 1 -
 src/rmtld3/reader.h   | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 66dde65..6f928ad 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -141,7 +141,6 @@ three_valued_type until_less(T &trace, timespan &t) {
 
           size_t store_cursor2 = trace.get_cursor();
           trace.set(t3);
-          trace.decrement_cursor();
           symbol = eval_b(trace, t3, symbol);
           trace.set_cursor(store_cursor2);
         };
diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 1492f13..a3a95e8 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -132,6 +132,7 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
     if (e.getTime() <= t && t < ee.getTime()) {
+      decrement_cursor();
       return R::AVAILABLE;
     }
 
-- 
2.43.0


From e6fd5329f640dce70268fba91c191cd97aa476d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 09/23] fix: since_less is unknown until its window is covered,
 not afterwards

Without a witness it answered false while events of the window could still be
missing and unknown once an event before the window had been seen.
---
 src/rmtld3/formulas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 6f928ad..1b30742 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -385,7 +385,7 @@ three_valued_type since_less(T &trace, timespan &t) {
                              // of the subformula
 
   return (eval_c.first == FV_SYMBOL)
-             ? ((eval_c.second < t - b) ? T_UNKNOWN : T_FALSE)
+             ? ((eval_c.second + b > t) ? T_UNKNOWN : T_FALSE)
              : b4_to_b3(eval_c.first);
 }
 
-- 
2.43.0


From 00020a9dd3fa868caeef7bba6290bf977c2fff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 10/23] fix: clip duration_term to its window

A window that ends inside the interval where it starts was extended to the end
of that interval, and an interval outside the window could be counted.
---
 src/rmtld3/terms.h | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 9991fc8..e9302b7 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -56,30 +56,23 @@ duration duration_term(T &trace, timespan &t) {
     trace.read(event);
     auto c_time = event.getTime();
 
-    // find lower condition
-    if (c_time_prev <= t && t < c_time) {
-      acc.first = (c_time - t) * symbol.first;
-      acc.second = symbol.second;
+    // part of the interval that lies inside the window
+    timespan lower = (c_time_prev < t) ? t : c_time_prev;
+    timespan upper = (t + t_upper < c_time) ? t + t_upper : c_time;
 
-      DEBUGV_RMTLD3("dur lower(%ld)\n", c_time_prev);
-    }
-    // find upper condition
-    else if (c_time_prev <= t + t_upper && t + t_upper < c_time) {
-      acc.first += (t + t_upper - c_time_prev) * symbol.first;
+    if (lower < upper) {
+      acc.first += (upper - lower) * symbol.first;
       acc.second |= symbol.second;
+    }
 
+    // find upper condition
+    if (t + t_upper < c_time) {
       DEBUGV_RMTLD3("dur upper(%ld)\n", c_time);
 
       DEBUGV_RMTLD3("duration=%ld unknown=%d (%d,%d)\n", acc.first, acc.second,
                     c_time_prev, c_time);
       break;
     }
-    // in between
-    else {
-
-      acc.first += (c_time - c_time_prev) * symbol.first;
-      acc.second |= symbol.second;
-    }
 
     symbol = indicator_function(trace, c_time);
 
-- 
2.43.0


From 70db62a082659a314eb1a53baf35a0d9cc82e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 11/23] fix: eventually_equal and eventually_less_unbounded are
 unknown at the trace end

They returned a definite verdict when the trace ended before the point or
witness in question, which a later event could then change.
---
 src/rmtld3/formulas.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 1b30742..5513a26 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -206,6 +206,10 @@ three_valued_type eventually_equal(T &trace, timespan &t) {
     trace.debug();
   } while (trace.pull(event) == trace.AVAILABLE);
 
+  // the event at t + b is only known once a later one is available
+  if (c_time <= b + t)
+    symbol = T_UNKNOWN;
+
   trace.set_cursor(c_eventually); // reset the cursor changes during the
                                   // evaluation of the subformula
 
@@ -244,8 +248,10 @@ three_valued_type eventually_less_unbounded(T &trace, timespan &t) {
     if (symbol != T_FALSE)
       break;
 
-    if (trace.pull(event) != trace.AVAILABLE)
+    if (trace.pull(event) != trace.AVAILABLE) {
+      symbol = T_UNKNOWN; // a later event may still satisfy phi
       break;
+    }
   };
 
   trace.set_cursor(c_eventually); // reset the cursor changes during the
-- 
2.43.0


From 11c1a2a84640deba43818f03e9b57eb1ee259b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 12/23] fix: keep in-between points of until_less between two
 events

The extra points could lie after the next events or after the bound, so that
they were evaluated out of order or although outside of the window.
---
 src/rmtld3/formulas.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 5513a26..ef212ff 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -123,7 +123,9 @@ three_valued_type until_less(T &trace, timespan &t) {
         size_t store_cursor = trace.get_cursor();
         timespan t1, t2, t3 = c_time;
         typename T::buffer_t::event_t e1, e2;
-        while (true) {
+        bool in_next = trace.read_next(e1) == trace.AVAILABLE;
+        timespan t_next = e1.getTime();
+        while (in_next) {
           trace.increment_cursor();
           if (trace.length() <= 1 || trace.read(e1) != trace.AVAILABLE ||
               trace.read_next(e2) != trace.AVAILABLE) {
@@ -134,7 +136,8 @@ three_valued_type until_less(T &trace, timespan &t) {
           t2 = e2.getTime();
           t3 += (t2 - t1);
 
-          if (t3 >= t1)
+          // points after the next event or the bound are not in between
+          if (t3 >= t_next || t3 >= b + t)
             break;
 
           DEBUGV_RMTLD3("t1=%d t2=%d t3=%d\n", t1, t2, t3);
-- 
2.43.0


From 6980bfd1298e994a00573212ee6f6eaf1ba0fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 13/23] fix: parenthesise the three-valued connectives

Used inside another connective or expression, b3_or, b3_and and the
conversions were parsed with the surrounding operators: b3_not(b3_or(T_TRUE,
T_FALSE)) gave T_TRUE.
---
 src/rmtld3/rmtld3.h | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/rmtld3/rmtld3.h b/src/rmtld3/rmtld3.h
index 340175c..100cde6 100644
--- a/src/rmtld3/rmtld3.h
+++ b/src/rmtld3/rmtld3.h
@@ -33,7 +33,7 @@ typedef std::pair<timeabs, bool> duration;
 enum three_valued_type { T_TRUE, T_FALSE, T_UNKNOWN };
 enum four_valued_type { FV_TRUE, FV_FALSE, FV_UNKNOWN, FV_SYMBOL };
 
-#define make_duration(r, b) std::make_pair((timeabs)r, b)
+#define make_duration(r, b) std::make_pair((timeabs)(r), b)
 
 inline duration sum_dur(const duration &lhs, const duration &rhs) {
   return make_duration(lhs.first + rhs.first, lhs.second || rhs.second);
@@ -45,32 +45,33 @@ inline duration mult_dur(const duration &lhs, const duration &rhs) {
 
 // type conversion from three_valued_type to four_valued_type
 #define b3_to_b4(b3)                                                           \
-  (b3 == T_TRUE) ? FV_TRUE : ((b3 == T_FALSE) ? FV_FALSE : FV_UNKNOWN)
+  (((b3) == T_TRUE) ? FV_TRUE : (((b3) == T_FALSE) ? FV_FALSE : FV_UNKNOWN))
 
 // convert four_valued_type into three_valued type
 #define b4_to_b3(b4)                                                           \
-  (b4 == FV_TRUE) ? T_TRUE : ((b4 == FV_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b4) == FV_TRUE) ? T_TRUE : (((b4) == FV_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** OR */
 #define b3_or(b31, b32)                                                        \
-  (b31 == T_TRUE || b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE && b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE || (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE && (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** AND */
 #define b3_and(b31, b32)                                                       \
-  (b31 == T_TRUE && b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE || b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE && (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE || (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** NOT */
 #define b3_not(b3)                                                             \
-  ((b3 == T_TRUE) ? T_FALSE : ((b3 == T_FALSE) ? T_TRUE : T_UNKNOWN))
+  (((b3) == T_TRUE) ? T_FALSE : (((b3) == T_FALSE) ? T_TRUE : T_UNKNOWN))
 
 /** Relation operator < */
 #define b3_lessthan(n1, n2)                                                    \
-  ((n1.second || n2.second) ? T_UNKNOWN                                        \
-                            : ((n1.first < n2.first) ? T_TRUE : T_FALSE))
+  (((n1).second || (n2).second)                                                \
+       ? T_UNKNOWN                                                             \
+       : (((n1).first < (n2).first) ? T_TRUE : T_FALSE))
 
 #define ASSERT_RMTLD3(l) assert(l)
 
@@ -127,13 +128,14 @@ static int r = 0;
 #endif
 
 #define out_p(res)                                                             \
-  (res == T_TRUE) ? "true" : ((res == T_FALSE) ? "false" : "unknown")
+  (((res) == T_TRUE) ? "true" : (((res) == T_FALSE) ? "false" : "unknown"))
 
 #define out_fv(fv)                                                             \
-  (fv == FV_TRUE)                                                              \
-      ? "true"                                                                 \
-      : ((fv == FV_FALSE) ? "false"                                            \
-                          : ((fv == FV_UNKNOWN) ? "unknown" : "symbol"))
+  (((fv) == FV_TRUE)                                                           \
+       ? "true"                                                                \
+       : (((fv) == FV_FALSE)                                                   \
+              ? "false"                                                        \
+              : (((fv) == FV_UNKNOWN) ? "unknown" : "symbol")))
 
 extern int count_until_iterations;
 
-- 
2.43.0


From 8e67c4ac687e2e312becaff16fab1fa292478b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 14/23] fix: events with different data are not equal, so they
 are unequal

operator!= ignored the data that operator== compares.
---
 src/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.h b/src/event.h
index 8b06ea1..2b990fc 100644
--- a/src/event.h
+++ b/src/event.h
@@ -315,7 +315,7 @@ template <typename T> bool Event<T>::operator==(Event<T> const &event) const {
 }
 
 template <typename T> bool Event<T>::operator!=(Event<T> const &event) const {
-  return time != event.time;
+  return !(*this == event);
 }
 
 template <typename T> bool Event<T>::operator<(const timespan &ttime) const {
-- 
2.43.0


From 86cd8d6c0a675984e07e4075c2332e272e0ea00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 15/23] fix: set the task status before its thread exists

The status was uninitialised while the thread could already read it (zero
means ACTIVATE, so a task in static storage could start by itself) and was
then overwritten.
---
 src/task_compat.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index f21fd2c..7030233 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -168,15 +168,13 @@ struct task {
 
     DEBUGV_APPEND("\n");
 
-    st = UNACTIVATE;
-
     return 0;
   }
 
   task(char const *id, void *(*loop)(void *), const int prio,
        const int sch_policy, const useconds_t p, void *payload = NULL)
-      : tid(id), period(p), sched_policy(sch_policy), priority(prio), run(loop),
-        run_payload(payload) {
+      : tid(id), period(p), sched_policy(sch_policy), priority(prio),
+        st(UNACTIVATE), run(loop), run_payload(payload) {
     create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
-- 
2.43.0


From cf20a5866d7983ca11d4aa4ac980235c8320cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 16/23] fix: a spurious wake-up does not end a periodic task

pthread_cond_timedwait may return 0 before the release time; the task then
ended silently with its mutex locked.
---
 src/task_compat.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 7030233..99243d5 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -236,10 +236,12 @@ struct task {
             }
 
             pthread_mutex_lock(&ttask->fmtx);
-            pcheck_print(
-                pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next),
-                ETIMEDOUT, break;);
+            int wait;
+            do {
+              wait = pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next);
+            } while (wait == P_OK); // wake-up before time
             pthread_mutex_unlock(&ttask->fmtx);
+            pcheck_print(wait, ETIMEDOUT, break;);
 
             if (ttask->st == ABORT) {
               ttask->st = ABORTED;
-- 
2.43.0


From 117fadb4aa306a96003cffa089d6d900d101a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 17/23] fix: disable and repeated enable work at any time

A disable before the activation was ignored (the thread waited for ever and
join never returned) or overwritten by the activation; enabling a running
monitor made it report that it is not running, and enabling after disable
cancelled the disable.
---
 src/periodicmonitor.h | 4 ++--
 src/task_compat.h     | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 7ece78e..4a15b0e 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,8 +143,8 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
-  if (_task.st != ACTIVATE)
-    _task.st = ACTIVATE;
+  // only once: a monitor that is running or has been disabled stays so
+  __sync_bool_compare_and_swap(&_task.st, UNACTIVATE, ACTIVATE);
 
   return P_OK;
 }
diff --git a/src/task_compat.h b/src/task_compat.h
index 99243d5..fc71856 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -190,10 +190,14 @@ struct task {
 
           // trap to block task start
           for (;;) {
-            if (ttask->st == ACTIVATE) {
-              ttask->st = RUNNING;
+            // do not lose a concurrent abort
+            if (__sync_bool_compare_and_swap(&ttask->st, ACTIVATE, RUNNING)) {
               break;
             }
+            if (ttask->st == ABORT) {
+              ttask->st = ABORTED;
+              return NULL;
+            }
             nanosleep((const struct timespec[]){{0, 100000L}}, NULL);
           }
 
-- 
2.43.0


From 1b39f1bbe95486f7cf1c82bdc1b7356aa81ecf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 18/23] fix: allow RTML_writer in hardware synthesis

Including writer.h with __HW__ always failed on the #error inside push, so that
push_all, which it points to, could not be used either.
---
 src/writer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/writer.h b/src/writer.h
index 1c0c589..0f23506 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -80,12 +80,14 @@ public:
    */
   ~RTML_writer();
 
+#ifndef __HW__ // there is no clock; use push_all instead
   /**
    * push an event to the Buffer.
    *
    * @param data a constant reference to the data to be pushed.
    */
   typename B::error_t push(typename B::event_t &data);
+#endif
 
   /**
    * force push an event to the Buffer.
@@ -102,14 +104,12 @@ RTML_writer<B>::RTML_writer(B &_buffer) : buffer(_buffer) {
 
 template <typename B> RTML_writer<B>::~RTML_writer() { ATOMIC_PAGE_RELEASE(); }
 
+#ifndef __HW__
+
 template <typename B>
 typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
 
   typename B::error_t err;
-
-#if defined(__HW__)
-#error "Please use push_all instead!"
-#else
   size_t top;
 
   ATOMIC_PUSH({
@@ -129,11 +129,11 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
 
   buffer.write(event, top);
 
-#endif
-
   return err;
 }
 
+#endif
+
 template <typename B>
 typename B::error_t RTML_writer<B>::push_all(typename B::event_t &event) {
 
-- 
2.43.0


From 89474381e149f87d1385d0c68f502586a1fd3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:53 +0000
Subject: [PATCH 19/23] fix: do not seek beyond the synchronised window

---
 src/rmtld3/reader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index a3a95e8..1d1548d 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -127,6 +127,10 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
 
   typename R::buffer_t::event_t e, ee;
 
+  // there is no event of the window at top
+  if (R::top == cursor)
+    decrement_cursor();
+
   while (read_previous(e) == R::AVAILABLE && read(ee) == R::AVAILABLE) {
 
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
-- 
2.43.0


From 57b5b8e9edc04bf093d94b61941e57b3bd3caee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 20/23] fix: confirm a push explicitly before the next one
 starts

Comparing the slot with the announced event took a push for complete while
its last store was still pending if that store did not change the slot (e.g.
equal times or data N+1 pushes apart). The late store then corrupted a newer
event or blocked all later pushes.
---
 src/atomic_compat.h | 25 +++++++++++++------------
 src/writer.h        |  4 ++++
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index bd4755d..fd9e14c 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -209,9 +209,8 @@ union page_t {
   struct __state {                                                             \
     size_t top;                                                                \
     size_t bottom;                                                             \
-    /* variables that can help to confirm that the last value is ready */      \
-    size_t pos;                                                                \
-    event_t event;                                                             \
+    /* confirms that the last value is ready */                                \
+    bool ready;                                                                \
   };                                                                           \
                                                                                \
   typedef struct __state state_t
@@ -233,8 +232,7 @@ union page_t {
   } while (before.wide_uniqueid != after.wide_uniqueid);
 
 #define ATOMIC_PAGE()                                                          \
-  state_t state_global = {                                                     \
-      .top = 0, .bottom = 0, .pos = 0, .event = event_t()};                    \
+  state_t state_global = {.top = 0, .bottom = 0, .ready = true};               \
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
@@ -272,7 +270,6 @@ union page_t {
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
   page_t current_page_content, new_page_content;                               \
-  typename B::event_t evt;                                                     \
   do {                                                                         \
     if (fail) {                                                                \
       /* do a yield here */                                                    \
@@ -285,9 +282,7 @@ union page_t {
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-    buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
-    DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
-    if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
+    if (!((state_t *)current_page_content.stateref)->ready) {                  \
       /* do a yield here */                                                    \
       YIELD();                                                                 \
       goto complete;                                                           \
@@ -306,18 +301,24 @@ union page_t {
     /* copy state */                                                           \
     stateref->bottom = ((state_t *)current_page_content.stateref)->bottom;     \
     stateref->top = ((state_t *)current_page_content.stateref)->top;           \
-    stateref->pos = stateref->top;                                             \
                                                                                \
     body;                                                                      \
                                                                                \
-    /* copy remaining state */                                                 \
-    stateref->event = event;                                                   \
+    /* the value is not ready until ATOMIC_PUSH_READY */                       \
+    stateref->ready = false;                                                   \
                                                                                \
     DEBUG_FRAME();                                                             \
   } while (                                                                    \
       fail = !(std::atomic_compare_exchange_strong(                            \
           &buffer.page, &current_page_content, (update(new_page_content)))));
 
+// the pushed value is in the buffer; the next push can start
+#define ATOMIC_PUSH_READY()                                                    \
+  {                                                                            \
+    std::atomic_thread_fence(std::memory_order_release);                       \
+    stateref->ready = true;                                                    \
+  }
+
 #else
 
 #warning "Atomic guarantees are not supported!"
diff --git a/src/writer.h b/src/writer.h
index 0f23506..a8a77ad 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -129,6 +129,8 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
 
   buffer.write(event, top);
 
+  ATOMIC_PUSH_READY();
+
   return err;
 }
 
@@ -158,6 +160,8 @@ typename B::error_t RTML_writer<B>::push_all(typename B::event_t &event) {
 
   buffer.write(event, top);
 
+  ATOMIC_PUSH_READY();
+
 #endif
 
   return err;
-- 
2.43.0


From 853420f4339561d734835a06de40982cebac69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 21/23] fix: read the period of a task once per release

---
 src/task_compat.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index fc71856..1f1f04b 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -217,8 +217,10 @@ struct task {
 
             DEBUGV3_APPEND("period=%luus ", ttask->period);
 
-            // convert useconds_t to struct timespec
-            useconds_t2timespec(&ttask->period, &tmp);
+            // convert useconds_t to struct timespec; the period can be set at
+            // any time, so it is read only once
+            useconds_t period = __atomic_load_n(&ttask->period, __ATOMIC_RELAXED);
+            useconds_t2timespec(&period, &tmp);
 
             DEBUGV3_APPEND("period=%lus.%luns ", L(tmp.tv_sec), tmp.tv_nsec);
             DEBUGV3_APPEND("old_next=%lus.%luns ", L(next.tv_sec),
-- 
2.43.0


From 4a981f937e658dae0c38e1cb42ba1b02d51dcfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:15 +0000
Subject: [PATCH 22/23] fix: evaluate the operand of always and historically
 once

---
 src/rmtld3/formulas.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index ef212ff..9434a6c 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -292,7 +292,9 @@ three_valued_type always_less(T &trace, timespan &t) {
       return T_TRUE;
     };
     static three_valued_type eval_phi2(T &trace, timespan &t) {
-      return b3_not(E::eval_phi1(trace, t));
+      // b3_not evaluates its argument twice
+      three_valued_type value = E::eval_phi1(trace, t);
+      return b3_not(value);
     };
   };
 
@@ -470,7 +472,9 @@ three_valued_type historically_less(T &trace, timespan &t) {
       return T_TRUE;
     };
     static three_valued_type eval_phi2(T &trace, timespan &t) {
-      return b3_not(E::eval_phi1(trace, t));
+      // b3_not evaluates its argument twice
+      three_valued_type value = E::eval_phi1(trace, t);
+      return b3_not(value);
     };
   };
 
-- 
2.43.0


From 4cfea2b914300ef2ef045fd666858ec9c4666b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:17 +0000
Subject: [PATCH 23/23] fix: attaching 256 writers does not make a buffer count
 none

---
 src/circularbuffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index ee2374d..70c7a85 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -167,7 +167,9 @@ public:
    * Increment writer counter
    */
   void increment_writer() {
-    writer++;
+    // stays at its maximum: 256 writers are not none
+    if (writer < 255)
+      writer++;
   }
 };
 
-- 
2.43.0

