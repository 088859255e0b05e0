From 3760c149b512043daa11e0e06a9f86174068e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 01/85] fix: preparing an empty event list leaves it empty

sp_event_list_reverse set the list head to an uninitialised variable.
---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 source/sc/sph-sp/sequencer.sc           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9131451..e508c29 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -13,7 +13,7 @@ void sp_event_list_display(sp_event_list_t* a) {
   };
 }
 void sp_event_list_reverse(sp_event_list_t** a) {
-  sp_event_list_t* current;
+  sp_event_list_t* current = 0;
   sp_event_list_t* next;
   next = *a;
   while (next) {
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 2c32114..7fcdead 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -12,7 +12,8 @@
   (while a (sp-event-list-display-element a) (set a a:next)))
 
 (define (sp-event-list-reverse a) (void sp-event-list-t**)
-  (declare current sp-event-list-t* next sp-event-list-t*)
+  (declare next sp-event-list-t*)
+  (define current sp-event-list-t* 0)
   (set next *a)
   (while next (set current next next next:next current:next current:previous current:previous next))
   (set *a current))
-- 
2.43.0


From 07b707f1530a9a6b4c0b4abc2221fc3ace28f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 02/85] fix: a block with offset ends where the block ends

the size stayed that of the whole block, so that functions using it as the number
of samples, for example of map events, reached past the end of the sample arrays.
---
 source/c-precompiled/sph-sp/main.c | 1 +
 source/sc/sph-sp/main.sc           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e62223..3b56a5d 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -157,6 +157,7 @@ sp_block_t sp_block_with_offset(sp_block_t a, sp_time_t offset) {
   for (sp_size_t i = 0; (i < a.channel_count); i += 1) {
     (a.samples)[i] += offset;
   };
+  a.size -= offset;
   return (a);
 }
 void sp_block_zero(sp_block_t a) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 946b16c..cec6b01 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -98,6 +98,7 @@
 (define (sp-block-with-offset a offset) (sp-block-t sp-block-t sp-time-t)
   "return a new block with offset added to all channel sample arrays"
   (sp-for-each-index i a.channel-count (set+ (array-get a.samples i) offset))
+  (set- a.size offset)
   (return a))
 
 (define (sp-block-zero a) (void sp-block-t)
-- 
2.43.0


From 284e7340112f67a466bd067d0f07600fc23cc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 03/85] fix: events that fail in prepare keep what they
 registered

sp_seq prepared a copy of the event and stored it only on success, so memory and
the free function set by a failing prepare were lost and never released.
---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index e508c29..ab0196b 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -262,8 +262,8 @@ status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t*
     } else if (end <= e.start) {
       break;
     } else if (e.end > start) {
-      sp_event_prepare_optional_srq(e);
-      *ep = e;
+      sp_event_prepare_optional_srq((*ep));
+      e = *ep;
       status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
     };
     current = current->next;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 7fcdead..534c146 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -170,7 +170,7 @@
       ( (<= e.end start) (set next current:next) (sp-event-list-remove events current)
         (set current next) continue)
       ((<= end e.start) break)
-      ( (> e.end start) (sp-event-prepare-optional-srq e) (set *ep e)
+      ( (> e.end start) (sp-event-prepare-optional-srq *ep) (set e *ep)
         (status-require
           (e.generate (if* (> start e.start) (- start e.start) 0)
             (- (sp-inline-min end e.end) e.start)
-- 
2.43.0


From 0654801d35d14965932c6ee771655ce49b77c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 04/85] fix: release the memory of blocks without samples

sp_block_new allocates for size zero too, but sp_block_free ignored such blocks.
---
 source/c-precompiled/sph-sp/main.c | 6 ++----
 source/c-precompiled/sph-sp/main.h | 1 +
 source/sc/sph-sp/main.h.sc         | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 4 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 3b56a5d..217de51 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -145,10 +145,8 @@ exit:
   status_return;
 }
 void sp_block_free(sp_block_t* a) {
-  if (a->size) {
-    for (sp_size_t i = 0; (i < a->channel_count); i += 1) {
-      free(((a->samples)[i]));
-    };
+  for (sp_size_t i = 0; (i < a->channel_count); i += 1) {
+    free(((a->samples)[i]));
   };
 }
 
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 5b54b2c..fc1f62c 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -28,6 +28,7 @@
 #define sp_subtract(a, b) (a - b)
 #define sp_block_declare(a) \
   sp_block_t a; \
+  a.channel_count = 0; \
   a.size = 0
 #define sp_cheap_round_positive(a) ((sp_time_t)((0.5 + a)))
 
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 50929d9..09e3916 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -26,7 +26,7 @@
   (sp-declare-block id) (define id sp-block-t (struct-literal 0))
   (sp-time->sample x) (convert-type x sp-sample-t)
   (sp-subtract a b) (- a b)
-  (sp-block-declare a) (begin (declare a sp-block-t) (set a.size 0))
+  (sp-block-declare a) (begin (declare a sp-block-t) (set a.channel-count 0 a.size 0))
   (sp-cheap-round-positive a) (convert-type (+ 0.5 a) sp-time-t)
   (sp-cheap-floor-positive a) (begin "only works for non-negative values" (convert-type a sp-time-t))
   (sp-cheap-ceiling-positive a) (+ (convert-type a sp-time-t) (< (convert-type a sp-time-t) a))
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index cec6b01..6eeb88c 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -93,7 +93,7 @@
   (label exit (if status-is-failure memreg-free) status-return))
 
 (define (sp-block-free a) (void sp-block-t*)
-  (if a:size (sp-for-each-index i a:channel-count (free (array-get a:samples i)))))
+  (sp-for-each-index i a:channel-count (free (array-get a:samples i))))
 
 (define (sp-block-with-offset a offset) (sp-block-t sp-block-t sp-time-t)
   "return a new block with offset added to all channel sample arrays"
-- 
2.43.0


From 50ae2a3b635b9da9d95ec89c2ddecc2157674b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 05/85] fix: groups and map events free their events when they
 were never prepared

the free function was only set by prepare, so that a list that was freed before it
was played, or an event that failed in prepare, left the contained events behind.
---
 source/c-precompiled/sph-sp/sequencer.h | 3 +++
 source/sc/sph-sp/sequencer.h.sc         | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index d498bd5..8588406 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -40,14 +40,17 @@
 #define sp_map_event(event_pointer, _config) \
   event_pointer->prepare = sp_map_event_prepare; \
   event_pointer->generate = (_config->isolate ? sp_map_event_isolated_generate : sp_map_event_generate); \
+  event_pointer->free = sp_map_event_free; \
   event_pointer->config = _config
 #define sp_group_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_group_parallel_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate_parallel; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index 7164d8a..6609e66 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -38,13 +38,19 @@
   (struct-pointer-set event-pointer
     prepare sp-map-event-prepare
     generate (if* _config:isolate sp-map-event-isolated-generate sp-map-event-generate)
+    free sp-map-event-free
     config _config)
   (sp-group-event event-pointer)
-  (struct-pointer-set event-pointer prepare sp-group-prepare generate sp-group-generate config 0)
+  (struct-pointer-set event-pointer
+    prepare sp-group-prepare
+    generate sp-group-generate
+    free sp-group-free
+    config 0)
   (sp-group-parallel-event event-pointer)
   (struct-pointer-set event-pointer
     prepare sp-group-prepare
     generate sp-group-generate-parallel
+    free sp-group-free
     config 0)
   (sp-event-path-samples-srq event-pointer out ...)
   (begin
-- 
2.43.0


From 7d767ffd3f28882d35e436fcc23cd0c658c83094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 06/85] fix: sp_seq_parallel waits for all started events
 before it frees them

after an error it freed blocks, futures and events other threads were still using.
---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 source/sc/sph-sp/sequencer.sc           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index ab0196b..8208a27 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -365,6 +365,7 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
 exit:
   if (sf_array) {
     for (sp_size_t i = 0; (i < allocated); i += 1) {
+      sph_future_touch((&((sf_array[i]).future)));
       sp_block_free((&((sf_array[i]).out)));
     };
     free(sf_array);
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 534c146..25333d3 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -253,6 +253,7 @@
     (if sf-array
       (begin
         (sp-for-each-index i allocated
+          (sph-future-touch (address-of (struct-get (array-get sf-array i) future)))
           (sp-block-free (address-of (struct-get (array-get sf-array i) out))))
         (free sf-array)))
     (if status-is-failure (sp-event-list-free events))
-- 
2.43.0


From 862b0dd9875496bd22a8461e774416f8420764a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 07/85] fix: futures can be initialised again after
 sph_future_deinit

the pool stayed marked as initialised, so that no threads were started the next time,
and the pool was destroyed twice.
---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 425613d..3f473a4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -44,8 +44,9 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
    waits till all active futures are finished */
 void sph_future_deinit() {
   if (sph_futures_pool_is_initialized) {
+    /* also destroys the thread pool */
     sph_thread_pool_finish((&sph_futures_pool), 0, 0);
-    sph_thread_pool_destroy((&sph_futures_pool));
+    sph_futures_pool_is_initialized = 0;
   };
 }
 
-- 
2.43.0


From dcbf1d73652cf56e59ae86d45923a3c8d4db0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 08/85] fix: noise events free their buffers and filter states

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 source/sc/sph-sp/sequencer.sc           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 8208a27..ab486b9 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -695,6 +695,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
       };
     };
   };
+  event->free = sp_noise_event_free;
 exit:
   if (status_is_failure) {
     error_memory_free;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 25333d3..af37b3f 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -530,6 +530,7 @@
           (begin
             (status-require (sp-noise-event-filter-state c cc (array-get ir-lengths cci)))
             (error-memory-add2 cc:filter-state sp-convolution-filter-state-free))))))
+  (set event:free sp-noise-event-free)
   (label exit (if status-is-failure error-memory-free) status-return))
 
 (define (sp-noise-event-generate-block duration block-i event-i out event)
-- 
2.43.0


From 7cb348476da491d0363d30813d1e9600bb609405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 09/85] fix: noise event buffers hold the longest impulse
 response

---
 source/c-precompiled/sph-sp/sequencer.c | 3 +--
 source/sc/sph-sp/sequencer.sc           | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index ab486b9..198b9a4 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -672,8 +672,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
     c->resolution = duration;
   };
   /* this limits the largest block that can be safely requested */
-  temp_length = sp_inline_max(temp_length, (c->resolution));
-  temp_length = sp_inline_min(temp_length, (sp_render_block_seconds * sp_rate));
+  temp_length = sp_inline_max(temp_length, (sp_inline_min((c->resolution), (sp_render_block_seconds * sp_rate))));
   /* three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
        and one for other channel filter results */
   status_require((sp_malloc_type(temp_length, sp_sample_t, (c->temp))));
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index af37b3f..e5738e9 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -507,8 +507,9 @@
   (if (not filter-mod) (set c:resolution duration))
   (sc-comment "this limits the largest block that can be safely requested")
   (set
-    temp-length (sp-inline-max temp-length c:resolution)
-    temp-length (sp-inline-min temp-length (* sp-render-block-seconds sp-rate)))
+    temp-length
+    (sp-inline-max temp-length
+      (sp-inline-min c:resolution (* sp-render-block-seconds sp-rate))))
   (sc-comment
     "three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
      and one for other channel filter results")
-- 
2.43.0


From 0f31cb9f4915b1564682ed83c989354456a306fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 10/85] fix: band filter design releases its intermediate
 impulse responses

---
 source/c-precompiled/sph-sp/filter.c | 10 ++++++++--
 source/sc/sph-sp/filter.sc           |  7 +++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index e59b0fc..31ebe7a 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -165,9 +165,9 @@ exit:
    if one cutoff is at or above maximum then create only either low-pass or high-pass */
 status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, sp_sample_t transition_l, sp_sample_t transition_h, sp_bool_t is_reject, sp_sample_t** out_ir, sp_time_t* out_len) {
   status_declare;
-  sp_sample_t* hp_ir;
+  sp_sample_t* hp_ir = 0;
   sp_time_t hp_len;
-  sp_sample_t* lp_ir;
+  sp_sample_t* lp_ir = 0;
   sp_time_t lp_len;
   sp_time_t i;
   sp_time_t start;
@@ -227,8 +227,14 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     *out_len = ((lp_len + hp_len) - 1);
     status_require((sp_samples_new((*out_len), out_ir)));
     sp_convolve_one(lp_ir, lp_len, hp_ir, hp_len, (*out_ir));
+    free(lp_ir);
+    free(hp_ir);
   };
 exit:
+  if (status_is_failure) {
+    free(lp_ir);
+    free(hp_ir);
+  };
   status_return;
 }
 
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 79521eb..e784c82 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -161,6 +161,7 @@
     end sp-time-t
     out sp-sample-t*
     over sp-sample-t*)
+  (set hp-ir 0 lp-ir 0)
   (if is-reject
     (begin
       (if (>= 0.0 cutoff-l)
@@ -201,8 +202,10 @@
       (sc-comment "convolve lp and hp ir samples")
       (set *out-len (- (+ lp-len hp-len) 1))
       (status-require (sp-samples-new *out-len out-ir))
-      (sp-convolve-one lp-ir lp-len hp-ir hp-len *out-ir)))
-  (label exit status-return))
+      (sp-convolve-one lp-ir lp-len hp-ir hp-len *out-ir)
+      (free lp-ir)
+      (free hp-ir)))
+  (label exit (if status-is-failure (begin (free lp-ir) (free hp-ir))) status-return))
 
 (define (sp-windowed-sinc-lp-hp-ir-f arguments out-ir out-len)
   (status-t void* sp-sample-t** sp-time-t*)
-- 
2.43.0


From f50d91b3f42c85c97b71579968404301a137e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 11/85] fix: sp_file_read returns its status

---
 source/c-precompiled/sph-sp/file.c | 1 +
 source/sc/sph-sp/file.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index ea0912c..9d715e6 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -115,5 +115,6 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   };
 exit:
   free(file_data);
+  status_return;
 }
 void sp_file_close_read(sp_file_t file) { fclose((file.file)); }
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 9c5c7c1..4064eba 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -96,6 +96,6 @@
     (for-each-index j sp-channel-count-t
       file.channel-count
       (set (array-get (array-get samples j) i) (array-get file-data (+ (* i file.channel-count) j)))))
-  (label exit (free file-data)))
+  (label exit (free file-data) status-return))
 
 (define (sp-file-close-read file) (void sp-file-t) (fclose file.file))
\ No newline at end of file
-- 
2.43.0


From 1a3130c2ca1a813393e36c95e742a385c4a2d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 12/85] fix: sp_file_open_read sets the channel count and
 leaves no file open on failure

---
 source/c-precompiled/sph-sp/file.c | 13 +++++++++++++
 source/sc/sph-sp/file.sc           | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 9d715e6..267188b 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -67,15 +67,24 @@ exit:
 status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   status_declare;
   uint8_t header[44];
+  uint16_t channel_count;
   uint32_t subchunk_id;
   uint32_t subchunk_size;
   file->file = fopen(path, "r");
+  if (!file->file) {
+    status_set_goto(sp_s_group_libc, errno);
+  };
   if (!(fread(header, 44, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
     sp_status_set_goto(sp_s_id_file_read);
   };
   if (!((3 == *((uint16_t*)((20 + header)))) && (32 == *((uint16_t*)((34 + header)))))) {
     sp_status_set_goto(sp_s_id_file_not_implemented);
   };
+  channel_count = *((uint16_t*)((22 + header)));
+  if (!channel_count || (channel_count > UINT8_MAX)) {
+    sp_status_set_goto(sp_s_id_file_not_implemented);
+  };
+  file->channel_count = channel_count;
   subchunk_id = *((uint32_t*)((36 + header)));
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
@@ -88,6 +97,10 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
     };
   };
 exit:
+  if (status_is_failure && file->file) {
+    fclose((file->file));
+    file->file = 0;
+  };
   status_return;
 }
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples) {
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 4064eba..76fb07b 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -59,8 +59,13 @@
 
 (define (sp-file-open-read path file) (status-t uint8-t* sp-file-t*)
   status-declare
-  (declare header (array uint8-t 44) subchunk-id uint32-t subchunk-size uint32-t)
+  (declare
+    header (array uint8-t 44)
+    channel-count uint16-t
+    subchunk-id uint32-t
+    subchunk-size uint32-t)
   (set file:file (fopen path "r"))
+  (if (not file:file) (status-set-goto sp-s-group-libc errno))
   (if
     (not
       (and (fread header 44 1 file:file)
@@ -73,6 +78,10 @@
       (and (= 3 (pointer-get (convert-type (+ 20 header) uint16-t*)))
         (= 32 (pointer-get (convert-type (+ 34 header) uint16-t*)))))
     (sp-status-set-goto sp-s-id-file-not-implemented))
+  (set channel-count (pointer-get (convert-type (+ 22 header) uint16-t*)))
+  (if (or (not channel-count) (> channel-count UINT8_MAX))
+    (sp-status-set-goto sp-s-id-file-not-implemented))
+  (set file:channel-count channel-count)
   (set
     subchunk-id (pointer-get (convert-type (+ 36 header) uint32-t*))
     subchunk-size (pointer-get (convert-type (+ 40 header) uint32-t*)))
@@ -80,7 +89,9 @@
     (fseek file:file subchunk-size SEEK_CUR)
     (if (not (fread &subchunk-id 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-size 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read)))
-  (label exit status-return))
+  (label exit
+    (if (and status-is-failure file:file) (begin (fclose file:file) (set file:file 0)))
+    status-return))
 
 (define (sp-file-read file sample-count samples) (status-t sp-file-t sp-time-t sp-sample-t**)
   status-declare
-- 
2.43.0


From 02d5e982dc4d182fceb54a44ed3ae81e50c41021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 13/85] fix: writing zero samples to a file succeeds

---
 source/c-precompiled/sph-sp/file.c | 2 +-
 source/sc/sph-sp/file.sc           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 267188b..15f86c5 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -56,7 +56,7 @@ status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_
       file_data[((i * channel_count) + j)] = (samples[j])[i];
     };
   };
-  if (!fwrite(file_data, interleaved_size, 1, (file->file))) {
+  if (interleaved_size && !fwrite(file_data, interleaved_size, 1, (file->file))) {
     sp_status_set_goto(sp_s_id_file_write);
   };
   file->data_size += interleaved_size;
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 76fb07b..45d4a13 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -53,7 +53,8 @@
     (for-each-index j sp-channel-count-t
       channel-count
       (set (array-get file-data (+ (* i channel-count) j)) (array-get (array-get samples j) i))))
-  (if (not (fwrite file-data interleaved-size 1 file:file)) (sp-status-set-goto sp-s-id-file-write))
+  (if (and interleaved-size (not (fwrite file-data interleaved-size 1 file:file)))
+    (sp-status-set-goto sp-s-id-file-write))
   (set+ file:data-size interleaved-size)
   (label exit (free file-data) status-return))
 
-- 
2.43.0


From 0c01122764af60c30e74da4ac862253fd04ae8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 14/85] fix: sp_render_range_file starts rendering at the start
 of the range

---
 source/c-precompiled/sph-sp/main.c | 6 +++---
 source/sc/sph-sp/main.sc           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 217de51..aa8f67e 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -342,10 +342,10 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   status_require((sp_block_new((config.channel_count), (config.block_size), (&block))));
   status_require((sp_file_open_write(path, (config.channel_count), (config.rate), (&file))));
   remainder = ((end - start) % config.block_size);
-  block_end = (config.block_size * ((end - start) / config.block_size));
-  for (i = 0; (i < block_end); i += config.block_size) {
+  block_end = (start + (config.block_size * ((end - start) / config.block_size)));
+  for (i = start; (i < block_end); i += config.block_size) {
     if (config.display_progress) {
-      printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
+      printf(("%.1f%%\n"), (100 * ((i - start) / ((sp_sample_t)((block_end - start))))));
     };
     status_require((sp_seq(i, (i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 6eeb88c..d4d6e36 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -257,10 +257,10 @@
   (status-require (sp-file-open-write path config.channel-count config.rate &file))
   (set
     remainder (modulo (- end start) config.block-size)
-    block-end (* config.block-size (/ (- end start) config.block-size)))
-  (for ((set i 0) (< i block-end) (set+ i config.block-size))
+    block-end (+ start (* config.block-size (/ (- end start) config.block-size))))
+  (for ((set i start) (< i block-end) (set+ i config.block-size))
     (if config.display-progress
-      (printf "%.1f%\n" (* 100 (/ i (convert-type block-end sp-sample-t)))))
+      (printf "%.1f%%\n" (* 100 (/ (- i start) (convert-type (- block-end start) sp-sample-t)))))
     (status-require (sp-seq i (+ i config.block-size) block &events))
     (status-require (sp-file-write &file block.samples config.block-size))
     (sp-block-zero block))
-- 
2.43.0


From 603f445b0b14911d5a311d9b24878d4a15f4f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 15/85] fix: failing range rendering releases block, events and
 file

---
 source/c-precompiled/sph-sp/file.c |  1 +
 source/c-precompiled/sph-sp/main.c | 14 ++++++++++----
 source/sc/sph-sp/file.sc           |  2 +-
 source/sc/sph-sp/main.sc           | 16 +++++++++++-----
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 15f86c5..73c104d 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -27,6 +27,7 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
   };
   if (!fwrite(header, 40, 1, (file->file))) {
     fclose((file->file));
+    file->file = 0;
     sp_status_set_goto(sp_s_id_file_write);
   };
   fseek((file->file), 4, SEEK_CUR);
diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index aa8f67e..71e6e35 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -338,6 +338,7 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   sp_file_t file;
   sp_block_declare(block);
   sp_declare_event_list(events);
+  file.file = 0;
   status_require((sp_event_list_add((&events), event)));
   status_require((sp_block_new((config.channel_count), (config.block_size), (&block))));
   status_require((sp_file_open_write(path, (config.channel_count), (config.rate), (&file))));
@@ -355,10 +356,12 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     status_require((sp_seq(i, (i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
-  sp_event_list_free((&events));
 exit:
+  sp_event_list_free((&events));
   sp_block_free((&block));
-  sp_file_close_write((&file));
+  if (file.file) {
+    sp_file_close_write((&file));
+  };
   status_return;
 }
 
@@ -367,14 +370,17 @@ exit:
    block will be allocated */
 status_t sp_render_range_block(sp_event_t event, sp_time_t start, sp_time_t end, sp_render_config_t config, sp_block_t* out) {
   status_declare;
-  sp_block_t block;
+  sp_block_declare(block);
   sp_declare_event_list(events);
   status_require((sp_event_list_add((&events), event)));
   status_require((sp_block_new((config.channel_count), (end - start), (&block))));
   status_require((sp_seq(start, end, block, (&events))));
-  sp_event_list_free((&events));
   *out = block;
 exit:
+  sp_event_list_free((&events));
+  if (status_is_failure) {
+    sp_block_free((&block));
+  };
   status_return;
 }
 
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 45d4a13..c28442d 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -27,7 +27,7 @@
     file:file (fopen path "w"))
   (if (not file:file) (status-set-goto sp-s-group-libc errno))
   (if (not (fwrite header 40 1 file:file))
-    (begin (fclose file:file) (sp-status-set-goto sp-s-id-file-write)))
+    (begin (fclose file:file) (set file:file 0) (sp-status-set-goto sp-s-id-file-write)))
   (fseek file:file 4 SEEK_CUR)
   (label exit status-return))
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index d4d6e36..3a8ef8f 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -252,6 +252,7 @@
   (declare block-end sp-time-t remainder sp-time-t i sp-time-t file sp-file-t)
   (sp-block-declare block)
   (sp-declare-event-list events)
+  (set file.file 0)
   (status-require (sp-event-list-add &events event))
   (status-require (sp-block-new config.channel-count config.block-size &block))
   (status-require (sp-file-open-write path config.channel-count config.rate &file))
@@ -268,8 +269,11 @@
     (begin
       (status-require (sp-seq i (+ i remainder) block &events))
       (status-require (sp-file-write &file block.samples remainder))))
-  (sp-event-list-free &events)
-  (label exit (sp-block-free &block) (sp-file-close-write &file) status-return))
+  (label exit
+    (sp-event-list-free &events)
+    (sp-block-free &block)
+    (if file.file (sp-file-close-write &file))
+    status-return))
 
 (define (sp-render-range-block event start end config out)
   (status-t sp-event-t sp-time-t sp-time-t sp-render-config-t sp-block-t*)
@@ -277,14 +281,16 @@
    events should have been prepared with sp-seq-events-prepare.
    block will be allocated"
   status-declare
-  (declare block sp-block-t)
+  (sp-block-declare block)
   (sp-declare-event-list events)
   (status-require (sp-event-list-add &events event))
   (status-require (sp-block-new config.channel-count (- end start) &block))
   (status-require (sp-seq start end block &events))
-  (sp-event-list-free &events)
   (set *out block)
-  (label exit status-return))
+  (label exit
+    (sp-event-list-free &events)
+    (if status-is-failure (sp-block-free &block))
+    status-return))
 
 (define (sp-render-file event path) (status-t sp-event-t uint8-t*)
   "render the full duration of event to file at path and write information to standard output.
-- 
2.43.0


From 1d34f6d6d944b7e7865338c19237631031790915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 16/85] fix: changed filter parameters are stored completely
 and only after success

---
 source/c-precompiled/sph-sp/filter.c | 17 +++++++++--------
 source/sc/sph-sp/filter.sc           | 23 ++++++++++++-----------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 31ebe7a..7e73c38 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -21,7 +21,7 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   sp_sample_t* ir;
   sp_time_t ir_len;
   sp_convolution_filter_state_t* state;
-  memreg_init(2);
+  memreg_init(3);
   /* create state if not exists. re-use if exists and return early if ir needs not be updated */
   if (*out_state) {
     /* existing */
@@ -34,24 +34,20 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
       if (ir_f_arguments_len > state->ir_f_arguments_len) {
         status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
       };
-      if (state->ir) {
-        free((state->ir));
-      };
     };
   } else {
     /* new */
     status_require((sph_helper_malloc((sizeof(sp_convolution_filter_state_t)), (&state))));
-    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     memreg_add(state);
+    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     memreg_add((state->ir_f_arguments));
     state->carryover_alloc_len = 0;
     state->carryover = 0;
-    state->ir_f = ir_f;
-    state->ir_f_arguments_len = ir_f_arguments_len;
+    state->ir = 0;
   };
-  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
   /* assumes that ir-len is always greater zero */
   status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
+  memreg_add(ir);
   /* eventually extend carryover array. the array is never shrunk.
   carryover-len is at least ir-len - 1.
   carryover-alloc-len is the length of the whole array.
@@ -62,6 +58,7 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
     if (ir_len > state->ir_len) {
       if (carryover_alloc_len > state->carryover_alloc_len) {
         status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&carryover))));
+        state->carryover = carryover;
         state->carryover_alloc_len = carryover_alloc_len;
       };
       /* in any case reset the extended area */
@@ -77,6 +74,10 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   };
   state->carryover = carryover;
   state->carryover_len = (ir_len - 1);
+  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
+  state->ir_f_arguments_len = ir_f_arguments_len;
+  state->ir_f = ir_f;
+  free((state->ir));
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index e784c82..0661ba8 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -20,7 +20,7 @@
     ir sp-sample-t*
     ir-len sp-time-t
     state sp-convolution-filter-state-t*)
-  (memreg-init 2)
+  (memreg-init 3)
   (sc-comment
     "create state if not exists. re-use if exists and return early if ir needs not be updated")
   (if *out-state
@@ -34,22 +34,17 @@
         (begin
           (sc-comment "changed")
           (if (> ir-f-arguments-len state:ir-f-arguments-len)
-            (status-require (sph-helper-realloc ir-f-arguments-len &state:ir-f-arguments)))
-          (if state:ir (free state:ir)))))
+            (status-require (sph-helper-realloc ir-f-arguments-len &state:ir-f-arguments))))))
     (begin
       (sc-comment "new")
       (status-require (sph-helper-malloc (sizeof sp-convolution-filter-state-t) &state))
-      (status-require (sph-helper-malloc ir-f-arguments-len &state:ir-f-arguments))
       (memreg-add state)
+      (status-require (sph-helper-malloc ir-f-arguments-len &state:ir-f-arguments))
       (memreg-add state:ir-f-arguments)
-      (set
-        state:carryover-alloc-len 0
-        state:carryover 0
-        state:ir-f ir-f
-        state:ir-f-arguments-len ir-f-arguments-len)))
-  (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
+      (set state:carryover-alloc-len 0 state:carryover 0 state:ir 0)))
   (sc-comment "assumes that ir-len is always greater zero")
   (status-require (ir-f ir-f-arguments &ir &ir-len))
+  (memreg-add ir)
   (sc-comment
     "eventually extend carryover array. the array is never shrunk."
     "carryover-len is at least ir-len - 1."
@@ -65,7 +60,9 @@
             (begin
               (status-require
                 (sph-helper-realloc (* carryover-alloc-len (sizeof sp-sample-t)) &carryover))
-              (set state:carryover-alloc-len carryover-alloc-len)))
+              (set
+                state:carryover carryover
+                state:carryover-alloc-len carryover-alloc-len)))
           (sc-comment "in any case reset the extended area")
           (memset (+ (- state:ir-len 1) carryover) 0
             (* (- ir-len state:ir-len) (sizeof sp-sample-t))))))
@@ -73,9 +70,13 @@
       (if carryover-alloc-len (status-require (sp-samples-new carryover-alloc-len &carryover))
         (set carryover 0))
       (set state:carryover-alloc-len carryover-alloc-len)))
+  (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
+  (free state:ir)
   (set
     state:carryover carryover
     state:carryover-len (- ir-len 1)
+    state:ir-f-arguments-len ir-f-arguments-len
+    state:ir-f ir-f
     state:ir ir
     state:ir-len ir-len
     *out-state state)
-- 
2.43.0


From 169401badb85389f375db7a6459d00546a7a719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 17/85] fix: a shorter impulse response does not cut the tail
 of a longer one

---
 source/c-precompiled/sph-sp/filter.c | 10 ++++++----
 source/sc/sph-sp/filter.sc           | 15 +++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 7e73c38..71f4e1d 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -48,21 +48,23 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   /* assumes that ir-len is always greater zero */
   status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
   memreg_add(ir);
-  /* eventually extend carryover array. the array is never shrunk.
+  /* eventually extend carryover array. the array and carryover-len are never shrunk because
+  the array can contain values from a previous longer impulse response.
   carryover-len is at least ir-len - 1.
   carryover-alloc-len is the length of the whole array.
   new and extended areas must be set to zero */
   carryover_alloc_len = (ir_len - 1);
   if (state->carryover) {
     carryover = state->carryover;
-    if (ir_len > state->ir_len) {
+    if (carryover_alloc_len > state->carryover_len) {
       if (carryover_alloc_len > state->carryover_alloc_len) {
         status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&carryover))));
         state->carryover = carryover;
         state->carryover_alloc_len = carryover_alloc_len;
       };
       /* in any case reset the extended area */
-      memset(((state->ir_len - 1) + carryover), 0, ((ir_len - state->ir_len) * sizeof(sp_sample_t)));
+      memset((state->carryover_len + carryover), 0, ((carryover_alloc_len - state->carryover_len) * sizeof(sp_sample_t)));
+      state->carryover_len = carryover_alloc_len;
     };
   } else {
     if (carryover_alloc_len) {
@@ -71,9 +73,9 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
       carryover = 0;
     };
     state->carryover_alloc_len = carryover_alloc_len;
+    state->carryover_len = carryover_alloc_len;
   };
   state->carryover = carryover;
-  state->carryover_len = (ir_len - 1);
   memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
   state->ir_f_arguments_len = ir_f_arguments_len;
   state->ir_f = ir_f;
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 0661ba8..a076e66 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -46,7 +46,8 @@
   (status-require (ir-f ir-f-arguments &ir &ir-len))
   (memreg-add ir)
   (sc-comment
-    "eventually extend carryover array. the array is never shrunk."
+    "eventually extend carryover array. the array and carryover-len are never shrunk because"
+    "the array can contain values from a previous longer impulse response."
     "carryover-len is at least ir-len - 1."
     "carryover-alloc-len is the length of the whole array."
     "new and extended areas must be set to zero")
@@ -54,7 +55,7 @@
   (if state:carryover
     (begin
       (set carryover state:carryover)
-      (if (> ir-len state:ir-len)
+      (if (> carryover-alloc-len state:carryover-len)
         (begin
           (if (> carryover-alloc-len state:carryover-alloc-len)
             (begin
@@ -64,17 +65,19 @@
                 state:carryover carryover
                 state:carryover-alloc-len carryover-alloc-len)))
           (sc-comment "in any case reset the extended area")
-          (memset (+ (- state:ir-len 1) carryover) 0
-            (* (- ir-len state:ir-len) (sizeof sp-sample-t))))))
+          (memset (+ state:carryover-len carryover) 0
+            (* (- carryover-alloc-len state:carryover-len) (sizeof sp-sample-t)))
+          (set state:carryover-len carryover-alloc-len))))
     (begin
       (if carryover-alloc-len (status-require (sp-samples-new carryover-alloc-len &carryover))
         (set carryover 0))
-      (set state:carryover-alloc-len carryover-alloc-len)))
+      (set
+        state:carryover-alloc-len carryover-alloc-len
+        state:carryover-len carryover-alloc-len)))
   (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
   (free state:ir)
   (set
     state:carryover carryover
-    state:carryover-len (- ir-len 1)
     state:ir-f-arguments-len ir-f-arguments-len
     state:ir-f ir-f
     state:ir ir
-- 
2.43.0


From 82a5ccec156b4537dc5661bf4ff025b9d063b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 18/85] fix: moving average mirrors the end of the array

---
 source/c-precompiled/sph-sp/filter.c | 2 +-
 source/sc/sph-sp/filter.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 71f4e1d..6ef4983 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -348,7 +348,7 @@ void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp
     out[i] = (sum / width);
   };
   for (i = (in_size - radius); (i < in_size); i += 1) {
-    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((i + radius + 1) - in_size)] * -1))) - in[(i - radius - 1)]);
+    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((2 * in_size) - 2 - i - radius)] * -1))) - in[(i - radius - 1)]);
     out[i] = (sum / width);
   };
 }
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index a076e66..bfcf0e9 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -325,6 +325,6 @@
       (-
         (+ sum
           (if* next (array-get next (- i (- in-size radius)))
-            (* (array-get in (- (+ i radius 1) in-size)) -1)))
+            (* (array-get in (- (* 2 in-size) 2 i radius)) -1)))
         (array-get in (- i radius 1)))
       (array-get out i) (/ sum width))))
\ No newline at end of file
-- 
2.43.0


From fa826a924f4f420ff0ae01277b481d20c939caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 19/85] fix: sine tables of odd size hold exactly one period

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 71e6e35..605047b 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -189,7 +189,7 @@ sp_time_t sp_phase_float(sp_time_t current, sp_sample_t change, sp_time_t cycle)
    can be used to create lookup tables */
 void sp_sine_period(sp_time_t size, sp_sample_t* out) {
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sin((i * (M_PI / (size / 2))));
+    out[i] = sin((i * (M_PI / (size / 2.0))));
   };
 }
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 3a8ef8f..a9f0020 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -123,7 +123,7 @@
 (define (sp-sine-period size out) (void sp-time-t sp-sample-t*)
   "writes one full period of a sine wave into out. the sine has the frequency that makes it fit exactly into size.
    can be used to create lookup tables"
-  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2)))))))
+  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2.0)))))))
 
 (define (sp-wave size wvf wvf-size amp amod frq fmod phs-state out)
   (void sp-time-t sp-sample-t* sp-time-t sp-sample-t sp-sample-t* sp-time-t sp-time-t* sp-time-t* sp-sample-t*)
-- 
2.43.0


From 28bd9fd6b4f09e294141b598aa71e374345cb584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 20/85] fix: sp_wave without amplitude array applies the
 amplitude once

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 605047b..93e16c0 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -197,7 +197,7 @@ void sp_sine_period(sp_time_t size, sp_sample_t* out) {
 void sp_wave(sp_time_t size, sp_sample_t* wvf, sp_time_t wvf_size, sp_sample_t amp, sp_sample_t* amod, sp_time_t frq, sp_time_t* fmod, sp_time_t* phs_state, sp_sample_t* out) {
   sp_time_t phs = (phs_state ? *phs_state : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] += (amp * sp_optional_array_get(amod, amp, i) * wvf[phs]);
+    out[i] += (amp * sp_optional_array_get(amod, 1, i) * wvf[phs]);
     phs += sp_optional_array_get(fmod, frq, i);
     if (phs >= wvf_size) {
       phs = (phs % wvf_size);
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index a9f0020..cb54f92 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -130,7 +130,7 @@
   "sums to out"
   (define phs sp-time-t (if* phs-state *phs-state 0))
   (sp-for-each-index i size
-    (set+ (array-get out i) (* amp (sp-optional-array-get amod amp i) (array-get wvf phs))
+    (set+ (array-get out i) (* amp (sp-optional-array-get amod 1 i) (array-get wvf phs))
       phs (sp-optional-array-get fmod frq i))
     (if (>= phs wvf-size) (set phs (modulo phs wvf-size))))
   (if phs-state (set *phs-state phs)))
-- 
2.43.0


From 38877e0e99e185f687a9b7b408dc0422388b8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 21/85] fix: path functions with fixed arguments return their
 status

---
 source/c-precompiled/sph-sp/path.c | 16 ++++++++--------
 source/sc/sph-sp/path.sc           | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index fb60807..6b9761c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -44,14 +44,14 @@ exit:
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, 0); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, 0))); \
   } \
   status_t sp_path_##type_name##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { \
     sp_sample_t y[3]; \
     y[0] = y1; \
     y[1] = y2; \
     y[2] = y3; \
-    sp_path_##type_name(out, length, 3, (&x1), y, 0); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, 0))); \
   } \
   status_t sp_path_##type_name##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4) { \
     sp_sample_t x[2]; \
@@ -62,7 +62,7 @@ exit:
     y[1] = y2; \
     y[2] = y3; \
     y[3] = y4; \
-    sp_path_##type_name(out, length, 4, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 4, x, y, 0))); \
   } \
   status_t sp_path_##type_name##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5) { \
     sp_sample_t x[3]; \
@@ -75,13 +75,13 @@ exit:
     y[2] = y3; \
     y[3] = y4; \
     y[4] = y5; \
-    sp_path_##type_name(out, length, 5, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 5, x, y, 0))); \
   } \
   status_t sp_path_##type_name##_c##2(type * *out, sp_time_t length, sp_sample_t y1, sp_sample_t y2, sp_sample_t c1) { \
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, (&c1)); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, (&c1)))); \
   } \
   status_t sp_path_##type_name##_c##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { \
     sp_sample_t y[3]; \
@@ -91,7 +91,7 @@ exit:
     y[2] = y3; \
     c[0] = c1; \
     c[1] = c2; \
-    sp_path_##type_name(out, length, 3, (&x1), y, c); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, c))); \
   } \
   status_t sp_path_##type_name##_c##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { \
     sp_sample_t x[2]; \
@@ -106,7 +106,7 @@ exit:
     c[0] = c1; \
     c[1] = c2; \
     c[2] = c3; \
-    sp_path_##type_name(out, length, 4, x, y, c); \
+    return ((sp_path_##type_name(out, length, 4, x, y, c))); \
   } \
   status_t sp_path_##type_name##_c##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
     sp_sample_t x[3]; \
@@ -124,7 +124,7 @@ exit:
     c[1] = c2; \
     c[2] = c3; \
     c[3] = c4; \
-    sp_path_##type_name(out, length, 5, x, y, c); \
+    return ((sp_path_##type_name(out, length, 5, x, y, c))); \
   }
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 5c8d3fe..8388ae9 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -46,49 +46,49 @@
       (status-t type** sp-time-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 2))
       (array-set* y y1 y2)
-      ((pre-concat sp-path- type-name) out length 2 0 y 0))
+      (return ((pre-concat sp-path- type-name) out length 2 0 y 0)))
     (define ((pre-concat sp-path- type-name 3) out length x1 y1 y2 y3)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 3))
       (array-set* y y1 y2 y3)
-      ((pre-concat sp-path- type-name) out length 3 &x1 y 0))
+      (return ((pre-concat sp-path- type-name) out length 3 &x1 y 0)))
     (define ((pre-concat sp-path- type-name 4) out length x1 x2 y1 y2 y3 y4)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 2) y (array sp-sample-t 4))
       (array-set* x x1 x2)
       (array-set* y y1 y2 y3 y4)
-      ((pre-concat sp-path- type-name) out length 4 x y 0))
+      (return ((pre-concat sp-path- type-name) out length 4 x y 0)))
     (define ((pre-concat sp-path- type-name 5) out length x1 x2 x3 y1 y2 y3 y4 y5)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 3) y (array sp-sample-t 5))
       (array-set* x x1 x2 x3)
       (array-set* y y1 y2 y3 y4 y5)
-      ((pre-concat sp-path- type-name) out length 5 x y 0))
+      (return ((pre-concat sp-path- type-name) out length 5 x y 0)))
     (define ((pre-concat sp-path- type-name _c 2) out length y1 y2 c1)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 2))
       (array-set* y y1 y2)
-      ((pre-concat sp-path- type-name) out length 2 0 y &c1))
+      (return ((pre-concat sp-path- type-name) out length 2 0 y &c1)))
     (define ((pre-concat sp-path- type-name _c 3) out length x1 y1 y2 y3 c1 c2)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 3) c (array sp-sample-t 2))
       (array-set* y y1 y2 y3)
       (array-set* c c1 c2)
-      ((pre-concat sp-path- type-name) out length 3 &x1 y c))
+      (return ((pre-concat sp-path- type-name) out length 3 &x1 y c)))
     (define ((pre-concat sp-path- type-name _c 4) out length x1 x2 y1 y2 y3 y4 c1 c2 c3)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 2) y (array sp-sample-t 4) c (array sp-sample-t 3))
       (array-set* x x1 x2)
       (array-set* y y1 y2 y3 y4)
       (array-set* c c1 c2 c3)
-      ((pre-concat sp-path- type-name) out length 4 x y c))
+      (return ((pre-concat sp-path- type-name) out length 4 x y c)))
     (define ((pre-concat sp-path- type-name _c 5) out length x1 x2 x3 y1 y2 y3 y4 y5 c1 c2 c3 c4)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 3) y (array sp-sample-t 5) c (array sp-sample-t 4))
       (array-set* x x1 x2 x3)
       (array-set* y y1 y2 y3 y4 y5)
       (array-set* c c1 c2 c3 c4)
-      ((pre-concat sp-path- type-name) out length 5 x y c))))
+      (return ((pre-concat sp-path- type-name) out length 5 x y c)))))
 
 (sp-define-path-n samples sp-sample-t)
 (sp-define-path-n times sp-time-t)
-- 
2.43.0


From d6c0d41a1044368d9ae60f37e75dd24fe5363a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 22/85] fix: paths with negative curvature are curved

---
 source/c-precompiled/sph-sp/path.c | 4 ++--
 source/sc/sph-sp/path.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 6b9761c..7dee2c1 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -16,12 +16,12 @@ status_t sp_path_samples(sp_sample_t** out, sp_time_t length, sp_path_point_coun
   sp_sample_t yn = y[last_point_index];
   sp_sample_t cn = (c ? c[(last_point_index - 1)] : 0);
   segments[0] = spline_path_move(0, (y[0]));
-  segments[last_point_index] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+  segments[last_point_index] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   for (sp_path_point_count_t i = 1; (i < last_point_index); i += 1) {
     xn = x[(i - 1)];
     yn = y[i];
     cn = (c ? c[(i - 1)] : 0);
-    segments[i] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+    segments[i] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   };
   spline_path_set((&path), segments, point_count);
   status_require((sp_samples_new(length, out)));
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 8388ae9..c2ddc09 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -18,14 +18,14 @@
   (set
     (array-get segments 0) (spline-path-move 0 (array-get y 0))
     (array-get segments last-point-index)
-    (if* (< cn 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn)))
+    (if* (< (fabs cn) 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn)))
   (for ((define i sp-path-point-count-t 1) (< i last-point-index) (set+ i 1))
     (set
       xn (array-get x (- i 1))
       yn (array-get y i)
       cn (if* c (array-get c (- i 1)) 0)
       (array-get segments i)
-      (if* (< cn 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn))))
+      (if* (< (fabs cn) 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn))))
   (spline-path-set &path segments point-count)
   (status-require (sp-samples-new length out))
   (spline-path-get &path 0 length *out)
-- 
2.43.0


From 38a063abe78b45135b96ef35c24196bf64686f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 23/85] fix: perpendicular point of falling, flat and steep
 lines stays within the rectangle

---
 .../c/foreign/sph-sc-lib/sph-sp/spline-path.c | 83 +++++--------------
 1 file changed, 19 insertions(+), 64 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 2ccec1c..bff7dd3 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -285,76 +285,31 @@ spline_path_segment_t spline_path_bezier2(spline_path_value_t x1, spline_path_va
 spline_path_point_t spline_path_perpendicular_point(spline_path_point_t p1, spline_path_point_t p2, spline_path_value_t distance) {
   spline_path_point_t c;
   spline_path_point_t d;
-  spline_path_point_t b1;
-  spline_path_point_t b2;
-  spline_path_point_t t1;
-  spline_path_point_t t2;
-  spline_path_point_t i1;
-  spline_path_point_t i2;
-  spline_path_value_t m;
-  spline_path_point_t result;
+  spline_path_value_t t;
+  spline_path_value_t t_y;
   /* center point */
   c.x = ((p1.x + p2.x) / 2);
   c.y = ((p1.y + p2.y) / 2);
-  if (0 == distance) {
+  /* vertical and horizontal rectangles have no extent across the line */
+  if ((0 == distance) || (p1.x == p2.x) || (p1.y == p2.y)) {
     return (c);
   };
-  /* perpendicular direction vector */
-  d.x = (-1 * (p2.y - p1.y));
-  d.y = (p2.x - p1.x);
-  /* vertical, horizontal or else */
-  if (0 == d.x) {
-    i1.x = c.x;
-    i1.y = 0;
-    i2.x = c.x;
-    i2.y = p2.y;
-  } else if (0 == d.y) {
-    i1.x = 0;
-    i1.y = c.y;
-    i2.x = p2.x;
-    i2.y = c.y;
-  } else {
-    /* border points */
-    if (d.x > 0) {
-      b1.x = p2.x;
-      b2.x = p1.x;
-    } else {
-      b1.x = p1.x;
-      b2.x = p2.x;
-    };
-    if (d.y > 0) {
-      b1.y = p2.y;
-      b2.y = p1.y;
-    } else {
-      b1.y = p1.y;
-      b2.y = p2.y;
-    };
-    t1.x = ((b1.x - c.x) / d.x);
-    t1.y = ((b1.y - c.y) / d.y);
-    t2.x = ((b2.x - c.x) / d.x);
-    t2.y = ((b2.y - c.y) / d.y);
-    if (t1.x <= t1.y) {
-      i1.x = b1.x;
-      i1.y = (c.y + (t1.x * d.y));
-    } else {
-      i1.y = b1.y;
-      i1.x = (c.x + (t1.y * d.x));
-    };
-    if (t2.x >= t2.y) {
-      i2.x = b2.x;
-      i2.y = (c.y + (t2.x * d.y));
-    } else {
-      i2.y = b2.y;
-      i2.x = (c.x + (t2.y * d.x));
-    };
+  /* perpendicular direction vector, pointing to the height of p1 */
+  d.x = (p2.y - p1.y);
+  d.y = (p1.x - p2.x);
+  if ((d.y > 0) != (p1.y > p2.y)) {
+    d.x = (-1 * d.x);
+    d.y = (-1 * d.y);
+  };
+  /* distance to the nearest border */
+  t = fabs(((p2.x - p1.x) / (2 * d.x)));
+  t_y = fabs(((p2.y - p1.y) / (2 * d.y)));
+  if (t_y < t) {
+    t = t_y;
   };
-  /* normalized direction vector */
-  m = sqrt(((d.x * d.x) + (d.y * d.y)));
-  d.x = ((i2.x - i1.x) / m);
-  d.y = ((i2.y - i1.y) / m);
-  result.x = (c.x + (0.5 * distance * m * d.x));
-  result.y = (c.y + (0.5 * distance * m * d.y));
-  return (result);
+  c.x += (distance * t * d.x);
+  c.y += (distance * t * d.y);
+  return (c);
 }
 uint8_t spline_path_bezier_arc_prepare(spline_path_segment_t* s) {
   (s->points)[1] = spline_path_perpendicular_point(((s->points)[0]), ((s->points)[2]), (((s->points)[1]).y));
-- 
2.43.0


From aa78930f55cf5d8def833fecca858bcf570fd119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 24/85] fix: bezier segments write only the requested range and
 do not depend on it

---
 .../c/foreign/sph-sc-lib/sph-sp/spline-path.c | 50 +++++++------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index bff7dd3..7088abb 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -157,57 +157,41 @@ void spline_path_line_generate(size_t start, size_t end, spline_path_segment_t*
 void spline_path_path_generate(size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) { spline_path_get(((spline_path_t*)(s->data)), (start - s->points->x), (end - s->points->x), out); }
 
 /** quadratic bezier curve with one control point.
-   bezier interpolation also interpolates x. higher resolution sampling and linear interpolation are used to fill gaps */
+   bezier interpolation also interpolates x. higher resolution sampling and linear interpolation are used to fill gaps.
+   samples the segment from its beginning so that values do not depend on which part of it is requested */
 void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_path_value_t, spline_path_value_t, spline_path_point_t*, size_t), size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) {
   spline_path_value_t mt;
   spline_path_point_t p_end;
   spline_path_point_t p_start;
   spline_path_value_t s_size;
   spline_path_value_t t;
-  size_t b_size;
   size_t x;
   size_t x_previous;
-  spline_path_value_t y_previous;
-  size_t i;
-  size_t j;
   spline_path_value_t y;
+  spline_path_value_t y_previous;
+  if (start >= end) {
+    return;
+  };
   p_start = (s->points)[0];
   p_end = (s->points)[(s->points_count - 1)];
-  b_size = (spline_path_bezier_resolution * (end - start));
   s_size = (spline_path_bezier_resolution * (p_end.x - p_start.x));
-  for (i = (start - p_start.x), x_previous = start; ((i < b_size) || (x < end)); i += 1, x_previous = x) {
+  x_previous = p_start.x;
+  y_previous = p_start.y;
+  if (start == x_previous) {
+    out[0] = y_previous;
+  };
+  for (size_t i = 0; ((i <= s_size) && (x_previous < end)); i += 1, x_previous = x, y_previous = y) {
     t = (i / s_size);
     mt = (1.0 - t);
     x = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
     y = interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, y)));
-    if (x < end) {
-      out[(x - start)] = y;
-    };
-    if (2 > (x - x_previous)) {
-      continue;
-    };
-    if (start < x_previous) {
-      y_previous = out[(x_previous - start)];
-    } else {
-      /* gap at the beginning. find value for x before start */
-      for (j = i; j; j -= 1) {
-        t = (j / s_size);
-        mt = (1.0 - t);
-        x_previous = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
-        if (x_previous < x) {
-          break;
-        };
-      };
-      if (j) {
-        y_previous = p_start.y;
-      } else {
-        y_previous = p_start.y;
-        x_previous = p_start.x;
+    for (size_t j = (x_previous + 1); ((j < x) && (j < end)); j += 1) {
+      if (start <= j) {
+        out[(j - start)] = linearly_interpolate(y_previous, y, ((j - x_previous) / ((spline_path_value_t)((x - x_previous)))));
       };
     };
-    for (j = 1; (j < (x - x_previous)); j += 1) {
-      t = (j / ((spline_path_value_t)((x - x_previous))));
-      out[((x_previous + j) - start)] = linearly_interpolate(y_previous, y, t);
+    if ((start <= x) && (x < end)) {
+      out[(x - start)] = y;
     };
   };
 }
-- 
2.43.0


From 93644dc651f5c8d21722ae391e6cce1985a8c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 25/85] fix: nested paths are drawn with their length after the
 preceding segment

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 7088abb..ea3d1a1 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -57,6 +57,7 @@ size_t spline_path_size(spline_path_t path) {
 }
 uint8_t spline_path_path_prepare(spline_path_segment_t* s) {
   (s->points)[1] = spline_path_end((*((spline_path_t*)(s->data))));
+  ((s->points)[1]).x += ((s->points)[0]).x;
   return (0);
 }
 uint8_t spline_path_constant_prepare(spline_path_segment_t* s) {
@@ -237,7 +238,7 @@ spline_path_segment_t spline_path_path(spline_path_t path) {
   };
   s.free = free;
   s.generate = spline_path_path_generate;
-  s.points_count = 1;
+  s.points_count = 2;
   s.prepare = spline_path_path_prepare;
   return (s);
 }
-- 
2.43.0


From b8e950256001520c19c0f319d554e04e14806207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 26/85] fix: paths can be read again from the same or a later
 start

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index ea3d1a1..eedeed5 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -21,15 +21,20 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
   size_t s_start;
   size_t s_end;
   size_t out_start;
-  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); path->current_segment_index = i, i += 1) {
+  if (start < path->previous_start) {
+    path->current_segment_index = 0;
+  };
+  path->previous_start = start;
+  for (spline_path_segment_count_t i = path->current_segment_index; (i < path->segments_count); i += 1) {
     s = (path->segments + i);
     s_start = ((s->points)[0]).x;
     s_end = ((s->points)[(s->points_count - 1)]).x;
-    path->previous_start = start;
     if (s_start > end) {
       break;
     };
     if (s_end < start) {
+      /* not needed anymore for this or any later start */
+      path->current_segment_index = i;
       continue;
     };
     out_start = ((s_start > start) ? (s_start - start) : 0);
-- 
2.43.0


From 71b6fa3ef904015cc50cfbcce8542d2ea324c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 27/85] fix: envelopes use all their x and y values and only
 those

---
 source/c-precompiled/sph-sp/path.c | 22 +++++++++++++---------
 source/sc/sph-sp/path.sc           | 30 ++++++++++++++++--------------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 7dee2c1..375d0f2 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -133,15 +133,17 @@ sp_define_path_n(samples, sp_sample_t)
      x values will be multiplied by length.
      x values will be cumulative (0.1, 0.2) -> 0.3 */
   status_t sp_envelope_zero(sp_sample_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t x_sum = 0;
   path_y[0] = 0;
   path_y[(point_count - 1)] = 0;
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
-    path_y[i] = y[i];
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    x_sum += (x[(i - 1)] * length);
+    path_x[(i - 1)] = x_sum;
+    path_y[i] = y[(i - 1)];
   };
-  return ((sp_path_samples(out, length, point_count, x, path_y, c)));
+  return ((sp_path_samples(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_zero_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1) { return ((sp_path_##type_name##3(out, length, (x1 * length), 0, y1, 0))); } \
@@ -167,15 +169,17 @@ sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
      x values will be cumulative (0.1, 0.2) -> 0.3.
      x values will be multiplied by length */
   status_t sp_envelope_scaled(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t y_scalar, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t x_sum = 0;
   path_y[0] = (y_scalar * y[0]);
   path_y[(point_count - 1)] = (y_scalar * y[(point_count - 1)]);
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    x_sum += (x[(i - 1)] * length);
+    path_x[(i - 1)] = x_sum;
     path_y[i] = (y_scalar * y[i]);
   };
-  return ((sp_path_times(out, length, point_count, x, path_y, c)));
+  return ((sp_path_times(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_scaled_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { return ((sp_path_##type_name##3(out, length, (x1 * length), (y1 * y_scalar), (y2 * y_scalar), (y3 * y_scalar)))); } \
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index c2ddc09..a10d916 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -98,14 +98,15 @@
   "x, y and c length is point_count minus two.
    x values will be multiplied by length.
    x values will be cumulative (0.1, 0.2) -> 0.3"
-  (declare path-y (array sp-sample-t sp-path-point-count-limit))
-  (set* (array-get x 1) length)
+  (declare
+    path-x (array sp-sample-t sp-path-point-count-limit)
+    path-y (array sp-sample-t sp-path-point-count-limit))
+  (define x-sum sp-sample-t 0)
   (set (array-get path-y 0) 0 (array-get path-y (- point-count 1)) 0)
-  (for ((define i sp-path-point-count-t 2) (< i (- point-count 1)) (set+ i 1))
-    (set
-      (array-get x i) (+ (array-get x (- i 1)) (* (array-get x i) length))
-      (array-get path-y i) (array-get y i)))
-  (return (sp-path-samples out length point-count x path-y c)))
+  (for ((define i sp-path-point-count-t 1) (< i (- point-count 1)) (set+ i 1))
+    (set+ x-sum (* (array-get x (- i 1)) length))
+    (set (array-get path-x (- i 1)) x-sum (array-get path-y i) (array-get y (- i 1))))
+  (return (sp-path-samples out length point-count path-x path-y c)))
 
 (pre-define (sp-define-envelope-zero-n prefix type-name type)
   (begin
@@ -144,16 +145,17 @@
    x length is point_count minus two.
    x values will be cumulative (0.1, 0.2) -> 0.3.
    x values will be multiplied by length"
-  (declare path-y (array sp-sample-t sp-path-point-count-limit))
-  (set* (array-get x 1) length)
+  (declare
+    path-x (array sp-sample-t sp-path-point-count-limit)
+    path-y (array sp-sample-t sp-path-point-count-limit))
+  (define x-sum sp-sample-t 0)
   (set
     (array-get path-y 0) (* y-scalar (array-get y 0))
     (array-get path-y (- point-count 1)) (* y-scalar (array-get y (- point-count 1))))
-  (for ((define i sp-path-point-count-t 2) (< i (- point-count 1)) (set+ i 1))
-    (set
-      (array-get x i) (+ (array-get x (- i 1)) (* (array-get x i) length))
-      (array-get path-y i) (* y-scalar (array-get y i))))
-  (return (sp-path-times out length point-count x path-y c)))
+  (for ((define i sp-path-point-count-t 1) (< i (- point-count 1)) (set+ i 1))
+    (set+ x-sum (* (array-get x (- i 1)) length))
+    (set (array-get path-x (- i 1)) x-sum (array-get path-y i) (* y-scalar (array-get y i))))
+  (return (sp-path-times out length point-count path-x path-y c)))
 
 (pre-define (sp-define-envelope-scaled-n prefix type-name type)
   (begin
-- 
2.43.0


From 2a4530d50d2bbc7aeef379917450a6ff19e147f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 28/85] fix: the declared sp_envelope_scaled_c variants exist

---
 source/c-precompiled/sph-sp/path.c |  8 ++++++++
 source/sc/sph-sp/path.sc           | 20 +++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 375d0f2..e605668 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -189,5 +189,13 @@ sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
     x2 = (x1 + (x2 * length)); \
     x3 = (x2 + (x3 * length)); \
     return ((sp_path_##type_name##5(out, length, x1, x2, x3, (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), (y_scalar * y5)))); \
+  } \
+  status_t prefix##_c##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { return ((sp_path_##type_name##_c##3(out, length, (x1 * length), (y1 * y_scalar), (y2 * y_scalar), (y3 * y_scalar), c1, c2))); } \
+  status_t prefix##_c##4(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { return ((sp_path_##type_name##_c##4(out, length, (x1 * length), ((x1 * length) + (x2 * length)), (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), c1, c2, c3))); } \
+  status_t prefix##_c##5(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
+    x1 *= length; \
+    x2 = (x1 + (x2 * length)); \
+    x3 = (x2 + (x3 * length)); \
+    return ((sp_path_##type_name##_c##5(out, length, x1, x2, x3, (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), (y_scalar * y5), c1, c2, c3, c4))); \
   }
 sp_define_envelope_scaled_n(sp_envelope_scaled, times, sp_time_t)
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index a10d916..a12ac34 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -176,6 +176,24 @@
       (set x2 (+ x1 (* x2 length)) x3 (+ x2 (* x3 length)))
       (return
         ( (pre-concat sp-path- type-name 5) out length
-          x1 x2 x3 (* y-scalar y1) (* y-scalar y2) (* y-scalar y3) (* y-scalar y4) (* y-scalar y5))))))
+          x1 x2 x3 (* y-scalar y1) (* y-scalar y2) (* y-scalar y3) (* y-scalar y4) (* y-scalar y5))))
+    (define ((pre-concat prefix _c 3) out length y-scalar x1 y1 y2 y3 c1 c2)
+      (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
+      (return
+        ( (pre-concat sp-path- type-name _c 3) out length
+          (* x1 length) (* y1 y-scalar) (* y2 y-scalar) (* y3 y-scalar) c1 c2)))
+    (define ((pre-concat prefix _c 4) out length y-scalar x1 x2 y1 y2 y3 y4 c1 c2 c3)
+      (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
+      (return
+        ( (pre-concat sp-path- type-name _c 4) out length
+          (* x1 length) (+ (* x1 length) (* x2 length)) (* y-scalar y1)
+          (* y-scalar y2) (* y-scalar y3) (* y-scalar y4) c1 c2 c3)))
+    (define ((pre-concat prefix _c 5) out length y-scalar x1 x2 x3 y1 y2 y3 y4 y5 c1 c2 c3 c4)
+      (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
+      (set* x1 length)
+      (set x2 (+ x1 (* x2 length)) x3 (+ x2 (* x3 length)))
+      (return
+        ( (pre-concat sp-path- type-name _c 5) out length
+          x1 x2 x3 (* y-scalar y1) (* y-scalar y2) (* y-scalar y3) (* y-scalar y4) (* y-scalar y5) c1 c2 c3 c4)))))
 
 (sp-define-envelope-scaled-n sp-envelope-scaled times sp-time-t)
\ No newline at end of file
-- 
2.43.0


From 6099c0dc5e187b2fd6460a43e972869808961547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 29/85] fix: and_ selection compares both arrays with the limit

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index edd31bb..80bfa72 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -150,7 +150,7 @@
   /** if a[i] and b[i] greater than limit, take b[i] else 0 */ \
   void sp_##type_name##_and_##type_name(value_t* a, value_t* b, sp_size_t count, value_t limit, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      if ((a[i] >= limit) && (a[i] >= limit)) { \
+      if ((a[i] >= limit) && (b[i] >= limit)) { \
         out[i] = b[i]; \
       } else { \
         out[i] = 0; \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 7428536..29998ac 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -103,7 +103,7 @@
       (void value-t* value-t* sp-size-t value-t value-t*)
       "if a[i] and b[i] greater than limit, take b[i] else 0"
       (sp-for-each-index i count
-        (if (and (>= (array-get a i) limit) (>= (array-get a i) limit))
+        (if (and (>= (array-get a i) limit) (>= (array-get b i) limit))
           (set (array-get out i) (array-get b i))
           (set (array-get out i) 0))))
     (define ((pre-concat sp_ type-name _or_ type-name) a b count limit out)
-- 
2.43.0


From c12ed9bbc56d6765895492feeabaa1e70a31b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 30/85] fix: absolute_max of samples keeps the fraction

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 80bfa72..5b84b90 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -36,8 +36,8 @@
 \
   /** get the maximum value in samples array, disregarding sign */ \
   value_t sp_##type_name##_absolute_max(value_t* in, sp_size_t count) { \
-    sp_time_t temp; \
-    sp_time_t max; \
+    value_t temp; \
+    value_t max; \
     max = 0; \
     for (sp_size_t i = 0; (i < count); i += 1) { \
       temp = sp_inline_abs((in[i])); \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 29998ac..a78d08e 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -28,7 +28,7 @@
       (return out))
     (define ((pre-concat sp_ type-name _absolute-max) in count) (value-t value-t* sp-size-t)
       "get the maximum value in samples array, disregarding sign"
-      (declare temp sp-time-t max sp-time-t)
+      (declare temp value-t max value-t)
       (set max 0)
       (sp-for-each-index i count
         (set temp (sp-inline-abs (array-get in i)))
-- 
2.43.0


From 99c4400bb8eb408bfe3271ac26aaf6cce00cec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 31/85] fix: reverse writes the elements to indices inside of
 the output

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 5b84b90..85cf2d0 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -49,7 +49,7 @@
   } \
   void sp_##type_name##_reverse(value_t* in, sp_size_t count, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      out[(count - i)] = in[i]; \
+      out[(count - 1 - i)] = in[i]; \
     }; \
   } \
   sp_bool_t sp_##type_name##_equal(value_t* in, sp_size_t count, value_t value) { \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index a78d08e..90ad408 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -35,7 +35,7 @@
         (if (> temp max) (set max temp)))
       (return max))
     (define ((pre-concat sp_ type-name _reverse) in count out) (void value-t* sp-size-t value-t*)
-      (sp-for-each-index i count (set (array-get out (- count i)) (array-get in i))))
+      (sp-for-each-index i count (set (array-get out (- count 1 i)) (array-get in i))))
     (define ((pre-concat sp_ type-name _equal) in count value)
       (sp-bool-t value-t* sp-size-t value-t)
       (sp-for-each-index i count (if (not (= value (array-get in i))) (return 0)))
-- 
2.43.0


From 3aa5c42b6cd95979b1b246bafd12205be5b7e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 32/85] fix: swap and shuffle of samples exchange samples

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/c-precompiled/sph-sp/arrays-template.h | 2 +-
 source/sc/sph-sp/arrays-template.h.sc         | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 85cf2d0..6b4d0ec 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -107,8 +107,8 @@
       out[i] = sum; \
     }; \
   } \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
-    sp_time_t temp = in_out[index_1]; \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
+    value_t temp = in_out[index_1]; \
     in_out[index_1] = in_out[index_2]; \
     in_out[index_2] = temp; \
   } \
diff --git a/source/c-precompiled/sph-sp/arrays-template.h b/source/c-precompiled/sph-sp/arrays-template.h
index 6c30c35..a48cf30 100644
--- a/source/c-precompiled/sph-sp/arrays-template.h
+++ b/source/c-precompiled/sph-sp/arrays-template.h
@@ -17,7 +17,7 @@
   status_t sp_##type_name##_new(sp_size_t count, value_t** out); \
   void sp_##type_name##_copy(value_t* in, sp_size_t count, value_t* out); \
   void sp_##type_name##_cusum(value_t* in, value_t count, value_t* out); \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
   void sp_##type_name##_shuffle(value_t* in, sp_size_t count); \
   void sp_##type_name##_array_free(value_t** in, sp_size_t count); \
   void sp_##type_name##_additions(value_t start, value_t summand, value_t count, value_t* out); \
diff --git a/source/sc/sph-sp/arrays-template.h.sc b/source/sc/sph-sp/arrays-template.h.sc
index 8b4088e..d7896f4 100644
--- a/source/sc/sph-sp/arrays-template.h.sc
+++ b/source/sc/sph-sp/arrays-template.h.sc
@@ -17,7 +17,7 @@
     ((pre-concat sp_ type-name _new) count out) (status-t sp-size-t value-t**)
     ((pre-concat sp_ type-name _copy) in count out) (void value-t* sp-size-t value-t*)
     ((pre-concat sp_ type-name _cusum) in count out) (void value-t* value-t value-t*)
-    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void sp-time-t* sp-ssize-t sp-ssize-t)
+    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void value-t* sp-ssize-t sp-ssize-t)
     ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
     ((pre-concat sp_ type-name _array-free) in count) (void value-t** sp-size-t)
     ((pre-concat sp_ type-name _additions) start summand count out)
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 90ad408..fd2cdff 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -68,8 +68,8 @@
         (set+ sum (array-get in i))
         (set (array-get out i) sum)))
     (define ((pre-concat sp_ type-name _swap) in-out index-1 index-2)
-      (void sp-time-t* sp-ssize-t sp-ssize-t)
-      (define temp sp-time-t (array-get in-out index-1))
+      (void value-t* sp-ssize-t sp-ssize-t)
+      (define temp value-t (array-get in-out index-1))
       (set (array-get in-out index-1) (array-get in-out index-2) (array-get in-out index-2) temp))
     (define ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
       (sp-shuffle
-- 
2.43.0


From c8a891a7a1823bf6fce98dc4c78722fe27db5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 33/85] fix: round_to_multiple returns a multiple

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 6b4d0ec..c927e26 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -10,7 +10,7 @@
   uint8_t sp_##value_type_name##_sort_less(void* a, ssize_t b, ssize_t c) { return ((((value_t*)(a))[b] < ((value_t*)(a))[c])); } \
 \
   /** round to the next integer multiple of base  */ \
-  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : sp_cheap_round_positive(((a / ((sp_sample_t)(base))) * base)))); } \
+  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : (base * sp_cheap_round_positive((a / ((sp_sample_t)(base))))))); } \
 \
   /** count must be greater than zero */ \
   value_t sp_##type_name##_min(value_t* in, sp_size_t count) { \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index fd2cdff..c7da2fc 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -13,7 +13,7 @@
     (define ((pre-concat sp_ value-type-name _round-to-multiple) a base) (value-t value-t value-t)
       "round to the next integer multiple of base "
       (return
-        (if* (= 0 a) base (sp-cheap-round-positive (* (/ a (convert-type base sp-sample-t)) base)))))
+        (if* (= 0 a) base (* base (sp-cheap-round-positive (/ a (convert-type base sp-sample-t)))))))
     (define ((pre-concat sp_ type-name _min) in count) (value-t value-t* sp-size-t)
       "count must be greater than zero"
       (define out value-t (array-get in 0))
-- 
2.43.0


From d7dba5009347f512cef5360d55162607958dc5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 34/85] fix: sp_times_bits_to_times works in place

---
 source/c-precompiled/sph-sp/arrays.c | 20 ++++----------------
 source/sc/sph-sp/arrays.sc           | 15 +++++----------
 2 files changed, 9 insertions(+), 26 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 84d7d77..34ddad9 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -210,22 +210,10 @@ void sp_times_select(sp_time_t* in, sp_time_t* indices, sp_time_t count, sp_time
 /** store the bits of a as uint8 in b. size is the number of bits to take.
    a/out can be the same pointer */
 void sp_times_bits_to_times(sp_time_t* a, sp_time_t size, sp_time_t* out) {
-  sp_time_t i;
-  sp_time_t a_i;
-  sp_time_t bits_i;
-  sp_time_t mask;
-  i = 0;
-  a_i = 0;
-  while ((i < size)) {
-    mask = 1;
-    bits_i = 0;
-    while (((bits_i < (sizeof(sp_time_t) * 8)) && (i < size))) {
-      out[i] = ((a[a_i] & mask) ? 1 : 0);
-      mask = (mask << 1);
-      i += 1;
-      bits_i += 1;
-    };
-    a_i += 1;
+  sp_time_t bits = (sizeof(sp_time_t) * 8);
+  /* from the end, so that elements are not overwritten before they are read */
+  for (sp_time_t i = size; i; i -= 1) {
+    out[(i - 1)] = (1 & (a[((i - 1) / bits)] >> ((i - 1) % bits)));
   };
 }
 
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 43fb45c..10bc682 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -140,16 +140,11 @@
 (define (sp-times-bits->times a size out) (void sp-time-t* sp-time-t sp-time-t*)
   "store the bits of a as uint8 in b. size is the number of bits to take.
    a/out can be the same pointer"
-  (declare i sp-time-t a-i sp-time-t bits-i sp-time-t mask sp-time-t)
-  (set i 0 a-i 0)
-  (while (< i size)
-    (set mask 1 bits-i 0)
-    (while (and (< bits-i (* (sizeof sp-time-t) 8)) (< i size))
-      (set
-        (array-get out i) (if* (bit-and (array-get a a-i) mask) 1 0)
-        mask (bit-shift-left mask 1))
-      (set+ i 1 bits-i 1))
-    (set+ a-i 1)))
+  (define bits sp-time-t (* (sizeof sp-time-t) 8))
+  (sc-comment "from the end, so that elements are not overwritten before they are read")
+  (for ((define i sp-time-t size) i (set- i 1))
+    (set (array-get out (- i 1))
+      (bit-and 1 (bit-shift-right (array-get a (/ (- i 1) bits)) (modulo (- i 1) bits))))))
 
 (define (sp-times-random-binary size out) (status-t sp-time-t sp-time-t*)
   "write to out values that are randomly either 1 or 0"
-- 
2.43.0


From 2e236ca8edb31b1c02229b1a9e7715eaa9d0152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 35/85] fix: sp_times_scale_sum scales the input

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 34ddad9..ff72ac0 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -296,7 +296,7 @@ void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2) {
 void sp_times_scale_sum(sp_time_t* in, sp_size_t count, sp_time_t sum, sp_time_t* out) {
   sp_sample_t factor = (((sp_sample_t)(sum)) / sp_times_sum(in, count));
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_cheap_round_positive((out[i] * factor));
+    out[i] = sp_cheap_round_positive((in[i] * factor));
   };
 }
 
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 10bc682..bad49a7 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -215,7 +215,7 @@
    a/out can be the same pointer"
   (define factor sp-sample-t (/ (convert-type sum sp-sample-t) (sp-times-sum in count)))
   (sp-for-each-index i count
-    (set (array-get out i) (sp-cheap-round-positive (* (array-get out i) factor)))))
+    (set (array-get out i) (sp-cheap-round-positive (* (array-get in i) factor)))))
 
 (define (sp-times-multiplications start factor count out)
   (void sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From 25278088d570482e9a79ec99e3aaf8a9b7787efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 36/85] fix: sp_samples_scale_sum writes the output

---
 source/c-precompiled/sph-sp/arrays.c | 6 ++++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index ff72ac0..9f623e6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -544,8 +544,10 @@ void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y)
 /** adjust all values, keeping relative sizes, so that the sum is n.
    a/out can be the same pointer */
 void sp_samples_scale_sum(sp_sample_t* in, sp_size_t count, sp_sample_t target_y, sp_sample_t* out) {
-  sp_sample_t sum = sp_samples_sum(in, count);
-  sp_samples_multiply(in, count, (target_y / sum));
+  sp_sample_t factor = (target_y / sp_samples_sum(in, count));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = (in[i] * factor);
+  };
 }
 
 /** interpolate values pointwise between $a and $b with fraction as a fixed interpolation distance 0..1 */
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index bad49a7..a6ac8a9 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -409,8 +409,8 @@
   (void sp-sample-t* sp-size-t sp-sample-t sp-sample-t*)
   "adjust all values, keeping relative sizes, so that the sum is n.
    a/out can be the same pointer"
-  (define sum sp-sample-t (sp-samples-sum in count))
-  (sp-samples-multiply in count (/ target-y sum)))
+  (define factor sp-sample-t (/ target-y (sp-samples-sum in count)))
+  (sp-for-each-index i count (set (array-get out i) (* (array-get in i) factor))))
 
 (define (sp-samples-blend a b fraction size out)
   (void sp-sample-t* sp-sample-t* sp-sample-t sp-time-t sp-sample-t*)
-- 
2.43.0


From a04d3b97766c5d4fa1aee84da778bf430e1ef50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 37/85] fix: sp_times_scale_y scales by fractions and writes
 the output

---
 source/c-precompiled/sph-sp/arrays.c | 6 ++++--
 source/sc/sph-sp/arrays.sc           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 9f623e6..b256946 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -409,8 +409,10 @@ void sp_times_limit(sp_time_t* a, sp_time_t count, sp_time_t n, sp_time_t* out)
 /** adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer */
 void sp_times_scale_y(sp_time_t* in, sp_size_t count, sp_time_t target_y, sp_time_t* out) {
-  sp_time_t max = sp_times_absolute_max(in, count);
-  sp_times_multiply(in, count, (target_y / max));
+  sp_sample_t factor = (((sp_sample_t)(target_y)) / sp_times_absolute_max(in, count));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = sp_cheap_round_positive((in[i] * factor));
+  };
 }
 
 /** remove count subsequent elements at index from in and write the result to out */
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index a6ac8a9..aff6b63 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -301,8 +301,10 @@
 (define (sp-times-scale-y in count target-y out) (void sp-time-t* sp-size-t sp-time-t sp-time-t*)
   "adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer"
-  (define max sp-time-t (sp-times-absolute-max in count))
-  (sp-times-multiply in count (/ target-y max)))
+  (define factor sp-sample-t
+    (/ (convert-type target-y sp-sample-t) (sp-times-absolute-max in count)))
+  (sp-for-each-index i count
+    (set (array-get out i) (sp-cheap-round-positive (* (array-get in i) factor)))))
 
 (define (sp-times-remove in size index count out)
   (void sp-time-t* sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From 8474aaab3e1824cbdfd3e86deecd77987c88acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 38/85] fix: sp_samples_scale_y scales to the target

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index b256946..bab5522 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -540,7 +540,7 @@ void sp_samples_divisions(sp_sample_t start, sp_sample_t divisor, sp_time_t coun
    a/out can be the same pointer */
 void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y) {
   sp_sample_t max = sp_samples_absolute_max(in, count);
-  sp_samples_multiply(in, count, (count / max));
+  sp_samples_multiply(in, count, (target_y / max));
 }
 
 /** adjust all values, keeping relative sizes, so that the sum is n.
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index aff6b63..2ab453f 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -405,7 +405,7 @@
   "adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer"
   (define max sp-sample-t (sp-samples-absolute-max in count))
-  (sp-samples-multiply in count (/ count max)))
+  (sp-samples-multiply in count (/ target-y max)))
 
 (define (sp-samples-scale-sum in count target-y out)
   (void sp-sample-t* sp-size-t sp-sample-t sp-sample-t*)
-- 
2.43.0


From d651c5952e3738d2487338f48bad512691495556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 39/85] fix: sp_times_extract_in_range extracts only values in
 the range

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index bab5522..51d9648 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -362,8 +362,8 @@ void sp_times_mask(sp_time_t* a, sp_time_t* b, sp_sample_t* coefficients, sp_tim
 void sp_times_extract_in_range(sp_time_t* a, sp_time_t size, sp_time_t min, sp_time_t max, sp_time_t* out, sp_time_t* out_size) {
   *out_size = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
-    if ((a[i] <= max) || (a[i] >= min)) {
-      out[i] = a[i];
+    if ((a[i] <= max) && (a[i] >= min)) {
+      out[*out_size] = a[i];
       *out_size += 1;
     };
   };
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 2ab453f..1402e0d 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -269,8 +269,8 @@
   "extract values between min/max inclusive and write to out"
   (set *out-size 0)
   (sp-for-each-index i size
-    (if (or (<= (array-get a i) max) (>= (array-get a i) min))
-      (begin (set (array-get out i) (array-get a i)) (set+ *out-size 1)))))
+    (if (and (<= (array-get a i) max) (>= (array-get a i) min))
+      (begin (set (array-get out *out-size) (array-get a i)) (set+ *out-size 1)))))
 
 (define (sp-times-make-seamless-right a a-count b b-count out)
   (void sp-time-t* sp-time-t sp-time-t* sp-time-t sp-time-t*)
-- 
2.43.0


From b48d3e3ca27ebb3f56e1432937e8d133643b5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 40/85] fix: seamless joining interpolates and stays inside of
 the arrays

---
 source/c-precompiled/sph-sp/arrays.c | 6 +++---
 source/sc/sph-sp/arrays.sc           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 51d9648..148cd52 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -380,7 +380,7 @@ void sp_times_make_seamless_right(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
     out[i] = a[i];
   };
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / count));
+    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / ((sp_sample_t)(count))));
   };
 }
 
@@ -392,9 +392,9 @@ void sp_times_make_seamless_left(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
   count = sp_inline_min(b_count, (a_count / 2));
   start = (a_count - count);
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - i)]), ((1 + i) / count));
+    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - (1 + i))]), ((count - i) / ((sp_sample_t)(count))));
   };
-  for (i = (count - 1); (i < b_count); i += 1) {
+  for (i = count; (i < b_count); i += 1) {
     out[i] = b[i];
   };
 }
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 1402e0d..b5c5697 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -282,7 +282,7 @@
   (sp-for-each-index i count
     (set (array-get out (+ i start))
       (sp-time-interpolate-linear (array-get a (+ i start)) (array-get b (- count (+ 1 i)))
-        (/ (+ 1 i) count)))))
+        (/ (+ 1 i) (convert-type count sp-sample-t))))))
 
 (define (sp-times-make-seamless-left a a-count b b-count out)
   (void sp-time-t* sp-time-t sp-time-t* sp-time-t sp-time-t*)
@@ -291,8 +291,8 @@
   (set count (sp-inline-min b-count (/ a-count 2)) start (- a-count count))
   (sp-for-each-index i count
     (set (array-get out i)
-      (sp-time-interpolate-linear (array-get b i) (array-get a (- a-count i)) (/ (+ 1 i) count))))
-  (for ((set i (- count 1)) (< i b-count) (set+ i 1)) (set (array-get out i) (array-get b i))))
+      (sp-time-interpolate-linear (array-get b i) (array-get a (- a-count (+ 1 i))) (/ (- count i) (convert-type count sp-sample-t)))))
+  (for ((set i count) (< i b-count) (set+ i 1)) (set (array-get out i) (array-get b i))))
 
 (define (sp-times-limit a count n out) (void sp-time-t* sp-time-t sp-time-t sp-time-t*)
   "set all values greater than n in array to n"
-- 
2.43.0


From 9d79519e3d680440532d69369c75bb8597c8a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 41/85] fix: sp_times_permutations does not overwrite the set

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 148cd52..70e725a 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -85,8 +85,8 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   srq((sp_times_new(size, (&b))));
   temp_out[0] = b;
   temp_out_used_size = 1;
-  sp_times_copy(a, size, set);
-  sp_times_copy(b, size, a);
+  sp_times_copy(set, size, a);
+  sp_times_copy(a, size, b);
   while ((i < size)) {
     if (s[i] < i) {
       if (i & 1) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index b5c5697..221ea8e 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -66,8 +66,8 @@
   (srq (sp-calloc-type temp-out-size sp-time-t* &temp-out))
   (srq (sp-times-new size &b))
   (set (array-get temp-out 0) b temp-out-used-size 1)
-  (sp-times-copy a size set)
-  (sp-times-copy b size a)
+  (sp-times-copy set size a)
+  (sp-times-copy a size b)
   (while (< i size)
     (if (< (array-get s i) i)
       (begin
-- 
2.43.0


From 6ba8ca273a9847bdd6d410318cf91a1069df48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 42/85] fix: sp_permutations_max divides by the factorial

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 93e16c0..651f25b 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -557,5 +557,5 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / (set_size - selection_size))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / sp_time_factorial((set_size - selection_size)))); }
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index cb54f92..a7662a9 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -436,6 +436,6 @@
   (return (if* (= 0 set-size) 0 (sp-time-expt set-size selection-size))))
 
 (define (sp-permutations-max set-size selection-size) (sp-size-t sp-size-t sp-size-t)
-  (return (/ (sp-time-factorial set-size) (- set-size selection-size))))
+  (return (/ (sp-time-factorial set-size) (sp-time-factorial (- set-size selection-size)))))
 
 (define (sp-compositions-max sum) (sp-size-t sp-size-t) (return (sp-time-expt 2 (- sum 1))))
\ No newline at end of file
-- 
2.43.0


From e7acefe9515a2dac723186e4f922f391ac1631b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 43/85] fix: failing allocations in permutations and
 compositions free only initialised memory

---
 source/c-precompiled/sph-sp/arrays.c | 2 ++
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 70e725a..0657e78 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -77,6 +77,7 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   b = 0;
   s = 0;
   temp_out = 0;
+  temp_out_used_size = 0;
   i = 0;
   temp_out_size = sp_time_factorial(size);
   srq((sp_times_new(size, (&a))));
@@ -154,6 +155,7 @@ status_t sp_times_compositions(sp_time_t sum, sp_time_t*** out, sp_time_t* out_s
   sp_time_t y;
   sigma = 1;
   o = 0;
+  o_sizes = 0;
   o_used = 0;
   a = 0;
   k = 1;
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 221ea8e..f4fa9b6 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -60,7 +60,7 @@
     temp-out sp-time-t**
     temp-out-used-size sp-time-t
     s sp-time-t*)
-  (set a 0 b 0 s 0 temp-out 0 i 0 temp-out-size (sp-time-factorial size))
+  (set a 0 b 0 s 0 temp-out 0 temp-out-used-size 0 i 0 temp-out-size (sp-time-factorial size))
   (srq (sp-times-new size &a))
   (srq (sp-times-new size &s))
   (srq (sp-calloc-type temp-out-size sp-time-t* &temp-out))
@@ -113,7 +113,7 @@
     b-size sp-time-t
     x sp-time-t
     y sp-time-t)
-  (set sigma 1 o 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
+  (set sigma 1 o 0 o-sizes 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
   (status-require (sph-helper-calloc (* (+ 1 sum) (sizeof sp-time-t)) &a))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t*)) &o))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t)) &o-sizes))
-- 
2.43.0


From 4683b076c79969713d4bbdace9bb9da03417cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 44/85] fix: sp_times_random_discrete_unique writes from the
 start when there are less values than requested

---
 source/c-precompiled/sph-sp/arrays.c | 3 ++-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 0657e78..f6e5fbc 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -324,7 +324,8 @@ uint8_t sp_times_contains(sp_time_t* in, sp_size_t count, sp_time_t value) {
 void sp_times_random_discrete_unique(sp_time_t* cudist, sp_time_t cudist_size, sp_time_t size, sp_time_t* out) {
   sp_time_t a;
   sp_time_t remaining;
-  remaining = sp_inline_min(size, cudist_size);
+  size = sp_inline_min(size, cudist_size);
+  remaining = size;
   while (remaining) {
     a = sp_time_random_discrete(cudist, cudist_size);
     if (sp_times_contains(out, (size - remaining), a)) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index f4fa9b6..42dc900 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -231,7 +231,7 @@
   (void sp-time-t* sp-time-t sp-time-t sp-time-t*)
   "create size number of unique discrete random numbers with the distribution given by cudist"
   (declare a sp-time-t remaining sp-time-t)
-  (set remaining (sp-inline-min size cudist-size))
+  (set size (sp-inline-min size cudist-size) remaining size)
   (while remaining
     (set a (sp-time-random-discrete cudist cudist-size))
     (if (sp-times-contains out (- size remaining) a) continue)
-- 
2.43.0


From b5dd2fda97ec92ecd53692bcff8594741262989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 45/85] fix: medians of an odd number of values are the middle
 value and free their memory

---
 source/c-precompiled/sph-sp/statistics.c | 3 ++-
 source/sc/sph-sp/statistics.sc           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 190ce7d..92b7a3e 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,8 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[((size / 2) - 1)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    free(temp); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 5260cd7..4e3bf0c 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -46,8 +46,9 @@
     (memcpy temp a (* size (sizeof value-t)))
     (quicksort sort-less sort-swap temp 0 (- size 1))
     (set *out
-      (if* (bit-and size 1) (array-get temp (- (/ size 2) 1))
+      (if* (bit-and size 1) (array-get temp (/ size 2))
         (/ (+ (array-get temp (/ size 2)) (array-get temp (- (/ size 2) 1))) 2.0)))
+    (free temp)
     (return 0))
   (define-sp-stat-inharmonicity name value-t)
   (define (name a size out) (uint8-t value-t* sp-time-t sp-sample-t*)
-- 
2.43.0


From 66e2538a74a4d471f31408d61ede06c8877b93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 46/85] fix: sp_samples_scale_to_times maps the largest of
 positive values to the maximum

---
 source/c-precompiled/sph-sp/statistics.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 92b7a3e..6b65eff 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -187,7 +187,7 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   define_sp_stat_inharmonicity(sp_stat_times_inharmonicity, sp_time_t)
 
   /** map input samples into the time range 0..max.
-     makes all values positive by adding the absolute minimum
+     makes all values positive by subtracting the minimum
      then scales with multiplication so that the largest value is max
      then rounds to sp-time-t */
   void sp_samples_scale_to_times(sp_sample_t* a, sp_time_t size, sp_time_t max, sp_time_t* out) {
@@ -195,7 +195,7 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   sp_sample_t addition;
   /* returns min, max, range */
   sp_stat_samples_range(a, size, range);
-  addition = ((0 > range[0]) ? fabs((range[0])) : 0);
+  addition = (-1 * range[0]);
   for (sp_size_t i = 0; (i < size); i += 1) {
     out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / range[2])));
   };
-- 
2.43.0


From d00c6a303df5f1ded273ff694c13db89f8e5e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 47/85] fix: mean and center of large integers do not overflow

---
 source/c-precompiled/sph-sp/statistics.c | 14 +++++++-------
 source/sc/sph-sp/statistics.sc           | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 6b65eff..54f1dc9 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,7 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((((sp_sample_t)(temp[(size / 2)])) + temp[((size / 2) - 1)]) / 2.0)); \
     free(temp); \
     return (0); \
   }
@@ -145,25 +145,25 @@ sp_time_t sp_stat_repetition_max(sp_time_t size, sp_time_t width) { return ((sp_
    the weighted position coordinates of the distributed mass defines its coordinates.
    sum(n * x(n)) / sum(x(n)) */
 uint8_t sp_stat_times_center(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
-  sp_time_t index_sum;
+  sp_sample_t sum;
+  sp_sample_t index_sum;
   index_sum = 0;
   sum = a[0];
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
-    index_sum += (i * a[i]);
+    index_sum += (i * ((sp_sample_t)(a[i])));
   };
-  *out = (index_sum / ((sp_sample_t)(sum)));
+  *out = (index_sum / sum);
   return (0);
 }
 define_sp_stat_range(sp_stat_times_range, sp_time_t)
   uint8_t sp_stat_times_mean(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
+  sp_sample_t sum;
   sum = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
   };
-  *out = (sum / ((sp_sample_t)(size)));
+  *out = (sum / size);
   return (0);
 }
 define_sp_stat_deviation(sp_stat_times_deviation, sp_stat_times_mean, sp_time_t)
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 4e3bf0c..162774d 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -47,7 +47,7 @@
     (quicksort sort-less sort-swap temp 0 (- size 1))
     (set *out
       (if* (bit-and size 1) (array-get temp (/ size 2))
-        (/ (+ (array-get temp (/ size 2)) (array-get temp (- (/ size 2) 1))) 2.0)))
+        (/ (+ (convert-type (array-get temp (/ size 2)) sp-sample-t) (array-get temp (- (/ size 2) 1))) 2.0)))
     (free temp)
     (return 0))
   (define-sp-stat-inharmonicity name value-t)
@@ -97,19 +97,19 @@
   "center of mass. the distribution of mass is balanced around the center of mass, and the average of
    the weighted position coordinates of the distributed mass defines its coordinates.
    sum(n * x(n)) / sum(x(n))"
-  (declare sum sp-time-t index-sum sp-time-t)
+  (declare sum sp-sample-t index-sum sp-sample-t)
   (set index-sum 0 sum (array-get a 0))
-  (sp-for-each-index i size (set+ sum (array-get a i) index-sum (* i (array-get a i))))
-  (set *out (/ index-sum (convert-type sum sp-sample-t)))
+  (sp-for-each-index i size (set+ sum (array-get a i) index-sum (* i (convert-type (array-get a i) sp-sample-t))))
+  (set *out (/ index-sum sum))
   (return 0))
 
 (define-sp-stat-range sp-stat-times-range sp-time-t)
 
 (define (sp-stat-times-mean a size out) (uint8-t sp-time-t* sp-time-t sp-sample-t*)
-  (declare sum sp-time-t)
+  (declare sum sp-sample-t)
   (set sum 0)
   (sp-for-each-index i size (set+ sum (array-get a i)))
-  (set *out (/ sum (convert-type size sp-sample-t)))
+  (set *out (/ sum size))
   (return 0))
 
 (define-sp-stat-deviation sp-stat-times-deviation sp-stat-times-mean sp-time-t)
-- 
2.43.0


From e18b731e1a0895830eb398a6a721964305d6021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 48/85] fix: quicksort does not compare elements outside of its
 range

---
 source/c/foreign/sph-sc-lib/sph-sp/quicksort.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index f6438c8..bfe039b 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -30,6 +30,9 @@ void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, s
     swap(array, l, r);
     l = (1 + l);
     r = (r - 1);
+    if (l > r) {
+      break;
+    };
   };
   quicksort(less_p, swap, array, left, r);
   quicksort(less_p, swap, array, l, right);
-- 
2.43.0


From a733d24db14bd867d4c443610da0c57a8aae9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 49/85] fix: allocation failures are reported as a failure

the id for memory errors was zero, which is success, so that callers continued with
pointers that were never set.
---
 source/c/foreign/sph-sc-lib/sph-sp/helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.h b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
index c10b6c2..25dcb7f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
@@ -4,7 +4,7 @@
 
 /* depends on status.h */
 #include <inttypes.h>
-enum { sph_helper_status_id_memory };
+enum { sph_helper_status_id_memory = 1 };
 #define sph_helper_status_group ((uint8_t*)("sph"))
 
 /** add explicit type cast to prevent compiler warning */
-- 
2.43.0


From cd7388d8406d2d22472406bac308b7e1124ee445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 50/85] fix: status descriptions and names of the sph group are
 returned

the functions had no return statement.
---
 source/c/foreign/sph-sc-lib/sph-sp/helper.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.c b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
index f44fab7..000fed4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
@@ -9,6 +9,7 @@ uint8_t* sph_helper_status_description(status_t a) {
   } else {
     b = "";
   };
+  return (b);
 }
 uint8_t* sph_helper_status_name(status_t a) {
   uint8_t* b;
@@ -17,6 +18,7 @@ uint8_t* sph_helper_status_name(status_t a) {
   } else {
     b = "unknown";
   };
+  return (b);
 }
 
 /** allocation helpers use status-t and have the same interface */
-- 
2.43.0


From 1e17e241f06630d3ebbf86aaaac666294d928b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 51/85] fix: sp_path_times frees the temporary array when it
 fails

---
 source/c-precompiled/sph-sp/path.c | 5 ++++-
 source/sc/sph-sp/path.sc           | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index e605668..b111ec4 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -33,10 +33,13 @@ exit:
 /** c is for curvature and values are between -1.0 and 1.0 */
 status_t sp_path_times(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
   status_declare;
-  sp_sample_t* temp;
+  sp_sample_t* temp = 0;
   status_require((sp_path_samples((&temp), length, point_count, x, y, c)));
   status_require((sp_samples_to_times_replace(temp, length, out)));
 exit:
+  if (status_is_failure) {
+    free(temp);
+  };
   status_return;
 }
 #define sp_define_path_n(type_name, type) \
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index a12ac34..e48c491 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -35,10 +35,10 @@
   (status-t sp-time-t** sp-time-t sp-path-point-count-t sp-sample-t* sp-sample-t* sp-sample-t*)
   "c is for curvature and values are between -1.0 and 1.0"
   status-declare
-  (declare temp sp-sample-t*)
+  (define temp sp-sample-t* 0)
   (status-require (sp-path-samples &temp length point-count x y c))
   (status-require (sp-samples->times-replace temp length out))
-  (label exit status-return))
+  (label exit (if status-is-failure (free temp)) status-return))
 
 (pre-define (sp-define-path-n type-name type)
   (begin
-- 
2.43.0


From 1a578f84f389a253b6af206c26c10c6f82bdb78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 52/85] fix: stopping the workers without memory leaves them
 usable

tasks that end workers were already enqueued when a later allocation failed, and the
futures were considered uninitialised although workers remained.
---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c  |  5 ++--
 .../c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 23 ++++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 3f473a4..72d78ee 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -45,8 +45,9 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
 void sph_future_deinit() {
   if (sph_futures_pool_is_initialized) {
     /* also destroys the thread pool */
-    sph_thread_pool_finish((&sph_futures_pool), 0, 0);
-    sph_futures_pool_is_initialized = 0;
+    if (0 == sph_thread_pool_finish((&sph_futures_pool), 0, 0)) {
+      sph_futures_pool_is_initialized = 0;
+    };
   };
 }
 
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 08f19e5..c2211a7 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -28,20 +28,27 @@ int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discar
   void* exit_value;
   sph_thread_pool_size_t i;
   sph_thread_pool_size_t size;
-  sph_thread_pool_task_t* task;
+  sph_thread_pool_task_t* tasks[sph_thread_pool_thread_limit];
+  size = a->size;
+  /* allocate everything before any thread is told to end */
+  for (i = 0; (i < size); i = (1 + i)) {
+    tasks[i] = malloc((sizeof(sph_thread_pool_task_t)));
+    if (!tasks[i]) {
+      while (i) {
+        i = (i - 1);
+        free((tasks[i]));
+      };
+      return (1);
+    };
+    (tasks[i])->f = sph_thread_finish;
+  };
   if (discard_queue) {
     pthread_mutex_lock((&(a->queue_mutex)));
     sph_queue_init((&(a->queue)));
     pthread_mutex_unlock((&(a->queue_mutex)));
   };
-  size = a->size;
   for (i = 0; (i < size); i = (1 + i)) {
-    task = malloc((sizeof(sph_thread_pool_task_t)));
-    if (!task) {
-      return (1);
-    };
-    task->f = sph_thread_finish;
-    sph_thread_pool_enqueue(a, task);
+    sph_thread_pool_enqueue(a, (tasks[i]));
   };
   if (!no_wait) {
     for (i = 0; (i < size); i = (1 + i)) {
-- 
2.43.0


From 10d6ae304959b864d91afdcac702da7fd1ce3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 53/85] fix: sp_plot_spectrum_to_file frees its arrays when it
 can not complete

---
 source/c-precompiled/sph-sp/plot.c | 3 +++
 source/sc/sph-sp/plot.sc           | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index ca4bfce..a0a905f 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -88,10 +88,13 @@ void sp_plot_spectrum_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   };
   real = malloc((sizeof(sp_sample_t) * a_size));
   if (!real) {
+    free(imag);
     return;
   };
   memcpy(real, a, (sizeof(sp_sample_t) * a_size));
   if (sp_fft(a_size, real, imag)) {
+    free(imag);
+    free(real);
     return;
   };
   file = fopen(path, "w");
diff --git a/source/sc/sph-sp/plot.sc b/source/sc/sph-sp/plot.sc
index 5520f30..ae30b98 100644
--- a/source/sc/sph-sp/plot.sc
+++ b/source/sc/sph-sp/plot.sc
@@ -72,9 +72,9 @@
   (set imag (calloc a-size (sizeof sp-sample-t)))
   (if (not imag) return)
   (set real (malloc (* (sizeof sp-sample-t) a-size)))
-  (if (not real) return)
+  (if (not real) (begin (free imag) return))
   (memcpy real a (* (sizeof sp-sample-t) a-size))
-  (if (sp-fft a-size real imag) return)
+  (if (sp-fft a-size real imag) (begin (free imag) (free real) return))
   (set file (fopen path "w"))
   (for ((set i 0) (< i a-size) (set i (+ 1 i)))
     (fprintf file "%.3f\n"
-- 
2.43.0


From eb48bb3ea9e78451c5d12de3f481094ea5b513da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 54/85] fix: noise events can be prepared again after preparing
 failed

the configuration kept the addresses of filter states that were freed, and the next
attempt used them.
---
 source/c-precompiled/sph-sp/sequencer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 198b9a4..9ee26af 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -698,6 +698,9 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
 exit:
   if (status_is_failure) {
     error_memory_free;
+    for (sp_channel_count_t cci = 0; (cci < c->channel_count); cci += 1) {
+      ((c->channel_config)[cci]).filter_state = 0;
+    };
   };
   status_return;
 }
-- 
2.43.0


From c449468432bd5408336cd16df9c8f32e4032aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 55/85] fix: noise events can be prepared again after preparing
 failed (sc source)

---
 source/sc/sph-sp/sequencer.sc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index e5738e9..0eaddd7 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -532,7 +532,13 @@
             (status-require (sp-noise-event-filter-state c cc (array-get ir-lengths cci)))
             (error-memory-add2 cc:filter-state sp-convolution-filter-state-free))))))
   (set event:free sp-noise-event-free)
-  (label exit (if status-is-failure error-memory-free) status-return))
+  (label exit
+    (if status-is-failure
+      (begin
+        error-memory-free
+        (for ((define cci sp-channel-count-t 0) (< cci c:channel-count) (set+ cci 1))
+          (struct-set (array-get c:channel-config cci) filter-state 0))))
+    status-return))
 
 (define (sp-noise-event-generate-block duration block-i event-i out event)
   (status-t sp-time-t sp-time-t sp-time-t sp-block-t sp-event-t*)
-- 
2.43.0


From 58b8a7ebdd6df8b156f38c6c1f78cde0b11a5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 56/85] fix: deinitialising after a failed initialisation does
 not free twice

---
 source/c-precompiled/sph-sp/main.c | 2 ++
 source/sc/sph-sp/main.sc           | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 651f25b..9965357 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -457,6 +457,8 @@ void sp_deinitialize() {
   };
   free(sp_sine_table);
   free(sp_sine_table_lfo);
+  sp_sine_table = 0;
+  sp_sine_table_lfo = 0;
 }
 #include <sph-sp/path.c>
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index a7662a9..523f32d 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -351,7 +351,8 @@
 (define (sp-deinitialize) void
   (if sp-cpu-count (sph-future-deinit))
   (free sp-sine-table)
-  (free sp-sine-table-lfo))
+  (free sp-sine-table-lfo)
+  (set sp-sine-table 0 sp-sine-table-lfo 0))
 
 (pre-include "sph-sp/path.c")
 (sc-comment "extra")
-- 
2.43.0


From 70e7c4d69a81d70db1e636af362f9bcf885047fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 57/85] fix: a group is not longer after an event could not be
 appended

---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9ee26af..47becad 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -411,8 +411,8 @@ status_t sp_group_append(sp_event_t* group, sp_event_t event) {
   };
   event.start += group->end;
   event.end += group->end;
-  group->end = event.end;
   status_require((sp_event_list_add(((sp_event_list_t**)(&(group->config))), event)));
+  group->end = event.end;
 exit:
   status_return;
 }
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 0eaddd7..a80efee 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -290,8 +290,8 @@
   status-declare
   (if (not event.end) (sp-event-prepare-optional-srq event))
   (set+ event.start group:end event.end group:end)
-  (set group:end event.end)
   (status-require (sp-event-list-add (convert-type &group:config sp-event-list-t**) event))
+  (set group:end event.end)
   (label exit status-return))
 
 (define (sp-map-event-config-new-n count out) (status-t sp-time-t sp-map-event-config-t**)
-- 
2.43.0


From a823f798576e9e70ba8f81f9c8151e2d96057c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 58/85] fix: sp_rad_to_hz is the inverse of sp_hz_to_rad

---
 source/c-precompiled/sph-sp/main.h | 2 +-
 source/sc/sph-sp/main.h.sc         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index fc1f62c..8bc8d57 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -65,7 +65,7 @@
 #define sp_samples_to_hz(x) ((sp_time_t)((sp_rate / x)))
 #define sp_hz_to_factor(x) (((sp_sample_t)(x)) / ((sp_sample_t)(sp_rate)))
 #define sp_hz_to_rad(a) (2 * M_PI * a)
-#define sp_rad_to_hz(a) ((M_PI / 2) * a)
+#define sp_rad_to_hz(a) (a / (2 * M_PI))
 #define sp_factor_to_hz(x) ((sp_time_t)((x * sp_rate)))
 #define sp_optional_array_get(array, fixed, index) (array ? array[index] : fixed)
 #define sp_sample_to_unit(a) ((1 + a) / 2.0)
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 09e3916..2a74410 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -59,7 +59,7 @@
   (sp-samples->hz x) (convert-type (/ sp-rate x) sp-time-t)
   (sp-hz->factor x) (/ (convert-type x sp-sample-t) (convert-type sp-rate sp-sample-t))
   (sp-hz->rad a) (* 2 M_PI a)
-  (sp-rad->hz a) (* (/ M_PI 2) a)
+  (sp-rad->hz a) (/ a (* 2 M_PI))
   (sp-factor->hz x) (convert-type (* x sp-rate) sp-time-t)
   (sp-optional-array-get array fixed index) (if* array (array-get array index) fixed)
   (sp-sample->unit a) (/ (+ 1 a) 2.0)
-- 
2.43.0


From f274faa868ec4d72fc3fbc4bfe252d916fa644ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 59/85] fix: sp_square does not overflow for large times

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 9965357..fcd0619 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -471,7 +471,7 @@ sp_sample_t sp_triangle(sp_time_t t, sp_time_t a, sp_time_t b) {
   remainder = (t % (a + b));
   return (((remainder < a) ? (remainder * (1 / ((sp_sample_t)(a)))) : ((((sp_sample_t)(b)) - (remainder - ((sp_sample_t)(a)))) * (1 / ((sp_sample_t)(b))))));
 }
-sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return (((((2 * t) % (2 * size)) < size) ? -1 : 1)); }
+sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return ((((t % size) < (size - (t % size))) ? -1 : 1)); }
 
 /** convert a pan value between 0..channel_count to a volume factor.
    values are interpreted as split between even and odd numbers, from channel..(channel + 1),
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 523f32d..0a48b1b 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -368,7 +368,7 @@
         (/ 1 (convert-type b sp-sample-t))))))
 
 (define (sp-square t size) (sp-sample-t sp-time-t sp-time-t)
-  (return (if* (< (modulo (* 2 t) (* 2 size)) size) -1 1)))
+  (return (if* (< (modulo t size) (- size (modulo t size))) -1 1)))
 
 (define (sp-pan->amp value channel) (sp-sample-t sp-sample-t sp-channel-count-t)
   "convert a pan value between 0..channel_count to a volume factor.
-- 
2.43.0


From 6b2e971b1b763ae4620823dbb39d0b956b4dad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 60/85] fix: sp_pan_to_amp for more than two channels

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index fcd0619..c9295df 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -480,7 +480,7 @@ sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return ((((t % size) < (siz
    1: first channel muted
    0.75: first channel 50%
    0.25: second channel 50% */
-sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? (sp_inline_limit(value, (channel - 1), (channel - 0.5)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - 0.5) / 0.5)))); }
+sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? ((sp_inline_limit(value, (channel - 1), (channel - 0.5)) - (channel - 1)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - (channel + 0.5)) / 0.5)))); }
 
 /** untested. return normally distributed numbers in range */
 sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
-- 
2.43.0


From f6efdc8061193127d102525391b31710f4e1b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 61/85] fix: sp_pan_to_amp for more than two channels (sc
 source)

---
 source/sc/sph-sp/main.sc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 0a48b1b..80df753 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -379,8 +379,8 @@
    0.75: first channel 50%
    0.25: second channel 50%"
   (return
-    (if* (bit-and 1 channel) (/ (sp-inline-limit value (- channel 1) (- channel 0.5)) 0.5)
-      (- 1 (/ (- (sp-inline-limit value (+ channel 0.5) (+ channel 1)) 0.5) 0.5)))))
+    (if* (bit-and 1 channel) (/ (- (sp-inline-limit value (- channel 1) (- channel 0.5)) (- channel 1)) 0.5)
+      (- 1 (/ (- (sp-inline-limit value (+ channel 0.5) (+ channel 1)) (+ channel 0.5)) 0.5)))))
 
 (define (sp-normal-random min max) (sp-time-t sp-time-t sp-time-t)
   "untested. return normally distributed numbers in range"
-- 
2.43.0


From 3817efe1932aeb7cb34e44e33e9c9d04f29a0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 62/85] fix: sp_time_harmonize and sp_time_deharmonize use the
 nearest multiple

---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 source/sc/sph-sp/main.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index c9295df..8441801 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -496,7 +496,7 @@ sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way */
 sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = ((a - (a % base)) + (((a % base) < (base - (a % base))) ? 0 : base));
   return (((a > nearest) ? (a - (amount * (a - nearest))) : (a + (amount * (nearest - a)))));
 }
 
@@ -504,7 +504,7 @@ sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
 sp_time_t sp_time_deharmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
   sp_sample_t distance_ratio;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = ((a - (a % base)) + (((a % base) < (base - (a % base))) ? 0 : base));
   distance_ratio = ((base - sp_inline_absolute_difference(a, nearest)) / ((sp_sample_t)(base)));
   amount = (amount * distance_ratio * (1 + sp_time_random_bounded((base / 2))));
   if ((a > nearest) || (a < amount)) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 80df753..836db30 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -394,14 +394,14 @@
   "untested. round value amount distance to nearest multiple of base.
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way"
   (declare nearest sp-time-t)
-  (set nearest (* (/ (- (+ a base) 1) base) base))
+  (set nearest (+ (- a (modulo a base)) (if* (< (modulo a base) (- base (modulo a base))) 0 base)))
   (return (if* (> a nearest) (- a (* amount (- a nearest))) (+ a (* amount (- nearest a))))))
 
 (define (sp-time-deharmonize a base amount) (sp-time-t sp-time-t sp-time-t sp-sample-t)
   "untested. the nearer values are to the multiple, the further move them randomly up to half base away"
   (declare nearest sp-time-t distance-ratio sp-sample-t)
   (set
-    nearest (* (/ (- (+ a base) 1) base) base)
+    nearest (+ (- a (modulo a base)) (if* (< (modulo a base) (- base (modulo a base))) 0 base))
     distance-ratio
     (/ (- base (sp-inline-absolute-difference a nearest)) (convert-type base sp-sample-t))
     amount (* amount distance-ratio (+ 1 (sp-time-random-bounded (/ base 2)))))
-- 
2.43.0


From 3ce31c6399852ae73d118e48ad4eb4fba8762a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:08 +0000
Subject: [PATCH 63/85] fix: float sums compensate for negative values

---
 source/c/foreign/sph-sc-lib/sph-sp/float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/float.h b/source/c/foreign/sph-sc-lib/sph-sp/float.h
index aeeff8c..27914e6 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/float.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/float.h
@@ -14,7 +14,7 @@
       len = (len - 1); \
       element = numbers[len]; \
       temp = (result + element); \
-      correction = (correction + ((result >= element) ? ((result - temp) + element) : ((element - temp) + result))); \
+      correction = (correction + ((((result < 0) ? (0 - result) : result) >= ((element < 0) ? (0 - element) : element)) ? ((result - temp) + element) : ((element - temp) + result))); \
       result = temp; \
     }; \
     return ((correction + result)); \
-- 
2.43.0


From 21f21157e6d5a88d2b1f32ca5e0d5e791c906054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 64/85] fix: plotting to a file that can not be opened does not
 crash

---
 source/c-precompiled/sph-sp/plot.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index a0a905f..78d3f03 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -9,6 +9,9 @@ void sp_plot_samples_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (a[i]));
   };
@@ -18,6 +21,9 @@ void sp_plot_times_to_file(sp_time_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i += 1) {
     fprintf(file, "%lu\n", (a[i]));
   };
@@ -98,6 +104,11 @@ void sp_plot_spectrum_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
     return;
   };
   file = fopen(path, "w");
+  if (!file) {
+    free(imag);
+    free(real);
+    return;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (2 * (sqrt(((real[i] * real[i]) + (imag[i] * imag[i]))) / a_size)));
   };
-- 
2.43.0


From b3d941cc3ee7f4da675a8fda4043ed1c6a09bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 65/85] fix: plotting to a file that can not be opened does not
 crash (sc source)

---
 source/sc/sph-sp/plot.sc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/sc/sph-sp/plot.sc b/source/sc/sph-sp/plot.sc
index ae30b98..7aeb542 100644
--- a/source/sc/sph-sp/plot.sc
+++ b/source/sc/sph-sp/plot.sc
@@ -15,12 +15,14 @@
 (define (sp-plot-samples->file a a-size path) (void sp-sample-t* sp-time-t uint8-t*)
   (declare file FILE* i sp-time-t)
   (set file (fopen path "w"))
+  (if (not file) return)
   (for ((set i 0) (< i a-size) (set i (+ 1 i))) (fprintf file "%.3f\n" (array-get a i)))
   (fclose file))
 
 (define (sp-plot-times->file a a-size path) (void sp-time-t* sp-time-t uint8-t*)
   (declare file FILE* i sp-time-t)
   (set file (fopen path "w"))
+  (if (not file) return)
   (for ((set i 0) (< i a-size) (set+ i 1)) (fprintf file "%lu\n" (array-get a i)))
   (fclose file))
 
@@ -76,6 +78,7 @@
   (memcpy real a (* (sizeof sp-sample-t) a-size))
   (if (sp-fft a-size real imag) (begin (free imag) (free real) return))
   (set file (fopen path "w"))
+  (if (not file) (begin (free imag) (free real) return))
   (for ((set i 0) (< i a-size) (set i (+ 1 i)))
     (fprintf file "%.3f\n"
       (* 2
-- 
2.43.0


From 0ba9b635bb587d0b986df749f2b2e03966067ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 66/85] fix: ensure_trailing_slash terminates the new string
 instead of emptying it

---
 source/c/foreign/sph-sc-lib/sph-sp/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/string.h b/source/c/foreign/sph-sc-lib/sph-sp/string.h
index 08f818f..215096c 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/string.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/string.h
@@ -16,7 +16,7 @@ uint8_t ensure_trailing_slash(uint8_t* a, uint8_t** result) {
     };
     memcpy(new_a, a, a_len);
     memcpy((new_a + a_len), "/", 1);
-    *new_a = 0;
+    *(new_a + 1 + a_len) = 0;
     *result = new_a;
     return (2);
   };
-- 
2.43.0


From eeceae0f02069bf459ce23cc39ad0e644c081f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 67/85] fix: dirname_2 always returns a new string that can be
 freed

---
 source/c/foreign/sph-sc-lib/sph-sp/filesystem.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
index bd9db80..1c07f8a 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
@@ -9,8 +9,14 @@
 
 /** like posix dirname, but never modifies its argument and always returns a new string */
 uint8_t* dirname_2(uint8_t* a) {
+  uint8_t* result;
   uint8_t* path_copy = string_clone(a);
-  return ((dirname(path_copy)));
+  if (!path_copy) {
+    return (0);
+  };
+  result = string_clone((dirname(path_copy)));
+  free(path_copy);
+  return (result);
 }
 
 /** return 1 if the path exists or has been successfully created */
@@ -19,6 +25,9 @@ uint8_t ensure_directory_structure(uint8_t* path, mode_t mkdir_mode) {
     return (1);
   } else {
     uint8_t* path_dirname = dirname_2(path);
+    if (!path_dirname) {
+      return (0);
+    };
     uint8_t status = ensure_directory_structure(path_dirname, mkdir_mode);
     free(path_dirname);
     return ((status && ((EEXIST == errno) || (0 == mkdir(path, mkdir_mode)))));
-- 
2.43.0


From 546537ec87fd6d496c2e33d041a3ed57c1280f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 68/85] fix: ensure_directory_structure creates the directory
 regardless of earlier errors

---
 source/c/foreign/sph-sc-lib/sph-sp/filesystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
index 1c07f8a..e4927b2 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
@@ -30,6 +30,6 @@ uint8_t ensure_directory_structure(uint8_t* path, mode_t mkdir_mode) {
     };
     uint8_t status = ensure_directory_structure(path_dirname, mkdir_mode);
     free(path_dirname);
-    return ((status && ((EEXIST == errno) || (0 == mkdir(path, mkdir_mode)))));
+    return ((status && ((0 == mkdir(path, mkdir_mode)) || (EEXIST == errno))));
   };
 }
-- 
2.43.0


From 34ac603a856e74db201db114759857bb37b9cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 69/85] fix: sp_status_name knows the end of file and memory
 errors of sph

---
 source/c-precompiled/sph-sp/main.c | 4 ++++
 source/sc/sph-sp/main.sc           | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 8441801..0d0739e 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -115,11 +115,15 @@ uint8_t* sp_status_name(status_t a) {
       b = "not-implemented";
     } else if (sp_s_id_file_eof == a.id) {
       b = "end-of-file";
+    } else if (sp_s_id_eof == a.id) {
+      b = "end-of-file";
     } else if (sp_s_id_invalid_argument == a.id) {
       b = "invalid-argument";
     } else {
       b = "unknown";
     };
+  } else if (!strcmp(sp_s_group_sph, (a.group))) {
+    b = sph_helper_status_name(a);
   } else {
     b = "unknown";
   };
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 836db30..fbc3627 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -75,8 +75,10 @@
         (sp-s-id-file-read (set b "invalid-file-read"))
         (sp-s-id-file-not-implemented (set b "not-implemented"))
         (sp-s-id-file-eof (set b "end-of-file"))
+        (sp-s-id-eof (set b "end-of-file"))
         (sp-s-id-invalid-argument (set b "invalid-argument"))
         (else (set b "unknown"))))
+    ((not (strcmp sp-s-group-sph a.group)) (set b (sph-helper-status-name a)))
     (else (set b "unknown")))
   (return b))
 
-- 
2.43.0


From 53a24326ab47d2e47773210235cc19f19f6b7985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 70/85] fix: ensure_directory_structure reports success only if
 the path exists

---
 source/c/foreign/sph-sc-lib/sph-sp/filesystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
index e4927b2..a9d4b14 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
@@ -30,6 +30,6 @@ uint8_t ensure_directory_structure(uint8_t* path, mode_t mkdir_mode) {
     };
     uint8_t status = ensure_directory_structure(path_dirname, mkdir_mode);
     free(path_dirname);
-    return ((status && ((0 == mkdir(path, mkdir_mode)) || (EEXIST == errno))));
+    return ((status && ((0 == mkdir(path, mkdir_mode)) || file_exists(path))));
   };
 }
-- 
2.43.0


From 818e707515008650f94df7ea1eaf73677732f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 71/85] fix: sp_file_read stops at the end of the data chunk

---
 source/c-precompiled/sph-sp/file.c | 14 ++++++++++++--
 source/c-precompiled/sph-sp/main.h |  1 +
 source/sc/sph-sp/file.sc           | 24 ++++++++++++++++++++----
 source/sc/sph-sp/main.h.sc         |  2 +-
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 73c104d..51e8a43 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -97,6 +97,8 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
       sp_status_set_goto(sp_s_id_file_read);
     };
   };
+  /* other chunks can follow. the size is zero in files that have not been closed after writing */
+  file->data_end = (subchunk_size ? (subchunk_size + ftell((file->file))) : 0);
 exit:
   if (status_is_failure && file->file) {
     fclose((file->file));
@@ -109,12 +111,20 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   sp_time_t interleaved_count;
   float* file_data;
   sp_time_t read;
+  sp_size_t position;
+  sp_size_t available;
   file_data = 0;
   interleaved_count = (file.channel_count * sample_count);
+  available = interleaved_count;
+  if (file.data_end) {
+    position = ftell((file.file));
+    available = ((position < file.data_end) ? ((file.data_end - position) / 4) : 0);
+    available = sp_inline_min(available, interleaved_count);
+  };
   srq((sph_helper_malloc((4 * interleaved_count), (&file_data))));
-  read = fread(file_data, 4, interleaved_count, (file.file));
+  read = fread(file_data, 4, available, (file.file));
   if (!(interleaved_count == read)) {
-    if (feof((file.file))) {
+    if ((available == read) || feof((file.file))) {
       if (!read) {
         sp_status_set_goto(sp_s_id_file_eof);
       };
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 8bc8d57..8d0886a 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -117,6 +117,7 @@ uint32_t sp_cpu_count;
 typedef struct {
   FILE* file;
   sp_size_t data_size;
+  sp_size_t data_end;
   sp_channel_count_t channel_count;
 } sp_file_t;
 sp_random_state_t sp_random_state;
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index c28442d..3b0da61 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -90,18 +90,34 @@
     (fseek file:file subchunk-size SEEK_CUR)
     (if (not (fread &subchunk-id 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-size 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read)))
+  (sc-comment
+    "other chunks can follow. the size is zero in files that have not been closed after writing")
+  (set file:data-end (if* subchunk-size (+ subchunk-size (ftell file:file)) 0))
   (label exit
     (if (and status-is-failure file:file) (begin (fclose file:file) (set file:file 0)))
     status-return))
 
 (define (sp-file-read file sample-count samples) (status-t sp-file-t sp-time-t sp-sample-t**)
   status-declare
-  (declare interleaved-count sp-time-t file-data float* read sp-time-t)
-  (set file-data 0 interleaved-count (* file.channel-count sample-count))
+  (declare
+    interleaved-count sp-time-t
+    file-data float*
+    read sp-time-t
+    position sp-size-t
+    available sp-size-t)
+  (set
+    file-data 0
+    interleaved-count (* file.channel-count sample-count)
+    available interleaved-count)
+  (if file.data-end
+    (set
+      position (ftell file.file)
+      available (if* (< position file.data-end) (/ (- file.data-end position) 4) 0)
+      available (sp-inline-min available interleaved-count)))
   (srq (sph-helper-malloc (* 4 interleaved-count) &file-data))
-  (set read (fread file-data 4 interleaved-count file.file))
+  (set read (fread file-data 4 available file.file))
   (if (not (= interleaved-count read))
-    (if (feof file.file) (if (not read) (sp-status-set-goto sp-s-id-file-eof))
+    (if (or (= available read) (feof file.file)) (if (not read) (sp-status-set-goto sp-s-id-file-eof))
       (sp-status-set-goto sp-s-id-file-read)))
   (for-each-index i sp-time-t
     (/ read file.channel-count)
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 2a74410..3b6b309 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -115,7 +115,7 @@
       (samples (array sp-sample-t* sp-channel-count-limit))))
   sp-channel-count sp-channel-count-t
   sp-cpu-count uint32-t
-  sp-file-t (type (struct (file FILE*) (data-size sp-size-t) (channel-count sp-channel-count-t)))
+  sp-file-t (type (struct (file FILE*) (data-size sp-size-t) (data-end sp-size-t) (channel-count sp-channel-count-t)))
   sp-random-state sp-random-state-t
   sp-rate sp-time-t
   sp-sine-lfo-factor sp-time-t
-- 
2.43.0


From b4e4cc67fdfd96c0260328f9c267212f6f00a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 72/85] fix: sp_samples_limit_abs limits to the absolute value
 of the limit

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 source/sc/sph-sp/arrays.sc           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index f6e5fbc..4899b97 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -566,6 +566,7 @@ void sp_samples_blend(sp_sample_t* a, sp_sample_t* b, sp_sample_t fraction, sp_t
    in and out can be the same address */
 void sp_samples_limit_abs(sp_sample_t* in, sp_time_t count, sp_sample_t limit, sp_sample_t* out) {
   sp_sample_t value;
+  limit = fabs(limit);
   for (sp_size_t i = 0; (i < count); i += 1) {
     value = in[i];
     if (0 > value) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 42dc900..ee53d86 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -425,6 +425,7 @@
   "set all abs(values) greater than abs(limit) in array to limit, keeping sign.
    in and out can be the same address"
   (declare value sp-sample-t)
+  (set limit (fabs limit))
   (sp-for-each-index i count
     (set value (array-get in i))
     (if (> 0 value) (set (array-get out i) (if* (> (* -1 limit) value) (* -1 limit) value))
-- 
2.43.0


From 9f2e904e3e726a10b940a373a5195861ed65a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 73/85] fix: a failed creation of worker threads ends the
 threads that were created

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index c2211a7..78ddd05 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -98,7 +98,7 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
       if (0 < i) {
         /* try to finish previously created threads */
         a->size = i;
-        sph_thread_pool_finish(a, 1, 0);
+        sph_thread_pool_finish(a, 0, 0);
       };
       goto exit;
     };
-- 
2.43.0


From 1e6fef7636a2dabfd125cf3c4c889086ce4e18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 74/85] fix: array3_take can be used with any argument names

---
 source/c/foreign/sph-sc-lib/sph-sp/array3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/array3.h b/source/c/foreign/sph-sc-lib/sph-sp/array3.h
index 0c3305f..965fa42 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/array3.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/array3.h
@@ -64,10 +64,10 @@
 #define array3_free(a) free((a.data))
 #define array3_full(a) (a.used == a.size)
 #define array3_not_full(a) (a.used < a.size)
-#define array3_take(a, data, size, used) \
-  a->data = data; \
-  a->size = size; \
-  a->used = used
+#define array3_take(a, _data, _size, _used) \
+  a->data = _data; \
+  a->size = _size; \
+  a->used = _used
 #define array3_data_last(a) (a.data)[(a.size - 1)]
 #define array3_declare_stack(name, array_size, type_t, value_t) \
   value_t name##_data[array_size]; \
-- 
2.43.0


From 5089ba6df15f58b4f1cda19438c0c8bc71a9cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 75/85] fix: sp_render_plot frees the rendered block

---
 source/c-precompiled/sph-sp/main.c | 1 +
 source/sc/sph-sp/main.sc           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 0d0739e..a229e12 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -416,6 +416,7 @@ status_t sp_render_plot(sp_event_t event) {
   };
   status_require((sp_render_range_block(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), (&block))));
   sp_plot_samples(((block.samples)[0]), (event.end));
+  sp_block_free((&block));
 exit:
   status_return;
 }
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index fbc3627..738b7f1 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -320,6 +320,7 @@
       event.end (sp-render-config sp-channel-count sp-rate (* sp-render-block-seconds sp-rate) #t)
       &block))
   (sp-plot-samples (array-get block.samples 0) event.end)
+  (sp-block-free &block)
   (label exit status-return))
 
 (define (sp-random-state-new seed) (sp-random-state-t sp-time-t)
-- 
2.43.0


From 98d05ecb2a3bae109424bb28c60b0f49f2619b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 76/85] fix: sp_render_plot displays the duration in
 milliseconds

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index a229e12..c9cf1b8 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -410,7 +410,7 @@ status_t sp_render_plot(sp_event_t event) {
     sp_event_prepare_optional_srq(event);
   };
   if (event.end && (event.end < sp_rate)) {
-    printf("rendering %lu milliseconds to plot\n", (event.end / sp_rate / 1000));
+    printf("rendering %lu milliseconds to plot\n", ((1000 * event.end) / sp_rate));
   } else {
     printf("rendering %lu seconds to plot\n", (event.end / sp_rate));
   };
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 738b7f1..38ad16f 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -313,7 +313,7 @@
   (declare block sp-block-t)
   (if (not event.end) (sp-event-prepare-optional-srq event))
   (if (and event.end (< event.end sp-rate))
-    (printf "rendering %lu milliseconds to plot\n" (/ event.end sp-rate 1000))
+    (printf "rendering %lu milliseconds to plot\n" (/ (* 1000 event.end) sp-rate))
     (printf "rendering %lu seconds to plot\n" (/ event.end sp-rate)))
   (status-require
     (sp-render-range-block event 0
-- 
2.43.0


From f17ed16d3df4c1ee16ce6402fc913f442ee6de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 77/85] fix: generating an empty range in parts does not divide
 by zero

---
 source/c-precompiled/sph-sp/sequencer.c | 3 +++
 source/sc/sph-sp/sequencer.sc           | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 47becad..454f2db 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -210,6 +210,9 @@ status_t sp_event_block_generate(sp_time_t resolution, sp_event_block_generate_t
   sp_time_t duration;
   sp_time_t i;
   duration = (end - start);
+  if (!duration) {
+    status_return;
+  };
   if (duration < resolution) {
     resolution = duration;
   };
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index a80efee..9b5774c 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -135,6 +135,7 @@
     duration sp-time-t
     i sp-time-t)
   (set duration (- end start))
+  (if (not duration) status-return)
   (if (< duration resolution) (set resolution duration))
   (set
     block-count (sp-cheap-floor-positive (/ duration resolution))
-- 
2.43.0


From 40b9094c39c89a60a610a9993dad691a1737b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 78/85] fix: wave file chunks of odd size are followed by a
 padding byte

---
 source/c-precompiled/sph-sp/file.c | 4 ++++
 source/sc/sph-sp/file.sc           | 1 +
 2 files changed, 5 insertions(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 51e8a43..6f96298 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -90,6 +90,10 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
     fseek((file->file), subchunk_size, SEEK_CUR);
+    if (subchunk_size % 2) {
+      /* padding byte */
+      fseek((file->file), 1, SEEK_CUR);
+    };
     if (!fread((&subchunk_id), 4, 1, (file->file))) {
       sp_status_set_goto(sp_s_id_file_read);
     };
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 3b0da61..91fb47e 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -88,6 +88,7 @@
     subchunk-size (pointer-get (convert-type (+ 40 header) uint32-t*)))
   (while (not (= wav-string-data subchunk-id))
     (fseek file:file subchunk-size SEEK_CUR)
+    (if (modulo subchunk-size 2) (begin "padding byte" (fseek file:file 1 SEEK_CUR)))
     (if (not (fread &subchunk-id 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-size 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read)))
   (sc-comment
-- 
2.43.0


From 23eb12a358f24c40bd1d02d01055f437332d4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 79/85] fix: the results of futures are visible to the thread
 that touches them

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 72d78ee..dec77cd 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -27,7 +27,8 @@ void sph_future_eval(sph_thread_pool_task_t* task) {
   sph_future_t* a;
   a = ((sph_future_t*)((((uint8_t*)(task)) - offsetof(sph_future_t, task))));
   task->data = (a->f)((task->data));
-  a->finished = 1;
+  /* everything written before has to be visible to threads that see the future as finished */
+  __atomic_store_n((&(a->finished)), 1, __ATOMIC_RELEASE);
 }
 
 /** prepare a future in out and possibly start evaluation in parallel.
@@ -54,7 +55,7 @@ void sph_future_deinit() {
 /** blocks until future is finished and returns its result */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
-  while (!a->finished) {
+  while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
     nanosleep((&poll_interval), 0);
   };
   return ((a->task.data));
-- 
2.43.0


From a545396b4997594b33531eaf83db11a959c519ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 80/85] fix: release memory that can not be registered with an
 event in the sp_event_*_srq macros

---
 source/c-precompiled/sph-sp/sequencer.h | 68 ++++++++++++++-----------
 source/sc/sph-sp/sequencer.h.sc         | 65 ++++++++++++-----------
 2 files changed, 73 insertions(+), 60 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index 8588406..1227faa 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -22,6 +22,14 @@
   }
 #define sp_event_memory_array_add array3_add
 #define sp_event_memory_add(event, address) sp_event_memory_add_with_handler(event, address, free)
+
+/** add memory that was just allocated. frees it if it can not be added */
+#define sp_event_memory_own_srq(event_pointer, address) \
+  status = sp_event_memory_add(event_pointer, address); \
+  if (status_is_failure) { \
+    free(address); \
+    status_goto; \
+  }
 #define sp_event_memory_fixed_add(event, address) sp_event_memory_fixed_add_with_handler(event, address, free)
 #define sp_wave_event_config_new(out) sp_wave_event_config_new_n(1, out)
 #define sp_map_event_config_new(out) sp_map_event_config_new_n(1, out)
@@ -54,94 +62,94 @@
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_samples3_srq(event_pointer, out, ...) \
   status_require((sp_path_samples3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_samples4_srq(event_pointer, out, ...) \
   status_require((sp_path_samples4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_samples5_srq(event_pointer, out, ...) \
   status_require((sp_path_samples5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_samples_c3_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_samples_c4_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_samples_c5_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_times_srq(event_pointer, out, ...) \
   status_require((sp_path_times(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_times3_srq(event_pointer, out, ...) \
   status_require((sp_path_times3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_times4_srq(event_pointer, out, ...) \
   status_require((sp_path_times4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_times5_srq(event_pointer, out, ...) \
   status_require((sp_path_times5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_times_c3_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_times_c4_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_path_times_c5_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_zero3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_zero4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_zero5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_own_srq(event_pointer, (*out))
 #define sp_event_alloc_srq(event_pointer, allocator, size, pointer_address) \
   status_require((allocator(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_own_srq(event_pointer, (*pointer_address))
 #define sp_event_malloc_srq(event_pointer, size, pointer_address) \
   status_require((sph_helper_malloc(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_own_srq(event_pointer, (*pointer_address))
 #define sp_event_malloc_type_n_srq(event_pointer, count, type, pointer_address) sp_event_malloc_srq(event_pointer, (count * sizeof(type)), pointer_address)
 #define sp_event_malloc_type_srq(event_pointer, type, pointer_address) sp_event_malloc_type_n_srq(event_pointer, 1, type, pointer_address)
 #define sp_event_samples_srq(event_pointer, size, pointer_address) sp_event_alloc_srq(event_pointer, sp_samples_new, size, pointer_address)
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index 6609e66..aa88cdb 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -12,6 +12,11 @@
   (sp-event-prepare-optional-srq a) (if a.prepare (sp-event-prepare-srq a))
   sp-event-memory-array-add array3-add
   (sp-event-memory-add event address) (sp-event-memory-add-with-handler event address free)
+  (sp-event-memory-own-srq event-pointer address)
+  (begin
+    "add memory that was just allocated. frees it if it can not be added"
+    (set status (sp-event-memory-add event-pointer address))
+    (if status-is-failure (begin (free address) status-goto)))
   (sp-event-memory-fixed-add event address)
   (sp-event-memory-fixed-add-with-handler event address free)
   (sp-wave-event-config-new out) (sp-wave-event-config-new-n 1 out)
@@ -55,123 +60,123 @@
   (sp-event-path-samples-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-samples3-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-samples4-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-samples5-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-samples-c3-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-samples-c4-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-samples-c5-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-times-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-times3-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-times4-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-times5-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-times-c3-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-times-c4-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-path-times-c5-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-zero-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-zero3-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-zero4-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-zero5-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-zero-c3-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-zero-c4-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-zero-c5-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-scaled-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-scaled3-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-scaled4-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-scaled5-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-scaled-c3-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-scaled-c4-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-envelope-scaled-c5-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-own-srq event-pointer *out))
   (sp-event-alloc-srq event-pointer allocator size pointer-address)
   (begin
     (status-require (allocator size pointer-address))
-    (status-require (sp-event-memory-add event-pointer (pointer-get pointer-address))))
+    (sp-event-memory-own-srq event-pointer (pointer-get pointer-address)))
   (sp-event-malloc-srq event-pointer size pointer-address)
   (begin
     (status-require (sph-helper-malloc size pointer-address))
-    (status-require (sp-event-memory-add event-pointer (pointer-get pointer-address))))
+    (sp-event-memory-own-srq event-pointer (pointer-get pointer-address)))
   (sp-event-malloc-type-n-srq event-pointer count type pointer-address)
   (sp-event-malloc-srq event-pointer (* count (sizeof type)) pointer-address)
   (sp-event-malloc-type-srq event-pointer type pointer-address)
-- 
2.43.0


From f24a44dfe2e3a85dfa72256f43e7e98e32aba1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:21 +0000
Subject: [PATCH 81/85] fix: spline_path_set_copy leaked its copy of the
 segments when a segment could not be prepared

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index eedeed5..a1d0e92 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -107,7 +107,11 @@ uint8_t spline_path_set_copy(spline_path_t* path, spline_path_segment_t* segment
     return (1);
   };
   memcpy(s, segments, (segments_count * sizeof(spline_path_segment_t)));
-  return ((spline_path_set(path, s, segments_count)));
+  if (spline_path_set(path, s, segments_count)) {
+    free(s);
+    return (1);
+  };
+  return (0);
 }
 
 /** create a sampled array directly from segments */
-- 
2.43.0


From 4569cd7851ad39a35d2bbd1a4568ac12196fc147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:05 +0000
Subject: [PATCH 82/85] fix: noise events prepared by several threads at once
 raced on the shared random state

---
 source/c-precompiled/sph-sp/sequencer.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 454f2db..2d0e649 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -605,6 +605,9 @@ void sp_noise_event_free(sp_event_t* event) {
   sp_event_memory_free(event);
 }
 
+/** events can be prepared by multiple threads at once */
+pthread_mutex_t sp_noise_event_seed_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 /** an event for noise filtered by a windowed-sinc filter.
    very processing intensive if parameters change with low resolution.
    event:config.resolution is how often the filter parameters should be updated.
@@ -619,9 +622,13 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   sp_bool_t filter_states;
   sp_time_t ir_lengths[sp_channel_count_limit] = { 0 };
   sp_time_t temp_length;
+  sp_time_t seed;
   error_memory_init((3 + sp_channel_count_limit));
   c = event->config;
-  c->random_state = sp_random_state_new((sp_time_random_primitive((&sp_random_state))));
+  pthread_mutex_lock((&sp_noise_event_seed_mutex));
+  seed = sp_time_random_primitive((&sp_random_state));
+  pthread_mutex_unlock((&sp_noise_event_seed_mutex));
+  c->random_state = sp_random_state_new(seed);
   cc = c->channel_config;
   duration = (event->end - event->start);
   filter_mod = (cc->fmod || cc->wmod);
-- 
2.43.0


From d4a8762857ba27afb2ad35f40724ef5a742fdc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:06 +0000
Subject: [PATCH 83/85] fix: sp_permutations_max overflowed on the way to
 results that fit, or divided by zero, for sets of more than twelve elements

---
 source/c-precompiled/sph-sp/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index c9cf1b8..1ef4def 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -564,5 +564,11 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / sp_time_factorial((set_size - selection_size)))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) {
+  sp_size_t result = 1;
+  for (sp_size_t i = 0; (i < selection_size); i += 1) {
+    result *= (set_size - i);
+  };
+  return (result);
+}
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
-- 
2.43.0


From 9e802a4b37f1d7d4c872e34028a540a03cd5624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 84/85] fix: array3_declare_stack left the number of used
 elements of the new array uninitialised

---
 source/c/foreign/sph-sc-lib/sph-sp/array3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/array3.h b/source/c/foreign/sph-sc-lib/sph-sp/array3.h
index 965fa42..4df1b54 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/array3.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/array3.h
@@ -73,4 +73,5 @@
   value_t name##_data[array_size]; \
   type_t name; \
   name.data = name##_data; \
-  name.size = array_size
+  name.size = array_size; \
+  name.used = 0
-- 
2.43.0


From 48e2caf136b468706d21daadb4fee91eddadf72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:23 +0000
Subject: [PATCH 85/85] fix: finishing a thread pool again, after no_wait,
 leaked the finish tasks no thread was left to take

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 78ddd05..785df85 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -9,6 +9,18 @@ void sph_thread_finish(sph_thread_pool_task_t* task) {
   pthread_exit(0);
 }
 
+/** empty the queue. frees the tasks that thread-pool-finish allocated */
+void sph_thread_pool_discard_queue(sph_thread_pool_t* a) {
+  sph_thread_pool_task_t* task;
+  while (a->queue.size) {
+    task = sph_queue_get((sph_queue_deq((&(a->queue)))), sph_thread_pool_task_t, q);
+    if (sph_thread_finish == task->f) {
+      free(task);
+    };
+  };
+  sph_queue_init((&(a->queue)));
+}
+
 /** add a task to be processed by the next free thread.
    mutexes are used so that the queue is only ever accessed by a single thread */
 void sph_thread_pool_enqueue(sph_thread_pool_t* a, sph_thread_pool_task_t* task) {
@@ -44,7 +56,7 @@ int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discar
   };
   if (discard_queue) {
     pthread_mutex_lock((&(a->queue_mutex)));
-    sph_queue_init((&(a->queue)));
+    sph_thread_pool_discard_queue(a);
     pthread_mutex_unlock((&(a->queue_mutex)));
   };
   for (i = 0; (i < size); i = (1 + i)) {
@@ -55,6 +67,8 @@ int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discar
       if (0 == pthread_join(((a->threads)[i]), (&exit_value))) {
         a->size = (a->size - 1);
         if (0 == a->size) {
+          /* finish tasks that no thread was left to take, when the pool has been finished before with no-wait */
+          sph_thread_pool_discard_queue(a);
           sph_thread_pool_destroy(a);
         };
       };
-- 
2.43.0

