From 5bb8678ac43912860d2b24746a549c87bcff8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:51 +0000
Subject: [PATCH 01/29] fix: MPMC_QUEUE_RESET and MPMC_QUEUE_CAP name the queue
 they are given

Both macros referred to identifiers that do not exist (qc, p, q_->sz) and
failed to compile in any program that used them.
---
 inc/fast/mpmc_bounded_queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 2a4ce03..54db710 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -225,12 +225,12 @@ __alloc(size_t n)
 // multi-threaded context.
 #define MPMC_QUEUE_RESET(q_)    do {                                \
         typeof(q_) _qc = (q_);                                      \
-        __mpmc_slot_ty(qc) *_p   = &qc->slot[0],                    \
-                           *_end = p + qc->q.sz;                    \
+        __mpmc_slot_ty(_qc) *_p   = &_qc->slot[0],                  \
+                            *_end = _p + _qc->q.sz;                 \
                                                                     \
         for (; _p < _end; _p++) {                                   \
             atomic_store(&_p->turn, 0);                             \
-            memset(_p->data, 0, sizeof _p->data);                   \
+            memset(&_p->data, 0, sizeof _p->data);                  \
         }                                                           \
         __mpmc_q_reset(&_qc->q);                                    \
 } while (0)
@@ -345,7 +345,7 @@ __alloc(size_t n)
 #define MPMC_QUEUE_SIZE(q_)     ((size_t)__mpmc_q_len(&(q_)->q))
 
 // Return the capacity of the mpmc queue
-#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->sz))
+#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->q.sz))
 
 // Return true if the queue is full, false otherwise. Note that this
 // is best effort when we have concurrent readers/writers.
-- 
2.43.0


From 91741cfb72da147fbf9db02214d33c27d567ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:35 +0000
Subject: [PATCH 02/29] fix: rte ring: publish the head with release when
 taking a range

A multi-producer (consumer) moves prod.head (cons.head) with a CAS that had
only acquire ordering. Another thread that reads the new head was therefore
not ordered after the read of the opposite tail that justified it, could
read an older tail and compute mask + cons_tail - prod_head (or prod_tail -
cons_head) below zero, i.e. a huge number of free slots (entries).
---
 inc/fast/ringbuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/ringbuf.h b/inc/fast/ringbuf.h
index 2328e27..beb517f 100644
--- a/inc/fast/ringbuf.h
+++ b/inc/fast/ringbuf.h
@@ -457,7 +457,7 @@ __rte_ring_mp_do_enqueue(struct rte_ring *r, void * const *obj_table,
         prod_next = prod_head + n;
         success   = atomic_compare_exchange_weak_explicit(&r->prod.head, &prod_head,
                              prod_next,
-                             memory_order_acquire, memory_order_relaxed);
+                             memory_order_acq_rel, memory_order_relaxed);
     } while (unlikely(success == 0));
 
     /* write entries in ring */
@@ -594,7 +594,7 @@ __rte_ring_mc_do_dequeue(struct rte_ring *r, void **obj_table,
         cons_next = cons_head + n;
         success   = atomic_compare_exchange_weak_explicit(&r->cons.head, &cons_head,
                              cons_next,
-                             memory_order_acquire, memory_order_relaxed);
+                             memory_order_acq_rel, memory_order_relaxed);
     } while (likely(success == 0));
 
 
-- 
2.43.0


From 97ee927f5f86d33a281f1041969ac038bb4c4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:17 +0000
Subject: [PATCH 03/29] fix: llist.h: use list_init, INIT_LIST_HEAD does not
 exist

list_replace_init, list_del_init, list_cut_position and the splice_init
functions called an undeclared INIT_LIST_HEAD; programs using them did not
link.
---
 inc/fast/llist.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inc/fast/llist.h b/inc/fast/llist.h
index 2027868..ae2c5aa 100644
--- a/inc/fast/llist.h
+++ b/inc/fast/llist.h
@@ -164,7 +164,7 @@ static inline void list_replace_init(struct list_head *old,
                      struct list_head *newl)
 {
     list_replace(old, newl);
-    INIT_LIST_HEAD(old);
+    list_init(old);
 }
 
 /**
@@ -174,7 +174,7 @@ static inline void list_replace_init(struct list_head *old,
 static inline void list_del_init(struct list_head *entry)
 {
     __list_del_entry(entry);
-    INIT_LIST_HEAD(entry);
+    list_init(entry);
 }
 
 /**
@@ -297,7 +297,7 @@ static inline void list_cut_position(struct list_head *list,
         (head->next != entry && head != entry))
         return;
     if (entry == head)
-        INIT_LIST_HEAD(list);
+        list_init(list);
     else
         __list_cut_position(list, head, entry);
 }
@@ -352,7 +352,7 @@ static inline void list_splice_init(struct list_head *list,
 {
     if (!list_empty(list)) {
         __list_splice(list, head, head->next);
-        INIT_LIST_HEAD(list);
+        list_init(list);
     }
 }
 
@@ -369,7 +369,7 @@ static inline void list_splice_tail_init(struct list_head *list,
 {
     if (!list_empty(list)) {
         __list_splice(list, head->prev, head);
-        INIT_LIST_HEAD(list);
+        list_init(list);
     }
 }
 
-- 
2.43.0


From c9c83321699e78ad510f730bad22dcbb808fddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:58 +0000
Subject: [PATCH 04/29] fix: vect.h: VECT_INIT_FROM of an empty vector must
 leave a usable capacity

The capacity was left at 0, so the next reservation doubled 0 forever.
---
 inc/fast/vect.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 87e3ae8..06e0868 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -71,10 +71,12 @@ extern "C" {
 #define VECT_INIT_FROM(v, w)  do {                                                              \
                                     typeof(v) _v = (v);                                         \
                                     typeof(w) _w = (w);                                         \
+                                    size_t cap_  = _w->size > 0 ? _w->size : 16;                \
                                     assert(sizeof(_v->arr[0]) == sizeof(_w->arr[0]));           \
-                                    _v->arr  = NEWZA(typeof(_v->arr[0]), _w->size);             \
+                                    _v->arr  = NEWZA(typeof(_v->arr[0]), cap_);                 \
                                     memcpy(_v->arr, _w->arr, _w->size * sizeof(_w->arr[0]));    \
-                                    _v->cap  = _v->size = _w->size;                             \
+                                    _v->cap  = cap_;                                            \
+                                    _v->size = _w->size;                                        \
                                 } while (0)
 
 
-- 
2.43.0


From f13602d251eb409906ba4a146a80f97f6924d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:58 +0000
Subject: [PATCH 05/29] fix: vect.h: VECT_SAMPLE must use the array it
 reserved, not the old one

---
 inc/fast/vect.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 06e0868..715d5ec 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -285,10 +285,11 @@ extern "C" {
                                         typeof(s) b_ = (s);                     \
                                         if (k_ <  b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
-                                            typeof(a_->arr) x_ = a_->arr;       \
+                                            typeof(a_->arr) x_;                 \
                                             typeof(a_->arr) y_ = b_->arr;       \
                                             size_t i_;                          \
                                             __vect_RESERVE(a_, k_);             \
+                                            x_ = a_->arr;                       \
                                             a_->size = k_;                      \
                                             for (i_=0; i_ < k_; i_++)           \
                                                 x_[i_] = y_[i_];                \
-- 
2.43.0


From 5bd579add96c09cef93f60b60b9c725ab031e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:58 +0000
Subject: [PATCH 06/29] fix: vect.h: VECT_PUSH_FRONT must shift elements, not
 objects of the argument's type

---
 inc/fast/vect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 715d5ec..d43ba36 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -179,8 +179,8 @@ extern "C" {
 #define VECT_PUSH_FRONT(v,e)         do {                             \
                                             typeof(v) v_ = v;         \
                                             __vect_RESERVE(v_, v_->size+1);         \
-                                            typeof(e) * start_ = v_->arr;         \
-                                            typeof(e) * p_     = start_ + v_->size; \
+                                            typeof(v_->arr) start_ = v_->arr;       \
+                                            typeof(v_->arr) p_     = start_ + v_->size; \
                                             for (; p_ > start_; p_--)   \
                                                 *p_ = *(p_ - 1);         \
                                             *p_ = (e);                   \
-- 
2.43.0


From 41c62ec7efe37098bf916c37cc28979d8366c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 07/29] fix: arena_alloc: refuse sizes whose rounding or
 scaling overflows

Requests near SIZE_MAX (or SIZE_MAX/16) wrapped around and returned a block
with far less room than asked for.
---
 src/arena.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 3d9bbff..7b6a4f9 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -128,6 +128,9 @@ arena_alloc(arena_t a, size_t nbytes)
 
     if (!a) return 0;
 
+    /* Guard against arithmetic overflow in the size of a new node */
+    if (nbytes > (SIZE_MAX / 32) || a->chunk_size > (SIZE_MAX / 2)) return 0;
+
     /* Account for system alignment */
     nbytes = _ALIGN_UP(nbytes, SYS_ALIGNMENT);
 
-- 
2.43.0


From afed8d461cda9a91d884843d68527b0426b7f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 08/29] fix: mempool: a pool limited to one block must not
 abort

---
 src/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 54c4331..0f6cc65 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -230,7 +230,7 @@ new_chunk(mempool* a)
     uint64_t alloc_size = sizeof(memchunk) + chunk_size + MINALIGNMENT;
 
     /* Guard against arithmetic overflow */
-    assert(chunk_size > a->block_size && chunk_size > a->min_units);
+    assert(chunk_size >= a->block_size && chunk_size > a->min_units);
     assert(alloc_size > chunk_size);
 
     memchunk *ch = (memchunk *) (*a->traits.alloc)(a->traits.context, alloc_size);
-- 
2.43.0


From b305f438c582a5b5a5afd029251ee9eb34a9d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 09/29] fix: mempool: reject memory too small to hold the pool
 instead of underflowing its size

---
 src/mempool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mempool.c b/src/mempool.c
index 0f6cc65..ac4355b 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -429,6 +429,7 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool))) return -ENOMEM;
     poolsize -= (ptr - pUCHAR(pool));
 
     /*
@@ -484,6 +485,7 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (ptr - pUCHAR(pool)) + sizeof *a) return -ENOMEM;
     poolsize -= ptr - pUCHAR(pool);
     a         = (mempool* )ptr;
     ptr      += sizeof *a;
-- 
2.43.0


From e596125b393c1d03b980f36a250340c360434fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 10/29] fix: fhexdump: report write errors as -EIO; a positive
 ferror() was taken for success

---
 src/hexdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hexdump.c b/src/hexdump.c
index c39354f..03fee30 100644
--- a/src/hexdump.c
+++ b/src/hexdump.c
@@ -64,7 +64,7 @@ __fp_writer(void *ctx, const char *buf, size_t n)
     FILE *fp = ctx;
     size_t m = fwrite(buf, n, 1, fp);
     if (m != 1) {
-        return feof(fp) ? -EOF : ferror(fp);
+        return -EIO;
     }
     return 0;
 }
-- 
2.43.0


From d123cadf512736aafc3c0e9d83f111d875bd9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:56 +0000
Subject: [PATCH 11/29] fix: base64_decode_value: reject the character just
 past the decoding table

---
 src/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 0abcc94..1b63a8e 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -22,7 +22,7 @@ base64_decode_value(int value_in)
     };
 	static const int decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[value_in];
 }
 
-- 
2.43.0


From da9fc7cb574af6d689759af9b00e38ef505271ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:56 +0000
Subject: [PATCH 12/29] fix: base64_encode_buf, base64_decode_buf: require room
 for everything that is written

---
 src/b64_decode.c | 4 +++-
 src/b64_encode.c | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 1b63a8e..71e0ce3 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -106,7 +106,9 @@ base64_decode_buf(void* buf, int destlen, char* src, int srclen)
     char* dest = (char*)buf;
     base64_decode_state state;
 
-    if (destlen < (srclen/2)) return -ENOMEM;
+    /* 4 chars decode to 3 bytes; the block decoder also touches the
+     * byte after the last one it completes. */
+    if (srclen < 0 || destlen < (srclen/4)*3 + ((srclen%4)*3)/4 + 1) return -ENOMEM;
 
     base64_decode_init(&state);
 
diff --git a/src/b64_encode.c b/src/b64_encode.c
index 891f309..b13cef3 100644
--- a/src/b64_encode.c
+++ b/src/b64_encode.c
@@ -8,6 +8,7 @@
 
 #include <errno.h>
 #include <assert.h>
+#include <stdint.h>
 #include "utils/base64.h"
 
 const int CHARS_PER_LINE = 72;
@@ -125,7 +126,10 @@ base64_encode_buf(char* dest, int destlen, void* src, int srclen)
     base64_encode_state state;
     int n;
 
-    if (destlen < (2*srclen))
+    /* 4 chars for every 3 bytes, a newline for every full line and one
+     * at the end, and the trailing NUL */
+    int64_t need = 4 * (((int64_t)srclen + 2) / 3) + (int64_t)srclen / (3 * (CHARS_PER_LINE/4)) + 2;
+    if (srclen < 0 || destlen < need)
         return -ENOMEM;
 
     base64_encode_init(&state);
-- 
2.43.0


From c4cec50ebe8cc9363b52e169dfddaaef4f8d1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:47 +0000
Subject: [PATCH 13/29] fix: strunquote looked for the closing quote at the
 wrong character

---
 src/strunquote.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strunquote.c b/src/strunquote.c
index 86759df..d111cae 100644
--- a/src/strunquote.c
+++ b/src/strunquote.c
@@ -42,9 +42,9 @@ strunquote(char* s, char** p_ret)
     if (q != '"' && q != '\'') return 0;
 
     int n = strlen(s+1);
-    if (s[n-1] != q) return -1;
+    if (n < 1 || s[n] != q) return -1;
 
-    s[--n] = 0;
+    s[n] = 0;
     if (p_ret)  *p_ret = s + 1;
     return q;
 }
-- 
2.43.0


From 8ad42edddbcf183d33bbcde5bc1b8ab89735f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:47 +0000
Subject: [PATCH 14/29] fix: freadline reported read errors as end of file and
 wrote the NUL past the buffer

---
 src/freadline.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index bd74ac3..5c9adea 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -36,10 +36,7 @@ freadline(FILE* fp, unsigned char * str, int n)
     {
         int c = fgetc(fp);
         if (c == EOF)
-            return 0;
-
-        if (ferror(fp))
-            return -errno;
+            return ferror(fp) ? -errno : 0;
 
         if (c == '\r')
         {
@@ -52,7 +49,7 @@ freadline(FILE* fp, unsigned char * str, int n)
         else if (c == '\n')
             break;
 
-        if (str == end)
+        if ((end - str) <= 1)   // leave room for the NUL
             return -ENOSPC;
 
         *str++ = c;
-- 
2.43.0


From 4b2e8f8f9e521d06531740b5cbc05c3db8b2420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:47 +0000
Subject: [PATCH 15/29] fix: strsplit_quick grew (realloc'ed) a caller array of
 zero entries

---
 src/strsplit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 3cd3137..4f15de9 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -111,7 +111,7 @@ static inline int
 _stra_resize_if(stra* a, int n)
 {
     int want = a->size + n;
-    if (a->cap < 0)
+    if (a->cap <= 0)
         return want <= -a->cap;
 
     if (want >= a->cap)
-- 
2.43.0


From 6fd5d98c510fb4ed577def432ddf9b0712f0abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:47 +0000
Subject: [PATCH 16/29] fix: strsplit_csv indexed the delimiter set with
 negative characters

---
 src/strsplit_csv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strsplit_csv.c b/src/strsplit_csv.c
index 78c5e24..4a473cb 100644
--- a/src/strsplit_csv.c
+++ b/src/strsplit_csv.c
@@ -75,12 +75,12 @@ strsplit_csv(char *sv[], int sv_size, char *str, const char *sep)
      */
 
     if (!sep) sep = ",";
-    for (; (c = *sep); sep++) {
+    for (; (c = 0xff & *sep); sep++) {
         __add_delim(&v, c);
         assert(__is_delim(&v, c));
     }
 
-    while ((c = *str)) {
+    while ((c = 0xff & *str)) {
         switch (c) {
             case '\'': case '"':
                 if (q == c) {
-- 
2.43.0


From 73cb2568fd532a66157483e3f5fcfe8cd1233f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:23 +0000
Subject: [PATCH 17/29] fix: strtosize accepted sizes that overflow 64 bits and
 refused the B suffix

---
 src/strtosize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index baa6d0c..2569275 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -137,7 +137,7 @@ strtosize(const char* str, int base, uint64_t* ret)
 
     if (endptr && *endptr) {
         switch (*endptr++) {
-            case ' ':
+            case ' ': case 'B':
                 break;
 
             case 'k': case 'K':
@@ -182,7 +182,7 @@ strtosize(const char* str, int base, uint64_t* ret)
 
     uint64_t res = v * mult;
 
-    if (v > 0 && (res < v || res < mult)) return -ERANGE;
+    if (v > 0 && (mult == 0 || v > (~0ULL / mult))) return -ERANGE;
 
     if (ret) *ret = res;
     return 0;
-- 
2.43.0


From a70df4bb7dba9bf4225ee5cf6cd8b7bc6bd09de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:23 +0000
Subject: [PATCH 18/29] fix: humanize_size printed wrong fractions and exact
 units as the next smaller one

---
 src/humanize.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/humanize.c b/src/humanize.c
index d2eebd0..4f9f426 100644
--- a/src/humanize.c
+++ b/src/humanize.c
@@ -64,15 +64,15 @@ humanize_size(char * buf, size_t bufsize, uint64_t nbytes)
 
     for (; p->sz; ++p)
     {
-        if (nbytes > p->sz)
+        if (nbytes >= p->sz)
         {
             uint64_t n = nbytes / p->sz;
             uint64_t m = (nbytes % p->sz);
 
             if (m > 0) {
-                char frac[64];
-                snprintf(frac, sizeof frac, "%" PRIu64, m);
-                snprintf(buf, bufsize, "%" PRIu64 ".%2.2s %s", n, frac, p->suffix);
+                // hundredths; scale down first so that it can't overflow
+                unsigned int frac = (m / (p->sz / 1024)) * 100 / 1024;
+                snprintf(buf, bufsize, "%" PRIu64 ".%02u %s", n, frac, p->suffix);
             } else {
                 snprintf(buf, bufsize, "%" PRIu64 " %s", n, p->suffix);
             }
-- 
2.43.0


From cee05228914571982d6b1c23061c40a1e8cc333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:23 +0000
Subject: [PATCH 19/29] fix: IPv4 parsing accepted empty or overflowing
 numbers, /0 shifted by 32, long masks were cut

---
 src/parse-ip.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index ab304b3..f8424b5 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -57,6 +57,7 @@ dtoi(size_t* pn, const char* s)
         if (!isdigit(c)) return 0;
 
         n = n * 10 + (c - '0');
+        if (n > 255) return 0;  // neither an octet nor a mask length
     }
 
     *pn = n;
@@ -93,6 +94,7 @@ parse_ipv4(uint32_t* p_z, const char* sx)
     for (s = sx; (c = *s); ++s) {
         if (n > 3) return 0;
         if (m > 3) return 0;
+        if (c == '.' && m == 0) return 0;
 
         if (c != '.') {
             x[m++] = c;
@@ -110,16 +112,16 @@ parse_ipv4(uint32_t* p_z, const char* sx)
         m      = 0;
     }
 
-    if (m > 0) {
-        x[m] = 0;
-        z    = 0;
-        r    = dtoi(&z, x);
+    if (m == 0) return 0;
 
-        if (!r)      return 0;
-        if (z > 255) return 0;
+    x[m] = 0;
+    z    = 0;
+    r    = dtoi(&z, x);
 
-        p[n++] = z & 0xff;
-    }
+    if (!r)      return 0;
+    if (z > 255) return 0;
+
+    p[n++] = z & 0xff;
 
     if (n < 4) return 0;
 
@@ -152,7 +154,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         memcpy(as, str, n);
         as[n] = 0;
 
-        safe_strcpy(ms, sizeof ms, sl+1);
+        if (safe_strcpy(ms, sizeof ms, sl+1) < 0)   return 0;
     }
 
     // Now, as has the address part, ms has the mask part.
@@ -169,7 +171,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
             if (z > 32)               return 0;
         }
 
-        *p_m = 0xffffffff << (32 - (uint32_t)z);
+        *p_m = z ? 0xffffffff << (32 - (uint32_t)z) : 0;
     }
 
     return 1;
-- 
2.43.0


From 3d10c6f5ed61309b406af5d0dec746d3fe4c9d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:17 +0000
Subject: [PATCH 20/29] fix: fast-ht lost fingerprints and treated free slots
 as holding key 0

---
 src/hashtable/fast-ht.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 6ecf888..7faef74 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -165,7 +165,9 @@ static inline uint64_t
 __update_fp(uint64_t fp, uint64_t k, int slot)
 {
     uint8_t ctrl = __control(fp) & ~(1 << slot);
-    uint64_t h2  = ((k & 0xff) << (8 * slot)) | __h2(fp);
+    uint64_t h2  = __fp(fp) & ~(_U64(0xff) << (8 * slot));
+
+    h2 |= (k & 0xff) << (8 * slot);
 
     return h2 | (_U64(ctrl) << 56);
 }
@@ -177,11 +179,22 @@ static inline uint64_t
 __clear_fp(uint64_t fp, int slot)
 {
     uint8_t ctrl = __control(fp) | (1 << slot);
-    uint64_t h2  = __h2(fp) & ~(_U64(0xff) << (8 * slot));
+    uint64_t h2  = __fp(fp) & ~(_U64(0xff) << (8 * slot));
     return h2 | (_U64(ctrl) << 56);
 }
 
 
+// Make a new bag: all of its slots are free.
+static inline bag*
+__newbag()
+{
+    bag *g = __NEWZ(bag);
+
+    g->fp = __mkfp(0, 0x7f);
+    return g;
+}
+
+
 // Find the key 'k' in bag 'g' and return the matching index.
 // Return -1 on ENOENT
 static inline int
@@ -283,7 +296,7 @@ __insert(hb *b, uint64_t k, void *v)
     }
 
     if (!bg) {
-        bg   = __NEWZ(bag);
+        bg   = __newbag();
         slot = 0;
         b->bags++;
         SL_INSERT_HEAD(&b->head, bg, link);
@@ -320,7 +333,7 @@ __insert_quick(hb *b, uint64_t k, void *v)
     }
 
     // Make a new bag and put our element there.
-    g = __NEWZ(bag);
+    g = __newbag();
     g->fp = __update_fp(g->fp, k, 0);
     g->hk[0] = k;
     g->hv[0] = v;
@@ -381,15 +394,13 @@ resize(ht* h)
                 if (ctrl & (1 << i)) continue;
 
                 uint64_t p = g->hk[i];
-                if (p) {
-                    uint64_t j = __hash(p, n, salt);
-                    hb *x      = b+j;
-
-                    __insert_quick(x, p, g->hv[i]);
-                    if (x->bags > maxbags) maxbags = x->bags;
-                    if (x->nodes > maxn)   maxn    = x->nodes;
-                    if (x->nodes == 1)     fill++;
-                }
+                uint64_t j = __hash(p, n, salt);
+                hb *x      = b+j;
+
+                __insert_quick(x, p, g->hv[i]);
+                if (x->bags > maxbags) maxbags = x->bags;
+                if (x->nodes > maxn)   maxn    = x->nodes;
+                if (x->nodes == 1)     fill++;
             }
 
             DEL(g);
-- 
2.43.0


From 003bfeb6a4fe5bb64c655b41d6cf8de0dd3868ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:00 +0000
Subject: [PATCH 21/29] fix: hashtab left the bucket locked when no node was
 added and reported a failed grow as a failed insert

Also: 1 << logsize in int, remove_if passed the address of the datum
pointer, the bucket iterator ignored the table's randomizer, the sorted
iterator compared addresses, locked twice and ignored a failed allocation.
---
 src/hashtable/hashtab.c      | 11 +++++++----
 src/hashtable/hashtab_iter.c | 26 +++++++++++++-------------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 6ec93b6..96d2a4e 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -65,14 +65,15 @@ hash_table_new(hash_table_t * ptab, const hash_table_policy * tr)
     i = tr->logsize <= 0 || (tr->logsize >= (8*sizeof(size_t))) ? 10 : tr->logsize;
 
     tab->fillmax = tr->fillmax <= 0 || tr->fillmax >= 100 ? 80 : tr->fillmax;
-    tab->size    = 1 << i;
+    tab->size    = (size_t)1 << i;
     tab->random  = arc4random();
     tab->hash    = tr->hash;
     tab->cmp     = tr->cmp;
     tab->dtor    = tr->dtor;
     tab->mem     = tr->mem;
     tab->lock    = tr->lock;
-    tab->buckets = tNEWA(hash_bucket, tab, tab->size);
+    tab->buckets = tab->size > ((size_t)-1) / sizeof(hash_bucket) ? 0 :
+                                    tNEWA(hash_bucket, tab, tab->size);
     if ( !tab->buckets )
     {
         memmgr_free(&tr->mem, tab);
@@ -303,7 +304,7 @@ hash_table_remove_if(hash_table * tab,
         lockmgr_lock(&b->lock);
         p_next = &SL_FIRST(&b->head);
         while ((p = *p_next)) {
-            if ((*pred)(cookie, &p->data)) {
+            if ((*pred)(cookie, p->data)) {
                 ++retval;
                 *p_next = SL_NEXT(p, link);
                 remove_node(tab, b, p);
@@ -451,12 +452,14 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     if (b->count == 1) {
         ++tab->stats.fill;
         if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
-            retval = resize(tab);
+            resize(tab);    // the node is in; failing to grow is benign
     }
 
     lockmgr_unlock(&tab->lock);
+    return retval;
 
 _done:
+    lockmgr_unlock(&b->lock);
     return retval;
 }
 
diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 71900be..a5fdc3b 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -235,7 +235,12 @@ _mk_iter(hash_table_iter_t* p_ret,
     it->op    = Iter_tab[type];
 
     if (it->op->init)
-        (*it->op->init)(it, param);
+        retval = (*it->op->init)(it, param);
+
+    if (retval < 0) {
+        tFREE(tab, it);
+        it = 0;
+    }
 
 _done:
     lockmgr_unlock(&tab->lock);
@@ -315,7 +320,7 @@ qsort_cmp(const void * a, const void * b)
     indir_node * p = (indir_node *)a,
                * q = (indir_node *)b;
 
-    return (*p->cmp)(&p->node->data, &q->node->data);
+    return (*p->cmp)(p->node->data, q->node->data);
 }
 
 
@@ -328,18 +333,17 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     sorted_iter * sorted = &it->un.sorted;
     size_t i, n;
     hash_cmp_f * cmp;
-    int ok = EOF;
-
     assert(tab);
 
     USEARG(param);
 
-    lockmgr_lock(&tab->lock);
+    // The caller (_mk_iter) holds tab->lock.
     sorted->max = tab->stats.nodes;
-    if (sorted->max == 0) goto _done;
+    if (sorted->max == 0) return 0;
 
     cmp         = tab->cmp;
     sorted->nodes = tNEWA(indir_node, tab, sorted->max);
+    if (!sorted->nodes) return -ENOMEM;
 
     nodes = sorted->nodes;
     n     = tab->size;
@@ -363,11 +367,7 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     if (sorted->max > 1)
         qsort(sorted->nodes, sorted->max, sizeof sorted->nodes[0], qsort_cmp);
 
-    ok = 0;
-
-_done:
-    lockmgr_unlock(&tab->lock);
-    return ok;
+    return 0;
 }
 
 
@@ -443,7 +443,7 @@ static int
 bucket_iter_init(hash_table_iter * it, const void * key)
 {
     hash_table * tab = it->table;
-    uint32_t  hash  = (*tab->hash)(key);
+    uint32_t  hash  = tab->random ^ (*tab->hash)(key);
     hash_bucket * b  = &tab->buckets[hash & (tab->size -1)];
 
     it->un.bucket.bucket = b;
@@ -479,7 +479,7 @@ bucket_iter_end(hash_table_iter * it)
 static int
 bucket_iter_next(hash_table_iter * it)
 {
-    it->cur = SL_NEXT(it->cur, link);
+    if (it->cur) it->cur = SL_NEXT(it->cur, link);
     return it->cur ? 0 : EOF;
 }
 
-- 
2.43.0


From cb8df7d6312607674df78f6369c433d073243478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:33 +0000
Subject: [PATCH 22/29] fix: ulid lost its time stamp and garbled a digit;
 uuid_fromstring wrote past 16 bytes

ulid_generate used && for &; the sixth text digit took a bit of the wrong
byte; values over 128 bits were accepted.  uuid_fromstring decoded 36
digits without dashes into 18 bytes and dropped an odd 33rd digit.  Both
ignored a failing getentropy.
---
 src/ulid.c | 21 ++++++++++++---------
 src/uuid.c |  5 +++--
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index f1d91d9..0c81626 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -46,14 +46,14 @@ ulid_generate(uint8_t *buf, size_t bsiz)
 
     ms &= ~(((uint64_t)0xffff) << 48);   // clear top 16 bits;
 
-    *buf++ = 0xff && (ms >> 40);
-    *buf++ = 0xff && (ms >> 32);
-    *buf++ = 0xff && (ms >> 24);
-    *buf++ = 0xff && (ms >> 16);
-    *buf++ = 0xff && (ms >>  8);
-    *buf++ = 0xff && ms;
-
-    getentropy(buf, 10);
+    *buf++ = 0xff & (ms >> 40);
+    *buf++ = 0xff & (ms >> 32);
+    *buf++ = 0xff & (ms >> 24);
+    *buf++ = 0xff & (ms >> 16);
+    *buf++ = 0xff & (ms >>  8);
+    *buf++ = 0xff & ms;
+
+    if (getentropy(buf, 10) < 0) return -errno;
     return 16;
 }
 
@@ -104,6 +104,9 @@ ulid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
         if (0xff == z) return -EINVAL;  \
         z; })
 
+    // 26 chars hold 130 bits; the first one only has 3 bits to give.
+    if (v(0) > 7) return -EINVAL;
+
 	*buf++   = ((v(0) << 5) |  v(1));
 	*buf++   = ((v(2) << 3) | (v(3) >> 2));
 	*buf++   = ((v(3) << 6) | (v(4) << 1) | (v(5) >> 4));
@@ -146,7 +149,7 @@ ulid_tostring(char *s, size_t bsiz, const uint8_t *id)
     *p++ = b32[ ((id[ 1] &   7) << 2) | ((id[ 2] & 192) >> 6)];
 
     *p++ = b32[ ( id[ 2] &  62) >> 1];
-    *p++ = b32[ ((id[ 3] &   1) << 4) | ((id[ 3] & 240) >> 4)];
+    *p++ = b32[ ((id[ 2] &   1) << 4) | ((id[ 3] & 240) >> 4)];
     *p++ = b32[ ((id[ 3] &  15) << 1) | ((id[ 4] & 128) >> 7)];
     *p++ = b32[ ( id[ 4] & 124) >> 2];
 
diff --git a/src/uuid.c b/src/uuid.c
index 514f48f..0216c29 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -26,10 +26,10 @@
 int
 uuid_generate(uint8_t *buf, size_t bsiz)
 {
-    if (bsiz == 0) return -EINVAL;
+    if (!buf || bsiz == 0) return -EINVAL;
     if (bsiz < 16) return -ENOSPC;
 
-    getentropy(buf, 16);
+    if (getentropy(buf, 16) < 0) return -errno;
 
     buf[6] = 0x4f & (buf[6] | 0x40);
     buf[8] = 0xbf & (buf[8] | 0x80);
@@ -70,6 +70,7 @@ uuid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
                 byte |= (c - 'A' + 10) << shift;
                 break;
         }
+        if (bsiz == 0) return -EINVAL;  // more than 32 digits
         if ((shift -= 4) < 0) {
             *buf++ = byte;
             byte   = 0;
-- 
2.43.0


From 7549e4d814c8e7ce05dc19ad9a044ec6f46d5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:24 +0000
Subject: [PATCH 23/29] fix: counting bloom counters wrapped and removal took
 other elements' counts; xor filter tables were too small

---
 src/hashtable/bloom.c     | 20 +++++++++++++-------
 src/hashtable/xorfilter.c |  6 ++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index f852be1..250e366 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -249,13 +249,17 @@ counting_bloom_probe(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
 
-        b->bitmap[j]++;
+        // A counter that is full stays full; wrapping to zero would
+        // lose every element that uses it.
+        if (b->bitmap[j] < 0xff) b->bitmap[j]++;
     }
 
     b->size++;
 }
 
 
+static int counting_bloom_find(bloom* b, uint64_t val);
+
 /*
  * Return False if element was not found, True otherwise.
  */
@@ -266,19 +270,19 @@ counting_bloom_remove(bloom* b, uint64_t val)
     uint64_t h1 = z & 0xffffffff;
     uint64_t h2 = z >> 32;
     uint64_t i;
-    uint64_t r = 0;
+
+    // Removing what isn't there would take counts from other elements
+    if (!counting_bloom_find(b, val)) return 0;
 
     for (i = 0; i < b->k; ++i) {
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
-        if (b->bitmap[j]) {
-            b->bitmap[j] -= 1;
-            r = 1;
-        }
+
+        if (b->bitmap[j] < 0xff) b->bitmap[j] -= 1;
     }
 
     b->size--;
-    return r;
+    return 1;
 }
 
 
@@ -324,6 +328,7 @@ counting_bloom_init(bloom* b, size_t n, double e)
     b->e      = e;
     b->bmsize = bytes;
     b->flags  = 0;
+    b->size   = 0;
 
     // use a random salt for the seeded hash function.
     getentropy(&b->salt, sizeof b->salt);
@@ -353,6 +358,7 @@ standard_bloom_init(bloom* b, size_t n, double e)
 
     b->bmsize  = bytes;
     b->flags   = 0;
+    b->size    = 0;
 
     // use a random salt for the seeded hash function.
     getentropy(&b->salt, sizeof b->salt);
diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 079476c..a9dce90 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -277,11 +277,12 @@ Xorfilter_new8(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
 
-    x->fp8 = NEWZA(uint8_t, VECT_LEN(&stack) * 3);
+    x->fp8 = NEWZA(uint8_t, (size_t)x->size * 3);
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -301,11 +302,12 @@ Xorfilter_new16(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
 
-    x->fp16  = NEWZA(uint16_t, VECT_LEN(&stack) * 3);
+    x->fp16  = NEWZA(uint16_t, (size_t)x->size * 3);
     x->is_16 = 1;
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
-- 
2.43.0


From 1d9be742f6c5e4d8ea8f84b9f66a3589c78c895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:40 +0000
Subject: [PATCH 24/29] fix: parse_ipv4_and_mask cut the length of the address
 part to int

---
 src/parse-ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index f8424b5..b27a89e 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -145,7 +145,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         ms[0] = 0;
     }
     else {
-        int n = sl - str;
+        size_t n = sl - str;
 
         // max len: nnn.nnn.nnn.nnn = 15
         if (n > 15)  return 0;
-- 
2.43.0


From 886617840058e5caf80c43b86d8acbc04579869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 25/29] fix: gstring: length after gstr_copy and gstr_unquote,
 room for the terminator in gstr_readline, sizes above 2^31

---
 src/gstring.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 123a43c..f735d08 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -26,12 +26,12 @@
 #include "bits.h"
 
 /* Grow string `g' by `len' bytes -- if necessary. */
-static gstr* grow_if(gstr * g, int len);
+static gstr* grow_if(gstr * g, size_t len);
 
 
 /* Grow the gstr by additional 'len' bytes -- if necessary. */
 static gstr*
-grow_if(gstr * g, int len)
+grow_if(gstr * g, size_t len)
 {
     size_t want = g->len + len + 1; // trailing null
 
@@ -258,6 +258,7 @@ gstr_copy(gstr * dest, const gstr* src)
 
     dest = grow_if(dest, len+1);
     memcpy(dest->str, src->str, len+1);
+    dest->len = len;
     return dest;
 }
 
@@ -349,10 +350,11 @@ gstr_unquote(gstr* g)
     int q = g->str[0];
     if (q != '"' && q != '\'')  return 0;
 
-    if (g->str[g->len-1] != q) return -1;
+    if (g->len < 2 || g->str[g->len-1] != q) return -1;
 
-    g->str[--g->len] = 0;
+    g->len -= 2;
     memmove(g->str, g->str+1, g->len);
+    g->str[g->len] = 0;
     return q;
 }
 
@@ -380,13 +382,13 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     assert(tok);
 
     __init_delim(&d);
-    for (; (c = *tok); tok++)
+    for (; (c = (unsigned char)*tok); tok++)
         __add_delim(&d, c);
 
     str = g->str;
     len = g->len = 0;
     while ((c = fgetc(fp)) != EOF) {
-        if (len >= g->cap) {
+        if (len+1 >= g->cap) { // leave room for the trailing null
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
             if (!str)
-- 
2.43.0


From 2dc05b376a21eab79200ef2347bd49f71c65eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 26/29] fix: gstr_escape: bytes above 0x7f indexed outside the
 delimiter set, octal escapes had the escape character twice

---
 src/escape.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/escape.c b/src/escape.c
index ebc2993..06c83bf 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -35,10 +35,11 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
     int c;
 
     __init_delim(&d);
-    for (; (c = *escset); escset++) {
+    for (; (c = (unsigned char)*escset); escset++) {
         __add_delim(&d, c);
     }
 
+    esc_char = (unsigned char)esc_char;
     assert(!__is_delim(&d, esc_char));
 
     // we stash the src pointer while we walk it.
@@ -51,7 +52,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
 
     assert(g->str);
 
-    while ((c = *ptr++)) {
+    while ((c = (unsigned char)*ptr++)) {
         if (c == esc_char) {
             gstr_append_ch(g, c);
             gstr_append_ch(g, c);
@@ -80,7 +81,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
                     gstr_append_ch(g, 'v');
                     break;
                 default:
-                    snprintf(buf, sizeof buf, "%c0%3.3o", esc_char, c);
+                    snprintf(buf, sizeof buf, "0%3.3o", c);
                     gstr_append_str(g, buf);
             }
         } else {
-- 
2.43.0


From ca0eb515a86943f7bb8e0abd6816703071bc9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 27/29] fix: gstr_unescape: value of the hex digits a to f

---
 src/unescape.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index 1262574..2d9508e 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -234,12 +234,12 @@ extract_hex(int *p_val, const char *ptr)
 
             case 'a': case 'b': case 'c':
             case 'd': case 'e': case 'f':
-                z = c - 'a';
+                z = c - 'a' + 10;
                 break;
 
             case 'A': case 'B': case 'C':
             case 'D': case 'E': case 'F':
-                z = c - 'A';
+                z = c - 'A' + 10;
                 break;
 
             case 0:
-- 
2.43.0


From c5f4a04cc6fe283775985941f32abd6803ab2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 28/29] fix: queue.h: FQ_DYN_INIT did not compile (misspelt
 __qetyp)

---
 inc/fast/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 0c33251..68a6a05 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -122,7 +122,7 @@ typedef struct __fast_queue __fast_queue;
                                 __fast_queue * _q = &(q_)->q;  \
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
-                                (q_)->elem = NEWZA(__qetype(q_), sz_);\
+                                (q_)->elem = NEWZA(__qetyp(q_), sz_);\
                             } while (0)
 
 
-- 
2.43.0


From 4727592b811c10e98c1d9887faedaf1351281cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:55 +0000
Subject: [PATCH 29/29] fix: syncq.h: a failed mutex initialisation was
 reported as the value of an unrelated errno

---
 inc/fast/syncq.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index b5c1f52..31c699b 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -26,6 +26,7 @@ extern "C" {
 
 #include <stdint.h>
 #include <assert.h>
+#include <errno.h>
 #include <semaphore.h>
 #include <pthread.h>
 
@@ -72,7 +73,7 @@ __syncobj_init(__syncobj* s, size_t n)
 {
     int r;
 
-    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -errno;
+    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -r;
     if ((r = sem_init(&s->notempty, 0, 0)) != 0)     return -errno;
     if ((r = sem_init(&s->notfull,  0, n)) != 0)     return -errno;
 
-- 
2.43.0

